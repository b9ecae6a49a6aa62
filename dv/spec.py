"""Independent specification of the algebra: generators as words, sorted by adjacent transpositions.

Nothing here imports numga. A blade is a bit mask over generators (bit i = generator i), as a Python
int; a multivector is a dict {blade: coefficient} over any commutative ring. The sign of a product is
obtained from the definition: concatenate the two sorted words, bubble-sort with one sign per swap of
distinct generators, and replace each adjacent equal pair by its metric value.
"""
from functools import lru_cache


def word(b):
	return [i for i in range(b.bit_length()) if b >> i & 1]


def sort_word(w, sig):
	"""Canonical form of a word of generators -> (sign, blade). sig=None: exterior algebra (e e = 0)."""
	w = list(w)
	s = 1
	done = False
	while not done:
		done = True
		i = 0
		while i + 1 < len(w):
			if w[i] > w[i + 1]:
				w[i], w[i + 1] = w[i + 1], w[i]
				s = -s
				done = False
			elif w[i] == w[i + 1]:
				m = 0 if sig is None else sig[w[i]]
				s *= m
				del w[i:i + 2]
				done = False
				continue
			i += 1
	b = 0
	for i in w:
		b |= 1 << i
	return s, b


def popcount(b):
	return len(word(b))


class Spec:
	"""Clifford algebra over the signature `sig` (tuple of +1/-1/0)."""
	def __init__(self, sig):
		self.sig = tuple(sig)
		self.n = len(self.sig)
		self.N = 1 << self.n
		self.I = self.N - 1
		self._cache = {}

	def blade_mul(self, a, b):
		k = (a, b)
		r = self._cache.get(k)
		if r is None:
			r = self._cache[k] = sort_word(word(a) + word(b), self.sig)
		return r

	def wedge_sign(self, a, b):
		"""sign of a ^ b, for disjoint a and b; 0 otherwise"""
		return sort_word(word(a) + word(b), None)[0] if not a & b else 0

	def swaps_sign(self, a, b):
		"""sign of sorting the concatenated words, ignoring the metric (all squares +1)"""
		return sort_word(word(a) + word(b), (1,) * self.n)[0]

	# multivectors: dicts
	def mul(self, x, y):
		return self.prod(x, y, lambda a, b, c: True)

	def prod(self, x, y, keep):
		out = {}
		for a, xa in x.items():
			for b, yb in y.items():
				s, c = self.blade_mul(a, b)
				if s and keep(popcount(a), popcount(b), popcount(c)):
					t = xa * yb
					out[c] = out[c] + s * t if c in out else s * t
		return out

	def chain(self, x, *ys):
		for y in ys:
			x = self.mul(x, y)
		return x

	def add(self, x, y, s=1):
		out = dict(x)
		for k, v in y.items():
			out[k] = out[k] + s * v if k in out else s * v
		return out

	def sub(self, x, y):
		return self.add(x, y, -1)

	def scale(self, x, s):
		return {k: v * s for k, v in x.items()}

	def wedge(self, x, y):
		out = {}
		for a, xa in x.items():
			for b, yb in y.items():
				if not a & b:
					out[a | b] = out.get(a | b, 0) + self.wedge_sign(a, b) * (xa * yb)
		return out

	def inner(self, x, y):
		return self.prod(x, y, lambda a, b, c: abs(a - b) == c)
	def scalar(self, x, y):
		return self.prod(x, y, lambda a, b, c: c == 0)
	def lc(self, x, y):
		return self.prod(x, y, lambda a, b, c: b - a == c)
	def rc(self, x, y):
		return self.prod(x, y, lambda a, b, c: a - b == c)

	def grade(self, x, *ks):
		return {b: v for b, v in x.items() if popcount(b) in ks}

	def select(self, x, blades):
		bl = set(blades)
		return {b: v for b, v in x.items() if b in bl}

	def map_sign(self, x, f):
		return {b: f(b) * v for b, v in x.items()}

	def reverse_sign(self, b):
		"""sign of writing the word of b backwards"""
		return sort_word(word(b)[::-1], (1,) * self.n)[0]
	def involute_sign(self, b):
		s = 1
		for _ in word(b):
			s = -s
		return s

	def reverse(self, x):
		return self.map_sign(x, self.reverse_sign)
	def involute(self, x):
		return self.map_sign(x, self.involute_sign)
	def conjugate(self, x):
		return self.map_sign(x, lambda b: self.reverse_sign(b) * self.involute_sign(b))
	def scalar_negation(self, x):
		return self.map_sign(x, lambda b: 1 if b == 0 else -1)
	def pseudoscalar_negation(self, x):
		return self.map_sign(x, lambda b: 1 if b in (0, self.I) else -1)

	def metric_sign(self, b):
		"""product of the negative squares of the generators in b (null generators count as +1)"""
		s = 1
		for i in word(b):
			if self.sig[i] < 0:
				s = -s
		return s
	def is_degenerate(self, b):
		return any(self.sig[i] == 0 for i in word(b))

	# duals, by their defining equations
	def rcd(self, x):
		"""right complement dual: b ^ d(b) = I"""
		return {self.I ^ b: self.wedge_sign(b, self.I ^ b) * v for b, v in x.items()}
	def lcd(self, x):
		"""left complement dual: d(b) ^ b = I"""
		return {self.I ^ b: self.wedge_sign(self.I ^ b, b) * v for b, v in x.items()}
	def right_hodge(self, x):
		return self.rcd(self.map_sign(x, self.metric_sign))
	def left_hodge(self, x):
		return self.lcd(self.map_sign(x, self.metric_sign))
	def _inv(self, f, x):
		out = {}
		for b, v in x.items():
			(k, s), = f({self.I ^ b: 1}).items()
			assert k == b and s in (1, -1)
			out[self.I ^ b] = s * v
		return out
	def right_hodge_inverse(self, x):
		return self._inv(self.right_hodge, x)
	def left_hodge_inverse(self, x):
		return self._inv(self.left_hodge, x)
	dual = right_hodge
	dual_inverse = right_hodge_inverse
	def right_complement(self, x):
		"""b I with null generators squared to +1"""
		return {self.I ^ b: self.metric_sign(b) * self.swaps_sign(b, self.I) * v for b, v in x.items()}
	def left_complement(self, x):
		"""I b with null generators squared to +1"""
		return {self.I ^ b: self.metric_sign(b) * self.swaps_sign(self.I, b) * v for b, v in x.items()}

	def anti(self, f, *xs):
		return self.left_complement(f(*(self.right_complement(x) for x in xs)))
	def anti_wedge(self, x, y):
		return self.anti(self.wedge, x, y)
	def left_interior(self, x, y):
		return self.anti_wedge(self.left_complement(x), y)
	def right_interior(self, x, y):
		return self.anti_wedge(x, self.right_complement(y))
	def regressive(self, x, y):
		return self.dual_inverse(self.wedge(self.dual(x), self.dual(y)))

	def half(self, x):
		from fractions import Fraction
		return {k: v * Fraction(1, 2) for k, v in x.items()}
	def commutator(self, x, y, m=None):
		m = m or self.mul
		return self.half(self.sub(m(x, y), m(y, x)))
	def anti_commutator(self, x, y, m=None):
		m = m or self.mul
		return self.half(self.add(m(x, y), m(y, x)))

	def sandwich_full(self, R, v):
		return self.mul(self.mul(R, v), self.reverse(R))


def order(blades):
	"""canonical order: ascending grade, then ascending bit pattern"""
	return sorted(blades, key=lambda b: (popcount(b), b))


def blades_of_grades(n, grades):
	return order(b for b in range(1 << n) if popcount(b) in set(grades))
