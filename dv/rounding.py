"""Forward error analysis of the real code by execution on error intervals.

A value `Err` stands for every pair (exact, computed) of one coefficient, over all inputs of a box:
  lo <= exact <= hi,   |computed - exact| <= e,   t >= the sum of the magnitudes of the computed terms it is a sum of.
Each operation adds the rounding of one double precision operation in the standard model (round to nearest, u = 2^-53);
an addition is charged u times the magnitudes of *all* terms, so the bound of a sum holds for every order of summation.
Products with integers +-1, 2, .. powers of two are exact. The bounds themselves are rounded outwards."""
import math
from fractions import Fraction

U = 2.0 ** -53
TINY = 2.0 ** -1000


class Out(Exception):
	"""outside the analysis: a denominator or radicand that the box does not keep away from zero, a comparison"""


def up(x): return math.nextafter(x * (1 + 2 ** -50) if x > 0 else x * (1 - 2 ** -50), math.inf)
def dn(x): return -up(-x)


def power_of_two(c):
	m, _ = math.frexp(abs(c))
	return m == .5


class Err:
	__slots__ = 'lo', 'hi', 'e', 't', 'base', 'c'
	__array_priority__ = 100
	def __init__(self, lo, hi, e=0.0, t=None, base=None, c=1.0):
		if not (math.isfinite(lo) and math.isfinite(hi) and math.isfinite(e)): raise Out('unbounded')
		self.lo, self.hi, self.e = lo, hi, e
		self.t = up(max(abs(lo), abs(hi)) + e) if t is None else t
		self.base = self if base is None else base
		self.c = c
	@property
	def mag(self): return up(max(abs(self.lo), abs(self.hi)) + self.e)
	@property
	def exact_mag(self): return max(abs(self.lo), abs(self.hi))

	def __neg__(self): return Err(-self.hi, -self.lo, self.e, self.t, self.base, -self.c)
	def __pos__(self): return self
	def __add__(self, o):
		o = lift(o)
		if o is NotImplemented: return o
		if zero(o): return self
		if zero(self): return o
		t = up(self.t + o.t)
		return Err(dn(self.lo + o.lo), up(self.hi + o.hi), up(up(self.e + o.e) + up(U * t)), up(t * (1 + U)))
	__radd__ = __add__
	def __sub__(self, o):
		o = lift(o)
		return o if o is NotImplemented else self + (-o)
	def __rsub__(self, o): return (-self) + o
	def __mul__(self, o):
		o = lift(o)
		if o is NotImplemented: return o
		if zero(self): return self
		if zero(o): return o
		for a, b in ((self, o), (o, self)):
			if b.lo == b.hi and not b.e and power_of_two(b.lo):
				k = b.lo
				l, h = (a.lo * k, a.hi * k) if k > 0 else (a.hi * k, a.lo * k)
				return Err(l, h, a.e * abs(k), a.t * abs(k), a.base, a.c * k)
		if self.base is o.base and self.base is not None:
			q = self.base
			m = q.exact_mag
			l = 0.0 if q.lo <= 0 <= q.hi else dn(min(abs(q.lo), abs(q.hi)) ** 2)
			h, k = up(m * m), self.c * o.c
			l, h = (dn(l * k), up(h * k)) if k > 0 else (dn(h * k), up(l * k))
		else:
			p = [self.lo * o.lo, self.lo * o.hi, self.hi * o.lo, self.hi * o.hi]
			l, h = dn(min(p)), up(max(p))
		e = up(up(up(self.mag * o.e) + up(o.exact_mag * self.e)) + up(up(U * up(self.mag * o.mag)) + TINY))
		return Err(l, h, e)
	__rmul__ = __mul__
	def inverse_bound(self):
		if self.lo <= 0 <= self.hi: raise Out('denominator')
		m = min(abs(self.lo), abs(self.hi))
		if not dn(m - self.e) > 0: raise Out('denominator')
		return m, dn(m - self.e)
	def __truediv__(self, o):
		o = lift(o)
		if o is NotImplemented: return o
		if o.lo == o.hi and not o.e and o.lo and power_of_two(o.lo): return self * (1 / o.lo)
		if zero(self): return self
		m, d = o.inverse_bound()
		p = [self.lo / o.lo, self.lo / o.hi, self.hi / o.lo, self.hi / o.hi]
		l, h = dn(min(p)), up(max(p))
		q = max(abs(l), abs(h))
		e = up(up(self.e + up(q * o.e)) / d)
		return Err(l, h, up(e + up(U * up(q + e)) + TINY))
	def __rtruediv__(self, o):
		o = lift(o)
		return o if o is NotImplemented else o / self
	def sqrt(self, ulps=1):
		if not dn(self.lo - self.e) > 0: raise Out('radicand')
		l, h = dn(math.sqrt(self.lo)), up(math.sqrt(self.hi))
		e = up(self.e / dn(l + dn(math.sqrt(dn(self.lo - self.e)))))
		return Err(l, h, up(e + up(ulps * U * up(h + e))))
	def __pow__(self, k):
		if isinstance(k, Err): raise Out('power')
		if k == 2: return self * self
		if k == 1: return self
		if k == .5: return self.sqrt(4)
		if k == -1: return 1 / self
		if k == -.5: return 1 / self.sqrt(4)
		raise Out('power')
	def __abs__(self):
		if self.lo - self.e >= 0: return self
		if self.hi + self.e <= 0: return -self
		return Err(0.0, self.exact_mag, self.e)
	def conjugate(self): return self
	def _cmp(self, o): raise Out('comparison of coefficients')
	__lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __bool__ = lambda self, *a: self._cmp(a)
	__hash__ = object.__hash__
	def __float__(self): raise Out('conversion')
	__int__ = __index__ = __float__
	def __repr__(self): return f'[{self.lo:.6g}, {self.hi:.6g}] +- {self.e:.3g}'


def zero(x): return x.lo == 0 == x.hi and not x.e


def lift(o):
	if isinstance(o, Err): return o
	if hasattr(o, 'ndim') and hasattr(o, 'item'):
		if o.ndim: return NotImplemented
		return lift(o.item())
	if isinstance(o, Fraction): o = float(o) if Fraction(float(o)) == o else NotImplemented
	if o is NotImplemented: raise Out('constant')
	try: v = float(o)
	except (TypeError, ValueError): return NotImplemented
	if isinstance(o, complex) or v != o: raise Out('constant')
	return Err(v, v)
