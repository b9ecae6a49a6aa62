"""Engine K: symbolic machine integers for the bit-level code of numga/algebra.

An array of symbolic integers (BA) goes through the real functions of algebra.py and bitops.py. Each element is
  Word  - bits given as algebraic normal forms (ANF, polynomials over GF(2)) in Boolean atoms,
  Poly  - an integer combination c + sum k_i * bit_i of ANF bits, known exactly or modulo 2^w (machine wrap-around),
  Half  - floor(Poly / 2^k),
  Pred  - the truth value of "none of these bits is set",
  Prod  - Poly * Pred.
Shapes, dtypes, broadcasting, strides and byte offsets are those the real numpy computes on a stand-in array.
ANFs are canonical, so equality of functions is equality of representations.
"""
import functools
import numpy as np
from itertools import combinations


class Unsupported(Exception):
	pass


# ---------------------------------------------------------------- ANF bits: frozensets of monomials (int masks of atoms)
ZERO = frozenset()
ONE = frozenset([0])


def xor(*bs):
	out = set()
	for b in bs:
		out ^= b
	return frozenset(out)


def land(p, q):
	if p is ONE or p == ONE: return q
	if q is ONE or q == ONE: return p
	if len(p) * len(q) > 200000: raise Unsupported('ANF product too large')
	out = set()
	for a in p:
		for b in q:
			m = a | b
			out ^= {m}
	return frozenset(out)


def lor(p, q):
	return xor(p, q, land(p, q))


def ev(bit, env):
	"""value of an ANF bit under an assignment (int mask of true atoms)"""
	return sum(1 for m in bit if m & env == m) & 1


class Word:
	def __init__(self, bits):
		bits = list(bits)
		while bits and not bits[-1]: bits.pop()
		self.bits = tuple(bits)
	def get(self, i):
		return self.bits[i] if i < len(self.bits) else ZERO


class Poly:
	"""const + sum coef * bit; `mod`: None (exact) or the modulus up to which the machine value is known"""
	def __init__(self, const=0, terms=None, mod=None):
		t = {}
		for b, k in (terms or {}).items():
			if b == ONE: const += k
			elif b and k: t[b] = t.get(b, 0) + k
		self.terms = {b: k for b, k in t.items() if k}
		self.const, self.mod = const, mod
	def bounds(self):
		return (self.const + sum(k for k in self.terms.values() if k < 0), self.const + sum(k for k in self.terms.values() if k > 0))
	def parity(self):
		if self.mod is not None and self.mod % 2: raise Unsupported('parity of a value known modulo an odd number')
		return xor(ONE if self.const & 1 else ZERO, *[b for b, k in self.terms.items() if k & 1])
	def bit(self, k):
		"""k-th binary digit of the (two's complement) value"""
		if k == 0: return self.parity()
		if self.mod is not None and self.mod % (2 << k): raise Unsupported('digit beyond the known modulus')
		# digit k of a sum of 0/1 values is the elementary symmetric polynomial e_{2^k} modulo 2 (Lucas)
		M = 2 << k
		bits = []
		for b, c in self.terms.items():
			bits += [b] * (c % M)
		bits += [ONE] * (self.const % M)
		if len(bits) > 64 or 2 ** k > 2: raise Unsupported('digit extraction too large')
		return xor(*[_and_all(c) for c in combinations(bits, 2 ** k)])


def _and_all(bs):
	out = ONE
	for b in bs:
		out = land(out, b)
	return out


class Half:
	def __init__(self, poly, k):
		self.poly, self.k = poly, k


class Pred:
	"""1 if none of the bits is set, else 0 (neg: complemented)"""
	def __init__(self, bits, neg=False):
		self.bits, self.neg = frozenset(b for b in bits if b), neg


class Prod:
	def __init__(self, poly, pred):
		self.poly, self.pred = poly, pred


def is_sym(x):
	return isinstance(x, (Word, Poly, Half, Pred, Prod))


def as_bits(x, width=64):
	if isinstance(x, Word): return x
	if isinstance(x, (int, np.integer, bool, np.bool_)):
		x = int(x)
		if x < 0: x &= (1 << width) - 1
		return Word(ONE if x >> i & 1 else ZERO for i in range(x.bit_length()))
	if isinstance(x, Poly) and x.mod is None and x.const == 0 and len(x.terms) == 1 and list(x.terms.values()) == [1]:
		return Word(list(x.terms))
	if isinstance(x, Poly) and x.mod is None and x.bounds()[0] >= 0:
		return LazyWord(x)
	if isinstance(x, Half) and x.poly.mod is None and x.poly.bounds()[0] >= 0:
		return LazyWord(x.poly, x.k)
	raise Unsupported(f'bits of a {type(x).__name__}')


class LazyWord(Word):
	"""binary digits of an exact non-negative Poly, extracted on demand"""
	def __init__(self, poly, shift=0):
		self.poly, self.shift = poly, shift
	@property
	def width(self):
		return max(0, int(self.poly.bounds()[1]).bit_length() - self.shift)
	@property
	def bits(self):
		return tuple(self.poly.bit(i + self.shift) for i in range(self.width))
	def get(self, i):
		return self.poly.bit(i + self.shift) if i < self.width else ZERO


def as_poly(x):
	if isinstance(x, Poly): return x
	if isinstance(x, LazyWord):
		if x.shift: raise Unsupported('value of a quotient')
		return x.poly
	if isinstance(x, (int, np.integer, bool, np.bool_)): return Poly(int(x))
	if isinstance(x, float) and x == int(x): return Poly(int(x))
	if isinstance(x, Word):
		t = {}
		for i, b in enumerate(x.bits):
			t[b] = t.get(b, 0) + (1 << i)
		return Poly(0, t)
	if isinstance(x, Half): return Poly(0, {x.poly.bit(x.k): 1}, 2)     # known modulo 2 only
	raise Unsupported(f'integer value of a {type(x).__name__}')


def gcdmod(*ms):
	ms = [m for m in ms if m is not None]
	return min(ms) if ms else None         # all moduli are powers of two


def sign_of(p):
	"""the ANF bit s with p == (-1)^s, or None"""
	if isinstance(p, Poly) and p.mod is None:
		if not p.terms and p.const in (1, -1): return ONE if p.const < 0 else ZERO
		if len(p.terms) == 1:
			(b, k), = p.terms.items()
			if p.const == 1 and k == -2: return b
			if p.const == -1 and k == 2: return xor(ONE, b)
	return None


def mk_sign(b):
	return Poly(1, {b: -2})


# ---------------------------------------------------------------- elementwise operations
def add(x, y):
	p, q = as_poly(x), as_poly(y)
	t = dict(p.terms)
	for b, k in q.terms.items():
		t[b] = t.get(b, 0) + k
	return Poly(p.const + q.const, t, gcdmod(p.mod, q.mod))


def neg(x):
	if isinstance(x, Prod): return Prod(neg(x.poly), x.pred)
	p = as_poly(x)
	return Poly(-p.const, {b: -k for b, k in p.terms.items()}, p.mod)


def sub(x, y):
	if isinstance(y, Pred) and not isinstance(y, Poly) and not is_sym(x) and int(x) == 1:
		return Pred(y.bits, not y.neg)
	return add(x, neg(y))


def mul(x, y):
	for u, v in ((x, y), (y, x)):
		if not is_sym(u):
			k = int(u)
			if k != u: raise Unsupported('non-integer factor')
			if k == 0: return 0
			if k == 1: return v
			if isinstance(v, Prod): return Prod(mul(v.poly, k), v.pred)
			if isinstance(v, Pred): return Prod(Poly(k), v)
			p = as_poly(v)
			return Poly(k * p.const, {b: k * c for b, c in p.terms.items()}, None if p.mod is None else p.mod * (k & -k))
		if isinstance(u, Pred):
			if isinstance(v, Pred):
				if u.neg or v.neg: raise Unsupported('product of complemented predicates')
				return Pred(u.bits | v.bits)
			if isinstance(v, Prod): return Prod(v.poly, mul(u, v.pred))
			return Prod(as_poly(v), u)
	if isinstance(x, Prod) and isinstance(y, Prod): return Prod(mul(x.poly, y.poly), mul(x.pred, y.pred))
	if isinstance(x, Prod): return Prod(mul(x.poly, y), x.pred)
	if isinstance(y, Prod): return Prod(mul(x, y.poly), y.pred)
	sx, sy = sign_of(x), sign_of(y)
	if sx is not None and sy is not None: return mk_sign(xor(sx, sy))
	p, q = as_poly(x), as_poly(y)
	if p.mod or q.mod or len(p.terms) * len(q.terms) > 4096: raise Unsupported('product of symbolic integers')
	t = {}
	def put(b, k):
		t[b] = t.get(b, 0) + k
	for b, k in p.terms.items():
		put(b, k * q.const)
		for c, l in q.terms.items():
			put(land(b, c), k * l)
	for c, l in q.terms.items():
		put(c, l * p.const)
	return Poly(p.const * q.const, t)


def bitop(f, g):
	def op(x, y):
		if isinstance(x, (Pred, bool, np.bool_)) and isinstance(y, (Pred, bool, np.bool_)):
			return g(x, y)
		x, y = as_bits(x), as_bits(y)
		if isinstance(x, LazyWord) or isinstance(y, LazyWord):
			other = y if isinstance(x, LazyWord) else x
			if isinstance(other, LazyWord) or f(ONE, ZERO): raise Unsupported('bit operation on a sum')
			n = len(other.bits) if not isinstance(other, LazyWord) else other.width
		else:
			n = max(len(x.bits), len(y.bits))
		return Word(f(x.get(i), y.get(i)) if _relevant(x, y, i) else ZERO for i in range(n))
	return op


def _relevant(x, y, i):
	"""skip the digits of a lazy word that a constant zero masks away"""
	for u, v in ((x, y), (y, x)):
		if isinstance(u, LazyWord): return bool(v.get(i))
	return True


def pred_and(x, y):
	if isinstance(x, Pred) and isinstance(y, Pred): return mul(x, y)
	for u, v in ((x, y), (y, x)):
		if not is_sym(u): return v if u else False
	raise Unsupported('predicate conjunction')


def pred_other(x, y):
	raise Unsupported('predicate operation')


def shl(x, k):
	if is_sym(k): raise Unsupported('symbolic shift')
	k = int(k)
	if not isinstance(x, Word) or isinstance(x, LazyWord): x = as_bits(x)
	return Word((ZERO,) * k + tuple(x.bits))


def shr(x, k):
	if is_sym(k): raise Unsupported('symbolic shift')
	k = int(k)
	if isinstance(x, Poly): return Half(x, k)
	if isinstance(x, Half): return Half(x.poly, x.k + k)
	return Word(as_bits(x).bits[k:])


def log2(m):
	m = int(m)
	if m <= 0 or m & (m - 1): raise Unsupported('modulus that is not a power of two')
	return m.bit_length() - 1


def rem(x, m):
	if is_sym(m): raise Unsupported('symbolic modulus')
	k = log2(m)
	if isinstance(x, Half):
		if k != 1: raise Unsupported('remainder of a quotient')
		return Poly(0, {x.poly.bit(x.k): 1})
	if isinstance(x, Word) and not isinstance(x, LazyWord): return Word(x.bits[:k])
	p = as_poly(x)
	if k == 0: return 0
	return as_poly(Word(p.bit(i) for i in range(k)))


def div(x, m):
	if is_sym(m): raise Unsupported('symbolic divisor')
	return shr(x, log2(m))


def eq(x, y):
	if is_sym(y) and not is_sym(x): x, y = y, x
	if is_sym(y): raise Unsupported('comparison of symbolic values')
	y = int(y)
	if isinstance(x, Pred) and y in (0, 1):
		return x if y else Pred(x.bits, not x.neg)
	if isinstance(x, Word) and not isinstance(x, LazyWord):
		if y == 0: return Pred(x.bits)
		if y > 0: return Pred(xor(b, ONE if y >> i & 1 else ZERO) for i, b in enumerate(x.bits + (ZERO,) * y.bit_length()))
		return False
	p = as_poly(x)
	if p.mod is None and y == p.const and all(k > 0 for k in p.terms.values()): return Pred(p.terms)
	if p.mod is None and len(p.terms) == 1:
		(b, k), = p.terms.items()
		if p.const + k == y: return Pred([xor(b, ONE)])
		return False if p.const != y else Pred([b])
	raise Unsupported('comparison of a sum')


def lnot(x):
	if isinstance(x, Pred): return Pred(x.bits, not x.neg)
	e = eq(x, 0)
	return e


def ne(x, y):
	return lnot(eq(x, y)) if is_sym(x) or is_sym(y) else x != y


def gt(x, y):
	if not is_sym(y) and int(y) == 0:
		p = as_poly(x)
		if p.mod is None and p.bounds()[0] >= 0: return ne(x, 0)
	raise Unsupported('order comparison')


def power(x, y):
	if not is_sym(x) and int(x) == -1: return mk_sign(as_poly(y).parity() if not isinstance(y, Half) else y.poly.bit(y.k))
	if not is_sym(y):
		out = 1
		for _ in range(int(y)): out = mul(out, x)
		return out
	raise Unsupported('power')


def wrap(x, dtype):
	"""reduce a mathematical value into a machine dtype"""
	dtype = np.dtype(dtype)
	if dtype == bool:
		if is_sym(x) and not isinstance(x, Pred): return ne(x, 0)
		return x
	if dtype.kind not in 'iu':
		if dtype.kind == 'f' and isinstance(x, (Poly, Pred, Prod)): return x
		raise Unsupported(f'dtype {dtype}')
	w = 8 * dtype.itemsize
	if isinstance(x, LazyWord): x = x.poly if not x.shift else Half(x.poly, x.shift)
	if isinstance(x, Word):
		w = w - (dtype.kind == 'i')
		if len(x.bits) > w:
			if dtype.kind == 'i':
				return Poly(0, as_poly(x).terms, 1 << (w + 1))
			return Word(x.bits[:w])
		return x
	if isinstance(x, Poly):
		lo, hi = x.bounds()
		a, b = np.iinfo(dtype).min, np.iinfo(dtype).max
		if x.mod is None and (lo < a or hi > b): return Poly(x.const, x.terms, 1 << w)
		if x.mod is not None:
			# the representative of the residue class in the range of the dtype is unique
			exact = x.mod >= 1 << w and a <= lo and hi <= b
			return Poly(x.const, x.terms, None if exact else min(x.mod, 1 << w))
		return x
	if isinstance(x, Prod):
		p = wrap(x.poly, dtype)
		return Prod(p, x.pred)
	if not is_sym(x):
		return int(np.asarray(int(x) & ((1 << w) - 1), dtype=np.uint64).astype(dtype)) if w < 64 else int(x)
	return x


OPS = {
	np.bitwise_and: bitop(land, pred_and), np.bitwise_or: bitop(lor, pred_other), np.bitwise_xor: bitop(xor, pred_other),
	np.left_shift: shl, np.right_shift: shr,
	np.add: add, np.subtract: sub, np.multiply: mul, np.remainder: rem, np.floor_divide: div,
	np.equal: eq, np.not_equal: ne, np.greater: gt, np.power: power, np.logical_and: pred_and,
}
UNARY = {np.negative: neg, np.positive: lambda x: x, np.logical_not: lnot}


def opfun(uf):
	f = OPS[uf]
	def g(x, y):
		if not is_sym(x) and not is_sym(y):
			return uf(int(x), int(y)) if not isinstance(x, (bool, np.bool_)) else uf(x, y)
		return f(x, y)
	return g


def pred_bit(c):
	"""the ANF of a predicate"""
	b = ONE
	for x in sorted(c.bits, key=len):
		b = land(b, xor(x, ONE))
		if len(b) > 4096: raise Unsupported('predicate too large')
	return xor(b, ONE) if c.neg else b


def choose(b, x, y):
	"""x where the bit b is set, else y"""
	if b == ONE: return x
	if b == ZERO: return y
	if all(isinstance(v, Word) and not isinstance(v, LazyWord) or not is_sym(v) and int(v) >= 0 for v in (x, y)):
		x, y = as_bits(x), as_bits(y)
		return Word(xor(y.get(i), land(b, xor(x.get(i), y.get(i)))) for i in range(max(len(x.bits), len(y.bits))))
	return add(y, mul(Poly(0, {b: 1}), sub(x, y)))


# ---------------------------------------------------------------- arrays
def boxed(vals, shape=None):
	vals = list(vals)
	a = np.empty(len(vals), dtype=object)
	for i, v in enumerate(vals):
		a[i] = v
	return a.reshape(shape) if shape is not None else a


class BA(np.lib.mixins.NDArrayOperatorsMixin):
	"""`sym`: object array of element values; `raw`: a real machine array with the shape, dtype and strides numpy gives it"""
	__array_priority__ = 1000
	def __init__(self, sym, raw):
		assert sym.shape == raw.shape, (sym.shape, raw.shape)
		self.sym, self.raw = sym, raw
	shape = property(lambda s: s.raw.shape)
	dtype = property(lambda s: s.raw.dtype)
	strides = property(lambda s: s.raw.strides)
	ndim = property(lambda s: s.raw.ndim)
	size = property(lambda s: s.raw.size)
	itemsize = property(lambda s: s.raw.itemsize)
	nbytes = property(lambda s: s.raw.nbytes)
	flags = property(lambda s: s.raw.flags)
	def __len__(self): return len(self.raw)
	def _both(self, f):
		s, r = f(self.sym), f(self.raw)
		if not isinstance(s, np.ndarray) or s.shape != np.shape(r): s = boxed([s], ())
		return BA(s, np.asarray(r))
	def __getitem__(self, k): return self._both(lambda a: a[k])
	def __iter__(self):
		if self.ndim == 0: raise TypeError('iteration over a 0-d array')
		return (self[i] for i in range(len(self)))
	T = property(lambda s: s._both(lambda a: a.T))
	def reshape(self, *a): return self._both(lambda x: x.reshape(*a))
	def ravel(self): return self._both(lambda x: x.ravel())
	def flatten(self): return self._both(lambda x: x.flatten())
	def copy(self): return self._both(lambda x: x.copy())
	def astype(self, dtype, **k):
		f = np.frompyfunc(lambda x: wrap(x, dtype), 1, 1)
		s = f(self.sym) if self.size else self.sym
		return BA(boxed([s], ()) if not isinstance(s, np.ndarray) else s, self.raw.astype(dtype))
	@property
	def data(self):
		return Buffer(self)
	def view(self, dtype):
		c = self
		if not c.raw.flags.c_contiguous: raise Unsupported('view of a non-contiguous array')
		if np.dtype(dtype) == c.dtype: return c
		if np.dtype(dtype) != np.uint8 or c.dtype.kind not in 'iu': raise Unsupported('reinterpretation')
		raw = c.raw.view(dtype)
		return BA(boxed([byte_of(c, o) for o in range(raw.size)], raw.shape), np.zeros(raw.shape, np.uint8))
	def take(self, idx, axis=None): return self._both(lambda a: a.take(idx, axis=axis))
	def sum(self, axis=None, dtype=None, **k):
		if k: raise Unsupported('sum options')
		return self.reduce(np.add, axis=axis, dtype=dtype)
	def any(self, axis=None): return self.reduce(np.logical_or, axis=axis)
	def all(self, axis=None): return self.reduce(np.logical_and, axis=axis)
	def reduce(self, uf, axis=0, dtype=None):
		if uf not in (np.add, np.bitwise_xor, np.bitwise_or, np.bitwise_and, np.multiply, np.logical_and, np.logical_or): raise Unsupported(f'{uf.__name__}.reduce')
		raw = np.asarray(uf.reduce(np.zeros_like(self.raw), axis=axis, dtype=dtype) if uf not in (np.logical_and, np.logical_or) else uf.reduce(self.raw, axis=axis))
		f = opfun(uf) if uf is not np.logical_or else None
		def red(v):
			v = list(v)
			if f is None:
				return lnot(functools.reduce(pred_and, [lnot(x) if is_sym(x) else not x for x in v], True))
			if uf is np.logical_and: v = [ne(x, 0) if is_sym(x) else bool(x) for x in v]
			if not v: return uf.identity
			out = v[0]
			for x in v[1:]: out = wrap(f(out, x), raw.dtype)
			return wrap(out, raw.dtype)
		if axis is None: return BA(boxed([red(self.sym.ravel())], ()), raw)
		axes = axis if isinstance(axis, tuple) else (axis,)
		moved = np.moveaxis(self.sym, axes, range(-len(axes), 0))
		keep = moved.shape[:moved.ndim - len(axes)]
		return BA(boxed([red(moved[i].ravel()) for i in np.ndindex(keep)], raw.shape), raw)
	def __array__(self, *a, **k): raise Unsupported('conversion of a symbolic array to numpy')
	def __bool__(self): raise Unsupported('branch on a symbolic value')
	def __int__(self): raise Unsupported('int() of a symbolic value')
	def __index__(self): raise Unsupported('index by a symbolic value')
	def item(self): return Sc(self.sym.ravel()[0])
	def __array_ufunc__(self, uf, method, *ins, **kw):
		if kw.keys() - ({'dtype', 'axis'} if method == 'reduce' else {'dtype'}): raise Unsupported(f'{uf.__name__} with {sorted(kw)}')
		syms = [i.sym if isinstance(i, BA) else (i.astype(object) if isinstance(i, np.ndarray) else i) for i in ins]
		raws = [i.raw if isinstance(i, BA) else i for i in ins]
		raws = [np.zeros_like(r) if isinstance(r, np.ndarray) else r for r in raws]
		if method == 'reduce':
			return ins[0].reduce(uf, **kw)
		if uf in UNARY and method == '__call__':
			f = np.frompyfunc(UNARY[uf], 1, 1)
		elif uf in OPS and method in ('__call__', 'outer'):
			f = np.frompyfunc(opfun(uf), 2, 1)
		else:
			raise Unsupported(f'{uf.__name__}.{method}')
		with np.errstate(all='ignore'):
			if uf in (np.remainder, np.floor_divide): raw = raws[:1] + [np.ones_like(r) if isinstance(r, np.ndarray) else r for r in raws[1:]]
			else: raw = raws
			out = np.asarray(getattr(uf, method)(*raw, **kw))
		s = getattr(f, method)(*syms)
		if not isinstance(s, np.ndarray): s = boxed([s], ())
		w = np.frompyfunc(lambda x: wrap(x, out.dtype), 1, 1)
		s2 = w(s)
		if not isinstance(s2, np.ndarray): s2 = boxed([s2], ())
		return BA(s2.reshape(out.shape), out)
	def __array_function__(self, func, types, args, kw):
		if func is np.where and len(args) == 3 and not kw:
			c, x, y = args
			raw = np.where(*[a.raw if isinstance(a, BA) else a for a in args])
			def sel(c, x, y):
				if not is_sym(c): return x if c else y
				if not isinstance(c, Pred): c = ne(c, 0)
				if c.neg: c, x, y = Pred(c.bits), y, x
				if not is_sym(y) and int(y) == 0: return mul(x, c)
				return choose(pred_bit(c), x, y)
			f = np.frompyfunc(sel, 3, 1)
			s = f(*[a.sym if isinstance(a, BA) else a for a in args])
			return BA(s if isinstance(s, np.ndarray) else boxed([s], ()), np.asarray(raw))
		if func in (np.transpose, np.ravel, np.reshape, np.expand_dims, np.squeeze, np.moveaxis, np.broadcast_to, np.copy, np.swapaxes):
			a, rest = args[0], args[1:]
			return a._both(lambda x: func(x, *rest, **kw))
		if func is np.sum: return args[0].sum(*args[1:], **kw)
		if func is np.shape: return args[0].shape
		if func is np.ndim: return args[0].ndim
		if func is np.size: return args[0].size
		if func is np.unpackbits: return unpackbits(*args, **kw)
		if func in (np.flip, np.flipud, np.fliplr, np.rollaxis, np.atleast_1d): return args[0]._both(lambda x: func(x, *args[1:], **kw))
		if func in (np.concatenate, np.stack): return joined(func, args[0], {**dict(zip(('axis',), args[1:])), **kw})
		if func in (np.zeros_like, np.ones_like): return func(args[0].raw, *args[1:], **kw)
		if func is np.take and isinstance(args[0], BA): return args[0].take(*args[1:], **kw)
		if func in (np.any, np.all): return getattr(args[0], func.__name__)(*args[1:], **kw)
		raise Unsupported(f'np.{func.__name__}')


def byte_of(c, o):
	"""byte o of the memory of the contiguous array c (little endian)"""
	it = c.itemsize
	x = c.sym.ravel()[o // it]
	if not is_sym(x): x = as_bits(int(x), 8 * it)
	x = as_bits(x)
	return Word(x.get(8 * (o % it) + j) for j in range(8))


def unpackbits(a, axis=None, count=None, bitorder='big'):
	if a.dtype != np.uint8: raise TypeError('Expected an input array of unsigned byte data type')
	if axis is None: a, axis = a.reshape(-1), 0
	raw = np.unpackbits(a.raw, axis=axis, count=count, bitorder=bitorder)
	m = np.moveaxis(a.sym, axis, -1)
	out = np.empty(m.shape[:-1] + (8 * m.shape[-1],), dtype=object)
	for i in np.ndindex(*m.shape):
		w = as_bits(m[i])
		for j in range(8):
			out[i[:-1] + (8 * i[-1] + j,)] = Word([w.get(j if bitorder == 'little' else 7 - j)])
	out = np.moveaxis(out, -1, axis)
	return BA(out[tuple(slice(0, k) for k in raw.shape)], raw)


def joined(func, arrs, kw):
	arrs = [a if isinstance(a, BA) else BA(np.asarray(a).astype(object), np.asarray(a)) for a in arrs]
	raw = func([a.raw for a in arrs], **kw)
	return BA(func([a.sym for a in arrs], **kw), raw).astype(raw.dtype)


class Buffer:
	def __init__(self, ba):
		self.ba = ba


class Sc:
	"""a symbolic Python integer (result of int() on a symbolic array)"""
	def __init__(self, v):
		self.v = v


class Table:
	"""a numpy lookup table indexed by symbolic bytes: its Moebius transform as an integer polynomial in the 8 bits"""
	def __init__(self, real):
		self.real = real
	def __getattr__(self, n): return getattr(self.real, n)
	def take(self, k): return self[k]
	def __array__(self, *a, **k): return np.asarray(self.real, *a, **k)
	def __getitem__(self, k):
		if not isinstance(k, BA): return self.real[k]
		if self.real.ndim != 1 or self.real.dtype.kind not in 'iu': raise Unsupported('table')
		raw = np.asarray(self.real[np.zeros_like(k.raw)])
		width = 8 * k.dtype.itemsize
		if k.dtype.kind != 'u' or len(self.real) != 1 << width: raise Unsupported('table size')
		m = self.moebius(width)
		def look(x):
			if not is_sym(x): return int(self.real[int(x)])
			x = as_bits(x)
			t = {}
			for mask, c in m.items():
				b = ONE
				for i in range(width):
					if mask >> i & 1: b = land(b, x.get(i))
				t[b] = t.get(b, 0) + c
			return Poly(0, t)
		f = np.frompyfunc(look, 1, 1)
		s = f(k.sym)
		return BA(s if isinstance(s, np.ndarray) else boxed([s], ()), raw)
	def moebius(self, width):
		if not hasattr(self, '_m'):
			v = [int(x) for x in self.real]
			for i in range(width):
				for x in range(len(v)):
					if x >> i & 1: v[x] -= v[x ^ (1 << i)]
			self._m = {x: c for x, c in enumerate(v) if c}
		return self._m


TOKEN = 0xE000      # private-use characters stand for str(symbolic bit)

class BitSym:
	"""a symbolic 0/1 Python integer, as found in AlgebraDescription.negatives"""
	registry = []
	def __init__(self, bit):
		self.bit = bit
		self.k = len(BitSym.registry)
		BitSym.registry.append(self)
	def __str__(self): return chr(TOKEN + self.k)
	__repr__ = __str__
	def __format__(self, spec):
		if spec not in ('', 'd', 's'): raise Unsupported('format of a symbolic bit')
		return str(self)
	def __bool__(self): raise Unsupported('branch on a symbolic bit')
	def __eq__(self, o): raise Unsupported('comparison of a symbolic bit')
	__hash__ = object.__hash__
	def _w(self): return Word([self.bit])
	def __mul__(self, o): return IntSym(mul(self._w(), _u(o)))
	__rmul__ = __mul__
	def __add__(self, o): return IntSym(add(self._w(), _u(o)))
	__radd__ = __add__
	def __lshift__(self, k): return IntSym(shl(self._w(), k))
	def __and__(self, o): return IntSym(OPS[np.bitwise_and](self._w(), _u(o)))
	__rand__ = __and__
	def __or__(self, o): return IntSym(OPS[np.bitwise_or](self._w(), _u(o)))
	__ror__ = __or__
	def __int__(self): raise Unsupported('int of a symbolic bit')
	__index__ = __int__


def _u(o):
	if isinstance(o, BitSym): return o._w()
	if isinstance(o, IntSym): return o.v
	return o


class IntSym:
	"""a symbolic Python integer (unbounded)"""
	def __init__(self, v):
		self.v = v
	def _b(f, swap=False):
		return (lambda s, o: IntSym(f(_u(o), s.v))) if swap else (lambda s, o: IntSym(f(s.v, _u(o))))
	__add__, __radd__ = _b(add), _b(add, True)
	__sub__, __rsub__ = _b(sub), _b(sub, True)
	__mul__, __rmul__ = _b(mul), _b(mul, True)
	__mod__ = _b(rem)
	__floordiv__ = _b(div)
	__lshift__, __rshift__ = _b(shl), _b(shr)
	__and__, __rand__ = _b(OPS[np.bitwise_and]), _b(OPS[np.bitwise_and], True)
	__or__, __ror__ = _b(lambda x, y: OPS[np.bitwise_or](x, y)), _b(lambda x, y: OPS[np.bitwise_or](x, y), True)
	__xor__, __rxor__ = _b(OPS[np.bitwise_xor]), _b(OPS[np.bitwise_xor], True)
	def __neg__(self): return IntSym(neg(self.v))
	def __bool__(self): raise Unsupported('branch on a symbolic integer')
	def __int__(self): raise Unsupported('int of a symbolic integer')
	__index__ = __int__
	def astype(self, dtype): return arr0(self.v, np.int64).astype(dtype)


def arr0(v, dtype):
	return BA(boxed([v], ()), np.zeros((), dtype=dtype))


def sym_int(x=0, base=None):
	"""the builtin int, for the modules under proof"""
	if base is not None and isinstance(x, str) and any(ord(c) >= TOKEN for c in x):
		if base != 2: raise Unsupported('base of a symbolic numeral')
		bits = []
		for c in reversed(x):
			if ord(c) >= TOKEN: bits.append(BitSym.registry[ord(c) - TOKEN].bit)
			elif c in '01': bits.append(ONE if c == '1' else ZERO)
			else: raise ValueError(f'invalid literal for int() with base 2')
		return IntSym(Word(bits))
	if isinstance(x, BA):
		if x.size != 1: raise TypeError('only size-1 arrays can be converted to Python scalars')
		return IntSym(x.sym.ravel()[0])
	if isinstance(x, (IntSym, BitSym)): return IntSym(_u(x))
	return int(x) if base is None else int(x, base)


class NP:
	"""numpy as seen by the modules under proof"""
	def __getattr__(self, n):
		return getattr(np, n)
	def asarray(self, x, dtype=None, order=None, **k):
		if isinstance(x, (BitSym, IntSym)): x = arr0(_u(x), np.int64)
		if not isinstance(x, BA):
			if isinstance(x, (list, tuple)) and any(isinstance(e, (BitSym, IntSym, BA)) for e in x):
				if any(isinstance(e, BA) for e in x): raise Unsupported('stacking symbolic arrays')
				x = BA(boxed([_u(e) for e in x]), np.zeros(len(x), dtype=np.int64))
			else:
				return np.asarray(x, dtype=dtype, order=order, **k)
		if dtype is not None and np.dtype(dtype) != x.dtype: x = x.astype(dtype)
		if order is not None:
			r = np.asarray(x.raw, order=order)
			x = BA(np.asarray(x.sym, order=order), r)
		return x
	def array(self, x, dtype=None, copy=True, order='K', **k):
		if isinstance(x, (BA, BitSym, IntSym)) or isinstance(x, (list, tuple)) and any(isinstance(e, (BitSym, IntSym, BA)) for e in x):
			return self.asarray(x, dtype=dtype, order=None if order == 'K' else order)
		return np.array(x, dtype=dtype, copy=copy, order=order, **k)
	asanyarray = asarray
	def take(self, a, k, axis=None):
		if isinstance(a, Table) and axis in (None, 0): return a[k]
		return np.take(a.real if isinstance(a, Table) else a, k, axis=axis)
	def ascontiguousarray(self, x, dtype=None):
		if isinstance(x, BA) and x.ndim == 0: x = x.reshape(1)
		return self.asarray(x, dtype=dtype, order='C') if isinstance(x, (BA, BitSym, IntSym)) else np.ascontiguousarray(x, dtype=dtype)
	def ndarray(self, shape, dtype=float, buffer=None, offset=0, strides=None, order=None):
		if not isinstance(buffer, Buffer):
			return np.ndarray(shape, dtype=dtype, buffer=buffer, offset=offset, strides=strides, order=order)
		ba = buffer.ba
		if np.dtype(dtype) != np.uint8 or ba.dtype.kind not in 'iu': raise Unsupported('buffer reinterpretation')
		if not ba.flags.c_contiguous: raise ValueError('ndarray is not C-contiguous')
		if ba.nbytes > 256: raise Unsupported('buffer too large for the offset map')
		offs = np.arange(ba.nbytes, dtype=np.uint8)
		view = np.ndarray(shape, dtype=np.uint8, buffer=offs.data, offset=offset, strides=strides)
		vals = boxed([byte_of(ba, int(o)) for o in view.ravel()], view.shape)
		return BA(vals, np.zeros(view.shape, dtype=np.uint8))


class installed:
	"""install the symbolic numpy and int in the modules under proof"""
	def __init__(self, *modules):
		self.modules = modules
	def __enter__(self):
		self.saved = []
		for m in self.modules:
			for name, val in (('np', NP()), ('int', sym_int)):
				self.saved.append((m, name, m.__dict__.get(name, self)))
				setattr(m, name, val)
			for name, val in list(m.__dict__.items()):
				if isinstance(val, np.ndarray) and val.ndim == 1:
					self.saved.append((m, name, val))
					setattr(m, name, Table(val))
	def __exit__(self, *a):
		for m, name, val in reversed(self.saved):
			if val is self: delattr(m, name)
			else: setattr(m, name, val)
