"""Exact symbolic reals: the value domain the real code is executed on.

A `Sym` is a polynomial over Q in *atoms*. Atoms are
  - free variables (the universally quantified inputs),
  - square roots  r = sqrt(P)      with the rewrite  r*r -> P,
  - inverses      u = 1/P          with the relation u*P = 1 (cleared in the zero test),
  - opaque function values f(P), with derivative rules and cos^2 -> 1 - sin^2,
  - unit variables x with x*x -> P (a constraint on inputs, such as a unit rotor).
Monomials are packed exponent vectors (8 bits per atom) in one Python int, so that multiplication of
monomials is integer addition. Equality of two values is decided by the normal form: rewrite squares of
roots, clear inverse atoms with their defining relation, and compare with the zero polynomial.
Machine floats entering from the code (1/2, n/k, ...) are read as the rational they denote.
"""
from fractions import Fraction
import math
import numpy as np

BITS = 8
FIELD = (1 << BITS) - 1


class Unsupported(Exception):
	"""The executed code left the fragment this engine interprets (nothing is concluded)."""


class Branch(Unsupported):
	"""The executed code asked for the outcome of a comparison of symbolic values, outside of an exploration of its paths."""


class Path:
	"""one path through the comparisons of symbolic values: the outcomes of the first ones are given, later ones take the first option"""
	def __init__(self, prefix=()):
		self.prefix, self.taken, self.seen, self.zeros, self.signs = list(prefix), [], {}, [], []

	def decide(self, d, kind):
		"""sign of d: '0', 'n' (not zero), '+' or '-'"""
		l = d.lead()[1]
		k = d.scale(Fraction(1) / l).key()
		old = self.seen.get(k)
		if old is None or (old == 'n' and kind == 'sign'):
			options = ['n', '0'] if kind == 'eq' else ['+', '-'] if old == 'n' else ['+', '-', '0']
			i = len(self.taken)
			o = self.prefix[i] if i < len(self.prefix) else options[0]
			self.taken.append((o, options))
			self.seen[k] = o
			if o == '0': self.zeros.append(d)
			self.signs.append((d.scale(Fraction(1) / l), o))
			old = o
		if old == '0': return 0
		if old == 'n': return 1
		return (1 if old == '+' else -1) * (1 if l > 0 else -1)

	def alternatives(self):
		"""prefixes of the paths that leave this one after its own prefix"""
		out = []
		for i in range(len(self.prefix), len(self.taken)):
			o, options = self.taken[i]
			out += [[t[0] for t in self.taken[:i]] + [x] for x in options if x != o]
		return out

	def reduce(self):
		"""substitutions [(atom index, value)] that make the expressions decided to be zero vanish, None if one cannot be
		solved, False if they contradict each other"""
		todo = []
		for d in self.zeros:
			for i, v in todo: d = d.subs({i: v})
			if d.is_zero(): continue
			if d.is_const(): return False
			R = d.R
			for k, c in d.t.items():
				i = (k.bit_length() - 1) // BITS if k else -1
				if k and k == 1 << (BITS * i) and R.atoms[i].kind == 'var' and sum(1 for m in d.t if (m >> (BITS * i)) & FIELD) == 1 and not any((m >> (BITS * a.index)) & FIELD for m in d.t for a in R.atoms if a.kind != 'var'):
					todo.append((i, (Sym(R, {k: c}) - d).scale(Fraction(1) / c)))
					break
			else: return None
		return todo


class Undefined(ZeroDivisionError):
	"""Division by an expression that is identically zero."""


def num(x):
	"""exact rational of a machine number"""
	if isinstance(x, (int, Fraction)) and not isinstance(x, bool):
		return x
	if isinstance(x, bool):
		return int(x)
	if hasattr(x, 'item') and not isinstance(x, Sym):
		x = x.item()
		if isinstance(x, (int, bool)):
			return int(x)
	if isinstance(x, float):
		if x != x or x in (math.inf, -math.inf):
			raise Undefined('nan/inf constant')
		f = Fraction(x)
		g = f.limit_denominator(1 << 24)
		f = g if float(g) == x else f
		return f.numerator if f.denominator == 1 else f
	if isinstance(x, (int, Fraction)):
		return x
	raise Unsupported(f'cannot read {type(x)} as a number')


class Atom:
	__slots__ = ('kind', 'arg', 'name', 'index', 'extra')
	def __init__(self, kind, arg, name, index, extra=None):
		self.kind, self.arg, self.name, self.index, self.extra = kind, arg, name, index, extra


class Ring:
	def __init__(self):
		self.atoms = []
		self.by_key = {}
		self.high = 0           # mask of bits of exponents >= 2 in fields of square-rewritten atoms
		self.rewrite = {}       # atom index -> Sym to replace its square by
		self.inverse_atoms = []
		self.nonzero = []       # side conditions: expressions assumed nonzero
		self.positive = []      # side conditions: expressions assumed positive
		self.path = None        # the path being explored
		self.conditions = {}    # expressions compared with zero on any path
		self.oracle = None      # decides comparisons of symbolic values along one path (sign of the difference)

	def branch(self, d, kind):
		if d.is_zero(): return 0
		if self.oracle is not None and kind == 'sign': return self.oracle(d)
		if len(self.conditions) < 200: self.conditions.setdefault(d.key(), d)
		if self.path is None: raise Branch('branch on a symbolic value')
		return self.path.decide(d, kind)

	def _new(self, kind, arg, name, extra=None):
		a = Atom(kind, arg, name, len(self.atoms), extra)
		self.atoms.append(a)
		return a

	def atom_sym(self, a):
		return Sym(self, {1 << (BITS * a.index): 1})

	def var(self, name):
		return self.atom_sym(self._new('var', None, name))

	def vars(self, name, k):
		return [self.var(f'{name}{i}') for i in range(k)]

	def const(self, c):
		c = num(c)
		return Sym(self, {0: c} if c else {})

	def square_var(self, name, square):
		"""variable with prescribed square (either sign)"""
		a = self._new('sqvar', square, name)
		self._square(a, square)
		return self.atom_sym(a)

	def _square(self, a, square):
		self.rewrite[a.index] = square
		self.high |= (FIELD & ~1) << (BITS * a.index)

	def lift(self, x):
		return x if isinstance(x, Sym) else self.const(x)

	def sqrt(self, p):
		if p.is_const():
			c = Fraction(p.const_value())
			if c < 0:
				raise Undefined('sqrt of a negative constant')
			n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
			if n * n == c.numerator and d * d == c.denominator:
				return self.const(Fraction(n, d))
		key = ('sqrt', p.key())
		a = self.by_key.get(key)
		if a is None:
			a = self._new('sqrt', p, f'sqrt{len(self.atoms)}')
			self.by_key[key] = a
			self._square(a, p)
			self.positive.append(p)
		return self.atom_sym(a)

	def abs(self, p):
		if p.is_const():
			return self.const(abs(p.const_value()))
		q = p if p.lead()[1] > 0 else -p
		key = ('abs', q.key())
		a = self.by_key.get(key)
		if a is None:
			a = self._new('abs', q, f'abs{len(self.atoms)}')
			self.by_key[key] = a
			self._square(a, q * q)
		return self.atom_sym(a)

	def inverse(self, p):
		if p.is_const():
			c = p.const_value()
			if c == 0:
				raise Undefined('division by zero')
			return self.const(Fraction(1) / c)
		if p.is_zero():
			raise Undefined('division by an expression that is identically zero')
		# monomial in sqrt / var atoms: invert atomwise so that inverses cancel syntactically more often
		lead = p.lead()[1]
		q = p.scale(Fraction(1) / lead)
		key = ('inv', q.key())
		a = self.by_key.get(key)
		if a is None:
			a = self._new('inv', q, f'inv{len(self.atoms)}')
			self.by_key[key] = a
			self.inverse_atoms.append(a)
			self.nonzero.append(q)
		return self.atom_sym(a).scale(Fraction(1) / lead)

	def func(self, name, p):
		if name in ('cos', 'sin', 'exp') and p.is_zero():
			return self.const(0 if name == 'sin' else 1)
		key = (name, p.key())
		a = self.by_key.get(key)
		if a is None:
			if name == 'cos':
				s = self.func('sin', p)
			a = self._new(name, p, f'{name}{len(self.atoms)}')
			self.by_key[key] = a
			if name == 'cos':
				self._square(a, 1 - s * s)
		return self.atom_sym(a)

	# numeric evaluation, for refutation
	def evaluate(self, p, env):
		"""env: atom index -> float for free variables; extended with derived atoms"""
		tot = 0
		for m, c in p.t.items():
			v = float(c) if not isinstance(c, int) else c
			i = 0
			while m:
				e = m & FIELD
				if e:
					v = v * self.atom_value(i, env) ** e
				m >>= BITS
				i += 1
			tot = tot + v
		return tot

	def atom_value(self, i, env):
		if i in env:
			return env[i]
		a = self.atoms[i]
		if a.kind == 'var':
			raise KeyError(a.name)
		v = self.evaluate(a.arg, env)
		if a.kind in ('sqrt', 'sqvar'):
			r = math.sqrt(v)
		elif a.kind == 'abs':
			r = abs(v)
		elif a.kind == 'inv':
			r = 1 / v
		else:
			r = getattr(math, a.kind)(v)
		env[i] = r
		return r


class Sym:
	__slots__ = ('R', 't')
	__array_priority__ = 1000
	__array_ufunc__ = None

	def __init__(self, R, t):
		self.R, self.t = R, t

	# structure
	def key(self):
		return frozenset(self.t.items())
	def __hash__(self):
		return hash(self.key())
	def is_const(self):
		return not self.t or (len(self.t) == 1 and 0 in self.t)
	def const_value(self):
		return self.t.get(0, 0)
	def lead(self):
		k = max(self.t)
		return k, self.t[k]
	def scale(self, c):
		if c == 1:
			return self
		if c == 0:
			return Sym(self.R, {})
		return Sym(self.R, {k: _n(v * c) for k, v in self.t.items()})

	def _other(self, o):
		if isinstance(o, Sym):
			return o
		try:
			return self.R.const(o)
		except Unsupported:
			return None

	def __add__(self, o):
		if isinstance(o, np.ndarray):
			return _elementwise(lambda a, b: b + a, self, o)
		o = self._other(o)
		if o is None:
			return NotImplemented
		a, b = self.t, o.t
		if len(a) < len(b):
			a, b = b, a
		if not b:
			return Sym(self.R, a)
		r = dict(a)
		for k, v in b.items():
			s = r.get(k, 0) + v
			if s:
				r[k] = s
			else:
				del r[k]
		return Sym(self.R, r)
	__radd__ = __add__
	def __neg__(self):
		return Sym(self.R, {k: -v for k, v in self.t.items()})
	def __pos__(self):
		return self
	def __sub__(self, o):
		if isinstance(o, np.ndarray):
			return _elementwise(lambda a, b: a - b, self, o)
		o = self._other(o)
		return NotImplemented if o is None else self + (-o)
	def __rsub__(self, o):
		if isinstance(o, np.ndarray):
			return _elementwise(lambda a, b: b - a, self, o)
		o = self._other(o)
		return NotImplemented if o is None else o + (-self)

	def __mul__(self, o):
		if isinstance(o, np.ndarray):
			return _elementwise(lambda a, b: a * b, self, o)
		if not isinstance(o, Sym):
			try:
				c = num(o)
			except Unsupported:
				return NotImplemented
			return self.scale(c)
		a, b = self.t, o.t
		if not a or not b:
			return Sym(self.R, {})
		R = self.R
		high = R.high
		r = {}
		dirty = False
		if len(a) < len(b):
			a, b = b, a
		for kb, vb in b.items():
			for ka, va in a.items():
				k = ka + kb
				if k & high:
					dirty = True
				s = r.get(k)
				r[k] = va * vb if s is None else s + va * vb
		r = {k: _n(v) for k, v in r.items() if v}
		out = Sym(R, r)
		return out._reduce() if dirty else out
	__rmul__ = __mul__

	def _reduce(self):
		R = self.R
		high = R.high
		out = {}
		todo = None
		for k, v in self.t.items():
			h = k & high
			if not h:
				s = out.get(k, 0) + v
				if s: out[k] = s
				else: out.pop(k, None)
				continue
			i = (h.bit_length() - 1) // BITS
			e = (k >> (BITS * i)) & FIELD
			rest = Sym(R, {k - ((e - e % 2) << (BITS * i)): v})
			term = rest * (R.rewrite[i] ** (e // 2))
			todo = term if todo is None else todo + term
		res = Sym(R, out)
		return res if todo is None else res + todo

	def __truediv__(self, o):
		if isinstance(o, np.ndarray):
			return _elementwise(lambda a, b: a / b, self, o)
		o = self._other(o)
		if o is None:
			return NotImplemented
		if o.is_const():
			c = o.const_value()
			if c == 0:
				raise Undefined('division by zero')
			return self.scale(Fraction(1) / c)
		if not self.t:
			return self
		return self * self.R.inverse(o)
	def __rtruediv__(self, o):
		if isinstance(o, np.ndarray):
			return _elementwise(lambda a, b: b / a, self, o)
		o = self._other(o)
		return NotImplemented if o is None else o / self

	def __pow__(self, e):
		if isinstance(e, float) or isinstance(e, Fraction):
			f = num(e)
			if f == Fraction(1, 2):
				return self.R.sqrt(self)
			if f == Fraction(-1, 2):
				return 1 / self.R.sqrt(self)
			e = f
		if hasattr(e, 'item'):
			return self ** e.item()
		if not isinstance(e, int):
			raise Unsupported(f'power {e}')
		if e < 0:
			return self.R.inverse(self) ** (-e)
		r = self.R.const(1)
		b = self
		while e:
			if e & 1:
				r = r * b
			e >>= 1
			if e:
				b = b * b
		return r

	def sqrt(self):
		return self.R.sqrt(self)
	def __abs__(self):
		return self.R.abs(self)
	def cos(self):
		return self.R.func('cos', self)
	def sin(self):
		return self.R.func('sin', self)
	def exp(self):
		return self.R.func('exp', self)
	def log(self):
		return self.R.func('log', self)
	def conjugate(self):
		return self
	def copy(self):
		return self

	# decisions
	def __eq__(self, o):
		if not isinstance(o, Sym):
			try:
				o = self.R.const(o)
			except (Unsupported, Undefined):
				return NotImplemented
		if self.t == o.t: return True
		d = self - o
		if d.is_const(): return False
		return self.R.branch(d, 'eq') == 0
	def __ne__(self, o):
		r = self.__eq__(o)
		return r if r is NotImplemented else not r
	def __bool__(self):
		if self.is_const():
			return bool(self.const_value())
		return self.R.branch(self, 'eq') != 0
	def _cmp(self, o):
		o = self._other(o)
		d = self - o
		if d.is_const():
			return d.const_value()
		return self.R.branch(d, 'sign')
	def __lt__(self, o): return self._cmp(o) < 0
	def __le__(self, o): return self._cmp(o) <= 0
	def __gt__(self, o): return self._cmp(o) > 0
	def __ge__(self, o): return self._cmp(o) >= 0
	def __float__(self):
		if self.is_const():
			return float(self.const_value())
		raise Unsupported('float() of a symbolic value')
	def __int__(self):
		if self.is_const():
			return int(self.const_value())
		raise Unsupported('int() of a symbolic value')

	def diff(self, x):
		"""derivative with respect to the free variable x (a Sym that is a single variable)"""
		(k, _), = x.t.items()
		return _diff(self, (k.bit_length() - 1) // BITS, {})

	def subs(self, values):
		"""replace free variables {atom index: value}; derived atoms are rebuilt"""
		return _subs(self, dict(values))

	def max_exp(self, i):
		sh = BITS * i
		return max(((k >> sh) & FIELD for k in self.t), default=0)

	def is_zero(self):
		"""normal form: clear inverse atoms, youngest first"""
		p = self
		if not p.t:
			return True
		R = self.R
		for a in reversed(R.inverse_atoms):
			sh = BITS * a.index
			e = p.max_exp(a.index)
			if not e:
				continue
			parts = {}
			for k, v in p.t.items():
				x = (k >> sh) & FIELD
				parts.setdefault(x, {})[k - (x << sh)] = v
			# Horner in D: sum_x parts[x] * D^(e - x)
			acc = None
			for x in range(0, e + 1):
				q = Sym(R, parts.get(x, {}))
				acc = q if acc is None else acc * a.arg + q
			p = acc
			if not p.t:
				return True
		return not p.t

	def __repr__(self):
		out = []
		for k, v in sorted(self.t.items(), reverse=True)[:8]:
			s, i = [], 0
			m = k
			while m:
				e = m & FIELD
				if e:
					s.append(self.R.atoms[i].name + (f'^{e}' if e > 1 else ''))
				m >>= BITS
				i += 1
			out.append(f'{v}' + ('*' + '*'.join(s) if s else ''))
		return ' + '.join(out) + (' + ...' if len(self.t) > 8 else '') if out else '0'


def _elementwise(f, a, arr):
	if arr.shape == ():
		return f(a, arr.item())
	out = np.empty(arr.shape, dtype=object)
	for i in np.ndindex(*arr.shape):
		v = arr[i]
		out[i] = f(a, v.item() if isinstance(v, np.generic) else v)
	return out


def _n(v):
	if type(v) is Fraction and v.denominator == 1:
		return v.numerator
	return v


def is_zero(x):
	if isinstance(x, Sym):
		return x.is_zero()
	return num(x) == 0


def _datom(R, i, x, memo):
	if i in memo: return memo[i]
	a = R.atoms[i]
	A = R.atom_sym(a)
	if i == x: d = R.const(1)
	elif a.kind == 'var': d = R.const(0)
	else:
		if a.kind == 'sqvar' and isinstance(a.arg, (int, Fraction)): dp = R.const(0)
		else: dp = _diff(a.arg, x, memo)
		if not dp.t: d = dp
		elif a.kind in ('sqrt', 'sqvar'): d = dp / (2 * A)
		elif a.kind == 'inv': d = -dp * A * A
		elif a.kind == 'sin': d = dp * R.func('cos', a.arg)
		elif a.kind == 'cos': d = -dp * R.func('sin', a.arg)
		elif a.kind == 'exp': d = dp * A
		elif a.kind == 'log': d = dp / a.arg
		else: raise Unsupported(f'derivative of {a.kind}')
	memo[i] = d
	return d


def _diff(p, x, memo):
	R = p.R
	out = R.const(0)
	for k, v in p.t.items():
		m, i = k, 0
		while m:
			e = m & FIELD
			if e:
				d = _datom(R, i, x, memo)
				if d.t: out = out + Sym(R, {k - (1 << (BITS * i)): v * e}) * d
			m >>= BITS
			i += 1
	return out


def _subs(p, memo):
	R = p.R
	out = R.const(0)
	for k, v in p.t.items():
		t, m, i = R.const(v), k, 0
		while m:
			e = m & FIELD
			if e:
				if i not in memo:
					a = R.atoms[i]
					if a.kind == 'var': memo[i] = R.atom_sym(a)
					elif a.kind == 'sqrt': memo[i] = R.sqrt(_subs(a.arg, memo))
					elif a.kind == 'inv': memo[i] = R.inverse(_subs(a.arg, memo))
					elif a.kind == 'abs': memo[i] = R.abs(_subs(a.arg, memo))
					elif a.kind == 'sqvar': memo[i] = R.atom_sym(a)
					else: memo[i] = R.func(a.kind, _subs(a.arg, memo))
				t = t * (R.lift(memo[i]) ** e)
			m >>= BITS
			i += 1
		out = out + t
	return out
