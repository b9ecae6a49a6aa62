"""Engine T: contracts on kernels, for every subspace of every algebra.

The real methods of OperatorFactory / Operator / SparseTensor run on *symbolic* arrays. An axis of such an array is labelled by a
symbolic subspace (an arbitrary set of blades, of unknown size); an element is a symbolic expression in one blade variable per
axis. Nothing is sampled: the sets, their sizes, the signature and the number of generators stay free.

  word     a blade as a GF(2)-linear combination of blade variables and the pseudoscalar 'I' (frozenset; xor = symmetric difference)
  parity   polynomial over GF(2) in S(u,v) (swaps), N(u,v) (shared negative generators), D(u,v) (shared generators), n(u), g(u)
           (grade), q(u) (second bit of the grade) of variables; canonical by bilinearity, S(u,v)+S(v,u) = g(u)g(v)+D(u,v), S(u,u) = q(u)
  formula  membership in sets, shared null generators, linear (in)equalities of grades, equality of words, parities
  value    sum of  coefficient * (-1)^parity * [conjunction] * kernel factors, possibly under sums over bound blade variables

Contracts of the callees (proved elsewhere): Algebra.product/cayley/grade/involute/reverse/bit_dot (C01, every n and signature),
SubSpace set operations (C03, every set). A postcondition is a pointwise equation of kernels; it is discharged by the normal form
or, where conditions differ, by z3 over the numbers of generators of each kind (linear integer arithmetic). A model gives a concrete algebra
and blades, on which the real code is then run.
"""
import dv.env as env
import builtins, contextlib, importlib, itertools, pkgutil, sys
from collections import Counter
from fractions import Fraction
import numpy as np
import z3
from dv.ring import Unsupported
import numga.operator.factory, numga.operator.operator, numga.operator.sparse_tensor, numga.util
from numga.operator.factory import OperatorFactory
from numga.operator.operator import Operator
from numga.algebra.algebra import Algebra
from numga.subspace.subspace import SubSpace

I = 'I'
E = frozenset()
def W(*names):
	w = E
	for x in names: w = w ^ (x if isinstance(x, frozenset) else frozenset((x,)))
	return w


# ---------------------------------------------------------------- parity polynomials
ONE = frozenset((E,))      # the polynomial 1: its only monomial is the empty product
ZERO = E
def padd(*ps):
	r = E
	for p in ps: r = r ^ p
	return r
def pmul(p, q):
	c = Counter()
	for a in p:
		for b in q: c[a | b] += 1
	return frozenset(m for m, k in c.items() if k % 2)
def atom(*a): return frozenset((frozenset((a,)),))

def g1(u): return atom('g', u)
def d1(u, v):
	if u == v: return g1(u)
	if I in (u, v): return g1(v if u == I else u)
	return atom('D', *sorted((u, v)))
def n1(u): return atom('n', u)
def nn1(u, v):
	if u == v: return n1(u)
	if I in (u, v): return n1(v if u == I else u)
	return atom('N', *sorted((u, v)))
def s1(u, v):
	if u == v: return atom('q', u)
	if u < v: return atom('S', u, v)
	return padd(atom('S', v, u), pmul(g1(u), g1(v)), d1(u, v))
def G(w): return padd(*(g1(u) for u in w))
def NG(w): return padd(*(n1(u) for u in w))
def S(x, y): return padd(*(s1(u, v) for u in x for v in y))
def D(x, y): return padd(*(d1(u, v) for u in x for v in y))
def N(x, y): return padd(*(nn1(u, v) for u in x for v in y))
def Q(w):
	w = sorted(w)
	r = padd(*(atom('q', u) for u in w))
	for i, u in enumerate(w):
		for v in w[:i]: r = padd(r, pmul(g1(u), g1(v)), d1(u, v))
	return r
PFUN = dict(S=S, D=D, N=N, g=G, n=NG, q=Q)

def sw(w, m):
	"""substitute words for variables in a word"""
	r = E
	for u in w: r = r ^ (m[u] if u in m else frozenset((u,)))
	return r
def spar(p, m):
	if not any(u in m for mon in p for a in mon for u in a[1:]): return p
	r = E
	for mon in p:
		t = ONE
		for a in mon:
			if a[0] == 'o': f = frozenset((frozenset((a,)),))
			else: f = PFUN[a[0]](*(sw(frozenset((u,)), m) for u in a[1:]))
			t = pmul(t, f)
		r = r ^ t
	return r
def pvars(p): return {u for mon in p for a in mon for u in a[1:] if a[0] != 'o'}


# ---------------------------------------------------------------- formulas
TRUE, FALSE = ('t',), ('f',)
def ev(w): return TRUE if not w else ('ev', w)
def nul(x, y):
	"""no null generator is shared by x and y"""
	return TRUE if not x or not y else ('nul', frozenset((x, y)))
def lin(op, d, c):
	"""sum of coefficient * grade(word) + c  op  0 ; op in '==', '<='"""
	d = {w: k for w, k in d.items() if k and w}
	if not d: return TRUE if (c == 0 if op == '==' else c <= 0) else FALSE
	if op == '==' and min(d.items(), key=lambda t: sorted(t[0]))[1] < 0:
		d, c = {w: -k for w, k in d.items()}, -c
	return ('lin', op, frozenset(d.items()), c)
def par(p):
	if p == ZERO: return FALSE
	if p == ONE: return TRUE
	return ('par', p)
def conj(*fs):
	out = set()
	for f in fs:
		if f == FALSE: return FALSE
		if f == TRUE: continue
		if f[0] == 'and': out |= f[1]
		else: out.add(f)
	if not out: return TRUE
	if any(neg(f) in out for f in out): return FALSE
	return next(iter(out)) if len(out) == 1 else ('and', frozenset(out))
def disj(*fs):
	out = set()
	for f in fs:
		if f == TRUE: return TRUE
		if f == FALSE: continue
		if f[0] == 'or': out |= f[1]
		else: out.add(f)
	if not out: return FALSE
	if any(neg(f) in out for f in out): return TRUE
	return next(iter(out)) if len(out) == 1 else ('or', frozenset(out))
def neg(f):
	if f == TRUE: return FALSE
	if f == FALSE: return TRUE
	if f[0] == 'not': return f[1]
	if f[0] == 'par': return par(padd(f[1], ONE))
	if f[0] == 'lin' and f[1] == '<=':
		return lin('<=', {w: -k for w, k in f[2]}, -f[3] + 1)
	return ('not', f)
def iff(a, b): return disj(conj(a, b), conj(neg(a), neg(b)))

def sf(f, m):
	k = f[0]
	if k in 'tf': return f
	if k == 'ev': return ev(sw(f[1], m))
	if k == 'nul':
		ws = [sw(w, m) for w in f[1]]
		return nul(ws[0], ws[-1])
	if k == 'lin':
		d = Counter()
		for w, c in f[2]: d[sw(w, m)] += c
		return lin(f[1], d, f[3])
	if k == 'par': return par(spar(f[1], m))
	if k == 'in': return ('in', f[1], sw(f[2], m))
	if k == 'sup': return ('sup', f[1], sw(f[2], m))
	if k == 'and': return conj(*(sf(x, m) for x in f[1]))
	if k == 'or': return disj(*(sf(x, m) for x in f[1]))
	if k == 'not': return neg(sf(f[1], m))
	if k == 'ex':     # exists v in the set: body
		return ('ex', f[1], f[2], sf(f[3], {a: b for a, b in m.items() if a != f[1]}))
	if k == 'op': return f
	raise Unsupported(f'formula {f}')
def exists(var, key, body):
	"""exists var in the set named key: body; the bound variable gets a canonical name"""
	v = '@' + str(show(body).count('@'))
	return ('ex', v, key, sf(body, {var: W(v)}))
def fvars(f):
	k = f[0]
	if k in 'tf' or k == 'op': return set()
	if k == 'ev': return set(f[1])
	if k == 'nul': return set().union(*f[1])
	if k == 'lin': return set().union(*(w for w, _ in f[2]))
	if k == 'par': return pvars(f[1])
	if k in ('in', 'sup'): return set(f[2])
	if k in ('and', 'or'): return set().union(*(fvars(x) for x in f[1]))
	if k == 'not': return fvars(f[1])
	if k == 'ex': return fvars(f[3]) - {f[1]}
	raise Unsupported(f'formula {f}')
def conjuncts(f):
	return set() if f == TRUE else set(f[1]) if f[0] == 'and' else {f}


# ---------------------------------------------------------------- integers in grades
class Int:
	"""polynomial with integer coefficients in atoms ('g', word), ('sw', x, y), ('dn', x, y), ('dz', x, y), ('fl2', Int), ('abs', Int)"""
	def __init__(self, d): self.d = {k: c for k, c in d.items() if c}
	@staticmethod
	def of(x):
		if isinstance(x, Int): return x
		if isinstance(x, (bool, np.bool_, int, np.integer)): return Int({(): int(x)})
		raise Unsupported(f'integer from {type(x).__name__}')
	@staticmethod
	def atom(*a): return Int({(a,): 1})
	def const(self): return self.d.get((), 0) if set(self.d) <= {()} else None
	def __add__(self, o):
		d = Counter(self.d)
		for k, c in Int.of(o).d.items(): d[k] += c
		return Int(d)
	def __mul__(self, o):
		d = Counter()
		for k, c in self.d.items():
			for l, e in Int.of(o).d.items(): d[tuple(sorted(k + l, key=repr))] += c * e
		return Int(d)
	def neg(self): return self * -1
	def key(self): return frozenset(self.d.items())
	def __eq__(self, o): return isinstance(o, Int) and self.d == o.d
	def __hash__(self): return hash(self.key())
	def __repr__(self): return ' + '.join(f'{c}*{k}' for k, c in self.d.items()) or '0'
	def subst(self, m):
		r = Int({})
		for k, c in self.d.items():
			t = Int({(): c})
			for a in k:
				if a[0] in ('fl2', 'abs'): t = t * Int.atom(a[0], a[1].subst(m))
				elif a[0] == 'op': t = t * Int.atom(*a)
				else:
					ws = tuple(sw(w, m) for w in a[1:])
					if a[0] == 'g' and not ws[0]: t = Int({})
					else: t = t * Int.atom(a[0], *ws)
			r = r + t
		return r
	def parity(self):
		r = ZERO
		for k, c in self.d.items():
			if c % 2 == 0: continue
			t = ONE
			for a in k:
				if a[0] == 'g': p = G(a[1])
				elif a[0] == 'sw': p = S(a[1], a[2])
				elif a[0] == 'dn': p = N(a[1], a[2])
				elif a[0] == 'op': p = atom('o', a[1])
				elif a[0] == 'fl2' and list(a[1].d.items()) and len(a[1].d) == 1:
					(m, c2), = a[1].d.items()
					if c2 != 1 or len(m) != 1 or m[0][0] != 'g': raise Unsupported('parity of a quotient')
					p = Q(m[0][1])
				elif a[0] == 'abs': p = a[1].parity()
				else: raise Unsupported(f'parity of {a}')
				t = pmul(t, p)
			r = padd(r, t)
		return r
	def cmp(self, op):
		"""formula self op 0"""
		for k in self.d:
			for a in k:
				if a[0] == 'abs':
					pos, ng = Int({}), Int({})
					for kk, c in self.d.items():
						if a in kk:
							rest = list(kk); rest.remove(a)
							pos = pos + Int({tuple(rest): c}) * a[1]
							ng = ng + Int({tuple(rest): c}) * a[1].neg()
						else:
							pos = pos + Int({kk: c}); ng = ng + Int({kk: c})
					s = a[1].neg().cmp('<=')
					return disj(conj(s, pos.cmp(op)), conj(neg(s), ng.cmp(op)))
		if op == '!=': return neg(self.cmp('=='))
		if op == '<': return (self + 1).cmp('<=')
		if op == '>=': return self.neg().cmp('<=')
		if op == '>': return (self.neg() + 1).cmp('<=')
		c = self.d.get((), 0)
		rest = {k: v for k, v in self.d.items() if k}
		if len(rest) == 1 and c <= 0 or len(rest) == 1 and c == 1:
			(k, v), = rest.items()
			if len(k) == 1 and k[0][0] == 'dz':
				z = nul(k[0][1], k[0][2])
				if c == 0 and op == '==': return z
				if c == 0 and op == '<=' and v > 0: return z
				if c == 0 and op == '<=' and v < 0: return TRUE
				if c == 1 and op == '<=' and v == -1: return neg(z)
				raise Unsupported('comparison of a null count')
		d = Counter()
		for k, v in rest.items():
			if len(k) != 1 or k[0][0] != 'g': raise Unsupported(f'comparison of {self}')
			d[k[0][1]] += v
		return lin(op, d, c)


# ---------------------------------------------------------------- values
_fresh = itertools.count()
def fresh(p='v'): return f'{p}{next(_fresh)}'

class Val:
	"""dict {(parity, conjunction, factors, bound): coefficient}; bound: tuple of (variable)"""
	__slots__ = ('d',)
	def __init__(self, d=()):
		self.d = {k: c for k, c in dict(d).items() if c}
	@staticmethod
	def const(c): return Val({(ZERO, TRUE, (), ()): Fraction(c)})
	@staticmethod
	def term(c=1, parity=ZERO, cond=TRUE, factors=(), bound=()):
		if cond == FALSE: return Val()
		return Val({(parity, cond, tuple(sorted(factors, key=kfac)), tuple(bound)): Fraction(c)})
	def __add__(self, o):
		d = dict(self.d)
		for k, c in o.d.items(): d[k] = d.get(k, 0) + c
		return Val(d)
	def scale(self, c): return Val({k: v * c for k, v in self.d.items()})
	def __sub__(self, o): return self + o.scale(-1)
	def apart(self):
		"""fresh names for the bound variables"""
		r = Val()
		for (p, f, a, b), c in self.d.items():
			m = {v: W(fresh('z')) for v in b}
			r = r + Val({(spar(p, m), sf(f, m), sfac(a, m), tuple(next(iter(m[v])) for v in b)): c}) if b else r + Val({(p, f, a, b): c})
		return r
	def __mul__(self, o):
		if len(self.d) * len(o.d) > 4000: raise Unsupported('too many terms')
		o = o.apart()
		d = {}
		for (p, f, a, b), c in self.d.items():
			for (p2, f2, a2, b2), c2 in o.d.items():
				fc = conj(f, f2)
				if fc == FALSE: continue
				k = (padd(p, p2), fc, tuple(sorted(a + a2, key=kfac)), b + b2)
				d[k] = d.get(k, 0) + c * c2
		return Val(d)
	def subst(self, m):
		d = {}
		for (p, f, a, b), c in self.d.items():
			ff = sf(f, m)
			if ff == FALSE: continue
			k = (spar(p, m), ff, sfac(a, m), b)
			d[k] = d.get(k, 0) + c
		return Val(d)
	def where(self, f):
		"""multiply by an indicator"""
		d = {}
		for (p, g, a, b), c in self.d.items():
			h = conj(g, f)
			if h != FALSE: d[p, h, a, b] = d.get((p, h, a, b), 0) + c
		return Val(d)
	def total(self, var, member):
		"""sum over var with member(var)"""
		d = {}
		for (p, f, a, b), c in self.d.items():
			f = conj(f, member)
			if f == FALSE: continue
			e = min((x for x in conjuncts(f) if x[0] == 'ev' and var in x[1]), key=lambda x: (builtins.len(x[1]), sorted(x[1])), default=None)
			if e is None:
				k = (p, f, a, b + (var,))
			else:
				m = {var: e[1] ^ frozenset((var,))}
				k = (spar(p, m), conj(*(sf(x, m) for x in conjuncts(f) if x != e)), sfac(a, m), b)
				if k[1] == FALSE: continue
			d[k] = d.get(k, 0) + c
		return Val(d)
	def vars(self):
		s = set()
		for (p, f, a, b), c in self.d.items():
			s |= (pvars(p) | fvars(f) | {u for x in a for w in x[1:] for u in w}) - set(b)
		return s
	def __repr__(self):
		def w(x): return '^'.join(sorted(x)) or '1'
		out = []
		for (p, f, a, b), c in self.d.items():
			out.append(f'{c}*(-1)^{[tuple(m) for m in p]}*[{show(f)}]*{[(x[0],)+tuple(w(y) for y in x[1:]) for x in a]}' + (f' sum {b}' if b else ''))
		return ' + '.join(out) or '0'
def kfac(x): return (x[0],) + tuple(tuple(sorted(w)) for w in x[1:])
def sfac(a, m): return tuple(sorted(((x[0],) + tuple(sw(w, m) for w in x[1:]) for x in a), key=kfac))
def show(f):
	k = f[0]
	w = lambda x: '^'.join(sorted(x)) or '1'
	if k in 'tf': return {'t': 'true', 'f': 'false'}[k]
	if k == 'ev': return f'{w(f[1])}=0'
	if k == 'nul': return 'nonull(' + ','.join(map(w, f[1])) + ')'
	if k == 'lin': return '+'.join(f'{c}|{w(x)}|' for x, c in f[2]) + f'+{f[3]}{f[1]}0'
	if k in ('in', 'sup'): return f'{w(f[2])} in {f[1]}'
	if k == 'ex': return f'exists {f[1]} in {f[2]}: {show(f[3])}'
	if k == 'par': return f'odd{sorted(map(sorted, f[1]))}'
	if k in ('and', 'or'): return '(' + f' {k} '.join(sorted(map(show, f[1]))) + ')'
	if k == 'not': return f'not {show(f[1])}'
	return str(f)


# ---------------------------------------------------------------- session: paths, assumptions
class Session:
	def __init__(self, choices=(), shared=None):
		self.choices, self.taken, self.assume = list(choices), [], []
		self.exact = {}
		self.generic = None
		self.required = []
		self.shared = shared
		self.peak = 0
	def decide(self, formula=None, exact=None):
		if self.generic is not None: return self.generic.decide(formula)
		i = len(self.taken)
		v = self.choices[i] if i < len(self.choices) else True
		self.taken.append(v)
		if exact is not None: self.exact[exact] = v
		if formula is not None: self.assume.append(formula if v else neg(formula))
		return v
class Generic:
	"""one arbitrary element of an array that python code loops over; the cases of the loop body are merged element by element"""
	def __init__(self, d, key, choices): self.d, self.key, self.choices, self.taken, self.assume = d, key, choices, [], []
	def decide(self, formula):
		if formula is None: raise Unsupported('exactness inside a loop')
		i = len(self.taken)
		v = self.choices[i] if i < len(self.choices) else True
		self.taken.append(v)
		self.assume.append(formula if v else neg(formula))
		return v
class Shared:
	def __init__(self): self.merged, self.pending, self.todo, self.cases = {}, {}, {}, {}
class Collect(BaseException):
	def __init__(self, g, value): self.g, self.value = g, value
ses = Session()

def explore(fn, limit=200):
	"""run fn on every path; yields (session, result | exception)"""
	global ses
	todo = [()]
	k = 0
	shared = Shared()
	while todo:
		ch = todo.pop()
		while True:
			k += 1
			if k > limit: raise Unsupported('too many paths')
			ses = s = Session(ch, shared)
			try: r = fn()
			except (Unsupported, RecursionError): raise
			except Collect as e:
				g = e.g
				shared.cases.setdefault(g.key, []).append((conj(*g.assume), e.value, g.d.var))
				rest = shared.todo.setdefault(g.key, [])
				rest += [tuple(g.taken[:i]) + (False,) for i in range(len(g.choices), len(g.taken))]
				if rest: shared.pending[g.key] = rest.pop()
				else: shared.merged[g.key] = shared.cases[g.key]
				continue
			except Exception as e: r = e
			break
		for i in range(len(ch), len(s.taken)):
			todo.append(tuple(s.taken[:i]) + (False,))
		yield s, r


class Bool:
	"""truth value of a formula; asking for it splits the path"""
	def __init__(self, f=None, exact=None): self.f, self.exact = f, exact
	def __bool__(self):
		if self.f == TRUE: return True
		if self.f == FALSE: return False
		if self.exact is not None:
			t, positive = self.exact
			if t in ses.exact: return ses.exact[t] == positive
			return ses.decide(exact=t) == positive
		return ses.decide(self.f)
	def __eq__(self, o): return bool(self) == bool(o)
	__hash__ = None


# ---------------------------------------------------------------- sets
class Len:
	"""the unknown size of a set"""
	def __init__(self, dom): self.dom = dom
	def __eq__(self, o):
		if isinstance(o, Len) and o.dom.key == self.dom.key: return True
		raise Unsupported('the code depends on the size of a subspace')
	def __hash__(self): return hash(self.dom.key)
	def _u(self, *a): raise Unsupported('the code depends on the size of a subspace')
	__bool__ = __index__ = __int__ = __lt__ = __le__ = __gt__ = __ge__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __floordiv__ = __mod__ = _u
	def __ne__(self, o): return not self.__eq__(o)


class Dom:
	"""an index domain labelled by words: 'full' positions (an array of size n_blades indexed by the bit pattern itself)"""
	key = 'positions'
	def member(self, w): return TRUE
POSITIONS = Dom()

DISTINCT = set()       # pairs of sets that are different in the case considered
class Split(BaseException):
	"""the code distinguishes whether two arbitrary sets are equal: both cases are proved in turn"""
	def __init__(self, a, b): self.a, self.b = a, b
class Equals:
	def __init__(self, sub): self.sub = sub
	def __call__(self, o): return self.sub == o
	def __getattr__(self, name):
		f = getattr(self.sub.alg.subspace, name)
		return lambda *a: self.sub == f(*a)
class SymSub(SubSpace):
	"""an arbitrary set of blades (the abstract value of a SubSpace)"""
	def __init__(self, key, member=None, alg=None, single=None, definition=None):
		d = object.__getattribute__(self, '__dict__')
		d.update(key=key, _member=member, alg=alg, single=single, definition=definition, cache={})
	def member(self, w):
		m = self._member
		return ('in', self.key, w) if m is None else m(w)
	def __repr__(self): return f'<set {self.key}>'
	def __getattribute__(self, name):
		if name in SymSub.__dict__ or name.startswith('__') or name in object.__getattribute__(self, '__dict__'):
			return object.__getattribute__(self, name)
		if name in SubSpace.__dict__ or name.startswith('_'):
			raise Unsupported(f'SubSpace.{name} of a symbolic subspace')
		op = getattr(self.alg.operator, name)
		return lambda *a: op(self, *a)
	def __getattr__(self, name): raise AttributeError(name)
	@property
	def subspace(self): return self
	@property
	def algebra(self): return self.alg
	@property
	def equals(self): return Equals(self)
	@property
	def blades(self):
		if self.single is not None: return Arr([None], ('W', self.single))
		v = fresh('b')
		return Arr([Ax(self, v)], ('W', W(v)))
	def grades(self): return self.alg.grade(self.blades)
	def __len__(self): raise Unsupported('size of a symbolic subspace')
	def __hash__(self): return hash(self.key)
	def __eq__(self, o):
		if self is o: return True
		if not isinstance(o, SymSub): return NotImplemented
		try: return same_set(self, o)
		except Unsupported:
			if frozenset((self.key, o.key)) in DISTINCT: return False
			raise Split(self, o)
	def __ne__(self, o): return not self == o
	def complement(self):
		if 'c' not in self.cache:
			if self.key == 'full': self.cache['c'] = self
			else:
				c = SymSub(('complement', self.key), lambda w: self.member(w ^ W(I)), self.alg, None if self.single is None else self.single ^ W(I))
				c.cache['c'] = self
				self.cache['c'] = c
		return self.cache['c']
	def _both(self, o, name, f):
		if (name, o.key) not in self.cache:
			self.cache[name, o.key] = SymSub((name, self.key, o.key), lambda w: f(self.member(w), o.member(w)), self.alg)
		return self.cache[name, o.key]
	def intersection(self, o): return self if self is o else self._both(o, 'intersection', conj)
	def union(self, o): return self if self is o else self._both(o, 'union', disj)
	def difference(self, o): return self._both(o, 'difference', lambda a, b: conj(a, neg(b)))
	def restrict_subspace(self, o): return self.intersection(o)
	def select_subspace(self, o): return o
	def degenerate(self):
		if 'deg' not in self.cache: self.cache['deg'] = SymSub(('degenerate', self.key), lambda w: conj(self.member(w), neg(nul(w, w))), self.alg)
		return self.cache['deg']
	def nondegenerate(self):
		if 'ndg' not in self.cache: self.cache['ndg'] = SymSub(('nondegenerate', self.key), lambda w: conj(self.member(w), nul(w, w)), self.alg)
		return self.cache['ndg']
	def to_relative_indices(self, blades):
		if not isinstance(blades, Arr) or blades.elem[0] != 'W': raise Unsupported('relative indices of something else')
		ses.required.append((blades.hyps(), self.member(blades.elem[1])))
		return Arr(blades.dims, ('P', self, blades.elem[1]))
	def slice_subspace(self, ix):
		if isinstance(ix, Indices) and ix.dom.key == self.key: return ix.sub()
		raise Unsupported('slice of a symbolic subspace')
	def is_subspace(self, o): raise Unsupported('inclusion of symbolic subspaces')
	def __contains__(self, o): raise Unsupported('inclusion of symbolic subspaces')


def same_set(a, b):
	if a.key == b.key: return True
	# members of one are members of the other, by the membership formulas
	x = fresh('e')
	fa, fb = a.member(W(x)), b.member(W(x))
	if fa == fb or valid([], iff(fa, fb)): return True
	if a.definition and b.definition and same_support(a.definition, b.definition): return True
	raise Unsupported(f'equality of the sets {a.key} and {b.key} is not decided')

def same_support(d1, d2):
	"""supports {o : exists inputs, value != 0} of two kernels: equal when some matching of the inputs makes the values vanish together"""
	(ins1, o1, v1), (ins2, o2, v2) = d1, d2
	if len(ins1) != len(ins2): return False
	for perm in itertools.permutations(range(len(ins2))):
		if not all(ins1[i].dom.key == ins2[j].dom.key for i, j in enumerate(perm)): continue
		m = {ins2[j].var: W(ins1[i].var) for i, j in enumerate(perm)}
		m[o2] = W(o1)
		w = v2.subst(m)
		hy = [ax.dom.member(W(ax.var)) for ax in ins1]
		if same_zeros(v1, w, hy, o1): return True
	return False


# ---------------------------------------------------------------- arrays
class Ax:
	__slots__ = ('dom', 'var', 'supp')
	def __init__(self, dom, var, supp=False): self.dom, self.var, self.supp = dom, var, supp
	def __repr__(self): return f'{self.var}:{self.dom.key}'
class Prod:
	__slots__ = ('axes',)
	def __init__(self, axes): self.axes = tuple(axes)


def selem(e, m):
	k = e[0]
	if k == 'W': return ('W', sw(e[1], m))
	if k == 'P': return ('P', e[1], sw(e[2], m))
	if k == 'I': return ('I', e[1].subst(m))
	if k == 'B': return ('B', sf(e[1], m))
	if k == 'V': return ('V', e[1].subst(m))
	raise Unsupported(k)

def as_val(e):
	if e[0] == 'V': return e[1]
	if e[0] == 'B': return Val.term(cond=e[1])
	if e[0] == 'I':
		c = e[1].const()
		if c is not None: return Val.const(c)
	raise Unsupported(f'number from {e[0]}')


def peak(v):
	"""bound on the absolute value of a kernel entry (without abstract factors and remaining sums)"""
	return float('inf') if any(t[2] or t[3] for t in v.d) else sum(abs(c) for c in v.d.values())

class Arr:
	"""symbolic array: dims (Ax | None for size one | Prod for flattened axes), one symbolic element"""
	__array_priority__ = 1000
	nz = None      # of a condition 'v != 0': the value v
	def __init__(self, dims, elem, dtype=np.int8):
		self.dims, self.elem, self.dtype = list(dims), elem, np.dtype(dtype)
		self.ident = object()
		if elem[0] == 'V' and len(elem[1].d) > 1: ses.peak = max(ses.peak, peak(elem[1]))
	# -- shape
	@property
	def ndim(self): return builtins.len(self.dims)
	@property
	def shape(self): return tuple(1 if d is None else Len(d.dom) if isinstance(d, Ax) else _u('shape of flattened axes') for d in self.dims)
	def axes_list(self):
		out = []
		for d in self.dims:
			if isinstance(d, Ax): out.append(d)
			elif isinstance(d, Prod): out += d.axes
		return out
	def hyps(self): return [a.dom.member(W(a.var)) for a in self.axes_list()]
	def fresh(self):
		"""the same array over fresh variables"""
		m = {a.var: W(fresh('b')) for a in self.axes_list()}
		new = lambda a: Ax(a.dom, next(iter(m[a.var])), a.supp)
		r = Arr([None if d is None else new(d) if isinstance(d, Ax) else Prod(map(new, d.axes)) for d in self.dims], selem(self.elem, m), self.dtype)
		r.ident = self.ident
		return r
	def astype(self, dtype, **k):
		r = Arr(self.dims, self.elem, dtype if not isinstance(dtype, type) or dtype is not bool else np.bool_); r.ident = self.ident
		if r.elem[0] in 'BD': r.nz = self.nz
		return r
	def copy(self): return self.astype(self.dtype)
	def flatten(self):
		ds = [d for d in self.dims if d is not None]
		if any(isinstance(d, Prod) for d in ds): raise Unsupported('flatten of flattened axes')
		return Arr([ds[0] if builtins.len(ds) == 1 else Prod(ds) if ds else None], self.elem, self.dtype)
	ravel = flatten
	def reshape(self, *s):
		s = list(s[0]) if builtins.len(s) == 1 and isinstance(s[0], (tuple, list)) else list(s)
		src = [d for d in self.dims if d is not None]
		out = []
		for x in s:
			if isinstance(x, (int, np.integer)) and x == 1: out.append(None)
			elif isinstance(x, Len):
				if not src or not isinstance(src[0], Ax) or src[0].dom.key != x.dom.key: raise Unsupported('reshape')
				out.append(src.pop(0))
			elif isinstance(x, int) and x == -1:
				# everything that the later entries leave
				n = builtins.len(src) - sum(isinstance(y, Len) for y in s[builtins.len(out) + 1:])
				if n < 0 or n > 1 and not all(isinstance(d, Ax) for d in src[:n]): raise Unsupported('reshape')
				out.append(None if n == 0 else src[0] if n == 1 else Prod(src[:n]))
				src = src[n:]
			else: raise Unsupported('reshape')
		if src: raise Unsupported('reshape')
		r = Arr(out, self.elem, self.dtype)
		r.nz = self.nz
		return r
	def __iter__(self):
		if builtins.len(self.dims) != 1 or not isinstance(self.dims[0], Ax): raise Unsupported('iteration over a symbolic array')
		if ses.generic is not None: raise Unsupported('nested iteration over symbolic arrays')
		a = self.fresh()
		d = a.dims[0]
		sh = ses.shared
		if sh is None: raise Unsupported('iteration over a symbolic array')
		ses.loops = getattr(ses, 'loops', 0) + 1
		key = tuple(ses.taken), ses.loops
		ses.generic = Generic(d, key, sh.pending.get(key, ()))
		yield Arr([], a.elem, self.dtype)
	def __bool__(self):
		if self.dims: raise Unsupported('truth value of a symbolic array')
		return bool(Bool(truth(self.elem)))
	def __int__(self): raise Unsupported('int of a symbolic element')
	__index__ = __float__ = __int__
	def __hash__(self): return id(self)
	# -- elementwise
	def _bin(self, o, f):
		if not isinstance(o, Arr):
			if isinstance(o, (bool, np.bool_)): o = Arr([], ('B', TRUE if o else FALSE))
			elif isinstance(o, (int, np.integer)): o = Arr([], ('I', Int.of(o)))
			elif isinstance(o, Num): o = Arr([], ('I', o.e))
			elif isinstance(o, (float, Fraction, np.floating)) : o = Arr([], ('V', Val.const(Fraction(o))))
			elif isinstance(o, np.ndarray) and o.ndim == 0: return self._bin(o.item(), f)
			elif isinstance(o, np.ndarray) and o.size == 1: return self._bin(lift(o), f)
			elif isinstance(o, np.ndarray): raise Unsupported('mixture of symbolic and concrete arrays')
			else: return NotImplemented
		if o is self: o = o.fresh() if False else o
		else: o = o.fresh()
		a, b = self, o
		n = max(a.ndim, b.ndim)
		da, db = [None] * (n - a.ndim) + a.dims, [None] * (n - b.ndim) + b.dims
		m, dims = {}, []
		for x, y in zip(da, db):
			if x is None: dims.append(y); continue
			if y is None: dims.append(x); continue
			if x is y: dims.append(x); continue
			if isinstance(x, Prod) and isinstance(y, Prod) and [p.dom.key for p in x.axes] == [p.dom.key for p in y.axes]:
				for p, q in zip(x.axes, y.axes): m[q.var] = W(p.var)
				dims.append(x); continue
			if isinstance(x, Ax) and isinstance(y, Ax) and x.dom.key != y.dom.key: same_set(x.dom, y.dom)
			if not (isinstance(x, Ax) and isinstance(y, Ax)): raise Unsupported('broadcast of different axes')
			m[y.var] = W(x.var)
			dims.append(Ax(x.dom, x.var, x.supp and y.supp))
		return Arr(dims, f(a.elem, selem(b.elem, m)), np.result_type(a.dtype, b.dtype) if a.dtype != bool or b.dtype != bool else np.bool_)
	def _mul_supp(self, r, o):
		# a product vanishes wherever one factor does
		for d in r.dims:
			if isinstance(d, Ax) and not d.supp:
				k = r.dims.index(d) - r.ndim
				for x in (self, o):
					if isinstance(x, Arr) and x.ndim >= -k and isinstance(x.dims[k], Ax) and x.dims[k].supp:
						r.dims[k] = Ax(d.dom, d.var, True)
		return r
	def __mul__(self, o):
		def f(x, y):
			if x[0] == 'I' and y[0] == 'I': return ('I', x[1] * y[1])
			if x[0] == 'B' and y[0] == 'B': return ('B', conj(x[1], y[1]))
			if x[0] == 'I' and y[0] in 'VB' or y[0] == 'I' and x[0] in 'VB':
				i, v = (x, y) if x[0] == 'I' else (y, x)
				if i[1].const() is not None: return ('V', as_val(v).scale(i[1].const()))
			return ('V', as_val(x) * as_val(y))
		r = self._bin(o, f)
		if r is NotImplemented: return r
		return self._mul_supp(r, o)
	__rmul__ = __mul__
	def __add__(self, o):
		def f(x, y):
			if x[0] == 'I' and y[0] == 'I': return ('I', x[1] + y[1])
			return ('V', as_val(x) + as_val(y))
		if isinstance(o, (int, np.integer)) and o == 0: return self
		return self._bin(o, f)
	__radd__ = __add__
	def __neg__(self):
		if self.elem[0] == 'I': return Arr(self.dims, ('I', self.elem[1].neg()), self.dtype)
		return Arr(self.dims, ('V', as_val(self.elem).scale(-1)), self.dtype)
	def __pos__(self): return self
	def __sub__(self, o): return self + (-o)
	def __rsub__(self, o): return (-self) + o
	def __mod__(self, k):
		if isinstance(self.elem, tuple) and self.elem[0] == 'I' and k == 2:
			return Arr(self.dims, ('V', Val.const(Fraction(1, 2)) + Val.term(Fraction(-1, 2), self.elem[1].parity())), self.dtype)
		if self.elem[0] in 'VB' and k == 2:
			v = as_val(self.elem)
			if is_bit(v): return Arr(self.dims, ('V', v), self.dtype)
		if self.elem[0] == 'V' and isinstance(k, int) and k > 1: return Remainder(self, k)
		raise Unsupported('remainder')
	def __floordiv__(self, k):
		if isinstance(k, Len): raise Unsupported('division by a size')
		if self.elem[0] == 'I' and k == 2: return Arr(self.dims, ('I', Int.atom('fl2', self.elem[1])), self.dtype)
		if self.elem[0] == 'V' and isinstance(k, (int, np.integer)) and k > 0: return Quotient(self, int(k))
		raise Unsupported('integer division')
	def __truediv__(self, k):
		if isinstance(k, (int, np.integer, float, np.floating)): return Arr(self.dims, ('V', as_val(self.elem).scale(1 / Fraction(k))), np.float64)
		if isinstance(k, np.ndarray) and k.size == 1 and k.ndim <= 1: return self / lift(k)
		if isinstance(k, Arr): return self * k.reciprocal()
		raise Unsupported('division')
	def reciprocal(self):
		"""1 / value, for a value that is a constant or one abstract factor"""
		v = as_val(self.elem)
		if builtins.len(v.d) != 1: raise Unsupported('division by a sum')
		((p, f, a, b), c), = v.d.items()
		if f != TRUE or b or builtins.len(a) > 1: raise Unsupported('division by a value that may vanish')
		def inv(x):
			n = x[0][2:] if x[0].startswith('1/') else '1/' + x[0]
			return (n,) + x[1:]
		return Arr(self.dims, ('V', Val({(p, f, tuple(inv(x) for x in a), b): 1 / c})), np.float64)
	def size(self): return self.shape
	def __pow__(self, k):
		r = self
		for _ in range(k - 1): r = r * self
		return r
	def _cmp(self, o, op):
		def f(x, y):
			if x[0] == 'I' and y[0] == 'I': return ('B', (x[1] + y[1].neg()).cmp(op))
			if x[0] == 'W' and y[0] == 'W' and op in ('==', '!='):
				return ('B', ev(x[1] ^ y[1]) if op == '==' else neg(ev(x[1] ^ y[1])))
			if x[0] == 'W' and y[0] == 'I' and y[1].const() == 0 and op in ('==', '!='):
				return ('B', ev(x[1]) if op == '==' else neg(ev(x[1])))
			if x[0] in 'VB' and y[0] == 'I' and y[1].const() is not None:
				return ('B', cmp_const(as_val(x), y[1].const(), op))
			if x[0] == 'V' and y[0] == 'V':
				return ('B', cmp_const(x[1] - y[1], 0, op))
			raise Unsupported(f'comparison {x[0]} {y[0]}')
		return self._bin(o, f)
	def __eq__(self, o): return self._cmp(o, '==')
	def __ne__(self, o):
		if not (isinstance(o, (int, np.integer)) and o == 0 and self.elem[0] == 'V'): return self._cmp(o, '!=')
		try: r = self._cmp(o, '!=')
		except Unsupported: r = Arr(self.dims, ('D',), np.bool_)      # deferred: only its value is used
		r.nz = self.elem
		return r
	def __lt__(self, o): return self._cmp(o, '<')
	def __le__(self, o): return self._cmp(o, '<=')
	def __gt__(self, o): return self._cmp(o, '>')
	def __ge__(self, o): return self._cmp(o, '>=')
	def _log(self, o, f):
		return self._bin(o, lambda x, y: ('B', f(truth(x), truth(y))))
	def __and__(self, o): return self._log(o, conj)
	def __or__(self, o): return self._log(o, disj)
	__rand__, __ror__ = __and__, __or__
	def __xor__(self, o):
		def f(x, y):
			if x[0] == 'W' and y[0] == 'W': return ('W', x[1] ^ y[1])
			return ('B', neg(iff(truth(x), truth(y))))
		return self._bin(o, f)
	__rxor__ = __xor__
	def __invert__(self):
		if self.elem[0] != 'B': raise Unsupported('bitwise not')
		return Arr(self.dims, ('B', neg(self.elem[1])), np.bool_)
	def __abs__(self):
		if self.elem[0] == 'I': return Arr(self.dims, ('I', Int.atom('abs', self.elem[1])), self.dtype)
		raise Unsupported('absolute value')
	# -- indexing and axes
	def __getitem__(self, ix):
		ix = ix if isinstance(ix, tuple) else (ix,)
		if builtins.len(ix) == 1 and isinstance(ix[0], Arr):
			return self.take(ix[0], axis=0)
		k = sum(1 for x in ix if x is not None and x is not Ellipsis)
		if Ellipsis in [x for x in ix if not isinstance(x, Arr)]:
			p = [i for i, x in enumerate(ix) if x is Ellipsis][0]
			ix = ix[:p] + (slice(None),) * (self.ndim - k) + ix[p + 1:]
		else:
			ix = ix + (slice(None),) * (self.ndim - k)
		out, src = [], list(self.dims)
		for x in ix:
			if x is None: out.append(None)
			elif isinstance(x, slice) and x == slice(None): out.append(src.pop(0))
			elif isinstance(x, (int, np.integer)) and src and src[0] is None and x in (0, -1): src.pop(0)
			else: raise Unsupported('index')
		return Arr(out, self.elem, self.dtype)
	def __setitem__(self, ix, data): self.store(ix, data)
	def store(self, ix, data, summed=False):
		ix = ix if isinstance(ix, tuple) else (ix,)
		if not (self.elem[0] == 'V' and not self.elem[1].d): raise Unsupported('assignment into a non-zero array')
		if builtins.len(ix) != self.ndim or not all(isinstance(x, Arr) and (x.elem[0] in 'PW' or d is None and x.elem[0] == 'I' and x.elem[1].const() == 0) for x, d in zip(ix, self.dims)): raise Unsupported('indexed assignment')
		# join all index arrays and the data on their common axes
		data = data if isinstance(data, Arr) else Arr([], ('I', Int.of(data)))
		packed = Arr([], ('T', []))
		cur = data.fresh()
		words = []
		base = cur
		for x in ix:
			x = x.fresh()
			if builtins.len(x.dims) != builtins.len(base.dims): raise Unsupported('indexed assignment')
			m = {}
			for d, e in zip(base.dims, x.dims):
				for p, q in zip(_ax(d), _ax(e)):
					if p.dom.key != q.dom.key: raise Unsupported('indexed assignment')
					m[q.var] = W(p.var)
				if builtins.len(_ax(d)) != builtins.len(_ax(e)): raise Unsupported('indexed assignment')
			words.append((None, None) if x.elem[0] == 'I' else (x.elem[1] if x.elem[0] == 'P' else POSITIONS, sw(x.elem[-1], m)))
		val = as_val(base.elem)
		dims = []
		for d, (dom, w) in zip(self.dims, words):
			if d is None:
				if dom is not None and getattr(dom, 'single', None) is None: raise Unsupported('indexed assignment')
				dims.append(None); continue
			if d.dom.key != dom.key: raise Unsupported('indexed assignment along another axis')
			v = fresh('b')
			dims.append(Ax(d.dom, v))
			val = val.where(ev(w ^ W(v)))
		bound = [a for d in base.dims for a in _ax(d)]
		for a in bound: val = val.total(a.var, a.dom.member(W(a.var)))
		if not summed and any(b for (_, _, _, b) in val.d): raise Unsupported('indexed assignment that may write an element twice')
		# every element is written at most once: the bound variables are determined by the written position
		self.dims, self.elem = dims, ('V', drop_known(val, [a.dom.member(W(a.var)) for a in dims if a]))
	def take(self, ix, axis=None, **k):
		axis = axis % self.ndim
		d = self.dims[axis]
		if isinstance(ix, Indices):
			if not isinstance(d, Ax) or d.dom.key != ix.dom.key: raise Unsupported('take along another axis')
			s = ix.sub()
			r = Arr(list(self.dims), self.elem, self.dtype)
			r.dims[axis] = Ax(s, d.var, d.supp or ix.of is self.ident)
			return r
		if not isinstance(ix, Arr): raise Unsupported('take')
		ix = ix.fresh()
		if d is None and ix.elem[0] == 'I' and ix.elem[1].const() == 0: return Arr(self.dims[:axis] + ix.dims + self.dims[axis + 1:], self.elem, self.dtype)
		if isinstance(d, Ax) and ix.elem[0] == 'P' and ix.elem[1].key == d.dom.key or isinstance(d, Ax) and d.dom is POSITIONS and ix.elem[0] == 'W':
			w = ix.elem[-1]
			# zero where the index points outside what the array is zero on is not needed: the index is in range (required)
			return Arr(self.dims[:axis] + ix.dims + self.dims[axis + 1:], selem(self.elem, {d.var: w}), self.dtype)
		raise Unsupported('take')
	def permute(self, *p): return self.transpose(*p)
	def transpose(self, *p):
		p = p[0] if builtins.len(p) == 1 and not isinstance(p[0], int) else p or tuple(range(self.ndim))[::-1]
		return Arr([self.dims[i] for i in p], self.elem, self.dtype)
	@property
	def T(self): return self.transpose()
	def swapaxes(self, a, b):
		p = list(range(self.ndim)); p[a], p[b] = p[b], p[a]
		return self.transpose(p)
	def squeeze(self): raise Unsupported('squeeze of an array')
	def any(self, axis=None, keepdims=False, dim=None):
		axis = dim if dim is not None else axis
		if self.nz is not None: return Arr(self.dims, self.nz).any(axis, keepdims)
		axis = tuple(range(self.ndim)) if axis is None else (axis,) if isinstance(axis, int) else tuple(axis)
		axis = tuple(x % self.ndim for x in axis)
		if not axis: return Arr(self.dims, ('B', truth(self.elem)), np.bool_)
		rest = [i for i in range(self.ndim) if i not in axis]
		gone = [a for i in axis for a in _ax(self.dims[i])]
		if self.elem[0] == 'B' :
			f = self.elem[1]
			for a in gone:
				SETS[a.dom.key] = a.dom
				if a.var in fvars(f): f = exists(a.var, a.dom.key, f)
			if any(a.var not in fvars(self.elem[1]) for a in gone): raise Unsupported('any over an axis the condition does not depend on')
		else:
			if builtins.len(rest) != 1 or not isinstance(self.dims[rest[0]], Ax): raise Unsupported('any')
			d = self.dims[rest[0]]
			s = support(gone, d, as_val(self.elem))
			f = ('sup', s.key, W(d.var))
		dims = [None if i in axis else d for i, d in enumerate(self.dims) if keepdims or i not in axis]
		r = Arr(dims, ('B', f), np.bool_)
		r.ident = self.ident
		return r
	def all(self, axis=None, **k):
		if axis is not None: raise Unsupported('all along an axis')
		f = truth(self.elem)
		hy = self.hyps()
		if f == TRUE or valid(hy, f): return Bool(TRUE)
		raise Unsupported('all over a symbolic array')
	def sum(self, axis=None, keepdims=False, dim=None, **k):
		axis = dim if dim is not None else axis
		axis = tuple(range(self.ndim)) if axis is None else (axis,) if isinstance(axis, int) else tuple(axis)
		axis = tuple(x % self.ndim for x in axis)
		v = as_val(self.elem)
		for i in axis:
			for a in _ax(self.dims[i]): v = v.total(a.var, TRUE if a.supp else a.dom.member(W(a.var)))
		return Arr([None if i in axis else d for i, d in enumerate(self.dims) if keepdims or i not in axis], ('V', v), self.dtype)
	def nonzero(self): raise Unsupported('nonzero')
	def item(self): raise Unsupported('item')
	def tolist(self): raise Unsupported('tolist')
	def __array__(self, *a, **k): raise Unsupported('conversion of a symbolic array')
	def __array_ufunc__(self, uf, method, *args, **kw):
		if uf is np.add and method == 'at' and builtins.len(args) == 3 and isinstance(args[0], Arr) and not kw:
			# zeros + the sum of everything written to an element
			return args[0].store(args[1], args[2], True)
		f = UF.get(uf.__name__) if method == '__call__' else None
		if f is None or set(kw) - {'dtype'}: raise Unsupported(f'numpy.{uf.__name__}.{method}')
		return f(*args)
	def __array_function__(self, func, types, args, kw):
		f = AF.get(func.__name__)
		if f is None: raise Unsupported(f'numpy.{func.__name__}')
		return f(*args, **kw)

def _ax(d): return [] if d is None else [d] if isinstance(d, Ax) else list(d.axes)
def _u(what): raise Unsupported(what)
def truth(e):
	if e[0] == 'B': return e[1]
	if e[0] == 'I': return e[1].cmp('!=')
	if e[0] == 'V': return cmp_const(e[1], 0, '!=')
	raise Unsupported('truth value')

def is_bit(v):
	"""(1 - (-1)^p)/2, or indicators"""
	try: cmp_const(v, 1, '=='); return True
	except Unsupported: return False

def cmp_const(v, c, op):
	"""formula: value op c, for values with few possible terms"""
	if op not in ('==', '!='):
		raise Unsupported('ordering of kernel values')
	if any(a or b for (_, _, a, b) in v.d): raise Unsupported('comparison of kernel values')
	terms = [(t[0], t[1], k) for t, k in v.d.items()]
	if builtins.len(terms) > 6: raise Unsupported('comparison of kernel values')
	# all combinations of the truth values of parities and conditions
	pars = [p for p in dict.fromkeys(t[0] for t in terms) if p not in (ZERO, ONE)]
	conds = [f for f in dict.fromkeys(t[1] for t in terms) if f != TRUE]
	out = []
	for bits in itertools.product((0, 1), repeat=builtins.len(pars) + builtins.len(conds)):
		pm = dict(zip(pars, bits)); pm[ZERO], pm[ONE] = 0, 1
		cm = dict(zip(conds, bits[builtins.len(pars):])); cm[TRUE] = 1
		if (sum(k * (-1) ** pm[p] * cm[f] for p, f, k in terms) == c) == (op == '=='):
			out.append(conj(*[par(p) if b else neg(par(p)) for p, b in pm.items() if p not in (ZERO, ONE)], *[f if b else neg(f) for f, b in cm.items() if f != TRUE]))
	return disj(*out)


class Indices:
	"""positions along an axis at which a condition holds"""
	def __init__(self, dom, var, f, of):
		self.dom, self.var, self.f, self.of = dom, var, f, of
	def sub(self):
		if self.f[0] == 'sup' and self.f[2] == W(self.var):
			return SETS[self.f[1]]
		k = ('slice', self.dom.key, sf(self.f, {self.var: W('_')}))
		return SymSub(k, lambda w: conj(self.dom.member(w), sf(self.f, {self.var: w})), self.dom.alg)

_supports = {}
OPS = {}        # abstract operators: name -> axes
SETS = {}       # name -> set, for the names occurring in formulas
def support(gone, d, val):
	"""the set of all o in d.dom with a non-zero element"""
	key = ('support', id(d.dom.alg), d.dom.key, tuple(a.dom.key for a in gone), frozenset(val.subst({**{a.var: W(f'_{i}') for i, a in enumerate(gone)}, d.var: W('_o')}).d.items()))
	if key not in _supports:
		name = f'supp{builtins.len(_supports)}'
		s = SymSub(name, lambda w: ('sup', name, w), d.dom.alg, definition=(gone, d.var, val))
		object.__getattribute__(s, '__dict__')['parent'] = d.dom
		_supports[key] = SETS[name] = s
	return _supports[key]


class Quotient(Arr):
	"""k // m: usable once the division is known to be exact"""
	def __init__(self, k, m):
		self.k, self.m = k, m
		self.tok = (id(k), m)
		self._keep = k
		self.dtype = k.dtype
		self.ident = object()
	def _exact(self):
		if self.tok in ses.exact:
			if not ses.exact[self.tok]: raise Unsupported('inexact integer division')
			return
		if not divisible(as_val(self.k.elem), self.m, self.k.hyps()): raise Unsupported('integer division not shown to be exact')
		ses.exact[self.tok] = True
	@property
	def dims(self): self._exact(); return self.k.dims
	@property
	def elem(self): self._exact(); return ('V', as_val(self.k.elem).scale(Fraction(1, self.m)))
	def __mul__(self, o):
		if isinstance(o, (int, np.integer)) and o == self.m and self.tok not in ses.exact: return QuotientTimes(self)
		return Arr(self.dims, self.elem, self.dtype) * o
	__rmul__ = __mul__
	def fresh(self): return Arr(self.dims, self.elem, self.dtype).fresh()
	def astype(self, *a, **k): return Arr(self.dims, self.elem, self.dtype)
class QuotientTimes:
	"""(k // m) * m"""
	def __init__(self, q): self.q = q
	def __eq__(self, o):
		if o is self.q.k: return ExactTest(self.q.tok, True)
		raise Unsupported('comparison of a quotient')
	def __ne__(self, o):
		if o is self.q.k: return ExactTest(self.q.tok, False)
		raise Unsupported('comparison of a quotient')
	__hash__ = None
class ExactTest:
	"""elementwise 'division is exact' (positive) or its negation"""
	def __init__(self, tok, positive): self.tok, self.positive = tok, positive
	def all(self, *a, **k):
		if not self.positive: raise Unsupported('all')
		return Bool(None, (self.tok, True))
	def any(self, *a, **k):
		if self.positive: raise Unsupported('any')
		return Bool(None, (self.tok, False))
	def __array_function__(self, func, types, args, kw):
		if func.__name__ in ('all', 'any'): return getattr(self, func.__name__)()
		raise Unsupported(f'numpy.{func.__name__}')
class Remainder(ExactTest):
	def __init__(self, k, m):
		self._keep = k
		super().__init__((id(k), m), False)
	def __eq__(self, o):
		if o == 0: return ExactTest(self.tok, True)
		raise Unsupported('comparison of a remainder')
	def __ne__(self, o):
		if o == 0: return ExactTest(self.tok, False)
		raise Unsupported('comparison of a remainder')
	__hash__ = None


class Num:
	"""a symbolic integer (number of generators)"""
	def __init__(self, e): self.e = e
	def _b(self, o, f):
		if isinstance(o, Arr): return f(Arr([], ('I', self.e)), o)
		return f(Arr([], ('I', self.e)), Arr([], ('I', o.e if isinstance(o, Num) else Int.of(o))))
	def _n(self, a):
		if not a.dims and a.elem[0] == 'I': return Num(a.elem[1])
		return a
	def __add__(self, o): return self._n(self._b(o, lambda a, b: a + b))
	__radd__ = __add__
	def __sub__(self, o): return self._n(self._b(o, lambda a, b: a - b))
	def __rsub__(self, o): return self._n(self._b(o, lambda a, b: b - a))
	def __mul__(self, o): return self._n(self._b(o, lambda a, b: a * b))
	__rmul__ = __mul__
	def __mod__(self, k): return Arr([], ('I', self.e)) % k
	def __floordiv__(self, k): return self._n(Arr([], ('I', self.e)) // k)
	def __eq__(self, o): return self._b(o, lambda a, b: a == b)
	def __ne__(self, o): return self._b(o, lambda a, b: a != b)
	def __lt__(self, o): return self._b(o, lambda a, b: a < b)
	def __gt__(self, o): return self._b(o, lambda a, b: a > b)
	def __le__(self, o): return self._b(o, lambda a, b: a <= b)
	def __ge__(self, o): return self._b(o, lambda a, b: a >= b)
	def __hash__(self): return hash(self.e)
	def __int__(self): raise Unsupported('concrete number of generators')
	__index__ = __int__
	def __bool__(self): return bool(self != 0)


# ---------------------------------------------------------------- numpy on symbolic arrays
def _moveaxis(a, s, d):
	s = [s] if isinstance(s, (int, np.integer)) else list(s)
	d = [d] if isinstance(d, (int, np.integer)) else list(d)
	s, d = [x % a.ndim for x in s], [x % a.ndim for x in d]
	order = [n for n in range(a.ndim) if n not in s]
	for x, y in sorted(zip(d, s)): order.insert(x, y)
	return a.transpose(order)
def _tensordot(a, b, axes=2):
	sa, sb = axes
	sa = [sa] if isinstance(sa, (int, np.integer)) else list(sa)
	sb = [sb] if isinstance(sb, (int, np.integer)) else list(sb)
	a, b = a.fresh(), b.fresh()
	sa, sb = [x % a.ndim for x in sa], [x % b.ndim for x in sb]
	m, bound = {}, []
	for x, y in zip(sa, sb):
		p, q = a.dims[x], b.dims[y]
		if p is None and q is None: continue
		if not (isinstance(p, Ax) and isinstance(q, Ax)): raise Unsupported('contraction')
		same_set(p.dom, q.dom)
		m[q.var] = W(p.var)
		bound.append((p.var, TRUE if p.supp or q.supp else p.dom.member(W(p.var))))
	v = as_val(a.elem) * as_val(selem(b.elem, m))
	for var, mem in bound: v = v.total(var, mem)
	return Arr([d for i, d in enumerate(a.dims) if i not in sa] + [d for i, d in enumerate(b.dims) if i not in sb], ('V', v), np.result_type(a.dtype, b.dtype))
def _diag(w):
	if isinstance(w, Arr) and w.ndim == 1 and isinstance(w.dims[0], Ax):
		w = w.fresh()
		x, y = w.dims[0], fresh('b')
		return Arr([x, Ax(x.dom, y)], ('V', as_val(w.elem).where(ev(W(x.var, y)))), w.dtype)
	raise Unsupported('diag')
def _inv(k):
	"""inverse of a generalized permutation matrix"""
	if not isinstance(k, Arr): return np.linalg.inv(k)
	if k.ndim != 2 or not all(isinstance(d, Ax) for d in k.dims): raise Unsupported('matrix inverse')
	k = k.fresh()
	x, y = k.dims
	v = as_val(k.elem)
	if builtins.len(v.d) != 1: raise Unsupported('matrix inverse')
	((p, f, a, b), c), = v.d.items()
	e = [g for g in conjuncts(f) if g[0] == 'ev']
	if a or b or builtins.len(e) != 1 or abs(c) != 1: raise Unsupported('matrix inverse')
	w = e[0][1]
	if not {x.var, y.var} <= w or (w - {x.var, y.var}) - {I}: raise Unsupported('matrix inverse')
	rest = conj(*(g for g in conjuncts(f) if g != e[0]))
	sub = {y.var: w ^ W(y.var)}
	hx, hy = x.dom.member(W(x.var)), sf(y.dom.member(W(y.var)), sub)
	if not valid([], iff(hx, hy)) or not valid([hx], sf(rest, sub)): raise Unsupported('matrix inverse: not a bijection')
	return Arr([y, x], ('V', Val({(p, e[0], (), ()): c})), np.float64)
def _unique(a, **k):
	if a.ndim == 1 and not k: return a          # a set: only used through any/all
	raise Unsupported('unique')
def _isin(a, b, **k):
	if isinstance(b, (list, tuple)):
		r = None
		for x in b:
			t = a == x
			r = t if r is None else r | t
		return r if r is not None else Arr(a.dims, ('B', FALSE), np.bool_)
	if isinstance(b, Arr) and b.ndim == 1: return (a[..., None] == b).any(axis=-1)
	raise Unsupported('isin')
def _array(x, *a, **k):
	if isinstance(x, Arr): return x
	g = ses.generic
	if g is not None and isinstance(x, (list, tuple)) and builtins.len(x) == 1:
		v, = x
		if isinstance(v, Arr) and v.dims: raise Unsupported('array of arrays')
		if not isinstance(v, (Arr, int, np.integer, np.bool_)): raise Unsupported('array of other objects')
		e = v.elem if isinstance(v, Arr) else ('I', Int.of(v))
		cases = ses.shared.merged.get(g.key)
		if cases is None: raise Collect(g, e)
		ses.generic = None
		here = lambda c: (sf(c[0], {c[2]: W(g.d.var)}), selem(c[1], {c[2]: W(g.d.var)}))
		if builtins.len(cases) == 1: return Arr([g.d], here(cases[0])[1])
		val = Val()
		for c in cases:
			cond, e = here(c)
			val = val + as_val(e).where(cond)
		return Arr([g.d], ('V', val), np.int64)
	raise Unsupported('array of symbolic elements')
def _where(c, a, b):
	c = Arr(c.dims, ('B', truth(c.elem)), np.bool_)
	return c * a + (~c) * b

def _meshgrid(*xs, indexing='xy', sparse=False, copy=True):
	xs = [x.fresh() for x in xs]
	if any(x.ndim != 1 or isinstance(x.dims[0], Prod) for x in xs) or sparse: raise Unsupported('meshgrid')
	dims = [x.dims[0] for x in xs]
	if indexing == 'xy' and builtins.len(dims) > 1: dims[0], dims[1] = dims[1], dims[0]
	return [Arr(dims, x.elem, x.dtype) for x in xs]
def _ix(*xs):
	n = builtins.len(xs)
	return tuple(x[(None,) * i + (slice(None),) + (None,) * (n - i - 1)] for i, x in enumerate(xs))

AF = dict(meshgrid=_meshgrid, ix_=_ix, tensordot=_tensordot, moveaxis=_moveaxis, swapaxes=lambda a, i, j: a.swapaxes(i, j), transpose=lambda a, p=None: a.transpose(*([p] if p is not None else [])),
          diag=_diag, inv=_inv, unique=_unique, take=lambda a, i, axis=None: a.take(i, axis=axis), any=lambda a, axis=None, **k: a.any(axis=axis, **k),
          all=lambda a, axis=None, **k: a.all(axis=axis, **k), sum=lambda a, axis=None, **k: a.sum(axis=axis, **k), isin=_isin, in1d=_isin,
          flatnonzero=lambda a: _flatnonzero(a), nonzero=lambda a: (_flatnonzero(a),), argwhere=lambda a: _u('argwhere'), ravel=lambda a: a.flatten(), reshape=lambda a, s: a.reshape(s),
          where=lambda c, *a: _where(c, *a) if a else (_flatnonzero(c),), copy=lambda a: a.copy(), expand_dims=lambda a, axis: a[tuple([slice(None)] * (axis % (a.ndim + 1)) + [None])],
          zeros_like=lambda a, **k: Arr(a.dims, ('V', Val()), a.dtype), ndim=lambda a: a.ndim, rollaxis=lambda a, x, s=0: _moveaxis(a, x, s if s <= x else s - 1),
          einsum=lambda *a, **k: _einsum(*a, **k), outer=lambda a, b: a[:, None] * b[None, :], array_equal=lambda a, b: _u('array_equal'))
UF = dict(divmod=lambda a, b: (a // b, a % b), square=lambda a: _op(a, a, '__mul__'), multiply=lambda a, b: _op(a, b, '__mul__'), add=lambda a, b: _op(a, b, '__add__'), subtract=lambda a, b: a - b if isinstance(a, Arr) else (-b) + a,
          negative=lambda a: -a, absolute=abs, equal=lambda a, b: _op(a, b, '__eq__'), not_equal=lambda a, b: _op(a, b, '__ne__'),
          logical_and=lambda a, b: _op(a, b, '__and__'), logical_or=lambda a, b: _op(a, b, '__or__'), logical_not=lambda a: ~Arr(a.dims, ('B', truth(a.elem)), np.bool_),
          bitwise_and=lambda a, b: _op(a, b, '__and__'), bitwise_or=lambda a, b: _op(a, b, '__or__'), bitwise_xor=lambda a, b: _op(a, b, '__xor__'), invert=lambda a: ~a,
          remainder=lambda a, b: a % b, floor_divide=lambda a, b: a // b, greater=lambda a, b: a > b if isinstance(a, Arr) else b < a, less=lambda a, b: a < b if isinstance(a, Arr) else b > a,
          greater_equal=lambda a, b: a >= b if isinstance(a, Arr) else b <= a, less_equal=lambda a, b: a <= b if isinstance(a, Arr) else b >= a, true_divide=lambda a, b: a / b)
def _op(a, b, name):
	if not isinstance(a, Arr): a, b = b, a
	return getattr(a, name)(b)
def _flatnonzero(a):
	if a.ndim != 1 or not isinstance(a.dims[0], Ax): raise Unsupported('flatnonzero')
	d = a.dims[0]
	return Indices(d.dom, d.var, truth(a.elem), a.ident)
def lift(x):
	"""a concrete array with one element, as a symbolic one"""
	if isinstance(x, Arr): return x
	if isinstance(x, Plain): return x.arr
	a = np.asarray(x)
	if a.size != 1: raise Unsupported('mixture of symbolic and concrete arrays')
	c = a.item()
	if isinstance(c, (bool, int, float, Fraction)): return Arr([None] * a.ndim, ('V', Val.const(Fraction(c))))
	raise Unsupported('number')
class Plain:
	"""an arbitrary number, not a multivector (symbolic)"""
	def __init__(self, arr): self.arr = arr
def _einsum(spec, *ops, out=None, optimize=None, **k):
	if k: raise Unsupported('einsum options')
	ins, res = spec.replace(' ', '').split('->')
	names, batch = {}, []      # batch: broadcast axes, aligned to the right
	v = Val.const(1)
	def join(old, d, m):
		if old is None or d is None: return d if old is None else old
		same_set(old.dom, d.dom)
		m[d.var] = W(old.var)
		return Ax(old.dom, old.var, old.supp or d.supp)
	ins = ins.split(',')
	if builtins.len(ins) != builtins.len(ops): raise ValueError('number of einsum operands')
	for s, a in zip(ins, ops):
		a = lift(a).fresh()
		m = {}
		dims = list(a.dims)
		if s.startswith('...'):
			s = s[3:]
			nb = builtins.len(dims) - builtins.len(s)
			if nb < 0: raise ValueError('einsum rank')
			bd, dims = dims[:nb], dims[nb:]
			batch[:0] = [None] * max(0, nb - builtins.len(batch))
			off = builtins.len(batch) - nb
			for i, d in enumerate(bd):
				if isinstance(d, Prod): raise Unsupported('einsum over flattened axes')
				batch[off + i] = join(batch[off + i], d, m)
		if '.' in s: raise Unsupported('ellipsis')
		if builtins.len(dims) != builtins.len(s): raise ValueError('einsum rank')
		for ch, d in zip(s, dims):
			if isinstance(d, Prod): raise Unsupported('einsum over flattened axes')
			names[ch] = join(names[ch], d, m) if ch in names else d
		v = v * as_val(selem(a.elem, m))
	if res.startswith('...'): res = res[3:]
	elif batch: raise ValueError('einsum drops broadcast axes')
	if '.' in res: raise Unsupported('ellipsis')
	for ch, d in names.items():
		if ch not in res and d is not None: v = v.total(d.var, TRUE if d.supp else d.dom.member(W(d.var)))
	r = Arr(batch + [names[ch] for ch in res], ('V', v))
	if out is not None:
		if not isinstance(out, Arr) or builtins.len(out.dims) != builtins.len(r.dims): raise ValueError('einsum output')
		for x, y in zip(out.dims, r.dims):
			if (x is None) != (y is None): raise Unsupported('broadcast of the einsum output')
			if x is not None: same_set(x.dom, y.dom)
		out.dims, out.elem = r.dims, r.elem
		return out
	return r
def _broadcast_shapes(*shapes):
	n = max([builtins.len(s) for s in shapes] or [0])
	out = [1] * n
	for s in shapes:
		for i, x in enumerate(s):
			k = n - builtins.len(s) + i
			if isinstance(x, (int, np.integer)) and not isinstance(x, Len) and x == 1: continue
			if isinstance(out[k], int) and out[k] == 1: out[k] = x
			elif isinstance(out[k], Len) and isinstance(x, Len): same_set(out[k].dom, x.dom)
			elif isinstance(out[k], Len) or isinstance(x, Len): raise Unsupported('broadcast of an unknown size')
			elif out[k] != x: raise ValueError('shape mismatch')
	return tuple(out)


class ShimLinalg:
	inv = staticmethod(lambda k: _inv(k))
	def __getattr__(self, n): return getattr(np.linalg, n)
class Shim:
	"""stands in for the module numpy inside numga.operator.*: array creation with symbolic sizes; everything else is numpy itself"""
	linalg = ShimLinalg()
	values = False
	def __getattr__(self, n): return getattr(np, n)
	@staticmethod
	def _shape(s): return list(s) if isinstance(s, (tuple, list)) else [s]
	def zeros(self, shape, dtype=float, **k):
		s = self._shape(shape)
		if not any(isinstance(x, Len) for x in s):
			r = np.zeros(shape, dtype=dtype, **k)
			return lift_all(r) if self.values and r.size == 1 and r.ndim else r
		out = []
		for x in s:
			if isinstance(x, Len): out.append(Ax(x.dom, fresh('b')) if getattr(x.dom, 'single', None) is None else None)
			elif x == 1: out.append(None)
			else: raise Unsupported('zeros')
		return Arr(out, ('V', Val()), dtype)
	def identity(self, n, dtype=float, **k):
		if not isinstance(n, Len): return np.identity(n, dtype=dtype)
		x, y = fresh('b'), fresh('b')
		return Arr([Ax(n.dom, x), Ax(n.dom, y)], ('V', Val.term(cond=ev(W(x, y)))), np.dtype(dtype))
	def eye(self, n, M=None, k=0, dtype=float):
		if not isinstance(n, Len): return np.eye(n, M, k, dtype)
		if M is not None and not (isinstance(M, Len) and M == n) or k: raise Unsupported('eye')
		return self.identity(n, dtype)
	def indices(self, shape, dtype=int, **k):
		s = list(shape)
		if not any(isinstance(x, Len) for x in s): return np.indices(shape, dtype=dtype, **k)
		dims = [Ax(x.dom, fresh('b')) if isinstance(x, Len) else None for x in s]
		return [Arr(dims, ('P', d.dom, W(d.var))) if d is not None else Arr(dims, ('I', Int.of(0))) for d in dims]
	def array(self, x, *a, **k):
		if isinstance(x, Plain): return x.arr
		if ses.generic is not None or isinstance(x, Arr): return _array(x)
		return np.array(x, *a, **k)
	def asarray(self, x, *a, **k):
		if isinstance(x, Plain): return x.arr
		if ses.generic is not None or isinstance(x, Arr): return _array(x)
		return np.asarray(x, *a, **k)
	ascontiguousarray = asfortranarray = asanyarray = asarray
	broadcast_shapes = staticmethod(_broadcast_shapes)
	def empty(self, shape, dtype=float, **k): return self.zeros(shape, dtype)      # every element is written before use, or zero is as good as any
class BackendShim(Shim):
	"""stands in for jax.numpy and torch (assumed to compute what the numpy functions of the same name do); dtypes and devices are dropped"""
	float32 = float64 = np.dtype(np.float64)
	def zeros(self, shape, **k): return lift_all(Shim.zeros(self, shape))
	def asarray(self, x, *a, **k): return lift(x)
	array = as_tensor = tensor = asarray
	einsum = staticmethod(lambda spec, *ops, **k: _einsum(spec, *ops, **{a: b for a, b in k.items() if a != 'optimize'}))
	def sum(self, a, axis=None, dim=None, **k): return lift(a).sum(axis=dim if dim is not None else axis)
	def __getattr__(self, n): raise Unsupported(f'array module function {n}')
def lift_all(x): return x if isinstance(x, Arr) else Arr([None] * x.ndim, ('V', Val())) if x.size == 1 else _u('concrete array')

def shim_len(x):
	if isinstance(x, SymSub): return 1 if x.single is not None else Len(x)
	if isinstance(x, Arr):
		if not x.dims: raise Unsupported('len')
		d = x.dims[0]
		return 1 if d is None else Len(d.dom) if isinstance(d, Ax) else _u('len of flattened axes')
	return builtins.len(x)
def shim_int(x, *a):
	if isinstance(x, (Arr, Num)): return x
	return builtins.int(x, *a)
def shim_match(args):
	"""contract of numga.util.match on an array of symbolic parities: returns the common value p, raises if there is none"""
	if isinstance(args, Arr):
		if args.ndim == 1 and isinstance(args.dims[0], Ax) and args.elem[0] == 'V':
			a = args.fresh()
			p = fresh('p')
			v = a.elem[1]
			# recognise (1 - (-1)^q)/2
			ks = [k for k in v.d if k[0] != ZERO]
			if builtins.len(v.d) == 2 and builtins.len(ks) == 1 and v.d[ks[0]] == Fraction(-1, 2) and v.d.get((ZERO, TRUE, (), ())) == Fraction(1, 2) and ks[0][1:] == (TRUE, (), ()):
				ses.assume.append(('forall', a.dims[0].dom, a.dims[0].var, neg(par(padd(ks[0][0], atom('o', p))))))
				return Arr([], ('I', Int.atom('op', p)))
		raise Unsupported('match')
	return _real_match(args)
_real_match = numga.util.match

def symmetry_contract(self, axes):
	"""contract of Operator.symmetry (proved for any kernel): modulo exchanging the tied arguments, the value is kept"""
	axes = list(axes)
	for a in axes: same_set(self.axes[a], self.axes[axes[0]])
	P = list(itertools.permutations(axes))
	k = _moveaxis(self.kernel, axes, P[0])
	for p in P[1:]: k = k + _moveaxis(self.kernel, axes, p)
	return Operator(Arr(k.dims, ('V', as_val(k.elem).scale(Fraction(1, builtins.len(P))))), self.axes)

VALUES = ('numga.backend.', 'numga.multivector.multivector', 'numga.multivector.factory', 'numga.multivector.namespaces', 'numga.multivector.helper', 'numga.context')
@contextlib.contextmanager
def symbolic(values=False):
	"""numpy's array constructors, len, int and match of the numga.operator modules (with `values`: also of the backends and of the multivector
	type) understand symbolic sizes"""
	sh, bs, saved = Shim(), BackendShim(), []
	sh.values = values
	mods = [m for n, m in list(sys.modules.items()) if m is not None and (n.startswith('numga.operator') or n in ('numga.util', 'numga.algebra.bitops') or values and n.startswith(VALUES))]
	def put(o, name, val):
		saved.append((o, name, name in o.__dict__, o.__dict__.get(name)))
		setattr(o, name, val)
	for m in mods:
		for name, val, orig in (('np', sh, np), ('numpy', sh, np), ('len', shim_len, None), ('int', shim_int, None), ('match', shim_match, _real_match)):
			has = name in m.__dict__
			if orig is None and not has or has and m.__dict__[name] is orig: put(m, name, val)
		if values and m.__name__.startswith('numga.backend.'):
			for name, lib in (('jnp', 'jax.numpy'), ('torch', 'torch')):
				if name in m.__dict__ and m.__dict__[name] is sys.modules.get(lib): put(m, name, bs)
			for c in list(vars(m).values()):
				if isinstance(c, type) and c.__module__ == m.__name__ and hasattr(c.__dict__.get('__call__'), '__wrapped__'): put(c, '__call__', c.__dict__['__call__'].__wrapped__)
	try: yield
	finally:
		for m, name, has, val in reversed(saved):
			if has: setattr(m, name, val)
			else: delattr(m, name)


# ---------------------------------------------------------------- the algebra as its contracts
class NEG: pass
class ZEROS: pass
class SymFactory:
	def __init__(self, alg): self.alg, self.cache = alg, {}
	def _get(self, key, member, single=None):
		if key not in self.cache: self.cache[key] = SymSub(key, member, self.alg, single)
		return self.cache[key]
	def full(self): return self._get('full', lambda w: TRUE)
	multivector = full
	def pseudoscalar(self): return self._get('pseudoscalar', lambda w: ev(w ^ W(I)), W(I))
	def scalar(self): return self._get('scalar', ev, E)
	def empty(self): return self._get('empty', lambda w: FALSE)
	def k_vector(self, k):
		if k == 0: return self.scalar()
		if k == -1: return self.pseudoscalar()
		if k < 0: return self._get(('k_vector', k), lambda w: lin('==', {w: 1, W(I): -1}, -1 - k))
		return self._get(('k_vector', k), lambda w: Int({(('g', w),): 1, (): -k}).cmp('==') if w else FALSE)
	def vector(self): return self.k_vector(1)
	def bivector(self): return self.k_vector(2)
	def trivector(self): return self.k_vector(3)
	def antivector(self): return self.k_vector(-2)
	def even_grade(self): return self._get('even', lambda w: neg(par(G(w))))
	even = motor = rotor = even_grade
	def odd_grade(self): return self._get('odd', lambda w: par(G(w)))
	def degenerate(self): return self.full().degenerate()
	def nondegenerate(self): return self.full().nondegenerate()
	def from_grades(self, grades):
		gs = tuple(int(g) for g in grades)
		if builtins.len(gs) == 1: return self.k_vector(gs[0]) if gs[0] else self.scalar()
		return self._get(('grades', gs), lambda w: disj(*(self.k_vector(g).member(w) for g in gs)))
	def __getattr__(self, n): raise Unsupported(f'SubSpaceFactory.{n}')
class SymAlgebra:
	"""Algebra, replaced by the contracts proved in C01 (every signature, every number of generators up to 32)"""
	negatives, zeros, blade_dtype = NEG, ZEROS, np.dtype(np.uint32)
	__class__ = property(lambda self: Algebra)       # an Algebra for isinstance
	def __init__(self):
		self.subspace = SymFactory(self)
		self.operator = OperatorFactory(self)
	@property
	def n_dimensions(self): return Num(Int.atom('g', W(I)))
	@property
	def n_blades(self): return Len(POSITIONS)
	def __getattr__(self, n): raise Unsupported(f'Algebra.{n}')
	def cayley(self, a, b):
		return (a._bin(b, lambda x, y: ('W', x[1] ^ y[1])), a._bin(b, lambda x, y: ('I', Int.atom('sw', x[1], y[1]))))
	def product(self, a, b):
		a, b = a[:, None], b[None, :]
		return (a._bin(b, lambda x, y: ('W', x[1] ^ y[1])),
		        a._bin(b, lambda x, y: ('V', Val.term(1, padd(S(x[1], y[1]), N(x[1], y[1])), nul(x[1], y[1])))))
	def grade(self, a): return Arr(a.dims, ('I', Int.atom('g', a.elem[1]) if a.elem[1] else Int({})), np.uint8)
	def involute(self, a): return Arr(a.dims, ('V', Val.term(1, G(a.elem[1]))))
	def reverse(self, a): return Arr(a.dims, ('V', Val.term(1, Q(a.elem[1]))))
	def complement(self, a): return Arr(a.dims, ('W', a.elem[1] ^ W(I)))
	def bit_dot(self, a, b):
		if b is NEG: return Arr(a.dims, ('I', Int.atom('dn', a.elem[1], a.elem[1])))
		if b is ZEROS: return Arr(a.dims, ('I', Int.atom('dz', a.elem[1], a.elem[1])))
		raise Unsupported('bit_dot')


# ---------------------------------------------------------------- solver
class Enc:
	"""numbers of generators of each kind: for every subset of the variables and every metric sign, how many generators lie in exactly these
	blades; grades and counts are sums of them. Swap parities are free."""
	def __init__(self, gens):
		self.gens = sorted(set(gens) - {I})
		if builtins.len(self.gens) > 6: raise Unsupported('too many blade variables')
		self.c = {}
		self.axioms = []
		self.cache = {}
		for p in range(1 << builtins.len(self.gens)):
			for t in '+-0':
				v = z3.Int(f'c_{p}_{t}')
				self.c[p, t] = v
				self.axioms.append(v >= 0)
		self.sup_seen = {}
		self.words = set()
	def bit(self, w, p):
		b = 1 if I in w else 0
		for i, u in enumerate(self.gens):
			if u in w: b ^= p >> i & 1
		return b
	def count(self, pred, kinds='+-0'):
		return z3.Sum([v for (p, t), v in self.c.items() if t in kinds and pred(p)] or [z3.IntVal(0)])
	def parity(self, key, expr, bits=1):
		"""lowest bits of an integer as booleans"""
		if key not in self.cache:
			bs = [z3.Bool(f'bit{i}_{key}') for i in range(bits)]
			h = z3.Int(f'quot_{key}')
			self.axioms += [h >= 0, expr == h * (1 << bits) + z3.Sum([z3.If(b, 1 << i, 0) for i, b in enumerate(bs)])]
			self.cache[key] = bs
		return self.cache[key]
	def patom(self, a):
		k = a[0]
		if k == 'o': return z3.Bool(f'o_{a[1]}')
		ws = [W(u) for u in a[1:]]
		if k == 'S': return z3.Bool('S_' + '_'.join(a[1:]))
		if k == 'g': return self.grade_bits(ws[0])[0]
		if k == 'q': return self.grade_bits(ws[0])[1]
		if k == 'D': return self.parity('D_' + '_'.join(a[1:]), self.count(lambda p: self.bit(ws[0], p) and self.bit(ws[1], p)))[0]
		if k == 'N': return self.parity('N_' + '_'.join(a[1:]), self.count(lambda p: self.bit(ws[0], p) and self.bit(ws[1], p), '-'))[0]
		if k == 'n': return self.parity('n_' + a[1], self.count(lambda p: self.bit(ws[0], p), '-'))[0]
		raise Unsupported(k)
	def grade_bits(self, w):
		return self.parity('g_' + '_'.join(sorted(w)), self.count(lambda p: self.bit(w, p)), 2)
	def pz(self, p):
		r = z3.BoolVal(False)
		for mon in p:
			r = z3.Xor(r, z3.And([self.patom(a) for a in mon]) if mon else z3.BoolVal(True))
		return r
	def f(self, f):
		k = f[0]
		if k == 't': return z3.BoolVal(True)
		if k == 'f': return z3.BoolVal(False)
		if k == 'ev': return self.count(lambda p: self.bit(f[1], p)) == 0
		if k == 'nul':
			x, *r = f[1]; y = r[0] if r else x
			return self.count(lambda p: self.bit(x, p) and self.bit(y, p), '0') == 0
		if k == 'lin':
			e = z3.Sum([c * self.count(lambda p, w=w: self.bit(w, p)) for w, c in f[2]]) + f[3]
			return e == 0 if f[1] == '==' else e <= 0
		if k == 'par': return self.pz(f[1])
		if k == 'in': return z3.Bool(f'in_{f[1]!r}_' + '_'.join(sorted(f[2])))
		if k == 'sup':
			b = z3.Bool(f'sup_{f[1]}_' + '_'.join(sorted(f[2])))
			if (f[1], f[2]) not in self.sup_seen:
				self.sup_seen[f[1], f[2]] = True
				self.instances(SETS[f[1]], f[2], b)
			return b
		if k == 'and': return z3.And([self.f(x) for x in f[1]])
		if k == 'or': return z3.Or([self.f(x) for x in f[1]])
		if k == 'not': return z3.Not(self.f(f[1]))
		if k == 'ex':
			b = z3.Bool(f'ex_{f[2]!r}_' + show(sf(f[3], {f[1]: W("_")})))
			# instances of the body imply the existence
			if ('ex', f) not in self.sup_seen:
				self.sup_seen['ex', f] = True
				for u in self.gens:
					self.axioms.append(z3.Implies(z3.And(self.f(SETS[f[2]].member(W(u))), self.f(sf(f[3], {f[1]: W(u)}))), b))
			return b
		if k == 'op': return z3.Bool(f'op_{f[1]}')
		raise Unsupported(f'formula {k}')
	def instances(self, s, w, b):
		"""w in the support of a kernel follows from any non-zero element at w: instances over the variables in scope"""
		ins, o, val = s.definition
		self.axioms.append(z3.Implies(b, self.f(s.parent.member(w))))
		if builtins.len(ins) > 4: return
		names = [W(u) for u in self.gens] + sorted((x for x in self.words if builtins.len(x) > 1), key=sorted)
		for tup in itertools.permutations(names, builtins.len(ins)) if builtins.len(names) >= builtins.len(ins) else ():
			m = {a.var: u for a, u in zip(ins, tup)}
			m[o] = w
			v = val.subst(m)
			if any(bb for (_, _, _, bb) in v.d): continue
			if builtins.len(v.d) and not any(all(x[0] != 'ev' for x in conjuncts(k[1])) for k in v.d): continue   # another output blade
			dom = [self.f(a.dom.member(u)) for a, u in zip(ins, tup)]
			self.axioms.append(z3.Implies(z3.And(*dom, self.value(v) != 0), b))
	def value(self, v):
		ts = []
		for (p, f, a, bnd), c in v.d.items():
			if bnd: raise Unsupported('bound sums in the solver')
			t = z3.RealVal(str(c))
			if p != ZERO: t = t * z3.If(self.pz(p), z3.RealVal(-1), z3.RealVal(1))
			for x in a: t = t * self.factor(x)
			if f != TRUE: t = z3.If(self.f(f), t, z3.RealVal(0))
			ts.append(t)
		return z3.Sum(ts) if ts else z3.RealVal(0)
	def factor(self, x):
		k = z3.Real('K_' + x[0] + '_' + '__'.join('_'.join(sorted(w)) for w in x[1:]))
		if x not in self.sup_seen and x[0] in OPS:
			# the kernel of an operator is zero outside its axes
			self.sup_seen[x] = True
			for s, w in zip(OPS[x[0]], x[1:]): self.axioms.append(z3.Implies(k != 0, self.f(s.member(w))))
		return k

RLIMIT = 40_000_000
def solve(enc, fs):
	s = z3.SolverFor('QF_UFLIA') if False else z3.Solver()
	s.set('rlimit', RLIMIT)
	for f in fs: s.add(f)
	for f in enc.axioms: s.add(f)
	r = s.check()
	return r, (s.model() if r == z3.sat else None)

stats = Counter()
def valid(hyps, goal):
	if goal == TRUE: return True
	if goal == FALSE: return False
	hy = set().union(*[conjuncts(h) for h in hyps]) if hyps else set()
	if conjuncts(goal) <= hy: return True
	e = Enc(fvars(goal).union(*[fvars(h) for h in hyps]))
	try: r, _ = solve(e, [e.f(h) for h in hyps] + [z3.Not(e.f(goal))])
	except z3.Z3Exception: return False
	stats['z3'] += 1
	return r == z3.unsat

def inside(v):
	"""drop the terms that vanish because a factor is zero outside its axes"""
	d = {}
	for k, c in v.d.items():
		p, f, a, b = k
		if conj(f, *(s.member(w) for x in a if x[0] in OPS for s, w in zip(OPS[x[0]], x[1:]))) != FALSE: d[k] = c
	return Val(d)

def drop_known(v, hyps):
	hy = set().union(*[conjuncts(h) for h in hyps]) if hyps else set()
	d = {}
	for (p, f, a, b), c in v.d.items():
		k = (p, conj(*(x for x in conjuncts(f) if x not in hy)), a, b)
		d[k] = d.get(k, 0) + c
	return Val(d)

def nul_rows(nl):
	"""the condition of a conjunction of null conditions, as a function of a generic null generator"""
	gens = sorted(set().union(*[w for x in nl for w in x[1]]) - {I})
	def ok(gens):
		for p in range(1 << builtins.len(gens)):
			def bit(w): return (sum(p >> i & 1 for i, u in enumerate(gens) if u in w) + (I in w)) % 2
			yield p, not any(all(bit(w) for w in x[1]) for x in nl)
	return gens, ok
def nul_follows(goal, have):
	gl, hv = ([x for x in f if x[0] == 'nul'] for f in (goal, have))
	if not gl: return True
	gens = sorted(set().union(*[w for x in gl + hv for w in x[1]]) - {I})
	if builtins.len(gens) > 8: return False
	g, h = nul_rows(gl)[1](gens), nul_rows(hv)[1](gens)
	return all(y or not z for (_, y), (_, z) in zip(g, h))
def holds(x, have, names, depth=3):
	"""'w in support' follows: blades of the axes are at hand at which the defining kernel is not zero"""
	if x in have: return True
	if x[0] != 'sup' or depth == 0: return False
	ins, o, val = SETS[x[1]].definition
	if builtins.len(val.d) != 1: return False
	((_, f0, a0, b0), _), = val.d.items()
	if a0 or b0 or builtins.len(ins) > 3: return False
	def search(i, m):
		if i == builtins.len(ins):
			g = conjuncts(sf(f0, m))
			return FALSE not in g and {y for y in g if y[0] != 'nul'} <= have and nul_follows(g, have)
		used = [m[k.var] for k in ins[:i]]
		for w in names:
			if w in used and builtins.len(w) == 1: continue
			if not all(holds(y, have, names, depth - 1) for y in conjuncts(ins[i].dom.member(w))): continue
			if search(i + 1, {**m, ins[i].var: w}): return True
		return False
	return search(0, {o: x[2]})
def empties(v):
	"""grade(w) = 0 as w = 0"""
	def fix(x):
		if x[0] == 'lin' and x[1] == '==' and x[3] == 0 and (all(k > 0 for _, k in x[2]) or all(k < 0 for _, k in x[2])): return conj(*(ev(w) for w, _ in x[2]))
		return x
	d = {}
	for (p, f, a, b), c in v.d.items():
		k = (p, conj(*map(fix, conjuncts(f))), a, b)
		if k[1] != FALSE: d[k] = d.get(k, 0) + c
	return Val(d)
def reached(v, hyps):
	"""drop 'w in support' where the other conditions of the term already make the defining kernel non-zero at w"""
	hy = set().union(*[conjuncts(h) for h in hyps]) if hyps else set()
	d = {}
	for (p, f, a, b), c in v.d.items():
		cs = conjuncts(f)
		sup = sorted((x for x in cs if x[0] == 'sup'), key=show)
		out = [x for x in cs if x[0] == 'not' and any(y[0] == 'sup' for y in conjuncts(x[1]))]
		if sup or out:
			known = set().union(*[conjuncts(s.member(w)) for x in a for s, w in zip(OPS.get(x[0], ()), x[1:])])
			names = [W(u) for u in sorted(set().union(*[fvars(y) for y in hy | cs]) - {I} - set(b))]
			ws = sorted({w for x in a for w in x[1:]}, key=sorted)
			names = list(dict.fromkeys(names + ws + [x ^ y for x in ws for y in ws if x != y]))
			for x in sup:
				if holds(x, hy | known | (cs - {x}), names): cs = cs - {x}
			if any(all(holds(y, hy | known | cs, names) for y in conjuncts(x[1])) for x in out): continue
		k = (p, conj(*cs), a, b)
		d[k] = d.get(k, 0) + c
	v = Val(d)
	# the same for supports of sums: [w in support] * (sum, up to sign) is the sum
	for x in {x for t in v.d for x in conjuncts(t[1]) if x[0] == 'sup'}:
		ins, o, val = SETS[x[1]].definition
		if not any(t[3] for t in val.d) or builtins.len(ins) > 4: continue
		part = Val({t: c for t, c in v.d.items() if x in conjuncts(t[1])})
		v1 = canon_bound(Val({(p, conj(*(conjuncts(f) - {x})), a, b): c for (p, f, a, b), c in part.d.items()}))
		names = sorted({u for t in part.d for y in t[2] for w in y[1:] for u in w} - {I} - {u for t in part.d for u in t[3]})
		for tup in itertools.permutations(names, builtins.len(ins)):
			m = {i.var: W(u) for i, u in zip(ins, tup)}; m[o] = x[2]
			dv = canon_bound(val.subst(m))
			if proportional(v1, dv):
				v = (v - part) + v1
				break
	return v

def proportional(v, w):
	"""v = sign * condition * w with a sign and a condition that do not depend on the summation variables"""
	if builtins.len(v.d) != builtins.len(w.d) or not v.d: return False
	k0 = min(v.d, key=repr)
	for k in w.d:
		q, c = padd(k0[0], k[0]), v.d[k0] / w.d[k]
		f = conj(*(conjuncts(k0[1]) - conjuncts(k[1])))
		if (pvars(q) | fvars(f)) & {u for t in v.d for u in t[3]}: continue
		if canon_bound((w * Val.term(1, q)).scale(c).where(f)).d == v.d: return True
	return False

def nul_table(f):
	"""canonical form of a conjunction: its null conditions as one condition on a generic null generator"""
	cs = conjuncts(f)
	nl = [x for x in cs if x[0] == 'nul']
	if not nl: return f
	gens = sorted(set().union(*[w for x in nl for w in x[1]]) - {I})
	rows = []
	for p in range(1 << builtins.len(gens)):
		def bit(w): return (sum(p >> i & 1 for i, u in enumerate(gens) if u in w) + (I in w)) % 2
		rows.append(not any(all(bit(w) for w in x[1]) for x in nl))
	return conj(*(x for x in cs if x[0] != 'nul'), ('nultable', tuple(gens), tuple(rows)))

def eliminate(v, order):
	"""solve the word equations of every term for the first variable of `order` they contain; returns {pivots: Val}"""
	groups = {}
	for (p, f, a, b), c in v.d.items():
		cs = conjuncts(f)
		eqs = [x[1] for x in cs if x[0] == 'ev']
		rows = []
		for w in eqs:
			for piv, r in rows:
				if piv in w: w = w ^ r
			if not w: continue
			piv = next((u for u in order if u in w), None)
			if piv is None: piv = sorted(w - {I})[0] if w - {I} else None
			if piv is None: rows.append((None, w)); continue
			rows = [(q, (r ^ w) if piv in r else r) for q, r in rows] + [(piv, w)]
		m = {piv: w ^ W(piv) for piv, w in rows if piv}
		extra = [ev(w) for piv, w in rows if not piv]
		key = frozenset(rows)
		t = Val({(spar(p, m), conj(*(sf(x, m) for x in cs if x[0] != 'ev'), *extra), sfac(a, m), b): c}) if conj(*(sf(x, m) for x in cs if x[0] != 'ev'), *extra) != FALSE else Val()
		groups[key] = (groups[key][0] + t, m) if key in groups else (t, m)
	return groups

def implied(f, a):
	"""drop the memberships that a non-vanishing factor implies"""
	if not a: return f
	known = set()
	for x in a:
		for s, w in zip(OPS.get(x[0], ()), x[1:]): known |= conjuncts(s.member(w))
	return conj(*(x for x in conjuncts(f) if x not in known))
def changes(a, b):
	"""changes of the summation variables b to ~0, ~1, ... (a sum over all blades is invariant under every bijection): affine ones that turn
	words of the factors a into single variables, otherwise translations and renamings"""
	ws = list(dict.fromkeys(w for x in a for w in x[1:] if w & set(b)))
	done = False
	for tup in itertools.permutations(ws, builtins.len(b)):
		rows = []      # solve word_i = ~i for the variables of b
		for i, w in enumerate(tup):
			r = w ^ W(f'~{i}')
			for z, q in rows:
				if z in r: r = r ^ q
			z = next((z for z in b if z in r), None)
			if z is None: break
			rows = [(y, q ^ r if z in q else q) for y, q in rows] + [(z, r)]
		else:
			done = True
			yield {z: r ^ W(z) for z, r in rows}
	if done: return
	shifts = []
	for z in b: shifts.append([w ^ W(z) for w in ws if z in w and not (w ^ W(z)) & set(b)] or [E])
	for sh in itertools.product(*shifts):
		for perm in itertools.permutations(range(builtins.len(b))):
			new = {z: W(f'~{i}') for z, i in zip(b, perm)}
			yield {z: W(f'~{i}') ^ sw(w, new) for (z, i), w in zip(zip(b, perm), sh)}
def canon_bound(v):
	"""canonical names of the summation variables, and a canonical translation of each (a sum over all blades is invariant under xor)"""
	d = {}
	for (p, f, a, b), c in v.d.items():
		f = implied(f, a)
		if not b:
			k = (p, f, a, b)
			d[k] = d.get(k, 0) + c
			continue
		best = None
		for m in changes(a, b):
			k = (spar(p, m), sf(f, m), sfac(a, m))
			r = repr(([(x[0],) + tuple(sorted(w) for w in x[1:]) for x in k[2]], sorted(map(repr_mon, k[0])), show_key(nul_table(k[1]))))
			if best is None or r < best[0]: best = (r, k)
		k = best[1] + (tuple(f'~{i}' for i in range(builtins.len(b))),)
		d[k] = d.get(k, 0) + c
	return Val(d)
def repr_mon(m): return repr(sorted(m))
def show_key(f): return show(f)

class Refuted(Exception):
	"""an obligation has a countermodel: attributes counts, gens"""
	def __init__(self, msg, witness=None): super().__init__(msg); self.witness = witness

def permute_equal(v, bound):
	"""the mean of a sum over all exchanges of equal factors that a change of the summation variables realises"""
	d = {}
	for (p, f, a, b), c in v.d.items():
		home = {z: i for z in bound for i, x in enumerate(a) if W(z) in x[1:] and builtins.len(x) == 2}
		ms = []
		if builtins.len(home) == builtins.len(bound) and builtins.len({x[0] for x in a}) < builtins.len(a) <= 5:
			for perm in itertools.permutations(range(builtins.len(a))):
				if any(a[i][0] != a[j][0] for i, j in enumerate(perm)): continue
				m = {z: a[perm[i]][1] for z, i in home.items()}
				if all((x[0],) + tuple(sw(w, m) for w in x[1:]) == a[j] for x, j in zip(a, perm)): ms.append(m)
		for m in ms or [{}]:
			k = (spar(p, m), sf(f, m), sfac(a, m), b)
			if k[1] != FALSE: d[k] = d.get(k, 0) + c / Fraction(builtins.len(ms) or 1)
	return Val({k: c for k, c in d.items() if c})
def check_zero(v, hyps, order, assume=()):
	"""prove v = 0 for all values of its variables under the hypotheses; returns the back end; raises Refuted / Unsupported"""
	backend = 'normal form'
	hyps = [h for h in hyps if h != TRUE]
	for key, (g, m) in eliminate(v, order).items():
		hy = [sf(h, m) for h in hyps if h[0] != 'forall']
		extra = [sf(h, m) for h in assume if h[0] != 'forall']
		g = drop_known(reached(canon_bound(g), hy + extra), hy + extra)
		d = {}
		for (p, f, a, b), c in g.d.items():
			k = (p, nul_table(f), a, b)
			d[k] = (d.get(k, (0, None))[0] + c, f)
		g = Val({(p, f0, a, b): c for (p, _, a, b), (c, f0) in d.items() if c})
		if not g.d: continue
		backend = 'z3'
		bound = {}
		for t, c in g.d.items(): bound.setdefault(t[3], Val()).d.update({t[:3] + ((),): c})
		for b, gg in bound.items():
			if b: gg = permute_equal(gg, b)
			vs = gg.vars() | set().union(*[fvars(h) for h in hy + extra])
			fa = []
			for h in assume:
				if h[0] == 'forall':
					for u in sorted({W(u) for u in vs - {I}} | {w for t in gg.d for x in t[2] for w in x[1:]}, key=sorted): fa.append(disj(neg(h[1].member(u)), sf(h[3], {h[2]: u})))
			groups = {}      # the coefficient of every product of abstract factors
			for (p, f, a, _), c in gg.d.items(): groups.setdefault(a, Val()).d[p, f, (), ()] = c
			def attempt(gv, fac):
				e = Enc(vs)
				e.words = {w for t in gg.d for x in t[2] for w in x[1:]}
				val = e.value(gv)
				fs = [e.f(h) for h in hy + extra + fa] + [val != 0]
				fs += [e.f(s.member(w)) for x in fac for s, w in zip(OPS.get(x[0], ()), x[1:])]
				r, mod = solve(e, fs)
				stats['z3'] += 1
				return r, mod, e
			r = z3.unsat
			for a, gv in groups.items():
				r, mod, e = attempt(gv, a)
				if r != z3.unsat: break
			if r != z3.unsat and builtins.len(groups) > 1: r, mod, e = attempt(gg, ())
			if r == z3.unsat: continue
			if r == z3.unknown: raise Unsupported('solver gave no answer')
			raise Refuted(f'kernels differ: {gg!r}'[:400], witness(e, mod, m))
	return backend

def witness(e, mod, m):
	"""numbers of generators of a countermodel -> description from which concrete blades are drawn"""
	# prefer small models: the caller draws orders of the generators at random
	counts = {}
	for (p, t), v in e.c.items():
		x = mod.eval(v, model_completion=True).as_long()
		if x: counts[p, t] = x
	return dict(gens=e.gens, counts=counts, solved={k: sorted(w) for k, w in m.items()})

def concretise(w, r, limit=14):
	"""random concrete algebra and blades with the counts of a countermodel: (signature, {variable: blade}) or None"""
	items = [(p, t) for (p, t), k in w['counts'].items() for _ in range(k)]
	if builtins.len(items) > limit or not items: return None
	r.shuffle(items)
	sig = [{'+': 1, '-': -1, '0': 0}[t] for _, t in items]
	env_ = {u: sum(1 << j for j, (p, _) in enumerate(items) if p >> i & 1) for i, u in enumerate(w['gens'])}
	full = (1 << builtins.len(items)) - 1
	for k, ws in w['solved'].items():
		x = 0
		for u in ws: x ^= full if u == I else env_.get(u, 0)
		env_[k] = x
	return sig, env_

def divisible(v, k, hyps):
	for key, (g, m) in eliminate(v, []).items():
		g = drop_known(g, [sf(h, m) for h in hyps])
		if any(t[3] for t in g.d): return False
		if all(c.denominator == 1 and c % k == 0 for c in g.d.values()): continue
		if any(t[2] for t in g.d): return False
		e = Enc(g.vars())
		val = e.value(g)
		lo = sum(abs(c) for c in g.d.values())
		vals = [val == z3.RealVal(str(j)) for j in range(-int(lo) - 1, int(lo) + 2) if j % k == 0]
		r, _ = solve(e, [e.f(sf(h, m)) for h in hyps] + [z3.Not(z3.Or(vals))])
		stats['z3'] += 1
		if r != z3.unsat: return False
	return True

def same_zeros(v1, v2, hyps, o):
	"""v1 = 0 exactly where v2 = 0"""
	if v1.d == v2.d: return True
	g1_, g2_ = eliminate(v1, [o]), eliminate(v2, [o])
	if set(g1_) != set(g2_): return False
	for k in g1_:
		(a, m), (b, _) = g1_[k], g2_[k]
		a, b = drop_known(a, [sf(h, m) for h in hyps]), drop_known(b, [sf(h, m) for h in hyps])
		bound = {t[3] for t in a.d} | {t[3] for t in b.d}
		if builtins.len(bound) > 1: return False
		if a.d == b.d: continue
		try:
			if bound != {()}:      # the summands agree up to a sign that does not depend on the summation variables
				bv = set(*bound)
				a, b = (Val({t[:3] + ((),): c for t, c in x.d.items()}) for x in (a, b))
				k0 = min(a.d, key=repr, default=None)
				for q in sorted({padd(k0[0], k[0]) for k in b.d} | {ZERO}, key=lambda q: sorted(map(repr_mon, q))) if k0 else [ZERO]:
					if pvars(q) & bv: continue
					e = Enc(a.vars() | b.vars())
					r, _ = solve(e, [e.f(sf(h, m)) for h in hyps] + [e.value(a) != e.value(b * Val.term(1, q))])
					if r == z3.unsat: break
				else: return False
			else:
				e = Enc(a.vars() | b.vars())
				r, _ = solve(e, [e.f(sf(h, m)) for h in hyps] + [(e.value(a) != 0) != (e.value(b) != 0)])
		except (Unsupported, z3.Z3Exception): return False
		stats['z3'] += 1
		if r != z3.unsat: return False
	return True


# ---------------------------------------------------------------- abstract arguments
def new_set(alg, name): return SymSub(name, None, alg)
def abstract(name, *axes):
	"""an arbitrary operator with the given axes: an uninterpreted kernel, zero outside its axes"""
	vs = [fresh('b') for _ in axes]
	OPS[name] = OPS['1/' + name] = axes
	single = [getattr(s, 'single', None) for s in axes]
	return Operator(Arr([Ax(s, v, True) if x is None else None for s, v, x in zip(axes, vs, single)],
	                    ('V', Val.term(factors=((name,) + tuple(W(v) if x is None else x for v, x in zip(vs, single)),)))), tuple(axes))

def kernel_at(op, names):
	"""the value of a kernel at named variables, and the membership hypotheses of its axes"""
	k = op.kernel
	if not isinstance(k, Arr): raise Unsupported('kernel is not symbolic')
	if builtins.len(k.dims) != builtins.len(names): raise Refuted('arity')
	for d, a in zip(k.dims, op.axes):
		if isinstance(d, Ax): same_set(d.dom, a)
	k = k.fresh()
	m = {d.var: W(n) for d, n in zip(k.dims, names) if isinstance(d, Ax)}
	v = as_val(k.elem).subst(m)
	for d, n, a in zip(k.dims, names, op.axes):
		if d is None: v = v.where(a.member(W(n)))      # size-one axis: the only blade
	hy = [a.member(W(n)) for a, n in zip(op.axes, names)]
	return v, hy
