"""Engine S: engine P with finite blade sets as values (the code of SubSpace, SubSpaceFactory and their namespaces).

A blade is an element of an uninterpreted sort; only the facts below are known about it, each of which is proved once on
32-bit words by z3 (lemmas()). A SubSpace value is the set of its blades: that equal sets are one object, and that the
blades attribute lists that set, is the contract of from_blades / factory_construct, proved separately in C03 (canon()).
The dimension and the signature are symbolic, so a discharged obligation holds for every algebra, set and index."""
import ast, functools, inspect
import z3
from dv import pvc
from dv.pvc import *

B = z3.DeclareSort('Blade')
SET = z3.ArraySort(B, z3.BoolSort())
xor = z3.Function('xor', B, B, B)
nz = z3.Function('nonzero', B, B, z3.BoolSort())        # the product of two blades is not zero
gr = z3.Function('grade', B, z3.IntSort())
zc = z3.Function('null_generators', B, z3.IntSort())
one, I = z3.Consts('one I', B)
N = z3.Int('dimensions')
a, b, c = z3.Consts('a b c', B)
AX = [
	z3.ForAll([a, b], xor(a, b) == xor(b, a), patterns=[xor(a, b)]),
	z3.ForAll([a, b], xor(xor(a, b), b) == a, patterns=[xor(xor(a, b), b)]),
	z3.ForAll([a, b, c], z3.Implies(xor(a, c) == xor(b, c), a == b), patterns=[z3.MultiPattern(xor(a, c), xor(b, c))]),
	z3.ForAll([a], xor(a, one) == a, patterns=[xor(a, one)]),
	z3.ForAll([a], xor(a, a) == one, patterns=[xor(a, a)]),
	z3.ForAll([a, b, c], z3.Implies(z3.And(nz(a, b), nz(xor(a, b), c)), z3.And(nz(b, c), nz(a, xor(b, c)), xor(xor(a, b), c) == xor(a, xor(b, c)))), patterns=[nz(xor(a, b), c)]),
	z3.ForAll([a], z3.And(nz(one, a), nz(a, one)), patterns=[nz(one, a)]),
	z3.ForAll([a], z3.And(0 <= gr(a), gr(a) <= N, (gr(a) == 0) == (a == one), (gr(a) == N) == (a == I)), patterns=[gr(a)]),
	z3.ForAll([a], zc(a) >= 0, patterns=[zc(a)]),
	gr(one) == 0, gr(I) == N, zc(one) == 0, N >= 1,
]


def lemmas(led, contract):
	"""the axioms, on 32-bit words: for every n <= 32, blade = word below 2^n, every set of null generators"""
	W = lambda *n: [z3.BitVec(x, 32) for x in n]
	x, y, w, m, z = W('x', 'y', 'w', 'mask', 'zeros')
	i = z3.BitVec('n', 32)
	def pop(v): return sum((z3.ZeroExt(26, z3.Extract(k, k, v)) for k in range(32)), z3.BitVecVal(0, 27))
	def nzw(p, q): return p & q & z == 0
	# the blades of n generators are the words inside the mask 2^n - 1; zeros is inside the mask
	dom = [z & ~m == 0, x & ~m == 0, y & ~m == 0, w & ~m == 0]
	goals = dict(
		cancellation=z3.Implies(x ^ w == y ^ w, x == y),
		commutative=x ^ y == y ^ x, involution=(x ^ y) ^ y == x, unit=x ^ 0 == x, square=x ^ x == 0, closed=(x ^ y) & ~m == 0,
		associative=z3.Implies(z3.And(nzw(x, y), nzw(x ^ y, w)), z3.And(nzw(y, w), nzw(x, y ^ w), (x ^ y) ^ w == x ^ (y ^ w))),
		unit_product=z3.And(nzw(z3.BitVecVal(0, 32), x), nzw(x, z3.BitVecVal(0, 32))),
		null=(pop(x & z) == 0) == (x & z == 0),
		grade_zero=(pop(x) == 0) == (x == 0))
	for nm, g in goals.items():
		s = z3.Solver(); s.set('rlimit', 20000000)
		s.add(*dom, z3.Not(g))
		r = s.check()
		if r == z3.unsat: led.ok(contract, 'z3')
		else: led.open[contract, f'blade lemma {nm}: {r}'] += 1
	for n in range(1, 33):       # grade == n only for the pseudoscalar, for each n
		s = z3.Solver(); s.set('rlimit', 20000000)
		M = (1 << n) - 1
		s.add(x & z3.BitVecVal(~M & 0xffffffff, 32) == 0, z3.Not(z3.And(z3.ULE(pop(x), n), (pop(x) == n) == (x == M))))
		r = s.check()
		if r == z3.unsat: led.ok(contract, 'z3')
		else: led.open[contract, f'blade lemma grade, n = {n}: {r}'] += 1


# ---------------------------------------------------------------- values
def q(f, *names):
	xs = [z3.Const(f'{n}!{next(pvc._n)}', B) for n in names]
	return z3.ForAll(xs, f(*xs))

def ex(f, *names):
	xs = [z3.Const(f'{n}!{next(pvc._n)}', B) for n in names]
	return z3.Exists(xs, f(*xs))

def subset(s, t): return q(lambda x: z3.Implies(s[x], t[x]), 'x')
def same(s, t): return q(lambda x: s[x] == t[x], 'x')


class Vec(Sem):
	"""one-dimensional array: one element f(x) for every index x of the set dom (a predicate on a z3 sort)"""
	def __init__(self, dom, f, sort=B, ident=False, tag=None, kind=None):
		self.dom, self.f, self.sort, self.ident, self.tag = dom, f, sort, ident, tag or object()
		self.kind = kind
	def map(self, g):
		return Vec(self.dom, lambda x: g(self.f(x)), self.sort, False, self.tag)
	def elem(self):
		return self.f(z3.Const('probe', self.sort))
	def lift(self, op, a, b):
		"""elementwise operation of a (self or a number) and b"""
		def val(v):
			if isinstance(v, Vec):
				if v.tag is self.tag: return v.f
				if v.kind is not None and v.kind[0] == 'single': return lambda x: v.kind[1]
				raise Unsupported('arrays of different subspaces')
			if isinstance(v, bool): return lambda x: z3.BoolVal(v)
			if isinstance(v, int): return lambda x: z3.IntVal(v)
			if isinstance(v, Int): return lambda x: v.t
			raise Unsupported(f'array arithmetic with {type(v).__name__}')
		f, g = val(a), val(b)
		return Vec(self.dom, lambda x: op(f(x), g(x)), self.sort, False, self.tag)
	OPS = {ast.Add: lambda x, y: x + y, ast.Sub: lambda x, y: x - y, ast.Mult: lambda x, y: x * y, ast.FloorDiv: lambda x, y: x / y, ast.Mod: lambda x, y: x % y,
	       ast.BitAnd: z3.And, ast.BitOr: z3.Or, ast.BitXor: z3.Xor}
	def bin(self, m, s, op, a, b):
		if any(isinstance(v, Vec) and v.elem().sort() == B for v in (a, b)):
			yield s, JUNK; return          # arithmetic on blade words is not followed
		if op not in self.OPS: raise Unsupported('array operator')
		if op in (ast.FloorDiv, ast.Mod) and not (isinstance(b, int) and b > 0): raise Unsupported('array division')
		for v in (a, b):
			if isinstance(v, Vec) and (v.elem().sort() == B or (v.elem().sort() == z3.BoolSort()) != (op in (ast.BitAnd, ast.BitOr, ast.BitXor))): raise Unsupported('array operator on these elements')
		yield s, self.lift(self.OPS[op], a, b)
	CMP = {ast.Eq: lambda x, y: x == y, ast.NotEq: lambda x, y: x != y, ast.Lt: lambda x, y: x < y, ast.LtE: lambda x, y: x <= y, ast.Gt: lambda x, y: x > y, ast.GtE: lambda x, y: x >= y}
	def compare(self, m, s, op, a, b):
		if op not in self.CMP: raise Unsupported('array comparison')
		for v in (a, b):
			if isinstance(v, Vec) and v.elem().sort() != z3.IntSort(): raise Unsupported('array comparison')
		yield s, self.lift(self.CMP[op], a, b)
	def unary(self, m, s, op):
		if op is ast.Invert and self.elem().sort() == z3.BoolSort(): yield s, self.map(z3.Not)
		else: raise Unsupported('array operator')
	def item(self, m, s, k):
		if isinstance(k, Vec) and k.tag is self.tag and k.elem().sort() == z3.BoolSort():
			yield s, Vec(lambda x: z3.And(self.dom(x), k.f(x)), self.f, self.sort, self.ident)
		elif isinstance(k, slice) and self.kind == 'range' and self.ident:
			lo, hi, st = k.start, k.stop, k.step
			if not (lo is None or isinstance(lo, int) and lo >= 0) or hi is not None or not (st is None or isinstance(st, int) and st > 0): raise Unsupported('slice')
			lo, st = lo or 0, st or 1
			yield s, Vec(lambda x: z3.And(self.dom(x), x >= lo, (x - lo) % st == 0), self.f, self.sort, True)
		elif isinstance(k, Pick):
			yield s, Vec(k.dom(self), self.f, self.sort, self.ident)
		elif isinstance(k, Perm) and k.tag is self.tag:
			yield s, Sorted(self, k.keys)
		else: raise Unsupported('array subscript')
	def attr(self, m, s, a):
		if a in ('copy', 'tolist', 'flatten', 'ravel'): yield s, Nat(lambda m, s, args, kw: iter([(s, self)]))
		elif a in ('any', 'all') and self.elem().sort() == z3.BoolSort():
			def red(m, s, args, kw):
				x = z3.Const(f'r!{next(pvc._n)}', self.sort)
				yield s, Bool(z3.Exists([x], z3.And(self.dom(x), self.f(x))) if a == 'any' else z3.ForAll([x], z3.Implies(self.dom(x), self.f(x))))
			yield s, Nat(red)
		elif a == 'astype': yield s, Nat(lambda m, s, args, kw: iter([(s, self)]))     # blades and grades fit every type used for them
		else: raise Unsupported(f'array attribute {a}')
	def members(self):
		if self.ident: return self.dom
		if self.kind is not None and self.kind[0] == 'single': return lambda y: y == self.kind[1]
		x = z3.Const(f'p!{next(pvc._n)}', self.sort)
		return lambda y: z3.Exists([x], z3.And(self.dom(x), y == self.f(x)))
	def each(self):
		x = z3.Const(f'each!{next(pvc._n)}', self.sort)
		f = self.f(x)
		v = Op(f) if f.sort() == B else Int(f) if f.sort() == z3.IntSort() else Bool(f)
		def build(x, c, e):
			if not isinstance(e, (Op, Int, Bool)): raise Unsupported('comprehension')
			sub = lambda t: (lambda y: z3.substitute(t, (x, y)))
			return Vec(lambda y: z3.And(self.dom(y), sub(c)(y)), sub(e.t), self.sort, self.ident and z3.eq(e.t, f))
		return x, v, self.dom(x), build
	def contains(self, m, s, x):
		f = self.elem()
		if not isinstance(x, (Op, Int)) or x.t.sort() != f.sort(): raise Unsupported('in an array')
		yield s, Bool(self.members()(x.t))
	def distinct(self):
		if self.ident or self.kind is not None and self.kind[0] == 'single': return z3.BoolVal(True)
		x, y = z3.Const('dx', self.sort), z3.Const('dy', self.sort)
		return z3.ForAll([x, y], z3.Implies(z3.And(self.dom(x), self.dom(y), self.f(x) == self.f(y)), x == y))


class Pick(Sem):
	"""an index array of distinct positions: selects some elements"""
	def __init__(self, pred): self.pred = pred
	def dom(self, v): return lambda x: z3.And(v.dom(x), self.pred(v.f(x)))

class Perm(Sem):
	def __init__(self, tag, keys): self.tag, self.keys = tag, keys

class Sorted(Sem):
	"""the array, reordered ascending by keys (most significant first)"""
	def __init__(self, vec, keys): self.vec, self.keys = vec, keys
	def attr(self, m, s, a):
		if a not in ('copy', 'astype'): raise Unsupported(f'{a} of a sorted array')
		yield s, Nat(lambda m, s, args, kw: iter([(s, self)]))
	def item(self, m, s, k):
		# a stable permutation computed from this very array: sorts further, ties keep the order
		if not isinstance(k, Perm) or k.tag is not self: raise Unsupported('subscript of a sorted array')
		yield s, Sorted(self.vec, k.keys + self.keys)

class OfSorted(Sem):
	"""elementwise function of a sorted array"""
	def __init__(self, of, f): self.of, self.f = of, f


class SetV(Sem):
	"""Python set (of blades)"""
	def __init__(self, pred): self.pred = pred
	def op(self, name, o):
		if not isinstance(o, (SetV, Vec)): raise Unsupported('set operation')
		p, q_ = self.pred, o.pred if isinstance(o, SetV) else o.members()
		return {'union': lambda: SetV(lambda x: z3.Or(p(x), q_(x))), 'intersection': lambda: SetV(lambda x: z3.And(p(x), q_(x))),
		        'difference': lambda: SetV(lambda x: z3.And(p(x), z3.Not(q_(x)))), 'symmetric_difference': lambda: SetV(lambda x: z3.Xor(p(x), q_(x))),
		        'issubset': lambda: Bool(q(lambda x: z3.Implies(p(x), q_(x)), 'x')), 'issuperset': lambda: Bool(q(lambda x: z3.Implies(q_(x), p(x)), 'x')),
		        'isdisjoint': lambda: Bool(q(lambda x: z3.Not(z3.And(p(x), q_(x))), 'x'))}[name]()
	def attr(self, m, s, a):
		if a not in ('union', 'intersection', 'difference', 'symmetric_difference', 'issubset', 'issuperset', 'isdisjoint'): raise Unsupported(f'set.{a}')
		def f(m, s, args, kw):
			if len(args) != 1: raise Unsupported('set method arguments')
			yield s, self.op(a, args[0])
		yield s, Nat(f)
	def bin(self, m, s, op, a, b):
		nm = {ast.BitOr: 'union', ast.BitAnd: 'intersection', ast.Sub: 'difference', ast.BitXor: 'symmetric_difference'}.get(op)
		if nm is None or not (isinstance(a, SetV) and isinstance(b, SetV)): raise Unsupported('set operator')
		yield s, a.op(nm, b)
	def compare(self, m, s, op, a, b):
		if not (isinstance(a, SetV) and isinstance(b, SetV)): raise Unsupported('set comparison')
		if op is ast.LtE: yield s, a.op('issubset', b)
		elif op is ast.GtE: yield s, a.op('issuperset', b)
		elif op in (ast.Eq, ast.NotEq):
			t = q(lambda x: a.pred(x) == b.pred(x), 'x')
			yield s, Bool(t if op is ast.Eq else z3.Not(t))
		else: raise Unsupported('set comparison')
	def truth(self, m, s):
		yield from m.truth(s, Bool(ex(lambda x: self.pred(x), 'x')))
	def each(self): return Vec(self.pred, lambda y: y, B, True).each()
	def contains(self, m, s, x):
		if not isinstance(x, Op) or x.t.sort() != B: raise Unsupported('in a set')
		yield s, Bool(self.pred(x.t))


class SubV(Sem):
	"""a SubSpace: identified by its set of blades"""
	def __init__(self, t): self.t = t
	def key(self): return self.t
	def truth(self, m, s): yield from m.truth(s, Bool(ex(lambda x: self.t[x], 'x')))      # __len__
	def compare(self, m, s, op, a, b):
		if op not in (ast.Eq, ast.NotEq, ast.Is, ast.IsNot): raise Unsupported('subspace comparison')
		if isinstance(a, SubV) and isinstance(b, SubV): t = a.t == b.t
		elif a is None or b is None: t = z3.BoolVal(False)
		else: raise Unsupported('subspace comparison')
		yield s, Bool(t if op in (ast.Eq, ast.Is) else z3.Not(t))
	def contains(self, m, s, x):
		if not isinstance(x, SubV): raise Unsupported('in a subspace')
		yield from m.world.method(m, s, self, '__contains__', [x])
	def attr(self, m, s, a):
		yield from m.world.sub_attr(m, s, self, a)


class Junk(Sem):
	"""a value whose computation is not followed: nothing that depends on it can be proved"""
	def attr(self, m, s, a): yield s, self
	def item(self, m, s, k): yield s, self
	def call(self, m, s, args, kw): yield s, self
	def bin(self, m, s, op, a, b): yield s, self
	def unary(self, m, s, op): yield s, self
	def compare(self, m, s, op, a, b): yield s, self
JUNK = Junk()


class NS(Sem):
	"""object described by a table: attribute -> value | Nat, or function"""
	def __init__(self, table, name='', call=None, default=None): self.table, self.name, self.c, self.default = table, name, call, default
	def attr(self, m, s, a):
		if a in self.table: yield s, self.table[a]
		elif self.default: yield from self.default(m, s, a)
		else: raise Unsupported(f'{self.name}.{a}')
	def call(self, m, s, args, kw):
		if not self.c: raise Unsupported(f'call of {self.name}')
		yield from self.c(m, s, args, kw)


def nat(f):
	"""pure function of its arguments"""
	return Nat(lambda m, s, args, kw: iter([(s, f(*args, **kw))]))


class World:
	"""the classes under contract. `contracts`: method name -> predicate transformer used for calls from other methods"""
	def __init__(self):
		from numga.subspace.subspace import SubSpace
		from numga.subspace.factory import SubSpaceFactory
		from numga.operator.factory import OperatorFactory
		self.cls, self.fac, self.ops = SubSpace, SubSpaceFactory, OperatorFactory
		self.opfun = {}
		self.inlined = set()
		def zeros_dot(x, y):
			v, z = (x, y) if isinstance(x, Vec) else (y, x)
			if z is not ZEROS or not isinstance(v, Vec) or v.elem().sort() != B: raise Unsupported('bit_dot')
			return v.map(zc)
		def grade(v):
			if isinstance(v, Sorted) and v.vec.elem().sort() == B: return OfSorted(v, lambda x: gr(v.vec.f(x)))
			if not isinstance(v, Vec) or v.elem().sort() != B: raise Unsupported('grade')
			return v.map(gr)
		self.factory = NS({'algebra': None, 'order': 'fancy', 'grades': None, 'blades_by_grade': ByGrade(), 'from_blades': Nat(self.from_blades)}, 'subspace factory', default=self.fac_attr)
		self.operator = NS({}, 'operator factory', default=self.op_attr)
		# one array object: masks computed from it may index it
		self.factory.table['grades'] = Vec(lambda g: z3.And(0 <= g, g <= N), lambda g: g, z3.IntSort(), True, kind='range')
		self.algebra = NS({'subspace': self.factory, 'operator': self.operator, 'zeros': ZEROS, 'n_dimensions': Int(N), 'bit_dot': nat(zeros_dot), 'grade': nat(grade), 'blade_dtype': NS({}, 'dtype')}, 'algebra')
		self.factory.table['algebra'] = self.algebra
		def bxor(x, y):
			if not (isinstance(x, Vec) and isinstance(y, Vec)) or x.elem().sort() != B: raise Unsupported('bitwise_xor')
			if x.kind is not None and x.kind[0] == 'single': x, y = y, x
			return x.lift(xor, x, y)
		def band(x, y):
			v, z = (x, y) if isinstance(x, Vec) else (y, x)
			if z is ZEROS and isinstance(v, Vec) and v.elem().sort() == B: return JUNK
			return JUNK
		def concat(x):
			if isinstance(x, Groups): return Vec(lambda y: x.pred(gr(y)), lambda y: y, B, True)
			raise Unsupported('concatenate')
		def array(x, dtype=None):
			if isinstance(x, (Vec, Sorted)): return x
			if isinstance(x, SetV): raise Unsupported('array of a set')
			raise Unsupported('array')
		self.np = NS({'bitwise_xor': nat(bxor), 'concatenate': nat(concat), 'array': nat(array), 'asarray': nat(array), 'any': nat(lambda v: v), 'all': nat(lambda v: v)}, 'numpy')
		self.np.default = lambda m, s, a: iter([(s, JUNK)])
		for k in ('any', 'all'):
			self.np.table[k] = Nat(lambda m, s, args, kw, k=k: (r for s1, f in args[0].attr(m, s, k) for r in m.apply(s1, f, [], {})))
		def lexsort(keys):
			if not isinstance(keys, Tup): raise Unsupported('lexsort')
			t = next((v.tag for v in keys.v if isinstance(v, Vec)), None)
			if t is None or any(not isinstance(v, Vec) or v.tag is not t for v in keys.v): raise Unsupported('lexsort')
			return Perm(t, [v.f for v in keys.v[::-1]])
		self.np.table['lexsort'] = nat(lexsort)
		def argsort(v, kind=None):
			if kind not in ('stable', 'mergesort'): raise Unsupported('argsort that is not stable')
			if isinstance(v, OfSorted): return Perm(v.of, [v.f])
			if isinstance(v, Vec): return Perm(v.tag, [v.f])
			raise Unsupported('argsort')
		self.np.table['argsort'] = nat(argsort)
		def sort(v, kind=None):
			if not isinstance(v, Vec): raise Unsupported('sort')
			return Sorted(v, [v.f])
		self.np.table['sort'] = nat(sort)
		for nm, op in (('union1d', 'union'), ('intersect1d', 'intersection'), ('setdiff1d', 'difference'), ('setxor1d', 'symmetric_difference')):
			def setop(a, b, assume_unique=False, op=op):
				if not all(isinstance(x, Vec) and x.elem().sort() == B for x in (a, b)): raise Unsupported('set operation on arrays')
				return Vec(SetV(a.members()).op(op, b).pred, lambda y: y, B, True)
			self.np.table[nm] = nat(setop)
		def isin(a, b, assume_unique=False, invert=False):
			if not all(isinstance(x, Vec) and x.elem().sort() == B for x in (a, b)): raise Unsupported('isin')
			p = b.members()
			return a.map(lambda y: z3.Not(p(y)) if invert else p(y))
		self.np.table['isin'] = self.np.table['in1d'] = nat(isin)
		def mkset(x=None):
			if x is None: return SetV(lambda y: z3.BoolVal(False))
			if isinstance(x, SetV): return x
			if isinstance(x, Vec): return SetV(x.members())
			raise Unsupported('set')
		def mklist(x=None):
			if isinstance(x, SetV): return Vec(x.pred, lambda y: y, B, True)
			if isinstance(x, (Vec, Tup)): return x
			raise Unsupported('list')
		def isinst(x, t):
			if t is self.subcls: return isinstance(x, SubV)
			if t is INTCLS: return isinstance(x, (int, Int)) and not isinstance(x, bool)
			raise Unsupported('isinstance')
		def length(x):
			if isinstance(x, Tup): return len(x.v)
			raise Unsupported('len')
		self.subcls = NS({}, 'SubSpace')
		def ge(m, s, args, kw):
			if len(args) != 2: raise Unsupported('getattr')
			if isinstance(args[1], str): yield from m.attribute(s, args[0], args[1])
			elif isinstance(args[1], Named) and args[0] is self.factory: yield s, args[1].value
			else: raise Unsupported('getattr')
		self.globs = {'np': self.np, 'set': nat(mkset), 'frozenset': nat(mkset), 'list': nat(mklist), 'sorted': nat(mklist), 'SubSpace': self.subcls, 'isinstance': nat(isinst), 'int': INTCLS, 'bit_count': JUNK, 'npi': JUNK, 'getattr': Nat(ge)}
		self.while_rule = Rule(self)
		self.verified = {}

	def machine(self, **kw):
		m = Machine(globs=self.globs, axioms=AX, while_rule=self.while_rule, timeout=kw.pop('timeout', 1500), **kw)
		m.world = self
		m.fuel = 3000
		return m

	# ---- from_blades: distinct elements are required, the result is the subspace of these blades
	def from_blades(self, m, s, args, kw):
		x, = args
		if isinstance(x, Tup):
			ts = [v.t if isinstance(v, Op) else None for v in x.v]
			if any(t is None or t.sort() != B for t in ts) or len(ts) > 1: raise Unsupported('from_blades of a list')
			x = Vec(lambda y: z3.Or(*[y == t for t in ts]) if ts else z3.BoolVal(False), lambda y: y, B, True)
		if not isinstance(x, Vec) or x.elem().sort() != B: raise Unsupported('from_blades')
		m.obligations.append((s, x.distinct(), 'from_blades requires distinct blades'))
		yield self.define(s, x.members())
	def define(self, s, pred):
		t = z3.Const(f'S!{next(pvc._n)}', SET)
		return s.fork(q(lambda x: t[x] == pred(x), 'x')), SubV(t)
	def define_b(self, s, pred): return self.define(s, pred)

	# ---- SubSpace
	def sub_attr(self, m, s, o, a):
		if a == 'blades': yield s, Vec(lambda x: o.t[x], lambda x: x, B, True, tag=self.tag_of(o)); return
		if a == 'algebra': yield s, self.algebra; return
		if a == 'subspace': yield s, o; return
		if a in ('inside', 'equals', 'select', 'restrict'): yield s, self.namespace(a, o); return
		g = inspect.getattr_static(self.cls, a, None)
		if g is None: raise Unsupported(f'SubSpace.{a}')
		if isinstance(g, (property, functools.cached_property)):
			yield from self.method(m, s, o, a, [])
		else:
			yield s, Nat(lambda m, s, args, kw: self.method(m, s, o, a, args))
	def tag_of(self, o):
		"""same set, same array order (the blades attribute is canonical)"""
		return ('blades', o.t.get_id(), o.t)  if False else _Tag(o.t)
	def method(self, m, s, o, a, args):
		k = CONTRACTS.get(a)
		if k is not None:
			yield from k(self, m, s, o, *args); return
		g = inspect.getattr_static(self.cls, a)
		f = getattr(g, '__func__', g)
		self.inlined.add(a)
		yield from m.call_function(m.source(f), s, ([] if isinstance(g, staticmethod) else [o]) + list(args))
	def namespace(self, a, o):
		def by(make):
			def get(m, s, nm):
				for s1, v in self.fac_attr(m, s, nm):
					if isinstance(v, SubV): yield from make(m, s1, v)
					else: yield s1, Nat(lambda m, s, args, kw: (r for s2, w in m.apply(s, v, args, kw) for r in make(m, s2, w)))
			return get
		if a == 'inside': mk = lambda m, s, w: self.method(m, s, w, '__contains__', [o])
		elif a == 'equals': mk = lambda m, s, w: iter([(s, Bool(o.t == w.t))])
		else: mk = lambda m, s, w: self.method(m, s, o, a + '_subspace', [w])
		return NS({}, a, call=lambda m, s, args, kw: mk(m, s, args[0]), default=by(mk))

	# ---- SubSpaceFactory
	def fac_attr(self, m, s, a):
		if a in FACTORY:
			yield s, Nat(lambda m, s, args, kw: FACTORY[a](self, m, s, *args)); return
		if a in self.factory.table: yield s, self.factory.table[a]; return
		g = inspect.getattr_static(self.fac, a, None)
		if g is None: raise Unsupported(f'SubSpaceFactory.{a}')
		f = inspect.unwrap(g)
		if not inspect.isfunction(f): raise Unsupported(f'SubSpaceFactory.{a}')
		canonical = f.__name__
		if canonical in FACTORY and a != canonical:
			yield s, Nat(lambda m, s, args, kw: FACTORY[canonical](self, m, s, *args)); return
		self.inlined.add('factory.' + a)
		yield s, Nat(lambda m, s, args, kw: m.call_function(m.source(f), s, [self.factory] + args, kw))

	# ---- OperatorFactory: the output subspace of an operator on subspaces is the one of its contract (C04, C08)
	def op_attr(self, m, s, a):
		g = inspect.getattr_static(self.ops, a, None)
		if g is None: raise Unsupported(f'operator {a}')
		nm = inspect.unwrap(g).__name__
		def call(m, s, args, kw):
			if kw or any(not isinstance(x, SubV) for x in args): raise Unsupported('operator arguments')
			if nm in ('product', 'geometric_product', 'gp'):
				s, v = PROD(self, s, *args)
			else:
				f = self.opfun.setdefault((nm, len(args)), z3.Function('sub_' + nm, *([SET] * (len(args) + 1))))
				v = SubV(f(*[x.t for x in args]))
			yield s, NS({'subspace': v}, 'operator')
		yield s, Nat(call)
	def opsub(self, nm, *sets):
		g = inspect.unwrap(inspect.getattr_static(self.ops, nm)).__name__
		f = self.opfun.setdefault((g, len(sets)), z3.Function('sub_' + g, *([SET] * (len(sets) + 1))))
		return f(*sets)


class _Tag:
	def __new__(cls, t):
		k = t.get_id()
		if k not in _tags: _tags[k] = (object(), t)
		return _tags[k][0]
_tags = {}

ZEROS = NS({}, 'zeros')
INTCLS = NS({}, 'int')


class Named(Sem):
	"""an attribute name whose value in the factory is given"""
	def __init__(self, value): self.value = value


class Groups(Sem):
	def __init__(self, pred): self.pred = pred

class ByGrade(Sem):
	"""blades_by_grade: entry g holds the blades of grade g, 0 <= g <= N"""
	def item(self, m, s, k):
		if k is Ellipsis or k == slice(None, None, None):
			yield s, Groups(lambda g: z3.BoolVal(True)); return
		if isinstance(k, Tup) and all(isinstance(v, (int, Int)) for v in k.v):
			ts = [v.t if isinstance(v, Int) else z3.IntVal(v) for v in k.v]
			ok = z3.And(*[z3.And(-(N + 1) <= t, t <= N) for t in ts])
			norm = [z3.If(t < 0, t + N + 1, t) for t in ts]
			if len(ts) > 1: m.obligations.append((s.fork(ok), z3.Distinct(*norm), 'from_blades requires distinct blades'))
			if m.feasible(s, ok): yield s.fork(ok), Groups(lambda g: z3.Or(*[g == t for t in norm]))
			if m.feasible(s, z3.Not(ok)): yield s.fork(z3.Not(ok)), Exc('IndexError')
			return
		if isinstance(k, Vec) and k.sort == z3.IntSort() and k.ident:
			# grades within range, without repetition (identity on its domain)
			m.obligations.append((s, z3.ForAll([z3.Int('gg')], z3.Implies(k.dom(z3.Int('gg')), z3.And(0 <= z3.Int('gg'), z3.Int('gg') <= N))), 'grades within range'))
			yield s, Groups(k.dom); return
		raise Unsupported('blades_by_grade')


def PROD(w, s, x, y):
	return w.define(s, lambda c: ex(lambda a, b: z3.And(x.t[a], y.t[b], nz(a, b), c == xor(a, b)), 'a', 'b'))

# ---------------------------------------------------------------- contracts
def closed(s): return q(lambda a, b: z3.Implies(z3.And(s[a], s[b], nz(a, b)), s[xor(a, b)]), 'a', 'b')
def left_closed(s, u, t=None): return q(lambda a, b: z3.Implies(z3.And(s[a], u[b], nz(a, b)), (u if t is None else t)[xor(a, b)]), 'a', 'b')

def setc(pred):
	"""contract: the result is the subspace of the blades with pred(S, x, args...)"""
	return lambda w, m, s, o, *args: iter([w.define(s, lambda x: pred(o.t, x, *[z.t for z in args]))])
def boolc(f):
	return lambda w, m, s, o, *args: iter([(s, Bool(f(o.t, *[z.t for z in args])))])

SETS = dict(
	union=lambda S, x, T: z3.Or(S[x], T[x]), intersection=lambda S, x, T: z3.And(S[x], T[x]), difference=lambda S, x, T: z3.And(S[x], z3.Not(T[x])),
	select_subspace=lambda S, x, T: T[x], restrict_subspace=lambda S, x, T: z3.And(S[x], T[x]),
	complement=lambda S, x: S[xor(x, I)], degenerate=lambda S, x: z3.And(S[x], zc(x) > 0), nondegenerate=lambda S, x: z3.And(S[x], zc(x) == 0),
	scalar_degenerate=lambda S, x: z3.Or(x == one, z3.And(S[x], zc(x) > 0)))
BOOLS = dict(
	is_subspace=lambda S, T: subset(S, T), __contains__=lambda S, T: subset(T, S),
	is_degenerate=lambda S: q(lambda x: z3.Implies(S[x], zc(x) > 0), 'x'), is_degenerate_scalar=lambda S: q(lambda x: z3.If(x == one, S[x], z3.Implies(S[x], zc(x) > 0)), 'x'),
	in_even=lambda S: q(lambda x: z3.Implies(S[x], gr(x) % 2 == 0), 'x'), in_odd=lambda S: q(lambda x: z3.Implies(S[x], gr(x) % 2 == 1), 'x'),
	is_even=lambda S: q(lambda x: S[x] == (gr(x) % 2 == 0), 'x'), is_odd=lambda S: q(lambda x: S[x] == (gr(x) % 2 == 1), 'x'),
	is_empty=lambda S: q(lambda x: z3.Not(S[x]), 'x'), in_self_reverse=lambda S: q(lambda x: z3.Implies(S[x], gr(x) / 2 % 2 == 0), 'x'),
	is_subalgebra=closed)
SYM = dict(squared='squared', cubed='cubed', symmetric_reverse='symmetric_reverse_product', symmetric_involute='symmetric_involute_product', symmetric_conjugate='symmetric_conjugate_product',
           symmetric_scalar_negation='symmetric_scalar_negation_product', symmetric_pseudoscalar_negation='symmetric_pseudoscalar_negation_product')
BIN = dict(wedge='wedge', inner='inner', reverse_product='reverse_product', involute_product='involute_product', conjugate_product='conjugate_product', scalar_negation_product='scalar_negation_product',
           pseudoscalar_negation_product='pseudoscalar_negation_product', anti_reverse_product='anti_reverse_product')
SIMPLE = dict(is_squared_n_simple='squared', is_reverse_n_simple='symmetric_reverse', is_involute_n_simple='symmetric_involute', is_conjugate_n_simple='symmetric_conjugate',
              is_scalar_negation_n_simple='symmetric_scalar_negation', is_pseudoscalar_negation_n_simple='symmetric_pseudoscalar_negation')
simple = z3.Function('simple', SET, z3.IntSort(), z3.BoolSort())      # is_n_simple, as a function of the set and n

CONTRACTS = {}
CONTRACTS.update({k: setc(f) for k, f in SETS.items()})
CONTRACTS.update({k: boolc(f) for k, f in BOOLS.items()})
CONTRACTS['dual'] = CONTRACTS['complement']
CONTRACTS['product'] = lambda w, m, s, o, x: iter([PROD(w, s, o, x)])
for _k, _op in {**SYM, **BIN}.items():
	CONTRACTS[_k] = lambda w, m, s, o, *args, _op=_op: iter([(s, SubV(w.opsub(_op, o.t, *[z.t for z in args])))])
def _int(n): return n.t if isinstance(n, Int) else z3.IntVal(n)
CONTRACTS['is_n_simple'] = lambda w, m, s, o, n: iter([(s, Bool(simple(o.t, _int(n))))])
for _k, _op in SIMPLE.items():
	CONTRACTS[_k] = lambda w, m, s, o, n, _op=_op: iter([(s, Bool(simple(w.opsub(SYM[_op], o.t), _int(n) - 1)))])

def fac(pred):
	return lambda w, m, s: iter([w.define(s, pred)])
def grades_of(w, m, s, k):
	"""k_vector(k): blades of grade k (negative k counts from the top); anything else raises"""
	t = _int(k)
	ok = z3.And(-(N + 1) <= t, t <= N)
	if m.feasible(s, ok): yield w.define(s.fork(ok), lambda x: gr(x) == z3.If(t < 0, t + N + 1, t))
	if m.feasible(s, z3.Not(ok)): yield s.fork(z3.Not(ok)), Exc('IndexError')
def from_grades(w, m, s, k):
	for s1, g in ByGrade().item(m, s, k):
		if isinstance(g, Exc): yield s1, g
		else: yield w.define(s1, lambda x: g.pred(gr(x)))
FACSETS = dict(
	scalar=lambda x: x == one, vector=lambda x: gr(x) == 1, pseudoscalar=lambda x: x == I, antiscalar=lambda x: x == I, antivector=lambda x: gr(x) == N - 1,
	scalar_pseudoscalar=lambda x: z3.Or(x == one, x == I), nonscalar=lambda x: x != one, multivector=lambda x: z3.BoolVal(True), empty=lambda x: z3.BoolVal(False),
	even_grade=lambda x: gr(x) % 2 == 0, odd_grade=lambda x: gr(x) % 2 == 1, self_reverse=lambda x: gr(x) / 2 % 2 == 0, mod4=lambda x: gr(x) % 4 == 0,
	degenerate=lambda x: zc(x) > 0, scalar_degenerate=lambda x: z3.Or(x == one, zc(x) > 0), nondegenerate=lambda x: zc(x) == 0, rotor=lambda x: z3.And(gr(x) % 2 == 0, zc(x) == 0))
KVEC = dict(bivector=2, trivector=3, quadvector=4, antibivector=-3, antitrivector=-4, antiquadvector=-5)
FACTORY = {k: fac(f) for k, f in FACSETS.items()}
FACTORY['k_vector'] = grades_of
FACTORY['from_grades'] = from_grades
for _k, _n_ in KVEC.items():
	FACTORY[_k] = lambda w, m, s, _n_=_n_: grades_of(w, m, s, _n_)
# the pseudoscalar's blade array has one element: it broadcasts
def _pss(w, m, s):
	s, v = w.define(s, lambda x: x == I)
	yield s, PssV(v.t)
class PssV(SubV):
	def attr(self, m, s, a):
		if a == 'blades': yield s, Vec(lambda x: x == I, lambda x: x, B, False, kind=('single', I))
		else: yield from super().attr(m, s, a)
FACTORY['pseudoscalar'] = FACTORY['antiscalar'] = _pss


class Rule:
	"""candidate invariants for the closure loops: over every subspace variable v (and pairs), relative to the loop's owner"""
	def __init__(self, w): self.w, self.owner, self.cands, self.skolem = w, None, [], None
	def tracks(self, v): return isinstance(v, SubV)
	def havoc(self, a): return SubV(z3.Const(f'{a}!{next(pvc._n)}', SET))
	def grows(self, x, y): return z3.And(subset(x.t, y.t), z3.Not(same(x.t, y.t)))
	def candidates(self, st, vars_):
		out = []
		def add(label, f):
			f.label = label
			out.append(f)
		for v in vars_:
			for l, g in self.cands1: add(f'{l}({v})', lambda env, w, g=g, v=v: g(env[v].t, w))
			for u in vars_:
				if u != v:
					for l, g in self.cands2: add(f'{l}({u},{v})', lambda env, w, g=g, v=v, u=u: g(env[u].t, env[v].t, w))
		return out
	def instances(self, s, o, vars_, fixed):
		yield self.skolem
		for v in vars_: yield fixed.env[v].t


# ---------------------------------------------------------------- verification of the bodies
def verify(led, contract, w, f, name, args, post, raises=None, pre=()):
	"""every path of the real function satisfies post(state, result); preconditions of callees met. Returns what was found open."""
	import time
	try:
		m = w.machine()
		st = St(pc=tuple(pre))
		t0 = time.process_time()
		paths = []
		for s, v in m.call_function(m.source(f), st, args):
			paths.append((s, v))
		goals = list(m.obligations)
		for s, v in paths:
			if not m.feasible(s): continue
			led.cover(f'{contract}: paths')
			if isinstance(v, Exc):
				goals.append((s, raises if raises is not None else z3.BoolVal(False), f'raises {v.what}'))
			else:
				g = post(v)
				goals.append((s, g, 'postcondition'))
		if not paths: raise Unsupported('no path')
		if getattr(m, 'terminates', True) is False:
			led.open[contract, f'{name}: termination'] += 1
		elif hasattr(m, 'terminates'): led.ok(contract, 'z3')
		ok = True
		for s, g, what in goals:
			r, info = m.proves(s, g)
			if r == 'yes': led.ok(contract, 'z3')
			else:
				led.open[contract, f'{name}: {what}: {"refuted" if r == "no" else "unknown"}'] += 1
				ok = False
		led.seconds['z3'] += time.process_time() - t0
		led.notes['z3 queries'] += m.queries
		return ok
	except (Unsupported, OSError, SyntaxError, z3.Z3Exception, KeyError, AttributeError, TypeError, ValueError, IndexError, AssertionError, RecursionError) as e:
		led.open[contract, f'{name}: outside the verifier\'s subset: {type(e).__name__}: {e}'[:160]] += 1
		return False


def isub(v):
	if not isinstance(v, SubV): raise Unsupported('result is not a subspace')
	return v.t

def ibool(v):
	if isinstance(v, bool): return z3.BoolVal(v)
	if not isinstance(v, Bool): raise Unsupported('result is not a truth value')
	return v.t


def member(cls, name):
	g = inspect.getattr_static(cls, name)
	return getattr(g, '__func__', g)


S_, T_ = z3.Const('S', SET), z3.Const('T', SET)

def set_methods(led):
	w = World()
	led.cover('engine S')
	for k, f in SETS.items():
		n = f.__code__.co_argcount - 2
		args = [SubV(S_)] + [SubV(T_)] * n
		verify(led, 'set operations', w, member(w.cls, k), k, args, lambda v, f=f, n=n: q(lambda x: isub(v)[x] == f(S_, x, *[T_] * n), 'x'))


def set_predicates(led, contract, names=None):
	w = World()
	for k, f in BOOLS.items():
		if k == 'is_subalgebra' or names is not None and k not in names: continue
		n = f.__code__.co_argcount - 1
		args = [SubV(S_)] + [SubV(T_)] * n
		verify(led, contract, w, member(w.cls, k), k, args, lambda v, f=f, n=n: ibool(v) == f(S_, *[T_] * n))


def slices(led):
	w = World()
	p = z3.Function('picked', B, z3.BoolSort())
	verify(led, 'set operations', w, member(w.cls, 'slice_subspace'), 'slice_subspace', [SubV(S_), Pick(p)], lambda v: q(lambda x: isub(v)[x] == z3.And(S_[x], p(x)), 'x'))


def namespaces(led):
	import numga.subspace.namespaces as ns
	w = World()
	E = {'InNamespace': ('bool', lambda X: subset(S_, X)), 'IsNamespace': ('bool', lambda X: same(S_, X)),
	     'SelectNamespace': ('set', lambda X, x: X[x]), 'RestrictNamespace': ('set', lambda X, x: z3.And(S_[x], X[x]))}
	for cn, (kind, f) in E.items():
		cls = getattr(ns, cn)
		self_ = NS({'subspace': SubV(S_), 'factory': w.factory}, cn)
		def post(v, X, f=f, kind=kind):
			return ibool(v) == f(X) if kind == 'bool' else q(lambda x: isub(v)[x] == f(X, x), 'x')
		ct = 'predicates' if kind == 'bool' else 'select and restrict'
		verify(led, ct, w, member(cls, '__call__'), cn + '.__call__', [self_, SubV(T_)], lambda v: post(v, T_))
		verify(led, ct, w, member(cls, '__getattr__'), cn + '.__getattr__', [self_, Named(SubV(T_))], lambda v: post(v, T_))
		# an attribute that is a constructor: what is returned must be a function; its value on any arguments
		F = z3.Function('made', z3.IntSort(), SET)
		k = z3.Int('k')
		con = Nat(lambda m, s, args, kw: iter([(s, SubV(F(args[0].t)))]))
		def called(m, s, args, kw, cls=cls, self_=self_):
			for s1, g in m.call_function(m.source(member(cls, '__getattr__')), s, [self_, Named(con)]):
				if isinstance(g, Exc): yield s1, g
				else: yield from m.apply(s1, g, [Int(k)], {})
		verify_nat(led, ct, w, called, cn + '.__getattr__ (constructor)', lambda v: post(v, F(k)))
		if kind == 'set':
			g = z3.Int('g')
			rng = z3.And(-(N + 1) <= g, g <= N)
			G = lambda x: gr(x) == z3.If(g < 0, g + N + 1, g)
			verify(led, ct, w, member(cls, '__getitem__'), cn + '.__getitem__(k)', [self_, Int(g)],
			       lambda v, f=f: q(lambda x: isub(v)[x] == (G(x) if cn == 'SelectNamespace' else z3.And(S_[x], G(x))), 'x'), pre=[rng])
			h = z3.Int('h')
			verify(led, ct, w, member(cls, '__getitem__'), cn + '.__getitem__([g, h])', [self_, Tup([Int(g), Int(h)])],
			       lambda v: q(lambda x: isub(v)[x] == z3.And(z3.BoolVal(True) if cn == 'SelectNamespace' else S_[x], z3.Or(gr(x) == g, gr(x) == h)), 'x'), pre=[0 <= g, g <= N, 0 <= h, h <= N, g != h])


def verify_nat(led, contract, w, f, name, post, pre=()):
	import time
	try:
		m = w.machine()
		t0 = time.process_time()
		paths = list(f(m, St(pc=tuple(pre)), [], {}))
		if not paths: raise Unsupported('no path')
		for s, v in paths:
			if not m.feasible(s): continue
			r, _ = m.proves(s, z3.BoolVal(False) if isinstance(v, Exc) else post(v))
			if r == 'yes': led.ok(contract, 'z3')
			else: led.open[contract, f'{name}: {r}'] += 1
		led.seconds['z3'] += time.process_time() - t0
	except (Unsupported, OSError, SyntaxError, z3.Z3Exception, KeyError, AttributeError, TypeError, ValueError, IndexError, AssertionError, RecursionError) as e:
		led.open[contract, f'{name}: outside the verifier\'s subset: {type(e).__name__}: {e}'[:160]] += 1


refl = z3.Function('k_reflection', z3.IntSort(), SET)
FACTORY['k_reflection'] = lambda w, m, s, k: iter([(s, SubV(refl(_int(k))))])
for _k, _n_ in dict(reflection=1, bireflection=2, trireflection=3, quadreflection=4).items():
	FACTORY[_k] = lambda w, m, s, _n_=_n_: iter([(s, SubV(refl(z3.IntVal(_n_))))])

def constructors(led, contract):
	w = World()
	fac = w.factory
	for k, f in FACSETS.items():
		verify(led, contract, w, member(w.fac, k), k, [fac], lambda v, f=f: q(lambda x: isub(v)[x] == f(x), 'x'))
	for k, n in KVEC.items():
		G = n if n >= 0 else N + 1 + n
		verify(led, contract, w, member(w.fac, k), k, [fac], lambda v: q(lambda x: isub(v)[x] == (gr(x) == G), 'x'), raises=(N < n if n >= 0 else N + 1 < -n))
	k = z3.Int('k')
	ok = z3.And(-(N + 1) <= k, k <= N)
	verify(led, contract, w, member(w.fac, 'k_vector'), 'k_vector', [fac, Int(k)], lambda v: q(lambda x: isub(v)[x] == (gr(x) == z3.If(k < 0, k + N + 1, k)), 'x'), raises=z3.Not(ok))
	verify(led, contract, w, member(w.fac, 'from_grades'), 'from_grades', [fac, Tup([Int(k)])], lambda v: q(lambda x: isub(v)[x] == (gr(x) == z3.If(k < 0, k + N + 1, k)), 'x'), raises=z3.Not(ok))
	verify(led, contract, w, member(w.fac, 'from_grades'), 'from_grades(...)', [fac, Ellipsis], lambda v: q(lambda x: isub(v)[x], 'x'))
	vec = lambda x: gr(x) == 1
	verify(led, contract, w, member(w.fac, 'k_reflection'), 'k_reflection', [fac, Int(k)],
	       lambda v: z3.If(k == 0, q(lambda x: isub(v)[x] == (x == one), 'x'), q(lambda c: isub(v)[c] == ex(lambda a, b: z3.And(refl(k - 1)[a], vec(b), nz(a, b), c == xor(a, b)), 'a', 'b'), 'c')), pre=[k >= 0])
	for nm, n in dict(reflection=1, bireflection=2, trireflection=3, quadreflection=4).items():
		verify(led, contract, w, member(w.fac, nm), nm, [fac], lambda v, n=n: isub(v) == refl(z3.IntVal(n)))
	verify(led, contract, w, member(w.fac, 'translator'), 'translator', [fac], lambda v: q(lambda x: isub(v)[x] == z3.And(refl(z3.IntVal(2))[x], z3.Not(z3.And(gr(x) == 2, zc(x) == 0))), 'x'), raises=N < 2)


def closure_loops(led):
	"""minimal_subalgebra: least closed superset, for every set and signature; termination"""
	w = World()
	C, U = z3.Const('C', SET), z3.Const('U', SET)
	# --- minimal_subalgebra
	r = w.while_rule
	r.skolem = C       # an arbitrary set; instantiated at the exit with every subspace variable
	r.cands1 = [('contains self', lambda v, u: subset(S_, v)),
	            ('inside every closed superset', lambda v, u: z3.Implies(z3.And(subset(S_, u), closed(u)), subset(v, u))),
	            ('acts on every left-closed set', lambda v, u: z3.Implies(left_closed(S_, u), left_closed(v, u))),
	            ('acts on every right-closed set', lambda v, u: z3.Implies(left_closed(u, S_, u), left_closed(u, v, u)))]
	r.cands2 = [('u = v + self v', lambda u, v, _: q(lambda c: u[c] == z3.Or(v[c], ex(lambda a, b: z3.And(S_[a], v[b], nz(a, b), c == xor(a, b)), 'a', 'b')), 'c')),
	            ('u = v + v self', lambda u, v, _: q(lambda c: u[c] == z3.Or(v[c], ex(lambda a, b: z3.And(v[a], S_[b], nz(a, b), c == xor(a, b)), 'a', 'b')), 'c')),
	            ('u = v + v v', lambda u, v, _: q(lambda c: u[c] == z3.Or(v[c], ex(lambda a, b: z3.And(v[a], v[b], nz(a, b), c == xor(a, b)), 'a', 'b')), 'c')),
	            ('v inside u', lambda u, v, _: subset(v, u))]
	verify(led, 'minimal_subalgebra', w, member(w.cls, 'minimal_subalgebra'), 'minimal_subalgebra', [SubV(S_)],
	       lambda v: z3.And(subset(S_, isub(v)), closed(isub(v)), z3.Implies(z3.And(subset(S_, C), closed(C)), subset(isub(v), C))))

def exponential_loop(led):
	w = World()
	r = w.while_rule
	C = r.skolem = z3.Const('C', SET)
	sq = lambda t: w.opsub('squared', t)
	mono = z3.ForAll([S_, T_], z3.Implies(z3.ForAll([a], z3.Implies(S_[a], T_[a])), z3.ForAll([a], z3.Implies(sq(S_)[a], sq(T_)[a]))))
	r.cands1 = [('contains self', lambda v, u: subset(S_, v)), ('contains 1', lambda v, u: v[one]),
	            ('inside every closed superset', lambda v, u: z3.Implies(z3.And(subset(S_, u), u[one], subset(sq(u), u)), subset(v, u)))]
	r.cands2 = [('u = v + v^2', lambda u, v, _: q(lambda c: u[c] == z3.Or(v[c], sq(v)[c]), 'c')), ('v inside u', lambda u, v, _: subset(v, u))]
	verify(led, 'minimal_exponential', w, member(w.cls, 'minimal_exponential'), 'minimal_exponential', [SubV(S_)],
	       lambda v: z3.And(subset(S_, isub(v)), isub(v)[one], subset(sq(isub(v)), isub(v)), z3.Implies(z3.And(subset(S_, C), C[one], subset(sq(C), C)), subset(isub(v), C))), pre=[mono])


def static_facts(led):
	w = World()
	verify(led, 'is_subalgebra', w, member(w.cls, 'is_subalgebra'), 'is_subalgebra', [SubV(S_)], lambda v: ibool(v) == closed(S_))
	n = z3.Int('n')
	for nm, op in {**SYM, **BIN, 'product': 'product'}.items():
		args = [SubV(S_)] + [SubV(T_)] * (nm not in SYM)
		ct = 'symmetric product subspaces' if nm in SYM else 'product subspaces'
		verify(led, ct, w, member(w.cls, nm), nm, args, (lambda v, op=op, nm=nm: isub(v) == w.opsub(op, S_, *([T_] if nm not in SYM else []))) if nm != 'product' else
		       lambda v: q(lambda c: isub(v)[c] == ex(lambda a, b: z3.And(S_[a], T_[b], nz(a, b), c == xor(a, b)), 'a', 'b'), 'c'))
	for nm, op in SIMPLE.items():
		verify(led, 'is_n_simple', w, member(w.cls, nm), nm, [SubV(S_), Int(n)], lambda v, op=op: ibool(v) == simple(w.opsub(SYM[op], S_), n - 1))
	verify(led, 'is_n_simple', w, member(w.cls, 'is_n_simple'), 'is_n_simple', [SubV(S_), Int(n)],
	       lambda v: ibool(v) == z3.If(n == 0, q(lambda x: z3.Implies(S_[x], x == one), 'x'), z3.Or(*[simple(w.opsub(SYM[op], S_), n - 1) for op in SIMPLE.values()])))
	i = z3.Int('i')
	bound = N / 2 + 2
	def least(v):
		if v is None: return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < bound), z3.Not(simple(S_, i))))
		t = _int(v)
		return z3.And(0 <= t, simple(S_, t), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < t), z3.Not(simple(S_, i)))))
	verify(led, 'simplicity', w, member(w.cls, 'simplicity'), 'simplicity', [SubV(S_)], least)
	verify(led, 'is_study', w, member(w.cls, 'is_study'), 'is_study', [SubV(S_)], lambda v: ibool(v) == simple(w.opsub(SYM['symmetric_scalar_negation'], S_), z3.IntVal(0)))


# ---------------------------------------------------------------- the pool: one immutable object per set
def flyweight(led):
	from numga.flyweight import FlyweightFactory
	from numga.subspace.factory import SubSpaceFactory
	ct = 'one object per set'
	fresh_pool = [k for k, v in vars(FlyweightFactory()).items() if v == {} and isinstance(v, dict)]
	try:
		field, = fresh_pool
	except ValueError:
		led.open[ct, 'the pool is not one dictionary'] += 1
		return
	led.enum(ct, vars(FlyweightFactory())[field] is not vars(FlyweightFactory())[field], 'two factories share one pool')
	content = z3.Function('content', V, V)       # ghost: the key (bytes of the blades) of a pooled object
	dom, val = z3.Array('dom', V, z3.BoolSort()), z3.Array('val', V, V)
	kk = z3.Const('kk', V)
	def inv(d): return z3.ForAll([kk], z3.Implies(z3.Select(d.dom, kk), content(z3.Select(d.val, kk)) == kk))
	def kept(d, e): return z3.ForAll([kk], z3.Implies(z3.Select(d.dom, kk), z3.And(z3.Select(e.dom, kk), z3.Select(e.val, kk) == z3.Select(d.val, kk))))
	key = z3.Const('key', V)
	# --- factory_construct(key, value): requires content(value()) == key
	def body(led):
		m = Machine(timeout=3000)
		st = St()
		st, pool = st.new(Dict(dom, val))
		st, self_ = st.new(Rec({field: pool}, cls=FlyweightFactory))
		d0 = st.get(pool)
		st = st.fork(inv(d0))
		def value(m, s, args, kw):
			r = fresh(name='made')
			yield s.fork(content(r) == key), Op(r)
		n = 0
		for s, v in m.call_function(m.source(FlyweightFactory.factory_construct), st, [self_, Op(key), Nat(value)]):
			if not m.feasible(s): continue
			n += 1
			covered(led, ct, m, s)
			if not isinstance(v, Op): raise Unsupported('result of factory_construct')
			d1 = s.get(s.get(self_).f[field])
			for what, g in (('invariant pool[k] has key k', inv(d1)), ('pool only grows', kept(d0, d1)), ('the result is the pooled object', z3.And(z3.Select(d1.dom, key), z3.Select(d1.val, key) == v.t)), ('the result has the key', content(v.t) == key)):
				r, _ = m.proves(s, g)
				if r == 'yes': led.ok(ct, 'z3')
				else: led.open[ct, f'factory_construct: {what}: {r}'] += 1
		if not n: raise Unsupported('no path')
	guarded(led, ct, 'factory_construct', body)
	# lemma: one key, two calls, any pools in between: one object; different keys: different objects
	def lemma(led):
		m = Machine()
		D = [Dict(z3.Array(f'dom{i}', V, z3.BoolSort()), z3.Array(f'val{i}', V, V)) for i in range(2)]
		r = z3.Consts('r0 r1 k0 k1', V)
		st = St(pc=(z3.Select(D[0].dom, r[2]), z3.Select(D[0].val, r[2]) == r[0], kept(D[0], D[1]), z3.Select(D[1].dom, r[3]), z3.Select(D[1].val, r[3]) == r[1], content(r[0]) == r[2], content(r[1]) == r[3]))
		if m.proves(st, (r[0] == r[1]) == (r[2] == r[3]))[0] == 'yes': led.ok(ct, 'z3')
		else: led.open[ct, 'lemma: identity is equality of keys'] += 1
	guarded(led, ct, 'lemma', lemma)
	# --- order_blades: ascending grade, then ascending blade, nothing lost
	def order(led):
		w = World()
		m = w.machine()
		x = Vec(lambda y: S_[y], lambda y: y, B, True)
		got = list(m.call_function(m.source(member(SubSpaceFactory, 'order_blades')), St(), [w.factory, x]))
		for s, v in got:
			if not m.feasible(s): continue
			if not isinstance(v, Sorted) or v.vec.tag is not x.tag: raise Unsupported('result of order_blades')
			y = z3.Const('y', B)
			ks = [k(y) for k in v.keys]
			good = [z3.eq(z3.simplify(k), z3.simplify(t)) for k, t in zip(ks, (gr(y), y))]
			if len(ks) != 2 or not all(good): raise Unsupported('sorting keys ' + str(ks))
			led.ok('canonical', 'z3', 2)
	guarded(led, 'canonical', 'order_blades', order)
	# --- from_blades(x): the pooled object whose key is the bytes of the canonical array of x
	def fb(led):
		from numga.subspace.subspace import SubSpace
		w = World()
		raw = z3.Function('bytes', SET, V)
		m = w.machine()
		x = Vec(lambda y: S_[y], lambda y: y, B, True)
		def ordered(m, s, args, kw):
			if len(args) != 1 or args[0] is not x: raise Unsupported('order_blades argument')
			yield s, CANON
		CANON = NS({'tobytes': nat(lambda: Op(raw(S_))), 'copy': nat(lambda: CANON), 'size': JUNK, 'shape': JUNK, 'dtype': JUNK}, 'canonical array')
		def sub_init(m, s, args, kw):
			if len(args) != 2 or args[0] is not w.algebra or args[1] is not CANON: raise Unsupported('SubSpace arguments')
			r = fresh(name='sub')
			yield s.fork(content(r) == raw(S_)), Op(r)
		goals = []
		def construct(m, s, args, kw):
			k, v = args
			if not isinstance(k, Op): raise Unsupported('key')
			for s1, r in m.apply(s, v, [], {}):
				if not isinstance(r, Op): raise Unsupported('value()')
				goals.append((s1, content(r.t) == k.t, 'requires content(value()) == key'))
			r = fresh(name='pooled')
			yield s.fork(content(r) == k.t), Op(r)
		self_ = NS({'algebra': w.algebra, 'order': 'fancy', 'order_blades': Nat(ordered), 'factory_construct': Nat(construct)}, 'factory')
		m.globs = dict(m.globs, SubSpace=Nat(sub_init))
		for s, v in m.call_function(m.source(member(SubSpaceFactory, 'from_blades')), St(), [self_, x]):
			if not m.feasible(s): continue
			if not isinstance(v, Op): raise Unsupported('result of from_blades')
			goals.append((s, content(v.t) == raw(S_), 'the result is the pooled object of the canonical array'))
		for s, g, what in goals:
			r, _ = m.proves(s, g)
			if r == 'yes': led.ok('canonical', 'z3')
			else: led.open['canonical', f'from_blades: {what}: {r}'] += 1
	guarded(led, 'canonical', 'from_blades', fb)
	# --- SubSpace.__init__: a private, write-protected copy of the given blades
	def init(led):
		from numga.subspace.subspace import SubSpace
		m = Machine(timeout=3000)
		st = St()
		def array(s, S):
			s, fl = s.new(Rec({'writeable': True}))
			return s.new(Rec({'set': S, 'flags': fl}, methods=dict(copy=lambda m, s, args, kw: iter([array(s, s.get(args[0]).f['set'])]))))
		st, src = array(st, Op(S_))
		alg = NS({'subspace': JUNK}, 'algebra')
		st, self_ = st.new(Rec({}, cls=SubSpace))
		ns = Nat(lambda m, s, args, kw: iter([(s, JUNK)]))
		m.globs = dict(InNamespace=ns, IsNamespace=ns, SelectNamespace=ns, RestrictNamespace=ns, npi=NS({'all_unique': nat(lambda x: True)}, 'npi'), np=NS({}, 'np'))
		for s, v in m.call_function(m.source(SubSpace.__init__), st, [self_, alg, src]):
			if isinstance(v, Exc): raise Unsupported('__init__ raises')
			f = s.get(self_).f
			b = f.get('blades')
			if not isinstance(b, Ref) or not isinstance(s.get(b), Rec): raise Unsupported('blades')
			checks = dict(copy=b.i != src.i, same=s.get(b).f['set'] is st.get(src).f['set'], protected=s.get(s.get(b).f['flags']).f['writeable'] is False, algebra=f.get('algebra') is alg, source=s.get(s.get(src).f['flags']).f['writeable'] is True)
			for k, g in checks.items():
				if g: led.ok('immutable', 'z3')
				else: led.open['immutable', f'SubSpace.__init__: {k}: refuted'] += 1
	guarded(led, 'immutable', 'SubSpace.__init__', init)


def guarded(led, ct, name, f):
	import time
	t0 = time.process_time()
	try:
		f(led)
	except (Unsupported, OSError, SyntaxError, z3.Z3Exception, KeyError, AttributeError, TypeError, ValueError, IndexError, AssertionError, RecursionError) as e:
		led.open[ct, f'{name}: outside the verifier\'s subset: {type(e).__name__}: {e}'[:160]] += 1
	led.seconds['z3'] += time.process_time() - t0
