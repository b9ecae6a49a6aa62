"""Invariant of the cache of concrete operators, over the AST of the real ConcreteOperatorFactory (engine P), for every history.

Ghost: a request r = (name, args, type of operator); F(r) = the concrete operator a new computation gives. Invariant of any dictionary held by
the factory: an entry stored under key K has the value F(r) for some request r whose key is K. Obligations: every store keeps the
invariant; a request returns F(r) whether it hits (then r' with the same key has F(r') = F(r)) or misses. Any history is a sequence of requests."""
import z3
from dv.pvc import *


class Store(Sem):
	"""an arbitrary dictionary that satisfies the invariant"""
	def __init__(self, w): self.w = w
	def hit(self, m, s, k):
		r, c, v = self.w.request(self.w.k)
		kt = self.w.keyed(r)
		t = key_term(k)
		if kt is None or kt.sort() != t.sort(): raise Unsupported('the key of a lookup has another form than the key of a store')
		return s.fork(kt == t, *c), Op(v)
	def item(self, m, s, k):
		# found or stored before on this path, under this very key
		t = key_term(k)
		for t2, v in s.heap.get('entries', ()):
			if z3.eq(t, t2):
				yield s, v; return
		yield self.hit(m, s, k)
		yield s, Exc('KeyError')
	@staticmethod
	def entry(s, k, v): return St(s.pc, s.env, {**s.heap, 'entries': ((key_term(k), v),) + s.heap.get('entries', ())})
	def contains(self, m, s, x):
		s1, v = self.hit(m, s, x)
		raise Unsupported('membership')
	def attr(self, m, s, a):
		if a == 'get':
			def get(m, s, args, kw):
				yield self.hit(m, s, args[0])
				yield s, (args[1] if len(args) > 1 else None)
			yield s, Nat(get)
		elif a == 'setdefault':
			def setdefault(m, s, args, kw):
				yield self.hit(m, s, args[0])
				self.w.stores.append((s, args[0], args[1]))
				yield s, args[1]
			yield s, Nat(setdefault)
		elif a == 'clear':
			yield s, Nat(lambda m, s, args, kw: iter([(s, None)]))
		else: raise Unsupported(f'{a} of the cache')


class CacheMachine(Machine):
	def assign(self, t, s, v):
		if isinstance(t, ast.Subscript):
			for s2, (o, k) in self.ev2(t.value, t.slice, s):
				if isinstance(o, Store):
					o.w.stores.append((s2, k, v))
					yield o.entry(s2, k, v), ('next',)
				elif isinstance(o, Exc): yield s2, ('raise', o)
				else: raise Unsupported('subscript store')
			return
		yield from super().assign(t, s, v)
	def s_If(self, n, st):
		"""x in cache / x not in cache"""
		t = n.test
		if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.In, ast.NotIn)):
			for s, (k, o) in self.ev2(t.left, t.comparators[0], st):
				if isinstance(o, Store):
					inside, outside = (n.body, n.orelse) if isinstance(t.ops[0], ast.In) else (n.orelse, n.body)
					s1, v = o.hit(self, s, k)
					yield from self.block(inside, o.entry(s1, k, v))
					yield from self.block(outside, s)
					return
		yield from super().s_If(n, st)


class Factory(Sem):
	def __init__(self, w): self.w = w
	def attr(self, m, s, a):
		w = self.w
		if a in w.dicts: yield s, w.store; return
		if a in w.fields:
			yield s, w.fields[a]; return
		g = inspect.getattr_static(w.cls, a, None)
		if inspect.isfunction(g):
			c = Clo(m.source(g), {})
			yield s, Nat(lambda m, s, args, kw: m.call_function(c, s, [self] + args, kw)); return
		raise Unsupported(f'attribute {a} of the operator factory')
	def call(self, m, s, args, kw):
		yield from m.call_function(Clo(m.source(self.w.cls.__call__), {}), s, [self] + args, kw)


class Context(Sem):
	def __init__(self, w): self.w = w
	def attr(self, m, s, a):
		if a == 'otype': yield s, Op(self.w.otype)
		elif a == 'algebra': yield s, Table(operator=Operators(self.w), subspace=Op(z3.Const('subspace', V)))
		else: raise Unsupported(f'attribute {a} of the context')


class Table(Sem):
	def __init__(self, **kw): self.kw = kw
	def attr(self, m, s, a):
		if a not in self.kw: raise Unsupported(f'attribute {a}')
		yield s, self.kw[a]


class Operators(Sem):
	def __init__(self, w): self.w = w


class W:
	def __init__(self, k):
		from numga.context import ConcreteOperatorFactory
		self.cls, self.k = ConcreteOperatorFactory, k
		self.abstract = z3.Function(f'abstract{k}', *([V] * (k + 2)))
		self.concrete = z3.Function('concrete', V, V, V)
		# the representation of a type of operators determines the type (trusted)
		self.untype = z3.Function('untype', V, V)
		self.key_of = None
		self.stores = []
		self.name, self.args, self.otype = z3.Const('name', V), [z3.Const(f'arg{i}', V) for i in range(k)], z3.Const('otype', V)
		self.store, self.me, self.context = Store(self), Factory(self), Context(self)
		init = self.cls(self.context)
		self.dicts = [a for a, v in vars(init).items() if isinstance(v, dict) and not v]
		self.fields = {a: v for a, v in vars(init).items() if v is self.context}
	def value(self, name, args, ot): return self.concrete(ot, self.abstract(name, *args))
	def request(self, k):
		n, a, o = fresh(name='name'), [fresh(name='arg') for _ in range(k)], fresh(name='otype')
		return (n, a, o), [self.untype(str_(o)) == o], self.value(n, a, o)
	def keyed(self, r):
		if self.key_of is None: return None
		n, a, o = r
		return z3.substitute(self.key_of, (self.name, n), *zip(self.args, a), (self.otype, o))
	def machine(self):
		def call(m, s, f, args):
			if f.t.eq(self.otype) and len(args) == 2 and args[0] is self.context and isinstance(args[1], Op): yield s, Op(self.concrete(self.otype, args[1].t))
			else: raise Unsupported('call')
		def get(m, s, args, kw):
			if len(args) == 2 and isinstance(args[0], Operators) and isinstance(args[1], Op):
				def build(m, s, a, kw):
					if kw or len(a) != self.k or not all(isinstance(x, Op) for x in a): raise Unsupported('arguments of an operator')
					yield s, Op(self.abstract(args[1].t, *[x.t for x in a]))
				yield s, Nat(build)
			elif len(args) == 2 and isinstance(args[1], str): yield from m.attribute(s, args[0], args[1])
			else: raise Unsupported('getattr')
		return CacheMachine(call=call, globs=dict(getattr=Nat(get)))


from dv.pvc import _str_f as str_


def prove_operator_cache(led, k):
	ct = 'operator cache invariant (every history)'
	try:
		w = W(k)
		if not w.dicts: raise Unsupported('no dictionary in the factory')
		def paths(w):
			m = w.machine()
			st = St(pc=[w.untype(str_(w.otype)) == w.otype])
			for s, f in m.call_function(m.source(w.cls.__getattr__), st, [w.me, Op(w.name)]):
				if isinstance(f, Exc): raise Unsupported(f'raises {f.what}')
				for s2, v in m.apply(s, f, [Op(a) for a in w.args], {}): yield m, s2, v
		# the key under which a request is stored (first pass: an empty cache)
		class Empty(Store):
			def hit(self, m, s, k): return s.fork(z3.BoolVal(False)), Op(fresh())
		real, w.store = w.store, Empty(w)
		list(paths(w))
		if not w.stores: raise Unsupported('nothing is stored')
		w.key_of = key_term(w.stores[0][1])
		w.store, w.stores = real, []
		n = 0
		F = w.value(w.name, w.args, w.otype)
		m = None
		for m, s, v in paths(w):
			if not m.feasible(s): continue
			n += 1
			led.cover(ct + ': paths')
			if not isinstance(v, Op): raise Unsupported('result')
			goal(led, ct, m, s, v.t == F, 'a request does not return what a new computation gives')
		for s, key, v in w.stores:
			if not isinstance(v, Op): raise Unsupported('stored value')
			kt = key_term(key)
			if kt.sort() != w.key_of.sort(): raise Unsupported('two forms of keys')
			goal(led, ct, m, s, z3.And(v.t == F, kt == w.key_of), 'a store breaks the invariant')
		if n < 2: raise Unsupported('fewer than two paths')
	except (Unsupported, OSError, SyntaxError, z3.Z3Exception, KeyError, AttributeError, TypeError, AssertionError, IndexError) as e:
		led.open[ct, f'outside the verifier\'s subset: {type(e).__name__}: {e}'[:150]] += 1


def goal(led, ct, m, s, g, what):
	r, _ = m.proves(s, g)
	if r == 'yes': led.ok(ct, 'z3')
	else: led.open[ct, f'{what}: {r}'] += 1
