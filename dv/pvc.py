"""Engine P: verification conditions from the AST of the real Python functions, discharged by z3.

The source of a function is taken from /repo on every run (inspect.getsource); dropped are only docstrings,
annotations and decorators (each decorator that is dropped is reported). The evaluator forks on every condition and
every operation that may raise. Values are z3 terms of an uninterpreted sort V ("any Python value"), mathematical
integers, Booleans, tuples, and heap objects (records, dictionaries with a symbolic domain, lists of symbolic length).
Calls are resolved through contracts; calling an opaque value is a pure uninterpreted function of its arguments unless
a contract says otherwise. Loops over sequences of symbolic length use the search-loop rule: the body is executed once
for an arbitrary index; fall-through paths must leave the heap unchanged, and an exit at index i (or exhaustion) may
assume that all earlier (all) indices fell through. Anything else raises Unsupported: the function is then not proved."""
import ast, functools, inspect, itertools, textwrap
import dv.env as env
import z3
from dv.ring import Unsupported

V = z3.DeclareSort('V')
_n = itertools.count()


def fresh(sort=None, name='v'):
	return z3.Const(f'{name}!{next(_n)}', V if sort is None else sort)


class Op:
	"""opaque value"""
	__slots__ = ('t',)
	def __init__(self, t): self.t = t
	def __repr__(self): return f'Op({self.t})'

class Tup:
	__slots__ = ('v',)
	def __init__(self, v): self.v = tuple(v)
	def __repr__(self): return f'Tup{self.v}'

class Int:
	__slots__ = ('t',)
	def __init__(self, t): self.t = t

class Bool:
	__slots__ = ('t',)
	def __init__(self, t): self.t = t

class Ref:
	__slots__ = ('i',)
	def __init__(self, i): self.i = i

class Rec:
	"""record: fields"""
	def __init__(self, f, methods=None, cls=None): self.f, self.methods, self.cls = dict(f), methods or {}, cls
	def copy(self): return Rec(self.f, self.methods, self.cls)

class Dict:
	def __init__(self, dom, val, wrap=Op): self.dom, self.val, self.wrap = dom, val, wrap
	def copy(self): return Dict(self.dom, self.val, self.wrap)

class List:
	"""length term, element function Int term -> value"""
	def __init__(self, n, at): self.n, self.at = n, at
	def copy(self): return List(self.n, self.at)

class Range:
	def __init__(self, n): self.n = n

class Exc:
	def __init__(self, what): self.what = what
	def __repr__(self): return f'raise {self.what}'

class Clo:
	def __init__(self, node, env): self.node, self.env = node, env

class Nat:
	"""callable with a contract: f(machine, state, args, kwargs) yields (state, value)"""
	def __init__(self, f, name=''): self.f, self.name = f, name

class Sem:
	"""value with its own semantics: subclasses override what they support"""
	def attr(self, m, s, a): raise Unsupported(f'attribute {a} of {type(self).__name__}')
	def item(self, m, s, k): raise Unsupported(f'subscript of {type(self).__name__}')
	def call(self, m, s, args, kw): raise Unsupported(f'call of {type(self).__name__}')
	def truth(self, m, s): raise Unsupported(f'truth value of {type(self).__name__}')
	def compare(self, m, s, op, a, b): raise Unsupported(f'comparison of {type(self).__name__}')
	def bin(self, m, s, op, a, b): raise Unsupported(f'arithmetic on {type(self).__name__}')
	def unary(self, m, s, op): raise Unsupported(f'arithmetic on {type(self).__name__}')
	def contains(self, m, s, x): raise Unsupported(f'in {type(self).__name__}')
	def iterate(self, m, s, n): raise Unsupported(f'loop over {type(self).__name__}')
	def each(self):
		"""an arbitrary element: (bound constant, value, condition of being an element, build(condition, value of the new element))"""
		raise Unsupported(f'loop over {type(self).__name__}')
	def key(self): raise Unsupported(f'key {type(self).__name__}')

UNDEF = object()
RATE = 1000      # solver resource units per nominal millisecond: limits are deterministic, not wall clock


class St:
	def __init__(self, pc=(), env=None, heap=None):
		self.pc, self.env, self.heap = tuple(pc), env if env is not None else {}, heap if heap is not None else {}
	def fork(self, *c):
		return St(self.pc + tuple(c), self.env, self.heap)
	def set(self, k, v):
		s = St(self.pc, dict(self.env), self.heap); s.env[k] = v; return s
	def put(self, ref, o):
		s = St(self.pc, self.env, dict(self.heap)); s.heap[ref.i] = o; return s
	def new(self, o):
		i = next(_n)
		return self.put(Ref(i), o), Ref(i)
	def get(self, ref): return self.heap[ref.i]
	def at(self, env):
		return St(self.pc, env, self.heap)


def key_term(v):
	"""z3 term that identifies a hashable value (structurally)"""
	if isinstance(v, Op): return v.t
	if isinstance(v, Sem): return v.key()
	if isinstance(v, Tup):
		return tup_sort([key_term(x).sort() for x in v.v])[0](*[key_term(x) for x in v.v])
	if isinstance(v, Int): return v.t
	if isinstance(v, str): return z3.StringVal(v)
	if isinstance(v, bool): return z3.BoolVal(v)
	if isinstance(v, int): return z3.IntVal(v)
	raise Unsupported(f'key {v!r}')

_tups = {}
def tup_sort(sorts):
	k = tuple(s.name() if s.kind() != z3.Z3_DATATYPE_SORT else s.name() for s in sorts)
	if k not in _tups:
		D = z3.Datatype('Tup_' + '_'.join(k))
		D.declare('tup', *[(f'p{len(_tups)}_{i}', s) for i, s in enumerate(sorts)])
		D = D.create()
		_tups[k] = D
	D = _tups[k]
	return (D.tup if sorts else lambda D=D: D.tup), D


class Machine:
	def __init__(self, contracts=None, globs=None, call=None, timeout=4000, opaque=None, binop=None, invariants=None, while_rule=None, axioms=()):
		self.axioms = list(axioms)
		self.feas_timeout = timeout if not axioms else 150
		self.while_rule = while_rule         # while loops: object with candidate invariants (see s_While)
		self.contracts = contracts or {}     # attribute / global name -> Nat
		self.opaque = opaque or {}           # attributes of opaque values: name -> f(machine, state, value) -> value
		self.binop = binop                   # arithmetic on opaque values: f(machine, state, operator, a, b) -> value
		self.invariants = invariants         # counting loops: f(state, index term) -> z3 formula
		self.obligations = []                # (state, goal, what) generated by loops
		self.globs = globs or {}
		self.call_opaque = call
		self.timeout = timeout
		self.dropped = []
		self.queries = 0
		self.fuel = 4000

	# ---- solver
	def solver(self, ms):
		s = z3.Solver(); s.set('rlimit', ms * RATE)
		if self.axioms:      # quantified theory: instantiation by triggers only (model-based instantiation crashes this z3 on some queries)
			s.set('auto_config', False); s.set('mbqi', False)
		return s
	def feasible(self, st, *extra):
		s = self.solver(self.feas_timeout)
		s.add(*self.axioms, *st.pc, *extra)
		self.queries += 1
		return s.check() != z3.unsat

	def proves(self, st, goal, axioms=()):
		"""'yes' | 'no' (with model) | 'unknown'"""
		s = self.solver(self.timeout * 3)
		s.add(*self.axioms, *st.pc, *axioms, z3.Not(goal))
		self.queries += 1
		r = s.check()
		return ('yes', None) if r == z3.unsat else ('no', s.model()) if r == z3.sat else ('unknown', s.reason_unknown())

	# ---- functions
	def source(self, f):
		f = f.func if isinstance(f, functools.cached_property) else f.fget if isinstance(f, property) else f
		f = inspect.unwrap(f) if callable(f) else f
		f = getattr(f, '__func__', f)
		n = ast.parse(textwrap.dedent(inspect.getsource(f))).body[0]
		if not isinstance(n, ast.FunctionDef):
			raise Unsupported('not a def')
		for d in n.decorator_list:
			self.dropped.append(ast.unparse(d))
		return n

	def call_function(self, node, st, args, kwargs=None, env0=None):
		"""yields (state, value | Exc)"""
		if isinstance(node, Clo):
			env0, node = node.env, node.node
		kwargs = dict(kwargs or {})
		a = node.args
		env_ = dict(env0 or {})
		pos = list(a.posonlyargs) + list(a.args)
		vals = list(args)
		for i, p in enumerate(pos):
			if i < len(vals):
				env_[p.arg] = vals[i]
			elif p.arg in kwargs:
				env_[p.arg] = kwargs.pop(p.arg)
			else:
				j = i - (len(pos) - len(a.defaults))
				if j < 0:
					raise Unsupported(f'missing argument {p.arg}')
				d = a.defaults[j]
				env_[p.arg] = Clo(d, dict(env_)) if isinstance(d, ast.Lambda) else self.const(d)
		if a.vararg:
			env_[a.vararg.arg] = Tup(vals[len(pos):])
		elif len(vals) > len(pos):
			raise Unsupported('too many arguments')
		if kwargs or a.kwonlyargs or a.kwarg:
			raise Unsupported('keyword arguments')
		caller = st.env
		if isinstance(node, ast.Lambda):
			for s, v in self.ev(node.body, st.at(env_)):
				yield s.at(caller), v
			return
		for s, o in self.block(node.body, st.at(env_)):
			k = o[0]
			if k == 'return': yield s.at(caller), o[1]
			elif k == 'raise': yield s.at(caller), o[1]
			elif k == 'next': yield s.at(caller), None
			else: raise Unsupported(k)

	def const(self, d):
		if isinstance(d, ast.Constant): return d.value
		raise Unsupported('default value ' + ast.unparse(d))

	# ---- statements: yield (state, outcome)
	def block(self, body, st):
		if not body:
			yield st, ('next',)
			return
		for s, o in self.stmt(body[0], st):
			if o[0] == 'next':
				yield from self.block(body[1:], s)
			else:
				yield s, o

	def stmt(self, n, st):
		self.fuel -= 1
		if self.fuel < 0:
			raise Unsupported('too many paths')
		m = getattr(self, 's_' + type(n).__name__, None)
		if m is None:
			raise Unsupported('statement ' + type(n).__name__)
		yield from m(n, st)

	def s_Pass(self, n, st): yield st, ('next',)
	def s_Import(self, n, st):
		for a in n.names: st = st.set(a.asname or a.name.split('.')[0], self.globs.get({'numpy': 'np'}.get(a.name, a.name)) or Op(fresh(name='mod')))
		yield st, ('next',)
	def s_ImportFrom(self, n, st):
		for a in n.names: st = st.set(a.asname or a.name, self.globs.get(a.name) or Op(fresh(name='imp')))
		yield st, ('next',)
	def s_Expr(self, n, st):
		if isinstance(n.value, ast.Constant):
			yield st, ('next',); return
		for s, v in self.ev(n.value, st):
			yield s, (('raise', v) if isinstance(v, Exc) else ('next',))
	def s_Return(self, n, st):
		if n.value is None:
			yield st, ('return', None); return
		for s, v in self.ev(n.value, st):
			yield s, (('raise', v) if isinstance(v, Exc) else ('return', v))
	def s_Raise(self, n, st):
		yield st, ('raise', Exc(ast.unparse(n)))
	def s_FunctionDef(self, n, st):
		if n.decorator_list:
			raise Unsupported('decorated inner function')
		c = Clo(n, st.env)
		s = st.set(n.name, c)
		c.env = s.env
		yield s, ('next',)
	def s_Assert(self, n, st):
		for s, v in self.ev(n.test, st):
			if isinstance(v, Exc): yield s, ('raise', v); continue
			for s2, b in self.truth(s, v):
				yield s2, (('next',) if b else ('raise', Exc('AssertionError')))
	def s_If(self, n, st):
		for s, v in self.ev(n.test, st):
			if isinstance(v, Exc): yield s, ('raise', v); continue
			for s2, b in self.truth(s, v):
				yield from self.block(n.body if b else n.orelse, s2)
	def s_Assign(self, n, st):
		for s, v in self.ev(n.value, st):
			if isinstance(v, Exc): yield s, ('raise', v); continue
			yield from self.assign_all(n.targets, s, v)
	def s_AnnAssign(self, n, st):
		if n.value is None: yield st, ('next',); return
		for s, v in self.ev(n.value, st):
			if isinstance(v, Exc): yield s, ('raise', v); continue
			yield from self.assign_all([n.target], s, v)
	def s_AugAssign(self, n, st):
		e = ast.BinOp(left=ast.copy_location(ast.parse(ast.unparse(n.target), mode='eval').body, n), op=n.op, right=n.value)
		for s, v in self.ev(e, st):
			if isinstance(v, Exc): yield s, ('raise', v); continue
			yield from self.assign_all([n.target], s, v)
	def assign_all(self, ts, s, v):
		if not ts:
			yield s, ('next',); return
		for s2, o in self.assign(ts[0], s, v):
			if o[0] == 'next': yield from self.assign_all(ts[1:], s2, v)
			else: yield s2, o
	def assign(self, t, s, v):
		if isinstance(t, ast.Name):
			yield s.set(t.id, v), ('next',)
		elif isinstance(t, (ast.Tuple, ast.List)):
			if not isinstance(v, Tup) or len(v.v) != len(t.elts) or any(isinstance(x, ast.Starred) for x in t.elts):
				raise Unsupported('unpacking')
			def go(i, s):
				if i == len(t.elts): yield s, ('next',); return
				for s2, o in self.assign(t.elts[i], s, v.v[i]):
					if o[0] == 'next': yield from go(i + 1, s2)
					else: yield s2, o
			yield from go(0, s)
		elif isinstance(t, ast.Attribute):
			for s2, o in self.ev(t.value, s):
				if isinstance(o, Exc): yield s2, ('raise', o); continue
				if not isinstance(o, Ref) or not isinstance(s2.get(o), Rec): raise Unsupported('attribute store')
				r = s2.get(o).copy(); r.f[t.attr] = v
				yield s2.put(o, r), ('next',)
		elif isinstance(t, ast.Subscript):
			for s2, (o, k) in self.ev2(t.value, t.slice, s):
				if isinstance(o, Exc): yield s2, ('raise', o); continue
				if isinstance(o, Ref) and isinstance(s2.get(o), Dict):
					d = s2.get(o).copy()
					kt = key_term(k)
					if kt.sort() != d.dom.sort().domain(): raise Unsupported('key sort')
					d.dom = z3.Store(d.dom, kt, True); d.val = z3.Store(d.val, kt, self.unwrap(v))
					yield s2.put(o, d), ('next',)
				else:
					raise Unsupported('subscript store')
		else:
			raise Unsupported('assignment target')
	def unwrap(self, v):
		if isinstance(v, (Op, Int, Bool)): return v.t
		raise Unsupported(f'storing {type(v).__name__} in a dictionary')
	def s_Delete(self, n, st): raise Unsupported('del')
	def s_Break(self, n, st): yield st, ('break',)
	def s_Continue(self, n, st): yield st, ('continue',)

	def s_Try(self, n, st):
		if n.finalbody: raise Unsupported('finally')
		for s, o in self.block(n.body, st):
			if o[0] != 'raise':
				if o[0] == 'next' and n.orelse: yield from self.block(n.orelse, s)
				else: yield s, o
				continue
			what = o[1].what
			for h in n.handlers:
				names = None if h.type is None else [x.id for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]) if isinstance(x, ast.Name)]
				if names is None or 'Exception' in names or 'BaseException' in names or what.split('(')[0].split(' ')[-1] in names or ('LookupError' in names and what == 'KeyError'):
					s2 = s.set(h.name, Op(fresh(name='exc'))) if h.name else s
					yield from self.block(h.body, s2)
					break
			else:
				yield s, o

	def s_For(self, n, st):
		for s, it in self.ev(n.iter, st):
			if isinstance(it, Exc): yield s, ('raise', it); continue
			if isinstance(it, Tup):
				yield from self.unrolled(n, s, list(it.v))
			elif isinstance(it, Ref) and isinstance(s.get(it), List):
				yield from self.search_loop(n, s, s.get(it))
			elif isinstance(it, Range) and self.invariants:
				yield from self.counting_loop(n, s, it.n)
			elif isinstance(it, Range):
				yield from self.search_loop(n, s, List(z3.If(it.n > 0, it.n, z3.IntVal(0)), lambda i: Int(i)))
			elif isinstance(it, Sem):
				yield from it.iterate(self, s, n)
			else:
				raise Unsupported(f'loop over {type(it).__name__}')

	def unrolled(self, n, st, items):
		if not items:
			if n.orelse: yield from self.block(n.orelse, st)
			else: yield st, ('next',)
			return
		for s0, o0 in self.assign(n.target, st, items[0]):
			for s, o in self.block(n.body, s0):
				if o[0] in ('next', 'continue'): yield from self.unrolled(n, s, items[1:])
				elif o[0] == 'break': yield s, ('next',)
				else: yield s, o

	def counting_loop(self, n, st, N):
		"""for i in range(N) with an invariant: established at 0, kept by the body at an arbitrary index, assumed at max(N, 0)"""
		assigned = {x.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
		inv = lambda s, i: self.invariants(s, i, assigned)
		self.obligations.append((st, inv(st, z3.IntVal(0)), 'loop invariant at entry'))
		i = fresh(z3.IntSort(), 'i')
		def havoc(s):
			for a in assigned: s = s.set(a, Op(fresh(name=a)))
			return s
		s0 = havoc(st).fork(0 <= i, i < N)
		s0 = s0.fork(inv(s0, i))
		for s1, o1 in self.assign(n.target, s0, Int(i)):
			for s, o in self.block(n.body, s1):
				if any(s.heap.get(k) is not v for k, v in st.heap.items()): raise Unsupported('loop body with effects on the heap')
				if o[0] in ('next', 'continue'): self.obligations.append((s, inv(s, i + 1), 'loop invariant preserved'))
				elif o[0] == 'break': yield s, ('next',)
				else: yield s, o
		s = havoc(st)
		end = z3.If(N > 0, N, z3.IntVal(0))
		s = s.fork(inv(s, end))
		for x in ast.walk(n.target):
			if isinstance(x, ast.Name): s = s.set(x.id, UNDEF)
		if n.orelse: yield from self.block(n.orelse, s)
		else: yield s, ('next',)

	def counted_while(self, n, st):
		"""while k > 0: ..; k -= 1 and while k < E: ..; k += 1 (one update of k, the last statement of the body): the counting loop over the index"""
		if n.orelse or not n.body: raise Unsupported('while')
		stores = lambda name: [x for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == name]
		t, last = n.test, n.body[-1]
		if isinstance(t, ast.Name): t = ast.Compare(t, [ast.Gt()], [ast.Constant(0)])
		if not (isinstance(t, ast.Compare) and len(t.ops) == 1): raise Unsupported('while')
		l, op, r = t.left, type(t.ops[0]), t.comparators[0]
		if not (isinstance(last, ast.AugAssign) and isinstance(last.target, ast.Name) and isinstance(last.value, ast.Constant) and last.value.value == 1): raise Unsupported('while')
		k = last.target.id
		if isinstance(r, ast.Name) and r.id == k: l, r, op = r, l, {ast.Lt: ast.Gt, ast.Gt: ast.Lt}.get(op, op)
		if not (isinstance(l, ast.Name) and l.id == k and len(stores(k)) == 1) or any(isinstance(x, (ast.Continue, ast.Break)) for b in n.body for x in ast.walk(b)): raise Unsupported('while')
		if any(isinstance(x, ast.Name) and stores(x.id) for x in ast.walk(r)): raise Unsupported('while')
		down = isinstance(last.op, ast.Sub)
		if not (op is ast.Gt and down or op is ast.Lt and isinstance(last.op, ast.Add)): raise Unsupported('while')
		k0 = st.env.get(k)
		for s, e in self.ev(r, st):
			if isinstance(k0, (int, Int)) and not isinstance(k0, bool) and isinstance(e, (int, Int)): pass
			else: raise Unsupported('while')
			a, b = (x.t if isinstance(x, Int) else z3.IntVal(x) for x in (k0, e))
			N = a - b if down else b - a
			i = f'_index{next(_n)}'
			at = lambda idx: Int(a - idx if down else a + idx)
			Counter = type('Counter' + i, (ast.stmt,), dict(_fields=()))
			loop = ast.For(target=ast.Name(i, ast.Store()), iter=ast.Name(i, ast.Load()), body=[Counter()] + n.body[:-1], orelse=[])
			def step(node, s): yield s.set(k, at(s.env[i].t)), ('next',)
			setattr(self, 's_' + Counter.__name__, step)
			for s2, o in self.counting_loop(loop, s, N):
				yield s2.set(k, at(z3.If(N > 0, N, z3.IntVal(0)))), o

	def s_While(self, n, st):
		"""Houdini: the first iteration is executed; the candidate invariants of the rule that hold after it and are kept by
		an arbitrary iteration are assumed at an arbitrary iteration. Termination: between two tests of one variable strictly grows."""
		rule = self.while_rule
		if rule is None and self.invariants:
			yield from self.counted_while(n, st)
			return
		if rule is None: raise Unsupported('while')
		assigned = sorted({x.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)})
		def test(s):
			for s1, v in self.ev(n.test, s):
				if isinstance(v, Exc): raise Unsupported('loop test raises')
				yield from self.truth(s1, v)
		def once(s):
			"""one pass: list of (kind, state[, outcome])"""
			for s1, b in test(s):
				if not b:
					yield 'exit', s1, None; continue
				for s2, o in self.block(n.body, s1):
					if any(s2.heap.get(k) is not v for k, v in st.heap.items()): raise Unsupported('loop body with effects on the heap')
					if o[0] in ('next', 'continue'): yield 'again', s2, None
					elif o[0] == 'break': yield 'broken', s2, ('next',)
					else: yield 'leave', s2, o
		def leave(k, s, o):
			if k == 'exit' and n.orelse: yield from self.block(n.orelse, s)
			elif k == 'exit': yield s, ('next',)
			else: yield s, o
		entries = []
		for k, s, o in list(once(st)):
			if k == 'again': entries.append(s)
			else: yield from leave(k, s, o)
		entries = [s for s in entries if self.feasible(s)]
		if not entries: return
		vars_ = [a for a in assigned if all(rule.tracks(s.env.get(a)) for s in entries)]
		cands = rule.candidates(st, vars_)
		cands = [c for c in cands if all(self.proves(s, c(s.env, rule.skolem))[0] == 'yes' for s in entries)]
		while True:
			s0 = St(st.pc, dict(st.env), st.heap)
			for a in assigned: s0 = s0.set(a, rule.havoc(a) if a in vars_ else UNDEF)
			fixed = s0
			for c in cands: s0 = s0.fork(c(s0.env, rule.skolem))
			passes = list(once(s0))
			keep = [c for c in cands if all(self.proves(s, c(s.env, rule.skolem))[0] == 'yes' for k, s, o in passes if k == 'again')]
			if len(keep) == len(cands): break
			cands = keep
		self.invariants_found = [c.label for c in cands]
		again = [s for k, s, o in passes if k == 'again' and self.feasible(s)]
		def grows(a):
			for s in again:
				for s1, b in test(s):
					if b and self.feasible(s1) and self.proves(s1, rule.grows(s0.env[a], s.env[a]))[0] != 'yes': return False
			return True
		self.terminates = not again or any(grows(a) for a in vars_)
		for k, s, o in passes:
			if k == 'again': continue
			for c in cands:
				for w in rule.instances(s, o, vars_, fixed): s = s.fork(c(fixed.env, w))
			yield from leave(k, s, o)

	def search_loop(self, n, st, L):
		i = fresh(z3.IntSort(), 'i')
		assigned = {x.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
		entry = st
		for a in assigned:
			if a in entry.env: entry = entry.set(a, UNDEF)    # the value left by an earlier iteration is not tracked
		mark = next(_n)
		s0 = entry.fork(0 <= i, i < L.n)
		paths = []
		for s1, o1 in self.assign(n.target, s0, L.at(i)):
			if o1[0] != 'next': raise Unsupported('loop target')
			paths += list(self.block(n.body, s1))
		base = len(s0.pc)
		falls, exits = [], []
		for s, o in paths:
			if o[0] in ('next', 'continue'):
				if any(s.heap.get(k) is not v for k, v in st.heap.items()) or set(s.heap) != set(st.heap):
					raise Unsupported('loop body with effects on the heap')
				falls.append(z3.And(*s.pc[base:]) if s.pc[base:] else z3.BoolVal(True))
			else:
				exits.append((s, o))
		fall = z3.Or(*falls) if falls else z3.BoolVal(False)
		for c in _consts(fall):
			if '!' in c.decl().name() and int(c.decl().name().rsplit('!', 1)[1]) > mark:
				raise Unsupported('loop body introduces values that depend on the iteration')
		j = z3.Int(f'j!{next(_n)}')
		def earlier(k): return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), z3.substitute(fall, (i, j))))
		for s, o in exits:
			s = s.fork(earlier(i))
			yield s, (('next',) if o[0] == 'break' else o)
		s = entry.fork(earlier(L.n))
		for a in assigned: s = s.set(a, UNDEF)
		if n.orelse: yield from self.block(n.orelse, s)
		else: yield s, ('next',)

	# ---- truth
	def truth(self, st, v):
		if isinstance(v, Bool):
			for b in (True, False):
				c = v.t if b else z3.Not(v.t)
				if self.feasible(st, c): yield st.fork(c), b
		elif v is None or isinstance(v, (bool, int, str)):
			yield st, bool(v)
		elif isinstance(v, Int):
			yield from self.truth(st, Bool(v.t != 0))
		elif isinstance(v, Tup):
			yield st, bool(v.v)
		elif isinstance(v, Ref) and isinstance(st.get(v), List):
			yield from self.truth(st, Bool(st.get(v).n != 0))
		elif isinstance(v, (Clo, Nat)):
			yield st, True
		elif isinstance(v, Sem):
			yield from v.truth(self, st)
		else:
			raise Unsupported(f'truth value of {type(v).__name__}')

	# ---- expressions: yield (state, value | Exc)
	def ev(self, n, st):
		m = getattr(self, 'e_' + type(n).__name__, None)
		if m is None:
			raise Unsupported('expression ' + type(n).__name__)
		yield from m(n, st)

	def ev2(self, a, b, st):
		for s, x in self.ev(a, st):
			if isinstance(x, Exc): yield s, (x, None); continue
			for s2, y in self.ev(b, s):
				if isinstance(y, Exc): yield s2, (y, None)
				else: yield s2, (x, y)

	def evs(self, ns, st):
		"""list of expressions (with stars): yields (state, [values] | Exc)"""
		if not ns:
			yield st, []; return
		h = ns[0]
		star = isinstance(h, ast.Starred)
		for s, v in self.ev(h.value if star else h, st):
			if isinstance(v, Exc): yield s, v; continue
			if star:
				if not isinstance(v, Tup): raise Unsupported('star argument')
				v = list(v.v)
			else: v = [v]
			for s2, r in self.evs(ns[1:], s):
				yield s2, (r if isinstance(r, Exc) else v + r)

	def e_Constant(self, n, st): yield st, n.value
	def e_Name(self, n, st):
		if n.id in st.env:
			v = st.env[n.id]
			if v is UNDEF: raise Unsupported(f'{n.id}: value left by a loop')
			yield st, v
		elif n.id in self.globs: yield st, self.globs[n.id]
		elif n.id in BUILTINS: yield st, BUILTINS[n.id]
		else: raise Unsupported(f'global {n.id}')
	def e_Lambda(self, n, st): yield st, Clo(n, st.env)
	def e_Tuple(self, n, st):
		for s, vs in self.evs(n.elts, st): yield s, (vs if isinstance(vs, Exc) else Tup(vs))
	def e_IfExp(self, n, st):
		for s, v in self.ev(n.test, st):
			if isinstance(v, Exc): yield s, v; continue
			for s2, b in self.truth(s, v): yield from self.ev(n.body if b else n.orelse, s2)
	def e_BoolOp(self, n, st):
		def go(vals, s):
			for s1, v in self.ev(vals[0], s):
				if isinstance(v, Exc) or len(vals) == 1: yield s1, v; continue
				for s2, b in self.truth(s1, v):
					if b == isinstance(n.op, ast.And): yield from go(vals[1:], s2)
					else: yield s2, v
		yield from go(n.values, st)
	def e_UnaryOp(self, n, st):
		for s, v in self.ev(n.operand, st):
			if isinstance(v, Exc): yield s, v
			elif isinstance(n.op, ast.Not):
				if isinstance(v, Bool): yield s, Bool(z3.Not(v.t))
				else:
					for s2, b in self.truth(s, v): yield s2, not b
			elif isinstance(n.op, ast.USub) and isinstance(v, (int, Int)): yield s, (-v if isinstance(v, int) else Int(-v.t))
			elif isinstance(n.op, ast.UAdd) and isinstance(v, (int, Int)) and not isinstance(v, bool): yield s, v
			elif isinstance(v, Sem): yield from v.unary(self, s, type(n.op))
			else: raise Unsupported('unary')
	def e_BinOp(self, n, st):
		for s, (a, b) in self.ev2(n.left, n.right, st):
			if isinstance(a, Exc): yield s, a; continue
			if isinstance(a, Tup) and isinstance(b, Tup) and isinstance(n.op, ast.Add): yield s, Tup(a.v + b.v); continue
			if isinstance(a, str) and isinstance(b, str) and isinstance(n.op, ast.Add): yield s, a + b; continue
			if isinstance(a, Sem) or isinstance(b, Sem):
				yield from (a if isinstance(a, Sem) else b).bin(self, s, type(n.op), a, b); continue
			if self.binop and not (isinstance(a, int) and isinstance(b, int)):
				r = self.binop(self, s, type(n.op), a, b)
				if r is not None: yield s, r; continue
			if not isinstance(a, (int, Int)) or not isinstance(b, (int, Int)):
				raise Unsupported('arithmetic on ' + type(a).__name__)
			x, y = (v.t if isinstance(v, Int) else v for v in (a, b))
			f = {ast.Add: lambda: x + y, ast.Sub: lambda: x - y, ast.Mult: lambda: x * y}.get(type(n.op))
			if type(n.op) in (ast.FloorDiv, ast.Mod) and isinstance(y, int) and y > 0:
				f = (lambda: x // y if isinstance(x, int) else x / y) if type(n.op) is ast.FloorDiv else (lambda: x % y)
			if not f: raise Unsupported('operator')
			r = f()
			yield s, (r if isinstance(r, int) else Int(r))
	def e_Compare(self, n, st):
		if len(n.ops) != 1:
			if not all(isinstance(c, (ast.Name, ast.Constant)) for c in n.comparators[:-1]): raise Unsupported('chained comparison')
			parts = [ast.Compare(l, [o], [r]) for l, o, r in zip([n.left] + n.comparators[:-1], n.ops, n.comparators)]
			yield from self.ev(ast.BoolOp(ast.And(), parts), st); return
		for s, (a, b) in self.ev2(n.left, n.comparators[0], st):
			if isinstance(a, Exc): yield s, a; continue
			yield from self.compare(type(n.ops[0]), a, b, s)
	def compare(self, op, a, b, s):
		neg = op in (ast.NotEq, ast.IsNot, ast.NotIn)
		if op in (ast.In, ast.NotIn) and isinstance(b, Sem):
			for s2, v in b.contains(self, s, a):
				if not neg: yield s2, v
				else:
					for s3, t in self.truth(s2, v): yield s3, not t
			return
		if (isinstance(a, Sem) or isinstance(b, Sem)) and op not in (ast.In, ast.NotIn):
			yield from (a if isinstance(a, Sem) else b).compare(self, s, op, a, b); return
		if op in (ast.In, ast.NotIn):
			if isinstance(b, Ref) and isinstance(s.get(b), Dict):
				t = z3.Select(s.get(b).dom, key_term(a))
			elif isinstance(b, Tup):
				t = z3.Or(*[self.eq(a, x) for x in b.v])
			else: raise Unsupported('in')
			yield s, Bool(z3.Not(t) if neg else t); return
		if op in (ast.Is, ast.IsNot, ast.Eq, ast.NotEq):
			if (a is None or b is None) and not (isinstance(a, Op) or isinstance(b, Op)):
				yield s, ((a is b) != neg); return
			t = self.eq(a, b)
			yield s, Bool(z3.Not(t) if neg else t); return
		if isinstance(a, (int, Int)) and isinstance(b, (int, Int)):
			x, y = (v.t if isinstance(v, Int) else v for v in (a, b))
			r = {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[op]()
			yield s, (r if isinstance(r, bool) else Bool(r)); return
		raise Unsupported('comparison')
	def eq(self, a, b):
		if a is None: a = Op(NONE)
		if b is None: b = Op(NONE)
		if isinstance(a, Ref) and isinstance(b, Ref): return z3.BoolVal(a.i == b.i)
		x, y = key_term(a), key_term(b)
		if x.sort() != y.sort(): raise Unsupported('equality of different kinds')
		return x == y
	def e_Subscript(self, n, st):
		for s, (o, k) in self.ev2(n.value, n.slice, st):
			if isinstance(o, Exc): yield s, o; continue
			yield from self.subscript(s, o, k)
	def e_Slice(self, n, st):
		def part(x, s):
			if x is None: yield s, None
			else: yield from self.ev(x, s)
		for s, a in part(n.lower, st):
			for s, b in part(n.upper, s):
				for s, c in part(n.step, s): yield s, slice(a, b, c)
	def e_List(self, n, st): yield from self.e_Tuple(n, st)
	def subscript(self, s, o, k):
		if isinstance(o, Sem): yield from o.item(self, s, k); return
		if isinstance(o, Tup) and isinstance(k, int):
			yield s, (o.v[k] if -len(o.v) <= k < len(o.v) else Exc('IndexError')); return
		if isinstance(o, Ref):
			h = s.get(o)
			if isinstance(h, Dict):
				kt = key_term(k)
				if kt.sort() != h.dom.sort().domain(): raise Unsupported('key sort')
				d = z3.Select(h.dom, kt)
				if self.feasible(s, d): yield s.fork(d), h.wrap(z3.Select(h.val, kt))
				if self.feasible(s, z3.Not(d)): yield s.fork(z3.Not(d)), Exc('KeyError')
				return
			if isinstance(h, List) and isinstance(k, (int, Int)):
				t = k.t if isinstance(k, Int) else z3.IntVal(k)
				i = z3.If(t < 0, t + h.n, t)
				ok = z3.And(0 <= i, i < h.n)
				if self.feasible(s, ok): yield s.fork(ok), h.at(i)
				if self.feasible(s, z3.Not(ok)): yield s.fork(z3.Not(ok)), Exc('IndexError')
				return
		raise Unsupported('subscript')
	def e_Attribute(self, n, st):
		for s, o in self.ev(n.value, st):
			if isinstance(o, Exc): yield s, o; continue
			yield from self.attribute(s, o, n.attr)
	def attribute(self, s, o, a):
		if isinstance(o, Sem): yield from o.attr(self, s, a); return
		if isinstance(o, Op) and a in self.opaque:
			yield s, self.opaque[a](self, s, o); return
		if isinstance(o, Ref):
			h = s.get(o)
			if isinstance(h, Rec):
				if a in h.f: yield s, h.f[a]; return
				if a in h.methods:
					yield s, Nat(lambda m, s, args, kw, f=h.methods[a], o=o: f(m, s, [o] + args, kw), a); return
				g = inspect.getattr_static(h.cls, a, None) if h.cls else None
				if inspect.isfunction(g) or isinstance(g, staticmethod):     # no contract: inlined
					c = Clo(self.source(g), {})
					yield s, Nat(lambda m, s, args, kw, c=c, o=[] if isinstance(g, staticmethod) else [o]: m.call_function(c, s, o + args, kw), a); return
				raise Unsupported(f'attribute {a}')
			if isinstance(h, Dict) and a in ('get', 'clear', 'setdefault', 'pop') or isinstance(h, List) and a in ('insert', 'append'):
				yield s, Nat(lambda m, s, args, kw, o=o, a=a: container(m, s, o, a, args, kw), a); return
		raise Unsupported(f'attribute {a} of {type(o).__name__}')
	def first(self, n, st):
		"""next(e for t in it if c), any(..) and all(..): the search loop that returns at the first hit"""
		kind, gen = n.func.id, n.args[0]
		if len(gen.generators) != 1 or n.keywords: raise Unsupported(kind)
		g = gen.generators[0]
		if kind != 'next':
			its = list(self.ev(g.iter, st))
			if its and all(isinstance(it, Sem) for s, it in its):
				for s, it in its:
					x, v, dom, _ = it.each()
					s1 = s.fork(dom)
					for s1, _ in self.assign(g.target, s1, v):
						c = self.formula(ast.BoolOp(ast.And(), g.ifs) if len(g.ifs) > 1 else g.ifs[0] if g.ifs else ast.Constant(True), s1)
						e = self.formula(gen.elt, s1.fork(c))
						yield s, Bool(z3.Exists([x], z3.And(dom, c, e)) if kind == 'any' else z3.ForAll([x], z3.Implies(z3.And(dom, c), e)))
				return
		hit = ast.Return(gen.elt) if kind == 'next' else ast.If(gen.elt if kind == 'any' else ast.UnaryOp(ast.Not(), gen.elt), [ast.Return(ast.Constant(kind == 'any'))], [])
		body = [hit]
		for c in reversed(g.ifs): body = [ast.If(c, body, [])]
		loop = ast.For(target=g.target, iter=g.iter, body=body, orelse=[])
		end = (ast.Return(n.args[1]) if len(n.args) > 1 else None) if kind == 'next' else ast.Return(ast.Constant(kind == 'all'))
		saved = st.env
		for s, o in self.block([loop] + ([end] if end else []), st):
			if o[0] == 'return': yield s.at(saved), o[1]
			elif o[0] == 'raise': yield s.at(saved), o[1]
			elif o[0] == 'next' and not end: yield s.at(saved), Exc('StopIteration')
			else: raise Unsupported(kind)
	def e_Call(self, n, st):
		if isinstance(n.func, ast.Name) and n.func.id in ('next', 'any', 'all') and n.func.id not in st.env and n.func.id not in self.globs and n.args and isinstance(n.args[0], ast.GeneratorExp):
			yield from self.first(n, st)
			return
		for s, f in self.ev(n.func, st):
			if isinstance(f, Exc): yield s, f; continue
			# generator argument to tuple / list / any / all
			for s2, vs in self.evs(n.args, s):
				if isinstance(vs, Exc): yield s2, vs; continue
				if any(k.arg is None for k in n.keywords): raise Unsupported('** arguments')
				def kws(ks, s, acc):
					if not ks: yield s, acc; return
					for s3, v in self.ev(ks[0].value, s):
						if isinstance(v, Exc): yield s3, v
						else: yield from kws(ks[1:], s3, {**acc, ks[0].arg: v})
				for s3, kw in kws(n.keywords, s2, {}):
					if isinstance(kw, Exc): yield s3, kw
					else: yield from self.apply(s3, f, vs, kw)
	def apply(self, s, f, args, kw):
		if isinstance(f, Nat):
			yield from f.f(self, s, list(args), kw)
		elif isinstance(f, Clo):
			yield from self.call_function(f, s, args, kw)
		elif isinstance(f, Sem):
			yield from f.call(self, s, list(args), kw)
		elif isinstance(f, Op) and self.call_opaque:
			if kw: raise Unsupported('keyword call of an opaque value')
			yield from self.call_opaque(self, s, f, list(args))
		else:
			raise Unsupported(f'call of {type(f).__name__}')
	def formula(self, n, st):
		"""one formula for a condition without effects on an arbitrary element"""
		start, out = next(_n), []
		for s, v in self.ev(n, st):
			if isinstance(v, Exc) or any(s.heap.get(k) is not h for k, h in st.heap.items()): raise Unsupported('condition of a comprehension')
			for s2, b in self.truth(s, v):
				if b: out.append(z3.And(z3.BoolVal(True), *s2.pc[len(st.pc):]))
		f = z3.Or(z3.BoolVal(False), *out)
		todo, seen = [f], set()
		while todo:
			t = todo.pop()
			if t.get_id() in seen: continue
			seen.add(t.get_id())
			if z3.is_quantifier(t): todo.append(t.body()); continue
			if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and '!' in t.decl().name() and t.decl().name().rsplit('!', 1)[1].isdigit() and int(t.decl().name().rsplit('!', 1)[1]) > start: raise Unsupported('a choice per element')
			todo += t.children()
		return f
	def e_GeneratorExp(self, n, st): yield from self.comp(n, st)
	def e_ListComp(self, n, st): yield from self.comp(n, st)
	def comp(self, n, st):
		if len(n.generators) != 1: raise Unsupported('comprehension')
		g = n.generators[0]
		for s, it in self.ev(g.iter, st):
			if isinstance(it, Exc): yield s, it; continue
			if isinstance(it, Sem):
				x, v, dom, build = it.each()
				for s1, _ in self.assign(g.target, s.fork(dom), v):
					c = self.formula(ast.BoolOp(ast.And(), g.ifs) if len(g.ifs) > 1 else g.ifs[0] if g.ifs else ast.Constant(True), s1)
					es = list(self.ev(n.elt, s1.fork(c)))
					if len(es) != 1 or len(es[0][0].pc) != len(s1.pc) + 1: raise Unsupported('comprehension')
					yield s, build(x, c, es[0][1])
				continue
			if g.ifs: raise Unsupported('comprehension')
			if isinstance(it, Ref) and isinstance(s.get(it), List):
				# elementwise: one case per path
				l, i = s.get(it), fresh(z3.IntSort(), 'i')
				r = None
				for s1, _ in self.assign(g.target, s.fork(0 <= i, i < l.n), l.at(i)):
					for s2, v in self.ev(n.elt, s1):
						if isinstance(v, (Exc, bool)) or not isinstance(v, (int, Int)) or any(s2.heap.get(k) is not h for k, h in s.heap.items()): raise Unsupported('comprehension over a list')
						t = v.t if isinstance(v, Int) else z3.IntVal(v)
						r = t if r is None else z3.If(z3.And(z3.BoolVal(True), *s2.pc[len(s1.pc):]), t, r)
				if r is None: raise Unsupported('comprehension over a list')
				yield s.new(List(l.n, lambda x, r=r, i=i: Int(z3.substitute(r, (i, x)))))
				continue
			if not isinstance(it, Tup): raise Unsupported('comprehension over a symbolic sequence')
			def go(items, s):
				if not items: yield s, []; return
				saved = s.env
				for s1, o in self.assign(g.target, s, items[0]):
					for s2, v in self.ev(n.elt, s1):
						if isinstance(v, Exc): yield s2.at(saved), v; continue
						for s3, r in go(items[1:], s2.at(saved)):
							yield s3, (r if isinstance(r, Exc) else [v] + r)
			for s2, r in go(list(it.v), s):
				yield s2, (r if isinstance(r, Exc) else Tup(r))


NONE = z3.Const('None', V)


def container(m, s, o, a, args, kw):
	h = s.get(o)
	if isinstance(h, Dict):
		if a == 'clear':
			d = h.copy(); d.dom = z3.K(d.dom.sort().domain(), z3.BoolVal(False))
			yield s.put(o, d), None
		elif a == 'get':
			for s2, v in m.subscript(s, o, args[0]):
				yield s2, ((args[1] if len(args) > 1 else None) if isinstance(v, Exc) else v)
		elif a == 'setdefault' and len(args) == 2:
			for s2, v in m.subscript(s, o, args[0]):
				if not isinstance(v, Exc): yield s2, v; continue
				d = h.copy(); k = key_term(args[0])
				d.dom = z3.Store(d.dom, k, True); d.val = z3.Store(d.val, k, m.unwrap(args[1]))
				yield s2.put(o, d), args[1]
		else: raise Unsupported('dict.' + a)
	else:
		n, at = h.n, h.at
		if a == 'append' and len(args) == 1:
			p, x = n, args[0]
		elif a == 'insert' and len(args) == 2:
			p, x = args
			p = p.t if isinstance(p, Int) else z3.IntVal(p)
			p = z3.If(p < 0, z3.If(p + n < 0, z3.IntVal(0), p + n), z3.If(p > n, n, p))
		else: raise Unsupported('list.' + a)
		def new(i, at=at, p=p, x=x): return ite(i < p, at(i), ite(i == p, x, at(i - 1)))
		yield s.put(o, List(n + 1, new)), None


def ite(c, a, b):
	if isinstance(a, Tup): return Tup(ite(c, x, y) for x, y in zip(a.v, b.v))
	if isinstance(a, Op) and isinstance(b, Op): return Op(z3.If(c, a.t, b.t))
	raise Unsupported('conditional value')


def _map(m, s, args, kw):
	if len(args) != 2 or not isinstance(args[1], Tup): raise Unsupported('map')
	def go(items, s):
		if not items: yield s, []; return
		for s1, v in m.apply(s, args[0], [items[0]], {}):
			if isinstance(v, Exc): yield s1, v; continue
			for s2, r in go(items[1:], s1): yield s2, (r if isinstance(r, Exc) else [v] + r)
	for s2, r in go(list(args[1].v), s): yield s2, (r if isinstance(r, Exc) else Tup(r))

def _len(m, s, args, kw):
	v = args[0]
	if isinstance(v, Tup): yield s, len(v.v)
	elif isinstance(v, Ref) and isinstance(s.get(v), List): yield s, Int(s.get(v).n)
	else: raise Unsupported('len')

def _tuple(m, s, args, kw):
	if not args: yield s, Tup(())
	elif isinstance(args[0], Tup): yield s, args[0]
	else: raise Unsupported('tuple')

def _getattr(m, s, args, kw):
	if len(args) != 2 or not isinstance(args[1], str): raise Unsupported('getattr')
	yield from m.attribute(s, args[0], args[1])

_str_f = z3.Function('str', V, V)
def _str(m, s, args, kw):
	if isinstance(args[0], Op): yield s, Op(_str_f(args[0].t))
	else: raise Unsupported('str')

def _range(m, s, args, kw):
	if len(args) != 1 or not isinstance(args[0], (int, Int)): raise Unsupported('range')
	yield s, Range(args[0].t if isinstance(args[0], Int) else z3.IntVal(args[0]))

BUILTINS = dict(map=Nat(_map), range=Nat(_range), len=Nat(_len), tuple=Nat(_tuple), list=Nat(_tuple), getattr=Nat(_getattr), str=Nat(_str), Exception=Nat(lambda m, s, a, k: iter([(s, Op(fresh(name='E')))])))


def _consts(t, seen=None):
	seen = set() if seen is None else seen
	if t.get_id() in seen: return
	seen.add(t.get_id())
	if z3.is_quantifier(t):
		yield from _consts(t.body(), seen); return
	if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED: yield t
	for c in t.children(): yield from _consts(c, seen)


def discharge(led, contract, m, st, goal, what, axioms=(), backend='z3'):
	"""one obligation; refuted ones are collected by the caller through led.pending"""
	import time
	t0 = time.process_time()
	r, info = m.proves(st, goal, axioms)
	led.seconds[backend] += time.process_time() - t0
	if r == 'yes':
		led.ok(contract, backend)
		return True
	led.open[contract, f'{what}: {"refuted" if r == "no" else "unknown"}'[:160]] += 1
	if r == 'no':
		led.refuted.append(dict(contract=contract, what=f'{what}: refuted by z3', no_input=True, model=str(info)[:1500], task=led.task, kind='proof'))
	return False


def covered(led, contract, m, st):
	"""vacuity guard: the path is satisfiable (as far as the solver can tell)"""
	if m.feasible(st): led.cover(f'{contract}: paths')
