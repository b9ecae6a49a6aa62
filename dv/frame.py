"""Engine F: frame conditions of every function of numga, from the source in /repo, for all inputs, shapes and histories.

Ownership analysis of the AST. Contract of every function: it assigns nothing that existed before the call, except the fields of the
object an __init__ constructs and the caches named in CACHES (each of which has an invariant of its own). An abstract value is
  own     regions its storage may belong to (empty: allocated by this activation)
  deep    regions anything reachable from it may belong to (contains own)
  fields  for objects constructed in this activation, the values of their attributes
Regions are the parameters, the enclosing scope and 'shared' (results of cached functions, globals, results of unknown calls).
Every store, augmented assignment, deletion, in-place method or out= argument gives one obligation: the region of its target is empty.
A call to a function of the package obeys the same contract (assigns nothing), and its result may be anything reachable from its
arguments or shared, unless the body (all bodies of that name, when the receiver is not known) shows more: then results are evaluated by inlining, to a fixed depth.

Assumed: numpy/jax/torch/einops functions not listed as in-place assign nothing; the listed allocators return new storage."""
import ast, os, sys
import dv.env as env

FRESH_FN = set('''zeros zeros_like ones ones_like empty empty_like full full_like arange linspace eye identity array where concatenate stack einsum sqrt exp log abs cos sin cosh sinh arctan arctan2 arccos arcsinh
pow prod sum mean cumsum dot matmul tensordot multiply add subtract nonzero flatnonzero argwhere argsort sort unique lexsort isin isnan isfinite logical_or logical_xor logical_and logical_not any all min max argmin argmax
take take_along_axis repeat tile outer kron bitwise_xor bitwise_and bitwise_or invert power sign count_nonzero diag_indices indices meshgrid packbits unpackbits char inv solve pinv lstsq det equal not_equal clip minimum maximum
len int float bool str repr tuple list dict set frozenset sorted range zip enumerate map filter sum abs divmod min max any all isinstance issubclass hasattr hash id type callable format bytes round product permutations combinations chain accumulate
deepcopy clone fromiter frombuffer_copy copy indices_of group_by iscomplexobj result_type can_cast dtype ndim size print input_output broadcast_shapes full_matrices complex128 float64 int8 uint8 int64 uint64 nan_to_num'''.split())
# containers built from their arguments: the container is new, its elements are not
SHALLOW = set('tuple list dict set frozenset sorted zip enumerate map filter chain product permutations combinations broadcast_arrays_list reversed'.split())
SCALARS = set('len int float bool str repr range hash id isinstance issubclass hasattr callable format round any all print broadcast_shapes result_type can_cast'.split())
FRESH_METHOD = set('copy astype sum mean prod min max argmin argmax any all nonzero argsort cumsum dot tobytes tolist clone item repeat round join split format replace strip lstrip rstrip startswith endswith upper lower index count encode decode isalpha isdigit isnumeric bit_length bit_count clip'.split())
INPLACE_METHOD = set('append extend insert pop clear update sort setflags fill remove setdefault __setitem__ __setattr__ __delitem__ itemset resize popitem discard put byteswap_ partition reverse_ difference_update intersection_update symmetric_difference_update appendleft popleft'.split())
INPLACE_FN = dict(copyto=0, put=0, place=0, putmask=0, fill_diagonal=0, put_along_axis=0, setattr=0, delattr=0, shuffle=0, heappush=0, heappop=0)
EXTERNAL = {'np', 'numpy', 'jnp', 'jax', 'torch', 'npi', 'numpy_indexed', 'math', 'itertools', 'functools', 'einops', 'operator_', 'abc', 'warnings', 're', 'string'}
# caches: (class, attribute) -> where its invariant is established
CACHES = {('ConcreteOperatorFactory', 'cache'): 'C19 operator cache', ('FlyweightFactory', 'flyweight_pool'): 'C03 one object per set',
          ('DynamicDispatch', 'cache'): 'C17', ('DynamicDispatch', 'options'): 'C17'}
AMBIENT = {'random', 'time', 'datetime', 'secrets', 'uuid', 'environ', 'getenv', 'urandom', 'perf_counter', 'monotonic', 'gc', 'weakref', 'ctypes', 'threading'}
ARRAYS = {'values', 'kernel', 'blades', 'arr', 'data'}      # attributes and parameters that hold arrays of the backend
E = frozenset()
SH = frozenset(('shared',))


class Val:
	__slots__ = ('own', 'deep', 'fields', 'fn', 'none')
	def __init__(self, own=E, deep=E, fields=None, fn=None, none=None):
		self.own, self.deep, self.fields, self.fn = own, deep | own, fields, fn
		self.none = none        # True: the constant None, False: not None
	def join(self, o):
		if self is o: return self
		f = None
		for a, b in ((self, o), (o, self)):
			if a.fields is None and not a.deep and b.fields: return Val(b.own, b.deep, {k: v.join(NEW) for k, v in b.fields.items()})
		if self.fields is not None and o.fields is not None: f = {k: (self.fields[k].join(o.fields[k]) if k in self.fields and k in o.fields else Val(self.deep | o.deep, self.deep | o.deep)) for k in set(self.fields) | set(o.fields)}
		return Val(self.own | o.own, self.deep | o.deep, f, self.fn if self.fn is o.fn else None, self.none if self.none is o.none else None)
	def key(self): return (self.own, self.deep, None if self.fields is None else tuple(sorted((k, v.key()) for k, v in self.fields.items())), id(self.fn) if self.fn else 0, self.none)
NEW = Val()
def alias(*vs):
	d = frozenset().union(*(v.deep for v in vs)) if vs else E
	return Val(d, d)
def join(vs):
	vs = list(vs)
	r = vs[0] if vs else NEW
	for v in vs[1:]: r = r.join(v)
	return r


class Fn:
	def __init__(self, node, module, cls, outer=None):
		self.node, self.module, self.cls, self.outer = node, module, cls, outer
		self.name = getattr(node, 'name', '<lambda>')
		decs = [d.func if isinstance(d, ast.Call) else d for d in getattr(node, 'decorator_list', [])]
		self.decorators = [d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else '?' for d in decs]
		self.property = any(d in ('property', 'cached_property') for d in self.decorators)
		self.shared = any('cache' in d for d in self.decorators)
		self.static = 'staticmethod' in self.decorators
	@property
	def qual(self): return f"{self.module}:{self.cls + '.' if self.cls else ''}{(self.outer.name + '.<locals>.') if self.outer else ''}{self.name}" + (f' (line {self.node.lineno})' if self.name == '<lambda>' else '')


class Package:
	def __init__(self, repo):
		self.functions, self.by_name, self.classes, self.modules = [], {}, {}, []
		root = os.path.join(repo, 'numga')
		for d, ds, fs in os.walk(root):
			ds[:] = sorted(x for x in ds if x not in ('examples', 'test', 'tests', '__pycache__', 'benchmark'))
			for f in sorted(fs):
				if f.endswith('.py') and not f.startswith('test_') and not f.startswith('conftest'):
					p = os.path.join(d, f)
					m = os.path.relpath(p, repo)[:-3].replace(os.sep, '.')
					t = ast.parse(open(p).read())
					self.modules.append((m, t))
					self.collect(t, m, None, None)
	def collect(self, node, m, cls, outer):
		for c in ast.iter_child_nodes(node):
			if isinstance(c, ast.ClassDef):
				self.classes[c.name] = [b.id if isinstance(b, ast.Name) else getattr(b, 'attr', '?') for b in c.bases]
				self.collect(c, m, c.name, None)
			elif isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
				f = Fn(c, m, cls, outer)
				self.functions.append(f)
				if outer is None: self.by_name.setdefault(c.name, []).append(f)
				for d in c.decorator_list + c.args.defaults: self.lambdas(d, m, cls)
				self.collect(c, m, cls, f)
			elif outer is None and isinstance(c, (ast.stmt, ast.expr)) and not isinstance(c, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
				self.lambdas(c, m, cls)
			else:
				self.collect(c, m, cls, outer)
	def lambdas(self, node, m, cls):
		for x in ast.walk(node):
			if isinstance(x, ast.Lambda): self.functions.append(Fn(x, m, cls))
	def family(self, cls):
		"""the class, its bases and all classes derived from it"""
		up, todo = set(), [cls]
		while todo:
			c = todo.pop()
			if c not in up: up.add(c); todo += self.classes.get(c, [])
		down, more = {cls}, True
		while more:
			new = {c for c, bs in self.classes.items() if c not in down and set(bs) & down}
			down |= new; more = bool(new)
		return up | down
	def cache_of(self, cls, attr):
		seen, todo = set(), [cls]
		while todo:
			c = todo.pop()
			if c in seen or c is None: continue
			seen.add(c)
			if (c, attr) in CACHES: return CACHES[c, attr]
			todo += self.classes.get(c, [])


class Analysis:
	"""one activation of one function on abstract arguments"""
	def __init__(self, pkg, depth=9):
		self.pkg, self.depth, self.stack = pkg, depth, []
		self.memo = {}

	# ---- a function under its own contract: arbitrary arguments
	def verify(self, fn, captured=None):
		sites = []
		a = fn.node.args
		names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
		args = {}
		# a parameter whose default is a number is a number: no storage to share
		numbers = {x.arg for x, d in list(zip((a.posonlyargs + a.args)[::-1], a.defaults[::-1])) + list(zip(a.kwonlyargs, a.kw_defaults)) if isinstance(d, ast.Constant) and isinstance(d.value, (int, float))}
		for i, x in enumerate(names):
			r = frozenset((x,)) if x not in numbers else E
			if fn.name in ('__init__', '__new__') and i == 0 and fn.cls: args[x] = Val(E, E, {})
			elif a.vararg and x == a.vararg.arg or a.kwarg and x == a.kwarg.arg: args[x] = Val(E, r)
			else: args[x] = Val(r, r)
		Activation(self, fn, args, sites, None).run()
		return sites

	def result(self, fn, args):
		"""abstract result of a call (None: too deep or recursive)"""
		if fn.shared: return Val(SH, SH)
		k = (id(fn), tuple(sorted((n, v.key()) for n, v in args.items())))
		if k in self.memo: return self.memo[k]
		if len(self.stack) >= self.depth or id(fn) in self.stack: return None
		self.stack.append(id(fn))
		try:
			r = Activation(self, fn, args, None, None).run()
		finally:
			self.stack.pop()
		self.memo[k] = r
		return r


class Activation:
	def __init__(self, an, fn, args, sites, env_):
		self.an, self.fn, self.sites = an, fn, sites
		self.env = dict(env_ or {})
		self.env.update(args)
		self.locals = {n.id for n in ast.walk(fn.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
		self.args, self.ret = args, []
		self.nonlocals = {x for n in ast.walk(fn.node) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
		self.gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(fn.node))

	def run(self):
		b = self.fn.node.body
		if isinstance(b, list):
			self.block(b)
		else:
			self.ret.append(self.ev(b))
		r = join(self.ret) if self.ret else NEW
		if self.gen: r = Val(E, r.deep)
		return r

	def site(self, n, what, target, text):
		if self.sites is None: return
		reg = sorted(target.own)
		self.sites.append((self.fn.qual, n.lineno, what, text, reg))

	# ---- statements
	def block(self, body):
		for s in body: self.stmt(s)
	def branch(self, *bodies):
		e0 = self.env
		outs = []
		for b in bodies:
			self.env = dict(e0)
			self.block(b)
			outs.append(self.env)
		self.env = {k: join([o[k] for o in outs if k in o]) for k in set().union(*outs)}
	def loop(self, body):
		for _ in range(4):
			k = {n: v.key() for n, v in self.env.items()}
			keep, self.sites = self.sites, None
			self.branch(body, [])
			self.sites = keep
			if {n: v.key() for n, v in self.env.items()} == k: break
		self.branch(body, [])
	def stmt(self, n):
		t = type(n).__name__
		if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
			f = Fn(n, self.fn.module, self.fn.cls, self.fn)
			self.env[n.name] = self.closure(f)
		elif isinstance(n, ast.ClassDef): self.env[n.name] = Val(SH, SH)
		elif isinstance(n, ast.Return): self.ret.append(self.ev(n.value) if n.value else NEW)
		elif isinstance(n, ast.Assign):
			v = self.ev(n.value)
			for x in n.targets: self.assign(x, v, n, n.value)
		elif isinstance(n, ast.AnnAssign):
			if n.value is not None: self.assign(n.target, self.ev(n.value), n, n.value)
		elif isinstance(n, ast.AugAssign):
			v = self.ev(n.value)
			old = self.ev(ast.copy_location(_load(n.target), n.target))
			self.site(n, 'augmented assignment', old if not isinstance(n.target, ast.Subscript) else self.ev(n.target.value), ast.unparse(n))
			if isinstance(n.target, ast.Name):
				if n.target.id in self.nonlocals: self.site(n, 'outer variable', Val(SH), ast.unparse(n))
				self.env[n.target.id] = Val(old.own, old.deep | v.deep)
			elif isinstance(n.target, ast.Attribute):
				o = self.ev(n.target.value)
				self.assign(n.target, old, n, None)
			else:
				self.container(n.target.value, v)
		elif isinstance(n, ast.Expr): self.ev(n.value)
		elif isinstance(n, ast.If):
			self.ev(n.test)
			k = self.known(n.test)
			if k is None: self.branch(n.body, n.orelse)
			else: self.block(n.body if k else n.orelse)
		elif isinstance(n, (ast.For, ast.AsyncFor)):
			v = self.ev(n.iter)
			def body():
				self.assign(n.target, self.element(v), n, None)
			for _ in range(2): body()
			self.loop_for(n, v)
		elif isinstance(n, ast.While):
			self.ev(n.test); self.loop(n.body); self.block(n.orelse)
		elif isinstance(n, (ast.With, ast.AsyncWith)):
			for i in n.items:
				v = self.ev(i.context_expr)
				if i.optional_vars is not None: self.assign(i.optional_vars, alias(v), n, None)
			self.block(n.body)
		elif isinstance(n, ast.Try):
			self.branch(n.body, [])
			e = [h.body for h in n.handlers] + [n.orelse]
			self.branch(*e, [])
			self.block(n.finalbody)
		elif isinstance(n, ast.Delete):
			for x in n.targets:
				if isinstance(x, (ast.Subscript, ast.Attribute)): self.site(n, 'deletion', self.ev(x.value), ast.unparse(n))
		elif isinstance(n, (ast.Import, ast.ImportFrom)):
			for x in n.names: self.env.pop((x.asname or x.name).split('.')[0], None)
		elif isinstance(n, (ast.Pass, ast.Break, ast.Continue, ast.Global, ast.Nonlocal)): pass
		elif isinstance(n, ast.Raise):
			if n.exc: self.ev(n.exc)
		elif isinstance(n, ast.Assert): self.ev(n.test)
		else:
			self.site(n, f'statement {t}', Val(SH), ast.unparse(n)[:100])
	def loop_for(self, n, v):
		e0 = {k: x for k, x in self.env.items()}
		self.loop(n.body)
		self.block(n.orelse)
	def closure(self, f):
		d = frozenset().union(*(v.deep for v in self.env.values())) if self.env else E
		env0 = self.env
		# the body of a nested function is verified where it is defined, with the enclosing variables as they are there
		if self.sites is not None:
			a = f.node.args
			names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
			inner = dict(env0)
			# captured variables belong to an earlier activation once the closure runs
			inner = {k: Val(v.own | {f'captured {k}'}, v.deep | {f'captured {k}'}) for k, v in inner.items()}
			args = {x: Val(frozenset((x,)), frozenset((x,))) for x in names}
			act = Activation(self.an, f, args, self.sites, inner)
			act.run()
		return Val(E, d, fn=(f, env0))
	def element(self, v): return Val(v.deep, v.deep)
	def assign(self, t, v, n, src):
		if isinstance(t, ast.Name):
			if t.id in self.nonlocals: self.site(n, 'outer variable', Val(SH), ast.unparse(n)[:100])
			self.env[t.id] = v
		elif isinstance(t, (ast.Tuple, ast.List)):
			vs = None
			if isinstance(src, (ast.Tuple, ast.List)) and len(src.elts) == len(t.elts) and not any(isinstance(e, ast.Starred) for e in list(src.elts) + list(t.elts)):
				keep, self.sites = self.sites, None
				vs = [self.ev(e) for e in src.elts]
				self.sites = keep
			for i, x in enumerate(t.elts):
				x = x.value if isinstance(x, ast.Starred) else x
				self.assign(x, vs[i] if vs else self.element(v), n, None)
		elif isinstance(t, ast.Attribute):
			o = self.ev(t.value)
			c = self.cached(t.value, t.attr)
			if c: self.site(n, 'cache: ' + c, NEW, ast.unparse(n)[:100])
			else: self.site(n, 'attribute', o, ast.unparse(n)[:100])
			if o.fields is not None: o.fields[t.attr] = v
			self.container(t.value, v)
		elif isinstance(t, ast.Subscript):
			o = self.ev(t.value)
			self.ev(t.slice)
			c = isinstance(t.value, ast.Attribute) and self.cached(t.value.value, t.value.attr)
			if c: self.site(n, 'cache: ' + c, NEW, ast.unparse(n)[:100])
			else: self.site(n, 'element', o, ast.unparse(n)[:100])
			self.container(t.value, v)
		elif isinstance(t, ast.Starred): self.assign(t.value, v, n, None)
		else: self.site(n, 'store', Val(SH), ast.unparse(n)[:100])
	def container(self, node, v):
		"""something with storage v became reachable from the object named by node"""
		while isinstance(node, (ast.Subscript, ast.Attribute)): node = node.value
		if isinstance(node, ast.Name) and node.id in self.env and v.deep - self.env[node.id].deep:
			o = self.env[node.id]
			# arrays of numbers copy what is stored in them; only object containers keep references
			self.env[node.id] = Val(o.own, o.deep | v.deep, o.fields, o.fn) if o.fields is not None or not self.numeric(node.id) else o
	def numeric(self, name):
		"""every assignment of this local is a call of a numpy allocator"""
		ok = False
		for n in ast.walk(self.fn.node):
			if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
				f = n.value.func if isinstance(n.value, ast.Call) else None
				if not (isinstance(f, ast.Attribute) and (isinstance(f.value, ast.Name) and f.value.id in EXTERNAL and f.attr in FRESH_FN or f.attr in ('copy', 'allocate_array', 'clone'))): return False
				ok = True
		return ok
	def cached(self, node, attr):
		if isinstance(node, ast.Name) and node.id in ('self',) or isinstance(node, ast.Name) and self.fn.outer: return self.an.pkg.cache_of(self.fn.cls, attr)
		return None

	# ---- expressions
	def ev(self, n):
		m = getattr(self, 'e_' + type(n).__name__, None)
		if m: return m(n)
		return alias(*(self.ev(c) for c in ast.iter_child_nodes(n) if isinstance(c, ast.expr)))
	def e_Constant(self, n): return Val(none=n.value is None)
	def e_JoinedStr(self, n):
		for c in ast.walk(n):
			if isinstance(c, ast.FormattedValue): self.ev(c.value)
		return NEW
	def e_Compare(self, n):
		self.ev(n.left)
		for c in n.comparators: self.ev(c)
		return NEW
	def e_Name(self, n):
		if n.id in self.env: return self.env[n.id]
		if n.id in self.locals: return NEW      # not assigned yet on this path
		return Val(SH, SH)
	def e_Attribute(self, n):
		o = self.ev(n.value)
		if o.fields is not None and n.attr in o.fields: return o.fields[n.attr]
		props = [f for f in self.an.pkg.by_name.get(n.attr, []) if f.property]
		if n.attr in ('shape', 'ndim', 'dtype', 'size', 'nbytes', 'itemsize') and not props: return Val(E, E)
		if n.attr in AMBIENT: self.site(n, 'ambient state', Val(SH), ast.unparse(n)[:80])
		d = o.deep | (SH if any(f.shared for f in props) else E)
		return Val(d, d)
	def e_Subscript(self, n):
		o = self.ev(n.value)
		self.ev(n.slice)
		if o.own or o.deep: return Val(o.deep, o.deep)
		return NEW
	def e_Slice(self, n):
		for x in (n.lower, n.upper, n.step):
			if x is not None: self.ev(x)
		return NEW
	def e_BinOp(self, n):
		a, b = self.ev(n.left), self.ev(n.right)
		return Val(a.deep | b.deep, a.deep | b.deep) if self.objects(n) else Val(E, a.deep | b.deep)
	def objects(self, n): return True      # operators of the package may return an operand (x + 0)
	def e_UnaryOp(self, n):
		v = self.ev(n.operand)
		return NEW if isinstance(n.op, ast.Not) else alias(v)
	def e_BoolOp(self, n): return join(self.ev(v) for v in n.values)
	def e_IfExp(self, n):
		self.ev(n.test)
		k = self.known(n.test)
		if k is not None and self.sites is None: return self.ev(n.body if k else n.orelse)
		return self.ev(n.body).join(self.ev(n.orelse))
	def known(self, t):
		if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None and isinstance(t.ops[0], (ast.Is, ast.IsNot)):
			v = self.ev(t.left).none
			return None if v is None else v == isinstance(t.ops[0], ast.Is)
	def e_Tuple(self, n): return Val(E, frozenset().union(*(self.ev(x).deep for x in n.elts)) if n.elts else E)
	e_List = e_Set = e_Tuple
	def e_Starred(self, n): return self.ev(n.value)
	def e_Dict(self, n):
		return Val(E, frozenset().union(*(self.ev(x).deep for x in n.keys + n.values if x is not None)) if n.values else E)
	def e_Lambda(self, n): return self.closure(Fn(n, self.fn.module, self.fn.cls, self.fn))
	def comp(self, n):
		keep = dict(self.env)
		for g in n.generators:
			self.assign(g.target, self.element(self.ev(g.iter)), n, None)
			for c in g.ifs: self.ev(c)
		v = [self.ev(n.key), self.ev(n.value)] if isinstance(n, ast.DictComp) else [self.ev(n.elt)]
		self.env = keep
		return Val(E, frozenset().union(*(x.deep for x in v)))
	e_ListComp = e_SetComp = e_GeneratorExp = e_DictComp = comp
	def e_NamedExpr(self, n):
		v = self.ev(n.value); self.assign(n.target, v, n, None); return v
	def e_Yield(self, n):
		v = self.ev(n.value) if n.value else NEW
		self.ret.append(v); return Val(SH, SH)
	e_YieldFrom = e_Yield
	def e_Await(self, n): return self.ev(n.value)

	def e_Call(self, n):
		args = [self.ev(a) for a in n.args]
		kws = {k.arg: self.ev(k.value) for k in n.keywords}
		allv = args + list(kws.values())
		if 'out' in kws: self.site(n, 'out=', kws['out'], ast.unparse(n)[:100])
		f = n.func
		everything = alias(*args, *(v for k, v in kws.items() if k not in ('dtype', 'order', 'axis', 'device', 'copy', 'keepdims', 'subok')))
		if isinstance(f, ast.Name):
			if f.id in self.env: return self.invoke(self.env[f.id], args, kws, n)
			if f.id in INPLACE_FN and args:
				self.site(n, f.id, args[INPLACE_FN[f.id]], ast.unparse(n)[:100]); return NEW
			if f.id in ('exec', 'eval', 'globals', 'vars', 'locals'):
				if f.id in ('exec', 'eval'): self.site(n, f.id, Val(SH), ast.unparse(n)[:100])
				return Val(SH | everything.deep, SH | everything.deep)
			if f.id in SCALARS: return NEW
			if f.id in SHALLOW: return Val(E, everything.deep)
			if f.id == 'getattr': return Val(everything.deep, everything.deep)
			if f.id == 'super': return Val(frozenset(('self',)) if 'self' in self.env and self.env['self'].own else E, self.env.get('self', NEW).deep, self.env['self'].fields if 'self' in self.env else None)
			if f.id in self.an.pkg.classes: return self.construct(f.id, args, kws, n)
			own = [g for g in self.an.pkg.by_name.get(f.id, []) if g.cls is None]
			if own: return self.package(own, None, args, kws, n)
			if f.id in FRESH_FN: return Val(E, everything.deep if f.id in ('sum', 'min', 'max') else E) if f.id not in ('sum', 'min', 'max') else everything
			return Val(everything.deep | SH, everything.deep | SH)
		if isinstance(f, ast.Attribute):
			base = f.value
			root = base
			while isinstance(root, ast.Attribute): root = root.value
			if isinstance(root, ast.Name) and root.id in EXTERNAL and root.id not in self.env:
				nm = f.attr
				if nm in AMBIENT or any(isinstance(x, ast.Attribute) and x.attr in AMBIENT for x in ast.walk(base)): self.site(n, 'ambient state', Val(SH), ast.unparse(n)[:80])
				if nm in INPLACE_FN and args: self.site(n, nm, args[INPLACE_FN[nm]], ast.unparse(n)[:100])
				if nm == 'at' and isinstance(base, ast.Attribute) and args: self.site(n, 'ufunc.at', args[0], ast.unparse(n)[:100])
				if nm.endswith('_') and not nm.startswith('_') and args: self.site(n, nm, args[0], ast.unparse(n)[:100])
				if nm in FRESH_FN or isinstance(base, ast.Attribute) and base.attr in ('char', 'linalg'): return NEW
				return everything
			o = self.ev(base)
			if o.fields is not None and f.attr in o.fields: return self.invoke(o.fields[f.attr], args, kws, n)
			cands = [g for g in self.an.pkg.by_name.get(f.attr, []) if g.cls is not None and not g.property]
			if isinstance(base, ast.Name) and base.id in ('self', 'cls') and self.fn.cls and self.fn.outer is None:
				fam = self.an.pkg.family(self.fn.cls)
				cands = [g for g in cands if g.cls in fam]
			elif isinstance(base, ast.Attribute) and base.attr == 'context' or isinstance(base, ast.Name) and base.id == 'context':
				fam = self.an.pkg.family('AbstractContext')
				cands = [g for g in cands if g.cls in fam]
			elif isinstance(base, ast.Attribute) and base.attr in ARRAYS or isinstance(base, ast.Name) and base.id in ARRAYS:
				cands = []
			if f.attr == '__new__': return Val(E, E, {})
			if isinstance(base, ast.Call) and isinstance(base.func, ast.Name) and base.func.id == 'super':
				bases, seen = list(self.an.pkg.classes.get(self.fn.cls, [])), set()
				while bases:
					c = bases.pop(); seen.add(c); bases += [x for x in self.an.pkg.classes.get(c, []) if x not in seen]
				cands = [g for g in cands if g.cls in seen]
				if f.attr == '__init__':
					for g in cands: self.inline(g, [o] + args, kws)
					return NEW
			if f.attr in INPLACE_METHOD or f.attr.endswith('_') and not f.attr.startswith('_'):
				c = isinstance(base, ast.Attribute) and self.cached(base.value, base.attr)
				if c: self.site(n, 'cache: ' + c, NEW, ast.unparse(n)[:100])
				elif not cands: self.site(n, '.' + f.attr, o, ast.unparse(n)[:100])
				self.container(base, everything)
				return alias(o, *allv)
			if f.attr in self.an.pkg.classes: return self.construct(f.attr, args, kws, n)
			if f.attr in ('mvtype', 'otype'): return self.construct({'mvtype': 'AbstractMultiVector', 'otype': 'AbstractConcreteOperator'}[f.attr], args, kws, n)
			if f.attr in ('multivector',) and not cands:
				return self.package([g for g in self.an.pkg.by_name.get('__call__', []) if g.cls == 'MultiVectorFactory'], o, args, kws, n)
			r = []
			if f.attr in FRESH_METHOD and not (cands and self.typed(base)): r.append(NEW)
			if cands: r.append(self.package(cands, o, args, kws, n))
			if not r: r.append(Val(o.deep | everything.deep | (SH if not o.own and not o.deep else E), o.deep | everything.deep | SH))
			return join(r)
		return self.invoke(self.ev(f), args, kws, n)
	def typed(self, base):
		"""self.values etc. are arrays, self is an object of the package"""
		return isinstance(base, ast.Name) and base.id == 'self'
	def invoke(self, v, args, kws, n):
		if v.fn is not None:
			f, env0 = v.fn
			r = self.inline(f, args, kws, env0)
			if r is not None: return r
		d = v.deep | alias(*args, *kws.values()).deep | SH
		if isinstance(n.func, ast.Name) and n.func.id == 'cls' and self.fn.cls: return self.construct(self.fn.cls, args, kws, n)
		if isinstance(n.func, ast.Call) and isinstance(n.func.func, ast.Name) and n.func.func.id == 'type' and self.fn.cls: return self.construct(self.fn.cls, args, kws, n)
		return Val(d, d)
	def bind(self, f, args, kws, env0=None):
		a = f.node.args
		names = [x.arg for x in a.posonlyargs + a.args]
		out = {}
		for i, v in enumerate(args):
			if i < len(names): out[names[i]] = v
			elif a.vararg: out[a.vararg.arg] = Val(E, out.get(a.vararg.arg, NEW).deep | v.deep)
			else: return None
		for k, v in kws.items():
			if k in names or k in [x.arg for x in a.kwonlyargs]: out[k] = v
			elif a.kwarg and k: out[a.kwarg.arg] = Val(E, out.get(a.kwarg.arg, NEW).deep | v.deep)
			else: return None
		pos = a.posonlyargs + a.args
		defaults = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
		defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
		for x in names + [x.arg for x in a.kwonlyargs]:
			if x in out: continue
			if x not in defaults: return None      # such a call raises
			out[x] = Val(none=defaults[x].value is None) if isinstance(defaults[x], ast.Constant) else Val(SH, SH)
		for x in (a.vararg, a.kwarg):
			if x: out.setdefault(x.arg, NEW)
		return out
	def inline(self, f, args, kws, env0=None):
		if any(isinstance(x, ast.Starred) for x in args): return None
		b = self.bind(f, args, kws)
		if b is None: return None
		if env0 is not None:
			if id(f) in self.an.stack or len(self.an.stack) >= self.an.depth: return None
			self.an.stack.append(id(f))
			try: return Activation(self.an, f, b, None, env0).run()
			finally: self.an.stack.pop()
		return self.an.result(f, b)
	def package(self, cands, o, args, kws, n):
		if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
			d = alias(*([o] if o else []), *args, *kws.values()).deep | SH
			return Val(d, d)
		rs = []
		for g in cands:
			if getattr(g, 'abstract', None) is None:
				body = [s for s in g.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
				g.abstract = 'abstractmethod' in g.decorators or (len(body) == 1 and isinstance(body[0], (ast.Raise, ast.Pass)))
			if g.abstract: continue
			if self.bind(g, ([] if g.static or o is None else [o]) + args, kws) is None: continue
			r = self.inline(g, ([] if g.static or o is None else [o]) + args, kws)
			if r is None: rs.append(Val(alias(*([o] if o else []), *args, *kws.values()).deep | SH, SH))
			else: rs.append(r)
		if not rs:
			d = alias(*([o] if o else []), *args, *kws.values()).deep | SH
			return Val(d, d)
		return join(rs)
	def construct(self, cls, args, kws, n):
		"""a new object: its fields are what __init__ assigns"""
		seen, todo = [], [cls]
		while todo:
			c = todo.pop(0)
			if c not in seen: seen.append(c); todo += self.an.pkg.classes.get(c, [])
		d = alias(*args, *kws.values()).deep
		for c in seen:
			init = [g for g in self.an.pkg.by_name.get('__init__', []) if g.cls == c]
			if init and not any(isinstance(a, ast.Starred) for a in n.args):
				o = Val(E, E, {})
				b = self.bind(init[0], [o] + args, kws)
				if b is None or id(init[0]) in self.an.stack: break
				self.an.stack.append(id(init[0]))
				try: Activation(self.an, init[0], b, None, None).run()
				finally: self.an.stack.pop()
				return Val(E, d | frozenset().union(*(v.deep for v in o.fields.values())) if o.fields else d, o.fields)
		return Val(E, d)


def _load(t):
	import copy
	t = copy.copy(t)
	t.ctx = ast.Load()
	return t


def verify_package(repo=None):
	pkg = Package(repo or env.REPO)
	out = []
	for f in pkg.functions:
		if f.outer is not None: continue      # verified with the enclosing function
		out.append((f, Analysis(pkg).verify(f)))
	return pkg, out


def frame_obligations(led):
	"""one obligation per function without a store, one per store otherwise"""
	ct, amb = 'frame of every function (all inputs, all histories)', 'no ambient state'
	pkg, out = verify_package()
	for f, sites in out:
		k = 0
		for q, line, what, text, reg in sites:
			c = amb if what in ('ambient state', 'exec', 'eval') else ct
			if reg: led.open[c, f'{q}: {what}: {text[:80]} (storage of {", ".join(reg)})'] += 1
			else: led.ok(c, 'ownership analysis')
			k += c == ct
		if not k: led.ok(ct, 'ownership analysis')
		if not any(s[2] == 'ambient state' for s in sites): led.ok(amb, 'ownership analysis')
	led.cover('functions analysed', len(out))
	return sorted({f.qual for f, _ in out})


if __name__ == '__main__':
	pkg, out = verify_package(sys.argv[1] if len(sys.argv) > 1 else None)
	print(len(out), 'functions')
	for f, sites in out:
		for s in sites:
			print('OPEN' if s[4] else 'ok  ', *s[:4], s[4])
