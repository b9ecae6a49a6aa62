import dv.env
import builtins, math, types
from dv.core import *
from dv.families import *
from dv.arrays import *
from numga.operator.operator import Operator
import numga.backend.numpy.operator as npo
from dv import mcontracts

MOD = __name__


# ---- numpy-semantics stand-ins for the array modules of the jax, torch and python backends, so that their operator
# classes run on symbolic values. Only module globals (`jnp`, `torch`, `float`) are replaced; the class bodies are the real code.
class At:
	def __init__(self, a):
		self.a = a
	def __getitem__(self, idx):
		a = self.a
		class S:
			def set(self, v):
				o = a.copy()
				o[idx] = v
				return o
			def add(self, v):
				o = a.copy()
				o[idx] = o[idx] + v
				return o
		return S()


class Arr(np.ndarray):
	@property
	def at(self):
		return At(self)
	def clone(self):
		return self.copy()
	def __getattr__(self, nm):
		return missing(self, nm)


def missing(a, nm):
	"""a method of the real array type that the stand-in has not: outside the verifier's reach, not an error of the code"""
	if nm.startswith('_'):
		raise AttributeError(nm)
	raise Unsupported(f'array method {nm}')


class TSize(int):
	"""numpy's x.size (a number) and torch's x.size() (the shape)"""
	def __new__(cls, a):
		o = int.__new__(cls, int(np.prod(a.shape)))
		o.a = a.shape
		return o
	def __call__(self, dim=None):
		return self.a if dim is None else self.a[dim]


class TArr(np.ndarray):
	def __array_finalize__(self, o):
		pass
	def clone(self):
		return self.copy()
	def contiguous(self):
		return self
	def detach(self):
		return self
	def __getattr__(self, nm):
		return missing(self, nm)
	def sum(self, dim=None, axis=None, out=None, **k):
		o = np.asarray(self).sum(axis if dim is None else dim)
		return o.view(TArr) if isinstance(o, np.ndarray) else o
	def mean(self, dim=None, axis=None, out=None, **k):
		o = np.asarray(self).mean(axis if dim is None else dim)
		return o.view(TArr) if isinstance(o, np.ndarray) else o
	@property
	def size(self):
		return TSize(self)


def tasarray(a, dtype=None, device=None):
	"""torch.asarray: numeric sequences only (an index that is not numeric raises, as in torch)"""
	if dtype is None and not (isinstance(a, np.ndarray) and a.dtype == object):
		a = np.array(a)
		if a.dtype == object:
			raise TypeError('not a number')
		return a
	return view(a, TArr)


class Linalg:
	"""assumed contract of linalg.inv: the two-sided matrix inverse (by cofactors)"""
	def __init__(self, cls=None):
		self.cls = cls
	def inv(self, a):
		a = np.asarray(a)
		if a.dtype != object:
			return np.linalg.inv(a)
		n = a.shape[-1]
		if a.shape[-2] != n:
			raise np.linalg.LinAlgError('not square')
		if n > 3:
			raise Unsupported('symbolic inverse')
		out = np.empty(a.shape, dtype=object)
		def det(m):
			if len(m) == 0:
				return 1
			return sum((-1) ** j * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(len(m)))
		for i in np.ndindex(*a.shape[:-2]):
			m = a[i].tolist()
			d = 1 / (det(m) if not isinstance(det(m), int) else Fraction(det(m)))
			for r in range(n):
				for c in range(n):
					out[i + (r, c)] = (-1) ** (r + c) * det([row[:r] + row[r + 1:] for k, row in enumerate(m) if k != c]) * d
		return out if self.cls is None else out.view(self.cls)
	def __getattr__(self, nm):
		raise Unsupported(f'linalg.{nm}')


def view(a, cls):
	return np.asarray(a, dtype=object).view(cls)


class Shim:
	"""numpy with array results viewed as `cls`; dtype and device arguments are dropped (values are exact)"""
	def __init__(self, cls, extra):
		self._cls, self._extra = cls, extra
	def __getattr__(self, nm):
		if nm in self._extra:
			return self._extra[nm]
		f = getattr(np, nm, None)
		if f is None:
			raise Unsupported(f'array module function {nm}')
		if not callable(f) or isinstance(f, type):
			return f
		def g(*a, **k):
			for x in ('dtype', 'device'):
				k.pop(x, None)
			if 'dim' in k:
				k['axis'] = k.pop('dim')
			if nm in ('zeros', 'empty', 'ones', 'full'):
				k['dtype'] = object
			o = f(*a, **k)
			return o.view(self._cls) if isinstance(o, np.ndarray) else o
		return g


def jshim():
	return Shim(Arr, dict(linalg=Linalg(Arr), asarray=lambda a, dtype=None: view(a, Arr), array=lambda a, dtype=None: view(np.array(a, dtype=object), Arr), float32=np.float32, float64=np.float64, broadcast_shapes=np.broadcast_shapes, stack=lambda l, axis=0: view(np.stack(l, axis), Arr)))

def tshim():
	return Shim(TArr, dict(asarray=tasarray, clone=lambda a: a.copy(), take_along_dim=lambda a, i, dim: view(np.take_along_axis(np.asarray(a), np.asarray(i, dtype=np.int64), dim), TArr), linalg=Linalg(TArr), as_tensor=lambda a, dtype=None, device=None: view(a, TArr), tensor=lambda a, dtype=None, device=None: view(np.array(a, dtype=object), TArr),
	                       float32=np.float32, float64=np.float64, broadcast_shapes=np.broadcast_shapes, cat=lambda l, dim=0: view(np.concatenate(l, dim), TArr),
	                       stack=lambda l, dim=0: view(np.stack(l, dim), TArr), Tensor=TArr))


_patches = {}

def backend(which):
	"""modules of a backend; its array module is replaced (in this process only) while installed"""
	import importlib
	if which == 'numpy':
		mods = [npo]
	else:
		mods = [importlib.import_module(f'numga.backend.{which}.{m}') for m in ('operator', 'multivector', 'context')]
	if which in _patches:
		return mods
	P = _patches[which] = []
	def patch(o, nm, v):
		P.append((o, nm, o.__dict__.get(nm, P), v))
	if which == 'jax':
		s = jshim()
		for m in mods:
			if hasattr(m, 'jnp'):
				patch(m, 'jnp', s)
			if hasattr(m, 'np') and m.np is not np:
				patch(m, 'np', s)
		for nm in dir(mods[0]):
			c = getattr(mods[0], nm)
			if isinstance(c, type) and issubclass(c, mods[0].AbstractConcreteOperator):
				f = c.__dict__.get('__call__')
				if f is not None and hasattr(f, '__wrapped__'):
					patch(c, '__call__', f.__wrapped__)    # the traced function itself, without jit
	elif which == 'torch':
		s = tshim()
		for m in mods:
			if hasattr(m, 'torch'):
				patch(m, 'torch', s)
	elif which == 'python':
		for m in mods:
			patch(m, 'float', lambda v: v if isinstance(v, (Sym, Fraction)) else builtins.float(v))
	else:
		class Np:
			linalg = Linalg()
			def __getattr__(self, nm):
				return getattr(np, nm)
		patch(npo, 'np', Np())
	install(which)
	return mods

def install(which):
	for o, nm, old, new in _patches[which]:
		setattr(o, nm, new)

def uninstall(which):
	P = _patches[which]
	for o, nm, old, new in P:
		if old is P:
			delattr(o, nm)
		else:
			setattr(o, nm, old)


NAMES = {'numpy': ('einsum', 'sparse'), 'jax': ('einsum', 'dense', 'sparse'), 'torch': ('einsum', 'dense', 'sparse'), 'python': ('sparse', 'codegen')}

def make(which, sig, name='einsum'):
	"""context of a backend and strategy: symbolic, and as shipped inside `with ctx.real()`"""
	mods = backend(which)
	alg = algebra(sig)
	o = mods[0]
	T = getattr(o, f'{which.capitalize()}{name.capitalize()}Operator')
	if which == 'numpy':
		return Switch(NumpyContext(alg, dtype=object, otype=T), lambda: NumpyContext(alg, otype=T), False, lambda: uninstall(which), lambda: install(which))
	c = mods[2]
	C = getattr(c, f'{which.capitalize()}Context')
	if which == 'python':
		return Switch(C(alg, otype=T), lambda: C(alg, otype=T), False, lambda: uninstall(which), lambda: install(which))
	return Switch(C(alg, otype=T, dtype=object), lambda: C(alg, otype=T), True, lambda: uninstall(which), lambda: install(which))


# ---- operators under test
def operators(r, ctx, n, k):
	f = ctx.algebra.operator
	S = lambda m=5: sub(ctx, order(random_subset(r, n))[:m])
	out = []
	un = ['reverse', 'involute', 'conjugate', 'right_hodge', 'left_hodge_inverse', 'right_complement', 'degenerate', 'nondegenerate', 'scalar_negation', 'identity']
	bi = ['product', 'wedge', 'inner', 'regressive', 'commutator', 'left_contract', 'reverse_product', 'anti_product', 'scalar_product', 'anti_commutator']
	for _ in range(k):
		q = r.random()
		if q < .25:
			nm = r.choice(un); V = S(8)
			out.append((nm, getattr(f, nm)(V)))
		elif q < .6:
			nm = r.choice(bi)
			out.append((nm, getattr(f, nm)(S(), S())))
		elif q < .75:
			R, V = S(4), S(4)
			nm = r.choice(['full_sandwich', 'sandwich', 'reverse_sandwich'])
			out.append((nm, getattr(f, nm)(R, V)))
		elif q < .9:
			# arbitrary integer kernels, also with rows and inputs that contribute nothing
			ar = r.choice([1, 2, 2, 3])
			axes = [S(4) for _ in range(ar + 1)]
			K = np.array([r.choice([-2, -1, 1, 2]) if r.random() < .25 else 0 for _ in range(int(np.prod([len(a) for a in axes])))], dtype=np.int8).reshape([len(a) for a in axes])
			if r.random() < .3:      # entries that are no integers (exact in binary): scaled operators, maps
				K = K * np.array([r.choice([.5, 1.5, 2. ** -14, -.25]) for _ in range(K.size)]).reshape(K.shape)
				out.append(('fractional kernel', Operator(K, axes)))
				continue
			out.append(('custom kernel', Operator(K, axes)))
		else:
			i, o = S(), S()
			out.append((r.choice(['select', 'restrict']), f.select(i, o)))
	return out


SHAPES = [(), (2,), (3, 1), (1, 2), (2, 1, 1)]


def run_strategy(led, which, name, sig, k, seed, batched):
	n = len(sig)
	r = rng('c11', which, name, sig, seed)
	ctx = make(which, sig, name)
	contract = f'{which} {name}'
	for nm, op in operators(r, ctx, n, k):
		for b in ((False, True) if batched else (False,)):
			shapes = [(r.choice(SHAPES) if b else ()) + (len(a),) for a in op.inputs]
			try:
				np.broadcast_shapes(*[s[:-1] for s in shapes])
			except ValueError:
				continue
			label = f'{which}/{name} {nm} sig={sig} axes={[list(map(int, a.blades)) for a in op.axes]} batches={[s[:-1] for s in shapes]}'
			if which == 'python' and name == 'codegen':
				def code(*arrs):
					env_ = {'o': [0] * len(op.output)}
					exec(ctx.operator(op)(), env_)
					env_['foo'](*[list(a) for a in arrs])
					return np.array(env_['o'], dtype=object)
			else:
				def code(*arrs):
					if which == 'python':
						xs = [ctx.multivector(values=list(a), subspace=s) for a, s in zip(arrs, op.inputs)]
					else:
						xs = [ctx.multivector(values=a, subspace=s) for a, s in zip(arrs, op.inputs)]
					o = ctx.operator(op)(*xs)
					assert o.subspace is op.output, 'output subspace'
					if which != 'python' and tuple(np.shape(o.values))[-1] != len(op.output):
						raise ShapeError('component axis')
					return np.asarray(o.values, dtype=object)
			if len(op.output) == 0:
				continue
			prove_arrays(led, contract, label, shapes, code, lambda *arrs: contract_kernel(op.kernel, arrs), signature=sig, ctx=ctx)


def batch(led, which, name, sig, k, seed):
	run_strategy(led, which, name, sig, k, seed, batched=which != 'python')


def sparse_program(led, sig, k):
	"""the term list that every unrolled strategy executes"""
	n = len(sig)
	r = rng('c11p', sig)
	ctx = context(sig)
	for nm, op in operators(r, ctx, n, k):
		terms = ctx.operator(op).precompute_sparse
		K = np.zeros(op.kernel.shape, dtype=np.int64 if op.kernel.dtype.kind in 'iub' else np.float64)
		ok = len({i for i, _ in terms}) == len(terms)
		for oi, row in terms:
			for idx, s in row:
				K[tuple(idx) + (oi,)] += s
		led.enum('precompute_sparse', ok and np.array_equal(K, op.kernel), f'term list of {nm} in {sig} does not sum up to its kernel')
		c = ctx.operator(op)
		led.enum('precompute_sparse', c.intensity == np.count_nonzero(op.kernel) and c.arity == op.arity and c.inputs == op.inputs and c.output is op.output, f'properties of {nm}')
		led.enum('broadcasting shapes', all(np.prod(s) == len(a) and s[i] == len(a) and len(s) == op.kernel.ndim for i, (s, a) in enumerate(zip(c.broadcasting_shapes, op.inputs))), f'broadcasting shapes of {nm}')


def real(led, which, seed):
	"""a few runs of the unmodified backends (bounded): real jax with jit, real torch, python floats"""
	r = rng('c11r', which, seed)
	g = np.random.default_rng(seed)
	if which == 'jax':
		import jax
		from numga.backend.jax.context import JaxContext
		import numga.backend.jax.operator as o
		made = [(nm, JaxContext, getattr(o, nm)) for nm in ('JaxEinsumOperator', 'JaxDenseOperator', 'JaxSparseOperator')]
	elif which == 'torch':
		import torch
		from numga.backend.torch.context import TorchContext
		import numga.backend.torch.operator as o
		made = [(nm, TorchContext, getattr(o, nm)) for nm in ('TorchEinsumOperator', 'TorchDenseOperator', 'TorchSparseOperator')]
	else:
		from numga.backend.python.context import PythonContext
		import numga.backend.python.operator as o
		made = [('PythonSparseOperator', PythonContext, o.PythonSparseOperator)]
	for sig in ((1, 1, 0), (1, -1, 1), (1, 1, 1, 0)):
		for nm, C, T in made:
			ctx = C(algebra(sig), otype=T)
			for what, op in operators(r, ctx, len(sig), 5):
				if not len(op.output):
					continue
				for b in (False, True):
					if b and which == 'python':
						continue
					shapes = [(r.choice(SHAPES) if b else ()) + (len(a),) for a in op.inputs]
					try:
						np.broadcast_shapes(*[s[:-1] for s in shapes])
					except ValueError:
						continue
					vals = [g.integers(-4, 5, size=s).astype(float) for s in shapes]
					xs = [ctx.multivector(values=list(v) if which == 'python' else v, subspace=s) for v, s in zip(vals, op.inputs)]
					got = np.asarray(ctx.operator(op)(*xs).values, dtype=float)
					want = contract_kernel(op.kernel, [v.astype(object) for v in vals]).astype(float)
					led.num(f'{which} as shipped', got.shape == want.shape and np.allclose(got, want, rtol=1e-5, atol=1e-4), f'{nm} {what} in {sig} on {[v.tolist() for v in vals]} gives {got.tolist()}, expected {want.tolist()}')


def main():
	ch = Check('C11', MOD)
	ab = ['AbstractConcreteOperator.precompute_sparse', 'AbstractConcreteOperator.precompute_einsum_partial', 'AbstractConcreteOperator.broadcasting_shapes']
	T = env.THOROUGH
	names = NAMES
	for w, ns in names.items():
		for nm in ns:
			ch.contract(f'{w} {nm}', [f'{w.capitalize()}{nm.capitalize()}Operator.__call__'] + ab,
			            'ensures out[..., o] == sum_i K[i.., o] prod x_j[..., i_j] for all operand values, broadcast batches elementwise')
	ch.contract('precompute_sparse', ab[:1], 'the term list sums up to the kernel')
	ch.contract('broadcasting shapes', ab[2:], 'one axis each')
	ch.contract('jax as shipped', ['jit, pytree registration'], 'bounded runs of the unmodified backend')
	ch.contract('torch as shipped', ['TorchContext'], 'bounded runs of the unmodified backend')
	ch.contract('python as shipped', ['PythonContext'], 'bounded runs of the unmodified backend')
	ch.trusted.append('the jax and torch array functions are read with numpy semantics in the symbolic runs (module globals jnp/torch/float replaced, jit removed by __wrapped__); real jax/torch runs are bounded')
	for w in ('jax', 'torch', 'python'):
		ch.task('real', w, 0)
	for w, ns in names.items():
		for nm in ns:
			for i, sig in enumerate([(1,), (1, 0), (1, -1), (1, 1, 0), (-1, 1, 1), (1, 1, 1, 0), (1, -1, -1, 0)] + (pqr_signatures(3) + pqr_signatures(4) if T else [])):
				ch.task('batch', w, nm, sig, 30 if T else 14, i)
	for sig in ((1, 0), (1, 1, 0), (1, 1, -1), (1, 1, 1, 0), (0, 1, 1, -1)):
		ch.task('sparse_program', sig, 60 if T else 25)
	if T:
		for s in (1, 2):
			for w in ('jax', 'torch'):
				ch.task('real', w, s)
	mcontracts.attach(ch, 'C11', 23)
	ch.run_isolated()
	return ch.finish()
