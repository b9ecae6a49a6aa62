"""C20: the optimised 3D PGA routines: equality with the generic definition, exponential differential equation, selection."""
import itertools
import dv.env as env
from dv.core import *
from dv.families import *
from dv.checks.c14 import fl_check, real_root
from dv.checks.c15 import series, unit, attempt
from numga.multivector.multivector import AbstractMultiVector as M
import numga.multivector.extension
from numga.multivector.extension import norms, optimized
from numga.algebra.algebra import Algebra
import warnings
warnings.filterwarnings('ignore', category=RuntimeWarning)

MOD = __name__
ONE = {0: 1}
DESCR = 'x+y+z+w0'
SIG = (1, 1, 1, 0)


class ObjectNumpy:
	"""numpy for the module under proof: freshly allocated arrays can hold symbolic reals, and functions accept a
	symbolic real as a 0-d array; everything else is the real numpy"""
	def __getattr__(self, name):
		f = getattr(np, name)
		if not callable(f) or isinstance(f, type): return f
		def call(*a, **k):
			if name in ('empty', 'zeros', 'ones', 'empty_like', 'zeros_like', 'ones_like', 'full'): k['dtype'] = object; a = a[:2 if name == 'full' else 1]
			r = f(*[_zero_d(x) for x in a], **{n: _zero_d(v) for n, v in k.items()})
			return scalar(r)
		return call


def _zero_d(x):
	if not isinstance(x, Sym): return x
	out = np.empty((), dtype=object)
	out[()] = x
	return out


class symbolic:
	def __init__(self, R, sign):
		self.R, self.sign = R, sign
	def __enter__(self):
		optimized.np = ObjectNumpy()
		self.R.oracle = self.sign
	def __exit__(self, *a):
		optimized.np = np
		self.R.oracle = None


_al = {}
def ctx_of(descr, dtype):
	k = descr, str(dtype)
	if k not in _al:
		_al[k] = NumpyContext(Algebra(descr), dtype=dtype)
	return _al[k]


def scalar(v):
	while isinstance(v, np.ndarray) and v.shape == (): v = v.item()
	return v


def tod(m):
	return {k: scalar(v) for k, v in todict(m).items()}


def selected(dispatch, V):
	"""the implementation of the optimized module that the registered conditions pick for V, or None"""
	for cond, f in dispatch.options:
		if cond(V):
			return f if getattr(f, '__module__', '') == optimized.__name__ else None
	return None


def sig_of(A):
	return tuple(int(x) for x in A.description.signature) if hasattr(A.description, 'signature') else None


# ---------------------------------------------------------------- where the conditions select an optimised routine, its contract holds
def normalize_case(led, descr, sig, blades):
	sp, ctx, R = spec(sig), ctx_of(descr, object), Ring()
	V = sub(ctx, blades)
	C = 'normalize_3dpga_motor_numpy'
	f = selected(M.normalized, V)
	def post(sp, x, y):
		q = sp.mul(x, sp.reverse(x))
		real_root(sp, q)
		p = sp.mul(y, sp.reverse(x))
		return dict(unit=unit(sp, y), multiple=sp.sub(p, sp.reverse(p)), commutes=sp.sub(sp.mul(p, q), sp.mul(q, p)), positive={0: 0 if isinstance(p.get(0), Sym) or float(p.get(0, 0)) > 0 else 1})
	post.total = True
	def go():
		x = {int(b): R.var(f'x{int(b)}') for b in V.blades}
		X = mv(ctx, x)
		with symbolic(R, lambda d: 1):
			y = tod(f(X))
		if any(todict(X)[b] is not x[b] for b in x): raise Unsupported('operand changed')
		g = tod(norms.reverse_study_normalized(mv(ctx, x))) if hasattr(norms, 'reverse_study_normalized') else y
		res = post(sp, x, y)
		return [sp.sub(y, g)] + list(res.values())
	t0 = time.process_time()
	r = attempt(led, C, go)
	bad = r is None or [1 for d in r for v in d.values() if not is_zero(v)]
	led.seconds['normal-form'] += time.process_time() - t0
	if r is not None:
		if bad: led.open[C, 'not reduced to zero'] += 1
		else:
			led.ok(C, 'normal-form', sum(map(len, r)))
			led.cover('normalize: symbolic motor')
	fc = ctx_of(descr, np.float64)
	rr = rng('c20n', descr)
	for t in range(40 if bad else 10):
		x = {int(b): rr.uniform(-1, 1) for b in V.blades}
		if t % 3 == 1: x = {k: float(rr.choice((0, 1, -1, 2))) for k in x}
		X = fc.multivector(values=np.array(list(x.values())), subspace=V_of(fc, V))
		q = sp.mul(x, sp.reverse(x))
		if not q.get(0, 0) > 1e-2: continue
		before = X.values.copy()
		y = X.normalized()
		g = M.normalized.options[-1][1](X) if False else norms.reverse_study_normalized(X) if hasattr(norms, 'reverse_study_normalized') else None
		Y = tod(y)
		w = bad_residual(post(sp, x, Y), [x], [Y], 1e-7)
		led.num(C, w is None, f'normalized in {descr}: {w}', kind='value', input={str(k): v for k, v in x.items()}, output={str(k): float(v) for k, v in Y.items()})
		led.num(C, np.array_equal(before, X.values), 'normalized changed its operand', kind='value', input={str(k): v for k, v in x.items()})
		if g is not None:
			led.num(C, np.allclose(tovec(sp, Y), tovec(sp, tod(g)), atol=1e-9), 'optimised and generic normalisation differ', kind='value', input={str(k): v for k, v in x.items()})
	batches(led, C, fc, V, lambda x: x.normalized(), lambda r: r.uniform(.2, 1))


def V_of(ctx, V):
	return sub(ctx, [int(b) for b in V.blades])


def tovec(sp, d):
	out = np.zeros(1 << sp.n)
	for k, v in d.items(): out[k] = float(v)
	return out


def batches(led, C, fc, V, op, draw):
	"""batch axes: the elementwise result (sampled shapes)"""
	W = V_of(fc, V)
	rr = rng('c20b', C)
	for shape in [(), (1,), (3,), (2, 3), (0,), (2, 1, 2)]:
		a = np.array([draw(rr) for _ in range(int(np.prod(shape)) * len(W))]).reshape(shape + (len(W),))
		y = op(fc.multivector(values=a.copy(), subspace=W))
		led.num(C, y.values.shape[:-1] == shape and y.values.shape[-1] == len(y.subspace), f'batch shape {shape} -> {y.values.shape}', kind='value', input=str(shape))
		for i in np.ndindex(*shape):
			one = op(fc.multivector(values=a[i].copy(), subspace=W))
			led.num(C, np.allclose(one.values, y.values[i], atol=1e-9), f'element {i} of batch {shape} differs', kind='value', input=a[i].tolist())


def exp_case(led, descr, sig, blades):
	sp, ctx, R = spec(sig), ctx_of(descr, object), Ring()
	V = sub(ctx, blades)
	f = selected(M.exp, V)
	C = f.__name__ if f.__name__ in KNOWN else 'optimised exponentials'
	bl = [int(b) for b in V.blades]
	t = R.var('t')
	b = {k: R.var(f'b{k}') for k in bl}
	tb = {k: v * t for k, v in b.items()}
	t0 = time.process_time()
	def ode():
		with symbolic(R, lambda d: 1):
			m = tod(f(mv(ctx, tb)))
		d = {k: R.lift(v).diff(t) for k, v in m.items()}
		return [sp.sub(d, sp.mul(b, m)), {k: v for k, v in unit(sp, m).items()}]
	r = attempt(led, C, ode)
	ok = r is not None and all(is_zero(v) for d in r for v in d.values())
	if r is not None:
		if ok:
			led.ok(C, 'normal-form', sum(map(len, r)))
			led.cover('exp: differential equation on the generic path')
		else: led.open[C, 'differential equation not reduced to zero'] += 1
	rot = [k for k in bl if not sp.is_degenerate(k)]
	def limit():
		# the path taken at vanishing rotation: there the value is 1 + b, in particular 1 at b = 0
		with symbolic(R, lambda d: -1):
			m = tod(f(mv(ctx, b)))
		z = {((next(iter(b[k].t)).bit_length() - 1) // 8): R.const(0) for k in rot}
		m0 = {k: R.lift(v).subs(z) for k, v in m.items()}
		return [sp.sub(m0, sp.add(ONE, {k: v for k, v in b.items() if k not in rot}))]
	r2 = attempt(led, C, limit)
	ok2 = r2 is not None and all(is_zero(v) for d in r2 for v in d.values())
	if r2 is not None:
		if ok2:
			led.ok(C, 'normal-form', sum(map(len, r2)))
			led.cover('exp: path of vanishing rotation')
		else: led.open[C, 'value at vanishing rotation not reduced'] += 1
	led.seconds['normal-form'] += time.process_time() - t0
	fc = ctx_of(descr, np.float64)
	W = V_of(fc, V)
	rr = rng('c20e', descr, tuple(bl))
	for i in range(60 if not (ok and ok2) else 24):
		x = {k: rr.uniform(-1.5, 1.5) for k in bl}
		if i % 6 == 1: x = {k: (0.0 if k in rot else v) for k, v in x.items()}
		if i % 6 == 2: x = {k: (v if k in rot else 0.0) for k, v in x.items()}
		if i % 6 == 3: x = {k: float(rr.choice((0, 0, 1, -1))) for k in bl}
		if i == 0: x = {k: 0.0 for k in bl}
		if i % 6 == 4: x = {k: v * 1e-3 for k, v in x.items()}
		if i % 6 == 5: x = {k: v * 4 for k, v in x.items()}
		X = fc.multivector(values=np.array([x[k] for k in bl]), subspace=W)
		before = X.values.copy()
		with np.errstate(all='ignore'): Y = tod(X.exp())
		h = {k: v / 16 for k, v in x.items()}
		want = series(sp, h)
		for _ in range(4): want = sp.mul(want, want)
		led.num(C, np.allclose(tovec(sp, Y), tovec(sp, want), atol=1e-7), f'exp in {descr} is not the exponential', kind='value', input={str(k): v for k, v in x.items()}, output={str(k): float(v) for k, v in Y.items()})
		led.num(C, np.array_equal(before, X.values), 'exp changed its operand', kind='value', input={str(k): v for k, v in x.items()})
	# near the threshold of the code: small rotation, translation of order one
	for k in range(1, 13):
		x = {i: rr.uniform(.5, 1) * (10. ** -k if i in rot else 1) for i in bl}
		with np.errstate(all='ignore'): Y = tod(fc.multivector(values=np.array([x[i] for i in bl]), subspace=W).exp())
		led.num(C, np.allclose(tovec(sp, Y), tovec(sp, series(sp, x)), rtol=0, atol=1e-12), f'exp in {descr} is not the exponential at rotation 1e-{k}', kind='value', input={str(i): v for i, v in x.items()}, output={str(i): float(v) for i, v in Y.items()})
	with np.errstate(all='ignore'):
		batches(led, C, fc, V, lambda x: x.exp(), lambda r: r.choice((0., r.uniform(-1, 1))))


KNOWN = ('exponentiate_degenerate_bivector_numpy', 'exponentiate_nondegenerate_bivector_numpy', 'exponentiate_bivector_numpy')


def selection(led, descr, subs):
	"""over the enumerated subspaces: wherever an optimised routine is selected its contract must hold; return the selected"""
	A = Algebra(descr)
	ctx = ctx_of(descr, object)
	sig = tuple(1 if c == '+' else -1 if c == '-' else 0 for c in descr if c in '+-0')
	n = len(sig)
	hit = {M.normalized: set(), M.exp: set()}
	for g in subs:
		V = sub(ctx, g)
		for d in hit:
			f = None
			for cond, fn in d.options:      # only the conditions of the optimised routines are asked
				if getattr(fn, '__module__', '') == optimized.__name__ and cond(V):
					f = fn
					break
			if f is not None: hit[d].add(tuple(order(g)))
		led.ok('selection', 'enumeration', 2)
	for g in hit[M.normalized]:
		led.cover('selected: normalized')
		normalize_case(led, descr, sig, list(g))
	for g in hit[M.exp]:
		led.cover('selected: exp')
		exp_case(led, descr, sig, list(g))


def reference(led):
	"""the exact layouts the routines are written for are the ones of x+y+z+w0 in canonical order"""
	ctx = ctx_of(DESCR, object)
	names = ctx.algebra.description.basis_names
	led.enum('selection', list(names) == ['x', 'y', 'z', 'w'], f'basis names {names}', kind='value')


def main():
	c = Check('C20', MOD)
	c.contract('normalize_3dpga_motor_numpy', ['normalize_3dpga_motor_numpy', 'reverse_study_normalized'], 'y equals the generic normalisation; y ~y = 1; y = s x; operand unchanged')
	c.contract('exponentiate_degenerate_bivector_numpy', ['exponentiate_degenerate_bivector_numpy'], 'd/dt F(tb) = b F(tb), F(0) = 1')
	c.contract('exponentiate_nondegenerate_bivector_numpy', ['exponentiate_nondegenerate_bivector_numpy'], 'd/dt F(tb) = b F(tb), F(0) = 1')
	c.contract('exponentiate_bivector_numpy', ['exponentiate_bivector_numpy'], 'd/dt F(tb) = b F(tb), F at vanishing rotation is 1 + b')
	c.contract('selection', ['conditions registered by numga.multivector.extension.optimized'], 'wherever an optimised implementation is selected, its contract holds')
	c.assumptions += ['generic path: the rotation magnitude exceeds the threshold of the code (1e-20); below it, the value is proved at exactly vanishing rotation only',
	                  'array allocation of the module under proof (np.empty etc.) is redirected to object arrays; everything else is the real numpy']
	T = env.THOROUGH
	# all subspaces of bivector and even type of the algebra itself, random other ones
	E = [b for b in range(16) if popcount(b) % 2 == 0]
	B = [b for b in range(16) if popcount(b) == 2]
	subs = [[k for i, k in enumerate(E) if m >> i & 1] for m in range(1, 256)]
	r = rng('c20')
	subs += [order(r.sample(range(16), r.randint(1, 15))) for _ in range(300)]
	subs += [order(g) for g in grade_combos(4)]
	c.task('reference')
	c.task('selection', DESCR, subs)
	others = ['x+y+w0z+', 'w0x+y+z+', 'x+w0y+z+', 'x+y+z+w+', 'x+y+z+w-', 'x-y-z-w0', 'x-y+z+w0', 'x+y-z+w0', 'x+y+z-w0', 'x+y+z0w0', 'y+x+z+w0', 'z+y+x+w0', 'x+z+y+w0', 'a+b+c+d0', 'x+y+z+w0v0', 'x+y+z+w0v+', 'v+x+y+z+w0', 'x+y+z+', 'x+y+w0', 'x+y+z+e0', 'x0y+z+w+', 'x-y-z+w0', 'x0y0z0w0', 'w+x+y+z0']
	if T: others += [''.join(n + s for n, s in zip('xyzw', ss)) for ss in itertools.product('+-0', repeat=4)] + [''.join(n + '+0'[n == 'w'] for n in p) for p in itertools.permutations('xyzw')]
	for d in others:
		n = sum(ch in '+-0' for ch in d)
		ev = [b for b in range(1 << n) if popcount(b) % 2 == 0]
		bi = [b for b in ev if popcount(b) == 2]
		ss = [ev, bi, [0] + bi] + [list(p) for k in (3, 4, 6, 7) for p in itertools.combinations(ev, k)][:3000]
		c.task('selection', d, [order(s) for s in ss if s])
	c.run()
	return c.finish()
