"""C24: rounding and truncation bounds: the real code is executed on error intervals (dv/rounding.py) that stand for every input of a box."""
import inspect, math, operator
import dv.env as env
from dv.core import *
from dv.families import *
from dv.rounding import Err, Out, up
from dv.checks.c15 import power
from numga.backend.numpy.context import NumpyContext
from numga.backend.numpy.operator import NumpySparseOperator, NumpyEinsumOperator
from numga.multivector.multivector import AbstractMultiVector as M
import numga.multivector.extension
from numga.multivector.extension import logexp
import warnings
warnings.filterwarnings('ignore', category=RuntimeWarning)

MOD = __name__
SIGS = [s for n in (1, 2, 3) for s in pqr_signatures(n)] + pqr_signatures(4) + [(1, 1, 1, 1, 0), (1, 1, 1, 1, 1), (1, 1, 1, 1, -1)]
PGA = [(1, 1), (1, 0), (1, 1, 0), (1, 1, 1), (1, 1, 1, 0), (1, 1, 1, 1), (1, 1, 1, 1, 0), (1, 1, 1, 1, 1)]
TOL = dict(products=1e-12, inverse=1e-10, normalisation=1e-10, exponential=1e-7, logarithm=1e-7)
_ctx = {}


def ctx_of(sig, otype=NumpyEinsumOperator, dtype=object):
	k = sig, otype, str(dtype)
	if k not in _ctx: _ctx[k] = NumpyContext(algebra(sig), dtype=dtype, otype=otype)
	return _ctx[k]


def box(g, c, one=0.0):
	return {b: (Err(one - c, one + c) if b == 0 else Err(-c, c)) for b in order(g)}


def grades(n, *ks): return [b for b in range(1 << n) if popcount(b) in ks]
def even(n): return grades(n, *range(0, n + 1, 2))


def bound(v):
	"""error bound of one result coefficient"""
	return v.e if isinstance(v, Err) else 0.0


def analyse(led, C, name, sig, ins, code, extra=0.0, otype=NumpyEinsumOperator, refine=None):
	"""one obligation per result coefficient: error bound (plus truncation) within the tolerance, for all inputs of the box"""
	t0 = time.process_time()
	try:
		ctx = ctx_of(sig, otype)
		o = code(*[mv(ctx, d) for d in ins])
		o = [todict(x) for x in (o if isinstance(o, tuple) else (o,))]
	except Exception as e:
		led.open[C, f'{name}: {type(e).__name__}: {e}'[:120]] += 1
		return False
	finally: led.seconds['error analysis'] += time.process_time() - t0
	ok = True
	for d in o:
		for b, v in d.items():
			if bound(v) + extra <= TOL[C]: led.ok(C, 'error analysis')
			else:
				ok = False
				led.open[C, f'{name}: bound {bound(v) + extra:.2g}'] += 1
	if ok:
		led.cover(f'{C}: cases')
		w = max((bound(v) for d in o for v in d.values()), default=0.)
		led.covers[f'{C}: largest rounding bound below 1e{math.ceil(math.log10(max(w, 1e-17)))}'] += 1
		if len(led.samples) < 3: led.samples.append(f'{name} {sig}: rounding {w:.3g}, truncation {extra:.3g}')
	return ok


def sample(r, ins, t=0):
	"""machine numbers of the boxes, corners and neighbourhoods of the centre included"""
	s = [1.0, 1.0, 2.0 ** -10, 1.0, 2.0 ** -30, 0.0, 2.0 ** -20, 1.0][t % 8]
	def pick(v):
		m = (v.lo + v.hi) / 2
		return min(max(m + s * (r.choice([v.lo, v.hi, r.uniform(v.lo, v.hi), r.uniform(v.lo, v.hi)]) - m), v.lo), v.hi)
	return [{b: pick(v) for b, v in d.items()} for d in ins]


def compare(led, C, name, sig, ins, code, want, k=2, otype=NumpyEinsumOperator, batch=True):
	"""bounded: the double precision result against the exact one, on inputs of the boxes"""
	r = rng('c24', C, name, sig)
	ctx = ctx_of(sig, otype, np.float64)
	def check(o, refs, vals, what):
		o = o if isinstance(o, tuple) else (o,)
		for i, x in enumerate(o):
			led.num(C, x.values.dtype == np.float64, f'{name} {sig}: result of type {x.values.dtype}', kind='value', signature=sig)
			bl = [int(b) for b in x.subspace.blades]
			rows = np.asarray(x.values).reshape(-1, len(bl)) if bl else np.zeros((len(refs), 0))
			if len(rows) != len(refs): rows = np.broadcast_to(rows, (len(refs), len(bl)))
			for row, ref, v in zip(rows.tolist(), refs, vals):
				y = ref[i]
				w = max([abs(float(Fraction(c) - y.get(b, 0))) if math.isfinite(c) else math.inf for b, c in zip(bl, row)] + [abs(float(y[b])) for b in y if b not in bl] + [0.0])
				led.num(C, w <= TOL[C], f'{name} sig={"".join(SIGN[s] for s in sig)}{what}: differs from the exact result by {w:.3g}', kind='value', signature=sig,
				        input=[{str(b): c for b, c in d.items()} for d in v], output={str(b): c for b, c in zip(bl, row)})
	got = []
	for t in range(k):
		vals = sample(r, ins, t)
		try: ref = want([{b: Fraction(v) for b, v in d.items()} for d in vals])
		except Exception: return                    # the code does not run on rationals: no reference
		with np.errstate(all='ignore'):
			check(code(*[mv(ctx, d) for d in vals]), [ref], [vals], '')
		got.append((vals, ref))
	if not batch: return
	got = (got * 6)[:6]
	def stack(i):
		V = sub(ctx, list(ins[i]))
		return ctx.multivector(values=np.array([[v[i][int(b)] for b in V.blades] for v, _ in got], dtype=float).reshape(2, 3, -1), subspace=V)
	with np.errstate(all='ignore'):
		check(code(*[stack(i) for i in range(len(ins))]), [ref for _, ref in got], [v for v, _ in got], ' (batch)')


def exactly(sig, code):
	"""the same code on rationals"""
	def f(vals):
		o = code(*[mv(ctx_of(sig), d) for d in vals])
		return [{b: Fraction(v) for b, v in todict(x).items()} for x in (o if isinstance(o, tuple) else (o,))]
	return f


# ---------------------------------------------------------------- products
BINARY = ['product', 'wedge', 'inner', 'anti_product', 'anti_wedge', 'regressive', 'cross', 'commutator', 'anti_commutator', 'left_contract', 'right_contract', 'scalar_product', 'bivector_product', 'reverse_product']
UNARY = ['squared', 'symmetric_reverse_product', 'symmetric_conjugate_product', 'symmetric_scalar_negation_product', 'symmetric_involute_product', 'reverse', 'dual', 'norm_squared']


def reference(sp, op):
	two = {'product': sp.mul, 'wedge': sp.wedge, 'inner': sp.inner, 'left_contract': sp.lc, 'right_contract': sp.rc, 'reverse_product': lambda x, y: sp.mul(x, sp.reverse(y)),
	       'scalar_product': lambda x, y: sp.grade(sp.mul(x, y), 0), 'bivector_product': lambda x, y: sp.grade(sp.mul(x, y), 2)}
	one = {'squared': lambda x: sp.mul(x, x), 'symmetric_reverse_product': lambda x: sp.mul(x, sp.reverse(x)), 'norm_squared': lambda x: sp.mul(x, sp.reverse(x)), 'symmetric_conjugate_product': lambda x: sp.mul(x, sp.conjugate(x)), 'reverse': sp.reverse}
	return two.get(op) or one.get(op)


def products(led, sig):
	n, C, sp = len(sig), 'products', spec(sig)
	full, ev, vec = list(range(1 << n)), even(n), grades(n, 1)
	for ot in (NumpyEinsumOperator, NumpySparseOperator):
		for op in BINARY + UNARY:
			if not hasattr(M, op): continue
			k = 2 if op in BINARY else 1
			for g in ([full] if n < 5 else []) + [ev] + [vec]:
				ins = [box(g, 1.0) for _ in range(k)]
				def code(*x): return getattr(x[0], op)(*x[1:])
				try: code(*[mv(ctx_of(sig, ot, np.float64), {b: 1.0 for b in g}) for _ in range(k)])
				except Exception: continue                 # not defined for these operands: other properties decide that
				analyse(led, C, f'{op} <{len(g)}>', sig, ins, code, otype=ot)
				ref = reference(sp, op)
				compare(led, C, f'{op} <{len(g)}>', sig, ins, code, (lambda v: [ref(*v)]) if ref else exactly(sig, code), 2, ot)
		if n > 1:
			ins = [box(ev, 1.0), box(vec, 1.0)]
			for nm, code in (('sandwich', lambda m, v: m.sandwich(v)), ('m >> v', lambda m, v: m >> v), ('sandwich_map', lambda m, v: m.sandwich_map(v.subspace)(v))):
				analyse(led, C, nm, sig, ins, code, otype=ot)
				compare(led, C, nm, sig, ins, code, exactly(sig, code), 2, ot)
		for nm, f in (('sum', operator.add), ('difference', operator.sub)):
			ins = [box(full, 1.0), box(ev, 1.0)]
			analyse(led, C, nm, sig, ins, f, otype=ot)
			compare(led, C, nm, sig, ins, f, exactly(sig, f), 1, ot)


# ---------------------------------------------------------------- inverse and division
def inverses(led, sig):
	n, C, sp = len(sig), 'inverse', spec(sig)
	sets = {'scalar': [0], 'even': even(n), 'full': list(range(1 << n)), 'vector and scalar': grades(n, 0, 1), 'bivector and scalar': grades(n, 0, 2), 'study': grades(n, 0, n)}
	c = 1 / 64 if n < 5 else 1 / 256
	for nm, g in sets.items():
		ins = [box(g, c, 1.0)]
		code = lambda x: x.inverse()
		analyse(led, C, f'inverse of 1 + small, {nm}', sig, ins, code)
		compare(led, C, f'inverse of 1 + small, {nm}', sig, ins, code, exactly(sig, code), 2)
		if nm in ('even', 'scalar', 'vector and scalar'):
			ins = [box(grades(n, 1), 1.0), box(g, c, 1.0)]
			code = lambda y, x: y / x
			analyse(led, C, f'division by 1 + small, {nm}', sig, ins, code)
			compare(led, C, f'division by 1 + small, {nm}', sig, ins, code, exactly(sig, code), 2)


# ---------------------------------------------------------------- roots and normalisation
def roots(led, sig):
	n, C, sp = len(sig), 'normalisation', spec(sig)
	c = 1 / 32 if n < 5 else 1 / 64
	near = lambda g: [box(g, c, 1.0)]
	for nm, g, code, res in (
		('normalized', even(n), lambda x: x.normalized(), lambda x, y: sp.sub(sp.mul(y, sp.reverse(y)), {0: 1})),
		('motor_square_root', even(n), lambda x: x.motor_square_root(), lambda x, y: sp.sub(sp.mul(y, sp.reverse(y)), {0: 1})),
		('square_root of a scalar', [0], lambda x: x.square_root(), lambda x, y: sp.sub(sp.mul(y, y), x)),
		('inverse_square_root of a scalar', [0], lambda x: x.inverse_square_root(), lambda x, y: sp.sub(sp.mul(sp.mul(y, y), x), {0: 1})),
		('norm', even(n) if n < 6 else [0], lambda x: x.norm(), lambda x, y: sp.sub(sp.mul(y, y), sp.mul(x, sp.reverse(x)))),
		('square_root of a study number', grades(n, 0, 4) if n > 3 else grades(n, 0, n), lambda x: x.square_root(), lambda x, y: sp.sub(sp.mul(y, y), x)),
	):
		try: code(mv(ctx_of(sig, dtype=np.float64), {b: float(b == 0) for b in order(g)}))
		except Exception: continue
		analyse(led, C, nm, sig, near(g), code)
		r = rng('c24r', sig, nm)
		for t in range(6):
			x, = sample(r, near(g), t)
			o = code(mv(ctx_of(sig, dtype=np.float64), x))
			e = max([abs(float(v)) for v in res({b: Fraction(v) for b, v in x.items()}, {b: Fraction(v) for b, v in todict(o).items()}).values()] + [0.0])
			led.num(C, e <= 8 * TOL[C] and o.values.dtype == np.float64, f'{nm} {sig}: residual {e:.3g}', kind='value', signature=sig, input={str(b): v for b, v in x.items()})


# ---------------------------------------------------------------- exponential and logarithm
def depth(f):
	p = inspect.signature(f).parameters
	d = [v.default for k, v in p.items() if isinstance(v.default, int)]
	if len(d) != 1: raise Unsupported('number of bisections')
	return d[0]


def shift(beta, N):
	"""|2 N artanh(b / 2N) - b| and |2 N tanh(b / 2N) - b| <= sum over the tail of the artanh series, for a submultiplicative norm |b| <= beta < 2N"""
	z = beta / (2 * N)
	return up(2 * N * z ** 3 / 3 / (1 - z * z) * (1 + 1e-9))


def truncation_exp(beta, N):
	"""Cayley(b/N)^N = e^(b + d), d = 2N artanh(b/2N) - b commutes with b"""
	return up(math.exp(beta) * math.expm1(shift(beta, N)) * (1 + 1e-9))


def series_box(sp, b, beta):
	"""enclosure of e^b over the box: the series in intervals, remainder in the norm"""
	one = {0: Err(1.0, 1.0)}
	out, t, K = one, one, 12
	f = 1
	for k in range(1, K + 1):
		f *= k
		t = {i: v for i, v in sp.mul(t, b).items()} if k > 1 else b
		out = sp.add(out, {i: (v if isinstance(v, Err) else Err(float(v), float(v))) * Err(up(1 / f) * (1 - 1e-15), up(1 / f)) for i, v in t.items()})
	rem = up(beta ** (K + 1) / math.factorial(K + 1) * math.exp(beta))
	out = {i: (v if isinstance(v, Err) else Err(float(v), float(v))) for i, v in out.items()}
	return {i: Err(v.lo - rem - 1e-15, v.hi + rem + 1e-15) for i, v in out.items()}


def exact_series(sp, b, K=28):
	b = {k: Fraction(v) for k, v in b.items()}
	out = t = {0: Fraction(1)}
	for k in range(1, K):
		t = {i: Fraction(round(v / k * 2 ** 200), 2 ** 200) for i, v in sp.mul(t, b).items()}
		out = sp.add(out, t)
	return out


def sizes(n): return (1.0, .25) if n < 4 else (.25,)


def exponential(led, sig):
	n, C, sp = len(sig), 'exponential', spec(sig)
	B = grades(n, 2)
	fams = [B] + [[b] for b in B[:3]]
	for g in fams:
		for c in sizes(n):
			ins = [box(g, c)]
			for nm, code, cut in (('exp', lambda b: b.exp(), True), ('exp_bisect', lambda b: b.exp_bisect(), True)):
				try:
					N = 2 ** depth(logexp.exp_bisect)
					extra = truncation_exp(len(g) * c, N)
				except (Unsupported, ValueError, TypeError, AttributeError) as e:
					led.open[C, f'{nm}: {e}'[:100]] += 1
					ok = False
				else: ok = analyse(led, C, f'{nm} of <{len(g)}> up to {c}', sig, ins, code, extra)
				compare(led, C, f'{nm} of <{len(g)}> up to {c}', sig, ins, code, lambda v: [exact_series(sp, v[0])], 6 if ok else 40)
			if c > .25: continue
			near = [box(g, c / 4)]
			for nm, code in (('exp_quadratic', lambda b: b.exp_quadratic()), ('exp_linear_normalized', lambda b: b.exp_linear_normalized()), ('exp_linear', lambda b: b.exp_linear())):
				analyse(led, C, nm, sig, near, code)
	ins = [box([0], 1.0)]
	compare(led, C, 'exp of a scalar', sig, ins, lambda x: x.exp(), lambda v: [exact_series(sp, v[0])], 6)


class Refined:
	"""motor_square_root under its contract (C14): the root of e^(b/2^k) is e^(b/2^(k+1)); error bounds come from the real code, ranges from the enclosure"""
	def __init__(self, sp, b, x): self.sp, self.b, self.last, self.k = sp, b, x, 0
	def __enter__(self):
		self.old = M.__dict__.get('motor_square_root', getattr(M, 'motor_square_root'))
		def root(x, *a, **kw):
			y = self.old(x, *a, **kw) if not hasattr(self.old, '__get__') else self.old.__get__(x, type(x))(*a, **kw)
			if any((v.lo, v.hi) != (self.last[i].lo, self.last[i].hi) if isinstance(v, Err) and i in self.last else v for i, v in todict(x).items()): raise Out('a root of something else')
			self.k += 1
			s = 2.0 ** -self.k
			bb = {i: v * s for i, v in self.b.items()}
			enc = series_box(self.sp, bb, sum(v.exact_mag for v in bb.values()))
			d = todict(y)
			new = {}
			for i, v in d.items():
				e = v.e if isinstance(v, Err) else 0.0
				q = enc.get(i, Err(0.0, 0.0))
				new[i] = Err(q.lo, q.hi, e)
			self.last = new
			return mv(x.context, new)
		M.motor_square_root = root
		return self
	def __exit__(self, *a): M.motor_square_root = self.old


def logarithm(led, sig):
	n, C, sp = len(sig), 'logarithm', spec(sig)
	B = grades(n, 2)
	r = rng('c24l', sig)
	for g in [B] + [[b] for b in B[:3]]:
		for c in ([.25] if n < 4 else [1 / 16] if n < 5 else [1 / 32]) :
			b = box(g, c)
			beta = len(g) * c
			try:
				N = 2 ** depth(logexp.motor_log_bisect)
				extra = shift(beta * 1.01, N)
				E = series_box(sp, b, beta)
				x = {i: Err(E[i].lo, E[i].hi) if i in E else Err(0.0, 0.0) for i in order(set(E) | set(even(n) if g is B else []))}
			except (Unsupported, ValueError, TypeError, AttributeError, Out) as e:
				led.open[C, f'{e}'[:100]] += 1
				ok = False
			else:
				ok = True
				for nm, code in (('motor_log', lambda m: m.motor_log()), ('motor_log_bisect', lambda m: m.motor_log_bisect())):
					with Refined(sp, b, x): ok &= analyse(led, C, f'{nm} on <{len(x)}> up to {c}', sig, [x], code, extra)
			for t in range(6 if ok else 40):
				v, = sample(r, [b], t)
				m = exact_series(sp, v)
				keys = order(set(m) | set(even(n) if g is B else []))
				for nm in ('motor_log', 'motor_log_bisect'):
					l = getattr(mv(ctx_of(sig, dtype=np.float64), {i: float(m.get(i, 0)) for i in keys}), nm)()
					e = max([abs(float(y)) for y in sp.sub(todict(l), v).values()] + [0.0])
					led.num(C, e <= TOL[C] and l.values.dtype == np.float64, f'{nm} sig={"".join(SIGN[s] for s in sig)}: off by {e:.3g}', kind='value', signature=sig, input={str(k): q for k, q in v.items()}, output={str(k): float(q) for k, q in todict(l).items()})


def main():
	c = Check('C24', MOD)
	c.contract('products', ['AbstractMultiVector: products, sandwiches, sums', 'NumpyEinsumOperator.__call__', 'NumpySparseOperator.__call__', 'NumpyOperator.partial'], f'coefficients at most 1: every result coefficient within {TOL["products"]} of the exact one')
	c.contract('inverse', ['mv.inverse and the functions it recurses into', 'AbstractMultiVector.__truediv__'], f'operands within 1/64 (5 dimensions 1/256) of 1: within {TOL["inverse"]}')
	c.contract('normalisation', ['mv.normalized', 'mv.norm', 'mv.square_root', 'mv.inverse_square_root', 'mv.motor_square_root'], f'operands within 1/32 (5 dimensions 1/64) of 1: within {TOL["normalisation"]}')
	c.contract('exponential', ['mv.exp', 'mv.exp_bisect', 'mv.exp_quadratic', 'mv.exp_linear_normalized'], f'bivectors with coefficients up to 1/4 (up to 1 below 4 dimensions): within {TOL["exponential"]} of the true exponential, rounding plus truncation')
	c.contract('logarithm', ['mv.motor_log', 'mv.motor_log_bisect', 'motor_log_cayley', 'mv.motor_square_root'], f'motors e^b, coefficients of b up to 1/4 (1/16, 1/32 in 4, 5 dimensions): within {TOL["logarithm"]} of b')
	c.trusted.append('the standard model of double precision (round to nearest, no overflow), also for numpy einsum with any order of summation; sqrt correctly rounded, power(-1/2) within 4 units')
	c.assumptions += ['the exact value of the exponential code is the 2^n-th power of the Cayley map, of the logarithm code 2^n times the Cayley logarithm of the root, n the declared default (C15)',
	                  'motor_square_root of e^b is e^(b/2) near 1 (C14): used for the ranges, not for the errors']
	T = env.THOROUGH
	for sig in (SIGS if not T else [s for n in (1, 2, 3) for s in ordered_signatures(n)] + pqr_signatures(4) + pqr_signatures(5)):
		c.task('products', sig)
		c.task('inverses', sig)
		c.task('roots', sig)
	for sig in (PGA + [(1, -1), (1, 1, -1), (1, 1, 1, -1)] if not T else [s for n in (2, 3) for s in ordered_signatures(n)] + pqr_signatures(4) + pqr_signatures(5)):
		if len(grades(len(sig), 2)):
			c.task('exponential', sig)
			c.task('logarithm', sig)
	c.run()
	return c.finish()
