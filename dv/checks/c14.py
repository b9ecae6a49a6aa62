"""C14: roots, norms, normalisation: equations modulo the defining relations of the real roots met on the way."""
import dv.env as env
from dv.core import *
from dv.families import *
from dv import backends
from numga.multivector.multivector import AbstractMultiVector as M
import numga.multivector.extension
import warnings
warnings.filterwarnings('ignore', category=RuntimeWarning)

MOD = __name__


def families(sig, T):
	n = len(sig)
	if n <= 2: return list(all_subsets(n, empty=False))
	if n == 3:
		r = rng('c14f', sig)
		return list(grade_combos(3)) + [random_subset(r, 3) for _ in range(60 if T else 20)]
	r = rng('c14f', sig)
	return list(grade_combos(n)) + [random_subset(r, n, .15) for _ in range(40 if T else 12)] + [order(r.sample(range(1 << n), 2)) for _ in range(20)]


def roots(led, sig, T):
	"""square_root / inverse_square_root on every subspace of scalars and study numbers"""
	ctx = context(sig)
	sp = spec(sig)
	for g in families(sig, T):
		V = sub(ctx, g)
		if not (V.inside.scalar() or V.is_study):
			continue
		# specification of study numbers: x times its scalar negation is a scalar
		if rootless(sp, g): continue
		led.cover('study subspaces')
		def sq(sp, s, r):
			real_root(sp, s)
			return dict(square=sp.sub(sp.mul(r, r), s))
		def isq(sp, s, r):
			real_root(sp, s)
			return dict(square=sp.sub(sp.mul(sp.mul(r, r), s), {0: 1}))
		sq.total = isq.total = True       # in the domain a result that is not a number is a violation
		prove(led, 'square_root', 'square_root', sig, [g], lambda c, s: s.square_root(), sq, concrete=3, tol=1e-6)
		prove(led, 'inverse_square_root', 'inverse_square_root', sig, [g], lambda c, s: s.inverse_square_root(), isq, concrete=3, tol=1e-6)
		prove(led, 'study_norm', 'study_norm', sig, [g], lambda c, s: s.study_norm(), lambda sp, s, r: dict(norm=sp.sub(sp.mul(r, r), sp.mul(s, sp.scalar_negation(s)))), concrete=3, tol=1e-6)
		prove(led, 'study_norm', 'study_norm_squared', sig, [g], lambda c, s: s.study_norm_squared(), lambda sp, s, r: dict(norm=sp.sub(r, sp.mul(s, sp.scalar_negation(s)))))


def real_root(sp, q):
	"""domain: the study number q (concrete) has a real square root, bounded away from zero"""
	if any(isinstance(v, Sym) for v in q.values()): return
	N = float(sp.mul(q, sp.scalar_negation(q)).get(0, 0))
	s = max([1.0] + [abs(float(v)) for v in q.values()])
	if not N > 1e-6 * s * s: raise Skip('no real root')
	if not float(q.get(0, 0)) + N ** .5 > 1e-3 * s: raise Skip('no real root')


def rootless(sp, g, norm=False):
	"""no element of <g> (or no norm of one) has an invertible root: N = s * scalar_negation(s) vanishes identically"""
	R = Ring()
	q = {b: R.var(f'x{b}') for b in g}
	if norm: q = sp.mul(q, sp.reverse(q))
	return is_zero(sp.mul(q, sp.scalar_negation(q)).get(0, 0))


def post_motor_root(sp, m, r):
	p = sp.add(m, {0: 1})
	real_root(sp, sp.mul(p, sp.reverse(p)))
	return dict(square=sp.sub(sp.mul(r, r), m))


def study_expected(sp, g):
	"""by the specification: is x * scalar_negation(x) scalar for all x in <g>"""
	R = Ring()
	x = {b: R.var(f'x{b}') for b in g}
	return all(is_zero(v) for b, v in sp.mul(x, sp.scalar_negation(x)).items() if b)


def normalisation(led, sig, T):
	ctx = context(sig)
	sp = spec(sig)
	r = rng('c14n', sig)
	for g in families(sig, T):
		V = sub(ctx, g)
		prove(led, 'norm_squared', 'norm_squared', sig, [g], lambda c, x: x.norm_squared(), lambda sp, x, q: dict(value=sp.sub(q, sp.mul(x, sp.reverse(x)))))
		Q = V.symmetric_reverse()
		if not (Q.inside.scalar() or Q.is_study) or not len(Q) or rootless(sp, g, True):
			continue
		led.cover('normalisable subspaces')
		if V.inside.scalar() or Q.equals.scalar() or Q.is_study:
			prove(led, 'norm', 'norm', sig, [g], lambda c, x: x.norm(), post_norm, concrete=2, tol=1e-5)
		if Q.equals.scalar() or (Q.is_study and len(g) <= (16 if T else 11)):
			prove(led, 'normalized', 'normalized', sig, [g], lambda c, x: x.normalized(), post_normalized, concrete=2, tol=1e-5)


def post_norm(sp, x, y):
	q = sp.mul(x, sp.reverse(x))
	real_root(sp, q)
	return dict(square=sp.sub(sp.mul(y, y), q))


def post_normalized(sp, x, y):
	q = sp.mul(x, sp.reverse(x))
	real_root(sp, q)
	p = sp.mul(y, sp.reverse(x))
	return dict(unit=sp.sub(sp.mul(y, sp.reverse(y)), {0: 1}), multiple=sp.sub(p, sp.reverse(p)), commutes=sp.sub(sp.mul(p, q), sp.mul(q, p)))


post_norm.total = post_normalized.total = post_motor_root.total = True


def normalized_modular(led, sig, g):
	"""large study subspaces: normalized() with square_root() and inverse() of the norm replaced by their contracts:
	the code computes s x with s the inverse root of x ~x"""
	ctx = context(sig)
	sp = spec(sig)
	V = sub(ctx, g)
	Q = V.symmetric_reverse()
	if not (Q.is_study and not Q.equals.scalar() and len(Q)) or rootless(sp, g, True):
		return
	R = Ring()
	x = ctx.multivector(values=obj([R.var(f'x{int(b)}') for b in V.blades]), subspace=V)
	seen = {}
	sr, iv = M.__dict__['square_root'], M.__dict__['inverse']
	sf = context(sig, np.float64)
	try:
		W = sf.multivector(values=[1.5] + [.01] * (len(Q) - 1), subspace=Q)
		S = W.square_root().subspace
		I = W.square_root().inverse().subspace
		class Root:
			def __get__(self, inst, owner):
				def call():
					seen.setdefault('q', todict(inst))
					seen['root'] = ctx.multivector(values=obj([R.var(f'c{int(b)}') for b in S.blades]), subspace=S)
					return seen['root']
				return call
		class Inv:
			def __get__(self, inst, owner):
				def call():
					if inst is not seen.get('root'): raise Unsupported('inverse of something else')
					seen['s'] = todict(ctx.multivector(values=obj([R.var(f's{int(b)}') for b in I.blades]), subspace=I))
					return ctx.multivector(values=obj(list(seen['s'].values())), subspace=I)
				return call
		M.square_root, M.inverse = Root(), Inv()
		y = todict(x.normalized())
	except (Unsupported, Undefined, RecursionError, ZeroDivisionError, AttributeError):
		y = None
	finally:
		M.square_root, M.inverse = sr, iv
	X = todict(x)
	name = f'normalized (modular) in <{V.named_str}>'
	if y is not None and 's' in seen:
		a = sp.sub(seen['q'], sp.mul(X, sp.reverse(X)))
		b = sp.sub(y, sp.mul(seen['s'], X))
		if all(is_zero(v) for d in (a, b) for v in d.values()):
			led.ok('normalized', 'normal-form', len(a) + len(b))
			led.cover('normalized: cases from the contracts of square_root and inverse')
			from dv.checks.c13 import rationals
			return fl_check(led, 'normalized', name, sig, [g], lambda c, x: x.normalized(), post_normalized, 2)
	led.open['normalized', 'not of the form s x'] += 1
	fl_check(led, 'normalized', name, sig, [g], lambda c, x: x.normalized(), post_normalized, 12)


def fl_check(led, contract, name, sig, ins, code, post, k, tol=1e-5, draw=None):
	"""bounded: machine numbers near 1 (roots real), postcondition evaluated on the result"""
	sp = spec(sig)
	ctx = context(sig, np.float64)
	r = rng('fl', contract, name, sig)
	done = bad = 0
	exc = None
	for t in range(4 * k):
		if done >= k: break
		vals = draw(r) if draw else [{b: (r.uniform(.5, 2) if b == 0 else r.uniform(-.6, .6)) for b in order(g)} for g in ins]
		try:
			with np.errstate(all='ignore'):
				outs = code(ctx, *[mv(ctx, v) for v in vals])
			outs = [todict(o) for o in (outs if isinstance(outs, tuple) else (outs,))]
		except (ZeroDivisionError, Skip, Unsupported): continue
		except Exception as e:
			bad += 1; exc = e
			continue
		if any(not abs(float(v)) < 1e6 for o in outs for v in o.values()) and not getattr(post, 'total', False): continue
		try: res = post(sp, *vals, *outs)
		except Skip: continue
		w = bad_residual(res, vals, outs, tol)
		if w:
			led.violate(contract, f'{name} sig={"".join(SIGN[s] for s in sig)}: equation {w[0]} fails at blade {w[1]} by {w[2]:.3g}', kind='value', signature=sig, input=[{str(b): float(v) for b, v in d.items()} for d in vals], output=[{str(b): float(v) for b, v in d.items()} for d in outs])
			return False
		done += 1
	if not done and bad:
		led.violate(contract, f'{name} sig={sig}: raised {type(exc).__name__}: {exc}', kind='exception', signature=sig, input=[order(g) for g in ins], trace=traceback.format_exception(exc)[-3:])
		return False
	led.bounded[contract] += done
	return True


# ---------------------------------------------------------------- square root of unit motors
def unit_even(sig, rest):
	"""symbolic unit motor in dimension < 4: free odd-reverse part, scalar with the square that makes m ~m = 1"""
	def gen(R, sp):
		m = {b: R.var(f'm{b}') for b in rest}
		q = sp.mul(m, sp.reverse(m))
		m[0] = R.square_var('m0', 1 - q.get(0, 0))
		return {b: m[b] for b in order(m)}
	return gen


def motor_root(led, sig, rest):
	ok = prove_sym(led, 'motor_square_root', 'motor_square_root', sig, unit_even(sig, rest), lambda m: m.motor_square_root(), post_motor_root)
	fl_check(led, 'motor_square_root', f'motor_square_root in <0,{",".join(map(str, rest))}>', sig, [], lambda c, m: m.motor_square_root(), post_motor_root, 3 if ok else 12, draw=lambda r: [unit_motor(spec(sig), r, rest)])


def unit_motor(sp, r, rest):
	"""random unit motor: product of Cayley rotors of simple bivectors inside the even subalgebra generated by the part `rest`"""
	b = {k: r.uniform(-.4, .4) for k in rest if popcount(k) == 2}
	m = {0: 1.0}
	for k, v in b.items():
		p = {0: 1.0, k: v}
		q = sp.mul(p, sp.reverse(p))
		m = sp.mul(m, sp.scale(sp.mul(p, p), 1 / q[0]))
	m.setdefault(0, 0.0)
	keys = set(m) | {0} | set(rest)
	return {k: m.get(k, 0.0) for k in order(keys)}


def half_turns(led, sig):
	"""bounded: unit motors without scalar part (half turns, and their products with small motors), where denominators tacitly assumed nonzero vanish"""
	sp, n = spec(sig), len(sig)
	even = [b for b in range(1 << n) if popcount(b) % 2 == 0]
	for b in even:
		if popcount(b) != 2 or sp.mul({b: 1}, {b: 1}).get(0) != -1: continue
		for g in ([b], [0, b], even):
			m = {k: float(k == b) for k in order(g)}
			fl_check(led, 'motor_square_root', f'motor_square_root of the half turn {b} in <{g}>', sig, [], lambda c, x: x.motor_square_root(), post_motor_root, 1, draw=lambda r: [dict(m)])
			for o in (even, [0, b]):
				fl_check(led, 'motor_geometric_mean', f'motor_geometric_mean of the half turn {b} in <{g}>', sig, [], lambda c, l, r: l.motor_geometric_mean(r), post_mean, 1, draw=lambda r: [dict(m), unit_motor(sp, r, [k for k in o if k])])
				fl_check(led, 'motor_geometric_mean', f'motor_geometric_mean to the half turn {b} in <{g}>', sig, [], lambda c, l, r: l.motor_geometric_mean(r), post_mean, 1, draw=lambda r: [unit_motor(sp, r, [k for k in o if k]), dict(m)])


def prove_sym(led, contract, name, sig, gen, code, post, **kw):
	"""identity on a constrained symbolic input; True if discharged, None if not (left to the bounded stand-in)"""
	t0 = time.process_time()
	R, sp, ctx = Ring(), spec(sig), context(sig)
	label = f'{name} sig={"".join(SIGN[s] for s in sig)}'
	try:
		x = gen(R, sp)
		xs = x if isinstance(x, tuple) else (x,)
		outs = code(*[mv(ctx, d) for d in xs])
		outs = [todict(o) for o in (outs if isinstance(outs, tuple) else (outs,))]
		res = post(sp, *xs, *outs)
		flat = [(nm, b, v) for nm, d in res.items() for b, v in d.items()]
		bad = [(nm, b) for nm, b, v in flat if not is_zero(v)]
	except (Unsupported, RecursionError, Undefined, MemoryError) as e:
		led.open[contract, f'{type(e).__name__}: {e}'[:120]] += 1
		return None
	except Exception as e:
		led.open[contract, f'raised {type(e).__name__}: {e}'[:120]] += 1
		return None
	finally:
		led.seconds['normal-form'] += time.process_time() - t0
	led.ok(contract, 'normal-form', max(1, len(flat) - len(bad)))
	led.cover(f'{contract}: cases')
	if len(led.samples) < 3: led.samples.append(f'{label} in <{",".join(str(b) for d in xs for b in d)}>: {len(flat)} equations')
	if bad:
		led.open[contract, f'not reduced to zero: {label} {bad[:3]}'[:150]] += 1
		return None
	return True


def motor_root_modular(led, sig):
	"""dimension 4 and 5: motor_square_root(m) is normalized(m + 1), and the lemma over commuting s, m, n = ~m:
	(s(1+m))^2 - m = m (s^2 (1+m)(1+n) - 1) + (s^2)(...)(1 - m n)"""
	C = 'motor_square_root'
	R = Ring()
	s, m, n = R.vars('s', 3)
	lhs = (s * (1 + m)) ** 2 - m
	rhs = m * (s * s * (1 + m) * (1 + n) - 1) + s * s * (1 + m) * (1 - m * n)
	led.enum('lemma', is_zero(lhs - rhs), 'lemma (s(1+m))^2 = m fails')
	ctx, sp = context(sig), spec(sig)
	V = ctx.subspace.even_grade()
	x = ctx.multivector(values=obj([R.var(f'm{int(b)}') for b in V.blades]), subspace=V)
	nz = M.__dict__['normalized']
	seen = {}
	class N:
		def __get__(self, inst, owner):
			def call():
				seen['arg'] = todict(inst)
				seen['out'] = ctx.multivector(values=obj([R.var(f'r{int(b)}') for b in V.blades]), subspace=V)
				return seen['out']
			return call
	M.normalized = N()
	try: y = x.motor_square_root()
	except (Unsupported, AttributeError, RecursionError): y = None
	finally: M.normalized = nz
	ok = y is not None and 'arg' in seen and all(is_zero(v) for v in sp.sub(seen['arg'], sp.add(todict(x), {0: 1})).values()) and all(is_zero(v) for v in sp.sub(todict(y), todict(seen['out'])).values())
	if ok:
		led.ok(C, 'normal-form', 2 * len(V))
		led.cover('motor_square_root: from the contract of normalized')
	else:
		led.open[C, 'not of the form normalized(m + 1)'] += 1
	for rest in ([b for b in range(1 << len(sig)) if popcount(b) % 2 == 0 and b],):
		fl_check(led, C, 'motor_square_root', sig, [], lambda c, m: m.motor_square_root(), post_motor_root, 6 if ok else 20, draw=lambda r: [unit_motor(sp, r, rest)])


def mean_modular(led, sig):
	"""motor_geometric_mean(l, r) is normalized(l + r); with m = r ~l: l + r = (1 + m) l has the norm of 1 + m, so the mean is sqrt(m) l"""
	C = 'motor_geometric_mean'
	ctx, sp = context(sig), spec(sig)
	R = Ring()
	V = ctx.subspace.even_grade()
	l, r = (ctx.multivector(values=obj([R.var(f'{n}{int(b)}') for b in V.blades]), subspace=V) for n in 'lr')
	nz = M.__dict__['normalized']
	seen = {}
	class N:
		def __get__(self, inst, owner):
			def call():
				seen['arg'] = todict(inst)
				seen['out'] = ctx.multivector(values=obj([R.var(f'r{int(b)}') for b in V.blades]), subspace=V)
				return seen['out']
			return call
	M.normalized = N()
	try: y = l.motor_geometric_mean(r)
	except (Unsupported, AttributeError, RecursionError): y = None
	finally: M.normalized = nz
	ok = y is not None and 'arg' in seen and all(is_zero(v) for v in sp.sub(seen['arg'], sp.add(todict(l), todict(r))).values()) and all(is_zero(v) for v in sp.sub(todict(y), todict(seen['out'])).values())
	if ok: led.ok(C, 'normal-form', 2 * len(V))
	else: led.open[C, 'not of the form normalized(l + r)'] += 1
	rest = [b for b in range(1 << len(sig)) if popcount(b) % 2 == 0 and b]
	fl_check(led, C, C, sig, [], lambda c, l, r: l.motor_geometric_mean(r), post_mean, 6 if ok else 20, draw=lambda r: [unit_motor(sp, r, rest), unit_motor(sp, r, rest)])


def post_mean(sp, l, r, g):
	q = sp.add(l, r)
	real_root(sp, sp.mul(q, sp.reverse(q)))
	return dict(mean=sp.sub(sp.mul(sp.mul(g, sp.reverse(l)), g), r), unit=sp.sub(sp.mul(g, sp.reverse(g)), {0: 1}))
post_mean.total = True


def main():
	c = Check('C14', MOD)
	c.contract('square_root', ['mv.square_root: scalar_square_root, study_degenerate_square_root, study_square_root', 'NumpyMultiVector.sqrt', 'mv.study_norm'], 'square_root(s)^2 = s for scalars and every study subspace')
	c.contract('inverse_square_root', ['mv.inverse_square_root: scalar_inverse_square_root, default_inverse_square_root', 'mv.inverse'], 'inverse_square_root(s)^2 s = 1')
	c.contract('study_norm', ['mv.study_norm', 'mv.study_norm_squared', 'OperatorFactory.study_norm_squared'], 'study_norm(s)^2 = study_norm_squared(s) = s times its scalar negation')
	c.contract('norm_squared', ['mv.norm_squared: reverse_*_norm_squared'], 'norm_squared(x) = x ~x')
	c.contract('norm', ['mv.norm: reverse_scalar_norm, reverse_default_norm'], 'norm(x)^2 = x ~x')
	c.contract('normalized', ['mv.normalized: reverse_scalar_normalized, reverse_study_normalized'], 'y ~y = 1 and y = s x with s self-reverse')
	c.contract('motor_square_root', ['mv.motor_square_root'], 'r r = m for unit motors m')
	c.contract('motor_geometric_mean', ['mv.motor_geometric_mean'], 'g ~l g = r and g ~g = 1 for unit motors l, r')
	c.contract('lemma', [], 'the algebraic lemma that reduces motor_square_root to normalized')
	c.assumptions += ['the real roots met on the way exist and are nonzero (their defining relations are the only facts used)', 'numpy.nan_to_num only replaces nan']
	T = env.THOROUGH
	rr = rng('c14')
	sigs = [s for n in (1, 2) for s in ordered_signatures(n)] + pqr_signatures(3) + [(0, 1, 1), (1, 0, -1)] + [(1, 1, 1, 0), (1, 1, 1, 1), (1, 1, -1, 0), (-1, -1, 1, 1)]
	if T: sigs = [s for n in (1, 2, 3) for s in ordered_signatures(n)] + pqr_signatures(4)
	for sig in sigs + [(1, 1, 1, 1, 0), (1, 1, 1, 1, -1)] + (pqr_signatures(5) if T else []):
		c.task('roots', sig, T)
		if len(sig) < 5: c.task('normalisation', sig, T)
	for sig in [(1, 1, 1, 0), (1, 1, 1, 1), (1, 1, 1, -1), (1, 1, 1, 1, 0), (1, 1, 1, 1, -1), (1, 1, 1, 1, 1)] + (pqr_signatures(4) + pqr_signatures(5) if T else []):
		n = len(sig)
		for g in ([0, 2], [2], [0, 2, 4], [1, 3], [1, 2], [3], [0, 1], [0, 4], [1], [1, 3, 5], [3, 5], [2, 4]):
			if max(g) <= n: c.task('normalized_modular', sig, blades_of_grades(n, g))
		c.task('motor_root_modular', sig)
		c.task('mean_modular', sig)
	for sig in [s for n in (2, 3) for s in pqr_signatures(n)]: c.task('mean_modular', sig)
	for n in (2, 3):
		for sig in ordered_signatures(n):
			ev = [b for b in range(1, 1 << n) if popcount(b) == 2]
			for k in range(1, len(ev) + 1):
				for rest in __import__('itertools').combinations(ev, k):
					c.task('motor_root', sig, list(rest))
	for n in (2, 3, 4, 5):
		for sig in (pqr_signatures(n) if n < 5 or T else [(1, 1, 1, 1, 1), (1, 1, 1, 1, 0), (1, 1, 1, -1, 0)]): c.task('half_turns', sig)
	backends.tasks(c, 'C14')
	c.run()
	return c.finish()
