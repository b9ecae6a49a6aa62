"""C23: the Newton motor normalisation: every step is the exact Newton step (rational identities on the real code), and a step contracts (z3)."""
import ast, inspect, textwrap
import dv.env as env
import z3
from dv.core import *
from dv.families import *
from dv.checks.c14 import real_root
import numga.multivector.numerical_normalize as nn
import numga.multivector.extension
import warnings
warnings.filterwarnings('ignore', category=RuntimeWarning)

MOD = __name__


# ---- assumed contract of numpy.linalg on object arrays: exact solutions of linear systems
class Linalg:
	def solve(self, A, b):
		A, b = np.asarray(A), np.asarray(b)
		if A.dtype != object and b.dtype != object: return np.linalg.solve(A, b)
		X = inverse(A.astype(object))
		if b.ndim == A.ndim - 1: return np.einsum('...ij,...j->...i', X, b)
		return np.einsum('...ij,...jk->...ik', X, b)
	def inv(self, A):
		A = np.asarray(A)
		return np.linalg.inv(A) if A.dtype != object else inverse(A)
	def __getattr__(self, nm): return getattr(np.linalg, nm) if not nm.startswith('_') else None


def inverse(A):
	out = np.empty(A.shape, dtype=object)
	for i in np.ndindex(*A.shape[:-2]):
		m = A[i]
		if m.shape[0] != m.shape[1]: raise np.linalg.LinAlgError('not square')
		if not any(isinstance(v, Sym) and not v.is_const() for v in m.flat): out[i] = eliminate(m)
		elif len(m) == 1: out[i][0, 0] = 1 / m[0, 0]
		elif len(m) == 2:
			d = 1 / (m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0])
			out[i][0, 0], out[i][0, 1], out[i][1, 0], out[i][1, 1] = m[1, 1] * d, -(m[0, 1] * d), -(m[1, 0] * d), m[0, 0] * d
		else: raise Unsupported('symbolic inverse')
	return out


def eliminate(m):
	n = len(m)
	M = [[Fraction(v.const_value() if isinstance(v, Sym) else v) for v in m[i]] + [Fraction(int(i == j)) for j in range(n)] for i in range(n)]
	for c in range(n):
		p = next((r for r in range(c, n) if M[r][c] != 0), None)
		if p is None: raise np.linalg.LinAlgError('singular')
		M[c], M[p] = M[p], M[c]
		q = M[c][c]
		M[c] = [v / q for v in M[c]]
		for r in range(n):
			if r != c and M[r][c] != 0:
				f = M[r][c]
				M[r] = [a - f * b for a, b in zip(M[r], M[c])]
	return obj2([r[n:] for r in M])


def obj2(rows):
	a = np.empty((len(rows), len(rows)), dtype=object)
	for i, r in enumerate(rows):
		for j, v in enumerate(r): a[i, j] = v
	return a


class NP:
	linalg = Linalg()
	def __getattr__(self, nm): return getattr(np, nm)


class patched:
	def __enter__(self): self.old, nn.np = nn.np, NP()
	def __exit__(self, *a): nn.np = self.old


def under(f):
	def g(*a):
		with patched():
			try: return f(*a)
			except np.linalg.LinAlgError as e: raise ZeroDivisionError(str(e))          # outside the domain
	return g


# ---- specification: Newton's method for x s x = 1 in the commutative algebra generated by s
def study_inverse(sp, q):
	c = sp.scalar_negation(q)
	d = sp.mul(q, c)
	return {b: v / d[0] for b, v in c.items()}


def newton(sp, s, x):
	return {b: v / 2 for b, v in sp.add(x, study_inverse(sp, sp.mul(x, s))).items()}


def iterate(sp, s, k):
	one = 1.0 if any(isinstance(v, float) for v in s.values()) else R_one(s)
	x = {0: one}
	for _ in range(k): x = newton(sp, s, x)
	return x


def R_one(s):
	for v in s.values():
		if isinstance(v, Sym): return v.R.const(1)
	return Fraction(1)


def domain(sp, s):
	real_root(sp, s)


def study_spaces(n):
	return [[0]] + [[0, b] for b in range(1 << n) if bin(b).count('1') == 4]


def steps(led, sig, T):
	"""inverse_sandwich(s, k) is the k-th exact Newton iterate, for every s of a subspace of at most two blades"""
	for g in study_spaces(len(sig)):
		for k in range(4 if len(g) == 1 or T else 3):
			def code(c, s, k=k): return nn.inverse_sandwich(s, n_iter=k)
			def post(sp, s, x, k=k):
				domain(sp, s)
				return dict(iterate=sp.sub(x, iterate(sp, s, k)))
			prove(led, 'iterates', f'inverse_sandwich, {k} iterations', sig, [g], under(code), post, concrete=2, tol=1e-6)


def extract():
	"""newton_step as a function of s, mechanically: the body of inverse_sandwich up to its loop, returning the function the loop calls"""
	f = ast.parse(textwrap.dedent(inspect.getsource(nn.inverse_sandwich))).body[0]
	body = []
	for st in f.body:
		if isinstance(st, (ast.For, ast.While)):
			calls = [x for x in ast.walk(st) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name)]
			nested = {d.name for d in body if isinstance(d, ast.FunctionDef)}
			names = [x.func.id for x in calls if x.func.id in nested and len(x.args) == 1 and not x.keywords]
			if len(names) != 1: return None
			f.body = body + [ast.Return(ast.Name(names[0], ast.Load()))]
			m = ast.fix_missing_locations(ast.Module([f], []))
			ns = {}
			exec(compile(m, 'extracted', 'exec'), nn.__dict__, ns)
			return ns[f.name]
		body.append(st)


def any_step(led, sig):
	"""the step from an arbitrary x, hence every iteration"""
	step = extract()
	if step is None:
		led.open['step', 'the step is not a function the loop calls'] += 1
		return
	for g in study_spaces(len(sig)):
		def code(c, s, x): return step(s)(x)
		def post(sp, s, x, y):
			if not any(isinstance(v, Sym) for v in s.values()):
				domain(sp, s); domain(sp, x)
			r, r1 = (sp.sub(sp.mul(sp.mul(z, s), z), {0: 1}) for z in (x, y))
			four = sp.mul(sp.scale(sp.add(r, {0: 1}), 4), r1)
			return dict(newton=sp.sub(y, newton(sp, s, x)), residual=sp.sub(four, sp.mul(r, r)))
		n = len(led.violations)
		prove(led, 'step', 'one step from an arbitrary x', sig, [g, g], under(code), post, concrete=2, tol=1e-6)


def loop(led):
	"""for every number of iterations k the result is the k-fold application of the step to the unit (engine P, loop invariant)"""
	from dv import pvc
	from dv.pvc import Machine, Nat, Op, Int, St, Sem, V
	ct = 'any number of iterations'
	F, IT = z3.Function('step', V, V), z3.Function('iterate', z3.IntSort(), V)
	unit, N, i = z3.Const('unit', V), z3.Int('N'), z3.Int('ii')
	class Space(Sem):
		def compare(self, m, s, op, a, b): yield s, pvc.Bool(z3.Bool('output is S'))
	class Any(Sem):
		def __init__(self, space): self.space = space
		def attr(self, m, s, a): yield s, self.space if a in ('subspace', 'output') else Any(self.space)
		def call(self, m, s, args, kw):
			if set(kw) == {'subspace'} and kw['subspace'] is self.space and not args: yield s, Op(unit)
			else: yield s, Any(self.space)
	class M(Machine):
		def s_FunctionDef(self, n, st):
			if len(n.args.args) != 1 or n.args.defaults or n.decorator_list or any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(n)): raise pvc.Unsupported('nested function')
			def f(m, s, args, kw):
				if len(args) != 1 or kw or not isinstance(args[0], Op): raise pvc.Unsupported('argument of the step')
				yield s, Op(F(args[0].t))
			yield st.set(n.name, Nat(f)), ('next',)
		def e_Dict(self, n, st): yield st, 'dict'
	def inv(s, k, assigned):
		xs = [s.env[a] for a in sorted(assigned) if isinstance(s.env.get(a), Op)]
		if len(xs) != 1: raise pvc.Unsupported('variables of the loop')
		return xs[0].t == IT(k)
	m = M(invariants=inv)
	try:
		st = St(pc=[N >= 0, IT(0) == unit, z3.ForAll([i], z3.Implies(i >= 0, IT(i + 1) == F(IT(i))))])
		n = 0
		for s, v in m.call_function(m.source(nn.inverse_sandwich), st, [Any(Space()), Int(N)]):
			if isinstance(v, pvc.Exc) or not m.feasible(s): continue
			if not isinstance(v, Op): raise pvc.Unsupported('result')
			n += 1
			m.obligations.append((s, v.t == IT(N), 'result'))
		if not n: raise pvc.Unsupported('no path')
		for s, g, what in m.obligations:
			if not m.feasible(s): continue
			led.cover(ct + ': paths')
			r = m.proves(s, g)[0]
			if r == 'yes': led.ok(ct, 'z3')
			else: led.open[ct, f'{what}: {r}'] += 1
	except (pvc.Unsupported, z3.Z3Exception, OSError, KeyError, AttributeError, TypeError, ValueError) as e:
		led.open[ct, f'{type(e).__name__}: {e}'[:160]] += 1


def spectrum(led):
	"""in fewer than 6 dimensions the square of the 4-vector part is a scalar: s generates a commutative algebra of dimension at most 2"""
	for n in range(4, 6):
		for sig in ordered_signatures(n):
			sp = spec(sig)
			R = Ring()
			v = {b: R.var(f'v{b}') for b in range(1 << n) if bin(b).count('1') == 4}
			q = sp.mul(v, v)
			bad = [b for b, x in q.items() if b and not is_zero(x)]
			if bad: led.open['convergence', f'square of 4-vectors {sig}'] += 1
			else: led.ok('convergence', 'normal-form')


def lemmas(led):
	"""contraction of one step, on every real, dual and complex character of the algebra generated by s"""
	def prove_(what, hyp, goal):
		S = z3.SolverFor('QF_NRA'); S.set('timeout', 60000)
		S.add(*hyp, z3.Not(goal))
		r = S.check()
		if r == z3.unsat: led.ok('convergence', 'z3')
		else: led.open['convergence', f'{what}: {r}'] += 1
		S2 = z3.SolverFor('QF_NRA'); S2.add(*hyp)
		if S2.check() == z3.sat: led.cover('convergence: hypotheses satisfiable')
	r, r1, x, s, x1, e, e1 = z3.Reals('r r1 x s x1 e e1')
	step = [1 + r > 0, 4 * (1 + r) * r1 == r * r]
	prove_('after a step the residual is not negative', step, z3.And(r1 >= 0, 1 + r1 > 0))
	prove_('a residual that is not negative is at least quartered', step + [r >= 0], z3.And(4 * r1 <= r))
	prove_('and at most half its square when at most one half in absolute value', step + [r <= z3.Q(1, 2), r >= z3.Q(-1, 2)], 2 * r1 <= r * r)
	prove_('the sign of x is kept', [s > 0, x > 0, 2 * x * s * x1 == x * x * s + 1], x1 > 0)
	# dual character: r + e eps
	prove_('dual part at most a quarter', step + [r >= 0, 4 * (1 + r) * e1 + 4 * e * r1 == 2 * r * e, e >= 0], z3.And(e1 >= 0, 4 * e1 <= e))
	# complex character, y = sqrt(1 + r), y' = (y + 1/y)/2, z = (y - 1)/(y + 1): z' = z^2 and |z| < 1 iff Re y > 0
	u, v, p, q = z3.Reals('u v p q')
	n = u * u + v * v
	hyp = [u > 0, 2 * p * n == u * n + u, 2 * q * n == v * n - v]
	prove_('the right half plane is kept', hyp, p > 0)
	prove_('the Cayley transform is less than one', [u > 0], (u - 1) * (u - 1) + v * v < (u + 1) * (u + 1) + v * v)
	# |z'|^2 = |z|^4 with |z|^2 = ((u-1)^2+v^2)/((u+1)^2+v^2): as a polynomial identity after y' = (y^2+1)/(2y)
	R = Ring()
	a, b = R.var('u'), R.var('v')
	def cm(x, y): return (x[0] * y[0] - x[1] * y[1], x[0] * y[1] + x[1] * y[0])
	y = (a, b)
	yy = cm(y, y)
	lhs = cm((yy[0] + 1 - 2 * a, yy[1] - 2 * b), cm((a + 1, b), (a + 1, b)))          # (y^2+1-2y)(y+1)^2
	rhs = cm((yy[0] + 1 + 2 * a, yy[1] + 2 * b), cm((a - 1, b), (a - 1, b)))          # (y^2+1+2y)(y-1)^2
	for l, k in zip(lhs, rhs):
		if is_zero(l - k): led.ok('convergence', 'normal-form')
		else: led.open['convergence', 'Cayley transform'] += 1
	# residual of y' = (y + 1/y)/2: 1 + r' = ((y^2 + 1)/(2y))^2 with y^2 = 1 + r
	t = R.var('r')
	if is_zero((t + 2) * (t + 2) - 4 * (1 + t) - t * t): led.ok('convergence', 'normal-form')
	else: led.open['convergence', 'residual of the step'] += 1
	# a unit: if x is self-reverse and x s x = 1 for s = m ~m then (x m) ~(x m) = x m ~m ~x = 1 (associativity, reversal: C01, C02)


def motors(led, sig, T):
	"""normalize_motor multiplies the motor by the iterates; in fewer than 4 dimensions the result is exactly a unit motor"""
	n = len(sig)
	even = [b for b in order(range(1 << n)) if bin(b).count('1') % 2 == 0]
	small = n < 4
	sets = [even] if small else [[0, 3, 12, 15], [0, 5, 10, 15], [0, 15], [0, 6, 9, 15], [3, 12]] + ([even] if n == 4 else [[0, 17, 6, 23], [0, 24, 5, 29], [0, 30]])
	sp0 = spec(sig)
	for g in sets:
		R = Ring()
		m = {b: R.var(f'x{b}') for b in g}
		if is_zero(sp0.mul(m, sp0.reverse(m)).get(0, R.const(0))): continue           # no motor with a positive norm
		def norm(sp, m): return sp.mul(m, sp.reverse(m))
		for inner, outer in ((0, 1), (1, 1), (2, 1), (1, 2), (1, 0)) if small else ((0, 1), (1, 1)):
			def code(c, m, i=inner, o=outer): return nn.normalize_motor(m, inner=i, outer=o, scalar_norm=False)
			def post(sp, m, r, i=inner, o=outer):
				domain(sp, norm(sp, m))
				y = m
				for _ in range(o): y = sp.mul(iterate(sp, norm(sp, y), i), y)
				return dict(multiple=sp.sub(r, y))
			prove(led, 'normalisation', f'normalize_motor without scalar norm, {inner} {outer}', sig, [g], under(code), post, concrete=1, tol=1e-5)
		for inner, outer in ((0, 1), (1, 1)) if small else ((0, 1), (1, 1)):
			def code(c, m, i=inner, o=outer): return nn.normalize_motor(m, inner=i, outer=o)
			def post(sp, m, r, i=inner, o=outer):
				q = norm(sp, m)
				domain(sp, q)
				if small: return dict(unit=sp.sub(norm(sp, r), {0: 1}), direction=sp.sub(sp.mul(r, sp.reverse(m)), {0: sp.mul(r, sp.reverse(m)).get(0, 0)}))
				N = q[0]
				t = 1 / (N.sqrt() if isinstance(N, Sym) else N ** .5)
				y = {b: v * t for b, v in m.items()}
				s1 = {b: v / N for b, v in q.items()}
				return dict(multiple=sp.sub(r, sp.mul(iterate(sp, s1, i), y)))
			prove(led, 'normalisation', f'normalize_motor, {inner} {outer}', sig, [g], under(code), post, concrete=1, tol=1e-5)


def exact(led, sig, seed):
	"""bounded: five dimensions, all six blades, exact rationals: each step satisfies the residual identity; convergence after the default number of steps in double precision"""
	n = len(sig)
	r = rng('c23e', sig, seed)
	sp = spec(sig)
	blades = [0] + [b for b in range(1 << n) if bin(b).count('1') == 4]
	s = {b: Fraction(r.randint(-9, 9), 60) for b in blades}
	s[0] = Fraction(r.randint(40, 90), 60)
	ctx = context(sig)
	xs = []
	with patched():
		for k in range(4): xs.append({b: Fraction(v) for b, v in todict(nn.inverse_sandwich(mv(ctx, s), n_iter=k)).items()})
	close = lambda d: all(abs(v) <= 1e-9 for v in d.values())                    # a float met on the way makes the rationals inexact
	led.num('exact iterates (bounded)', all(close(sp.sub(xs[k], iterate(sp, s, k))) for k in range(4)), f'sig {sig}: iterates of {s} are {xs}')
	fctx = context(sig, np.float64)
	x = todict(nn.inverse_sandwich(mv(fctx, {b: float(v) for b, v in s.items()})))
	sf = {b: float(v) for b, v in s.items()}
	res = sp.sub(sp.mul(sp.mul(x, sf), x), {0: 1.0})
	led.num('convergence in floating point (bounded)', max(abs(v) for v in res.values()) < 1e-6, f'sig {sig}: x s x - 1 = {res} for s = {sf} after the default number of iterations')


def floats(led, sig, seed):
	"""bounded: motors of every dimension below 6, batches, default parameters; unit, same direction, unit motors kept"""
	n = len(sig)
	sp = spec(sig)
	g = np.random.default_rng(seed)
	ctx = context(sig, np.float64)
	M = ctx.subspace.even_grade()
	bl = [int(b) for b in M.blades]
	def good(d):
		q = sp.mul(d, sp.reverse(d))
		rest = sum(abs(v) for b, v in q.items() if b)
		return q.get(0, 0) > .3 and rest < .6 * q.get(0, 0)
	ms = []
	for _ in range(400):
		v = g.normal(size=len(bl)) * (.6 if n < 5 else .3)
		v[bl.index(0)] += 1.2 * g.choice([-1, 1])
		if good(dict(zip(bl, v.tolist()))): ms.append(v)
		if len(ms) == 6: break
	if len(ms) < 6: return
	a = np.array(ms).reshape(2, 3, -1)
	for kw in ({}, dict(scalar_norm=False), dict(inner=10, outer=1), dict(inner=6, outer=1)):
		m = ctx.multivector(values=a.copy(), subspace=M)
		o = nn.normalize_motor(m, **kw)
		led.num('motors in floating point (bounded)', m.values.tolist() == a.tolist() and o.subspace is M and o.values.shape == a.shape, f'sig {sig}: operand changed or result on {o.subspace}, shape {o.values.shape}')
		for i in np.ndindex(2, 3):
			x, y = dict(zip(bl, a[i].tolist())), dict(zip(bl, np.asarray(o.values)[i].tolist()))
			u = sp.sub(sp.mul(y, sp.reverse(y)), {0: 1.0})
			led.num('motors in floating point (bounded)', max(abs(v) for v in u.values()) < 1e-6, f'sig {sig} {kw}: normalize_motor({x}) = {y}, y ~y - 1 = {u}', input=a[i].tolist())
			p = sp.mul(y, sp.reverse(x))
			anti = sp.sub(p, sp.reverse(p))
			led.num('motors in floating point (bounded)', max([abs(v) for v in anti.values()] + [0]) < 1e-6 and p.get(0, 0) > 0, f'sig {sig} {kw}: normalize_motor({x}) = {y} is not a positive multiple', input=a[i].tolist())
		z = nn.normalize_motor(o, **kw)
		led.num('motors in floating point (bounded)', np.allclose(z.values, o.values, atol=1e-6), f'sig {sig} {kw}: a unit motor is changed: {o.values.tolist()} {z.values.tolist()}')


def main():
	c = Check('C23', MOD)
	c.contract('iterates', ['inverse_sandwich', 'inverse_sandwich.newton_step', 'solve_newton_direct'], 'ensures k iterations return the k-th exact Newton iterate x -> (x + 1/(x s))/2 from 1')
	c.contract('step', ['inverse_sandwich.newton_step', 'solve_newton_direct'], 'for every x and s: the residual r = x s x - 1 becomes r r / (4 (1 + r))')
	c.contract('any number of iterations', ['inverse_sandwich'], 'for every n_iter the result is the n_iter-fold application of the step to 1 (loop invariant)')
	c.contract('convergence', ['(lemma over the contract of the step)'], 'on real characters the residual is non-negative after one step, then at least quartered, then squared; dual part likewise; on complex characters |z| is squared, z = (y-1)/(y+1)')
	c.contract('normalisation', ['normalize_motor', 'AbstractMultiVector.symmetric_reverse_product', 'AbstractMultiVector.inverse_square_root'], 'ensures the motor is multiplied by the iterates of its norm; exactly a unit motor in fewer than 4 dimensions')
	c.contract('exact iterates (bounded)', ['inverse_sandwich'], 'five dimensions, all six blades, exact rationals')
	c.contract('convergence in floating point (bounded)', ['inverse_sandwich'], 'default iterations, well conditioned s')
	c.contract('motors in floating point (bounded)', ['normalize_motor'], 'default parameters, batches')
	c.trusted.append('numpy.linalg.solve / inv under the assumed contract "exact solution of the linear system" (eliminated exactly in the symbolic runs)')
	c.assumptions += ['limits are read from the contraction lemmas: the number of iterations for a given precision depends on the conditioning of s; rounding is out of scope', 'five dimensions: symbolic on the subspaces spanned by 1 and one 4-blade, exact rationals on all six blades']
	T = env.THOROUGH
	c.task('lemmas')
	c.task('spectrum')
	c.task('loop')
	for n in range(1, 6):
		for i, sig in enumerate(pqr_signatures(n)):
			c.task('steps', sig, T)
			c.task('any_step', sig)
			if 2 <= n: c.task('motors', sig, T)
			if n >= 2:
				for k in range(4 if T else 1): c.task('floats', sig, k)
			if n >= 4:
				for k in range(6 if T else 2): c.task('exact', sig, k)
	c.run()
	return c.finish()
