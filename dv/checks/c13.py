"""C13: inverses. The recursion of inverse() is verified modularly: a call of inverse() on the denominator q is replaced
by its contract (fresh y in the subspace the real code yields, with q y = 1), so x z = 1 becomes the polynomial identity
x z - q y == 0. Every subspace met in the recursion is verified in turn. In a finite dimensional algebra a one-sided
inverse is two-sided (assumed lemma), and where the identity does not hold freely the whole recursion is executed."""
import dv.env as env
from dv.core import *
from dv.families import *
from dv import backends
from numga.multivector.multivector import AbstractMultiVector as M
import numga.multivector.extension

MOD = __name__


class Stub:
	"""inverse() with its recursive calls replaced by the contract"""
	def __init__(self, real, ctx, R):
		self.real, self.ctx, self.R, self.depth, self.calls = real, ctx, R, 0, []
	def __get__(self, inst, owner):
		return self.real if inst is None else (lambda: self.call(inst))
	def call(self, q):
		if self.depth == 0 or q.subspace.equals.scalar():
			self.depth += 1
			try: return self.real(q)
			finally: self.depth -= 1
		U = inverse_subspace(self.ctx, q.subspace)
		y = self.ctx.multivector(values=obj([self.R.var(f'y{len(self.calls)}_{int(b)}') for b in U.blades]), subspace=U)
		self.calls.append((q, y))
		return y


_inv = {}
REAL = M.__dict__['inverse']
def inverse_subspace(ctx, W):
	"""the subspace of inverse() on W (depends on the subspace only: C17)"""
	if W not in _inv:
		sig = tuple(ctx.algebra.description.signature)
		f = context(sig, np.float64)
		r = rng('invsub', sig, W.named_str)
		patched, M.inverse = M.__dict__['inverse'], REAL
		try:
			with np.errstate(all='ignore'):
				_inv[W] = f.multivector(values=[r.uniform(.5, 2) for _ in W.blades], subspace=W).inverse().subspace
		finally:
			M.inverse = patched
	return _inv[W]


def combos(led, sig, idx, of):
	n = len(sig)
	ctx = context(sig)
	seen = set()
	todo = [order(g) for g in list(grade_combos(n))[idx::of]]
	while todo:
		g = todo.pop()
		if tuple(g) in seen:
			continue
		seen.add(tuple(g))
		todo += one(led, sig, ctx, g)


def sets(led, sig, idx, k):
	n = len(sig)
	r = rng('c13s', sig, idx)
	ctx = context(sig)
	seen = set()
	for _ in range(k):
		todo = [order(random_subset(r, n))]
		while todo:
			g = todo.pop()
			if tuple(g) not in seen:
				seen.add(tuple(g))
				todo += one(led, sig, ctx, g)


def invertible(sp, x):
	"""exact test on rational coefficients: is left multiplication by x nonsingular"""
	if any(isinstance(v, Sym) for v in x.values()):
		return True
	P = (1 << 61) - 1
	m = lambda v: Fraction(v).limit_denominator(10**9).numerator * pow(Fraction(v).limit_denominator(10**9).denominator, -1, P) % P
	N = sp.N
	rows = [[0] * N for _ in range(N)]
	for a, v in x.items():
		for b in range(N):
			s, c = sp.blade_mul(a, b)
			if s: rows[c][b] = (rows[c][b] + s * m(v)) % P
	for j in range(N):
		p = next((i for i in range(j, N) if rows[i][j]), None)
		if p is None: return False
		rows[j], rows[p] = rows[p], rows[j]
		inv = pow(rows[j][j], -1, P)
		for i in range(j + 1, N):
			if rows[i][j]:
				f = rows[i][j] * inv % P
				rows[i] = [(u - f * v) % P for u, v in zip(rows[i], rows[j])]
	return True


def noninvertible(sp, g):
	r = rng('noninv', sp.sig, g)
	return not any(invertible(sp, {b: r.randint(1, 10**6) * r.choice((1, -1)) for b in g}) for _ in range(2))


def dom(code):
	"""restrict to inputs that have an inverse at all"""
	def f(c, x):
		if not invertible(spec(tuple(c.algebra.description.signature)), todict(x)):
			raise Skip('not invertible')
		return code(c, x)
	return f
INV, SHI, HIT = dom(lambda c, x: x.inverse()), dom(lambda c, x: x.inverse_shirokov()), dom(lambda c, x: x.inverse_hitzer())


def post_inverse(sp, x, z):
	return dict(right=sp.sub(sp.mul(x, z), {0: 1}), left=sp.sub(sp.mul(z, x), {0: 1}))


def one(led, sig, ctx, g):
	"""returns the subspaces whose contract was used"""
	sp = spec(sig)
	V = sub(ctx, g)
	if noninvertible(sp, g):
		with np.errstate(all='ignore'):
			try: context(sig, np.float64).multivector(values=[1.5 + i for i in range(len(g))], subspace=sub(context(sig, np.float64), g)).inverse()
			except ZeroDivisionError: pass
		led.cover('inverse: no invertible element in the subspace')
		return []
	name = f'inverse in <{V.named_str[:60]}> sig={"".join(SIGN[s] for s in sig)}'
	try:
		used, how = modular(led, sig, ctx, sp, V, name)
	except Undefined:
		# a denominator vanishes identically: outside the domain; there must be no missing case
		led.cover('inverse: denominator vanishes identically')
		led.ok('inverse', 'normal-form')
		return []
	except Exception as e:
		if isinstance(e, (Unsupported, RecursionError)):
			used, how = [], None
		else:
			# no implementation, or an error: look at the real code on numbers
			used, how = [], None
	if how:
		return used
	if len(g) <= 10:
		t = prove(led, 'inverse', name, sig, [g], INV, post_inverse, concrete=1)
		if t is not None: return []
	rationals(led, 'inverse', name, sig, [g], INV, post_inverse, 3)
	return []


def modular(led, sig, ctx, sp, V, name):
	import time
	t0 = time.process_time()
	R = Ring()
	x = ctx.multivector(values=obj([R.var(f'x{int(b)}') for b in V.blades]), subspace=V)
	real = REAL
	st = Stub(real, ctx, R)
	M.inverse = st
	try:
		z = x.inverse()
	finally:
		M.inverse = real
	X, Z = todict(x), todict(z)
	if not V.blades.size:
		return [], None
	goals = []
	if not st.calls:
		goals = [sp.sub(sp.mul(X, Z), {0: 1})]
	elif len(st.calls) == 1:
		q, y = map(todict, st.calls[0])
		xz, zx = sp.mul(X, Z), None
		qy = sp.mul(q, y)
		goals = [sp.sub(xz, qy)]
		if not all(is_zero(v) for v in goals[0].values()):
			goals = [sp.sub(sp.mul(Z, X), sp.mul(y, q)), sp.sub(xz, sp.mul(y, q)), sp.sub(sp.mul(Z, X), qy)]
	led.seconds['normal-form'] += time.process_time() - t0
	for g in goals:
		if all(is_zero(v) for v in g.values()):
			led.ok('inverse', 'normal-form', max(1, len(g)))
			led.cover('inverse: cases')
			if st.calls:
				led.cover('inverse: cases discharged from the contract of the recursive call')
				q = st.calls[0][0]
				if all(is_zero(v) for v in todict(q).values()): led.cover('inverse: vacuous (denominator identically zero)')
			if len(led.samples) < 3: led.samples.append(f'{name}: x z == ' + ('1' if not st.calls else f'q y with q in <{st.calls[0][0].subspace.named_str}>, y in <{st.calls[0][1].subspace.named_str}>')[:200])
			return [order(map(int, c[0].subspace.blades)) for c in st.calls], True
	return [], None


def rationals(led, contract, name, sig, ins, code, post, k, tol=1e-6, need=None):
	"""bounded: the real code on exact rationals (and on machine numbers), postcondition evaluated exactly"""
	sp = spec(sig)
	r = rng('rat', contract, name)
	n_ok = n_exc = 0
	exc = None
	for t in range(k + 3):
		if n_ok >= k: break
		exact = t < k + 1
		ctx = context(sig, object if exact else np.float64)
		vals = [{b: Fraction(r.choice([-4, -3, -2, -1, 1, 2, 3, 4, 5, 7]), r.choice([1, 1, 2, 3])) for b in order(g)} for g in ins]
		try:
			with np.errstate(all='ignore'):
				out = code(ctx, *[mv(ctx, v) for v in vals])
			out = [todict(o) for o in (out if isinstance(out, tuple) else (out,))]
			if any(v != v or abs(v) == float('inf') for o in out for v in o.values() if isinstance(v, float)):
				continue
			res = post(sp, *[{b: v for b, v in d.items()} for d in vals], *out)
		except (ZeroDivisionError, OverflowError):
			continue
		except np.linalg.LinAlgError:
			continue
		except (Unsupported, Undefined, Skip):
			continue
		except Exception as e:
			n_exc += 1; exc = e
			continue
		w = bad_residual(res, vals, out, 0 if exact and all(isinstance(v, (int, Fraction)) for o in out for v in o.values()) else tol)
		if w:
			led.violate(contract, f'{name}: equation {w[0]} fails at blade {w[1]} by {w[2]:.3g}', kind='value', signature=sig, input=[{str(b): str(v) for b, v in d.items()} for d in vals], output=[{str(b): str(v) for b, v in d.items()} for d in out])
			return False
		n_ok += 1
	if not n_ok and n_exc:
		led.violate(contract, f'{name}: raised {type(exc).__name__}: {exc}', kind='exception', signature=sig, input=[order(g) for g in ins], trace=traceback.format_exception(exc)[-3:])
		return False
	led.bounded[contract] += n_ok
	return True


# ---------------------------------------------------------------- division
def division(led, sig, seed, k):
	"""x / y is x * y.inverse(), with the inverse replaced by its contract (any y' in its subspace)"""
	n = len(sig)
	r = rng('c13d', sig, seed)
	sp = spec(sig)
	for i in range(k):
		A = order(random_subset(r, n))
		B = order(blades_of_grades(n, [g for g in range(n + 1) if r.random() < .5] or [1])) if i % 3 else [0]
		if n >= 4 and len(B) > 8: B = order(blades_of_grades(n, [2]))
		ctx = context(sig)
		seen = {}
		class D:
			def __get__(self, inst, owner):
				def call():
					U = inverse_subspace(ctx, inst.subspace)
					y = ctx.multivector(values=obj([inst.values[0].R.var(f'y{int(b)}') if isinstance(inst.values[0], Sym) else Fraction(3, int(b) + 2) for b in U.blades]), subspace=U)
					seen['y'] = todict(y); seen['of'] = todict(inst)
					return y
				return call
		real = REAL
		def code(c, x, y):
			seen.clear()
			if c.dtype is not object:
				out = x / y
				seen['y'] = todict(y.inverse())
				return out
			M.inverse = D()
			try: return x / y
			finally: M.inverse = real
		def post(sp, x, y, z):
			inv = seen.get('y')
			if inv is None:   # scalar divisor
				inv = {0: 1 / y[0]}
			return dict(value=sp.sub(z, sp.mul(x, inv)))
		prove(led, 'division', 'x / y', sig, [A, B], code, post)
		if i % 4 == 0:
			s = r.choice([2, 0.5, -3])
			q = Fraction(s)
			def code2(c, y):
				seen.clear()
				if c.dtype is not object:
					out = s / y
					seen['y'] = todict(y.inverse())
					return out
				M.inverse = D()
				try: return s / y
				finally: M.inverse = real
			prove(led, 'division', f'{s} / y', sig, [B], code2, lambda sp, y, z: dict(value=sp.sub(z, sp.scale(seen.get('y') or {0: 1 / y[0]}, q))))
			prove(led, 'division', f'x / {s}', sig, [A], lambda c, x: x / s, lambda sp, x, z: dict(value=sp.sub(sp.scale(z, q), x)))


# ---------------------------------------------------------------- Shirokov, Hitzer, least squares
def shirokov(led, sig, g):
	if noninvertible(spec(sig), g): return
	prove(led, 'shirokov', 'inverse_shirokov', sig, [g], SHI, post_inverse, concrete=1)


def shirokov_bounded(led, sig, g, k):
	rationals(led, 'shirokov (bounded)', f'inverse_shirokov on <{",".join(map(str, g))}> {sig}', sig, [g], SHI, post_inverse, k)


def hitzer(led, sig, g):
	sp = spec(sig)
	if noninvertible(sp, g): return
	R = Ring()
	x = {b: R.var(f'x{b}') for b in order(g)}
	f = sp.mul(sp.reverse(x), sp.conjugate(sp.mul(x, sp.reverse(x))))
	full = sp.mul(x, f)
	if not all(is_zero(v) for b, v in full.items() if b):
		led.cover('hitzer: factor does not reduce to a scalar (not defined for)')
		return
	prove(led, 'hitzer', 'inverse_hitzer', sig, [g], HIT, post_inverse, concrete=1)


def least_squares(led, sig, g):
	"""inverse_la: the true inverse solves the linear system given to numpy.linalg.solve, and the solution is returned"""
	sp = spec(sig)
	if noninvertible(sp, g): return
	ctx = context(sig)
	V = sub(ctx, g)
	C = 'least squares'
	try:
		U = [int(b) for b in ctx.algebra.operator.inverse_factor(V).output.blades]
		R = Ring()
		x = ctx.multivector(values=obj([R.var(f'x{int(b)}') for b in V.blades]), subspace=V)
		y = todict(x.inverse())
	except (Undefined, Unsupported):
		led.cover('least squares: not invertible')
		return
	if any(not is_zero(v) for b, v in y.items() if b not in U):
		led.cover('least squares: inverse outside the candidate subspace (not defined for)')
		return
	import numga.backend.numpy.multivector as nm
	got = {}
	class LA:
		def solve(self, A, b):
			got['A'], got['b'] = np.asarray(A, dtype=object), np.asarray(b, dtype=object)
			got['r'] = obj([R.var(f'r{i}') for i in range(got['A'].shape[-1])])
			return got['r']
	class NP:
		linalg = LA()
		def __getattr__(self, k): return getattr(np, k)
	real = nm.np
	nm.np = NP()
	try:
		out = x.inverse_la()
	except (Unsupported, RecursionError):
		out = None
	finally:
		nm.np = real
	name = f'inverse_la in <{V.named_str}> {sig}'
	if out is not None and 'A' in got and len(got['r']) == len(U):
		o = todict(out)
		ok = set(o) == set(U) and all(is_zero(_lift(R, a) - _lift(R, b)) for a, b in zip([o[u] for u in U], got['r']))
		Y = [y.get(u, 0) for u in U]
		rows = [sum((_lift(R, a) * v for a, v in zip(row, Y)), R.const(0)) - _lift(R, b) for row, b in zip(got['A'], got['b'])]
		good = [is_zero(v) for v in rows]
		if ok and all(good):
			led.ok(C, 'normal-form', len(rows) + len(U))
			led.cover('least squares: systems')
			return rationals(led, C, name, sig, [g], lambda c, x: fl(c, x).inverse_la(), post_la(U), 1, tol=1e-4)
	led.open[C, 'system not verified'] += 1
	rationals(led, C, name, sig, [g], lambda c, x: fl(c, x).inverse_la(), post_la(U), 6, tol=1e-4)


def fl(c, x):
	f = context(tuple(c.algebra.description.signature), np.float64)
	return f.multivector(values=np.asarray(x.values, dtype=float), subspace=x.subspace)


def post_la(U):
	def post(sp, x, z):
		# nearly singular systems are outside the domain
		return post_inverse(sp, x, z) if max((abs(float(v)) for v in z.values()), default=0) < 1e4 else {}
	return post


def _lift(R, a):
	return a if isinstance(a, Sym) else R.const(a.item() if isinstance(a, np.generic) else a)


def main():
	c = Check('C13', MOD)
	c.contract('inverse', ['mv.inverse: scalar_inverse, squared/reverse/conjugate/scalar_negation/pseudoscalar_negation/involute_simple_inverse, bivector_inverse_5d, trivector_inverse_5d', 'AbstractMultiVector._divide', 'SubSpace.is_*_n_simple', 'symmetric_*_product'], 'x * x.inverse() = 1, from q * q.inverse() = 1 of the recursive call; no missing case')
	c.contract('division', ['AbstractMultiVector.__truediv__', 'AbstractMultiVector.__rtruediv__', 'AbstractMultiVector._divide', 'AbstractMultiVector.upcast'], 'x / y = x * y.inverse()')
	c.contract('shirokov', ['AbstractMultiVector.inverse_shirokov'], 'x * x.inverse_shirokov() = 1 = x.inverse_shirokov() * x')
	c.contract('shirokov (bounded)', ['AbstractMultiVector.inverse_shirokov'], 'bounded: dimensions 4 to 6 on exact rationals')
	c.contract('hitzer', ['AbstractMultiVector.inverse_hitzer', 'AbstractMultiVector.inverse_factor', 'OperatorFactory.inverse_factor'], 'x * x.inverse_hitzer() = 1 wherever x times its factor is scalar')
	c.contract('least squares', ['NumpyMultiVector.inverse_la'], 'the inverse solves the system handed to numpy.linalg.solve, whose solution is returned')
	T = env.THOROUGH
	c.assumptions += ['denominators do not vanish', 'a one-sided inverse in a finite-dimensional algebra is two-sided (lemma)', 'numpy.linalg.solve returns the solution of a nonsingular system', 'termination of the recursion is by execution on every enumerated subspace']
	s5 = pqr_signatures(5)
	rr = rng('c13sig')
	five = s5 + ([random_sig(rr, 5) for _ in range(20)] if T else [(0, 1, 1, 1, 1)])
	for sig in five:
		for i in range(16): c.task('combos', sig, i, 16)
	for sig in pqr_signatures(4) + [(0, 1, 1, 1), (1, 0, 1, -1)] + (ordered_signatures(4) if T else [random_sig(rr, 4) for _ in range(6)]):
		for i in range(2): c.task('combos', sig, i, 2)
	for n in (1, 2, 3):
		for sig in ordered_signatures(n): c.task('combos', sig, 0, 1)
	for n, k in ((2, 30), (3, 40), (4, 25)):
		for j in range(6 if T else 2): c.task('sets', random_sig(rr, n), j, k * (3 if T else 1))
	for sig in [(1,), (1, 0), (1, -1), (1, 1, 0), (1, 1, 1), (1, -1, 1), (1, 1, 1, 0), (1, 1, -1, -1)]:
		for j in range(3 if T else 1): c.task('division', sig, j, 12)
	for n in (1, 2):
		for sig in ordered_signatures(n):
			for g in grade_combos(n): c.task('shirokov', sig, g)
	for sig in [(1, 1, 1), (1, 1, 0), (1, -1, 0), (-1, -1, -1)] + (ordered_signatures(3) if T else []):
		for g in grade_combos(3): c.task('shirokov', sig, g)
	for sig in [(1, 1, 1, 0), (1, -1, 1, 1)]:
		for g in ([1], [2], [0, 2], [0, 4], [1, 3]): c.task('shirokov', sig, blades_of_grades(4, g)) if T or len(blades_of_grades(4, g)) < 7 else None
		for g in list(grade_combos(4))[::1 if T else 3]: c.task('shirokov_bounded', sig, g, 2)
	for g in list(grade_combos(5))[::1 if T else 9]: c.task('shirokov_bounded', (1, 1, 1, -1, 1), g, 1)
	for g in ([1], [2], [0, 2], [0, 1, 2]): c.task('shirokov_bounded', (1, 1, 1, -1, 1, 1), blades_of_grades(6, g), 1)
	for n in (1, 2, 3):
		for sig in ordered_signatures(n) if n < 3 or T else pqr_signatures(3):
			for g in grade_combos(n): c.task('hitzer', sig, g)
	for sig in [(1, 1, 1, 0), (1, 1, 1, 1), (1, -1, 1, 1)] + (pqr_signatures(4) if T else []):
		for g in grade_combos(4):
			if len(g) <= 8: c.task('hitzer', sig, g)
	for n in (1, 2, 3):
		for sig in ordered_signatures(n) if n < 3 or T else [(1, 1, 1), (1, 1, 0), (1, -1, 0)]:
			for g in grade_combos(n):
				if len(g) <= (4 if n == 3 else 8): c.task('least_squares', sig, g)
	backends.tasks(c, 'C13')
	c.run()
	return c.finish()
