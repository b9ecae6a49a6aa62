"""C15: exponential / logarithm variants of bivectors: unit values, exact inverse pairs, bisection as powers and roots."""
import itertools, math
import dv.env as env
from dv.core import *
from dv.families import *
from dv import backends
from dv.checks.c14 import fl_check, prove_sym, real_root
from numga.multivector.multivector import AbstractMultiVector as M
import numga.multivector.extension
from numga.multivector.extension import logexp
import warnings
warnings.filterwarnings('ignore', category=RuntimeWarning)

MOD = __name__
ONE = {0: 1}


def bivector_families(n, T):
	B = [b for b in range(1 << n) if popcount(b) == 2]
	subs = [list(c) for k in range(1, len(B) + 1) for c in itertools.combinations(B, k)]
	if len(subs) > 70:
		r = rng('c15', n)
		subs = [[b] for b in B] + [B] + [list(c) for c in itertools.combinations(B, 2)] + r.sample(subs, 120 if T else 40)
	return subs


def unit(sp, m):
	return sp.sub(sp.mul(m, sp.reverse(m)), ONE)


def small(r, g, s=.4):
	return {b: r.uniform(-s, s) for b in order(g)}


def power(sp, x, k):
	out = ONE
	while k:
		if k & 1: out = sp.mul(out, x)
		x = sp.mul(x, x) if k > 1 else x
		k >>= 1
	return out


def neg(sp, b):
	return sp.scale(b, -1)


# ---------------------------------------------------------------- linear
def linear(led, sig, T):
	for g in bivector_families(len(sig), T):
		def code(c, b):
			m = b.exp_linear()
			return m, m.motor_log_linear()
		prove(led, 'exp_linear', 'exp_linear, motor_log_linear', sig, [g], code, lambda sp, b, m, l: dict(value=sp.sub(m, sp.add(ONE, b)), undone=sp.sub(l, b)), concrete=1)


def bisimple(sp, g):
	"""some element of <g> has a square that is not a scalar"""
	return any(b for b in sp.mul({k: 1 for k in g}, {k: 1 for k in g}) if b) and any(
		sp.blade_mul(a, b)[1] and popcount(a ^ b) == 4 for a in g for b in g)


# ---------------------------------------------------------------- linear, normalised
def lin_norm_post(sp, b, m, mi, l):
	q = sp.add(ONE, b)
	real_root(sp, sp.mul(q, sp.reverse(q)))
	return dict(unit=unit(sp, m), reverse=sp.sub(mi, sp.reverse(m)), undone=sp.sub(l, b))
lin_norm_post.total = True


def lin_norm_code(c, b):
	m = b.exp_linear_normalized()
	return m, (-b).exp_linear_normalized(), m.motor_log_linear_normalized()


def lin_norm(led, sig, T):
	n = len(sig)
	sp = spec(sig)
	for g in bivector_families(n, T):
		C = 'exp_linear_normalized'
		if n < 4 or not bisimple(sp, g):
			prove(led, C, 'exp_linear_normalized, motor_log_linear_normalized', sig, [g], lin_norm_code, lin_norm_post, concrete=2, tol=1e-6)
		elif len(g) <= (3 if n == 4 else 2):
			prove(led, C, 'exp_linear_normalized, motor_log_linear_normalized', sig, [g], lin_norm_code, lin_norm_post, concrete=2, tol=1e-6)
		else:
			ok = lin_norm_modular(led, sig, g)
			fl_check(led, C, f'{C} <{g}>', sig, [], lin_norm_code, lin_norm_post, 2 if ok else 8, draw=lambda r: [small(r, g)])


class stub:
	"""replace methods of the multivector class / functions of the module by their contracts while the caller is evaluated"""
	def __init__(self, module=(), **methods):
		self.methods, self.module = methods, dict(module)
	def __enter__(self):
		self.old = {k: M.__dict__.get(k) for k in self.methods}
		self.oldm = {k: getattr(logexp, k, None) for k in self.module}
		for k, f in self.methods.items(): setattr(M, k, _Method(f))
		for k, f in self.module.items(): setattr(logexp, k, f)
	def __exit__(self, *a):
		for k, f in self.old.items():
			if f is None: delattr(M, k)
			else: setattr(M, k, f)
		for k, f in self.oldm.items():
			if f is None: delattr(logexp, k)
			else: setattr(logexp, k, f)


class _Method:
	def __init__(self, f): self.f = f
	def __get__(self, inst, owner):
		if inst is None: return self
		return lambda *a: self.f(inst, *a)
	def __call__(self, *a):
		return self.f(*a)


def attempt(led, contract, f):
	"""None when the code is not of the shape the modular argument needs"""
	try:
		return f()
	except (Unsupported, Undefined, RecursionError, AttributeError, TypeError, KeyError, ZeroDivisionError, MemoryError) as e:
		led.open[contract, f'modular argument: {type(e).__name__}: {e}'[:140]] += 1
		return None


def sym_mv(R, ctx, name, V):
	return ctx.multivector(values=obj([R.var(f'{name}{int(b)}') for b in V.blades]), subspace=V)


def study_of(sp, R, b, name):
	"""generic study number commuting with the bivector b: s0 + t (b^b)"""
	w = sp.wedge(b, b)
	t = R.var(name + 't')
	out = {0: R.var(name + '0')}
	for k, v in w.items(): out[k] = v * t
	return {k: out[k] for k in order(out)}


def lin_norm_modular(led, sig, g):
	"""exp_linear_normalized(b) is normalized(1+b) = s(1+b), s = s0 + t (b^b) (contract of normalized);
	the log of s (1+b) is b for every such invertible s"""
	C = 'exp_linear_normalized'
	sp, ctx, R = spec(sig), context(sig), Ring()
	b = {k: R.var(f'b{k}') for k in order(g)}
	t0 = time.process_time()
	def go():
		seen = {}
		def nz(x):
			seen['arg'] = todict(x)
			seen['out'] = sym_mv(R, ctx, 'n', x.subspace)
			return seen['out']
		with stub(normalized=nz):
			m = mv(ctx, b).exp_linear_normalized()
		if m is not seen['out']: raise Unsupported('result is not the normalised multivector')
		a = sp.sub(seen['arg'], sp.add(ONE, b))
		s = study_of(sp, R, b, 's')
		m = sp.mul(s, sp.add(ONE, b))
		c = sp.sub(m, sp.mul(sp.add(ONE, b), s))
		l = todict(mv(ctx, m).motor_log_linear_normalized())
		d = sp.sub(l, b)
		return a, c, d
	r = attempt(led, C, go)
	led.seconds['normal-form'] += time.process_time() - t0
	if r is None: return False
	try: bad = [(i, k) for i, d in enumerate(r) for k, v in d.items() if not is_zero(v)]
	except MemoryError: bad = ['memory']
	led.seconds['normal-form'] += time.process_time() - t0
	if bad:
		led.open[C, f'modular argument: not reduced {sig} {g} {bad[:2]}'] += 1
		return False
	led.ok(C, 'normal-form', sum(map(len, r)))
	led.cover('exp_linear_normalized: from the contract of normalized')
	return True


# ---------------------------------------------------------------- quadratic (Cayley)
def quad_post(sp, b, m, mi, l=None):
	c = sp.add(ONE, sp.scale(b, Fraction(1, 2)))
	D = sp.mul(c, sp.reverse(c))
	N = sp.mul(D, sp.scalar_negation(D))
	if not any(isinstance(v, Sym) for v in N.values()) and abs(float(N.get(0, 0))) < 1e-2: raise Skip('no Cayley map')
	out = dict(unit=unit(sp, m), reverse=sp.sub(mi, sp.reverse(m)), cayley=sp.sub(sp.mul(m, D), sp.mul(c, c)))
	if l is not None:
		real_root(sp, D)
		out['undone'] = sp.sub(l, b)
	return out
quad_post.total = True


def quad_code(c, b):
	m = b.exp_quadratic()
	return m, (-b).exp_quadratic()


def quad_log_code(c, b):
	m = b.exp_quadratic()
	return m, (-b).exp_quadratic(), m.motor_log_quadratic()


def quad(led, sig, T):
	n, sp = len(sig), spec(sig)
	for g in bivector_families(n, T):
		C = 'exp_quadratic'
		if len(g) <= (4 if n < 5 else 3) or (n < 5 and T):
			ok = prove(led, C, 'exp_quadratic', sig, [g], quad_code, quad_post, concrete=1, tol=1e-6)
		else:
			ok = quad_modular(led, sig, g) or bool(prove(led, C, "exp_quadratic", sig, [g], quad_code, quad_post, tol=1e-6))
		fl_check(led, C, f'{C} <{g}>', sig, [], quad_code, quad_post, 2 if ok else 8, draw=lambda r: [small(r, g)])
		ok = quad_log_modular(led, sig, g)
		fl_check(led, 'motor_log_quadratic', f'motor_log_quadratic <{g}>', sig, [], quad_log_code, quad_post, 2 if ok else 8, draw=lambda r: [small(r, g)])


def quad_modular(led, sig, g):
	"""exp_quadratic(b) = c^2 q with c = 1 + b/2 and q the inverse of D = c ~c (contract of inverse); q = q0 + t (b^b)"""
	C = 'exp_quadratic'
	sp, ctx, R = spec(sig), context(sig), Ring()
	b = {k: R.var(f'b{k}') for k in order(g)}
	t0 = time.process_time()
	q = study_of(sp, R, b, 'q')
	def run(b):
		seen = {}
		def inv(x):
			seen['arg'] = todict(x)
			out = {k: q.get(k, 0) for k in order(set(q) | set(seen['arg']))}
			return mv(ctx, out)
		with stub(inverse=inv):
			m = todict(mv(ctx, b).exp_quadratic())
		if 'arg' not in seen: raise Unsupported('no inverse taken')
		return m, seen['arg']
	def go():
		if not bisimple(sp, g): raise Unsupported('scalar norm')
		m, D = run(b)
		c = sp.add(ONE, sp.scale(b, Fraction(1, 2)))
		cc = sp.mul(c, sp.reverse(c))
		mi, Di = run(neg(sp, b))
		return [sp.sub(D, cc), sp.sub(Di, cc), sp.sub(m, sp.mul(sp.mul(c, c), q)), sp.sub(mi, sp.reverse(m)),
		        sp.sub(sp.mul(q, b), sp.mul(b, q)), sp.sub(sp.reverse(q), q)]
	r = attempt(led, C, go)
	bad = r is None or [1 for d in r for v in d.values() if not is_zero(v)]
	led.seconds['normal-form'] += time.process_time() - t0
	if bad:
		for k in [k for k in led.open if k[0] == C]: del led.open[k]     # falls back to the direct proof
		return False
	led.ok(C, 'normal-form', sum(map(len, r)))
	led.cover('exp_quadratic: from the contract of inverse')
	return True


def lemmas(led):
	"""commutative algebra generated by b and q (both commute with everything met): c = 1 + b/2, D = c ~c, ~c = 2 - c, q D = 1"""
	R = Ring()
	c, q, s = R.vars('x', 3)
	k = 2 - c
	D = c * k
	e = q * D - 1
	m, mr = c * c * q, k * k * q
	led.enum('lemma', is_zero(m * mr - 1 - e * (q * D + 1)), 'c^2 q (~c)^2 q = (q D)^2 = 1')
	led.enum('lemma', is_zero(m + 1 - 2 * c * q - (-e) ), 'm + 1 = 2 c q modulo q D = 1')
	# the root of m is n = s(m+1) with n n = m; (m+1) = 2 c q, so n = (2 s q) c: a study multiple of c = 1 + b/2
	led.enum('lemma', is_zero(s * (2 * c * q) - (2 * s * q) * c), 'normalized(m+1) is a study multiple of 1 + b/2')


def quad_log_modular(led, sig, g):
	"""motor_log_quadratic(m) = 2 motor_log_linear_normalized(motor_square_root(m)); for the root n = s (1 + b/2) this is b"""
	C = 'motor_log_quadratic'
	sp, ctx, R = spec(sig), context(sig), Ring()
	b = {k: R.var(f'b{k}') for k in order(g)}
	c = sp.add(ONE, sp.scale(b, Fraction(1, 2)))
	t0 = time.process_time()
	def go():
		seen = []
		s = study_of(sp, R, b, 's')
		n = sp.mul(s, c)
		V = sorted(set(n) | {0})
		def root(x):
			seen.append(x)
			return mv(ctx, n)
		m = ctx.multivector(values=obj([R.var(f'm{int(k)}') for k in V]), subspace=sub(ctx, V))
		with stub(motor_square_root=root):
			l = todict(m.motor_log_quadratic())
		if len(seen) != 1 or seen[0] is not m: raise Unsupported('not one root of the argument')
		return [sp.sub(l, b)]
	r = attempt(led, C, go)
	bad = r is None or [1 for d in r for v in d.values() if not is_zero(v)]
	led.seconds['normal-form'] += time.process_time() - t0
	if bad:
		if r is not None: led.open[C, f'modular argument: not reduced {sig} {g}'] += 1
		return False
	led.ok(C, 'normal-form', sum(map(len, r)))
	led.cover('motor_log_quadratic: from the contract of motor_square_root')
	return True


# ---------------------------------------------------------------- bisection
class Power:
	"""value base ** exponent of an abstract unit: the contract of squaring a power"""
	def __init__(self, base, e): self.base, self.e = base, e
	def squared(self): return Power(self.base, 2 * self.e)
	def __mul__(self, o):
		if isinstance(o, Power) and o.base is self.base: return Power(self.base, self.e + o.e)
		return NotImplemented
	product = __mul__
	def __pow__(self, k): return Power(self.base, self.e * k)
	def reverse(self): return Power(self.base, -self.e)
	__invert__ = reverse


class Root:
	"""the 2**depth-th root of m: the contract of motor_square_root"""
	def __init__(self, m, depth): self.m, self.depth = m, depth
	def motor_square_root(self): return Root(self.m, self.depth + 1)


def bisect(led, sig, N):
	sp, ctx = spec(sig), context(sig)
	n = len(sig)
	B = [b for b in range(1 << n) if popcount(b) == 2]
	E = [b for b in range(1 << n) if popcount(b) % 2 == 0]
	for k in [None] + list(range(N)):
		R = Ring()
		b = {i: R.var(f'b{i}') for i in B}
		kk = 15 if k is None else k
		def go():
			base = []
			def cayley(x):
				base.append(x)
				return Power(base, 1)
			x = mv(ctx, b)
			with stub(module=dict(exp_cayley=cayley), exp_quadratic=cayley):
				r = logexp.exp_bisect(x) if k is None else logexp.exp_bisect(x, k)
			if not (isinstance(r, Power) and len(base) == 1): raise Unsupported('not a power of one Cayley map')
			return r.e, sp.sub(sp.scale(todict(base[0]), 2 ** kk), b)
		r = attempt(led, 'exp_bisect', go)
		ok = False
		if r is not None:
			if r[0] == 2 ** kk and all(is_zero(v) for v in r[1].values()):
				led.ok('exp_bisect', 'normal-form', 1 + len(r[1])); ok = True
				led.cover('exp_bisect: power of the Cayley map')
			else: led.open['exp_bisect', f'exponent {r[0]}, argument residual nonzero'] += 1
		def post(sp, b, m):
			c = sp.add(ONE, sp.scale(b, .5 ** (kk + 1)))
			D = sp.mul(c, sp.reverse(c))
			return dict(power=sp.sub(m, power(sp, sp.mul(sp.mul(c, c), study_inverse(sp, D)), 2 ** kk)), unit=unit(sp, m))
		if not ok or k is None or k in (1, 3):
			code = (lambda c, x: x.exp_bisect()) if k is None else (lambda c, x: logexp.exp_bisect(x, k))
			fl_check(led, 'exp_bisect', f'exp_bisect n={kk}', sig, [], code, post, 2, draw=lambda r: [small(r, B, .8)])
		m = {i: R.var(f'm{i}') for i in E}
		def go():
			L = sym_mv(R, ctx, 'L', ctx.subspace.bivector())
			x = mv(ctx, m)
			args = []
			def root(y):
				if y is not x: raise Unsupported('root of something else')
				return Root(y, 1)
			def log(y):
				args.append(y)
				return L
			with stub(module=dict(motor_log_cayley=log), motor_square_root=root, motor_log_quadratic=log):
				r = logexp.motor_log_bisect(x) if k is None else logexp.motor_log_bisect(x, k)
			if len(args) != 1: raise Unsupported('not one Cayley log')
			if args[0] is x: d = 0
			elif isinstance(args[0], Root) and args[0].m is x: d = args[0].depth
			else: raise Unsupported('argument of the Cayley log')
			return d, sp.sub(todict(r), sp.scale(todict(L), 2 ** kk))
		r = attempt(led, 'motor_log_bisect', go)
		ok = False
		if r is not None:
			if r[0] == kk and all(is_zero(v) for v in r[1].values()):
				led.ok('motor_log_bisect', 'normal-form', 1 + len(r[1])); ok = True
				led.cover('motor_log_bisect: iterated roots')
			else: led.open['motor_log_bisect', f'depth {r[0]}, result residual'] += 1
		if not ok or k is None or k in (1, 3):
			def code(c, x):
				e = (x.exp_bisect() if k is None else logexp.exp_bisect(x, k))
				return e, (e.motor_log_bisect() if k is None else logexp.motor_log_bisect(e, k))
			fl_check(led, 'motor_log_bisect', f'motor_log_bisect(exp_bisect(b)) n={kk}', sig, [], code, lambda sp, b, m, l: dict(undone=sp.sub(l, b)), 2, draw=lambda r: [small(r, B, .3)])


def bisect_loops(led):
	"""the two bisection loops for every number of steps: loop invariants over the AST of the real functions (engine P).
	Ghost functions: cay(x) ^ e for motors of exp_bisect, root^d(x) for motors of motor_log_bisect."""
	from dv import pvc
	from dv.pvc import z3, V, Op, Int, Nat, St, Machine, Exc, discharge, fresh
	led.refuted = []
	N = z3.Int('N')
	pow2 = z3.Function('pow2', z3.IntSort(), z3.IntSort())
	over, times = z3.Function('over', V, z3.IntSort(), V), z3.Function('times', V, z3.IntSort(), V)
	k = z3.Int('k')
	axioms = [pow2(0) == 1, z3.ForAll([k], z3.Implies(k >= 0, pow2(k + 1) == 2 * pow2(k)))]
	class Inverse:
		"""the reciprocal of an integer"""
		def __init__(self, t): self.t = t
	def binop(m, s, op, a, b):
		import ast
		if op is ast.Pow and a == 2 and isinstance(b, Int): return Int(pow2(b.t))
		if op is ast.LShift and a == 1 and isinstance(b, Int): return Int(pow2(b.t))
		if op is ast.Div and a == 1 and isinstance(b, Int): return Inverse(b.t)
		if op is ast.Mult and isinstance(a, Op) and isinstance(b, Inverse): return Op(over(a.t, b.t))
		if op is ast.Mult and isinstance(b, Op) and isinstance(a, Inverse): return Op(over(b.t, a.t))
		if op is ast.Div and isinstance(a, Op) and isinstance(b, Int): return Op(over(a.t, b.t))
		if op is ast.Mult and isinstance(a, Op) and isinstance(b, Int): return Op(times(a.t, b.t))
		if op is ast.Mult and isinstance(b, Op) and isinstance(a, Int): return Op(times(b.t, a.t))
		return None
	def nat(f): return Nat(lambda m, s, args, kw: iter([(s, f(*args))]))
	# exp: m = cay(arg) ^ exponent
	cay = z3.Function('cay_power', V, z3.IntSort(), V)
	b, m0 = z3.Const('b', V), z3.Const('m', V)
	def power_of(t):
		return t.decl().eq(cay) if z3.is_app(t) else False
	x, e = z3.Const('x', V), z3.Int('e')
	square = z3.Function('square', V, V)
	ax_exp = axioms + [z3.ForAll([x, e], square(cay(x, e)) == cay(x, 2 * e))]       # contract of squared (C08): (c^e)^2 = c^(2e)
	sq = lambda m, s, o: nat(lambda: Op(square(o.t)))
	def motor(s, changed):
		"""the motor the loop works on"""
		v = [s.env.get(a) for a in changed]
		v = [x for x in v if isinstance(x, Op)]
		if len(v) != 1: raise Unsupported('not one motor in the loop')
		return v[0]
	def inv_exp(s, i, changed):
		v = motor(s, changed)
		return v.t == cay(over(b, pow2(N)), pow2(i))
	root = z3.Function('root_power', V, z3.IntSort(), V)
	rt = z3.Function('root', V, V)
	lg = z3.Function('cayley_log', V, V)
	ax_log = axioms + [root(m0, 0) == m0, z3.ForAll([k], z3.Implies(k >= 0, rt(root(m0, k)) == root(m0, k + 1)))]
	def inv_log(s, i, changed):
		v = motor(s, changed)
		return v.t == root(m0, i)
	try:
		M1 = Machine(globs=dict(exp_cayley=nat(lambda a: Op(cay(a.t, 1)))), opaque=dict(squared=sq, exp_quadratic=lambda m, s, o: nat(lambda: Op(cay(o.t, 1)))), binop=binop, invariants=inv_exp)
		run = [(M1, 'exp_bisect', logexp.exp_bisect, [Op(b), Int(N)], ax_exp, cay(over(b, pow2(N)), pow2(N)))]
		M2 = Machine(globs=dict(motor_log_cayley=nat(lambda a: Op(lg(a.t)))), opaque=dict(motor_square_root=lambda m, s, o: nat(lambda: Op(rt(o.t))), motor_log_quadratic=lambda m, s, o: nat(lambda: Op(lg(o.t)))), binop=binop, invariants=inv_log)
		run.append((M2, 'motor_log_bisect', logexp.motor_log_bisect, [Op(m0), Int(N)], ax_log, times(lg(root(m0, N)), pow2(N))))
		for M_, nm, f, args, ax, want in run:
			try:
				got = 0
				for s, v in M_.call_function(M_.source(f), St(pc=[N >= 0]), args):
					if isinstance(v, Exc) or not isinstance(v, Op): raise Unsupported('result')
					pvc.covered(led, nm, M_, s)
					discharge(led, nm, M_, s, v.t == want, 'result for every number of steps', ax)
					got += 1
				if not got: raise Unsupported('no path')
				for s, g, w in M_.obligations: discharge(led, nm, M_, s, g, w, ax)
			except (Unsupported, OSError, SyntaxError, z3.Z3Exception, KeyError, AttributeError, TypeError) as ex:
				led.open[nm, f'loop outside the verifier\'s subset: {type(ex).__name__}: {ex}'[:150]] += 1
	finally:
		del led.refuted      # refutations of loop invariants are not reported: the loops are also decided step by step for n < 20


def study_inverse(sp, D):
	N = sp.mul(D, sp.scalar_negation(D))
	if abs(float(N[0])) < 1e-3: raise Skip('singular')
	return sp.scale(sp.scalar_negation(D), 1 / N[0])


# ---------------------------------------------------------------- dispatch of exp / log
def dispatch(led, sig, T):
	n, sp, ctx = len(sig), spec(sig), context(sig)
	for g in bivector_families(n, T):
		R = Ring()
		b = {k: R.var(f'b{k}') for k in order(g)}
		if not any(not is_zero(v) for v in sp.mul(b, b).values()):      # every element squares to zero
			def code(c, b):
				m = b.exp()
				return m, (-b).exp(), m.motor_log()
			def post(sp, b, m, mi, l):
				return dict(value=sp.sub(m, sp.add(ONE, b)), unit=unit(sp, m), reverse=sp.sub(mi, sp.reverse(m)), undone=sp.sub(l, b))
			prove(led, 'exp', 'exp of elements that square to zero', sig, [g], code, post, concrete=2, tol=1e-5)
			led.cover('exp: null subspaces')
			continue
		# default: the bisection exponential
		def go():
			x = mv(ctx, b)
			got = []
			mark = object()
			def bis(y):
				got.append(y)
				return mark
			with stub(exp_bisect=bis, module=dict(exp_bisect=bis)):
				r = x.exp()
			if r is not mark or got != [x]: raise Unsupported('not the bisection exponential')
			return True
		ok = attempt(led, 'exp', go)
		if ok:
			led.ok('exp', 'normal-form')
			led.cover('exp: default is exp_bisect')
		def post(sp, b, m, mi):
			c = sp.add(ONE, sp.scale(b, .5 ** 16))
			D = sp.mul(c, sp.reverse(c))
			return dict(unit=unit(sp, m), reverse=sp.sub(mi, sp.reverse(m)), series=sp.sub(m, series(sp, b)))
		fl_check(led, 'exp', f'exp <{g}>', sig, [], lambda c, b: (b.exp(), (-b).exp()), post, 1 if ok else 6, draw=lambda r: [small(r, g, .8)])
		if not env.THOROUGH and len(g) > 2 and n > 3: continue
		fl_check(led, 'motor_log', f'motor_log(exp(b)) <{g}>', sig, [], lambda c, b: b.exp().motor_log(), lambda sp, b, l: dict(undone=sp.sub(l, b)), 1, draw=lambda r: [small(r, g, .3)])
	for g in [blades_of_grades(n, gs) for gs in ([0, 2], [0, 2, 4], [2], [0, 4]) if max(gs) <= n]:
		V = sub(ctx, g)
		if all(sp.is_degenerate(k) for k in g if k): continue
		def go():
			x = sym_mv(Ring(), ctx, 'm', V)
			got, mark = [], object()
			def bis(y):
				got.append(y)
				return mark
			with stub(motor_log_bisect=bis, module=dict(motor_log_bisect=bis)):
				r = x.motor_log()
			if r is not mark or got != [x]: raise Unsupported('not the bisection logarithm')
			return True
		if attempt(led, 'motor_log', go):
			led.ok('motor_log', 'normal-form')
	B = [k for k in range(1 << n) if popcount(k) == 2]
	fl_check(led, 'motor_log', 'motor_log(exp(b))', sig, [], lambda c, b: b.exp().motor_log(), lambda sp, b, l: dict(undone=sp.sub(l, b)), 3, draw=lambda r: [small(r, B, .3)])


def series(sp, b):
	out, t = dict(ONE), dict(ONE)
	for k in range(1, 40):
		t = sp.scale(sp.mul(t, b), 1 / k)
		out = sp.add(out, t)
	return out


def scalars(led, sig):
	C = 'scalar exp, log'
	R = Ring()
	x = R.var('x')
	ctx = context(sig)
	s = mv(ctx, {0: x})
	for name, want in (('exp', R.func('exp', x)), ('log', R.func('log', x))):
		def go():
			r = todict(getattr(s, name)())
			return r
		r = attempt(led, C, go)
		if r is not None:
			if set(r) == {0} and is_zero(r[0] - want): led.ok(C, 'normal-form')
			else: led.open[C, f'{name}: {r}'[:80]] += 1
		fc = context(sig, np.float64)
		rr = rng('c15s', sig, name)
		for _ in range(5):
			v = rr.uniform(.1, 3)
			got = getattr(mv(fc, {0: v}), name)()
			led.num(C, got.subspace.equals.scalar() and abs(float(got.values[0]) - getattr(math, name)(v)) < 1e-9, f'{name}({v}) = {got.values}', kind='value', input=v)
	with np.errstate(all='ignore'):
		led.num(C, bool(np.isnan(mv(context(sig, np.float64), {0: -2.}).log().values[0])), 'log(-2) is a number', kind='value', input=-2)
	m = context(sig).multivector.empty() if hasattr(context(sig).multivector, 'empty') else None
	if m is not None:
		led.enum(C, {k: v for k, v in todict(m.exp()).items()} == {0: 1}, 'exp of the empty multivector is not 1', kind='value')


def boundary(led, sig):
	"""bounded: bivectors at which a denominator could vanish: zero, single blades (null ones too), null sums"""
	sp, n = spec(sig), len(sig)
	B = [k for k in order(range(1 << n)) if popcount(k) == 2]
	pts = [{}] + [{b: v} for b in B for v in (.5, -1.)] + [{a: .4, b: s} for a, b in itertools.combinations(B, 2) for s in (.4, -.4)]
	def roundtrip(exp, log):
		def code(c, b):
			m = getattr(b, exp)()
			return (m, getattr(-b, exp)()) + ((getattr(m, log)(),) if log else ())
		return code
	def post_of(unital, log):
		def post(sp, b, m, i, l=None):
			if not all(abs(float(v)) < 1e6 for v in m.values()) and unital is None: raise Skip('unbounded')
			if unital is None:
				c = sp.add(ONE, b)
				real_root(sp, sp.mul(c, sp.reverse(c)))
			if unital == 'quad':
				c = sp.add(ONE, sp.scale(b, .5))
				real_root(sp, sp.mul(c, sp.reverse(c)))
			res = dict(reverse=sp.sub(i, sp.reverse(m)))
			if unital != 'linear': res['unit'] = unit(sp, m)
			if l is not None: res['undone'] = sp.sub(l, b)
			return res
		post.total = True
		return post
	for name, exp, log, kind in (('exp_linear', 'exp_linear', 'motor_log_linear', 'linear'), ('exp_linear_normalized', 'exp_linear_normalized', 'motor_log_linear_normalized', None),
	                             ('exp_quadratic', 'exp_quadratic', 'motor_log_quadratic', 'quad'), ('exp_bisect', 'exp_bisect', 'motor_log_bisect', 'bisect'), ('exp', 'exp', 'motor_log', 'bisect')):
		for p in pts:
			for g in {tuple(order(p)), tuple(B)}:
				if not g: continue
				fl_check(led, name, f'{exp} and {log} at {p} in <{list(g)}>', sig, [], roundtrip(exp, log), post_of(kind, log), 1, draw=lambda r: [{k: p.get(k, 0.) for k in g}], tol=1e-6)


def main():
	c = Check('C15', MOD)
	c.contract('exp_linear', ['mv.exp_linear', 'mv.motor_log_linear'], '1 + b, undone by its logarithm')
	c.contract('exp_linear_normalized', ['mv.exp_linear_normalized', 'mv.motor_log_linear_normalized'], 'unit, reverse at -b, undone by its logarithm')
	c.contract('exp_quadratic', ['mv.exp_quadratic: exp_cayley'], 'm D = c^2 with c = 1 + b/2, D = c ~c; m ~m = 1; reverse at -b')
	c.contract('motor_log_quadratic', ['mv.motor_log_quadratic: motor_log_cayley', 'mv.motor_log_linear_normalized'], 'undoes exp_quadratic')
	c.contract('lemma', [], 'commutative algebra lemmas linking the contracts')
	c.contract('exp_bisect', ['mv.exp_bisect'], '2^n-th power of the Cayley map of b / 2^n')
	c.contract('motor_log_bisect', ['mv.motor_log_bisect'], '2^n times the Cayley log of the 2^n-th root')
	c.contract('exp', ['mv.exp: degenerate_exp, default_exp, empty_exp'], '1 + b on subspaces of null elements, bisection otherwise')
	c.contract('motor_log', ['mv.motor_log: degenerate_log, default'], 'undoes exp')
	c.contract('scalar exp, log', ['mv.exp: scalar_exp', 'mv.log: scalar_log', 'NumpyContext.exp', 'NumpyContext.log'], 'the ordinary functions')
	c.assumptions += [
		'roots met are real and nonzero; motor_square_root returns the principal root normalized(m+1) (C14), so iterated roots of a power undo squaring near the identity',
		'modular steps use the contracts of normalized (C14), inverse (C13), motor_square_root (C14), product/squared (C02, C08): study factors have the form s0 + t (b^b), which commutes with b (proved for each case)',
	]
	T = env.THOROUGH
	sigs = [s for n in (2, 3) for s in ordered_signatures(n)] + pqr_signatures(4)
	s5 = [(1, 1, 1, 1, 1), (1, 1, 1, 1, 0), (1, 1, 1, 1, -1), (1, 1, -1, -1, 0), (0, 1, 1, 1, 1)]
	if T: s5 += pqr_signatures(5); sigs += ordered_signatures(4)
	for sig in s5 + sigs:
		for f in ('quad', 'lin_norm', 'linear', 'dispatch'):
			c.task(f, sig, T)
	c.task('lemmas')
	c.task('bisect_loops')
	for sig in [(1, 1), (1, 0), (1, 1, 1), (1, 1, 0), (1, -1), (1, 1, 1, 0), (1, 1, 1, -1), (1, 1, 1, 1, 0), (1, 1, 1, 1, -1)]:
		c.task('bisect', sig, 20 if len(sig) < 4 else 6)
	for sig in [(1,), (-1,), (0,), (1, 1, 1, 0)]:
		c.task('scalars', sig)
	for sig in [s for n in (2, 3, 4) for s in pqr_signatures(n)] + [(1, 1, 1, 1, 1), (1, 1, 1, 1, 0)]:
		c.task('boundary', sig)
	backends.tasks(c, 'C15')
	c.run()
	return c.finish()
