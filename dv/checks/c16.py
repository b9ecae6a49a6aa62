"""C16: decompositions: invariant, polar, translator/rotor and split with respect to an origin."""
import itertools
import dv.env as env
from dv.core import *
from dv.families import *
from dv import backends
from dv.checks.c14 import fl_check, real_root, unit_motor
from dv.checks.c15 import bivector_families, bisimple, small, sym_mv, study_of, attempt, _Method, unit
from numga.multivector.multivector import AbstractMultiVector as M
import numga.multivector.extension
from numga.multivector.extension import decompose
import warnings
warnings.filterwarnings('ignore', category=RuntimeWarning)

MOD = __name__
ONE = {0: 1}


class stub:
	def __init__(self, module=(), **methods):
		self.methods, self.module = methods, dict(module)
	def __enter__(self):
		self.old = {k: M.__dict__[k] for k in self.methods}
		self.oldm = {k: getattr(decompose, k) for k in self.module}
		for k, f in self.methods.items(): setattr(M, k, _Method(f))
		for k, f in self.module.items(): setattr(decompose, k, f)
	def __exit__(self, *a):
		for k, f in self.old.items(): setattr(M, k, f)
		for k, f in self.oldm.items(): setattr(decompose, k, f)


def study_norm2(sp, q):
	return sp.mul(q, sp.scalar_negation(q)).get(0, 0)


def null_square(sp, g):
	R = Ring()
	b = {k: R.var(f'b{k}') for k in g}
	return is_zero(study_norm2(sp, sp.mul(b, b)))


# ---------------------------------------------------------------- invariant
def invariant_post(sp, b, l, r):
	if not any(isinstance(v, Sym) for v in b.values()):
		q = sp.mul(b, b)
		s = max([1e-3] + [abs(float(v)) for v in q.values()])
		if bisimple(sp, list(b)) and not float(study_norm2(sp, q)) > 1e-4 * s * s: raise Skip('not decomposable')
	ns = lambda x: {k: v for k, v in sp.mul(x, x).items() if k}
	return dict(sum=sp.sub(sp.add(l, r), b), l_square=ns(l), r_square=ns(r), commute=sp.sub(sp.mul(l, r), sp.mul(r, l)),
	            inner={0: sp.mul(l, r).get(0, 0)}, bivectors={k: v for d in (l, r) for k, v in d.items() if popcount(k) != 2})
invariant_post.total = True


def invariant(led, sig, T):
	n, sp = len(sig), spec(sig)
	for g in bivector_families(n, T):
		if bisimple(sp, g) and null_square(sp, g): continue
		C = 'decompose_invariant'
		led.cover('bisimple subspaces' if bisimple(sp, g) else 'simple subspaces')
		prove(led, C, 'decompose_invariant', sig, [g], lambda c, b: b.decompose_invariant(), invariant_post, concrete=2, tol=1e-6)


# ---------------------------------------------------------------- polar
def polar_post(sp, b, L, s):
	real_root(sp, sp.mul(b, sp.reverse(b)))
	return dict(product=sp.sub(sp.mul(L, s), b), root=sp.sub(sp.mul(s, s), sp.mul(b, sp.reverse(b))), bivector={k: v for k, v in L.items() if popcount(k) != 2},
	            commute=sp.sub(sp.mul(L, s), sp.mul(s, L)))
polar_post.total = True


def polar(led, sig, T):
	n, sp = len(sig), spec(sig)
	C = 'decompose_polar'
	for g in bivector_families(n, T):
		if null_square(sp, g): continue
		if not bisimple(sp, g) or len(g) <= 2:
			prove(led, C, 'decompose_polar', sig, [g], lambda c, b: b.decompose_polar(), polar_post, concrete=2, tol=1e-6)
		else:
			ok = polar_modular(led, sig, g)
			fl_check(led, C, f'decompose_polar <{g}>', sig, [], lambda c, b: b.decompose_polar(), polar_post, 2 if ok else 8, draw=lambda r: [small(r, g, 1.)])


def polar_modular(led, sig, g):
	"""s is the root of b ~b (contract of square_root, C14), a study number s0 + t (b^b); L s = b for every such invertible s"""
	C = 'decompose_polar'
	sp, ctx, R = spec(sig), context(sig), Ring()
	b = {k: R.var(f'b{k}') for k in order(g)}
	t0 = time.process_time()
	def go():
		seen = []
		s = study_of(sp, R, b, 's')
		S = mv(ctx, s)
		def root(x):
			seen.append(todict(x))
			return S
		with stub(square_root=root):
			L, r = mv(ctx, b).decompose_polar()
		if len(seen) != 1: raise Unsupported('not one root')
		L, r = todict(L), todict(r)
		return [sp.sub(seen[0], sp.mul(b, sp.reverse(b))), sp.sub(r, s), sp.sub(sp.mul(L, s), b), sp.sub(sp.mul(s, b), sp.mul(b, s)), sp.sub(sp.mul(L, s), sp.mul(s, L)), {k: v for k, v in L.items() if popcount(k) != 2}]
	r = attempt(led, C, go)
	bad = r is None or [1 for d in r for v in d.values() if not is_zero(v)]
	led.seconds['normal-form'] += time.process_time() - t0
	if bad:
		if r is not None: led.open[C, f'modular argument: not reduced {sig} {g}'] += 1
		return False
	led.ok(C, 'normal-form', sum(map(len, r)))
	led.cover('decompose_polar: from the contract of square_root')
	return True


# ---------------------------------------------------------------- translator / rotor of unit motors with one null generator
def parts(sig):
	z = sig.index(0)
	e0 = 1 << z
	nd = [b for b in range(1 << len(sig)) if not b & e0]
	return e0, nd


def motor_families(sig, T):
	"""(rotor blades, direction blades): m = (1 + e0 v) r"""
	e0, nd = parts(sig)
	vec = [b for b in nd if popcount(b) == 1]
	even = [b for b in nd if popcount(b) % 2 == 0]
	biv = [b for b in nd if popcount(b) == 2]
	rs = [[0], even] + [[0, b] for b in biv] + [[0] + biv] + ([[0] + list(p) for p in itertools.combinations(biv, 2)] if T or len(biv) < 4 else [])
	vs = [[], vec] + [[v] for v in vec]
	return [(r, v) for r in rs for v in vs]


def translator(led, sig, T):
	sp, ctx = spec(sig), context(sig)
	e0, nd = parts(sig)
	C = 'motor_translator'
	for rb, vb in motor_families(sig, T):
		R = Ring()
		r = {k: R.var(f'r{k}') for k in order(rb)}
		v = {k: R.var(f'v{k}') for k in order(vb)}
		tr = sp.mul({e0: 1}, v)
		m = sp.mul(sp.add(ONE, tr), r)
		m = {k: m[k] for k in order(m)}
		def go():
			x = mv(ctx, m)
			return todict(x.motor_translator()), todict(x.motor_rotor())
		def post(sp, m, t, r):
			if any(k & e0 for k in m): shape = {k: c for k, c in t.items() if k and not (popcount(k) == 2 and k & e0)}
			else: shape = {k: c for k, c in t.items() if k}
			return dict(product=sp.sub(sp.mul(t, r), m), translator=shape, one={0: t.get(0, 0) - 1}, rotor={k: c for k, c in r.items() if k & e0}, unit=unit(sp, r))
		post.total = True
		got = attempt(led, C, go)
		ok = False
		if got is not None:
			t, q = got
			n2 = sp.mul(r, sp.reverse(r))
			want = sp.add(ONE, sp.grade(sp.mul(tr, n2), 2))      # = 1 + e0 v for unit r (r ~r = 1)
			res = [sp.sub(t, want), sp.sub(q, r)]
			if all(is_zero(c) for d in res for c in d.values()):
				led.ok(C, 'normal-form', sum(map(len, res)))
				ok = True
				led.cover('translator: cases with a null part' if vb else 'translator: pure rotors')
			else: led.open[C, 'not 1 + <e0 v r ~r>_2 for unnormalised r'] += 1
		def draw(rr):
			q = unit_motor(sp, rr, [k for k in rb if k]) if len(rb) > 1 else dict(ONE)
			v = {k: rr.uniform(-1, 1) for k in vb}
			m = sp.mul(sp.add(ONE, sp.mul({e0: 1.}, v)), q)
			m = {k: c for k, c in m.items() if k in q or vb}
			return [{k: float(m[k]) for k in order(m)}]
		blades = [b for b in rb if b]
		def draw_blade(rr):
			b = rr.choice(blades)
			q = {k: 1. if k == b and sp.mul({b: 1}, sp.reverse({b: 1})).get(0) == 1 else 0. for k in rb}
			if not q[b]: q[0] = 1.
			v = {k: rr.uniform(-1, 1) for k in vb}
			m = sp.mul(sp.add(ONE, sp.mul({e0: 1.}, v)), q)
			return [{k: float(m.get(k, 0.)) for k in order(set(m) | set(rb))}]
		if blades: fl_check(led, C, f'motor_translator, motor_rotor, half turns, r={rb} v={vb}', sig, [], lambda c, m: (m.motor_translator(), m.motor_rotor()), post, 2, draw=draw_blade)
		for form in (['closed'] if len(rb) != 1 + len([b for b in nd if popcount(b) == 2]) else []):
			fl_check(led, C, f'motor_translator, motor_rotor r={rb} v={vb}', sig, [], lambda c, m: (m.motor_translator(), m.motor_rotor()), post, 2 if ok else 8, draw=draw)


def norotor(led, sig):
	"""algebras without null generators: the translator is 1 and the rotor the motor itself"""
	ctx, sp = context(sig), spec(sig)
	even = [b for b in range(1 << len(sig)) if popcount(b) % 2 == 0]
	for g in [even, [0], [b for b in even if popcount(b) <= 2]]:
		prove(led, 'motor_translator', 'motor_translator, motor_rotor', sig, [g], lambda c, m: (m.motor_translator(), m.motor_rotor()), lambda sp, m, t, r: dict(one=sp.sub(t, ONE), rotor=sp.sub(r, m)))
		def post(sp, m, t, r): return dict(one=sp.sub(t, ONE), rotor=sp.sub(r, m))
		post.total = True
		for b in g[1:]:          # half turns: no scalar part
			fl_check(led, 'motor_translator', 'motor_translator, motor_rotor, half turns', sig, [], lambda c, m: (m.motor_translator(), m.motor_rotor()), post, 1, draw=lambda rr, b=b: [{k: float(k == b) for k in order(g)}])


# ---------------------------------------------------------------- split with respect to an origin
def split_post(sp, m, o, t, r):
	n2 = sp.mul(o, sp.reverse(o)).get(0, 0)
	if not abs(float(n2)) > 1e-2: raise Skip('origin not invertible')
	p = sp.sandwich_full(m, o)
	q = sp.add(ONE, sp.scale(sp.mul(p, sp.reverse(o)), 1 / n2))
	real_root(sp, sp.mul(q, sp.reverse(q)))
	if sp.mul(q, sp.reverse(q)).get(0, 0) < 1e-1: raise Skip('antipodal')
	return dict(product=sp.sub(sp.mul(t, r), m), invariant=sp.sub(sp.sandwich_full(r, o), o), unit=unit(sp, t), unit_r=unit(sp, r),
	            form={k: v for k, v in t.items() if popcount(k) not in (0, 2)}, trajectory=sp.sub(sp.mul(t, o), sp.mul(o, sp.reverse(t))))
split_post.total = True


def split_origins(sig, T):
	n = len(sig)
	full = (1 << n) - 1
	anti = [full ^ (1 << i) for i in range(n)]
	return [[a] for a in anti] + [anti] + [list(p) for p in itertools.combinations(anti, 2)][:(20 if T else 4)]


def split(led, sig, T):
	n, sp, ctx = len(sig), spec(sig), context(sig)
	C = 'motor_split'
	even = [b for b in range(1 << n) if popcount(b) % 2 == 0]
	null = [i for i in range(n) if not sig[i]]
	full = (1 << n) - 1
	for ob in split_origins(sig, T):
		if all(sp.is_degenerate(b) for b in ob): continue       # no invertible origin
		euclid = len(ob) == 1 and len(null) == 1 and ob[0] == full ^ (1 << null[0])
		if euclid: ok = split_euclid(led, sig, ob[0], even)
		elif len(ob) == 1: ok = split_blade(led, sig, ob[0], even) and split_general(led, sig, ob, even)
		else: ok = split_general(led, sig, ob, even)
		biv = [k for k in even if popcount(k) == 2]
		def draw(r):
			m = unit_motor(sp, r, [k for k in even if k])
			o = {k: r.uniform(.5, 1.5) if not sp.is_degenerate(k) else r.uniform(-1, 1) for k in ob}
			return [m, {k: o[k] for k in order(o)}]
		fl_check(led, C, f'motor_split o=<{ob}>', sig, [], lambda c, m, o: m.motor_split(o), split_post, 3 if ok else 10, draw=draw, tol=1e-6)
		# half turns: no scalar part
		for b in biv:
			if sp.mul({b: 1}, {b: 1}).get(0) != -1: continue
			for g in ([b], even):
				fl_check(led, C, f'motor_split o=<{ob}> of the half turn {b}', sig, [], lambda c, m, o: m.motor_split(o), split_post, 1, tol=1e-6,
				         draw=lambda r: [{k: float(k == b) for k in order(g)}, {k: (r.uniform(.5, 1.5) if not sp.is_degenerate(k) else r.uniform(-1, 1)) for k in order(ob)}])
		# motors in small subspaces
		for rest in [[b] for b in biv] + [list(p) for p in itertools.combinations(biv, 2)][:(30 if T else 6)]:
			def draw2(r):
				m = unit_motor(sp, r, rest)
				o = {k: r.uniform(.5, 1.5) if not sp.is_degenerate(k) else r.uniform(-1, 1) for k in ob}
				return [m, {k: o[k] for k in order(o)}]
			fl_check(led, C, f'motor_split o=<{ob}> m in <{rest}>', sig, [], lambda c, m, o: m.motor_split(o), split_post, 1, draw=draw2, tol=1e-6)


def decide(led, C, r, note):
	bad = r is None or [1 for d in r for v in d.values() if not is_zero(v)]
	if bad:
		if r is not None: led.open[C, f'modular argument: not reduced ({note})'] += 1
		return False
	led.ok(C, 'normal-form', sum(map(len, r)))
	led.cover(note)
	return True


def split_euclid(led, sig, ob, even):
	"""the Euclidean origin: (t, r) are motor_translator and motor_rotor, and every even nondegenerate r commutes with o"""
	sp, ctx, R = spec(sig), context(sig), Ring()
	m = {k: R.var(f'm{k}') for k in order(even)}
	def go():
		x = mv(ctx, m)
		o = mv(ctx, {ob: R.var('o')})
		t, r = x.motor_split(o)
		t, r = todict(t), todict(r)
		O = {ob: R.var('w')}
		return [sp.sub(t, todict(x.motor_translator())), sp.sub(r, todict(x.motor_rotor())), sp.sub(sp.mul(r, O), sp.mul(O, r)), {k: v for k, v in r.items() if sp.is_degenerate(k)}]
	return decide(led, 'motor_split', attempt(led, 'motor_split', go), 'split: Euclidean origin')


def split_general(led, sig, ob, even):
	"""p = m >> o is an antivector with p ~p = o ~o (contract of the sandwich, C09); t is the root (1+q)/|1+q| of q = p/o (C14);
	then t ~t = 1, r = ~t m, so t r = m, and r >> o = ~t p t = o"""
	sp, ctx, R = spec(sig), context(sig), Ring()
	n = len(sig)
	anti = [((1 << n) - 1) ^ (1 << i) for i in range(n)]
	C = 'motor_split'
	m = {k: R.var(f'm{k}') for k in order(even)}
	o = {k: R.var(f'o{k}') for k in order(ob)}
	t0 = time.process_time()
	def go():
		p = {k: R.var(f'p{k}') for k in order(anti)}
		nd = [k for k in p if not sp.is_degenerate(k)]
		on = sp.mul(o, sp.reverse(o)).get(0, 0)
		if len(nd) == 1: p[nd[0]] = o[nd[0]]
		else:
			k = nd[0]
			pk = p.pop(k)
			rest = sp.mul(p, sp.reverse(p)).get(0, 0)
			sgn = sp.mul({k: 1}, sp.reverse({k: 1}))[0]
			p[k] = R.square_var('pk', (on - rest) * sgn)
		p = {k: p[k] for k in order(p)}
		x, O, P = mv(ctx, m), mv(ctx, o), mv(ctx, p)
		seen = []
		def sandwich(a, b):
			if a is not x or b is not O: raise Unsupported('sandwich of something else')
			return P
		def root(q):
			seen.append(todict(q))
			d = sp.add(ONE, todict(q))
			D = sp.mul(d, sp.reverse(d))
			if any(not is_zero(v) for k, v in D.items() if k): raise Unsupported('root of something that is not simple')
			s = 1 / R.sqrt(D[0])
			return mv(ctx, sp.scale({k: d[k] for k in order(d)}, s))
		ms = dict(motor_square_root=root, __rshift__=sandwich)
		if hasattr(M, 'sandwich'): ms['sandwich'] = sandwich
		f = decompose.motor_split if len(ob) == 1 else (lambda a, b: a.motor_split(b))
		with stub(**ms):
			t, r = f(x, O)
		if len(seen) != 1: raise Unsupported('not one root')
		t, r = todict(t), todict(r)
		i = 1 / on
		q = sp.scale(sp.mul(p, sp.reverse(o)), i)
		return [sp.sub(seen[0], q), sp.sub(sp.mul(t, sp.reverse(t)), ONE), sp.sub(r, sp.mul(sp.reverse(t), m)),
		        sp.sub(sp.mul(sp.mul(sp.reverse(t), p), t), o), {k: v for k, v in t.items() if popcount(k) not in (0, 2)}]
	r = attempt(led, C, go)
	try: return decide(led, C, r, 'split: general origin')
	finally: led.seconds['normal-form'] += time.process_time() - t0


def split_blade(led, sig, ob, even):
	"""blade origin with nondegenerate dual e_k: only blades that vanish are dropped: t in <1, e_k e_i>, and
	r = s A with A the part of m without e_k, since 1 + q = m ~m + m ~(o m o^-1) = 2 m ~A"""
	sp, ctx, R = spec(sig), context(sig), Ring()
	C = 'motor_split'
	n = len(sig)
	ek = ((1 << n) - 1) ^ ob
	m = {k: R.var(f'm{k}') for k in order(even)}
	o = {ob: R.var('o')}
	def go():
		t = {k: R.var(f't{k}') for k in order(even)}
		r = {k: R.var(f'r{k}') for k in order(even)}
		x, O = mv(ctx, m), mv(ctx, o)
		calls = []
		def inner(a, b):
			calls.append((a, b))
			return mv(ctx, t), mv(ctx, r)
		with stub(module=dict(motor_split=inner)):
			a, b = x.motor_split(O)
		if len(calls) != 1 or calls[0][0] is not x or calls[0][1] is not O: raise Unsupported('not built on the general split')
		a, b = todict(a), todict(b)
		T = [0] + [ek ^ (1 << i) for i in range(n) if 1 << i != ek]
		A = {k: v for k, v in m.items() if not k & ek}
		p = {((1 << n) - 1) ^ (1 << i): R.var(f'p{i}') for i in range(n)}
		oinv = {ob: 1}
		w = sp.mul(sp.mul(o, m), sp.reverse(o))
		w = sp.sub(w, sp.scale(sp.sub(sp.scale(A, 2), m), sp.mul(o, sp.reverse(o))[0]))     # o m o^-1 = A - e_k B
		return [sp.sub(a, {k: t[k] for k in T}), sp.sub(b, {k: v for k, v in r.items() if not k & ek}), {k: v for k, v in sp.mul(p, oinv).items() if k not in T}, w]
	return decide(led, C, attempt(led, C, go), 'split: blade origin')


def main():
	c = Check('C16', MOD)
	c.contract('decompose_invariant', ['mv.decompose_invariant: bivector_decompose_simple, bivector_decompose_bisimple'], 'l + r = b, scalar squares, l r = r l, <l r> = 0')
	c.contract('decompose_polar', ['mv.decompose_polar'], 'L s = b, s^2 = b ~b, L a bivector commuting with s')
	c.contract('motor_translator', ['mv.motor_translator', 'mv.motor_rotor', 'OperatorFactory.euclidian_factorization'], 'for m = (1 + e0 v) r: t = 1 + <e0 v r ~r>_2 (= 1 + e0 v for unit r) and the rotor is r')
	c.contract('motor_split', ['mv.motor_split: motor_split_euclidian, motor_split_blade, motor_split'], 't r = m, t simple, r >> o = o')
	c.assumptions += [
		'roots met are real and nonzero; the origin is invertible and not mapped to its antipode',
		'every unit motor of an algebra with one null generator e0 and n < 6 is (1 + e0 v) r with unit r (the grade 4 part of m ~m = 1 forces s ~r to be a vector, m = r + e0 s)',
		'modular steps use the contracts of the sandwich (C09), square_root, motor_square_root (C14) and product (C02)',
	]
	T = env.THOROUGH
	sigs = [s for n in (2, 3) for s in ordered_signatures(n)] + pqr_signatures(4)
	s5 = [(1, 1, 1, 1, 1), (1, 1, 1, 1, 0), (0, 1, 1, 1, 1), (1, 1, 1, 1, -1), (1, 1, 1, -1, 0)]
	if T: s5 += pqr_signatures(5); sigs += ordered_signatures(4)
	for sig in s5 + sigs:
		for f in ('invariant', 'polar'):
			c.task(f, sig, T)
	one = [s for n in (2, 3) for s in ordered_signatures(n) if s.count(0) == 1] + [(1, 1, 1, 0), (0, 1, 1, 1), (1, 1, -1, 0), (1, 0, 1, 1), (1, 1, 1, 1, 0), (0, 1, 1, 1, 1), (1, 1, 1, -1, 0)]
	if T: one = [s for n in (2, 3, 4, 5) for s in ordered_signatures(n) if s.count(0) == 1]
	for sig in one: c.task('translator', sig, T)
	none = [(1, 1), (1, -1), (1, 1, 1), (1, 1, -1), (1, 1, 1, 1), (1, 1, 1, 1, 1)]
	for sig in none: c.task('norotor', sig)
	for sig in [(1, 1), (1, -1), (1, 0), (0, 1), (1, 1, 1), (1, 1, 0), (0, 1, 1), (1, 1, -1), (1, 1, 1, 1), (1, 1, 1, 0), (1, 1, 1, -1), (0, 1, 1, 1), (1, 1, 1, 1, 1), (1, 1, 1, 1, 0), (1, 1, 1, 1, -1)]:
		c.task('split', sig, T)
	backends.tasks(c, 'C16')
	c.run()
	return c.finish()
