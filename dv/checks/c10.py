from dv.core import *
from dv.families import *
from dv import kcontracts
from numga.operator.operator import Operator

MOD = __name__
# denotation of an operator: a function of dicts, computed from its kernel by definition (sum over all entries)


def den(op):
	K = op.kernel
	axes = [[int(b) for b in a.blades] for a in op.axes]
	idx = list(zip(*np.nonzero(K)))
	def f(sp, *args):
		out = {}
		for ii in idx:
			t = K[ii].item()
			if isinstance(t, float): t = Fraction(t)
			for a, i, bl in zip(args, ii, axes):
				if bl[i] not in a:
					t = 0
					break
				t = t * a[bl[i]]
			o = axes[-1][ii[-1]]
			out[o] = out[o] + t if o in out else t
		return {k: v for k, v in out.items() if not (isinstance(v, int) and v == 0)}
	return f


def random_op(r, ctx, ins, out, density=.4):
	shape = [len(s) for s in ins] + [len(out)]
	k = np.array([r.choice([-2, -1, 1, 1, 3]) if r.random() < density else 0 for _ in range(int(np.prod(shape)))], dtype=r.choice([np.int32, np.int64])).reshape(shape)
	if r.random() < .2: k = k * .25      # not only integers (exact in binary)
	return Operator(k, [sub(ctx, s) for s in ins] + [sub(ctx, out)])


def app(c, op, *a):
	return c.operator(op)(*a)


def same(led, contract, name, sig, ins, op, want):
	"""the operator `op` denotes `want` (a function of the spec and the arguments)"""
	prove(led, contract, name, sig, ins, lambda c, *a: app(c, op, *a), lambda sp, *a: dict(value=sp.sub(a[-1], want(sp, *a[:-1]))))


def structure(led, op, ins, out, what):
	led.enum('axes', [list(map(int, a.blades)) for a in op.axes] == [order(s) for s in ins] + [order(out)] and op.kernel.shape == tuple(len(a) for a in op.axes) and op.arity == len(ins),
	         f'{what}: axes {[list(map(int, a.blades)) for a in op.axes]}')


def calculus(led, sig, seed):
	n = len(sig)
	r = rng('c10', sig, seed)
	ctx = context(sig)
	S = lambda k=4: order(random_subset(r, n))[:k] if r.random() < .7 else order(r.sample(range(1 << n), min(1 << n, k)))
	A, B, C, D, E = S(), S(), S(), S(), S()
	f = random_op(r, ctx, [A, B], C)
	g = random_op(r, ctx, [D], A)
	h = random_op(r, ctx, [D, E], B)
	t = random_op(r, ctx, [A, B, C], D)
	F, G, H, T = den(f), den(g), den(h), den(t)
	o1 = f.bind(g, h); structure(led, o1, [D, D, E], C, 'bind(g, h)')
	same(led, 'bind', 'f.bind(g, h)', sig, [D, D, E], o1, lambda sp, x, y, z: F(sp, G(sp, x), H(sp, y, z)))
	o2 = f.bind({0: g}); structure(led, o2, [D, B], C, 'bind({0})')
	same(led, 'bind', 'f.bind({0: g})', sig, [D, B], o2, lambda sp, x, y: F(sp, G(sp, x), y))
	o3 = f.bind({1: h}); structure(led, o3, [A, D, E], C, 'bind({1})')
	same(led, 'bind', 'f.bind({1: h})', sig, [A, D, E], o3, lambda sp, x, y, z: F(sp, x, H(sp, y, z)))
	u = random_op(r, ctx, [E, D, A], B)
	U = den(u)
	o4 = t.bind({1: u}); structure(led, o4, [A, E, D, A, C], D, 'ternary bind in the middle')
	same(led, 'bind', 't.bind({1: u})', sig, [A, E, D, A, C], o4, lambda sp, a, e, d, b, c: T(sp, a, U(sp, e, d, b), c))
	o5 = t.bind({0: g, 2: f}); structure(led, o5, [D, B, A, B], D, 'bind first and last')
	same(led, 'bind', 't.bind({0: g, 2: f})', sig, [D, B, A, B], o5, lambda sp, d, b, a, b2: T(sp, G(sp, d), b, F(sp, a, b2)))
	o6 = t.bind(g, h, f)
	same(led, 'bind', 't.bind(g, h, f)', sig, [D, D, E, A, B], o6, lambda sp, d, e, k, a, b: T(sp, G(sp, d), H(sp, e, k), F(sp, a, b)))
	o7 = t.bind({2: f, 0: g})
	same(led, 'bind', 't.bind({2: f, 0: g})', sig, [D, B, A, B], o7, lambda sp, d, b, a, b2: T(sp, G(sp, d), b, F(sp, a, b2)))
	for ax, inner, ins, want in (
		(0, f, None, None),):
		pass
	t0 = random_op(r, ctx, [C, A, D], E)
	T0 = den(t0)
	o8 = f.fuse(t0, 0); structure(led, o8, [A, B, A, D], E, 'fuse 0')
	same(led, 'fuse', 'f.fuse(t, 0)', sig, [A, B, A, D], o8, lambda sp, a, b, c, d: T0(sp, F(sp, a, b), c, d))
	t1 = random_op(r, ctx, [A, C, D], E)
	T1 = den(t1)
	o9 = f.fuse(t1, 1); structure(led, o9, [A, A, B, D], E, 'fuse 1')
	same(led, 'fuse', 'f.fuse(t, 1)', sig, [A, A, B, D], o9, lambda sp, c, a, b, d: T1(sp, c, F(sp, a, b), d))
	t2 = random_op(r, ctx, [A, D, C], E)
	T2 = den(t2)
	o10 = f.fuse(t2, 2); structure(led, o10, [A, D, A, B], E, 'fuse 2')
	same(led, 'fuse', 'f.fuse(t, 2)', sig, [A, D, A, B], o10, lambda sp, c, d, a, b: T2(sp, c, d, F(sp, a, b)))
	# swapaxes, arithmetic
	for i in range(3):
		for j in range(3):
			ins = [A, B, C]
			ins[i], ins[j] = ins[j], ins[i]
			w = t.swapaxes(i, j)
			if i <= j:
				structure(led, w, ins, D, f'swapaxes({i},{j})')
			def want(sp, *a, i=i, j=j):
				a = list(a)
				a[i], a[j] = a[j], a[i]
				return T(sp, *a)
			same(led, 'swapaxes', f't.swapaxes({i},{j})', sig, ins, w, want)
	f2 = random_op(r, ctx, [A, B], C)
	F2 = den(f2)
	same(led, 'arithmetic', 'f + g', sig, [A, B], f + f2, lambda sp, x, y: sp.add(F(sp, x, y), F2(sp, x, y)))
	same(led, 'arithmetic', 'f - g', sig, [A, B], f - f2, lambda sp, x, y: sp.sub(F(sp, x, y), F2(sp, x, y)))
	same(led, 'arithmetic', '-f', sig, [A, B], -f, lambda sp, x, y: sp.scale(F(sp, x, y), -1))
	same(led, 'arithmetic', '+f', sig, [A, B], +f, lambda sp, x, y: F(sp, x, y))
	same(led, 'arithmetic', 'f * 3', sig, [A, B], f * 3, lambda sp, x, y: sp.scale(F(sp, x, y), 3))
	same(led, 'arithmetic', '-2 * f', sig, [A, B], -2 * f, lambda sp, x, y: sp.scale(F(sp, x, y), -2))
	same(led, 'arithmetic', '(8f).div(2)', sig, [A, B], (f * 8).div(2), lambda sp, x, y: sp.scale(F(sp, x, y), 4))
	if A != B or C != A:
		try:
			f.add(random_op(r, ctx, [B, A], C)); ok = A == B
		except Exception:
			ok = A != B
		led.enum('arithmetic', ok, f'sum of operators over different subspaces {A}, {B} is accepted')
	# slice / select / squeeze / sum
	a2 = [b for b in A if r.random() < .6] or A[:1]
	b2 = [b for b in B if r.random() < .6] or B[:1]
	sl = f.slice((sub(ctx, a2), sub(ctx, b2))); structure(led, sl, [a2, b2], C, 'slice')
	same(led, 'slice', 'f.slice', sig, [a2, b2], sl, lambda sp, x, y: F(sp, x, y))
	s0 = f.slice((sub(ctx, a2),))
	same(led, 'slice', 'f.slice of the first axis', sig, [a2, B], s0, lambda sp, x, y: F(sp, x, y))
	same(led, 'slice', 'f[...]', sig, [a2, b2], f[sub(ctx, a2), sub(ctx, b2)], lambda sp, x, y: F(sp, x, y))
	same(led, 'slice', 'f[V]', sig, [a2, B], f[sub(ctx, a2)], lambda sp, x, y: F(sp, x, y))
	W = random_subset(r, n)
	se = f.select_subspace(sub(ctx, W)); structure(led, se, [A, B], W, 'select_subspace')
	same(led, 'select', 'f.select_subspace', sig, [A, B], se, lambda sp, x, y: sp.select(F(sp, x, y), W))
	k = r.randint(0, n)
	same(led, 'select', f'f.select_grade({k})', sig, [A, B], f.select_grade(k), lambda sp, x, y: sp.grade(F(sp, x, y), k))
	sq = f.squeeze()
	same(led, 'squeeze', 'f.squeeze', sig, [A, B], sq, lambda sp, x, y: F(sp, x, y))
	led.enum('squeeze', [int(b) for b in sq.output.blades] == [b for i, b in enumerate(order(C)) if np.any(f.kernel[..., i])], f'squeeze keeps {list(sq.output.blades)}')
	fl = Operator(f.kernel * 0.5, f.axes)
	same(led, 'squeeze', 'squeeze of a float kernel', sig, [A, B], fl.squeeze(), lambda sp, x, y: sp.scale(F(sp, x, y), Fraction(1, 2)))
	for ax, ins in ((0, [B]), (1, [A])):
		ones = {b: 1 for b in (A, B)[ax]}
		same(led, 'sum', f'f.sum({ax})', sig, ins, f.sum(ax), (lambda sp, y: F(sp, ones, y)) if ax == 0 else (lambda sp, x: F(sp, x, ones)))
	big = [order(set(s) | set(random_subset(r, n))) for s in (A, B, C)]
	de = f.deslice([sub(ctx, s) for s in big]); structure(led, de, big[:2], big[2], 'deslice')
	same(led, 'slice', 'f.deslice', sig, big[:2], de, lambda sp, x, y: F(sp, x, y))
	gm = t.grade_selection(lambda a, b, c, o: (a + b >= c) & (o != 1))
	same(led, 'grade selection', 'grade_selection', sig, [A, B, C], gm, lambda sp, x, y, z: selected(sp, T, (x, y, z), lambda a, b, c, o: a + b >= c and o != 1))


def selected(sp, T, args, formula):
	out = {}
	split = [{g: {b: v for b, v in a.items() if popcount(b) == g} for g in {popcount(b) for b in a}} for a in args]
	import itertools
	for gs in itertools.product(*[list(s) for s in split]):
		v = T(sp, *[s[g] for s, g in zip(split, gs)])
		out = sp.add(out, {b: c for b, c in v.items() if formula(*gs, popcount(b))})
	return out


# operators built over operators
UN = {
	'reverse': lambda sp, x: sp.reverse(x), 'involute': lambda sp, x: sp.involute(x), 'conjugate': lambda sp, x: sp.conjugate(x),
	'scalar_negation': lambda sp, x: sp.scalar_negation(x), 'pseudoscalar_negation': lambda sp, x: sp.pseudoscalar_negation(x),
	'right_complement': lambda sp, x: sp.right_complement(x), 'left_complement': lambda sp, x: sp.left_complement(x),
	'right_complement_dual': lambda sp, x: sp.rcd(x), 'left_complement_dual': lambda sp, x: sp.lcd(x),
	'right_hodge': lambda sp, x: sp.right_hodge(x), 'left_hodge': lambda sp, x: sp.left_hodge(x),
	'right_hodge_inverse': lambda sp, x: sp.right_hodge_inverse(x), 'left_hodge_inverse': lambda sp, x: sp.left_hodge_inverse(x),
	'identity': lambda sp, x: x,
	'degenerate': lambda sp, x: {b: v for b, v in x.items() if sp.is_degenerate(b)},
	'nondegenerate': lambda sp, x: {b: v for b, v in x.items() if not sp.is_degenerate(b)},
	'study_conjugate': lambda sp, x: sp.scalar_negation(x),
}
BI = {
	'product': lambda sp, x, y: sp.mul(x, y), 'wedge': lambda sp, x, y: sp.wedge(x, y), 'inner': lambda sp, x, y: sp.inner(x, y),
	'scalar_product': lambda sp, x, y: sp.scalar(x, y), 'left_contract': lambda sp, x, y: sp.lc(x, y), 'right_contract': lambda sp, x, y: sp.rc(x, y),
	'regressive': lambda sp, x, y: sp.regressive(x, y), 'commutator': lambda sp, x, y: sp.commutator(x, y), 'anti_commutator': lambda sp, x, y: sp.anti_commutator(x, y),
	'reverse_product': lambda sp, x, y: sp.mul(x, sp.reverse(y)), 'conjugate_product': lambda sp, x, y: sp.mul(x, sp.conjugate(y)),
	'anti_product': lambda sp, x, y: sp.anti(sp.mul, x, y), 'anti_wedge': lambda sp, x, y: sp.anti_wedge(x, y),
	'left_interior': lambda sp, x, y: sp.left_interior(x, y), 'right_interior': lambda sp, x, y: sp.right_interior(x, y),
	'cross_product': lambda sp, x, y: sp.dual(sp.wedge(x, y)),
}


def expression(r, f, ctx, n, depth, leaves):
	"""a random operator expression: (operator or subspace, function of (spec, leaf values), leaf subspaces)"""
	if depth == 0 or (depth < 2 and r.random() < .3):
		S = order(random_subset(r, n))[:4 if n < 4 else 3]
		i = len(leaves)
		leaves.append(S)
		return sub(ctx, S), (lambda sp, a, i=i: a[i]), f'V{i}'
	if r.random() < .4:
		nm = r.choice(list(UN))
		x, fx, sx = expression(r, f, ctx, n, depth - 1, leaves)
		return getattr(f, nm)(x), (lambda sp, a: UN[nm](sp, fx(sp, a))), f'{nm}({sx})'
	nm = r.choice(list(BI))
	x, fx, sx = expression(r, f, ctx, n, depth - 1, leaves)
	y, fy, sy = expression(r, f, ctx, n, depth - 1, leaves)
	return getattr(f, nm)(x, y), (lambda sp, a: BI[nm](sp, fx(sp, a), fy(sp, a))), f'{nm}({sx}, {sy})'


def expressions(led, sig, seed, k):
	n = len(sig)
	r = rng('c10e', sig, seed)
	ctx = context(sig)
	f = ctx.algebra.operator
	for _ in range(k):
		leaves = []
		op, want, text = expression(r, f, ctx, n, r.choice([2, 2, 3]), leaves)
		if not isinstance(op, Operator) or len(leaves) > 4:
			continue
		prove(led, 'nested expressions', text, sig, leaves, lambda c, *a: app(c, op, *a), lambda sp, *a: dict(value=sp.sub(a[-1], want(sp, a[:-1]))))
		if op.arity == 1 and len(op.output) == len(op.inputs[0]):
			structure(led, op, leaves, [int(b) for b in op.output.blades], text)


def subspace_syntax(led, sig):
	"""V.wedge(W) builds the operator, and an operator stands in for its output subspace"""
	n = len(sig)
	r = rng('c10s', sig)
	ctx = context(sig)
	f = ctx.algebra.operator
	V, W = random_subset(r, n), random_subset(r, n)
	v, w = sub(ctx, V), sub(ctx, W)
	for nm in ('geometric_product', 'wedge_product', 'inner_product', 'regressive_product'):
		same(led, 'nested expressions', f'V.{nm}(W)', sig, [V, W], getattr(v, nm)(w), lambda sp, x, y, nm=nm: dict(geometric_product=sp.mul, wedge_product=sp.wedge, inner_product=sp.inner, regressive_product=sp.regressive)[nm](x, y))
	op = f.product(v, w)
	led.enum('axes', op.subspace is op.output is op.axes[-1] and op.inputs == op.axes[:-1] and op.algebra is ctx.algebra, 'operator.subspace is its output')


def main():
	ch = Check('C10', MOD)
	kcontracts.attach(ch, 'C10')
	O = lambda *a: ['Operator.' + x for x in a]
	ch.contract('bind', O('bind', 'fuse', '_build', 'build'), 'ensures the denotation of f.bind(g,..) is the composition, arguments in the stated order')
	ch.contract('fuse', O('fuse'), 'ensures composition into argument `axis`')
	ch.contract('swapaxes', O('swapaxes'), 'ensures exchanged arguments')
	ch.contract('arithmetic', O('add', 'mul', 'div', '__neg__', '__sub__', '__pos__', '__rmul__'), 'ensures pointwise arithmetic; sums require equal axes')
	ch.contract('slice', O('slice', '__getitem__', 'deslice'), 'ensures the restriction (extension by zero) of the map')
	ch.contract('select', O('select_subspace', 'select_grade'), 'ensures projection of the value')
	ch.contract('squeeze', O('squeeze'), 'ensures equal values, output exactly the reachable blades')
	ch.contract('sum', O('sum'), 'ensures the value with ones in the summed axis')
	ch.contract('grade selection', O('grade_selection'), 'ensures only the terms whose grades satisfy the formula')
	ch.contract('nested expressions', ['OperatorFactory.* over operators'] + O('build', 'bind', 'fuse'), 'ensures op(f(x..), g(y..)) for nested operator expressions of random shape')
	ch.contract('axes', O('inputs', 'output', 'arity', 'subspace'), 'argument order and shapes')
	T = env.THOROUGH
	for n in (1, 2, 3, 4):
		for i, sig in enumerate(ordered_signatures(n) if n < 3 else (pqr_signatures(n))):
			for k in range((30 if T else 8) if n < 4 else 4):
				ch.task('calculus', sig, k)
			ch.task('expressions', sig, 0, (300 if T else 60))
			ch.task('subspace_syntax', sig)
	[ch.task('calculus', (1, -1, 1, 0, 1), i) for i in range(6)]
	ch.task('expressions', (1, 1, 1, 1, -1), 0, 20)
	ch.run()
	return ch.finish()
