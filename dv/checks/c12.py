from dv.core import *
from dv import variants
from dv.families import *
from dv import backends
from dv import mcontracts

MOD = __name__


def union_post(got, want, V, W, res, nm):
	res[nm] = got[0].sub(got[1], want)


def binary(led, sig, V, W, concrete=0):
	U = set(V) | set(W)
	both = lambda c, x, y: (x + y, x - y, y - x, y + x)
	def post(sp, x, y, s, d, e, t):
		res = {'x+y': sp.sub(s, sp.add(x, y)), 'x-y': sp.sub(d, sp.sub(x, y)), 'y-x': sp.sub(e, sp.sub(y, x)), 'y+x': sp.sub(t, sp.add(x, y))}
		if not set(s) == set(d) == set(e) == set(t) == U:
			res['lives in the union'] = {-1: 1}
		return res
	prove(led, 'sum and difference', 'x + y, x - y', sig, [V, W], both, post, concrete=concrete)


def scalars(led, sig, V, concrete=0):
	U = set(V) | {0}
	code = lambda c, x, s: (x + s.values[0], s.values[0] + x, x - s.values[0], s.values[0] - x, x * s.values[0], s.values[0] * x, x * 3, 2 * x, x + 3, 3 - x, -x, +x, x - 5, 5 + x)
	def post(sp, x, s, *o):
		one, c = {0: 1}, s
		want = [sp.add(x, s), sp.add(x, s), sp.sub(x, s), sp.sub(s, x), sp.scale(x, s[0]), sp.scale(x, s[0]), sp.scale(x, 3), sp.scale(x, 2), sp.add(x, {0: 3}), sp.sub({0: 3}, x), sp.scale(x, -1), x, sp.sub(x, {0: 5}), sp.add(x, {0: 5})]
		res = {f'form {i}': sp.sub(a, b) for i, (a, b) in enumerate(zip(o, want))}
		if any(set(o[i]) != U for i in (0, 1, 2, 3, 8, 9, 12, 13)) or any(set(o[i]) != set(V) for i in (4, 5, 6, 7, 10, 11)):
			res['subspace'] = {-1: 1}
		return res
	prove(led, 'plain numbers', 'x + s, s + x, x - s, s - x, x * s, s * x, -x', sig, [V, [0]], code, post, concrete=concrete)
	def divs(sp, x, s, a, b, c):
		res = {'x / s': sp.sub(sp.scale(a, s[0]), x), 'x / number': sp.sub(sp.scale(b, s[0]), x), 'x / 4': sp.sub(sp.scale(c, 4), x)}
		if not set(a) == set(b) == set(c) == set(V):
			res['subspace'] = {-1: 1}
		return res
	prove(led, 'division by scalars', 'x / s', sig, [V, [0]], lambda c, x, s: (x / s, x / s.values[0], x / 4), divs, concrete=concrete)


def selection(led, sig, V, W, concrete=0):
	n = len(sig)
	s = spec(sig)
	null = lambda b: s.is_degenerate(b)
	named = [X for X in ({1}, {(1 << n) - 1}, set(sorted(set(W) - {0})[:3])) if X]
	names = ['_'.join(''.join(NAMES[i] for i in range(n) if x >> i & 1) for x in sorted(X)) for X in named]
	def code(c, x):
		w = sub(c, W)
		out = [x.select_subspace(w), x.restrict_subspace(w), x.select.even_grade(), x.restrict.even_grade(), x.select.vector(), x.restrict.vector(),
		       x.restrict.nondegenerate(), x.select.pseudoscalar(), x.degenerate(), x.nondegenerate()]
		for g in range(n + 1):
			out += [x.select[g], x.restrict[g], x.select_grade(g), x.restrict_grade(g), x.select.k_vector(g), x.restrict.k_vector(g)]
		out += [x.select[0, n], x.restrict[0, n]]
		for nm in names: out += [getattr(x.select, nm), getattr(x.restrict, nm)]
		return tuple(out)
	def post(sp, x, *o):
		g = lambda *gs: {b for b in range(1 << n) if popcount(b) in gs}
		ev, od = g(*range(0, n + 1, 2)), g(1)
		sets = [(W, 1), (W, 0), (ev, 1), (ev, 0), (od, 1), (od, 0), ({b for b in range(1 << n) if not null(b)}, 0), (g(n), 1), ({b for b in range(1 << n) if null(b)}, 0), ({b for b in range(1 << n) if not null(b)}, 0)]
		for k in range(n + 1):
			sets += [(g(k), 1), (g(k), 0)] * 3
		sets += [(g(0, n), 1), (g(0, n), 0)]
		for X in named: sets += [(X, 1), (X, 0)]
		res = {}
		for i, ((S, sel), v) in enumerate(zip(sets, o)):
			want = {b: x.get(b, 0) for b in S} if sel else {b: x[b] for b in x if b in S}
			res[f'form {i}'] = sp.sub(v, want)
			if set(v) != set(want):
				res[f'form {i} subspace'] = {-1: 1}
		return res
	prove(led, 'select and restrict', 'select / restrict', sig, [V], code, post, concrete=concrete)


def batch(led, sig, k):
	n = len(sig)
	r = rng('c12', sig)
	if n <= 2:
		pairs = [(a, b) for a in all_subsets(n) for b in all_subsets(n)]
	else:
		S = list(grade_combos(n, True)) + [random_subset(r, n) for _ in range(12)]
		pairs = [(r.choice(S), r.choice(S)) for _ in range(k)]
	for i, (V, W) in enumerate(pairs):
		c = 1 if i % 9 == 0 else 0
		binary(led, sig, V, W, c)
		if i % 3 == 0 and V:
			scalars(led, sig, V, c)
		if V:
			selection(led, sig, V, W, c)


def arrays(led, sig, seed):
	"""the plain-number forms accept arrays: one number per batch element"""
	n = len(sig)
	r = rng('c12a', sig, seed)
	ctx = context(sig, np.float64)
	g = np.random.default_rng(r.randrange(1 << 30))
	V, W = random_subset(r, n), random_subset(r, n)
	x = ctx.multivector(values=g.normal(size=(5, len(V))), subspace=sub(ctx, V))
	y = ctx.multivector(values=g.normal(size=(3, 1, len(W))), subspace=sub(ctx, W))
	a = g.normal(size=5)
	def at(m, *i):
		return dict(zip([int(b) for b in m.subspace.blades], m.values[i]))
	sp = spec(sig)
	close = lambda p, q: all(abs(v) < 1e-12 for v in sp.sub(p, q).values())
	for nm, o, want in (('x+y', x + y, lambda i, j: sp.add(at(x, j), at(y, i, 0))), ('x-y', x - y, lambda i, j: sp.sub(at(x, j), at(y, i, 0))), ('y-x', y - x, lambda i, j: sp.sub(at(y, i, 0), at(x, j)))):
		led.num('batched arithmetic', o.shape == (3, 5) and all(close(at(o, i, j), want(i, j)) for i in range(3) for j in range(5)), f'{nm} of batched {V}, {W} in {sig} differs from the elementwise result')
	for nm, o, want in (('x+a', x + a, lambda j: sp.add(at(x, j), {0: a[j]})), ('x-a', x - a, lambda j: sp.sub(at(x, j), {0: a[j]})), ('x*a', x * a, lambda j: sp.scale(at(x, j), a[j])),
	                    ('x/a', x / a, lambda j: sp.scale(at(x, j), 1 / a[j])), ('-x', -x, lambda j: sp.scale(at(x, j), -1))):
		led.num('batched arithmetic', o.shape == (5,) and all(close(at(o, j), want(j)) for j in range(5)), f'{nm} of batched {V} in {sig} differs from the elementwise result')


def main():
	ch = Check('C12', MOD)
	M = lambda *a: ['AbstractMultiVector.' + x for x in a]
	ch.contract('sum and difference', M('combine', '__add__', '__sub__', 'select_subspace') + ['OperatorFactory.select', 'SubSpace.union'], 'ensures componentwise sum/difference in the union of the subspaces')
	ch.contract('plain numbers', M('upcast', '__radd__', '__rsub__', '__mul__', '__rmul__', '__neg__', '__pos__'), 'ensures plain numbers act as scalars on either side')
	ch.contract('division by scalars', M('__truediv__', '_divide'), 'ensures (x / s) * s == x on every component, subspace kept')
	ch.contract('select and restrict', M('select', 'restrict', 'select_subspace', 'restrict_subspace', 'select_grade', 'restrict_grade', 'degenerate', 'nondegenerate') + ['SelectNamespace', 'RestrictNamespace', 'OperatorFactory.select', 'OperatorFactory.restrict'], 'ensures exactly the requested subspace / exactly the common part')
	ch.contract('batched arithmetic', M('combine', 'upcast'), 'elementwise over broadcast batches (bounded)')
	T = env.THOROUGH
	for n in (1, 2):
		for sig in ordered_signatures(n):
			ch.task('batch', sig, 0)
	for sig in ordered_signatures(3):
		ch.task('batch', sig, 200 if T else 30)
	for sig in (ordered_signatures(4) if T else pqr_signatures(4)[::2] + [(0, 1, 1, 1), (0, -1, 1, 0)]):
		ch.task('batch', sig, 60 if T else 14)
	for sig in ((1, 1, 1, 1, -1), (0, 1, -1, 1, 1)):
		ch.task('batch', sig, 12)
	ch.task('batch', (1, 1, 0, 1, -1, 1), 4)
	for i in range(20):
		ch.task('arrays', random_sig(rng('c12s', i), 2 + i % 3), i)
	mcontracts.attach(ch, 'C12')
	variants.tasks(ch, 'C12')
	backends.tasks(ch, 'C12')
	ch.run()
	return ch.finish()
