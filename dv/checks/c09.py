from dv.core import *
from dv import variants
from dv.families import *
from dv import kcontracts, mcontracts

MOD = __name__


def grades_of(W):
	return {popcount(b) for b in W}


def keep(d, W):
	g = grades_of(W)
	return {b: v for b, v in d.items() if popcount(b) in g}


def transform_spec(sp, R, v, par):
	s = sp.chain(R, v, sp.reverse(R))
	g = lambda k: {b: c for b, c in v.items() if popcount(b) == k}
	out = {}
	for k in range(len(sp.sig) + 1):
		vk = g(k)
		if vk:
			part = keep(sp.chain(R, vk, sp.reverse(R)), list(v))
			out = sp.add(out, {b: -c if par and k % 2 else c for b, c in part.items()})
	return out


def case(led, sig, V, W, concrete=0):
	prove(led, 'sandwich', 'R >> v', sig, [V, W], lambda c, x, y: x >> y,
	      lambda sp, x, y, o: dict(value=sp.sub(o, keep(sp.chain(x, y, sp.reverse(x)), W))), concrete=concrete)
	prove(led, 'reverse_sandwich', 'R << v', sig, [V, W], lambda c, x, y: x << y,
	      lambda sp, x, y, o: dict(value=sp.sub(o, keep(sp.chain(sp.reverse(x), y, x), W))), concrete=concrete)
	prove(led, 'full_sandwich', 'R.full_sandwich(v)', sig, [V, W], lambda c, x, y: x.full_sandwich(y),
	      lambda sp, x, y, o: dict(value=sp.sub(o, sp.chain(x, y, sp.reverse(x)))), concrete=concrete)
	prove(led, 'sandwich_map', 'R.sandwich_map(V)(v)', sig, [V, W], lambda c, x, y: x.sandwich_map(y.subspace)(y),
	      lambda sp, x, y, o: dict(value=sp.sub(o, keep(sp.chain(x, y, sp.reverse(x)), W))), concrete=concrete)
	par = {popcount(b) % 2 for b in V}
	if len(par) == 1:
		par, = par
		prove(led, 'transform', 'R.transform(v)', sig, [V, W], lambda c, x, y: x.transform(y),
		      lambda sp, x, y, o: dict(value=sp.sub(o, transform_spec(sp, x, y, par))), concrete=concrete)
		prove(led, 'inverse_transform', 'R.reverse_transform(v)', sig, [V, W], lambda c, x, y: x.reverse_transform(y),
		      lambda sp, x, y, o: dict(value=sp.sub(o, transform_spec(sp, sp.reverse(x), y, par))), concrete=concrete)
		prove(led, 'inverse_transform', 'operator.inverse_transform', sig, [V, W], lambda c, x, y: c.operator.inverse_transform(x.subspace, y.subspace)(x, y, x),
		      lambda sp, x, y, o: dict(value=sp.sub(o, transform_spec(sp, sp.reverse(x), y, par))), concrete=0)
	elif par:
		c = context(sig)
		for nm in ('transform', 'inverse_transform'):
			try:
				getattr(c.algebra.operator, nm)(sub(c, V), sub(c, W)); ok = False
			except Exception:
				ok = True
			led.enum('transform', ok, f'{nm} with mixed-parity {V} in {sig} does not raise')


def default_map(led, sig, V, concrete=0):
	n = len(sig)
	W = blades_of_grades(n, [1])
	prove(led, 'sandwich_map', 'R.sandwich_map()(v)', sig, [V, W], lambda c, x, y: x.sandwich_map()(y),
	      lambda sp, x, y, o: dict(value=sp.sub(o, keep(sp.chain(x, y, sp.reverse(x)), W))), concrete=concrete)


def transposed_bound(led, sig, V, W):
	"""sandwich of a composed second argument"""
	ctx = context(sig)
	f = ctx.algebra.operator
	v, w = sub(ctx, V), sub(ctx, W)
	op = f.full_sandwich(v, f.reverse(w))
	prove(led, 'full_sandwich', 'full_sandwich(R, ~v)', sig, [V, W], lambda c, x, y: c.operator(op)(x, y, x),
	      lambda sp, x, y, o: dict(value=sp.sub(o, sp.chain(x, sp.reverse(y), sp.reverse(x)))))
	op2 = f.sandwich(f.reverse(v), w)
	prove(led, 'reverse_sandwich', 'sandwich(~R, v)', sig, [V, W], lambda c, x, y: c.operator(op2)(x, y, x),
	      lambda sp, x, y, o: dict(value=sp.sub(o, keep(sp.chain(sp.reverse(x), y, x), W))))


def batch(led, sig, k, lim=6000):
	n = len(sig)
	r = rng('c09', sig)
	ev, od = blades_of_grades(n, range(0, n + 1, 2)), blades_of_grades(n, range(1, n + 1, 2))
	if n <= 2:
		Rs = list(all_subsets(n, empty=False))
		Ws = list(all_subsets(n, empty=False))
		pairs = [(a, b) for a in Rs for b in Ws]
		if len(pairs) > k * 3:
			pairs = r.sample(pairs, k * 3)
	else:
		Rs = [ev, od] + k_vectors(n) + [blades_of_grades(n, [0, 2]), list(range(1 << n))]
		sub_even = lambda: [b for b in ev if r.random() < .6] or [0]
		sub_odd = lambda: [b for b in od if r.random() < .6] or [1]
		Ws = k_vectors(n) + [blades_of_grades(n, [1, n - 1]), ev, od]
		pairs = [(a, b) for a in Rs for b in Ws if len(a) ** 2 * len(b) << n <= lim * 40]
		if len(pairs) > k:
			pairs = r.sample(pairs, k)
		pairs += [(r.choice([sub_even, sub_odd])(), random_subset(r, n, .4)) for _ in range(k // 3)]
		pairs += [(random_subset(r, n, .4), random_subset(r, n, .4)) for _ in range(k // 4)]
	for i, (V, W) in enumerate(pairs):
		if len(V) ** 2 * len(W) << n > lim * 40:
			continue
		case(led, sig, V, W, 1 if i % 6 == 0 else 0)
		if i % 5 == 0:
			default_map(led, sig, V)
			transposed_bound(led, sig, V, W)


def high(led, sig, k):
	"""spaces with grades of 8 and more (grade sets no longer fit a byte), few-blade operands"""
	n = len(sig)
	r = rng('c09h', sig)
	N = 1 << n
	by_grade = lambda g: sum(1 << i for i in r.sample(range(n), g))
	Rs = [[0, 3], [0, by_grade(4)], [1, by_grade(3)], [by_grade(n - 1)], [0, N - 1]]
	for i in range(k):
		g = [n, 8, n - 1][i % 3]
		V = r.choice(Rs)
		W = sorted({by_grade(g), by_grade(max(0, n - g))} | ({by_grade(r.randint(0, n))} if i % 2 else set()))
		case(led, sig, V, W)
		# inputs whose sandwich leaves the grades of v: mixed-parity R
		case(led, sig, sorted({0, by_grade(1), by_grade(n - 2)}), W)


def main():
	ch = Check('C09', MOD)
	kcontracts.attach(ch, 'C09')
	mcontracts.attach(ch, 'C09')
	variants.tasks(ch, 'C09')
	fr = ['OperatorFactory.full_sandwich', 'OperatorFactory.product', 'OperatorFactory.reverse', 'Operator.symmetry', 'Operator.fuse', 'Operator.bind']
	ch.contract('full_sandwich', ['AbstractMultiVector.full_sandwich'] + fr, 'ensures R v ~R')
	ch.contract('sandwich', ['AbstractMultiVector.sandwich', 'AbstractMultiVector.__rshift__', 'OperatorFactory.sandwich', 'Operator.grade_selection'] + fr, 'ensures the part of R v ~R in the grades of the subspace of v')
	ch.contract('reverse_sandwich', ['AbstractMultiVector.reverse_sandwich', 'AbstractMultiVector.__lshift__', 'OperatorFactory.reverse_sandwich'] + fr, 'ensures the part of ~R v R in the grades of v')
	ch.contract('sandwich_map', ['AbstractMultiVector.sandwich_map', 'NumpyOperator.partial'] + fr, 'ensures the same linear map as the sandwich')
	ch.contract('transform', ['AbstractMultiVector.transform', 'OperatorFactory.transform'] + fr, 'ensures sandwich with sign parity(R)^grade; raises for mixed parity')
	ch.contract('inverse_transform', ['AbstractMultiVector.reverse_transform', 'OperatorFactory.inverse_transform'] + fr, 'ensures transform by ~R')
	T = env.THOROUGH
	for n in (1, 2):
		for sig in ordered_signatures(n):
			ch.task('batch', sig, 80 if T else 24)
	for sig in (ordered_signatures(3) if T else pqr_signatures(3) + [(0, 1, -1), (-1, 0, 1), (0, 1, 1)]):
		ch.task('batch', sig, 60 if T else 20)
	for sig in (pqr_signatures(4) if T else [(1, 1, 1, 0), (0, 1, 1, 1), (1, 1, 1, 1), (1, -1, -1, -1), (1, 1, 1, -1)]):
		ch.task('batch', sig, 24 if T else 12)
	for sig in (pqr_signatures(5) if T else [(1, 1, 1, 1, -1), (0, 1, 1, 1, -1)]):
		ch.task('batch', sig, 10 if T else 8)
	for n in ((8, 9, 10) if T else (8, 9)):
		ch.task('high', random_sig(rng('c09s', n), n), 9 if T else 3)
	ch.run()
	return ch.finish()
