from dv.core import *
from dv import variants
from dv.families import *
from dv import kcontracts, mcontracts

MOD = __name__


def product_case(led, sig, V, W, concrete=0):
	sp = spec(sig)
	prove(led, 'product', 'x*y', sig, [V, W], lambda c, x, y: x * y,
	      lambda sp, x, y, o: dict(product=sp.sub(o, sp.mul(x, y))), concrete=concrete)
	ctx = context(sig)
	v, w = sub(ctx, V), sub(ctx, W)
	op = ctx.algebra.operator.product(v, w)
	want = order({sp.blade_mul(a, b)[1] for a in V for b in W if sp.blade_mul(a, b)[0]})
	led.enum('output-subspace', [int(b) for b in op.output.blades] == want and v.product(w) is op.output,
	         f'output of product of {V} and {W} in {sig} is {list(op.output.blades)}, reachable blades are {want}')


def pairs_small(led, sig, part, parts):
	n = len(sig)
	S = list(all_subsets(n))
	pairs = [(a, b) for a in S for b in S][part::parts]
	for V, W in pairs:
		product_case(led, sig, V, W)


def pairs_grades(led, sig, k_random, concrete):
	n = len(sig)
	r = rng('c04', sig)
	G = list(grade_combos(n, empty=True))
	pairs = [(a, b) for a in G for b in G]
	if len(pairs) > 80 and not env.THOROUGH:
		pairs = r.sample(pairs, 40) + [(a, b) for a in k_vectors(n) for b in k_vectors(n)]
	for V, W in pairs:
		if len(V) * len(W) <= 1100:
			product_case(led, sig, V, W, concrete)
	for _ in range(k_random):
		product_case(led, sig, random_subset(r, n), random_subset(r, n), concrete)


def laws(led, sig, V, W, U):
	prove(led, 'laws', 'ring laws', sig, [V, W, U],
	      lambda c, x, y, z: ((x * y) * z, x * (y * z), x * (y + z), x * y + x * z, (y + z) * x, y * x + z * x,
	                          c.multivector.scalar([1]) * x, x * c.multivector.scalar([1])),
	      lambda sp, x, y, z, a, b, c, d, e, f, g, h: dict(assoc=sp.sub(a, b), left=sp.sub(c, d), right=sp.sub(e, f),
	                                                      unit_l=sp.sub(g, x), unit_r=sp.sub(h, x)))


def law_batch(led, sig, k):
	r = rng('laws', sig)
	n = len(sig)
	G = list(grade_combos(n))
	for _ in range(k):
		pick = lambda: r.choice(G) if r.random() < .5 and n < 4 else random_subset(r, n, .3)
		laws(led, sig, pick(), pick(), pick())


def high_dim(led, n, key):
	"""larger algebras: other word sizes of blades and kernels (random sparse blade sets, real code executed symbolically)"""
	r = rng('c04high', n, key)
	sig = random_sig(r, n)
	N = 1 << n
	for _ in range(2):
		pick = lambda: sorted({r.randrange(N) for _ in range(4)} | {r.choice([0, N - 1, 1 << (n - 1)])})
		product_case(led, sig, pick(), pick(), 1)
	if n <= 10:
		product_case(led, sig, blades_of_grades(n, [1]), blades_of_grades(n, [1]), 1)


def wide(led, n, key):
	"""subspaces of more than 256 blades: positions in a subspace need wider integers than its blades"""
	r = rng('c04wide', n, key)
	sig = random_sig(r, n)
	full = list(range(1 << n))
	odd = [b for b in full if popcount(b) % 2]
	one = lambda: [r.choice(full[1:])]
	for V, W in ((full, one()), (one(), full), (odd, [1 << (n - 1)]), ([0, 3], odd)):
		product_case(led, sig, V, W)


def main():
	ch = Check('C04', MOD)
	kcontracts.attach(ch, 'C04')
	mcontracts.attach(ch, 'C04')
	variants.tasks(ch, 'C04')
	ch.contract('product', ['AbstractMultiVector.__mul__', 'AbstractMultiVector.product', 'OperatorFactory.geometric_product',
	            'OperatorFactory.make_product', 'Operator.grade_selection', 'Operator.squeeze', 'SparseTensor.from_cayley',
	            'SparseTensor.to_dense', 'SubSpace.to_relative_indices', 'NumpyEinsumOperator.__call__'],
	            'ensures x*y == sum_ab x_a y_b sign(a,b) e_(a xor b), for all real coefficients')
	ch.contract('output-subspace', ['OperatorFactory.make_product', 'SubSpace.product'],
	            'ensures output.blades == { a xor b | a in V, b in W, sign(a,b) != 0 } in canonical order')
	ch.contract('laws', ['AbstractMultiVector.__mul__', 'AbstractMultiVector.__add__'], 'associativity, distributivity, unit, for all coefficients')
	T = env.THOROUGH
	for n in (1, 2):
		for sig in ordered_signatures(n):
			ch.task('pairs_small', sig, 0, 1)
	for sig in ordered_signatures(3):
		ch.task('pairs_grades', sig, 60 if T else 10, 1)
	for sig in (ordered_signatures(4) if T else pqr_signatures(4) + [rng('c04s', i).choice(ordered_signatures(4)) for i in range(6)]):
		ch.task('pairs_grades', sig, 30 if T else 6, 1)
	for sig in (pqr_signatures(5) if T else [rng('c04t', i).choice(ordered_signatures(5)) for i in range(6)]):
		ch.task('pairs_grades', sig, 10, 1)
	for n in (1, 2, 3, 4):
		for sig in (pqr_signatures(n) if n < 4 or T else pqr_signatures(4)[::2]):
			ch.task('law_batch', sig, 30 if T else 6)
	for n in ((6, 7, 8, 9, 10, 11, 12) if T else (6, 8, 9, 10, 12)):
		ch.task('high_dim', n, 0)
	for n in ((9, 10, 11) if T else (9, 10)):
		ch.task('wide', n, 0)
	ch.run()
	return ch.finish()
