from dv.core import *
from dv import variants
from dv.families import *
from dv import kcontracts, mcontracts
from dv.checks.c05 import binary

MOD = __name__

def _ag(f):
	return lambda sp, x, y: sp.anti(getattr(sp, f), x, y)

BIN = {
	'regressive': (['regressive', '__and__'], ['regressive_product', 'rp', 'regressive'], lambda sp, x, y: sp.regressive(x, y), 1),
	'anti product': (['anti_product'], ['anti_geometric_product', 'agp', 'anti_product'], _ag('mul'), 1),
	'anti wedge': (['anti_wedge'], ['anti_wedge_product', 'aop', 'anti_outer', 'anti_wedge', 'anti_outer_product'], _ag('wedge'), 1),
	'anti inner': (['anti_inner'], ['anti_inner_product', 'aip', 'anti_inner'], _ag('inner'), 1),
	'anti scalar': ([], ['anti_scalar_product', 'asp', 'adp', 'anti_dot', 'anti_dot_product', 'anti_scalar'], _ag('scalar'), 1),
	'anti reverse': (['anti_reverse_product'], ['anti_reverse_product'], lambda sp, x, y: sp.anti(lambda a, b: sp.mul(a, sp.reverse(b)), x, y), 1),
	'left interior': ([], ['left_interior_product', 'lip', 'left_interior'], lambda sp, x, y: sp.left_interior(x, y), 1),
	'right interior': ([], ['right_interior_product', 'rip', 'right_interior'], lambda sp, x, y: sp.right_interior(x, y), 1),
	'anti left interior': ([], ['anti_left_interior_product', 'alip', 'anti_left_interior'], _ag('left_interior'), 1),
	'anti right interior': ([], ['anti_right_interior_product', 'arip', 'anti_right_interior'], _ag('right_interior'), 1),
	'cross': (['cross'], ['cross_product'], lambda sp, x, y: sp.dual(sp.wedge(x, y)), 1),
}


def duality(led, sig, V, W):
	"""the regressive product characterised without the inverse: dual(x & y) = dual(x) ^ dual(y)"""
	prove(led, 'de morgan', 'dual(x & y) = dual x ^ dual y', sig, [V, W],
	      lambda c, x, y: ((x & y).dual(), x.dual() ^ y.dual()),
	      lambda sp, x, y, a, b: dict(value=sp.sub(a, b), spec=sp.sub(a, sp.wedge(sp.dual(x), sp.dual(y)))))


def batch(led, sig, k, full_pairs):
	n = len(sig)
	r = rng('c07', sig)
	G = list(grade_combos(n, empty=n < 3)) if n < 4 else k_vectors(n) + [blades_of_grades(n, range(0, n + 1, 2)), blades_of_grades(n, range(1, n + 1, 2))]
	pairs = [(a, b) for a in G for b in G]
	if not full_pairs and len(pairs) > k:
		pairs = r.sample(pairs, k)
	pairs += [(random_subset(r, n), random_subset(r, n)) for _ in range(max(4, k // 4))]
	lim = 300 if n < 5 else 130
	for i, (V, W) in enumerate(pairs):
		if len(V) * len(W) > lim:
			continue
		for nm in BIN:
			binary(led, BIN, nm, sig, V, W, concrete=1 if i % 11 == 0 else 0, every=i % 9 == 0)
		duality(led, sig, V, W)


def high_dim(led, n):
	r = rng('c07h', n)
	sig = random_sig(r, n)
	pick = lambda: sorted({r.randrange(1 << n) & r.randrange(1 << n) for _ in range(4)} | {1 << (n - 1), 0})
	V, W = pick(), pick()
	for nm in BIN:
		binary(led, BIN, nm, sig, V, W, 1, True)


def main():
	ch = Check('C07', MOD)
	kcontracts.attach(ch, 'C07')
	mcontracts.attach(ch, 'C07')
	variants.tasks(ch, 'C07')
	for nm, (m, f, _, _) in BIN.items():
		ch.contract(nm, ['AbstractMultiVector.' + x for x in m] + ['OperatorFactory.' + x for x in f] + ['OperatorFactory.antify', 'Operator.build', 'Operator.bind', 'Operator.fuse'],
		            f'ensures {nm}(x,y) equals its defining dualised formula for all coefficients')
	ch.contract('de morgan', ['OperatorFactory.regressive_product', 'OperatorFactory.right_hodge', 'OperatorFactory.right_hodge_inverse'], 'dual(x & y) == dual(x) ^ dual(y)')
	T = env.THOROUGH
	for n in (1, 2):
		for sig in ordered_signatures(n):
			ch.task('batch', sig, 60 if T else 30, True)
	for sig in (ordered_signatures(3) if T else pqr_signatures(3) + [(0, 1, -1), (-1, 1, 1), (0, 0, 1), (1, 0, 1)]):
		ch.task('batch', sig, 200 if T else 40, False)
	for sig in (pqr_signatures(4) if T else [(1, 1, 1, 0), (1, 1, 1, 1), (1, -1, -1, -1), (0, 1, 1, -1), (1, 1, -1, 0), (1, 1, 0, 0)]):
		ch.task('batch', sig, 60 if T else 20, False)
	for sig in (pqr_signatures(5) if T else [(1, 1, 1, 1, -1), (0, 1, 1, -1, 1)]):
		ch.task('batch', sig, 12, False)
	for n in (6, 8, 9):
		ch.task('high_dim', n)
	ch.run()
	return ch.finish()
