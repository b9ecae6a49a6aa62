from dv.core import *
from dv import variants
from dv.families import *
from dv import kcontracts, mcontracts

MOD = __name__

# name -> (multivector methods, operator factory names, specification, minimal dimension)
BIN = {
	'wedge': (['wedge', 'outer', '__xor__'], ['wedge_product', 'op', 'outer', 'wedge', 'outer_product'], lambda sp, x, y: sp.wedge(x, y), 1),
	'inner': (['inner', '__or__'], ['inner_product', 'ip', 'inner'], lambda sp, x, y: sp.inner(x, y), 1),
	'scalar': (['scalar_product'], ['scalar_product', 'sp', 'dp', 'dot', 'scalar', 'dot_product'], lambda sp, x, y: sp.scalar(x, y), 1),
	'left contraction': (['left_contract'], ['left_contraction_product', 'lc', 'left_contract'], lambda sp, x, y: sp.lc(x, y), 1),
	'right contraction': (['right_contract'], ['right_contraction_product', 'rc', 'right_contract'], lambda sp, x, y: sp.rc(x, y), 1),
	'geometric': (['product', '__mul__'], ['geometric_product', 'gp', 'product'], lambda sp, x, y: sp.mul(x, y), 1),
	'bivector product': (['bivector_product'], ['bivector_product'], lambda sp, x, y: sp.grade(sp.mul(x, y), 2), 2),
	'trivector product': (['trivector_product'], [], lambda sp, x, y: sp.grade(sp.mul(x, y), 3), 3),
	'commutator': (['commutator', 'commutator_product'], ['commutator_product', 'commutator'], lambda sp, x, y: sp.commutator(x, y), 1),
	'anticommutator': (['anti_commutator', 'anti_commutator_product'], ['anti_commutator_product', 'anti_commutator'], lambda sp, x, y: sp.anti_commutator(x, y), 1),
	'commutator anti': (['commutator_anti', 'commutator_anti_product'], ['commutator_anti_product', 'commutator_anti'],
	                    lambda sp, x, y: sp.commutator(x, y, lambda a, b: sp.anti(sp.mul, a, b)), 1),
	'anticommutator anti': (['anti_commutator_anti', 'anti_commutator_anti_product'], ['anti_commutator_anti_product', 'anti_commutator_anti'],
	                    lambda sp, x, y: sp.anti_commutator(x, y, lambda a, b: sp.anti(sp.mul, a, b)), 1),
	'reverse product': (['reverse_product'], ['reverse_product'], lambda sp, x, y: sp.mul(x, sp.reverse(y)), 1),
	'involute product': (['involute_product'], ['involute_product'], lambda sp, x, y: sp.mul(x, sp.involute(y)), 1),
	'conjugate product': (['conjugate_product'], ['conjugate_product'], lambda sp, x, y: sp.mul(x, sp.conjugate(y)), 1),
	'scalar negation product': (['scalar_negation_product'], ['scalar_negation_product'], lambda sp, x, y: sp.mul(x, sp.scalar_negation(y)), 1),
	'pseudoscalar negation product': (['pseudoscalar_negation_product'], ['pseudoscalar_negation_product'], lambda sp, x, y: sp.mul(x, sp.pseudoscalar_negation(y)), 1),
	'study conjugate product': ([], ['study_conjugate_product'], lambda sp, x, y: sp.mul(x, sp.scalar_negation(y)), 1),
}


def binary(led, table, nm, sig, V, W, concrete=0, every=False):
	methods, names, want, nmin = table[nm]
	if len(sig) < nmin:
		return
	post = lambda sp, x, y, o: dict(value=sp.sub(o, want(sp, x, y)))
	for m in methods if every else methods[:1]:
		prove(led, nm, f'x.{m}(y)', sig, [V, W], lambda c, x, y, m=m: getattr(x, m)(y), post, concrete=concrete)
	for f in names if every or not methods else []:
		prove(led, nm, f'operator.{f}', sig, [V, W], lambda c, x, y, f=f: getattr(c.operator, f)(x.subspace, y.subspace)(x, y), post)


def nproduct(led, sig, V, W, U):
	prove(led, 'n-product', 'n_product', sig, [V, W],
	      lambda c, x, y: c.operator.n_product(x.subspace, y.subspace, sub(c, U))(x, y),
	      lambda sp, x, y, o: dict(value=sp.sub(o, sp.select(sp.mul(x, y), U))))


def bound(led, table, sig, V, W, U, which):
	"""the product of an already composed operator: the grade relation applies to the composed operand"""
	ctx = context(sig)
	f = ctx.algebra.operator
	for nm in which:
		methods, names, want, nmin = table[nm]
		if len(sig) < nmin or not names:
			continue
		op = getattr(f, names[0])
		v, w, u = (sub(ctx, s) for s in (V, W, U))
		prove(led, 'bound operands', f'{names[0]}(wedge(x,y), z)', sig, [V, W, U],
		      lambda c, x, y, z: c.operator(op(f.wedge(v, w), u))(x, y, z),
		      lambda sp, x, y, z, o: dict(value=sp.sub(o, want(sp, sp.wedge(x, y), z))))
		prove(led, 'bound operands', f'{names[0]}(x, product(y,~z))', sig, [V, W, U],
		      lambda c, x, y, z: c.operator(op(v, f.reverse_product(w, u)))(x, y, z),
		      lambda sp, x, y, z, o: dict(value=sp.sub(o, want(sp, x, sp.mul(y, sp.reverse(z))))))


BOUND = ['wedge', 'inner', 'scalar', 'commutator', 'anticommutator', 'commutator anti', 'anticommutator anti', 'involute product', 'pseudoscalar negation product', 'left contraction', 'right contraction', 'geometric', 'bivector product', 'reverse product', 'conjugate product', 'scalar negation product']


def batch(led, sig, k, full_pairs):
	n = len(sig)
	r = rng('c05', sig)
	G = list(grade_combos(n, empty=n < 4)) if n < 4 else k_vectors(n) + [blades_of_grades(n, range(0, n + 1, 2)), blades_of_grades(n, range(1, n + 1, 2))] + [r.choice(list(grade_combos(n))) for _ in range(2)]
	pairs = [(a, b) for a in G for b in G]
	if not full_pairs and len(pairs) > k:
		pairs = r.sample(pairs, k)
	pairs += [(random_subset(r, n), random_subset(r, n)) for _ in range(max(4, k // 4))]
	lim = 300 if n < 5 else 130
	for i, (V, W) in enumerate(pairs):
		if len(V) * len(W) > lim:
			continue
		for nm in BIN:
			binary(led, BIN, nm, sig, V, W, concrete=1 if i % 11 == 0 else 0, every=i % 9 == 0)
		nproduct(led, sig, V, W, random_subset(r, n))
	for _ in range(max(2, k // 10)):
		pick = lambda: [b for b in random_subset(r, n) if r.random() < (.8 if n < 4 else .5)] or [1]
		bound(led, BIN, sig, pick(), pick(), pick(), BOUND)


def high_dim(led, n):
	r = rng('c05h', n)
	sig = random_sig(r, n)
	pick = lambda: sorted({r.randrange(1 << n) & r.randrange(1 << n) for _ in range(5)} | {1 << (n - 1), 0})
	V, W = pick(), pick()
	for nm in BIN:
		binary(led, BIN, nm, sig, V, W, 1, True)


def main():
	ch = Check('C05', MOD)
	kcontracts.attach(ch, 'C05')
	mcontracts.attach(ch, 'C05')
	variants.tasks(ch, 'C05')
	for nm, (m, f, _, _) in BIN.items():
		ch.contract(nm, ['AbstractMultiVector.' + x for x in m] + ['OperatorFactory.' + x for x in f] + ['OperatorFactory.make_product', 'Operator.grade_selection', 'OperatorFactory.make_commutator'],
		            f'ensures {nm}(x,y) equals its defining formula for all coefficients')
	ch.contract('n-product', ['OperatorFactory.n_product', 'OperatorFactory.restrict'], 'product restricted to the given output subspace')
	ch.contract('bound operands', ['OperatorFactory.make_product', 'Operator._build', 'Operator.bind'], 'grade formula applies to the value of a composed operand')
	T = env.THOROUGH
	for n in (1, 2):
		for sig in ordered_signatures(n):
			ch.task('batch', sig, 60 if T else 30, True)
	for sig in (ordered_signatures(3) if T else pqr_signatures(3) + [(0, 1, -1), (-1, 1, 1), (0, 0, 1), (1, 0, 1)]):
		ch.task('batch', sig, 200 if T else 36, False)
	for sig in (pqr_signatures(4) if T else [(1, 1, 1, 0), (1, 1, 1, 1), (1, -1, -1, -1), (0, 1, 1, -1), (1, 1, -1, 0), (1, 1, 0, 0)]):
		ch.task('batch', sig, 60 if T else 14, False)
	for sig in (pqr_signatures(5) if T else [(1, 1, 1, 1, -1), (0, 1, 1, -1, 1)]):
		ch.task('batch', sig, 12, False)
	for n in (6, 8, 9, 10):
		ch.task('high_dim', n)
	ch.run()
	return ch.finish()
