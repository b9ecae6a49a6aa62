from dv.core import *
from dv import variants
from dv.families import *
from dv import kcontracts, mcontracts

MOD = __name__
OPS = {
	'right_complement_dual': lambda sp, x: sp.rcd(x),
	'left_complement_dual': lambda sp, x: sp.lcd(x),
	'right_hodge': lambda sp, x: sp.right_hodge(x),
	'left_hodge': lambda sp, x: sp.left_hodge(x),
	'right_hodge_inverse': lambda sp, x: sp.right_hodge_inverse(x),
	'left_hodge_inverse': lambda sp, x: sp.left_hodge_inverse(x),
	'right_complement': lambda sp, x: sp.right_complement(x),
	'left_complement': lambda sp, x: sp.left_complement(x),
	'dual': lambda sp, x: sp.dual(x),
	'dual_inverse': lambda sp, x: sp.dual_inverse(x),
}


def unary(led, sig, V, concrete=0):
	n = len(sig)
	for nm, want in OPS.items():
		def post(sp, x, o):
			res = dict(value=sp.sub(o, want(sp, x)))
			if set(o) != {sp.I ^ b for b in x}:
				res['subspace is the complement'] = {-1: 1}
			return res
		prove(led, nm, f'operator.{nm}', sig, [V], lambda c, x, nm=nm: getattr(c.operator, nm)(x.subspace)(x), post, concrete=concrete)
	prove(led, 'round trip', 'dual / dual_inverse', sig, [V],
	      lambda c, x: (x.dual().dual_inverse(), x.dual_inverse().dual(), x.dual(),
	                    c.operator.left_hodge(sub(c, [((1 << n) - 1) ^ b for b in V]))(c.operator.left_hodge_inverse(x.subspace)(x)),
	                    c.operator.left_hodge_inverse(sub(c, [((1 << n) - 1) ^ b for b in V]))(c.operator.left_hodge(x.subspace)(x))),
	      lambda sp, x, a, b, d, e, f: dict(di=sp.sub(a, x), id=sp.sub(b, x), d=sp.sub(d, sp.dual(x)), le=sp.sub(e, x), lf=sp.sub(f, x)), concrete=concrete)


def equations(led, sig):
	"""defining equations, blade by blade, through the code's own wedge and product"""
	n = len(sig)
	I = (1 << n) - 1
	for b in range(1 << n):
		prove(led, 'defining equations', f'b ^ d(b) = I, blade {b}', sig, [[b]],
		      lambda c, x: (x ^ c.operator.right_complement_dual(x.subspace)(x), c.operator.left_complement_dual(x.subspace)(x) ^ x,
		                    x ^ x.dual(), c.operator.left_hodge(x.subspace)(x) ^ x),
		      lambda sp, x, r, l, h, k: dict(
			      right=sp.sub(r, {I: x[b] * x[b]}), left=sp.sub(l, {I: x[b] * x[b]}),
			      hodge=sp.sub(h, {I: sp.metric_sign(b) * x[b] * x[b]}), lhodge=sp.sub(k, {I: sp.metric_sign(b) * x[b] * x[b]})))
		if 0 not in sig:
			prove(led, 'defining equations', f'complement is b I without null generators, blade {b}', sig, [[b]],
			      lambda c, x: (c.operator.right_complement(x.subspace)(x), x * c.multivector.pseudoscalar([1]),
			                    c.operator.left_complement(x.subspace)(x), c.multivector.pseudoscalar([1]) * x),
			      lambda sp, x, a, a2, d, d2: dict(right=sp.sub(a, a2), left=sp.sub(d, d2)))


def of_operators(led, sig, V, W):
	ctx = context(sig)
	f = ctx.algebra.operator
	v, w = sub(ctx, V), sub(ctx, W)
	for nm, want in OPS.items():
		prove(led, 'bound duals', f'{nm}(product(x,y))', sig, [V, W],
		      lambda c, x, y: c.operator(getattr(f, nm)(f.product(v, w)))(x, y),
		      lambda sp, x, y, o: dict(value=sp.sub(o, want(sp, sp.mul(x, y)))))


def batch(led, sig, full, k):
	n = len(sig)
	r = rng('c06', sig)
	subs = list(all_subsets(n)) if full else list(grade_combos(n, empty=True)) + [random_subset(r, n) for _ in range(k)]
	for i, V in enumerate(subs):
		unary(led, sig, V, 1 if i % 9 == 0 else 0)
	for _ in range(k // 3 + 1):
		V, W = random_subset(r, n, .3), random_subset(r, n, .3)
		if len(V) * len(W) < 150:
			of_operators(led, sig, V, W)


def high_dim(led, n):
	r = rng('c06h', n)
	for _ in range(2):
		sig = random_sig(r, n)
		V = sorted({r.randrange(1 << n) for _ in range(8)} | {0, (1 << n) - 1})
		unary(led, sig, V, 1)


def main():
	ch = Check('C06', MOD)
	kcontracts.attach(ch, 'C06')
	mcontracts.attach(ch, 'C06')
	variants.tasks(ch, 'C06')
	for nm in OPS:
		ch.contract(nm, [f'OperatorFactory.{nm}', 'OperatorFactory._complement', 'SparseTensor.from_cayley', 'SparseTensor.to_dense', 'OperatorFactory.unary_inverse', 'Operator._build'],
		            f'ensures {nm}(x) has component sign(b) x_b on the complement of b')
	ch.contract('round trip', ['AbstractMultiVector.dual', 'AbstractMultiVector.dual_inverse'], 'dual_inverse(dual(x)) == x == dual(dual_inverse(x))')
	ch.contract('defining equations', ['OperatorFactory.right_complement_dual', 'OperatorFactory.left_complement_dual', 'OperatorFactory.right_hodge'], 'b ^ d(b) = I etc.')
	ch.contract('bound duals', ['OperatorFactory._complement', 'Operator.build'], 'dual of the output of another operator')
	T = env.THOROUGH
	for n in (1, 2, 3):
		for sig in ordered_signatures(n):
			ch.task('batch', sig, n < 3 or T or sig in ((1, 1, 0), (1, -1, 1), (0, -1, 1)), 12)
			ch.task('equations', sig)
	for sig in (ordered_signatures(4) if T else pqr_signatures(4)):
		ch.task('batch', sig, False, 20)
		ch.task('equations', sig)
	for sig in (pqr_signatures(5) if T else pqr_signatures(5)[::4]):
		ch.task('batch', sig, False, 6)
		ch.task('equations', sig)
	for n in (6, 7, 8, 9):
		ch.task('high_dim', n)
	ch.run()
	return ch.finish()
