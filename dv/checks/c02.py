from dv.core import *
from dv import variants
from dv.families import *
from dv import kcontracts, mcontracts

MOD = __name__

UN = {
	'reverse': (lambda c, x: x.reverse(), lambda sp, x: sp.reverse(x)),
	'invert-operator': (lambda c, x: ~x, lambda sp, x: sp.reverse(x)),
	'involute': (lambda c, x: x.involute(), lambda sp, x: sp.involute(x)),
	'conjugate': (lambda c, x: x.conjugate(), lambda sp, x: sp.conjugate(x)),
	'scalar_negation': (lambda c, x: x.scalar_negation(), lambda sp, x: sp.scalar_negation(x)),
	'pseudoscalar_negation': (lambda c, x: x.pseudoscalar_negation(), lambda sp, x: sp.pseudoscalar_negation(x)),
	'study_conjugate': (lambda c, x: x.study_conjugate(), lambda sp, x: sp.scalar_negation(x)),
	'degenerate': (lambda c, x: x.degenerate(), lambda sp, x: {b: v for b, v in x.items() if sp.is_degenerate(b)}),
	'nondegenerate': (lambda c, x: x.nondegenerate(), lambda sp, x: {b: v for b, v in x.items() if not sp.is_degenerate(b)}),
}


def unary(led, sig, V, concrete=0):
	for nm, (code, want) in UN.items():
		def post(sp, x, o, want=want, nm=nm):
			w = want(sp, x)
			res = dict(value=sp.sub(o, w))
			if set(o) != set(w):
				res['subspace'] = {-1: 1}
			return res
		prove(led, nm, nm, sig, [V], code, post, concrete=concrete)


def twice(led, sig, V):
	prove(led, 'involutive', 'twice', sig, [V],
	      lambda c, x: (x.reverse().reverse(), x.involute().involute(), x.conjugate().conjugate(),
	                    x.scalar_negation().scalar_negation(), x.pseudoscalar_negation().pseudoscalar_negation(),
	                    x.study_conjugate().study_conjugate(), x.reverse().involute(), x.conjugate(), x.degenerate() + x.nondegenerate()),
	      lambda sp, x, a, b, c, d, e, f, g, h, i: dict(rr=sp.sub(a, x), ii=sp.sub(b, x), cc=sp.sub(c, x), ss=sp.sub(d, x),
	                                                 pp=sp.sub(e, x), st=sp.sub(f, x), conj=sp.sub(g, h), split=sp.sub(i, x)))


def morphism(led, sig, V, W):
	prove(led, 'morphism', 'anti/automorphism', sig, [V, W],
	      lambda c, x, y: ((x * y).reverse(), y.reverse() * x.reverse(), (x * y).involute(), x.involute() * y.involute(),
	                       (x * y).conjugate(), y.conjugate() * x.conjugate()),
	      lambda sp, x, y, a, b, c, d, e, f: dict(reverse=sp.sub(a, b), involute=sp.sub(c, d), conjugate=sp.sub(e, f)))


def of_operators(led, sig, V, W):
	"""the same involutions bound to the output of another operator"""
	ctx = context(sig)
	f = ctx.algebra.operator
	for nm, want in (('reverse', 'reverse'), ('involute', 'involute'), ('conjugate', 'conjugate'),
	                 ('scalar_negation', 'scalar_negation'), ('pseudoscalar_negation', 'pseudoscalar_negation')):
		prove(led, 'bound involutions', nm + ' of a product', sig, [V, W],
		      lambda c, x, y, nm=nm: c.operator(getattr(f, nm)(f.product(x.subspace, y.subspace)))(x, y),
		      lambda sp, x, y, o, want=want: dict(v=sp.sub(o, getattr(sp, want)(sp.mul(x, y)))))


def batch(led, sig, full, k):
	n = len(sig)
	r = rng('c02', sig)
	subs = list(all_subsets(n)) if full else list(grade_combos(n, empty=True)) + [random_subset(r, n) for _ in range(k)]
	for i, V in enumerate(subs):
		if len(V) <= 40:
			unary(led, sig, V, concrete=1 if i % 7 == 0 else 0)
			twice(led, sig, V)
	for _ in range(k):
		V, W = random_subset(r, n), random_subset(r, n)
		if len(V) * len(W) <= 300:
			morphism(led, sig, V, W)
			of_operators(led, sig, V, W)


def high_dim(led, n):
	r = rng('c02h', n)
	for _ in range(3):
		sig = random_sig(r, n)
		V = sorted({r.randrange(1 << n) for _ in range(12)} | {0, (1 << n) - 1})
		unary(led, sig, V, 1)
		twice(led, sig, V)


def main():
	ch = Check('C02', MOD)
	kcontracts.attach(ch, 'C02')
	mcontracts.attach(ch, 'C02')
	variants.tasks(ch, 'C02')
	for nm in UN:
		ch.contract(nm, [f'OperatorFactory.{nm}' if nm != 'invert-operator' else 'AbstractMultiVector.__invert__', f'AbstractMultiVector.{nm}', 'OperatorFactory.diagonal', 'OperatorFactory.select'],
		            f'ensures result component b == sign_{nm}(b) * x_b on exactly the same blades')
	ch.contract('involutive', ['AbstractMultiVector.reverse', 'AbstractMultiVector.involute', 'AbstractMultiVector.conjugate'], 'each negation applied twice is the identity; conjugate = involute o reverse')
	ch.contract('morphism', ['OperatorFactory.reverse', 'OperatorFactory.involute', 'OperatorFactory.geometric_product'], '(xy)~ = ~y ~x, involute(xy) = involute(x) involute(y)')
	ch.contract('bound involutions', ['Operator.build', 'OperatorFactory.diagonal'], 'involution of an operator output')
	T = env.THOROUGH
	for n in (1, 2, 3):
		for sig in ordered_signatures(n):
			ch.task('batch', sig, n < 3 or (T or sig.count(0) < 2), 12)
	for sig in (ordered_signatures(4) if T else pqr_signatures(4)):
		ch.task('batch', sig, False, 40 if T else 10)
	for sig in (ordered_signatures(5)[::3] if T else pqr_signatures(5)[::3]):
		ch.task('batch', sig, False, 6)
	for n in range(6, 12):
		ch.task('high_dim', n)
	ch.run()
	return ch.finish()
