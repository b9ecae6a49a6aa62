from dv.core import *
from dv import variants
from dv.families import *
from dv import kcontracts, mcontracts

MOD = __name__

SYM = {
	'squared': (['squared'], 2, lambda sp, x: sp.chain(x, x)),
	'cubed': ([], 3, lambda sp, x: sp.chain(x, x, x)),
	'symmetric_reverse_product': (['symmetric_reverse_product'], 2, lambda sp, x: sp.mul(x, sp.reverse(x))),
	'symmetric_involute_product': (['symmetric_involute_product'], 2, lambda sp, x: sp.mul(x, sp.involute(x))),
	'symmetric_conjugate_product': (['symmetric_conjugate_product'], 2, lambda sp, x: sp.mul(x, sp.conjugate(x))),
	'symmetric_scalar_negation_product': (['symmetric_scalar_negation_product'], 2, lambda sp, x: sp.mul(x, sp.scalar_negation(x))),
	'symmetric_pseudoscalar_negation_product': (['symmetric_pseudoscalar_negation_product'], 2, lambda sp, x: sp.mul(x, sp.pseudoscalar_negation(x))),
	'symmetric_study_conjugate_product': ([], 2, lambda sp, x: sp.mul(x, sp.scalar_negation(x))),
	'inverse_factor': (['inverse_factor'], 3, lambda sp, x: sp.mul(sp.reverse(x), sp.conjugate(sp.mul(x, sp.reverse(x))))),
	'inverse_factor_completed': ([], 4, lambda sp, x: sp.mul(sp.mul(x, sp.reverse(x)), sp.conjugate(sp.mul(x, sp.reverse(x))))),
	'inverse_factor_alt': ([], 3, lambda sp, x: sp.mul(sp.reverse(x), sp.scalar_negation(sp.mul(x, sp.reverse(x))))),
	'inverse_factor_completed_alt': ([], 4, lambda sp, x: sp.mul(sp.mul(x, sp.reverse(x)), sp.scalar_negation(sp.mul(x, sp.reverse(x))))),
}


def limit(arity):
	return {2: 40, 3: 17, 4: 9}[arity]


def fused(led, sig, V, concrete=0):
	n = len(sig)
	N = 1 << n
	for nm, (methods, k, want) in SYM.items():
		if len(V) > limit(k) or (k == 4 and len(V) ** 4 * N > 3e5) or (k == 3 and len(V) ** 3 * N > 3e5):
			continue
		post = lambda sp, x, o: dict(value=sp.sub(o, want(sp, x)))
		if methods and len(V) % 2:
			prove(led, nm, f'x.{nm}()', sig, [V], lambda c, x: getattr(x, methods[0])(), post, concrete=concrete)
		else:
			prove(led, nm, f'operator.{nm}', sig, [V], lambda c, x: getattr(c.operator, nm)(x.subspace)(*[x] * k), post, concrete=concrete)


def fused_two(led, sig, V, W, concrete=0):
	"""operators with a tied and a free argument"""
	n = len(sig)
	if len(V) ** 2 * len(W) << n > 4e5:
		return
	prove(led, 'full_sandwich', 'x.full_sandwich(v)', sig, [V, W], lambda c, x, y: x.full_sandwich(y),
	      lambda sp, x, y, o: dict(value=sp.sub(o, sp.chain(x, y, sp.reverse(x)))), concrete=concrete)
	prove(led, 'inertia', 'inertia', sig, [V, W], lambda c, x, y: c.operator.inertia(x.subspace, y.subspace)(x, x, y),
	      lambda sp, x, y, o: dict(value=sp.sub(o, sp.regressive(x, sp.commutator(x, y)))), concrete=concrete)


def symmetry_direct(led, sig, V, W, k, seed):
	"""Operator.symmetry itself, on arbitrary integer kernels: the value on repeated arguments is kept"""
	from numga.operator.operator import Operator
	ctx = context(sig)
	r = rng('sym', sig, seed)
	v, w = sub(ctx, V), sub(ctx, W)
	nk = np.array([r.choice([-3, -2, -1, 0, 0, 0, 1, 2, 5]) for _ in range(len(V) ** k * len(W))], dtype=r.choice([np.int8, np.int16, np.int64]))
	K = nk.reshape([len(V)] * k + [len(W)])
	op = Operator(K.copy(), [v] * k + [w])
	s = op.symmetry(tuple(range(k)))
	prove(led, 'Operator.symmetry', f'symmetry of a random kernel, arity {k}', sig, [V],
	      lambda c, x: (c.operator(s)(*[x] * k), c.operator(op)(*[x] * k)),
	      lambda sp, x, a, b: dict(value=sp.sub(a, b)))
	if k == 2 and len(V) > 1:
		full = Operator(np.concatenate([K[..., None, :]] * 2, axis=-2) * np.array([1, 2])[:, None], [v, v, sub(ctx, [0, 1]), w])
		for axes in ((0, 1), (1, 0)):
			t = full.symmetry(axes)
			prove(led, 'Operator.symmetry', f'symmetry over axes {axes} with a free axis', sig, [V, [0, 1]],
			      lambda c, x, y: (c.operator(t)(x, x, y), c.operator(full)(x, x, y)), lambda sp, x, y, a, b: dict(value=sp.sub(a, b)))
		mid = full.swapaxes(1, 2)
		t = mid.symmetry((0, 2))
		prove(led, 'Operator.symmetry', 'symmetry over axes (0, 2)', sig, [V, [0, 1]],
		      lambda c, x, y: (c.operator(t)(x, y, x), c.operator(mid)(x, y, x)), lambda sp, x, y, a, b: dict(value=sp.sub(a, b)))


def symmetries(led, sig, k):
	n = len(sig)
	r = rng('c08s', sig)
	for i in range(k):
		V = random_subset(r, n, .4)[:5]
		W = random_subset(r, n)[:4]
		symmetry_direct(led, sig, V, W, 2 + i % 2, i)
	if len(sig) == 2:
		symmetry_direct(led, sig, [0, 1, 2], [0, 3], 4, 99)


def composed(led, sig, k):
	"""compose_symmetry_ops / complete_op"""
	r = rng('c08c', sig)
	ctx = context(sig)
	f = ctx.algebra.operator
	n = len(sig)
	S = dict(reverse=lambda sp: sp.reverse, involute=lambda sp: sp.involute, conjugate=lambda sp: sp.conjugate, scalar_negation=lambda sp: sp.scalar_negation)
	for _ in range(k):
		V = random_subset(r, n, .4)[:6]
		a, b = r.choice(list(S)), r.choice(list(S))
		v = sub(ctx, V)
		op = f.compose_symmetry_ops(v, getattr(f, a), getattr(f, b))
		prove(led, 'composed', f'compose_symmetry_ops {a} {b}', sig, [V], lambda c, x: c.operator(op)(x, x, x),
		      lambda sp, x, o: dict(value=sp.sub(o, sp.mul(S[a](sp)(x), S[b](sp)(sp.mul(x, S[a](sp)(x)))))))
		cop = f.complete_op(v, op)
		if len(V) <= 5:
			prove(led, 'composed', f'complete_op {a} {b}', sig, [V], lambda c, x: c.operator(cop)(x, x, x, x),
			      lambda sp, x, o: dict(value=sp.sub(o, sp.chain(x, S[a](sp)(x), S[b](sp)(sp.mul(x, S[a](sp)(x)))))))


def families(led, sig, k, part, parts):
	n = len(sig)
	r = rng('c08', sig)
	if n <= 2:
		S = list(all_subsets(n, empty=False))
	else:
		S = [g for g in grade_combos(n)] + [random_subset(r, n) for _ in range(k)]
	for i, V in enumerate(S[part::parts]):
		if len(V) <= 32:
			fused(led, sig, V, 1 if i % 7 == 0 else 0)
		for _ in range(2):
			fused_two(led, sig, V[:10], r.choice(S)[:8] or [0], 1 if i % 7 == 0 else 0)


def main():
	ch = Check('C08', MOD)
	kcontracts.attach(ch, 'C08')
	mcontracts.attach(ch, 'C08')
	variants.tasks(ch, 'C08')
	for nm, (m, k, _) in SYM.items():
		ch.contract(nm, ['OperatorFactory.' + nm, 'Operator.symmetry', 'Operator.fuse', 'Operator.bind', 'Operator.squeeze'] + ['AbstractMultiVector.' + x for x in m],
		            'ensures value on repeated arguments == chain of plain products, blades outside the reported subspace identically zero')
	ch.contract('full_sandwich', ['OperatorFactory.full_sandwich', 'AbstractMultiVector.full_sandwich'], 'ensures R v ~R')
	ch.contract('inertia', ['OperatorFactory.inertia'], 'ensures x & (x commutator y)')
	ch.contract('Operator.symmetry', ['Operator.symmetry', 'Operator.swapaxes'], 'ensures op.symmetry(axes)(x,..,x) == op(x,..,x) for any integer kernel')
	ch.contract('composed', ['OperatorFactory.compose_symmetry_ops', 'OperatorFactory.complete_op'], 'fused composition equals the chain')
	T = env.THOROUGH
	for n in (1, 2):
		for sig in ordered_signatures(n):
			ch.task('families', sig, 0, 0, 1)
			ch.task('symmetries', sig, 12 if T else 5)
			ch.task('composed', sig, 4)
	for sig in (ordered_signatures(3) if T else pqr_signatures(3) + [(0, 1, -1), (-1, 1, 0), (0, 0, 1)]):
		ch.task('families', sig, 24 if T else 8, 0, 1)
		ch.task('composed', sig, 4)
		ch.task('symmetries', sig, 8 if T else 3)
	for sig in (pqr_signatures(4) if T else [(1, 1, 1, 0), (1, 1, 1, 1), (1, -1, -1, -1), (0, 1, 1, -1), (0, 0, 1, 1)]):
		ch.task('families', sig, 10 if T else 4, 0, 2)
		ch.task('families', sig, 10 if T else 4, 1, 2)
	for sig in (pqr_signatures(5) if T else [(1, 1, 1, 1, -1), (0, 1, 1, 1, 1)]):
		for i in range(3):
			ch.task('families', sig, 4, i, 3)
	ch.run()
	return ch.finish()
