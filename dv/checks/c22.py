import dv.env
from dv.core import *
from dv.families import *

MOD = __name__

# the involutions of the symmetric products, as signs
NEG = {
	'squared': lambda sp, b: 1,
	'reverse': lambda sp, b: sp.reverse_sign(b),
	'involute': lambda sp, b: sp.involute_sign(b),
	'conjugate': lambda sp, b: sp.reverse_sign(b) * sp.involute_sign(b),
	'scalar_negation': lambda sp, b: 1 if b == 0 else -1,
	'pseudoscalar_negation': lambda sp, b: 1 if b in (0, sp.I) else -1,
}


def support(sp, V, W, t=None):
	"""blades c that occur with a nonzero coefficient in x y, x in V, y in W generic"""
	return frozenset(c for a in V for b in W for s, c in [sp.blade_mul(a, b)] if s)


def square_support(sp, V, neg):
	"""blades that occur with a nonzero coefficient in x T(x), x in V generic (exact: the monomials x_a x_b are independent)"""
	out = set()
	V = list(V)
	for i, a in enumerate(V):
		for b in V[i:]:
			s, c = sp.blade_mul(a, b)
			if a == b:
				k = s * NEG[neg](sp, a)
			else:
				k = s * NEG[neg](sp, b) + sp.blade_mul(b, a)[0] * NEG[neg](sp, a)
			if k:
				out.add(c)
	return frozenset(out)


_simple = {}

def simple(sp, V, n):
	"""can n products x T(x) bring every x in V to a scalar?"""
	k = (sp.sig, V, n)
	if k not in _simple:
		_simple[k] = V <= {0} if n == 0 else any(simple(sp, square_support(sp, V, t), n - 1) for t in NEG)
	return _simple[k]


def closure(sp, V):
	S = frozenset(V)
	while True:
		T = S | support(sp, S, S)
		if T == S:
			return S
		S = T


def B(V):
	return frozenset(int(b) for b in V.blades)


SQ = {'squared': 'squared', 'symmetric_reverse': 'reverse', 'symmetric_involute': 'involute', 'symmetric_conjugate': 'conjugate',
      'symmetric_scalar_negation': 'scalar_negation', 'symmetric_pseudoscalar_negation': 'pseudoscalar_negation'}
PRED = {'is_squared_n_simple': 'squared', 'is_reverse_n_simple': 'reverse', 'is_involute_n_simple': 'involute', 'is_conjugate_n_simple': 'conjugate',
        'is_scalar_negation_n_simple': 'scalar_negation', 'is_pseudoscalar_negation_n_simple': 'pseudoscalar_negation'}


def predicates(led, sig, subspaces):
	sp = spec(sig)
	alg = algebra(sig)
	n = len(sig)
	for V in subspaces:
		v = sub(alg, V)
		V = frozenset(V)
		w = f'<{",".join(map(str, sorted(V)))}> in {sig}'
		for nm, t in SQ.items():
			led.enum('symmetric product subspaces', square_support(sp, V, t) <= B(getattr(v, nm)()), f'{nm} of {w} reports {sorted(B(getattr(v, nm)()))}, values reach {sorted(square_support(sp, V, t))}')
		if len(V) <= 4:
			c = set()
			for x in V:
				for y in V:
					for z in V:
						s, q = sp.blade_mul(x, y)
						s2, q2 = sp.blade_mul(q, z)
						if s * s2 and x == y == z:
							c.add(q2)
			led.enum('symmetric product subspaces', c <= B(v.cubed()), f'cubed of {w}')
		closed = support(sp, V, V) <= V
		led.enum('is_subalgebra', v.is_subalgebra == closed, f'is_subalgebra of {w} is {v.is_subalgebra}, closed under the product: {closed}')
		m = v.minimal_subalgebra
		led.enum('minimal_subalgebra', V <= B(m) and support(sp, B(m), B(m)) <= B(m), f'minimal_subalgebra of {w} = {sorted(B(m))} is not closed or does not contain it')
		led.enum('minimal_subalgebra', B(m) == closure(sp, V), f'minimal_subalgebra of {w} = {sorted(B(m))} is not the generated one {sorted(closure(sp, V))}')
		e = v.minimal_exponential
		led.enum('minimal_exponential', V | {0} <= B(e) and square_support(sp, B(e), 'squared') <= B(e), f'minimal_exponential of {w} = {sorted(B(e))} is not closed under squaring, or misses 1 or the element')
		for k in range(n // 2 + 2):
			if v.is_n_simple(k):
				led.enum('is_n_simple', simple(sp, V, k), f'is_n_simple({k}) of {w}: no {k} products reach the scalars')
				led.cover('is_n_simple: true cases')
			else:
				led.ok('is_n_simple', 'enumeration')
			for nm, t in PRED.items():
				if k and getattr(v, nm)(k):
					led.enum('is_n_simple', simple(sp, square_support(sp, V, t), k - 1), f'{nm}({k}) of {w}')
		s = v.simplicity
		led.enum('simplicity', s is None or simple(sp, V, s), f'simplicity of {w} is {s}')
		led.enum('simplicity', s is None or not any(v.is_n_simple(k) for k in range(s)), f'simplicity of {w} is {s}, but it is n-simple for less')
		if v.is_study:
			led.cover('is_study: true cases')
		led.enum('is_study', not v.is_study or square_support(sp, V, 'scalar_negation') <= {0}, f'is_study of {w}, but x times its scalar negation reaches {sorted(square_support(sp, V, "scalar_negation"))}')
		deg = frozenset(b for b in V if sp.is_degenerate(b))
		facts = dict(in_even=all(popcount(b) % 2 == 0 for b in V), in_odd=all(popcount(b) % 2 for b in V),
		             is_even=V == {b for b in range(sp.N) if popcount(b) % 2 == 0}, is_odd=V == {b for b in range(sp.N) if popcount(b) % 2},
		             is_empty=not V, in_self_reverse=all(sp.reverse_sign(b) == 1 for b in V), is_degenerate=V == deg, is_degenerate_scalar=V == deg | {0}, is_blade=len(V) == 1)
		for nm, want in facts.items():
			led.enum('membership predicates', bool(getattr(v, nm)) == want, f'{nm} of {w} is {getattr(v, nm)}')


def products(led, sig, pairs):
	sp = spec(sig)
	alg = algebra(sig)
	for V, W in pairs:
		v, w = sub(alg, V), sub(alg, W)
		X, Y = {b: 1 for b in V}, {b: 1 for b in W}
		lab = f'<{V}> and <{W}> in {sig}'
		full = support(sp, V, W)
		for nm in ('product', 'reverse_product', 'involute_product', 'conjugate_product', 'scalar_negation_product', 'pseudoscalar_negation_product'):
			led.enum('product subspaces', full <= B(getattr(v, nm)(w)), f'{nm} of {lab}')
		led.enum('product subspaces', {c for a in V for b in W for s, c in [sp.blade_mul(a, b)] if not a & b} <= B(v.wedge(w)), f'wedge of {lab}')
		inner = {c for a in V for b in W for s, c in [sp.blade_mul(a, b)] if s and popcount(c) == abs(popcount(a) - popcount(b))}
		led.enum('product subspaces', inner <= B(v.inner(w)), f'inner of {lab}')
		wv = {a | b for a in V for b in W if not a & b}
		rej = {c for a in wv for b in W for s, c in [sp.blade_mul(a, b)] if s and popcount(c) == abs(popcount(a) - popcount(b))}
		led.enum('product subspaces', rej <= set(B(v.reject(w))), f'reject of {lab}')
		anti = set()
		for a in V:
			for b in W:
				o = sp.anti(sp.mul, {a: 1}, sp.reverse({b: 1}))
				anti |= {k for k, s in o.items() if s}
		# anti_reverse_product is a * anti-reverse(b), whose blades are those of the anti-product
		led.enum('product subspaces', anti <= B(v.anti_reverse_product(w)), f'anti_reverse_product of {lab}')
		led.enum('membership predicates', (w in v) == (set(W) <= set(V)) and v.is_subspace(w) == (set(V) <= set(W)), f'inclusion of {lab}')
		led.enum('membership predicates', v.inside(w) == (set(V) <= set(W)) and v.equals(w) == (set(V) == set(W)), f'inside/equals of {lab}')


def values(led, sig, V, concrete):
	"""the same facts on the values: every coefficient outside the reported subspace is identically zero"""
	alg = algebra(sig)
	v = sub(alg, V)
	full = list(range(1 << len(sig)))
	def outside(o, s):
		return {b: c for b, c in o.items() if b not in B(s)}
	prove(led, 'values in reported subspaces', 'minimal_subalgebra', sig, [order(B(v.minimal_subalgebra))] * 2, lambda c, x, y: x * y, lambda sp, x, y, o: dict(closed=outside(sp.mul(x, y), v.minimal_subalgebra)), concrete=concrete)
	prove(led, 'values in reported subspaces', 'minimal_exponential', sig, [order(B(v.minimal_exponential))], lambda c, x: x.squared(), lambda sp, x, o: dict(closed=outside(sp.mul(x, x), v.minimal_exponential)), concrete=concrete)
	T = dict(squared=lambda sp, x: x, symmetric_reverse=lambda sp, x: sp.reverse(x), symmetric_involute=lambda sp, x: sp.involute(x), symmetric_conjugate=lambda sp, x: sp.conjugate(x),
	         symmetric_scalar_negation=lambda sp, x: sp.scalar_negation(x), symmetric_pseudoscalar_negation=lambda sp, x: sp.pseudoscalar_negation(x))
	for nm, t in T.items():
		s = getattr(v, nm)()
		prove(led, 'values in reported subspaces', nm, sig, [V], lambda c, x: x, lambda sp, x, o: dict(inside=outside(sp.mul(x, t(sp, x)), s)), concrete=0)
	if v.is_study:
		prove(led, 'is_study', 'x times its scalar negation', sig, [V], lambda c, x: x * x.scalar_negation(), lambda sp, x, o: dict(scalar={b: c for b, c in o.items() if b}), concrete=concrete)


def value_batch(led, sig, Vs):
	for V in Vs:
		values(led, sig, V, 0)


def named(led, sig):
	sp = spec(sig)
	n = len(sig)
	s = algebra(sig).subspace
	all_ = range(sp.N)
	def is_(nm, got, want):
		led.enum('named subspaces', B(got) == frozenset(want) and list(map(int, got.blades)) == order(want), f'{nm} of {sig} is {sorted(B(got))}, by definition {sorted(want)}')
	g = lambda f: [b for b in all_ if f(popcount(b))]
	is_('self_reverse', s.self_reverse(), [b for b in all_ if sp.reverse_sign(b) == 1])
	is_('self_involute', s.self_involute(), [b for b in all_ if sp.involute_sign(b) == 1])
	is_('even_grade', s.even_grade(), g(lambda k: k % 2 == 0))
	is_('odd_grade', s.odd_grade(), g(lambda k: k % 2))
	is_('mod4', s.mod4(), g(lambda k: k % 4 == 0))
	is_('motor', s.motor(), g(lambda k: k % 2 == 0))
	is_('rotor', s.rotor(), [b for b in all_ if popcount(b) % 2 == 0 and not sp.is_degenerate(b)])
	is_('degenerate', s.degenerate(), [b for b in all_ if sp.is_degenerate(b)])
	is_('scalar_degenerate', s.scalar_degenerate(), [b for b in all_ if sp.is_degenerate(b) or b == 0])
	is_('nondegenerate', s.nondegenerate(), [b for b in all_ if not sp.is_degenerate(b)])
	is_('nonscalar', s.nonscalar(), g(lambda k: k > 0))
	is_('scalar', s.scalar(), [0])
	is_('pseudoscalar', s.pseudoscalar(), [sp.I])
	is_('scalar_pseudoscalar', s.scalar_pseudoscalar(), {0, sp.I})
	is_('multivector', s.multivector(), all_)
	is_('empty', s.empty(), [])
	R = frozenset([0])
	vec = [1 << i for i in range(n)]
	refl = []
	for k in range(5):
		is_(f'k_reflection({k})', s.k_reflection(k), R)
		refl.append(R)
		R = support(sp, R, vec)
	for nm, k in (('reflection', 1), ('bireflection', 2), ('trireflection', 3), ('quadreflection', 4)):
		is_(nm, getattr(s, nm)(), refl[k])
	if n >= 2:
		is_('translator', s.translator(), [b for b in refl[2] if not (popcount(b) == 2 and not sp.is_degenerate(b))])
	for k, nm in enumerate(('scalar', 'vector', 'bivector', 'trivector', 'quadvector')):
		if k <= n:
			is_(nm, getattr(s, nm)(), g(lambda q: q == k))
			is_(f'anti{nm}', getattr(s, f'anti{nm}')(), g(lambda q: q == n - k))


def named_batch(led, sigs):
	for s in sigs:
		named(led, s)


def deduction(led, what):
	from dv import sets
	dict(lemmas=lambda: sets.lemmas(led, 'blade lemmas'), predicates=lambda: sets.set_predicates(led, 'membership predicates'), constructors=lambda: sets.constructors(led, 'named subspaces'),
	     loops=lambda: sets.closure_loops(led), exponential=lambda: sets.exponential_loop(led), facts=lambda: sets.static_facts(led))[what]()
	if led.open:       # something is not proved for every algebra: look for a failing one beyond the enumerated dimensions
		r = rng('c22 beyond', what)
		for n in (5, 6, 7, 9):
			sig = random_sig(r, n)
			predicates(led, sig, [sorted({r.randrange(1 << n) for _ in range(4)}) for _ in range(6)] + [[0], [(1 << n) - 1]])
			products(led, sig, [([r.randrange(1 << n) for _ in range(3)][:1], sorted({r.randrange(1 << n) for _ in range(3)})) for _ in range(6)])
			if n > 6: named(led, sig)


def main():
	ch = Check('C22', MOD)
	for k in ('loops', 'exponential', 'lemmas', 'facts', 'predicates', 'constructors'):
		ch.task('deduction', k)
	ch.contract('blade lemmas', ['(axioms of engine S)'], 'the facts about blades used by the set-level proofs, proved on 32-bit words')
	T = env.THOROUGH
	S = 'SubSpace.'
	ch.contract('symmetric product subspaces', [S + k for k in SQ] + [S + 'cubed'], 'ensures every coefficient of x T(x) outside the result is identically zero')
	ch.contract('product subspaces', [S + k for k in ('product', 'wedge', 'inner', 'reject', 'reverse_product', 'involute_product', 'conjugate_product', 'scalar_negation_product', 'pseudoscalar_negation_product', 'anti_reverse_product')], 'ensures every coefficient of the product outside the result is identically zero')
	ch.contract('is_subalgebra', [S + 'is_subalgebra'], 'result == closed under the product')
	ch.contract('minimal_subalgebra', [S + 'minimal_subalgebra'], 'closed under the product, contains self, and generated by it')
	ch.contract('minimal_exponential', [S + 'minimal_exponential'], 'contains 1 and self, closed under squaring')
	ch.contract('is_n_simple', [S + 'is_n_simple'] + [S + k for k in PRED], 'result ==> n products x T(x) reach the scalars')
	ch.contract('simplicity', [S + 'simplicity'], 'least n with is_n_simple(n), or None')
	ch.contract('is_study', [S + 'is_study'], 'result ==> x times its scalar negation is scalar, for all coefficients')
	ch.contract('membership predicates', [S + k for k in ('in_even', 'in_odd', 'is_even', 'is_odd', 'is_empty', 'in_self_reverse', 'is_degenerate', 'is_degenerate_scalar', 'is_blade', '__contains__', 'is_subspace')] + ['InNamespace.__call__', 'IsNamespace.__call__'], 'as defined on blade sets')
	ch.contract('named subspaces', ['SubSpaceFactory.' + k for k in ('self_reverse', 'even_grade', 'odd_grade', 'mod4', 'motor', 'rotor', 'translator', 'k_reflection', 'degenerate', 'nondegenerate')], 'exactly the blades of the definition')
	ch.contract('values in reported subspaces', [S + k for k in ('minimal_subalgebra', 'minimal_exponential') + tuple(SQ)], 'on the values, for all coefficients')
	for n in (0, 1, 2, 3) if False else (1, 2, 3):
		for sig in ordered_signatures(n):
			for c in chunks(all_subsets(n), 2 if n == 3 else 1):
				ch.task('predicates', sig, c)
	r = rng('c22')
	for sig in pqr_signatures(4) + ordered_signatures(4)[::5]:
		ch.task('predicates', sig, list(grade_combos(4)) + [random_subset(r, 4) for _ in range(60 if T else 8)])
	for sig in (pqr_signatures(5) if T else pqr_signatures(5)[::3]):
		for c in chunks(grade_combos(5), 4):
			ch.task('predicates', sig, c[:None if T else 8])
	for n in (1, 2):
		for sig in ordered_signatures(n):
			ch.task('products', sig, [(V, W) for V in all_subsets(n) for W in all_subsets(n)])
	for n, k in ((3, 40), (4, 25)) + (((5, 40),) if T else ()):
		for sig in pqr_signatures(n) + [random_sig(r, n) for _ in range(4)]:
			ch.task('products', sig, [(random_subset(r, n), random_subset(r, n)) for _ in range(k * (5 if T else 1))])
	for sig in ordered_signatures(2) + ordered_signatures(3)[::2 if not T else 1]:
		ch.task('value_batch', sig, [random_subset(r, len(sig))for _ in range(8)] + k_vectors(len(sig)))
	for n in range(1, 7 if not T else 9):
		ch.task('named_batch', pqr_signatures(n) + [random_sig(r, n) for _ in range(6)] + (ordered_signatures(n) if n <= 4 else []))
	ch.run()
	return ch.finish()
