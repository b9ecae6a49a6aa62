"""The kernel contracts of OperatorFactory and Operator, property by property. Every entry: the real constructor, and the value its kernel
must have at an argument blade a (b, c, …) and an output blade o, for any subspaces A, B, … of any algebra.

  S(x,y) swaps of x y, N(x,y) shared negative generators, D(x,y) shared generators, nul: no shared null generator, |x| grade,
  Q(x) = |x|(|x|-1)/2 mod 2, G(x) = |x| mod 2, NG(x) number of negative generators of x
"""
from dv.kernels import *
from dv.kernels import K
I_ = W(I)
a, b, o = W('a'), W('b'), W('o')
gp = prod('a', 'b')
O2 = at('o', 'a', 'b')
one = Val.const(1)
def pos(f): return Val.term(cond=f)
def flip(f): return Val.term(-2, cond=f) + one          # -1 where f holds
nz = lambda x: lin('<=', {w(x): -1}, 1)                  # grade(x) > 0
REV, INV, CNJ = (lambda x: sign(Q(w(x)))), (lambda x: sign(G(w(x)))), (lambda x: sign(padd(Q(w(x)), G(w(x)))))
SNEG = lambda x: flip(nz(x))
PNEG = lambda x: flip(conj(neg(grade_is(x, 0)), neg(lin('==', {w(x): 1, I_: -1}, 0))))
RC = lambda x: sign(padd(S(w(x), I_), NG(w(x))))        # x I without its metric factor
LC = lambda x: sign(padd(S(I_, w(x)), NG(w(x))))
RD = lambda x: sign(S(w(x), w(x) ^ I_))                  # x d(x) = I
LD = lambda x: sign(S(w(x) ^ I_, w(x)))                  # d(x) x = I
RH = lambda x: sign(padd(S(w(x), w(x) ^ I_), NG(w(x))))
LH = lambda x: sign(padd(S(w(x) ^ I_, w(x)), NG(w(x))))
comp = lambda x: w(x) ^ I_

def lift(spec, names, via):
	"""the specification of op over operands that are operators: sum over the blades in between. via: {variable: (kernel, *argument variables)}"""
	m = {v: W(v + "'") for v in via}
	r = spec.subst(m)
	for v, (nm, *args) in via.items(): r = r * fac(nm, *args, W(v + "'"))
	for v in via: r = r.total(v + "'", TRUE)
	return r
UN = dict(sets='AP', ops=dict(f='AP'))
BIN = dict(sets='ABPQ', ops=dict(f='AP', g='BQ'))
def unary(nm, build, spec, **k):
	yield K(nm, build, 'a o', spec, sets='A', **k)
	ax = k.pop('axes', None)
	k.pop('exact', None)
	yield K(nm + ' of an operator', lambda al, A, P, f: build(al, f), 'a o', lift(spec, 'a o', dict(a=('f', 'a'))), **UN, **k)
def binary(nm, build, spec, **k):
	yield K(nm, build, 'a b o', spec, sets='AB', **k)
	k.pop('axes', None)
	yield K(nm + ' of operators', lambda al, A, B, P, Q, f, g: build(al, f, g), 'a b o', lift(spec, 'a b o', dict(a=('f', 'a'), b=('g', 'b'))), **BIN, **k)
def fop(nm): return lambda al, *x, **k: getattr(al.operator, nm)(*x, *k.values())

def c02():
	same = at('o', 'a')
	for nm, s in dict(reverse=REV, involute=INV, conjugate=CNJ, scalar_negation=SNEG, study_conjugate=SNEG, pseudoscalar_negation=PNEG, identity=lambda x: one).items():
		yield from unary(nm, fop(nm), s('a') * same, axes=(lambda e: (e['A'], e['A'])))
	for nm, m in (('degenerate', neg(nul(a, a))), ('nondegenerate', nul(a, a))):
		yield from unary(nm, fop(nm), same.where(m), axes=lambda e, nm=nm: (e['A'], getattr(e['A'], nm)()))
	# lemmas
	for nm in ('reverse', 'involute', 'conjugate', 'scalar_negation', 'study_conjugate', 'pseudoscalar_negation'):
		f = fop(nm)
		yield K(f'{nm} twice is the identity', lambda al, A, f=f: f(al, f(al, A)), 'a o', same, sets='A')
	P = lambda al, x, y: al.operator.product(x, y)
	rev = sign(Q(a ^ b)) * gp * O2
	yield K('reverse of a product', lambda al, A, B: al.operator.reverse(P(al, A, B)), 'a b o', rev, sets='AB')
	yield K('product of the reverses, exchanged', lambda al, A, B: P(al, al.operator.reverse(B), al.operator.reverse(A)).swapaxes(0, 1), 'a b o', rev, sets='AB')
	inv = sign(G(a ^ b)) * gp * O2
	yield K('involute of a product', lambda al, A, B: al.operator.involute(P(al, A, B)), 'a b o', inv, sets='AB')
	yield K('product of the involutes', lambda al, A, B: P(al, al.operator.involute(A), al.operator.involute(B)), 'a b o', inv, sets='AB')
	cnj = sign(padd(Q(a ^ b), G(a ^ b))) * gp * O2
	yield K('conjugate of a product', lambda al, A, B: al.operator.conjugate(P(al, A, B)), 'a b o', cnj, sets='AB')
	yield K('product of the conjugates, exchanged', lambda al, A, B: P(al, al.operator.conjugate(B), al.operator.conjugate(A)).swapaxes(0, 1), 'a b o', cnj, sets='AB')

def c04():
	for nm in ('geometric_product', 'product', 'gp'):
		yield from binary(nm, fop(nm), gp * O2, exact=True)
	abc = prod('a', 'b') * prod(a ^ b, 'c') * at('o', 'a', 'b', 'c')
	yield K('(x y) z', lambda al, A, B, C: al.operator.product(al.operator.product(A, B), C), 'a b c o', abc, sets='ABC')
	yield K('x (y z)', lambda al, A, B, C: al.operator.product(A, al.operator.product(B, C)), 'a b c o', abc, sets='ABC')
	yield K('product of operators, arity 3 and 2', lambda al, A, B, C, P, Q, f, g: al.operator.product(f, g), 'a b c d o',
	        lift(gp * O2, 'a b o', dict(a=('f', 'a', 'b'), b=('g', 'c', 'd'))), sets='ABCPQ', ops=dict(f='ABP', g='CAQ'))
	yield K('1 x', lambda al, A: al.operator.product(al.subspace.scalar(), A), 's a o', at('o', 'a').where(ev(W('s'))), sets='A')
	yield K('x 1', lambda al, A: al.operator.product(A, al.subspace.scalar()), 'a s o', at('o', 'a').where(ev(W('s'))), sets='A')
	yield K('x x with equal subspaces', lambda al, A: al.operator.product(A, A), 'a b o', gp * O2, sets='A', exact=True)
	for k in (0, 1, 2):
		yield K(f'product with the {k}-vectors', lambda al, A, k=k: al.operator.product(A, al.subspace.k_vector(k)), 'a b o', gp * O2, sets='A', exact=True, mindim=k)

GRADE = {
	'wedge': grade_eq(['o'], ['a', 'b']), 'inner': disj(conj(lin('<=', {a: 1, b: -1}, 0), grade_eq(['o', 'a'], ['b'])), conj(lin('<=', {b: 1, a: -1}, 0), grade_eq(['o', 'b'], ['a']))),
	'scalar': grade_is('o', 0), 'left_contract': grade_eq(['o', 'a'], ['b']), 'right_contract': grade_eq(['o', 'b'], ['a'])}
ALIASES = dict(wedge=['wedge_product', 'op', 'outer', 'outer_product'], inner=['inner_product', 'ip'], scalar=['scalar_product', 'dot', 'dp', 'sp', 'dot_product'],
               left_contract=['left_contraction_product', 'lc'], right_contract=['right_contraction_product', 'rc'])
def graded(nm, x='a', y='b', z='o'): return (gp * O2).where(GRADE[nm]).subst({'a': w(x), 'b': w(y), 'o': w(z)})
def c05():
	for nm in GRADE:
		yield from binary(nm, fop(nm), graded(nm), exact=True)
		for al_ in ALIASES[nm]: yield K(al_, fop(al_), 'a b o', graded(nm), sets='AB')
	yield from binary('bivector_product', fop('bivector_product'), (gp * O2).where(grade_is('o', 2)), mindim=2)
	for k in range(5):
		yield from binary(f'n_product, grade {k}', lambda al, *x, k=k, **kw: al.operator.n_product(*x, *kw.values(), al.subspace.k_vector(k)), (gp * O2).where(grade_is('o', k)), mindim=k)
	yield K('n_product with any requested output', lambda al, A, B, C: al.operator.n_product(A, B, C), 'a b o', (gp * O2).where(('in', 'C', o)), sets='ABC')
	for nm, s in (('commutator', -1), ('anti_commutator', 1)):
		v = gp * O2
		yield from binary(nm, fop(nm), (v + v.subst(dict(a=b, b=a)).scale(s)).scale(Fraction(1, 2)))
		yield K(nm + '_product', fop(nm + '_product'), 'a b o', (v + v.subst(dict(a=b, b=a)).scale(s)).scale(Fraction(1, 2)), sets='AB', exact=True)
	anti = ANTI(gp * O2)
	for nm, s in (('commutator_anti', -1), ('anti_commutator_anti', 1), ('commutator_anti_product', -1), ('anti_commutator_anti_product', 1)):
		yield from binary(nm, fop(nm), (anti + anti.subst(dict(a=b, b=a)).scale(s)).scale(Fraction(1, 2)))
	for nm, s in dict(reverse_product=REV, involute_product=INV, conjugate_product=CNJ, scalar_negation_product=SNEG, study_conjugate_product=SNEG, pseudoscalar_negation_product=PNEG).items():
		yield from binary(nm, fop(nm), gp * s('b') * O2)
	yield from binary('anti_reverse_product', fop('anti_reverse_product'), ANTI(gp * REV('b') * O2))

def ANTI(v):
	"""left complement of the product of the right complements"""
	return v.subst({'a': comp('a'), 'b': comp('b'), 'o': comp('o')}) * RC('a') * RC('b') * LC(comp('o'))

def c06():
	c = at('o', 'a', I_)
	ax = lambda e: (e['A'], e['A'].complement())
	for nm, s in dict(right_complement=RC, left_complement=LC, right_complement_dual=RD, left_complement_dual=LD, right_hodge=RH, left_hodge=LH, dual=RH).items():
		yield from unary(nm, fop(nm), s('a') * c, axes=ax)
	for nm, s in dict(right_hodge_inverse=RH, left_hodge_inverse=LH, dual_inverse=RH).items():
		yield from unary(nm, fop(nm), s(comp('a')) * c, axes=ax)
	same = at('o', 'a')
	for d, i in (('dual', 'dual_inverse'), ('right_hodge', 'right_hodge_inverse'), ('left_hodge', 'left_hodge_inverse')):
		yield K(f'{i} of {d}', lambda al, A, d=d, i=i: fop(i)(al, fop(d)(al, A)), 'a o', same, sets='A')
		yield K(f'{d} of {i}', lambda al, A, d=d, i=i: fop(d)(al, fop(i)(al, A)), 'a o', same, sets='A')
	# b d(b) = I and d(b) b = I for every blade: the wedge with the dual
	yield K('x wedge right_complement_dual(y), top grade', lambda al, A: al.operator.wedge(A, al.operator.right_complement_dual(A)).select_subspace(al.subspace.pseudoscalar()), 'a b o',
	        one.where(conj(ev(a ^ b), ev(o ^ I_))), sets='A', complete=False)
	yield K('left_complement_dual(y) wedge x, top grade', lambda al, A: al.operator.wedge(al.operator.left_complement_dual(A), A).select_subspace(al.subspace.pseudoscalar()), 'a b o',
	        one.where(conj(ev(a ^ b), ev(o ^ I_))), sets='A', complete=False)

def c07():
	reg = graded('wedge', comp('a'), comp('b'), comp('o')) * RH('a') * RH('b') * RH('o')      # the inverse dual of o carries the sign of dual at its complement
	for nm in ('regressive', 'regressive_product', 'rp'): yield from binary(nm, fop(nm), reg)
	for nm, (v, als) in {'anti_geometric_product': (gp * O2, ['anti_product', 'agp']), 'anti_wedge_product': (graded('wedge'), ['anti_wedge', 'anti_outer']), 'anti_inner_product': (graded('inner'), ['anti_inner']),
	            'anti_scalar_product': (graded('scalar'), ['anti_scalar', 'anti_dot'])}.items():
		for x in [nm] + als: yield from binary(x, fop(x), ANTI(v))
	aw = ANTI(graded('wedge'))
	li = aw.subst({'a': comp('a')}) * LC('a')
	ri = aw.subst({'b': comp('b')}) * RC('b')
	for nm in ('left_interior', 'left_interior_product', 'lip'): yield from binary(nm, fop(nm), li)
	for nm in ('right_interior', 'right_interior_product', 'rip'): yield from binary(nm, fop(nm), ri)
	for nm in ('anti_left_interior', 'anti_left_interior_product'): yield from binary(nm, fop(nm), ANTI(li))
	for nm in ('anti_right_interior', 'anti_right_interior_product'): yield from binary(nm, fop(nm), ANTI(ri))
	yield from binary('cross_product', fop('cross_product'), graded('wedge', 'a', 'b', comp('o')) * RH(comp('o')))
	yield K('dual of the regressive product', lambda al, A, B: al.operator.dual(al.operator.regressive(A, B)), 'a b o', graded('wedge', comp('a'), comp('b'), 'o') * RH('a') * RH('b'), sets='AB')

def chain(*xs):
	v, x = one, w(xs[0])
	for y in xs[1:]:
		v = v * prod(x, y); x = x ^ w(y)
	return v
SYMOPS = dict(squared=one, symmetric_reverse_product=REV('b'), symmetric_involute_product=INV('b'), symmetric_conjugate_product=CNJ('b'), symmetric_study_conjugate_product=SNEG('b'),
              symmetric_scalar_negation_product=SNEG('b'), symmetric_pseudoscalar_negation_product=PNEG('b'))
def c08():
	for k in (2, 3, 4):
		names = 'abcd'[:k]
		yield K(f'symmetry of any kernel, {k} tied arguments', lambda al, A, P, f, k=k: f.symmetry(tuple(range(k))), ' '.join(names) + ' o', fac('f', *names, 'o'),
		        sets='AP', ops=dict(f='A' * k + 'P'), tied=[tuple(range(k))], complete=True)
	yield K('symmetry of arguments 0 and 2', lambda al, A, B, P, f: f.symmetry((0, 2)), 'a b c o', fac('f', 'a', 'b', 'c', 'o'), sets='ABP', ops=dict(f='ABAP'), tied=[(0, 2)])
	yield K('symmetry of arguments 1 and 0', lambda al, A, B, P, f: f.symmetry((1, 0)), 'a b c o', fac('f', 'a', 'b', 'c', 'o'), sets='ABP', ops=dict(f='AABP'), tied=[(0, 1)])
	yield K('symmetry of arguments 1 and 2', lambda al, A, B, P, f: f.symmetry((1, 2)), 'b a c o', fac('f', 'b', 'a', 'c', 'o'), sets='ABP', ops=dict(f='BAAP'), tied=[(1, 2)])
	t2 = dict(sets='A', tied=[(0, 1)])
	for nm, s in SYMOPS.items(): yield K(nm, fop(nm), 'a b o', gp * s * O2, **t2)
	yield K('cubed', fop('cubed'), 'a b c o', chain('a', 'b', 'c') * at('o', 'a', 'b', 'c'), sets='A', tied=[(0, 1, 2)])
	t3, t4 = dict(sets='A', tied=[(0, 1, 2)]), dict(sets='A', tied=[(0, 1, 2, 3)])
	ab, bc, cd = a ^ b, b ^ W('c'), W('c', 'd')
	O3, O4 = at('o', 'a', 'b', 'c'), at('o', 'a', 'b', 'c', 'd')
	p = lambda x, y: prod(x, y) * REV(y)
	for nm, s in (('inverse_factor', CNJ), ('inverse_factor_alt', SNEG)):
		yield K(nm, fop(nm), 'a b c o', REV('a') * p('b', 'c') * s(bc) * prod('a', bc) * O3, modular=True, **t3)
	for nm, s in (('inverse_factor_completed', CNJ), ('inverse_factor_completed_alt', SNEG)):
		yield K(nm, fop(nm), 'a b c d o', p('a', 'b') * p('c', 'd') * s(cd) * prod(ab, cd) * O4, modular=True, **t4)
	yield from sandwiches(('full_sandwich',))
	com = (prod('b', 'c') + prod('c', 'b').scale(-1)).scale(Fraction(1, 2))
	reg = (graded('wedge', comp('a'), comp(bc), comp('o')) * RH('a') * RH(bc) * RH('o'))
	yield K('inertia', fop('inertia'), 'a b c o', com * reg, sets='AB', tied=[(0, 1)], modular=True)

def sandwiches(names):
	full = prod('a', 'b') * prod(a ^ b, 'c') * REV('c') * at('o', 'a', 'b', 'c')
	kept = full.where(exists('u', 'B', grade_eq(['o'], ['u'])))
	rev = REV('a') * prod('a', 'b') * prod(a ^ b, 'c') * at('o', 'a', 'b', 'c')
	rkept = rev.where(exists('u', 'B', grade_eq(['o'], ['u'])))
	par_ = sign(pmul(G(a), G(b)))
	k = dict(sets='AB', tied=[(0, 2)])
	table = dict(full_sandwich=(full, ''), sandwich=(kept, ''), reverse_sandwich=(rkept, ''), transform=(kept * par_, 'A'), inverse_transform=(rkept * par_, 'A'))
	for nm in names: yield K(nm, fop(nm), 'a b c o', table[nm][0], parity=table[nm][1], **k)
def c09():
	yield from sandwiches(('full_sandwich', 'sandwich', 'reverse_sandwich', 'transform', 'inverse_transform'))

def c10():
	f2, f3 = fac('f', 'a', 'b', 'o'), fac('f', 'a', 'b', 'c', 'o')
	def sums(v, *names):
		for x in names: v = v.total(x, TRUE)
		return v
	def k(nm, build, names, spec, **kw): return K(nm, build, names, spec, **kw)
	F = dict(f='PQR')
	yield k('bind both arguments', lambda al, A, B, P, Q, R, f, g, h: f.bind(g, h), 'a b o', sums(fac('f', 'p', 'q', 'o') * fac('g', 'a', 'p') * fac('h', 'b', 'q'), 'p', 'q'), sets='ABPQR', ops=dict(f='PQR', g='AP', h='BQ'))
	yield k('bind by dict', lambda al, A, B, P, Q, R, f, g, h: f.bind({0: g, 1: h}), 'a b o', sums(fac('f', 'p', 'q', 'o') * fac('g', 'a', 'p') * fac('h', 'b', 'q'), 'p', 'q'), sets='ABPQR', ops=dict(f='PQR', g='AP', h='BQ'))
	yield k('bind by dict in another order', lambda al, A, B, P, Q, R, f, g, h: f.bind({1: h, 0: g}), 'a b o', sums(fac('f', 'p', 'q', 'o') * fac('g', 'a', 'p') * fac('h', 'b', 'q'), 'p', 'q'), sets='ABPQR', ops=dict(f='PQR', g='AP', h='BQ'))
	yield k('bind operators of arity 2 and 3', lambda al, A, B, P, Q, R, f, g, h: f.bind(g, h), 'a b c d e o', sums(fac('f', 'p', 'q', 'o') * fac('g', 'a', 'b', 'p') * fac('h', 'c', 'd', 'e', 'q'), 'p', 'q'), sets='ABPQR', ops=dict(f='PQR', g='ABP', h='BABQ'))
	yield k('bind the first argument', lambda al, A, P, Q, R, f, g: f.bind({0: g}), 'a q o', sums(fac('f', 'p', 'q', 'o') * fac('g', 'a', 'p'), 'p'), sets='APQR', ops=dict(f='PQR', g='AP'))
	yield k('bind the second argument', lambda al, A, P, Q, R, f, g: f.bind({1: g}), 'p a o', sums(fac('f', 'p', 'q', 'o') * fac('g', 'a', 'q'), 'q'), sets='APQR', ops=dict(f='PQR', g='AQ'))
	yield k('bind the second argument to arity 2', lambda al, A, B, P, Q, R, f, g: f.bind({1: g}), 'p a b o', sums(fac('f', 'p', 'q', 'o') * fac('g', 'a', 'b', 'q'), 'q'), sets='ABPQR', ops=dict(f='PQR', g='ABQ'))
	yield k('bind the first argument to arity 2', lambda al, A, B, P, Q, R, f, g: f.bind({0: g}), 'a b q o', sums(fac('f', 'p', 'q', 'o') * fac('g', 'a', 'b', 'p'), 'p'), sets='ABPQR', ops=dict(f='PQR', g='ABP'))
	yield k('bind the middle argument of three', lambda al, A, B, P, Q, R, f, g: f.bind({1: g}), 'p a b r o', sums(fac('f', 'p', 'q', 'r', 'o') * fac('g', 'a', 'b', 'q'), 'q'), sets='ABPQR', ops=dict(f='PQRA', g='ABQ'))
	yield k('bind the outer arguments of three', lambda al, A, B, P, Q, R, f, g, h: f.bind({0: g, 2: h}), 'a b q c d o', sums(fac('f', 'p', 'q', 'r', 'o') * fac('g', 'a', 'b', 'p') * fac('h', 'c', 'd', 'r'), 'p', 'r'), sets='ABPQR', ops=dict(f='PQRA', g='ABP', h='BAR'))
	yield k('bind all of three', lambda al, A, B, P, Q, R, f, g, h, e: f.bind(g, h, e), 'a b c o', sums(fac('f', 'p', 'q', 'r', 'o') * fac('g', 'a', 'p') * fac('h', 'b', 'q') * fac('e', 'c', 'r'), 'p', 'q', 'r'), sets='ABPQR', ops=dict(f='PQRA', g='AP', h='BQ', e='AR'))
	yield k('composition of unary operators', lambda al, A, P, Q, f, g: f.bind(g), 'a o', sums(fac('f', 'p', 'o') * fac('g', 'a', 'p'), 'p'), sets='APQ', ops=dict(f='PQ', g='AP'))
	for i in range(3):
		nm = ['p q r'.split()[:i] + ['a', 'b'] + 'p q r'.split()[i + 1:]][0]
		v = 'pqr'[i]
		yield k(f'fuse into argument {i} of three', lambda al, A, B, P, Q, R, f, g, i=i: g.fuse(f, i), ' '.join(nm + ['o']), sums(fac('f', 'p', 'q', 'r', 'o') * fac('g', 'a', 'b', v), v),
		        sets='ABPQR', ops=dict(f='PQRA', g='AB' + 'PQR'[i]))
	yield k('fuse by keyword', lambda al, A, P, Q, R, f, g: g.fuse(f, axis=1), 'p a o', sums(fac('f', 'p', 'q', 'o') * fac('g', 'a', 'q'), 'q'), sets='APQR', ops=dict(f='PQR', g='AQ'))
	for x, y in ((0, 1), (1, 0), (0, 2), (1, 2)):
		nm = list('abc'); nm[x], nm[y] = nm[y], nm[x]
		yield k(f'swapaxes({x}, {y})', lambda al, A, B, C, P, f, x=x, y=y: f.swapaxes(x, y), ' '.join(nm) + ' o', f3, sets='ABCP', ops=dict(f='ABCP'))
	yield k('swap the arguments of two', lambda al, A, B, P, f: f.swapaxes(0, 1), 'b a o', f2, sets='ABP', ops=dict(f='ABP'))
	yield k('slice', lambda al, A, B, C, D_, P, f: f.slice((A.intersection(C), B.intersection(D_))), 'a b o', f2, sets=['A', 'B', 'C', 'D_', 'P'], ops=dict(f='ABP'), complete=False,
	        axes=lambda e: (e['A'].intersection(e['C']), e['B'].intersection(e['D_']), e['P']))
	yield k('slice the first argument', lambda al, A, B, C, P, f: f.slice((A.intersection(C),)), 'a b o', f2, sets='ABCP', ops=dict(f='ABP'), complete=False, axes=lambda e: (e['A'].intersection(e['C']), e['B'], e['P']))
	yield k('operator[subspaces]', lambda al, A, B, C, D_, P, f: f[A.intersection(C), B.intersection(D_)], 'a b o', f2, sets=['A', 'B', 'C', 'D_', 'P'], ops=dict(f='ABP'), complete=False,
	        axes=lambda e: (e['A'].intersection(e['C']), e['B'].intersection(e['D_']), e['P']))
	yield k('slice before and after a product', lambda al, A, B, C: al.operator.product(A, B).slice((A.intersection(C), B)), 'a b o', gp * O2, sets='ABC', complete=False)
	yield k('select_subspace', lambda al, A, B, P, Q, f: f.select_subspace(Q), 'a b o', f2.where(('in', 'Q', o)), sets='ABPQ', ops=dict(f='ABP'), axes=lambda e: (e['A'], e['B'], e['Q']))
	for g in range(4): yield k(f'select_grade({g})', lambda al, A, P, f, g=g: f.select_grade(g), 'a o', fac('f', 'a', 'o').where(grade_is('o', g)), sets='AP', ops=dict(f='AP'), mindim=g)
	yield k('squeeze', lambda al, A, B, P, f: f.squeeze(), 'a b o', f2, sets='ABP', ops=dict(f='ABP'), exact=True)
	yield k('sum of two', lambda al, A, B, P, f, g: f + g, 'a b o', f2 + fac('g', 'a', 'b', 'o'), sets='ABP', ops=dict(f='ABP', g='ABP'), axes=lambda e: (e['A'], e['B'], e['P']))
	yield k('difference of two', lambda al, A, B, P, f, g: f - g, 'a b o', f2 - fac('g', 'a', 'b', 'o'), sets='ABP', ops=dict(f='ABP', g='ABP'))
	yield k('negation', lambda al, A, B, P, f: -f, 'a b o', f2.scale(-1), sets='ABP', ops=dict(f='ABP'))
	yield k('plus', lambda al, A, B, P, f: +f, 'a b o', f2, sets='ABP', ops=dict(f='ABP'))
	for c in (3, -2, 0):
		yield k(f'{c} times', lambda al, A, B, P, f, c=c: c * f, 'a b o', f2.scale(c), sets='ABP', ops=dict(f='ABP'))
		yield k(f'times {c}', lambda al, A, B, P, f, c=c: f * c, 'a b o', f2.scale(c), sets='ABP', ops=dict(f='ABP'))
	yield k('halving a doubled operator', lambda al, A, P, f: (2 * f).div(2), 'a o', fac('f', 'a', 'o'), sets='AP', ops=dict(f='AP'))
	for i in range(3):
		yield k(f'sum over argument {i}', lambda al, A, B, C, P, f, i=i: f.sum(i), ' '.join(x for j, x in enumerate('abc') if j != i) + ' o', sums(f3, 'abc'[i]), sets='ABCP', ops=dict(f='ABCP'))
	for nm, build, spec in (('select', lambda al, P, x: al.operator.select(x, P), at('o', 'a').where(('in', 'P', o))), ('restrict', lambda al, P, x: al.operator.restrict(x, P), at('o', 'a').where(('in', 'P', o)))):
		yield k(nm, lambda al, A, P, build=build: build(al, P, A), 'a o', spec, sets='AP')
		yield k(nm + ' over an operator', lambda al, A, B, Q, P, f, build=build: build(al, P, f), 'a b o', fac('f', 'a', 'b', 'o').where(('in', 'P', o)), sets='ABQP', ops=dict(f='ABQ'))
	P3 = lambda al, x, y: al.operator.product(x, y)
	yield k('product over a product', lambda al, A, B, C, P, f: P3(al, P3(al, A, f), C), 'a b c o', lift(prod('a', 'b') * prod(a ^ b, 'c') * at('o', 'a', 'b', 'c'), 'a b c o', dict(b=('f', 'b'))), sets='ABCP', ops=dict(f='BP'))
	yield k('wedge of a product and an operator', lambda al, A, B, C, P, f: al.operator.wedge(P3(al, A, B), f), 'a b c o',
	        lift(prod('a', 'b') * (gp * O2).where(GRADE['wedge']).subst({'a': a ^ b, 'b': W('c')}), 'a b c o', dict(c=('f', 'c'))), sets='ABCP', ops=dict(f='CP'))

TABLE = dict(C02=c02, C04=c04, C05=c05, C06=c06, C07=c07, C08=c08, C09=c09, C10=c10)

FUNCTIONS = dict(
	C02=['OperatorFactory.' + x for x in 'reverse involute conjugate scalar_negation study_conjugate pseudoscalar_negation identity diagonal degenerate nondegenerate select negatives'.split()],
	C04=['OperatorFactory.make_product', 'OperatorFactory.geometric_product', 'SparseTensor.from_cayley', 'SparseTensor.to_dense', 'Operator.grade_selection', 'Operator.squeeze', 'Operator._build'],
	C05=['OperatorFactory.' + x for x in 'make_product wedge_product inner_product scalar_product left_contraction_product right_contraction_product bivector_product n_product restrict make_commutator commutator_product anti_commutator_product commutator_anti_product anti_commutator_anti_product reverse_product involute_product conjugate_product scalar_negation_product pseudoscalar_negation_product study_conjugate_product anti_reverse_product antify'.split()] + ['Operator.grade_selection', 'Operator.div', 'Operator.swapaxes'],
	C06=['OperatorFactory.' + x for x in '_complement right_complement left_complement right_complement_dual left_complement_dual right_hodge left_hodge right_hodge_inverse left_hodge_inverse unary_inverse negatives'.split()],
	C07=['OperatorFactory.' + x for x in 'antify anti_geometric_product anti_wedge_product anti_inner_product anti_scalar_product left_interior_product right_interior_product anti_left_interior_product anti_right_interior_product regressive_product cross_product'.split()],
	C08=['Operator.symmetry'] + ['OperatorFactory.' + x for x in 'squared cubed symmetric_reverse_product symmetric_involute_product symmetric_conjugate_product symmetric_study_conjugate_product symmetric_scalar_negation_product symmetric_pseudoscalar_negation_product inverse_factor inverse_factor_alt inverse_factor_completed inverse_factor_completed_alt full_sandwich inertia'.split()],
	C09=['OperatorFactory.' + x for x in 'full_sandwich sandwich reverse_sandwich transform inverse_transform'.split()] + ['Operator.grade_selection', 'Operator.symmetry'],
	C10=['Operator.' + x for x in 'build _build bind fuse swapaxes slice __getitem__ select_subspace select_grade squeeze add mul div sum __neg__ __sub__'.split()] + ['OperatorFactory.select', 'OperatorFactory.restrict'])
ENGINE_T = ['engine T (dv/tensor.py): the real methods run on symbolic arrays over arbitrary sets of blades; trusted: its model of the numpy operations used (broadcasting, take, tensordot, moveaxis, diag, sum, any, indexed assignment), its GF(2) normal form of swap parities (S(x^y,z) = S(x,z)+S(y,z), S(x,y)+S(y,x) = |x||y|+|x.y|, S(x,x) = |x|(|x|-1)/2), z3 for the conditions on grades and generators; np.linalg.inv by the contract "exact inverse" on signed permutation matrices',
            'engine T uses the contracts of Algebra.product/cayley/grade/involute/reverse/bit_dot (proved in C01) and of the set operations of SubSpace (proved in C03) in place of their bodies',
            'in engine T integers are mathematical; that no intermediate value leaves 8 bits is a separate obligation (bound on the sum of the absolute coefficients)']
def contracts(pid): return list(TABLE[pid]())
def one_contract(led, pid, lo, hi):
	for c in contracts(pid)[lo:hi]: run(led, pid, c)
def attach(check, pid, size=4):
	cs = contracts(pid)
	for c in cs: check.contract('kernel: ' + c.name, FUNCTIONS[pid], 'ensures, for all sets and signatures, ' + c.doc())
	for lo in range(0, len(cs), size): check.task('one_contract', pid, lo, min(len(cs), lo + size), module=__name__)
	check.trusted += ENGINE_T
