"""Contracts on multivectors, for any subspaces of any algebra and any batch: the real methods of the multivector types, of the contexts and of
the concrete operators run on symbolic arrays (engine T). A multivector x in the set A is an uninterpreted function x(a) that vanishes outside
A; the postcondition gives the coefficient of every blade o of the result, and that the reported subspace contains every blade the
specification can reach."""
from dv.kcontracts import *
from dv.kernels import KM
import dv.kcontracts as KC

def val(spec, **via): return lift(spec, None, {k: (v,) if isinstance(v, str) else v for k, v in via.items()})
X1, X2 = dict(x='A'), dict(x='A', y='B')
def meth(nm, *args): return lambda c, e: getattr(e.x, nm)(*(e[a] for a in args))
def un(nm, spec, fn=None, **k): return KM(nm, fn or meth(nm), val(spec, a='x'), mvs=X1, **k)
def bi(nm, spec, fn=None, **k): return KM(nm, fn or meth(nm, 'y'), val(spec, a='x', b='y'), mvs=X2, **k)
class Same:
	"""the environment in which y is the object x itself"""
	def __init__(self, e): self.e = e
	def __getattr__(self, k): return getattr(self.e, 'x' if k == 'y' else k)
	def __getitem__(self, k): return self.e['x' if k == 'y' else 'A' if k == 'B' else k]
def tied(nm, spec, fn=None, **k):
	f = fn or meth(nm, 'y')
	return KM(nm.replace('y)', 'x)').replace(' y', ' x'), lambda c, e: f(c, Same(e)), val(spec, a='x', b='x'), mvs=X1, **k)
def both(*a, **k): return bi(*a, **k), tied(*a, **k)
same = at('o', 'a')

def m02():
	for nm, s in dict(reverse=REV, involute=INV, conjugate=CNJ, scalar_negation=SNEG, study_conjugate=SNEG, pseudoscalar_negation=PNEG).items(): yield un(f'x.{nm}()', s('a') * same, meth(nm))
	yield un('~x', REV('a') * same, lambda c, e: ~e.x)
	yield un('x.degenerate()', same.where(neg(nul(a, a))), meth('degenerate'))
	yield un('x.nondegenerate()', same.where(nul(a, a)), meth('nondegenerate'))
	yield KM('x.reverse() of a batch', meth('reverse'), val(REV('a') * same, a=('x', 't')), mvs=dict(x='TA'), names='t o', batch='T')

def m04():
	for nm, fn in {'x * y': lambda c, e: e.x * e.y, 'x.product(y)': lambda c, e: e.x.product(e.y)}.items(): yield bi(nm, gp * O2, fn)
	yield KM('x * x', lambda c, e: e.x * e.x, val(gp * O2, a='x', b='x'), mvs=X1)
	yield KM('batched x * y', lambda c, e: e.x * e.y, val(gp * O2, a=('x', 't'), b=('y', 't')), mvs=dict(x='TA', y='TB'), names='t o', batch='T')
	yield KM('x * y, only x batched', lambda c, e: e.x * e.y, val(gp * O2, a=('x', 't'), b='y'), mvs=dict(x='TA', y='B'), names='t o', batch='T')
	yield KM('x * y, batches of rank 1 and 2', lambda c, e: e.x * e.y, val(gp * O2, a=('x', 't'), b=('y', 'u', 't')), mvs=dict(x='TA', y='UTB'), names='u t o', batch='UT')
	abc = prod('a', 'b') * prod(a ^ b, 'c') * at('o', 'a', 'b', 'c')
	m3 = dict(x='A', y='B', z='C')
	yield KM('(x * y) * z', lambda c, e: (e.x * e.y) * e.z, val(abc, a='x', b='y', c='z'), mvs=m3)
	yield KM('x * (y * z)', lambda c, e: e.x * (e.y * e.z), val(abc, a='x', b='y', c='z'), mvs=m3)
	yield KM('x * (y + z)', lambda c, e: e.x * (e.y + e.z), val(gp * O2, a='x', b='y') + val(gp * O2, a='x', b='z'), mvs=m3)
	yield KM('(x + y) * z', lambda c, e: (e.x + e.y) * e.z, val(gp * O2, a='x', b='z') + val(gp * O2, a='y', b='z'), mvs=m3)
	for k, v in {'1 * x': lambda c, e: 1 * e.x, 'x * 1': lambda c, e: e.x * 1, 'x * scalar(1)': lambda c, e: e.x * c.multivector.scalar([1])}.items(): yield KM(k, v, val(same, a='x'), mvs=X1)

def m05():
	t = {'x.wedge(y)': ('wedge', meth('wedge', 'y')), 'x.outer(y)': ('wedge', meth('outer', 'y')), 'x ^ y': ('wedge', lambda c, e: e.x ^ e.y), 'x.inner(y)': ('inner', meth('inner', 'y')), 'x | y': ('inner', lambda c, e: e.x | e.y),
	     'x.scalar_product(y)': ('scalar', meth('scalar_product', 'y')), 'x.left_contract(y)': ('left_contract', meth('left_contract', 'y')), 'x.right_contract(y)': ('right_contract', meth('right_contract', 'y'))}
	for nm, (g, fn) in t.items(): yield from both(nm, graded(g), fn)
	yield from both('x.bivector_product(y)', (gp * O2).where(grade_is('o', 2)), meth('bivector_product', 'y'), mindim=2)
	yield from both('x.trivector_product(y)', (gp * O2).where(grade_is('o', 3)), meth('trivector_product', 'y'), mindim=3)
	v, anti = gp * O2, ANTI(gp * O2)
	half = lambda v, s: (v + v.subst(dict(a=b, b=a)).scale(s)).scale(Fraction(1, 2))
	for nm, q, s in (('commutator', v, -1), ('commutator_product', v, -1), ('anti_commutator', v, 1), ('anti_commutator_product', v, 1), ('commutator_anti', anti, -1), ('commutator_anti_product', anti, -1),
	                 ('anti_commutator_anti', anti, 1), ('anti_commutator_anti_product', anti, 1)): yield from both(f'x.{nm}(y)', half(q, s), meth(nm, 'y'))
	for nm, s in dict(reverse_product=REV, involute_product=INV, conjugate_product=CNJ, scalar_negation_product=SNEG, pseudoscalar_negation_product=PNEG).items(): yield from both(f'x.{nm}(y)', gp * s('b') * O2, meth(nm, 'y'))
	yield from both('x.anti_reverse_product(y)', ANTI(gp * REV('b') * O2), meth('anti_reverse_product', 'y'))

def m06():
	c_ = at('o', 'a', I_)
	yield un('x.dual()', RH('a') * c_, meth('dual'))
	yield un('x.dual_inverse()', RH(comp('a')) * c_, meth('dual_inverse'))
	yield un('x.dual().dual_inverse()', same, lambda c, e: e.x.dual().dual_inverse())
	yield un('x.dual_inverse().dual()', same, lambda c, e: e.x.dual_inverse().dual())

def m07():
	reg = graded('wedge', comp('a'), comp('b'), comp('o')) * RH('a') * RH('b') * RH('o')
	yield from both('x.regressive(y)', reg, meth('regressive', 'y'))
	yield from both('x & y', reg, lambda c, e: e.x & e.y)
	yield from both('x.anti_product(y)', ANTI(gp * O2), meth('anti_product', 'y'))
	yield from both('x.anti_wedge(y)', ANTI(graded('wedge')), meth('anti_wedge', 'y'))
	yield from both('x.anti_inner(y)', ANTI(graded('inner')), meth('anti_inner', 'y'))
	yield from both('x.cross(y)', graded('wedge', 'a', 'b', comp('o')) * RH(comp('o')), meth('cross', 'y'))

def m08():
	for nm, s in dict(squared=one, symmetric_reverse_product=REV('b'), symmetric_involute_product=INV('b'), symmetric_conjugate_product=CNJ('b'), symmetric_scalar_negation_product=SNEG('b'),
	                  symmetric_pseudoscalar_negation_product=PNEG('b')).items():
		yield KM(f'x.{nm}()', meth(nm), val(gp * s * O2, a='x', b='x'), mvs=X1)
	p = lambda x, y: prod(x, y) * REV(y)
	bc = b ^ W('c')
	yield KM('x.inverse_factor()', meth('inverse_factor'), val(REV('a') * p('b', 'c') * CNJ(bc) * prod('a', bc) * at('o', 'a', 'b', 'c'), a='x', b='x', c='x'), mvs=X1, modular=True)

def m09():
	full = prod('a', 'b') * prod(a ^ b, 'c') * REV('c') * at('o', 'a', 'b', 'c')
	rev = REV('a') * prod('a', 'b') * prod(a ^ b, 'c') * at('o', 'a', 'b', 'c')
	kept = lambda v: lambda B: v.where(exists('u', B, grade_eq(['o'], ['u'])))
	par_ = sign(pmul(G(a), G(b)))
	v3 = lambda s, y='y': val(s, a='x', b=y, c='x')
	for nm, (s, fn, pa) in {'x.full_sandwich(y)': (lambda B: full, meth('full_sandwich', 'y'), ''), 'x.sandwich(y)': (kept(full), meth('sandwich', 'y'), ''), 'x >> y': (kept(full), lambda c, e: e.x >> e.y, ''),
	                    'x.reverse_sandwich(y)': (kept(rev), meth('reverse_sandwich', 'y'), ''), 'x << y': (kept(rev), lambda c, e: e.x << e.y, ''),
	                    'x.transform(y)': (lambda B: kept(full)(B) * par_, meth('transform', 'y'), 'A'), 'x.reverse_transform(y)': (lambda B: kept(rev)(B) * par_, meth('reverse_transform', 'y'), 'A')}.items():
		yield KM(nm, fn, v3(s('B')), mvs=X2, parity=pa)
		yield KM(nm.replace('y', 'x'), lambda c, e, fn=fn: fn(c, Same(e)), v3(s('A'), 'x'), mvs=X1, parity=pa)
	yield KM('x.sandwich_map(B) applied to y', lambda c, e: e.x.sandwich_map(e.B)(e.y), v3(kept(full)('B')), mvs=X2)

def m12():
	add = lambda v, s: val(same, a='x').scale(v) + val(at('o', 'b'), b='y').scale(s)
	f = dict(x='A', y='B')
	for nm, fn, p, q in (('x + y', lambda c, e: e.x + e.y, 1, 1), ('x - y', lambda c, e: e.x - e.y, 1, -1), ('y - x', lambda c, e: e.y - e.x, -1, 1)):
		yield KM(nm, fn, add(p, q), mvs=X2, axes=lambda e: (e['A'].union(e['B']),))
	yield KM('x + x', lambda c, e: e.x + e.x, val(same, a='x').scale(2), mvs=X1, axes=lambda e: (e['A'],))
	yield KM('x + y in the same set', lambda c, e: e.x - e.y, val(same, a='x') - val(same, a='y'), mvs=dict(x='A', y='A'), axes=lambda e: (e['A'],))
	t = lambda v: v
	bt = lambda s: val(same, a=('x', 't')) + val(same, a=('y', 't')).scale(s)
	yield KM('batched x - y', lambda c, e: e.x - e.y, bt(-1), mvs=dict(x='TA', y='TB'), names='t o', batch='T')
	yield KM('x + y, batches of rank 1 and 2', lambda c, e: e.x + e.y, val(same, a=('x', 't')) + val(same, a=('y', 'u', 't')), mvs=dict(x='TA', y='UTB'), names='u t o', batch='UT')
	yield un('-x', same.scale(-1), lambda c, e: -e.x, axes=lambda e: (e['A'],))
	yield un('+x', same, lambda c, e: +e.x, axes=lambda e: (e['A'],))
	sx, ss = val(same, a='x'), lambda k: fac('s').where(ev(W('o'))).scale(k)
	U = lambda e: (e['A'].union(e['A'].algebra.subspace.scalar()),)
	for nm, fn, v in (('x + s', lambda c, e: e.x + e.s, sx + ss(1)), ('s + x', lambda c, e: e.s + e.x, sx + ss(1)), ('x - s', lambda c, e: e.x - e.s, sx + ss(-1)), ('s - x', lambda c, e: e.s - e.x, ss(1) - sx)):
		yield KM(nm, fn, v, mvs=X1, numbers='s', axes=U)
	num = lambda k: Val.term(k, cond=ev(W('o')))
	for nm, fn, v in (('x + 3', lambda c, e: e.x + 3, sx + num(3)), ('3 + x', lambda c, e: 3 + e.x, sx + num(3)), ('x - 5', lambda c, e: e.x - 5, sx - num(5)), ('3 - x', lambda c, e: 3 - e.x, num(3) - sx)):
		yield KM(nm, fn, v, mvs=X1, axes=U)
	own = dict(axes=lambda e: (e['A'],))
	for nm, fn, v in (('x * s', lambda c, e: e.x * e.s, sx * fac('s')), ('s * x', lambda c, e: e.s * e.x, sx * fac('s'))): yield KM(nm, fn, v, mvs=X1, numbers='s')
	for nm, fn, v in (('x * 3', lambda c, e: e.x * 3, sx.scale(3)), ('-2 * x', lambda c, e: -2 * e.x, sx.scale(-2)), ('x / 4', lambda c, e: e.x / 4, sx.scale(Fraction(1, 4)))): yield KM(nm, fn, v, mvs=X1)
	yield KM('x / s', lambda c, e: e.x / e.s, sx * fac('1/s'), mvs=X1, numbers='s', **own)
	yield KM('x / y with y scalar', lambda c, e: e.x / (e.y.select[0]) if False else e.x / c.multivector.scalar(e.s.arr[..., None] if hasattr(e.s, 'arr') else [e.s]), sx * fac('1/s'), mvs=X1, numbers='s', **own)
	sel = lambda m: val(same, a='x').where(m)
	inn = lambda s: ('in', s, o)
	sets = {'select_subspace(P)': (lambda c, e: e.x.select_subspace(e.P), inn('P'), lambda e: (e['P'],)), 'restrict_subspace(P)': (lambda c, e: e.x.restrict_subspace(e.P), inn('P'), lambda e: (e['A'].intersection(e['P']),))}
	for nm, (fn, m, ax) in sets.items(): yield KM('x.' + nm, fn, sel(m), mvs=X1, sets='P', axes=ax, complete=False)
	fix = {'even_grade()': (lambda n: n.even_grade(), neg(par(G(o))), lambda s: s.even_grade()), 'vector()': (lambda n: n.vector(), grade_is('o', 1), lambda s: s.vector()), 'pseudoscalar()': (lambda n: n.pseudoscalar(), ev(o ^ I_), lambda s: s.pseudoscalar()),
	       'full()': (lambda n: n.full(), TRUE, lambda s: s.full()), 'scalar()': (lambda n: n.scalar(), ev(o), lambda s: s.scalar()), 'nondegenerate()': (lambda n: n.nondegenerate(), nul(o, o), lambda s: s.nondegenerate()),
	       'degenerate()': (lambda n: n.degenerate(), neg(nul(o, o)), lambda s: s.degenerate()), 'odd_grade()': (lambda n: n.odd_grade(), par(G(o)), lambda s: s.odd_grade())}
	for nm, (fn, m, s) in fix.items():
		yield KM('x.select.' + nm, lambda c, e, fn=fn: fn(e.x.select), sel(m), mvs=X1, axes=lambda e, s=s: (s(e['A'].algebra.subspace),), complete=False)
		yield KM('x.restrict.' + nm, lambda c, e, fn=fn: fn(e.x.restrict), sel(m), mvs=X1, axes=lambda e, s=s: (s(e['A'].algebra.subspace).intersection(e['A']),), complete=False)
	for k in range(4):
		m, ax = grade_is('o', k), lambda e, k=k: (e['A'].algebra.subspace.k_vector(k),)
		ar = lambda e, k=k: (e['A'].intersection(e['A'].algebra.subspace.k_vector(k)),)
		for nm, fn in ((f'select[{k}]', lambda c, e, k=k: e.x.select[k]), (f'select_grade({k})', lambda c, e, k=k: e.x.select_grade(k)), (f'select.k_vector({k})', lambda c, e, k=k: e.x.select.k_vector(k))):
			yield KM('x.' + nm, fn, sel(m), mvs=X1, axes=ax, mindim=k, complete=False)
		for nm, fn in ((f'restrict[{k}]', lambda c, e, k=k: e.x.restrict[k]), (f'restrict_grade({k})', lambda c, e, k=k: e.x.restrict_grade(k)), (f'restrict.k_vector({k})', lambda c, e, k=k: e.x.restrict.k_vector(k))):
			yield KM('x.' + nm, fn, sel(m), mvs=X1, axes=ar, mindim=k, complete=False)
	gs = disj(grade_is('o', 1), grade_is('o', 2))
	yield KM('x.select[1, 2]', lambda c, e: e.x.select[1, 2], sel(gs), mvs=X1, axes=lambda e: (e['A'].algebra.subspace.from_grades([1, 2]),), mindim=2, complete=False)
	yield KM('x.restrict[1, 2]', lambda c, e: e.x.restrict[1, 2], sel(gs), mvs=X1, axes=lambda e: (e['A'].algebra.subspace.from_grades([1, 2]).intersection(e['A']),), mindim=2, complete=False)

STRATEGIES = ['numpy:NumpyEinsumOperator', 'jax:JaxEinsumOperator', 'jax:JaxDenseOperator', 'torch:TorchEinsumOperator', 'torch:TorchDenseOperator']
def con(f, *vs, **b):
	"""contraction of the kernel f over the arguments vs with the values x, y, z; b: batch variables of each"""
	r = fac(f, *vs, 'o')
	for v, x in zip(vs, 'xyz'): r = r * fac(x, *b.get(x, ()), v)
	for v in vs: r = r.total(v, TRUE)
	return r
def m11():
	for st in STRATEGIES:
		ap = lambda c, e: c.operator(e.f)(*(e[x] for x in 'xyz' if x in e))
		k = dict(backend=st, axes=lambda e: (e['P'],))
		nm = st.split(':')[1]
		yield KM(f'{nm}: unary', ap, con('f', 'a'), mvs=dict(x='A'), ops=dict(f='AP'), **k)
		yield KM(f'{nm}: binary', ap, con('f', 'a', 'b'), mvs=dict(x='A', y='B'), ops=dict(f='ABP'), **k)
		yield KM(f'{nm}: ternary', ap, con('f', 'a', 'b', 'c'), mvs=dict(x='A', y='B', z='C'), ops=dict(f='ABCP'), **k)
		yield KM(f'{nm}: arguments in the same set', ap, con('f', 'a', 'b'), mvs=dict(x='A', y='A'), ops=dict(f='AAA'), backend=st, axes=lambda e: (e['A'],))
		k = dict(backend=st, axes=lambda e: (e['T'], e['P']), names='t o', batch='T')
		yield KM(f'{nm}: unary on a batch', ap, con('f', 'a', x='t'), mvs=dict(x='TA'), ops=dict(f='AP'), **k)
		yield KM(f'{nm}: binary on batches', ap, con('f', 'a', 'b', x='t', y='t'), mvs=dict(x='TA', y='TB'), ops=dict(f='ABP'), **k)
		yield KM(f'{nm}: binary, second argument batched', ap, con('f', 'a', 'b', y='t'), mvs=dict(x='A', y='TB'), ops=dict(f='ABP'), **k)
		k = dict(backend=st, axes=lambda e: (e['U'], e['T'], e['P']), names='u t o', batch='UT')
		yield KM(f'{nm}: binary, batches of rank 1 and 2', ap, con('f', 'a', 'b', x='t', y='ut'), mvs=dict(x='TA', y='UTB'), ops=dict(f='ABP'), **k)
		yield KM(f'{nm}: ternary, batches of rank 2, 0 and 1', ap, con('f', 'a', 'b', 'c', x='ut', z='t'), mvs=dict(x='UTA', y='B', z='TC'), ops=dict(f='ABCP'), **k)

def m21():
	for st in ('numpy:NumpyEinsumOperator', 'jax:JaxEinsumOperator', 'torch:TorchEinsumOperator', 'jax:JaxDenseOperator', 'torch:TorchDenseOperator', 'numpy:NumpySparseOperator', 'jax:JaxSparseOperator', 'torch:TorchSparseOperator'):
		nm = st.split(':')[1]
		F2, F3 = dict(f='ABP'), dict(f='ABCP')
		P = dict(axes=lambda e: (e['P'],), backend=st)
		xy, xyz = dict(x='A', y='B'), dict(x='A', y='B', z='C')
		yield KM(f'{nm}: partial of the first argument', lambda c, e: c.operator(e.f).partial({0: e.x}), fac('f', 'a', 'b', 'o').__mul__(fac('x', 'a')).total('a', TRUE), mvs=dict(x='A'), ops=F2, names='b o', backend=st, axes=lambda e: (e['B'], e['P']))
		yield KM(f'{nm}: partial of the second argument', lambda c, e: c.operator(e.f).partial({1: e.x}), fac('f', 'a', 'b', 'o').__mul__(fac('x', 'b')).total('b', TRUE), mvs=dict(x='B'), ops=F2, names='a o', backend=st, axes=lambda e: (e['A'], e['P']))
		two = {'first, then the second': lambda o, e: o.partial({0: e.x})(e.y), 'second, then the first': lambda o, e: o.partial({1: e.y})(e.x), 'both by partial': lambda o, e: o.partial({0: e.x}).partial({0: e.y}), 'both at once': lambda o, e: o.partial({0: e.x, 1: e.y}),
		       'both at once, other order': lambda o, e: o.partial({1: e.y, 0: e.x})}
		for w_, fn in two.items(): yield KM(f'{nm}: {w_}', lambda c, e, fn=fn: fn(c.operator(e.f), e), con('f', 'a', 'b'), mvs=xy, ops=F2, **P)
		three = {'0 | 12': lambda o, e: o.partial({0: e.x})(e.y, e.z), '1 | 02': lambda o, e: o.partial({1: e.y})(e.x, e.z), '2 | 01': lambda o, e: o.partial({2: e.z})(e.x, e.y), '02 | 1': lambda o, e: o.partial({0: e.x, 2: e.z})(e.y),
		         '20 | 1': lambda o, e: o.partial({2: e.z, 0: e.x})(e.y), '12 | 0': lambda o, e: o.partial({1: e.y, 2: e.z})(e.x), '01 | 2': lambda o, e: o.partial({0: e.x, 1: e.y})(e.z), '1 | 2 | 0': lambda o, e: o.partial({1: e.y}).partial({1: e.z})(e.x)}
		for w_, fn in three.items(): yield KM(f'{nm}: three arguments, {w_}', lambda c, e, fn=fn: fn(c.operator(e.f), e), con('f', 'a', 'b', 'c'), mvs=xyz, ops=F3, **P)
		bt = dict(backend=st, names='t o', batch='T', axes=lambda e: (e['T'], e['P']))
		yield KM(f'{nm}: batched first argument bound first', lambda c, e: c.operator(e.f).partial({0: e.x})(e.y), con('f', 'a', 'b', x='t'), mvs=dict(x='TA', y='B'), ops=F2, **bt)
		yield KM(f'{nm}: both batched, bound in turn', lambda c, e: c.operator(e.f).partial({0: e.x})(e.y), con('f', 'a', 'b', x='t', y='t'), mvs=dict(x='TA', y='TB'), ops=F2, **bt)
		yield KM(f'{nm}: both batched, second bound first', lambda c, e: c.operator(e.f).partial({1: e.y})(e.x), con('f', 'a', 'b', x='t', y='t'), mvs=dict(x='TA', y='TB'), ops=F2, **bt)
		yield KM(f'{nm}: batches of rank 1 and 2, bound in turn', lambda c, e: c.operator(e.f).partial({0: e.x})(e.y), con('f', 'a', 'b', x='t', y='ut'), mvs=dict(x='TA', y='UTB'), ops=F2, backend=st, names='u t o', batch='UT', axes=lambda e: (e['U'], e['T'], e['P']))
		tot = con('f', 'a', 'b', x='t')
		yield KM(f'{nm}: sum of a map over its batch', lambda c, e: c.operator(e.f).partial({0: e.x}).sum(0)(e.y), tot.total('t', ('in', 'T', W('t'))), mvs=dict(x='TA', y='B'), ops=F2, **P)
	yield KM('numpy: call with a subspace as argument', lambda c, e: c.operator(e.f)(e.x, e.B)(e.y), con('f', 'a', 'b'), mvs=dict(x='A', y='B'), ops=dict(f='ABP'), axes=lambda e: (e['P'],))
	yield KM('numpy: transposed map', lambda c, e: c.operator(e.f).transpose(), fac('f', 'b', 'a'), mvs={}, ops=dict(f='AB'), names='a b', axes=lambda e: (e['B'], e['A']))
	for be in ('numpy', 'jax', 'torch'):
		yield KM(f'{be}: sum over the first batch axis', lambda c, e: e.x.sum(0), fac('x', 't', 'u', 'o').total('t', ('in', 'T', W('t'))), mvs=dict(x='TUA'), names='u o', batch='U', backend=be, axes=lambda e: (e['U'], e['A']))
		yield KM(f'{be}: sum over the second batch axis', lambda c, e: e.x.sum(1), fac('x', 't', 'u', 'o').total('u', ('in', 'U', W('u'))), mvs=dict(x='TUA'), names='t o', batch='T', backend=be, axes=lambda e: (e['T'], e['A']))

TABLE = dict(C02=m02, C04=m04, C05=m05, C06=m06, C07=m07, C08=m08, C09=m09, C11=m11, C12=m12, C21=m21)

MV = 'AbstractMultiVector.'
FUNCTIONS = dict(
	C02=[MV + x for x in 'reverse involute conjugate scalar_negation study_conjugate pseudoscalar_negation __invert__ degenerate nondegenerate'.split()],
	C04=[MV + x for x in 'product __mul__ __rmul__ __add__'.split()] + ['NumpyEinsumOperator.__call__', 'NumpyOperator.broadcast_allocate'],
	C05=[MV + x for x in 'wedge outer __xor__ inner __or__ scalar_product left_contract right_contract bivector_product trivector_product commutator commutator_product commutator_anti anti_commutator anti_commutator_product anti_commutator_anti reverse_product involute_product conjugate_product anti_reverse_product'.split()] + ['OperatorFactory', 'NumpyEinsumOperator.__call__'],
	C06=[MV + x for x in 'dual dual_inverse'.split()],
	C07=[MV + x for x in 'anti_product regressive __and__ cross anti_wedge anti_inner'.split()],
	C08=[MV + x for x in 'squared symmetric_reverse_product symmetric_involute_product symmetric_conjugate_product symmetric_scalar_negation_product symmetric_pseudoscalar_negation_product inverse_factor'.split()],
	C09=[MV + x for x in 'full_sandwich sandwich reverse_sandwich transform reverse_transform sandwich_map __rshift__ __lshift__'.split()],
	C11=[f'{b}{s}.__call__' for b in ('Numpy', 'Jax', 'Torch') for s in ('EinsumOperator', 'DenseOperator') if (b, s) != ('Numpy', 'DenseOperator')] + ['AbstractConcreteOperator.precompute_einsum', 'AbstractConcreteOperator.precompute_einsum_partial'],
	C12=[MV + x for x in '__add__ __sub__ __rsub__ __neg__ __pos__ __mul__ __rmul__ __truediv__ select_subspace restrict_subspace select_grade restrict_grade'.split()] + ['SelectNamespace', 'RestrictNamespace', 'AbstractContext.coerce_array'],
	C21=[f'{b}Operator.{m}' for b in ('Numpy', 'Jax', 'Torch') for m in ('partial', 'sum', '__call__')] + ['NumpyOperator.transpose', 'AbstractConcreteOperator.precompute_einsum_partial', MV + 'sum'])
ENGINE_M = ['engine T on multivectors: a multivector is an uninterpreted function of the blade (and of the batch index); its values and all numbers are exact reals (no rounding, dtype or device); einsum, broadcasting and (de)allocation of arrays by the engine\'s model; jax.numpy and torch are assumed to compute what the numpy functions of the same name do; jax.jit is replaced by the wrapped function']
def contracts(pid): return list(TABLE[pid]())
def one_contract(led, pid, lo, hi):
	for c in contracts(pid)[lo:hi]: run(led, pid, c, 'multivector: ' + c.name)
def attach(check, pid, size=6):
	cs = contracts(pid)
	for c in cs: check.contract('multivector: ' + c.name, FUNCTIONS[pid], 'ensures, for all sets, signatures and coefficients, ' + c.doc())
	for lo in range(0, len(cs), size): check.task('one_contract', pid, lo, min(len(cs), lo + size), module=__name__)
	check.trusted += [x for x in KC.ENGINE_T + ENGINE_M if x not in check.trusted]
