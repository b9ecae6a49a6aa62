from dv.core import *
from dv.families import *

MOD = __name__


def canon(blades):
	return order(set(int(b) for b in blades))

def bl(V):
	return [int(b) for b in V.blades]

def same(led, contract, V, want, what):
	"""V denotes exactly `want`: canonical order, no repetition, and it is *the* object for that set"""
	w = canon(want)
	good = bl(V) == w and V is V.algebra.subspace.from_blades(w)
	led.enum(contract, good, f'{what} in {V.algebra.description.description_str} gives blades {bl(V)}, expected {w}' + ('' if bl(V) != w else ' (not the canonical object)'))


def construct(led, sig, sets, seed):
	alg = algebra(sig)
	f = alg.subspace
	r = rng('c03', sig, seed)
	n = len(sig)
	for S in sets:
		w = canon(S)
		V = f.from_blades(np.array(w, dtype=alg.blade_dtype))
		led.enum('canonical', bl(V) == w, f'from_blades({w}) in {sig} has blades {bl(V)}')
		for _ in range(3):
			p = list(w)
			r.shuffle(p)
			arr = r.choice([lambda: p, lambda: np.array(p, dtype=np.int64), lambda: np.array(p, dtype=alg.blade_dtype), lambda: tuple(p)])()
			same(led, 'canonical', f.from_blades(arr), w, f'from_blades({p})')
		led.enum('canonical', [order([b])[0] for b in w] == w and [int(g) for g in V.grades()] == [popcount(b) for b in w], f'grades of {w} in {sig}')
		gs = {popcount(b) for b in w}
		if len(gs) == 1:
			led.enum('canonical', int(V.grade()) in gs, f'grade() of {w}')
		elif len(gs) > 1:
			try:
				V.grade(); ok = False
			except Exception:
				ok = True
			led.enum('canonical', ok, f'grade() of mixed {w} does not raise')
		if w:
			same(led, 'canonical', f.from_bit_str(','.join(''.join('1' if b >> i & 1 else '0' for i in range(n)) for b in r.sample(w, len(w)))), w, 'from_bit_str')
			if 0 not in w:
				names = alg.description.basis_names
				same(led, 'canonical', getattr(f, '_'.join(''.join(names[i] for i in range(n) if b >> i & 1) for b in r.sample(w, len(w)))), w, 'named construction')
		# immutability: neither the caller's array nor V.blades is a door into V
		src = np.array(w, dtype=alg.blade_dtype)
		U = f.from_blades(src)
		if len(src):
			src[0] ^= 1
			src[:] = 0
		led.enum('immutable', bl(U) == w, f'mutating the source array of {w} changed the subspace to {bl(U)}')
		if w:
			try:
				U.blades[0] = 0
				ok = False
			except ValueError:
				ok = True
			led.enum('immutable', ok, f'blades of {w} are writable')
		led.enum('canonical', len(V) == len(w) and V.is_blade == (len(w) == 1) and hash(V) == hash(U) and V == U and V is U and V.subspace is V, f'len/is_blade/hash of {w}')


def set_algebra(led, sig, pairs):
	alg = algebra(sig)
	f = alg.subspace
	n = len(sig)
	I = (1 << n) - 1
	null = sum(1 << i for i in range(n) if sig[i] == 0)
	for A, B in pairs:
		V, W = f.from_blades(A), f.from_blades(B)
		a, b = set(A), set(B)
		for nm, got, want in (
			('union', V.union(W), a | b), ('intersection', V.intersection(W), a & b), ('difference', V.difference(W), a - b),
			('select_subspace', V.select_subspace(W), b), ('restrict_subspace', V.restrict_subspace(W), a & b),
			('select(W)', V.select(W), b), ('restrict(W)', V.restrict(W), a & b),
			('complement', V.complement(), {x ^ I for x in a}), ('dual', V.dual(), {x ^ I for x in a}),
			('degenerate', V.degenerate(), {x for x in a if x & null}), ('nondegenerate', V.nondegenerate(), {x for x in a if not x & null}),
			('scalar_degenerate', V.scalar_degenerate(), {0} | {x for x in a if x & null}),
		):
			same(led, 'set operations', got, want, f'{nm} of {A}, {B}')
		for nm, got, want in (
			('is_subspace', V.is_subspace(W), a <= b), ('in', V in W, a <= b), ('inside()', V.inside(W), a <= b),
			('equals()', V.equals(W), a == b), ('==', V == W, a == b), ('!=', V != W, a != b),
			('is_degenerate', V.is_degenerate, all(x & null for x in a)), ('is_empty', V.is_empty, not a),
			('in_even', V.in_even, all(popcount(x) % 2 == 0 for x in a)), ('in_odd', V.in_odd, all(popcount(x) % 2 for x in a)),
			('is_even', V.is_even, a == {x for x in range(I + 1) if popcount(x) % 2 == 0}),
			('is_odd', V.is_odd, a == {x for x in range(I + 1) if popcount(x) % 2}),
			('in_self_reverse', V.in_self_reverse, all(popcount(x) % 4 < 2 for x in a)),
			('is_degenerate_scalar', V.is_degenerate_scalar, a == {0} | {x for x in a if x & null}),
			('inside.scalar', V.inside.scalar(), a <= {0}), ('inside.vector', V.inside.vector(), all(popcount(x) == 1 for x in a)),
			('equals.pseudoscalar', V.equals.pseudoscalar(), a == {I}), ('equals.empty', V.equals.empty(), not a),
			('inside.degenerate', V.inside.degenerate(), all(x & null for x in a)), ('inside.even_grade', V.inside.even_grade(), all(popcount(x) % 2 == 0 for x in a)),
		):
			led.enum('predicates', bool(got) == want, f'{nm} of {A}, {B} in {sig} is {got}')
		for g in range(n + 1):
			G = {x for x in range(I + 1) if popcount(x) == g}
			same(led, 'select and restrict', V.select[g], G, f'select[{g}] of {A}')
			same(led, 'select and restrict', V.restrict[g], a & G, f'restrict[{g}] of {A}')
			same(led, 'select and restrict', V.restrict[[g, n - g]] if g * 2 != n else V.restrict[[g]], {x for x in a if popcount(x) in (g, n - g)}, f'restrict[[{g},{n-g}]] of {A}')
			led.enum('predicates', V.inside.k_vector(g) == (a <= G) and V.equals.k_vector(g) == (a == G), f'inside/equals.k_vector({g}) of {A}')
		for X in ([1], [I], sorted(b - {0})[:3]):
			if not X or 0 in X: continue
			nm, X = '_'.join(''.join(NAMES[i] for i in range(n) if x >> i & 1) for x in X), set(X)
			same(led, 'select and restrict', getattr(V.select, nm), X, f'select.{nm} of {A}')
			same(led, 'select and restrict', getattr(V.restrict, nm), a & X, f'restrict.{nm} of {A}')
			led.enum('predicates', getattr(V.inside, nm) == (a <= X) and getattr(V.equals, nm) == (a == X), f'inside/equals.{nm} of {A}')
		same(led, 'select and restrict', V.select.pseudoscalar(), {I}, f'select.pseudoscalar of {A}')
		same(led, 'select and restrict', V.restrict.even_grade(), {x for x in a if popcount(x) % 2 == 0}, f'restrict.even_grade of {A}')
		same(led, 'select and restrict', V.restrict.nondegenerate(), {x for x in a if not x & null}, f'restrict.nondegenerate of {A}')
		if a:
			idx = list(range(0, len(V), 2))
			same(led, 'set operations', V.slice_subspace(idx), [bl(V)[i] for i in idx], f'slice_subspace({idx}) of {A}')
			back = V.to_relative_indices(V.slice_subspace(idx).blades)
			led.enum('set operations', [bl(V)[int(i)] for i in back] == [bl(V)[i] for i in idx], f'to_relative_indices of {A}')
			led.enum('set operations', V.bit_blades().T.tolist() == [[x >> i & 1 for i in range(n)] for x in bl(V)] if V.bit_blades().shape == (n, len(a)) else
			         V.bit_blades().tolist() == [[x >> i & 1 for i in range(n)] for x in bl(V)], f'bit_blades of {A}')
		p = V.pretty_str
		if p:
			kind, nm = p.split('_', 1)
			X = set(bl(getattr(f, nm)()))
			led.enum('predicates', a == X if kind == 'is' else a <= X, f'label {p} of {A} in {sig}')


def named(led, sig):
	alg = algebra(sig)
	f = alg.subspace
	n = len(sig)
	N = range(1 << n)
	null = sum(1 << i for i in range(n) if sig[i] == 0)
	g = lambda *gs: {b for b in N if popcount(b) in gs}
	pos, s = lambda k: k, spec(sig)
	want = dict(scalar=g(0), vector=g(1), pseudoscalar=g(n), antiscalar=g(n), antivector=g(n - 1), scalar_pseudoscalar=g(0, n),
	            nonscalar=g(*range(1, n + 1)), multivector=set(N), full=set(N), empty=set(), even_grade=g(*range(0, n + 1, 2)), motor=g(*range(0, n + 1, 2)),
	            self_involute=g(*range(0, n + 1, 2)), odd_grade=g(*range(1, n + 1, 2)), self_reverse={b for b in N if popcount(b) % 4 < 2}, mod4={b for b in N if popcount(b) % 4 == 0},
	            degenerate={b for b in N if b & null}, scalar_degenerate={0} | {b for b in N if b & null}, nondegenerate={b for b in N if not b & null},
	            rotor={b for b in N if popcount(b) % 2 == 0 and not b & null})
	for k, nm in ((2, 'bivector'), (3, 'trivector'), (4, 'quadvector')):
		if n >= k:
			want[nm] = g(k)
	for k, nm in ((2, 'antibivector'), (3, 'antitrivector'), (4, 'antiquadvector')):
		if n >= k:
			want[nm] = g(n - k)
	refl = {0}
	reach = [refl]
	for k in range(1, 5):
		refl = {a ^ b for a in refl for b in g(1) if s.blade_mul(a, b)[0]}
		reach.append(refl)
	for k, nm in ((1, 'reflection'), (2, 'bireflection'), (3, 'trireflection'), (4, 'quadreflection')):
		want[nm] = reach[k]
		same(led, 'named constructors', f.k_reflection(k), reach[k], f'k_reflection({k})')
	if n >= 2:
		want['translator'] = reach[2] - {b for b in g(2) if not b & null}
	for nm, w in want.items():
		same(led, 'named constructors', getattr(f, nm)(), w, nm + '()')
	for k in range(-(n + 1), n + 1):
		same(led, 'named constructors', f.k_vector(k), g(k % (n + 1)), f'k_vector({k})')
	for i in range(n):
		same(led, 'named constructors', f.basis()[i], {1 << i}, f'basis()[{i}]')
	led.enum('named constructors', len(f.basis()) == n, 'number of basis subspaces')
	r = rng('named', sig)
	for _ in range(4):
		gs = r.sample(range(n + 1), r.randint(1, n + 1))
		same(led, 'named constructors', f.from_grades(gs), g(*gs), f'from_grades({gs})')
	for b in ([r.randrange(1 << n) for _ in range(6)]):
		same(led, 'named constructors', f.blade(b), {b}, f'blade({b})')


def pool(led, sig, k):
	"""histories: after any sequence of operations, every pooled object still is the canonical one for its key"""
	r = rng('pool', sig, k)
	alg = Algebra(''.join(NAMES[i] + SIGN[s] for i, s in enumerate(sig)))
	f = alg.subspace
	n = len(sig)
	objs = [f.vector(), f.scalar(), f.multivector()]
	model = {}
	for step in range(60):
		V, W = r.choice(objs), r.choice(objs)
		op = r.choice(['union', 'intersection', 'difference', 'complement', 'product', 'squared', 'degenerate', 'new', 'wedge', 'symmetric_reverse', 'slice'])
		if op in ('union', 'intersection', 'difference', 'product', 'wedge'):
			X = getattr(V, op)(W)
		elif op == 'new':
			p = random_subset(r, n, nonempty=False)
			r.shuffle(p)
			X = f.from_blades(p)
		elif op == 'slice':
			X = V.slice_subspace(sorted(r.sample(range(len(V)), len(V) // 2)))
		else:
			X = getattr(V, op)()
		objs.append(X)
		key = tuple(bl(X))
		led.enum('one object per set', key == tuple(canon(key)) and model.setdefault(key, X) is X, f'history {k}: {op} produced a second or unordered object for {key}')
	led.enum('one object per set', all(tuple(bl(X)) == key for key, X in model.items()), f'history {k}: the blades of a pooled subspace changed')
	other = Algebra(''.join(NAMES[i] + SIGN[s] for i, s in enumerate(sig)))
	led.enum('one object per set', other.subspace.vector() != f.vector(), 'subspaces of distinct algebra objects are kept apart')


def deduction(led, what):
	"""engine S: the bodies of the set-valued methods, for every set, signature and dimension"""
	from dv import sets
	dict(lemmas=lambda: sets.lemmas(led, 'blade lemmas'), methods=lambda: (sets.set_methods(led), sets.slices(led)), predicates=lambda: sets.set_predicates(led, 'predicates'),
	     namespaces=lambda: sets.namespaces(led), constructors=lambda: sets.constructors(led, 'named constructors'), pool=lambda: sets.flyweight(led))[what]()
	if led.open:       # something is not proved for every algebra: look for a failing one beyond the enumerated dimensions
		r = rng('c03 beyond', what)
		for n in (8, 9, 11, 12, 13):
			sig = random_sig(r, n)
			S = [sorted({r.randrange(1 << n) for _ in range(8)}) for _ in range(5)] + [[0], [(1 << n) - 1], [1 << n - 1, 0]]
			construct(led, sig, S, 3)
			set_algebra(led, sig, [(r.choice(S), r.choice(S)) for _ in range(4)])
			named(led, sig)


def main():
	ch = Check('C03', MOD)
	for k in ('lemmas', 'methods', 'predicates', 'namespaces', 'constructors', 'pool'):
		ch.task('deduction', k)
	ch.contract('blade lemmas', ['(axioms of engine S)'], 'the facts about blades used by the set-level proofs, proved on 32-bit words')
	ch.contract('canonical', ['SubSpaceFactory.from_blades', 'SubSpaceFactory.order_blades', 'SubSpaceFactory.from_bit_str', 'SubSpaceFactory.__getattr__', 'FlyweightFactory.factory_construct', 'SubSpace.__init__', 'SubSpace.grade'],
	            'ensures result.blades == sorted(set(blades), key=(grade, bits)) and result is the one object of that set')
	ch.contract('immutable', ['SubSpace.__init__'], 'frame: blades cannot be changed through the source array or the attribute')
	ch.contract('set operations', ['SubSpace.union', 'SubSpace.intersection', 'SubSpace.difference', 'SubSpace.complement', 'SubSpace.degenerate', 'SubSpace.nondegenerate', 'SubSpace.scalar_degenerate', 'SubSpace.slice_subspace', 'SubSpace.to_relative_indices', 'SubSpace.bit_blades'], 'denote the set operations')
	ch.contract('predicates', ['SubSpace.is_subspace', 'SubSpace.__contains__', 'InNamespace', 'IsNamespace', 'SubSpace.is_*', 'SubSpace.in_*', 'SubSpace.pretty_str'], 'denote the set predicates')
	ch.contract('select and restrict', ['SelectNamespace', 'RestrictNamespace (subspace)'], 'all three forms')
	ch.contract('named constructors', ['SubSpaceFactory.*'], 'denote their defining sets')
	ch.contract('one object per set', ['FlyweightFactory.factory_construct', 'cached methods of SubSpace'], 'invariant: pool[key] is the only object of its blade set, after any history')
	T = env.THOROUGH
	for n in (1, 2, 3):
		for sig in ordered_signatures(n):
			S = list(all_subsets(n))
			for c in chunks(S, 1 if n < 3 else 2):
				ch.task('construct', sig, c, 0)
			r = rng('c03pairs', sig)
			P = [(a, b) for a in S for b in S]
			if n == 3 and not T:
				P = r.sample(P, 150)
			for c in chunks(P, 1 if n < 3 else (16 if T else 1)):
				ch.task('set_algebra', sig, c)
			ch.task('named', sig)
	for n in (4, 5, 6, 7):
		for sig in (pqr_signatures(n) if (n == 4 or T) else []) + [random_sig(rng('c03', n, i), n) for i in range(4)]:
			r = rng('c03', sig)
			S = [random_subset(r, n, nonempty=False) for _ in range(20)] + (list(grade_combos(n, True)) if n < 6 else k_vectors(n))
			ch.task('construct', sig, S, 1)
			ch.task('set_algebra', sig, [(r.choice(S), r.choice(S)) for _ in range(60 if T else 25)])
			if n < 8:
				ch.task('named', sig)
	for n in (8, 9, 10):
		for i in range(2):
			sig = random_sig(rng('c03h', n, i), n)
			r = rng('c03hh', sig)
			S = [sorted({r.randrange(1 << n) for _ in range(8)}) for _ in range(6)]
			ch.task('construct', sig, S, 2)
			ch.task('named', sig)
			if n < 10:
				ch.task('set_algebra', sig, [(r.choice(S), r.choice(S)) for _ in range(4)])
	for k in range(60 if T else 16):
		ch.task('pool', random_sig(rng('c03p', k), 2 + k % 3), k)
	ch.run()
	return ch.finish()
