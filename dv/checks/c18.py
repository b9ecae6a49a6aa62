import itertools
from dv.core import *
from dv.families import *
from numga.algebra.description import AlgebraDescription, parse_description
from numga.util import chars

MOD = __name__
SCH = {1: '+', -1: '-', 0: '0'}
# name sets: single characters (any case, non-ascii), multi-character prefix-free names
NAMESETS = [list('xyzwt'), list('zyxwv'), ['Q', 'a', 'é', 'ß', 'k'], ['e1', 'e2', 'e3', 'e4', 'e5'], ['ax', 'y', 'bzz', 'w1', 'q'], ['long_name', 'u', 'v2v', 'tt', 'K9'], ['t1', 't2', 'x', 'y', 'Z']]


def d_string(names, sig):
	return ''.join(a + SCH[s] for a, s in zip(names, sig))


def perm_sign(p):
	s = 1
	for i in range(len(p)):
		for j in range(i):
			if p[j] > p[i]:
				s = -s
	return s


def description_ok(led, contract, what, d, names, sig):
	n = len(sig)
	ok = (tuple(d.basis_names) == tuple(names) and tuple(d.signature) == tuple(sig) and d.n_dimensions == n and d.n_blades == 1 << n and d.n_grades == n + 1
	      and d.description_str == d_string(names, sig) and d.signature_str == ''.join(SCH[s] for s in sig)
	      and tuple(d.pqr) == (sum(s == 1 for s in sig), sum(s == -1 for s in sig), sum(s == 0 for s in sig)) and d.pqr_str == '%d%d%d' % tuple(d.pqr)
	      and list(d.zeros) == [int(s == 0) for s in sig] and list(d.negatives) == [int(s == -1) for s in sig] and list(d.positives) == [int(s == 1) for s in sig] and list(d.all) == [1] * n)
	led.enum(contract, ok, f'{what}: names {d.basis_names}, signature {d.signature}, pqr {d.pqr}, string {d.description_str!r}', input=[list(names), list(sig)])


def descriptions(led, names, nmax):
	for n in range(1, nmax + 1):
		for sig in ordered_signatures(n):
			nm = names[:n]
			s = d_string(nm, sig)
			description_ok(led, 'from_str', f'from_str({s!r})', AlgebraDescription.from_str(s), nm, sig)
			A = Algebra(s)
			description_ok(led, 'from_str', f'Algebra({s!r}).description', A.description, nm, sig)
			a, b = parse_description(s)
			led.enum('from_str', tuple(a) == tuple(nm) and tuple(b) == sig, f'parse_description({s!r}) = {a}, {b}')
			# squares of the generators, with the masks used by the product
			v = [int(x) for x in A.subspace.vector().blades]
			led.enum('generators', v == [1 << i for i in range(n)], f'{s}: vector blades {v}')
			bl = np.array(v, dtype=A.blade_dtype)
			c, sg = A.product(bl, bl)
			led.enum('generators', [int(x) for x in np.diag(sg)] == list(sig) and not np.diag(c).any(), f'{s}: squares {np.diag(sg)}')
			led.enum('generators', (int(A.zeros), int(A.negatives), int(A.positives)) == tuple(sum(1 << i for i in range(n) if sig[i] == k) for k in (0, -1, 1)), f'{s}: masks {A.zeros} {A.negatives} {A.positives}')


def deduction(led):
	from dv import strings, words
	strings.prove(led)
	words.prove(led)


def malformed(led, names):
	"""texts that spell no description, no blade: refused, nothing is dropped silently"""
	def refused(what, f):
		try: r = f()
		except Exception: ok, r = True, None
		else: ok = False
		led.enum('malformed texts', ok, f'{what} is accepted: {r}')
	for sig in ordered_signatures(3):
		s = d_string(names[:3], sig)
		for tail in (names[3], names[3][:1], names[0], 'µ'):
			refused(f'description {s + tail!r}', lambda: parse_description(s + tail))
			refused(f'from_str({s + tail!r})', lambda: AlgebraDescription.from_str(s + tail).basis_names)
	refused(f'description {names[0]!r}', lambda: parse_description(names[0]))
	d = AlgebraDescription.from_str(d_string(names[:3], (1, -1, 0)))
	known = set(names[:3])
	for k in range(4):
		for p in itertools.permutations(names[:3], k):
			for tail in ('µ', '?!', 'ϑϑϑ'):
				refused(f'name {"".join(p) + tail!r}', lambda: d.parse_tokens(''.join(p) + tail))
				if k: refused(f'name {p[0] + tail + "".join(p[1:])!r}', lambda: d.parse_tokens(p[0] + tail + ''.join(p[1:])))


def random_strings(led, seed, k):
	r = rng('c18', seed)
	alphabet = [chr(c) for c in range(33, 127) if chr(c) not in '+-0'] + list('αβγδπσ')
	for _ in range(k):
		n = r.randint(1, 31)
		names = []
		while len(names) < n:
			x = ''.join(r.choice(alphabet) for _ in range(r.choice([1, 1, 2, 3, 6])))
			if x not in names:
				names.append(x)
		sig = tuple(r.choice((1, -1, 0)) for _ in range(n))
		d = AlgebraDescription.from_str(d_string(names, sig))
		led.num('from_str (sampled names)', tuple(d.basis_names) == tuple(names) and tuple(d.signature) == sig and d.description_str == d_string(names, sig), f'from_str({d_string(names, sig)!r}): {d.basis_names} {d.signature}')
		toks = [r.randrange(n) for _ in range(r.randint(0, 6))]
		if not any(a != b and b.startswith(a) for a in names for b in names):
			led.num('parse_tokens (sampled names)', d.parse_tokens(''.join(names[i] for i in toks)) == tuple(toks), f'parse_tokens of {[names[i] for i in toks]} in {names}')
			led.cover('prefix-free random name sets')


def pqr(led, total):
	for p in range(total + 1):
		for q in range(total + 1 - p):
			r = total - p - q
			if p + q + r == 0:
				continue
			sig = (1,) * p + (-1,) * q + (0,) * r
			for what, d in [('AlgebraDescription.from_pqr', AlgebraDescription.from_pqr(p, q, r)), ('from_signature', AlgebraDescription.from_signature(''.join(SCH[s] for s in sig)))] + (
					[('Algebra.from_pqr', Algebra.from_pqr(p, q, r).description), ('Algebra(tuple)', Algebra((p, q, r)).description)] if total <= 32 else []):
				led.enum('from_pqr', tuple(d.signature) == sig and len(set(d.basis_names)) == len(sig) == d.n_dimensions and tuple(d.pqr) == (p, q, r), f'{what}({p},{q},{r}): signature {d.signature}, names {d.basis_names}, pqr {d.pqr}', input=[p, q, r])


def products(led, n, m):
	for i, (na, nb) in enumerate([(NAMESETS[0], NAMESETS[3]), (NAMESETS[3], NAMESETS[4]), (NAMESETS[4], NAMESETS[5]), (list('abc'), list('xyz'))]):
		for sa in ordered_signatures(n):
			for sb in ordered_signatures(m):
				a, b = na[:n], [x for x in nb if x not in na][:m]
				A, B = Algebra(d_string(a, sa)), Algebra(d_string(b, sb))
				description_ok(led, 'product of algebras', f'({A.description.description_str}) * ({B.description.description_str})', (A * B).description, list(a) + b, sa + sb)
				description_ok(led, 'product of algebras', 'product of descriptions', (A.description * B.description), list(a) + b, sa + sb)
				description_ok(led, 'product of algebras', 'factors are unchanged', A.description, a, sa)


def lookups(led, names, sig, full):
	"""blades by name: every ordering of every subset of the generators, twice, in two orders of asking"""
	n = len(sig)
	names = names[:n]
	ctx = NumpyContext(d_string(names, sig), dtype=np.float64)
	d = ctx.algebra.description
	words = [w for k in range(n + 1) for w in itertools.permutations(range(n), k)]
	r = rng('c18l', names, sig)
	if not full and len(words) > 120:
		words = words[:n + 1] + r.sample(words[n + 1:], 110)
	# tokens
	for w in words:
		t = d.parse_tokens(''.join(names[i] for i in w))
		led.enum('parse_tokens', tuple(t) == w, f'parse_tokens({"".join(names[i] for i in w)!r}) over {names} = {t}')
	for rnd in range(2):
		for w in words if rnd == 0 else r.sample(words, min(40, len(words))):
			if not w:
				continue
			nm = ''.join(names[i] for i in w)
			if hasattr(type(ctx.multivector), nm):
				continue
			m = getattr(ctx.multivector, nm)
			want = {sum(1 << i for i in w): perm_sign(w)}
			got = todict(m)
			led.enum('named blade', got == want, f'{d.description_str}: multivector.{nm} (lookup {rnd + 1}) = {got}, expected {want}', input=nm)
		for i in range(n):
			got = todict(ctx.multivector.basis()[i])
			led.enum('named blade', got == {1 << i: 1}, f'{d.description_str}: basis()[{i}] = {got}')
	# a repeated generator wedges to nothing
	for i in range(n):
		for w in ((i, i), (i, (i + 1) % n, i)):
			nm = ''.join(names[j] for j in w)
			if not hasattr(type(ctx.multivector), nm):
				got = todict(getattr(ctx.multivector, nm))
				led.enum('named blade', all(v == 0 for v in got.values()), f'{d.description_str}: multivector.{nm} = {got}, expected nothing')
	# squares of the named generators through the public product
	for i in range(n):
		e = getattr(ctx.multivector, names[i])
		got = {b: v for b, v in todict(e * e).items() if v}
		led.enum('generators', got == ({0: sig[i]} if sig[i] else {}), f'{d.description_str}: {names[i]}^2 = {got}')
		for j in range(i):
			f = getattr(ctx.multivector, names[j])
			got = {b: v for b, v in todict(e * f + f * e).items() if v}
			led.enum('generators', got == {}, f'{d.description_str}: {names[i]} and {names[j]} do not anticommute: {got}')


def subspace_names(led, names, sig, sets):
	n = len(sig)
	names = names[:n]
	A = Algebra(d_string(names, sig))
	r = rng('c18s', names, sig)
	for blades in sets:
		V = A.subspace.from_blades(np.array(blades, dtype=A.blade_dtype))
		o = order(blades)
		led.enum('subspace strings', [int(b) for b in V.blades] == o and (o != [] or len(V) == 0), f'{A.description.description_str}: from_blades({blades}) has blades {list(V.blades)}, expected {o}')
		nm = [''.join(names[i] for i in range(n) if b >> i & 1) or '1' for b in o]
		led.enum('subspace strings', V.named_str == ','.join(nm), f'{A.description.description_str}: named_str of {o} is {V.named_str!r}, expected {",".join(nm)!r}')
		bs = [''.join(str(b >> i & 1) for i in range(n)) for b in o]
		led.enum('subspace strings', V.bit_str == ','.join(bs), f'{A.description.description_str}: bit_str of {o} is {V.bit_str!r}, expected {",".join(bs)!r}')
		if o:
			led.enum('subspace strings', np.array_equal(np.array(V.bit_blades()).T, [[b >> i & 1 for i in range(n)] for b in o]), f'bit_blades of {o}: {V.bit_blades()}')
			sh = bs[:]
			r.shuffle(sh)
			led.enum('subspace strings', A.subspace.from_bit_str(','.join(sh)) is V, f'{A.description.description_str}: from_bit_str({",".join(sh)!r}) is not the subspace of {o}')
			if 0 not in o and all(len(x) == 1 for x in names):
				q = [''.join(r.sample(x, len(x))) for x in nm]
				r.shuffle(q)
				k = '_'.join(q)
				if not hasattr(type(A.subspace), k):
					led.enum('subspace by name', getattr(A.subspace, k) is V and getattr(A.subspace, k) is V, f'{A.description.description_str}: subspace.{k} is not the subspace of {o}')


BACK = ('numpy', 'numpy_object', 'jax', 'torch', 'python')
def backend(which, s):
	if which == 'numpy': return NumpyContext(s)
	if which == 'numpy_object': return NumpyContext(s, dtype=object)
	if which == 'jax':
		from numga.backend.jax.context import JaxContext
		return JaxContext(s)
	if which == 'torch':
		from numga.backend.torch.context import TorchContext
		return TorchContext(s)
	from numga.backend.python.context import PythonContext
	return PythonContext(s)

def vals(m):
	v = m.values
	return [float(x) for x in (v.tolist() if hasattr(v, 'tolist') else list(v))]

def construction(led, which, sig):
	n = len(sig)
	ctx = backend(which, d_string(list('xyzwt'), sig))
	M = ctx.multivector
	G = {'scalar': [0], 'vector': [1], 'bivector': [2], 'trivector': [3], 'pseudoscalar': [n], 'antivector': [n - 1], 'antibivector': [n - 2], 'antitrivector': [n - 3],
	     'even_grade': range(0, n + 1, 2), 'rotor': range(0, n + 1, 2), 'motor': range(0, n + 1, 2), 'multivector': range(n + 1)}
	def agree(what, m, want):
		bl = [int(b) for b in m.subspace.blades]
		led.enum('construction', bl == [b for b, _ in want] and vals(m) == [float(v) for _, v in want], f'{which} {d_string("xyzwt", sig)}: {what} is {dict(zip(bl, vals(m)))}, expected {want}')
	for nm, gs in G.items():
		gs = list(gs)
		if not all(0 <= g <= n for g in gs):
			continue
		o = blades_of_grades(n, gs)
		agree(f'{nm}()', getattr(M, nm)(), [(b, int(b == 0)) for b in o])
		v = [k + 2 for k in range(len(o))]
		agree(f'{nm}(values)', getattr(M, nm)(v), list(zip(o, v)))
		if nm != 'multivector' and which != 'python':
			agree(f'{nm}(array)', getattr(M, nm)(np.array(v, dtype=np.float32)), list(zip(o, v)))
	for k in range(n + 1):
		o = blades_of_grades(n, [k])
		v = [3 * j + 1 for j in range(len(o))]
		agree(f'k_vector({k}, values)', M.k_vector(k, v), list(zip(o, v)))
		agree(f'k_vector({k})', M.k_vector(k), [(b, int(b == 0)) for b in o])
	r = rng('c18c', which, sig)
	for _ in range(30):
		S = order(random_subset(r, n))
		v = [r.randint(-9, 9) for _ in S]
		V = sub(ctx, S)
		agree('multivector(values, subspace)', M.multivector(values=v, subspace=V), list(zip(S, v)))
		agree('multivector(subspace=)', M.multivector(subspace=V), [(b, int(b == 0)) for b in S])
		agree('factory call', M(V, v), list(zip(S, v)))
		agree('factory call without values', M(V), [(b, int(b == 0)) for b in S])
		b = r.randrange(1 << n)
		agree(f'blade({b}, 5)', M.blade(b, 5), [(b, 5)])
		agree(f'blade({b})', M.blade(b), [(b, 1)])
		agree(f'blade({b}, -2.5)', M.blade(b, -2.5), [(b, -2.5)])
		v = [r.choice([.5, -1.25, 3., 0., 2. ** 20 + .5]) for _ in S]
		agree('multivector(fractions, subspace)', M.multivector(values=v, subspace=V), list(zip(S, v)))
	agree('empty()', M.empty(), [])
	bs = M.basis()
	led.enum('construction', len(bs) == n, f'{len(bs)} basis vectors')
	for i, e in enumerate(bs):
		agree(f'basis()[{i}]', e, [(1 << i, 1)])


def main():
	c = Check('C18', MOD)
	c.contract('from_str', ['AlgebraDescription.from_str', 'parse_description', 'AlgebraDescription.description_str/pqr/signature_str/zeros/negatives/positives'], 'description strings name the generators, in order, with their squares, and print back')
	c.contract('from_pqr', ['AlgebraDescription.from_pqr', 'AlgebraDescription.from_signature', 'Algebra.from_pqr', 'Algebra.__init__'], '(p, q, r) gives p plus, q minus, r zero generators with distinct names')
	c.contract('product of algebras', ['AlgebraDescription.__mul__', 'Algebra.__mul__'], 'generators and squares of the factors, concatenated')
	c.contract('generators', ['Algebra.negatives/positives/zeros', 'bit_pack', 'Algebra.product'], 'the i-th named generator is blade 2^i, squares to its sign and anticommutes with the others')
	c.contract('parse_tokens', ['AlgebraDescription.parse_tokens'], 'a concatenation of names of a prefix-free name set parses to the sequence of their indices')
	c.contract('named blade', ['MultiVectorFactory.__getattr__', 'MultiVectorFactory.basis'], 'wedge of the named generators in the written order, on every lookup')
	c.contract('subspace strings', ['SubSpace.named_str', 'SubSpace.bit_str', 'SubSpace.bit_blades', 'SubSpaceFactory.from_bit_str', 'SubSpaceFactory.from_blades', 'biterator'], 'exactly the blades of the subspace, in canonical order; bit strings round-trip')
	c.contract('subspace by name', ['SubSpaceFactory.__getattr__', 'SubSpaceFactory.basis'], 'exactly the named blades')
	c.contract('construction', ['MultiVectorFactory.*', '*MultiVector.construct'], 'values in canonical order; without values the scalar 1 or zero')
	c.contract('parser of descriptions (all texts)', ['parse_description'], 'names and signs tile the text: consecutive, each name up to the next sign, the sign as written; a text that does not end in a sign is refused')
	c.contract('parser of names (all texts, all name sets)', ['AlgebraDescription.parse_tokens'], 'the indices yielded name consecutive pieces of the text, each the shortest name, to its end; else it raises')
	c.contract('masks and dimensions (all signatures)', ['AlgebraDescription.zeros', 'AlgebraDescription.negatives', 'AlgebraDescription.positives', 'AlgebraDescription.all', 'AlgebraDescription.n_dimensions'], 'entry i is 1 iff generator i squares to 0, -1, +1; any')
	c.contract('descriptions: construction and product', ['AlgebraDescription.from_str', 'AlgebraDescription.__init__', 'AlgebraDescription.__mul__'], 'names and signs in the written order; the product is the description of the joined text, refused iff names are shared')
	c.contract('printing of descriptions (all names, all signatures)', ['AlgebraDescription.description_str', 'AlgebraDescription.signature_str'], 'the join, in order, of each name followed by the character of its sign: what the parser tiles back')
	c.contract('descriptions from (p, q, r) (all p, q, r)', ['AlgebraDescription.from_pqr', 'AlgebraDescription.from_signature', 'AlgebraDescription.pqr'], 'p plus, q minus, r zeros in this order, named by distinct default names (as many as there are); pqr counts them')
	c.contract('blades by name (all names)', ['MultiVectorFactory.__getattr__', 'MultiVectorFactory.basis'], 'the left fold of the wedge over the named generators in the written order; generator i has coefficient 1')
	c.contract('subspaces by name (all names)', ['SubSpaceFactory.__getattr__', 'SubSpaceFactory.basis'], 'from_blades of, per word, the sum of the blades of its letters')
	c.contract('constructors (all algebras)', ['MultiVectorFactory.' + k for k in ('scalar', 'vector', 'bivector', 'trivector', 'pseudoscalar', 'antivector', 'antibivector', 'antitrivector', 'k_vector', 'even_grade', 'rotor', 'motor', 'multivector', 'empty', 'blade', '__call__')], 'one multivector on the named subspace (C03) with exactly the given values')
	c.contract('construct (all subspaces, all coefficients)', [w + 'MultiVector.construct' for w in ('Numpy', 'Jax', 'Torch', 'Python')], 'refused iff the number of values is not the dimension; the given values in order, else 1 on the scalar and 0 elsewhere (coerce_array, float: identity on values, assumed)')
	c.contract('malformed texts', ['parse_description', 'AlgebraDescription.from_str', 'AlgebraDescription.parse_tokens'], 'a text that is no description / no blade name raises; nothing is dropped silently')
	c.task('deduction')
	T = env.THOROUGH
	for names in NAMESETS:
		c.task('descriptions', names, 5 if T else 4)
	for names in NAMESETS: c.task('malformed', names)
	for i in range(16 if T else 4):
		c.task('random_strings', i, 400 if T else 100)
	for t in range(1, 53):
		if T or t <= 12 or t in (26, 27, 32, 33, 52):
			c.task('pqr', t)
	for n, m in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 1)) + (((3, 2), (2, 3)) if T else ()):
		c.task('products', n, m)
	for names in NAMESETS:
		for sig in ((1,), (-1, 0), (1, 1, 0), (1, -1, 1), (0, 1, 1, 1), (1, -1, 0, 1)) + (((1, 1, 1, 1, 0), (1, 1, 1, 1, -1)) if T else ((1, 1, 1, 0, -1),)):
			c.task('lookups', names, sig, T or len(sig) < 5)
		for sig in ((1,), (1, 0), (1, -1, 1)):
			c.task('subspace_names', names, sig, list(all_subsets(len(sig))))
		r = rng('c18t', names)
		for n in (4, 5):
			c.task('subspace_names', names, random_sig(r, n), [random_subset(r, n) for _ in range(300 if T else 60)])
	r = rng('c18big')
	for n in (9, 10, 17 if T else 11):
		c.task('subspace_names', [chars[i] for i in range(n)], random_sig(r, n), [[r.randrange(1 << n) for _ in range(1)] for _ in range(10)] + [sorted({r.randrange(1 << n) for _ in range(8)}) for _ in range(20)])
	for which in BACK:
		for sig in ((1,), (1, 0), (1, 1, 1), (1, 1, 1, 0)) + (((1, 1, 1, 1, -1),) if which in ('numpy', 'python') else ()):
			c.task('construction', which, sig)
	c.assumptions += ['name sets are prefix-free (the parser is greedy on the shortest known name) and do not coincide with attribute names of the factories']
	c.run()
	return c.finish()
