"""C01: blade products follow the Clifford relations in every algebra of 1..32 generators."""
import itertools
import dv.env as env
from dv.core import *
from dv import bits as K
from dv.bits import ZERO, ONE, xor, land, Word, Poly, Pred, Prod, BA, is_sym
from dv.spec import Spec, sort_word, word
import numga.algebra.algebra as A_mod
import numga.algebra.bitops as B_mod
from numga.algebra.algebra import Algebra
from numga.algebra.description import AlgebraDescription
from numga.algebra.bitops import bit_count, bit_pack, minimal_uint_type, parity_to_sign

MOD = __name__
UINT = {1: np.uint8, 2: np.uint16, 3: np.uint32, 4: np.uint32}


# ---------------------------------------------------------------- the generator calculus, over ANF bits
def calc_product(a, b, negs, nulls):
	"""a * b, multiplying by the generators of b one at a time from the right: the new generator passes every larger
	generator present (one sign each), and meets an equal one as its square. Returns blade bits, sign bit, null events."""
	n = len(a)
	c, sign, null = list(a), ZERO, []
	for j in range(n):
		above = xor(*c[j + 1:]) if j + 1 < n else ZERO
		meets = land(b[j], c[j])
		sign = xor(sign, land(b[j], above), land(meets, negs[j]))
		null.append(land(meets, nulls[j]))
		c[j] = xor(c[j], b[j])
	return c, sign, [z for z in null if z]


def calc_reverse(a):
	"""sign of writing the generators in the opposite order: each generator, in turn, passes the smaller ones present"""
	s = ZERO
	for j in range(len(a)):
		for i in range(j): s = xor(s, land(a[j], a[i]))
	return s


def calc_check(led, n):
	"""the calculus above against the word-sorting definition, exhaustively"""
	for sig in itertools.product((1, -1, 0), repeat=n):
		ng = [ONE if s == -1 else ZERO for s in sig]
		nl = [ONE if s == 0 else ZERO for s in sig]
		for a in range(1 << n):
			A = [ONE if a >> i & 1 else ZERO for i in range(n)]
			led.enum('generator calculus', sort_word(word(a)[::-1], (1,) * n)[0] == (-1 if calc_reverse(A) else 1), f'reverse {a}')
			for b in range(1 << n):
				c, s, z = calc_product(A, [ONE if b >> i & 1 else ZERO for i in range(n)], ng, nl)
				got = (0 if z else -1 if s else 1, sum(1 << i for i in range(n) if c[i]))
				led.enum('generator calculus', got == sort_word(word(a) + word(b), sig), f'{sig} {a} {b}: {got}')


# ---------------------------------------------------------------- symbolic run
class SymDescription:
	"""contract of AlgebraDescription: bit i of negatives/zeros/positives tells the metric of generator i"""
	def __init__(self, n, negs, nulls):
		self.n_dimensions, self.n_blades, self.n_grades = n, 2 ** n, n + 1
		self.negatives = [K.BitSym(b) for b in negs]
		self.zeros = [K.BitSym(b) for b in nulls]
		self.positives = [K.BitSym(xor(ONE, p, q)) for p, q in zip(negs, nulls)]
		self.all = [1] * n
	def __getattr__(self, k):
		raise K.Unsupported(f'description.{k}')


class PssFactory:
	"""contract of SubSpaceFactory.pseudoscalar (decided in C18): the single blade of all generators"""
	def __init__(self, n, dtype):
		self.n, self.dtype = n, dtype
	def pseudoscalar(self):
		return type('PSS', (), {'blades': np.array([(1 << self.n) - 1], dtype=self.dtype)})()
	antiscalar = pseudoscalar
	def __getattr__(self, k):
		raise K.Unsupported(f'subspace.{k}')


def setup(n):
	"""atoms: a_i, b_i, neg_i, null_i"""
	at = lambda k: [frozenset([1 << (k * n + i)]) for i in range(n)]
	return at(0), at(1), at(2), at(3)


def make(n, negs, nulls):
	alg = Algebra('+' * 0 + ''.join(NAMES[i] + '+' for i in range(n)))
	alg.description = SymDescription(n, negs, nulls)
	for k in ('negatives', 'zeros', 'positives', 'pseudo_scalar_squared'): alg.__dict__.pop(k, None)
	alg.__dict__['subspace'] = PssFactory(n, alg.blade_dtype)
	return alg


def arr(words, raw):
	return BA(K.boxed(words, raw.shape), raw)


def elems(x, k):
	"""the symbolic elements of a result"""
	if isinstance(x, BA): return list(x.sym.ravel())
	if isinstance(x, K.IntSym): return [x.v]
	return [int(v) for v in np.asarray(x).ravel()]


def word_eq(x, bits):
	if isinstance(x, Poly): return False
	w = K.as_bits(x)
	return all(w.get(i) == (bits[i] if i < len(bits) else ZERO) for i in range(max(len(w.bits), len(bits))))


def sign_eq(x, s, null):
	pred = Pred(null)
	if isinstance(x, Prod): p, q = x.poly, x.pred
	else: p, q = x, Pred([])
	if not is_sym(p): p = Poly(int(p))
	return K.sign_of(p) == s and K.sign_of(p) is not None and q.bits == pred.bits and not q.neg


def layouts(n, dtype, quick):
	"""arrays of the blade dtype: one and two elements, row/column/strided/broadcast/scalar layouts"""
	z = lambda *s: np.zeros(s, dtype=dtype)
	return [('scalar array', z()), ('one', z(1)), ('two', z(2)), ('empty', z(0)), ('row', z(1, 2)), ('column view', z(2)[:, None]), ('fortran', np.asfortranarray(z(2, 2))),
	        ('transposed', z(2, 2).T), ('strided', z(5)[::2]), ('reversed', z(3)[::-1]), ('broadcast', np.broadcast_to(z(1), (2, 1))),
	        ('3d', z(1, 2, 2)), ('3d transposed', z(1, 2, 2).transpose(2, 0, 1))]


def run_symbolic(n, part):
	"""yields (obligation, discharged?, detail) for the real code on symbolic blades in an algebra of n generators"""
	a, b, negs, nulls = setup(n)
	rot = lambda v, k: v          # every element carries its own atoms only where needed
	with K.installed(A_mod, B_mod):
		alg = make(n, negs, nulls)
		full = (1 << n) - 1
		if part == 'product':
			for na, nb in ((1, 1), (2, 1), (1, 2)):
				xs = [Word(a)] + [full] * (na - 1)
				ys = [Word(b)] + [full] * (nb - 1)
				c, s = alg.product(arr(xs, np.zeros(na, alg.blade_dtype)), arr(ys, np.zeros(nb, alg.blade_dtype)))
				yield 'shape', np.shape(c) == (na, nb) and np.shape(s) == (na, nb), ''
				one = [ONE] * n
				for (i, j), cv, sv in zip(np.ndindex(na, nb), elems(c, 1), elems(s, 1)):
					wc, ws, wz = calc_product(one if i else a, one if j else b, negs, nulls)
					yield 'blade of the product', word_eq(cv, wc), f'element {i},{j}'
					yield 'sign of the product', sign_eq(sv, ws, wz), f'element {i},{j}: {show(sv)}'
		if part == 'cayley':
			for raw_a, raw_b in ((np.zeros(1, alg.blade_dtype), np.zeros(1, alg.blade_dtype)), (np.zeros((1, 1), alg.blade_dtype),) * 2, (np.zeros((), alg.blade_dtype),) * 2):
				c, s = alg.cayley(arr([Word(a)], raw_a), arr([Word(b)], raw_b))
				wc, ws, _ = calc_product(a, b, [ZERO] * n, [ZERO] * n)
				for cv, sv in zip(elems(c, 1), elems(s, 1) * 1):
					yield 'cayley blade', word_eq(cv, wc), ''
					yield 'parity of swaps', K.as_poly(sv).parity() == ws, show(sv)
		if part == 'unary':
			for nm, raw in layouts(n, alg.blade_dtype, True):
				k = raw.size
				ws = [Word(a[i:] + a[:i]) for i in range(k)] if n > 1 else [Word(a)] * k       # distinct symbolic elements
				bs = [(a[i:] + a[:i]) if n > 1 else a for i in range(k)]
				bs = [list(v) for v in bs]
				x = lambda: arr(ws, raw) if nm != 'broadcast' else arr([ws[0]] * k, raw)
				if nm == 'broadcast': bs = [bs[0]] * k
				g = alg.grade(x())
				yield 'shape', np.shape(g) == raw.shape, f'grade {nm}'
				for i, v in enumerate(elems(g, k)):
					p = K.as_poly(v)
					want = Poly(0, {bit: 1 for bit in bs[i]})
					yield 'grade', p.mod is None and p.const == 0 and p.terms == want.terms, f'{nm}: {show(v)}'
				if nm in ('scalar array', 'one', 'two', 'column view', 'empty'):
					for i, v in enumerate(elems(alg.involute(x()), k)):
						yield 'involution', sign_eq(v, xor(*bs[i]), []), f'{nm}: {show(v)}'
					for i, v in enumerate(elems(alg.reverse(x()), k)):
						yield 'reversal', sign_eq(v, calc_reverse(bs[i]), []), f'{nm}: {show(v)}'
					for i, v in enumerate(elems(alg.complement(x()), k)):
						yield 'complement', word_eq(v, [xor(ONE, q) for q in bs[i]]), nm
		if part == 'pseudoscalar':
			v = alg.pseudo_scalar_squared
			one = [ONE] * n
			_, ws, wz = calc_product(one, one, negs, nulls)
			yield 'square of the pseudoscalar', sign_eq(elems(v, 1)[0], ws, wz), show(elems(v, 1)[0])
		if part == 'metric':
			for attr, want in (('negatives', negs), ('zeros', nulls)):
				v = getattr(alg, attr)
				yield f'packed {attr}', word_eq(elems(v, 1)[0], want), ''
			v = elems(alg.bit_dot(arr([Word(a)], np.zeros(1, alg.blade_dtype)), arr([Word(b)], np.zeros(1, alg.blade_dtype))), 1)[0]
			p = K.as_poly(v)
			yield 'bit_dot', p.mod is None and p.const == 0 and p.terms == {land(x, y): 1 for x, y in zip(a, b)}, show(v)


def show(v):
	if isinstance(v, Poly): return f'{v.const} + {len(v.terms)} terms' + (f' mod {v.mod}' if v.mod else '')
	if isinstance(v, Prod): return f'({show(v.poly)}) * [{len(v.pred.bits)} conditions]'
	return type(v).__name__ if is_sym(v) else repr(v)


def prove_n(led, n, part):
	t0 = time.process_time()
	ok, bad = Counter(), []
	try:
		for nm, good, detail in run_symbolic(n, part):
			if good: ok[nm] += 1
			else: bad.append((nm, detail))
	except K.Unsupported as e:
		bad.append(('unsupported', str(e)))
	except Exception as e:
		bad.append(('raised', f'{type(e).__name__}: {e}'[:200]))
	for nm, k in ok.items(): led.ok(nm, 'bit normal form', k)
	led.seconds['bit normal form'] += time.process_time() - t0
	led.cover(f'{part}: word sizes and generator counts')
	v0 = len(led.violations)
	concrete_n(led, n, part, 400 if bad else 40)
	if bad and len(led.violations) == v0:
		for nm, d in bad[:3]: led.open[part, f'{nm}: {d}'[:150]] += 1
	elif bad:
		led.violations[v0]['what'] += f' [symbolic obligation: {bad[0]}]'


# ---------------------------------------------------------------- concrete: replay and bounded stand-in
def rand_blade(r, n):
	k = r.random()
	if k < .2: return (1 << n) - 1 - (1 << r.randrange(n) if r.random() < .5 else 0)
	if k < .3: return 1 << r.randrange(n)
	return r.getrandbits(n)


def mk(sig):
	return Algebra(''.join(NAMES[i] + SIGN[s] for i, s in enumerate(sig)))


def concrete_n(led, n, part, tries):
	r = rng('c01', n, part)
	seen = 0
	for k in range(tries):
		mode = k % 4
		sig = tuple(r.choice((1, -1, 0)) for _ in range(n)) if mode == 0 else tuple(r.choice((1, -1)) for _ in range(n)) if mode < 3 else tuple(r.choice((1, 1, 1, 0)) for _ in range(n))
		alg = mk(sig)
		a = [rand_blade(r, n) for _ in range(r.randint(1, 3))]
		b = [rand_blade(r, n) for _ in range(r.randint(1, 3))]
		if mode == 3: a = [x & sum(1 << i for i in range(n) if sig[i] or r.random() < .1) for x in a]
		A, B = np.array(a, alg.blade_dtype), np.array(b, alg.blade_dtype)
		sg = ''.join(SIGN[s] for s in sig)
		fail = lambda what, **d: led.num(f'{part} (concrete)', False, f'n={n} sig={sg} a={a} b={b}: {what}', signature=sig, **d)
		try:
			if part in ('product', 'metric'):
				c, s = alg.product(A, B)
				want = [[sort_word(word(x) + word(y), sig) for y in b] for x in a]
				got = [[(int(s[i, j]), int(c[i, j])) for j in range(len(b))] for i in range(len(a))]
				# the blade of a vanishing product is still the symmetric difference
				good = all(g[0] == w[0] and g[1] == (x ^ y) for x, rg, rw in zip(a, got, want) for y, g, w in zip(b, rg, rw))
				if not good: return fail(f'product is {got}, by the Clifford relations {want}')
			elif part == 'cayley':
				c, s = alg.cayley(A[:, None], B[None, :])
				for i, x in enumerate(a):
					for j, y in enumerate(b):
						w = sort_word(word(x) + word(y), (1,) * n)
						sw = int(np.broadcast_to(s, (len(a), len(b)))[i, j])
						if int(c[i, j]) != w[1] or (-1) ** (sw % 2) != w[0]: return fail(f'cayley {int(c[i, j])}, {sw} swaps; expected blade and sign {w}')
			elif part == 'unary':
				for nm, X in (('', A), ('column', A[:, None]), ('strided', np.repeat(A, 2)[::2]), ('transposed', np.array([a, a], alg.blade_dtype).T)):
					if [int(x) for x in alg.grade(X).ravel()] != [len(word(int(x))) for x in X.ravel()] or np.shape(alg.grade(X)) != X.shape: return fail(f'grade of {nm} array: {alg.grade(X)}')
					if [int(x) for x in np.ravel(alg.involute(X))] != [(-1) ** len(word(int(x))) for x in X.ravel()]: return fail(f'involution: {alg.involute(X)}')
					if [int(x) for x in np.ravel(alg.reverse(X))] != [sort_word(word(int(x))[::-1], (1,) * n)[0] for x in X.ravel()]: return fail(f'reversal: {alg.reverse(X)}')
				if n <= 9 or (n <= 12 and k < 4):
					if [int(x) for x in alg.complement(A)] != [((1 << n) - 1) ^ x for x in a]: return fail(f'complement: {alg.complement(A)}')
			elif part == 'pseudoscalar' and (n <= 9 or (n <= 12 and k < 4)):
				w = sort_word(list(range(n)) * 2, sig)[0]
				if alg.pseudo_scalar_squared != w: return fail(f'pseudoscalar squared: {alg.pseudo_scalar_squared} != {w}')
		except Exception as e:
			return fail(f'raised {type(e).__name__}: {e}', kind='exception')
		seen += 1
	led.bounded[f'{part} (concrete)'] += seen


def tables(led, sig):
	"""full tables of one small algebra"""
	n = len(sig)
	alg = mk(sig)
	bl = np.arange(1 << n).astype(alg.blade_dtype)
	c, s = alg.product(bl, bl)
	S = Spec(sig)
	for i in range(1 << n):
		for j in range(1 << n):
			w = S.blade_mul(i, j)
			led.enum('product tables', int(s[i, j]) == w[0] and int(c[i, j]) == i ^ j, f'sig={sig} {i}*{j}: {int(s[i, j])}, {int(c[i, j])}, expected {w}')
	led.enum('product tables', [int(x) for x in alg.grade(bl)] == [len(word(i)) for i in range(1 << n)], f'grade {sig}')
	led.enum('product tables', [int(x) for x in alg.reverse(bl)] == [S.reverse_sign(i) for i in range(1 << n)], f'reverse {sig}')
	led.enum('product tables', [int(x) for x in alg.involute(bl)] == [S.involute_sign(i) for i in range(1 << n)], f'involute {sig}')
	led.enum('product tables', [int(x) for x in alg.complement(bl)] == [S.I ^ i for i in range(1 << n)], f'complement {sig}')
	led.enum('product tables', alg.pseudo_scalar_squared == S.blade_mul(S.I, S.I)[0], f'pseudoscalar {sig}: {alg.pseudo_scalar_squared}')


def metric_bits(led, n):
	"""AlgebraDescription.negatives/zeros/positives and their packing, all signatures of n generators"""
	for sig in itertools.product((1, -1, 0), repeat=n):
		d = AlgebraDescription([NAMES[i] for i in range(n)], sig)
		pk = lambda v: sum(1 << i for i in range(n) if v[i])
		for nm, val in (('negatives', -1), ('zeros', 0), ('positives', 1)):
			v = getattr(d, nm)
			led.enum('description masks', len(v) == n and pk(v) == sum(1 << i for i in range(n) if sig[i] == val), f'{nm} of {sig}: {v}')
		alg = mk(sig)
		led.enum('description masks', int(alg.negatives) == pk(d.negatives) and int(alg.zeros) == pk(d.zeros), f'packed masks of {sig}: {alg.negatives} {alg.zeros}')


def bitops(led):
	for n in range(1, 33):
		nb, dt = minimal_uint_type(n)
		led.enum('word size', 8 * np.dtype(dt).itemsize >= n and np.dtype(dt).kind == 'u', f'{n} generators stored in {dt}')
		for ones in [[1] * n] + [[int(i == j) for i in range(n)] for j in range(n)]:
			led.enum('bit_pack', int(bit_pack(ones)) == sum(1 << i for i, v in enumerate(ones) if v), f'bit_pack {ones}: {bit_pack(ones)}')
	for dt in (np.uint8, np.int8, np.uint16, np.int16):
		i = np.iinfo(dt)
		v = np.arange(i.min, i.max + 1).astype(dt)
		s = parity_to_sign(v)
		led.enum('parity_to_sign', bool(np.all(np.asarray(s, dtype=int) == np.where(v.astype(int) % 2, -1, 1))), f'parity_to_sign over all {dt.__name__}')
	for x in range(65536):
		pass
	v = np.arange(65536)
	want = np.array([bin(x).count('1') for x in range(65536)])
	led.enum('bit_count', bool(np.all(bit_count(v.astype(np.uint16)) == want)), 'bit_count over all uint16')
	led.enum('bit_count', bool(np.all(bit_count(v[:256].astype(np.uint8)) == want[:256])), 'bit_count over all uint8')


def sym_bit_count(led):
	"""bit_count on symbolic words of every unsigned dtype and layout"""
	for dt in (np.uint8, np.uint16, np.uint32):
		w = 8 * np.dtype(dt).itemsize
		for nm, raw in layouts(w, dt, True):
			if raw.nbytes > 256 or nm == 'broadcast': continue
			bs = [[frozenset([1 << (k * w + i)]) for i in range(w)] for k in range(raw.size)]
			try:
				with K.installed(B_mod):
					g = B_mod.bit_count(arr([Word(x) for x in bs], raw))
				good = np.shape(g) == raw.shape and all(K.as_poly(v).mod is None and K.as_poly(v).const == 0 and K.as_poly(v).terms == {x: 1 for x in bs[i]} for i, v in enumerate(elems(g, 1)))
				why = 'postcondition'
			except Exception as e:
				good, why = False, f'{type(e).__name__}: {e}'
			if good:
				led.ok('bit_count', 'bit normal form', max(1, raw.size))
				continue
			r = rng('bitcount', nm, str(dt))
			for _ in range(200):
				x = raw.copy(order='K')
				vals = [r.getrandbits(w) if r.random() < .7 else (1 << w) - 1 - (1 << r.randrange(w)) for _ in range(raw.size)]
				base = np.zeros_like(raw, subok=False) if raw.flags.writeable else x
				y = layouts_fill(raw, vals)
				try:
					got = bit_count(y)
					fine = np.shape(got) == raw.shape and [int(q) for q in np.ravel(got)] == [bin(v).count('1') for v in vals]
					what = f'{got}'
				except Exception as e:
					fine, what = False, f'raised {type(e).__name__}: {e}'
				if not fine:
					led.violate('bit_count', f'bit_count of {vals} ({np.dtype(dt).name}, {nm} layout): {what}')
					break
				led.bounded['bit_count'] += 1
			else:
				led.open['bit_count', f'{nm} {np.dtype(dt).name}: {why}'[:150]] += 1


def layouts_fill(raw, vals):
	"""an array with the strides of raw holding vals"""
	if raw.size == 0: return raw
	if raw.flags.writeable:
		raw[...] = np.array(vals, dtype=raw.dtype).reshape(raw.shape)
		return raw
	return np.array(vals, dtype=raw.dtype).reshape(raw.shape)


def main():
	C = Check('C01', MOD)
	thorough = env.TIER == 'thorough'
	C.contract('blade of the product', ['Algebra.product', 'Algebra.cayley'], 'for all blades a, b of an algebra of n generators and every signature: the product blade is the symmetric difference')
	C.contract('sign of the product', ['Algebra.product', 'Algebra.cayley', 'Algebra.bit_dot', 'bit_count', 'parity_to_sign', 'Algebra.negatives', 'Algebra.zeros', 'bit_pack'], 'the sign is that of sorting with the generators squaring to the metric; zero exactly when a shared generator is null')
	C.contract('parity of swaps', ['Algebra.cayley'], 'the swap count has the parity of the sorting permutation')
	C.contract('cayley blade', ['Algebra.cayley'], 'symmetric difference')
	C.contract('grade', ['Algebra.grade', 'bit_count'], 'number of generators, for every array layout')
	C.contract('involution', ['Algebra.involute', 'parity_to_sign'], '(-1)^grade')
	C.contract('reversal', ['Algebra.reverse', 'parity_to_sign'], 'sign of writing the generators backwards')
	C.contract('complement', ['Algebra.complement'], 'the generators not in the blade')
	C.contract('square of the pseudoscalar', ['Algebra.pseudo_scalar_squared'], 'the generator calculus value')
	C.contract('packed negatives', ['Algebra.negatives', 'bit_pack'], 'bit i set iff generator i squares to -1')
	C.contract('packed zeros', ['Algebra.zeros', 'bit_pack'], 'bit i set iff generator i squares to 0')
	C.contract('bit_dot', ['Algebra.bit_dot'], 'number of shared generators')
	C.contract('bit_count', ['bitops.bit_count'], 'number of set bits of every element: all words of 8/16/32 bits (the blade word sizes), listed layouts')
	C.contract('description masks', ['AlgebraDescription.negatives', 'AlgebraDescription.zeros', 'AlgebraDescription.positives'], 'one bit per generator, all signatures up to the bound')
	C.contract('word size', ['bitops.minimal_uint_type'], 'n generators fit the blade dtype, n = 1..32')
	C.contract('parity_to_sign', ['bitops.parity_to_sign'], '(-1)^p, all 8 and 16 bit integers')
	C.contract('product tables', ['Algebra.product', 'Algebra.grade', 'Algebra.reverse', 'Algebra.involute', 'Algebra.complement', 'Algebra.pseudo_scalar_squared'], 'full tables, all signatures up to the bound')
	C.contract('generator calculus', ['(specification)'], 'the one-generator-at-a-time calculus used as postcondition equals word sorting')
	for n in range(32, 0, -1):
		for p in ('product', 'cayley', 'unary', 'pseudoscalar', 'metric'): C.task('prove_n', n, p)
	for n in range(1, 4 + thorough): C.task('calc_check', n)
	for n in range(1, 5 + thorough):
		for sig in itertools.product((1, -1, 0), repeat=n): C.task('tables', sig)
	for n in range(1, 8 + thorough): C.task('metric_bits', n)
	C.task('bitops')
	C.task('sym_bit_count')
	C.assumptions += [
		'the contracts of AlgebraDescription (masks) and SubSpaceFactory.pseudoscalar replace these callees in the symbolic run; the masks are decided by enumeration up to the stated bound, the pseudoscalar in C18',
		'arrays: the code is elementwise; layouts and lengths 0..4 are enumerated, longer arrays are assumed to be handled by numpy like short ones',
		'little-endian machine words; numpy result dtypes are taken from the real ufuncs on stand-in arrays',
	]
	C.trusted += ['dv/bits.py (machine words as algebraic normal forms; wrap-around modelled as a known modulus)']
	C.run()
	return C.finish()
