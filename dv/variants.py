"""Forms of the operands that the exact-coefficient proofs do not range over: batches of rank up to four (also empty ones, and operands of
different rank), integer, single precision and complex dtypes, arrays in other memory layouts or not writable, nested lists, and the same object
passed for both operands. The real methods run on such operands and every element of the result is compared with the real method run on that
element alone in the form the proofs cover (exact numbers of python, no batch, distinct objects). Bounded evaluations, never counted as proved."""
from dv.core import *
from dv.spec import blades_of_grades
from dv.families import random_subset
import itertools
import numga.multivector.extension

SIGS = [(1, 1, 1), (1, 0), (1, 1, 1, 0), (1, -1, 1, 0)]


def names(*l): return {k: (lambda *a, k=k: getattr(a[0], k)(*a[1:])) for k in l}
OPS = {
	'C02': {1: names('reverse', 'involute', 'conjugate', 'study_conjugate', 'scalar_negation', 'pseudoscalar_negation', '__invert__', 'degenerate', 'nondegenerate')},
	'C04': {2: names('product', '__mul__')},
	'C05': {2: names('wedge', '__xor__', 'inner', '__or__', 'scalar_product', 'bivector_product', 'commutator', 'commutator_anti', 'anti_commutator', 'anti_commutator_anti', 'commutator_product', 'commutator_anti_product', 'anti_commutator_product',
	               'anti_commutator_anti_product', 'left_contract', 'right_contract', 'reverse_product', 'involute_product', 'conjugate_product', 'scalar_negation_product', 'pseudoscalar_negation_product', 'anti_reverse_product')},
	'C06': {1: names('dual', 'dual_inverse')},
	'C07': {2: names('anti_product', 'anti_wedge', 'regressive', '__and__', 'cross', 'anti_inner', 'join', 'meet')},
	'C08': {1: names('squared', 'symmetric_reverse_product', 'symmetric_involute_product', 'symmetric_conjugate_product', 'symmetric_scalar_negation_product', 'symmetric_pseudoscalar_negation_product', 'inverse_factor')},
	'C09': {2: {**names('sandwich', 'reverse_sandwich', 'full_sandwich', '__rshift__', '__lshift__', 'transform', 'reverse_transform'), 'sandwich_map': lambda x, y: x.sandwich_map(y.subspace)(y)}},
	'C12': {1: {'neg': lambda x: -x, 'pos': lambda x: +x, 'x + 2': lambda x: x + 2, '2 - x': lambda x: 2 - x, 'x - 2': lambda x: x - 2, '3 * x': lambda x: 3 * x, 'x * 3': lambda x: x * 3, 'select even': lambda x: x.select.even_grade(), 'restrict vector': lambda x: x.restrict.vector(),
	            'select[1]': lambda x: x.select[1], 'restrict[0, 2]': lambda x: x.restrict[0, 2]},
	        2: {'x + y': lambda x, y: x + y, 'x - y': lambda x, y: x - y, 'x in the set of y': lambda x, y: x.select_subspace(y.subspace), 'x restricted': lambda x, y: x.restrict_subspace(y.subspace)}},
}
BATCHES1 = [(1,), (3,), (2, 3), (2, 1, 3), (1, 2, 1, 2), (0,), (2, 0)]
BATCHES2 = [((3,), ()), ((), (3,)), ((2, 3), (3,)), ((2, 1), (1, 3)), ((2, 1, 2), (2, 1, 2)), ((2,), (2, 1, 2)), ((1, 2, 1, 2), (2, 1, 1)), ((3,), (3,)), ((1,), (3,)), ((0,), (0,)), ((0, 1), (1,)), ((2, 2), ())]
DTYPES = [np.float64, np.float32, np.int64, np.int32, np.complex128]


def form(v, kind, dtype):
	"""the same numbers in another memory form"""
	a = np.array(v, dtype=dtype)
	if kind == 'plain': return a
	if kind == 'fortran': return np.asfortranarray(a)
	if kind == 'read only':
		a.flags.writeable = False
		return a
	if kind == 'reversed strides': return np.ascontiguousarray(a[..., ::-1])[..., ::-1]
	if kind == 'every other': return np.repeat(a, 2, axis=-1)[..., ::2]
	if kind == 'transposed':
		return np.moveaxis(np.ascontiguousarray(np.moveaxis(a, -1, 0)), 0, -1)
	if kind == 'list': return v.tolist() if v.size else a
	raise AssertionError(kind)
FORMS = ['plain', 'fortran', 'read only', 'reversed strides', 'every other', 'transposed', 'list']


def operand_sets(r, n, k):
	full = list(range(1 << n))
	pool = [[b for b in full if popcount(b) % 2 == 0], blades_of_grades(n, [1]), blades_of_grades(n, [2]), full, blades_of_grades(n, [0, 1]), [0], [full[-1]]]
	return [r.choice(pool) if r.random() < .7 else random_subset(r, n) for _ in range(k)]


def polynomial(led, contract, pid, sig, part, parts):
	"""operations that are polynomials in the coefficients: integers, exactly"""
	n = len(sig)
	ref = NumpyContext(algebra(sig), dtype=object)
	ctxs = {d: NumpyContext(algebra(sig), dtype=d) for d in DTYPES}
	r = rng('variants', pid, sig)
	k = 0
	for arity, ops in OPS[pid].items():
		for nm, f in ops.items():
			cases = []
			for bs in (BATCHES1 if arity == 1 else BATCHES2): cases.append((bs if arity == 2 else (bs,), r.choice(DTYPES), [r.choice(FORMS) for _ in range(arity)], False))
			for d in DTYPES: cases.append((((),) * arity, d, ['plain'] * arity, False))
			for fm in FORMS: cases.append((((2,),) * arity, np.float64, [fm] * arity, False))
			if arity == 2:
				for b in ((), (2,), (2, 1, 2)): cases += [((b, b), d, ['plain'] * 2, True) for d in (np.float64, r.choice(DTYPES))] * 3
			for batches, dtype, forms, tied in cases:
				k += 1
				sets = operand_sets(r, n, arity)
				if tied: sets = [sets[0]] * arity
				seed = r.randrange(1 << 30)
				if k % parts != part: continue
				g = np.random.default_rng(seed)
				bl = [[int(b) for b in sub(ref, s).blades] for s in sets]
				vals = [g.integers(-3, 4, size=b + (len(s),)) for b, s in zip(batches, bl)]
				if dtype is np.complex128: vals = [v + 1j * g.integers(-3, 4, size=v.shape) for v in vals]
				if tied: vals = [vals[0]] * arity
				label = f'{nm} sig={"".join(SIGN[x] for x in sig)} on {sets} with batches {batches}, {np.dtype(dtype).name}, {"/".join(forms)}' + (', the same object twice' if tied else '')
				def one(idx):
					ms = [ref.multivector(values=obj([complex(x) if dtype is np.complex128 else int(x) for x in v[i]]), subspace=sub(ref, s)) for v, i, s in zip(vals, idx, bl)]
					try: return ms, f(*ms)
					except Exception as e: return ms, e
				def val(m): return [complex(x) for x in m.values.tolist()], [int(b) for b in m.subspace.blades]
				shape = np.broadcast_shapes(*batches)
				index = lambda e: [tuple(0 if d == 1 else e[len(shape) - len(b) + j] for j, d in enumerate(b)) for b in batches]
				els = list(itertools.product(*map(range, shape)))
				if els: want0 = one(index(els[0]))[1]
				else:
					ms = [ref.multivector(values=obj([0] * len(s)), subspace=sub(ref, s)) for s in bl]
					try: want0 = f(*ms)
					except Exception as e: want0 = e
				if isinstance(want0, Exception): continue         # not defined on these operands (checked elsewhere)
				ctx = ctxs[dtype]
				try:
					ms = [ctx.multivector(values=form(v, fm, dtype), subspace=sub(ctx, s)) for v, fm, s in zip(vals, forms, bl)]
					if any(not np.array_equal(np.asarray(m.values), v) or m.values.shape != v.shape for m, v in zip(ms, vals)):
						led.num(contract, False, f'{label}: the constructed operand does not hold the given values')
						continue
					if tied: ms = [ms[0]] * arity
					got = f(*ms)
				except Exception as e:
					led.num(contract, False, f'{label}: raises {type(e).__name__}: {e}; on each element alone it is defined'[:600])
					continue
				gv = np.asarray(got.values)
				if len(got.subspace) and gv.shape[-1] != len(got.subspace):
					led.num(contract, False, f'{label}: {gv.shape} values for {len(got.subspace)} blades'); continue
				try: gv = np.broadcast_to(gv, shape + (len(got.subspace),))
				except ValueError:
					led.num(contract, False, f'{label}: result of shape {gv.shape[:-1]} for batches {batches}'); continue
				ok, why = True, ''
				for e in els:
					ms, w = one(index(e))
					wv, wb = val(w)
					gb = [int(b) for b in got.subspace.blades]
					wd, gd = dict(zip(wb, wv)), dict(zip(gb, gv[e].tolist()))
					bad = [b for b in set(wd) | set(gd) if wd.get(b, 0) != gd.get(b, 0)]
					if bad: ok, why = False, f'element {e}: blade {bad[0]} is {gd.get(bad[0], 0)}, alone it is {wd.get(bad[0], 0)}'; break
				led.num(contract, ok, f'{label}: {why}', input=[v.tolist() if dtype is not np.complex128 else str(v.tolist()) for v in vals])
	led.cover(f'{pid} operand forms', k)


def tasks(c, pid, parts=2):
	c.contract('operand forms', ['AbstractMultiVector', 'NumpyContext.coerce_array', 'NumpyMultiVector.construct', 'NumpyEinsumOperator.__call__'],
	           'every element of the result on operands of any batch rank, dtype, memory layout, or the same object twice is the result on that element alone (bounded)')
	for sig in SIGS:
		for p in range(parts): c.task('polynomial', 'operand forms', pid, sig, p, parts, module='dv.variants')
