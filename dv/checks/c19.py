import dv.env
import copy
from dv.core import *
from dv.families import *
from dv.arrays import Switch, sym_array
from dv.checks import c11
from dv import frame as frames, caches

MOD = __name__

UN = ['dual', 'dual_inverse', 'reverse', 'involute', 'conjugate', 'study_conjugate', 'scalar_negation', 'pseudoscalar_negation', 'squared', 'symmetric_reverse_product', 'symmetric_involute_product',
      'symmetric_conjugate_product', 'symmetric_scalar_negation_product', 'symmetric_pseudoscalar_negation_product', 'inverse_factor', 'degenerate', 'nondegenerate', 'norm_squared', 'copy', '__neg__', '__pos__', '__invert__']
BI = ['product', 'anti_product', 'wedge', 'anti_wedge', 'regressive', 'cross', 'inner', 'anti_inner', 'scalar_product', 'bivector_product', 'trivector_product', 'commutator', 'commutator_anti', 'anti_commutator',
      'commutator_product', 'anti_commutator_product', 'left_contract', 'right_contract', 'reverse_product', 'involute_product', 'conjugate_product', 'scalar_negation_product', 'pseudoscalar_negation_product',
      'anti_reverse_product', 'sandwich', 'reverse_sandwich', 'full_sandwich', 'transform', 'reverse_transform', '__mul__', '__xor__', '__and__', '__or__', '__add__', '__sub__', '__rshift__', '__lshift__']
EXTRA = {
	'x + 1': lambda x: x + 1, '2 * x': lambda x: 2 * x, 'x / 2': lambda x: x / 2, '3 - x': lambda x: 3 - x, 'select[1]': lambda x: x.select[1], 'restrict[0]': lambda x: x.restrict[0], 'select.even_grade()': lambda x: x.select.even_grade(),
	'select all': lambda x: x.select_subspace(x.context.subspace.multivector()), 'restrict self': lambda x: x.restrict_subspace(x.subspace), 'select self': lambda x: x.select_subspace(x.subspace),
	'x - x': lambda x: x - x, 'x * x': lambda x: x * x, 'x + x.reverse()': lambda x: x + x.reverse(), 'index': lambda x: x[...], 'upcast': lambda x: x.upcast(x),
	'partial': lambda x: x.operator.product(x.subspace, x.subspace).partial({0: x}), 'sandwich_map': lambda x: x.sandwich_map(),
	'motor_inverse': lambda x: x.motor_inverse() if x.subspace.in_even else x, 'sandwich self': lambda x: x >> x, 'transform self': lambda x: x.transform(x) if x.subspace.in_even else x,
}
FLOAT = {
	'inverse': lambda x: x.inverse(), 'x / x': lambda x: x / x, '1 / x': lambda x: 1 / x, 'inverse_shirokov': lambda x: x.inverse_shirokov(), 'inverse_hitzer': lambda x: x.inverse_hitzer(), 'inverse_la': lambda x: x.inverse_la(),
	'norm': lambda x: x.norm(), 'normalized': lambda x: x.normalized(), 'square_root': lambda x: x.symmetric_reverse_product().square_root(), 'inverse_square_root': lambda x: x.symmetric_reverse_product().inverse_square_root(),
	'exp': lambda x: x.select[2].exp(), 'exp_bisect': lambda x: x.select[2].exp_bisect(), 'exp_quadratic': lambda x: x.select[2].exp_quadratic(), 'exp_linear_normalized': lambda x: x.select[2].exp_linear_normalized(),
	'motor_log': lambda x: x.select[2].exp().motor_log(), 'motor_log_quadratic': lambda x: x.select[2].exp_quadratic().motor_log_quadratic(), 'motor_square_root': lambda x: x.select[2].exp_quadratic().motor_square_root(),
	'motor_log_of': lambda x: x.motor_log(), 'motor_square_root_of': lambda x: x.motor_square_root(), 'sqrt': lambda x: x.sqrt(), 'invsqrt': lambda x: x.invsqrt(), 'abs': lambda x: x.abs(), 'nan_to_num': lambda x: x.nan_to_num(0),
	'decompose_polar': lambda x: x.select[2].decompose_polar(), 'decompose_invariant': lambda x: x.select[2].decompose_invariant(), 'motor_translator': lambda x: x.motor_translator(), 'motor_rotor': lambda x: x.motor_rotor(),
	'motor_split': lambda x: x.motor_split(x.context.multivector.antivector().copy(values=np.eye(len(x.context.subspace.antivector()))[0])), 'study_norm': lambda x: x.symmetric_reverse_product().study_norm(),
	'geometric_mean': lambda x: x.motor_geometric_mean(x), 'sum': lambda x: x[None].sum(0), 'mean': lambda x: x[None].mean(0), 'reshape': lambda x: x.reshape((1,)), 'rearrange': lambda x: x.rearrange('c -> 1 c'), 'flatten': lambda x: x.flatten(),
	'concatenate': lambda x: x[None].concatenate(x[None], 0), 'repeat': lambda x: x.repeat('c -> r c', r=2), 'inertia_map': lambda x: x.inertia_map(),
}


def mvs_in(o):
	from numga.multivector.multivector import AbstractMultiVector as M
	if isinstance(o, tuple):
		return [p for q in o for p in mvs_in(q)]
	return [o] if isinstance(o, M) else []


def eqv(p, q):
	if p is q: return True
	if isinstance(p, Sym) or isinstance(q, Sym):      # as polynomials: unequal if they differ anywhere
		p, q = (p, q) if isinstance(p, Sym) else (q, p)
		try: return p.t == q.t if isinstance(q, Sym) else p.is_const() and p.const_value() == q
		except (Unsupported, Undefined): return False
	return (type(p) is type(q) and bool(p == q)) or bool(p != p and q != q)


def same(a, b):
	return a.shape == b.shape and all(eqv(p, q) for p, q in zip(a.ravel(), b.ravel()))


def arr(x):
	v = x.values
	return np.asarray(v, dtype=object) if isinstance(v, (list, np.ndarray)) else np.asarray(v)


def framed(led, contract, label, ctx, ops, f, count, marker):
	"""frame condition of one call: operands, blades unchanged; updates of the result do not reach the operands, nor the reverse"""
	before = [arr(x).copy() for x in ops]
	subs = [x.subspace for x in ops]
	blades = [x.subspace.blades.copy() for x in ops]
	try:
		o = f(*ops)
	except (Unsupported, Undefined):
		return
	except Exception:
		o = None      # not applicable to this subspace: it still must leave the operands alone
	def unchanged():
		return all(same(arr(x), b) for x, b in zip(ops, before)) and all(x.subspace is s for x, s in zip(ops, subs)) and all(np.array_equal(x.subspace.blades, b) for x, b in zip(ops, blades))
	ok = unchanged()
	count(contract, ok, f'{label} modified an operand')
	if o is None or not ok:
		return
	for y in mvs_in(o):
		if not isinstance(y.values, list) and len(y.subspace) and arr(y).size:
			keep = arr(y).copy()
			z = y.at[..., 0].set(marker)
			count(contract, unchanged() and same(arr(y), keep), f'{label}: updating the result (.at[].set) changed an operand, or the result in place')
			for x in ops:
				if len(x.subspace):
					x.at[..., 0].set(marker)
			count(contract, unchanged() and same(arr(y), keep), f'{label}: updating an operand (.at[].set) changed the result, or the operand in place')
			count(contract, same(arr(z)[..., :1], np.full_like(arr(z)[..., :1], marker)) and same(arr(z)[..., 1:], keep[..., 1:]), f'{label}: .at[..., 0].set does not set exactly that component')


def frame(led, which, sig, Vs):
	ctx = c11.make(which, sig, 'sparse' if which == 'python' else 'einsum')
	R = Ring()
	marker = R.const(77) if which != 'python' else 77.0
	def X(V, nm):
		a = sym_array(R, nm, (len(V),))
		return ctx.multivector(values=list(a) if which == 'python' else a, subspace=sub(ctx, V))
	c = f'{which} frame'
	def count(contract, ok, what):
		led.enum(contract, ok, f'{which} {sig}: {what}')
	def go(*a):
		try:
			framed(*a)
		except Exception as e:
			if which not in ('jax', 'torch'): raise
			led.open[c, f'not on the stand-in arrays: {type(e).__name__}: {e}'[:160]] += 1      # the runs of the unmodified backend decide
	un = [k for k in UN if which != 'python' or k not in ('copy', '__neg__', '__pos__', 'norm_squared')]
	bi = [k for k in BI if which != 'python' or k not in ('__add__', '__sub__', '__mul__')]
	for V, W in Vs:
		for k in un:
			go(led, c, f'{k} on {V}', ctx, [X(V, 'x')], lambda x: getattr(x, k)(), count, marker)
		for k in bi:
			go(led, c, f'{k} on {V}, {W}', ctx, [X(V, 'x'), X(W, 'y')], lambda x, y: getattr(x, k)(y), count, marker)
		if which != 'python':
			for k, f in EXTRA.items():
				go(led, c, f'{k} on {V}', ctx, [X(V, 'x')], f, count, marker)


def frame_float(led, sig, Vs, seed):
	"""the routines with roots, logarithms and branches: sampled numbers (bounded)"""
	r = rng('c19f', sig, seed)
	ctx = context(sig, np.float64)
	def count(contract, ok, what):
		led.num(contract, ok, f'{sig}: {what}')
	with np.errstate(all='ignore'):
		for V in Vs:
			for k, f in FLOAT.items():
				x = ctx.multivector(values=np.array([r.uniform(.2, 1) for _ in V]), subspace=sub(ctx, V))
				framed(led, 'frame of roots, inverses and logarithms', f'{k} on {V}', ctx, [x], f, count, 77.0)


def frame_shipped(led, which, name):
	"""the unmodified backends on machine numbers: methods of multivectors, containers, operators and maps (bounded)"""
	g = np.random.default_rng(7)
	sig = (1, 1, 0)
	ctx = c11.make(which, sig, name)
	c = f'{which} frame as shipped'
	def arr(o):
		v = o.kernel if hasattr(o, 'kernel') else o.values
		return np.array(v, dtype=float)       # a copy
	V, W = [0, 3, 5, 6], [1, 2, 4]
	with ctx.real():
		f = ctx.operator
		batches = [()] if which == 'python' else [(), (2,), (2, 3)]
		for sh in batches:
			def X(V, sh=sh):
				a = g.integers(1, 6, size=sh + (len(V),)).astype(float)
				return ctx.multivector(values=a.tolist() if which == 'python' else a, subspace=sub(ctx, V))
			calls = [(k, [V], lambda x, k=k: getattr(x, k)()) for k in UN if which != 'python' or k not in ('copy', '__neg__', '__pos__', 'norm_squared')]
			if sh: calls = calls[::4]
			calls += [(k, [V, W], lambda x, y, k=k: getattr(x, k)(y)) for k in (BI if not sh else ['product', 'sandwich', 'wedge', '__add__', '__sub__']) if which != 'python' or k not in ('__add__', '__sub__', '__mul__')]
			if which != 'python':
				calls += [(k, [V], h) for k, h in EXTRA.items()]
				calls += [(k, [V], h) for k, h in FLOAT.items() if k in (FLOAT if name == 'einsum' and which != 'jax' and not sh else ('norm', 'normalized', 'abs', 'sqrt', 'nan_to_num', 'inverse', 'exp_bisect'))]
				calls += [('partial 0', [V, W], lambda x, y: f.product(x.subspace, y.subspace).partial({0: x})), ('partial 1', [V, W], lambda x, y: f.product(x.subspace, y.subspace).partial({1: y})),
				          ('map of a vector', [V, W], lambda x, y: x.sandwich_map(y.subspace)(y)), ('inertia of', [W], lambda x: x.inertia_map())]
			if sh:
				calls += [('[0]', [V], lambda x: x[0]), ('slice', [V], lambda x: x[:1]), ('concatenate', [V, V], lambda x, y: x.concatenate(y, 0)), ('sum', [V], lambda x: x.sum(0)), ('mean', [V], lambda x: x.mean(0)),
				          ('set row', [V, V], lambda x, y: x.at[0].set(y[1])), ('set component', [V], lambda x: x.at[..., 1].set(5.)), ('set slice', [V, V], lambda x, y: x.at[:1].set(y[:1])), ('set mask', [V], lambda x: x.at[np.array([True, False])].set(3.)),
				          ('set indices', [V], lambda x: x.at[np.array([1, 0])].set(x[np.array([0, 0])])), ('rearrange', [V], lambda x: x.rearrange('a ... c -> a ... c')), ('repeat', [V], lambda x: x.repeat('a ... c -> (r a) ... c', r=2)),
				          ('set of a view', [V, V], lambda x, y: x[0].at[..., 0].set(4.))]
			for k, axes, h in calls:
				ops = [X(a) for a in axes]
				before = [arr(x) for x in ops]
				blades = [x.subspace.blades.copy() for x in ops]
				try: o = h(*ops)
				except Exception: o = None      # not applicable here: it still must leave the operands alone
				def unchanged():
					return all(same(arr(x), b) for x, b in zip(ops, before)) and all(np.array_equal(x.subspace.blades, b) for x, b in zip(ops, blades))
				led.num(c, unchanged(), f'{which}/{name}: {k} on {axes} batch {sh} modified an operand')
				if o is None: continue
				for y in o if isinstance(o, tuple) else (o,):
					if which == 'python' or not hasattr(y, 'at') or not arr(y).size: continue
					if getattr(y, 'kernel', None) is not None:
						if not sh: continue        # maps over a batch: replace the first one
						i = 0
						m = arr(y)[0] * 0 + 9
					else:
						i, m = (Ellipsis, 0), 77.
					keep = arr(y)
					try: z = y.at[i].set(m)
					except (TypeError, RuntimeError, ValueError): continue        # integer kernels of the unbatched operators
					led.num(c, unchanged() and same(arr(y), keep), f'{which}/{name}: updating (.at[].set) the result of {k} on {axes} batch {sh} changed an operand, or the result in place')
					for x in ops: x.at[..., 0].set(m if isinstance(m, float) else 77.)
					led.num(c, unchanged() and same(arr(y), keep), f'{which}/{name}: updating (.at[].set) an operand of {k} on {axes} batch {sh} changed the result, or the operand in place')


def frame_optimized(led, seed):
	"""the optional optimised routines, which work in place on copies: same frame condition; runs in a process of its own, since
	importing them changes the dispatch of every algebra with these blade names"""
	from numga.multivector.extension import optimized
	r = rng('c19o', seed)
	ctx = NumpyContext(Algebra('x+y+z+w0'), dtype=np.float64)
	even = [0, 3, 5, 6, 9, 10, 12, 15]
	def count(contract, ok, what):
		led.num(contract, ok, f'optimised: {what}')
	fs = {'normalized': lambda x: x.normalized(), 'exp': lambda x: x.exp(), 'normalized twice': lambda x: x.normalized().normalized()}
	with np.errstate(all='ignore'):
		for V in ([even, even[1:7], even[1:4], even[4:7]] if not seed else [even, even[1:7]]):
			for shape in ((), (2,), (2, 1), (0,)):
				for k, f in fs.items():
					x = ctx.multivector(values=np.array([r.uniform(.2, 1) for _ in range(int(np.prod(shape)) * len(V))]).reshape(shape + (len(V),)), subspace=sub(ctx, V))
					if 'normalized' in k and V is not even:
						continue
					framed(led, 'frame of roots, inverses and logarithms', f'{k} on {V} batch {shape}', ctx, [x], f, count, 77.0)
					if shape == (2,):       # an operand that is a view of another one
						y = x[0]
						framed(led, 'frame of roots, inverses and logarithms', f'{k} on a part of {V}', ctx, [y, x], lambda y, x: f(y), count, 77.0)


# ---- shared operators
def public(alg):
	return [k for k in sorted(set(dir(type(alg.operator))) | set(vars(alg.operator))) if not k.startswith('_') and callable(getattr(alg.operator, k, None))]


def same_operator(a, b):
	return a.kernel.shape == b.kernel.shape and np.array_equal(a.kernel, b.kernel) and [list(map(int, x.blades)) for x in a.axes] == [list(map(int, x.blades)) for x in b.axes]


def shared(led, sig, k, seed):
	"""every operator of the factory keeps its kernel and axes, whichever others are asked for in between, and
	equals the one a new algebra gives when asked for it first"""
	r = rng('c19s', sig, seed)
	n = len(sig)
	for _ in range(k):
		Vs = [order(b for b in range(1 << n) if popcount(b) % 2 == 0), order(b for b in range(1 << n) if popcount(b) == 1), order(random_subset(r, n)), order(b for b in range(1 << n) if popcount(b) in (0, 2))]
		V, W = r.choice(Vs), r.choice(Vs)
		reqs = [(nm, a) for nm in public(algebra(sig)) for a in ((V,), (V, W))]
		r.shuffle(reqs)
		alg = Algebra(algebra(sig).description)
		seen = []
		for nm, args in reqs:
			try:
				op = getattr(alg.operator, nm)(*[sub(alg, a) for a in args])
				if not hasattr(op, 'kernel') or not hasattr(op, 'axes'): continue
				seen.append((nm, args, op, np.array(op.kernel, copy=True), [np.array(a.blades, copy=True) for a in op.axes]))
			except Exception:
				continue
		for nm, args, op, K, ax in seen:
			led.enum('shared operators', np.array_equal(op.kernel, K) and all(np.array_equal(a.blades, b) for a, b in zip(op.axes, ax)), f'operator {nm} on {args} in {sig} was changed by asking for other operators')
			led.enum('shared operators', same_operator(getattr(alg.operator, nm)(*[sub(alg, a) for a in args]), op), f'asking again for {nm} on {args} in {sig} gives a different operator')
		for nm, args, op, K, ax in r.sample(seen, min(len(seen), 12)):
			new = Algebra(algebra(sig).description)
			led.enum('shared operators', same_operator(getattr(new.operator, nm)(*[sub(new, a) for a in args]), op), f'{nm} on {args} in {sig} differs from the one of a new algebra')


# ---- history
def probes(n):
	from itertools import product as P
	g = lambda alg: [alg.subspace.k_vector(k) for k in range(n + 1)] + [alg.subspace.even_grade(), alg.subspace.multivector(), alg.subspace.from_blades([0, 1]), alg.subspace.empty()]
	return g


def probe(alg, ctx, i, j, nm, R):
	"""one expression; its value as (blades, coefficients), or the name of the exception"""
	S = probes(alg.n_dimensions)(alg)
	V, W = S[i % len(S)], S[j % len(S)]
	x = ctx.multivector(values=sym_array(R, 'x', (len(V),)) if R else np.arange(1., len(V) + 1), subspace=V)
	y = ctx.multivector(values=sym_array(R, 'y', (len(W),)) if R else np.arange(2., len(W) + 2), subspace=W)
	try:
		with np.errstate(all='ignore'):
			o = {**{k: (lambda k=k: getattr(x, k)()) for k in UN}, **{k: (lambda k=k: getattr(x, k)(y)) for k in BI}, **{k: (lambda f=f: f(x)) for k, f in EXTRA.items()}, **{k: (lambda f=f: f(x)) for k, f in FLOAT.items()},
			     'simplicity': lambda: V.simplicity, 'minimal_subalgebra': lambda: V.minimal_subalgebra, 'is_study': lambda: V.is_study, 'union': lambda: V.union(W), 'pretty_str': lambda: V.pretty_str, 'named': lambda: V.named_str,
			     'product subspace': lambda: V.product(W), 'basis': lambda: ctx.multivector.basis()[0]}[nm]()
	except Exception as e:
		return type(e).__name__
	return freeze(o)


def freeze(o):
	from numga.subspace.subspace import SubSpace
	if isinstance(o, tuple):
		return tuple(map(freeze, o))
	if isinstance(o, SubSpace):
		return 'subspace', tuple(map(int, o.blades))
	if hasattr(o, 'subspace') and hasattr(o, 'values'):
		return 'mv', tuple(map(int, o.subspace.blades)), tuple(repr_of(v) for v in np.asarray(o.values, dtype=object).ravel()), np.shape(o.values)
	if hasattr(o, 'kernel'):
		return 'op', tuple(tuple(map(int, a.blades)) for a in o.operator.axes), tuple(repr_of(v) for v in np.asarray(o.kernel, dtype=object).ravel())
	return repr(o)


def repr_of(v):
	"""comparable across rings: coefficients by exponent vectors (the variables of the two rings are created in the same order)"""
	if isinstance(v, Sym):
		return tuple(sorted(v.t.items()))
	f = float(v)
	return ('nan',) if f != f else (round(f, 9 - int(np.floor(np.log10(abs(f))))) if f and abs(f) < 1e300 else f,)


ALL = UN + BI + list(EXTRA) + ['simplicity', 'minimal_subalgebra', 'is_study', 'union', 'pretty_str', 'named', 'product subspace', 'basis']


def fresh(sig, obj_):
	alg = Algebra(algebra(sig).description)
	return alg, NumpyContext(alg, dtype=object if obj_ else np.float64)


def history(led, sig, k, seed):
	"""the value of an expression after a history of other expressions equals its value in a new algebra"""
	r = rng('c19h', sig, seed)
	n = len(sig)
	m = n + 5
	for t in range(k):
		ob = t % 3 != 2
		names = ALL + ([] if ob else list(FLOAT))
		target = (r.randrange(m), r.randrange(m), r.choice(names))
		a0, c0 = fresh(sig, ob)
		want = probe(a0, c0, *target, Ring() if ob else None)
		a1, c1 = fresh(sig, ob)
		other = tuple(r.choice((1, -1, 0)) for _ in range(r.randint(1, 3)))
		a2, c2 = fresh(other, ob)
		c3 = NumpyContext(a1, dtype=np.float64, otype=c11.npo.NumpySparseOperator)
		hist = []
		cnt = (lambda c, ok, w: led.enum(c, ok, w)) if ob else (lambda c, ok, w: led.num(c, ok, w))
		for _ in range(r.randint(2, 9)):
			h = (r.randrange(m), r.randrange(m), r.choice(names))
			where = r.randrange(6)
			if where == 0:
				probe(a2, c2, *h, Ring() if ob else None)
			elif where == 1:
				probe(a1, c3, *h, None)
			else:
				probe(a1, c1, *h, Ring() if ob else None)
			hist.append((('other algebra', 'other context') + ('same',) * 4)[where] + ' ' + repr(h))
		got = probe(a1, c1, *target, Ring() if ob else None)
		again = probe(a1, c1, *target, Ring() if ob else None)
		cnt('history independence' if ob else 'history independence (sampled numbers)', got == want, f'{target} in {sig} is {str(got)[:200]} after {hist}, but {str(want)[:200]} in a new algebra')
		cnt('history independence' if ob else 'history independence (sampled numbers)', again == got, f'{target} in {sig} evaluated twice gives {str(got)[:200]} and then {str(again)[:200]}')
		# invariant of the caches: every entry is what a new computation gives
		af, cf = fresh(sig, True)
		tr = lambda s: af.subspace.from_blades(s.blades) if hasattr(s, 'blades') else s
		cache = getattr(c1.operator, 'cache', {})
		if isinstance(cache, dict):
			for key, op in list(cache.items()):
				if not (isinstance(key, tuple) and len(key) >= 2 and isinstance(key[0], str) and isinstance(key[1], tuple)) or not hasattr(op, 'kernel') or any(not hasattr(s, 'blades') for s in key[1]):
					continue
				o2 = getattr(af.operator, key[0])(*map(tr, key[1]))
				led.enum('operator cache invariant', np.array_equal(op.kernel, o2.kernel) and [list(a.blades) for a in op.operator.axes] == [list(a.blades) for a in o2.axes], f'cached {key[0]} on {[list(s.blades) for s in key[1]]} in {sig} differs from a new computation, after {hist}')
				led.enum('operator cache invariant', np.array_equal(getattr(a1.operator, key[0])(*key[1]).kernel, o2.kernel), f'asking again for {key[0]} on {[list(s.blades) for s in key[1]]} in {sig} gives a different operator, after {hist}')
		for key, s in list(getattr(a1.subspace, 'flyweight_pool', {}).items()):
			led.enum('subspace pool invariant', a1.subspace.from_blades(s.blades) is s and [int(b) for b in s.blades] == order(set(map(int, s.blades))), f'pooled subspace {list(s.blades)} in {sig} is not canonical any more, after {hist}')
			def writes():
				try:
					s.blades[...] = 0
					return not len(s)
				except ValueError:
					return True
			led.enum('subspace pool invariant', writes(), f'blades of a pooled subspace in {sig} can be overwritten')


def repeat(led, sig, k):
	"""asking for the same operator twice, also through different routes, gives equal operators; kernels survive evaluation"""
	r = rng('c19r', sig)
	ctx = context(sig)
	n = len(sig)
	f = ctx.operator
	names1 = ['reverse', 'involute', 'conjugate', 'right_hodge', 'left_hodge', 'right_complement', 'degenerate', 'identity', 'scalar_negation', 'symmetric_reverse_product', 'squared', 'inverse_factor']
	names2 = ['product', 'wedge', 'inner', 'regressive', 'commutator', 'anti_product', 'select', 'restrict', 'sandwich', 'full_sandwich', 'transform', 'reverse_product', 'inertia']
	for _ in range(k):
		V, W = sub(ctx, order(random_subset(r, n))[:6]), sub(ctx, order(random_subset(r, n))[:4])
		nm = r.choice(names1 + names2 * 2)
		args = (V,) if nm in names1 else (V, W)
		if nm == 'transform' and not (V.in_even or V.in_odd):
			continue
		a = getattr(f, nm)(*args)
		K = np.array(a.kernel, copy=True)
		R = Ring()
		xs = [ctx.multivector(values=sym_array(R, f'x{i}', (len(s),)), subspace=s) for i, s in enumerate(a.inputs)]
		o1 = a(*xs)
		v1 = np.array(o1.values, copy=True)
		if a.arity > 1:
			a.partial({0: xs[0]})
		if len(o1.subspace):
			o1.at[..., 0].set(R.const(5))
		b = getattr(f, nm)(*args)
		o2 = b(*xs)
		led.enum('repeated operators', np.array_equal(K, a.kernel) and np.array_equal(K, b.kernel) and a.inputs == b.inputs and a.output is b.output, f'{nm} on {[list(s.blades) for s in args]} in {sig} changed by being evaluated')
		led.enum('repeated operators', same(np.asarray(o2.values), v1) and same(np.asarray(o1.values), v1), f'{nm} on {[list(s.blades) for s in args]} in {sig} evaluates differently the second time')


def ownership(led):
	try: frames.frame_obligations(led)
	except (SyntaxError, OSError, RecursionError, KeyError, AttributeError, TypeError, ValueError, IndexError) as e:
		led.open['frame of every function (all inputs, all histories)', f'outside the verifier: {type(e).__name__}: {e}'[:150]] += 1


def operator_cache(led, k):
	caches.prove_operator_cache(led, k)


def main():
	ch = Check('C19', MOD)
	T = env.THOROUGH
	try: names = [f.qual for f in frames.Package(env.REPO).functions if f.name != '<lambda>']
	except (SyntaxError, OSError): names = []
	ch.contract('frame of every function (all inputs, all histories)', names, 'assigns nothing that existed before the call, except the fields of the object an __init__ constructs and the caches with an invariant; ownership analysis of the source, every input, shape and history')
	ch.contract('no ambient state', ['numga.*'], 'no function reads a clock, random numbers, the environment or other ambient state')
	ch.contract('operator cache invariant (every history)', ['ConcreteOperatorFactory.__getattr__', 'ConcreteOperatorFactory.__call__', 'ConcreteOperatorFactory.__init__'], 'every entry is what a new computation gives for a request with that key; a request returns what a new computation gives; any number of earlier requests')
	ch.task('ownership')
	for k in range(5): ch.task('operator_cache', k)
	for w in ('numpy', 'jax', 'torch', 'python'):
		ch.contract(f'{w} frame', [f'{w.capitalize()}MultiVector.{k}' for k in UN + BI] + list(EXTRA), 'assigns nothing reachable from the operands (frame), result and operands do not share updates through .at[].set; for all coefficients')
		ch.contract('frame of roots, inverses and logarithms', ['mv.' + k for k in FLOAT], 'same frame condition, on sampled numbers (bounded)')
	ch.contract('history independence', ['ConcreteOperatorFactory.__getattr__', 'OperatorFactory.* (functools.cache)', 'SubSpaceFactory.*', 'SubspaceDispatch.__call__'], 'value after a history of calls == value in a new algebra, for all coefficients, on the enumerated histories')
	ch.contract('history independence (sampled numbers)', ['mv.' + k for k in FLOAT], 'the same for routines with roots and branches (bounded)')
	ch.contract('operator cache invariant', ['ConcreteOperatorFactory.cache'], 'invariant: every entry equals a new computation')
	ch.contract('subspace pool invariant', ['FlyweightFactory.flyweight_pool'], 'invariant: every entry is canonical and write-protected')
	ch.contract('shared operators', ['OperatorFactory.' + k for k in public(algebra((1,)))], 'assigns nothing of an operator handed out before; a repeated request, in any order among others, gives an equal operator')
	ch.contract('repeated operators', ['ConcreteOperatorFactory.__getattr__', 'NumpyEinsumOperator.__call__', 'NumpyOperator.partial'], 'evaluation leaves kernels alone; a repeated request gives an equal operator')
	r = rng('c19')
	for w in ('numpy', 'jax', 'torch', 'python'):
		for sig in [(1, 0), (1, -1, 1), (1, 1, 0)] + ([(1, 1, 1, 0), (-1, 1, 0, 1)] if T else []):
			n = len(sig)
			Vs = [(order(random_subset(r, n)), order(random_subset(r, n))) for _ in range(4 if T else 2)] + [([0], list(order(range(1 << n)))), (order(b for b in range(1 << n) if popcount(b) % 2 == 0), [1 << i for i in range(n)])]
			for c in chunks(Vs, 2):
				ch.task('frame', w, sig, c)
	for i, sig in enumerate([(1, 1, 1), (1, 1, 0), (1, 1, 1, 0)] + ([(1, 1, -1, 0), (1, 1, 1, 1, 0)] if T else [])):
		n = len(sig)
		ch.task('frame_float', sig, [order(b for b in range(1 << n) if popcount(b) % 2 == 0), [0], [b for b in range(1 << n) if popcount(b) == 2], [b for b in range(1 << n) if popcount(b) == 1], [0, 3], order(range(1 << n))], i)
	for w, names in c11.NAMES.items():
		ch.contract(f'{w} frame as shipped', [f'{w.capitalize()}MultiVector.*', f'{w.capitalize()}Operator.*', f'{w.capitalize()}Context.set_array'], 'the same frame condition on machine numbers with the unmodified backend (bounded)')
		for nm in names: ch.task('frame_shipped', w, nm)
	for i in range(4 if T else 1):
		ch.task('frame_optimized', i)
	for i, sig in enumerate([(1, 0), (1, 1, 0), (1, -1, 1), (1, 1, 1, 0), (1, 1, 1, 1), (1, 1, 1, 1, 1), (1, 1, 1, 1, 0)] * (3 if T else 1)):
		ch.task('shared', sig, (3 if len(sig) < 5 else 1) * (4 if T else 1), i)
	for i in range(16 if not T else 64):
		sig = [(1, 0), (1, -1, 1), (1, 1, 0), (-1, 0), (1, 1, 1), (1, 0, 0), (1, 1, 1, 0), (1,)][i % 8]
		ch.task('history', sig, 25 if not T else 80, i)
	for sig in [(1, 0), (1, 1, 0), (1, -1, 1), (1, 1, 1, 0), (0, 1, -1)]:
		ch.task('repeat', sig, 60 if not T else 300)
	ch.run_isolated()
	return ch.finish()
