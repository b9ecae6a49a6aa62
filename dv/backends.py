"""The extension functions on the backends as shipped: JaxContext, TorchContext and the default (float32) NumpyContext run the same
functions, whose contracts are proved for the numpy backend over exact coefficients; here their values on fixed batched operands are compared
with the double precision numpy ones. Bounded evaluations, never counted as proved."""
from dv.core import *
from dv.variants import form, FORMS
import numga.multivector.extension

SIGS = {3: [(1, 1, 1)], 4: [(1, 1, 1, 0), (1, 1, 1, -1)], 5: [(1, -1, 1, 1, 1)]}
SG = {1: '+', -1: '-', 0: '0'}


def E(*grades): return lambda n: [g for g in grades if g <= n]
def even(n): return range(0, n + 1, 2)
def sc(n): return [0]

# name -> (grades of the operands, function)
OPS = {
	'C12': {
		'a + b': ((E(1), even), lambda a, b: a + b), 'a - b': ((E(1, 2), even), lambda a, b: a - b), '1 + a': ((E(1),), lambda a: 1 + a), 'a - 1.5': ((E(1),), lambda a: a - 1.5), '1.5 - a': ((even,), lambda a: 1.5 - a),
		'-a': ((even,), lambda a: -a), 'a / 2': ((even,), lambda a: a / 2), '3 * a': ((even,), lambda a: 3 * a), 'a.select[1]': ((even,), lambda a: a.select[1]), 'a.restrict[2]': ((even,), lambda a: a.restrict[2]),
		'a.select.vector()': ((E(1, 2),), lambda a: a.select.vector()), 'a[bivector]': ((even,), lambda a: a.select_subspace(a.context.algebra.subspace.bivector())),
	},
	'C13': {
		'inverse of a motor': ((even,), lambda m: m.inverse()), 'inverse of a vector': ((E(1),), lambda m: m.inverse()), 'inverse of a bivector': ((E(2),), lambda m: m.inverse()), 'inverse of scalar + vector': ((E(0, 1),), lambda m: m.inverse()),
		'inverse of a scalar': ((sc,), lambda m: m.inverse()), 'inverse_shirokov': ((even,), lambda m: m.inverse_shirokov()), 'inverse_hitzer': ((even,), lambda m: m.inverse_hitzer()), 'inverse_la': ((even,), lambda m: m.inverse_la()),
		'a / b': ((E(1), even), lambda a, b: a / b), '1 / a': ((even,), lambda a: 1 / a), 'a / scalar': ((even, sc), lambda a, b: a / b),
	},
	'C14': {
		'norm of a vector': ((E(1),), lambda x: x.norm()), 'norm of a motor': ((even,), lambda x: x.norm()), 'norm_squared': ((even,), lambda x: x.norm_squared()), 'normalized motor': ((even,), lambda x: x.normalized()),
		'normalized vector': ((E(1),), lambda x: x.normalized()), 'square_root of a scalar': ((sc,), lambda x: x.square_root()), 'square_root of a study number': ((E(0, 4),), lambda x: x.square_root()),
		'inverse_square_root': ((E(0, 4),), lambda x: x.inverse_square_root()), 'study_norm': ((E(0, 4),), lambda x: x.study_norm()), 'norm of a scalar': ((sc,), lambda x: (-x).norm()), 'invsqrt': ((sc,), lambda x: x.invsqrt()), 'sqrt': ((sc,), lambda x: x.sqrt()),
		'motor_square_root': ((even,), lambda m: m.normalized().motor_square_root()), 'motor_geometric_mean': ((even, even), lambda l, r: l.normalized().motor_geometric_mean(r.normalized())),
	},
	'C15': {
		'exp of a bivector': ((E(2),), lambda b: b.exp()), 'exp_linear': ((E(2),), lambda b: b.exp_linear()), 'exp_linear_normalized': ((E(2),), lambda b: b.exp_linear_normalized()), 'exp_quadratic': ((E(2),), lambda b: b.exp_quadratic()),
		'motor_log': ((even,), lambda m: m.normalized().motor_log()), 'motor_log_linear': ((even,), lambda m: m.motor_log_linear()), 'motor_log_linear_normalized': ((even,), lambda m: m.normalized().motor_log_linear_normalized()),
		'motor_log_quadratic': ((even,), lambda m: m.normalized().motor_log_quadratic()), 'exp of a scalar': ((sc,), lambda x: x.exp()), 'log of a scalar': ((sc,), lambda x: x.log()), 'exp of a null bivector': ((None,), lambda b: b.exp()),
	},
	'C16': {
		'decompose_invariant': ((E(2),), lambda b: b.decompose_invariant()), 'decompose_polar': ((E(2),), lambda b: b.decompose_polar()), 'motor_translator': ((even,), lambda m: m.normalized().motor_translator()), 'motor_rotor': ((even,), lambda m: m.normalized().motor_rotor()),
		'motor_split': ((even, lambda n: [n - 1]), lambda m, o: m.normalized().motor_split(o)),
	},
}
TOL = {'exp of a bivector': 2e-3, 'motor_log': 2e-3, 'C12': 1e-5}


def make(which, s):
	if which == 'numpy, double precision': return NumpyContext(s, dtype=np.float64)
	if which == 'numpy, single precision': return NumpyContext(s, dtype=np.float32)
	if which == 'jax':
		from numga.backend.jax.context import JaxContext
		return JaxContext(s)
	from numga.backend.torch.context import TorchContext
	return TorchContext(s)


def agree(led, contract, pid, which, sig):
	n = len(sig)
	s = ''.join(a + SG[k] for a, k in zip('xyzwv', sig))
	ref, ctx = NumpyContext(s, dtype=np.float64), make(which, s)
	double = which == 'numpy, double precision'
	def parts(m): return m if isinstance(m, (tuple, list)) else (m,)
	def val(m): return np.asarray(m.values.tolist() if hasattr(m.values, 'tolist') else m.values, dtype=np.float64)
	for nm, (spaces, f) in OPS[pid].items():
		if nm == 'inverse_la' and which == 'torch': continue
		cases = [((), 0, 'plain'), ((3,), 0, 'plain'), ((2, 1, 2), 0, 'plain')]
		if double: cases += [((1,), 0, 'plain'), ((2, 3), 0, 'plain'), ((1, 2, 1, 2), 0, 'plain')] + [((2,), 0, k) for k in FORMS[1:]]
		if len(spaces) == 2 and which != 'torch': cases += [((), 1, 'plain'), ((2,), 1, 'plain'), ((2, 1, 2), 1, 'plain')]
		for batch, tied, kind in cases:
			r = np.random.default_rng([n, len(nm), len(batch)])
			vals = []
			for i, g in enumerate(spaces):
				V = ref.algebra.subspace.bivector().degenerate() if g is None else ref.algebra.subspace.from_grades(list(g(n)))
				if len(V) == 0: break
				v = r.uniform(-.3, .3, size=batch + (len(V),))
				if 0 in V.blades: v[..., 0] = r.uniform(1.2, 1.5, size=batch)
				vals.append((V, v.astype(np.float32).astype(np.float64)))
			if len(vals) < len(spaces): continue
			if tied: vals = [vals[-1]] * 2
			def call(c, vs, same):
				ms = [c.multivector(values=v, subspace=c.algebra.subspace.from_blades(V.blades)) for V, v in vs]
				out = parts(f(*(ms[:1] * 2 if same else ms)))
				return [([int(b) for b in m.subspace.blades], val(m)) for m in out]
			with np.errstate(all='ignore'):
				try: alone = {e: call(ref, [(V, v[e].copy()) for V, v in vals], False) for e in np.ndindex(*batch)}
				except Exception: continue          # not defined there: nothing promised
				first = next(iter(alone.values()))
				want = [(bl, np.array([w[i][1] for w in alone.values()]).reshape(batch + (len(bl),))) for i, (bl, _) in enumerate(first)]
				if not all(np.isfinite(w).all() for _, w in want) or any(np.abs(w).max(initial=0) > 30 for _, w in want): continue
				label = f'{which} {s}: {nm} of {"the same object twice: " if tied else ""}{[(V.named_str, v.tolist()) for V, v in vals]}' + (f' ({kind})' if kind != 'plain' else '')
				try: got = call(ctx, [(V, v.tolist() if which == 'torch' else form(v, kind, np.float64 if double else v.dtype)) for V, v in vals], tied)
				except Exception as e:
					led.num(contract, False, f'{label} raises {type(e).__name__}: {e}; each element alone gives {want}'[:600])
					continue
			t = 1e-9 if double else TOL.get(nm, TOL.get(pid, 5e-4))
			def close(g, w):
				if np.ndim(g[1]) == 0 or g[1].shape[-1] != len(g[0]): return False
				try: gv = {b: np.broadcast_to(g[1][..., i], batch) for i, b in enumerate(g[0])}
				except ValueError: return False
				wv = {b: w[1][..., i] for i, b in enumerate(w[0])}
				z = np.zeros(batch)
				return all(np.allclose(gv.get(b, z), wv.get(b, z), atol=t, rtol=t) for b in {**gv, **wv})
			ok = len(got) == len(want) and all(close(g, w) for g, w in zip(got, want))
			led.num(contract, ok, f'{label} is {got}, each element alone in double precision {want}'[:900])
			led.cover(f'{which}: {nm}')


def tasks(c, pid):
	c.contract('backends as shipped', ['NumpyContext', 'JaxContext', 'TorchContext', '*MultiVector.construct'], 'bounded runs of the unmodified backends agree with the double precision numpy values')
	for which in ('numpy, double precision', 'numpy, single precision', 'jax', 'torch'):
		for sigs in SIGS.values():
			for sig in sigs:
				c.task('agree', 'backends as shipped', pid, which, sig, module='dv.backends')
