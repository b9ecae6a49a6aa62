"""Contracts over batched values: the real code runs on object arrays of symbols, element obligations by normal form,
refutations replayed on exact rationals."""
from dv.core import *


def sym_array(R, name, shape):
	a = np.empty(shape, dtype=object)
	for i in np.ndindex(*shape):
		a[i] = R.var(name + '_' + '_'.join(map(str, i)))
	return a


def frac_array(r, shape):
	a = np.empty(shape, dtype=object)
	for i in np.ndindex(*shape):
		a[i] = Fraction(r.choice([-3, -2, -1, 1, 2, 3, 5]))
	return a


def stress_arrays(R, r, arrs):
	"""values of unusual kinds (see stress) for the arrays of symbols"""
	e = stress(R, r, list(R.conditions.values()))
	return [np.array([R.evaluate(v, e) for v in a.ravel()] + [None], dtype=object)[:-1].reshape(a.shape) for a in arrs]


def prove_arrays(led, contract, label, shapes, code, want, backend='normal-form', signature=None, ctx=None):
	"""`code(*arrays)` -> array (the real code); `want(*arrays)` -> array of the same shape (the specification).
	Both get object arrays of the given shapes. Discharged iff every element has normal form zero."""
	t0 = time.process_time()
	R = Ring()
	status, hard = None, False
	try:
		arrs = [sym_array(R, f'x{i}', s) for i, s in enumerate(shapes)]
		before = [a.copy() for a in arrs]
		try: got = np.asarray(code(*arrs), dtype=object)
		except Branch:
			def residual():
				g, e = np.asarray(code(*[a.copy() for a in before]), dtype=object), np.asarray(want(*before), dtype=object)
				if g.shape != e.shape: return {'shape': {0: R.const(1)}}
				return {'element': {i: _s(g[i]) - _s(e[i]) for i in np.ndindex(*g.shape)}}
			good, paths, why = explore(R, residual)
			if not good: raise Branch(f'the code compares coefficients: {why}'[:400])
			led.cover('paths through comparisons of coefficients', paths)
			got = exp = np.asarray(want(*before), dtype=object)
		else: exp = np.asarray(want(*before), dtype=object)
		if got.shape != exp.shape:
			status = f'result of shape {got.shape}, expected {exp.shape}'
		else:
			bad = [i for i in np.ndindex(*got.shape) if not is_zero(_s(got[i]) - _s(exp[i]))]
			led.ok(contract, backend, got.size - len(bad) or 1)
			if bad:
				status = f'{len(bad)} of {got.size} elements differ, first at {bad[0]}: {got[bad[0]]!r} instead of {exp[bad[0]]!r}'
	except (Unsupported, RecursionError, Undefined) as e:
		status, hard = f'unsupported: {e}', True
	except Exception as e:
		status = f'{type(e).__name__}: {e}'
	led.seconds[backend] += time.process_time() - t0
	if status is None:
		return True
	r = rng('replay', label)
	err = None
	def report(kind, keep, **k):
		led.violate(contract, f'{label}: {status}'[:600], kind=kind, signature=signature, input=[str(a.tolist()) for a in keep], **k)
		return False
	done = 0
	if ctx is None or not ctx.shimmed:
		for k in range(80 if hard else 3):
			fr = [frac_array(r, s) for s in shapes] if k < 3 else stress_arrays(R, r, arrs)
			keep = [a.copy() for a in fr]
			try:
				got = np.asarray(code(*fr), dtype=object)
				exp = np.asarray(want(*keep), dtype=object)
			except Exception:
				continue    # left to the run on machine numbers
			done += 1
			if got.shape != exp.shape or any(not close(g, e) for g, e in zip(got.ravel(), exp.ravel())):
				return report('value', keep, output=str(got.tolist())[:500], expected=str(exp.tolist())[:500])
	if ctx is not None:
		with ctx.real():
			for k in range(30 if hard else 3):
				keep = [frac_array(r, s) for s in shapes] if k < 3 else stress_arrays(R, r, arrs)
				if k >= 3 and any(v and not Fraction(1, 10 ** 4) < abs(v) < 10 ** 10 for a in keep for v in a.ravel()): continue
				exp = np.asarray(want(*[a.copy() for a in keep]), dtype=object)
				try:
					got = np.asarray(code(*[a.astype(float) for a in keep]), dtype=float)
				except Exception as e:
					err = e
					continue
				done += 1
				big = max([1.0] + [abs(float(e)) for e in exp.ravel()])
				if got.shape != exp.shape or any(not abs(float(g) - float(e)) <= 1e-4 * big for g, e in zip(got.ravel(), exp.ravel())):
					return report('value', keep, output=str(got.tolist())[:500], expected=str([float(e) for e in exp.ravel()])[:500])
	if err is not None and not done:
		return report('exception', keep, exception=f'{type(err).__name__}: {err}', trace=traceback.format_exception(err)[-3:])
	led.open[contract, f'undecided: {status}'[:120]] += 1
	led.bounded[contract] += done
	return None


class Switch:
	"""a context that is the symbolic one, or inside `with real()` the backend as shipped on machine numbers"""
	def __init__(self, sym, real, shimmed=False, leave=None, back=None):
		self.__dict__.update(_sym=sym, _make=real, _cur=sym, shimmed=shimmed, _leave=leave, _back=back, _real=None)
	def __getattr__(self, nm):
		return getattr(self._cur, nm)
	def real(self):
		import contextlib
		@contextlib.contextmanager
		def cm():
			if self._leave: self._leave()
			try:
				if self._real is None:
					self.__dict__['_real'] = self._make()
				self.__dict__['_cur'] = self._real
				with np.errstate(all='ignore'):
					yield
			finally:
				self.__dict__['_cur'] = self._sym
				if self._back: self._back()
		return cm()


def _s(v):
	return v.item() if isinstance(v, np.generic) else v


def close(a, b):
	a, b = _s(a), _s(b)
	if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
		return a == b
	return abs(float(a) - float(b)) <= 1e-9 * max(1.0, abs(float(a)), abs(float(b)))


def contract_kernel(K, ops):
	"""the definition: out[..., o] = sum over all kernel entries of K[i1, .., ik, o] * prod x_j[..., i_j], batches broadcast"""
	shape = np.broadcast_shapes(*(x.shape[:-1] for x in ops)) if ops else ()
	bs = [np.broadcast_to(x, shape + x.shape[-1:]) for x in ops]
	out = np.empty(shape + K.shape[-1:], dtype=object)
	out.fill(0)
	q = lambda c: Fraction(c) if isinstance(c, float) else c
	terms = [(ii, q(_s(K[ii]))) for ii in zip(*map(lambda a: a.tolist(), np.nonzero(K)))]
	for i in np.ndindex(*shape):
		for ii, c in terms:
			t = c
			for x, j in zip(bs, ii):
				t = t * _s(x[i + (j,)])
			out[i + (ii[-1],)] = out[i + (ii[-1],)] + t
	return out
