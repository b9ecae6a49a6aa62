"""Obligation ledger, symbolic execution of cases on the real code, refutation by replay, evidence."""
import dv.env as env
import hashlib, importlib, json, os, random, sys, time, traceback
from collections import Counter, defaultdict
from fractions import Fraction
import numpy as np
from dv.ring import Ring, Sym, Path, Branch, Unsupported, Undefined, is_zero
from dv.spec import Spec, order, popcount

from numga.algebra.algebra import Algebra
from numga.algebra.description import AlgebraDescription
from numga.backend.numpy.context import NumpyContext

SIGN = {1: '+', -1: '-', 0: '0'}
NAMES = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'


# ---------------------------------------------------------------- construction of real objects
_alg, _ctx, _spec = {}, {}, {}

def algebra(sig):
	sig = tuple(sig)
	if sig not in _alg:
		_alg[sig] = Algebra(''.join(NAMES[i] + SIGN[s] for i, s in enumerate(sig)))
	return _alg[sig]

def context(sig, dtype=object):
	k = tuple(sig), str(dtype)
	if k not in _ctx:
		_ctx[k] = NumpyContext(algebra(sig), dtype=dtype)
	return _ctx[k]

def spec(sig):
	sig = tuple(sig)
	if sig not in _spec:
		_spec[sig] = Spec(sig)
	return _spec[sig]

def sub(ctx_or_alg, blades):
	return ctx_or_alg.subspace.from_blades(np.array(list(blades), dtype=ctx_or_alg.algebra.blade_dtype if hasattr(ctx_or_alg, 'algebra') else ctx_or_alg.blade_dtype))

def mv(ctx, d):
	"""multivector of dict {blade: value}; the subspace is exactly the key set"""
	V = sub(ctx, list(d))
	return ctx.multivector(values=obj([d[int(b)] for b in V.blades]) if ctx.dtype is object else [float(d[int(b)]) for b in V.blades], subspace=V)

def obj(vals):
	a = np.empty(len(vals), dtype=object)
	for i, v in enumerate(vals):
		a[i] = v
	return a

def todict(m):
	"""dict {blade: value} of a multivector without batch axes"""
	v = np.asarray(m.values)
	bl = [int(b) for b in m.subspace.blades]
	if v.shape != (len(bl),):
		raise ShapeError(f'values of shape {v.shape} for a subspace of {len(bl)} blades')
	return dict(zip(bl, v.tolist() if v.dtype != object else list(v)))


class ShapeError(Exception):
	pass


class Raised(Exception):
	"""the real code raised (cause) on a concrete input"""


class Skip(Exception):
	"""the drawn concrete input is outside the domain of the property"""


# ---------------------------------------------------------------- ledger
class Ledger:
	def __init__(self):
		self.obs = Counter()        # (contract, backend) -> discharged obligations
		self.open = Counter()       # (contract, reason) -> not discharged
		self.bounded = Counter()    # contract -> bounded evaluations that passed
		self.seconds = Counter()    # backend -> seconds
		self.violations = []
		self.known = []
		self.covers = Counter()
		self.notes = Counter()
		self.samples = []
		self.errors = []
		self.unattached = []

	def merge(self, o):
		for k in ('obs', 'open', 'bounded', 'seconds', 'covers', 'notes'):
			getattr(self, k).update(getattr(o, k))
		self.violations += o.violations
		self.known += o.known
		self.errors += o.errors
		self.unattached += o.unattached
		self.samples = (self.samples + o.samples)[:12]

	def ok(self, contract, backend, k=1):
		self.obs[contract, backend] += k

	def violate(self, contract, what, **detail):
		self.violations.append(dict(contract=contract, what=what, task=self.task, **detail))
	task = None

	def enum(self, contract, cond, what, **detail):
		"""an obligation decided by executing the real code on a member of an enumerated finite domain"""
		if cond:
			self.ok(contract, 'enumeration')
			return True
		self.violate(contract, what, **detail)
		return False

	def num(self, contract, cond, what, **detail):
		"""a bounded evaluation (sampled input); counted apart, never as proved"""
		if cond:
			self.bounded[contract] += 1
			return True
		self.violate(contract, what, **detail)
		return False

	def cover(self, name, k=1):
		self.covers[name] += k


def rng(*key):
	h = hashlib.sha256(repr((env.SEED,) + key).encode()).digest()
	return random.Random(int.from_bytes(h[:8], 'big'))


# ---------------------------------------------------------------- cases
class Gen:
	"""description of an input: either a list of blades (free coefficients) or a function of the ring"""

def symbolic_inputs(R, sp, ins):
	out = []
	for i, g in enumerate(ins):
		if callable(g):
			out.append(g(R, sp))
		else:
			out.append({b: R.var(f'x{i}_{b}') for b in order(g)})
	return out


def _concrete(R, sym, env_):
	return [{b: (R.evaluate(v, env_) if isinstance(v, Sym) else v) for b, v in d.items()} for d in sym]


def scale_of(*ds):
	m = 1.0
	for d in ds:
		for v in d.values():
			m = max(m, abs(float(v)))
	return m


def stress(R, r, conds):
	"""values of the free variables of unusual kinds: zeros, units, equal values, extreme and mixed magnitudes; and values that
	make the code's own comparisons come out one way or the other"""
	vs = [a.index for a in R.atoms if a.kind == 'var']
	kind = r.choice(['zeros', 'one', 'equal', 'units', 'scale', 'mixed', 'plain', 'plain', 'plain'])
	F = lambda: Fraction(r.choice([-3, -2, -1, 1, 2, 3]), r.choice([1, 1, 2, 3]))
	c, s = F(), Fraction(10) ** r.randint(-9, 9)
	one = r.choice(vs) if vs else None
	e = {}
	for i in vs:
		e[i] = dict(zeros=lambda: F() if r.random() < .5 else Fraction(0), one=lambda: F() if i == one else Fraction(0), equal=lambda: c, units=lambda: Fraction(r.choice([-1, 0, 1])),
		            scale=lambda: F() * s, mixed=lambda: F() * Fraction(10) ** r.randint(-6, 6), plain=F)[kind]()
	for d in r.sample(conds, r.randint(0, len(conds))) if len(conds) < 5 or r.random() < .5 else (conds if r.random() < .5 else r.sample(conds, 2)):
		t = r.choice([Fraction(0)] * 4 + [x * Fraction(10) ** r.randint(-12, 6) for x in (1, -1)])
		cand = [i for i in vs if d.max_exp(i) == 1]
		r.shuffle(cand)
		for i in cand:
			try:
				d0, d1 = (R.evaluate(d, {**e, i: Fraction(x)}) for x in (0, 1))
				if d1 != d0:
					e[i] = (t - d0) / (d1 - d0)
					break
			except Exception: continue
	return e


def explore(R, run, limit=60):
	"""all paths through the comparisons of symbolic values; run() -> residual {name: {blade: value}}. (discharged, paths, first failure)"""
	todo, n, bad = [[]], 0, None
	try:
		while todo:
			if n >= limit: return False, n, bad or 'too many paths'
			R.path = p = Path(todo.pop())
			n += 1
			try: res = run()
			except Undefined: res = {}          # outside of the domain on this path
			todo += p.alternatives()
			todo.sort(key=len, reverse=True)
			left = [(nm, b, v) for nm, d in res.items() for b, v in d.items() if not is_zero(v)]
			if not left: continue
			sub_ = p.reduce()
			if sub_ is False: continue
			if sub_:
				def red(v):
					for i, x in sub_: v = v.subs({i: x}) if isinstance(v, Sym) else v
					return v
				R.path = Path()
				left = [(nm, b, v) for nm, b, v in left if not is_zero(red(v))]
			if left: bad = bad or f'where the comparisons come out {[o for o, _ in p.taken][:12]}: {left[0][0]} at blade {left[0][1]}: {left[0][2]!r} != 0'[:400]
	finally: R.path = None
	return bad is None, n, bad


def concrete_residual(sig, ins, code, post, R, sym, r, exact, draw, warn=False):
	"""run the real code on one drawn input; returns (inputs, residuals, outputs) or raises"""
	e = draw if isinstance(draw, dict) else {a.index: draw(r) for a in R.atoms if a.kind == 'var'}
	vals = _concrete(R, sym, e)
	ctx = context(sig, object if exact else np.float64)
	sp = spec(sig)
	if exact:
		vals = [{b: Fraction(v) if isinstance(v, (int, Fraction)) else Fraction(v).limit_denominator(10**9) for b, v in d.items()} for d in vals]
	mvs = [mv(ctx, d) for d in vals]
	try:
		with np.errstate(all='ignore'):
			outs = code(ctx, *mvs)
		if not isinstance(outs, tuple):
			outs = (outs,)
		outs = [todict(o) for o in outs]
	except Skip:
		raise
	except Exception as e:
		raise Raised(vals) from e
	for o in outs:
		for v in o.values():
			if isinstance(v, complex) or not (np.isfinite(float(v)) or getattr(post, 'total', False)):
				raise Skip('non-finite output')
	return vals, post(sp, *vals, *outs), outs


def draws(k):
	if k == 0:
		return lambda r: r.randint(1, 5)
	if k == 1:
		return lambda r: r.choice([-3, -2, -1, 1, 2, 3])
	if k % 2:
		return lambda r: r.uniform(-1, 1)
	return lambda r: round(r.uniform(0.1, 1.5), 3)


def bad_residual(res, vals, outs, tol):
	s = scale_of(*vals, *outs)
	if s != s or s == float('inf'): s = 1.0
	if not s < 1e60: return None       # outside any meaningful tolerance
	worst = None
	for nm, d in res.items():
		for b, v in d.items():
			if not abs(float(v)) <= tol * max(1.0, s) ** 3:
				if worst is None or abs(float(v)) > worst[2]:
					worst = nm, b, abs(float(v))
			elif isinstance(v, (int, Fraction)) and v and worst is None:
				worst = nm, b, abs(float(v))    # exact arithmetic: any nonzero residual counts
	return worst


def replay(led, contract, name, sig, ins, code, post, R, sym, tries=24, tol=1e-7, key=(), hard=0):
	"""look for a concrete input on which the real code violates the postcondition"""
	r = rng('replay', name, sig, *key)
	raised = 0
	last = last_in = None
	done = 0
	for k in ((0, 1) if tries > 4 else ()):
		try:
			vals, res, outs = concrete_residual(sig, ins, code, post, R, sym, r, True, draws(k))
			w = bad_residual(res, vals, outs, tol)
		except Exception:
			continue
		if w:
			return dict(kind='value', arithmetic='exact', input=[{str(b): str(v) for b, v in d.items()} for d in vals],
			            output=[{str(b): str(v) for b, v in d.items()} for d in outs],
			            residual=dict(equation=w[0], blade=w[1], magnitude=w[2])), done
	conds = list(R.conditions.values())
	n_exact = 0
	for k in range(hard):
		for exact in (True, False):
			if exact and k >= 8 and not n_exact: continue        # the code does not run on exact numbers
			try:
				e = stress(R, r, conds)
				vals, res, outs = concrete_residual(sig, ins, code, post, R, sym, r, exact, dict(e) if exact else {i: float(x) for i, x in e.items()})
				n_exact += exact
				w = bad_residual(res, vals, outs, tol)
			except Exception:
				continue
			if w and (exact or hasattr(post, 'total') or all(0 == abs(float(v)) or 1e-4 < abs(float(v)) < 1e4 for d in vals for v in d.values())):
				return dict(kind='value', arithmetic='exact' if exact else 'float', input=[{str(b): str(v) for b, v in d.items()} for d in vals],
				            output=[{str(b): str(v) for b, v in d.items()} for d in outs],
				            residual=dict(equation=w[0], blade=w[1], magnitude=w[2])), done
			if exact: break
	for k in range(tries):
		try:
			vals, res, outs = concrete_residual(sig, ins, code, post, R, sym, r, False, draws(k))
		except Raised as e:
			if not isinstance(e.__cause__, (ZeroDivisionError, OverflowError)) and not 'math domain' in str(e.__cause__):
				raised += 1; last = e.__cause__; last_in = e.args[0]
			continue
		except (Skip, ZeroDivisionError, ValueError, OverflowError):
			continue    # outside the domain of the specification
		done += 1
		w = bad_residual(res, vals, outs, tol)
		if w:
			return dict(kind='value', input=[{str(b): v for b, v in d.items()} for d in vals],
			            output=[{str(b): float(v) for b, v in d.items()} for d in outs],
			            residual=dict(equation=w[0], blade=w[1], magnitude=w[2])), done
	if raised and raised >= tries // 2 and not done:
		return dict(kind='exception', exception=f'{type(last).__name__}: {last}', input=[{str(b): v for b, v in d.items()} for d in last_in], trace=traceback.format_exception(last)[-3:]), done
	return None, done


def prove(led, contract, name, sig, ins, code, post, backend='normal-form', concrete=0, tol=1e-7, key=(), R=None):
	"""One case: execute the real `code` on symbolic inputs, generate the obligations of the postcondition,
	discharge each by normal form. Refuted ones are replayed; undecided ones are tested (bounded)."""
	t0 = time.process_time()
	R = R or Ring()
	sp = spec(sig)
	sym = symbolic_inputs(R, sp, ins)
	label = f'{name} sig={"".join(SIGN[s] for s in sig)} on ' + ' '.join(
		'<' + ','.join(map(str, d)) + '>' for d in sym)
	status = None
	try:
		ctx = context(sig, object)
		def run():
			o = code(ctx, *[mv(ctx, d) for d in sym])
			o = [todict(x) for x in (o if isinstance(o, tuple) else (o,))]
			return o, post(sp, *sym, *o)
		try: outs, res = run()
		except Branch:
			good, n_ok, why = explore(R, lambda: run()[1])
			if not good: raise Branch(f'the code compares coefficients: {why}')
			led.ok(contract, backend, n_ok)
			led.cover('paths through comparisons of coefficients', n_ok)
			outs, res = [], {}
		n_ok, bad = 0, []
		for nm, d in res.items():
			for b, v in d.items():
				if is_zero(v):
					n_ok += 1
				else:
					bad.append((nm, b, v))
			if not d:
				n_ok += 1
		led.ok(contract, backend, n_ok)
		led.cover(f'{contract}: cases')
		if any(isinstance(v, Sym) and not v.is_const() for o in outs for v in o.values()):
			led.cover(f'{contract}: non-constant results')
		if len(led.samples) < 3 and len(outs) and outs[0]:
			led.samples.append(f'{label}: {len(outs[0])} output coefficients, e.g. {list(outs[0].items())[-1][0]}: {list(outs[0].values())[-1]!r}'[:300])
		if bad:
			status = ('refuted', f'{len(bad)} obligations, first: {bad[0][0]} at blade {bad[0][1]}: {bad[0][2]!r} != 0'[:400])
	except Branch as e:
		status = ('branches', str(e)[:500])
	except (Unsupported, RecursionError) as e:
		status = ('unsupported', f'{type(e).__name__}: {e}')
	except Undefined as e:
		status = ('undefined', str(e))
	except Exception as e:
		status = ('raised', f'{type(e).__name__}: {e}'[:300] + ' @ ' + ' < '.join(f'{f.name}:{f.lineno}' for f in traceback.extract_tb(e.__traceback__)[-3:][::-1]))
	led.seconds[backend] += time.process_time() - t0
	if status is None:
		if concrete:
			found, done = replay(led, contract, name, sig, ins, code, post, R, sym, tries=concrete, tol=tol, key=key)
			if found:
				led.violate(contract, f'{label}: concrete run violates the postcondition', signature=sig, **found)
				return False
			led.bounded[contract] += done
		return True
	found, done = replay(led, contract, name, sig, ins, code, post, R, sym, tol=tol, key=key, hard=120 if status[0] in ('branches', 'raised', 'unsupported') else 0)
	if found:
		led.violate(contract, f'{label}: {status[0]}: {status[1]}', signature=sig, **found)
		return False
	led.open[contract, f'{status[0]}: {status[1]}'[:160]] += 1
	led.bounded[contract] += done
	return None


def eq(sp, got, want, also=None):
	return sp.sub(got, want)


# ---------------------------------------------------------------- running a check
def _run_task(args):
	mod, fn, a = args
	led = Ledger()
	led.task = dict(module=mod, function=fn, args=repr(a))
	t0 = time.time()
	try:
		getattr(importlib.import_module(mod), fn)(led, *a)
	except Exception as e:
		inside = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(os.path.realpath(env.REPO) + os.sep)]
		if inside and not isinstance(e, (Unsupported, MemoryError, KeyboardInterrupt)):
			# a concrete call on the enumerated domain raised inside the code under test
			led.violate(fn, f'{fn}{a!r}: the real code raised {type(e).__name__}: {e} at {inside[-1].filename}:{inside[-1].lineno}'[:600],
			            kind='exception', trace=traceback.format_exc()[-1500:])
		elif isinstance(e, (AttributeError, ImportError, Unsupported)):
			# the check cannot attach to the code (a private name it looks at is gone): undecided, not a violation
			led.open[fn, f'cannot attach: {type(e).__name__}: {e}'[:160]] += 1
			led.unattached.append(f'{fn}: {type(e).__name__}: {e}'[:200])
		elif isinstance(e, (MemoryError, OSError, RecursionError)):
			led.errors.append(f'{fn}{a!r}: ' + traceback.format_exc()[-1500:])
		else:
			# what the code returned does not have the form its contract promises (the postcondition cannot even be evaluated on it)
			led.violate(fn, f'{fn}{a!r}: the result does not have the specified form: {type(e).__name__}: {e}'[:600], kind='form', trace=traceback.format_exc()[-1500:])
	led.notes['task_seconds'] = time.time() - t0
	if time.time() - t0 > 20:
		led.notes[f'slow task {fn} {str(a)[:80]}'] += 1
	return led


def _worker(conn, tasks):
	while True:
		try: i = conn.recv()
		except EOFError: return
		try: conn.send(_run_task(tasks[i]))
		except (BrokenPipeError, OSError): return


class Check:
	def __init__(self, pid, module):
		self.pid, self.module = pid, module
		self.tasks = []
		self.t0 = time.time()
		self.led = Ledger()
		self.contracts = {}
		self.assumptions = []
		self.trusted = []
		self.extra = {}

	def task(self, fn, *args, module=None):
		self.tasks.append((module or self.module, fn, args))

	def contract(self, name, functions, statement):
		self.contracts[name] = dict(functions=functions, statement=statement)

	def run(self, nproc=None, isolated=False):
		"""supervised worker processes: a task that exceeds its time limit, or whose worker dies (solver crash, memory), is
		recorded as not discharged and never stops the others; isolated: every task in a fresh process"""
		import multiprocessing as mp
		from multiprocessing.connection import wait
		nproc = nproc or env.NPROC
		if (nproc == 1 or len(self.tasks) <= 1) and not isolated:
			for t in self.tasks:
				self.led.merge(_run_task(t))
				if env.FAILFAST and self.led.violations: return
			return
		ctx = mp.get_context('fork')
		limit, deadline = (1500, 6 * 3600) if env.THOROUGH else (270, 720)
		todo = list(range(len(self.tasks)))[::-1]
		live = {}          # connection -> [process, task index | None, started]
		def spawn():
			a, b = ctx.Pipe()
			p = ctx.Process(target=_worker, args=(b, self.tasks), daemon=True)
			p.start()
			b.close()
			live[a] = [p, None, 0]
		def drop(c):
			p = live.pop(c)[0]
			c.close()
			if p.is_alive(): p.kill()
			p.join()
		def lost(i, why):
			mod, fn, a = self.tasks[i]
			self.led.open[fn, why] += 1
			self.led.unattached.append(f'{fn}{str(a)[:80]}: {why}')
		stop = False
		try:
			while True:
				if time.time() - self.t0 > deadline and not stop:
					for i in todo: lost(i, 'not run: the time of the whole check is used up')
					todo, stop = [], True
					for c in list(live):
						if live[c][1] is not None: lost(live[c][1], 'stopped: the time of the whole check is used up')
						drop(c)
				for c, w in list(live.items()):
					if w[1] is None:
						if not todo: drop(c); continue
						w[1], w[2] = todo.pop(), time.time()
						try: c.send(w[1])
						except OSError:
							lost(w[1], 'worker died'); drop(c)
				while todo and len(live) < nproc:
					spawn()
					c = list(live)[-1]
					live[c][1], live[c][2] = todo.pop(), time.time()
					c.send(live[c][1])
				if not live: break
				for c in wait(list(live), timeout=5):
					try:
						l = c.recv()
					except Exception:
						p = live[c][0]
						p.join(5)
						lost(live[c][1], f'worker died (exit code {p.exitcode})')
						drop(c)
						continue
					self.led.merge(l)
					live[c][1] = None
					if isolated: drop(c)
				for c, w in list(live.items()):
					if w[1] is not None and time.time() - w[2] > limit:
						lost(w[1], f'stopped after {limit} s'); drop(c)
				if env.FAILFAST and self.led.violations: break
		finally:
			for c in list(live): drop(c)

	def run_isolated(self, nproc=None):
		self.run(nproc, True)

	def finish(self, level='proof'):
		led = self.led
		from dv.findings import known
		known_hits, viol = [], []
		for v in led.violations:
			k = known(self.pid, v)
			(known_hits if k else viol).append((k, v))
		discharged = sum(led.obs.values())
		n_open = sum(led.open.values())
		per_contract = defaultdict(lambda: Counter())
		for (c, b), k in led.obs.items():
			per_contract[c][b] += k
		for (c, w), k in led.open.items():
			per_contract[c]['NOT DISCHARGED (bounded stand-in instead)'] += k
		for c, k in led.bounded.items():
			per_contract[c]['bounded evaluations'] += k
		missing = [c for c in self.contracts if not any(x in per_contract for x in (c,))]
		cov = dict(
			obligations=discharged + n_open + sum(1 for _ in viol),
			discharged=discharged,
			checker_cmd=f'VERIF_TIER={env.TIER} VERIF_SEED={env.SEED} /opt/venv/bin/python /verif/run.py {self.pid}',
			trusted_base=TRUSTED + self.trusted,
			by_backend={b: sum(k for (c, bb), k in led.obs.items() if bb == b) for b in sorted({b for _, b in led.obs})},
			solver_seconds={b: round(s, 2) for b, s in led.seconds.items()},
			functions_under_contract=sorted({f for c in self.contracts.values() for f in c['functions']}),
			contracts={c: dict(self.contracts[c], result=dict(per_contract[c])) for c in self.contracts},
			not_discharged={f'{c}: {w}': k for (c, w), k in led.open.most_common(30)},
			bounded_evaluations=sum(led.bounded.values()),
			reachability={c: k for c, k in sorted(led.covers.items())},
			tasks=len(self.tasks),
			samples=led.samples[:6],
			**self.extra)
		other = {c: dict(r) for c, r in per_contract.items() if c not in self.contracts}
		if other:
			cov['other_contracts'] = other
		ev = dict(property=self.pid, tier=env.TIER, seed=env.SEED, level=level, coverage=cov,
		          assumptions=ASSUMPTIONS + self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(viol))
		d = env.OUT
		os.makedirs(d, exist_ok=True)
		with open(os.path.join(d, f'{self.pid}.json'), 'w') as f:
			json.dump(ev, f, indent=1, default=str)
		for k in sorted({k for k, _ in known_hits}):
			print(f'KNOWN-FINDING: property={self.pid} {k}')
		slow = [k for k in led.notes if k.startswith('slow')]
		print(f'{self.pid}: {discharged} obligations discharged {cov["by_backend"]}, {n_open} not discharged, '
		      f'{sum(led.bounded.values())} bounded evaluations, {len(viol)} violations, {time.time()-self.t0:.1f}s'
		      + (f' [{len(slow)} slow: {slow[:3]}]' if slow and os.environ.get('VERIF_VERBOSE') else ''))
		if os.environ.get('VERIF_VERBOSE'):
			for (c, w), k in led.open.most_common(20):
				print('   open', k, c, w)
		rc = 0
		if viol:
			rc = 1
			rd = os.path.join(d, 'replay')
			os.makedirs(rd, exist_ok=True)
			path = os.path.join(rd, f'{self.pid}.json')
			confirmed = [v for _, v in viol if not v.get('no_input')]
			with open(path, 'w') as f:
				json.dump(dict(property=self.pid, failed=[v for _, v in viol][:25], total=len(viol),
				               how='VERIF_REPO=/repo /opt/venv/bin/python /verif/run.py --replay ' + path), f, indent=1, default=str)
			for _, v in (viol[:5]):
				print('  failed obligation:', v['contract'], '|', str(v['what'])[:500])
			tail = '' if confirmed else ' no-failing-input-found'
			print(f'VIOLATION property={self.pid} replay={path}{tail}')
		elif led.errors:
			print('CHECK ERROR', led.errors[0])
			rc = 3
		elif not discharged:
			print('CHECK ERROR: zero obligations were discharged')
			rc = 3
		elif missing and not n_open:
			print('CHECK ERROR: contracts without obligations:', missing)
			rc = 3
		for u in sorted(set(led.unattached))[:5]:
			print('UNDECIDED (cannot attach):', u)
		sys.stdout.flush()
		return rc


TRUSTED = [
	'CPython 3.12 and the real numpy 1.26 executing the code of /repo (object arrays of symbolic values go through the same numpy code paths)',
	'numpy_indexed, functools.cache',
	'the normal-form procedure dv/ring.py (exact rationals; quadratic roots and reciprocals by their defining relations)',
	'the independent specification dv/spec.py',
]
ASSUMPTIONS = [
	'floating point arithmetic is read as exact real arithmetic (a float constant denotes the rational it was written as)',
]
