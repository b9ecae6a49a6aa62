"""Kernel contracts: statements about the operators built by numga.operator, proved by engine T for arbitrary subspaces of arbitrary
algebras, and evaluated on concrete algebras (to confirm a refutation with a failing input; as bounded evaluations otherwise)."""
import contextlib, itertools, random
from fractions import Fraction
import numpy as np
from dv import tensor as T
from dv.tensor import (E, I, ONE, TRUE, ZERO, FALSE, D, G, N, NG, Q, S, Val, W, conj, disj, ev, lin, neg, nul, padd, par, pmul, exists)
from dv.core import algebra, sub, rng
from dv.ring import Unsupported
from numga.operator.operator import Operator


def w(x): return W(x) if isinstance(x, str) else x
def prod(a, b, *more):
	"""coefficient of a^b in a*b (S swaps, N shared negative generators, zero if a null generator is shared)"""
	a, b = w(a), w(b)
	r = Val.term(1, padd(S(a, b), N(a, b)), nul(a, b))
	return r
def at(o, *ws):
	"""output blade o is the product blade of ws"""
	x = w(o)
	for y in ws: x = x ^ w(y)
	return Val.term(cond=ev(x))
def sign(p): return Val.term(1, p)
def ind(f): return Val.term(cond=f)
def grade_eq(pos, neg_=(), c=0):
	d = {}
	for x in pos: d[w(x)] = d.get(w(x), 0) + 1
	for x in neg_: d[w(x)] = d.get(w(x), 0) - 1
	return lin('==', d, c)
def grade_is(x, k): return lin('==', {w(x): 1}, -k) if w(x) else (TRUE if k == 0 else FALSE)
def fac(name, *ws): return Val.term(factors=((name,) + tuple(w(x) for x in ws),))


# ---------------------------------------------------------------- evaluation on concrete blades
class Ctx:
	def __init__(self, sig, sets, ops):
		self.sig, self.n = sig, len(sig)
		self.full = (1 << self.n) - 1
		self.neg = sum(1 << i for i, s in enumerate(sig) if s < 0)
		self.nul = sum(1 << i for i, s in enumerate(sig) if s == 0)
		self.sets, self.ops = sets, ops
	def word(self, w_, env):
		x = 0
		for u in w_: x ^= self.full if u == I else env[u]
		return x
	def atom(self, a, env):
		v = [self.full if u == I else env[u] for u in a[1:]]
		k = a[0]
		if k == 'S': return sum((v[0] >> i & 1) * bin(v[1] & ((1 << i) - 1)).count('1') for i in range(self.n)) & 1
		if k == 'D': return bin(v[0] & v[1]).count('1') & 1
		if k == 'N': return bin(v[0] & v[1] & self.neg).count('1') & 1
		if k == 'n': return bin(v[0] & self.neg).count('1') & 1
		if k == 'g': return bin(v[0]).count('1') & 1
		if k == 'q': return bin(v[0]).count('1') >> 1 & 1
		raise Unsupported(k)
	def par(self, p, env):
		return sum(all(self.atom(a, env) for a in m) for m in p) & 1
	def member(self, key, x):
		if isinstance(key, tuple):
			k = key[0]
			if k == 'complement': return self.member(key[1], x ^ self.full)
			if k == 'k_vector': return bin(x).count('1') == key[1]
			if k == 'nondegenerate': return self.member(key[1], x) and not x & self.nul
			if k == 'degenerate': return self.member(key[1], x) and bool(x & self.nul)
			if k == 'intersection': return self.member(key[1], x) and self.member(key[2], x)
			if k == 'union': return self.member(key[1], x) or self.member(key[2], x)
			raise Unsupported(str(k))
		if key == 'full': return True
		return x in self.sets[key]
	def f(self, f, env):
		k = f[0]
		if k in 'tf': return k == 't'
		if k == 'ev': return self.word(f[1], env) == 0
		if k == 'nul':
			x, *r = f[1]
			y = r[0] if r else x
			return not self.word(x, env) & self.word(y, env) & self.nul
		if k == 'lin':
			s = sum(c * bin(self.word(x, env)).count('1') for x, c in f[2]) + f[3]
			return s == 0 if f[1] == '==' else s <= 0
		if k == 'par': return bool(self.par(f[1], env))
		if k == 'in': return self.member(f[1], self.word(f[2], env))
		if k == 'and': return all(self.f(x, env) for x in f[1])
		if k == 'or': return any(self.f(x, env) for x in f[1])
		if k == 'not': return not self.f(f[1], env)
		if k == 'ex': return any(self.f(f[3], {**env, f[1]: x}) for x in self.sets[f[2]])
		raise Unsupported(str(k))
	def val(self, v, env):
		t = Fraction(0)
		for (p, f, a, b), c in v.d.items():
			# bound variables range over the sets of the factors they occur in
			doms = []
			for z in b:
				name, i = next((x[0], i) for x in a for i, y in enumerate(x[1:]) if y == W(z))
				doms.append(self.sets[self.ops[name][0][i]])
			for xs in itertools.product(*doms):
				e = {**env, **dict(zip(b, xs))} if b else env
				if not self.f(f, e): continue
				x = -c if self.par(p, e) else c
				for y in a:
					x = x * self.ops[y[0]][1].get(tuple(self.word(z, e) for z in y[1:]), 0)
					if not x: break
				t += x
		return t


# ---------------------------------------------------------------- contracts
class K:
	"""build(al, **sets and operators) -> Operator; names: one variable per axis (the last is the output); spec: value at these variables.
	tied: groups of axis positions that receive the same multivector; exact: the reported output set is exactly the set of blades the
	specification reaches; sets: dict name -> 'any' | 'parity'; ops: dict name -> axes (abstract operators); out: condition on o for
	outputs outside of which the specification is not claimed (e.g. a requested output set)"""
	def __init__(self, name, build, names, spec, sets='A', ops=(), tied=(), exact=False, complete=True, within=None, functions=(), axes=None, parity=(), mindim=0, modular=False):
		self.mindim, self.modular = mindim, modular
		self.name, self.build, self.names, self.spec = name, build, names.split(), spec
		self.sets, self.ops, self.tied, self.exact, self.complete, self.within = list(sets), dict(ops), tied, exact, complete, within
		self.functions, self.axes, self.parity = functions, axes, parity
	values = False
	def doc(self): return f'{self.name}: kernel at ({", ".join(self.names)}) = {self.spec!r}'[:400]


class Bag(dict):
	__getattr__ = dict.__getitem__
class KM(K):
	"""a contract on multivectors: fn(context, e) -> multivector, where e holds arbitrary multivectors (mvs: name -> set, or batch sets and then
	the set), plain numbers (numbers) and sets by name. spec: the coefficient at the variables `names` (batch variables, then the blade o)"""
	values = True
	def __init__(self, name, fn, spec, mvs=dict(x='A', y='B'), names='o', batch='', sets=(), numbers=(), ops=(), backend='numpy', **k):
		self.mvs, self.numbers, self.backend, self.batch = {x: tuple(v) for x, v in dict(mvs).items()}, tuple(numbers), backend, tuple(batch)
		allsets = list(dict.fromkeys(list(sets) + [s for v in self.mvs.values() for s in v] + [s for v in dict(ops).values() for s in v]))
		def build(al, **e):
			c = context(self.backend, al)
			b = Bag(e)
			for x, ax in self.mvs.items(): b[x] = c.multivector(values=e[x].kernel, subspace=e[x].axes[-1])
			for x in self.numbers: b[x] = T.Plain(e[x].kernel) if isinstance(e[x].kernel, T.Arr) else int(e[x].kernel)
			r = fn(c, b)
			bt = tuple(e[x] for x in self.batch)
			if hasattr(r, 'values'): return Operator(r.values, bt + (r.subspace,))
			return Operator(r.kernel, bt + tuple(r.operator.axes))
		super().__init__(name, build, names, spec, sets=allsets, ops={**dict(ops), **self.mvs, **{x: () for x in self.numbers}}, **k)
def load(backend):
	import importlib
	importlib.import_module(f'numga.backend.{backend.split(":")[0]}.operator')
	return importlib.import_module(f'numga.backend.{backend.split(":")[0]}.context')
def context(backend, al):
	import importlib
	m = importlib.import_module(f'numga.backend.{backend.split(":")[0]}.context')
	C = next(v for k, v in vars(m).items() if isinstance(v, type) and k.lower() == backend.split(':')[0] + 'context')
	kw = {}
	if ':' in backend:
		o = importlib.import_module(f'numga.backend.{backend.split(":")[0]}.operator')
		kw['otype'] = getattr(o, backend.split(':')[1])
	return C(al, **kw)


def symmetrise(v, names, tied):
	for grp in tied:
		r = Val()
		for perm in itertools.permutations(grp):
			r = r + v.subst({names[i]: W(names[j]) for i, j in zip(grp, perm)})
		v = r
	return v


def start(c, same):
	"""arbitrary arguments, and the result of the real code on them"""
	al = T.SymAlgebra()
	env = {s: T.new_set(al, s) for s in c.sets}
	for a, b in same.items(): env[a] = env[b] if b in env else getattr(al.subspace, b)()
	for nm, axes in c.ops.items(): env[nm] = T.abstract(nm, *(env[a] for a in axes))
	return env, c.build(al, **env)
def split(c, same, distinct, e):
	for a, b in ((e.a.key, e.b.key), (e.b.key, e.a.key)):
		if a in c.sets and a not in same and a not in same.values() and (b in c.sets or b in ('scalar', 'full', 'pseudoscalar', 'empty')):
			return [({**same, a: b}, distinct), (same, distinct | {frozenset((a, b))})]
	raise Unsupported(f'equality of the sets {e.a.key} and {e.b.key} is not decided')
def only_blade(hy):
	"""axes known to have one blade: the scalar or the pseudoscalar"""
	m = {}
	for h in hy:
		for x in T.conjuncts(h):
			if x[0] == 'ev' and len(x[1] - {I}) == 1: m[next(iter(x[1] - {I}))] = x[1] & {I}
	return m
def prove_path(c, s, r, n_ok):
	if isinstance(r, Exception): raise Unsupported(f'raised on symbolic input: {type(r).__name__}: {r}')
	env, op = r
	for hy, goal in s.required:
		if not T.valid(hy + list(s.assume), goal): raise T.Refuted('an index is not shown to be in range')
		n_ok['z3'] += 1
	v, hy = T.kernel_at(op, c.names)
	if c.axes:
		want = c.axes(env)
		for a, b in zip(op.axes, want):
			if b is not None: T.same_set(a, b); n_ok['z3'] += 1
	one = only_blade(hy)
	diff = (v - c.spec).subst(one)
	extra = list(s.assume)
	extra = [h for h in extra if h[0] == 'forall' or T.fvars(h) <= set(c.names) | {I}]
	if c.tied: diff = symmetrise(diff, c.names, c.tied)
	b = T.check_zero(diff, hy, c.names[::-1], extra)
	n_ok[b] += 1
	if c.complete:
		# where the specification is not zero, the blade belongs to the reported output set
		o = c.names[-1]
		sp = symmetrise(c.spec, c.names, c.tied)
		dom = [a.member(W(n)) for a, n in zip(op.axes[:-1], c.names)]
		goal = op.axes[-1].member(W(o))
		if c.within: goal = disj(goal, neg(c.within(env, o)))
		if c.within or not any(support_is(d, c.spec, c.names, hy, c.tied, extra_, ow) for d, extra_, ow in outputs(op.axes[-1], c.names[-1])):
			b = T.check_zero(T.inside(sp.where(neg(goal))), dom, c.names[::-1], extra)
			n_ok[b] += 1
		else: n_ok['normal form'] += 1
	if c.exact:
		d = op.axes[-1].definition
		if d is None: raise Unsupported('the output set is not the support of a kernel')
		if not support_is(d, c.spec, c.names, hy): raise T.Refuted('the output set is not exactly the reachable blades')
		n_ok['z3'] += 1

def run(led, pid, c, contract=None):
	"""prove one kernel contract; confirm refutations on concrete algebras"""
	import time
	contract = contract or 'kernel: ' + c.name
	t0 = time.process_time()
	T.stats.clear()
	if c.values: load(c.backend)
	status = None
	wit = None
	n_ok = {'normal form': 0, 'z3': 0}
	try:
		paths, top = 0, 0
		work = [({}, frozenset())]
		while work:
			same, T.DISTINCT = work.pop()
			if len(T.DISTINCT) + len(same) > 5: raise Unsupported('too many cases of equal sets')
			try:
				with T.symbolic(c.values), modular(c.modular):
					for s, r in T.explore(lambda: start(c, same)):
						paths += 1
						top = max(top, s.peak)
						prove_path(c, s, r, n_ok)
			except T.Split as e: work += split(c, same, T.DISTINCT, e)
	except T.Refuted as e: status, wit = f'refuted: {e}', e.witness
	except (Unsupported, RecursionError) as e: status = f'unsupported: {type(e).__name__}: {e}'
	except T.z3.Z3Exception as e: status = f'solver: {e}'
	except Exception as e: status = f'engine: {type(e).__name__}: {e}'
	led.seconds['engine T'] += time.process_time() - t0
	if status is None:
		led.ok(contract, 'kernel normal form (all sets, all algebras)', n_ok['normal form'])
		led.ok(contract, 'z3 kernel conditions (all sets, all algebras)', n_ok['z3'] + T.stats['z3'])
		led.cover('kernel contracts proved for every set of every algebra')
		led.cover('kernel contracts: symbolic paths', paths)
		if c.ops: pass      # arbitrary integer kernels
		elif top <= 127: led.ok(contract, 'bound on intermediate integers (8 bit)')
		else: led.open[contract, f'intermediate integers up to {top}'] += 1
	# concrete evaluations
	r = rng('kernels', pid, c.name)
	found = None
	tries = 6 if status is None else 60
	done = 0
	for i in range(tries):
		try:
			if wit and i < 40:
				x = T.concretise(wit, r)
				if x is None: wit = None; continue
				sig, env = x
			else:
				sig, env = [r.choice((1, 1, -1, 0)) for _ in range(r.randint(max(1, c.mindim), (3 if len(c.names) > 4 else 3 + i % 3) + (c.mindim > 3)))], {}
			found = concrete(c, sig, env, r)
			done += 1
		except (Unsupported, KeyError, StopIteration) as e:
			continue
		if found: break
	if found:
		led.violate(contract, f'{c.name}: {status or "symbolically proved, but"} {found["what"]}', **{k: v for k, v in found.items() if k != 'what'})
		return False
	led.bounded[contract] += done
	if status is not None:
		led.open[contract, f'{c.name}: {status}'[:200]] += 1
		return None
	return True


def outputs(s, o):
	"""definitions of the set as {o : extra condition and a kernel is not zero}"""
	if s.definition: yield s.definition, TRUE, W(o)
	else:
		cs = T.conjuncts(s.member(W(o)))
		for x in cs:
			if x[0] == 'sup' and T.SETS[x[1]].definition: yield T.SETS[x[1]].definition, conj(*(cs - {x})), x[2]

def support_is(d, spec_, names, hy, tied=(), extra=TRUE, ow=None):
	"""the set {o : the defining kernel is not zero for some arguments} is the set of blades the specification reaches (with tied arguments:
	contains it, since a non-zero symmetrised value needs a non-zero value at some order of the arguments)"""
	ins, o, val = d
	one = only_blade(hy)
	many = [n for n in names[:-1] if n not in one]
	if len(ins) not in (len(many), len(names) - 1): return False
	if len(ins) == len(names) - 1: many = names[:-1]
	spec_ = spec_.subst({k: x for k, x in one.items() if k != names[-1]})
	m = {a.var: one.get(n, W(n)) for a, n in zip(ins, many)}; m[o] = ow or W(names[-1])
	return any(same_reach(f(val.subst(m).where(extra)), f(spec_), names, hy, tied) for f in (lambda x: x, T.empties))
def same_reach(v, t, names, hy, tied):
	v, t = T.canon_bound(v), T.canon_bound(t)
	if tied: v, t = symmetrise(v, names, tied), symmetrise(t, names, tied)
	(v, t), hy = (T.drop_known(T.reached(T.drop_known(x, hy[:-1]), hy[:-1]), hy[:-1]) for x in (v, t)), hy[:-1]
	return T.same_zeros(v, t, hy, names[-1])

@contextlib.contextmanager
def modular(on):
	if not on:
		yield
		return
	saved = Operator.__dict__['symmetry']
	Operator.symmetry = T.symmetry_contract
	try: yield
	finally: Operator.symmetry = saved

def concrete(c, sig, env, r):
	"""run the real builder on concrete subspaces; None, or a description of the first wrong kernel entry"""
	n = len(sig)
	if n < c.mindim: raise Unsupported('dimension')
	al = algebra(sig)
	full = (1 << n) - 1
	sets = {}
	for i, s in enumerate(c.sets):
		blades = set()
		# blades of the countermodel: put every axis variable into the set of its axis when that is known
		for nm, st in (getattr(c, 'home', None) or {}).items():
			if st == s and nm in env: blades.add(env[nm])
		for k, u in enumerate(c.names[:-1] if not c.values else sorted(env)):
			if u in env and (c.home_of(u) == s if hasattr(c, 'home_of') else True): blades.add(env[u])
		for _ in range(r.randint(0, 1) if blades else r.randint(1, {0: 5, 1: 5, 2: 5, 3: 4, 4: 3}.get(len(c.names) - 1, 2))): blades.add(r.randint(0, full))
		if s in c.parity:
			p = bin(sorted(blades)[0]).count('1') & 1
			blades = {b for b in blades if bin(b).count('1') & 1 == p}
		sets[s] = blades
	subs = {s: sub(al, b) for s, b in sets.items()}
	sets = {s: [int(b) for b in V.blades] for s, V in subs.items()}
	args = dict(subs)
	ops = {}
	for nm, axes in c.ops.items():
		shape = tuple(len(subs[a]) for a in axes)
		k = np.array([r.choice((-2, -1, 0, 0, 1, 2) if axes else (-4, -2, -1, 1, 2)) for _ in range(int(np.prod(shape)))], dtype=np.int8).reshape(shape)
		args[nm] = Operator(k, tuple(subs[a] for a in axes))
		ops[nm] = axes, {tuple(sets[a][i] for a, i in zip(axes, ix)): int(k[ix]) for ix in itertools.product(*map(range, shape))}
		if not axes: ops['1/' + nm] = axes, {(): Fraction(1) / Fraction(ops[nm][1][()])}
	cx = Ctx(sig, sets, ops)
	label = f'signature {"".join("+-0"[(1, -1, 0).index(s)] for s in sig)}, ' + ', '.join(f'{k} = {v}' for k, v in sets.items())
	try:
		op = c.build(al, **args)
		axes = [[int(b) for b in a.blades] for a in op.axes]
		kern = np.asarray(op.kernel)
		if kern.shape != tuple(map(len, axes)): return dict(what=f'kernel shape {kern.shape} does not match its axes; {label}', kind='value', signature=list(sig), sets=sets)
	except Exception as e:
		return dict(what=f'the real code raised {type(e).__name__}: {e}; {label}', kind='exception', signature=list(sig), sets=sets)
	if len(axes) != len(c.names): return dict(what=f'arity {len(axes) - 1} instead of {len(c.names) - 1}; {label}', kind='value', signature=list(sig), sets=sets)
	if c.axes:
		want = c.axes(subs)
		for i, (a, b) in enumerate(zip(op.axes, want)):
			if b is not None and [int(x) for x in a.blades] != [int(x) for x in b.blades]:
				return dict(what=f'axis {i} is {[int(x) for x in a.blades]} instead of {[int(x) for x in b.blades]}; {label}', kind='value', signature=list(sig), sets=sets)
	outs = list(range(full + 1)) if n <= 5 else axes[-1]
	reached = set()
	spec = {}
	if n > 5 and c.complete:
		# outputs the specification could reach: products of the inputs and their complement
		outs = sorted(set(axes[-1]) | {x for ins in itertools.product(*axes[:-1]) for x in [_x(ins), _x(ins) ^ full]})
	total = np.prod([len(a) for a in axes[:-1]]) * len(outs)
	if total > 60000: raise Unsupported('too large')
	got = {}
	for ix in itertools.product(*(range(len(a)) for a in axes[:-1])):
		ins = tuple(a[i] for a, i in zip(axes, ix))
		for o in outs:
			e = dict(zip(c.names, ins + (o,)))
			if c.within and not cx.f(c.within(subs_keys(subs, c), c.names[-1]), e): continue
			spec[ins, o] = cx.val(c.spec, e)
		for k, o in enumerate(axes[-1]): got[ins, o] = Fraction(kern[ix + (k,)].item()).limit_denominator(10**6)
	def tie(d):
		if not c.tied: return d
		out = {}
		for (ins, o), v in d.items():
			x = list(ins)
			for grp in c.tied:
				for i, b in zip(grp, sorted(x[i] for i in grp)): x[i] = b
			out[tuple(x), o] = out.get((tuple(x), o), 0) + v
		return out
	g, s = tie(got), tie(spec)
	for key in sorted(set(g) | set(s)):
		a, b = g.get(key, 0), s.get(key, 0)
		if key not in s and c.within: continue
		if a != b:
			return dict(what=f'coefficient of blade {key[1]} for argument blades {key[0]} is {a}, should be {b}; {label}', kind='value', signature=list(sig), sets=sets, input=list(key[0]), blade=key[1], got=str(a), want=str(b))
	if c.exact:
		reach = sorted({o for (ins, o), v in s.items() if v})
		if sorted(axes[-1]) != reach:
			return dict(what=f'reported output blades {sorted(axes[-1])}, reachable {reach}; {label}', kind='value', signature=list(sig), sets=sets)
	return None

def _x(ins):
	x = 0
	for b in ins: x ^= b
	return x

class _Key:
	def __init__(self, key): self.key = key
	def member(self, w_): return ('in', self.key, w_)
def subs_keys(subs, c): return {s: _Key(s) for s in subs}
