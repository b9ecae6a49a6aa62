"""C17: dispatch. Proof over the AST of DynamicDispatch (unbounded options, cache, history by class invariant), and
exhaustive exploration of short histories on the real class as oracle for refutations."""
import itertools
import dv.env as env
from dv.core import *
from dv import pvc
from dv.pvc import *

MOD = __name__


# ---------------------------------------------------------------- deduction
def setup(k):
	"""an arbitrary dispatcher with an arbitrary list of options and an arbitrary cache for k-ary attribute tuples"""
	C, F = z3.Function('C', z3.IntSort(), V), z3.Function('F', z3.IntSort(), V)
	H = z3.Function(f'holds{k}', *([V] * k), V, z3.BoolSort())    # condition, attributes
	H_ = lambda c, a: H(*a, c) if k else z3.Function('holds0', V, z3.BoolSort())(c)
	N = z3.Int('N')
	key = Tup([Op(fresh()) for _ in range(k)])
	K = key_term(key).sort()
	dom, val = z3.Array('dom', K, z3.BoolSort()), z3.Array('val', K, V)
	attr = z3.Function('attr', V, V)
	run = z3.Function(f'run{k}', *([V] * (k + 1)), V)
	def options():
		return List(N, lambda i: Tup([Op(C(i)), Op(F(i))]))
	def call(m, s, f, args):
		# a condition called with attributes, or an implementation called with arguments
		if all(isinstance(a, Op) for a in args) and len(args) == k:
			if z3.is_app(f.t) and f.t.decl().eq(C): yield s, Bool(H_(f.t, [a.t for a in args]))
			else: yield s, Op(run(*[a.t for a in args], f.t))
			return
		raise Unsupported('call')
	return dict(C=C, F=F, H=H_, N=N, K=K, dom=dom, val=val, attr=attr, run=run, options=options, call=call)


def first(w, opts, a, v, s=''):
	"""v is the implementation of the first option that holds for the attributes a"""
	i, j = z3.Ints(f'fi{s} fj{s}')
	c = lambda x: opts.at(x).v[0].t
	f = lambda x: opts.at(x).v[1].t
	return z3.Exists([i], z3.And(0 <= i, i < opts.n, w['H'](c(i), a), v == f(i), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i), z3.Not(w['H'](c(j), a))))))


def invariant(w, k, dom, val, opts):
	xs = [z3.Const(f'a{i}', V) for i in range(k)]
	kt = key_term(Tup([Op(x) for x in xs]))
	body = z3.Implies(z3.Select(dom, kt), first(w, opts, xs, z3.Select(val, kt), 'inv'))
	return z3.ForAll(xs, body) if xs else body


def proof(led, k):
	from numga.dynamic_dispatch import DynamicDispatch, SubspaceDispatch
	led.refuted = []
	try:
		_proof(led, k, DynamicDispatch, SubspaceDispatch)
	except (Unsupported, OSError, SyntaxError, z3.Z3Exception, KeyError, AttributeError, TypeError, AssertionError) as e:
		led.open['deduction', f'the code is outside the verifier\'s subset: {type(e).__name__}: {e}'[:150]] += 1
		led.refuted = []
	explore(led, 3, 2)
	if not led.violations:
		led.violations += led.refuted
	del led.refuted


def _proof(led, k, DD, SD):
	w = setup(k)
	pi = z3.Int('pi')
	pre = [w['N'] >= 0, z3.ForAll([pi], z3.Implies(z3.And(0 <= pi, pi < w['N']), w['F'](pi) != NONE))]      # implementations are functions, never None
	def machine(**kw):
		return Machine(call=w['call'], **kw)
	def heap(m):
		st = St(pc=pre)
		st, opts = st.new(w['options']())
		st, cache = st.new(Dict(w['dom'], w['val']))
		st, self_ = st.new(Rec(dict(options=opts, cache=cache), cls=DD))
		return st.fork(invariant(w, k, w['dom'], w['val'], w['options']())), self_, opts, cache
	attrs = [z3.Const(f'at{i}', V) for i in range(k)]
	attr_tuple = Tup([Op(a) for a in attrs])
	def inv(s, opts, cache):
		d = s.get(cache)
		return invariant(w, k, d.dom, d.val, s.get(opts))
	# ---- match(attributes): returns the first matching implementation, keeps the invariant and the options; raises iff none holds
	m = machine()
	st, self_, opts, cache = heap(m)
	node = m.source(DD.match)
	paths = list(m.call_function(node, st, [self_, attr_tuple]))
	assert paths
	for s, v in paths:
		if not m.feasible(s): continue
		covered(led, 'match', m, s)
		o = w['options']()
		if isinstance(v, Exc):
			j = z3.Int('nj')
			discharge(led, 'match', m, s, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < w['N']), z3.Not(w['H'](w['C'](j), attrs)))), 'match raises although a condition holds')
		else:
			if not isinstance(v, Op): raise Unsupported('result of match')
			discharge(led, 'match', m, s, first(w, o, attrs, v.t), 'match does not return the first matching implementation')
		if s.get(opts).n is not st.get(opts).n and s.get(opts) is not st.get(opts): raise Unsupported('match changes the options')
		discharge(led, 'invariant', m, s, inv(s, opts, cache), 'match breaks the cache invariant')
	# contract of match for its caller
	def match_contract(m, s, args, kw):
		self2, at = args
		if not (isinstance(at, Tup) and len(at.v) == k and all(isinstance(x, Op) for x in at.v)): raise Unsupported('match arguments')
		a = [x.t for x in at.v]
		r = fresh(name='r')
		d = s.get(s.get(self2).f['cache']).copy()
		none = z3.ForAll([z3.Int('nj')], z3.Implies(z3.And(0 <= z3.Int('nj'), z3.Int('nj') < w['N']), z3.Not(w['H'](w['C'](z3.Int('nj')), a))))
		d2, v2 = fresh(d.dom.sort(), 'dom'), fresh(d.val.sort(), 'val')
		d.dom, d.val = d2, v2
		s1 = s.put(s.get(self2).f['cache'], d)
		keep = invariant(w, k, d2, v2, w['options']())
		yield s1.fork(first(w, w['options'](), a, r), keep), Op(r)
		yield s1.fork(none, keep), Exc('no match')
	# ---- __call__(*args): runs the first matching implementation on the arguments
	m = machine()
	st, self_, opts, cache = heap(m)
	rec = st.get(self_).copy()
	rec.methods = dict(match=match_contract, attribute=lambda m, s, args, kw: iter([(s, Op(w['attr'](args[1].t)))]))
	st = st.put(self_, rec)
	xs = [z3.Const(f'arg{i}', V) for i in range(k)]
	at = [w['attr'](x) for x in xs]
	node = m.source(DD.__call__)
	fn = z3.Const('fn', V)
	for s, v in m.call_function(node, st, [self_] + [Op(x) for x in xs]):
		if not m.feasible(s): continue
		covered(led, 'call', m, s)
		if isinstance(v, Exc):
			j = z3.Int('nj')
			discharge(led, 'call', m, s, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < w['N']), z3.Not(w['H'](w['C'](j), at)))), '__call__ raises although a condition holds')
		else:
			if not isinstance(v, Op): raise Unsupported('result of __call__')
			# the result is run(args, f) for the first matching f
			i, j = z3.Ints('ci cj')
			goal = z3.Exists([i], z3.And(0 <= i, i < w['N'], w['H'](w['C'](i), at), v.t == w['run'](*xs, w['F'](i)), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i), z3.Not(w['H'](w['C'](j), at))))))
			discharge(led, 'call', m, s, goal, '__call__ does not run the first matching implementation on its arguments')
		discharge(led, 'invariant', m, s, inv(s, opts, cache), '__call__ breaks the cache invariant')
	# ---- register(condition, position)(func): inserts at the position, keeps the invariant
	for pos in ('none', 'given'):
		m = machine()
		st, self_, opts, cache = heap(m)
		c, f, p = z3.Const('newC', V), z3.Const('newF', V), z3.Int('pos')
		st = st.fork(0 <= p, p <= w['N'], f != NONE)
		node = m.source(DD.register)
		args = [self_, Op(c)] + ([Int(p)] if pos == 'given' else [])
		at_ = p if pos == 'given' else w['N']
		for s, wrap in m.call_function(node, st, args):
			if isinstance(wrap, Exc): raise Unsupported('register raises')
			for s2, v in m.apply(s, wrap, [Op(f)], {}):
				if not m.feasible(s2): continue
				covered(led, 'register', m, s2)
				new, old = s2.get(opts), w['options']()
				discharge(led, 'register', m, s2, new.n == w['N'] + 1, 'register does not add exactly one option')
				i = z3.Int('ri')
				e = new.at(i)
				want = ite(i < at_, old.at(i), ite(i == at_, Tup([Op(c), Op(f)]), old.at(i - 1)))
				discharge(led, 'register', m, s2, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < new.n), z3.And(e.v[0].t == want.v[0].t, e.v[1].t == want.v[1].t))), 'register does not insert the option at its position')
				discharge(led, 'register', m, s2, m.eq(v, Op(f)), 'register does not return the decorated function')
				discharge(led, 'invariant', m, s2, inv(s2, opts, cache), 'register breaks the cache invariant')
	# ---- __init__ establishes the invariant: no options, empty cache (executed)
	d = DD()
	led.enum('invariant', d.options == [] and len(d.cache) == 0, 'a new dispatcher has options or cached choices')
	# ---- SubspaceDispatch.attribute(arg) is arg.subspace
	m = machine()
	st = St()
	st, arg = st.new(Rec(dict(subspace=Op(z3.Const('sub', V)))))
	st, self_ = st.new(Rec({}))
	for s, v in m.call_function(m.source(SD.attribute), st, [self_, arg]):
		if isinstance(v, Exc): raise Unsupported('attribute raises')
		discharge(led, 'call', m, s, m.eq(v, Op(z3.Const('sub', V))), 'the dispatch attribute is not the subspace')
	led.notes['z3 queries'] += m.queries


# ---------------------------------------------------------------- exploration of the real class
class Arg:
	def __init__(self, s, value): self.subspace, self.value = s, value


def explore(led, nopt, nattr):
	"""all histories of registrations (all positions, all truth tables) interleaved with calls"""
	from numga.dynamic_dispatch import SubspaceDispatch
	contract = 'exploration'
	attrs = [('s', i) for i in range(nattr)]
	tables = list(itertools.product((False, True), repeat=nattr))
	for n in range(nopt + 1):
		for tabs in itertools.product(tables, repeat=n):
			for poss in itertools.product(*[range(-1, i + 1) for i in range(n)]):
				for late in range(1 << n) if n < 3 else (0, 1, 2, 5, 7):
					d = SubspaceDispatch('doc')
					ref = []
					for i in range(n):
						if late >> i & 1:
							for a in attrs: check_call(led, contract, d, ref, (a,), f'{tabs} {poss} {late}')
						f = lambda *x, i=i: ('impl', i, tuple(y.value for y in x))
						c = lambda *s, t=tabs[i]: t[s[0][1]]
						p = poss[i]
						if p < 0:
							r = d.register(c)(f); ref.append((c, i))
						else:
							r = d.register(c, p)(f); ref.insert(p, (c, i))
						led.num(contract, r is f, 'register does not return the decorated function')
					for rnd in range(2):
						for a in attrs[::1 if rnd else -1]: check_call(led, contract, d, ref, (a,), f'tables {tabs} positions {poss} calls before registration {late:b}')


def check_call(led, contract, d, ref, attrs, what):
	want = next((i for c, i in ref if c(*attrs)), None)
	val = (object(),) * len(attrs)
	try:
		got = d(*[Arg(a, v) for a, v in zip(attrs, val)])
	except Exception as e:
		got = None
		err = e
	led.num(contract, (got is None) == (want is None) and (got is None or got == ('impl', want, val)),
	         f'dispatch on {attrs} ran {got and got[1]}, first match is {want}; {what}', history=what)


def sampled(led, seed, k):
	"""long histories: many options, several arities, conditions over several attributes"""
	from numga.dynamic_dispatch import SubspaceDispatch
	r = rng('c17', seed)
	for _ in range(k):
		d, ref = SubspaceDispatch(), []
		attrs = [object() for _ in range(r.choice([2, 6, 40]))]
		hist = []
		for step in range(r.choice([20, 60, 300])):
			if r.random() < (.3 if len(ref) < 40 else .02):
				i = len(hist)
				k_ = r.randint(1, 3)
				acc = {tuple(r.choice(attrs) for _ in range(k_)) for _ in range(r.randint(0, 12))}
				mode = r.random()
				c = (lambda *s, acc=acc: s in acc) if mode < .7 else (lambda *s, k_=k_: len(s) == k_) if mode < .85 else (lambda *s: False)
				f = lambda *x, i=i: ('impl', i, tuple(y.value for y in x))
				p = r.choice([None, None, 0, r.randint(0, len(ref))])
				if r.random() < .1 and not ref:
					d.register()(f); ref.append((lambda *s: True, i))
				else:
					d.register(c, position=p)(f); ref.insert(len(ref) if p is None else p, (c, i))
				hist.append(('register', i, p))
			else:
				a = tuple(r.choice(attrs) for _ in range(r.randint(1, 3)))
				n0 = len(led.violations)
				want = next((i for c, i in ref if c(*a)), None)
				val = tuple(r.random() for _ in a)
				try: got = d(*[Arg(x, v) for x, v in zip(a, val)])
				except Exception: got = None
				led.num('long histories', (got is None) == (want is None) and (got is None or got == ('impl', want, val)), f'after {len(hist)} registrations and calls: ran {got and got[1]}, first match is {want}', history=hist[-30:])
				hist.append('call')


def repository(led):
	"""the dispatchers of the library: every method on every grade combination of small algebras runs the first option that holds"""
	from numga.dynamic_dispatch import SubspaceDispatch
	from numga.multivector.multivector import AbstractMultiVector as M
	import numga.multivector.extension
	from dv.families import grade_combos
	names = [n for n in dir(M) if isinstance(M.__dict__.get(n), SubspaceDispatch)]
	led.enum('library dispatchers', len(names) >= 10, f'found {names}')
	for sig in ((1,), (1, 1), (1, 0), (1, 1, 1), (1, 1, 0), (1, -1, 1), (1, 1, 1, 0)):
		ctx = context(sig, np.float64)
		for n in names:
			d = M.__dict__[n]
			for rnd in range(2):
				for g in grade_combos(len(sig)):
					V = sub(ctx, g)
					for args in ((V,), (V, V)):
						want = err = None
						try:
							for c, f in d.options:
								if c(*args): want = f; break
						except Exception as e:
							err = type(e)
						saw = []
						try:
							got = resolve(d, args)
						except Exception as e:
							got = None
						led.enum('library dispatchers', got is want or (err is not None), f'{n} on {[str(a.named_str) for a in args]} in {sig}: chose {got}, first option that holds is {want}')


PROBE = {}
def resolve(d, args):
	"""which implementation __call__ runs, without running it: the same dispatcher with recording implementations"""
	import copy as cp
	from numga.dynamic_dispatch import SubspaceDispatch
	e = PROBE.get(id(d))
	if e is None or e[1] != len(d.options):
		p = SubspaceDispatch()
		for c, f in d.options: p.register(c)(lambda *a, f=f: f)
		e = (p, len(d.options))
		PROBE[id(d)] = e
	return e[0](*[Arg(a, None) for a in args])


def main():
	c = Check('C17', MOD)
	c.contract('match', ['DynamicDispatch.match'], 'returns the implementation of the least i with condition_i(attributes), raises iff there is none; options unchanged (search-loop invariant, any number of options)')
	c.contract('call', ['DynamicDispatch.__call__', 'SubspaceDispatch.attribute'], 'runs the first matching implementation on its arguments, from any cache satisfying the invariant')
	c.contract('register', ['DynamicDispatch.register'], 'options become the insertion of (condition, func) at the position')
	c.contract('invariant', ['DynamicDispatch.match', 'DynamicDispatch.__call__', 'DynamicDispatch.register', 'DynamicDispatch.__init__'], 'every cached choice is the first match of the current options (established by __init__, kept by every method)')
	c.contract('exploration', ['SubspaceDispatch'], 'all histories up to 3 registrations (all positions, truth tables, calls in between) on the real class; bounded')
	c.contract('long histories', ['SubspaceDispatch'], 'sampled histories with up to 40 options and 300 steps; bounded')
	c.contract('library dispatchers', ['all SubspaceDispatch methods of AbstractMultiVector'], 'first option that holds, for all grade combinations of small algebras; enumerated')
	c.assumptions += ['conditions are pure and total functions of the subspaces; implementations do not touch the dispatcher',
	                  'attribute tuples are hashed and compared structurally (subspaces are flyweights: C03)',
	                  'arity of the dispatched method: 0 to 4 (one proof per arity)']
	for k in range(5):
		c.task('proof', k)
	for i in range(24 if env.THOROUGH else 6):
		c.task('sampled', i, 60 if env.THOROUGH else 15)
	c.task('explore', 3, 3 if env.THOROUGH else 2)
	c.task('repository')
	c.run()
	return c.finish()
