"""Engine P on the parsers of descriptions and names (C18): the AST of the real functions over an arbitrary text.

A text is a function from positions to character codes with a length L; a piece of it is a pair of positions. The contract of a parser is
a tiling: what it yields, in order, are consecutive pieces from position 0 to L. Ghost: the end of the last piece yielded. Obligations at
each yield: the piece starts at the ghost end, and is a tile. Loops: the invariant is found among candidates (Houdini), each proved at
entry and kept by an arbitrary iteration. Nothing bounds the text, the number of names or the signature."""
import z3
from dv.pvc import *

code = z3.Function('code', z3.IntSort(), z3.IntSort())
known = z3.Function('known', z3.IntSort(), z3.IntSort(), z3.BoolSort())       # the piece [lo, hi) is a name
index = z3.Function('index', z3.IntSort(), z3.IntSort(), z3.IntSort())        # its position in the names
L = z3.Int('L')
SIGN = {1: '+', -1: '-', 0: '0'}         # from the documentation: 'x+y+z+w0'
END = '#end'


def is_sign(p): return z3.Or(*[code(p) == ord(c) for c in SIGN.values()])
def free(lo, hi):
	j = z3.Int('fj')
	return z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < hi), z3.Not(is_sign(j))))
def unknown(lo, hi):
	j = z3.Int('uj')
	return z3.ForAll([j], z3.Implies(z3.And(lo < j, j <= hi), z3.Not(known(lo, j))))
def num(v):
	if isinstance(v, bool) or not isinstance(v, (int, Int)): raise Unsupported('position')
	return v.t if isinstance(v, Int) else z3.IntVal(v)


class Piece(Sem):
	def __init__(self, lo, hi): self.lo, self.hi = lo, hi
	def single(self, m, s):
		if m.proves(s, self.hi == self.lo + 1)[0] != 'yes': raise Unsupported('piece of unknown size')
		return self.lo
	def item(self, m, s, k):
		if isinstance(k, slice):
			if k.step is not None: raise Unsupported('slice')
			n = self.hi - self.lo
			a, b = z3.IntVal(0) if k.start is None else num(k.start), n if k.stop is None else num(k.stop)
			if m.proves(s, z3.And(0 <= a, a <= b, b <= n))[0] != 'yes': raise Unsupported('slice')
			yield s, Piece(z3.simplify(self.lo + a), z3.simplify(self.lo + b))
		else:
			a = num(k)
			if m.proves(s, z3.And(0 <= a, a < self.hi - self.lo))[0] != 'yes': raise Unsupported('subscript of a text')
			yield s, Piece(self.lo + a, self.lo + a + 1)
	def compare(self, m, s, op, a, b):
		if op not in (ast.Eq, ast.NotEq): raise Unsupported('comparison of texts')
		o = b if a is self else a
		if not isinstance(o, str) or len(o) != 1: raise Unsupported('comparison of texts')
		t = code(self.single(m, s)) == ord(o)
		yield s, Bool(t if op is ast.Eq else z3.Not(t))
	def truth(self, m, s): yield from m.truth(s, Bool(self.hi > self.lo))
	def bin(self, m, s, op, a, b):
		if op is not ast.Add: raise Unsupported('text operator')
		if '' in (a, b): yield s, (b if a == '' else a); return
		if not (isinstance(a, Piece) and isinstance(b, Piece)): raise Unsupported('text operator')
		if m.proves(s, a.hi == b.lo)[0] != 'yes': raise Unsupported('pieces that are not adjacent')
		yield s, Piece(a.lo, b.hi)
	def iterate(self, m, s, n): yield from m.scan(n, s, self.hi - self.lo, lambda i: Piece(self.lo + i, self.lo + i + 1))


class Numbered(Sem):
	def __init__(self, text): self.text = text
	def iterate(self, m, s, n): yield from m.scan(n, s, self.text.hi - self.text.lo, lambda i: Tup([Int(i), Piece(self.text.lo + i, self.text.lo + i + 1)]))


class Table(Sem):
	"""a dictionary of the module from characters to numbers"""
	def __init__(self, d):
		if not all(isinstance(k, str) and len(k) == 1 and isinstance(v, int) for k, v in d.items()): raise Unsupported('table')
		self.d = d
	def member(self, m, s, x):
		if not isinstance(x, Piece): raise Unsupported('key')
		p = x.single(m, s)
		return z3.Or(*[code(p) == ord(k) for k in self.d])
	def contains(self, m, s, x): yield s, Bool(self.member(m, s, x))
	def item(self, m, s, k):
		for s2, b in m.truth(s, Bool(self.member(m, s, k))):
			t = z3.IntVal(77)
			for c, v in self.d.items(): t = z3.If(code(k.lo) == ord(c), z3.IntVal(v), t)
			yield s2, (Int(t) if b else Exc('KeyError'))
	def attr(self, m, s, a):
		if a == 'keys': yield s, Nat(lambda m, s, args, kw: iter([(s, self)])); return
		if a != 'get': raise Unsupported('table')
		def get(m, s, args, kw):
			for s2, v in self.item(m, s, args[0]): yield s2, ((args[1] if len(args) > 1 else None) if isinstance(v, Exc) else v)
		yield s, Nat(get)


class Names(Sem):
	def contains(self, m, s, x):
		if not isinstance(x, Piece): raise Unsupported('name')
		yield s, Bool(known(x.lo, x.hi))
	def attr(self, m, s, a):
		if a != 'index': raise Unsupported(f'names.{a}')
		def f(m, s, args, kw):
			x, = args
			if not isinstance(x, Piece): raise Unsupported('name')
			for s2, b in m.truth(s, Bool(known(x.lo, x.hi))):
				yield s2, (Int(index(x.lo, x.hi)) if b else Exc('ValueError'))
		yield s, Nat(f)


class Gen(Sem):
	"""the finite sequence a generator yields; complete: the tiling reaches the end of the text"""
	def call(self, m, s, args, kw): raise Unsupported('generator')
class Col(Sem):
	def __init__(self, gen, k): self.gen, self.k = gen, k
class Junk(Sem): pass


class Parser(Machine):
	"""on_yield(machine, state, value) -> (position after the piece, [obligations])"""
	def __init__(self, on_yield, cands, **kw):
		globs = dict(enumerate=Nat(self.enum), len=Nat(self.length), tuple=Nat(self.seq), list=Nat(self.seq), range=Nat(lambda m, s, a, kw: iter([(s, Range(num(a[0])))])), **kw.pop('globs', {}))
		super().__init__(globs=globs, **kw)
		self.on_yield, self.cands = on_yield, cands
		self.goals = []
	@staticmethod
	def enum(m, s, args, kw):
		if len(args) != 1 or not isinstance(args[0], Piece): raise Unsupported('enumerate')
		yield s, Numbered(args[0])
	@staticmethod
	def length(m, s, args, kw):
		x, = args
		if not isinstance(x, Piece): raise Unsupported('len')
		yield s, Int(z3.simplify(x.hi - x.lo))
	@staticmethod
	def seq(m, s, args, kw):
		if len(args) != 1 or not isinstance(args[0], (Gen, Col)): raise Unsupported('tuple')
		yield s, args[0]
	def e_JoinedStr(self, n, st): yield st, Junk()
	def compare(self, op, a, b, s):
		if op in (ast.In, ast.NotIn) and isinstance(b, str) and isinstance(a, Piece):
			b = Table({c: 0 for c in b})
		yield from super().compare(op, a, b, s)
	def e_Yield(self, n, st):
		for s, v in self.ev(n.value, st):
			if isinstance(v, Exc): yield s, v; continue
			here = num(s.env[END])
			if isinstance(v, Tup): v = Tup([Piece(here, here) if x == '' else x for x in v.v])
			end, goals = self.on_yield(self, s, v)
			self.goals += [(s, g, w) for g, w in goals]
			yield s.set(END, Int(end)), None
	def call_function(self, node, st, args, kwargs=None, env0=None):
		body = (node.node if isinstance(node, Clo) else node)
		if not any(isinstance(x, ast.Yield) for b in body.body for x in ast.walk(b)) or any(isinstance(b, ast.FunctionDef) for b in body.body):
			yield from super().call_function(node, st, args, kwargs, env0); return
		env = dict(node.env if isinstance(node, Clo) else {})
		names = [a.arg for a in body.args.args]
		if len(names) != len(args) or kwargs: raise Unsupported('arguments of a generator')
		env.update(zip(names, args)); env[END] = Int(z3.IntVal(0))
		for s, o in self.block(body.body, st.at(env)):
			if o[0] == 'raise':
				self.failed(s, s.env[END].t)
				yield s.at(st.env), o[1]
			elif o[0] in ('next', 'return'):
				self.goals.append((s, s.env[END].t == L, 'the pieces do not reach the end of the text'))
				yield s.at(st.env), Gen()
			else: raise Unsupported('generator')
	def failed(self, s, end): raise NotImplementedError
	def e_Call(self, n, st):
		if isinstance(n.func, ast.Name) and n.func.id == 'zip' and len(n.args) == 1 and isinstance(n.args[0], ast.Starred):
			for s, g in self.ev(n.args[0].value, st):
				if isinstance(g, Exc): yield s, g
				elif isinstance(g, Gen):
					yield s.fork(L == 0), Exc('ValueError')
					yield s.fork(L > 0), Tup([Col(g, 0), Col(g, 1)])
				else: raise Unsupported('zip')
			return
		if any(isinstance(a, ast.Starred) for a in n.args):
			if len(n.args) != 1: raise Unsupported('starred argument')
			for s, f in self.ev(n.func, st):
				for s2, v in self.ev(n.args[0].value, s):
					if isinstance(v, Exc): yield s2, v
					elif isinstance(v, Tup): yield from self.apply(s2, f, list(v.v), {})
					else: raise Unsupported('starred argument')
			return
		yield from super().e_Call(n, st)
	def s_For(self, n, st):
		for s, it in self.ev(n.iter, st):
			if isinstance(it, Exc): yield s, ('raise', it)
			elif isinstance(it, Range): yield from self.scan(n, s, it.n, Int)
			elif isinstance(it, (Piece, Numbered)): yield from it.iterate(self, s, n)
			else: raise Unsupported('loop')
	def scan(self, n, st, N, element):
		if END not in st.env: raise Unsupported('loop outside a generator')
		if self.proves(st, N == L)[0] != 'yes': raise Unsupported('loop over a part of the text')
		targets = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
		assigned = {x.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - targets
		ints = [a for a in sorted(assigned) if isinstance(st.env.get(a), (int, Int)) and not isinstance(st.env.get(a), bool)] + [END]
		cs = []
		for a in ints:
			v = lambda s, a=a: num(s.env[a])
			cs += [lambda s, i, v=v: z3.And(0 <= v(s), v(s) <= i), lambda s, i, v=v: v(s) == num(s.env[END]), lambda s, i, v=v: v(s) == i]
		# texts collected so far: since the end of the last piece
		texts = [a for a in sorted(assigned) if a not in ints and (st.env.get(a) == '' or isinstance(st.env.get(a), Piece))]
		def since(s, i, a):
			v, e = s.env[a], num(s.env[END])
			return e == i if isinstance(v, str) and v == '' else z3.And(v.lo == e, v.hi == i) if isinstance(v, Piece) else z3.BoolVal(False)
		cs += [lambda s, i, a=a: since(s, i, a) for a in texts]
		cs += [lambda s, i, c=c: c(num(s.env[END]), i) for c in self.cands]
		cs = [c for c in cs if self.proves(st, c(st, z3.IntVal(0)))[0] == 'yes']
		kept = list(self.goals)
		while True:
			self.goals = list(kept)
			i = fresh(z3.IntSort(), 'i')
			def havoc(s):
				for a in assigned | {END}: s = s.set(a, Int(fresh(z3.IntSort(), 'h')) if a in ints else Piece(fresh(z3.IntSort(), 'lo'), fresh(z3.IntSort(), 'hi')) if a in texts else UNDEF)
				return s
			s0 = havoc(st).fork(0 <= i, i < L)
			for c in cs: s0 = s0.fork(c(s0, i))
			outs, keep = [], list(cs)
			for s1, _ in self.assign(n.target, s0, element(i)):
				for s, o in self.block(n.body, s1):
					if s.heap is not st.heap and any(s.heap.get(k) is not v for k, v in st.heap.items()): raise Unsupported('loop body with effects on the heap')
					if any(not isinstance(s.env.get(a), (int, Int)) for a in ints) or any(not isinstance(s.env.get(a), Piece) and s.env.get(a) != '' for a in texts): raise Unsupported('a variable of two types')
					if o[0] in ('next', 'continue'): keep = [c for c in keep if self.proves(s, c(s, i + 1))[0] == 'yes']
					elif o[0] == 'break': outs.append((s, ('next',)))
					else: outs.append((s, o))
			if len(keep) == len(cs): break
			cs = keep
		self.invariant = len(cs)
		yield from outs
		s = havoc(st)
		for c in cs: s = s.fork(c(s, L))
		for t in targets: s = s.set(t, UNDEF)
		if n.orelse: yield from self.block(n.orelse, s)
		else: yield s, ('next',)


def close(led, ct, m):
	for s, g, what in m.goals:
		if not m.feasible(s): continue
		led.cover(ct + ': paths')
		r, info = m.proves(s, g)
		if r == 'yes': led.ok(ct, 'z3')
		else: led.open[ct, f'{what}: {"refuted" if r == "no" else "unknown"}'] += 1
	led.notes['z3 queries'] += m.queries


def guarded(led, ct, what, f):
	try: f()
	except (Unsupported, OSError, SyntaxError, z3.Z3Exception, KeyError, AttributeError, TypeError, AssertionError, IndexError, ValueError) as e:
		led.open[ct, f'{what}: outside the verifier\'s subset: {type(e).__name__}: {e}'[:160]] += 1


def prove_description(led, ct='parser of descriptions (all texts)'):
	from numga.algebra import description as mod
	def body():
		def on_yield(m, s, v):
			if not (isinstance(v, Tup) and len(v.v) == 2 and isinstance(v.v[0], Piece)): raise Unsupported('what is yielded')
			(p, sg), end = v.v, num(s.env[END])
			sg = num(sg)
			return p.hi + 1, [(p.lo == end, 'a name does not start where the last one ended'), (z3.And(p.lo <= p.hi, p.hi < L), 'a name is not followed by a sign'), (free(p.lo, p.hi), 'a sign inside a name'),
				(z3.Or(*[z3.And(code(p.hi) == ord(c), sg == k) for k, c in SIGN.items()]), 'the sign is not the one written')]
		class M(Parser):
			def failed(self, s, end): self.goals.append((s, z3.And(L > 0, z3.Not(is_sign(L - 1))), 'a text that ends in a sign is refused'))
		tables = {k: Table(v) for k, v in vars(mod).items() if isinstance(v, dict) and v and not k.startswith('__') and all(isinstance(x, str) for x in v)}
		m = M(on_yield, [free], globs=tables)
		n = 0
		for s, v in m.call_function(m.source(mod.parse_description), St(pc=[L >= 0]), [Piece(z3.IntVal(0), L)]):
			if not m.feasible(s): continue
			n += 1
			if isinstance(v, Exc):
				m.goals.append((s, z3.Or(L == 0, z3.Not(is_sign(L - 1))), 'a description is refused'))
				continue
			if not (isinstance(v, Tup) and len(v.v) == 2 and all(isinstance(x, Col) for x in v.v) and v.v[0].gen is v.v[1].gen): raise Unsupported('result')
			m.goals.append((s, z3.BoolVal((v.v[0].k, v.v[1].k) == (0, 1)), 'names and signs exchanged'))
		if n < 2: raise Unsupported('paths')
		close(led, ct, m)
		# two tilings of one text are equal: a name ends at the first sign after its start (induction over the pieces)
		lo, h1, h2 = z3.Ints('lo h1 h2')
		if m.proves(St(pc=[lo <= h1, lo <= h2, free(lo, h1), free(lo, h2), is_sign(h1), is_sign(h2)]), h1 == h2)[0] == 'yes': led.ok(ct, 'z3')
		else: led.open[ct, 'lemma: the tiling is unique'] += 1
	guarded(led, ct, 'parse_description', body)


def prove_tokens(led, ct='parser of names (all texts, all name sets)'):
	from numga.algebra.description import AlgebraDescription as D
	def body():
		def on_yield(m, s, v):
			if not isinstance(v, Int) or not z3.is_app(v.t) or not v.t.decl().eq(index): raise Unsupported('what is yielded')
			lo, hi = v.t.children()
			end = num(s.env[END])
			return hi, [(lo == end, 'a name does not start where the last one ended'), (z3.And(lo < hi, hi <= L), 'a piece outside the text'), (known(lo, hi), 'a piece that is no name'), (unknown(lo, hi - 1), 'not the shortest name')]
		class M(Parser):
			def failed(self, s, end): self.goals.append((s, z3.And(end < L, unknown(end, L)), 'a text is refused although a name follows'))
		m = M(on_yield, [unknown], axioms=())
		j, k = z3.Ints('aj ak')
		st = St(pc=[L >= 0, z3.ForAll([j, k], z3.Implies(known(j, k), j < k))])      # no empty name
		st, me = st.new(Rec(dict(basis_names=Names())))
		n = 0
		for s, v in m.call_function(m.source(D.parse_tokens), st, [me, Piece(z3.IntVal(0), L)]):
			if not m.feasible(s): continue
			n += 1
			if not isinstance(v, (Gen, Exc)): raise Unsupported('result')
		if n < 2: raise Unsupported('paths')
		close(led, ct, m)
	guarded(led, ct, 'parse_tokens', body)


def prove_masks(led, ct='masks and dimensions (all signatures)'):
	from numga.algebra.description import AlgebraDescription as D
	sig, N = z3.Function('sig', z3.IntSort(), z3.IntSort()), z3.Int('N')
	i = z3.Int('mi')
	pc = [N >= 0, z3.ForAll([i], z3.And(-1 <= sig(i), sig(i) <= 1))]
	def on(name, check):
		def body():
			def length(m, s, args, kw):
				if not (isinstance(args[0], Ref) and isinstance(s.get(args[0]), List)): raise Unsupported('len')
				yield s, Int(s.get(args[0]).n)
			def toint(m, s, args, kw):
				v, = args
				if isinstance(v, Bool): yield s, Int(z3.If(v.t, z3.IntVal(1), z3.IntVal(0)))
				elif isinstance(v, (int, Int)): yield s, v
				else: raise Unsupported('int')
			m = Machine(globs=dict(len=Nat(length), int=Nat(toint)))
			st, l = St(pc=pc).new(List(N, lambda i: Int(sig(i))))
			# two's power as an uninterpreted function of the exponent is not needed: the dimension is
			st, me = st.new(Rec(dict(signature=l), cls=D))
			got = 0
			for s, v in m.call_function(m.source(inspect.getattr_static(D, name)), st, [me]):
				if not m.feasible(s): continue
				got += 1
				led.cover(ct + ': paths')
				r, _ = m.proves(s, check(s, v))
				if r == 'yes': led.ok(ct, 'z3')
				else: led.open[ct, f'{name}: {r}'] += 1
			if not got: raise Unsupported('no path')
		guarded(led, ct, name, body)
	def mask(k):
		def check(s, v):
			if not (isinstance(v, Ref) and isinstance(s.get(v), List)): raise Unsupported('mask')
			l, x = s.get(v), z3.Int('mx')
			want = z3.IntVal(1) if k is None else z3.If(sig(x) == k, 1, 0)
			return z3.And(l.n == N, z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < N), num(l.at(x)) == want)))
		return check
	for name, k in (('zeros', 0), ('negatives', -1), ('positives', 1), ('all', None)): on(name, mask(k))
	on('n_dimensions', lambda s, v: num(v) == N)


def prove_glue(led, ct='descriptions: construction and product'):
	from numga.algebra.description import AlgebraDescription as D
	class Text(Sem):
		def __init__(self, parts): self.parts = parts
		def bin(self, m, s, op, a, b):
			if op is not ast.Add or not (isinstance(a, Text) and isinstance(b, Text)): raise Unsupported('text operator')
			yield s, Text(a.parts + b.parts)
	class Klass(Sem):
		def __init__(self, ctor, **kw): self.ctor, self.kw = ctor, kw
		def call(self, m, s, args, kw): yield s, self.ctor(*args, **kw)
		def attr(self, m, s, a):
			if a not in self.kw: raise Unsupported(a)
			yield s, Nat(lambda m, s, args, kw: iter([(s, self.kw[a](*args))]))
	class Made(Sem):
		def __init__(self, *a): self.a = a
	def from_str():
		g, d = Gen(), Text(('d',))
		pd = Nat(lambda m, s, args, kw: iter([(s, Tup([Col(g, 0), Col(g, 1)]))]) if args == [d] else (_ for _ in ()).throw(Unsupported('argument of the parser')))
		names = ['basis_names', 'signature']
		m = Parser(None, [], globs=dict(parse_description=pd, AlgebraDescription=Klass(lambda *a, **k: Made(*a, *[k[n] for n in names[len(a):]]))))
		for s, v in m.call_function(m.source(D.from_str), St(), [d]):
			if not (isinstance(v, Made) and all(isinstance(c, Col) for c in v.a)): raise Unsupported('result')
			if [c.k for c in v.a] == [0, 1]: led.ok(ct, 'z3')
			else: led.open[ct, 'from_str: names and signs exchanged'] += 1
	def init():
		m = Parser(None, [])
		g = Gen()
		st, me = St().new(Rec({}))
		for s, v in m.call_function(m.source(D.__init__), st, [me, Col(g, 0), Col(g, 1)]):
			f = s.get(me).f
			ok = isinstance(f.get('basis_names'), Col) and f['basis_names'].k == 0 and isinstance(f.get('signature'), Col) and f['signature'].k == 1
			if ok: led.ok(ct, 'z3')
			else: led.open[ct, '__init__'] += 1
	def product():
		seen = []
		common = z3.Bool('common')
		class Some(Sem):
			def truth(self, m, s): yield from m.truth(s, Bool(common))
		class NameSet(Sem):
			def attr(self, m, s, a):
				if a not in ('intersection', 'isdisjoint'): raise Unsupported(a)
				yield s, Nat(lambda m, s, args, kw: iter([(s, Some() if a == 'intersection' else Bool(z3.Not(common)))]))
			def bin(self, m, s, op, a, b):
				if op is not ast.BitAnd: raise Unsupported('set')
				yield s, Some()
		A, B_ = NameSet(), NameSet()
		m = Machine(globs=dict(set=Nat(lambda m, s, args, kw: iter([(s, args[0])])), AlgebraDescription=Klass(None, from_str=lambda t: Made(t))))
		st, a = St().new(Rec(dict(basis_names=A, description_str=Text(('left',)))))
		st, b = st.new(Rec(dict(basis_names=B_, description_str=Text(('right',)))))
		n = 0
		for s, v in m.call_function(m.source(D.__mul__), st, [a, b]):
			if not m.feasible(s): continue
			n += 1
			if isinstance(v, Exc): good = m.proves(s, common)[0] == 'yes'
			else:
				if not (isinstance(v, Made) and isinstance(v.a[0], Text)): raise Unsupported('result')
				good = v.a[0].parts == ('left', 'right') and m.proves(s, z3.Not(common))[0] == 'yes'
			if good: led.ok(ct, 'z3')
			else: led.open[ct, 'product of descriptions'] += 1
		if not n: raise Unsupported('no path')
	guarded(led, ct, 'from_str', from_str)
	guarded(led, ct, '__init__', init)
	guarded(led, ct, '__mul__', product)


def prove(led):
	prove_description(led)
	prove_tokens(led)
	prove_masks(led)
	prove_glue(led)
