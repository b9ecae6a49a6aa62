"""Engine P on names, continued (C18): texts as terms, sequences of any length as functions of the position.

Covers the printing half of the round trip (description_str, signature_str), (p, q, r), and blades and subspaces asked by name: the real
functions run over an arbitrary name set, signature and token sequence; what they return is compared, element by element at an arbitrary
position, with the contract. Callees are replaced by their contracts (parse_tokens, from_str: engine P in strings.py; wedge: C04)."""
import z3
from dv.pvc import *
from dv.strings import guarded, num, SIGN, Parser

T = z3.DeclareSort('Text')
I = z3.IntSort()
name = z3.Function('name', I, T)
ch = z3.Function('ch', I, T)              # the text of one character
cat = z3.Function('cat', T, T, T)
sig = z3.Function('sigma', I, I)
N = z3.Int('Ngen')


def sign_code(k):
	t = z3.IntVal(0)
	for v, c in SIGN.items(): t = z3.If(k == v, z3.IntVal(ord(c)), t)
	return t


class Txt(Sem):
	def __init__(self, t): self.t = t
	def bin(self, m, s, op, a, b):
		if op is not ast.Add or not isinstance(a, (Txt, str)) or not isinstance(b, (Txt, str)): raise Unsupported('text operator')
		if '' in (a, b): yield s, (b if a == '' else a); return
		yield s, Txt(join2(text(a), text(b)))


def text(v):
	if isinstance(v, Txt): return v.t
	if isinstance(v, str) and len(v) == 1: return ch(z3.IntVal(ord(v)))
	raise Unsupported('text')
def join2(a, b):
	if z3.is_app(a) and a.decl().eq(cat): return cat(a.arg(0), join2(a.arg(1), b))
	return cat(a, b)


class Seq(Sem):
	"""n elements; at: index term -> value"""
	def __init__(self, n, at): self.n, self.at = n, at
	def each(self):
		x = fresh(I, 'e')
		def build(x, c, v):
			if not z3.is_true(z3.simplify(c)): raise Unsupported('a filter')
			return Seq(self.n, lambda i: subst(v, x, i))
		return x, self.at(x), z3.And(0 <= x, x < self.n), build
	def item(self, m, s, k):
		k = num(k)
		ok = z3.And(0 <= k, k < self.n)
		if m.proves(s, ok)[0] != 'yes': raise Unsupported('subscript')
		yield s, self.at(k)
	def bin(self, m, s, op, a, b):
		if op is not ast.Add or not isinstance(a, Seq) or not isinstance(b, Seq): raise Unsupported('sequence operator')
		x, y = a, b
		def at(i):
			u, v = x.at(i), y.at(z3.simplify(i - x.n))
			if isinstance(u, Txt) and isinstance(v, Txt): return Txt(z3.If(i < x.n, u.t, v.t))
			raise Unsupported('joined sequences')
		yield s, Seq(x.n + y.n, at)
	def compare(self, m, s, op, a, b):
		if op is not ast.Eq or not (a is self and isinstance(b, (int, Int)) and not isinstance(b, bool)): raise Unsupported('comparison of a sequence')
		yield s, Seq(self.n, lambda i: Int(z3.If(num(self.at(i)) == num(b), z3.IntVal(1), z3.IntVal(0))))
	def attr(self, m, s, a):
		if a == 'astype' or a == 'copy': yield s, Nat(lambda m, s, args, kw: iter([(s, self)]))
		elif a == 'shape': yield s, Shape(self.n)
		elif a == 'size': yield s, Int(self.n)
		else: raise Unsupported(a)


class Shape(Sem):
	def __init__(self, n): self.n = n
	def item(self, m, s, k):
		if k not in (-1, 0): raise Unsupported('shape')
		yield s, Int(self.n)


def subst(v, x, i):
	if isinstance(v, Txt): return Txt(z3.substitute(v.t, (x, i)))
	if isinstance(v, Int): return Int(z3.substitute(v.t, (x, i)))
	if isinstance(v, Op): return Op(z3.substitute(v.t, (x, i)))
	if isinstance(v, Blades): return Blades(z3.substitute(v.t, (x, i)))
	if isinstance(v, (int, str)) and not isinstance(v, bool): return v
	if isinstance(v, Tup): return Tup([subst(a, x, i) for a in v.v])
	if isinstance(v, Seq): return Seq(z3.substitute(v.n, (x, i)), lambda j, v=v: subst(v.at(j), x, i))
	raise Unsupported(f'element {type(v).__name__}')


class Blades(Sem):
	"""a subspace of one blade, and the array of its blades"""
	def __init__(self, t): self.t = t
	def attr(self, m, s, a):
		if a != 'blades': raise Unsupported(a)
		yield s, self
	def item(self, m, s, k):
		if k not in (0, -1): raise Unsupported('subscript of one blade')
		yield s, Int(self.t)


class Joined(Sem):
	def __init__(self, seq): self.seq = seq


class Signs(Sem):
	"""a dictionary of the module from numbers to characters"""
	def __init__(self, d): self.d = d
	def item(self, m, s, k):
		k = num(k)
		if m.proves(s, z3.Or(*[k == v for v in self.d]))[0] != 'yes': raise Unsupported('key')
		t = ch(z3.IntVal(0))
		for v, c in self.d.items(): t = z3.If(k == v, ch(z3.IntVal(ord(c))), t)
		yield s, Txt(t)
	def attr(self, m, s, a):
		if a != 'get': raise Unsupported(a)
		yield s, Nat(lambda m, s, args, kw: self.item(m, s, args[0]))


def _zip(m, s, args, kw):
	if len(args) < 2 or not all(isinstance(a, Seq) for a in args): raise Unsupported('zip')
	n = args[0].n
	for a in args[1:]: n = z3.If(a.n < n, a.n, n)
	yield s, Seq(z3.simplify(n), lambda i: Tup([a.at(i) for a in args]))
def _enumerate(m, s, args, kw):
	if len(args) != 1 or not isinstance(args[0], Seq): raise Unsupported('enumerate')
	yield s, Seq(args[0].n, lambda i: Tup([Int(i), args[0].at(i)]))
def _range(m, s, args, kw):
	if len(args) != 1: raise Unsupported('range')
	yield s, Seq(num(args[0]), Int)
def _same(m, s, args, kw):
	if len(args) != 1 or not isinstance(args[0], Seq): raise Unsupported('tuple')
	yield s, args[0]
def _len(m, s, args, kw):
	if len(args) != 1 or not isinstance(args[0], Seq): raise Unsupported('len')
	yield s, Int(args[0].n)


SUM = z3.Function('SUM', I, z3.ArraySort(I, I), I)          # of a finite sequence; equal for sequences equal below n
def _sum(m, s, args, kw):
	if len(args) != 1 or kw or not isinstance(args[0], Seq): raise Unsupported('sum')
	q, j = args[0], fresh(I, 'j')
	v = q.at(j)
	if isinstance(v, (int, Int)) and not isinstance(v, bool): yield s, Int(SUM(q.n, z3.Lambda([j], num(v))))
	elif isinstance(v, Blades): yield s, Blades(SUM(q.n, z3.Lambda([j], v.t)))
	else: raise Unsupported('sum')


class Fold(Sem):
	def __init__(self, op, seq): self.op, self.seq = op, seq
class Xor(Sem): pass
class Module(Sem):
	def __init__(self, **d): self.d = d
	def attr(self, m, s, a):
		if a not in self.d: raise Unsupported(a)
		yield s, self.d[a]
def _reduce(m, s, args, kw):
	if len(args) != 2 or kw or not isinstance(args[1], Seq): raise Unsupported('reduce')
	f, q = args
	if not isinstance(f, Xor):
		# a function of the accumulated value and the next element: its contract is read off an arbitrary call
		a, b = Op(fresh(name='acc')), Op(fresh(name='next'))
		rs = list(m.apply(s, f, [a, b], {}))
		if len(rs) != 1 or not isinstance(rs[0][1], Op) or m.proves(rs[0][0], rs[0][1].t == WEDGE(a.t, b.t))[0] != 'yes': raise Unsupported('reduce')
		f = Xor()
	yield s, Fold(f, q)


WEDGE = z3.Function('wedge', V, V, V)
def product(m, s, op, a, b):
	if op is not ast.BitXor: raise Unsupported('operator')
	return Op(WEDGE(a.t, b.t))


class Words(Machine):
	def __init__(self, globs=None, **kw):
		super().__init__(globs={**dict(zip=Nat(_zip), enumerate=Nat(_enumerate), range=Nat(_range), tuple=Nat(_same), list=Nat(_same), len=Nat(_len), sum=Nat(_sum)), **(globs or {})}, **kw)
	def attribute(self, s, o, a):
		if isinstance(o, str) and a == 'join':
			def join(m, s, args, kw):
				if o != '' or not isinstance(args[0], Seq): raise Unsupported('join')
				yield s, Joined(args[0])
			yield s, Nat(join); return
		yield from super().attribute(s, o, a)
	def compare(self, op, a, b, s):
		if op in (ast.Is, ast.IsNot) and (isinstance(a, Sem) and b is None or a is None and isinstance(b, Sem)): yield s, op is ast.IsNot
		else: yield from super().compare(op, a, b, s)
	def e_JoinedStr(self, n, st):
		if not all(isinstance(v, ast.FormattedValue) and v.conversion == -1 and v.format_spec is None for v in n.values): raise Unsupported('format')
		for s, vs in self.evs([v.value for v in n.values], st):
			if isinstance(vs, Exc): yield s, vs; continue
			t = text(vs[-1])
			for v in reversed(vs[:-1]): t = join2(text(v), t)
			yield s, Txt(t)
	def e_BinOp(self, n, st):
		if isinstance(n.op, ast.Mult):
			for s, (a, b) in self.ev2(n.left, n.right, st):
				if isinstance(b, str): a, b = b, a
				if not (isinstance(a, str) and len(a) == 1 and isinstance(b, Int)): raise Unsupported('product')
				if self.proves(s, b.t >= 0)[0] != 'yes': raise Unsupported('repetition')
				yield s, Seq(b.t, lambda i, a=a: Txt(ch(z3.IntVal(ord(a)))))
			return
		yield from super().e_BinOp(n, st)


def same(m, s, q, n, want):
	"""q has n elements, equal to want at an arbitrary position"""
	i = fresh(I, 'w')
	at = q.at(i)
	w = want(i)
	return z3.And(q.n == n, z3.Implies(z3.And(0 <= i, i < n), equal(at, w)))
def equal(a, b):
	if isinstance(a, Tup): return z3.And(*[equal(x, y) for x, y in zip(a.v, b.v)])
	if isinstance(a, (Txt, str)): return text(a) == text(b)
	if isinstance(a, (int, Int)): return num(a) == num(b)
	if isinstance(a, (Op, Blades)): return a.t == b.t
	raise Unsupported('element')


def run(led, ct, what, m, f, st, args, check):
	"""every path of the function meets its contract; at least one returns"""
	got = 0
	for s, v in m.call_function(m.source(f), st, args):
		if not m.feasible(s): continue
		led.cover(ct + ': paths')
		got += not isinstance(v, Exc)
		g = check(m, s, v)
		r = m.proves(s, g)[0]
		if r == 'yes': led.ok(ct, 'z3')
		else: led.open[ct, f'{what}: {"refuted" if r == "no" else "unknown"}'] += 1
	led.notes['z3 queries'] += m.queries
	if not got: raise Unsupported('no path')


def prove(led):
	from numga.algebra import description as mod
	from numga.algebra.description import AlgebraDescription as D
	from numga.multivector.factory import MultiVectorFactory as MF
	from numga.subspace.factory import SubSpaceFactory as SF
	from numga.util import chars
	static = lambda c, n: inspect.getattr_static(c, n)
	tables = {k: Signs(v) for k, v in vars(mod).items() if isinstance(v, dict) and v and not k.startswith('__') and all(isinstance(x, int) and isinstance(y, str) and len(y) == 1 for x, y in v.items())}
	i = z3.Int('si')
	pc = [N >= 0, z3.ForAll([i], z3.And(-1 <= sig(i), sig(i) <= 1))]
	signs = Seq(N, lambda i: Int(sig(i)))
	signtext = Seq(N, lambda i: Txt(ch(sign_code(sig(i)))))
	names = Seq(N, lambda i: Txt(name(i)))
	def want_joined(n, want):
		def check(m, s, v):
			if not isinstance(v, Joined): raise Unsupported('result')
			return same(m, s, v.seq, n, want)
		return check

	ct = 'printing of descriptions (all names, all signatures)'
	def signature_str():
		m = Words(tables)
		st, me = St(pc=pc).new(Rec(dict(signature=signs, basis_names=names), cls=D))
		run(led, ct, 'signature_str', m, static(D, 'signature_str'), st, [me], want_joined(N, lambda i: Txt(ch(sign_code(sig(i))))))
	def description_str():
		m = Words(tables)
		st, me = St(pc=pc).new(Rec(dict(signature=signs, basis_names=names, signature_str=signtext), cls=D))
		run(led, ct, 'description_str', m, static(D, 'description_str'), st, [me], want_joined(N, lambda i: Txt(cat(name(i), ch(sign_code(sig(i)))))))
	guarded(led, ct, 'signature_str', signature_str)
	guarded(led, ct, 'description_str', description_str)

	ct = 'descriptions from (p, q, r) (all p, q, r)'
	class Klass(Sem):
		def __init__(self, **kw): self.kw = kw
		def attr(self, m, s, a):
			if a not in self.kw: raise Unsupported(a)
			yield s, Nat(lambda m, s, args, kw: iter([(s, Call(a, *args, *kw.values()))]))
	class Call(Sem):
		def __init__(self, f, *a): self.f, self.a = f, a
	p, q, r = z3.Ints('p q r')
	def from_pqr():
		m = Words(dict(AlgebraDescription=Klass(from_signature=1)))
		def check(m, s, v):
			if not (isinstance(v, Call) and len(v.a) == 1 and isinstance(v.a[0], Seq)): raise Unsupported('result')
			return same(m, s, v.a[0], p + q + r, lambda i: Txt(ch(z3.If(i < p, z3.IntVal(ord('+')), z3.If(i < p + q, z3.IntVal(ord('-')), z3.IntVal(ord('0')))))))
		run(led, ct, 'from_pqr', m, static(D, 'from_pqr'), St(pc=[p >= 0, q >= 0, r >= 0]), [Int(p), Int(q), Int(r)], check)
	def from_signature():
		if len(set(chars)) != len(chars) or not all(isinstance(c, str) and len(c) == 1 and c not in SIGN.values() for c in chars): raise Unsupported('names by default')
		M, code = z3.Int('M'), z3.Function('scode', I, I)
		m = Words(dict(AlgebraDescription=Klass(from_str=1), chars=Seq(z3.IntVal(len(chars)), lambda i: Txt(name(i)))))
		def check(m, s, v):
			if not (isinstance(v, Call) and len(v.a) == 1 and isinstance(v.a[0], Joined)): raise Unsupported('result')
			return same(m, s, v.a[0].seq, M, lambda i: Txt(cat(name(i), ch(code(i)))))
		run(led, ct, 'from_signature', m, static(D, 'from_signature'), St(pc=[M >= 0, M <= len(chars)]), [Seq(M, lambda i: Txt(ch(code(i))))], check)
	def pqr():
		m = Words()
		ind = {k: Seq(N, lambda i, k=k: Int(z3.If(sig(i) == k, z3.IntVal(1), z3.IntVal(0)))) for k in (1, -1, 0)}
		st, me = St(pc=pc).new(Rec(dict(positives=ind[1], negatives=ind[-1], zeros=ind[0], signature=signs), cls=D))
		def check(m, s, v):
			if not (isinstance(v, Tup) and len(v.v) == 3): raise Unsupported('result')
			j = z3.Int('pj')
			return z3.And(*[num(x) == SUM(N, z3.Lambda([j], num(ind[k].at(j)))) for x, k in zip(v.v, (1, -1, 0))])
		run(led, ct, 'pqr', m, static(D, 'pqr'), st, [me], check)
	guarded(led, ct, 'from_pqr', from_pqr)
	guarded(led, ct, 'from_signature', from_signature)
	guarded(led, ct, 'pqr', pqr)

	ct = 'blades by name (all names)'
	basis, tok, n = z3.Function('basis', I, V), z3.Function('token', I, I), z3.Int('ntok')
	asked = Sem()
	def getattribute():
		def parse(m, s, args, kw):
			if args != [asked]: raise Unsupported('argument of parse_tokens')
			yield s, Seq(n, lambda i: Int(tok(i)))
		desc = Module(parse_tokens=Nat(parse), n_dimensions=Int(N))
		seq = Seq(N, lambda i: Op(basis(i)))
		m = Words(dict(operator=Module(xor=Xor()), reduce=Nat(_reduce), functools=Module(reduce=Nat(_reduce))), binop=product)
		i = z3.Int('ti')
		st, me = St(pc=[n >= 1, N >= 1, z3.ForAll([i], z3.And(0 <= tok(i), tok(i) < N))]).new(Rec(dict(algebra=Module(description=desc), basis=Nat(lambda m, s, args, kw: iter([(s, seq)]))), cls=MF))
		def check(m, s, v):
			if not isinstance(v, Fold): raise Unsupported('result')
			return same(m, s, v.seq, n, lambda i: Op(basis(tok(i))))
		run(led, ct, '__getattr__', m, static(MF, '__getattr__'), st, [me, asked], check)
	vec, mk = z3.Function('gen', I, V), z3.Function('one', V, V)
	def basis_():
		gens = Seq(N, lambda i: Op(vec(i)))
		def mv(m, s, args, kw):
			kw = dict(zip(('values', 'subspace'), args), **kw)
			v = kw.pop('values', None)
			if list(kw) != ['subspace'] or not isinstance(v, Tup) or list(v.v) != [1]: raise Unsupported('multivector')
			yield s, Op(mk(kw['subspace'].t))
		m = Words()
		st, me = St(pc=[N >= 0]).new(Rec(dict(algebra=Module(subspace=Module(basis=Nat(lambda m, s, args, kw: iter([(s, gens)])))), multivector=Nat(mv)), cls=MF))
		def check(m, s, v):
			if not isinstance(v, Seq): raise Unsupported('result')
			return same(m, s, v, N, lambda i: Op(mk(vec(i))))
		run(led, ct, 'MultiVectorFactory.basis', m, static(MF, 'basis'), st, [me], check)
	guarded(led, ct, '__getattr__', getattribute)
	guarded(led, ct, 'basis', basis_)

	ct = 'subspaces by name (all names)'
	words, size, letter, bit = z3.Int('words'), z3.Function('size', I, I), z3.Function('letter', I, I, I), z3.Function('bit', I, I)
	def subspace():
		class Letter(Sem):
			def __init__(self, t): self.t = t
		def letters(k): return Seq(size(k), lambda j: Int(letter(k, j)))         # a letter is represented by its position among the names
		class Asked(Sem):
			def attr(self, m, s, a):
				if a != 'split': raise Unsupported(a)
				def f(m, s, args, kw):
					if args != ['_'] or kw: raise Unsupported('split')
					yield s, Seq(words, letters)
				yield s, Nat(f)
		def index(m, s, args, kw):
			x, = args
			if not (isinstance(x, Int) and z3.is_app(x.t) and x.t.decl().eq(letter)): raise Unsupported('index')
			yield s, x
		nm = Module(index=Nat(index))
		b = Seq(N, lambda i: Blades(bit(i)))
		class FB(Sem):
			def __init__(self, q): self.q = q
		def array(m, s, args, kw): yield s, args[0]
		m = Words(dict(np=Module(array=Nat(array), asarray=Nat(array))))
		x, y = z3.Ints('wx wy')
		st = St(pc=[words >= 1, N >= 1, z3.ForAll([x], size(x) >= 1), z3.ForAll([x, y], z3.And(0 <= letter(x, y), letter(x, y) < N))])
		st, me = st.new(Rec(dict(algebra=Module(description=Module(basis_names=nm)), basis=Nat(lambda m, s, args, kw: iter([(s, b)])), from_blades=Nat(lambda m, s, args, kw: iter([(s, FB(args[0]))]))), cls=SF))
		def check(m, s, v):
			if not (isinstance(v, FB) and isinstance(v.q, Seq)): raise Unsupported('result')
			j = z3.Int('lj')
			return same(m, s, v.q, words, lambda i: Int(SUM(size(i), z3.Lambda([j], bit(letter(i, j))))))
		run(led, ct, '__getattr__', m, static(SF, '__getattr__'), st, [me, Asked()], check)
	def generators():
		blade, gen = z3.Function('blade', I, V), z3.Function('vectorblade', I, I)
		m = Words()
		v = Module(blades=Seq(N, lambda i: Int(gen(i))))
		st, me = St(pc=[N >= 0]).new(Rec(dict(vector=Nat(lambda m, s, args, kw: iter([(s, v)])), blade=Nat(lambda m, s, args, kw: iter([(s, Op(blade(num(args[0]))))]))), cls=SF))
		def check(m, s, r):
			if not isinstance(r, Seq): raise Unsupported('result')
			return same(m, s, r, N, lambda i: Op(blade(gen(i))))
		run(led, ct, 'SubSpaceFactory.basis', m, static(SF, 'basis'), st, [me], check)
	guarded(led, ct, '__getattr__', subspace)
	guarded(led, ct, 'basis', generators)

	prove_constructors(led)


def prove_constructors(led):
	"""the named constructors forward to one subspace and one array of coefficients; the backends' construct"""
	from numga.multivector.factory import MultiVectorFactory as MF
	ct = 'constructors (all algebras)'
	static = lambda c, n: inspect.getattr_static(c, n)
	kv, named, bl = z3.Function('kv', I, V), lambda k: z3.Const('space_' + k, V), z3.Function('bladespace', I, V)
	def grade(k): return kv(z3.If(k < 0, N + 1 + k, k))
	GRADES = dict(scalar=0, vector=1, bivector=2, trivector=3, quadvector=4, pseudoscalar=-1, antiscalar=-1, antivector=-2, antibivector=-3, antitrivector=-4, antiquadvector=-5)
	SAME = dict(even_grade='even', self_involute='even', motor='even', full='full', multivector='full', empty='empty', odd_grade='odd', rotor='nondegenerate even', nonscalar='nonscalar')
	class Spaces(Sem):          # contract of the subspace factory (C03)
		def attr(self, m, s, a):
			if a in GRADES: f = lambda m, s, args, kw: iter([(s, Some(grade(z3.IntVal(GRADES[a]))))])
			elif a == 'k_vector': f = lambda m, s, args, kw: iter([(s, Some(grade(num(args[0]))))])
			elif a in SAME: f = lambda m, s, args, kw: iter([(s, Some(named(SAME[a])))])
			elif a == 'blade': f = lambda m, s, args, kw: iter([(s, Some(bl(num(args[0]))))])
			else: raise Unsupported(a)
			yield s, Nat(f)
	class Some(Sem):          # a subspace (not None)
		def __init__(self, t): self.t = t
	class Made(Sem):
		def __init__(self, v, sp): self.v, self.sp = v, sp
	class Ctx(Sem): pass
	ctx, val = Ctx(), Sem()
	def construct(m, s, args, kw):
		kw = dict(zip(('context', 'values', 'subspace'), args), **kw)
		if set(kw) != {'context', 'values', 'subspace'} or kw['context'] is not ctx or not isinstance(kw['subspace'], Some): raise Unsupported('construct')
		yield s, Made(kw['values'], kw['subspace'].t)
	k = z3.Int('kgrade')
	EXPECT = {nm: (lambda nm=nm: grade(z3.IntVal(GRADES[nm]))) for nm in ('scalar', 'vector', 'bivector', 'trivector', 'pseudoscalar', 'antivector', 'antibivector', 'antitrivector')}
	EXPECT.update({nm: (lambda: named('even')) for nm in ('even_grade', 'rotor', 'motor')}, multivector=lambda: named('full'))
	def go(nm, args, values, want):
		def body():
			m = Words()
			st = St(pc=[N >= 0, -N - 1 <= k, k <= N])
			st, me = st.new(Rec(dict(algebra=Module(subspace=Spaces()), mvtype=Module(construct=Nat(construct)), context=ctx), cls=MF))
			def check(m, s, v):
				if not isinstance(v, Made): raise Unsupported('result')
				ok = v.v is values if not isinstance(values, list) else isinstance(v.v, Tup) and list(v.v.v) == values
				return z3.And(z3.BoolVal(ok), v.sp == want)
			run(led, ct, nm, m, static(MF, nm), st, [me] + args, check)
		guarded(led, ct, nm, body)
	for nm, want in EXPECT.items():
		go(nm, [val], val, want())
		go(nm, [], None, want())
	sp = Some(z3.Const('anyspace', V))
	go('k_vector', [Int(k), val], val, grade(k))
	go('k_vector', [Int(k)], None, grade(k))
	go('multivector', [val, sp], val, sp.t)
	go('multivector', [None, sp], None, sp.t)
	go('__call__', [sp, val], val, sp.t)
	go('empty', [], None, named('empty'))
	x = Int(z3.Int('coefficient'))
	go('blade', [Int(k), x], [x], bl(k))
	go('blade', [Int(k)], [1], bl(k))

	ct = 'construct (all subspaces, all coefficients)'
	dim, n, blade, coef = z3.Int('dim'), z3.Int('nval'), z3.Function('bladeof', I, I), z3.Function('coef', I, I)
	class Space(Sem):
		def attr(self, m, s, a):
			if a != 'blades': raise Unsupported(a)
			yield s, Seq(dim, lambda i: Int(blade(i)))
	space = Space()
	def length(m, s, args, kw):
		if args[0] is space: yield s, Int(dim)
		else: yield from _len(m, s, args, kw)
	def coerce(m, s, args, kw):
		if len(args) != 1 or kw or not isinstance(args[0], Seq): raise Unsupported('coerce_array')
		yield s, args[0]
	for b in ('numpy', 'jax', 'torch', 'python'):
		def body():
			import importlib
			cls_ = getattr(importlib.import_module(f'numga.backend.{b}.multivector'), b.capitalize() + 'MultiVector')
			ident = Nat(lambda m, s, args, kw: iter([(s, args[0])]))
			context = Module(coerce_array=Nat(coerce))
			def make(m, s, args, kw):
				if args or set(kw) != {'context', 'values', 'subspace'} or kw['context'] is not context or kw['subspace'] is not space: raise Unsupported('constructor')
				yield s, Made(kw['values'], None)
			for given in (True, False):
				m = Words(dict(len=Nat(length), float=ident))
				def check(m, s, v):
					if isinstance(v, Exc): return n != dim if given else z3.BoolVal(False)
					if not (isinstance(v, Made) and isinstance(v.v, Seq)): raise Unsupported('result')
					want = (lambda i: Int(coef(i))) if given else lambda i: Int(z3.If(blade(i) == 0, z3.IntVal(1), z3.IntVal(0)))
					return z3.And(n == dim if given else z3.BoolVal(True), same(m, s, v.v, dim, want))
				run(led, ct, f'{b} construct', m, static(cls_, 'construct'), St(pc=[dim >= 0, n >= 0]), [Nat(make), context, Seq(n, lambda i: Int(coef(i))) if given else None, space], check)
		guarded(led, ct, b, body)
