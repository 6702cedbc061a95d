"""A symbolic run of one harness function: inputs, assumptions, checks, witnesses."""
import os
import time
import z3
from fractions import Fraction
from .values import *
from .core import Dead, Unsupported, Inconclusive, Lost
from .builtins_ import Builtins
from .aig import TRUE, FALSE


class Interp(Builtins):
	pass


class Run:
	def __init__(self, path, func, tier='quick', repo='/repo', seed=1, timeout_ms=300000, part=None):
		self.part = part
		self.path, self.func, self.tier = path, func, tier
		self.i = Interp(repo=repo, seed=seed)
		self.i.g.timeout = timeout_ms
		self.i.g.solver.set('timeout', timeout_ms)
		self.i.run = self
		Unsupported.current = self.i
		self.i.harness_paths = [os.path.dirname(os.path.abspath(path))]
		self.inputs = {}       # name -> (kind, data)
		self.values = {}       # name -> engine value
		self.checks = {}       # message -> [number of evaluations, number of queries]
		self.violations = []   # (guard, message, where)
		self.covers = {}       # name -> guard literal
		self.observed = []     # (name, guard, value)
		self.bounds = {}
		self.gone = []         # guards of paths excluded by assumptions
		self.known = {}        # known finding id -> guard literal
		self.setup()

	# ---------------------------------------------------------------- sym object
	def setup(self):
		i = self.i
		ns = {}

		def api(name):
			m = getattr(self, 'api_' + name)
			ns[name] = StaticM(Builtin('sym.' + name, lambda interp, a, k: m(*a, **k)))
		for n in dir(self):
			if n.startswith('api_'):
				api(n[4:])
		cls = Cls('sym', [], ns)
		self.sym = Obj(cls, TRUE, 0)
		i.builtins['sym_draw'] = Builtin('sym_draw', lambda interp, a, k: self.draw(*a))
		i.builtins['sym_draw_index'] = Builtin('sym_draw_index', lambda interp, a, k: self.draw_index(*a))

	def concrete_name(self, n, fn):
		if type(n) in (U, SStr):
			x = self.i.expand(n) if type(n) is SStr else n
			return self.i.each(x, fn)
		return fn(n)

	def api_bool(self, name):
		return self.concrete_name(name, self.get_bool)

	def get_bool(self, name):
		if name not in self.values:
			l = self.i.g.new_bool(name)
			self.inputs[name] = ('bool', l)
			self.values[name] = SBool(l)
		return self.values[name]

	def api_choice(self, name, options):
		opts = self.i.seq_tuple(options)
		if type(opts) is U:
			raise Unsupported('symbolic option list')
		return self.concrete_name(name, lambda n: self.get_choice(n, opts))

	def get_choice(self, name, opts):
		n = len(opts)
		if n == 1:
			self.inputs.setdefault(name, ('choice', [(TRUE, 0)]))
			return opts[0]
		ent = self.inputs.get(name)
		if ent is None:
			g = self.i.g
			bits = []
			while (1 << len(bits)) < n:
				bits.append(g.new_bool('%s.%d' % (name, len(bits))))
			lits = [0] * n
			for code in range(1 << len(bits)):
				l = 1
				for b, lit in enumerate(bits):
					l = g.and_(l, lit if code >> b & 1 else lit ^ 1)
				lits[code % n] = g.or_(lits[code % n], l)
			ent = ('choice', [(l, j) for j, l in enumerate(lits)])
			self.inputs[name] = ent
		return self.i.mk([(l, opts[j]) for l, j in ent[1]])

	def api_int(self, name, lo, hi):
		def get(name):
			if name not in self.values:
				c = z3.Int('i!' + name)
				self.i.g.new_theory_var(c, 'int', lambda r: z3.IntVal(r.randint(lo, hi)))
				self.i.g.add_side(z3.And(c >= lo, c <= hi))
				self.inputs[name] = ('int', c)
				self.values[name] = SNum(c, False)
			return self.values[name]
		return self.concrete_name(name, get)

	def api_part(self, n):
		"""a number from 0 to n - 1: every value is decided in a run of its own (a case split)"""
		if self.part is None or not 0 <= self.part < n:
			raise Unsupported('part %r of %d' % (self.part, n))
		return self.part

	def api_real(self, name, lo, hi):
		"""lo <= value <= hi"""
		def get(name):
			return self.get_real(name, lo, hi, False)
		return self.concrete_name(name, get)

	def get_real(self, name, lo, hi, half_open):
		if name not in self.values:
			c = z3.Real('r!' + name)
			k = 64
			lo_, hi_ = Fraction(lo), Fraction(hi)

			def sample(r):
				x = lo_ + (hi_ - lo_) * Fraction(r.randint(0, k - 1 if half_open else k), k)
				return z3.RealVal(str(x))
			self.i.g.new_theory_var(c, 'real', sample)
			self.i.g.add_side(z3.And(c >= z3.RealVal(str(lo_)), c < z3.RealVal(str(hi_)) if half_open else c <= z3.RealVal(str(hi_))))
			self.inputs[name] = ('real', c)
			self.values[name] = SNum(c, True)
		return self.values[name]

	def draw(self, stream, index):
		"""index-th number in [0, 1) of a random stream"""
		def one(a):
			return self.get_real('random:%s:%s' % (a[0], a[1]), 0, 1, True)
		return self.i.each_n([stream, index], one, True)

	def draw_index(self, stream, index, n):
		def one(a):
			return self.get_choice('randindex:%s:%s:%d' % (a[0], a[1], a[2]), tuple(range(a[2])))
		return self.i.each_n([stream, index, n], one, True)

	def api_str(self, name, min_len, max_len, alphabet=None):
		"""a string of min_len..max_len characters, each from alphabet (default: any code point)"""
		def get(name):
			if name in self.values:
				return self.values[name]
			g = self.i.g
			n = max_len - min_len + 1
			lens = self.get_choice(name + '.len', tuple(range(min_len, max_len + 1)))
			guard = {}
			for l, v in (lens.alts if type(lens) is U else ((1, lens),)):
				guard[v] = l
			parts = []
			chars = []
			for j in range(max_len):
				lit = g.or_list([l for v, l in guard.items() if v > j])
				if alphabet is None:
					c = z3.BitVec('c!%s!%d' % (name, j), 21)
					g.new_theory_var(c, 'bv', lambda r: z3.BitVecVal(r.choice([34, 92, 10, 97, 60, 62, 32, 125, 233, r.randrange(32, 127), r.randrange(0, 0xd800)]), 21))
					g.add_side(z3.And(z3.ULE(c, 0x10ffff), z3.Or(z3.ULT(c, 0xd800), z3.UGT(c, 0xdfff))))
					parts.append((lit, SChar(c)))
					chars.append((lit, c))
				else:
					v = self.get_choice('%s.%d' % (name, j), tuple(alphabet))
					if type(v) is str:
						parts.append((lit, v))
					else:
						for l, x in v.alts:
							parts.append((g.and_(lit, l), x))
					chars.append(None)
			self.inputs[name] = ('str', (min_len, max_len, alphabet, guard, chars))
			self.values[name] = self.i.mkstr(tuple(parts))
			return self.values[name]
		return self.concrete_name(name, get)

	def api_bound(self, name, quick, thorough):
		v = thorough if self.tier == 'thorough' else quick
		self.bounds[name] = v
		return v

	def api_thorough(self):
		return self.tier == 'thorough'

	def api_assume(self, cond):
		l = self.i.truth(cond)
		self.gone.append(self.i.g.and_(self.i.pc, l ^ 1))
		if not self.i.feas(self.i.g.and_(self.i.pc, l)):
			self.i.pc = FALSE
			self.i.shrinks += 1
			raise Dead
		if self.i.feas(self.i.g.and_(self.i.pc, l ^ 1)):
			self.i.drop(l ^ 1)

	def api_check(self, cond, msg):
		i = self.i
		l = i.truth(cond)
		st = self.checks.setdefault(msg if type(msg) is str else '?', [0, 0])
		st[0] += 1
		bad = i.g.and_(i.pc, l ^ 1)
		if bad == 0:
			return
		st[1] += 1
		if i.feas(bad):
			m = msg
			if type(m) is not str:
				m = 'check'
			self.violations.append((bad, m, '%s:%d' % (os.path.basename(i.curfile), i.lineno)))
			i.drop(l ^ 1)

	def api_fail(self, msg):
		self.api_check(False, msg)

	def api_cover(self, name, cond=True):
		l = self.i.g.and_(self.i.pc, self.i.truth(cond))
		self.covers[name] = self.i.g.or_(self.covers.get(name, 0), l)

	def api_observe(self, name, value):
		self.observed.append((name, self.i.pc, self.snapshot(value)))

	def snapshot(self, v):
		if type(v) is SNum:
			return v
		return self.i.to_repr(v)

	def api_known(self, kid, cond):
		"""paths on which a recorded finding applies"""
		l = self.i.g.and_(self.i.pc, self.i.truth(cond))
		self.known[kid] = self.i.g.or_(self.known.get(kid, 0), l)

	# ---------------------------------------------------------------- running
	def execute(self):
		i = self.i
		t = time.time()
		name = os.path.splitext(os.path.basename(self.path))[0]
		self.error, self.error_pc = None, None    # the path on which the encoding gave up
		self.end_guard = FALSE
		try:
			i.frame = None
			m = i.import_module(name)
			f = m.ns.get(self.func)
			if f is None:
				raise Unsupported('no harness function %s' % self.func)
			i.frame = self.dummy_frame(m)
			i.curfile = self.path
			try:
				i.call(f, [self.sym], {})
				self.end_guard = i.pc
			except Dead:
				self.end_guard = FALSE
			for p, exc in i.sinks[0]:
				self.exc_violation(p, exc)
			# every path must have reached the end, or been excluded, or have failed
			i.all_paths(TRUE, [self.end_guard] + self.gone + [v[0] for v in self.violations] + [p for p, _ in i.bound_hits])
		except Unsupported as e:
			self.error_pc = e.pc
			self.error = 'unsupported: %s (at %s:%d)' % (e, i.curfile, i.lineno)
		except Lost as e:
			self.error = 'internal: %s (at %s:%d)' % (e, i.curfile, i.lineno)
		except Inconclusive as e:
			self.error_pc = i.pc
			self.error = 'inconclusive: %s' % e
		except RecursionError:
			self.error_pc = i.pc
			self.error = 'engine recursion limit'
		self.wall = time.time() - t
		return self

	def dummy_frame(self, m):
		from .core import Frame, Info
		info = Info()
		info.locals, info.globals, info.nonlocals, info.is_gen, info.name, info.params = set(), set(), set(), False, '<run>', []
		return Frame(info, None, m, TRUE, 'module')

	def exc_violation(self, p, exc):
		a = exc.attrs.get('args', ())
		text = []
		for x in a if type(a) is tuple else ():
			text.append(x if type(x) is str else repr(x) if not isinstance(x, (U, SStr, Heap)) else '...')
		self.violations.append((p, 'uncaught %s(%s)' % (exc.cls.name, ', '.join(text)[:160]), exc.attrs.get('$where', '?')))

	# ---------------------------------------------------------------- models
	def assignment(self, wit):
		"""JSON-able input values of a witness (bools, theory)"""
		bools, theory = wit
		memo = {}
		g = self.i.g
		out = {}
		if self.part is not None:
			out['#part'] = self.part

		def lit(l):
			return g.eval_lit(l, bools, memo)

		def const(c, default):
			e = theory.get(c.get_id())
			return e[1] if e is not None else default
		for name, (kind, data) in self.inputs.items():
			if kind == 'bool':
				out[name] = lit(data)
			elif kind == 'choice':
				for l, j in data:
					if lit(l):
						out[name] = j
						break
			elif kind == 'int':
				v = const(data, None)
				out[name] = v.as_long() if v is not None else 0
			elif kind == 'real':
				v = const(data, None)
				out[name] = str(v.as_fraction()) if v is not None else '0'
			elif kind == 'str':
				mn, mx, alpha, guard, chars = data
				n = [v for v, l in guard.items() if lit(l)][0]
				if alpha is None:
					out[name] = [const(c, z3.BitVecVal(97, 21)).as_long() for _, c in chars[:n]]
		return out

	def bits_for(self, assign):
		"""truth values of all atoms under an input assignment produced by assignment() or random_assignment()"""
		raise NotImplementedError

	def eval_value(self, v, bools, theory, memo):
		"""concrete Python value of an engine value (strings, numbers, booleans, tuples) under a witness"""
		g = self.i.g

		def lit(l):
			return g.eval_lit(l, bools, memo)
		t = type(v)
		if t is U:
			for l, x in v.alts:
				if lit(l):
					return self.eval_value(x, bools, theory, memo)
			return '<no alternative>'
		if t is SStr:
			out = []
			for l, p in v.parts:
				if lit(l):
					out.append(p if type(p) is str else self.eval_value(p, bools, theory, memo))
			return ''.join(out)
		if t is SChar:
			e = z3.simplify(z3.substitute(v.e, *[x for x in theory.values()])) if theory else v.e
			return chr(e.as_long())
		if t is SNum:
			e = z3.simplify(z3.substitute(v.e, *[x for x in theory.values()])) if theory else z3.simplify(v.e)
			if v.real:
				return e.as_fraction()
			return e.as_long()
		if t is SBool:
			return lit(v.lit)
		if t is tuple:
			return tuple([self.eval_value(x, bools, theory, memo) for x in v])
		return v

	def observations(self, wit):
		bools, theory = wit
		memo = {}
		out = []
		for name, guard, v in self.observed:
			if self.i.g.eval_lit(guard, bools, memo):
				out.append((name, str(self.eval_value(v, bools, theory, memo))))
		return out

	def sample_witness(self, rng, base=TRUE):
		"""a random assignment satisfying the end guard: a random simulation pattern, or a model under random preferences"""
		g = self.i.g
		g._flush()
		lit = self.end_guard if base == TRUE else base
		s = g.signature(lit)
		bits = [j for j in range(g.W) if s >> j & 1]
		if not bits:
			return None
		j = rng.choice(bits)
		bools = {n: bool(g.sig[n] >> j & 1) for n in g.atom_expr}
		return bools, g.tpats[g.tp[j]]
