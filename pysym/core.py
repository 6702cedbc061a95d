"""Core of the merging symbolic executor: path guards, unions, statements, expressions, calls, attributes."""
import ast
import builtins as pybuiltins
import os
import sys
import z3
from .aig import Guards, Inconclusive, TRUE, FALSE
from .values import *

sys.setrecursionlimit(200000)


class Dead(Exception):
	"""no feasible path is left at this point"""


class Lost(Exception):
	"""internal error: the encoding lost paths"""


class Unsupported(Exception):
	"""the encoding does not cover this construct"""
	current = None    # the interpreter, to note the path on which the construct was reached

	def __init__(self, *args):
		Exception.__init__(self, *args)
		self.pc = None if Unsupported.current is None else Unsupported.current.pc


PRIM = (type(None), bool, int, float, str, bytes, complex, type(Ellipsis), type(NotImplemented))
PRIMSET = frozenset(PRIM)


class Info:
	"""static facts about one scope"""
	__slots__ = ('locals', 'globals', 'nonlocals', 'is_gen', 'name', 'params')


class _Scope(ast.NodeVisitor):
	def __init__(self):
		self.locals, self.globals, self.nonlocals, self.is_gen = set(), set(), set(), False

	def visit_Name(self, n):
		if isinstance(n.ctx, (ast.Store, ast.Del)):
			self.locals.add(n.id)

	def visit_FunctionDef(self, n):
		self.locals.add(n.name)
		for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x]:
			self.visit(d)

	visit_AsyncFunctionDef = visit_FunctionDef

	def visit_ClassDef(self, n):
		self.locals.add(n.name)
		for d in n.decorator_list + n.bases:
			self.visit(d)

	def visit_Lambda(self, n):
		for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
			self.visit(d)

	def _comp(self, n):
		# only walrus targets and the first iterable belong to this scope; yields inside are not allowed
		for x in ast.walk(n):
			if isinstance(x, ast.NamedExpr):
				self.locals.add(x.target.id)

	visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

	def visit_Global(self, n):
		self.globals.update(n.names)

	def visit_Nonlocal(self, n):
		self.nonlocals.update(n.names)

	def visit_Yield(self, n):
		self.is_gen = True
		self.generic_visit(n)

	visit_YieldFrom = visit_Yield

	def visit_Import(self, n):
		for a in n.names:
			self.locals.add((a.asname or a.name).split('.')[0])

	def visit_ImportFrom(self, n):
		for a in n.names:
			self.locals.add(a.asname or a.name)

	def visit_ExceptHandler(self, n):
		if n.name:
			self.locals.add(n.name)
		self.generic_visit(n)

	def visit_MatchAs(self, n):
		if n.name:
			self.locals.add(n.name)
		self.generic_visit(n)

	def visit_MatchStar(self, n):
		if n.name:
			self.locals.add(n.name)

	def visit_AnnAssign(self, n):
		self.visit(n.target)
		if n.value is not None:
			self.visit(n.value)


def func_info(node, name):
	i = Info()
	s = _Scope()
	a = node.args
	params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
	if a.vararg:
		params.append(a.vararg.arg)
	if a.kwarg:
		params.append(a.kwarg.arg)
	body = [node.body] if isinstance(node, ast.Lambda) else node.body
	for st in body:
		s.visit(st)
	i.locals = (s.locals | set(params)) - s.globals - s.nonlocals
	i.globals, i.nonlocals, i.is_gen, i.name, i.params = s.globals, s.nonlocals, s.is_gen, name, params
	return i


class Frame:
	__slots__ = ('info', 'locals', 'parent', 'module', 'live', 'returns', 'loops', 'func', 'kind', 'yield_cb', 'consumer',
		'tries', 'excs')

	def __init__(self, info, parent, module, live, kind='func', func=None):
		self.info = info
		self.locals = {}
		self.parent = parent
		self.module = module
		self.live = live
		self.returns = []
		self.loops = []
		self.func = func
		self.kind = kind
		self.yield_cb = None
		self.consumer = None
		self.tries = 0
		self.excs = []


class Core:
	LOOP_BOUND = 400
	STRICT = os.environ.get('PYSYM_STRICT', '1') != '0'
	DEPTH_BOUND = 60
	VARIANT_BOUND = 2000

	def __init__(self, repo='/repo', seed=1, stubs=None):
		self.g = Guards(seed)
		self.pc = TRUE
		self.repo = repo
		self.stubdir = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs')
		self.modules = {}
		self.frame = None
		self.sinks = [[]]
		self.serial = 0
		self.shrinks = 0
		self.depth = 0
		self.lineno = 0
		self.curfile = ''
		self.encoded = {}
		self.steps = 0
		self.bound_hits = []
		self.exc_classes = {}
		self.infos = {}
		self.strict_bounds = True
		self.setup_builtins()

	# ---------------------------------------------------------------- guards and unions
	def feas(self, lit):
		return self.g.feasible(lit)

	def implied(self, lit, pc=None):
		if lit == 1:
			return True
		if lit == 0:
			return False
		return not self.g.feasible(self.g.and_(self.pc if pc is None else pc, lit ^ 1))

	def vkey(self, v):
		t = type(v)
		if t in PRIMSET:
			if t is float and v != v:
				return (t, id(v))
			if t is float and v == 0.0:
				return (t, str(v))
			return (t, v)
		if t is tuple:
			return ('t',) + tuple([self.vkey(x) for x in v])
		if t is SNum:
			return ('n', v.e.get_id())
		if t is SBool:
			return ('b', v.lit)
		if t is SStr:
			return ('s',) + tuple([(l, p if type(p) is str else p.e.get_id()) for l, p in v.parts])
		if t is U:
			return ('u',) + tuple([(l, self.vkey(x)) for l, x in v.alts])
		if t is Bound:
			return ('bm', id(v.func), self.vkey(v.self))
		if t is SChar:
			return ('c', v.e.get_id())
		if t is NativeObj:
			return ('no', id(v.o))
		return id(v)

	def mk(self, alts):
		"""union of (guard, value), guards disjoint"""
		if len(alts) == 1 and type(alts[0][1]) is not U:
			return alts[0][1]
		g = self.g
		flat = []
		allbool = True
		for l, v in alts:
			if l == 0:
				continue
			if type(v) is U:
				for h, w in v.alts:
					x = g.and_(l, h)
					if x:
						flat.append((x, w))
						if type(w) is not bool:
							allbool = False
			else:
				flat.append((l, v))
				if type(v) is not bool and type(v) is not SBool:
					allbool = False
		if allbool:
			r = 0
			anyf = False
			allt = True
			for l, v in flat:
				if v is True:
					r = g.or_(r, l)
				elif v is False:
					allt = False
					anyf = True
				else:
					allt = False
					anyf = True
					r = g.or_(r, g.and_(l, v.lit))
			if allt and flat:
				return True
			return self.sbool(r)
		idx = {}
		out = []
		for l, v in flat:
			if type(v) is SBool:
				items = ((g.and_(l, v.lit), True), (g.and_(l, v.lit ^ 1), False))
			else:
				items = ((l, v),)
			for l2, w in items:
				if l2 == 0:
					continue
				k = self.vkey(w)
				j = idx.get(k)
				if j is None:
					idx[k] = len(out)
					out.append([l2, w])
				else:
					out[j][0] = g.or_(out[j][0], l2)
		if not out:
			raise Lost('merge of no value')
		if len(out) == 1:
			return out[0][1]
		return U(tuple([(l, v) for l, v in out]))

	def sbool(self, lit):
		if lit == 1:
			return True
		if lit == 0:
			return False
		return SBool(lit)

	def alts(self, v):
		"""feasible alternatives [(guard, value)] of v under pc"""
		if type(v) is U:
			r = []
			pc = self.pc
			g = self.g
			missing = g.signature(pc)
			for l, x in v.alts:
				if g.feasible(g.and_(pc, l)):
					r.append((l, x))
					missing &= ~g.signature(l)
			if missing or not r or self.STRICT and not self.implied(g.or_list([l for l, _ in r])):
				raise Lost('a value is not defined on every path')
			return r
		if type(v) is SBool:
			return self.alts(U(((v.lit, True), (v.lit ^ 1, False))))
		return [(TRUE, v)]

	def norm(self, v):
		if type(v) is U:
			a = [(l, x) for l, x in v.alts if self.g.feasible(self.g.and_(self.pc, l))]
			if len(a) == 1:
				return a[0][1]
			if a and len(a) < len(v.alts):
				return U(tuple(a))
		return v

	def all_paths(self, start, ends):
		"""internal consistency: no path of `start` may be missing from `ends`"""
		s = self.g.signature(start)
		for p in ends:
			s &= ~self.g.signature(p)
		if s or self.STRICT and self.feas(self.g.and_(start, self.g.or_list(ends) ^ 1)):
			raise Lost('paths lost')

	def join(self, save, ends):
		"""path guard after branches that ended with guards `ends`"""
		o = self.g.or_list(ends)
		if o == save:
			return save
		if o == 0:
			self.pc = FALSE
			raise Dead
		if self.g.signature(o) == self.g.signature(save) and not self.feas(self.g.and_(save, o ^ 1)):
			return save
		if not self.feas(o):
			self.pc = FALSE
			raise Dead
		return o

	def each(self, v, fn, split_bool=False):
		"""apply fn to every feasible alternative under its guard; merge the results"""
		if type(v) is SBool and split_bool:
			v = U(((v.lit, True), (v.lit ^ 1, False)))
		if type(v) is not U:
			return fn(v)
		al = self.alts(v)
		if len(al) == 1:
			return fn(al[0][1])
		save = self.pc
		res, ends, shrunk = [], [], False
		for l, x in al:
			p = self.g.and_(save, l)
			self.pc = p
			try:
				r = fn(x)
			except Dead:
				shrunk = True
				continue
			if self.pc != p:
				shrunk = True
				res.append((self.pc, r))
			else:
				res.append((l, r))
			ends.append(self.pc)
		if not ends:
			self.pc = FALSE
			raise Dead
		self.pc = self.join(save, ends) if shrunk else save
		return self.mk(res)

	def each2(self, a, b, fn, **k):
		return self.each(a, lambda x: self.each(b, lambda y: fn(x, y), **k), **k)

	def each_n(self, vals, fn, split_bool=False):
		if not any(type(v) is U or (split_bool and type(v) is SBool) for v in vals):
			return fn(list(vals))

		def go(i, acc):
			if i == len(vals):
				return fn(acc)
			return self.each(vals[i], lambda x: go(i + 1, acc + [x]), split_bool)
		return go(0, [])

	def write(self, scope, old, new):
		"""value of a variable with value `old` after assigning `new` on the current paths"""
		pc = self.pc
		if pc == scope or pc == 1 or old is ABSENT and False:
			return new
		rest = self.g.and_(scope, pc ^ 1)
		if not self.feas(rest):
			return new
		g = self.g
		out = [(pc, new)]
		if type(old) is U:
			for l, v in old.alts:
				x = g.and_(l, pc ^ 1)
				if self.feas(g.and_(x, scope)):
					out.append((x, v))
		else:
			out.append((pc ^ 1, old))
		return self.mk(out)

	def under(self, lit, fn):
		"""run fn under pc and lit; the other paths are untouched. Returns (ran, result)"""
		save = self.pc
		p = self.g.and_(save, lit)
		if not self.feas(p):
			return False, None
		q = self.g.and_(save, lit ^ 1)
		if not self.feas(q):
			return True, fn()
		self.pc = p
		try:
			r = fn()
			end = self.pc
		except Dead:
			r = None
			end = 0
		if end == p:
			self.pc = save
		else:
			self.pc = self.join(save, [end, q])
		return True, r

	def split(self, lit, ft, ff):
		"""value of (ft() if lit else ff()), executing each side under its guard"""
		save = self.pc
		if lit == 1:
			return ft()
		if lit == 0:
			return ff()
		p, q = self.g.and_(save, lit), self.g.and_(save, lit ^ 1)
		if not self.feas(q):
			return ft()
		if not self.feas(p):
			return ff()
		res, ends, shrunk = [], [], False
		for x, f, l in ((p, ft, lit), (q, ff, lit ^ 1)):
			self.pc = x
			try:
				r = f()
			except Dead:
				shrunk = True
				continue
			if self.pc != x:
				shrunk = True
				res.append((self.pc, r))
			else:
				res.append((l, r))
			ends.append(self.pc)
		if not ends:
			self.pc = FALSE
			raise Dead
		self.pc = self.join(save, ends) if shrunk else save
		return self.mk(res)

	def drop(self, lit):
		"""the paths in lit stop here (raised or cut); the rest go on"""
		self.shrinks += 1
		self.pc = self.g.and_(self.pc, lit ^ 1)
		if not self.feas(self.pc):
			self.pc = FALSE
			raise Dead

	# ---------------------------------------------------------------- exceptions
	def exc_class(self, native):
		c = self.exc_classes.get(native)
		if c is None:
			bases = [self.exc_class(b) for b in native.__bases__ if issubclass(b, BaseException)]
			c = Cls(native.__name__, bases, {}, None, native)
			self.exc_classes[native] = c
		return c

	def new_exc(self, native, *args):
		c = self.exc_class(native) if not isinstance(native, Cls) else native
		o = self.new_obj(c)
		o.attrs['args'] = tuple(args)
		return o

	def throw(self, native, *args, guard=None):
		"""raise on the paths in guard (default: all); returns only if some path goes on"""
		self.raise_exc(self.new_exc(native, *args), guard)

	def raise_exc(self, exc, guard=None):
		p = self.pc if guard is None else self.g.and_(self.pc, guard)
		if self.feas(p):
			if type(exc) is Obj and '$where' not in exc.attrs:
				exc.attrs['$where'] = '%s:%d' % (os.path.basename(self.curfile), self.lineno)
			self.sinks[-1].append((p, exc))
			self.shrinks += 1
			if guard is None:
				self.pc = FALSE
				raise Dead
			self.drop(guard)

	# ---------------------------------------------------------------- allocation
	def _heap(self):
		self.serial += 1
		return self.pc, self.serial

	def new_obj(self, cls):
		return Obj(cls, *self._heap())

	def new_list(self, vals=()):
		return ListV([[TRUE, v] for v in vals], *self._heap())

	def new_list_slots(self, slots):
		return ListV(slots, *self._heap())

	def new_dict(self, items=()):
		d = DictV([], *self._heap())
		for k, v in items:
			self.dict_set(d, k, v)
		return d

	def new_set(self, vals=(), frozen=False):
		s = SetV([], *self._heap(), frozen)
		for v in vals:
			self.set_add(s, v)
		return s

	def store_guard(self, heap):
		"""guard to store for something that is written to `heap` on the current paths"""
		if self.pc == heap.birth or self.pc == 1:
			return TRUE
		if not self.feas(self.g.and_(heap.birth, self.pc ^ 1)):
			return TRUE
		return self.pc

	# ---------------------------------------------------------------- modules
	def find_module(self, name):
		rel = name.replace('.', '/')
		for base in (self.stubdir,):
			p = os.path.join(base, rel + '.py')
			if os.path.exists(p):
				return p
		for base in (self.repo,) + tuple(self.extra_paths()):
			p = os.path.join(base, rel + '.py')
			if os.path.exists(p):
				return p
			p = os.path.join(base, rel, '__init__.py')
			if os.path.exists(p):
				return p
		return None

	def extra_paths(self):
		return getattr(self, 'harness_paths', ())

	def import_module(self, name):
		m = self.modules.get(name)
		if m is not None:
			return m
		if '.' in name:
			self.import_module(name.rsplit('.', 1)[0])
			m = self.modules.get(name)
			if m is not None:
				return m
		p = self.find_module(name)
		if p is None:
			return self.native_module(name)
		with open(p) as f:
			src = f.read()
		m = Module(name, p)
		m.ns['__name__'] = name
		m.ns['__file__'] = p
		if src.startswith('# pure oracle') and p.startswith(tuple(self.extra_paths())):
			# a helper of the harness that is applied to every concrete value of its arguments
			ns = {}
			exec(compile(src, p, 'exec'), ns)
			for k, v in ns.items():
				if not k.startswith('__'):
					m.ns[k] = NativeObj(v)
			self.modules[name] = m
			return m
		m.ns['__doc__'] = None
		self.modules[name] = m
		tree = ast.parse(src, p)
		save = (self.frame, self.pc, self.curfile, self.lineno)
		info = Info()
		info.locals, info.globals, info.nonlocals, info.is_gen, info.name, info.params = set(), set(), set(), False, name, []
		# modules are executed once, on all paths
		self.pc = TRUE
		f = Frame(info, None, m, TRUE, 'module')
		self.frame = f
		self.curfile = p
		try:
			self.exec_block(tree.body)
		except Dead:
			raise Unsupported('module %s raised while being imported: %r' % (name, self.sinks[-1][-1:]))
		finally:
			self.frame, self.pc, self.curfile, self.lineno = save
		if '.' in name:
			pkg, last = name.rsplit('.', 1)
			pm = self.modules[pkg]
			if isinstance(pm, Module) and last not in pm.ns:
				pm.ns[last] = m
		return m

	def exec_module_source(self, src, name, path):
		m = Module(name, path)
		m.ns['__name__'] = name
		self.modules[name] = m
		info = Info()
		info.locals, info.globals, info.nonlocals, info.is_gen, info.name, info.params = set(), set(), set(), False, name, []
		self.frame = Frame(info, None, m, TRUE, 'module')
		self.curfile = path
		self.exec_block(ast.parse(src, path).body)
		return m

	def x_Import(self, s):
		for a in s.names:
			m = self.import_module(a.name)
			if a.asname:
				self.assign_name(a.asname, m)
			else:
				self.assign_name(a.name.split('.')[0], self.import_module(a.name.split('.')[0]))

	def x_ImportFrom(self, s):
		if s.level:
			mod = self.frame.module
			pkg = mod.name
			is_pkg = mod.path.endswith('__init__.py')
			parts = pkg.split('.')
			drop = s.level - (1 if is_pkg else 0)
			parts = parts[:len(parts) - drop] if drop else parts
			name = '.'.join(parts + ([s.module] if s.module else []))
		else:
			name = s.module
		m = self.import_module(name)
		for a in s.names:
			if a.name == '*':
				for k, v in list(m.ns.items()):
					if not k.startswith('_'):
						self.assign_name(k, v)
				continue
			if isinstance(m, Module):
				if a.name in m.ns and not isinstance(m.ns[a.name], Module):
					v = m.ns[a.name]
				elif self.find_module(name + '.' + a.name):
					self.import_module(name + '.' + a.name)
					v = m.ns.get(a.name, self.modules[name + '.' + a.name])
				elif a.name in m.ns:
					v = m.ns[a.name]
				else:
					self.throw(ImportError, 'cannot import name %r from %r' % (a.name, name))
			else:
				v = self.getattr(m, a.name)
			self.assign_name(a.asname or a.name, v)

	# ---------------------------------------------------------------- names
	def assign_name(self, name, v):
		f = self.frame
		i = f.info
		if f.kind == 'module' or name in i.globals:
			ns = f.module.ns
			ns[name] = self.write(TRUE, ns.get(name, ABSENT), v)
			return
		if name in i.nonlocals or (f.kind == 'comp' and name not in i.locals):
			p = f.parent
			while p is not None:
				if p.kind != 'class' and name in p.info.locals or (p.kind == 'class' and f.kind == 'comp'):
					p.locals[name] = self.write(p.live, p.locals.get(name, ABSENT), v)
					return
				if p.kind == 'comp' and f.kind != 'comp':
					pass
				p = p.parent
			if f.kind == 'comp':
				ns = f.module.ns
				ns[name] = self.write(TRUE, ns.get(name, ABSENT), v)
				return
			raise Unsupported('nonlocal ' + name)
		f.locals[name] = self.write(f.live, f.locals.get(name, ABSENT), v)

	def lookup_cell(self, name):
		"""(container dict, found)"""
		f = self.frame
		if f.kind == 'module':
			return f.module.ns
		if f.kind == 'class':
			if name in f.locals:
				return f.locals
		elif name in f.info.locals:
			return f.locals
		if name in f.info.globals:
			return f.module.ns
		p = f.parent
		while p is not None:
			if p.kind == 'class':
				if f.kind == 'comp' and p is f.parent and name in p.locals:
					return p.locals
			elif p.kind != 'module' and name in p.info.locals:
				return p.locals
			p = p.parent
		return f.module.ns

	def load_name(self, name):
		ns = self.lookup_cell(name)
		v = ns.get(name, ABSENT)
		if v is ABSENT and ns is self.frame.module.ns:
			v = self.builtins.get(name, ABSENT)
		if v is ABSENT:
			if ns is self.frame.locals and self.frame.kind != 'class':
				self.throw(UnboundLocalError, "cannot access local variable '%s' where it is not associated with a value" % name)
			self.throw(NameError, "name '%s' is not defined" % name)
		if type(v) is U:
			v = self.norm(v)
			if type(v) is U:
				bad = 0
				good = []
				for l, x in v.alts:
					if x is ABSENT:
						bad = l
					else:
						good.append((l, x))
				if bad:
					self.throw(UnboundLocalError, "cannot access local variable '%s'" % name, guard=bad)
					v = self.mk(good)
			elif v is ABSENT:
				self.throw(UnboundLocalError, "cannot access local variable '%s'" % name)
		return v

	# ---------------------------------------------------------------- statements
	def exec_block(self, stmts):
		for s in stmts:
			self.exec(s)

	def exec(self, s):
		self.lineno = s.lineno
		self.steps += 1
		m = getattr(self, 'x_' + type(s).__name__, None)
		if m is None:
			raise Unsupported('statement %s at line %d' % (type(s).__name__, s.lineno))
		m(s)

	def x_Expr(self, s):
		if type(s.value) is ast.Constant:
			return
		self.ev(s.value)

	def x_Pass(self, s):
		pass

	def x_Global(self, s):
		pass

	x_Nonlocal = x_Global

	def x_Assign(self, s):
		v = self.ev(s.value)
		for t in s.targets:
			self.assign(t, v)

	def x_AnnAssign(self, s):
		if s.value is not None:
			self.assign(s.target, self.ev(s.value))

	def x_AugAssign(self, s):
		t = s.target
		if type(t) is ast.Name:
			cur = self.load_name(t.id)
			v = self.ev(s.value)
			self.assign_name(t.id, self.binop(s.op, cur, v, inplace=True))
		elif type(t) is ast.Attribute:
			o = self.ev(t.value)
			cur = self.getattr(o, t.attr)
			v = self.ev(s.value)
			self.setattr(o, t.attr, self.binop(s.op, cur, v, inplace=True))
		elif type(t) is ast.Subscript:
			o = self.ev(t.value)
			k = self.ev_index(t.slice)
			cur = self.getitem(o, k)
			v = self.ev(s.value)
			self.setitem(o, k, self.binop(s.op, cur, v, inplace=True))

	def assign(self, t, v):
		k = type(t)
		if k is ast.Name:
			self.assign_name(t.id, v)
		elif k is ast.Attribute:
			self.setattr(self.ev(t.value), t.attr, v)
		elif k is ast.Subscript:
			self.setitem(self.ev(t.value), self.ev_index(t.slice), v)
		elif k is ast.Tuple or k is ast.List:
			self.unpack(t.elts, v)
		elif k is ast.Starred:
			self.assign(t.value, v)
		else:
			raise Unsupported('assignment target %s' % k.__name__)

	def unpack(self, elts, v):
		star = [i for i, e in enumerate(elts) if type(e) is ast.Starred]
		n = len(elts)

		def get(x):
			return self.seq_tuple(x)

		tup = self.each(v, get)     # tuple or U of tuples (different lengths possible)
		al = self.alts(tup)
		good = []
		for l, x in al:
			if (len(x) == n and not star) or (star and len(x) >= n - 1):
				good.append((l, x))
			else:
				msg = 'not enough values to unpack (expected %d, got %d)' % (n, len(x)) if len(x) < n else 'too many values to unpack (expected %d)' % n
				self.throw(ValueError, msg, guard=l)
		tup = self.mk(good)
		for i, e in enumerate(elts):
			if not star or i < star[0]:
				v = self.each(tup, lambda x: x[i])
			elif i == star[0]:
				v = self.each(tup, lambda x: self.new_list(x[i:len(x) - (n - 1 - i)]))
			else:
				v = self.each(tup, lambda x: x[len(x) - (n - i)])
			self.assign(e, v)

	def x_Delete(self, s):
		for t in s.targets:
			if type(t) is ast.Name:
				self.load_name(t.id)
				ns = self.lookup_cell(t.id)
				ns[t.id] = self.write(self.frame.live, ns.get(t.id, ABSENT), ABSENT)
			elif type(t) is ast.Subscript:
				self.delitem(self.ev(t.value), self.ev_index(t.slice))
			elif type(t) is ast.Attribute:
				self.delattr(self.ev(t.value), t.attr)
			elif type(t) in (ast.Tuple, ast.List):
				for e in t.elts:
					self.x_Delete(ast.Delete(targets=[e]))
			else:
				raise Unsupported('del')

	def cond(self, e):
		"""literal of the truth of an expression"""
		if type(e) is ast.BoolOp:
			return self._boolop_lit(e)
		if type(e) is ast.UnaryOp and type(e.op) is ast.Not:
			return self.cond(e.operand) ^ 1
		return self.truth(self.ev(e))

	def _boolop_lit(self, e):
		is_and = type(e.op) is ast.And
		save = self.pc
		acc = None     # literal so far
		sh = self.shrinks
		for x in e.values:
			if acc is None:
				acc = self.cond(x)
				continue
			need = acc if is_and else acc ^ 1      # further evaluation happens only here
			p = self.g.and_(self.pc, need)
			if not self.feas(p):
				break
			base = self.pc
			rest = self.g.and_(base, need ^ 1)
			if not self.feas(rest):
				acc = self.cond(x)
				continue
			self.pc = p
			try:
				c = self.cond(x)
				end = self.pc
			except Dead:
				c, end = 0, 0
			self.pc = base if end == p else self.join(base, [end, rest])
			if is_and:
				acc = self.g.and_(acc, c)
			else:
				acc = self.g.or_(acc, c)
		return acc

	def x_If(self, s):
		c = self.cond(s.test)
		self.branch(c, lambda: self.exec_block(s.body), (lambda: self.exec_block(s.orelse)) if s.orelse else None)

	def branch(self, c, ft, ff):
		save = self.pc
		p = self.g.and_(save, c)
		q = self.g.and_(save, c ^ 1)
		if not self.feas(q):
			ft()
			return
		if not self.feas(p):
			if ff:
				ff()
			return
		self.pc = p
		try:
			ft()
			e1 = self.pc
		except Dead:
			e1 = 0
		e2 = q
		if ff:
			self.pc = q
			try:
				ff()
				e2 = self.pc
			except Dead:
				e2 = 0
		if e1 == p and e2 == q:
			self.pc = save
		else:
			self.pc = self.join(save, [e1, e2])

	def x_Assert(self, s):
		c = self.cond(s.test)
		if self.feas(self.g.and_(self.pc, c ^ 1)):
			msg = ()
			self.throw(AssertionError, *msg, guard=c ^ 1)

	def x_Return(self, s):
		v = self.ev(s.value) if s.value is not None else None
		f = self.frame
		f.returns.append((self.pc, v))
		if not f.tries:
			f.live = self.g.and_(f.live, self.pc ^ 1)
		self.pc = FALSE
		raise Dead

	def x_Break(self, s):
		self.frame.loops[-1][0].append(self.pc)
		self.pc = FALSE
		raise Dead

	def x_Continue(self, s):
		self.frame.loops[-1][1].append(self.pc)
		self.pc = FALSE
		raise Dead

	def bound_hit(self, what):
		"""a loop or recursion bound was reached on a feasible path: never a pass"""
		self.bound_hits.append((self.pc, '%s at %s:%d' % (what, os.path.basename(self.curfile), self.lineno)))
		self.shrinks += 1
		self.pc = FALSE
		raise Dead

	def x_While(self, s):
		f = self.frame
		start = self.pc
		brk, cont = [], []
		f.loops.append((brk, cont))
		exits = []
		n = 0
		try:
			while True:
				try:
					c = self.cond(s.test)
				except Dead:
					break
				out = self.g.and_(self.pc, c ^ 1)
				if self.feas(out):
					exits.append(out)
				p = self.g.and_(self.pc, c)
				if not self.feas(p):
					break
				n += 1
				self.pc = p if exits and exits[-1] == out and self.feas(out) else self.pc
				if n > self.LOOP_BOUND:
					try:
						self.bound_hit('loop bound %d' % self.LOOP_BOUND)
					except Dead:
						break
				p = self.pc
				try:
					self.exec_block(s.body)
					end = self.pc
				except Dead:
					end = 0
				ends = [end] + cont
				del cont[:]
				if end == p:
					self.pc = p
				else:
					try:
						self.pc = self.join(p, ends)
					except Dead:
						break
		finally:
			f.loops.pop()
		self.finish_loop(start, exits, brk, s.orelse)

	def finish_loop(self, start, exits, brk, orelse):
		if orelse:
			if exits:
				try:
					self.pc = self.join(start, exits)
					self.exec_block(orelse)
					exits = [self.pc]
				except Dead:
					exits = []
		self.pc = self.join(start, exits + brk)

	def x_For(self, s):
		it = self.ev(s.iter)
		f = self.frame
		start = self.pc
		brk, cont = [], []

		def body(v):
			p = self.pc
			f.loops.append((brk, cont))
			n0 = len(cont)
			try:
				self.assign(s.target, v)
				self.exec_block(s.body)
				end = self.pc
			except Dead:
				end = 0
			finally:
				f.loops.pop()
			cs = cont[n0:]
			del cont[n0:]
			if end == p:
				self.pc = p
			else:
				self.pc = self.join(p, [end] + cs)

		try:
			self.iterate(it, body)
			exits = [self.pc]
		except Dead:
			exits = []
		self.finish_loop(start, exits, brk, s.orelse)

	def x_FunctionDef(self, s):
		v = self.make_func(s, s.name)
		for d in reversed(s.decorator_list):
			v = self.call(self.ev(d), [v], {})
		self.assign_name(s.name, v)

	def make_func(self, node, name):
		key = id(node)
		ent = self.infos.get(key)
		if ent is None or ent[0] is not node:
			ent = (node, func_info(node, name))
			self.infos[key] = ent
		a = node.args
		defaults = [self.ev(d) for d in a.defaults]
		kwd = {x.arg: self.ev(d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
		f = Func(name, node, self.frame if self.frame.kind != 'module' else None, self.frame.module, defaults, kwd, ent[1])
		return f

	def x_ClassDef(self, s):
		bases = []
		for b in s.bases:
			v = self.ev(b)
			if v is object or (isinstance(v, NativeObj) and getattr(v.o, '__name__', '') in ('ABC', 'Generic', 'Protocol')):
				continue
			if isinstance(v, type) and issubclass(v, BaseException):
				v = self.exc_class(v)
			if type(v) is NativeObj and isinstance(v.o, type) and issubclass(v.o, BaseException):
				v = self.exc_class(v.o)
			if not isinstance(v, Cls):
				raise Unsupported('base class %r' % (v,))
			bases.append(v)
		info = Info()
		info.locals, info.globals, info.nonlocals, info.is_gen, info.name, info.params = set(), set(), set(), False, s.name, []
		sc = _Scope()
		for st in s.body:
			sc.visit(st)
		info.locals = sc.locals
		f = Frame(info, self.frame if self.frame.kind != 'module' else None, self.frame.module, self.pc, 'class')
		save = self.frame
		self.frame = f
		try:
			self.exec_block(s.body)
		finally:
			self.frame = save
		c = Cls(s.name, bases, f.locals, self.frame.module)
		c.ns.setdefault('__module__', self.frame.module.name)
		c.ns.setdefault('__doc__', ast.get_docstring(s))
		for v in c.ns.values():
			self.set_owner(v, c)
		v = c
		for d in reversed(s.decorator_list):
			v = self.call(self.ev(d), [v], {})
		self.assign_name(s.name, v)

	def set_owner(self, v, c):
		if isinstance(v, Func):
			if v.owner is None:
				v.owner = c
		elif isinstance(v, Prop):
			for x in (v.fget, v.fset, v.fdel):
				self.set_owner(x, c)
		elif isinstance(v, (StaticM, ClassM)):
			self.set_owner(v.f, c)

	def x_Raise(self, s):
		if s.exc is None:
			if not self.frame.excs:
				self.throw(RuntimeError, 'No active exception to reraise')
			self.each(self.frame.excs[-1], self.raise_exc)
			return
		v = self.ev(s.exc)
		if s.cause is not None:
			self.ev(s.cause)

		def go(x):
			if isinstance(x, Cls) or isinstance(x, type):
				x = self.call(x, [], {})
			if type(x) is not Obj:
				self.throw(TypeError, 'exceptions must derive from BaseException')
			self.raise_exc(x)
		self.each(v, go)

	def exc_matches(self, exc, spec):
		if type(spec) is tuple:
			return any(self.exc_matches(exc, x) for x in spec)
		if isinstance(spec, type) and issubclass(spec, BaseException):
			spec = self.exc_class(spec)
		if isinstance(spec, NativeObj):
			spec = self.exc_class(spec.o)
		if not isinstance(spec, Cls):
			raise Unsupported('except %r' % (spec,))
		return exc.cls.issub(spec)

	def x_Try(self, s):
		f = self.frame
		start = self.pc
		fin = bool(s.finalbody)
		if fin:
			r0, l0 = len(f.returns), [(len(b), len(c)) for b, c in f.loops]
			f.tries += 1
		outer = self.sinks[-1]
		sink_all = []
		if fin:
			self.sinks.append(sink_all)
		sink = []
		self.sinks.append(sink)
		try:
			try:
				self.exec_block(s.body)
				end = self.pc
			except Dead:
				end = 0
		finally:
			self.sinks.pop()
		ends = []
		if end:
			self.pc = end
			try:
				self.exec_block(s.orelse)
				ends.append(self.pc)
			except Dead:
				pass
		# handlers
		rest = sink
		for h in s.handlers:
			if not rest:
				break
			if h.type is None:
				matched, rest = rest, []
			else:
				self.pc = self.g.or_list([p for p, _ in rest])
				spec = self.ev(h.type)
				matched = [x for x in rest if self.exc_matches(x[1], spec)]
				rest = [x for x in rest if not self.exc_matches(x[1], spec)]
			if matched:
				self.pc = self.g.or_list([p for p, _ in matched])
				exc = self.mk(matched)
				if h.name:
					self.assign_name(h.name, exc)
				f.excs.append(exc)
				try:
					self.exec_block(h.body)
					ends.append(self.pc)
				except Dead:
					pass
				finally:
					f.excs.pop()
		for x in rest:
			self.sinks[-1].append(x)
			self.shrinks += 1
		if fin:
			self.sinks.pop()
			f.tries -= 1
			norm = self.g.or_list(ends)
			# everything that leaves the try statement, however it leaves it, runs the final block
			others = [p for p, _ in sink_all] + [p for p, _ in f.returns[r0:]]
			for (b, c), (nb, nc) in zip(f.loops, l0):
				others += b[nb:] + c[nc:]
			total = self.g.or_list([norm] + others)
			if total and self.feas(total):
				self.pc = total
				rf, lf = len(f.returns), [(len(b), len(c)) for b, c in f.loops]
				try:
					self.exec_block(s.finalbody)
					endf = self.pc
				except Dead:
					endf = 0
				if endf != total and (endf == 0 or self.feas(self.g.and_(total, endf ^ 1))):
					# the final block left by itself on some paths: that replaces whatever was pending there
					if any(rl != rn or cl != cn for (rl, cl), (rn, cn) in zip(lf, [(len(b), len(c)) for b, c in f.loops])) or len(f.returns) != rf:
						raise Unsupported('finally block that returns, breaks or continues')
					keep = self.g.and_
					sink_all = [(keep(p, endf), e) for p, e in sink_all]
					f.returns[r0:] = [(keep(p, endf), v) for p, v in f.returns[r0:]]
					for (b, c), (nb, nc) in zip(f.loops, l0):
						b[nb:] = [keep(p, endf) for p in b[nb:]]
						c[nc:] = [keep(p, endf) for p in c[nc:]]
					norm = keep(norm, endf)
					self.shrinks += 1
			outer.extend(x for x in sink_all if x[0])
			ends = [norm]
		self.pc = self.join(start, ends)

	def x_With(self, s):
		self._with(s, 0)

	def _with(self, s, i):
		if i == len(s.items):
			self.exec_block(s.body)
			return
		item = s.items[i]
		cm = self.ev(item.context_expr)
		v = self.call(self.getattr(cm, '__enter__'), [], {})
		if item.optional_vars is not None:
			self.assign(item.optional_vars, v)
		f = self.frame
		start = self.pc
		r0, l0 = len(f.returns), [(len(b), len(c)) for b, c in f.loops]
		sink = []
		self.sinks.append(sink)
		f.tries += 1
		try:
			try:
				self._with(s, i + 1)
				end = self.pc
			except Dead:
				end = 0
		finally:
			self.sinks.pop()
			f.tries -= 1
		others = [p for p, _ in f.returns[r0:]]
		for (b, c), (nb, nc) in zip(f.loops, l0):
			others += b[nb:] + c[nc:]
		ends = []
		total = self.g.or_list([end] + others)
		if total:
			self.pc = total
			self.call(self.getattr(cm, '__exit__'), [None, None, None], {})
			if self.pc != total:
				raise Unsupported('__exit__ that raises')
			if end:
				ends.append(end)
		for p, exc in sink:
			self.pc = p
			try:
				r = self.truth(self.call(self.getattr(cm, '__exit__'), [exc.cls, exc, None], {}))
				ok = self.g.and_(self.pc, r)
				no = self.g.and_(self.pc, r ^ 1)
				if self.feas(no):
					self.sinks[-1].append((no, exc))
					self.shrinks += 1
				if self.feas(ok):
					ends.append(ok)
			except Dead:
				pass
		self.pc = self.join(start, ends)

	def x_Match(self, s):
		subj = self.ev(s.subject)
		start = self.pc
		ends = []
		cur = start
		for case in s.cases:
			self.pc = cur
			c = self.match(case.pattern, subj)
			p = self.g.and_(self.pc, c)
			if not self.feas(p):
				cur = self.pc
				continue
			nxt = self.g.and_(self.pc, c ^ 1)
			self.pc = p
			if case.guard is not None:
				gl = self.cond(case.guard)
				nxt = self.g.or_(nxt, self.g.and_(self.pc, gl ^ 1))
				self.pc = self.g.and_(self.pc, gl)
			if self.feas(self.pc):
				try:
					self.exec_block(case.body)
					ends.append(self.pc)
				except Dead:
					pass
			cur = nxt
			if not self.feas(cur):
				cur = 0
				break
		if cur:
			ends.append(cur)
		self.pc = self.join(start, ends)

	def match(self, p, v):
		t = type(p).__name__
		if t == 'MatchValue':
			return self.eq(v, self.ev(p.value))
		if t == 'MatchSingleton':
			return self.is_(v, p.value)
		if t == 'MatchAs':
			c = 1 if p.pattern is None else self.match(p.pattern, v)
			if p.name:
				save = self.pc
				self.under(c, lambda: self.assign_name(p.name, v))
			return c
		if t == 'MatchOr':
			return self.g.or_list([self.match(x, v) for x in p.patterns])
		raise Unsupported('match pattern ' + t)

	# ---------------------------------------------------------------- expressions
	def ev(self, e):
		m = getattr(self, 'e_' + type(e).__name__, None)
		if m is None:
			raise Unsupported('expression %s at line %d' % (type(e).__name__, e.lineno))
		return m(e)

	def e_Constant(self, e):
		return e.value

	def e_Name(self, e):
		return self.load_name(e.id)

	def e_Tuple(self, e):
		return self.each_tuple_star(e.elts)

	def each_tuple_star(self, elts):
		if any(type(x) is ast.Starred for x in elts):
			parts = []
			for x in elts:
				if type(x) is ast.Starred:
					parts.append(self.each(self.ev(x.value), self.seq_tuple))
				else:
					parts.append((self.ev(x),))
			return self.each_n(parts, lambda ps: sum(ps, ()))
		return tuple([self.ev(x) for x in elts])

	def e_List(self, e):
		if any(type(x) is ast.Starred for x in e.elts):
			l = self.new_list()
			for x in e.elts:
				if type(x) is ast.Starred:
					self.list_extend(l, self.ev(x.value))
				else:
					self.list_append(l, self.ev(x))
			return l
		return self.new_list([self.ev(x) for x in e.elts])

	def e_Set(self, e):
		s = self.new_set()
		for x in e.elts:
			if type(x) is ast.Starred:
				self.iterate(self.ev(x.value), lambda v: self.set_add(s, v))
			else:
				self.set_add(s, self.ev(x))
		return s

	def e_Dict(self, e):
		d = self.new_dict()
		for k, v in zip(e.keys, e.values):
			if k is None:
				self.dict_update(d, self.ev(v))
			else:
				kk = self.ev(k)
				self.dict_set(d, kk, self.ev(v))
		return d

	def e_BoolOp(self, e):
		is_and = type(e.op) is ast.And

		def go(i):
			v = self.ev(e.values[i])
			if i == len(e.values) - 1:
				return v
			c = self.truth(v)
			if type(v) is SBool:
				# keep pure booleans symbolic
				pass
			if is_and:
				return self.split(c, lambda: go(i + 1), lambda: self.falsy(v))
			return self.split(c, lambda: self.truthy(v), lambda: go(i + 1))
		return go(0)

	def truthy(self, v):
		return True if type(v) is SBool else self.norm(v)

	def falsy(self, v):
		return False if type(v) is SBool else self.norm(v)

	def e_UnaryOp(self, e):
		if type(e.op) is ast.Not:
			return self.sbool(self.cond(e.operand) ^ 1)
		v = self.ev(e.operand)
		return self.each(v, lambda x: self.unary(e.op, x), True)

	def unary(self, op, x):
		if type(x) is SNum:
			if type(op) is ast.USub:
				return SNum(-x.e, x.real)
			if type(op) is ast.UAdd:
				return x
		if type(x) in (int, float, bool):
			return -x if type(op) is ast.USub else ~x if type(op) is ast.Invert else +x
		if type(x) is Obj:
			n = {'USub': '__neg__', 'Invert': '__invert__', 'UAdd': '__pos__'}[type(op).__name__]
			m = self.class_attr(x, n)
			if m is not None:
				return self.call(m, [], {})
		self.throw(TypeError, 'bad operand type for unary op')

	def e_IfExp(self, e):
		c = self.cond(e.test)
		return self.split(c, lambda: self.ev(e.body), lambda: self.ev(e.orelse))

	def e_NamedExpr(self, e):
		v = self.ev(e.value)
		self.assign_name(e.target.id, v)
		return v

	def e_Lambda(self, e):
		return self.make_func(e, '<lambda>')

	def e_Starred(self, e):
		raise Unsupported('starred')

	def e_Attribute(self, e):
		return self.getattr(self.ev(e.value), e.attr)

	def e_Subscript(self, e):
		o = self.ev(e.value)
		return self.getitem(o, self.ev_index(e.slice))

	def ev_index(self, s):
		if type(s) is ast.Slice:
			return ('$slice', *[None if x is None else self.ev(x) for x in (s.lower, s.upper, s.step)])
		return self.ev(s)

	def e_BinOp(self, e):
		a = self.ev(e.left)
		b = self.ev(e.right)
		return self.binop(e.op, a, b)

	def e_Compare(self, e):
		left = self.ev(e.left)
		if len(e.ops) == 1:
			return self.compare(e.ops[0], left, self.ev(e.comparators[0]))

		def go(i, left):
			right = self.ev(e.comparators[i])
			r = self.compare(e.ops[i], left, right)
			if i == len(e.ops) - 1:
				return r
			c = self.truth(r)
			return self.split(c, lambda: go(i + 1, right), lambda: self.falsy(r))
		return go(0, left)

	def compare(self, op, a, b):
		t = type(op)
		if t is ast.Eq:
			return self.eq_value(a, b)
		if t is ast.NotEq:
			return self.ne_value(a, b)
		if t is ast.Is:
			return self.sbool(self.is_(a, b))
		if t is ast.IsNot:
			return self.sbool(self.is_(a, b) ^ 1)
		if t is ast.In:
			return self.sbool(self.contains(b, a))
		if t is ast.NotIn:
			return self.sbool(self.contains(b, a) ^ 1)
		return self.order_value({ast.Lt: '<', ast.Gt: '>', ast.LtE: '<=', ast.GtE: '>='}[t], a, b)

	def e_JoinedStr(self, e):
		parts = []
		for v in e.values:
			if type(v) is ast.Constant:
				parts.append(v.value)
			else:
				parts.append(self.e_FormattedValue(v))
		return self.str_concat(parts)

	def e_FormattedValue(self, e):
		v = self.ev(e.value)
		spec = self.ev(e.format_spec) if e.format_spec is not None else ''
		if e.conversion == 114:
			v = self.to_repr(v)
		elif e.conversion == 115:
			v = self.to_str(v)
		elif e.conversion == 97:
			v = self.to_repr(v)
		if spec == '':
			return self.to_str(v)
		return self.each_n([v, spec], lambda a: self.native_call(format, a, {}), True)

	def e_Yield(self, e):
		v = self.ev(e.value) if e.value is not None else None
		self.do_yield(v)
		return None

	def e_YieldFrom(self, e):
		it = self.ev(e.value)
		f = self.frame

		def cb(v):
			save = self.frame
			self.frame = f
			try:
				self.do_yield(v)
			finally:
				self.frame = save
		self.iterate(it, cb)
		return None

	def do_yield(self, v):
		f = self.frame
		while f.yield_cb is None:
			f = f.parent
		gf = self.frame
		cframe, csinks = f.consumer
		sinks = self.sinks
		self.frame, self.sinks = cframe, csinks
		try:
			f.yield_cb(v)
		finally:
			self.frame, self.sinks = gf, sinks

	# comprehensions
	def comp(self, gens, emit, first, frame):
		"""run nested comprehension loops inside `frame`; emit() is called with frame active"""
		def level(i, it):
			def body(v):
				save = self.frame
				self.frame = frame
				try:
					self.assign(gens[i].target, v)
					start = self.pc
					c = 1
					for cnd in gens[i].ifs:
						l = self.cond(cnd)
						p = self.g.and_(self.pc, l)
						if not self.feas(p):
							return
						if self.feas(self.g.and_(self.pc, l ^ 1)):
							c = self.g.and_(c, l)
							skipped.append(self.g.and_(self.pc, l ^ 1))
							self.pc = p
					if i + 1 < len(gens):
						level(i + 1, self.ev(gens[i + 1].iter))
					else:
						emit()
				finally:
					self.frame = save

			def outer(v):
				nonlocal skipped
				old = skipped
				skipped = []
				p = self.pc
				try:
					try:
						body(v)
						end = self.pc
					except Dead:
						end = 0
					if skipped:
						self.pc = self.join(p, [end] + skipped)
					else:
						if end == 0:
							raise Dead
						self.pc = end
				finally:
					skipped = old
			skipped = []
			self.iterate(it, outer)
		level(0, first)

	def comp_frame(self, gens):
		info = Info()
		names = set()
		for gnr in gens:
			for x in ast.walk(gnr.target):
				if type(x) is ast.Name:
					names.add(x.id)
		info.locals, info.globals, info.nonlocals, info.is_gen, info.name, info.params = names, set(), set(), False, '<comp>', []
		f = Frame(info, self.frame, self.frame.module, self.pc, 'comp', self.frame.func)
		return f

	def e_ListComp(self, e):
		first = self.ev(e.generators[0].iter)
		out = self.new_list()
		fr = self.comp_frame(e.generators)
		self.comp(e.generators, lambda: self.list_append(out, self.ev(e.elt)), first, fr)
		return out

	def e_SetComp(self, e):
		first = self.ev(e.generators[0].iter)
		out = self.new_set()
		fr = self.comp_frame(e.generators)
		self.comp(e.generators, lambda: self.set_add(out, self.ev(e.elt)), first, fr)
		return out

	def e_DictComp(self, e):
		first = self.ev(e.generators[0].iter)
		out = self.new_dict()
		fr = self.comp_frame(e.generators)

		def emit():
			k = self.ev(e.key)
			self.dict_set(out, k, self.ev(e.value))
		self.comp(e.generators, emit, first, fr)
		return out

	def e_GeneratorExp(self, e):
		first = self.ev(e.generators[0].iter)
		fr = self.comp_frame(e.generators)

		def run(cb):
			cf = self.frame
			sinks = self.sinks
			fr.live = self.pc

			def emit():
				v = self.ev(e.elt)
				me = self.frame
				self.frame = cf
				try:
					cb(v)
				finally:
					self.frame = me
			self.comp(e.generators, emit, first, fr)
		return LazyIter(run, 'generator')

	# ---------------------------------------------------------------- calls
	def e_Call(self, e):
		if type(e.func) is ast.Name and e.func.id == 'super' and not e.args:
			fn = self.frame
			while fn.kind == 'comp' or (fn.func is None or fn.func.owner is None) and fn.parent is not None:
				fn = fn.parent
			f = fn.func
			first = f.info.params[0]
			return SuperV(f.owner, self.norm(fn.locals[first]))
		if type(e.func) is ast.Name and e.func.id == 'locals' and not e.args:
			raise Unsupported('locals()')
		fv = self.ev(e.func)
		args = []
		star = False
		for a in e.args:
			if type(a) is ast.Starred:
				star = True
				args.append(('*', self.each(self.ev(a.value), self.seq_tuple)))
			else:
				args.append(self.ev(a))
		kwargs = {}
		dstar = []
		for k in e.keywords:
			if k.arg is None:
				dstar.append(self.ev(k.value))
			else:
				kwargs[k.arg] = self.ev(k.value)
		self.lineno = e.lineno
		if not star and not dstar:
			return self.call(fv, args, kwargs)
		flags = [type(a) is tuple and len(a) == 2 and type(e.args[i]) is ast.Starred for i, a in enumerate(args)]
		vals = [a[1] if fl else a for a, fl in zip(args, flags)]

		def with_stars(sv):
			it = iter(sv)
			out = []
			for a, fl in zip(vals, flags):
				if fl:
					out.extend(next(it))
				else:
					out.append(a)

			def with_kw(i, kw):
				if i == len(dstar):
					return self.call(fv, out, kw)

				def one(pairs):
					kw2 = dict(kw)
					for k, v in pairs:
						if type(k) is not str:
							self.throw(TypeError, 'keywords must be strings')
						if k in kw2:
							self.throw(TypeError, 'got multiple values for keyword argument %r' % k)
						kw2[k] = v
					return with_kw(i + 1, kw2)
				return self.each(self.each(dstar[i], self.dict_variants), one)
			return with_kw(0, kwargs)
		return self.each_n([v for v, fl in zip(vals, flags) if fl], with_stars)

	def call(self, f, args, kwargs):
		t = type(f)
		if t is U:
			al = self.alts(f)
			if len(al) > 1:
				# group bound methods of the same function
				groups = {}
				for l, x in al:
					if type(x) is Bound and isinstance(x.func, Func):
						groups.setdefault(id(x.func), []).append((l, x))
					else:
						groups.setdefault(id(x), []).append((l, x))
				items = []
				for xs in groups.values():
					if len(xs) > 1 and type(xs[0][1]) is Bound:
						l = self.g.or_list([y[0] for y in xs])
						items.append((l, Bound(xs[0][1].func, self.mk([(y[0], y[1].self) for y in xs]))))
					else:
						items.extend(xs)
				if len(items) == 1:
					return self.call(items[0][1], args, kwargs)
				return self.each(U(tuple(items)), lambda x: self.call(x, list(args), dict(kwargs)))
			return self.call(al[0][1], args, kwargs)
		if t is Func:
			return self.call_func(f, args, kwargs)
		if t is Bound:
			return self.call(f.func, [f.self] + list(args), kwargs)
		if t is Builtin:
			return f.fn(self, list(args), dict(kwargs))
		if t is Cls:
			return self.instantiate(f, args, kwargs)
		if t is Partial:
			return self.call(f.f, list(f.args) + list(args), {**f.kwargs, **kwargs})
		if t is Obj:
			m = self.class_attr(f, '__call__')
			if m is not None:
				return self.call(m, args, kwargs)
		if t in (StaticM, ClassM):
			return self.call(f.f, args, kwargs)
		if isinstance(f, type):
			return self.call_type(f, args, kwargs)
		if t is NativeObj and callable(f.o):
			return self.native_call(f.o, args, kwargs)
		if t is SBool or t in PRIMSET or t is ListV or t is Obj or t is tuple or t is DictV:
			self.throw(TypeError, "'%s' object is not callable" % self.type_name(f))
		raise Unsupported('call of %r' % (f,))

	def bind(self, f, args, kwargs):
		a = f.node.args
		names = [x.arg for x in a.posonlyargs + a.args]
		loc = {}
		npos = len(names)
		if len(args) > npos and a.vararg is None:
			self.throw(TypeError, '%s() takes %d positional arguments but %d were given' % (f.name, npos, len(args)))
		for n, v in zip(names, args):
			loc[n] = v
		if a.vararg is not None:
			loc[a.vararg.arg] = tuple(args[npos:])
		kwnames = set(names[len(a.posonlyargs):]) | {x.arg for x in a.kwonlyargs}
		extra = []
		for k, v in kwargs.items():
			if k in kwnames:
				if k in loc:
					self.throw(TypeError, "%s() got multiple values for argument '%s'" % (f.name, k))
				loc[k] = v
			elif a.kwarg is not None:
				extra.append((k, v))
			else:
				self.throw(TypeError, "%s() got an unexpected keyword argument '%s'" % (f.name, k))
		if a.kwarg is not None:
			loc[a.kwarg.arg] = self.new_dict(extra)
		nd = len(f.defaults)
		for i, n in enumerate(names):
			if n not in loc:
				j = i - (npos - nd)
				if j >= 0:
					loc[n] = f.defaults[j]
				else:
					self.throw(TypeError, "%s() missing required argument: '%s'" % (f.name, n))
		for x in a.kwonlyargs:
			if x.arg not in loc:
				if x.arg in f.kwdefaults:
					loc[x.arg] = f.kwdefaults[x.arg]
				else:
					self.throw(TypeError, "%s() missing required keyword-only argument: '%s'" % (f.name, x.arg))
		return loc

	def call_func(self, f, args, kwargs):
		loc = self.bind(f, args, kwargs)
		m = f.module
		if m is not None and m.path.startswith(self.repo + '/'):
			q = '%s:%s%s' % (os.path.relpath(m.path, self.repo), f.owner.name + '.' if f.owner is not None else '', f.name)
			self.encoded[q] = self.encoded.get(q, 0) + 1
		fr = Frame(f.info, f.frame, f.module, self.pc, 'func', f)
		fr.locals = loc
		if f.info.is_gen:
			return LazyIter(lambda cb: self.run_generator(f, fr, cb), 'generator')
		if self.depth >= self.DEPTH_BOUND:
			self.bound_hit('recursion bound %d in %s' % (self.DEPTH_BOUND, f.name))
		if isinstance(f.node, ast.Lambda):
			save = self.frame
			self.frame = fr
			self.depth += 1
			try:
				return self.ev(f.node.body)
			finally:
				self.frame = save
				self.depth -= 1
		save, start, sh = self.frame, self.pc, self.shrinks
		file, line = self.curfile, self.lineno
		self.frame = fr
		self.curfile = f.module.path
		self.depth += 1
		try:
			try:
				self.exec_block(f.node.body)
				falls = self.pc
			except Dead:
				falls = 0
		finally:
			self.frame = save
			self.depth -= 1
			self.curfile, self.lineno = file, line
		rets = fr.returns
		if falls:
			rets.append((falls, None))
		if not rets:
			self.pc = FALSE
			raise Dead
		if self.shrinks == sh:
			self.all_paths(start, [p for p, _ in rets])
			self.pc = start
		else:
			self.pc = self.join(start, [p for p, _ in rets])
		return self.mk(rets)

	def run_generator(self, f, fr, cb):
		save, start = self.frame, self.pc
		file, line = self.curfile, self.lineno
		fr.live = start
		fr.yield_cb = cb
		fr.consumer = (save, list(self.sinks))
		self.frame = fr
		self.curfile = f.module.path
		self.depth += 1
		if self.depth >= self.DEPTH_BOUND:
			self.bound_hit('recursion bound in generator ' + f.name)
		try:
			try:
				self.exec_block(f.node.body)
				falls = self.pc
			except Dead:
				falls = 0
		finally:
			self.frame = save
			self.depth -= 1
			self.curfile, self.lineno = file, line
		ends = [p for p, _ in fr.returns] + ([falls] if falls else [])
		fr.returns = []
		self.pc = self.join(start, ends)

	def instantiate(self, c, args, kwargs):
		new, _ = c.lookup('__new__')
		if new is not None:
			if isinstance(new, StaticM):
				new = new.f
			o = self.call(new, [c] + list(args), kwargs)
		else:
			o = self.new_obj(c)
			if c.native is not None or any(x.native for x in c.mro):
				o.attrs['args'] = tuple(args)
		init, owner = c.lookup('__init__')
		if init is not None:
			self.each(o, lambda x: self.call(init, [x] + list(args), kwargs) if type(x) is Obj else None)
		elif (args or kwargs) and new is None and not any(x.native for x in c.mro):
			self.throw(TypeError, '%s() takes no arguments' % c.name)
		return o

	# ---------------------------------------------------------------- attributes
	def class_of(self, v):
		t = type(v)
		if t is Obj:
			return v.cls
		if t is SBool:
			return bool
		if t is SNum:
			return float if v.real else int
		if t is SStr or t is SChar:
			return str
		if t is ListV:
			return list
		if t is DictV:
			return dict
		if t is SetV:
			return frozenset if v.frozen else set
		if t in (Func, Partial):
			return type(lambda: 0)
		if t is Bound:
			return type([].append) if not isinstance(v.func, Func) else type(self.native_call)
		if t is Builtin:
			return type(len)
		if t is Cls or isinstance(v, type):
			return type
		if t is RangeV:
			return range
		if t is NativeObj:
			return type(v.o)
		if t is HashTok:
			return int
		if t is LazyIter:
			return type(x for x in ())
		if t is View:
			return {'keys': type({}.keys()), 'values': type({}.values()), 'items': type({}.items())}[v.kind]
		if t is Module:
			return type(os)
		if t is Prop:
			return property
		return t

	def type_name(self, v):
		c = self.class_of(v)
		return c.name if isinstance(c, Cls) else c.__name__

	def class_attr(self, o, name):
		"""bound class-level attribute of an Obj, or None"""
		v, c = o.cls.lookup(name)
		if v is None and c is None:
			return None
		return self.bind_attr(v, o, o.cls)

	def bind_attr(self, v, o, cls):
		if isinstance(v, (Func, Builtin)):
			return Bound(v, o)
		if isinstance(v, Prop):
			if v.fget is None:
				self.throw(AttributeError, 'unreadable attribute')
			return self.call(v.fget, [o], {})
		if isinstance(v, StaticM):
			return v.f
		if isinstance(v, ClassM):
			return Bound(v.f, cls)
		return v

	def getattr(self, o, name, default=ABSENT):
		t = type(o)
		if t is Obj:
			return self.getattr_obj(o, name, default)
		if t is U:
			al = self.alts(o)
			if len(al) == 1:
				return self.getattr(al[0][1], name, default)
			# same class-level function or property for several objects: one call with a union self
			groups, rest = {}, []
			for l, x in al:
				if type(x) is Obj:
					v, c = x.cls.lookup(name)
					if isinstance(v, Prop) or isinstance(v, Func) and name not in x.attrs:
						groups.setdefault(id(v), (v, []))[1].append((l, x))
						continue
				rest.append((l, x))
			items = []
			for v, xs in groups.values():
				items.append((self.g.or_list([l for l, _ in xs]), (v, self.mk(xs))))
			if not rest and len(items) == 1:
				v, u = items[0][1]
				return self.bind_attr(v, u, None)
			table = [(l, ('g', p)) for l, p in items] + [(l, ('r', x)) for l, x in rest]
			save, res, ends, shrunk = self.pc, [], [], False
			for l, (k, x) in table:
				p = self.g.and_(save, l)
				if not self.feas(p):
					continue
				self.pc = p
				try:
					r = self.bind_attr(x[0], x[1], None) if k == 'g' else self.getattr(x, name, default)
				except Dead:
					shrunk = True
					continue
				if self.pc != p:
					shrunk = True
					res.append((self.pc, r))
				else:
					res.append((l, r))
				ends.append(self.pc)
			if not ends:
				self.pc = FALSE
				raise Dead
			self.pc = self.join(save, ends) if shrunk else save
			return self.mk(res)
		v = self.getattr_builtin(o, name)
		if v is ABSENT:
			if default is not ABSENT:
				return default
			self.throw(AttributeError, "'%s' object has no attribute '%s'" % (self.type_name(o), name))
		return v

	def getattr_obj(self, o, name, default=ABSENT):
		cv, c = o.cls.lookup(name)
		if isinstance(cv, Prop):
			if default is not ABSENT:
				return self.catching(lambda: self.bind_attr(cv, o, o.cls), AttributeError, default)
			return self.bind_attr(cv, o, o.cls)
		v = o.attrs.get(name, ABSENT)
		if type(v) is U:
			v = self.norm(v)
		if v is ABSENT or type(v) is U and any(x is ABSENT for _, x in v.alts):
			def missing():
				if c is not None:
					return self.bind_attr(cv, o, o.cls)
				r = self.getattr_special(o, name)
				if r is not ABSENT:
					return r
				ga, _ = o.cls.lookup('__getattr__')
				if ga is not None:
					return self.call(ga, [o, name], {})
				if default is not ABSENT:
					return default
				self.throw(AttributeError, "'%s' object has no attribute '%s'" % (o.cls.name, name))
			if v is ABSENT:
				return missing()
			bad = self.g.or_list([l for l, x in v.alts if x is ABSENT])
			good = [(l, x) for l, x in v.alts if x is not ABSENT]
			return self.split(bad, missing, lambda: self.mk(good))
		return v

	def catching(self, fn, native, default):
		"""fn(), or default on the paths where it raises `native`"""
		sink = []
		self.sinks.append(sink)
		start = self.pc
		try:
			try:
				r = fn()
				end = self.pc
			except Dead:
				end = 0
		finally:
			self.sinks.pop()
		res = [(end, r)] if end else []
		cls = self.exc_class(native)
		for p, x in sink:
			if x.cls.issub(cls):
				res.append((p, default))
			else:
				self.sinks[-1].append((p, x))
		if not res:
			self.pc = FALSE
			raise Dead
		self.pc = self.join(start, [p for p, _ in res])
		return self.mk(res)

	def getattr_special(self, o, name):
		if name == '__class__':
			return o.cls
		if name == '__dict__':
			d = self.new_dict()
			for k, v in o.attrs.items():
				if k.startswith('$'):
					continue
				for l, x in (v.alts if type(v) is U else ((TRUE, v),)):
					if x is not ABSENT:
						self.under(l, lambda: self.dict_set(d, k, x))
			d.owner = o
			return d
		if name == '__hash__':
			return Builtin('__hash__', lambda i, a, k: self.default_hash(o))
		if name in ('__eq__', '__ne__'):
			return Builtin(name, lambda i, a, k: self.each(a[0], lambda x: True if x is o else NotImplemented))
		if name in ('__str__', '__repr__'):
			return Builtin(name, lambda i, a, k: self.to_repr(o))
		if name == '__reduce_ex__' or name == '__reduce__':
			raise Unsupported('explicit use of the pickle protocol')
		if name == '__init__':
			return Builtin(name, lambda i, a, k: None)
		return ABSENT

	def setattr(self, o, name, v):
		t = type(o)
		if t is Obj:
			cv, c = o.cls.lookup(name)
			if isinstance(cv, Prop):
				if cv.fset is None:
					self.throw(AttributeError, "property '%s' of '%s' object has no setter" % (name, o.cls.name))
				self.call(cv.fset, [o, v], {})
				return
			sa, _ = o.cls.lookup('__setattr__')
			if sa is not None:
				self.call(sa, [o, name, v], {})
				return
			self.raw_setattr(o, name, v)
			return
		if t is U:
			al = self.alts(o)
			if len(al) == 1:
				return self.setattr(al[0][1], name, v)
			groups = {}
			for l, x in al:
				key = id(x)
				if type(x) is Obj:
					cv, c = x.cls.lookup(name)
					if isinstance(cv, Prop) and cv.fset is not None:
						groups.setdefault(id(cv), (cv, []))[1].append((l, x))
						continue
				groups[key] = (None, [(l, x)])
			items = []
			for cv, xs in groups.values():
				items.append((self.g.or_list([l for l, _ in xs]), cv, self.mk(xs)))
			if len(items) == 1 and items[0][1] is not None:
				self.call(items[0][1].fset, [items[0][2], v], {})
				return
			for l, cv, x in items:
				if cv is not None:
					self.under(l, lambda: self.call(cv.fset, [x, v], {}))
				else:
					self.under(l, lambda: self.setattr(x, name, v))
			return
		if t is Cls:
			o.ns[name] = self.write(TRUE, o.ns.get(name, ABSENT), v)
			self.set_owner(v, o)
			return
		if t is Module:
			o.ns[name] = self.write(TRUE, o.ns.get(name, ABSENT), v)
			return
		if t is Func:
			o.attrs[name] = v
			return
		if t in PRIMSET:
			self.throw(AttributeError, "'%s' object has no attribute '%s'" % (self.type_name(o), name))
		raise Unsupported('setattr on %s' % self.type_name(o))

	def raw_setattr(self, o, name, v):
		o.attrs[name] = self.write(o.birth, o.attrs.get(name, ABSENT), v)

	def delattr(self, o, name):
		def go(x):
			if type(x) is not Obj:
				raise Unsupported('delattr')
			cur = x.attrs.get(name, ABSENT)
			bad = self.g.or_list([l for l, y in self.alts(cur) if y is ABSENT]) if type(cur) is U else (1 if cur is ABSENT else 0)
			if self.feas(self.g.and_(self.pc, bad)):
				self.throw(AttributeError, name, guard=bad)
			self.raw_setattr(x, name, ABSENT)
		self.each(o, go)
