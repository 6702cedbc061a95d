"""Built-in functions, types and methods of the symbolic executor; models of copy and pickle."""
import ast
import builtins as pb
import collections.abc
import importlib
import re
import types
import z3
from .values import *
from .core import Dead, Unsupported, PRIMSET
from .ops import is_concrete, NUM
from .strings import Strings

NATIVE_OK = {'re', 'math', 'string', 'operator', 'os', 'os.path', 'posixpath', 'typing', 'abc', 'collections.abc', 'html', 'textwrap', 'numbers',
	'unicodedata', 'shlex', 'sys', 'keyword', 'cmath', 'fractions', 'decimal', 'json', 'binascii', 'base64', 'time', 'types', 'locale',
	'numbers', 'ast', 'difflib', 'io', 'inspect', 'logging', 'pathlib', 'pprint', '__future__', 'urllib', 'urllib.parse', 'xml', 'xml.sax',
	'xml.sax.saxutils', 'uuid', 'bisect', 'heapq', 'typing_extensions'}
ABC_PROBE = {'Iterable': '__iter__', 'Iterator': '__next__', 'Callable': '__call__', 'Hashable': '__hash__', 'Sized': '__len__', 'Container': '__contains__'}


class Cell:
	"""dummy"""


class Builtins(Strings):
	def setup_builtins(self):
		b = self.builtins = {}
		for n in ('list', 'dict', 'set', 'frozenset', 'tuple', 'str', 'int', 'float', 'bool', 'bytes', 'object', 'type', 'complex', 'range', 'bytearray'):
			b[n] = getattr(pb, n)
		for n in dir(pb):
			x = getattr(pb, n)
			if isinstance(x, type) and issubclass(x, BaseException):
				b[n] = self.exc_class(x)
		for n in dir(self):
			if n.startswith('b_'):
				b[n[2:]] = Builtin(n[2:], self._wrap(n))
		b['True'], b['False'], b['None'] = True, False, None
		b['NotImplemented'], b['Ellipsis'] = NotImplemented, Ellipsis
		b['__name__'] = '__builtin__'
		b['__debug__'] = True
		self.copy_memo = None

	def _wrap(self, n):
		m = getattr(type(self), n)
		return lambda i, a, k: m(i, *a, **k)

	# ---------------------------------------------------------------- native bridge
	def native_module(self, name):
		if name not in NATIVE_OK:
			raise Unsupported('import of ' + name)
		m = Module(name, '<native>')
		mod = importlib.import_module(name)
		m.native = mod
		self.modules[name] = m
		for k in dir(mod):
			m.ns[k] = self.to_engine(getattr(mod, k))
		if name == 'os':
			m.ns['path'] = self.import_module('os.path')
		if name == 'operator':
			def bin(op):
				return Builtin(op.__name__, lambda i, a, k: i.binop(op(), a[0], a[1]))
			for fn, op in (('add', ast.Add), ('sub', ast.Sub), ('mul', ast.Mult), ('truediv', ast.Div), ('or_', ast.BitOr), ('and_', ast.BitAnd)):
				m.ns[fn] = bin(op)
			m.ns['eq'] = Builtin('eq', lambda i, a, k: i.eq_value(a[0], a[1]))
			m.ns['ne'] = Builtin('ne', lambda i, a, k: i.ne_value(a[0], a[1]))
			for fn, op in (('lt', '<'), ('gt', '>'), ('le', '<='), ('ge', '>=')):
				m.ns[fn] = Builtin(fn, lambda i, a, k, op=op: i.order_value(op, a[0], a[1]))
			m.ns['contains'] = Builtin('contains', lambda i, a, k: i.sbool(i.contains(a[0], a[1])))
			m.ns['getitem'] = Builtin('getitem', lambda i, a, k: i.getitem(a[0], a[1]))
			m.ns['setitem'] = Builtin('setitem', lambda i, a, k: i.setitem(a[0], a[1], a[2]))

			def attrgetter(i, a, k):
				def get(o, n):
					for p in n.split('.'):
						o = i.getattr(o, p)
					return o
				if len(a) == 1:
					return Builtin('attrgetter', lambda i2, b, k2: get(b[0], a[0]))
				return Builtin('attrgetter', lambda i2, b, k2: tuple([get(b[0], n) for n in a]))

			def itemgetter(i, a, k):
				if len(a) == 1:
					return Builtin('itemgetter', lambda i2, b, k2: i.getitem(b[0], a[0]))
				return Builtin('itemgetter', lambda i2, b, k2: tuple([i.getitem(b[0], n) for n in a]))
			m.ns['attrgetter'] = Builtin('attrgetter', attrgetter)
			m.ns['itemgetter'] = Builtin('itemgetter', itemgetter)
			m.ns['methodcaller'] = Builtin('methodcaller', lambda i, a, k: Builtin('methodcaller', lambda i2, b, k2: i.call(i.getattr(b[0], a[0]), list(a[1:]), k)))
		if name == 're':
			m.ns['sub'] = Builtin('re.sub', lambda i, a, k: i.re_sub(*a, **k))
		if name == 'typing':
			m.ns['TYPE_CHECKING'] = False
			m.ns['cast'] = Builtin('cast', lambda i, a, k: a[1])
			m.ns['TypeVar'] = Builtin('TypeVar', lambda i, a, k: NativeObj(types.SimpleNamespace()))
			m.ns['overload'] = Builtin('overload', lambda i, a, k: a[0])
		if name == 'abc':
			m.ns['abstractmethod'] = Builtin('abstractmethod', lambda i, a, k: a[0])
		return m

	def re_sub(self, pattern, repl, s, count=0, flags=0, **k):
		if 'string' in k:
			s = k['string']
		if type(s) in (U, SStr):
			return self.each(self.expand(s), lambda x: self.re_sub(pattern, repl, x, count, flags))
		if type(s) is SChar:
			s = self.mkstr(((1, s),))
		if type(s) is not str:
			raise Unsupported('re.sub on symbolic characters')
		pat = pattern.o if type(pattern) is NativeObj else re.compile(pattern, flags)
		if type(repl) is str:
			return pat.sub(repl, s, count=count)
		out, last, n = [], 0, 0
		for m in pat.finditer(s):
			if count and n >= count:
				break
			n += 1
			out.append(s[last:m.start()])
			out.append(self.call(repl, [NativeObj(m)], {}))
			last = m.end()
		out.append(s[last:])
		return self.str_concat(out)

	def to_engine(self, x):
		t = type(x)
		if t in PRIMSET:
			return x
		if t is tuple:
			return tuple([self.to_engine(y) for y in x])
		if t is list:
			return self.new_list([self.to_engine(y) for y in x])
		if t is dict:
			if len(x) > 200:
				return NativeObj(x)
			return self.new_dict([(self.to_engine(k), self.to_engine(v)) for k, v in x.items()])
		if t in (set, frozenset):
			return self.new_set([self.to_engine(y) for y in sorted(x, key=repr)], t is frozenset)
		if isinstance(x, type) and issubclass(x, BaseException):
			return self.exc_class(x)
		if isinstance(x, type) and x in (int, str, float, bool, list, dict, tuple, set, frozenset, object, type, bytes):
			return x
		return NativeObj(x)

	def to_native(self, v):
		t = type(v)
		if t in PRIMSET:
			return v
		if t is tuple:
			return tuple([self.to_native(x) for x in v])
		if t is NativeObj:
			return v.o
		if t is ListV and all(s[0] == 1 for s in self.live(v.slots)):
			return [self.to_native(s[1]) for s in self.live(v.slots)]
		if t is DictV and all(s[0] == 1 for s in self.live(v.slots)):
			return {self.to_native(s[1]): self.to_native(s[2]) for s in self.live(v.slots)}
		if t is SetV and all(s[0] == 1 for s in self.live(v.slots)):
			return {self.to_native(s[1]) for s in self.live(v.slots)}
		if t is RangeV:
			return range(v.start, v.stop, v.step)
		if isinstance(v, type):
			return v
		if t is Cls and v.native is not None:
			return v.native
		raise Unsupported('native call with %r' % (v,))

	def native_call(self, fn, args, kwargs):
		if fn is re.sub:
			return self.re_sub(*args, **kwargs)
		ks = list(kwargs)
		vals = list(args) + [kwargs[k] for k in ks]
		vals = [self.expand(v) for v in vals]

		def go(a):
			pos = [self.to_native(x) for x in a[:len(args)]]
			kw = {k: self.to_native(x) for k, x in zip(ks, a[len(args):])}
			try:
				r = fn(*pos, **kw)
			except Exception as e:
				self.throw(type(e), *[x if type(x) in PRIMSET else str(x) for x in e.args])
			return self.to_engine(r)

		def deep(a):
			return self.each_n(a, go, True)
		# tuples may hold unions
		def untuple(v):
			if type(v) is tuple and not is_concrete(v):
				return self.each_n(list(v), tuple, True)
			return v
		return deep([untuple(v) for v in vals])

	# ---------------------------------------------------------------- types
	def call_type(self, t, args, kwargs):
		a = list(args)
		if t is list:
			return self.to_list(a[0]) if a else self.new_list()
		if t is tuple:
			return self.each(a[0], self.seq_tuple) if a else ()
		if t is dict:
			d = self.new_dict()
			if a:
				self.dict_update(d, a[0])
			for k, v in kwargs.items():
				self.dict_set(d, k, v)
			return d
		if t in (set, frozenset):
			s = self.new_set(frozen=t is frozenset)
			if a:
				self.iterate(a[0], lambda x: self.set_add(s, x))
			return s
		if t is str:
			return self.to_str(a[0]) if a else ''
		if t is bool:
			return self.sbool(self.truth(a[0])) if a else False
		if t is int:
			if not a:
				return 0
			return self.each_n(a, lambda x: self.to_int(*x), True)
		if t is float:
			return self.each(a[0], self.to_float, True) if a else 0.0
		if t is object:
			c = self.exc_classes.get('object')
			if c is None:
				c = self.exc_classes['object'] = Cls('object', [], {})
			return self.new_obj(c)
		if t is type:
			if len(a) == 1:
				return self.each(a[0], self.class_of)
			raise Unsupported('type() with three arguments')
		if t is range:
			def mkrange(x):
				for y in x:
					if type(y) not in (int, bool):
						if type(y) in (SNum, HashTok):
							raise Unsupported('symbolic range')
						self.throw(TypeError, "'%s' object cannot be interpreted as an integer" % self.type_name(y))
				if len(x) == 1:
					return RangeV(0, int(x[0]), 1)
				if len(x) == 2:
					return RangeV(int(x[0]), int(x[1]), 1)
				if x[2] == 0:
					self.throw(ValueError, 'range() arg 3 must not be zero')
				return RangeV(*[int(y) for y in x])
			return self.each_n(a, mkrange, True)
		if t is bytes or t is complex:
			return self.native_call(t, args, kwargs)
		raise Unsupported('call of type %s' % t.__name__)

	def to_int(self, x, base=None):
		t = type(x)
		if t in (int, float, bool) or t is str:
			try:
				return int(x) if base is None else int(x, base)
			except (ValueError, TypeError, OverflowError) as e:
				self.throw(type(e), str(e))
		if t is HashTok:
			return x
		if t is SNum:
			if not x.real:
				return x
			f = z3.ToInt(x.e)
			return SNum(z3.If(x.e >= 0, f, -z3.ToInt(-x.e)), False)
		if t is SChar:
			self._unsup('int of symbolic text')
		if t is SStr:
			return self.each(self.expand(x), lambda y: self.to_int(y, base) if type(y) is str else self._unsup('int of symbolic text'))
		if t is Obj:
			m = self.class_attr(x, '__int__') or self.class_attr(x, '__index__')
			if m is not None:
				return self.call(m, [], {})
		self.throw(TypeError, "int() argument must be a string or a number, not '%s'" % self.type_name(x))

	def _unsup(self, what):
		raise Unsupported(what)

	def to_float(self, x):
		t = type(x)
		if t in (int, float, bool) or t is str:
			try:
				return float(x)
			except (ValueError, TypeError, OverflowError) as e:
				self.throw(type(e), str(e))
		if t is SNum:
			return x if x.real else SNum(z3.ToReal(x.e), True)
		self.throw(TypeError, "float() argument must be a string or a real number, not '%s'" % self.type_name(x))

	def isinstance1(self, x, t):
		if type(t) is tuple:
			return any(self.isinstance1(x, y) for y in t)
		if type(t) is NativeObj:
			t = t.o
			import typing
			org = typing.get_origin(t)
			if org is not None and org is not typing.Union:
				t = org
		c = self.class_of(x)
		if isinstance(c, Cls):
			if isinstance(t, Cls):
				return c.issub(t)
			if t is object:
				return True
			if isinstance(t, type) and issubclass(t, BaseException):
				return c.issub(self.exc_class(t))
			probe = ABC_PROBE.get(getattr(t, '__name__', ''))
			if probe and getattr(t, '__module__', '') == 'collections.abc':
				if probe == '__hash__':
					return True
				return c.lookup(probe)[1] is not None
			return False
		if isinstance(t, Cls):
			return False
		if type(x) in (Func, Builtin, Bound, Partial, Cls) and getattr(t, '__name__', '') == 'Callable':
			return True
		if getattr(t, '__name__', '') == 'Iterable' and type(x) in (ListV, DictV, SetV, LazyIter, View, RangeV, SStr, SChar):
			return True
		if isinstance(t, (type, types.UnionType)):
			return issubclass(c, t)
		self.throw(TypeError, 'isinstance() arg 2 must be a type')

	def b_isinstance(self, x, t):
		if type(x) is SBool:
			return self.isinstance1(x, t)
		return self.each2(x, t, lambda a, b: self.isinstance1(a, b))

	def b_issubclass(self, a, b):
		def one(x, t):
			if type(t) is tuple:
				return any(one(x, y) for y in t)
			if isinstance(x, Cls) and isinstance(t, Cls):
				return x.issub(t)
			if isinstance(x, Cls) or isinstance(t, Cls):
				return t is object
			return issubclass(x, t)
		return self.each2(a, b, one)

	# ---------------------------------------------------------------- functions
	def b_len(self, x):
		return self.length(x)

	def b_print(self, *a, **k):
		return None

	def b_id(self, x):
		return self.each(x, lambda y: 5000011 + 32 * y.serial if isinstance(y, Heap) else (hash(y) if type(y) in PRIMSET else id(y)))

	def b_hash(self, x):
		return self.hash_of(self.norm_key(x)) if type(x) is tuple else self.hash_of(x)

	def b_repr(self, x):
		return self.to_repr(x)

	def b_callable(self, x):
		return self.each(x, lambda f: isinstance(f, (Func, Bound, Builtin, Cls, Partial, type)) or type(f) is NativeObj and callable(f.o)
			or type(f) is Obj and f.cls.lookup('__call__')[1] is not None)

	def b_getattr(self, o, name, *default):
		if default:
			d = default[0]
			return self.each(name, lambda n: self.getattr_default(o, n, d))
		return self.each(name, lambda n: self.getattr(o, self._attrname(n)))

	def _attrname(self, n):
		if type(n) is not str:
			raise Unsupported('symbolic attribute name')
		return n

	def getattr_default(self, o, n, d):
		n = self._attrname(n)
		if type(o) is U:
			return self.each(o, lambda x: self.getattr_default(x, n, d))
		return self.catching(lambda: self.getattr(o, n), AttributeError, d)

	def b_hasattr(self, o, name):
		mark = NativeObj(object())

		def one(n):
			r = self.getattr_default(o, n, mark)
			return self.sbool(self.is_(r, mark) ^ 1)
		return self.each(name, one)

	def b_setattr(self, o, name, v):
		def one(n):
			self.setattr(o, self._attrname(n), v)
			return None
		return self.each(name, one)

	def b_delattr(self, o, name):
		self.delattr(o, name)

	def b_vars(self, o):
		return self.getattr(o, '__dict__')

	def b_iter(self, x, *s):
		if s:
			raise Unsupported('iter with sentinel')
		return self.each(x, self.lazy)

	def b_next(self, it, *default):
		def one(x):
			if type(x) is Obj:
				f = lambda: self.call(self.getattr(x, '__next__'), [], {})
				return self.catching(f, StopIteration, default[0]) if default else f()
			if type(x) is not LazyIter:
				self.throw(TypeError, "'%s' object is not an iterator" % self.type_name(x))
			buf = self.materialize(x)
			have = self.g.or_list([s[0] for s in buf.slots])

			def none():
				if default:
					return default[0]
				self.throw(StopIteration)
			return self.split(have, lambda: self.list_pop(buf, 0), none)
		return self.each(it, one)

	def b_enumerate(self, it, start=0):
		def run(cb):
			if type(it) is LazyIter:
				seq = self.to_list(it)
			else:
				seq = it
			if type(seq) is U:
				seq = self.to_list(seq)
			if type(seq) is ListV and not any(s[0] != 1 for s in seq.slots):
				# a definite list may be changed while it is enumerated: iterate it live
				n = [0]

				def one(v):
					i = n[0]
					n[0] += 1
					cb((i + start, v))
				self.iterate_list(seq, one)
				return
			for i, (l, v) in enumerate(self.positions(seq)):
				self.step(l, (i + start, v), cb)
		return LazyIter(run, 'enumerate')

	def b_zip(self, *its, strict=False):
		def run(cb):
			endless = [type(x) is Obj and x.cls.name == 'count' and '_step' in x.attrs for x in its]
			cols = [None if e else self.positions(x if type(x) is not U and type(x) is not LazyIter else self.to_list(x)) for x, e in zip(its, endless)]
			if all(c is None for c in cols):
				if cols:
					self.bound_hit('endless zip')
				return
			for i in range(min(len(c) for c in cols if c is not None)):
				l = self.g.and_list([c[i][0] for c in cols if c is not None])
				self.step(l, tuple([self.call(self.getattr(x, '__next__'), [], {}) if c is None else c[i][1] for x, c in zip(its, cols)]), cb)
		return LazyIter(run, 'zip')

	def b_map(self, f, *its):
		def run(cb):
			if len(its) == 1:
				self.iterate(its[0], lambda v: cb(self.call(f, [v], {})))
			else:
				self.iterate(self.b_zip(*its), lambda t: cb(self.call(f, list(t), {})))
		return LazyIter(run, 'map')

	def b_filter(self, f, it):
		def run(cb):
			def one(v):
				c = self.truth(v if f is None else self.call(f, [v], {}))
				self.step(c, v, cb)
			self.iterate(it, one)
		return LazyIter(run, 'filter')

	def b_reversed(self, it):
		def run(cb):
			x = it
			if type(x) is RangeV:
				for i in reversed(range(x.start, x.stop, x.step)):
					cb(i)
				return
			if type(x) is Obj:
				m = self.class_attr(x, '__reversed__')
				if m is not None:
					return self.iterate(self.call(m, [], {}), cb)
			if type(x) is U:
				x = self.to_list(x)
			sl = self.seq_slots(x)
			self.iterate(self.new_list_slots([list(s) for s in reversed(sl)]), cb)
		return LazyIter(run, 'reversed')

	def _quant(self, it, stop_on):
		"""literal that some element has truth value stop_on; evaluation stops there on each path"""
		start = self.pc
		found = []

		def one(v):
			c = self.truth(v)
			if not stop_on:
				c ^= 1
			p = self.g.and_(self.pc, c)
			if self.feas(p):
				found.append(p)
				self.pc = self.g.and_(self.pc, c ^ 1)
				if not self.feas(self.pc):
					self.pc = 0
					raise Dead
		try:
			self.iterate(it, one)
			rest = self.pc
		except Dead:
			rest = 0
		f = self.g.or_list(found)
		self.pc = self.join(start, [rest, f])
		return f

	def b_any(self, it):
		return self.sbool(self._quant(it, True))

	def b_all(self, it):
		return self.sbool(self._quant(it, False) ^ 1)

	def b_sum(self, it, start=0):
		box = [start]
		self.fold(it, box, lambda acc, v: self.binop(ast.Add(), acc, v))
		return box[0]

	def fold(self, it, box, fn):
		scope = self.pc

		def one(v):
			box[0] = self.write(scope, box[0], fn(self.norm(box[0]), v))
		self.iterate(it, one)

	def _extreme(self, op, args, kw):
		key = kw.get('key')
		it = args[0] if len(args) == 1 else tuple(args)
		scope = self.pc
		best, bkey, have = [None], [None], [0]

		def one(v):
			k = v if key is None else self.call(key, [v], {})
			if have[0] == 0:
				better = 1
			elif have[0] == 1 or self.implied(have[0]):
				better = self.truth(self.order_value(op, k, bkey[0]))
			else:
				h = have[0]
				_, c = self.under(h, lambda: self.truth(self.order_value(op, k, bkey[0])))
				better = self.g.or_(h ^ 1, c or 0)

			def put():
				best[0] = self.write(scope, best[0], v)
				bkey[0] = self.write(scope, bkey[0], k)
			self.under(better, put)
			have[0] = self.g.or_(have[0], self.pc) if self.pc != scope else 1
		self.iterate(it, one)
		if not (have[0] == 1 or have[0] and self.implied(have[0])):
			if 'default' in kw:
				return self.split(have[0], lambda: best[0], lambda: kw['default'])
			self.throw(ValueError, 'iterable argument is empty', guard=have[0] ^ 1)
		return self.norm(best[0])

	def b_min(self, *args, **kw):
		return self._extreme('<', args, kw)

	def b_max(self, *args, **kw):
		return self._extreme('>', args, kw)

	def b_sorted(self, it, key=None, reverse=False):
		l = self.to_list(it)
		self.list_sort(l, key, reverse)
		return l

	def list_sort(self, l, key=None, reverse=False):
		if type(reverse) is SBool or type(reverse) is U:
			self.split(self.truth(reverse), lambda: self.list_sort(l, key, True), lambda: self.list_sort(l, key, False))
			return
		if l.iters:
			raise Unsupported('sort of a list being iterated')
		rev = bool(reverse)
		p = self.positions(l)
		g = self.g
		items = []
		for lit, v in p:
			k = [None]
			if key is None:
				k[0] = v
			else:
				def one(_):
					k[0] = self.call(key, [v], {})
				self.step(lit, None, one)
			items.append([lit, k[0], v])
		if all(is_concrete(k) for _, k, _ in items) and all(x[0] == 1 for x in items):
			try:
				items.sort(key=lambda x: x[1], reverse=rev)
			except TypeError as e:
				self.throw(TypeError, str(e))
		else:
			n = len(items)
			for end in range(n - 1, 0, -1):
				for j in range(end):
					a, b = items[j], items[j + 1]
					both = g.and_(a[0], b[0])
					if not self.feas(g.and_(self.pc, both)):
						continue
					_, less = self.under(both, lambda: self.truth(self.order_value('<', a[1], b[1]) if rev else self.order_value('<', b[1], a[1])))
					c = g.and_(both, less or 0)
					if c == 0 or not self.feas(g.and_(self.pc, c)):
						continue
					if self.implied(c):
						items[j], items[j + 1] = b, a
						continue
					mk = lambda x, y: self.mk([(c, x), (c ^ 1, y)])
					items[j] = [a[0], mk(b[1], a[1]), mk(b[2], a[2])]
					items[j + 1] = [b[0], mk(a[1], b[1]), mk(a[2], b[2])]
		new = self.new_list_slots([[x[0], x[2]] for x in items])
		self.replace_list(l, new)

	def b_abs(self, x):
		return self.each(x, lambda v: SNum(z3.If(v.e >= 0, v.e, -v.e), v.real) if type(v) is SNum else self.native_call(abs, [v], {}), True)

	def b_round(self, *a):
		return self.each_n(list(a), lambda v: self.native_call(round, v, {}), True)

	def b_divmod(self, a, b):
		return (self.binop(ast.FloorDiv(), a, b), self.binop(ast.Mod(), a, b))

	def b_pow(self, a, b):
		return self.binop(ast.Pow(), a, b)

	def b_chr(self, a):
		return self.native_call(chr, [a], {})

	def b_ord(self, a):
		return self.each(a, lambda v: SNum(z3.BV2Int(v.e), False) if type(v) is SChar else self.native_call(ord, [v], {}))

	def b_format(self, v, spec=''):
		if spec == '':
			return self.to_str(v)
		return self.native_call(format, [v, spec], {})

	def b_bin(self, a):
		return self.native_call(bin, [a], {})

	def b_hex(self, a):
		return self.native_call(hex, [a], {})

	def b_property(self, fget=None, fset=None, fdel=None, doc=None):
		return Prop(fget, fset, fdel)

	def b_staticmethod(self, f):
		return StaticM(f)

	def b_classmethod(self, f):
		return ClassM(f)

	def b_super(self, *a):
		if len(a) == 2:
			return SuperV(a[0], a[1])
		raise Unsupported('super()')

	def b_slice(self, *a):
		return NativeObj(slice(*a))

	# ---------------------------------------------------------------- attributes of built-in values
	def getattr_builtin(self, o, name):
		t = type(o)
		if t is SuperV:
			return self.super_attr(o, name)
		if t is Module:
			v = o.ns.get(name, ABSENT)
			if v is ABSENT and self.find_module(o.name + '.' + name):
				return self.import_module(o.name + '.' + name)
			if type(v) is U and any(x is ABSENT for _, x in v.alts):
				raise Unsupported('conditionally defined module attribute')
			return v
		if t is Cls:
			return self.cls_attr(o, name)
		kind = {ListV: 'list', DictV: 'dict', SetV: 'set', View: 'view', str: 'str', SStr: 'str', SChar: 'str', tuple: 'tuple', LazyIter: 'gen',
			SNum: 'num', SBool: 'num', int: 'num', float: 'num', bool: 'num', RangeV: 'range'}.get(t)
		if name == '__class__':
			return self.class_of(o)
		if kind:
			m = getattr(type(self), 'm_%s_%s' % (kind, name), None)
			if m is not None:
				return Builtin(name, lambda i, a, k: m(self, o, *a, **k))
			if kind == 'num' and name in ('real', 'imag', 'numerator', 'denominator'):
				return o if name in ('real', 'numerator') else 0 if name == 'imag' else 1
			if name == '__doc__':
				return None
		if name == '__hash__':
			if t in (ListV, DictV) or t is SetV and not o.frozen:
				return None
			return Builtin(name, lambda i, a, k: self.hash_of(o))
		if name in ('__eq__', '__ne__'):
			return Builtin(name, lambda i, a, k: self.eq_value(o, a[0]) if name == '__eq__' else self.ne_value(o, a[0]))
		if name in ('__lt__', '__gt__', '__le__', '__ge__') and t in (int, float, str, SStr, SChar, SNum, tuple):
			return Builtin(name, lambda i, a, k: self.order_value({'__lt__': '<', '__gt__': '>', '__le__': '<=', '__ge__': '>='}[name], o, a[0]))
		if name in ('__str__', '__repr__'):
			return Builtin(name, lambda i, a, k: self.to_str(o) if name == '__str__' else self.to_repr(o))
		if name in ('__len__', '__iter__', '__contains__', '__getitem__', '__setitem__', '__delitem__', '__add__', '__bool__') and t is not NativeObj and kind:
			if name == '__len__' and t in (ListV, DictV, SetV, View, str, SStr, SChar, tuple, RangeV):
				return Builtin(name, lambda i, a, k: self.length(o))
			if name == '__iter__' and t in (ListV, DictV, SetV, View, str, SStr, SChar, tuple, RangeV, LazyIter):
				return Builtin(name, lambda i, a, k: self.lazy(o))
			if name == '__contains__' and t in (ListV, DictV, SetV, View, str, SStr, SChar, tuple, RangeV):
				return Builtin(name, lambda i, a, k: self.sbool(self.contains(o, a[0])))
			if name == '__getitem__' and t in (ListV, DictV, str, SStr, SChar, tuple):
				return Builtin(name, lambda i, a, k: self.getitem(o, a[0]))
			if name == '__setitem__' and t in (ListV, DictV):
				return Builtin(name, lambda i, a, k: self.setitem(o, a[0], a[1]))
			if name == '__delitem__' and t in (ListV, DictV):
				return Builtin(name, lambda i, a, k: self.delitem(o, a[0]))
		if t is LazyIter:
			if name == '__next__':
				return Builtin(name, lambda i, a, k: self.b_next(o))
			return ABSENT
		if t in (Func, Builtin, Bound, Partial):
			f = o.func if t is Bound else o.f if t is Partial else o
			if name == '__self__' and t is Bound:
				return o.self
			if name == '__func__' and t is Bound:
				return o.func
			if name in ('__name__', '__qualname__') and hasattr(f, 'name'):
				return f.attrs.get(name, f.name) if isinstance(f, Func) else f.name
			if isinstance(f, Func) and name in f.attrs:
				return f.attrs[name]
			if name == '__doc__':
				return None
			if name == '__call__':
				return o
			if name == '__module__' and isinstance(f, Func):
				return f.module.name
			if name == '__dict__':
				return self.new_dict()
			return ABSENT
		if t is NativeObj:
			try:
				v = getattr(o.o, name)
			except AttributeError:
				return ABSENT
			if callable(v) and not isinstance(v, type):
				if name == 'sub' and isinstance(o.o, re.Pattern):
					return Builtin('sub', lambda i, a, k: self.re_sub(o, *a, **k))
				return NativeObj(v)
			return self.to_engine(v)
		if isinstance(o, type):
			if name == '__name__':
				return o.__name__
			if o is dict and name == 'fromkeys':
				def fromkeys(i, a, k):
					d = self.new_dict()
					self.iterate(a[0], lambda x: self.dict_set(d, x, a[1] if len(a) > 1 else None))
					return d
				return Builtin('fromkeys', fromkeys)
			if o is str and name == 'maketrans':
				def maketrans(i, a, k):
					if len(a) == 1:
						return self.dict_copy(a[0])
					return self.native_call(str.maketrans, a, k)
				return Builtin('maketrans', maketrans)
			if o is object:
				if name == '__new__':
					return Builtin('__new__', lambda i, a, k: self.new_obj(a[0]))
				if name == '__setattr__':
					return Builtin(name, lambda i, a, k: self.each(a[0], lambda x: self.raw_setattr(x, a[1], a[2])))
				if name == '__getattribute__':
					return Builtin(name, lambda i, a, k: self.getattr_obj(a[0], a[1]))
				if name == '__hash__':
					return Builtin(name, lambda i, a, k: self.each(a[0], self.default_hash))
				if name == '__init__':
					return Builtin(name, lambda i, a, k: None)
				if name == '__eq__':
					return Builtin(name, lambda i, a, k: self.sbool(self.is_(a[0], a[1])))
			if hasattr(o, name):
				# unbound method: str.lower, dict.get, ...
				return Builtin(name, lambda i, a, k: self.call(self.getattr(a[0], name), list(a[1:]), k))
			return ABSENT
		if t is HashTok and name == '__hash__':
			return Builtin(name, lambda i, a, k: o)
		if t is bytes or t is type(None) or t is complex or t in NUM:
			if hasattr(o, name):
				return Builtin(name, lambda i, a, k: self.native_call(getattr(o, name), a, k))
			return ABSENT
		if t is tuple and name in ('_fields',):
			return ABSENT
		if t is Prop and name in ('setter', 'getter', 'deleter'):
			def mkprop(i, a, k):
				p = Prop(o.fget, o.fset, o.fdel)
				if name == 'setter':
					p.fset = a[0]
				elif name == 'getter':
					p.fget = a[0]
				else:
					p.fdel = a[0]
				return p
			return Builtin(name, mkprop)
		if t is Prop and name in ('fget', 'fset', 'fdel'):
			return getattr(o, name)
		if kind and hasattr(self.class_of(o), name):
			raise Unsupported('method %s.%s' % (self.type_name(o), name))
		return ABSENT

	def super_attr(self, o, name):
		def one(x):
			cls = x if isinstance(x, Cls) else x.cls
			i = cls.mro.index(o.cls)
			for c in cls.mro[i + 1:]:
				if name in c.ns:
					v = c.ns[name]
					if isinstance(x, Cls):
						return Bound(v.f, x) if isinstance(v, ClassM) else v.f if isinstance(v, StaticM) else v
					return self.bind_attr(v, x, cls)
			if name == '__init__':
				def init(interp, a, k):
					if any(c.native for c in cls.mro):
						x.attrs['args'] = tuple(a)
					return None
				return Builtin('__init__', init)
			if name == '__new__':
				return Builtin('__new__', lambda i, a, k: self.new_obj(a[0]))
			if name == '__setattr__':
				return Builtin(name, lambda i, a, k: self.raw_setattr(x, a[0], a[1]))
			if name == '__init_subclass__':
				return Builtin(name, lambda i, a, k: None)
			r = self.getattr_special(x, name) if isinstance(x, Obj) else ABSENT
			if r is not ABSENT:
				return r
			self.throw(AttributeError, "'super' object has no attribute '%s'" % name)
		s = self.norm(o.obj)
		if type(s) is U:
			if all(type(x) is Obj for _, x in s.alts) and len({x.cls for _, x in s.alts}) == 1:
				cls = s.alts[0][1].cls
				i = cls.mro.index(o.cls)
				for c in cls.mro[i + 1:]:
					if name in c.ns:
						return self.bind_attr(c.ns[name], s, cls)
			return self.each(s, one)
		return one(s)

	def cls_attr(self, o, name):
		v, c = o.lookup(name)
		if c is not None:
			if isinstance(v, StaticM):
				return v.f
			if isinstance(v, ClassM):
				return Bound(v.f, o)
			return v
		if name in ('__name__', '__qualname__'):
			return o.name
		if name == '__mro__':
			return tuple(o.mro)
		if name == '__bases__':
			return tuple(o.bases)
		if name == '__dict__':
			return self.new_dict(list(o.ns.items()))
		if name == '__new__':
			return Builtin('__new__', lambda i, a, k: self.new_obj(a[0]))
		if name == '__init__':
			return Builtin('__init__', lambda i, a, k: None)
		if name == '__hash__':
			return Builtin('__hash__', lambda i, a, k: self.each(a[0], self.default_hash))
		if name == '__eq__':
			return Builtin('__eq__', lambda i, a, k: self.sbool(self.is_(a[0], a[1])))
		if name in ('__str__', '__repr__'):
			return Builtin(name, lambda i, a, k: self.to_repr(a[0]))
		if name == '__subclasses__':
			raise Unsupported('__subclasses__')
		return ABSENT

	# ---- list methods
	def m_list_append(self, o, v):
		self.list_append(o, v)

	def m_list_extend(self, o, it):
		self.list_extend(o, it)

	def m_list_remove(self, o, v):
		self.list_remove(o, v)

	def m_list_copy(self, o):
		return self.list_copy(o)

	def m_list_pop(self, o, i=-1):
		return self.each(i, lambda k: self.list_pop(o, k), True)

	def m_list_insert(self, o, i, v):
		self.list_insert(o, i, v)

	def m_list_clear(self, o):
		if o.iters:
			raise Unsupported('clear of a list being iterated')
		self.replace_list(o, self.new_list())

	def m_list_reverse(self, o):
		self.replace_list(o, self.new_list_slots([[l, v] for l, v in reversed(o.slots)]))

	def m_list_sort(self, o, key=None, reverse=False):
		self.list_sort(o, key, reverse)

	def m_list_index(self, o, v, *a):
		if a:
			raise Unsupported('list.index with bounds')
		l = o if type(o) is ListV else self.to_list(o)
		hits = []
		idx = {}
		before = []
		left = self.list_find(l, v, lambda i, h: hits.append((i, h)), 'index')
		if self.feas(left):
			self.throw(ValueError, 'value is not in list', guard=left)
		out = []
		for i, h in hits:
			lits = [s[0] for s in l.slots[:i]]
			ran, n = self.under(h, lambda: self.count_lits([x[0] for x in self.live(l.slots[:i])]))
			if ran:
				out.append((h, n))
		return self.mk(out)

	def m_list_count(self, o, v):
		l = o if type(o) is ListV else self.to_list(o)
		lits = []
		for s in list(l.slots):
			ran, e = self.under(s[0], lambda: self.same(s[1], v))
			if ran:
				lits.append(self.g.and_(s[0], e or 0))
		return self.count_lits(lits)

	m_tuple_index = m_list_index
	m_tuple_count = m_list_count

	# ---- dict methods
	def m_dict_keys(self, o):
		return View(o, 'keys')

	def m_dict_values(self, o):
		return View(o, 'values')

	def m_dict_items(self, o):
		return View(o, 'items')

	def m_dict_get(self, o, k, default=None):
		return self.dict_get(o, k, lambda: default)

	def m_dict_copy(self, o):
		return self.dict_copy(o)

	def m_dict_update(self, o, *a, **kw):
		if a:
			self.dict_update(o, a[0])
		for k, v in kw.items():
			self.dict_set(o, k, v)

	def m_dict_setdefault(self, o, k, default=None):
		found, val = self.dict_find(o, k)

		def put():
			self.dict_set(o, k, default)
			return default
		return self.split(found, val, put)

	def m_dict_pop(self, o, k, *default):
		found, vals = self.dict_del(o, k)
		if self.implied(found):
			return self.mk(vals)
		if default:
			return self.split(found, lambda: self.mk(vals), lambda: default[0])
		self.throw(KeyError, k, guard=found ^ 1)
		return self.mk(vals)

	def m_dict_popitem(self, o):
		if o.owner is not None:
			raise Unsupported('popitem of __dict__')
		p = self._index_alts(o, -1)
		lit = self.g.or_list([l for l, _, _ in p])
		if not self.implied(lit):
			self.throw(KeyError, 'popitem(): dictionary is empty', guard=lit ^ 1)
		r = self.mk([(l, (s[1], s[2])) for l, s, _ in p])
		for l, s, _ in p:
			s[0] = self.g.and_(s[0], self.g.and_(self.pc, l) ^ 1)
		self.dict_purge(o)
		return r

	def m_dict_clear(self, o):
		if o.owner is not None:
			raise Unsupported('clear of __dict__')
		for s in o.slots:
			s[0] = self.g.and_(s[0], self.store_guard(o) ^ 1)
		self.dict_purge(o)

	# views
	def m_view_isdisjoint(self, o, other):
		return self.m_set_isdisjoint(self.as_set(o), other)

	# ---- set methods
	def m_set_add(self, o, v):
		self.set_add(o, v)

	def m_set_discard(self, o, v):
		self.set_discard(o, v, False)

	def m_set_remove(self, o, v):
		self.set_discard(o, v, True)

	def m_set_copy(self, o):
		return SetV([list(s) for s in o.slots], *self._heap(), o.frozen)

	def m_set_update(self, o, *its):
		for it in its:
			self.iterate(it, lambda x: self.set_add(o, x))

	def m_set_union(self, o, *its):
		r = self.m_set_copy(o)
		self.m_set_update(r, *its)
		return r

	def m_set_intersection(self, o, *its):
		r = o
		for it in its:
			r = self.set_op('&', r, self.as_set(it))
		return r

	def m_set_difference(self, o, *its):
		r = o
		for it in its:
			r = self.set_op('-', r, self.as_set(it))
		return r

	def m_set_symmetric_difference(self, o, it):
		return self.set_op('^', o, self.as_set(it))

	def m_set_difference_update(self, o, *its):
		for it in its:
			self.iterate(self.to_list(it), lambda x: self.set_discard(o, x, False))

	def m_set_intersection_update(self, o, *its):
		for it in its:
			self.inplace_set('&', o, self.as_set(it))

	def m_set_issubset(self, o, other):
		return self.sbool(self.subset(o, self.as_set(other)))

	def m_set_issuperset(self, o, other):
		return self.sbool(self.subset(self.as_set(other), o))

	def m_set_isdisjoint(self, o, other):
		return self.sbool(self.truth(self.set_op('&', o, self.as_set(other))) ^ 1)

	def m_set_clear(self, o):
		for s in o.slots:
			s[0] = self.g.and_(s[0], self.store_guard(o) ^ 1)

	def m_set_pop(self, o):
		p = self._index_alts(o, 0)
		lit = self.g.or_list([l for l, _, _ in p])
		if not self.implied(lit):
			self.throw(KeyError, 'pop from an empty set', guard=lit ^ 1)
		r = self.mk([(l, s[1]) for l, s, _ in p])
		for l, s, _ in p:
			s[0] = self.g.and_(s[0], self.g.and_(self.pc, l) ^ 1)
		return r

	# ---- generators
	def m_gen_close(self, o):
		return None

	# ---- numbers
	def m_num_is_integer(self, o):
		return self.native_call(lambda x: float(x).is_integer(), [o], {})

	# ---- strings
	def _native_str(self, o, name, a, k):
		x = self.expand(o) if type(o) is SStr else o

		def one(s):
			if type(s) is not str:
				raise Unsupported('str.%s on symbolic characters' % name)
			return self.native_call(getattr(s, name), list(a), k)
		return self.each(x, one)

	def m_str_split(self, o, sep=None, maxsplit=-1):
		if type(o) is SStr and type(sep) is str and len(sep) == 1 and maxsplit == -1:
			return self.split_parts(o, sep)
		if type(o) is U and type(sep) is str and len(sep) == 1 and maxsplit == -1 and any(type(x) is not str for _, x in o.alts):
			return self.each(o, lambda x: self.m_str_split(x, sep))
		return self._native_str(o, 'split', (sep,) if maxsplit == -1 else (sep, maxsplit), {})

	def split_parts(self, o, sep):
		"""split at a character: one optional item for every occurrence that may be present"""
		g = self.g
		slots = []
		cur = []

		def cut(c):
			slots.append([c, self.mkstr([(l, p) for l, p in cur])])
			rest = [(g.and_(l, c ^ 1), p) for l, p in cur]
			cur[:] = [(l, p) for l, p in rest if l]
		for l, p in self.live_parts(o):
			if type(p) is str:
				pieces = p.split(sep)
				for k, x in enumerate(pieces):
					if k:
						cut(l)
					if x:
						cur.append((l, x))
			else:
				e = g.and_(l, self.char_eq(p, sep))
				if e:
					cut(e)
				m = g.and_(l, e ^ 1)
				if m:
					cur.append((m, p))
		slots.append([1, self.mkstr(cur)])
		return self.new_list_slots(slots)

	def m_str_join(self, o, it):
		return self.str_join(o, it)

	def m_str_replace(self, o, old, new, count=-1):
		return self.str_replace(o, old, new, count)

	def m_str_startswith(self, o, p, *a):
		if a:
			return self._native_str(o, 'startswith', (p,) + a, {})
		return self.str_startswith(o, p)

	def m_str_endswith(self, o, p, *a):
		if a:
			return self._native_str(o, 'endswith', (p,) + a, {})
		return self.str_startswith(o, p, True)

	def m_str_count(self, o, p, *a):
		if a:
			return self._native_str(o, 'count', (p,) + a, {})
		return self.each(p, lambda q: self.str_count(o, q))

	def m_str_format(self, o, *a, **k):
		return self.str_format(o, list(a), k)

	def m_str_translate(self, o, table):
		return self.str_translate(o, table)

	def m_str_encode(self, o, *a, **k):
		if type(o) is str:
			return o.encode(*a, **k)
		return NativeStrBytes(o)

	def m_str_lower(self, o):
		return self._case(o, 'lower')

	def m_str_upper(self, o):
		return self._case(o, 'upper')

	def _case(self, o, name):
		if type(o) is str:
			return getattr(o, name)()
		parts = []
		for l, p in self.parts_of(o):
			if type(p) is not str:
				raise Unsupported('%s of symbolic characters' % name)
			parts.append((l, getattr(p, name)()))
		return self.mkstr(parts)

	# ---------------------------------------------------------------- copy and pickle
	def b_copy_deepcopy(self, x, memo=None):
		return self.deepcopy(x, {}, 'copy')

	def deepcopy(self, x, memo, mode):
		t = type(x)
		if t in PRIMSET or t in (SStr, SNum, SBool, SChar, HashTok, NativeObj, RangeV, Cls, Module, Builtin) or isinstance(x, type):
			return x
		if t is Func:
			if mode == 'pickle' and (x.frame is not None or x.name == '<lambda>'):
				self.throw(AttributeError, "Can't pickle local object %s" % x.name)
			return x
		if t is Bound:
			return Bound(x.func, self.deepcopy(x.self, memo, mode))
		if t is U:
			return self.each(x, lambda y: self.deepcopy(y, memo, mode))
		if t is tuple:
			return tuple([self.deepcopy(y, memo, mode) for y in x])
		if t is Partial:
			return x
		if t not in (Obj, ListV, DictV, SetV):
			if mode == 'pickle':
				self.throw(TypeError, "cannot pickle '%s' object" % self.type_name(x))
			raise Unsupported('deepcopy of %r' % (x,))
		ent = memo.get(id(x))
		if ent is not None:
			have = self.g.or_list([l for l, _ in ent[1]])
			old = lambda: self.mk([(l, c) for l, c in ent[1]])
			if have == 1 or self.implied(have):
				return self.norm(old())
			return self.split(have, old, lambda: self._copy_new(x, memo, mode))
		return self._copy_new(x, memo, mode)

	def _copy_new(self, x, memo, mode):
		t = type(x)

		def remember(y):
			memo.setdefault(id(x), (x, []))[1].append((self.pc, y))
			return y
		if t is ListV:
			y = remember(self.new_list())
			self.iterate(self.list_copy(x), lambda v: self.list_append(y, self.deepcopy(v, memo, mode)))
			return y
		if t is DictV:
			y = remember(self.new_dict())
			y.default = x.default
			self.iterate(View(self.dict_copy(x), 'items'), lambda p: self.dict_set(y, self.deepcopy(self.each(p, lambda q: q[0]), memo, mode),
				self.deepcopy(self.each(p, lambda q: q[1]), memo, mode)))
			return y
		if t is SetV:
			y = remember(self.new_set(frozen=x.frozen))
			self.iterate(self.m_set_copy(x), lambda v: self.set_add(y, self.deepcopy(v, memo, mode)))
			return y
		for hook in ('__deepcopy__',) if mode == 'copy' else ():
			m = self.class_attr(x, hook)
			if m is not None:
				return remember(self.call(m, [self.new_dict()], {}))
		for hook in ('__reduce__', '__reduce_ex__', '__getnewargs__', '__getnewargs_ex__'):
			if x.cls.lookup(hook)[1] is not None:
				raise Unsupported('%s' % hook)
		y = remember(self.new_obj(x.cls))
		gs = self.class_attr(x, '__getstate__')
		if gs is not None:
			state = self.call(gs, [], {})
		else:
			state = self.getattr_special(x, '__dict__')
		state = self.deepcopy(state, memo, mode)
		ss = self.class_attr(y, '__setstate__')
		if ss is not None:
			# called only for a true state
			c = self.truth(state)
			self.under(c, lambda: self.call(self.class_attr(y, '__setstate__'), [state], {}))
		else:
			def put(p):
				k = self.each(p, lambda q: q[0])
				v = self.each(p, lambda q: q[1])
				self.each(k, lambda n: self.raw_setattr(y, n, v))
			self.each(state, lambda s: self.iterate(View(s, 'items'), put) if type(s) is DictV else None)
		return y

	def b_copy_copy(self, x):
		def one(v):
			t = type(v)
			if t is ListV:
				return self.list_copy(v)
			if t is DictV:
				return self.dict_copy(v)
			if t is SetV:
				return self.m_set_copy(v)
			if t is Obj:
				m = self.class_attr(v, '__copy__')
				if m is not None:
					return self.call(m, [], {})
				y = self.new_obj(v.cls)
				gs = self.class_attr(v, '__getstate__')
				state = self.call(gs, [], {}) if gs is not None else self.getattr_special(v, '__dict__')
				ss = self.class_attr(y, '__setstate__')
				if ss is not None:
					self.call(ss, [state], {})
				else:
					def put(p):
						k = self.each(p, lambda q: q[0])
						w = self.each(p, lambda q: q[1])
						self.each(k, lambda n: self.raw_setattr(y, n, w))
					self.iterate(View(state, 'items'), put)
				return y
			return v
		return self.each(x, one)

	def b_pickle_dumps(self, x, *a, **k):
		c = self.exc_classes.get('$pickled')
		if c is None:
			c = self.exc_classes['$pickled'] = Cls('bytes', [], {})
		o = self.new_obj(c)
		o.attrs['$content'] = self.deepcopy(x, {}, 'pickle')
		return o

	def b_pickle_loads(self, o):
		return self.each(o, lambda y: self.deepcopy(y.attrs['$content'], {}, 'pickle'))

	def b_dict_set_default_factory(self, d, f):
		d.default = f

	def b_memo_hash(self, x):
		"""injective token for the content of a string (used by the hashlib stub)"""
		if type(x) is tuple:
			return tuple([self.b_memo_hash(y) for y in x])
		return x.s if type(x) is NativeStrBytes else x


class NativeStrBytes:
	"""encoded symbolic string"""
	__slots__ = ('s',)

	def __init__(self, s):
		self.s = s


def _add_native_str():
	for n in ('strip', 'lstrip', 'rstrip', 'rsplit', 'splitlines', 'partition', 'rpartition', 'find', 'rfind', 'index', 'rindex', 'title',
			'capitalize', 'isdigit', 'isalpha', 'isspace', 'isalnum', 'isidentifier', 'isnumeric', 'isupper', 'islower', 'ljust', 'rjust', 'center', 'zfill', 'casefold',
			'expandtabs', 'removeprefix', 'removesuffix', 'swapcase', 'isdecimal', 'isprintable', 'isascii'):
		def m(self, o, *a, _n=n, **k):
			return self._native_str(o, _n, a, k)
		setattr(Builtins, 'm_str_' + n, m)


_add_native_str()
