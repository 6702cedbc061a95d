"""Operators and containers of the symbolic executor."""
import ast
import operator
import z3
from .values import *
from .core import Core, Dead, Unsupported, PRIMSET
from .aig import TRUE, FALSE

NUM = (int, float, bool)
OPS = {ast.Add: ('+', operator.add, '__add__', '__radd__', '__iadd__'), ast.Sub: ('-', operator.sub, '__sub__', '__rsub__', '__isub__'),
	ast.Mult: ('*', operator.mul, '__mul__', '__rmul__', '__imul__'), ast.Div: ('/', operator.truediv, '__truediv__', '__rtruediv__', '__itruediv__'),
	ast.FloorDiv: ('//', operator.floordiv, '__floordiv__', '__rfloordiv__', '__ifloordiv__'), ast.Mod: ('%', operator.mod, '__mod__', '__rmod__', '__imod__'),
	ast.Pow: ('**', operator.pow, '__pow__', '__rpow__', '__ipow__'), ast.BitOr: ('|', operator.or_, '__or__', '__ror__', '__ior__'),
	ast.BitAnd: ('&', operator.and_, '__and__', '__rand__', '__iand__'), ast.BitXor: ('^', operator.xor, '__xor__', '__rxor__', '__ixor__'),
	ast.LShift: ('<<', operator.lshift, '__lshift__', '__rlshift__', '__ilshift__'), ast.RShift: ('>>', operator.rshift, '__rshift__', '__rrshift__', '__irshift__'),
	ast.MatMult: ('@', operator.matmul, '__matmul__', '__rmatmul__', '__imatmul__')}
CMP = {'<': (operator.lt, '__lt__', '__gt__'), '>': (operator.gt, '__gt__', '__lt__'), '<=': (operator.le, '__le__', '__ge__'),
	'>=': (operator.ge, '__ge__', '__le__')}


def is_concrete(v):
	t = type(v)
	return t in PRIMSET or t is tuple and all(is_concrete(x) for x in v)


class Iter:
	"""a running iteration over a list or dict"""
	__slots__ = ('pos', 'debts', 'ins', 'dele')

	def __init__(self):
		self.pos = -1
		self.debts = []
		self.ins = 0
		self.dele = 0


class Ops(Core):
	# ---------------------------------------------------------------- truth, identity, equality
	def truth(self, v):
		t = type(v)
		if t is SBool:
			return v.lit
		if t in PRIMSET:
			return TRUE if v else FALSE
		if t is U:
			al = self.alts(v)
			if len(al) == 1:
				return self.truth(al[0][1])
			simple = [(l, x) for l, x in al if type(x) is not Obj]
			objs = [(l, x) for l, x in al if type(x) is Obj]
			r = self.g.or_list([self.g.and_(l, self.truth(x)) for l, x in simple])
			for l, x in objs:
				if self._plain_truth(x):
					r = self.g.or_(r, l)
				else:
					_, tl = self.under(l, lambda: self.truth(x))
					r = self.g.or_(r, self.g.and_(l, tl if tl is not None else 0))
			return r
		if t is ListV or t is DictV or t is SetV:
			return self.g.or_list([s[0] for s in v.slots])
		if t is View:
			return self.truth(v.d)
		if t is tuple:
			return TRUE if v else FALSE
		if t is SStr:
			return self.g.or_list([l for l, _ in v.parts])
		if t is SNum:
			return self.g.atom(v.e != 0)
		if t is RangeV:
			return TRUE if len(range(v.start, v.stop, v.step)) else FALSE
		if t is Obj:
			m, _ = v.cls.lookup('__bool__')
			if m is not None:
				return self.truth(self.call(m, [v], {}))
			m, _ = v.cls.lookup('__len__')
			if m is not None:
				return self.truth(self.call(m, [v], {}))
			return TRUE
		if t is HashTok:
			return TRUE
		if t is NativeObj:
			return TRUE if v.o else FALSE
		return TRUE

	def _plain_truth(self, x):
		return x.cls.lookup('__bool__')[1] is None and x.cls.lookup('__len__')[1] is None

	def is_(self, a, b):
		ta, tb = type(a), type(b)
		if ta is U or tb is U:
			r = 0
			for l, x in (a.alts if ta is U else ((TRUE, a),)):
				for m, y in (b.alts if tb is U else ((TRUE, b),)):
					e = self.is_(x, y)
					if e:
						r = self.g.or_(r, self.g.and_(e, self.g.and_(l, m)))
			return r
		if ta is SBool or tb is SBool:
			x = a.lit if ta is SBool else (int(a) if ta is bool else None)
			y = b.lit if tb is SBool else (int(b) if tb is bool else None)
			return FALSE if x is None or y is None else self.g.xnor(x, y)
		if ta in PRIMSET or tb in PRIMSET:
			if ta is not tb:
				return FALSE
			if ta in (bool, type(None)):
				return TRUE if a is b else FALSE
			if ta in (int, str, float):
				return TRUE if a == b else FALSE
			return TRUE if a is b else FALSE
		if ta is Bound and tb is Bound:
			return FALSE
		if ta is tuple and tb is tuple:
			return TRUE if a is b or not a and not b else FALSE
		if ta is NativeObj and tb is NativeObj:
			return TRUE if a.o is b.o else FALSE
		return TRUE if a is b else FALSE

	def eq(self, a, b):
		return self.truth(self.eq_value(a, b))

	def same(self, a, b):
		"""`a is b or a == b`, as containers compare"""
		i = self.is_(a, b)
		if i == 1 or self.implied(i):
			return TRUE
		if not self._user_eq(a) and not self._user_eq(b):
			return self.g.or_(i, self.eq(a, b))
		_, e = self.under(i ^ 1, lambda: self.eq(a, b))
		return self.g.or_(i, e if e is not None else 0)

	def _user_eq(self, v):
		t = type(v)
		if t is Obj:
			return v.cls.lookup('__eq__')[1] is not None
		if t is U:
			return any(self._user_eq(x) for _, x in v.alts)
		if t is tuple:
			return any(self._user_eq(x) for x in v)
		return t in (ListV, DictV, SetV)

	def methods(self, v, name):
		"""if all alternatives of v are objects sharing one user-defined method, that method"""
		if type(v) is Obj:
			return v.cls.lookup(name)[0]
		m = None
		for l, x in v.alts:
			if type(x) is not Obj:
				return None
			f = x.cls.lookup(name)[0]
			if f is None or m is not None and f is not m:
				return None
			m = f
		return m

	def eq_value(self, a, b):
		ta, tb = type(a), type(b)
		if ta in PRIMSET and tb in PRIMSET:
			return a == b
		if ta is U:
			a = self.norm(a)
			ta = type(a)
		if tb is U:
			b = self.norm(b)
			tb = type(b)
		if ta is Obj or ta is U:
			f = self.methods(a, '__eq__')
			if f is not None:
				return self._eq_user(f, a, b)
		if tb is U and ta is Obj:
			# identity comparison
			if not self._user_eq(b):
				return self.sbool(self.is_(a, b))
		if ta is U:
			if not self._user_eq(a) and not self._user_eq(b):
				return self.sbool(self._eq_union(a, b))
			return self.each(a, lambda x: self.eq_value(x, b))
		if tb is U:
			if not self._user_eq(a) and not self._user_eq(b):
				return self.sbool(self._eq_union(a, b))
			f = self.methods(b, '__eq__')
			if f is not None:
				return self._eq_user(f, b, a)
			return self.each(b, lambda y: self.eq_value(a, y))
		if tb is Obj:
			f = self.methods(b, '__eq__')
			if f is not None:
				return self._eq_user(f, b, a)
		return self.sbool(self._eq_basic(a, b))

	def _eq_user(self, f, a, b):
		r = self.call(f, [a, b], {})
		if r is NotImplemented or type(r) is U and any(x is NotImplemented for _, x in r.alts):
			def one(x):
				if x is not NotImplemented:
					return x
				f2 = self.methods(b, '__eq__') if type(b) in (U, Obj) else None
				if f2 is not None and f2 is not f:
					r2 = self.call(f2, [b, a], {})
					return self.each(r2, lambda y: self.sbool(self.is_(a, b)) if y is NotImplemented else y)
				return self.sbool(self.is_(a, b))
			return self.each(r, one)
		return r

	def _eq_union(self, a, b):
		"""equality literal of values without user-defined comparison"""
		g = self.g
		r = 0
		al = a.alts if type(a) is U else ((TRUE, a),)
		bl = b.alts if type(b) is U else ((TRUE, b),)
		for l, x in al:
			for m, y in bl:
				lm = g.and_(l, m)
				if lm == 0:
					continue
				e = self._eq_basic(x, y)
				if e:
					r = g.or_(r, g.and_(lm, e))
		return r

	def _eq_basic(self, a, b):
		ta, tb = type(a), type(b)
		if ta in PRIMSET and tb in PRIMSET:
			return TRUE if a == b else FALSE
		if ta is SBool or tb is SBool:
			if ta is SBool and tb is SBool:
				return self.g.xnor(a.lit, b.lit)
			x, y = (a, b) if ta is SBool else (b, a)
			if type(y) in NUM:
				return x.lit if y == 1 else x.lit ^ 1 if y == 0 else FALSE
			if type(y) is SNum:
				return self.g.ite(x.lit, self.g.atom(y.e == 1), self.g.atom(y.e == 0))
			return FALSE
		if ta is SNum or tb is SNum:
			x, y = self.znum(a), self.znum(b)
			if x is None or y is None:
				return FALSE
			x, y = self.znums(x, y)
			return self.g.atom(x == y)
		if (ta is SStr or ta is SChar or ta is str) and (tb is SStr or tb is SChar or tb is str):
			return self.str_eq(a, b)
		if ta is tuple and tb is tuple:
			if len(a) != len(b):
				return FALSE
			r = TRUE
			for x, y in zip(a, b):
				if r == 0:
					return 0
				r = self.g.and_(r, self.same(x, y))
			return r
		if ta is ListV and tb is ListV:
			if a is b:
				return TRUE
			return self.list_eq(a, b)
		if ta is DictV and tb is DictV:
			if a is b:
				return TRUE
			return self.dict_eq(a, b)
		if ta is View or tb is View:
			if (ta is View and a.kind != 'values' or ta is SetV) and (tb is View and b.kind != 'values' or tb is SetV):
				return self._eq_basic(self.as_set(a), self.as_set(b))
			return TRUE if a is b else FALSE
		if ta is SetV and tb is SetV:
			if a is b:
				return TRUE
			return self.g.and_(self.subset(a, b), self.subset(b, a))
		if ta is HashTok or tb is HashTok:
			return self.hash_eq(a, b)
		if ta is RangeV and tb is RangeV:
			return TRUE if range(a.start, a.stop, a.step) == range(b.start, b.stop, b.step) else FALSE
		if ta is Bound and tb is Bound:
			return self.g.and_(TRUE if a.func is b.func else FALSE, self.is_(a.self, b.self))
		if ta is NativeObj and tb is NativeObj:
			return TRUE if a.o == b.o else FALSE
		return TRUE if a is b else FALSE

	def ne_value(self, a, b):
		for x, y in ((a, b), (b, a)):
			if type(x) in (Obj, U):
				f = self.methods(self.norm(x), '__ne__') if type(self.norm(x)) in (Obj, U) else None
				if f is not None:
					return self.each(self.call(f, [x, y], {}), lambda r: self.sbool(self.eq(a, b) ^ 1) if r is NotImplemented else r)
		if type(a) is U and any(type(x) is Obj and x.cls.lookup('__ne__')[0] is not None for _, x in self.alts(a)):
			return self.each(a, lambda x: self.ne_value(x, b))
		return self.sbool(self.eq(a, b) ^ 1)

	def list_eq(self, a, b):
		p, q = self.positions(a), self.positions(b)
		g = self.g
		r = TRUE
		for i in range(max(len(p), len(q))):
			if i >= len(p):
				r = g.and_(r, q[i][0] ^ 1)
			elif i >= len(q):
				r = g.and_(r, p[i][0] ^ 1)
			else:
				r = g.and_(r, g.xnor(p[i][0], q[i][0]))
				both = g.and_(r, p[i][0])
				if both:
					ran, e = self.under(both, lambda: self.same(p[i][1], q[i][1]))
					if ran:
						r = g.and_(r, g.or_(p[i][0] ^ 1, e if e is not None else 0))
			if r == 0:
				return 0
		return r

	def dict_eq(self, a, b):
		g = self.g
		r = TRUE
		for x, y in ((a, b), (b, a)):
			for l, k, v in list(x.slots):
				if not self.feas(g.and_(self.pc, g.and_(l, r))):
					continue

				def one():
					found, val = self.dict_find(y, k)
					if found == 0:
						return 0
					if x is b:
						return found
					_, e = self.under(found, lambda: self.same(v, val()))
					return g.and_(found, e if e is not None else 0)
				_, e = self.under(g.and_(l, r), one)
				r = g.and_(r, g.or_(l ^ 1, e if e is not None else 0))
				if r == 0:
					return 0
		return r

	def subset(self, a, b):
		r = TRUE
		for l, k in list(a.slots):
			r = self.g.and_(r, self.g.or_(l ^ 1, self.contains(b, k)))
		return r

	# ---------------------------------------------------------------- order
	def order_value(self, op, a, b):
		ta, tb = type(a), type(b)
		if ta in NUM and tb in NUM or ta is str and tb is str:
			return CMP[op][0](a, b)
		if ta is U:
			a = self.norm(a)
			ta = type(a)
		if tb is U:
			b = self.norm(b)
			tb = type(b)
		if ta is Obj or ta is U:
			f = self.methods(a, CMP[op][1])
			if f is not None:
				return self._order_user(op, f, a, b)
		if ta is U:
			return self.each(a, lambda x: self.order_value(op, x, b))
		if tb is U:
			return self.each(b, lambda y: self.order_value(op, a, y))
		if tb is Obj:
			f = self.methods(b, CMP[op][2])
			if f is not None:
				return self.each(self.call(f, [b, a], {}), lambda r: self.throw(TypeError, 'not orderable') if r is NotImplemented else r)
		return self.sbool(self.order_lit(op, a, b))

	def _order_user(self, op, f, a, b):
		def one(r):
			if r is not NotImplemented:
				return r
			if type(b) in (Obj, U):
				f2 = self.methods(b, CMP[op][2])
				if f2 is not None:
					return self.each(self.call(f2, [b, a], {}), lambda s: self.throw(TypeError, 'not orderable') if s is NotImplemented else s)
			self.throw(TypeError, "'%s' not supported between instances" % op)
		return self.each(self.call(f, [a, b], {}), one)

	def order_lit(self, op, a, b):
		ta, tb = type(a), type(b)
		if ta in NUM and tb in NUM or ta is str and tb is str:
			return TRUE if CMP[op][0](a, b) else FALSE
		if ta is SBool or tb is SBool:
			return self.truth(self.each2(a, b, lambda x, y: self.order_value(op, x, y), split_bool=True))
		x, y = self.znum(a), self.znum(b)
		if x is not None and y is not None:
			x, y = self.znums(x, y)
			return self.g.atom({'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op])
		if ta in (str, SStr, SChar) and tb in (str, SStr, SChar):
			return self.str_order(op, a, b)
		if ta is tuple and tb is tuple or ta is ListV and tb is ListV:
			p, q = self.positions(a), self.positions(b)
			g = self.g
			strict = op[0]
			r, tie = 0, TRUE
			for i in range(max(len(p), len(q))):
				pl = p[i][0] if i < len(p) else 0
				ql = q[i][0] if i < len(q) else 0
				# one of them ends here
				if strict == '<':
					r = g.or_(r, g.and_list([tie, pl ^ 1, ql]))
				else:
					r = g.or_(r, g.and_list([tie, pl, ql ^ 1]))
				both = g.and_list([tie, pl, ql])
				if both == 0 or not self.feas(g.and_(self.pc, both)):
					tie = g.and_list([tie, pl ^ 1, ql ^ 1])
					continue
				x, y = p[i][1], q[i][1]
				_, e = self.under(both, lambda: self.same(x, y))
				e = e or 0
				_, o = self.under(g.and_(both, e ^ 1), lambda: self.truth(self.order_value(strict, x, y)))
				r = g.or_(r, g.and_list([both, e ^ 1, o or 0]))
				tie = g.or_(g.and_list([tie, pl ^ 1, ql ^ 1]), g.and_(both, e))
			return g.or_(r, tie) if op.endswith('=') else r
		if ta in (SetV, View) and tb in (SetV, View):
			x, y = self.as_set(a), self.as_set(b)
			if op[0] == '>':
				x, y = y, x
			r = self.subset(x, y)
			return r if op.endswith('=') else self.g.and_(r, self.subset(y, x) ^ 1)
		if ta is NativeObj or tb is NativeObj:
			raise Unsupported('order of native objects')
		self.throw(TypeError, "'%s' not supported between instances of '%s' and '%s'" % (op, self.type_name(a), self.type_name(b)))

	def znum(self, v):
		t = type(v)
		if t is SNum:
			return v.e
		if t is bool:
			return z3.IntVal(int(v))
		if t is int:
			return z3.IntVal(v)
		if t is float:
			if v != v or v in (float('inf'), float('-inf')):
				return None
			n, d = v.as_integer_ratio()
			return z3.RealVal('%d/%d' % (n, d))
		return None

	def znums(self, x, y):
		if x.is_int() != y.is_int():
			return (z3.ToReal(x) if x.is_int() else x), (z3.ToReal(y) if y.is_int() else y)
		return x, y

	# ---------------------------------------------------------------- arithmetic and concatenation
	def binop(self, op, a, b, inplace=False):
		sym, fn, dun, rdun, idun = OPS[type(op)]
		ta, tb = type(a), type(b)
		if ta in NUM and tb in NUM:
			return self.prim_op(sym, fn, a, b)
		if ta is U:
			a = self.norm(a)
			ta = type(a)
		if tb is U:
			b = self.norm(b)
			tb = type(b)
		if sym == '+' and self.strlike(a) and self.strlike(b):
			return self.str_concat([a, b])
		if sym == '%' and self.strlike(a):
			return self.str_percent(a, b)
		if ta is ListV and inplace and sym == '+':
			self.list_extend(a, b)
			return a
		if inplace and ta in (DictV, SetV) and sym in '|&-^':
			return self.inplace_set(sym, a, b)
		if ta is Obj or ta is U:
			for nm in ((idun, dun) if inplace else (dun,)):
				f = self.methods(a, nm)
				if f is not None:
					r = self.call(f, [a, b], {})
					if r is NotImplemented:
						break
					return r
		if ta is U:
			return self.each(a, lambda x: self.binop(op, x, b, inplace))
		if tb is U:
			return self.each(b, lambda y: self.binop(op, a, y, inplace))
		if tb is Obj:
			f = self.methods(b, rdun)
			if f is not None:
				return self.call(f, [b, a], {})
		return self.binop1(sym, fn, a, b)

	def prim_op(self, sym, fn, a, b):
		try:
			return fn(a, b)
		except ZeroDivisionError as e:
			self.throw(ZeroDivisionError, str(e))
		except (TypeError, ValueError, OverflowError) as e:
			self.throw(type(e), str(e))

	def binop1(self, sym, fn, a, b):
		ta, tb = type(a), type(b)
		if ta is SBool or tb is SBool:
			if sym in '&|^' and (ta in (SBool, bool)) and (tb in (SBool, bool)):
				x, y = self.truth(a), self.truth(b)
				return self.sbool(self.g.and_(x, y) if sym == '&' else self.g.or_(x, y) if sym == '|' else self.g.xnor(x, y) ^ 1)
			return self.each2(a, b, lambda x, y: self.binop1(sym, fn, x, y), split_bool=True)
		if ta in PRIMSET and tb in PRIMSET:
			return self.prim_op(sym, fn, a, b)
		if ta is SNum or tb is SNum:
			x, y = self.znum(a), self.znum(b)
			if x is not None and y is not None:
				return self.num_op(sym, a, b, x, y)
			if sym == '*' and (self.strlike(a) or self.strlike(b) or ta in (ListV, tuple) or tb in (ListV, tuple)):
				raise Unsupported('repetition by a symbolic number')
		if sym == '+':
			if ta is ListV and tb is ListV:
				return self.list_concat(a, b)
			if ta is tuple and tb is tuple:
				return a + b
		if sym == '*':
			if ta in (int, bool) and tb in (ListV, tuple, SStr, SChar):
				a, b, ta, tb = b, a, tb, ta
			if tb in (int, bool):
				if ta is tuple:
					return a * b
				if ta is ListV:
					r = self.new_list_slots([])
					for _ in range(b):
						for l, v in a.slots:
							r.slots.append([l, v])
					return r
				if ta is SStr or ta is SChar:
					return self.str_concat([a] * b) if b > 0 else ''
		if sym == '|' and ta is DictV and tb is DictV:
			d = self.dict_copy(a)
			self.dict_update(d, b)
			return d
		if sym in '|&-^' and ta in (SetV, View) and tb in (SetV, View):
			return self.set_op(sym, self.as_set(a), self.as_set(b))
		if isinstance(a, type) and sym == '|':
			return a
		if ta is NativeObj or tb is NativeObj:
			if (ta is NativeObj or ta in PRIMSET) and (tb is NativeObj or tb in PRIMSET):
				return self.native_call(fn, [a, b], {})
		self.throw(TypeError, "unsupported operand type(s) for %s: '%s' and '%s'" % (sym, self.type_name(a), self.type_name(b)))

	def num_op(self, sym, a, b, x, y):
		isreal = not (x.is_int() and y.is_int())
		if sym in '+-*':
			x, y = self.znums(x, y)
			e = x + y if sym == '+' else x - y if sym == '-' else x * y
			return SNum(z3.simplify(e), isreal)
		if sym in ('/', '//', '%'):
			zero = self.g.atom(y == 0)
			if self.feas(self.g.and_(self.pc, zero)):
				self.throw(ZeroDivisionError, 'division by zero', guard=zero)
			if sym == '/':
				x = z3.ToReal(x) if x.is_int() else x
				y = z3.ToReal(y) if y.is_int() else y
				return SNum(z3.simplify(x / y), True)
			if not isreal and type(b) is int and b > 0:
				return SNum(z3.simplify(x / y if sym == '//' else x % y), False)
		raise Unsupported('arithmetic %s on symbolic numbers' % sym)

	# ---------------------------------------------------------------- lists
	def disjoint(self, a, b):
		x = self.g.and_(a, b)
		return x == 0 or not self.g.signature(x) and not self.feas(x)

	def list_append(self, l, v):
		g = self.store_guard(l)
		if l.iters == 'snapshot':
			raise Unsupported('list changed while iterated through a union')
		slots = l.slots
		j = len(slots)
		low = 0
		if l.iters:
			low = max(it.pos for it in l.iters) + 1
		if g == 1:
			slots.append([g, v])
			return
		while j > low and self.disjoint(slots[j - 1][0], g):
			j -= 1
		if j == len(slots):
			slots.append([g, v])
		else:
			s = slots[j]
			s[1] = self.mk([(s[0], s[1]), (g, v)])
			s[0] = self.g.or_(s[0], g)

	def list_extend(self, l, src):
		if type(src) is ListV and src is l:
			src = self.list_copy(src)
		elif type(src) is U and any(x is l for _, x in src.alts):
			src = self.mk([(g, self.list_copy(x) if x is l else x) for g, x in src.alts])
		self.iterate(src, lambda v: self.list_append(l, v))

	def list_copy(self, l):
		return self.new_list_slots([[a, b] for a, b in l.slots])

	def list_concat(self, a, b):
		return self.new_list_slots([[x, y] for x, y in a.slots] + [[x, y] for x, y in b.slots])

	def live(self, slots):
		"""slots with guards simplified under the path guard: definite ones become TRUE, impossible ones vanish"""
		r = []
		for s in slots:
			l = s[0]
			if l != 1:
				if not self.feas(self.g.and_(self.pc, l)):
					continue
				if self.implied(l):
					l = 1
			r.append((l,) + tuple(s[1:]))
		return r

	def seq_slots(self, v):
		t = type(v)
		if t is ListV:
			return self.live(v.slots)
		if t is tuple:
			return [(TRUE, x) for x in v]
		if t is str:
			return [(TRUE, c) for c in v]
		if t is RangeV:
			return [(TRUE, i) for i in range(v.start, v.stop, v.step)]
		if t is DictV:
			return [(s[0], s[1]) for s in self.live(v.slots)]
		if t is SetV:
			return self.live(v.slots)
		if t is View:
			f = {'keys': lambda s: s[1], 'values': lambda s: s[2], 'items': lambda s: (s[1], s[2])}[v.kind]
			return [(s[0], f(s)) for s in self.live(v.d.slots)]
		l = self.to_list(v)
		return self.live(l.slots)

	def to_list(self, v):
		l = self.new_list()
		self.iterate(v, lambda x: self.list_append(l, x))
		return l

	def positions(self, v):
		"""[(guard, value)] by position: guard k holds iff the sequence has more than k elements"""
		sl = self.seq_slots(v)
		if all(s[0] == 1 for s in sl):
			return sl
		g = self.g
		# already prefix closed?
		ok = True
		for i in range(1, len(sl)):
			if sl[i - 1][0] != 1 and (sl[i][0] == 1 or g.and_(sl[i][0], sl[i - 1][0] ^ 1) != 0):
				ok = False
				break
		if ok:
			return sl
		cnt = [1]
		pos = []
		for l, x in sl:
			n = len(cnt)
			for j in range(n):
				c = g.and_(cnt[j], l)
				if c and self.feas(g.and_(self.pc, c)):
					while len(pos) <= j:
						pos.append([])
					pos[j].append((c, x))
			cnt.append(0)
			for j in range(n, -1, -1):
				up = g.and_(cnt[j - 1], l) if j else 0
				cnt[j] = g.or_(up, g.and_(cnt[j], l ^ 1))
			while cnt and (cnt[-1] == 0 or not self.feas(g.and_(self.pc, cnt[-1]))):
				cnt.pop()
		out = []
		for p in pos:
			if not p:
				break
			lit = g.or_list([c for c, _ in p])
			out.append((1 if self.implied(lit) else lit, self.mk(p)))
		return out

	def length(self, v):
		t = type(v)
		if t in (str, tuple, bytes):
			return len(v)
		if t is U:
			return self.each(v, self.length)
		if t in (ListV, DictV, SetV, View):
			sl = v.d.slots if t is View else v.slots
			return self.count_lits([s[0] for s in self.live(sl)])
		if t is RangeV:
			return len(range(v.start, v.stop, v.step))
		if t is SStr:
			return self.str_len(v)
		if t is SChar:
			return 1
		if t is Obj:
			m = self.class_attr(v, '__len__')
			if m is not None:
				return self.call(m, [], {})
		if t is NativeObj:
			return self.native_call(len, [v], {})
		self.throw(TypeError, "object of type '%s' has no len()" % self.type_name(v))

	def count_lits(self, lits, weights=None):
		g = self.g
		base = 0
		cnt = {0: 1}
		for i, l in enumerate(lits):
			w = 1 if weights is None else weights[i]
			if l == 1:
				base += w
				continue
			new = {}
			for n, c in cnt.items():
				a, b = g.and_(c, l), g.and_(c, l ^ 1)
				if a and self.feas(g.and_(self.pc, a)):
					new[n + w] = g.or_(new.get(n + w, 0), a)
				if b and self.feas(g.and_(self.pc, b)):
					new[n] = g.or_(new.get(n, 0), b)
			cnt = new
		if len(cnt) == 1:
			return base + next(iter(cnt))
		return self.mk([(c, base + n) for n, c in sorted(cnt.items())])

	def seq_tuple(self, v):
		t = type(v)
		if t is tuple:
			return v
		if t is U:
			return self.each(v, self.seq_tuple)
		if t is SStr:
			return self.each(self.expand(v), self.seq_tuple)
		if t is SChar:
			return (v,)
		if t in PRIMSET and t is not str or t is SNum or t is SBool:
			self.throw(TypeError, "'%s' object is not iterable" % self.type_name(v))
		p = self.positions(v)
		vals = tuple([x for _, x in p])
		if all(l == 1 for l, _ in p):
			return vals
		g = self.g
		alts = []
		for n in range(len(p) + 1):
			lo = p[n - 1][0] if n else 1
			hi = p[n][0] if n < len(p) else 0
			c = g.and_(lo, hi ^ 1)
			if c and self.feas(g.and_(self.pc, c)):
				alts.append((c, vals[:n]))
		return self.mk(alts)

	def list_find(self, l, v, cb, what):
		"""cb(slot index, guard) for the first slot equal to v on each path; the guard where none is found is returned"""
		g = self.g
		left = self.pc
		for i, s in enumerate(list(l.slots)):
			p = g.and_(left, s[0])
			if not self.feas(p):
				continue
			save = self.pc
			self.pc = p
			try:
				e = self.same(s[1], v)
				end = self.pc
			except Dead:
				e, end = 0, 0
			hit = g.and_(end, e)
			rest = g.and_(left, s[0] ^ 1)
			left = g.or_(rest, g.and_(end, e ^ 1))
			if end != p:
				self.pc = self.join(save, [end, g.and_(save, p ^ 1)])
			else:
				self.pc = save
			if hit and self.feas(hit):
				cb(i, hit)
		return left

	def list_remove(self, l, v):
		if l.iters == 'snapshot':
			raise Unsupported('list changed while iterated through a union')
		hits = []
		left = self.list_find(l, v, lambda i, h: hits.append((i, h)), 'remove')
		self._delete_hits(l, hits)
		if self.feas(left):
			self.throw(ValueError, 'list.remove(x): x not in list', guard=left)

	def _delete_hits(self, l, hits):
		g = self.g
		for i, h in hits:
			l.slots[i][0] = g.and_(l.slots[i][0], h ^ 1)
			if l.iters:
				for it in l.iters:
					if i <= it.pos:
						it.debts.append(h)
		if not l.iters:
			l.slots[:] = [s for s in l.slots if s[0] != 0 and self.feas(g.and_(l.birth, s[0]))]

	def seq_contains(self, c, v):
		g = self.g
		if type(c) is not ListV:
			slots = [[a, b] for a, b in self.seq_slots(c)]
		else:
			slots = c.slots
		found = 0
		simple = not self._user_eq(v)
		for s in list(slots):
			l = g.and_(s[0], found ^ 1)
			if l == 0 or not self.feas(g.and_(self.pc, l)):
				continue
			if simple and not self._user_eq(s[1]):
				found = g.or_(found, g.and_(s[0], self.same(s[1], v)))
				if found == 1:
					return 1
				continue
			ran, e = self.under(l, lambda: self.same(s[1], v))
			if ran and e:
				found = g.or_(found, g.and_(l, e))
		return found

	def contains(self, c, v):
		t = type(c)
		if t is U:
			al = self.alts(c)
			if len(al) == 1:
				return self.contains(al[0][1], v)
			return self.truth(self.each(U(tuple(al)), lambda x: self.sbool(self.contains(x, v))))
		if t in (ListV, tuple):
			return self.seq_contains(c, v)
		if t is DictV:
			return self.dict_find(c, v)[0]
		if t is SetV:
			return self.set_find(c, v)
		if t is View:
			if c.kind == 'keys':
				return self.dict_find(c.d, v)[0]
			if c.kind == 'values':
				return self.seq_contains(self.new_list_slots([[s[0], s[2]] for s in c.d.slots]), v)
			return self.seq_contains(self.new_list_slots([[s[0], (s[1], s[2])] for s in c.d.slots]), v)
		if t in (str, SStr, SChar):
			return self.truth(self.each(v, lambda x: self.str_contains(c, x)))
		if t is RangeV:
			return self.truth(self.each(v, lambda x: self.range_contains(c, x)))
		if t is Obj:
			m = self.class_attr(c, '__contains__')
			if m is not None:
				return self.truth(self.call(m, [v], {}))
			m = self.class_attr(c, '__iter__')
			if m is not None:
				return self.seq_contains(self.to_list(c), v)
		if t is LazyIter:
			return self.seq_contains(self.to_list(c), v)
		if t is NativeObj:
			return self.truth(self.native_call(lambda a, b: b in a, [c, v], {}))
		self.throw(TypeError, "argument of type '%s' is not iterable" % self.type_name(c))

	def range_contains(self, r, x):
		if type(x) in NUM:
			return x in range(r.start, r.stop, r.step)
		if type(x) is SNum:
			return self.sbool(self.g.or_list([self.g.atom(x.e == i) for i in range(r.start, r.stop, r.step)]))
		return False

	# ---------------------------------------------------------------- hashing, dicts and sets
	def hash_of(self, v):
		t = type(v)
		if t is tuple:
			if is_concrete(v):
				return hash(v)
			for x in v:
				self.check_hashable(x)
			return HashTok(v)
		if t in PRIMSET:
			return hash(v)
		if t is U:
			return self.each(v, self.hash_of)
		if t is Obj:
			for c in v.cls.mro:
				if '__hash__' in c.ns:
					if c.ns['__hash__'] is None:
						self.throw(TypeError, "unhashable type: '%s'" % v.cls.name)
					return self.call(c.ns['__hash__'], [v], {})
				if '__eq__' in c.ns:
					self.throw(TypeError, "unhashable type: '%s'" % v.cls.name)
			return self.default_hash(v)
		if t in (ListV, DictV) or t is SetV and not v.frozen:
			self.throw(TypeError, "unhashable type: '%s'" % self.type_name(v))
		if t in (SStr, SNum, SBool, SChar, SetV):
			return HashTok(v)
		if t is HashTok:
			return v
		if t is NativeObj:
			return hash(v.o)
		return id(v) & 0xffffffff

	def check_hashable(self, x):
		if type(x) in PRIMSET:
			return
		if type(x) is U:
			self.each(x, self.check_hashable)
		else:
			self.hash_of(x)

	def default_hash(self, o):
		return 1000003 + 16 * o.serial

	def hash_eq(self, a, b):
		ta, tb = type(a), type(b)
		if ta is U or tb is U:
			return self.truth(self.each2(a, b, lambda x, y: self.sbool(self.hash_eq(x, y))))
		if ta is HashTok and tb is HashTok:
			return self._eq_union(a.v, b.v) if not self._user_eq(a.v) else self.eq(a.v, b.v)
		if ta is HashTok or tb is HashTok:
			x, y = (a, b) if ta is HashTok else (b, a)
			if type(x.v) in (SNum,):
				return self._eq_basic(x.v, y)
			if type(x.v) is SBool:
				return self._eq_basic(x.v, y)
			# a concrete string hashes to an int: compare through the concrete candidates
			if type(x.v) in (SStr, SChar):
				h = self._str_of_hash.get(y)
				return self.str_eq(x.v, h) if h is not None else FALSE
			return FALSE
		return TRUE if a == b else FALSE

	def plain_key(self, k):
		return is_concrete(k)

	def norm_key(self, k):
		"""tuples with union components become unions of tuples"""
		t = type(k)
		if t is U:
			k = self.norm(k)
			if type(k) is not U:
				return self.norm_key(k)
			if any(type(x) is tuple and not is_concrete(x) for _, x in k.alts):
				return self.each(k, self.norm_key)
			return k
		if t is tuple and not is_concrete(k):
			if any(type(x) in (U, SBool) or type(x) is tuple for x in k):
				return self.each_n([self.norm_key(x) if type(x) is tuple else x for x in k], tuple, True)
		return k

	def key_eq(self, a, b):
		if not self._user_eq(a) and not self._user_eq(b):
			return self._eq_union(a, b) if type(a) is U or type(b) is U else self._eq_basic(a, b)
		i = self.is_(a, b)
		if i == 1:
			return 1

		def cmp():
			h = self.hash_eq(self.hash_of(a), self.hash_of(b))
			if h == 0:
				return 0
			_, e = self.under(h, lambda: self.eq(a, b))
			return self.g.and_(h, e or 0)
		_, e = self.under(i ^ 1, cmp)
		return self.g.or_(i, e or 0)

	def matches(self, slots, k, d):
		"""[(slot, guard under which the key is this slot's key and the slot is present)]"""
		out = []
		if not d.odd and is_concrete(k):
			for s in d.index.get(k, ()) if d.index else ():
				if s[0]:
					out.append((s, s[0]))
			return out
		for s in list(slots):
			if s[0] == 0 or not self.feas(self.g.and_(self.pc, s[0])):
				continue
			_, e = self.under(s[0], lambda: self.key_eq(s[1], k))
			if e:
				m = self.g.and_(s[0], e)
				if m:
					out.append((s, m))
		return out

	def reindex(self, d):
		d.index = {}
		d.odd = False
		for s in d.slots:
			if is_concrete(s[1]):
				d.index.setdefault(s[1], []).append(s)
			else:
				d.odd = True

	def dict_find(self, d, k):
		"""(literal: key present, thunk for the value where present)"""
		self.check_hashable(k)
		k = self.norm_key(k)
		g = self.g
		if type(k) is U and (not d.odd and all(is_concrete(x) for _, x in k.alts)):
			ms = []
			for l, x in self.alts(k):
				for s, m in self.matches(d.slots, x, d):
					c = g.and_(l, m)
					if c:
						ms.append((s, c))
		elif type(k) is U:
			if not self._user_eq(k) and not any(self._user_eq(s[1]) for s in d.slots):
				ms = self.matches(d.slots, k, d) if d.odd else self._matches_scan(d, k)
			else:
				ms = self._matches_scan(d, k)
		else:
			ms = self.matches(d.slots, k, d)
		found = g.or_list([m for _, m in ms])
		return found, lambda: self.mk([(m, s[2]) for s, m in ms])

	def _matches_scan(self, d, k):
		out = []
		for s in list(d.slots):
			if s[0] == 0 or not self.feas(self.g.and_(self.pc, s[0])):
				continue
			_, e = self.under(s[0], lambda: self.key_eq(s[1], k))
			if e:
				m = self.g.and_(s[0], e)
				if m:
					out.append((s, m))
		return out

	def dict_get(self, d, k, default=None):
		found, val = self.dict_find(d, k)
		if found == 0:
			return default() if callable(default) else default
		return self.split(found, val, default if callable(default) else (lambda: default))

	def dict_set(self, d, k, v):
		self.check_hashable(k)
		k = self.norm_key(k)
		if type(k) is U:
			for l, x in self.alts(k):
				self.under(l, lambda: self._dict_set1(d, x, v))
		else:
			self._dict_set1(d, k, v)

	def _dict_set1(self, d, k, v):
		g = self.g
		if d.owner is not None:
			if type(k) is not str:
				raise Unsupported('key of __dict__ that is not a definite string')
			self.raw_setattr(d.owner, k, v)
		if d.index is None:
			self.reindex(d)
		ms = self.matches(d.slots, k, d)
		left = self.pc
		for s, m in ms:
			p = g.and_(self.pc, m)
			if not self.feas(p):
				continue
			save = self.pc
			self.pc = p
			s[2] = self.write(s[0], s[2], v)
			self.pc = save
			left = g.and_(left, m ^ 1)
		if ms and not self.feas(left):
			return
		sg = left if ms else self.store_guard(d)
		s = [sg, k, v]
		# reuse the place of an earlier slot of the same key if that keeps the order
		if is_concrete(k) and not d.changed:
			for o in d.index.get(k, ()):
				i = next(i for i, x in enumerate(d.slots) if x is o)
				if all(self.disjoint(x[0], sg) for x in d.slots[i:]):
					o[2] = self.mk([(o[0], o[2]), (sg, v)])
					o[0] = g.or_(o[0], sg)
					return
		d.slots.append(s)
		if is_concrete(k):
			d.index.setdefault(k, []).append(s)
		else:
			d.odd = True
		if d.changed:
			for it in d.changed:
				it.ins = g.or_(it.ins, left)

	def dict_del(self, d, k):
		"""removes the key; returns (found literal, value thunk snapshot)"""
		self.check_hashable(k)
		k = self.norm_key(k)
		if d.index is None:
			self.reindex(d)
		g = self.g
		if d.owner is not None:
			if type(k) is not str:
				raise Unsupported('key of __dict__ that is not a definite string')
			self.raw_setattr(d.owner, k, ABSENT)
		ms = []
		if type(k) is U:
			for l, x in self.alts(k):
				_, r = self.under(l, lambda: self.matches(d.slots, x, d))
				ms += [(s, g.and_(m, l)) for s, m in (r or ())]
		else:
			ms = self.matches(d.slots, k, d)
		vals = []
		for s, m in ms:
			p = g.and_(self.pc, m)
			if not self.feas(p):
				continue
			vals.append((m, s[2]))
			s[0] = g.and_(s[0], p ^ 1)
			if d.changed:
				for it in d.changed:
					it.dele = g.or_(it.dele, p)
		found = g.or_list([m for m, _ in vals])
		self.dict_purge(d)
		return found, vals

	def dict_purge(self, d):
		if d.changed:
			return
		keep = [s for s in d.slots if s[0] != 0 and (s[0] == 1 or self.feas(self.g.and_(d.birth, s[0])))]
		if len(keep) != len(d.slots):
			d.slots[:] = keep
			self.reindex(d)

	def dict_update(self, d, src):
		def pair(p):
			t = self.each(p, self.seq_tuple)
			self.dict_set(d, self.each(t, lambda x: x[0]), self.each(t, lambda x: x[1]))
		t = type(src)
		if t is DictV:
			self.iterate(View(src, 'items'), pair)
		elif t is U:
			self.each(src, lambda x: self.dict_update(d, x))
		elif t is Obj and src.cls.lookup('keys')[0] is not None:
			self.iterate(self.call(self.getattr(src, 'keys'), [], {}), lambda k: self.dict_set(d, k, self.getitem(src, k)))
		elif t in (ListV, tuple, LazyIter, View):
			self.iterate(src, pair)
		elif t is Obj and src.cls.lookup('__iter__')[0] is not None:
			self.iterate(src, pair)
		else:
			self.throw(TypeError, "'%s' object is not iterable" % self.type_name(src))

	def dict_copy(self, d):
		n = DictV([[l, k, v] for l, k, v in d.slots], *self._heap())
		n.default = d.default
		self.reindex(n)
		return n

	def dict_variants(self, d):
		"""U of tuples of (key, value) pairs"""
		if type(d) is U:
			return self.each(d, self.dict_variants)
		if type(d) is Obj:
			n = self.new_dict()
			self.dict_update(n, d)
			d = n
		if type(d) is not DictV:
			self.throw(TypeError, 'argument after ** must be a mapping, not %s' % self.type_name(d))
		sl = self.live(d.slots)
		fixed = all(s[0] == 1 and not isinstance(s[1], U) for s in sl)
		if fixed:
			return tuple([(k, v) for _, k, v in sl])

		def go(i, acc):
			if i == len(sl):
				return tuple(acc)
			l, k, v = sl[i]
			return self.split(l, lambda: self.each(k, lambda kk: go(i + 1, acc + [(kk, v)])), lambda: go(i + 1, acc))
		return go(0, [])

	def set_find(self, s, v):
		self.check_hashable(v)
		v = self.norm_key(v)
		found = 0
		g = self.g
		for sl in list(s.slots):
			if g.and_(sl[0], found ^ 1) == 0:
				continue
			ran, e = self.under(sl[0], lambda: self.key_eq(sl[1], v))
			if ran and e:
				found = g.or_(found, g.and_(sl[0], e))
		return found

	def set_add(self, s, v):
		self.check_hashable(v)
		v = self.norm_key(v)
		if type(v) is U:
			for l, x in self.alts(v):
				self.under(l, lambda: self._set_add1(s, x))
		else:
			self._set_add1(s, v)

	def _set_add1(self, s, v):
		g = self.g
		f = self.set_find(s, v)
		if f == 1 or self.implied(f):
			return
		lit = self.store_guard(s) if f == 0 else g.and_(self.pc, f ^ 1)
		if s.changed:
			for it in s.changed:
				it.ins = g.or_(it.ins, g.and_(self.pc, f ^ 1))
		elif is_concrete(v):
			for o in s.slots:
				if is_concrete(o[1]) and o[1] == v:
					o[0] = g.or_(o[0], lit)
					return
		s.slots.append([lit, v])

	def set_discard(self, s, v, must):
		self.check_hashable(v)
		v = self.norm_key(v)
		g = self.g
		found = 0
		for sl in list(s.slots):
			ran, e = self.under(sl[0], lambda: self.key_eq(sl[1], v))
			if ran and e:
				m = g.and_(sl[0], e)
				p = g.and_(self.pc, m)
				found = g.or_(found, m)
				sl[0] = g.and_(sl[0], p ^ 1)
				if s.changed:
					for it in s.changed:
						it.dele = g.or_(it.dele, p)
		if must and not self.implied(found):
			self.throw(KeyError, v, guard=found ^ 1)
		if not s.changed:
			s.slots[:] = [x for x in s.slots if x[0] != 0]

	def as_set(self, v):
		if type(v) is SetV:
			return v
		s = self.new_set()
		self.iterate(v, lambda x: self.set_add(s, x))
		return s

	def set_op(self, sym, a, b):
		r = self.new_set(frozen=a.frozen)
		if sym in '|':
			for src in (a, b):
				self.iterate(src, lambda x: self.set_add(r, x))
		else:
			def other(src, dst, want):
				def one(x):
					f = self.contains(dst, x)
					self.under(f if want else f ^ 1, lambda: self.set_add(r, x))
				self.iterate(src, one)
			other(a, b, sym == '&')
			if sym == '^':
				other(b, a, False)
		return r

	def inplace_set(self, sym, a, b):
		if type(a) is DictV:
			self.dict_update(a, b)
			return a
		b = self.as_set(b) if type(b) is not U else self.each(b, self.as_set)
		if sym == '|':
			self.iterate(b, lambda x: self.set_add(a, x))
		elif sym == '-':
			self.iterate(self.to_list(b), lambda x: self.set_discard(a, x, False))
		else:
			r = self.set_op(sym, a, b)
			for x in list(self.live(a.slots)):
				self.under(x[0], lambda: self.set_discard(a, x[1], False))
			self.iterate(r, lambda x: self.set_add(a, x))
		return a

	# ---------------------------------------------------------------- items
	def getitem(self, o, k):
		t = type(o)
		if t is U:
			al = self.alts(o)
			if len(al) == 1:
				return self.getitem(al[0][1], k)
			if all(type(x) is Obj for _, x in al):
				f = self.methods(U(tuple(al)), '__getitem__')
				if f is not None:
					return self.call(f, [o, k], {})
			return self.each(U(tuple(al)), lambda x: self.getitem(x, k))
		if t is DictV:
			return self.dict_getitem(o, k)
		if t is Obj:
			m = self.class_attr(o, '__getitem__')
			if m is None:
				self.throw(TypeError, "'%s' object is not subscriptable" % o.cls.name)
			if type(k) is tuple and k and k[0] == '$slice':
				k = self.native_slice(k)
			return self.call(m, [k], {})
		if t is SChar:
			o = SStr(((1, o),))
			t = SStr
		if t in (ListV, tuple, str, SStr, RangeV, View):
			if t is View:
				self.throw(TypeError, "view is not subscriptable")
			if type(k) is NativeObj and isinstance(k.o, slice):
				k = ('$slice', k.o.start, k.o.stop, k.o.step)
			if type(k) is tuple and k and k[0] == '$slice':
				return self.each_n(list(k[1:]), lambda a: self.getslice(o, *a), True)
			return self.each(k, lambda i: self.getindex(o, i), True)
		if t is NativeObj:
			if getattr(o.o, '__module__', '') in ('typing', 'collections.abc') or isinstance(o.o, type):
				return o
			if type(k) is tuple and k and k[0] == '$slice':
				k = self.native_slice(k)
			return self.native_call(lambda a, b: a[b], [o, k], {})
		if isinstance(o, type) or t is Cls:
			return o
		if t is bytes:
			return o[k]
		self.throw(TypeError, "'%s' object is not subscriptable" % self.type_name(o))

	def native_slice(self, k):
		return NativeObj(slice(*k[1:]))

	def dict_getitem(self, d, k):
		found, val = self.dict_find(d, k)
		if found == 1 or self.implied(found):
			return val()
		if d.default is not None:
			def make():
				if d.default is TRUE:
					return 0
				v = self.call(d.default, [], {})
				self.dict_set(d, k, v)
				return v
			return self.split(found, val, make)
		self.throw(KeyError, k, guard=found ^ 1)
		return val()

	def getindex(self, o, i):
		t = type(o)
		if type(i) is bool:
			i = int(i)
		if type(i) is SNum and not i.real and t in (tuple, str, ListV):
			n = len(o.slots) if t is ListV else len(o)
			alts = [(self.g.atom(i.e == x), x) for x in range(-n, n)]
			inside = self.g.or_list([l for l, _ in alts])
			if not self.implied(inside):
				self.throw(IndexError, '%s index out of range' % self.type_name(o), guard=inside ^ 1)
			alts = [(l, x) for l, x in alts if self.feas(self.g.and_(self.pc, l))]
			return self.each(self.mk(alts), lambda x: self.getindex(o, x), True)
		if type(i) is HashTok or type(i) is SNum:
			raise Unsupported('symbolic index')
		if type(i) is not int:
			self.throw(TypeError, '%s indices must be integers or slices, not %s' % (self.type_name(o), self.type_name(i)))
		if t in (tuple, str):
			if -len(o) <= i < len(o):
				return o[i]
			self.throw(IndexError, '%s index out of range' % self.type_name(o))
		if t is RangeV:
			try:
				return range(o.start, o.stop, o.step)[i]
			except IndexError:
				self.throw(IndexError, 'range object index out of range')
		if t is SStr:
			return self.str_index(o, i)
		p = self._index_alts(o, i)
		lit = self.g.or_list([l for l, _, _ in p])
		if not self.implied(lit):
			self.throw(IndexError, 'list index out of range', guard=lit ^ 1)
		return self.mk([(l, s[1]) for l, s, _ in p])

	def _index_alts(self, o, i):
		"""[(guard, slot, slot index)] of the element at index i"""
		g = self.g
		rev = i < 0
		n = -i - 1 if rev else i
		sl = list(enumerate(o.slots))
		if rev:
			sl.reverse()
		cnt = [1] + [0] * n
		out = []
		for j, s in sl:
			l = s[0]
			if l == 0 or not self.feas(g.and_(self.pc, l)):
				continue
			if l != 1 and self.implied(l):
				l = 1
			c = g.and_(cnt[n], l)
			if c and self.feas(g.and_(self.pc, c)):
				out.append((c, s, j))
			for q in range(n, -1, -1):
				up = g.and_(cnt[q - 1], l) if q else 0
				cnt[q] = g.or_(up, g.and_(cnt[q], l ^ 1))
			if all(x == 0 for x in cnt):
				break
		return out

	def getslice(self, o, a, b, c):
		t = type(o)
		if t in (tuple, str):
			return o[a:b:c]
		if t is RangeV:
			r = range(o.start, o.stop, o.step)[a:b:c]
			return RangeV(r.start, r.stop, r.step)
		if t is SStr:
			return self.str_slice(o, a, b, c)
		if a is None and b is None:
			if c is None:
				return self.list_copy(o)
			if c == -1:
				return self.new_list_slots([[l, v] for l, v in reversed(o.slots)])
		p = self.positions(o)
		if all(l == 1 for l, _ in p):
			return self.new_list([v for _, v in p][a:b:c])
		if (a is None or a >= 0) and (b is None or b >= 0) and (c is None or c > 0):
			return self.new_list_slots([[l, v] for l, v in p[a:b:c]])
		tup = self.seq_tuple(o)
		return self.each(tup, lambda x: self.new_list(x[a:b:c]))

	def setitem(self, o, k, v):
		t = type(o)
		if t is U:
			for l, x in self.alts(o):
				self.under(l, lambda: self.setitem(x, k, v))
			return
		if t is DictV:
			self.dict_set(o, k, v)
			return
		if t is Obj:
			m = self.class_attr(o, '__setitem__')
			if m is None:
				self.throw(TypeError, "'%s' object does not support item assignment" % o.cls.name)
			self.call(m, [k, v], {})
			return
		if t is ListV:
			if o.iters == 'snapshot':
				raise Unsupported('list changed while iterated through a union')
			if type(k) is tuple and k and k[0] == '$slice':
				self.each_n(list(k[1:]), lambda a: self.setslice(o, a, v), True)
				return

			def one(i):
				if type(i) is bool:
					i = int(i)
				if type(i) is not int:
					self.throw(TypeError, 'list indices must be integers or slices')
				p = self._index_alts(o, i)
				lit = self.g.or_list([l for l, _, _ in p])
				if not self.implied(lit):
					self.throw(IndexError, 'list assignment index out of range', guard=lit ^ 1)
				for l, s, _ in p:
					def put():
						s[1] = self.write(s[0], s[1], v)
					self.under(l, put)
			self.each(k, one, True)
			return
		self.throw(TypeError, "'%s' object does not support item assignment" % self.type_name(o))

	def setslice(self, o, abc, v):
		a, b, c = abc
		if c is not None and c != 1:
			raise Unsupported('extended slice assignment')
		n = self.length(o)

		def one(n):
			sl = slice(a, b)
			lo, hi, _ = sl.indices(n)
			hi = max(lo, hi)
			p = self.positions(o)
			new = self.new_list()
			for x in p[:lo]:
				self.list_append(new, x[1])
			self.list_extend(new, v)
			for x in p[hi:n]:
				self.list_append(new, x[1])
			self.replace_list(o, new)
		self.each(n, one)

	def replace_list(self, o, new):
		"""contents of o become those of new on the current paths"""
		if o.iters:
			raise Unsupported('list replaced while being iterated')
		g = self.g
		pc = self.store_guard(o)
		if pc == 1:
			o.slots[:] = [[l, v] for l, v in new.slots]
			return
		old = [[g.and_(s[0], pc ^ 1), s[1]] for s in o.slots]
		add = [[g.and_(l, pc), v] for l, v in new.slots]
		out = []
		for i in range(max(len(old), len(add))):
			if i < len(old) and i < len(add):
				x, y = old[i], add[i]
				if x[0] and y[0]:
					out.append([g.or_(x[0], y[0]), self.mk([(x[0], x[1]), (y[0], y[1])])])
				elif x[0] or y[0]:
					out.append(x if x[0] else y)
			else:
				s = old[i] if i < len(old) else add[i]
				if s[0]:
					out.append(s)
		o.slots[:] = out

	def delitem(self, o, k):
		t = type(o)
		if t is U:
			for l, x in self.alts(o):
				self.under(l, lambda: self.delitem(x, k))
			return
		if t is DictV:
			found, _ = self.dict_del(o, k)
			if not self.implied(found):
				self.throw(KeyError, k, guard=found ^ 1)
			return
		if t is Obj:
			m = self.class_attr(o, '__delitem__')
			if m is None:
				self.throw(TypeError, "'%s' object doesn't support item deletion" % o.cls.name)
			self.call(m, [k], {})
			return
		if t is ListV:
			if type(k) is tuple and k and k[0] == '$slice':
				self.each_n(list(k[1:]), lambda a: self.setslice(o, a, ()), True)
				return
			self.each(k, lambda i: self.list_pop(o, i), True)
			return
		self.throw(TypeError, "'%s' object doesn't support item deletion" % self.type_name(o))

	def list_pop(self, o, i):
		if o.iters == 'snapshot':
			raise Unsupported('list changed while iterated through a union')
		if type(i) is not int:
			self.throw(TypeError, 'list index must be an integer')
		p = self._index_alts(o, i)
		lit = self.g.or_list([l for l, _, _ in p])
		if not self.implied(lit):
			self.throw(IndexError, 'pop index out of range', guard=lit ^ 1)
		v = self.mk([(l, s[1]) for l, s, _ in p])
		self._delete_hits(o, [(j, self.g.and_(self.pc, l)) for l, s, j in p])
		return v

	def list_insert(self, o, i, v):
		if o.iters:
			raise Unsupported('insert into a list being iterated')

		def one(i):
			def with_n(n):
				p = self.positions(o)
				k = max(0, n + i) if i < 0 else min(i, n)
				new = self.new_list()
				for x in p[:k]:
					self.list_append(new, x[1])
				self.list_append(new, v)
				for x in p[k:n]:
					self.list_append(new, x[1])
				self.replace_list(o, new)
			if i == 0:
				new = self.new_list([v])
				for l, x in self.live(o.slots):
					new.slots.append([l, x])
				self.replace_list(o, new)
			else:
				self.each(self.length(o), with_n)
		self.each(i, one, True)

	# ---------------------------------------------------------------- iteration
	def step(self, lit, v, cb):
		"""run cb(v) on the paths in lit; other paths skip it"""
		save = self.pc
		p = self.g.and_(save, lit)
		if not self.feas(p):
			return
		q = self.g.and_(save, lit ^ 1)
		if not self.feas(q):
			cb(v)
			return
		self.pc = p
		try:
			cb(v)
			end = self.pc
		except Dead:
			end = 0
		if end == p:
			self.pc = save
		else:
			self.pc = self.join(save, [end, q])

	def iterate(self, v, cb):
		t = type(v)
		if t is tuple or t is str:
			for x in v:
				cb(x)
			return
		if t is RangeV:
			n = 0
			for x in range(v.start, v.stop, v.step):
				n += 1
				if n > self.LOOP_BOUND:
					self.bound_hit('loop bound over range')
				cb(x)
			return
		if t is U:
			al = self.alts(v)
			if len(al) == 1:
				return self.iterate(al[0][1], cb)
			return self.iterate_union(al, cb)
		if t is ListV:
			return self.iterate_list(v, cb)
		if t is DictV:
			return self.iterate_dict(v, lambda s: s[1], cb)
		if t is SetV:
			return self.iterate_dict(v, lambda s: s[1], cb)
		if t is View:
			f = {'keys': lambda s: s[1], 'values': lambda s: s[2], 'items': lambda s: (s[1], s[2])}[v.kind]
			return self.iterate_dict(v.d, f, cb)
		if t is LazyIter:
			return self.iterate_lazy(v, cb)
		if t is SStr:
			return self.iterate_sstr(v, cb)
		if t is SChar:
			return cb(v)
		if t is bytes:
			for x in v:
				cb(x)
			return
		if t is Obj:
			m = self.class_attr(v, '__iter__')
			if m is not None:
				it = self.call(m, [], {})
				if type(it) is Obj:
					return self.iterate_protocol(it, cb)
				return self.iterate(it, cb)
			m = self.class_attr(v, '__getitem__')
			if m is not None:
				raise Unsupported('iteration through __getitem__')
		if t is NativeObj:
			try:
				items = list(v.o)
			except TypeError:
				self.throw(TypeError, "object is not iterable")
			for x in items:
				cb(self.to_engine(x))
			return
		self.throw(TypeError, "'%s' object is not iterable" % self.type_name(v))

	def iterate_protocol(self, it, cb):
		n = 0
		start = self.pc
		exits = []
		while True:
			n += 1
			if n > self.LOOP_BOUND:
				self.bound_hit('loop bound over iterator')
			sink = []
			self.sinks.append(sink)
			try:
				try:
					v = self.call(self.getattr(it, '__next__'), [], {})
					end = self.pc
				except Dead:
					end = 0
			finally:
				self.sinks.pop()
			stop = self.exc_class(StopIteration)
			for p, x in sink:
				if x.cls.issub(stop):
					exits.append(p)
				else:
					self.sinks[-1].append((p, x))
			if not end:
				break
			self.pc = end
			try:
				cb(v)
			except Dead:
				break
		self.pc = self.join(start, exits)

	def iterate_list(self, v, cb):
		it = Iter()
		if v.iters == 'snapshot':
			v.iters = None
		if v.iters is None:
			v.iters = []
		v.iters.append(it)
		g = self.g
		n = 0
		try:
			i = 0
			while i < len(v.slots):
				it.pos = i
				n += 1
				if n > self.LOOP_BOUND:
					self.bound_hit('loop bound over list')
				s = v.slots[i]
				lit = s[0]
				if it.debts:
					# an earlier element was removed: the iterator skips one present element
					for j, d in enumerate(it.debts):
						skip = g.and_(d, lit)
						if skip and self.feas(g.and_(self.pc, skip)):
							it.debts[j] = g.and_(d, lit ^ 1)
							lit = g.and_(lit, d ^ 1)
					it.debts = [d for d in it.debts if d]
				self.step(lit, s[1], cb)
				i += 1
		finally:
			v.iters.remove(it)
			if not v.iters:
				v.iters = None
				if any(s[0] == 0 for s in v.slots):
					v.slots[:] = [s for s in v.slots if s[0] != 0]

	def iterate_dict(self, d, f, cb):
		it = Iter()
		if d.changed is None:
			d.changed = []
		d.changed.append(it)
		g = self.g
		try:
			slots = list(d.slots)
			i = 0
			n = len(slots)
			while i < n:
				s = slots[i]
				i += 1
				lit, val = s[0], f(s)
				if lit == 0 or not self.feas(g.and_(self.pc, lit)):
					continue
				alts = [(lit, val)]
				if lit != 1 and not self.implied(lit):
					# consecutive slots that exclude each other are visited together
					while i < n:
						l2 = slots[i][0]
						if l2 == 0:
							i += 1
							continue
						if not self.disjoint(lit, l2):
							break
						alts.append((l2, f(slots[i])))
						lit = g.or_(lit, l2)
						i += 1
				self.check_changed(it)
				self.step(lit, self.mk(alts), cb)
			self.check_changed(it)
		finally:
			d.changed.remove(it)
			if not d.changed:
				d.changed = None
				if type(d) is DictV:
					self.dict_purge(d)

	def check_changed(self, it):
		if it.ins or it.dele:
			both = self.g.and_(it.ins, it.dele)
			if both and self.feas(self.g.and_(self.pc, both)):
				raise Unsupported('insertion and deletion during one iteration')
			ch = self.g.or_(it.ins, it.dele)
			if self.feas(self.g.and_(self.pc, ch)):
				self.throw(RuntimeError, 'dictionary changed size during iteration', guard=ch)

	def iterate_union(self, al, cb):
		if all(type(x) in (ListV, tuple, DictV, View, SetV, RangeV, str) for _, x in al):
			cols = []
			marked = []
			for l, x in al:
				sl = self.seq_slots(x)
				cols.append((l, sl))
				if type(x) is ListV and x.iters is None:
					x.iters = 'snapshot'
					marked.append(x)
			try:
				for i in range(max(len(s) for _, s in cols)):
					alts = []
					for l, s in cols:
						if i < len(s):
							c = self.g.and_(l, s[i][0])
							if c:
								alts.append((c, s[i][1]))
					lit = self.g.or_list([a for a, _ in alts])
					if lit and self.feas(self.g.and_(self.pc, lit)):
						self.step(lit, self.mk(alts), cb)
			finally:
				for x in marked:
					if x.iters == 'snapshot':
						x.iters = None
			return
		save = self.pc
		ends = []
		for l, x in al:
			p = self.g.and_(save, l)
			if not self.feas(p):
				continue
			self.pc = p
			try:
				self.iterate(x, cb)
				ends.append(self.pc)
			except Dead:
				pass
		self.pc = self.join(save, ends)

	def iterate_lazy(self, v, cb):
		if v.buf is not None:
			buf = self.materialize(v)
			while True:
				p = self.g.or_list([s[0] for s in buf.slots])
				if not self.feas(self.g.and_(self.pc, p)):
					return
				n = [None]

				def one(_):
					x = self.list_pop(buf, 0)
					cb(x)
				self.step(p, None, one)
			return
		if v.used:
			if self.implied(v.used):
				return
			lit = v.used ^ 1
			v.used = self.g.or_(v.used, self.pc)
			self.step(lit, None, lambda _: v.run(cb))
			return
		v.used = self.store_used()
		v.run(cb)

	def store_used(self):
		return self.pc

	def materialize(self, v):
		"""the elements that are left, as a list (filled on every path that has not consumed them yet)"""
		if v.buf is None:
			b = self.new_list()
			b.birth = TRUE
			v.buf = b
		if not v.used or not self.implied(v.used):
			lit = (v.used or 0) ^ 1
			v.used = self.g.or_(v.used or 0, self.pc)
			b = v.buf
			self.step(lit, None, lambda _: v.run(lambda x: self.list_append(b, x)))
		return v.buf

	def lazy(self, v):
		"""iter(v)"""
		if type(v) is LazyIter:
			return v
		if type(v) is Obj:
			m = self.class_attr(v, '__iter__')
			if m is not None:
				return self.call(m, [], {})
			if self.class_attr(v, '__next__') is not None:
				return v
		if type(v) in PRIMSET and type(v) is not str:
			self.throw(TypeError, "'%s' object is not iterable" % self.type_name(v))
		return LazyIter(lambda cb: self.iterate(v, cb), 'iterator')
