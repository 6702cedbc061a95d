"""Strings of the symbolic executor: guarded concatenations of concrete pieces and symbolic characters."""
import ast
import string
import z3
from .values import *
from .core import Dead, Unsupported, PRIMSET
from .ops import Ops, is_concrete

UNION_LIMIT = 10


class Strings(Ops):
	_str_of_hash = {}

	def strlike(self, v):
		t = type(v)
		if t is str or t is SStr or t is SChar:
			return True
		if t is U:
			return all(type(x) in (str, SStr, SChar) for _, x in v.alts)
		return False

	def parts_of(self, v):
		t = type(v)
		if t is str:
			return ((1, v),) if v else ()
		if t is SStr:
			return v.parts
		if t is SChar:
			return ((1, v),)
		if t is U:
			out = []
			for l, x in v.alts:
				for m, p in self.parts_of(x):
					c = self.g.and_(l, m)
					if c:
						out.append((c, p))
			return tuple(out)
		raise Unsupported('string of %r' % (v,))

	def str_concat(self, vals):
		vals = [self.norm(v) if type(v) is U else v for v in vals]
		if all(type(v) is str for v in vals):
			return ''.join(vals)
		n = 1
		for v in vals:
			if type(v) is U:
				n *= len(v.alts)
				if any(type(x) is not str for _, x in v.alts):
					n = 10 ** 6
			elif type(v) is not str:
				n = 10 ** 6
			if n > 10 ** 6:
				n = 10 ** 6
		if n <= UNION_LIMIT:
			return self.each_n(vals, ''.join)
		parts = []
		for v in vals:
			for l, p in self.parts_of(v):
				if l == 0:
					continue
				if parts and parts[-1][0] == l and type(p) is str and type(parts[-1][1]) is str:
					parts[-1] = (l, parts[-1][1] + p)
				else:
					parts.append((l, p))
		return self.mkstr(parts)

	def mkstr(self, parts):
		if not parts:
			return ''
		if len(parts) == 1 and parts[0][0] == 1:
			return parts[0][1]
		if all(l == 1 and type(p) is str for l, p in parts):
			return ''.join([p for _, p in parts])
		return SStr(tuple(parts))

	def live_parts(self, v):
		out = []
		for l, p in self.parts_of(v):
			if l != 1:
				if not self.feas(self.g.and_(self.pc, l)):
					continue
				if self.implied(l):
					l = 1
			out.append((l, p))
		return out

	def char_eq(self, a, b):
		"""literal: single characters (str of length one or SChar) are equal"""
		if type(a) is str and type(b) is str:
			return 1 if a == b else 0
		x = a.e if type(a) is SChar else z3.BitVecVal(ord(a), 21)
		y = b.e if type(b) is SChar else z3.BitVecVal(ord(b), 21)
		return self.g.atom(x == y)

	def str_eq(self, a, b):
		if type(a) is str and type(b) is str:
			return 1 if a == b else 0
		A, B = self.live_parts(a), self.live_parts(b)
		g = self.g
		if A == B:
			return 1
		import heapq
		todo = {(0, 0, 0, 0, 0, 0): 1}
		heap = [(0, 0, 0, 0, 0, 0)]
		result = 0
		na, nb = len(A), len(B)

		def push(st, lit):
			if lit == 0:
				return
			o = todo.get(st)
			if o is None:
				todo[st] = lit
				heapq.heappush(heap, st)
			else:
				todo[st] = g.or_(o, lit)
		while heap:
			st = heapq.heappop(heap)
			lit = todo.pop(st)
			if not self.feas(g.and_(self.pc, lit)):
				continue
			i, oi, ei, j, oj, ej = st
			if i == na:
				rest = lit
				if oj or ej:
					continue
				for l, _ in B[j:]:
					rest = g.and_(rest, l ^ 1)
				result = g.or_(result, rest)
				continue
			if j == nb:
				if oi or ei:
					continue
				rest = lit
				for l, _ in A[i:]:
					rest = g.and_(rest, l ^ 1)
				result = g.or_(result, rest)
				continue
			la, pa = A[i]
			lb, pb = B[j]
			if not ei:
				push((i + 1, 0, 0, j, oj, ej), g.and_(lit, la ^ 1))
				lit = g.and_(lit, la)
				if lit:
					push((i, 0, 1, j, oj, ej), lit)
				continue
			if not ej:
				push((i, oi, ei, j + 1, 0, 0), g.and_(lit, lb ^ 1))
				lit = g.and_(lit, lb)
				if lit:
					push((i, oi, 1, j, 0, 1), lit)
				continue
			ra = pa[oi:] if type(pa) is str else None
			rb = pb[oj:] if type(pb) is str else None
			if ra is not None and rb is not None:
				n = min(len(ra), len(rb))
				if ra[:n] != rb[:n]:
					continue
				ni, nj = oi + n, oj + n
			else:
				e = self.char_eq(pa if ra is None else ra[0], pb if rb is None else rb[0])
				lit = g.and_(lit, e)
				ni, nj = oi + 1, oj + 1
			enda = ra is None or ni == len(pa)
			endb = rb is None or nj == len(pb)
			push((i + 1 if enda else i, 0 if enda else ni, 0 if enda else 1, j + 1 if endb else j, 0 if endb else nj, 0 if endb else 1), lit)
		return result

	def str_len(self, v):
		p = self.live_parts(v)
		return self.count_lits([l for l, _ in p], [len(x) if type(x) is str else 1 for _, x in p])

	def expand(self, v):
		"""union of concrete strings (or strings without optional parts)"""
		if type(v) is U and any(type(x) is SStr for _, x in v.alts):
			return self.each(v, self.expand)
		if type(v) is not SStr:
			return v
		p = self.live_parts(v)
		g = self.g
		out = []

		def go(i, lit, acc):
			while i < len(p):
				l, x = p[i]
				c = g.and_(lit, l)
				if not self.feas(g.and_(self.pc, c)):
					i += 1
					continue
				d = g.and_(lit, l ^ 1)
				if d and self.feas(g.and_(self.pc, d)):
					go(i + 1, d, acc)
				acc = acc + [x]
				lit = c
				i += 1
			out.append((lit, acc))
			if len(out) > self.VARIANT_BOUND:
				raise Unsupported('more than %d variants of a string' % self.VARIANT_BOUND)
		go(0, 1, [])
		alts = []
		for l, acc in out:
			if all(type(x) is str for x in acc):
				alts.append((l, ''.join(acc)))
			else:
				alts.append((l, self.flat(acc)))
		return self.mk(alts)

	def flat(self, acc):
		parts = []
		for x in acc:
			if parts and type(x) is str and type(parts[-1][1]) is str:
				parts[-1] = (1, parts[-1][1] + x)
			else:
				parts.append((1, x))
		return self.mkstr(parts)

	def chars(self, v):
		"""[(guard, character)]"""
		out = []
		for l, p in self.live_parts(v):
			if type(p) is str:
				out.extend([(l, c) for c in p])
			else:
				out.append((l, p))
		return out

	def char_list(self, v):
		l = self.new_list()
		for c, x in self.chars(v):
			self.under(c, lambda: self.list_append(l, x))
		return l

	def iterate_sstr(self, v, cb):
		self.iterate(self.char_list(v), cb)

	def str_index(self, v, i):
		l = self.new_list_slots([[a, b] for a, b in self.chars(v)])
		p = self._index_alts(l, i)
		lit = self.g.or_list([x for x, _, _ in p])
		if not self.implied(lit):
			self.throw(IndexError, 'string index out of range', guard=lit ^ 1)
		return self.mk([(x, s[1]) for x, s, _ in p])

	def str_slice(self, v, a, b, c):
		if c not in (None, 1):
			return self.each(self.expand(v), lambda x: x[a:b:c] if type(x) is str else self._flat_slice(x, a, b, c))
		ch = self.chars(v)
		g = self.g

		def atleast(seq, n):
			"""for each position: literal that at least n of the items before it are present"""
			cnt = [1] + [0] * n      # cnt[k]: exactly k present (k<n), cnt[n]: >= n
			out = []
			for l, _ in seq:
				out.append(cnt[n])
				for k in range(n, -1, -1):
					up = g.and_(cnt[k - 1], l) if k else 0
					stay = cnt[k] if k == n else g.and_(cnt[k], l ^ 1)
					cnt[k] = g.or_(stay, up)
			return out
		keep = [1] * len(ch)
		for lim, start in ((a, True), (b, False)):
			if lim is None:
				continue
			if lim >= 0:
				al = atleast(ch, lim)
			else:
				al = [x ^ 1 for x in reversed(atleast(ch[::-1], -lim))]
				# at least -lim items after: element index < len+lim
			if lim >= 0:
				cond = al if start else [x ^ 1 for x in al]
			else:
				# al[k] true iff fewer than -lim items come after k, i.e. index >= len+lim
				cond = al if start else [x ^ 1 for x in al]
			keep = [g.and_(x, y) for x, y in zip(keep, cond)]
		parts = []
		for (l, x), k in zip(ch, keep):
			m = g.and_(l, k)
			if m == 0 or not self.feas(g.and_(self.pc, m)):
				continue
			if m != 1 and self.implied(m):
				m = 1
			if parts and parts[-1][0] == m and type(x) is str and type(parts[-1][1]) is str:
				parts[-1] = (m, parts[-1][1] + x)
			else:
				parts.append((m, x))
		return self.mkstr(parts)

	def _flat_slice(self, x, a, b, c):
		return self.flat([y for _, y in self.chars(x)][a:b:c])

	def str_order(self, op, a, b):
		if type(a) is SChar and type(b) is SChar or type(a) is SChar and type(b) is str and len(b) == 1 or type(b) is SChar and type(a) is str and len(a) == 1:
			x = a.e if type(a) is SChar else z3.BitVecVal(ord(a), 21)
			y = b.e if type(b) is SChar else z3.BitVecVal(ord(b), 21)
			return self.g.atom({'<': z3.ULT(x, y), '>': z3.UGT(x, y), '<=': z3.ULE(x, y), '>=': z3.UGE(x, y)}[op])
		return self.order_lit(op, self.char_list(a), self.char_list(b))

	# ---------------------------------------------------------------- searching
	def _auto(self, pat):
		"""KMP automaton: next state for (state, char)"""
		m = len(pat)
		fail = [0] * (m + 1)
		k = 0
		for i in range(1, m):
			while k and pat[i] != pat[k]:
				k = fail[k]
			if pat[i] == pat[k]:
				k += 1
			fail[i + 1] = k
		memo = {}

		def nxt(s, c):
			key = (s, c)
			r = memo.get(key)
			if r is None:
				q = s
				while q and (q == m or pat[q] != c):
					q = fail[q]
				r = q + 1 if q < m and pat[q] == c else 0
				memo[key] = r
			return r
		return nxt

	def _scan(self, v, pat, overlap_reset):
		"""runs the automaton; returns (state literals at the end with counts)"""
		nxt = self._auto(pat)
		m = len(pat)
		g = self.g
		alphabet = sorted(set(pat))
		states = {(0, 0): 1}
		for l, p in self.live_parts(v):
			new = {}

			def add(k, lit):
				if lit:
					new[k] = g.or_(new.get(k, 0), lit)
			for (s, n), lit in states.items():
				add((s, n), g.and_(lit, l ^ 1))
				a = g.and_(lit, l)
				if a == 0 or not self.feas(g.and_(self.pc, a)):
					continue
				if type(p) is str:
					cs, cn = s, n
					for c in p:
						cs = nxt(cs, c)
						if cs == m:
							cn += 1
							if overlap_reset:
								cs = 0
							else:
								cn = 1
								break
					add((cs, cn), a)
				else:
					rest = a
					for c in alphabet:
						e = self.char_eq(p, c)
						cs = nxt(s, c)
						cn = n
						if cs == m:
							cn = n + 1
							if overlap_reset:
								cs = 0
						add((cs, cn), g.and_(a, e))
						rest = g.and_(rest, e ^ 1)
					add((0, n), rest)
			if not overlap_reset:
				# once found, stay found
				hit = 0
				for k in [k for k in new if k[1]]:
					hit = g.or_(hit, new.pop(k))
				if hit:
					new[(m, 1)] = hit
			states = new
		return states

	def str_contains(self, c, x):
		if type(c) is str and type(x) is str:
			return x in c
		if type(c) is U:
			return self.each(c, lambda y: self.str_contains(y, x))
		if type(x) is U:
			return self.each(x, lambda y: self.str_contains(c, y))
		if type(x) not in (str, SStr, SChar):
			self.throw(TypeError, "'in <string>' requires string as left operand, not %s" % self.type_name(x))
		if type(x) is str:
			if x == '':
				return True
			if x and all(type(p) is str or True for _, p in self.parts_of(c)):
				# definite containment in one definite piece
				if any(l == 1 and type(p) is str and x in p for l, p in self.parts_of(c)):
					return True
			st = self._scan(c, x, False)
			return self.sbool(self.g.or_list([l for (s, n), l in st.items() if n]))
		if type(x) is SChar:
			return self.sbool(self.g.or_list([self.g.and_(l, self.char_eq(y, x)) for l, y in self.chars(c)]))
		def one(y):
			if type(y) is str:
				return self.str_contains(c, y)
			cs = self.chars(c)
			if any(l != 1 for l, _ in cs):
				raise Unsupported('search of a symbolic string in a string of symbolic length')
			pat = [z for _, z in self.chars(y)]
			r = 0
			for i in range(len(cs) - len(pat) + 1):
				r = self.g.or_(r, self.g.and_list([self.char_eq(cs[i + k][1], pat[k]) for k in range(len(pat))]))
			return self.sbool(r)
		return self.each(self.expand(x), one)

	def str_count(self, c, x):
		if type(c) is str and type(x) is str:
			return c.count(x)
		if type(x) in (U, SStr) and self.g is not None:
			y = self.expand(x)
			if type(y) is U and all(type(z) is str for _, z in y.alts):
				return self.each(y, lambda z: self.str_count(c, z))
		if x == '' and type(c) in (U, SStr):
			return self.binop(ast.Add(), self.length(c), 1)
		if type(x) is not str or x == '':
			raise Unsupported('count of a symbolic pattern')
		st = self._scan(c, x, True)
		by = {}
		for (s, n), l in st.items():
			if self.feas(self.g.and_(self.pc, l)):
				by[n] = self.g.or_(by.get(n, 0), l)
		return self.mk([(l, n) for n, l in sorted(by.items())])

	def str_startswith(self, v, p, rev=False):
		if type(p) is tuple:
			return self.sbool(self.g.or_list([self.truth(self.str_startswith(v, x, rev)) for x in p]))
		if type(p) is U or type(p) is SStr:
			return self.each(self.expand(p), lambda y: self.str_startswith(v, y, rev))
		if type(v) is str and type(p) is str:
			return v.endswith(p) if rev else v.startswith(p)
		if type(v) is U:
			return self.each(v, lambda y: self.str_startswith(y, p, rev))
		g = self.g
		pat = [y for _, y in self.chars(p)]
		ch = self.chars(v)
		if rev:
			pat.reverse()
			ch.reverse()
		st = [1] + [0] * len(pat)
		for l, x in ch:
			for k in range(len(pat) - 1, -1, -1):
				if st[k] == 0:
					continue
				a = g.and_(st[k], l)
				if a:
					st[k + 1] = g.or_(st[k + 1], g.and_(a, self.char_eq(x, pat[k])))
					st[k] = g.and_(st[k], l ^ 1)
			if all(s == 0 or not self.feas(g.and_(self.pc, s)) for s in st[:-1]):
				break
		return self.sbool(st[-1])

	def str_replace(self, v, old, new, count=-1):
		if type(v) is str and type(old) is str and type(new) is str and type(count) is int:
			return v.replace(old, new, count)
		if any(type(x) is U for x in (v, old, count)) or type(new) is U:
			return self.each_n([v, old, new, count], lambda a: self.str_replace(*a))
		if type(old) is SStr:
			return self.each(self.expand(old), lambda y: self.str_replace(v, y, new, count))
		if type(old) is str and len(old) == 1 and count == -1:
			out = []
			g = self.g
			for l, p in self.parts_of(v):
				if type(p) is str:
					pieces = p.split(old)
					for i, q in enumerate(pieces):
						if i:
							for m, r in self.parts_of(new):
								x = g.and_(l, m)
								if x:
									out.append((x, r))
						if q:
							out.append((l, q))
				else:
					e = self.char_eq(p, old)
					hit, miss = g.and_(l, e), g.and_(l, e ^ 1)
					if hit:
						for m, r in self.parts_of(new):
							x = g.and_(hit, m)
							if x:
								out.append((x, r))
					if miss:
						out.append((miss, p))
			merged = []
			for l, p in out:
				if merged and merged[-1][0] == l and type(p) is str and type(merged[-1][1]) is str:
					merged[-1] = (l, merged[-1][1] + p)
				else:
					merged.append((l, p))
			return self.mkstr(merged)

		def one(y):
			if type(y) is str and type(new) is str:
				return y.replace(old, new, count)
			if type(y) is str:
				raise Unsupported('replacement by a symbolic string')
			return self._replace_flat(y, old, new, count)
		return self.each(self.expand(v), one)

	def _replace_flat(self, v, old, new, count):
		"""replacement in a string of definite length with symbolic characters"""
		ch = [c for _, c in self.chars(v)]
		pat = [c for _, c in self.chars(old)]
		n, m = len(ch), len(pat)
		if m == 0:
			raise Unsupported('replace of the empty string')

		def go(i, done):
			if i > n - m or count >= 0 and done >= count:
				return self.str_concat([x for x in ch[i:]])
			e = self.g.and_list([self.char_eq(ch[i + k], pat[k]) for k in range(m)])
			return self.split(e, lambda: self.str_concat([new, go(i + m, done + 1)]), lambda: self.str_concat([ch[i], go(i + 1, done)]))
		return go(0, 0)

	def str_translate(self, v, table):
		out = []
		g = self.g
		if type(table) is not DictV:
			raise Unsupported('translate')
		items = []
		for l, k, x in table.slots:
			if l != 1 or type(k) not in (int, str) or type(k) is str and len(k) != 1:
				raise Unsupported('translate')
			x = '' if x is None else chr(x) if type(x) is int else x
			items.append((k if type(k) is str else chr(k), x))
		d = dict(items)
		for l, p in self.parts_of(v):
			for c in (p if type(p) is str else (p,)):
				if type(c) is str:
					for m, r in self.parts_of(d.get(c, c)):
						out.append((g.and_(l, m), r))
				else:
					rest = l
					for k, x in items:
						e = self.char_eq(c, k)
						for m, r in self.parts_of(x):
							y = g.and_list([l, e, m])
							if y:
								out.append((y, r))
						rest = g.and_(rest, e ^ 1)
					if rest:
						out.append((rest, c))
		merged = []
		for l, p in out:
			if l == 0:
				continue
			if merged and merged[-1][0] == l and type(p) is str and type(merged[-1][1]) is str:
				merged[-1] = (l, merged[-1][1] + p)
			else:
				merged.append((l, p))
		return self.mkstr(merged)

	def str_join(self, sep, it):
		if type(sep) is U:
			return self.each(sep, lambda s: self.str_join(s, it))
		sl = self.seq_slots(it if type(it) in (ListV, tuple, View, DictV, SetV, str) else self.to_list(it))
		vals = []
		g = self.g
		anyb = 0
		for l, v in sl:
			if not self.strlike(v):
				bad = 0
				for m, x in (v.alts if type(v) is U else ((1, v),)):
					if type(x) not in (str, SStr, SChar):
						bad = g.or_(bad, g.and_(l, m))
				if self.feas(g.and_(self.pc, bad)):
					self.throw(TypeError, 'sequence item: expected str instance, %s found' % self.type_name(v), guard=bad)
				good = [(m, x) for m, x in v.alts if type(x) in (str, SStr, SChar)] if type(v) is U else []
				if not good:
					continue
				v = self.mk(good)
			both = g.and_(l, anyb)
			if sep != '' and both:
				vals.append((both, sep))
			vals.append((l, v))
			anyb = g.or_(anyb, l)
		if all(l == 1 for l, _ in vals):
			return self.str_concat([v for _, v in vals])
		return self.str_concat([v if l == 1 else self._opt(l, v) for l, v in vals])

	def _opt(self, l, v):
		parts = []
		for m, p in self.parts_of(v):
			x = self.g.and_(l, m)
			if x:
				parts.append((x, p))
		return self.mkstr(parts)

	def str_percent(self, a, b):
		if type(a) is not str:
			return self.each(self.expand(a), lambda x: self.str_percent(x, b))
		if type(b) is U and any(type(x) is tuple for _, x in b.alts):
			return self.each(b, lambda x: self.str_percent(a, x))
		args = list(b) if type(b) is tuple else [b]
		if all(is_concrete(x) for x in args):
			return self.prim_op('%', lambda x, y: x % y, a, tuple(args))
		out, i, k = [], 0, 0
		while i < len(a):
			if a[i] == '%':
				c = a[i + 1] if i + 1 < len(a) else ''
				if c == '%':
					out.append('%')
				elif c and c in 'srd' and k >= len(args):
					self.throw(TypeError, 'not enough arguments for format string')
				elif c and c in 'sr':
					out.append(self.to_str(args[k]) if c == 's' else self.to_repr(args[k]))
					k += 1
				elif c == 'd':
					out.append(self.to_str(args[k]))
					k += 1
				else:
					raise Unsupported('format %r' % a)
				i += 2
			else:
				out.append(a[i])
				i += 1
		if k != len(args):
			self.throw(TypeError, 'not all arguments converted during string formatting')
		return self.str_concat(out)

	def str_format(self, a, args, kwargs):
		if type(a) is not str:
			return self.each(self.expand(a), lambda x: self.str_format(x, args, kwargs))
		out = []
		auto = 0
		for lit, field, spec, conv in string.Formatter().parse(a):
			out.append(lit)
			if field is None:
				continue
			name = field
			rest = ''
			for i, ch in enumerate(field):
				if ch in '.[':
					name, rest = field[:i], field[i:]
					break
			if name == '':
				v = args[auto] if auto < len(args) else self.throw(IndexError, 'Replacement index %d out of range' % auto)
				auto += 1
			elif name.isdigit():
				if int(name) >= len(args):
					self.throw(IndexError, 'Replacement index out of range')
				v = args[int(name)]
			else:
				if name not in kwargs:
					self.throw(KeyError, name)
				v = kwargs[name]
			while rest:
				if rest[0] == '.':
					n = 1
					while n < len(rest) and rest[n] not in '.[':
						n += 1
					v = self.getattr(v, rest[1:n])
					rest = rest[n:]
				else:
					n = rest.index(']')
					k = rest[1:n]
					v = self.getitem(v, int(k) if k.isdigit() else k)
					rest = rest[n + 1:]
			if conv == 'r':
				v = self.to_repr(v)
			elif conv == 's':
				v = self.to_str(v)
			if spec:
				out.append(self.each(v, lambda x: self.native_call(format, [x, spec], {}), True))
			else:
				out.append(self.to_str(v))
		return self.str_concat(out)

	# ---------------------------------------------------------------- str() and repr()
	def to_str(self, v):
		t = type(v)
		if t is str or t is SStr or t is SChar:
			return v
		if t in PRIMSET:
			return str(v)
		if t is U:
			v = self.norm(v)
			if type(v) is not U:
				return self.to_str(v)
			if all(type(x) in (str, SStr, SChar) for _, x in v.alts):
				return v
			f = self.methods(v, '__str__')
			if f is not None:
				return self.call(f, [v], {})
			return self.each(v, self.to_str)
		if t is SBool:
			return self.mk([(v.lit, 'True'), (v.lit ^ 1, 'False')])
		if t is Obj:
			m = self.class_attr(v, '__str__')
			if m is not None:
				return self.call(m, [], {})
			if 'args' in v.attrs and any(c.native for c in v.cls.mro):
				a = v.attrs['args']
				if type(a) is tuple:
					if any(c.native is KeyError for c in v.cls.mro) and len(a) == 1:
						return self.to_repr(a[0])
					return '' if not a else self.to_str(a[0]) if len(a) == 1 else self.to_repr(a)
		return self.to_repr(v)

	def _slot_reprs(self, items):
		out = []
		for l, f in items:
			if l == 1:
				out.append((l, f()))
			else:
				ran, r = self.under(l, f)
				if ran and r is not None:
					out.append((l, r))
		return out

	def to_repr(self, v):
		t = type(v)
		if t in PRIMSET:
			return repr(v)
		if t is U:
			f = self.methods(v, '__repr__')
			if f is not None:
				return self.call(f, [v], {})
			return self.each(v, self.to_repr)
		if t is SBool:
			return self.to_str(v)
		if t is SStr or t is SChar:
			x = self.expand(v) if t is SStr else v

			def one(y):
				if type(y) is str:
					return repr(y)
				return self.str_concat(["'", y, "'"])
			return self.each(x, one)
		if t is tuple:
			if is_concrete(v):
				return repr(v)
			vals = ['(']
			for i, x in enumerate(v):
				vals += ([', '] if i else []) + [self.to_repr(x)]
			vals.append(',)' if len(v) == 1 else ')')
			return self.str_concat(vals)
		if t is ListV:
			return self.str_concat(['[', self._repr_items(self._slot_reprs([(l, lambda x=x: self.to_repr(x)) for l, x in self.live(v.slots)])), ']'])
		if t is SetV:
			return self.str_concat(['{', self._repr_items(self._slot_reprs([(l, lambda x=x: self.to_repr(x)) for l, x in self.live(v.slots)])), '}'])
		if t is DictV:
			return self.str_concat(['{', self._repr_items(self._slot_reprs([(l, lambda k=k, x=x: self.str_concat([self.to_repr(k), ': ', self.to_repr(x)])) for l, k, x in self.live(v.slots)])), '}'])
		if t is View:
			return self.str_concat(['dict_%s(' % v.kind, self.to_repr(self.new_list_slots([list(s) for s in self.seq_slots(v)])), ')'])
		if t is Obj:
			m = self.class_attr(v, '__repr__')
			if m is not None:
				return self.call(m, [], {})
			if 'args' in v.attrs and any(c.native for c in v.cls.mro):
				a = v.attrs['args']
				if type(a) is tuple:
					return self.str_concat([v.cls.name, '(', ] + sum([([', '] if i else []) + [self.to_repr(x)] for i, x in enumerate(a)], []) + [')'])
			return '<%s object at 0x%x>' % (v.cls.name, 1000003 + 16 * v.serial)
		if t is NativeObj:
			return repr(v.o)
		if t is RangeV:
			return repr(range(v.start, v.stop, v.step))
		if t is HashTok:
			return self.str_concat(['#hash:', self.to_repr(v.v)])
		if t is Cls:
			return "<class '%s'>" % v.name
		if isinstance(v, type):
			return repr(v)
		if t in (Func, Builtin, Bound, Partial, LazyIter, Module):
			return '<%s>' % self.type_name(v)
		raise Unsupported('repr of %r' % (v,))

	def _repr_items(self, slots):
		return self.str_join(', ', self.new_list_slots([[l, x] for l, x in slots]))
