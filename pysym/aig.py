"""Path guards: a hash-consed and-inverter graph over solver atoms, decided by Z3.

A literal is an int: 2*node, +1 for negation.  Literal 0 is FALSE, 1 is TRUE.
Feasibility questions are answered, in this order, by constants, by random/model simulation signatures (a set bit is
a concrete witness assignment), and by an incremental SMT query.  Only the solver ever answers "infeasible".
"""
import random
import time
import z3

FALSE, TRUE = 0, 1


class Inconclusive(Exception):
	"""the solver answered unknown where an answer is needed"""


class Guards:
	W0 = 256   # boolean simulation patterns
	T0 = 32    # theory simulation patterns
	MAXW = 1024

	def __init__(self, seed=1, query_timeout_ms=120000):
		self.rng = random.Random(seed)
		self.left = [-1]          # per node; -1: atom or const
		self.right = [-1]
		self.atom_expr = {}       # node -> z3 Bool (theory atom) or None (free boolean)
		self.names = {}           # free boolean node -> name
		self.cache = {}
		self.W = self.W0
		self.mask = (1 << self.W) - 1
		self.sig = [0]
		self.tvars = []           # (z3 const, kind)
		self.tpats = [dict() for _ in range(self.T0)]   # theory patterns: var id -> z3 value
		self.tp = [i % self.T0 for i in range(self.W0)]  # pattern bit -> theory pattern index
		self.pending = []
		self.known_false = set()
		self.known_true = set()   # known satisfiable
		self.finite = True
		self.solver = z3.SolverFor('QF_FD')
		self.timeout = query_timeout_ms
		self.solver.set('timeout', query_timeout_ms)
		self.zlit = {}            # node -> z3 Bool const already defined in solver
		self.atom_of = {}         # z3 ast id -> literal
		self.keep = []            # keep z3 asts alive
		self.stats = dict(queries=0, unsat=0, sat=0, unknown=0, solver_s=0.0, sim_hits=0)
		self.model_of = {}        # literal -> z3 model of last sat answer
		self.skipped = 0          # models not fetched since the last one
		self.side = []            # side constraints on theory variables (always satisfiable ranges)

	# ---- construction
	def _node(self, l, r, sig):
		self.left.append(l)
		self.right.append(r)
		self.sig.append(sig & self.mask)
		return len(self.left) - 1

	def new_bool(self, name, p=0.5):
		if p == 0.5:
			s = self.rng.getrandbits(self.W)
		else:
			s = 0
			for i in range(self.W):
				if self.rng.random() < p:
					s |= 1 << i
		n = self._node(-1, -1, s)
		self.atom_expr[n] = None
		self.names[n] = name
		return 2 * n

	def new_theory_var(self, const, kind, sampler):
		"""sampler(rng) -> z3 value satisfying the side constraints of the variable"""
		if kind in ('int', 'real') and self.finite:
			self._go_infinite()
		self.tvars.append(const)
		for p in self.tpats:
			p[const.get_id()] = (const, sampler(self.rng))
		for m in self.pending:
			m[2][const.get_id()] = (const, sampler(self.rng))

	def _go_infinite(self):
		self.finite = False
		self.solver = z3.Solver()
		self.solver.set('timeout', self.timeout)
		for c in self.side:
			self.solver.add(c)
		old = list(self.zlit)
		self.zlit = {}
		for n in sorted(old):
			self._define(n)

	def add_side(self, c):
		self.side.append(c)
		self.solver.add(c)

	def _theory_sig(self, expr):
		vals = []
		for p in self.tpats:
			e = z3.simplify(z3.substitute(expr, *p.values())) if p else z3.simplify(expr)
			vals.append(1 if z3.is_true(e) else 0)
		s = 0
		for i, t in enumerate(self.tp):
			if vals[t]:
				s |= 1 << i
		return s

	def atom(self, expr):
		"""literal for a z3 Bool expression over theory variables"""
		expr = z3.simplify(expr)
		if z3.is_true(expr):
			return TRUE
		if z3.is_false(expr):
			return FALSE
		neg = 0
		while z3.is_not(expr):
			expr = expr.arg(0)
			neg ^= 1
		k = expr.get_id()
		lit = self.atom_of.get(k)
		if lit is None:
			self._flush()
			if any(n in self.zlit for n in ()):
				pass
			n = self._node(-1, -1, self._theory_sig(self._expand(expr)))
			self.atom_expr[n] = expr
			self.keep.append(expr)
			lit = 2 * n
			self.atom_of[k] = lit
		return lit ^ neg

	def _expand(self, expr):
		# theory expressions may mention guard constants g!n (from If merges): give the simulator their meaning
		return expr

	def and_(self, a, b):
		if a == b:
			return a
		if a == 0 or b == 0 or a == b ^ 1:
			return 0
		if a == 1:
			return b
		if b == 1:
			return a
		if a > b:
			a, b = b, a
		k = (a, b)
		r = self.cache.get(k)
		if r is not None:
			return r
		left, right = self.left, self.right
		r = -1
		na, nb = a >> 1, b >> 1
		la, ra, lb, rb = left[na], right[na], left[nb], right[nb]
		if la >= 0:
			if not a & 1:
				if la == b or ra == b:
					r = a
				elif la == b ^ 1 or ra == b ^ 1:
					r = 0
			else:
				if la == b:
					r = self.and_(ra ^ 1, b)
				elif ra == b:
					r = self.and_(la ^ 1, b)
				elif la == b ^ 1 or ra == b ^ 1:
					r = b
		if r < 0 and lb >= 0:
			if not b & 1:
				if lb == a or rb == a:
					r = b
				elif lb == a ^ 1 or rb == a ^ 1:
					r = 0
			else:
				if lb == a:
					r = self.and_(rb ^ 1, a)
				elif rb == a:
					r = self.and_(lb ^ 1, a)
				elif lb == a ^ 1 or rb == a ^ 1:
					r = a
		if r < 0 and la >= 0 and lb >= 0:
			if not a & 1 and not b & 1:
				if la == lb ^ 1 or la == rb ^ 1 or ra == lb ^ 1 or ra == rb ^ 1:
					r = 0
			elif a & 1 and b & 1:
				# not(x&y) & not(x&~y) = not x
				if la == lb and ra == rb ^ 1 or la == rb and ra == lb ^ 1:
					r = la ^ 1
				elif ra == rb and la == lb ^ 1 or ra == lb and la == rb ^ 1:
					r = ra ^ 1
			else:
				p, q = (a, b) if not a & 1 else (b, a)   # p positive, q negative
				lp, rp, lq, rq = left[p >> 1], right[p >> 1], left[q >> 1], right[q >> 1]
				if lq == lp ^ 1 or lq == rp ^ 1 or rq == lp ^ 1 or rq == rp ^ 1:
					r = p
				elif lq == lp or lq == rp:
					r = self.and_(p, rq ^ 1)
				elif rq == lp or rq == rp:
					r = self.and_(p, lq ^ 1)
		if r < 0:
			sa = self.sig[na] ^ (self.mask if a & 1 else 0)
			sb = self.sig[nb] ^ (self.mask if b & 1 else 0)
			r = 2 * self._node(a, b, sa & sb)
		self.cache[k] = r
		return r

	def or_(self, a, b):
		return self.and_(a ^ 1, b ^ 1) ^ 1

	def or_list(self, ls):
		r = 0
		for x in ls:
			r = self.or_(r, x)
		return r

	def and_list(self, ls):
		r = 1
		for x in ls:
			r = self.and_(r, x)
		return r

	def ite(self, c, a, b):
		if c == 1:
			return a
		if c == 0:
			return b
		if a == b:
			return a
		return self.or_(self.and_(c, a), self.and_(c ^ 1, b))

	def xnor(self, a, b):
		return self.or_(self.and_(a, b), self.and_(a ^ 1, b ^ 1))

	# ---- simulation
	def signature(self, lit):
		s = self.sig[lit >> 1]
		return s ^ self.mask if lit & 1 else s

	def _flush(self):
		if not self.pending:
			return
		add = self.pending
		self.pending = []
		if self.W + len(add) > self.MAXW:
			return
		base = self.W
		k = len(add)
		newbits = {}
		for j, (bools, theory, tpat) in enumerate(add):
			self.tpats.append(tpat)
			self.tp.append(len(self.tpats) - 1)
			for n in self.atom_expr:
				v = bools.get(n)
				if v:
					newbits[n] = newbits.get(n, 0) | (1 << j)
		m = (1 << k) - 1
		ext = [0] * len(self.left)
		left, right, sig = self.left, self.right, self.sig
		for n in range(1, len(left)):
			l = left[n]
			if l < 0:
				e = newbits.get(n, 0)
			else:
				r = right[n]
				ea = ext[l >> 1]
				if l & 1:
					ea ^= m
				eb = ext[r >> 1]
				if r & 1:
					eb ^= m
				e = ea & eb
			ext[n] = e
			if e:
				sig[n] |= e << base
		self.W += k
		self.mask = (1 << self.W) - 1

	# ---- solver
	def _define(self, n):
		"""z3 constant equivalent to node n (definitions asserted once, incrementally)"""
		z = self.zlit.get(n)
		if z is not None:
			return z
		stack = [n]
		while stack:
			x = stack[-1]
			if x in self.zlit:
				stack.pop()
				continue
			l = self.left[x]
			if l < 0:
				c = z3.Bool('g!%d' % x)
				if x == 0:
					self.solver.add(z3.Not(c))
				else:
					e = self.atom_expr[x]
					if e is not None:
						self.solver.add(c == e)
				self.zlit[x] = c
				stack.pop()
				continue
			r = self.right[x]
			ln, rn = l >> 1, r >> 1
			todo = [y for y in (ln, rn) if y not in self.zlit]
			if todo:
				stack.extend(todo)
				continue
			c = z3.Bool('g!%d' % x)
			a = z3.Not(self.zlit[ln]) if l & 1 else self.zlit[ln]
			b = z3.Not(self.zlit[rn]) if r & 1 else self.zlit[rn]
			self.solver.add(c == z3.And(a, b))
			self.zlit[x] = c
			stack.pop()
		return self.zlit[n]

	def z(self, lit):
		if lit == 1:
			return z3.BoolVal(True)
		if lit == 0:
			return z3.BoolVal(False)
		c = self._define(lit >> 1)
		return z3.Not(c) if lit & 1 else c

	MODEL_NODES = 800

	def check(self, lit, need_model=False):
		"""True (sat) / False (unsat) / None (unknown) by the solver"""
		a = self.z(lit)
		t = time.time()
		r = self.solver.check(a)
		self.stats['solver_s'] += time.time() - t
		self.stats['queries'] += 1
		if r == z3.sat:
			self.stats['sat'] += 1
			# a model costs time in proportion to the encoding: large encodings fetch only some of them
			if need_model or self.skipped >= len(self.zlit) // self.MODEL_NODES:
				self.skipped = 0
				self._add_model(self.solver.model(), lit)
			else:
				self.skipped += 1
			return True
		if r == z3.unsat:
			self.stats['unsat'] += 1
			self.known_false.add(lit)
			n = lit >> 1
			if not lit & 1 and self.left[n] >= 0:
				self.cache[(self.left[n], self.right[n])] = 0
			return False
		self.stats['unknown'] += 1
		return None

	def _add_model(self, m, lit):
		bools = {}
		for n in self.atom_expr:
			z = self.zlit.get(n)
			if z is None:
				e = self.atom_expr[n]
				if e is None:
					bools[n] = self.rng.random() < 0.5
				else:
					bools[n] = z3.is_true(m.eval(e, model_completion=True))
			else:
				bools[n] = z3.is_true(m.eval(z, model_completion=True))
		tpat = {c.get_id(): (c, m.eval(c, model_completion=True)) for c in self.tvars}
		self.model_of[lit] = (bools, tpat)
		self.pending.append((bools, None, tpat))
		if len(self.pending) >= 12:
			self._flush()

	def feasible(self, lit):
		if lit == 0:
			return False
		if lit == 1:
			return True
		s = self.sig[lit >> 1]
		if lit & 1:
			s ^= self.mask
		if s:
			self.stats['sim_hits'] += 1
			return True
		if lit in self.known_true:
			return True
		if lit in self.known_false:
			return False
		r = self.check(lit)
		if r is False:
			return False
		self.known_true.add(lit)
		return True

	def witness(self, lit):
		"""(bools: node -> bool, theory: var id -> (const, value)) satisfying lit; lit must have been found feasible"""
		if lit in self.model_of:
			return self.model_of[lit]
		s = self.signature(lit)
		if s:
			self._flush()
			s = self.signature(lit)
			i = (s & -s).bit_length() - 1
			bools = {n: bool(self.sig[n] >> i & 1) for n in self.atom_expr}
			return bools, self.tpats[self.tp[i]]
		r = self.check(lit, True)
		if r is not True:
			raise Inconclusive('no model for guard (%s)' % r)
		return self.model_of[lit]

	def eval_lit(self, lit, bools, memo):
		"""value of a literal under an assignment of the atoms"""
		n = lit >> 1
		stack = [n]
		memo.setdefault(0, False)
		while stack:
			x = stack[-1]
			if x in memo:
				stack.pop()
				continue
			l = self.left[x]
			if l < 0:
				memo[x] = bools.get(x, False)
				stack.pop()
				continue
			r = self.right[x]
			todo = [y for y in (l >> 1, r >> 1) if y not in memo]
			if todo:
				stack.extend(todo)
				continue
			memo[x] = (memo[l >> 1] ^ bool(l & 1)) and (memo[r >> 1] ^ bool(r & 1))
			stack.pop()
		return memo[n] ^ bool(lit & 1)
