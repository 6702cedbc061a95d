import copy
import pickle
import warnings
from collections import deque, defaultdict, OrderedDict, Counter
from itertools import chain, product
from functools import reduce, wraps, lru_cache
from typing import Optional, List


def lists(sym):
	a, b, c = sym.bool('a'), sym.bool('b'), sym.bool('c')
	k = sym.choice('k', [0, 1, 2, -1])
	l = [x for x, y in ((10, a), (20, b), (30, c)) if y]
	sym.observe('l', l)
	try:
		v = l[k]
	except IndexError as e:
		v = 'ie'
	sym.observe('v', v)
	l.insert(k, 99)
	sym.observe('ins', l)
	m = l + [5] * 2
	m.reverse()
	sym.observe('rev', m)
	sym.observe('sl', (m[1:], m[:-1], m[::2], m[k:]))
	try:
		m.remove(20)
		sym.observe('removed', m)
	except ValueError:
		sym.observe('absent', m)
	sym.observe('in', (10 in l, 20 in l, l.index(99), l.count(99)))
	p = m.pop()
	sym.observe('pop', (p, m))
	if len(m) > 1:
		q = m.pop(0)
		sym.observe('pop0', q)
	m.sort()
	sym.observe('sorted', (m, sorted(l, reverse=True), sorted(l, key=lambda x: -x)))
	del m[0]
	sym.observe('del', m)
	m[len(m):] = [1, 2]
	m += [7]
	sym.observe('ext', m)
	x, *y = m
	sym.observe('unpack', (x, y))
	sym.observe('eq', (l == m, l == list(l), l < m, m >= l))
	sym.observe('max', (max(l), min(l), sum(l), any(x > 20 for x in l), all(x > 9 for x in l)))


def dicts(sym):
	ks = [sym.choice('k%d' % i, ['a', 'b', 'c']) for i in range(3)]
	d = {}
	for i, k in enumerate(ks):
		d[k] = i
	sym.observe('d', d)
	sym.observe('items', list(d.items()))
	e = dict(d)
	e.update({'z': 1, ks[0]: 9})
	sym.observe('e', e)
	x = e.pop(ks[1])
	sym.observe('pop', (x, e, e.get('a'), e.get('q', 5), e.setdefault('b', 3)))
	try:
		del e['c']
	except KeyError as err:
		sym.observe('ke', err.args)
	sym.observe('e2', e)
	sym.observe('cmp', {k: v for k, v in d.items() if v > 0})
	sym.observe('eq', (d == e, d == dict(d), d != e))
	sym.observe('set', sorted(set(d) | set(e)))
	sym.observe('union', d | {'w': 3})
	sym.observe('min', min(d, key=d.get))
	try:
		for k in d:
			if k == 'b':
				d['new'] = 1
	except RuntimeError as err:
		sym.observe('changed', err.args)
	dd = defaultdict(list)
	dd[ks[0]].append(1)
	dd[ks[1]].append(2)
	sym.observe('dd', dict(dd))
	c = Counter([ks[0], ks[1]])
	c[ks[2]] += 1
	sym.observe('c', dict(c))
	sym.observe('fromkeys', dict.fromkeys(ks))
	sym.observe('keyops', (sorted(d.keys() & e.keys()), d.keys() == e.keys(), 'a' in d.values(), 1 in d.values()))
	t = {(ks[0], 1): 'x', (ks[1], 1): 'y'}
	sym.observe('t', (t, t.get(('a', 1))))


class A:
	cv = 5

	def __init__(self, x, y=2, *args, z=3, **kw):
		self.x, self.y, self.args, self.z, self.kw = x, y, args, z, kw
		self._p = 0

	@property
	def p(self):
		return self._p

	@p.setter
	def p(self, v):
		if v < 0:
			raise ValueError('neg', v)
		self._p = v

	@classmethod
	def make(cls, *a):
		return cls(*a)

	@staticmethod
	def st(q):
		return q + 1

	def __repr__(self):
		return f'A({self.x},{self.y},{self.args},{self.z},{self.kw})'

	def __eq__(self, o):
		return isinstance(o, A) and self.x == o.x

	def __hash__(self):
		return hash(self.x)

	def __lt__(self, o):
		return self.x < o.x

	def __add__(self, o):
		return type(self)(self.x + o.x)


class B(A):
	cv = 6

	def __init__(self, *a, **k):
		super().__init__(*a, **k)
		self.b = 1

	@property
	def p(self):
		return super().p + 100

	def __len__(self):
		return self.x


def classes(sym):
	x = sym.choice('x', [0, 1, 2])
	neg = sym.choice('neg', [-1, 4])
	C = sym.choice('C', [A, B])
	o = C(x, 3, 4, z=5, w=6)
	sym.observe('o', (o, o.cv, C.cv, o.st(3), C.make(1, 2), isinstance(o, B), type(o).__name__))
	try:
		o.p = neg
		sym.observe('p', o.p)
	except ValueError as e:
		sym.observe('err', e.args)
	except AttributeError:
		sym.observe('noset', 1)
	sym.observe('truth', bool(o))
	l = [A(x), A(1), B(1), A(2)]
	sym.observe('sorted', sorted(l))
	sym.observe('dedupe', [z.x for z in set(l)] if x == 1 else 0)
	sym.observe('in', (A(1) in l, l.index(A(2)), l.count(A(1)), l[0] != l[1]))
	sym.observe('add', o + A(10))
	sym.observe('has', (hasattr(o, 'b'), getattr(o, 'b', None), hasattr(o, 'zz')))
	try:
		o.nope
	except AttributeError:
		sym.observe('ae', 1)
	o.dyn = x
	sym.observe('dyn', o.dyn)
	try:
		A()
	except TypeError:
		sym.observe('te', 1)
	d = {o: 1}
	sym.observe('dget', (d.get(A(1)), d.get(B(x))))


def flow(sym):
	n = sym.choice('n', [0, 1, 2, 3])
	m = sym.choice('m', [0, 2, 5])
	out = []
	for i in range(5):
		if i == n:
			continue
		if i == m:
			break
		out.append(i)
	else:
		out.append('else')
	sym.observe('out', out)
	i = 0
	while i < n:
		i += 1
		if i == m:
			break
	else:
		i = -i
	sym.observe('i', i)

	def f(k):
		try:
			if k == 0:
				return 'r0'
			if k == 1:
				raise KeyError('k1')
			if k == 2:
				raise ValueError('k2')
			out.append('end')
		except KeyError as e:
			return e.args[0]
		else:
			out.append('elsed')
		finally:
			out.append('fin')
		return 'late'
	try:
		r = f(n)
	except ValueError as e:
		r = str(e)
	sym.observe('r', (r, out))

	def g(k, acc=[]):
		acc.append(k)
		return len(acc)
	sym.observe('mutdef', (g(1), g(2)))
	cnt = 0

	def inc(by):
		nonlocal cnt
		cnt += by
		return cnt
	if n > 1:
		inc(5)
	inc(1)
	sym.observe('cnt', cnt)

	def gen(k):
		for j in range(k):
			if j == 2:
				return
			yield j * 10
	sym.observe('gen', (list(gen(n)), sum(gen(n)), [x for x in gen(3)]))
	sym.observe('tern', ('big' if n > 1 else 'small', n and m, n or m, not n))
	fs = [lambda q, j=j: q + j for j in range(3)]
	sym.observe('lam', [h(n) for h in fs])
	a, (b, c) = n, (m, 3)
	sym.observe('abc', (a, b, c))
	sym.observe('chain', (0 < n < 3, n == m == 2))
	if (w := n + 1) > 2:
		sym.observe('w', w)
	assert n < 4, 'never'
	if n == 3:
		try:
			undefined_name
		except NameError:
			sym.observe('ne', 1)
	with warnings.catch_warnings(record=True) as rec:
		warnings.simplefilter('always')
		if n > 1:
			warnings.warn('hello')
	sym.observe('rec', [str(z.message) for z in rec])


def strings(sym):
	s = sym.choice('s', ['', 'a', 'ab', 'b"c', ' x '])
	t = sym.str('t', 0, 2, 'ab"')
	u = s + t
	sym.observe('u', (u, len(u), u == 'ab', u.replace('"', '\\"'), u.upper(), u.strip(), u.startswith('a'), u.endswith('b')))
	sym.observe('f', f'{u}-{s!r}-{len(t)}')
	sym.observe('j', ','.join([s, t, 'z']))
	sym.observe('pc', ('%s=%d' % (s, 3), '{}:{k}'.format(t, k=s)))
	sym.observe('split', 'a,b,c'.split(','))
	sym.observe('in', ('a' in u, '"' in u, u in 'abab', u.count('a'), u.find('b')))
	sym.observe('idx', (u[:1], u[-1:], u[1:3]))
	sym.observe('lt', (u < 'b', s > t))
	sym.observe('iter', [c for c in u])
	sym.observe('dict', {s: 1, t: 2})
	sym.observe('mul', (s * 2, 'x' * len(t)))
	sym.observe('int', (str(len(u)), int('12') + len(s)))
	sym.observe('sorted', sorted([s, t, 'aa']))


class S:
	def __init__(self, a, peer=None):
		self.a, self.peer = a, peer
		self.l = [a]

	def __getstate__(self):
		return {'a': self.a, 'l': self.l, 'peer': self.peer}

	def __setstate__(self, st):
		self.a = st['a']
		self.l = st['l']
		self.peer = st['peer']


class T:
	pass


def copies(sym):
	x = sym.choice('x', [1, 2])
	f = sym.bool('f')
	a = S(x)
	b = S(3, a)
	if f:
		a.peer = b
	c = copy.deepcopy(b)
	c.l.append(9)
	sym.observe('c', (c.a, c.peer.a, c.l, b.l, c.peer is a, (c.peer.peer is c) if f else None))
	d = pickle.loads(pickle.dumps(b))
	sym.observe('d', (d.a, d.peer.a, d.l, d.peer.l is a.l))
	t = T()
	t.v = [a, a]
	if f:
		t.w = {x: t}
	u = copy.deepcopy(t)
	sym.observe('u', (u.v[0] is u.v[1], u.v[0] is a, hasattr(u, 'w'), (u.w[x] is u) if f else 0))
	k = copy.copy(t)
	sym.observe('k', (k.v is t.v, k is t))
	z = copy.deepcopy([a, (a, 1), {'k': a}, {1, 2}])
	sym.observe('z', (z[0] is z[1][0], z[2]['k'] is z[0], z[0] is a))


def sets(sym):
	a, b, c = sym.choice('a', [1, 2]), sym.choice('b', [2, 3]), sym.choice('c', [1, 3])
	s = {a, b}
	s.add(c)
	t = {2, 3}
	sym.observe('s', (sorted(s), len(s), sorted(s & t), sorted(s | t), sorted(s - t), sorted(s ^ t), s <= t, s == t, s.isdisjoint(t)))
	s.discard(2)
	sym.observe('disc', sorted(s))
	try:
		s.remove(1)
	except KeyError:
		sym.observe('ke', 1)
	sym.observe('rem', sorted(s))
	s.update([5, a])
	s |= {7}
	sym.observe('upd', sorted(s))
	f = frozenset([a, b])
	d = {f: 1}
	sym.observe('fs', d.get(frozenset([2, 1])))


def nums(sym):
	i = sym.int('i', -3, 3)
	r = sym.real('r', 0, 1)
	x = i * 2 + 1
	sym.observe('x', x)
	sym.observe('cmp', (x > 0, x == 1, r < 0.5, min(1, max(0, i)) == 1))
	if i > 0:
		y = 'pos'
	elif i == 0:
		y = 'zero'
	else:
		y = 'neg'
	sym.observe('y', y)
	sym.observe('abs', abs(i))
	n = sym.choice('n', [1, 2, 3, 4])
	sym.observe('div', (n // 2, n % 2, n / 2, -n // 2, n ** 2))
	sym.observe('l', [x / (n / 2) for x in range(1, n // 2 + 1)])


def misc(sym):
	a = sym.bool('a')
	n = sym.choice('n', [1, 2, 3])
	q = deque([1])
	q.append(n)
	if a:
		q.appendleft(0)
	out = []
	while q:
		out.append(q.popleft())
	sym.observe('q', out)
	sym.observe('ch', list(chain([1], [n] if a else [], (3,))))
	sym.observe('prod', list(product([1, 2], [n])))
	sym.observe('red', reduce(lambda x, y: x + y, [1, n, 3]))
	sym.observe('zip', list(zip([1, 2, 3], ['a'] * n)))
	sym.observe('enum', list(enumerate(['x'] * n, 1)))
	sym.observe('map', list(map(lambda v: v * 2, range(n))))
	sym.observe('filt', list(filter(None, [0, n, '', 'z'])))
	sym.observe('rev', list(reversed([1, 2, n])))

	def deco(f):
		@wraps(f)
		def inner(*args, **kw):
			return f(*args, **kw) + 1
		return inner

	@deco
	def h(x, *, y=0):
		return x + y
	sym.observe('h', (h(n), h(1, y=n)))

	@lru_cache(maxsize=None)
	def fib(k):
		return k if k < 2 else fib(k - 1) + fib(k - 2)
	sym.observe('fib', fib(n + 3))
	it = iter([1, 2, 3])
	sym.observe('next', (next(it), next(it), list(it), next(it, 'done')))
	kw = {'y': 2} if a else {}
	sym.observe('kw', h(1, **kw))
	args = (1,) if a else (2,)
	sym.observe('args', h(*args))
	g = (x for x in range(n) if x)
	sym.observe('g', (list(g), list(g)))
	d = {'a': [1]}
	e = d.get('b') or d['a']
	e.append(n)
	sym.observe('d', d)
	nested = [[j for j in range(i)] for i in range(n)]
	sym.observe('nested', nested)
	sym.observe('isinst', (isinstance(n, (int, str)), isinstance(a, bool), isinstance(None, type(None)), type(n) is int))
	x = y = []
	x.append(1)
	sym.observe('alias', (x is y, y))
	sym.observe('vars', sorted(vars(S(1)).keys()))
	match n:
		case 1:
			z = 'one'
		case 2 | 3 if a:
			z = 'ta'
		case _:
			z = 'other'
	sym.observe('match', z)
	sym.observe('cond', [v for v in (1, 2, 3) if v != n])
	sym.observe('lstmod', lstmod([1, 2, 3, 4], n))


def lstmod(l, n):
	seen = []
	for x in l:
		seen.append(x)
		if x == n:
			l.remove(x)
	return seen, l
