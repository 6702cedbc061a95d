"""Differential test of the executor: random programs, symbolically and natively.

usage: python3-vt enginetests/fuzz.py FIRST LAST   (seeds; prints what differs)
"""
import json, os, random, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Gen:
	def __init__(self, seed):
		self.r = random.Random(seed)
		self.n = 0
		self.vars = {}     # type -> names
		self.out = []
		self.inputs = 0

	def fresh(self, t):
		self.n += 1
		v = 'v%d' % self.n
		return v

	def pick(self, t):
		vs = self.vars.get(t, [])
		return self.r.choice(vs) if vs and self.r.random() < 0.8 else None

	def e(self, t, d=2):
		r = self.r
		v = self.pick(t)
		if v is not None and (d <= 0 or r.random() < 0.45):
			return v
		if d <= 0:
			return self.leaf(t)
		return getattr(self, 'e_' + t)(d - 1)

	def leaf(self, t):
		r = self.r
		return {'i': lambda: str(r.randint(-1, 4)), 's': lambda: repr(r.choice(['', 'a', 'b', 'ab', 'ba', 'c'])), 'b': lambda: r.choice(['True', 'False']),
			'li': lambda: r.choice(['[]', '[1]', '[2, 1]', '[0, 3, 1]']), 'ls': lambda: r.choice(['[]', "['a']", "['b', 'a']"]),
			'd': lambda: r.choice(['{}', "{'a': 1}", "{'b': 2, 'a': 0}"]), 'si': lambda: r.choice(['set()', '{1}', '{2, 0}']),
			'tu': lambda: r.choice(['(1, 2)', '(0,)', '()']), 'o': lambda: r.choice(['None', '1', "'a'"]), 'lo': lambda: "[P(1, 'a')]", 'g': lambda: r.choice(['Base()', "Base.make('a', 'b')", "Derived.make('b', start=1)"])}[t]()

	def e_i(self, d):
		r = self.r
		return r.choice([
			lambda: '(%s %s %s)' % (self.e('i', d), r.choice(['+', '-', '*', '//', '%']), self.e('i', d)),
			lambda: 'len(%s)' % self.e(r.choice(['li', 'ls', 'd', 'si', 's', 'tu']), d),
			lambda: 'sum(%s)' % self.e(r.choice(['li', 'si', 'tu']), d),
			lambda: '%s(%s)' % (r.choice(['max', 'min']), self.e(r.choice(['li', 'si']), d)),
			lambda: '%s(%s, %s)' % (r.choice(['max', 'min']), self.e('i', d), self.e('i', d)),
			lambda: '%s(%s, default=%s)' % (r.choice(['max', 'min']), self.e('li', d), self.e('i', d)),
			lambda: '%s[%s]' % (self.e(r.choice(['li', 'tu']), d), self.e('i', d)),
			lambda: '%s[%s]' % (self.e('d', d), self.e('s', d)),
			lambda: '%s.get(%s, %s)' % (self.e('d', d), self.e('s', d), self.e('i', d)),
			lambda: '%s.index(%s)' % (self.e('li', d), self.e('i', d)),
			lambda: '%s.count(%s)' % (self.e('li', d), self.e('i', d)),
			lambda: '(%s if %s else %s)' % (self.e('i', d), self.e('b', d), self.e('i', d)),
			lambda: 'next((x for x in %s if x > %s), %s)' % (self.e('li', d), self.e('i', d), self.e('i', d)),
			lambda: 'next(iter(%s))' % self.e('li', d),
			lambda: 'sum(1 for x in %s if x %s %s)' % (self.e(r.choice(['li', 'si']), d), r.choice(['<', '==', '!=', '>=']), self.e('i', d)),
			lambda: 'reduce(lambda p, q: p %s q, %s, %s)' % (r.choice(['+', '-', '*']), self.e('li', d), self.e('i', d)),
			lambda: 'int(%s)' % self.e('b', d),
			lambda: 'abs(%s)' % self.e('i', d),
			lambda: 'len(%s)' % self.e('g', d),
			lambda: '%s[%s].n' % (self.e('g', d), self.e('s', d)),
			lambda: 'counted(lambda x, y=1: x * y)(%s, y=%s)' % (self.e('i', d), self.e('i', d)),
			lambda: 'getattr(%s, %s, %s)' % (self.e('g', d), "'limit'", self.e('i', d)),
			lambda: 'sum(p.n for p in %s._d.values())' % self.e('g', d),
			lambda: '(lambda *a, **k: len(a) + len(k))(*%s, **%s)' % (self.e('li', d), self.e('d', d)),
			lambda: 'sum(x or 0 for _, x in pairs(%s, %s))' % (self.e('li', d), self.e('tu', d)),
			lambda: 'functools.partial(hlp, k=%s)(%s)' % (self.e('i', d), self.e('i', d)),
			lambda: '[%s, %s][%s]' % (self.e('i', d), self.e('i', d), self.e('b', d)),
			lambda: 'min(%s, key=lambda x: (abs(x - %s), x))' % (self.e('li', d), self.e('i', d)),
			lambda: 'max(enumerate(%s), key=operator.itemgetter(1))[0]' % self.e('li', d),
			lambda: 'int(%s)' % self.e('s', d),
			lambda: 'hlp(%s, k=%s)' % (self.e('i', d), self.e('i', d)),
			lambda: 'rec(%s)' % self.e('i', d),
			lambda: '(%s or %s)' % (self.e('i', d), self.e('i', d)),
			lambda: '(%s and %s)' % (self.e('i', d), self.e('i', d)),
			lambda: '%s[0].n' % self.e('lo', d),
			lambda: '%s[-1].twice' % self.e('lo', d),
			lambda: '%s.find(%s)' % (self.e('s', d), self.e('s', d)),
			lambda: '%s.count(%s)' % (self.e('s', d), self.e('s', d)),
		])()

	def e_s(self, d):
		r = self.r
		return r.choice([
			lambda: '(%s + %s)' % (self.e('s', d), self.e('s', d)),
			lambda: 'f"{%s}x{%s}"' % (self.e('i', 0).replace('"', "'"), self.e('s', 0).replace('"', "'")),
			lambda: '%s.join(%s)' % (self.e('s', d), self.e('ls', d)),
			lambda: '%s.join(sorted(%s))' % (self.e('s', d), self.e('d', d)),
			lambda: 'str(%s)' % self.e(r.choice(['i', 's', 'b', 'li', 'ls', 'd', 'o', 'tu']), d),
			lambda: 'repr(%s)' % self.e(r.choice(['s', 'li', 'ls']), d),
			lambda: '%s.%s()' % (self.e('s', d), r.choice(['upper', 'strip', 'title', 'lower', 'lstrip', 'swapcase'])),
			lambda: '%s.replace(%s, %s)' % (self.e('s', d), self.e('s', d), self.e('s', d)),
			lambda: '%s[%s]' % (self.e(r.choice(['ls', 's']), d), self.e('i', d)),
			lambda: '%s[%s:]' % (self.e('s', d), self.e('i', d)),
			lambda: '%s * %s' % (self.e('s', d), self.e('i', 0)) if False else '(%s * %s)' % (self.e('s', 0), r.choice(['0', '2', '3'])),
			lambda: "'%%s-%%s' %% (%s, %s)" % (self.e('s', d), self.e('i', d)),
			lambda: "'{}:{k}'.format(%s, k=%s)" % (self.e('s', d), self.e('i', d)),
			lambda: '(%s if %s else %s)' % (self.e('s', d), self.e('b', d), self.e('s', d)),
			lambda: 'max(%s, key=len, default=%s)' % (self.e('ls', d), self.e('s', d)),
			lambda: '%s[0].s' % self.e('lo', d),
			lambda: 'type(%s).__name__' % self.e(r.choice(['i', 's', 'o', 'lo']), d),
			lambda: "''.join(reversed(%s))" % self.e('s', d),
			lambda: 'str(%s)' % self.e('g', d),
			lambda: '%s.name()' % self.e('g', d),
			lambda: 'Base.join(*%s, sep=%s)' % (self.e('li', d), self.e('s', d)),
			lambda: 'Base.join(%s, %s)' % (self.e('o', d), self.e('b', d)),
			lambda: '%s.__class__.__name__' % self.e('g', d),
			lambda: '%s.%s(3, %s)' % (self.e('s', d), r.choice(['ljust', 'rjust', 'center']), "'.'"),
			lambda: '"\\n".join(%s.splitlines())' % self.e('s', d),
			lambda: 'chr(ord("a") + %s)' % self.e('i', d),
			lambda: 'f"{%s!r:>4}|{%s:02d}"' % (self.e('s', 0).replace('"', "'"), self.e('i', 0)),
			lambda: "{True: 'yes', False: 'no'}[%s]" % self.e('b', d),
			lambda: '%s.%s(%s)' % (self.e('s', d), r.choice(['strip', 'lstrip', 'rstrip', 'removeprefix', 'removesuffix']), self.e('s', d)),
			lambda: "''.join(c for c in %s if c != %s)" % (self.e('s', d), self.e('s', d)),
			lambda: '%s.partition(%s)[%s]' % (self.e('s', d), "'a'", r.choice('012')),
		])()

	def e_b(self, d):
		r = self.r
		t = r.choice(['i', 's', 'li', 'd', 'si', 'tu', 'ls', 'o'])
		return r.choice([
			lambda: '(%s %s %s)' % (self.e(t, d), r.choice(['==', '!=']), self.e(t, d)),
			lambda: '(%s %s %s)' % (self.e('i', d), r.choice(['<', '<=', '>', '>=']), self.e('i', d)),
			lambda: '(%s < %s <= %s)' % (self.e('i', d), self.e('i', d), self.e('i', d)),
			lambda: '(%s %s %s)' % (self.e('s', d), r.choice(['<', '<=', 'in', 'not in']), self.e('s', d)),
			lambda: '(%s %s %s)' % (self.e('i', d), r.choice(['in', 'not in']), self.e(r.choice(['li', 'si', 'tu']), d)),
			lambda: '(%s %s %s)' % (self.e('s', d), r.choice(['in', 'not in']), self.e(r.choice(['ls', 'd']), d)),
			lambda: '(not %s)' % self.e('b', d),
			lambda: '(%s %s %s)' % (self.e('b', d), r.choice(['and', 'or', '==', '^', '&', '|']), self.e('b', d)),
			lambda: 'bool(%s)' % self.e(t, d),
			lambda: '%s(x > %s for x in %s)' % (r.choice(['any', 'all']), self.e('i', d), self.e(r.choice(['li', 'si']), d)),
			lambda: 'isinstance(%s, %s)' % (self.e('o', d), r.choice(['int', 'str', '(int, str)', 'type(None)'])),
			lambda: '(%s is None)' % self.e('o', d),
			lambda: '%s.%s(%s)' % (self.e('s', d), r.choice(['startswith', 'endswith']), self.e('s', d)),
			lambda: '%s.%s(%s)' % (self.e('si', d), r.choice(['issubset', 'isdisjoint', 'issuperset']), self.e('si', d)),
			lambda: '(%s <= %s)' % (self.e('si', d), self.e('si', d)),
			lambda: '(%s < %s)' % (self.e('li', d), self.e('li', d)),
			lambda: '(%s == %s)' % (self.e('lo', d), self.e('lo', d)),
			lambda: '%s.isdigit()' % self.e('s', d),
			lambda: '(%s in %s)' % (self.e('s', d), self.e('g', d)),
			lambda: 'bool(%s)' % self.e('g', d),
			lambda: 'isinstance(%s, Derived)' % self.e('g', d),
			lambda: 'hasattr(%s, %s)' % (self.e('g', d), r.choice(["'_limit'", "'_d'", "'zz'"])),
			lambda: 'callable(getattr(%s, %s, None))' % (self.e('g', d), r.choice(["'limit'", "'name'"])),
			lambda: '%s(map(bool, %s))' % (r.choice(['any', 'all']), self.e('li', d)),
			lambda: '(%s is %s)' % (self.e('g', d), self.e('g', d)),
			lambda: '(%s.extra is None)' % self.e('g', d),
			lambda: 'issubclass(type(%s), Base)' % self.e('g', d),
		])()

	def e_li(self, d):
		r = self.r
		return r.choice([
			lambda: '[%s]' % ', '.join(self.e('i', d) for _ in range(r.randint(0, 3))),
			lambda: '[x %s %s for x in %s]' % (r.choice(['+', '*']), self.e('i', d), self.e(r.choice(['li', 'tu']), d)),
			lambda: '[x for x in %s if x %s %s]' % (self.e('li', d), r.choice(['<', '!=', '>']), self.e('i', d)),
			lambda: '[x for x in %s if x not in %s]' % (self.e('li', d), self.e(r.choice(['li', 'si', 'tu']), d)),
			lambda: 'sorted(%s)' % self.e(r.choice(['li', 'si', 'tu']), d),
			lambda: 'sorted(%s, key=lambda x: (x %% 2, -x), reverse=%s)' % (self.e('li', d), self.e('b', d)),
			lambda: 'list(reversed(%s))' % self.e('li', d),
			lambda: '(%s + %s)' % (self.e('li', d), self.e('li', d)),
			lambda: '%s[%s:]' % (self.e('li', d), self.e('i', d)),
			lambda: '%s[:%s]' % (self.e('li', d), self.e('i', d)),
			lambda: '%s[::-1]' % self.e('li', d),
			lambda: 'list(%s.values())' % self.e('d', d),
			lambda: '[a + b for a, b in zip(%s, %s)]' % (self.e('li', d), self.e('li', d)),
			lambda: '[i * x for i, x in enumerate(%s, %s)]' % (self.e('li', d), r.choice(['0', '1'])),
			lambda: 'list(map(lambda x: x + 1, %s))' % self.e('li', d),
			lambda: 'list(filter(None, %s))' % self.e('li', d),
			lambda: 'list(filter(lambda x: x > 0, %s))' % self.e('li', d),
			lambda: 'list(range(%s, %s))' % (r.choice(['0', '1']), r.choice(['3', 'len(%s)' % self.e('li', d)])),
			lambda: '[len(x) for x in %s]' % self.e('ls', d),
			lambda: '[*%s, %s]' % (self.e('li', d), self.e('i', d)),
			lambda: 'list(gen(%s))' % self.e('li', d),
			lambda: '(%s if %s else %s)' % (self.e('li', d), self.e('b', d), self.e('li', d)),
			lambda: 'list(dict.fromkeys(%s))' % self.e('li', d),
			lambda: '[x.n for x in %s]' % self.e('lo', d),
			lambda: 'list(chain(%s, %s))' % (self.e('li', d), self.e('li', d)),
			lambda: '[x for y in (%s, %s) for x in y]' % (self.e('li', d), self.e('li', d)),
			lambda: '[p * q for p, q in product(%s, %s)]' % (self.e('tu', d), self.e('tu', d)),
			lambda: 'list(takewhile(lambda x: x < 2, %s))' % self.e('li', d),
			lambda: 'list(islice(%s, 2))' % self.e('li', d),
			lambda: 'outer(min(%s, 3))' % self.e('i', d),
			lambda: '[x for x, y in pairs(%s, %s) if y is not None]' % (self.e('li', d), self.e('li', d)),
			lambda: '[*map(operator.attrgetter("n"), %s._d.values())]' % self.e('g', d),
			lambda: '[a for a, *b in [%s, %s]]' % (self.e('li', d), self.e('tu', d)),
			lambda: 'list(map(sum, zip(%s, %s)))' % (self.e('li', d), self.e('tu', d)),
			lambda: 'sorted(%s, key=functools.cmp_to_key(lambda a, b: b - a))' % self.e('li', d),
			lambda: 'list(accumulate(%s))' % self.e('li', d),
			lambda: '[x for i, x in enumerate(%s) if x not in %s[:i]]' % (self.e('li', 0), self.e('li', 0)),
			lambda: 'sum([[x, x] for x in %s], [])' % self.e('li', d),
			lambda: '(%s or %s)' % (self.e('li', d), self.e('li', d)),
			lambda: 'list(deque(%s, maxlen=2))' % self.e('li', d),
		])()

	def e_ls(self, d):
		r = self.r
		return r.choice([
			lambda: '[%s]' % ', '.join(self.e('s', d) for _ in range(r.randint(0, 3))),
			lambda: 'sorted(%s)' % self.e(r.choice(['ls', 'd']), d),
			lambda: 'list(%s)' % self.e(r.choice(['d', 's', 'ls']), d),
			lambda: '[k for k, v in %s.items() if v > %s]' % (self.e('d', d), self.e('i', d)),
			lambda: '[x for x in %s if x != %s]' % (self.e('ls', d), self.e('s', d)),
			lambda: "'a,b'.split(%s or ',')" % self.e('s', 0),
			lambda: '%s.split()' % self.e('s', d),
			lambda: '(%s + %s)' % (self.e('ls', d), self.e('ls', d)),
			lambda: 'sorted(%s, key=lambda x: %s.get(x, 9))' % (self.e('ls', d), self.e('d', 0)),
			lambda: '[x.s for x in sorted(%s)]' % self.e('lo', d),
			lambda: '[*%s]' % self.e('g', d),
			lambda: '%s.walk(%s)' % (self.e('g', d), self.e('s', d)),
			lambda: 'list(%s._l)' % self.e('g', d),
			lambda: '[k for k, _ in sorted(%s.items(), key=lambda t: (-t[1], t[0]))]' % self.e('d', d),
			lambda: 'list(map(str, %s))' % self.e('li', d),
			lambda: '[k for k, xs in groupby(%s)]' % self.e('ls', d),
		])()

	def e_d(self, d):
		r = self.r
		return r.choice([
			lambda: '{%s}' % ', '.join('%s: %s' % (self.e('s', d), self.e('i', d)) for _ in range(r.randint(0, 3))),
			lambda: '{k: v + 1 for k, v in %s.items()}' % self.e('d', d),
			lambda: '{k: i for i, k in enumerate(%s)}' % self.e('ls', d),
			lambda: '{k: v for k, v in %s.items() if k != %s}' % (self.e('d', d), self.e('s', d)),
			lambda: '{**%s, **%s}' % (self.e('d', d), self.e('d', d)),
			lambda: 'dict(zip(%s, %s))' % (self.e('ls', d), self.e('li', d)),
			lambda: 'dict(%s, a=%s)' % (self.e('d', d), self.e('i', d)),
			lambda: '(%s | %s)' % (self.e('d', d), self.e('d', d)),
			lambda: 'dict(Counter(%s))' % self.e('s', d),
			lambda: '(%s if %s else %s)' % (self.e('d', d), self.e('b', d), self.e('d', d)),
			lambda: '%s.copy()' % self.e('d', d),
			lambda: 'group(%s)' % self.e('ls', d),
		])()

	def e_si(self, d):
		r = self.r
		return r.choice([
			lambda: 'set(%s)' % self.e(r.choice(['li', 'tu', 'si']), d),
			lambda: '{x %s %s for x in %s}' % (r.choice(['+', '%']), r.choice(['1', '2']), self.e('li', d)),
			lambda: '(%s %s %s)' % (self.e('si', d), r.choice(['|', '&', '-', '^']), self.e('si', d)),
			lambda: '%s.%s(%s)' % (self.e('si', d), r.choice(['union', 'difference', 'intersection']), self.e(r.choice(['li', 'si']), d)),
			lambda: '{%s, %s}' % (self.e('i', d), self.e('i', d)),
			lambda: 'set(%s.values())' % self.e('d', d),
		])()

	def e_tu(self, d):
		r = self.r
		return r.choice([
			lambda: '(%s, %s)' % (self.e('i', d), self.e('i', d)),
			lambda: 'tuple(%s)' % self.e('li', d),
			lambda: '(%s + %s)' % (self.e('tu', d), self.e('tu', d)),
			lambda: '(%s if %s else %s)' % (self.e('tu', d), self.e('b', d), self.e('tu', d)),
			lambda: '%s[%s:]' % (self.e('tu', d), r.choice(['1', '-1'])),
		])()

	def e_o(self, d):
		r = self.r
		return r.choice([
			lambda: '(%s if %s else None)' % (self.e(r.choice(['i', 's']), d), self.e('b', d)),
			lambda: '%s.get(%s)' % (self.e('d', d), self.e('s', d)),
			lambda: 'first(%s)' % self.e('li', d),
			lambda: '(%s or None)' % self.e('s', d),
			lambda: '{**{"z": None}, **%s}.pop(%s, "none")' % (self.e('d', d), self.e('s', d)),
		])()

	def e_lo(self, d):
		r = self.r
		return r.choice([
			lambda: '[P(%s, %s)]' % (self.e('i', d), self.e('s', d)),
			lambda: '[P(n, s) for n, s in zip(%s, %s)]' % (self.e('li', d), self.e('ls', d)),
			lambda: 'sorted(%s, key=lambda p: p.n)' % self.e('lo', d),
			lambda: '[p for p in %s if p.n > %s]' % (self.e('lo', d), self.e('i', d)),
			lambda: '(%s + %s)' % (self.e('lo', d), self.e('lo', d)),
			lambda: 'copy.deepcopy(%s)' % self.e('lo', d),
			lambda: 'list(set(%s)) if len(%s) < 2 else []' % (self.e('lo', 0), self.e('lo', 0)) if False else '[p.bump(%s) for p in %s]' % (self.e('i', d), self.e('lo', d)),
		])()

	def e_g(self, d):
		r = self.r
		return r.choice([
			lambda: '%s.make(*%s, start=%s)' % (r.choice(['Base', 'Derived']), self.e('ls', d), self.e('i', d)),
			lambda: 'copy.deepcopy(%s)' % self.e('g', d),
			lambda: 'Derived(limit=%s)' % self.e('i', d),
			lambda: 'Derived(%s, extra=%s)' % (self.e('i', d), self.e('o', d)),
			lambda: '(%s if %s else %s)' % (self.e('g', d), self.e('b', d), self.e('g', d)),
			lambda: 'copy.copy(%s)' % self.e('g', d),
			lambda: 'pickle.loads(pickle.dumps(%s))' % self.e('g', d),
		])()

	# ------------------------------------------------------------ statements
	def emit(self, ind, text):
		self.out.append('\t' * ind + text)

	def assign(self, ind, t=None):
		t = t or self.r.choice(['i', 's', 'b', 'li', 'li', 'ls', 'd', 'd', 'si', 'tu', 'o', 'lo', 'g', 'g'])
		old = self.pick(t)
		v = old if old and self.r.random() < 0.4 else self.fresh(t)
		self.emit(ind, '%s = %s' % (v, self.e(t, 3)))
		return t, v

	def mutate(self, ind):
		r = self.r
		t = r.choice(['li', 'li', 'd', 'd', 'si', 'ls', 'lo', 'g', 'g', 'g'])
		v = self.pick(t)
		if v is None:
			return self.emit(ind, 'pass')
		i, s = lambda: self.e('i', 1), lambda: self.e('s', 1)
		m = {'li': [lambda: '%s.append(%s)' % (v, i()), lambda: '%s.remove(%s)' % (v, i()), lambda: '%s.pop()' % v, lambda: '%s.pop(%s)' % (v, i()), lambda: '%s.insert(%s, %s)' % (v, i(), i()),
				lambda: '%s.extend(%s)' % (v, self.e('li', 1)), lambda: '%s += %s' % (v, self.e('li', 1)), lambda: '%s[%s] = %s' % (v, i(), i()), lambda: 'del %s[%s]' % (v, i()), lambda: '%s.sort(reverse=%s)' % (v, self.e('b', 1)),
				lambda: '%s.reverse()' % v, lambda: '%s.clear()' % v, lambda: '%s[%s:] = %s' % (v, r.choice('01'), self.e('li', 1))],
			'd': [lambda: '%s[%s] = %s' % (v, s(), i()), lambda: 'del %s[%s]' % (v, s()), lambda: '%s.pop(%s, None)' % (v, s()), lambda: '%s.update(%s)' % (v, self.e('d', 1)), lambda: '%s.setdefault(%s, %s)' % (v, s(), i()),
				lambda: '%s[%s] += 1' % (v, s()), lambda: '%s.popitem()' % v, lambda: '%s.clear()' % v, lambda: '%s |= %s' % (v, self.e('d', 1))],
			'si': [lambda: '%s.add(%s)' % (v, i()), lambda: '%s.discard(%s)' % (v, i()), lambda: '%s.remove(%s)' % (v, i()), lambda: '%s |= %s' % (v, self.e('si', 1)), lambda: '%s -= %s' % (v, self.e('si', 1)), lambda: '%s.update(%s)' % (v, self.e('li', 1))],
			'g': [lambda: '%s[%s] = %s' % (v, s(), i()), lambda: '%s[%s] += %s' % (v, s(), i()) if False else '%s[%s].n += %s' % (v, s(), i()), lambda: 'del %s[%s]' % (v, s()), lambda: '%s.limit = %s' % (v, i()),
				lambda: '%s.kind = %s' % (v, s()), lambda: 'vars(%s).update(_d={})' % v if False else '%s._l.append(%s)' % (v, s()), lambda: 'type(%s).count += %s' % (v, i()) if False else '%s.count += %s' % (v, i()), lambda: 'setattr(%s, %s, %s)' % (v, r.choice(["'_x'", "'limit'"]), i())],
			'ls': [lambda: '%s.append(%s)' % (v, s()), lambda: '%s.remove(%s)' % (v, s()), lambda: '%s.sort(key=lambda x: (len(x), x))' % v],
			'lo': [lambda: '%s[0].n = %s' % (v, i()), lambda: '%s[-1].n += 1' % v, lambda: '%s.append(P(%s, %s))' % (v, i(), s()), lambda: 'setattr(%s[0], "s", %s)' % (v, s()), lambda: '%s.sort()' % v]}
		self.emit(ind, r.choice(m[t])())

	def block(self, ind, n, depth, loop=False):
		saved = {k: list(x) for k, x in self.vars.items()}
		for _ in range(n):
			self.stmt(ind, depth, loop)
		self.vars = saved

	def stmt(self, ind, depth=2, loop=False):
		r = self.r
		k = r.random()
		if depth <= 0 or k < 0.3:
			t, v = self.assign(ind)
			self.vars.setdefault(t, [])
			if v not in self.vars[t]:
				self.vars[t].append(v)
		elif k < 0.55:
			self.mutate(ind)
		elif k < 0.68:
			self.emit(ind, 'if %s:' % self.e('b', 2))
			self.block(ind + 1, r.randint(1, 2), depth - 1, loop)
			if r.random() < 0.5:
				self.emit(ind, 'elif %s:' % self.e('b', 2))
				self.block(ind + 1, 1, depth - 1, loop)
			if r.random() < 0.5:
				self.emit(ind, 'else:')
				self.block(ind + 1, r.randint(1, 2), depth - 1, loop)
		elif k < 0.8:
			it = self.fresh('i')
			kind = r.choice(['li', 'ls', 'd', 'items', 'si'])
			if kind == 'items':
				key = self.fresh('s')
				self.emit(ind, 'for %s, %s in list(%s.items()):' % (key, it, self.e('d', 1)))
				vt = [('s', key), ('i', it)]
			elif kind == 'si':
				self.emit(ind, 'for %s in sorted(%s):' % (it, self.e('si', 1)))
				vt = [('i', it)]
			else:
				self.emit(ind, 'for %s in %s:' % (it, 'list(%s)[:3]' % self.e(kind, 1)))
				vt = [('i' if kind == 'li' else 's', it)]
			saved = {a: list(x) for a, x in self.vars.items()}
			for t, x in vt:
				self.vars.setdefault(t, []).append(x)
			self.block(ind + 1, r.randint(1, 2), depth - 1, True)
			if r.random() < 0.4:
				self.emit(ind + 1, 'if %s:' % self.e('b', 1))
				self.emit(ind + 2, r.choice(['break', 'continue']))
				self.block(ind + 1, 1, depth - 1, True)
			self.vars = saved
			if r.random() < 0.2:
				self.emit(ind, 'else:')
				self.block(ind + 1, 1, depth - 1, loop)
		elif k < 0.86:
			c = self.fresh('i')
			self.emit(ind, '%s = 0' % c)
			self.emit(ind, 'while %s < 3 and %s:' % (c, self.e('b', 1)))
			self.emit(ind + 1, '%s += 1' % c)
			self.block(ind + 1, r.randint(1, 2), depth - 1, True)
		elif k < 0.93:
			self.emit(ind, 'try:')
			self.block(ind + 1, r.randint(1, 2), depth - 1, loop)
			self.emit(ind, 'except (%s):' % r.choice(['KeyError, IndexError', 'ValueError', 'LookupError, ZeroDivisionError', 'Exception']))
			self.block(ind + 1, 1, depth - 1, loop)
			if r.random() < 0.3:
				self.emit(ind, 'finally:')
				self.assign(ind + 1)
		else:
			f = self.fresh('f')
			a = self.fresh('i')
			self.emit(ind, 'def %s(%s, q=%s):' % (f, a, self.e('i', 1)))
			saved = {x: list(y) for x, y in self.vars.items()}
			t = r.choice(['i', 'li', 's'])
			self.vars.setdefault('i', []).extend([a, 'q'])
			self.emit(ind + 1, 'if %s:' % self.e('b', 1))
			self.emit(ind + 2, 'return %s' % self.e(t, 2))
			self.emit(ind + 1, 'return %s' % self.e(t, 2))
			self.vars = saved
			v = self.fresh(t)
			self.emit(ind, '%s = %s(%s)' % (v, f, self.e('i', 1)))
			self.vars.setdefault(t, []).append(v)

	def show(self, ind, tag):
		xs = [x for t in ('i', 's', 'b', 'li', 'ls', 'd', 'tu', 'o') for x in self.vars.get(t, [])[-3:]]
		xs += ['sorted(%s)' % x for x in self.vars.get('si', [])[-2:]] + ['[(p.n, p.s) for p in %s]' % x for x in self.vars.get('lo', [])[-2:]] + ['(str(%s), %s._l, %s.count)' % (x, x, x) for x in self.vars.get('g', [])[-2:]]
		for x in xs:
			self.emit(ind, 'sym.observe(%r, %s)' % (tag + x, x))

	def function(self, name, n):
		r = self.r
		self.vars, self.n = {}, 0
		self.emit(0, 'def %s(sym):' % name)
		for j in range(r.randint(1, 2)):
			self.emit(1, "b%d = sym.bool('b%d')" % (j, j))
			self.vars.setdefault('b', []).append('b%d' % j)
		self.emit(1, "i0 = sym.choice('i0', [0, 1, 3, -1])")
		self.emit(1, "s0 = sym.choice('s0', ['', 'a', 'b', 'ab'])")
		self.emit(1, "li0 = [x for x in (0, 1, 2) if sym.bool('l%d' % x)]")
		self.emit(1, "d0 = {k: 1 for k in ('a', 'b') if sym.bool('d' + k)}")
		self.vars.update(i=['i0'], s=['s0'], li=['li0'], d=['d0'])
		for k in range(n):
			self.emit(1, 'try:')
			t = r.choice(['assign', 'stmt', 'stmt'])
			saved = {x: list(y) for x, y in self.vars.items()}
			self.stmt(2, 2)
			new = self.vars
			self.emit(1, 'except Exception as e:')
			self.emit(2, "sym.observe('x%d', type(e).__name__)" % k)
			# a variable that may be unassigned must not be used later
			fresh = [(t, x) for t in new for x in new[t] if x not in saved.get(t, [])]
			for t, x in fresh:
				self.emit(2, '%s = %s' % (x, self.leaf(t)))
			self.show(1, '%d:' % k)
		self.emit(1, "sym.observe('end', 1)")
		self.emit(0, '')
		self.emit(0, '')


HEAD = '''import copy
from collections import deque, Counter, defaultdict
import functools
import operator
import pickle
from itertools import chain, product, takewhile, islice, accumulate, groupby
from functools import reduce, total_ordering


@total_ordering
class P:
	def __init__(self, n, s):
		self.n, self.s = n, s

	def __eq__(self, other):
		return (self.n, self.s) == (other.n, other.s)

	def __lt__(self, other):
		return (self.n, self.s) < (other.n, other.s)

	def __hash__(self):
		return hash((self.n, self.s))

	@property
	def twice(self):
		return 2 * self.n

	def bump(self, k):
		self.n += k
		return self


class Base:
	kind = 'base'
	count = 0

	def __init__(self, **kw):
		self._d = {}
		self._l = []
		for k, v in kw.items():
			setattr(self, '_' + k, v)

	def __getattr__(self, name):
		if name.startswith('_'):
			raise AttributeError(name)
		return self.__dict__.get('_' + name)

	def __contains__(self, x):
		return x in self._d

	def __len__(self):
		return len(self._d)

	def __getitem__(self, k):
		return self._d[k]

	def __setitem__(self, k, v):
		if k in self._d:
			self._d[k].n += v
		else:
			self._d[k] = P(v, k)
			self._l.append(k)

	def __delitem__(self, k):
		self._l.remove(self._d.pop(k).s)

	def __iter__(self):
		yield from self._d

	def __str__(self):
		return '%s(%s)' % (self.name(), ', '.join(f'{k}={v.n}' for k, v in self._d.items()))

	def name(self):
		return self.kind

	def walk(self, k, seen=None):
		seen = [] if seen is None else seen
		if k in seen or k not in self._d:
			return seen
		seen.append(k)
		for x, p in sorted(self._d.items(), key=lambda t: (t[1].n, t[0])):
			if p.n >= self._d[k].n:
				self.walk(x, seen)
		return seen

	@classmethod
	def make(cls, *keys, start=0):
		o = cls()
		for i, k in enumerate(keys):
			o[k] = i + start
		return o

	@staticmethod
	def join(*xs, sep='/'):
		return sep.join(str(x) for x in xs)

	def __getstate__(self):
		return {'items': [(k, v.n) for k, v in self._d.items()]}

	def __setstate__(self, state):
		self._d, self._l = {}, []
		for k, n in state['items']:
			self[k] = n


class Derived(Base):
	kind = 'derived'

	def __init__(self, limit=2, *args, **kw):
		super().__init__(*args, **kw)
		self._limit = limit

	@property
	def limit(self):
		return self._limit

	@limit.setter
	def limit(self, x):
		if x < 0:
			raise ValueError('negative')
		self._limit = x

	def __setitem__(self, k, v):
		if len(self) >= self.limit and k not in self:
			raise OverflowError(k)
		super().__setitem__(k, v)

	def name(self):
		return super().name() + '!' + Base.name(self)

	def __setstate__(self, state):
		self._limit = 9
		super().__setstate__(state)


def counted(f):
	calls = [0]

	def inner(*args, **kw):
		calls[0] += 1
		return f(*args, **kw) + calls[0]
	return inner


@counted
def noted(x, y=1):
	return x * y


def outer(x):
	total = 0

	def add(y):
		nonlocal total
		total += y
		return total
	return [add(i) for i in range(x)] + [total]


def pairs(xs, ys):
	for x in xs:
		for y in ys:
			if x == y:
				break
			yield x, y
		else:
			yield x, None


def hlp(x, *rest, k=1, **more):
	if x > k:
		return x - k
	for y in (1, 2):
		if y == x:
			return y * 10
	return k


def rec(x):
	return 0 if x <= 0 else min(x, 3) + rec(min(x, 3) - 1)


def gen(xs):
	for x in xs:
		if x > 2:
			return
		if x:
			yield x
		yield from [x, -x][:x]


def first(xs):
	for x in xs:
		return x


def group(xs):
	d = defaultdict(list)
	for x in xs:
		d[x[:1]].append(x)
	return {k: len(v) for k, v in d.items()}


'''


def one(seed):
	g = Gen(seed)
	g.function('f', 5)
	d = tempfile.mkdtemp(prefix='fz')
	p = os.path.join(d, 'fuzz.py')
	text = HEAD + '\n'.join(g.out)
	open(p, 'w').write(text)
	try:
		x = subprocess.run([sys.executable, '-m', 'pysym.runner', p, 'f', '--validate', '30', '--seed', str(seed)], cwd=ROOT, capture_output=True, text=True, timeout=200,
			env=dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1'))
		res = json.loads(x.stdout)
	except subprocess.TimeoutExpired:
		return seed, 'TIMEOUT', text
	except ValueError:
		return seed, 'CRASH ' + x.stderr[-600:], text
	finally:
		import shutil
		shutil.rmtree(d)
	bad = []
	for k in ('error', 'violations', 'unreproduced', 'mismatches', 'bound_hits'):
		if res[k]:
			bad.append('%s: %s' % (k, json.dumps(res[k])[:500]))
	return seed, '\n'.join(bad), text


if __name__ == '__main__':
	import concurrent.futures
	a, b = int(sys.argv[1]), int(sys.argv[2])
	ok = 0
	with concurrent.futures.ThreadPoolExecutor(8) as ex:
		for seed, bad, text in ex.map(one, range(a, b)):
			if bad:
				print('SEED', seed, bad)
				open('/tmp/fz/%d.py' % seed, 'w').write(text)
			else:
				ok += 1
	print(ok, 'of', b - a, 'agree')
