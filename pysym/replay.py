"""Native replay of harness functions: /opt/venv/bin/python replay.py REPO HARNESS FUNC TIER < assignments.json > results.json

Runs the real code (and the real libraries) with concrete inputs.  Only the standard library is used here.
"""
import importlib.util
import json
import os
import random
import sys
import traceback
from fractions import Fraction


class AssumeFailed(BaseException):
	pass


class CheckFailed(BaseException):
	pass


class Sym:
	def __init__(self, values, tier):
		self.v = values
		self.tier = tier
		self.observed = []
		self.used = {}

	def any(self, name):
		"""a generator for an input without a value, if those are to be chosen"""
		return None if name in self.v or '#seed' not in self.v else random.Random('%s:%s' % (self.v['#seed'], name))

	def bool(self, name):
		r = self.any(name)
		return r.random() < 0.5 if r else bool(self.v.get(name, False))

	def part(self, n):
		return self.v.get('#part', 0)

	def choice(self, name, options):
		options = tuple(options)
		r = self.any(name)
		if r:
			return r.choice(options)
		return options[self.v.get(name, 0) % len(options)]

	def int(self, name, lo, hi):
		r = self.any(name)
		return r.randint(lo, hi) if r else self.v.get(name, lo)

	def real(self, name, lo, hi):
		r = self.any(name)
		if r:
			return float(lo + (hi - lo) * r.randint(0, 64) / 64)
		return float(Fraction(self.v.get(name, str(lo))))

	def str(self, name, min_len, max_len, alphabet=None):
		r = self.any(name if alphabet is None else name + '.len')
		if r:
			return ''.join(r.choice(list(alphabet or 'a"\\\n<> {}')) for _ in range(r.randint(min_len, max_len)))
		if alphabet is None:
			x = self.v.get(name, [97] * min_len)
			return ''.join(chr(c) for c in x)
		n = min_len + self.v.get(name + '.len', 0)
		return ''.join(tuple(alphabet)[self.v.get('%s.%d' % (name, j), 0)] for j in range(n))

	def bound(self, name, quick, thorough):
		return thorough if self.tier == 'thorough' else quick

	def thorough(self):
		return self.tier == 'thorough'

	def assume(self, cond):
		if not cond:
			raise AssumeFailed()

	def check(self, cond, msg):
		if not cond:
			raise CheckFailed(msg)

	def fail(self, msg):
		raise CheckFailed(msg)

	def cover(self, name, cond=True):
		pass

	def known(self, kid, cond):
		pass

	def observe(self, name, value):
		self.observed.append((name, repr(value)))


def main():
	repo, path, func, tier = sys.argv[1:5]
	sys.dont_write_bytecode = True
	sys.path.insert(0, repo)
	sys.path.insert(1, os.path.dirname(os.path.abspath(path)))
	real_out = os.fdopen(os.dup(1), 'w')
	os.dup2(2, 1)      # whatever the code prints does not disturb the protocol
	jobs = json.load(sys.stdin)
	import builtins
	cur = [None]
	builtins.sym_draw = lambda stream, i: float(Fraction(cur[0].v.get('random:%s:%s' % (stream, i), '0')))
	builtins.sym_draw_index = lambda stream, i, n: cur[0].v.get('randindex:%s:%s:%d' % (stream, i, n), 0)
	import colouration
	import graphviz
	import base32hex
	import importlib
	with open(path) as f:
		src = f.read()
	stub = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs', 'random.py')
	spec = importlib.util.spec_from_file_location('random_stub', stub)
	results = []
	if 'STUB_RANDOM = True' in src:
		rs = importlib.util.module_from_spec(spec)
		spec.loader.exec_module(rs)
		sys.modules['random'] = rs
	if 'STUB_GRAPHVIZ = True' in src:
		gstub = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs', 'graphviz.py')
		gspec = importlib.util.spec_from_file_location('graphviz', gstub)
		gs = importlib.util.module_from_spec(gspec)
		gspec.loader.exec_module(gs)
		sys.modules['graphviz'] = gs
	spec = importlib.util.spec_from_file_location(os.path.splitext(os.path.basename(path))[0], path)
	import_error = None
	try:
		m = importlib.util.module_from_spec(spec)
		sys.modules[spec.name] = m
		spec.loader.exec_module(m)
	except BaseException as e:
		import_error = dict(status='exception', msg='while importing: %s: %s' % (type(e).__name__, e), where=traceback.format_exc()[-1500:], observed=[])
	sys.setrecursionlimit(1500)
	for values in jobs:
		if import_error:
			results.append(import_error)
			continue
		s = Sym(values, tier)
		cur[0] = s
		if 'STUB_RANDOM = True' in src:
			rs._reset()
		r = dict(status='pass', msg='', where='')
		try:
			getattr(m, func)(s)
		except AssumeFailed:
			r['status'] = 'assume'
		except CheckFailed as e:
			r.update(status='fail', msg=str(e))
			r['where'] = traceback.format_exc(limit=-2)[-800:]
		except Exception as e:
			r.update(status='exception', msg='%s: %s' % (type(e).__name__, str(e)[:300]), where=traceback.format_exc(limit=-6)[-1500:])
		r['observed'] = s.observed
		results.append(r)
	json.dump(results, real_out)
	real_out.close()


if __name__ == '__main__':
	main()
