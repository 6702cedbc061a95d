"""Run one harness function symbolically, replay its counterexamples natively, validate the encoding on sampled inputs.

usage: python3-vt -m pysym.runner HARNESS.py FUNC [--tier quick] [--repo /repo] [--validate N] [--out FILE]
"""
import argparse
import json
import os
import random
import signal
import subprocess
import sys
import time
from .aig import Inconclusive
from .engine import Run

HERE = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get('VERIF_NATIVE_PYTHON', '/opt/venv/bin/python')


def replay(repo, path, func, tier, jobs, timeout=240):
	env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
	env.pop('PYTHONPATH', None)
	p = subprocess.run([PY, os.path.join(HERE, 'replay.py'), repo, path, func, tier], input=json.dumps(jobs), capture_output=True,
		text=True, env=env, timeout=timeout, cwd='/')
	if p.returncode != 0:
		raise RuntimeError('native replay failed: ' + p.stderr[-2000:])
	return json.loads(p.stdout)


def run(path, func, tier='quick', repo='/repo', validate=12, seed=1, timeout_ms=300000, max_cex=8, part=None):
	t0 = time.time()
	r = Run(path, func, tier, repo, seed, timeout_ms, part)
	r.execute()
	signal.alarm(0)
	i = r.i
	res = dict(harness='%s:%s%s' % (os.path.basename(path), func, '' if part is None else '#%d' % part), empty=False, tier=tier, error=r.error, wall_s=round(r.wall, 2), violations=[],
		unreproduced=[], checks={}, covers={}, bounds=r.bounds, encoded=sorted(i.encoded), steps=i.steps,
		guards=len(i.g.left), inputs=len(r.inputs), validated=0, mismatches=[], bound_hits=[], end_reached=False,
		solver=dict(i.g.stats))
	if r.error is None:
		try:
			analyse(r, res, path, func, tier, repo, validate, seed, max_cex)
		except Exception as e:
			if type(e).__name__ in ('Unsupported', 'Inconclusive', 'TimeoutExpired', 'RuntimeError'):
				res['error'] = '%s: %s' % (type(e).__name__, e)
			else:
				raise
	else:
		try:
			salvage(r, res, path, func, tier, repo, seed, max_cex)
		except Exception as e:
			res['error'] += ' (replay: %s: %s)' % (type(e).__name__, str(e)[:200])
	res['solver'] = dict(i.g.stats)
	res['total_s'] = round(time.time() - t0, 2)
	return res


def analyse(r, res, path, func, tier, repo, validate, seed, max_cex):
	part = r.part
	i = r.i
	g = i.g
	res['end_reached'] = bool(g.feasible(r.end_guard))
	# a part of a case split may be excluded by the assumptions
	res['empty'] = part is not None and not res['end_reached'] and not r.violations and not r.i.bound_hits
	res['checks'] = {k: v[0] for k, v in r.checks.items()}
	for k, l in r.covers.items():
		res['covers'][k] = bool(g.feasible(l))
	for p, what in i.bound_hits:
		if g.feasible(p):
			res['bound_hits'].append(what)
	jobs, meta = [], []
	seen = set()
	known_or = 0
	for guard, msg, where in r.violations:
		if len(jobs) >= max_cex:
			break
		if (msg, where) in seen:
			continue
		seen.add((msg, where))
		if g.feasible(guard):
			w = g.witness(guard)
			jobs.append(r.assignment(w))
			meta.append((msg, where, w))
	nv = len(jobs)
	# bounds that were hit: replay natively too (non-termination shows as RecursionError or a time limit there)
	rng = random.Random(seed)
	wits = []
	if res['end_reached']:
		for _ in range(validate):
			w = r.sample_witness(rng)
			if w is None:
				w = g.witness(r.end_guard)
			wits.append(w)
			jobs.append(r.assignment(w))
	for p, what in i.bound_hits[:2]:
		if g.feasible(p):
			jobs.append(r.assignment(g.witness(p)))
	if not jobs:
		return
	out = replay(repo, path, func, tier, jobs)
	for (msg, where, w), o, job in zip(meta, out[:nv], jobs[:nv]):
		rec = dict(message=msg, where=where, inputs=job, native=dict(status=o['status'], msg=o['msg'], where=o['where'][-600:]))
		if o['status'] in ('fail', 'exception'):
			res['violations'].append(rec)
		else:
			res['unreproduced'].append(rec)
	for w, o, job in zip(wits, out[nv:nv + len(wits)], jobs[nv:nv + len(wits)]):
		exp = r.observations(w)
		got = [tuple(x) for x in o['observed']]
		if o['status'] in ('fail', 'exception'):
			# the real code fails on an input the encoding calls fine: a real violation the encoding missed
			res['mismatches'].append(dict(inputs=job, native=dict(status=o['status'], msg=o['msg'], where=o['where'][-600:])))
		elif o['status'] == 'assume':
			res['mismatches'].append(dict(inputs=job, native=dict(status='assume', msg='assumption fails natively', where='')))
		elif exp != got:
			d = [(a, b) for a, b in zip(exp, got) if a != b] or [(len(exp), len(got))]
			res['mismatches'].append(dict(inputs=job, expected=[str(x[0]) for x in d[:3]], got=[str(x[1]) for x in d[:3]]))
		else:
			res['validated'] += 1
	for o, job in zip(out[nv + len(wits):], jobs[nv + len(wits):]):
		if o['status'] in ('fail', 'exception'):
			res['violations'].append(dict(message='bound reached', where='', inputs=job, native=dict(status=o['status'], msg=o['msg'], where=o['where'][-600:])))


def salvage(r, res, path, func, tier, repo, seed, max_cex):
	"""the encoding gave up: replay the counterexamples found until then and solver models of the path it gave up on

	What fails natively is a violation; what does not leaves the harness without an answer.
	"""
	g = r.i.g
	jobs, meta = [], []
	for guard, msg, where in r.violations[:max_cex]:
		if g.feasible(guard):
			jobs.append(r.assignment(g.witness(guard)))
			meta.append((msg, where))
	rng = random.Random(seed)
	if r.error_pc is not None and g.feasible(r.error_pc):
		wits = [g.witness(r.error_pc)] + [r.sample_witness(rng, r.error_pc) for _ in range(23)]
		for k, w in enumerate(wits):
			if w is not None:
				jobs.append(dict(r.assignment(w), **({'#seed': k} if k else {})))    # inputs not read so far: any values
				meta.append(('the encoding gave up here (%s)' % res['error'], ''))
	if not jobs:
		return
	out = replay(repo, path, func, tier, jobs)
	seen = set()
	for (msg, where), o, job in zip(meta, out, jobs):
		if o['status'] in ('fail', 'exception') and o['msg'] not in seen:
			seen.add(o['msg'])
			res['violations'].append(dict(message=msg, where=where, inputs=job, native=dict(status=o['status'], msg=o['msg'], where=o['where'][-600:])))


def main():
	ap = argparse.ArgumentParser()
	ap.add_argument('path')
	ap.add_argument('func')
	ap.add_argument('--tier', default='quick')
	ap.add_argument('--repo', default='/repo')
	ap.add_argument('--validate', type=int, default=12)
	ap.add_argument('--seed', type=int, default=1)
	ap.add_argument('--part', type=int)
	ap.add_argument('--out')
	ap.add_argument('--profile', action='store_true')
	ap.add_argument('--deadline', type=int, default=0)
	a = ap.parse_args()
	if a.deadline:
		def late(*_):
			raise Inconclusive('time limit of %d s' % a.deadline)
		signal.signal(signal.SIGALRM, late)
		signal.alarm(a.deadline)
	if a.profile:
		import cProfile
		import pstats
		pr = cProfile.Profile()
		res = pr.runcall(run, os.path.abspath(a.path), a.func, a.tier, a.repo, a.validate, a.seed, part=a.part)
		pstats.Stats(pr).sort_stats('cumulative').print_stats(45)
	else:
		res = run(os.path.abspath(a.path), a.func, a.tier, a.repo, a.validate, a.seed, part=a.part)
	text = json.dumps(res, indent=1)
	if a.out:
		with open(a.out, 'w') as f:
			f.write(text)
	else:
		print(text)
	bad = res['error'] or res['violations'] or res['mismatches'] or res['unreproduced'] or res['bound_hits'] or not res['end_reached']
	sys.exit(1 if bad else 0)


if __name__ == '__main__':
	main()
