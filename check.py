#!/usr/bin/env python3
"""Decide one property: python3-vt check.py C04 [--tier quick|thorough] [--repo /repo] [--only FUNC]

Every harness function of harness/<id>.py is executed symbolically over the source in REPO; each assertion becomes a
solver query.  Exit 0: no reachable violation within the bounds.  Exit 1: a violation, reproduced on the real code.
Exit 2: no answer (bound reached, construct not encodable, counterexample that does not reproduce, vacuous harness).
"""
import argparse
import ast
import concurrent.futures
import json
import os
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
ASSUMPTIONS = [
	'The symbolic executor (pysym/) implements the semantics of the Python constructs used; it is validated on every run by comparing sampled inputs with the real interpreter.',
	'Iteration order of sets equals insertion order in the encoding; no claim depends on it.',
	'colouration is modelled as a free algebra of colour operations; graphviz.Source, random, warnings, copy, pickle, hashlib by the models in pysym/stubs; hashes are collision-free.',
	'Floating point numbers that are symbolic are exact reals.',
	'Inputs outside the stated bounds are outside the claim.',
]


def functions(path):
	with open(path) as f:
		src = f.read()
	tree = ast.parse(src)
	thorough, parts = [], {}
	for n in tree.body:
		if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'THOROUGH_ONLY':
			thorough = ast.literal_eval(n.value)
		if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'PARTS':
			parts = ast.literal_eval(n.value)
	out = [n.name for n in tree.body if isinstance(n, ast.FunctionDef) and len(n.args.args) == 1 and n.args.args[0].arg == 'sym' and not n.name.startswith('_')]
	return out, thorough, parts


def run_one(path, func, part, tier, repo, seed, limit, validate):
	t = time.time()
	cmd = [sys.executable, '-m', 'pysym.runner', path, func, '--tier', tier, '--repo', repo, '--seed', str(seed), '--validate', str(validate),
		'--deadline', str(int(max(5, limit - 60 if limit > 200 else limit * 0.8)))]
	name = '%s:%s' % (os.path.basename(path), func)
	if part is not None:
		cmd += ['--part', str(part)]
		name += '#%d' % part
	env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
	try:
		p = subprocess.run(cmd, capture_output=True, text=True, cwd=ROOT, env=env, timeout=limit)
	except subprocess.TimeoutExpired:
		return dict(harness=name, error='time limit of %d s' % limit, total_s=time.time() - t)
	try:
		return json.loads(p.stdout)
	except ValueError:
		return dict(harness=name, error='engine failure: ' + (p.stderr or p.stdout)[-1500:], total_s=time.time() - t)


def load_known(prop):
	out = []
	p = os.path.join(ROOT, 'known-findings.txt')
	if os.path.exists(p):
		with open(p) as f:
			for line in f:
				line = line.strip()
				if line.startswith('known: property=%s ' % prop):
					out.append(line[len('known: '):])
	return out


def main():
	ap = argparse.ArgumentParser()
	ap.add_argument('prop')
	ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
	ap.add_argument('--repo', default='/repo')
	ap.add_argument('--only')
	ap.add_argument('--first', action='store_true', help='start no further harness once a violation is found (mutation tests)')
	ap.add_argument('--jobs', type=int, default=8)
	ap.add_argument('--limit', type=int, default=0)
	ap.add_argument('--evidence', default=os.path.join(ROOT, 'evidence'))
	a = ap.parse_args()
	t0 = time.time()
	seed = int(os.environ.get('VERIF_SEED', '1') or 1)
	path = os.path.join(ROOT, 'harness', a.prop + '.py')
	funcs, thorough_only, parts = functions(path)
	if a.tier != 'thorough':
		funcs = [f for f in funcs if f not in thorough_only]
	if a.only:
		funcs = [f for f in funcs if f in a.only.split(',')]
	limit = a.limit or (780 if a.tier == 'quick' else 6000)
	repo = os.path.realpath(a.repo)
	jobs = []
	for f in funcs:
		k = parts.get(f)
		if isinstance(k, (tuple, list)):
			k = k[1 if a.tier == 'thorough' else 0]
		jobs += [(f, None)] if k is None else [(f, x) for x in range(k)]
	deadline = t0 + (limit if a.limit or a.tier == 'quick' else 10 ** 9)
	found = []

	def run(j):
		if found and a.first:
			return dict(harness='%s.py:%s' % (a.prop, j[0]), error='skipped')
		r = run_one(path, j[0], j[1], a.tier, repo, seed, max(5, min(limit, deadline - time.time())), 12 if j[1] is None else 3)
		found.extend(r.get('violations', []))
		return r
	with concurrent.futures.ThreadPoolExecutor(a.jobs) as ex:
		results = list(ex.map(run, jobs))
	os.makedirs(os.path.join(a.evidence, 'replay'), exist_ok=True)
	violations, problems = [], []
	for (f, _), r in zip(jobs, results):
		if r.get('error'):
			problems.append('%s: %s' % (r['harness'], r['error']))
			violations += [(f, v) for v in r.get('violations', [])]
			continue
		vs = list(r['violations'])
		for m in r['mismatches']:
			if m.get('native', {}).get('status') in ('fail', 'exception'):
				vs.append(dict(message='fails natively: ' + m['native']['msg'], where='', inputs=m['inputs'], native=m['native']))
			else:
				problems.append('%s: encoding differs from the real code: %s' % (r['harness'], json.dumps(m)[:600]))
		for v in vs:
			violations.append((f, v))
		if not vs:
			for v in r['unreproduced']:
				problems.append('%s: counterexample does not reproduce: %s at %s %s' % (r['harness'], v['message'], v['where'], json.dumps(v['inputs'])[:400]))
			for b in r['bound_hits']:
				problems.append('%s: %s' % (r['harness'], b))
			if not r['end_reached'] and not r['empty']:
				problems.append('%s: the end of the harness is unreachable' % r['harness'])
			for k, ok in r['covers'].items():
				if not ok:
					problems.append('%s: cover point %r is unreachable' % (r['harness'], k))
	for f in parts:
		mine = [r for (x, _), r in zip(jobs, results) if x == f]
		if mine and all(r.get('empty') for r in mine):
			problems.append('%s: every part is excluded by the assumptions' % f)
	lines = []
	for n, (f, v) in enumerate(violations):
		rp = os.path.join(a.evidence, 'replay', '%s-%d.json' % (a.prop, n))
		with open(rp, 'w') as fh:
			json.dump(dict(property=a.prop, harness=os.path.basename(path), function=f, tier=a.tier, **v), fh, indent=1)
		lines.append('VIOLATION property=%s replay=%s' % (a.prop, rp))
		print('%s:%s: %s (%s) native: %s' % (a.prop, f, v['message'], v['where'], v['native']['msg']))
	good = [r for r in results if not r.get('error')]
	samples = []
	for r in good:
		samples.append(dict(harness=r['harness'], bounds=r['bounds'], assertions=r['checks'], covers=r['covers'], inputs=r['inputs'],
			statements=r['steps'], guards=r['guards'], solver=r['solver'], seconds=r['total_s'], validated=r['validated']))
	enc = sorted(set(x for r in good for x in r['encoded']))
	ev = dict(property=a.prop, tier=a.tier, seed=seed, level='model_checking', coverage=dict(
		states=sum(r['guards'] for r in good), transitions=sum(r['steps'] for r in good),
		traces_validated_against_impl=sum(r['validated'] for r in good) + len(violations), samples=samples,
		queries=sum(r['solver']['queries'] for r in good), unsat=sum(r['solver']['unsat'] for r in good), sat=sum(r['solver']['sat'] for r in good),
		unknown=sum(r['solver']['unknown'] for r in good), solver_s=round(sum(r['solver']['solver_s'] for r in good), 2),
		functions_encoded=enc, problems=problems,
		explanation='states: distinct path-guard nodes; transitions: statements executed symbolically; a query is one satisfiability question about a path guard'),
		assumptions=ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=len(violations))
	tmp = os.path.join(a.evidence, a.prop + '.json.tmp')
	with open(tmp, 'w') as fh:
		json.dump(ev, fh, indent=1)
	os.replace(tmp, os.path.join(a.evidence, a.prop + '.json'))
	for k in load_known(a.prop):
		print('KNOWN-FINDING: ' + k)
	for p in problems:
		print('PROBLEM ' + p)
	for l in lines:
		print(l)
	print('%s %s: %d harnesses, %d violations, %d problems, %.1f s' % (a.prop, a.tier, len(funcs), len(violations), len(problems), time.time() - t0))
	sys.exit(1 if lines else 2 if problems else 0)


if __name__ == '__main__':
	main()
