#!/usr/bin/env python3
"""Run the checks against the planted changes: runseeds.py [--all] [ID ...]

For every folder of /verif/seeded (or the ids given) the patch is applied to a scratch copy of /repo and the check of its
property (with --all: every check) is run on that copy.
"""
import json, os, shutil, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.environ.get('SEEDED', os.path.join(ROOT, 'seeded'))
args = sys.argv[1:]
every = '--all' in args
ids = [a for a in args if a != '--all'] or sorted(os.listdir(SEEDED))
props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
for i in ids:
	d = os.path.join(SEEDED, i)
	meta = json.load(open(os.path.join(d, 'meta.json')))
	tmp = tempfile.mkdtemp(prefix='runseed-')
	try:
		repo = os.path.join(tmp, 'repo')
		shutil.copytree('/repo', repo, symlinks=True, ignore=shutil.ignore_patterns('.git', '__pycache__'))
		subprocess.run(['git', 'apply', '--unsafe-paths', '--directory', repo, os.path.join(d, 'patch.diff')], cwd='/', check=True)
		for p in (props if every else [meta['property']]):
			t = time.time()
			r = subprocess.run(['python3-vt', os.path.join(ROOT, 'check.py'), p, '--tier', 'quick', '--repo', repo, '--evidence', os.path.join(tmp, 'ev')], capture_output=True, text=True, cwd=ROOT)
			caught = r.returncode == 1 and ('VIOLATION property=%s ' % p) in r.stdout
			if every and r.returncode == 0:
				continue
			print('%-28s %s %s (exit %d, %.0f s) %s' % (i, p, 'caught' if caught else 'MISSED', r.returncode, time.time() - t,
				(r.stdout.strip().split('\n') or [''])[0][:140]), flush=True)
	finally:
		shutil.rmtree(tmp)
