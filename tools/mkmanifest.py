"""Writes /verif/MANIFEST.json from properties.jsonl and the harnesses present."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
NOTE = ('Decided for every input within the stated bounds (see evidence): the real functions are executed symbolically from the current source and '
	'Z3 shows that no path guard violates an assertion. Trusts the executor pysym (cross-checked against the real interpreter on sampled inputs in every run) '
	'and the models of colouration, graphviz, random, copy/pickle and hashlib in pysym/stubs. Nothing is claimed outside the bounds.')
checks, na = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
	p = json.loads(line)['id']
	if os.path.exists(os.path.join(ROOT, 'harness', p + '.py')):
		checks.append(dict(property=p, quick_cmd='python3-vt check.py %s --tier quick' % p, thorough_cmd='python3-vt check.py %s --tier thorough' % p,
			technique='bounded symbolic execution of the Python source with state merging, decided by Z3', level='model_checking', level_note=NOTE))
	else:
		na.append(dict(property=p, reason=NA.get(p, 'no check built yet')))
m = dict(version=1, setup_cmd='python3-vt -c "import z3" && /opt/venv/bin/python -c "import colouration, graphviz, base32hex"', checks=checks, not_applicable=na)
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
	json.dump(m, f, indent=1)
	f.write('\n')
