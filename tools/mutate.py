#!/usr/bin/env python3
"""Mutation testing of the checks: mutate.py [--list] [--workers 8] [--file F] [--sample N] [--seed S] [--out FILE]

Every mutant is one small change of a function of /repo that still passes the repository's tests; the checks of the
properties its function serves are run on a scratch copy until one reports it.  Survivors are printed: they are either
equivalent, outside every property, or gaps.
"""
import argparse, ast, concurrent.futures, json, os, random, re, shutil, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SERVES = {
	'_BasicGraph.py': {'__init__': 'C01 C12 C09', '__getstate__': 'C09', '__setstate__': 'C09', 'copy': 'C09', 'filter': 'C10', 'from_lists': 'C13', 'from_object': 'C15',
		'from_indented_text': 'C16', '__contains__': 'C01', 'nodes_dict': 'C01', 'nodes': 'C01', 'get_node': 'C01 C03', 'get_node_name': 'C01', 'generate_node_index': 'C01', 'add_node': 'C01 C24 C31',
		'remove_node': 'C01 C02 C31', 'edges_dict': 'C02 C32', 'edges': 'C02 C18 C32', 'get_outward_edges': 'C02 C32', 'get_inward_edges': 'C02 C32', 'get_edges': 'C02 C32', 'get_parents': 'C02 C08',
		'num_parents': 'C08', 'has_parents': 'C08', 'absolute_roots': 'C07', 'roots': 'C07', 'get_children': 'C02 C08', 'num_children': 'C08', 'has_children': 'C08', 'leaves': 'C07',
		'_get_ancestors': 'C04', 'get_ancestors': 'C05 C04', 'is_node_in_loop': 'C06', 'are_nodes_in_same_loop': 'C06', 'loop_nodes': 'C06', '_get_descendants': 'C04',
		'get_descendants': 'C05 C04', 'get_siblings': 'C08', 'num_siblings': 'C08', 'has_siblings': 'C08', 'get_spouses': 'C08', 'num_spouses': 'C08', 'has_spouses': 'C08',
		'get_tree_str': 'C20', 'connect': 'C03 C02 C31', 'disconnect': 'C02 C03 C31', 'is_similar_to': 'C25'},
	'Node.py': {'__init__': 'C01 C24 C02', '__hash__': 'C23', 'style': 'C21 C27 C12', 'index': 'C01', '__getstate__': 'C09', '__setstate__': 'C09', 'is_similar_to': 'C25', 'update_edges': 'C09',
		'label': 'C24 C18', '_label_converter': 'C18', 'get_tree_str': 'C20', 'get_graphviz_str': 'C18 C19', 'connect_to': 'C03', 'connect_from': 'C03', 'siblings': 'C08', 'co_parents': 'C08',
		'parents': 'C08', 'children': 'C08', 'has_parents': 'C08', 'has_children': 'C08', 'get_child_rank': 'C28', 'ancestors': 'C04', 'descendants': 'C04', 'num_descendants': 'C04',
		'is_in_loop': 'C06', 'is_in_loop_with': 'C06', '__lt__': 'C23', '__gt__': 'C23', '__le__': 'C23', '__ge__': 'C23', '__eq__': 'C23', '__ne__': 'C23', '__str__': 'C23', '__repr__': 'C23', 'name': 'C01', '*': 'C02 C03 C32'},
	'Edge.py': {'style': 'C21 C27 C12', 'is_similar_to': 'C25', '__getstate__': 'C09', '__setstate__': 'C09', 'get_graphviz_str': 'C18 C19', '_label_converter': 'C18', 'is_in_loop': 'C06', '__init__': 'C03 C02 C24', '*': 'C02 C03'},
	'_GraphObj.py': {'__hash__': 'C23', 'make_hash_sha256': 'C23', '__eq__': 'C23', '__ne__': 'C23', 'is_similar_to': 'C25', '__getstate__': 'C09', '__setstate__': 'C09', 'display_label': 'C18', 'display_label_or_value': 'C18',
		'has_style': 'C21', '*': 'C24'},
	'_GraphWithoutDisplay.py': {'__init__': 'C12 C18 C21 C29 C27', '__getstate__': 'C09', '__setstate__': 'C09', 'update_nodes': 'C09', 'connect': 'C03', 'add_node': 'C01', 'disconnect': 'C02', 'background_colour': 'C18 C09',
		'node_styles': 'C21', 'edge_styles': 'C21', 'stylize': 'C21 C27', 'get_graphviz_header': 'C18', 'get_graphviz_str': 'C18', 'append': 'C12 C27', 'from_dict': 'C12', '__graph__': 'C12 C11', 'random': 'C17',
		'__add__': 'C11', 'add': 'C11', 'add_values_function': 'C11', 'render': 'C29 C21', '_get_graphviz_source': 'C29', 'get_graphviz_source': 'C29'},
	'Graph.py': {'*': 'C29'},
	'styling/EdgeStyle.py': {'*': 'C22'}, 'styling/NodeStyle.py': {'*': 'C22'}, 'styling/get_least_used_colour.py': {'*': 'C28'}, 'styling/inherit_style.py': {'*': 'C33 C28 C21'},
	'styling/is_root_or_parents_are_in_loop.py': {'*': 'C33 C21 C28'}, 'styling/stylize_edges_based_on_nodes.py': {'*': 'C26 C21'}, 'styling/stylize_randomly.py': {'*': 'C21 C26 C28'},
	'styling/stylize_with_pensieve.py': {'*': 'C33 C21 C28 C26'}, 'get_ancestors.py': {'*': 'C14 C15'}, 'get_descendants.py': {'*': 'C14 C15'}, 'get_relatives_by_distance.py': {'*': 'C14 C05'},
	'parse_indentations_function.py': {'*': 'C16'}, 'quote.py': {'*': 'C19'},
}
SWAP = {'start': 'end', 'end': 'start', 'parents': 'children', 'children': 'parents', 'ancestors': 'descendants', 'descendants': 'ancestors', 'outward_edges': 'inward_edges', 'inward_edges': 'outward_edges',
	'_start': '_end', '_end': '_start', 'nodes': 'roots', 'label': '_label', '_label': 'label', 'id': 'raw_id', 'raw_id': 'id', 'append': 'remove', 'name': 'label',
	'_outward_edges_dict': '_inward_edges_dict', '_inward_edges_dict': '_outward_edges_dict', 'outward_edges_dict': 'inward_edges_dict', 'inward_edges_dict': 'outward_edges_dict',
	'_fill_colour': '_border_colour', '_border_colour': '_fill_colour', '_text_colour': '_colour', '_colour': '_text_colour', 'lighten': 'darken', 'darken': 'lighten',
	'get_parents': 'get_children', 'get_children': 'get_parents', 'get_ancestors': 'get_descendants', 'get_descendants': 'get_ancestors', 'outward_edge_ids': 'inward_edge_ids', 'inward_edge_ids': 'outward_edge_ids'}
CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}


def mutants(path):
	"""(line, function, description, new source)"""
	with open(os.path.join(REPO, 'abstract', path)) as f:
		src = f.read()
	tree = ast.parse(src)
	out = []
	lines = src.split('\n')
	starts = [0]
	for l in lines:
		starts.append(starts[-1] + len(l.encode()) + 1)
	raw = src.encode()

	def span(n):
		return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

	def put(n, fn, what, text):
		a, b = span(n)
		new = (raw[:a] + text.encode() + raw[b:]).decode()
		if new != src:
			try:
				ast.parse(new)
			except SyntaxError:
				return
			out.append((n.lineno, fn, what, new))

	def seg(n):
		a, b = span(n)
		return raw[a:b].decode()

	def visit(n, fn):
		if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
			fn = n.name
			for d in n.args.defaults + n.args.kw_defaults:
				if d is not None:
					visit(d, fn)
			body = n.body
			if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
				body = body[1:]
			for s in body:
				visit(s, fn)
			return
		if isinstance(n, ast.Raise) or isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'warn':
			return
		if isinstance(n, ast.ClassDef):
			for s in n.body:
				if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
					visit(s, fn)
			return
		if fn is not None:
			if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
				m = ast.Compare(n.left, [CMP[type(n.ops[0])]()], n.comparators)
				put(n, fn, 'compare', '(' + ast.unparse(m) + ')')
				if isinstance(n.ops[0], (ast.IsNot, ast.Is)) and isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value is None:
					put(n, fn, 'truthiness', ('(' if isinstance(n.ops[0], ast.IsNot) else '(not ') + seg(n.left) + ')')
			if isinstance(n, ast.BoolOp):
				put(n, fn, 'and/or', '(' + (' or ' if isinstance(n.op, ast.And) else ' and ').join('(' + seg(v) + ')' for v in n.values) + ')')
				for k in range(len(n.values)):
					put(n, fn, 'drop operand %d' % k, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join('(' + seg(v) + ')' for j, v in enumerate(n.values) if j != k) + ')')
			if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
				put(n, fn, 'drop not', seg(n.operand))
			if isinstance(n, ast.If):
				put(n.test, fn, 'if True', 'True')
				put(n.test, fn, 'if False', 'False')
			if isinstance(n, (ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp)):
				for g in n.generators:
					for t in g.ifs:
						put(t, fn, 'no filter', 'True')
			if isinstance(n, ast.Constant):
				v = n.value
				if v is True or v is False:
					put(n, fn, 'constant', str(not v))
				elif v is None:
					pass
				elif isinstance(v, (int, float)):
					put(n, fn, 'constant', repr(v + 1))
					if v:
						put(n, fn, 'constant', '0')
				elif isinstance(v, str) and not v.startswith('\n') and raw[span(n)[0]:span(n)[0] + 1] in (b"'", b'"', b'r', b'u'):
					put(n, fn, 'string', repr(v + 'x') if v else repr('x'))
			if isinstance(n, ast.BinOp):
				for a, b in ((ast.Add, '-'), (ast.Sub, '+'), (ast.Mult, '+'), (ast.Div, '*'), (ast.FloorDiv, '*'), (ast.Mod, '+')):
					if isinstance(n.op, a):
						put(n, fn, 'arithmetic', '((' + seg(n.left) + ') ' + b + ' (' + seg(n.right) + '))')
				if isinstance(n.op, ast.Add):
					put(n, fn, 'left only', seg(n.left))
					put(n, fn, 'right only', seg(n.right))
			if isinstance(n, ast.Attribute) and n.attr in SWAP:
				put(n, fn, 'attribute', seg(n.value) + '.' + SWAP[n.attr])
			if isinstance(n, ast.Name) and n.id in SWAP and isinstance(n.ctx, ast.Load):
				put(n, fn, 'name', SWAP[n.id])
			if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete)) and not (isinstance(n, ast.Expr) and isinstance(n.value, (ast.Constant, ast.Yield))):
				put(n, fn, 'drop statement', 'pass')
			if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
				put(n.value, fn, 'return None', 'None')
			if isinstance(n, ast.Call):
				for k in n.keywords:
					if k.arg is not None:
						new = ast.Call(n.func, n.args, [x for x in n.keywords if x is not k])
						put(n, fn, 'drop argument ' + k.arg, ast.unparse(new))
				if isinstance(n.func, ast.Attribute) and n.func.attr == 'copy' and not n.args:
					put(n, fn, 'no copy', seg(n.func.value))
			if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
				pass
			if isinstance(n, (ast.Break, ast.Continue)):
				put(n, fn, 'break/continue', 'pass')
		for c in ast.iter_child_nodes(n):
			if isinstance(n, (ast.AnnAssign, ast.arg)) and c is n.annotation:
				continue
			visit(c, fn)
	visit(tree, None)
	return out


def serves(path, fn):
	m = SERVES[path]
	return (m.get(fn) or m.get('*') or 'C02').split()


def try_one(job):
	path, line, fn, what, new = job
	tmp = tempfile.mkdtemp(prefix='mut-')
	t = time.time()
	try:
		repo = os.path.join(tmp, 'repo')
		shutil.copytree(REPO, repo, ignore=shutil.ignore_patterns('.git', '__pycache__', 'pictures'))
		with open(os.path.join(repo, 'abstract', path), 'w') as f:
			f.write(new)
		env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
		try:
			r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'abstract/test'], cwd=repo, env=env, capture_output=True, timeout=60)
		except subprocess.TimeoutExpired:
			return job, 'tests', '', time.time() - t
		if r.returncode:
			return job, 'tests', '', time.time() - t
		note = ''
		for p in serves(path, fn):
			c = subprocess.run(['python3-vt', os.path.join(ROOT, 'check.py'), p, '--repo', repo, '--jobs', '1', '--first', '--limit', '400', '--evidence', os.path.join(tmp, 'ev')], capture_output=True, text=True, cwd=ROOT)
			if c.returncode == 1:
				return job, 'caught', p, time.time() - t
			if c.returncode == 2:
				note += ' %s: %s' % (p, [x for x in c.stdout.split('\n') if x.startswith('PROBLEM')][:1])
		return job, 'noanswer' if note else 'survived', note[:300], time.time() - t
	finally:
		shutil.rmtree(tmp)


def main():
	ap = argparse.ArgumentParser()
	ap.add_argument('--list', action='store_true')
	ap.add_argument('--workers', type=int, default=8)
	ap.add_argument('--file')
	ap.add_argument('--func')
	ap.add_argument('--sample', type=int)
	ap.add_argument('--seed', type=int, default=1)
	ap.add_argument('--out')
	a = ap.parse_args()
	jobs = []
	for path in ([a.file] if a.file else SERVES):
		for line, fn, what, new in mutants(path):
			if not a.func or fn in a.func.split(','):
				jobs.append((path, line, fn, what, new))
	random.Random(a.seed).shuffle(jobs)
	if a.sample:
		jobs = jobs[:a.sample]
	print(len(jobs), 'mutants', flush=True)
	if a.list:
		for j in jobs:
			print(*j[:4])
		return
	count = {}
	out = open(a.out, 'w') if a.out else None
	with concurrent.futures.ThreadPoolExecutor(a.workers) as ex:
		for f in concurrent.futures.as_completed([ex.submit(try_one, j) for j in jobs]):
			job, res, note, sec = f.result()
			count[res] = count.get(res, 0) + 1
			path, line, fn, what, new = job
			if res in ('survived', 'noanswer'):
				old = open(os.path.join(REPO, 'abstract', path)).read().split('\n')
				n = new.split('\n')
				k = next((i for i in range(min(len(old), len(n))) if old[i] != n[i]), line - 1)
				print('%s %s:%d %s [%s]%s (%.0f s)\n  - %s\n  + %s' % (res, path, k + 1, fn, what, note, sec, old[k].strip(), n[k].strip()), flush=True)
			if out:
				out.write(json.dumps([path, line, fn, what, res, note, sec]) + '\n')
				out.flush()
	print(count)


if __name__ == '__main__':
	main()
