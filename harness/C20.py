from abstract import Graph
from common import *

PARTS = {'any_graph': 16, 'any_order': 16, 'four_nodes': (64, 512), 'acyclic': 8, 'five_acyclic': (32, 32), 'long_graphs': 10, 'labels': 3, 'asked_again': 2, 'longer_graphs': 8}
THOROUGH_ONLY = ['five_acyclic']

CORNER, TEE, BAR, LINE = u'\u2514', u'\u251C', u'\u2502', u'\u2500'


def _lines(text):
	return [x for x in text.split('\n') if x.strip() != '']


def _reference(roots, children, label):
	"""the lines of the tree: (lead, sign, label, starred)"""
	lines = []
	expanded = []

	def go(x, lead, sign):
		again = x in expanded
		below = children(x)
		lines.append((lead, sign, label(x), again and len(below) > 0))
		if not again:
			expanded.append(x)
			inner = lead if sign == '' else lead + ('  ' if sign == CORNER else BAR + ' ')
			for k in range(len(below)):
				go(below[k], inner, CORNER if k + 1 == len(below) else TEE)
	for x in roots:
		go(x, '', '')
	return lines


def _text(lines):
	result = []
	for lead, sign, label, star in lines:
		result.append(lead + (sign + ' ' if sign != '' else '') + label + ('*' if star else ''))
	return result


def _check(sym, g, names, edges):
	"""edges: (start, end) in order of creation"""
	def children(x):
		return [b for a, b in edges if a == x]
	roots = [x.name for x in g.roots]
	got = _lines(g.get_tree_str())
	sym.check(len(got) == len(roots) + len(edges), 'one line per root and per edge')
	sym.check(got == _text(_reference(roots, children, lambda x: g.get_node(x).label)), 'every node below its parent, expanded once')
	for x in names:
		label = g.get_node(x).label
		sym.check(len([y for y in got if y.endswith(label) or y.endswith(label + '*')]) >= 1, 'every node appears')


def _fixed(sym, count):
	"""the edges decided by the part"""
	number = sym.part(2 ** count)
	return [number // 2 ** k % 2 == 1 for k in range(count)]


def any_graph(sym):
	n = 3
	names = node_names(n)
	fixed = _fixed(sym, 4)
	m = [[False] * n for _ in range(n)]
	for k, (i, j) in enumerate([(0, 1), (1, 2), (2, 0), (0, 2), (1, 0), (2, 1), (0, 0), (1, 1), (2, 2)]):
		m[i][j] = fixed[k] if k < len(fixed) else sym.bool('e' + str(i) + str(j))
	g = build(Graph, names, m)
	_check(sym, g, names, [(names[i], names[j]) for i in range(n) for j in range(n) if m[i][j]])


def any_order(sym):
	"""edges in any order, with parallel ones; nodes that were removed; labels"""
	names = ['a', 'b', 'c']
	fixed = _fixed(sym, 4)
	g = Graph()
	g.add_node('gone')
	labels = sym.choice('labels', ['names', 'others', 'equal'])
	for x in names:
		g.add_node(x, label={'names': None, 'others': 'the ' + x, 'equal': 'same'}[labels])
		g.connect('gone', x)
	g.remove_node('gone')
	edges = []
	steps = [('b', 'c', None), ('a', 'c', None), ('a', 'b', None), ('c', 'a', None), ('a', 'c', 'again'), ('c', 'c', None), ('b', 'a', None)]
	for k, (a, b, i) in enumerate(steps):
		if fixed[k] if k < len(fixed) else sym.bool('edge' + str(k)):
			g.connect(a, b, id=i)
			edges.append((a, b))
	_check(sym, g, names, edges)


def four_nodes(sym):
	n = 4
	names = node_names(n)
	count = 9 if sym.thorough() else 6
	fixed = _fixed(sym, count)
	m = [[False] * n for _ in range(n)]
	edges = [(0, 1), (1, 2), (2, 3), (3, 0), (0, 2), (1, 3), (2, 0), (3, 1), (1, 0), (2, 1), (3, 2), (0, 3)]
	if not sym.thorough():
		edges = edges[:10]
	for k, (i, j) in enumerate(edges):
		m[i][j] = fixed[k] if k < len(fixed) else sym.bool('e' + str(i) + str(j))
	g = build(Graph, names, m)
	_check(sym, g, names, [(names[i], names[j]) for i in range(n) for j in range(n) if m[i][j]])


def _acyclic(sym, n, count):
	names = node_names(n)
	fixed = _fixed(sym, count)
	m = [[False] * n for _ in range(n)]
	for k, (i, j) in enumerate([(i, j) for i in range(n) for j in range(i + 1, n)]):
		m[i][j] = fixed[k] if k < len(fixed) else sym.bool('e' + str(i) + str(j))
	g = build(Graph, names, m)
	_check(sym, g, names, [(names[i], names[j]) for i in range(n) for j in range(n) if m[i][j]])


def acyclic(sym):
	_acyclic(sym, 4, 3)


def five_acyclic(sym):
	_acyclic(sym, 5, 5)


def node_tree(sym):
	"""the tree below one node of any graph of two nodes"""
	m = matrix(sym, 2)
	g = build(Graph, ['a', 'b'], m)
	for k, other in [(0, 1), (1, 0)]:
		x = g.nodes[k]
		got = _lines(x.get_tree_str())
		below = [j for j in (0, 1) if m[k][j]]
		expected = [x.name]
		for j in below:
			sign = CORNER if j == below[-1] else TEE
			if j == k:
				expected.append(sign + ' ' + x.name + '*')
			else:
				expected.append(sign + ' ' + g.nodes[j].name)
				far = [i for i in (0, 1) if m[j][i]]
				for i in far:
					lead = '  ' if sign == CORNER else BAR + ' '
					expected.append(lead + (CORNER if i == far[-1] else TEE) + ' ' + g.nodes[i].name + '*')
		sym.check(got == expected, 'the tree below a node')


def asked_again(sym):
	"""the text after changes, after the text was asked for"""
	names = ['a', 'b', 'c']
	edges = [('a', 'b'), ('b', 'c')] if sym.part(2) == 0 else [('a', 'b'), ('a', 'c')]
	g = Graph()
	for x in names:
		g.add_node(x)
	for a, b in edges:
		g.connect(a, b)
	g.get_tree_str()
	what = sym.choice('change', ['label', 'turn', 'move', 'node', 'order'])
	if what == 'label':
		g.get_node('b').label = 'new'
	elif what == 'node':
		g.remove_node('c')
		names = ['a', 'b', 'd']
		g.add_node('d')
		g.connect('b', 'd')
		edges = [edges[0], ('b', 'd')]
	else:
		k = sym.choice('edge', [0, 1])
		a, b = edges[0] if k == 0 else edges[1]
		g.disconnect(g.edges_dict[(a, b, None)])
		rest = [edges[1] if k == 0 else edges[0]]
		if what == 'turn':
			a, b = b, a
		elif what == 'move':
			a, b = 'c', 'a'
		g.connect(a, b)
		edges = rest + [(a, b)]
	g.get_tree_str()
	_check(sym, g, names, edges)


def labels(sym):
	"""arbitrary labels, and labels of several lines"""
	g = Graph()
	kind = sym.part(3)
	texts = []
	for k, x in enumerate(['a', 'b', 'c']):
		if kind == 2:
			text = sym.choice('text', ['x\ny', '\nx', 'x*\n']) if x == sym.choice('which', ['a', 'c']) else None
		else:
			text = sym.str('text' + x, 0, sym.bound('characters of a label', 2, 3), alphabet=['x* ', 'x' + CORNER + BAR][kind]) if k != 1 else None
		g.add_node(x, label=text)
		texts.append(text if text else x)
	edges = [('a', 'b')]
	for x, y in [('a', 'c'), ('b', 'c'), ('c', 'a')]:
		if sym.bool(x + y):
			g.connect(x, y)
			edges.append((x, y))
	g.connect('a', 'b', id='last')
	g.disconnect(g.edges_dict[('a', 'b', 'last')])
	g.connect('a', 'b', id='last')
	edges = edges[1:] + [('a', 'b')]
	roots = [x.name for x in g.roots]
	label = {'a': texts[0], 'b': texts[1], 'c': texts[2]}
	expected = _text(_reference(roots, lambda x: [q for p, q in edges if p == x], lambda x: label[x]))
	got = [x for x in g.get_tree_str().split('\n') if x != '']
	sym.check(got == [x for x in '\n'.join(expected).split('\n') if x != ''], 'every label in full')


def long_graphs(sym):
	"""long paths, rings, joined rings and deeper trees with shortcuts and ways back"""
	n = sym.bound('nodes of long graphs', 6, 8)
	names = node_names(n)
	part = sym.part(10)
	extra = [(0, n - 1), (1, 4), (n - 1, 2), (2, 0), (4, 4)] if part < 5 else [(n - 1, 0), (2, 2), (3, 1), (0, 3), (4, 2)]
	m = sparse_with(sym, n, part % 5, extra)
	g = build(Graph, names, m)
	_check(sym, g, names, [(names[i], names[j]) for i in range(n) for j in range(n) if m[i][j]])


def longer_graphs(sym):
	"""many nodes in simple shapes with any of three more edges"""
	n = sym.bound('nodes of longer graphs', 16, 24)
	names = node_names(n)
	m = longer_matrix(sym, n, sym.part(LONGER_SHAPES))
	g = build(Graph, names, m)
	_check(sym, g, names, [(names[i], names[j]) for i in range(n) for j in range(n) if m[i][j]])
