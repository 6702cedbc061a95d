from abstract import Graph
from common import *

PARTS = {'two_graphs': 8}


def _make(sym, prefix, names, ids, values, order=None):
	"""(graph, what similarity depends on)"""
	strict, ordering = sym.bool(prefix + 'strict'), sym.bool(prefix + 'ordering')
	g = Graph(strict=strict, ordering=ordering)
	nodes, edges = {}, {}
	for x in names if order is None else order:
		if sym.bool(prefix + str(x)):
			value = sym.choice(prefix + 'v' + str(x), values)
			parameters = {'k': 1} if sym.bool(prefix + 'p' + str(x)) else {}
			g.add_node(x, value=value, label=sym.choice(prefix + 'l' + str(x), [None, 'label']), **parameters)
			nodes[x] = (value, parameters)
	for a in names:
		for b in names:
			for i in ids:
				if a in nodes and b in nodes:
					if sym.bool(prefix + str(a) + str(b) + str(i)):
						value = sym.choice(prefix + 'ev' + str(a) + str(b) + str(i), values)
						g.connect(a, b, id=i, value=value)
						edges[(a, b, i)] = value
	return g, (strict, ordering), nodes, edges


def _same(x, y):
	if x[1] != y[1]:
		return False
	for one, two in [(x[2], y[2]), (x[3], y[3])]:
		if len(one) != len(two):
			return False
		for key in one:
			if key not in two:
				return False
			if one[key] != two[key]:
				return False
	return True


def _check(sym, x, y):
	a, b = x[0].is_similar_to(y[0]), y[0].is_similar_to(x[0])
	sym.check(a == b, 'symmetric')
	expected = _same(x, y)
	if not expected:
		sym.check(not a, 'sensitive to every difference')
	else:
		sym.check(a, 'graphs without a difference are similar')


def two_graphs(sym):
	"""two arbitrary graphs over two names"""
	part = sym.part(8)
	names = ['a', 'b']
	x = _make(sym, 'x', names, [None, 1] if part % 2 else [None], [None, 0])
	y = _make(sym, 'y', names, [None, 1] if part % 2 else [None], [None, 0] if part // 2 % 2 else [0, 'v'], ['b', 'a'] if part // 4 else None)
	_check(sym, x, y)


def three_nodes(sym):
	"""graphs of three nodes that differ in their edges"""
	m, k = matrix(sym, 3, prefix='m'), matrix(sym, 3, prefix='k')
	names = ['a', 'b', 'c']
	g, h = build(Graph, names, m), build(Graph, names, k)
	a, b = g.is_similar_to(h), h.is_similar_to(g)
	same = True
	for i in range(3):
		for j in range(3):
			if m[i][j] != k[i][j]:
				same = False
	sym.check(a == same and b == same, 'similar exactly with the same edges')


def reflexive(sym):
	"""a graph, its copy, its double made in another order"""
	x = _make(sym, 'x', ['a', 'b', 'c'], [None], [None, 3])
	g = x[0]
	sym.check(g.is_similar_to(g), 'reflexive')
	h = g.copy()
	sym.check(g.is_similar_to(h) and h.is_similar_to(g), 'a graph and its copy')
	after = [(n.name, n.value) for n in g.nodes]
	sym.check([(n.name, n.value) for n in h.nodes] == after, 'asking changes nothing')


def one_difference(sym):
	"""a copy with one change"""
	g = Graph(strict=sym.bool('strict'), ordering=sym.bool('ordering'))
	g.add_node('a', value=sym.choice('value', [None, 0, '', 'v']), k=0)
	g.add_node('b')
	g.add_node('c')
	for a, b in [('a', 'b'), ('b', 'a'), ('b', 'b')]:
		if sym.bool(a + b):
			g.connect(a, b, value=1, id=sym.choice('id' + a + b, [None, 0, 'i']), k=0)
	h = g.copy()
	target = h.get_node(sym.choice('node', ['a', 'b', 'c']))
	what = sym.choice('difference', [
		'value', 'parameter', 'new parameter', 'renamed parameter', 'node', 'removed node', 'edge', 'parallel edge', 'removed edge', 'edge value', 'edge parameter', 'turned edge',
		'edge id', 'strict', 'ordering', 'renamed'
	])
	edges = list(h.edges)
	changed = True
	if what == 'value':
		target.value = 'other'
	elif what == 'parameter':
		h.get_node('a')['k'] = 1
	elif what == 'new parameter':
		target['new'] = None
	elif what == 'renamed parameter':
		h.remove_node('a')
		h.add_node('a', value=g.get_node('a').value, other=0)
		for e in g.edges:
			if e.start.name == 'a' or e.end.name == 'a':
				h.connect(e.start.name, e.end.name, id=e.raw_id, value=1, k=0)
	elif what == 'node':
		h.add_node('d')
	elif what == 'removed node':
		h.remove_node(target)
	elif what == 'edge':
		h.connect('c', target, id='new')
	elif what == 'parallel edge':
		if len(edges) > 0:
			h.connect(edges[0].start, edges[0].end, id='parallel', value=1, k=0)
		else:
			changed = False
	elif what == 'strict':
		h._is_strict = not h._is_strict
	elif what == 'ordering':
		h._ordering = not h._ordering
	elif what == 'renamed':
		h.remove_node('c')
		h.add_node('C')
	elif len(edges) > 0:
		e = edges[-1]
		if what == 'removed edge':
			h.disconnect(e)
		elif what == 'edge value':
			e.value = sym.choice('new value', [None, 2, '1'])
		elif what == 'edge parameter':
			e['k'] = 5
		elif what == 'edge id':
			start, end = e.start, e.end
			h.disconnect(e)
			h.connect(start, end, id='changed', value=1, k=0)
		else:
			start, end = e.start, e.end
			h.disconnect(e)
			h.connect('c', start, value=1, k=0)
	else:
		changed = False
	if changed:
		sym.check(not g.is_similar_to(h) and not h.is_similar_to(g), 'the difference shows')
	else:
		sym.check(g.is_similar_to(h) and h.is_similar_to(g), 'no difference')


def asked_again(sym):
	"""the answer follows every change"""
	g = Graph()
	for x in ['a', 'b']:
		g.add_node(x, value=1, k=0)
	g.connect('a', 'b', value=1)
	h = g.copy()
	sym.check(g.is_similar_to(h) and h.is_similar_to(g), 'a copy')
	first, second = (g, h) if sym.bool('first') else (h, g)
	what = sym.choice('what', ['value', 'parameter', 'edge value', 'edge', 'turn', 'node', 'strict', 'ordering'])
	if what == 'value':
		first.get_node('b').value = 2
	elif what == 'parameter':
		first.get_node('b')['k'] = None
	elif what == 'edge value':
		first.edges[0].value = 0
	elif what == 'edge' or what == 'turn':
		first.disconnect(first.edges[0])
		if what == 'edge':
			first.connect('a', 'b', id=0, value=1)
		else:
			first.connect('b', 'a', value=1)
	elif what == 'node':
		first.remove_node('b')
		first.add_node('c', value=1, k=0)
		first.connect('a', 'c', value=1)
	elif what == 'strict':
		first._is_strict = not first._is_strict
	else:
		first._ordering = not first._ordering
	sym.check(not g.is_similar_to(h) and not h.is_similar_to(g), 'the difference shows')
	if what == 'value':
		first.get_node('b').value = 1
	elif what == 'parameter':
		second.get_node('b')['k'] = None
	elif what == 'edge value':
		second.edges[0].value = 0
	elif what == 'strict':
		second._is_strict = not second._is_strict
	else:
		return
	sym.check(g.is_similar_to(h) and h.is_similar_to(g), 'no difference any more')


def any_text(sym):
	"""arbitrary names, values and ids"""
	k = sym.bound('characters', 2, 3)
	what = sym.choice('what', ['name', 'value', 'id', 'parameter'])
	p, q = sym.str('p', 1, k), sym.str('q', 1, k)
	graphs = []
	for text in [p, q]:
		g = Graph()
		name = text if what == 'name' else 'fixed'
		g.add_node(name, value=text if what == 'value' else 'fixed', k=text if what == 'parameter' else 'fixed')
		g.connect(name, name, id=text if what == 'id' else None)
		graphs.append(g)
	a, b = graphs[0].is_similar_to(graphs[1]), graphs[1].is_similar_to(graphs[0])
	sym.check(a == (p == q) and b == (p == q), 'similar exactly when the texts are equal')


def nodes_and_edges(sym):
	"""similarity of the parts"""
	g, h = Graph(), Graph()
	value = sym.choice('value', [None, 0, 1])
	other = sym.choice('other', [None, 0, 1])
	for x, v in [(g, value), (h, other)]:
		x.add_node('a', value=v)
		x.add_node('b')
	if sym.bool('in g'):
		g.connect('a', 'b', value=value)
	if sym.bool('in h'):
		h.connect('a', 'b', value=other)
	same = value == other and sym.bool('in g') == sym.bool('in h')
	a, b = g.get_node('a'), h.get_node('a')
	sym.check(a.is_similar_to(b) == same and b.is_similar_to(a) == same, 'nodes')
	same_ends = sym.bool('in g') == sym.bool('in h') and (value == other or not sym.bool('in g'))
	c, d = g.get_node('b'), h.get_node('b')
	sym.check(c.is_similar_to(d) == same_ends and d.is_similar_to(c) == same_ends, 'nodes at the end of an edge')
	if sym.bool('in g') and sym.bool('in h'):
		e, f = g.edges[0], h.edges[0]
		sym.check(e.is_similar_to(f) == (value == other) and f.is_similar_to(e) == (value == other), 'edges')
	sym.check(not a.is_similar_to(h.get_node('b')), 'different names')


def empty(sym):
	g = Graph(strict=sym.bool('s'), ordering=sym.bool('o'))
	h = Graph(strict=sym.bool('t'), ordering=sym.bool('p'))
	if sym.bool('node'):
		h.add_node('a')
	same = sym.bool('s') == sym.bool('t') and sym.bool('o') == sym.bool('p') and not sym.bool('node')
	sym.check(g.is_similar_to(h) == same and h.is_similar_to(g) == same, 'empty graphs')
