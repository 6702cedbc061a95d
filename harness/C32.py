"""Answers are snapshots: they can be changed, and the graph can be changed while they are used."""
import random
from abstract import Graph
from common import *

STUB_RANDOM = True
STUB_GRAPHVIZ = True
PARTS = {'changed_answers': 5, 'repeated': 3}
OF_GRAPH = ['nodes', 'edges', 'roots', 'absolute_roots', 'leaves', 'loop_nodes']
OF_NODE = ['parents', 'children', 'siblings', 'co_parents', 'ancestors', 'descendants', 'edges', 'outward_edges', 'inward_edges', 'outward_edge_ids', 'inward_edge_ids']
BY_NAME = ['get_parents', 'get_children', 'get_siblings', 'get_spouses', 'get_edges', 'get_outward_edges', 'get_inward_edges']


def _ids(things):
	return [x if isinstance(x, tuple) else x.id for x in things]


def _asked(sym, g, part, what, name):
	if part == 0:
		return getattr(g, what)
	elif part == 1:
		return getattr(g.get_node(name), what)
	return getattr(g, what)(name)


def changed_answers(sym):
	"""an answer that is emptied or extended afterwards says nothing about the graph"""
	part = sym.part(5)
	names = ['a', 'b', 'c']
	g = build(Graph, names, matrix(sym, 3))
	if sym.bool('parallel') and part < 3:
		g.connect('a', 'b', id='p')
	name = sym.choice('name', ['a', 'b'])
	before = state_of(g)
	change = sym.choice('change', ['clear', 'append', 'reverse', 'pop'])
	if part < 3:
		what = sym.choice('what', [OF_GRAPH, OF_NODE, BY_NAME][part])
		answer = _asked(sym, g, part, what, name)
		first = _ids(answer)
		if change == 'clear':
			answer.clear()
		elif change == 'append':
			answer.append(g.get_node('c'))
		elif change == 'reverse':
			answer.reverse()
		elif len(answer) > 0:
			answer.pop()
		sym.check(state_of(g) == before, 'the graph is unchanged')
		sym.check(_ids(_asked(sym, g, part, what, name)) == first, 'asked again, the answer is the same')
	elif part == 3:
		up = sym.bool('up')
		answer = g.get_ancestors(name, distance=True) if up else g.get_descendants(name, distance=True)
		first = {k: _ids(v) for k, v in answer.items()}
		for v in answer.values():
			v.clear()
		if change == 'clear':
			answer.clear()
		answer = g.get_ancestors(name, distance=True) if up else g.get_descendants(name, distance=True)
		sym.check({k: _ids(v) for k, v in answer.items()} == first, 'asked again, the distances are the same')
		edges = g.edges_dict
		ids = list(edges.keys())
		edges.clear()
		sym.check(list(g.edges_dict.keys()) == ids, 'asked again, the edges are the same')
		sym.check(state_of(g) == before, 'the graph is unchanged')
	else:
		described = g.__graph__()
		nodes = list(described['nodes'].keys())
		edges = [tuple(x[:2]) for x in described['edges']]
		for x in described['nodes'].values():
			x.clear()
		for x in described['edges']:
			if isinstance(x[-1], dict):
				x[-1].clear()
		described['nodes'].clear()
		described['edges'].clear()
		described.clear()
		sym.check(state_of(g) == before, 'the graph is unchanged')
		again = g.__graph__()
		sym.check(list(again['nodes'].keys()) == nodes and [tuple(x[:2]) for x in again['edges']] == edges, 'described again, the description is the same')


def while_removing_edges(sym):
	"""edges are removed while the list of them is used"""
	names = ['a', 'b', 'c']
	m = matrix(sym, 3)
	g = build(Graph, names, m)
	parallel = sym.bool('parallel')
	if parallel:
		g.connect('a', 'b', id='p', value=1)
	way = sym.choice('way', ['edges', 'node edges', 'outward', 'inward', 'by name', 'dictionary'])
	method = sym.bool('disconnect')
	if way == 'edges':
		those = g.edges
	elif way == 'node edges':
		those = g.get_node('a').edges
	elif way == 'outward':
		those = g.get_node('a').outward_edges
	elif way == 'inward':
		those = g.get_node('b').inward_edges
	elif way == 'by name':
		those = g.get_outward_edges('a')
	else:
		those = g.edges_dict.values()
	for e in those:
		if method:
			g.disconnect(e)
		else:
			e.remove_self()
	for i in range(3):
		for j in range(3):
			gone = way in ('edges', 'dictionary') or way in ('node edges', 'outward', 'by name') and i == 0 or way == 'node edges' and j == 0 or way == 'inward' and j == 1
			sym.check(((names[i], names[j], None) in g.edges_dict) == (m[i][j] and not gone), 'exactly these edges are removed')
			sym.check((g.get_node(names[j]) in g.get_node(names[i]).children) == (not gone and (m[i][j] or parallel and i == 0 and j == 1)), 'children')
	sym.check((('a', 'b', 'p') in g.edges_dict) == False, 'parallel edges too')
	sym.check(sorted(_ids([e for x in g.nodes for e in x.inward_edges]), key=str) == sorted(_ids(g.edges), key=str), 'at both ends')


def while_removing_nodes(sym):
	"""nodes are removed while a list of them is used"""
	names = ['a', 'b', 'c', 'd']
	m = [[False] * 4 for _ in range(4)]
	for i, j in [(0, 1), (0, 2), (1, 0), (1, 3), (2, 3), (3, 3), (3, 1), (0, 3)]:
		m[i][j] = sym.bool('e' + str(i) + str(j))
	g = build(Graph, names, m)
	r = closure(m)
	way = sym.choice('way', ['nodes', 'children', 'parents', 'descendants', 'ancestors', 'leaves', 'roots', 'loops', 'siblings'])
	i = sym.choice('of', [0, 1, 3])
	x = g.get_node(names[i])
	if way == 'nodes':
		those, gone = g.nodes, [True] * 4
	elif way == 'children':
		those, gone = x.children, [m[i][j] for j in range(4)]
	elif way == 'parents':
		those, gone = g.get_parents(x), [m[j][i] for j in range(4)]
	elif way == 'descendants':
		those, gone = x.descendants, [r[i][j] and i != j for j in range(4)]
	elif way == 'ancestors':
		those, gone = x.ancestors, [r[j][i] for j in range(4)]
	elif way == 'leaves':
		those, gone = g.leaves, [not (m[j][0] or m[j][1] or m[j][2] or m[j][3]) for j in range(4)]
	elif way == 'roots':
		those, gone = g.absolute_roots, [not (m[0][j] or m[1][j] or m[2][j] or m[3][j]) for j in range(4)]
	elif way == 'loops':
		those, gone = g.loop_nodes, [r[j][j] for j in range(4)]
	else:
		those, gone = x.siblings, [j != i and (m[0][i] and m[0][j] or m[1][i] and m[1][j] or m[2][i] and m[2][j] or m[3][i] and m[3][j]) for j in range(4)]
	by_name = sym.bool('by name')
	for node in those:
		g.remove_node(node.name if by_name else node)
	for j in range(4):
		sym.check((names[j] in g) == (not gone[j]), 'exactly these nodes are removed')
	left = [(names[a], names[b], None) for a in range(4) for b in range(4) if m[a][b] and not gone[a] and not gone[b]]
	sym.check(list(g.edges_dict.keys()) == left, 'the edges between the others stay')


def while_adding(sym):
	"""nodes and edges are added while lists are used"""
	names = ['a', 'b', 'c']
	m = matrix(sym, 3)
	g = build(Graph, names, m)
	way = sym.choice('way', ['nodes', 'edges', 'reverse', 'children'])
	if way == 'nodes':
		for x in g.nodes:
			y = g.add_node(x.name + x.name)
			g.connect(x, y)
			g.connect(y, 'a')
		sym.check([x.name for x in g.nodes] == ['a', 'b', 'c', 'aa', 'bb', 'cc'], 'one more node for every node')
		for i in range(3):
			sym.check(g.get_node(names[i] * 2).parents == [g.get_node(names[i])], 'connected')
	elif way == 'edges':
		for e in g.edges:
			g.connect(e.start, e.end, id='again')
	elif way == 'reverse':
		for e in g.edges_dict.values():
			g.connect(e.end, e.start, id='again')
	else:
		for x in g.nodes:
			for y in x.children:
				x.connect_to(y, id='again')
	for i in range(3):
		for j in range(3):
			double = way != 'nodes' and (m[j][i] if way == 'reverse' else m[i][j])
			sym.check(((names[i], names[j], 'again') in g.edges_dict) == double, 'one more edge for every edge')
			sym.check(((names[i], names[j], None) in g.edges_dict) == m[i][j], 'edges stay')


def repeated(sym):
	"""questions and derivations change nothing and have the same answer the next time"""
	part = sym.part(3)
	names = ['a', 'b', 'c']
	g = build(Graph, names, matrix(sym, 3))
	g.get_node('a').value = 1
	before = state_of(g)
	if part == 0:
		ask_everything(g)
		first = ([_ids(getattr(g, what)) for what in OF_GRAPH], [[_ids(getattr(x, what)) for what in OF_NODE] for x in g.nodes])
		ask_everything(g)
		second = ([_ids(getattr(g, what)) for what in OF_GRAPH], [[_ids(getattr(x, what)) for what in OF_NODE] for x in g.nodes])
		sym.check(first == second, 'the same answers again')
	elif part == 1:
		sym.check(g.get_graphviz_str() == g.get_graphviz_str(), 'the same text again')
		how = sym.choice('how', ['copy', 'filter', 'sum', 'describe', 'rebuild', 'similar', 'header'])
		other = build(Graph, ['b', 'd'], [[False, True], [False, False]])
		for _ in range(2):
			if how == 'copy':
				h = g.copy()
			elif how == 'filter':
				h = g.filter(nodes=['a'])
			elif how == 'sum':
				h = g + other
			elif how == 'describe':
				h = Graph(obj=g.__graph__())
			elif how == 'rebuild':
				h = Graph(obj=g)
			elif how == 'similar':
				h = g
				g.is_similar_to(other), other.is_similar_to(g)
			else:
				h = g
				g.get_graphviz_header(direction='TB')
			if _ == 0:
				first = state_of(h)
		sym.check(state_of(h) == first, 'derived again, the same graph')
		sym.check(state_of(other)[0] == [('b', None, None, 0), ('d', None, None, 1)], 'the other graph is unchanged')
	else:
		ids = _ids(g.edges)
		texts = [(str(x), repr(x), x.label, hash(x), x.get_graphviz_str()) for x in g.nodes] + [(str(e), repr(e), e.label, hash(e), e.get_graphviz_str()) for e in g.edges]
		sym.check(texts == [(str(x), repr(x), x.label, hash(x), x.get_graphviz_str()) for x in g.nodes] + [(str(e), repr(e), e.label, hash(e), e.get_graphviz_str()) for e in g.edges], 'the same texts again')
		sym.check(_ids(g.edges) == ids, 'the same edges again')
	sym.check(state_of(g) == before, 'the graph is unchanged')
	for x in g.nodes:
		sym.check(not x.has_style(), 'no style is made')
		for e in x.outward_edges:
			sym.check(not e.has_style(), 'no style is made')


def generator(sym):
	"""asking, deriving and rendering draw nothing from the generator of the random module"""
	g = build(Graph, ['a', 'b'], matrix(sym, 2), stylist=sym.choice('stylist', ['pensieve', 'random']), label=None)
	numbers = []
	for k in range(2):
		random.seed(5)
		random.random()
		if k == 1:
			what = sym.choice('what', ['render', 'text', 'ask', 'copy', 'sum', 'filter', 'random'])
			if what == 'render':
				g.render()
			elif what == 'text':
				g.get_graphviz_str()
				g.get_tree_str()
			elif what == 'ask':
				ask_everything(g)
			elif what == 'copy':
				g.copy()
			elif what == 'sum':
				g + g
			elif what == 'filter':
				g.filter(nodes=['a'])
			else:
				Graph.random(0)
		numbers.append(random.random())
	sym.check(numbers[0] == numbers[1], 'the next number is the same')
