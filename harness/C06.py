from abstract import Graph
from common import *

PARTS = {'long_graphs': 5, 'longer_graphs': 8}


def _check(sym, g, m, names, how, key=None):
	n = len(names)
	r = closure(m)
	for i in range(n):
		node = g.get_node(names[i])
		sym.check(node.is_in_loop() == r[i][i], 'node in a loop exactly if it lies on a cycle')
		sym.check(g.is_node_in_loop(node) == r[i][i], 'graph agrees for the node')
		sym.check(g.is_node_in_loop(names[i]) == r[i][i], 'graph agrees for the name')
		for j in range(n):
			other = g.get_node(names[j])
			want = r[i][j] and r[j][i]
			sym.check(node.is_in_loop_with(other) == want, 'same loop exactly if mutually reachable')
			sym.check(g.are_nodes_in_same_loop(names[i], other) == want, 'same loop by name and node')
			sym.check(g.are_nodes_in_same_loop(node1=node, node2=names[j]) == want, 'same loop by node and name')
	want = [x for i, x in enumerate(names) if r[i][i]]
	sym.check([x.name for x in g.loop_nodes] == want, 'loop nodes in graph order')
	for e in g.edges:
		i, j = names.index(e.start.name), names.index(e.end.name)
		sym.check(e.is_in_loop() == r[j][i], 'edge in a loop exactly if its start is reachable from its end')


def any_graph(sym):
	n = sym.bound('nodes', 3, 4)
	names = node_names(n)
	m = matrix(sym, n)
	g = build(Graph, names, m, shared=True)
	_check(sym, g, m, names, 'node')


def any_graph_4(sym):
	names = node_names(4)
	m = matrix(sym, 4, loops=False)
	g = build(Graph, names, m, shared=True)
	r = closure(m)
	nodes = g.nodes
	sym.check([x.name for x in g.loop_nodes] == [x for i, x in enumerate(names) if r[i][i]], 'loop nodes in graph order')
	for i in range(4):
		sym.check(nodes[i].is_in_loop() == r[i][i], 'node in a loop exactly if it lies on a cycle')
		for j in range(4):
			sym.check(nodes[i].is_in_loop_with(nodes[j]) == (r[i][j] and r[j][i]), 'same loop exactly if mutually reachable')
	for e in g.edges:
		i, j = names.index(e.start.name), names.index(e.end.name)
		sym.check(e.is_in_loop() == r[j][i], 'edge in a loop exactly if its start is reachable from its end')


def any_order(sym):
	names = node_names(3)
	g, m = build_any_order(sym, Graph, names, parallel=False, shared=True)
	before = state_of(g)
	_check(sym, g, m, names, 'node')
	sym.check(state_of(g) == before, 'asking leaves the graph unchanged')


def after_disconnect(sym):
	"""loops disappear with the edges that close them"""
	names = [5, 3, 7]
	m = matrix(sym, 3)
	g = build(Graph, names, m, shared=True)
	i = sym.choice('start', [0, 1, 2])
	j = sym.choice('end', [0, 1, 2])
	for a, b in pairs(3):
		if a == i and b == j and m[a][b]:
			g.disconnect(g.get_node(names[a]).get_outward_edge((names[a], names[b], None)))
	m2 = [[m[a][b] and not (a == i and b == j) for b in range(3)] for a in range(3)]
	r = closure(m2)
	sym.check([x.name for x in g.loop_nodes] == [x for k, x in enumerate(names) if r[k][k]], 'loop nodes in graph order')


def after_change(sym):
	"""asked, any edges removed and added, and asked again"""
	names = ['b', 'a', 'c']
	m = matrix(sym, 3, loops=False)
	g = build(Graph, names, m, shared=True)
	ask_everything(g)
	m = toggled(sym, g, m, names, loops=False)
	_check(sym, g, m, names, 'node')


def long_graphs(sym):
	"""long paths, rings, joined rings and trees with arbitrary extra edges"""
	n = sym.bound('nodes of long graphs', 6, 8)
	names = node_names(n)
	m = sparse_matrix(sym, n, sym.part(SHAPES), sym.bound('extra edges', 1, 1))
	g = build(Graph, names, m, shared=True)
	_check(sym, g, m, names, 'node')


def longer_graphs(sym):
	"""many nodes in simple shapes with any of three more edges"""
	n = sym.bound('nodes of longer graphs', 8, 11)
	names = node_names(n)
	m = longer_matrix(sym, n, sym.part(LONGER_SHAPES))
	g = build(Graph, names, m, shared=True)
	_check(sym, g, m, names, 'node')
