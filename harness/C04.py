from abstract import Graph
from common import *

PARTS = {'long_graphs': 5, 'longer_graphs': 8}


def _check(sym, g, m, names, how):
	n = len(names)
	r = closure(m)
	for i in range(n):
		node = g.get_node(names[i])
		if how == 'node':
			anc = [x.name for x in node.ancestors]
			desc = [x.name for x in node.descendants]
			sym.check(node.num_descendants == len(desc), 'num_descendants')
		elif how == 'name':
			anc = [x.name for x in g.get_ancestors(names[i], distance=False)]
			desc = [x.name for x in g.get_descendants(names[i], distance=False)]
		else:
			anc = [x.name for x in g.get_ancestors(node=node, distance=False)]
			desc = [x.name for x in g.get_descendants(node=node, distance=False)]
		for j in range(n):
			sym.check(anc.count(names[j]) == (1 if r[j][i] else 0), 'ancestor exactly if it reaches the node, once')
			sym.check(desc.count(names[j]) == (1 if r[i][j] and j != i else 0), 'descendant exactly if it is another reachable node, once')
		sym.check(len(anc) <= n and len(desc) <= n, 'no strangers')


def any_graph(sym):
	n = sym.bound('nodes', 4, 4)
	names = node_names(n)
	m = matrix(sym, n)
	g = build(Graph, names, m, shared=True)
	_check(sym, g, m, names, 'node')
	sym.cover('cycle of all', closure(m)[0][0] and m[0][1] and m[1][2])


def dag(sym):
	n = sym.bound('nodes', 5, 6)
	names = node_names(n)
	m = dag_matrix(sym, n)
	g = build(Graph, names, m, shared=True)
	_check(sym, g, m, names, 'object')


def any_order(sym):
	"""arbitrary insertion order of the edges, queries by name, graph unchanged"""
	n = sym.bound('nodes', 3, 3)
	names = node_names(n)
	g, m = build_any_order(sym, Graph, names, shared=True)
	before = state_of(g)
	_check(sym, g, m, names, 'name')
	sym.check(state_of(g) == before, 'asking leaves the graph unchanged')


def parallel(sym):
	"""parallel edges"""
	n = sym.bound('nodes', 3, 3)
	names = node_names(n)
	g, m = build_any_order(sym, Graph, names, parallel=True, shared=True)
	_check(sym, g, m, names, 'object')


def after_removal(sym):
	"""a removed node or edge is not a relative any more; int names"""
	names = [0, 1, 2, 3]
	m = matrix(sym, 4, loops=False)
	g = build(Graph, names, m, shared=True)
	first = g.get_node(2).descendants
	gone = sym.choice('gone', [0, 3])
	g.remove_node(gone)
	kept = [x for x in names if x != gone]
	r = closure([[m[i][j] and i != gone and j != gone for j in range(4)] for i in range(4)])
	for i in kept:
		node = g.get_node(i)
		anc = [x.name for x in node.ancestors]
		desc = [x.name for x in node.descendants]
		for j in range(4):
			sym.check(anc.count(j) == (1 if r[j][i] else 0), 'ancestor exactly if it reaches the node, once')
			sym.check(desc.count(j) == (1 if r[i][j] and j != i else 0), 'descendant exactly if it is another reachable node, once')


def after_change(sym):
	"""asked, any edges removed and added, and asked again"""
	names = ['b', 'a', 'c']
	m = matrix(sym, 3, loops=False)
	g = build(Graph, names, m, shared=True)
	ask_everything(g)
	m = toggled(sym, g, m, names, loops=False)
	_check(sym, g, m, names, sym.choice('how', ['node', 'name']))


def long_graphs(sym):
	"""long paths, rings, joined rings and trees with arbitrary extra edges"""
	n = sym.bound('nodes of long graphs', 6, 8)
	names = node_names(n)
	m = sparse_matrix(sym, n, sym.part(SHAPES), sym.bound('extra edges', 1, 1))
	g = build(Graph, names, m, shared=True)
	_check(sym, g, m, names, 'name')


def longer_graphs(sym):
	"""many nodes in simple shapes with any of three more edges"""
	n = sym.bound('nodes of longer graphs', 16, 24)
	names = node_names(n)
	m = longer_matrix(sym, n, sym.part(LONGER_SHAPES))
	g = build(Graph, names, m, shared=True)
	_check(sym, g, m, names, 'object')
