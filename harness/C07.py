from abstract import Graph
from common import *

PARTS = {'long_graphs': 5, 'longer_graphs': 8}


def _check(sym, g, m, names):
	n = len(names)
	r = closure(m)
	roots = [x.name for x in g.roots]
	absolute = [x.name for x in g.absolute_roots]
	leaves = [x.name for x in g.leaves]
	sym.check(absolute == [x for j, x in enumerate(names) if not any([m[i][j] for i in range(n)])], 'absolute roots are the nodes without parents, in graph order')
	sym.check(leaves == [x for i, x in enumerate(names) if not any([m[i][j] for j in range(n)])], 'leaves are the nodes without children, in graph order')
	is_root = [x in roots for x in names]
	sym.check(roots == [x for i, x in enumerate(names) if is_root[i]], 'roots listed once, in graph order')
	for j in range(n):
		sym.check(is_root[j] or any([is_root[i] and r[i][j] for i in range(n)]), 'every node is a root or reachable from one')
		for i in range(n):
			if i != j:
				sym.check(not (is_root[i] and is_root[j] and r[i][j]), 'no root is reachable from a different root')
		if names[j] in absolute:
			sym.check(is_root[j], 'absolute roots are roots')
		# a cycle nothing outside leads to: every node that reaches j is reached by j
		closed = r[j][j] and all([not r[i][j] or r[j][i] for i in range(n)])
		if closed:
			first = not any([r[i][j] for i in range(j)])
			sym.check(is_root[j] == first, 'root of a closed cycle is its first node')


def any_graph(sym):
	n = sym.bound('nodes', 4, 4)
	names = node_names(n)
	m = matrix(sym, n)
	g = build(Graph, names, m, shared=True)
	_check(sym, g, m, names)


def dag_reversed(sym):
	"""acyclic graphs whose edges go from later to earlier nodes"""
	n = sym.bound('nodes', 5, 6)
	names = node_names(n)
	d = dag_matrix(sym, n)
	m = [[d[n - 1 - i][n - 1 - j] for j in range(n)] for i in range(n)]
	g = build(Graph, names, m, shared=True)
	_check(sym, g, m, names)


def dag(sym):
	n = sym.bound('nodes', 5, 6)
	names = node_names(n)
	m = dag_matrix(sym, n)
	g = build(Graph, names, m, shared=True)
	_check(sym, g, m, names)


def any_order(sym):
	names = node_names(3)
	g, m = build_any_order(sym, Graph, names, parallel=True, shared=True)
	before = state_of(g)
	_check(sym, g, m, names)
	sym.check(state_of(g) == before, 'asking leaves the graph unchanged')


def readded(sym):
	"""a node that was removed and added again comes last"""
	names = ['a', 'b', 'c']
	m = matrix(sym, 3)
	g = build(Graph, names, m, shared=True)
	g.remove_node('a')
	g.add_node('a')
	back = sym.bool('back')
	if back:
		g.connect(start='c', end='a')
	names2 = ['b', 'c', 'a']
	m2 = [[m[1][1], m[1][2], False], [m[2][1], m[2][2], back], [False, False, False]]
	_check(sym, g, m2, names2)


def after_change(sym):
	"""asked, any edges removed and added, and asked again"""
	names = ['b', 'a', 'c']
	m = matrix(sym, 3, loops=False)
	g = build(Graph, names, m, shared=True)
	ask_everything(g)
	m = toggled(sym, g, m, names, loops=False)
	_check(sym, g, m, names)


def long_graphs(sym):
	"""long paths, rings, joined rings and trees with arbitrary extra edges"""
	n = sym.bound('nodes of long graphs', 6, 8)
	names = node_names(n)
	m = sparse_matrix(sym, n, sym.part(SHAPES), sym.bound('extra edges', 1, 1))
	g = build(Graph, names, m, shared=True)
	_check(sym, g, m, names)


def longer_graphs(sym):
	"""many nodes in simple shapes with any of three more edges"""
	n = sym.bound('nodes of longer graphs', 20, 28)
	names = node_names(n)
	m = longer_matrix(sym, n, sym.part(LONGER_SHAPES))
	g = build(Graph, names, m, shared=True)
	_check(sym, g, m, names)
