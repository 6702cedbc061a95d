from abstract import Graph
from common import *

PARTS = {'long_graphs': 5, 'longer_graphs': 8}


def _map_ok(sym, d, rel, i, n, names, own, what):
	"""d: result; rel[k][j]: shortest distance of j is k"""
	total = 0
	for k in range(1, n + 1):
		here = d.get(k, [])
		for j in range(n):
			want = rel[k][j] and (own or j != i)
			sym.check(count_names(here, names[j]) == (1 if want else 0), what + ' under its shortest distance, once')
		total += len(here)
	all_listed = 0
	for k, v in d.items():
		sym.check(len(v) > 0, what + ' map has no empty distance')
		all_listed += len(v)
	sym.check(all_listed == total, what + ' map has no other distances')
	return total


def _check(sym, g, m, names, how):
	n = len(names)
	dist = distances(m, n)
	for i in range(n):
		node = names[i] if how == 'name' else g.get_node(names[i])
		up = [None] + [[dist[k][j][i] for j in range(n)] for k in range(1, n + 1)]
		down = [None] + [[dist[k][i][j] for j in range(n)] for k in range(1, n + 1)]
		if how == 'default':
			a, d = g.get_ancestors(node), g.get_descendants(node)
		else:
			a, d = g.get_ancestors(node, distance=True), g.get_descendants(node, distance=True)
		na = _map_ok(sym, a, up, i, n, names, True, 'ancestor')
		nd = _map_ok(sym, d, down, i, n, names, False, 'descendant')
		sym.check(na == len(g.get_ancestors(node, distance=False)), 'same set as the ancestor list')
		sym.check(nd == len(g.get_descendants(node, distance=False)), 'same set as the descendant list')


def any_graph(sym):
	n = sym.bound('nodes', 3, 4)
	names = node_names(n)
	m = matrix(sym, n)
	g = build(Graph, names, m, shared=True)
	_check(sym, g, m, names, 'node')


def any_graph_4(sym):
	names = node_names(4)
	m = matrix(sym, 4, loops=False)
	g = build(Graph, names, m, shared=True)
	_check(sym, g, m, names, 'name')
	sym.cover('long path', m[0][1] and m[1][2] and m[2][3] and not m[0][2] and not m[0][3] and not m[1][3])


def dag(sym):
	n = sym.bound('nodes', 5, 6)
	names = node_names(n)
	m = dag_matrix(sym, n)
	g = build(Graph, names, m, shared=True)
	_check(sym, g, m, names, 'default')


def any_order(sym):
	names = node_names(3)
	g, m = build_any_order(sym, Graph, names, parallel=True, shared=True)
	before = state_of(g)
	_check(sym, g, m, names, 'default')
	sym.check(state_of(g) == before, 'asking leaves the graph unchanged')


def after_change(sym):
	"""asked, any edges removed and added, and asked again"""
	names = ['b', 'a', 'c']
	m = matrix(sym, 3, loops=False)
	g = build(Graph, names, m, shared=True)
	ask_everything(g)
	m = toggled(sym, g, m, names, loops=False)
	_check(sym, g, m, names, 'default')


def long_graphs(sym):
	"""long paths, rings, joined rings and trees with arbitrary extra edges"""
	n = sym.bound('nodes of long graphs', 6, 8)
	names = node_names(n)
	m = sparse_matrix(sym, n, sym.part(SHAPES), sym.bound('extra edges', 1, 1))
	g = build(Graph, names, m, shared=True)
	_check(sym, g, m, names, 'default')


def longer_graphs(sym):
	"""many nodes in simple shapes with any of three more edges"""
	n = sym.bound('nodes of longer graphs', 12, 16)
	names = node_names(n)
	m = longer_matrix(sym, n, sym.part(LONGER_SHAPES))
	g = build(Graph, names, m, shared=True)
	_check(sym, g, m, names, 'default')
