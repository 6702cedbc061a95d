from abstract import Graph
from common import *


def _check(sym, g, m, mult, names, by):
	"""mult[i][j]: number of edges from i to j"""
	n = len(names)
	for i in range(n):
		node = g.get_node(names[i])
		arg = names[i] if by == 'name' else node
		sib = [x.name for x in node.siblings]
		gsib = [x.name for x in g.get_siblings(arg)]
		co = [x.name for x in node.co_parents]
		gco = [x.name for x in g.get_spouses(arg)]
		nsib = nco = npar = nchi = 0
		for j in range(n):
			want = j != i and any([m[p][i] and m[p][j] for p in range(n)])
			sym.check(sib.count(names[j]) == (1 if want else 0), 'sibling exactly if another node shares a parent, once')
			sym.check(gsib.count(names[j]) == (1 if want else 0), 'graph-level siblings are the same nodes')
			nsib += 1 if want else 0
			want = j != i and any([m[i][c] and m[j][c] for c in range(n)])
			sym.check(co.count(names[j]) == (1 if want else 0), 'co-parent exactly if another node shares a child, once')
			sym.check(gco.count(names[j]) == (1 if want else 0), 'graph-level spouses are the same nodes')
			nco += 1 if want else 0
			npar += mult[j][i]
			nchi += mult[i][j]
		sym.check(len(sib) == nsib and len(gsib) == nsib and len(co) == nco and len(gco) == nco, 'no other nodes')
		sym.check(g.num_siblings(arg) == nsib and g.has_siblings(arg) == (nsib > 0), 'num_siblings and has_siblings agree')
		sym.check(g.num_spouses(arg) == nco and g.has_spouses(arg) == (nco > 0), 'num_spouses and has_spouses agree')
		sym.check(len(g.get_parents(arg)) == npar and g.num_parents(arg) == npar and g.has_parents(arg) == (npar > 0), 'num_parents and has_parents agree')
		sym.check(len(g.get_children(arg)) == nchi and g.num_children(arg) == nchi and g.has_children(arg) == (nchi > 0), 'num_children and has_children agree')
		sym.check(bool(node.has_parents()) == (npar > 0) and bool(node.has_children()) == (nchi > 0), 'node-level has_parents and has_children agree')
		sym.check(len(node.parents) == npar and len(node.children) == nchi, 'node-level parents and children agree')


def any_graph(sym):
	n = sym.bound('nodes', 4, 4)
	names = node_names(n)
	m = matrix(sym, n)
	g = build(Graph, names, m, shared=True)
	_check(sym, g, m, [[1 if x else 0 for x in row] for row in m], names, 'name')


def any_order(sym):
	names = node_names(3)
	g, m = build_any_order(sym, Graph, names, parallel=True, shared=True)
	mult = [[(1 if sym.bool('e' + str(i) + str(j)) else 0) + (1 if sym.bool('f' + str(i) + str(j)) else 0) for j in range(3)] for i in range(3)]
	before = state_of(g)
	_check(sym, g, m, mult, names, 'node')
	sym.check(state_of(g) == before, 'asking leaves the graph unchanged')


def two_by_three(sym):
	"""two parents, three children: everything by integer names"""
	names = [10, 11, 0, 1, 2]
	m = [[False] * 5 for _ in range(5)]
	for i in range(2):
		for j in range(2, 5):
			m[i][j] = sym.bool('e' + str(i) + str(j))
	g = build(Graph, names, m, shared=True)
	_check(sym, g, m, [[1 if x else 0 for x in row] for row in m], names, 'name')


def after_change(sym):
	"""asked, any edges removed and added, and asked again"""
	names = ['b', 'a', 'c']
	m = matrix(sym, 3, loops=False)
	g = build(Graph, names, m, shared=True)
	ask_everything(g)
	m = toggled(sym, g, m, names, loops=False)
	_check(sym, g, m, [[1 if x else 0 for x in row] for row in m], names, 'name')
