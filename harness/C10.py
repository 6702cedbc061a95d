from abstract import Graph
from common import *

PARTS = {'long_graphs': 10, 'longer_graphs': 8}


def _check(sym, g, m, names, labels, selected, direction, filter_type, how):
	n = len(names)
	r = closure(m)
	given = []
	for i in range(n):
		if selected[i]:
			given.append(names[i] if how == 'name' else g.get_node(names[i]))
	before = state_of(g)
	h = g.filter(nodes=tuple(given) if how == 'node' else given, direction=direction, filter_type=filter_type)
	keep = []
	for j in range(n):
		up = any([selected[i] and r[j][i] for i in range(n)])
		down = any([selected[i] and r[i][j] for i in range(n)])
		inside = selected[j] or (direction != 'from' and up) or (direction != 'to' and down)
		keep.append(inside == (filter_type == 'include'))
	sym.check([x.name for x in h.nodes] == [x for j, x in enumerate(names) if keep[j]], 'exactly the selected neighbourhood, or its complement')
	sym.check(state_of(g) == before, 'the original is unchanged')
	sym.check(h is not g, 'a new graph')
	number = 0
	for i in range(n):
		for j in range(n):
			key = (names[i], names[j], None)
			want = m[i][j] and keep[i] and keep[j]
			sym.check((key in h.edges_dict) == want, 'exactly the edges whose two ends are kept')
			if want:
				e = h.edges_dict[key]
				sym.check(e.label == 'e' + str(i) + str(j) and e.value == 10 * i + j and e.start is h.get_node(names[i]) and e.end is h.get_node(names[j]), 'with their ids, labels and values')
				number += 1
	sym.check(len(h.edges) == number, 'no other edges')
	for j in range(n):
		if keep[j]:
			x = h.get_node(names[j])
			sym.check(x._label == labels[j] and x.value == j and x.graph is h and x is not g.get_node(names[j]), 'nodes keep label and value')


def _graph(sym, names, m):
	g = Graph()
	labels = []
	for j, x in enumerate(names):
		labels.append('L' + str(j))
		g.add_node(x, label=labels[j], value=j)
	for i in range(len(names)):
		for j in range(len(names)):
			if m[i][j]:
				g.connect(names[i], names[j], label='e' + str(i) + str(j), value=10 * i + j)
	return g, labels


def any_graph(sym):
	n = 3
	names = ['a', 'b', 0]
	m = matrix(sym, n)
	g, labels = _graph(sym, names, m)
	selected = [sym.bool('s' + str(i)) for i in range(n)]
	direction = sym.choice('direction', ['to', 'from', 'to_and_from'])
	filter_type = sym.choice('type', ['include', 'exclude', 'other'])
	_check(sym, g, m, names, labels, selected, direction, filter_type, sym.choice('how', ['name', 'node']))


def four_nodes(sym):
	names = ['a', 'b', 'c', 'd']
	m = matrix(sym, 4, loops=False)
	g, labels = _graph(sym, names, m)
	at = sym.choice('at', [0, 1, 2, 3])
	selected = [at == i for i in range(4)]
	direction = sym.choice('direction', ['to', 'from', 'to_and_from'])
	_check(sym, g, m, names, labels, selected, direction, 'include', 'name')


def parallel(sym):
	"""parallel edges and self-loops keep their ids; defaults; the result is a graph of its own"""
	names = ['a', 'b', 'c']
	g, m = build_any_order(sym, Graph, names, parallel=True)
	keys = list(g.edges_dict)
	before = state_of(g)
	h = g.filter(nodes=['b'])
	r = closure(m)
	keep = [j == 1 or r[1][j] or r[j][1] for j in range(3)]
	sym.check([x.name for x in h.nodes] == [x for j, x in enumerate(names) if keep[j]], 'both directions are kept by default')
	number = 0
	for key in keys:
		want = keep[names.index(key[0])] and keep[names.index(key[1])]
		sym.check((key in h.edges_dict) == want, 'exactly the edges whose two ends are kept')
		if want:
			number += 1
	sym.check(len(h.edges) == number, 'no other edges')
	h.remove_node('b')
	sym.check(state_of(g) == before, 'the original is unchanged')


def nothing_selected(sym):
	names = ['a', 'b']
	m = matrix(sym, 2)
	g, labels = _graph(sym, names, m)
	given = sym.choice('given', [None, 'empty'])
	filter_type = sym.choice('type', ['include', 'exclude'])
	h = g.filter(nodes=None if given is None else [], filter_type=filter_type)
	sym.check(len(h.nodes) == (0 if filter_type == 'include' else 2) and len(h.edges) == (0 if filter_type == 'include' else len(g.edges)), 'nothing or everything')
	try:
		g.filter(nodes=['zz'])
		sym.fail('filtering by an absent name succeeds')
	except KeyError:
		pass


def after_change(sym):
	"""filtered, changed and filtered again"""
	names = ['a', 'b', 'c']
	m = matrix(sym, 3, loops=False)
	g = Graph()
	labels = []
	for j, x in enumerate(names):
		labels.append('L' + str(j))
		g.add_node(x, label=labels[j], value=j)
	for i, j in pairs(3, loops=False):
		if m[i][j]:
			g.connect(names[i], names[j])
	ask_everything(g)
	at = sym.choice('at', [0, 1, 2])
	direction = sym.choice('direction', ['to', 'from', 'to_and_from'])
	g.filter(nodes=[names[at]], direction=direction)
	m = toggled(sym, g, m, names, loops=False)
	for i, j in pairs(3, loops=False):
		if m[i][j]:
			e = g.edges_dict[(names[i], names[j], None)]
			e.label = 'e' + str(i) + str(j)
			e.value = 10 * i + j
	_check(sym, g, m, names, labels, [at == k for k in range(3)], direction, 'include', 'name')


def long_graphs(sym):
	"""long paths, rings, joined rings and trees with an arbitrary extra edge"""
	n = sym.bound('nodes of long graphs', 6, 8)
	names = node_names(n)
	part = sym.part(10)
	m = sparse_matrix(sym, n, part % 5, 1)
	g, labels = _graph(sym, names, m)
	at = [0, 3] if part < 5 else [2, 5]
	selected = [i in at for i in range(n)] if sym.bool('both') else [i == at[1] for i in range(n)]
	_check(sym, g, m, names, labels, selected, sym.choice('direction', ['to', 'from', 'to_and_from']), sym.choice('type', ['include', 'exclude']), 'name')


def longer_graphs(sym):
	"""many nodes in simple shapes with any of three more edges"""
	n = sym.bound('nodes of longer graphs', 12, 16)
	names = node_names(n)
	m = longer_matrix(sym, n, sym.part(LONGER_SHAPES))
	g, labels = _graph(sym, names, m)
	at = sym.choice('at', [0, 3, n // 2, n - 1])
	_check(sym, g, m, names, labels, [i == at for i in range(n)], sym.choice('direction', ['to', 'from', 'to_and_from']), sym.choice('type', ['include', 'exclude']), 'name')
