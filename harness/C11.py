from abstract import Graph
from common import *


def _graph(sym, names, ids, p, labels, values):
	"""arbitrary subset of the nodes, arbitrary edges between them"""
	g = Graph(strict=sym.bool(p + 'strict'), ordering=sym.bool(p + 'ordering'))
	has, node_attr, edge_attr = {}, {}, {}
	for x in names:
		has[x] = sym.bool(p + 'n' + str(x))
		if has[x]:
			node_attr[x] = (sym.choice(p + 'l' + str(x), labels), sym.choice(p + 'v' + str(x), values))
			g.add_node(x, label=node_attr[x][0], value=node_attr[x][1])
	for a in names:
		for b in names:
			for i in ids:
				if has[a] and has[b]:
					if sym.bool(p + 'e' + str(a) + str(b) + str(i)):
						key = (a, b, i)
						edge_attr[key] = (sym.choice(p + 'el' + str(a) + str(b) + str(i), labels), sym.choice(p + 'ev' + str(a) + str(b) + str(i), values))
						g.connect(a, b, id=i, label=edge_attr[key][0], value=edge_attr[key][1])
	return g, node_attr, edge_attr


def _plus(x, y):
	if x is None:
		return y
	if y is None:
		return x
	return x + y


def _mul(x, y):
	if x is None or y is None:
		return 99
	return 10 * x + y


def _check(sym, g, h, na, nb, ea, eb, result, plus):
	for key in list(na) + list(nb):
		sym.check(key in result, 'every node of both graphs')
		x = result.get_node(key)
		if key in na and key in nb:
			sym.check(x._label == (na[key][0] or nb[key][0]), 'the label of the first graph, else of the second')
			sym.check(x.value == plus(na[key][1], nb[key][1]), 'values combined')
		else:
			want = na[key] if key in na else nb[key]
			sym.check(x._label == want[0] and x.value == want[1], 'label and value of the only graph')
		sym.check(x.graph is result, 'nodes belong to the sum')
	union = [k for k in na] + [k for k in nb if k not in na]
	sym.check(len(result.nodes) == len(union), 'no other nodes')
	edges = result.edges_dict
	for key in list(ea) + list(eb):
		sym.check(key in edges, 'every edge of both graphs')
		e = edges[key]
		if key in ea and key in eb:
			sym.check(e.label == (ea[key][0] or eb[key][0]), 'the edge label of the first graph, else of the second')
			sym.check(e.value == plus(ea[key][1], eb[key][1]), 'edge values combined')
		else:
			want = ea[key] if key in ea else eb[key]
			sym.check(e.label == want[0] and e.value == want[1], 'label and value of the only edge')
	union = [k for k in ea] + [k for k in eb if k not in ea]
	sym.check(len(edges) == len(union), 'no other edges')


def nodes_and_edges(sym):
	names, ids = ['a', 'b'], [None]
	g, na, ea = _graph(sym, names, ids, 'g', [None, 'x'], [None, 0, 3])
	h, nb, eb = _graph(sym, names, ids, 'h', [None, 'y'], [None, 0, 4])
	bg, bh = state_of(g), state_of(h)
	result = g + h
	_check(sym, g, h, na, nb, ea, eb, result, _plus)
	sym.check(state_of(g) == bg and state_of(h) == bh, 'both operands are unchanged')
	sym.check(result._is_strict == g._is_strict and result._ordering == g._ordering, 'flags of the first graph')


def ids(sym):
	"""parallel edges with different ids, names of different types"""
	names, ids = [0, 'b'], [None, 0, 'i']
	g, na, ea = _graph(sym, names, ids, 'g', [None], [None, 1])
	h, nb, eb = _graph(sym, names, ids, 'h', ['y'], [2])
	result = g.add(h)
	_check(sym, g, h, na, nb, ea, eb, result, _plus)


def three_names(sym):
	names, ids = ['a', 'b', 'c'], [None]
	g, na, ea = _graph(sym, names, ids, 'g', ['x'], [1])
	h, nb, eb = _graph(sym, names, ids, 'h', ['y'], [20])
	result = g + h
	_check(sym, g, h, na, nb, ea, eb, result, _plus)


def function(sym):
	"""values combined by a supplied function"""
	names, ids = ['a'], [None]
	g, na, ea = _graph(sym, names, ids, 'g', [None], [1, 0])
	h, nb, eb = _graph(sym, names, ids, 'h', [None], [2, 0])
	result = g.add(other=h, add_values_function=_mul)
	_check(sym, g, h, na, nb, ea, eb, result, _mul)


def arbitrary_values(sym):
	x, y, z, w = sym.int('x', -3, 3), sym.int('y', -3, 3), sym.int('z', -3, 3), sym.int('w', -3, 3)
	g, h = Graph(), Graph()
	for k, v, u in ((g, x, z), (h, y, w)):
		k.add_node('a', value=v)
		k.connect('a', 'a', value=u)
	s = g + h
	sym.check(s.get_node('a').value == x + y and s.edges[0].value == z + w, 'value1 + value2')
	sym.check(g.get_node('a').value == x and h.get_node('a').value == y, 'operands')


def independent(sym):
	"""the sum is a graph of its own, style overrides of the operands included"""
	d1 = {'nodes': ['a', 'b'], 'edges': [('a', 'b')], 'node_styles': {'a': {'text_size': 5}}, 'edge_styles': {('a', 'b'): {'text_size': 6}}}
	d2 = {'nodes': ['b', 'c'], 'edges': [('b', 'c')], 'node_styles': {'b': {'text_size': 7}}, 'edge_styles': {('b', 'c'): {'text_size': 8}}}
	g, h = Graph(obj=d1), Graph(obj=d2)
	self_sum = sym.bool('self')
	s = g + (g if self_sum else h)
	sym.check(list(g._node_style_overwrites) == ['a'] and list(g._edge_style_overwrites) == [('a', 'b', None)], 'overrides of the first graph unchanged')
	sym.check(list(h._node_style_overwrites) == ['b'] and list(h._edge_style_overwrites) == [('b', 'c', None)], 'overrides of the second graph unchanged')
	s.render(view=False)
	sym.check(s.get_node('a').style._text_size == 5 and s.edges_dict[('a', 'b', None)].style._text_size == 6, 'overrides of the first graph kept')
	if not self_sum:
		sym.check(s.get_node('b').style._text_size == 7 and s.edges_dict[('b', 'c', None)].style._text_size == 8, 'overrides of the second graph kept')
	op = sym.choice('op', ['remove', 'label', 'connect'])
	before = (state_of(g), state_of(h))
	if op == 'remove':
		s.remove_node('b')
	elif op == 'label':
		s.get_node('a').label = 'new'
		s.edges_dict[('a', 'b', None)].value = 3
	else:
		s.connect('a', 'a')
	sym.check((state_of(g), state_of(h)) == before, 'changing the sum leaves the operands unchanged')
	sym.check(len([x for x in g.nodes if x.style is not None]) == 0, 'operands are not styled')


def mutable_values(sym):
	"""values that could be changed in place"""
	g, h = Graph(), Graph()
	lists = {}
	for k, p in ((g, 'g'), (h, 'h')):
		for x in ('a', 'b'):
			lists[p + x] = sym.choice(p + x, [None, [1], [2, 3], []])
			k.add_node(x, value=lists[p + x])
		lists[p + 'e'] = sym.choice(p + 'e', [None, [4], {'k': 5}]) if p == 'g' else sym.choice(p + 'e', [None, [6]])
		k.connect('a', 'b', value=lists[p + 'e'])
	sym.assume(not isinstance(lists['ge'], dict) or lists['he'] is None)
	before = {key: None if v is None else list(v) for key, v in lists.items()}
	first = g + h
	second = g + h if sym.bool('again') else first
	for s in (first, second):
		for x in ('a', 'b'):
			u, v = before['g' + x], before['h' + x]
			want = v if u is None else (u if v is None else u + v)
			got = s.get_node(x).value
			sym.check((got is None) == (want is None) and (want is None or list(got) == want), 'values added up')
	for k, p in ((g, 'g'), (h, 'h')):
		for x in ('a', 'b'):
			v = k.get_node(x).value
			sym.check((v is None) == (before[p + x] is None) and (v is None or list(v) == before[p + x]), 'the values of the operands are unchanged')
		v = k.edges[0].value
		sym.check((v is None) == (before[p + 'e'] is None) and (v is None or list(v) == before[p + 'e']), 'the edge values of the operands are unchanged')


def summed_again(sym):
	"""one operand is changed, without changing how many nodes and edges it has, between two sums"""
	g, h = Graph(), Graph()
	na, nb, ea, eb = {'a': (None, 1), 'b': ('B', None)}, {'b': (None, 2), 'c': (None, None)}, {('a', 'b', None): (None, 3)}, {('b', 'c', None): (None, 4), ('c', 'b', None): ('x', None)}
	for k, nodes, edges in ((g, na, ea), (h, nb, eb)):
		for x in nodes:
			k.add_node(x, label=nodes[x][0], value=nodes[x][1])
		for a, b, i in edges:
			k.connect(a, b, id=i, label=edges[(a, b, i)][0], value=edges[(a, b, i)][1])
	_check(sym, g, h, na, nb, ea, eb, g + h, _plus)
	k, nodes, edges = (g, na, ea) if sym.bool('first') else (h, nb, eb)
	what = sym.choice('what', ['value', 'label', 'edge value', 'edge', 'node'])
	if what == 'value':
		k.get_node('b').value = 7
		nodes['b'] = (nodes['b'][0], 7)
	elif what == 'label':
		k.get_node('b').label = 'new'
		nodes['b'] = ('new', nodes['b'][1])
	elif what == 'node':
		k.remove_node('b')
		k.add_node('d', value=8)
		del nodes['b']
		nodes['d'] = (None, 8)
		for key in list(edges):
			del edges[key]
		k.connect('d', 'd')
		edges[('d', 'd', None)] = (None, None)
		if k is h:
			k.connect('c', 'd', value=5)
			edges[('c', 'd', None)] = (None, 5)
	else:
		key = list(edges)[0]
		e = k.edges_dict[key]
		if what == 'edge value':
			e.value = 9
			edges[key] = (edges[key][0], 9)
		else:
			k.disconnect(e)
			k.connect('b', 'b', value=6)
			del edges[key]
			edges[('b', 'b', None)] = (None, 6)
	if sym.bool('turned'):
		_check(sym, h, g, nb, na, eb, ea, h + g, _plus)
	else:
		_check(sym, g, h, na, nb, ea, eb, g + h, _plus)
