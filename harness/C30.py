"""Graphs derived from derived graphs."""
import copy
import pickle
from abstract import Graph
from common import *

PARTS = {'chains': 24, 'long_chains': 64}
THOROUGH_ONLY = ['long_chains']
NAMES = ['a', 'b', 'c']
KEYS = [(x, y, None) for x in NAMES for y in NAMES] + [('a', 'b', 'p')]
DERIVATIONS = ['copy', 'pickle', 'sum', 'into', 'rebuild', 'dictionary', 'filter', 'append']


def _listing(g):
	"""names and edges with what they carry"""
	return {x.name: (x._label, x.value) for x in g.nodes}, {e.id: (e._label, e.value) for x in g.nodes for e in x.outward_edges}


def _check(sym, g, ref, what):
	nodes, edges = ref
	listed, connected = _listing(g)
	for x in NAMES:
		sym.check((x in listed) == (nodes[x] is not None), what + ': names')
		if x in listed:
			sym.check(listed[x] == nodes[x], what + ': labels and values of nodes')
	for k in KEYS:
		sym.check((k in connected) == (edges[k] is not None), what + ': edges')
		if k in connected:
			sym.check(connected[k] == edges[k], what + ': labels and values of edges')
	sym.check(len(g.nodes) == len([x for x in NAMES if nodes[x] is not None]), what + ': nothing else')
	sym.check(len(connected) == len([k for k in KEYS if edges[k] is not None]), what + ': no other edge')
	inward = [e.id for x in g.nodes for e in x.inward_edges]
	for k in KEYS:
		sym.check(inward.count(k) == (0 if edges[k] is None else 1), what + ': inward')
	for x in g.nodes:
		sym.check(x.graph is g and g.get_node(x.name) is x, what + ': own nodes')
		for e in x.outward_edges:
			sym.check(e.graph is g and e.start is x and e.end is g.get_node(e.id[1]) and e.end.inward_edges_dict[e.id] is e, what + ': own edges')
	sym.check(sorted(g.nodes) == g.nodes, what + ': in order')


def _merge(first, second):
	if first is None:
		return second
	if second is None:
		return first
	value = second[1] if first[1] is None else first[1] if second[1] is None else first[1] + second[1]
	return first[0] if first[0] is not None else second[0], value


def _other(empty):
	g = Graph()
	if empty:
		return g, ({x: None for x in NAMES}, {k: None for k in KEYS})
	g.add_node('c', label='C', value=4)
	g.add_node('b', label='B', value=5)
	g.connect('c', 'b', value=3)
	g.connect('b', 'c', label='bc')
	nodes = {'a': None, 'b': ('B', 5), 'c': ('C', 4)}
	edges = {k: None for k in KEYS}
	edges[('c', 'b', None)] = (None, 3)
	edges[('b', 'c', None)] = ('bc', None)
	return g, (nodes, edges)


def _reach(edges, start):
	seen = {start: True, 'a': start == 'a', 'b': start == 'b', 'c': start == 'c'}
	for _ in range(2):
		for x, y, i in KEYS:
			if edges[(x, y, i)] is not None and seen[x]:
				seen[y] = True
	return seen


def _derive(sym, g, ref, how, s):
	"""a new graph and what it should hold"""
	nodes, edges = ref
	if how == 'copy':
		return g.copy(), (dict(nodes), dict(edges))
	elif how == 'pickle':
		return pickle.loads(pickle.dumps(g)), (dict(nodes), dict(edges))
	elif how == 'rebuild':
		return Graph(obj=g), (dict(nodes), dict(edges))
	elif how == 'dictionary':
		return Graph.from_dict(g.__graph__()), (dict(nodes), dict(edges))
	elif how == 'sum' or how == 'into':
		h, (n2, e2) = _other(sym.bool('nothing' + s))
		if how == 'sum':
			return g + h, ({x: _merge(nodes[x], n2[x]) for x in NAMES}, {k: _merge(edges[k], e2[k]) for k in KEYS})
		return h + g, ({x: _merge(n2[x], nodes[x]) for x in NAMES}, {k: _merge(e2[k], edges[k]) for k in KEYS})
	elif how == 'append':
		h = Graph()
		h.add_node('b')
		h.append(g)
		nodes = dict(nodes)
		if nodes['b'] is None:
			nodes['b'] = (None, None)
		return h, (nodes, dict(edges))
	start = sym.choice('start' + s, ['a', 'b'])
	exclude = sym.bool('exclude' + s)
	if nodes[start] is None:
		return g.copy(), (dict(nodes), dict(edges))
	seen = _reach(edges, start)
	keep = {x: nodes[x] is not None and seen[x] != exclude for x in NAMES}
	h = g.filter(nodes=[start], direction='from', filter_type='exclude' if exclude else 'include')
	return h, ({x: nodes[x] if keep[x] else None for x in NAMES}, {k: edges[k] if keep[k[0]] and keep[k[1]] else None for k in KEYS})


def _change(sym, g, ref, s):
	nodes, edges = ref
	op = sym.choice('change' + s, ['nothing', 'remove', 'connect', 'disconnect', 'value', 'again'])
	if op == 'remove' and nodes['b'] is not None:
		g.remove_node('b')
		nodes['b'] = None
		for k in KEYS:
			if 'b' in k[:2]:
				edges[k] = None
	elif op == 'connect':
		for x in ('a', 'b'):
			if nodes[x] is None:
				g.add_node(x, value=1)
				nodes[x] = (None, 1)
		if edges[('a', 'b', None)] is None:
			g.connect('a', 'b', label='new', value=2)
			edges[('a', 'b', None)] = ('new', 2)
	elif op == 'disconnect' and edges[('a', 'b', None)] is not None:
		g.disconnect(g.edges_dict[('a', 'b', None)])
		edges[('a', 'b', None)] = None
	elif op == 'value' and nodes['a'] is not None:
		g.get_node('a').value = 9
		g.get_node('a').label = 'changed'
		nodes['a'] = ('changed', 9)
	elif op == 'again' and nodes['a'] is not None:
		g.remove_node('a')
		g.add_node('a')
		nodes['a'] = (None, None)
		for k in KEYS:
			if 'a' in k[:2]:
				edges[k] = None


def _start(sym, few):
	g = Graph()
	nodes = {x: None for x in NAMES}
	edges = {k: None for k in KEYS}
	for x in ['b', 'a']:
		label = 'X' if x == 'a' else None
		value = 1 if x == 'a' else None
		if few or sym.bool(x):
			g.add_node(x, label=label, value=value)
			nodes[x] = (label, value)
	for k in [('a', 'b', None), ('b', 'a', None), ('a', 'a', None), ('a', 'b', 'p')]:
		if few and k == ('b', 'a', None):
			continue
		if nodes[k[0]] is not None and nodes[k[1]] is not None and sym.bool(str(k)):
			label = 'p' if k[2] == 'p' else None
			g.connect(k[0], k[1], id=k[2], label=label, value=1)
			edges[k] = (label, 1)
	return g, (nodes, edges)


def chains(sym):
	"""two derivations, each followed by a change of the new graph; earlier graphs stay as they were"""
	g, ref = _start(sym, False)
	part = sym.part(24)
	how = DERIVATIONS[part // 3]
	h, ref2 = _derive(sym, g, ref, how, '1')
	_change(sym, h, ref2, '1')
	second = [['copy', 'pickle', 'sum'], ['into', 'rebuild', 'dictionary'], ['filter', 'append', 'copy']][part % 3]
	how = sym.choice('second', second)
	k, ref3 = _derive(sym, h, ref2, how, '2')
	_change(sym, k, ref3, '2')
	_check(sym, g, ref, 'first')
	_check(sym, h, ref2, 'second')
	_check(sym, k, ref3, 'third')


def long_chains(sym):
	"""three derivations"""
	g, ref = _start(sym, True)
	part = sym.part(64)
	graphs = [(g, ref)]
	for s in range(3):
		if s < 2:
			how = DERIVATIONS[part // 8 if s == 0 else part % 8]
		else:
			how = sym.choice('third', ['copy', 'sum', 'dictionary', 'filter'])
		g, ref = _derive(sym, g, ref, how, str(s))
		_change(sym, g, ref, str(s))
		graphs.append((g, ref))
	for k in range(4):
		_check(sym, graphs[k][0], graphs[k][1], 'graph ' + str(k))
