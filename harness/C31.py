"""Refused operations."""
from abstract import Graph
from abstract.styling.NodeStyle import NodeStyle
from abstract.styling.EdgeStyle import EdgeStyle
from common import *

PARTS = {'refusals': 6, 'twice': 6}


def _state(g):
	nodes = [(x.name, x._label, x.value, x.index, x._tooltip, x.is_frozen, dict(x._parameters)) for x in g.nodes]
	edges = [(e.id, e._label, e.value, e._tooltip, e.is_frozen, dict(e._parameters)) for x in g.nodes for e in x.outward_edges]
	inward = [e.id for x in g.nodes for e in x.inward_edges]
	return nodes, edges, inward


def _styles(g):
	return [x.style for x in g.nodes] + [e.style for x in g.nodes for e in x.outward_edges]


def _same_objects(first, second):
	if len(first) != len(second):
		return False
	for i in range(len(first)):
		if first[i] is not second[i]:
			return False
	return True


def _raised(action):
	try:
		action()
	except (KeyError, ValueError, TypeError, RuntimeError) as e:
		return e.__class__.__name__
	return None


VALUES = [7, 0, False, '']


def _graph(sym):
	g = Graph()
	style = NodeStyle(text_size=3) if sym.bool('styled node') else None
	g.add_node('a', label='A' if sym.bool('label') else None, value=1, style=style, tooltip='tip', k=1)
	g.add_node('b')
	g.add_node('gone')
	gone = g.get_node('gone')
	edge_style = EdgeStyle(text_size=4) if sym.bool('styled edge') else None
	made = {}
	for x, y, i in [('a', 'b', None), ('b', 'a', None), ('a', 'a', 0)]:
		if sym.bool(x + y):
			made[(x, y, i)] = g.connect(x, y, id=i, value=2, style=edge_style if x != y else None, k=2)
	removed = g.connect('b', 'gone')
	g.remove_node('gone')
	frozen = sym.bool('frozen')
	if frozen:
		g.get_node('a').freeze()
		for e in g.edges:
			e.freeze()
	return g, gone, removed, frozen, style is not None, edge_style is not None


def _attempt(sym, s, part, g, gone, removed, frozen, styled, edge_styled):
	"""one operation that has to be refused, and how; None: it is not to be refused here"""
	a = g.get_node('a')
	has_ab = ('a', 'b', None) in g.edges_dict
	if part == 0:
		# nodes
		op = sym.choice('op' + s, ['duplicate', 'type', 'style', 'style again', 'foreign', 'foreign new', 'frozen', 'frozen label'])
		if op == 'duplicate':
			return _raised(lambda: g.add_node('a', label='other', value=7, style=dict(text_size=9), if_node_exists='error')), 'KeyError'
		elif op == 'type':
			name = sym.choice('name' + s, [None, 1.5, ('a',)])
			return _raised(lambda: g.add_node(name, value=3)), 'TypeError'
		elif op == 'style':
			return _raised(lambda: g.add_node('new', label='new', style=5)), 'TypeError'
		elif op == 'style again':
			if styled:
				return _raised(lambda: g.add_node('a', label='other', value=None if frozen else 7, style=NodeStyle(), if_node_exists='ignore')), 'RuntimeError'
			return _raised(lambda: g.add_node('a', label='other', value=None if frozen else 7, style='red', if_node_exists='ignore')), 'TypeError'
		elif op == 'foreign' or op == 'foreign new':
			other = Graph()
			node = other.add_node('a' if op == 'foreign' else 'new', value=5)
			result = _raised(lambda: g.add_node(node))
			sym.check(node.graph is other and other.nodes == [node] and node.value == 5, 'the other graph keeps its node')
			return result, 'ValueError'
		elif frozen:
			label = 'other' if op == 'frozen label' else None
			style = dict(text_size=9) if not styled and sym.bool('new style' + s) else None
			value = sym.choice('value' + s, VALUES)
			return _raised(lambda: g.add_node('a', label=label, value=value, style=style, if_node_exists='ignore')), 'RuntimeError'
		return None, None
	elif part == 1:
		# edges
		op = sym.choice('op' + s, ['absent start', 'absent end', 'absent both', 'type', 'duplicate', 'style', 'style again', 'frozen', 'frozen label'])
		if op == 'absent start':
			return _raised(lambda: g.connect('missing', 'a')), 'KeyError'
		elif op == 'absent end':
			return _raised(lambda: g.connect('a', sym.choice('end' + s, ['missing', 'gone', 7]))), 'KeyError'
		elif op == 'absent both':
			return _raised(lambda: g.connect(gone, gone, id='x')), 'KeyError'
		elif op == 'type':
			wrong = sym.choice('wrong' + s, [None, 2.5, ('b',)])
			if sym.bool('at the end' + s):
				return _raised(lambda: g.connect('a', wrong)), 'TypeError'
			return _raised(lambda: g.connect(wrong, 'b')), 'TypeError'
		elif op == 'style':
			return _raised(lambda: g.connect('a', 'b', id='new', value=3, style=5)), 'TypeError'
		elif has_ab:
			if op == 'duplicate':
				return _raised(lambda: g.connect('a', 'b', label='other', value=7, style=dict(text_size=9), if_edge_exists='error')), 'ValueError'
			elif op == 'style again':
				if edge_styled:
					return _raised(lambda: g.connect('a', 'b', label='other', value=None if frozen else 7, style=EdgeStyle(), if_edge_exists='ignore')), 'RuntimeError'
				return _raised(lambda: g.connect('a', 'b', label='other', value=None if frozen else 7, style='red', if_edge_exists='ignore')), 'TypeError'
			elif frozen:
				label = 'other' if op == 'frozen label' else None
				style = dict(text_size=9) if not edge_styled and sym.bool('new style' + s) else None
				value = sym.choice('value' + s, VALUES)
				return _raised(lambda: a.connect_to('b', label=label, value=value, style=style, if_edge_exists='ignore')), 'RuntimeError'
		return None, None
	elif part == 2:
		# removals
		op = sym.choice('op' + s, ['missing', 'gone', 'name', 'type', 'edge', 'edge itself', 'disconnected', 'twice', 'foreign'])
		if op == 'missing':
			return _raised(lambda: g.remove_node(sym.choice('name' + s, ['missing', '', 0]))), 'KeyError'
		elif op == 'gone':
			return _raised(lambda: g.remove_node(gone)), 'KeyError'
		elif op == 'name':
			return _raised(lambda: g.remove_node('gone')), 'KeyError'
		elif op == 'type':
			return _raised(lambda: g.remove_node(sym.choice('node' + s, [None, ('a',), 0.5]))), 'TypeError'
		elif op == 'edge':
			return _raised(lambda: g.disconnect(removed)), 'ValueError'
		elif op == 'foreign':
			# a node of another graph, with edges there, that this graph has no node for
			other = Graph()
			other.add_node('x', value=1)
			other.add_node('a')
			for p, q in [('x', 'a'), ('a', 'x'), ('x', 'x')]:
				if sym.bool('foreign ' + p + q + s):
					other.connect(p, q, value=3)
			was = _state(other)
			node = other.get_node('x')
			how = sym.choice('how' + s, ['remove', 'start', 'end', 'filter', 'parents', 'loop'])
			if how == 'remove':
				result = _raised(lambda: g.remove_node(node))
			elif how == 'start':
				result = _raised(lambda: g.connect(node, a))
			elif how == 'end':
				result = _raised(lambda: g.connect(a, node))
			elif how == 'filter':
				result = _raised(lambda: g.filter([node]))
			elif how == 'parents':
				result = _raised(lambda: g.get_parents(node))
			else:
				result = _raised(lambda: g.is_node_in_loop(node))
			sym.check(_state(other) == was and node.graph is other, 'the other graph is as it was')
			return result, 'KeyError'
		elif op == 'edge itself':
			return _raised(lambda: removed.remove_self()), 'ValueError'
		else:
			# an edge that is connected again is another edge: the first one cannot be removed any more
			if ('b', 'b', None) not in g.edges_dict:
				first = g.connect('b', 'b', value=1)
			else:
				first = g.edges_dict[('b', 'b', None)]
			g.disconnect(first)
			second = g.connect('b', 'b', value=2)
			result = _raised(lambda: g.disconnect(first))
			sym.check(g.edges_dict[('b', 'b', None)] is second and second.graph is g, 'the new edge stays')
			g.disconnect(second)
			return result, 'KeyError'
	elif part == 3:
		# questions
		name = sym.choice('name' + s, ['missing', 'gone', 3, ''])
		ask = sym.choice('ask' + s, [g.get_node, g.get_parents, g.get_children, g.get_ancestors, g.get_descendants, g.get_siblings, g.get_spouses, g.get_edges, g.is_node_in_loop, g.num_children, g.has_parents])
		return _raised(lambda: ask(name)), 'KeyError'
	elif part == 4:
		op = sym.choice('op' + s, ['filter', 'same loop', 'parameter', 'rank', 'object', 'type'])
		if op == 'filter':
			return _raised(lambda: g.filter(nodes=['a', 'missing'], filter_type=sym.choice('filter' + s, ['include', 'exclude']))), 'KeyError'
		elif op == 'same loop':
			return _raised(lambda: g.are_nodes_in_same_loop('a', 'missing')), 'KeyError'
		elif op == 'parameter':
			return _raised(lambda: a['missing']), 'KeyError'
		elif op == 'rank':
			if has_ab:
				return None, None
			return _raised(lambda: g.get_node('b').get_child_rank(a)), 'ValueError'
		elif op == 'object':
			return _raised(lambda: g.append(sym.choice('object' + s, [1, 'text', None, ['a']]))), 'TypeError'
		return _raised(lambda: g.get_node(sym.choice('node' + s, [None, 1.5, ('a',)]))), 'TypeError'
	else:
		# attributes
		op = sym.choice('op' + s, ['value', 'edge value', 'style', 'style again', 'edge style'])
		if op == 'style':
			return _raised(lambda: setattr(g.get_node('b'), 'style', sym.choice('style' + s, [3, 'red', [1]]))), 'TypeError'
		elif op == 'style again' and styled:
			return _raised(lambda: setattr(a, 'style', dict(text_size=8))), 'RuntimeError'
		elif op == 'edge style' and has_ab:
			return _raised(lambda: setattr(g.edges_dict[('a', 'b', None)], 'style', dict(text_size=8) if edge_styled else 8)), 'RuntimeError' if edge_styled else 'TypeError'
		elif op == 'value' and frozen:
			return _raised(lambda: setattr(a, 'value', sym.choice('value' + s, VALUES + [None, 1]))), 'RuntimeError'
		elif op == 'edge value' and frozen and has_ab:
			return _raised(lambda: setattr(g.edges_dict[('a', 'b', None)], 'value', 9)), 'RuntimeError'
		return None, None


def _still_works(sym, g):
	"""nothing is left over: what is done next works as if nothing had been refused"""
	before = _state(g)
	last = g.nodes[-1]
	node = g.add_node('new', value=4)
	sym.check(g.nodes[-1] is node and node > last and node.value == 4 and node.children == [] and node.parents == [], 'a new node comes last')
	e = g.connect('new', 'a', id='new')
	sym.check(node.children == [g.get_node('a')] and g.edges_dict[('new', 'a', 'new')] is e, 'it can be connected')
	g.remove_node('new')
	sym.check(_state(g) == before, 'and removed')


def refusals(sym):
	"""one refused operation on any graph"""
	part = sym.part(6)
	g, gone, removed, frozen, styled, edge_styled = _graph(sym)
	before, styles = _state(g), _styles(g)
	result, expected = _attempt(sym, '', part, g, gone, removed, frozen, styled, edge_styled)
	sym.check(result == expected, 'refused with the right exception')
	sym.check(_state(g) == before, 'nothing has changed')
	sym.check(_same_objects(_styles(g), styles), 'no style has changed')
	_still_works(sym, g)


def twice(sym):
	"""two refused operations, the second one of any kind"""
	part = sym.part(6)
	g, gone, removed, frozen, styled, edge_styled = _graph(sym)
	before, styles = _state(g), _styles(g)
	_attempt(sym, '1', sym.choice('kind', [0, 1, 2]), g, gone, removed, frozen, styled, edge_styled)
	result, expected = _attempt(sym, '2', part, g, gone, removed, frozen, styled, edge_styled)
	sym.check(result == expected, 'refused with the right exception')
	sym.check(_state(g) == before, 'nothing has changed')
	sym.check(_same_objects(_styles(g), styles), 'no style has changed')
