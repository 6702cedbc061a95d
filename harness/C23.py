import warnings

from abstract import Graph
from common import *


def _check_order(sym, nodes, names=None):
	"""nodes: all nodes of one graph"""
	n = len(nodes)
	for i in range(n):
		for j in range(n):
			a, b = nodes[i], nodes[j]
			lt, gt, eq = a < b, a > b, a == b
			sym.check(eq == (a is b), 'only a node itself is equal to it')
			sym.check((lt and not gt and not eq) or (gt and not lt and not eq) or (eq and not lt and not gt), 'exactly one of <, ==, >')
			sym.check((a <= b) == (lt or eq) and (a >= b) == (gt or eq), '<= and >= agree')
			sym.check((a != b) == (not eq), '!= is the negation of ==')
			sym.check(lt == (b > a), 'mirrored')
			if eq:
				sym.check(hash(a) == hash(b), 'equal nodes have equal hashes')
			for k in range(n):
				if lt and b < nodes[k]:
					sym.check(a < nodes[k], 'transitive')


def _check_edges(sym, edges):
	for i in range(len(edges)):
		for j in range(len(edges)):
			a, b = edges[i], edges[j]
			sym.check((a == b) == (a is b), 'only an edge itself is equal to it')
			sym.check((a != b) == (not a == b), '!= is the negation of ==')
			if a == b:
				sym.check(hash(a) == hash(b), 'equal edges have equal hashes')


def _raises(error, action):
	try:
		action()
	except error:
		return True
	except Exception:
		return False
	return False


def histories(sym):
	"""any sequence of additions and removals"""
	g = Graph()
	present = []
	for step in range(sym.bound('steps', 4, 5)):
		name = sym.choice('name' + str(step), ['b', 'a', 1])
		if name in present:
			g.remove_node(name)
			present.remove(name)
		else:
			g.add_node(name)
			present.append(name)
	nodes = list(g.nodes)
	before = [hash(x) for x in nodes]
	_check_order(sym, nodes)
	for a, b in zip(nodes, nodes[1:]):
		sym.check(a < b, 'in order of addition')
	sym.check([hash(x) for x in nodes] == before, 'hashes are stable')
	sym.check(sorted(nodes) == nodes, 'sorting keeps the order')


def names(sym):
	"""arbitrary names"""
	k = sym.bound('characters of a name', 3, 4)
	a, b, c = sym.str('a', 1, k), sym.str('b', 1, k), sym.str('c', 1, k)
	sym.assume(a != b and b != c and a != c)
	g = Graph()
	nodes = [g.add_node(x) for x in [a, b, c]]
	_check_order(sym, nodes)
	sym.check(nodes[0] < nodes[1] and nodes[1] < nodes[2], 'in order of addition')
	before = [hash(x) for x in nodes]
	nodes[0].label = 'changed'
	nodes[1].value = 3
	g.connect(a, b)
	sym.check([hash(x) for x in nodes] == before, 'hashes are stable')


def added_again(sym):
	"""nodes that are removed and added again, as objects"""
	g = Graph()
	nodes = [g.add_node(x) for x in ['a', 'b', 3]]
	before = [hash(x) for x in nodes]
	for step in range(sym.bound('removals', 2, 3)):
		k = sym.choice('node' + str(step), [0, 1, 2])
		g.remove_node(nodes[k])
		sym.check(hash(nodes[k]) == before[k], 'the hash of a removed node')
		if sym.bool('new' + str(step)):
			nodes[k] = g.add_node(nodes[k].name)
		else:
			g.add_node(nodes[k])
	_check_order(sym, nodes)
	sym.check([hash(x) for x in nodes] == before, 'hashes are stable')
	ordered = sorted(nodes)
	for k in range(2):
		sym.check(ordered[k] < ordered[k + 1], 'sorted')


def derived(sym):
	"""graphs made from graphs"""
	g = Graph()
	for x in ['a', 'b', 'c']:
		g.add_node(x)
	if sym.bool('remove'):
		g.remove_node('a')
	for a, b in [('b', 'c'), ('c', 'b'), ('b', 'b')]:
		if sym.bool(a + b):
			g.connect(a, b)
	way = sym.choice('way', ['copy', 'sum', 'dictionary', 'filter', 'append'])
	if way == 'copy':
		h = g.copy()
	elif way == 'sum':
		other = Graph()
		other.add_node('d')
		other.add_node('b')
		h = g + other
	elif way == 'dictionary':
		h = Graph(obj=g.__graph__())
	elif way == 'filter':
		h = g.filter(nodes=['b'], direction='from')
	else:
		h = Graph()
		h.add_node('c')
		h.append(g)
	if sym.bool('add'):
		h.add_node('a' if 'a' not in h else 'z')
	_check_order(sym, list(h.nodes))
	_check_edges(sym, list(h.edges))
	sym.check(sorted(h.nodes) == list(h.nodes), 'nodes are in order')


def edges(sym):
	g = Graph()
	for x in ['a', 'b']:
		g.add_node(x)
	made = []
	for a in ['a', 'b']:
		for b in ['a', 'b']:
			for i in [None, 1, '1']:
				if sym.bool(a + b + str(i) + ('t' if i == '1' else '')):
					made.append(g.connect(a, b, id=i, value=1))
	before = [hash(e) for e in made]
	_check_edges(sym, made)
	for e in made:
		e.value = 2
		e.label = 'changed'
	sym.check([hash(e) for e in made] == before, 'hashes are stable')
	if len(made) > 1:
		g.disconnect(made[0])
		sym.check([hash(e) for e in made[1:]] == before[1:], 'hashes are stable')
		_check_edges(sym, made[1:])


def edge_ids(sym):
	"""arbitrary ids"""
	k = sym.bound('characters of an id', 2, 3)
	i, j = sym.str('i', 0, k), sym.str('j', 0, k)
	sym.assume(i != j)
	g = Graph()
	g.add_node('a')
	g.add_node('b')
	made = [g.connect('a', 'b', id=i), g.connect('a', 'b', id=j), g.connect('a', 'b'), g.connect('b', 'a', id=i)]
	_check_edges(sym, made)
	same = g.get_node('a').get_outward_edge(('a', 'b', i))
	sym.check(same is made[0] and same == made[0] and hash(same) == hash(made[0]), 'the edge found by its id')


def other_things(sym):
	"""comparisons with something else"""
	g, h = Graph(), Graph()
	a, b = g.add_node('a'), g.add_node('b')
	h.add_node('a')
	h.add_node('b')
	e, f = g.connect('a', 'b'), h.connect('a', 'b')
	other = sym.choice('other', [None, 'a', 0, ('a', 'b', None), 'edge', 'node', 'graph'])
	if other == 'edge':
		sym.check(_raises(TypeError, lambda: a == e) and _raises(TypeError, lambda: a != e), 'a node and an edge')
	elif other == 'node':
		sym.check(_raises(TypeError, lambda: e == a) and _raises(TypeError, lambda: e != a), 'an edge and a node')
	elif other == 'graph':
		sym.check(_raises(ValueError, lambda: e == f) and _raises(ValueError, lambda: e != f), 'edges of different graphs')
		sym.check(_raises(ValueError, lambda: f == e) and _raises(ValueError, lambda: f != e), 'edges of different graphs')
	else:
		sym.check(_raises(TypeError, lambda: a == other) and _raises(TypeError, lambda: a != other), 'a node and something else')
		sym.check(_raises(TypeError, lambda: e == other) and _raises(TypeError, lambda: e != other), 'an edge and something else')


def containers(sym):
	"""nodes and edges as members of sets and keys of dictionaries"""
	g = Graph()
	nodes = [g.add_node(x) for x in ['a', 'b', 'c']]
	made = [g.connect('a', 'b'), g.connect('b', 'a'), g.connect('a', 'b', id=1)]
	chosen = [k for k in range(3) if sym.bool('node' + str(k))]
	twice = [nodes[k] for k in chosen] + [nodes[k] for k in chosen]
	members = set(twice)
	sym.check(len(members) == len(chosen), 'each node once')
	for k in range(3):
		sym.check((nodes[k] in members) == (k in chosen), 'membership')
	table = {}
	for k in range(3):
		if sym.bool('edge' + str(k)):
			table[made[k]] = k
			table[made[k]] = k
	for k in range(3):
		sym.check(table.get(made[k], -1) == (k if sym.bool('edge' + str(k)) else -1), 'lookup')


def copied_edges(sym):
	"""edges that went through a copy or a pickle"""
	g = Graph()
	g.add_node('a')
	g.add_node('b')
	g.connect('a', 'b')
	if sym.bool('second'):
		g.connect('b', 'a', id=2)
	h = g.copy()
	_check_edges(sym, list(h.edges))
	_check_order(sym, list(h.nodes))
	sym.check(_raises(ValueError, lambda: g.edges[0] == h.edges[0]), 'the copy is a different graph')
	sym.check(hash(h.edges[0]) == hash(h.edges[0]), 'stable')
