from abstract import Graph
from common import *


def _missing(ask, key):
	try:
		ask(key)
	except KeyError:
		return True
	return False


def _audit(sym, g, nodes, ref):
	"""nodes: name -> present; ref: key -> edge or None (key = start, end, id)"""
	present = [x for x in nodes if nodes[x]]
	sym.check(len(g.nodes) == len(present) and all([x in g for x in present]), 'nodes')
	total = 0
	for name in nodes:
		if nodes[name]:
			node = g.get_node(name)
			nout = ninn = nboth = 0
			children, parents = [x.name for x in node.children], [x.name for x in node.parents]
			nchildren, nparents = {x: 0 for x in nodes}, {x: 0 for x in nodes}
			for key in ref:
				start, end, i = key
				here = ref[key] is not None
				if start == name:
					sym.check((key in node.outward_edges_dict) == here, 'outward at its start exactly if connected')
					if here:
						sym.check(node.get_outward_edge(key) is ref[key], 'the outward edge is the one connected')
						nout += 1
						nchildren[end] += 1
					else:
						sym.check(_missing(node.get_outward_edge, key), 'no outward edge, KeyError')
				if end == name:
					sym.check((key in node.inward_edges_dict) == here, 'inward at its end exactly if connected')
					if here:
						sym.check(node.get_inward_edge(key) is ref[key], 'the inward edge is the one connected')
						ninn += 1
						nparents[start] += 1
					else:
						sym.check(_missing(node.get_inward_edge, key), 'no inward edge, KeyError')
				if (start == name or end == name) and here:
					nboth += 1
			sym.check(len(node.outward_edges) == nout and len(node.inward_edges) == ninn and node.num_outward_edges == nout, 'no other edges')
			sym.check(len(g.get_outward_edges(name)) == nout and len(g.get_inward_edges(node)) == ninn, 'graph-level lists agree')
			sym.check(len(g.get_edges(node)) == nout + ninn, 'get_edges is both lists')
			sym.check(len(node.edges) == nboth, 'each edge of a node is listed once')
			for x in nodes:
				sym.check(children.count(x) == nchildren[x], 'children are the ends of the outward edges')
				sym.check(parents.count(x) == nparents[x], 'parents are the starts of the inward edges')
			total += nout
	edges_dict = g.edges_dict
	edges = g.edges
	sym.check(len(edges_dict) == total and len(edges) == total, 'exactly the connections made and not removed, each once')
	for key in ref:
		edge = ref[key]
		if edge is not None:
			sym.check(len([x for x in edges if x is edge]) == 1, 'the edge itself is listed')
			sym.check(edges_dict.get(key) is edge, 'edges are keyed by start, end and id')
			sym.check(edge.id == key and edge.graph is g, 'an edge knows its id and graph')
			sym.check(edge.start is g.get_node(key[0]) and edge.end is g.get_node(key[1]), 'both ends are registered')


def _history(sym, names, ids, ops, steps, start_nodes):
	g = Graph()
	nodes = {x: x in start_nodes for x in names}
	for x in start_nodes:
		g.add_node(x)
	ref = {(a, b, i): None for a in names for b in names for i in ids}
	keys = list(ref)
	for s in range(steps):
		op = sym.choice('op' + str(s), ops)
		key = sym.choice('key' + str(s), keys)
		for k in keys:
			if key == k:
				a, b, i = k
				if op == 'add_node':
					g.add_node(a, if_node_exists='ignore')
					nodes[a] = True
				elif op == 'remove_node':
					if nodes[a]:
						g.remove_node(a)
						nodes[a] = False
						for x in keys:
							if x[0] == a or x[1] == a:
								ref[x] = None
				elif op == 'connect':
					if nodes[a] and nodes[b]:
						e = g.connect(start=a, end=b, id=i, if_edge_exists='ignore')
						if ref[k] is None:
							ref[k] = e
						else:
							sym.check(e is ref[k], 'the same edge again')
				elif ref[k] is not None:
					e = ref[k]
					if op == 'disconnect':
						g.disconnect(e)
					else:
						e.remove_self()
					sym.check(e.graph is None, 'a removed edge has no graph')
					ref[k] = None
	_audit(sym, g, nodes, ref)
	return ref


def history(sym):
	steps = sym.bound('steps', 3, 4)
	ref = _history(sym, ['a', 'b'], [None, 0], ['connect', 'disconnect', 'remove_self', 'remove_node'], steps, ['a', 'b'])
	sym.cover('three edges', len([1 for k in ref if ref[k] is not None]) == 3)


def history_nodes(sym):
	steps = sym.bound('steps', 4, 5)
	ref = _history(sym, ['a', 'b'], [None], ['add_node', 'connect', 'remove_self', 'remove_node'], steps, ['a'])
	sym.cover('two edges', len([1 for k in ref if ref[k] is not None]) == 2)


def _arbitrary(sym, names):
	g, m = build_any_order(sym, Graph, names, parallel=True)
	n = len(names)
	ref = {}
	for i in range(n):
		for j in range(n):
			k = (names[i], names[j], None)
			ref[k] = g.edges_dict.get(k)
			k = (names[i], names[j], 'p')
			ref[k] = g.edges_dict.get(k)
	return g, {x: True for x in names}, ref


def _remove(sym, g, nodes, ref, s):
	what = sym.choice('what' + s, ['node', 'edge', 'edges of node', 'disconnect'])
	key = sym.choice('key' + s, list(ref))
	for k in list(ref):
		if k == key:
			a = k[0]
			if what == 'node' or what == 'edges of node':
				if nodes[a]:
					if what == 'node':
						g.remove_node(g.get_node(a))
						nodes[a] = False
					else:
						g.get_node(a).remove_edges()
					for x in list(ref):
						if x[0] == a or x[1] == a:
							ref[x] = None
			elif ref[k] is not None:
				if what == 'edge':
					ref[k].remove_self()
				else:
					g.disconnect(edge=ref[k])
				ref[k] = None


def removals_from_any_graph(sym):
	"""two removals from an arbitrary graph of two nodes with self-loops and parallel edges"""
	g, nodes, ref = _arbitrary(sym, ['a', 'b'])
	_audit(sym, g, nodes, ref)
	_remove(sym, g, nodes, ref, '0')
	_remove(sym, g, nodes, ref, '1')
	_audit(sym, g, nodes, ref)


def asked_again(sym):
	"""one edge removed and another one made, between two looks"""
	g, nodes, ref = _arbitrary(sym, ['a', 'b'])
	_audit(sym, g, nodes, ref)
	gone, new = sym.choice('gone', list(ref)), sym.choice('new', list(ref))
	sym.assume(ref[gone] is not None)
	if sym.bool('how'):
		g.disconnect(ref[gone])
	else:
		ref[gone].remove_self()
	ref[gone] = None
	sym.assume(ref[new] is None)
	ref[new] = g.connect(new[0], new[1], id=new[2])
	_audit(sym, g, nodes, ref)


def removal_three_nodes(sym):
	names = ['a', 'b', 'c']
	m = matrix(sym, 3)
	g = build(Graph, names, m)
	ref = {(names[i], names[j], None): g.edges_dict.get((names[i], names[j], None)) for i in range(3) for j in range(3)}
	nodes = {x: True for x in names}
	_remove(sym, g, nodes, ref, '0')
	_audit(sym, g, nodes, ref)


def reconnect(sym):
	"""connecting again after a removal gives a new edge at both ends; removal of a removed edge is refused"""
	g = Graph()
	a = g.add_node('a')
	b = g.add_node('b') if sym.bool('two') else a
	e = g.connect(a, b, label='x', value=3)
	if sym.bool('how'):
		g.disconnect(e)
	else:
		e.remove_self()
	f = b.connect_from(a, value=4) if sym.bool('from') else a.connect_to(b, value=4)
	sym.check(f is not e and f.value == 4 and f.label is None, 'a new edge')
	_audit(sym, g, {x.name: True for x in g.nodes}, {(a.name, b.name, None): f})
