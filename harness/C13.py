import warnings
from abstract import Graph
from common import *


def _check(sym, g, start, end, labels, strict):
	n = len(start)
	order = []
	for k in range(n):
		for x in (start[k], end[k]):
			if x not in order:
				order.append(x)
	sym.check([x.name for x in g.nodes] == order, 'the listed names as nodes, in order of first appearance')
	edges = g.edges
	sym.check(len(edges) == n and len(g.edges_dict) == n, 'one edge per position')
	for k in range(n):
		found = [e for e in edges if e.start.name == start[k] and e.end.name == end[k] and e.raw_id == k]
		sym.check(len(found) == 1 and found[0].label == labels[k], 'from its start to its end with its label')
		sym.check(found[0].graph is g, 'in the graph')
	for x in g.nodes:
		out = [e.raw_id for e in x.outward_edges]
		sym.check(out == [k for k in range(n) if start[k] == x.name], 'edges of a node in order of position')
	sym.check(g._is_strict == strict, 'strict flag')


def lists(sym):
	n = sym.bound('positions', 3, 4)
	pool = ['a', 'b', 'c']
	start = [sym.choice('s' + str(k), pool) for k in range(n)]
	end = [sym.choice('t' + str(k), pool) for k in range(n)]
	labels = [sym.choice('l' + str(k), [None, 'x', '']) for k in range(n)]
	with warnings.catch_warnings(record=True) as log:
		warnings.simplefilter('always')
		g = Graph.from_lists(start, end, labels)
	sym.check(len(log) == 0, 'no warnings')
	_check(sym, g, start, end, labels, False)
	sym.cover('same pair', start[0] == start[1] and end[0] == end[1])


def two_names(sym):
	"""many positions over two names, which are integers or strings"""
	n = sym.bound('positions', 5, 6)
	pool = [0, 'b']
	start = [sym.choice('s' + str(k), pool) for k in range(n)]
	end = [sym.choice('t' + str(k), pool) for k in range(n)]
	labels = ['x' + str(k) for k in range(n)]
	strict = sym.bool('strict')
	g = Graph.from_lists(start=start, end=end, edge=labels, strict=strict)
	_check(sym, g, start, end, labels, strict)


def short(sym):
	n = sym.choice('n', [0, 1, 2])
	start, end, labels = ['a', 'b'][:n], ['a', 'c'][:n], ['x', None][:n]
	strict = sym.bool('strict')
	g = Graph.from_lists(start=start, end=end, edge=labels, strict=strict)
	_check(sym, g, start, end, labels, strict)
