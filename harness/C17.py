import random

from abstract import Graph
from common import *

STUB_RANDOM = True


def _edges(g):
	return [(e.start.name, e.end.name) for x in g.nodes for e in x.outward_edges]


def _check_nodes(sym, g, n, start):
	sym.check([x.name for x in g.nodes] == [str(start + i) for i in range(n)], 'consecutive names in order')
	sym.check([x.label for x in g.nodes] == [x.name for x in g.nodes] and [x.value for x in g.nodes] == [None] * n, 'nothing but the names')


def _check_edges(sym, g, n, start, cycle):
	edges = _edges(g)
	for i in range(n):
		for j in range(n):
			count = len([x for x in edges if x == (str(start + i), str(start + j))])
			sym.check(count <= 1, 'no pair is connected twice')
			if not cycle and i >= j:
				sym.check(count == 0, 'edges go from smaller to larger numbers')
	if not cycle:
		sym.check(len(g.loop_nodes) == 0, 'no loop')


def structure(sym):
	n = sym.choice('n', [0, 1, 2, 3])
	start = sym.choice('start', [1, 0, 9, -1])
	cycle = sym.bool('cycle')
	strict, ordering = sym.bool('strict'), sym.bool('ordering')
	p = sym.real('p', 0, 1)
	g = Graph.random(n, strict=strict, cycle=cycle, start_index=start, connection_probability=p, ordering=ordering)
	_check_nodes(sym, g, n, start)
	_check_edges(sym, g, n, start, cycle)
	sym.check(g._is_strict == strict and g._ordering == ordering, 'the flags')


def draws(sym):
	"""an edge exists exactly where its draw falls below the probability"""
	n = sym.choice('n', [1, 2, 3])
	cycle = sym.bool('cycle')
	if sym.bool('probability given'):
		p = sym.real('p', 0, 1)
		g = Graph.random(num_nodes=n, cycle=cycle, connection_probability=p, seed=sym.choice('seed', [None, 0, 7]))
	else:
		p = 0.5
		g = Graph.random(num_nodes=n, cycle=cycle)
	drawn = list(random.DRAWS)
	every = [(i, j) for i in range(n) for j in range(n)]
	permitted = [(i, j) for i, j in every if cycle or i < j]
	sym.check(len(drawn) == len(every) or len(drawn) == len(permitted), 'one draw per pair')
	edges = _edges(g)
	for k in range(len(drawn)):
		i, j = every[k] if len(drawn) == len(every) else permitted[k]
		wanted = (cycle or i < j) and drawn[k] < p
		sym.check(((str(i + 1), str(j + 1)) in edges) == wanted, 'connected exactly when drawn below the probability')


def extremes(sym):
	n = sym.choice('n', [1, 2, 4])
	cycle = sym.bool('cycle')
	p = sym.choice('p', [0, 0.0, -1, -0.5, 1, 1.0, 2, 1.5])
	g = Graph.random(n, cycle=cycle, connection_probability=p, seed=sym.choice('seed', [None, 3]))
	edges = _edges(g)
	for i in range(n):
		for j in range(n):
			wanted = p >= 1 and (cycle or i < j)
			sym.check(((str(i + 1), str(j + 1)) in edges) == wanted, 'no edge for 0 or less, every edge for 1 or more')


def any_probability(sym):
	"""probabilities beyond both ends"""
	p = sym.real('p', -2, 3)
	cycle = sym.bool('cycle')
	g = Graph.random(2, cycle=cycle, connection_probability=p)
	if p <= 0:
		sym.check(len(g.edges) == 0, 'no edge')
	if p >= 1:
		sym.check(len(g.edges) == (4 if cycle else 1), 'every edge')


def seeds(sym):
	"""the same seed gives the same graph, whatever was drawn before"""
	seed = sym.choice('seed', [0, 1, 42, -1, 'text'])
	n = sym.choice('n', [2, 3])
	cycle = sym.bool('cycle')
	p = sym.real('p', 0, 1)
	if sym.bool('draw before'):
		random.random()
	g = Graph.random(n, cycle=cycle, connection_probability=p, seed=seed)
	between = sym.choice('between', [0, 1, 2])
	for _ in range(between):
		random.uniform(0, 1)
	h = Graph.random(n, cycle=cycle, connection_probability=p, seed=seed)
	sym.check(_edges(g) == _edges(h), 'the same edges')


def ten(sym):
	"""numbers with several digits"""
	start = sym.choice('start', [8, 98, -2])
	g = Graph.random(4, start_index=start, connection_probability=sym.choice('p', [0.3, 1]), seed=5)
	_check_nodes(sym, g, 4, start)
	_check_edges(sym, g, 4, start, False)
