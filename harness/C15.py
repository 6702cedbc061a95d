from abstract import Graph
from common import *

PARTS = {'long_structures': 10, 'longer_structures': 8}


class _Thing:
	def __init__(self, number):
		self.number = number
		self.parents = []
		self.children = []

	def __parents__(self):
		return self.parents

	def __children__(self):
		return self.children

	def __hash__(self):
		return 50 + self.number

	def __eq__(self, other):
		return self is other

	def __str__(self):
		return 'thing ' + str(self.number)


def _things(m):
	n = len(m)
	things = [_Thing(i) for i in range(n)]
	for i, j in pairs(n):
		if m[i][j]:
			things[i].children.append(things[j])
			things[j].parents.append(things[i])
	return things


def _within(d, start, j, limit, n):
	if j == start:
		return True
	near = False
	for k in range(1, n + 1):
		if limit is None or k <= limit:
			near = near or d[k][start][j]
	return near


def _check(sym, m, start, max_depth, max_height, g):
	n = len(m)
	transposed = [[m[j][i] for j in range(n)] for i in range(n)]
	down, up = distances(m, n), distances(transposed, n)
	below = [_within(down, start, j, max_depth, n) for j in range(n)]
	above = [_within(up, start, j, max_height, n) for j in range(n)]
	names = [x.name for x in g.nodes]
	for j in range(n):
		sym.check((50 + j in names) == (below[j] or above[j]), 'one node per relative within the limits')
		sym.check(len([x for x in names if x == 50 + j]) <= 1, 'each once')
		if 50 + j in names:
			sym.check(g.get_node(50 + j).label == 'thing ' + str(j), 'labelled by the string form')
	sym.check(len([x for x in names if x not in [50 + j for j in range(n)]]) == 0, 'no other node')
	got = [(e.start.name, e.end.name) for x in g.nodes for e in x.outward_edges]
	for i, j in pairs(n):
		wanted = m[i][j] and ((below[i] and below[j]) or (above[i] and above[j]))
		count = len([x for x in got if x == (50 + i, 50 + j)])
		sym.check(count == (1 if wanted else 0), 'exactly the links between relatives of the same side')


def _build(sym, m, start, limits):
	things = _things(m)
	max_depth = sym.choice('max_depth', limits)
	max_height = sym.choice('max_height', limits)
	strict = sym.bool('strict')
	g = Graph.from_object(things[start], strict=strict, max_depth=max_depth, max_height=max_height)
	_check(sym, m, start, max_depth, max_height, g)
	sym.check(g._is_strict == strict, 'strict flag')


def any_structure(sym):
	m = matrix(sym, 3)
	_build(sym, m, sym.choice('start', [0, 1, 2]), [None, 0, 1, 2])


def four_objects(sym):
	n = sym.bound('objects', 4, 4)
	m = matrix(sym, n, loops=False)
	_build(sym, m, 1, [None, 1, 2])


def acyclic(sym):
	n = sym.bound('objects in acyclic structures', 5, 5)
	m = dag_matrix(sym, n)
	_build(sym, m, sym.choice('start', list(range(n))), [None, 0, 1, 2, 3])


def limits(sym):
	"""long chains with shortcuts"""
	n = 6
	m = [[False] * n for _ in range(n)]
	for i in range(n - 1):
		m[i][i + 1] = True
	m[0][2] = sym.bool('shortcut 0 2')
	m[2][5] = sym.bool('shortcut 2 5')
	m[4][1] = sym.bool('back')
	_build(sym, m, sym.choice('start', [0, 3, 5]), [None, 0, 1, 2, 3, 4])


def long_structures(sym):
	"""long paths, rings, joined rings and trees with any of four extra links"""
	n = sym.bound('objects in long structures', 6, 8)
	part = sym.part(10)
	extra = [(0, n - 1), (1, 4), (n - 1, 2), (3, 3)] if part < 5 else [(n - 1, 0), (2, 2), (3, 1), (0, 3)]
	m = sparse_with(sym, n, part % 5, extra)
	_build(sym, m, sym.choice('start', [0, 2, n - 1]), [None, 2, 4])


def longer_structures(sym):
	"""many objects in simple shapes with any of three more links"""
	n = sym.bound('objects in longer structures', 12, 16)
	m = longer_matrix(sym, n, sym.part(LONGER_SHAPES))
	_build(sym, m, sym.choice('start', [0, 2, n // 2, n - 1]), [None, 5, 9])
