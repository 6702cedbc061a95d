from abstract import get_ancestors, get_descendants, Graph
from common import *

PARTS = {'long_structures': 5, 'longer_structures': 8}


class _Thing:
	def __init__(self, number):
		self.number = number
		self.parents = []
		self.children = []

	def __parents__(self):
		return self.parents

	def __children__(self):
		return self.children


class _Equal(_Thing):
	"""compared by number, not hashable"""

	def __eq__(self, other):
		return self.number == other.number

	__hash__ = None


def _check(sym, things, m, start, limit, result, distance):
	"""m[i][j]: j is a direct relative of i"""
	n = len(things)
	d = distances(m, n)
	steps = n if limit is None else limit
	if distance:
		sym.check(isinstance(result, dict), 'distances are keys')
		seen = []
		for k, found in result.items():
			sym.check(k >= 1 and k <= steps and k <= n, 'distances within the limit')
			sym.check(len(found) > 0, 'no empty list')
			for x in found:
				sym.check(x.number not in seen and x.number != start, 'each object once, never itself')
				seen.append(x.number)
				sym.check(d[k][start][x.number], 'the distance is the shortest one')
				sym.check(x is things[x.number], 'the objects themselves')
	else:
		seen = []
		for x in result:
			sym.check(x.number not in seen and x.number != start, 'each object once, never itself')
			seen.append(x.number)
			sym.check(x is things[x.number], 'the objects themselves')
	for j in range(n):
		if j != start:
			near = False
			for k in range(1, n + 1):
				if k <= steps:
					near = near or d[k][start][j]
			sym.check((j in seen) == near, 'exactly the objects within the limit')


def _ask(sym, things, m, start, limits=(None, 0, 1, 2, 3, 9)):
	limit = sym.choice('limit', list(limits))
	distance = sym.bool('distance')
	if sym.bool('ancestors'):
		for i, j in pairs(len(things)):
			if m[i][j]:
				things[i].parents.append(things[j])
		ask, name = get_ancestors, 'max_height'
	else:
		for i, j in pairs(len(things)):
			if m[i][j]:
				things[i].children.append(things[j])
		ask, name = get_descendants, 'max_depth'
	if limit is None:
		result = ask(things[start], distance=distance)
	elif name == 'max_height':
		result = ask(things[start], distance=distance, max_height=limit)
	else:
		result = ask(things[start], distance=distance, max_depth=limit)
	_check(sym, things, m, start, limit, result, distance)
	return result


def any_structure(sym):
	n = sym.bound('objects', 3, 4)
	m = matrix(sym, n)
	_ask(sym, [_Thing(i) for i in range(n)], m, sym.choice('start', list(range(n))))


def four_objects(sym):
	n = 4
	m = matrix(sym, n, loops=False)
	_ask(sym, [_Thing(i) for i in range(n)], m, 0)


def deep(sym):
	"""acyclic structures with long and short ways to the same object"""
	n = sym.bound('objects in acyclic structures', 5, 6)
	m = dag_matrix(sym, n)
	_ask(sym, [_Thing(i) for i in range(n)], m, 0, limits=(None, 0, 1, 2, 3, 4, 5))


def order(sym):
	"""any order and repetition of direct relatives"""
	n = 3
	things = [_Thing(i) for i in range(n)]
	m = [[False] * n for _ in range(n)]
	for i in range(n):
		for k in range(2):
			j = sym.choice('relative' + str(i) + str(k), [0, 1, 2, None])
			if j is not None:
				m[i][j] = True
				things[i].children.append(things[j])
	limit = sym.choice('limit', [None, 0, 1, 2])
	distance = sym.bool('distance')
	_check(sym, things, m, 0, limit, get_descendants(things[0], distance, limit), distance)


def compared_by_value(sym):
	"""objects that are equal by value and not hashable"""
	n = 3
	m = matrix(sym, n)
	_ask(sym, [_Equal(i) for i in range(n)], m, 0)


def both_directions(sym):
	"""only the links asked for count"""
	n = 3
	things = [_Thing(i) for i in range(n)]
	up = matrix(sym, n, loops=False, prefix='u')
	down = matrix(sym, n, loops=False, prefix='d')
	for i, j in pairs(n):
		if up[i][j]:
			things[i].parents.append(things[j])
		if down[i][j]:
			things[i].children.append(things[j])
	_check(sym, things, up, 1, None, get_ancestors(obj=things[1], distance=False), False)
	_check(sym, things, down, 1, None, get_descendants(obj=things[1], distance=False), False)
	_check(sym, things, up, 1, None, get_ancestors(obj=things[1]), True)
	_check(sym, things, down, 1, None, get_descendants(obj=things[1]), True)
	for i in range(n):
		sym.check(len(things[i].parents) == len([x for x in up[i] if x]) and len(things[i].children) == len([x for x in down[i] if x]), 'the structure is unchanged')


def long_structures(sym):
	"""long paths, rings, joined rings and trees with an arbitrary extra link"""
	n = sym.bound('objects in long structures', 6, 8)
	m = sparse_matrix(sym, n, sym.part(SHAPES), 1)
	things = [_Thing(i) for i in range(n)]
	_ask(sym, things, m, sym.choice('start', [0, 2, n - 1]), [None, 2, 4, 5])


def longer_structures(sym):
	"""many objects in simple shapes with any of three more links"""
	n = sym.bound('objects in longer structures', 16, 16)
	m = longer_matrix(sym, n, sym.part(LONGER_SHAPES))
	things = [_Thing(i) for i in range(n)]
	_ask(sym, things, m, sym.choice('start', [0, 2, n // 2, n - 1]), [None, 5, 9, n])
