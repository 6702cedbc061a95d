from abstract import Graph
from abstract.styling.NodeStyle import NodeStyle
from abstract.styling.get_least_used_colour import get_least_used_colour
from abstract.styling.inherit_style import generate_diverging_numbers, get_diverging_number
from common import *

STUB_RANDOM = True
STUB_GRAPHVIZ = True
PARTS = {'rank': 4, 'diverging': (16, 32)}


class _Scheme:
	def __init__(self, colours):
		self.colours = colours


def least_used(sym):
	"""any counts"""
	n = 5 if sym.thorough() else 4
	names = ['c' + str(i) for i in range(n)]
	used = {}
	for k, x in enumerate(names):
		if k == 0 or sym.bool('in ' + x):
			used[x] = sym.int('count ' + x, 0, 1000)
	before = dict(used)
	picked = get_least_used_colour(used)
	sym.check(picked in before, 'one of the colours')
	for x in before:
		sym.check(before[picked] <= before[x], 'the smallest count')
		sym.check(used[x] == before[x] + (1 if x == picked else 0), 'exactly that count increases by one')
	sym.check(list(used) == list(before), 'the same colours')


def balanced(sym):
	"""any number of picks, from any counts that differ by at most one, leave counts that differ by at most one"""
	base = sym.int('base', 0, 1000)
	n = sym.choice('n', [1, 2, 3, 4])
	used = {}
	for k in range(n):
		used['c' + str(k)] = base + (1 if sym.bool('more' + str(k)) else 0)
	total = sum(used.values())
	for k in range(sym.bound('picks', 4, 7)):
		get_least_used_colour(used)
		counts = list(used.values())
		for a in counts:
			for b in counts:
				sym.check(a - b <= 1, 'balanced')
		sym.check(sum(counts) == total + k + 1, 'one pick each')


def diverging(sym):
	"""offsets of any number of siblings, any two ranks"""
	n = sym.part(32 if sym.thorough() else 16) + 1
	sym.check(len(generate_diverging_numbers(n)) == n, 'as many as siblings')
	i, j = sym.int('i', 0, n - 1), sym.int('j', 0, n - 1)
	a, b = get_diverging_number(i, n, False), get_diverging_number(j, n, False)
	sym.check(-1 <= a and a <= 1, 'in [-1, 1]')
	if i < j:
		sym.check(a < b, 'increasing with the rank')
	if i + j == n - 1:
		sym.check(a == -b, 'symmetric')
		sym.check(get_diverging_number(i, n, True) == b, 'reversed')


def rank(sym):
	"""ranks in any graph, with any order of insertion"""
	n = 4
	names = node_names(n)
	g = Graph(label=None)
	removed = sym.choice('removed', [None, 'n0', 'n2'])
	for x in names:
		g.add_node(x)
	if removed is not None:
		g.remove_node(removed)
		if sym.bool('again'):
			g.add_node(removed)
	order = [x.name for x in g.nodes]
	parent = names[sym.part(4)]
	sym.assume(parent in order)
	children = []
	for x in (names if sym.bool('forward') else list(reversed(names))):
		if x in order and sym.bool('child ' + x):
			g.connect(parent, x)
			children.append(x)
	if sym.bool('other edges'):
		for a in order:
			if a != parent:
				g.connect(a, parent) if (a, parent, None) not in g.edges_dict else None
				g.connect(a, order[0]) if (a, order[0], None) not in g.edges_dict else None
	for x in children:
		sym.check(g.get_node(x).get_child_rank(g.get_node(parent)) < len(children), 'a rank')
	if sym.bool('cut') and len(children) > 0:
		g.disconnect(g.edges_dict[(parent, children[0], None)])
		children = children[1:]
		others = [x for x in order if x not in children and (parent, x, None) not in g.edges_dict]
		if sym.bool('other child') and len(others) > 0:
			# as many children as before
			g.connect(parent, others[-1])
			children = children + [others[-1]]
	for x in g.nodes:
		p = g.get_node(parent)
		if x.name in children:
			expected = len([y for y in order[:order.index(x.name)] if y in children])
			sym.check(x.get_child_rank(parent=p) == expected, 'the number of children that come before')
		else:
			try:
				x.get_child_rank(parent=p)
				sym.fail('ValueError for a node that is not a parent')
			except ValueError:
				sym.cover('no parent')


def sibling_hues(sym):
	"""the children of one node, with no other parents, all have different colours"""
	n = sym.choice('n', [1, 2, 3, 4, 5] if not sym.thorough() else [1, 2, 3, 4, 5, 6, 7])
	g = Graph(label=None)
	g.add_node('root', style=sym.choice('style', [None, {'colour': '#ff0000'}]))
	names = ['c' + str(k) for k in range(n)]
	if sym.bool('backwards'):
		names = list(reversed(names))
	for x in names:
		g.add_node(x)
	for k in range(n):
		g.connect('root', 'c' + str(k))
	if sym.bool('grandchildren'):
		g.add_node('x')
		g.connect('c0', 'x')
	if sym.bool('above'):
		g.add_node('up', style={'colour': '#0000ff'})
		g.connect('up', 'root')
	g.stylize()
	for i in range(n):
		for j in range(i):
			a, b = g.get_node('c' + str(i)), g.get_node('c' + str(j))
			sym.check(a.style.colour.hexadecimal != b.style.colour.hexadecimal, 'sibling colours differ')


def root_colours(sym):
	"""colours of the scheme are used equally often for unstyled roots"""
	from colouration import Colour
	scheme = ['#ff0000', '#00ff00', '#0000ff'][:sym.choice('size', [1, 2, 3])]
	g = Graph(label=None, colour_scheme=_Scheme([Colour(x) for x in scheme]))
	roots = []
	for k in range(5):
		name = 'n' + str(k)
		kind = sym.choice(name, ['root', 'child', 'styled'])
		g.add_node(name, style={'colour': '#123456'} if kind == 'styled' else None)
		if kind == 'child' and roots:
			g.connect(roots[-1], name)
		elif kind != 'styled':
			roots.append(name)
	g.stylize()
	used = [g.get_node(x).style.colour.hexadecimal for x in roots]
	counts = []
	for x in scheme:
		counts.append(len([y for y in used if y == x]))
	sym.check(sum(counts) == len(roots), 'only colours of the scheme')
	for a in counts:
		for b in counts:
			sym.check(a - b <= 1, 'equally often')
