"""Colours the stylists choose for nodes."""
from colouration import Colour, Scheme
from abstract import Graph
from abstract.styling.NodeStyle import NodeStyle
from common import *

STUB_RANDOM = True
STUB_GRAPHVIZ = True
PARTS = {'acyclic': 8, 'any_graph': 8, 'wide': 8}

STAR = dict(colour='#3366cc', fill_colour='#00ff00', shape='star', text_size=22, opacity=0.5)


def _facts(style):
	return (
		style.colour.hexadecimal, style.fill_colour.hexadecimal, style.border_colour.hexadecimal, style.text_colour.hexadecimal,
		style._opacity, style._font, style._text_size, style._shape, style._shape_style, style._lighter_fill
	)


def _offset(rank, n):
	"""spread over [-1, 1] in steps of the same size, 0 only in the middle of an odd number"""
	half = n // 2
	steps = [-(half - k) / half for k in range(half)] + ([0] if n % 2 == 1 else []) + [(k + 1) / half for k in range(half)]
	return steps[rank]


def _expected(m, r, j, styles, spread=0.05):
	"""(colour, other attributes) of a node: its own if it is styled or has no parent outside loops, else what its parents have moved or mixed"""
	n = len(m)
	parents = [i for i in range(n) if m[i][j]]
	if all([r[i][i] for i in parents]):
		return styles[j]
	if len(parents) == 1:
		i = parents[0]
		children = [k for k in range(n) if m[i][k]]
		colour, others = _expected(m, r, i, styles, spread)
		colour = colour.increase_hue(amount=spread * _offset(children.index(j), len(children)))
		colour.saturation = colour.saturation * 3 / 4
		return colour, others
	found = [_expected(m, r, i, styles, 0) for i in parents if not (r[i][j] and r[j][i])]
	return Colour.mix(colours=[x[0] for x in found]).pale(ratio=0.05), found[0][1]


def _others(style):
	return dict(opacity=style._opacity, font=style._font, text_size=style._text_size, shape=style._shape, shape_style=style._shape_style, lighter_fill=style._lighter_fill)


def _check(sym, g, m, names, given, scheme='pensieve2'):
	"""given: the styles of the user by number"""
	n = len(names)
	r = closure(m)
	before = {j: _facts(given[j]) for j in given}
	g.stylize()
	colours = list(Scheme(name=scheme).colours) if isinstance(scheme, str) else list(scheme.colours)
	styles = {}
	used = 0
	for j in range(n):
		if j in given:
			styles[j] = (given[j].colour, _others(given[j]))
		elif all([r[i][i] for i in range(n) if m[i][j]]):
			styles[j] = (colours[used % len(colours)], {})
			used += 1
	for j in range(n):
		style = g.get_node(names[j]).style
		if j in given:
			sym.check(style is given[j] and _facts(style) == before[j], 'the styles given are kept')
		else:
			colour, others = _expected(m, r, j, styles)
			sym.check(_facts(style) == _facts(NodeStyle(colour=colour, **others)), 'the colour follows from the place in the graph')


def acyclic(sym):
	"""any acyclic graph, its first nodes styled or not"""
	names = ['b', 'a', 'd', 'c']
	m = dag_matrix(sym, 4)
	part = sym.part(8)
	given = {}
	if part % 2 == 1:
		given[0] = NodeStyle(**STAR)
	if part // 2 % 2 == 1 and not m[0][1]:
		given[1] = NodeStyle(colour='#aa4400')
	g = Graph(label=None, colour_scheme='pensieve2' if part < 4 else 'pensieve')
	for j, x in enumerate(names):
		g.add_node(x, style=given.get(j))
	for i, j in pairs(4):
		if m[i][j]:
			g.connect(names[i], names[j])
	_check(sym, g, m, names, given, 'pensieve2' if part < 4 else 'pensieve')


def mixed(sym):
	"""a node below any of four others, some of which look alike or are mixed themselves"""
	names = ['t', 'p', 'q', 'u', 'x']
	m = [[False] * 5 for _ in range(5)]
	for i, j in [(0, 1), (0, 2), (3, 2), (1, 4), (2, 4), (3, 4)]:
		m[i][j] = sym.bool('e' + str(i) + str(j))
	given = {0: NodeStyle(**STAR)} if sym.bool('styled') else {}
	g = Graph(label=None)
	for j, x in enumerate(names):
		g.add_node(x, style=given.get(j))
	for i, j in pairs(5):
		if m[i][j]:
			g.connect(names[i], names[j])
	_check(sym, g, m, names, given)


def any_graph(sym):
	"""any graph of three nodes, loops included"""
	names = ['b', 'a', 'c']
	m = matrix(sym, 3)
	part = sym.part(8)
	given = {}
	for j in range(3):
		if part // 2 ** j % 2 == 1:
			# a style given to a node that follows its parents is not what its children follow
			sym.assume(all([not m[i][j] for i in range(3)]))
			given[j] = NodeStyle(**STAR) if j != 1 else NodeStyle(colour='#888800', font='courier', lighter_fill=False)
	g = Graph(label=None)
	for j, x in enumerate(names):
		g.add_node(x, style=given.get(j))
	for i, j in pairs(3):
		if m[i][j]:
			g.connect(names[i], names[j])
	_check(sym, g, m, names, given)


def wide(sym):
	"""a node with many children, a node below some of them, connected in any of two orders"""
	n = sym.part(8) + 1
	names = ['r'] + ['x' + str(9 - k) for k in range(n)] + ['z']
	m = [[False] * (n + 2) for _ in range(n + 2)]
	for k in range(1, n + 1):
		m[0][k] = True
	m[1][n + 1] = sym.bool('below the first')
	m[n][n + 1] = m[n][n + 1] or sym.bool('below the last')
	given = {0: NodeStyle(colour='#ff8800', shape='oval')} if sym.bool('styled') else {}
	g = Graph(label=None)
	for j, x in enumerate(names):
		g.add_node(x, style=given.get(j))
	every = pairs(n + 2)
	for i, j in (list(reversed(every)) if sym.bool('backwards') and m[1][n + 1] != m[n][n + 1] else every):
		if m[i][j]:
			g.connect(names[i], names[j])
	_check(sym, g, m, names, given)


def turns(sym):
	"""more nodes without parents than there are colours, some of them styled or below another"""
	scheme = sym.choice('scheme', ['pensieve2', 'pensieve', 'own'])
	own = Scheme(colours=[Colour(obj='#ff0000'), Colour(obj='#00ff00'), Colour(obj='#0000ff')])
	n = 12
	names = ['n' + str(k) for k in range(n)]
	m = [[False] * n for _ in range(n)]
	m[0][3] = sym.bool('e03')
	m[5][6] = sym.bool('e56')
	m[2][2] = sym.bool('e22')
	given = {}
	for k in [0, 4]:
		if sym.bool('styled ' + str(k)):
			given[k] = NodeStyle(colour='#123456')
	g = Graph(label=None, colour_scheme=own if scheme == 'own' else scheme)
	for j, x in enumerate(names):
		g.add_node(x, style=given.get(j))
	for i, j in pairs(n):
		if m[i][j]:
			g.connect(names[i], names[j])
	_check(sym, g, m, names, given, own if scheme == 'own' else scheme)


def place_only(sym):
	"""labels, values, parameters and ids of edges make no difference, nor does what is added apart from it"""
	m = [[False] * 4 for _ in range(4)]
	for i, j in [(0, 1), (0, 2), (1, 3), (2, 3), (3, 1), (3, 3)]:
		m[i][j] = sym.bool('e' + str(i) + str(j))
	facts = []
	for k in range(2):
		g = Graph(label=None, stylist='pensieve', tooltip='tip' if k == 1 else None)
		for j in range(4):
			if k == 1:
				x = g.add_node('n' + str(j), label=sym.choice('label' + str(j), [None, 'same', '']), value=sym.choice('value' + str(j), [None, 3, 0, 'x']), tooltip='t', key=j)
			else:
				g.add_node('n' + str(j))
		for i, j in pairs(4):
			if m[i][j]:
				g.connect('n' + str(i), 'n' + str(j), id='id' if k == 1 and i == 0 else None, label='E' if k == 1 else None, value=7 if k == 1 else None)
		if k == 1 and sym.bool('apart'):
			g.add_node('p')
			g.add_node('q')
			g.connect('p', 'q')
			if sym.bool('apart in a loop'):
				g.connect('q', 'p')
		g.stylize()
		facts.append([_facts(g.get_node('n' + str(j)).style) for j in range(4)])
	sym.check(facts[0] == facts[1], 'the same styles')


def randomly(sym):
	"""the random stylist shares the colours out evenly, whatever the edges"""
	n = sym.choice('nodes', [0, 1, 3, 4, 5])
	own = Scheme(colours=[Colour(obj='#ff0000'), Colour(obj='#00ff00'), Colour(obj='#0000ff')])
	g = Graph(label=None, stylist='random', colour_scheme=own)
	for k in range(n):
		g.add_node('n' + str(k))
	for k in range(1, n):
		if sym.bool('e' + str(k)):
			g.connect('n' + str(k), 'n' + str(k - 1))
	g.stylize()
	counts = [len([x for x in g.nodes if x.style.colour.hexadecimal == c.hexadecimal]) for c in own.colours]
	sym.check(sum(counts) == n and max(counts) - min(counts) <= 1, 'evenly')
