from abstract import Graph
from abstract.styling.NodeStyle import NodeStyle
from abstract.styling.EdgeStyle import EdgeStyle, DEFAULT_ARROW_SIZE
from abstract.styling import stylize_with_pensieve, stylize_randomly
from abstract.styling.stylize_edges_based_on_nodes import stylize_edges_based_on_nodes
from common import *

STUB_RANDOM = True
STUB_GRAPHVIZ = True


def _facts(style):
	return (
		style.colour.hexadecimal, style.text_colour.hexadecimal, style._opacity, style._font, style._text_size, style._arrow_size, style._label_style,
		style._line_width
	)


def _node(style):
	return style._opacity, style._font, style._text_size, style._shape, style._shape_style, style._lighter_fill


def _arrow(value, default=DEFAULT_ARROW_SIZE):
	if isinstance(value, (int, float)):
		return default * value
	return default


def _check_edges(sym, g, default=DEFAULT_ARROW_SIZE, styled=()):
	for e in g.edges:
		if e in styled:
			continue
		expected = e.start.style.colour.darken(ratio=0.1).hexadecimal
		sym.check(e.style.colour.hexadecimal == expected, 'the darkened colour of its own start')
		sym.check(e.style.text_colour.hexadecimal == expected, 'the text too')
		sym.check(e.style._arrow_size == _arrow(e.value, default), 'the arrow follows its own value')
	every = list(g.edges)
	for i in range(len(every)):
		for j in range(i):
			sym.check(every[i].style is not every[j].style, 'every edge has a style of its own')


def any_graph(sym):
	"""every graph of three nodes, values of edges chosen freely"""
	g = Graph(label=None, stylist=sym.choice('stylist', ['pensieve', 'random']))
	label = sym.choice('label', [None, 'the same'])
	for x, colour in [('a', '#ff0000'), ('b', '#00ff00'), ('c', None)]:
		g.add_node(x, label=label, style=None if colour is None else NodeStyle(colour=colour))
	for a, b in [('a', 'b'), ('b', 'c'), ('c', 'a'), ('a', 'a'), ('b', 'a')]:
		if sym.bool(a + b):
			g.connect(a, b, value=sym.choice('value ' + a + b, [None, 2, 0, 'text']), id=sym.choice('id', [None, 0, 'i']) if (a, b) != ('c', 'a') else None)
	g.render()
	_check_edges(sym, g)


def numbers(sym):
	"""arbitrary numbers"""
	values = [sym.real('v0', -10, 10), sym.int('v1', -5, 1000), sym.choice('v2', [None, 'x', 3, [1]])]
	g = Graph(label=None)
	g.add_node('a', style=NodeStyle(colour='#ff0000'))
	g.add_node('b', style=NodeStyle(colour='#0000ff'))
	order = sym.choice('order', [(0, 1, 2), (2, 1, 0), (1, 0, 2), (1, 2, 0)])
	pairs = [('a', 'b'), ('b', 'a'), ('a', 'a')]
	made = {}
	for k in order:
		made[k] = g.connect(pairs[k][0], pairs[k][1], value=values[k])
	g.stylize()
	_check_edges(sym, g)
	for k in order:
		sym.check(made[k].style._arrow_size == _arrow(values[k]), 'independent of the order')


def others(sym):
	"""other edges make no difference"""
	value = sym.choice('value', [None, 2, 0.5, 'x'])
	facts = []
	for k in range(2):
		g = Graph(label=None)
		for x in ['a', 'b', 'c']:
			g.add_node(x, style=NodeStyle(colour='#ff0000' if x == 'a' else '#0000ff'))
		before, after = sym.bool('before') and k == 1, sym.bool('after') and k == 1
		if before:
			g.connect('a', 'c', value=7)
			g.connect('c', 'b', value='y')
		e = g.connect('a', 'b', value=value)
		if after:
			g.connect('a', 'b', id='parallel', value=3)
			g.connect('b', 'a', style=EdgeStyle(colour='#00ff00', arrow_size=9))
		g.render()
		facts.append(_facts(e.style))
	sym.check(facts[0] == facts[1], 'the same style')


def separate(sym):
	"""changing the style of one edge leaves the others"""
	g = Graph(label=None, stylist=sym.choice('stylist', ['pensieve', 'random']))
	for x in ['a', 'b']:
		g.add_node(x)
	made = [g.connect('a', 'b', value=sym.choice('v0', [None, 2])), g.connect('b', 'a'), g.connect('a', 'b', id=1), g.connect('b', 'b', value=2)]
	g.render()
	which = sym.choice('which', [0, 1, 2, 3])
	before = [_facts(e.style) for e in made]
	how = sym.choice('how', ['colour', 'complement', 'arrow', 'reset'])
	style = made[which].style
	if how == 'colour':
		style.colour = '#123456'
	elif how == 'complement':
		style.complement(dict(font='arial', text_size=2))
	elif how == 'arrow':
		style._arrow_size *= 5
	else:
		style.reset_colours()
		style.colour = '#654321'
	for k in range(4):
		if k != which:
			sym.check(_facts(made[k].style) == before[k], 'the others are left')
	g.render()
	for k in range(4):
		if k != which:
			sym.check(_facts(made[k].style) == before[k], 'also by rendering again')


def base_style(sym):
	"""styles derived from a given edge style"""
	base = EdgeStyle(colour='#00ff00', arrow_size=sym.choice('size', [1, 2.5]), font='courier', text_size=3, line_width=2, text_colour=sym.choice('text', [None, '#ffffff']))
	before = _facts(base)
	g = Graph(label=None)
	g.add_node('a', style=NodeStyle(colour='#ff0000'))
	g.add_node('b', style=NodeStyle(colour='#0000ff'))
	for a, b in [('a', 'b'), ('b', 'a'), ('a', 'a')]:
		if sym.bool(a + b):
			g.connect(a, b, value=sym.choice('value ' + a + b, [None, 4, 'x']))
	given = []
	if sym.bool('styled'):
		given.append(g.connect('b', 'b', style=EdgeStyle(colour='#111111')))
	facts = [_facts(e.style) for e in given]
	stylize_edges_based_on_nodes(graph=g, edge_style=base)
	_check_edges(sym, g, default=base._arrow_size, styled=given)
	sym.check(_facts(base) == before, 'the given style is left')
	sym.check([_facts(e.style) for e in given] == facts, 'styled edges are left')
	for e in g.edges:
		sym.check(e.style is not base, 'a style of its own')
		if e not in given:
			sym.check((e.style._font, e.style._text_size, e.style._line_width) == ('courier', 3, 2), 'the other attributes')


def defaults(sym):
	"""the plain style of new edges stays what it was, however many were styled"""
	plain = _facts(EdgeStyle(colour='#ff0000'))
	for k in range(2):
		g = Graph(label=None)
		g.add_node('a')
		g.add_node('b')
		g.connect('a', 'b', value=sym.choice('value' + str(k), [None, 3, 'x', 0.5]))
		g.connect('b', 'a')
		g.render()
		if sym.bool('change' + str(k)):
			g.edges[0].style._arrow_size = 77
			g.edges[0].style.colour = '#123456'
		_check_edges(sym, g, styled=[g.edges[0]])
	sym.check(_facts(EdgeStyle(colour='#ff0000')) == plain, 'the defaults')


def base_styles(sym):
	"""a stylist given styles to start from: what it styles has their attributes, apart from its colour and arrow"""
	g = Graph(label=None)
	own = NodeStyle(colour='#ff0000', text_size=5)
	for x in ['a', 'b', 'c']:
		g.add_node(x, style=own if x == 'b' and sym.bool('own') else None)
	for a, b in [('a', 'b'), ('b', 'c'), ('a', 'c'), ('c', 'c')]:
		if sym.bool(a + b):
			g.connect(a, b, value=sym.choice('value ' + a + b, [None, 3]))
	node_style = sym.choice('node style', [None, 'dark', 'plain'])
	edge_style = sym.choice('edge style', [None, 'thick', 'own text'])
	node_style = {None: None, 'dark': NodeStyle(colour='#0000ff', lighter_fill=False, font='arial'), 'plain': NodeStyle(shape='oval', text_size=77)}[node_style]
	edge_style = {None: None, 'thick': EdgeStyle(line_width=7, arrow_size=2), 'own text': EdgeStyle(colour='#00ff00', text_colour='#0000ff', font='arial')}[edge_style]
	before = [None if node_style is None else _node(node_style), None if edge_style is None else _facts(edge_style)]
	if sym.bool('randomly'):
		stylize_randomly(g, node_style=node_style, edge_style=edge_style)
	else:
		stylize_with_pensieve(g, node_style=node_style, edge_style=edge_style)
	for x in g.nodes:
		if x.style is own:
			sym.check(x.name == 'b' and own._text_size == 5, 'the given style is kept')
		elif node_style is not None:
			sym.check(x.style is not node_style and _node(x.style) == _node(node_style), 'the attributes to start from')
	like = EdgeStyle() if edge_style is None else edge_style
	for e in g.edges:
		sym.check(e.style is not edge_style, 'a style of its own')
		facts, expected = _facts(e.style), _facts(like)
		sym.check(facts[2:5] == expected[2:5] and facts[6:] == expected[6:], 'the attributes to start from')
	_check_edges(sym, g, like._arrow_size)
	sym.check(before == [None if node_style is None else _node(node_style), None if edge_style is None else _facts(edge_style)], 'the styles given are left')
