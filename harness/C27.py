import warnings
from abstract import Graph
from abstract.styling.NodeStyle import NodeStyle
from abstract.styling.EdgeStyle import EdgeStyle
from common import *

STUB_RANDOM = True
STUB_GRAPHVIZ = True
PARTS = {'histories': 4, 'shared_style': 2}

NODE_STYLES = [None, {'text_size': 3}, {'shape': 'box', 'font': 'courier'}, {'colour': '#010203'}, {'text_colour': '#040506', 'opacity': 0.25}]
EDGE_STYLES = [None, {'text_size': 3, 'colour': '#111213'}, {'arrow_size': 4, 'colour': '#141516', 'line_width': 2}]
COLOURS = [None, '#212223', '#242526']
EDGES = [('a', 'b', None), ('b', 'c', None), ('a', 'c', 'x'), ('b', 'b', None), ('a', 'b', 'y')]


def _node(style):
	return {
		'colour': style.colour.hexadecimal, 'fill_colour': style.fill_colour.hexadecimal, 'border_colour': style.border_colour.hexadecimal,
		'text_colour': style.text_colour.hexadecimal, 'opacity': style._opacity, 'font': style._font, 'text_size': style._text_size,
		'shape': style._shape, 'shape_style': style._shape_style
	}


def _edge(style):
	return {
		'colour': style.colour.hexadecimal, 'text_colour': style.text_colour.hexadecimal, 'opacity': style._opacity, 'font': style._font,
		'text_size': style._text_size, 'arrow_size': style._arrow_size, 'label_style': style._label_style, 'line_width': style._line_width
	}


def _facts(g):
	return {x.name: _node(x.style) for x in g.nodes}, {e.id: _edge(e.style) for e in g.edges}


def _description(edges, nodes=('a', 'b', 'c')):
	return {'nodes': list(nodes), 'edges': [(a, b) if i is None else (a, b, {'id': i}) for a, b, i in edges]}


NODE_COLOURS = ('colour', 'fill_colour', 'border_colour', 'text_colour')


def _check(sym, g, plain, node_styles, edge_styles, node_colours, edge_colours):
	"""g is rendered; plain are the facts of the same graph without overrides"""
	nodes, edges = _facts(g)
	for name in nodes:
		expected = dict(plain[0][name])
		for key, value in node_styles.get(name, {}).items():
			expected[key] = value
		if name in node_colours:
			whole = _node(NodeStyle(colour=node_colours[name]))
			for key in NODE_COLOURS:
				expected[key] = whole[key]
			sym.check(nodes[name]['colour'] == node_colours[name], 'the colour of the override')
		sym.check(nodes[name] == expected, 'every node looks as without overrides except for what its own override lists')
	for id in edges:
		expected = dict(plain[1][id])
		if id in edge_styles:
			expected = _edge(EdgeStyle(**edge_styles[id]))
		if id in edge_colours:
			expected['colour'] = edge_colours[id]
			expected['text_colour'] = edge_colours[id]
		sym.check(edges[id] == expected, 'every edge looks as without overrides except for its own override')


def nodes(sym):
	"""any overrides of nodes"""
	edges = [x for x in EDGES[:3] if sym.bool('edge ' + x[0] + x[1])]
	plain = Graph(label=None)
	plain.append(_description(edges))
	plain.render()
	d = _description(edges)
	styles = {x: sym.choice('style ' + x, NODE_STYLES) for x in ['a', 'b']}
	colours = {x: sym.choice('colour ' + x, COLOURS) for x in ['b', 'c']}
	styles = {k: v for k, v in styles.items() if v is not None}
	colours = {k: v for k, v in colours.items() if v is not None}
	if sym.bool('even if empty') or styles:
		d['node_styles'] = styles
	if sym.bool('even if empty too') or colours:
		d['node_colours'] = colours
	g = Graph(label=None)
	g.append(d)
	g.render()
	_check(sym, g, _facts(plain), styles, {}, colours, {})
	g.render()
	_check(sym, g, _facts(plain), styles, {}, colours, {})


def edges(sym):
	"""any overrides of edges, keyed by their ends or by their whole id"""
	chosen = [EDGES[0], EDGES[2], EDGES[4]] + [x for x in [EDGES[1], EDGES[3]] if sym.bool('edge ' + x[0] + x[1])]
	plain = Graph(label=None)
	plain.append(_description(chosen))
	plain.render()
	keys = {x.id[0:2] + (x.id[2],): x.id for x in plain.edges}
	styles, colours = {}, {}
	d = _description(chosen)
	d['edge_styles'], d['edge_colours'] = {}, {}
	for k in [1, 2, 3] if sym.thorough() else [1, 2]:
		a, b, i = EDGES[k]
		if EDGES[k] not in chosen:
			continue
		id = (a, b, i)
		if sym.bool('short' + str(k)):
			key = (a, b)
		else:
			key = id
		style = sym.choice('style' + str(k), EDGE_STYLES)
		colour = sym.choice('colour' + str(k), COLOURS)
		if style is not None:
			d['edge_styles'][key] = style
			styles[id] = style
		if colour is not None:
			d['edge_colours'][key] = colour
			colours[id] = colour
	if sym.bool('object'):
		id = ('a', 'b', 'y')
		styles[id] = EDGE_STYLES[2]
		d['edge_styles'][id] = EdgeStyle(**EDGE_STYLES[2])
	parallel = sym.choice('one of two', [None, ('a', 'b', None), ('a', 'b', 'y')])
	if parallel is not None:
		d['edge_colours'][parallel] = '#414243'
		colours[parallel] = '#414243'
	g = Graph(label=None)
	g.append(d)
	g.render()
	for id in styles:
		sym.check(id in g.edges_dict, 'the ids of the edges')
	_check(sym, g, _facts(plain), {}, styles, {}, colours)
	g.render()
	_check(sym, g, _facts(plain), {}, styles, {}, colours)


def histories(sym):
	"""overridden nodes and edges are removed before or after the first rendering, the graph is copied, more is added"""
	number = sym.part(4)
	d = _description(EDGES[:4])
	d['node_styles'] = {'a': {'text_size': 3}, 'b': {'shape': 'box'}}
	d['node_colours'] = {'b': '#212223', 'c': '#242526'}
	d['edge_styles'] = {('a', 'b'): {'text_size': 3, 'colour': '#111213'}, ('b', 'b'): {'text_size': 8, 'colour': '#111213'}}
	d['edge_colours'] = {('b', 'c'): '#313233', ('a', 'c'): '#343536'}
	ids = {('a', 'b', None): {'text_size': 3, 'colour': '#111213'}, ('b', 'b', None): {'text_size': 8, 'colour': '#111213'}}
	coloured = {('b', 'c', None): '#313233', ('a', 'c', 'x'): '#343536'}
	g = Graph(label=None)
	g.append(d)
	plain = Graph(label=None)
	plain.append(_description(EDGES[:4]))
	both = [plain, g]
	if number % 2 == 1:
		for x in both:
			x.render()
	gone = sym.choice('node', [None, 'a', 'b', 'c'])
	cut = sym.choice('edge', [None, ('a', 'b', None), ('b', 'b', None), ('a', 'c', 'x')])
	for x in both:
		if cut is not None:
			x.disconnect(x.edges_dict[cut])
		if gone is not None:
			x.remove_node(gone)
	if number >= 2:
		how = sym.choice('copy', ['copy', 'deepcopy', 'rebuilt', 'dictionary', 'appended', 'sum', 'added'])
		if how == 'copy':
			g, plain = g.copy(), plain.copy()
		elif how == 'rebuilt':
			g, plain = Graph(obj=g), Graph(obj=plain)
		elif how == 'dictionary':
			g, plain = Graph.from_dict(g.__graph__()), Graph.from_dict(plain.__graph__())
		elif how == 'appended':
			g, plain = Graph().append(g), Graph().append(plain)
		elif how == 'sum':
			g, plain = g + Graph(), plain + Graph()
		elif how == 'added':
			g, plain = Graph() + g, Graph() + plain
		else:
			from copy import deepcopy
			g, plain = deepcopy(g), deepcopy(plain)
	if sym.bool('more'):
		for x in (g, plain):
			x.add_node('d')
			if number % 2 == 0:  # once rendered, new edges take the colour of the override on
				x.connect(x.nodes[0], 'd')
			x.connect('d', x.nodes[0])
	g.render()
	plain.render()
	_check(sym, g, _facts(plain), d['node_styles'], ids, d['node_colours'], coloured)


def overridden_later(sym):
	"""overrides that come after the first rendering"""
	g, plain = Graph(label=None), Graph(label=None)
	with warnings.catch_warnings():
		warnings.simplefilter('ignore')
		for x in (g, plain):
			x.append(_description(EDGES[:3]))
			x.render()
		later = _description(EDGES[:3]) if sym.bool('edges too') else {'nodes': [], 'edges': []}
		styles = {x: {'text_size': 3, 'font': 'courier'} for x in ['a', 'c'] if sym.bool('style ' + x)}
		colours = {x: '#212223' for x in ['a', 'b'] if sym.bool('colour ' + x)}
		later['node_styles'], later['node_colours'] = styles, colours
		ids, coloured = {}, {}
		if sym.bool('edges too'):
			if sym.bool('edge style'):
				later['edge_styles'] = {('b', 'c'): {'text_size': 3, 'colour': '#111213'}}
				ids = {('b', 'c', None): {'text_size': 3, 'colour': '#111213'}}
			if sym.bool('edge colour'):
				later['edge_colours'] = {('a', 'c', 'x'): '#343536'}
				coloured = {('a', 'c', 'x'): '#343536'}
		g.append(later)
	g.render()
	plain.render()
	_check(sym, g, _facts(plain), styles, ids, colours, coloured)


def shared_style(sym):
	"""the style given to several nodes is not changed by an override of one of them"""
	number = sym.part(2)
	style = NodeStyle(colour='#515253', text_size=9)
	other = EdgeStyle(colour='#545556', text_size=9)
	facts = _node(style), _edge(other)
	d = {'nodes': {'a': {'style': style}, 'b': {'style': style}, 'c': {}}, 'edges': [('a', 'b', {'style': other}), ('b', 'c', {'style': other}), ('a', 'c')]}
	plain = Graph(label=None)
	plain.append({'nodes': {'a': {'style': style.copy()}, 'b': {'style': style.copy()}, 'c': {}},
		'edges': [('a', 'b', {'style': other.copy()}), ('b', 'c', {'style': other.copy()}), ('a', 'c')]})
	node_styles = {x: NODE_STYLES[k] for x, k in [('a', 1), ('b', 3), ('c', 4)] if sym.bool('style ' + x)}
	node_colours = {x: '#212223' for x in ['a', 'c'] if sym.bool('colour ' + x)}
	d['node_styles'], d['node_colours'] = node_styles, node_colours
	edge_styles, edge_colours = {}, {}
	if number == 1:
		if sym.bool('edge style'):
			edge_styles[('a', 'b', None)] = EDGE_STYLES[1]
		if sym.bool('edge colour'):
			edge_colours[('b', 'c', None)] = '#313233'
	d['edge_styles'], d['edge_colours'] = edge_styles, edge_colours
	g = Graph(label=None)
	g.append(d)
	g.render()
	plain.render()
	_check(sym, g, _facts(plain), node_styles, edge_styles, node_colours, edge_colours)
	sym.check((_node(style), _edge(other)) == facts, 'the style objects handed in are left')


def derived(sym):
	"""with a style object of one node being inherited, and unstyled nodes below an overridden one"""
	edges = [('a', 'b', None), ('a', 'c', None), ('b', 'd', None)]
	for stylist in ['pensieve', 'random']:
		both = []
		overridden = sym.choice(stylist, ['a', 'b', 'd'])
		for k in range(2):
			g = Graph(label=None, stylist=stylist)
			d = _description(edges, ['a', 'b', 'c', 'd'])
			if k == 1:
				d['node_colours'] = {overridden: '#212223'}
				d['node_styles'] = {overridden: {'text_size': 2}}
			g.append(d)
			g.stylize()
			both.append(g)
		if stylist == 'pensieve':
			_check(sym, both[1], _facts(both[0]), {overridden: {'text_size': 2}}, {}, {overridden: '#212223'}, {})
		else:
			for x in both[1].nodes:
				sym.check((x.style._text_size == 2) == (x.name == overridden), 'only the target')
				sym.check((x.style.colour.hexadecimal == '#212223') or x.name != overridden, 'the colour of the target')


def sums(sym):
	"""the overrides of both graphs apply to the sum, and the graphs keep theirs"""
	styles = [{}, {}]
	colours = [{}, {}]
	edge_styles, edge_colours = [{}, {}], [{}, {}]
	graphs, plain = [], []
	for k, nodes, edges in [(0, ['a', 'b'], [('a', 'b', None), ('b', 'b', None)]), (1, ['b', 'c'], [('b', 'c', 'x'), ('b', 'b', None)])]:
		for x in nodes:
			if sym.bool('style ' + str(k) + x):
				styles[k][x] = NODE_STYLES[1 + k]
			if (k == 0 or x not in colours[0]) and sym.bool('colour ' + str(k) + x):
				colours[k][x] = COLOURS[1 + k]
		for e in edges:
			what = sym.choice('edge ' + str(k) + e[0] + e[1], ['nothing', 'style', 'colour'])
			if what == 'style':
				edge_styles[k][e] = EDGE_STYLES[1 + k]
			elif what == 'colour':
				edge_colours[k][e] = COLOURS[1 + k]
		d = _description(edges, nodes)
		plain.append(Graph(obj=d))
		d = dict(d, node_styles=styles[k], node_colours=colours[k], edge_styles=edge_styles[k], edge_colours=edge_colours[k])
		graphs.append(Graph(obj=d))
	g, h = graphs[0] + graphs[1], plain[0] + plain[1]
	g.stylize()
	h.stylize()
	both = dict(styles[0])
	for x in styles[1]:
		both[x] = dict(both.get(x, {}), **styles[1][x])
	if 'b' in styles[0] and 'b' in styles[1]:
		sym.check(g.get_node('b').style._font == 'courier', 'one of the overrides of a node in both')
	else:
		_check(sym, g, _facts(h), both, dict(edge_styles[0], **{}) | edge_styles[1], dict(colours[0]) | colours[1], dict(edge_colours[0]) | edge_colours[1])
	for k in range(2):
		graphs[k].stylize()
		plain[k].stylize()
		_check(sym, graphs[k], _facts(plain[k]), styles[k], edge_styles[k], colours[k], edge_colours[k])


def appended(sym):
	"""a description with overrides appended to a graph that has some: where both override the same, the later one applies"""
	g, plain = Graph(label=None), Graph(label=None)
	styles, colours, edge_styles, edge_colours = {}, {}, {}, {}
	for k in range(2):
		d = {'nodes': ['a', 'b', 'c'], 'edges': [('a', 'b'), ('b', 'c')]}
		key = ('a', 'b', None)
		d['node_styles'] = {x: NODE_STYLES[1 + k] for x in ['a', 'b'] if sym.bool('style ' + str(k) + x)}
		d['node_colours'] = {x: COLOURS[1 + k] for x in ['a', 'b'] if sym.bool('colour ' + str(k) + x)}
		d['edge_styles'] = {key: EDGE_STYLES[1 + k]} if sym.bool('edge style ' + str(k)) else {}
		d['edge_colours'] = {('b', 'c') if sym.bool('pair ' + str(k)) else ('b', 'c', None): COLOURS[1 + k]} if sym.bool('edge colour ' + str(k)) else {}
		styles.update(d['node_styles'])
		colours.update(d['node_colours'])
		edge_styles.update(d['edge_styles'])
		edge_colours.update({('b', 'c', None): c for c in d['edge_colours'].values()})
		with warnings.catch_warnings():
			warnings.simplefilter('ignore')
			plain.append({'nodes': d['nodes'], 'edges': d['edges']})
			g.append(d)
	g.stylize()
	plain.stylize()
	_check(sym, g, _facts(plain), styles, edge_styles, colours, edge_colours)
