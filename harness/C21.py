from abstract import Graph
from abstract.styling.NodeStyle import NodeStyle
from abstract.styling.EdgeStyle import EdgeStyle
from common import *

STUB_RANDOM = True
STUB_GRAPHVIZ = True
PARTS = {'any_graph': (16, 16), 'four_nodes': (16, 64), 'global_styles': 4, 'histories': 4, 'entered_loop': 8, 'long_graphs': 10, 'longer_graphs': 8}


def _colours(style):
	if isinstance(style, NodeStyle):
		return style.colour.hexadecimal, style.fill_colour.hexadecimal, style.border_colour.hexadecimal, style.text_colour.hexadecimal
	return style.colour.hexadecimal, style.text_colour.hexadecimal


def _facts(style):
	if isinstance(style, NodeStyle):
		return _colours(style) + (style._opacity, style._font, style._text_size, style._shape, style._shape_style)
	return _colours(style) + (style._opacity, style._font, style._text_size, style._arrow_size, style._label_style, style._line_width)


def _check_rendered(sym, g, text=True):
	before = state_of(g)
	first = g.render()
	for x in g.nodes:
		sym.check(isinstance(x.style, NodeStyle), 'every node has a style')
		for e in x.outward_edges:
			sym.check(isinstance(e.style, EdgeStyle), 'every edge has a style')
	sym.check(state_of(g) == before, 'rendering changes no node or edge')
	nodes = [(x.style, _facts(x.style)) for x in g.nodes]
	edges = [(e.style, _facts(e.style)) for e in g.edges]
	second = g.render()
	if text:
		sym.check(first.source == second.source, 'rendering again gives the same text')
	for x, (style, facts) in zip(g.nodes, nodes):
		sym.check(_facts(x.style) == facts, 'rendering again keeps the styles of the nodes')
	for e, (style, facts) in zip(g.edges, edges):
		sym.check(_facts(e.style) == facts, 'rendering again keeps the styles of the edges')


def _fixed(sym, count):
	number = sym.part(2 ** count)
	return [number // 2 ** k % 2 == 1 for k in range(count)]


def _graph(sym, n, edges, fixed, **kwargs):
	m = [[False] * n for _ in range(n)]
	for k, (i, j) in enumerate(edges):
		m[i][j] = fixed[k] if k < len(fixed) else sym.bool('e' + str(i) + str(j))
	return build(Graph, node_names(n), m, **kwargs)


def any_graph(sym):
	"""every graph of three nodes, whatever its loops"""
	g = _graph(sym, 3, [(0, 1), (1, 2), (2, 0), (0, 2), (1, 0), (2, 1), (0, 0), (1, 1), (2, 2)], _fixed(sym, 4), stylist='pensieve')
	_check_rendered(sym, g)


def four_nodes(sym):
	edges = [(0, 1), (1, 2), (2, 3), (3, 2), (0, 2), (1, 3), (2, 1), (3, 0), (3, 1), (0, 0)]
	if not sym.thorough():
		edges = edges[:8]
	g = _graph(sym, 4, edges, _fixed(sym, 6 if sym.thorough() else 4), stylist='pensieve')
	_check_rendered(sym, g, text=False)


def random_stylist(sym):
	"""every graph of two nodes, every shuffle"""
	n = sym.bound('nodes for the random stylist', 2, 3)
	g = build(Graph, node_names(n), matrix(sym, n), stylist='random')
	_check_rendered(sym, g)


def _check_listed(sym, g):
	"""the dictionaries of styles hold exactly what is styled"""
	nodes, edges = g.node_styles, g.edge_styles
	for x in g.nodes:
		sym.check((x.name in nodes) == (x.style is not None) and x.has_style() == (x.style is not None), 'styles of nodes')
		sym.check(nodes.get(x.name) is x.style, 'the style of the node')
		for e in x.outward_edges:
			sym.check((e.id in edges) == (e.style is not None) and e.has_style() == (e.style is not None), 'styles of edges')
			sym.check(edges.get(e.id) is e.style, 'the style of the edge')
	sym.check(len(nodes) == len([x for x in g.nodes if x.style is not None]), 'no other node')
	sym.check(len(edges) == len([e for e in g.edges if e.style is not None]), 'no other edge')


def user_styles(sym):
	"""styles given by the user are kept, attribute by attribute"""
	stylist = sym.choice('stylist', ['pensieve', 'random'])
	g = Graph(stylist=stylist, label=None)
	names = ['a', 'b', 'c']
	for x in names:
		style = None
		if sym.bool('node style ' + x):
			style = NodeStyle(colour='#ff0000', text_size=3, font='arial') if x == 'a' else dict(colour='#0000ff', shape='circle')
		g.add_node(x, style=style)
	for a, b in [('a', 'b'), ('b', 'c'), ('c', 'a'), ('a', 'a')]:
		if sym.bool('edge ' + a + b):
			style = None
			if (a, b) != ('b', 'c') and sym.bool('edge style ' + a + b):
				style = EdgeStyle(colour='#00ff00', line_width=4) if a == 'a' else dict(text_size=2, arrow_size=3)
			g.connect(a, b, style=style, value=sym.choice('value ' + a + b, [None, 2, 'x']))
	given = [(x, x.style, _facts(x.style)) for x in g.nodes if x.style is not None]
	given += [(e, e.style, _facts(e.style)) for e in g.edges if e.style is not None]
	_check_listed(sym, g)
	_check_rendered(sym, g, text=False)
	_check_listed(sym, g)
	for x, style, facts in given:
		sym.check(_facts(x.style) == facts, 'a given style is kept')
	for x in g.nodes:
		for y in g.nodes:
			if x is not y:
				sym.check(x.style is not y.style, 'nodes do not share a style')


def global_styles(sym):
	"""a style for all nodes or edges of the graph"""
	part = sym.part(4)
	stylist = ['pensieve', 'random'][part % 2]
	node_style, edge_style = None, None
	if part < 2:
		kind = sym.choice('node style', ['dict', 'auto', 'style', 'colour'])
		node_style = {'dict': dict(text_size=3, font='arial'), 'auto': dict(shape='auto'), 'style': NodeStyle(colour='#0000ff', text_size=4),
			'colour': dict(colour='#00ff00', text_size=5)}[kind]
	else:
		kind = sym.choice('edge style', ['dict', 'style', 'colour'])
		edge_style = {'dict': dict(text_size=3, line_width=2), 'style': EdgeStyle(colour='#0000ff', text_size=4), 'colour': dict(colour='#00ff00')}[kind]
	g = Graph(stylist=stylist, label=None, node_style=node_style, edge_style=edge_style)
	names = ['a', sym.choice('name', ['b', 'longer'])]
	given = {}
	for x in names:
		own = sym.bool('own style ' + str(names.index(x)))
		node = g.add_node(x, style=NodeStyle(colour='#ff0000', opacity=0.5, shape='oval') if own else None)
		if own:
			given[names.index(x)] = _facts(node.style)
	pairs = [(0, 1), (1, 0), (1, 1)]
	for i, j in pairs:
		if sym.bool('edge' + str(i) + str(j)):
			own = (i, j) == (0, 1) and sym.bool('own edge style')
			edge = g.connect(names[i], names[j], style=EdgeStyle(colour='#ff0000', font='courier') if own else None)
			if own:
				given['edge'] = _facts(edge.style)
	listed = [None if x is None else dict(x) if isinstance(x, dict) else _facts(x) for x in [node_style, edge_style]]
	_check_rendered(sym, g)
	for x, was in zip([node_style, edge_style], listed):
		sym.check(x is None or (x if isinstance(x, dict) else _facts(x)) == was, 'what was given for all nodes or edges is left')
	for k in range(2):
		x = g.nodes[k]
		if node_style is not None:
			if kind == 'dict' or kind == 'colour':
				sym.check(x.style._text_size == node_style['text_size'], 'the listed attributes')
			if kind == 'auto':
				sym.check(x.style._shape == ('circle' if len(names[1]) < 3 else 'auto'), 'the automatic shape')
			if kind == 'style' and k not in given:
				sym.check(_facts(x.style) == _facts(node_style), 'the style of all nodes')
			if kind == 'style' and k in given:
				sym.check(_facts(x.style) == given[k], 'a given style is kept')
			if kind != 'style' and k in given:
				sym.check(x.style._opacity == 0.5, 'attributes that are not listed are kept')
				sym.check(kind == 'auto' or x.style._shape == 'oval', 'attributes that are not listed are kept')
				if kind != 'colour':
					sym.check(_colours(x.style) == given[k][:4], 'colours that are not listed are kept')
		elif k in given:
			sym.check(_facts(x.style) == given[k], 'a given style is kept')
	for e in g.edges:
		own = 'edge' in given and e.start.name == 'a' and e.end.name == names[1]
		if edge_style is not None:
			if kind == 'dict':
				sym.check(e.style._text_size == 3 and e.style._line_width == 2, 'the listed attributes')
			if kind == 'colour':
				sym.check(e.style.colour.hexadecimal == '#00ff00', 'the listed colour')
			if kind == 'style':
				sym.check(_facts(e.style) == (given['edge'] if own else _facts(edge_style)), 'the style of all edges')
			if own:
				sym.check(e.style._font == 'courier', 'attributes that are not listed are kept')
		elif own:
			sym.check(_facts(e.style) == given['edge'], 'a given style is kept')


def histories(sym):
	"""rendering in between additions and removals keeps the styles chosen before"""
	part = sym.part(4)
	g = Graph(stylist=['pensieve', 'random'][part % 2], label=None)
	for x in ['a', 'b']:
		g.add_node(x)
	g.connect('a', 'b')
	names = ['a', 'b']
	for step in range(2):
		what = part // 2 if step == 0 else sym.choice('what', [0, 1, 2, 3, 4, 5, 6])
		if what == 0:
			g.add_node('c' + str(step))
			g.connect('b', 'c' + str(step))
			names.append('c' + str(step))
		elif what == 1:
			if 'a' in names:
				g.remove_node('a')
				names.remove('a')
		elif what == 2:
			if 'a' in names:
				g.connect('b', 'a', id='back' + str(step), value=sym.choice('value', [None, 2]))
		elif what == 3:
			g.connect('b', 'b', id='loop' + str(step), style=dict(line_width=7))
		elif what == 5:
			# as many nodes and edges as before, but others
			gone = g.nodes[-1]
			count = len(gone.edges)
			g.remove_node(gone)
			names.remove(gone.name)
			g.add_node('e')
			names.append('e')
			for k in range(count):
				g.connect(g.nodes[0], 'e', id=k)
		elif what == 6:
			e = g.edges[0] if len(g.edges) > 0 else None
			if e is not None:
				g.disconnect(e)
				g.connect('b', 'b', id='other')
		else:
			g.add_node('d' + str(step), style=dict(text_size=2))
			g.connect('d' + str(step), 'b')
			names.append('d' + str(step))
		styled = [(x, _facts(x.style)) for x in g.nodes if x.style is not None]
		styled += [(e, _facts(e.style)) for e in g.edges if e.style is not None]
		_check_rendered(sym, g)
		for x, facts in styled:
			sym.check(_facts(x.style) == facts, 'styles are kept')


def overwrite_allowed(sym):
	"""rendering still succeeds where styles may be overwritten"""
	g = Graph(
		stylist=sym.choice('stylist', ['pensieve', 'random']), label=None, style_overwrite_allowed=True,
		node_style=sym.choice('node style', [None, dict(text_size=3)]), edge_style=sym.choice('edge style', [None, dict(line_width=3)])
	)
	for x in ['a', 'b']:
		g.add_node(x, style=dict(text_size=5) if sym.bool('own ' + x) else None)
	if sym.bool('edge'):
		g.connect('a', 'b', style=dict(line_width=9) if sym.bool('own edge') else None)
	if sym.bool('back'):
		g.connect('b', 'a')
	_check_rendered(sym, g)
	if g._global_node_style_overwrite is not None:
		sym.check([x.style._text_size for x in g.nodes] == [3, 3], 'the global style')


def copies(sym):
	"""copies of rendered and unrendered graphs render alike"""
	g = build(Graph, ['a', 'b'], matrix(sym, 2), label=None, stylist=sym.choice('stylist', ['pensieve', 'random']))
	if sym.bool('rendered before'):
		g.render()
	h = g.copy()
	_check_rendered(sym, h)
	sym.check(g.render().source == h.render().source, 'the same text')


def entered_loop(sym):
	"""a loop with any way in, deeper descendants below it"""
	g = Graph(label=None, stylist='pensieve')
	for x in ['in', 'a', 'b', 'out', 'deep']:
		g.add_node(x)
	g.connect('a', 'b')
	g.connect('b', 'a')
	fixed = _fixed(sym, 3)
	for k, (a, b) in enumerate([('in', 'a'), ('in', 'b'), ('a', 'out'), ('b', 'out'), ('out', 'deep'), ('in', 'out'), ('deep', 'deep'), ('b', 'deep'), ('deep', 'in')]):
		if fixed[k] if k < len(fixed) else sym.bool(a + ' ' + b):
			g.connect(a, b)
	_check_rendered(sym, g, text=False)


def shared_styles(sym):
	"""style objects that two graphs, or two nodes, have in common"""
	style, edge_style = NodeStyle(colour='#ff0000', text_size=9), EdgeStyle(colour='#00ff00', text_size=9)
	facts = _facts(style), _facts(edge_style)
	node_all = sym.choice('all nodes', [None, 'size', 'colour', 'object'])
	edge_all = sym.choice('all edges', [None, 'size', 'colour', 'object'])
	all_nodes = {None: None, 'size': dict(text_size=3), 'colour': dict(colour='#0000ff'), 'object': NodeStyle(colour='#0000ff')}[node_all]
	all_edges = {None: None, 'size': dict(text_size=3), 'colour': dict(colour='#0000ff'), 'object': EdgeStyle(colour='#0000ff')}[edge_all]
	before = [None if x is None else dict(x) if isinstance(x, dict) else _facts(x) for x in [all_nodes, all_edges]]
	g = Graph(stylist=sym.choice('stylist', ['pensieve', 'random']), node_style=all_nodes, edge_style=all_edges)
	h = Graph()
	for x in [g, h]:
		x.add_node('a', style=style)
		x.add_node('b', style=style if sym.bool('b too') else None)
		x.connect('a', 'b', style=edge_style)
		x.connect('b', 'a', style=edge_style if sym.bool('back too') else None)
	derived = sym.choice('derived', ['sum', 'into', 'rebuilt', 'copy', None])
	if derived == 'sum':
		h = g + h
	elif derived == 'into':
		h = h + g
	elif derived == 'rebuilt':
		h = Graph(obj=g)
	elif derived == 'copy':
		h = g.copy()
	had = [None if x.style is None else _facts(x.style) for x in list(h.nodes) + list(h.edges)]
	g.render()
	if sym.bool('again'):
		g.render()
	sym.check((_facts(style), _facts(edge_style)) == facts, 'the style objects given are left')
	after = [None if x is None else dict(x) if isinstance(x, dict) else _facts(x) for x in [all_nodes, all_edges]]
	sym.check(before == after, 'the styles for all are left')
	sym.check([None if x.style is None else _facts(x.style) for x in list(h.nodes) + list(h.edges)] == had, 'the other graph keeps its styles')


def long_graphs(sym):
	"""long paths, rings, joined rings and deeper trees with shortcuts and ways back"""
	n = sym.bound('nodes of long graphs', 6, 8)
	part = sym.part(10)
	extra = [(0, n - 1), (1, 4), (n - 1, 2), (2, 0), (4, 4)] if part < 5 else [(n - 1, 0), (2, 2), (3, 1), (0, 3), (4, 2)]
	g = build(Graph, node_names(n), sparse_with(sym, n, part % 5, extra), stylist='pensieve')
	_check_rendered(sym, g, text=False)


def longer_graphs(sym):
	"""many nodes in simple shapes with any of three more edges"""
	n = sym.bound('nodes of longer graphs', 12, 16)
	names = node_names(n)
	g = build(Graph, names, longer_matrix(sym, n, sym.part(LONGER_SHAPES)), stylist='pensieve')
	_check_rendered(sym, g, text=False)


def parallel(sym):
	"""several edges between the same nodes"""
	g = Graph(stylist=sym.choice('stylist', ['pensieve', 'random']))
	for x in ['a', 'b', 'c']:
		g.add_node(x)
	for a, b in [('a', 'b'), ('a', 'c'), ('b', 'c')]:
		for i in [None, 0, 'x']:
			if sym.bool(a + b + str(i)):
				g.connect(a, b, id=i)
	if sym.bool('back'):
		g.connect('c', 'b')
	_check_rendered(sym, g, text=False)
