import copy
import pickle
from abstract import Graph
from abstract.styling.NodeStyle import NodeStyle
from abstract.styling.EdgeStyle import EdgeStyle
from common import *


def _copy(g, how):
	if how == 'copy':
		return g.copy()
	elif how == 'deepcopy':
		return copy.deepcopy(g)
	elif how == 'pickle':
		return pickle.loads(pickle.dumps(g))
	return g.copy().copy()


def _node_style(s):
	if s is None:
		return None
	return (s.colour.hexadecimal, s.fill_colour.hexadecimal, s.border_colour.hexadecimal, s.text_colour.hexadecimal, s._opacity, s._font, s._text_size, s._shape, s._shape_style, s._lighter_fill)


def _edge_style(s):
	if s is None:
		return None
	return (s.colour.hexadecimal, s.text_colour.hexadecimal, s._opacity, s._font, s._text_size, s._arrow_size, s._label_style, s._line_width)


def _full(g):
	"""everything that is to be reproduced"""
	nodes = [(x.name, x._label, x.value, x.index, x._tooltip, x.is_frozen, _node_style(x.style)) for x in g.nodes]
	edges = [(e.id, e.start.name, e.end.name, e.raw_id, e._label, e.value, e._tooltip, e.is_frozen, _edge_style(e.style)) for x in g.nodes for e in x.outward_edges]
	inward = [e.id for x in g.nodes for e in x.inward_edges]
	return nodes, edges, inward, g._is_strict, g._ordering


def _belongs(sym, g, h):
	for x in h.nodes:
		sym.check(x.graph is h and h.get_node(x.name) is x and g.get_node(x.name) is not x, 'nodes belong to the copy')
		for e in x.outward_edges:
			sym.check(e.graph is h and e.start is x and e.end is h.get_node(e.end.name), 'edges belong to the copy')
			sym.check(e.id in e.end.inward_edges_dict and e.end.inward_edges_dict[e.id] is e, 'same edge at both ends')


def any_graph(sym):
	names = ['a', 'b', 'c']
	g, m = build_any_order(sym, Graph, names)
	how = sym.choice('how', ['copy', 'deepcopy', 'pickle'])
	h = _copy(g, how)
	sym.check(_full(h) == _full(g), 'same nodes and edges')
	_belongs(sym, g, h)


def attributes(sym):
	g = Graph(strict=sym.bool('strict'), ordering=sym.bool('ordering'))
	g.add_node('x')
	value = sym.choice('value', [None, 0, 5])
	label = sym.choice('label', [None, '', 'A'])
	a = g.add_node('a', label=label, value=value, tooltip=sym.choice('tip', [None, 't', '']), colour='k', size=3)
	b = g.add_node(sym.choice('name', [0, 'b']), label='B')
	e = g.connect(a, b, id=sym.choice('id', [None, 0, 'i']), label=sym.choice('elabel', [None, 'E']), value=sym.choice('evalue', [None, 0, 7]), weight=2)
	f = g.connect(b, b, id=1)
	if sym.bool('removed'):
		g.remove_node('x')
	if sym.bool('frozen'):
		a.freeze()
		e.freeze()
	how = sym.choice('how', ['copy', 'deepcopy', 'pickle', 'copy of copy'])
	h = _copy(g, how)
	sym.check(_full(h) == _full(g), 'same attributes')
	_belongs(sym, g, h)
	ha = h.get_node('a')
	he = h.edges_dict[e.id]
	sym.check(ha['colour'] == 'k' and ha['size'] == 3 and he['weight'] == 2, 'same parameters')
	sym.check(ha < h.get_node(b.name) and ha == a and ha <= ha, 'same comparison order')
	ha['size'] = 4
	he['weight'] = 5
	sym.check(a['size'] == 3 and e['weight'] == 2, 'parameters are independent')
	n = h.add_node('new')
	sym.check(n.index > h.get_node(b.name).index and n > ha, 'nodes added to the copy come last')
	sym.check(h.is_similar_to(g) is False and 'new' not in g, 'original unchanged')


def _label(x):
	return x + '!'


def _elabel(x):
	return '<' + x + '>'


def display(sym):
	"""display settings, and the text they give"""
	options = dict(
		direction=sym.choice('direction', ['LR', 'TB']), label=sym.choice('label', [None, 'caption']),
		font=sym.choice('font', ['helvetica', 'courier']), stylist=sym.choice('stylist', ['pensieve', 'random']),
		tooltip=sym.choice('tooltip', [None, 'tip']), font_size=sym.choice('font_size', [10, 12]),
		label_location=sym.choice('loc', ['top', 'bottom']), label_colour=sym.choice('colour', ['blue', None]),
		label_url=sym.choice('url', ['http://x', None]), background_colour=sym.choice('bg', ['#ff0000', '#00ff00']),
		label_background_colour=sym.choice('lbg', [None, 'red']), style_overwrite_allowed=sym.bool('overwrite'),
		node_label_converter=sym.choice('nlc', [None, _label]), edge_label_converter=sym.choice('elc', [None, _elabel]),
		ordering=sym.bool('ordering'), strict=sym.bool('strict'), splines=sym.choice('splines', ['ortho', 'line']))
	g = Graph(**options)
	g.add_node('a')
	g.add_node('b', label='B')
	g.connect('a', 'b', label='E')
	h = _copy(g, sym.choice('how', ['copy', 'pickle']))
	sym.check(h.get_graphviz_str() == g.get_graphviz_str(), 'same text')
	sym.check(h._stylist == g._stylist and h._style_overwrite_allowed == g._style_overwrite_allowed and h._colour_scheme == g._colour_scheme, 'same stylist')
	sym.check(h.get_node('a').display_label() == g.get_node('a').display_label(), 'same label converter')
	sym.check(h.edges[0].display_label_or_value() == g.edges[0].display_label_or_value(), 'same edge label converter')


def rendered(sym):
	"""a copied graph, styled or not, renders like the original; rendering one leaves the other unchanged"""
	stylist = sym.choice('stylist', ['pensieve', 'random'])
	g = Graph(stylist=stylist)
	style = sym.choice('style', [None, {'colour': '#ff0000', 'shape': 'oval', 'opacity': 0.5, 'lighter_fill': False}, {'text_colour': '#00ff00'}])
	g.add_node('a', style=style)
	g.add_node('b')
	g.connect('a', 'b', style=sym.choice('estyle', [None, {'label_style': 'above', 'opacity': 0.25, 'arrow_size': 2}]), value=2)
	back = sym.bool('back')
	if back:
		g.connect('b', 'a')
	first = sym.bool('rendered before')
	if first:
		g.render(view=False)
	before = _full(g)
	h = _copy(g, sym.choice('how', ['copy', 'pickle']))
	sym.check(_full(h) == before, 'equal style attributes')
	t = h.render(view=False).source
	sym.check(_full(g) == before, 'rendering the copy leaves the original unchanged')
	sym.check(g.render(view=False).source == t, 'the copy renders like the original')
	for x in g.nodes:
		sym.check(x.style is not h.get_node(x.name).style, 'styles are separate objects')
	g.get_node('a').style._shape = 'star'
	h.edges[0].style.text_colour = '#0000ff'
	sym.check(h.get_node('a').style._shape != 'star' and g.edges[0].style.text_colour.hexadecimal != '#0000ff', 'styles are independent')


def overrides(sym):
	"""global styles and overrides are reproduced"""
	kind = sym.choice('kind', ['node_styles', 'edge_styles', 'node_colours', 'edge_colours', 'global_node_style', 'global_edge_style'])
	target = ('a', 'b') if kind.startswith('edge') else 'a'
	what = '#ff0000' if kind.endswith('colours') else {'text_size': 77}
	d = {'nodes': ['a', 'b'], 'edges': [('a', 'b'), ('b', 'a')]}
	d[kind] = what if kind.startswith('global') else {target: what}
	g = Graph(obj=d)
	h = _copy(g, sym.choice('how', ['copy', 'pickle']))
	sym.check(h.render(view=False).source == g.render(view=False).source, 'the copy renders like the original')


def independent(sym):
	"""one arbitrary change to either graph leaves the other unchanged"""
	names = ['a', 'b', 'c']
	m = matrix(sym, 3)
	g = build(Graph, names, m)
	h = _copy(g, sym.choice('how', ['copy', 'pickle']))
	before = _full(g)
	changed, other = (g, h) if sym.bool('which') else (h, g)
	op = sym.choice('op', ['add', 'remove', 'connect', 'disconnect', 'label', 'value', 'edge label', 'freeze'])
	if op == 'add':
		changed.add_node('d')
	elif op == 'remove':
		changed.remove_node('b')
		sym.check(len(changed.nodes) == 2, 'removed')
	elif op == 'connect':
		e = changed.connect('a', 'b', id='new', value=9)
		sym.check(e in changed.edges and e.start is changed.get_node('a'), 'connected')
	elif op == 'label':
		changed.get_node('a').label = 'new'
	elif op == 'value':
		changed.get_node('a').value = 'new'
	elif op == 'freeze':
		changed.get_node('a').freeze()
	elif m[0][1]:
		e = changed.edges_dict[('a', 'b', None)]
		if op == 'disconnect':
			changed.disconnect(e)
		else:
			e.label = 'new'
	sym.check(_full(other) == before, 'the other graph is unchanged')
	if op != 'disconnect' and op != 'edge label' or m[0][1]:
		sym.check(_full(changed) != before, 'the change is made')


def mutable_values(sym):
	"""a value, a label or a parameter that is a list, changed in place in the copy or in the original"""
	g = Graph()
	a = g.add_node('a', value=[1], key=[2])
	g.add_node('b', value={'k': [1]})
	e = g.connect('a', 'b', value=[3], key=[4])
	shared = sym.bool('shared')
	if shared:
		g.get_node('b').value = a.value
	h = _copy(g, sym.choice('how', ['copy', 'deepcopy', 'pickle']))
	b, f = h.get_node('a'), h.edges[0]
	sym.check(b.value == [1] and b['key'] == [2] and f.value == [3] and f['key'] == [4], 'same values')
	sym.check(h.get_node('b').value == g.get_node('b').value, 'same nested value')
	which = sym.choice('which', ['value', 'key', 'edge value', 'edge key', 'nested'])
	x, y = sym.choice('direction', [((a, e, g), (b, f, h)), ((b, f, h), (a, e, g))])
	if which == 'value':
		x[0].value.append(9)
	elif which == 'key':
		x[0]['key'].append(9)
	elif which == 'edge value':
		x[1].value.append(9)
	elif which == 'edge key':
		x[1]['key'].append(9)
	elif not shared:
		x[2].get_node('b').value['k'].append(9)
	sym.check(y[0].value == [1] and y[0]['key'] == [2] and y[1].value == [3] and y[1]['key'] == [4], 'the other graph is unchanged')
	sym.check(y[2].get_node('b').value == ([1] if shared else {'k': [1]}), 'and its nested values')
