from abstract import Graph
from abstract.styling.NodeStyle import NodeStyle
from abstract.styling.EdgeStyle import EdgeStyle
from common import *
import dot


def _lines(text):
	return [x for x in [line.strip() for line in text.split('\n')] if x != '']


def _is_statement(line):
	return line.startswith('"')


def _upper(label):
	return 'X' + str(label)


def _length(label):
	return len(str(label))


def _nothing(label):
	return ''


def _norm(statement):
	"""white space between the parts of a statement has no meaning"""
	return statement.replace('" [', '"[').replace('" -> "', '"->"')


def _check_text(sym, g, text, nodes, edges):
	"""nodes and edges: the expected statements"""
	sym.check(text.startswith('strict digraph') if g._is_strict else text.startswith('digraph'), 'the header')
	lines = [_norm(x) for x in _lines(text) if _is_statement(x)]
	for x in nodes:
		sym.check(len([y for y in lines if y == _norm(x)]) == 1, 'every node is declared exactly once')
	for x in edges:
		sym.check(len([y for y in lines if y == _norm(x)]) == 1, 'every edge is declared exactly once')
	sym.check(len(lines) == len(nodes) + len(edges), 'nothing else is declared')


def whole_text(sym):
	"""any graph with parallel edges and self-loops"""
	n = sym.bound('nodes', 3, 4)
	names = node_names(n)
	g, m = build_any_order(sym, Graph, names, parallel=True, label=None, strict=sym.bool('strict'))
	edges = []
	for a in g.nodes:
		for e in a.outward_edges:
			e.label = a.name + str(e.raw_id) + e.end.name
			edges.append('"' + a.name + '" -> "' + e.end.name + '"[label="' + a.name + str(e.raw_id) + e.end.name + '"]')
	before = state_of(g)
	text = g.get_graphviz_str()
	_check_text(sym, g, text, ['"' + x + '" [label="' + x + '"]' for x in names], edges)
	sym.check(g.get_graphviz_str() == text, 'the same text each time')
	sym.check(state_of(g) == before, 'nothing is changed')


def after_changes(sym):
	"""additions and removals"""
	g = Graph(label=None)
	names = ['a', 'b', 'c']
	for x in names:
		g.add_node(x, label='label ' + x)
	edges = {}
	for a, b in [('a', 'b'), ('b', 'a'), ('b', 'c'), ('c', 'c'), ('a', 'c')]:
		edges[(a, b)] = g.connect(a, b, value=a + b)
	present, linked = list(names), list(edges)
	for step in range(sym.bound('removals', 2, 3)):
		what = sym.choice('remove' + str(step), [None, 'a', 'b', 'c', ('a', 'b'), ('b', 'c'), ('c', 'c'), 'new'])
		if what == 'new':
			if 'd' not in present:
				g.add_node('d', label='label d')
				present.append('d')
				if 'a' in present:
					g.connect('d', 'a', value='da')
					linked.append(('d', 'a'))
		elif what is None:
			pass
		elif what in present:
			g.remove_node(what)
			present.remove(what)
			linked = [x for x in linked if what not in x]
		elif what in linked:
			g.disconnect(edges[what])
			linked.remove(what)
	_check_text(
		sym, g, g.get_graphviz_str(), ['"' + x + '" [label="label ' + x + '"]' for x in present],
		['"' + a + '" -> "' + b + '"[label="' + a + b + '"]' for a, b in linked]
	)


def asked_again(sym):
	"""the text after changes that leave the numbers of nodes and edges as they were, after the text was asked for"""
	g = Graph(label=None)
	names = ['a', 'b', 'c']
	for x in names:
		g.add_node(x, label='label ' + x)
	linked = {}
	for a, b in [('a', 'b'), ('b', 'c'), ('c', 'a')]:
		g.connect(a, b, value=a + b)
		linked[(a, b)] = a + b
	labels = {x: 'label ' + x for x in names}
	for step in range(sym.bound('changes', 2, 3)):
		g.get_graphviz_str()
		g.get_graphviz_header()
		what = sym.choice('change' + str(step), ['label', 'empty label', 'edge', 'turn', 'node', 'value', 'edge label', 'strict', 'nothing'])
		key = sym.choice('edge' + str(step), [0, 1, 2])
		keys = list(linked)
		if what == 'label' or what == 'empty label':
			new = 'new ' + str(step) if what == 'label' else ''
			g.get_node(names[1]).label = new
			labels[names[1]] = new if new else names[1]
		elif what == 'edge' or what == 'turn':
			for k in range(len(keys)):
				if k == key:
					a, b = keys[k]
					g.disconnect(g.edges_dict[(a, b, None)])
					del linked[(a, b)]
					a, b = (b, a) if what == 'turn' else (a, a)
					g.connect(a, b, value='new', if_edge_exists='ignore')
					linked[(a, b)] = 'new'
		elif what == 'node':
			g.remove_node(names[0])
			linked = {k: linked[k] for k in linked if names[0] not in k}
			names = names[1:] + ['new' + str(step)]
			g.add_node(names[2])
			labels[names[2]] = names[2]
		elif what == 'value' or what == 'edge label':
			for k in range(len(keys)):
				if k == key:
					e = g.edges_dict[(keys[k][0], keys[k][1], None)]
					if what == 'value':
						e.value = 'v' + str(step)
					else:
						e.label = 'v' + str(step)
					if e.label is None or what == 'edge label':
						linked[keys[k]] = 'v' + str(step)
		elif what == 'strict':
			g._is_strict = not g._is_strict
	_check_text(
		sym, g, g.get_graphviz_str(), ['"' + x + '" [label="' + labels[x] + '"]' for x in names],
		['"' + a + '" -> "' + b + '"[label="' + linked[(a, b)] + '"]' for a, b in linked]
	)


def _attribute_list(parsed, own, style, sym):
	"""the parsed attributes are exactly the own ones and those of the style"""
	expected = list(own)
	if style is not None:
		rest = dot.statement('x [' + style.get_graphviz_str() + ']')
		expected += list(rest[2])
	sym.check(len(parsed) == len(expected), 'no other attributes')
	for x in expected:
		sym.check(len([y for y in parsed if y == x]) == 1, 'every attribute exactly once')


def node_statement(sym):
	converter = sym.choice('converter', [None, 'X', 'number', 'nothing'])
	function = {'X': _upper, 'number': _length, 'nothing': _nothing}[converter] if converter is not None else None
	g = Graph(label=None, node_label_converter=function)
	label = sym.choice('label', [None, '', 'two words', 7])
	tooltip = sym.choice('tooltip', [None, '', 'tip', 3])
	style = sym.choice('style', [None, 'style', 'dict'])
	name = sym.choice('name', ['a', 'node 1', 5])
	given = None
	if style == 'style':
		given = NodeStyle(colour='#ff0000', font='arial', text_size=4)
	elif style == 'dict':
		given = dict(shape='circle')
	node = g.add_node(name, label=label, tooltip=tooltip, style=given)
	shown = label if label else name
	shown = str(shown)
	if converter == 'X':
		shown = 'X' + shown
	elif converter == 'number':
		shown = str(len(shown))
	elif converter == 'nothing':
		shown = ''
	own = [('label', shown)]
	if tooltip is not None:
		own.append(('tooltip', str(tooltip)))
	parsed = dot.statement(node.get_graphviz_str())
	sym.check(parsed is not None and parsed[0] == 'node' and parsed[1] == str(name), 'a node statement')
	_attribute_list(parsed[2], own, node.style, sym)
	sym.check((node.style is not None) == (style is not None), 'styled as given')
	_check_text(sym, g, g.get_graphviz_str(), [node.get_graphviz_str()], [])


def edge_statement(sym):
	converter = sym.choice('converter', [None, 'X', 'number', 'nothing'])
	function = {'X': _upper, 'number': _length, 'nothing': _nothing}[converter] if converter is not None else None
	g = Graph(label=None, edge_label_converter=function, strict=sym.bool('strict'))
	g.add_node('a', label='other')
	g.add_node('b')
	label = sym.choice('label', [None, '', 'two words', 0, 7])
	value = sym.choice('value', [None, 0, 2, 'v', ''])
	tooltip = sym.choice('tooltip', [None, '', 'tip'])
	given = dict(text_size=3) if sym.bool('style') else None
	start, end = sym.choice('start', ['a', 'b']), sym.choice('end', ['a', 'b'])
	edge = g.connect(start, end, id=sym.choice('id', [None, 'i']), label=label, value=value, tooltip=tooltip, style=given)
	own = []
	if label is not None:
		shown = str(label)
		if converter == 'X':
			shown = 'X' + shown
		elif converter == 'number':
			shown = str(len(shown))
		elif converter == 'nothing':
			shown = ''
		own.append(('label', shown))
	elif value is not None:
		own.append(('label', str(value)))
	if tooltip is not None:
		own.append(('tooltip', tooltip))
	parsed = dot.statement(edge.get_graphviz_str())
	sym.check(parsed is not None and parsed[0] == 'edge', 'an edge statement')
	sym.check(parsed[1] == start and parsed[2] == end, 'from its start to its end')
	_attribute_list(parsed[3], own, edge.style, sym)
	_check_text(sym, g, g.get_graphviz_str(), [g.get_node('a').get_graphviz_str(), g.get_node('b').get_graphviz_str()], [edge.get_graphviz_str()])


def header(sym):
	"""an empty graph: the text is the header"""
	kwargs = {}
	part = sym.choice('part', ['flags', 'size', 'label', 'attributes'])
	own = sym.choice('own direction', ['LR', 'TB', 'rl']) if part == 'flags' else 'LR'
	asked = sym.choice('direction', [None, 'LR', 'TB', 'bt']) if part == 'flags' else None
	strict = sym.bool('strict') if part == 'flags' else False
	ordering = sym.bool('ordering') if part == 'flags' else True
	label = sym.choice('label', [None, 'text', 'with "quotes"', '', '<-- left', 'right -->']) if part == 'label' else None
	tooltip = sym.choice('tooltip', [None, 'tip', 'a "tip"', '']) if part == 'label' else None
	height = sym.choice('height', [None, 5, 2.5]) if part == 'size' else None
	width = sym.choice('width', [None, 4, 1.5]) if part == 'size' else None
	pad = sym.choice('pad', [None, 0.1, 2, 0]) if part == 'size' else 0.1
	if part == 'attributes':
		if sym.bool('has nodesep'):
			kwargs['nodesep'] = sym.choice('nodesep', [1, 0.5, 'x', 0])
		if sym.bool('has splines'):
			kwargs['splines'] = sym.choice('splines', ['ortho', True])
	g = Graph(label=label, tooltip=tooltip, strict=strict, ordering=ordering, direction=own, background_colour='#ff0000', **kwargs)
	text = g.get_graphviz_str(direction=asked, height=height, width=width, pad=pad)
	parsed = dot.header(text)
	sym.check(parsed is not None, 'the header is well formed')
	first, rest = parsed
	sym.check(first == (('strict', 'digraph', 'G') if strict else ('digraph', 'G')), 'strict exactly when the graph is')
	direction = (asked or own).upper()
	expected = [('bgcolor', '#ff0000')]
	if direction != 'TB':
		expected.append(('rankdir', direction))
	if pad is not None:
		expected.append(('pad', str(pad)))
	if not ordering:
		expected.append(('ordering', 'out'))
	if height is not None or width is not None:
		expected.append(('ratio', 'fill'))
		both = [str(x) for x in [width, height] if x is not None]
		expected.append(('size', ','.join(both) + '!'))
	if label is not None:
		expected.append(('graph label', label))
	if tooltip is not None:
		expected.append(('graph tooltip', tooltip))
	for key, value in kwargs.items():
		expected.append(('graph ' + key, str(value)))
	for x in expected:
		sym.check(x in rest and len([y for y in rest if y[0] == x[0]]) == 1, 'every part of the header exactly once')
	keys = [x[0] for x in expected]
	for key in ['rankdir', 'pad', 'ordering', 'ratio', 'size', 'graph label', 'graph tooltip', 'graph nodesep', 'graph splines']:
		if key not in keys:
			sym.check(len([y for y in rest if y[0] == key]) == 0, 'nothing that was not set')


def label_location(sym):
	"""the label's own attributes and its html forms"""
	location = sym.choice('location', ['bottom', 'top'])
	form = sym.choice('form', ['plain', 'html', 'background'])
	label = '<<b>bold</b>>' if form == 'html' else 'text'
	font = sym.choice('font', ['helvetica', 'arial', None])
	size = sym.choice('size', [10, 4, None, 0])
	url = sym.choice('url', ['https://x.y', None, 'page.html'])
	colour = sym.choice('colour', ['red', None])
	g = Graph(label=label, label_location=location, font=font, font_size=size, label_url=url, label_colour=colour,
		label_background_colour='yellow' if form == 'background' else None)
	parsed = dot.header(g.get_graphviz_str())
	sym.check(parsed is not None, 'the header is well formed')
	rest = parsed[1]
	shown = [v for k, v in rest if k == 'graph label']
	sym.check(len(shown) == 1, 'one label')
	if form == 'plain':
		sym.check(shown[0] == 'text', 'the label')
	elif form == 'html':
		sym.check(shown[0] == label, 'the html label')
	else:
		sym.check('text' in shown[0] and 'yellow' in shown[0], 'the label and its background')
	for key, value in [('labelloc', location[0]), ('fontname', font), ('fontsize', size), ('href', url), ('target', None if url is None else '_blank'), ('fontcolor', colour)]:
		found = [v for k, v in rest if k == 'graph ' + key]
		sym.check(found == ([] if value is None else [str(value)]), 'the label attributes that are set')


def shared_style(sym):
	"""declarations of styled graphs, before and after rendering"""
	g = Graph(label=None)
	style = NodeStyle(colour='#0000ff')
	for x in ['a', 'b']:
		g.add_node(x, style=style if sym.bool('styled ' + x) else None)
	if sym.bool('edge'):
		g.connect('a', 'b', style=EdgeStyle(colour='#00ff00') if sym.bool('styled edge') else None)
	if sym.bool('render'):
		g.render()
	before = state_of(g)
	text = g.get_graphviz_str()
	nodes = [x.get_graphviz_str() for x in g.nodes]
	edges = [x.get_graphviz_str() for x in g.edges]
	_check_text(sym, g, text, nodes, edges)
	for x in g.nodes:
		parsed = dot.statement(x.get_graphviz_str())
		sym.check(parsed is not None and parsed[:2] == ('node', x.name), 'well formed')
		_attribute_list(parsed[2], [('label', x.name)], x.style, sym)
	for e in g.edges:
		parsed = dot.statement(e.get_graphviz_str())
		sym.check(parsed is not None and parsed[:3] == ('edge', 'a', 'b'), 'well formed')
		_attribute_list(parsed[3], [], e.style, sym)
	sym.check(g.get_graphviz_str() == text and state_of(g) == before, 'nothing is changed')
