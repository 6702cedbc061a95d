import copy
import pickle

from colouration import Colour
from abstract.styling.NodeStyle import NodeStyle
from abstract.styling.EdgeStyle import EdgeStyle
from common import *
import dot

PARTS = {'node_copy': 12, 'edge_copy': 3, 'edge_text': 2, 'recoloured': 2, 'inverted': 2, 'inverted_later': 2}


def _hex(colour):
	return None if colour is None else colour.hexadecimal


def _facts(style):
	if isinstance(style, NodeStyle):
		return (
			_hex(style.colour), _hex(style.fill_colour), _hex(style.border_colour), _hex(style.text_colour), style._opacity, style._font,
			style._text_size, style._shape, style._shape_style, style._lighter_fill
		)
	return (
		_hex(style.colour), _hex(style.text_colour), style._opacity, style._font, style._text_size, style._arrow_size, style._label_style,
		style._line_width
	)


def _copy(how, style):
	if how == 'copy':
		return style.copy()
	if how == 'deepcopy':
		return copy.deepcopy(style)
	return pickle.loads(pickle.dumps(style))


WAYS = ['copy', 'deepcopy', 'pickle']


def _node_style(sym, colours=True):
	arguments = {}
	for name, options in [
		('colour', ['#ff0000']), ('fill_colour', ['#00ff00']), ('border_colour', ['#0000ff']), ('text_colour', ['#ffffff']),
	]:
		if colours and sym.bool('has ' + name):
			arguments[name] = sym.choice(name, options)
	if sym.bool('has lighter_fill'):
		arguments['lighter_fill'] = False
	part = sym.choice('others', ['none', 'opacity', 'font', 'size', 'shape', 'style', 'all'])
	if part in ('opacity', 'all'):
		arguments['opacity'] = sym.choice('opacity', [0, 0.5, 1])
	if part in ('font', 'all'):
		arguments['font'] = 'arial'
	if part in ('size', 'all'):
		arguments['text_size'] = 3
	if part in ('shape', 'all'):
		arguments['shape'] = 'circle'
	if part in ('style', 'all'):
		arguments['shape_style'] = 'dashed'
	return NodeStyle(**arguments)


def _edge_style(sym, colours=True):
	arguments = {}
	for name, value in [('colour', '#ff0000'), ('text_colour', '#0000ff')]:
		if colours and sym.bool('has ' + name):
			arguments[name] = value
	part = sym.choice('others', ['none', 'opacity', 'font', 'size', 'arrow', 'label', 'width', 'all'])
	if part in ('opacity', 'all'):
		arguments['opacity'] = sym.choice('opacity', [0, 0.5])
	if part in ('font', 'all'):
		arguments['font'] = 'arial'
	if part in ('size', 'all'):
		arguments['text_size'] = 3
	if part in ('arrow', 'all'):
		arguments['arrow_size'] = sym.choice('arrow_size', [2, 0])
	if part in ('label', 'all'):
		arguments['label_style'] = 'above'
	if part in ('width', 'all'):
		arguments['line_width'] = 7
	return EdgeStyle(**arguments)


def _change(sym, prefix, style):
	change = sym.choice(prefix, ['colour', 'text', 'complement', 'recolour'])
	if change == 'colour':
		style.colour = '#123456'
	elif change == 'text':
		style.text_colour = '#654321'
	elif change == 'complement':
		style.complement(dict(text_size=99, colour='#00ff00'))
	else:
		style.reset_colours()
		style.colour = '#abcdef'


def _check_copy(sym, style, how):
	facts, text = _facts(style), style.get_graphviz_str()
	twin = _copy(how, style)
	sym.check(twin is not style and type(twin) is type(style), 'a style of its own')
	sym.check(_facts(twin) == facts, 'the same attributes')
	sym.check(twin.get_graphviz_str() == text, 'the same DOT text')
	sym.check(_facts(style) == facts, 'the original is unchanged')
	sym.check(_facts(style.invert_colours()) == _facts(twin.invert_colours()), 'inverted alike')
	sym.check(_facts(style) == facts and _facts(twin) == facts, 'inverting makes a new style')
	if sym.bool('change the copy'):
		_change(sym, 'change', twin)
		sym.check(_facts(style) == facts, 'changing the copy leaves the original')
	else:
		_change(sym, 'change', style)
		sym.check(_facts(twin) == facts, 'changing the original leaves the copy')


def node_copy(sym):
	part = sym.part(12)
	style = _node_style(sym)
	if part // 3 == 1:
		style.colour = '#111111'
	elif part // 3 == 2:
		style.reset_colours()
		style.colour = '#111111'
	elif part // 3 == 3:
		style.complement(dict(fill_colour='#222222', font='courier', lighter_fill=True))
	_check_copy(sym, style, WAYS[part % 3])


def edge_copy(sym):
	style = _edge_style(sym)
	before = sym.choice('before', ['nothing', 'colour', 'recolour', 'complement'])
	if before == 'colour':
		style.colour = '#111111'
	elif before == 'recolour':
		style.reset_colours()
		style.colour = '#111111'
	elif before == 'complement':
		style.complement(dict(text_colour='#222222', font='courier', arrow_size=4))
	_check_copy(sym, style, WAYS[sym.part(3)])


NODE_KEYS = ['text_size', 'font', 'shape', 'shape_style', 'opacity', 'colour', 'fill_colour', 'border_colour', 'text_colour', 'lighter_fill']
EDGE_KEYS = ['text_size', 'font', 'arrow_size', 'label_style', 'line_width', 'opacity', 'colour', 'text_colour']


def _values(style, keys):
	result = {}
	for key in keys:
		value = getattr(style, key) if hasattr(style, key) else getattr(style, '_' + key)
		result[key] = _hex(value) if key.endswith('colour') else value
	return result


def _check_complement(sym, style, keys, values):
	before = _values(style, keys)
	listed = {}
	for key in keys:
		if sym.bool('list ' + key):
			listed[key] = values[key]
	if sym.bool('empty values'):
		listed = {key: {'text_size': 0, 'arrow_size': 0, 'line_width': 0, 'lighter_fill': False}.get(key) if not key.endswith('colour') else listed[key] for key in listed}
		values = listed
	underscore = sym.bool('with underscores')
	style.complement({'_' + k if underscore and not k.endswith('colour') else k: v for k, v in listed.items()})
	after = _values(style, keys)
	for key in keys:
		if key in listed:
			sym.check(after[key] == listed[key], 'a listed attribute is set')
		else:
			sym.check(after[key] == before[key], 'any other attribute is left')


def node_complement(sym):
	values = dict(
		text_size=33, font='courier', shape='oval', shape_style='dotted', opacity=0.25, colour='#111111', fill_colour='#222222',
		border_colour='#333333', text_colour='#444444', lighter_fill=False
	)
	arguments = {}
	for key, value in [('fill_colour', '#00ff00'), ('opacity', 0.5), ('text_colour', '#0000ff')]:
		if sym.bool('has ' + key):
			arguments[key] = value
	_check_complement(sym, NodeStyle(colour='#ff0000', **arguments), NODE_KEYS, values)


def edge_complement(sym):
	values = dict(text_size=33, font='courier', arrow_size=5, label_style='above', line_width=8, opacity=0.25, colour='#111111', text_colour='#222222')
	arguments = {}
	for key, value in [('text_colour', '#00ff00'), ('opacity', 0.5), ('font', 'arial')]:
		if sym.bool('has ' + key):
			arguments[key] = value
	_check_complement(sym, EdgeStyle(colour='#ff0000', **arguments), EDGE_KEYS, values)


def recoloured(sym):
	"""after its colours are reset, a style with a new colour looks like one made with it, apart from its other attributes"""
	if sym.part(2) == 0:
		style = _node_style(sym)
		kept = ['text_size', 'font', 'shape', 'shape_style', 'opacity', 'lighter_fill']
		arguments = {key: getattr(style, '_' + key) for key in kept}
		kind = NodeStyle
	else:
		style = _edge_style(sym)
		arguments = {key: getattr(style, '_' + key) for key in ['text_size', 'font', 'arrow_size', 'label_style', 'line_width', 'opacity']}
		kind = EdgeStyle
	if sym.bool('copied'):
		style = style.copy()
	style.reset_colours()
	style.colour = '#123456'
	fresh = kind(colour='#123456', **arguments)
	sym.check(_facts(style) == _facts(fresh), 'like a style made with this colour')
	sym.check(style.get_graphviz_str() == fresh.get_graphviz_str(), 'the same DOT text')
	sym.check(_facts(style.copy()) == _facts(fresh), 'and so is its copy')
	sym.check(_facts(style.invert_colours()) == _facts(fresh.invert_colours()), 'and so is what it is inverted to')


def fill_mode(sym):
	"""the fill that follows the main colour is lighter and its border darker, or the other way round"""
	lighter = sym.bool('lighter')
	colour = sym.choice('colour', ['#aa0000', '#336699', '#80c080', '#777777'])
	style = NodeStyle(colour=colour, lighter_fill=lighter)
	way = sym.choice('way', ['new', 'copy', 'reset', 'pickle'])
	if way == 'reset':
		style.reset_colours()
		style.colour = colour
	elif way != 'new':
		style = _copy(way, style)
	order = [style.border_colour.lightness, style.colour.lightness, style.fill_colour.lightness]
	if not lighter:
		order = [order[2], order[1], order[0]]
	sym.check(order[0] < order[1] and order[1] < order[2], 'lighter or darker')
	sym.check(style.text_colour.hexadecimal == style.fill_colour.farthest_gray.hexadecimal, 'the text stands out from the fill')


def inverted(sym):
	"""the colours given are inverted, the others follow from them"""
	if sym.part(2) == 0:
		style = _node_style(sym)
		kind, names = NodeStyle, ['colour', 'fill_colour', 'border_colour', 'text_colour']
		arguments = {key: getattr(style, '_' + key) for key in ['text_size', 'font', 'shape', 'shape_style', 'opacity', 'lighter_fill']}
	else:
		style = _edge_style(sym)
		kind, names = EdgeStyle, ['colour', 'text_colour']
		arguments = {key: getattr(style, '_' + key) for key in ['text_size', 'font', 'arrow_size', 'label_style', 'line_width', 'opacity']}
	given = {'colour': '#ff0000', 'fill_colour': '#00ff00', 'border_colour': '#0000ff', 'text_colour': '#ffffff' if kind is NodeStyle else '#0000ff'}
	for key in names:
		if sym.bool('has ' + key):
			arguments[key] = Colour(given[key]).invert()
	if sym.bool('copied'):
		style = style.copy()
	if 'colour' not in arguments:
		arguments['colour'] = style.colour.invert()
	before = _facts(style)
	result = style.invert_colours()
	sym.check(result is not style and type(result) is kind and _facts(style) == before, 'a new style')
	sym.check(_facts(result) == _facts(kind(**arguments)), 'every colour given is inverted, the others follow')


def inverted_later(sym):
	"""colours given after the style was made are inverted too"""
	kind = [NodeStyle, EdgeStyle][sym.part(2)]
	names = ['fill_colour', 'border_colour', 'text_colour', 'colour'] if kind is NodeStyle else ['text_colour', 'colour']
	given = {'colour': '#ff0000', 'fill_colour': '#00ff00', 'border_colour': '#0000ff', 'text_colour': '#ffffff' if kind is NodeStyle else '#0000ff'}
	first, later = {}, {}
	for key in names:
		when = sym.choice(key, ['never', 'first', 'later'])
		if when == 'first':
			first[key] = '#00ffff'
		elif when == 'later':
			later[key] = given[key]
	style = kind(**first)
	if sym.bool('complement'):
		style.complement(later)
	else:
		for key in later:
			setattr(style, key, later[key])
	style = sym.choice('copied', [style, style.copy(), pickle.loads(pickle.dumps(style))])
	arguments = {'colour': style.colour.invert()}
	for key in names:
		if key in later:
			arguments[key] = Colour(later[key]).invert()
		elif key in first:
			arguments[key] = Colour(first[key]).invert()
	before = _facts(style)
	result = style.invert_colours()
	sym.check(result is not style and _facts(style) == before, 'a new style')
	sym.check(_facts(result) == _facts(kind(**arguments)), 'every colour given is inverted, the others follow')


def unknown(sym):
	"""names beginning with an underscore have to exist; other names become attributes of their own"""
	style = NodeStyle() if sym.bool('node') else EdgeStyle()
	before = _facts(style)
	name = sym.choice('name', ['_nothing', '__x', '_', '_color'])
	try:
		style.complement({name: 3})
		raised = False
	except ValueError:
		raised = True
	sym.check(raised, 'ValueError')
	sym.check(_facts(style) == before, 'nothing is changed')
	style.complement({})
	sym.check(_facts(style) == before, 'nothing to set')


def _check_text(sym, style, expected):
	"""expected: [(key, value or None)]"""
	parsed = dot.statement('x [' + style.get_graphviz_str() + ']')
	sym.check(parsed is not None, 'well formed')
	given = [(k, v) for k, v in expected if v is not None]
	sym.check(len(parsed[2]) == len(given), 'nothing that is not set')
	for k, v in given:
		sym.check(len([1 for a, b in parsed[2] if a == k and b == str(v)]) == 1, 'every attribute once with its current value')


def _shown(colour, opacity):
	return None if colour is None else colour.get_hexadecimal(opacity=opacity)


def _check_node_text(sym, style):
	o = style._opacity
	_check_text(sym, style, [
		('color', _shown(style.border_colour, o)), ('fillcolor', _shown(style.fill_colour, o)), ('fontcolor', _shown(style.text_colour, o)),
		('fontname', style._font), ('fontsize', style._text_size), ('opacity', o), ('shape', style._shape), ('style', style._shape_style)
	])


def _check_edge_text(sym, style):
	o = style._opacity
	_check_text(sym, style, [
		('color', _shown(style.colour, o)), ('fontcolor', _shown(style.text_colour, o)), ('fontname', style._font), ('fontsize', style._text_size),
		('arrowsize', style._arrow_size), ('lblstyle', style._label_style), ('penwidth', style._line_width)
	])


def node_text(sym):
	style = _node_style(sym, colours=False)
	_check_node_text(sym, style)
	step = sym.choice('then', ['colour', 'fill', 'complement', 'unset', 'reset', 'quotes'])
	if step == 'colour':
		style.colour = '#111111'
	elif step == 'fill':
		style.fill_colour = '#222222'
	elif step == 'complement':
		style.complement(dict(text_size=44, opacity=0.75, shape='star'))
	elif step == 'unset':
		style.complement(dict(font=None, shape=None, shape_style=None, text_size=None, opacity=None))
	elif step == 'reset':
		style.reset_colours()
	else:
		style.complement(dict(font='"arial"'))
		parsed = dot.statement('x [' + style.get_graphviz_str() + ']')
		sym.check(len([1 for k, v in parsed[2] if k == 'fontname' and v == 'arial']) == 1, 'enclosing quotes are not doubled')
	if step != 'quotes':
		_check_node_text(sym, style)


def edge_text(sym):
	style = _edge_style(sym, colours=sym.part(2) == 0)
	_check_edge_text(sym, style)
	step = sym.choice('then', ['colour', 'text', 'complement', 'unset', 'zero'])
	if step == 'colour':
		style.colour = '#111111'
	elif step == 'text':
		style.text_colour = '#222222'
	elif step == 'complement':
		style.complement(dict(text_size=44, opacity=0.75, arrow_size=9))
	elif step == 'unset':
		style.complement(dict(font=None, text_size=None, arrow_size=None, label_style=None, line_width=None))
	else:
		style.complement(dict(text_size=0, arrow_size=0, line_width=0))
	_check_edge_text(sym, style)


def no_colour(sym):
	"""None as a colour: a node style keeps what it has; the text of an edge style follows its colour"""
	text = sym.choice('text', [None, '#00ff00'])
	how = sym.choice('how', ['assigned', 'complement', 'copied'])
	edge, node = EdgeStyle(colour='#ff0000', text_colour=text), NodeStyle(colour='#ff0000', text_colour=text, fill_colour=sym.choice('fill', [None, '#0000ff']))
	before = _facts(node)
	if how == 'copied':
		edge, node = edge.copy(), node.copy()
	if how == 'complement':
		edge.complement({'text_colour': None})
		node.complement({'text_colour': None, 'fill_colour': None, 'border_colour': None})
	else:
		edge.text_colour = None
		node.text_colour = None
		node.fill_colour = None
		node.border_colour = None
	sym.check(edge.text_colour.hexadecimal == edge.colour.hexadecimal, 'the text has the colour of the edge')
	sym.check(_facts(edge.copy()) == _facts(edge), 'its copy too')
	sym.check(_facts(edge.invert_colours()) == _facts(EdgeStyle(colour=edge.colour.invert())), 'inverted, it still has')
	sym.check(_facts(node) == before, 'the node style keeps its colours')
