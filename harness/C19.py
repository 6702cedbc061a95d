from abstract import Graph
from common import *


def _read(text):
	"""(the quoted strings of a DOT text, everything outside of them, whether the last string is closed)

	In a quoted string a backslash before a double quote stands for the quote, one before a line break removes it, and any
	other backslash is kept together with the character it precedes.
	"""
	strings, outside, current, state = [], '', '', 'outside'
	for c in text:
		if state == 'outside':
			if c == '"':
				state, current = 'string', ''
			else:
				outside += c
		elif state == 'string':
			if c == '\\':
				state = 'backslash'
			elif c == '"':
				state = 'outside'
				strings.append(current)
			else:
				current += c
		else:
			if c == '"':
				current += '"'
			elif c != '\n':
				current += '\\' + c
			state = 'string'
	return strings, outside, state == 'outside'


def _readable(text):
	"""what a text reads as: backslashes directly before a double quote, a line break or the end cannot but be doubled"""
	result, run = '', ''
	for c in text:
		if c == '\\':
			run += c
		else:
			if c == '"' or c == '\n':
				result += run
			result += run + c
			run = ''
	return result + run + run


def _plain(text):
	"""no backslash directly before a double quote, a line break or the end"""
	last = ''
	for c in text:
		if last == '\\' and (c == '"' or c == '\n'):
			return False
		last = c
	return last != '\\'


def _blankless(text):
	"""white space outside of strings has no meaning"""
	for blank in ' \t\n':
		text = text.replace(blank, '')
	return text


def _check(sym, statement, outside, texts):
	strings, rest, closed = _read(statement)
	sym.check(closed, 'every string is closed')
	sym.check(_blankless(rest) == _blankless(outside), 'nothing but the intended identifiers and attributes')
	sym.check(len(strings) == len(texts), 'one string per text')
	for a, b in zip(strings, texts):
		sym.check(a == _readable(b), 'the text reads back')
		if _plain(b):
			sym.check(a == b, 'a plain text reads back as it is')


def node_name(sym):
	"""a name of arbitrary characters"""
	name = sym.str('name', 1, sym.bound('characters of a name', 4, 6))
	g = Graph(label=None)
	node = g.add_node(name)
	_check(sym, node.get_graphviz_str(), ' [label=]', [name, name])


def node_label(sym):
	label = sym.str('label', 1, sym.bound('characters of a label', 4, 6))
	g = Graph(label=None)
	node = g.add_node('n', label=label)
	_check(sym, node.get_graphviz_str(), ' [label=]', ['n', label])


def node_tooltip(sym):
	tooltip = sym.str('tooltip', 0, sym.bound('characters of a tooltip', 4, 6))
	g = Graph(label=None)
	node = g.add_node('n', tooltip=tooltip)
	_check(sym, node.get_graphviz_str(), ' [label= tooltip=]', ['n', 'n', tooltip])


def node_all(sym):
	"""name, label and tooltip together, all arbitrary"""
	k = sym.bound('characters of each text', 2, 3)
	name, label, tooltip = sym.str('name', 1, k), sym.str('label', 1, k), sym.str('tooltip', 0, k)
	g = Graph(label=None)
	node = g.add_node(name, label=label, tooltip=tooltip)
	_check(sym, node.get_graphviz_str(), ' [label= tooltip=]', [name, label, tooltip])


def edge(sym):
	k = sym.bound('characters of each edge text', 2, 3)
	start, end = sym.str('start', 1, k), sym.str('end', 1, k)
	sym.assume(start != end)
	label, tooltip = sym.str('label', 0, k), sym.str('tooltip', 0, k)
	g = Graph(label=None)
	g.add_node(start)
	g.add_node(end)
	e = g.connect(start, end, label=label, tooltip=tooltip)
	_check(sym, e.get_graphviz_str(), ' -> [label= tooltip=]', [start, end, label, tooltip])


def edge_label(sym):
	label = sym.str('label', 0, sym.bound('characters of an edge label', 4, 6))
	g = Graph(label=None)
	g.add_node('a')
	g.add_node('b')
	_check(sym, g.connect('a', 'b', label=label).get_graphviz_str(), ' -> [label=]', ['a', 'b', label])


def edge_value(sym):
	value = sym.str('value', 0, sym.bound('characters of an edge value', 4, 6))
	g = Graph(label=None)
	g.add_node('a')
	g.add_node('b')
	_check(sym, g.connect('a', 'b', value=value).get_graphviz_str(), ' -> [label=]', ['a', 'b', value])


def converted(sym):
	"""labels that come out of a converter"""
	text = sym.str('text', 0, 3)
	g = Graph(label=None, node_label_converter=lambda x: text, edge_label_converter=lambda x: text)
	a = g.add_node('a', label='x')
	_check(sym, a.get_graphviz_str(), ' [label=]', ['a', text])
	e = g.connect('a', 'a', label='y')
	_check(sym, e.get_graphviz_str(), ' -> [label=]', ['a', 'a', text])


def distinct(sym):
	"""different names stay different"""
	k = sym.bound('characters of two names', 3, 4)
	a, b = sym.str('a', 1, k), sym.str('b', 1, k)
	sym.assume(a != b)
	g = Graph(label=None)
	x, y = g.add_node(a), g.add_node(b)
	p, q = _read(x.get_graphviz_str())[0], _read(y.get_graphviz_str())[0]
	sym.check(p[0] != q[0], 'two nodes are not merged')


def ends(sym):
	"""an edge names its nodes as their declarations do"""
	k = sym.bound('characters of the end names', 3, 4)
	name = sym.str('name', 1, k)
	g = Graph(label=None)
	a = g.add_node(name)
	g.add_node('other')
	sym.assume(name != 'other')
	first = _read(a.get_graphviz_str())[0][0]
	out = _read(g.connect(name, 'other').get_graphviz_str())[0]
	back = _read(g.connect('other', name).get_graphviz_str())[0]
	sym.check(out[0] == first and back[1] == first, 'the same text as in the declaration')


def whole_text(sym):
	"""the text of the graph is closed as a whole"""
	k = sym.bound('characters in the whole text', 2, 2)
	name, label = sym.str('name', 1, k), sym.str('label', 0, k)
	title = sym.choice('title', [None, 'a', 'say "x"', 'back\\', 'two\nlines\\"'])
	g = Graph(label=title, tooltip=sym.choice('tip', [None, '"', '\\']))
	g.add_node(name)
	g.connect(name, name, label=label)
	strings, rest, closed = _read(g.get_graphviz_str())
	sym.check(closed, 'every string is closed')
	expected = [_readable(name), _readable(name), _readable(name), _readable(name), _readable(label)]
	sym.check(strings[-5:] == expected, 'the strings of the node and the edge')
	sym.check(_blankless(rest).endswith('{[label=]}->[label=]}'), 'nothing else')


def numbers(sym):
	"""names, labels and values that are no strings"""
	name = sym.choice('name', [0, 1, -5, 12])
	label = sym.choice('label', [None, 3, 'x'])
	value = sym.choice('value', [0, 1.5, (1, 'a'), ['"'], {'k': '\\'}])
	g = Graph(label=None)
	node = g.add_node(name, label=label)
	_check(sym, node.get_graphviz_str(), ' [label=]', [str(name), str(name if label is None else label)])
	g.add_node('b')
	e = g.connect(name, 'b', value=value)
	_check(sym, e.get_graphviz_str(), ' -> [label=]', [str(name), 'b', str(value)])
