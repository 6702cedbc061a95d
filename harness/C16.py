from abstract import Graph
from abstract.parse_indentations_function import parse_indentations
from common import *

WRONG = 'wrong'


def _outline(lines, indent):
	"""reference: [(index, depth, text, parent)] (depth None for blank lines) or WRONG if a ValueError is due"""
	result = []
	open_lines = []     # the latest line of every depth up to the current one
	for index in range(len(lines)):
		line = lines[index]
		while line.endswith('\n'):
			line = line[:-1]
		k = 0
		while k < len(line) and line[k] in ' \t':
			k += 1
		if k == len(line):
			result.append((index, None, '', None))
			continue
		lead, text = line[:k], line[k:]
		if indent is None and lead != '':
			indent = lead
		depth = 0
		while lead != '':
			if not lead.startswith(indent):
				return WRONG
			lead = lead[len(indent):]
			depth += 1
		if depth > len(open_lines):
			return WRONG
		result.append((index, depth, text, None if depth == 0 else open_lines[depth - 1]))
		open_lines = open_lines[:depth] + [index]
	return result


def _parse(lines, indent):
	try:
		return list(parse_indentations(lines, indent))
	except ValueError:
		return WRONG


def _graph_facts(g):
	return [x.name for x in g.nodes], [(e.start.name, e.end.name) for x in g.nodes for e in x.outward_edges]


def _check(sym, lines, indent, graph=True, root='top'):
	expected = _outline(lines, indent)
	got = _parse(lines, indent)
	sym.check((got == WRONG) == (expected == WRONG), 'ValueError exactly for lines that are too deep or no multiple')
	if expected != WRONG:
		sym.check(len(got) == len(expected), 'one entry per line')
		for (index, depth, text, parent), (i, d, t, p) in zip(expected, got):
			sym.check(i == index and t == text, 'position and text of every line')
			if depth is not None:
				sym.check(d == depth and p == parent, 'depth and parent of every line')
	if graph:
		try:
			g = Graph.from_indented_text(root, lines, indent)
		except ValueError:
			g = None
		sym.check((g is None) == (expected == WRONG), 'the graph fails exactly when parsing fails')
		if g is not None:
			nodes, edges = _graph_facts(g)
			sym.check(nodes == ['root'] + [str(i) for i in range(len(lines))], 'a root and one node per line')
			for index, depth, text, parent in expected:
				up = [a for a, b in edges if b == str(index)]
				sym.check(len(up) == 1, 'every line is attached once')
				if depth is not None:
					sym.check(up[0] == ('root' if parent is None else str(parent)), 'to its parent or the root')
			sym.check(len(edges) == len(lines), 'no other edges')
			sym.check(g.get_node('root').label == (root if root else 'root') and len(g.get_node('root').parents) == 0, 'the root')


def depths(sym):
	"""any sequence of depths, any unit"""
	n = sym.bound('lines', 5, 6)
	unit = sym.choice('unit', ['    ', '\t', '  ', ' ', '   '])
	lines = []
	for i in range(n):
		lines.append(unit * sym.choice('depth' + str(i), [0, 1, 2, 3]) + 'line ' + str(i))
	_check(sym, lines, unit if sym.bool('given') else None, root=sym.choice('root', ['top', ' the  top\t', '', 'a\nb', '0']))


def blank_lines(sym):
	n = sym.bound('lines, some blank', 4, 5)
	unit = sym.choice('unit', ['  ', '\t', '    '])
	lines = []
	for i in range(n):
		kind = sym.choice('kind' + str(i), ['0', '1', '2', 'empty', 'spaces', 'newline'])
		lines.append({'0': 'a', '1': unit + 'b', '2': unit + unit + 'c\n', 'empty': '', 'spaces': '   ', 'newline': '\n'}[kind])
	_check(sym, lines, unit if sym.bool('given') else None)


def units(sym):
	"""indentation that is no multiple of the unit"""
	n = sym.bound('lines with any indentation', 3, 4)
	lines = []
	for i in range(n):
		lines.append(sym.choice('indentation' + str(i), ['', ' ', '  ', '   ', '    ', '\t', '\t\t', '\t ', ' \t', '      ', '        ']) + 'x')
	_check(sym, lines, sym.choice('indent', [None, '  ', '\t', '   ', '    ', ' ']), graph=False)


def texts(sym):
	"""the text of a line is kept, whatever it contains"""
	unit = sym.choice('unit', ['    ', '\t', '  '])
	text = sym.str('text', 1, sym.bound('free characters in a text', 2, 3), ' \ta"')
	lines = ['top', unit + 'middle', unit * sym.choice('depth', [0, 1, 2]) + 'b' + text + sym.choice('end', ['', '\n'])]
	if sym.bool('last'):
		lines.append(unit + 'last    with    spaces\tand\ttabs')
	_check(sym, lines, unit if sym.bool('given') else None)


def any_characters(sym):
	"""every line an arbitrary text over space, tab and letter"""
	k = sym.bound('characters per line', 2, 3)
	n = sym.bound('lines of arbitrary characters', 3, 3)
	lines = [sym.str('line' + str(i), 0, k, ' \tx') for i in range(n)]
	_check(sym, lines, sym.choice('indent', [None, ' ', '\t', '  ']), graph=False)


def inferred(sym):
	"""the first indented line decides the unit"""
	first = sym.choice('first', ['', ' ', '  ', '   ', '    ', '\t', '\t\t'])
	second = sym.choice('second', ['', ' ', '  ', '   ', '    ', '      ', '\t', '\t\t'])
	third = sym.choice('third', ['', ' ', '  ', '   ', '    ', '      ', '        ', '\t', '\t\t', '\t\t\t\t'])
	_check(sym, ['a', first + 'b', second + 'c', third + 'd'], None, graph=False)
