from abstract import Graph
from abstract.styling.NodeStyle import NodeStyle
import graphviz
import dot
from common import *

STUB_RANDOM = True
STUB_GRAPHVIZ = True
PARTS = {'paths': 4, 'text': 4}


def _graph(sym, label=None, **kwargs):
	g = Graph(label=label, **kwargs)
	for x in ['a', 'b', 'c']:
		g.add_node(x)
	for a, b in [('a', 'b'), ('b', 'a'), ('c', 'c')]:
		if sym.bool(a + b):
			g.connect(a, b)
	return g


def _split(path):
	"""reference: the extension of the last component, leading dots of the component are part of its name"""
	slash = -1
	for i in range(len(path)):
		if path[i] == '/':
			slash = i
	last = path[slash + 1:]
	start = 0
	while start < len(last) and last[start] == '.':
		start += 1
	cut = -1
	for i in range(start, len(last)):
		if last[i] == '.':
			cut = i
	if cut < 0:
		return path, ''
	return path[:slash + 1 + cut], last[cut + 1:]


PATHS = [
	'graph.png', 'graph', 'out/graph.svg', '/tmp/x.y/graph', 'a.b.pdf', '.hidden', 'dir.d/.hidden.png', './graph.PNG', '../graph.gv', 'graph.png.svg',
	'a b/c d.jpg', 'x/y.z/w.dot'
]


def paths(sym):
	"""every kind of path: exactly one file, of the requested name and format"""
	number = sym.part(4)
	path = sym.choice('path', PATHS[number * 3:number * 3 + 3])
	view = sym.choice('view', [True, False])
	g = _graph(sym)
	before = len(graphviz.CALLS)
	returned = g.render(path=path, view=view) if sym.bool('keyword') else g.render(path, view)
	calls = graphviz.CALLS[before:]
	sym.check(len(calls) == 1, 'laid out exactly once')
	kind, source, target, fmt, viewed = calls[0]
	name, extension = _split(path)
	sym.check(kind == 'render', 'laid out')
	sym.check(fmt == (extension if extension else 'pdf'), 'the extension is the format')
	sym.check(target == name + '.' + fmt, 'the name without the extension')
	sym.check(viewed == view, 'the view flag')
	sym.check(source == returned.source, 'the text of the whole graph')
	sym.check(returned.source == g.get_graphviz_str() + '\n', 'the text returned')


def any_path(sym):
	"""paths of any characters"""
	path = sym.str('path', 1, sym.bound('length', 5, 6), alphabet='a./')
	sym.assume(path[-1] != '/' and path[-1] != '.')
	g = Graph(label=None)
	g.add_node('a')
	before = len(graphviz.CALLS)
	g.render(path, view=False)
	calls = graphviz.CALLS[before:]
	sym.check(len(calls) == 1, 'laid out exactly once')
	name, extension = _split(path)
	sym.check(calls[0][3] == (extension if extension else 'pdf'), 'the extension is the format')
	sym.check(calls[0][2] == name + '.' + calls[0][3], 'the name without the extension')


def no_path(sym):
	"""without a path nothing is laid out or written"""
	g = _graph(sym, direction=sym.choice('own', ['LR', 'TB']))
	before = len(graphviz.CALLS)
	direction = sym.choice('direction', [None, 'LR', 'TB', 'BT', 'rl'])
	kwargs = {}
	if sym.bool('view given'):
		kwargs['view'] = sym.choice('view', [True, False])
	if sym.bool('size given'):
		kwargs['height'], kwargs['width'] = 3, 4
	if direction is not None:
		kwargs['direction'] = direction
	s = g.render(**kwargs)
	sym.check(len(graphviz.CALLS) == before, 'nothing is laid out')
	sym.check(s.source == g.get_graphviz_str(direction=direction) + '\n', 'the text in the requested direction')
	for x in g.nodes:
		sym.check(x.style is not None, 'styled')


def text(sym):
	"""direction, size and padding in the text handed over"""
	number = sym.part(4)
	own = ['LR', 'TB'][number % 2]
	g = Graph(label=None, direction=own)
	g.add_node('a')
	g.add_node('b')
	g.connect('a', 'b')
	direction = sym.choice('direction', [None, 'LR', 'TB', 'RL', 'bt'])
	height = sym.choice('height', [None, 0, 3, 2.5]) if number >= 2 else None
	width = sym.choice('width', [None, 7]) if number >= 2 else None
	pad = sym.choice('pad', ['default', None, 0, 2, 0.5])
	kwargs = {'path': 'graph.png', 'view': False}
	for key, value in [('direction', direction), ('height', height), ('width', width)]:
		if value is not None or sym.bool('give ' + key):
			kwargs[key] = value
	if pad != 'default':
		kwargs['pad'] = pad
	before = len(graphviz.CALLS)
	returned = g.render(**kwargs)
	calls = graphviz.CALLS[before:]
	sym.check(len(calls) == 1, 'laid out exactly once')
	wanted = (direction or own).upper()
	padding = 0.1 if pad == 'default' else pad
	for source, sized in [(calls[0][1], True), (returned.source, False)]:
		rank, padded, size, arrows = dot.settings(source)
		sym.check(rank == wanted or (wanted == 'TB' and rank is None), 'the direction')
		sym.check(padded == (None if padding is None else str(padding)), 'the padding')
		if not sized or (height is None and width is None):
			sym.check(size is None, 'no size')
		else:
			sym.check(size == ','.join([str(x) for x in [width, height] if x is not None]) + '!', 'the size')
		sym.check(arrows == 1, 'the whole graph')


def shown(sym):
	"""svg of the text of the graph, styled"""
	g = _graph(sym)
	how = sym.choice('how', ['get_svg', 'html'])
	before = len(graphviz.CALLS)
	direction, pad = None, 'default'
	if how == 'get_svg':
		direction, pad = sym.choice('direction', [None, 'TB', 'RL']), sym.choice('pad', ['default', 0, None, 2])
		if pad == 'default':
			svg = g.get_svg(direction=direction)
		else:
			svg = g.get_svg(direction=direction, pad=pad)
	else:
		svg = g._repr_html_()
	calls = graphviz.CALLS[before:]
	sym.check(len(calls) == 1 and calls[0][0] == 'pipe' and calls[0][3] == 'svg', 'only shown, nothing is written')
	expected = g.get_graphviz_str(direction=direction) if pad == 'default' else g.get_graphviz_str(direction=direction, pad=pad)
	sym.check(calls[0][1] == expected + '\n', 'the text of the graph')
	for x in g.nodes:
		sym.check(x.style is not None, 'styled')
	sym.check(svg == '<svg:' + calls[0][1] + '>', 'what the layout program returned')


def settings_again(sym):
	"""two renderings of one graph, each with settings of its own"""
	g = Graph(label=None, direction='LR')
	g.add_node('a')
	g.add_node('b')
	g.connect('a', 'b')
	for k in range(2):
		kwargs = {}
		direction, height, pad = sym.choice('direction' + str(k), [None, 'TB']), sym.choice('height' + str(k), [None, 3, 4]), sym.choice('pad' + str(k), [0.1, 0, 2])
		path = sym.choice('path' + str(k), ['graph.png', 'other.png'])
		before = len(graphviz.CALLS)
		returned = g.render(path, view=False, direction=direction, height=height, pad=pad)
		calls = graphviz.CALLS[before:]
		sym.check(len(calls) == 1 and calls[0][2] == path, 'laid out exactly once, to its path')
		for source, sized in [(calls[0][1], True), (returned.source, False)]:
			rank, padded, size, arrows = dot.settings(source)
			sym.check(rank == ('LR' if direction is None else None), 'the direction')
			sym.check(padded == str(pad), 'the padding')
			sym.check(size == (str(height) + '!' if sized and height is not None else None), 'the size')


def repeated(sym):
	"""several renderings of a graph that grows: each writes the graph as it is"""
	g = _graph(sym)
	for k in range(2):
		before = len(graphviz.CALLS)
		path = sym.choice('path' + str(k), [None, 'x.png', 'y.svg'])
		g.render(path, view=False)
		calls = graphviz.CALLS[before:]
		sym.check(len(calls) == (0 if path is None else 1), 'one file per path')
		if path is not None:
			sym.check(calls[0][1] == g.get_graphviz_str() + '\n', 'the graph as it is')
			sym.check(calls[0][2] == path, 'the path')
			names = [x.name for x in g.nodes]
			for x in names:
				sym.check('"' + x + '" [' in calls[0][1], 'every node')
		g.add_node('new' + str(k))
		if sym.bool('remove' + str(k)):
			g.remove_node('a' if k == 0 else 'b')
