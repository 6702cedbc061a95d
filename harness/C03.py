import warnings
from abstract import Graph
from abstract.styling.EdgeStyle import EdgeStyle
from common import *


def _connect(sym, g, a, b, t, **kwargs):
	"""connect names a and b, given as names or node objects, through any of the equivalent calls"""
	how = sym.choice('how' + t, ['names', 'nodes', 'name and node', 'node and name', 'connect_to', 'connect_from'])
	na, nb = g.get_node(a), g.get_node(b)
	if how == 'names':
		return g.connect(a, b, **kwargs)
	elif how == 'nodes':
		return g.connect(start=na, end=nb, **kwargs)
	elif how == 'name and node':
		return g.connect(start=a, end=nb, **kwargs)
	elif how == 'node and name':
		return g.connect(start=na, end=b, **kwargs)
	elif how == 'connect_to':
		return na.connect_to(nb, **kwargs)
	return nb.connect_from(na, **kwargs)


def twice(sym):
	"""two connections between the same or different ends with arbitrary ids, attributes and policy"""
	g = Graph()
	names = ['a', 'b']
	for x in names:
		g.add_node(x)
	a, b = sym.choice('a', names), sym.choice('b', names)
	c, d = sym.choice('c', names), sym.choice('d', names)
	i, j = sym.choice('i', [None, 0, 'x']), sym.choice('j', [None, 0, 'x'])
	label1, label2 = sym.choice('label1', [None, 'l1']), sym.choice('label2', [None, 'l2', ''])
	value1, value2 = sym.choice('value1', [None, 5, 0]), sym.choice('value2', [None, 6, 0])
	policy = sym.choice('policy', ['warn', 'ignore', 'error'])
	e = _connect(sym, g, a, b, '1', id=i, label=label1, value=value1)
	sym.check(e.id == (a, b, i) and e.label == label1 and e.value == value1 and e.style is None, 'a new edge with the given attributes')
	sym.check(e.start is g.get_node(a) and e.end is g.get_node(b) and e.graph is g and len(g.edges) == 1, 'from start to end')
	raised = False
	f = None
	with warnings.catch_warnings(record=True) as log:
		warnings.simplefilter('always')
		try:
			f = _connect(sym, g, c, d, '2', id=j, label=label2, value=value2, if_edge_exists=policy)
		except ValueError:
			raised = True
	same = a == c and b == d and i == j
	sym.check(raised == (same and policy == 'error'), 'ValueError exactly with the error policy for a present edge')
	sym.check((len(log) > 0) == (same and policy == 'warn'), 'warning exactly with the warn policy for a present edge')
	sym.check(len(g.edges) == (1 if same else 2), 'one edge per start, end and id')
	if same:
		sym.check(raised or f is e, 'connecting again returns the existing edge')
		sym.check(e.label == (label2 if label2 is not None and not raised else label1), 'only a label passed is updated')
		sym.check(e.value == (value2 if value2 is not None and not raised else value1), 'only a value passed is updated')
	else:
		sym.check(f is not e and f.id == (c, d, j) and f.label == label2 and f.value == value2, 'a different id or direction is a different edge')
		sym.check(e.label == label1 and e.value == value1, 'the first edge is unchanged')
	sym.cover('same', same)


def absent_ends(sym):
	g = Graph()
	g.add_node('a')
	other = Graph().add_node('z')
	start = sym.choice('start', ['a', 'z', 'foreign node'])
	end = sym.choice('end', ['a', 'z', 'foreign node'])
	try:
		g.connect(other if start == 'foreign node' else start, other if end == 'foreign node' else end)
		sym.check(start == 'a' and end == 'a', 'connecting an absent name succeeds')
		sym.check(len(g.edges) == 1, 'one edge')
	except KeyError:
		sym.check(not (start == 'a' and end == 'a'), 'connecting present names fails')
		sym.check(len(g.edges) == 0 and g.get_node('a').children == [] and g.get_node('a').parents == [], 'graph unchanged')
	sym.check([x.name for x in g.nodes] == ['a'] and len(other.graph.edges) == 0, 'no node is added')


def styles(sym):
	"""a style passed is set on a new or existing edge and nowhere else"""
	g = Graph(style_overwrite_allowed=sym.bool('overwrite'))
	g.add_node('a')
	g.add_node('b')
	s1, s2 = sym.choice('s1', [None, {'text_size': 3}]), sym.choice('s2', [None, {'text_size': 4}])
	other = g.connect('b', 'a', tooltip='t')
	e = g.connect('a', 'b', s1)
	same = sym.bool('same')
	sym.assume(not same or s1 is None or s2 is None or g._style_overwrite_allowed)
	f = g.connect('a', 'b', style=s2, id=None if same else 1, if_edge_exists='ignore')
	want1 = s2 if same and s2 is not None else s1
	want2 = want1 if same else s2
	sym.check((e.style is None) == (want1 is None) and (f.style is None) == (want2 is None), 'style set exactly if passed')
	if want1 is not None:
		sym.check(isinstance(e.style, EdgeStyle) and e.style._text_size == want1['text_size'], 'style of the first')
	if want2 is not None:
		sym.check(f.style._text_size == want2['text_size'], 'style of the second')
	sym.check(other.style is None and other._tooltip == 't', 'other edges unchanged')


def one_step(sym):
	"""one connection in an arbitrary graph adds exactly one edge or none"""
	names = ['a', 'b']
	g, m = build_any_order(sym, Graph, names, parallel=True)
	before = g.edges_dict
	i, j = sym.choice('i', [0, 1]), sym.choice('j', [0, 1])
	k = sym.choice('id', [None, 'p', 'q'])
	key = (names[i], names[j], k)
	had = key in before
	e = g.connect(names[i], names[j], id=k, value=1, if_edge_exists='ignore')
	after = g.edges_dict
	sym.check(len(after) == len(before) + (0 if had else 1) and len(g.edges) == len(after), 'one more edge exactly if it was absent')
	for x in before:
		sym.check(x in after and after[x] is before[x], 'the other edges stay')
	sym.check(key in after and after[key] is e and e.value == 1, 'the edge is there')


def arbitrary_ids(sym):
	g = Graph()
	g.add_node('a')
	i, j = sym.str('i', 0, 2), sym.str('j', 0, 2)
	e = g.connect('a', 'a', id=i)
	f = g.connect('a', 'a', id=j, if_edge_exists='ignore')
	sym.check((e is f) == (i == j) and len(g.edges) == (1 if i == j else 2), 'one edge per id')
