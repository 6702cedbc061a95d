import warnings

from abstract import Graph
from abstract.styling.NodeStyle import NodeStyle
from abstract.styling.EdgeStyle import EdgeStyle
import dot
from common import *


class _Source:
	def __init__(self, description):
		self.description = description

	def __graph__(self):
		return self.description


class _Other:
	pass


def _style_of(style):
	return None if style is None else (style._text_size, style._font, style.colour.hexadecimal)


def _facts(g):
	nodes = [(x.name, x._label, x.value, _style_of(x.style)) for x in g.nodes]
	edges = [(e.id, e._label, e.value, _style_of(e.style)) for x in g.nodes for e in x.outward_edges]
	return nodes, edges, g._is_strict, g._ordering


def _same(sym, g, r):
	a, b = _facts(g), _facts(r)
	sym.check(a[0] == b[0], 'the same nodes in the same order with the same labels, values and styles')
	sym.check(a[1] == b[1], 'the same edges with the same labels, values and styles')
	sym.check(a[2] == b[2] and a[3] == b[3], 'the same strict and ordering flags')
	for x in r.nodes:
		sym.check(x.graph is r, 'the nodes belong to the new graph')
		for e in x.outward_edges:
			sym.check(e.graph is r and e.start is x and e.end is r.get_node(e.end.name), 'the edges belong to the new graph')
		sym.check(len(x.inward_edges) == len([e for y in r.nodes for e in y.outward_edges if e.end is x]), 'inward edges')


def _graph(sym, names, ids):
	g = Graph(strict=sym.bool('strict'), ordering=sym.bool('ordering'))
	for x in names:
		if sym.bool('n' + str(x)):
			style = {'text_size': 7, 'colour': '#ff0000'} if sym.bool('s' + str(x)) else None
			g.add_node(x, label=sym.choice('l' + str(x), [None, '', 'x']), value=sym.choice('v' + str(x), [None, 0, 3]), style=style)
	for a in names:
		for b in names:
			for i in ids:
				if a in g and b in g:
					if sym.bool('e' + str(a) + str(b) + str(i)):
						style = {'text_size': 6, 'colour': '#00ff00'} if sym.bool('es' + str(a) + str(b) + str(i)) else None
						g.connect(a, b, id=i, label=sym.choice('el' + str(a) + str(b) + str(i), [None, 'y']), value=sym.choice('ev' + str(a) + str(b) + str(i), [None, 0]), style=style)
	return g


def _ways(sym, g):
	way = sym.choice('way', ['constructor', 'append', 'append list', 'dictionary', 'from_dict', 'object'])
	if way == 'constructor':
		return Graph(obj=g)
	if way == 'append':
		r = Graph()
		sym.check(r.append(g) is r, 'append returns the graph')
		return r
	if way == 'append list':
		r = Graph()
		r.append([g])
		return r
	if way == 'dictionary':
		return Graph(obj=g.__graph__())
	if way == 'from_dict':
		return Graph.from_dict(g.__graph__())
	return Graph(obj=_Source(g.__graph__()))


def graph_to_graph(sym):
	g = _graph(sym, ['a', 'b'], [None])
	before = _facts(g)
	r = _ways(sym, g)
	_same(sym, g, r)
	sym.check(_facts(g) == before, 'the source is unchanged')


def described_again(sym):
	"""rebuilt after changes that leave the numbers of nodes and edges as they were, after it was rebuilt once"""
	g = Graph()
	for x in ['a', 'b', 'c']:
		g.add_node(x, value=1)
	g.connect('a', 'b', value=2)
	g.connect('b', 'c')
	_same(sym, g, Graph(obj=g))
	g.__graph__()
	what = sym.choice('what', ['node', 'edge', 'turn', 'value', 'label', 'style', 'strict'])
	if what == 'node':
		g.remove_node('a')
		g.add_node('d', value=4)
		g.connect('d', 'b')
	elif what == 'edge' or what == 'turn':
		g.disconnect(g.edges[0])
		if what == 'turn':
			g.connect('b', 'a')
		else:
			g.connect('c', 'c')
	elif what == 'value':
		g.get_node('b').value = None
		g.edges[1].value = 0
	elif what == 'label':
		g.get_node('b').label = 'new'
		g.edges[1].label = 'new'
	elif what == 'style':
		g.get_node('b').style = {'text_size': 7, 'colour': '#ff0000'}
	else:
		g._is_strict = True
	_same(sym, g, _ways(sym, g))


def ids(sym):
	g = _graph(sym, [0, 'b'], [None, 0, 'p'])
	r = _ways(sym, g)
	_same(sym, g, r)


def three_nodes(sym):
	"""order of nodes and edges"""
	g, m = build_any_order(sym, Graph, ['c', 'a', 'b'])
	r = _ways(sym, g)
	_same(sym, g, r)


def independent(sym):
	"""later changes of one graph do not reach the other"""
	g = Graph()
	for x in ('a', 'b'):
		g.add_node(x, label='l', value=1)
	g.connect('a', 'b', label='e', value=2)
	g.connect('b', 'b')
	r = _ways(sym, g)
	changed, other = (g, r) if sym.bool('source') else (r, g)
	before = _facts(other)
	op = sym.choice('op', ['remove', 'label', 'disconnect', 'value', 'add', 'render'])
	if op == 'remove':
		changed.remove_node('b')
	elif op == 'label':
		changed.get_node('a').label = 'new'
		changed.edges_dict[('a', 'b', None)].label = 'new'
	elif op == 'disconnect':
		changed.edges_dict[('a', 'b', None)].remove_self()
	elif op == 'value':
		changed.get_node('a').value = 5
		changed.edges_dict[('a', 'b', None)].value = 5
	elif op == 'add':
		changed.add_node('c')
		changed.connect('c', 'a')
	else:
		changed.render(view=False)
	sym.check(_facts(other) == before, 'the other graph is unchanged')


def description(sym):
	"""every form of a description"""
	names = ['a', 'b']
	if sym.bool('names only'):
		nodes = [x for x in names if sym.bool(x)]
		if sym.bool('tuple'):
			nodes = tuple(nodes)
		attributes = {x: {} for x in nodes}
	else:
		nodes = {}
		for x in names:
			if sym.bool(x):
				nodes[x] = {}
				if sym.bool('has l' + x):
					nodes[x]['label'] = sym.choice('l' + x, ['x', '', None])
				if sym.bool('has v' + x):
					nodes[x]['value'] = sym.choice('v' + x, [0, 4])
				if sym.bool('has s' + x):
					nodes[x]['style'] = {'text_size': 5} if sym.bool('dict' + x) else NodeStyle(text_size=5)
				if sym.bool('has p' + x):
					nodes[x]['extra'] = 8
		attributes = nodes
	present = list(nodes)
	edges, wanted = [], []
	for a in present:
		for b in present:
			form = sym.choice('form' + a + b, ['none', 'pair', 'list', 'triple', 'both'])
			if form in ('pair', 'both'):
				edges.append((a, b))
				wanted.append(((a, b, None), None, None, None))
			if form == 'list':
				edges.append([a, b])
				wanted.append(((a, b, None), None, None, None))
			if form in ('triple', 'both'):
				edges.append((a, b, {'id': 0, 'label': 'y', 'value': 2, 'style': {'text_size': 6}}))
				wanted.append(((a, b, 0), 'y', 2, 6))
	d = {'nodes': nodes, 'edges': edges}
	if sym.bool('used before'):
		Graph(obj=d)
	strict, ordering = sym.choice('strict', [None, True, False]), sym.choice('ordering', [None, True, False])
	if strict is not None:
		d['strict'] = strict
	if ordering is not None:
		d['ordering'] = ordering
	n, k = len(present), len(edges)
	if sym.bool('from_dict'):
		g = Graph.from_dict(d)
	else:
		g = Graph(obj=_Source(d) if sym.bool('object') else d)
	sym.check([x.name for x in g.nodes] == present, 'the described nodes in order')
	for x in present:
		y = g.get_node(x)
		sym.check(y._label == attributes[x].get('label') and y.value == attributes[x].get('value'), 'label and value')
		sym.check((y.style is not None) == ('style' in attributes[x]), 'styled exactly when described')
		if y.style is not None:
			sym.check(y.style._text_size == 5, 'the described style')
		if 'extra' in attributes[x]:
			sym.check(y['extra'] == 8, 'extra attributes')
	got = [(e.id, e.label, e.value, None if e.style is None else e.style._text_size) for x in g.nodes for e in x.outward_edges]
	sym.check(got == wanted, 'the described edges')
	sym.check(g._is_strict == (False if strict is None else strict), 'strict flag')
	sym.check(g._ordering == (True if ordering is None else ordering), 'ordering flag')
	sym.check(len(d['nodes']) == n and len(d['edges']) == k, 'the description is unchanged')


def accumulate(sym):
	"""a list of sources"""
	kinds = ['dict', 'object', 'graph']
	names = [['a', 'b'], ['b', 'a'], ['c']]
	possible = [[('a', 'b')], [('a', 'b'), ('b', 'b')], []]
	sources, nodes, edges = [], [], []
	for i in range(3):
		if sym.bool('has' + str(i)):
			e = [(a, b) for a, b in possible[i] if sym.bool('e' + str(i) + a + b)]
			d = {'nodes': names[i], 'edges': e}
			kind = sym.choice('kind' + str(i), kinds)
			if kind == 'dict':
				sources.append(d)
			elif kind == 'object':
				sources.append(_Source(d))
			else:
				sources.append(Graph(obj=d))
			for x in names[i]:
				if x not in nodes:
					nodes.append(x)
			for x in e:
				if x not in edges:
					edges.append(x)
	with warnings.catch_warnings(record=True):
		warnings.simplefilter('always')
		if sym.bool('tuple'):
			sources = tuple(sources)
		if sym.bool('nested'):
			sources = [sources]
		g = Graph(obj=sources) if sym.bool('constructor') else Graph().append(sources)
	sym.check([x.name for x in g.nodes] == nodes, 'the nodes of all sources')
	sym.check(len(g.edges) == len(edges), 'the edges of all sources, once')
	for a, b in edges:
		sym.check((a, b, None) in g.edges_dict, 'every edge of every source')


def errors(sym):
	parts = sym.choice('parts', [(), ('a',), ('a', 'b', {}, 1), ['a', 'b', {'id': 1}, 1, 2], []])
	position = sym.choice('position', [0, 1])
	edges = [('a', 'a')]
	edges.insert(position, parts)
	d = {'nodes': ['a', 'b'], 'edges': edges}
	source = sym.choice('kind', ['dict', 'object', 'list'])
	obj = {'dict': d, 'object': _Source(d), 'list': [d]}[source]
	try:
		if sym.bool('constructor'):
			Graph(obj=obj)
		else:
			Graph().append(obj)
		sym.fail('a wrong edge definition is accepted')
	except ValueError:
		sym.cover('ValueError')


def wrong_type(sym):
	obj = sym.choice('obj', [5, 'text', 2.5, _Other(), _Source(3), True])
	if sym.bool('list'):
		obj = [{'nodes': ['a'], 'edges': []}, obj]
	how = sym.choice('how', ['constructor', 'append', 'from_dict'])
	try:
		if how == 'constructor':
			Graph(obj=obj)
		elif how == 'append':
			Graph().append(obj)
		else:
			Graph.from_dict(obj)
		sym.fail('something that is not a description is accepted')
	except TypeError:
		sym.cover('TypeError')


def arbitrary(sym):
	"""arbitrary names, labels and values"""
	a, b = sym.str('a', 1, 2), sym.str('b', 1, 2)
	sym.assume(a != b)
	label, value, number = sym.str('label', 0, 2), sym.int('value', -9, 9), sym.int('number', -9, 9)
	d = {'nodes': {a: {'label': label, 'value': value}, b: {}}, 'edges': [(a, b, {'id': number, 'label': label, 'value': value})]}
	g = Graph(obj=Graph(obj=d))
	sym.check([x.name for x in g.nodes] == [a, b], 'names')
	sym.check(g.get_node(a)._label == label and g.get_node(a).value == value, 'label and value')
	sym.check(len(g.edges) == 1 and g.edges[0].id == (a, b, number) and g.edges[0].label == label and g.edges[0].value == value, 'edge')


def reused(sym):
	"""a description is not consumed: it can be used again, and the objects in it are left as they were"""
	style = sym.choice('style', [None, {'text_size': 6}, NodeStyle(text_size=6)])
	edge_style = sym.choice('edge style', [None, {'text_size': 7}])
	edges = [('a', 'b', {'id': 1, 'label': 'l', 'value': [3], 'style': edge_style, 'extra': 4}), ['a', 'b', {'id': 2}], ('b', 'a')]
	d = {
		'strict': False, 'ordering': False, 'label': 'text', 'tooltip': 'tip', 'direction': 'TB',
		'nodes': {'a': {'label': 'x', 'value': [1], 'style': style, 'extra': 2}, 'b': {}}, 'edges': edges,
		'node_styles': {'a': {'text_size': 9}}, 'edge_styles': {('a', 'b', 1): {'text_size': 3}},
		'node_colours': {'b': '#ff0000'}, 'edge_colours': {('b', 'a'): '#00ff00'}
	}
	how = sym.choice('how', ['same', 'object', 'list'])
	obj = {'same': d, 'object': _Source(d), 'list': [d]}[how]
	g = Graph(obj=obj)
	op = sym.choice('op', ['nothing', 'render', 'change'])
	if op == 'render':
		g.render(view=False)
	elif op == 'change':
		g.remove_node('b')
		g.get_node('a').label = 'new'
	keys = ['strict', 'ordering', 'label', 'tooltip', 'direction', 'nodes', 'edges', 'node_styles', 'edge_styles', 'node_colours', 'edge_colours']
	sym.check(list(d) == keys, 'the description has the same parts')
	sym.check(d['strict'] is False and d['ordering'] is False and (d['label'], d['tooltip'], d['direction']) == ('text', 'tip', 'TB'), 'flags of the description')
	sym.check(list(d['nodes']) == ['a', 'b'] and list(d['nodes']['a']) == ['label', 'value', 'style', 'extra'] and d['nodes']['b'] == {}, 'nodes of the description')
	sym.check((d['nodes']['a']['label'], d['nodes']['a']['value'], d['nodes']['a']['extra']) == ('x', [1], 2) and d['nodes']['a']['style'] is style, 'attributes of the description')
	sym.check(len(edges) == 3 and edges[1] == ['a', 'b', {'id': 2}] and edges[2] == ('b', 'a'), 'edges of the description')
	e = edges[0]
	sym.check(list(e[2]) == ['id', 'label', 'value', 'style', 'extra'] and (e[2]['id'], e[2]['label'], e[2]['value'], e[2]['extra']) == (1, 'l', [3], 4), 'edge attributes of the description')
	sym.check(d['node_styles'] == {'a': {'text_size': 9}} and d['edge_styles'] == {('a', 'b', 1): {'text_size': 3}}, 'styles of the description')
	sym.check(d['node_colours'] == {'b': '#ff0000'} and d['edge_colours'] == {('b', 'a'): '#00ff00'}, 'colours of the description')
	if isinstance(style, dict):
		sym.check(style == {'text_size': 6}, 'a style of the description')
	elif style is not None:
		sym.check(style._text_size == 6, 'a style object of the description')
	h = Graph(obj=obj)
	sym.check([x.name for x in h.nodes] == ['a', 'b'] and h.get_node('a').label == 'x', 'the same nodes again')
	sym.check(list(h.edges_dict) == [('a', 'b', 1), ('a', 'b', 2), ('b', 'a', None)], 'the same edges again')


def settings(sym):
	"""the settings of a description reach the graph, and those it does not mention stay"""
	d = {'nodes': ['a', 'b'], 'edges': [('a', 'b')]}
	which = sym.choice('which', ['text', 'styles', 'scheme'])
	if which == 'text':
		for key, options in [('label', ['title', None]), ('tooltip', ['tip', None]), ('label_url', ['https://x.y', None]), ('direction', ['BT']), ('strict', [True, False]), ('ordering', [False, True])]:
			if sym.bool(key):
				d[key] = sym.choice('described ' + key, options)
	elif which == 'styles':
		key = sym.choice('node key', [None, 'global_node_style', 'graph_node_style'])
		if key is not None:
			d[key] = {'text_size': 17}
		edge_key = sym.choice('edge key', [None, 'global_edge_style', 'graph_edge_style'])
		if edge_key is not None:
			d[edge_key] = {'text_size': 19}
	else:
		if sym.bool('stylist'):
			d['stylist'] = 'random'
		if sym.bool('scheme'):
			d['colour_scheme'] = 'scheme'
		if sym.bool('overwrite'):
			d['style_overwrite_allowed'] = True
	way = sym.choice('way', ['constructor', 'append', 'object'])
	own = dict(strict=False, ordering=True, label_url=None) if sym.bool('usual') else dict(strict=True, ordering=False, label_url='https://own')
	if way == 'constructor':
		g = Graph(obj=d, label='own', tooltip='own tip', direction='LR', **own, stylist=None if which == 'scheme' else 'pensieve', colour_scheme=None if which == 'scheme' else 'pensieve2')
	elif way == 'object':
		g = Graph(obj=_Source(d), label='own', tooltip='own tip', direction='LR', **own, stylist=None if which == 'scheme' else 'pensieve', colour_scheme=None if which == 'scheme' else 'pensieve2')
	else:
		g = Graph(label='own', tooltip='own tip', direction='LR', **own, stylist=None if which == 'scheme' else 'pensieve', colour_scheme=None if which == 'scheme' else 'pensieve2')
		g.append(d)
	if which == 'text':
		header = g.get_graphviz_header()
		parsed = dot.header(header)
		sym.check(parsed is not None, 'the header is well formed')
		first, rest = parsed
		found = {k: v for k, v in rest}
		sym.check(('strict' in first) == d.get('strict', own['strict']), 'strict')
		sym.check(('ordering' in found) == (not d.get('ordering', own['ordering'])), 'ordering')
		label, tooltip, url = d.get('label', 'own'), d.get('tooltip', 'own tip'), d.get('label_url', own['label_url'])
		sym.check(('graph label' in found) == (label is not None), 'a label or none')
		if label is not None:
			sym.check(found['graph label'].strip() == label, 'label')
		sym.check(found.get('graph tooltip') == tooltip, 'tooltip')
		sym.check(found['rankdir'] == ('BT' if 'direction' in d else 'LR'), 'direction')
		sym.check(found.get('graph href') == (url if label is not None else None), 'link')
	elif which == 'styles':
		how = sym.choice('derived', [None, 'graph', 'dictionary', 'appended'])
		if how == 'graph':
			g = Graph(obj=g)
		elif how == 'dictionary':
			g = Graph.from_dict(g.__graph__())
		elif how == 'appended':
			g = Graph().append(g)
		g.render()
		for x in g.nodes:
			sym.check((x.style._text_size == 17) == (key is not None), 'the style for all nodes')
		for e in g.edges:
			sym.check((e.style._text_size == 19) == (edge_key is not None), 'the style for all edges')
	elif way != 'append':
		sym.check(g._stylist == ('random' if 'stylist' in d else 'pensieve'), 'stylist')
		sym.check(g._colour_scheme == d.get('colour_scheme'), 'colour scheme')
		g.get_node('a').style = {'text_size': 3}
		refused = False
		try:
			g.get_node('a').style = {'text_size': 4}
		except RuntimeError:
			refused = True
		sym.check(refused == ('style_overwrite_allowed' not in d), 'whether styles may be overwritten')
	sym.check([x.name for x in g.nodes] == ['a', 'b'] and list(g.edges_dict) == [('a', 'b', None)], 'nodes and edges')
