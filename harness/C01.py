import warnings
from abstract import Graph, Node
from common import *


def _audit(sym, g, ref, pool):
	"""ref: list of [name, label, value, node] in order of addition"""
	nodes = g.nodes
	sym.check([x.name for x in nodes] == [r[0] for r in ref], 'exactly the names added and not removed, in order')
	sym.check([x for x in g.nodes_dict] == [r[0] for r in ref], 'nodes_dict lists the same names')
	for k in range(len(ref)):
		name, label, value, node = ref[k]
		sym.check(nodes[k] is node, 'the node of a name is the one registered')
		sym.check(g.get_node(name) is node and g.get_node(node) is node, 'lookup by name and by node object')
		sym.check(g.get_node_name(name) == name and g.get_node_name(node) == name, 'the name by name and by node object')
		sym.check(node.name == name and node.graph is g, 'a node keeps its name and graph')
		sym.check(node._label == label and node.value == value, 'label and value as last passed')
	for name in pool:
		present = any([r[0] == name for r in ref])
		sym.check((name in g) == present, 'name in graph')
		if not present:
			try:
				g.get_node(name)
				sym.fail('lookup of an absent name succeeds')
			except KeyError:
				pass


def _history(sym, pool, steps, labels, values, default_policy=False):
	g = Graph()
	ref = []
	for s in range(steps):
		t = str(s)
		name = sym.choice('name' + t, pool)
		at = -1
		for k in range(len(ref)):
			if ref[k][0] == name:
				at = k
		if sym.choice('op' + t, ['add', 'remove']) == 'add':
			label = sym.choice('label' + t, labels)
			value = sym.choice('value' + t, values)
			policy = 'warn' if default_policy else sym.choice('policy' + t, ['warn', 'ignore', 'error'])
			raised = False
			node = None
			with warnings.catch_warnings(record=True) as log:
				warnings.simplefilter('always')
				try:
					if default_policy:
						node = g.add_node(name, label=label, value=value)
					else:
						node = g.add_node(name=name, label=label, value=value, if_node_exists=policy)
				except KeyError:
					raised = True
			if at >= 0:
				sym.check(raised == (policy == 'error'), 'KeyError exactly with the error policy')
				sym.check((len(log) > 0) == (policy == 'warn'), 'warning exactly with the warn policy')
				if policy != 'error':
					sym.check(node is ref[at][3], 'adding a present name returns the existing node')
					if label is not None:
						ref[at][1] = label
					if value is not None:
						ref[at][2] = value
			else:
				sym.check(not raised and len(log) == 0, 'a new name is added without complaint')
				sym.check(node is not None and node.name == name, 'the new node is returned')
				ref.append([name, label, value, node])
		elif at >= 0:
			how = sym.choice('how' + t, ['name', 'node'])
			g.remove_node(name if how == 'name' else ref[at][3])
			sym.check(ref[at][3].graph is None, 'a removed node has no graph')
			ref = ref[:at] + ref[at + 1:]
		else:
			try:
				g.remove_node(name)
				sym.fail('removing an absent name succeeds')
			except KeyError:
				pass
		_audit(sym, g, ref, pool)
	return g, ref


def history(sym):
	steps = sym.bound('steps', 5, 7)
	g, ref = _history(sym, ['a', 'b'], steps, [None, 'L'], [None, 0, 1])
	sym.cover('two nodes', len(ref) == 2)


def history_names(sym):
	"""more names, integer names included, default policy"""
	steps = sym.bound('steps', 6, 8)
	pool = ['a', '', 0, '0']
	g, ref = _history(sym, pool, steps, [None, ''], [None], default_policy=True)
	for k in range(len(ref)):
		for j in range(len(ref)):
			a, b = ref[j][3], ref[k][3]
			sym.check((a < b) == (j < k) and (a > b) == (j > k) and (a == b) == (j == k), 'later nodes compare greater')
	sym.cover('three nodes', len(ref) == 3)


def style_on_duplicate(sym):
	"""adding a present name sets the style passed, and only that"""
	g = Graph(style_overwrite_allowed=sym.bool('overwrite'))
	first = sym.choice('first', [None, {'text_size': 11}])
	second = sym.choice('second', [None, {'text_size': 12}])
	sym.assume(first is None or second is None or g._style_overwrite_allowed)
	g.add_node('a', label='x', value=1, style=first)
	b = g.add_node('b')
	n = g.add_node('a', style=second, if_node_exists='ignore')
	want = second or first
	if want is None:
		sym.check(n.style is None, 'no style')
	else:
		sym.check(n.style._text_size == want['text_size'], 'style passed last')
	sym.check(n.label == 'x' and n.value == 1 and b.style is None and len(g.nodes) == 2, 'nothing else changes')


def node_objects(sym):
	"""add_node given a node object: accepted if it is the registered node, refused otherwise"""
	g = Graph()
	h = Graph()
	a = g.add_node('a')
	b = h.add_node(sym.choice('other', ['a', 'b']))
	c = Node(graph=g, name='c')
	sym.check(g.add_node(a) is a and g.add_node(name=c) is c, 'a registered node is returned')
	try:
		g.add_node(b)
		sym.fail('a node of another graph is accepted')
	except ValueError:
		pass
	sym.check([x.name for x in g.nodes] == ['a', 'c'] and [x for x in h.nodes] == [b] and b.graph is h, 'nothing changes')
	removed = sym.bool('removed')
	if removed:
		g.remove_node(a)
		sym.check([x.name for x in g.nodes] == ['c'], 'removed')
		g.add_node('a')
		sym.check([x.name for x in g.nodes] == ['c', 'a'] and g.get_node('a') is not a, 'a new node')
	sym.check((a in g) and ('a' in g) and ('zz' not in g), 'membership')


def arbitrary_names(sym):
	"""names of arbitrary characters"""
	g = Graph()
	x = sym.str('x', 0, 2)
	y = sym.str('y', 0, 2)
	a = g.add_node(x)
	b = g.add_node(y, if_node_exists='ignore')
	sym.check((a is b) == (x == y), 'same node exactly for the same name')
	sym.check(len(g.nodes) == (1 if x == y else 2), 'one node per name')
	sym.check(g.get_node(x) is a and g.get_node(y) is b and a.name == x and b.name == y, 'lookup')
	g.remove_node(x)
	sym.check((y in g) == (x != y) and x not in g, 'removal')


def bad_argument(sym):
	g = Graph()
	g.add_node('a')
	bad = sym.choice('bad', [None, 1.5, ('a',)])
	try:
		g.add_node(bad)
		sym.fail('a name of another type is accepted')
	except TypeError:
		pass
	try:
		g.get_node(bad)
		sym.fail('lookup of another type succeeds')
	except TypeError:
		pass
	sym.check([x.name for x in g.nodes] == ['a'], 'unchanged')


def readded(sym):
	"""a removed node object can be added again, to its own graph or to another one"""
	g, h = Graph(), Graph()
	a, b = g.add_node('a', label='x', value=1), g.add_node('b')
	h.add_node('z')
	if sym.bool('edge'):
		g.connect('a', 'b')
		g.connect('b', 'a')
	if sym.bool('other first'):
		h.add_node(sym.choice('name', ['a', 'c']))
	g.remove_node(a)
	target = sym.choice('target', [g, h])
	if target is g and sym.bool('between'):
		g.add_node('a')
	refused = 'a' in target
	names = [x.name for x in target.nodes]
	try:
		sym.check(target.add_node(a) is a and not refused, 'the node object itself')
	except ValueError:
		sym.check(refused, 'refused only if the name is taken')
		sym.check([x.name for x in target.nodes] == names and a.graph is None, 'nothing changes')
		return
	sym.check([x.name for x in target.nodes] == names + ['a'] and target.get_node('a') is a, 'registered')
	sym.check(a.graph is target and a._label == 'x' and a.value == 1, 'it belongs to the graph and keeps its data')
	sym.check(len(a.parents) == 0 and len(a.children) == 0, 'its edges are gone')
	late = target.add_node('late')
	for x in target.nodes:
		if x is not a and x is not late:
			sym.check(x < a and x != a, 'it compares greater than the nodes added before')
	sym.check(a < late, 'and less than those added later')
	e = target.connect(a, late)
	sym.check(a.children == [late] and late.parents == [a] and [x for x in target.edges] == [e], 'it can be connected')
	target.remove_node('a')
	sym.check('a' not in target and a.graph is None and len(late.parents) == 0, 'it can be removed again')
