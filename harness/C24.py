from abstract import Graph
from common import *


def _raises(error, action):
	try:
		action()
	except error:
		return True
	except Exception:
		return False
	return False


def _set(x, value):
	x.value = value


def _objects(sym):
	g = Graph()
	g.add_node('a')
	kind = sym.choice('kind', ['node', 'edge', 'loop'])
	first = sym.choice('first value', [None, 0, 'v'])
	if kind == 'node':
		return g, g.add_node('x', value=first, k=1, none=None), g.add_node('y', k=5), first
	g.add_node('b')
	if kind == 'edge':
		return g, g.connect('a', 'b', value=first, k=1, none=None), g.connect('a', 'b', id=2, k=5), first
	return g, g.connect('a', 'a', value=first, k=1, none=None), g.connect('b', 'b', k=5), first


def state_machine(sym):
	"""any sequence of assignments, freezing and unfreezing"""
	g, x, other, value = _objects(sym)
	frozen = False
	parameters = {'k': 1, 'none': None}
	for step in range(sym.bound('steps', 6, 8)):
		s = str(step)
		what = sym.choice('what' + s, ['value', 'freeze', 'unfreeze', 'set', 'item', 'other'])
		if what == 'value':
			new = sym.choice('new' + s, [None, 7, 'w', False])
			if frozen:
				sym.check(_raises(RuntimeError, lambda: _set(x, new)), 'a frozen value cannot be set')
			else:
				x.value = new
				value = new
		elif what == 'freeze':
			x.freeze()
			frozen = True
		elif what == 'unfreeze':
			x.unfreeze()
			frozen = False
		elif what == 'set':
			key = sym.choice('key' + s, ['k', 'new'])
			x.set(key, step)
			parameters[key] = step
		elif what == 'item':
			key = sym.choice('key' + s, ['k', 'new'])
			x[key] = step + 10
			parameters[key] = step + 10
		else:
			other.freeze()
			other['k'] = 50 + step
			other['own'] = step
		sym.check(x.value is value or x.value == value, 'the value reads back')
		sym.check(x.is_frozen == frozen, 'frozen reports the state')
		for key in ['k', 'new', 'own', 'none']:
			if key in parameters:
				sym.check(x.get(key) == parameters[key] and x[key] == parameters[key], 'parameters read back')
			else:
				sym.check(_raises(KeyError, lambda: x.get(key)) and _raises(KeyError, lambda: x[key]), 'KeyError for an unknown key')


def any_value(sym):
	"""values of every kind"""
	g, x, other, first = _objects(sym)
	which = sym.choice('which', ['text', 'int', 'real', 'list', 'none'])
	if which == 'text':
		value = sym.str('value', 0, 4)
	elif which == 'int':
		value = sym.int('int', -1000000, 1000000)
	elif which == 'real':
		value = sym.real('real', -1000, 1000)
	elif which == 'list':
		value = [1, 2]
	else:
		value = None
	x.value = value
	sym.check(x.value is value or x.value == value, 'the value reads back')
	x.freeze()
	sym.check(_raises(RuntimeError, lambda: _set(x, 'other')), 'frozen')
	sym.check(x.value is value or x.value == value, 'nothing changed')
	x.unfreeze()
	_set(x, 3)
	sym.check(x.value == 3, 'set again')
	sym.check(other.value is None, 'every object has its own value')


def parameters(sym):
	"""parameters given at creation, arbitrary texts as keys and values"""
	g = Graph()
	v, w = sym.str('v', 0, 3), sym.str('w', 0, 3)
	a = g.add_node('a', size=v)
	b = g.add_node('b', size=w)
	e = g.connect('a', 'b', size=v + w)
	f = g.connect('b', 'a')
	sym.check(a['size'] == v and b['size'] == w and e['size'] == v + w, 'parameters given at creation')
	sym.check(_raises(KeyError, lambda: f['size']), 'none given')
	key = sym.str('key', 1, 3)
	sym.assume(key != 'size')
	sym.check(_raises(KeyError, lambda: a[key]), 'an unknown key')
	a[key] = 1
	f.set(key, 2)
	sym.check(a[key] == 1 and a.get(key) == 1 and f[key] == 2, 'set later')
	sym.check(_raises(KeyError, lambda: b[key]) and _raises(KeyError, lambda: e.get(key)), 'only for that object')
	sym.check(a['size'] == v and b['size'] == w, 'the others are kept')


def independent(sym):
	"""objects of one or two graphs, with or without parameters of their own at first"""
	model = {}
	def given(name):
		if sym.bool('with ' + name):
			model[name] = {'k': name}
			return {'k': name}
		model[name] = {}
		return {}
	g, h = Graph(), Graph()
	objects = {
		'a': g.add_node('a', **given('a')), 'b': g.add_node('b', **given('b')), 'ab': g.connect('a', 'b', **given('ab')),
		'aa': g.connect('a', 'a', **given('aa')), 'c': h.add_node('a', **given('c'))
	}
	names = list(objects)
	for step in range(sym.bound('assignments', 3, 4)):
		name = sym.choice('object' + str(step), names)
		key = sym.choice('key' + str(step), ['k', 'l'])
		objects[name][key] = step
		model[name][key] = step
	for name in names:
		for key in ['k', 'l']:
			if key in model[name]:
				sym.check(objects[name][key] == model[name][key], 'the parameter of this object')
			else:
				sym.check(_raises(KeyError, lambda: objects[name][key]), 'no parameter of another object')


def any_key(sym):
	"""keys that are words of the code"""
	key = sym.choice('key', ['parameters', 'kwargs', 'item', 'size', '_parameters', 'raw_id', 'node', 'edge'])
	value = sym.choice('value', [None, 0, {'k': 1}, 'text'])
	g = Graph()
	a = g.add_node('a', **{key: value})
	b = g.add_node('b')
	e = g.connect('a', 'b', **{key: value})
	f = g.connect('b', 'a')
	for x in [a, e]:
		sym.check(x[key] == value and x.get(key) == value, 'the parameter given')
		sym.check(_raises(KeyError, lambda: x['k']), 'nothing else')
	for x in [b, f]:
		sym.check(_raises(KeyError, lambda: x[key]), 'none given')
		x[key] = 5
		sym.check(x[key] == 5, 'set later')
	sym.check(a[key] == value and e[key] == value and a.value is None and e.value is None, 'the others are kept')


def labels(sym):
	"""the label falls back to the name"""
	g = Graph()
	name = sym.choice('name', ['n', 'two words', 3])
	label = sym.choice('label', [None, '', 'shown', 'n'])
	x = g.add_node(name, label=label)
	sym.check(x.label == (label if label else str(name)), 'the label or the name')
	new = sym.choice('new', [None, '', 'later'])
	x.label = new
	sym.check(x.label == (new if new else str(name)), 'the new label or the name')
	sym.check(x.display_label() == x.label, 'the label shown')


def any_label(sym):
	name, label = sym.str('name', 1, 4), sym.str('label', 0, 4)
	g = Graph()
	x = g.add_node(name)
	sym.check(x.label == name and x.name == name, 'the name')
	x.label = label
	sym.check(x.label == (label if label != '' else name), 'the label, or the name where it is empty')
	e = g.connect(name, name, label=label)
	sym.check(e.label == label, 'the label of an edge')
	e.label = None
	sym.check(e.label is None and e.value is None, 'no label')


def frozen_copy(sym):
	"""copies read back the same values and parameters"""
	g, x, other, value = _objects(sym)
	x['new'] = 3
	if sym.bool('freeze'):
		x.freeze()
	h = g.copy()
	twins = [y for y in list(h.nodes) + list(h.edges) if type(y) is type(x) and y.id == x.id]
	sym.check(len(twins) == 1, 'the copy has it too')
	y = twins[0]
	sym.check(y.value == value and y['k'] == 1 and y['new'] == 3, 'the same value and parameters')
	sym.check(_raises(KeyError, lambda: y['unknown']), 'an unknown key')
	y.unfreeze()
	y['k'] = 2
	y.value = 'changed'
	sym.check(x['k'] == 1 and x.value == value, 'changing the copy leaves the original')
	z = x
	sym.check(z.is_frozen == sym.bool('freeze'), 'the state of the original')


def merging(sym):
	"""adding or connecting again keeps to the same rules"""
	g = Graph()
	x = g.add_node('x', value=1, k=1)
	g.add_node('y')
	e = g.connect('x', 'y', value=2, k=2)
	again = sym.choice('again', ['node', 'edge', 'both'])
	value = sym.choice('value', [None, 5])
	if again != 'edge':
		g.add_node('x', value=value, if_node_exists='ignore')
		sym.check(x.value == (1 if value is None else value), 'the value of the node')
	if again != 'node':
		g.connect('x', 'y', value=value, if_edge_exists='ignore')
		sym.check(e.value == (2 if value is None else value), 'the value of the edge')
	sym.check(x['k'] == 1 and e['k'] == 2, 'the parameters are kept')
