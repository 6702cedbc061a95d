"""Values of the symbolic executor.

Concrete immutable Python values (None, bool, int, float, str, bytes, complex, range-free tuples of values) stand for
themselves.  Everything else is one of the classes below.
"""


class U:
	"""guarded union: mutually exclusive alternatives, exhaustive wherever the value is read"""
	__slots__ = ('alts',)

	def __init__(self, alts):
		self.alts = alts

	def __repr__(self):
		return 'U%r' % (self.alts,)


class SBool:
	__slots__ = ('lit',)

	def __init__(self, lit):
		self.lit = lit

	def __repr__(self):
		return 'SBool(%d)' % self.lit


class SNum:
	"""symbolic number: z3 Int or Real expression"""
	__slots__ = ('e', 'real')

	def __init__(self, e, real=False):
		self.e = e
		self.real = real

	def __repr__(self):
		return 'SNum(%s)' % self.e


class SChar:
	"""one symbolic character (code point, z3 bit vector)"""
	__slots__ = ('e',)

	def __init__(self, e):
		self.e = e

	def __repr__(self):
		return 'SChar(%s)' % self.e


class SStr:
	"""guarded concatenation: parts = tuple of (lit, piece), piece a non-empty str or an SChar"""
	__slots__ = ('parts',)

	def __init__(self, parts):
		self.parts = parts

	def __repr__(self):
		return 'SStr%r' % (self.parts,)


class HashTok:
	"""hash of a symbolic value: compares like the value itself (no collisions assumed)"""
	__slots__ = ('v',)

	def __init__(self, v):
		self.v = v


class _Sentinel:
	def __init__(self, n):
		self.n = n

	def __repr__(self):
		return self.n

	def __bool__(self):
		raise AssertionError('sentinel %s used as a value' % self.n)


ABSENT = _Sentinel('ABSENT')      # missing attribute / unbound local


class Heap:
	__slots__ = ('birth', 'serial')


class Obj(Heap):
	__slots__ = ('cls', 'attrs')

	def __init__(self, cls, birth, serial):
		self.cls = cls
		self.attrs = {}
		self.birth = birth
		self.serial = serial

	def __repr__(self):
		return '<%s #%d>' % (self.cls.name, self.serial)


class ListV(Heap):
	"""slots: [lit, value] in order; the list is the values whose guard holds"""
	__slots__ = ('slots', 'iters')

	def __init__(self, slots, birth, serial):
		self.slots = slots
		self.birth = birth
		self.serial = serial
		self.iters = None

	def __repr__(self):
		return 'ListV%r' % (self.slots,)


class DictV(Heap):
	"""slots: [lit, key, value]; keys of simultaneously present slots differ"""
	__slots__ = ('slots', 'changed', 'index', 'odd', 'default', 'owner')

	def __init__(self, slots, birth, serial):
		self.slots = slots
		self.birth = birth
		self.serial = serial
		self.changed = None     # list of guard accumulators of running iterations
		self.index = None
		self.odd = False
		self.default = None
		self.owner = None       # object whose __dict__ this is: changes are passed on

	def __repr__(self):
		return 'DictV%r' % (self.slots,)


class SetV(Heap):
	__slots__ = ('slots', 'changed', 'frozen')

	def __init__(self, slots, birth, serial, frozen=False):
		self.slots = slots
		self.birth = birth
		self.serial = serial
		self.changed = None
		self.frozen = frozen

	def __repr__(self):
		return 'SetV%r' % (self.slots,)


class View:
	"""dict view"""
	__slots__ = ('d', 'kind')

	def __init__(self, d, kind):
		self.d = d
		self.kind = kind


class RangeV:
	__slots__ = ('start', 'stop', 'step')

	def __init__(self, start, stop, step):
		self.start, self.stop, self.step = start, stop, step


class LazyIter:
	"""an iterable given by a function run(cb) that calls cb(value) for every element (internal iteration)"""
	__slots__ = ('run', 'used', 'buf', 'what')

	def __init__(self, run, what='iterator'):
		self.run = run
		self.used = False
		self.buf = None
		self.what = what


class Cls:
	def __init__(self, name, bases, ns, module=None, native=None):
		self.name = name
		self.bases = bases
		self.ns = ns
		self.module = module
		self.native = native       # native exception class mirrored, or None
		self.mro = [self] + _merge([list(b.mro) for b in bases] + [list(bases)])

	def lookup(self, name):
		for c in self.mro:
			if name in c.ns:
				return c.ns[name], c
		return None, None

	def issub(self, other):
		return other in self.mro

	def __repr__(self):
		return "<class '%s'>" % self.name


def _merge(seqs):
	res = []
	while True:
		seqs = [s for s in seqs if s]
		if not seqs:
			return res
		for s in seqs:
			c = s[0]
			if not any(c in t[1:] for t in seqs):
				break
		else:
			raise TypeError('inconsistent MRO')
		res.append(c)
		for s in seqs:
			if s[0] is c:
				del s[0]


class Func:
	def __init__(self, name, node, frame, module, defaults, kwdefaults, info):
		self.name = name
		self.node = node
		self.frame = frame          # defining frame (closure) or None at module level
		self.module = module
		self.defaults = defaults
		self.kwdefaults = kwdefaults
		self.info = info
		self.owner = None           # class for zero-argument super()
		self.attrs = {}

	def __repr__(self):
		return '<function %s>' % self.name


class Bound:
	__slots__ = ('func', 'self')

	def __init__(self, func, self_):
		self.func = func
		self.self = self_


class Prop:
	def __init__(self, fget=None, fset=None, fdel=None):
		self.fget, self.fset, self.fdel = fget, fset, fdel


class StaticM:
	def __init__(self, f):
		self.f = f


class ClassM:
	def __init__(self, f):
		self.f = f


class SuperV:
	def __init__(self, cls, obj):
		self.cls, self.obj = cls, obj


class Module:
	def __init__(self, name, path):
		self.name = name
		self.path = path
		self.ns = {}
		self.loading = False

	def __repr__(self):
		return '<module %s>' % self.name


class Builtin:
	"""engine function: fn(interp, args, kwargs)"""
	__slots__ = ('name', 'fn')

	def __init__(self, name, fn):
		self.name = name
		self.fn = fn

	def __repr__(self):
		return '<builtin %s>' % self.name


class Partial:
	__slots__ = ('f', 'args', 'kwargs')

	def __init__(self, f, args, kwargs):
		self.f, self.args, self.kwargs = f, args, kwargs


class NativeObj:
	"""an opaque native object (regex match, compiled pattern, ...), treated as immutable"""
	__slots__ = ('o',)

	def __init__(self, o):
		self.o = o

	def __repr__(self):
		return 'Native(%r)' % (self.o,)
