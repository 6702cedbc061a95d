"""Model of functools."""


def wraps(wrapped, assigned=None, updated=None):
	def decorate(f):
		return f
	return decorate


def update_wrapper(wrapper, wrapped, assigned=None, updated=None):
	return wrapper


class partial:
	def __init__(self, func, *args, **kwargs):
		self.func = func
		self.args = args
		self.keywords = kwargs

	def __call__(self, *args, **kwargs):
		kw = dict(self.keywords)
		kw.update(kwargs)
		return self.func(*(self.args + args), **kw)


_none = object()


def reduce(function, iterable, initial=_none):
	acc = initial
	for x in iterable:
		if acc is _none:
			acc = x
		else:
			acc = function(acc, x)
	if acc is _none:
		raise TypeError('reduce() of empty iterable with no initial value')
	return acc


def cache(f):
	memo = {}

	def call(*args):
		if args not in memo:
			memo[args] = f(*args)
		return memo[args]
	return call


def lru_cache(maxsize=128, typed=False):
	if callable(maxsize):
		return cache(maxsize)

	def decorate(f):
		return cache(f)
	return decorate


class _Key:
	def __init__(self, f, x):
		self.f = f
		self.x = x

	def __lt__(self, other):
		return self.f(self.x, other.x) < 0

	def __gt__(self, other):
		return self.f(self.x, other.x) > 0

	def __eq__(self, other):
		return self.f(self.x, other.x) == 0


def cmp_to_key(f):
	def key(x):
		return _Key(f, x)
	return key


def total_ordering(cls):
	if '__lt__' in cls.__dict__:
		if not hasattr(cls, '__gt__'):
			cls.__gt__ = lambda self, other: not (self < other or self == other)
		if not hasattr(cls, '__le__'):
			cls.__le__ = lambda self, other: self < other or self == other
		if not hasattr(cls, '__ge__'):
			cls.__ge__ = lambda self, other: not self < other
	return cls


def cached_property(f):
	name = f.__name__

	def get(self):
		values = self.__dict__
		if name not in values:
			values[name] = f(self)
		return values[name]
	return property(get)
