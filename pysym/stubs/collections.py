"""Model of collections."""
OrderedDict = dict


def deque(iterable=(), maxlen=None):
	return _Deque(iterable, maxlen)


class _Deque:
	def __init__(self, iterable=(), maxlen=None):
		self._l = list(iterable)
		self.maxlen = maxlen
		self._trim()

	def _trim(self, left=True):
		if self.maxlen is not None:
			while len(self._l) > self.maxlen:
				self._l.pop(0 if left else -1)

	def append(self, x):
		self._l.append(x)
		self._trim()

	def appendleft(self, x):
		self._l.insert(0, x)
		self._trim(False)

	def pop(self):
		return self._l.pop()

	def popleft(self):
		return self._l.pop(0)

	def extend(self, it):
		self._l.extend(it)
		self._trim()

	def extendleft(self, it):
		for x in it:
			self.appendleft(x)

	def insert(self, i, x):
		if self.maxlen is not None and len(self._l) >= self.maxlen:
			raise IndexError('deque already at its maximum size')
		self._l.insert(i, x)

	def index(self, *args):
		return self._l.index(*args)

	def rotate(self, n=1):
		if len(self._l) > 0:
			n = n % len(self._l)
			if n != 0:
				self._l = self._l[-n:] + self._l[:-n]

	def __iadd__(self, it):
		self.extend(it)
		return self

	def __add__(self, other):
		return _Deque(self._l + other._l, self.maxlen)

	def __eq__(self, other):
		return isinstance(other, _Deque) and self._l == other._l

	def __reversed__(self):
		return reversed(self._l)

	def __delitem__(self, i):
		del self._l[i]

	def __repr__(self):
		return 'deque(' + repr(self._l) + (')' if self.maxlen is None else ', maxlen=' + str(self.maxlen) + ')')

	def clear(self):
		self._l.clear()

	def remove(self, x):
		self._l.remove(x)

	def copy(self):
		return _Deque(self._l, self.maxlen)

	def reverse(self):
		self._l.reverse()

	def count(self, x):
		return self._l.count(x)

	def __len__(self):
		return len(self._l)

	def __bool__(self):
		return len(self._l) > 0

	def __iter__(self):
		return iter(self._l)

	def __contains__(self, x):
		return x in self._l

	def __getitem__(self, i):
		return self._l[i]

	def __setitem__(self, i, v):
		self._l[i] = v


def defaultdict(factory=None, *args, **kwargs):
	d = dict(*args, **kwargs)
	dict_set_default_factory(d, factory)
	return d


def Counter(iterable=()):
	d = dict()
	dict_set_default_factory(d, int)
	if isinstance(iterable, dict):
		for k, v in iterable.items():
			d[k] = v
	else:
		for x in iterable:
			d[x] = d.get(x, 0) + 1
	return d


def namedtuple(name, fields, **kwargs):
	if isinstance(fields, str):
		fields = fields.replace(',', ' ').split()
	return _make_namedtuple(name, list(fields))


def _make_namedtuple(name, fields):
	class NT:
		_fields = tuple(fields)

		def __init__(self, *args, **kwargs):
			vals = list(args)
			for f in fields[len(vals):]:
				vals.append(kwargs[f])
			self._t = tuple(vals)
			for f, v in zip(fields, vals):
				setattr(self, f, v)

		def __iter__(self):
			return iter(self._t)

		def __getitem__(self, i):
			return self._t[i]

		def __len__(self):
			return len(self._t)

		def __eq__(self, other):
			return isinstance(other, NT) and self._t == other._t

		def __hash__(self):
			return hash(self._t)
	return NT
