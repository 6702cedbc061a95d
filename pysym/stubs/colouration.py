"""Model of the colouration library: colours are terms of a free algebra (equal terms denote equal colours)."""

NAMES = {
	'red': '#ff0000', 'green': '#008000', 'blue': '#0000ff', 'black': '#000000', 'white': '#ffffff', 'yellow': '#ffff00',
	'navy': '#000080', 'orange': '#ffa500', 'purple': '#800080', 'gray': '#808080', 'grey': '#808080', 'lime': '#00ff00',
	'aqua': '#00ffff', 'cyan': '#00ffff', 'magenta': '#ff00ff', 'teal': '#008080', 'maroon': '#800000',
}
SCHEMES = {
	'pensieve2': ['#8dd3c7', '#bebada', '#fb8072', '#80b1d3', '#fdb462', '#b3de69', '#fccde5', '#bc80bd', '#ccebc5', '#ffed6f'],
	'pensieve': ['#fbb4ae', '#ccebc5', '#decbe4', '#fed9a6', '#fff2ae', '#e5d8bd', '#fddaec'],
}


def _norm(x):
	"""numbers that denote the same amount are the same number (1, 1.0 and results of different roundings)"""
	if isinstance(x, (int, float)) and not isinstance(x, bool):
		return round(x * 1.0, 9) + 0.0
	return x


class _Term:
	"""a number about which only its derivation is known: factor * base + rest, or whatever its base says"""
	def __init__(self, t, factor=1.0, rest=0.0):
		self.t = t
		self.factor = factor
		self.rest = rest

	def key(self):
		return 'linear', self.t, _norm(self.factor), _norm(self.rest)

	def __mul__(self, other):
		if isinstance(other, _Term):
			return _Term(('mul', self.key(), other.key()))
		return _Term(self.t, self.factor * other, self.rest * other)

	__rmul__ = __mul__

	def __truediv__(self, other):
		if isinstance(other, _Term):
			return _Term(('div', self.key(), other.key()))
		return _Term(self.t, self.factor / other, self.rest / other)

	def __add__(self, other):
		if isinstance(other, _Term):
			if other.t == self.t:
				return _Term(self.t, self.factor + other.factor, self.rest + other.rest)
			return _Term(('add', self.key(), other.key()))
		return _Term(self.t, self.factor, self.rest + other)

	__radd__ = __add__

	def __neg__(self):
		return self * -1

	def __sub__(self, other):
		return self + other * -1

	def __rsub__(self, other):
		return self * -1 + other

	def __pow__(self, other):
		return _Term(('pow', self.key(), _norm(other)))

	def __lt__(self, other):
		"""known between the lightness of a colour and that of a lighter or darker version of it"""
		if self.t[0] != 'light' or other.t[0] != 'light':
			raise TypeError('order of numbers that are not known')
		(base, rank), (other_base, other_rank) = _lightness(self.t[1]), _lightness(other.t[1])
		if base != other_base:
			raise TypeError('order of numbers that are not known')
		return rank < other_rank

	def __gt__(self, other):
		return other < self


def _lightness(v):
	if isinstance(v, tuple) and v[0] in ('lighten', 'darken') and v[3] is None and v[2] > 0:
		return v[1], v[2] if v[0] == 'lighten' else -v[2]
	return v, 0


def _num(x):
	if isinstance(x, _Term):
		return x.key()
	return _norm(x)


def _ratio(ratio):
	if isinstance(ratio, (int, float)):
		return _norm(min(1.0, max(-1.0, ratio)))
	return ratio


class Colour:
	def __init__(self, obj=None, red=None, green=None, blue=None, hexadecimal=None, name=None, id=None, scheme=None, weight=1.0):
		self._id = id
		self._scheme = scheme
		self._weight = weight
		if obj is not None:
			if isinstance(obj, Colour):
				self._v = obj._v
				self._name = None
				return
			elif isinstance(obj, str):
				if obj.startswith('#'):
					hexadecimal = obj
				else:
					name = obj
			elif isinstance(obj, (list, tuple)):
				red, green, blue = obj
			else:
				raise TypeError(f'obj should be one of str, Colour, tuple, or list but it is {type(obj)}')
		if red is not None:
			self._v = ('rgb', red, green, blue)
		elif hexadecimal is not None:
			self._v = hexadecimal.lower()
		elif name is not None:
			self._v = NAMES[name.lower()]
		else:
			raise ValueError(f'obj: "{obj}" not acceptable. It is of type "{type(obj)}"')
		self._name = name

	def _new(self, v, keep_id=True):
		result = Colour('#000000', weight=self._weight)
		result._v = v
		result._name = self._name
		if keep_id:
			result._id = self._id
			result._scheme = self._scheme
		return result

	def _change(self, how, ratio, amount, keep_id):
		ratio, amount = _ratio(ratio) if amount is None else None, _num(amount)
		if amount is None and ratio == 0:
			return self.copy(keep_id)
		return self._new((how, self._v, ratio, amount), keep_id)

	@property
	def id(self):
		return self._id

	@property
	def weight(self):
		return self._weight

	@property
	def scheme(self):
		return self._scheme

	def copy(self, keep_id=True):
		return self._new(self._v, keep_id)

	def darken(self, ratio=0.2, amount=None, keep_id=True):
		return self._change('darken', ratio, amount, keep_id)

	def lighten(self, ratio=0.2, amount=None, keep_id=True):
		return self._change('lighten', ratio, amount, keep_id)

	def pale(self, ratio=0.2, amount=None, keep_id=True):
		result = self.copy(keep_id)
		result.saturation = self.saturation - (self.saturation * _ratio(ratio) if amount is None else amount)
		return result

	def saturate(self, ratio=0.2, amount=None, keep_id=True):
		return self._change('saturate', ratio, amount, keep_id)

	def increase_hue(self, amount=0.1, keep_id=False):
		result = self.copy(keep_id)
		result.hue = result.hue + amount
		return result

	def invert(self):
		if isinstance(self._v, tuple) and self._v[0] == 'invert':
			return self._new(self._v[1], False)
		return self._new(('invert', self._v), False)

	@property
	def farthest_gray(self):
		return self._new(('gray', self._v), False)

	def mix(self=None, colours=None):
		if colours is None or colours == []:
			return self.copy(keep_id=True)
		if isinstance(colours, Colour):
			colours = [colours]
		if self is not None:
			colours = [self] + colours
		# by weight, in any order
		parts = {}
		for c in colours:
			parts[c._v] = parts.get(c._v, 0) + c._weight
		total = sum(parts.values())
		if len(parts) == 1:
			result = colours[0]._new(colours[0]._v, False)
		else:
			result = colours[0]._new(('mix', tuple(sorted([(repr(v), _norm(w / total)) for v, w in parts.items()]))), False)
		result._weight = total
		return result

	@property
	def saturation(self):
		return _Term(('sat', self._v))

	@saturation.setter
	def saturation(self, x):
		if _num(x) != ('linear', ('sat', self._v), 1.0, 0.0):
			self._v = ('setsat', self._v, _num(x))

	@property
	def lightness(self):
		return _Term(('light', self._v))

	@lightness.setter
	def lightness(self, x):
		if _num(x) != ('linear', ('light', self._v), 1.0, 0.0):
			self._v = ('setlight', self._v, _num(x))

	@property
	def hue(self):
		return _Term(('hueof', self._v))

	@hue.setter
	def hue(self, x):
		if _num(x) != ('linear', ('hueof', self._v), 1.0, 0.0):
			self._v = ('sethue', self._v, _num(x))

	@property
	def hexadecimal(self):
		if isinstance(self._v, str):
			return self._v
		return f'#<{self._v}>'

	def get_hexadecimal(self, opacity=None):
		if opacity is None:
			return self.hexadecimal
		o = int(min(max(0.0, opacity * 255), 255))
		return self.hexadecimal + '{:02x}'.format(o)

	def __getstate__(self):
		return self._v, self._name, self._id, self._weight, None

	def __setstate__(self, state):
		self._v, self._name, self._id, self._weight, self._scheme = state

	def __str__(self):
		return f'{self._name}: {self.hexadecimal}'

	def __repr__(self):
		return str(self)

	def __eq__(self, other):
		if not isinstance(other, Colour):
			other = Colour(obj=other)
		return self._v == other._v

	def __hash__(self):
		return hash(self._v)


class Scheme:
	def __init__(self, colours=None, name='pastel19', normalize_lightness=0.5):
		self._name = name
		if colours is None:
			base = [Colour(hexadecimal=h) for h in SCHEMES[name.lower()]]
		else:
			base = colours
		self._colours = []
		for i, c in enumerate(base):
			v = c._v if normalize_lightness is None else ('scheme', i, c._v)
			x = Colour('#000000', id=c._id or i, scheme=None)
			x._v = v
			self._colours.append(x)

	@property
	def colours(self):
		return list(self._colours)

	@property
	def num_colours(self):
		return len(self._colours)
