"""Model of base32hex: an injective encoding."""


class _Text:
	def __init__(self, token):
		self._token = token

	def replace(self, old, new, count=-1):
		return self

	def __hash__(self):
		return hash(self._token)

	def __eq__(self, other):
		return isinstance(other, _Text) and self._token == other._token


def b32encode(token):
	return _Text(token)
