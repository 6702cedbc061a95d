"""Model of hashlib: digests are collision-free tokens of the hashed content."""


class _Hash:
	def __init__(self, name, data=None):
		self._name = name
		self._parts = []
		if data is not None:
			self._parts.append(data)

	def update(self, data):
		self._parts.append(data)

	def digest(self):
		return memo_hash((self._name, tuple(self._parts)))

	def hexdigest(self):
		return memo_hash((self._name, tuple(self._parts)))


def sha256(data=None):
	return _Hash('sha256', data)


def sha1(data=None):
	return _Hash('sha1', data)


def md5(data=None):
	return _Hash('md5', data)


def sha512(data=None):
	return _Hash('sha512', data)


def new(name, data=None):
	return _Hash(name, data)
