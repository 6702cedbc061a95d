"""Model of contextlib."""


class suppress:
	def __init__(self, *excs):
		self._excs = excs

	def __enter__(self):
		return None

	def __exit__(self, typ, exc, tb):
		return exc is not None and isinstance(exc, self._excs)


class nullcontext:
	def __init__(self, value=None):
		self._value = value

	def __enter__(self):
		return self._value

	def __exit__(self, *a):
		return False
