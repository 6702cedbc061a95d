"""Model of the pickle module: a round trip is a structural copy through the same state methods."""
HIGHEST_PROTOCOL = 5
DEFAULT_PROTOCOL = 4


class PicklingError(Exception):
	pass


def dumps(obj, protocol=None, **kwargs):
	return pickle_dumps(obj)


def loads(data, **kwargs):
	return pickle_loads(data)
