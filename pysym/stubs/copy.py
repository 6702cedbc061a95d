"""Model of the copy module."""


class Error(Exception):
	pass


def deepcopy(x, memo=None):
	return copy_deepcopy(x, memo)


def copy(x):
	return copy_copy(x)
