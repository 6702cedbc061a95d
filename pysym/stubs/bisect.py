"""Model of bisect for sorted lists."""


def bisect_left(a, x, lo=0, hi=None, key=None):
	k = lo
	for y in a[lo:hi]:
		if (y if key is None else key(y)) < x:
			k += 1
	return k


def bisect_right(a, x, lo=0, hi=None, key=None):
	k = lo
	for y in a[lo:hi]:
		if not x < (y if key is None else key(y)):
			k += 1
	return k


bisect = bisect_right


def insort_right(a, x, lo=0, hi=None, key=None):
	a.insert(bisect_right(a, x if key is None else key(x), lo, hi, key), x)


def insort_left(a, x, lo=0, hi=None, key=None):
	a.insert(bisect_left(a, x if key is None else key(x), lo, hi, key), x)


insort = insort_right
