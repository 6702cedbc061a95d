"""Model of itertools."""


def chain(*its):
	for it in its:
		for x in it:
			yield x


def _from_iterable(its):
	for it in its:
		for x in it:
			yield x


chain.from_iterable = _from_iterable


def product(*its, repeat=1):
	pools = [list(it) for it in its] * repeat
	result = [()]
	for pool in pools:
		result = [x + (y,) for x in result for y in pool]
	for x in result:
		yield x


def combinations(iterable, r):
	pool = list(iterable)
	n = len(pool)

	def go(start, k):
		if k == 0:
			return [()]
		out = []
		for i in range(start, n):
			for rest in go(i + 1, k - 1):
				out.append((pool[i],) + rest)
		return out
	for x in go(0, r):
		yield x


def permutations(iterable, r=None):
	pool = list(iterable)
	n = len(pool)
	if r is None:
		r = n

	def go(used, k):
		if k == 0:
			return [()]
		out = []
		for i in range(n):
			if i not in used:
				for rest in go(used + [i], k - 1):
					out.append((pool[i],) + rest)
		return out
	for x in go([], r):
		yield x


def islice(it, *args):
	if len(args) == 1:
		start, stop = 0, args[0]
	else:
		start, stop = args[0] or 0, args[1]
	i = 0
	for x in it:
		if stop is not None and i >= stop:
			break
		if i >= start:
			yield x
		i += 1


def zip_longest(*its, fillvalue=None):
	lists = [list(x) for x in its]
	n = max([len(x) for x in lists])
	for i in range(n):
		yield tuple([x[i] if i < len(x) else fillvalue for x in lists])


def repeat(x, times):
	for _ in range(times):
		yield x


def accumulate(it, func=None):
	first = True
	acc = None
	for x in it:
		if first:
			acc = x
			first = False
		elif func is None:
			acc = acc + x
		else:
			acc = func(acc, x)
		yield acc


def takewhile(pred, it):
	for x in it:
		if not pred(x):
			break
		yield x


def dropwhile(pred, it):
	dropping = True
	for x in it:
		if dropping and pred(x):
			continue
		dropping = False
		yield x


def filterfalse(pred, it):
	for x in it:
		if not pred(x):
			yield x


def starmap(f, it):
	for x in it:
		yield f(*x)


def pairwise(it):
	l = list(it)
	for i in range(len(l) - 1):
		yield (l[i], l[i + 1])


def groupby(it, key=None):
	groups = []
	for x in it:
		k = x if key is None else key(x)
		if len(groups) > 0 and groups[-1][0] == k:
			groups[-1][1].append(x)
		else:
			groups.append((k, [x]))
	for k, xs in groups:
		yield k, iter(xs)


def compress(data, selectors):
	for x, y in zip(data, selectors):
		if y:
			yield x


def tee(it, n=2):
	xs = list(it)
	return tuple([iter(xs) for _ in range(n)])


class count:
	def __init__(self, start=0, step=1):
		self._n, self._step = start, step

	def __iter__(self):
		return self

	def __next__(self):
		n = self._n
		self._n = n + self._step
		return n


class cycle:
	def __init__(self, it):
		self._xs, self._i = list(it), 0

	def __iter__(self):
		return self

	def __next__(self):
		if len(self._xs) == 0:
			raise StopIteration
		x = self._xs[self._i]
		self._i = (self._i + 1) % len(self._xs)
		return x
