"""Model of the random module: the numbers of every stream are arbitrary (chosen by the solver), equal for equal seeds.

Also used natively for replaying counterexamples (sym_draw and sym_draw_index then come from the recorded model).
"""
DRAWS = []     # every number in [0, 1) drawn so far


class Random:
	def __init__(self, seed=None):
		self._stream = 'fresh' if seed is None else f's{seed!r}'
		self._n = 0

	def seed(self, a=None, version=2):
		self._stream = 'fresh' if a is None else f's{a!r}'
		self._n = 0

	def random(self):
		i = self._n
		self._n = i + 1
		x = sym_draw(self._stream, i)
		DRAWS.append(x)
		return x

	def uniform(self, a, b):
		return a + (b - a) * self.random()

	def _index(self, n):
		i = self._n
		self._n = i + 1
		return sym_draw_index(self._stream, i, n)

	def randrange(self, start, stop=None):
		if stop is None:
			start, stop = 0, start
		return start + self._index(stop - start)

	def randint(self, a, b):
		return self.randrange(a, b + 1)

	def choice(self, seq):
		return seq[self._index(len(seq))]

	def shuffle(self, x):
		for i in range(len(x) - 1, 0, -1):
			j = self._index(i + 1)
			x[i], x[j] = x[j], x[i]

	def sample(self, population, k):
		pool = list(population)
		self.shuffle(pool)
		return pool[:k]

	def choices(self, population, weights=None, cum_weights=None, k=1):
		return [self.choice(population) for _ in range(k)]


_global = Random()
SystemRandom = Random


def seed(a=None, version=2):
	_global.seed(a)


def random():
	return _global.random()


def uniform(a, b):
	return _global.uniform(a, b)


def randrange(start, stop=None):
	return _global.randrange(start, stop)


def randint(a, b):
	return _global.randint(a, b)


def choice(seq):
	return _global.choice(seq)


def shuffle(x):
	_global.shuffle(x)


def sample(population, k):
	return _global.sample(population, k)


def _reset():
	_global.seed()
	del DRAWS[:]
