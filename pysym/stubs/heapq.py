"""Model of heapq: the list is kept sorted, which is a heap; the order of the smallest elements is the same."""


def heapify(heap):
	heap.sort()


def heappush(heap, item):
	k = 0
	for x in heap:
		if not item < x:
			k += 1
	heap.insert(k, item)


def heappop(heap):
	if not heap:
		raise IndexError('index out of range')
	return heap.pop(0)


def heappushpop(heap, item):
	heappush(heap, item)
	return heap.pop(0)


def heapreplace(heap, item):
	result = heappop(heap)
	heappush(heap, item)
	return result


def nsmallest(n, iterable, key=None):
	return sorted(iterable, key=key)[:n]


def nlargest(n, iterable, key=None):
	return sorted(iterable, key=key, reverse=True)[:n]


def merge(*iterables, key=None, reverse=False):
	result = []
	for it in iterables:
		result.extend(it)
	return iter(sorted(result, key=key, reverse=reverse))
