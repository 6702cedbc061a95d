"""Shared inputs and reference models of the harnesses (run symbolically and, for replays, natively)."""


def pairs(n, loops=True):
	return [(i, j) for i in range(n) for j in range(n) if loops or i != j]


def matrix(sym, n, loops=True, prefix='e'):
	"""arbitrary adjacency matrix over n nodes"""
	m = [[False] * n for _ in range(n)]
	for i, j in pairs(n, loops):
		m[i][j] = sym.bool(prefix + str(i) + str(j))
	return m


def dag_matrix(sym, n, prefix='e'):
	"""arbitrary acyclic adjacency matrix, edges from smaller to larger numbers"""
	m = [[False] * n for _ in range(n)]
	for i in range(n):
		for j in range(i + 1, n):
			m[i][j] = sym.bool(prefix + str(i) + str(j))
	return m


def closure(m):
	"""transitive closure: r[i][j] iff there is a path of at least one edge from i to j"""
	n = len(m)
	r = [[bool(x) for x in row] for row in m]
	for k in range(n):
		for i in range(n):
			for j in range(n):
				r[i][j] = r[i][j] or (r[i][k] and r[k][j])
	return r


def distances(m, limit):
	"""d[k][i][j], k >= 1: the shortest path of at least one edge from i to j has k edges"""
	n = len(m)
	d = [None, [[bool(x) for x in row] for row in m]]
	seen = [[bool(x) for x in row] for row in m]
	for k in range(2, limit + 1):
		new = [[False] * n for _ in range(n)]
		for i in range(n):
			for j in range(n):
				for x in range(n):
					if d[k - 1][i][x] and m[x][j]:
						new[i][j] = True
		for i in range(n):
			for j in range(n):
				new[i][j] = new[i][j] and not seen[i][j]
		for i in range(n):
			for j in range(n):
				seen[i][j] = seen[i][j] or new[i][j]
		d.append(new)
	return d


def node_names(n):
	"""not in alphabetical order"""
	return ['n' + str(i) for i in [3, 1, 0, 4, 2, 6, 5, 7, 8, 9, 12, 10, 11, 15, 13, 14] + list(range(16, n)) if i < n]


def add_nodes(g, names):
	"""nodes that share labels, values and parameters with others"""
	for k, x in enumerate(names):
		g.add_node(name=x, label=[None, 'label', 'label', ''][k % 4], value=[None, 'label', 0, 0][k % 4], key=k % 2)


def build(Graph, names, m, shared=False, **kwargs):
	g = Graph(**kwargs)
	if shared:
		add_nodes(g, names)
	else:
		for x in names:
			g.add_node(name=x)
	for i in range(len(names)):
		for j in range(len(names)):
			if m[i][j]:
				g.connect(start=names[i], end=names[j])
	return g


def build_any_order(sym, Graph, names, parallel=False, loops=True, shared=False, **kwargs):
	"""graph with arbitrary edges; each edge is absent, inserted in a first pass, or in a second pass in the opposite order

	With parallel, the two passes are independent and the second one makes edges with an id of their own.
	"""
	n = len(names)
	m = [[False] * n for _ in range(n)]
	g = Graph(**kwargs)
	if shared:
		add_nodes(g, names)
	else:
		for x in names:
			g.add_node(name=x)
	for i, j in pairs(n, loops):
		if sym.bool('e' + str(i) + str(j)):
			m[i][j] = True
			g.connect(start=names[i], end=names[j])
	for i, j in reversed(pairs(n, loops)):
		late = sym.bool('f' + str(i) + str(j))
		if parallel:
			if late:
				m[i][j] = True
				g.connect(start=names[i], end=names[j], id='p')
		elif late and not m[i][j]:
			m[i][j] = True
			g.connect(start=names[i], end=names[j])
	return g, m


def count_names(nodes, name):
	k = 0
	for x in nodes:
		if x.name == name:
			k += 1
	return k


def state_of(g):
	"""everything the structure of a graph consists of"""
	nodes = [(x.name, x._label, x._value, x.index) for x in g.nodes]
	edges = [(e.id, e._label, e._value) for x in g.nodes for e in x.outward_edges]
	inward = [e.id for x in g.nodes for e in x.inward_edges]
	return nodes, edges, inward


def ask_everything(g):
	"""every structural question about a graph, so that answers that are remembered are remembered now"""
	for x in g.nodes:
		x.parents, x.children, x.siblings, x.co_parents, x.ancestors, x.descendants, x.num_descendants
		x.is_in_loop(), x.has_parents(), x.has_children(), x.edges
		g.get_ancestors(x), g.get_descendants(x), g.get_siblings(x), g.get_spouses(x)
	g.roots, g.absolute_roots, g.leaves, g.loop_nodes, g.edges, g.edges_dict


def toggled(sym, g, m, names, loops=True):
	"""remove any of the edges and add any that are missing, in one pass; the new matrix"""
	m2 = [list(row) for row in m]
	for i, j in pairs(len(names), loops):
		if sym.bool('toggle' + str(i) + str(j)):
			if m[i][j]:
				g.disconnect(g.edges_dict[(names[i], names[j], None)])
				m2[i][j] = False
			else:
				g.connect(names[i], names[j])
				m2[i][j] = True
	return m2


SHAPES = 5


def sparse_matrix(sym, n, shape, extra):
	"""a fixed shape of n nodes (n even) with up to so many arbitrary extra edges: longer paths than arbitrary matrices allow"""
	m = [[False] * n for _ in range(n)]
	h = n // 2
	if shape == 0:  # path
		base = [(i, i + 1) for i in range(n - 1)]
	elif shape == 1:  # path against the order of the nodes
		base = [(i + 1, i) for i in range(n - 1)]
	elif shape == 2:  # ring
		base = [(i, (i + 1) % n) for i in range(n)]
	elif shape == 3:  # two rings, a node between them
		base = [(i, (i + 1) % h) for i in range(h)] + [(h - 1, n - 1), (n - 1, h)] + [(i, i + 1) for i in range(h, n - 2)] + [(n - 2, h)]
	else:  # tree
		base = [((i - 1) // 2, i) for i in range(1, n)]
	for i, j in base:
		m[i][j] = True
	for k in range(extra):
		x = sym.choice('extra' + str(k), [None] + pairs(n))
		for i, j in pairs(n):
			if not m[i][j]:
				m[i][j] = x == (i, j)
	return m


def sparse_with(sym, n, shape, extra):
	"""a fixed shape of n nodes and any of the extra edges"""
	m = sparse_matrix(sym, n, shape, 0)
	for i, j in extra:
		if not m[i][j]:
			m[i][j] = sym.bool('e' + str(i) + str(j))
	return m


LONGER_SHAPES = 8


def longer_matrix(sym, n, shape):
	"""many nodes: the shapes above, a node with many children, with many parents, and no edges at all; any of three more edges"""
	extra = [(0, n - 1), (n - 1, n // 2), (2, 2)]
	if shape < SHAPES:
		return sparse_with(sym, n, shape, extra)
	m = [[False] * n for _ in range(n)]
	for i in range(n):
		if shape == 5:
			m[n // 2][i] = i != n // 2
		elif shape == 6:
			m[i][n // 2] = i != n // 2
	for i, j in extra:
		if not m[i][j]:
			m[i][j] = sym.bool('e' + str(i) + str(j))
	return m
