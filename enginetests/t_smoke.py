def basic(sym):
	a = sym.bool('a')
	b = sym.bool('b')
	l = [1]
	if a:
		l.append(2)
	if b:
		l.append(3)
	x = len(l)
	sym.check(x == 1 + a + b, 'length')
	n = sym.choice('n', ['x', 'y', 'z'])
	d = {}
	d[n] = 5
	d['x'] = 7
	sym.check(d.get('x') == 7, 'd')
	sym.check(len(d) == (1 if n == 'x' else 2), 'dl')
	s = sym.str('s', 0, 3, 'ab"')
	sym.check((s + n).endswith(n), 'ends')
	sym.observe('l', (l, d, s))
