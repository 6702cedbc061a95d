# pure oracle
"""A reader of DOT statements by the rules of the language (quoted strings, identifiers, attribute lists)."""

def tokens(text):
	"""[(kind, value)] with kinds 'q' (quoted string), 'w' (word), 'h' (html string), 'p' (punctuation); None if ill-formed

	In a quoted string, a backslash before a double quote stands for the double quote, a backslash before a line break
	continues the line, and every other backslash stands for itself (it is left to the layout program) and takes the character
	after it along.
	"""
	result = []
	i = 0
	n = len(text)
	while i < n:
		c = text[i]
		if c in ' \t\n':
			i += 1
		elif c == '"':
			value = ''
			i += 1
			while i < n and text[i] != '"':
				if text[i] == '\\' and i + 1 < n:
					if text[i + 1] == '"':
						value += '"'
					elif text[i + 1] == '\n':
						value += ''
					else:
						value += text[i:i + 2]
					i += 2
				else:
					value += text[i]
					i += 1
			if i >= n:
				return None
			result.append(('q', value))
			i += 1
		elif c == '<':
			depth = 0
			j = i
			while j < n:
				if text[j] == '<':
					depth += 1
				elif text[j] == '>':
					depth -= 1
				j += 1
				if depth == 0:
					break
			if depth != 0:
				return None
			result.append(('h', text[i:j]))
			i = j
		elif text[i:i + 2] == '->':
			result.append(('p', '->'))
			i += 2
		elif c in '[]{}=;,':
			result.append(('p', c))
			i += 1
		else:
			j = i
			while j < n and text[j] not in ' \t\n"<[]{}=;,':
				j += 1
			result.append(('w', text[i:j]))
			i = j
	return tuple(result)


def attributes(toks, i):
	"""the attribute list that starts at token i: ([(key, value)], index behind it) or None"""
	result = []
	if i >= len(toks) or toks[i] != ('p', '['):
		return (), i
	i += 1
	while i < len(toks) and toks[i] != ('p', ']'):
		if toks[i] == ('p', ',') or toks[i] == ('p', ';'):
			i += 1
			continue
		if i + 2 >= len(toks) or toks[i][0] == 'p' or toks[i + 1] != ('p', '=') or toks[i + 2][0] == 'p':
			return None
		result.append((toks[i][1], toks[i + 2][1]))
		i += 3
	if i >= len(toks):
		return None
	return tuple(result), i + 1


def statement(text):
	"""('node', name, attributes) or ('edge', start, end, attributes) or None if it is anything else"""
	toks = tokens(text)
	if toks is None or len(toks) == 0 or toks[0][0] == 'p':
		return None
	if len(toks) >= 3 and toks[1] == ('p', '->'):
		if toks[2][0] == 'p':
			return None
		head, i = ('edge', toks[0][1], toks[2][1]), 3
	else:
		head, i = ('node', toks[0][1]), 1
	rest = attributes(toks, i)
	if rest is None or rest[1] != len(toks):
		return None
	return head + (rest[0],)


def header(text):
	"""(words before the brace, ((statement or attribute of the graph, value), ...)) of a DOT text without nodes and edges"""
	toks = tokens(text)
	if toks is None:
		return None
	first = []
	i = 0
	while i < len(toks) and toks[i] != ('p', '{'):
		first.append(toks[i][1])
		i += 1
	i += 1
	result = []
	while i < len(toks):
		t = toks[i]
		if t == ('w', 'graph'):
			rest = attributes(toks, i + 1)
			if rest is None:
				return None
			result += [('graph ' + k, v) for k, v in rest[0]]
			i = rest[1]
		elif i + 2 < len(toks) and t[0] == 'w' and toks[i + 1] == ('p', '=') and toks[i + 2][0] != 'p':
			result.append((t[1], toks[i + 2][1]))
			i += 3
		elif t[0] == 'p' and t[1] in '{};':
			i += 1
		else:
			return None
	return tuple(first), tuple(result)


def settings(text):
	"""(value of rankdir, value of pad, value of size, number of edges) of a DOT text; None for what is not set"""
	toks = tokens(text)
	if toks is None:
		return None
	result = {}
	depth = 0
	for i in range(len(toks)):
		if toks[i] == ('p', '['):
			depth += 1
		elif toks[i] == ('p', ']'):
			depth -= 1
		elif depth == 0 and toks[i] == ('p', '='):
			if toks[i - 1][1] in result:
				return None
			result[toks[i - 1][1]] = toks[i + 1][1]
	arrows = len([x for x in toks if x == ('p', '->')])
	return result.get('rankdir'), result.get('pad'), result.get('size'), arrows
