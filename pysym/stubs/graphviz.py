"""Recorder standing in for the graphviz package: keeps what it is handed; nothing is written or viewed."""
CALLS = []


class Source:
	def __init__(self, source, filename=None, directory=None, format=None, engine=None, encoding='utf-8', **kwargs):
		self._source = source
		self.filename = filename
		self.directory = directory
		self.format = format
		self.engine = engine
		self._encoding = encoding

	@property
	def source(self):
		s = self._source
		if not s.endswith('\n'):
			s = s + '\n'
		return s

	def render(self, filename=None, directory=None, view=False, cleanup=False, format=None, renderer=None, formatter=None,
			quiet=False, quiet_view=False, outfile=None, engine=None, **kwargs):
		if outfile is not None:
			target = str(outfile)
			fmt = format or self.format
			if fmt is None:
				fmt = target.rsplit('.', 1)[1]
		else:
			fmt = format or self.format or 'pdf'
			target = str(filename) + '.' + fmt
		CALLS.append(('render', self.source, target, fmt, view))
		return target

	def save(self, filename=None, directory=None, skip_existing=None):
		CALLS.append(('save', self.source, str(filename), None, False))
		return filename

	def view(self, filename=None, directory=None, **kwargs):
		CALLS.append(('view', self.source, str(filename), None, True))

	def pipe(self, format=None, encoding=None, **kwargs):
		CALLS.append(('pipe', self.source, None, format, False))
		return '<svg:' + self.source + '>'

	def _repr_svg_(self):
		CALLS.append(('pipe', self.source, None, 'svg', False))
		return '<svg:' + self.source + '>'


class Digraph(Source):
	pass
