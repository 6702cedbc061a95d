"""Model of the warnings module: every warning is shown (filters other than catch_warnings are not modelled)."""
_recorders = []


class WarningMessage:
	def __init__(self, message, category):
		self.message = message
		self.category = category


def warn(message, category=None, stacklevel=1, source=None, **kwargs):
	if category is None:
		category = UserWarning
	if not isinstance(message, Warning):
		message = category(message)
	if len(_recorders) > 0:
		_recorders[-1].append(WarningMessage(message, category))


class catch_warnings:
	def __init__(self, record=False, **kwargs):
		self._record = record

	def __enter__(self):
		log = []
		_recorders.append(log)
		if self._record:
			return log
		return None

	def __exit__(self, *exc):
		_recorders.pop()
		return False


def simplefilter(*args, **kwargs):
	pass


def filterwarnings(*args, **kwargs):
	pass


def resetwarnings():
	pass
