"""dataclasses is not modelled"""
raise NotImplementedError('dataclasses')
