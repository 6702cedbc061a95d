"""Behaviour-preserving rewrites of the repository; the checks must stay quiet on them.

usage: python3-vt tools/refactors.py [name ...]   (works on scratch copies of /repo under /tmp)
"""
import os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = []


def r(name, checks, file, *pairs):
    R.append((name, checks.split(), file, pairs))


B, N, E, O, W = 'abstract/_BasicGraph.py', 'abstract/Node.py', 'abstract/Edge.py', 'abstract/_GraphObj.py', 'abstract/_GraphWithoutDisplay.py'

r('desc_worklist', 'C04 C06 C07 C10 C20 C21', B, ("""		node = self.get_node(node)
		nodes_travelled = nodes_travelled or []
		nodes_travelled.append(node)
		children = self.get_children(node=node)
		if len(children) == 0:
			return []
		else:
			descendants = []
			for child in children:
				if child not in nodes_travelled:
					if child not in descendants:
						descendants.append(child)
					child_descendants = self._get_descendants(node=child, nodes_travelled=nodes_travelled)
					for descendant in child_descendants:
						if descendant not in descendants:
							descendants.append(descendant)
			return descendants
""", """		node = self.get_node(node)
		seen = {node.id} | {x.id for x in (nodes_travelled or [])}
		pending = list(reversed(self.get_children(node=node)))
		descendants = []
		while pending:
			child = pending.pop()
			if child.id in seen:
				continue
			seen.add(child.id)
			descendants.append(child)
			pending.extend(reversed(self.get_children(node=child)))
		return descendants
"""))
r('anc_same_order', 'C04 C06 C21', B, ("""			ancestors = []
			for parent in parents:
				if parent not in ancestors:
					ancestors.append(parent)

				if parent not in nodes_travelled:
					parent_ancestors = self._get_ancestors(node=parent, nodes_travelled=nodes_travelled)
					for ancestor in parent_ancestors:
						if ancestor not in ancestors:
							ancestors.append(ancestor)
			return ancestors
""", """			ancestors = OrderedDict()
			for parent in parents:
				ancestors.setdefault(parent.id, parent)
				if parent in nodes_travelled:
					continue
				ancestors.update({
					x.id: x for x in self._get_ancestors(parent, nodes_travelled) if x.id not in ancestors
				})
			return list(ancestors.values())
"""), ("import warnings\n", "import warnings\nfrom collections import OrderedDict\n"))
r('roots_comp', 'C07 C20', B, ("""		possible_roots = self.nodes.copy()
		for node in self.nodes:
			if node in possible_roots:
				for descendant in self.get_descendants(node=node, distance=False):
					if descendant in possible_roots:
						possible_roots.remove(descendant)
		return possible_roots
""", """		covered = set()
		for node in self.nodes:
			if node.name in covered:
				continue
			covered.update(descendant.name for descendant in self.get_descendants(node=node, distance=False))
		return [node for node in self.nodes if node.name not in covered]
"""))
r('filter_sets', 'C10', B, ("""		relatives = {}
		for x in nodes:
			node = self.get_node(node=x)
			name = node.name
			relatives[name] = 1
			if direction in ('to', 'to_and_from'):
				for ancestor in node.ancestors:
					relatives[ancestor.name] = 1

			if direction in ('from', 'to_and_from'):
				for descendant in node.descendants:
					relatives[descendant.name] = 1

		if filter_type == 'include':
			to_delete = [name for name in self.nodes_dict.keys() if name not in relatives]
		else:
			to_delete = relatives.keys()
""", """		kept = set()
		for node in map(self.get_node, nodes):
			kept.add(node.name)
			if direction in {'to', 'to_and_from'}:
				kept |= {x.name for x in node.ancestors}
			if direction in {'from', 'to_and_from'}:
				kept = kept.union(x.name for x in node.descendants)
		every = set(self.nodes_dict)
		to_delete = every - kept if filter_type == 'include' else every & kept
"""))
r('connect_helper', 'C02 C03 C24', B, ("""			if if_edge_exists == 'ignore':
				pass
			elif if_edge_exists == 'warn':
				warnings.warn(f'Warning! Edge: {edge_id} already exists!')
			else:
				raise ValueError(f'Error! Edge {edge_id} already exists!')

			edge = start.get_outward_edge(id=edge_id)
			if style is not None:
				edge.style = style
			if label is not None:
				edge.label = label
			if value is not None:
				edge.value = value
""", """			self._handle_duplicate(if_edge_exists, 'Edge {} already exists!'.format(edge_id), ValueError)
			edge = start.get_outward_edge(id=edge_id)
			for attribute, new in (('style', style), ('label', label), ('value', value)):
				if new is not None:
					setattr(edge, attribute, new)
"""), ("	@staticmethod\n	def disconnect(", """	@staticmethod
	def _handle_duplicate(policy, message, error):
		if policy == 'ignore':
			return
		if policy != 'warn':
			raise error('Error! %s' % message)
		warnings.warn('Warning! ' + message)

	@staticmethod
	def disconnect("""))
r('add_node_early', 'C01 C12', B, ("""			if name in self.nodes_dict:
				if if_node_exists == 'ignore':
					pass
				elif if_node_exists == 'warn':
					warnings.warn(f'Warning! A node with name "{name}" already exists in graph!')
				else:
					raise KeyError(f'duplicate node id:"{name}"!')

				node = self.get_node(node=name)
				if style is not None:
					node.style = style
				if label is not None:
					node.label = label
				if value is not None:
					node.value = value
				return node

			else:
				node = Node(
					name=name, graph=self, label=label, value=value,
					style=style, index=self.generate_node_index(), **kwargs
				)
				self.nodes_dict[name] = node
				return node
""", """			node = self.nodes_dict.get(name)
			if node is None:
				options = dict(name=name, graph=self, label=label, value=value, style=style)
				options.update(kwargs, index=self.generate_node_index())
				self.nodes_dict[name] = node = Node(**options)
				return node

			if if_node_exists == 'warn':
				warnings.warn('Warning! A node with name "{}" already exists in graph!'.format(name))
			elif if_node_exists != 'ignore':
				raise KeyError('duplicate node id:"%s"!' % name)
			node.style = style if style is not None and node else None
			node.label = node._label if label is None else label
			node.value = node.value if value is None else value
			return node
""".replace("			node.style = style if style is not None and node else None\n", "			if not (style is None):\n				node.style = style\n").replace("			node.value = node.value if value is None else value\n", "			if value is not None:\n				node.value = value\n")))
r('edges_seen', 'C02 C09 C18', B, ("""		result = []
		for node in self.nodes:
			for edge in node.edges:
				if edge not in result:
					result.append(edge)
		return result

	def get_outward_edges""", """		result = {}
		for node in self.nodes:
			for edge in node.edges:
				result.setdefault(edge.id, edge)
		return list(result.values())

	def get_outward_edges"""))
r('node_edges_chain', 'C02 C18 C26', N, ("""		result = []
		for edge in self.outward_edges_dict.values():
			if edge not in result:
				result.append(edge)
		for edge in self.inward_edges_dict.values():
			if edge not in result:
				result.append(edge)
		return result
""", """		return list({**self.outward_edges_dict, **self.inward_edges_dict}.values())
"""), ("""		result = []
		for edge in self._inward_edges_dict.values():
			if edge not in result:
				result.append(edge)
		return result
""", """		return self._unique(self._inward_edges_dict.values())

	@staticmethod
	def _unique(edges):
		result = []
		for edge in edges:
			if all(edge is not x for x in result):
				result.append(edge)
		return result
"""))
r('siblings_gen', 'C08', N, ("""		siblings = {}
		for parent in self.parents:
			for child in parent.children:
				if child.id not in siblings and child != self:
					siblings[child.id] = child
		return list(siblings.values())
""", """		def candidates():
			for parent in self.parents:
				yield from parent.children

		siblings = {child.id: child for child in candidates() if child != self}
		return list(siblings.values())
"""), ("""		co_parents = {}
		for child in self.children:
			for parent in child.parents:
				if parent.id not in co_parents and parent != self:
					co_parents[parent.id] = parent
		return list(co_parents.values())
""", """		others = filter(lambda x: not (x == self), chain.from_iterable(child.parents for child in self.children))
		return list(dict((x.id, x) for x in others).values())
"""), ("from typing import", "from itertools import chain\nfrom typing import"))
r('siblings_graph', 'C08', B, ("""		siblings = []
		for parent in parents:
			for parents_child in self.get_children(node=parent):
				if parents_child not in siblings and parents_child != node:
					siblings.append(parents_child)
		return siblings
""", """		siblings = [child for parent in parents for child in self.get_children(node=parent) if child != node]
		return sorted(set(siblings), key=siblings.index)
"""), ("""		spouses = []
		for child in children:
			for childs_parent in self.get_parents(node=child):
				if childs_parent not in spouses and childs_parent != node:
					spouses.append(childs_parent)
		return spouses
""", """		spouses = []
		i = 0
		while i < len(children):
			parents = self.get_parents(node=children[i])
			i += 1
			for j in range(len(parents)):
				parent = parents[j]
				if parent == node or parent in spouses:
					continue
				spouses += [parent]
		return spouses
"""))
r('similar_all', 'C25', B, ("""		if len(self._nodes_dict) != len(other._nodes_dict):
			return False

		for name, node in self._nodes_dict.items():
			if name not in other._nodes_dict:
				return False
			other_node = other._nodes_dict[name]
			if not node.is_similar_to(other=other_node):
				return False

		if self._is_strict != other._is_strict:
			return False

		if self._ordering != other._ordering:
			return False

		return True""", """		if (self._is_strict, self._ordering) != (other._is_strict, other._ordering):
			return False
		if self._nodes_dict.keys() != other._nodes_dict.keys():
			return False
		return all(node.is_similar_to(other=other._nodes_dict[name]) for name, node in self._nodes_dict.items())"""))
r('similar_node', 'C25', N, ("""		for id, outward_edge in self._outward_edges_dict.items():
			if id not in other._outward_edges_dict:
				return False
			other_outward_edge = other._outward_edges_dict[id]
			if not outward_edge.is_similar_to(other=other_outward_edge):
				return False
		for id, inward_edge in self._inward_edges_dict.items():
			if id not in other._inward_edges_dict:
				return False
			other_inward_edge = other._inward_edges_dict[id]
			if not inward_edge.is_similar_to(other=other_inward_edge):
				return False
		return True
""", """		for mine, others in zip(
			[self._outward_edges_dict, self._inward_edges_dict], [other._outward_edges_dict, other._inward_edges_dict]
		):
			for id in mine:
				try:
					if not mine[id].is_similar_to(other=others[id]):
						return False
				except KeyError:
					return False
		return True
"""))
r('order_total', 'C23 C28', N, ("""		return (self.index, self.name) < (other.index, other.name)
""", """		return self._sort_key() < other._sort_key()

	def _sort_key(self):
		return self.index, self.name
"""), ("		return (self.index, self.name) <= (other.index, other.name)\n", "		return not other < self\n"),
("		return (self.index, self.name) > (other.index, other.name)\n", "		return other < self\n"),
("		return (self.index, self.name) != (other.index, other.name)\n", "		return not self == other\n"))
r('tree_parts', 'C20', N, ("""			tree_string += '\\n'
			num_children = len(self.children)

			for child_num, child in enumerate(self.children):

				already_added.append(self)
				if child_num+1 == num_children:
					tree_string += indentation + CORNER + ' ' + child.get_tree_str(
						indentation=indentation + '  ', already_added=already_added
					)

				else:
					tree_string += indentation + TWO_WAY + ' ' + child.get_tree_str(
						indentation=indentation + VERTICAL + ' ', already_added=already_added
					)
""", """			lines = ['\\n']
			*others, last = self.children or [None]
			if last is not None:
				already_added.append(self)
			for child in others:
				lines.append(f'{indentation}{TWO_WAY} {child.get_tree_str(indentation + VERTICAL + " ", already_added)}')
			if last is not None:
				lines.append('{0}{1} {2}'.format(indentation, CORNER, last.get_tree_str(f'{indentation}  ', already_added)))
			tree_string += ''.join(lines)
"""))
r('graphviz_join', 'C18 C19', W, ("""		nodes_str = '\\t{\\n\\t\\t' + '\\n\\t\\t'.join([node.get_graphviz_str() for node in self.nodes_dict.values()]) + '\\n\\t}\\n'
		edges_str = '\\t' + '\\n\\t'.join([edge.get_graphviz_str() for edge in self.edges]) + '\\n'
		header = self.get_graphviz_header(direction=direction, dpi=dpi, height=height, width=width, pad=pad)
		return header + nodes_str + edges_str + '}'
""", """		lines = [self.get_graphviz_header(direction=direction, dpi=dpi, height=height, width=width, pad=pad) + '\\t{']
		lines += ['\\t\\t%s' % node.get_graphviz_str() for node in self.nodes]
		lines.append('\\t}')
		lines.extend('\\t' + edge.get_graphviz_str() for edge in self.edges)
		lines.append('}')
		return '\\n'.join(lines)
"""))
r('header_lines', 'C18 C29', W, ("""		if height is not None and width is not None:
			second_part += f'\\tsize="{width},{height}!";\\n'
			second_part += '\\tratio="fill";\\n'
		elif height is not None:
			second_part += f'\\tsize="{height}!";\\n'
			second_part += '\\tratio="fill";\\n'
		elif width is not None:
			second_part += f'\\tsize="{width}!";\\n'
			second_part += '\\tratio="fill";\\n'
""", """		size = ','.join(str(x) for x in (width, height) if x is not None)
		if size:
			second_part += '\\n'.join((f'\\tsize="{size}!";', '\\tratio="fill";', ''))
"""), ("""		if self._is_strict:
			first_part = 'strict digraph G {\\n'
		else:
			first_part = 'digraph G{\\n'
""", """		first_part = ('strict ' if self._is_strict else '') + 'digraph G {\\n'
"""))
r('add_merge', 'C11', W, ("""		nodes = {}
		for the_id in set(d1['nodes'].keys()).union(d2['nodes'].keys()):
			if the_id in d1['nodes'] and the_id in d2['nodes']:
				node1 = d1['nodes'][the_id]
				node2 = d2['nodes'][the_id]
				n = {}
				for key in set(node1.keys()).union(node2.keys()):
					if key in node1 and key in node2:
						if key == 'value':
							n[key] = add_values_function(node1[key], node2[key])
						else:
							n[key] = node1[key] or node2[key]
					elif key in node1:
						n[key] = node1[key]
					else:
						n[key] = node2[key]
				nodes[the_id] = n
			elif the_id in d1['nodes']:
				nodes[the_id] = d1['nodes'][the_id]
			else:
				nodes[the_id] = d2['nodes'][the_id]
""", """		def merge(first, second):
			return {
				key: add_values_function(first[key], second[key]) if key == 'value' else first[key] or second[key]
				for key in first
			}

		nodes = dict(d1['nodes'])
		for the_id, node2 in d2['nodes'].items():
			nodes[the_id] = merge(nodes[the_id], node2) if the_id in nodes else node2
"""), ("""				edge1 = edges[(start2, end2, id2)]
				edge1_dict = edge1[2]
				for key in set(edge1_dict.keys()).union(set(edge2_dict.keys())):
					if key in edge1_dict and key in edge2_dict:
						if key == 'value':
							edge1_dict[key] = add_values_function(edge1_dict[key], edge2_dict[key])
						else:
							edge1_dict[key] = edge1_dict[key] or edge2_dict[key]
					elif key in edge2_dict:
						edge1_dict[key] = edge2_dict[key]
""", """				*_, edge1_dict = edges[(start2, end2, id2)]
				edge1_dict.update(merge(edge1_dict, edge2_dict))
"""))
r('append_unpack', 'C12 C27', W, ("""				if len(parent_child_edge_dict) == 2:
					parent, child = parent_child_edge_dict
					edge = self.connect(start=parent, end=child)
					edges_dict[(parent, child)] = edge.id
					edges_dict[edge.id] = edge.id

				elif len(parent_child_edge_dict) == 3:
					parent, child, edge_dict = parent_child_edge_dict
					edge = self.connect(start=parent, end=child, **edge_dict)
					edges_dict[(parent, child)] = edge.id
					edges_dict[edge.id] = edge.id

				elif len(parent_child_edge_dict) < 2:
					raise ValueError('Too few objects in an edge definition!')
				else:
					raise ValueError('Too many objects in an edge definition!')
""", """				size = len(parent_child_edge_dict)
				if not 2 <= size <= 3:
					raise ValueError('Too {} objects in an edge definition!'.format('few' if size < 2 else 'many'))
				parent, child, *rest = parent_child_edge_dict
				options = rest[0] if rest else {}
				edge = self.connect(start=parent, end=child, **options)
				edges_dict.update({(parent, child): edge.id, edge.id: edge.id})
"""), ("""			for name, node_style in dictionary['node_styles'].items():
					self._node_style_overwrites[name] = node_style
""", """			self._node_style_overwrites.update(dictionary['node_styles'])
""") if False else ("""				for name, node_style in dictionary['node_styles'].items():
					self._node_style_overwrites[name] = node_style
""", """				self._node_style_overwrites.update(dictionary['node_styles'])
"""))
r('append_loop', 'C12 C27', W, ("""			if 'strict' in dictionary:
				self._is_strict = dictionary['strict']

			if 'ordering' in dictionary:
				self._ordering = dictionary['ordering']
""", """			for key, attribute in {'strict': '_is_strict', 'ordering': '_ordering'}.items():
				if key in dictionary:
					setattr(self, attribute, dictionary[key])
"""), ("""			if isinstance(dictionary['nodes'], dict):
				for node_name, node_dict in dictionary['nodes'].items():
					self.add_node(name=node_name, **node_dict)
			else:
				for node_name in dictionary['nodes']:
					self.add_node(name=node_name)
""", """			nodes = dictionary['nodes']
			for node_name in nodes:
				self.add_node(name=node_name, **(nodes[node_name] if isinstance(nodes, dict) else {}))
"""))
r('random_product', 'C17', W, ("""		for n1 in node_names:
			for n2 in node_names:
				if random.uniform(0, 1) < connection_probability:
					if cycle:
						graph.connect(start=str(n1), end=str(n2))
					elif n1 < n2:
						graph.connect(start=str(n1), end=str(n2))
""", """		for n1, n2 in product(node_names, repeat=2):
			drawn = random.uniform(0, 1)
			if drawn >= connection_probability or not (cycle or n1 < n2):
				continue
			graph.connect(start=str(n1), end=str(n2))
"""), ("from functools import wraps\n", "from functools import wraps\nfrom itertools import product\n"))
r('render_partition', 'C29', W, ("""			filename, file_extension = os.path.splitext(path)
			output_format = file_extension.lstrip('.')
""", """			filename, file_extension = os.path.splitext(path)
			output_format = file_extension[1:] if file_extension.startswith('.') else file_extension
"""), ("		if path is None:\n			return self.get_graphviz_source(direction=direction, pad=pad, dpi=None)# Source(source=self.get_graphviz_str(direction=direction, pad=pad, dpi=None))\n		else:\n", "		if path is not None:\n"),
("			return self.get_graphviz_source(direction=direction, pad=pad, dpi=None)\n\n	\"\"\"", "		return self.get_graphviz_source(direction=direction, pad=pad, dpi=None)\n\n	\"\"\""))
r('stylize_helper', 'C21 C27', W, ("""		for name, style in self._node_style_overwrites.items():
			if name not in self.nodes_dict:
				continue
			node = self.nodes_dict[name]
			node._style = node.style.copy()  # other nodes may have the same style object
			node.style.complement(style)
""", """		present = {name: style for name, style in self._node_style_overwrites.items() if name in self.nodes_dict}
		for name in present:
			node = self.get_node(name)
			style = node.style.copy()
			style.complement(present[name])
			node._style = style
"""), ("""		for edge_id, colour in self._edge_colour_overwrites.items():
			if edge_id not in self.edges_dict:
				continue
			edge = self.edges_dict[edge_id]
			_ = edge.style.colour
			style = edge.style.copy()
			style.reset_colours()
			style.colour = colour
			edge._style = None
			edge.style = style
			_ = edge.style.colour
""", """		edges = self.edges_dict
		for edge_id in [x for x in self._edge_colour_overwrites if x in edges]:
			self._recolour(edges[edge_id], self._edge_colour_overwrites[edge_id])
"""), ("""	def get_graphviz_header(
""", """	@staticmethod
	def _recolour(obj, colour):
		style = obj.style.copy()
		style.reset_colours()
		style.colour = colour
		obj._style = style

	def get_graphviz_header(
"""))
r('getstate_vars', 'C09', B, ("""		state = {
			attr: getattr(self, attr)
			for attr in self._STATE_ATTRIBUTES
		}
		state['_nodes_have_graph'] = False
		return state
""", """		state = dict.fromkeys(self._STATE_ATTRIBUTES)
		for attribute in state:
			state[attribute] = self.__dict__[attribute]
		return dict(state, _nodes_have_graph=False)
"""), ("""		for key, value in state.items():
			setattr(self, key, value)
""", """		self.__dict__.update(state)
"""))
r('edge_remove', 'C02', E, ("""		if self._start is None or self._end is None:
			raise ValueError('Either start or end Node is missing!')
		self.start.remove_outward_edge(edge_id=self.id)
		self.end.remove_inward_edge(edge_id=self.id)
		self._start = None
		self._end = None
		self._graph = None
""", """		if None in (self._start and 1, self._end and 1):
			raise ValueError('Either start or end Node is missing!')
		edge_id, start, end = self.id, self._start, self._end
		self._start = self._end = self._graph = None
		end.remove_inward_edge(edge_id=edge_id)
		start.remove_outward_edge(edge_id=edge_id)
"""))
r('node_remove_pop', 'C01 C02', N, ("		del self.outward_edges_dict[edge_id]\n", "		self._outward_edges_dict.pop(edge_id)\n"))
r('graphviz_edge', 'C18 C19', E, ("""		parts = []
		label_or_value = self.display_label_or_value()
		style = self.style
		if label_or_value is not None:
			parts.append(f'label={quote(label_or_value)}')
		if self._tooltip is not None:
			parts.append(f'tooltip={quote(self._tooltip)}')
		if style is not None:
			parts.append(style.get_graphviz_str())

		if len(parts) > 0:
			second_part = '[' + ' '.join(parts) + ']'
		else:
			second_part = ''

		return f'{quote(self.start.name)} -> {quote(self.end.name)}' + second_part
""", """		attributes = {'label': self.display_label_or_value(), 'tooltip': self._tooltip}
		parts = ['{}={}'.format(key, quote(value)) for key, value in attributes.items() if value is not None]
		parts += [self.style.get_graphviz_str()] if self.style is not None else []
		ends = ' -> '.join(quote(node.name) for node in (self.start, self.end))
		return ends + (f' [{" ".join(parts)}]' if parts else '')
"""))
r('quote_list', 'C19 C18', 'abstract/quote.py', ("""	result = ''
	num_backslashes = 0
	for character in str(text):
		if character == '\\\\':
			num_backslashes += 1
		else:
			if character == '"':
				result += '\\\\' * (num_backslashes + 1)
			elif character == '\\n':
				result += '\\\\' * num_backslashes
			num_backslashes = 0
		result += character
	return '"' + result + '\\\\' * num_backslashes + '"'
""", """	text = str(text)
	pieces = []
	pending = ''
	for i, character in enumerate(text):
		if character == '\\\\':
			pending += character
			continue
		pieces.append(pending)
		if character in '"\\n':
			pieces.append(pending)
		if character == '"':
			pieces.append('\\\\')
		pieces.append(character)
		pending = ''
	return '"{}"'.format(''.join(pieces) + 2 * pending)
"""))
r('relatives_sets', 'C05 C14', 'abstract/get_relatives_by_distance.py', ("""	travelled = [] if include_self else [obj]
	result = {}
	distance = 0
	current = [obj]
	while len(current) > 0 and (max_distance is None or distance < max_distance):
		distance += 1
		found = []
		for x in current:
			for relative in get_relatives(x):
				if relative not in travelled:
					travelled.append(relative)
					found.append(relative)
		if len(found) > 0:
			result[distance] = found
		current = found
	return result
""", """	travelled = [obj] * (not include_self)
	result = defaultdict(list)
	queue = deque([(obj, 0)])
	while queue:
		x, distance = queue.popleft()
		if max_distance is not None and distance >= max_distance:
			continue
		for relative in get_relatives(x):
			if relative in travelled:
				continue
			travelled.append(relative)
			result[distance + 1].append(relative)
			queue.append((relative, distance + 1))
	return dict(result)
"""), ("from typing", "from collections import defaultdict, deque\nfrom typing"))
r('indent_rewrite', 'C16', 'abstract/parse_indentations_function.py', ("""			match = regex.match(line)
			if not match:
				raise ValueError(
					'Indentation not a multiple of spaces or tabs'.format(line)
				)
			level = len(match.group('indent')) // 4
			if level > len(stack):
				raise ValueError('Indentation too deep: "{0}"'.format(line))
			stack[level:] = [index]
			content = match.group('name')
""", """			content = line.lstrip(' ')
			level, rest = divmod(len(line) - len(content), 4)
			if rest or content[0].isspace():
				raise ValueError('Indentation not a multiple of spaces or tabs')
			if level > len(stack):
				raise ValueError('Indentation too deep: "{0}"'.format(line))
			del stack[level:]
			stack.append(index)
"""))
r('from_indented', 'C16', B, ("""			graph.add_node(name=str(index), label=f'line {index}')

			if parent_index is not None:
				graph.connect(start=str(parent_index), end=str(index))
			else:
				graph.connect(start='root', end=str(index))
""", """			name, parent = str(index), 'root' if parent_index is None else str(parent_index)
			graph.add_node(name=name, label='line ' + name)
			graph.connect(start=parent, end=name)
"""))
r('from_object', 'C15', B, ("""		obj_and_descendants = [obj] + descendants
		for child in obj_and_descendants:
			for parent in child.__parents__():
				if parent in obj_and_descendants:
					graph.connect(start=parent.__hash__(), end=child.__hash__(), if_edge_exists='ignore')

		obj_and_ancestors = [obj] + ancestors
		for parent in obj_and_ancestors:
			for child in parent.__children__():
				if child in obj_and_ancestors:
					graph.connect(start=parent.__hash__(), end=child.__hash__(), if_edge_exists='ignore')
""", """		def link(parent, child):
			graph.connect(start=hash(parent), end=hash(child), if_edge_exists='ignore')

		below = [obj, *descendants]
		for child in below:
			for parent in [x for x in child.__parents__() if x in below]:
				link(parent, child)

		above = [obj, *ancestors]
		for parent in above:
			for child in parent.__children__():
				if child in above:
					link(parent=parent, child=child)
"""))
r('style_init', 'C22 C21', 'abstract/styling/NodeStyle.py', ("""		result = self.__class__(
			colour=self._colour, fill_colour=self._fill_colour, border_colour=self._border_colour,
			opacity=self._opacity, font=self._font, text_colour=self._text_colour, text_size=self._text_size,
			shape=self._shape, shape_style=self._shape_style, lighter_fill=self._lighter_fill
		)
		result._fill_colour_based_on_main_colour = self._fill_colour_based_on_main_colour
		result._text_colour_based_on_main_colour = self._text_colour_based_on_main_colour
		result._border_colour_based_on_main_colour = self._border_colour_based_on_main_colour
		return result
""", """		names = ['colour', 'fill_colour', 'border_colour', 'opacity', 'font', 'text_colour', 'text_size', 'shape', 'shape_style', 'lighter_fill']
		result = type(self)(**{name: getattr(self, '_' + name) for name in names})
		for name in ('fill', 'text', 'border'):
			attribute = f'_{name}_colour_based_on_main_colour'
			setattr(result, attribute, getattr(self, attribute))
		return result
"""))
r('style_state', 'C22 C09', 'abstract/styling/EdgeStyle.py', ("""		self._colour = state['_colour']
		self._opacity = state['_opacity']
		self._font = state['_font']
		self._text_colour = state['_text_colour']
		self._text_size = state['_text_size']
		self._arrow_size = state['_arrow_size']
		self._label_style = state['_label_style']
		self._line_width = state['_line_width']
		self._text_colour_based_on_main_colour = state['_text_colour_based_on_main_colour']
""", """		vars(self).update(state)
"""))
r('least', 'C33 C28 C21', 'abstract/styling/get_least_used_colour.py', ("	colour = min(colours_used, key=colours_used.get)\n", "	colour = sorted(colours_used.items(), key=lambda item: item[1])[0][0]\n"))
r('least2', 'C28 C21', 'abstract/styling/get_least_used_colour.py', ("	colour = min(colours_used, key=colours_used.get)\n", "	fewest = min(colours_used.values())\n	colour = next(c for c, count in colours_used.items() if count == fewest)\n"))
r('least3', 'C28 C21', 'abstract/styling/get_least_used_colour.py', ("	colour = min(colours_used, key=colours_used.get)\n", "	colour = None\n	for candidate in colours_used:\n		if colour is None or colours_used[candidate] < colours_used[colour]:\n			colour = candidate\n"))
r('diverge', 'C33 C28 C21', 'abstract/styling/inherit_style.py', ("""	if n == 1:
		return [0]
	elif n % 2 == 0:
		return [x/(n/2) for x in range(1, n // 2 + 1)] + [-x/(n/2) for x in range(1, n // 2 + 1)]
	else:
		return [0] + generate_diverging_numbers(n-1)
""", """	half = n // 2
	steps = [x / half for x in range(1, half + 1)]
	middle = [0] if n % 2 else []
	return middle + steps + [-x for x in steps]
"""), ("	return sorted(generate_diverging_numbers(n), reverse=reverse)[i]\n", "	numbers = generate_diverging_numbers(n)\n	numbers.sort(reverse=reverse)\n	return numbers[i]\n"))
r('edges_style', 'C26 C21', 'abstract/styling/stylize_edges_based_on_nodes.py', ("""			if edge_style is None:
				style = EdgeStyle(colour=colour)
			else:
				style = edge_style.copy()
				style.reset_colours()
				style.colour = colour

			if isinstance(edge.value, Real):
				style._arrow_size *= edge.value
""", """			style = EdgeStyle(colour=colour) if edge_style is None else edge_style.copy()
			if edge_style is not None:
				style.reset_colours()
				style.colour = colour
			factor = edge.value if isinstance(edge.value, Real) else 1
			style._arrow_size = style._arrow_size * factor
"""))
r('obj_eq', 'C23 C02', O, ("""		if not isinstance(other, self.__class__):
			raise TypeError(f'"{other}" is of type: {type(other)}')
		if self.graph != other.graph:
			raise ValueError('two GraphObj from different graphs cannot be compared')
		return self.id != other.id
""", """		return not self.__eq__(other)
"""))
r('obj_similar', 'C25', O, ("""		condition_1 = self.id == other.id
		condition_2 = self._value == other._value
		condition_3 = self._style == other._style
		condition_4 = self._parameters == other._parameters
		return  condition_1 and condition_2 and condition_3 and condition_4
""", """		attributes = operator.attrgetter('id', '_value', '_style', '_parameters')
		return attributes(self) == attributes(other)
"""), ("import hashlib\n", "import hashlib\nimport operator\n"))
r('state_loop', 'C09', O, ("""		self._graph = state['graph']
		self._raw_id = state['id']
		self._value = state['value']
		self._label = state['label']
		self._tooltip = state['tooltip']
		self._style = state['style']
		self._frozen = state['frozen']
		self._parameters = state['parameters']
""", """		for key in ('graph', 'value', 'label', 'tooltip', 'style', 'frozen', 'parameters'):
			setattr(self, '_' + key, state[key])
		self._raw_id = state.get('id')
"""))
r('rank_sum', 'C28 C21', N, ("		return sorted(siblings).index(self)\n", "		return sum(1 for sibling in siblings if sibling < self)\n"))
r('pensieve', 'C33 C21 C28', 'abstract/styling/stylize_with_pensieve.py', ("""	for node in graph.nodes:
		if node.style is None:
			if is_root_or_parents_are_in_loop(node):
				colour = get_least_used_colour(colours_used)
				if node_style is None:
					style = NodeStyle(colour=colour)
				else:
					style = node_style.copy()
					style.reset_colours()
					style.colour = colour
				node.style = style
""", """	def root_style(colour):
		if node_style is None:
			return NodeStyle(colour=colour)
		style = node_style.copy()
		style.reset_colours()
		style.colour = colour
		return style

	unstyled_roots = [node for node in graph.nodes if node.style is None and is_root_or_parents_are_in_loop(node)]
	for node in unstyled_roots:
		node.style = root_style(colour=get_least_used_colour(colours_used))
"""))
r('semi_root', 'C33 C21', 'abstract/styling/is_root_or_parents_are_in_loop.py', ("""	parents = [parent for parent in node.parents if not parent.is_in_loop()]
	return len(parents) == 0""", """	return all(parent.is_in_loop() for parent in node.parents)
"""))
r('from_lists', 'C13', B, ("""		for index, start_name, end_name, edge_name in zip(range(len(start)), start, end, edge):
			start_node = graph.add_node(name=start_name, if_node_exists='ignore')
			end_node = graph.add_node(name=end_name, if_node_exists='ignore')
			graph.connect(start=start_node, end=end_node, id=index, label=edge_name)
""", """		for index, (*ends, edge_name) in enumerate(zip(start, end, edge)):
			start_node, end_node = [graph.add_node(name=name, if_node_exists='ignore') for name in ends]
			graph.connect(start=start_node, end=end_node, id=index, label=edge_name)
"""))
r('loop_walrus', 'C06', B, ("""		node1_is_ancestor_to_node2 = node1 in self.get_ancestors(node=node2, distance=False)
		node2_is_ancestor_to_node1 = node2 in self.get_ancestors(node=node1, distance=False)
		return node1_is_ancestor_to_node2 and node2_is_ancestor_to_node1
""", """		for one, other in [(node1, node2), (node2, node1)]:
			if (ancestors := self.get_ancestors(node=other, distance=False)) and one in ancestors:
				continue
			break
		else:
			return True
		return False
"""))
r('value_guard', 'C24', O, ("""		if self.is_frozen:
			raise RuntimeError('GraphObj is frozen!')
		self._value = value
""", """		self._check_not_frozen()
		self._value = value

	def _check_not_frozen(self):
		assert self._frozen in (True, False)
		if self._frozen:
			raise RuntimeError('{} is frozen!'.format(type(self).__name__))
"""))


def run(entry):
    name, checks, file, pairs = entry
    d = tempfile.mkdtemp(prefix='refactor-')
    try:
        repo = os.path.join(d, 'repo')
        shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('.git', '__pycache__'))
        p = os.path.join(repo, file)
        s = open(p).read()
        for old, new in pairs:
            if s.count(old) < 1:
                print(name, 'DOES NOT APPLY', repr(old[:80]))
                return
            s = s.replace(old, new, 1)
        open(p, 'w').write(s)
        t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'abstract'], cwd=repo, capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE='1'))
        if ' passed' not in t.stdout or 'failed' in t.stdout:
            print(name, 'TESTS', t.stdout[-500:])
            return
        for c in checks:
            x = subprocess.run(['python3-vt', 'check.py', c, '--tier', 'quick', '--repo', repo, '--evidence', os.path.join(d, 'evidence')], cwd=ROOT, capture_output=True, text=True)
            if x.returncode != 0:
                print(name, c, 'EXIT', x.returncode, '\n   ' + '\n   '.join(y[:300] for y in (x.stdout + x.stderr).strip().split('\n')[:6]))
            else:
                print(name, c, 'quiet')
            sys.stdout.flush()
    finally:
        shutil.rmtree(d)



IH = 'abstract/styling/inherit_style.py'
r('saturation_factor', 'C33 C21', IH, ("			colour.saturation = colour.saturation * 3 / 4\n", "			saturation = colour.saturation\n			colour.saturation = 0.75 * saturation\n"))
r('saturation_pale', 'C33 C21', IH, ("			colour.saturation = colour.saturation * 3 / 4\n", "			colour = colour.pale(ratio=1 / 4)\n"))
r('parents_set', 'C33 C21', IH, ('''			colours = [style.colour for style in styles]
''', '''			colours = list(reversed([style.colour for style in styles]))
'''))
r('hue_by_hand', 'C33 C28 C21', IH, ('''				colour = style.colour.increase_hue(
					amount=divergence_ratio * get_diverging_number(i=rank, n=num_siblings, reverse=False)
				)
''', '''				offset = get_diverging_number(i=rank, n=num_siblings, reverse=False)
				colour = style.colour.copy()
				colour.hue = colour.hue + offset * divergence_ratio
'''))
r('diverging_floats', 'C33 C28', IH, ("		return [0]\n", "		return [0.0]\n"), ("		return [0] + generate_diverging_numbers(n-1)\n", "		return [0.0] + generate_diverging_numbers(n - 1)\n"))

if __name__ == '__main__':
    chosen = sys.argv[1:]
    for entry in R:
        if not chosen or entry[0] in chosen:
            run(entry)
