From 245564ebfac5de0dd4feaa62deb82279da64fcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:30 +0000
Subject: [PATCH 01/37] fix: accept integer node names in add_node, as get_node
 does

add_node only recognised str names: an int name fell through to a branch that
raised UnboundLocalError, so Graph.from_object (which names nodes by hash)
failed for every object.
---
 abstract/_BasicGraph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index 040afaa..dd818c1 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -275,7 +275,7 @@ class BasicGraph:
 		Returns:
 			Node: The created node.
 		"""
-		if isinstance(name, str):
+		if isinstance(name, (str, int)):
 			if name in self.nodes_dict:
 				if if_node_exists == 'ignore':
 					pass
@@ -318,7 +318,7 @@ class BasicGraph:
 				self.nodes_dict[node.id] = node
 				return node
 		else:
-			raise TypeError(f'node of type {type(node)} is not supported!')
+			raise TypeError(f'node of type {type(name)} is not supported!')
 
 	def remove_node(self, node: Union[str, Node]):
 		"""
-- 
2.43.0


From 20e79b1a7e138afc4f56e83d140ec2d07826024f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:30 +0000
Subject: [PATCH 02/37] fix: add_node returns the node when given a node
 already in the graph

---
 abstract/_BasicGraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index dd818c1..8fb646e 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -306,7 +306,7 @@ class BasicGraph:
 			if node.id in self.nodes_dict:
 				# if the node is already in the graph and node.graph is self then do nothing
 				if node.graph is self and self.nodes_dict[node.id] is node:
-					pass
+					return node
 				else:
 					raise ValueError(f'node with id "{node.id}" is already in a graph!')
 			else:
-- 
2.43.0


From 2625737707747b04a69578875fede051e88351c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:31 +0000
Subject: [PATCH 03/37] fix: 'node in graph' raised TypeError for a node that
 is present

---
 abstract/_BasicGraph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index 8fb646e..3adc78e 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -190,6 +190,8 @@ class BasicGraph:
 		Returns:
 			bool: True if the item is in the graph, False otherwise.
 		"""
+		if isinstance(item, Node):
+			return item.id in self._nodes_dict
 		return item in self._nodes_dict
 
 	@property
-- 
2.43.0


From cc199c03449ea265a52338426f41954a40790f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:32 +0000
Subject: [PATCH 04/37] fix: filter ignored its direction argument

---
 abstract/_BasicGraph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index 3adc78e..0b097dd 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -79,11 +79,11 @@ class BasicGraph:
 			node = self.get_node(node=x)
 			name = node.name
 			relatives[name] = 1
-			if direction == 'to' or 'to_and_from':
+			if direction in ('to', 'to_and_from'):
 				for ancestor in node.ancestors:
 					relatives[ancestor.name] = 1
 
-			if direction == 'from' or 'to_and_from':
+			if direction in ('from', 'to_and_from'):
 				for descendant in node.descendants:
 					relatives[descendant.name] = 1
 
-- 
2.43.0


From 3fde82715481a6d3e5ba059b0886f37eaccd47e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:32 +0000
Subject: [PATCH 05/37] fix: is_similar_to raised KeyError for graphs with
 different nodes or edges

---
 abstract/Node.py        | 4 ++++
 abstract/_BasicGraph.py | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/abstract/Node.py b/abstract/Node.py
index 63f52f1..ec95fe0 100755
--- a/abstract/Node.py
+++ b/abstract/Node.py
@@ -120,10 +120,14 @@ class Node(GraphObj):
 		if len(self._inward_edges_dict) != len(other._inward_edges_dict):
 			return False
 		for id, outward_edge in self._outward_edges_dict.items():
+			if id not in other._outward_edges_dict:
+				return False
 			other_outward_edge = other._outward_edges_dict[id]
 			if not outward_edge.is_similar_to(other=other_outward_edge):
 				return False
 		for id, inward_edge in self._inward_edges_dict.items():
+			if id not in other._inward_edges_dict:
+				return False
 			other_inward_edge = other._inward_edges_dict[id]
 			if not inward_edge.is_similar_to(other=other_inward_edge):
 				return False
diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index 0b097dd..d654d31 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -750,6 +750,8 @@ class BasicGraph:
 			return False
 
 		for name, node in self._nodes_dict.items():
+			if name not in other._nodes_dict:
+				return False
 			other_node = other._nodes_dict[name]
 			if not node.is_similar_to(other=other_node):
 				return False
-- 
2.43.0


From c437852d11ed0747dcb6eaed687ce589576f081b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:33 +0000
Subject: [PATCH 06/37] fix: edges with equal raw ids were neither equal nor
 unequal

__eq__ compares (start, end, raw id) but __ne__ compared only the raw id, so
two different edges without an id gave False for both == and !=.
---
 abstract/_GraphObj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract/_GraphObj.py b/abstract/_GraphObj.py
index 31a9672..f488619 100755
--- a/abstract/_GraphObj.py
+++ b/abstract/_GraphObj.py
@@ -138,7 +138,7 @@ class GraphObj:
 			raise TypeError(f'"{other}" is of type: {type(other)}')
 		if self.graph != other.graph:
 			raise ValueError('two GraphObj from different graphs cannot be compared')
-		return self.raw_id != other.raw_id
+		return self.id != other.id
 
 	def is_similar_to(self, other):
 		"""
-- 
2.43.0


From d7dd3526e5cce367c5d4e2041c25f3926cb86910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:43 +0000
Subject: [PATCH 07/37] fix: distance maps listed relatives at wrong distances,
 twice or not at all

The per-parent distance dicts of the depth-first search were merged by
overwriting whole distances.  The distances are now found breadth first; the
plain lists are computed as before.
---
 abstract/_BasicGraph.py               | 31 +++++++++-----------------
 abstract/get_relatives_by_distance.py | 32 +++++++++++++++++++++++++++
 2 files changed, 43 insertions(+), 20 deletions(-)
 create mode 100644 abstract/get_relatives_by_distance.py

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index d654d31..b9f3148 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -4,6 +4,7 @@ from .styling.EdgeStyle import EdgeStyle
 from .styling.NodeStyle import NodeStyle
 from .get_ancestors import get_ancestors
 from .get_descendants import get_descendants
+from .get_relatives_by_distance import get_relatives_by_distance
 from .parse_indentations_function import parse_indentations
 
 import warnings
@@ -512,23 +513,19 @@ class BasicGraph:
 		nodes_travelled.append(node)
 		parents = self.get_parents(node=node)
 		if len(parents) == 0:
-			return [], {}
+			return []
 		else:
 			ancestors = []
-			ancestors_dict = {1: []}
 			for parent in parents:
 				if parent not in ancestors:
 					ancestors.append(parent)
-					ancestors_dict[1].append(parent)
 
 				if parent not in nodes_travelled:
-					parent_ancestors, parent_ancestors_dict = self._get_ancestors(node=parent, nodes_travelled=nodes_travelled)
+					parent_ancestors = self._get_ancestors(node=parent, nodes_travelled=nodes_travelled)
 					for ancestor in parent_ancestors:
 						if ancestor not in ancestors:
 							ancestors.append(ancestor)
-							for distance in parent_ancestors_dict.keys():
-								ancestors_dict[distance+1] = parent_ancestors_dict[distance]
-			return ancestors, ancestors_dict
+			return ancestors
 
 	def get_ancestors(self, node, distance=True):
 		"""
@@ -536,11 +533,10 @@ class BasicGraph:
 		:param bool distance: if True, ancestors and their respective distance to the node will be returned as dict
 		:rtype: dict[int,list[Node]] or list[Node]
 		"""
-		ancestors, ancestors_dict = self._get_ancestors(node=node, nodes_travelled=None)
 		if distance:
-			return ancestors_dict
+			return get_relatives_by_distance(obj=self.get_node(node), get_relatives=self.get_parents, include_self=True)
 		else:
-			return ancestors
+			return self._get_ancestors(node=node, nodes_travelled=None)
 
 	def is_node_in_loop(self, node):
 		node = self.get_node(node)
@@ -571,22 +567,18 @@ class BasicGraph:
 		nodes_travelled.append(node)
 		children = self.get_children(node=node)
 		if len(children) == 0:
-			return [], {}
+			return []
 		else:
 			descendants = []
-			descendants_dict = {1: []}
 			for child in children:
 				if child not in nodes_travelled:
 					if child not in descendants:
 						descendants.append(child)
-						descendants_dict[1].append(child)
-					child_descendants, child_descendants_dict = self._get_descendants(node=child, nodes_travelled=nodes_travelled)
+					child_descendants = self._get_descendants(node=child, nodes_travelled=nodes_travelled)
 					for descendant in child_descendants:
 						if descendant not in descendants:
 							descendants.append(descendant)
-							for distance in child_descendants_dict.keys():
-								descendants_dict[distance+1] = child_descendants_dict[distance]
-			return descendants, descendants_dict
+			return descendants
 
 	def get_descendants(self, node, distance=True):
 		"""
@@ -594,11 +586,10 @@ class BasicGraph:
 		:param bool distance: if True, descendants and their respective distance to the node will be returned as dict
 		:rtype: dict[int,list[Node]] or list[Node]
 		"""
-		descendants, descendants_dict = self._get_descendants(node=node, nodes_travelled=None)
 		if distance:
-			return descendants_dict
+			return get_relatives_by_distance(obj=self.get_node(node), get_relatives=self.get_children)
 		else:
-			return descendants
+			return self._get_descendants(node=node, nodes_travelled=None)
 
 	def get_siblings(self, node):
 		"""
diff --git a/abstract/get_relatives_by_distance.py b/abstract/get_relatives_by_distance.py
new file mode 100644
index 0000000..0cdef15
--- /dev/null
+++ b/abstract/get_relatives_by_distance.py
@@ -0,0 +1,32 @@
+from typing import Callable, Dict, List, Optional
+
+
+def get_relatives_by_distance(obj, get_relatives: Callable, max_distance: Optional[int] = None, include_self: bool = False) -> Dict[int, List]:
+	"""
+	Finds the relatives of an object, breadth first, grouped by their shortest distance to it.
+
+	Args:
+		obj: The object to start from.
+		get_relatives (Callable): Returns the direct relatives (parents or children) of an object.
+		max_distance (Optional[int]): Maximum number of steps, no limit if None.
+		include_self (bool): If True, an object that is its own relative (in a loop) is included too.
+
+	Returns:
+		Dict[int, List]: The relatives at each distance.
+	"""
+	travelled = [] if include_self else [obj]
+	result = {}
+	distance = 0
+	current = [obj]
+	while len(current) > 0 and (max_distance is None or distance < max_distance):
+		distance += 1
+		found = []
+		for x in current:
+			for relative in get_relatives(x):
+				if relative not in travelled:
+					travelled.append(relative)
+					found.append(relative)
+		if len(found) > 0:
+			result[distance] = found
+		current = found
+	return result
-- 
2.43.0


From 9a19b3f35980d0af951b335203c659ba327ef04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:44 +0000
Subject: [PATCH 08/37] fix: object ancestors/descendants missed objects under
 a depth limit and had wrong distances

The depth-first search marked an object as travelled when it was first met at
a large depth, so everything that was within the limit only over a shorter
path was missed.
---
 abstract/get_ancestors.py   | 49 +++++--------------------------------
 abstract/get_descendants.py | 49 +++++--------------------------------
 2 files changed, 12 insertions(+), 86 deletions(-)

diff --git a/abstract/get_ancestors.py b/abstract/get_ancestors.py
index 6f554b4..55f1570 100755
--- a/abstract/get_ancestors.py
+++ b/abstract/get_ancestors.py
@@ -1,44 +1,5 @@
-from typing import List, Dict, Optional, Tuple, Union
-
-def _get_ancestors(obj, _objects_travelled: Optional[List] = None, max_height: Optional[int] = None) -> Tuple[List, Dict]:
-	"""
-	Retrieves the ancestors of an object.
-
-	Args:
-		obj: The object to retrieve ancestors from.
-		_objects_travelled (Optional[List]): List of objects already travelled.
-		max_height (Optional[int]): Maximum height for travelling through objects' parents.
-
-	Returns:
-		Tuple[List, Dict]: A tuple containing a list of ancestors and a dictionary of ancestors with their distances.
-	"""
-	if max_height is not None:
-		if max_height <= 0:
-			return [], {}
-		else:
-			max_height -= 1
-	_objects_travelled = _objects_travelled or []
-	_objects_travelled.append(obj)
-	parents = obj.__parents__()
-	if len(parents) == 0:
-		return [], {}
-	else:
-		ancestors = []
-		ancestors_dict = {1: []}
-		for parent in parents:
-			if parent not in _objects_travelled:
-				if parent not in ancestors:
-					ancestors.append(parent)
-					ancestors_dict[1].append(parent)
-				parent_ancestors, parent_ancestors_dict = _get_ancestors(
-					obj=parent, _objects_travelled=_objects_travelled, max_height=max_height
-				)
-				for ancestor in parent_ancestors:
-					if ancestor not in ancestors:
-						ancestors.append(ancestor)
-						for distance in parent_ancestors_dict.keys():
-							ancestors_dict[distance + 1] = parent_ancestors_dict[distance]
-		return ancestors, ancestors_dict
+from typing import List, Dict, Optional, Union
+from .get_relatives_by_distance import get_relatives_by_distance
 
 
 def get_ancestors(obj, distance: bool = True, max_height: Optional[int] = None) -> Union[List, Dict]:
@@ -53,8 +14,10 @@ def get_ancestors(obj, distance: bool = True, max_height: Optional[int] = None)
 	Returns:
 		Union[List, Dict]: A list of ancestors or a dictionary of ancestors with their distances.
 	"""
-	ancestors, ancestors_dict = _get_ancestors(obj=obj, _objects_travelled=None, max_height=max_height)
+	ancestors_dict = get_relatives_by_distance(
+		obj=obj, get_relatives=lambda x: x.__parents__(), max_distance=max_height
+	)
 	if distance:
 		return ancestors_dict
 	else:
-		return ancestors
+		return [ancestor for ancestors_at_distance in ancestors_dict.values() for ancestor in ancestors_at_distance]
diff --git a/abstract/get_descendants.py b/abstract/get_descendants.py
index 4771e5e..d5c3fe6 100755
--- a/abstract/get_descendants.py
+++ b/abstract/get_descendants.py
@@ -1,44 +1,5 @@
-from typing import List, Dict, Optional, Tuple, Union
-
-def _get_descendants(obj, _objects_travelled: Optional[List] = None, max_depth: Optional[int] = None) -> Tuple[List, Dict]:
-	"""
-	Retrieves the descendants of an object.
-
-	Args:
-		obj: The object to retrieve descendants from.
-		_objects_travelled (Optional[List]): List of objects already travelled.
-		max_depth (Optional[int]): Maximum depth for travelling through objects' children.
-
-	Returns:
-		Tuple[List, Dict]: A tuple containing a list of descendants and a dictionary of descendants with their distances.
-	"""
-	if max_depth is not None:
-		if max_depth <= 0:
-			return [], {}
-		else:
-			max_depth -= 1
-	_objects_travelled = _objects_travelled or []
-	_objects_travelled.append(obj)
-	children = obj.__children__()
-	if len(children) == 0:
-		return [], {}
-	else:
-		descendants = []
-		descendants_dict = {1: []}
-		for child in children:
-			if child not in _objects_travelled:
-				if child not in descendants:
-					descendants.append(child)
-					descendants_dict[1].append(child)
-				child_descendants, child_descendants_dict = _get_descendants(
-					obj=child, _objects_travelled=_objects_travelled, max_depth=max_depth
-				)
-				for descendant in child_descendants:
-					if descendant not in descendants:
-						descendants.append(descendant)
-						for distance in child_descendants_dict.keys():
-							descendants_dict[distance + 1] = child_descendants_dict[distance]
-		return descendants, descendants_dict
+from typing import List, Dict, Optional, Union
+from .get_relatives_by_distance import get_relatives_by_distance
 
 
 def get_descendants(obj, distance: bool = True, max_depth: Optional[int] = None) -> Union[List, Dict]:
@@ -53,8 +14,10 @@ def get_descendants(obj, distance: bool = True, max_depth: Optional[int] = None)
 	Returns:
 		Union[List, Dict]: A list of descendants or a dictionary of descendants with their distances.
 	"""
-	descendants, descendants_dict = _get_descendants(obj=obj, _objects_travelled=None, max_depth=max_depth)
+	descendants_dict = get_relatives_by_distance(
+		obj=obj, get_relatives=lambda x: x.__children__(), max_distance=max_depth
+	)
 	if distance:
 		return descendants_dict
 	else:
-		return descendants
+		return [descendant for descendants_at_distance in descendants_dict.values() for descendant in descendants_at_distance]
-- 
2.43.0


From 30f3ec9ad6a040b48e8968d1943791f5fd08b5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:15 +0000
Subject: [PATCH 09/37] fix: from_object failed when an object is linked from a
 later one

Nodes were added while connecting, so a parent that comes later in the list
was not in the graph yet (KeyError), and nodes or edges reached twice warned.
Add all nodes first; include the links that end at the object itself.
---
 abstract/_BasicGraph.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index b9f3148..f02b6a1 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -138,19 +138,20 @@ class BasicGraph:
 		descendants = get_descendants(obj=obj, distance=False, max_depth=max_depth)
 		ancestors = get_ancestors(obj=obj, distance=False, max_height=max_height)
 
+		for relative in descendants + ancestors:
+			graph.add_node(name=relative.__hash__(), label=str(relative), if_node_exists='ignore')
+
 		obj_and_descendants = [obj] + descendants
-		for child in descendants:
+		for child in obj_and_descendants:
 			for parent in child.__parents__():
 				if parent in obj_and_descendants:
-					graph.add_node(name=child.__hash__(), label=str(child))
-					graph.connect(start=parent.__hash__(), end=child.__hash__())
+					graph.connect(start=parent.__hash__(), end=child.__hash__(), if_edge_exists='ignore')
 
 		obj_and_ancestors = [obj] + ancestors
-		for parent in ancestors:
+		for parent in obj_and_ancestors:
 			for child in parent.__children__():
 				if child in obj_and_ancestors:
-					graph.add_node(name=parent.__hash__(), label=str(parent))
-					graph.connect(start=parent.__hash__(), end=child.__hash__())
+					graph.connect(start=parent.__hash__(), end=child.__hash__(), if_edge_exists='ignore')
 
 		return graph
 
-- 
2.43.0


From 616044f1f05799f5adae2a20a03f4dad3166f250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:16 +0000
Subject: [PATCH 10/37] fix: parse_indentations failed on blank lines

A blank first line raised UnboundLocalError, and a line of spaces only was
reported as a wrong indentation or taken as the indentation unit.
---
 abstract/parse_indentations_function.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/abstract/parse_indentations_function.py b/abstract/parse_indentations_function.py
index 7c3e8c5..856e1dc 100755
--- a/abstract/parse_indentations_function.py
+++ b/abstract/parse_indentations_function.py
@@ -15,9 +15,12 @@ def parse_indentations(lines: List[str], indent: Optional[str] = None) -> Genera
 	"""
 	regex = re.compile(r'^(?P<indent>(?: {4})*)(?P<name>\S.*)')
 	stack = []
+	level = 0
 
 	for index, line in enumerate(lines):
 		line = line.rstrip('\n')
+		if not line.strip():
+			line = ''
 		if indent is None:
 			if line.startswith('\t') or line.startswith(' '):
 				indent = re.findall(pattern=r'^[ \t]+', string=line)[0]
-- 
2.43.0


From 4d164ff590b85a56dc43ac3c3cdd1883f65e60e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:16 +0000
Subject: [PATCH 11/37] fix: parse_indentations changed the text of lines and
 accepted partial indentation

The number of replacements was counted in characters, not in units, so later
occurrences of the unit in the text of an indented line were replaced too, and
four left-over spaces counted as a level whatever the unit is.
---
 abstract/parse_indentations_function.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/abstract/parse_indentations_function.py b/abstract/parse_indentations_function.py
index 856e1dc..13e0cef 100755
--- a/abstract/parse_indentations_function.py
+++ b/abstract/parse_indentations_function.py
@@ -24,8 +24,12 @@ def parse_indentations(lines: List[str], indent: Optional[str] = None) -> Genera
 		if indent is None:
 			if line.startswith('\t') or line.startswith(' '):
 				indent = re.findall(pattern=r'^[ \t]+', string=line)[0]
-		if indent is not None:
-			line = line.replace(indent, " " * 4, len(line) - len(line.lstrip(indent)))
+		if indent:
+			unindented = line.lstrip(indent)
+			depth = (len(line) - len(unindented)) // len(indent)
+			if line != indent * depth + unindented or unindented[:1].isspace():
+				raise ValueError('Indentation not a multiple of spaces or tabs')
+			line = " " * 4 * depth + unindented
 		if len(line) > 0:
 			match = regex.match(line)
 			if not match:
-- 
2.43.0


From b9c7c855d35ae6f2e9a5805b0b7242bbd877ad23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:51 +0000
Subject: [PATCH 12/37] fix: __graph__ put a method in place of node labels and
 failed for edges

display_label_or_value was not called (and is meant for showing, not for
rebuilding), and Edge has no raw_label, so Graph(obj=graph) and graph + graph
raised AttributeError or TypeError for any graph with an edge.
---
 abstract/_GraphWithoutDisplay.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 32f52b2..802e146 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -527,7 +527,7 @@ class GraphWithoutDisplay(BasicGraph):
 		edges_list = []
 		for node in self.nodes:
 			nodes_dict[node.id] = {
-				'label': node.display_label_or_value,
+				'label': node._label,
 				'value': node.value,
 				'style': node.style
 			}
@@ -538,7 +538,7 @@ class GraphWithoutDisplay(BasicGraph):
 					edge.end.id,
 					{
 						'id': edge.raw_id,
-						'label': edge.raw_label,
+						'label': edge._label,
 						'value': edge.value,
 						'style': edge.style
 					}
-- 
2.43.0


From 300ef4aa27a7c28568ae0fbcbbb7210b98854dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:52 +0000
Subject: [PATCH 13/37] fix: building a graph from a graph without a label
 raised TypeError

---
 abstract/_GraphWithoutDisplay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 802e146..8916186 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -435,7 +435,7 @@ class GraphWithoutDisplay(BasicGraph):
 				self._ordering = dictionary['ordering']
 
 			if 'label' in dictionary:
-				self._label = '\n' + dictionary['label']
+				self._label = dictionary['label'] if dictionary['label'] is None else '\n' + dictionary['label']
 
 			if 'tooltip' in dictionary:
 				self._tooltip = dictionary['tooltip']
-- 
2.43.0


From 6116a9167a7ddcd6a7ff27d9145d0ee4034a6564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:53 +0000
Subject: [PATCH 14/37] fix: adding two graphs wrote the second graph's style
 overrides into the first

---
 abstract/_GraphWithoutDisplay.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 8916186..ffdbe25 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -626,10 +626,10 @@ class GraphWithoutDisplay(BasicGraph):
 		d1 = self.__graph__()
 		d2 = other.__graph__()
 
-		node_styles = d1['node_styles']
+		node_styles = d1['node_styles'].copy()
 		node_styles.update(d2['node_styles'])
 
-		edge_styles = d1['edge_styles']
+		edge_styles = d1['edge_styles'].copy()
 		edge_styles.update(d2['edge_styles'])
 
 		if add_values_function is None:
-- 
2.43.0


From 5b936743ce81786448fa2efb4887a17e36e43753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:53 +0000
Subject: [PATCH 15/37] fix: adding two graphs added a node's second value to
 itself and lost falsy values

The value of a common node was node2 + node2, and 0 with None gave None.
---
 abstract/_GraphWithoutDisplay.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index ffdbe25..49c0dc8 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -635,7 +635,7 @@ class GraphWithoutDisplay(BasicGraph):
 		if add_values_function is None:
 			def add_values_function(x, y):
 				if x is None or y is None:
-					return x or y
+					return y if x is None else x
 				else:
 					return x + y
 
@@ -648,7 +648,7 @@ class GraphWithoutDisplay(BasicGraph):
 				for key in set(node1.keys()).union(node2.keys()):
 					if key in node1 and key in node2:
 						if key == 'value':
-							n[key] = add_values_function(node2[key], node2[key])
+							n[key] = add_values_function(node1[key], node2[key])
 						else:
 							n[key] = node1[key] or node2[key]
 					elif key in node1:
-- 
2.43.0


From 78a78ea9349df8e74ee10475f0c266e1a7ecdfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:54 +0000
Subject: [PATCH 16/37] fix: copies and pickles of a graph lost its display
 settings

The copy had no label converters, direction, stylist, ...: rendering it, or
setting the style of one of its nodes, raised AttributeError.
---
 abstract/_BasicGraph.py          | 4 +++-
 abstract/_GraphWithoutDisplay.py | 7 +++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index f02b6a1..d56655a 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -32,7 +32,9 @@ class BasicGraph:
 		self._edge_label_converter = edge_label_converter
 		# if a dictionary or an object with a __graph__() method is passed use that to create the graph
 
-	_STATE_ATTRIBUTES = ['_nodes_dict', '_is_strict', '_ordering', '_node_counter']
+	_STATE_ATTRIBUTES = [
+		'_nodes_dict', '_is_strict', '_ordering', '_node_counter', '_node_label_converter', '_edge_label_converter'
+	]
 
 	#  for pickling and copying
 	def __getstate__(self) -> Dict:
diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 49c0dc8..035cf4b 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -108,6 +108,13 @@ class GraphWithoutDisplay(BasicGraph):
 		if obj:
 			self.append(obj=obj)
 
+	_STATE_ATTRIBUTES = BasicGraph._STATE_ATTRIBUTES + [
+		'_background_colour', '_direction', '_global_node_style_overwrite', '_global_edge_style_overwrite',
+		'_node_style_overwrites', '_edge_style_overwrites', '_node_colour_overwrites', '_edge_colour_overwrites',
+		'_label', '_label_location', '_label_colour', '_label_url', '_label_background_colour', '_tooltip',
+		'_font', '_font_size', '_kwargs', '_colour_scheme', '_stylist', '_style_overwrite_allowed'
+	]
+
 	def __getstate__(self) -> Dict:
 		"""
 		Returns the state of the graph for pickling.
-- 
2.43.0


From b2777516d8f325f164097a0933086f201796afda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:32 +0000
Subject: [PATCH 17/37] fix: copying or unpickling a node style failed, and
 edge styles lost attributes

NodeStyle.__getstate__ left out _opacity, which __setstate__ reads (KeyError on
copying any rendered graph); the fill mode and the flags that tell which
colours follow the main colour were lost, so a restored style could not be
inverted.
---
 abstract/styling/EdgeStyle.py |  4 +++-
 abstract/styling/NodeStyle.py | 11 ++++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/abstract/styling/EdgeStyle.py b/abstract/styling/EdgeStyle.py
index bd2b272..96bf9d5 100755
--- a/abstract/styling/EdgeStyle.py
+++ b/abstract/styling/EdgeStyle.py
@@ -119,7 +119,8 @@ class EdgeStyle:
 			'_text_size': self._text_size,
 			'_arrow_size': self._arrow_size,
 			'_label_style': self._label_style,
-			'_line_width': self._line_width
+			'_line_width': self._line_width,
+			'_text_colour_based_on_main_colour': self._text_colour_based_on_main_colour
 		}
 
 	def __setstate__(self, state):
@@ -131,6 +132,7 @@ class EdgeStyle:
 		self._arrow_size = state['_arrow_size']
 		self._label_style = state['_label_style']
 		self._line_width = state['_line_width']
+		self._text_colour_based_on_main_colour = state['_text_colour_based_on_main_colour']
 
 	@property
 	def _graphviz_dictionary(self):
diff --git a/abstract/styling/NodeStyle.py b/abstract/styling/NodeStyle.py
index d48223d..2780792 100755
--- a/abstract/styling/NodeStyle.py
+++ b/abstract/styling/NodeStyle.py
@@ -166,11 +166,16 @@ class NodeStyle:
 			'_colour': self._colour,
 			'_fill_colour': self._fill_colour,
 			'_border_colour': self._border_colour,
+			'_opacity': self._opacity,
 			'_font': self._font,
 			'_text_colour': self._text_colour,
 			'_text_size': self._text_size,
 			'_shape': self._shape,
-			'_shape_style': self._shape_style
+			'_shape_style': self._shape_style,
+			'_lighter_fill': self._lighter_fill,
+			'_fill_colour_based_on_main_colour': self._fill_colour_based_on_main_colour,
+			'_border_colour_based_on_main_colour': self._border_colour_based_on_main_colour,
+			'_text_colour_based_on_main_colour': self._text_colour_based_on_main_colour
 		}
 
 	def __setstate__(self, state):
@@ -183,6 +188,10 @@ class NodeStyle:
 		self._text_size = state['_text_size']
 		self._shape = state['_shape']
 		self._shape_style = state['_shape_style']
+		self._lighter_fill = state['_lighter_fill']
+		self._fill_colour_based_on_main_colour = state['_fill_colour_based_on_main_colour']
+		self._border_colour_based_on_main_colour = state['_border_colour_based_on_main_colour']
+		self._text_colour_based_on_main_colour = state['_text_colour_based_on_main_colour']
 
 	@property
 	def _graphviz_dictionary(self):
-- 
2.43.0


From 80b297b44010ee39921c15565db03b6fef3297c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:33 +0000
Subject: [PATCH 18/37] fix: style copies lost the fill mode of nodes and the
 label style of edges

---
 abstract/styling/EdgeStyle.py | 2 +-
 abstract/styling/NodeStyle.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/abstract/styling/EdgeStyle.py b/abstract/styling/EdgeStyle.py
index 96bf9d5..0789b7a 100755
--- a/abstract/styling/EdgeStyle.py
+++ b/abstract/styling/EdgeStyle.py
@@ -56,7 +56,7 @@ class EdgeStyle:
 		result = self.__class__(
 			colour=self._colour, opacity=self._opacity,
 			font=self._font, text_colour=self._text_colour, text_size=self._text_size,
-			arrow_size=self._arrow_size, line_width=self._line_width
+			arrow_size=self._arrow_size, label_style=self._label_style, line_width=self._line_width
 		)
 		result._text_colour_based_on_main_colour = self._text_colour_based_on_main_colour
 		return result
diff --git a/abstract/styling/NodeStyle.py b/abstract/styling/NodeStyle.py
index 2780792..e8c5001 100755
--- a/abstract/styling/NodeStyle.py
+++ b/abstract/styling/NodeStyle.py
@@ -89,7 +89,7 @@ class NodeStyle:
 		result = self.__class__(
 			colour=self._colour, fill_colour=self._fill_colour, border_colour=self._border_colour,
 			opacity=self._opacity, font=self._font, text_colour=self._text_colour, text_size=self._text_size,
-			shape=self._shape, shape_style=self._shape_style
+			shape=self._shape, shape_style=self._shape_style, lighter_fill=self._lighter_fill
 		)
 		result._fill_colour_based_on_main_colour = self._fill_colour_based_on_main_colour
 		result._text_colour_based_on_main_colour = self._text_colour_based_on_main_colour
-- 
2.43.0


From ae6ed02c821a4f4ab231552e9398e10ccfcf6bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:33 +0000
Subject: [PATCH 19/37] fix: rendering failed for a loop that is entered from
 outside

A node in a loop with a parent outside any loop was given a style neither as a
root nor as a branch node, so styling its edges raised AttributeError.
---
 abstract/styling/stylize_with_pensieve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract/styling/stylize_with_pensieve.py b/abstract/styling/stylize_with_pensieve.py
index 9764f88..c17f538 100755
--- a/abstract/styling/stylize_with_pensieve.py
+++ b/abstract/styling/stylize_with_pensieve.py
@@ -31,7 +31,7 @@ def stylize_with_pensieve(
 
 	# branch nodes
 	for node in graph.nodes:
-		if not is_root_or_parents_are_in_loop(node) and not node.is_in_loop():
+		if not is_root_or_parents_are_in_loop(node):
 			if node.style is None:
 				node.style = inherit_style(
 					node=node, pale_ratio=pale_ratio, divergence_ratio=divergence_ratio, main_style=node_style
-- 
2.43.0


From 75fd2a6ee2a8773ec01d42fb9b24a4cea98331c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:34 +0000
Subject: [PATCH 20/37] fix: the random stylist failed on nodes that have a
 style

so a graph with a styled node could not be rendered, and no graph twice.
---
 abstract/styling/stylize_randomly.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/abstract/styling/stylize_randomly.py b/abstract/styling/stylize_randomly.py
index ce200d7..7a797d0 100755
--- a/abstract/styling/stylize_randomly.py
+++ b/abstract/styling/stylize_randomly.py
@@ -30,7 +30,8 @@ def stylize_randomly(
 			style = node_style.copy()
 			style.reset_colours()
 			style.colour = colour
-		node.style = style
+		if node.style is None:
+			node.style = style
 
 	# branch edges
 	stylize_edges_based_on_nodes(graph=graph, edge_style=edge_style, edge_darkness_ratio=edge_darkness_ratio)
-- 
2.43.0


From a83f9112f1ca2addbdacf65585a4e3e8efe79894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:35 +0000
Subject: [PATCH 21/37] fix: arrow sizes accumulated over the edges, and
 non-numeric edge values failed

The style made for one edge became the base of the next, so each arrow size
was multiplied by the values of all edges before it.
---
 abstract/styling/stylize_edges_based_on_nodes.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/abstract/styling/stylize_edges_based_on_nodes.py b/abstract/styling/stylize_edges_based_on_nodes.py
index 299c341..7511ca1 100755
--- a/abstract/styling/stylize_edges_based_on_nodes.py
+++ b/abstract/styling/stylize_edges_based_on_nodes.py
@@ -7,13 +7,16 @@ def stylize_edges_based_on_nodes(graph, edge_style=None, edge_darkness_ratio=0.1
 			colour = edge.start.style.colour.darken(ratio=edge_darkness_ratio)
 
 			if edge_style is None:
-				edge_style = EdgeStyle(colour=colour)
+				style = EdgeStyle(colour=colour)
 			else:
-				edge_style = edge_style.copy()
-				edge_style.reset_colours()
-				edge_style.colour = colour
+				style = edge_style.copy()
+				style.reset_colours()
+				style.colour = colour
 
 			if edge.value is not None:
-				edge_style._arrow_size *= edge.value
+				try:
+					style._arrow_size *= edge.value
+				except TypeError:  # the value is not a number
+					pass
 
-			edge.style = edge_style
\ No newline at end of file
+			edge.style = style
\ No newline at end of file
-- 
2.43.0


From 76ea41247cb7556610de17220a47e222d2109c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:35 +0000
Subject: [PATCH 22/37] fix: render(path) always wrote a pdf, whatever the
 extension of the path

---
 abstract/_GraphWithoutDisplay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 035cf4b..034b7a0 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -736,7 +736,7 @@ class GraphWithoutDisplay(BasicGraph):
 			to_save = self.get_graphviz_source(
 				direction=direction, pad=pad, dpi=dpi, height=height, width=width, output_format=output_format
 			)
-			to_save.render(filename=filename, view=view)
+			to_save.render(filename=filename, view=view, format=output_format or None)
 			return self.get_graphviz_source(direction=direction, pad=pad, dpi=None)
 
 	"""
-- 
2.43.0


From 7acf9755e567cf18730d6c1ee64b549d15e93475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:38 +0000
Subject: [PATCH 23/37] fix: a graph with a global style could be rendered only
 once

and not at all if one of its nodes or edges has a style of its own
(RuntimeError: Cannot overwrite node style).
---
 abstract/_GraphWithoutDisplay.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 034b7a0..e196868 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -243,11 +243,13 @@ class GraphWithoutDisplay(BasicGraph):
 				smart_global_node_style_overwrite = self._global_node_style_overwrite
 
 			for node in self.nodes:
-				node.style = smart_global_node_style_overwrite
+				if node.style is None or self._style_overwrite_allowed:
+					node.style = smart_global_node_style_overwrite
 
 		if self._global_edge_style_overwrite is not None:
 			for edge in self.edges:
-				edge.style = self._global_edge_style_overwrite
+				if edge.style is None or self._style_overwrite_allowed:
+					edge.style = self._global_edge_style_overwrite
 
 		if self._stylist == 'pensieve':
 			stylize_with_pensieve(graph=self)
-- 
2.43.0


From 9d46fa9cff58f58706fda96f81ac42a5894e0574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:39 +0000
Subject: [PATCH 24/37] fix: a NodeStyle or EdgeStyle as global style (as
 documented) made rendering fail

'shape' in NodeStyle and complement(NodeStyle) raised TypeError.  Every node
and edge gets its own copy.
---
 abstract/_GraphWithoutDisplay.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index e196868..ea12785 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -234,7 +234,7 @@ class GraphWithoutDisplay(BasicGraph):
 		"""Applies styles to the nodes and edges in the graph."""
 		if self._global_node_style_overwrite is not None:
 			smart_global_node_style_overwrite = None
-			if 'shape' in self._global_node_style_overwrite:
+			if isinstance(self._global_node_style_overwrite, dict) and 'shape' in self._global_node_style_overwrite:
 				if self._global_node_style_overwrite['shape'].lower().startswith('auto'):
 					if max([len(str(node.name)) for node in self.nodes]) < 3:
 						smart_global_node_style_overwrite = self._global_node_style_overwrite.copy()
@@ -244,12 +244,12 @@ class GraphWithoutDisplay(BasicGraph):
 
 			for node in self.nodes:
 				if node.style is None or self._style_overwrite_allowed:
-					node.style = smart_global_node_style_overwrite
+					node.style = smart_global_node_style_overwrite.copy()
 
 		if self._global_edge_style_overwrite is not None:
 			for edge in self.edges:
 				if edge.style is None or self._style_overwrite_allowed:
-					edge.style = self._global_edge_style_overwrite
+					edge.style = self._global_edge_style_overwrite.copy()
 
 		if self._stylist == 'pensieve':
 			stylize_with_pensieve(graph=self)
@@ -280,7 +280,7 @@ class GraphWithoutDisplay(BasicGraph):
 
 		if self._global_node_style_overwrite is not None:
 			smart_global_node_style_overwrite = None
-			if 'shape' in self._global_node_style_overwrite:
+			if isinstance(self._global_node_style_overwrite, dict) and 'shape' in self._global_node_style_overwrite:
 				if self._global_node_style_overwrite['shape'].lower().startswith('auto'):
 					if max([len(str(node.name)) for node in self.nodes]) < 3:
 						smart_global_node_style_overwrite = self._global_node_style_overwrite.copy()
@@ -288,10 +288,11 @@ class GraphWithoutDisplay(BasicGraph):
 			if smart_global_node_style_overwrite is None:
 				smart_global_node_style_overwrite = self._global_node_style_overwrite
 
-			for node in self.nodes:
-				node.style.complement(smart_global_node_style_overwrite)
+			if isinstance(smart_global_node_style_overwrite, dict):
+				for node in self.nodes:
+					node.style.complement(smart_global_node_style_overwrite)
 
-		if self._global_edge_style_overwrite is not None:
+		if isinstance(self._global_edge_style_overwrite, dict):
 			for edge in self.edges:
 				edge.style.complement(self._global_edge_style_overwrite)
 
-- 
2.43.0


From d736e903e72b8b9f202b0204cc1feb25d89aca26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:39 +0000
Subject: [PATCH 25/37] fix: rendering an empty graph with an automatic node
 shape raised ValueError

---
 abstract/_GraphWithoutDisplay.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index ea12785..ef3214e 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -236,7 +236,7 @@ class GraphWithoutDisplay(BasicGraph):
 			smart_global_node_style_overwrite = None
 			if isinstance(self._global_node_style_overwrite, dict) and 'shape' in self._global_node_style_overwrite:
 				if self._global_node_style_overwrite['shape'].lower().startswith('auto'):
-					if max([len(str(node.name)) for node in self.nodes]) < 3:
+					if max([len(str(node.name)) for node in self.nodes], default=0) < 3:
 						smart_global_node_style_overwrite = self._global_node_style_overwrite.copy()
 						smart_global_node_style_overwrite['shape'] = 'circle'
 			if smart_global_node_style_overwrite is None:
@@ -282,7 +282,7 @@ class GraphWithoutDisplay(BasicGraph):
 			smart_global_node_style_overwrite = None
 			if isinstance(self._global_node_style_overwrite, dict) and 'shape' in self._global_node_style_overwrite:
 				if self._global_node_style_overwrite['shape'].lower().startswith('auto'):
-					if max([len(str(node.name)) for node in self.nodes]) < 3:
+					if max([len(str(node.name)) for node in self.nodes], default=0) < 3:
 						smart_global_node_style_overwrite = self._global_node_style_overwrite.copy()
 						smart_global_node_style_overwrite['shape'] = 'circle'
 			if smart_global_node_style_overwrite is None:
-- 
2.43.0


From 815973d0dfc617e721fbab31f25ae4b33e9932aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:40 +0000
Subject: [PATCH 26/37] fix: edge style overrides of a description were taken
 as colours

and failed on rendering.  They are also found by the full edge id now, which
is how __graph__ writes them.
---
 abstract/_GraphWithoutDisplay.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index ef3214e..4db862a 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -260,7 +260,9 @@ class GraphWithoutDisplay(BasicGraph):
 			self.nodes_dict[name].style.complement(style)
 
 		for edge_id, style in self._edge_style_overwrites.items():
-			self.edges_dict[edge_id].style = style
+			edge = self.edges_dict[edge_id]
+			edge._style = None
+			edge.style = style
 
 		for name, colour in self._node_colour_overwrites.items():
 			node = self.nodes_dict[name]
@@ -480,11 +482,13 @@ class GraphWithoutDisplay(BasicGraph):
 					parent, child = parent_child_edge_dict
 					edge = self.connect(start=parent, end=child)
 					edges_dict[(parent, child)] = edge.id
+					edges_dict[edge.id] = edge.id
 
 				elif len(parent_child_edge_dict) == 3:
 					parent, child, edge_dict = parent_child_edge_dict
 					edge = self.connect(start=parent, end=child, **edge_dict)
 					edges_dict[(parent, child)] = edge.id
+					edges_dict[edge.id] = edge.id
 
 				elif len(parent_child_edge_dict) < 2:
 					raise ValueError('Too few objects in an edge definition!')
@@ -498,7 +502,7 @@ class GraphWithoutDisplay(BasicGraph):
 			if 'edge_styles' in dictionary:
 				for parent_child_edge_id, edge_style in dictionary['edge_styles'].items():
 					edge_id = edges_dict[parent_child_edge_id]
-					self._edge_colour_overwrites[edge_id] = edge_style
+					self._edge_style_overwrites[edge_id] = edge_style
 
 			if 'node_colours' in dictionary:
 				for name, colour in dictionary['node_colours'].items():
-- 
2.43.0


From b554dc17ef1cb8aa2df6b810f6dcdaa4643ee5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:40 +0000
Subject: [PATCH 27/37] fix: node and edge colour overrides failed unless
 overwriting styles is allowed

---
 abstract/_GraphWithoutDisplay.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 4db862a..5ba2d25 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -269,6 +269,7 @@ class GraphWithoutDisplay(BasicGraph):
 			style = node.style.copy()
 			style.reset_colours()
 			style.colour = colour
+			node._style = None
 			node.style = style
 
 		for edge_id, colour in self._edge_colour_overwrites.items():
@@ -277,6 +278,7 @@ class GraphWithoutDisplay(BasicGraph):
 			style = edge.style.copy()
 			style.reset_colours()
 			style.colour = colour
+			edge._style = None
 			edge.style = style
 			_ = edge.style.colour
 
-- 
2.43.0


From ef74f23892719c88e374c3f83e29099adbc3c839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:41 +0000
Subject: [PATCH 28/37] fix: rendering failed after removing a node or edge
 that has a style override

---
 abstract/_GraphWithoutDisplay.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 5ba2d25..6102604 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -257,14 +257,20 @@ class GraphWithoutDisplay(BasicGraph):
 			stylize_randomly(graph=self)
 
 		for name, style in self._node_style_overwrites.items():
+			if name not in self.nodes_dict:
+				continue
 			self.nodes_dict[name].style.complement(style)
 
 		for edge_id, style in self._edge_style_overwrites.items():
+			if edge_id not in self.edges_dict:
+				continue
 			edge = self.edges_dict[edge_id]
 			edge._style = None
 			edge.style = style
 
 		for name, colour in self._node_colour_overwrites.items():
+			if name not in self.nodes_dict:
+				continue
 			node = self.nodes_dict[name]
 			style = node.style.copy()
 			style.reset_colours()
@@ -273,6 +279,8 @@ class GraphWithoutDisplay(BasicGraph):
 			node.style = style
 
 		for edge_id, colour in self._edge_colour_overwrites.items():
+			if edge_id not in self.edges_dict:
+				continue
 			edge = self.edges_dict[edge_id]
 			_ = edge.style.colour
 			style = edge.style.copy()
-- 
2.43.0


From a81ce004f184d60df660346b7494980853da6983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:41 +0000
Subject: [PATCH 29/37] fix: a node style override changed every node with the
 same style object

---
 abstract/_GraphWithoutDisplay.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 6102604..49486d4 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -259,7 +259,9 @@ class GraphWithoutDisplay(BasicGraph):
 		for name, style in self._node_style_overwrites.items():
 			if name not in self.nodes_dict:
 				continue
-			self.nodes_dict[name].style.complement(style)
+			node = self.nodes_dict[name]
+			node._style = node.style.copy()  # other nodes may have the same style object
+			node.style.complement(style)
 
 		for edge_id, style in self._edge_style_overwrites.items():
 			if edge_id not in self.edges_dict:
-- 
2.43.0


From 57eff578d59e8095367a53debe1f6adf5c36f564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:13 +0000
Subject: [PATCH 30/37] fix: __graph__ left out edge colour overrides and
 listed those of removed edges

so they were lost in Graph(obj=graph), or building it raised KeyError.
---
 abstract/_GraphWithoutDisplay.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 49486d4..d3e760b 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -577,10 +577,11 @@ class GraphWithoutDisplay(BasicGraph):
 			'label': self._label,
 			'label_url': self._label_url,
 			'node_styles': self._node_style_overwrites,
-			'edge_styles': self._edge_style_overwrites,
+			'edge_styles': {key: style for key, style in self._edge_style_overwrites.items() if key in self.edges_dict},
 			'global_node_style': self._global_node_style_overwrite,
 			'global_edge_style': self._global_edge_style_overwrite,
 			'node_colours': self._node_colour_overwrites,
+			'edge_colours': {key: colour for key, colour in self._edge_colour_overwrites.items() if key in self.edges_dict},
 			'nodes': nodes_dict,
 			'edges': edges_list
 		}
-- 
2.43.0


From f72e478a5d301b48d98ce909f6fb5236b4367af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:03 +0000
Subject: [PATCH 31/37] fix: names, labels and tooltips could break out of
 their DOT strings

Only double quotes of node labels were escaped (in the label property itself,
so labels did not read back as set, and a label ending in a backslash or with
an escaped quote still ended the string early).  Quote all of them where the
text is written.
---
 abstract/Edge.py                 |  7 ++++---
 abstract/Node.py                 |  9 +++++----
 abstract/_GraphWithoutDisplay.py |  5 +++--
 abstract/quote.py                | 26 ++++++++++++++++++++++++++
 4 files changed, 38 insertions(+), 9 deletions(-)
 create mode 100644 abstract/quote.py

diff --git a/abstract/Edge.py b/abstract/Edge.py
index 8761318..7f2d858 100755
--- a/abstract/Edge.py
+++ b/abstract/Edge.py
@@ -1,4 +1,5 @@
 from ._GraphObj import GraphObj
+from .quote import quote
 from .styling.EdgeStyle import EdgeStyle
 from .Node import Node
 from typing import Optional, Union, Dict, Tuple
@@ -144,9 +145,9 @@ class Edge(GraphObj):
 		label_or_value = self.display_label_or_value()
 		style = self.style
 		if label_or_value is not None:
-			parts.append(f'label="{label_or_value}"')
+			parts.append(f'label={quote(label_or_value)}')
 		if self._tooltip is not None:
-			parts.append(f'tooltip="{self._tooltip}"')
+			parts.append(f'tooltip={quote(self._tooltip)}')
 		if style is not None:
 			parts.append(style.get_graphviz_str())
 
@@ -155,7 +156,7 @@ class Edge(GraphObj):
 		else:
 			second_part = ''
 
-		return f'"{self.start.name}" -> "{self.end.name}"' + second_part
+		return f'{quote(self.start.name)} -> {quote(self.end.name)}' + second_part
 
 	@property
 	def start(self) -> Node:
diff --git a/abstract/Node.py b/abstract/Node.py
index ec95fe0..9859933 100755
--- a/abstract/Node.py
+++ b/abstract/Node.py
@@ -1,4 +1,5 @@
 from ._GraphObj import GraphObj
+from .quote import quote
 from .styling.NodeStyle import NodeStyle
 from typing import Optional, Union, List, Dict
 
@@ -228,7 +229,7 @@ class Node(GraphObj):
 			result = str(self._label)
 		else:
 			result = str(self.id)
-		return result.replace('"', '\\"')
+		return result
 
 	@label.setter
 	def label(self, label: str):
@@ -322,16 +323,16 @@ class Node(GraphObj):
 			str: The Graphviz representation.
 		"""
 
-		parts = [f'label="{self.display_label()}"']
+		parts = [f'label={quote(self.display_label())}']
 
 		if self._tooltip is not None:
-			parts.append(f'tooltip="{self._tooltip}"')
+			parts.append(f'tooltip={quote(self._tooltip)}')
 
 		style = self.style
 		if style is not None:
 			parts.append(style.get_graphviz_str())
 
-		return f'"{self.id}" [' + ' '.join(parts) + ']'
+		return f'{quote(self.id)} [' + ' '.join(parts) + ']'
 
 	def connect_to(self, node: 'Node', **kwargs) -> 'GraphObj':
 		"""
diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index d3e760b..24852bc 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -1,6 +1,7 @@
 from ._BasicGraph import BasicGraph
 from .styling.NodeStyle import NodeStyle
 from .styling.EdgeStyle import EdgeStyle
+from .quote import quote
 from graphviz import Source
 import os
 from functools import wraps
@@ -349,7 +350,7 @@ class GraphWithoutDisplay(BasicGraph):
 					else:
 						attributes['label'] = f'<\n{html}>'
 				else:
-					attributes['label'] = f'"{self._label}"'
+					attributes['label'] = quote(self._label)
 
 			if self._label_location is not None:
 				attributes['labelloc'] = f'"{self._label_location[0]}"'
@@ -364,7 +365,7 @@ class GraphWithoutDisplay(BasicGraph):
 				attributes['target'] = '"_blank"'
 
 		if self._tooltip is not None:
-			attributes['tooltip'] = f'"{self._tooltip}"'
+			attributes['tooltip'] = quote(self._tooltip)
 
 		#if dpi is not None:
 		#	attributes['dpi'] = f'{dpi}'
diff --git a/abstract/quote.py b/abstract/quote.py
new file mode 100644
index 0000000..745f532
--- /dev/null
+++ b/abstract/quote.py
@@ -0,0 +1,26 @@
+def quote(text) -> str:
+	"""
+	Quotes a text for Graphviz.
+
+	Double quotes are escaped, and so are backslashes that would otherwise escape the character that follows them (a double
+	quote, a line break, or the closing quote). Any other backslash is left alone, as it may be part of a Graphviz escape sequence.
+
+	Args:
+		text: The text to be quoted, or any object to be shown as text.
+
+	Returns:
+		str: The text between double quotes.
+	"""
+	result = ''
+	num_backslashes = 0
+	for character in str(text):
+		if character == '\\':
+			num_backslashes += 1
+		else:
+			if character == '"':
+				result += '\\' * (num_backslashes + 1)
+			elif character == '\n':
+				result += '\\' * num_backslashes
+			num_backslashes = 0
+		result += character
+	return '"' + result + '\\' * num_backslashes + '"'
-- 
2.43.0


From 6b9e88535f18c25d732ea9f4d19c56ff3c916905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:01 +0000
Subject: [PATCH 32/37] fix: only numeric edge values scale the arrow size (a
 string was repeated by an integer size)

---
 abstract/styling/stylize_edges_based_on_nodes.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/abstract/styling/stylize_edges_based_on_nodes.py b/abstract/styling/stylize_edges_based_on_nodes.py
index 7511ca1..7194796 100755
--- a/abstract/styling/stylize_edges_based_on_nodes.py
+++ b/abstract/styling/stylize_edges_based_on_nodes.py
@@ -1,3 +1,5 @@
+from numbers import Real
+
 from .EdgeStyle import EdgeStyle
 
 
@@ -13,10 +15,7 @@ def stylize_edges_based_on_nodes(graph, edge_style=None, edge_darkness_ratio=0.1
 				style.reset_colours()
 				style.colour = colour
 
-			if edge.value is not None:
-				try:
-					style._arrow_size *= edge.value
-				except TypeError:  # the value is not a number
-					pass
+			if isinstance(edge.value, Real):
+				style._arrow_size *= edge.value
 
 			edge.style = style
\ No newline at end of file
-- 
2.43.0


From 51668ec639bfd8ea1f4e6c8b2c3a7d3802b3907a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:40 +0000
Subject: [PATCH 33/37] fix: a removed node can be added again and belongs to
 its new graph

---
 abstract/_BasicGraph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index d56655a..25d0ea7 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -321,6 +321,8 @@ class BasicGraph:
 						raise ValueError(f'node with id "{node.id}" is already in a graph but not in the graph dictionary: {self.nodes_dict.keys()}')
 					else:
 						raise ValueError(f'node with id "{node.id}" is already in a graph!')
+				node._graph = self
+				node._index = self.generate_node_index()
 				self.nodes_dict[node.id] = node
 				return node
 		else:
-- 
2.43.0


From 735fe74c2b55afcf9ec6844d553d05fff0fc9c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:59 +0000
Subject: [PATCH 34/37] fix: adding or connecting again with a value changed
 label and style of a frozen node or edge before it was refused

---
 abstract/_BasicGraph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index 25d0ea7..18ffa23 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -291,6 +291,8 @@ class BasicGraph:
 					raise KeyError(f'duplicate node id:"{name}"!')
 
 				node = self.get_node(node=name)
+				if value is not None and node.is_frozen:
+					raise RuntimeError('GraphObj is frozen!')
 				if style is not None:
 					node.style = style
 				if label is not None:
@@ -697,6 +699,8 @@ class BasicGraph:
 				raise ValueError(f'Error! Edge {edge_id} already exists!')
 
 			edge = start.get_outward_edge(id=edge_id)
+			if value is not None and edge.is_frozen:
+				raise RuntimeError('GraphObj is frozen!')
 			if style is not None:
 				edge.style = style
 			if label is not None:
-- 
2.43.0


From b7ad70ad1c636e76398037b45d825a8eb8e3402e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:53 +0000
Subject: [PATCH 35/37] fix: a style for all nodes or edges given as a
 dictionary changed the style objects that other graphs use

---
 abstract/_GraphWithoutDisplay.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 24852bc..1e1e542 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -305,10 +305,12 @@ class GraphWithoutDisplay(BasicGraph):
 
 			if isinstance(smart_global_node_style_overwrite, dict):
 				for node in self.nodes:
+					node._style = node.style.copy()  # the style object may be used elsewhere
 					node.style.complement(smart_global_node_style_overwrite)
 
 		if isinstance(self._global_edge_style_overwrite, dict):
 			for edge in self.edges:
+				edge._style = edge.style.copy()
 				edge.style.complement(self._global_edge_style_overwrite)
 
 	def get_graphviz_header(
-- 
2.43.0


From 6ecfcbf6509e22300db3199f390a581e00d69ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:46 +0000
Subject: [PATCH 36/37] fix: inverting a node style lost a fill or border
 colour that was set after the style was made

---
 abstract/styling/NodeStyle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/abstract/styling/NodeStyle.py b/abstract/styling/NodeStyle.py
index e8c5001..145b559 100755
--- a/abstract/styling/NodeStyle.py
+++ b/abstract/styling/NodeStyle.py
@@ -135,6 +135,7 @@ class NodeStyle:
 	def fill_colour(self, fill_colour):
 		if fill_colour is not None:
 			self._fill_colour = Colour(fill_colour)
+			self._fill_colour_based_on_main_colour = False
 
 	@property
 	def border_colour(self):
@@ -147,6 +148,7 @@ class NodeStyle:
 	def border_colour(self, border_colour):
 		if border_colour is not None:
 			self._border_colour = Colour(border_colour)
+			self._border_colour_based_on_main_colour = False
 
 	@property
 	def text_colour(self):
-- 
2.43.0


From 651b4114c314c384bf7cecb6906e79b326fab5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:34 +0000
Subject: [PATCH 37/37] fix: the sum of two graphs lost the colours given to
 nodes and edges

---
 abstract/_GraphWithoutDisplay.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 1e1e542..f28dddd 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -662,6 +662,12 @@ class GraphWithoutDisplay(BasicGraph):
 		edge_styles = d1['edge_styles'].copy()
 		edge_styles.update(d2['edge_styles'])
 
+		node_colours = d1['node_colours'].copy()
+		node_colours.update(d2['node_colours'])
+
+		edge_colours = d1['edge_colours'].copy()
+		edge_colours.update(d2['edge_colours'])
+
 		if add_values_function is None:
 			def add_values_function(x, y):
 				if x is None or y is None:
@@ -715,6 +721,8 @@ class GraphWithoutDisplay(BasicGraph):
 			'ordering': d1['ordering'],
 			'node_styles': node_styles,
 			'edge_styles': edge_styles,
+			'node_colours': node_colours,
+			'edge_colours': edge_colours,
 			'nodes': nodes,
 			'edges': edges
 		}
-- 
2.43.0

