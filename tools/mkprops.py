"""Source of /verif/properties.jsonl (one dict per property)."""
import json, os
B = 'abstract/_BasicGraph.py'; W = 'abstract/_GraphWithoutDisplay.py'; N = 'abstract/Node.py'; E = 'abstract/Edge.py'
O = 'abstract/_GraphObj.py'; GA = 'abstract/get_ancestors.py'; GD = 'abstract/get_descendants.py'
PI = 'abstract/parse_indentations_function.py'; NS = 'abstract/styling/NodeStyle.py'; ES = 'abstract/styling/EdgeStyle.py'
SP = 'abstract/styling/stylize_with_pensieve.py'; SR = 'abstract/styling/stylize_randomly.py'
SE = 'abstract/styling/stylize_edges_based_on_nodes.py'; IH = 'abstract/styling/inherit_style.py'
LC = 'abstract/styling/get_least_used_colour.py'; RL = 'abstract/styling/is_root_or_parents_are_in_loop.py'
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))


p('C01', 'Node registry is exact over every history of additions and removals',
  "After any sequence of node additions and removals, the graph lists exactly the names added and not since removed, each once and in order of (latest) addition, and looking a present node up by its name or by its node object returns the node registered under that name while a removed name is absent. "
  "Adding a name that is already present never creates a second node: it returns the existing node, changes only the label, value or style that were passed (not None), and warns, stays silent or raises KeyError (leaving the graph unchanged) according to if_node_exists. "
  "Nodes added later compare greater than nodes added earlier, even when nodes were removed in between.",
  ['histories', 'inputs'], 'all sequences of add_node/remove_node with arbitrary names, labels, values and duplicate policies',
  'The tests add or remove one node each; no test re-adds a name, adds after a removal, or uses a policy other than the default.',
  [B, W, N], [('duplicate-name branch', B + ':add_node'), ('removal', B + ':remove_node'), ('index counter', B + ':generate_node_index'), ('lookup', B + ':get_node')],
  ['Graph.nodes', 'Graph.nodes_dict', 'Graph.get_node', 'name in graph', 'Node ordering'],
  [('_nodes_dict', 'name to node registry', B), ('_node_counter', 'next creation index', B)])

p('C02', 'Edge incidence stays symmetric and complete over every history',
  "After any sequence of node additions, connections, disconnections, edge removals and node removals, an edge is listed as outward at its start node if and only if it is listed as inward at its end node, and both end nodes are still registered in the graph. "
  "The edges of the graph are exactly the connections made and not since removed (a removed node removes all its edges, self-loops included, and no others), each listed once and keyed by (start name, end name, id). "
  "The children of a node are exactly the end nodes of its outward edges and its parents exactly the start nodes of its inward edges.",
  ['histories', 'inputs'], 'all sequences of add_node/connect/disconnect/Edge.remove_self/remove_node, including self-loops and parallel edges with distinct ids',
  'The tests build one fixed 5-node tree and remove one edge between two nodes; self-loops, parallel edges and removal of a connected node are never exercised.',
  [B, E, N], [('edge registration at both ends', E + ':__init__'), ('removal', E + ':remove_self'), ('disconnect', B + ':disconnect'), ('node removal cascades', N + ':remove_edges')],
  ['Graph.edges', 'Graph.edges_dict', 'Node.outward_edges', 'Node.inward_edges', 'Node.children', 'Node.parents', 'Graph.get_edges'],
  [('_outward_edges_dict', 'edges leaving a node', N), ('_inward_edges_dict', 'edges entering a node', N)])

p('C03', 'connect creates one edge per (start, end, id) and honours its policy',
  "Connecting two nodes with a (start, end, id) that is not present creates exactly one edge with the given label, value and style from start to end, whichever mix of names and node objects is used; a different id, or the opposite direction, is a different edge. "
  "Connecting again with a (start, end, id) that is present returns the existing edge, updates only the label, value or style passed (not None), and warns, stays silent or raises ValueError (leaving the edge unchanged) according to if_edge_exists. "
  "Connecting from or to a name that is not in the graph raises KeyError and leaves the graph unchanged.",
  ['histories', 'inputs'], 'all pairs of connect calls over arbitrary endpoints, ids (including falsy ones), labels, values and policies',
  'The tests never connect the same pair twice and never pass an id, label or value to connect.',
  [B, E, N], [('duplicate-edge branch', B + ':connect'), ('edge id triple', E + ':id')], ['return value of Graph.connect', 'Node.connect_to', 'Node.connect_from', 'Graph.edges', 'warnings'])

p('C04', 'Ancestors and descendants are exactly the reachable nodes',
  "The descendants of a node are exactly the other nodes reachable from it along one or more edges and its ancestors are exactly the other nodes from which it is reachable, each listed once, whether asked through the node or through the graph by name or node object; the computation terminates on every graph. "
  "A node is listed among its own ancestors exactly when it lies on a directed cycle, and never among its own descendants. "
  "The number of descendants equals the length of the descendant list, and asking leaves the graph unchanged.",
  ['inputs'], 'all directed graphs, with cycles, self-loops, parallel edges and any insertion order of nodes and edges',
  'The tests check one 5-node tree; they never contain a cycle, a diamond or a self-loop.',
  [B, N], [('ancestor traversal', B + ':_get_ancestors'), ('descendant traversal', B + ':_get_descendants')], ['Node.ancestors', 'Node.descendants', 'Graph.get_ancestors', 'Graph.get_descendants', 'Node.num_descendants'])

p('C05', 'Distance maps give every relative once, at its shortest distance',
  "Asking the graph for ancestors or descendants with distances returns a mapping from distance to nodes in which every ancestor (descendant) of the node appears exactly once, under the length of the shortest directed path between the two. "
  "The nodes of the mapping are the same set as the plain ancestor (descendant) list, no distance maps to an empty list, and a node without relatives gives an empty mapping.",
  ['inputs'], 'all directed graphs and query nodes', 'No test asks for distances.',
  [B], [('distance bookkeeping', B + ':get_ancestors'), ('distance bookkeeping', B + ':get_descendants')], ['Graph.get_ancestors(distance=True)', 'Graph.get_descendants(distance=True)'])

p('C06', 'Loop detection is exact',
  "A node is reported in a loop exactly when it lies on a directed cycle (self-loops included), and the list of loop nodes is exactly those nodes in graph order. "
  "Two nodes are reported in the same loop exactly when each is reachable from the other along one or more edges, symmetrically in the two nodes and whether given by name or node object. "
  "An edge is reported in a loop exactly when its start is reachable from its end along one or more edges.",
  ['inputs'], 'all directed graphs and all pairs of nodes', 'No test contains a cycle.',
  [B, N, E], [('cycle test', B + ':is_node_in_loop'), ('mutual reachability', B + ':are_nodes_in_same_loop')], ['Node.is_in_loop', 'Node.is_in_loop_with', 'Edge.is_in_loop', 'Graph.loop_nodes'])

p('C07', 'Roots, absolute roots and leaves are exact and roots cover the graph',
  "The absolute roots are exactly the nodes without parents and the leaves exactly the nodes without children, in graph order. "
  "The roots contain every absolute root, every node of the graph is a root or reachable from a root, no root is reachable from a different root, and among the nodes of a cycle that nothing outside it leads to, the root is the first in graph order.",
  ['inputs'], 'all directed graphs and insertion orders', 'No test asks for roots or leaves.',
  [B], [('root elimination', B + ':roots'), ('absolute roots', B + ':absolute_roots'), ('leaves', B + ':leaves')], ['Graph.roots', 'Graph.absolute_roots', 'Graph.leaves'])

p('C08', 'Siblings and co-parents are exact',
  "The siblings of a node are exactly the other nodes that share at least one parent with it, and its co-parents (spouses) exactly the other nodes that share at least one child with it; each is listed once, and the node itself never is. "
  "The node-level and graph-level answers contain the same nodes, and the has_/num_ variants for parents, children, siblings and spouses agree with the lists.",
  ['inputs'], 'all directed graphs, including self-loops and parallel edges', 'The tests check co-parents of two nodes in one tree and never ask for siblings.',
  [B, N], [('siblings', B + ':get_siblings'), ('spouses', B + ':get_spouses'), ('siblings', N + ':siblings'), ('co-parents', N + ':co_parents')], ['Node.siblings', 'Node.co_parents', 'Graph.get_siblings', 'Graph.get_spouses', 'num_*/has_*'])

p('C09', 'A copy reproduces the graph and shares no structure with it',
  "A copy of a graph (copy(), deepcopy, or a pickle round trip) has the same nodes in the same order with the same names, labels, values and comparison order, the same edges with the same endpoints, ids, labels and values, and the same strict/ordering flags and display settings (direction, label, fonts, stylist, colours, label converters), and equal style attributes where nodes or edges are styled; its nodes and edges belong to the copy. "
  "Adding, removing, connecting, disconnecting, relabelling or rendering on either graph afterwards leaves the other unchanged. "
  "A copied graph can be rendered and modified like the original.",
  ['inputs', 'histories'], 'all graphs (cycles, self-loops, parallel edges, styled or not) and subsequent mutations', 'No test copies a graph.',
  [B, W, N, E, O, NS, ES], [('graph state', B + ':__getstate__'), ('node state', N + ':__setstate__'), ('edge relinking', N + ':update_edges'), ('style state', NS + ':__getstate__')], ['Graph.copy', 'copy.deepcopy', 'pickle'])

p('C10', 'filter keeps exactly the selected neighbourhood as an induced subgraph',
  "Filtering with filter_type 'include' yields a new graph whose nodes are exactly the given nodes plus, for direction 'to' their ancestors, for 'from' their descendants, and for 'to_and_from' both; any other filter_type yields exactly the complement of that set. "
  "The result has exactly the original edges whose two ends are kept, with their ids, labels and values, and the original graph is left unchanged.",
  ['inputs'], 'all directed graphs, selections (by name or node object), directions and filter types', 'No test filters a graph.',
  [B], [('relatives selection', B + ':filter')], ['Graph.filter'])

p('C11', 'Graph union (+) contains both graphs and modifies neither',
  "The sum of two graphs contains exactly the union of their node names and the union of their (start, end, id) edges; a node or edge present in only one graph keeps its label and value, and one present in both keeps the first graph's label if it has one and else the second's, and combines values as value1 + value2 when both are set (or with the supplied function) and the set one otherwise. "
  "Both operands are left unchanged.",
  ['inputs'], 'all pairs of graphs with arbitrary overlaps, labels and values (falsy values such as 0 and empty strings included)', 'No test adds two graphs.',
  [W], [('merge', W + ':add'), ('dictionary form', W + ':__graph__'), ('rebuild', W + ':append')], ['Graph.__add__', 'Graph.add'])

p('C12', 'Building a graph from a graph or a description keeps its nodes and edges',
  "Building a graph from an object with __graph__() (a graph included) or from a description dictionary yields exactly the described nodes and edges: same names in the same order, same labels, values and styles, same edge endpoints and ids, and the described strict and ordering flags, label, tooltip, link, direction and styles for all nodes or edges (what is not described stays as it was). "
  "Nodes may be given as a list of names or a dictionary of attributes and edges as pairs or triples; a list of sources is accumulated; an edge definition with fewer than two or more than three parts raises ValueError and an object that is neither a dictionary nor has a __graph__() method raises TypeError. "
  "The source is left unchanged.",
  ['inputs'], 'all graphs and all description dictionaries', 'No test builds a graph from an object or dictionary.',
  [W], [('rebuild', W + ':append'), ('dictionary form', W + ':__graph__')], ['Graph(obj)', 'Graph.append', 'Graph.from_dict', 'Graph.__graph__'])

p('C13', 'from_lists reproduces the listed edges in order',
  "Building a graph from parallel lists of starts, ends and edge labels yields exactly the listed names as nodes in order of first appearance and one edge per position, from that position's start to its end, carrying that position's label, even when the same pair occurs several times.",
  ['inputs'], 'all lists of equal length over arbitrary names and labels (repeats, self-loops)', 'No test uses from_lists.',
  [B], [('construction', B + ':from_lists')], ['Graph.from_lists'])

p('C14', 'Object ancestors/descendants are exact up to the depth limit',
  "For any objects exposing parents and children, the ancestors (descendants) of an object are exactly the other objects reachable over parent (child) links in at most the given maximum number of steps (without limit when none is given), each once and never the object itself; the search terminates on cyclic structures. "
  "With distances, the result maps each shortest distance to the objects at that distance, each object once. "
  "A limit of zero gives nothing.",
  ['inputs'], 'all finite object structures, cyclic ones included, and all limits', 'No test uses these functions on foreign objects or with a limit.',
  [GA, GD], [('ancestor search', GA), ('descendant search', GD)], ['get_ancestors', 'get_descendants'])

p('C15', 'from_object builds exactly the reachable object graph',
  "Building a graph from an object with parents and children yields one node per object among the object, its descendants and its ancestors (within the given limits), named by the object's hash and labelled with its string form. "
  "There is an edge from one object to another exactly when the link lies between two of the object and its descendants, or between two of the object and its ancestors, that are all within the limits.",
  ['inputs'], 'all finite object structures with consistent parent and child links, and all limits', 'No test uses from_object.',
  [B, GA, GD], [('construction', B + ':from_object')], ['Graph.from_object'])

p('C16', 'Indented outlines are parsed into the right tree',
  "For an outline whose non-blank lines are indented by whole multiples of one unit (a run of spaces or a tab, given or inferred from the first indented line), parsing yields for each non-blank line its position, its depth, its text without the indentation, and as parent the position of the closest earlier line of one depth less (none at depth zero); the graph built from it has a root with the given label and one node per line attached to that parent or the root. "
  "A line that is deeper than its predecessor by more than one level, or not a whole multiple of the unit, raises ValueError; blank lines (empty or only white space) never raise.",
  ['inputs'], 'all sequences of lines with arbitrary depths, units and text', 'No test parses an outline.',
  [PI, B], [('outline parser', PI), ('graph construction', B + ':from_indented_text')], ['Graph.from_indented_text', 'parse_indentations'])

p('C17', 'Random graphs respect their parameters',
  "For every outcome of the random generator, a random graph has exactly the requested nodes named by consecutive integers from the start index, in order; without cycle permission every edge goes from a smaller to a larger number (so there is no loop), and no pair is connected twice in the same direction. "
  "The nodes carry nothing but their names. A connection probability (0.5 if none is given) of 0 or less gives no edge, and 1 or more gives every permitted edge; otherwise an edge exists exactly where its draw falls below the probability. "
  "The seed, when given (0 included), is the only thing besides the parameters that the result depends on, and the strict and ordering flags are passed on.",
  ['inputs'], 'all sizes, start indices, probabilities, seeds and random draws', 'No test builds a random graph.',
  [W], [('generator', W + ':random')], ['Graph.random'])

p('C18', 'The DOT text declares every node and edge exactly once, in full',
  "The generated DOT text declares every node of the graph exactly once and every edge exactly once as start -> end, with its label passed through the label converter (or, for an edge without label, its value) and with its tooltip and style when set; it declares nothing else. "
  "The header says strict exactly when the graph is strict, carries the layout direction (given or the graph's own; TB by omission), the graph label, tooltip, size, padding and extra attributes when set, and ordering=out exactly when the graph is not ordered. "
  "Generating the text changes nothing in the graph and gives the same text each time.",
  ['inputs', 'configurations'], 'all graphs, labels, values, converters and display settings', 'No test looks at the generated text.',
  [W, N, E, NS, ES, O], [('graph text', W + ':get_graphviz_str'), ('header', W + ':get_graphviz_header'), ('node text', N + ':get_graphviz_str'), ('edge text', E + ':get_graphviz_str')], ['Graph.get_graphviz_str', 'Graph.get_graphviz_header', 'Node.get_graphviz_str', 'Edge.get_graphviz_str'])

p('C19', 'No name, label or tooltip can break out of its DOT string',
  "Whatever characters a node name, label, tooltip or an edge label or value contains, the DOT statement for the node or edge is well formed: every quoted string is closed where it should be, the statement contains only the intended identifiers and attributes, and the text of a name read back by the DOT rules is the original name (only backslashes directly before a double quote, a line break or the end are read back doubled), so distinct names stay distinct. "
  "In particular double quotes and backslashes in user text never end the string early.",
  ['inputs'], 'all strings as names, labels, tooltips and values', 'No test generates DOT, and the hazard is in single characters at particular positions.',
  [N, E, W], [('label escaping', N + ':label'), ('node text', N + ':get_graphviz_str'), ('edge text', E + ':get_graphviz_str')], ['Node.get_graphviz_str', 'Edge.get_graphviz_str'])

p('C20', 'The tree text shows every node, expands each once, and terminates',
  "The tree text of a graph terminates on every graph and has one line per root plus one line per edge (parallel edges included), so every node appears at least once. "
  "A node's children are listed below it, in order and with the last one marked by the corner sign, exactly once; every further occurrence of an already expanded node that has children is marked with a star and not expanded. "
  "Every line carries the label of its node in full.",
  ['inputs'], 'all directed graphs with arbitrary labels', 'No test prints a tree.',
  [B, N], [('tree of graph', B + ':get_tree_str'), ('tree of node', N + ':get_tree_str')], ['Graph.get_tree_str', 'Node.get_tree_str'])

p('C21', 'Rendering styles every node and edge, keeps user styles, and is repeatable',
  "Rendering any graph with any built-in stylist (or a global node or edge style) succeeds, terminates and leaves every node and every edge with a style, whatever loops the graph contains. "
  "A style the user gave to a node or edge is kept: the styles chosen by the stylist never replace it, and a global style given as a dictionary changes only the attributes it lists. "
  "Rendering again without changes succeeds and produces the same text, and no style object or dictionary handed in is changed by rendering. The node_styles and edge_styles dictionaries hold exactly the styled nodes and edges with their styles.",
  ['inputs', 'configurations', 'histories'], 'all directed graphs (all loop structures), partial user styles, stylists and repeated renderings', 'No test renders a graph.',
  [W, SP, SR, SE, IH, RL], [('stylize', W + ':stylize'), ('root and branch colouring', SP), ('inheritance recursion', IH), ('semi-root test', RL)], ['Graph.render', 'Node.style', 'Edge.style'])

p('C22', 'Style objects copy, persist and merge without losing attributes',
  "A copy of a node or edge style, and its pickle or deepcopy, has exactly the same attributes as the original (colours, opacity, font, text size, shape, line width, arrow size, label style, fill mode), and changing either afterwards leaves the other unchanged. "
  "Complementing a style with a dictionary sets exactly the listed attributes and leaves the others; names beginning with an underscore that do not exist raise ValueError. "
  "The style's DOT text lists each attribute that is set exactly once with its current value and omits unset ones. A style whose colours are reset and whose colour is then set looks like one made with that colour and the same other attributes; without a fill, border or text colour of its own, a node style has a fill lighter and a border darker than its colour (the other way round without lighter_fill) and a text that stands out from its fill. None given as a colour leaves a node style as it is and gives the text of an edge style the colour of the edge. Inverting gives a new style in which every colour given is inverted and every other follows from those.",
  ['inputs'], 'all attribute values', 'The tests only store a default style and read the same object back.',
  [NS, ES], [('copy', NS + ':copy'), ('copy', ES + ':copy'), ('state', NS + ':__getstate__'), ('complement', NS + ':complement')], ['NodeStyle', 'EdgeStyle', 'get_graphviz_str'])

p('C23', 'Node order, equality and hashing agree',
  "Within a graph, node comparison is a total order: exactly one of <, ==, > holds for any two nodes, <= and >= agree with them, != is the negation of == (for edges as well), and the order is transitive. "
  "Equal nodes and equal edges have equal hashes, and hashes are stable; two distinct nodes or edges of one graph are never equal. "
  "Comparing a node or edge with something else for equality raises TypeError, as does comparing edges of different graphs with ValueError.",
  ['inputs'], 'all creation orders, names and ids', 'The tests compare nodes only for equality with themselves.',
  [N, O, E], [('node order', N + ':__lt__'), ('node hash', N + ':__hash__'), ('edge equality', O + ':__eq__'), ('edge hash', O + ':__hash__')], ['Node comparison operators', 'hash(Node)', 'hash(Edge)'])

p('C24', 'Values, parameters and freezing behave as a small state machine',
  "The value of a node or edge reads back what was last set; while the object is frozen, setting the value raises RuntimeError and changes nothing, and after unfreezing it can be set again; frozen reports the current state. "
  "Extra parameters given at creation or set later read back under their key, independently for every object, and an unknown key raises KeyError. "
  "The label of a node falls back to its name when unset or empty.",
  ['histories', 'inputs'], 'all sequences of set/freeze/unfreeze/item operations with arbitrary keys and values', 'The tests read back one value given at creation and never freeze.',
  [O, N, E, B], [('frozen guard', O + ':value'), ('parameters', O + ':__getitem__')], ['GraphObj.value', 'GraphObj.freeze', 'obj[key]', 'Node.label'])

p('C25', 'Similarity is a decision, symmetric, and sensitive to every difference',
  "Asking whether two graphs are similar always answers and never raises, is reflexive and symmetric, and is true for a graph and its unstyled copy. "
  "It is false whenever the graphs differ in a node name, a node or edge value or parameter, an edge's endpoints or id, the number of edges, or the strict or ordering flag. The same holds for two nodes (name, value, parameters, edges in and out) and two edges.",
  ['inputs'], 'all pairs of graphs', 'No test asks for similarity.',
  [B, N, E, O], [('graph similarity', B + ':is_similar_to'), ('node similarity', N + ':is_similar_to'), ('edge similarity', E + ':is_similar_to')], ['Graph.is_similar_to', 'Node.is_similar_to', 'Edge.is_similar_to'])

p('C26', 'Edge styles derived from nodes depend only on the edge itself',
  "When a graph without overrides is rendered with a built-in stylist, the style chosen for an unstyled edge has the darkened colour of its own start node, and an arrow size equal to the default multiplied by the edge's own value when that is a number and the plain default otherwise; it does not depend on other edges, on their order, or on how many there are. "
  "Edge styles are separate objects, so changing one edge's style leaves the others unchanged. A stylist that is given a node or edge style to start from gives what it styles a copy with the attributes of that style, apart from colours and arrow size.",
  ['inputs'], 'all graphs and edge values, numeric or not', 'No test renders a graph or gives an edge a value.',
  [SE, ES], [('edge styling', SE)], ['Edge.style after Graph.render'])

p('C27', 'Explicit style and colour overrides reach exactly their targets',
  "Style and colour overrides that a description dictionary holds for particular nodes (node_styles, node_colours, by name) or edges (edge_styles, edge_colours, by (start, end) or full edge id) are applied on rendering to exactly those nodes and edges and leave all others as they would be without the override; node styles change only the listed attributes, edge styles replace the style, colours replace the colours and nothing else. "
  "Copies, sums and graphs built from the graph carry the overrides along (of two overrides of the same kind for the same target, the one appended later or of the second summand counts), style objects handed in are not changed by them, and rendering stays possible after an overridden node or edge has been removed from the graph.",
  ['inputs', 'configurations', 'histories'], 'all graphs and sets of overrides', 'No test uses overrides.',
  [W], [('override application', W + ':stylize'), ('override collection', W + ':append')], ['node_styles', 'edge_styles', 'node_colours', 'edge_colours', 'Graph.render'])

p('C28', 'Colour assignment is balanced and sibling hues are distinct',
  "Picking the least used colour always picks one with the smallest count, increases exactly that count by one and so, from equal counts, never lets two counts differ by more than one. "
  "The offsets used to spread sibling hues are, for any number of siblings, exactly that many distinct numbers in [-1, 1], increasing with the sibling rank and symmetric around zero. "
  "Without parallel edges, the rank of a child among the children of a parent is the number of children that come before it in node order, and asking with a non-parent raises ValueError.",
  ['inputs', 'histories'], 'all colour counts and histories, numbers of siblings and ranks', 'No test touches colour assignment.',
  [LC, IH, N], [('least used colour', LC), ('diverging numbers', IH + ':generate_diverging_numbers'), ('rank', N + ':get_child_rank')], ['get_least_used_colour', 'get_diverging_number', 'Node.get_child_rank'])

p('C29', 'Saving writes the requested file in the requested format',
  "Rendering to a path hands the full graph text, styled, to the layout program exactly once with the path without its extension as output name and the extension as output format, with the requested view flag, direction, size and padding; without a path nothing is laid out or written (a path without extension is laid out as pdf). "
  "The returned source always holds the graph's text in the requested direction.",
  ['inputs', 'configurations'], 'all paths, extensions, sizes, directions and view flags', 'No test renders to a file.',
  [W], [('render', W + ':render'), ('source', W + ':get_graphviz_source')], ['Graph.render(path=...)', 'graphviz.Source'])

p('C30', 'Graphs derived from derived graphs stay exact and independent',
  "Any chain of derivations (copy, pickle, sum with another graph in either order, rebuilding from the graph or its dictionary form, filtering, appending to another graph), with changes made to the new graph after each step, yields at each step a graph that holds exactly the nodes and edges this derivation yields from the graph it started from, with their labels, values and ids, and then exactly the changes made to it. "
  "Every node and edge of a derived graph belongs to that graph, is listed at both ends, and its nodes are in comparison order. "
  "Every earlier graph of the chain stays exactly as it was left.",
  ['histories', 'inputs'], 'all chains of derivations and changes, over all graphs with self-loops and parallel edges',
  'No test derives a graph, let alone one from another derived graph.',
  [B, W, N, E], [('copying', B + ':copy'), ('filter', B + ':filter'), ('merge', W + ':add'), ('dictionary form', W + ':__graph__'), ('rebuild', W + ':append')],
  ['Graph.copy', 'pickle', 'Graph.__add__', 'Graph(obj)', 'Graph.from_dict', 'Graph.filter', 'Graph.append'])

p('C31', 'A refused operation leaves the graph exactly as it was',
  "An addition, connection, removal, assignment or question that is refused raises the documented exception (KeyError for absent names and, with 'error', duplicate nodes; ValueError for duplicate edges, removed edges and nodes of other graphs; TypeError for names, styles and sources of an unsupported type; RuntimeError for values of frozen objects and styles that must not be overwritten). "
  "It leaves every node and edge, with their labels, values, parameters, styles and frozen states, and both ends of every edge, unchanged; what is done next works as if it had not been tried. "
  "An edge that was disconnected and connected again is a new edge that the old edge object cannot remove.",
  ['histories', 'inputs'], 'all graphs and all refused operations, one or several in a row',
  'The tests never make an operation fail.',
  [B, N, E, O, W], [('duplicate-name branch', B + ':add_node'), ('duplicate-edge branch', B + ':connect'), ('lookup', B + ':get_node'), ('disconnect', B + ':disconnect'), ('removal', E + ':remove_self'), ('frozen guard', O + ':value'), ('style guard', N + ':style')],
  ['exceptions of Graph, Node and Edge operations', 'Graph.nodes', 'Graph.edges'])

p('C32', 'Answers are snapshots, and asking changes nothing',
  "Every list or dictionary of nodes, edges, relatives or distances that a question returns (except nodes_dict and the edge dictionaries of a node, which are the graph's own) is a snapshot: emptying, extending or reordering it leaves the graph and later answers unchanged, and removing or adding nodes and edges while iterating over it removes or adds exactly those for the elements it held. "
  "Questions, texts and derivations of new graphs leave the graph unchanged, make no styles, and give the same answer when repeated; they and rendering draw nothing from the generator of the random module.",
  ['histories', 'inputs'], 'all graphs, questions and changes to the answer or to the graph during its use',
  'No test changes an answer or changes the graph while using one.',
  [B, N, W], [('node list', B + ':nodes'), ('edge list', B + ':edges'), ('edge dictionary', B + ':edges_dict'), ('edges of a node', N + ':outward_edges'), ('relatives', B + ':get_children'), ('dictionary form', W + ':__graph__')],
  ['Graph.nodes', 'Graph.edges', 'Graph.roots', 'Node.children', 'Node.ancestors', 'Graph.get_edges', 'Graph.__graph__'])

p('C33', 'Colours chosen for nodes follow from their place in the graph alone',
  "The style a stylist chooses for an unstyled node depends only on the order of the nodes, the edges between them and the styles the user gave to nodes without parents: labels, values, parameters, tooltips, the ids and labels of edges and what is added apart from it make no difference. "
  "With the pensieve stylist, the unstyled nodes without a parent outside loops take the colours of the graph's colour scheme in turn, in graph order (nodes with a style use up none); any other unstyled node with one parent has the colour its parent follows from, its hue moved by 0.05 times its offset among the children of that parent (see C28) and its saturation cut to three quarters, and one with several parents the slightly paled mix of the unmoved colours of those that are not in a loop with it (a colour that is a mix itself counts as often as colours went into it); its other attributes come from there as well. "
  "The random stylist uses no two colours of the scheme with numbers of nodes that differ by more than one.",
  ['inputs'], 'all graphs within the bounds, all placements of user styles on nodes without parents, all outcomes of the shuffle',
  'The tests only render; none looks at a colour.',
  [SP, SR, IH, LC, RL], [('first pass', SP + ':stylize_with_pensieve'), ('inherited colours', IH + ':inherit_style'), ('least used colour', LC + ':get_least_used_colour'), ('shuffle', SR + ':stylize_randomly')],
  ['Node.style after Graph.stylize and Graph.render', 'Graph.node_styles'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for x in P:
            f.write(json.dumps(x, ensure_ascii=False) + '\n')
    print(len(P), 'properties')
