NOTES = (
    "All checks are static: they parse /repo's current source and decide over gated value-flow terms; "
    "nothing of the repository is executed. python3 check.py <ID> [quick|thorough]."
)
STD_NOTE = (
    "Static analysis of the current source, all paths of the analysed functions with repository callees "
    "inlined. Trusts the hand-written models of library functions (sa/models.py) and the abstraction "
    "(recursion and loops widened, indirect calls resolved by name); not a proof of the Python semantics. "
)
P = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, technique=technique, note=STD_NOTE + note))


def na(id, title, statement, over, qtext, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                   mech=mech, reason=reason))


GFPY = "hatchet/graphframe.py"

prop(
    "P01", "Operations never modify their operands",
    "Copying, filtering, squashing, rendering, exporting, serialising, querying, comparing and out-of-place "
    "arithmetic leave every object the caller passed in exactly as it was: its graph and nodes, its table "
    "(rows, values, index), its metric lists and metadata, and the caller's own dictionaries, lists and query "
    "objects. In-place arithmetic may change only its left operand.",
    ["inputs", "histories"],
    "every graph frame, query and argument, on every path of every non-modifying operation",
    "The tests call each operation on a few fixtures and look at the result; hardly any compares the operands "
    "before and after, and none does so for shared values, extra index levels or error paths.",
    [GFPY, "hatchet/graph.py", "hatchet/node.py", "hatchet/frame.py", "hatchet/query", "hatchet/external/console.py",
     "hatchet/util/dot.py", "hatchet/writers"],
    [("operations work on copies of the table and on new nodes", "GraphFrame.filter/squash/add/..., Graph.copy/union")],
    "interprocedural effect and alias analysis",
    "User callables are assumed not to mutate their argument.",
)
prop(
    "P02", "Results share no mutable state with their sources",
    "A graph frame returned by deepcopy, squash, groupby_aggregate, filter or out-of-place arithmetic shares no "
    "metric list, metadata dictionary or table storage with its source (a shallow copy and an unsquashed filter "
    "share the graph, a shallow copy also shares table values, and a deep copy shares nothing, nested metadata "
    "included). New graphs link only new nodes, exported dictionaries and lists contain none of the graph frame's "
    "own containers, and no mutable default argument is ever shared between calls or objects.",
    ["inputs", "histories"],
    "every graph frame and every later modification of the result or of the source",
    "Sharing only shows when a later step modifies one of the two objects; the tests look at results right after "
    "the operation.",
    [GFPY, "hatchet/graph.py", "hatchet/node.py", "hatchet/frame.py"],
    [("metric lists and metadata are copied, nodes and frames are cloned", "GraphFrame.copy/deepcopy/filter/squash, Graph.copy/union, Node.copy")],
    "alias analysis of results (ownership of value-flow terms)",
)
prop(
    "P03", "Parent and child links are symmetric",
    "In every graph hatchet builds (by any reader, copy, union, squash, normalisation, groupby or construction "
    "from lists) a node X is among the parents of Y exactly when Y is among the children of X. Both links are "
    "recorded together and equally often, so traversing down from the roots and walking paths up to the roots "
    "see the same graph.",
    ["inputs"],
    "every input profile and source graph, including shared nodes, cycles and repeated records",
    "Most tests compare children or rendered trees; parent links of shared, repeated or merged nodes are only "
    "consulted by paths and squash, on inputs the fixtures do not contain.",
    ["hatchet/node.py", "hatchet/graph.py", GFPY, "hatchet/readers"],
    [("every builder records both directions of a link", "Node.add_child/add_parent, the readers' parse functions, Graph.copy/union, GraphFrame.squash")],
    "pairing analysis of link effects over value-flow terms",
    "Assumes the graphs given to copy/union/squash are symmetric themselves; self-made nodes linked by the caller are out of scope.",
)
prop(
    "P04", "Node ids and depths are final before a graph frame exists",
    "Every graph that a reader, copy, union, squash, groupby or construction from lists returns has its node ids "
    "and depths assigned on every path, after the last link was made and before the table is keyed by the nodes. "
    "Numbering gives consecutive ids from 0 in traversal order to all nodes (readers of formats that store ids keep "
    "the stored ones), depth 0 to roots and parent depth + 1 to every newly reached child.",
    ["inputs"],
    "every input profile and graph, every path through readers and graph operations",
    "Ids are hash and sort key of the nodes: a missing or late numbering only shows as wrong lookups, order or depth "
    "queries on graphs whose creation order differs from the traversal order.",
    ["hatchet/graph.py", GFPY, "hatchet/readers"],
    [("enumeration after construction", "Graph.enumerate_traverse/enumerate_depth and its callers")],
    "typestate analysis over value-flow events",
    "Ids stay unique but may have gaps after a squash that merges nodes.",
)
prop(
    "P05", "Public operations return their result or raise",
    "Every public entry point that has a result (the from_* readers, copies, filter, squash, groupby, arithmetic, "
    "exports, rendering, query construction and application, graph, node and frame operations) either returns it or "
    "raises on every path; none ends silently with None or an unreturned result.",
    ["inputs"],
    "every argument combination and path of each entry point",
    "The tests exercise the common branch of each entry point; the branches that forget a return or swallow an error "
    "need rarely used arguments, missing modules or unreadable files.",
    [GFPY, "hatchet/graph.py", "hatchet/node.py", "hatchet/frame.py", "hatchet/readers", "hatchet/query", "hatchet/util/dot.py"],
    [("every branch returns", "GraphFrame.from_timemory, parse_string_dialect, the readers' read()")],
    "return-path analysis over gated value-flow terms",
    "Values computed by libraries are assumed not to be None.",
)
prop(
    "P13", "Arithmetic computes left OP right for the metrics of both operands",
    "add, sub, mul, div and the operators +, -, *, / and their in-place forms unify the two operands and store, in "
    "the result's table, left OP right for every exclusive and inclusive metric of either operand, in that order and "
    "with that operation. Out-of-place forms work on copies of both operands and return a new graph frame; in-place "
    "forms change and return the left operand.",
    ["inputs"],
    "every pair of graph frames and every arithmetic method and operator",
    "The tests compute a few metrics on graph frames with the same metrics; swapped operands, a metric that only one "
    "side has, or an operator wired to another operation need asymmetric values to show.",
    [GFPY],
    [("operation on the unified tables", "GraphFrame._operator, add/sub/mul/div, __add__ ... __itruediv__")],
    "value-flow analysis of each arithmetic method",
    "Element-wise arithmetic and index alignment are pandas'.",
)
prop(
    "P14", "unify keeps every row, remaps all nodes and marks the missing ones",
    "After gf1.unify(gf2) both graph frames use the one union graph and the node of every row of either table is "
    "replaced through the mapping that union filled, index levels unchanged. Rows whose node the other side lacks are "
    "found by a complete search of the other's nodes; _missing_node is 1 for rows only the left has, 2 for the rows "
    "added from the right (with NaN in all metrics of either side), 0 for the others, and no row is lost.",
    ["inputs"],
    "every pair of graph frames: tables of any size and order, with extra index levels and different metrics",
    "A search or mark that is wrong only for particular positions, sizes or orders of the node hashes is invisible on "
    "the few small graphs the tests unify.",
    [GFPY, "hatchet/cython_modules/graphframe_modules.pyx"],
    [("unification of tables", "GraphFrame.unify/_insert_missing_rows"), ("membership kernels", "fast_not_isin, insert_one_for_self_nodes")],
    "value-flow analysis; loop-invariant patterns of the search kernels",
    "Node hashes (ids) are taken as distinct within one graph (P04).",
)
prop(
    "P15", "Graph copy and union map every node and edge of their sources",
    "Graph.copy fills the caller's map with a new node of the same frame and id for every node of the graph, links the "
    "images of all its parents and children, and its roots are the images of all roots. Graph.union merges nodes of the "
    "two graphs only when their frames are equal at the same place, maps every node of both sources (by id) to exactly "
    "one result node linked below its parent's image, merges the children of every newly mapped node exactly once, and "
    "leaves out no node or root of either side.",
    ["inputs"],
    "every pair of graphs: shared nodes, several roots, repeated frames, uneven or empty child lists",
    "The tests unite and copy a few small graphs; shared nodes met from only one side, leftovers of the longer list and "
    "nodes mapped earlier need particular combinations of both graphs.",
    ["hatchet/graph.py", "hatchet/node.py", "hatchet/frame.py"],
    [("two-pass copy through a map", "Graph.copy"), ("merge of frame-sorted child lists", "Graph.union")],
    "value-flow analysis; path-condition entailment over the merge loop",
    "Merging compares sorted frames; siblings with equal frames within one graph are merged pairwise.",
)

prop(
    "P16", "squash keeps exactly the table's nodes, their ancestry and their rows",
    "squash builds one new node per node of the table; wherever a kept node is reached from a kept ancestor through "
    "removed nodes only, its image is linked below that ancestor's image, and it becomes a root if no such ancestor "
    "exists, also when nodes are shared. Siblings with equal frames that result are merged transitively and every row "
    "is moved to its node's image and merge target. Rows are grouped by the table's own index levels, metrics summed "
    "(all-NaN stays NaN), other columns take the first value, and the inclusive columns are updated if asked for.",
    ["inputs"],
    "every graph frame and every subset of rows left in its table, graphs with shared nodes and several roots included",
    "The tests squash small trees and a few diamonds; chains of removed nodes met again through another parent, merges "
    "of merged nodes and extra index levels need graphs the tests do not have.",
    [GFPY, "hatchet/graph.py"],
    [("rewiring", "GraphFrame.squash.rewire"), ("merging", "Graph.find_merges/merge_nodes/normalize"), ("rows", "GraphFrame.squash")],
    "value-flow analysis of the rewiring recursion; path-condition entailment",
    "groupby/agg are pandas'. The merge order of more than two levels of shared equal frames is not decided.",
)

prop(
    "P06", "Inclusive and exclusive sums cover exactly the right rows",
    "subtree_sum combines every node's row with all its children's sums, children first; subgraph_sum, used for every "
    "graph that is not a single tree, combines the original values of everything reachable, for every node, column and "
    "index entry separately. generate_exclusive_columns stores inclusive minus the sum over all children (NaN counting "
    "as 0) and lists the new metrics; update_inclusive_columns sums every exclusive metric into one inclusive column "
    "and keeps the previous ones listed. drop_index_levels groups all rows by node, metrics by the function, other "
    "columns by their first value.",
    ["inputs"],
    "every graph frame: trees, shared nodes, several roots, one or more index levels, any metric lists and NaN values",
    "The tests sum a few trees and diamonds; wrong rows or columns for shared nodes, several roots, rank/thread indices "
    "or pre-existing columns go unseen.",
    [GFPY, "hatchet/graph.py"],
    [("sums", "GraphFrame.subtree_sum/subgraph_sum/_init_sum_columns, Graph.is_tree"),
     ("derived columns", "GraphFrame.generate_exclusive_columns/update_inclusive_columns/drop_index_levels")],
    "value-flow analysis; symbolic index-tuple matching; path-condition entailment",
    "Label-based selection, groupby and agg are pandas'.",
)

prop(
    "P07", "Traversals visit every node once in the documented order; paths are complete",
    "Node.traverse, Node.node_order_traverse and the Graph versions yield every reachable node exactly once, a node "
    "before (pre) or after (post) the whole traversal of its children, children and roots sorted by frame (by node "
    "order in the node-order versions), the node or exactly the requested attributes, and raise ValueError for any "
    "other order. A visited dictionary given by the caller is used and ends up with the number of arrivals per node. "
    "paths() yields each parent's paths extended by the node, path() raises when there are several, and len(graph) "
    "is the number of traversed nodes.",
    ["inputs"],
    "every graph (trees, shared nodes, several roots, nodes without ids), order, attrs and visited argument",
    "The tests traverse a few trees and one diamond; a node dropped, repeated or misplaced on other shapes, or a "
    "visited dictionary that is not shared, feeds every id, sum and rendering unnoticed.",
    ["hatchet/node.py", "hatchet/graph.py", "hatchet/frame.py"],
    [("depth-first generators with a shared visited dictionary", "Node.traverse/node_order_traverse, Graph.traverse/node_order_traverse"),
     ("paths", "Node.paths/path")],
    "value-flow analysis of generators; abstract evaluation of path conditions",
)

prop(
    "P08", "Equality, ordering and hashing are consistent and structural",
    "Frames are equal, ordered and hashed by all their attribute names and values, independent of the order they were "
    "given in, and no code changes a frame's attributes after construction (keywords win over the dictionary, 'type' "
    "defaults to 'None'). Nodes are compared, ordered and hashed by their id. Two graphs are equal exactly when roots "
    "and children, paired in frame order, agree in number and frames all the way down and shared nodes are shared in "
    "the same way; != is its negation.",
    ["inputs"],
    "every pair of frames, nodes and graphs, shared nodes and graphs of different size included",
    "The tests compare a few equal and obviously different graphs; a relation that forgets an attribute, a count or "
    "how nodes are shared still passes them, and a frame changed after hashing fails only in later lookups.",
    ["hatchet/frame.py", "hatchet/node.py", "hatchet/graph.py"],
    [("tuple representation", "Frame.tuple_repr"), ("structural comparison", "Graph.__eq__, Node.dag_equal")],
    "value-flow analysis; abstract evaluation of path conditions; repository-wide effect scan",
    "Siblings with equal frames are paired in stored order.",
)

prop(
    "P09", "filter keeps exactly the selected rows",
    "filter keeps exactly the rows for which the function is true, the same rows in the same order serially and with "
    "any number of worker processes, or the rows of the nodes matched by the query built from the argument, with the "
    "multi_index_mode passed on. An exception of the function, in a worker too, reaches the caller; an argument that "
    "is neither a function nor a query raises InvalidFilter and an empty result EmptyFilter. The result has the "
    "source's index levels, metric lists, default metric and metadata and is squashed (passing "
    "update_inc_cols) unless squash=False.",
    ["inputs", "schedules"],
    "every frame, predicate, query, index, number of processes and order in which workers finish",
    "The tests filter a few small tables; a chunk that is lost, reordered or awaited in the wrong way, or a "
    "setting that is not carried, needs other tables, timings or failing predicates.",
    [GFPY],
    [("row selection and workers", "GraphFrame.filter, parallel_apply")],
    "value-flow analysis of both processes' code; abstract evaluation of path conditions",
    "Pickling, fork and the queue are Python's; an exception that cannot be pickled is not decided.",
)

prop(
    "P10", "The query engine finds exactly the nodes on matching paths",
    "Applying a query returns, once each, exactly the nodes on downward paths whose consecutive nodes match its query "
    "nodes: '.' one node satisfying the predicate, '*' zero or more, starting at any node, ending anywhere. "
    "Every predicate sees the node's own row, or all its rows indexed by node in a multi-index table, and no cached "
    "result outlives a query. A compound query combines the results of all subqueries on the same graph and table; "
    "anything else raises TypeError.",
    ["inputs"],
    "every query pattern, predicate, graph (shared nodes and several roots included) and table index",
    "The tests run a few patterns on two graphs; a lost continuation needs a particular combination of wildcards, "
    "overlapping predicates and leaves.",
    ["hatchet/query/engine.py"],
    [("matching", "QueryEngine._match_0_or_more/_match_1/_match_pattern/_apply_impl"), ("memoized predicates", "QueryEngine._cache_node"),
     ("compound queries", "QueryEngine.apply")],
    "value-flow analysis; abstract evaluation of each function's part of the inductive definition in all local worlds",
    "Composition of the per-function obligations by induction over the pattern is argued in DESIGN.md; deduplication of adjacent equal matches is trusted.",
)

prop(
    "P11", "A query pattern holds exactly the query nodes it was built from",
    "match starts a new pattern and rel/relation extend it (rel before match raises InvalidQueryPath); an integer n adds n query nodes "
    "'.', '+' adds '.' then '*', '.' and '*' add themselves, each with the given predicate, default always true. "
    "ObjectQuery adds one node per entry of its list, in order, with that entry's quantifier and conditions evaluated in the query's "
    "multi_index_mode, and refuses other entries; QueryMatcher delegates to the same code.",
    ["inputs"],
    "every sequence of match/rel calls, every quantifier and every object-dialect list",
    "Tests build a few patterns; a lost mode, quantifier or predicate shows only for particular entry types.",
    ["hatchet/query/query.py", "hatchet/query/object_dialect.py", "hatchet/query/compat.py"],
    [("base syntax", "Query.match/rel/relation/_add_node"), ("object dialect", "ObjectQuery.__init__"), ("old-style", "QueryMatcher")],
    "value-flow analysis; abstract evaluation of the pattern writes in every world of entry type and quantifier",
    "What the conditions of the object dialect mean is a separate property.",
)

prop(
    "P12", "Compound queries are the set operations they are named after",
    "A node is in the result of a ConjunctionQuery / DisjunctionQuery / ExclusiveDisjunctionQuery exactly when it is in the results of all / "
    "at least one / an odd number of the subqueries, and in that of a NegationQuery exactly when it is in the graph but not in the subquery's result. "
    "Constructors keep every subquery (lists and strings are parsed), raise TypeError for anything else and BadNumberNaryQueryArgs for a wrong number; "
    "&, |, ^ and ~ of all query classes build the operation of that name from all operands, and old-style And/Or/Xor/NotQuery convert to the same.",
    ["inputs"],
    "any number of subqueries, any membership of a node in their results, every operand type",
    "Tests combine two queries; three-way xor, nested or mixed old and new operands and tuple arguments are not exercised.",
    ["hatchet/query/compound.py", "hatchet/query/__init__.py", "hatchet/query/compat.py"],
    [("set operations", "_apply_op_to_results"), ("construction", "CompoundQuery.__init__, NaryQuery.__init__"), ("operators", "query/__init__.py")],
    "value-flow analysis; membership of an arbitrary node in the result term evaluated for every combination of memberships",
    "Complement is relative to the graph's traversal (P07).",
)

prop(
    "P17", "Queries in the String dialect mean what their text says",
    "For every query text in MATCH/WHERE form: the MATCH clause becomes one query node per parenthesised node, with its quantifier (default '.'); "
    "each condition (=, <, >, <=, >=, STARTS WITH, ENDS WITH, CONTAINS, =~, IS [NOT] NAN/INF/NONE/LEAF) tests the named property, depth or node_id of the node it names, "
    "over any or all rows in the multi-index modes, is false where the attribute is absent and raises InvalidQueryFilter for a value of the wrong type. "
    "Conditions of a node combine in written order with AND, OR and NOT; brace regions combine left to right by the AND, OR or XOR between them, each in the query's multi_index_mode.",
    ["inputs"],
    "every condition kind, multi-index mode, class of property value, number and order of conditions and brace regions",
    "Tests run about a dozen query texts; a swapped operator, quantifier, connector or mode shows only for particular values, rows or orders.",
    ["hatchet/query/string_dialect.py"],
    [("grammar", "CYPHER_GRAMMAR"), ("query nodes", "StringQuery.__init__"), ("type checks", "filter_check_types"), ("brace regions", "parse_string_dialect")],
    "constant folding of the constructor's value flow for query texts parsed under the grammar in the source; abstract evaluation of the predicates over classes of row values",
    "String constants with quotes, braces or backslashes and nested brace regions are not covered.",
)

prop(
    "P18", "Conditions in the Object dialect mean what they say",
    "The predicate made from a dictionary of conditions is true of a node exactly when every condition is: a number equals the attribute, "
    "a string starting with a comparison operator compares with it (np.nan only equals NaN, np.inf and -np.inf order as usual), any other string must match a string attribute as a whole; "
    "'depth' and 'node_id' mean those of the node, depth -1 means a leaf; a list or tuple of conditions means all of them; no condition is always true; "
    "an attribute that is absent makes the condition false and a condition of the wrong type raises InvalidQueryFilter. "
    "With multi-index tables 'any' / 'all' quantify each condition over the rows of the node, and mode 'off' raises MultiIndexModeMismatch.",
    ["inputs"],
    "every condition kind, multi-index mode and class of attribute value (below, at and above the constant, NaN, infinite, integer and fractional)",
    "Tests use a handful of filters on ordinary values; NaN, infinities, equality under 'all', leaf depth, absent attributes and lists of conditions combine in ways none of them samples.",
    ["hatchet/query/object_dialect.py"],
    [("predicate", "_process_predicate"), ("comparison", "_eval_comparison"), ("quantifier", "_process_multi_index_mode")],
    "constant folding of the predicate's value flow on classes of conditions and an abstract table row",
    "Top-level alternation in regular expressions is not covered.",
)

prop(
    "P19", "Results depend on the input only",
    "The same call on the same input gives the same result, in the same order, in every process and however often it is made. "
    "No result of a reader, of an operation on graph frames, graphs, nodes or queries, or of an export depends on the iteration order of a set of strings (hash seed), "
    "on memory addresses or hashes used as an ordering, on the order of directory entries, on the clock or random numbers, "
    "or on state an earlier call left in module variables, class attributes or caches.",
    ["inputs", "histories"],
    "every entry point on every input, hash seed, directory order and history of earlier calls in the process",
    "A test process has one hash seed, one file system and one order of calls; nothing differs until another machine or process does.",
    ["hatchet/readers", "hatchet/graphframe.py", "hatchet/graph.py", "hatchet/node.py", "hatchet/util/dot.py", "hatchet/external/console.py"],
    [("metric names", "SpotDatasetReader.create_graph, GraphFrame._insert_missing_rows"), ("files", "TAUReader.create_graph, TimemoryReader.read, HPCToolkitReader"), ("labels", "CaliperReader.create_graph")],
    "taint analysis of value-flow terms (order of sets and directories, addresses, clocks) and module-state effects",
    "Sets of nodes are hashed by node id, so their order is a function of the input; library functions are assumed deterministic; profiler and timer are left out.",
)

prop(
    "P20", "Library calls leave the calling process as they found it",
    "Every file, archive and worker pool that a hatchet call opens is closed, and every worker process it starts is joined, on every path out of the call, exceptions included. No call, and no import of a module, changes the working directory, the environment, warning filters, display or error options of other libraries, random seeds, signal handlers or other process-wide settings without restoring them, lowers the recursion limit, or ends the process. Files are created, changed or removed only by the writers (to_hdf and the profiler).",
    ["inputs", "fault_sequences", "histories"], "every public call, on every path through it, including the paths that raise",
    "A leaked handle, an unjoined worker or a changed global setting shows only in a long-lived process, after an error, or in another library.",
    ["hatchet/readers", "hatchet/writers", "hatchet/graphframe.py", "hatchet/external/console.py"],
    [("files", "every reader: with open(...)"), ("workers", "GraphFrame.filter: mp.Process, join; HPCToolkitReader: mp.Pool, close"), ("warning filters", "HDF5Reader, HDF5Writer: catch_warnings"), ("recursion limit", "GraphFrame.filter: rec_limit")],
    "resource typestate and process-effect lint over the call graph",
    "Every call site and store of the non-visualisation modules is classified by resolved name (imports and local aliases); a resource or setting whose name the tables in sa/props/p20.py do not list is not seen.",
)

prop(
    "P21", "Detected errors reach the caller",
    "An error that hatchet detects is raised as the exception it names: no exception is constructed without being raised, nothing that is not an exception is raised, a bare raise stands only in a handler, and building the message (formatting, attributes, names, locals a missing case leaves unset) cannot itself fail with another error. "
    "No handler drops an error and goes on, other than a look-before-leap probe of a key, attribute, import, match group or conversion; errors of reading input, of user predicates, of worker processes and of subprocesses reach the caller.",
    ["inputs", "fault_sequences"], "every raise statement, handler, worker and subprocess in the library, on every path",
    "Error paths run only on malformed input and failing workers; tests exercise few of them, and an error path that fails differently or is swallowed still passes them.",
    ["hatchet/graph.py", "hatchet/node.py", "hatchet/graphframe.py", "hatchet/readers", "hatchet/query"],
    [("messages", "Graph.from_lists, Node.path, ColorMaps.get_colors"), ("workers", "parallel_apply and GraphFrame.filter"), ("type errors", "CaliperNativeReader")],
    "exception-flow lint: raise and handler classification, format arity, name resolution with class-private mangling, definite assignment",
    "A handler counts as a probe by the operations in its try body; whether every invalid input is detected in the first place is not decided.",
)

prop(
    "P22", "Exports show the requested row of every node",
    "tree, to_dot, to_flamegraph and to_literal take each metric, name, annotation and attribute they write for a node from that node's own row - selected by the node and by the requested rank and thread for exactly those levels the table has - and from the requested column (the default metric when none is requested; all metrics and the requested categorical columns in to_literal); a flamegraph line names every node on the path from the root. "
    "Every root and every child is shown: nodes, edges and values are left out only for depth, threshold (metric < threshold * maximum) and, for what lies below a shared node, an earlier visit. "
    "A given min_value or max_value, zero included, bounds the colors of tree.",
    ["inputs", "configurations"], "every graph, table layout (with and without rank and thread) and combination of the options",
    "Test tables hold few ranks and threads and are mostly printed with default options; a wrong row gives a plausible number.",
    ["hatchet/graphframe.py", "hatchet/external/console.py", "hatchet/util/dot.py"],
    [("tree", "GraphFrame.tree, ConsoleRenderer.render, render_frame"), ("dot", "GraphFrame.to_dot, trees_to_dot, to_dot"), ("flamegraph", "GraphFrame.to_flamegraph"), ("literal", "GraphFrame.to_literal")],
    "gated value-flow analysis of table reads under the four index layouts, and guard analysis of the recursions",
    "Index levels are assumed to be in the order node, rank, thread. The layout of the text, colors and the numbers' formatting are not decided. A row built by unknown code is only required to depend on the requested rank and thread.",
)

prop(
    "P23", "JSON and HDF files restore the graph frame they were written from",
    "to_dict and to_json write, for every node below every root, its id, all attributes of its frame and the ids of all its children, every row of the table with the node's id in place of the node (missing values as null), the index levels and both metric lists; from_json makes one node per id with that frame and id, links every listed child below its parent, makes exactly the nodes without parents roots, gives every row its node back and restores index and metric lists. "
    "to_hdf writes the table of a deep copy with, in each node's first row, the ids of all its children and parents, and the metric lists and default metric; from_hdf relinks every node through these ids, makes exactly the nodes without parents roots, restores metric lists and default metric and removes exactly the added columns.",
    ["inputs"], "every graph frame (several roots, shared nodes, multi-index tables) and history of writing and reading",
    "Tests write and read a few small trees; forests with shared nodes, several index levels and nodes with several rows are hardly among them.",
    ["hatchet/graphframe.py", "hatchet/readers/json_reader.py", "hatchet/readers/dataframe_reader.py", "hatchet/readers/hdf5_reader.py", "hatchet/writers/dataframe_writer.py", "hatchet/writers/hdf5_writer.py"],
    [("json", "GraphFrame.to_dict, to_json, from_json, JsonReader"), ("hdf", "GraphFrame.to_hdf, from_hdf, DataframeWriter, HDF5Writer, DataframeReader, HDF5Reader")],
    "gated value-flow analysis of writer and reader, matched role by role",
    "What json, pandas and HDF do to plain values (types, NaN, tuples) is not decided; neither format is claimed to hold the metadata, and JSON not the default metric."
)

prop(
    "P24", "Readers give every entry of their input its node and its row",
    "from_literal, from_pyinstrument, from_cprofile, from_gprof_dot, from_spotdb, from_hpctoolkit, from_caliper, from_caliperreader and from_tau make a node for every entry of their input and put it below the node of its parent entry (every caller, for call graphs), whatever its values, and give it exactly one row (one per rank and thread where the input has them) that holds this node, its name and its own fields and metrics. "
    "Entries are left out only as documented: HPCToolkit call sites, unnamed procedures and metric entries (their children belong to the node above), gprof nodes without label, SpotDB regions without name, TAU lines without call path. "
    "Every metric column is listed exactly once, among inc_metrics exactly if its name says so ((inc), (I) for HPCToolkit, inclusive for native Caliper) and otherwise among exc_metrics; a default metric that a reader chooses is one of its columns. The region names of a SpotDB profile are paths: one root per first name and one child per further name below a node, and metrics whose native name says inclusive get ' (inc)'.",
    ["inputs"], "every well-formed input file of each format",
    "The tests read one or two sample files per format; entries with zero or unusual values, repeated names and mixed metrics are not among them, and a lost row or edge looks like a smaller profile.",
    ["hatchet/readers/literal_reader.py", "hatchet/readers/pyinstrument_reader.py", "hatchet/readers/cprofile_reader.py", "hatchet/readers/gprof_dot_reader.py", "hatchet/readers/spotdb_reader.py", "hatchet/readers/hpctoolkit_reader.py", "hatchet/readers/caliper_reader.py", "hatchet/readers/caliper_native_reader.py", "hatchet/readers/tau_reader.py"],
    [("trees", "LiteralReader, PyinstrumentReader"), ("call graphs", "CProfileReader, GprofDotReader"), ("HPCToolkit", "HPCToolkitReader.parse_xml_node"), ("Caliper", "CaliperReader.create_graph, CaliperNativeReader"), ("others", "TAUReader.create_graph, SpotDatasetReader.create_graph")],
    "gated value-flow analysis of the readers: records and links matched with node creations, guard implication",
    "Files are taken to be complete and well formed; the timemory reader, the numbers' correctness (scaling, HPCToolkit's exclusive values) and parents that TAU knows only from call paths are not decided."
)

prop(
    "P25", "Derived graph frames keep metric lists, default metric and metadata",
    "The graph frame that copy, deepcopy, filter, squash, groupby_aggregate and arithmetic (in-place forms included) return has the exclusive metrics, inclusive metrics, default metric and metadata of the (left) graph frame it was made from: the same names in the same order, nothing lost, nothing swapped. "
    "drop_index_levels, unify, subtree_sum and subgraph_sum leave all four as they were. Only updating inclusive columns (also in squash) may add inclusive metrics, and only generating exclusive columns may add exclusive ones; neither removes a name. "
    "The GraphFrame constructor stores each argument it is given, and an empty list or dictionary where a list or metadata is None.",
    ["inputs", "histories"], "every graph frame and every sequence of deriving operations",
    "Tests look at the tables and graphs of results and nearly always use graph frames with the default metric 'time' and no metadata, so a dropped or swapped field shows only several operations later.",
    ["hatchet/graphframe.py"],
    [("constructor", "GraphFrame.__init__"), ("derivations", "GraphFrame.copy, deepcopy, filter, squash, groupby_aggregate, _operator"), ("growing lists", "GraphFrame.update_inclusive_columns, generate_exclusive_columns")],
    "gated value-flow analysis of the fields of every returned or changed graph frame",
    "Whether the names are columns of the result's table is not decided.",
)

prop(
    "P26", "groupby_aggregate: one node and row per group, all edges between groups",
    "groupby_aggregate makes exactly one new node, named after the group, for every group of the table, and the result's table has exactly one row per group, indexed by this node, holding the aggregate of that group's rows and the group as name - also when the name column itself is grouped or aggregated. "
    "For every edge of the old graph between nodes of different groups the nodes of the two groups are linked, in both directions and only once; an edge inside a group gives no link. The group of every node without parents becomes a root, once, and no other group does.",
    ["inputs"], "every graph (several roots, shared nodes) with one row per node, every grouping",
    "The tests group three small trees and only count the nodes and look for the names; edges, roots and the rows' values are not compared.",
    ["hatchet/graphframe.py"],
    [("groups and table", "GraphFrame.groupby_aggregate"), ("edges and roots", "GraphFrame.groupby_aggregate.reindex")],
    "gated value-flow analysis with link and root conditions evaluated per world",
    "Tables with several rows per node, nodes without row and missing group keys are not decided; pandas is taken to give the groups and their aggregate in the same order.",
)

prop(
    "P27", "Graphs built from lists have exactly the structure the lists describe",
    "Node.from_lists and Graph.from_lists make exactly one new node per string, whose frame has the string as name and nothing else, and use given Node objects themselves. The first element of a list or tuple is a node; every further element becomes a child of it, in the order written, "
    "linked exactly once in both directions (child below parent, parent above child), and no other links are made. A list whose first element is no string or Node, and elements of any other type, are refused with ValueError, arguments of Graph.from_lists that are no lists or tuples with ValueError too. "
    "The graph's roots are the nodes of all arguments of Graph.from_lists, in order. GraphFrame.from_lists gives exactly one row per node of that graph, indexed by the node, with its name and time 1, 'time' as the one exclusive metric, and inclusive columns computed.",
    ["inputs"], "every nesting of lists and tuples of strings and Node objects, of any depth and width, including nodes used several times",
    "The tests use from_lists as a helper for building small graphs in other tests; they hardly compare structures with several roots, tuples or nodes that occur repeatedly, and never refused input.",
    ["hatchet/node.py", "hatchet/graph.py", "hatchet/graphframe.py"],
    [("nodes and links", "Node.from_lists"), ("roots", "Graph.from_lists"), ("table", "GraphFrame.from_lists")],
    "gated value-flow analysis of the recursion in the worlds of every type of element and first element",
    "Decided per level of the recursion (the nested call is the function analysed). What a node used at several places means for inclusive values is P06's matter.",
)

prop(
    "P28", "Every argument of an entry point reaches what it names",
    "The from_* class methods of GraphFrame and to_hdf hand each argument to the reader or writer as it was given, in its own place, and the from_* methods return what was read; from_timemory without input reads timemory's data. "
    "pandas' read_hdf and to_hdf get the file name, key and options that were given; spotdb.connect the locator, and SpotDB is asked for the runs in list_of_ids, or all if it is None; cali-query gets the query and file; native Caliper metric names are replaced by readable ones exactly if native is false. "
    "tree and to_dot hand every option to the renderer or writer as given, with the default metric if none is given, and every argument of tree, to_dot, to_flamegraph and to_literal has an effect on the result. "
    "The renamed keywords of tree (metric, name, expand_names, context, invert_colors) are refused before tree runs: with TypeError if the replacement is given too, else with ValueError naming the replacement; other calls run with all their arguments.",
    ["inputs", "configurations"], "every combination of arguments and keywords of the entry points",
    "The tests call the entry points with one or two arguments set; an option that is dropped, swapped with a neighbour or silently replaced by its default gives a plausible result.",
    ["hatchet/graphframe.py", "hatchet/util/deprecated.py", "hatchet/readers/caliper_native_reader.py", "hatchet/readers/caliper_reader.py", "hatchet/readers/spotdb_reader.py", "hatchet/readers/hdf5_reader.py", "hatchet/writers/hdf5_writer.py", "hatchet/external/console.py"],
    [("wrappers", "GraphFrame.from_*, to_hdf, tree, to_dot"), ("sinks", "HDF5Reader, HDF5Writer, SpotDBReader, CaliperReader, CaliperNativeReader"), ("renamed keywords", "rename_kwargs, deprecated_params")],
    "value-flow analysis of each argument from the entry point to the named call, in the worlds of its defaults",
    "That an option has an effect is decided, not that it is the right one (P22 decides what is shown). from_json's options are ignored, as they always were.",
)

prop(
    "P29", "Readers index their tables by node and the ranks and threads there are",
    "The table of every graph frame that from_literal, from_pyinstrument, from_cprofile, from_gprof_dot, from_spotdb, from_caliper, from_caliperreader, from_timeseries, from_hpctoolkit, from_tau and from_timemory return is indexed by node, followed by 'rank' exactly if the input has ranks "
    "(a rank column for Caliper, always for HPCToolkit, several ranks for TAU and timemory) and then by 'thread' exactly if it has threads (more than one thread per rank for HPCToolkit, several threads for TAU and timemory), in this order.",
    ["inputs"], "every input of the readers, with any numbers of ranks and threads",
    "The data of the tests has MPI ranks in a few formats and several threads in none but HPCToolkit; a level that is missing gives several rows per node, which shows only in later operations.",
    ["hatchet/readers/caliper_reader.py", "hatchet/readers/caliper_native_reader.py", "hatchet/readers/hpctoolkit_reader.py", "hatchet/readers/tau_reader.py", "hatchet/readers/timemory_reader.py", "hatchet/readers/literal_reader.py", "hatchet/readers/spotdb_reader.py"],
    [("one level", "LiteralReader.read, PyinstrumentReader.read, CProfileReader.read, GprofDotReader.read, SpotDatasetReader.read"), ("ranks and threads", "CaliperReader.read, CaliperNativeReader.read, HPCToolkitReader.read, TAUReader.read, TimemoryReader.read")],
    "gated value-flow analysis of the keys of set_index, evaluated in the worlds of ranks and threads",
    "How TAU and timemory find out that there are several ranks or threads is not decided. JSON and HDF files bring their levels along (P23).",
)
