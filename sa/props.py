"""The properties: text, anchors, technique.  properties.jsonl and MANIFEST.json are generated from here."""

M = "treebeard/models.py"
MP, NS, AL, LT = "treebeard/mp_tree.py", "treebeard/ns_tree.py", "treebeard/al_tree.py", "treebeard/ltree/__init__.py"
LTF = "treebeard/ltree/fields.py"
FORMS, ADMIN, TAGS = "treebeard/forms.py", "treebeard/admin.py", "treebeard/templatetags/admin_tree.py"
JS = "treebeard/static/treebeard/treebeard-admin.js"

LAYOUT_TECH = ("path-sensitive abstract interpretation of the source: every operation is summarised as guarded effects (queries, row "
               "writes, signals, raises) per control-flow path, and the summaries are decided over a finite domain of relative tree positions")
LAYOUT_RULE = ("an obligation is one (operation, forest shape, anchor positions, key order/numbering scheme); it is decided when exactly one path is "
               "feasible for it and every term on the path evaluates in the domain; the transfer of that path is compared with the specification")
LAYOUT_ASSUME = [
    "trees of up to 4 nodes (quick; 5 thorough) exhibit every relative position of node, target, parent, neighbours and descendants that the code distinguishes",
    "Django's ORM behaves as the model of its query API in sa/orm.py says; sequential execution between two operations",
    "the tree satisfies its column invariants before the operation (the encoding properties establish this inductively)",
]
QUERY_ASSUME = LAYOUT_ASSUME[:2] + ["the stored columns satisfy the encoding properties and the node object at hand is fresh"]
RULE_ASSUME = ["Django calls the entry points as documented"]

PROPS = {}


def prop(pid, title, statement, over, text, why, files, mech, technique=LAYOUT_TECH, rule=LAYOUT_RULE, assumptions=None, note=None, state=None, observe=None, thorough=True):
    PROPS[pid] = {
        "id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], **({"state": state} if state else {}), **({"observe_at": observe} if observe else {})},
        "technique": technique, "rule": rule, "assumptions": LAYOUT_ASSUME if assumptions is None else assumptions,
        "note": note or "Static argument over a bounded set of tree shapes: exhaustive for every path and position of forests up to the bound, nothing beyond it; trusts the ORM model.",
        "thorough": thorough,
    }


ST_MP = [{"name": "path", "meaning": "concatenated fixed-width steps from the root", "where": MP}, {"name": "depth", "meaning": "number of steps of path", "where": MP}, {"name": "numchild", "meaning": "number of children", "where": MP}]
ST_NS = [{"name": "tree_id, lft, rgt, depth", "meaning": "nested intervals per root and nesting level", "where": NS}]
ST_AL = [{"name": "parent, sib_order", "meaning": "parent pointer and position among siblings", "where": AL}]
ST_LT = [{"name": "path", "meaning": "ltree of labels; siblings are ordered by label", "where": LT}]

prop("C01", "Materialized-path columns always describe one forest",
     "After every add, move or delete on a materialized-path tree, every row's path is unique and its prefix one step shorter is the path of an existing row (or empty), its depth is the number of steps of its path, and its child counter equals the number of its children. This holds for every valid position, every relation between node and target, with and without sort keys, and whatever holes the numbering has.",
     ["inputs", "histories"], "all trees, all node/target pairs, all positions, all histories of operations",
     "The tests check a fixed ten-node tree and a few moves; a miscomputed path or counter at other relative positions (a parent that is itself shifted, a hole before the target) is only visible there.",
     [MP], [("path recomputation and sibling shifting", f"{MP}: add_sibling, move, _reorder_nodes_before_add_or_move, _set_newpath_in_branches"), ("child counters", f"{MP}: add_child, update_parent_counts_after_move, MP_NodeQuerySet.delete")], state=ST_MP)

prop("C02", "Path capacity is refused, never wrapped or truncated",
     "When a materialized-path operation (add, move, bulk load, path repair) would need a sibling number that does not fit the fixed step width, or a path longer than the column allows, it raises PathOverflow; it never stores a path whose step is wider than the step width or that exceeds the maximum length.",
     ["inputs", "configurations"], "all step widths, alphabets and maximum lengths, all trees at or beyond capacity",
     "Filling a level needs many nodes or an unusual configuration; the tests fill one level with one alphabet and reach only add_root, add_child and add_sibling.",
     [MP], [("overflow check when a step is formatted", f"{MP}: MP_Node._get_path, _inc_path"), ("maximum length check", f"{MP}: _check_path_length")],
     technique="obligation analysis of the source: every place that formats a step, and every write of a path, must be dominated by the width or length check; decided on the guarded effect paths",
     rule="each construction of a step from a number must lie behind a raise of PathOverflow on the path condition len(step) > steplen; each write of a path that can be longer than an existing one behind a comparison with max_length",
     assumptions=["the column enforces nothing by itself (SQLite)"])

prop("C03", "Nested-set columns always describe one forest",
     "After every add, move or delete on a nested-set tree, the lft/rgt values of each tree are exactly 1..2n and properly nested, no two roots share a tree number, and every depth equals the nesting level. This holds for every valid position and every relation between node and target.",
     ["inputs", "histories"], "all trees, all node/target pairs, all positions, all histories of operations",
     "Only a handful of moves on one tree are tested; gap arithmetic errors show up only for particular left/right relations between the moved subtree and the hole.",
     [NS], [("gap arithmetic", f"{NS}: _alter_gap, _close_gap, _move_tree_right"), ("callers", f"{NS}: add_root, add_child, add_sibling, move, NS_NodeQuerySet.delete")], state=ST_NS)

prop("C04", "Adjacency-list columns always describe one forest",
     "After every add, move or delete on an adjacency-list tree, every parent pointer refers to an existing row, following parents always ends at a root, and without sort keys no two siblings share an order number.",
     ["inputs", "histories"], "all trees, all node/target pairs, all positions, all histories of operations",
     "A wrong hole or a duplicate order number leaves the small test trees in the expected order by accident (ties broken by insertion order).",
     [AL], [("order numbers", f"{AL}: _make_hole_and_get_sibling_order, _get_new_sibling_order, add_root, add_child"), ("parent pointers", f"{AL}: move")], state=ST_AL)

prop("C05", "LTree paths always describe one forest",
     "After every add, move or delete on an ltree tree, every row's path is unique and its parent prefix is the path of an existing row (or empty), also when existing siblings have to be shifted to make room for a label.",
     ["inputs", "histories"], "all trees and label assignments, all node/target pairs, all positions",
     "Labels are generated with room between them, so the shifting code and its depth arithmetic run in very few of the tests.",
     [LT], [("path computation", f"{LT}: _get_new_path, _move_subtree_right"), ("subtree rewrite", f"{LT}: move")], state=ST_LT)

prop("C06", "Unsorted placement: a node lands exactly at the requested position",
     "For models without node_order_by, adding a node or moving a subtree puts it exactly where the requested position (first/last/left/right sibling, first/last child, or the default) says relative to the target, as seen in document order. Every other node keeps its parent and its order relative to the others, the moved node keeps its own subtree, and a valid call never fails.",
     ["inputs", "histories"], "all backends, all trees, all node/target pairs, all positions, all histories",
     "The tests pin expected dumps of one tree for some node/target pairs; pairs such as a target inside the shifted range, the node being its own target, or a neighbour's descendant are not covered.",
     [MP, NS, AL, LT], [("materialized path", f"{MP}: add_*/move"), ("nested sets", f"{NS}: add_*/move"), ("adjacency list", f"{AL}: add_*/move"), ("ltree", f"{LT}: add_*/move")])

prop("C07", "Sorted placement: siblings follow node_order_by",
     "For models with node_order_by, adding or moving a node (sorted positions or the default) puts it under the right parent so that, if the siblings followed the ordering before (several fields, ascending or descending, ties), they follow it afterwards; no other node changes its parent or relative order and the moved node keeps its subtree.",
     ["inputs", "histories"], "all backends, all trees, all key values and orderings, all node/target pairs",
     "The tests insert a few values in one order; ties, second sort keys, descending fields, values beyond both ends, and moves within the same group are sampled thinly.",
     [M, MP, NS, AL, LT], [("insertion point", f"{M}: NodeManager.get_sorted_pos_queryset"), ("sorted branches", f"{MP}, {NS}, {LT}: add_root, add_child, add_sibling, move"), ("query ordering", f"{AL}: AL_NodeManager.get_queryset")])

prop("C08", "Deleting removes exactly the subtrees and leaves a valid tree",
     "Deleting any set of nodes, through a queryset or an instance, removes exactly those nodes and all their descendants, also when the set contains nodes of the same branch. Every other node keeps its place, and the remaining rows satisfy the backend's column invariants (child counters, closed gaps).",
     ["inputs", "histories"], "all backends, all trees, all subsets of nodes",
     "Subsets that mix ancestors, descendants and several siblings in several trees are exponentially many; the tests try a few.",
     [MP, NS, AL, LT], [("minimal subtree set, counters", f"{MP}: MP_NodeQuerySet.delete"), ("ranges and gap closing", f"{NS}: NS_NodeQuerySet.delete"), ("path roots", f"{LT}: LT_NodeQuerySet.delete"), ("cascade", f"{AL}, {M}: Node.delete")])

prop("C09", "Invalid positions are refused before anything is written",
     "add_sibling and move accept exactly the documented positions: any other position raises InvalidPosition, an unsorted position on a model with node_order_by raises InvalidPosition, a sorted position without node_order_by raises MissingNodeOrderBy, and None means last-sibling (sorted-sibling with node_order_by). The refusal comes before any row is written.",
     ["inputs"], "all backends, all position values, with and without node_order_by",
     "Only a few wrong values per backend are tried, and none of the tests looks at writes made before the exception.",
     [M, MP, NS, AL, LT], [("validation", f"{M}: _prepare_pos_var*, _valid_pos_*"), ("call sites", f"{MP}, {NS}, {AL}, {LT}: add_sibling, move")])

prop("C10", "A move below itself is refused before anything is written",
     "Moving a node to itself as a child, or anywhere relative to one of its own descendants, raises InvalidMoveToDescendant for every position, and no row has been written when it does; no other move is refused for that reason.",
     ["inputs", "histories"], "all backends, all trees, all node/target pairs, all positions",
     "The tests try one or two descendants per backend; deeper descendants, child positions that are turned into sibling positions of a descendant, and stale caches are not tried.",
     [MP, NS, AL, LT], [("refusal", f"{MP}, {NS}, {AL}, {LT}: move"), ("ancestry", "is_descendant_of")])

prop("C12", "Signals let an external store mirror the tree",
     "A store that holds a copy of the tree columns, and applies the documented meaning of each sent signal together with the post_save of individually saved rows, ends up with exactly the rows in the database after every add, move and delete (materialized path, nested sets, ltree). Signals are sent for the base tree model and describe values before the write they announce.",
     ["inputs", "histories"], "all trees, all operations, positions and deletion sets",
     "The signal tests assert some payloads of a few operations; a missing, misordered or wrong payload at another position is not seen.",
     [MP, NS, LT], [("path_updated, nodes_deleted", f"{MP}"), ("gap_altered, tree_ids_incremented, subtree_moved, nodes_deleted", f"{NS}"), ("subtree_moved, subtree_moved_right, nodes_deleted", f"{LT}")])

prop("C13", "The node and target objects are fresh after an operation",
     "After add_child, add_sibling, add_root and move, the tree columns of the node object added or moved and of the target object passed in (and what they cache about their parent and depth) equal the stored rows, so the objects can be used in the next operation without reloading.",
     ["inputs", "histories"], "all backends, all trees, all node/target pairs (also the same node), all positions",
     "The tests reload objects between operations almost everywhere, so a stale attribute is invisible to them.",
     [MP, NS, AL, LT, M], [("refresh", "refresh_from_db calls at the end of add_sibling and move; counters set in add_child"), ("caches", f"{M}: _cached_attributes")])

prop("C14", "Relationship queries return the right nodes in document order",
     "Children, siblings, ancestors, root nodes, parent, root, first/last child, first/last sibling, previous/next sibling and first/last root of a node are exactly the nodes the tree structure says, in document order (ancestors from the root down), or nothing when there is none.",
     ["inputs"], "all backends, all valid trees, all nodes, sorted and unsorted",
     "The tests compare a few nodes of one tree in which insertion order equals document order, so a missing order or bound goes unnoticed.",
     [MP, NS, AL, LT, M], [("queries", f"{MP}, {NS}, {AL}, {LT}: get_*"), ("generic parts", f"{M}: NodeManager")], assumptions=QUERY_ASSUME)

prop("C15", "Structural predicates agree with the tree",
     "is_root, is_leaf, is_descendant_of, is_child_of, is_sibling_of and get_depth answer exactly what the tree structure says for every pair of nodes, including a node with itself and nodes of different trees.",
     ["inputs"], "all backends, all valid trees, all pairs of nodes",
     "Pairs are sampled; prefix- and interval-based answers go wrong only for particular pairs (same node, cousin at the same depth, other tree).",
     [MP, NS, AL, LT, M], [("predicates", "is_* and get_depth of the node classes")], assumptions=QUERY_ASSUME)

prop("C16", "Tree and descendant listings and counts are exact and honour max_depth",
     "get_tree, get_descendants (with and without the node itself), get_descendant_count, get_children_count and get_descendants_group_count cover exactly the requested nodes, in document order, with max_depth counted relative to the given node (or the roots), zero included; counts are integers.",
     ["inputs"], "all backends, all valid trees, all nodes, all depth limits",
     "A limit is tried on one tree for one or two nodes; boundaries (zero, a leaf, a node without siblings) are not.",
     [MP, NS, AL, LT, M], [("listings", "get_tree, get_descendants"), ("counts", "get_descendant_count, get_children_count, get_descendants_group_count")], assumptions=QUERY_ASSUME)

prop("C17", "Annotated lists open, close and indent every node correctly",
     "get_annotated_list yields the nodes of the branch in document order (limited by max_depth) with the level relative to the first node, 'open' exactly on the first node of each level run, and as many 'close' entries as levels end after the node, so that rendering them gives balanced nested lists.",
     ["inputs"], "all backends, all valid trees and branches, all depth limits",
     "One tree's expected lists are tested; branches that end several levels at once or start below the root are not.",
     [M], [("annotation", f"{M}: get_annotated_list, get_annotated_list_qs")], assumptions=QUERY_ASSUME)


prop("C18", "find_problems reports exactly the damaged nodes",
     "find_problems (materialized path and nested sets) reports nothing on a consistent tree. It puts a node into a list only if the node has that defect: characters outside the alphabet, wrong path length, missing parent, wrong depth, wrong child count; reversed, overlapping or duplicate intervals, wrong depth. A damaged node or table never goes unreported (a materialized-path node with several defects is listed at least under the first of them in this order), and with a parent only the branch is examined.",
     ["inputs"], "all trees, all single and double damages of the tree columns",
     "The tests damage a few fixed rows of one fixture; a check that is skipped, shadowed by an earlier one or off by one for other damages is not noticed.",
     [MP, NS], [("materialized path", f"{MP}: find_problems"), ("nested sets", f"{NS}: find_problems")],
     assumptions=LAYOUT_ASSUME[:2] + ["the damage is one or two changed columns, a missing row, a foreign character or a short step"])

prop("C19", "fix_tree repairs the columns and changes nothing else",
     "After fix_tree on a materialized-path tree every depth equals the number of path steps and every child counter the number of children; no path is touched unless fix_paths is requested. With fix_paths the steps of every sibling group are 1..n in node_order_by order (or the order they had), every node keeps its parent, the unique path constraint is never broken on the way and path_updated covers every rewritten path. With a parent nothing outside its branch changes.",
     ["inputs", "histories"], "all trees, hole patterns, orders and damages of depth and numchild, with and without parent and node_order_by",
     "The tests repair one broken fixture; swaps, rotations and occupied positions during renumbering occur only for other orders.",
     [MP], [("columns", f"{MP}: fix_tree, _fix_numchild"), ("renumbering", f"{MP}: fix_tree, _rewrite_node_path")])

prop("C20", "A tree operation that fails leaves the tree as it was",
     "Every add, move and delete operation and the renumbering of fix_tree(fix_paths=True) is all or nothing: whatever statement of it fails (a constraint, the insert of the new row, a lost connection, a signal receiver), no earlier statement of the same operation stays in the database, and the error reaches the caller.",
     ["crash_points", "inputs"], "all backends, all operations and positions, every statement of the operation as the point of failure",
     "The tests run inside a transaction that is rolled back anyway and never let the second or third statement fail.",
     [MP, NS, AL, LT], [("transactions", "transaction.atomic around the manager methods and queryset deletes"), ("multi-statement updates", "sibling shifting, gap opening and closing, child counters")],
     rule="an obligation is one (operation, tree position): on its path all writing statements are inside one outermost atomic block on the database they go to, no handler inside the block swallows a database error, and the signals that report them are sent inside it",
     assumptions=LAYOUT_ASSUME[:2] + ["the database rolls a transaction back as documented", "all nodes of an operation are on the one database the router gives for writing the model, the default one or not"])

prop("C23", "Dumps describe the tree and bulk loads build what they are given",
     "dump_bulk yields exactly the branch as nested entries in document order: each entry holds the node's own field values without the columns of the tree, its primary key if and only if keep_ids, and 'children' only where there are some. load_bulk (also with bulk_create) creates exactly the given nodes with the given values and parents, last among their siblings in the given order or at their node_order_by place, keeps the given primary keys with keep_ids, leaves other nodes alone, leaves a valid tree and returns the primary keys.",
     ["inputs"], "all backends, all trees and target nodes, all shapes of loaded data, sorted and unsorted, with and without keep_ids and bulk_create",
     "Two fixed structures are dumped and loaded by the tests, into an empty tree or one node; interleaving with existing siblings, counters of the target and order below it are not.",
     [MP, NS, AL, LT, M, "treebeard/utils.py"], [("dump", f"{MP}, {NS}, {AL}, {LT}: dump_bulk"), ("load", f"{M}: load_bulk; {MP}: load_bulk(bulk_create=True)"), ("data", "treebeard/utils.py: prepare_dumpdata_for_loading")],
     assumptions=LAYOUT_ASSUME[:2] + ["Django's python serializer yields one value per local field and its deserializer is the inverse", "no many-to-many fields in the analysed model"])

prop("C21", "Creation arguments are checked before anything is written, and honoured",
     "add_root, add_child and add_sibling take either create_kwargs or an unsaved instance. Both or neither raise ValueError and an instance that is already saved raises NodeAlreadySaved, before anything is written. Otherwise exactly one row is created, with the given values, and the call returns that node, which is the passed instance itself if there was one.",
     ["inputs"], "all backends, all operations and positions, all trees, all ways to pass the new node",
     "The tests try a few combinations on one backend; a delegation (sorted insertion, first child, root) that loses the instance or the values is not covered for each.",
     [MP, NS, AL, LT, "treebeard/utils.py"], [("checks", "treebeard/utils.py: check_create_args"), ("delegation", "add_root and add_child to add_sibling")])

prop("C30", "The deprecated node methods do what the manager methods do",
     "Until they are removed, the deprecated methods on the model class and on nodes (add_root, add_child, add_sibling, move and every moved query) forward all arguments to the manager method of the same name: they change the tree in the same way and return the same nodes and counts, as do the handler classes of materialized-path trees; every such call warns with RemovedInTreebeard8Warning.",
     ["inputs"], "all backends, all trees, all nodes, positions and optional arguments",
     "The forwarding is generated with setattr and partials at import time; the tests call a few of the methods without their optional arguments.",
     [M, "treebeard/deprecation.py"], [("forwarding", "treebeard/deprecation.py: _handle_moved_method, _handle_moved_classmethod"), ("explicit ones", f"{M}: Node.add_root, add_child, add_sibling, move"), ("injection", f"{M}: _inject_moved_method_back_compat"), ("handlers", f"{MP}: MP_AddRootHandler, MP_AddChildHandler, MP_AddSiblingHandler, MP_MoveHandler")],
     assumptions=QUERY_ASSUME)

prop("C24", "Saving the move form puts the node where the form says",
     "MoveNodeForm.save() puts a new or existing node exactly at the chosen position relative to the chosen node (at the top: last for a new node, first for an existing one; sorted trees: at its node_order_by place under the right parent, also when only an ordering field was edited), returns the saved node and leaves a valid tree with every other node in place. If neither the tree fields nor an ordering field were changed the tree is not touched. The initial values of the form describe the node's present place, so resubmitting them keeps it there.",
     ["inputs"], "all backends, sorted and unsorted, all trees, nodes, reference nodes and positions, commit or not",
     "The form tests submit a few positions on one tree per backend; the delegation to add and move and the initial values are not tried for all of them.",
     ["treebeard/forms.py"], [("save", "MoveNodeForm.save"), ("initial values", "MoveNodeForm._get_initial")],
     assumptions=LAYOUT_ASSUME[:2] + ["ModelForm.save(commit=True) saves the instance and returns it; ModelForm.__init__ keeps the given initial values"])

prop("C25", "The move form offers exactly the valid reference nodes",
     "The reference nodes offered by MoveNodeForm are all nodes of the tree in document order without the node itself and its descendants (all nodes when adding), every offered node is accepted on submission, the empty choice (root) comes first, and the positions offered are the ones valid for sorted or unsorted trees.",
     ["inputs"], "all backends, all trees, all nodes",
     "The choices are compared for one tree; which descendants are excluded and in which order depends on the tree.",
     ["treebeard/forms.py"], [("choices", "MoveNodeForm._set_ref_model_queryset, __init__")],
     assumptions=QUERY_ASSUME + ["ModelChoiceField offers the rows of its queryset, or the explicit choices set before the queryset"])

ADMIN_ASSUME = LAYOUT_ASSUME[:2] + ["the methods inherited from ModelAdmin behave as documented: permission hooks answer per object, get_changelist_instance lists get_queryset(request), changelist_view checks view or change permission"]

prop("C26", "The admin neither changes nor shows the tree without permission",
     "TreeAdmin.move_node answers PermissionDenied and leaves the tree unchanged unless the user may change the node that is moved (and may view or change the model), changes nothing for an invalid request or for one that is not a POST, and never refuses a user who has the permissions; both views are reached only through the check of the admin site (staff users) and with the request token checked; the children view and the change list answer PermissionDenied to a user without view permission, and to no other.",
     ["inputs"], "all backends, all trees, all pairs of nodes, all combinations of model and object permissions",
     "Tests use a superuser and one refused user; object permissions, invalid requests and the order of check and write need all combinations.",
     ["treebeard/admin.py"], [("move", "TreeAdmin.move_node"), ("children", "TreeAdmin.children_view")],
     assumptions=ADMIN_ASSUME)

prop("C27", "The admin moves a node exactly where it was dropped and reports failures",
     "A permitted TreeAdmin.move_node request makes the node the last child of the target (relation child) or its left sibling (relation sibling), or puts it at its sorted position in a sorted tree, and answers with success; a move below itself, or one the path column cannot hold, is answered with a client error and leaves the tree unchanged; saving the node form with errors in it or its formsets rolls the transaction of the model's database back, and only then.",
     ["inputs"], "all backends, all trees, all pairs of nodes, both relations, any node as target, proxy and multi-table models",
     "Tests drag a few nodes; the resulting position and the answer depend on where in which tree the two nodes are.",
     ["treebeard/admin.py"], [("move", "TreeAdmin.move_node"), ("rollback", "TreeAdmin._changeform_view")],
     assumptions=ADMIN_ASSUME)

prop("C39", "The admin's page, its script and its views fit together",
     "Requests of the tree change list reach the server as they were meant, and the page shows what it answers. Below the admin of a tree model, a request to 'move/' is answered by move_node and one to 'children/<key>/', whatever the type of the key, by children_view with that key, ahead of every route of Django's own admin. Dropping a row on another one posts exactly once, to 'move/', the dragged row's node, the node of the row it is dropped on, the relation ('sibling' on its upper half, 'child' on its lower half) and the request token, also after earlier drags; a drop on itself posts nothing; the page is loaded again after a success and after a failure. Expanding a row requests each page of its children once, with the parameters of the page, and inserts them below it in order, with their own context; expanding again asks nothing; collapsing hides all descendants. Every row, loaded at first or later, has the handle, expander and indentation its context asks for.",
     ["inputs", "histories"], "all backends, keys of every type, all contexts of rows, 1-3 pages of children, sequences of two drags or expansions",
     "Tests call the view functions with a request factory or one integer key; no test runs the script or resolves an address.",
     ["treebeard/admin.py", "treebeard/static/treebeard/treebeard-admin.js", "treebeard/templates/admin/tree_change_list.html"], [("routes", "TreeAdmin.get_urls"), ("drag and drop, expanding", "treebeard-admin.js"), ("script and data", "tree_change_list.html")],
     technique="path-sensitive abstract interpretation of the routes and of the script's syntax tree (symbolic rows, keys, levels and pointer positions; effects: requests sent, rows inserted, hidden or marked)", rule="every feasible path of the script and the routes has exactly the effects stated, for each scenario",
     assumptions=ADMIN_ASSUME + ["jQuery, the DOM and URLSearchParams behave as documented; the script's syntax tree comes from acorn", "Django's own change list gives each row one tr in the order of the result list"])

prop("C40", "The tables refuse two nodes at one place and hold every number",
     "In the table of every materialized-path and ltree model, no two rows have the same path: the database refuses the second one, whatever other processes do meanwhile (for ltree at the end of the transaction, so that siblings can be shifted), alone, for all rows. No path and no number of a tree is ever missing, the number columns of materialized-path and nested-set models hold every number up to 2^31-1, and every tree model has a table of its own.",
     ["schedules"], "MP, NS and LTree models; AL models declare their own columns",
     "What a table would refuse or cut off shows only when two processes collide or a tree outgrows a column; tests have one process and small trees.",
     [MP, NS, LT], [("columns and constraints", "MP_Node, NS_Node, LT_Node")],
     technique="evaluation of the model declarations (fields, Meta, abstract parents) in the syntax tree", rule="each tree column and each uniqueness constraint is declared with the stated meaning", assumptions=["a model that replaces Meta extends the Meta of its tree class, as Django documents", "Django creates the columns and constraints as declared"])

prop("C41", "Texts are shown in the user's language, with their values",
     "Every text the package shows to a user - the labels, positions and empty choice of the move form, the messages of the admin, the texts of refused moves - is looked up in the catalog of the request's language when it is shown: a text built when a module is imported stays lazy, none is shown as it stands in the source. In every shipped language each translation names exactly the values its message names, the compiled catalogs hold the translations of the text catalogs, and a message that is filled is given every value it names.",
     ["inputs"], "every translation call, shown text and message of every catalog in the package",
     "Tests run in English, where a text translated at import, never translated, or translated with a wrong placeholder looks right.",
     ["treebeard/forms.py", "treebeard/admin.py", "treebeard/locale"], [("forms", "MoveNodeForm"), ("messages", "TreeAdmin.move_node"), ("catalogs", "treebeard/locale/*/LC_MESSAGES")],
     technique="syntax-tree query with name resolution and reaching definitions, plus parsing of the message catalogs", rule="each translation call evaluated at import resolves to a lazy one (or a mark), each shown text resolves to a translation call, each catalog entry has the placeholders of its message and is compiled, each filled message is given its values",
     assumptions=["gettext, gettext_lazy and gettext_noop behave as Django documents"])

prop("C33", "The admin change list shows the tree level by level, with the right context",
     "The change list lists exactly the root nodes, and the children view exactly the children of the given node, in sibling order (restricted, for a model inheriting from the tree model, to its own nodes), remembers that node on the request, and gives for each listed row, in order, its key, its parent's key (0 for roots), its level, whether it has children, and whether the user may change it; the page is answered for GET and HEAD requests alike; other requests see all nodes.",
     ["inputs"], "all backends, all trees, all nodes, proxy and multi-table models",
     "Tests render one list; that rows and context entries line up and each entry is right is a statement about all trees.",
     ["treebeard/admin.py", "treebeard/templatetags/admin_tree.py"], [("queryset", "TreeAdmin.get_queryset"), ("context", "tree_context"), ("children", "TreeAdmin.children_view")],
     assumptions=ADMIN_ASSUME + QUERY_ASSUME[-1:])

prop("C11", "Reading the tree never changes it",
     "No query method, predicate, listing, dump, problem search, construction of a move form or admin list writes a row or announces a change through a signal, for any tree and any node.",
     ["inputs"], "all backends, all read operations, all trees and nodes",
     "A write hidden in a read path shows only on the trees that reach it; tests compare results, not what was written.",
     [M, MP, NS, AL, LT, FORMS, ADMIN, TAGS], [("queries", "NodeManager and Node of every backend"), ("dump, find_problems", f"{M}, {MP}, {NS}"), ("forms and admin", f"{FORMS}, {ADMIN}, {TAGS}")],
     technique="effect analysis by path-sensitive abstract interpretation: the writes and signals of every feasible path of every read operation", rule="no feasible path of a read operation contains a write effect or a signal", assumptions=QUERY_ASSUME)

prop("C35", "Tree operations write only tree columns of other rows",
     "Adding, moving, deleting or bulk loading nodes changes, in rows other than the ones being placed, only the columns the tree owns: user fields of siblings, parents, targets and descendants keep their stored values, also when the object passed in memory holds older ones; such rows are never saved as a whole.",
     ["inputs", "histories"], "all backends, all operations, all trees, all node/target pairs",
     "Overwriting a user field with an outdated value is visible only when another process changed the row between the read and the write.",
     [MP, NS, AL, LT, M], [("updates of other rows", f"{MP}, {NS}, {AL}, {LT}: add_*, move, delete")],
     technique="effect analysis by path-sensitive abstract interpretation: the columns named by every update, bulk update and save on every feasible path",
     rule="an update names tree columns only; a save of an existing row other than the moved node restricts update_fields to tree columns")

prop("C36", "Deleting acts on the database the nodes are in",
     "Deleting a queryset bound to a database (Model.objects.using(alias)), or a node loaded from one, reads the subtree from that database, deletes from it, repairs counters and closes gaps in it, in a transaction on it, and reports it as 'using' in the nodes_deleted and gap_altered signals; a database the nodes are not in is neither read nor changed.",
     ["inputs"], "all backends, all trees, all selections of nodes, proxy models, every statement of the deletion",
     "The test project has one database; a statement sent to the default connection is invisible in it.",
     [MP, NS, AL, LT, M], [("queryset deletion", f"{MP}, {NS}, {LT}: *_NodeQuerySet.delete"), ("object deletion", f"{M}: Node.delete"), ("gaps", f"{NS}: _close_gap")],
     technique="dataflow by path-sensitive abstract interpretation: the database alias of the queryset or object is a symbolic value followed into every query, write, transaction and signal of every feasible path",
     rule="an obligation is one (deletion, tree, selection): every read, write, transaction and signal on its path carries the alias of the queryset, or the alias the router gives for the deleted object",
     assumptions=LAYOUT_ASSUME[:2] + ["QuerySet.using, Manager.db_manager, transaction.atomic(using) and router.db_for_write(instance=) behave as documented"])

prop("C22", "Adding below an outdated parent object is safe, under a lock on its row",
     "add_child places the new node as the last (or sorted) child of the target's present row and keeps the tree valid even if the target object was loaded before its row was moved or got or lost children; deleting through an outdated object removes exactly the row's present subtree. On materialized-path, nested-set and LTree trees add_child locks the row of the parent (SELECT FOR UPDATE) in a transaction before anything it reads decides the place, and holds the lock until its last write.",
     ["inputs", "schedules"], "all backends, all trees, all targets, all earlier states the target object can have been loaded in; two callers adding below the same parent",
     "Stale objects arise from other processes; the lock has no effect in a sequential test (and none on SQLite).",
     [MP, NS, AL, LT, M], [("locked re-read of the parent", f"{MP}, {NS}, {LT}: add_child"), ("delete by key", f"{M}: Node.delete")],
     technique=LAYOUT_TECH + "; the lock by a typestate rule over the effect sequence of every path (locked read of the parent row, then reads, then writes, one atomic block)",
     assumptions=LAYOUT_ASSUME[:2] + ["only rows are locked: adding below different parents of a nested-set tree is not covered", "the database honours SELECT FOR UPDATE (SQLite serialises writers instead)"])

prop("C28", "Node texts are shown indented and escaped, never as markup",
     "The label of a reference node in the move form is its own text, HTML-escaped exactly once, behind the separator (escaped unless marked safe) repeated once per level above it; adjacency-list choices use the same labels; nothing in the admin's messages, response bodies or templates marks text from nodes or requests as safe without escaping it.",
     ["inputs"], "all node texts, all separators, all depths, all backends",
     "Injection needs a text with markup characters in it at a spot no test renders.",
     [FORMS, ADMIN, TAGS, "treebeard/templates/admin/tree_change_list.html"], [("labels", "TreeNodeChoiceField.label_from_instance"), ("choices", "MoveNodeForm._set_ref_model_queryset"), ("templates", "tree_change_list.html")],
     technique="taint analysis over abstract strings (plain, escaped, marked safe) along every path that builds a label, message or response; a query over the template syntax",
     rule="text of a node reaches a safe string only through exactly one escape; no safe filter, autoescape off or raw script variable in a template", assumptions=QUERY_ASSUME[:2] + ["templates autoescape plain strings and leave safe strings alone"])

prop("C29", "Read operations return nodes of the right class",
     "The nodes returned by query methods, listings and annotated lists of a model are instances of that model; for a proxy model they are instances of the proxy; for a multi-table child (or a proxy of one) they are instances of the tree model the child inherits from, and no query fails because some nodes are not of the child class.",
     ["inputs", "configurations"], "all backends, all read operations, plain, proxy, proxy of proxy, multi-table child and proxy-of-child models, all trees",
     "The tests use one proxy and one inherited model with trees of one kind; mixed trees make other paths matter.",
     [M, MP, NS, AL, LT], [("result class", f"{M}: NodeManager.tree_model"), ("queries", f"{MP}, {NS}, {AL}, {LT}")], assumptions=QUERY_ASSUME)

prop("C31", "The system check reports every model without a tree manager",
     "Model.check() of a tree model reports treebeard.E001 once if and only if the model's default manager is not an instance of the manager class of its own tree type or a subclass of it, and keeps every error that Django's own checks found.",
     ["configurations"], "all tree types, all default managers, proxy models",
     "Tests build one model with one wrong manager.",
     [M], [("check", f"{M}: Node.check")], assumptions=RULE_ASSUME)

prop("C32", "Step numbers and their texts convert both ways in positional notation",
     "For every alphabet without duplicate characters and every number n >= 0, NumConv.int2str(n) is n written in the alphabet without leading zero digits (so it has at most k characters exactly when n < len(alphabet)**k), and str2int of a text is the number it denotes. Negative numbers, texts with a character outside the alphabet, and alphabets with duplicates raise ValueError. The default alphabet ascends, so that padded texts sort like the numbers.",
     ["inputs", "configurations"], "all numbers, all texts, all alphabets",
     "Tests convert a handful of numbers with two alphabets.",
     ["treebeard/numconv.py", MP], [("conversion", "treebeard/numconv.py: NumConv.int2str, str2int, __init__"), ("alphabet", f"{MP}: MP_Node.alphabet, numconv_obj")],
     technique="abstract interpretation with numbers as polynomials over n, the radix and quotients, and texts as (value, weight, leading digit); loops unrolled over the first digits and closed by an induction step over the loop head",
     rule="on every path the value of the returned text is n (respectively the number returned is the value of the text), every digit is below the radix, the leading digit of several is not zero; one turn of the loop keeps n = x*R^len + value",
     assumptions=["the radix is at least 2", "Python's integers and divmod are exact"],
     note="Up to 4 digits on every path; any number of digits by induction when the loop is a single while (int2str) or for (str2int), as on the current tree; the evidence says which.")

prop("C34", "A generated LTree label lies strictly between its neighbours and is unused",
     "Whatever neighbours are given, a label returned by generate_label sorts strictly after `after`, strictly before `before` (each if given) and is not in `skip`.",
     ["inputs"], "all pairs of neighbouring labels (or none) and all sets of used labels",
     "The test tries ten pairs; the labels that need another character, or all of whose candidates are taken, are others.",
     [LT], [("label search", f"{LT}: generate_label")],
     technique="path-sensitive abstract interpretation of generate_label with the neighbours, the used labels and the candidates kept symbolic",
     rule="on every path that returns a label, the path conditions include label > after, label < before and label not in skip for the arguments given on that path",
     assumptions=["strings are compared by code point (C collation)", "that a label exists whenever the constraints allow one is not claimed"],
     note="Complete over paths with loops cut after the second iteration (the facts of an iteration do not depend on earlier ones); existence and termination are not claimed.")

prop("C37", "Paths of an LTree node keep their labels in every representation",
     "A PathValue made from a text, a list, a tuple or another PathValue holds exactly the labels given, in order, and its text is the labels joined by dots; the empty path has no labels. A PathField hands out PathValues (from the database, from to_python and from the attribute of the node) and sends the joined text to the database; None stays None everywhere, and what is neither a text nor an iterable is refused with ValueError. Reading the attribute of a node whose path was deferred loads it.",
     ["inputs"], "all numbers of labels, all representations, loaded and deferred fields",
     "Tests store the same texts through the manager and read them back; the other representations and deferred fields are not exercised.",
     [LTF], [("path values", f"{LTF}: PathValue"), ("field conversions", f"{LTF}: PathField, PathValueProxy")],
     technique="path-sensitive abstract interpretation of the conversions with texts and lists as sequences of unknown labels",
     rule="for every kind of input and 0 to 3 labels, every path of the conversion ends in the representation the statement names with the same labels in the same order, or in the documented refusal",
     assumptions=["labels contain neither dots nor blanks (ltree refuses others)", "Model.refresh_from_db(fields=[f]) stores field f in the instance"],
     note="Labels are symbolic; up to 3 of them, which is beyond every distinction (none, one, several) the code makes.", state=ST_LT, thorough=False)

prop("C38", "Move forms never expose the columns of the tree",
     "movenodeform_factory(model, form, exclude, **kwargs) makes a form for that model on the given form class (MoveNodeForm by default) that leaves out every column the tree type owns, also when `fields` names it or is '__all__', and every field the caller excludes, but no other; it hands every other argument to Django's modelform_factory and does not change the arguments it was given.",
     ["inputs", "configurations"], "all tree types, plain, proxy and inherited models, all ways to give excluded and included fields",
     "Tests build a few forms with a tuple of excludes or none, and look at their fields.",
     [FORMS, MP, NS, AL, LT], [("factory", f"{FORMS}: movenodeform_factory"), ("columns", f"{MP}, {NS}, {AL}, {LT}: MOVENODE_FORM_EXCLUDED_FIELDS")],
     rule="on every path the excluded fields handed to modelform_factory are exactly the columns of the tree type and the caller's, the other arguments arrive unchanged, and the caller's list is not written to",
     assumptions=["modelform_factory leaves out the fields named by exclude, whatever fields names", "a form class made in another way is reported as undecided"])

NA = {}


def na(pid, title, statement, over, text, why, files, mech, reason):
    prop(pid, title, statement, over, text, why, files, mech)
    NA[pid] = reason


na("N02", "An LTree label is found whenever one can exist",
   "generate_label terminates and finds a label whenever some label lies strictly between the neighbours, and raises InvalidLabelConstraints only when none does.",
   ["inputs"], "all pairs of labels", "Tests try ten pairs.", [LT], [("label search", "generate_label")],
   "existence of a string between two strings is a property of the enumeration order of itertools.product over computed alphabets, a runtime quantity no static argument here bounds (C34 covers what is returned)")
na("N03", "Concurrent operations are serialisable",
   "Two tree operations running at the same time leave the tree as some sequential order of them would.",
   ["schedules"], "all interleavings of all pairs of operations on all databases", "Tests are sequential.",
   [MP, NS, AL, LT], [("operations", "add_*, move, delete")],
   "the library takes no lock that would order arbitrary operations (only add_child locks its parent row, C22); the outcome depends on the isolation level and locking of the database, which no analysis of this source decides")
na("N04", "Trees load and behave the same on every database",
   "The same history gives the same tree on SQLite, PostgreSQL, MySQL and SQL Server, whatever collation the path column has.",
   ["configurations"], "all databases and collations", "Tests run one database.",
   [MP, LT], [("path ordering", f"{MP}: alphabet"), ("vendor branches", f"{MP}: _set_newpath_in_branches")],
   "collations and vendor SQL are outside the source; the MySQL-specific update order alone is covered by C01")
