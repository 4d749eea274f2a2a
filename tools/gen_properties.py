#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand after an edit; no check runs it)."""
import json, os
C = "node_tree_core/src/"
NB, NTB, SC, SIG = C+"structs/node_base.rs", C+"structs/node_tree_base.rs", C+"structs/node_scene.rs", C+"structs/signals.rs"
TP, RID, PATH, LOG = C+"structs/tree_pointer.rs", C+"structs/rid.rs", C+"structs/node_path.rs", C+"structs/logger.rs"
TO, TR, FLD, FN = C+"structs/tree_option.rs", C+"structs/tree_result.rs", C+"structs/node_field.rs", C+"utils/functions.rs"
EXP, GL, REG, NODE = C+"traits/exportable.rs", C+"traits/glam_exportables.rs", C+"services/node_registry.rs", C+"traits/node.rs"
DL, DP, DG = "node_tree_derive/src/lib.rs", "node_tree_derive/src/parser.rs", "node_tree_derive/src/generator.rs"
P = []
NTRAIT = "node_tree_core/src/traits/node_tree.rs"
INST = "node_tree_core/src/traits/instanceable.rs"
def p(id, title, statement, over, text, why, files, mech, observe, hook=False):
    assert len(title) <= 80, title
    assert 1 <= statement.count(". ") + 1 <= 3, (id, statement)
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=[observe], hook_needed=None)))

p("C01", "The tree holds exactly the nodes that were added and not removed, in place",
  "After any sequence of additions, removals and frees, made from outside or from inside any hook, the tree contains exactly the nodes that were added and have not left, each below the parent it was added to and with siblings in the order they were added. Parent, children, child count, depth, root, owner, lookup by identifier and top-down traversal all describe that one tree. A node that has left reports that it has no tree, no parent and no owner, and so does everything that was below it.",
  ["histories", "programs"], "all histories of structural operations, at rest and nested inside hooks at any depth",
  "The tests build a few fixed trees of at most a dozen nodes and never compare the whole structure with what was asked for, least of all after removals made from inside hooks.",
  [NB, NTB, RID], [("add_child / add_child_from_ptr", NB), ("remove_child / free / take_down", NB), ("register_node / unregister_node", NTB), ("top_down", NB)],
  "public queries of every node, walked from the root between operations and at the start of every hook")

p("C02", "Siblings never share a name, and a name that is free is kept as asked",
  "At no time do two children of the same node have the same name. A node that is added or renamed gets exactly the name asked for when no sibling has it, whatever characters it is made of, and otherwise a fresh name derived from it; the names of all other nodes stay as they were. No name, however unusual, makes adding or renaming a node fail.",
  ["inputs", "histories"], "all name strings (empty, non-ASCII, digits only, very long, differing by suffix) in all orders of adding, renaming and removing",
  "The tests only give two or three siblings the same ASCII name; the space of colliding numeric suffixes and odd characters is unbounded.",
  [NB, FN], [("ensure_unique_name", FN), ("set_name", NB), ("add_child_from_ptr", NB)],
  "names of all siblings after every operation")

p("C03", "Identifiers are unique and tree pointers reach exactly their node or nothing",
  "Every live node has an identifier that no other live node has and that never changes while it is in the tree. A typed or dynamic tree pointer reaches precisely the node it was made for as long as that is in the tree, and is null with the null error once it has left and no node was added since. Asking for a node as another type than its own always gives the wrong-type error and never access.",
  ["histories", "inputs"], "all histories of additions and removals, with pointers of every kind, right and wrong type, held across them",
  "Tests take a pointer and use it at once; none keeps pointers across removals or asks for the wrong type except once.",
  [TP, RID, NTB, NB], [("Tp::new / get / try_get / is_valid", TP), ("TpDyn::to / is", TP), ("RIDHolder::push / take", RID)],
  "pointers held by the harness next to the shadow tree, queried after every operation")

p("C04", "Node paths resolve to the node they describe, or to none",
  "A relative path resolves from the calling node, and an absolute path from the root whose name it starts with, by following child names, '.' and '..' one segment at a time, and to nothing if any segment does not exist. The absolute path a node reports resolves back to that node from everywhere in the tree, provided that the names on it can be written as a segment. Turning a path into text and back gives an equal path, and empty segments are ignored.",
  ["inputs", "histories"], "all path strings over any tree shape, from any calling node",
  "The tests resolve a handful of fixed paths in one fixed tree.",
  [PATH, NB], [("NodePath::from_str / to_string / get_from", PATH), ("get_node_raw / get_absolute_path", NB)],
  "result of path lookups compared with a walk of the tree")

p("C05", "A scene is instanced exactly as it is described",
  "Adding a scene to a tree, as its root or below any node, creates one node for every node of the scene, with the same types, field values, parents and sibling order, and with its names except where siblings clash. Each node that the scene marks as an owner is its own owner, and every other one has the owner of its parent; a single node added on its own takes its parent's owner, and the tree's root owns itself. A node outside the added scene is not changed.",
  ["inputs", "histories"], "all scene shapes with all ownership markings, built by hand, nested, cloned, or loaded, added anywhere",
  "The tests instance four fixed scenes and look at their structure only through a hash.",
  [SC, NB, NTB, NODE], [("NodeScene::iterate", SC), ("append / append_as_owner", SC), ("add_child", NB), ("initialize", NTB)],
  "nodes of the tree after adding, compared with the description the scene was built from")

p("C06", "In a frame every eligible node is processed once, parents first, in order",
  "During a frame every node that is in the tree when the frame starts, stays in it and is not held back by its process mode is processed exactly once, after its parent and in the order of siblings (pre-order). No node is processed more than once in a frame or after it has left the tree, even when hooks add and remove nodes during it. All nodes processed in one frame receive the same elapsed time, which is that since the previous frame.",
  ["histories", "programs"], "all tree shapes and all structural changes made by hooks during the frame",
  "Tests count a few frames of static trees and never mutate the tree in the middle of one.",
  [NTB], [("process / process_tail", NTB)], "events written by the process hook of every node")

p("C07", "Pausing and process modes decide exactly which nodes are processed",
  "While the tree is running, exactly the nodes with an always or pausable effective mode are processed, and while it is paused exactly those with an always or inverse one. The effective mode is a node's own unless it inherits, in which case it is its parent's effective mode, and pausable for the root. Pausing and unpausing take effect from the next node on, keep a queued termination queued, and do nothing once termination has begun.",
  ["histories", "configurations"], "all assignments of modes to trees of any shape, with pause and unpause called at any time",
  "No test pauses a tree or uses a process mode at all.",
  [NTB], [("process_tail", NTB), ("pause / unpause", NTB)], "process events against the modes and tree status recorded by the harness")

p("C08", "ready() runs once per added node, on the whole scene, loaded() just before",
  "Every node added to a tree has its ready hook called exactly once in its life, once the whole scene that it was added with is in place, and in the reverse of the order in which nodes were added (so after everything below it). A node that was loaded from a saved scene has its loaded hook called exactly once, immediately before its ready hook, and other nodes never have. A node removed before its turn gets neither.",
  ["histories", "inputs"], "all scenes, loaded or built, added at any time including inside hooks, with hooks that change the tree",
  "Tests check that a ready hook ran, not order, count or the state of the tree at that time.",
  [NB, NTB, SC], [("make_ready / add_child", NB), ("initialize", NTB), ("iterate marks loaded nodes", SC)],
  "events written by the loaded and ready hooks with a snapshot of the tree")

p("C09", "A leaving node gets terminal() once, with the right reason, then nothing more",
  "When a node is removed from its parent or freed, it and everything below it have their terminal hook called with the matching reason, while the whole branch is still in the tree, before the call returns. When the tree terminates in the orderly way, every node in the tree gets it with the tree-exit reason. No node ever has its terminal hook called twice, whatever hooks do, and once a node has left the tree none of its hooks runs again.",
  ["histories", "programs"], "all removals and frees of any branch, nested inside each other's hooks, and tree exit",
  "The tests have one or two terminal hooks on trees without nesting and never remove a node from inside another's terminal hook.",
  [NB, NTB], [("take_down / mark_as_exiting", NB), ("process_tail in Terminating", NTB)],
  "events written by the terminal hooks, with the state of the tree at that time")

p("C10", "Termination goes through its states in order and always ends",
  "Queueing termination lets the current (or else next) frame finish as usual, is followed by exactly one frame in which nodes get their terminal hook instead of being processed, and then the tree is terminated for good. Immediate termination, the freeing of the root and a logged panic end it at once with no tree-exit hooks; queueing again or late changes nothing. Each frame returns the state it leaves the tree in, and the frames of a terminated tree run no hook and never make it active again.",
  ["histories"], "all interleavings of queueing, terminating, pausing, freeing the root and panicking with frames, from outside and inside hooks",
  "Tests only queue termination once from one hook; the product of states and calls is not walked.",
  [NTB, NB], [("process status machine", NTB), ("queue_termination / terminate", NTB), ("free of the root", NB)],
  "the status every frame returns, and all hook events")

p("C11", "Every node is destroyed exactly once, never early, and none is leaked",
  "Every node handed to a tree or a scene is dropped exactly once: not while it is in a tree or while one of its hooks is running, at the end of the frame after it left the tree at the latest if frames still run, and when the tree is dropped otherwise. Scenes that are never instanced, clones, branch copies and temporary copies made for saving drop all of their nodes too. After a tree, its scenes and copies are gone no node of theirs remains.",
  ["histories"], "all histories of building, adding, removing, cloning, saving, and dropping trees and scenes",
  "No test counts drops, and leaks and early drops are invisible to assertions on values.",
  [NB, NTB, SC], [("drop_after_frame / Drop for NodeTreeBase", NTB), ("take_down", NB), ("Drop for NodeScene, iterate", SC)],
  "a counted token inside every node, whose construction and drop are logged")

p("C12", "No workload through the safe API reads or writes invalid memory",
  "However nodes, scenes, tree pointers, signals and fields are used through the safe interface, including hooks that free or remove themselves, their parents or the root, no freed, uninitialised or out-of-bounds memory is accessed, nothing is freed twice, and no invalid value is made.",
  ["histories", "programs", "inputs"], "all programs over the safe interface whose node hooks change the tree while it runs",
  "The tests run without instrumentation on tame histories, where use-after-free usually goes unnoticed.",
  [NB, NTB, SC, TP, SIG, EXP, RID], [("raw node pointers of the tree", NTB), ("raw scene pointers", SC), ("tree pointer access", TP), ("hook pointers", SIG), ("array import", EXP)],
  "AddressSanitizer and Miri reports of the workloads, drop tokens with canaries")

p("C13", "A signal calls each connected listener once per emission, with the value",
  "Emitting a signal calls every listener that was connected when the emission began exactly once with the emitted value, apart from those disconnected before their turn. A one-shot listener is called at most once in its life, even if its signal is emitted again from inside a listener. Listeners may connect, disconnect and emit on the same signal without blocking; disconnecting tells whether the connection existed, and a disconnected listener is never called again.",
  ["histories", "programs"], "all interleavings of connect, connect once, disconnect and (nested) emit over several signals, with any values",
  "The tests connect one or two listeners, emit a fixed number of times and never re-enter.",
  [SIG, DL], [("Signal::connect / connect_once / emit / disconnect", SIG), ("connect!", DL)],
  "events written by listeners, with emission and connection ids")

p("C14", "Copies of nodes and loaded nodes start without any signal connections",
  "A copy of a node (by cloning it or its scene, or copying its branch) and a node loaded from a saved scene have signals of their own without connections. Emitting on either never reaches a listener of the other, and connecting to one does not connect to the other.",
  ["histories"], "all ways to copy or load a node, with connections made before and after",
  "No test emits a signal on a copied or loaded node.",
  [SIG, SC, NB], [("Clone / Voidable / ghost export for Signal", SIG), ("NodeScene::clone", SC), ("save_as_branch", NB)],
  "listener events on originals and copies")

p("C15", "Every exportable value survives being saved and loaded unchanged",
  "For every supported type, including nested options, vectors, maps, sets, arrays, tuples, smart pointers, paths, addresses and dates, a value that is exported, written as text, parsed and imported again equals the original. This holds at the extremes of each type's documented range. A value of another shape, or a number out of the type's range, is refused instead of being changed.",
  ["inputs"], "all values of all supported types and their nestings",
  "Tests save a handful of small values; extremes, non-ASCII text, nesting and most types are never tried.",
  [EXP], [("Exportable implementations", EXP)], "the imported value compared with the original")

p("C16", "A saved scene loads back as the same scene",
  "A scene that is saved to text or to a file and loaded again has the same shape, types, sibling order, names, ownership marks and exported field values, for any names and shapes. Unexported fields start as documented for their kind (void, or the default). Saving changes nothing in the scene being saved, and loading the same text any number of times gives equal scenes.",
  ["inputs"], "all scene shapes, node types, names without duplicates among siblings, ownership marks and field values",
  "Tests save and load one three-node scene and compare only its hash.",
  [SC, REG, DL, FLD], [("save_to_str / load_from_str", SC), ("deserialize", REG), ("derive(Register)", DL)],
  "the loaded scene node by node against the description")

p("C17", "Loading a scene never crashes, and a damaged file is refused",
  "Loading a scene from any text or file content ends with either a scene or an error; it never panics, hangs or corrupts memory. Text that is not valid, or that lacks the root, a type name, an ownership mark, a parent, a known type or an exported field, has a field of the wrong shape, or lists a node ahead of its parent is refused with an error. So is a path with another extension than .scn, and a missing or undecodable file.",
  ["inputs", "fault_sequences"], "all byte strings, and all single and multiple damages of valid scene files",
  "No test loads a damaged scene file.",
  [SC, EXP, REG], [("load / load_from_str", SC), ("from_value", EXP), ("deserialize", REG)],
  "verdict of the loader on mutated and damaged documents")

p("C18", "Saving a branch of a live tree captures it faithfully and leaves it alone",
  "Saving a branch of a live tree as a scene gives a scene with the same shape, types, sibling order, names, ownership marks and cloned field values as that branch, except that its root always is an owner. The tree itself is not changed by this, no hook runs, and later changes to either do not affect the other. Adding that scene back gives a branch equal to the first.",
  ["histories", "inputs"], "all branches of trees after any history",
  "One test saves one fixed branch and compares its hash.",
  [NB, SC], [("save_as_branch", NB)], "scene against the live branch, and live tree before and after")

p("C19", "The structural hash tells scenes apart by shape, type and ownership only",
  "Two scenes have the same structural hash if they have the same shape, node types and ownership marks, whatever their names, fields and origin (built, cloned, saved from a tree, or loaded). Scenes that differ in any of the three, including the order of siblings and the place of a child, have different hashes.",
  ["inputs"], "all pairs of scenes, equal and differing by any single edit",
  "Tests compare hashes of two pairs of equal scenes and none of unequal ones.",
  [SC], [("structural_hash", SC)], "hashes of generated scenes against a canonical description")

p("C20", "A cloned scene is an equal and independent copy",
  "Cloning a scene gives a scene with the same shape, types, order, names, ownership marks and cloneable field values. Instancing, changing or dropping either one has no effect on the other, any number of times. A clone of a loaded scene is still treated as loaded.",
  ["inputs", "histories"], "all scenes and all orders of using the original and its copies",
  "Tests clone one scene implicitly while linking it into another.",
  [SC, NODE], [("Clone for NodeScene", SC), ("clone_as_instance", NODE)], "both scenes node by node, and their drop tokens")

p("C21", "A singleton name leads to its one live node for as long as that lives",
  "Registering a node under a name succeeds exactly when no live node currently goes by that name, and from then on looking the name up from anywhere finds that node. A refused registration changes nothing. When a node leaves the tree all of its names stop resolving and become free again, and no other name is affected.",
  ["histories"], "all interleavings of registering (fresh, taken, repeated names), adding and removing nodes",
  "One test registers one singleton and looks it up once.",
  [NTB, NB], [("register_as_singleton / unregister_node", NTB), ("NodeGetter for strings", NTB)],
  "registration results and name lookups against a model")

p("C22", "The log holds exactly the posted messages its verbosity lets through, in order",
  "Each message posted to the log appears there exactly once, complete and in the order of posting, with its level and with the poster's current path or singleton name, if the verbosity lets its level through, and not at all otherwise. Messages are never lost or changed later, and posting a debug, info or warning message never stops the tree.",
  ["inputs", "histories", "configurations"], "all message texts, levels, verbosities and posters, interleaved with renames and structural changes",
  "One test posts three messages and looks at nothing but termination.",
  [LOG, NB, NTB], [("Logger::post / post_manual", LOG), ("get_node_identity", NTB), ("get_absolute_path", NB)],
  "the log text, parsed and compared with the messages that were posted")

p("C23", "A posted panic ends the tree and leaves a complete crash report",
  "A panic message posted by any node terminates the tree at once under every verbosity. The log then ends with a report that holds the configured header and footer, draws the surrounding nodes each below its parent, and lists the last warning or panic that each drawn node posted in the same frame, and no issue from an earlier frame.",
  ["histories", "inputs"], "all trees, posters and sequences of warnings over frames before the panic",
  "One test posts one panic and only sees that the tree stops.",
  [LOG, FN, NTB], [("Logger::post", LOG), ("draw_tree", FN), ("status reset each frame", NTB)],
  "the report text, parsed and compared with the shadow tree and posted issues")

p("C24", "A failed access is logged as a panic, ends the tree and unwinds",
  "Using a null tree pointer, or unwrapping an error or empty value obtained from the tree, logs a panic in the name of the node that obtained it, whatever combinators it went through (or of the tree if that has left), terminates the tree and then unwinds. It never returns, and never gives access to another node. The accessors that promise not to panic leave log and tree untouched.",
  ["inputs", "fault_sequences"], "all failing accessors on all kinds of pointers, results and options, with owners in and out of the tree",
  "Tests provoke one such failure with should_panic, which cannot see the log or the state of the tree.",
  [TP, TR, TO, NTB], [("fail", TP), ("unwrap / expect", TR), ("post_failure", NTB)],
  "log, status and unwinding after each provoked failure")

p("C25", "Tree results and options behave like the standard library's",
  "Every combinator of the tree's result and option types returns what the standard library's counterpart of the same name returns for the same value and closures, calls its closures as often and with the same arguments, and has the same effect on the value it is used on. Whatever they wrap keeps belonging to the same owner through every combinator.",
  ["inputs"], "all combinators over all present, absent, success and error values",
  "No test uses more than unwrap.",
  [TO, TR], [("TreeOption", TO), ("TreeResult", TR)], "results and closure calls next to std::option and std::result")

p("C26", "Fields behave like the value they hold, and keep their copy and save rules",
  "Reading, writing, comparing by value and every assignment operator on a field have the same effect as on the plain value. Copying keeps the value, except for unique fields, whose copy is void; on loading, exported fields are restored, default fields hold their default, and the others are void. A void field says so, gives nothing when taken, panics when read, and is usable again once written.",
  ["inputs", "histories"], "all field kinds, values and sequences of operations on them",
  "The tests only read and push to three fields.",
  [FLD, DL], [("Field / UniqueField / DefaultField / ExportableField", FLD), ("derive(Register)", DL)],
  "field contents against a plain model value")

p("C27", "Dynamic pointers cast to exactly the types and traits a node has",
  "A dynamic tree pointer converts to a typed pointer exactly for the node's own type, and casts to a trait exactly when the node's class declares that it extends it, and what it then gives access to is that very node. Asking whether a cast is possible agrees with whether it succeeds. On a null pointer every cast fails with an error.",
  ["inputs", "histories"], "all pairs of node classes and types or traits, on live and departed nodes",
  "One test casts children to a single trait.",
  [TP, DL], [("cast / cast_mut / is_of / is / to", TP), ("class! extends", DL)], "cast results against the table of declared traits")

p("C28", "The class! and scene! macros produce the nodes that are written down",
  "A class declared with the macro, whatever the names around it stand for, has the declared fields with their initial values (given, from the constructor, or default), constants, functions, signals and hooks, each with the visibility and attributes that it is given, and takes its type's name as its name. A scene written with the macro has the written shape, order, names, constructor arguments and field settings, with linked scenes in the places they are written, and is the same as one put together by hand.",
  ["programs"], "all forms of declarations and scene literals that the macros accept",
  "The tests use a few forms each and compare no resulting structure.",
  [DL, DP, DG], [("class!", DL), ("scene!", DG), ("parsers", DP)], "instances and scenes made by a collection of declarations, compared field by field")

p("C29", "An identifier store maps every live identifier to its item and no other",
  "An identifier store returns for every identifier exactly the item stored under it until it is taken, and nothing for any other one. A newly stored item gets an identifier that no stored item has, whatever was stored and taken before and however the store was created or copied. Its count and its iterators agree with what is stored.",
  ["histories"], "all sequences of store, take, lookup, modify and iterate, from empty stores, vectors and copies",
  "No test uses the store directly.",
  [RID], [("RIDHolder", RID)], "every result against a map kept by the harness")

p("C30", "Every supported vector and matrix type survives being saved and loaded",
  "With the glam feature every supported vector, matrix, quaternion and affine type that is exported, written as text, parsed and imported again is equal to the original in every component, in the same order. A value of another shape, with a missing or extra component, or with a component out of range is refused.",
  ["inputs"], "all values of all supported glam types, and damaged forms of them",
  "One test saves and loads a single Vec2 value.",
  [GL], [("Exportable for glam types", GL)], "the imported value compared component by component")

p("C31", "Trees in different threads do not affect each other",
  "Any number of trees may be built, run, saved, loaded and dropped at the same time in different threads, each confined to its thread, with the same results as one after the other. Loading scenes at the same time from the shared node registry neither races, blocks nor mixes up nodes.",
  ["schedules", "histories"], "all interleavings of independent workloads on several threads",
  "Every test keeps its tree in one thread and none loads scenes in two at once on purpose.",
  [REG, NTB, SC], [("NODE_REGISTRY / deserialize", REG)], "per-thread event logs against the same workload run alone; Miri's race detector")

p("C32", "A node that is in no tree refuses what needs a tree and does the rest",
  "A node that has not been added yet, is held by a scene, was copied from a live node, or has just left its tree answers what needs no tree: that it is in none, is neither root nor owner, and its name, which it takes over as given. Everything documented to need a tree (its pointers, children, parent, owner, paths, log messages, adding, removing, freeing, saving, singletons) unwinds before it changes any tree or loses any node. Once added to a tree it is like any other node.",
  ["histories", "inputs"], "all calls on new, copied, loaded, scene-held and departed nodes, including a node's own hook that is still running when the node leaves",
  "No test uses a node outside of a tree after building it.",
  [NB, NODE], [("functions with `# Panics`", NB), ("is_stray / in_tree", NB), ("add_child", NB)],
  "unwinding or answer of every call, and a snapshot of the tree before and after it", )

p("C33", "Tree, node and collection types of one's own work like the supplied ones",
  "From every hook, as from outside, a node reaches the very tree it is in, with that tree's own type and state, however many trees of whatever types there are; it is found under no other type, and the same holds for nodes declared without class!. A collection of one's own adds exactly the nodes it gives, each below the parent and with the ownership it names, in its order, and they are made ready once all are in place, children first. State that trees and nodes hold besides is left alone and dropped exactly once.",
  ["histories", "programs"], "all numbers and kinds of trees used in turn, node types by derive and by class!, and orders in which a collection gives its nodes",
  "The tests only use TreeSimple, class! and the supplied collections.",
  [DL, NTRAIT, NODE, INST], [("derive(Tree)", DL), ("derive(Abstract) / derive(Register)", DL), ("NodeTree", NTRAIT), ("Instanceable", INST)],
  "types, addresses and contents of trees and nodes seen from every hook and at rest, and drop counts")

p("C34", "User code that panics leaves every scene, tree and node whole",
  "When a value, collection or hook of the user's own panics while nodes are copied, saved to text, loaded, instanced or processed, the panic reaches the caller, and the scenes and trees that were there are what they were before: each of their nodes is in its place, valid, and dropped exactly once in the end. Copying, loading and saving a branch leave nothing of a failed attempt behind; nodes given to a tree before the panic are in it. Everything, including loading nodes of the type that panicked, works afterwards as if there had been no panic.",
  ["fault_sequences", "histories"], "all calls into user code at which it may panic, during every operation on scenes, branches and trees",
  "No test has user code that panics.",
  [SC, NB, REG], [("Clone for NodeScene", SC), ("save_to_str / load_from_str", SC), ("save_as_branch", NB), ("add_child", NB)],
  "contents of all scenes and the tree, and drop counts, after every operation")

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
