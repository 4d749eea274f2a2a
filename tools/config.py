"""What each check runs, and the least that it has to observe before it may say that a property held."""

ASSUMPTIONS = [
    "The workloads are driven by a seeded generator: a violation that needs inputs or histories outside of it is not observed.",
    "The oracles (model tree, expected documents, reference values) in /verif/harness are right.",
    "rustc, its standard library and the sanitizers and Miri, where used, report what happens.",
]

EPISODE = ("a case is one tree driven through a random history of operations from outside and from inside hooks, against a model tree; "
           "it is non-trivial when at least one frame ran and at least ten operations were made; distinct by the hash of the trace")


def engine(quick, thorough, needs, **more):
    return dict(rule=EPISODE, quick=[("dev", dict(count=quick))], thorough=[("dev", dict(count=thorough, secs=420)), ("release", dict(count=thorough * 4, secs=420))],
                needs=dict(needs), **more)


def cases(rule, quick, thorough, needs, **more):
    return dict(rule=rule, quick=[("dev", dict(count=quick))], thorough=[("dev", dict(count=thorough, secs=300)), ("release", dict(count=thorough * 4, secs=300))],
                needs=dict(needs), **more)


CONF = {
    "C01": engine(20000, 400000, {"snapshots": 50000, "frames": 20000, "nodes_removed": 50000}),
    "C02": engine(20000, 400000, {"names_kept": 20000, "names_made_unique": 5000}),
    "C03": engine(20000, 400000, {"pointers_alive": 20000, "pointers_null": 5000, "type_questions": 5000}),
    "C04": engine(20000, 400000, {"paths_resolved": 50000}),
    "C05": engine(20000, 400000, {"snapshots": 50000}),
    "C06": engine(18000, 400000, {"frames": 30000, "modes_decided": 50000, "frame_times_checked": 20000, "elapsed_times_of_frames": 3000}),
    "C07": engine(18000, 400000, {"frames": 30000, "modes_decided": 50000}),
    "C08": engine(20000, 400000, {"hooks_ready": 50000}),
    "C09": engine(20000, 400000, {"hooks_terminal": 20000, "orderly_terminations": 500}),
    "C10": engine(20000, 400000, {"frames": 5000, "terminations_begun": 1000, "orderly_terminations": 200, "states_of_frames": 3000}),
    "C11": engine(20000, 400000, {"tokens_made": 50000, "tokens_dropped": 50000, "frames_run_by_hooks": 1000, "running_hooks_checked": 5000, "hook_panics_caught": 200, "second_trees_checked": 2000}),
    "C18": engine(20000, 400000, {"branches_saved": 5000}),
    "C21": engine(20000, 400000, {"singletons_registered": 5000, "singletons_refused": 1000}),
    "C22": engine(20000, 400000, {"messages_let_through": 10000, "messages_held_back": 5000}),
    "C25": cases("a case is one tree whose results and options of random contents go through every combinator next to the standard library's; "
                 "distinct by the contents and closures' answers", 400000, 4000000, {"combinators_compared": 200000}),
    "C26": cases("a case is a random history of operations on the three kinds of fields next to plain values; distinct by the history", 400000, 10000000, {"field_operations": 500000, "copies": 50000, "reloads": 10000}),
    "C29": cases("a case is a random history of an identifier store next to a map; distinct by the history", 50000, 1000000, {"contents_compared": 500000, "copied": 50000, "taken": 100000}),
    "C12": dict(rule="a case is one history of a tree, or one case of another property's workload (exports, scenes, damage, signals, crash reports, casts, fields, "
                     "identifier stores), run under a memory monitor; distinct by the history",
                quick=[("dev", dict(count=4000)), ("asan", dict(count=5000, secs=60)), ("msan", dict(count=1000, secs=60))],
                thorough=[("asan", dict(count=200000, secs=600)), ("asan-o", dict(count=400000, secs=300)), ("msan", dict(count=50000, secs=600)),
                          ("release", dict(count=400000, secs=200)), ("miri", dict(modes=["tree", "scenes", "exports"], seeds=16))],
                needs={"watched_workloads": 1000, "snapshots": 5000, "frames": 1000, "nodes_removed": 1000, "values_restored": 150}),
    "C13": cases("a case is a random history of connections, disconnections and emissions, from outside and inside listeners; distinct by the history", 100000, 1000000,
                 {"connections": 300000, "emissions": 300000, "emissions_inside_listeners": 100000, "connections_changed_inside_listeners": 200000, "listener_calls": 2000000}),
    "C14": cases("a case is a tree whose nodes listen to signals of others and of themselves, and copies of its nodes and fields; distinct by the history", 150000, 2000000,
                 {"copies": 100000}),
    "C15": cases("a case is one node with fields of every supported type and random contents, saved and read again; distinct by its contents", 200000, 4000000,
                 {"values_restored": 40000, "values_refused": 80000, "fields_restored": 50000}),
    "C16": cases("a case is one random scene that goes through text and a file; distinct by the scene", 12000, 100000,
                 {"scenes_saved": 1500, "grown_scenes_saved": 1500, "scenes_loaded": 3000, "files_loaded": 800, "scenes_instanced": 400, "nodes_compared": 100000}),
    "C17": cases("a case is one document, damaged with a known verdict, mutated at random or made up; distinct by its text", 60000, 1000000,
                 {"documents_damaged": 3000, "documents_mutated": 1500, "documents_made_up": 750, "verdict_refused": 4000, "verdict_accepted": 600, "files_refused": 1000,
                  "loaded_scenes_used": 700, "deep_scenes": 8}),
    "C19": cases("a case is one random scene and its variations; distinct by the scene", 40000, 800000,
                 {"hashes_different": 10000, "hashes_equal": 20000, "shapes_known": 2000}),
    "C20": cases("a case is a random history on scenes and their clones; distinct by the history", 24000, 300000,
                 {"clones": 5000, "scenes_instanced": 4000, "loaded_cloned": 1000, "nodes_compared": 800000}),
    "C23": cases("a case is one tree that crashes with known nodes and messages, and its report; distinct by the report", 60000, 1000000,
                 {"reports_read": 5000, "issues_listed": 15000}),
    "C24": cases("a case is one tree on whose missing nodes, wrong types and null pointers every accessor is tried; distinct by the history", 100000, 2000000,
                 {"failed_accesses": 60000, "quiet_accesses": 400000, "chains": 15000}),
    "C27": cases("a case is one tree with nodes of every class, each cast to every type and trait; distinct by the tree", 100000, 2000000,
                 {"casts_made": 100000, "casts_refused": 250000, "conversions_made": 70000, "nodes_that_left": 10000, "types_tried": 1000000}),
    "C28": dict(rule="a case is one object of a randomly declared class, or one randomly written scene; distinct by the declaration",
                quick=[("macros", dict(count=1000, classes=130, scenes=100))],
                thorough=[("macros", dict(count=1000, classes=200, scenes=160, variant=v)) for v in range(1, 9)],
                needs={"classes": 50, "scenes": 40, "lives": 50, "nodes_compared": 350, "values_compared": 3500, "hooks_noted": 200, "attributes": 50, "seen_from_outside": 90, "names_hidden": 5}, build_is_verdict="macros"),
    "C30": cases("a case is one node with fields of every glam type and random contents, saved and read again; distinct by its contents", 200000, 4000000,
                 {"values_restored": 40000, "values_refused": 80000, "fields_restored": 50000}),
    "C32": dict(rule="a case is one node in no tree (new, copied, loaded, in a scene, or having left its tree inside one of its hooks) that is used at random next to a tree; distinct by the history",
                quick=[("dev", dict(count=60000)), ("asan", dict(count=6000, secs=60))],
                thorough=[("dev", dict(count=1000000, secs=200)), ("release", dict(count=4000000, secs=200)), ("asan", dict(count=400000, secs=300))],
                needs={"refusals": 100000, "strays_used_in_hooks": 5000, "strays_added": 9000, "strays_renamed": 9000}),
    "C33": dict(rule="a case is a history of several trees of four types, with nodes of types declared in two ways and collections of the user's own; distinct by the history",
                quick=[("dev", dict(count=16000)), ("asan", dict(count=3000, secs=60))],
                thorough=[("dev", dict(count=400000, secs=200)), ("release", dict(count=1600000, secs=200)), ("asan", dict(count=200000, secs=300))],
                needs={"hooks_at_home": 200000, "trees_walked": 60000, "plantings_of_several": 6000, "own_nodes_loaded": 4000, "grafts": 3500, "trees_dropped": 1300, "tokens_dropped_once": 60000}),
    "C34": dict(rule="a case is a history of scenes, texts and a tree whose nodes hold values that panic at a chosen call; distinct by the history",
                quick=[("dev", dict(count=20000)), ("asan", dict(count=3000, secs=60))],
                thorough=[("dev", dict(count=500000, secs=200)), ("release", dict(count=2000000, secs=200)), ("asan", dict(count=200000, secs=300))],
                needs={"panics_let_through": 20000, "arrivals_that_panicked": 1500, "branches_that_panicked": 2000, "copies_that_panicked": 5000, "saves_that_panicked": 5000,
                       "loads_that_panicked": 800, "frames_that_panicked": 3000, "scenes_intact": 150000, "trees_intact": 60000, "values_refused": 300}),
    "C31": dict(rule="a case is one deterministic workload (trees, scenes, exports, signals, reports) run in several threads at once, next to the same alone; distinct by the workload",
                quick=[("dev", dict(count=1200)), ("tsan", dict(count=64, secs=60))],
                thorough=[("dev", dict(count=40000, secs=400)), ("release", dict(count=40000, secs=300)), ("tsan", dict(count=4000, secs=900)),
                          ("miri", dict(modes=["threads"], seeds=24))],
                needs={"jobs_compared": 1000, "jobs_that_overlap": 2000, "storms": 60, "loads_under_way_at_once": 150, "scenes_loaded": 10000}),
}
