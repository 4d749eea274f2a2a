"""What MANIFEST.json says about each check."""

PENDING = {}

TREE = "online monitors over a model tree, driven by random histories of operations from outside and inside hooks"
TREE_NOTE = "The real library ran {what} in thousands of generated histories and every observation agreed with the model. Nothing is claimed about histories the generator cannot make. Trusts the model and rustc."

TECHNIQUE = {
    "C01": TREE + " (structure snapshots)",
    "C02": TREE + " (names)",
    "C03": TREE + " (identifiers and held pointers)",
    "C04": TREE + " (paths)",
    "C05": TREE + " (scene instances)",
    "C06": TREE + " (order and times of process calls)",
    "C07": TREE + " (process modes and pausing)",
    "C08": TREE + " (ready and loaded calls)",
    "C09": TREE + " (terminal calls)",
    "C10": TREE + " (states and returned statuses)",
    "C11": TREE + " (counted tokens in every node)",
    "C12": "AddressSanitizer, MemorySanitizer and Miri on the workloads of all other properties, with canaries in every node",
    "C13": "online monitor over random listener histories, with re-entrant listeners",
    "C14": "monitor of which listeners are reached after copying, cloning, saving and loading",
    "C15": "round-trip monitor over generated values of every supported type, and refusal monitor",
    "C16": "round-trip monitor over generated scenes, through text and files",
    "C17": "robustness monitor over generated damage with known verdicts and over random mutations",
    "C18": TREE + " (saved branches)",
    "C19": "comparison of the structural hashes of generated pairs of scenes with a reference equality",
    "C20": "monitor over random histories on scenes and their clones",
    "C21": TREE + " (singletons)",
    "C22": TREE + " (log)",
    "C23": "monitor that parses the crash report and compares it with the tree and the posted messages",
    "C24": "monitor of the log, the tree's state and unwinding around failing accesses",
    "C25": "side-by-side monitor against the standard library's Result and Option",
    "C26": "side-by-side monitor against plain values, for histories of field operations",
    "C27": "monitor of casts of every node class to every type and trait, against the declarations",
    "C28": "monitors inside nodes and scenes declared by the macros, against the written declarations",
    "C29": "side-by-side monitor against a map, for histories of store operations",
    "C30": "round-trip monitor over generated values of every glam type, and refusal monitor",
    "C32": "monitor of unwinding and of the whole tree around every call on nodes in no tree; AddressSanitizer",
    "C33": "monitor inside hooks of the user's own trees and nodes: types, addresses, own state, arrivals and drop counts against a model; AddressSanitizer",
    "C34": "fault injection: user code panics at a chosen call during every operation; monitor of all scenes, the tree and drop counts after each; AddressSanitizer",
    "C31": "deterministic workloads in parallel threads against the same ones alone; ThreadSanitizer and Miri data race detection",
}

WHAT = {
    "C01": "the structure of the tree", "C02": "naming", "C03": "identifiers and pointers", "C04": "paths", "C05": "instancing of scenes", "C06": "frames",
    "C07": "pausing and modes", "C08": "ready and loaded hooks", "C09": "terminal hooks", "C10": "termination", "C11": "drops of nodes", "C18": "saved branches",
    "C21": "singletons", "C22": "the log",
}
GENERAL = "The real library ran on thousands of generated cases and every observation agreed with the oracle. Nothing is claimed about inputs the generator cannot make. Trusts the oracle and rustc."
NOTE = {p: (TREE_NOTE.replace("{what}", WHAT[p]) if p in WHAT else GENERAL) for p in TECHNIQUE}
NOTE["C12"] = ("No monitored execution accessed freed, uninitialised or out-of-bounds memory: AddressSanitizer and MemorySanitizer watch the generated histories of all "
               "properties, Miri (validity as well; no aliasing model) small ones in the thorough tier.")
NOTE["C31"] = ("Results in parallel equal those alone in all generated histories; ThreadSanitizer (both tiers) and Miri (thorough, several schedules) saw no data race. "
               "Other schedules are not covered.")
