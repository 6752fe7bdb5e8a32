"""What each check runs: harness, mode, number of seeded cases per tier, and what the evidence says about them."""


def R(h, mode, quick, thorough, **kw):
    d = {"h": h, "mode": mode, "quick": quick, "thorough": thorough}
    d.update(kw)
    return d


# files of more than 4 GiB on a sparse stream: the chunks handed in are up to 2.2 GB of real memory
HUGE = dict(cpu=300, shards=4, env={
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=98:hard_rss_limit_mb=7000:detect_stack_use_after_return=1:allocator_may_return_null=1:handle_abort=0"})


CHECKS = {
    "C01": {
        "runs": [R("write", "C01", 12000, 240000), R("write", "C01L", 24, 240, cpu=300), R("huge", "C01H", 16, 320, **HUGE)],
        "rule": "a case is a random writer history (add points / bytes / compressed, move pages) read back through every reader path; a few files are of 2 to 7 GB, on a sparse stream; "
                "distinct by the hash of the written file, non-trivial when it holds at least one node",
        "floors": {"nodes-added": 1000, "huge-files": 10},
    },
    "C02": {
        "runs": [R("write", "C02", 60000, 1200000), R("write", "C02L", 24, 240, cpu=300), R("huge", "C02H", 16, 320, **HUGE)],
        "rule": "a case is a random writer history whose file an independent parser checks against the LAS 1.4 / COPC 1.0 layout; distinct by "
                "the hash of the file, non-trivial when it holds at least one node",
        "floors": {"entries-parsed": 1000, "huge-files": 10},
    },
    "C04": {
        "runs": [R("write", "C04", 60000, 1200000)],
        "rule": "a case is a random configuration with random overrides, written, read back, and compared field by field through the reader and "
                "on the raw bytes; distinct by the hash of the file",
        "floors": {"override-set": 20},
    },
    "C19": {
        "runs": [R("write", "C19", 40000, 800000), R("huge", "C19H", 8, 80, **HUGE)],
        "rule": "a case is a random writer history with invalid operations mixed in; stream bytes, position and hierarchy are compared around "
                "each, and the file against the history without them; distinct by file and history length",
        "floors": {"rejections": 1000, "rejection-kind": 15},
    },
    "C03": {
        "runs": [R("read", "C03", 30000, 600000), R("read", "C03L", 20, 200, cpu=300)],
        "rule": "a case is a file made by an independent builder or by the library's own writer, with a known hierarchy, and a random sequence of "
                "lookups of present and absent keys, pages and subtrees compared with the known hierarchy; distinct by file hash",
        "floors": {"found": 10000, "absent": 10000, "page-queries": 10000, "page-nodes": 5},
    },
    "C05": {
        "runs": [R("laz", "C05", 24000, 480000), R("laz", "C05L", 24, 400, cpu=300), R("huge", "C05H", 16, 320, **HUGE)],
        "rule": "a case is a random LAZ writer history (points, bytes, compressed chunks of any size, rejected calls) read back through LazReader and "
                "as raw bytes, plus COPC files read as LAZ; distinct by file hash",
        "floors": {"chunks-written": 5000, "write-kind": 4, "copc-as-laz": 100, "huge-files": 10},
    },
    "C06": {
        "runs": [R("laz", "C06", 60000, 1200000), R("laz", "C06L", 24, 600, cpu=300)],
        "rule": "a case is a random set of points through every overload of Compressor and Decompressor, forwards and backwards, including partial and "
                "over-long decompression; distinct by compressed bytes",
        "floors": {"points": 10000, "format": 3, "extra-bytes": 20},
        "assumptions": ["the codec under the wrappers is the stand-in, so what is observed is the wrapping: item layout, counts, buffer sizes, streams"],
    },
    "C07": {
        "runs": [R("point", "C07", 60000, 1500000)],
        "rule": "a case is random points packed and unpacked, compared with an independent reading of the LAS 1.4 record tables, and coordinates quantised "
                "in long double; distinct by record bytes",
        "floors": {"records": 10000, "quantized": 10000, "range-refused": 1000, "format": 3, "coordinate-kind": 5},
    },
    "C08": {
        "runs": [R("point", "C08", 60000, 1500000)],
        "rule": "a case is a random sequence of attribute sets on one point, after each of which all attributes are compared with a model; distinct by the "
                "final record",
        "floors": {"sets": 100000, "refusals": 10000, "operation": 30},
    },
    "C09": {
        "runs": [R("point", "C09", 60000, 1500000)],
        "rule": "a case is points converted between formats, scales and extra bytes, copied, assigned and compared with a model; distinct by records",
        "floors": {"comparisons": 50000, "conversion": 9, "equality": 20},
    },
    "C10": {
        "runs": [R("point", "C10", 300000, 6000000), R("point", "C10L", 24, 800, cpu=300)],
        "rule": "a case is a random sequence of container operations on Points mirrored on a list of model points; distinct by the final packed bytes",
        "floors": {"operations": 100000, "refusals": 10000, "operation": 18},
    },
    "C11": {
        "runs": [R("geom", "C11", 150000, 5000000)],
        "rule": "a case is random keys of any depth to 31 and their relatives compared with 64-bit and big-integer arithmetic and with ordering and hashing; "
                "distinct by keys",
        "floors": {"ancestry": 100000, "children": 100000, "depth": 25},
    },
    "C12": {
        "runs": [R("geom", "C12", 600000, 12000000)],
        "rule": "a case is random boxes and node cubes compared with an independent geometry on exactly representable numbers; distinct by boxes",
        "floors": {"cubes": 50000, "relation": 4, "key-relation": 4},
    },
    "C13": {
        "runs": [R("read", "C13", 50000, 1000000), R("read", "C13L", 20, 200, cpu=300)],
        "unit": "queries",
        "rule": "a case is a file with known points and several boxes (on faces, inside, outside, degenerate, all); each answer is compared with a full scan; "
                "distinct by file hash",
        "floors": {"queries": 50000, "box-kind": 6, "points-classified": 50000, "answer-shape": 5},
    },
    "C14": {
        "runs": [R("read", "C14", 40000, 800000), R("read", "C14L", 20, 200, cpu=300)],
        "unit": "queries",
        "rule": "a case is a file with known depths and spacing and several resolutions, including exactly the spacing of a level; an evaluation is a "
                "query, distinct by spacing, depth and resolution",
        "floors": {"queries": 50000, "depth-answer": 8},
    },
    "C15": {
        "runs": [R("read", "C15", 100000, 2000000), R("read", "C15L", 20, 400, cpu=300)],
        "rule": "a case is a valid file or one with a single point, node or header bound displaced, and the brute-force answer; distinct by file hash",
        "floors": {"valid-files": 2000, "invalid-files": 2000, "verdict": 10},
    },
    "C16": {
        "runs": [R("geom", "C16", 600000, 12000000)],
        "rule": "a case is a pair of vectors (special values included) through every operator, compared componentwise; distinct by operands",
        "floors": {"operations": 100000},
    },
    "C17": {
        "runs": [R("geom", "C17", 400000, 8000000)],
        "rule": "a case is a header with random scale and offset, values through scaling and back, and a sequence of bounds updates; distinct by header",
        "floors": {"converted": 50000, "refused": 50000, "bounds-updates": 100000},
    },
    "C18": {
        "runs": [R("geom", "C18", 60000, 1500000)],
        "rule": "a case is a random sequence of extents operations mirrored on a plain array, with serialisation and copies; distinct by the final entries",
        "floors": {"operations": 100000, "refusals": 5000, "operation": 20, "derive": 15},
    },
    "C20": {
        "runs": [R("hostile", "C20", 60000, 1500000, cpu=20,
                   env={"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=98:hard_rss_limit_mb=3000:detect_stack_use_after_return=1:"
                                        "handle_abort=0:max_allocation_size_mb=256:allocator_may_return_null=1"})],
        "rule": "a case is a valid file with one to several structured or blind mutations, opened and asked every question the readers answer, with heap growth "
                "bounded by the file size and CPU time bounded; distinct by the hash of the mutated file",
        "floors": {"files-opened": 5000, "mutation": 60, "questions": 100000, "record-parses": 5000},
        "assumptions": ["termination is judged by 20 s of CPU time per case, memory by a bound in the file's size"],
    },
    "C21": {
        "runs": [R("res", "C21", 10000, 300000, cpu=120,
                   env={"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=98:hard_rss_limit_mb=3000:detect_stack_use_after_return=1:"
                                        "handle_abort=0:max_allocation_size_mb=256:allocator_may_return_null=1"})],
        "unit": "scenario-runs",
        "rule": "a case is a set of files and a list of life cycle scenarios (construct, use, copy, move, delete through a base, fail to construct), each run repeatedly "
                "while the heap in use and the open descriptors are counted, again with an allocation failing at a random point; distinct by the files",
        "floors": {"scenario-runs": 50000, "allocation-failures": 20000, "scenario": 13, "descriptors-seen": 1000},
    },
    "C22": {
        "runs": [R("thread", "C22", 3000, 120000, flavor="tsan", cpu=120), R("thread", "C22", 800, 40000, cpu=120)],
        "unit": "works",
        "rule": "a case is a fresh process in which 2 to 8 threads, paused at random instructions, do lists of self-checking works (the cases of 23 other checks) on objects "
                "of their own, then read shared const objects, then pass results to each other; TSan (and ASan) watch, and every work is repeated alone and "
                "must observe the same; distinct by the order in which works began and ended",
        "floors": {"works": 20000, "overlaps": 5000, "shared-overlaps": 5000, "shared-answers": 40000, "handed-over": 5000, "pauses": 5000, "work": 23,
                   "shared-work": 20, "overlap": 50, "shared-overlap": 50},
        "assumptions": ["libstdc++ is not instrumented; of it TSan sees what is inlined and what passes through intercepted functions"],
    },
    "C27": {
        "runs": [R("config", "C27", 20000, 500000)],
        "rule": "a case is a random sequence of constructions, copies, assignments, conversions and edits over all configuration classes, after each of which "
                "every live configuration is compared with its model; distinct by the sequence",
        "floors": {"comparisons": 100000, "step": 60, "refusals": 500},
    },
    "C23": {
        "runs": [R("fault", "C23", 4000, 120000)],
        "unit": "fault-runs", "level": "fault_enumeration",
        "rule": "a case is a random writer history, run once without a fault and then once per injected fault: every change of position, every flush, a stride over "
                "every write call past the reserved area (partial, once, for good, thrown), byte budgets, throwing streams, file size limits, /dev/full, paths that do "
                "not open; distinct by the fault-free file",
        "floors": {"faults-hit": 50000, "reported": 50000, "fault": 20, "reported-at": 7, "second-closes": 10000, "destructions": 50000, "unopenable": 300},
    },
    "C28": {
        "runs": [R("fault", "C28", 4000, 100000)],
        "unit": "images", "level": "fault_enumeration",
        "rule": "a case is a random writer history whose write log is replayed: the image after every write event, cuts within events (every byte of the final header "
                "pass in one case of eight), truncations of the finished file at and around every structure, and files left by a process that dies while replacing an older "
                "file, each given to both readers; distinct by the finished file",
        "floors": {"images": 200000, "images-opened": 5000, "truncations": 50000, "deaths": 200},
        "assumptions": ["bytes reach the medium in the order they were written"],
    },
    "C24": {
        "runs": [R("mp", "mp", 3200, 100000, flavor="py")],
        "rule": "a case is a COPC file and several calls of the parallel functions on it (real process pools in one case of eight, otherwise a pool whose completion order the "
                "case chooses), with every call of the given function logged by the worker itself; distinct by case",
        "floors": {"calls": 5000, "real-calls": 250, "nodes-processed": 10000, "callbacks": 10000, "failures": 1000, "failure": 18, "concatenated": 3000, "mapped": 1000,
                   "bounds-updated": 500, "nodes-written": 2000, "initialisations": 300, "duplicate-selections": 100, "foreign-results": 50, "partial-files": 200, "read": 5,
                   "transform": 7, "output": 2, "worker-processes": 2, "calls-with-defaults": 300},
        "assumptions": ["pybind11 is not installed here: the bindings are compiled against /verif/standin/pybind11, which has pybind11's interface and documented semantics",
                        "process pools use the fork start method, the default of the installed Python"],
    },
    "C25": {
        "runs": [R("bind", "bind", 8000, 200000, flavor="py")],
        "rule": "a case is a random sequence of attribute accesses, calls, operators, container operations, pickles, constructions, writer and reader histories or object "
                "lifetimes through the bindings, each step compared with the same step on a twin object through direct C++ access; distinct by final state",
        "floors": {"sets": 5000, "gets": 10000, "calls": 2000, "pickles": 500, "constructions": 5000, "queries": 3000, "files": 300, "container-operations": 3000,
                   "method": 40, "attribute": 120, "pickled": 5, "query": 15, "memory": 5},
        "assumptions": ["pybind11 is not installed here: the bindings are compiled against /verif/standin/pybind11, which has pybind11's interface and documented semantics"],
    },
    "C26": {
        "runs": [R("read", "C26", 24000, 480000)],
        "rule": "a case is a random sequence of valid and failing queries on one reader; each answer is compared with that of a fresh reader; distinct by file "
                "and sequence",
        "floors": {"queries": 50000, "failed-queries": 5000, "query-kind": 25, "laz-reread": 100, "faulted-queries": 5000},
    },
    "C29": {
        "runs": [R("read", "C29", 60000, 1200000), R("read", "C29L", 20, 400, cpu=300), R("huge", "C29H", 2000, 100000, cpu=300)],
        "rule": "a case is a file laid out by an independent builder within what LAS 1.4 and COPC 1.0 allow; everything read is compared with what was laid "
                "out; distinct by file hash",
        "floors": {"refused": 10, "nodes-read": 20000, "layout": 40, "huge-files": 1000},
    },
    "C30": {
        "runs": [R("copy", "C30", 40000, 1200000)],
        "rule": "a case is a file rewritten over 1-4 generations through a reader and a writer made from the reader's configuration, between COPC and LAZ, "
                "with changes of format, scale, offset, WKT and statistics, nodes moved as compressed chunks, bytes or points and selected by level, box or at "
                "random; every generation is compared with what the one before held; distinct by file hash",
        "floors": {"points": 100000, "rewritten": 20000, "conversion": 30, "change": 5, "selection": 4, "transfer": 4, "refused": 100, "read-again": 10000},
    },
    "C31": {
        "runs": [R("record", "C31", 30000, 3000000)],
        "rule": "a case is a handful of entries, nodes and pages, or of record headers, extents, information and extra-bytes records, or of objects printed while "
                "their fields change one by one, with values at the ends of their ranges; distinct by hash of the values",
        "floors": {"entries": 10000, "records": 5000, "changes-shown": 300000, "shown": 50, "extra-bytes": 5, "entry": 3},
    },
}

TECHNIQUE = {
    "*": "runtime monitoring: model-based oracle over seeded executions of the real code under ASan and UBSan",
    "C02": "runtime monitoring: independent offline checker over the recorded output bytes, under ASan and UBSan",
    "C19": "runtime monitoring: online checker of stream and hierarchy around each rejected call, under ASan and UBSan",
    "C23": "runtime monitoring: fault injection at stream events with an outcome oracle, under ASan and UBSan",
    "C28": "runtime monitoring: replay of recorded write logs up to each crash point, read back under ASan and UBSan",
    "C21": "runtime monitoring: heap and descriptor accounting over repeated life cycles with failing allocations, under ASan and UBSan",
    "C22": "runtime monitoring: ThreadSanitizer and a concurrent-versus-alone differential oracle over stressed threads",
    "C24": "runtime monitoring: exactly-once checker over traces the workers log, with chosen completion orders and injected failures, beside direct reads as the oracle",
    "C25": "runtime monitoring: differential oracle (each Python call beside the C++ call on a twin object) over seeded executions of the real bindings under ASan and UBSan",
    "C26": "runtime monitoring: differential oracle over recorded query histories, under ASan and UBSan",
}
NOTE = {
    "*": "Holds on every execution observed; says nothing about inputs the generators do not reach. Trusts the oracle in /verif/harness, the laz-perf "
         "stand-in in /verif/standin (laz-perf itself is not installed), and the sanitizers.",
}
NOT_APPLICABLE = {}
