"""Hand-written parts of DESIGN.md."""

HEAD = '''# Solver-based checking of DeepGNN

## Method

`symx/` is a symbolic executor for Python built on z3.  A check (`checks/cNN.py`) contains
*harnesses*: functions that drive the public API of the real modules under
`/repo/src/python` and assert the property.  A harness is written once, against a
context object (`ctx.int(name, lo, hi)`, `ctx.assume`, `ctx.check`), and is executed in two modes:

* **symbolic**: inputs are z3 terms wrapped in proxy objects.  The real functions are
  imported from /repo's working tree on each run (nothing is cached or transcribed) and executed on the
  proxies.  Branches on symbolic conditions fork; the solver prunes infeasible sides.  At each
  assertion the solver is asked for `path condition and not property`; `unsat` on every
  path is the verdict "holds for all values within the bounds".
* **concrete (replay)**: the model of a `sat` query is turned into plain values and the same
  harness runs in a fresh process against the unmodified modules (no proxies, real
  numpy, struct and files).  Only a failure that shows there too becomes
  `VIOLATION property=<id> replay=<path>`; anything else is recorded in the evidence as inconclusive and is no alarm.

An exception, a deadlock, an endless loop (timer) or an operation without encoding on a path is also a
candidate and goes through the same replay.  In addition every harness replays some witnesses of passing paths on the
real code, which validates the encoding in the other direction.

What stands for the environment during symbolic runs:

* `symx/core.py`: terms, path exploration, queries.  `symx/runner.py`: parallel exploration, replay, evidence.
* `symx/npshim.py`: numpy on arrays of terms (dtypes with wrap-around and float rounding, strides, ctypes pointers).
* `symx/binio.py`: files, struct packing, ctypes scalars and buffers at byte level.  `symx/text.py`: bytes and strings of symbolic characters; numbers printed into text stay terms.
* `symx/sched.py`: threads, processes, pools, queues, locks, events, futures and clocks.  Which task runs next at each of
  their operations is a variable of the path, so schedules are explored like inputs, up to a
  bounded number of departures from the default order; waiting takes model time only.  The same stand-ins are used in replays so that a schedule can be repeated exactly.
* `checks/nativelib.py`: the native library.  Arguments are judged against the declarations in `src/cc/lib/py_graph.h`, answers are arbitrary values.
* `checks/proclib.py`: processes with their own environment and ids over a scratch directory; `checks/stublib.py`: names of torch and TensorFlow that modules need in order to be imported.

Every run writes `evidence/<id>.json`: functions executed, bounds, paths, queries, solver time,
paths without encoding, witnesses replayed and whether the exploration was exhausted.  A harness that
cannot finish within its time budget is reported as not exhausted; all quick harnesses finish.

The technique decides bounded statements only.  Larger inputs, more threads or more
departures from the default schedule than listed are not covered by any verdict here.
'''

NA = {
    "N01": "the algorithm skips candidates by logarithms of its draws; z3 has no theory of logarithms, so the probability of a subset is not expressible as a formula (membership, distinctness and completeness of the result are decided in C36 and C39 over a grid of draws)",
    "N03": "sessions, hooks and checkpoint managers of TensorFlow, which is not installed, save and restore the state; the repository only configures them (the PyTorch trainers, whose loop is in the repository, are decided in C46)",
}

NOTES = {
    "C01": ("`BinaryWriter.add` is executed on every record sequence within the bounds with symbolic ids, types, weights and feature values; the bytes written to each file are terms.", "An independent reader of the documented binary layout walks the index files and must find exactly the input records; comparison is byte by byte in the solver."),
    "C02": ("Temporal conversion through `BinaryWriter` and the JSON decoder's timed features, with creation and removal times symbolic or missing.", "Expected (created, removed) pairs are computed from the records by the rules of the statement; the timestamp file and timed feature blobs are parsed independently."),
    "C03": ("A complete conversion (`MultiWorkersConverter` with its dispatchers, writers and metadata output) over symbolic records and all spreads over partitions, with workers finishing in any order.", "Totals, per-type counts and weights are recomputed from the partition files that were written and compared with meta.json."),
    "C04": ("`Vose` and the alias writers with symbolic weights: the probability mass each table gives to each element is a term.", "mass(element) * total == weight(element) for all weights, with all thresholds within [0, 1] and no foreign element; tolerance 1e-4 for 32-bit thresholds."),
    "C05": ("`EdgeListDecoder.decode` on lines whose fields, defaults, feature kinds, sizes and escape placements are symbolic.", "The element is built first and rendered to a line by the documented format; decoding must give the element back."),
    "C06": ("`JsonDecoder.decode` on records built from symbolic fields.", "The list of expected tuples is derived from the record by the documented ordering and inheritance rules."),
    "C07": ("`TsvDecoder.decode` on lines built from symbolic fields with any set of missing columns.", "As C06, by the rules of the TSV format."),
    "C08": ("Both dispatchers with threads and processes; the partitioning function's answers and all schedules within the switch budget are symbolic.", "What each worker received is compared with the dispatch order filtered by partition; join must return and only after all outputs are written; deadlock is detected by the scheduler."),
    "C09": ("All workers of a multi-worker conversion for all numbers of files, workers and partitions.", "The union of read files and produced partitions must be an exact cover; each worker runs without knowledge of the others."),
    "C10": ("`merge` over symbolic worker metadata in every listing order.", "Sums and unions computed directly from the inputs."),
    "C11": ("`TextFileIterator` over files whose every byte is symbolic; block, thread, batch and queue parameters and schedules are explored.", "Lines are obtained by splitting the byte string at newlines in the harness; order, completeness and batch sizes are asserted."),
    "C12": ("`TextFileSplitIterator` for every division of a file into ranges that begin at line starts.", "The concatenation of the workers' lines equals the file's lines."),
    "C13": ("The reader with a fault at any read operation or an undecodable byte at any position.", "If the fault was hit, iteration must end with an error; otherwise it must deliver everything; waiting forever is a deadlock of the scheduler."),
    "C14": ("`RangeNodeSampler` for all workers and loaders with a symbolic range start and fill value.", "Multiset equality of all produced ids with the range, position of fill values, announced length."),
    "C15": ("File samplers for all workers and loaders over files with symbolic rows; shuffling is an arbitrary permutation.", "Multiset equality with the file's rows; fields of a row stay together; last batch by the drop/fill setting."),
    "C16": ("Text and CSV samplers and `get_files` for all workers, listing orders and shuffles.", "Multiset equality with the input rows, each with exactly one worker and loader."),
    "C17": ("Graph-driven samplers over a stand-in graph with symbolic counts and answers.", "Number of batches equals the announced length and the formula of the statement; contents equal what the graph answered."),
    "C18": ("`gen_skipgrams` on symbolic paths.", "The set of position pairs inside the window, enumerated independently."),
    "C19": ("`sub_graph` over a stand-in graph with arbitrary adjacency.", "Reachability within the hop count computed independently; edges compared as patterns in all three result forms."),
    "C20": ("`sample_fanout`, `sample_out_edges`, full-neighbour expansion and feature look-ups over arbitrary answers.", "Positions of children computed from parents and fan-outs."),
    "C21": ("Every query of `MemoryGraph` and `local.Client` against the native stand-in, with arguments, answers and unanswered elements symbolic, arrays contiguous, strided or transposed.", "The stand-in asserts what the engine receives (values, widths, sizes, null pointers) and the harness compares results row by row."),
    "C22": ("Histories of counting and drawing requests on up to two graphs.", "A sampler object remembers what it was created for; each request must be served by one created for the same types and strategy."),
    "C23": ("Opening local graphs and servers with symbolic partition lists and server counts.", "The union over servers is an exact cover and lists given to the engine equal the request."),
    "C24": ("Every query with every sequence of failing attempts, including more failures than attempts; pauses are recorded.", "Number of engine calls, error or result of the succeeding attempt only, pause limits."),
    "C25": ("Servers and clients as processes over a scratch directory with symbolic delays, holding times and schedules.", "Time-stamped log of starts, registrations and stops, compared with the rules of the statement."),
    "C26": ("`Generator` and `BoundedExecutor` under schedules, errors at any position and early stops.", "Delivered results against the source; error must reach the consumer; all threads end after join."),
    "C27": ("Rank arithmetic with symbolic job sizes and complete start-up of small jobs of every launcher kind as processes.", "Indices are distinct and complete, lists of addresses agree, each server listens where its index says."),
    "C28": ("Downloading from in-memory remote file systems for every requested partition list.", "The set of files opening needs, derived from the graph's files by partition number."),
    "C29": ("Datasets of all three flavours with symbolic options over recorded samplers, with prefetching schedules.", "Query results per batch in order; arguments of the sampler equal the caller's."),
    "C30": ("Parsers and option definitions on texts whose numbers are terms.", "Round trip of the values that were rendered."),
    "C31": ("The uploader with its processes and threads as scheduled tasks over a recording store.", "Multiset and order of stored chunks against the calls that were accepted."),
    "C32": ("`forest_fire` on all small directed graphs with arbitrary random outcomes.", "Sub-graph relation and size limits."),
    "C33": ("`Graph` is constructed from partition files whose ids, weights and layout are terms, through the IR of graph.cc, partition.cc and locator.cc, and queried.", "The list of edges per node as written into the files, in order of files."),
    "C34": ("As C33 on temporal graphs with symbolic creation, removal and query times.", "Edges filtered by created <= t < removed; the last created ones by sorting them."),
    "C35": ("As C33; every call of a random distribution gives a fresh unknown, so one run covers all seeds.", "Membership with own attributes for any draw; for proportions the measure of draws that lead to an edge is summed over an even grid of draws and compared with its weight's share."),
    "C36": ("As C35; without replacement the draws come from a grid as the algorithm takes logarithms.", "Membership, distinctness by edge, completeness, defaults in the rest; bounds of every access are checked by the executor's memory model."),
    "C37": ("As C33 with feature files of unknown bytes, in memory and on disk.", "The bytes put into the files; untouched parts of the buffers keep the caller's contents."),
    "C38": ("As C37 with versioned features.", "The version list in the harness, searched by its definition."),
    "C39": ("The sampler classes of the engine over alias tables written to the partition files by the harness, with ids, types, thresholds, weights and draws symbolic.", "Membership, distinctness and totals from the harness's list of elements; shares by summing, over an even grid of draws, the terms that say which element each outcome returns."),
    "C40": ("The harnesses of C33 and C34 with the graph behind py_graph.cc: either `Graph`, or `GRPCClient` talking to any number of `GRPCServer`s with `GraphEngineServiceImpl`, all executed from their IR. gRPC and the classes protobuf generates are stand-ins compiled from /repo's service.proto at each run; each reply is processed at any point until the client waits for it.", "As C33 and C34: the files as written by the harness, whatever the spread."),
    "C41": ("The harnesses of C35 and C36 on the deployments of C40.", "As C35 and C36; one edge on each of three servers for the merging of samples without replacement."),
    "C42": ("The harnesses of C39 on the deployments of C40, with `GraphSamplerServiceImpl`.", "As C39."),
    "C43": ("The harnesses of C37 and C38 on the deployments of C40.", "As C37 and C38: the contents of the files, the latest version over all servers."),
    "C44": ("`RandomWalk` of py_graph.cc on the deployments of C40, every draw symbolic; for proportions the draws come from an even grid.", "The harness's own edge list for each step; chances of all walks of two or three steps in rational numbers by the definition of node2vec."),
    "C45": ("`PPRSampleNeighbor` of py_graph.cc on the deployments of C40 with symbolic threshold.", "The exact PageRank vector, solved in rational numbers by elimination, and the bound known for the approximation by local pushes."),
    "C46": ("`Trainer`, `FP16Trainer` and `DDPTrainer` run with symbolic checkpoint intervals, limits and interruption points on a stand-in for torch; checkpoints are files in a scratch folder.", "A model is the list of batches applied to it: after any interruptions it must be the list of an uninterrupted run. Kept files are compared with the newest by number or time."),
    "C47": ("The builders of Cora, Citeseer, PPI and Reddit on raw files with symbolic endpoints, kinds, ratios and shuffles.", "The lines handed to the converter are decoded and compared with nodes and edges derived from the raw data by the rules of the statement."),
    "C48": ("All schedule functions of optimization.py with symbolic steps; the cosine is any function with the right values at multiples of pi.", "Closed formulas of the documented shapes in rational arithmetic, tolerance 1e-9."),
    "C49": ("metric.py on all small directed graphs; every draw of the clustering trials is symbolic.", "Components and distances by relaxation over all pairs; triangles counted from the drawn pairs."),
}

CORRECTED = [
    "N03: earlier versions said that no trainer can be encoded. The loop and the checkpoints of the PyTorch trainers are now decided in C46 with a stand-in for torch; N03 has been narrowed to TensorFlow.",
    "C46: a first version asked for at most the requested number of checkpoints even after an interruption between saving and removing; the next save restores the limit, so this is no violation.",
    "N01: earlier versions of this file and of MANIFEST.json said that no compiler or dependency of the native engine is available here, later ones that its IR is not encoded. The engine is now executed from its IR (C33-C39); N01 has been narrowed to what remains. N02 (a remote graph answers as a local one) was not applicable for want of gRPC; it is now decided with stand-ins for gRPC and protobuf (C40-C43).",
    "C41: a first harness asked for unsorted and repeated edge types, which servers do not sort; the Python client always sorts them, so this is no violation.",
    "C40: a node whose every file says type -1 (the converter never writes that) has type -1 in the process and the default on servers; excluded.",
    "C42: a server without any partition cannot create samplers; servers have at least one partition.",
    "Initialisers of global objects were not run before symbolic execution, which showed as unconfirmed counterexamples; they are now.",
    "C37: features of one node spread over several files and parallel edges of one type are outside (the engine takes the first found).",
    "C11, C12: blank lines may or may not be delivered; the statement now says so.",
    "C15: shuffling with several loaders draws one permutation per loader; only single loaders are claimed.",
    "C19: edge weights of dense results are not claimed (patterns only), `self_loop` adds to existing entries.",
    "C25: servers that were asked to stop before a client registered cannot know about it; the clause now only covers clients that registered before.",
    "C29: several prefetching workers may change the order.",
    "C31: a store that fails is outside; the uploader does not report the lost chunk.",
    "Intermittent errors of the checks themselves came from z3 calls that released the interpreter lock while other threads dropped terms; the library is now loaded so that calls keep the lock.",
    "C26 once counted a deadlock of the scheduler as the expected error; such verdicts can no longer be caught by harnesses.",
]

OUTSIDE_NOTES = [
    "TSV: the documented short example `i:1 2 3` names no element width; decoding it is refused and not claimed.",
    "Keys of cached samplers of more than a thousand types are abbreviated by numpy.",
    "`Vose` needs at least one positive weight.",
    "Weights returned by strategies that define none (uniform sampling) are unspecified.",
]
