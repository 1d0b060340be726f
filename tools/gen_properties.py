"""Source of /verif/properties.jsonl (kept as code so that long texts stay reviewable)."""
import json, os

P = "src/python/deepgnn/graph_engine/"
OUT = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=None, hook=None):
    a = {
        "files": [P + f if not f.startswith("/") else f[1:] for f in files],
        "mechanism": [{"name": n, "where": (P + w if not w.startswith("/") else w[1:])} for n, w in mech],
        "observe_at": list(observe),
        "hook_needed": hook,
    }
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": P + w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    OUT.append({"id": id, "title": title, "statement": statement,
                "quantifier": {"over": list(over), "text": text},
                "why_tests_cant": why, "anchors": a})


# ---------------------------------------------------------------- conversion
prop("C01", "Binary graph files hold exactly the records that were converted",
     "For any sequence of node and edge records written to a partition, reading the partition's binary files by their documented layout gives back every node (id, type) in order, and under each node exactly its outgoing edges (destination, type, weight) in order, nothing more and nothing less. Every feature of every node and edge comes back byte for byte at its own feature index, skipped features come back empty, and an edge whose source node was not written just before it hangs under a placeholder node entry for that source.",
     ["inputs", "histories"], "every sequence of node/edge records up to the bounds: ids, destinations, types, weights, which features are present, their kinds (dense, sparse, text, empty) and sizes, and any order of nodes, placeholder sources and edges",
     "Unit tests write a handful of fixed small graphs and compare literal bytes; the statement quantifies over all record sequences, feature gaps and placeholder positions, where off-by-one index bugs hide.",
     ["snark/converter/writers.py", "snark/meta.py"],
     [("partition writer", "snark/converter/writers.py:BinaryWriter"), ("offset indexes", "snark/converter/writers.py:NodeFeatureWriter,EdgeWriter,EdgeFeatureWriter"), ("feature serialisation", "snark/converter/writers.py:convert_features")],
     ["the files node_*.map, node_*.index, node_features_*, neighbors_*.index, edge_*.index, edge_features_* of a partition"],
     [("nfd_pos/efd_pos/efi_pos", "running byte positions the indexes record", "snark/converter/writers.py")])
prop("C02", "Temporal graphs keep every edge lifetime and timed feature value",
     "In a temporal conversion the partition's timestamp file starts with the watermark and then holds, for the i-th edge of the partition, exactly that edge's creation and removal times; a missing time is inherited from the source node of the same record and otherwise means 'since 0' and 'not removed' (-1). A feature given as timed values is stored with its creation times in increasing order and for each of them exactly the bytes of its own value. A time of 0 is a time like any other.",
     ["inputs", "histories"], "all creation/removal times (including 0 and -1 and missing ones), any number of edges per node and nodes per partition within bounds, any order of timed values in the input",
     "Tests cover two or three fixed temporal graphs; inheritance, zero times and unsorted timed values multiply into combinations never executed.",
     ["snark/converter/writers.py", "snark/decoders.py"],
     [("edge timestamp file", "snark/converter/writers.py:EdgeWriter"), ("timestamp defaults", "snark/converter/writers.py:BinaryWriter.add"), ("timed feature layout", "snark/decoders.py:JsonDecoder._serialize_temporal_features")],
     ["edge_*.timestamp, feature data files"])
prop("C03", "Graph metadata equals the contents of the partition files",
     "After a conversion, the metadata file lists exactly the partitions that exist on disk, and its node and edge totals, its per-type counts, its per-partition per-type weights, its type counts and its feature counts equal what is obtained by adding up the records of those partitions. This holds whatever the number of partitions, however records are spread over them (also partitions that saw no record of a type or no record at all) and in whatever order the workers finish.",
     ["inputs", "schedules", "configurations"], "all record sets, partition assignments, partition offsets and worker completion orders within bounds",
     "Tests convert one small file with one or two workers; totals over partitions of different shape and every completion order are not enumerated.",
     ["snark/convert.py", "snark/dispatcher.py", "snark/converter/process.py", "snark/converter/writers.py"],
     [("worker result aggregation", "snark/dispatcher.py:PipeDispatcher.join,QueueDispatcher.join"), ("metadata output", "snark/convert.py:output"), ("per worker counters", "snark/converter/process.py:converter_process")],
     ["meta.json", "partition files on disk"])
prop("C04", "Alias tables reproduce the exact weight distribution",
     "For any set of nodes or edges of one type with non-negative weights that are not all zero, the alias table stored for them describes a distribution in which each element is drawn with probability equal to its weight divided by the total weight. Each table has one entry per element, every threshold lies between 0 and 1, and elements of other types or partitions never appear in it.",
     ["inputs"], "all weights within bounds (including zeros, equal and very unequal weights), all ids, any number of elements per type up to the bound",
     "Tests draw samples from two or three fixed tables and compare frequencies statistically; a mass misassignment for a particular weight ordering is invisible to them.",
     ["snark/alias.py", "snark/converter/writers.py"],
     [("table construction", "snark/alias.py:Vose"), ("table files", "snark/converter/writers.py:NodeAliasWriter,EdgeAliasWriter")],
     ["node_*_*.alias, edge_*_*.alias files", "in-memory table of the sampler"])
prop("C05", "Edge-list lines decode to exactly the node or edge they describe",
     "For every line in the documented edge-list format and every combination of decoder defaults, decoding yields exactly one element with the ids, type, weight, timestamps and feature vectors that the line (or, where a default is configured, the default) states, each value in the declared element type. Dense, sparse, skipped and text features come back in their declared order, and a text feature containing escaped delimiters comes back unescaped and complete (a doubled escape character stays as written).",
     ["inputs", "configurations"], "all field values, all combinations of configured defaults, feature kinds, lengths and coordinate dimensions, delimiters and escape placements up to the bounds",
     "Tests use about twenty hand-written lines; the combination of defaults, temporal columns, skipped and mixed features and escapes is far larger.",
     ["snark/decoders.py"],
     [("line parser", "snark/decoders.py:EdgeListDecoder.decode,_get_feature")],
     ["tuples yielded by decode"])
prop("C06", "JSON records decode to exactly the node and edges they describe",
     "For every JSON node record, decoding yields the node first and then each of its edges exactly once, ordered by edge type and, within a type, by lifetime and destination, each with its own ids, weight, times and features at their stated indexes in the declared element type. Absent features are empty, absent times are inherited from the node, and no feature or time leaks from one element to another.",
     ["inputs"], "all ids, types, weights, times, feature indexes and values, any number and input order of edges up to the bound",
     "Tests check a few literal documents; ordering ties, feature gaps, mixed kinds and missing fields are combinatorial.",
     ["snark/decoders.py"],
     [("record parser", "snark/decoders.py:JsonDecoder.decode"), ("feature ordering", "snark/decoders.py:JsonDecoder._pull_features")],
     ["tuples yielded by decode"])
prop("C07", "TSV lines decode to exactly the node and edges they describe",
     "For every line of the documented tab-separated format, decoding yields the node first and then each listed neighbour exactly once, ordered by edge type and then destination, each with its own ids, type, weight and features in the declared element types; missing trailing columns and empty features read as empty or zero.",
     ["inputs"], "all ids, types, weights, feature types and values, any number and order of neighbours, any set of missing columns up to the bound",
     "Existing tests decode a handful of literal lines.",
     ["snark/decoders.py"],
     [("line parser", "snark/decoders.py:TsvDecoder.decode"), ("feature parser", "snark/decoders.py:TsvDecoder._parse_feature_string")],
     ["tuples yielded by decode"])
prop("C08", "Every input record reaches exactly one partition, in order",
     "Whatever the dispatcher kind, number of partitions, user partitioning function and interleaving of producer and workers, every dispatched record is handled by exactly one partition worker - the one the partitioning function names, or the next in turn - each worker sees its records in dispatch order, and waiting for completion returns only after every worker has handled all its records and written its output. The conversion always terminates.",
     ["schedules", "inputs", "configurations"], "all interleavings of producer and partition workers at queue operations, all partition assignments, numbers of records and partitions up to the bounds",
     "Tests run one lucky schedule with records spread over all partitions; blocking puts, early completion and unused partitions are schedule dependent.",
     ["snark/dispatcher.py", "snark/converter/process.py"],
     [("record routing", "snark/dispatcher.py:dispatch"), ("completion protocol", "snark/dispatcher.py:join"), ("worker loop", "snark/converter/process.py:converter_process")],
     ["records received by each worker", "partition outputs"])
prop("C09", "Multi-worker conversion loses no file and gives each partition one owner",
     "For every number of input files, conversion workers and output partitions (with at least as many files and partitions as workers), the workers together read every input file exactly once, the partition numbers they produce are disjoint and together are exactly 0 up to the requested number of partitions minus one, and the number of partitions a worker produces never exceeds the total. This holds for every worker index independently, with no communication between workers.",
     ["configurations", "inputs"], "all numbers of workers, partitions and input files up to the bounds and every worker index",
     "Tests use one or two evenly dividing configurations; uneven divisions are where workers silently get nothing.",
     ["snark/convert.py", "_adl_reader.py"],
     [("partition split", "snark/convert.py:MultiWorkersConverter.convert"), ("input file split", "_adl_reader.py:TextFileIterator")],
     ["partition numbers passed to the dispatcher", "lines read by each worker", "metadata files"])
prop("C10", "Merging worker metadata preserves every partition and every total",
     "Merging the metadata files of any set of conversion workers yields one metadata file in which every partition keeps its own number and its own per-type weights, totals and per-type counts are the sums over the workers, and type and feature counts cover all of them - independently of the number of workers, of how many partitions each produced and of the order in which the files are listed.",
     ["inputs", "configurations", "schedules"], "all weights, counts, numbers of workers and of partitions per worker within bounds; every listing order",
     "Existing tests merge single-partition files in one order.",
     ["snark/meta_merger.py", "snark/convert.py"],
     [("merge", "snark/meta_merger.py:merge"), ("per worker parse", "snark/meta_merger.py:Meta")],
     ["merged meta.json"])
# ---------------------------------------------------------------- readers
prop("C11", "The text reader delivers every line of the input exactly once per epoch",
     "For any file contents, block size, batch size, number of reader threads, thread timing, buffer capacity and number of epochs, iterating the reader yields the lines of the given files, each exactly once per epoch and in file order when shuffling is off, in batches of the requested size (only the very last batch of the iteration may be smaller, or is dropped when so requested). Lines are separated only by newline characters (one carriage return before the newline is removed, empty lines may be left out), lines straddling block boundaries are delivered whole, and resetting or re-iterating starts again from the first line.",
     ["inputs", "schedules", "configurations"], "all file contents up to the byte bound, all block, batch and thread parameters and thread completion orders up to the bounds",
     "Tests read two fixed files under a few parameter settings; boundary alignment between lines, blocks, sub-blocks and batches is unbounded and timing dependent.",
     ["_adl_reader.py"],
     [("block assembly", "_adl_reader.py:TextFileIterator"), ("sub-block readers", "_adl_reader.py:TextFileIterator._fetch_sub_block_worker"), ("buffer", "_adl_reader.py:TextFileIterator._fetch_next_block_worker")],
     ["batches returned by next()"])
prop("C12", "Split text readers cover the input without overlap or loss",
     "When a set of files is divided among several workers by byte ranges, the lines delivered by all workers together are exactly the lines of the files, each delivered by exactly one worker, for any file sizes, line lengths, number of workers and block size. Every worker begins at the start of a line, and iterating a worker again delivers its lines again.",
     ["inputs", "configurations"], "all file contents up to the byte bound, all splits among workers, all block sizes within bounds",
     "Tests use one file and two split points; which worker owns a line at or across a split point depends on exact byte positions.",
     ["_adl_reader.py"],
     [("split positions", "_adl_reader.py:TextFileSplitIterator")],
     ["union of batches of all workers"])
prop("C13", "A failed read surfaces as an error, never as missing lines",
     "If reading or decoding any part of the input fails at any point, the consumer gets an error instead of a normally ending iteration that silently lacks lines; without a failure no error is raised and iteration always ends.",
     ["fault_sequences", "schedules", "inputs"], "a failure at any single read or decode of any block or sub-block, under any thread completion order within bounds",
     "No test injects read failures; each of the read sites runs on a pool thread whose exceptions are easily lost.",
     ["_adl_reader.py"],
     [("pool workers", "_adl_reader.py:TextFileIterator._fetch_next_block_worker,_fetch_sub_block_worker")],
     ["next() of the reader"])
# ---------------------------------------------------------------- samplers
prop("C14", "Id-range samplers partition the range over workers and loaders",
     "For any id range [first, last), batch size, number of workers and number of data-parallel loaders, the batches of all workers and loaders together contain every id of the range exactly once, in fixed-size batches; only positions after the last id are filled, with the requested fill value. The announced number of batches equals the number produced by the first loader (a later loader produces at most one fewer), and iterating again produces the same batches.",
     ["inputs", "configurations"], "all ranges, batch sizes, worker counts/indexes and data-parallel counts/indexes within bounds; all fill values",
     "Tests iterate two fixed ranges with one worker; ranges not divisible by batch times workers times loaders are not covered.",
     ["samplers.py"],
     [("range sampler", "samplers.py:RangeNodeSampler,_RangeNodeIterator")],
     ["batches produced by iteration", "len()"])
prop("C15", "File samplers give each worker its share of every epoch and nothing else",
     "When a list of samples read from files is split among workers and data-parallel loaders, the samples produced by all of them together over an epoch are exactly the file's samples, each once, whatever the number of samples, batch size and workers; each sample keeps its own fields and features together. Only the last batch of the whole iteration may be short: it is dropped or filled up as requested. Shuffling (with a single loader) only changes the order, and the announced length of a single loader equals the number of batches it produces.",
     ["inputs", "configurations", "histories"], "all sample values, counts, batch sizes, workers, loaders, epochs and drop/fill settings within bounds, shuffling as an arbitrary permutation",
     "Tests read one or two small files with one worker; remainders across batch, worker and epoch boundaries are not covered.",
     ["samplers.py", "_base.py"],
     [("file readers", "samplers.py:FileNodeSampler,FileEdgeSampler,FileTupleSampler"), ("slicing", "samplers.py:_NumpyIterator and the list based iterators")],
     ["batches produced by iteration", "len()"])
prop("C16", "Text and CSV samplers give each worker its own share of the input",
     "For samplers that stream text files, every input row is delivered to exactly one worker (and exactly one loader within it) per epoch, unchanged and whole, in batches of at most the requested size (the text sampler fills its last batch up with empty strings), for any number of files, rows, workers and batch sizes. Splitting a directory of files among workers assigns each file to exactly one worker, the same way on every worker.",
     ["inputs", "configurations"], "all file sets and row counts, worker counts and indexes, batch sizes within bounds",
     "Tests check single-worker reading of one file; the split is a joint property of all workers.",
     ["samplers.py", "_adl_reader.py"],
     [("file split", "samplers.py:get_files"), ("streaming samplers", "samplers.py:CSVNodeSampler,TextFileSampler")],
     ["rows delivered per worker"])
prop("C17", "Graph-driven samplers deliver the announced number of correct batches",
     "Samplers that draw from the graph yield exactly the announced number of batches per epoch, each with the requested number of elements of the requested types obtained from the graph, and the requested share of the data is computed from the graph's counts for exactly those types, for every sampling strategy, worker count and loader count. Iterating again yields a full epoch again.",
     ["inputs", "configurations", "histories"], "all per-type counts, requested types, sample ratios, batch sizes, workers and loaders, any values returned by the graph",
     "Tests use a stub graph with one count and one batch size.",
     ["samplers.py"],
     [("graph samplers", "samplers.py:GENodeSampler,GEEdgeSampler")],
     ["calls made to the graph", "batches produced"])
# ---------------------------------------------------------------- graph ops
prop("C18", "Skip-gram pairs are exactly the pairs inside the requested window",
     "For any batch of equally long random-walk paths and any window, the generated pairs are exactly the pairs (centre, context) whose context lies at most the requested number of steps to the left or to the right of the centre in the same path, each position pair once and never the centre with itself; both directions use their own window size.",
     ["inputs"], "all path values, path lengths, batch sizes and window sizes within bounds",
     "Tests check one path with symmetric windows.",
     ["graph_ops.py"],
     [("pair generation", "graph_ops.py:gen_skipgrams")],
     ["returned pairs"])
prop("C19", "Sub-graph extraction returns the complete neighbourhood, nothing else",
     "Extracting a sub-graph around source nodes returns every node reachable within the requested number of hops (through the requested edge types) exactly once, the edges returned connect exactly those listed nodes that are joined in the graph, with indexes that refer to the returned node list, and the positions reported for the source nodes point at them. The dense, sparse and edge-list forms of the result describe the same edges (as a pattern of present and absent edges), and self loops and reverse edges appear exactly when asked for.",
     ["inputs", "configurations"], "all small graphs (any adjacency), source sets, hop counts, feature values and option combinations within bounds",
     "Tests use one fixed graph and default options.",
     ["graph_ops.py"],
     [("extraction", "graph_ops.py:sub_graph")],
     ["returned nodes, edges/adjacency, features, source positions"])
prop("C20", "Multi-hop sampling keeps every hop aligned with its parents",
     "Multi-hop neighbour sampling returns one array per hop whose length is the previous hop's length times that hop's fan-out, where each block of samples belongs to the parent at the same position; weights, types and features returned with a hop belong to the node at the same position. Out-edge sampling returns one triple per requested sample whose source is the node asked for and whose destination and type come from the same sampled neighbour.",
     ["inputs", "configurations"], "all node ids, hop counts, fan-outs, edge types, and every answer the graph may give within bounds",
     "Tests mock one graph with one answer.",
     ["multihop.py", "graph_ops.py"],
     [("hop expansion", "multihop.py:sample_fanout"), ("out edges", "multihop.py:sample_out_edges")],
     ["returned arrays"])
# ---------------------------------------------------------------- client
prop("C21", "Client queries pass arguments and return results faithfully",
     "Every query of the graph client hands the native engine exactly the ids, types, counts, times, defaults and sizes the caller passed, in the layout the engine declares, and returns exactly the values the engine wrote, reshaped so that row i belongs to the i-th requested element. Elements the engine leaves unanswered carry the caller's default values, optional outputs appear exactly when requested, results of variable size keep their per-element boundaries, and inputs are never modified.",
     ["inputs", "configurations"], "all ids, types, feature requests, defaults, options and timestamps within bounds, and every answer the engine may give",
     "Tests that touch this layer need the compiled engine and check a few fixed graphs; argument marshalling errors for unusual sizes, defaults or option combinations do not show.",
     ["snark/client.py", "snark/local.py"],
     [("query marshalling", "snark/client.py:MemoryGraph"), ("local facade", "snark/local.py:Client")],
     ["arguments received by the native library", "arrays returned to the caller"])
prop("C22", "Type-based counts and sampler choice follow the request exactly",
     "Counting nodes or edges by type returns the sum of the stored per-type counts over exactly the requested types. Drawing nodes or edges always uses a native sampler that was created for exactly the requested set of types and the requested strategy on this graph, however earlier requests in the same process were ordered, and every drawn element is returned with the type it was drawn with.",
     ["inputs", "histories", "configurations"], "all sequences of sampling and counting requests (types, strategies, sizes) within bounds, all per-type counts",
     "Sampler reuse across calls is a property of request histories; tests issue one request per client.",
     ["snark/client.py", "snark/local.py"],
     [("sampler cache", "snark/local.py:Client"), ("native samplers", "snark/client.py:NodeSampler,EdgeSampler"), ("counts", "snark/client.py:MemoryGraph.get_node_type_count,get_edge_type_count")],
     ["native sampler creation and sampling calls", "returned counts"])
prop("C23", "Exactly the requested partitions are loaded, each once",
     "Opening a graph loads exactly the partitions the caller asked for - partition 0 when nothing is specified - each from its own location and in its requested storage mode. When partitions are spread over several servers, each partition is loaded by exactly one server and every server derives the same assignment independently.",
     ["inputs", "configurations"], "all partition counts, requested partition lists, server counts and indexes, storage modes within bounds",
     "Tests load all partitions on a single server.",
     ["snark/local.py", "snark/server.py", "snark/client.py", "backends/snark/synchronized.py"],
     [("partition arguments", "snark/client.py:MemoryGraph"), ("server assignment", "snark/server.py:Server"), ("local partition list", "snark/local.py:Client")],
     ["partition lists given to the native library"])
prop("C24", "Native failures are retried as configured and never hidden",
     "When the native engine reports failure for a query, the caller gets an error rather than the content of unfilled buffers; a remote client first repeats the query, up to the configured number of attempts, waiting no longer than the configured maximum in between, and returns normally as soon as one attempt succeeds, with results of that attempt only.",
     ["fault_sequences", "configurations"], "every sequence of success/failure answers of the engine for every query, all retry settings within bounds",
     "Tests have no native engine to fail.",
     ["snark/client.py", "snark/distributed.py"],
     [("error callback and retry", "snark/client.py:_ErrCallback,_retryer")],
     ["exceptions seen by callers", "number of native calls"])
# ---------------------------------------------------------------- distributed runtime
prop("C25", "Clients start only after all servers serve, servers stop last",
     "In a synchronized deployment, for every order and timing of process start, a client connects only after every server has announced its address and uses each server's address at the position of its index, a server that is asked to stop starts stopping only after every client that registered before has finished or its configured waiting time has run out, and every process whose peers make progress eventually proceeds. A waiting limit that is exceeded is reported as an error.",
     ["schedules", "configurations"], "all timings of file appearance and polls, numbers of servers and clients, timeouts within bounds",
     "Tests launch one server and one client on one machine in one order.",
     ["backends/snark/synchronized.py", "snark/distributed.py"],
     [("file based barrier", "backends/snark/synchronized.py:SynchronizedClient,SynchronizedServer,_ServerProcess")],
     ["client creation, server shutdown"])
prop("C26", "Prefetching delivers every batch exactly once and always terminates",
     "Wrapping a batch source with prefetching delivers, for every interleaving of the producer and consumer and every buffer size, exactly the result of applying the transformation function to every batch of the source - each once, in source order when a single worker is used - and then ends; ending also happens for an empty source, for an early stop by the consumer and when reading past the end. An error raised while producing reaches the consumer.",
     ["schedules", "inputs", "fault_sequences"], "all interleavings of producer and consumer at queue operations, all source lengths and buffer sizes within bounds, an error at any position",
     "Tests run a few lucky schedules with long non-empty sources.",
     ["prefetch.py"],
     [("generator", "prefetch.py:Generator,BoundedExecutor")],
     ["items seen by the consumer"])
prop("C27", "Workers agree on their ranks, counts and server addresses",
     "From the same job description every worker derives a distinct index below the common number of workers, and the servers' addresses are listed in server order, whatever the order in which files or hosts are enumerated; a worker that connects to running servers sees all of their partitions. With one server per host, each host serves its own share of the partitions, and the caller's options are left as they were.",
     ["configurations", "schedules"], "all numbers of servers, workers and partitions, all enumeration orders within bounds",
     "Tests configure one host.",
     ["backends/snark/client.py", "backends/snark/synchronized.py", "backends/options.py"],
     [("rank computation", "backends/snark/client.py:_get_server_index_client_rank"), ("address reader", "backends/snark/client.py:_AddressFinder,_AddressReader")],
     ["ranks and address lists"])
prop("C28", "Downloading fetches every file the requested partitions need",
     "Downloading a graph for a set of partitions copies the metadata file and, for exactly those partitions, every file that opening them needs (node maps, indexes, features, neighbours, sampling tables, and timestamps of temporal graphs) to the destination under the same name, whatever the number of partitions, types and files present and wherever each source lives.",
     ["inputs", "configurations"], "all file sets of a graph within bounds, all requested partition lists, all storage settings",
     "Tests have no remote storage; whether a file kind is forgotten depends on graph contents.",
     ["snark/_downloader.py", "snark/meta.py"],
     [("download list", "snark/_downloader.py:download_graph_data"), ("file names", "snark/meta.py")],
     ["files in the destination"])
prop("C29", "Datasets feed each worker's sampler share through the query unchanged",
     "A dataset passes the caller's worker index and count, batch size, epochs and sampler options to its sampler exactly as given and yields, for each batch the sampler produces and in the same order, exactly the query result for that batch on the dataset's graph, with or without prefetching (several prefetching workers may change the order); a new iteration starts a new pass, and its length is the sampler's length. The torch and tensorflow datasets, including several torch loader processes, deliver the same items, each once.",
     ["inputs", "configurations", "schedules"], "all batches and query results, option combinations and iteration histories within bounds",
     "Tests use one sampler and iterate once.",
     ["graph_dataset.py", "prefetch.py", "/src/python/deepgnn/pytorch/common/dataset.py", "/src/python/deepgnn/tf/common/dataset.py"],
     [("dataset", "graph_dataset.py:DeepGNNDataset"), ("torch dataset", "/src/python/deepgnn/pytorch/common/dataset.py:TorchDeepGNNDataset"), ("tensorflow dataset", "/src/python/deepgnn/tf/common/dataset.py:create_tf_dataset")],
     ["items yielded by the dataset", "arguments of sampler construction"])
prop("C30", "Command-line values reach the program exactly as written",
     "For every list of values, rendering it in the documented command-line notation and parsing it back gives the same list, with the same grouping and element types, for integer and string lists, two-dimensional lists, booleans and feature vectors; malformed text is rejected rather than misread. Every option of the graph engine given on the command line arrives with its value in the options the backend is created with, and options that are not given have their documented defaults.",
     ["inputs", "configurations"], "all lists and separators, all subsets and values of the options within bounds",
     "Tests parse a few literals.",
     ["/src/python/deepgnn/arg_types.py", "utils.py", "backends/options.py", "/src/python/deepgnn/pytorch/common/utils.py"],
     [("parsers", "/src/python/deepgnn/arg_types.py"), ("graph engine arguments", "utils.py"), ("backend options", "backends/options.py:BackendOptions")],
     ["parsed values", "attributes of BackendOptions"])
prop("C31", "Uploading stores exactly the bytes that were written, each once",
     "For every sequence of writes, chunk and file size limits, numbers of upload processes and threads and every thread timing, after the writer is closed the stored files together contain exactly the written chunks, each once and whole, in order of writing within a file; no file is written twice, left open or longer than the limit. Closing always ends, and a closed writer refuses further lines.",
     ["inputs", "schedules"], "all write sequences and sizes (empty writes included), interleavings of caller, upload processes and threads within bounds",
     "Tests need network storage and are skipped.",
     ["adl_uploader.py"],
     [("caller side", "adl_uploader.py:AdlDataWriter"), ("upload threads", "adl_uploader.py:MultiThreadsAdlDataWriter")],
     ["bytes given to remote storage"])
prop("C32", "Graph samples are subgraphs of the requested size",
     "Sampling a directed graph by simulated burning returns, for every outcome of its random choices, a graph whose nodes and edges all exist in the input with their directions, and whose node count reaches the requested size and exceeds it by at most the one edge being added last.",
     ["inputs", "schedules"], "all small directed graphs, all random outcomes, all requested sizes within bounds",
     "Tests sample one graph with one seed.",
     ["snark/preprocess/sampler/forest_fire.py"],
     [("burning", "snark/preprocess/sampler/forest_fire.py:forest_fire")],
     ["returned graph"])
prop("C33", "The loaded graph answers structural queries with exactly what was stored",
     "A graph loaded by the engine from partition files answers for every node, whether it is stored in one file or spread over several and in whatever order: its stored type (the caller's default for unknown nodes), the number of its edges over the requested edge types, and the full list of those edges with neighbour ids, edge types and weights, each stored edge exactly once and nothing else, node by node in the order asked.",
     ["inputs", "configurations"], "all ids, weights, edge types, spreads over files and queries within bounds",
     "C++ tests load a few fixed graphs.",
     ["/src/cc/lib/graph/graph.cc", "/src/cc/lib/graph/partition.cc", "/src/cc/lib/graph/locator.cc"],
     [("queries", "/src/cc/lib/graph/graph.cc:Graph"), ("storage", "/src/cc/lib/graph/partition.cc:Partition")],
     ["node types, neighbour counts and lists returned by the engine"])
prop("C34", "Temporal queries see exactly the edges that exist at the requested time",
     "On a temporal graph, counting neighbours, listing them and asking for the last N created consider for each queried node exactly the edges created at or before that node's requested time and not removed at it; the last-N query returns the most recently created of these, at most N, padded with the caller's defaults, and every returned edge carries its own id, type, weight and creation time.",
     ["inputs", "histories"], "all creation, removal and query times, types and spreads over files within bounds",
     "Tests use a few fixed times.",
     ["/src/cc/lib/graph/graph.cc", "/src/cc/lib/graph/partition.cc"],
     [("visible edges", "/src/cc/lib/graph/partition.cc:Partition"), ("last created", "/src/cc/lib/graph/graph.cc:Graph::LastNCreated")],
     ["neighbours, counts and creation times returned by the engine"])
prop("C35", "Weighted neighbour sampling draws stored edges in proportion to their weight",
     "For every outcome of the random draws, weighted sampling returns for each queried node the requested number of edges of the requested types that exist at the requested time and have positive weight, each with its own neighbour id, type, weight and creation time, together with the total weight of the candidates, or the caller's defaults when there are none; over the draws, each candidate takes each place in proportion to its weight.",
     ["inputs", "schedules"], "all weights, types, times, spreads over files and outcomes of draws within bounds",
     "Tests fix seeds and compare one outcome.",
     ["/src/cc/lib/graph/graph.cc", "/src/cc/lib/graph/partition.cc"],
     [("sampling", "/src/cc/lib/graph/partition.cc:Partition::SampleNeighbor")],
     ["sampled neighbours, types, weights, creation times and totals"])
prop("C36", "Uniform neighbour sampling returns existing edges, without repetition when asked",
     "For every outcome of the random draws, uniform sampling returns for each queried node edges of the requested types that exist at the requested time with their own type and creation time, and the number of candidates; with replacement every place is filled and each candidate is equally likely in it; without replacement every stored edge is returned at most once, all of them when there are no more than requested, and places left over hold the caller's defaults. Nothing outside the caller's buffers is written.",
     ["inputs", "schedules"], "all types, times, spreads over files and outcomes of draws within bounds",
     "Tests fix seeds and compare one outcome.",
     ["/src/cc/lib/graph/graph.cc", "/src/cc/lib/graph/partition.cc", "/src/cc/lib/graph/reservoir.cc"],
     [("sampling", "/src/cc/lib/graph/partition.cc:Partition::UniformSampleNeighbor"), ("reservoir", "/src/cc/lib/graph/reservoir.cc")],
     ["sampled neighbours, types, creation times and totals"])
prop("C37", "The loaded graph returns the stored bytes of every feature",
     "For every queried node or edge and every requested feature, the engine returns exactly the stored bytes of dense features (cut to the requested size, the rest of the space left for the caller's zeros), the exact string and its length for string features, and all indices and values, with the row number of the query, for sparse features, whether storage is in memory or on disk; features, nodes and edges that are missing give nothing and never an error or a neighbour's data.",
     ["inputs", "configurations"], "all feature contents, sizes, positions in the files, storage kinds and queries within bounds",
     "Tests read a few fixed features.",
     ["/src/cc/lib/graph/graph.cc", "/src/cc/lib/graph/partition.cc", "/src/cc/lib/graph/storage.h"],
     [("features", "/src/cc/lib/graph/partition.cc:Partition::GetNodeFeature"), ("storage", "/src/cc/lib/graph/storage.h")],
     ["feature buffers returned by the engine"])
prop("C38", "Temporal features have the value of the latest version at the requested time",
     "For every queried node or edge with its own requested time, dense, string and sparse features that change with time are returned with exactly the contents of the version with the latest start not after that time, also when versions are spread over several files; before the first version, and for missing features, nothing is returned.",
     ["inputs", "histories"], "all version starts, query times and contents within bounds",
     "Tests use a few fixed times.",
     ["/src/cc/lib/graph/graph.cc", "/src/cc/lib/graph/partition.cc"],
     [("temporal features", "/src/cc/lib/graph/partition.cc:Partition::GetNodeFeature")],
     ["feature buffers returned by the engine"])
prop("C39", "Samplers draw stored elements of the requested types in the right shares",
     "For every outcome of the random draws, a sampler created for a set of node or edge types over any of a graph's partition files returns only elements stored there for those types, each with its own type, and reports their total weight (number for uniform samplers); weighted samplers give each element places in proportion to its weight, uniform ones in equal shares, and samplers without replacement return no element twice and every element when no more are stored than requested. With nothing to draw from, nothing is written, and never anything outside the caller's buffers.",
     ["inputs", "schedules", "configurations"], "all alias tables, type and partition weights, requested types and outcomes of draws within bounds",
     "Tests fix seeds and compare one outcome.",
     ["/src/cc/lib/graph/sampler.cc", "/src/cc/lib/graph/sampler.h"],
     [("samplers", "/src/cc/lib/graph/sampler.cc"), ("partition samplers", "/src/cc/lib/graph/sampler.h")],
     ["sampled ids and types, sampler weights"])
# ---------------------------------------------------------------- outside the technique
prop("C40", "A graph on servers has the same nodes and edges as in the process",
     "Queries for node types, neighbour counts, neighbour lists (with or without times) and last created neighbours made through the C interface used by Python give the same answers whether the partitions are loaded in the process or spread in any way over servers, each with one or several files: node types are the stored ones, lists contain exactly the edges of all servers with their types, weights and creation times, and missing entries have default values. The order in which replies arrive does not matter.",
     ["inputs", "schedules", "configurations"], "all graphs, spreads over servers and arrival orders within the bounds",
     "C++ tests query fixed graphs on one or two servers, with one file each and replies in the order they happen to arrive.",
     ["/src/cc/lib/distributed/client.cc", "/src/cc/lib/distributed/graph_engine.cc", "/src/cc/lib/py_graph.cc"],
     [("merging of replies", "/src/cc/lib/distributed/client.cc"), ("service", "/src/cc/lib/distributed/graph_engine.cc")], ["query results"])
prop("C41", "Neighbours sampled through servers are as likely as those in the process",
     "Weighted and uniform sampling of neighbours through the C interface used by Python returns, for any spread of a node's edges over servers and any arrival order of replies, only edges of the node with a requested type that exist at the requested time, with their own attributes, default values when there are none, and without replacement no edge twice and all edges when no more exist than requested. Each edge has the probability its weight (or an equal share) gives it among the edges of all servers together.",
     ["inputs", "schedules", "configurations"], "all graphs, spreads, draws and arrival orders within the bounds",
     "C++ tests sample fixed graphs with fixed seeds, so they see one outcome of one spread.",
     ["/src/cc/lib/distributed/client.cc", "/src/cc/lib/distributed/graph_engine.cc", "/src/cc/lib/graph/merger.h", "/src/cc/lib/graph/reservoir.cc"],
     [("merging of samples", "/src/cc/lib/graph/merger.h"), ("reservoirs", "/src/cc/lib/graph/reservoir.cc")], ["query results"])
prop("C42", "Samplers of nodes and edges on servers draw as one sampler would",
     "Samplers of nodes and edges created through the C interface used by Python over any spread of partitions over servers return stored elements of the requested types with their types, in proportion to their weights over all servers together; without replacement no element is returned twice, all are returned when no more exist than requested, and the rest of the output is left alone.",
     ["inputs", "schedules", "configurations"], "all tables, spreads, draws and arrival orders within the bounds",
     "C++ tests draw from fixed tables with fixed seeds.",
     ["/src/cc/lib/distributed/client.cc", "/src/cc/lib/distributed/graph_sampler.cc", "/src/cc/lib/py_graph.cc"],
     [("sampler client", "/src/cc/lib/distributed/client.cc"), ("sampler service", "/src/cc/lib/distributed/graph_sampler.cc")], ["sampled elements"])
prop("C43", "Features read through servers are those read in the process",
     "Dense, string and sparse features of nodes and edges read through the C interface used by Python are the stored ones, valid at the requested time (the latest over all servers for a node stored on several), in the requested order, zeros or nothing where there is none, for any spread of the files over servers and any arrival order of replies.",
     ["inputs", "schedules", "configurations"], "all features, spreads and arrival orders within the bounds",
     "C++ tests read fixed features from fixed servers; the order in which replies arrive is not controlled.",
     ["/src/cc/lib/distributed/client.cc", "/src/cc/lib/distributed/graph_engine.cc", "/src/cc/lib/graph/merger.h"],
     [("merging of features", "/src/cc/lib/graph/merger.h"), ("service", "/src/cc/lib/distributed/graph_engine.cc")], ["query results"])
prop("C44", "Random walks follow edges, with the proportions p and q ask for",
     "A random walk through the C interface used by Python begins at its node and at every step goes to a neighbour over an edge of a requested type existing at the requested time, or back to the node it came from; it has the default id from a node without neighbours on and only then. On undirected graphs steps are taken in proportion to the edge weight over p for returning, the weight for nodes next to the previous one, and the weight over q for others. The walk of a seed does not depend on the order in which servers reply.",
     ["inputs", "schedules", "configurations"], "all graphs, walks, draws and spreads over servers within the bounds",
     "C++ and Python tests walk fixed graphs with fixed seeds.",
     ["/src/cc/lib/py_graph.cc"],
     [("random walk", "/src/cc/lib/py_graph.cc")], ["walks"])
prop("C45", "PageRank scores stay within the threshold of the exact solution",
     "Personalised PageRank sampling through the C interface used by Python reports the starting node and other nodes at most once each, in ascending order of scores; no score is above the exact solution of the PageRank equations or below it by more than the threshold allows (eps times the degrees, weighted by their own PageRank), nodes left out are within that threshold, fewer requested results are the best of them, and places without a node have the default values. Each starting node sees the edges existing at its own time.",
     ["inputs", "schedules", "configurations"], "all graphs, thresholds, starting nodes, times and spreads over servers within the bounds",
     "Tests compare scores on two fixed graphs without timestamps.",
     ["/src/cc/lib/py_graph.cc"],
     [("personalised PageRank", "/src/cc/lib/py_graph.cc")], ["reported nodes and scores"])
prop("C46", "Training gives the model every batch once, also across restarts",
     "A training run of the PyTorch trainers, alone or distributed, applies every batch of every epoch to the model exactly once and in order, up to the limit of samples, however often it is interrupted and started again from the same folder: it continues with the parameters, epoch and step of the newest checkpoint. Checkpoints are saved by the first worker at the requested intervals, ordered by epoch and step (or by time when asked), and only the oldest are removed, never more than needed to keep the requested number and never another file. Evaluation during training sees all evaluation data and leaves training as it was; evaluation and inference on their own see every batch once.",
     ["inputs", "crash_points", "histories", "configurations"], "all settings and interruption points within the bounds",
     "Tests resume one run after its last epoch; they do not interrupt runs at arbitrary points and need torch.",
     ["/src/python/deepgnn/pytorch/training/trainer.py", "/src/python/deepgnn/pytorch/training/trainer_ddp.py", "/src/python/deepgnn/pytorch/training/trainer_fp16.py", "/src/python/deepgnn/pytorch/common/utils.py"],
     [("training loop", "/src/python/deepgnn/pytorch/training/trainer.py"), ("checkpoint files", "/src/python/deepgnn/pytorch/common/utils.py")], ["batches applied to the model, checkpoint files, embeddings"])
prop("C47", "Dataset builders keep every node, label, feature and edge of the raw data",
     "The graph built from the raw files of Cora, Citeseer, PPI and Reddit has every node once with its features, label and kind (training, validation, test), and every edge between known nodes in both directions, once per direction, with type 0 exactly between training nodes; node files list the nodes of each kind, the requested share of nodes is for training, and every partition of the converted graph is loaded.",
     ["inputs", "configurations"], "all raw data, splits and numbers of partitions within the bounds",
     "Tests build the full data sets from the network or compare totals of one split.",
     ["/src/python/deepgnn/graph_engine/data/data_util.py", "/src/python/deepgnn/graph_engine/data/cora.py", "/src/python/deepgnn/graph_engine/data/citeseer.py", "/src/python/deepgnn/graph_engine/data/ppi.py", "/src/python/deepgnn/graph_engine/data/reddit.py"],
     [("citation graphs", "/src/python/deepgnn/graph_engine/data/data_util.py"), ("PPI and Reddit", "/src/python/deepgnn/graph_engine/data/ppi.py")], ["graph files, node files, loaded partitions"])
prop("C48", "Learning-rate schedules warm up and decay as documented",
     "Every learning-rate schedule raises the rate in equal steps from zero to the initial rate during the warm-up; afterwards it is constant, or falls linearly, polynomially or along cosines (with or without restarts) to its final value at the last training step and keeps to it. The factor is between zero and one at every step, for every warm-up and number of steps, and a resumed schedule begins at the given step.",
     ["inputs"], "all steps, warm-ups and lengths within the bounds",
     "Tests look at the learning rate of one configuration, if at all.",
     ["/src/python/deepgnn/pytorch/common/optimization.py"],
     [("schedules", "/src/python/deepgnn/pytorch/common/optimization.py")], ["learning-rate factors"])
prop("C49", "Metrics of graphs have the values of their definitions",
     "The share and diameter of the largest strongly connected component and the densification exponent of any directed graph, with any node ids, have the values of their definitions; the clustering coefficient is the share of random trials in which two neighbours of a node are linked in either direction, so it is between zero and one, zero without triangles and one for complete graphs.",
     ["inputs"], "all graphs and draws within the bounds",
     "Tests compute some metrics of two fixed graphs; the clustering coefficient is not tested.",
     ["/src/python/deepgnn/graph_engine/snark/preprocess/sampler/metric.py"],
     [("metrics", "/src/python/deepgnn/graph_engine/snark/preprocess/sampler/metric.py")], ["metric values"])
prop("N01", "Sampling without replacement gives every subset the same probability",
     "For every node or type of nodes, sampling k of n candidates without replacement in the engine returns each of the subsets of size k with the same probability.",
     ["inputs", "schedules"], "all graphs and draws",
     "C++ tests sample fixed graphs with fixed seeds.",
     ["/src/cc/lib/graph/reservoir.cc", "/src/cc/lib/graph/sampler.cc"],
     [("reservoir", "/src/cc/lib/graph/reservoir.cc")], ["query results"])
prop("N03", "TensorFlow training resumes from a checkpoint exactly where it stopped",
     "A TensorFlow training run interrupted at any point and resumed from its last checkpoint continues with the model, optimizer and progress counters of that checkpoint and never repeats or skips an epoch.",
     ["crash_points", "histories"], "all interruption points",
     "Tests run trainers to completion.",
     ["/src/python/deepgnn/tf/common/trainer.py", "/src/python/deepgnn/tf/common/tf2_trainer.py"],
     [("checkpointing", "/src/python/deepgnn/tf/common/trainer.py")], ["checkpoint files, counters"])

if __name__ == "__main__":
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(path, "w") as f:
        for o in OUT:
            f.write(json.dumps(o) + "\n")
    print(len(OUT))
