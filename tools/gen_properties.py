"""Writes properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe:
        d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, title
    P.append(d)


I = "include/svs/"
prop("C01", "Exhaustive search returns the exact nearest neighbours",
     "For every dataset, query batch, metric, element type and number of neighbours, the exhaustive (flat) index returns, best first and without repeats, exactly the vectors nearest to each query (ties in any order) together with their true distances, restricted to the vectors that pass the caller's filter if there is one. "
     "The answer does not depend on the number of threads, on how queries or data are divided into batches, or on which other queries share the batch. "
     "When more neighbours are asked for than exist, the surplus entries name no vector of the dataset.",
     ["inputs", "configurations"],
     "all datasets, queries, element types, metrics, filters, neighbour counts, thread counts and batch sizes",
     "The flat search tests need a reference dataset that is not in the repository, so they fail to run; even with it they sample one dataset and a few batch sizes.",
     [I + "index/flat/flat.h", I + "index/flat/inserters.h", I + "orchestrators/exhaustive.h", I + "index/index.h"],
     [("bounded heap per query", I + "index/flat/inserters.h"), ("batching of data and queries", I + "index/flat/flat.h"),
      ("argument fix and compute", I + "core/distance/distance_core.h")],
     ["svs::Flat::search", "svs::index::flat::FlatIndex::search"])

prop("C02", "Distance functions compute the mathematical distance",
     "For every pair of equally long vectors and every supported combination of element types, squared Euclidean distance, inner product and cosine similarity equal their mathematical definitions up to float rounding, and exactly where every intermediate value is a small integer. "
     "The value is the same whether the length is known at compile time or at run time, whichever instruction set the code is built for, and wherever in memory the vectors lie; no element outside the two vectors is read or influences the result.",
     ["inputs", "configurations"],
     "all vectors, lengths (including lengths below and around the vector-register width), element-type pairs, static and dynamic extents, alignments, and instruction-set levels",
     "The distance tests use random vectors of a handful of lengths on one instruction set and compare with a loose tolerance; tails, extremes of 8-bit types, and other instruction sets are not reached.",
     [I + "core/distance/euclidean.h", I + "core/distance/inner_product.h", I + "core/distance/cosine.h",
      I + "core/distance/simd_utils.h", I + "core/distance/distance_core.h"],
     [("per-type SIMD kernels", I + "core/distance/euclidean.h"), ("masked tail handling", I + "core/distance/simd_utils.h"),
      ("cached query norm", I + "core/distance/cosine.h")],
     ["svs::distance::compute"])

prop("C03", "Graph search returns true, ordered, distinct neighbours for any settings",
     "Every neighbour a static graph-index search returns is a vector of the index, appears once, carries its true distance to the query, and the list is ordered best first; a search whose window is at least as large as the set of vectors reachable from the entry point returns exactly the nearest reachable vectors, and one with a smaller window returns what a best-first traversal that keeps that many candidates finds. "
     "The answer to a query depends only on the index, the query and the search settings: not on the number of threads, the other queries of the batch, earlier searches, prefetching, or whether the visited-set filter is enabled, and a batch and a single query give the same answer. "
     "Entries beyond the vectors a search can reach name no vector of the index.",
     ["inputs", "configurations"],
     "all graphs, entry points, datasets, element types, metrics, queries, window sizes and capacities, visited-set settings and thread counts",
     "The graph-search tests need a reference dataset that is absent, so they do not run; the unit test of the traversal covers one hand-made graph.",
     [I + "index/vamana/greedy_search.h", I + "index/vamana/search_buffer.h", I + "index/vamana/index.h",
      I + "index/vamana/filter.h", I + "index/vamana/extensions.h"],
     [("greedy traversal", I + "index/vamana/greedy_search.h"), ("bounded sorted candidate buffer", I + "index/vamana/search_buffer.h"),
      ("visited filter", I + "index/vamana/filter.h"), ("post-processing of results", I + "index/vamana/index.h")],
     ["svs::Vamana::search", "svs::index::vamana::VamanaIndex::search"])

prop("C04", "Graph construction yields a well-formed, navigable graph",
     "Building a graph index over any dataset whose distances are numbers (so, for cosine similarity, without zero vectors) gives a graph in which every vertex has at most the configured number of out-edges, all to distinct existing vertices other than itself, with an entry point that is an existing vertex closest to the centre of the data, and search over it reaches nearly all true neighbours at generous settings. "
     "With one thread the same inputs give the same graph; with several threads the graph still satisfies all of the above; and the build does not alter the dataset and honours every build parameter.",
     ["inputs", "configurations", "schedules"],
     "all datasets (including repeated vectors and tiny ones), metrics, element types, build parameters and thread counts",
     "The build tests need a missing reference dataset and do not run; the one remaining test builds a single small graph.",
     [I + "index/vamana/vamana_build.h", I + "index/vamana/prune.h", I + "index/vamana/index.h", I + "core/medioid.h",
      I + "index/vamana/build_params.h"],
     [("two-pass construction with reverse edges", I + "index/vamana/vamana_build.h"), ("robust pruning", I + "index/vamana/prune.h"),
      ("entry point selection", I + "core/medioid.h")],
     ["graph of svs::index::vamana::auto_build", "svs::Vamana::build"])

prop("C05", "Candidate buffers keep exactly the best distinct candidates in order",
     "Under every sequence of insertions, visits, clears and (with the clear that must follow) resizings, the candidate buffer of a search holds exactly the best candidates offered since it was cleared, sorted best first, each identifier at most once while it is retained, up to its capacity, and always hands out the best candidate not yet handed out within its search window. "
     "The variant for indexes with deleted entries additionally keeps counting only valid entries towards its window, so that it ends with as many valid results as were found, up to the configured number; the visited filter never reports an identifier as visited that was not offered.",
     ["histories", "inputs"],
     "all sequences of operations, distances (including ties), capacities, window sizes and validity patterns",
     "The unit tests replay a few hand-made insert sequences; order, ties, capacity boundaries and interleavings of insert and next are unbounded.",
     [I + "index/vamana/search_buffer.h", I + "index/vamana/dynamic_search_buffer.h", I + "index/vamana/filter.h", I + "lib/neighbor.h",
      I + "index/flat/inserters.h"],
     [("sorted insertion", I + "index/vamana/search_buffer.h"), ("region of interest over valid entries", I + "index/vamana/dynamic_search_buffer.h"),
      ("lossy hash filter", I + "index/vamana/filter.h")])

prop("C06", "Edge pruning keeps a bounded, relaxed-neighbourhood subset of the candidates",
     "Given any list of candidates sorted by nearness to a vertex, pruning returns at most the requested number of distinct candidates taken from the list, never the vertex itself, starting with its nearest, in the order in which the relaxed-neighbourhood rule with the configured relaxation factor selects them, for both the distance and the similarity form of the rule. "
     "The result depends only on the arguments, never on what the output container held before, and an empty list gives an empty result.",
     ["inputs"],
     "all candidate lists, datasets, metrics, relaxation factors and degree limits",
     "No unit test exercises the pruning rules; they are only run inside index builds whose tests cannot run here.",
     [I + "index/vamana/prune.h"],
     [("iterative rule for distances", I + "index/vamana/prune.h"), ("progressive rule for similarities", I + "index/vamana/prune.h")],
     ["svs::index::vamana::heuristic_prune_neighbors"])

prop("C07", "A dynamic index behaves like a map from identifiers to vectors",
     "After any sequence of additions, deletions, consolidations, compactions, save/reload cycles and setting changes, a dynamic index contains exactly the identifiers added and not since deleted: size, membership, enumeration and reconstruction agree with that map, and every search returns only such identifiers, distinct, best first, each with the true distance to the vector currently stored under it. "
     "Adding an identifier already present, repeating an identifier in one request, or deleting one that is absent throws an exception and leaves the index as it was; consolidation and compaction never change the contents, in any order and with any batch size.",
     ["histories", "inputs", "configurations"],
     "all operation histories, identifier choices, batch sizes, datasets, metrics and thread counts, including emptying and refilling the index and reusing slots",
     "The dynamic-index tests need a missing dataset and do not run; they would follow one fixed schedule of operations.",
     [I + "index/vamana/dynamic_index.h", I + "index/vamana/consolidate.h", I + "core/translation.h", I + "core/compact.h",
      I + "orchestrators/dynamic_vamana.h", I + "misc/dynamic_helper.h"],
     [("slot status and soft deletion", I + "index/vamana/dynamic_index.h"), ("identifier translation", I + "core/translation.h"),
      ("graph repair", I + "index/vamana/consolidate.h"), ("compaction", I + "core/compact.h")],
     ["svs::DynamicVamana", "svs::index::vamana::MutableVamanaIndex"])

prop("C08", "Updates keep a dynamic index navigable and its graph free of dead edges",
     "After any history of additions of vectors whose distances are numbers and deletions, once deleted entries are consolidated no search visits them and no edge leads to them: every live vertex has at most the configured number of distinct out-edges, all to other live vertices, and the entry point is live. "
     "At generous search settings the index still finds nearly all true neighbours among its live vectors, returns nearly always as many results as were asked for where that many live vectors exist, and finds newly added vectors.",
     ["histories", "inputs", "configurations"],
     "all histories of additions, deletions (including of the entry point and of most of the index), consolidations, compactions, and reloads",
     "Search quality and graph shape after updates are only tested with a missing dataset, for one schedule.",
     [I + "index/vamana/consolidate.h", I + "index/vamana/dynamic_index.h", I + "index/vamana/vamana_build.h", I + "core/compact.h"],
     [("repair of edges to deleted vertices", I + "index/vamana/consolidate.h"), ("entry-point replacement", I + "index/vamana/dynamic_index.h"),
      ("incremental insertion", I + "index/vamana/vamana_build.h")])

prop("C09", "Identifier translation stays a bijection and fails atomically",
     "Under every sequence of insertions, deletions, remappings and save/load round trips, the translation between external and internal identifiers is a bijection that agrees with the history: each pair inserted and not deleted is found in both directions, nothing else is, and the enumeration visits each pair once. "
     "An insertion that repeats an identifier on either side, or a deletion of an absent one, throws and changes nothing.",
     ["histories", "inputs"],
     "all sequences of batch operations over arbitrary external and internal identifiers, valid and invalid",
     "The unit test walks one fixed sequence; partial overlaps between batches, identifier reuse and failure in the middle of a batch are unbounded.",
     [I + "core/translation.h"],
     [("paired hash maps with validation before change", I + "core/translation.h")])

prop("C10", "A saved index reloads as the same index",
     "Saving any index to disk and loading it, from the same or a moved directory, with any thread count, gives an index with the same size, parameters, entry point, graph, vectors and identifiers, which answers every query exactly as the original did and can be saved, searched and (if dynamic) updated further. "
     "Saving does not alter the index being saved, and saving over an older index replaces it.",
     ["inputs", "histories", "configurations"],
     "all datasets, element types, metrics, build and search parameters, histories preceding the save, and load-time configurations",
     "The save/load tests of the indexes need the missing dataset; they cover one index each.",
     [I + "index/vamana/index.h", I + "index/vamana/dynamic_index.h", I + "core/graph/graph.h", I + "core/data/simple.h",
      I + "core/translation.h", I + "orchestrators/vamana.h", I + "orchestrators/dynamic_vamana.h"],
     [("config, graph and data directories", I + "index/vamana/index.h"), ("compaction before saving", I + "index/vamana/dynamic_index.h"),
      ("object serialization", I + "lib/saveload/save.h")])

prop("C11", "Every serializable value survives a save and load unchanged",
     "For every value of every serializable kind (numbers of any width and sign, strings, paths, flags, enumerations, nested and repeated values, vectors, datasets of any element type and layout, graphs, clusterings and parameter sets), saving and loading returns an equal value, on disk and in memory, also after the directory has been moved, and several objects in one directory do not disturb each other. "
     "A value that cannot be represented or does not fit the requested type is refused with an exception rather than altered (only floating-point values may be rounded to the precision of the requested type).",
     ["inputs"],
     "all values of all serializable types, directory locations, and pairs of saved and requested types",
     "The tests round-trip a few constants per type.",
     [I + "lib/saveload/core.h", I + "lib/saveload/save.h", I + "lib/saveload/load.h", I + "core/io/native.h", I + "core/data/simple.h",
      I + "core/graph/graph.h", I + "lib/narrow.h"],
     [("table serialization", I + "lib/saveload/save.h"), ("checked narrowing", I + "lib/narrow.h"), ("file naming by UUID", I + "lib/uuid.h")])

prop("C12", "Vector files read back what was written, in every supported format",
     "For every vector dataset, writing it in any supported file format and reading it back gives the same number of vectors, the same dimensions and the same elements in the same order. "
     "When the file's element type differs from that of the data, each element is converted exactly on writing (only conversions to a narrower floating-point type may round) or the write is refused; a file is read as the element type it holds. "
     "Reading at most N vectors returns the first min(N, count) of them, and the dimensions and element size inferred from a file agree with what was written.",
     ["inputs"],
     "all matrices (any number of rows and columns, including one), element types, formats, limits and sequences of writer calls",
     "The tests round-trip two or three files with convenient shapes.",
     [I + "core/io/vecs.h", I + "core/io/native.h", I + "core/io/binary.h", I + "core/data/io.h", I + "lib/readwrite.h", I + "lib/file_iterator.h"],
     [("per-row headers", I + "core/io/vecs.h"), ("fixed header with size", I + "core/io/native.h"), ("heterogeneous file iterator", I + "lib/file_iterator.h")])

prop("C13", "Damaged or foreign files are refused cleanly",
     "Loading an index, dataset, graph or table from a file that is truncated, altered, of the wrong kind, of an unsupported version, or missing fields ends in an exception or, where the damage is not detectable, in a well-formed object; it never crashes, hangs, touches memory out of bounds, asks for memory out of proportion to the files, or silently returns contents that the file does not hold. "
     "A file whose declared size disagrees with its length is refused.",
     ["inputs", "fault_sequences"],
     "all byte-level and field-level modifications of saved files: truncation, extension, bit flips, deleted or retyped fields, swapped files",
     "The tests try a wrong schema and a wrong version on one object each; no damaged file is ever opened.",
     [I + "core/io/native.h", I + "core/io/vecs.h", I + "core/io/binary.h", I + "lib/saveload/load.h", I + "lib/saveload/core.h",
      I + "core/translation.h", I + "core/graph/graph.h", I + "core/data/simple.h"],
     [("magic number, header and size checks", I + "core/io/native.h"), ("schema and version checks", I + "lib/saveload/load.h")])

prop("C14", "Vector containers behave like arrays of rows",
     "Under every sequence of writes, resizings, copies, moves, compactions and views, a dataset container of any layout (contiguous, blocked, fixed or run-time dimension) returns for each index the row last stored there, keeps rows unaffected by operations on others, converts between element types exactly where the value is representable (only the conversions to a narrower floating-point type may round), and refuses rows of the wrong length. "
     "Compacting with any increasing list of kept rows and any batch size or thread count yields exactly those rows in that order; copies are independent and views alias.",
     ["histories", "inputs", "configurations"],
     "all sequences of operations, sizes, dimensions, block sizes, element types and thread counts",
     "The unit tests use a few fixed shapes; block boundaries, growth and shrinkage histories and compaction patterns are unbounded.",
     [I + "core/data/simple.h", I + "core/data/view.h", I + "core/compact.h", I + "lib/array.h", I + "core/allocator.h"],
     [("blocked addressing", I + "core/data/simple.h"), ("batched in-place compaction", I + "core/compact.h"), ("dense array ownership", I + "lib/array.h")])

prop("C15", "Adjacency containers behave like a map from vertex to edge list",
     "Under every sequence of edge additions, list replacements, clears, resizings, copies and save/load round trips, a graph container of any layout reports for each vertex exactly the distinct edges added since the vertex was last cleared or replaced, up to its maximum degree, and never changes the list of another vertex. "
     "Adding an edge that is present or exceeds the maximum degree, or a self-edge, has the documented effect on degree and contents; comparison of graphs agrees with comparison of their lists.",
     ["histories", "inputs"],
     "all sequences of operations on graphs of any size, maximum degree, block size and identifier type",
     "The unit tests use one short random sequence.",
     [I + "core/graph/graph.h"],
     [("degree stored before the list", I + "core/graph/graph.h"), ("bounded sorted-free insertion", I + "core/graph/graph.h")])

prop("C16", "Clusterings partition the data and inverted search agrees with exhaustive search",
     "Clustering any dataset assigns every vector, apart from the chosen centroids where these are kept out, to clusters so that no vector is lost or repeated within a cluster and each stored distance is the true distance to the centroid; saving and loading preserves the clustering. "
     "An inverted-file search returns distinct stored vectors with true distances best first, honours its search settings, always examines the clusters of the nearest centroids, and when it examines all clusters equals exhaustive search.",
     ["inputs", "configurations"],
     "all datasets, metrics, centroid selections, cluster layouts, search settings, queries (including queries equal to a centroid) and thread counts",
     "The clustering and inverted-index tests need the missing dataset.",
     [I + "index/inverted/clustering.h", I + "index/inverted/memory_based.h", I + "index/inverted/common.h",
      I + "index/inverted/memory_search_params.h", I + "index/inverted/extensions.h", I + "orchestrators/inverted.h"],
     [("assignment of vectors to centroids", I + "index/inverted/clustering.h"), ("refinement over selected clusters", I + "index/inverted/memory_based.h")])

prop("C17", "Medioid and k-means give centres of the data",
     "The medioid of any dataset is an existing, allowed vector at minimal distance from the mean of the allowed vectors, whatever the batch size, thread count or filter. "
     "K-means training returns the requested number of finite centroids within the range of the data, deterministic for a given seed, whose quality does not get worse with further passes over the whole dataset, and terminates for any number of clusters up to the number of vectors.",
     ["inputs", "configurations"],
     "all datasets, element types, filters, cluster counts, seeds, batch sizes and thread counts",
     "The medioid test needs the missing dataset; k-means has one smoke test.",
     [I + "core/medioid.h", I + "core/kmeans.h"],
     [("parallel accumulation of the mean", I + "core/medioid.h"), ("Lloyd iterations with reseeding", I + "core/kmeans.h")])

prop("C18", "Recall is the fraction of true neighbours recovered",
     "For any ground truth and any results, the reported k-recall-at-n is the average over queries of the size of the intersection of the first k true neighbours with the first n results, divided by k; it lies in [0, 1], does not depend on the order within the first n results or k true neighbours, is monotone in n, and is 1 when all are found. "
     "Requests that exceed the width of either table, or tables with different numbers of queries, are refused.",
     ["inputs"],
     "all ground-truth and result tables, element types and pairs (k, n)",
     "The recall tests need files that are missing or use one table.",
     [I + "core/recall.h"],
     [("set intersection per query", I + "core/recall.h")])

prop("C19", "Parallel work runs exactly once and failures surface without harm",
     "For every size, partitioning scheme and number of threads, a parallel run calls the task for every index exactly once and returns only when all calls have finished; results written by the tasks are visible to the caller. "
     "An exception in any subset of threads surfaces as an exception in the caller, after which, and after any resizing, copying or moving, the pool runs further work completely; shared state guarded for concurrent reading and writing is never seen half-written.",
     ["schedules", "inputs", "histories"],
     "all range sizes, grain sizes, thread counts, sequences of runs, resizings and throwing tasks, and thread interleavings",
     "The tests run fixed sizes with few schedules; interleavings of sleeping, waking and failing workers are not controlled.",
     [I + "lib/threads/threadpool.h", I + "lib/threads/thread.h", I + "lib/threads/types.h", I + "lib/threads/thunks.h",
      I + "lib/threads/threadlocal.h", I + "lib/concurrency/readwrite_protected.h", I + "lib/spinlock.h"],
     [("static and dynamic partitions", I + "lib/threads/types.h"), ("control block state machine", I + "lib/threads/thread.h"),
      ("worker exception capture", I + "lib/threads/threadpool.h")])

prop("C20", "Textual names, versions and identifiers convert to text and back",
     "Every unique identifier, version number, element-type name, distance name and other named setting formats to text that parses back to the same value, and compares equal consistently with it; ordering of versions is lexicographic over their parts. "
     "Any text that is not in the documented form is refused with an exception or the documented 'unknown' or default value, never accepted as some other value.",
     ["inputs"],
     "all values and all strings, including near misses of valid forms",
     "The tests check a few literals.",
     [I + "lib/uuid.h", I + "lib/version.h", I + "lib/datatype.h", I + "core/distance.h", I + "lib/file.h"],
     [("hex parsing", I + "lib/uuid.h"), ("prefix and dot parsing", I + "lib/version.h"), ("name tables", I + "lib/datatype.h")])

prop("C21", "Numeric conversions are exact or refused",
     "Converting any 32-bit float to half precision and back rounds to the nearest half-precision value (ties to even, overflow to infinity, not-a-number preserved) identically in single, bulk and SIMD conversions, and converting half precision to float is exact. "
     "Checked narrowing returns an equal value or throws, for every pair of numeric types, and the bit, division and arithmetic helpers agree with their mathematical definitions.",
     ["inputs"],
     "all 65536 half-precision values, all 32-bit patterns, all pairs of numeric types",
     "The tests sample a few values.",
     [I + "lib/float16.h", I + "lib/narrow.h", I + "lib/misc.h", I + "core/distance/simd_utils.h"],
     [("F16C and software conversion", I + "lib/float16.h"), ("round-trip comparison", I + "lib/narrow.h")])

prop("C22", "Type-erased indexes behave as the concrete ones and dispatch to the right code",
     "An index held through its type-erased interface answers every query, reports every property and applies every setting exactly as the concrete index would, for every query element type it was created for, and refuses any other query type with an exception. "
     "Run-time selection among registered implementations picks a matching implementation of the best match quality whatever the registration order, passes the arguments through unchanged, and throws when none matches.",
     ["inputs", "configurations", "programs"],
     "all index kinds, element types, settings, query types, and sets of registered implementations",
     "The wrapper tests are compiled against the missing dataset; dispatch tests use a handful of registered methods.",
     [I + "orchestrators/manager.h", I + "orchestrators/vamana.h", I + "orchestrators/dynamic_vamana.h", I + "orchestrators/exhaustive.h",
      I + "orchestrators/inverted.h", I + "lib/dispatcher.h"],
     [("virtual forwarding", I + "orchestrators/manager.h"), ("match scoring", I + "lib/dispatcher.h")])

prop("C23", "Calibration finds settings that reach the requested recall",
     "For any index, query set, ground truth and recall target, calibration returns valid search settings that reach the target on those queries whenever the largest window within its bounds does (with the smallest such window, where recall grows with the window), respects the bounds and restrictions it was given, and does not change the recall promise when it optimizes other settings. "
     "It leaves the contents of the index unchanged, and applying the returned settings reproduces the recall it reported.",
     ["inputs", "configurations"],
     "all indexes, query sets, targets and calibration options",
     "Calibration is only tested with the missing dataset.",
     [I + "index/vamana/calibrate.h", I + "index/vamana/index.h"],
     [("binary search over window sizes", I + "index/vamana/calibrate.h")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
