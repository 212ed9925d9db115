"""What each check compiles and runs (see run.py)."""
LIB_SOURCES = ["lib/vh_main.cpp"]
STD_ASSUME = ["gcc 13 -O1/-O2 code of the instruction sets this machine can run (AVX-512 VNNI down to AVX2)"]

CHECKS = {
    "C01": dict(
        sources=["src/c01/flat_%s.cpp" % c for c in "abcd"],
        variants=["O1,asan"],
        seconds=20, thorough_seconds=600,
        rule="A case is a dataset, a query batch, k, a metric, thread and batch sizes and up to four searches; "
             "it is non-trivial when the dataset has at least 4 vectors and more vectors than neighbours asked for.",
    ),
    "C02": dict(
        sources=["src/c02/dist_%s.cpp" % c for c in ("l2", "ip", "cos")],
        variants=["O2,v4vnni", "O2,v4", "O2,v3", "O2,v2"],
        seconds=16, thorough_seconds=600, min_cases=20000,
        rule="A case is a pair of vectors (values, element types, length, placement against unreadable pages or poison) "
             "and a metric; it is non-trivial when the vectors have more than one element.",
    ),
    "C03": dict(
        sources=["src/c03/s_%s.cpp" % c for c in "abc"],
        variants=["O1,asan"],
        seconds=20, thorough_seconds=600,
        rule="A case is a dataset, a random graph with an entry point, a query batch and up to four settings "
             "(window, capacity, k, visited filter, prefetching, threads); it is non-trivial when at least 4 vectors are reachable.",
    ),
    "C04": dict(
        sources=["src/c04/b_%s.cpp" % c for c in "abc"] + ["lib/mmap_lazy.cpp"],
        variants=["O1,asan", "O2"],
        seconds=30, thorough_seconds=900, libs=["-lspdlog", "-lfmt"],
        rule="A case is a dataset with build parameters and a number of threads; it is non-trivial with more than three vectors and a "
             "maximum degree above one.",
    ),
    "C05": dict(
        sources=["src/c05/buffers.cpp"],
        variants=["O1,asan"],
        seconds=20, thorough_seconds=600,
        rule="A case is a history of insertions, hand-outs, entry points, resizings and clears of one buffer (or of emplacements in a "
             "visited filter); it is non-trivial when it has at least four insertions and one hand-out.",
    ),
    "C06": dict(
        sources=["src/c06/prune.cpp"],
        variants=["O1,asan"],
        seconds=20, thorough_seconds=600,
        rule="A case is a dataset, a vertex, a sorted candidate list, a result limit and a relaxation factor; "
             "it is non-trivial when the list has at least four candidates and at least two are selected.",
    ),
    "C07": dict(
        sources=["src/c07/d_%s.cpp" % c for c in "abc"] + ["lib/mmap_lazy.cpp"],
        variants=["O1,asan"],
        seconds=35, thorough_seconds=900, libs=["-lspdlog", "-lfmt"],
        rule="A case is a history of up to 12 additions, replacements, deletions, consolidations, compactions, reloads, refused "
             "requests and setting changes of one dynamic index, with searches; it is non-trivial with at least two such updates, one a deletion.",
    ),
    "C08": dict(
        sources=["src/c08/%s.cpp" % c for c in ("s_a", "s_b", "s_c", "consolidator")] + ["lib/mmap_lazy.cpp"],
        variants=["O1,asan"],
        seconds=30, thorough_seconds=900, libs=["-lspdlog", "-lfmt"],
        rule="A case is one consolidation of a random graph, a history of additions, deletions, consolidations and compactions of one dynamic index (structure cases), or of "
             "rounds that replace up to 80% of an index of unstructured data (recall cases); it is non-trivial when a consolidation "
             "rebuilt at least one adjacency list, or when it is a recall case.",
    ),
    "C09": dict(
        sources=["src/c09/translate.cpp"],
        variants=["O1,asan"],
        seconds=15, thorough_seconds=600,
        rule="A case is a history of up to 30 insertions, deletions, remappings, copies and reloads of one translation; it is "
             "non-trivial with at least three that change it and either a refused request or more than six operations.",
    ),
    "C10": dict(
        sources=["src/c10/s_%s.cpp" % c for c in "abc"] + ["lib/mmap_lazy.cpp"],
        variants=["O1,asan"],
        seconds=20, thorough_seconds=900, libs=["-lspdlog", "-lfmt"],
        rule="A case is an index with the settings and updates that precede saving, a place to save it, a way to load it and what happens "
             "to it next; it is non-trivial with more than three vectors (and deletions or later updates for dynamic indexes).",
    ),
    "C11": dict(
        sources=["src/c11/values.cpp", "src/c11/objects.cpp"],
        variants=["O1,asan"],
        seconds=20, thorough_seconds=600, libs=["-lspdlog", "-lfmt"],
        rule="A case is a value or several objects with a place to save them and a way to load them, or a limit on what can be written; "
             "it is non-trivial with text and nested values, with more than one object, or with a limit that matters.",
    ),
    "C12": dict(
        sources=["src/c12/%s.cpp" % c for c in ("vecs", "binary", "native", "other")],
        variants=["O1,asan"],
        seconds=15, thorough_seconds=600, libs=["-lspdlog", "-lfmt"],
        rule="A case is a matrix, a file format, a way to write it and several ways to read it, or a conversion while writing; "
             "it is non-trivial with more than one row (and column).",
    ),
    "C13": dict(
        sources=["src/c13/%s.cpp" % c for c in ("objects", "raw", "index", "mmap_watch")],
        variants=["O1,asan"],
        seconds=20, thorough_seconds=900, libs=["-lspdlog", "-lfmt"], hang=30,
        rule="A case is a saved object and up to six ways to damage its files, each tried alone; it is non-trivial when at least one "
             "changes the files.",
    ),
    "C14": dict(
        sources=["src/c14/d_%s.cpp" % c for c in "abc"] + ["src/c14/dense.cpp"],
        variants=["O1,asan"],
        seconds=20, thorough_seconds=600,
        rule="A case is a history of writes, conversions, resizings, copies, moves, compactions and views of one container; "
             "it is non-trivial with at least four rows written and one operation other than a plain write.",
    ),
    "C15": dict(
        sources=["src/c15/graph.cpp"],
        variants=["O1,asan"],
        seconds=20, thorough_seconds=600, libs=["-lspdlog", "-lfmt"],
        rule="A case is a history of edge additions, list replacements, clears, resizings, copies, moves and reloads of one graph; "
             "it is non-trivial with at least four additions and one other operation.",
    ),
    "C16": dict(
        sources=["src/c16/s_%s.cpp" % c for c in "abc"] + ["lib/mmap_lazy.cpp"],
        variants=["O1,asan"],
        seconds=25, thorough_seconds=900, libs=["-lspdlog", "-lfmt"],
        rule="A case is a dataset, a choice of centroids, clustering and primary-index settings, and either two clusterings with a "
             "reload or up to four inverted searches; it is non-trivial with more than one centroid and more than three other vectors.",
    ),
    "C17": dict(
        sources=["src/c17/centre.cpp", "lib/mmap_lazy.cpp"],
        variants=["O1,asan"],
        seconds=20, thorough_seconds=600, libs=["-lspdlog", "-lfmt"],
        rule="A case is a dataset with a filter, a mapping and a division of the work, or with k-means settings; it is non-trivial "
             "with more than two allowed vectors, or with more than one centroid but fewer than vectors and one epoch.",
    ),
    "C18": dict(
        sources=["src/c18/recall.cpp"],
        variants=["O1,asan"],
        seconds=12, thorough_seconds=600,
        rule="A case is a table of true neighbours, a table of results, k and n; it is non-trivial when the request is valid with "
             "more than one query and more than one true neighbour.",
    ),
    "C19": dict(
        sources=["src/c19/parallel.cpp"],
        variants=["O1,tsan", "O2"],
        seconds=30, thorough_seconds=900, hang=30,
        rule="A case is a history of runs (per thread, static or dynamic partitions of any form and grain), failing tasks, resizings and moves "
             "of one pool under random delays, or of jobs of one thread, or of accesses to one guarded value; it is non-trivial with more than "
             "one thread and at least two runs with a failure or a change of the pool (or several jobs, or readers beside writers).",
    ),
    "C20": dict(
        sources=["src/c20/text.cpp"],
        variants=["O1,asan"],
        seconds=15, thorough_seconds=600,
        rule="A case is a value with its text and up to eight random changes to that text; it is non-trivial when the value is not "
             "zero or at least one changed text is not in the documented form.",
    ),
    "C21": dict(
        sources=["src/c21/numeric.cpp"],
        variants=["O1,asan", "O2,v2"],
        seconds=20, thorough_seconds=600,
        rule="A case is a block of 65536 floats, a dataset of halves, 24 narrowings, or arguments of the helpers; it is non-trivial "
             "when the floats are of half-precision magnitude, or the dataset, numbers or sequences are not the smallest possible.",
    ),
    "C22": dict(
        sources=["src/c22/%s.cpp" % c for c in ("dispatch", "erased_a", "erased_b")] + ["lib/mmap_lazy.cpp"],
        variants=["O1,asan"],
        seconds=20, thorough_seconds=600, libs=["-lspdlog", "-lfmt"],
        rule="A case is a set of registered implementations with random match qualities and six calls, or an index held through both "
             "interfaces with a history of settings, searches (and updates); it is non-trivial with more than two implementations of which "
             "one matches, or with more than three vectors.",
    ),
    "C23": dict(
        sources=["src/c23/calibrate.cpp", "lib/mmap_lazy.cpp"],
        variants=["O1,asan"],
        seconds=20, thorough_seconds=600, libs=["-lspdlog", "-lfmt"],
        rule="A case is a calibration of a made-up recall surface or of a real index, with random bounds, restrictions, starting settings "
             "and target; it is non-trivial when at least three settings are searched (made up) or the index has more than eight vectors.",
    ),
}
