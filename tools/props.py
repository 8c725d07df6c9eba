"""Single source of the properties, their harnesses and budgets. `python3 tools/props.py` regenerates
properties.jsonl and MANIFEST.json."""
import json, os, sys

WRAP = ["-Wl,--wrap=pthread_mutex_lock", "-Wl,--wrap=pthread_mutex_unlock"]

MATH = ["AlexandriaKernel", "MathUtils", "XYDataset", "NdArray", "Table", "FilePool"]
HARNESSES = {
    "threadpool1": dict(sources=["threadpool.cpp"], modules=["AlexandriaKernel"], cflags=["-DVP_C01"], ldflags=WRAP),
    "threadpool2": dict(sources=["threadpool.cpp"], modules=["AlexandriaKernel"], cflags=["-DVP_C02"], ldflags=WRAP),
    "filepool1": dict(sources=["filepool.cpp"], modules=["AlexandriaKernel", "FilePool"], cflags=["-DVP_C03"], ldflags=WRAP),
    "filepool2": dict(sources=["filepool.cpp"], modules=["AlexandriaKernel", "FilePool"], cflags=["-DVP_C04"], ldflags=WRAP),
    "ndarray5": dict(sources=["ndarray.cpp"], modules=["AlexandriaKernel", "NdArray"], cflags=["-DVP_C05"]),
    "ndarray6": dict(sources=["ndarray.cpp"], modules=["AlexandriaKernel", "NdArray"], cflags=["-DVP_C06"]),
    "ndops7": dict(sources=["ndops.cpp"], modules=["AlexandriaKernel", "NdArray"], cflags=["-DVP_C07"]),
    "npy8": dict(sources=["npy.cpp", "npy_rt1.cpp", "npy_rt2.cpp", "npy_rt3.cpp"], modules=["AlexandriaKernel", "NdArray"], cflags=["-DVP_C08"]),
    "kdtree": dict(sources=["kdtree.cpp"], modules=[]),
    "grid10": dict(sources=["grid.cpp"], modules=["AlexandriaKernel", "Table", "XYDataset", "FilePool"], cflags=["-DVP_C10"]),
    "grid11": dict(sources=["grid.cpp"], modules=["AlexandriaKernel", "XYDataset", "Table", "FilePool"],
                   # stack slots must be reused as in a normal build: archives track addresses
                   cflags=["-DVP_C11", "--param=asan-use-after-return=0"]),
    "functions": dict(sources=["functions.cpp"], modules=MATH),
    "interp": dict(sources=["interp.cpp"], modules=MATH),
    "numeric": dict(sources=["numeric.cpp"], modules=MATH),
    "pdf": dict(sources=["pdf.cpp"], modules=MATH),
    "sampler": dict(sources=["sampler.cpp"], modules=MATH),
    "table18": dict(sources=["table.cpp"], modules=["AlexandriaKernel", "NdArray", "Table"], cflags=["-DVP_C18"]),
    "table19": dict(sources=["table.cpp"], modules=["AlexandriaKernel", "NdArray", "Table"], cflags=["-DVP_C19"]),
    "table20": dict(sources=["table.cpp"], modules=["AlexandriaKernel", "NdArray", "Table"], cflags=["-DVP_C20"]),
    "names21": dict(sources=["xydataset.cpp"], modules=["AlexandriaKernel", "NdArray", "Table", "XYDataset"], cflags=["-DVP_C21"]),
    "datasets22": dict(sources=["xydataset.cpp"], modules=["AlexandriaKernel", "NdArray", "Table", "XYDataset"], cflags=["-DVP_C22"]),
    "catalog23": dict(sources=["catalog.cpp"], modules=["AlexandriaKernel", "NdArray", "Table", "SourceCatalog"]),
    "config24": dict(sources=["config.cpp"], modules=["AlexandriaKernel", "NdArray", "Table", "SourceCatalog", "Configuration"]),
    "catconf25": dict(sources=["catconf.cpp"], modules=["AlexandriaKernel", "NdArray", "MathUtils", "XYDataset", "Table", "SourceCatalog", "Configuration"], fits=True),
    "som26": dict(sources=["som.cpp"], modules=["AlexandriaKernel", "GridContainer", "SOM"]),
    "cosmology27": dict(sources=["cosmology.cpp"], modules=["AlexandriaKernel", "NdArray", "GridContainer", "XYDataset", "MathUtils", "PhysicsUtils"]),
    "sharing28": dict(sources=["sharing.cpp"], modules=["AlexandriaKernel", "NdArray", "GridContainer", "XYDataset", "MathUtils", "PhysicsUtils", "Table", "SourceCatalog", "SOM"]),
    "kernel29": dict(sources=["kernel.cpp"], modules=["AlexandriaKernel"]),
    "fits30": dict(sources=["fits.cpp"], modules=["AlexandriaKernel", "NdArray", "GridContainer", "XYDataset", "Table", "SOM"], fits=True),
    "independent31": dict(sources=["independent.cpp"], modules=["AlexandriaKernel", "FilePool", "NdArray", "GridContainer", "XYDataset", "MathUtils", "PhysicsUtils", "Table", "SourceCatalog", "SOM"]),
    "disk34": dict(sources=["disk.cpp"], modules=["AlexandriaKernel", "FilePool", "NdArray", "GridContainer", "XYDataset", "MathUtils", "PhysicsUtils", "Table", "SourceCatalog", "SOM", "Configuration"], fits=True),
    "faults33": dict(sources=["faults.cpp"], modules=["AlexandriaKernel", "FilePool", "NdArray", "GridContainer", "XYDataset", "MathUtils", "PhysicsUtils", "Table", "SourceCatalog", "SOM"]),
    "bytes32": dict(sources=["bytes.cpp"], modules=["AlexandriaKernel", "NdArray", "MathUtils", "XYDataset", "Table", "SourceCatalog", "Configuration"], fits=True),
    "histogram": dict(sources=["histogram.cpp"], modules=["AlexandriaKernel"]),
}

SPECS = {}
PROPS = []


def prop(pid, title, statement, over, qtext, why, files, mechanism, spec, observe=None, level="exploration", note="", technique=""):
    mech = []
    for m in mechanism:
        name, _, where = m.partition("|")
        mech.append(dict(name=name, where=where or files[0]))
    anchors = dict(files=files, mechanism=mech)
    if observe:
        anchors["observe_at"] = observe
    PROPS.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                      why_tests_cant=why, anchors=anchors))
    if spec is not None:
        spec.setdefault("technique", technique)
        spec.setdefault("note", note)
        SPECS[pid] = spec


ASAN_TSAN = "sanitizers (ASan+UBSan, TSan) plus trace monitors written for the property, under perturbed schedules"

prop("C01", "Thread pool runs every submitted task exactly once; blocking waits for all",
     "Every task submitted to a pool before it is blocked on runs exactly once, whatever the number of workers, of submitting threads and the speed of the tasks; tasks are started in submission order (only as many workers may be ahead) and never more of them run at once than there are workers. Blocking on the pool returns only when every submitted task has finished and all their effects are visible to the caller, and the pool can be used again afterwards. A pool without workers runs each task once, inside the submitting call, also when tasks submit tasks.",
     ["schedules", "inputs"], "every interleaving of submitters, workers and status readers, every number of workers and tasks",
     "A unit test sees a handful of schedules of a handful of tasks; lost wake-ups, double execution and early returns need particular interleavings.",
     ["AlexandriaKernel/AlexandriaKernel/ThreadPool.h", "AlexandriaKernel/src/lib/ThreadPool.cpp"],
     ["queue guarded by a mutex, polled by workers", "sleeping flags waited for by block()", "synchronous execution without workers"],
     dict(rule="random pools (0-12 workers), rounds, submitters, task durations and lock delays; a case is distinct by the recorded order of start/end events of all tasks with overlapping execution",
          runs=[dict(harness="threadpool1", cfg="asan", quick=60, thorough=3000),
                dict(harness="threadpool1", cfg="tsan", quick=60, thorough=3000)],
          require=["tasks_observed", "overlapping_rounds", "concurrent_submitter_runs", "nested_submissions", "synchronous_runs"],
          assumptions=["no task is submitted while block() is executing (documented restriction)"]),
     technique=ASAN_TSAN, note="start/end trace of every task checked online (exactly once, order slack, concurrency bound), plain memory written by tasks read after block() under TSan")

prop("C02", "Thread pool failures and destruction are orderly and race free",
     "When a task throws, blocking on the pool rethrows an exception that one of its tasks threw, after the tasks already running have finished; the failure stays reported, and no queued task is started once it has been reported. Destroying a pool waits for the running tasks and discards those not started, in any state and without hanging. The status queries may be used from any thread at any time.",
     ["schedules", "fault_sequences"], "every choice of failing tasks, every interleaving of the failures with workers, callers and destruction",
     "Which task fails first and what the other workers do meanwhile depends on the schedule; the tests try one failing task.",
     ["AlexandriaKernel/AlexandriaKernel/ThreadPool.h", "AlexandriaKernel/src/lib/ThreadPool.cpp"],
     ["exception pointer shared by workers and callers", "run/done flags waited for by the destructor"],
     dict(rule="random throwing patterns, held workers, destruction in random states; distinct by recorded order of start/end events and pool shape",
          runs=[dict(harness="threadpool2", cfg="asan", quick=60, thorough=3000),
                dict(harness="threadpool2", cfg="tsan", quick=60, thorough=3000)],
          require=["failed_pools", "failed_with_overlap", "held_failures", "destructions", "discard_runs"]),
     technique=ASAN_TSAN, note="trace monitor over start/end/throw events; gates make 'started after the failure was visible' exact")

prop("C03", "File pool gives one writer or many readers per physical file",
     "At any time a file of the pool has either any number of read accessors or a single write accessor, however its path is spelled (links, dots) and whichever descriptor types are used; a blocking request waits for its turn, and a try request never waits: it fails only because of a conflicting holder or waiter and otherwise behaves like the blocking one. Everything written through one accessor, buffered or not, is seen through every later accessor of the same file, and each accessor has the access mode that was asked for.",
     ["schedules", "histories"], "every interleaving and history of accessors over the files of a pool",
     "Needs conflicting accesses from several threads at the same moment, and histories that mix modes and descriptor types.",
     ["FilePool/FilePool/FileHandler.h", "FilePool/FilePool/_impl/FileHandler.icpp", "FilePool/FilePool/_impl/FileAccessor.icpp", "FilePool/src/lib/FileManager.cpp"],
     ["shared mutex per handler held by accessors", "handlers keyed by canonical path", "mode change closes idle descriptors"],
     dict(rule="threads mixing modes, path spellings and descriptor types with perturbed locks; distinct by order of entered sections / decision history",
          runs=[dict(harness="filepool1", cfg="asan", quick=60, thorough=2500),
                dict(harness="filepool1", cfg="tsan", quick=60, thorough=2500)],
          require=["write_sections", "overlapping_reads", "refused_try", "try_decisions", "blocked_acquisitions", "increments"]),
     technique=ASAN_TSAN, note="occupancy counters and plain per-file payload observed inside every accessor section; increments through real files compared at the end")

prop("C04", "File pool honours its open-file limit, evicts least recently used, never leaks",
     "The pool never has more descriptors open than its limit, from however many threads; to open another it closes the least recently used idle one, never one that is in use, closes none while below the limit, reuses idle ones, and refuses with an exception only when all are in use. Every descriptor opened is closed exactly once (on mode change, eviction, or when handler or manager go away), the reported usage equals what is open, and no history of requests deadlocks. While anybody holds the handler of a file everybody else gets the same one.",
     ["schedules", "histories", "fault_sequences"], "every history and interleaving of accessors, handlers, failing opens and close requests, every limit",
     "Limits, evictions and deadlocks depend on long histories over several files and on races between threads at the limit.",
     ["FilePool/src/lib/LRUFileManager.cpp", "FilePool/src/lib/FileManager.cpp", "FilePool/FilePool/_impl/FileManager.icpp", "FilePool/FilePool/_impl/FileHandler.icpp"],
     ["least-recently-used list", "close request callbacks", "handler registry of weak pointers"],
     dict(rule="random histories over 1-8 files, limits 1-6, 1-3 descriptor types, checked against a ledger of all opens/closes and an LRU model; concurrent stress; distinct by history / event order",
          runs=[dict(harness="filepool2", cfg="asan", quick=50, thorough=2500),
                dict(harness="filepool2", cfg="tsan", quick=50, thorough=2500)],
          require=["evictions", "refusals_at_limit", "reuses", "stress_acquisitions", "failed_opens", "orphan_accessors", "shared_handlers"]),
     technique=ASAN_TSAN, note="descriptor type whose open/close trait is the monitor (ledger); model of LRU order for single-threaded histories, invariants under stress")

ASAN = "sanitizers (ASan+UBSan) plus a reference-model monitor comparing every observable after every step"

prop("C05", "NdArray elements, iterators, slices and attributes address the right cell",
     "Every element of an NdArray is found under its row-major position, however it is addressed: coordinates as a vector or as arguments, attribute names, or iterators in any arithmetic; coordinates outside the shape, of the wrong number, or unknown attribute names are refused with an exception. A slice (first axis) or rslice (last axis), of any array or of another slice, shows exactly the selected elements, shares them with the array it was taken from in both directions, and stays usable after that array is gone.",
     ["inputs", "histories"], "every shape, every chain of slices, every coordinate in and out of range",
     "Addressing goes through strides and offsets that differ for each shape and chain of views; tests use a few fixed ones.",
     ["NdArray/NdArray/NdArray.h", "NdArray/NdArray/_impl/NdArray.icpp"],
     ["strides and offset of views", "iterator over a strided view", "attribute names as last axis"],
     dict(rule="random shapes (1-5 axes, also empty), element types, containers, chains of slices, writes; compared cell by cell with index lists over shared buffers; distinct by history",
          runs=[dict(harness="ndarray5", cfg="asan", quick=2000, thorough=60000)],
          require=["elements_compared", "views", "nested_views", "bad_coordinates", "views_outliving"]),
     technique=ASAN, note="model: explicit list of buffer positions for every array and view")

prop("C06", "NdArray copies, sharing, reshape, concatenation and comparison are faithful",
     "copy() gives an independent array of the same shape, names and elements; copy construction and assignment share the elements. reshape keeps the elements in order and is refused, without effect, when the number of elements differs or the array has attribute names. concatenate appends the rows of the other array, leaving arrays and views that shared the data readable with their own contents, and is refused when the shapes do not match. Two arrays are equal exactly when shape and elements are. This holds for any sequence of these operations on arrays and views.",
     ["inputs", "histories"], "every sequence of copies, views, reshapes, concatenations and writes over any shapes",
     "The interplay of shared storage, views and resizing only shows in sequences of operations.",
     ["NdArray/NdArray/NdArray.h", "NdArray/NdArray/_impl/NdArray.icpp"],
     ["shared container", "update_strides", "container resize"],
     dict(rule="random operation sequences over a pool of arrays and views, all of them compared with the model after every step; distinct by history",
          runs=[dict(harness="ndarray6", cfg="asan", quick=3000, thorough=100000)],
          require=["elements_compared", "reshapes", "concatenations", "deep_copies", "shared_copies", "huge_reshapes"]),
     technique=ASAN, note="model: explicit list of buffer positions for every array and view")

prop("C07", "NdArray sums, integrals and extremes equal their definition",
     "sum of an array is the sum of its elements; sum and trapz along an axis (counted from either end) return an array without that axis (one element when it was the only one) whose every cell is the sum, or the trapezoidal integral over the given knots, of the cells along that axis. argmax and argmin return the coordinates of a largest / smallest element. unravel_index inverts the row-major order. Invalid axes, indices and knot counts, and extremes of empty arrays, are refused with an exception. The same holds for views, and the input is never changed.",
     ["inputs"], "every shape, axis, view and content", "Tests check one or two shapes; axis arithmetic differs for each axis and each layout.",
     ["NdArray/NdArray/Operations.h", "NdArray/NdArray/_impl/Operations.icpp", "NdArray/src/Operations.cpp"],
     ["sum / trapz along an axis", "unravel_index"],
     dict(rule="random arrays and views of 1-4 axes, all axes, knots with repeats; direct loops as reference; distinct by shape and contents",
          runs=[dict(harness="ndops7", cfg="asan", quick=5000, thorough=200000)],
          require=["axis_sums", "axis_integrals", "extremes", "unravelled", "views", "empty_arrays"],
          assumptions=["values are chosen so that sums are exact"]),
     technique=ASAN, note="reference: direct loops over the row-major list of elements")

prop("C08", "npy files: lossless both ways, numpy-compatible, malformed input refused",
     "An array of any numeric type, shape and attribute names written to a npy stream or file is a valid npy file describing exactly that array (numpy loads the same), and reading it, or a file of format version 1 to 3 written by numpy, gives back the same shape, names and bit-identical elements, also for views and for several arrays in one stream. Mapping a file shows the same; changes through a writable mapping, including growing it by concatenation, are in the file afterwards, private ones are not. Files of another type, order or byte order, truncated anywhere or with damaged headers are refused with an exception, never read past their end.",
     ["inputs", "fault_sequences"], "every array, every foreign file, every truncation point and header damage",
     "Formats are decided by corner cases (types, names, versions, padding, truncation) that fixed test files do not have.",
     ["NdArray/NdArray/io/Npy.h", "NdArray/NdArray/io/NpyMmap.h", "NdArray/NdArray/io/_impl/NpyCommon.h", "NdArray/NdArray/io/_impl/NpyReader.icpp", "NdArray/NdArray/io/_impl/NpyWriter.icpp", "NdArray/NdArray/io/_impl/NpyMmap.icpp"],
     ["header writer and parser", "memory mapped container"],
     dict(rule="random arrays of all 10 types with random bit patterns; independent encoder/decoder of the format and numpy as oracles; truncations and header damage; distinct by contents",
          runs=[dict(harness="npy8", cfg="asan", quick=500, thorough=20000)],
          require=["elements_compared", "foreign_files", "mapped_files", "mapped_growths", "refused_growths", "truncations", "damaged_refused", "views_written", "wrong_types", "named"],
          assumptions=["attribute names contain no quotes or closing brackets", "the length fields of the header are not damaged (they only decide how much memory is requested)", "growing keeps the length of the header (documented)"]),
     technique=ASAN, note="oracle: independent npy encoder/decoder, numpy itself every 25th round")
prop("C09", "KdTree queries return exactly the points inside the sphere",
     "findPointsWithinRadius of a KdTree over any set of points, in any number of dimensions and with duplicated or aligned points, returns exactly the points whose Euclidean distance to the query position is smaller than the radius: each of them once, with its contents, and no other. This depends neither on the leaf size nor on the order in which the points were given, and querying does not change the tree.",
     ["inputs"], "every set of points, leaf size, query position and radius",
     "Pruning of tree branches is right or wrong depending on where points, splits and query fall; tests query a few spots of one tree.",
     ["KdTree/KdTree/KdTree.h", "KdTree/KdTree/_impl/KdTree.icpp"],
     ["split at the median of an axis", "pruning of branches by distance to the split value"],
     dict(rule="random clouds (grid points with ties, clusters, duplicates, collinear), 1-5 dimensions, leaf sizes 1-100, radii touching points exactly; brute force as reference; distinct by contents",
          runs=[dict(harness="kdtree", cfg="asan", quick=600, thorough=60000)],
          require=["queries", "points_found", "partial_answers", "split_trees", "border_points"],
          assumptions=["finite coordinates"]),
     technique=ASAN, note="oracle: brute force over all points, identities compared")

prop("C10", "GridContainer cells, slices and iterators agree with the axes",
     "Every cell of a GridContainer is found under the knots of its axes: by indices, through iterators (which visit each cell once, first axis fastest, and report the right axis indices and values), or through iterators fixed on axis indices or values, which visit exactly the cells with them. Slices by index or value have the right axes and size, share exactly the cells selected, may be sliced again, and live on after the parent; unknown values and out of range indices are refused. Copied and assigned iterators go on from the same cell. Axes are equal exactly when their sizes and knots are. infimum finds on every axis the last knot not above the given coordinate (the first one when all are). Tables made from grids list every cell with its knots.",
     ["inputs", "histories"], "every set of axes, chain of slices and iterator history",
     "Index arithmetic changes with the number of axes and each chain of slices; the tests use one grid shape.",
     ["GridContainer/GridContainer/GridContainer.h", "GridContainer/GridContainer/_impl/GridContainer.icpp", "GridContainer/GridContainer/_impl/GridIterator.icpp", "GridContainer/GridContainer/_impl/GridIndexHelper.icpp", "GridContainer/GridContainer/GridContainerToTable.h", "GridContainer/GridContainer/GridAxis.h", "GridContainer/GridContainer/_impl/GridAxis.icpp"],
     ["axis index factors", "slices fix indices of the original grid", "iterator axis filter"],
     dict(rule="random grids of 1-4 axes of several knot types, chains of slices, iterator programs; reference is an explicit map from indices to cell; distinct by shape and contents",
          runs=[dict(harness="grid10", cfg="asan", quick=1000, thorough=60000)],
          require=["cells_compared", "cells_iterated", "bad_indices", "infima", "iterator_fixes", "slices", "nested_slices", "const_slices", "refused_slices", "slices_outliving", "tables", "named_tables"]),
     technique=ASAN, note="model: map from axis indices to cell number for every grid and slice")

prop("C11", "GridContainer export and import give the same grid",
     "A GridContainer, or a slice of one, exported to a stream and imported again has the same axes (names and knots, in order) and bit-identical cells, for every supported cell and knot type, default constructible or not, for binary and text archives, and for several grids stored in one archive. Importing a truncated stream throws and never returns a partial grid.",
     ["inputs", "fault_sequences"], "every grid, slice and truncation point",
     "Tests round-trip single small grids; empty axes, slices, extreme values and several grids in one archive behave differently.",
     ["GridContainer/GridContainer/serialize.h", "GridContainer/GridContainer/serialization/GridContainer.h", "GridContainer/GridContainer/serialization/GridAxis.h", "GridContainer/GridContainer/serialization/tuple.h"],
     ["boost serialization of grids by pointer", "axes tuple as construction data"],
     dict(rule="random grids and slices of 4 kinds, every kind exported, imported, compared; truncations at random points; distinct by contents",
          runs=[dict(harness="grid11", cfg="asan", quick=600, thorough=30000)],
          require=["cells_compared", "truncations", "slices_exported", "shared_archives"]),
     technique=ASAN, note="compared cell by cell and knot by knot with what was exported")

prop("C12", "Histogram counts every value once; clip and statistics follow the bins",
     "A histogram with automatic binning (Sqrt, Scott) of any floating point data counts every value (its weight) in exactly one bin, the one whose edges contain it, so that the counts add up to the total weight; also for identical values and values at the ends of the range. With given edges each bin counts the values in [edge i, edge i+1), the last one including its end, and values outside are ignored. Clipping keeps exactly the bins from the one containing the lower to the one containing the upper limit, and refuses lower > upper. Mean and standard deviation are those of the counts at the bin centres, and the median is where the counts, spread evenly over their bins, balance; after clipping too. Copies are independent.",
     ["inputs"], "every data set, weights, binning and sequence of clips",
     "Rounding at the edges and degenerate data decide whether values are lost; tests use 8 well separated numbers.",
     ["Histogram/Histogram/Histogram.h", "Histogram/Histogram/_impl/ComputationImpl.icpp", "Histogram/Histogram/Binning/EdgeVector.h", "Histogram/Histogram/Binning/Sqrt.h", "Histogram/Histogram/Binning/Scott.h"],
     ["bin index of a value", "clip limits", "median by summing from both ends"],
     dict(rule="random data (ties, identical, decimal steps, adjacent floats, long tails), weights, edges and clips; exact recount as reference, at computed edges up to rounding; distinct by counts",
          runs=[dict(harness="histogram", cfg="asan", quick=15000, thorough=60000)],
          require=["automatic_histograms", "edge_histograms", "clips", "statistics", "constant_data", "values_counted"],
          assumptions=["finite values", "clip limits overlap the range of the histogram"]),
     technique=ASAN, note="oracle: recount of all values against the reported edges, definition of the moments in long double")

prop("C13", "Functions: values, clones, products and integrals follow their definition",
     "A Polynomial has the value of its coefficients, and its derivative and antiderivative are the analytical ones. A Piecewise has at every position the value of the piece there and is zero outside its knots (a clone behaves the same after the original is gone). multiply of any two functions (polynomials, piecewise, adapters, products of these), in either order and whether their ranges overlap, touch or are disjoint, has at every position (single knots aside) the product of their values. integrate over any limits is the exact integral for polynomials, piecewise polynomials and products of them, additive and antisymmetric, zero for empty ranges; functions that cannot be integrated use the given numerical scheme or are refused. Knots that decrease or do not match the number of functions are refused.",
     ["inputs"], "every function built from polynomials, pieces, adapters and products, every position and limits",
     "How knots of two functions interleave decides which pieces are multiplied and integrated; the tests use one arrangement.",
     ["MathUtils/src/lib/function/Piecewise.cpp", "MathUtils/src/lib/function/Polynomial.cpp", "MathUtils/src/lib/function/multiplication.cpp", "MathUtils/src/lib/function/function_tools.cpp"],
     ["knots shared by two piecewise functions|MathUtils/src/lib/function/multiplication.cpp", "piece found by binary search", "integral summed over pieces"],
     dict(rule="random polynomials, adapters and piecewise functions with coinciding, repeated, disjoint and touching knots, products of two and three; long double reference; distinct by knots and coefficients",
          runs=[dict(harness="functions", cfg="asan", quick=3000, thorough=100000)],
          require=["polynomials", "adapters", "piecewise", "evaluations", "integrals", "products", "piecewise_products", "disjoint_products", "touching_products", "derivatives", "refusals"],
          assumptions=["finite coefficients", "products are not compared at single repeated knots"]),
     technique=ASAN, note="oracle: pieces with long double coefficients, tolerance from the size of the terms")
prop("C14", "Interpolations pass through their points and follow their definition",
     "interpolate returns for LINEAR the polygon through the points and for CUBIC_SPLINE the natural cubic spline through them; outside the points it is zero, or with extrapolation continues the first and last piece; duplicated points count once, steps are kept by LINEAR (finite values between both ends, finite integrals) and refused by CUBIC_SPLINE, a single point is a value at that point (a constant with extrapolation). simple_interpolation gives the same as LINEAR. InterpN and interpn give the multilinear interpolation of the grid values with each axis where documented; on discrete axes the value of the knot, zero for unknown ones. No points, sizes that do not match, decreasing or unsorted knots are refused with an exception.",
     ["inputs"], "every set of points or grid and every position, inside, outside or on a knot",
     "Coefficients are computed from neighbouring knots, with special cases at the ends; tests use evenly spaced examples.",
     ["MathUtils/src/lib/interpolation/interpolation.cpp", "MathUtils/src/lib/interpolation/linear.cpp", "MathUtils/src/lib/interpolation/spline.cpp", "MathUtils/MathUtils/interpolation/GridInterpolation.h", "MathUtils/MathUtils/interpolation/_impl/GridInterpolation.icpp", "MathUtils/MathUtils/interpolation/_impl/interpolation.icpp"],
     ["duplicates removed, order checked", "coefficients of each piece", "recursion over the axes of the grid|MathUtils/MathUtils/interpolation/_impl/GridInterpolation.icpp"],
     dict(rule="random points (1-12, uneven, duplicated, steps) and grids of 1-4 continuous and discrete axes, positions inside, outside and on knots; long double references; distinct by points",
          runs=[dict(harness="interp", cfg="asan", quick=3000, thorough=100000)],
          require=["datasets", "duplicates", "steps", "extrapolated", "outside", "inside", "integrals", "linear_values", "spline_values", "simple_values", "nd_values", "nd_extrapolated", "nd_missing", "nd_outside", "nd_inside", "refusals", "nd_refusals"],
          assumptions=["finite points; extrapolation next to a step at an end is only required to be finite"]),
     technique=ASAN, note="oracle: polygon, tridiagonal natural spline and multilinear reference in long double, tolerance from the size of the terms")
prop("C15", "Numerical integration, differentiation and solver reach their accuracy",
     "SimpsonsRule is exact for polynomials up to degree 3 at every order, evaluates the function only inside the range, and refining the result of one order gives the same as computing the next one directly; orders below its minimum are refused. AdaptativeIntegration always ends and for smooth functions differs from the integral by not more than the relative precision asked for, starting at the requested order. The finite differences approximate first and second derivative up to the error of their step, at any position. solveSquare returns the roots of any quadratic or linear equation, NaN when there are none and refuses equations without unknown.",
     ["inputs"], "every function, range, precision and order, every equation",
     "Weights and step sizes only matter together; a wrong weight is hidden by the tolerance of the few tested integrals.",
     ["MathUtils/src/lib/numericalIntegration/SimpsonsRule.cpp", "MathUtils/MathUtils/numericalIntegration/AdaptativeIntegration.h", "MathUtils/MathUtils/numericalIntegration/_impl/AdaptativeIntegration.icpp", "MathUtils/src/lib/numericalDifferentiation/FiniteDifference.cpp", "MathUtils/src/lib/helpers/Solvers.cpp"],
     ["weights of the quadrature", "doubling until the change is small|MathUtils/MathUtils/numericalIntegration/_impl/AdaptativeIntegration.icpp", "representable step|MathUtils/src/lib/numericalDifferentiation/FiniteDifference.cpp"],
     dict(rule="random polynomials and smooth functions with known antiderivative, ranges in both directions, orders, precisions, equations; long double references; distinct by function and result",
          runs=[dict(harness="numeric", cfg="asan", quick=3000, thorough=100000)],
          require=["simpson_exact", "refinements", "refusals", "adaptive", "vanishing", "derivatives", "two_roots", "no_root", "linear_equations", "unsolvable"]),
     technique=ASAN, note="oracle: analytical integrals and derivatives in long double, tolerance from the theoretical error")

prop("C16", "Cumulative quantiles, intervals and PDF modes follow their definition",
     "findValue of a Cumulative returns the first sample reaching the ratio (begin, middle or end of its plateau), from whichever constructor and also when normalized or copied; findMinInterval returns samples holding at least the rate and no other samples that do are closer together; findCenteredInterval the quantiles (1-r)/2 and (1+r)/2; ratios out of range are refused. Mode extraction returns at most the requested number of modes, from the highest or with the biggest area first: each is the highest sample left with its neighbours until the PDF, below (1 - merge ratio) of the peak, no longer decreases, with their area, mean position and the top of the parabola at the peak; together the modes hold each sample once, and the PDF given is not changed. PDFs with too few samples are refused, never read past their end.",
     ["inputs"], "every sampling, PDF, ratio and merge ratio",
     "Plateaus, borders and ties decide which sample is taken; the tests use one regular sampling.",
     ["MathUtils/src/lib/PDF/Cumulative.cpp", "MathUtils/src/lib/PDF/PdfModeExtraction.cpp"],
     ["scan for the minimal interval", "peak delimited from the highest sample outwards|MathUtils/src/lib/PDF/PdfModeExtraction.cpp"],
     dict(rule="random samplings (uneven), PDFs (smooth, noisy, zeros, peaks at the border), ratios at and between samples; brute force over all pairs of samples and an independent mode search; distinct by PDF",
          runs=[dict(harness="pdf", cfg="asan", quick=3000, thorough=100000)],
          require=["quantiles", "trays", "normalized", "minimal_intervals", "refusals", "highest_modes", "biggest_modes", "border_peaks", "exhausted", "some_modes", "interpolated", "degenerate", "flat_parts"],
          assumptions=["non-negative PDFs", "the PDF has at most three times the requested number of modes, plus one, when the biggest are asked for (the search is documented in the code to end there)"]),
     technique=ASAN, note="oracle: brute force over samples and pairs, independent mode search in long double")

prop("C17", "Inverse cumulative and NdSampler draw from the given distribution",
     "InverseCumulative returns for every probability the position where the cumulative of the linearly interpolated PDF reaches it, inside the knots and growing with the probability, wherever the knots are; for discrete knots the one whose share contains the probability, never one without probability. NdSampler draws, for continuous and discrete axes in any combination, samples inside the grid that follow the (multilinear) distribution jointly, reproducible from the generator, and the same when built from a grid container, also one with vectors as cells. Sizes that do not match, unsorted knots, empty PDFs and probabilities out of range are refused.",
     ["inputs"], "every PDF and grid, every probability and generator state",
     "A sampler test sees whether means look right; a shifted segment or a wrong marginal needs a comparison of the joint distribution over many shapes.",
     ["MathUtils/MathUtils/helpers/InverseCumulative.h", "MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp", "MathUtils/MathUtils/PDF/NdSampler.h", "MathUtils/MathUtils/PDF/_impl/NdSampler.icpp", "MathUtils/MathUtils/PDF/NdSamplerFromGrid.h"],
     ["quadratic segment of the cumulative|MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp", "marginals and conditionals by axis|MathUtils/MathUtils/PDF/_impl/NdSampler.icpp"],
     dict(rule="random PDFs with zeros, plateaus, steps and large offsets; the forward cumulative as oracle; grids of 1-3 axes, fractions of draws in random boxes against the exact probability (6.5 sigma); distinct by PDF",
          runs=[dict(harness="sampler", cfg="asan", quick=300, thorough=8000)],
          require=["quantiles", "far", "near", "without_probability", "discrete_quantiles", "refusals", "fractions", "joint_fractions", "grid_samplers"],
          assumptions=["non-negative finite PDFs"]),
     technique=ASAN, note="oracle: forward cumulative in long double; exact box probabilities of the multilinear distribution")
prop("C18", "Tables keep their structure, and survive being written and read as text",
     "A Table, Row and ColumnInfo give back exactly the names, types, units, descriptions and cells they were made of, by index and by name, and refuse what is inconsistent: duplicate or empty names, line breaks in names, cells of another type or number, rows with other columns, empty tables, positions and names out of range. A table written as ASCII (to a stream or file, whole or in parts, with or without column info and comments, with any comment indicator) is read back by the reader with the same columns (names, types, units, descriptions) and cells, strings with spaces and quotes included; floating point cells to at least the six digits written. Comments are written and read back. Vector cells of any length are written without accessing anything outside of them.",
     ["inputs", "histories"], "every set of columns, cells, comments and way to split the writing",
     "Quoting, units and comments interact with the parser of the reader; the tests read and write separate fixed texts and never one through the other.",
     ["Table/src/lib/AsciiWriter.cpp", "Table/src/lib/AsciiWriterHelper.cpp", "Table/src/lib/AsciiReader.cpp", "Table/src/lib/AsciiReaderHelper.cpp", "Table/src/lib/ColumnInfo.cpp", "Table/src/lib/ColumnDescription.cpp", "Table/src/lib/Row.cpp", "Table/src/lib/Table.cpp"],
     ["quoted strings", "column descriptions as comments|Table/src/lib/AsciiReaderHelper.cpp", "types of cells checked against the columns|Table/src/lib/Row.cpp"],
     dict(rule="random columns of all 15 types, names and strings with spaces, quotes and UTF-8, units with spaces and parentheses, random cells including extremes, infinities and NaN; every table is written and read back; distinct by text",
          runs=[dict(harness="table18", cfg="asan", quick=3000, thorough=100000)],
          require=["structures", "bad_strings", "mixed_columns", "cells", "files", "renamed", "comments", "with_column_info", "without_column_info", "quoted_names", "empty_vectors"],
          assumptions=["names, units, descriptions and strings do not contain the comment indicator", "vectors that are read back are not empty", "words of descriptions are separated by single blanks"]),
     technique=ASAN, note="oracle: the table that was written, compared cell by cell with the one read")
prop("C19", "ASCII tables are read row by row, completely, and malformed ones refused",
     "For any valid ASCII table (comments and empty lines anywhere, any white space, names in a comment, described in comments or absent, quoted strings) every sequence of read(n), skip(n), hasMoreRows, rowsLeft, getInfo and getComment calls delivers each row once and in order, agrees on how many rows are left, and reading past the end is refused; the position and the state of the stream when the reader is made do not matter (streams beyond 2 GB, streams that throw). Fixed names and types take the place of the detected ones. Rows with another number of cells, or cells not of the type of their column, are refused; so are options given late or that do not fit. Whatever bytes a stream has, the reader returns rows of the announced types or throws, and never accesses memory outside of them.",
     ["inputs", "histories"], "every text, options and sequence of reader calls",
     "The look ahead for names, types and rows restores the stream each time; tests call one method on a fresh reader with short valid texts.",
     ["Table/src/lib/AsciiReader.cpp", "Table/src/lib/AsciiReaderHelper.cpp", "Table/src/lib/TableReader.cpp", "Table/Table/TableReader.h"],
     ["stream position restored after look ahead|Table/src/lib/AsciiReaderHelper.h", "column names from the last comment|Table/src/lib/AsciiReaderHelper.cpp", "shape of array cells|Table/src/lib/AsciiReaderHelper.cpp"],
     dict(rule="texts generated with their expected contents; random programs of reader calls against a model with a cursor; texts damaged by truncation, insertion, random bytes and shapes; stream buffers with offsets beyond 2 GB; distinct by text",
          runs=[dict(harness="table19", cfg="asan", quick=3000, thorough=100000)],
          require=["cells", "reads", "skips", "exhausted", "infos", "far_streams", "throwing_streams", "described_and_named", "described_only", "partly_described", "types_replaced", "names_replaced", "unnamed", "damaged_refused", "damaged_read", "bad_rows", "options"],
          assumptions=["seekable streams", "read(0) and negative skips are not specified"]),
     technique=ASAN, note="oracle: generated table with a cursor; damaged texts: consistency of what is returned and sanitizers")
prop("C20", "Casts of table cells are exact or refused",
     "CastVisitor returns for every cell the same value in the requested type when that type can hold all values of the type of the cell (bool, 32 and 64 bit integers, float, double, and vectors of these, a scalar becoming a vector of one element), and the number a text denotes for cells with text, lists of numbers becoming vectors; every other cell, text that does not start with a number, and numbers out of the range of the requested type are refused with an exception and never give another value. As text, integers are given exactly and floating point numbers to six digits. Arrays are only given as what they are.",
     ["inputs"], "every cell of every type and every requested type",
     "There are 15 x 11 combinations, each with limits of its range; the tests check a value or two of each.",
     ["Table/Table/CastVisitor.h"],
     ["integer parsing limits", "element wise casts of vectors"],
     dict(rule="random cells of all types, numerals at and beyond the limits of each type, junk and lists of numerals for every requested type; distinct by cell and type",
          runs=[dict(harness="table20", cfg="asan", quick=20000, thorough=1000000)],
          require=["scalar_casts", "refused_casts", "vector_casts", "string_casts", "overflows", "list_casts", "texts", "same_type", "other_types"],
          assumptions=["text after the number is not specified", "numbers too small for the type may become (nearly) zero or be refused"]),
     technique=ASAN, note="oracle: C++ value conversions between types that can hold the values; standard library parsers for text")
prop("C21", "Qualified names identify datasets: parsing, order, hash, groups and archives",
     "A qualified name has exactly the groups and name it was made of, from parts or from text, and the same text gives an equal name; names are equal, and have the same hash and neither is less, exactly when their texts are the same, so they work as keys of ordered and unordered containers; the alphabetical comparator orders them by text. belongsInGroup holds exactly when the group, with its own groups, leads the groups of the name. All that holds for copies, moved and assigned names and names read back from an archive, used before or not. Empty parts and parts with a slash are refused.",
     ["inputs", "histories"], "every name, and copies of names in any state",
     "The hash is a cached member that travels with copies; tests compare two or three literal names.",
     ["XYDataset/src/lib/QualifiedName.cpp", "XYDataset/XYDataset/QualifiedName.h", "XYDataset/XYDataset/serialize.h"],
     ["hash based comparisons", "prefix of groups compared"],
     dict(rule="random sets of names sharing parts, compared pairwise and in triples with their texts, as keys, copied, moved, assigned and archived; distinct by the set",
          runs=[dict(harness="names21", cfg="asan", quick=10000, thorough=400000)],
          require=["copies", "in_group", "not_in_group", "keys", "invalid_names", "archived"]),
     technique=ASAN, note="oracle: the texts of the names")
prop("C22", "Dataset providers list and deliver exactly the datasets below their root",
     "AsciiParser recognises the files with two columns of numbers (comments, empty lines, any line ends, with or without a last newline, whatever words the comments have), and gives their name (the NAME parameter, else the match in the first non-empty line, else the file name without extension), their parameters (several values joined with ;) and the exact pairs of numbers. FileSystemProvider lists, for the root and for every group (with or without slashes around), exactly the datasets in it and below it, those in order.txt first and in that order (each at its first mention; what is not an entry of the directory is ignored), then the others sorted; datasets and parameters are those of their file, unknown names give none, and two datasets with one name, missing roots and files as root are refused. CachedProvider answers the same, asking its provider once for each list and dataset; the datasets it returns are independent. XYDataset keeps the pairs it was made of.",
     ["inputs", "configurations"], "every directory tree, order file and file contents, and sequence of requests",
     "Tests use one tree with fixed files that all end in newlines and have no odd comments.",
     ["XYDataset/src/lib/FileSystemProvider.cpp", "XYDataset/src/lib/AsciiParser.cpp", "XYDataset/src/lib/CachedProvider.cpp", "XYDataset/src/lib/StringFunctions.cpp", "XYDataset/src/lib/XYDataset.cpp"],
     ["order.txt followed by the remaining files|XYDataset/src/lib/FileSystemProvider.cpp", "first data line decides|XYDataset/src/lib/AsciiParser.cpp", "cache by group and by name|XYDataset/src/lib/CachedProvider.cpp"],
     dict(rule="random trees (up to 4 levels) of generated dataset files and other files, order files with unknown names, in a scratch directory; the generated contents are the model; distinct by tree and contents",
          runs=[dict(harness="datasets22", cfg="asan", quick=600, thorough=20000)],
          require=["lists", "groups", "datasets", "parameters", "cached", "direct", "duplicates", "ordered_names", "not_datasets", "named_first_line", "named_parameter", "no_last_newline", "parsed", "own_expression", "made"],
          assumptions=["names in order.txt are entries of its directory, each given once", "the tree does not change while it is used"]),
     technique=ASAN, note="oracle: the generated tree with the expected names, order, pairs and parameters")
prop("C23", "Source catalogs hold each source once, with the photometry of its row",
     "A catalog made from a table has one source per row, in order and findable by its identifier (integers and text are never confused), with the attributes of its own row whatever the order and type of the columns: redshift and error, PDF, the row itself, and for every band, under its name, the flux and error of its columns. A band is missing (error 0) when missing photometry is enabled and the flux is its flag or NaN; it is an upper limit, with positive error (flux over threshold of that band when flagged), when upper limits are enabled and the error is negative; bands given as magnitudes are converted to fluxes in microjansky with the sign of the error kept. Duplicate identifiers, identifiers of other types, unknown columns, PDFs of another size, infinite fluxes, errors that are zero or negative where they may not be, NaN without missing photometry and upper limits without a positive flux are refused.",
     ["inputs"], "every table, mapping, set of options and cell",
     "Which rule applies to a band depends on the combination of options, flags and values; and positions of bands, thresholds and columns are matched by parallel iteration.",
     ["SourceCatalog/src/lib/PhotometryAttributeFromRow.cpp", "SourceCatalog/src/lib/CatalogFromTable.cpp", "SourceCatalog/src/lib/Catalog.cpp", "SourceCatalog/src/lib/Photometry.cpp", "SourceCatalog/src/lib/FluxErrorPair.cpp", "SourceCatalog/SourceCatalog/Source.h", "SourceCatalog/SourceCatalog/SourceAttributes/PdfFromRow.h", "SourceCatalog/SourceCatalog/SourceAttributes/SpectroscopicRedshiftAttributeFromRow.h"],
     ["thresholds and conversions iterated with the bands", "index from identifier to source|SourceCatalog/src/lib/Catalog.cpp"],
     dict(rule="random tables with columns in random order and of several types, mappings, options and flags, cells with flags, NaN, zero and negative values; independent statement of the rules; distinct by sources",
          runs=[dict(harness="catalog23", cfg="asan", quick=3000, thorough=100000)],
          require=["sources", "missing", "upper_limits", "fluxes", "magnitudes", "refused_photometry", "refusals", "pairs"],
          assumptions=["flags are given exactly", "errors are not NaN"]),
     technique=ASAN, note="oracle: the rules for flags restated per cell, and the generated rows")
prop("C24", "Configurations are initialized once, after everything they depend on",
     "Registering a configuration registers all the ones it declares as dependencies, recursively, each constructed once per manager however often and in whatever order they are asked for; managers of different identifiers do not influence each other. Closing the registration reports circular dependencies (declared by the configurations or registered separately, direct or long, met from inside or outside of the cycle) and only those, ignores dependencies on configurations which are not registered, and gives exactly the options of the registered configurations under their groups. Initialization passes the values of the user to every configuration in three separate phases, each configuration once per phase, initialize() only after that of all its dependencies; failures of a configuration (or of its constructor) reach the caller. Registration after closing and access before the initialization or to a configuration that is not registered are refused. Wildcard options give exactly the instances the user named.",
     ["inputs", "configurations", "histories"], "every dependency graph, order of registration, set of managers and point of failure",
     "Tests use one fixed graph of a few configurations and a cycle of the simplest kind; the order depends on addresses of type information.",
     ["Configuration/src/lib/ConfigManager.cpp", "Configuration/Configuration/_impl/ConfigManager.icpp", "Configuration/Configuration/_impl/Configuration.icpp", "Configuration/src/lib/Configuration.cpp", "Configuration/src/lib/ProgramOptionsHelper.cpp", "Configuration/src/lib/Utils.cpp"],
     ["recursive initialization over the dependency map", "search of cycles", "registration during construction|Configuration/Configuration/_impl/ConfigManager.icpp"],
     dict(rule="random graphs over nine configuration types (chains, dense, with cycles of 1 to 5), dependencies declared in constructors or registered, one to three managers interleaved, failing phases; the log of the callbacks is checked against the graph; distinct by graph and registrations",
          runs=[dict(harness="config24", cfg="asan", quick=3000, thorough=60000)],
          require=["callbacks", "ordered_pairs", "cycles", "failures", "initialized", "ignored_dependencies", "failed_constructors", "instances", "similar_options", "ids"],
          assumptions=["the clock does not go back between two identifiers of managers"]),
     technique=ASAN, note="oracle: the generated graph; every callback is logged and ordered against it")
prop("C25", "Catalog options and mapping files give exactly the catalog they describe",
     "For every catalog file, mapping file and set of options: the file is found relative to the base directory (or absolute), its format told by its first bytes whatever its size, the identifier, redshift and redshift error are those of the column given by name or one-based index; the bands are those of the mapping file in its order without any excluded one, each with its own columns, threshold (3 if not given) and conversion; the catalog, read at once or in pieces, has for every row a source with exactly the attributes that were configured, with missing photometry and upper limits according to the flags. Contradictory, out of range or unknown options, missing files, unknown excluded bands and malformed mapping lines are refused, and so is every access outside of its phase.",
     ["inputs", "configurations"], "every catalog, mapping and combination of options",
     "Each test sets one option on one small catalog; how options, files and the order of bands combine is not covered.",
     ["Configuration/src/lib/CatalogConfig.cpp", "Configuration/src/lib/PhotometricBandMappingConfig.cpp", "Configuration/src/lib/PhotometryCatalogConfig.cpp", "Configuration/src/lib/SpecZCatalogConfig.cpp", "Configuration/Configuration/PdfCatalogConfig.h"],
     ["format detection", "three parallel lists of bands|Configuration/src/lib/PhotometricBandMappingConfig.cpp", "handlers added during the initialization"],
     dict(rule="random catalogs and mapping files in a scratch directory with random valid options, or one mistake; the generated rows are the model; distinct by columns and options",
          runs=[dict(harness="catconf25", cfg="asan", quick=500, thorough=20000)],
          require=["catalogs", "refusals", "bands", "excluded", "repeated_bands", "redshifts", "missing", "limits", "magnitudes", "fluxes", "pieces", "fits_files", "fits_catalogs", "ascii_files"],
          assumptions=["FITS catalogs over the stand-in for CCfits, see C30"]),
     technique=ASAN, note="oracle: the generated catalog and mapping")
prop("C26", "Self organizing maps: nearest unit, training, projection, u-matrix and sampling",
     "A map has a vector per cell, each weight from its own call of the initial function. findBMU gives a cell of minimal distance and that distance, with or without uncertainties (refused when the distance does not support them). Projection adds each input once, in order, to the cell of its unit, over the initial value. Training moves, per iteration and per element the sampling policy visits, each cell towards the input by neighbourhood times learning factor of that iteration around the unit chosen at that moment, never outside of the range of inputs and initial weights; the disk is symmetric around the unit and shrinks linearly, the Kohonen factor is a cut Gaussian whose width shrinks exponentially. The u-matrix has the least, greatest or mean distance to the up to eight neighbours. FullSet visits each element once, Bootstrap one of them, Jackknife the given number of different ones, all of which can be drawn; nothing is visited when there is nothing. Archives and moves keep size and weights, another distance is refused.",
     ["inputs", "configurations"], "every map, set of inputs and uncertainties, factors and samples",
     "The tests train one 5x5 map and look at its serialization; the values of units, factors and neighbours are not checked.",
     ["SOM/SOM/_impl/SOM.icpp", "SOM/SOM/SOMTrainer.h", "SOM/SOM/SamplingPolicy.h", "SOM/src/lib/NeihbourhoodFunc.cpp", "SOM/src/lib/LearningRestraintFunc.cpp", "SOM/src/lib/InitFunc.cpp", "SOM/SOM/_impl/SOMProjector.icpp", "SOM/SOM/_impl/UMatrix.icpp", "SOM/SOM/Distance.h", "SOM/SOM/serialization/SOM.h", "SOM/SOM/serialize.h"],
     ["scan for the least distance", "weighted update|SOM/SOM/SOMTrainer.h", "unsigned coordinates|SOM/src/lib/NeihbourhoodFunc.cpp", "mutable sampling state|SOM/SOM/SamplingPolicy.h"],
     dict(rule="random maps (1 to 7 cells a side, 1 to 5 dimensions), inputs with ties and uncertainties, factors and scripted samples; independent models of units, update, factors and u-matrix; distinct by map and inputs",
          runs=[dict(harness="som26", cfg="asan", quick=4000, thorough=30000)],
          require=["bmu", "projected", "umatrix", "archived", "trained", "updates", "neighbourhood0", "neighbourhood1", "neighbourhood2", "inside", "outside", "weighted", "cut", "samples", "no_elements", "many_samples", "single_cell", "refusals", "distributions"],
          assumptions=["distances are finite", "the draws of the policies are checked for coverage, not for uniformity"]),
     technique=ASAN, note="oracle: models in long double; cases where two units are equally near are only checked for bounds")
prop("C27", "Cosmological distances agree with their defining integrals",
     "For every cosmology (flat, open, closed; with E(z) away from zero) and redshift: the densities add up to one; E(z), the Hubble distance in parsec and the comoving distance, as the integral of 1/E to the precision asked for (always to 2 percent, and to twice the precision in at least 199 of 200 cases, as the integration stops when two orders agree), are those of the definition; the transverse distance applies sinh, identity or sin according to the curvature, the luminosity distance is (1+z) times it, the modulus five times the logarithm of it in units of 10 pc, the volume element their combination; comoving distances grow with redshift; at redshift zero distances are zero, the luminosity distance 10 pc and the modulus 0.",
     ["inputs"], "every cosmology, redshift and precision",
     "The tests compare a handful of redshifts of one or two cosmologies with stored numbers.",
     ["PhysicsUtils/src/lib/CosmologicalDistances.cpp", "PhysicsUtils/src/lib/CosmologicalParameters.cpp"],
     ["adaptive integration of 1/E", "branch on the curvature"],
     dict(rule="random cosmologies of the three curvatures, redshifts 0 to 30, precisions 1e-3 to 1e-9; reference by Gauss-Legendre quadrature in long double; distinct by parameters and redshift",
          runs=[dict(harness="cosmology27", cfg="asan", quick=10000, thorough=200000)],
          require=["distances", "flat", "open", "closed", "moduli", "monotone", "origins", "precise"],
          assumptions=["E(z)^2 is at least 0.05 between 0 and z", "two successive orders of the integration agreeing by chance are tolerated in less than one of 50 cases"]),
     technique=ASAN, note="oracle: independent quadrature")
prop("C28", "Objects that are only read can be read by several threads at once",
     "Functions (polynomials with their derivatives and integrals, piecewise and interpolated functions, products), cumulative distributions, samplers with their own generator, arrays, grids, histograms, k-d trees, dataset names, datasets, tables, catalogs, photometries, maps, integration schemes and cosmologies, accessed through their const members by any number of threads right after they were made, give the same results as to a single thread, without data races.",
     ["schedules", "inputs"], "every schedule of concurrent const calls on shared objects",
     "Tests are single threaded; lazily computed members and shared caches are harmless there.",
     ["MathUtils/src/lib/function/Polynomial.cpp", "MathUtils/src/lib/function/Piecewise.cpp", "XYDataset/src/lib/QualifiedName.cpp", "KdTree/KdTree/_impl/KdTree.icpp", "NdArray/NdArray/NdArray.h", "SOM/SOM/_impl/SOM.icpp", "Table/src/lib/Table.cpp", "SourceCatalog/src/lib/Catalog.cpp"],
     ["lazy derivative and integral", "lazy hash|XYDataset/src/lib/QualifiedName.cpp"],
     dict(rule="2 to 5 threads run the same set of const operations on a freshly made object, in the same or different orders, under ThreadSanitizer; results compared with those on a twin; distinct by object and order",
          runs=[dict(harness="sharing28", cfg="tsan", quick=200, thorough=4000)],
          require=["operations", "threads", "shared.polynomial", "shared.interpolation", "shared.piecewise", "shared.grid", "shared.names", "shared.searches", "shared.numerics", "shared.catalogs", "shared.maps"]),
     technique="ThreadSanitizer over concurrent const access to shared objects, with results compared to those of a thread on its own")
prop("C29", "Kernel tools: texts to vectors, holders of instances or references, tuple tails",
     "stringToVector gives, in order, the parts of a text between runs of any of the separator characters (blank and comma unless given), surrounding blanks ignored, each converted as a whole, and refuses the text with an exception when a part is not a value of the type. A holder made from arguments owns the one instance (also of a derived type, also from arguments which can only be moved) and destroys it with itself; one made from a reference refers to that very object, copies nothing and destroys nothing; ref() is always the same object. The tail of a tuple has all elements but the first in their order, copied from a constant tuple which stays as it is, moved from a temporary.",
     ["inputs", "histories"], "every text, separators, order of creating and releasing holders, and tuple",
     "Tests convert one text and hold one object; lifetimes and odd texts are not covered.",
     ["AlexandriaKernel/AlexandriaKernel/StringUtils.h", "AlexandriaKernel/AlexandriaKernel/InstOrRefHolder.h", "AlexandriaKernel/AlexandriaKernel/_impl/InstOrRefHolder.icpp", "AlexandriaKernel/AlexandriaKernel/Tuples.h", "AlexandriaKernel/AlexandriaKernel/memory_tools.h"],
     ["split with compressed separators", "two kinds of holder behind one interface|AlexandriaKernel/AlexandriaKernel/_impl/InstOrRefHolder.icpp"],
     dict(rule="random texts of integers, reals and words with random runs of separators, one damaged part; random sequences of holders over types whose instances are all registered; distinct by text or sequence",
          runs=[dict(harness="kernel29", cfg="asan", quick=4000, thorough=200000)],
          require=["vectors", "elements", "refusals", "held", "references", "released", "tails"],
          assumptions=["no separator at the very start or end of a text (what an empty part means is not documented)"]),
     technique=ASAN, note="oracle: the generated parts, and a ledger of all instances constructed, copied, moved and destroyed")
prop("C30", "FITS tables, grids, maps and datasets are read as they were written",
     "A table written to a binary FITS table, in one piece or several, by one writer or by a later one that finds the HDU by its name, to a file or to an open FITS object, is read back with the same column names, units, descriptions, comments, types and cells (a vector or array of one element as a scalar), whichever way its HDU is designated and in whatever pieces it is read or skipped; in an ASCII FITS table integers and texts are exact and reals keep six decimals. The override flag removes what was in the file, without it other HDUs stay. Reading follows hasMoreRows and rowsLeft, and refuses to read past the end. Formats map to types as documented; formats without type, HDUs which are no tables, vectors of varying size, changed columns and late changes of settings are refused. Grids and self organizing maps exported to FITS are imported equal, several grids in one file independently; a map of another distance or dimension is refused. A dataset file is a file with a table as first extension, and gives its points, name and parameters.",
     ["inputs", "histories"], "every table, way to split its writing and reading, grid, map and dataset file",
     "The tests of the project write and read one small table per format, and do not run here as the FITS library is missing.",
     ["Table/src/lib/FitsWriter.cpp", "Table/src/lib/FitsWriterHelper.cpp", "Table/src/lib/FitsReader.cpp", "Table/src/lib/FitsReaderHelper.cpp", "XYDataset/src/lib/FitsParser.cpp", "GridContainer/GridContainer/_impl/FitsSerialize.icpp", "SOM/SOM/serialize.h", "Table/src/lib/TableWriter.cpp"],
     ["column formats and dimensions", "row position of the reader|Table/src/lib/FitsReader.cpp", "row position of the writer|Table/src/lib/FitsWriter.cpp"],
     dict(rule="random tables of all column types written in random pieces through one or more writers, read back through readers made in all three ways in random pieces; tables of other programs with all formats; grids of five types, maps, dataset files; distinct by columns, shapes and number of rows",
          runs=[dict(harness="fits30", cfg="asan", quick=1500, thorough=20000)],
          require=["tables_written", "tables_read", "rows_read", "rows_skipped", "refused_tables", "foreign_tables", "unsupported_formats", "datasets", "no_datasets", "grids", "maps"],
          assumptions=["CCfits is not installed: the code runs over a stand-in that keeps files in memory and passes the FITS tests of the project; what only cfitsio itself does (files on disk, keywords longer than a line) is out of reach",
                       "texts without trailing blanks (FITS does not keep them), and not wider than those of the first piece, which determines the width of the column"]),
     technique=ASAN, note="oracle: the tables, grids, maps and points which were generated")
NOT_APPLICABLE = []
SETUP_HARNESSES = ["threadpool1"]
prop("C31", "Threads that work on objects of their own do not disturb each other",
     "Whatever threads do at the same time with objects of their own, of the same kind or of different ones (reading and writing tables, arrays, grids and maps; building catalogs; parsing and listing datasets of the same files with separate providers; making, evaluating, integrating and multiplying functions; distributions, modes, histograms, k-d trees; training maps; cosmological distances; splitting texts; dataset names; thread pools; files opened through separate managers), each result is exactly the one the same work gives alone, and there is no data race: no state is hidden between objects that are not shared.",
     ["schedules", "inputs"], "every schedule of threads with separate objects",
     "Tests are single threaded; a static buffer, cache or parser state shared behind the interface is harmless there.",
     ["Table/src/lib/AsciiReader.cpp", "Table/src/lib/AsciiReaderHelper.cpp", "Table/src/lib/AsciiWriter.cpp", "NdArray/NdArray/io/NpyCommon.h", "XYDataset/src/lib/AsciiParser.cpp", "XYDataset/src/lib/FileSystemProvider.cpp", "MathUtils/src/lib/PDF/PdfModeExtraction.cpp", "SourceCatalog/src/lib/SourceAttributes/PhotometryAttributeFromRow.cpp", "SOM/src/lib/NeihbourhoodFunc.cpp", "AlexandriaKernel/AlexandriaKernel/StringUtils.h"],
     ["no hidden state between objects"],
     dict(rule="2 to 6 threads each do 2 to 8 pieces of work, all of one kind or mixed over eleven kinds, under ThreadSanitizer; every result compared with the same work done alone afterwards; distinct by kind and data",
          runs=[dict(harness="independent31", cfg="tsan", quick=800, thorough=20000)],
          require=["works", "threads", "alike", "work.tables", "work.catalogs", "work.arrays", "work.grids", "work.functions", "work.distributions", "work.maps", "work.texts", "work.datasets", "work.files", "work.pools"],
          assumptions=["configuration managers and their identifiers are made by one thread (their registry is not meant for several)"]),
     technique="ThreadSanitizer over threads with separate objects, with results compared to those of the work done alone")
prop("C32", "Whatever bytes a file has, reading it gives what they say or is refused",
     "For any sequence of bytes in a dataset file, a filter mapping file, an ASCII table, an npy file or a list of numbers: reading ends, with an exception or with the data the bytes denote, and never with anything read outside of them. A file is a dataset exactly when its first line with data has two numbers, and gives its points exactly when every such line has; parameters are those of its comments. A mapping file gives its bands exactly when every line is a comment or has three to five words, the fourth a threshold and the fifth a switch. Tables have rows of the announced number and types, as many as announced; arrays have as many elements as their shape says, and no more than the bytes hold.",
     ["inputs"], "every content of the files",
     "Tests read a handful of well formed files and one or two malformed ones.",
     ["XYDataset/src/lib/AsciiParser.cpp", "Configuration/src/lib/PhotometricBandMappingConfig.cpp", "Table/src/lib/AsciiReader.cpp", "Table/src/lib/AsciiReaderHelper.cpp", "NdArray/NdArray/io/NpyCommon.h", "NdArray/NdArray/io/Npy.h", "NdArray/NdArray/io/NpyMmap.h", "AlexandriaKernel/AlexandriaKernel/StringUtils.h"],
     ["two numbers on the first line with data", "words of a mapping line|Configuration/src/lib/PhotometricBandMappingConfig.cpp", "size of the header and the data|NdArray/NdArray/io/NpyCommon.h"],
     dict(rule="texts and npy files made from the grammar with odd numbers, blanks and line ends, then damaged (bytes inserted, changed, removed, repeated, long runs, truncation); read under AddressSanitizer and UndefinedBehaviorSanitizer and compared with an independent reading of the same bytes; distinct by content",
          runs=[dict(harness="bytes32", cfg="asan", quick=1200, thorough=40000)],
          require=["datasets_read", "datasets_refused", "points", "parameters", "listed", "mappings_read", "mappings_refused", "mapped_bands", "tables_read", "tables_refused", "rows", "cells", "arrays_read", "arrays_refused", "elements", "lists_read", "lists_refused"],
          assumptions=["empty lines of mapping files, and numbers followed by other characters in them, may be refused or accepted", "quotes in dataset files: only that reading ends", "archives of grids and maps are left to Boost, which does not promise to refuse damaged ones"]),
     technique=ASAN, note="oracle: an independent reading of the bytes")
prop("C33", "Work that fails in the middle leaks nothing and leaves the rest usable",
     "Whatever piece of work fails in the middle (an allocation of memory is refused, a thread cannot be started, or a function, distance, provider, parser, attribute or task given by the user throws), the exception that was thrown comes out, nothing that was allocated or started is left behind, the process goes on, and what was involved is usable: the same work done again gives what it would have given, arrays being extended or reshaped are as before or done, a cache neither keeps what it did not get nor forgets what it had, and a thread pool tells whoever waits.",
     ["crash_points", "inputs", "histories"], "every point at which memory, a thread or a callback may fail",
     "Tests run with enough memory and threads, and callbacks that succeed.",
     ["AlexandriaKernel/src/lib/ThreadPool.cpp", "AlexandriaKernel/AlexandriaKernel/ThreadPool.h", "Table/src/lib/AsciiReader.cpp", "Table/src/lib/AsciiWriter.cpp", "SourceCatalog/src/lib/CatalogFromTable.cpp", "XYDataset/src/lib/CachedProvider.cpp", "XYDataset/src/lib/FileSystemProvider.cpp", "MathUtils/src/lib/numericalIntegration/SimpsonsRule.cpp", "MathUtils/src/lib/function/function_tools.cpp", "NdArray/NdArray/NdArray.h", "SOM/SOM/SOMTrainer.h", "KdTree/KdTree/KdTree.h"],
     ["tasks taken out of the queue and their exceptions kept", "threads started by the constructor", "stored only once made|XYDataset/src/lib/CachedProvider.cpp"],
     dict(rule="pieces of work of ten kinds repeated with the n-th allocation refused, operations on living objects (arrays, maps, pools, functions, histograms, names) the same, works with user callbacks of which the n-th call throws, a cache over a provider that fails at times, pools of which a thread cannot be started, tasks of which a copy throws, and living objects (factories of catalogs, trainers, directories, caches, trees, grids of rows, samplers, functions) used again after such failures and compared with ones that never failed; under AddressSanitizer, counting the allocations and threads left; distinct by data and point of failure",
          runs=[dict(harness="faults33", cfg="asan", quick=300, thorough=20000)],
          require=["memory_thrown", "objects_thrown", "thrown.quadrature", "thrown.training", "thrown.trees", "thrown.attributes", "thrown.providers", "cached_thrown", "cached_answers", "pools_refused", "pools_started", "tasks_refused", "tasks_accepted", "work.tables", "work.catalogs", "work.arrays", "work.grids", "work.functions", "work.distributions", "work.maps", "work.texts", "work.datasets", "watched.concatenate", "watched.reshape", "watched.train", "watched.submit", "again.callback", "again.memory", "again.success", "kept.catalog_factory", "kept.trainer", "kept.directory", "kept.cache", "kept.tree", "kept.rows"],
          assumptions=["archives read with Boost are left out of the failures of memory, as Boost itself leaks then", "streams of the standard library may keep a failure of memory to themselves", "files opened through a pool are left out of the failures of memory"]),
     technique="fault injection (allocations, threads, callbacks) under AddressSanitizer, with counts of what is left and results compared")
prop("C34", "A file or stream that breaks is reported, never taken for a shorter one",
     "Whenever the stream or file being read or written breaks at any point (an error of the disk, a full disk, a name that cannot be opened), reading a table, an array, a dataset, a directory of datasets, the order of its files or a filter mapping gives either exactly what it gives when nothing breaks or an exception, never less or something else; writing a table, comments, an array or a grid leaves the whole file, or throws, or leaves the caller's stream in a failed state with the beginning of what would have been written; and once the trouble is over the same work succeeds.",
     ["crash_points", "inputs"], "every point at which a stream or file may break",
     "Tests read and write files that do not break; one that does looks exactly like a shorter file to whoever only asks whether there is another line.",
     ["Table/src/lib/AsciiReader.cpp", "Table/src/lib/AsciiReaderHelper.cpp", "Table/src/lib/AsciiReaderHelper.h", "Table/src/lib/AsciiWriter.cpp", "XYDataset/src/lib/AsciiParser.cpp", "XYDataset/src/lib/FileSystemProvider.cpp", "Configuration/src/lib/PhotometricBandMappingConfig.cpp", "NdArray/NdArray/io/Npy.h", "NdArray/NdArray/io/NpyCommon.h", "GridContainer/GridContainer/serialize.h"],
     ["state of the stream kept when rewound|Table/src/lib/AsciiReaderHelper.h", "lines read until there is none"],
     dict(rule="streams and files of tables, arrays, grids, datasets, directories and mappings, failing after a number of bytes (calls of read and write intercepted by file; streams with buffers of their own, with and without exceptions), and names that cannot be opened; what was read or written compared with the same without failures; distinct by content and point of failure",
          runs=[dict(harness="disk34", cfg="asan", quick=500, thorough=20000)],
          require=["writes_thrown", "writes_failed", "writes_whole", "reads_thrown", "reads_whole", "medium.tables", "medium.arrays", "medium.grids", "table_written.told", "comments_written.told", "array_written.told", "table_read.told", "array_read.told", "dataset_name.told", "dataset_parameter.told", "dataset_read.told", "dataset_seen.told", "order_read.told", "directory_read.told", "mapping_read.told"],
          assumptions=["files written through the FITS libraries are left to those", "a stream given by the caller whose state the caller can see may also just be left in a failed state"]),
     technique="fault injection into the streams and system calls under AddressSanitizer, with results compared to those without faults")


def generate():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    na = {x["property"] for x in NOT_APPLICABLE}
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
    checks = []
    for p in PROPS:
        if p["id"] in na:
            continue
        s = SPECS[p["id"]]
        checks.append(dict(property=p["id"],
                           quick_cmd="python3 tools/vp.py check %s --tier quick" % p["id"],
                           thorough_cmd="python3 tools/vp.py check %s --tier thorough" % p["id"],
                           technique=s["technique"], level=s.get("level", "exploration"), level_note=s["note"],
                           evidence_file="evidence/%s.json" % p["id"]))
    m = dict(version=1, setup_cmd="python3 tools/vp.py setup", checks=checks, not_applicable=NOT_APPLICABLE)
    with open(os.path.join(root, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    design(root)


def between(text, a, b, new):
    i, j = text.index(a) + len(a), text.index(b)
    return text[:i] + "\n" + new + text[j:]


def design(root):
    path = os.path.join(root, "DESIGN.md")
    text = open(path).read()
    out = []
    na = {x["property"]: x["reason"] for x in NOT_APPLICABLE}
    for p in PROPS:
        out.append("### %s %s\n" % (p["id"], p["title"]))
        if p["id"] in na:
            out.append("Not applicable: %s\n" % na[p["id"]])
            continue
        s = SPECS[p["id"]]
        out.append("* holds for: %s; tests cannot settle it: %s" % (p["quantifier"]["text"], p["why_tests_cant"]))
        out.append("* workload: %s" % s["rule"])
        out.append("* decided by: %s. %s" % (s["technique"], s["note"]))
        out.append("* runs: " + "; ".join("`%s` under %s, %d cases per unit of scenario weight (thorough %d)" % (r["harness"], r["cfg"], r["quick"], r["thorough"]) for r in s["runs"]))
        out.append("* must have been observed: " + ", ".join(s["require"]))
        if s.get("assumptions"):
            out.append("* assumptions: " + "; ".join(s["assumptions"]))
        out.append("")
    text = between(text, "<!-- properties -->", "<!-- end -->", "\n".join(out))
    with open(path, "w") as f:
        f.write(text)


if __name__ == "__main__":
    generate()
