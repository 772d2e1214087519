#!/usr/bin/env python3
"""Writes ../properties.jsonl (one property per line) from the readable form below."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())), why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=list(observe), hook_needed=hook)))


prop("C01", "SDS save/load round trip is lossless",
     """Any set of arrays written to an SDS file and read back yields the same arrays: the same bytes, dtype, shape,
     memory order, item names, per-item flags, order and metadata string. This holds for every element type and
     length (zero length, one to five dimensions, strided or misaligned inputs), with or without compression, at every
     compression level, and whatever the thread count. A read restricted to some items or to the header alone returns
     exactly the corresponding part of what the full read returns.""",
     ["inputs", "configurations"],
     "every list of arrays, names, flags and metadata; every compression mode, level and threading mode",
     "The repository's own SDS test only prints; no test compares data read back with data written, and the space of "
     "dtype x shape x stride x compression x threads is far beyond samples.",
     ["src/SDSFile.cpp", "src/SDSFile.h", "src/SDSFilePython.cpp"],
     [("write path", "SDSWriteFile / CompressFile in src/SDSFile.cpp, src/SDSFilePython.cpp"),
      ("read path", "SDSReadFile / DecompressFile in src/SDSFile.cpp, src/SDSFilePython.cpp")],
     [("SDS_FILE_HEADER", "offsets of names, meta, array table", "src/SDSFile.h"),
      ("SDS_ARRAY_BLOCK", "one per item: dtype, dims, strides, flags, bands, offset", "src/SDSFile.h")],
     ["CompressFile and DecompressFile, from Python"])

prop("C02", "Loading many SDS files stacks exactly their rows, in order",
     """Loading several SDS files, or the appended sections of one file, as one stacked data set gives for every item the
     concatenation, in file and section order, of that item's rows converted to the common type, with rows of files lacking
     the item filled with the invalid value of that type. The reported per-file and per-section row boundaries are the
     cumulative row counts. A row filter or an include/exclude list of items selects exactly the corresponding rows or items.""",
     ["inputs", "configurations", "histories"],
     "every group of files with any mix of item sets, dtypes and lengths; every sequence of appends; filters and include lists",
     "No existing test loads more than one SDS file or appends a section.",
     ["src/SDSFile.cpp", "src/SDSFilePython.cpp"],
     [("stacking reader", "SDSReadManyFiles in src/SDSFile.cpp"), ("append", "SDSWriteFile with section name in src/SDSFile.cpp"),
      ("concat", "SDSConcatFiles in src/SDSFile.cpp")],
     [("section directory", "sections, their row counts and names", "src/SDSFile.h")],
     ["MultiDecompressFiles, MultiStackFiles, MultiConcatFiles, CompressFile(append)"])

prop("C04", "In-memory compression round trip is lossless",
     """Compressing a buffer and decompressing the result gives back the identical bytes (and for arrays the same dtype and length) for every
     array, every compression level, with or without checksums, and decompression of damaged input fails with an error instead of touching memory out of bounds.""",
     ["inputs"], "every array content, dtype and length; every level; damaged compressed buffers",
     "No existing test calls the compression entry points.",
     ["src/Compress.cpp", "src/ZstdCompress.cpp"],
     [("CompressString/DecompressString", "src/Compress.cpp"), ("CompressDecompressArrays", "src/Compress.cpp")],
     [], ["CompressString, DecompressString, CompressDecompressArrays, SetZstdChecksumming"])

prop("C05", "Element-wise two-operand arithmetic is exact for every element",
     """For add, subtract, multiply, divide, floor-divide, modulo, power, minimum, maximum, remainder, fmod and the date
     subtractions, each element of the result equals the operation applied to the corresponding operands under the documented type promotion
     and missing-value rule. That holds whatever the length, alignment, stride, byte layout or scalar/array mix of the operands,
     and whether or not a preallocated output is supplied.""",
     ["inputs", "configurations"], "every operation, dtype pair, length, stride, alignment, scalar mode and value",
     "Tests sample a few dtypes and one length per operation; vector-loop tails, strides, scalars and missing values are not covered.",
     ["src/BasicMath.cpp", "src/BasicMath.h"],
     [("fast AVX2 loops and scalar tails", "SimpleMathOpFast* in src/BasicMath.cpp"),
      ("type promotion", "CheckMathOpTwoInputs, TwoInputsInternal in src/BasicMath.cpp, GetUpcast in src/RipTide.cpp")],
     [], ["BasicMathTwoInputs"])

prop("C06", "Comparisons and bit/logical operations are exact for every element",
     """For ==, !=, <, <=, >, >=, the bitwise and logical operations, each element of the result is what the operation
     gives for the corresponding operand pair (comparisons by mathematical value, also between different integer widths and
     signedness; strings compared as padded strings). Length, alignment, stride and scalar operands do not change any element.""",
     ["inputs", "configurations"], "every comparison and bit operation, dtype pair, length, stride, alignment, scalar mode and value",
     "Existing tests exercise only a handful of comparisons through conversions at one length.",
     ["src/Compare.cpp", "src/Compare.h", "src/BasicMath.cpp"],
     [("AVX2 compare loops", "src/Compare.cpp"), ("string compares", "CompareStrings/CompareUnicode in src/Compare.cpp"),
      ("bitwise loops", "AND/OR/XOR/ANDNOT in src/BasicMath.cpp")],
     [], ["BasicMathTwoInputs, CompareNumericToString and string compares"])

prop("C07", "Element-wise one-operand operations are exact for every element",
     """Each unary operation (abs, negate, sign, rounding, sqrt, square, exp/log/trig, isnan/isfinite/isinf and
     their negations and combinations, logical and bitwise not, signbit) gives for every element the mathematical or
     missing-value-aware result of the documented output type. Length, alignment, stride, dimensionality or a supplied output never change an element.""",
     ["inputs", "configurations"], "every unary operation, dtype, length, stride, alignment and value including invalids, NaN and infinities",
     "The one_input tests fix one vector length and few values per operation; the UnaryOps table (the main path) is untested.",
     ["src/UnaryOps.cpp", "src/one_input.cpp", "src/one_input_impl.h", "src/simd.h", "src/simd/avx2.h"],
     [("SIMD loops and tails", "src/UnaryOps.cpp, src/one_input_impl.h")],
     [], ["BasicMathUnaryOp"])

prop("C08", "Reductions return the value over all elements, nan variants skip invalids",
     """Sum, mean, min, max, argmin, argmax, var, std, their nan variants and the clipped sum equal the mathematical
     value over exactly the elements of the array (nan variants: over the valid ones, invalid if there is none), to
     floating-point accuracy. That holds for every dtype, length, alignment, stride and number of threads, and the
     result has the documented type.""",
     ["inputs", "configurations", "schedules"], "every reduction, dtype, length, layout, invalid pattern and thread count",
     "Tests run reductions on a few short fixed vectors; chunk boundaries, multi-thread merges and strides are not covered.",
     ["src/Reduce.cpp", "src/Reduce.h"],
     [("chunked parallel reduction", "ReduceInternal/ReduceMathWorker in src/Reduce.cpp")],
     [("per-chunk partial results", "merged under a lock-free loop", "src/Reduce.cpp")], ["Reduce"])

prop("C09", "Type conversion keeps every representable value and maps invalids to invalids",
     """Converting an array to another element type yields, for each element, the same number when the target can
     represent it, the target's invalid value when the source element is the source's invalid value, and the same text for
     string conversions. Length, stride, alignment, threading and an existing destination slice never change any element.""",
     ["inputs", "configurations"], "every pair of dtypes, every value including invalids and range limits, every length and layout",
     "Existing tests do not compare conversions over dtype pairs at vector-loop boundaries.",
     ["src/Convert.cpp", "src/Convert.h", "src/missing_values.h"],
     [("conversion kernels", "ConvertBase*, ConvertSafeInternal in src/Convert.cpp")],
     [], ["ConvertSafe, ConvertUnsafe, PutMask, HStack, HomogenizeArrays, GetUpcastNum, RemoveTrailingSpaces"])

prop("C10", "Sorting and lexsort return the stable ordering permutation",
     """Lexsort over any number of keys (with filters, descending flags and pre-grouped index ranges) returns a permutation of the rows
     under which the keys are in non-decreasing lexicographic order, NaN last, equal rows in original order. In-place sort returns the
     same multiset in non-decreasing order, IsSorted says true exactly when it is sorted, and group extraction from a lexsort
     numbers the groups of equal rows in order. The number of threads never changes the result.""",
     ["inputs", "configurations", "schedules"], "all key lists, dtypes (including strings), values, lengths, filters, cutoffs and threading modes",
     "Tests check a few random lexsorts per dtype on sizes below the parallel threshold.",
     ["src/Sort.cpp", "src/Sort.h"],
     [("merge sort with parallel halves", "par_amergesort, ParMergeMultikey in src/Sort.cpp"),
      ("group extraction", "GroupFromLexSort in src/Sort.cpp")],
     [("sort worker state", "parent/child merge progress", "src/Sort.cpp")], ["LexSort32, LexSort64, Sort, SortInPlace, IsSorted, GroupFromLexSort"])

prop("C11", "Group keys: equal rows share a group, different rows never do",
     """Grouping rows by one or more key columns assigns each kept row a group number so that two rows get the same number
     exactly when all their key values are equal, numbers are 1..n in order of first occurrence, the first-occurrence index of each group is
     right, and filtered-out rows get 0. That holds for every key dtype, hash-table size hint and mode, collision pattern and thread count.""",
     ["inputs", "configurations", "histories"], "all key columns, dtypes, cardinalities, colliding keys, filters, hints and hash modes, after any earlier calls",
     "The existing tests never call the grouping hash directly.",
     ["src/HashLinear.cpp", "src/MultiKey.cpp", "src/HashFunctions.cpp"],
     [("open-addressing hash", "CHashLinear::GroupBy* in src/HashLinear.cpp"), ("combined key packing", "CMultiKeyPrepare in src/MultiKey.cpp")],
     [("hash table", "reused between calls, cleared through the bitfield", "src/HashLinear.cpp")],
     ["MultiKeyGroupBy32, MultiKeyGroupBy32Super, GroupBy, Unique32, MultiKeyUnique32, MultiKeyHash"])

prop("C12", "Grouping bookkeeping is consistent with the bin column",
     """From a column of bin numbers, the derived counts, first/last/next/previous row links, group-sorted row order,
     combined filters, combined groupings and re-numberings are exactly those of that column. In particular every row appears exactly
     once in its bin's slice, counts sum to the number of rows, and out-of-range bins are never used as indices.""",
     ["inputs", "configurations", "schedules"], "every bin column, bin count, dtype, length, filter and thread count",
     "Only CombineAccum2Filter and ReIndexGroups-like paths are sampled by tests, on small inputs.",
     ["src/MultiKey.cpp", "src/Bins.cpp", "src/Merge.cpp", "src/GroupBy.cpp", "src/Sort.cpp"],
     [("BinCount, GroupFromBinCount, MakeiFirst, MakeiNext", "src/MultiKey.cpp"), ("CombineFilter/CombineAccum1/2", "src/Bins.cpp")],
     [], ["BinCount, GroupFromBinCount, MakeiFirst, MakeiNext, CombineFilter, CombineAccum1Filter, CombineAccum2Filter, ReIndexGroups, ReverseShuffle"])

prop("C13", "Group-by aggregation equals the aggregate of each group's own rows",
     """For every group-by function (sum, mean, min, max, var, std, first, last, nth, median, mode, quantile, trimmed
     mean, the nan versions, and the rolling sum, mean, difference, shift, count and quantile within each group), the value in each bin equals the function applied to exactly the rows carrying that bin number, for every
     dtype and bin range. Rows outside the requested bins contribute nothing, empty bins give the invalid value (sums: 0), and neither
     thread count nor bin index width changes anything beyond floating-point rounding.""",
     ["inputs", "configurations", "schedules"], "every function, dtype, bin column, bin range, distribution of rows over bins and thread count",
     "Tests cover the rolling packs only; the group-by table has no direct test.",
     ["src/GroupBy.cpp", "src/GroupBy.h"],
     [("per-function accumulators", "GroupByBase<> in src/GroupBy.cpp"), ("parallel split by bin or by row with merge", "GroupBySingleOpMultiBands, GroupByAll32/64 in src/GroupBy.cpp")],
     [("per-thread partial accumulators", "merged at the end", "src/GroupBy.cpp")], ["GroupByAll32, GroupByAllPack32"])

prop("C14", "IsMember finds every member, at its first position, and nothing else",
     """For any haystack and needle columns of any supported dtype, each needle's flag is true exactly when an equal value is in the
     haystack, and its index is the position of the first occurrence there (invalid when absent). This holds for numbers, strings,
     several columns at once and categorical index remapping, at any size, collision pattern, hint and thread count.""",
     ["inputs", "configurations", "histories"], "all needle/haystack columns, dtypes, widths, duplicates, sizes and thread counts",
     "The existing tests cover the experimental TBB path and a few numeric arrays.",
     ["src/HashLinear.cpp", "src/is_member_tg.h", "src/MultiKey.cpp"],
     [("hash location table", "CHashLinear::IsMember in src/HashLinear.cpp")],
     [], ["IsMember32, IsMember64, IsMemberCategorical, IsMemberCategoricalFixup, MultiKeyIsMember32"])

prop("C15", "As-of alignment picks the nearest qualifying row of the same key",
     """Aligning two time-ordered key/time columns returns for every left row the position of the last right row with the same
     key and a time not later (or strictly earlier; or, forward, the first not earlier or strictly later), and invalid when there is none.""",
     ["inputs", "configurations"], "all key columns, time columns, directions, exact-match settings",
     "Tests use a few hand-made arrays.",
     ["src/HashLinear.cpp", "src/MultiKey.cpp"], [("AlignHashMK32, MergePreBinned", "src/HashLinear.cpp"), ("MultiKeyAlign32", "src/MultiKey.cpp")], [], ["MultiKeyAlign32, MergeBinnedAndSorted"])

prop("C16", "Fancy and boolean indexing read and write exactly the selected elements",
     """Fancy and boolean get, set, put-mask, mask counting, mask to index, re-index, reverse shuffle, where, horizontal
     stacking and in-place shifting return or change exactly the elements selected, in order. Out-of-range indices give the default or an error, never another
     element or memory outside the array, and everything else stays as it was, for every dtype, layout, size and thread count.""",
     ["inputs", "configurations"], "every array, index or mask, dtype, default value, layout and length",
     "Tests sample mbget on fixed-size inputs; the rest is untested.",
     ["src/MultiKey.cpp", "src/Merge.cpp", "src/Bins.cpp", "src/Convert.cpp", "src/BasicMath.cpp"],
     [("range-checked gather", "MBGet, GetItem in src/Merge.cpp"), ("mask walkers", "BooleanIndex, BooleanToFancy, PutMask in src/Merge.cpp")],
     [], ["MBGet, BooleanIndex, BooleanToFancy, BooleanSum, SetItem, PutMask, ReIndex, Where, HStack, ShiftArrays"])

prop("C17", "Binning puts every value in the bin whose cut interval contains it",
     """Binning values against sorted cut points returns for each value the bin whose interval contains it with the requested
     closed side (0 for invalid or out of range), and interpolation over breakpoints returns the linear interpolation or documented extrapolation.""",
     ["inputs", "configurations"], "every value array, cut array, dtype, side and bin mode",
     "Tests sample a few arrays with fixed cut points.",
     ["src/Bins.cpp"], [("binary search into cuts", "BinsToCutsBSearch in src/Bins.cpp")], [], ["BinsToCutsBSearch, BinsToCutsSorted, NanInfCountFromSort, InterpExtrap2d"])

prop("C18", "Cumulative, rolling and decay operations follow each group's own row history",
     """Cumulative sums/products/min/max/counts, exponential decay, and rolling-window or time-window operations give at
     every row the value of the documented recurrence over the preceding rows of the same group that pass the filter, and no
     other row influences it. Length, group distribution, window size, filter and thread count change nothing else.""",
     ["inputs", "configurations", "schedules"], "every op, dtype, grouping, window, decay rate, times, filter, reset mask and thread count",
     "Tests sample fixed short inputs for ema and group rolling.",
     ["src/Ema.cpp", "src/TimeWindow.cpp"],
     [("per-group state arrays", "EmaBase, CumSum in src/Ema.cpp"), ("rolling window", "RollingBase in src/Ema.cpp")],
     [], ["EmaAll32, Rolling, TimeWindow"])

prop("C19", "Date and time strings parse to the exact instant or to invalid",
     """A fixed-width string column of dates, times or date-times parses each element to exactly the number of nanoseconds (or days)
     it denotes in the proleptic Gregorian calendar, independent of its neighbours and padding. Text that is not a valid date or time
     gives the invalid value, and no input reads outside the column.""",
     ["inputs"], "every string of every width, byte and unicode, valid and malformed",
     "Tests parse a few dozen literal strings.",
     ["src/DateTime.cpp", "src/strptime5.cpp"],
     [("string parsers", "DateTimeCharConvert and friends in src/DateTime.cpp")], [], ["DateStringToNanos, TimeStringToNanos, DateTimeStringToNanos, DateTimeUTCStringToNanos, StrptimeStringToNanos"])

prop("C20", "Thread pool runs every chunk exactly once and finishes before returning",
     """Work given to the thread pool is executed exactly once per element, by any number of worker threads under any schedule, and the
     call returns only after every chunk is complete with its effects visible to the caller. Pool state is free of data races, and
     results are identical in every threading mode.""",
     ["schedules", "configurations"], "every work size, chunk size, thread count, wake-up count, worker delay and interleaving",
     "The math_worker test runs one schedule of one simple job.",
     ["src/MathWorker.cpp", "src/MathWorker.h", "src/MathThreads.cpp", "src/MathThreads.h"],
     [("ring of work items with interlocked claim and completion counters", "stMATH_WORKER_ITEM, WorkMain in src/MathThreads.h, src/MathWorker.h")],
     [("BlockNext, BlocksCompleted, ThreadAwakened", "claimed, finished, joined counters", "src/MathThreads.h")],
     ["CMathWorker from a C++ driver, and every threaded function from Python, under ThreadSanitizer"])

prop("C21", "Recycled array memory is never shared between live arrays",
     """Whatever the history of allocation, deletion, views, garbage collection and recycling, no two live arrays handed out by the module
     share memory unless one is a view of the other, recycled arrays keep their dtype, size and contents stable while alive, and turning recycling
     off or collecting it never affects live arrays or leaks memory without bound.""",
     ["histories"], "every sequence of operations that allocate, delete, view, recycle or garbage collect arrays",
     "No existing test touches the recycler.",
     ["src/Recycler.cpp", "src/Recycler.h", "src/Array.cpp"],
     [("ring of recently freed buffers per size and type", "src/Recycler.cpp")],
     [("recycle table", "head/tail ring of arrays per size class", "src/Recycler.cpp")],
     ["RecycleNumpy, SetRecycleMode, RecycleGarbageCollect, and every allocating function with the FastArray type registered"])

prop("C24", "Log messages are delivered exactly once, in order, from any threads",
     """Every message logged at an enabled level while logging is on is delivered to the handler exactly once and unmodified, messages of one thread in
     the order logged, from any number of threads, and enabling, disabling and shutting down at any moment neither deadlocks, races nor loses delivered messages.
     (A full queue drops new messages, and a disable that runs into its own time limit may drop what is still queued.)""",
     ["schedules", "histories"], "every number of producers, level filter, enable/disable/flush schedule",
     "The tests log from one or a few threads with one schedule.",
     ["src/logging/logging.cpp", "src/logging/logging_service.h", "src/logging/waiting_deque.h", "src/Logger.cpp"],
     [("queue and worker", "src/logging/waiting_deque.h, src/logging/logging.cpp")], [], ["the logging API from C++ threads under ThreadSanitizer, and from Python"])

prop("C25", "CRC-64 and bit counts are exact for every buffer",
     """CalculateCRC of a contiguous array equals the CRC-64 (ECMA polynomial, reflected, inverted in and out) of its bytes as a signed
     64-bit number, and the bit count of each integer equals its number of one bits, for every length, alignment, dtype, shape and
     stride (a non-contiguous array is refused by CalculateCRC).""",
     ["inputs"], "every buffer length, content, alignment and stride",
     "No test calls these.",
     ["src/CRC32.cpp", "src/BitCount.cpp"], [("slicing-by-8 loop with tails", "src/CRC32.cpp"), ("popcount table", "src/BitCount.cpp")],
     [], ["CalculateCRC, BitCount"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
