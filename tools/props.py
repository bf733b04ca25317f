PROPS = []
CHECKS = []
NOT_CLAIMED = {}
HOOKS = None
NOTES = 'See DESIGN.md.'


def P(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    a['hook_needed'] = None
    PROPS.append({'id': id, 'title': title, 'statement': statement,
                  'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})


# ------------------------------------------------------------------ concurrency
P('T01', 'Parallel work is distributed exactly once and completes before return',
  'For every way the worker threads can interleave, a parallel operation invokes its work callback for every work item or '
  'element chunk exactly once, with chunks that partition the input, and with core numbers that are in range and never used by two callbacks at the same time. '
  'The call returns only after every callback has finished, and no callback of that operation runs afterwards, also over a series of operations on the same pool.',
  ['schedules', 'histories'], 'all interleavings of caller and workers, all item counts / lengths around the block size, all wake-up settings, series of operations',
  'The tests run under whatever schedule the OS gives; lost, doubled or late blocks need one particular interleaving.',
  ['src/MathThreads.h', 'src/MathThreads.cpp', 'src/MathWorker.h', 'src/MathWorker.cpp'],
  [('atomic block counter', 'MathThreads.h stMATH_WORKER_ITEM::GetWorkBlock'), ('completion counter and join', 'MathWorker.h CMathWorker::WorkMain'),
   ('worker loop', 'MathThreads.cpp WorkerThreadFunction')],
  [('BlockNext/BlocksCompleted', 'next block to hand out / blocks finished', 'MathThreads.h'), ('ThreadsAwakened', 'workers currently inside the loop', 'MathThreads.h')])
P('T02', 'The worker pool never deadlocks or loses a wake-up that it needs',
  'Starting the worker threads and running any series of parallel operations always terminates whatever the interleaving, the order in which sleeping '
  'threads are woken, spurious wake-ups, or the number of threads allowed to wake. At the end of an operation all workers are idle or on their way to sleep, and the pool accepts the next operation.',
  ['schedules', 'histories'], 'all interleavings, wake orders and spurious wake-ups of series of operations',
  'A hang needs a specific race between sleeping and submission; tests cannot enumerate those.',
  ['src/MathThreads.h', 'src/MathThreads.cpp', 'src/MathWorker.h', 'src/MathWorker.cpp'],
  [('futex sleep on the work index', 'MathThreads.cpp WorkerThreadFunction'), ('publish-then-wake', 'MathThreads.h stWorkerRing::SetWorkItem'), ('start-up handshake', 'MathWorker.cpp StartWorkerThreads')])
P('T03', 'Ctrl-C at any moment leaves the worker pool consistent',
  'If an interrupt arrives at any moment of an interruptible section that runs parallel work, the section ends, no work callback runs after it returned, no work item is processed twice, and the section reports that it was interrupted. '
  'Without an interrupt it completes all work and reports none; the previous signal handler is back in place afterwards and later operations are complete and unaffected.',
  ['schedules', 'fault_sequences'], 'every point at which the signal can be delivered x interleavings of workers',
  'Tests deliver at most one signal at an arbitrary time.',
  ['src/interrupt.cpp', 'src/interrupt.h', 'src/MathThreads.h', 'src/MathWorker.h'],
  [('interrupted flag', 'interrupt.cpp interruptible_section'), ('check before each block', 'MathThreads.h GetNextWorkBlock/GetNextWorkIndex')])
P('T04', 'Results do not depend on threading, thread count or block schedule',
  'Every array operation gives the same result whether threading is off, on, with any number of threads woken, and for every assignment of work blocks to threads and every order in which blocks run. '
  'Concurrently executing blocks never touch the same memory in a conflicting way.',
  ['schedules', 'inputs', 'configurations'], 'all block-to-thread assignments and block orders for inputs larger than the parallel threshold',
  'Tests compare small arrays, below the parallel threshold, or run one arbitrary schedule.',
  ['src/MathWorker.h', 'src/GroupBy.cpp', 'src/Sort.cpp', 'src/Reduce.cpp', 'src/MultiKey.cpp', 'src/HashLinear.cpp', 'src/Bins.cpp', 'src/Merge.cpp', 'src/BasicMath.cpp', 'src/UnaryOps.cpp', 'src/Convert.cpp', 'src/Compare.cpp', 'src/Ema.cpp'],
  [('per-core partial results and disjoint output ranges', 'GroupBy.cpp, Reduce.cpp, Sort.cpp')])
P('T05', 'The log service delivers messages in order, at most once, and stops cleanly',
  'Whatever the interleaving of loggers, the delivery thread and the control calls, enabled logging delivers each accepted message to the active handler at most once and in the order in which it was queued, '
  'drops only messages below the level, over the size limit or outside the enabled period, and delivers everything accepted before the service is shut down in order. Disabling always terminates and no handler runs after disable has returned.',
  ['schedules', 'histories'], 'all interleavings of producer, delivery and controller threads within a preemption bound',
  'The existing logging tests run one schedule with real time-outs.',
  ['src/logging/logging_service.h', 'src/logging/waiting_deque.h', 'src/logging/timer.h', 'src/logging/logger.h', 'src/Logger.cpp'],
  [('waiting queue', 'logging/waiting_deque.h'), ('service state', 'logging/logging_service.h')])

# ------------------------------------------------------------------ SDS files
P('S01', 'Saving and loading an SDS file returns the same data',
  'Any set of arrays of any supported type, shape (one to five dimensions), memory order and length, together with names, flags and metadata, that is written to an SDS file with any compression mode, level, banding or section setting is read back with identical types, shapes and bytes, names, flags and metadata, '
  'also when the destination file existed before.',
  ['inputs', 'configurations'], 'all combinations of type x shape x order x compression x bands x sections within bounds',
  'Tests save a few arrays; combinations of layout, type and options are not enumerated.',
  ['src/SDSFile.cpp', 'src/SDSFile.h', 'src/SDSFilePython.cpp', 'src/Compress.h', 'src/ZstdCompress.cpp', 'src/FileReadWrite.h'],
  [('block directory and compression', 'SDSFile.cpp'), ('array reconstruction', 'SDSFilePython.cpp')])
P('S02', 'Selective SDS reads equal the corresponding part of a full read',
  'Reading an SDS file with an inclusion or exclusion list, a folder selection, a section selection, an info-only mode or a boolean row filter gives exactly the arrays, order and rows that applying the same selection to a full read would give. (When several sections or files are read with one row filter, one from which no row is selected contributes nothing to the columns that are not filtered by row, such as category names.)',
  ['inputs', 'configurations'], 'all subsets of names/sections/folders and all row filters over small files',
  'Only a few selections are tested.',
  ['src/SDSFile.cpp', 'src/SDSFile.h', 'src/SDSFilePython.cpp'], [('inclusion lists and filters', 'SDSFile.cpp')])
P('S03', 'Stacking SDS files or sections equals concatenating them',
  'Loading several files or sections as one stacked result gives, for every column, the concatenation of the parts in order, converted to the common type, with the invalid value filled in for parts that lack the column (as many rows as that part has), and with correct part boundaries; a row filter selects rows of that concatenation. Columns whose types or shapes cannot be combined are refused with an error.',
  ['inputs', 'configurations'], 'all small sequences of parts with present/missing columns, type pairs, lengths including zero, filters',
  'Tests stack a few homogeneous files.',
  ['src/SDSFile.cpp', 'src/SDSFilePython.cpp'], [('stacking with gap fill and upcast', 'SDSFile.cpp')])
P('S04', 'Appending to an SDS file never loses the sections already in it',
  'After any sequence of creating and appending sections, every section reads back with its own data; and if the process stops after any of the writes of an append, all sections written before are still readable and unchanged; a new file is either complete or not readable.',
  ['crash_points', 'histories'], 'every prefix of the write sequence of every short history of appends',
  'Tests never interrupt a write.',
  ['src/SDSFile.cpp', 'src/SDSFile.h', 'src/FileReadWrite.h'], [('append data and directory, then header last', 'SDSFile.cpp EndCompressedFile')])
P('S05', 'A damaged or unreadable SDS file is reported, never silently misread',
  'If the SDS file is cut off at any byte, or any read or write call fails or is short, loading or saving reports an error or has the complete result, and never crashes, hangs, or returns other or fewer arrays than were saved. (Of several files read together, one that cannot be opened is left out unless mustexist is set.) What is in the file before a failed append stays readable.',
  ['fault_sequences', 'crash_points'], 'every truncation point and every single I/O call failing, over small files',
  'Tests do not inject I/O faults.',
  ['src/SDSFile.cpp', 'src/SDSFilePython.cpp', 'src/FileReadWrite.h'], [('header and directory validation', 'SDSFile.cpp')])
P('S06', 'Compressing and decompressing arrays and strings is lossless',
  'Decompressing what was compressed gives back identical bytes, type and shape for every array type, length, content and compression level, and invalid compressed input is rejected with an error.',
  ['inputs'], 'all types x lengths x contents x levels within bounds', 'Tests compress a handful of arrays.',
  ['src/Compress.cpp', 'src/Compress.h', 'src/ZstdCompress.cpp'], [('zstd framing', 'Compress.cpp')])

# ------------------------------------------------------------------ element-wise
P('D01', 'Two-input arithmetic matches its per-element definition everywhere',
  'For every pair of supported types, value pair, array length, operand layout (array, scalar, strided, misaligned, in place) and position in the array, the two-input arithmetic and bitwise operations return the element-wise result with the documented result type, '
  'and integer results propagate invalids exactly where documented; the inputs are not modified.',
  ['inputs', 'configurations'], 'all small-integer value pairs, all boundary values of wider types, all lengths across the vector width, all layouts',
  'Vector kernels have separate bodies and tails per type and layout; tests visit a few lengths.',
  ['src/BasicMath.cpp', 'src/Compare.cpp', 'src/MathWorker.h'], [('typed SIMD kernels with scalar tails', 'BasicMath.cpp')])
P('D02', 'Comparisons order values correctly for all type pairs',
  'For every pair of supported types, including signed against unsigned, every value pair, length, layout and position, the six comparisons and the logical operations return the mathematically correct boolean, and comparisons with an invalid or NaN value follow the documented rule.',
  ['inputs', 'configurations'], 'all value pairs from boundary sets, all type pairs, lengths across the vector width, layouts',
  'Tests compare few type pairs and lengths.',
  ['src/Compare.cpp', 'src/BasicMath.cpp'], [('typed SIMD comparison kernels', 'Compare.cpp')])
P('D03', 'One-input math matches its per-element definition everywhere',
  'For every supported type, value, array length, layout and position, one-input operations (abs, negate, sign, rounding, is-nan, is-inf, is-finite, is-normal and their opposites, bitwise not, roots and logs) return the element-wise result with the documented type; unsupported combinations are refused, not computed wrongly.',
  ['inputs', 'configurations'], 'all 8/16-bit values, boundary values of wider types, all lengths across the vector width, layouts',
  'As for two-input arithmetic.',
  ['src/UnaryOps.cpp', 'src/one_input.cpp', 'src/one_input_impl.h', 'src/missing_values.h'], [('typed SIMD kernels', 'UnaryOps.cpp')])
P('D04', 'Type conversion keeps values and maps invalid to invalid',
  'Converting between any two numeric types keeps every value that the target represents, maps the source type\'s invalid (or NaN) to the target\'s invalid, wraps integers that are out of range of a narrower integer type, at every position and length and for every layout.',
  ['inputs', 'configurations'], 'all type pairs x all small or boundary values x lengths x layouts', 'Tests convert a few values of some pairs.',
  ['src/Convert.cpp', 'src/missing_values.h'], [('conversion kernels with invalid handling', 'Convert.cpp')])
P('D05', 'Reductions equal a sequential fold that skips invalids',
  'Sum, min, max, argmin, argmax, mean, variance, standard deviation, counts and their NaN/invalid-skipping variants equal a sequential fold over the elements in order, for every type, length, content including NaN, infinities and invalids, and layout.',
  ['inputs', 'configurations'], 'all short arrays over small alphabets and every position of special values across vector boundaries', 'Tests reduce a few arrays.',
  ['src/Reduce.cpp', 'src/Reduce.h'], [('SIMD accumulators with tails', 'Reduce.cpp')])

# ------------------------------------------------------------------ grouping
P('G01', 'Grouping assigns equal rows, and only equal rows, to the same group',
  'Hash grouping of one or more key arrays of any type gives two rows the same group exactly if all their keys are equal bit for bit; groups are numbered in order of first appearance, first-row indices are right, filtered rows go to group zero, and every row is accounted for.',
  ['inputs', 'configurations'], 'all short key arrays over small alphabets, all key types, hash modes, filters, forced collisions',
  'Hash collisions, table growth and type-specific paths are hit only by chance.',
  ['src/HashLinear.cpp', 'src/HashLinear.h', 'src/MultiKey.cpp', 'src/HashFunctions.cpp'], [('linear-probing hash table', 'HashLinear.cpp')])
P('G02', 'Membership tests agree with a linear search',
  'Is-member of one or several key arrays returns for every element whether it occurs in the second array and the index of its first occurrence there, or the invalid index, for every supported type combination, hint size and length.',
  ['inputs', 'configurations'], 'all pairs of short arrays over small alphabets, types, hints', 'Tests use few arrays.',
  ['src/HashLinear.cpp', 'src/is_member_tg.cpp', 'src/is_member_tg.h', 'src/MultiKey.cpp'], [('hash lookup', 'HashLinear.cpp'), ('threaded lookup', 'is_member_tg.h')])
P('G03', 'Group index structures are mutually consistent partitions',
  'Counts, group-sorted row order, offsets, first/next/previous chains and bin counts derived from a group array always describe the same partition of the rows: every row exactly once in its group, in row order.',
  ['inputs'], 'all group arrays up to a length over all small bin counts, all index types', 'Tests use few group arrays.',
  ['src/MultiKey.cpp', 'src/GroupBy.cpp', 'src/Sort.cpp', 'src/Merge.cpp'], [('count, pack and chain builders', 'MultiKey.cpp, Sort.cpp')])
P('G04', 'Group-by aggregates equal the per-group sequential computation',
  'For every aggregate, value type, index type, key array, bin range and presence of invalids, each group result equals the sequential computation over that group\'s rows in order, groups without rows get the documented empty value, and rows in the filtered bin influence nothing.',
  ['inputs', 'configurations'], 'all short (group, value) arrays over small alphabets for all functions x types x bin ranges', 'Tests sample few functions and types.',
  ['src/GroupBy.cpp', 'src/GroupBy.h'], [('per-type accumulators', 'GroupBy.cpp')])
P('G05', 'Running, rolling and time-window computations equal their definition',
  'Cumulative sums and products, exponential averages, rolling and time-window functions, with or without groups, equal the definition evaluated row by row, for all types, window sizes, group arrays, filters and reset masks.',
  ['inputs', 'configurations'], 'all short arrays over small alphabets, all windows up to the length', 'Tests use few arrays.',
  ['src/Ema.cpp', 'src/TimeWindow.cpp', 'src/GroupBy.cpp'], [('row-by-row recurrences', 'Ema.cpp, TimeWindow.cpp')])

# ------------------------------------------------------------------ order / indexing
P('O01', 'Sorting is correct, stable and total for every type',
  'Every sort returns a permutation that orders the keys ascending with NaN last, stable among equal keys, for single and multiple keys of all types, all lengths and orders; is-sorted, in-place and indirect sorts and grouping from a sorted order agree with it.',
  ['inputs'], 'all short arrays over small alphabets, all lengths across algorithm switch points with all single deviations', 'Tests sort a few arrays.',
  ['src/Sort.cpp', 'src/Sort.h', 'src/Heap.h'], [('merge sort and insertion sort', 'Sort.cpp')])
P('O02', 'Binning by cut points equals a sequential binary search',
  'Assigning values to bins by cut points returns for each value the bin that a linear scan of the cuts gives, with the documented inclusive side, and treats NaN, invalid and out-of-range values as documented, for all type pairs and modes.',
  ['inputs'], 'all short cut arrays x all values x modes x types', 'Tests use few cuts.',
  ['src/Bins.cpp'], [('branch-free binary search', 'Bins.cpp')])
P('I01', 'Fancy and boolean indexing read and write exactly the selected elements',
  'Gathering or scattering with integer or boolean indices returns or changes exactly the elements selected, in order, handles negative and out-of-range indices as documented with the default value, and touches nothing else, for all element sizes and index types.',
  ['inputs'], 'all masks up to a length, all short index arrays including out-of-range values, all item sizes', 'Tests use few indices.',
  ['src/Bins.cpp', 'src/Merge.cpp', 'src/Compare.cpp', 'src/GroupBy.cpp', 'src/Array.cpp'], [('gather/scatter kernels', 'Merge.cpp, Bins.cpp')])
P('I02', 'Merging and re-binning of group arrays preserves membership',
  'Combining a filter with a group array, accumulating several group arrays into one, and merging binned or sorted arrays keep exactly the row membership their definition gives: filtered rows go to bin zero, remaining bins are renumbered in order without gaps, and pairs map to the right combined bin.',
  ['inputs'], 'all short group arrays, filters, bin counts', 'Tests use few arrays.',
  ['src/Merge.cpp', 'src/MultiKey.cpp', 'src/Bins.cpp'], [('re-binning', 'Merge.cpp')])
P('H01', 'Array assembly utilities produce exactly the concatenated or shifted data',
  'Horizontal stacking, homogenizing, shifting, tiling, repeating, bit counting and checksums return exactly the elements their definition gives for all types, lengths and layouts.',
  ['inputs'], 'all short sequences of arrays over types and lengths', 'Tests use few arrays.',
  ['src/Array.cpp', 'src/TileRepeat.cpp', 'src/BitCount.cpp', 'src/CRC32.cpp', 'src/RipTide.cpp'], [('copy kernels', 'Array.cpp')])
P('P01', 'Date and time text is parsed to the exact instant or to invalid',
  'Every syntactically valid date, time and date-time text parses to the exact nanosecond count without a warning, every out-of-range field gives the invalid value 0 (the date alone when only the time of a date-time is out of range), and malformed text gives 0 or is reported by a RuntimeWarning; the result is the same for byte and unicode strings, every column width and whatever the neighbouring texts. Formatted parsing gives the exact instant or 0.',
  ['inputs'], 'all dates of a multi-century range, all times of day at boundaries, all single-character deviations', 'Tests parse a few strings.',
  ['src/DateTime.cpp', 'src/strptime5.cpp'], [('field parsers', 'DateTime.cpp')])

# ------------------------------------------------------------------ cross-cutting
P('R01', 'Recycled arrays never alias live data',
  'Whatever the order in which arrays are created, recycled, collected and dropped, memory handed out for a new result is never memory that any live array still uses, results keep their values, and reference counts stay balanced.',
  ['histories'], 'all operation sequences up to a depth over small pools of arrays', 'Aliasing needs a particular allocation history.',
  ['src/Recycler.cpp', 'src/Recycler.h', 'src/HashLinear.cpp'], [('recycle slots', 'Recycler.cpp')])
P('R02', 'Every operation is a pure function of its arguments, whatever ran before',
  'The result of any operation is the same in a fresh process and after any history of other operations, including failing ones, recycling, and threading changes; cached workspaces never leak earlier contents into a result.',
  ['histories'], 'all pairs and triples of operations from a catalogue covering every workspace', 'Tests run each operation in one fixed context.',
  ['src/HashLinear.cpp', 'src/Recycler.cpp', 'src/MultiKey.cpp', 'src/Sort.cpp', 'src/GroupBy.cpp'], [('workspace caches cleared on use', 'HashLinear.cpp, Recycler.cpp')])
P('M01', 'Operations never touch memory outside their arrays nor modify inputs',
  'For every operation, type, length, array stride and index content (including invalid and out-of-range group or index values, except for the functions documented not to check: ReIndex) the library reads and writes only inside the arrays it was given or allocated, leaves its inputs unmodified, and reports bad arguments by an exception without leaking references.',
  ['inputs'], 'all operations of the catalogue x types x lengths with every array placed against an inaccessible page', 'Out-of-bounds accesses are silent in the tests.',
  ['src/BasicMath.cpp', 'src/UnaryOps.cpp', 'src/Reduce.cpp', 'src/GroupBy.cpp', 'src/Bins.cpp', 'src/Merge.cpp', 'src/MultiKey.cpp', 'src/HashLinear.cpp', 'src/Sort.cpp', 'src/Ema.cpp', 'src/Convert.cpp'],
  [('length and stride handling', 'all kernels')])


def C(id, note, technique=None, **kw):
    d = {'property': id, 'technique': technique or 'bounded-exhaustive model checking: explicit enumeration of every case within the bounds, executed on the real code and compared with a reference model',
         'level_note': note}
    d.update(kw)
    CHECKS.append(d)


C('D01', 'Every call within the bounds (operations x type pairs x value pairs x lengths x placements) runs on the compiled module; no abstraction. Threading off (T04 covers schedules).')
MC = 'explicit-state model checking of the implementation: the real thread-pool code runs on fibers, every access to shared memory is a scheduling point, all interleavings are explored with state snapshots'
C('T01', 'Implementation-level model checking; complete for 1-3 workers within the scripts, preemption-bounded for longer series. Sequentially consistent memory.', MC)
C('T02', 'As T01, with start-up, wake limits, wake orders and spurious wake-ups; deadlock and livelock decided on the state graph.', MC)
C('T03', 'As T01, with the signal delivered in every reachable state.', MC)
C('T05', 'The real Logger.cpp, logging service, queue and timer run under the explorer; the Python C API (and the GIL as a mutex) is modelled. Preemption-bounded; sequentially consistent memory.',
  'explicit-state model checking of the implementation: the real log service runs on fibers with all of its memory in the state, every access to shared memory is a scheduling point, time-outs and spurious wake-ups are explored')
C('D02', 'Every call within the bounds runs on the compiled module and is compared with the definition; no abstraction. Threading off (T04 covers schedules).')
C('D03', 'Every call within the bounds runs on the compiled module and is compared with the definition; no abstraction. Threading off (T04 covers schedules).')
C('D04', 'Every call within the bounds runs on the compiled module and is compared with the definition; no abstraction. Threading off (T04 covers schedules).')
C('D05', 'Every call within the bounds runs on the compiled module and is compared with the definition; no abstraction. Threading off (T04 covers schedules).')
DATA_NOTE = 'Every call within the bounds runs on the compiled module and is compared with the definition; no abstraction. Threading off (T04 covers schedules).'
C('O01', DATA_NOTE)
C('O02', DATA_NOTE)
C('I01', DATA_NOTE)
C('I02', DATA_NOTE)
C('H01', DATA_NOTE)
C('G01', DATA_NOTE)
C('G02', DATA_NOTE)
C('G03', DATA_NOTE)
C('G04', DATA_NOTE)
C('G05', DATA_NOTE)
C('P01', DATA_NOTE)
C('S06', DATA_NOTE)
C('S01', DATA_NOTE)
C('S04', DATA_NOTE)
C('S05', DATA_NOTE)
C('S02', DATA_NOTE)
C('S03', DATA_NOTE)
C('T04', 'The real module, compiled with access hooks; worker threads are fibers whose turns are enumerated at block granularity. Conflict detection between concurrent blocks justifies exploring blocks as atomic steps.',
  'stateless model checking of the real module: enumeration of block-to-thread assignments under a controlled scheduler, with happens-before conflict detection and comparison with the single-threaded run')
C('R02', 'The real module: every operation of a catalogue of about 3300 calls, run under all allocation fill patterns and after all pairs and selected triples of other operations, failing calls, recycling and length changes.',
  'explicit-state exploration of operation histories on the real code: every pair (and bounded triples) of catalogue operations, compared byte for byte with a fresh process')
C('R01', 'The real module with an instrumented allocator (freed memory stays inaccessible): every sequence of the operations is executed from a fresh recycler state; no abstraction.',
  'explicit enumeration of every operation sequence up to a depth on the real code, each compared with a model of the live arrays')
C('M01', 'The real module with an instrumented allocator: every block of the module and every array ends at, then starts at, an inaccessible page; freed blocks stay inaccessible; inputs are mapped read-only.',
  'bounded-exhaustive enumeration of calls on the real code under a page-guarding allocator, with reference-count and block-balance monitors')
