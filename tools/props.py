VG = 'gated value graph of every exported operation (all callees inlined, loops summarised), specialised to each of the ten encodings and an undefined one; '
TB = ' Trusts the analyzer, go/ssa, and its models of the standard library and of sroar.'
PROPS = [
dict(id='C10', title='Aggregating several files counts each ID once, with its newest value',
 statement='MultiReader.Aggregate aggregates every file of its list exactly once, from the newest to the oldest, each with the caller\'s Filter and SkipPreCalculated and with a deny filter that holds exactly the IDs of all newer files; its result is the combination of the results of the files: Count and Sum are the sums, Min and Max the extremes over the files that have a selected element, Avg the quotient, zeros when there is none. It fails only when the ID bitmap of a file cannot be read, and never returns a partial result.',
 quantifier=(['inputs', 'configurations', 'histories'], 'any number of files with any overlap of their IDs, all filters, all results of the single files'),
 why='Tests use two or three files with a handful of updates. Whether an old value leaks depends on which files hold an ID, which of them have no selected element, and in which order that happens.',
 files=['pkg/multicol/aggregate.go'],
 mechanism=[('loop over the files and the deny filter', 'MultiReader.Aggregate'), ('combining two results', 'mergeAggregateResults')],
 observe=['MultiReader.Aggregate'],
 technique='induction over the loop on a gated value graph built from SSA (loop invariant over the state and the deny filter, case analysis of the combination)', level='proof',
 note='Analyses every exported operation over several files. The aggregation of one file and its ID bitmap are operations of the reader here (decided by C04 to C09, and C24). The list is ordered oldest to newest by its contract.' + TB),
dict(id='C11', title='A successful block write or finalization is durable',
 statement='When writing a block, or finalizing a file, reports success (including the report that only a prefix of the items was written), every byte that the operation wrote has been followed by a successful sync of the same file before it returned.',
 quantifier=(['inputs', 'configurations', 'crash_points'], 'all inputs, encodings, block sizes and paths through the operations, including partial blocks, empty files and blocks that need no padding'),
 why='Tests read the file back through the page cache, which shows unsynced data; no test observes a sync, let alone on every path.',
 files=['pkg/col/writer_block_io.go', 'pkg/col/writer_finalize.go'],
 mechanism=[('sync at the end of a block', 'writeBlockInternal'), ('sync at the end of finalization', 'Finalize')],
 observe=['Writer.WriteBlock', 'Writer.Finalize', 'Writer.FinalizeAndClose'],
 technique='typestate analysis (write/sync ordering) on a gated value graph built from SSA', level='proof',
 note='For every write on every path: success and "no later successful sync" are contradictory.' + TB + ' The disk honours fsync.'),
dict(id='C12', title='The completeness marker is the last thing to reach the disk',
 statement='A file opens only if it ends in the completeness marker and starts with the magic number. Finalization writes the marker exactly once, as the last bytes of the file, on every successful path, and every byte outside the trailer is synced successfully before the first byte of the trailer is written; no other operation writes the marker at the end of the file.',
 quantifier=(['crash_points', 'inputs', 'configurations'], 'every crash point and every order in which unsynced writes can reach the disk, for all file contents and encodings; a trailer torn inside its own 24 bytes is outside'),
 why='Tests never crash between two writes, and the page cache hides the order in which they reach the disk.',
 files=['pkg/col/writer_finalize.go', 'pkg/col/reader_header.go'],
 mechanism=[('sync before the footer metadata', 'Finalize'), ('magic numbers demanded on opening', 'readHeader, readFooter')],
 observe=['Writer.Finalize', 'NewReader'],
 technique='write-ordering analysis on a gated value graph: the marker is found as the constant every successful open compares, then barriers are checked on all paths', level='proof',
 note='Decides ordering and demands on all paths; assumes the 24-byte trailer itself is not torn.' + TB),
dict(id='C13', title='No failed write goes unreported',
 statement='When any write, seek, sync or close of the file, or any operation of the underlying writer, fails while a file is being created, written, finalized or closed, the caller of the exported operation gets an error.',
 quantifier=(['fault_sequences', 'inputs', 'configurations'], 'every single failing file operation at every call site, every iteration and every encoding'),
 why='Tests run on a healthy file system: no write ever fails in them.',
 files=['pkg/col/writer_block_io.go', 'pkg/col/writer_block.go', 'pkg/col/writer_finalize.go', 'pkg/col/writer_header.go', 'pkg/col/simple_writer.go'],
 mechanism=[('error returns of every file operation', 'all writer files')],
 observe=['NewWriter', 'Writer.WriteBlock', 'Writer.Finalize', 'Writer.FinalizeAndClose', 'Writer.Close', 'SimpleWriter.Write', 'SimpleWriter.Close'],
 technique='error-propagation analysis on a gated value graph, through loops by their continuation and exit conditions', level='proof',
 note='For every fallible operation: "it failed" and "success is reported" are contradictory, also through loops and accumulated errors. Failures of the size estimate that only end the search for a partial block are allowed.' + TB),
]
PROPS += [
dict(id='C14', title='No failed read goes unreported',
 statement='When opening or reading a file fails at any point (a failing open, stat, seek or read, a read that delivers too few bytes, an operation of an underlying reader that fails, or data that the code itself rejects with an error), the caller of the exported operation gets an error; it never gets a success with the data missing. The aggregations of one file have no error result: that they leave out blocks they cannot read is a recorded finding.',
 quantifier=(['fault_sequences', 'inputs'], 'every single failing read operation at every call site and in every iteration, for every file content'),
 why='Tests read healthy files from a healthy file system; no read ever fails or falls short in them.',
 files=['pkg/col/reader.go', 'pkg/col/reader_io.go', 'pkg/col/reader_header.go', 'pkg/col/reader_block.go', 'pkg/col/reader_decode.go', 'pkg/multicol/aggregate.go'],
 mechanism=[('error returns of every read', 'readBytesAt and its callers'), ('rejection of bad data', 'readBlock, decodeBlockData')],
 observe=['NewReader', 'Reader.GetPairs', 'Reader.GetGlobalIDBitmap', 'Reader.Close', 'MultiReader.Aggregate', 'MultiReader.Close'],
 technique='error-propagation analysis on a gated value graph built from SSA, through loops by their continuation and exit conditions', level='proof',
 note='For every fallible read and every error value the code makes: "it failed" and "success is reported" are contradictory.' + TB),
dict(id='C19', title='Opened files are closed again',
 statement='An exported operation that fails closes every file it opened. Closing a reader or a writer, and finalize-and-close, close the file on every path, including when finalization fails; closing a multi-file reader closes every one of its readers even when closing one of them fails.',
 quantifier=(['fault_sequences', 'inputs'], 'all failing and succeeding paths through every constructor and every closing operation, any number of readers'),
 why='A leaked descriptor is invisible to a test that does not count descriptors, and the failing paths are not executed.',
 files=['pkg/col/reader.go', 'pkg/col/writer.go', 'pkg/col/writer_finalize.go', 'pkg/multicol/aggregate.go'],
 mechanism=[('close on failure', 'NewReader, NewWriter'), ('close on every path', 'Reader.Close, Writer.Close, FinalizeAndClose, MultiReader.Close')],
 observe=['NewReader', 'NewWriter', 'NewSimpleWriter', 'Writer.FinalizeAndClose', 'MultiReader.Close'],
 technique='resource typestate analysis (open/close on all paths) on a gated value graph built from SSA', level='proof',
 note='For every open: "failure is reported" and "not closed" are contradictory; closes are on every path and in every iteration.' + TB),
]
PROPS += [
dict(id='C08', title='Parallel aggregation neither races, blocks forever nor leaks goroutines',
 statement='An operation that works with several goroutines ends on every schedule, and only after all of its goroutines have ended: every goroutine is announced to and awaited by the wait group exactly once on every path, no send or receive can block forever, no channel is closed early or twice, and no memory is written by one goroutine while another one can access it.',
 quantifier=(['schedules', 'inputs', 'configurations'], 'all schedules, worker counts, block counts, filters and both ways of aggregating (from the index, from the blocks)'),
 why='A test sees one schedule per run and a few combinations of workers and blocks; a race or a blocking worker needs a particular one.',
 files=['pkg/col/reader_aggregate.go'],
 mechanism=[('workers, wait group and result channel', 'aggregateParallelWithFooter, aggregateParallelWithReading')],
 observe=['Reader.AggregateWithOptions'],
 technique='concurrency discipline analysis (escape/ownership of memory, wait group and channel typestate) on a gated value graph built from SSA', level='proof',
 note='Ownership and typestate rules that imply race freedom and termination of the waiting; symbolic block count, filters and ranges, worker counts 4 and GOMAXPROCS.' + TB),
dict(id='C17', title='One open reader may be used from any number of goroutines',
 statement='Any number of goroutines may use one open reader at the same time (reading blocks, aggregating, iterating, fetching the ID bitmap, switching bitmap caching on and off) without data races and without one call disturbing another: no operation changes state of the reader that another one accesses except under a common mutex, none uses the position of the shared file, and every mutex is released and never locked twice by one call. Closing is outside.',
 quantifier=(['schedules', 'inputs'], 'all schedules of all combinations of reading operations on one reader'),
 why='Tests run few schedules and few combinations, and without the race detector; an unsynchronised access shows on almost none of them.',
 files=['pkg/col/reader.go', 'pkg/col/reader_io.go', 'pkg/col/reader_block.go', 'pkg/col/reader_aggregate.go'],
 mechanism=[('positioned reads', 'readBytesAt'), ('mutex around the cached bitmap', 'GetGlobalIDBitmap')],
 observe=['Reader.GetPairs', 'Reader.AggregateWithOptions', 'Reader.GetGlobalIDBitmap', 'Reader.EnableGlobalIDBitmapCaching', 'Reader.DisableGlobalIDBitmapCaching', 'Reader.FilteredBlockIterator'],
 technique='lockset analysis over all accesses to receiver-reachable memory, collected on gated value graphs built from SSA', level='proof',
 note='Every store to receiver-reachable memory and every access to the same location hold a common mutex on all paths.' + TB + ' Reading operations of sroar bitmaps do not change them.'),
dict(id='C18', title="The caller's data stays the caller's",
 statement='No operation modifies the ID and value slices or the filter bitmaps that it is given, nor a bitmap that it obtained from a reader; and no writer keeps a reference to the slices it was given, so that changing them after the call returns does not change what is written.',
 quantifier=(['inputs', 'configurations', 'histories'], 'all inputs, encodings and sequences of operations'),
 why='Tests neither compare their inputs before and after the call nor reuse their buffers between calls.',
 files=['pkg/col/simple_writer.go', 'pkg/col/writer_block_io.go', 'pkg/col/encoding.go', 'pkg/col/reader_aggregate.go', 'pkg/multicol/aggregate.go'],
 mechanism=[('copy of the input', 'SimpleWriter.Write'), ('deny bitmap of its own', 'MultiReader.Aggregate')],
 observe=['Writer.WriteBlock', 'SimpleWriter.Write', 'Reader.AggregateWithOptions', 'MultiReader.Aggregate'],
 technique='ownership and escape analysis (stores, appends and retained references) on a gated value graph built from SSA', level='proof',
 note='Every store, append and bitmap change of every exported operation is resolved to the memory it hits.' + TB),
]
AG = 'The result is unfolded from the value graph into its contributions (value, loops, guard), through filtered slices, worker partitions and channels, and compared with the specification as sets.'
PROPS += [
dict(id='C04', title='An unfiltered aggregate combines every block exactly once',
 statement='Aggregating a file without filters combines every block exactly once, whatever the number of blocks and their contents: from the block index it adds the stored counts and sums and takes the extremes of the stored minima and maxima, each decoded from its stored unsigned form; when stored statistics are skipped or there are none, it does the same with every value of every block it can read. Count, Min, Max and Sum are those and nothing else contributes to them.',
 quantifier=(['inputs', 'configurations'], 'all files (any number of blocks, any statistics, any values, including only negative or only decreasing ones) with both settings of SkipPreCalculated'),
 why='Tests aggregate a few files; an accumulator that starts at the wrong value, skips a block or drops a sign shows only for particular values.',
 files=['pkg/col/reader_aggregate.go'],
 mechanism=[('accumulation loops', 'AggregateWithOptions'), ('stored form of signed statistics', 'uint64ToInt64')],
 observe=['Reader.Aggregate', 'Reader.AggregateWithOptions'],
 technique='algebraic summarisation of loops (monoid folds) on a gated value graph built from SSA', level='proof',
 note=AG + ' Blocks of the writer are not empty (C03). Sums wrap as int64.' + TB),
dict(id='C05', title='A filtered aggregate sees exactly the selected elements',
 statement='Aggregating with an allow filter, a deny filter or both gives Count, Min, Max and Sum of exactly those elements of the readable blocks whose ID is in the allow filter (when there is one) and not in the deny filter (when there is one): no selected element is left out, because its block was skipped or otherwise, and no other element contributes.',
 quantifier=(['inputs', 'configurations'], 'all files whose block index bounds the IDs of every block, all allow and deny filters, all filter combinations, sequentially'),
 why='Tests use a few filters; a filter that ends exactly at a block boundary, or an ID that only one of two filters holds, decides whether skipping blocks is right.',
 files=['pkg/col/reader_aggregate.go'],
 mechanism=[('block skipping', 'FilteredBlockIterator'), ('element filter', 'readBlockFiltered'), ('accumulation', 'aggregateWithFilter')],
 observe=['Reader.AggregateWithOptions'],
 technique='algebraic summarisation of loops (monoid folds, comprehension inversion) on a gated value graph built from SSA', level='proof',
 note=AG + ' Uses MinID <= id <= MaxID of a block and Minimum <= id <= Maximum of a bitmap.' + TB),
dict(id='C06', title='Block selection by ID filters leaves out no block that holds a selected ID',
 statement='FilteredBlockIterator returns only numbers of blocks of the file, each at most once; without an allow filter every block, with one only blocks whose ID range meets the range of that filter; and every block that holds an ID which is in the allow filter (when there is one) and not in the deny filter (when there is one) is among them, in whatever order blocks and IDs were written.',
 quantifier=(['inputs', 'configurations'], 'all files whose block index bounds the IDs of every block, all allow and deny filters, all filter combinations'),
 why='Tests use a few files with ascending blocks; a filter that ends exactly at a block boundary, blocks that are out of order, or a deny filter with a hole decide whether leaving out a block is right.',
 files=['pkg/col/reader_aggregate.go'],
 mechanism=[('block selection', 'FilteredBlockIterator')],
 observe=['Reader.FilteredBlockIterator'],
 technique='algebraic summarisation of loops (comprehensions over the block index) on a gated value graph built from SSA', level='proof',
 note=AG + ' Uses MinID <= id <= MaxID of a block (C03) and Minimum <= id <= Maximum of a bitmap. The order of the returned numbers is not decided.' + TB),
dict(id='C07', title='Parallel aggregation gives the sequential result',
 statement='For every number of workers, AggregateWithOptions with Parallel set gives the Count, Min, Max and Sum it gives without: the workers\' ranges cover every selected block and element exactly once, no filter is forgotten in a worker, and merging the partial results neither loses one nor starts from a value that is not an element.',
 quantifier=(['inputs', 'configurations', 'schedules'], 'all files and filters, both settings of SkipPreCalculated, any number of blocks, four workers and all cores (a symbolic number), results merged in any order'),
 why='Tests use a few block and worker counts; a block count that does not divide evenly, an idle worker or an all-negative selection decides whether the partition and the merge are right.',
 files=['pkg/col/reader_aggregate.go'],
 mechanism=[('partition into workers', 'aggregateParallelWithFooter, aggregateParallelWithReading'), ('merge of partial results', 'aggregateParallelWithFooter, aggregateParallelWithReading')],
 observe=['Reader.AggregateWithOptions'],
 technique='algebraic summarisation of loops, goroutines and channels (monoid folds, index partitions) on a gated value graph built from SSA', level='proof',
 note=AG + ' Both the parallel and the sequential result are shown equal to one specification. Relies on C08 for the schedule.' + TB),
dict(id='C09', title='The average is Sum divided by Count, and an empty selection gives zeros',
 statement='Whenever an aggregation of a file returns a result, either Count is zero and Min, Max, Sum and Avg are zero as well, or Avg is the double-precision quotient of that Sum and that Count. This holds with and without filters, stored statistics and workers.',
 quantifier=(['inputs', 'configurations'], 'all files, filters, worker counts and both settings of SkipPreCalculated; every return'),
 why='Tests check an average here and there; that an empty selection leaks an initial accumulator value, or that one of the four code paths divides differently, shows only on that path.',
 files=['pkg/col/reader_aggregate.go'],
 mechanism=[('average and empty result of each path', 'AggregateWithOptions, aggregateWithFilter, aggregateParallelWithFooter, aggregateParallelWithReading')],
 observe=['Reader.Aggregate', 'Reader.AggregateWithOptions'],
 technique='path-sensitive term comparison on a gated value graph built from SSA', level='proof',
 note='Every returned result on every path is the zero result, or its count is provably not zero there and Avg is the float quotient of the same Sum and Count.' + TB),
]
CM = 'The driver (open-ended writer, one block, any number of blocks before and after, finalize, reopen, read) is type-checked with the repository and analysed, never run. '
PROPS += [
dict(id='C01', title='What a block write accepted is what a reader returns',
 statement='When writing a block reports success, then after any number of other blocks before and after it, finalization and reopening, the file opens, reports exactly the number of blocks written, and reading that block returns exactly the IDs and values given, in order, for every supported column encoding; a block in an encoding that the reader does not support is refused.',
 quantifier=(['inputs', 'configurations', 'histories'], 'all slices of IDs and values of any length, all 64-bit IDs and values (wrapping deltas and every varint width included), all eight encodings and unknown ones, every position of the block among any number of others, every file offset up to 1 TiB'),
 why='Tests round-trip a handful of small blocks with small values; offsets, section sizes and counts of later blocks, varint boundaries, wrapping deltas and encodings combine in ways no sample covers.',
 files=['pkg/col/writer_block_io.go', 'pkg/col/writer_finalize.go', 'pkg/col/encoding.go', 'pkg/col/reader_header.go', 'pkg/col/reader_block.go', 'pkg/col/reader_decode.go'],
 mechanism=[('layout of a block', 'writeBlockInternal, readBlock'), ('column codecs', 'encodeData, decodeBlockData, encodeVarInt, decodeVarInt'), ('index of the blocks', 'Finalize, readFooter')],
 observe=['Writer.WriteBlock', 'Writer.FinalizeAndClose', 'NewReader', 'Reader.BlockCount', 'Reader.GetPairs'],
 technique='symbolic dataflow of writer and reader composed over an abstract file image (gated value graphs from SSA, loop summaries, codec pairs by bit-level abstract interpretation)', level='proof',
 note=CM + 'Every byte the reader looks at is resolved to the write that put it there; what comes back must equal what went in as a normal form.' + TB),
dict(id='C02', title='A full block stores exactly the prefix it reports',
 statement='When writing a block reports that the block is full, the reported number n of items is at least one and less than the number given, and after finalization and reopening that block holds exactly the first n IDs and values, in order; the file reports exactly the number of blocks written.',
 quantifier=(['inputs', 'configurations', 'histories'], 'all slices of any length, all 64-bit IDs and values, all target sizes, all eight encodings, every position of the block among any number of others'),
 why='The number of items that fit depends on the values (varint widths), the target and the file offset (padding); tests try a few fixed sizes.',
 files=['pkg/col/writer_block_io.go', 'pkg/col/encoding.go', 'pkg/col/reader_block.go', 'pkg/col/reader_decode.go'],
 mechanism=[('search for the number of items that fit', 'WriteBlock, EstimateBlockSize'), ('layout of a block', 'writeBlockInternal, readBlock')],
 observe=['Writer.WriteBlock', 'BlockFullError', 'Reader.GetPairs'],
 technique='symbolic dataflow of writer and reader composed over an abstract file image (gated value graphs from SSA, loop summaries, codec pairs by bit-level abstract interpretation)', level='proof',
 note=CM + 'The number of items written is a loop result; bounds and the prefix relation follow from the loop exits.' + TB),
]
PROPS += [
dict(id='C03', title='The stored statistics of a block are those of its items',
 statement='For every block written, completely or in part, the block index of the reopened file holds the number of items of the block, the least and greatest of its IDs, the least and greatest of its values and the (wrapping) sum of its values, as aggregation decodes them.',
 quantifier=(['inputs', 'configurations', 'histories'], 'all slices of any length, sorted or not, all 64-bit IDs and values including the extremes, all eight encodings, complete and partial blocks, every position among any number of blocks'),
 why='Aggregates without a filter and the skipping of blocks use only these statistics; tests check them for small sorted blocks of small positive numbers.',
 files=['pkg/col/writer_block_io.go', 'pkg/col/utils.go', 'pkg/col/writer_finalize.go', 'pkg/col/writer_block.go', 'pkg/col/format.go', 'pkg/col/encoding.go', 'pkg/col/reader_header.go'],
 mechanism=[('computing the statistics', 'calculateMinMaxUint64, calculateMinMaxInt64, calculateSumInt64'), ('storing them', 'writeBlockFooter, NewFooterEntry, int64ToUint64'), ('reading them', 'readFooter, uint64ToInt64')],
 observe=['Reader.Aggregate', 'Reader.DebugInfo'],
 technique='symbolic dataflow of writer and reader composed over an abstract file image; statistics unfolded as min/max/sum folds over loop summaries', level='proof',
 note=CM + 'Index entry N of the reader is compared with folds over the items of block N.' + TB),
dict(id='C22', title='Blocks end on page boundaries and respect the target size',
 statement='Every block that is written, completely or in part, ends at a multiple of 4096 in the file, and takes no more than the target block size, unless it holds a single item.',
 quantifier=(['inputs', 'configurations', 'histories'], 'all items, encodings, target sizes and file offsets'),
 why='Size and padding depend on the values, the encoding, the target and the offset; tests check sizes for a few fixed inputs.',
 files=['pkg/col/writer_block_io.go', 'pkg/col/utils.go'],
 mechanism=[('search for the number of items that fit', 'WriteBlock, EstimateBlockSize'), ('padding', 'calculatePadding')],
 observe=['Writer.WriteBlock', 'Reader.DebugInfo'],
 technique='symbolic dataflow with linear forms modulo powers of two and facts established by loop exits, on a gated value graph built from SSA', level='proof',
 note=CM + 'The size is the difference of the file positions around the block.' + TB),
dict(id='C24', title='The ID bitmap of a file is exactly the set of IDs written',
 statement='The ID bitmap that a reopened file returns contains exactly the IDs of the items that were written to it: a block adds exactly the IDs that it holds (of a partial block, only those of the items written), a refused block adds none, and what is read back is what was finalized, however often it is asked for, with caching or without; a file without blocks opens, has no blocks and no IDs.',
 quantifier=(['inputs', 'configurations', 'histories'], 'all IDs, encodings, complete, partial and refused blocks, any number of blocks, cached and uncached'),
 why='Multi-file queries subtract this bitmap from older files, so one ID too many hides data; tests do not cover partial or refused blocks.',
 files=['pkg/col/writer_block_io.go', 'pkg/col/writer_finalize.go', 'pkg/col/reader.go'],
 mechanism=[('collecting the IDs', 'writeBlockInternal'), ('storing the bitmap', 'writeGlobalIDBitmap'), ('reading it', 'GetGlobalIDBitmap')],
 observe=['Writer.WriteBlock', 'Reader.GetGlobalIDBitmap'],
 technique='symbolic dataflow of writer and reader composed over an abstract file image; bitmap content unfolded over loop summaries', level='proof',
 note=CM + 'Trusts sroar: Set and Or add what they are given, FromBuffer undoes ToBuffer.' + TB),
]
PROPS += [
dict(id='C20', title='The buffering writer writes every pair once, in blocks of ascending IDs',
 statement='Over any number of calls, with IDs in any order within and across calls, the blocks that a SimpleWriter writes up to a successful Close hold exactly the pairs given to successful calls of Write, each pair once with its ID and value together and the IDs of each block ascending, also when a block turns out to be full and takes only a part; TotalItems is at every time the number of pairs in the blocks written. A pair stays pending until a block that holds it was written, a call that fails to write a block says so, and Close succeeds only when nothing is pending.',
 quantifier=(['histories', 'inputs', 'fault_sequences'], 'all sequences of calls, batch sizes and ID orders, every number of pairs that a full block takes, every failing block write'),
 why='Tests write a few thousand consecutive IDs; what is left over when a block is full, several times in a row, and how batches that overlap are merged depend on sizes and orders that no sample covers.',
 files=['pkg/col/simple_writer.go'],
 mechanism=[('buffering and flushing', 'SimpleWriter.Write, flushIfNeeded'), ('sorting', 'isSorted, sortByID'), ('the rest of a full block', 'BlockFullError')],
 observe=['SimpleWriter.Write', 'SimpleWriter.Close', 'SimpleWriter.TotalItems'],
 technique='symbolic dataflow of multisets of pairs through loops, sorts and slices (inductive state invariant over calls, rounds and recursion)', level='proof',
 note='The block writer is taken by its contract (C01, C13): success took all, a full block took a prefix, another error nothing. Every segment between two block writes is decided: what is pending at its end is what was pending at its start, plus the batch, less what was written. Ascending: a sort by a comparator that orders by ID, or a scan that compared all neighbours.' + TB),
dict(id='C21', title='A buffering writer stays open until closed; rejected calls change nothing',
 statement='A new SimpleWriter is open, holds nothing and has written no items; it counts as closed exactly from the first successful Close on, which has finalized and closed the file as its last action, and a failed Close leaves it open. Once closed, Write and SetTargetBlockSize fail, another Close succeeds, and none of them changes anything or touches the file. Write fails without changing anything when the numbers of IDs and values differ, and succeeds without changing anything when there are none; SetTargetBlockSize makes the given size the block size used from then on, or fails and changes nothing.',
 quantifier=(['histories', 'inputs', 'fault_sequences'], 'all sequences of calls, all arguments, all failures of the writes and of finalization'),
 why='Tests close each writer once and never make finalization fail.',
 files=['pkg/col/simple_writer.go'],
 mechanism=[('open and closed', 'SimpleWriter.Close, SimpleWriter.IsClosed'), ('argument checks', 'SimpleWriter.Write, SetTargetBlockSize'), ('construction', 'NewSimpleWriter')],
 observe=['NewSimpleWriter', 'SimpleWriter.Write', 'SimpleWriter.SetTargetBlockSize', 'SimpleWriter.Close', 'SimpleWriter.IsClosed'],
 technique='typestate and effect analysis on a gated value graph built from SSA', level='proof',
 note='Per operation and return: which fields, slices and file operations may be affected under the stated condition.' + TB),
dict(id='C25', title='Files of another format are refused',
 statement='Opening a file succeeds only if its header carries the magic number, the version, the column type and the compression type that this version writes and one of the supported encodings, and the file ends in the magic number. An opened file has exactly as many index entries as it reports blocks; a file whose index is shorter than its header says is refused.',
 quantifier=(['inputs'], 'all contents of a file'),
 why='Tests open files that the same version wrote, so no field ever has another value; a check that is lost or weakened passes them all, and a file of a newer format is then decoded as garbage.',
 files=['pkg/col/reader_header.go', 'pkg/col/writer_header.go'],
 mechanism=[('checks of the header', 'readHeader'), ('checks of the trailer and the index', 'readFooter')],
 observe=['NewReader', 'Reader.BlockCount'],
 technique='path-condition analysis: the condition of a successful open as a formula over the bytes of the file, compared with the constants that the constructor of a writer emits', level='proof',
 note='Decides every field of the documented header that says how to read the rest; what a damaged but well-formed file contains is outside (C30).' + TB),
dict(id='C26', title='A file reports the format it was written with',
 statement='The version and the encoding that an opened file reports are those stored in its header, which are the version of the writer and the encoding it was asked for, from its creation to after finalization. It reports variable-length encoding exactly for the four variable-length encodings, and delta encoding for the three delta encodings and not for the raw and the plain variable-length one.',
 quantifier=(['inputs', 'configurations'], 'all encodings and all contents of a file'),
 why='Tests ask this of one or two encodings.',
 files=['pkg/col/reader.go', 'pkg/col/reader_header.go', 'pkg/col/writer_header.go', 'pkg/col/writer_finalize.go'],
 mechanism=[('reporting', 'Version, EncodingType, IsDeltaEncoded, IsVarIntEncoded'), ('storing', 'writeHeader, Finalize')],
 observe=['Reader.Version', 'Reader.EncodingType', 'Reader.IsDeltaEncoded', 'Reader.IsVarIntEncoded'],
 technique='symbolic dataflow from the bytes of the header to the results, and from the options of the writer to the header fields it emits', level='proof',
 note='For the variable-length encodings that also use deltas, what is said about delta encoding is left open: the documentation does not settle it.' + TB),
dict(id='C15', title='No file contents and no arguments crash a read',
 statement='Whatever bytes a file holds, and whatever block number, filters and number of workers are asked for, opening, reading blocks and IDs, and aggregating end in a result or an error: they never panic or end the process. No buffer is made that is longer than the file and what was read from it, whatever sizes the file announces. A block that was read has as many IDs as values.',
 quantifier=(['inputs', 'configurations'], 'all contents of a file, all arguments and options, all encodings'),
 why='Tests read files that the same version wrote; which offsets, counts and sizes a damaged or truncated file can announce, alone and together, is unbounded, and one unchecked number ends the process of the user.',
 files=['pkg/col/reader.go', 'pkg/col/reader_header.go', 'pkg/col/reader_block.go', 'pkg/col/reader_io.go', 'pkg/col/reader_decode.go', 'pkg/multicol/aggregate.go'],
 mechanism=[('checks of offsets and sizes before reading', 'readFooter, readBytesAt, readGlobalIDBitmap'), ('checks of the sections of a block', 'readBlock, decodeBlockData'), ('ends of the decoders', 'decodeVarInt, decodeUVarInt')],
 observe=['NewReader', 'Reader.GetPairs', 'Reader.Aggregate', 'Reader.AggregateWithOptions', 'Reader.FilteredBlockIterator', 'Reader.GetGlobalIDBitmap', 'Reader.DebugInfo'],
 technique='bounds analysis: every index, slice, division, conversion, shift and allocation against its path condition, with loop invariants inferred and 64-bit wrap-around split into cases', level='proof',
 note='What the bitmap library does with a stored bitmap is outside; that it gets the bytes unchecked is the known finding. Running out of stack or time is outside.' + TB),
dict(id='C16', title='No data and no order of calls crash a write',
 statement='Whatever IDs, values, numbers of items, encodings, block sizes and order of calls a writer is given, and whatever fails underneath, every writing operation ends in success or an error and never panics.',
 quantifier=(['inputs', 'histories', 'configurations', 'fault_sequences'], 'all arguments, all encodings and block sizes, all sequences of calls, all failures of file operations'),
 why='Tests write small regular data with the block sizes the package proposes; the sizes at which a computed count, a buffer or a table runs out are never met.',
 files=['pkg/col/writer_block.go', 'pkg/col/writer_block_io.go', 'pkg/col/writer_encoding.go', 'pkg/col/writer_finalize.go', 'pkg/col/simple_writer.go', 'pkg/col/encoding.go'],
 mechanism=[('argument checks', 'Writer.WriteBlock, SimpleWriter.Write'), ('search for the number of items that fit', 'writer_block_io.go'), ('tables of the written blocks', 'Writer.Finalize')],
 observe=['NewWriter', 'Writer.WriteBlock', 'Writer.EstimateBlockSize', 'Writer.Finalize', 'SimpleWriter.Write', 'SimpleWriter.Close'],
 technique='bounds analysis: every index, slice, division, conversion, shift and allocation against its path condition, with the invariants of the writer proved inductive over its operations', level='proof',
 note='That a full block reports at most the items it was given, and that as many IDs as values are pending, is shown by C02 and C20. Running out of memory is outside.' + TB),
dict(id='C27', title='Every operation ends',
 statement='No reading or writing operation runs forever: for all contents of a file, arguments, encodings, options and failures, every loop has a last round and no operation calls itself without end. That parallel aggregation does not wait forever is a property of its own.',
 quantifier=(['inputs', 'configurations', 'fault_sequences'], 'all contents of a file, all arguments, options and encodings, all outcomes of file operations'),
 why='An endless loop needs the one number that a test does not contain: a counter that wraps around, a step of zero, a continuation that consumes nothing.',
 files=['pkg/col/encoding.go', 'pkg/col/reader_decode.go', 'pkg/col/reader_aggregate.go', 'pkg/col/writer_block_io.go', 'pkg/col/simple_writer.go', 'pkg/multicol/aggregate.go'],
 mechanism=[('loops over counted data', 'decodeBlockData, decodeUVarInts, Finalize'), ('loops over bits and bytes', 'encodeVarInt, decodeVarInt'), ('recursion', 'aggregateParallel, flushIfNeeded')],
 observe=['NewReader', 'Reader.GetPairs', 'Reader.AggregateWithOptions', 'Writer.WriteBlock', 'SimpleWriter.Write', 'SimpleWriter.Close'],
 technique='ranking analysis of every loop on a gated value graph: a bounded number of rounds, or a linear quantity proved to decrease while it is positive; recursion by specialisation to its constant arguments', level='proof',
 note='Recursion of the buffering writer is well-founded because a full block took at least one pair (C02). Library functions and single file operations are taken to end.' + TB),
]
PROPS += [
dict(id='C30', title='Corrupted file contents are detected',
 statement='A file in which bytes of a block, the index or the header were changed after it was written is refused, or reading the damaged part fails, instead of returning different data.',
 quantifier=(['inputs'], 'every change of bytes of every file'),
 why='The set of possible corruptions cannot be sampled; no test corrupts payload bytes.',
 files=['pkg/col/format.go', 'pkg/col/writer_finalize.go', 'pkg/col/reader_header.go'],
 mechanism=[('checksum fields of header, blocks and footer', 'column_format_spec.md')],
 observe=['NewReader', 'Reader.GetPairs'],
 na='The code writes zero into the checksum fields and never compares them, so there is no mechanism whose correctness an analysis could establish; detecting that a corruption changes the data is a statement about the bytes of a particular file (a hash), which no static argument bounds. Implementing checksums is a feature, not a small repair.'),
dict(id='C31', title='Variable-length and delta encodings make files smaller',
 statement='For typical data (sorted, dense IDs, small values) a file with variable-length or delta encoding is smaller than the raw one.',
 quantifier=(['inputs'], 'typical data sets'),
 why='Depends on the distribution of the data.',
 files=['pkg/col/encoding.go', 'pkg/col/writer_encoding.go'],
 mechanism=[('variable-length encoding', 'encodeData')],
 observe=['file size'],
 na='The claim quantifies over the distribution of values at run time ("typical"), and is false for others (10 bytes for large values); there is nothing for a static argument to decide. What can be decided about sizes, the target and the page boundary, is C22.'),
dict(id='C32', title='Aggregation from stored statistics and with workers is faster',
 statement='Aggregating from the index, or with several workers, takes less time than scanning the blocks sequentially.',
 quantifier=(['inputs', 'schedules'], 'all files and machines'),
 why='Run time depends on the machine.',
 files=['pkg/col/reader_aggregate.go'],
 mechanism=[('stored statistics', 'Aggregate'), ('workers', 'AggregateWithOptions')],
 observe=['run time'],
 na='Run time is a measurement; the static family has no argument for it.'),
]
