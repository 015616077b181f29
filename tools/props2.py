G = "matchit/src/searchable/grepit.rs"
S = "matchit/src/searchable/searchit.rs"
F = "matchit/src/searchable/readfallbackit.rs"
L = "matchit/src/lib.rs"
P("C06", "Sequential iteration yields every message once, in file order",
  "Iterating a buffer from any offset yields, at each step, the message at the first marker at or behind the end of the previous message, with its offset: raw data in between is skipped, no message is skipped or repeated, and none is made up. The iteration stops only when there is no further marker or when no complete message starts at the next marker, and then stays at its end. Leaving out the offsets leaves out nothing else.",
  ["inputs"], "every buffer, every start offset, every message type that honours the trait contract; and the library's own DLT iterators on every buffer",
  "The tests count the messages of a few recorded files; raw data between messages, cut-off messages and markers inside payloads do not occur in them.",
  [F, D, L], [("ReadFallbackIterator::next", F), ("dltit and dltit_offset", D)], ["ReadFallbackIterator::next", "dltit", "dltit_offset"])
P("C07", "The strict iterator yields contiguous messages until the first gap",
  "The strict iterator yields the message at its start offset and then, each time, the message that starts exactly where the previous one ended. It stops at the first position where no complete message starts, never skips data to find another one, and never reads past the end of the buffer.",
  ["inputs"], "every buffer, every start offset",
  "The tests only run it over files that consist of complete messages.",
  ["matchit/src/readit.rs"], [("ReadIterator::next", "matchit/src/readit.rs")], ["ReadIterator::next"])
P("C08", "Marker search finds every complete message, forwards and backwards",
  "Searching forwards yields, at each step, the first complete message at or behind the end of the previous one, passing over markers without a complete message; searching backwards yields the last complete message whose marker ends at or before the current position, in descending order of offsets. No complete message in the searched range is skipped or reported twice, every reported offset carries the marker and the message that starts there, and a finished search stays finished. Single searches and the first/last-marker helpers agree with this.",
  ["inputs"], "every buffer, every start offset, any number of false markers in a row",
  "The tests search recorded files in which nearly every marker starts a complete message.",
  [S, "matchit/src/searchable/mod.rs"], [("SearchIterator and RevSearchIterator", S), ("search_marker, search_last_marker", "matchit/src/searchable/mod.rs")], ["SearchIterator::next", "SearchIterator::search", "RevSearchIterator::next", "RevSearchIterator::search"])
P("C09", "Grep reports exactly the messages that contain a match, once each",
  "A message is reported by the grep iterator if and only if a match of the pattern lies completely inside it, where matches are those the regular expression engine finds from the start offset or from the end of the last reported message, each next one behind the previous (one byte further after an empty match), and a match belongs to the message of the closest preceding marker. Every such message is reported once, at its own offset, in file order; matches in raw data or across a message boundary report nothing and hide nothing. The search ends when no match is left.",
  ["inputs"], "every buffer, start offset and pattern",
  "The tests grep two patterns in recorded files and compare totals; matches across message boundaries, in raw data, and empty matches are not in them.",
  [G], [("GrepIterator::search and next", G)], ["GrepIterator::next", "GrepIterator::search"])
P("C10", "The capture iterator reports the first group of every matching message",
  "For the first match inside each message that has a first capture group, the capture iterator yields the offset of that message and the range of that group within the buffer; the range lies inside that message. Each message is reported at most once and in file order, and matches outside of messages, across message boundaries or without the group report nothing and do not end the iteration.",
  ["inputs"], "every buffer, start offset and pattern",
  "The tests use one pattern on one recorded file.",
  [G], [("RegExMatcherIterator::capture and next", G)], ["RegExMatcherIterator::next", "RegExMatcherIterator::capture"])
P("C11", "Partitions cover the whole buffer and never cut a message in two",
  "For every number of partitions asked for, the partitions of a buffer are non-empty, contiguous, start at its first byte and end with its last byte; an empty buffer has none. Every boundary between two partitions is either outside of every message or the first byte of the message that contains the position, so that no message spans two partitions. Partitioning terminates and does not fail, however long a message is compared with a partition.",
  ["inputs"], "every buffer, every number of partitions (0 and more than the length included), every arrangement of messages",
  "The tests partition recorded files of short messages into a few partitions and compare counts.",
  [L], [("partition_from", L)], ["partition_from"])
P("C12", "The containing message of a byte range is found exactly",
  "For a non-empty byte range inside the buffer, the end of the buffer included, the container reported is the first complete message that starts before the range, at most one maximum message length back, covers the last byte of the range, and whose own marker is not part of a container in turn (a definition that only refers to earlier positions); its offset and message are those in the buffer. None is reported if and only if there is no such message, or the range is empty or outside the buffer. A message that merely looks like one because its bytes lie in the payload of another message is never reported.",
  ["inputs"], "every buffer and every range, at any depth of nesting",
  "The tests ask for a few positions in recorded files; nested messages occur in one generated file only.",
  [L], [("ContainedBySearch::contained_by", L)], ["ContainedBySearch::contained_by", "partition_from"])

P("C13", "Every scan of a buffer comes to its end",
  "Every iterator over a buffer, whatever its start offset, comes to its end after finitely many items, and each single step terminates; a sequential, strict or marker iterator that has ended stays at its end. Cutting a buffer into any number of partitions terminates. This includes buffers with markers in front of incomplete messages, matches that belong to no message, empty matches, and a last message that ends with the buffer.",
  ["inputs"], "every buffer, start offset, pattern and number of partitions, for every message type that honours the trait contract and for the library's own",
  "The tests scan recorded files of complete messages, which never lead an iterator to a place it cannot leave.",
  [F, S, G, L, "matchit/src/readit.rs", D], [("next of every iterator", S), ("progress of the offset behind a match", G), ("partition_from", L)], ["Iterator::next of every iterator", "partition_from"])

A_ = "matchit/src/generator/adapter.rs"
R_ = "matchit/src/generator/reducer.rs"
GE = "matchit/src/generator/generator.rs"
P("C16", "Push pipelines hand on every item exactly once and in order",
  "In a pipeline of adapters and a reducer, every item pushed reaches the first stage once and in order, and everything a stage gives out reaches the next stage, the reducer or the caller once, in order and before anything else is pushed; an item a stage leaves out takes no effect, and a pipeline ends early only if a stage says so. Flushing drains the stages one behind the other and hands on all they still give out: a stage is flushed only behind those before it, nothing is handed on behind its flush, and the reducer is finished once, at the end. The stages supplied keep to this: a filter keeps exactly the items its predicate holds for, a map replaces each item by its image, a fold applies its function to the last accumulator and the next item, count, sum and collect are the folds they are called, a fork gives every item to both of its reducers and returns both results, and a split gives every item to the reducer of its key and has one result for each key that occurs and no other.",
  ["histories"], "every sequence of items, every stage that gives out, swallows or stops as it likes, every function, predicate and key; numbers of items below 2^40",
  "The tests push a few integers through a handful of fixed pipelines; stages that give out items when they are flushed, that stop, or that hold back items occur in one test.",
  [A_, R_, GE], [("Adapter::adapt and finalize, Filter, Map, NilAdapter", A_), ("Reducer, Fold, Fork, Split", R_), ("Generator's constructors", GE)], ["Adapter::adapt", "Adapter::finalize", "Reducer::next", "Reducer::finalize", "Split::next", "Split::finalize", "Fork", "Fold"])

B_ = "matchit/src/generator/groupby.rs"
FG = "matchit/src/fromgenerator.rs"
P("C17", "Grouping gives out exactly the maximal runs of related neighbours",
  "Grouping cuts the items into maximal runs in which each item is related to the next (a run of one item counts if that item is related to itself), and gives out, for each run and in order, its first and its last item: when the item that ends the run arrives, or when the stage is flushed. No item is left out of the comparison with its neighbours, flushing gives out the last run once, and the stage then starts afresh. Grouping never stops a pipeline, and behaves the same pushed and pulled.",
  ["histories"], "every sequence of items and every relation, reflexive or not",
  "The tests group ten numbers by one reflexive relation and count the groups.",
  [B_, FG], [("GroupBy::adapt and finalize", B_), ("FromAdaptFnCall::groupby", FG)], ["GroupBy::adapt", "GroupBy::finalize", "FromAdaptFn::next"])
P("C18", "Merging keeps every item until the flush, once, alone or as part of another",
  "A merging stage compares each item pushed with what it stores: if one of the stored items belongs together with it, exactly that one is replaced by what the two make, under the key of the result; otherwise no stored item belongs to it and it is stored under its own key. Nothing else stored changes (what is stored under the same key is replaced). Nothing is given out before the flush, and the flush gives out everything stored, once and unchanged, and then ends.",
  ["histories"], "every sequence of items, every merge function and every key function; no item is pushed behind the flush",
  "The tests merge a few intervals and look at the sum; collisions, several candidates and repeated flushes do not occur.",
  [B_], [("Merge::adapt and finalize", B_)], ["Merge::adapt", "Merge::finalize"])
P("C19", "Pulling through a stage gives the same results as pushing",
  "An iterator behind a stage gives the stage every item of the iterator once and in order and hands on every result once and in order, before it takes the next item. When there are no more items the stage is flushed until it has nothing left, all it gives out is handed on, and then the iterator stays at its end. Splitting an iterator gives every item to the reducer of its key, has one result for each key that occurs and no other, and finishes the reducers behind the last item.",
  ["histories"], "every iterator that stays at its end and every stage that does not stop the pipeline, whatever it gives out or holds back; every key function; numbers of items below 2^40",
  "The tests count the groups of ten numbers.",
  [FG], [("FromAdaptFn::next, FromAdaptFnCall::split", FG)], ["FromAdaptFn::next", "FromAdaptFnCall::split"])

DB = "rapiddlt/src/dltbuffer.rs"
P("C14", "Loading a file yields exactly its bytes or an error, however it is loaded",
  "A buffer read from or mapped onto a file holds exactly the bytes of the file with the given name: as_slice and len show all of them and partition cuts all of them into as many partitions as asked for. If the operating system fails to open, read or map the file, loading returns an error and never a buffer with fewer bytes; it returns an error only then.",
  ["fault_sequences"], "every file (of any length and content), every file name, and a failure of any of the operations",
  "The tests load two files that exist and are readable; no operation of theirs ever fails.",
  [DB], [("DltBuffer::mmap_file, read_file, as_slice, len, partition", DB)], ["DltBuffer::mmap_file", "DltBuffer::read_file", "DltBuffer::as_slice", "DltBuffer::len", "DltBuffer::partition"])
DD = "dd_dlt/src/main.rs"
P("C20", "dd_dlt writes exactly one well-formed message for each chunk of its input",
  "Given an ECU and an application identifier of four bytes and a payload size from 1 to 65517, dd_dlt cuts its standard input into chunks of the payload size and writes for each complete chunk, in order, one message and nothing else: storage header with that ECU, standard header (version 1, extended header and timestamp announced, counter, length 18 + payload size), timestamp, extended header (verbose log message of level info, application and context identifier) and the chunk, unchanged, as payload. Message number n (from 0) is stamped n/100 s and (n mod 100) x 10000 us in the storage header and n x 100 in the message, modulo 2^32, and counted n mod 256.",
  ["inputs"], "every input of any length, every identifier and every payload size",
  "There is no test of dd_dlt.",
  [DD, "rapiddlt/src/dlt_v1.rs"], [("main", DD), ("DltStorageHeader::new, DltStandardHeader::new, DltHTyp::new, DltExtendedHeader::new, MessageType::create_message_type", "rapiddlt/src/dlt_v1.rs")], ["bytes written to standard output"])
P("C21", "dd_dlt ends with its input and reports every failure",
  "dd_dlt stops reading at the end of its input and ends successfully only if all of the messages have been written and flushed; what a short write leaves is written before anything else. If reading or writing fails it ends with an error, and it ends with an error only then. Identifiers and payload sizes that do not fit into a message (identifiers not of four bytes, sizes of 0 or above 65517, or no number) are refused before anything is written.",
  ["fault_sequences", "inputs"], "every input, every sequence of failing and of short reads and writes, all arguments",
  "There is no test of dd_dlt, and a failing or short write depends on the operating system.",
  [DD], [("main", DD)], ["exit status of dd_dlt", "bytes written to standard output"])
RD = "ripdlt/src/main.rs"
P("C24", "ripdlt's statistics count what they are named after",
  "Each statistic of ripdlt agrees with its definition over the messages of the file, taken in order: the number of messages, of those with 'Hello World' in the payload and of those matching the pattern; the histograms of message size, payload size (0 without payload), message type (of messages with extended header) and position in buckets; the number of messages of each ECU. Each run counts once, under the difference of its last and its first time, where a run is a maximal sequence of consecutive messages in which the time never goes back: of storage time in the histogram of durations, of the timestamp (messages without one left out) in the histograms of lifecycles, of one ECU where it says so; long lifecycles are those of at least 30 minutes. A key is in a histogram only if it counts something.",
  ["inputs"], "every sequence of messages of a file below 2^40 bytes; every key",
  "There is no test of ripdlt; recorded files show one arrangement of ECUs, restarts and optional headers each.",
  [RD, "matchit/src/generator/generator.rs", "matchit/src/generator/reducer.rs", "matchit/src/generator/groupby.rs", "matchit/src/fromgenerator.rs"],
  [("count, count_hello_world, histogram_*, mstp_info_histogram, lifecycle_*, timestamp_splitit, continuous_timestamp_histogram", RD)], ["numbers and histograms printed by ripdlt"])
P("C22", "ripdlt does not crash on the content of a file",
  "With proper arguments and a file that can be read, every command of ripdlt comes to its end for every content of the file: cut-off or corrupt messages, messages without timestamp, ECU id or extended header, times that jump in any direction, ECU ids that are no text, an empty file. No accessor result is taken for granted, no difference of times underflows and no count overflows (the totals of bytes that the two size histograms print are excepted).",
  ["inputs"], "every file below 2^40 bytes; every serial command; both ways of opening the file",
  "There is no test of ripdlt; recorded files contain only messages with the usual parts.",
  [RD], [("main and the statistics", RD)], ["exit status of ripdlt"])
P("C23", "Every command of ripdlt makes its statistic, parallel ones lose nothing",
  "Each command name of ripdlt runs the statistic of that name: the serial ones on the whole file, the parallel ones on the parts the file is partitioned into. Of a parallel statistic every part is looked at exactly once, and the result is the sum of the results of the parts, key by key and for nested maps at every pair of keys, in whatever grouping the threads combine them. A key is absent only if no part has it.",
  ["inputs", "schedules"], "every number of threads and parts; every result of every part; every key; every grouping of the combinations",
  "There is no test of ripdlt, and a lost or repeated part changes a large number only slightly.",
  [RD], [("multithreaded, par_continuous_timestamp_histogram, par_timestamp_splitit, main", RD)], ["numbers and histograms printed by ripdlt"])
P("C27", "ripdlt prints the statistic it has made, and fails if it cannot make one",
  "Every command prints what its statistic has counted: each key of a histogram once with its number and the interval of seconds, sizes or offsets it stands for, each ECU with its own number and histogram, the two size histograms also the product in kB and their sum, a counting command the number. A file that cannot be loaded, an unknown command and an unknown way to open the file end in failure before anything is counted; with too few arguments nothing is counted either.",
  ["inputs", "fault_sequences"], "every result of every statistic, every key, every argument list; every failure to open, map or read the file",
  "There is no test of ripdlt; a wrong unit, interval or sum looks as plausible as the right one.",
  [RD], [("main", RD)], ["standard output and exit status of ripdlt"])
P("C28", "Message types are equal only if kind and value are, and totally ordered",
  "Two message types are equal exactly if both their kind and their value are the same. Their order is total, transitive and the same from both sides, only equal types are in no order, and the operators agree with it, so that a histogram keeps every message type apart and has one entry for each.",
  ["inputs"], "every pair and every three of the message types; every pair of keys of a verbose flag and an optional type",
  "No test compares message types.",
  ["rapiddlt/src/dlt_v1.rs"], [("DltMessageType and its four kinds of type info: PartialEq, PartialOrd, Ord", "rapiddlt/src/dlt_v1.rs")], ["histogram_message_type of ripdlt, maps keyed by message type"])
P("C29", "The periods of an ECU are the unions of its overlapping runs",
  "The command split_timestamp divides the messages of each ECU, in file order, into runs in which the time of recording (in seconds) does not go back, and each run is a period from its first to its last message. Periods that have a second in common are merged into one from the earlier beginning to the later end, others are not; a period is lost only if another with the same bounds is stored in its place. The histogram of durations of an ECU has, for each duration, the number of the periods of that length that are left.",
  ["inputs"], "every file, every ECU, every duration, every pair of periods; three periods for the replacement of one by another",
  "There is no test of ripdlt, and no recorded file has ECUs that were recorded in overlapping parts.",
  [RD, "matchit/src/generator/groupby.rs", "matchit/src/generator/reducer.rs", "matchit/src/generator/adapter.rs"], [("timestamp_splitit, merge_overlapping_timestamps", RD)], ["durations printed by split_timestamp"])
P("C15", "Looking at a file changes nothing outside of the program",
  "Neither the library nor one of the programs opens a file for writing, or creates, changes, renames or removes a file or folder, starts another program, or connects to another machine. A file that is looked at is opened for reading only and is the same afterwards, whatever it contains and wherever the program stops. All that a program leaves behind is what it wrote to its standard output and error.",
  ["inputs", "crash_points", "configurations"], "every file, every command, every place where the program may stop; every function of the four crates",
  "The tests never look at a file again after it was read, and run on files that others keep.",
  [DB, RD, DD, "rapiddlt/src/dlt_v1.rs", L], [("DltBuffer::mmap_file, read_file", DB), ("main", RD), ("main", DD)], ["files and folders", "processes", "connections"])
P("C25", "Results depend on the bytes only",
  "What decoding, iterating, searching, grouping and partitioning a buffer yields, and what a command of ripdlt prints about it, is determined by the bytes, the start offset, the pattern and the arguments. It does not depend on the time, the environment, random numbers, the thread it runs in, the order of a hash table, or on what was decoded, searched or counted before. So a scan that is repeated, or that runs next to others on other threads, gives the same results.",
  ["inputs", "histories", "schedules"], "every buffer, every sequence of scans in a process, every assignment to threads; every function of the three crates",
  "A test runs a scan once, in one process and thread, and cannot tell a result that differs next time.",
  [L, "rapiddlt/src/dlt_v1.rs", DB, G, S, F, "matchit/src/generator/reducer.rs", "matchit/src/generator/groupby.rs", RD], [("all iterators, accessors, pipeline stages and commands", L)], ["values that differ between two runs"])
P("C26", "Decoding and scanning copy nothing and allocate nothing",
  "Decoding a message, every accessor of a message and each step of every iterator refer to the bytes of the buffer and allocate no memory of their own; so do mapping, filtering, grouping and counting in a pipeline. Memory used by a scan is therefore independent of the size and the content of the file. (What the regular expression engine allocates for itself is excepted.)",
  ["inputs"], "every buffer; every path through the call graph below the entry points",
  "The tests do not measure memory.",
  [L, "rapiddlt/src/dlt_v1.rs", G, S, F, "matchit/src/readit.rs", "matchit/src/fromgenerator.rs", "matchit/src/generator/groupby.rs"], [("try_read, accessors, next", L)], ["heap allocations"])
