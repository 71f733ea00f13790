#!/usr/bin/env python3
"""Writes ../properties.jsonl (the committed source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n} for n in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Signature, delta, patch round trip recreates the new file exactly",
  "For any basis and any new contents, applying to the basis the delta that was computed from the basis' signature succeeds and produces exactly the new contents. "
  "This holds for every signature format (either rolling sum, either strong sum), every block length from 1 byte up, every strong-sum length long enough to exclude accidental collisions (8 bytes or more), and for an empty or absent signature.",
  ["inputs", "configurations"],
  "All basis/new pairs (empty, tiny, shorter than one block, block-boundary +-1, repetitive, shifted, shuffled, appended, truncated, unrelated), all 4 formats, block lengths, strong lengths 8..max.",
  "The shell tests round-trip a few dozen fixed files with a handful of block and buffer sizes; boundary sizes, block_len 1..3, short tails matching inner blocks, literal runs at the 64/255/65533 limits and duplicate blocks are not sampled.",
  ["src/delta.c", "src/mksum.c", "src/readsums.c", "src/patch.c", "src/sumset.c", "src/emit.c", "src/scoop.c", "src/tube.c"],
  [("scan / flush / append match and miss", "src/delta.c rs_delta_s_scan, rs_delta_s_flush"),
   ("command emission", "src/emit.c"), ("command execution", "src/patch.c"), ("block lookup", "src/sumset.c rs_signature_find_match")],
  ["bytes produced by the patch job"])

p("C02", "Results do not depend on how data is chunked into and out of a job",
  "The signature bytes, the delta bytes against a non-empty signature, the signature loaded, and the patched output are the same for every way of slicing the input and the output space over successive calls, including one byte at a time, calls with no input or no output space, end of input announced together with the last data or separately, and unconsumed input presented again in a different buffer. "
  "So is the result for input that is damaged or cut off, and the output of a patch up to the error. A delta without a signature may frame its literals differently but carries the same contents.",
  ["schedules", "inputs"],
  "All sequences of (input chunk, output space, end-of-input timing) for each job type, for all inputs.",
  "Tests drive rdiff with whole files and a few -I/-O sizes; the space of interleavings of input and output blocking inside a command header, a literal, a block sum or a copy is never explored.",
  ["src/job.c", "src/scoop.c", "src/tube.c", "src/delta.c", "src/patch.c", "src/mksum.c", "src/readsums.c"],
  [("input readahead buffer", "src/scoop.c"), ("output side buffer", "src/tube.c"), ("resumable state functions", "src/job.c rs_job_work")],
  ["output bytes and result code per schedule"], ["scoop contents", "tube contents", "pending match/miss state"])

p("C03", "Signatures have exactly the documented contents",
  "A signature consists of the big-endian magic, block length and strong-sum length followed, for each block of the input in order, by the block's rolling sum and the leading bytes of its strong sum, where the last block may be short, and nothing else. "
  "The rolling sums are the documented rollsum and RabinKarp sums and the strong sums are standard MD4 and BLAKE2b-256, so that signatures interoperate with other implementations and versions.",
  ["inputs", "configurations"],
  "All inputs, all four formats, all block lengths and strong lengths including defaults.",
  "Checksum unit tests compare a few short fixed buffers; a wrong sum for particular lengths, contents or truncations round-trips happily with itself but breaks interoperability.",
  ["src/mksum.c", "src/checksum.c", "src/rollsum.c", "src/rabinkarp.c", "src/mdfour.c", "src/blake2/blake2b-ref.c", "src/netint.c"],
  [("header and block output", "src/mksum.c rs_sig_s_header, rs_sig_do_block"), ("sums", "src/checksum.c")],
  ["bytes produced by the signature job vs. an independent implementation"])

p("C04", "Emitted deltas are well-formed, compactly encoded and describe the new file",
  "Every delta produced is the delta magic, a sequence of literal and copy commands with positive lengths, and one end command, with nothing after it. "
  "Each command uses the shortest encoding the format offers for its values, every copy lies within the basis, copies of adjoining parts of the basis that follow one another are one command, and interpreting the commands by the documented format yields exactly the new file.",
  ["inputs", "configurations"],
  "All basis/new pairs and signature formats; literal and copy lengths and offsets around each encoding-width boundary.",
  "Tests only feed deltas back to the same library's patch; an encoder and a decoder that share a mistake, or a non-minimal or out-of-range command, go unnoticed.",
  ["src/emit.c", "src/delta.c", "src/netint.c", "src/prototab.c"],
  [("command emission", "src/emit.c rs_emit_literal_cmd, rs_emit_copy_cmd"), ("integer width", "src/netint.c rs_int_len")],
  ["delta bytes vs. an independent parser and interpreter"])

p("C05", "A copy is emitted only where rolling sum and full strong sum both match",
  "Every copied range in a delta is a run of windows of the new file, each of whose rolling sum and every stored byte of strong sum equal those the signature holds for the basis block it is copied from. "
  "In particular, data whose rolling sum collides with a block's, or whose strong sum differs from it in any single stored byte, is sent literally and never as a copy.",
  ["inputs"],
  "All new files and signatures, including crafted rolling-sum collisions, strong sums off by one bit in any byte, truncated strong sums, duplicated rolling sums.",
  "Random test data essentially never produces a rolling-sum collision, so the strong-sum comparison is never the deciding step in any existing test.",
  ["src/sumset.c", "src/hashtable.h", "src/delta.c"],
  [("strong sum comparison", "src/sumset.c rs_block_match_cmp"), ("lookup", "src/hashtable.h"), ("match/miss decision", "src/delta.c rs_findmatch")],
  ["copy commands vs. recomputed sums"])

p("C06", "Every matchable block is found: unchanged data is not resent",
  "Scanning the new file from the start, wherever the next block-sized window (or the remaining shorter tail) has the sums of some block in the signature it is sent as a copy, and adjacent copies that are contiguous in the basis are merged into one command; only bytes at positions with no matching window are literal. "
  "So an unchanged file yields one copy command, and moved, duplicated or shifted blocks are all found, whatever their rolling sums and however many blocks the signature has.",
  ["inputs", "configurations"],
  "All basis/new pairs; signature sizes from 1 to tens of thousands of blocks including hash-table load boundaries; rolling sums with extreme or clustered values; block content repeated.",
  "No test checks delta size or which bytes are literal; a lookup that misses some blocks still round-trips.",
  ["src/delta.c", "src/hashtable.c", "src/hashtable.h", "src/sumset.c", "src/rollsum.h", "src/rabinkarp.h"],
  [("hash table add/find and bloom filter", "src/hashtable.h"), ("rolling window update", "src/delta.c, src/checksum.h"), ("match merging", "src/delta.c rs_appendmatch")],
  ["literal/copy cover of the new file vs. reference greedy scan"])

p("C07", "Patch executes every valid encoding of every command correctly",
  "Given any delta that is valid in the documented format, including command encodings librsync itself would not choose (any integer width for any value, empty deltas, back-to-back, overlapping, backward and repeated copies, consecutive literals), patch succeeds and outputs exactly what the commands describe. "
  "Patch stops at the end command and consumes nothing after it.",
  ["inputs", "schedules"],
  "All valid command sequences, all 85 opcodes, all parameter widths, lengths and offsets, under any chunking and with any size of read from the basis.",
  "Tests only patch deltas that librsync produced, which use one minimal encoding for each value, plus a few fixed triples.",
  ["src/patch.c", "src/prototab.c", "src/netint.c", "src/tube.c", "src/scoop.c"],
  [("opcode table", "src/prototab.c"), ("command execution", "src/patch.c")],
  ["patched bytes vs. an independent interpreter"])

p("C08", "A damaged delta is never accepted as complete",
  "Patch reports success only after an intact delta: a wrong magic, a reserved command, a zero or negative length, a negative offset, a copy beyond the end of the basis, or input that ends before the end command gives an error, and the kind of error that was documented for it. "
  "Until the error the output is exactly what the preceding commands describe, with no invented bytes, and no input makes patch crash, hang or read outside its buffers.",
  ["inputs", "fault_sequences", "schedules"],
  "All byte strings presented as deltas: every truncation point, mutations of every field, hostile 64-bit values, reserved opcodes, under any chunking.",
  "One shell test feeds a handful of damaged files to rdiff; truncation inside each field and at each chunk boundary, and hostile lengths, are not covered.",
  ["src/patch.c", "src/netint.c", "src/scoop.c", "src/tube.c", "src/prototab.c", "src/fileutil.c"],
  [("validation", "src/patch.c rs_patch_s_literal, rs_patch_s_copy, rs_patch_s_run"), ("end of input", "src/scoop.c, src/tube.c rs_tube_catchup")],
  ["result code and output of the patch job vs. an independent interpreter"])

p("C09", "A damaged signature is never loaded as valid",
  "Loading a signature succeeds only if it has a supported magic, a positive block length, a strong-sum length the strong sum can have, and complete block sums: anything else, or input that ends anywhere but after a complete block, gives the documented kind of error. "
  "What was loaded from an intact signature is exactly its blocks in order, and no input makes loading, indexing or using a signature crash, hang or touch memory outside its buffers.",
  ["inputs", "fault_sequences", "schedules"],
  "All byte strings presented as signatures: every truncation point, header field mutations, hostile lengths and sums, any chunking.",
  "Tests load only signatures librsync made, plus a few fixed broken ones.",
  ["src/readsums.c", "src/sumset.c", "src/hashtable.c", "src/whole.c"],
  [("header checks", "src/readsums.c rs_loadsig_s_*"), ("argument checks", "src/sumset.c rs_sig_args, rs_signature_init")],
  ["result code, and the deltas computed from the loaded signature"])

p("C10", "No memory error or undefined behaviour, and buffers are used as declared",
  "For every input and every call sequence the documentation allows, no job reads or writes outside the memory it was given or owns, uses uninitialised or freed memory, fails an internal consistency check, or executes undefined behaviour. "
  "A call reads only the announced input bytes, never modifies them, writes only into the announced output space, and leaves the pointers and counts describing exactly what it consumed and produced.",
  ["inputs", "schedules", "histories"],
  "All job types, valid and hostile inputs, all chunkings with exactly sized buffers, builds with and without internal checks.",
  "The suite runs uninstrumented with large buffers, so an overrun or a stale read has no visible effect.",
  ["src/scoop.c", "src/tube.c", "src/job.c", "src/delta.c", "src/patch.c", "src/netint.c", "src/sumset.c", "src/hashtable.c", "src/buf.c"],
  [("buffer accounting", "src/scoop.c rs_scoop_input, src/tube.c rs_tube_catchup_copy"), ("fixed side buffer", "src/job.h write_buf")],
  ["sanitizer reports, guard bytes, buffer fields before and after each call"])

p("C11", "Every job makes progress and finishes; it never stalls or loops",
  "As long as the caller keeps supplying the remaining input, announces its end and empties the output, every job reaches a final result after a number of calls bounded by the data moved, and each call returns rather than looping. "
  "A call that is given both input and output space and is not finished consumes or produces something, a job reports that it is blocked only for want of input or of output space, and no valid input produces an internal error.",
  ["schedules", "inputs"],
  "All job types, inputs and chunkings, including one-byte input and output and blocking at every point.",
  "Tests always offer large buffers; stalls need a particular split of a command across calls.",
  ["src/job.c", "src/scoop.c", "src/tube.c", "src/delta.c", "src/patch.c", "src/mksum.c", "src/readsums.c"],
  [("progress check", "src/job.c rs_job_iter"), ("blocked/running results", "src/scoop.c rs_scoop_readahead, src/tube.c rs_tube_catchup")],
  ["per-call bytes consumed/produced and result codes; call counts against bytes moved"])

p("C12", "Patch asks the basis callback for exactly the right ranges and obeys it",
  "For each copy command the basis callback is asked, in order and without gaps or repeats, for exactly the range named in the delta, never for zero bytes, never for more than fits in the output or remains of the command, and never outside a copy. "
  "Short reads are continued where they ended, data returned in the callback's own buffer is used, a callback that reports being blocked is asked again later, and any other error from it ends the job with that same error and without using the data.",
  ["schedules", "fault_sequences", "inputs"],
  "All deltas, output sizes, patterns of short reads, own-buffer returns and errors at every callback call.",
  "The only callback the tests use is the stdio one, which always reads in full into the given buffer and never fails.",
  ["src/patch.c", "src/fileutil.c"],
  [("copying state", "src/patch.c rs_patch_s_copying"), ("stdio callback", "src/fileutil.c rs_file_copy_cb")],
  ["recorded callback calls vs. the ranges in the delta"])

p("C13", "Every I/O failure in the whole-file functions is reported",
  "If any read, write or seek on the files passed to the whole-file functions fails at any point, the function returns an error, or, where it could simply read the same bytes again, completes with the correct output; a failure never passes for the end of the file or for success with anything missing. "
  "It never crashes or hangs, and whatever was written is a prefix of the correct output. "
  "A fault-free run with short reads and short writes of any size gives the same result as one without.",
  ["fault_sequences", "crash_points"],
  "Every read, write and seek operation of signature, load, delta and patch runs failing (once or persistently) or being cut short, one at a time, for many inputs and buffer sizes.",
  "No test injects an I/O error.",
  ["src/buf.c", "src/whole.c", "src/fileutil.c", "src/job.c"],
  [("fill and drain", "src/buf.c"), ("basis reads", "src/fileutil.c rs_file_copy_cb"), ("drive loop", "src/job.c rs_job_drive")],
  ["result code and bytes written under an enumerated fault schedule"])

p("C14", "Whole-file, callback-driven and streaming interfaces agree",
  "Running an operation with the whole-file functions on any kind of readable stream and with any setting of the file buffer sizes gives the same result code and the same bytes as streaming the same data through the job by hand with the same parameters. "
  "Input is read from where its stream stands and output goes to where its stream stands; positions in a patch's basis count from its beginning. "
  "The recommended parameters chosen for a regular file depend only on its size, and the input files are left unmodified.",
  ["configurations", "inputs"],
  "All operations, all buffer sizes from 1 up, regular files, pipes and custom streams, all inputs.",
  "The tests try a few buffer sizes through rdiff on regular files.",
  ["src/whole.c", "src/buf.c", "src/fileutil.c", "src/job.c"],
  [("buffer sizing", "src/whole.c"), ("fill and drain", "src/buf.c"), ("drive loop", "src/job.c rs_job_drive")],
  ["output bytes and result codes of both interfaces"])

p("C15", "Everything allocated is released, wherever a job stops",
  "Freeing a job, and the signature if one was loaded, after any number of calls (none, part way, on error, after completion) releases every byte the library allocated, exactly once. "
  "The whole-file functions release everything themselves on success and on every error.",
  ["crash_points", "fault_sequences", "histories"],
  "All job types stopped after every number of calls and at every error, and whole-file operations under every injected fault.",
  "Tests never stop a job part way and do not track allocations.",
  ["src/job.c", "src/scoop.c", "src/sumset.c", "src/hashtable.c", "src/buf.c", "src/whole.c"],
  [("job teardown", "src/job.c rs_job_free"), ("signature teardown", "src/sumset.c rs_signature_done"), ("file buffers", "src/whole.c rs_whole_run")],
  ["live allocation count before and after, leak and double-free reports"])

p("C16", "Memory use does not grow with the size of the files",
  "Signature generation, delta generation and patching of whole files use an amount of heap memory bounded by the block length (and, for delta, the signature's size) and the buffer sizes, independent of how long the files are and of their contents. "
  "Loading a signature uses memory proportional to the signature.",
  ["inputs", "configurations"],
  "Files of growing size, contents from all-matching to all-literal, all formats and block lengths.",
  "Tests use small files and do not measure memory.",
  ["src/scoop.c", "src/delta.c", "src/whole.c", "src/sumset.c", "src/hashtable.c"],
  [("scoop growth", "src/scoop.c rs_scoop_input"), ("literal run limit", "src/delta.c rs_appendmiss"), ("buffer sizing", "src/whole.c")],
  ["peak heap bytes observed by an allocation monitor"])

p("C17", "Independent jobs may run in different threads at once",
  "Any number of threads may each run their own jobs on their own data and signatures at the same time, with no data race and with the results each would get alone.",
  ["schedules"],
  "All interleavings of threads running signature, load, delta and patch jobs, streaming and whole-file.",
  "All tests are single threaded.",
  ["src/job.c", "src/sumset.c", "src/checksum.c", "src/delta.c", "src/patch.c", "src/rabinkarp.c", "src/trace.c"],
  [("per-job state", "src/job.h struct rs_job"), ("global trace state", "src/trace.c")],
  ["race detector reports; results per thread vs. single-threaded results"])

p("C18", "Job statistics account exactly for what was done",
  "When a job finishes, its statistics agree with the data: the literal and copy command counts, their data bytes and their command bytes equal those in the delta, literal plus copied bytes equal the size of the new file, the signature block count and block length equal the signature's, and the whole-file byte counts equal the bytes read and written. "
  "This holds for both producing and applying a delta. When an operation fails they state what was done until then. They name the operation, and the times given are those at which the job was begun and finished, however it finished.",
  ["inputs", "schedules"],
  "All inputs, formats and chunkings, for signature, load, delta and patch.",
  "No test looks at statistics.",
  ["src/emit.c", "src/patch.c", "src/mksum.c", "src/readsums.c", "src/buf.c", "src/stats.c"],
  [("accounting", "src/emit.c, src/patch.c rs_patch_s_literal, rs_patch_s_copy"), ("file byte counts", "src/buf.c")],
  ["rs_stats after each job vs. counts from an independent parse"])

p("C19", "Signature parameters are validated and defaulted sensibly",
  "For every requested magic, block length and strong length and every file size (or unknown), the parameters are either rejected with an error or replaced by ones that are valid: a supported format, a positive block length that fits the format, and a strong length between 1 byte and the strong sum's size; explicitly requested valid values are kept. "
  "The recommended values follow the documented rule (block length about the square root of the size, a multiple of 128, at least 256; minimum strong length growing with the file size and number of blocks), the recommended block length never shrinks as the file grows, and asking again with the answer returns the same answer.",
  ["inputs", "configurations"],
  "All file sizes up to 2^62, all magics, block lengths and strong lengths including 0 and -1.",
  "The unit test checks a few fixed sizes.",
  ["src/sumset.c", "src/util.c", "src/mksum.c"],
  [("defaults and checks", "src/sumset.c rs_sig_args"), ("integer square root and logarithm", "src/util.c")],
  ["returned parameters; header of the signatures produced with them"])

p("C20", "Files, offsets and lengths beyond 2 GB and 4 GB are handled exactly",
  "Offsets and lengths that need more than 31 or 32 bits, and signatures of hundreds of millions of blocks, behave like small ones: signatures describe all blocks, all blocks are found, deltas contain copies at and of more than 4 GB, and patch reads the basis at, and reproduces, exactly those ranges. "
  "Nothing is truncated or wrapped in producing, parsing or executing them, or in their statistics.",
  ["inputs"],
  "Positions and lengths around 2^31, 2^32 and up to 2^62 in matching, encoding, decoding, basis reads and statistics.",
  "The largest test file is far below 2 GB (the large-file test is optional and not part of the suite).",
  ["src/delta.c", "src/emit.c", "src/netint.c", "src/patch.c", "src/sumset.c", "src/fileutil.c"],
  [("64-bit positions", "src/sumset.c rs_signature_find_match, src/delta.c, src/patch.c"), ("integer encoding", "src/netint.c")],
  ["delta bytes, callback positions, patched bytes against expected ranges"])

p("C21", "rdiff reports success only when its output is complete and correct",
  "The command exits with status 0 only if the operation succeeded and all output was written; any unreadable or damaged input, unwritable output, or bad option or argument gives a nonzero status and a message, never a crash. "
  "It never overwrites an existing file unless forced, never modifies its inputs, and gives the same output through pipes and standard input/output as through named files.",
  ["inputs", "configurations", "fault_sequences"],
  "All sub-commands, option values, file/pipe combinations, existing outputs, and I/O faults on read and write.",
  "The shell tests cover a few option errors and successful runs; output errors, unreadable existing files, damaged inputs through pipes and extreme option values are not covered.",
  ["src/rdiff.c", "src/fileutil.c", "src/isprefix.c", "src/whole.c"],
  [("exit status", "src/rdiff.c main"), ("open/close policy", "src/fileutil.c rs_file_open, rs_file_close")],
  ["process exit status, stderr, files before and after"])

p("C22", "Running out of memory never corrupts data or passes for success",
  "If any single memory allocation, or all from some point on, fails, the operation ends with an out-of-memory error or by the library's deliberate abort with a critical message; it never continues on invalid memory, and never reports success with wrong or incomplete output.",
  ["fault_sequences", "crash_points"],
  "Every allocation of every operation failing, once or persistently, for many inputs.",
  "No test makes an allocation fail.",
  ["src/util.c", "src/hashtable.c", "src/sumset.c", "src/scoop.c", "src/buf.c"],
  [("checked allocation", "src/util.c rs_alloc, rs_realloc"), ("index allocation", "src/hashtable.c")],
  ["outcome of each run with the k-th allocation failing"])

p("C23", "Logging is filtered by level, goes where directed and changes nothing",
  "Messages are delivered only to the chosen callback, as one complete line each, only at or above the chosen severity, and every failed job reports at least one error message and a successful one none; with no callback nothing is output at all. "
  "The level, the callback and whether tracing is compiled in have no influence on any result or output of a job, even if messages are truncated.",
  ["configurations", "inputs"],
  "All levels and callbacks, all job types, valid and damaged inputs, builds with and without tracing.",
  "Tests never install a callback or change the level except one -v run.",
  ["src/trace.c", "src/trace.h", "src/job.c", "src/stats.c"],
  [("level filter and formatting", "src/trace.c rs_log_va")],
  ["recorded callback calls; outputs with and without logging"])

p("C24", "The exported helpers do what they say for every input",
  "MD4 gives the standard digest of any data however it is split into updates; hex and (unpadded) base64 encoding produce the standard text, base64 decoding inverts encoding exactly, the statistics text states the counts and rates of the statistics given and never exceeds the buffer size given, and every result has its documented value and its own description, which fits it.",
  ["inputs"],
  "All data contents, lengths and splits, all buffer sizes and statistics values.",
  "MD4 is tested on a few fixed strings; the other helpers are not tested.",
  ["src/mdfour.c", "src/hex.c", "src/base64.c", "src/stats.c", "src/msg.c"],
  [("incremental MD4", "src/mdfour.c"), ("formatting", "src/stats.c rs_format_stats"), ("base64", "src/base64.c")],
  ["helper outputs vs. independent implementations; guard bytes"])

p("C25", "Callback-driven jobs call back in the right order and propagate errors",
  "When a job is driven with callbacks, input is requested until its end is announced and never afterwards, all output produced is handed to the output callback before success is reported, and an error returned by either callback ends the run with that error. "
  "Callbacks may supply and drain any amounts or nothing at a time, each having its turn, and the output callback may be absent for a job that has no output.",
  ["schedules", "fault_sequences"],
  "All job types, all patterns of callback amounts, an error from either callback at every call.",
  "The only callbacks tested are the built-in stdio ones.",
  ["src/job.c", "src/buf.c"],
  [("drive loop", "src/job.c rs_job_drive")],
  ["recorded callback history vs. the protocol, output bytes"])

p("C26", "A loaded signature can be reused, and jobs do not affect one another",
  "A loaded signature is not changed by being used: any number of deltas can be computed from it, one after another or interleaved call by call, completed or abandoned, and each is what a freshly loaded signature gives. "
  "Jobs alive at the same time, of any kinds, do not influence each other's results.",
  ["histories", "schedules"],
  "All interleavings of calls on several live jobs sharing a signature, in any order, with jobs freed part way.",
  "Each test process runs one operation.",
  ["src/sumset.c", "src/delta.c", "src/job.c", "src/hashtable.h"],
  [("shared signature", "src/sumset.c rs_signature_find_match"), ("per-job state", "src/job.h")],
  ["output bytes of each job vs. the same job run alone"])

p("C27", "The file helpers open, measure, read and close exactly as documented",
  "Reading through the stdio basis callback gives exactly the bytes of the file at the position asked for, fewer than asked only where the file ends, an end-of-input error at or past the end, and an I/O error if seeking or reading fails, whatever was requested before and however large the position. "
  "The size reported for a stream is that of the regular file, and -1 for anything else. Opening refuses, with a message and a failure exit status and leaving the file as it was, to write to an existing file unless forced and anything that cannot be opened; the name \"-\" or none means standard input or output, which closing leaves open; closing reports data that could not be written.",
  ["inputs", "fault_sequences", "histories"],
  "All files, sizes, request sequences, stream kinds, names, modes and failures.",
  "Tests only use these functions on small regular files that open without trouble.",
  ["src/fileutil.c"],
  [("basis reads", "src/fileutil.c rs_file_copy_cb"), ("opening", "src/fileutil.c rs_file_open"), ("size, closing", "src/fileutil.c rs_file_size, rs_file_close")],
  ["returned bytes and codes vs. the file; files in a scratch directory before and after; exit status"])

p("C28", "Results depend on nothing but the inputs",
  "The same operations on the same data with the same parameters and call schedule give the same bytes, result codes and statistics (but for times) in every run and every build: whichever compiler and optimisation level, with assertions or tracing compiled in or not, with signed or unsigned plain char, whatever memory held before and wherever it is allocated, whatever the clock and the environment say, and whatever the process did earlier. This includes what is done with damaged inputs.",
  ["inputs", "histories", "configurations"],
  "All inputs, schedules, builds, environments, process histories.",
  "Tests run one build and compare only a few outputs with stored ones.",
  ["src/job.c", "src/delta.c", "src/patch.c", "src/sumset.c", "src/mksum.c", "src/readsums.c", "src/rollsum.c", "src/rabinkarp.h", "src/mdfour.c", "src/blake2/blake2b-ref.c"],
  [("job state initialisation", "src/job.c rs_job_new"), ("sums over bytes", "src/rollsum.h, src/rabinkarp.h, src/mdfour.c")],
  ["recorded digests of all results of each case, compared offline between builds, environments and histories"])

p("C29", "rdiff's options do exactly what its help says and nothing else",
  "The signature rdiff writes has the hash, rolling sum, block length and strong-sum length asked for, or the documented default, recommended, maximum or minimum for its input. "
  "Buffer sizes, statistics, verbosity, abbreviated actions, the spelling and position of options, and the choice between files and standard streams never change a byte of any output. "
  "Statistics are shown when asked for and state the true counts, and help and version are shown without touching any file.",
  ["configurations", "inputs"],
  "All combinations, spellings and orders of options and arguments, all inputs and routes.",
  "Tests use a handful of command lines.",
  ["src/rdiff.c", "src/isprefix.c", "src/whole.c", "src/stats.c"],
  [("option table", "src/rdiff.c main"), ("choice of format", "src/rdiff.c rdiff_sig"), ("statistics text", "src/stats.c")],
  ["signature header and bytes; outputs of equivalent command lines; statistics lines"])

p("C30", "What is reported about signatures and searches is true",
  "A dump of a loaded signature shows its format, block length and number of blocks, and then every block in order with its sums. "
  "The search statistics of a signature count, since it was last indexed and over all deltas computed from it, exactly the windows searched and the blocks matched, no fewer strong sums than matches and no more than searches, and the rates shown fit the counts.",
  ["inputs", "histories"],
  "All signatures, all sequences of indexing and deltas.",
  "Tests do not look at these reports.",
  ["src/sumset.c", "src/hashtable.h", "src/delta.c", "src/hex.c"],
  [("dump", "src/sumset.c rs_sumset_dump"), ("search statistics", "src/sumset.c rs_signature_log_stats"), ("counters", "src/hashtable.h NAME_find")],
  ["lines logged by rs_sumset_dump and rs_signature_log_stats"])

p("C31", "The work grows in proportion to the data",
  "For data whose blocks are all different or repeated in any way, but do not merely share weak sums, computing a signature, loading and indexing it, computing a delta and applying one take processor time that grows in proportion to the size of the data: no content, repetition or way of handing the data over makes it grow with the square of the size, and the time for a delta does not grow with the block length.",
  ["inputs", "schedules"],
  "All such contents, block lengths and chunkings, at any size.",
  "Tests use files too small to show it and measure no time.",
  ["src/sumset.c", "src/hashtable.h", "src/hashtable.c", "src/delta.c", "src/scoop.c", "src/tube.c", "src/patch.c"],
  [("no duplicate entries in the index", "src/sumset.c rs_build_hash_table"), ("lookups", "src/hashtable.h NAME_find"), ("input is moved rarely", "src/scoop.c rs_scoop_input"), ("scanning", "src/delta.c rs_delta_s_scan")],
  ["processor time of each operation at two sizes"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
