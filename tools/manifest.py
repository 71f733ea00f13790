#!/usr/bin/env python3
"""Writes ../MANIFEST.json and ../must_see.json (what a run must have observed for its verdict to count)."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
G = "basis/new pairs from a seeded generator (random, repetitive, periodic and block-pool contents; edits, moves, truncations; sizes at block, buffer and encoding boundaries and at integer constants found in the code), random format, block and strong length, random chunking of every call"
A0 = ["The reference sums, signature, delta and matcher implementations in harness/ref.c are right (written from the documented formats, independently of the code).",
      "Only what the executed workload reaches is decided; the level is observation, not proof."]
T = {}
def t(i, tech, rule, mins, note, level="exploration", assume=()):
    T[i] = dict(technique=tech, rule=rule, min_events=mins, level_note=note, level=level, assumptions=A0 + list(assume))

t("C01", "runtime oracle (exact round trip) over generated executions, plus ASan/UBSan build", G + "; a case is non-trivial if the new file is not empty, distinct by its parameters, sizes, contents and result.",
  {"round_trips": 15000, "round_trips_mixing_copy_and_literal": 5000}, "Every generated pair must round-trip byte for byte through streamed jobs; collisions of 8-byte strong sums are assumed not to occur by chance.")
t("C02", "differential monitor: same job under many chunkings", G + ", each job under 8 or more schedules (1-byte, empty calls, late end of input, re-presented leftovers) compared with the one-call run; non-trivial: new file not empty.",
  {"schedules_compared": 50000, "outputs_compared": 200000}, "All schedules tried give identical bytes and results; schedules are sampled, with every-byte splits included.")
t("C03", "reference-model monitor on signature bytes", G + "; non-trivial: input not empty.", {"signatures_compared": 10000, "block_sums_compared": 1000000}, "Signature bytes equal an independent implementation (MD4 from RFC 1320, BLAKE2b from RFC 7693, the documented rolling sums).")
t("C04", "offline checker: independent delta parser and interpreter", G + ", literal and copy lengths steered to encoding boundaries; non-trivial: new file not empty.", {"deltas_parsed": 10000, "commands_checked": 500000, "deltas_with_copies": 5000}, "Every emitted delta is parsed, checked for minimal encodings and bounds, and interpreted by a separate implementation.")
t("C05", "oracle on every copy command: both sums recomputed", G + "; rolling-sum collisions are constructed, strong sums damaged in single bytes; non-trivial: some window had a rolling-sum hit.", {"deltas_checked": 15000, "windows_rejected_by_strong_sum": 500000, "rolling_sum_collisions_planted": 10000}, "Every copied window's rolling and strong sum is recomputed independently, on workloads where rolling-sum collisions are frequent.")
t("C06", "reference-model monitor: greedy scan compared with emitted delta", G + ", signatures from 1 to many thousand blocks, crafted rolling sums (0, all ones, clustered buckets); non-trivial: some window matches.", {"deltas_compared_with_reference_scan": 10000, "matches_expected": 1000000, "merged_copies": 2000}, "The copies and literals must be those of a reference greedy scan (any of several equal blocks may be the source).")
t("C07", "reference interpreter compared with patch on generated deltas", "valid deltas generated over all opcodes, widths, lengths, overlapping copies and trailing data, random chunking and basis read sizes; non-trivial: the delta has commands.", {"deltas_applied": 10000, "commands_executed": 100000}, "Patched bytes equal an independent interpreter's for every generated valid delta.")
t("C08", "reference interpreter decides validity; ASan/UBSan build", "valid deltas truncated at any point, mutated in any field, with hostile 64-bit values, reserved opcodes or random bytes; non-trivial: the reference says it is damaged.", {"damaged_deltas_rejected": 30000, "expected_result_103": 5000, "expected_result_104": 2000, "expected_result_106": 5000}, "Result code and output prefix must be those the reference derives from the format.")
t("C09", "reference parser decides validity; loaded signature probed through deltas", "signatures truncated at any point, header fields replaced, bytes changed, random bytes; non-trivial: damaged.", {"damaged_signatures_rejected": 30000, "signatures_loaded_and_verified": 10000}, "Result code per reference parser; what was loaded is probed by deltas compared with a reference scan.")
t("C10", "ASan+UBSan (gcc, asserts; clang, NDEBUG), MSan, exact-size buffers, per-call contract monitors", "the workloads of the other properties and raw garbage, mixed, under each sanitizer with exactly sized heap buffers; non-trivial: every case runs at least one job.", {"job_calls": 1000000, "garbage_inputs": 500, "damaged_deltas_rejected": 200, "damaged_signatures_rejected": 200}, "No sanitizer report, failed internal check or contract violation on anything executed; red-zone tools miss overflows inside an object.")
t("C11", "online progress monitor on every call", G + " with many one-byte and empty calls; monitors: progress whenever input and output are offered, no internal error, call count bounded by bytes moved; non-trivial: new file not empty.", {"job_runs_to_completion": 100000, "blocked_calls": 10000000}, "Liveness restated as bounded progress: every call with input and output space progresses; every job ends within a call bound. A watchdog re-run decides hangs.")
t("C12", "trace checker on recorded basis-callback calls", "generated deltas with many copies, callback returning short reads, own buffers, blocked and every error code, random chunking; non-trivial: the callback was called.", {"callback_calls": 500000, "short_reads": 100000, "own_buffer_returns": 100000, "callback_errors_propagated": 3000, "callback_blocks": 100000}, "Each callback call is checked online against the range the delta demands next.")
t("C13", "fault enumeration over stdio operations (custom streams), outcome oracle", "for each generated operation every read, write and seek is made to fail (once, persistently, or followed by end of file) in turn, plus short transfers and failing descriptors; every case is non-trivial.", {"faults_reported": 100000, "faults_write_once": 5000, "faults_read_once": 20000, "faults_seek_once": 2000, "faults_basis_read_once": 4000}, "Every single-fault position of each generated run (capped for long runs) is tried.", "fault_enumeration", ["Faults are injected at the stream's read/write/seek functions, below stdio buffering."])
t("C14", "differential monitor: whole-file against streaming", G + " through regular files, pipes, memory and custom streams with buffer sizes from 1; every case is non-trivial.", {"whole_file_runs_compared": 20000, "input_files_verified_unmodified": 10000, "same_size_pairs": 1500}, "Both interfaces are run on the same data and compared.")
t("C15", "allocation monitor (malloc wrapping) at every stop point; LeakSanitizer/ASan build", "each job kind stopped after each number of calls (sampled for long jobs), on damaged input and under I/O faults; every case is non-trivial.", {"stop_points_checked": 50000, "whole_file_runs_checked": 5000, "allocations_tracked": 200000}, "Live allocations return to the starting set after every stop point; double frees are ASan's and the wrapper's.", "fault_enumeration")
t("C16", "allocation monitor: peak heap against a size-independent bound", "whole-file operations on generated streams of 1 to 100 MB, contents from all-literal to all-matching, all formats and buffer sizes, peak heap compared between sizes; every case is non-trivial.", {"bytes_streamed": 1000000000}, "Peak heap of a long file may not exceed that of a short one with the same parameters beyond a fixed allowance.")
t("C17", "ThreadSanitizer and differential monitor against serial runs", "2 to 12 threads each running all jobs and helpers on their own data, many short processes so that first use is concurrent; every case is non-trivial.", {"jobs_run_concurrently": 10000, "threads_compared_with_serial_run": 200}, "Races are detected by happens-before on the interleavings that occurred.")
t("C18", "conservation checker: statistics against an independent parse", G + ", plus foreign deltas and whole-file runs; every case is non-trivial.", {"statistics_compared": 40000, "whole_file_statistics": 20000}, "All documented counters are compared with counts from the data.")
t("C19", "invariant monitor and reference rule over parameter space", "file sizes at powers of two, squares and random up to 2^62, all magics, block and strong lengths including 0, -1 and huge; every case is a batch of 400 queries and non-trivial.", {"queries": 5000000, "accepted_parameters_used": 20000}, "Results compared with the documented rule, idempotence and monotonicity; accepted parameters are used in a job.")
t("C20", "reference monitor with synthetic huge inputs", "positions and lengths around 2^31, 2^32 and up to 2^62 through virtual basis callbacks, streams of more than 4 GB, sparse files, signatures of more than 214 million blocks; every case is non-trivial.", {"large_copies_executed": 500, "deltas_with_large_positions": 100, "large_basis_files_read": 50, "bytes_streamed": 15000000000, "very_long_signatures_searched": 1}, "More than 4 GB are really streamed through signature, delta and patch.")
t("C21", "process-level monitor of rdiff with injected faults", "rdiff runs over good pipelines by every route, damaged inputs, bad arguments, existing outputs, full and limited output, unreadable input and system call failures injected one by one; non-trivial by what was run, distinct by route, mode and outcome.", {"rdiff_runs": 3000, "failures_reported": 700, "existing_files_kept": 50, "pipelines_completed": 300}, "Status 0 only with complete, right output (judged by a Python implementation of the formats), nonzero status with a message otherwise, no sanitizer report or signal.", "fault_enumeration", ["System call failures are injected with strace; where strace cannot run they are left out and the run says so."])
t("C22", "fault enumeration over allocations (malloc wrapping) in child processes", "every allocation of a whole pipeline fails in turn, once and from then on; every case is non-trivial.", {"allocation_failures_injected": 5000, "ended_by_out_of_memory_result": 500, "ended_by_deliberate_abort": 1000}, "Each failing allocation must end in an out-of-memory result or the deliberate abort with its message, or in correct output.", "fault_enumeration")
t("C23", "trace checker on the log callback; differential runs across levels and builds", G + ", valid and damaged, at every level, with and without callback, builds with and without tracing; every case is non-trivial.", {"messages_seen": 1000000, "runs_compared": 20000}, "Every delivered message is checked; outputs are compared across levels.")
t("C24", "reference monitor on helper outputs, guard bytes, ASan build", "random data, lengths and splits (some beyond 512 MB), buffer sizes from 0, extreme statistics, every result code; every case is non-trivial.", {"md4_digests": 20000, "encodings_checked": 100000, "stats_buffers": 50000}, "Compared with independent implementations.")
t("C25", "trace checker on driver callback history", "all job kinds driven with callbacks supplying and draining random amounts and failing at every call; non-trivial: some callback was called.", {"input_callbacks": 1000000, "output_callbacks": 1000000, "input_errors_propagated": 5000, "output_errors_propagated": 5000}, "Recorded callback histories are checked against the protocol and the output against the streamed run.")
t("C26", "differential monitor: interleaved jobs against the same jobs alone", "several live jobs of all kinds sharing loaded signatures, interleaved call by call in random order, some abandoned; non-trivial: new file not empty.", {"interleaved_calls": 5000000, "jobs_completed_interleaved": 50000, "jobs_abandoned": 5000}, "Each job's output equals that of the job run alone with a fresh signature.")
t("C27", "reference monitor on file helpers, in child processes where they may exit; ASan build", "range requests in any order on regular, sparse (beyond 2^40), custom (short reads, faults) and unseekable streams; sizes of anything; files, links, directories, unreadable files and standard streams opened and closed in a scratch directory; every case is non-trivial.", {"ranges_read": 50000, "ends_of_file_reported": 10000, "copy_faults_reported": 1000, "opens_refused": 2000, "opens_that_worked": 2000, "file_sizes_asked": 10000, "failing_closes": 500}, "Compared with what is in the file; a refused open must leave the file as it was.")
t("C28", "offline comparison of recorded result digests between builds, environments and histories", G + "; all results (bytes, codes, call counts, statistics) of each case are digested in 7 variants: gcc -O0/-O1/-O2, clang -O2/-O3, assertions and tracing on and off, signed and unsigned char, different heap fills and layouts, clocks that jump, forward and reverse case order; every case is non-trivial.", {"digests_compared": 30000, "results_digested": 1000000, "variants": 7}, "Any dependence on uninitialised memory, addresses, time, environment or earlier calls that shows in these variants is detected.")
t("C29", "process-level reference monitor: outputs and printed statistics of rdiff against an independent Python implementation", "pipelines with random options in every spelling and position, abbreviated actions, files, pipes and standard streams, inputs around the sizes where recommended parameters change; distinct by route, spelling and options.", {"option_pipelines_completed": 1000, "signatures_with_expected_parameters": 2000, "statistics_compared": 3000, "help_and_version_shown": 40}, "Signature headers, outputs of equivalent invocations and printed counts are compared; the documented defaults are computed independently.")
t("C30", "reference monitor on logged reports", G + "; signatures dumped before and after use, statistics logged before, between and after one to three deltas, indexed once or again; non-trivial: some block matched.", {"dumped_blocks_checked": 500000, "search_statistics_checked": 20000}, "Every dumped line is compared with the reference signature, the counts with what the deltas contain.")
t("C31", "processor time monitor at two sizes", "Seeded contents (random, zeros, few blocks in turn or at random, sparse, periodic) and new files (same, unrelated, shifted, shuffled, every second block changed, zeros), block lengths 16 to 2000, chunks of 1 byte up to everything; each operation timed at n and 24 n, deltas also with 24 times the block length; non-trivial: every measurement.", {"proportions_measured_0": 100, "proportions_measured_1": 100, "proportions_measured_2": 200, "proportions_measured_3": 100, "block_lengths_compared": 50}, "Processor time for 24 times the data is more than 120 times as long, and stays so over five measurements (square growth gives 576); or more than 5 times as long with blocks 24 times as long.")
EXTRA = {   # rarer situations that a run must also have met
    "C02": {"failing_results_compared": 100000, "long_block_cases": 30},
    "C06": {"blocks_with_crafted_rolling_sum": 10000, "large_block_cases": 20, "many_block_cases": 30},
    "C14": {"loads_compared": 8000, "rejected_parameters": 2000, "huge_block_lengths_asked_for": 200},
    "C18": {"deltas_beyond_2GB": 3000, "job_times_checked": 8, "statistics_of_failures": 5000, "many_block_cases": 30},
    "C20": {"blocks_4GB_from_the_expected_place": 40, "huge_blocks_found": 8, "huge_second_calls": 6, "one_call_gigabytes": 4, "signatures_far_inside_huge_files": 15, "signature_files_beyond_4GB": 1},
    "C31": {"counts_just_below_powers_of_two": 6},
    "C23": {"failing_operations_with_messages": 150000, "successful_jobs_without_error_messages": 80000, "messages_level_7": 5000000},
    "C24": {"descriptions_checked": 100000, "encodings_beyond_256MB": 1, "md4_digests_beyond_512MB": 1},
    "C25": {"driven_to_expected_error": 3000, "driven_to_success": 25000},
    "C27": {"relative_names": 1000},
    "C30": {"long_block_cases": 20, "many_block_cases": 30},
}
for k, v in EXTRA.items():
    T[k]["min_events"].update(v)
json.dump({k: {a: v[a] for a in ("rule", "level", "assumptions", "min_events")} for k, v in sorted(T.items())}, open(os.path.join(V, "must_see.json"), "w"), indent=1)
M = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "checks": [{"property": k, "quick_cmd": "VERIF_TIER=quick python3 check.py %s" % k, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % k,
                 "technique": v["technique"], "level": v["level"], "level_note": v["level_note"]} for k, v in sorted(T.items())],
     "not_applicable": [], "notes": "No hooks in /repo: all monitors sit at the public API, the allocator, stdio streams and the process boundary. Known findings and fixes: known_findings.txt."}
json.dump(M, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(T))
