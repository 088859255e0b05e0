#!/usr/bin/env python3
"""writes /verif/properties.jsonl (the text of the properties lives here)"""
import json, os
P = []
C = "source/c-precompiled/sph-sp/"
L = "source/c/foreign/sph-sc-lib/sph-sp/"


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


p("C01", "Rendering an event list does not depend on how time is cut into blocks",
  "For every prepared list of events and every way of cutting a time range into consecutive blocks, the rendered samples are the sum of what each event produces, each placed at its own start time, and they are the same as when the range is rendered at once. Each event is asked exactly once for each sample of its duration that lies in the range, in order, with start (inclusive) and end (exclusive) relative to the event's start, and receives an output area that begins where its samples belong and ends with the block. Nothing else in the output changes: existing content is only added to, and samples where no event is active stay as they were.",
  ["inputs", "histories"], "every list of events (any starts, ends, overlaps, order of addition, channel counts) and every sequence of consecutive blocks, also beginning in the middle of events or with gaps",
  "Tests render a few fixed events over one or two blocks; block boundaries inside, at the edges of and between events are not enumerated.",
  [C + "sequencer.c", C + "sequencer.h", C + "main.c"],
  [("event loop with relative start/end and output offset", C + "sequencer.c sp_seq"), ("block offset", C + "main.c sp_block_with_offset")],
  ["output blocks", "start/end/output arguments received by events"])
p("C02", "Every event is prepared once, freed once, and its memory released once",
  "Whatever sequence of blocks is rendered, an event's prepare function runs at most once, before its first request and only if a block reaches the event; its free function runs exactly once, when a block begins at or after the event's end, when the list is freed, or when any event's prepare or generate reports an error. After an error the failing event's status is returned, the list is empty and no event is called again. Memory registered with an event, through growing or reserved registration, is released exactly once with the handler it was registered with, and nothing the library allocated remains.",
  ["histories", "fault_sequences"], "every list of events with any mixture of prepare, generate and free functions and registered memory, every sequence of blocks, and a prepare or generate failure at any event and any block, sequential rendering",
  "Tests contain no failing event, no error path, and never count frees.",
  [C + "sequencer.c", C + "sequencer.h", L + "array3.h", L + "memreg.h"],
  [("prepare once, cleared afterwards", C + "sequencer.c sp_seq"), ("removal of past events", C + "sequencer.c sp_event_list_remove"), ("list free on failure", C + "sequencer.c sp_event_list_free"), ("event memory register", C + "sequencer.c sp_event_memory_*")],
  ["calls received by event functions and memory handlers", "number of live allocations"])
p("C03", "Parallel rendering equals sequential rendering",
  "For any number of worker threads and any thread schedule, rendering a list of events in parallel produces the same samples as rendering it sequentially (up to the order of floating point additions), with the same event requests and the same prepare/free/memory guarantees. Which of several noise events draws which numbers from the shared random state can depend on the schedule, but together they draw the same numbers as sequentially, each once. If events fail, parallel rendering returns the status of one of the failing events, no event is still running when it returns, and every event has been freed exactly once and the list is empty. All memory that events, workers and the caller share is accessed without data races.",
  ["schedules", "inputs", "fault_sequences"], "every list of user-defined and library events (waves, noise, maps, groups, parallel groups), every block sequence, 1 to 8 workers, events that take different amounts of time, and failures at any event",
  "One test renders a few equal events in parallel once; races, differing run times and failures are not covered.",
  [C + "sequencer.c", L + "futures.c", L + "thread-pool.c", L + "queue.h"],
  [("one future and one private block per event, merged afterwards", C + "sequencer.c sp_seq_parallel"), ("future completion", L + "futures.c sph_future_touch")],
  ["output blocks", "calls received by events"])
p("C04", "Groups render as their members at shifted times, at any nesting depth",
  "A group at any start time renders exactly what its members would render if they were scheduled directly at group start plus their own start, for every nesting depth, for sequential and parallel groups, and for every block partition. Adding a member extends the group's end to at least the member's end and never shortens it; appending places the member directly after the current end and extends the end by the member's span. Freeing or finishing a group frees each member exactly once, whether or not the group has been played.",
  ["inputs", "histories"], "every tree of groups and events built by adding and appending, with gaps, overlaps and cut-off members, and every block partition",
  "Tests build two fixed nested groups.",
  [C + "sequencer.c", C + "sequencer.h"],
  [("group as event list in the event's config", C + "sequencer.c sp_group_prepare/sp_group_generate"), ("sp_group_add, sp_group_append", C + "sequencer.c")],
  ["output blocks", "group end", "calls received by members"])
p("C05", "Event lists keep every event, correctly linked and ordered by start",
  "After any sequence of additions an event list contains exactly the added events; preparing it for playback orders it by ascending start. Before and after preparation the forward and backward links agree, the first element has no predecessor, the last no successor, and there are no cycles. Removing an element from a prepared or unprepared list frees that event once and leaves the order and links of all others intact, and scheduling shifts an event by its onset and lengthens it by its duration without altering the original. Reversing twice restores a list, valid lists pass the validation, and displaying prints the times of each event on one line.",
  ["histories"], "every sequence of additions with any start times, followed by preparation and removals of any elements, including empty and one-element lists",
  "One test adds three events and checks one order.",
  [C + "sequencer.c"],
  [("insertion sorted by start descending", C + "sequencer.c sp_event_list_add"), ("reversal", C + "sequencer.c sp_event_list_reverse"), ("removal", C + "sequencer.c sp_event_list_remove"), ("sp_event_schedule", C + "sequencer.c")],
  ["list links", "event order"])
p("C06", "The wave event plays the configured waveform with a stable phase",
  "On every configured channel a wave event adds amplitude times amplitude-array value times the waveform value at the current phase, where the phase starts at the configured offset, advances each sample by the fixed frequency plus the frequency-array value modulo the waveform length, and is displaced by the phase-array value for that sample only. A channel that is not enabled repeats the first channel's settings on its own output channel, and an enabled channel takes the arrays and frequency it lacks from the first channel. The result does not depend on how the event is divided into blocks.",
  ["inputs", "configurations", "histories"], "every waveform, frequency, phase, amplitude and modulation array, channel configuration and block partition",
  "Tests check one or two fixed configurations at selected samples.",
  [C + "sequencer.c"],
  [("channel defaults", C + "sequencer.c sp_wave_event_prepare"), ("phase accumulation stored between calls", C + "sequencer.c sp_wave_event_generate")],
  ["output blocks"])
p("C07", "The noise event is bounded, reproducible filtered noise",
  "A noise event adds to each configured channel white noise, continuing from a seed drawn from the global random state when the event is prepared, passed through that channel's band-pass or band-reject filter (whose start-up delay is skipped), multiplied by amplitude and amplitude array and limited to -1..1. Channels that are not enabled repeat the first channel's noise with its settings on their own output channel, and an enabled channel takes the amplitude, frequency and width arrays, the width and the transitions it lacks from the first channel, or shares the first channel's filtered noise if it has no filter setting of its own; an event whose first channel has no amplitude array is refused as an invalid argument. Equal random state gives equal output; with fixed filter parameters the output is the same for every block partition; all filter and buffer memory is released with the event.",
  ["inputs", "configurations", "histories"], "every frequency, width, transition, amplitude, channel configuration, resolution, random state and block partition up to the documented largest block",
  "Tests run one configuration and check that values stay in range.",
  [C + "sequencer.c", C + "filter.c", L + "random.c"],
  [("prepare: channel defaults, buffers, filter warm-up", C + "sequencer.c sp_noise_event_prepare"), ("block generation", C + "sequencer.c sp_noise_event_generate_block")],
  ["output blocks", "live allocations"])
p("C08", "Map events apply the user function to exactly the wrapped event's output",
  "A map event passes start and end through to the wrapped event and then to the user function once per request: an isolated map hands over a zeroed input of its own that contains only the wrapped event's output for that range together with the real output, and a non-isolated map hands over the output itself as input and output. Rendering maps over any block partition gives the same samples for functions that treat samples independently, chains of maps compose in order, and the first error of the wrapped event or the function is returned. The wrapped event is prepared and freed exactly once with the map event and temporary memory is always released.",
  ["inputs", "histories", "fault_sequences"], "every wrapped event, chain of isolated and non-isolated maps, event start inside or before the block, block partition and failing stage",
  "One test runs one map over one block.",
  [C + "sequencer.c", C + "main.c"],
  [("sp_map_event_generate, sp_map_event_isolated_generate", C + "sequencer.c"), ("sp_block_with_offset", C + "main.c")],
  ["arguments of the user function", "output blocks", "live allocations"])
p("C09", "Rendering to a file or block yields the requested range of the event",
  "Rendering a range of an event to a block or to a wave file yields exactly the event's samples from start (inclusive) to end (exclusive), in 32 bit float precision for files, for every range including ones that begin after zero, every block size and every channel count. The file has the configured channel count, sample rate and length. If the event fails or the file can not be created or written, the error is returned, no memory or open file remains, and the event has been freed.",
  ["inputs", "configurations", "fault_sequences"], "every event, range, block size (larger than, equal to, smaller than and not dividing the range), channel count and failure point",
  "Tests render one event from zero with one block size and do not compare the written samples.",
  [C + "main.c", C + "file.c", C + "sequencer.c"],
  [("block loop with remainder", C + "main.c sp_render_range_file"), ("sp_render_range_block", C + "main.c"), ("sp_render_file", C + "main.c")],
  ["file content", "output block", "returned status", "live allocations and file descriptors"])
p("C10", "Wave files written can be read back sample for sample",
  "Samples written to a wave file in any number of portions and read back in any other portions are the same values rounded to 32 bit float, in the same order and on the same channels, for every channel count and length. The file is a valid float wave file whose header states the real channel count, sample rate, byte rate, frame size and data length, and opening it for reading reports the channel count. Reading past the last sample delivers the remaining samples and then reports end of file. A portion or header that cannot be written is reported as a write error, and the file remains a valid one with the portions written before. If writing is interrupted before the file is closed, everything that has reached the file can be read up to the last complete sample.",
  ["inputs", "histories"], "every channel count from 1 to 16, sample rate, content (any finite value), and sequence of write and read portion sizes",
  "One test writes and reads one fixed array with one portion.",
  [C + "file.c"],
  [("header writing and completion on close", C + "file.c sp_file_open_write/sp_file_close_write"), ("interleaving", C + "file.c sp_file_write/sp_file_read")],
  ["file bytes", "samples read", "status"])
p("C11", "Reading rejects unusable files cleanly",
  "Opening any sequence of bytes as a wave file either succeeds, for a 32 bit float wave file (format chunk of 16 bytes) in which a data chunk is found, possibly after other chunks (which are followed by a padding byte if their size is odd), or returns a failure status: read error for anything truncated or not a wave file, and unsupported-format error for other encodings. A missing or unreadable path is a failure. From a file that is accepted exactly the samples of the data chunk are delivered, not the content of chunks after it. An error while reading is returned as one, not as success or the end of the file. No input crashes or hangs the reader, makes it deliver values that are not in the file, or leaves a file open after a failed open.",
  ["inputs"], "every byte sequence as file content, in particular valid headers with any field changed, truncated at any byte, or with additional chunks before or after the data",
  "No test opens a malformed file.",
  [C + "file.c"],
  [("header and chunk checks", C + "file.c sp_file_open_read")],
  ["status", "samples read", "open file descriptors"])
p("C12", "Fast Fourier transform and inverse equal their definitions",
  "For every length, including primes and one, the transform of complex input equals the discrete Fourier transform sum and the inverse transform equals the unscaled inverse sum, so that inverse after forward returns the input times its length. The transforms are linear. Circular convolutions equal their definition, and the power-of-two algorithm by itself rejects other lengths. Only the given arrays are written, success is reported as zero, and no memory remains.",
  ["inputs"], "every length from 1 to 2050 and every complex input",
  "One test transforms one six-element array there and back.",
  [C + "main.c", "source/c/foreign/nayuki-fft/fft.c"],
  [("radix-2 and Bluestein transforms", "source/c/foreign/nayuki-fft/fft.c"), ("sp_fft, sp_ffti", C + "main.c")],
  ["output arrays"])
p("C13", "Streaming convolution equals convolution of the whole signal",
  "Convolving a signal in any sequence of portions, shorter or longer than the impulse response, with the carryover passed along gives the same samples as the first part of the full linear convolution of the whole signal, and the carryover then holds its remaining tail. The one-shot convolution equals the convolution sum. Only the output, as long as the portion, and the carryover, one element shorter than the impulse response, are written.",
  ["inputs", "histories"], "every signal, impulse response of length one or more, and sequence of portion sizes, and a longer impulse response taking over from a shorter one",
  "One test convolves one signal in two fixed portions.",
  [C + "main.c"],
  [("carryover handling", C + "main.c sp_convolve"), ("sp_convolve_one", C + "main.c")],
  ["output arrays", "carryover"])
p("C14", "Windowed-sinc filter designs have the requested response",
  "For every valid cutoff and transition the low-pass impulse response is symmetric, of the odd length set by the transition, and has gain one at zero frequency; its frequency response is near one below and near zero above the cutoff, outside the transition. The high-pass response is its spectral complement, band-pass and band-reject responses pass and stop the corresponding bands, and a band edge at or beyond the spectrum's limits reduces them to low-pass, high-pass, pass-through or silence. Spectral inversion and reversal flip a symmetric response top to bottom and left to right, and applying either twice changes nothing.",
  ["inputs"], "every cutoff and transition (as fraction of the sample rate), filter type, and band edges including the limits",
  "Tests check lengths and that filters run; not the frequency response.",
  [C + "filter.c", C + "main.c"],
  [("sp_windowed_sinc_lp_hp_ir", C + "filter.c"), ("sp_windowed_sinc_bp_br_ir", C + "filter.c"), ("sp_spectral_inversion_ir, sp_spectral_reversal_ir", C + "main.c")],
  ["impulse responses and their Fourier transform"])
p("C15", "Stream filters are independent of block sizes and follow parameter changes",
  "Filtering a stream in any sequence of blocks with a filter state equals convolving the whole stream with the impulse response for the given parameters. When parameters or the impulse response function change between blocks, every input sample is filtered with the response for the parameters it was given with and tails carry over, and the impulse response is recomputed exactly when the function or its arguments differ from the previous call's. States are created on first use, reused afterwards, and freed completely.",
  ["inputs", "histories"], "every sequence of blocks with any low-pass, high-pass, band-pass, band-reject or custom impulse response parameters per block; where the response gets shorter, blocks no shorter than the previous response",
  "One test filters one block; parameter changes and block partitions are not compared.",
  [C + "filter.c", C + "main.c"],
  [("state creation and update", C + "filter.c sp_convolution_filter_state_set"), ("sp_convolution_filter", C + "filter.c"), ("carryover", C + "main.c sp_convolve")],
  ["output samples", "calls of the impulse response function", "live allocations"])
p("C16", "Moving average equals the windowed mean with defined edges",
  "Every output of the moving average is the mean of the values within the radius, where values before the first and after the last are taken from the preceding and following array if given, and otherwise are the values mirrored around that edge with inverted sign. Splitting a signal into portions and passing neighbours as preceding and following arrays gives the same result as averaging the whole signal. Only the output is written.",
  ["inputs", "histories"], "every signal, every radius with a window shorter than the input, with and without preceding and following arrays",
  "One test checks a few fixed arrays.",
  [C + "filter.c"],
  [("running sum with edge handling", C + "filter.c sp_moving_average")],
  ["output array"])
p("C17", "Table oscillators add the scaled waveform with continuous phase",
  "A table oscillator adds to its output, at every sample, amplitude times amplitude-array value (if an array is given) times the table value at the phase, and the phase advances by the frequency-array value if an array is given, else by the fixed frequency, modulo the table length. Continuing from the stored phase gives the same samples for every partition, and without a stored phase each call starts at zero. Generated sine tables contain one full period for every size, so that sine oscillators produce the sine of the requested frequency; phase helpers return the advanced phase within the cycle.",
  ["inputs", "histories"], "every table, frequency, amplitude, modulation array, start phase and block partition; every table size",
  "Tests check one or two frequencies at a few indexes.",
  [C + "main.c"],
  [("sp_wave, sp_sine, sp_sine_lfo", C + "main.c"), ("sp_sine_period", C + "main.c"), ("sp_phase, sp_phase_float", C + "main.c")],
  ["output array", "stored phase"])
p("C18", "Paths go through their points and interpolate between them",
  "A path over given points has the requested length and takes each point's value at its position (on a curve, up to half a position); between points without curvature it is the straight line, and with curvature a smooth curve that bends to the side given by the sign, stays within the rectangle of its two points (the bounds of which are reached by the control point of curvature -1 and 1, positive towards the height of the first point), equals the line for zero and is mirrored by the opposite sign. Integer paths are the rounded sample paths. The fixed-argument variants return the same array and status as the general one.",
  ["inputs"], "every number of points up to the limit, increasing positions, any values, rising and falling, and curvatures from -1 to 1",
  "Tests call each variant once with fixed values, mostly without checking the output.",
  [C + "path.c", C + "path.h", L + "spline-path.c"],
  [("segments from points", C + "path.c sp_path_samples"), ("line and bezier generation", L + "spline-path.c")],
  ["output arrays", "status"])
p("C19", "Reading a path in pieces equals reading it at once",
  "For every path of moves, lines, constants, bezier curves, arcs and nested paths, reading any sequence of ranges in any order, including repeated, overlapping and backward ones, gives the same values as reading the whole path once. Lines pass through their end points, curves interpolate between theirs as defined by their control points, constants hold the previous value, moves are zero until their target, and nothing is written outside the requested range.",
  ["inputs", "histories"], "every sequence of segments and every sequence of read ranges",
  "Tests read whole paths or a few fixed ranges.",
  [L + "spline-path.c"],
  [("segment lookup with remembered position", L + "spline-path.c spline_path_get"), ("segment generators", L + "spline-path.c")],
  ["output arrays"])
p("C20", "Envelope helpers build the path they describe",
  "An envelope with zero ends starts and ends at zero (on a curve, up to half a position), passes through its inner values at cumulative fractions of the length, and a scaled envelope multiplies all values by the scale and rounds to integers. The fixed-argument variants, with and without curvature, equal the path through the same points. No argument outside the documented array sizes is read or written.",
  ["inputs"], "every length, number of points, fractions summing to at most one, values, scales and curvatures",
  "Tests call each variant once with fixed values.",
  [C + "path.c"],
  [("sp_envelope_zero*, sp_envelope_scaled*", C + "path.c")],
  ["output arrays", "status"])
p("C21", "Elementwise array operations compute their definition on every element",
  "Each elementwise array operation (add, subtract, multiply, divide, square, set, copy, by value or by array; cumulative sums; and/or/xor selection by limit; comparison; minimum, maximum and absolute maximum; additions, divisions and multiplications series; limiting; blending and masking; conversion; differences) produces the defined result for every element and reads and writes nothing else. Unsigned subtraction stops at zero. Operations documented to work in place give the same result in place.",
  ["inputs"], "every array length from one (zero where allowed) and every element value, limit and factor",
  "Tests check a few of the operations on one or two fixed arrays.",
  [C + "arrays-template.c", C + "arrays.c"],
  [("one template for integer and float arrays", C + "arrays-template.c")],
  ["output arrays"])
p("C22", "Array restructuring and scaling keep the data they promise to keep",
  "Reversing, taking ranges, duplicating, removing, inserting space, subdividing differences, extracting values in a range, selecting by indices, listing indices of larger values, stretching by an integer factor, and unpacking bits move exactly the right elements and report exactly how many they wrote. Scaling to a sum, a maximum or a gain keeps relative sizes and reaches the target (for integers within rounding), and seamless joining changes only the joined part by progressive interpolation. Nothing outside the inputs and outputs is touched.",
  ["inputs"], "every array, index, count, factor and target allowed by the documentation",
  "Tests check one fixed example for some of these; several are untested.",
  [C + "arrays.c", C + "arrays-template.c"],
  [("sp_times_*, sp_samples_* restructuring and scaling", C + "arrays.c")],
  ["output arrays"])
p("C23", "Permutations, compositions and sequences are enumerated completely",
  "Enumerating permutations yields every arrangement of the set exactly once and leaves the set unchanged; enumerating compositions yields every ordered list of positive integers with the given sum exactly once, with matching sizes; sequence counting steps through all digit combinations in order. The corresponding counting functions return these numbers, and powers and factorials are exact within integer range.",
  ["inputs"], "every set of up to 7 elements, every sum up to 11, every base and digit count up to several thousand sequences, every power or factorial that fits 32 bits, and every selection of a set of up to 70000 whose count fits 32 bits",
  "Tests check one size each.",
  [C + "arrays.c", C + "main.c"],
  [("Heap's algorithm", C + "arrays.c sp_times_permutations"), ("ascending composition encoding", C + "arrays.c sp_times_compositions"), ("sp_times_sequences", C + "arrays.c")],
  ["returned arrays and sizes"])
p("C24", "Random numbers are reproducible, in range and of the documented generators",
  "The random generator seeded with any value produces the published splitmix64-seeded xoshiro256 sequences: integers of the starstar variant, floats of the plus variant, and bounded integers without modulo bias. Bounded values are always within their range, unit floats in 0..1 and sample floats in -1..1; arrays equal repeated single draws; equal seeds give equal streams and drawing in portions continues the stream. Initialising the library always leaves the same initial random state.",
  ["inputs", "histories"], "every seed, range, array length and interleaving of draw kinds",
  "Tests draw some numbers and check their range once.",
  [L + "random.c", L + "random.h", C + "main.c"],
  [("sph_random_*", L + "random.c"), ("sp_random_state_new", C + "main.c")],
  ["values drawn"])
p("C25", "Random selection respects its distribution and never invents values",
  "Discrete random choice returns only indices with non-zero weight and in proportion to the weights; choosing unique values returns no duplicates; binary random arrays contain only zeros and ones, each with substantial frequency; random selection returns a subsequence in order; shuffling any array is a permutation of it that reaches all orders. Each is determined by the global random state.",
  ["inputs"], "every weight distribution, array length and content, and random state",
  "Tests check that results are in range for one distribution.",
  [C + "arrays.c", C + "arrays-template.c"],
  [("inverse cumulative lookup", C + "arrays.c sp_times_random_discrete"), ("Fisher-Yates shuffle", C + "arrays.c sp_shuffle")],
  ["values drawn"])
p("C26", "Statistics equal their definitions",
  "Mean, median, standard deviation, skewness, kurtosis, range, centre of mass and inharmonicity of integer and float arrays equal their textbook definitions (population forms), do not modify the input, and leave no memory allocated. Moments do not change under reordering and follow shifting and scaling of the data. Mapping float values into an integer range maps the smallest to the bottom, the largest to the top and keeps order, and the counts of possible sequences match enumeration.",
  ["inputs"], "every non-empty array of any length, odd or even, including one element and equal elements where the statistic is defined",
  "Tests check one array each.",
  [C + "statistics.c"],
  [("define_sp_stat_* templates", C + "statistics.c"), ("sp_samples_scale_to_times", C + "statistics.c")],
  ["returned values"])
p("C27", "Sorting orders any array and only permutes it",
  "Sorting any range of an array with a caller-supplied comparison and exchange leaves that range in ascending order, as a permutation of what it was, and touches nothing outside the range. It terminates for all inputs including equal elements, sorted and reversed arrays.",
  ["inputs"], "every array of integers or floats up to some thousand elements, with few or many distinct values, and every sub-range including empty and single",
  "Sorting is only used indirectly by the median tests.",
  [L + "quicksort.h", C + "arrays-template.c"],
  [("quicksort", L + "quicksort.h"), ("less and swap functions", C + "arrays-template.c")],
  ["array content", "indices passed to the callbacks"])
p("C28", "Futures and thread pool run every task exactly once and can be restarted",
  "Every task handed to the futures pool runs exactly once on its data, touching a future waits until it is finished and returns its result, and finishing the pool waits for all tasks enqueued before; a pool finished without waiting returns at once, still runs what was enqueued before unless the queue is discarded, and can be finished again with waiting, after which no thread and no allocation of the pool remains. A pool for which a thread cannot be created reports that, leaves no thread and no allocation behind, and can be created later. The pool can be initialised repeatedly, finished, and initialised again with another size. What a task wrote is visible, without data races and further synchronisation, to the thread that touched its future or finished the pool. The task queue is first in, first out for every sequence of operations.",
  ["schedules", "histories"], "every number of workers and tasks, tasks of different duration, touch order, init/finish history, and every queue operation sequence",
  "One test runs ten tasks once.",
  [L + "futures.c", L + "thread-pool.c", L + "queue.h"],
  [("mutex protected queue with condition variable", L + "thread-pool.c"), ("sph_future_*", L + "futures.c"), ("sph_queue_*", L + "queue.h")],
  ["task execution counts and results"])
p("C29", "Running out of memory is reported and loses nothing",
  "If any single memory allocation inside the library fails, the called function returns a failure status (never success), does not crash, and releases what it had allocated itself; the caller's data and states stay valid so that they can be freed or used again as usual. Functions that could not run out of memory are not affected.",
  ["fault_sequences"], "every allocation performed by any status-returning function for any generated arguments, failed one at a time",
  "No test makes an allocation fail.",
  [L + "helper.c", L + "helper.h", C + "arrays.c", C + "main.c", C + "filter.c", C + "sequencer.c", C + "path.c", C + "file.c"],
  [("status_require after each allocation", L + "status.h"), ("sph_helper_malloc family", L + "helper.c"), ("cleanup at exit labels", C + "arrays.c")],
  ["returned status", "live allocations"])
p("C30", "Small signal and number helpers equal their definitions",
  "The triangle and square waves, pan law, normalised sinc, Blackman window, minimum and maximum, rounding to a multiple, harmonising, modulo matching and float comparison and summation helpers return the documented value for every argument in their domain. Triangle waves are periodic, within 0..1 and linear between their corners; panning is full on one side, silent on the other and mirrored between an even and an odd channel; unit conversions and their inverses cancel; harmonising with amount zero changes nothing and with amount one gives a nearest multiple.",
  ["inputs"], "every argument in the documented domain",
  "Tests check a handful of points of some of these functions.",
  [C + "main.c", C + "filter.c", C + "arrays-template.c", L + "float.c", L + "float.h"],
  [("scalar functions", C + "main.c")],
  ["return values"])
p("C31", "Sample blocks, interleaving and byte packing keep every sample in place",
  "A new block has the requested channels and size with all samples zero; zeroing and copying affect exactly its samples; a block with offset addresses the samples from that offset to the end and no further; freeing releases all of a block's memory for every size. Interleaving and deinterleaving are inverse and place channels in order for any channel count, and little-endian integers of one to eight bytes are read exactly.",
  ["inputs"], "every channel count, size, offset and content",
  "Tests create one block and interleave nothing.",
  [C + "main.c", C + "arrays.c"],
  [("sp_block_*", C + "main.c"), ("define_sp_interleave", C + "main.c"), ("sp_u64_from_array", C + "arrays.c")],
  ["block content", "live allocations"])
p("C32", "Plot data files and printed arrays contain the data",
  "Writing plot data creates a text file with exactly one line per element, in order, holding the value in decimal: integers exactly, samples and spectrum magnitudes to three decimals. The spectrum is that of the samples: magnitude of the Fourier transform scaled by two over the length. A path that cannot be opened is left alone. Plotting calls the plot program once with a command for a file with that data, a new file for each plot. Displaying an array prints its values, or bits from the lowest, in order on one line. An input is not modified and no memory or file stays open.",
  ["inputs"], "every array content and length",
  "Tests do not read plot files.",
  [C + "plot.c", C + "arrays.c", L + "helper.c"],
  [("sp_plot_*", C + "plot.c"), ("sp_times_display, sp_samples_display", C + "arrays.c")],
  ["file content", "standard output", "arguments of the plot program", "live allocations and file descriptors"])
p("C33", "Status, memory, string and path helpers return valid results",
  "Every status has a valid, terminated description and name that identify the error for known codes and are empty or unknown for others. The status macros stop at the first failing step with its id and group. Reallocation keeps the content, and a failed one leaves the previous allocation in place. String helpers return exactly the joined, copied or slash-terminated text in memory owned as documented; directory creation creates all missing levels with the given mode and reports success exactly when the path exists afterwards, and the parent-directory helper returns a new string for every path.",
  ["inputs"], "every status group and code, every string and every relative or absolute path in a scratch directory",
  "No test covers these helpers.",
  [C + "main.c", L + "helper.c", L + "status.h", L + "string.h", L + "filesystem.h"],
  [("sp_status_description, sp_status_name", C + "main.c"), ("sph_helper_status_description, allocation helpers", L + "helper.c"), ("status macros", L + "status.h"), ("string and filesystem helpers", L + "string.h")],
  ["returned strings", "file system state in the scratch directory"])
p("C34", "Initialising sets up what was requested and deinitialising releases all of it",
  "After each initialisation the default rate, channel count and thread count are the requested ones, both sine tables hold exactly one period of a sine, the random state is the initial one and exactly the requested number of worker threads runs and completes futures. Deinitialising completes pending futures, ends all threads and releases all memory, can be repeated, and allows initialising again with other parameters. When memory or a thread is missing, initialising reports a failure and leaves nothing behind.",
  ["inputs", "histories", "fault_sequences"], "every sequence of initialising, using and deinitialising, every rate, channel count and thread count, and every failing allocation or thread creation",
  "Tests initialise once, with fixed parameters.",
  [C + "main.c", L + "futures.c", L + "thread-pool.c"],
  [("sp_initialize, sp_deinitialize", C + "main.c"), ("worker pool", L + "thread-pool.c sph_thread_pool_new/finish")],
  ["global configuration", "sine tables", "running threads", "live allocations"])
p("C35", "Growable arrays and memory registers keep elements and release addresses once",
  "An array declared for any element type, allocated or declared locally with array3_declare_stack, starts empty and holds exactly the elements added, in order, through any sequence of adding, removing, replacing, clearing, taking over and resizing; its size, used and unused counts, full and not-full tests and last element match; resizing keeps the elements that fit; a failing allocation is reported and leaves the array unchanged. Memory registers release every registered address exactly once with the handler given for it, the last first, independently of other registers, and can be used again afterwards.",
  ["inputs", "histories", "fault_sequences"], "every sequence of operations on arrays of several element types and on several registers",
  "No test covers these helpers by themselves.",
  [L + "array3.h", L + "memreg.h"],
  [("array3_*", L + "array3.h"), ("memreg_*, memreg2_*", L + "memreg.h")],
  ["elements and counts", "released addresses"])
p("C36", "Events built in prepare functions render exactly and leak nothing",
  "An event copied from a definition, whose prepare function allocates arrays, paths, envelopes and settings bound to the event and turns it into a wave, map, group or own event, renders the sum that its parts describe: the values of the bound arrays are those of the plain functions with the same arguments, they stay valid until the event is freed, every copy is independent, and nested events are prepared and placed likewise. Local temporary arrays are released when the function ends. All bound memory is released exactly once when the event is freed. When any allocation fails the status is returned, and after freeing the events nothing remains.",
  ["inputs", "histories", "fault_sequences"], "every tree of events built in prepare functions from any of the bound allocation, path and envelope helpers, rendered serially or in parallel in any blocks, and every failing allocation",
  "Tests use a few of these helpers once, without failures; the example program is not checked.",
  [C + "sequencer.h", C + "main.h", C + "path.c", C + "sequencer.c"],
  [("sp_event_*_srq helpers, sp_define_event, preparing", C + "sequencer.h"), ("sp_local_*_srq, local_memory", C + "main.h"), ("groups, maps, waves", C + "sequencer.c")],
  ["output blocks", "bound arrays", "returned statuses", "live allocations"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
