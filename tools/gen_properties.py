#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as Python because it is easier to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=observe, hook_needed=hook)))

LLA="src/low_level_analysis/low_level_analysis.rs"; TA="src/low_level_analysis/time_analysis.rs"; SA="src/low_level_analysis/space_analysis.rs"
TI="src/low_level_analysis/types/types_impl.rs"; TY="src/low_level_analysis/types/types.rs"
MA="src/metrics_allocator/metrics_allocator.rs"; RB="src/metrics_allocator/ring_buffer.rs"
CO="src/runners/common.rs"; ST="src/runners/standard.rs"; CR="src/runners/crud.rs"
AB="src/api/builders/regular_async_builder.rs"; ME="src/utils/measurements/measurer.rs"; PM="src/utils/measurements/presentable_measurements.rs"

prop("C01", "A verdict never under-states the measured growth",
 "For two passes over set sizes n1 < n2 (n1 >= 1) with positive resource usage, the time or space complexity reported for a regular algorithm or for one that works on a constant set always accounts for the growth that was measured: the second pass used no more than (1 + tolerance) times what the reported class predicts from the first pass. "
 "The predictions are: 1x for O(1), log2(n2)/log2(n1) for O(log n) (a set of one element counting as two inside the logarithm), n2/n1, (n2 log n2)/(n1 log n1), (n2/n1) to the 2nd, 3rd and 4th power, and u1 to the power n2/n1 (seconds or bytes) for O(k^n); a class 'worse than X but better than Y' means less than (1 - tolerance) times what Y predicts. (tolerance: 10%.)",
 ["inputs"], "every pair of set sizes, every pair of durations and every pair of memory measurements (peak minus usage before the pass)",
 "smooth_transitions sweeps u2 for a single (u1, n1, n2) = (10, 2, 14); every other test uses a couple of hand-picked measurements. The verdict is a cascade of 16 floating-point comparisons over four independent numbers: the borders sit on surfaces no sample list covers.",
 [LLA, TA, SA], [("analyse_complexity: cascade of ratio tests, first match wins", LLA), ("analyse_time_complexity*, analyse_space_complexity*: choice of measurements fed to the cascade", TA+", "+SA)],
 ["return value of analyse_time_complexity, analyse_space_complexity and their _for_constant_set_iterator_algorithm variants"])

prop("C02", "A verdict never over-states the measured growth",
 "For two passes over set sizes n1 < n2 (n1 >= 1) with positive resource usage, the complexity reported for a regular or constant-set algorithm is the smallest one, in the published order of classes, that explains the measurement: if usage in the second pass is within (1 +- tolerance) of a class's prediction (or below it by more than the tolerance, for the 'worse than X but better than Y' class just under it), no larger class is reported. "
 "An algorithm that really is within its promised complexity is therefore never rejected because of the analysis. (Usages within floating-point rounding, 1e-9, of a border are left open.)",
 ["inputs"], "every pair of set sizes, durations and memory measurements",
 "Same as C01: tests check isolated points, and false rejections only show at particular ratios.",
 [LLA, TA, SA], [("analyse_complexity: order of the tests and their tolerances", LLA)], ["return value of the four regular/constant-set analysis functions"])

prop("C03", "Set-resizing verdicts bound the measured growth from both sides",
 "When each of the two passes adds (or removes) the same number n >= 1 of elements to the set, the verdict is never better than O(1) unless the second pass used less than the first, and never O(1), 'between O(1) and O(log n)', O(log n), 'between O(log n) and O(n)' or O(n) unless the second pass used at most (1 + tolerance) times that class's prediction (1x, log2(3n)/log2(n) and 3x respectively; n = 1 counting as 2 inside the logarithm). "
 "Nor is it ever larger than the first of these classes whose prediction covers the usage: within (1 + tolerance) for O(1), O(log n) and O(n).",
 ["inputs"], "every n and every pair of durations / memory measurements with positive usage",
 "The sweep test uses n = 1000 and u1 = 100 only; the other tests are four examples.",
 [LLA, TA, SA], [("analyse_set_resizing_iterator_complexity", LLA)], ["return value of analyse_{time,space}_complexity_for_set_resizing_iterator_algorithm"])

prop("C04", "No resource usage is O(1), and pass order of a constant set is irrelevant",
 "An algorithm that used exactly the same amount of a resource in both passes, including none at all, is reported as O(1) for that resource by every one of the six analyses, whatever the set sizes. "
 "Usage in pass 2 when pass 1 used nothing always gets the worst verdict the analysis has ('worse than exponential'; worse than O(n) for set-resizing algorithms), and for constant-set algorithms exchanging which pass ran on the larger of two different sets (sizes and measurements together) does not change the verdict.",
 ["inputs"], "every set size, every usage value including zero",
 "No test analyses an algorithm that uses zero heap in both passes, nor one whose larger set comes first.",
 [LLA, TA, SA], [("analyse_complexity / analyse_set_resizing_iterator_complexity on degenerate ratios", LLA), ("min/max of the set sizes in the constant-set wrappers", TA+", "+SA)], ["return values of the six public analysis functions"])

prop("C05", "More usage in the second pass never earns a better verdict",
 "With everything else equal, increasing the resource usage measured in pass 2 never turns a verdict into a smaller complexity class, and increasing the usage measured in pass 1 never turns it into a larger one, for the time and space analyses of regular, constant-set (1 <= n1 < n2) and set-resizing (n >= 1) algorithms with positive usage (increases large enough, 1e-9 of the usage, not to drown in floating-point rounding). "
 "A test that accepted an algorithm therefore also accepts any run of it that used less.",
 ["inputs"], "every pair of runs differing only in one usage figure, every set-size pair",
 "It relates two executions; tests look at one at a time. The one sweep that checks it fixes u1, n1 and n2.",
 [LLA], [("analyse_complexity: disjointness and order of the bands", LLA)], ["pairs of return values of the analysis functions"])

prop("C06", "Allocator counters equal the true history of heap requests",
 "After any sequence of alloc, alloc_zeroed, realloc and dealloc requests served through the metrics allocator, of any sizes and alignments, successful or refused by the system, the reported counts and byte totals per kind are exactly those of the requests that succeeded, and the memory in use is exactly the number of bytes handed out and not yet returned. "
 "A request that the system refuses changes none of the figures.",
 ["histories", "fault_sequences", "inputs"], "every sequence of requests within the bound, every size, every pattern of system allocation failures",
 "The unit test drives one fixed sequence of alloc/dealloc bookkeeping calls; realloc, alloc_zeroed and failing requests are never exercised.",
 [MA], [("compute_{alloc,dealloc,alloc_zeroed,realloc}_metrics and the GlobalAlloc implementation", MA)], ["save_point() and delta_statistics() results around the requests"],
 [("statistics", "twelve atomic counters", MA)])

prop("C07", "Every save point reports the true minimum and peak since it was taken",
 "For any interleaved sequence of allocations, deallocations and save points (nested, overlapping, in any number up to the buffer size), asking for the delta of a save point yields exactly the smallest and largest amount of memory in use at any moment since that save point, plus the exact counts since then, and asking does not disturb any other save point. "
 "When more save points were taken since than the buffer can hold, an error is returned instead of figures.",
 ["histories", "inputs"], "every history within the bound, every size, every position of the internal ring buffer",
 "One test with four save points, a buffer of 16 that never wraps, and fixed sizes.",
 [MA, RB], [("save_point(): snapshot of the running extremes into the ring buffer, then restart", MA), ("delta_statistics(): fold over the later snapshots", MA), ("RingBufferConsumer::peek_all", RB)],
 ["delta_statistics()"])

prop("C08", "Concurrent allocations never lose a byte, a count, or the peak",
 "When several threads allocate, reallocate and free through the metrics allocator at the same time, the figures seen after they finish equal the totals of all their requests, and the reported peak and minimum are exactly the extremes reached by the amount of memory accounted as in use, whatever the interleaving. "
 "A peak that existed only between two steps of different threads is still reported.",
 ["schedules", "inputs"], "every interleaving of the atomic steps of the threads, every size",
 "No test runs the allocator concurrently in a checked way; losing a peak needs a free to land between two particular instructions of another thread.",
 [MA], [("atomic counters plus compare-exchange loops for min and max", MA)], ["delta_statistics() after the threads finished"])

prop("C09", "The metrics allocator is transparent to the program",
 "Every request is forwarded to the system allocator exactly once with exactly the pointer, size, alignment and new size the program gave, and the program receives exactly what the system returned, null included. "
 "No bookkeeping step allocates, and none can panic, for any sizes and any counter values reachable from them.",
 ["inputs", "histories"], "every layout, pointer, new size, counter state and system answer",
 "Tests only see that programs keep running.",
 [MA], [("GlobalAlloc for MetricsAllocator", MA)], ["requests reaching the system allocator; values returned to the caller"])

prop("C10", "The ring buffer delivers every element once, in order, to every consumer",
 "As long as no consumer falls more than the buffer size behind, each consumer independently receives exactly the elements enqueued after its creation, each once and in enqueueing order, whether it takes them one at a time or peeks at all pending ones, and peeking removes nothing. "
 "This holds for any buffer size, any number of wrap-arounds and any mix of operations by any number of consumers.",
 ["histories", "inputs"], "every sequence of enqueue / dequeue / peek / new consumer within the bound from any reachable counter position, every element value, several buffer sizes",
 "Tests run a handful of fixed sequences from an empty buffer.",
 [RB], [("enqueue, dequeue, peek_all, consumer", RB)], ["values returned by dequeue() and peek_all()"], [("reserved_tail / published_tail / head", "monotonic counters, index = counter modulo size", RB)])

prop("C11", "An overrun consumer gets an error, and keeps getting it",
 "A consumer that fell more than the buffer size behind never receives an overwritten element: dequeueing and peeking both fail with an overflow error, from then on and for good. "
 "A consumer that is at most a full buffer behind never gets that error.",
 ["histories", "inputs"], "every history within the bound, every distance between producer and consumer, several buffer sizes",
 "The overflow test checks one failing call per consumer; what the next call does is not looked at.",
 [RB], [("distance checks in dequeue and peek_all", RB)], ["Result of dequeue() and peek_all()"])

prop("C12", "Ring buffer operations are correct under every interleaving",
 "With several threads enqueueing and several dequeueing from the same or from different consumers, every element is delivered exactly once per consumer, no slot that is still being written is ever delivered, elements of one producer stay in order, and no operation panics, as long as the buffer is large enough not to overflow. "
 "This holds for every interleaving of the threads' steps.",
 ["schedules"], "every interleaving of the atomic steps of up to the stated number of threads and operations, spurious compare-exchange failures included",
 "Stress tests see the interleavings the scheduler happens to choose.",
 [RB], [("reserve / write / publish protocol and head compare-exchange", RB)], ["values received by the consumers"])

prop("C13", "Consumed ring-buffer slots are fully visible to the consumer",
 "A consumer that obtains an element through dequeue or peek is ordered after the write of that element by the Rust/C++ memory model: there is no data race between the producer filling a slot and any consumer reading it, on any hardware. "
 "Equally, a producer's write to a slot is ordered before its publication.",
 ["schedules"], "every execution allowed by the C11 memory model (weak orderings included) for the stated threads and operations",
 "x86 machines give stronger ordering than the code asks for, so no test run here can fail.",
 [RB], [("orderings of the operations on published_tail and head", RB)], ["happens-before between slot write and slot read"])

prop("C14", "An iterator pass runs each index exactly once, split contiguously over threads",
 "For any range (ascending or descending), any number of threads >= 1 and either kind of algorithm, an iterator pass calls the algorithm exactly once for every index of the range and for nothing else, including when the number of elements is not a multiple of the number of threads. "
 "Each thread covers one contiguous stretch of the range, walking it one element at a time in a constant direction.",
 ["inputs", "schedules", "configurations"], "every range bound and thread count within the bound, any completion order of the threads",
 "Tests use ranges that are multiples of the thread count (1 or 4 threads) and do not record which indices were visited.",
 [CO], [("run_iterator_pass: range splitting and thread_loop", CO)], ["calls received by the algorithm closure"], hook="verification-only re-export of the pass runners")

prop("C15", "A pass reports the resources used between its start and its end",
 "The measurement of a pass (sync, async or iterator) has 'before' equal to the memory in use when it started, 'after' equal to the memory in use when it ended, and minimum and peak equal to the extremes in between, so minimum <= before, after <= peak; its time is what the clock advanced while the algorithm ran (averaged over the threads, for iterator passes). "
 "The algorithm is called exactly once with the value it was given and its result is returned untouched.",
 ["inputs", "histories"], "every sequence of allocations within the bound made by the algorithm, every clock reading, every initial memory state",
 "Tests only check rough magnitudes, on a real clock.",
 [CO, MA], [("run_sync_pass, run_async_pass, run_iterator_pass: save point, clock, algorithm, clock, delta", CO)], ["returned PassResult"], hook="verification-only re-export of the pass runners")

prop("C16", "CRUD analysis runs the documented phases over the documented elements",
 "For any choice of iterations, threads and warm-up percentage, the CRUD analysis calls the closures exactly as documented: optional warm-up over the first percentage of the elements followed by a reset told the number of created elements, then create, read and update over elements [0, n) in the first pass and [n, 2n) in the second, then delete of [n, 2n) and lastly of [0, n), n being each operation's own number of iterations. "
 "An operation with zero iterations or zero threads is never called and yields no analysis, and every enabled operation yields one whose sizes are the ones that ran.",
 ["configurations", "inputs"], "every combination of enabled operations, iteration counts, thread counts and warm-up percentages within the bound",
 "Tests run a few large fixed configurations and look at the report text.",
 [CR, CO], [("internal_analyse_crud_algorithms: pass macros and range functions", CR)], ["calls received by the closures; Options returned by analyse_crud_algorithms"])

prop("C17", "A CRUD test passes only if a whole attempt met every limit",
 "A CRUD test returns normally if and only if some attempt, among at most the allowed number (at least one), found all enabled operations within their maximum time and space complexity; otherwise it panics. "
 "A time excess is retried after a reset until attempts run out, a space excess without time excess fails immediately, and no retry silently drops an enabled operation.",
 ["histories", "configurations", "inputs"], "every pattern of measured outcomes over the attempts, every number of attempts within the bound, all limits",
 "Tests exercise the always-pass case and single failures; the retry path with adapted sizes is not checked.",
 [CR], [("test_crud_algorithms: retry loop, adapt()", CR), ("yield_analysis_or_return_with_error!", CR)], ["normal return or panic; closure calls"])

prop("C18", "A regular-algorithm test passes only if an attempt met both limits",
 "test_algorithm returns normally if and only if some attempt among 1 + max_retry_attempts found both the time and the space complexity within the expected maximum; a space excess fails at once, a time excess is retried. "
 "Each attempt runs reset, pass 1 and pass 2 once each, in this order, and judges that attempt's own measurements.",
 ["histories", "inputs"], "every pattern of measured outcomes over the attempts, retry counts within the bound, all limits",
 "Tests see one pass and one failure; they never reach the retries (five seconds each).",
 [ST], [("test_algorithm / analyse_algorithm with keen-retry", ST)], ["normal return or panic; closure calls"])

prop("C19", "The async builder enforces its limits and threads the data through",
 "A test built with the async builder passes if and only if some attempt among 1 + max_reattempts met the expected time and space complexity (those that were set), with a space excess failing at once. "
 "Each attempt runs reset, warm-up followed by another reset, first pass, its assertion, reset, second pass and its assertion, skipping the absent ones, and each pass and assertion works on the data produced by the step before it.",
 ["histories", "configurations", "inputs"], "every subset of optional steps, every pattern of measured outcomes, retry counts within the bound",
 "Tests build one configuration that succeeds at once.",
 [AB, CO], [("RegularAsyncAnalyzerBuilder::test_algorithm / raw_analyse_algorithm", AB)], ["normal return or panic; data received by each closure"])

prop("C20", "Memory reports are arithmetically right and never panic",
 "For any measurement with minimum <= before, after <= peak, and any n >= 1, the memory report of a pass carries '+' exactly when more memory is in use after than before, '-' exactly when less is, and no sign otherwise; the reported total delta and auxiliary space of two passes are the exact sums of (after - before) and of (peak - max(before, after)). "
 "The amount shown is, in the unit shown and to the digits shown, the larger of (peak - before) and (before - minimum), divided by n. Producing a report never panics nor overflows.",
 ["inputs"], "every 64-bit memory measurement and every n >= 1",
 "Only fixed examples are formatted, for manual inspection.",
 [TI], [("fmt_over_n, used_memory_delta, used_auxiliary_space, Display implementations", TI)], ["strings and numbers returned"])

prop("C21", "Measured values are presented in the unit that fits them",
 "A byte quantity or byte rate is displayed in the largest unit not exceeding it, scaled by exactly that unit, and every non-negative finite value is displayable without panic; custom units and rates scale only as documented. "
 "Small quantities below one base unit keep a non-misleading unit: the number shown, in the unit shown, is the quantity; durations show theirs. Several custom units may be in use at once without one showing the other's.",
 ["inputs"], "every non-negative finite value",
 "Unit tests list a few dozen values.",
 [PM], [("PresentableMeasurement tables and Display", PM)], ["Display output"], hook="verification-only re-export of the utils module")

prop("C22", "Limits are compared in order of growth and reports name the right class",
 "A measured class is accepted against a limit exactly when its growth is not larger: BetterThanO1 < O(1) < O(log n) < O(n) < O(n log n) < O(n^2) < O(n^3) < O(n^4) < O(k^n) < worse, each 'between' class lying strictly between its neighbours. "
 "Each class has its own distinct text in time and in space reports, and that text names the class reported.",
 ["inputs"], "every pair of classes",
 "No test compares all pairs of classes, nor the texts.",
 [TY, TI, ST, CR, AB], [("order of the enum variants, as_pretty_str and variants", TY+", "+TI)], ["acceptance by the test functions; report text"])

prop("C23", "Custom measurements wrap the event in nested order",
 "Custom measurers take their 'before' readings in reverse order of declaration and their 'after' readings in order of declaration, each exactly once per event, and each 'after' reading receives precisely the value its own 'before' reading produced. "
 "The resulting measurements keep the declared order, names and expectations.",
 ["histories", "inputs"], "any number of measurers within the bound, any reading values, any sequence of events",
 "One unit test with a single measurer.",
 [ME], [("measure_all_before_event, measure_all_after_event, CustomMeasurer", ME)], ["calls and values seen by the measurer closures"], hook="verification-only re-export of the utils module")

prop("C24", "A panic in any provided closure fails the test and ends it",
 "Whichever of the closures a user provides panics -- a measured pass, a warm-up, an assertion or a reset, of the regular, CRUD or asynchronous runner, in the thread of the caller or in one of the threads of a CRUD pass -- the call of the runner panics too: "
 "a failing assertion or workload is never reported as a passed test. With one thread, no further closure is called after the panic; with any number of threads, no later pass, reset or attempt starts. If no closure panics and the analysis is as expected, the runner does not panic.",
 ["inputs", "histories", "schedules"], "any call of any closure, including of any single element in any thread's chunk and of a retried attempt",
 "Tests have a few assertions that fail, in single-threaded passes of the first attempt.",
 [ST, CR, AB, CO], [("test_algorithm", ST), ("analyse_crud_algorithms, test_crud_algorithms, internal_analyze_crud_algorithms", CR), ("RegularAsyncAnalyzer::test_algorithm", AB), ("run_iterator_pass", CO)],
 ["panic of the runner or none", "calls received by the closures"], hook="verification-only re-export of run_iterator_pass")

prop("C25", "Analyses and reports show the figures of the right operation and pass",
 "Every analysis a CRUD run returns holds the durations and the memory measured in its own operation's two passes, each in its place, and the full CRUD report contains the report of each enabled operation exactly once and of no disabled one. "
 "A report names what was measured, and the row of each pass shows that pass's own duration and memory and its number of elements (for set-resizing algorithms the running total: n, then 2n; for constant sets the set size and the number of repetitions), "
 "and its time per element: duration divided by n, by the elements added in the pass, or by the repetitions; a regular algorithm's row also shows its memory per element.",
 ["inputs"], "every duration, every number of elements or repetitions, every choice of enabled operations",
 "Tests look for fixed phrases in reports of real, unpredictable timings; a figure taken from the other pass, from another operation or divided by the wrong count reads just as well.",
 [TI, CR, TY], [("Display of AlgorithmMeasurements, ConstantSetIteratorAlgorithmMeasurements, SetResizingIteratorAlgorithmMeasurements", TI), ("run_set_resizing_pass!, run_constant_set_pass!: which results and sizes go into an analysis; _output: the full report", CR)],
 ["the analyses and the report returned by analyse_crud_algorithms", "to_string() of a BigOAlgorithmAnalysis"])

prop("C26", "Figures asked for while other threads allocate are true and consistent",
 "Taking a save point and asking for its delta never panic nor fail while other threads allocate, free, reallocate or use save points of their own (as many as the buffer holds). The figures are consistent: the minimum is never above, and the peak never below, the memory in use when the save point was taken nor that "
 "in use when it was asked; no figure for memory in use is an amount that never was in use; counts and bytes never exceed those of all requests, never go back from one asking to the next, and are exact once the other threads are done.",
 ["schedules", "inputs"], "every interleaving of the steps of the threads within the bounds, every size",
 "No test asks for figures while another thread allocates; the inconsistencies need a request of one thread to fall between two particular loads of the other.",
 [MA, RB], [("save_point, delta_statistics, compute_min_and_max_used_memories", MA), ("enqueue, consumer, peek_all", RB)],
 ["values returned by save_point() and delta_statistics() in one thread while another allocates"],
 [("statistics", "twelve atomic counters", MA)], hook="address of the memory-in-use counter, to know the values it had")

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
