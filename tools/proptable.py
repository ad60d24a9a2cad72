MEM_NOTE = "Static over-approximation of the control flow: every library function is an entry point, callees are analysed in their calling context, every allocation and file operation may fail, loops are covered by one distinguished and one havocked iteration. A report is only raised on an abstract path that no recorded fact excludes. Not a proof: facts about caller data are assumed as listed in the evidence."
F = "source/c/foreign/sph-sc-lib/sph-sp/"
MAIN = [S + x for x in ("main.c", "sequencer.c", "filter.c", "file.c", "arrays.c", "path.c", "plot.c", "statistics.c")] + [F + x for x in ("helper.c", "thread-pool.c", "futures.c", "spline-path.c", "random.c")]

prop("C01", "Every failure reaches the caller",
     "Whenever memory can not be obtained, a file operation fails or a user callback reports a failure, the library function that was called returns a failure status. Success is never reported after such a failure, and every function that promises a result returns a defined one on every path.",
     ["fault_sequences", "inputs"], "every operation that can fail, at every occurrence, on every path, from every public function", "the tests never make an allocation, a write or a callback fail; each failing point on each path would need its own injected fault",
     MAIN, [("status checks after each fallible call", S + "sequencer.c"), ("file error checks", S + "file.c"), ("allocation wrappers", "source/c/foreign/sph-sc-lib/sph-sp/helper.c")],
     "interprocedural path-sensitive abstract interpretation of LLVM IR (failure typestate), and value-flow summaries of failing calls", MEM_NOTE)
prop("C02", "Nothing acquired is lost, on success or failure",
     "Every memory block and file the library acquires during a call is, when the call returns, either released, handed to the caller or attached to an object the caller owns. This holds for every combination of failing operations on the way.",
     ["fault_sequences", "inputs"], "every acquisition site, every exit path, every failing operation in between", "leaks on error paths do not change any observable result of a passing test",
     MAIN, [("cleanup at exit labels", S + "main.c"), ("event memory registers", S + "sequencer.c"), ("filter state", S + "filter.c")],
     "interprocedural ownership analysis (abstract interpretation over LLVM IR), including call sequences of constructors and destructors", MEM_NOTE)
prop("C03", "No invalid memory is used or released",
     "No call accesses or releases memory through a null, uninitialised, already released or foreign pointer, decides anything on an uninitialised value, or accesses memory outside of an object of fixed size. This includes every path taken after a failed operation.",
     ["fault_sequences", "inputs"], "every access and every release on every path of every function", "undefined behaviour often goes unnoticed in a passing run and error paths are not executed",
     MAIN, [("null initialisation before cleanup", S + "sequencer.c"), ("event free protocol", S + "sequencer.c"), ("block release", S + "main.c")],
     "interprocedural typestate and value-flow analysis (abstract interpretation over LLVM IR)", MEM_NOTE)
VF_NOTE = "The check computes, from the compiler's intermediate representation, a value-flow summary of each function (every store, copy, allocation and return with address, value and gated path condition; loops by one distinguished and one arbitrary iteration with solved recurrences) and decides equality with a reference term by random interpretation of both terms. Sizes are sampled between zero and four and at the sizes the code compares with; contents are sampled. A difference is only reported when path condition, address and value are all resolved, so the analysis reports no unresolved case; it can miss differences that need particular large sizes the code does not mention. Nothing from the repository is executed."
VF_TECH = "value-flow summaries of LLVM IR (abstract interpretation with gated path conditions), compared with reference terms by random interpretation"
prop("C04", "Array operations compute what they document",
     "Each function for arrays of samples or times (arithmetic, comparison, selection, sorting helpers, statistics-free reductions, resizing, scaling, limiting, blending, conversion, allocation and duplication) leaves in its output, or in the newly allocated array, exactly the values its documentation and name define from the inputs, for every size including zero and for input and output being the same array where documented, and returns the documented value.",
     ["inputs"], "all sizes and contents of the arrays and all scalar parameters", "the tests look at one small array for a few of the roughly ninety functions",
     [S + "arrays.c", S + "arrays-template.c", S + "arrays.h"], [("array operations", S + "arrays.c"), ("operations defined for both element types", S + "arrays-template.c")], VF_TECH, VF_NOTE)
prop("C05", "Sizes bound every access and inputs stay unmodified",
     "Array, oscillator, convolution and block functions read and write only the elements that the size arguments give them, for every combination of sizes, never write to an array that is only an input, and allocate at least as much memory as they fill.",
     ["inputs"], "all sizes, offsets and index contents", "an access just outside of an array usually goes unnoticed and a changed input is not looked at after the call",
     [S + "arrays.c", S + "arrays-template.c", S + "main.c", S + "filter.c"], [("index arithmetic of the array functions", S + "arrays.c"), ("convolution and carryover indices", S + "main.c"), ("moving average windows", S + "filter.c")], VF_TECH, VF_NOTE)
prop("C06", "Oscillators add a continuous wave",
     "The oscillators add the table value at the running phase, times the amplitude, to what is already in the output for exactly the requested number of samples; the phase advances by the frequency or by its modulation, always stays inside of the table, and the state written back continues the wave seamlessly in the next call. Phase and waveform functions return the phase modulo the cycle and the value of the wave at that phase.",
     ["inputs", "call_sequences"], "all sizes, phases, frequencies and modulation contents", "tests render a few fixed sizes and frequencies",
     [S + "main.c"], [("table oscillator", S + "main.c"), ("phase arithmetic", S + "main.c")], VF_TECH, VF_NOTE)
prop("C07", "Convolution and filter kernels produce every contribution exactly once",
     "Convolving a block adds every product of an input value and a kernel value to exactly one place, the output or the carryover for later blocks, together with the previous carryover, whatever the relation of block, kernel and carryover sizes. Moving averages are the mean of the window with the documented extension at the ends. Impulse response generators and window functions return the documented coefficients.",
     ["inputs", "call_sequences"], "all block, kernel and carryover sizes and contents", "the relation of the three sizes selects between code paths with different index arithmetic; tests try three combinations",
     [S + "main.c", S + "filter.c"], [("convolution with carryover", S + "main.c"), ("windowed sinc kernels", S + "filter.c"), ("moving average", S + "filter.c")], VF_TECH, VF_NOTE)
prop("C08", "Blocks and interleaving keep every sample in its place",
     "Creating, clearing, copying, offsetting, interleaving and deinterleaving blocks keeps each sample of each channel at the position the layout defines, for every channel count, size and offset.",
     ["inputs"], "all channel counts, sizes, offsets and contents", "one fixed size is tested",
     [S + "main.c"], [("block allocation and views", S + "main.c"), ("interleave, deinterleave", S + "main.c")], VF_TECH, VF_NOTE)
prop("C09", "Scalar helpers return the documented value",
     "The small arithmetic helpers (minimum, maximum, panning, divisor matching, powers, factorial, permutation and composition counts, harmonising) return the value their documentation defines, for all arguments in the documented range that do not overflow.",
     ["inputs"], "all arguments", "only a handful of arguments is tested",
     [S + "main.c", S + "statistics.c", S + "arrays.c"], [("combinatorial counts", S + "statistics.c"), ("panning", S + "main.c")], VF_TECH, VF_NOTE)
SEQ = [S + "sequencer.c"]
prop("C10", "Event lists stay ordered, linked and owned",
     "Adding, removing, reversing and freeing events, and adding events to groups, keeps an event list doubly linked with the head having no predecessor, keeps it ordered by start with no event lost, duplicated or moved to another list, runs the free function of exactly the removed events and releases each of them exactly once.",
     ["call_sequences", "inputs"], "all list lengths, positions and start times, including equal ones", "tests look at lists of three or four events in one order",
     SEQ, [("list operations", S + "sequencer.c"), ("groups as lists of events", S + "sequencer.c")], VF_TECH, VF_NOTE)
prop("C11", "The sequencer renders each event over exactly its own time range",
     "Rendering a time range calls each event's generate function exactly for the part of the range that overlaps the event, with the position relative to the start of the event and the output offset where the part belongs, and for no other event. Each event is prepared exactly once, before it is first rendered; events that have ended are removed and freed exactly once; splitting a range into event blocks covers it without gap or overlap. When an event fails, rendering ends with its status and all events of the list are freed exactly once. Groups pass the same guarantees on to the events in them.",
     ["inputs", "call_sequences"], "all relative positions of events and rendered range, all events in a list, all outcomes of earlier calls", "tests render one or two ranges over a few events",
     SEQ, [("sequential sequencer", S + "sequencer.c"), ("scheduling with prepare and generate", S + "sequencer.c"), ("event groups", S + "sequencer.c")], VF_TECH, VF_NOTE)
prop("C12", "Parallel rendering equals sequential rendering",
     "The parallel sequencer prepares, renders and frees the same events over the same ranges as the sequential one. Every due event is rendered by exactly one task into memory of its own, and the sum of all of these, each added once at the offset of its event, is what ends up in the output in addition to its previous contents.",
     ["inputs", "schedules"], "all events in the list, all relative positions of events and range, all interleavings of tasks, since each task only touches its own block", "a test compares one composition; a wrong offset or a skipped sum needs particular positions",
     SEQ + [F + "futures.c"], [("parallel sequencer", S + "sequencer.c"), ("task of one event", S + "sequencer.c")], VF_TECH, VF_NOTE)
prop("C13", "Events render what their configuration describes",
     "Wave events add, for each channel configuration, the wave table's value at the running and modulated phase times amplitude and amplitude modulation to the output channel it names, over exactly the requested range, and the next call continues seamlessly. Channel configurations that are not marked as used repeat the first one on their own channel, and settings that are missing are taken from the first. Map events render the contained event and pass its output to the map function once per range, through a separate block when isolated. Noise events filter fresh noise with the configured parameters, once per segment of at most the configured resolution, and add the limited result to each channel; their preparation fills in missing settings and makes buffers that are large enough. Configuration defaults and newly allocated configurations have the documented values.",
     ["inputs", "call_sequences"], "all channel counts, configurations, ranges and modulation contents", "tests use one configuration each",
     SEQ, [("wave events", S + "sequencer.c"), ("map events", S + "sequencer.c"), ("noise events", S + "sequencer.c"), ("configuration defaults", S + "sequencer.c")], VF_TECH, VF_NOTE)
prop("C14", "Event memory remembers every registration",
     "Registering memory with an event keeps all previous registrations, with their handlers, growing as needed, and freeing the memory of an event calls the handler of each registration exactly once with its address.",
     ["inputs", "call_sequences"], "all numbers of registrations and all capacities", "tests register a few addresses within the initial capacity",
     SEQ, [("memory of an event", S + "sequencer.c")], VF_TECH, VF_NOTE)
prop("C15", "Paths and envelopes go through the points they are given",
     "Paths and envelopes, in all their variants with fixed and variable numbers of points, draw exactly the given points in order, with times and values scaled as documented and with curvature applied to the segment it is given for. Segments begin where the previous one ended. Drawing any range of a path draws each segment exactly over its part of the range and at its place in the output, whatever ranges were drawn before; lines, constants, moves and nested paths have the values their definition gives at each position.",
     ["inputs", "call_sequences"], "all numbers of points, positions, values and curvatures, all sequences of ranges", "tests draw a few paths once from their start",
     [S + "path.c", F + "spline-path.c"], [("points of paths and envelopes", S + "path.c"), ("segments and ranges", F + "spline-path.c")], VF_TECH, VF_NOTE + " How bezier segments interpolate between their points is not decided.")
prop("C16", "WAV files contain what was written, and only valid ones are read",
     "Writing creates a file with a correct header for the channel count and sample rate, followed by the interleaved samples of all writes in order; closing stores the size of the data that was written. Reading accepts only the supported format, skips other chunks, places each value in its channel, and reports the end of the data.",
     ["inputs", "call_sequences", "fault_sequences"], "all channel counts the library is compiled for, sizes, rates, headers and short reads", "tests write and read one file with ordinary contents",
     [S + "file.c"], [("header", S + "file.c"), ("interleaving", S + "file.c"), ("chunks", S + "file.c")], VF_TECH, VF_NOTE + " The file system itself is represented by the calls made to the C library.")
prop("C17", "Statistics follow their defining formulas",
     "Mean, deviation, median, range, center of mass, skewness, kurtosis, inharmonicity, counts of subsequences and scaling into a range of times return what their defining formula gives for the input, without modifying it.",
     ["inputs"], "all sizes and contents for which the formula is defined", "tests use one array for each",
     [S + "statistics.c"], [("statistics", S + "statistics.c")], VF_TECH, VF_NOTE)
prop("C18", "Filters keep their state across blocks and parameter changes",
     "A filter that is applied to a stream block by block keeps one state: the kernel is recalculated exactly when its parameters or its type changed, the values carried over from earlier blocks are kept across recalculation and resizing, newly needed room is zero, superseded memory is released, and all parameters reach the kernel function unchanged. When a new kernel can not be made the state stays as it was, so that it still describes the kernel it keeps. Freeing a state releases everything it holds.",
     ["inputs", "call_sequences"], "all sequences of kernel lengths, parameters and block sizes", "tests filter with one or two kernels of similar length",
     [S + "filter.c"], [("state update", S + "filter.c"), ("parameter passing", S + "filter.c")], VF_TECH, VF_NOTE)

LOCK_TECH = "lockset, ownership and publication analysis over LLVM IR, and value-flow summaries compared with reference terms"
prop("C19", "Queues, pools and futures are free of races and lose no task",
     "All accesses to state that threads share in queues, thread pools and futures happen with the protecting mutex held, or while only one thread can see the object; no function waits, returns or exits with a mutex wrongly held or released; waiting for a condition tests the state again. The queue is first in, first out. Every task that is enqueued before a pool is finished is run once, finishing joins every thread that was started, and touching a future returns the result of its function once it has ended.",
     ["schedules", "call_sequences"], "all interleavings of any number of workers and callers", "a test runs one schedule, in which missing locks hardly ever show",
     [F + "thread-pool.c", F + "futures.c", F + "queue.h"], [("worker loop and enqueueing", F + "thread-pool.c"), ("hand over of results", F + "futures.c"), ("queue", F + "queue.h")], LOCK_TECH, "The lock analysis follows every path of every entry function with its lockset and with the ownership of each object; it treats an access without the lock as a report when the object may be shared at that point. Memory orderings weaker than acquire and release on publication flags are reported. " + VF_NOTE)
prop("C20", "Results depend on arguments and documented global state only",
     "Apart from initialisation, the random number entry points that are documented to use the default state, plotting counters and the pool of futures, no function of the library changes an object with static storage, and nothing that runs as a task of the parallel sequencer does. Calls on different objects are therefore independent, in one thread and in several.",
     ["schedules", "call_sequences"], "all call sequences and all schedules", "hidden shared state shows only when calls are repeated or overlap",
     MAIN, [("global objects", S + "main.c"), ("random state of noise events", S + "sequencer.c"), ("tasks", S + "sequencer.c")], "mod/ref effect analysis over the call graph of the LLVM IR", "Writes through pointers are attributed to a global when the pointer is derived from it, across calls; indirect calls reach every address-taken function of a matching type. One genuine race is listed as a known finding.")
prop("C21", "Statuses come from the documented vocabulary",
     "Every failure that a function returns carries the group it belongs to and one of the identifiers defined for that group; identifiers are distinct and none equals success; each identifier has its own name and description. Every function the headers declare exists.",
     ["inputs", "fault_sequences"], "every failing return of every function", "failing returns are not reached by the tests, and a declared function that is missing is only noticed by who links against it",
     MAIN, [("identifiers", S + "main.h"), ("names and descriptions", S + "main.c")], "path-sensitive constant propagation of returned statuses (abstract interpretation over LLVM IR), checks against the preprocessed headers", "Statuses that are passed on from callbacks are not constrained. " + MEM_NOTE)
prop("C22", "Rendering entry points cover exactly the requested range",
     "Rendering to a file, a block or a plot renders the requested range from its beginning to its end in consecutive parts without gap or overlap, each into cleared memory, and writes all of it in order. Initialising the library sets the rate, channel count, random state and tables that were asked for, and deinitialising releases them.",
     ["inputs"], "all ranges relative to the internal block size, all channel counts", "ranges longer than one internal block take longer than a unit test can, and tests only look at the first",
     [S + "main.c", S + "sequencer.c"], [("render loops", S + "sequencer.c"), ("initialisation", S + "main.c")], VF_TECH, VF_NOTE)
prop("C23", "Random numbers are those of the documented generators",
     "The random number functions return the sequence of the generators they are named after for a given state, bounded variants stay inside of their range, scaled variants map to their interval, array variants equal repeated calls, and the state afterwards continues the sequence.",
     ["inputs", "call_sequences"], "all states, sizes and ranges", "tests compare a few numbers or none",
     [F + "random.c", F + "random.h", S + "main.c"], [("generators", F + "random.c")], VF_TECH, VF_NOTE)
prop("C24", "The Fourier transform is one",
     "The transform of any size, power of two or not, equals the sum that defines the discrete Fourier transform, the inverse equals the sum with opposite sign, and scaling is the documented one.",
     ["inputs"], "all sizes and contents", "one size is tested",
     [S + "main.c", "source/c/foreign/nayuki-fft/fft.c"], [("interface", S + "main.c"), ("transforms", "source/c/foreign/nayuki-fft/fft.c")], VF_TECH, VF_NOTE + " Sizes 1 to 8 are decided.")
prop("C25", "Selections, shuffles and enumerations are complete and unbiased by construction",
     "Random selections take each element according to the given cumulative weights, shuffles swap each position with one of the remaining ones and lose nothing, and enumerations of permutations, compositions and sequences contain each element exactly once and in the documented order.",
     ["inputs"], "all outcomes of the generator, all sizes and contents", "random results can not be compared with fixed values, and an index one too low at the end of a range shows only for rare numbers",
     [S + "arrays.c", S + "statistics.c", S + "main.c"], [("selections", S + "arrays.c"), ("enumerations", S + "arrays.c")], VF_TECH, VF_NOTE + " Permutations are decided for at most two elements.")
prop("C26", "Every operation comes to an end",
     "Every function returns for every input its callers may pass: no loop can go around without changing what it waits for, and with arrays of a few elements, lists of a few events and ranges of a few samples no loop is still going on after many times that number of iterations. Loops that wait for other threads wait for a state that the other thread changes.",
     ["inputs", "call_sequences"], "all paths around every loop; all contents, sizes and lists", "a loop that never ends for a rare input hangs only for that input, and the tests do not use it",
     MAIN, [("event lists", S + "sequencer.c"), ("array operations", S + "arrays.c"), ("segments of paths", F + "spline-path.c"), ("file chunks", S + "file.c")], "progress analysis of loops over LLVM IR (data dependence of branches around each loop), and value-flow summaries whose every return is excluded",
     "The loop rule is exact for what it reports: a path around the loop on which no loop variable, memory or call result that the branches of the path depend on changes. Loops that advance in the wrong direction, or that are kept from ending by other conditions, are reported by the summaries when no return of the function is reachable within 70 iterations for a sampled small input. Termination as such is not proved.")
