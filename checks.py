# What each check runs. See DESIGN.md.
CHECKS = {
    "C01": dict(level="model_checking", technique="exhaustive enumeration of writer operation histories on the real code against a list model", parts=[dict(variant="san", harness=["c01_stream_history.cpp"])],
                rule="All sequences over {write, new stream, other stream, append with a new writer, append with the same writer and another "
                     "part size, close} after an initial open, for each body count and part limit; the whole stream is read back and compared "
                     "with a list of frames after every operation. states = nodes of the sequence tree, transitions = operations executed, "
                     "traces = complete sequences compared on the implementation.",
                bounds=dict(quick="depth 5, bodies {1,3}, 9 part limits; long/large/sparse extras", thorough="depth 7"),
                assumptions=["file system of the sandbox behaves as POSIX", "body count and box size at least 1"]),
}
CHECKS["C02"] = dict(level="model_checking", technique="exhaustive crash-point and torn-write exploration of writer histories on the real code", parts=[dict(variant="opt", harness=["c02_crash.cpp"])],
    rule="Every history of new/write/append/close/overwrite operations up to the depth is run in a child process that is stopped at its k-th "
         "mutating system call, for every k, with every torn length of a write (every byte for writes up to 96 bytes); the parent loads the stream, "
         "compares it with the acknowledged frames, resumes it and compares again; for a subset the resume crashes too, at each of its calls. "
         "states = crash points, transitions = executions of the writer or of the recovery, traces = crash points after which everything agreed.",
    bounds=dict(quick="histories of 5 operations, bodies 1 and 2, three part limits, double crashes for a fifth of the tears",
                thorough="histories of 6 operations, all double crashes for histories of 5"),
    assumptions=["process crash: completed system calls survive (no power loss model, the code never syncs)"])
CHECKS["C03"] = dict(level="fault_enumeration", technique="exhaustive fault injection at every system call of every short writer history", parts=[dict(variant="san", harness=["c03_faults.cpp"])],
    rule="Every history of new/write/append/close/overwrite operations up to the depth, with every mutating system call of it in turn failing "
         "(ENOSPC or EIO) or carried out only in part, alone, with the next call failing too, with every later call or every later call on the same file failing too; after each operation the stream is loaded and "
         "compared with a ledger of acknowledged and failed frames, at the end a new writer continues. A case is non-trivial if the fault was hit.",
    bounds=dict(quick="5 operations, bodies 1, 2 and 700, three part limits", thorough="6 operations, every torn length up to 200 bytes"),
    assumptions=["a failing call has no effect besides the bytes written by a short write"])
CHECKS["C04"] = dict(level="model_checking", technique="exhaustive exploration of reader operation sequences and file truncations against a position model", parts=[dict(variant="san", harness=["c04_reader.cpp"])],
    rule="All sequences of reader operations {load of three streams, a missing and a malformed one, seek in and out of range, read with right, wrong "
         "and no destination, close} up to the depth, compared after every operation with a position model; every truncation of each data and index "
         "file of two streams; a list of malformed index files. states = nodes of the choice tree, transitions = operations, traces = sequences that agreed.",
    bounds=dict(quick="load + 4 operations from 14, 6 operations from 6", thorough="load + 6 from 14, 8 from 6"),
    assumptions=["masses and colours are delivered with the first frame read after a load"])
CHECKS["C05"] = dict(level="model_checking", technique="exhaustive exploration of interruption points of the real program, streams compared bit by bit", parts=[dict(variant="opt", harness=["c05_resume.cpp"], env={"OMP_NUM_THREADS": "1"})],
    rule="The simulation program (its main function, linked in) is run to the end and, for every set of one or two interruption times out of all "
         "steps and for the run interrupted at every step, run piecewise with resume; a finished run is resumed once more. The resulting streams are "
         "compared frame by frame, bit by bit. states = interruption sets, transitions = program runs, traces = sets whose streams agreed.",
    bounds=dict(quick="20 solver/engine configurations, 4 step grids, 3 part limits, 4 dumps", thorough="6 dumps"),
    assumptions=["autonomous forces", "implicit and multi-step solvers keep a history that is not recorded, so they are outside the statement"])
CHECKS["C06"] = dict(level="model_checking", technique="exhaustive exploration of run loop configurations against an explicit event model", parts=[dict(variant="opt", harness=["c06_run_loop.cpp"])],
    rule="The run loop with a counting solver, a recording stream and recording visitors, for every combination of step, dump and check interval "
         "(multiples and fractions of a step around the tolerance), end time, start time, failing frame, visitors and a second run continuing the first; "
         "the complete event sequence (steps, frames, visits, each with step, time and state) is compared with an integer-time model. "
         "states = events compared, transitions = runs, traces = event sequences that agreed.",
    bounds=dict(quick="14 x 14 intervals, 8 end times, 3 steps", thorough="20 x 20 intervals, 10 end times"),
    assumptions=["interval/step ratios whose tolerance border falls on a step are left out (rounding decides there)"])

OMP1 = {"OMP_NUM_THREADS": "1", "OMP_WAIT_POLICY": "passive"}
CHECKS["C07"] = dict(level="model_checking", technique="exhaustive enumeration of lattice configurations and computation histories against a direct sum",
    parts=[dict(variant="san", harness=["c07_exact.cpp"], env=OMP1)],
    rule="Every placement of up to four bodies on a nine point lattice (coincident, inside, at and outside the softening distance, far apart) with three "
         "mass patterns on every exact engine (and Barnes-Hut with an unreachable ratio), every history A, B, A of two placements on one engine, every body "
         "count up to the bound with seven structured sets; compared with a direct sum in extended precision with a rounding error bound. "
         "states = configurations, transitions = force computations, traces = computations that agreed.",
    bounds=dict(quick="4 bodies on the lattice, 140 bodies structured, counts around powers of two to 4100", thorough="5 bodies, 300 structured, up to 30000"),
    assumptions=["positive masses", "no overflow"])

CHECKS["C08"] = dict(level="model_checking", technique="exhaustive enumeration of body configurations, result decided by enumerating all admissible partitions",
    parts=[dict(variant="opt", harness=["c08_barnes_hut.cpp"], env=OMP1),
           dict(variant="san", harness=["c08_barnes_hut.cpp"], env=dict(OMP1, VERIF_PART="big"))],
    rule="Every placement of few bodies on a lattice with two mass patterns, and a probe moved across the opening limit of six groups, on every layout, "
         "traversal and several ratios; for each body all partitions of the others into groups allowed by the ratio are enumerated and one of them has to "
         "give the computed acceleration. Every body count up to the bound with seven structured sets against the series bound and, for an unreachable "
         "ratio, the direct sum. states = configurations, transitions = force computations, traces = computations explained.",
    bounds=dict(quick="6 bodies on the lattice, 140 structured, counts around powers of two to 4100", thorough="7 bodies, 520 structured, up to 30000"),
    assumptions=["positive masses", "ratio above 1", "distances well above the softening length or zero"])
CHECKS["C09"] = dict(level="model_checking", technique="exhaustive enumeration of histories of moves and force requests on reused trees",
    parts=[dict(variant="opt", harness=["c09_rebuild.cpp"], env=OMP1),
           dict(variant="san", harness=["c09_rebuild.cpp"], env=dict(OMP1, VERIF_PART="big"))],
    rule="All histories of (move of all bodies out of six, step increment) up to the depth for each build rate, starting step and ratio, forces requested "
         "after each on every layout and traversal and decided by the partition oracle at the current positions; every body count with one and two moves "
         "after a build. states = history nodes, transitions = force computations, traces = histories explained.",
    bounds=dict(quick="up to 5 bodies, 3 moves (2 for more than 3 bodies), 140 structured, counts around powers of two to 4100", thorough="4 moves (3), 400 structured, up to 30000"),
    assumptions=["masses do not change during a simulation", "ratio above 1"])
CHECKS["C11"] = dict(level="model_checking", technique="exhaustive exploration of the real host code and kernels on a controlled OpenCL implementation: device sets, operation sequences and command orders with iterated deviation bound; vector clock race detection",
    parts=[dict(variant="cl", harness=["c11_opencl.cpp"], env=OMP1, shards=61)],
    rule="The OpenCL engines run unchanged on an OpenCL implementation of our own: kernels are compiled by clang's OpenCL front end, work items are fibers switched at barriers, every kernel access is checked "
         "(bounds, initialisation, conflicts between work items without a barrier, conflicts between commands which no event, wait or queue orders), and commands stay queued until somebody waits; "
         "which queue proceeds is the explorer's choice. Enumerated: all device lists over a small alphabet (accepted iff well formed; exactly the selected devices compute), every engine kind x device set "
         "(1 to 8 devices, one or several contexts, repeated devices) x block size x body layout through a history of four states, against the direct sum, against all admissible Barnes-Hut groupings or the host engine; "
         "all sequences of 16 vector operations against an exact model; solver steps against the host; all command orders with up to 1 or 2 deviations. "
         "states = nodes of choice trees and configurations, transitions = engine operations, traces = runs of the implementation that agreed with the oracle.",
    bounds=dict(quick="15 device sets, blocks 1 to 64, up to 128 bodies; operation sequences of length 2 to 3; command orders with 1 deviation (2 on two devices)",
                thorough="512 bodies; operation sequences of length 3 to 4; command orders with 2 deviations (3 on two devices)"),
    assumptions=["the number of bodies is a multiple of block size x devices and the block size divides 64 (others are refused by OpenCL itself)",
                 "in-order queues, OpenCL C 1.2; fast-math options are not applied", "devices are modelled, no vendor driver"])

CHECKS["C26"] = dict(level="model_checking", technique="exhaustive exploration of the real host code and kernels on a controlled CUDA runtime: device sets, operation sequences and stream orders with iterated deviation bound; vector clock race detection",
    parts=[dict(variant="cuda", harness=["c26_cuda.cpp"], env=OMP1, shards=61)],
    rule="The CUDA engines run unchanged on a CUDA runtime of our own (legacy default streams, pageable host memory, one memory per device, thrust and NCCL calls in use): kernels are compiled as C++ with the launch syntax "
         "rewritten, threads are fibers switched at __syncthreads, every kernel access is checked (device, bounds, initialisation, conflicts between threads without a barrier, conflicts between commands which no stream, "
         "wait or default stream rule orders), commands stay in their streams until somebody waits; which stream proceeds is the explorer's choice. Enumerated: all device lists over a small alphabet (accepted iff well "
         "formed and a power of two of devices; exactly the selected devices compute), failure of every allocation, every engine kind x device set (1 to 8 devices, repeated devices, with and without NCCL) x block size x "
         "body layout through a history of four states against the direct sum or the host Barnes-Hut engine; all sequences of 16 vector operations against an exact model; solver steps against the host; all stream orders "
         "with up to 1 or 2 deviations. states = nodes of choice trees and configurations, transitions = engine operations, traces = runs of the implementation that agreed with the oracle.",
    bounds=dict(quick="11 device sets, blocks 1 to 128, 64 to 256 bodies; operation sequences of length 2; stream orders with 1 deviation (2 on two devices)",
                thorough="up to 512 bodies; length 3; one deviation more"),
    assumptions=["the CUDA runtime behaves as documented for pageable host memory and the legacy default stream; device arithmetic rounds like the host",
                 "body counts are whole blocks on every device", "host threads of a parallel region are run in ascending and descending order, not interleaved"])
CHECKS["C12"] = dict(level="model_checking", technique="exhaustive enumeration of operation sequences on engine buffers against plain vectors",
    parts=[dict(variant="san", harness=["c12_vector.cpp"], env=OMP1)],
    rule="All sequences of 30 buffer and vector operations (with aliased operands, zero, missing and surplus coefficients, compensated sums) on three "
         "buffers of every host engine, all buffers compared with plain vectors after every operation (integer valued data: exact in any order); every body count and "
         "thread count; every linear combination of up to three terms (target, start, operands, coefficients, number used); the maximum at every position; foreign and mismatching operands; rounding bounds of plain and compensated sums; loading and reading "
         "back special values. states = nodes of the sequence tree and configurations, transitions = operations, traces = sequences that agreed.",
    bounds=dict(quick="sequences of 3 operations on 3 engines, 2 on all; 70 bodies", thorough="sequences of 4 (single thread) or 3 operations, 200 bodies"),
    assumptions=["OpenCL engines are covered by C11"])
CHECKS["C14"] = dict(level="model_checking", technique="exhaustive enumeration of the order conditions of all rooted trees on the executed tableau",
    parts=[dict(variant="opt", harness=["c14_order.cpp"], env=OMP1)],
    rule="Each solver is driven by a mock engine whose j-th derivative is the j-th unit vector, which gives the exact tableau the solver executes; the order "
         "condition of every rooted tree up to the documented order is evaluated on it (Runge-Kutta methods, trapeze, midpoint methods over several steps, "
         "Bulirsch-Stoer at full depth, implicit methods with enough refinement), Adams steps integrate every power below the rank exactly. "
         "states = conditions, transitions = conditions evaluated, traces = solver configurations whose conditions all hold.",
    bounds=dict(quick="all trees up to the documented order (14 at most); Bulirsch-Stoer up to order 12", thorough="Bulirsch-Stoer up to order 14"),
    assumptions=["steps that are not subdivided", "implicit methods: refinement steps at least order minus 2"])
CHECKS["C13"] = dict(level="model_checking", technique="exhaustive enumeration of step sequences on a mock engine against reference formulas in extended precision",
    parts=[dict(variant="san", harness=["c13_step.cpp"], env=OMP1)],
    rule="Every solver with every relevant option on a mock engine (tracked buffers, recorded time and step) for eight right hand sides, three states, three "
         "start times and all sequences of steps of four lengths with outside state changes between them (one step methods), all lengths up to 14 equal steps "
         "(Adams with every rank and starter, Stetter), 300 steps of the methods with summation correction on large states; state, time and step counter compared after every step, buffers after release. "
         "states = nodes of the sequence tree and configurations, transitions = steps, traces = sequences that agreed.",
    bounds=dict(quick="sequences of 2 steps; 12 or 14 steps of multi-step methods", thorough="sequences of 4 steps"),
    assumptions=["tables of coefficients are those of the pinned commit, whose order C14 verifies", "multi-step methods: equal steps"])
CHECKS["C15"] = dict(level="model_checking", technique="exhaustive enumeration of all accept/reject patterns of the step control on the real solvers",
    parts=[dict(variant="opt", harness=["c15_adaptive.cpp"], env=OMP1)],
    rule="Every embedded method on a mock engine that answers the error estimate: all patterns of accepted and rejected attempts (decided by a reference "
         "integrator in extended precision) for several subdivision counts, recursion limits and minimum steps right at the border, with and without "
         "compensated sums; the default depth with attempts rejected around a point; true estimates against thresholds over 14 decades. The estimate has to be "
         "the embedded difference, state, time and step counter those of the reference. "
         "states = nodes of the decision tree and configurations, transitions = steps, traces = patterns that agreed.",
    bounds=dict(quick="recursion 2 with 2 or 3 substeps, recursion 1 with up to 5; point patterns to recursion 8", thorough="recursion 3 with 2, recursion 2 with 3 over two steps"),
    assumptions=["tables of coefficients are those of the pinned commit (C14)", "at least one substep"])
CHECKS["C16"] = dict(level="model_checking", technique="exhaustive enumeration of histories before a reset, differential against a new solver, bit by bit",
    parts=[dict(variant="opt", harness=["c16_reset.cpp"], env=OMP1)],
    rule="For every solver and option set, all histories of {step, other step, state changed from outside, reset, time changed} up to the depth and long "
         "repetitions, followed by a reset and nine steps; the same steps by a new solver on a copy of the engine state have to give bit-identical states, times "
         "and step counters (mock engine with tracked, poisoned buffers). states = nodes of the history tree, transitions = operations, traces = histories that agreed.",
    bounds=dict(quick="histories of 3 operations from 5, up to 16 steps repeated", thorough="histories of 5 operations"),
    assumptions=["the engine itself keeps no history (engines that do are the subject of C09 and C21)"])
CHECKS["C19"] = dict(level="model_checking", technique="exhaustive enumeration of stopping levels, substep sequences and table fillings against interpolation in extended precision",
    parts=[dict(variant="san", harness=["c19_bs.cpp"], env=OMP1)],
    rule="Both extrapolators on unit vectors (which shows all their weights) for every set of substep counts, exponent and lengths of three successive table "
         "fillings, value and error estimate against interpolation at zero; Bulirsch-Stoer steps for every maximum level, right hand side, step and every sequence of "
         "stopping levels of three steps (error estimates answered by the mock engine, which have to be the difference of the last two extrapolations) and true "
         "estimates against thresholds over 14 decades. states = configurations, transitions = table updates and steps, traces = configurations that agreed.",
    bounds=dict(quick="sets out of 8 counts; levels up to 8", thorough="sets out of 10 counts"),
    assumptions=["substep counts differ; increasing for the Berrut scheme", "the first two levels are always computed"])
CHECKS["C17"] = dict(level="model_checking", technique="exhaustive enumeration of files over a line alphabet, of single defects, truncations and failing system calls, against a separate parser",
    parts=[dict(variant="san", harness=["c17_load.cpp"], env=OMP1)],
    rule="All text tables of up to the given number of lines from 22 kinds (well formed, comments, blanks, every malformed column) in every unit and line end style, "
         "single lines of every number of columns with any one or two malformed, all box size combinations, every truncation, deleted, doubled or replaced line of Zeno files, into new and used objects, through every entry point; saving and loading all pairs of special values; "
         "every system call of save and load failing. A separate parser decides acceptance and the exact values. "
         "states = nodes of the file tree, transitions = loads, traces = files that agreed.",
    bounds=dict(quick="3 lines (2 for the other units and styles), Zeno files of up to 3 bodies", thorough="4 lines, two defects per Zeno file"),
    assumptions=["decimal finite numbers, blanks as separators"])
CHECKS["C22"] = dict(level="model_checking", technique="exhaustive enumeration of coordinates around the box on every host engine and of runs by every solver against reference steps",
    parts=[dict(variant="san", harness=["c22_clamp.cpp"], env=OMP1)],
    rule="Every combination of three coordinates out of twenty around and outside the box for one body, each single coordinate outside and mixed states for every body "
         "and thread count, on every host engine; runs of every solver with and without clamping, several boxes, steps and right hand sides, the state compared after every "
         "step with a reference step from the clamped (or unclamped) state. states = configurations, transitions = clamp calls and steps, traces = groups that agreed.",
    bounds=dict(quick="33 bodies, runs of 12 steps", thorough="70 bodies, runs of 24 steps"),
    assumptions=["OpenCL engines are covered by C11", "steps that are not subdivided"])
CHECKS["C21"] = dict(level="model_checking", technique="exhaustive enumeration of histories of moves and force requests against a model of the refresh rule",
    parts=[dict(variant="san", harness=["c21_ahmad_cohen.cpp"], env=OMP1)],
    rule="All histories of (move of all bodies out of six, step increment) up to the depth for each body count, recompute rate, starting step and pair of limits, forces "
         "requested after each and compared with the sum of current near and remembered far forces in extended precision; every body count with the request pattern of a solver. "
         "states = nodes of the history tree, transitions = force computations, traces = histories that agreed.",
    bounds=dict(quick="4 bodies, 3 moves; 60 bodies structured", thorough="4 bodies, 4 moves (3 bodies: 5); 150 structured"),
    assumptions=["positive masses", "no pair right at a limit (rounding decides there)"])
CHECKS["C18"] = dict(level="model_checking", technique="exhaustive enumeration of histories of state changes, check lists and requests against sums in extended precision",
    parts=[dict(variant="san", harness=["c18_statistics.cpp"], env=OMP1)],
    rule="All sequences over {three changes of the engine state, change of the data object, request with and without engine, five check lists, time step} up to the depth, all "
         "reported values, initial values and percentages compared after every operation; all pairs of subsets of the check list; every body count with seven structured sets. "
         "states = nodes of the sequence tree and configurations, transitions = requests, traces = sequences that agreed.",
    bounds=dict(quick="sequences of 5 operations (simple engine), 4 (others); 140 bodies", thorough="6 and 5 operations; 400 bodies"),
    assumptions=["positive masses", "pairs closer than the softening distance count zero potential energy", "sums have the accuracy of compensated summation"])
CHECKS["C23"] = dict(level="model_checking", technique="exhaustive enumeration of star counts, sizes and earlier contents, structure of the result checked body by body",
    parts=[dict(variant="opt", harness=["c23_universe.cpp"], env=OMP1)],
    rule="Every star count up to the bound (and four large ones) with nine box shapes: number of bodies, box, centres, masses, colours, place and speed of every star; the same "
         "call in two used objects has to give the same universe bit by bit. states = configurations, transitions = generated universes, traces = configurations that agreed.",
    bounds=dict(quick="300 stars", thorough="2000 stars"),
    assumptions=["positive star count and sizes"])
CHECKS["C20"] = dict(level="model_checking", technique="exhaustive enumeration of argument lists and option combinations, differential against directly configured objects",
    parts=[dict(variant="opt", harness=["c20_options.cpp"], env=OMP1), dict(variant="opt", harness=["c20_program.cpp"], env=OMP1), dict(variant="cl", harness=["c20_opencl.cpp"], env=OMP1)],
    rule="All argument lists up to the given length over 19 arguments against a model of the parser; for every solver and engine all combinations of values (or absence) of its "
         "options, forwards and backwards: the object made from the argument list has to behave bit for bit like one configured directly, on a mock engine that answers error "
         "estimates over all decades (solvers) or over a history of forces (engines, those for OpenCL on a controlled implementation), and to describe itself alike; wrong names and values have to be refused; the simulation program with all combinations of its "
         "options has to write byte for byte the files of the same simulation put together by hand. states = nodes of the option tree, transitions = parsed lists and program runs, traces = combinations that agreed.",
    bounds=dict(quick="4 arguments; reduced value sets for 7 of 9 Runge-Kutta methods and for OpenCL", thorough="5 arguments, all value sets"),
    assumptions=["option values are well formed numbers", "the setters of the objects do what C13 to C16, C08, C09, C19, C21 and C22 establish"])
CHECKS["C10"] = dict(level="model_checking", technique="stateless exploration of the real code under a controlled OpenMP runtime, all schedules with iterated deviation bound, vector clock race detection",
    parts=[dict(variant="omp", harness=["c10_schedules.cpp"])],
    rule="The engines run on an OpenMP runtime of our own (fibers): who continues, who gets which chunk, who executes which task and when is decided by the explorer at every runtime call. "
         "For every parallel region of force computations (trees built and rebuilt) and vector operations all schedules with 0, 1, 2.. deviations from the default one are run until "
         "none are left or the effort limit is reached; each must be free of data races (every access checked with vector clocks, so orders between runtime calls need not be tried) and "
         "give results bit-identical to the sequential ones. states = nodes of the schedule tree, transitions = scheduling points, traces = schedules of the implementation that agreed.",
    bounds=dict(quick="teams of 2 to 8, up to 12 bodies (65 to 259 for tasks); n_regions_all_schedules regions completely, the others up to n_bound_* deviations", thorough="20 bodies, 75 times the effort limit"),
    assumptions=["sequentially consistent memory: justified by the absence of data races", "std::thread and QThread are not used by the library"])
GUI = dict(OMP1, ASAN_OPTIONS="detect_leaks=0:exitcode=77")
CHECKS["C24"] = dict(level="model_checking", technique="exhaustive enumeration of sequences of user actions on the real player with recorded drawing, every picture compared with the recording",
    parts=[dict(variant="gui", harness=["c24_player.cpp"], env=GUI), dict(variant="gui", harness=["c24_player.cpp"], env=dict(GUI, QT_SCALE_FACTOR="2"))],
    rule="The real player widgets run with drawing calls recorded (points and lines with matrices, viewport, blending and clip planes applied) and time moved by the explorer only. All "
         "sequences of 24 actions (start, pause, stop, first, last, timeline, colours, box, stereo, intensity, size, scale, double click on each view, window size, passing time) up to the "
         "depth on eleven recordings (among them bodies at rest, all alike, tiny, huge, flat, one frame, torn and missing data files); after every action the picture, the texts, the label, the "
         "timeline and which actions are enabled are compared with what the recording and the settings say. states = sequences, transitions = actions, traces = sequences that agreed.",
    bounds=dict(quick="3 actions (4 of the first 8), 2 on other recordings", thorough="4 actions (6 of the first 8), 3 on other recordings"),
    assumptions=["OpenGL draws what it is told: its calls are recorded, not rasterised", "Qt delivers events as its offscreen platform does"])
CHECKS["C25"] = dict(level="model_checking", technique="exhaustive enumeration of completion orders of the writers, user events at every frame and rendering faults on the real recorder",
    parts=[dict(variant="gui", harness=["c25_record.cpp"], env=GUI)],
    rule="All orders in which the picture writers can finish (and moments when none has) for every number of frames and threads up to the bound; every video size up to 9 pixels pixel by "
         "pixel; recordings by the whole player, as pictures and as video, with up to two (three) of nine events (cancel, close the progress window, animation time, timeline, scale, double click, "
         "colours, a second recording, closing the window) after any frames, every rendering operation failing at every frame, unreadable frames, first and last finished first, "
         "different names, check lists and lengths: every exported picture is compared with its frame, and the display afterwards with the selected one; memory errors are reported by the address sanitizer. "
         "states = recordings and schedule nodes, transitions = frames pushed and recordings, traces = schedules and recordings that agreed.",
    bounds=dict(quick="3 threads, 5 frames; 4 frames with 2 events (1 for video or while playing)", thorough="4 threads, 6 frames; 3 events"),
    assumptions=["QtConcurrent, QImage::save, the file dialog and the video writer are stand-ins that record and finish when the explorer says; one case writes real files",
                 "OpenGL draws what it is told: its calls are recorded, not rasterised"])
