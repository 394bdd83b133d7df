CH+=[
("C10","parallel runs on 2-5 real processes over both protocols with injected delays; merged event logs and reports compared with the serial reference model","exploration","schedules are sampled by delays and GOMAXPROCS, not enumerated; no aborts or interrupts in these suites"),
("C11","parallel runs with every outcome of the first SynchronizedBeforeSuite body incl. process death; happens-before judged on a common monotonic clock, payloads by hash","fault_enumeration","outcome x process count x payload size sampled; schedules by injected delays"),
("C13","parallel runs in which one process exits, is killed or crashes at each of 16 lifecycle points; exit status, output, process table and delivered results observed","fault_enumeration","crash points are node bodies, not arbitrary instructions inside the framework"),
("C06","execution orders of generated suites observed over seeds, repeated runs, permuted construction order and parallel processes, judged by a legality oracle","exploration","determinism by repetition; legality of every observed order; reachability of all positions over 400 seeds"),
("C08","label filters evaluated in-process against a reference evaluator and a reference recogniser; crashes and hangs of the process are violations","exploration","about 400k filter texts per run; spelling of literals containing ': ' is outside the generator"),
("C26","triples of runs (dry, preview+run, real) of generated suites compared with each other","exploration","reporting nodes do run in dry runs, as documented behaviour of the code"),
("C12","the real server and clients of both protocols under concurrent random and storm workloads in a race-detector build: call/return histories of the counter and lock checked, reporter event log checked for exactly-once, order and gating, blocked calls checked against process death","exploration","interleavings sampled by storms and random delays; processes are simulated by liveness callbacks"),
("C23","random families of coverage profiles merged by the real code and compared block by block with the statement-wise sum; real coverage runs with known call counts","exploration","valid profiles only; blocks of one file do not overlap partially"),
("C25","generated Go test sources with their expected outline and their unfocused twin: token streams of the rewritten files, idempotence, untouched files, and outlines in every format compared","exploration","identifiers resolved within one file, as the tools do; extraneous whitespace and trailing commas after removal are allowed"),
("C19","random reports with hostile text written and merged by the real reporters, decoded with independent parsers and compared entry by entry; multi-suite runs of the real command compared with what the suites describe","exploration","report shapes and texts are sampled; merges include missing and truncated sources"),
("C20","random reports rendered and real suites whose bodies log each write and event they make: order, offsets, captured bytes and rendering judged against that log while progress signals, progress polling and background goroutines interfere","exploration","background goroutines' own writes are not judged, only their effect on the spec's timeline"),
("C21","the real reporter driven call by call with random reports under all verbosity and format options, its output parsed and compared with the report; consoles of real runs compared with their machine-readable report","exploration","serial runs are compared at the non-streaming verbosities; streaming is judged in-process"),
("C14","suites whose bodies honour, outlast or ignore their deadlines: event log (body, context state, cause, leak) and report compared with a reference model that carries intervals of time taken from the log itself","fault_enumeration","time is never compared with a wall-clock bound: cases whose outcome depends on timing the log cannot decide are counted as not compared"),
("C15","suites that interrupt their own process group one to three times from any kind of node, serial, through the command line and on several processes: event log, report and exit status compared with a reference model of the levels","fault_enumeration","signals are sent at points in user bodies, each after the effect of the previous one; parallel runs are judged by invariants instead of the full model"),
("C22","the real command run with random assignments of its options in every spelling; each test process reports the configuration, flags and arguments it received, and a recorder in place of the go tool reports what it was given; invalid command lines are mixed in","exploration","option values are sampled, including hostile text; the go tool is replaced by a recorder where build options are judged"),
("C30","the real command run on generated trees of suites (passing, failing in every way, dying, focused, not compiling, empty, plain go tests, precompiled) with every combination of selection, keep-going, repeat, until-it-fails, randomisation, procs, timeout and hooks: what was built and started is recorded from inside and compared with a reference model, as are exit status, summary and reports","exploration","the go tool and the compiled suites are stand-ins that record and then exec the real test binary; interrupts are sent between suites (within suites: C15)"),
("C17","the real writer driven in a race-detector build by sequential histories (exact model after every call) and by concurrent storms (atomicity, order, tees and captures against call stamps); suites whose bodies log every byte they write compared with report, tees and console","exploration","interleavings sampled by storms; in reports, bytes that are not UTF-8 are compared after the replacement JSON makes"),
("C18","both interceptor implementations driven by random histories in child processes (returned text, forwarded copy, original streams, descriptors, goroutines); parallel runs that log every byte they write, with the processes' original streams pointed at files","exploration","captures given up because a process outlives its spec are only checked for their message; volumes up to about a megabyte per write"),
("C31","suites built with the race detector use the whole concurrently usable API from many goroutines while progress reports are requested by signal and poll; the detector must stay silent and every logged entry, step, byte and cleanup must be in the report exactly once","exploration","races are only seen when both accesses happen; goroutines end before their suite does"),
("C27","bodies that know what a progress report has to say at that point ask for one and log both; polled reports judged against the configured delays and the timeline; runs disturbed by requests at arbitrary moments compared with undisturbed runs and with the spans of the nodes","exploration","times are only compared as lower bounds of delays; source previews judged below --source-root"),
("C28","bodies change environment, directory, temporary directories and contexts through the testing object while snapshots of all of it, taken on entering every node, are compared with a replay in which each scope is undone in reverse order; every failing, skipping, printing and asking call is compared with what the report then holds","exploration","a variable is not changed in overlapping scopes that end in another order than they began; interrupts that leave nodes behind are not generated"),
("C29","random histories of creations, edits, breakages, renames, removals and restorations of files and packages drive the real delta tracker, also while suites run; each pass is compared with what an independent record of the files before and after demands; plus the real watch command on scratch modules with logging suites and a sentinel suite","exploration","a change made and undone between two passes is not seen; imports of packages that do not parse count as unknown"),
("C32","trees whose nodes are given arbitrary argument lists (every node kind with every decorator, non-decorator and body shape, at random positions, wrapped in slices), misplaced and duplicate nodes and calls, and forbidden calls from running bodies; the outcome, the bodies that ran and the line the message points at are compared with legality rules written from the documentation","exploration","nil function values are not passed; constructs the documentation does not mention may be accepted or rejected"),
("C24","tables whose bodies have random signatures (made by reflection), with random values, every form of description, decorators anywhere in the arguments, shared and later overwritten slices, and entries that do not fit: every call with its arguments, every text, label, location, state and message is compared with what the entries say","exploration","nil for a parameter whose type has no nil is not judged; functions, channels and contexts are not compared inside derived descriptions"),
("C35","suites all of whose calls into Ginkgo go through random chains of functions of twenty shapes, some marked as helpers, with random offsets and depths; the program records its own stack on the line of each call, and every location and stack trace of the report is compared with what stack, marks and offset say","exploration","offsets reach at most a few frames up; the position of a panic is the runtime's own, only its trace is compared"),
("C36","bodies log the monotonic clock around everything they do and the wall clock once each, which ties the two together; every time and duration of the report is compared with the interval the log leaves for it","exploration","bounds are the log's neighbouring events, never a wall-clock limit; suites with timeouts are left to C14"),
]
