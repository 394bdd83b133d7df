#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the lines stay in one consistent shape)."""
import json,sys,os
P=[]
def p(id,title,statement,over,qt,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe:a["observe_at"]=observe
    if state:a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=hook
    assert len(title)<=80,(id,title)
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qt),why_tests_cant=why,anchors=a))

p("C01","Each spec attempt runs exactly its hierarchy's nodes in the documented order",
"For every spec tree, an attempt of a spec runs exactly the setup, subject and teardown nodes declared in that spec's own chain of containers: BeforeEach outer to inner, then every JustBeforeEach outer to inner, then the subject, then every JustAfterEach inner to outer, then AfterEach inner to outer, nodes of the same kind and level in declaration order. No node of a sibling container ever runs, no node runs twice in one attempt, and only one node runs at a time.",
["programs","inputs"],"all finite spec trees (any nesting, any mix of setup/teardown nodes per container, any declaration order) and all specs in them",
"The suite samples a few hand-written trees; ordering is a statement about every shape of tree, including mixed levels and empty containers.",
["internal/group.go","internal/suite.go","internal/tree.go","internal/node.go"],
[("attemptSpec builds and sorts the node list","internal/group.go"),("tree walking that assembles each spec's nodes","internal/tree.go"),("level-stable sorting","internal/node.go")],
["execution log of node bodies in the running suite"])
p("C02","Teardown is guaranteed: AfterEach and DeferCleanup run exactly once, LIFO",
"After a setup or subject node fails, panics, calls Skip or aborts, no later setup/subject node of that attempt runs, but every teardown node declared at the same or an outer level than the node that stopped the attempt runs exactly once, however many teardown nodes themselves fail. Every cleanup registered with DeferCleanup runs exactly once, after the teardown nodes of its scope (attempt, ordered container, or suite) and in reverse order of registration, including cleanups registered by teardown nodes.",
["programs","fault_sequences"],"all spec trees and all assignments of fail/panic/goexit/skip/abort to any subset of nodes and cleanups",
"Failure placement is combinatorial (every node can fail, at every level, and cleanups can be registered anywhere); the tests fix a handful of placements.",
["internal/group.go","internal/suite.go","internal/node.go","core_dsl.go"],
[("teardown loop and run-once filter","internal/group.go attemptSpec"),("cleanup scope assignment","internal/suite.go pushCleanupNode"),("DeferCleanup argument handling","internal/node.go NewCleanupNode")],
["execution log"])
p("C03","Every spec is reported exactly once, with the state its execution produced",
"Every spec in the tree appears exactly once in the suite's report with exactly one final state, and that state matches what its bodies did (passed, failed, panicked, skipped, pending, aborted, timed out, interrupted); specs that are pending or filtered out never execute a body. The suite's success flag, the totals shown to the user and the process exit status are all consistent with those states: the run succeeds if and only if no spec or suite-level node failed and no special suite failure was recorded.",
["programs","configurations","fault_sequences"],"all suites, filters, failure placements, and suite options (fail-on-pending, fail-on-empty, fail-fast, dry-run, randomization)",
"Exactly-once reporting is a conservation law over all suites; tests check specific reports.",
["internal/suite.go","internal/group.go","core_dsl.go","types/types.go"],
[("processCurrentSpecReport","internal/suite.go"),("success bookkeeping in runSpecs","internal/suite.go"),("exit status via testing.T and special reasons","core_dsl.go RunSpecs")],
["JSON report, exit status, summary line"])
p("C04","No failure is lost or misattributed",
"Whatever a node does - call Fail, panic with any value, exit its goroutine, fail from a goroutine that recovers into the framework, or fail several times - the node ends in a failure state, the primary failure recorded is the first one raised, with the message, panic value, node kind and code location it was raised with, and failures of later teardown nodes are kept as additional failures in the order they happened. A failing body can never be reported as passed, even if it recovers from the failure panic itself.",
["programs","fault_sequences","schedules"],"all bodies that fail in any combination of the available ways, from the node's goroutine or others",
"Tests exercise single failures; first-wins and never-lost quantify over combinations and schedules.",
["internal/failer.go","internal/suite.go","internal/group.go","core_dsl.go"],
[("first failure latch","internal/failer.go"),("draining the outcome of a node","internal/suite.go runNode"),("additional failures","internal/group.go attemptSpec")],
["JSON report failures"])
p("C05","Ordered containers: declaration order, run-once nodes, skip after failure",
"The specs of an Ordered container run in declaration order on a single process; its BeforeAll nodes run once before the first spec that runs and its AfterAll nodes (and cleanups registered by BeforeAll) once after the last one, as do OncePerOrdered setup and teardown nodes of enclosing containers, whichever specs were filtered out. After a spec in the container fails the remaining ones are skipped, unless ContinueOnFailure is set, in which case they still run unless the failure happened in a run-once setup node; the run-once teardown still happens exactly once.",
["programs","fault_sequences","configurations"],"all trees with ordered containers (nested containers, once-per-ordered nodes at any level), all failure placements and filters",
"The run-once logic depends on combinations of nesting, filters, skips, failures and retries that the tests sample sparsely.",
["internal/group.go","internal/ordering.go","internal/suite.go"],
[("run-once pairs and tracker","internal/group.go"),("grouping of ordered specs","internal/ordering.go")],
["execution log, JSON report"])
p("C06","Spec order is a pure function of tree, options and seed, and a legal permutation",
"For a given tree, options and random seed the order in which specs run is always the same and is the same on every parallel process; every spec is placed exactly once. Without randomize-all, specs of one top-level container are never interleaved with those of another and run in the order of their source positions; specs of an ordered container are always contiguous and in declaration order, also under randomize-all; different seeds reach different orders.",
["inputs","configurations","programs"],"all trees, seeds and randomization settings, any number of processes",
"Permutation and determinism properties quantify over all seeds and trees; tests use fixed seeds.",
["internal/ordering.go","internal/tree.go"],[("OrderSpecs","internal/ordering.go")],["order of specs in logs and reports"])
p("C07","Filters select exactly the specs the documented rules select",
"For every tree and every combination of focus and pending decorators, focus/skip text patterns, file and line filters and label filters, the set of specs that run is exactly the set the documentation defines: pending specs never run, focusing a nested node overrides its container's focus, all provided filters must agree, and command-line filters further restrict programmatic focus. Whether the suite is flagged as having programmatic focus is reported correctly and makes an otherwise green run exit unsuccessfully as documented.",
["programs","configurations","inputs"],"all trees with focus/pending/label decorations and all filter combinations",
"The product of tree shapes, decorations and filters is unbounded; tests check individual filters.",
["internal/focus.go","types/file_filter.go","types/label_filter.go","core_dsl.go"],
[("ApplyNestedFocusPolicyToTree / ApplyFocusToSpecs","internal/focus.go"),("file filter parsing","types/file_filter.go")],
["states in the JSON report"])
p("C08","The label filter language evaluates as boolean algebra over label sets",
"Every syntactically valid label filter evaluates, on every set of labels, to the value given by the documented semantics: case-insensitive label equality, regular expressions, negation binding tighter than and, and tighter than or (comma), parentheses, and key: set operations (isEmpty, containsAny, containsAll, consistsOf, isSubsetOf). Every invalid expression is rejected with an error and no expression or label set makes parsing or evaluation crash or hang.",
["inputs"],"all filter expressions over all label sets",
"Expressions are an infinite language; tests list examples.",
["types/label_filter.go"],[("lexer, parser and evaluator","types/label_filter.go")],["ParseLabelFilter, the command line"])
p("C09","FlakeAttempts and MustPassRepeatedly run the documented number of attempts",
"A spec with FlakeAttempts(N) is attempted until its first pass or Skip and at most N times, and passes if and only if some attempt passed; a spec with MustPassRepeatedly(N) is attempted until its first failure or Skip and at most N times, and passes only if all N attempts passed. Each attempt is a full fresh run of the per-spec setup and teardown, earlier failed attempts stay visible as additional failures, the most deeply nested value applies, a repeat setting beats a flake setting, and the reported attempt count is the number of attempts executed.",
["programs","fault_sequences","configurations"],"all failure sequences over attempts, decorator placements and global settings",
"Outcome sequences times decorator placement is a large space, with ordered containers interacting; tests fix a few.",
["internal/group.go","internal/spec.go"],[("attempt loop","internal/group.go run"),("innermost decorator lookup","internal/spec.go / node.go")],["execution log, JSON report"])
p("C10","Parallel runs execute every selected spec exactly once across processes",
"When a suite runs on N processes, every selected spec is executed on exactly one process and appears exactly once in the merged report with the state of that execution, whatever the interleaving of processes; specs marked Serial run only on process 1 and only after every other process has finished its specs. Specs, states, failures and captured output are the same as a serial run of the same deterministic suite, and the run succeeds exactly when every process succeeded.",
["schedules","programs","configurations"],"all suites, process counts, process speeds and both coordination protocols",
"Exactly-once across processes depends on races between processes; tests run a few fixtures on whatever schedule happens.",
["internal/suite.go","internal/parallel_support","internal/ordering.go","ginkgo/internal/run.go"],
[("shared counter","internal/parallel_support/server_handler.go"),("serial phase after non-primary processes finished","internal/suite.go"),("report aggregation","types/types.go Report.Add")],
["per-process execution logs, merged JSON report"])
p("C11","Synchronized suite setup: first process first, identical data, failure fan-out",
"In a parallel run the first body of SynchronizedBeforeSuite runs only on process 1 and exactly once, its second body runs once on every process strictly after the first body succeeded and receives exactly the bytes it returned; if the first body fails, is skipped or its process dies, no process runs the second body or any spec and no process hangs, and unless it was a skip the run fails. The all-process body of SynchronizedAfterSuite runs once per process and its final body runs once, on process 1, strictly after all other processes have finished.",
["schedules","inputs","fault_sequences","crash_points"],"all payloads (empty, binary, large), process counts, speeds, and failures of the first body",
"Cross-process happens-before needs many schedules and faults; tests use one happy path and a few failures.",
["internal/suite.go","internal/parallel_support"],[("suite node running","internal/suite.go runSuiteNode"),("before-suite state exchange","internal/parallel_support/server_handler.go")],["timestamps and payloads recorded by each process"])
p("C12","The coordination server hands out each index once and forwards each report once",
"Under any concurrent requests by any number of processes, over either protocol, the counter returns every integer from zero upward exactly once and never decreases between non-overlapping calls; each process's spec reports reach every reporter exactly once, unmodified in what the reporters use, in that process's order, and only between a single suite-begin (after all processes began, merged) and a single suite-end (after all ended, merged, successful only if all were). Blocked calls are released exactly when their condition holds or the awaited process is gone. (Over HTTP reports travel as JSON: text is valid UTF-8 and entry values are their JSON form.)",
["schedules","histories","crash_points"],"all interleavings of client calls from N processes over both protocols, including processes disappearing",
"Linearizability and no-loss are statements over all interleavings; tests issue calls sequentially.",
["internal/parallel_support/server_handler.go","internal/parallel_support/http_server.go","internal/parallel_support/rpc_server.go","internal/parallel_support/http_client.go","internal/parallel_support/rpc_client.go"],
[("lock and counter","internal/parallel_support/server_handler.go"),("holding area until all processes began","internal/parallel_support/server_handler.go")],["client-side call/return history, reporter event log"])
p("C13","A dying parallel process fails the run and never hangs it",
"If a parallel test process disappears at any point (exit, kill, crash, during suite setup, a spec, cleanup or reporting), the command finishes with a failing exit status and tells the user that a process failed to report, every other process terminates, and no report claims success. Once all processes have begun, results delivered before the death are shown to the user exactly once.",
["crash_points","schedules"],"all crash points in suite lifecycle, all processes, process counts",
"Crash points times schedules; the tests kill one process at one point.",
["ginkgo/internal/run.go","internal/parallel_support/server_handler.go","internal/suite.go"],[("alive checks","internal/parallel_support/server_handler.go"),("waiting for processes and suite completion","ginkgo/internal/run.go")],["exit status, output, process table, JSON report"])
p("C14","A node or spec that exceeds its timeout is cancelled, fails and is cleaned up",
"A node that runs beyond its node, spec or suite timeout has its context cancelled, is recorded as timed out - never as passed, even if it later returns normally within the grace period - and the framework moves on no later than the grace period after cancellation; failures raised while unwinding are attached, teardown nodes still run with a live context, and the applicable timeout is the one that expires first. A context is never cancelled before its timeout, and is cancelled when its node ends.",
["schedules","programs","configurations"],"all combinations of timeout decorators, bodies that honour/ignore cancellation, and node kinds",
"The race between finishing, timing out and grace expiry has many interleavings; tests use one or two per combination.",
["internal/suite.go","internal/spec_context.go","internal/node.go"],[("deadline selection and select loop","internal/suite.go runNode")],["execution log with context state, JSON report"])
p("C15","Interrupts escalate: first keeps cleanup, second keeps reporting, third bails",
"After a first interrupt no new spec or setup/subject body starts, the running node's context is cancelled, every applicable cleanup and reporting node runs, unrun specs are reported skipped and the run fails; after a second interrupt only reporting nodes still run; after a third the process ends promptly. In no case is an interrupted run reported or exited as successful.",
["schedules","crash_points"],"all points in a suite at which 1-3 interrupts can arrive, serial and parallel",
"Signals can arrive at any point; tests pick a couple of points.",
["internal/interrupt_handler","internal/suite.go","internal/group.go","ginkgo/interrupt_handler"],[("level escalation","internal/interrupt_handler/interrupt_handler.go"),("level gating","internal/suite.go runNode")],["execution log, report, exit status"])
p("C16","Aborts and fail-fast stop the whole run, keep cleanup, and fail it",
"After AbortSuite is called anywhere, or after the first failing spec under fail-fast, no process starts a further spec body once it has learned of it; remaining specs are reported as skipped, teardown of the affected spec and suite teardown and reporting nodes still run, and the run fails. In a serial run this takes effect immediately: no spec after the aborting or failing one runs.",
["schedules","programs","fault_sequences"],"all placements of the aborting/failing call, serial and parallel",
"Placement in any node kind and cross-process propagation are combinatorial.",
["internal/suite.go","internal/failer.go","internal/interrupt_handler","internal/parallel_support"],[("skipAll and PostAbort","internal/suite.go processCurrentSpecReport"),("abort polling","internal/interrupt_handler/interrupt_handler.go")],["execution log, report"])
p("C17","GinkgoWriter keeps every byte, in order, per spec, and tees it",
"Everything written to GinkgoWriter (directly, through its print helpers, or its logr sink) during a spec appears in that spec's captured output byte for byte, in order, with writes from concurrent goroutines atomic and nothing leaking into another spec; every attached tee writer receives exactly the same bytes from the moment it is attached until cleared. In verbose mode the same content is streamed, differing only by line indentation.",
["inputs","schedules"],"all write sequences (any bytes, any chunking, any number of goroutines), in all modes",
"Byte-exactness quantifies over chunkings, newline placement and interleavings.",
["internal/writer.go","internal/suite.go","internal/group.go"],[("buffering, streaming and tee","internal/writer.go")],["captured output in report, tee writers, stdout"])
p("C18","Process output is captured completely and standard streams are restored",
"In parallel runs everything a spec writes to the standard output and error streams, including through child processes and of any volume, ends up exactly once in that spec's captured output (in order per stream writer) and never in another spec's; the original streams work again afterwards, pausing lets output through, and no descriptors, goroutines or helper processes accumulate over many specs. Setup output that is to be forwarded reaches the user.",
["inputs","histories","configurations"],"all write sequences/volumes, interception modes, and sequences of start/stop/pause/resume",
"Exactly-once byte capture around descriptor swaps depends on volume and history; tests write short strings.",
["internal/output_interceptor.go","internal/output_interceptor_unix.go","internal/suite.go"],[("dup/dup2 pipe interception","internal/output_interceptor_unix.go"),("start/stop/pause state machine","internal/output_interceptor.go")],["captured output, /proc/self/fd, original streams"])
p("C19","Machine-readable reports faithfully and losslessly represent the run",
"The JSON report decodes to exactly the specs, states, failures, outputs, entries and labels of the run; JUnit and TeamCity reports are well-formed for any text, contain one entry per reported spec with the matching outcome, and their totals add up; merging the reports of several suites neither loses, duplicates nor alters entries. Text containing control characters, quotes, markup or invalid UTF-8 never breaks well-formedness.",
["inputs","programs"],"all report contents (states, texts, outputs, labels, nested failures) and all merges",
"Reports are functions of arbitrary text and state mixes; tests compare against a few golden outputs.",
["reporters/json_report.go","reporters/junit_report.go","reporters/teamcity_report.go","types/types.go","types/report_entry.go"],[("encoders and merge","reporters/*.go"),("JSON marshalling","types/types.go")],["generated files"])
p("C20","Timelines interleave output and events in the order they happened",
"For every spec, the timeline built from captured output, failures, report entries, steps, node events and progress reports is ordered as the program emitted them, every event's position in the output is the amount of output written before it, and rendering the timeline shows every byte of captured output exactly once and every event exactly once.",
["programs","schedules","inputs"],"all sequences of writes and events in bodies across nodes, attempts and goroutines",
"Interleavings of writes and events are unbounded; tests check short sequences.",
["types/types.go","internal/suite.go","reporters/default_reporter.go"],[("timeline location generation","internal/suite.go"),("timeline sort","types/types.go"),("timeline rendering","reporters/default_reporter.go")],["JSON report, verbose console output, JUnit"])
p("C21","The console reporter shows every outcome and never breaks on content",
"For every report content (any text, look-alikes of terminal markup, unicode, empty or long strings) and every verbosity and colour option, the console reporter terminates without panicking, shows spec texts, failure messages, panic values and captured output verbatim (up to indentation) with the spec they belong to and in order, shows one completion indicator matching the outcome for every spec, lists every failed spec and suite node with its location in the final summary, and prints counts that equal the report's. With colour off no escape sequences are added, and with colour on the text is otherwise the same. (Names and values of report entries and attached progress reports may contain formatter markup.)",
["inputs","configurations"],"all reports and reporter configurations",
"Text formatting code is input-dependent (indexing, format verbs, wrapping); tests use sane text.",
["reporters/default_reporter.go","formatter/formatter.go"],[("emit functions","reporters/default_reporter.go"),("formatting","formatter/formatter.go")],["console output"])
p("C22","Every command line option reaches the test process unchanged",
"For every valid setting of suite, reporter and go-test options on the command line, the test process behaves with exactly those values - including values with spaces, commas, quotes, equals signs, repeated options and negations - on every parallel process; every invalid or contradictory option makes the command fail with a message before any spec, setup or teardown of a suite runs (what the command itself can tell - unknown options, malformed values, contradictory command options - before anything is built); build options reach the go tool with relative paths adjusted; arguments after the separator are passed to the suite untouched.",
["configurations","inputs"],"all flag assignments",
"Round-tripping quantifies over all values and option combinations; tests check specific flags.",
["types/config.go","types/flags.go","ginkgo/internal/run.go","ginkgo/run"],[("flag set generation and parsing","types/flags.go, types/config.go"),("argument generation","types/config.go GenerateGinkgoTestRunArgs")],["SuiteConfig in reports, GinkgoConfiguration() in suite"])
p("C23","Merged coverage profiles equal the statement-wise sum of their inputs",
"Merging coverage profiles of several processes or suites yields a valid profile in which every code block of every input occurs exactly once with the combined count (sum for count/atomic, or for set) regardless of the order of inputs, block order, or files and blocks that occur in only some of them. Nothing is dropped and valid inputs never make the merge fail or crash.",
["inputs"],"all families of valid profiles",
"Block alignment bugs depend on particular overlaps; tests merge one or two real profiles.",
["ginkgo/internal/gocovmerge.go","ginkgo/internal/profiles_and_reports.go"],[("profile merge","ginkgo/internal/gocovmerge.go")],["merged profile text"])
p("C24","Tables expand to one spec per entry with exactly that entry's parameters",
"Each Entry of a table yields exactly one spec (or one subtree of specs) whose body receives exactly the entry's parameters in order, including nil and variadic parameters; its description is the one given, produced by the entry's or table's description function or format string, or derived from the parameters, and its decorators and label apply to it. Wrong parameter counts or types, for the body or for a description function, make the entry's spec fail with a message that names the mismatch and the entry's line, without affecting other entries; an entry of a subtree table, whose specs could not be made, makes the suite reject its tree before anything runs, as does a table whose arguments are wrong (no or several bodies, a stray value). Bodies see no parameter of another entry.",
["inputs","programs"],"all signatures, parameter lists, description forms and decorators",
"Reflection-based argument passing varies with signature and values; tests sample signatures.",
["table_dsl.go"],[("table generation and parameter validation","table_dsl.go")],["parameters observed by bodies, report texts"])
p("C25","Unfocus and outline agree with the real meaning of the source",
"Unfocusing a source tree removes exactly the programmatic focus (prefixes and decorators), leaves every other byte-level meaning of the program unchanged, is idempotent and leaves source that parses; vendored and unparseable files are left alone. The outline of a test file lists exactly the containers and specs the file declares with the right nesting, text, focus/pending flags, labels and byte ranges, in every output format, for any way of importing the package.",
["inputs","programs"],"all parseable Go test files using the DSL",
"Source transformations quantify over all programs; tests use fixture files.",
["ginkgo/unfocus/unfocus_command.go","ginkgo/outline"],[("AST rewrite","ginkgo/unfocus/unfocus_command.go"),("AST to outline","ginkgo/outline/*.go")],["rewritten files, outline output"])
p("C26","Dry runs and previews run no user code and list the same specs as a real run",
"With dry-run no setup, subject, teardown or suite node body runs, and the reported specs, their order and which ones would run are the same as in the real run with the same options, all in one process. Previewing specs inside a suite yields the same list without running anything, and does not change the run that follows.",
["programs","configurations"],"all trees, filters and seeds",
"Agreement between two runs over all trees; tests check a few.",
["internal/suite.go","internal/group.go","core_dsl.go"],[("dry run short cuts","internal/suite.go"),("PreviewSpecs clone","core_dsl.go")],["execution log, reports"])
p("C27","Progress reports describe the running node and never disturb the run",
"A progress report requested by signal, poll or timeout at any moment names the spec, node and step that are actually running (or says nothing is running), includes the output written so far and any attached progress reporter's text, and has no effect on which bodies run or on the outcome; a panicking or slow attached reporter does not stop or fail the suite silently. Polled reports start only after the configured delay and only for nodes still running.",
["schedules"],"all instants during a run, all attached reporters",
"Requests race with node transitions; tests request while a node is parked.",
["internal/progress_report.go","internal/suite.go","internal/progress_reporter_manager.go","internal/progress_report_unix.go"],[("generateProgressReport","internal/suite.go"),("reporter manager","internal/progress_reporter_manager.go")],["reports, execution log, race detector"])
p("C28","GinkgoT and its helpers restore everything they change when the spec ends",
"Environment variables set, directories changed and temporary directories created through the framework's testing object during a spec are restored or removed by the end of that spec, in reverse order, also when the spec fails, panics, skips or is retried; helper calls map to the framework's failure, skip and log semantics and cleanups registered through it follow the DeferCleanup guarantees. Nothing leaks into the next spec.",
["programs","fault_sequences"],"all sequences of helper calls in all node kinds with all outcomes",
"Restoration over histories with failures; tests check single calls.",
["ginkgo_t_dsl.go","internal/testingtproxy/testing_t_proxy.go"],[("proxy helpers","internal/testingtproxy/testing_t_proxy.go")],["environment, working directory and temp dirs seen by later specs"])
p("C29","Watch reruns exactly the suites affected by a change",
"Given any dependency graph of packages and any sequence of file creations, edits and deletions, a watch pass reports as changed exactly those packages whose own watched files changed, and reruns exactly the suites that are changed or depend (to the configured depth) on a changed package, new suites and removed suites included; without changes nothing reruns.",
["inputs","histories"],"all package graphs, depths and change histories",
"Change histories on graphs are unbounded; tests use three packages.",
["ginkgo/watch"],[("delta tracker, dependency and package hashes","ginkgo/watch/*.go")],["delta tracker output"])
p("C30","The command's exit status and suite selection reflect every suite it ran",
"Running several suites, the command exits successfully if and only if every selected suite compiled and passed, runs each selected suite exactly once per iteration, keeps going or stops after the first failing suite as configured and says which were skipped, repeats or loops the requested number of times stopping at the first failure, and never reports a suite it did not run as passed. Programmatic focus yields the dedicated non-zero status.",
["configurations","fault_sequences"],"all sets of suites with all outcomes (pass, fail, focus, compile error, empty, filtered) and run options",
"Outcome combinations across suites and options; tests use a few pairs.",
["ginkgo/run/run_command.go","ginkgo/internal/test_suite.go","ginkgo/internal/run.go","ginkgo/internal/compile.go"],[("suite running and state","ginkgo/run/run_command.go")],["exit status, output, execution logs"])
p("C31","The concurrently usable API is free of data races and loses nothing",
"Goroutines started by specs may concurrently write to GinkgoWriter, add report entries, announce steps, read the current spec report, attach and detach progress reporters, register cleanups and fail, while progress reports are being generated, without data races, deadlocks or lost entries: every entry, step and byte added by a goroutine before its node ended appears exactly once in that spec's report.",
["schedules"],"all interleavings of the concurrently usable API with the runner",
"Races depend on schedule; the test suite is not normally run with concurrent use and the race detector together.",
["internal/suite.go","internal/writer.go","internal/failer.go","internal/progress_reporter_manager.go","internal/spec_context.go"],[("selective lock","internal/suite.go"),("writer, failer and manager locks","internal/writer.go")],["race detector, report conservation"])
p("C32","Illegal tree constructs are always rejected before anything runs",
"Every construct the documentation forbids - nodes declared in the wrong place or phase, decorators on node kinds that do not accept them, contradictory decorators, wrong or missing bodies, duplicate suite nodes, ordered-only nodes outside ordered containers, serial specs inside non-serial ordered containers, timeouts on nodes that cannot be interrupted - makes the run fail with a message pointing at the offending line and before any user body runs, wherever it appears in the tree. What is forbidden to the bodies of leaf nodes (declaring nodes, DeferCleanup in reporting and cleanup nodes, DeferCleanup without a function) makes the run fail with such a message when it is reached. Constructs that are allowed are never rejected.",
["programs"],"all (node kind, decorator set, position, body shape) combinations",
"The legality matrix is a large product; tests cover cells individually.",
["internal/node.go","internal/suite.go","types/errors.go","core_dsl.go"],[("node validation","internal/node.go NewNode"),("push-time validation","internal/suite.go PushNode")],["exit status, message, execution log"])
p("C33","Reporting nodes see every spec and the whole suite exactly once",
"For every spec, including pending, skipped and filtered ones, each applicable ReportBeforeEach runs once before it and each ReportAfterEach once after it (after all its teardown), outer to inner and inner to outer respectively, receiving the report that holds at that moment; a failing reporting node fails the spec or run. ReportBeforeSuite runs once before everything on process 1 and its failure prevents all specs; ReportAfterSuite runs once at the end on process 1 with the complete report, including all processes in a parallel run and including failures of suite teardown.",
["programs","fault_sequences","schedules"],"all trees, states, and process counts",
"Exactly-once over all spec states and process interleavings.",
["internal/suite.go","internal/group.go","reporting_dsl.go"],[("reportEach and runReportSuiteNodesIfNeedBe","internal/suite.go")],["execution log with received reports"])
p("C34","Suite setup gates the specs and suite teardown always follows",
"BeforeSuite runs once per process before any spec and only if at least one spec will run; if it fails, panics, aborts or skips, no spec body runs anywhere on that process, and AfterSuite and every cleanup registered at suite level still run exactly once after everything else, in LIFO order, and the outcome reflects any failure among them.",
["programs","fault_sequences","configurations"],"all outcomes of suite nodes and cleanups with all filters",
"Outcome combinations of suite-level nodes with filters and failures.",
["internal/suite.go"],[("runBeforeSuite / runAfterSuiteCleanup","internal/suite.go")],["execution log, report"])
p("C35","Every reported location is the line of the user's own call",
"However a call into Ginkgo is reached - through any chain of functions, methods, closures, generics, deferred calls, library callbacks or goroutines, at any depth - the location reported for it (of containers, subjects, tables, entries, setup, suite and reporting nodes, steps, report entries, cleanups including those of GinkgoT, skips and failures, and of the node a failure happened in) is the line of the call itself, or the frame its Offset argument counts up to, moved up past functions marked as helpers (by GinkgoHelper, GinkgoT().Helper or MarkAsHelper) and no further. The stack trace of a failure or panic lists the user's frames from there on completely, in order, each function with its own position, even if the runtime leaves frames out of deep traces, and frames below a ginkgo directory are removed whole.",
["programs","inputs"],"all call chains, helper marks and offsets at every call of the DSL",
"Locations depend on counting stack frames across inlining, wrappers and helpers; tests check direct calls and a few offsets.",
["types/code_location.go","core_dsl.go","table_dsl.go","ginkgo_t_dsl.go","internal/node.go","internal/report_entry.go","internal/suite.go","internal/testingtproxy/testing_t_proxy.go"],[("frame counting and helper skipping","types/code_location.go"),("offset decorators","internal/node.go NewNode, NewCleanupNode"),("stack pruning","types/code_location.go PruneStack")],["locations and stack traces in the report"])
p("C36","Reported times and durations match what happened",
"In every run, serial or parallel, with repeated and failing specs: each node's start lies between what its process did before and the body's first action, its end between the body's last action and what its process does next, and its duration spans the body and no more. A spec's start follows its ReportBeforeEach nodes and precedes its first own body, its end and run time cover all its attempts, setup, teardown and cleanups and nothing after (in particular no ReportAfterEach); a spec that does not run has a start but neither end nor run time. Steps, report entries and failures carry the time at which they were made, steps with a callback its duration; timeline events are ordered by time. What a running body sees in CurrentSpecReport (start, run time so far) and what progress reports say (spec, node and step start) agrees with the final report. The suite's start, end and run time span everything but the ReportAfterSuite nodes, over all processes.",
["programs","schedules"],"all trees, bodies, retries and process counts",
"Times are never the same twice, so tests check at most that a duration is roughly right.",
["internal/suite.go","internal/group.go","internal/progress_report.go","internal/report_entry.go","types/types.go"],[("spec times","internal/suite.go endCurrentSpec, internal/group.go run"),("event durations","internal/suite.go handleSpecEventEnd"),("merging of reports","types/types.go Report.Add")],["times in the machine-readable report against the program's own clock readings"])
if __name__=="__main__":
    out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
    with open(out,"w") as f:
        for x in P:f.write(json.dumps(x)+"\n")
    print(len(P))
