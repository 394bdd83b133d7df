From 3fba03915d6645d5e81e3938e1fd433e62c0631b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:03 +0000
Subject: [PATCH 01/51] fix: MustPassRepeatedly is not cut short by a
 FlakeAttempts elsewhere in the hierarchy

A spec that has both MustPassRepeatedly and FlakeAttempts in its hierarchy
stopped after its first passing attempt, as the flake-attempt rule ended the
repetition.
---
 internal/group.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/group.go b/internal/group.go
index 02c9fe4..1f1dfb2 100644
--- a/internal/group.go
+++ b/internal/group.go
@@ -341,7 +341,7 @@ func (g *group) run(specs Specs) {
 					if g.suite.currentSpecReport.MaxMustPassRepeatedly > 0 {
 						g.suite.handleSpecEvent(types.SpecEvent{SpecEventType: types.SpecEventSpecRepeat, Attempt: attempt})
 					}
-					if g.suite.currentSpecReport.MaxFlakeAttempts > 0 {
+					if g.suite.currentSpecReport.MaxMustPassRepeatedly == 0 && g.suite.currentSpecReport.MaxFlakeAttempts > 0 {
 						g.suite.handleSpecEvent(types.SpecEvent{SpecEventType: types.SpecEventSpecRetry, Attempt: attempt})
 					}
 				}
@@ -357,8 +357,7 @@ func (g *group) run(specs Specs) {
 					if g.suite.currentSpecReport.State.Is(types.SpecStateFailureStates | types.SpecStateSkipped) {
 						break
 					}
-				}
-				if g.suite.currentSpecReport.MaxFlakeAttempts > 0 {
+				} else if g.suite.currentSpecReport.MaxFlakeAttempts > 0 {
 					if g.suite.currentSpecReport.State.Is(types.SpecStatePassed | types.SpecStateSkipped | types.SpecStateAborted | types.SpecStateInterrupted) {
 						break
 					} else if attempt < maxAttempts-1 {
-- 
2.43.0


From 63f3dc31f7d37478682460866909117b6b6a0459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:17 +0000
Subject: [PATCH 02/51] fix: run once-per-container teardown once when specs
 repeat with MustPassRepeatedly

In an Ordered container AfterAll, OncePerOrdered teardown and BeforeAll's
cleanups ran after every passing attempt of the last spec, and never ran when
a spec failed before its last allowed attempt.
---
 internal/group.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/group.go b/internal/group.go
index 1f1dfb2..9a599c9 100644
--- a/internal/group.go
+++ b/internal/group.go
@@ -178,6 +178,10 @@ func (g *group) isLastSpecWithPair(specID uint, pair runOncePair) bool {
 
 func (g *group) attemptSpec(isFinalAttempt bool, spec Spec) bool {
 	failedInARunOnceBefore := false
+	// when repeating with MustPassRepeatedly a failing attempt is always the final one, a passing attempt only when no attempts remain
+	// otherwise (including FlakeAttempts) it's the other way around: any passing attempt is final
+	isRepeating := g.suite.currentSpecReport.MaxMustPassRepeatedly > 0
+	isFinalIfPassing, isFinalIfFailing := isFinalAttempt || !isRepeating, isFinalAttempt || isRepeating
 	pairs := g.runOncePairs[spec.SubjectID()]
 
 	nodes := spec.Nodes.WithType(types.NodeTypeBeforeAll)
@@ -248,7 +252,7 @@ func (g *group) attemptSpec(isFinalAttempt bool, spec Spec) bool {
 
 			switch g.suite.currentSpecReport.State {
 			case types.SpecStatePassed: //this attempt is passing...
-				return isLastSpecWithPair //...we should run-once if we'this is our last chance
+				return isLastSpecWithPair && isFinalIfPassing //...we should run-once if this is our last chance
 			case types.SpecStateSkipped: //the spec was skipped by the user...
 				if isLastSpecWithPair {
 					return true //...we're the last spec, so we should run the AfterNode
@@ -257,7 +261,7 @@ func (g *group) attemptSpec(isFinalAttempt bool, spec Spec) bool {
 					return true //...or, a run-once node at our nesting level was skipped which means this is our last chance to run
 				}
 			case types.SpecStateFailed, types.SpecStatePanicked, types.SpecStateTimedout: // the spec has failed...
-				if isFinalAttempt {
+				if isFinalIfFailing {
 					if g.continueOnFailure {
 						return isLastSpecWithPair || failedInARunOnceBefore //...we're configured to continue on failures - so we should only run if we're the last spec for this pair or if we failed in a runOnceBefore (which means we _are_ the last spec to run)
 					} else {
-- 
2.43.0


From 403aa15da9551eb4385038dc7531dd704553838f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:03 +0000
Subject: [PATCH 03/51] fix: run outstanding once-per-container teardown when
 the remaining specs are not attempted

---
 internal/group.go | 71 +++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 68 insertions(+), 3 deletions(-)

diff --git a/internal/group.go b/internal/group.go
index 9a599c9..e2c7c9b 100644
--- a/internal/group.go
+++ b/internal/group.go
@@ -93,6 +93,8 @@ type group struct {
 	specs          Specs
 	runOncePairs   map[uint]runOncePairs
 	runOnceTracker map[runOncePair]types.SpecState
+	// run-once teardown nodes that are in play but have been left for a later spec in the group to run
+	outstandingRunOnceTeardown map[runOncePair]bool
 
 	succeeded              bool
 	failedInARunOnceBefore bool
@@ -101,9 +103,12 @@ type group struct {
 
 func newGroup(suite *Suite) *group {
 	return &group{
-		suite:                  suite,
-		runOncePairs:           map[uint]runOncePairs{},
-		runOnceTracker:         map[runOncePair]types.SpecState{},
+		suite:          suite,
+		runOncePairs:   map[uint]runOncePairs{},
+		runOnceTracker: map[runOncePair]types.SpecState{},
+
+		outstandingRunOnceTeardown: map[runOncePair]bool{},
+
 		succeeded:              true,
 		failedInARunOnceBefore: false,
 		continueOnFailure:      false,
@@ -299,9 +304,67 @@ func (g *group) attemptSpec(isFinalAttempt bool, spec Spec) bool {
 		includeDeferCleanups = true
 	}
 
+	teardownNodes := spec.Nodes.WithType(types.NodeTypeJustAfterEach | types.NodeTypeAfterEach | types.NodeTypeAfterAll)
+	if !terminatingNode.IsZero() {
+		teardownNodes = teardownNodes.WithinNestingLevel(terminatingNode.NestingLevel)
+	}
+	for _, node := range teardownNodes {
+		if pair := pairs.runOncePairFor(node.ID); !pair.isZero() {
+			g.outstandingRunOnceTeardown[pair] = !afterNodeWasRun[node.ID]
+		}
+	}
+
 	return failedInARunOnceBefore
 }
 
+// runOutstandingRunOnceTeardown is called when a spec in the group will not be attempted.
+// Earlier specs may have left run-once teardown for this spec to run, this is the last chance to do so.
+func (g *group) runOutstandingRunOnceTeardown(spec Spec) {
+	pairs := g.runOncePairs[spec.SubjectID()]
+	isLastChance := func(pair runOncePair) bool {
+		return !pair.isZero() && g.isLastSpecWithPair(spec.SubjectID(), pair)
+	}
+	didRun := false
+	for {
+		nodes := spec.Nodes.WithType(types.NodeTypeAfterEach)
+		nodes = append(nodes, spec.Nodes.WithType(types.NodeTypeAfterAll)...).SortedByDescendingNestingLevel()
+		nodes = append(spec.Nodes.WithType(types.NodeTypeJustAfterEach).SortedByDescendingNestingLevel(), nodes...)
+		nodes = nodes.Filter(func(node Node) bool {
+			pair := pairs.runOncePairFor(node.ID)
+			return g.outstandingRunOnceTeardown[pair] && isLastChance(pair)
+		})
+		if len(nodes) == 0 {
+			nodes = append(g.suite.cleanupNodes.WithType(types.NodeTypeCleanupAfterEach).Reverse(), g.suite.cleanupNodes.WithType(types.NodeTypeCleanupAfterAll).Reverse()...)
+			nodes = nodes.Filter(func(node Node) bool {
+				return isLastChance(pairs.runOncePairFor(node.NodeIDWhereCleanupWasGenerated))
+			})
+		}
+		if len(nodes) == 0 {
+			break
+		}
+		if !didRun {
+			didRun = true
+			g.suite.writer.Truncate()
+			g.suite.outputInterceptor.StartInterceptingOutput()
+		}
+		g.outstandingRunOnceTeardown[pairs.runOncePairFor(nodes[0].ID)] = false
+		state, failure := g.suite.runNode(nodes[0], time.Time{}, spec.Nodes.BestTextFor(nodes[0]))
+		if state.Is(types.SpecStateFailureStates) {
+			if state == types.SpecStateAborted || !g.suite.currentSpecReport.State.Is(types.SpecStateFailureStates) {
+				g.suite.currentSpecReport.State, g.suite.currentSpecReport.Failure = state, failure
+			} else {
+				g.suite.currentSpecReport.AdditionalFailures = append(g.suite.currentSpecReport.AdditionalFailures, types.AdditionalFailure{State: state, Failure: failure})
+			}
+		}
+	}
+	if didRun {
+		g.suite.currentSpecReport.EndTime = time.Now()
+		g.suite.currentSpecReport.RunTime = g.suite.currentSpecReport.EndTime.Sub(g.suite.currentSpecReport.StartTime)
+		g.suite.currentSpecReport.CapturedGinkgoWriterOutput += string(g.suite.writer.Bytes())
+		g.suite.currentSpecReport.CapturedStdOutErr += g.suite.outputInterceptor.StopInterceptingAndReturnOutput()
+	}
+}
+
 func (g *group) run(specs Specs) {
 	g.specs = specs
 	g.continueOnFailure = specs[0].Nodes.FirstNodeMarkedOrdered().MarkedContinueOnFailure
@@ -371,6 +434,8 @@ func (g *group) run(specs Specs) {
 					}
 				}
 			}
+		} else if !g.suite.config.DryRun && !spec.Skip {
+			g.runOutstandingRunOnceTeardown(spec)
 		}
 
 		g.suite.reportEach(spec, types.NodeTypeReportAfterEach)
-- 
2.43.0


From c0791e0935bf88c050a509834d41fb49a381f23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:15 +0000
Subject: [PATCH 04/51] fix: consistsOf in label filters ignores repeated
 values in its argument

---
 types/label_filter.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/types/label_filter.go b/types/label_filter.go
index 40a909b..6a99544 100644
--- a/types/label_filter.go
+++ b/types/label_filter.go
@@ -92,12 +92,16 @@ func containsAllLabelSetAction(key string, expectedValues []string) LabelFilter
 }
 
 func consistsOfLabelSetAction(key string, expectedValues []string) LabelFilter {
+	expectedSet := map[string]bool{}
+	for _, value := range expectedValues {
+		expectedSet[value] = true
+	}
 	return func(labels []string) bool {
 		set := labelSetFor(key, labels)
-		if len(set) != len(expectedValues) {
+		if len(set) != len(expectedSet) {
 			return false
 		}
-		for _, value := range expectedValues {
+		for value := range expectedSet {
 			if !set[value] {
 				return false
 			}
-- 
2.43.0


From d1aae34d026d3162b85531431b87f03c8df2747e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:15 +0000
Subject: [PATCH 05/51] fix: label filters with an unterminated regular
 expression are rejected

---
 types/label_filter.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/types/label_filter.go b/types/label_filter.go
index 6a99544..9b75d58 100644
--- a/types/label_filter.go
+++ b/types/label_filter.go
@@ -439,6 +439,9 @@ func tokenize(input string) func() (*treeNode, error) {
 		case '/':
 			i += 1
 			value, n := consumeUntil("/")
+			if i+n >= len(runes) {
+				return &treeNode{}, GinkgoErrors.SyntaxErrorParsingLabelFilter(input, i-1, "Missing closing '/' in regular expression?")
+			}
 			i += n + 1
 			node.token, node.value = lfTokenRegexp, value
 		default:
-- 
2.43.0


From 632fa51a842f981b7e7be009284b907a9bbff56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:39 +0000
Subject: [PATCH 06/51] fix: previewing specs keeps top-level nodes outside
 containers for the run that follows

---
 internal/suite.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/suite.go b/internal/suite.go
index 3edf507..7b86690 100644
--- a/internal/suite.go
+++ b/internal/suite.go
@@ -81,8 +81,13 @@ func (suite *Suite) Clone() (*Suite, error) {
 	if suite.phase != PhaseBuildTopLevel {
 		return nil, fmt.Errorf("cannot clone suite after tree has been built")
 	}
+	// top-level nodes that aren't containers are already in the tree
+	tree := &TreeNode{}
+	for _, child := range suite.tree.Children {
+		tree.AppendChild(&TreeNode{Node: child.Node})
+	}
 	return &Suite{
-		tree:                    &TreeNode{},
+		tree:                    tree,
 		phase:                   PhaseBuildTopLevel,
 		ProgressReporterManager: NewProgressReporterManager(),
 		topLevelContainers:      suite.topLevelContainers.Clone(),
-- 
2.43.0


From 03b671c8c9c515de398feb271493dfe68985669a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:14 +0000
Subject: [PATCH 07/51] fix: a parallel process terminated by a signal is
 recognized as gone

---
 ginkgo/internal/run.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginkgo/internal/run.go b/ginkgo/internal/run.go
index 41052ea..07bc295 100644
--- a/ginkgo/internal/run.go
+++ b/ginkgo/internal/run.go
@@ -219,7 +219,7 @@ func runParallel(suite TestSuite, ginkgoConfig types.SuiteConfig, reporterConfig
 
 		cmd, buf := buildAndStartCommand(suite, args, false)
 		procOutput[proc-1] = buf
-		server.RegisterAlive(proc, func() bool { return cmd.ProcessState == nil || !cmd.ProcessState.Exited() })
+		server.RegisterAlive(proc, func() bool { return cmd.ProcessState == nil })
 
 		go func() {
 			cmd.Wait()
-- 
2.43.0


From e6c5eae2ef1dcdbdfc86150d8a7f72263dd4ee9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:56 +0000
Subject: [PATCH 08/51] fix: a parallel run in which a process exits with
 status 0 before reporting fails

---
 ginkgo/internal/run.go                      | 4 ++++
 internal/parallel_support/client_server.go  | 1 +
 internal/parallel_support/http_server.go    | 5 +++++
 internal/parallel_support/rpc_server.go     | 5 +++++
 internal/parallel_support/server_handler.go | 6 ++++++
 5 files changed, 21 insertions(+)

diff --git a/ginkgo/internal/run.go b/ginkgo/internal/run.go
index 07bc295..dc5a404 100644
--- a/ginkgo/internal/run.go
+++ b/ginkgo/internal/run.go
@@ -248,6 +248,10 @@ func runParallel(suite TestSuite, ginkgoConfig types.SuiteConfig, reporterConfig
 		fmt.Println("")
 	case <-time.After(time.Second):
 		//one of the nodes never finished reporting to the server.  Something must have gone wrong.
+		if server.SuiteDidBegin() {
+			// even if every process exited with status 0 (e.g. a call to os.Exit(0)) there are specs we have no results for
+			suite.State = TestSuiteStateFailed
+		}
 		fmt.Fprint(formatter.ColorableStdErr, formatter.F("\n{{bold}}{{red}}Ginkgo timed out waiting for all parallel procs to report back{{/}}\n"))
 		fmt.Fprint(formatter.ColorableStdErr, formatter.F("{{gray}}Test suite:{{/}} %s (%s)\n\n", suite.PackageName, suite.Path))
 		fmt.Fprint(formatter.ColorableStdErr, formatter.Fiw(0, formatter.COLS, "This occurs if a parallel process exits before it reports its results to the Ginkgo CLI.  The CLI will now print out all the stdout/stderr output it's collected from the running processes.  However you may not see anything useful in these logs because the individual test processes usually intercept output to stdout/stderr in order to capture it in the spec reports.\n\nYou may want to try rerunning your test suite with {{light-gray}}--output-interceptor-mode=none{{/}} to see additional output here and debug your suite.\n"))
diff --git a/internal/parallel_support/client_server.go b/internal/parallel_support/client_server.go
index 4234d80..fe98d0f 100644
--- a/internal/parallel_support/client_server.go
+++ b/internal/parallel_support/client_server.go
@@ -31,6 +31,7 @@ type Server interface {
 	Address() string
 	RegisterAlive(node int, alive func() bool)
 	GetSuiteDone() chan any
+	SuiteDidBegin() bool
 	GetOutputDestination() io.Writer
 	SetOutputDestination(io.Writer)
 }
diff --git a/internal/parallel_support/http_server.go b/internal/parallel_support/http_server.go
index 8a1b7a5..b591038 100644
--- a/internal/parallel_support/http_server.go
+++ b/internal/parallel_support/http_server.go
@@ -79,6 +79,11 @@ func (server *httpServer) GetSuiteDone() chan any {
 	return server.handler.done
 }
 
+// SuiteDidBegin is true once any process has begun running the suite
+func (server *httpServer) SuiteDidBegin() bool {
+	return server.handler.suiteDidBegin()
+}
+
 func (server *httpServer) GetOutputDestination() io.Writer {
 	return server.handler.outputDestination
 }
diff --git a/internal/parallel_support/rpc_server.go b/internal/parallel_support/rpc_server.go
index 1574f99..6ec7ba4 100644
--- a/internal/parallel_support/rpc_server.go
+++ b/internal/parallel_support/rpc_server.go
@@ -62,6 +62,11 @@ func (server *RPCServer) GetSuiteDone() chan any {
 	return server.handler.done
 }
 
+// SuiteDidBegin is true once any process has begun running the suite
+func (server *RPCServer) SuiteDidBegin() bool {
+	return server.handler.suiteDidBegin()
+}
+
 func (server *RPCServer) GetOutputDestination() io.Writer {
 	return server.handler.outputDestination
 }
diff --git a/internal/parallel_support/server_handler.go b/internal/parallel_support/server_handler.go
index ab9e113..860be41 100644
--- a/internal/parallel_support/server_handler.go
+++ b/internal/parallel_support/server_handler.go
@@ -71,6 +71,12 @@ func (handler *ServerHandler) SpecSuiteWillBegin(report types.Report, _ *Void) e
 	return nil
 }
 
+func (handler *ServerHandler) suiteDidBegin() bool {
+	handler.lock.Lock()
+	defer handler.lock.Unlock()
+	return handler.numSuiteDidBegins > 0
+}
+
 func (handler *ServerHandler) DidRun(report types.SpecReport, _ *Void) error {
 	handler.lock.Lock()
 	defer handler.lock.Unlock()
-- 
2.43.0


From c2ce8df0d30f82cd2c02222d467bfb9792a4f494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:32 +0000
Subject: [PATCH 09/51] fix: a report entry whose value has no JSON encoding no
 longer breaks reports or hangs parallel runs

---
 types/report_entry.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/types/report_entry.go b/types/report_entry.go
index 63f7a9f..62c3f01 100644
--- a/types/report_entry.go
+++ b/types/report_entry.go
@@ -52,7 +52,11 @@ func (rev ReportEntryValue) MarshalJSON() ([]byte, error) {
 	}
 	asJSON, err := json.Marshal(rev.raw)
 	if err != nil {
-		return nil, err
+		//not every value has a JSON encoding (e.g. NaN, a channel, a cyclic structure): such an entry is carried by its representation instead of taking the whole report down
+		asJSON, err = json.Marshal(out.Representation)
+		if err != nil {
+			return nil, err
+		}
 	}
 	out.AsJSON = string(asJSON)
 
-- 
2.43.0


From 5e90a19fcdd0cd54cb705f2afb2204b79edd102c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:47 +0000
Subject: [PATCH 10/51] fix: report entries decoded from a report keep their
 original JSON encoding

---
 types/report_entry.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/types/report_entry.go b/types/report_entry.go
index 62c3f01..c145c1b 100644
--- a/types/report_entry.go
+++ b/types/report_entry.go
@@ -50,6 +50,11 @@ func (rev ReportEntryValue) MarshalJSON() ([]byte, error) {
 	}{
 		Representation: rev.String(),
 	}
+	if rev.AsJSON != "" {
+		//this value was decoded from a report: pass the original encoding on unchanged (decoding it into an interface may have lost precision)
+		out.AsJSON = rev.AsJSON
+		return json.Marshal(out)
+	}
 	asJSON, err := json.Marshal(rev.raw)
 	if err != nil {
 		//not every value has a JSON encoding (e.g. NaN, a channel, a cyclic structure): such an entry is carried by its representation instead of taking the whole report down
-- 
2.43.0


From d34532bb8e38cddd7252af5aeea8d1abdb8c22b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:52 +0000
Subject: [PATCH 11/51] fix: spec reports keep IsSerial, IsInOrderedContainer
 and RunningInParallel in their JSON form

---
 types/types.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/types/types.go b/types/types.go
index ddcbec1..c67c16d 100644
--- a/types/types.go
+++ b/types/types.go
@@ -206,10 +206,13 @@ func (report SpecReport) MarshalJSON() ([]byte, error) {
 		LeafNodeLabels              []string
 		LeafNodeText                string
 		State                       SpecState
+		IsSerial                    bool
+		IsInOrderedContainer        bool
 		StartTime                   time.Time
 		EndTime                     time.Time
 		RunTime                     time.Duration
 		ParallelProcess             int
+		RunningInParallel           bool
 		Failure                     *Failure `json:",omitempty"`
 		NumAttempts                 int
 		MaxFlakeAttempts            int
@@ -229,10 +232,13 @@ func (report SpecReport) MarshalJSON() ([]byte, error) {
 		LeafNodeLabels:              report.LeafNodeLabels,
 		LeafNodeText:                report.LeafNodeText,
 		State:                       report.State,
+		IsSerial:                    report.IsSerial,
+		IsInOrderedContainer:        report.IsInOrderedContainer,
 		StartTime:                   report.StartTime,
 		EndTime:                     report.EndTime,
 		RunTime:                     report.RunTime,
 		ParallelProcess:             report.ParallelProcess,
+		RunningInParallel:           report.RunningInParallel,
 		Failure:                     nil,
 		ReportEntries:               nil,
 		NumAttempts:                 report.NumAttempts,
-- 
2.43.0


From 1e19c3ae01b0912d7239b9c033c5507f0e3e7cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:51 +0000
Subject: [PATCH 12/51] fix: merging cover profiles no longer panics when one
 input has blocks beyond the end of another

---
 ginkgo/internal/gocovmerge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginkgo/internal/gocovmerge.go b/ginkgo/internal/gocovmerge.go
index 87cfa11..d8c10c5 100644
--- a/ginkgo/internal/gocovmerge.go
+++ b/ginkgo/internal/gocovmerge.go
@@ -89,7 +89,7 @@ func mergeProfileBlock(p *cover.Profile, pb cover.ProfileBlock, startIndex int)
 	}
 
 	i := 0
-	if !sortFunc(i) {
+	if startIndex < len(p.Blocks) && !sortFunc(i) {
 		i = sort.Search(len(p.Blocks)-startIndex, sortFunc)
 	}
 
-- 
2.43.0


From 063e2635f3b7fa1d3520149a7e729d4af796b255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:52 +0000
Subject: [PATCH 13/51] fix: unfocus removes only Ginkgo focus, and handles
 qualified calls, DescribeTableSubtree and a trailing Focus decorator

---
 ginkgo/unfocus/unfocus_command.go | 88 +++++++++++++++++++++++++++----
 1 file changed, 77 insertions(+), 11 deletions(-)

diff --git a/ginkgo/unfocus/unfocus_command.go b/ginkgo/unfocus/unfocus_command.go
index 7dd2943..4a4929f 100644
--- a/ginkgo/unfocus/unfocus_command.go
+++ b/ginkgo/unfocus/unfocus_command.go
@@ -5,16 +5,22 @@ import (
 	"fmt"
 	"go/ast"
 	"go/parser"
+	"go/scanner"
 	"go/token"
 	"io"
 	"os"
+	"path"
 	"path/filepath"
+	"sort"
+	"strconv"
 	"strings"
 	"sync"
 
 	"github.com/onsi/ginkgo/v2/ginkgo/command"
 )
 
+const ginkgoImportPath = "github.com/onsi/ginkgo/v2"
+
 func BuildUnfocusCommand() command.Command {
 	return command.Command{
 		Name:     "unfocus",
@@ -90,7 +96,7 @@ func unfocusFile(path string) {
 		return
 	}
 
-	eliminations := scanForFocus(ast)
+	eliminations := scanForFocus(ast, data)
 	if len(eliminations) == 0 {
 		return
 	}
@@ -154,31 +160,91 @@ func updateFile(path string, data []byte, eliminations [][]int64) error {
 	return nil
 }
 
-func scanForFocus(file *ast.File) (eliminations [][]int64) {
-	ast.Inspect(file, func(n ast.Node) bool {
-		if c, ok := n.(*ast.CallExpr); ok {
-			if i, ok := c.Fun.(*ast.Ident); ok {
-				if isFocus(i.Name) {
-					eliminations = append(eliminations, []int64{int64(i.Pos()), 1})
+func scanForFocus(file *ast.File, data []byte) (eliminations [][]int64) {
+	packageNames := ginkgoPackageNames(file)
+
+	// ginkgoIdent returns the identifier an expression refers to, provided it can come from a Ginkgo package:
+	// either unqualified (and not declared in this file), or qualified with the name of an imported Ginkgo package
+	ginkgoIdent := func(expr ast.Expr) *ast.Ident {
+		switch e := expr.(type) {
+		case *ast.Ident:
+			if e.Obj == nil {
+				return e
+			}
+		case *ast.SelectorExpr:
+			if x, ok := e.X.(*ast.Ident); ok && x.Obj == nil && packageNames[x.Name] {
+				return e.Sel
+			}
+		}
+		return nil
+	}
+
+	removeFocusDecorators := func(exprs []ast.Expr) {
+		for _, expr := range exprs {
+			if i := ginkgoIdent(expr); i != nil && i.Name == "Focus" {
+				eliminations = append(eliminations, []int64{int64(expr.Pos()), int64(expr.End() - expr.Pos())})
+				if comma := followingComma(data, int(expr.End())-1); comma >= 0 {
+					eliminations = append(eliminations, []int64{int64(comma) + 1, 1})
 				}
 			}
 		}
+	}
 
-		if i, ok := n.(*ast.Ident); ok {
-			if i.Name == "Focus" {
-				eliminations = append(eliminations, []int64{int64(i.Pos()), 6})
+	ast.Inspect(file, func(n ast.Node) bool {
+		switch n := n.(type) {
+		case *ast.CallExpr:
+			if i := ginkgoIdent(n.Fun); i != nil && isFocus(i.Name) {
+				eliminations = append(eliminations, []int64{int64(i.Pos()), 1})
 			}
+			removeFocusDecorators(n.Args)
+		case *ast.CompositeLit:
+			removeFocusDecorators(n.Elts)
 		}
 
 		return true
 	})
 
+	sort.Slice(eliminations, func(i, j int) bool { return eliminations[i][0] < eliminations[j][0] })
+
 	return eliminations
 }
 
+// ginkgoPackageNames returns the names by which the file refers to the Ginkgo packages it imports
+func ginkgoPackageNames(file *ast.File) map[string]bool {
+	names := map[string]bool{}
+	for _, spec := range file.Imports {
+		importPath, err := strconv.Unquote(spec.Path.Value)
+		if err != nil || !(importPath == ginkgoImportPath || strings.HasPrefix(importPath, ginkgoImportPath+"/")) {
+			continue
+		}
+		switch {
+		case spec.Name != nil:
+			names[spec.Name.Name] = true
+		case importPath == ginkgoImportPath:
+			names["ginkgo"] = true
+		default:
+			names[path.Base(importPath)] = true
+		}
+	}
+	return names
+}
+
+// followingComma returns the offset of the comma that follows the expression ending at offset, or -1 if there is none
+func followingComma(data []byte, offset int) int {
+	src := data[offset:]
+	file := token.NewFileSet().AddFile("", -1, len(src))
+	var s scanner.Scanner
+	s.Init(file, src, func(token.Position, string) {}, 0)
+	pos, tok, _ := s.Scan()
+	if tok != token.COMMA {
+		return -1
+	}
+	return offset + file.Offset(pos)
+}
+
 func isFocus(name string) bool {
 	switch name {
-	case "FDescribe", "FContext", "FIt", "FDescribeTable", "FEntry", "FSpecify", "FWhen":
+	case "FDescribe", "FContext", "FIt", "FDescribeTable", "FDescribeTableSubtree", "FEntry", "FSpecify", "FWhen":
 		return true
 	default:
 		return false
-- 
2.43.0


From e021d6c917ee933ca79060ef68da35ce636c0d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:52 +0000
Subject: [PATCH 14/51] fix: outline finds the Ginkgo import when another
 Ginkgo package is imported first

---
 ginkgo/outline/import.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/ginkgo/outline/import.go b/ginkgo/outline/import.go
index f0a6b5d..c6c63dd 100644
--- a/ginkgo/outline/import.go
+++ b/ginkgo/outline/import.go
@@ -29,6 +29,9 @@ func packageNameForImport(f *ast.File, path string) *string {
 	name := spec.Name.String()
 	if name == "<nil>" {
 		name = "ginkgo"
+		if importPath(spec) != path {
+			name = importPath(spec)[strings.LastIndex(importPath(spec), "/")+1:]
+		}
 	}
 	if name == "." {
 		name = ""
@@ -36,14 +39,22 @@ func packageNameForImport(f *ast.File, path string) *string {
 	return &name
 }
 
-// importSpec returns the import spec if f imports path,
-// or nil otherwise.
+// importSpec returns the import spec if f imports path, or one of the dsl
+// packages below it, or any other package below it (in that order of
+// preference), or nil otherwise.
 func importSpec(f *ast.File, path string) *ast.ImportSpec {
 	for _, s := range f.Imports {
-		if strings.HasPrefix(importPath(s), path) {
+		if importPath(s) == path {
 			return s
 		}
 	}
+	for _, prefix := range []string{path + "/dsl/core", path + "/dsl/", path} {
+		for _, s := range f.Imports {
+			if strings.HasPrefix(importPath(s), prefix) {
+				return s
+			}
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From 1b9858496c1687df240750139b2116be17576953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:52 +0000
Subject: [PATCH 15/51] fix: outline reports focus, pending and labels the way
 Ginkgo applies them

By steps and focused containers confused the nested focus rule, pending
containers with focused specs unfocused their ancestors, Focus and qualified
decorators were ignored and DescribeTableSubtree was missing.
---
 ginkgo/outline/ginkgo.go | 110 ++++++++++++++++++++-------------------
 1 file changed, 57 insertions(+), 53 deletions(-)

diff --git a/ginkgo/outline/ginkgo.go b/ginkgo/outline/ginkgo.go
index 5d8d00b..34f386e 100644
--- a/ginkgo/outline/ginkgo.go
+++ b/ginkgo/outline/ginkgo.go
@@ -84,24 +84,27 @@ func (n *ginkgoNode) PropagateInheritedProperties() {
 // > Nested programmatically focused specs follow a simple rule: if a
 // > leaf-node is marked focused, any of its ancestor nodes that are marked
 // > focus will be unfocused.
+// As in Ginkgo, a focused container also unfocuses the containers around it.
 func (n *ginkgoNode) BackpropagateUnfocus() {
-	focusedSpecInSubtreeStack := []bool{}
-	n.PostOrder(func(thisNode *ginkgoNode) {
-		if thisNode.Spec {
-			focusedSpecInSubtreeStack = append(focusedSpecInSubtreeStack, thisNode.Focused)
-			return
-		}
-		focusedSpecInSubtree := false
-		for range thisNode.Nodes {
-			focusedSpecInSubtree = focusedSpecInSubtree || focusedSpecInSubtreeStack[len(focusedSpecInSubtreeStack)-1]
-			focusedSpecInSubtreeStack = focusedSpecInSubtreeStack[0 : len(focusedSpecInSubtreeStack)-1]
-		}
-		focusedSpecInSubtreeStack = append(focusedSpecInSubtreeStack, focusedSpecInSubtree)
-		if focusedSpecInSubtree {
-			thisNode.Focused = false
-		}
-	})
+	n.unfocusIfDescendantIsFocused()
+}
 
+// unfocusIfDescendantIsFocused unfocuses n if one of its descendants is focused. It returns true if n, or one of
+// its descendants, ends up focused. Nodes inside of a pending container do not run, so they are never focused.
+func (n *ginkgoNode) unfocusIfDescendantIsFocused() bool {
+	if n.Pending {
+		return false
+	}
+	focusedNodeInSubtree := false
+	for _, m := range n.Nodes {
+		if m.unfocusIfDescendantIsFocused() {
+			focusedNodeInSubtree = true
+		}
+	}
+	if focusedNodeInSubtree {
+		n.Focused = false
+	}
+	return n.Focused || focusedNodeInSubtree
 }
 
 func packageAndIdentNamesFromCallExpr(ce *ast.CallExpr) (string, string, bool) {
@@ -148,35 +151,37 @@ func ginkgoNodeFromCallExpr(fset *token.FileSet, ce *ast.CallExpr, ginkgoPackage
 	case "It", "Specify", "Entry":
 		n.Spec = true
 		n.Text = textOrAltFromCallExpr(ce, undefinedTextAlt)
-		n.Labels = labelFromCallExpr(ce)
-		n.Pending = pendingFromCallExpr(ce)
+		n.Labels = labelFromCallExpr(ce, *ginkgoPackageName)
+		n.Pending = hasDecorator(ce, "Pending", *ginkgoPackageName)
+		n.Focused = hasDecorator(ce, "Focus", *ginkgoPackageName)
 		return &n, ginkgoPackageName != nil && *ginkgoPackageName == packageName
 	case "FIt", "FSpecify", "FEntry":
 		n.Spec = true
 		n.Focused = true
 		n.Text = textOrAltFromCallExpr(ce, undefinedTextAlt)
-		n.Labels = labelFromCallExpr(ce)
+		n.Labels = labelFromCallExpr(ce, *ginkgoPackageName)
 		return &n, ginkgoPackageName != nil && *ginkgoPackageName == packageName
 	case "PIt", "PSpecify", "XIt", "XSpecify", "PEntry", "XEntry":
 		n.Spec = true
 		n.Pending = true
 		n.Text = textOrAltFromCallExpr(ce, undefinedTextAlt)
-		n.Labels = labelFromCallExpr(ce)
+		n.Labels = labelFromCallExpr(ce, *ginkgoPackageName)
 		return &n, ginkgoPackageName != nil && *ginkgoPackageName == packageName
-	case "Context", "Describe", "When", "DescribeTable":
+	case "Context", "Describe", "When", "DescribeTable", "DescribeTableSubtree":
 		n.Text = textOrAltFromCallExpr(ce, undefinedTextAlt)
-		n.Labels = labelFromCallExpr(ce)
-		n.Pending = pendingFromCallExpr(ce)
+		n.Labels = labelFromCallExpr(ce, *ginkgoPackageName)
+		n.Pending = hasDecorator(ce, "Pending", *ginkgoPackageName)
+		n.Focused = hasDecorator(ce, "Focus", *ginkgoPackageName)
 		return &n, ginkgoPackageName != nil && *ginkgoPackageName == packageName
-	case "FContext", "FDescribe", "FWhen", "FDescribeTable":
+	case "FContext", "FDescribe", "FWhen", "FDescribeTable", "FDescribeTableSubtree":
 		n.Focused = true
 		n.Text = textOrAltFromCallExpr(ce, undefinedTextAlt)
-		n.Labels = labelFromCallExpr(ce)
+		n.Labels = labelFromCallExpr(ce, *ginkgoPackageName)
 		return &n, ginkgoPackageName != nil && *ginkgoPackageName == packageName
-	case "PContext", "PDescribe", "PWhen", "XContext", "XDescribe", "XWhen", "PDescribeTable", "XDescribeTable":
+	case "PContext", "PDescribe", "PWhen", "XContext", "XDescribe", "XWhen", "PDescribeTable", "XDescribeTable", "PDescribeTableSubtree", "XDescribeTableSubtree":
 		n.Pending = true
 		n.Text = textOrAltFromCallExpr(ce, undefinedTextAlt)
-		n.Labels = labelFromCallExpr(ce)
+		n.Labels = labelFromCallExpr(ce, *ginkgoPackageName)
 		return &n, ginkgoPackageName != nil && *ginkgoPackageName == packageName
 	case "By":
 		n.Text = textOrAltFromCallExpr(ce, undefinedTextAlt)
@@ -228,7 +233,7 @@ func textFromCallExpr(ce *ast.CallExpr) (string, bool) {
 	}
 }
 
-func labelFromCallExpr(ce *ast.CallExpr) []string {
+func labelFromCallExpr(ce *ast.CallExpr, ginkgoPackageName string) []string {
 
 	labels := []string{}
 	if len(ce.Args) < 2 {
@@ -238,12 +243,7 @@ func labelFromCallExpr(ce *ast.CallExpr) []string {
 	for _, arg := range ce.Args[1:] {
 		switch expr := arg.(type) {
 		case *ast.CallExpr:
-			id, ok := expr.Fun.(*ast.Ident)
-			if !ok {
-				// to skip over cases where the expr.Fun. is actually *ast.SelectorExpr
-				continue
-			}
-			if id.Name == "Label" {
+			if isGinkgoIdent(expr.Fun, "Label", ginkgoPackageName) {
 				ls := extractLabels(expr)
 				labels = append(labels, ls...)
 			}
@@ -273,29 +273,33 @@ func extractLabels(expr *ast.CallExpr) []string {
 	return out
 }
 
-func pendingFromCallExpr(ce *ast.CallExpr) bool {
-
-	pending := false
+// hasDecorator returns true if the decorator with the given name is among the arguments of a Ginkgo spec or container.
+func hasDecorator(ce *ast.CallExpr, decorator string, ginkgoPackageName string) bool {
 	if len(ce.Args) < 2 {
-		return pending
+		return false
 	}
 
 	for _, arg := range ce.Args[1:] {
-		switch expr := arg.(type) {
-		case *ast.CallExpr:
-			id, ok := expr.Fun.(*ast.Ident)
-			if !ok {
-				// to skip over cases where the expr.Fun. is actually *ast.SelectorExpr
-				continue
-			}
-			if id.Name == "Pending" {
-				pending = true
-			}
-		case *ast.Ident:
-			if expr.Name == "Pending" {
-				pending = true
-			}
+		if expr, ok := arg.(*ast.CallExpr); ok {
+			arg = expr.Fun
+		}
+		if isGinkgoIdent(arg, decorator, ginkgoPackageName) {
+			return true
 		}
 	}
-	return pending
+	return false
+}
+
+// isGinkgoIdent returns true if the expression is the given Ginkgo identifier: on its own, or qualified with the
+// name of the Ginkgo package.
+func isGinkgoIdent(expr ast.Expr, name string, ginkgoPackageName string) bool {
+	switch expr := expr.(type) {
+	case *ast.Ident:
+		return expr.Name == name
+	case *ast.SelectorExpr:
+		pkgID, ok := expr.X.(*ast.Ident)
+		return ok && pkgID.Obj == nil && pkgID.Name == ginkgoPackageName && expr.Sel.Name == name
+	default:
+		return false
+	}
 }
-- 
2.43.0


From c4d8e778c504d3727dad06df895872354098d56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:19 +0000
Subject: [PATCH 16/51] fix: JUnit totals count aborted specs as the failures
 they are reported as

---
 reporters/junit_report.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reporters/junit_report.go b/reporters/junit_report.go
index 562e0f6..32b6c5e 100644
--- a/reporters/junit_report.go
+++ b/reporters/junit_report.go
@@ -274,7 +274,7 @@ func GenerateJUnitReportWithConfig(report types.Report, dst string, config Junit
 			if config.OmitFailureMessageAttr {
 				test.Failure.Message = ""
 			}
-			suite.Errors += 1
+			suite.Failures += 1
 		case types.SpecStatePanicked:
 			test.Error = &JUnitError{
 				Message:     spec.Failure.ForwardedPanic,
-- 
2.43.0


From a70a67f44ee67d9f0d19cce3787ee52863ca46d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:19 +0000
Subject: [PATCH 17/51] fix: TeamCity reports finish a labelled suite under the
 name they started it with

---
 reporters/teamcity_report.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reporters/teamcity_report.go b/reporters/teamcity_report.go
index e990ad8..35f64d6 100644
--- a/reporters/teamcity_report.go
+++ b/reporters/teamcity_report.go
@@ -84,7 +84,7 @@ func GenerateTeamcityReport(report types.Report, dst string) error {
 		fmt.Fprintf(f, "##teamcity[testStdErr name='%s' out='%s']\n", name, tcEscape(systemErrForUnstructuredReporters(spec)))
 		fmt.Fprintf(f, "##teamcity[testFinished name='%s' duration='%d']\n", name, int(spec.RunTime.Seconds()*1000.0))
 	}
-	fmt.Fprintf(f, "##teamcity[testSuiteFinished name='%s']\n", tcEscape(report.SuiteDescription))
+	fmt.Fprintf(f, "##teamcity[testSuiteFinished name='%s']\n", tcEscape(name))
 
 	return f.Close()
 }
-- 
2.43.0


From 30861934e71c546b98b3d64f5c2b8b9b34b15af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:19 +0000
Subject: [PATCH 18/51] fix: TeamCity reports escape the unicode line breaks

---
 reporters/teamcity_report.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/reporters/teamcity_report.go b/reporters/teamcity_report.go
index 35f64d6..5606a08 100644
--- a/reporters/teamcity_report.go
+++ b/reporters/teamcity_report.go
@@ -22,6 +22,9 @@ func tcEscape(s string) string {
 	s = strings.ReplaceAll(s, "'", "|'")
 	s = strings.ReplaceAll(s, "\n", "|n")
 	s = strings.ReplaceAll(s, "\r", "|r")
+	s = strings.ReplaceAll(s, "\u0085", "|x") // next line
+	s = strings.ReplaceAll(s, "\u2028", "|l") // line separator
+	s = strings.ReplaceAll(s, "\u2029", "|p") // paragraph separator
 	s = strings.ReplaceAll(s, "[", "|[")
 	s = strings.ReplaceAll(s, "]", "|]")
 	return s
-- 
2.43.0


From 81a8e818f88872fab5163f69503ccd33ef5433e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:19 +0000
Subject: [PATCH 19/51] fix: merging TeamCity reports creates the destination
 directory like the other formats do

---
 reporters/teamcity_report.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/reporters/teamcity_report.go b/reporters/teamcity_report.go
index 5606a08..d3a7049 100644
--- a/reporters/teamcity_report.go
+++ b/reporters/teamcity_report.go
@@ -104,5 +104,8 @@ func MergeAndCleanupTeamcityReports(sources []string, dst string) ([]string, err
 		os.Remove(source)
 		merged = append(merged, data...)
 	}
+	if err := os.MkdirAll(path.Dir(dst), 0770); err != nil {
+		return messages, err
+	}
 	return messages, os.WriteFile(dst, merged, 0666)
 }
-- 
2.43.0


From efe3145ad97dc14b7a6a27abfe54b9d49e0905ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:21:58 +0000
Subject: [PATCH 20/51] fix: timeline locations generated while a spec's output
 is being collected never count it twice

---
 internal/group.go             |  4 ++--
 internal/suite.go             | 15 ++++++++++++---
 reporters/default_reporter.go |  6 ++++--
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/internal/group.go b/internal/group.go
index e2c7c9b..44a0af6 100644
--- a/internal/group.go
+++ b/internal/group.go
@@ -360,7 +360,7 @@ func (g *group) runOutstandingRunOnceTeardown(spec Spec) {
 	if didRun {
 		g.suite.currentSpecReport.EndTime = time.Now()
 		g.suite.currentSpecReport.RunTime = g.suite.currentSpecReport.EndTime.Sub(g.suite.currentSpecReport.StartTime)
-		g.suite.currentSpecReport.CapturedGinkgoWriterOutput += string(g.suite.writer.Bytes())
+		g.suite.captureGinkgoWriterOutput()
 		g.suite.currentSpecReport.CapturedStdOutErr += g.suite.outputInterceptor.StopInterceptingAndReturnOutput()
 	}
 }
@@ -417,7 +417,7 @@ func (g *group) run(specs Specs) {
 
 				g.suite.currentSpecReport.EndTime = time.Now()
 				g.suite.currentSpecReport.RunTime = g.suite.currentSpecReport.EndTime.Sub(g.suite.currentSpecReport.StartTime)
-				g.suite.currentSpecReport.CapturedGinkgoWriterOutput += string(g.suite.writer.Bytes())
+				g.suite.captureGinkgoWriterOutput()
 				g.suite.currentSpecReport.CapturedStdOutErr += g.suite.outputInterceptor.StopInterceptingAndReturnOutput()
 
 				if g.suite.currentSpecReport.MaxMustPassRepeatedly > 0 {
diff --git a/internal/suite.go b/internal/suite.go
index 7b86690..74ccd02 100644
--- a/internal/suite.go
+++ b/internal/suite.go
@@ -283,6 +283,15 @@ func (suite *Suite) generateTimelineLocation() types.TimelineLocation {
 	}
 }
 
+// captureGinkgoWriterOutput moves what is in the GinkgoWriter to the current spec report.
+// Both happen under the lock so that timeline locations generated concurrently (e.g. by a progress signal, or by a goroutine that outlives its node) never count the same output twice.
+func (suite *Suite) captureGinkgoWriterOutput() {
+	suite.selectiveLock.Lock()
+	defer suite.selectiveLock.Unlock()
+	suite.currentSpecReport.CapturedGinkgoWriterOutput += string(suite.writer.Bytes())
+	suite.writer.Truncate()
+}
+
 func (suite *Suite) handleSpecEvent(event types.SpecEvent) types.SpecEvent {
 	event.TimelineLocation = suite.generateTimelineLocation()
 	suite.selectiveLock.Lock()
@@ -615,7 +624,7 @@ func (suite *Suite) reportEach(spec Spec, nodeType types.NodeType) {
 			suite.currentSpecReport.State = state
 			suite.currentSpecReport.Failure = failure
 		}
-		suite.currentSpecReport.CapturedGinkgoWriterOutput += string(suite.writer.Bytes())
+		suite.captureGinkgoWriterOutput()
 		suite.currentSpecReport.CapturedStdOutErr += suite.outputInterceptor.StopInterceptingAndReturnOutput()
 	}
 }
@@ -710,7 +719,7 @@ func (suite *Suite) runSuiteNode(node Node) {
 
 	suite.currentSpecReport.EndTime = time.Now()
 	suite.currentSpecReport.RunTime = suite.currentSpecReport.EndTime.Sub(suite.currentSpecReport.StartTime)
-	suite.currentSpecReport.CapturedGinkgoWriterOutput = string(suite.writer.Bytes())
+	suite.captureGinkgoWriterOutput()
 	suite.currentSpecReport.CapturedStdOutErr += suite.outputInterceptor.StopInterceptingAndReturnOutput()
 }
 
@@ -777,7 +786,7 @@ func (suite *Suite) runReportSuiteNode(node Node, report types.Report) {
 
 	suite.currentSpecReport.EndTime = time.Now()
 	suite.currentSpecReport.RunTime = suite.currentSpecReport.EndTime.Sub(suite.currentSpecReport.StartTime)
-	suite.currentSpecReport.CapturedGinkgoWriterOutput = string(suite.writer.Bytes())
+	suite.captureGinkgoWriterOutput()
 	suite.currentSpecReport.CapturedStdOutErr = suite.outputInterceptor.StopInterceptingAndReturnOutput()
 }
 
diff --git a/reporters/default_reporter.go b/reporters/default_reporter.go
index 74ad076..a2741a4 100644
--- a/reporters/default_reporter.go
+++ b/reporters/default_reporter.go
@@ -372,8 +372,10 @@ func (r *DefaultReporter) emitTimeline(indent uint, report types.SpecReport, tim
 	for _, entry := range timeline {
 		tl := entry.GetTimelineLocation()
 		if tl.Offset < len(gw) {
-			r.emit(r.fi(indent, "%s", gw[cursor:tl.Offset]))
-			cursor = tl.Offset
+			if tl.Offset >= cursor {
+				r.emit(r.fi(indent, "%s", gw[cursor:tl.Offset]))
+				cursor = tl.Offset
+			}
 		} else if cursor < len(gw) {
 			r.emit(r.fi(indent, "%s", gw[cursor:]))
 			cursor = len(gw)
-- 
2.43.0


From 42b47fa78adaf008200c107d92a3d62bf89e9edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:49 +0000
Subject: [PATCH 21/51] fix: events are located and attached to the spec report
 in one step

---
 internal/suite.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/internal/suite.go b/internal/suite.go
index 74ccd02..4b56bc2 100644
--- a/internal/suite.go
+++ b/internal/suite.go
@@ -275,6 +275,12 @@ func (suite *Suite) generateTimelineLocation() types.TimelineLocation {
 	suite.selectiveLock.Lock()
 	defer suite.selectiveLock.Unlock()
 
+	return suite.nextTimelineLocation()
+}
+
+// nextTimelineLocation must be called with the selectiveLock held.  Anything that is attached to the current spec report should be attached
+// while still holding the lock, so that an event can't be located in the output of one spec and end up in the report of another.
+func (suite *Suite) nextTimelineLocation() types.TimelineLocation {
 	suite.timelineOrder += 1
 	return types.TimelineLocation{
 		Offset: len(suite.currentSpecReport.CapturedGinkgoWriterOutput) + suite.writer.Len(),
@@ -293,8 +299,8 @@ func (suite *Suite) captureGinkgoWriterOutput() {
 }
 
 func (suite *Suite) handleSpecEvent(event types.SpecEvent) types.SpecEvent {
-	event.TimelineLocation = suite.generateTimelineLocation()
 	suite.selectiveLock.Lock()
+	event.TimelineLocation = suite.nextTimelineLocation()
 	suite.currentSpecReport.SpecEvents = append(suite.currentSpecReport.SpecEvents, event)
 	suite.selectiveLock.Unlock()
 	suite.reporter.EmitSpecEvent(event)
@@ -304,9 +310,9 @@ func (suite *Suite) handleSpecEvent(event types.SpecEvent) types.SpecEvent {
 func (suite *Suite) handleSpecEventEnd(eventType types.SpecEventType, startEvent types.SpecEvent) {
 	event := startEvent
 	event.SpecEventType = eventType
-	event.TimelineLocation = suite.generateTimelineLocation()
-	event.Duration = event.TimelineLocation.Time.Sub(startEvent.TimelineLocation.Time)
 	suite.selectiveLock.Lock()
+	event.TimelineLocation = suite.nextTimelineLocation()
+	event.Duration = event.TimelineLocation.Time.Sub(startEvent.TimelineLocation.Time)
 	suite.currentSpecReport.SpecEvents = append(suite.currentSpecReport.SpecEvents, event)
 	suite.selectiveLock.Unlock()
 	suite.reporter.EmitSpecEvent(event)
@@ -370,9 +376,9 @@ func (suite *Suite) AddReportEntry(entry ReportEntry) error {
 	if suite.phase != PhaseRun {
 		return types.GinkgoErrors.AddReportEntryNotDuringRunPhase(entry.Location)
 	}
-	entry.TimelineLocation = suite.generateTimelineLocation()
-	entry.Time = entry.TimelineLocation.Time
 	suite.selectiveLock.Lock()
+	entry.TimelineLocation = suite.nextTimelineLocation()
+	entry.Time = entry.TimelineLocation.Time
 	suite.currentSpecReport.ReportEntries = append(suite.currentSpecReport.ReportEntries, entry)
 	suite.selectiveLock.Unlock()
 	suite.reporter.EmitReportEntry(entry)
@@ -408,6 +414,7 @@ func (suite *Suite) handleProgressSignal() {
 
 func (suite *Suite) emitProgressReport(report types.ProgressReport) {
 	suite.selectiveLock.Lock()
+	report.TimelineLocation = suite.nextTimelineLocation()
 	suite.currentSpecReport.ProgressReports = append(suite.currentSpecReport.ProgressReports, report.WithoutCapturedGinkgoWriterOutput())
 	suite.selectiveLock.Unlock()
 
-- 
2.43.0


From 079c9801cd585a01521d0dd73aa461611ca0fb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:54 +0000
Subject: [PATCH 22/51] fix: spec and container texts that look like formatter
 markup are shown as written

---
 reporters/default_reporter.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/reporters/default_reporter.go b/reporters/default_reporter.go
index a2741a4..f749b29 100644
--- a/reporters/default_reporter.go
+++ b/reporters/default_reporter.go
@@ -179,7 +179,7 @@ func (r *DefaultReporter) WillRun(report types.SpecReport) {
 	}
 
 	r.emitDelimiter(0)
-	r.emitBlock(r.f(r.codeLocationBlock(report, "{{/}}", v.Is(types.VerbosityLevelVeryVerbose), false)))
+	r.emitBlock(r.codeLocationBlock(report, "{{/}}", v.Is(types.VerbosityLevelVeryVerbose), false))
 }
 
 func (r *DefaultReporter) wrapTextBlock(sectionName string, fn func()) {
@@ -478,7 +478,7 @@ func (r *DefaultReporter) emitProgressReport(indent uint, emitGinkgoWriterOutput
 	if report.LeafNodeText != "" {
 		subjectIndent := indent
 		if len(report.ContainerHierarchyTexts) > 0 {
-			r.emit(r.fi(indent, r.cycleJoin(report.ContainerHierarchyTexts, " ")))
+			r.emit(r.fi(indent, "%s", r.cycleJoin(report.ContainerHierarchyTexts, " ")))
 			r.emit(" ")
 			subjectIndent = 0
 		}
@@ -695,8 +695,14 @@ func (r *DefaultReporter) fi(indentation uint, format string, args ...any) strin
 	return r.formatter.Fi(indentation, format, args...)
 }
 
+// like formatter.CycleJoin, but the elements are not interpreted as markup
 func (r *DefaultReporter) cycleJoin(elements []string, joiner string) string {
-	return r.formatter.CycleJoin(elements, joiner, []string{"{{/}}", "{{gray}}"})
+	cycle := []string{"{{/}}", "{{gray}}"}
+	out := make([]string, len(elements))
+	for i, element := range elements {
+		out[i] = r.f(cycle[i%len(cycle)]+"%s", element)
+	}
+	return strings.Join(out, joiner) + r.f("{{/}}")
 }
 
 func (r *DefaultReporter) codeLocationBlock(report types.SpecReport, highlightColor string, veryVerbose bool, usePreciseFailureLocation bool) string {
@@ -706,7 +712,7 @@ func (r *DefaultReporter) codeLocationBlock(report types.SpecReport, highlightCo
 	if report.LeafNodeType.Is(types.NodeTypesForSuiteLevelNodes) {
 		texts = append(texts, r.f("[%s] %s", report.LeafNodeType, report.LeafNodeText))
 	} else {
-		texts = append(texts, r.f(report.LeafNodeText))
+		texts = append(texts, report.LeafNodeText)
 	}
 	labels = append(labels, report.LeafNodeLabels)
 	locations = append(locations, report.LeafNodeLocation)
-- 
2.43.0


From 8121e01a22f1e3f41b4f9c27f9a386d0b62ac43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:50 +0000
Subject: [PATCH 23/51] fix: a leaked node takes its failures with it and
 leaves those of later nodes alone

---
 internal/suite.go | 69 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 50 insertions(+), 19 deletions(-)

diff --git a/internal/suite.go b/internal/suite.go
index 4b56bc2..6ac7b4a 100644
--- a/internal/suite.go
+++ b/internal/suite.go
@@ -896,13 +896,29 @@ func (suite *Suite) runNode(node Node, specDeadline time.Time, text string) (typ
 	}
 	var gracePeriodChannel <-chan time.Time
 
-	outcomeC := make(chan types.SpecState)
-	failureC := make(chan types.Failure)
+	// these are buffered so that a node that exits after we've moved on does not block forever
+	outcomeC := make(chan types.SpecState, 1)
+	failureC := make(chan types.Failure, 1)
+
+	// once we've moved on any outcome in the failer belongs to the nodes that run next
+	movedOn, movedOnLock := false, &sync.Mutex{}
+	defer func() {
+		movedOnLock.Lock()
+		movedOn = true
+		movedOnLock.Unlock()
+	}()
 
 	go func() {
 		finished := false
 		defer func() {
-			if e := recover(); e != nil || !finished {
+			movedOnLock.Lock()
+			defer movedOnLock.Unlock()
+
+			e := recover()
+			if movedOn && e == nil && finished {
+				return
+			}
+			if e != nil || !finished {
 				suite.failer.Panic(types.NewCodeLocationWithStackTrace(2), e)
 			}
 
@@ -932,6 +948,34 @@ func (suite *Suite) runNode(node Node, specDeadline time.Time, text string) (typ
 		defer progressPoller.Stop()
 	}
 
+	// attachFailure is called once we've been interrupted/timed out to attach a failure recorded by the node as an additional failure
+	attachFailure := func(outcomeFromRun types.SpecState, failureFromRun types.Failure) {
+		if outcomeFromRun != types.SpecStatePassed {
+			additionalFailure := types.AdditionalFailure{
+				State:   outcomeFromRun,
+				Failure: failure, // we make a copy - this will include all the configuration set up above...
+			}
+			// ...and then we update the failure with the details from failureFromRun
+			additionalFailure.Failure.Location, additionalFailure.Failure.ForwardedPanic, additionalFailure.Failure.TimelineLocation = failureFromRun.Location, failureFromRun.ForwardedPanic, failureFromRun.TimelineLocation
+			additionalFailure.Failure.ProgressReport = types.ProgressReport{}
+			if outcome == types.SpecStateTimedout {
+				additionalFailure.Failure.Message = fmt.Sprintf("A %s timeout occurred and then the following failure was recorded in the timedout node before it exited:\n%s", timeoutInPlay, failureFromRun.Message)
+			} else {
+				additionalFailure.Failure.Message = fmt.Sprintf("An interrupt occurred and then the following failure was recorded in the interrupted node before it exited:\n%s", failureFromRun.Message)
+			}
+			suite.reporter.EmitFailure(additionalFailure.State, additionalFailure.Failure)
+			failure.AdditionalFailure = &additionalFailure
+		}
+	}
+
+	// drainFailer is called when we move on without waiting for the node to exit
+	// any failure it has already recorded belongs to it and not to whichever node runs next
+	drainFailer := func() {
+		outcomeSoFar, failureSoFar := suite.failer.Drain()
+		failureSoFar.TimelineLocation = suite.generateTimelineLocation()
+		attachFailure(outcomeSoFar, failureSoFar)
+	}
+
 	// now we wait for an outcome, an interrupt, a timeout, or a progress poll
 	for {
 		select {
@@ -941,22 +985,7 @@ func (suite *Suite) runNode(node Node, specDeadline time.Time, text string) (typ
 				// we've already been interrupted/timed out.  we just managed to actually exit
 				// before the grace period elapsed
 				// if we have a failure message we attach it as an additional failure
-				if outcomeFromRun != types.SpecStatePassed {
-					additionalFailure := types.AdditionalFailure{
-						State:   outcomeFromRun,
-						Failure: failure, // we make a copy - this will include all the configuration set up above...
-					}
-					// ...and then we update the failure with the details from failureFromRun
-					additionalFailure.Failure.Location, additionalFailure.Failure.ForwardedPanic, additionalFailure.Failure.TimelineLocation = failureFromRun.Location, failureFromRun.ForwardedPanic, failureFromRun.TimelineLocation
-					additionalFailure.Failure.ProgressReport = types.ProgressReport{}
-					if outcome == types.SpecStateTimedout {
-						additionalFailure.Failure.Message = fmt.Sprintf("A %s timeout occurred and then the following failure was recorded in the timedout node before it exited:\n%s", timeoutInPlay, failureFromRun.Message)
-					} else {
-						additionalFailure.Failure.Message = fmt.Sprintf("An interrupt occurred and then the following failure was recorded in the interrupted node before it exited:\n%s", failureFromRun.Message)
-					}
-					suite.reporter.EmitFailure(additionalFailure.State, additionalFailure.Failure)
-					failure.AdditionalFailure = &additionalFailure
-				}
+				attachFailure(outcomeFromRun, failureFromRun)
 				return outcome, failure
 			}
 			if outcomeFromRun.Is(types.SpecStatePassed) {
@@ -972,6 +1001,7 @@ func (suite *Suite) runNode(node Node, specDeadline time.Time, text string) (typ
 				report.Message = "{{bold}}{{orange}}A running node failed to exit in time{{/}}\nGinkgo is moving on but a node has timed out and failed to exit before its grace period elapsed.  The node has now leaked and is running in the background.\nHere's a current progress report:"
 				suite.emitProgressReport(report)
 			}
+			drainFailer()
 			return outcome, failure
 		case <-deadlineChannel:
 			// we're out of time - the outcome is a timeout and we capture the failure and progress report
@@ -1034,6 +1064,7 @@ func (suite *Suite) runNode(node Node, specDeadline time.Time, text string) (typ
 				gracePeriodChannel = time.After(gracePeriod)
 			} else {
 				// we've already given grace.  time's up.  now.
+				drainFailer()
 				return outcome, failure
 			}
 		case <-emitProgressNow:
-- 
2.43.0


From 498f8f268be98ecf75b0f0be85d80265e162668c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:43 +0000
Subject: [PATCH 24/51] fix: a run that is interrupted before every suite has
 run does not pass

---
 ginkgo/run/run_command.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ginkgo/run/run_command.go b/ginkgo/run/run_command.go
index 03875b9..3b5a445 100644
--- a/ginkgo/run/run_command.go
+++ b/ginkgo/run/run_command.go
@@ -96,7 +96,7 @@ func (r *SpecRunner) RunSpecs(args []string, additionalArgs []string) {
 		endTime = t.Add(r.suiteConfig.Timeout)
 	}
 
-	iteration := 0
+	iteration, interrupted := 0, false
 OUTER_LOOP:
 	for {
 		if !r.flags.WasSet("seed") {
@@ -118,6 +118,7 @@ OUTER_LOOP:
 			suites[suiteIdx] = suite
 
 			if r.interruptHandler.Status().Interrupted() {
+				interrupted = true
 				opc.StopAndDrain()
 				break OUTER_LOOP
 			}
@@ -180,7 +181,7 @@ OUTER_LOOP:
 
 	fmt.Printf("\nGinkgo ran %d %s in %s\n", len(suites), internal.PluralizedWord("suite", "suites", len(suites)), time.Since(t))
 
-	if suites.CountWithState(internal.TestSuiteStateFailureStates...) == 0 {
+	if suites.CountWithState(internal.TestSuiteStateFailureStates...) == 0 && !interrupted {
 		if suites.AnyHaveProgrammaticFocus() && strings.TrimSpace(os.Getenv("GINKGO_EDITOR_INTEGRATION")) == "" {
 			fmt.Printf("Test Suite Passed\n")
 			fmt.Printf("Detected Programmatic Focus - setting exit status to %d\n", types.GINKGO_FOCUS_EXIT_CODE)
-- 
2.43.0


From b8ea9b83b99c4d1ef0dfbcdbd57f727ea9fdb88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 25/51] fix: a first interrupt keeps cleanup also in a process
 that another process has aborted

---
 internal/interrupt_handler/interrupt_handler.go | 8 +++++---
 internal/suite.go                               | 5 +++++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/internal/interrupt_handler/interrupt_handler.go b/internal/interrupt_handler/interrupt_handler.go
index 79bfa87..87b0756 100644
--- a/internal/interrupt_handler/interrupt_handler.go
+++ b/internal/interrupt_handler/interrupt_handler.go
@@ -140,16 +140,18 @@ func (handler *InterruptHandler) registerForInterrupts() {
 			abortChannel = nil
 
 			handler.lock.Lock()
-			oldLevel := handler.level
+			oldLevel, oldCause := handler.level, handler.cause
 			handler.cause = interruptCause
-			if handler.level == InterruptLevelUninterrupted {
+			// the user's first interrupt keeps cleanup, even when another process has already aborted the run
+			firstSignalAfterAbort := oldCause == InterruptCauseAbortByOtherProcess && interruptCause == InterruptCauseSignal
+			if firstSignalAfterAbort || handler.level == InterruptLevelUninterrupted {
 				handler.level = InterruptLevelCleanupAndReport
 			} else if handler.level == InterruptLevelCleanupAndReport {
 				handler.level = InterruptLevelReportOnly
 			} else if handler.level == InterruptLevelReportOnly {
 				handler.level = InterruptLevelBailOut
 			}
-			if handler.level != oldLevel {
+			if handler.level != oldLevel || firstSignalAfterAbort {
 				close(handler.c)
 				handler.c = make(chan any)
 			}
diff --git a/internal/suite.go b/internal/suite.go
index 6ac7b4a..c0d6aef 100644
--- a/internal/suite.go
+++ b/internal/suite.go
@@ -1018,12 +1018,17 @@ func (suite *Suite) runNode(node Node, specDeadline time.Time, text string) (typ
 			// and now we wait for the grace period
 			gracePeriodChannel = time.After(gracePeriod)
 		case <-interruptStatus.Channel:
+			previousLevel := interruptStatus.Level
 			interruptStatus = suite.interruptHandler.Status()
 			// ignore interruption from other process if we are cleaning up or reporting
 			if interruptStatus.Cause == interrupt_handler.InterruptCauseAbortByOtherProcess &&
 				node.NodeType.Is(types.NodeTypesAllowedDuringReportInterrupt|types.NodeTypesAllowedDuringCleanupInterrupt) {
 				continue
 			}
+			// ignore the user's first interrupt if another process has already interrupted us - we're waiting for the node to exit
+			if outcome.Is(types.SpecStateInterrupted) && interruptStatus.Level == previousLevel {
+				continue
+			}
 
 			deadlineChannel = nil // don't worry about deadlines, time's up now
 
-- 
2.43.0


From 0eacd0a7a05a80c48ef3fc07dc423ffa9b3c6d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:59 +0000
Subject: [PATCH 26/51] fix: export --timeout and --grace-period to the test
 process when they are zero

The CLI dropped zero values, so "ginkgo --timeout=0" ran with the default one hour timeout and
"--grace-period=0" was not rejected.
---
 types/config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types/config.go b/types/config.go
index 2e827ef..a7f6790 100644
--- a/types/config.go
+++ b/types/config.go
@@ -300,9 +300,9 @@ var SuiteConfigFlags = GinkgoFlags{
 	{KeyPath: "S.SourceRoots", Name: "source-root", SectionKey: "debug",
 		Usage: "The location to look for source code when generating progress reports.  You can pass multiple --source-root flags."},
 	{KeyPath: "S.Timeout", Name: "timeout", SectionKey: "debug", UsageDefaultValue: "1h",
-		Usage: "Test suite fails if it does not complete within the specified timeout."},
+		Usage: "Test suite fails if it does not complete within the specified timeout.", AlwaysExport: true},
 	{KeyPath: "S.GracePeriod", Name: "grace-period", SectionKey: "debug", UsageDefaultValue: "30s",
-		Usage: "When interrupted, Ginkgo will wait for GracePeriod for the current running node to exit before moving on to the next one."},
+		Usage: "When interrupted, Ginkgo will wait for GracePeriod for the current running node to exit before moving on to the next one.", AlwaysExport: true},
 	{KeyPath: "S.OutputInterceptorMode", Name: "output-interceptor-mode", SectionKey: "debug", UsageArgument: "dup, swap, or none",
 		Usage: "If set, ginkgo will use the specified output interception strategy when running in parallel.  Defaults to dup on unix and swap on windows."},
 
-- 
2.43.0


From 8ad23e9bd3cb6922dab016654c413810edf28744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:07 +0000
Subject: [PATCH 27/51] fix: reroot every relative --coverpkg path

Only paths starting with ./ were adjusted to the directory of the suite; ".", ".." and "../x" were
resolved relative to the suite instead of the directory in which ginkgo was invoked.
---
 types/config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types/config.go b/types/config.go
index a7f6790..6b1a0f5 100644
--- a/types/config.go
+++ b/types/config.go
@@ -656,9 +656,9 @@ func GenerateGoTestCompileArgs(goFlagsConfig GoFlagsConfig, packageToBuild strin
 		adjustedCoverPkgs := make([]string, len(coverPkgs))
 		for i, coverPkg := range coverPkgs {
 			coverPkg = strings.Trim(coverPkg, " ")
-			if strings.HasPrefix(coverPkg, "./") {
+			if coverPkg == "." || coverPkg == ".." || strings.HasPrefix(coverPkg, "./") || strings.HasPrefix(coverPkg, "../") {
 				// this is a relative coverPkg - we need to reroot it
-				adjustedCoverPkgs[i] = "./" + filepath.Join(pathToInvocationPath, strings.TrimPrefix(coverPkg, "./"))
+				adjustedCoverPkgs[i] = "./" + filepath.Join(pathToInvocationPath, coverPkg)
 			} else {
 				// this is a package name - don't touch it
 				adjustedCoverPkgs[i] = coverPkg
-- 
2.43.0


From a4a01b48c15ca6daa63c2daf896956f2c2de06f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:29 +0000
Subject: [PATCH 28/51] fix: reports left by a previous run or iteration do not
 stand in for a suite that died

When a suite dies before it can write its report (os.Exit, a crash, a signal) the file that a previous
run or a previous --repeat iteration left behind was presented as its report - possibly as a success.
---
 ginkgo/internal/run.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ginkgo/internal/run.go b/ginkgo/internal/run.go
index dc5a404..325a3ff 100644
--- a/ginkgo/internal/run.go
+++ b/ginkgo/internal/run.go
@@ -55,6 +55,18 @@ func buildAndStartCommand(suite TestSuite, args []string, pipeToStdout bool) (*e
 	return cmd, buf
 }
 
+// removeStaleReports makes sure that a suite that dies before it can write its reports is not represented by the reports of a previous run or iteration
+func removeStaleReports(reporterConfig types.ReporterConfig) {
+	for _, path := range []string{reporterConfig.JSONReport, reporterConfig.JUnitReport, reporterConfig.TeamcityReport} {
+		if path == "" {
+			continue
+		}
+		if info, err := os.Stat(path); err == nil && info.Mode().IsRegular() {
+			os.Remove(path)
+		}
+	}
+}
+
 func checkForNoTestsWarning(buf *bytes.Buffer) bool {
 	if strings.Contains(buf.String(), "warning: no tests to run") {
 		fmt.Fprintf(os.Stderr, `Found no test suites, did you forget to run "ginkgo bootstrap"?`)
@@ -113,6 +125,7 @@ func runSerial(suite TestSuite, ginkgoConfig types.SuiteConfig, reporterConfig t
 	if reporterConfig.TeamcityReport != "" {
 		reporterConfig.TeamcityReport = AbsPathForGeneratedAsset(reporterConfig.TeamcityReport, suite, cliConfig, 0)
 	}
+	removeStaleReports(reporterConfig)
 
 	args, err := types.GenerateGinkgoTestRunArgs(ginkgoConfig, reporterConfig, goFlagsConfig)
 	command.AbortIfError("Failed to generate test run arguments", err)
@@ -185,6 +198,7 @@ func runParallel(suite TestSuite, ginkgoConfig types.SuiteConfig, reporterConfig
 	if reporterConfig.TeamcityReport != "" {
 		reporterConfig.TeamcityReport = AbsPathForGeneratedAsset(reporterConfig.TeamcityReport, suite, cliConfig, 0)
 	}
+	removeStaleReports(reporterConfig)
 
 	for proc := 1; proc <= numProcs; proc++ {
 		procGinkgoConfig := ginkgoConfig
-- 
2.43.0


From 94996aaae66158de27dd08a3cb786da1f98accfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:06 +0000
Subject: [PATCH 29/51] fix: os.Exit(0) in a spec does not make the suite pass

go test makes os.Exit(0) panic while tests run (-test.paniconexit0); the CLI runs the test binary itself
and did not, so a spec calling os.Exit(0) ended the suite at once and the run passed.
---
 ginkgo/internal/run.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ginkgo/internal/run.go b/ginkgo/internal/run.go
index 325a3ff..a14ea65 100644
--- a/ginkgo/internal/run.go
+++ b/ginkgo/internal/run.go
@@ -129,7 +129,7 @@ func runSerial(suite TestSuite, ginkgoConfig types.SuiteConfig, reporterConfig t
 
 	args, err := types.GenerateGinkgoTestRunArgs(ginkgoConfig, reporterConfig, goFlagsConfig)
 	command.AbortIfError("Failed to generate test run arguments", err)
-	args = append([]string{"--test.timeout=0"}, args...)
+	args = append([]string{"--test.timeout=0", "--test.paniconexit0"}, args...)
 	args = append(args, additionalArgs...)
 
 	cmd, buf := buildAndStartCommand(suite, args, true)
@@ -228,7 +228,7 @@ func runParallel(suite TestSuite, ginkgoConfig types.SuiteConfig, reporterConfig
 
 		args, err := types.GenerateGinkgoTestRunArgs(procGinkgoConfig, reporterConfig, procGoFlagsConfig)
 		command.AbortIfError("Failed to generate test run arguments", err)
-		args = append([]string{"--test.timeout=0"}, args...)
+		args = append([]string{"--test.timeout=0", "--test.paniconexit0"}, args...)
 		args = append(args, additionalArgs...)
 
 		cmd, buf := buildAndStartCommand(suite, args, false)
-- 
2.43.0


From 7497620f7494bb21cb6b81487562f509fcaec3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:38 +0000
Subject: [PATCH 30/51] fix: the current spec report can be read while the
 suite is running it

CurrentSpecReport, SpecContext.SpecReport, AddReportEntry and progress
reports can be used from any goroutine at any time, and copy the whole of
the current spec report.  The goroutine that runs the suite changed its
state, failure, times and output, and copied the report, without holding
the lock - which is a data race (and a torn string or slice).
---
 internal/group.go |  39 ++++++++---------
 internal/suite.go | 109 +++++++++++++++++++++++++++++++---------------
 2 files changed, 92 insertions(+), 56 deletions(-)

diff --git a/internal/group.go b/internal/group.go
index 44a0af6..aa89a06 100644
--- a/internal/group.go
+++ b/internal/group.go
@@ -205,8 +205,8 @@ func (g *group) attemptSpec(isFinalAttempt bool, spec Spec) bool {
 		if !oncePair.isZero() && g.runOnceTracker[oncePair].Is(types.SpecStatePassed) {
 			continue
 		}
-		g.suite.currentSpecReport.State, g.suite.currentSpecReport.Failure = g.suite.runNode(node, deadline, spec.Nodes.BestTextFor(node))
-		g.suite.currentSpecReport.RunTime = time.Since(g.suite.currentSpecReport.StartTime)
+		g.suite.setCurrentSpecOutcome(g.suite.runNode(node, deadline, spec.Nodes.BestTextFor(node)))
+		g.suite.updateCurrentSpecReport(func(report *types.SpecReport) { report.RunTime = time.Since(report.StartTime) })
 		if !oncePair.isZero() {
 			g.runOnceTracker[oncePair] = g.suite.currentSpecReport.State
 		}
@@ -293,12 +293,11 @@ func (g *group) attemptSpec(isFinalAttempt bool, spec Spec) bool {
 		for _, node := range nodes {
 			afterNodeWasRun[node.ID] = true
 			state, failure := g.suite.runNode(node, deadline, spec.Nodes.BestTextFor(node))
-			g.suite.currentSpecReport.RunTime = time.Since(g.suite.currentSpecReport.StartTime)
+			g.suite.updateCurrentSpecReport(func(report *types.SpecReport) { report.RunTime = time.Since(report.StartTime) })
 			if g.suite.currentSpecReport.State == types.SpecStatePassed || state == types.SpecStateAborted {
-				g.suite.currentSpecReport.State = state
-				g.suite.currentSpecReport.Failure = failure
+				g.suite.setCurrentSpecOutcome(state, failure)
 			} else if state.Is(types.SpecStateFailureStates) {
-				g.suite.currentSpecReport.AdditionalFailures = append(g.suite.currentSpecReport.AdditionalFailures, types.AdditionalFailure{State: state, Failure: failure})
+				g.suite.addAdditionalFailure(types.AdditionalFailure{State: state, Failure: failure})
 			}
 		}
 		includeDeferCleanups = true
@@ -351,17 +350,16 @@ func (g *group) runOutstandingRunOnceTeardown(spec Spec) {
 		state, failure := g.suite.runNode(nodes[0], time.Time{}, spec.Nodes.BestTextFor(nodes[0]))
 		if state.Is(types.SpecStateFailureStates) {
 			if state == types.SpecStateAborted || !g.suite.currentSpecReport.State.Is(types.SpecStateFailureStates) {
-				g.suite.currentSpecReport.State, g.suite.currentSpecReport.Failure = state, failure
+				g.suite.setCurrentSpecOutcome(state, failure)
 			} else {
-				g.suite.currentSpecReport.AdditionalFailures = append(g.suite.currentSpecReport.AdditionalFailures, types.AdditionalFailure{State: state, Failure: failure})
+				g.suite.addAdditionalFailure(types.AdditionalFailure{State: state, Failure: failure})
 			}
 		}
 	}
 	if didRun {
-		g.suite.currentSpecReport.EndTime = time.Now()
-		g.suite.currentSpecReport.RunTime = g.suite.currentSpecReport.EndTime.Sub(g.suite.currentSpecReport.StartTime)
+		g.suite.endCurrentSpec()
 		g.suite.captureGinkgoWriterOutput()
-		g.suite.currentSpecReport.CapturedStdOutErr += g.suite.outputInterceptor.StopInterceptingAndReturnOutput()
+		g.suite.captureStdOutErr(g.suite.outputInterceptor.StopInterceptingAndReturnOutput())
 	}
 }
 
@@ -377,31 +375,31 @@ func (g *group) run(specs Specs) {
 		g.suite.currentSpecReport = g.initialReportForSpec(spec)
 		g.suite.selectiveLock.Unlock()
 
-		g.suite.currentSpecReport.State, g.suite.currentSpecReport.Failure = g.evaluateSkipStatus(spec)
-		g.suite.reporter.WillRun(g.suite.currentSpecReport)
+		g.suite.setCurrentSpecOutcome(g.evaluateSkipStatus(spec))
+		g.suite.reporter.WillRun(g.suite.snapshotCurrentSpecReport())
 		g.suite.reportEach(spec, types.NodeTypeReportBeforeEach)
 
 		skip := g.suite.config.DryRun || g.suite.currentSpecReport.State.Is(types.SpecStateFailureStates|types.SpecStateSkipped|types.SpecStatePending)
 
-		g.suite.currentSpecReport.StartTime = time.Now()
+		g.suite.updateCurrentSpecReport(func(report *types.SpecReport) { report.StartTime = time.Now() })
 		failedInARunOnceBefore := false
 		if !skip {
 			var maxAttempts = 1
 
 			if g.suite.config.MustPassRepeatedly > 0 {
 				maxAttempts = g.suite.config.MustPassRepeatedly
-				g.suite.currentSpecReport.MaxMustPassRepeatedly = maxAttempts
+				g.suite.updateCurrentSpecReport(func(report *types.SpecReport) { report.MaxMustPassRepeatedly = maxAttempts })
 			} else if g.suite.currentSpecReport.MaxMustPassRepeatedly > 0 {
 				maxAttempts = max(1, spec.MustPassRepeatedly())
 			} else if g.suite.config.FlakeAttempts > 0 {
 				maxAttempts = g.suite.config.FlakeAttempts
-				g.suite.currentSpecReport.MaxFlakeAttempts = maxAttempts
+				g.suite.updateCurrentSpecReport(func(report *types.SpecReport) { report.MaxFlakeAttempts = maxAttempts })
 			} else if g.suite.currentSpecReport.MaxFlakeAttempts > 0 {
 				maxAttempts = max(1, spec.FlakeAttempts())
 			}
 
 			for attempt := 0; attempt < maxAttempts; attempt++ {
-				g.suite.currentSpecReport.NumAttempts = attempt + 1
+				g.suite.updateCurrentSpecReport(func(report *types.SpecReport) { report.NumAttempts = attempt + 1 })
 				g.suite.writer.Truncate()
 				g.suite.outputInterceptor.StartInterceptingOutput()
 				if attempt > 0 {
@@ -415,10 +413,9 @@ func (g *group) run(specs Specs) {
 
 				failedInARunOnceBefore = g.attemptSpec(attempt == maxAttempts-1, spec)
 
-				g.suite.currentSpecReport.EndTime = time.Now()
-				g.suite.currentSpecReport.RunTime = g.suite.currentSpecReport.EndTime.Sub(g.suite.currentSpecReport.StartTime)
+				g.suite.endCurrentSpec()
 				g.suite.captureGinkgoWriterOutput()
-				g.suite.currentSpecReport.CapturedStdOutErr += g.suite.outputInterceptor.StopInterceptingAndReturnOutput()
+				g.suite.captureStdOutErr(g.suite.outputInterceptor.StopInterceptingAndReturnOutput())
 
 				if g.suite.currentSpecReport.MaxMustPassRepeatedly > 0 {
 					if g.suite.currentSpecReport.State.Is(types.SpecStateFailureStates | types.SpecStateSkipped) {
@@ -430,7 +427,7 @@ func (g *group) run(specs Specs) {
 					} else if attempt < maxAttempts-1 {
 						af := types.AdditionalFailure{State: g.suite.currentSpecReport.State, Failure: g.suite.currentSpecReport.Failure}
 						af.Failure.Message = fmt.Sprintf("Failure recorded during attempt %d:\n%s", attempt+1, af.Failure.Message)
-						g.suite.currentSpecReport.AdditionalFailures = append(g.suite.currentSpecReport.AdditionalFailures, af)
+						g.suite.addAdditionalFailure(af)
 					}
 				}
 			}
diff --git a/internal/suite.go b/internal/suite.go
index c0d6aef..13dc411 100644
--- a/internal/suite.go
+++ b/internal/suite.go
@@ -60,7 +60,9 @@ type Suite struct {
 		However, there are some operations that can happen concurrently:
 
 		- AddReportEntry and CurrentSpecReport can be accessed at any point by the user - including in goroutines that outlive the node intentionally (see, e.g. #1020).  They both form a self-contained read-write pair and so a lock in them is sufficent.
-		- generateProgressReport can be invoked at any point in time by an interrupt or a progres poll.  Moreover, it requires access to currentSpecReport, currentNode, currentNodeStartTime, and progressStepCursor.  To make it threadsafe we need to lock around generateProgressReport when we read those variables _and_ everywhere those variables are *written*.  In general we don't need to worry about all possible field writes to these variables as what `generateProgressReport` does with these variables is fairly selective (hence the name of the lock).  Specifically, we dont' need to lock around state and failure message changes on `currentSpecReport` - just the setting of the variable itself.
+		- generateProgressReport can be invoked at any point in time by an interrupt or a progres poll.  Moreover, it requires access to currentSpecReport, currentNode, currentNodeStartTime, and progressStepCursor.  To make it threadsafe we need to lock around generateProgressReport when we read those variables _and_ everywhere those variables are *written*.
+
+		CurrentSpecReport and generateProgressReport copy all of currentSpecReport - so every change to it, including changes to its state and failure, goes through updateCurrentSpecReport.  As only the goroutine that runs the suite changes anything other than the report's entries, events, and progress reports it can read the other fields without a lock - but must use snapshotCurrentSpecReport to copy the report.
 	*/
 	selectiveLock *sync.Mutex
 
@@ -289,6 +291,45 @@ func (suite *Suite) nextTimelineLocation() types.TimelineLocation {
 	}
 }
 
+// updateCurrentSpecReport must be used for all changes to currentSpecReport
+func (suite *Suite) updateCurrentSpecReport(update func(report *types.SpecReport)) {
+	suite.selectiveLock.Lock()
+	defer suite.selectiveLock.Unlock()
+	update(&suite.currentSpecReport)
+}
+
+// snapshotCurrentSpecReport must be used to copy currentSpecReport
+func (suite *Suite) snapshotCurrentSpecReport() types.SpecReport {
+	suite.selectiveLock.Lock()
+	defer suite.selectiveLock.Unlock()
+	return suite.currentSpecReport
+}
+
+func (suite *Suite) setCurrentSpecOutcome(state types.SpecState, failure types.Failure) {
+	suite.updateCurrentSpecReport(func(report *types.SpecReport) {
+		report.State, report.Failure = state, failure
+	})
+}
+
+func (suite *Suite) addAdditionalFailure(failure types.AdditionalFailure) {
+	suite.updateCurrentSpecReport(func(report *types.SpecReport) {
+		report.AdditionalFailures = append(report.AdditionalFailures, failure)
+	})
+}
+
+func (suite *Suite) endCurrentSpec() {
+	suite.updateCurrentSpecReport(func(report *types.SpecReport) {
+		report.EndTime = time.Now()
+		report.RunTime = report.EndTime.Sub(report.StartTime)
+	})
+}
+
+func (suite *Suite) captureStdOutErr(output string) {
+	suite.updateCurrentSpecReport(func(report *types.SpecReport) {
+		report.CapturedStdOutErr += output
+	})
+}
+
 // captureGinkgoWriterOutput moves what is in the GinkgoWriter to the current spec report.
 // Both happen under the lock so that timeline locations generated concurrently (e.g. by a progress signal, or by a goroutine that outlives its node) never count the same output twice.
 func (suite *Suite) captureGinkgoWriterOutput() {
@@ -432,15 +473,16 @@ func (suite *Suite) isRunningInParallel() bool {
 }
 
 func (suite *Suite) processCurrentSpecReport() {
-	suite.reporter.DidRun(suite.currentSpecReport)
+	report := suite.snapshotCurrentSpecReport()
+	suite.reporter.DidRun(report)
 	if suite.isRunningInParallel() {
-		suite.client.PostDidRun(suite.currentSpecReport)
+		suite.client.PostDidRun(report)
 	}
-	suite.report.SpecReports = append(suite.report.SpecReports, suite.currentSpecReport)
+	suite.report.SpecReports = append(suite.report.SpecReports, report)
 
-	if suite.currentSpecReport.State.Is(types.SpecStateFailureStates) {
+	if report.State.Is(types.SpecStateFailureStates) {
 		suite.report.SuiteSucceeded = false
-		if suite.config.FailFast || suite.currentSpecReport.State.Is(types.SpecStateAborted) {
+		if suite.config.FailFast || report.State.Is(types.SpecStateAborted) {
 			suite.skipAll = true
 			if suite.isRunningInParallel() {
 				suite.client.PostAbort()
@@ -558,7 +600,7 @@ func (suite *Suite) runBeforeSuite(numSpecsThatWillBeRun int) {
 		}
 		suite.selectiveLock.Unlock()
 
-		suite.reporter.WillRun(suite.currentSpecReport)
+		suite.reporter.WillRun(suite.snapshotCurrentSpecReport())
 		suite.runSuiteNode(beforeSuiteNode)
 		if suite.currentSpecReport.State.Is(types.SpecStateSkipped) {
 			suite.report.SpecialSuiteFailureReasons = append(suite.report.SpecialSuiteFailureReasons, "Suite skipped in BeforeSuite")
@@ -580,7 +622,7 @@ func (suite *Suite) runAfterSuiteCleanup(numSpecsThatWillBeRun int) {
 		}
 		suite.selectiveLock.Unlock()
 
-		suite.reporter.WillRun(suite.currentSpecReport)
+		suite.reporter.WillRun(suite.snapshotCurrentSpecReport())
 		suite.runSuiteNode(afterSuiteNode)
 		suite.processCurrentSpecReport()
 	}
@@ -597,7 +639,7 @@ func (suite *Suite) runAfterSuiteCleanup(numSpecsThatWillBeRun int) {
 			}
 			suite.selectiveLock.Unlock()
 
-			suite.reporter.WillRun(suite.currentSpecReport)
+			suite.reporter.WillRun(suite.snapshotCurrentSpecReport())
 			suite.runSuiteNode(cleanupNode)
 			suite.processCurrentSpecReport()
 		}
@@ -619,7 +661,7 @@ func (suite *Suite) reportEach(spec Spec, nodeType types.NodeType) {
 	for i := range nodes {
 		suite.writer.Truncate()
 		suite.outputInterceptor.StartInterceptingOutput()
-		report := suite.currentSpecReport
+		report := suite.snapshotCurrentSpecReport()
 		nodes[i].Body = func(ctx SpecContext) {
 			nodes[i].ReportEachBody(ctx, report)
 		}
@@ -628,34 +670,33 @@ func (suite *Suite) reportEach(spec Spec, nodeType types.NodeType) {
 		// If the spec is not in a failure state (i.e. it's Passed/Skipped/Pending) and the reporter has failed, override the state.
 		// Also, if the reporter is every aborted - always override the state to propagate the abort
 		if (!suite.currentSpecReport.State.Is(types.SpecStateFailureStates) && state.Is(types.SpecStateFailureStates)) || state.Is(types.SpecStateAborted) {
-			suite.currentSpecReport.State = state
-			suite.currentSpecReport.Failure = failure
+			suite.setCurrentSpecOutcome(state, failure)
 		}
 		suite.captureGinkgoWriterOutput()
-		suite.currentSpecReport.CapturedStdOutErr += suite.outputInterceptor.StopInterceptingAndReturnOutput()
+		suite.captureStdOutErr(suite.outputInterceptor.StopInterceptingAndReturnOutput())
 	}
 }
 
 func (suite *Suite) runSuiteNode(node Node) {
 	if suite.config.DryRun {
-		suite.currentSpecReport.State = types.SpecStatePassed
+		suite.setCurrentSpecOutcome(types.SpecStatePassed, types.Failure{})
 		return
 	}
 
 	suite.writer.Truncate()
 	suite.outputInterceptor.StartInterceptingOutput()
-	suite.currentSpecReport.StartTime = time.Now()
+	suite.updateCurrentSpecReport(func(report *types.SpecReport) { report.StartTime = time.Now() })
 
 	var err error
 	switch node.NodeType {
 	case types.NodeTypeBeforeSuite, types.NodeTypeAfterSuite:
-		suite.currentSpecReport.State, suite.currentSpecReport.Failure = suite.runNode(node, time.Time{}, "")
+		suite.setCurrentSpecOutcome(suite.runNode(node, time.Time{}, ""))
 	case types.NodeTypeCleanupAfterSuite:
 		if suite.config.ParallelTotal > 1 && suite.config.ParallelProcess == 1 {
 			err = suite.client.BlockUntilNonprimaryProcsHaveFinished()
 		}
 		if err == nil {
-			suite.currentSpecReport.State, suite.currentSpecReport.Failure = suite.runNode(node, time.Time{}, "")
+			suite.setCurrentSpecOutcome(suite.runNode(node, time.Time{}, ""))
 		}
 	case types.NodeTypeSynchronizedBeforeSuite:
 		var data []byte
@@ -667,9 +708,9 @@ func (suite *Suite) runSuiteNode(node Node) {
 			}
 			node.Body = func(c SpecContext) { data = node.SynchronizedBeforeSuiteProc1Body(c) }
 			node.HasContext = node.SynchronizedBeforeSuiteProc1BodyHasContext
-			suite.currentSpecReport.State, suite.currentSpecReport.Failure = suite.runNode(node, time.Time{}, "")
+			suite.setCurrentSpecOutcome(suite.runNode(node, time.Time{}, ""))
 			if suite.config.ParallelTotal > 1 {
-				suite.currentSpecReport.CapturedStdOutErr += suite.outputInterceptor.StopInterceptingAndReturnOutput()
+				suite.captureStdOutErr(suite.outputInterceptor.StopInterceptingAndReturnOutput())
 				suite.outputInterceptor.StartInterceptingOutput()
 				if suite.currentSpecReport.State.Is(types.SpecStatePassed) {
 					err = suite.client.PostSynchronizedBeforeSuiteCompleted(types.SpecStatePassed, data)
@@ -687,25 +728,25 @@ func (suite *Suite) runSuiteNode(node Node) {
 			case types.SpecStateFailed, types.SpecStatePanicked, types.SpecStateTimedout:
 				err = types.GinkgoErrors.SynchronizedBeforeSuiteFailedOnProc1()
 			case types.SpecStateInterrupted, types.SpecStateAborted, types.SpecStateSkipped:
-				suite.currentSpecReport.State = proc1State
+				suite.setCurrentSpecOutcome(proc1State, types.Failure{})
 			}
 		}
 		if runAllProcs {
 			node.Body = func(c SpecContext) { node.SynchronizedBeforeSuiteAllProcsBody(c, data) }
 			node.HasContext = node.SynchronizedBeforeSuiteAllProcsBodyHasContext
-			suite.currentSpecReport.State, suite.currentSpecReport.Failure = suite.runNode(node, time.Time{}, "")
+			suite.setCurrentSpecOutcome(suite.runNode(node, time.Time{}, ""))
 		}
 	case types.NodeTypeSynchronizedAfterSuite:
 		node.Body = node.SynchronizedAfterSuiteAllProcsBody
 		node.HasContext = node.SynchronizedAfterSuiteAllProcsBodyHasContext
-		suite.currentSpecReport.State, suite.currentSpecReport.Failure = suite.runNode(node, time.Time{}, "")
+		suite.setCurrentSpecOutcome(suite.runNode(node, time.Time{}, ""))
 		if suite.config.ParallelProcess == 1 {
 			if suite.config.ParallelTotal > 1 {
 				err = suite.client.BlockUntilNonprimaryProcsHaveFinished()
 			}
 			if err == nil {
 				if suite.config.ParallelTotal > 1 {
-					suite.currentSpecReport.CapturedStdOutErr += suite.outputInterceptor.StopInterceptingAndReturnOutput()
+					suite.captureStdOutErr(suite.outputInterceptor.StopInterceptingAndReturnOutput())
 					suite.outputInterceptor.StartInterceptingOutputAndForwardTo(suite.client)
 				}
 
@@ -713,21 +754,20 @@ func (suite *Suite) runSuiteNode(node Node) {
 				node.HasContext = node.SynchronizedAfterSuiteProc1BodyHasContext
 				state, failure := suite.runNode(node, time.Time{}, "")
 				if suite.currentSpecReport.State.Is(types.SpecStatePassed) {
-					suite.currentSpecReport.State, suite.currentSpecReport.Failure = state, failure
+					suite.setCurrentSpecOutcome(state, failure)
 				}
 			}
 		}
 	}
 
 	if err != nil && !suite.currentSpecReport.State.Is(types.SpecStateFailureStates) {
-		suite.currentSpecReport.State, suite.currentSpecReport.Failure = types.SpecStateFailed, suite.failureForLeafNodeWithMessage(node, err.Error())
+		suite.setCurrentSpecOutcome(types.SpecStateFailed, suite.failureForLeafNodeWithMessage(node, err.Error()))
 		suite.reporter.EmitFailure(suite.currentSpecReport.State, suite.currentSpecReport.Failure)
 	}
 
-	suite.currentSpecReport.EndTime = time.Now()
-	suite.currentSpecReport.RunTime = suite.currentSpecReport.EndTime.Sub(suite.currentSpecReport.StartTime)
+	suite.endCurrentSpec()
 	suite.captureGinkgoWriterOutput()
-	suite.currentSpecReport.CapturedStdOutErr += suite.outputInterceptor.StopInterceptingAndReturnOutput()
+	suite.captureStdOutErr(suite.outputInterceptor.StopInterceptingAndReturnOutput())
 }
 
 func (suite *Suite) runReportSuiteNodesIfNeedBe(nodeType types.NodeType) {
@@ -756,7 +796,7 @@ func (suite *Suite) runReportSuiteNodesIfNeedBe(nodeType types.NodeType) {
 		}
 		suite.selectiveLock.Unlock()
 
-		suite.reporter.WillRun(suite.currentSpecReport)
+		suite.reporter.WillRun(suite.snapshotCurrentSpecReport())
 		suite.runReportSuiteNode(node, suite.report)
 		suite.processCurrentSpecReport()
 	}
@@ -774,14 +814,14 @@ func (suite *Suite) runReportSuiteNodesIfNeedBe(nodeType types.NodeType) {
 func (suite *Suite) runReportSuiteNode(node Node, report types.Report) {
 	suite.writer.Truncate()
 	suite.outputInterceptor.StartInterceptingOutput()
-	suite.currentSpecReport.StartTime = time.Now()
+	suite.updateCurrentSpecReport(func(report *types.SpecReport) { report.StartTime = time.Now() })
 
 	// if we're running a ReportAfterSuite in parallel (on proc 1) we (a) wait until other procs have exited and
 	// (b) always fetch the latest report as prior ReportAfterSuites will contribute to it
 	if node.NodeType.Is(types.NodeTypeReportAfterSuite) && suite.isRunningInParallel() {
 		aggregatedReport, err := suite.client.BlockUntilAggregatedNonprimaryProcsReport()
 		if err != nil {
-			suite.currentSpecReport.State, suite.currentSpecReport.Failure = types.SpecStateFailed, suite.failureForLeafNodeWithMessage(node, err.Error())
+			suite.setCurrentSpecOutcome(types.SpecStateFailed, suite.failureForLeafNodeWithMessage(node, err.Error()))
 			suite.reporter.EmitFailure(suite.currentSpecReport.State, suite.currentSpecReport.Failure)
 			return
 		}
@@ -789,12 +829,11 @@ func (suite *Suite) runReportSuiteNode(node Node, report types.Report) {
 	}
 
 	node.Body = func(ctx SpecContext) { node.ReportSuiteBody(ctx, report) }
-	suite.currentSpecReport.State, suite.currentSpecReport.Failure = suite.runNode(node, time.Time{}, "")
+	suite.setCurrentSpecOutcome(suite.runNode(node, time.Time{}, ""))
 
-	suite.currentSpecReport.EndTime = time.Now()
-	suite.currentSpecReport.RunTime = suite.currentSpecReport.EndTime.Sub(suite.currentSpecReport.StartTime)
+	suite.endCurrentSpec()
 	suite.captureGinkgoWriterOutput()
-	suite.currentSpecReport.CapturedStdOutErr = suite.outputInterceptor.StopInterceptingAndReturnOutput()
+	suite.captureStdOutErr(suite.outputInterceptor.StopInterceptingAndReturnOutput())
 }
 
 func (suite *Suite) runNode(node Node, specDeadline time.Time, text string) (types.SpecState, types.Failure) {
-- 
2.43.0


From 7bda1361b586f40658e48d3c531e040290334ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:38 +0000
Subject: [PATCH 31/51] fix: DeferCleanup can be called concurrently

DeferCleanup read the current node, and the suite read and removed cleanup
nodes, without holding the lock that protects them.
---
 internal/group.go |  6 +++---
 internal/suite.go | 16 +++++++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/internal/group.go b/internal/group.go
index aa89a06..403fafb 100644
--- a/internal/group.go
+++ b/internal/group.go
@@ -227,8 +227,8 @@ func (g *group) attemptSpec(isFinalAttempt bool, spec Spec) bool {
 			nodes = nodes.WithinNestingLevel(terminatingNode.NestingLevel)
 		}
 		if includeDeferCleanups {
-			nodes = append(nodes, g.suite.cleanupNodes.WithType(types.NodeTypeCleanupAfterEach).Reverse()...)
-			nodes = append(nodes, g.suite.cleanupNodes.WithType(types.NodeTypeCleanupAfterAll).Reverse()...)
+			nodes = append(nodes, g.suite.cleanupNodesWithType(types.NodeTypeCleanupAfterEach).Reverse()...)
+			nodes = append(nodes, g.suite.cleanupNodesWithType(types.NodeTypeCleanupAfterAll).Reverse()...)
 		}
 		nodes = nodes.Filter(func(node Node) bool {
 			if afterNodeWasRun[node.ID] {
@@ -333,7 +333,7 @@ func (g *group) runOutstandingRunOnceTeardown(spec Spec) {
 			return g.outstandingRunOnceTeardown[pair] && isLastChance(pair)
 		})
 		if len(nodes) == 0 {
-			nodes = append(g.suite.cleanupNodes.WithType(types.NodeTypeCleanupAfterEach).Reverse(), g.suite.cleanupNodes.WithType(types.NodeTypeCleanupAfterAll).Reverse()...)
+			nodes = append(g.suite.cleanupNodesWithType(types.NodeTypeCleanupAfterEach).Reverse(), g.suite.cleanupNodesWithType(types.NodeTypeCleanupAfterAll).Reverse()...)
 			nodes = nodes.Filter(func(node Node) bool {
 				return isLastChance(pairs.runOncePairFor(node.NodeIDWhereCleanupWasGenerated))
 			})
diff --git a/internal/suite.go b/internal/suite.go
index 13dc411..e2cfebe 100644
--- a/internal/suite.go
+++ b/internal/suite.go
@@ -61,6 +61,7 @@ type Suite struct {
 
 		- AddReportEntry and CurrentSpecReport can be accessed at any point by the user - including in goroutines that outlive the node intentionally (see, e.g. #1020).  They both form a self-contained read-write pair and so a lock in them is sufficent.
 		- generateProgressReport can be invoked at any point in time by an interrupt or a progres poll.  Moreover, it requires access to currentSpecReport, currentNode, currentNodeStartTime, and progressStepCursor.  To make it threadsafe we need to lock around generateProgressReport when we read those variables _and_ everywhere those variables are *written*.
+		- DeferCleanup can be called concurrently (by goroutines launched by the node) and so we lock around cleanupNodes.
 
 		CurrentSpecReport and generateProgressReport copy all of currentSpecReport - so every change to it, including changes to its state and failure, goes through updateCurrentSpecReport.  As only the goroutine that runs the suite changes anything other than the report's entries, events, and progress reports it can read the other fields without a lock - but must use snapshotCurrentSpecReport to copy the report.
 	*/
@@ -247,6 +248,9 @@ func (suite *Suite) pushSuiteNode(node Node) error {
 }
 
 func (suite *Suite) pushCleanupNode(node Node) error {
+	suite.selectiveLock.Lock()
+	defer suite.selectiveLock.Unlock()
+
 	if suite.phase != PhaseRun || suite.currentNode.IsZero() {
 		return types.GinkgoErrors.PushingCleanupNodeDuringTreeConstruction(node.CodeLocation)
 	}
@@ -266,9 +270,7 @@ func (suite *Suite) pushCleanupNode(node Node) error {
 
 	node.NodeIDWhereCleanupWasGenerated = suite.currentNode.ID
 	node.NestingLevel = suite.currentNode.NestingLevel
-	suite.selectiveLock.Lock()
 	suite.cleanupNodes = append(suite.cleanupNodes, node)
-	suite.selectiveLock.Unlock()
 
 	return nil
 }
@@ -330,6 +332,12 @@ func (suite *Suite) captureStdOutErr(output string) {
 	})
 }
 
+func (suite *Suite) cleanupNodesWithType(nodeTypes types.NodeType) Nodes {
+	suite.selectiveLock.Lock()
+	defer suite.selectiveLock.Unlock()
+	return suite.cleanupNodes.WithType(nodeTypes)
+}
+
 // captureGinkgoWriterOutput moves what is in the GinkgoWriter to the current spec report.
 // Both happen under the lock so that timeline locations generated concurrently (e.g. by a progress signal, or by a goroutine that outlives its node) never count the same output twice.
 func (suite *Suite) captureGinkgoWriterOutput() {
@@ -627,7 +635,7 @@ func (suite *Suite) runAfterSuiteCleanup(numSpecsThatWillBeRun int) {
 		suite.processCurrentSpecReport()
 	}
 
-	afterSuiteCleanup := suite.cleanupNodes.WithType(types.NodeTypeCleanupAfterSuite).Reverse()
+	afterSuiteCleanup := suite.cleanupNodesWithType(types.NodeTypeCleanupAfterSuite).Reverse()
 	if len(afterSuiteCleanup) > 0 {
 		for _, cleanupNode := range afterSuiteCleanup {
 			suite.selectiveLock.Lock()
@@ -838,7 +846,9 @@ func (suite *Suite) runReportSuiteNode(node Node, report types.Report) {
 
 func (suite *Suite) runNode(node Node, specDeadline time.Time, text string) (types.SpecState, types.Failure) {
 	if node.NodeType.Is(types.NodeTypeCleanupAfterEach | types.NodeTypeCleanupAfterAll | types.NodeTypeCleanupAfterSuite) {
+		suite.selectiveLock.Lock()
 		suite.cleanupNodes = suite.cleanupNodes.WithoutNode(node)
+		suite.selectiveLock.Unlock()
 	}
 
 	interruptStatus := suite.interruptHandler.Status()
-- 
2.43.0


From ee5047ae1dbe3de9feda52fd5f49d1d0b788da39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:41 +0000
Subject: [PATCH 32/51] fix: attached progress reporters can use Ginkgo

The functions passed to AttachProgressReporter were called while holding
the suite's lock: one that calls CurrentSpecReport, By, AddReportEntry, ...
blocked until ProgressReporterDeadline elapsed, together with the suite.
---
 internal/suite.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/internal/suite.go b/internal/suite.go
index e2cfebe..64ee384 100644
--- a/internal/suite.go
+++ b/internal/suite.go
@@ -437,15 +437,20 @@ func (suite *Suite) AddReportEntry(entry ReportEntry) error {
 func (suite *Suite) generateProgressReport(fullReport bool) types.ProgressReport {
 	timelineLocation := suite.generateTimelineLocation()
 	suite.selectiveLock.Lock()
-	defer suite.selectiveLock.Unlock()
+	currentSpecContext := suite.currentSpecContext
+	suite.selectiveLock.Unlock()
 
+	// we query user code, which might itself need the lock (e.g. to call CurrentSpecReport), before we lock
 	deadline, cancel := context.WithTimeout(context.Background(), ProgressReporterDeadline)
 	defer cancel()
 	var additionalReports []string
-	if suite.currentSpecContext != nil {
-		additionalReports = append(additionalReports, suite.currentSpecContext.QueryProgressReporters(deadline, suite.failer)...)
+	if currentSpecContext != nil {
+		additionalReports = append(additionalReports, currentSpecContext.QueryProgressReporters(deadline, suite.failer)...)
 	}
 	additionalReports = append(additionalReports, suite.QueryProgressReporters(deadline, suite.failer)...)
+
+	suite.selectiveLock.Lock()
+	defer suite.selectiveLock.Unlock()
 	gwOutput := suite.currentSpecReport.CapturedGinkgoWriterOutput + string(suite.writer.Bytes())
 	pr, err := NewProgressReport(suite.isRunningInParallel(), suite.currentSpecReport, suite.currentNode, suite.currentNodeStartTime, suite.currentByStep, gwOutput, timelineLocation, additionalReports, suite.config.SourceRoots, fullReport)
 
-- 
2.43.0


From 272b10e8e37dfbf678ae472cd439b49ac2bd0eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:53 +0000
Subject: [PATCH 33/51] fix: a progress report does not crash when a source
 file is shorter than expected

The source around each line of interest is read when the report is
generated.  When the file had become shorter (it has been edited, another
file is found below --source-root, there are //line directives) the line
was out of range and the suite's process panicked.
---
 internal/progress_report.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/progress_report.go b/internal/progress_report.go
index 11269cf..ba4e724 100644
--- a/internal/progress_report.go
+++ b/internal/progress_report.go
@@ -279,6 +279,10 @@ func fetchSource(filename string, lineNumber int, span int, configuredSourceRoot
 	if startIndex < 0 {
 		startIndex = 0
 	}
+	if startIndex >= len(lines) {
+		// the file isn't the one the code was compiled from (e.g. it has been edited, or there are //line directives)
+		return []string{}, 0
+	}
 	if endIndex > len(lines) {
 		endIndex = len(lines)
 	}
-- 
2.43.0


From dd53953e1a232bbba99eef426cd74df5ba2f9104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:25 +0000
Subject: [PATCH 34/51] fix: a progress report can be generated while a
 goroutine is deep in recursion

The runtime omits the middle of deep stacks and prints a marker, which has
no file and line, in place of the omitted frames.  Parsing it failed and the
report lost all goroutines.
---
 internal/progress_report.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/progress_report.go b/internal/progress_report.go
index ba4e724..e03f0b8 100644
--- a/internal/progress_report.go
+++ b/internal/progress_report.go
@@ -219,6 +219,11 @@ func extractRunningGoroutines() ([]types.Goroutine, error) {
 			continue
 		}
 
+		//skip the marker that stands for the frames omitted from a deep stack (e.g. "...23 frames elided...")
+		if strings.HasPrefix(line, "...") {
+			continue
+		}
+
 		//if we are here we must be at a function call entry in the stack
 		functionCall := types.FunctionCall{
 			Function: strings.TrimPrefix(line, "created by "), // no need to track 'created by'
-- 
2.43.0


From ebdf416811495a31cc0054ef0ab577b3d46d5d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:40 +0000
Subject: [PATCH 35/51] fix: cleanups registered by an AfterAll run before
 those registered by a BeforeAll

---
 internal/group.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/group.go b/internal/group.go
index 403fafb..122ecd7 100644
--- a/internal/group.go
+++ b/internal/group.go
@@ -290,6 +290,11 @@ func (g *group) attemptSpec(isFinalAttempt bool, spec Spec) bool {
 			break
 		}
 
+		// a failing cleanup can make further teardown nodes run.  They run before any of the remaining cleanups, as the cleanups they register come first
+		if teardown := nodes.WithoutType(types.NodeTypeCleanupAfterEach | types.NodeTypeCleanupAfterAll); len(teardown) > 0 {
+			nodes = teardown
+		}
+
 		for _, node := range nodes {
 			afterNodeWasRun[node.ID] = true
 			state, failure := g.suite.runNode(node, deadline, spec.Nodes.BestTextFor(node))
-- 
2.43.0


From f087573497987921aff3ab41af6637e60132e5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:40 +0000
Subject: [PATCH 36/51] fix: GinkgoT().GinkgoRecover() recovers

---
 internal/testingtproxy/testing_t_proxy.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/testingtproxy/testing_t_proxy.go b/internal/testingtproxy/testing_t_proxy.go
index b4ecc7c..594ebac 100644
--- a/internal/testingtproxy/testing_t_proxy.go
+++ b/internal/testingtproxy/testing_t_proxy.go
@@ -211,7 +211,12 @@ func (t *ginkgoTestingTProxy) RenderTimeline() string {
 	return reporters.RenderTimeline(t.report(), false)
 }
 func (t *ginkgoTestingTProxy) GinkgoRecover() {
-	t.ginkgoRecover()
+	// recover() has no effect unless it is called by the deferred function itself
+	e := recover()
+	defer t.ginkgoRecover()
+	if e != nil {
+		panic(e)
+	}
 }
 func (t *ginkgoTestingTProxy) DeferCleanup(args ...any) {
 	finalArgs := []any{internal.Offset(1)}
-- 
2.43.0


From 36f73692aa7b0f8535c97aa82fe587b40cf43c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:26 +0000
Subject: [PATCH 37/51] fix: watch forgets a removed suite instead of crashing
 when it comes back

The package hashes of a removed suite are pruned, but the suite itself stayed
known: it was reported as removed on every pass, and when its tests were
restored computing its delta dereferenced a nil package hash.
---
 ginkgo/watch/delta_tracker.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ginkgo/watch/delta_tracker.go b/ginkgo/watch/delta_tracker.go
index 26418ac..3490c0d 100644
--- a/ginkgo/watch/delta_tracker.go
+++ b/ginkgo/watch/delta_tracker.go
@@ -37,13 +37,14 @@ func (d *DeltaTracker) Delta(suites internal.TestSuites) (delta Delta, errors Su
 
 	d.packageHashes.StartTrackingUsage()
 
-	for _, suite := range d.suites {
+	for path, suite := range d.suites {
 		if providedSuitePaths[suite.Suite.Path] {
 			if suite.Delta() > 0 {
 				delta.modifiedSuites = append(delta.modifiedSuites, suite)
 			}
 		} else {
 			delta.RemovedSuites = append(delta.RemovedSuites, suite)
+			delete(d.suites, path) // its package hash is pruned below: if the suite comes back it is a new suite
 		}
 	}
 
-- 
2.43.0


From 09be4cb71cb7f0f628b1440ff85962e1f36f35c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:40 +0000
Subject: [PATCH 38/51] fix: watch reruns a suite when files are removed,
 renamed or moved in

A package was recognised as changed when its set of files changed, but the time
of the change was the latest modification time of the files that are there now.
Removing or renaming a file, or moving in one with an older modification time,
therefore did not rerun anything, and a modification time in the future reran
the suite on every pass.
---
 ginkgo/watch/package_hash.go | 92 ++++++++++++++++++++++--------------
 1 file changed, 56 insertions(+), 36 deletions(-)

diff --git a/ginkgo/watch/package_hash.go b/ginkgo/watch/package_hash.go
index 0e6ae1f..e870519 100644
--- a/ginkgo/watch/package_hash.go
+++ b/ginkgo/watch/package_hash.go
@@ -1,7 +1,6 @@
 package watch
 
 import (
-	"fmt"
 	"os"
 	"regexp"
 	"strings"
@@ -16,53 +15,64 @@ type PackageHash struct {
 	Deleted          bool
 
 	path        string
-	codeHash    string
-	testHash    string
+	codeFiles   map[string]fileHash
+	testFiles   map[string]fileHash
+	checkedAt   time.Time
 	watchRegExp *regexp.Regexp
 }
 
+type fileHash struct {
+	size    int64
+	modTime int64
+}
+
 func NewPackageHash(path string, watchRegExp *regexp.Regexp) *PackageHash {
 	p := &PackageHash{
 		path:        path,
 		watchRegExp: watchRegExp,
 	}
 
-	p.codeHash, _, p.testHash, _, p.Deleted = p.computeHashes()
+	p.checkedAt = time.Now()
+	p.codeFiles, p.testFiles, p.Deleted = p.readFiles()
 
 	return p
 }
 
 func (p *PackageHash) CheckForChanges() bool {
-	codeHash, codeModifiedTime, testHash, testModifiedTime, deleted := p.computeHashes()
+	lastCheckedAt := p.checkedAt
+	p.checkedAt = time.Now()
+	codeFiles, testFiles, deleted := p.readFiles()
 
 	if deleted {
 		if !p.Deleted {
-			t := time.Now()
-			p.CodeModifiedTime = t
-			p.TestModifiedTime = t
+			p.CodeModifiedTime = p.checkedAt
+			p.TestModifiedTime = p.checkedAt
 		}
 		p.Deleted = true
 		return true
 	}
 
-	modified := false
 	p.Deleted = false
 
-	if p.codeHash != codeHash {
+	codeModifiedTime, codeModified := timeOfChange(p.codeFiles, codeFiles, lastCheckedAt, p.checkedAt)
+	testModifiedTime, testModified := timeOfChange(p.testFiles, testFiles, lastCheckedAt, p.checkedAt)
+
+	if codeModified {
 		p.CodeModifiedTime = codeModifiedTime
-		modified = true
+		if !testModified || codeModifiedTime.After(testModifiedTime) {
+			testModifiedTime = codeModifiedTime
+		}
 	}
-	if p.testHash != testHash {
+	if codeModified || testModified {
 		p.TestModifiedTime = testModifiedTime
-		modified = true
 	}
 
-	p.codeHash = codeHash
-	p.testHash = testHash
-	return modified
+	p.codeFiles = codeFiles
+	p.testFiles = testFiles
+	return codeModified || testModified
 }
 
-func (p *PackageHash) computeHashes() (codeHash string, codeModifiedTime time.Time, testHash string, testModifiedTime time.Time, deleted bool) {
+func (p *PackageHash) readFiles() (codeFiles map[string]fileHash, testFiles map[string]fileHash, deleted bool) {
 	entries, err := os.ReadDir(p.path)
 
 	if err != nil {
@@ -70,6 +80,8 @@ func (p *PackageHash) computeHashes() (codeHash string, codeModifiedTime time.Ti
 		return
 	}
 
+	codeFiles, testFiles = map[string]fileHash{}, map[string]fileHash{}
+
 	for _, entry := range entries {
 		if entry.IsDir() {
 			continue
@@ -84,34 +96,42 @@ func (p *PackageHash) computeHashes() (codeHash string, codeModifiedTime time.Ti
 			continue
 		}
 
+		hash := fileHash{size: info.Size(), modTime: info.ModTime().UnixNano()}
 		if goTestRegExp.MatchString(info.Name()) {
-			testHash += p.hashForFileInfo(info)
-			if info.ModTime().After(testModifiedTime) {
-				testModifiedTime = info.ModTime()
-			}
-			continue
+			testFiles[info.Name()] = hash
+		} else if p.watchRegExp.MatchString(info.Name()) {
+			codeFiles[info.Name()] = hash
 		}
+	}
 
-		if p.watchRegExp.MatchString(info.Name()) {
-			codeHash += p.hashForFileInfo(info)
-			if info.ModTime().After(codeModifiedTime) {
-				codeModifiedTime = info.ModTime()
-			}
+	return
+}
+
+// timeOfChange returns when the most recent change to the files was made.
+// The modification time of a file only tells when it lies between the two checks: a file that was
+// removed no longer has one, and a file that was renamed, moved in or restored keeps an older one.
+func timeOfChange(before, after map[string]fileHash, lastCheckedAt, checkedAt time.Time) (modifiedTime time.Time, modified bool) {
+	for name, hash := range after {
+		if old, ok := before[name]; ok && old == hash {
+			continue
+		}
+		t := time.Unix(0, hash.modTime)
+		if !t.After(lastCheckedAt) || t.After(checkedAt) {
+			t = checkedAt
 		}
+		if t.After(modifiedTime) {
+			modifiedTime = t
+		}
+		modified = true
 	}
-
-	testHash += codeHash
-	if codeModifiedTime.After(testModifiedTime) {
-		testModifiedTime = codeModifiedTime
+	for name := range before {
+		if _, ok := after[name]; !ok {
+			return checkedAt, true
+		}
 	}
-
 	return
 }
 
 func isHiddenFile(info os.FileInfo) bool {
 	return strings.HasPrefix(info.Name(), ".") || strings.HasPrefix(info.Name(), "_")
 }
-
-func (p *PackageHash) hashForFileInfo(info os.FileInfo) string {
-	return fmt.Sprintf("%s_%d_%d", info.Name(), info.Size(), info.ModTime().UnixNano())
-}
-- 
2.43.0


From 6b4dd38e3f2793ad39b2f70a27c9c2d950d9229c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 39/51] fix: watch reports a deleted package once and notices
 when it is restored

A deleted package was reported as changed on every pass for as long as it was
gone, and when it was moved back unchanged the suites that depend on it were
not rerun.
---
 ginkgo/watch/package_hash.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/ginkgo/watch/package_hash.go b/ginkgo/watch/package_hash.go
index e870519..f5ab4d4 100644
--- a/ginkgo/watch/package_hash.go
+++ b/ginkgo/watch/package_hash.go
@@ -43,17 +43,13 @@ func (p *PackageHash) CheckForChanges() bool {
 	p.checkedAt = time.Now()
 	codeFiles, testFiles, deleted := p.readFiles()
 
-	if deleted {
-		if !p.Deleted {
-			p.CodeModifiedTime = p.checkedAt
-			p.TestModifiedTime = p.checkedAt
-		}
-		p.Deleted = true
+	if deleted != p.Deleted {
+		p.CodeModifiedTime = p.checkedAt
+		p.TestModifiedTime = p.checkedAt
+		p.codeFiles, p.testFiles, p.Deleted = codeFiles, testFiles, deleted
 		return true
 	}
 
-	p.Deleted = false
-
 	codeModifiedTime, codeModified := timeOfChange(p.codeFiles, codeFiles, lastCheckedAt, p.checkedAt)
 	testModifiedTime, testModified := timeOfChange(p.testFiles, testFiles, lastCheckedAt, p.checkedAt)
 
-- 
2.43.0


From 2b45c314022c5698b2364bed71dc353ede3382b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:25 +0000
Subject: [PATCH 40/51] fix: watch keeps depending on a package that does not
 parse

When a dependency had a syntax error (or no Go files left) at the time a suite
was run it was dropped from the suite's dependencies, and repairing it did not
rerun the suite.
---
 ginkgo/watch/dependencies.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ginkgo/watch/dependencies.go b/ginkgo/watch/dependencies.go
index a34d943..cde09b3 100644
--- a/ginkgo/watch/dependencies.go
+++ b/ginkgo/watch/dependencies.go
@@ -74,8 +74,8 @@ func (d Dependencies) addDepsForDep(dep string, depth int) {
 
 func (d Dependencies) resolveAndAdd(deps []string, depth int) {
 	for _, dep := range deps {
-		pkg, err := build.Import(dep, ".", 0)
-		if err != nil {
+		pkg, _ := build.Import(dep, ".", 0) //ignore errors: a package that was found but does not parse is a dependency nonetheless
+		if pkg.Dir == "" {
 			continue
 		}
 		if !pkg.Goroot && (!ginkgoAndGomegaFilter.MatchString(pkg.Dir) || ginkgoIntegrationTestFilter.MatchString(pkg.Dir)) {
-- 
2.43.0


From 5fdd6d6f99fec9fcf7d47c264a9f0acd8c51efa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:26 +0000
Subject: [PATCH 41/51] fix: watch reruns a suite when a deleted dependency is
 restored

Running a suite while one of its dependencies is missing dropped the dependency,
so the suite failed to compile and did not run again once it was back.
---
 ginkgo/watch/suite.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ginkgo/watch/suite.go b/ginkgo/watch/suite.go
index 53272df..8f8901f 100644
--- a/ginkgo/watch/suite.go
+++ b/ginkgo/watch/suite.go
@@ -3,6 +3,7 @@ package watch
 import (
 	"fmt"
 	"math"
+	"os"
 	"time"
 
 	"github.com/onsi/ginkgo/v2/ginkgo/internal"
@@ -51,6 +52,12 @@ func (s *Suite) MarkAsRunAndRecomputedDependencies(maxDepth int) error {
 		return err
 	}
 
+	for dep, depth := range s.Dependencies.Dependencies() {
+		if _, err := os.Stat(dep); err != nil {
+			deps.addDepIfNotPresent(dep, depth) //imports of a deleted package cannot be resolved, but it may be restored
+		}
+	}
+
 	s.sharedPackageHashes.Add(s.Suite.Path)
 	for dep := range deps.Dependencies() {
 		s.sharedPackageHashes.Add(dep)
-- 
2.43.0


From 6542818975af439e2e2ff36245d480fe47941e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:10 +0000
Subject: [PATCH 42/51] fix: reject nodes that are passed nil instead of
 panicking

---
 internal/node.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/node.go b/internal/node.go
index 8096950..cb95180 100644
--- a/internal/node.go
+++ b/internal/node.go
@@ -227,6 +227,8 @@ func NewNode(deprecationTracker *types.DeprecationTracker, nodeType types.NodeTy
 	// now process the rest of the args
 	for _, arg := range args {
 		switch t := reflect.TypeOf(arg); {
+		case t == nil:
+			remainingArgs = append(remainingArgs, arg)
 		case t == reflect.TypeOf(float64(0)):
 			break // ignore deprecated timeouts
 		case t == reflect.TypeOf(Focus):
-- 
2.43.0


From c094d38ada934fd1d1cac4dcb67ae710dc1aba99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:10 +0000
Subject: [PATCH 43/51] fix: reject bodies that Ginkgo cannot call instead of
 panicking

---
 internal/node.go | 68 +++++++++++++++++++++++++++---------------------
 types/errors.go  |  4 +++
 2 files changed, 42 insertions(+), 30 deletions(-)

diff --git a/internal/node.go b/internal/node.go
index cb95180..f4f8f10 100644
--- a/internal/node.go
+++ b/internal/node.go
@@ -325,15 +325,24 @@ func NewNode(deprecationTracker *types.DeprecationTracker, nodeType types.NodeTy
 					trackedFunctionError = true
 					break
 				}
-				body := arg.(func())
+				body, ok := arg.(func())
+				if !ok {
+					appendError(types.GinkgoErrors.InvalidBodyTypeForContainer(t, node.CodeLocation, nodeType))
+					trackedFunctionError = true
+					break
+				}
 				node.Body = func(SpecContext) { body() }
 			} else if nodeType.Is(types.NodeTypeReportBeforeEach | types.NodeTypeReportAfterEach) {
 				if node.ReportEachBody == nil {
 					if fn, ok := arg.(func(types.SpecReport)); ok {
 						node.ReportEachBody = func(_ SpecContext, r types.SpecReport) { fn(r) }
-					} else {
-						node.ReportEachBody = arg.(func(SpecContext, types.SpecReport))
+					} else if fn, ok := arg.(func(SpecContext, types.SpecReport)); ok {
+						node.ReportEachBody = fn
 						node.HasContext = true
+					} else {
+						appendError(types.GinkgoErrors.InvalidBodyType(t, node.CodeLocation, nodeType))
+						trackedFunctionError = true
+						break
 					}
 				} else {
 					appendError(types.GinkgoErrors.MultipleBodyFunctions(node.CodeLocation, nodeType))
@@ -344,9 +353,13 @@ func NewNode(deprecationTracker *types.DeprecationTracker, nodeType types.NodeTy
 				if node.ReportSuiteBody == nil {
 					if fn, ok := arg.(func(types.Report)); ok {
 						node.ReportSuiteBody = func(_ SpecContext, r types.Report) { fn(r) }
-					} else {
-						node.ReportSuiteBody = arg.(func(SpecContext, types.Report))
+					} else if fn, ok := arg.(func(SpecContext, types.Report)); ok {
+						node.ReportSuiteBody = fn
 						node.HasContext = true
+					} else {
+						appendError(types.GinkgoErrors.InvalidBodyType(t, node.CodeLocation, nodeType))
+						trackedFunctionError = true
+						break
 					}
 				} else {
 					appendError(types.GinkgoErrors.MultipleBodyFunctions(node.CodeLocation, nodeType))
@@ -451,34 +464,29 @@ func NewNode(deprecationTracker *types.DeprecationTracker, nodeType types.NodeTy
 	return node, errors
 }
 
-var doneType = reflect.TypeOf(make(Done))
-
 func extractBodyFunction(deprecationTracker *types.DeprecationTracker, cl types.CodeLocation, arg any) (func(SpecContext), bool) {
-	t := reflect.TypeOf(arg)
-	if t.NumOut() > 0 || t.NumIn() > 1 {
-		return nil, false
+	switch body := arg.(type) {
+	case func():
+		return func(SpecContext) { body() }, false
+	case func(SpecContext):
+		return body, true
+	case func(context.Context):
+		return func(c SpecContext) { body(c) }, true
+	case func(Done):
+		deprecationTracker.TrackDeprecation(types.Deprecations.Async(), cl)
+		return func(SpecContext) { body(make(Done)) }, false
 	}
-	if t.NumIn() == 1 {
-		if t.In(0) == doneType {
-			deprecationTracker.TrackDeprecation(types.Deprecations.Async(), cl)
-			deprecatedAsyncBody := arg.(func(Done))
-			return func(SpecContext) { deprecatedAsyncBody(make(Done)) }, false
-		} else if t.In(0).Implements(specContextType) {
-			return arg.(func(SpecContext)), true
-		} else if t.In(0).Implements(contextType) {
-			body := arg.(func(context.Context))
-			return func(c SpecContext) { body(c) }, true
-		}
 
-		return nil, false
-	}
-
-	body := arg.(func())
-	return func(SpecContext) { body() }, false
+	return nil, false
 }
 
 var byteType = reflect.TypeOf([]byte{})
 
+// acceptsContext returns true if Ginkgo's SpecContext can be passed as a parameter of type t
+func acceptsContext(t reflect.Type) bool {
+	return t.Implements(contextType) && specContextType.AssignableTo(t)
+}
+
 func extractSynchronizedBeforeSuiteProc1Body(arg any) (func(SpecContext) []byte, bool) {
 	t := reflect.TypeOf(arg)
 	v := reflect.ValueOf(arg)
@@ -487,7 +495,7 @@ func extractSynchronizedBeforeSuiteProc1Body(arg any) (func(SpecContext) []byte,
 		return nil, false
 	} else if t.NumOut() == 1 && t.Out(0) != byteType {
 		return nil, false
-	} else if t.NumIn() == 1 && !t.In(0).Implements(contextType) {
+	} else if t.NumIn() == 1 && !acceptsContext(t.In(0)) {
 		return nil, false
 	}
 	hasContext := t.NumIn() == 1
@@ -512,11 +520,11 @@ func extractSynchronizedBeforeSuiteAllProcsBody(arg any) (func(SpecContext, []by
 	v := reflect.ValueOf(arg)
 	hasContext, hasByte := false, false
 
-	if t.NumOut() > 0 || t.NumIn() > 2 {
+	if t.NumOut() > 0 || t.NumIn() > 2 || t.IsVariadic() {
 		return nil, false
-	} else if t.NumIn() == 2 && t.In(0).Implements(contextType) && t.In(1) == byteType {
+	} else if t.NumIn() == 2 && acceptsContext(t.In(0)) && t.In(1) == byteType {
 		hasContext, hasByte = true, true
-	} else if t.NumIn() == 1 && t.In(0).Implements(contextType) {
+	} else if t.NumIn() == 1 && acceptsContext(t.In(0)) {
 		hasContext = true
 	} else if t.NumIn() == 1 && t.In(0) == byteType {
 		hasByte = true
diff --git a/types/errors.go b/types/errors.go
index c2796b5..da3fcdd 100644
--- a/types/errors.go
+++ b/types/errors.go
@@ -211,6 +211,10 @@ func (g ginkgoErrors) InvalidBodyType(t reflect.Type, cl CodeLocation, nodeType
 	mustGet := "{{bold}}func(){{/}}, {{bold}}func(ctx SpecContext){{/}}, or {{bold}}func(ctx context.Context){{/}}"
 	if nodeType.Is(NodeTypeContainer) {
 		mustGet = "{{bold}}func(){{/}}"
+	} else if nodeType.Is(NodeTypeReportBeforeEach | NodeTypeReportAfterEach) {
+		mustGet = "{{bold}}func(report SpecReport){{/}} or {{bold}}func(ctx SpecContext, report SpecReport){{/}}"
+	} else if nodeType.Is(NodeTypeReportBeforeSuite | NodeTypeReportAfterSuite) {
+		mustGet = "{{bold}}func(report Report){{/}} or {{bold}}func(ctx SpecContext, report Report){{/}}"
 	}
 	return GinkgoError{
 		Heading: "Invalid Function",
-- 
2.43.0


From c723beaf7fed079fb7b1ccda611f1a92180333e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:10 +0000
Subject: [PATCH 44/51] fix: reject reporting nodes that have no body

---
 internal/node.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/node.go b/internal/node.go
index f4f8f10..9c6bb3c 100644
--- a/internal/node.go
+++ b/internal/node.go
@@ -449,6 +449,14 @@ func NewNode(deprecationTracker *types.DeprecationTracker, nodeType types.NodeTy
 		appendError(types.GinkgoErrors.MissingBodyFunction(node.CodeLocation, nodeType))
 	}
 
+	if node.NodeType.Is(types.NodeTypeReportBeforeEach|types.NodeTypeReportAfterEach) && node.ReportEachBody == nil && !trackedFunctionError {
+		appendError(types.GinkgoErrors.MissingBodyFunction(node.CodeLocation, nodeType))
+	}
+
+	if node.NodeType.Is(types.NodeTypeReportBeforeSuite|types.NodeTypeReportAfterSuite) && node.ReportSuiteBody == nil && !trackedFunctionError {
+		appendError(types.GinkgoErrors.MissingBodyFunction(node.CodeLocation, nodeType))
+	}
+
 	for _, arg := range remainingArgs {
 		appendError(types.GinkgoErrors.UnknownDecorator(node.CodeLocation, nodeType, arg))
 	}
-- 
2.43.0


From be4dc8039288cda1e4dc586d9a762e4a8ef32679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:35 +0000
Subject: [PATCH 45/51] fix: DeferCleanup passes nil arguments along to the
 function

---
 internal/node.go | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/internal/node.go b/internal/node.go
index 9c6bb3c..7563f37 100644
--- a/internal/node.go
+++ b/internal/node.go
@@ -580,21 +580,28 @@ func NewCleanupNode(deprecationTracker *types.DeprecationTracker, fail func(stri
 		return Node{}, []error{types.GinkgoErrors.DeferCleanupInvalidFunction(cl)}
 	}
 
-	callArgs := []reflect.Value{}
-	for _, arg := range remainingArgs[1:] {
-		callArgs = append(callArgs, reflect.ValueOf(arg))
-	}
-
 	hasContext := false
 	t := callback.Type()
 	if t.NumIn() > 0 {
 		if t.In(0).Implements(specContextType) {
 			hasContext = true
-		} else if t.In(0).Implements(contextType) && (len(callArgs) == 0 || !callArgs[0].Type().Implements(contextType)) {
+		} else if t.In(0).Implements(contextType) && (len(remainingArgs) == 1 || remainingArgs[1] == nil || !reflect.TypeOf(remainingArgs[1]).Implements(contextType)) {
 			hasContext = true
 		}
 	}
 
+	callArgs := []reflect.Value{}
+	for i, arg := range remainingArgs[1:] {
+		callArg := reflect.ValueOf(arg)
+		if arg == nil {
+			if hasContext {
+				i += 1
+			}
+			callArg = nilArgument(t, i)
+		}
+		callArgs = append(callArgs, callArg)
+	}
+
 	handleFailure := func(out []reflect.Value) {
 		if len(out) == 0 {
 			return
@@ -620,6 +627,23 @@ func NewCleanupNode(deprecationTracker *types.DeprecationTracker, fail func(stri
 	return NewNode(deprecationTracker, types.NodeTypeCleanupInvalid, "", finalArgs...)
 }
 
+// nilArgument returns the nil to pass as the i-th argument of a function of type t
+func nilArgument(t reflect.Type, i int) reflect.Value {
+	var in reflect.Type
+	if t.IsVariadic() && i >= t.NumIn()-1 {
+		in = t.In(t.NumIn() - 1).Elem()
+	} else if i < t.NumIn() {
+		in = t.In(i)
+	} else {
+		return reflect.Value{}
+	}
+	switch in.Kind() {
+	case reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Pointer, reflect.Slice, reflect.UnsafePointer:
+		return reflect.Zero(in)
+	}
+	return reflect.Value{}
+}
+
 func (n Node) IsZero() bool {
 	return n.ID == 0
 }
-- 
2.43.0


From 5be07155fb80105a35ed1458176faebdeff0b82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:57 +0000
Subject: [PATCH 46/51] fix: a node decorated with Serial more than once got
 the label Serial more than once

---
 internal/node.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/node.go b/internal/node.go
index 7563f37..62f59a0 100644
--- a/internal/node.go
+++ b/internal/node.go
@@ -244,6 +244,7 @@ func NewNode(deprecationTracker *types.DeprecationTracker, nodeType types.NodeTy
 		case t == reflect.TypeOf(Serial):
 			node.MarkedSerial = bool(arg.(serialType))
 			if !labelsSeen["Serial"] {
+				labelsSeen["Serial"] = true
 				node.Labels = append(node.Labels, "Serial")
 			}
 			if !nodeType.Is(types.NodeTypesForContainerAndIt) {
-- 
2.43.0


From 30ae54551d8493eefc0dc5ec96c5aee8bc745658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:30 +0000
Subject: [PATCH 47/51] fix: an Offset decoration of a table is relative to the
 call that takes it

---
 table_dsl.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/table_dsl.go b/table_dsl.go
index b9e0ca9..15cbc52 100644
--- a/table_dsl.go
+++ b/table_dsl.go
@@ -196,9 +196,27 @@ var XEntry = PEntry
 var contextType = reflect.TypeOf(new(context.Context)).Elem()
 var specContextType = reflect.TypeOf(new(SpecContext)).Elem()
 
+// resolveOffsets replaces Offsets by the CodeLocations they stand for: the nodes they decorate are constructed elsewhere.
+// baseOffset is the number of stack frames from resolveOffsets to the code that passed the Offsets in.
+func resolveOffsets(baseOffset int, args []any) []any {
+	out := make([]any, len(args))
+	for i, arg := range args {
+		switch v := arg.(type) {
+		case Offset:
+			out[i] = types.NewCodeLocation(baseOffset + int(v))
+		case []any:
+			out[i] = resolveOffsets(baseOffset+1, v)
+		default:
+			out[i] = arg
+		}
+	}
+	return out
+}
+
 func generateTable(description string, isSubtree bool, args ...any) {
 	GinkgoHelper()
 	cl := types.NewCodeLocation(0)
+	args = resolveOffsets(3, args)
 	containerNodeArgs := []any{cl}
 
 	entries := []TableEntry{}
-- 
2.43.0


From 849eb52932bfd94b71f6ef3d606ce9b267357248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:20 +0000
Subject: [PATCH 48/51] fix: cleanups registered through GinkgoTB and TempDir
 are located at the user's call

---
 internal/testingtproxy/testing_t_proxy.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/internal/testingtproxy/testing_t_proxy.go b/internal/testingtproxy/testing_t_proxy.go
index 594ebac..d4fb64e 100644
--- a/internal/testingtproxy/testing_t_proxy.go
+++ b/internal/testingtproxy/testing_t_proxy.go
@@ -64,40 +64,40 @@ type ginkgoTestingTProxy struct {
 // basic testing.T support
 
 func (t *ginkgoTestingTProxy) Cleanup(f func()) {
-	t.cleanup(f, internal.Offset(1))
+	t.cleanup(f, internal.Offset(t.offset))
 }
 
 func (t *ginkgoTestingTProxy) Setenv(key, value string) {
 	originalValue, exists := os.LookupEnv(key)
 	if exists {
-		t.cleanup(os.Setenv, key, originalValue, internal.Offset(1))
+		t.cleanup(os.Setenv, key, originalValue, internal.Offset(t.offset))
 	} else {
-		t.cleanup(os.Unsetenv, key, internal.Offset(1))
+		t.cleanup(os.Unsetenv, key, internal.Offset(t.offset))
 	}
 
 	err := os.Setenv(key, value)
 	if err != nil {
-		t.fail(fmt.Sprintf("Failed to set environment variable: %v", err), 1)
+		t.fail(fmt.Sprintf("Failed to set environment variable: %v", err), t.offset)
 	}
 }
 
 func (t *ginkgoTestingTProxy) Chdir(dir string) {
 	currentDir, err := os.Getwd()
 	if err != nil {
-		t.fail(fmt.Sprintf("Failed to get current directory: %v", err), 1)
+		t.fail(fmt.Sprintf("Failed to get current directory: %v", err), t.offset)
 	}
 
-	t.cleanup(os.Chdir, currentDir, internal.Offset(1))
+	t.cleanup(os.Chdir, currentDir, internal.Offset(t.offset))
 
 	err = os.Chdir(dir)
 	if err != nil {
-		t.fail(fmt.Sprintf("Failed to change directory: %v", err), 1)
+		t.fail(fmt.Sprintf("Failed to change directory: %v", err), t.offset)
 	}
 }
 
 func (t *ginkgoTestingTProxy) Context() context.Context {
 	ctx, cancel := context.WithCancel(context.Background())
-	t.cleanup(cancel, internal.Offset(1))
+	t.cleanup(cancel, internal.Offset(t.offset))
 	return ctx
 }
 
@@ -168,10 +168,10 @@ func (t *ginkgoTestingTProxy) Skipped() bool {
 func (t *ginkgoTestingTProxy) TempDir() string {
 	tmpDir, err := os.MkdirTemp("", "ginkgo")
 	if err != nil {
-		t.fail(fmt.Sprintf("Failed to create temporary directory: %v", err), 1)
+		t.fail(fmt.Sprintf("Failed to create temporary directory: %v", err), t.offset)
 		return ""
 	}
-	t.cleanup(os.RemoveAll, tmpDir)
+	t.cleanup(os.RemoveAll, tmpDir, internal.Offset(t.offset))
 
 	return tmpDir
 }
-- 
2.43.0


From deb0cb355ff534f5e9bb9693c2922be9779f51f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:48 +0000
Subject: [PATCH 49/51] fix: PruneStack mixes up functions and positions when
 the runtime has elided frames

---
 types/code_location.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/types/code_location.go b/types/code_location.go
index 57e8751..ac215bf 100644
--- a/types/code_location.go
+++ b/types/code_location.go
@@ -147,11 +147,17 @@ func PruneStack(fullStackTrace string, skip int) string {
 		prunedStack = stack
 	} else {
 		re := regexp.MustCompile(`\/ginkgo\/|\/pkg\/testing\/|\/pkg\/runtime\/`)
-		for i := 0; i < len(stack)/2; i++ {
+		for i := 0; i+1 < len(stack); i += 2 {
+			if strings.HasPrefix(stack[i], "...") {
+				// The runtime elides frames of deep stacks: the line that says so stands on its own.
+				prunedStack = append(prunedStack, stack[i])
+				i--
+				continue
+			}
 			// We filter out based on the source code file name.
-			if !re.MatchString(stack[i*2+1]) {
-				prunedStack = append(prunedStack, stack[i*2])
-				prunedStack = append(prunedStack, stack[i*2+1])
+			if !re.MatchString(stack[i+1]) {
+				prunedStack = append(prunedStack, stack[i])
+				prunedStack = append(prunedStack, stack[i+1])
 			}
 		}
 	}
-- 
2.43.0


From c563a509ea18edd3d3fcf0d1353a47d8779f219e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:12 +0000
Subject: [PATCH 50/51] fix: locations behind more than 40 nested helpers were
 empty

---
 types/code_location.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/types/code_location.go b/types/code_location.go
index ac215bf..acd4a16 100644
--- a/types/code_location.go
+++ b/types/code_location.go
@@ -71,6 +71,10 @@ func (c *codeLocationLocator) hasHelper(name string) bool {
 func (c *codeLocationLocator) getCodeLocation(skip int) CodeLocation {
 	pc := make([]uintptr, 40)
 	n := runtime.Callers(skip+2, pc)
+	for n == len(pc) { // there may be more frames: helpers can nest arbitrarily deep
+		pc = make([]uintptr, 2*len(pc))
+		n = runtime.Callers(skip+2, pc)
+	}
 	if n == 0 {
 		return CodeLocation{}
 	}
-- 
2.43.0


From 71884657f2067f642c7db7a6c383b0458912688a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:31 +0000
Subject: [PATCH 51/51] fix: ginkgo watch goes on when interrupted while it
 looks for changes or runs the last suite

---
 ginkgo/watch/watch_command.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ginkgo/watch/watch_command.go b/ginkgo/watch/watch_command.go
index fe1ca30..b1b7c0e 100644
--- a/ginkgo/watch/watch_command.go
+++ b/ginkgo/watch/watch_command.go
@@ -92,6 +92,10 @@ func (w *SpecWatcher) WatchSpecs(args []string, additionalArgs []string) {
 	ticker := time.NewTicker(time.Second)
 
 	for {
+		interruptStatus := w.interruptHandler.Status()
+		if interruptStatus.Interrupted() {
+			return
+		}
 		select {
 		case <-ticker.C:
 			suites := internal.FindSuites(args, w.cliConfig, false).WithoutState(internal.TestSuiteStateSkippedByFilter)
@@ -146,7 +150,7 @@ func (w *SpecWatcher) WatchSpecs(args []string, additionalArgs []string) {
 			for _, message := range messages {
 				fmt.Println(message)
 			}
-		case <-w.interruptHandler.Status().Channel:
+		case <-interruptStatus.Channel:
 			return
 		}
 	}
-- 
2.43.0

