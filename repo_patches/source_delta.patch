From 9b4bfb060338a2d9219988555c73510dbb36c632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:07 +0000
Subject: [PATCH 01/34] fix: MatchStandaloneJSON should not modify the config
 it is called on

Calling MatchStandaloneJSON through a Config stored ".json" as the extension of
that Config, so every later Match* call through it was looking at another file
(and concurrent calls were racing).
---
 snaps/matchStandaloneJSON.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/snaps/matchStandaloneJSON.go b/snaps/matchStandaloneJSON.go
index 701e81b..3b7729b 100644
--- a/snaps/matchStandaloneJSON.go
+++ b/snaps/matchStandaloneJSON.go
@@ -12,11 +12,13 @@ import (
 func (c *Config) MatchStandaloneJSON(t testingT, input any, matchers ...match.JSONMatcher) {
 	t.Helper()
 
-	if c.extension == "" {
-		c.extension = ".json"
+	// work on a copy, the default extension should not leak into the shared config
+	sc := *c
+	if sc.extension == "" {
+		sc.extension = ".json"
 	}
 
-	matchStandaloneJSON(c, t, input, matchers...)
+	matchStandaloneJSON(&sc, t, input, matchers...)
 }
 
 func MatchStandaloneJSON(t testingT, input any, matchers ...match.JSONMatcher) {
-- 
2.43.0


From 362c6e2547ee95f8922a840c24ee997cb636e07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:07 +0000
Subject: [PATCH 02/34] fix: json matchers should not write on the bytes passed
 by the caller

ReplaceInPlace makes sjson reuse the input's backing array when the new value
fits, modifying the []byte given to MatchJSON.
---
 match/utils.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/match/utils.go b/match/utils.go
index a1cabb2..32582c1 100644
--- a/match/utils.go
+++ b/match/utils.go
@@ -9,8 +9,7 @@ import (
 var (
 	errPathNotFound = errors.New("path does not exist")
 	setJSONOptions  = &sjson.Options{
-		Optimistic:     true,
-		ReplaceInPlace: true,
+		Optimistic: true,
 	}
 )
 
-- 
2.43.0


From 46f25d63bdd62d46ce4f00d618e6fa1c12a0088b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:07 +0000
Subject: [PATCH 03/34] fix: hold the lock when adding a new snapshot

A snapshot added while a parallel test was updating the same file was lost or
corrupted the file, as updateSnapshot reads, truncates and rewrites it.
---
 snaps/snapshot.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index ee63b2c..40a733c 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -245,6 +245,11 @@ func getPrevSnapshot(testID, snapPath string) (string, int, error) {
 }
 
 func addNewSnapshot(testID, snapshot, snapPath string) error {
+	// a concurrent updateSnapshot rewrites the whole file, adding a snapshot
+	// in between would be lost
+	_m.Lock()
+	defer _m.Unlock()
+
 	if err := os.MkdirAll(filepath.Dir(snapPath), os.ModePerm); err != nil {
 		return err
 	}
-- 
2.43.0


From 2e3d289402bd4462d47f15c0ad34cd3f60a41b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:41 +0000
Subject: [PATCH 04/34] fix: report differences between invalid utf-8 bytes on
 single line snapshots

The inline diff works on runes and every invalid byte becomes U+FFFD, so two
texts differing only in such bytes had an empty diff and the call passed.
---
 snaps/diff.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/snaps/diff.go b/snaps/diff.go
index 19304e1..6f1956e 100644
--- a/snaps/diff.go
+++ b/snaps/diff.go
@@ -151,11 +151,20 @@ func intPadding(inserted, deleted int) (string, string) {
 }
 
 func singlelineDiff(expected, received string) (string, int, int) {
+	if expected == received {
+		return "", -1, -1
+	}
+
 	diffs := dmp.DiffCleanupSemantic(
 		dmp.DiffMain(expected, received, false),
 	)
+	// texts are compared as runes, so differences between invalid utf-8 bytes are not
+	// detected. In this case show the whole lines.
 	if len(diffs) == 1 && diffs[0].Type == diffEqual {
-		return "", -1, -1
+		diffs = []diffmatchpatch.Diff{
+			{Type: diffDelete, Text: strings.TrimSuffix(expected, "\n")},
+			{Type: diffInsert, Text: strings.TrimSuffix(received, "\n")},
+		}
 	}
 
 	var inserted, deleted int
-- 
2.43.0


From c347a54ea813a30a465485fb9e8b8efd70444d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:41 +0000
Subject: [PATCH 05/34] fix: sorting should not remove obsolete snapshots when
 not cleaning

With CleanOpts{Sort: true} a file that needed sorting was rewritten without its
obsolete snapshots even if UPDATE_SNAPS was not set.
---
 snaps/clean.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/snaps/clean.go b/snaps/clean.go
index 73761d1..85ca63f 100644
--- a/snaps/clean.go
+++ b/snaps/clean.go
@@ -251,8 +251,11 @@ func examineSnaps(
 				obsoleteTests = append(obsoleteTests, testID)
 				hasDiffs = true
 
-				removeSnapshot(s)
-				continue
+				// keep the snapshot if we are not allowed to remove it, the file might get sorted
+				if update {
+					removeSnapshot(s)
+					continue
+				}
 			}
 
 			for s.Scan() {
-- 
2.43.0


From 15694f87da4990336171def839513df8b9cfc2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:13 +0000
Subject: [PATCH 06/34] fix: lines of a snapshot looking like a test id should
 not shadow snapshots

Looking up (or updating) a snapshot matched any line of the file equal to the test
id, including the ones inside the value of another snapshot.
---
 snaps/snapshot.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index 40a733c..a99dfc2 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -222,6 +222,10 @@ func getPrevSnapshot(testID, snapPath string) (string, int, error) {
 		l := s.Bytes()
 		if !bytes.Equal(l, tid) {
 			lineNumber++
+			// a line inside another snapshot is never a test id
+			if isSnapshotHeader(l) {
+				lineNumber += copySnapshot(io.Discard, s)
+			}
 			continue
 		}
 		var snapshot strings.Builder
@@ -288,6 +292,10 @@ func updateSnapshot(testID, snapshot, snapPath string) error {
 		updatedSnapFile.Write(b)
 		updatedSnapFile.WriteByte('\n')
 		if !bytes.Equal(b, tid) {
+			// a line inside another snapshot is never a test id
+			if isSnapshotHeader(b) {
+				copySnapshot(&updatedSnapFile, s)
+			}
 			continue
 		}
 
@@ -323,6 +331,27 @@ func removeSnapshot(s *bufio.Scanner) {
 	}
 }
 
+// isSnapshotHeader checks if a line, outside of a snapshot, is the test id starting a snapshot.
+func isSnapshotHeader(b []byte) bool {
+	return bytes.HasPrefix(b, []byte("[")) && bytes.HasSuffix(b, []byte("]"))
+}
+
+// copySnapshot writes the rest of the snapshot, along with the end sequence, to w and returns
+// the number of lines.
+func copySnapshot(w io.Writer, s *bufio.Scanner) int {
+	lines := 0
+	for s.Scan() {
+		lines++
+		w.Write(s.Bytes())
+		w.Write([]byte("\n"))
+		if bytes.Equal(s.Bytes(), endSequenceByteSlice) {
+			break
+		}
+	}
+
+	return lines
+}
+
 func upsertStandaloneSnapshot(snapshot, snapPath string) error {
 	if err := os.MkdirAll(filepath.Dir(snapPath), os.ModePerm); err != nil {
 		return err
-- 
2.43.0


From 050f27be9178704be573ddbeaba11ec952f0cb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:13 +0000
Subject: [PATCH 07/34] fix: distinguish an escaped end sequence from the text
 used for escaping

"---" and "/-/-/-/" lines were stored, and compared, as the same text so changing
one to the other was not detected.
---
 snaps/snapshot.go | 15 +++++++++++++--
 snaps/utils.go    |  2 ++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index a99dfc2..87c2bee 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -421,19 +421,30 @@ func constructFilename(c *Config, callerFilename, tName string, isStandalone boo
 func unescapeEndChars(s string) string {
 	ss := strings.Split(s, "\n")
 	for idx, s := range ss {
-		if s == "/-/-/-/" {
+		if s == escapedEndSequence {
 			ss[idx] = endSequence
+		} else if isEscapedEndSequence(s) {
+			ss[idx] = s[1:]
 		}
 	}
 	return strings.Join(ss, "\n")
 }
 
+// escapeEndChars escapes the lines that would end a snapshot and, so that unescapeEndChars returns
+// always the initial string, the lines already looking like an escaped one.
 func escapeEndChars(s string) string {
 	ss := strings.Split(s, "\n")
 	for idx, s := range ss {
 		if s == endSequence {
-			ss[idx] = "/-/-/-/"
+			ss[idx] = escapedEndSequence
+		} else if isEscapedEndSequence(s) {
+			ss[idx] = "/" + s
 		}
 	}
 	return strings.Join(ss, "\n")
 }
+
+func isEscapedEndSequence(s string) bool {
+	return strings.HasSuffix(s, escapedEndSequence) &&
+		strings.Trim(strings.TrimSuffix(s, escapedEndSequence), "/") == ""
+}
diff --git a/snaps/utils.go b/snaps/utils.go
index 7c441ca..ee19a1f 100644
--- a/snaps/utils.go
+++ b/snaps/utils.go
@@ -39,6 +39,8 @@ const (
 
 	snapsExt    = ".snap"
 	endSequence = "---"
+
+	escapedEndSequence = "/-/-/-/"
 )
 
 type (
-- 
2.43.0


From 962cb5324cb593ec74794a1a5657c53ebceff543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:13 +0000
Subject: [PATCH 08/34] fix: Clean should not drop snapshots of fuzz tests and
 benchmarks

Only the [Test... snapshots were considered, so the rest were lost when the
file was rewritten for sorting or removing obsolete snapshots.
---
 snaps/clean.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/snaps/clean.go b/snaps/clean.go
index 85ca63f..9af019b 100644
--- a/snaps/clean.go
+++ b/snaps/clean.go
@@ -117,14 +117,14 @@ func Clean(m *testing.M, opts ...CleanOpts) {
 	}
 }
 
-// getTestID will return the testID if the line is in the form of [Test... - number]
+// getTestID will return the testID if the line is in the form of [<test-name> - number]
 func getTestID(b []byte) (string, bool) {
 	if len(b) == 0 {
 		return "", false
 	}
 
-	// needs to start with [Test and end with ]
-	if !bytes.HasPrefix(b, []byte("[Test")) || b[len(b)-1] != ']' {
+	// needs to start with [ and end with ], the name can belong to a test, fuzz test or benchmark
+	if !bytes.HasPrefix(b, []byte("[")) || b[len(b)-1] != ']' {
 		return "", false
 	}
 
-- 
2.43.0


From 0c9bbede2467373a3b86f4a9671f719cc2262573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:32 +0000
Subject: [PATCH 09/34] fix: Clean should not discard snapshots when executions
 of a test make different calls

With -count (or -cpu) the total of calls was divided by count, so when some executions
of a test made fewer calls, e.g. by failing early, snapshots matched in the rest of
them were considered obsolete.
---
 snaps/clean.go    | 12 +++++-------
 snaps/snapshot.go |  9 +++++++++
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/snaps/clean.go b/snaps/clean.go
index 9af019b..90b562f 100644
--- a/snaps/clean.go
+++ b/snaps/clean.go
@@ -8,7 +8,6 @@ import (
 	"os"
 	"path/filepath"
 	"slices"
-	"strconv"
 	"strings"
 	"sync"
 	"testing"
@@ -80,24 +79,23 @@ func Clean(m *testing.M, opts ...CleanOpts) {
 	// This is just for making sure Clean is called from TestMain
 	_ = m
 	runOnly := flag.Lookup("test.run").Value.String()
-	count, _ := strconv.Atoi(flag.Lookup("test.count").Value.String())
 	registeredStandaloneTests := occurrences(
-		standaloneTestsRegistry.cleanup,
-		count,
+		standaloneTestsRegistry.highest,
+		1,
 		standaloneOccurrenceFMT,
 	)
 
 	obsoleteFiles, usedFiles := examineFiles(
-		testsRegistry.cleanup,
+		testsRegistry.highest,
 		registeredStandaloneTests,
 		runOnly,
 		shouldClean && !isCI,
 	)
 	obsoleteTests, err := examineSnaps(
-		testsRegistry.cleanup,
+		testsRegistry.highest,
 		usedFiles,
 		runOnly,
-		count,
+		1,
 		shouldClean && !isCI,
 		opt.Sort && !isCI,
 	)
diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index 87c2bee..e6da419 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -134,6 +134,8 @@ func handleError(t testingT, err any) {
 type syncRegistry struct {
 	running map[string]map[string]int
 	cleanup map[string]map[string]int
+	// the highest number of snapshots in a single execution of a test
+	highest map[string]map[string]int
 	sync.Mutex
 }
 
@@ -145,11 +147,13 @@ func (s *syncRegistry) getTestID(snapPath, testName string) string {
 	if _, exists := s.running[snapPath]; !exists {
 		s.running[snapPath] = make(map[string]int)
 		s.cleanup[snapPath] = make(map[string]int)
+		s.highest[snapPath] = make(map[string]int)
 	}
 
 	s.running[snapPath][testName]++
 	s.cleanup[snapPath][testName]++
 	c := s.running[snapPath][testName]
+	s.highest[snapPath][testName] = max(c, s.highest[snapPath][testName])
 	s.Unlock()
 
 	return fmt.Sprintf("[%s - %d]", testName, c)
@@ -166,6 +170,7 @@ func newRegistry() *syncRegistry {
 	return &syncRegistry{
 		running: make(map[string]map[string]int),
 		cleanup: make(map[string]map[string]int),
+		highest: make(map[string]map[string]int),
 		Mutex:   sync.Mutex{},
 	}
 }
@@ -173,6 +178,8 @@ func newRegistry() *syncRegistry {
 type syncStandaloneRegistry struct {
 	running map[string]int
 	cleanup map[string]int
+	// the highest number of snapshots in a single execution of a test
+	highest map[string]int
 	sync.Mutex
 }
 
@@ -180,6 +187,7 @@ func newStandaloneRegistry() *syncStandaloneRegistry {
 	return &syncStandaloneRegistry{
 		running: make(map[string]int),
 		cleanup: make(map[string]int),
+		highest: make(map[string]int),
 		Mutex:   sync.Mutex{},
 	}
 }
@@ -190,6 +198,7 @@ func (s *syncStandaloneRegistry) getTestID(snapPath, snapPathRel string) (string
 	s.running[snapPath]++
 	s.cleanup[snapPath]++
 	c := s.running[snapPath]
+	s.highest[snapPath] = max(c, s.highest[snapPath])
 	s.Unlock()
 
 	return fmt.Sprintf(snapPath, c), fmt.Sprintf(snapPathRel, c)
-- 
2.43.0


From 5aeec9365269c40cb8c50341e29495685093b2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:51 +0000
Subject: [PATCH 10/34] fix: standalone snapshots with % in their path

The path of a standalone snapshot is used as a format string for adding its number,
so a % in the directory, the test name, the filename or the extension was producing
paths like TestSomething_100%!_(int=1)%!d(MISSING).snap
---
 snaps/snapshot.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index e6da419..ed284ad 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -399,10 +399,16 @@ func snapshotPath(c *Config, tName string, isStandalone bool) (string, string) {
 		dir = filepath.Join(filepath.Dir(callerFilename), c.snapsDir)
 	}
 
+	base := filepath.Dir(callerFilename)
+	if isStandalone {
+		// standalone paths are format strings, see constructFilename
+		dir, base = escapeFormat(dir), escapeFormat(base)
+	}
+
 	snapPath := filepath.Join(dir, constructFilename(c, callerFilename, tName, isStandalone))
 	snapPathRel := snapPath
 	if !isTrimBathBuild {
-		snapPathRel, _ = filepath.Rel(filepath.Dir(callerFilename), snapPath)
+		snapPathRel, _ = filepath.Rel(base, snapPath)
 	}
 
 	return snapPath, snapPathRel
@@ -420,11 +426,15 @@ func constructFilename(c *Config, callerFilename, tName string, isStandalone boo
 	}
 
 	if isStandalone {
-		filename += "_%d"
+		return escapeFormat(filename) + "_%d" + snapsExt + escapeFormat(c.extension)
 	}
-	filename += snapsExt + c.extension
 
-	return filename
+	return filename + snapsExt + c.extension
+}
+
+// escapeFormat escapes s so it can be part of a format string.
+func escapeFormat(s string) string {
+	return strings.ReplaceAll(s, "%", "%%")
 }
 
 func unescapeEndChars(s string) string {
-- 
2.43.0


From 380a12630875f0e97ec8490e58846cdd9bdec844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:29 +0000
Subject: [PATCH 11/34] fix: snapshots location should not depend on the
 working directory with -trimpath

With -trimpath relative directories were resolved from the current directory, so after
a test called os.Chdir snapshots were created (or missed) in another place.
---
 snaps/snapshot.go | 16 +++++++++-------
 snaps/utils.go    |  2 ++
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index ed284ad..03c182d 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -394,22 +394,24 @@ func snapshotPath(c *Config, tName string, isStandalone bool) (string, string) {
 	//  skips current func, the wrapper match* and the exported Match* func
 	callerFilename := baseCaller(3)
 
+	base := filepath.Dir(callerFilename)
+	if isTrimBathBuild {
+		// the caller's directory is not known, but it's the one go test starts from
+		base = startDir
+	}
+
 	dir := c.snapsDir
-	if !filepath.IsAbs(dir) && !isTrimBathBuild {
-		dir = filepath.Join(filepath.Dir(callerFilename), c.snapsDir)
+	if !filepath.IsAbs(dir) {
+		dir = filepath.Join(base, dir)
 	}
 
-	base := filepath.Dir(callerFilename)
 	if isStandalone {
 		// standalone paths are format strings, see constructFilename
 		dir, base = escapeFormat(dir), escapeFormat(base)
 	}
 
 	snapPath := filepath.Join(dir, constructFilename(c, callerFilename, tName, isStandalone))
-	snapPathRel := snapPath
-	if !isTrimBathBuild {
-		snapPathRel, _ = filepath.Rel(base, snapPath)
-	}
+	snapPathRel, _ := filepath.Rel(base, snapPath)
 
 	return snapPath, snapPathRel
 }
diff --git a/snaps/utils.go b/snaps/utils.go
index ee19a1f..054d69c 100644
--- a/snaps/utils.go
+++ b/snaps/utils.go
@@ -25,6 +25,8 @@ var (
 		snapsDir: "__snapshots__",
 	}
 	isTrimBathBuild = trimPathBuild()
+	// the directory the tests started from, a test can change it later
+	startDir, _ = os.Getwd()
 )
 
 const (
-- 
2.43.0


From 89b91b4e86f47cfa37b0c9cab27653a8378a4a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:29 +0000
Subject: [PATCH 12/34] fix: don't overwrite a snapshot file that could not be
 truncated

Ignoring the error left the end of the old content after the new snapshots.
---
 snaps/snapshot.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index 03c182d..8032d8e 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -325,8 +325,12 @@ func updateSnapshot(testID, snapshot, snapPath string) error {
 }
 
 func overwriteFile(f *os.File, b []byte) error {
-	f.Truncate(0)
-	f.Seek(0, io.SeekStart)
+	if err := f.Truncate(0); err != nil {
+		return err
+	}
+	if _, err := f.Seek(0, io.SeekStart); err != nil {
+		return err
+	}
 	_, err := f.Write(b)
 	return err
 }
-- 
2.43.0


From 97bd086bb9ccb20948642675f1baa8631e3ea55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:30 +0000
Subject: [PATCH 13/34] fix: a snapshot file that can't be read is not a
 missing one

Any error while reading was handled as snapshot not found, so a second snapshot with
the same test id was added or a standalone snapshot was replaced without UPDATE_SNAPS.
---
 snaps/snapshot.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index 8032d8e..0c9b330 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -3,6 +3,7 @@ package snaps
 import (
 	"bufio"
 	"bytes"
+	"errors"
 	"fmt"
 	"io"
 	"os"
@@ -219,9 +220,12 @@ func getPrevSnapshot(testID, snapPath string) (string, int, error) {
 	defer _m.RUnlock()
 
 	f, err := os.ReadFile(snapPath)
-	if err != nil {
+	if errors.Is(err, os.ErrNotExist) {
 		return "", -1, errSnapNotFound
 	}
+	if err != nil {
+		return "", -1, err
+	}
 
 	lineNumber := 1
 	tid := []byte(testID)
@@ -375,9 +379,12 @@ func upsertStandaloneSnapshot(snapshot, snapPath string) error {
 
 func getPrevStandaloneSnapshot(snapPath string) (string, error) {
 	f, err := os.ReadFile(snapPath)
-	if err != nil {
+	if errors.Is(err, os.ErrNotExist) {
 		return "", errSnapNotFound
 	}
+	if err != nil {
+		return "", err
+	}
 
 	return string(f), nil
 }
-- 
2.43.0


From bb990fa2802481a0b13043fe0cc0711c7f78e40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:58 +0000
Subject: [PATCH 14/34] fix: match -run pattern with test names as go test does

The whole pattern was matched against the whole test id, so snapshots of tests not
selected by -run were marked as obsolete, e.g. TestUser/login - 1 with -run login or
any test with -run 1.
---
 snaps/skip.go | 66 +++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 64 insertions(+), 2 deletions(-)

diff --git a/snaps/skip.go b/snaps/skip.go
index 7016257..8e15c4e 100644
--- a/snaps/skip.go
+++ b/snaps/skip.go
@@ -76,8 +76,70 @@ func testSkipped(testID, runOnly string) bool {
 		}
 	}
 
-	matched, _ := regexp.MatchString(runOnly, testID)
-	return !matched
+	return !testSelected(testName, runOnly)
+}
+
+// testSelected checks if a test is selected by the -run pattern. Like go test does, the pattern
+// is split by `|` and `/` and each element must match the corresponding element of the test name.
+func testSelected(testName, runOnly string) bool {
+	names := strings.Split(testName, "/")
+
+	for _, patterns := range splitRunOnly(runOnly) {
+		if len(patterns) > len(names) {
+			continue
+		}
+
+		selected := true
+		for i, pattern := range patterns {
+			matched, _ := regexp.MatchString(pattern, names[i])
+			selected = selected && matched
+		}
+		if selected {
+			return true
+		}
+	}
+
+	return false
+}
+
+// splitRunOnly returns the alternatives of the -run pattern split in elements. `|` and `/` inside
+// brackets or parentheses are part of an element.
+func splitRunOnly(runOnly string) [][]string {
+	alternatives := [][]string{{}}
+	start, brackets, parens := 0, 0, 0
+	addElement := func(end int) {
+		last := len(alternatives) - 1
+		// go test replaces spaces in test names
+		element := strings.ReplaceAll(runOnly[start:end], " ", "_")
+		alternatives[last] = append(alternatives[last], element)
+		start = end + 1
+	}
+
+	for i := 0; i < len(runOnly); i++ {
+		c := runOnly[i]
+		switch {
+		case c == '\\':
+			i++
+		case c == '[':
+			brackets++
+		case c == ']':
+			brackets = max(brackets-1, 0)
+		case brackets > 0:
+		case c == '(':
+			parens++
+		case c == ')':
+			parens--
+		case parens != 0:
+		case c == '/':
+			addElement(i)
+		case c == '|':
+			addElement(i)
+			alternatives = append(alternatives, []string{})
+		}
+	}
+	addElement(len(runOnly))
+
+	return alternatives
 }
 
 func isFileSkipped(dir, filename, runOnly string) bool {
-- 
2.43.0


From 14d186027bf851794fdb1d3fdd73642ccb425938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:03 +0000
Subject: [PATCH 15/34] fix: keep snapshot files containing snapshots of
 skipped tests

A file was obsolete when none of its snapshots were matched, even if its tests called
snaps.Skip or, for files with a custom name, were not selected by -run.
---
 snaps/clean.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/snaps/clean.go b/snaps/clean.go
index 90b562f..9b3141c 100644
--- a/snaps/clean.go
+++ b/snaps/clean.go
@@ -193,7 +193,7 @@ func examineFiles(
 				continue
 			}
 
-			if isFileSkipped(dir, content.Name(), runOnly) {
+			if isFileSkipped(dir, content.Name(), runOnly) || hasSkippedTests(snapPath, runOnly) {
 				continue
 			}
 
@@ -212,6 +212,31 @@ func examineFiles(
 	return obsolete, used
 }
 
+// hasSkippedTests checks if a snapshot file, not used in this run, contains snapshots of tests that
+// were skipped.
+func hasSkippedTests(snapPath, runOnly string) bool {
+	f, err := os.Open(snapPath)
+	if err != nil {
+		return false
+	}
+	defer f.Close()
+
+	s := snapshotScanner(f)
+	for s.Scan() {
+		testID, match := getTestID(s.Bytes())
+		if !match {
+			continue
+		}
+		if testSkipped(testID, runOnly) {
+			return true
+		}
+
+		removeSnapshot(s)
+	}
+
+	return false
+}
+
 func examineSnaps(
 	registry map[string]map[string]int,
 	used []string,
-- 
2.43.0


From 6be955025a029ddcaf761e72a9edea4509a8ed6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:25 +0000
Subject: [PATCH 16/34] fix: keep standalone snapshots of skipped tests

Standalone snapshot files of tests that called snaps.Skip, or were not selected by -run,
were always marked as obsolete and removed with UPDATE_SNAPS=clean.
---
 snaps/clean.go | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/snaps/clean.go b/snaps/clean.go
index 9b3141c..e92ffd5 100644
--- a/snaps/clean.go
+++ b/snaps/clean.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"regexp"
 	"slices"
 	"strings"
 	"sync"
@@ -16,7 +17,11 @@ import (
 	"github.com/maruel/natural"
 )
 
-var testEvents = newTestEvents()
+var (
+	testEvents = newTestEvents()
+	// <name>_<number>.snap<extension>
+	standaloneFileRegexp = regexp.MustCompile(`^(.+)_\d+(\.snap.*)$`)
+)
 
 const (
 	erred uint8 = iota
@@ -193,7 +198,8 @@ func examineFiles(
 				continue
 			}
 
-			if isFileSkipped(dir, content.Name(), runOnly) || hasSkippedTests(snapPath, runOnly) {
+			if isFileSkipped(dir, content.Name(), runOnly) || hasSkippedTests(snapPath, runOnly) ||
+				isStandaloneSkipped(snapPath, registeredStandaloneTests, runOnly) {
 				continue
 			}
 
@@ -237,6 +243,26 @@ func hasSkippedTests(snapPath, runOnly string) bool {
 	return false
 }
 
+// isStandaloneSkipped checks if a standalone snapshot file, not used in this run, belongs to a test
+// that was skipped.
+func isStandaloneSkipped(snapPath string, registeredStandaloneTests set, runOnly string) bool {
+	dir, name := filepath.Split(snapPath)
+	m := standaloneFileRegexp.FindStringSubmatch(name)
+	if m == nil {
+		return false
+	}
+
+	for _, skipped := range skippedTests.values {
+		if strings.HasPrefix(m[1]+"_", strings.ReplaceAll(skipped, "/", "_")+"_") {
+			return true
+		}
+	}
+
+	// the name of the test can't be restored from the file so with -run it's only known that
+	// it was not skipped if there are other snapshots of it
+	return runOnly != "" && !registeredStandaloneTests.Has(filepath.Join(dir, m[1]+"_1"+m[2]))
+}
+
 func examineSnaps(
 	registry map[string]map[string]int,
 	used []string,
-- 
2.43.0


From 145e61230de1e9488d13a4f6839b9219df3b87e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:44 +0000
Subject: [PATCH 17/34] fix: yaml paths that don't fit the document are missing
 paths

ErrOnMissingPath(false) was not respected for an index outside of a sequence or a
path going through a scalar.
---
 match/internal/yaml/yaml.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/match/internal/yaml/yaml.go b/match/internal/yaml/yaml.go
index 6b22881..f45260f 100644
--- a/match/internal/yaml/yaml.go
+++ b/match/internal/yaml/yaml.go
@@ -34,7 +34,9 @@ func Get(f *ast.File, p string) (*yaml.Path, ast.Node, bool, error) {
 
 	node, err := path.FilterFile(f)
 	if err != nil {
-		if errors.Is(err, yaml.ErrNotFoundNode) {
+		// ErrInvalidQuery is returned when the path doesn't fit the document e.g. an index
+		// outside of a sequence
+		if errors.Is(err, yaml.ErrNotFoundNode) || errors.Is(err, yaml.ErrInvalidQuery) {
 			return path, nil, false, nil
 		}
 
-- 
2.43.0


From 83072bee66c7bfac3e60a60af51a58ac97543b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:26 +0000
Subject: [PATCH 18/34] fix: keep unused snapshot files that can't be read

---
 snaps/clean.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/snaps/clean.go b/snaps/clean.go
index e92ffd5..eb6fd4e 100644
--- a/snaps/clean.go
+++ b/snaps/clean.go
@@ -223,7 +223,8 @@ func examineFiles(
 func hasSkippedTests(snapPath, runOnly string) bool {
 	f, err := os.Open(snapPath)
 	if err != nil {
-		return false
+		// the content is unknown so it can't be marked as obsolete
+		return true
 	}
 	defer f.Close()
 
@@ -240,7 +241,7 @@ func hasSkippedTests(snapPath, runOnly string) bool {
 		removeSnapshot(s)
 	}
 
-	return false
+	return s.Err() != nil
 }
 
 // isStandaloneSkipped checks if a standalone snapshot file, not used in this run, belongs to a test
-- 
2.43.0


From 3c0a9b5a66fc76b58491ed08bf9c6358ed4bf76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:20 +0000
Subject: [PATCH 19/34] fix: yaml matchers with multiline, mapping or ambiguous
 values should not break the document

---
 match/internal/yaml/yaml.go | 54 +++++++++++++++++++++++++++++++++++--
 1 file changed, 52 insertions(+), 2 deletions(-)

diff --git a/match/internal/yaml/yaml.go b/match/internal/yaml/yaml.go
index f45260f..33a99f4 100644
--- a/match/internal/yaml/yaml.go
+++ b/match/internal/yaml/yaml.go
@@ -3,6 +3,8 @@ package yaml
 import (
 	"bytes"
 	"errors"
+	"fmt"
+	"reflect"
 	"strings"
 
 	"github.com/goccy/go-yaml"
@@ -48,12 +50,60 @@ func Get(f *ast.File, p string) (*yaml.Path, ast.Node, bool, error) {
 
 // Update marshals the value and replaces the file at the path provided with the new value.
 func Update(f *ast.File, path *yaml.Path, value interface{}) error {
-	b, err := yaml.Marshal(value)
+	b, err := marshal(value)
 	if err != nil {
 		return err
 	}
 
-	return path.ReplaceWithReader(f, bytes.NewReader(b))
+	for _, doc := range f.Docs {
+		// replacing moves the node to its new column so documents can't share it
+		err := path.ReplaceWithReader(
+			&ast.File{Docs: []*ast.DocumentNode{doc}},
+			bytes.NewReader(b),
+		)
+		if err != nil {
+			return err
+		}
+	}
+
+	var out interface{}
+	if err := yaml.Unmarshal(MarshalFile(f, true), &out); err != nil {
+		return fmt.Errorf("replacing the value results in invalid yaml: %w", err)
+	}
+
+	return nil
+}
+
+// marshal returns the representation of a value that is going to be placed inside a document.
+//
+// Mappings and multiline strings can't be moved to another column and some strings are only
+// preserved when quoted, these values are represented on a single line.
+func marshal(value interface{}) ([]byte, error) {
+	block, err := yaml.Marshal(value)
+	if err != nil {
+		return nil, err
+	}
+	inline, err := yaml.MarshalWithOptions(value, yaml.JSON())
+	if err != nil {
+		return nil, err
+	}
+
+	var blockValue, inlineValue interface{}
+	if err := yaml.Unmarshal(inline, &inlineValue); err != nil {
+		return nil, err
+	}
+	if err := yaml.Unmarshal(block, &blockValue); err != nil ||
+		!reflect.DeepEqual(blockValue, inlineValue) {
+		return inline, nil
+	}
+
+	_, isMapping := inlineValue.(map[string]interface{})
+	isMultiline := bytes.Contains(inline, []byte(`\n`))
+	if isMapping || isMultiline {
+		return inline, nil
+	}
+
+	return block, nil
 }
 
 // MarshalFile returns the representation of the ast.File to a byte slice.
-- 
2.43.0


From 7e4c8d92c5c22e56ec7486b5207c82947e20de04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:41 +0000
Subject: [PATCH 20/34] fix: json matchers should replace the value at the path
 they found

---
 match/any.go    |  3 +--
 match/custom.go |  3 +--
 match/type.go   |  8 +-------
 match/utils.go  | 24 ++++++++++++++++++++++--
 4 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/match/any.go b/match/any.go
index 8947ed6..b211cf5 100644
--- a/match/any.go
+++ b/match/any.go
@@ -6,7 +6,6 @@ import (
 	"github.com/gkampitakis/go-snaps/match/internal/yaml"
 	"github.com/goccy/go-yaml/parser"
 	"github.com/tidwall/gjson"
-	"github.com/tidwall/sjson"
 )
 
 type anyMatcher struct {
@@ -104,7 +103,7 @@ func (a anyMatcher) JSON(b []byte) ([]byte, []MatcherError) {
 			continue
 		}
 
-		j, err := sjson.SetBytesOptions(json, path, a.placeholder, setJSONOptions)
+		j, err := setJSON(json, r, path, a.placeholder)
 		if err != nil {
 			errs = append(errs, a.matcherError(err, path))
 
diff --git a/match/custom.go b/match/custom.go
index bef2a6c..b1cdcf0 100644
--- a/match/custom.go
+++ b/match/custom.go
@@ -6,7 +6,6 @@ import (
 	"github.com/gkampitakis/go-snaps/match/internal/yaml"
 	"github.com/goccy/go-yaml/parser"
 	"github.com/tidwall/gjson"
-	"github.com/tidwall/sjson"
 )
 
 type customMatcher struct {
@@ -123,7 +122,7 @@ func (c *customMatcher) JSON(b []byte) ([]byte, []MatcherError) {
 		return nil, c.matcherError(err)
 	}
 
-	b, err = sjson.SetBytesOptions(b, c.path, value, setJSONOptions)
+	b, err = setJSON(b, r, c.path, value)
 	if err != nil {
 		return nil, c.matcherError(err)
 	}
diff --git a/match/type.go b/match/type.go
index 5f532e7..11c7db9 100644
--- a/match/type.go
+++ b/match/type.go
@@ -7,7 +7,6 @@ import (
 	"github.com/gkampitakis/go-snaps/match/internal/yaml"
 	"github.com/goccy/go-yaml/parser"
 	"github.com/tidwall/gjson"
-	"github.com/tidwall/sjson"
 )
 
 type typeMatcher[ExpectedType any] struct {
@@ -118,12 +117,7 @@ func (t typeMatcher[ExpectedType]) JSON(b []byte) ([]byte, []MatcherError) {
 			continue
 		}
 
-		j, err := sjson.SetBytesOptions(
-			json,
-			path,
-			typePlaceholder(r.Value()),
-			setJSONOptions,
-		)
+		j, err := setJSON(json, r, path, typePlaceholder(r.Value()))
 		if err != nil {
 			errs = append(errs, t.matcherError(err, path))
 
diff --git a/match/utils.go b/match/utils.go
index 32582c1..36d6192 100644
--- a/match/utils.go
+++ b/match/utils.go
@@ -2,13 +2,16 @@ package match
 
 import (
 	"errors"
+	"strings"
 
+	"github.com/tidwall/gjson"
 	"github.com/tidwall/sjson"
 )
 
 var (
-	errPathNotFound = errors.New("path does not exist")
-	setJSONOptions  = &sjson.Options{
+	errPathNotFound       = errors.New("path does not exist")
+	errPathNotReplaceable = errors.New("value at path can't be replaced")
+	setJSONOptions        = &sjson.Options{
 		Optimistic: true,
 	}
 )
@@ -27,3 +30,20 @@ type MatcherError struct {
 	Matcher string
 	Path    string
 }
+
+// setJSON replaces the value found by gjson at the path.
+func setJSON(json []byte, r gjson.Result, path string, value any) ([]byte, error) {
+	// gjson paths can describe values that are not part of the document e.g. the result of a modifier,
+	// these can't be replaced. Querying elements of an array without any match is fine.
+	if r.Index == 0 && len(r.Indexes) == 0 && r.Raw != "[]" {
+		return nil, errPathNotReplaceable
+	}
+
+	// sjson treats a leading colon of a key as syntax, gjson doesn't
+	if strings.HasPrefix(path, ":") {
+		path = `\` + path
+	}
+	path = strings.ReplaceAll(path, ".:", `.\:`)
+
+	return sjson.SetBytesOptions(json, path, value, setJSONOptions)
+}
-- 
2.43.0


From 599b00a4d334f85ea5a74a34ded674bcb275d317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:47 +0000
Subject: [PATCH 21/34] fix: yaml matchers should handle empty documents and
 paths without a match

---
 match/internal/yaml/yaml.go | 74 ++++++++++++++++++++++++++++++++++---
 1 file changed, 68 insertions(+), 6 deletions(-)

diff --git a/match/internal/yaml/yaml.go b/match/internal/yaml/yaml.go
index 33a99f4..421635a 100644
--- a/match/internal/yaml/yaml.go
+++ b/match/internal/yaml/yaml.go
@@ -34,18 +34,57 @@ func Get(f *ast.File, p string) (*yaml.Path, ast.Node, bool, error) {
 		return nil, nil, false, err
 	}
 
-	node, err := path.FilterFile(f)
+	for _, doc := range f.Docs {
+		node, exists, err := find(doc, path)
+		if exists || err != nil {
+			return path, node, exists, err
+		}
+	}
+
+	return path, nil, false, nil
+}
+
+func find(doc *ast.DocumentNode, path *yaml.Path) (ast.Node, bool, error) {
+	if doc.Body == nil {
+		return nil, false, nil
+	}
+
+	node, err := path.FilterNode(doc.Body)
 	if err != nil {
 		// ErrInvalidQuery is returned when the path doesn't fit the document e.g. an index
 		// outside of a sequence
-		if errors.Is(err, yaml.ErrNotFoundNode) || errors.Is(err, yaml.ErrInvalidQuery) {
-			return path, nil, false, nil
+		if errors.Is(err, yaml.ErrInvalidQuery) {
+			return nil, false, nil
 		}
 
-		return path, nil, false, err
+		return nil, false, err
 	}
 
-	return path, node, true, nil
+	return node, exists(node), nil
+}
+
+// exists returns if a path selected any node.
+//
+// Paths that select several nodes result in a sequence, elements that don't have the rest of the
+// path are left out.
+func exists(node ast.Node) bool {
+	sequence, ok := node.(*ast.SequenceNode)
+	if !ok {
+		return node != nil
+	}
+
+	values := make([]ast.Node, 0, len(sequence.Values))
+	for _, v := range sequence.Values {
+		if exists(v) {
+			values = append(values, v)
+		}
+	}
+
+	// an empty sequence that is part of the document has a path
+	isEmpty := len(sequence.Values) == 0 && sequence.GetPath() != ""
+	sequence.Values = values
+
+	return isEmpty || len(values) > 0
 }
 
 // Update marshals the value and replaces the file at the path provided with the new value.
@@ -56,6 +95,12 @@ func Update(f *ast.File, path *yaml.Path, value interface{}) error {
 	}
 
 	for _, doc := range f.Docs {
+		if _, exists, err := find(doc, path); err != nil {
+			return err
+		} else if !exists {
+			continue
+		}
+
 		// replacing moves the node to its new column so documents can't share it
 		err := path.ReplaceWithReader(
 			&ast.File{Docs: []*ast.DocumentNode{doc}},
@@ -111,7 +156,7 @@ func MarshalFile(f *ast.File, addNewLine bool) []byte {
 	docs := make([]string, 0, len(f.Docs))
 
 	for _, doc := range f.Docs {
-		docs = append(docs, doc.String())
+		docs = append(docs, documentString(doc))
 	}
 
 	if addNewLine {
@@ -120,3 +165,20 @@ func MarshalFile(f *ast.File, addNewLine bool) []byte {
 
 	return []byte(strings.Join(docs, "\n"))
 }
+
+func documentString(doc *ast.DocumentNode) string {
+	if doc.Body != nil {
+		return doc.String()
+	}
+
+	// an empty document can still have separators
+	var lines []string
+	if doc.Start != nil {
+		lines = append(lines, doc.Start.Value)
+	}
+	if doc.End != nil {
+		lines = append(lines, doc.End.Value)
+	}
+
+	return strings.Join(lines, "\n")
+}
-- 
2.43.0


From c97989861b7e42340ec571dd51684323bd9883fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:53 +0000
Subject: [PATCH 22/34] fix: yaml matchers should replace the root and keep
 values intact inside of flow collections

---
 match/internal/yaml/yaml.go | 115 ++++++++++++++++++++++++++----------
 1 file changed, 84 insertions(+), 31 deletions(-)

diff --git a/match/internal/yaml/yaml.go b/match/internal/yaml/yaml.go
index 421635a..fea3cb7 100644
--- a/match/internal/yaml/yaml.go
+++ b/match/internal/yaml/yaml.go
@@ -4,11 +4,11 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
-	"reflect"
 	"strings"
 
 	"github.com/goccy/go-yaml"
 	"github.com/goccy/go-yaml/ast"
+	"github.com/goccy/go-yaml/parser"
 )
 
 // GetValue returns the value of the node.
@@ -89,11 +89,44 @@ func exists(node ast.Node) bool {
 
 // Update marshals the value and replaces the file at the path provided with the new value.
 func Update(f *ast.File, path *yaml.Path, value interface{}) error {
-	b, err := marshal(value)
+	block, err := yaml.Marshal(value)
+	if err != nil {
+		return err
+	}
+	inline, err := yaml.MarshalWithOptions(value, yaml.JSON())
 	if err != nil {
 		return err
 	}
 
+	var blockValue, inlineValue interface{}
+	if err := yaml.Unmarshal(inline, &inlineValue); err != nil {
+		return err
+	}
+	err = yaml.Unmarshal(block, &blockValue)
+	isSame := err == nil && isAll(blockValue, inlineValue)
+
+	// Mappings and multiline strings can't be moved to another column and some strings are only
+	// preserved when quoted, these values are represented on a single line.
+	_, isMapping := inlineValue.(map[string]interface{})
+	isMultiline := bytes.Contains(inline, []byte(`\n`))
+	if isSame && !isMapping && !isMultiline {
+		if err := replace(f, path, block); err != nil {
+			return err
+		}
+		// inside of a flow collection more characters need to be quoted
+		if err := check(f, path, inlineValue); err == nil {
+			return nil
+		}
+	}
+
+	if err := replace(f, path, inline); err != nil {
+		return err
+	}
+
+	return check(f, path, inlineValue)
+}
+
+func replace(f *ast.File, path *yaml.Path, value []byte) error {
 	for _, doc := range f.Docs {
 		if _, exists, err := find(doc, path); err != nil {
 			return err
@@ -102,53 +135,73 @@ func Update(f *ast.File, path *yaml.Path, value interface{}) error {
 		}
 
 		// replacing moves the node to its new column so documents can't share it
-		err := path.ReplaceWithReader(
-			&ast.File{Docs: []*ast.DocumentNode{doc}},
-			bytes.NewReader(b),
-		)
+		v, err := parser.ParseBytes(value, 0)
 		if err != nil {
 			return err
 		}
-	}
 
-	var out interface{}
-	if err := yaml.Unmarshal(MarshalFile(f, true), &out); err != nil {
-		return fmt.Errorf("replacing the value results in invalid yaml: %w", err)
+		// the path can only replace descendants of the root
+		if path.String() == "$" {
+			doc.Body = v.Docs[0].Body
+			continue
+		}
+
+		err = path.ReplaceWithFile(&ast.File{Docs: []*ast.DocumentNode{doc}}, v)
+		if err != nil {
+			return err
+		}
 	}
 
 	return nil
 }
 
-// marshal returns the representation of a value that is going to be placed inside a document.
-//
-// Mappings and multiline strings can't be moved to another column and some strings are only
-// preserved when quoted, these values are represented on a single line.
-func marshal(value interface{}) ([]byte, error) {
-	block, err := yaml.Marshal(value)
-	if err != nil {
-		return nil, err
+// check returns an error if the file doesn't have the expected value at the path.
+func check(f *ast.File, path *yaml.Path, expected interface{}) error {
+	b := MarshalFile(f, true)
+
+	var out interface{}
+	if err := yaml.Unmarshal(b, &out); err != nil {
+		return fmt.Errorf("replacing the value results in invalid yaml: %w", err)
 	}
-	inline, err := yaml.MarshalWithOptions(value, yaml.JSON())
+
+	f, err := parser.ParseBytes(b, 0)
 	if err != nil {
-		return nil, err
+		return fmt.Errorf("replacing the value results in invalid yaml: %w", err)
 	}
 
-	var blockValue, inlineValue interface{}
-	if err := yaml.Unmarshal(inline, &inlineValue); err != nil {
-		return nil, err
+	for _, doc := range f.Docs {
+		node, exists, err := find(doc, path)
+		if err != nil {
+			return err
+		}
+		if !exists {
+			continue
+		}
+
+		value, err := GetValue(node)
+		if err != nil {
+			return err
+		}
+		if !isAll(value, expected) {
+			return errors.New("value at path can't be replaced")
+		}
 	}
-	if err := yaml.Unmarshal(block, &blockValue); err != nil ||
-		!reflect.DeepEqual(blockValue, inlineValue) {
-		return inline, nil
+
+	return nil
+}
+
+// isAll returns if the value, or every value when the path selected several, is the expected.
+func isAll(value, expected interface{}) bool {
+	if fmt.Sprintf("%#v", value) == fmt.Sprintf("%#v", expected) {
+		return true
 	}
 
-	_, isMapping := inlineValue.(map[string]interface{})
-	isMultiline := bytes.Contains(inline, []byte(`\n`))
-	if isMapping || isMultiline {
-		return inline, nil
+	values, ok := value.([]interface{})
+	for _, v := range values {
+		ok = ok && isAll(v, expected)
 	}
 
-	return block, nil
+	return ok
 }
 
 // MarshalFile returns the representation of the ast.File to a byte slice.
-- 
2.43.0


From c268f34214810b9886fae68eef7ddb0fd5af9518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 23/34] fix: yaml should be stored verbatim when matchers don't
 find any path

---
 match/any.go  | 6 ++++++
 match/type.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/match/any.go b/match/any.go
index b211cf5..53929a0 100644
--- a/match/any.go
+++ b/match/any.go
@@ -63,6 +63,7 @@ func (a anyMatcher) YAML(b []byte) ([]byte, []MatcherError) {
 		return b, []MatcherError{a.matcherError(err, "*")}
 	}
 
+	updated := false
 	for _, p := range a.paths {
 		path, _, exists, err := yaml.Get(f, p)
 		if err != nil {
@@ -83,6 +84,11 @@ func (a anyMatcher) YAML(b []byte) ([]byte, []MatcherError) {
 
 			continue
 		}
+		updated = true
+	}
+
+	if !updated {
+		return b, errs
 	}
 
 	return yaml.MarshalFile(f, bytes.HasSuffix(b, []byte("\n"))), errs
diff --git a/match/type.go b/match/type.go
index 11c7db9..5283237 100644
--- a/match/type.go
+++ b/match/type.go
@@ -58,6 +58,7 @@ func (t typeMatcher[ExpectedType]) YAML(b []byte) ([]byte, []MatcherError) {
 		return b, []MatcherError{t.matcherError(err, "*")}
 	}
 
+	updated := false
 	for _, p := range t.paths {
 		path, node, exists, err := yaml.Get(f, p)
 		if err != nil {
@@ -91,6 +92,11 @@ func (t typeMatcher[ExpectedType]) YAML(b []byte) ([]byte, []MatcherError) {
 
 			continue
 		}
+		updated = true
+	}
+
+	if !updated {
+		return b, errs
 	}
 
 	return yaml.MarshalFile(f, bytes.HasSuffix(b, []byte("\n"))), errs
-- 
2.43.0


From 49933bec86b93730b1c26367814d8695f873bc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:24 +0000
Subject: [PATCH 24/34] fix: yaml custom matchers should receive block scalars
 with their newlines

---
 match/internal/yaml/yaml.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/match/internal/yaml/yaml.go b/match/internal/yaml/yaml.go
index fea3cb7..efad528 100644
--- a/match/internal/yaml/yaml.go
+++ b/match/internal/yaml/yaml.go
@@ -13,13 +13,8 @@ import (
 
 // GetValue returns the value of the node.
 func GetValue(node ast.Node) (interface{}, error) {
-	data, err := node.MarshalYAML()
-	if err != nil {
-		return nil, err
-	}
-
 	var value interface{}
-	if err := yaml.Unmarshal(data, &value); err != nil {
+	if err := yaml.NodeToValue(node, &value); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From 5579bd0549e5766a0cdf3b8bb0126c022926cb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:13 +0000
Subject: [PATCH 25/34] fix: yaml matchers should replace values of keys with a
 comment

---
 match/internal/yaml/yaml.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/match/internal/yaml/yaml.go b/match/internal/yaml/yaml.go
index efad528..3db5b51 100644
--- a/match/internal/yaml/yaml.go
+++ b/match/internal/yaml/yaml.go
@@ -11,6 +11,8 @@ import (
 	"github.com/goccy/go-yaml/parser"
 )
 
+var errNotReplaceable = errors.New("value at path can't be replaced")
+
 // GetValue returns the value of the node.
 func GetValue(node ast.Node) (interface{}, error) {
 	var value interface{}
@@ -145,11 +147,28 @@ func replace(f *ast.File, path *yaml.Path, value []byte) error {
 		if err != nil {
 			return err
 		}
+		ast.Walk(keyComments{}, doc.Body)
 	}
 
 	return nil
 }
 
+// keyComments moves comments of keys to their value. Only values that start on the next line can
+// have the comment on the key and replacing them can place the new value next to the key.
+type keyComments struct{}
+
+func (k keyComments) Visit(node ast.Node) ast.Visitor {
+	if n, ok := node.(*ast.MappingValueNode); ok {
+		comment := n.Key.GetComment()
+		if _, isScalar := n.Value.(ast.ScalarNode); isScalar && comment != nil {
+			_ = n.Key.SetComment(nil)
+			_ = n.Value.SetComment(comment)
+		}
+	}
+
+	return k
+}
+
 // check returns an error if the file doesn't have the expected value at the path.
 func check(f *ast.File, path *yaml.Path, expected interface{}) error {
 	b := MarshalFile(f, true)
@@ -164,6 +183,7 @@ func check(f *ast.File, path *yaml.Path, expected interface{}) error {
 		return fmt.Errorf("replacing the value results in invalid yaml: %w", err)
 	}
 
+	found := false
 	for _, doc := range f.Docs {
 		node, exists, err := find(doc, path)
 		if err != nil {
@@ -172,15 +192,19 @@ func check(f *ast.File, path *yaml.Path, expected interface{}) error {
 		if !exists {
 			continue
 		}
+		found = true
 
 		value, err := GetValue(node)
 		if err != nil {
 			return err
 		}
 		if !isAll(value, expected) {
-			return errors.New("value at path can't be replaced")
+			return errNotReplaceable
 		}
 	}
+	if !found {
+		return errNotReplaceable
+	}
 
 	return nil
 }
-- 
2.43.0


From 73dc1ed6bac35a4f3d1e92fc7869b0a1c6caede4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:09 +0000
Subject: [PATCH 26/34] fix: yaml matchers shouldn't replace comments and flow
 placeholders of keys with a comment

---
 match/internal/yaml/yaml.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/match/internal/yaml/yaml.go b/match/internal/yaml/yaml.go
index 3db5b51..2d9f13e 100644
--- a/match/internal/yaml/yaml.go
+++ b/match/internal/yaml/yaml.go
@@ -42,7 +42,8 @@ func Get(f *ast.File, p string) (*yaml.Path, ast.Node, bool, error) {
 }
 
 func find(doc *ast.DocumentNode, path *yaml.Path) (ast.Node, bool, error) {
-	if doc.Body == nil {
+	// a document can consist of just comments
+	if doc.Body == nil || doc.Body.Type() == ast.CommentType {
 		return nil, false, nil
 	}
 
@@ -160,7 +161,7 @@ type keyComments struct{}
 func (k keyComments) Visit(node ast.Node) ast.Visitor {
 	if n, ok := node.(*ast.MappingValueNode); ok {
 		comment := n.Key.GetComment()
-		if _, isScalar := n.Value.(ast.ScalarNode); isScalar && comment != nil {
+		if comment != nil && isInline(n.Value) {
 			_ = n.Key.SetComment(nil)
 			_ = n.Value.SetComment(comment)
 		}
@@ -169,6 +170,19 @@ func (k keyComments) Visit(node ast.Node) ast.Visitor {
 	return k
 }
 
+func isInline(node ast.Node) bool {
+	switch n := node.(type) {
+	case ast.ScalarNode:
+		return true
+	case *ast.MappingNode:
+		return n.IsFlowStyle
+	case *ast.SequenceNode:
+		return n.IsFlowStyle
+	}
+
+	return false
+}
+
 // check returns an error if the file doesn't have the expected value at the path.
 func check(f *ast.File, path *yaml.Path, expected interface{}) error {
 	b := MarshalFile(f, true)
-- 
2.43.0


From 1ab861cc43bd616dff54ed2ee6981d278f95450b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:07 +0000
Subject: [PATCH 27/34] fix: yaml matchers should keep a key's comment with its
 key when a path selects several values

---
 match/internal/yaml/yaml.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/match/internal/yaml/yaml.go b/match/internal/yaml/yaml.go
index 2d9f13e..d8e851e 100644
--- a/match/internal/yaml/yaml.go
+++ b/match/internal/yaml/yaml.go
@@ -148,7 +148,7 @@ func replace(f *ast.File, path *yaml.Path, value []byte) error {
 		if err != nil {
 			return err
 		}
-		ast.Walk(keyComments{}, doc.Body)
+		ast.Walk(keyComments{v.Docs[0].Body, value}, doc.Body)
 	}
 
 	return nil
@@ -156,12 +156,21 @@ func replace(f *ast.File, path *yaml.Path, value []byte) error {
 
 // keyComments moves comments of keys to their value. Only values that start on the next line can
 // have the comment on the key and replacing them can place the new value next to the key.
-type keyComments struct{}
+type keyComments struct {
+	newValue ast.Node
+	value    []byte
+}
 
 func (k keyComments) Visit(node ast.Node) ast.Visitor {
 	if n, ok := node.(*ast.MappingValueNode); ok {
 		comment := n.Key.GetComment()
 		if comment != nil && isInline(n.Value) {
+			// a path that selects several nodes shares the new value, the comment belongs to one
+			if n.Value == k.newValue {
+				if v, err := parser.ParseBytes(k.value, 0); err == nil {
+					n.Value = v.Docs[0].Body
+				}
+			}
 			_ = n.Key.SetComment(nil)
 			_ = n.Value.SetComment(comment)
 		}
-- 
2.43.0


From dc96c9a33acb581fb1b67d18be6c79f7eb219c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:32 +0000
Subject: [PATCH 28/34] fix: match.Type stores the same placeholder for every
 value of an interface type

The placeholder contained the type of the value, so for match.Type[any] inputs
that differ only at the masked path didn't store the same snapshot.
---
 match/type.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/match/type.go b/match/type.go
index 5283237..dd2d6c8 100644
--- a/match/type.go
+++ b/match/type.go
@@ -3,6 +3,7 @@ package match
 import (
 	"bytes"
 	"fmt"
+	"reflect"
 
 	"github.com/gkampitakis/go-snaps/match/internal/yaml"
 	"github.com/goccy/go-yaml/parser"
@@ -87,7 +88,7 @@ func (t typeMatcher[ExpectedType]) YAML(b []byte) ([]byte, []MatcherError) {
 			continue
 		}
 
-		if err := yaml.Update(f, path, typePlaceholder(value)); err != nil {
+		if err := yaml.Update(f, path, typePlaceholder[ExpectedType]()); err != nil {
 			errs = append(errs, t.matcherError(err, p))
 
 			continue
@@ -123,7 +124,7 @@ func (t typeMatcher[ExpectedType]) JSON(b []byte) ([]byte, []MatcherError) {
 			continue
 		}
 
-		j, err := setJSON(json, r, path, typePlaceholder(r.Value()))
+		j, err := setJSON(json, r, path, typePlaceholder[ExpectedType]())
 		if err != nil {
 			errs = append(errs, t.matcherError(err, path))
 
@@ -144,6 +145,7 @@ func typeCheck[ExpectedType any](value interface{}) error {
 	return nil
 }
 
-func typePlaceholder(value interface{}) string {
-	return fmt.Sprintf("<Type:%T>", value)
+// typePlaceholder doesn't depend on the value, different values can satisfy an interface.
+func typePlaceholder[ExpectedType any]() string {
+	return fmt.Sprintf("<Type:%s>", reflect.TypeFor[ExpectedType]())
 }
-- 
2.43.0


From a866d53968317b2ce4f732c752e600903eed353c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:05 +0000
Subject: [PATCH 29/34] fix: matchers report values that JSON can't represent
 instead of storing invalid JSON

---
 match/utils.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/match/utils.go b/match/utils.go
index 36d6192..dfd4f8e 100644
--- a/match/utils.go
+++ b/match/utils.go
@@ -11,6 +11,7 @@ import (
 var (
 	errPathNotFound       = errors.New("path does not exist")
 	errPathNotReplaceable = errors.New("value at path can't be replaced")
+	errValueNotJSON       = errors.New("value can't be represented in json")
 	setJSONOptions        = &sjson.Options{
 		Optimistic: true,
 	}
@@ -45,5 +46,14 @@ func setJSON(json []byte, r gjson.Result, path string, value any) ([]byte, error
 	}
 	path = strings.ReplaceAll(path, ".:", `.\:`)
 
-	return sjson.SetBytesOptions(json, path, value, setJSONOptions)
+	b, err := sjson.SetBytesOptions(json, path, value, setJSONOptions)
+	if err != nil {
+		return nil, err
+	}
+	// sjson doesn't reject numbers that JSON can't represent e.g. math.Inf(1)
+	if !gjson.ValidBytes(b) {
+		return nil, errValueNotJSON
+	}
+
+	return b, nil
 }
-- 
2.43.0


From 2fc9af4557048d01c8c890d5113a336b52ef954f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:49 +0000
Subject: [PATCH 30/34] fix: json matchers should not change the values that
 queries of a path compare with

---
 match/utils.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/match/utils.go b/match/utils.go
index dfd4f8e..723e429 100644
--- a/match/utils.go
+++ b/match/utils.go
@@ -41,10 +41,12 @@ func setJSON(json []byte, r gjson.Result, path string, value any) ([]byte, error
 	}
 
 	// sjson treats a leading colon of a key as syntax, gjson doesn't
-	if strings.HasPrefix(path, ":") {
-		path = `\` + path
+	if !isComplexPath(path) {
+		if strings.HasPrefix(path, ":") {
+			path = `\` + path
+		}
+		path = strings.ReplaceAll(path, ".:", `.\:`)
 	}
-	path = strings.ReplaceAll(path, ".:", `.\:`)
 
 	b, err := sjson.SetBytesOptions(json, path, value, setJSONOptions)
 	if err != nil {
@@ -57,3 +59,17 @@ func setJSON(json []byte, r gjson.Result, path string, value any) ([]byte, error
 
 	return b, nil
 }
+
+// isComplexPath returns if a path has e.g. wildcards or queries, for these sjson uses gjson.
+func isComplexPath(path string) bool {
+	for i := 0; i < len(path); i++ {
+		switch path[i] {
+		case '\\':
+			i++
+		case '|', '#', '@', '*', '?':
+			return true
+		}
+	}
+
+	return false
+}
-- 
2.43.0


From a3fde7192c89fefffd19c5111e43751621e013ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:08 +0000
Subject: [PATCH 31/34] fix: json matchers should report paths whose values
 can't be located

---
 match/utils.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/match/utils.go b/match/utils.go
index 723e429..2d400f7 100644
--- a/match/utils.go
+++ b/match/utils.go
@@ -1,6 +1,7 @@
 package match
 
 import (
+	"bytes"
 	"errors"
 	"strings"
 
@@ -39,6 +40,15 @@ func setJSON(json []byte, r gjson.Result, path string, value any) ([]byte, error
 	if r.Index == 0 && len(r.Indexes) == 0 && r.Raw != "[]" {
 		return nil, errPathNotReplaceable
 	}
+	// for nested paths e.g. "a.#.b.#.c" the indexes don't point to the values
+	if len(r.Indexes) > 0 {
+		for i, value := range r.Array() {
+			if i >= len(r.Indexes) || r.Indexes[i] > len(json) ||
+				!bytes.HasPrefix(json[r.Indexes[i]:], []byte(value.Raw)) {
+				return nil, errPathNotReplaceable
+			}
+		}
+	}
 
 	// sjson treats a leading colon of a key as syntax, gjson doesn't
 	if !isComplexPath(path) {
@@ -48,6 +58,14 @@ func setJSON(json []byte, r gjson.Result, path string, value any) ([]byte, error
 		path = strings.ReplaceAll(path, ".:", `.\:`)
 	}
 
+	// a string can only take the place of a whole value
+	if len(r.Indexes) > 0 {
+		b, err := sjson.SetBytesOptions(json, path, "", setJSONOptions)
+		if err != nil || !gjson.ValidBytes(b) {
+			return nil, errPathNotReplaceable
+		}
+	}
+
 	b, err := sjson.SetBytesOptions(json, path, value, setJSONOptions)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From d35377b6c36071675f3a19dd2926d19c62db2e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:38 +0000
Subject: [PATCH 32/34] fix: Clean should not mix up snapshots with the same id

---
 snaps/clean.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/snaps/clean.go b/snaps/clean.go
index eb6fd4e..b45c6fb 100644
--- a/snaps/clean.go
+++ b/snaps/clean.go
@@ -273,7 +273,8 @@ func examineSnaps(
 	sort bool,
 ) ([]string, error) {
 	obsoleteTests := []string{}
-	tests := map[string]string{}
+	// a file, e.g. after a merge, can have more than one snapshot with the same id
+	tests := map[string][]string{}
 	data := bytes.Buffer{}
 	testIDs := []string{}
 
@@ -312,7 +313,7 @@ func examineSnaps(
 				line := s.Bytes()
 
 				if bytes.Equal(line, endSequenceByteSlice) {
-					tests[testID] = data.String()
+					tests[testID] = append(tests[testID], data.String())
 
 					data.Reset()
 					break
@@ -351,12 +352,12 @@ func examineSnaps(
 		}
 
 		for _, id := range testIDs {
-			test, ok := tests[id]
-			if !ok {
+			if len(tests[id]) == 0 {
 				continue
 			}
 
-			fmt.Fprintf(f, "\n[%s]\n%s%s\n", id, test, endSequence)
+			fmt.Fprintf(f, "\n[%s]\n%s%s\n", id, tests[id][0], endSequence)
+			tests[id] = tests[id][1:]
 		}
 		f.Close()
 
-- 
2.43.0


From cbd4697fb0145e2b51360554832f00885f47e33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:19 +0000
Subject: [PATCH 33/34] fix: a snapshot that could not be written should not
 swallow the ones added after it

---
 snaps/snapshot.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index 0c9b330..79d9aa8 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -277,8 +277,17 @@ func addNewSnapshot(testID, snapshot, snapPath string) error {
 	}
 	defer f.Close()
 
-	_, err = fmt.Fprintf(f, "\n%s\n%s\n---\n", testID, snapshot)
-	return err
+	i, err := f.Stat()
+	if err != nil {
+		return err
+	}
+
+	if _, err = fmt.Fprintf(f, "\n%s\n%s\n---\n", testID, snapshot); err != nil {
+		// a snapshot that is only partly written would swallow the ones added after it
+		return errors.Join(err, f.Truncate(i.Size()))
+	}
+
+	return nil
 }
 
 func updateSnapshot(testID, snapshot, snapPath string) error {
-- 
2.43.0


From 01084c4a2ed4c23421d839cb72ad8da8e4102708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:00 +0000
Subject: [PATCH 34/34] fix: a snapshot file that could not be rewritten should
 keep its snapshots

---
 snaps/clean.go    | 11 ++++++-----
 snaps/snapshot.go | 17 +++++++++++++++++
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/snaps/clean.go b/snaps/clean.go
index b45c6fb..0c3c591 100644
--- a/snaps/clean.go
+++ b/snaps/clean.go
@@ -347,18 +347,19 @@ func examineSnaps(
 			slices.SortFunc(testIDs, naturalSort)
 		}
 
-		if err := overwriteFile(f, nil); err != nil {
-			return nil, err
-		}
-
+		data.Reset()
 		for _, id := range testIDs {
 			if len(tests[id]) == 0 {
 				continue
 			}
 
-			fmt.Fprintf(f, "\n[%s]\n%s%s\n", id, tests[id][0], endSequence)
+			fmt.Fprintf(&data, "\n[%s]\n%s%s\n", id, tests[id][0], endSequence)
 			tests[id] = tests[id][1:]
 		}
+
+		if err := overwriteFile(f, data.Bytes()); err != nil {
+			return nil, err
+		}
 		f.Close()
 
 		clear(tests)
diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index 79d9aa8..9224caf 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -337,10 +337,27 @@ func updateSnapshot(testID, snapshot, snapPath string) error {
 	return overwriteFile(f, updatedSnapFile.Bytes())
 }
 
+// overwriteFile replaces the content of f with b. If that fails it brings the previous content back, as
+// it contains more snapshots than the one that changed.
 func overwriteFile(f *os.File, b []byte) error {
+	if _, err := f.Seek(0, io.SeekStart); err != nil {
+		return err
+	}
+	prev, err := io.ReadAll(f)
+	if err != nil {
+		return err
+	}
+
 	if err := f.Truncate(0); err != nil {
 		return err
 	}
+	if err := writeFromStart(f, b); err != nil {
+		return errors.Join(err, f.Truncate(0), writeFromStart(f, prev))
+	}
+	return nil
+}
+
+func writeFromStart(f *os.File, b []byte) error {
 	if _, err := f.Seek(0, io.SeekStart); err != nil {
 		return err
 	}
-- 
2.43.0

