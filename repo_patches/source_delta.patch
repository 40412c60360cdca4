From cf08c57a554eca0570893ec57d94c01131d3b82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 01/58] fix: do not panic in hist -l/-f when no commits are
 selected

---
 internal/concurrent/concurrent.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/concurrent/concurrent.go b/internal/concurrent/concurrent.go
index 02a55c1..6b99b8a 100644
--- a/internal/concurrent/concurrent.go
+++ b/internal/concurrent/concurrent.go
@@ -455,6 +455,10 @@ func TallyCommitsTimeline(
 		return nil, err
 	}
 
+	if len(buckets) == 0 {
+		return buckets, nil
+	}
+
 	if end.IsZero() {
 		end = buckets[len(buckets)-1].Time
 	}
-- 
2.43.0


From 46a19d0650f5f7b0ed82ad6bec7ec91c204ed2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 02/58] fix: keep tally errors when the git log iterator
 finishes cleanly

---
 internal/subcommands/hist.go  | 6 +++++-
 internal/subcommands/table.go | 6 +++++-
 internal/subcommands/tree.go  | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/internal/subcommands/hist.go b/internal/subcommands/hist.go
index 3c34db9..a010dac 100644
--- a/internal/subcommands/hist.go
+++ b/internal/subcommands/hist.go
@@ -120,7 +120,11 @@ func Hist(
 				populateDiffs,
 				configFiles,
 			)
-			defer func() { err = finish() }()
+			defer func() {
+				if finishErr := finish(); finishErr != nil {
+					err = finishErr
+				}
+			}()
 
 			buckets, err := tally.TallyCommitsTimeline(
 				commits,
diff --git a/internal/subcommands/table.go b/internal/subcommands/table.go
index 874a10f..3fbe81e 100644
--- a/internal/subcommands/table.go
+++ b/internal/subcommands/table.go
@@ -136,7 +136,11 @@ func Table(
 				populateDiffs,
 				configFiles,
 			)
-			defer func() { err = finish() }()
+			defer func() {
+				if finishErr := finish(); finishErr != nil {
+					err = finishErr
+				}
+			}()
 
 			tallies, err = tally.TallyCommits(commits, tallyOpts)
 			return err
diff --git a/internal/subcommands/tree.go b/internal/subcommands/tree.go
index 8a6d476..9b45edc 100644
--- a/internal/subcommands/tree.go
+++ b/internal/subcommands/tree.go
@@ -151,7 +151,11 @@ func Tree(
 				true,
 				configFiles,
 			)
-			defer func() { err = finish() }()
+			defer func() {
+				if finishErr := finish(); finishErr != nil {
+					err = finishErr
+				}
+			}()
 
 			root, err := tally.TallyCommitsTree(
 				commits,
-- 
2.43.0


From 78d8c3b21210329c2348b751f21405a40447ed91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 03/58] fix: count zero files for commits without a diff in
 hist -f

---
 internal/tally/tally.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tally/tally.go b/internal/tally/tally.go
index 6125247..1e7138f 100644
--- a/internal/tally/tally.go
+++ b/internal/tally/tally.go
@@ -139,7 +139,7 @@ func (t Tally) Final() FinalTally {
 	}
 
 	files := t.numTallied // Not using fileset? Fallback to numTallied
-	if len(t.fileset) > 0 {
+	if t.fileset != nil {
 		files = len(t.fileset)
 	}
 
-- 
2.43.0


From f44037c6f405a01d6133d29abbe0e7c687f4acb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 04/58] fix: keep cache usable after clearing a corrupt cache

---
 internal/cache/backends/gob.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/cache/backends/gob.go b/internal/cache/backends/gob.go
index 67b8fc9..1928ba7 100644
--- a/internal/cache/backends/gob.go
+++ b/internal/cache/backends/gob.go
@@ -245,7 +245,8 @@ func (b *GobBackend) Clear() error {
 		return err
 	}
 
-	return nil
+	// We might still add to the cache after clearing it
+	return os.MkdirAll(b.Dir, 0o700)
 }
 
 func GobCacheDir(prefix string, gitRootPath string) string {
-- 
2.43.0


From 92759fed7b0ba2867248255fe154c4d4b23968bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 05/58] fix: do not take renamed file path for start of next
 commit

---
 internal/git/parse.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/git/parse.go b/internal/git/parse.go
index 4efc7da..9034ef6 100644
--- a/internal/git/parse.go
+++ b/internal/git/parse.go
@@ -65,7 +65,10 @@ func ParseCommits(lines iter.Seq[string]) (iter.Seq[Commit], func() error) {
 		linesThisCommit := 0
 
 		for line := range lines {
-			done := linesThisCommit >= 6 && (len(line) == 0 || rev.IsFullHash(line))
+			// When diff is non-nil we are in the middle of a rename, so the line
+			// is a file path even if it looks like a hash.
+			done := linesThisCommit >= 6 && diff == nil &&
+				(len(line) == 0 || rev.IsFullHash(line))
 			if done {
 				if allowCommit(commit, now) {
 					if !yield(commit) {
-- 
2.43.0


From c9c7dc165fc3c98c7b5bea3dc1dd511d3a70ca37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 06/58] fix: honor ignored revs with trailing comments or
 uppercase hashes

---
 internal/git/config/files.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/git/config/files.go b/internal/git/config/files.go
index bd7789c..38ebf3e 100644
--- a/internal/git/config/files.go
+++ b/internal/git/config/files.go
@@ -84,9 +84,10 @@ func (sf SupplementalFiles) IgnoreRevs() (_ []string, err error) {
 
 	scanner := bufio.NewScanner(f)
 	for scanner.Scan() {
-		line := strings.TrimSpace(scanner.Text())
-
-		// Comments starting with "#" are allowed in the ignore revs file
+		// Comments starting with "#" are allowed in the ignore revs file, also
+		// following a hash. Git accepts uppercase hashes.
+		line, _, _ := strings.Cut(scanner.Text(), "#")
+		line = strings.ToLower(strings.TrimSpace(line))
 		if rev.IsFullHash(line) {
 			revs = append(revs, line)
 		}
-- 
2.43.0


From 710f1333478ec9ac9fbdb42784fe918e3ae23db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 07/58] fix: separate paths from options when running git
 ls-files

---
 internal/git/cmd/cmd.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index a6d5e35..d8fc43d 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -208,9 +208,9 @@ func RunLsFiles(ctx context.Context, pathspecs []string) (*Subprocess, error) {
 
 	var args []string
 	if len(pathspecs) > 0 {
-		args = slices.Concat(baseArgs, pathspecs)
-	} else {
 		args = slices.Concat(baseArgs, []string{"--"}, pathspecs)
+	} else {
+		args = baseArgs
 	}
 
 	needStdin := false
-- 
2.43.0


From b45a4d66f4a11cc6328164a5554fe8759c6d1cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 08/58] fix: format round thousands and millions like their
 neighbors

---
 internal/format/format.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/format/format.go b/internal/format/format.go
index 98c3a5d..dbb4a39 100644
--- a/internal/format/format.go
+++ b/internal/format/format.go
@@ -87,16 +87,16 @@ func Number(num int) string {
 		panic("cannot format negative number")
 	}
 
-	if num > 100_000_000 {
+	if num >= 100_000_000 {
 		return ">99m"
 	}
 
-	if num > 1_000_000 {
+	if num >= 1_000_000 {
 		mils := float32(num) / 1_000_000
 		return fmt.Sprintf("%.1fm", mils)
 	}
 
-	if num > 1_000 {
+	if num >= 1_000 {
 		ones := num % 1_000
 		thousands := num / 1_000
 		return fmt.Sprintf("%d,%03d", thousands, ones)
-- 
2.43.0


From f2556269e1264b2985a2ddf5d3093de7b33b1310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 09/58] fix: draw last visible tree entry as last when repo has
 empty commits

---
 internal/subcommands/tree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/subcommands/tree.go b/internal/subcommands/tree.go
index 9b45edc..ee29ca9 100644
--- a/internal/subcommands/tree.go
+++ b/internal/subcommands/tree.go
@@ -288,6 +288,10 @@ func toLines(
 	// Find last non-hidden child
 	finalChildIndex := 0
 	for i, p := range childPaths {
+		if p == tally.NoDiffPathname {
+			continue // Never shown
+		}
+
 		child := node.Children[p]
 		if child.InWorkTree || opts.showHidden {
 			finalChildIndex = i
-- 
2.43.0


From 1acf7a29bbe61a1e8359544ba09fe7e38048e0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 10/58] fix: report worker errors arriving together with the
 last result

---
 internal/concurrent/concurrent.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/concurrent/concurrent.go b/internal/concurrent/concurrent.go
index 6b99b8a..5fc2117 100644
--- a/internal/concurrent/concurrent.go
+++ b/internal/concurrent/concurrent.go
@@ -315,6 +315,14 @@ loop:
 		fmt.Printf("%s\r", pretty.EraseLine)
 	}
 
+	// The results channel is only closed after errs is closed, but we might
+	// have seen the former before reading the last error from the latter.
+	for err := range errs {
+		if err != nil {
+			return accumulator, fmt.Errorf("concurrent tally failed: %w", err)
+		}
+	}
+
 	// Check if there was a caching error (and wait for cacher to exit)
 	// We have to do this here in addition to above in case there is a caching
 	// error after the last chunk of work is handled.
-- 
2.43.0


From 10ed23ad38f98d0fb173e12f1803b4e1ea8c925c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 11/58] fix: do not hang in hist in time zones where some dates
 have no midnight

---
 internal/tally/bucket.go | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/internal/tally/bucket.go b/internal/tally/bucket.go
index 72416e4..caa5955 100644
--- a/internal/tally/bucket.go
+++ b/internal/tally/bucket.go
@@ -126,9 +126,27 @@ type Resolution struct {
 	next  func(time.Time) time.Time
 }
 
+// Returns the first instant of the given date in local time.
+//
+// In some time zones there are dates that have no midnight, because that is
+// when the clock is moved forward. time.Date() might then give us an instant
+// on the previous date.
+func startOfDate(year int, month time.Month, day int) time.Time {
+	t := time.Date(year, month, day, 0, 0, 0, 0, time.Local)
+
+	wantDate := time.Date(year, month, day, 0, 0, 0, 0, time.UTC)
+	y, m, d := t.Date()
+	if time.Date(y, m, d, 0, 0, 0, 0, time.UTC).Before(wantDate) {
+		_, transition := t.ZoneBounds()
+		return transition
+	}
+
+	return t
+}
+
 func applyDaily(t time.Time) time.Time {
 	year, month, day := t.Date()
-	return time.Date(year, month, day, 0, 0, 0, 0, time.Local)
+	return startOfDate(year, month, day)
 }
 
 var daily = Resolution{
@@ -136,7 +154,7 @@ var daily = Resolution{
 	next: func(t time.Time) time.Time {
 		t = applyDaily(t)
 		year, month, day := t.Date()
-		return time.Date(year, month, day+1, 0, 0, 0, 0, time.Local)
+		return startOfDate(year, month, day+1)
 	},
 	label: func(t time.Time) string {
 		return applyDaily(t).Format(time.DateOnly)
@@ -152,14 +170,14 @@ func CalcResolution(start time.Time, end time.Time) Resolution {
 		// Yearly buckets
 		apply := func(t time.Time) time.Time {
 			year, _, _ := t.Date()
-			return time.Date(year, 1, 1, 0, 0, 0, 0, time.Local)
+			return startOfDate(year, 1, 1)
 		}
 		return Resolution{
 			apply: apply,
 			next: func(t time.Time) time.Time {
 				t = apply(t)
 				year, _, _ := t.Date()
-				return time.Date(year+1, 1, 1, 0, 0, 0, 0, time.Local)
+				return startOfDate(year+1, 1, 1)
 			},
 			label: func(t time.Time) string {
 				return apply(t).Format("2006")
@@ -169,14 +187,14 @@ func CalcResolution(start time.Time, end time.Time) Resolution {
 		// Monthly buckets
 		apply := func(t time.Time) time.Time {
 			year, month, _ := t.Date()
-			return time.Date(year, month, 1, 0, 0, 0, 0, time.Local)
+			return startOfDate(year, month, 1)
 		}
 		return Resolution{
 			apply: apply,
 			next: func(t time.Time) time.Time {
 				t = apply(t)
 				year, month, _ := t.Date()
-				return time.Date(year, month+1, 1, 0, 0, 0, 0, time.Local)
+				return startOfDate(year, month+1, 1)
 			},
 			label: func(t time.Time) string {
 				return apply(t).Format("Jan 2006")
-- 
2.43.0


From 3e1d7020636ac34cfde321b5562ea1b5cecd6747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 12/58] fix: use current time zone for commits read from the
 cache

---
 internal/cache/backends/gob.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/cache/backends/gob.go b/internal/cache/backends/gob.go
index 1928ba7..7e4384c 100644
--- a/internal/cache/backends/gob.go
+++ b/internal/cache/backends/gob.go
@@ -179,6 +179,9 @@ func (b *GobBackend) Get(revs []string) (iter.Seq[git.Commit], func() error) {
 					}
 
 					seen[c.Hash] = true
+
+					// Time zone might have changed since we cached this commit
+					c.Date = c.Date.Local()
 					if !yield(c) {
 						return
 					}
-- 
2.43.0


From 45ac21850965326672acb4536c9fb5be59a4b6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 13/58] fix: do not panic when repo directory name is not a
 valid glob pattern

---
 internal/cache/backends/gob.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/cache/backends/gob.go b/internal/cache/backends/gob.go
index 7e4384c..108c8d9 100644
--- a/internal/cache/backends/gob.go
+++ b/internal/cache/backends/gob.go
@@ -77,12 +77,13 @@ func (b *GobBackend) Close() error {
 	}
 
 	// Remove any other dangling cache files
-	matches, err := filepath.Glob(filepath.Join(b.Dir, "*"))
+	entries, err := os.ReadDir(b.Dir)
 	if err != nil {
-		panic(err) // Bad pattern
+		return err
 	}
 
-	for _, match := range matches {
+	for _, entry := range entries {
+		match := filepath.Join(b.Dir, entry.Name())
 		if match == b.compressedPath() {
 			continue
 		}
-- 
2.43.0


From a276c1c2d669d46f7da98d5e75f538fc7c4b9f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:38 +0000
Subject: [PATCH 14/58] fix: let concurrent runs share the cache without
 corrupting it

---
 internal/cache/backends/gob.go | 67 ++++++++++++++++++++++++++++++----
 1 file changed, 59 insertions(+), 8 deletions(-)

diff --git a/internal/cache/backends/gob.go b/internal/cache/backends/gob.go
index 108c8d9..6eb08fc 100644
--- a/internal/cache/backends/gob.go
+++ b/internal/cache/backends/gob.go
@@ -15,6 +15,8 @@ import (
 	"os"
 	"path/filepath"
 	"slices"
+	"strings"
+	"time"
 
 	"github.com/sinclairtarget/git-who/internal/git"
 )
@@ -34,15 +36,23 @@ import (
 //
 // We also gzip the file when we're done using it to keep it even smaller on
 // disk.
+//
+// Other git-who processes might be using the cache for the same repo at the
+// same time. Each process works on its own uncompressed file and only ever
+// replaces the gzipped file as a whole.
 type GobBackend struct {
 	Dir       string
 	Path      string
+	workPath  string // Uncompressed file
 	wasOpened bool
 	isDirty   bool
 }
 
 const GobBackendName string = "gob"
 
+const tempSuffix = ".tmp"
+const maxTempAge = 24 * time.Hour
+
 func (b *GobBackend) Name() string {
 	return GobBackendName
 }
@@ -54,7 +64,23 @@ func (b *GobBackend) compressedPath() string {
 func (b *GobBackend) Open() error {
 	b.wasOpened = true
 
-	err := uncompress(b.compressedPath(), b.Path)
+	err := os.MkdirAll(b.Dir, 0o700)
+	if err != nil {
+		return err
+	}
+
+	f, err := os.CreateTemp(b.Dir, filepath.Base(b.Path)+".*"+tempSuffix)
+	if err != nil {
+		return err
+	}
+	b.workPath = f.Name()
+
+	err = f.Close()
+	if err != nil {
+		return err
+	}
+
+	err = uncompress(b.compressedPath(), b.workPath)
 	if err != nil {
 		return err
 	}
@@ -64,14 +90,14 @@ func (b *GobBackend) Open() error {
 
 func (b *GobBackend) Close() error {
 	if b.isDirty {
-		err := compress(b.Path, b.compressedPath())
+		err := compress(b.workPath, b.compressedPath())
 		if err != nil {
 			return err
 		}
 	}
 
 	// Remove uncompressed file
-	err := os.RemoveAll(b.Path)
+	err := os.RemoveAll(b.workPath)
 	if err != nil {
 		return err
 	}
@@ -88,8 +114,12 @@ func (b *GobBackend) Close() error {
 			continue
 		}
 
+		if isTempInUse(entry) {
+			continue
+		}
+
 		err := os.Remove(match)
-		if err != nil {
+		if err != nil && !errors.Is(err, fs.ErrNotExist) {
 			logger().Warn(
 				fmt.Sprintf("failed to delete old cache file: %v", err),
 			)
@@ -115,7 +145,7 @@ func (b *GobBackend) Get(revs []string) (iter.Seq[git.Commit], func() error) {
 		return iterErr
 	}
 
-	f, err := os.Open(b.Path)
+	f, err := os.Open(b.workPath)
 	if errors.Is(err, fs.ErrNotExist) {
 		// If file doesn't exist, don't treat as an error
 		return empty, finish
@@ -202,7 +232,7 @@ func (b *GobBackend) Add(commits []git.Commit) (err error) {
 	b.isDirty = true
 
 	f, err := os.OpenFile(
-		b.Path,
+		b.workPath,
 		os.O_WRONLY|os.O_APPEND|os.O_CREATE,
 		0644,
 	)
@@ -269,6 +299,17 @@ func GobCacheFilename(stateHash string) string {
 	return fmt.Sprintf("%s.gobs", stateHash)
 }
 
+// Temp files might belong to another running process. We assume anything old
+// was left behind by a process that did not get to clean up.
+func isTempInUse(entry fs.DirEntry) bool {
+	if !strings.HasSuffix(entry.Name(), tempSuffix) {
+		return false
+	}
+
+	info, err := entry.Info()
+	return err == nil && time.Since(info.ModTime()) < maxTempAge
+}
+
 // Uncompress gzipped file to regular location if it exists
 func uncompress(sourcePath string, targetPath string) error {
 	f, err := os.Open(sourcePath)
@@ -319,10 +360,15 @@ func compress(sourcePath string, targetPath string) error {
 	}
 	defer f.Close()
 
-	fout, err := os.OpenFile(targetPath, os.O_WRONLY|os.O_CREATE, 0644)
+	// Write to temp file and rename so that the target is always complete
+	fout, err := os.CreateTemp(
+		filepath.Dir(targetPath),
+		filepath.Base(targetPath)+".*"+tempSuffix,
+	)
 	if err != nil {
 		return err
 	}
+	defer os.Remove(fout.Name()) // Fails harmlessly once renamed
 	defer fout.Close()
 
 	r := bufio.NewReader(f)
@@ -341,5 +387,10 @@ func compress(sourcePath string, targetPath string) error {
 		return err
 	}
 
-	return nil
+	err = fout.Close()
+	if err != nil {
+		return err
+	}
+
+	return os.Rename(fout.Name(), targetPath)
 }
-- 
2.43.0


From ea945a8692d1c191123dcc44ceb19855f4652def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 15/58] fix: do not cache commits parsed from output of a
 failed git log

---
 internal/concurrent/cache.go  | 24 +++++-------------------
 internal/concurrent/worker.go | 11 +++++++++--
 2 files changed, 14 insertions(+), 21 deletions(-)

diff --git a/internal/concurrent/cache.go b/internal/concurrent/cache.go
index 80fe688..cf35629 100644
--- a/internal/concurrent/cache.go
+++ b/internal/concurrent/cache.go
@@ -6,33 +6,19 @@ import (
 	"github.com/sinclairtarget/git-who/internal/git"
 )
 
-const cacheChunkSize = chunkSize
-
-// Transparently splits off commits to the cache queue
+// Collects commits that should go to the cache queue while passing through the
+// iterator to someone else for consumption.
 func cacheTee(
 	commits iter.Seq[git.Commit],
-	toCache chan<- []git.Commit,
+	forCache *[]git.Commit,
 ) iter.Seq[git.Commit] {
-	chunk := []git.Commit{}
-
 	return func(yield func(git.Commit) bool) {
 		for c := range commits {
-			chunk = append(chunk, c)
-
-			if len(chunk) >= cacheChunkSize {
-				toCache <- chunk
-				chunk = []git.Commit{}
-			}
-
+			*forCache = append(*forCache, c)
 			if !yield(c) {
-				break
+				return
 			}
 		}
-
-		// Make sure to write any remainder
-		if len(chunk) > 0 {
-			toCache <- chunk
-		}
 	}
 }
 
diff --git a/internal/concurrent/worker.go b/internal/concurrent/worker.go
index a51908c..aa73476 100644
--- a/internal/concurrent/worker.go
+++ b/internal/concurrent/worker.go
@@ -211,7 +211,8 @@ loop:
 				return err
 			}
 
-			// Read parsed commits and enqueue for caching
+			// Read parsed commits, holding on to them for caching
+			forCache := []git.Commit{}
 			result, err := func() (_ T, err error) {
 				var result T
 
@@ -221,7 +222,7 @@ loop:
 				commits, finish := git.ParseCommits(lines)
 				defer func() { err = errors.Join(err, finish()) }()
 
-				commits = cacheTee(commits, toCache)
+				commits = cacheTee(commits, &forCache)
 
 				// Now that we're tallying, we DO care to only look at the file
 				// diffs under the given paths
@@ -242,6 +243,12 @@ loop:
 				return err
 			}
 
+			// Only cache commits once we know git log gave us all of its
+			// output. Otherwise we might cache a truncated commit.
+			if len(forCache) > 0 {
+				toCache <- forCache
+			}
+
 			results <- result
 		}
 	}
-- 
2.43.0


From 96428ef196d225b47a0917f9cd4d04114dc163ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 16/58] fix: exclude --nauthor matches anywhere and along with
 --author

---
 internal/git/cmd/filters.go | 40 +++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/internal/git/cmd/filters.go b/internal/git/cmd/filters.go
index f1f9cbb..196a26d 100644
--- a/internal/git/cmd/filters.go
+++ b/internal/git/cmd/filters.go
@@ -24,25 +24,35 @@ func (f LogFilters) ToArgs() []string {
 		args = append(args, "--until", f.Until)
 	}
 
-	for _, author := range f.Authors {
-		args = append(args, "--author", author)
-	}
-
 	if len(f.Nauthors) > 0 {
-		args = append(args, "--perl-regexp")
-
-		// Build regex pattern OR-ing together all the nauthors
-		var b strings.Builder
-		for i, nauthor := range f.Nauthors {
-			b.WriteString(nauthor)
-			if i < len(f.Nauthors)-1 {
-				b.WriteString("|")
-			}
+		// Git ORs together all the --author patterns it is given, so here we
+		// need a single pattern. It has to match none of the nauthors, and if
+		// there are any authors, at least one of those. Like with --author,
+		// the match can be anywhere in the name and email.
+		regex := fmt.Sprintf(`^(?!.*(?:%s))`, orPatterns(f.Nauthors))
+		if len(f.Authors) > 0 {
+			regex += fmt.Sprintf(`(?=.*(?:%s))`, orPatterns(f.Authors))
 		}
 
-		regex := fmt.Sprintf(`^((?!%s).*)$`, b.String())
-		args = append(args, "--author", regex)
+		args = append(args, "--perl-regexp", "--author", regex)
+	} else {
+		for _, author := range f.Authors {
+			args = append(args, "--author", author)
+		}
 	}
 
 	return args
 }
+
+// Build regex pattern OR-ing together all the given patterns
+func orPatterns(patterns []string) string {
+	var b strings.Builder
+	for i, pattern := range patterns {
+		b.WriteString(pattern)
+		if i < len(patterns)-1 {
+			b.WriteString("|")
+		}
+	}
+
+	return b.String()
+}
-- 
2.43.0


From f020b292888cee159197ccd60fd0519dbbb029ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 17/58] fix: apply mailmap when filtering by author in
 concurrent tally

---
 internal/concurrent/concurrent.go |  8 +++++++-
 internal/git/cmd/cmd.go           | 13 +++++++++++++
 internal/git/git.go               |  9 ++++++++-
 3 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/internal/concurrent/concurrent.go b/internal/concurrent/concurrent.go
index 5fc2117..c907523 100644
--- a/internal/concurrent/concurrent.go
+++ b/internal/concurrent/concurrent.go
@@ -144,7 +144,13 @@ func tallyFanOutFanIn[T combinable[T]](
 	var accumulator T
 
 	// -- Get rev list ---------------------------------------------------------
-	revs, err := git.RevList(ctx, whop.revspec, whop.pathspecs, whop.filters)
+	revs, err := git.RevList(
+		ctx,
+		whop.revspec,
+		whop.pathspecs,
+		whop.filters,
+		whop.useMailmap,
+	)
 	if err != nil {
 		return accumulator, err
 	}
diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index d8fc43d..d93f043 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -165,6 +165,7 @@ func RunRevList(
 	revs []string,
 	pathspecs []string,
 	filters LogFilters,
+	useMailmap bool,
 ) (*Subprocess, error) {
 	if len(revs) == 0 {
 		return nil, errors.New("git rev-list requires revision spec")
@@ -175,6 +176,18 @@ func RunRevList(
 		"--reverse",
 	}
 
+	if useMailmap {
+		// Filtering by author should look at the mapped names and emails, but
+		// git rev-list is not able to use the mailmap
+		baseArgs = []string{
+			"log",
+			"--pretty=format:%H",
+			"--reverse",
+			"--no-show-signature",
+			"--mailmap",
+		}
+	}
+
 	filterArgs := filters.ToArgs()
 
 	var args []string
diff --git a/internal/git/git.go b/internal/git/git.go
index de4a515..34502e3 100644
--- a/internal/git/git.go
+++ b/internal/git/git.go
@@ -119,6 +119,7 @@ func RevList(
 	revranges []string,
 	pathspecs []string,
 	filters cmd.LogFilters,
+	useMailmap bool,
 ) (_ []string, err error) {
 	defer func() {
 		if err != nil {
@@ -128,7 +129,13 @@ func RevList(
 
 	revs := []string{}
 
-	subprocess, err := cmd.RunRevList(ctx, revranges, pathspecs, filters)
+	subprocess, err := cmd.RunRevList(
+		ctx,
+		revranges,
+		pathspecs,
+		filters,
+		useMailmap,
+	)
 	if err != nil {
 		return revs, err
 	}
-- 
2.43.0


From 719250bf5d55bc28a78d3cb24acf6ea7b1653655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 18/58] fix: match paths literally when they contain glob
 characters

---
 internal/git/pathspec.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/git/pathspec.go b/internal/git/pathspec.go
index afc1faa..fc6bacb 100644
--- a/internal/git/pathspec.go
+++ b/internal/git/pathspec.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"path"
 	"regexp"
+	"strings"
 
 	"github.com/bmatcuk/doublestar/v4"
 )
@@ -61,10 +62,17 @@ func PathspecMatch(pathspec string, p string) bool {
 		panic("empty string is not valid pathspec")
 	}
 
+	// A pathspec naming a file or directory matches it even if the name happens
+	// to contain glob special characters.
+	dir := strings.TrimSuffix(pathspec, "/") + "/"
+	if p == pathspec || strings.HasPrefix(p, dir) {
+		return true
+	}
+
 	// Note: Git uses fnmatch(). This match may differ. Hopefully only rarely.
 	didMatch, err := doublestar.Match(pathspec, p)
 	if err != nil {
-		panic(fmt.Sprintf("error calling doublestar.Match(): %v", err))
+		return false // Not a valid pattern, so can only match literally
 	}
 
 	if didMatch {
-- 
2.43.0


From 1d7eb0170b178342f5fca40049887a10fba6c69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 19/58] fix: match paths given in subdirectory relative to that
 directory

---
 internal/concurrent/concurrent.go | 14 +++++++++++--
 internal/concurrent/worker.go     |  2 +-
 internal/git/cmd/cmd.go           | 12 +++++++++++
 internal/git/git.go               | 30 ++++++++++++++++++++++++++++
 internal/git/pathspec.go          | 33 +++++++++++++++++++++++++++++++
 5 files changed, 88 insertions(+), 3 deletions(-)

diff --git a/internal/concurrent/concurrent.go b/internal/concurrent/concurrent.go
index c907523..e843909 100644
--- a/internal/concurrent/concurrent.go
+++ b/internal/concurrent/concurrent.go
@@ -57,7 +57,8 @@ type combinable[T any] interface {
 // tally job we can do concurrently
 type whoperation[T combinable[T]] struct {
 	revspec    []string
-	pathspecs  []string
+	pathspecs  []string // As given by the user
+	diffspecs  []string // The pathspecs, but relative to repo root
 	filters    cmd.LogFilters
 	useMailmap bool
 	ignoreRevs []string
@@ -100,7 +101,7 @@ func accumulateCached[T combinable[T]](
 	var none T
 
 	commits, finish := c.Get(revs)
-	commits, err := git.LimitDiffsByPathspec(commits, whop.pathspecs)
+	commits, err := git.LimitDiffsByPathspec(commits, whop.diffspecs)
 	if err != nil {
 		return none, revs, err
 	}
@@ -143,6 +144,15 @@ func tallyFanOutFanIn[T combinable[T]](
 
 	var accumulator T
 
+	if len(whop.pathspecs) > 0 {
+		prefix, err := git.GetPrefix()
+		if err != nil {
+			return accumulator, err
+		}
+
+		whop.diffspecs = git.RootPathspecs(prefix, whop.pathspecs)
+	}
+
 	// -- Get rev list ---------------------------------------------------------
 	revs, err := git.RevList(
 		ctx,
diff --git a/internal/concurrent/worker.go b/internal/concurrent/worker.go
index aa73476..9265931 100644
--- a/internal/concurrent/worker.go
+++ b/internal/concurrent/worker.go
@@ -226,7 +226,7 @@ loop:
 
 				// Now that we're tallying, we DO care to only look at the file
 				// diffs under the given paths
-				commits, err = git.LimitDiffsByPathspec(commits, whop.pathspecs)
+				commits, err = git.LimitDiffsByPathspec(commits, whop.diffspecs)
 				if err != nil {
 					return result, err
 				}
diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index d93f043..f981bf7 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -157,6 +157,18 @@ func RunRevParseTopLevel(ctx context.Context) (*Subprocess, error) {
 	return subprocess, nil
 }
 
+func RunRevParsePrefix(ctx context.Context) (*Subprocess, error) {
+	var args = []string{"rev-parse", "--show-prefix"}
+
+	needStdin := false
+	subprocess, err := run(ctx, args, needStdin)
+	if err != nil {
+		return nil, fmt.Errorf("failed to run git rev-parse: %w", err)
+	}
+
+	return subprocess, nil
+}
+
 // Runs git rev-list. When countOnly is true, passes --count, which is much
 // faster than printing then getting all the revisions when all you need is the
 // count.
diff --git a/internal/git/git.go b/internal/git/git.go
index 34502e3..6b3ec45 100644
--- a/internal/git/git.go
+++ b/internal/git/git.go
@@ -186,6 +186,36 @@ func GetRoot() (_ string, err error) {
 	return root, nil
 }
 
+// Returns path of the working directory relative to the Git root directory.
+// This is the empty string when in the root directory.
+func GetPrefix() (_ string, err error) {
+	defer func() {
+		if err != nil {
+			err = fmt.Errorf("failed to get prefix in Git directory: %w", err)
+		}
+	}()
+
+	ctx, cancel := context.WithCancel(context.Background())
+	defer cancel()
+
+	subprocess, err := cmd.RunRevParsePrefix(ctx)
+	if err != nil {
+		return "", err
+	}
+
+	prefix, err := subprocess.StdoutText()
+	if err != nil {
+		return "", err
+	}
+
+	err = subprocess.Wait()
+	if err != nil {
+		return "", err
+	}
+
+	return prefix, nil
+}
+
 // Returns all paths in the working tree under the given pathspecs.
 func WorkingTreeFiles(pathspecs []string) (_ map[string]bool, err error) {
 	defer func() {
diff --git a/internal/git/pathspec.go b/internal/git/pathspec.go
index fc6bacb..c87ff54 100644
--- a/internal/git/pathspec.go
+++ b/internal/git/pathspec.go
@@ -55,6 +55,39 @@ func SplitPathspecs(pathspecs []string) (includes []string, excludes []string) {
 	return includes, excludes
 }
 
+/*
+* Git takes pathspecs to be relative to the current working directory but gives
+* us paths relative to the root of the repo. Here we turn the former kind of
+* pathspec into one that we can match against the latter kind of path.
+*
+* The prefix is the path of the working directory relative to the repo root.
+ */
+func RootPathspecs(prefix string, pathspecs []string) []string {
+	rooted := []string{}
+
+	for _, p := range pathspecs {
+		magic := excludeStripRegexp.FindString(p)
+		if magic != "" {
+			p = p[len(magic):]
+			magic = ":(exclude)"
+		}
+
+		r := path.Join(prefix, p)
+		if prefix != "" && strings.HasPrefix(p, "*") {
+			// Leading wildcard also matches across directories
+			r = path.Join(prefix, "**", p)
+		}
+
+		if strings.HasSuffix(p, "/") {
+			r += "/" // Only matches directory
+		}
+
+		rooted = append(rooted, magic+r)
+	}
+
+	return rooted
+}
+
 // Function might panic if passed an invalid pathspec. We validate these
 // elsewhere.
 func PathspecMatch(pathspec string, p string) bool {
-- 
2.43.0


From 87837d23e554c01c0d265753f97fb5315005da50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 20/58] fix: show tree when working directory was reached by
 symlink

---
 internal/tally/tree.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/tally/tree.go b/internal/tally/tree.go
index 7dbfbd2..8d67a85 100644
--- a/internal/tally/tree.go
+++ b/internal/tally/tree.go
@@ -123,6 +123,11 @@ func TallyCommitsTreeFromPaths(
 		return root, err
 	}
 
+	// The Git root path has any symlinks resolved
+	if resolved, err := filepath.EvalSymlinks(wd); err == nil {
+		wd = resolved
+	}
+
 	// Build tree
 	for key, pathTallies := range talliesByPath {
 		for p, tally := range pathTallies {
-- 
2.43.0


From a39eab7a416ed62fe25c43dbe3848e3f3bffb125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 21/58] fix: detect renames across given paths also when not
 running concurrently

---
 internal/git/cmd/cmd.go |  6 ++++++
 internal/git/git.go     | 15 +++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index f981bf7..d94612e 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -49,6 +49,12 @@ func RunLog(
 
 	if needDiffs {
 		baseArgs = append(baseArgs, "--numstat")
+
+		if len(pathspecs) > 0 {
+			// Otherwise Git would not see renames from or to other paths. It's
+			// on our caller to limit the diffs.
+			baseArgs = append(baseArgs, "--full-diff")
+		}
 	}
 
 	filterArgs := filters.ToArgs()
diff --git a/internal/git/git.go b/internal/git/git.go
index 6b3ec45..b52e78f 100644
--- a/internal/git/git.go
+++ b/internal/git/git.go
@@ -101,6 +101,21 @@ func CommitsWithOpts(
 	commits, finishCommits := ParseCommits(lines)
 	commits = SkipIgnored(commits, ignoreRevs)
 
+	if populateDiffs && len(pathspecs) > 0 {
+		prefix, err := GetPrefix()
+		if err != nil {
+			return empty, func() error { return err }
+		}
+
+		commits, err = LimitDiffsByPathspec(
+			commits,
+			RootPathspecs(prefix, pathspecs),
+		)
+		if err != nil {
+			return empty, func() error { return err }
+		}
+	}
+
 	finish := func() error {
 		iterErr := finishCommits()
 		iterErr = errors.Join(iterErr, finishLines())
-- 
2.43.0


From 4cca64843476e064e322ca69ce0b05b3cd18156b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 22/58] fix: rank tied authors in the same order every time

---
 internal/tally/tally.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/tally/tally.go b/internal/tally/tally.go
index 1e7138f..dabfcc3 100644
--- a/internal/tally/tally.go
+++ b/internal/tally/tally.go
@@ -2,8 +2,10 @@
 package tally
 
 import (
+	"cmp"
 	"iter"
 	"slices"
+	"strings"
 	"time"
 
 	"github.com/sinclairtarget/git-who/internal/git"
@@ -76,8 +78,13 @@ func (a FinalTally) Compare(b FinalTally, mode TallyMode) int {
 		return 1
 	}
 
-	// Break ties with last edited
-	return a.LastCommitTime.Compare(b.LastCommitTime)
+	// Break ties with last edited. Authors still tied after that are put in
+	// alphabetical order so that we always give the same answer.
+	return cmp.Or(
+		a.LastCommitTime.Compare(b.LastCommitTime),
+		strings.Compare(b.AuthorName, a.AuthorName),
+		strings.Compare(b.AuthorEmail, a.AuthorEmail),
+	)
 }
 
 // A non-final tally that can be combined with other tallies and then finalized
-- 
2.43.0


From 55025d20c76845d3febc2ff33e66b69c62cc79e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:22 +0000
Subject: [PATCH 23/58] fix: detect truncated cache instead of counting partial
 commits

---
 internal/cache/backends/gob.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/cache/backends/gob.go b/internal/cache/backends/gob.go
index 6eb08fc..c351156 100644
--- a/internal/cache/backends/gob.go
+++ b/internal/cache/backends/gob.go
@@ -165,7 +165,7 @@ func (b *GobBackend) Get(revs []string) (iter.Seq[git.Commit], func() error) {
 		for {
 			// -- Find length of next gob in bytes --
 			prefix := make([]byte, 4)
-			_, err := f.Read(prefix)
+			_, err := io.ReadFull(f, prefix)
 			if err == io.EOF {
 				return
 			} else if err != nil {
@@ -188,7 +188,11 @@ func (b *GobBackend) Get(revs []string) (iter.Seq[git.Commit], func() error) {
 			var commits []git.Commit
 
 			data := make([]byte, size)
-			_, err = f.Read(data)
+			_, err = io.ReadFull(f, data)
+			if err != nil {
+				iterErr = fmt.Errorf("truncated cache file: %w", err)
+				return
+			}
 
 			dec := gob.NewDecoder(bytes.NewReader(data))
 			err = dec.Decode(&commits)
-- 
2.43.0


From f338f0d4ef521dea0768108ee15b392f7d973afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:42 +0000
Subject: [PATCH 24/58] fix: let runs that share a corrupt cache clear it
 without failing

---
 internal/cache/backends/gob.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/internal/cache/backends/gob.go b/internal/cache/backends/gob.go
index c351156..90b1a50 100644
--- a/internal/cache/backends/gob.go
+++ b/internal/cache/backends/gob.go
@@ -278,13 +278,13 @@ func (b *GobBackend) Add(commits []git.Commit) (err error) {
 }
 
 func (b *GobBackend) Clear() error {
-	err := os.RemoveAll(b.Dir)
-	if err != nil {
-		return err
-	}
-
-	// We might still add to the cache after clearing it
-	return os.MkdirAll(b.Dir, 0o700)
+	// Don't touch the directory or any other files in it, since other git-who
+	// processes might be using those. We might still add to the cache after
+	// clearing it.
+	return errors.Join(
+		os.RemoveAll(b.compressedPath()),
+		os.RemoveAll(b.workPath),
+	)
 }
 
 func GobCacheDir(prefix string, gitRootPath string) string {
-- 
2.43.0


From 49e241b96ff5eafc3364ae877cabd9930ffab0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 25/58] fix: match paths with leading wildcard like git does

Such a pattern matched everything below a directory whose name it matches, and
in a subdirectory whose name has glob characters it did not match at all.
---
 internal/concurrent/concurrent.go | 13 ++++++----
 internal/concurrent/worker.go     |  6 ++++-
 internal/git/git.go               | 22 +++++++++++-----
 internal/git/pathspec.go          | 43 +++++++++++++++++--------------
 4 files changed, 51 insertions(+), 33 deletions(-)

diff --git a/internal/concurrent/concurrent.go b/internal/concurrent/concurrent.go
index e843909..949152f 100644
--- a/internal/concurrent/concurrent.go
+++ b/internal/concurrent/concurrent.go
@@ -58,7 +58,7 @@ type combinable[T any] interface {
 type whoperation[T combinable[T]] struct {
 	revspec    []string
 	pathspecs  []string // As given by the user
-	diffspecs  []string // The pathspecs, but relative to repo root
+	prefix     string   // What pathspecs are relative to, in the repo
 	filters    cmd.LogFilters
 	useMailmap bool
 	ignoreRevs []string
@@ -101,7 +101,11 @@ func accumulateCached[T combinable[T]](
 	var none T
 
 	commits, finish := c.Get(revs)
-	commits, err := git.LimitDiffsByPathspec(commits, whop.diffspecs)
+	commits, err := git.LimitDiffsByPrefixPathspec(
+		commits,
+		whop.prefix,
+		whop.pathspecs,
+	)
 	if err != nil {
 		return none, revs, err
 	}
@@ -145,12 +149,11 @@ func tallyFanOutFanIn[T combinable[T]](
 	var accumulator T
 
 	if len(whop.pathspecs) > 0 {
-		prefix, err := git.GetPrefix()
+		var err error
+		whop.prefix, err = git.GetPrefix()
 		if err != nil {
 			return accumulator, err
 		}
-
-		whop.diffspecs = git.RootPathspecs(prefix, whop.pathspecs)
 	}
 
 	// -- Get rev list ---------------------------------------------------------
diff --git a/internal/concurrent/worker.go b/internal/concurrent/worker.go
index 9265931..1314859 100644
--- a/internal/concurrent/worker.go
+++ b/internal/concurrent/worker.go
@@ -226,7 +226,11 @@ loop:
 
 				// Now that we're tallying, we DO care to only look at the file
 				// diffs under the given paths
-				commits, err = git.LimitDiffsByPathspec(commits, whop.diffspecs)
+				commits, err = git.LimitDiffsByPrefixPathspec(
+					commits,
+					whop.prefix,
+					whop.pathspecs,
+				)
 				if err != nil {
 					return result, err
 				}
diff --git a/internal/git/git.go b/internal/git/git.go
index b52e78f..b51d518 100644
--- a/internal/git/git.go
+++ b/internal/git/git.go
@@ -12,6 +12,7 @@ import (
 	"fmt"
 	"iter"
 	"slices"
+	"strings"
 	"time"
 
 	"github.com/sinclairtarget/git-who/internal/git/cmd"
@@ -107,10 +108,7 @@ func CommitsWithOpts(
 			return empty, func() error { return err }
 		}
 
-		commits, err = LimitDiffsByPathspec(
-			commits,
-			RootPathspecs(prefix, pathspecs),
-		)
+		commits, err = LimitDiffsByPrefixPathspec(commits, prefix, pathspecs)
 		if err != nil {
 			return empty, func() error { return err }
 		}
@@ -228,7 +226,7 @@ func GetPrefix() (_ string, err error) {
 		return "", err
 	}
 
-	return prefix, nil
+	return strings.TrimSuffix(prefix, "/"), nil
 }
 
 // Returns all paths in the working tree under the given pathspecs.
@@ -272,6 +270,16 @@ func WorkingTreeFiles(pathspecs []string) (_ map[string]bool, err error) {
 func LimitDiffsByPathspec(
 	commits iter.Seq[Commit],
 	pathspecs []string,
+) (iter.Seq[Commit], error) {
+	return LimitDiffsByPrefixPathspec(commits, "", pathspecs)
+}
+
+// Like LimitDiffsByPathspec(), but takes the pathspecs to be relative to the
+// directory with the given path relative to the repo root.
+func LimitDiffsByPrefixPathspec(
+	commits iter.Seq[Commit],
+	prefix string,
+	pathspecs []string,
 ) (iter.Seq[Commit], error) {
 	if len(pathspecs) == 0 {
 		return commits, nil
@@ -295,7 +303,7 @@ func LimitDiffsByPathspec(
 				// included.
 				shouldInclude := len(includes) == 0
 				for _, p := range includes {
-					if PathspecMatch(p, diff.Path) {
+					if prefixPathspecMatch(prefix, p, diff.Path) {
 						shouldInclude = true
 						break
 					}
@@ -303,7 +311,7 @@ func LimitDiffsByPathspec(
 
 				shouldExclude := false
 				for _, p := range excludes {
-					if PathspecMatch(p, diff.Path) {
+					if prefixPathspecMatch(prefix, p, diff.Path) {
 						shouldExclude = true
 						break
 					}
diff --git a/internal/git/pathspec.go b/internal/git/pathspec.go
index c87ff54..ab1a913 100644
--- a/internal/git/pathspec.go
+++ b/internal/git/pathspec.go
@@ -57,35 +57,30 @@ func SplitPathspecs(pathspecs []string) (includes []string, excludes []string) {
 
 /*
 * Git takes pathspecs to be relative to the current working directory but gives
-* us paths relative to the root of the repo. Here we turn the former kind of
-* pathspec into one that we can match against the latter kind of path.
+* us paths relative to the root of the repo.
 *
 * The prefix is the path of the working directory relative to the repo root.
  */
-func RootPathspecs(prefix string, pathspecs []string) []string {
-	rooted := []string{}
-
-	for _, p := range pathspecs {
-		magic := excludeStripRegexp.FindString(p)
-		if magic != "" {
-			p = p[len(magic):]
-			magic = ":(exclude)"
-		}
+func prefixPathspecMatch(prefix string, pathspec string, p string) bool {
+	spec := path.Clean(pathspec)
+	for spec == ".." || strings.HasPrefix(spec, "../") {
+		prefix = strings.TrimPrefix(path.Dir(prefix), ".")
+		spec = path.Clean(strings.TrimPrefix(spec[2:], "/"))
+	}
 
-		r := path.Join(prefix, p)
-		if prefix != "" && strings.HasPrefix(p, "*") {
-			// Leading wildcard also matches across directories
-			r = path.Join(prefix, "**", p)
-		}
+	if strings.HasSuffix(pathspec, "/") && spec != "." {
+		spec += "/" // Only matches directory
+	}
 
-		if strings.HasSuffix(p, "/") {
-			r += "/" // Only matches directory
+	if prefix != "" {
+		if !strings.HasPrefix(p, prefix+"/") {
+			return false
 		}
 
-		rooted = append(rooted, magic+r)
+		p = p[len(prefix)+1:]
 	}
 
-	return rooted
+	return PathspecMatch(spec, p)
 }
 
 // Function might panic if passed an invalid pathspec. We validate these
@@ -103,6 +98,14 @@ func PathspecMatch(pathspec string, p string) bool {
 	}
 
 	// Note: Git uses fnmatch(). This match may differ. Hopefully only rarely.
+	if pathspec[0] == '*' {
+		// Leading wildcard also matches across directories
+		suffix := strings.TrimLeft(pathspec, "*")
+		if !strings.ContainsAny(suffix, `*?[\`) {
+			return strings.HasSuffix(p, suffix)
+		}
+	}
+
 	didMatch, err := doublestar.Match(pathspec, p)
 	if err != nil {
 		return false // Not a valid pattern, so can only match literally
-- 
2.43.0


From d3b82576ca5361895bbad84eee07f087676867e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:29 +0000
Subject: [PATCH 26/58] fix: handle directories whose names begin or end with
 whitespace

---
 internal/git/cmd/subprocess.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/git/cmd/subprocess.go b/internal/git/cmd/subprocess.go
index ce5dec3..3d18e15 100644
--- a/internal/git/cmd/subprocess.go
+++ b/internal/git/cmd/subprocess.go
@@ -52,7 +52,7 @@ func (s Subprocess) StdoutText() (string, error) {
 		return "", err
 	}
 
-	return strings.TrimSpace(string(b)), nil
+	return strings.TrimSuffix(string(b), "\n"), nil
 }
 
 // Returns a single-use iterator over the output of the command, line by line.
-- 
2.43.0


From dab85afc0f2220f186f427441fe5d10bb6ad931a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:50 +0000
Subject: [PATCH 27/58] fix: show the same name every time for authors with
 several names

---
 internal/tally/tally.go | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/internal/tally/tally.go b/internal/tally/tally.go
index dabfcc3..1cc398d 100644
--- a/internal/tally/tally.go
+++ b/internal/tally/tally.go
@@ -111,6 +111,25 @@ func or(a, b string) string {
 	return a
 }
 
+// Chooses the name (or email) to show for an author that has used several.
+//
+// The most recently used wins, so that the choice does not depend on the order
+// in which tallies are combined.
+func mostRecent(a, b string, aTime, bTime time.Time) string {
+	if a == "" || b == "" || a == b {
+		return or(a, b)
+	}
+
+	switch aTime.Compare(bTime) {
+	case -1:
+		return b
+	case 1:
+		return a
+	default:
+		return min(a, b)
+	}
+}
+
 func unionInPlace(a, b map[string]bool) map[string]bool {
 	if a == nil {
 		return b
@@ -125,10 +144,17 @@ func unionInPlace(a, b map[string]bool) map[string]bool {
 	return union
 }
 
+// Updates author identity for a commit not yet counted in this tally
+func (t *Tally) identify(c git.Commit) {
+	t.name = mostRecent(t.name, c.AuthorName, t.lastCommitTime, c.Date)
+	t.email = mostRecent(t.email, c.AuthorEmail, t.lastCommitTime, c.Date)
+}
+
 func (a Tally) Combine(b Tally) Tally {
+	aTime, bTime := a.lastCommitTime, b.lastCommitTime
 	return Tally{
-		name:            or(a.name, b.name),
-		email:           or(a.email, b.email),
+		name:            mostRecent(a.name, b.name, aTime, bTime),
+		email:           mostRecent(a.email, b.email, aTime, bTime),
 		commitset:       unionInPlace(a.commitset, b.commitset),
 		added:           a.added + b.added,
 		removed:         a.removed + b.removed,
@@ -236,11 +262,10 @@ func TallyCommits(
 
 			tally, ok := tallies[key]
 			if !ok {
-				tally.name = commit.AuthorName
-				tally.email = commit.AuthorEmail
 				tally.firstCommitTime = commit.Date
 			}
 
+			tally.identify(commit)
 			tally.numTallied += 1
 			tally.firstCommitTime = timeutils.Min(
 				commit.Date,
@@ -298,13 +323,12 @@ func TallyCommitsByPath(
 			// collides.
 			tally, ok := pathTallies[NoDiffPathname]
 			if !ok {
-				tally.name = commit.AuthorName
-				tally.email = commit.AuthorEmail
 				tally.firstCommitTime = commit.Date
 				tally.commitset = map[string]bool{}
 				tally.numTallied = 0 // Don't count toward files changed
 			}
 
+			tally.identify(commit)
 			tally.commitset[commit.ShortHash] = true
 			tally.firstCommitTime = timeutils.Min(
 				tally.firstCommitTime,
@@ -320,12 +344,11 @@ func TallyCommitsByPath(
 			for _, diff := range commit.FileDiffs {
 				tally, ok := pathTallies[diff.Path]
 				if !ok {
-					tally.name = commit.AuthorName
-					tally.email = commit.AuthorEmail
 					tally.firstCommitTime = commit.Date
 					tally.commitset = map[string]bool{}
 				}
 
+				tally.identify(commit)
 				tally.commitset[commit.ShortHash] = true
 				tally.firstCommitTime = timeutils.Min(
 					tally.firstCommitTime,
-- 
2.43.0


From d32d14ab7ef4ea5f2be8a32da4d07d0d58540db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:58 +0000
Subject: [PATCH 28/58] fix: do not confuse revisions with files of the same
 name

---
 internal/git/cmd/cmd.go | 42 ++++++++++++++++++-----------------------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index d94612e..899eb9a 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -59,18 +59,15 @@ func RunLog(
 
 	filterArgs := filters.ToArgs()
 
-	var args []string
-	if len(pathspecs) > 0 {
-		args = slices.Concat(
-			baseArgs,
-			filterArgs,
-			revs,
-			[]string{"--"},
-			pathspecs,
-		)
-	} else {
-		args = slices.Concat(baseArgs, filterArgs, revs)
-	}
+	// Always need the separator, or else a revision could be confused with a
+	// file of the same name.
+	args := slices.Concat(
+		baseArgs,
+		filterArgs,
+		revs,
+		[]string{"--"},
+		pathspecs,
+	)
 
 	needStdin := false
 	subprocess, err := run(ctx, args, needStdin)
@@ -208,18 +205,15 @@ func RunRevList(
 
 	filterArgs := filters.ToArgs()
 
-	var args []string
-	if len(pathspecs) > 0 {
-		args = slices.Concat(
-			baseArgs,
-			filterArgs,
-			revs,
-			[]string{"--"},
-			pathspecs,
-		)
-	} else {
-		args = slices.Concat(baseArgs, filterArgs, revs)
-	}
+	// Always need the separator, or else a revision could be confused with a
+	// file of the same name.
+	args := slices.Concat(
+		baseArgs,
+		filterArgs,
+		revs,
+		[]string{"--"},
+		pathspecs,
+	)
 
 	needStdin := false
 	subprocess, err := run(ctx, args, needStdin)
-- 
2.43.0


From 689af50689d6263679a9fa63dad2b8bb9f8529fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:59 +0000
Subject: [PATCH 29/58] fix: accept path that looks like the separator

---
 internal/git/args.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/git/args.go b/internal/git/args.go
index 6f58b1b..8c1c2b0 100644
--- a/internal/git/args.go
+++ b/internal/git/args.go
@@ -27,13 +27,16 @@ func ParseArgs(args []string) (revs []string, pathspecs []string, err error) {
 	pathspecs = []string{}
 
 	pastRevs := false
+	pastSeparator := false
 	for line := range lines {
 		if !pastRevs && rev.IsFullHash(line) {
 			revs = append(revs, line)
 		} else {
 			pastRevs = true
 
-			if line != "--" {
+			if line == "--" && !pastSeparator {
+				pastSeparator = true
+			} else {
 				// If user used backslashes as path separator on windows,
 				// we want to turn into forward slashes
 				pathspecs = append(pathspecs, filepath.ToSlash(line))
-- 
2.43.0


From fd0db0f9b3b4bbd5a1986fb900719786ff1f393e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:34 +0000
Subject: [PATCH 30/58] fix: tell authors apart by email in hist -e as
 elsewhere

---
 internal/subcommands/hist.go | 9 +++++++--
 internal/tally/bucket.go     | 8 ++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/internal/subcommands/hist.go b/internal/subcommands/hist.go
index a010dac..a407eab 100644
--- a/internal/subcommands/hist.go
+++ b/internal/subcommands/hist.go
@@ -178,11 +178,16 @@ func drawPlot(
 		totalBar := strings.Repeat("-", clampedTotal-clampedValue)
 
 		if value > 0 {
+			thisAuthor := bucket.Tally.AuthorName
+			if showEmail {
+				thisAuthor = bucket.Tally.AuthorEmail
+			}
+
 			tallyPart := fmtHistTally(
 				bucket.Tally,
 				mode,
 				showEmail,
-				bucket.Tally.AuthorName == lastAuthor,
+				thisAuthor == lastAuthor,
 			)
 			fmt.Printf(
 				"%s ┤ %s%s%-*s%s  %s\n",
@@ -195,7 +200,7 @@ func drawPlot(
 				tallyPart,
 			)
 
-			lastAuthor = bucket.Tally.AuthorName
+			lastAuthor = thisAuthor
 		} else {
 			fmt.Printf("%s ┤ \n", bucket.Name)
 		}
diff --git a/internal/tally/bucket.go b/internal/tally/bucket.go
index caa5955..4690392 100644
--- a/internal/tally/bucket.go
+++ b/internal/tally/bucket.go
@@ -9,6 +9,7 @@ import (
 	"time"
 
 	"github.com/sinclairtarget/git-who/internal/git"
+	"github.com/sinclairtarget/git-who/internal/utils/timeutils"
 )
 
 type TimeBucket struct {
@@ -252,12 +253,15 @@ func TallyCommitsByDate(
 
 			tally, ok := bucket.tallies[key]
 			if !ok {
-				tally.name = commit.AuthorName
-				tally.email = commit.AuthorEmail
 				tally.fileset = map[string]bool{}
 			}
 
+			tally.identify(commit)
 			tally.numTallied += 1
+			tally.lastCommitTime = timeutils.Max(
+				tally.lastCommitTime,
+				commit.Date,
+			)
 
 			if !commit.IsMerge {
 				for _, diff := range commit.FileDiffs {
-- 
2.43.0


From bd7ec6e9cf7c77fe97c7ee94f3c1ce5eff5876e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:47 +0000
Subject: [PATCH 31/58] fix: accept path that looks like the escaped separator

---
 main.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index ad0ba62..2fbda88 100644
--- a/main.go
+++ b/main.go
@@ -468,12 +468,16 @@ Exclude commits by these authors. Can be specified multiple times
 * arg. We aren't really using it as a terminator though; we want to use it like
 * Git does, to separate revisions from paths. So we escape it so the "flag"
 * package treats it like any other arg.
+*
+* No arg that we are given can contain a null byte.
  */
+const escapedTerminator = "\x00--"
+
 func escapeTerminator(args []string) []string {
 	newArgs := []string{}
 	for _, arg := range args {
 		if arg == "--" {
-			newArgs = append(newArgs, "^--") // Seems unlikely to be used?
+			newArgs = append(newArgs, escapedTerminator)
 		} else {
 			newArgs = append(newArgs, arg)
 		}
@@ -485,7 +489,7 @@ func escapeTerminator(args []string) []string {
 func unescapeTerminator(args []string) []string {
 	newArgs := []string{}
 	for _, arg := range args {
-		if arg == "^--" {
+		if arg == escapedTerminator {
 			newArgs = append(newArgs, "--")
 		} else {
 			newArgs = append(newArgs, arg)
-- 
2.43.0


From 7513921d47894fb1d66b255bb71818af7d907238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:56 +0000
Subject: [PATCH 32/58] fix: do not match file with pathspec that only matches
 directory

---
 internal/git/pathspec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/git/pathspec.go b/internal/git/pathspec.go
index ab1a913..d5918b7 100644
--- a/internal/git/pathspec.go
+++ b/internal/git/pathspec.go
@@ -117,7 +117,7 @@ func PathspecMatch(pathspec string, p string) bool {
 
 	// Ensure we mimic Git behavior with trailing slash. See "pathspec" in
 	// gitglossary(3).
-	subdirPathspec := path.Join(pathspec, "**")
+	subdirPathspec := path.Join(pathspec, "*/**")
 	didMatch, err = doublestar.Match(subdirPathspec, p)
 	if err != nil {
 		panic(fmt.Sprintf("error calling doublestar.Match(): %v", err))
-- 
2.43.0


From b4e0cd68b87ae182c632472a581454e13dfa33ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:00 +0000
Subject: [PATCH 33/58] fix: do not list current directory as entry of its own
 tree

A commit may have changed a file whose place has since been taken by the
directory that tree is run in.
---
 internal/tally/tree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/tally/tree.go b/internal/tally/tree.go
index 8d67a85..f746a2e 100644
--- a/internal/tally/tree.go
+++ b/internal/tally/tree.go
@@ -140,6 +140,10 @@ func TallyCommitsTreeFromPaths(
 				if err != nil || !filepath.IsLocal(relPath) {
 					continue // Skip any paths outside of working dir
 				}
+
+				if relPath == "." {
+					continue // Working dir itself used to be a file
+				}
 			}
 
 			// Okay, back to all paths using forward-slash separator
-- 
2.43.0


From c20672c1c6e77bb4b3868512cfb7e9ad7c602325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:50 +0000
Subject: [PATCH 34/58] fix: do not hang when git writes a lot to stderr

---
 internal/git/cmd/subprocess.go | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/internal/git/cmd/subprocess.go b/internal/git/cmd/subprocess.go
index 3d18e15..19962cb 100644
--- a/internal/git/cmd/subprocess.go
+++ b/internal/git/cmd/subprocess.go
@@ -37,7 +37,7 @@ type Subprocess struct {
 	cmd    *exec.Cmd
 	stdin  io.WriteCloser
 	stdout io.ReadCloser
-	stderr io.ReadCloser
+	stderr *bytes.Buffer // Only read this after waiting for subprocess
 }
 
 func (s Subprocess) StdinWriter() (_ *bufio.Writer, closer func() error) {
@@ -136,12 +136,7 @@ func (s Subprocess) StdoutNullDelimitedLines() (
 func (s Subprocess) Wait() error {
 	logger().Debug("waiting for subprocess...")
 
-	stderr, err := io.ReadAll(s.stderr)
-	if err != nil {
-		return fmt.Errorf("could not read stderr: %w", err)
-	}
-
-	err = s.cmd.Wait()
+	err := s.cmd.Wait()
 	logger().Debug(
 		"subprocess exited",
 		"code",
@@ -151,7 +146,7 @@ func (s Subprocess) Wait() error {
 	if err != nil {
 		return &SubprocessErr{
 			ExitCode: s.cmd.ProcessState.ExitCode(),
-			Stderr:   strings.TrimSpace(string(stderr)),
+			Stderr:   strings.TrimSpace(s.stderr.String()),
 			Err:      err,
 		}
 	}
@@ -172,10 +167,10 @@ func run(
 		return nil, fmt.Errorf("failed to open stdout pipe: %w", err)
 	}
 
-	stderr, err := cmd.StderrPipe()
-	if err != nil {
-		return nil, fmt.Errorf("failed to open stderr pipe: %w", err)
-	}
+	// Collected in the background. If we only read stderr after reading stdout,
+	// a subprocess with a lot to say on stderr would never exit.
+	var stderr bytes.Buffer
+	cmd.Stderr = &stderr
 
 	var stdin io.WriteCloser
 	if needStdin {
@@ -194,6 +189,6 @@ func run(
 		cmd:    cmd,
 		stdin:  stdin,
 		stdout: stdout,
-		stderr: stderr,
+		stderr: &stderr,
 	}, nil
 }
-- 
2.43.0


From 5cff444930758e6acc0301b031ad71a036b8aab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:34 +0000
Subject: [PATCH 35/58] fix: do not take a failing git config for an unset
 mailmap.file

Only exit code 1 means that the option is not set. Any other failure
silently dropped the mailmap.
---
 internal/git/config/config.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/internal/git/config/config.go b/internal/git/config/config.go
index 56776b0..8119e83 100644
--- a/internal/git/config/config.go
+++ b/internal/git/config/config.go
@@ -39,12 +39,8 @@ func globalMailmapPath() (string, error) {
 	err = subprocess.Wait()
 	if err != nil {
 		var subprocessErr *cmd.SubprocessErr
-		if errors.As(err, &subprocessErr) {
-			logger().Debug(
-				"failed to get mailmap path from config or value not present",
-				"exitcode",
-				subprocessErr.ExitCode,
-			)
+		if errors.As(err, &subprocessErr) && subprocessErr.ExitCode == 1 {
+			logger().Debug("mailmap path not present in config")
 			p = ""
 		} else {
 			logger().Debug("got unknown error")
-- 
2.43.0


From 1c03a8e43d6a70bf1a6134ac935c2aa91366fb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:47 +0000
Subject: [PATCH 36/58] fix: find relative mailmap.file from subdirectories

Git takes the path as relative to the root of the worktree, wherever the
command was started.
---
 internal/git/config/config.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/git/config/config.go b/internal/git/config/config.go
index 8119e83..d10cb27 100644
--- a/internal/git/config/config.go
+++ b/internal/git/config/config.go
@@ -91,6 +91,11 @@ func DetectSupplementalFiles(
 	}
 
 	if len(mailmapPath) > 0 {
+		if !filepath.IsAbs(mailmapPath) {
+			// Like Git, which reads the file from the root of the worktree
+			mailmapPath = filepath.Join(gitRootPath, mailmapPath)
+		}
+
 		_, err = os.Stat(mailmapPath)
 		if err == nil {
 			files.GlobalMailmapPath = mailmapPath
-- 
2.43.0


From a859154eba6897225a94a222d1aa9840f0d91c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:55 +0000
Subject: [PATCH 37/58] fix: read lines of any length

A comment of more than 64 KB in .git-blame-ignore-revs or an author name
of that length made every command fail.
---
 internal/git/cmd/subprocess.go | 3 +++
 internal/git/config/files.go   | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/internal/git/cmd/subprocess.go b/internal/git/cmd/subprocess.go
index 19962cb..681d148 100644
--- a/internal/git/cmd/subprocess.go
+++ b/internal/git/cmd/subprocess.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"io"
 	"iter"
+	"math"
 	"os/exec"
 	"strings"
 )
@@ -61,6 +62,7 @@ func (s Subprocess) StdoutLines() (iter.Seq[string], func() error) {
 
 	seq := func(yield func(string) bool) {
 		scanner := bufio.NewScanner(s.stdout)
+		scanner.Buffer(nil, math.MaxInt) // Git does not limit the length
 		for scanner.Scan() {
 			if !yield(scanner.Text()) {
 				return
@@ -92,6 +94,7 @@ func (s Subprocess) StdoutNullDelimitedLines() (
 
 	seq := func(yield func(string) bool) {
 		scanner := bufio.NewScanner(s.stdout)
+		scanner.Buffer(nil, math.MaxInt) // Git does not limit the length
 
 		scanner.Split(func(data []byte, atEOF bool) (int, []byte, error) {
 			null_i := bytes.IndexByte(data, '\x00')
diff --git a/internal/git/config/files.go b/internal/git/config/files.go
index 38ebf3e..82d5982 100644
--- a/internal/git/config/files.go
+++ b/internal/git/config/files.go
@@ -7,6 +7,7 @@ import (
 	"hash"
 	"io"
 	"io/fs"
+	"math"
 	"os"
 	"strings"
 
@@ -83,6 +84,7 @@ func (sf SupplementalFiles) IgnoreRevs() (_ []string, err error) {
 	defer f.Close()
 
 	scanner := bufio.NewScanner(f)
+	scanner.Buffer(nil, math.MaxInt) // Comments can have any length
 	for scanner.Scan() {
 		// Comments starting with "#" are allowed in the ignore revs file, also
 		// following a hash. Git accepts uppercase hashes.
-- 
2.43.0


From f142fb3a504b4cd521b9b66f1fd4061bfbbb3693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:41 +0000
Subject: [PATCH 38/58] fix: read names as UTF-8 whatever Git's output encoding
 is

With i18n.logOutputEncoding or i18n.commitEncoding set, names were garbled
and could not be filtered by.
---
 internal/git/cmd/cmd.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index 899eb9a..87d48a9 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -34,6 +34,7 @@ func RunLog(
 			"--date=unix",
 			"--reverse",
 			"--no-show-signature",
+			"--encoding=UTF-8",
 		}
 	} else {
 		baseArgs = []string{
@@ -43,6 +44,7 @@ func RunLog(
 			"--date=unix",
 			"--reverse",
 			"--no-show-signature",
+			"--encoding=UTF-8",
 			"--no-mailmap",
 		}
 	}
@@ -95,6 +97,7 @@ func RunStdinLog(
 			"--date=unix",
 			"--reverse",
 			"--no-show-signature",
+			"--encoding=UTF-8",
 			"--stdin",
 			"--no-walk",
 		}
@@ -106,6 +109,7 @@ func RunStdinLog(
 			"--date=unix",
 			"--reverse",
 			"--no-show-signature",
+			"--encoding=UTF-8",
 			"--stdin",
 			"--no-walk",
 			"--no-mailmap",
@@ -189,6 +193,7 @@ func RunRevList(
 	baseArgs := []string{
 		"rev-list",
 		"--reverse",
+		"--encoding=UTF-8", // Matters to --author
 	}
 
 	if useMailmap {
@@ -199,6 +204,7 @@ func RunRevList(
 			"--pretty=format:%H",
 			"--reverse",
 			"--no-show-signature",
+			"--encoding=UTF-8",
 			"--mailmap",
 		}
 	}
-- 
2.43.0


From fd693846d2387eb1e655d594329aa0586263a987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:43 +0000
Subject: [PATCH 39/58] fix: count all diffs whatever log.showRoot and
 diff.relative are

The former hid what the root commit added, the latter what was changed
outside of the current directory, also from later runs because of the cache.
---
 internal/git/cmd/cmd.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index 87d48a9..9e34436 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -15,6 +15,10 @@ const (
 	mailmapLogFormat = "--pretty=format:%H%x00%h%x00%p%x00%aN%x00%aE%x00%ad%x00"
 )
 
+// Git's configuration could otherwise hide the diff of the root commit, or
+// diffs and parts of paths outside of the current directory.
+var diffArgs = []string{"--numstat", "--root", "--no-relative"}
+
 // Runs git log
 func RunLog(
 	ctx context.Context,
@@ -50,7 +54,7 @@ func RunLog(
 	}
 
 	if needDiffs {
-		baseArgs = append(baseArgs, "--numstat")
+		baseArgs = append(baseArgs, diffArgs...)
 
 		if len(pathspecs) > 0 {
 			// Otherwise Git would not see renames from or to other paths. It's
@@ -117,7 +121,7 @@ func RunStdinLog(
 	}
 
 	if needDiffs {
-		baseArgs = append(baseArgs, "--numstat")
+		baseArgs = append(baseArgs, diffArgs...)
 	}
 
 	var args []string
-- 
2.43.0


From 6f7f08b7f4b08c0776db532ed441990035de324c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:44 +0000
Subject: [PATCH 40/58] fix: do not follow renames because of log.follow

The option only made a difference for a single file in some code paths.
---
 internal/git/cmd/cmd.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index 9e34436..8f0f577 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -39,6 +39,7 @@ func RunLog(
 			"--reverse",
 			"--no-show-signature",
 			"--encoding=UTF-8",
+			"--no-follow",
 		}
 	} else {
 		baseArgs = []string{
@@ -49,6 +50,7 @@ func RunLog(
 			"--reverse",
 			"--no-show-signature",
 			"--encoding=UTF-8",
+			"--no-follow",
 			"--no-mailmap",
 		}
 	}
@@ -102,6 +104,7 @@ func RunStdinLog(
 			"--reverse",
 			"--no-show-signature",
 			"--encoding=UTF-8",
+			"--no-follow",
 			"--stdin",
 			"--no-walk",
 		}
@@ -114,6 +117,7 @@ func RunStdinLog(
 			"--reverse",
 			"--no-show-signature",
 			"--encoding=UTF-8",
+			"--no-follow",
 			"--stdin",
 			"--no-walk",
 			"--no-mailmap",
@@ -209,6 +213,7 @@ func RunRevList(
 			"--reverse",
 			"--no-show-signature",
 			"--encoding=UTF-8",
+			"--no-follow",
 			"--mailmap",
 		}
 	}
-- 
2.43.0


From 4245643a2084f43e76f2d30668b91754c516366a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:07 +0000
Subject: [PATCH 41/58] fix: count progress in percent of the real number of
 chunks

With a multiple of the chunk size, the progress ended at 80% of e.g. 4,096 of
4,096 commits.
---
 internal/concurrent/concurrent.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/concurrent/concurrent.go b/internal/concurrent/concurrent.go
index 949152f..22b303d 100644
--- a/internal/concurrent/concurrent.go
+++ b/internal/concurrent/concurrent.go
@@ -67,7 +67,7 @@ type whoperation[T combinable[T]] struct {
 }
 
 func calcTotalChunks(revCount int) int {
-	return revCount/chunkSize + 1
+	return (revCount + chunkSize - 1) / chunkSize
 }
 
 func shouldShowProgress(chunks int) bool {
-- 
2.43.0


From 9f1193ebfe242ee2bb0c4744fde9405efa7f7278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:14 +0000
Subject: [PATCH 42/58] fix: carry on without cache that cannot be written or
 wiped

---
 internal/concurrent/concurrent.go | 26 +++++++++++++++-----------
 internal/concurrent/worker.go     |  2 +-
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/internal/concurrent/concurrent.go b/internal/concurrent/concurrent.go
index 22b303d..db106bb 100644
--- a/internal/concurrent/concurrent.go
+++ b/internal/concurrent/concurrent.go
@@ -28,6 +28,7 @@ import (
 	"time"
 
 	"github.com/sinclairtarget/git-who/internal/cache"
+	"github.com/sinclairtarget/git-who/internal/cache/backends"
 	"github.com/sinclairtarget/git-who/internal/format"
 	"github.com/sinclairtarget/git-who/internal/git"
 	"github.com/sinclairtarget/git-who/internal/git/cmd"
@@ -125,13 +126,22 @@ func accumulateCached[T combinable[T]](
 	return accumulator, setDiff(revs, foundRevs), nil
 }
 
-func handleCacheFailure(c cache.Cache, err error) error {
+// Returns the cache to use for the rest of the run.
+func handleCacheFailure(c cache.Cache, err error) cache.Cache {
 	// Graceful handling of cache error. Wipe cache and move on without it
 	logger().Warn(
-		fmt.Sprintf("error reading from cache (maybe corrupt?): %v", err),
+		fmt.Sprintf("error using cache (maybe corrupt?): %v", err),
 	)
 	logger().Warn("wiping cache and moving on")
-	return c.Clear()
+
+	err = c.Clear()
+	if err != nil {
+		logger().Warn(fmt.Sprintf("failed to wipe cache: %v", err))
+		logger().Warn("disabling caching")
+		return cache.NewCache(backends.NoopBackend{})
+	}
+
+	return c
 }
 
 func tallyFanOutFanIn[T combinable[T]](
@@ -203,19 +213,13 @@ func tallyFanOutFanIn[T combinable[T]](
 	if err == nil {
 		accumulator, remainingRevs, err = accumulateCached(whop, cache, revs)
 		if err != nil {
-			err = handleCacheFailure(cache, err)
-			if err != nil {
-				return accumulator, err
-			}
+			cache = handleCacheFailure(cache, err)
 		} else if len(remainingRevs) == 0 {
 			logger().Debug("all commits read from cache")
 			return accumulator, nil
 		}
 	} else {
-		err = handleCacheFailure(cache, err)
-		if err != nil {
-			return accumulator, err
-		}
+		cache = handleCacheFailure(cache, err)
 	}
 
 	// -- Fork -----------------------------------------------------------------
diff --git a/internal/concurrent/worker.go b/internal/concurrent/worker.go
index 1314859..834a254 100644
--- a/internal/concurrent/worker.go
+++ b/internal/concurrent/worker.go
@@ -139,7 +139,7 @@ loop:
 
 			err := cache.Add(commits)
 			if err != nil {
-				return err
+				*cache = handleCacheFailure(*cache, err)
 			}
 		}
 	}
-- 
2.43.0


From 632a9cfa1990ca795da73b457a9a151abce35c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:14 +0000
Subject: [PATCH 43/58] fix: do not reuse cached diffs after fetching more of a
 shallow clone

Or after replacing objects or editing grafts, all of which change what Git
reports for commits we have already cached.
---
 internal/cache/cache.go        |  28 +++++---
 internal/git/cmd/cmd.go        |  28 ++++++++
 internal/git/config/history.go | 115 +++++++++++++++++++++++++++++++++
 internal/subcommands/hist.go   |   7 +-
 internal/subcommands/table.go  |   7 +-
 internal/subcommands/tree.go   |   7 +-
 6 files changed, 181 insertions(+), 11 deletions(-)
 create mode 100644 internal/git/config/history.go

diff --git a/internal/cache/cache.go b/internal/cache/cache.go
index a2b9fdf..def41d9 100644
--- a/internal/cache/cache.go
+++ b/internal/cache/cache.go
@@ -176,13 +176,17 @@ func cacheStorageDir(name string) (_ string, err error) {
 }
 
 // Hash of all the state in the repo that affects the validity of our cache
-func repoStateHash(sf config.SupplementalFiles) (string, error) {
+func repoStateHash(
+	sf config.SupplementalFiles,
+	overrides config.HistoryOverrides,
+) (string, error) {
 	h := fnv.New32()
 	err := sf.MailmapHash(h)
 	if err != nil {
 		return "", err
 	}
 
+	overrides.Hash(h)
 	return hex.EncodeToString(h.Sum(nil)), nil
 }
 
@@ -194,33 +198,41 @@ func warnFail(cb Backend, err error) Cache {
 	return NewCache(cb)
 }
 
-func GetCache(gitRootPath string, configFiles config.SupplementalFiles) Cache {
+func GetCache(
+	gitRootPath string,
+	configFiles config.SupplementalFiles,
+) (Cache, error) {
 	var fallback Backend = backends.NoopBackend{}
 
 	if !IsCachingEnabled() {
-		return NewCache(fallback)
+		return NewCache(fallback), nil
+	}
+
+	overrides, err := config.DetectHistoryOverrides()
+	if err != nil {
+		return NewCache(fallback), err
 	}
 
 	cacheStorageDir, err := cacheStorageDir(
 		backends.GobBackendName,
 	)
 	if err != nil {
-		return warnFail(fallback, err)
+		return warnFail(fallback, err), nil
 	}
 
 	dirname := backends.GobCacheDir(cacheStorageDir, gitRootPath)
 	err = os.MkdirAll(dirname, 0o700)
 	if err != nil {
-		return warnFail(fallback, err)
+		return warnFail(fallback, err), nil
 	}
 
-	stateHash, err := repoStateHash(configFiles)
+	stateHash, err := repoStateHash(configFiles, overrides)
 	if err != nil {
-		return warnFail(fallback, err)
+		return warnFail(fallback, err), nil
 	}
 
 	filename := backends.GobCacheFilename(stateHash)
 	p := filepath.Join(dirname, filename)
 	logger().Debug("cache initialized", "path", p)
-	return NewCache(&backends.GobBackend{Path: p, Dir: dirname})
+	return NewCache(&backends.GobBackend{Path: p, Dir: dirname}), nil
 }
diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index 8f0f577..6fc1e5e 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -184,6 +184,18 @@ func RunRevParsePrefix(ctx context.Context) (*Subprocess, error) {
 	return subprocess, nil
 }
 
+func RunRevParseCommonDir(ctx context.Context) (*Subprocess, error) {
+	var args = []string{"rev-parse", "--git-common-dir"}
+
+	needStdin := false
+	subprocess, err := run(ctx, args, needStdin)
+	if err != nil {
+		return nil, fmt.Errorf("failed to run git rev-parse: %w", err)
+	}
+
+	return subprocess, nil
+}
+
 // Runs git rev-list. When countOnly is true, passes --count, which is much
 // faster than printing then getting all the revisions when all you need is the
 // count.
@@ -273,3 +285,19 @@ func RunConfigGet(ctx context.Context, args []string) (*Subprocess, error) {
 
 	return subprocess, nil
 }
+
+func RunForEachRef(ctx context.Context, pattern string) (*Subprocess, error) {
+	args := []string{
+		"for-each-ref",
+		"--format=%(refname) %(objectname)",
+		pattern,
+	}
+
+	needStdin := false
+	subprocess, err := run(ctx, args, needStdin)
+	if err != nil {
+		return nil, fmt.Errorf("failed to run git for-each-ref: %w", err)
+	}
+
+	return subprocess, nil
+}
diff --git a/internal/git/config/history.go b/internal/git/config/history.go
new file mode 100644
index 0000000..59b4fd1
--- /dev/null
+++ b/internal/git/config/history.go
@@ -0,0 +1,115 @@
+package config
+
+import (
+	"context"
+	"errors"
+	"fmt"
+	"hash"
+	"io/fs"
+	"os"
+	"path/filepath"
+
+	"github.com/sinclairtarget/git-who/internal/git/cmd"
+)
+
+// Files in the Git directory that make Git see other parents for a commit than
+// those recorded in the commit.
+var parentOverrides = []string{
+	"shallow", // Commits with missing parents in a shallow clone
+	"info/grafts",
+}
+
+func gitCommonDir() (string, error) {
+	ctx, cancel := context.WithCancel(context.Background())
+	defer cancel()
+
+	subprocess, err := cmd.RunRevParseCommonDir(ctx)
+	if err != nil {
+		return "", err
+	}
+
+	p, err := subprocess.StdoutText()
+	if err != nil {
+		return "", err
+	}
+
+	err = subprocess.Wait()
+	if err != nil {
+		return "", err
+	}
+
+	return p, nil
+}
+
+// Lists objects that have been replaced using git replace.
+func replaceRefs() (string, error) {
+	ctx, cancel := context.WithCancel(context.Background())
+	defer cancel()
+
+	subprocess, err := cmd.RunForEachRef(ctx, "refs/replace/")
+	if err != nil {
+		return "", err
+	}
+
+	refs, err := subprocess.StdoutText()
+	if err != nil {
+		return "", err
+	}
+
+	err = subprocess.Wait()
+	if err != nil {
+		return "", err
+	}
+
+	return refs, nil
+}
+
+// Everything that decides what Git takes to be the parents and contents of a
+// commit apart from the commit itself. Empty in the regular case.
+type HistoryOverrides struct {
+	parents  [][]byte // Contents of files
+	replaced string
+}
+
+func DetectHistoryOverrides() (_ HistoryOverrides, err error) {
+	defer func() {
+		if err != nil {
+			err = fmt.Errorf("error while checking for overrides: %w", err)
+		}
+	}()
+
+	var overrides HistoryOverrides
+
+	gitDir, err := gitCommonDir()
+	if err != nil {
+		return overrides, err
+	}
+
+	for _, name := range parentOverrides {
+		b, err := os.ReadFile(filepath.Join(gitDir, name))
+		if err != nil && !errors.Is(err, fs.ErrNotExist) {
+			return overrides, err
+		}
+
+		overrides.parents = append(overrides.parents, b)
+	}
+
+	overrides.replaced, err = replaceRefs()
+	if err != nil {
+		return overrides, err
+	}
+
+	return overrides, nil
+}
+
+func (o HistoryOverrides) Hash(h hash.Hash32) {
+	for i, b := range o.parents {
+		if len(b) > 0 {
+			fmt.Fprintf(h, "\x00%s\x00%s", parentOverrides[i], b)
+		}
+	}
+
+	if len(o.replaced) > 0 {
+		fmt.Fprintf(h, "\x00replace\x00%s", o.replaced)
+	}
+}
diff --git a/internal/subcommands/hist.go b/internal/subcommands/hist.go
index a407eab..38e4564 100644
--- a/internal/subcommands/hist.go
+++ b/internal/subcommands/hist.go
@@ -96,6 +96,11 @@ func Hist(
 
 	var buckets []tally.TimeBucket
 	if populateDiffs && runtime.GOMAXPROCS(0) > 1 {
+		commitCache, err := cache.GetCache(gitRootPath, configFiles)
+		if err != nil {
+			return err
+		}
+
 		buckets, err = concurrent.TallyCommitsTimeline(
 			ctx,
 			revs,
@@ -104,7 +109,7 @@ func Hist(
 			configFiles,
 			tallyOpts,
 			end,
-			cache.GetCache(gitRootPath, configFiles),
+			commitCache,
 			pretty.AllowDynamic(os.Stdout),
 		)
 		if err != nil {
diff --git a/internal/subcommands/table.go b/internal/subcommands/table.go
index 3fbe81e..d0fff68 100644
--- a/internal/subcommands/table.go
+++ b/internal/subcommands/table.go
@@ -112,6 +112,11 @@ func Table(
 
 	var tallies map[string]tally.Tally
 	if populateDiffs && runtime.GOMAXPROCS(0) > 1 {
+		commitCache, err := cache.GetCache(gitRootPath, configFiles)
+		if err != nil {
+			return err
+		}
+
 		tallies, err = concurrent.TallyCommits(
 			ctx,
 			revs,
@@ -119,7 +124,7 @@ func Table(
 			filters,
 			configFiles,
 			tallyOpts,
-			cache.GetCache(gitRootPath, configFiles),
+			commitCache,
 			pretty.AllowDynamic(os.Stdout),
 		)
 		if err != nil {
diff --git a/internal/subcommands/tree.go b/internal/subcommands/tree.go
index ee29ca9..34b9aa1 100644
--- a/internal/subcommands/tree.go
+++ b/internal/subcommands/tree.go
@@ -120,6 +120,11 @@ func Tree(
 
 	var root *tally.TreeNode
 	if runtime.GOMAXPROCS(0) > 1 {
+		commitCache, err := cache.GetCache(gitRootPath, configFiles)
+		if err != nil {
+			return err
+		}
+
 		root, err = concurrent.TallyCommitsTree(
 			ctx,
 			revs,
@@ -129,7 +134,7 @@ func Tree(
 			tallyOpts,
 			wtreeset,
 			gitRootPath,
-			cache.GetCache(gitRootPath, configFiles),
+			commitCache,
 			pretty.AllowDynamic(os.Stdout),
 		)
 
-- 
2.43.0


From c6426eed157ec6518a68335f032f8739474186ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:02 +0000
Subject: [PATCH 44/58] fix: do not reuse cached diffs after attributes or diff
 settings change

---
 internal/cache/cache.go     |   9 +-
 internal/git/cmd/cmd.go     |  31 ++++++
 internal/git/config/diff.go | 184 ++++++++++++++++++++++++++++++++++++
 3 files changed, 223 insertions(+), 1 deletion(-)
 create mode 100644 internal/git/config/diff.go

diff --git a/internal/cache/cache.go b/internal/cache/cache.go
index def41d9..b6188ad 100644
--- a/internal/cache/cache.go
+++ b/internal/cache/cache.go
@@ -179,6 +179,7 @@ func cacheStorageDir(name string) (_ string, err error) {
 func repoStateHash(
 	sf config.SupplementalFiles,
 	overrides config.HistoryOverrides,
+	diffSettings config.DiffSettings,
 ) (string, error) {
 	h := fnv.New32()
 	err := sf.MailmapHash(h)
@@ -187,6 +188,7 @@ func repoStateHash(
 	}
 
 	overrides.Hash(h)
+	diffSettings.Hash(h)
 	return hex.EncodeToString(h.Sum(nil)), nil
 }
 
@@ -213,6 +215,11 @@ func GetCache(
 		return NewCache(fallback), err
 	}
 
+	diffSettings, err := config.DetectDiffSettings(gitRootPath)
+	if err != nil {
+		return NewCache(fallback), err
+	}
+
 	cacheStorageDir, err := cacheStorageDir(
 		backends.GobBackendName,
 	)
@@ -226,7 +233,7 @@ func GetCache(
 		return warnFail(fallback, err), nil
 	}
 
-	stateHash, err := repoStateHash(configFiles, overrides)
+	stateHash, err := repoStateHash(configFiles, overrides, diffSettings)
 	if err != nil {
 		return warnFail(fallback, err), nil
 	}
diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index 6fc1e5e..9f78971 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -274,6 +274,22 @@ func RunLsFiles(ctx context.Context, pathspecs []string) (*Subprocess, error) {
 	return subprocess, nil
 }
 
+// Lists matching files in the index, with modes and object names.
+func RunLsFilesStaged(
+	ctx context.Context,
+	pathspec string,
+) (*Subprocess, error) {
+	args := []string{"ls-files", "--stage", "--full-name", "-z", "--", pathspec}
+
+	needStdin := false
+	subprocess, err := run(ctx, args, needStdin)
+	if err != nil {
+		return nil, fmt.Errorf("failed to run git ls-files: %w", err)
+	}
+
+	return subprocess, nil
+}
+
 func RunConfigGet(ctx context.Context, args []string) (*Subprocess, error) {
 	baseArgs := []string{"config", "--get"}
 
@@ -286,6 +302,21 @@ func RunConfigGet(ctx context.Context, args []string) (*Subprocess, error) {
 	return subprocess, nil
 }
 
+func RunConfigGetRegexp(
+	ctx context.Context,
+	args []string,
+) (*Subprocess, error) {
+	baseArgs := []string{"config", "--get-regexp"}
+
+	needStdin := false
+	subprocess, err := run(ctx, slices.Concat(baseArgs, args), needStdin)
+	if err != nil {
+		return nil, fmt.Errorf("failed to run git config --get-regexp: %w", err)
+	}
+
+	return subprocess, nil
+}
+
 func RunForEachRef(ctx context.Context, pattern string) (*Subprocess, error) {
 	args := []string{
 		"for-each-ref",
diff --git a/internal/git/config/diff.go b/internal/git/config/diff.go
new file mode 100644
index 0000000..78f2603
--- /dev/null
+++ b/internal/git/config/diff.go
@@ -0,0 +1,184 @@
+package config
+
+import (
+	"bytes"
+	"context"
+	"errors"
+	"fmt"
+	"hash"
+	"os"
+	"path/filepath"
+	"strings"
+
+	"github.com/sinclairtarget/git-who/internal/git/cmd"
+)
+
+// Settings that make a difference to git log --numstat.
+const diffConfigPattern = `^diff\.(algorithm|renames|renamelimit|` +
+	`ignoresubmodules|.*\.algorithm|.*\.binary)$|` +
+	`^core\.bigfilethreshold$`
+
+// Settings that decide what Git reports as the diff of a commit. Empty in the
+// regular case.
+type DiffSettings struct {
+	config     string
+	attributes bytes.Buffer
+}
+
+// Returns an empty string if there is no such setting.
+func configText(
+	run func(context.Context, []string) (*cmd.Subprocess, error),
+	args ...string,
+) (string, error) {
+	ctx, cancel := context.WithCancel(context.Background())
+	defer cancel()
+
+	subprocess, err := run(ctx, args)
+	if err != nil {
+		return "", err
+	}
+
+	text, err := subprocess.StdoutText()
+	if err != nil {
+		return "", err
+	}
+
+	err = subprocess.Wait()
+	if err != nil {
+		var subprocessErr *cmd.SubprocessErr
+		if errors.As(err, &subprocessErr) && subprocessErr.ExitCode == 1 {
+			return "", nil
+		}
+
+		return "", err
+	}
+
+	return text, nil
+}
+
+// Path of the file with the attributes that a user has for all repositories.
+func globalAttributesPath() (string, error) {
+	p, err := configText(
+		cmd.RunConfigGet,
+		"--type=path",
+		"core.attributesFile",
+	)
+	if err != nil || len(p) > 0 {
+		return p, err
+	}
+
+	configHome := os.Getenv("XDG_CONFIG_HOME")
+	if len(configHome) == 0 {
+		configHome = filepath.Join(os.Getenv("HOME"), ".config")
+	}
+
+	return filepath.Join(configHome, "git", "attributes"), nil
+}
+
+// Lists tracked .gitattributes files, with modes and object names.
+func trackedAttributes() (string, error) {
+	ctx, cancel := context.WithCancel(context.Background())
+	defer cancel()
+
+	subprocess, err := cmd.RunLsFilesStaged(ctx, ":(top,glob)**/.gitattributes")
+	if err != nil {
+		return "", err
+	}
+
+	text, err := subprocess.StdoutText()
+	if err != nil {
+		return "", err
+	}
+
+	err = subprocess.Wait()
+	if err != nil {
+		return "", err
+	}
+
+	return text, nil
+}
+
+func DetectDiffSettings(gitRootPath string) (_ DiffSettings, err error) {
+	defer func() {
+		if err != nil {
+			err = fmt.Errorf("error while checking diff settings: %w", err)
+		}
+	}()
+
+	var settings DiffSettings
+
+	settings.config, err = configText(
+		cmd.RunConfigGetRegexp,
+		diffConfigPattern,
+	)
+	if err != nil {
+		return settings, err
+	}
+
+	gitDir, err := gitCommonDir()
+	if err != nil {
+		return settings, err
+	}
+
+	globalPath, err := globalAttributesPath()
+	if err != nil {
+		return settings, err
+	}
+
+	tracked, err := trackedAttributes()
+	if err != nil {
+		return settings, err
+	}
+
+	settings.addAttributes(globalPath)
+	settings.addAttributes(filepath.Join(gitDir, "info", "attributes"))
+
+	// Might be untracked
+	rootPath := filepath.Join(gitRootPath, ".gitattributes")
+	hasRoot := settings.addAttributes(rootPath)
+
+	for _, entry := range strings.Split(tracked, "\x00") {
+		_, p, found := strings.Cut(entry, "\t")
+		if !found {
+			continue // After last terminator
+		}
+
+		p = filepath.Join(gitRootPath, p)
+		if p == rootPath && hasRoot {
+			continue
+		}
+
+		if !settings.addAttributes(p) {
+			// Git falls back to what is in the index
+			settings.attributes.WriteString(entry)
+		}
+	}
+
+	return settings, nil
+}
+
+// Returns false if there is no such file.
+func (s *DiffSettings) addAttributes(p string) bool {
+	b, err := os.ReadFile(p)
+	if err != nil {
+		// Git takes no attributes from files that it cannot read either
+		logger().Debug("did not read attributes", "path", p, "err", err)
+		return false
+	}
+
+	if len(b) > 0 {
+		fmt.Fprintf(&s.attributes, "\x00%s\x00%s", p, b)
+	}
+
+	return true
+}
+
+func (s *DiffSettings) Hash(h hash.Hash32) {
+	if len(s.config) > 0 {
+		fmt.Fprintf(h, "\x00config\x00%s", s.config)
+	}
+
+	if s.attributes.Len() > 0 {
+		fmt.Fprintf(h, "\x00attributes\x00%s", s.attributes.Bytes())
+	}
+}
-- 
2.43.0


From 4dd22f27229200abeecf0f0bc722218fe97ccd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:23 +0000
Subject: [PATCH 45/58] fix: do not reuse cached diffs after switching
 replacements or the tree of attributes

---
 internal/git/cmd/cmd.go        | 13 +++++++++++++
 internal/git/config/diff.go    | 32 +++++++++++++++++++++++++++++++-
 internal/git/config/history.go | 32 +++++++++++++++++++++++++++++++-
 3 files changed, 75 insertions(+), 2 deletions(-)

diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index 9f78971..62c822b 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -196,6 +196,19 @@ func RunRevParseCommonDir(ctx context.Context) (*Subprocess, error) {
 	return subprocess, nil
 }
 
+// Exits with status 1 if the revision does not name anything.
+func RunRevParseVerify(ctx context.Context, args []string) (*Subprocess, error) {
+	var baseArgs = []string{"rev-parse", "--verify", "--quiet"}
+
+	needStdin := false
+	subprocess, err := run(ctx, slices.Concat(baseArgs, args), needStdin)
+	if err != nil {
+		return nil, fmt.Errorf("failed to run git rev-parse: %w", err)
+	}
+
+	return subprocess, nil
+}
+
 // Runs git rev-list. When countOnly is true, passes --count, which is much
 // faster than printing then getting all the revisions when all you need is the
 // count.
diff --git a/internal/git/config/diff.go b/internal/git/config/diff.go
index 78f2603..045ccf6 100644
--- a/internal/git/config/diff.go
+++ b/internal/git/config/diff.go
@@ -16,12 +16,14 @@ import (
 // Settings that make a difference to git log --numstat.
 const diffConfigPattern = `^diff\.(algorithm|renames|renamelimit|` +
 	`ignoresubmodules|.*\.algorithm|.*\.binary)$|` +
-	`^core\.bigfilethreshold$`
+	`^core\.bigfilethreshold$|` +
+	`^attr\.tree$`
 
 // Settings that decide what Git reports as the diff of a commit. Empty in the
 // regular case.
 type DiffSettings struct {
 	config     string
+	attrTree   string
 	attributes bytes.Buffer
 }
 
@@ -98,6 +100,25 @@ func trackedAttributes() (string, error) {
 	return text, nil
 }
 
+// Name of the tree that Git takes attributes from instead of the working tree.
+// Returns an empty string in the regular case.
+func attributesTree(config string) (string, error) {
+	source := os.Getenv("GIT_ATTR_SOURCE")
+	if len(source) == 0 {
+		if !strings.Contains(config, "attr.tree") {
+			return "", nil
+		}
+
+		var err error
+		source, err = configText(cmd.RunConfigGet, "attr.tree")
+		if err != nil || len(source) == 0 {
+			return "", err
+		}
+	}
+
+	return configText(cmd.RunRevParseVerify, source+"^{tree}")
+}
+
 func DetectDiffSettings(gitRootPath string) (_ DiffSettings, err error) {
 	defer func() {
 		if err != nil {
@@ -115,6 +136,11 @@ func DetectDiffSettings(gitRootPath string) (_ DiffSettings, err error) {
 		return settings, err
 	}
 
+	settings.attrTree, err = attributesTree(settings.config)
+	if err != nil {
+		return settings, err
+	}
+
 	gitDir, err := gitCommonDir()
 	if err != nil {
 		return settings, err
@@ -178,6 +204,10 @@ func (s *DiffSettings) Hash(h hash.Hash32) {
 		fmt.Fprintf(h, "\x00config\x00%s", s.config)
 	}
 
+	if len(s.attrTree) > 0 {
+		fmt.Fprintf(h, "\x00tree\x00%s", s.attrTree)
+	}
+
 	if s.attributes.Len() > 0 {
 		fmt.Fprintf(h, "\x00attributes\x00%s", s.attributes.Bytes())
 	}
diff --git a/internal/git/config/history.go b/internal/git/config/history.go
index 59b4fd1..74aa709 100644
--- a/internal/git/config/history.go
+++ b/internal/git/config/history.go
@@ -41,12 +41,31 @@ func gitCommonDir() (string, error) {
 	return p, nil
 }
 
+// Whether Git has been told to see objects as they were before git replace.
+func ignoresReplaceRefs() (bool, error) {
+	if _, isSet := os.LookupEnv("GIT_NO_REPLACE_OBJECTS"); isSet {
+		return true, nil
+	}
+
+	text, err := configText(
+		cmd.RunConfigGet,
+		"--type=bool",
+		"core.useReplaceRefs",
+	)
+	return text == "false", err
+}
+
 // Lists objects that have been replaced using git replace.
 func replaceRefs() (string, error) {
 	ctx, cancel := context.WithCancel(context.Background())
 	defer cancel()
 
-	subprocess, err := cmd.RunForEachRef(ctx, "refs/replace/")
+	base := os.Getenv("GIT_REPLACE_REF_BASE")
+	if len(base) == 0 {
+		base = "refs/replace/"
+	}
+
+	subprocess, err := cmd.RunForEachRef(ctx, base)
 	if err != nil {
 		return "", err
 	}
@@ -99,6 +118,17 @@ func DetectHistoryOverrides() (_ HistoryOverrides, err error) {
 		return overrides, err
 	}
 
+	if len(overrides.replaced) > 0 {
+		isIgnored, err := ignoresReplaceRefs()
+		if err != nil {
+			return overrides, err
+		}
+
+		if isIgnored {
+			overrides.replaced = ""
+		}
+	}
+
 	return overrides, nil
 }
 
-- 
2.43.0


From 2cd3514b358b2641641d4d71d3aa31159ef04e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:31 +0000
Subject: [PATCH 46/58] fix: do not take revisions that name no commits for
 HEAD

---
 internal/git/args.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/internal/git/args.go b/internal/git/args.go
index 8c1c2b0..c560a05 100644
--- a/internal/git/args.go
+++ b/internal/git/args.go
@@ -4,15 +4,24 @@ import (
 	"context"
 	"fmt"
 	"path/filepath"
+	"slices"
 
 	"github.com/sinclairtarget/git-who/internal/git/cmd"
 	rev "github.com/sinclairtarget/git-who/internal/git/revision"
 )
 
+// Always exists in Git. As a rev, it does not select any commits.
+const emptyTree = "4b825dc642cb6eb9a060e54bf8d69288fbee4904"
+
 // Handles splitting the Git revisions from the pathspecs given a list of args.
 //
 // We call git rev-parse to disambiguate.
 func ParseArgs(args []string) (revs []string, pathspecs []string, err error) {
+	nBeforeSeparator := slices.Index(args, "--")
+	if nBeforeSeparator < 0 {
+		nBeforeSeparator = len(args)
+	}
+
 	ctx, cancel := context.WithCancel(context.Background())
 	defer cancel()
 
@@ -28,6 +37,7 @@ func ParseArgs(args []string) (revs []string, pathspecs []string, err error) {
 
 	pastRevs := false
 	pastSeparator := false
+	nPathsBeforeSeparator := 0
 	for line := range lines {
 		if !pastRevs && rev.IsFullHash(line) {
 			revs = append(revs, line)
@@ -37,6 +47,10 @@ func ParseArgs(args []string) (revs []string, pathspecs []string, err error) {
 			if line == "--" && !pastSeparator {
 				pastSeparator = true
 			} else {
+				if !pastSeparator {
+					nPathsBeforeSeparator += 1
+				}
+
 				// If user used backslashes as path separator on windows,
 				// we want to turn into forward slashes
 				pathspecs = append(pathspecs, filepath.ToSlash(line))
@@ -56,8 +70,14 @@ func ParseArgs(args []string) (revs []string, pathspecs []string, err error) {
 	}
 
 	if len(revs) == 0 {
-		// Default rev
-		revs = append(revs, "HEAD")
+		if nPathsBeforeSeparator < nBeforeSeparator {
+			// There are revs but they do not name any commit, e.g. the parents
+			// of a root commit
+			revs = append(revs, emptyTree)
+		} else {
+			// Default rev
+			revs = append(revs, "HEAD")
+		}
 	}
 
 	return revs, pathspecs, nil
-- 
2.43.0


From fc6906008977d99e1ffa22dbfe8d0101d3f708cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:48 +0000
Subject: [PATCH 47/58] fix: refuse options after revisions and paths instead
 of ignoring them

---
 internal/git/args.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/internal/git/args.go b/internal/git/args.go
index c560a05..b15d0e2 100644
--- a/internal/git/args.go
+++ b/internal/git/args.go
@@ -4,7 +4,9 @@ import (
 	"context"
 	"fmt"
 	"path/filepath"
+	"regexp"
 	"slices"
+	"strings"
 
 	"github.com/sinclairtarget/git-who/internal/git/cmd"
 	rev "github.com/sinclairtarget/git-who/internal/git/revision"
@@ -13,6 +15,11 @@ import (
 // Always exists in Git. As a rev, it does not select any commits.
 const emptyTree = "4b825dc642cb6eb9a060e54bf8d69288fbee4904"
 
+// Options that git rev-parse turns into revs.
+var revFlagRegexp = regexp.MustCompile(
+	`^--(not|all|((branches|tags|remotes)(=.*)?|(glob|exclude)=.*))$`,
+)
+
 // Handles splitting the Git revisions from the pathspecs given a list of args.
 //
 // We call git rev-parse to disambiguate.
@@ -22,6 +29,16 @@ func ParseArgs(args []string) (revs []string, pathspecs []string, err error) {
 		nBeforeSeparator = len(args)
 	}
 
+	for _, arg := range args[:nBeforeSeparator] {
+		// Anything else would be ignored by git rev-parse
+		if strings.HasPrefix(arg, "-") && !revFlagRegexp.MatchString(arg) {
+			return nil, nil, fmt.Errorf(
+				"\"%s\" must come before all revisions and paths",
+				arg,
+			)
+		}
+	}
+
 	ctx, cancel := context.WithCancel(context.Background())
 	defer cancel()
 
-- 
2.43.0


From cdd3d50e50a21145b3de4683ee0b6a599aafa8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:08 +0000
Subject: [PATCH 48/58] fix: refuse a negative tree depth instead of printing
 nothing

---
 main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main.go b/main.go
index 2fbda88..dc553fa 100644
--- a/main.go
+++ b/main.go
@@ -251,6 +251,10 @@ Usage: git-who tree [options...] [revisions...] [[--] paths...]
 				return errors.New("all ranking flags are mutually exclusive")
 			}
 
+			if *depth < 0 {
+				return errors.New("-d flag must be a positive integer")
+			}
+
 			mode := tally.CommitMode
 			if *useLines {
 				mode = tally.LinesMode
-- 
2.43.0


From 82198f2526f1b44463228df2990e43188f49e175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:17 +0000
Subject: [PATCH 49/58] fix: match paths with glob characters like Git does

Braces are not special to Git, so a path named {a,b} does not stand for the
paths a and b. What a pattern matches does not stand for everything below it
either, unless the pattern ends in a wildcard.
---
 internal/git/pathspec.go | 43 +++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/internal/git/pathspec.go b/internal/git/pathspec.go
index d5918b7..403c368 100644
--- a/internal/git/pathspec.go
+++ b/internal/git/pathspec.go
@@ -83,6 +83,23 @@ func prefixPathspecMatch(prefix string, pathspec string, p string) bool {
 	return PathspecMatch(spec, p)
 }
 
+// Braces are not special to Git, but doublestar would expand them.
+func escapeBraces(pathspec string) string {
+	var b strings.Builder
+	isEscaped := false
+	for i := range len(pathspec) {
+		c := pathspec[i]
+		if (c == '{' || c == '}') && !isEscaped {
+			b.WriteByte('\\')
+		}
+
+		isEscaped = c == '\\' && !isEscaped
+		b.WriteByte(c)
+	}
+
+	return b.String()
+}
+
 // Function might panic if passed an invalid pathspec. We validate these
 // elsewhere.
 func PathspecMatch(pathspec string, p string) bool {
@@ -90,6 +107,10 @@ func PathspecMatch(pathspec string, p string) bool {
 		panic("empty string is not valid pathspec")
 	}
 
+	if pathspec == "." {
+		return true // Everything under the working directory
+	}
+
 	// A pathspec naming a file or directory matches it even if the name happens
 	// to contain glob special characters.
 	dir := strings.TrimSuffix(pathspec, "/") + "/"
@@ -106,6 +127,8 @@ func PathspecMatch(pathspec string, p string) bool {
 		}
 	}
 
+	pathspec = escapeBraces(pathspec)
+
 	didMatch, err := doublestar.Match(pathspec, p)
 	if err != nil {
 		return false // Not a valid pattern, so can only match literally
@@ -115,16 +138,18 @@ func PathspecMatch(pathspec string, p string) bool {
 		return true
 	}
 
-	// Ensure we mimic Git behavior with trailing slash. See "pathspec" in
-	// gitglossary(3).
-	subdirPathspec := path.Join(pathspec, "*/**")
-	didMatch, err = doublestar.Match(subdirPathspec, p)
-	if err != nil {
-		panic(fmt.Sprintf("error calling doublestar.Match(): %v", err))
-	}
+	// Ensure we mimic Git behavior with trailing wildcard, which matches across
+	// directories. See "pathspec" in gitglossary(3).
+	if strings.HasSuffix(pathspec, "*") {
+		subdirPathspec := path.Join(pathspec, "*/**")
+		didMatch, err = doublestar.Match(subdirPathspec, p)
+		if err != nil {
+			panic(fmt.Sprintf("error calling doublestar.Match(): %v", err))
+		}
 
-	if didMatch {
-		return true
+		if didMatch {
+			return true
+		}
 	}
 
 	if pathspec[0] == '*' {
-- 
2.43.0


From 76cbe6da360d50883aeab194cbf281c9838179c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:00 +0000
Subject: [PATCH 50/58] fix: name the author of the first line even if the name
 is empty

A tree with a single file, or a timeline, whose author has an empty name
looked as if someone of that name had already been named above.
---
 internal/subcommands/hist.go | 4 +++-
 internal/subcommands/tree.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/subcommands/hist.go b/internal/subcommands/hist.go
index 38e4564..8e14de7 100644
--- a/internal/subcommands/hist.go
+++ b/internal/subcommands/hist.go
@@ -168,6 +168,7 @@ func drawPlot(
 	showEmail bool,
 ) {
 	var lastAuthor string
+	isFirst := true
 	for _, bucket := range buckets {
 		value := bucket.Value(mode)
 		clampedValue := int(math.Ceil(
@@ -192,7 +193,7 @@ func drawPlot(
 				bucket.Tally,
 				mode,
 				showEmail,
-				thisAuthor == lastAuthor,
+				!isFirst && thisAuthor == lastAuthor, // Author might be empty
 			)
 			fmt.Printf(
 				"%s ┤ %s%s%-*s%s  %s\n",
@@ -206,6 +207,7 @@ func drawPlot(
 			)
 
 			lastAuthor = thisAuthor
+			isFirst = false
 		} else {
 			fmt.Printf("%s ┤ \n", bucket.Name)
 		}
diff --git a/internal/subcommands/tree.go b/internal/subcommands/tree.go
index 34b9aa1..a13d665 100644
--- a/internal/subcommands/tree.go
+++ b/internal/subcommands/tree.go
@@ -268,7 +268,9 @@ func toLines(
 	line.dimTally = len(node.Children) > 0
 	line.dimPath = !node.InWorkTree
 
-	newAuthor := opts.key(node.Tally) != lastAuthor
+	// Nobody has been named before the first line, though the author's name
+	// might be empty
+	newAuthor := len(lines) == 0 || opts.key(node.Tally) != lastAuthor
 	line.showTally = opts.showHidden || newAuthor || len(node.Children) > 0
 
 	lines = append(lines, line)
-- 
2.43.0


From 0267744560c6691db8793125d6747ffebffdd649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:31 +0000
Subject: [PATCH 51/58] fix: keep carriage returns that end a path argument

---
 internal/git/cmd/subprocess.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/internal/git/cmd/subprocess.go b/internal/git/cmd/subprocess.go
index 681d148..a7db898 100644
--- a/internal/git/cmd/subprocess.go
+++ b/internal/git/cmd/subprocess.go
@@ -63,6 +63,22 @@ func (s Subprocess) StdoutLines() (iter.Seq[string], func() error) {
 	seq := func(yield func(string) bool) {
 		scanner := bufio.NewScanner(s.stdout)
 		scanner.Buffer(nil, math.MaxInt) // Git does not limit the length
+
+		// Unlike bufio.ScanLines(), keep a carriage return that ends a path
+		scanner.Split(func(data []byte, atEOF bool) (int, []byte, error) {
+			newline_i := bytes.IndexByte(data, '\n')
+
+			if newline_i >= 0 {
+				return newline_i + 1, data[:newline_i], nil
+			}
+
+			if atEOF && len(data) > 0 {
+				return len(data), data, nil
+			}
+
+			return 0, nil, nil // Scan more
+		})
+
 		for scanner.Scan() {
 			if !yield(scanner.Text()) {
 				return
-- 
2.43.0


From b0881adba3d572eb4e11f2aada7189f61ea495b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:24 +0000
Subject: [PATCH 52/58] fix: do not take 41 hexadecimal digits for a commit
 hash

---
 internal/git/revision/revision.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/git/revision/revision.go b/internal/git/revision/revision.go
index 11675d9..080eb7f 100644
--- a/internal/git/revision/revision.go
+++ b/internal/git/revision/revision.go
@@ -7,13 +7,12 @@ import (
 var commitHashRegexp *regexp.Regexp
 
 func init() {
-	commitHashRegexp = regexp.MustCompile(`^\^?[a-f0-9]+$`)
+	commitHashRegexp = regexp.MustCompile(`^\^?[a-f0-9]{40}$`)
 }
 
 // Returns true if this is a (full-length) Git revision hash, false otherwise.
 //
 // We also need to handle a hash with "^" in front.
 func IsFullHash(s string) bool {
-	matched := commitHashRegexp.MatchString(s)
-	return matched && (len(s) == 40 || len(s) == 41)
+	return commitHashRegexp.MatchString(s)
 }
-- 
2.43.0


From ce7147a9bbc395a5aadf57d58e17b836df87c21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:20 +0000
Subject: [PATCH 53/58] fix: filter by mapped authors whatever log.mailmap says

---
 internal/git/cmd/cmd.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index 62c822b..26cf882 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -40,6 +40,7 @@ func RunLog(
 			"--no-show-signature",
 			"--encoding=UTF-8",
 			"--no-follow",
+			"--mailmap", // Matters to --author
 		}
 	} else {
 		baseArgs = []string{
-- 
2.43.0


From 0f698e894554299583e91ef7e6dac2823b39d880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:43 +0000
Subject: [PATCH 54/58] fix: keep using the cache when changing directories

Where attributes are set in .git/info, commits cached in one directory of the
working tree were not found again in others, and were thrown away.
---
 internal/git/config/history.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/git/config/history.go b/internal/git/config/history.go
index 74aa709..b23f77f 100644
--- a/internal/git/config/history.go
+++ b/internal/git/config/history.go
@@ -19,6 +19,8 @@ var parentOverrides = []string{
 	"info/grafts",
 }
 
+// Returns an absolute path. What Git tells us might be relative to the current
+// working directory.
 func gitCommonDir() (string, error) {
 	ctx, cancel := context.WithCancel(context.Background())
 	defer cancel()
@@ -38,7 +40,7 @@ func gitCommonDir() (string, error) {
 		return "", err
 	}
 
-	return p, nil
+	return filepath.Abs(p)
 }
 
 // Whether Git has been told to see objects as they were before git replace.
-- 
2.43.0


From eb38dd087c9f2511fc280dbad9bf9c2c59080542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:44 +0000
Subject: [PATCH 55/58] fix: look for a relative core.attributesFile where Git
 does

Git takes it to be relative to the root of the working tree. In other
directories we would go on using diffs cached before the file was changed.
---
 internal/git/config/diff.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/git/config/diff.go b/internal/git/config/diff.go
index 045ccf6..e7a55c6 100644
--- a/internal/git/config/diff.go
+++ b/internal/git/config/diff.go
@@ -156,6 +156,10 @@ func DetectDiffSettings(gitRootPath string) (_ DiffSettings, err error) {
 		return settings, err
 	}
 
+	if !filepath.IsAbs(globalPath) {
+		globalPath = filepath.Join(gitRootPath, globalPath)
+	}
+
 	settings.addAttributes(globalPath)
 	settings.addAttributes(filepath.Join(gitDir, "info", "attributes"))
 
-- 
2.43.0


From dc01671f1dea6deee32e899405224d84afda2fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:11 +0000
Subject: [PATCH 56/58] fix: match other wildcards after a leading asterisk
 across directories

Git's wildcards in a pathspec also stand for slashes. For a pathspec like
"*foo*" Git selected the commits that change a/xfoo/b, but their changes were
not counted.
---
 internal/git/pathspec.go | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/internal/git/pathspec.go b/internal/git/pathspec.go
index 403c368..30d8275 100644
--- a/internal/git/pathspec.go
+++ b/internal/git/pathspec.go
@@ -125,6 +125,14 @@ func PathspecMatch(pathspec string, p string) bool {
 		if !strings.ContainsAny(suffix, `*?[\`) {
 			return strings.HasSuffix(p, suffix)
 		}
+
+		// So do all other wildcards then. Only to doublestar slashes are special
+		pathspec = strings.ReplaceAll(escapeBraces(pathspec), "/", "\x00")
+		didMatch, err := doublestar.Match(
+			pathspec,
+			strings.ReplaceAll(p, "/", "\x00"),
+		)
+		return err == nil && didMatch
 	}
 
 	pathspec = escapeBraces(pathspec)
@@ -152,17 +160,5 @@ func PathspecMatch(pathspec string, p string) bool {
 		}
 	}
 
-	if pathspec[0] == '*' {
-		toplevelPathspec := path.Join("**/", pathspec)
-		didMatch, err = doublestar.Match(toplevelPathspec, p)
-		if err != nil {
-			panic(fmt.Sprintf("error calling doublestar.Match(): %v", err))
-		}
-
-		if didMatch {
-			return true
-		}
-	}
-
 	return false
 }
-- 
2.43.0


From e2de5d2cc3c7d10fcb5bfc32d6f41d58e6c8afd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:11 +0000
Subject: [PATCH 57/58] fix: don't take an escaped asterisk at the end of a
 pathspec for a wildcard

A pathspec like "foo\*" names a file called "foo*". It matched everything in a
directory of that name as well.
---
 internal/git/pathspec.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/git/pathspec.go b/internal/git/pathspec.go
index 30d8275..9f4a49e 100644
--- a/internal/git/pathspec.go
+++ b/internal/git/pathspec.go
@@ -100,6 +100,13 @@ func escapeBraces(pathspec string) string {
 	return b.String()
 }
 
+// Whether the last character is a "*" that does not stand for itself.
+func endsInWildcard(pathspec string) bool {
+	rest, found := strings.CutSuffix(pathspec, "*")
+	nBackslashes := len(rest) - len(strings.TrimRight(rest, `\`))
+	return found && nBackslashes%2 == 0
+}
+
 // Function might panic if passed an invalid pathspec. We validate these
 // elsewhere.
 func PathspecMatch(pathspec string, p string) bool {
@@ -148,7 +155,7 @@ func PathspecMatch(pathspec string, p string) bool {
 
 	// Ensure we mimic Git behavior with trailing wildcard, which matches across
 	// directories. See "pathspec" in gitglossary(3).
-	if strings.HasSuffix(pathspec, "*") {
+	if endsInWildcard(pathspec) {
 		subdirPathspec := path.Join(pathspec, "*/**")
 		didMatch, err = doublestar.Match(subdirPathspec, p)
 		if err != nil {
-- 
2.43.0


From 019efde0e11727d58c8f5baed7970f7545177688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:15 +0000
Subject: [PATCH 58/58] fix: keep a newline at the start of a path

The newline that git log puts before the numstat data was removed from the start
of everything Git printed, so a file called "\nfoo" was counted as another file
after it was renamed.
---
 internal/git/cmd/subprocess.go | 12 ++----------
 internal/git/parse.go          |  6 ++++++
 internal/subcommands/dump.go   |  1 +
 3 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/internal/git/cmd/subprocess.go b/internal/git/cmd/subprocess.go
index a7db898..675dbca 100644
--- a/internal/git/cmd/subprocess.go
+++ b/internal/git/cmd/subprocess.go
@@ -99,9 +99,7 @@ func (s Subprocess) StdoutLines() (iter.Seq[string], func() error) {
 	return seq, finish
 }
 
-// Returns a single-use iterator over the output from git log.
-//
-// Lines are split on NULLs with some additional processing.
+// Returns a single-use iterator over the output of the command, split on NULLs.
 func (s Subprocess) StdoutNullDelimitedLines() (
 	iter.Seq[string],
 	func() error,
@@ -127,13 +125,7 @@ func (s Subprocess) StdoutNullDelimitedLines() (
 		})
 
 		for scanner.Scan() {
-			line := scanner.Text()
-
-			// Handle annoying new line that exists between regular commit
-			// fields and --numstat data
-			processedLine := strings.TrimPrefix(line, "\n")
-
-			if !yield(processedLine) {
+			if !yield(scanner.Text()) {
 				return
 			}
 		}
diff --git a/internal/git/parse.go b/internal/git/parse.go
index 9034ef6..913cf9d 100644
--- a/internal/git/parse.go
+++ b/internal/git/parse.go
@@ -65,6 +65,12 @@ func ParseCommits(lines iter.Seq[string]) (iter.Seq[Commit], func() error) {
 		linesThisCommit := 0
 
 		for line := range lines {
+			if linesThisCommit == 6 {
+				// Handle annoying new line that exists between regular commit
+				// fields and --numstat data
+				line = strings.TrimPrefix(line, "\n")
+			}
+
 			// When diff is non-nil we are in the middle of a rename, so the line
 			// is a file path even if it looks like a hash.
 			done := linesThisCommit >= 6 && diff == nil &&
diff --git a/internal/subcommands/dump.go b/internal/subcommands/dump.go
index ca74650..4e49c73 100644
--- a/internal/subcommands/dump.go
+++ b/internal/subcommands/dump.go
@@ -85,6 +85,7 @@ func Dump(
 
 	lines, finish := subprocess.StdoutNullDelimitedLines()
 	for line := range lines {
+		line = strings.TrimPrefix(line, "\n") // Precedes --numstat data
 		lineWithReplaced := strings.ReplaceAll(line, "\n", "\\n")
 		fmt.Fprintln(w, lineWithReplaced)
 	}
-- 
2.43.0

