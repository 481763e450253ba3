From d3686f1d038cf0d734c7cdf9a72730c3f888a125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:41 +0000
Subject: [PATCH 01/31] index, regexp: make buffer sizes tunable under the
 verif build tag

---
 index/tune.go        | 13 +++++++++++++
 index/tune_verif.go  | 27 +++++++++++++++++++++++++++
 index/write.go       |  6 ++----
 regexp/match.go      |  2 +-
 regexp/tune.go       |  9 +++++++++
 regexp/tune_verif.go | 21 +++++++++++++++++++++
 6 files changed, 73 insertions(+), 5 deletions(-)
 create mode 100644 index/tune.go
 create mode 100644 index/tune_verif.go
 create mode 100644 regexp/tune.go
 create mode 100644 regexp/tune_verif.go

diff --git a/index/tune.go b/index/tune.go
new file mode 100644
index 0000000..fc0f89d
--- /dev/null
+++ b/index/tune.go
@@ -0,0 +1,13 @@
+// Copyright 2011 The Go Authors.  All rights reserved.
+// Use of this source code is governed by a BSD-style
+// license that can be found in the LICENSE file.
+
+//go:build !verif
+
+package index
+
+const (
+	npost     = 64 << 20 / 8 // 64 MB worth of post entries
+	bufSize   = 256 << 10    // size of a Buffer
+	inbufSize = 1 << 20      // size of the input buffer
+)
diff --git a/index/tune_verif.go b/index/tune_verif.go
new file mode 100644
index 0000000..e279aba
--- /dev/null
+++ b/index/tune_verif.go
@@ -0,0 +1,27 @@
+// Copyright 2011 The Go Authors.  All rights reserved.
+// Use of this source code is governed by a BSD-style
+// license that can be found in the LICENSE file.
+
+//go:build verif
+
+package index
+
+import (
+	"os"
+	"strconv"
+)
+
+// Under the verif build tag the sizes can be set from the environment,
+// so that a simulation reaches buffer boundaries with small inputs.
+var (
+	npost     = tune("VERIF_NPOST", 64<<20/8)
+	bufSize   = tune("VERIF_BUFSIZE", 256<<10)
+	inbufSize = tune("VERIF_INBUF", 1<<20)
+)
+
+func tune(env string, def int) int {
+	if n, err := strconv.Atoi(os.Getenv(env)); err == nil && n > 0 {
+		return n
+	}
+	return def
+}
diff --git a/index/write.go b/index/write.go
index 185ed23..bc91034 100644
--- a/index/write.go
+++ b/index/write.go
@@ -64,8 +64,6 @@ type IndexWriter struct {
 	main  *Buffer // main index file
 }
 
-const npost = 64 << 20 / 8 // 64 MB worth of post entries
-
 // Create returns a new IndexWriter that will write the index to file.
 func Create(file string) *IndexWriter {
 	ix := &IndexWriter{
@@ -76,7 +74,7 @@ func Create(file string) *IndexWriter {
 		postIndex: bufCreate(""),
 		main:      bufCreate(file),
 		post:      make([]postEntry, 0, npost),
-		inbuf:     make([]byte, 1<<20),
+		inbuf:     make([]byte, inbufSize),
 	}
 	ix.names = NewPathWriter(ix.nameData, ix.nameIndex, writeVersion, nameGroupSize)
 	return ix
@@ -616,7 +614,7 @@ func bufCreate(name string) *Buffer {
 	}
 	return &Buffer{
 		name: f.Name(),
-		buf:  make([]byte, 0, 256<<10),
+		buf:  make([]byte, 0, bufSize),
 		file: f,
 	}
 }
diff --git a/regexp/match.go b/regexp/match.go
index 7a90d1a..f59b6b6 100644
--- a/regexp/match.go
+++ b/regexp/match.go
@@ -431,7 +431,7 @@ func countNL(b []byte) int {
 
 func (g *Grep) Reader(r io.Reader, name string) {
 	if g.buf == nil {
-		g.buf = make([]byte, 1<<20)
+		g.buf = make([]byte, grepBufSize)
 	}
 	var (
 		buf        = g.buf[:0]
diff --git a/regexp/tune.go b/regexp/tune.go
new file mode 100644
index 0000000..40d09cc
--- /dev/null
+++ b/regexp/tune.go
@@ -0,0 +1,9 @@
+// Copyright 2011 The Go Authors.  All rights reserved.
+// Use of this source code is governed by a BSD-style
+// license that can be found in the LICENSE file.
+
+//go:build !verif
+
+package regexp
+
+const grepBufSize = 1 << 20 // size of Grep's input buffer
diff --git a/regexp/tune_verif.go b/regexp/tune_verif.go
new file mode 100644
index 0000000..71ec75f
--- /dev/null
+++ b/regexp/tune_verif.go
@@ -0,0 +1,21 @@
+// Copyright 2011 The Go Authors.  All rights reserved.
+// Use of this source code is governed by a BSD-style
+// license that can be found in the LICENSE file.
+
+//go:build verif
+
+package regexp
+
+import (
+	"os"
+	"strconv"
+)
+
+// Under the verif build tag the size can be set from the environment,
+// so that a simulation reaches buffer boundaries with small inputs.
+var grepBufSize = func() int {
+	if n, err := strconv.Atoi(os.Getenv("VERIF_GREPBUF")); err == nil && n > 0 {
+		return n
+	}
+	return 1 << 20
+}()
-- 
2.43.0


From 3dc92886f5a35bf5636f10ba799845e437149164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:38 +0000
Subject: [PATCH 02/31] fix: csearch -l with an empty regexp lists every
 indexed file

The shortcut grepped an empty reader, which has no line to match,
so nothing was ever listed.
---
 cmd/csearch/csearch.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/csearch/csearch.go b/cmd/csearch/csearch.go
index 58af5b8..7f99251 100644
--- a/cmd/csearch/csearch.go
+++ b/cmd/csearch/csearch.go
@@ -6,7 +6,6 @@ package main
 
 import (
 	"archive/zip"
-	"bytes"
 	"flag"
 	"fmt"
 	"log"
@@ -147,7 +146,9 @@ func Main() {
 	for _, fileid := range post {
 		name := ix.Name(fileid).String()
 		if g.L && (pat == "(?m)" || pat == "(?i)(?m)") {
-			g.Reader(bytes.NewReader(nil), name)
+			// Every file matches. Grep an empty line, not an empty file:
+			// an empty file has no line to match.
+			g.Reader(strings.NewReader("\n"), name)
 			continue
 		}
 		file, err := os.Open(string(name))
-- 
2.43.0


From 6d8b1ec2b7167ac0919a7fab3ab14b7907d69253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:14 +0000
Subject: [PATCH 03/31] fix: index: Merge wrote one more end-of-list trigram
 each time it ran

Each merge copied the inputs' end-of-list entry (trigram 0xffffff) as if it
were a real posting list and then added its own, so an index that had been
updated a few times made the next Merge panic with "no progress".
---
 index/merge.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/index/merge.go b/index/merge.go
index 55c5456..c9fd3d4 100644
--- a/index/merge.go
+++ b/index/merge.go
@@ -347,6 +347,11 @@ func (r *postMapReader) load(force bool) {
 		r.offset += int(n2)
 		r.block = b
 	}
+	if r.trigram == invalidTrigram {
+		// End-of-list marker. Merge writes its own.
+		r.trigram = ^uint32(0)
+		r.count = 0
+	}
 	if r.count == 0 {
 		r.fileid = -1
 		return
-- 
2.43.0


From 9842fb9c7551cf15973c06bdacc32b3e7c42e516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:55 +0000
Subject: [PATCH 04/31] fix: cindex: index a repeated or nested path argument
 only once

cindex /src /src (or /src /src/sub) indexed the files under the inner path
twice, so that csearch reported each match twice and later merges could
panic with "inconsistent index".
---
 cmd/cindex/cindex.go | 11 +++++++++++
 index/path.go        |  1 +
 2 files changed, 12 insertions(+)

diff --git a/cmd/cindex/cindex.go b/cmd/cindex/cindex.go
index d82bf6c..471e02e 100644
--- a/cmd/cindex/cindex.go
+++ b/cmd/cindex/cindex.go
@@ -117,6 +117,17 @@ func main() {
 		slices.SortFunc(roots, index.Path.Compare)
 	}
 
+	// Drop roots that repeat or are inside another one:
+	// their files would be indexed twice.
+	// The list is sorted, so a root comes just before the ones inside it.
+	keep := roots[:0]
+	for _, p := range roots {
+		if n := len(keep); n == 0 || !p.HasPathPrefix(keep[n-1]) {
+			keep = append(keep, p)
+		}
+	}
+	roots = keep
+
 	master := index.File()
 	if _, err := os.Stat(master); err != nil {
 		// Does not exist.
diff --git a/index/path.go b/index/path.go
index d5b0f90..6730daf 100644
--- a/index/path.go
+++ b/index/path.go
@@ -32,6 +32,7 @@ func (p Path) String() string {
 func (p Path) HasPathPrefix(parent Path) bool {
 	return strings.HasPrefix(p.s, parent.s) &&
 		(p.s == parent.s ||
+			strings.HasSuffix(parent.s, "/") || // root directory
 			p.s[len(parent.s)] == '/' ||
 			p.s[len(parent.s)] == os.PathSeparator)
 }
-- 
2.43.0


From b73b4650cf418f9cc094695259ba1fafe3b5125d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:59 +0000
Subject: [PATCH 05/31] fix: index: Merge handles the file system root as an
 indexed path

Names under / compare greater than the limit "/\x02", so updating an index
with the path / panicked with "inconsistent index".
---
 index/merge.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/index/merge.go b/index/merge.go
index c9fd3d4..ccdb59f 100644
--- a/index/merge.go
+++ b/index/merge.go
@@ -34,6 +34,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"os"
+	"strings"
 )
 
 // An idrange records that the half-open interval [lo, hi) maps to [new, new+hi-lo).
@@ -73,8 +74,8 @@ func Merge(dst, src1, src2 string) {
 		// If root is foo, we want to scan foo/anything
 		// but not food or fop. Slash compares equal to \x00,
 		// and if foo is a zip file, foo\x01 is a file in it,
-		// so use foo\x02 as the limit.
-		limit := MakePath(root.String() + "\x02")
+		// so use foo\x02 as the limit. If root is /, use \x02.
+		limit := MakePath(strings.TrimSuffix(root.String(), "/") + "\x02")
 		for i1 < ix1.numName && name1.Compare(limit) < 0 {
 			names1.Next()
 			name1 = names1.Path()
-- 
2.43.0


From f8225820606cd12093410b13f76b1d5cc60d52b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:39 +0000
Subject: [PATCH 06/31] fix: cgrep, csearch: no match on the empty string after
 a newline

A regexp that matches an empty line, such as ^$, also matched the empty
string after the last newline of the file and of each chunk read, which
printed lines that are not in the file.
---
 regexp/match.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/regexp/match.go b/regexp/match.go
index f59b6b6..09aa651 100644
--- a/regexp/match.go
+++ b/regexp/match.go
@@ -467,6 +467,11 @@ func (g *Grep) Reader(r io.Reader, name string) {
 			if m1 < chunkStart {
 				break
 			}
+			if m1 == end && buf[end-1] == '\n' {
+				// Matched the empty string after the final newline,
+				// which is not a line.
+				break
+			}
 			g.Match = true
 			if g.Limit > 0 && g.Matches >= g.Limit {
 				g.Limited = true
-- 
2.43.0


From 4aca19f452da6ed419bbe519d319a1471a142dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 07/31] fix: cgrep, csearch: print the right line number with
 -A, -B and -C

The context display prints a line number, but lines were counted only
when -n was given too: each match was reported as line 1.
---
 regexp/match.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regexp/match.go b/regexp/match.go
index 09aa651..9f8c6ce 100644
--- a/regexp/match.go
+++ b/regexp/match.go
@@ -435,7 +435,7 @@ func (g *Grep) Reader(r io.Reader, name string) {
 	}
 	var (
 		buf        = g.buf[:0]
-		needLineno = g.N || g.HTML
+		needLineno = g.N || g.HTML || g.PreContext+g.PostContext > 0
 		lineno     = 1
 		count      = 0
 		prefix     = ""
-- 
2.43.0


From d4b4435f29ee4e13352ef88db750e05e1f90dd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 08/31] fix: cgrep -v prints the lines that do not match

The flag was accepted and documented, and did nothing.
---
 regexp/match.go | 48 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 12 deletions(-)

diff --git a/regexp/match.go b/regexp/match.go
index 9f8c6ce..959bd73 100644
--- a/regexp/match.go
+++ b/regexp/match.go
@@ -462,14 +462,9 @@ func (g *Grep) Reader(r io.Reader, name string) {
 			endText = true
 		}
 		for chunkStart < end {
-			m1 := g.Regexp.Match(buf[chunkStart:end], beginText, endText) + chunkStart
+			lineStart, lineEnd := g.nextLine(buf[:end], chunkStart, beginText, endText)
 			beginText = false
-			if m1 < chunkStart {
-				break
-			}
-			if m1 == end && buf[end-1] == '\n' {
-				// Matched the empty string after the final newline,
-				// which is not a line.
+			if lineStart < 0 {
 				break
 			}
 			g.Match = true
@@ -486,11 +481,6 @@ func (g *Grep) Reader(r io.Reader, name string) {
 				}
 				return
 			}
-			lineStart := bytes.LastIndex(buf[chunkStart:m1], nl) + 1 + chunkStart
-			lineEnd := m1 + 1
-			if lineEnd > end {
-				lineEnd = end
-			}
 			if needLineno {
 				lineno += countNL(buf[chunkStart:lineStart])
 			}
@@ -552,6 +542,40 @@ func (g *Grep) Reader(r io.Reader, name string) {
 	}
 }
 
+// nextLine returns the bounds, including any newline, of the next line
+// to report in buf[start:], which is not empty: the first matching line or,
+// if g.V is set, the first line that does not match.
+// If there is no such line, it returns a negative lineStart.
+func (g *Grep) nextLine(buf []byte, start int, beginText, endText bool) (lineStart, lineEnd int) {
+	for start < len(buf) {
+		end := len(buf)
+		if g.V {
+			// Match one line at a time.
+			if i := bytes.IndexByte(buf[start:], '\n'); i >= 0 {
+				end = start + i + 1
+			}
+		}
+		m := g.Regexp.Match(buf[start:end], beginText, endText && end == len(buf)) + start
+		if m == end && buf[end-1] == '\n' {
+			// Matched the empty string after the final newline,
+			// which is not a line.
+			m = -1
+		}
+		if !g.V {
+			if m < start {
+				break
+			}
+			return bytes.LastIndex(buf[start:m], nl) + 1 + start, min(m+1, end)
+		}
+		if m < start {
+			return start, end
+		}
+		start = end
+		beginText = false
+	}
+	return -1, -1
+}
+
 func lineSuffixLen(buf []byte, n int) int {
 	end := len(buf)
 	for i := 0; i < n; i++ {
-- 
2.43.0


From 0a505c3d010641503acb177a41cdfd03bdc544e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:17 +0000
Subject: [PATCH 09/31] fix: cindex: no crash when a hidden file disappears
 during the walk

filepath.Walk calls the function with a nil FileInfo when lstat fails, which
happens for a file removed after its directory was read. The check for
hidden and temporary names used it without looking.
---
 cmd/cindex/cindex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/cindex/cindex.go b/cmd/cindex/cindex.go
index 471e02e..8fa41a7 100644
--- a/cmd/cindex/cindex.go
+++ b/cmd/cindex/cindex.go
@@ -154,7 +154,7 @@ func main() {
 			if _, elem := filepath.Split(path); elem != "" {
 				// Skip various temporary or "hidden" files or directories.
 				if elem[0] == '.' || elem[0] == '#' || elem[0] == '~' || elem[len(elem)-1] == '~' {
-					if info.IsDir() {
+					if info != nil && info.IsDir() {
 						return filepath.SkipDir
 					}
 					return nil
-- 
2.43.0


From 1ddb23ff203e074dd35ade489d4532fe5d22506c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:20 +0000
Subject: [PATCH 10/31] fix: index: RegexpQuery missed matches of some
 alternations

alternate built the prefix and suffix sets of a regexp in the storage of
the same exact set, and then used the overwritten exact set for the trigram
query. The query could then exclude files that match.
---
 index/regexp.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/index/regexp.go b/index/regexp.go
index 4f336fe..824f595 100644
--- a/index/regexp.go
+++ b/index/regexp.go
@@ -604,8 +604,8 @@ func alternate(x, y regexpInfo) (out regexpInfo) {
 	if x.exact.have() && y.exact.have() {
 		xy.exact = x.exact.union(y.exact, false)
 	} else if x.exact.have() {
-		xy.prefix = x.exact.union(y.prefix, false)
-		xy.suffix = x.exact.union(y.suffix, true)
+		xy.prefix = x.exact.copy().union(y.prefix, false)
+		xy.suffix = x.exact.copy().union(y.suffix, true)
 		x.addExact()
 	} else if y.exact.have() {
 		xy.prefix = x.prefix.union(y.exact, false)
-- 
2.43.0


From 421c74bb4c6e1ac81cfba02009ca3c294e49304b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:26 +0000
Subject: [PATCH 11/31] fix: cindex: replace the index file only with a
 complete one

cindex wrote a new index (the first, or with -reset) directly to the index
file, so an interrupted run left a corrupt index or, with -reset, destroyed a
good one. It did not sync the new index before renaming it, ignored errors from
the rename, treated any error from stat as a missing index, and shared two
fixed temporary file names with any other cindex running at the same time,
which corrupted the index.

Write to files of our own next to the index, and sync and rename at the end.
---
 cmd/cindex/cindex.go | 77 ++++++++++++++++++++++++++++++--------------
 1 file changed, 53 insertions(+), 24 deletions(-)

diff --git a/cmd/cindex/cindex.go b/cmd/cindex/cindex.go
index 8fa41a7..5a60b25 100644
--- a/cmd/cindex/cindex.go
+++ b/cmd/cindex/cindex.go
@@ -96,7 +96,9 @@ func main() {
 	}
 
 	if *resetFlag && flag.NArg() == 0 {
-		os.Remove(index.File())
+		if err := os.Remove(index.File()); err != nil && !os.IsNotExist(err) {
+			log.Fatal(err)
+		}
 		return
 	}
 	var roots []index.Path
@@ -130,20 +132,19 @@ func main() {
 
 	master := index.File()
 	if _, err := os.Stat(master); err != nil {
-		// Does not exist.
+		if !os.IsNotExist(err) {
+			log.Fatal(err)
+		}
 		*resetFlag = true
 	}
-	file := master
-	if !*resetFlag {
-		file += "~"
-		if *checkFlag {
-			ix := index.Open(master)
-			if err := ix.Check(); err != nil {
-				log.Fatal(err)
-			}
+	if !*resetFlag && *checkFlag {
+		ix := index.Open(master)
+		if err := ix.Check(); err != nil {
+			log.Fatal(err)
 		}
 	}
 
+	file := tempFile(master)
 	ix := index.Create(file)
 	ix.Verbose = *verboseFlag
 	ix.Zip = *zipFlag
@@ -177,24 +178,21 @@ func main() {
 	ix.Flush()
 
 	if !*resetFlag {
+		merged := tempFile(master)
 		log.Printf("merge %s %s", master, file)
-		index.Merge(file+"~", master, file)
-		if *checkFlag {
-			ix := index.Open(file + "~")
-			if err := ix.Check(); err != nil {
-				log.Fatal(err)
-			}
-		}
+		index.Merge(merged, master, file)
 		os.Remove(file)
-		os.Rename(file+"~", master)
-	} else {
-		if *checkFlag {
-			ix := index.Open(file)
-			if err := ix.Check(); err != nil {
-				log.Fatal(err)
-			}
+		file = merged
+	}
+	if *checkFlag {
+		ix := index.Open(file)
+		if err := ix.Check(); err != nil {
+			log.Fatal(err)
 		}
 	}
+	if err := install(file, master); err != nil {
+		log.Fatal(err)
+	}
 
 	log.Printf("done")
 
@@ -204,3 +202,34 @@ func main() {
 	}
 	return
 }
+
+// tempFile creates an empty file next to the index file master and returns its
+// name, which ends in a tilde so that cindex does not index it.
+// Each run of cindex uses names of its own, in case several overlap.
+func tempFile(master string) string {
+	f, err := os.CreateTemp(filepath.Dir(master), filepath.Base(master)+"*~")
+	if err != nil {
+		log.Fatal(err)
+	}
+	f.Close()
+	return f.Name()
+}
+
+// install makes file, a complete index, the new index file master.
+// Until then master is left alone, so that it remains usable
+// if cindex is interrupted or fails.
+func install(file, master string) error {
+	f, err := os.OpenFile(file, os.O_RDWR, 0)
+	if err != nil {
+		return err
+	}
+	err = f.Sync()
+	f.Close()
+	if err == nil {
+		err = os.Rename(file, master)
+	}
+	if err != nil {
+		os.Remove(file)
+	}
+	return err
+}
-- 
2.43.0


From b662baa560fcfee77de4d7a678d562028dcb1ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:41 +0000
Subject: [PATCH 12/31] fix: index: do not ignore a failure to reread a
 temporary file

If the seek failed, the name list or its index was silently left out.
---
 index/write.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/index/write.go b/index/write.go
index bc91034..268cbde 100644
--- a/index/write.go
+++ b/index/write.go
@@ -685,7 +685,9 @@ func (b *Buffer) Flush() {
 func (b *Buffer) finish() *os.File {
 	b.Flush()
 	f := b.file
-	f.Seek(0, 0)
+	if _, err := f.Seek(0, 0); err != nil {
+		log.Fatalf("reading %s: %v", b.name, err)
+	}
 	return f
 }
 
-- 
2.43.0


From 42a4f7f757b0734606ccd4dd7a5a337a5a2055d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:06 +0000
Subject: [PATCH 13/31] fix: index: check that a temporary file was copied in
 full

After a short copy_file_range followed by an error, io.Copy can return a count
that leaves out bytes it wrote, and no error. The offsets in the index trailer
are computed from the count and were wrong.
---
 index/write.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/index/write.go b/index/write.go
index 268cbde..4b04699 100644
--- a/index/write.go
+++ b/index/write.go
@@ -363,6 +363,9 @@ func (ix *IndexWriter) Flush() {
 func copyFile(dst, src *Buffer) {
 	dst.Flush()
 	n, err := io.Copy(dst.file, src.finish())
+	if err == nil && n != src.fileOff {
+		err = fmt.Errorf("copied %d of %d bytes", n, src.fileOff)
+	}
 	if err != nil {
 		log.Fatalf("copying %s to %s: %v", src.name, dst.name, err)
 	}
-- 
2.43.0


From 0fd014734d2a8f02708abc64a30b2b6828306606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:17 +0000
Subject: [PATCH 14/31] fix: cgrep, csearch, cindex -list: fail if standard
 output cannot be written

A full disk lost part of the output, and the exit status said all was well.
---
 cmd/cgrep/cgrep.go     | 14 +++++++++++++-
 cmd/cindex/cindex.go   |  4 +++-
 cmd/csearch/csearch.go | 14 +++++++++++++-
 3 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/cmd/cgrep/cgrep.go b/cmd/cgrep/cgrep.go
index 5e7404f..21a90b5 100644
--- a/cmd/cgrep/cgrep.go
+++ b/cmd/cgrep/cgrep.go
@@ -38,7 +38,7 @@ func main() {
 	var g regexp.Grep
 	g.AddFlags()
 	g.AddVFlag()
-	g.Stdout = os.Stdout
+	g.Stdout = stdout{}
 	g.Stderr = os.Stderr
 	flag.Usage = usage
 	flag.Parse()
@@ -77,3 +77,15 @@ func main() {
 		os.Exit(1)
 	}
 }
+
+// stdout writes to os.Stdout and exits if that fails,
+// so that lost output is not mistaken for a complete result.
+type stdout struct{}
+
+func (stdout) Write(p []byte) (int, error) {
+	n, err := os.Stdout.Write(p)
+	if err != nil {
+		log.Fatal(err)
+	}
+	return n, nil
+}
diff --git a/cmd/cindex/cindex.go b/cmd/cindex/cindex.go
index 5a60b25..ff7fbad 100644
--- a/cmd/cindex/cindex.go
+++ b/cmd/cindex/cindex.go
@@ -80,7 +80,9 @@ func main() {
 			}
 		}
 		for p := range ix.Roots().All() {
-			fmt.Printf("%s\n", p)
+			if _, err := fmt.Printf("%s\n", p); err != nil {
+				log.Fatal(err)
+			}
 		}
 		return
 	}
diff --git a/cmd/csearch/csearch.go b/cmd/csearch/csearch.go
index 7f99251..7f47dd2 100644
--- a/cmd/csearch/csearch.go
+++ b/cmd/csearch/csearch.go
@@ -61,7 +61,7 @@ var (
 func Main() {
 	log.SetPrefix("csearch: ")
 	g := regexp.Grep{
-		Stdout: os.Stdout,
+		Stdout: stdout{},
 		Stderr: os.Stderr,
 	}
 	g.AddFlags()
@@ -199,3 +199,15 @@ func main() {
 	}
 	os.Exit(0)
 }
+
+// stdout writes to os.Stdout and exits if that fails,
+// so that lost output is not mistaken for a complete result.
+type stdout struct{}
+
+func (stdout) Write(p []byte) (int, error) {
+	n, err := os.Stdout.Write(p)
+	if err != nil {
+		log.Fatal(err)
+	}
+	return n, nil
+}
-- 
2.43.0


From 0ea2110775de166fc7d47248a195a8f8e166f696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:18 +0000
Subject: [PATCH 15/31] fix: cindex -zip: report members it cannot index and
 index each name once

A member that could not be read was dropped without a word or with a debugging
line, one with a control character in its name was stored in the index, which
uses those characters for framing, and several members of one name were all
indexed although csearch only looks at the last.
---
 index/write.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/index/write.go b/index/write.go
index 4b04699..5febad8 100644
--- a/index/write.go
+++ b/index/write.go
@@ -177,7 +177,7 @@ func (ix *IndexWriter) Add(name string, f io.Reader) error {
 			return err
 		}
 		files := slices.Clone(r.File)
-		slices.SortFunc(files, func(x, y *zip.File) int {
+		slices.SortStableFunc(files, func(x, y *zip.File) int {
 			for i := 0; i < len(x.Name) && i < len(y.Name); i++ {
 				if x.Name[i] == y.Name[i] {
 					continue
@@ -192,18 +192,26 @@ func (ix *IndexWriter) Add(name string, f io.Reader) error {
 			}
 			return cmp.Compare(len(x.Name), len(y.Name))
 		})
-		for _, file := range files {
+		for i, file := range files {
+			if i+1 < len(files) && files[i+1].Name == file.Name {
+				// Replaced by a later entry of the same name.
+				continue
+			}
+			if !isValidName(file.Name) {
+				log.Printf("%s: malformed name %q", name, file.Name)
+				continue
+			}
 			r, err := file.Open()
 			if err != nil {
-				println("no3", name)
-
-				log.Printf("%s: %v", r, err)
+				log.Printf("%s: %s: %v", name, file.Name, err)
 				continue
 			}
-			ix.add(name+"\x01"+file.Name, r)
+			if err := ix.add(name+"\x01"+file.Name, r); err != nil {
+				log.Printf("%s: %s: %v", name, file.Name, err)
+			}
 			r.Close()
 		}
-		return err
+		return nil
 	}
 
 NoZip:
-- 
2.43.0


From 35c4a586ed7254a3131e9c27baf325064c0fcf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:25 +0000
Subject: [PATCH 16/31] fix: cindex -zip: report an archive that cannot be
 examined

If the size of a zip file could not be read, the archive was treated as
an ordinary file, found not to be text, and silently left out.
---
 index/write.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/index/write.go b/index/write.go
index 5febad8..fa2c2f8 100644
--- a/index/write.go
+++ b/index/write.go
@@ -169,7 +169,10 @@ func (ix *IndexWriter) Add(name string, f io.Reader) error {
 			goto NoZip
 		}
 		info, err := f.Stat()
-		if err != nil || !info.Mode().IsRegular() {
+		if err != nil {
+			return err
+		}
+		if !info.Mode().IsRegular() {
 			goto NoZip
 		}
 		r, err := zip.NewReader(f, info.Size())
-- 
2.43.0


From 9b44d9fb2373574f86f95a1769e18cccd8fa31fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 17/31] fix: csweb: close the index and the last archive after
 each request

---
 cmd/csweb/web.go      | 6 ++++++
 index/mmap_bsd.go     | 6 ++++++
 index/mmap_linux.go   | 6 ++++++
 index/mmap_windows.go | 7 +++++++
 index/read.go         | 8 ++++++++
 5 files changed, 33 insertions(+)

diff --git a/cmd/csweb/web.go b/cmd/csweb/web.go
index 4b46d92..81502dc 100644
--- a/cmd/csweb/web.go
+++ b/cmd/csweb/web.go
@@ -76,6 +76,7 @@ func home(w http.ResponseWriter, r *http.Request) {
 
 	start := time.Now()
 	ix := index.Open(index.File())
+	defer ix.Close()
 	ix.Verbose = *verboseFlag
 	post := ix.PostingQuery(q)
 	if *verboseFlag {
@@ -104,6 +105,11 @@ func home(w http.ResponseWriter, r *http.Request) {
 		zipReader *zip.ReadCloser
 		zipMap    map[string]*zip.File
 	)
+	defer func() {
+		if zipReader != nil {
+			zipReader.Close()
+		}
+	}()
 
 	for _, fileid := range post {
 		if g.Limited {
diff --git a/index/mmap_bsd.go b/index/mmap_bsd.go
index ce1de14..284e271 100644
--- a/index/mmap_bsd.go
+++ b/index/mmap_bsd.go
@@ -37,3 +37,9 @@ func mmapFile(f *os.File) mmapData {
 	}
 	return mmapData{f, data[:n]}
 }
+
+func munmap(data []byte) {
+	if len(data) > 0 {
+		syscall.Munmap(data[:cap(data)])
+	}
+}
diff --git a/index/mmap_linux.go b/index/mmap_linux.go
index a3c961d..083c04c 100644
--- a/index/mmap_linux.go
+++ b/index/mmap_linux.go
@@ -29,3 +29,9 @@ func mmapFile(f *os.File) mmapData {
 	}
 	return mmapData{f, data[:n]}
 }
+
+func munmap(data []byte) {
+	if len(data) > 0 {
+		syscall.Munmap(data[:cap(data)])
+	}
+}
diff --git a/index/mmap_windows.go b/index/mmap_windows.go
index 38ae274..1519a4e 100644
--- a/index/mmap_windows.go
+++ b/index/mmap_windows.go
@@ -27,6 +27,7 @@ func mmapFile(f *os.File) mmapData {
 	if err != nil {
 		log.Fatalf("CreateFileMapping %s: %v", f.Name(), err)
 	}
+	defer syscall.CloseHandle(h) // the view keeps the mapping alive
 
 	addr, err := syscall.MapViewOfFile(h, syscall.FILE_MAP_READ, 0, 0, 0)
 	if err != nil {
@@ -35,3 +36,9 @@ func mmapFile(f *os.File) mmapData {
 	data := (*[1 << 30]byte)(unsafe.Pointer(addr))
 	return mmapData{f, data[:size]}
 }
+
+func munmap(data []byte) {
+	if len(data) > 0 {
+		syscall.UnmapViewOfFile(uintptr(unsafe.Pointer(&data[0])))
+	}
+}
diff --git a/index/read.go b/index/read.go
index 1c8715b..c5deadb 100644
--- a/index/read.go
+++ b/index/read.go
@@ -241,6 +241,14 @@ func Open(file string) *Index {
 	return ix
 }
 
+// Close closes the index. The index, and anything that reads from it
+// (a PathReader, say), must not be used afterward.
+func (ix *Index) Close() {
+	munmap(ix.data.d)
+	ix.data.d = nil
+	ix.data.f.Close()
+}
+
 // slice returns the slice of index data starting at the given byte offset.
 // If n >= 0, the slice must have length at least n and is truncated to length n.
 func (ix *Index) slice(off int, n int) []byte {
-- 
2.43.0


From 8ef636ca956f6eac866d6abcea78a91527c69d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 18/31] fix: csweb: report an index that cannot be opened
 instead of exiting

---
 cmd/csweb/web.go      |  6 +++++-
 index/mmap_bsd.go     | 14 +++++++-------
 index/mmap_linux.go   | 14 +++++++-------
 index/mmap_windows.go | 16 ++++++++--------
 index/read.go         | 36 +++++++++++++++++++++++++++++++-----
 index/write.go        |  6 +++++-
 6 files changed, 63 insertions(+), 29 deletions(-)

diff --git a/cmd/csweb/web.go b/cmd/csweb/web.go
index 81502dc..312983a 100644
--- a/cmd/csweb/web.go
+++ b/cmd/csweb/web.go
@@ -75,7 +75,11 @@ func home(w http.ResponseWriter, r *http.Request) {
 	}
 
 	start := time.Now()
-	ix := index.Open(index.File())
+	ix, err := index.TryOpen(index.File())
+	if err != nil {
+		fmt.Fprintf(w, "cannot open index: %s\n", html.EscapeString(err.Error()))
+		return
+	}
 	defer ix.Close()
 	ix.Verbose = *verboseFlag
 	post := ix.PostingQuery(q)
diff --git a/index/mmap_bsd.go b/index/mmap_bsd.go
index 284e271..e52628b 100644
--- a/index/mmap_bsd.go
+++ b/index/mmap_bsd.go
@@ -7,7 +7,7 @@
 package index
 
 import (
-	"log"
+	"fmt"
 	"os"
 	"syscall"
 )
@@ -18,24 +18,24 @@ const (
 	_MAP_SHARED = 1
 )
 
-func mmapFile(f *os.File) mmapData {
+func mmapFile(f *os.File) (mmapData, error) {
 	st, err := f.Stat()
 	if err != nil {
-		log.Fatal(err)
+		return mmapData{}, err
 	}
 	size := st.Size()
 	if int64(int(size+4095)) != size+4095 {
-		log.Fatalf("%s: too large for mmap", f.Name())
+		return mmapData{}, fmt.Errorf("%s: too large for mmap", f.Name())
 	}
 	n := int(size)
 	if n == 0 {
-		return mmapData{f, nil}
+		return mmapData{f, nil}, nil
 	}
 	data, err := syscall.Mmap(int(f.Fd()), 0, (n+4095)&^4095, _PROT_READ, _MAP_SHARED)
 	if err != nil {
-		log.Fatalf("mmap %s: %v", f.Name(), err)
+		return mmapData{}, fmt.Errorf("mmap %s: %v", f.Name(), err)
 	}
-	return mmapData{f, data[:n]}
+	return mmapData{f, data[:n]}, nil
 }
 
 func munmap(data []byte) {
diff --git a/index/mmap_linux.go b/index/mmap_linux.go
index 083c04c..a5eed85 100644
--- a/index/mmap_linux.go
+++ b/index/mmap_linux.go
@@ -5,29 +5,29 @@
 package index
 
 import (
-	"log"
+	"fmt"
 	"os"
 	"syscall"
 )
 
-func mmapFile(f *os.File) mmapData {
+func mmapFile(f *os.File) (mmapData, error) {
 	st, err := f.Stat()
 	if err != nil {
-		log.Fatal(err)
+		return mmapData{}, err
 	}
 	size := st.Size()
 	if int64(int(size+4095)) != size+4095 {
-		log.Fatalf("%s: too large for mmap", f.Name())
+		return mmapData{}, fmt.Errorf("%s: too large for mmap", f.Name())
 	}
 	n := int(size)
 	if n == 0 {
-		return mmapData{f, nil}
+		return mmapData{f, nil}, nil
 	}
 	data, err := syscall.Mmap(int(f.Fd()), 0, (n+4095)&^4095, syscall.PROT_READ, syscall.MAP_SHARED)
 	if err != nil {
-		log.Fatalf("mmap %s: %v", f.Name(), err)
+		return mmapData{}, fmt.Errorf("mmap %s: %v", f.Name(), err)
 	}
-	return mmapData{f, data[:n]}
+	return mmapData{f, data[:n]}, nil
 }
 
 func munmap(data []byte) {
diff --git a/index/mmap_windows.go b/index/mmap_windows.go
index 1519a4e..c5a1fcd 100644
--- a/index/mmap_windows.go
+++ b/index/mmap_windows.go
@@ -5,36 +5,36 @@
 package index
 
 import (
-	"log"
+	"fmt"
 	"os"
 	"syscall"
 	"unsafe"
 )
 
-func mmapFile(f *os.File) mmapData {
+func mmapFile(f *os.File) (mmapData, error) {
 	st, err := f.Stat()
 	if err != nil {
-		log.Fatal(err)
+		return mmapData{}, err
 	}
 	size := st.Size()
 	if int64(int(size+4095)) != size+4095 {
-		log.Fatalf("%s: too large for mmap", f.Name())
+		return mmapData{}, fmt.Errorf("%s: too large for mmap", f.Name())
 	}
 	if size == 0 {
-		return mmapData{f, nil}
+		return mmapData{f, nil}, nil
 	}
 	h, err := syscall.CreateFileMapping(syscall.Handle(f.Fd()), nil, syscall.PAGE_READONLY, uint32(size>>32), uint32(size), nil)
 	if err != nil {
-		log.Fatalf("CreateFileMapping %s: %v", f.Name(), err)
+		return mmapData{}, fmt.Errorf("CreateFileMapping %s: %v", f.Name(), err)
 	}
 	defer syscall.CloseHandle(h) // the view keeps the mapping alive
 
 	addr, err := syscall.MapViewOfFile(h, syscall.FILE_MAP_READ, 0, 0, 0)
 	if err != nil {
-		log.Fatalf("MapViewOfFile %s: %v", f.Name(), err)
+		return mmapData{}, fmt.Errorf("MapViewOfFile %s: %v", f.Name(), err)
 	}
 	data := (*[1 << 30]byte)(unsafe.Pointer(addr))
-	return mmapData{f, data[:size]}
+	return mmapData{f, data[:size]}, nil
 }
 
 func munmap(data []byte) {
diff --git a/index/read.go b/index/read.go
index c5deadb..a293504 100644
--- a/index/read.go
+++ b/index/read.go
@@ -193,9 +193,29 @@ func (ix *Index) PrintStats() {
 	fmt.Printf("%d posting index\n", ix.numPostBlock*postBlockSize)
 }
 
+// Open opens the named index.
+// If the file cannot be opened, it prints the error and ends the program.
 func Open(file string) *Index {
-	mm := mmap(file)
+	ix, err := TryOpen(file)
+	if err != nil {
+		log.Fatal(err)
+	}
+	return ix
+}
+
+// TryOpen is like Open but returns the error if the file cannot be opened.
+func TryOpen(file string) (*Index, error) {
+	mm, err := mmap(file)
+	if err != nil {
+		return nil, err
+	}
 	ix := &Index{name: file, data: mm}
+	ok := false
+	defer func() {
+		if !ok {
+			ix.Close()
+		}
+	}()
 	if len(mm.d) < len(trailerMagicV1) {
 		ix.corrupt()
 	}
@@ -238,7 +258,8 @@ func Open(file string) *Index {
 		ix.numPostBlock = (n - ix.postIndex) / postBlockSize
 	}
 
-	return ix
+	ok = true
+	return ix, nil
 }
 
 // Close closes the index. The index, and anything that reads from it
@@ -659,12 +680,17 @@ type mmapData struct {
 }
 
 // mmap maps the given file into memory.
-func mmap(file string) mmapData {
+func mmap(file string) (mmapData, error) {
 	f, err := os.Open(file)
 	if err != nil {
-		log.Fatal(err)
+		return mmapData{}, err
+	}
+	mm, err := mmapFile(f)
+	if err != nil {
+		f.Close()
+		return mmapData{}, err
 	}
-	return mmapFile(f)
+	return mm, nil
 }
 
 // TODO look in parent directories for index
diff --git a/index/write.go b/index/write.go
index fa2c2f8..f301b5c 100644
--- a/index/write.go
+++ b/index/write.go
@@ -482,7 +482,11 @@ type postHeap struct {
 
 func (h *postHeap) addFile(w *Buffer, ends []int) {
 	w.Flush()
-	data := mmapFile(w.file).d
+	mm, err := mmapFile(w.file)
+	if err != nil {
+		log.Fatal(err)
+	}
+	data := mm.d
 	start := 0
 	for _, end := range ends {
 		var r allPostReader
-- 
2.43.0


From 0930c3dc8c329536cc816309909727b84de3e999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 19/31] fix: csweb: escape the query in error messages

---
 cmd/csweb/web.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/csweb/web.go b/cmd/csweb/web.go
index 312983a..c123cb8 100644
--- a/cmd/csweb/web.go
+++ b/cmd/csweb/web.go
@@ -56,7 +56,7 @@ func home(w http.ResponseWriter, r *http.Request) {
 	pat := "(?m)" + qarg
 	re, err := regexp.Compile(pat)
 	if err != nil {
-		fmt.Fprintf(w, "Bad query: %v\n", err)
+		fmt.Fprintf(w, "Bad query: %s\n", html.EscapeString(err.Error()))
 		return
 	}
 	g.Regexp = re
@@ -65,7 +65,7 @@ func home(w http.ResponseWriter, r *http.Request) {
 	if farg != "" {
 		fre, err = regexp.Compile(farg)
 		if err != nil {
-			fmt.Fprintf(w, "Bad -f flag: %v\n", err)
+			fmt.Fprintf(w, "Bad -f flag: %s\n", html.EscapeString(err.Error()))
 			return
 		}
 	}
-- 
2.43.0


From 1b2905b4dcf599b4d988d2e24f5b61db2210c799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 20/31] fix: csweb: do not read devices and FIFOs

---
 cmd/csweb/web.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/csweb/web.go b/cmd/csweb/web.go
index c123cb8..9b5ce2f 100644
--- a/cmd/csweb/web.go
+++ b/cmd/csweb/web.go
@@ -204,6 +204,12 @@ func show(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
+	if !info.Mode().IsRegular() {
+		// Reading a device or a FIFO might never end.
+		http.Error(w, file+": not a regular file", 500)
+		return
+	}
+
 	data, err := os.ReadFile(file)
 	if err != nil {
 		http.Error(w, err.Error(), 500)
-- 
2.43.0


From b15555c9cff1b57e8546e91ed5f1be047d916899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 21/31] fix: csweb: do not serve the content of files as HTML

---
 cmd/csweb/web.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cmd/csweb/web.go b/cmd/csweb/web.go
index 9b5ce2f..6c1544b 100644
--- a/cmd/csweb/web.go
+++ b/cmd/csweb/web.go
@@ -215,6 +215,15 @@ func show(w http.ResponseWriter, r *http.Request) {
 		http.Error(w, err.Error(), 500)
 		return
 	}
+	if !isText(data) {
+		// Sent as is. Must not be taken for a page of this server.
+		ctype := http.DetectContentType(data)
+		if strings.HasPrefix(ctype, "text/") {
+			ctype = "text/plain; charset=utf-8"
+		}
+		w.Header().Set("Content-Type", ctype)
+		w.Header().Set("X-Content-Type-Options", "nosniff")
+	}
 	w.Write(serveFile(file, data))
 }
 
-- 
2.43.0


From 5ce26d0fbb2e5355ca162605224d62a5b1aa03e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 22/31] fix: csweb, csearch -html: escape file names and
 queries in links

---
 cmd/csweb/web.go | 10 ++++++++--
 regexp/match.go  | 13 +++++++++----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/cmd/csweb/web.go b/cmd/csweb/web.go
index 6c1544b..e0de828 100644
--- a/cmd/csweb/web.go
+++ b/cmd/csweb/web.go
@@ -14,6 +14,7 @@ import (
 	"io/fs"
 	"log"
 	"net/http"
+	"net/url"
 	"os"
 	"path"
 	"path/filepath"
@@ -237,12 +238,17 @@ func printHeader(buf *bytes.Buffer, file string) {
 	f := ""
 	for _, elem := range strings.Split(file, "/") {
 		f += "/" + elem
-		fmt.Fprintf(buf, `/<a href="/show%s">%s</a>`, e(f), e(elem))
+		fmt.Fprintf(buf, `/<a href="/show%s">%s</a>`, e(urlPath(f)), e(elem))
 	}
 	fmt.Fprintf(buf, `</b> <small>(<a href="/">about</a>)</small>`)
 	fmt.Fprintf(buf, "\n\n")
 }
 
+// urlPath returns the file name escaped for use as the path of a URL.
+func urlPath(file string) string {
+	return (&url.URL{Path: file}).EscapedPath()
+}
+
 func serveDir(file string, dir []fs.DirEntry) []byte {
 	var buf bytes.Buffer
 	e := html.EscapeString
@@ -250,7 +256,7 @@ func serveDir(file string, dir []fs.DirEntry) []byte {
 	for _, d := range dir {
 		// Note: file is the full path including mod@vers.
 		file := path.Join(file, d.Name())
-		fmt.Fprintf(&buf, "<a href=\"/show%s\">%s</a>\n", e(file), e(path.Base(file)))
+		fmt.Fprintf(&buf, "<a href=\"/show%s\">%s</a>\n", e(urlPath(file)), e(path.Base(file)))
 	}
 	return buf.Bytes()
 }
diff --git a/regexp/match.go b/regexp/match.go
index 959bd73..88cf933 100644
--- a/regexp/match.go
+++ b/regexp/match.go
@@ -11,11 +11,11 @@ import (
 	"fmt"
 	"html"
 	"io"
+	"net/url"
 	"os"
 	"regexp/syntax"
 	"sort"
 	"strconv"
-	"strings"
 
 	"github.com/google/codesearch/sparse"
 )
@@ -429,6 +429,11 @@ func countNL(b []byte) int {
 	return n
 }
 
+// urlPath returns the file name escaped for use as the path of a URL.
+func urlPath(name string) string {
+	return (&url.URL{Path: name}).EscapedPath()
+}
+
 func (g *Grep) Reader(r io.Reader, name string) {
 	if g.buf == nil {
 		g.buf = make([]byte, grepBufSize)
@@ -475,7 +480,7 @@ func (g *Grep) Reader(r io.Reader, name string) {
 			g.Matches++
 			if g.L {
 				if g.HTML {
-					fmt.Fprintf(g.Stdout, "<a href=\"show/%s\">%s</a>\n", g.esc(name), g.esc(name))
+					fmt.Fprintf(g.Stdout, "<a href=\"show/%s\">%s</a>\n", g.esc(urlPath(name)), g.esc(name))
 				} else {
 					fmt.Fprintf(g.Stdout, "%s\n", name)
 				}
@@ -503,7 +508,7 @@ func (g *Grep) Reader(r io.Reader, name string) {
 					fmt.Fprintf(g.Stdout, "\t\t%s\n", line)
 				}
 			case g.HTML:
-				fmt.Fprintf(g.Stdout, "<a href=\"/show/%s?q=%s#L%d\">%s:%d</a>:%s%s", g.esc(strings.ReplaceAll(name, "#", ">")), g.esc(g.Regexp.String()), lineno, g.esc(name), lineno, g.esc(string(line)), nl)
+				fmt.Fprintf(g.Stdout, "<a href=\"/show/%s?q=%s#L%d\">%s:%d</a>:%s%s", g.esc(urlPath(name)), g.esc(url.QueryEscape(g.Regexp.String())), lineno, g.esc(name), lineno, g.esc(string(line)), nl)
 			case g.N:
 				fmt.Fprintf(g.Stdout, "%s%d:%s%s", prefix, lineno, line, nl)
 			default:
@@ -535,7 +540,7 @@ func (g *Grep) Reader(r io.Reader, name string) {
 	}
 	if g.C && count > 0 {
 		if g.HTML {
-			fmt.Fprintf(g.Stdout, "<a href=\"show/%s?q=%s\">%s</a>: %d\n", g.esc(name), g.esc(g.Regexp.String()), g.esc(name), count)
+			fmt.Fprintf(g.Stdout, "<a href=\"show/%s?q=%s\">%s</a>: %d\n", g.esc(urlPath(name)), g.esc(url.QueryEscape(g.Regexp.String())), g.esc(name), count)
 		} else {
 			fmt.Fprintf(g.Stdout, "%s: %d\n", name, count)
 		}
-- 
2.43.0


From c8294d6d309a96387cc64d3d372cd17a37c5ae05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 23/31] fix: csearch -html: escape lines printed with context

---
 regexp/match.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/regexp/match.go b/regexp/match.go
index 88cf933..01436b7 100644
--- a/regexp/match.go
+++ b/regexp/match.go
@@ -498,14 +498,14 @@ func (g *Grep) Reader(r io.Reader, name string) {
 			case g.C:
 				count++
 			case g.PreContext+g.PostContext > 0:
-				fmt.Fprintf(g.Stdout, "%s%d:\n", prefix, lineno)
+				fmt.Fprintf(g.Stdout, "%s%d:\n", g.esc(prefix), lineno)
 				before, match, after := lineContext(g.PreContext, g.PostContext, buf, lineStart, lineEnd)
 				for _, line := range before {
-					fmt.Fprintf(g.Stdout, "\t\t%s\n", line)
+					fmt.Fprintf(g.Stdout, "\t\t%s\n", g.esc(string(line)))
 				}
-				fmt.Fprintf(g.Stdout, "\t>>\t%s\n", match)
+				fmt.Fprintf(g.Stdout, "\t>>\t%s\n", g.esc(string(match)))
 				for _, line := range after {
-					fmt.Fprintf(g.Stdout, "\t\t%s\n", line)
+					fmt.Fprintf(g.Stdout, "\t\t%s\n", g.esc(string(line)))
 				}
 			case g.HTML:
 				fmt.Fprintf(g.Stdout, "<a href=\"/show/%s?q=%s#L%d\">%s:%d</a>:%s%s", g.esc(urlPath(name)), g.esc(url.QueryEscape(g.Regexp.String())), lineno, g.esc(name), lineno, g.esc(string(line)), nl)
-- 
2.43.0


From df09383a06ac4ea1390700a8b1732c14805a1594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:05 +0000
Subject: [PATCH 24/31] fix: csweb: escape the file name in a read error

The message of a read error contains the file name, and csweb writes it
into its page.
---
 regexp/match.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regexp/match.go b/regexp/match.go
index 01436b7..a72de47 100644
--- a/regexp/match.go
+++ b/regexp/match.go
@@ -533,7 +533,7 @@ func (g *Grep) Reader(r io.Reader, name string) {
 		chunkStart = d
 		if endText && err != nil {
 			if err != io.EOF && err != io.ErrUnexpectedEOF {
-				fmt.Fprintf(g.Stderr, "%s: %v\n", g.esc(name), err)
+				fmt.Fprintf(g.Stderr, "%s: %s\n", g.esc(name), g.esc(err.Error()))
 			}
 			break
 		}
-- 
2.43.0


From 32219a3fba1d7cddd626a68291eb0ef94d5fa55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:05 +0000
Subject: [PATCH 25/31] fix: csearch: report indexed files that cannot be
 opened

A file that could not be opened, other than because it is gone, was
silently left out of the results, and so were the members of an archive
that could not be read.
---
 cmd/csearch/csearch.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cmd/csearch/csearch.go b/cmd/csearch/csearch.go
index 7f47dd2..d3860e2 100644
--- a/cmd/csearch/csearch.go
+++ b/cmd/csearch/csearch.go
@@ -163,6 +163,7 @@ func Main() {
 					zipFile = zfile
 					zipReader, err = zip.OpenReader(zfile)
 					if err != nil {
+						logError(zfile, err)
 						zipReader = nil
 					}
 					if zipReader != nil {
@@ -176,12 +177,15 @@ func Main() {
 				if file != nil {
 					r, err := file.Open()
 					if err != nil {
+						log.Printf("%s: %v", name, err)
 						continue
 					}
 					g.Reader(r, name)
 					r.Close()
 					continue
 				}
+			} else {
+				logError(name, err)
 			}
 			continue
 		}
@@ -200,6 +204,14 @@ func main() {
 	os.Exit(0)
 }
 
+// logError logs the failure to open the indexed file name,
+// unless the file has been removed since it was indexed.
+func logError(name string, err error) {
+	if !os.IsNotExist(err) {
+		log.Printf("%s: %v", name, err)
+	}
+}
+
 // stdout writes to os.Stdout and exits if that fails,
 // so that lost output is not mistaken for a complete result.
 type stdout struct{}
-- 
2.43.0


From e2cfd7aa60a44d2c4b3b8b723c4c9ddb5a22c391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:39 +0000
Subject: [PATCH 26/31] fix: csweb: survive an index that is cut off while it
 is mapped

---
 cmd/csweb/web.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/csweb/web.go b/cmd/csweb/web.go
index e0de828..ed0216d 100644
--- a/cmd/csweb/web.go
+++ b/cmd/csweb/web.go
@@ -18,6 +18,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"runtime/debug"
 	"strings"
 	"time"
 	"unicode/utf8"
@@ -41,6 +42,9 @@ func main() {
 var static embed.FS
 
 func home(w http.ResponseWriter, r *http.Request) {
+	// If the index is cut off while it is mapped, the request fails, not the server.
+	defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
+
 	qarg := r.FormValue("q")
 	w.Write([]byte(strings.ReplaceAll(homePage, "QUERY", html.EscapeString(qarg))))
 	if qarg == "" {
-- 
2.43.0


From b5b14c0cd4ca1c73c6761d6333f1aceb197b5ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:39 +0000
Subject: [PATCH 27/31] fix: index: refuse impossible counts in a damaged index

---
 index/read.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/index/read.go b/index/read.go
index a293504..ef5df36 100644
--- a/index/read.go
+++ b/index/read.go
@@ -258,6 +258,11 @@ func TryOpen(file string) (*Index, error) {
 		ix.numPostBlock = (n - ix.postIndex) / postBlockSize
 	}
 
+	// Do not let a damaged count make callers allocate all memory.
+	if ix.numName < 0 || ix.numName > len(mm.d) {
+		ix.corrupt()
+	}
+
 	ok = true
 	return ix, nil
 }
@@ -445,6 +450,9 @@ func (r *postReader) init(ix *Index, trigram uint32, restrict []int) {
 	if count == 0 {
 		return
 	}
+	if count < 0 || count > ix.numName {
+		ix.corrupt()
+	}
 	r.ix = ix
 	r.count = count
 	r.offset = offset
-- 
2.43.0


From a0775326e236ef6da602354ccee144695bdb3458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:39 +0000
Subject: [PATCH 28/31] fix: cindex, csearch, csweb: do not wait for a file
 that became a FIFO

---
 cmd/csearch/csearch.go |  6 +++---
 cmd/csweb/web.go       |  6 +++---
 index/read.go          | 47 ++++++++++++++++++++++++++++++++++++++++++
 index/write.go         |  4 ++--
 4 files changed, 55 insertions(+), 8 deletions(-)

diff --git a/cmd/csearch/csearch.go b/cmd/csearch/csearch.go
index d3860e2..67053d3 100644
--- a/cmd/csearch/csearch.go
+++ b/cmd/csearch/csearch.go
@@ -139,7 +139,7 @@ func Main() {
 
 	var (
 		zipFile   string
-		zipReader *zip.ReadCloser
+		zipReader *index.ZipArchive
 		zipMap    map[string]*zip.File
 	)
 
@@ -151,7 +151,7 @@ func Main() {
 			g.Reader(strings.NewReader("\n"), name)
 			continue
 		}
-		file, err := os.Open(string(name))
+		file, err := index.OpenFile(name)
 		if err != nil {
 			if i := strings.Index(name, ".zip\x01"); i >= 0 {
 				zfile, zname := name[:i+4], name[i+5:]
@@ -161,7 +161,7 @@ func Main() {
 						zipMap = nil
 					}
 					zipFile = zfile
-					zipReader, err = zip.OpenReader(zfile)
+					zipReader, err = index.OpenZip(zfile)
 					if err != nil {
 						logError(zfile, err)
 						zipReader = nil
diff --git a/cmd/csweb/web.go b/cmd/csweb/web.go
index ed0216d..a5dec86 100644
--- a/cmd/csweb/web.go
+++ b/cmd/csweb/web.go
@@ -111,7 +111,7 @@ func home(w http.ResponseWriter, r *http.Request) {
 
 	var (
 		zipFile   string
-		zipReader *zip.ReadCloser
+		zipReader *index.ZipArchive
 		zipMap    map[string]*zip.File
 	)
 	defer func() {
@@ -125,7 +125,7 @@ func home(w http.ResponseWriter, r *http.Request) {
 			break
 		}
 		name := ix.Name(fileid).String()
-		file, err := os.Open(name)
+		file, err := index.OpenFile(name)
 		if err != nil {
 			if i := strings.Index(name, ".zip\x01"); i >= 0 {
 				zfile, zname := name[:i+4], name[i+5:]
@@ -135,7 +135,7 @@ func home(w http.ResponseWriter, r *http.Request) {
 						zipMap = nil
 					}
 					zipFile = zfile
-					zipReader, err = zip.OpenReader(zfile)
+					zipReader, err = index.OpenZip(zfile)
 					if err != nil {
 						zipReader = nil
 					}
diff --git a/index/read.go b/index/read.go
index ef5df36..719fb7b 100644
--- a/index/read.go
+++ b/index/read.go
@@ -145,15 +145,18 @@ package index
 // [γ-coded]: https://en.wikipedia.org/wiki/Elias_gamma_coding
 
 import (
+	"archive/zip"
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"iter"
 	"log"
 	"os"
 	"path/filepath"
 	"runtime"
 	"sort"
+	"syscall"
 )
 
 const (
@@ -701,6 +704,50 @@ func mmap(file string) (mmapData, error) {
 	return mm, nil
 }
 
+// OpenFile opens the named file for reading. Unlike os.Open, it does not wait
+// for a writer if the file is a FIFO: it refuses anything but a regular file
+// or a directory.
+func OpenFile(name string) (*os.File, error) {
+	f, err := os.OpenFile(name, os.O_RDONLY|syscall.O_NONBLOCK, 0)
+	if err != nil {
+		return nil, err
+	}
+	info, err := f.Stat()
+	if err == nil && !info.Mode().IsRegular() && !info.IsDir() {
+		err = fmt.Errorf("%s: not a regular file", name)
+	}
+	if err != nil {
+		f.Close()
+		return nil, err
+	}
+	return f, nil
+}
+
+// A ZipArchive is an open zip archive.
+type ZipArchive struct {
+	*zip.Reader
+	io.Closer
+}
+
+// OpenZip opens the named zip archive. Like OpenFile, it does not wait.
+func OpenZip(name string) (*ZipArchive, error) {
+	f, err := OpenFile(name)
+	if err != nil {
+		return nil, err
+	}
+	info, err := f.Stat()
+	if err != nil {
+		f.Close()
+		return nil, err
+	}
+	r, err := zip.NewReader(f, info.Size())
+	if err != nil {
+		f.Close()
+		return nil, err
+	}
+	return &ZipArchive{r, f}, nil
+}
+
 // TODO look in parent directories for index
 // TODO cindex -init
 
diff --git a/index/write.go b/index/write.go
index f301b5c..5374300 100644
--- a/index/write.go
+++ b/index/write.go
@@ -137,10 +137,10 @@ func (ix *IndexWriter) AddRoots(roots []Path) {
 	ix.roots = append(ix.roots, roots...)
 }
 
-// AddFile adds the file with the given name (opened using os.Open)
+// AddFile adds the file with the given name (opened using OpenFile)
 // to the index.  It logs errors using package log.
 func (ix *IndexWriter) AddFile(name string) error {
-	f, err := os.Open(name)
+	f, err := OpenFile(name)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 427a096ef2d4e6b4f7587c9edc2c289ebf0e2bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:40 +0000
Subject: [PATCH 29/31] fix: cindex: do not wait for a directory that became a
 FIFO

---
 cmd/cindex/cindex.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmd/cindex/cindex.go b/cmd/cindex/cindex.go
index ff7fbad..cd2c2db 100644
--- a/cmd/cindex/cindex.go
+++ b/cmd/cindex/cindex.go
@@ -7,6 +7,7 @@ package main
 import (
 	"flag"
 	"fmt"
+	"io/fs"
 	"log"
 	"os"
 	"path/filepath"
@@ -153,11 +154,11 @@ func main() {
 	ix.AddRoots(roots)
 	for _, root := range roots {
 		log.Printf("index %s", root)
-		filepath.Walk(root.String(), func(path string, info os.FileInfo, err error) error {
+		filepath.WalkDir(root.String(), func(path string, d fs.DirEntry, err error) error {
 			if _, elem := filepath.Split(path); elem != "" {
 				// Skip various temporary or "hidden" files or directories.
 				if elem[0] == '.' || elem[0] == '#' || elem[0] == '~' || elem[len(elem)-1] == '~' {
-					if info != nil && info.IsDir() {
+					if d != nil && d.IsDir() {
 						return filepath.SkipDir
 					}
 					return nil
@@ -167,7 +168,7 @@ func main() {
 				log.Printf("%s: %s", path, err)
 				return nil
 			}
-			if info != nil && info.Mode()&os.ModeType == 0 {
+			if d != nil && d.Type() == 0 {
 				if err := ix.AddFile(path); err != nil {
 					log.Printf("%s: %s", path, err)
 					return nil
-- 
2.43.0


From f3622924d8fefbd37ea80aeefd8bc5d064e313bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:17 +0000
Subject: [PATCH 30/31] fix: regexp: search correctly around a line longer than
 the buffer

---
 regexp/match.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/regexp/match.go b/regexp/match.go
index a72de47..0740fbb 100644
--- a/regexp/match.go
+++ b/regexp/match.go
@@ -460,8 +460,16 @@ func (g *Grep) Reader(r io.Reader, name string) {
 			// also stop before g.PostContext whole lines,
 			// so we know we'll have the context we need to print.
 			d := lineSuffixLen(buf, g.PostContext+1)
-			if d < len(buf) {
+			if len(buf)-d <= chunkStart {
+				// Not enough room; give up on context.
+				d = lineSuffixLen(buf, 0)
+			}
+			if len(buf)-d > chunkStart {
 				end = len(buf) - d
+			} else if chunkStart > 0 {
+				buf = buf[:copy(buf, buf[chunkStart:])]
+				chunkStart = 0
+				continue
 			}
 		} else {
 			endText = true
-- 
2.43.0


From 84e0b8c8f6cca724e0f34f42c967e78ceef1872d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:19 +0000
Subject: [PATCH 31/31] fix: regexp: count a line longer than the buffer once

---
 regexp/match.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regexp/match.go b/regexp/match.go
index 0740fbb..2df6dcf 100644
--- a/regexp/match.go
+++ b/regexp/match.go
@@ -523,7 +523,7 @@ func (g *Grep) Reader(r io.Reader, name string) {
 				fmt.Fprintf(g.Stdout, "%s%s%s", prefix, line, nl)
 			}
 			if needLineno {
-				lineno++
+				lineno += countNL(line)
 			}
 			chunkStart = lineEnd
 		}
-- 
2.43.0

