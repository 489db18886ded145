From 978d936b3ecf2dbeebf49cc3b79d8af2c41c0b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:41 +0000
Subject: [PATCH 01/33] fix: nodeindex lost the first run of a block starting
 at node id 1

notAssigned is MaxUint64, so lastId+2 wraps to 1 and the first id was taken
for a continuation of a run that never started.
---
 cmd/nodeindex/indexer/nodeindexer_worker.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/nodeindex/indexer/nodeindexer_worker.go b/cmd/nodeindex/indexer/nodeindexer_worker.go
index 4e08c2d..43b5447 100644
--- a/cmd/nodeindex/indexer/nodeindexer_worker.go
+++ b/cmd/nodeindex/indexer/nodeindexer_worker.go
@@ -57,9 +57,9 @@ func (ni *NodeIndexer) Worker(ctx context.Context, chIn <-chan pbf.Block, chOut
 			}
 			for idx, id := range pg.Dense.Id {
 				uid := uint64(id)
-				if uid == lastId+1 { // extend current block
+				if firstId != notAssigned && uid == lastId+1 { // extend current block
 					lastId = uid
-				} else if uid == lastId+2 {
+				} else if firstId != notAssigned && uid == lastId+2 {
 					outputLoc = append(outputLoc, 0)
 					lastId = uid
 				} else {
-- 
2.43.0


From f826b16622a6a8cc381862ff056b2470cbb4fa83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:41 +0000
Subject: [PATCH 02/33] fix: node sub-indexes dropped the tail of the index or
 failed on some passes

The per-pass share rounds down, so with more than one pass the last ids could
belong to no pass.  A pass starting after the last element took the whole
index, and one ending before the first (or any pass of an empty index) read
element -1.
---
 internal/nodeindex/nodeindex.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/nodeindex/nodeindex.go b/internal/nodeindex/nodeindex.go
index 7d15a5e..08bda6c 100644
--- a/internal/nodeindex/nodeindex.go
+++ b/internal/nodeindex/nodeindex.go
@@ -71,9 +71,13 @@ func (idx *NodeIndex) SubIndex(curPass uint64, countPass uint64) *NodeSubIndex {
 	sliceSize := uint64(len(idx.locations)) / countPass
 	startTarget := sliceSize * curPass
 	endTarget := startTarget + sliceSize
+	if curPass+1 == countPass {
+		// The division rounds down, the last pass takes whatever remains
+		endTarget = uint64(len(idx.locations))
+	}
 
 	runningTotal := uint64(0)
-	startIndex := uint64(0)
+	startIndex := uint64(len(subIds))
 	endIndex := uint64(len(subIds))
 	for i := uint64(0); i < uint64(len(subIds)); i++ {
 		if runningTotal >= startTarget {
@@ -91,11 +95,16 @@ func (idx *NodeIndex) SubIndex(curPass uint64, countPass uint64) *NodeSubIndex {
 		runningTotal += subIds[i].Count()
 	}
 
+	top := uint64(0)
+	if endIndex > 0 {
+		top = subIds[endIndex-1].LastID()
+	}
+
 	return &NodeSubIndex{
 		parent:    idx,
 		element:   subIds[startIndex:endIndex],
 		locations: idx.locations,
-		Top:       subIds[endIndex-1].LastID(),
+		Top:       top,
 	}
 }
 
-- 
2.43.0


From a7ddea69baf8d057e5f7dbee85379cb56237cb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:41 +0000
Subject: [PATCH 03/33] fix: way sub-indexes dropped the tail of the index or
 covered all of it

The per-pass share rounds down, so ways at the end could belong to no pass,
and a pass starting after the last way took the whole index.
---
 internal/wayindex/wayindex.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/wayindex/wayindex.go b/internal/wayindex/wayindex.go
index c1a435f..67043b8 100644
--- a/internal/wayindex/wayindex.go
+++ b/internal/wayindex/wayindex.go
@@ -68,8 +68,12 @@ func (idx *WayIndex) SubIndexWithScaledPass(curPass int, countPass int) *SubWayI
 	// These targets are likely to be mid way, but that's fine
 	startTarget := int64((len(idx.Loc) / countPass) * curPass)
 	endTarget := int64((len(idx.Loc) / countPass) * (curPass + 1))
+	if curPass+1 == countPass {
+		// The division rounds down, the last pass takes whatever remains
+		endTarget = int64(len(idx.Loc))
+	}
 
-	startIndex := 0
+	startIndex := len(subIds)
 
 	endIndex := len(subIds)
 	for i := 0; i < len(subIds); i++ {
@@ -86,11 +90,16 @@ func (idx *WayIndex) SubIndexWithScaledPass(curPass int, countPass int) *SubWayI
 		}
 	}
 
+	top := int64(0)
+	if endIndex > 0 {
+		top = subIds[endIndex-1].WayID()
+	}
+
 	return &SubWayIndex{
 		parent: idx,
 		Ids:    subIds[startIndex:endIndex],
 		Loc:    idx.Loc,
-		Top:    int64(subIds[endIndex-1].WayID()),
+		Top:    top,
 	}
 }
 
-- 
2.43.0


From 7705fb571c3e6ff19328bd92804fcc62433d22bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 04/33] fix: the way index of a file without ways could not be
 used

It was indistinguishable from an unfinished index, whose header is all zeroes,
and made relindex fail.  Mark unfinished way indexes with a negative count.
---
 cmd/wayindex/wayindexer/wayindexer_writer.go | 3 ++-
 internal/wayindex/wayindex.go                | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/wayindex/wayindexer/wayindexer_writer.go b/cmd/wayindex/wayindexer/wayindexer_writer.go
index 10127cd..72f8aab 100644
--- a/cmd/wayindex/wayindexer/wayindexer_writer.go
+++ b/cmd/wayindex/wayindexer/wayindexer_writer.go
@@ -19,7 +19,8 @@ func (ni *WayIndexer) Output(outputFileName string, alignmentShift int) func(ctx
 		outputFileLoc := iio.OsCreate(outputFileName + ".loc.tmp")
 
 		// Reserve 16 bytes.  Don't need nearly this much for the header, but it keeps things in cache lines
-		iio.FWriteSliceI64(outputFileIdx, []int64{0, 0})
+		// A negative count marks the index as unfinished until the header is filled in at the end.
+		iio.FWriteSliceI64(outputFileIdx, []int64{-1, -1})
 
 		var outputData []uint64
 		locationLength := int64(0)
diff --git a/internal/wayindex/wayindex.go b/internal/wayindex/wayindex.go
index 67043b8..592c4d6 100644
--- a/internal/wayindex/wayindex.go
+++ b/internal/wayindex/wayindex.go
@@ -36,6 +36,9 @@ func NewWayIndex(fn string, timing *float64) *WayIndex {
 	f := iio.OsOpen(fn)
 	m := iio.MMapMap(f)
 	startOfLocationsInBytes := binary.LittleEndian.Uint64(m[0:8])
+	if int64(startOfLocationsInBytes) < 0 {
+		panic("unfinished index")
+	}
 	startOfLocationsInElements := startOfLocationsInBytes * 8
 	alignmentShift := int(binary.LittleEndian.Uint64(m[8:16]))
 
-- 
2.43.0


From 8156bed1833bc0f9272d3919b5431c84ae4aacf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 05/33] fix: a cancelled nodeindex or wayindex left a valid
 looking index

The header was filled in although blocks or locations were missing.
---
 cmd/nodeindex/indexer/nodeindexer_writer.go  | 6 ++++++
 cmd/wayindex/wayindexer/wayindexer_writer.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/cmd/nodeindex/indexer/nodeindexer_writer.go b/cmd/nodeindex/indexer/nodeindexer_writer.go
index 06f6df0..2ac1430 100644
--- a/cmd/nodeindex/indexer/nodeindexer_writer.go
+++ b/cmd/nodeindex/indexer/nodeindexer_writer.go
@@ -64,6 +64,12 @@ func (ni *NodeIndexer) Output(outputFileName string) func(ctx context.Context, c
 		iio.FClose(outputFileLoc)
 		iio.OsRemove(outputFileName + ".loc.tmp")
 
+		if icontext.IsCancelled(ctx) {
+			// Locations may be missing, leave the header empty so the index is not usable
+			iio.FClose(outputFileIdx)
+			return
+		}
+
 		// Put the index block count at the start of the index file
 		ni.writer.SetCurrentState(state.WriteFinalizing)
 		iio.FSeek(outputFileIdx, 0, io.SeekStart)
diff --git a/cmd/wayindex/wayindexer/wayindexer_writer.go b/cmd/wayindex/wayindexer/wayindexer_writer.go
index 72f8aab..00f075a 100644
--- a/cmd/wayindex/wayindexer/wayindexer_writer.go
+++ b/cmd/wayindex/wayindexer/wayindexer_writer.go
@@ -72,6 +72,12 @@ func (ni *WayIndexer) Output(outputFileName string, alignmentShift int) func(ctx
 		iio.FClose(outputFileLoc)
 		iio.OsRemove(outputFileName + ".loc.tmp")
 
+		if icontext.IsCancelled(ctx) {
+			// Locations may be missing, leave the header unfinished so the index is not usable
+			iio.FClose(outputFileIdx)
+			return
+		}
+
 		// Put the index block count at the start of the index file
 		ni.writer.SetCurrentState(state.WriteFinalizing)
 		iio.FSeek(outputFileIdx, 0, io.SeekStart)
-- 
2.43.0


From 071c297b10c55f8b609063d68ba80e0984ab4c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 06/33] fix: blobs with an empty payload were written without
 any payload field

Reading such a blob back failed with "unexpected compression".
---
 internal/t/blob.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/t/blob.go b/internal/t/blob.go
index be938e4..6f2483e 100644
--- a/internal/t/blob.go
+++ b/internal/t/blob.go
@@ -44,7 +44,7 @@ func (b *Blob) Write(buf []byte) []byte {
 	// If RawFunc is provided, invoke it, otherwise use Raw
 	if b.RawFunc != nil {
 		buf = pb.Embed268435456(blobRaw, b.RawFunc, buf)
-	} else if len(b.Raw) > 0 {
+	} else if b.Raw != nil {
 		buf = pb.EncodeIdBuffer(buf, blobRaw, b.Raw)
 	}
 	if b.RawSize != nil {
-- 
2.43.0


From 454dccf022bb2f486fc081b7aa14619339c7aec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 07/33] fix: tagfilter never closed its output file

A failing close went unnoticed and every run leaked a descriptor.
---
 cmd/tagfilter/tagfilterer/tagfilterer_writer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/tagfilter/tagfilterer/tagfilterer_writer.go b/cmd/tagfilter/tagfilterer/tagfilterer_writer.go
index cb69108..7cefbbd 100644
--- a/cmd/tagfilter/tagfilterer/tagfilterer_writer.go
+++ b/cmd/tagfilter/tagfilterer/tagfilterer_writer.go
@@ -44,5 +44,7 @@ func (tf *TagFilterer) Writer(filename string) pbf.WriteFunc {
 
 			tf.writer.SetCurrentState(state.WriterReading)
 		}
+
+		iio.FClose(outputFile)
 	}
 }
-- 
2.43.0


From 4012c32eb77be089bbdbfddb51f3907628384e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 08/33] fix: adding the empty string to a string table moved it
 away from index 0

Its pinned frequency wrapped around.  With another string at index 0, dense
node tags become ambiguous.
---
 internal/t/string_table_builder.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/t/string_table_builder.go b/internal/t/string_table_builder.go
index 2547a79..416ecd4 100644
--- a/internal/t/string_table_builder.go
+++ b/internal/t/string_table_builder.go
@@ -30,7 +30,8 @@ func (stb *stringTableBuilder) AddString(s string) {
 	if _, ok := stb.stringFrequency[s]; !ok {
 		stb.stringFrequency[s] = 1
 		stb.stringList = append(stb.stringList, s)
-	} else {
+	} else if stb.stringFrequency[s] != math.MaxUint32 {
+		// "" is pinned at the maximum, so it always gets index 0
 		stb.stringFrequency[s] = stb.stringFrequency[s] + 1
 	}
 }
-- 
2.43.0


From c1069e68bc184eae7944419028bff56ef0b11f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 09/33] fix: ways with large reference lists could not be
 written

2000 references take up to 20000 bytes when locations and ids alternate, which
did not fit the 2 byte length.
---
 internal/t/primitive_group.go | 2 +-
 internal/t/way.go             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/t/primitive_group.go b/internal/t/primitive_group.go
index dda9ac0..f73cecc 100644
--- a/internal/t/primitive_group.go
+++ b/internal/t/primitive_group.go
@@ -73,7 +73,7 @@ func (pg *PrimitiveGroup) Write(buf []byte) []byte {
 
 	if pg.Ways != nil {
 		for _, w := range pg.Ways {
-			buf = pb.Embed16384(primitiveGroupWays, w.Write, buf)
+			buf = pb.Embed2097152(primitiveGroupWays, w.Write, buf)
 		}
 	} else {
 		for _, w := range pg.RawWays {
diff --git a/internal/t/way.go b/internal/t/way.go
index 20ba3c6..a6b494e 100644
--- a/internal/t/way.go
+++ b/internal/t/way.go
@@ -47,6 +47,6 @@ func (w *Way) Write(buf []byte) []byte {
 	buf = pb.EncodeIdVarInt(buf, wayId, uint64(w.ID))
 	buf = pb.Embed16384(wayKeys, pb.EncodeU32PackedFunc(w.Keys), buf)
 	buf = pb.Embed16384(wayVals, pb.EncodeU32PackedFunc(w.Vals), buf)
-	buf = pb.Embed16384(wayRefs, pb.EncodeS64PackedDeltaFunc(w.Refs), buf)
+	buf = pb.Embed2097152(wayRefs, pb.EncodeS64PackedDeltaFunc(w.Refs), buf)
 	return buf
 }
-- 
2.43.0


From 04c6f9380f0b887ca9a4287b487135817cb16e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 10/33] fix: index entries accepted values one past what their
 fields hold

A count of 1<<24, a way id of 1<<31 or an offset of 1<<33 spilled into the
neighbouring field, as did negative way ids and offsets.
---
 internal/nodeindex/count_offset.go | 2 +-
 internal/wayindex/indexdata.go     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/nodeindex/count_offset.go b/internal/nodeindex/count_offset.go
index 2413480..eb488bc 100644
--- a/internal/nodeindex/count_offset.go
+++ b/internal/nodeindex/count_offset.go
@@ -22,7 +22,7 @@ func NewCountOffset(count, offset uint64) CountOffset {
 	if offset >= OffsetMax {
 		panic("offset out of range")
 	}
-	if count > CountMax {
+	if count >= CountMax {
 		panic("too many items")
 	}
 	return CountOffset((offset << CountBits) | count)
diff --git a/internal/wayindex/indexdata.go b/internal/wayindex/indexdata.go
index e151500..c67af1d 100644
--- a/internal/wayindex/indexdata.go
+++ b/internal/wayindex/indexdata.go
@@ -16,10 +16,10 @@ func (id WayIndexData) Offset() int64 {
 }
 
 func MakeIndexData(wayID int64, offset int64) WayIndexData {
-	if wayID > (1 << 31) {
+	if wayID < 0 || wayID >= (1<<31) {
 		panic("wayID too large")
 	}
-	if offset > (1 << 33) {
+	if offset < 0 || offset >= (1<<33) {
 		panic(fmt.Sprintf("offset too large: %d\n", offset))
 	}
 	return WayIndexData(wayID<<33 | offset)
-- 
2.43.0


From 8a6b9933683d22a88f5ab5e81a1b218cce73903b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 11/33] fix: data race between reading and setting the size of
 the processed file

The progress display reads it while the file is still being opened.
---
 internal/pbf/process.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/pbf/process.go b/internal/pbf/process.go
index ec5da67..2849f0b 100644
--- a/internal/pbf/process.go
+++ b/internal/pbf/process.go
@@ -47,7 +47,7 @@ func (pfs *ProcessFileState) At() uint64 {
 }
 
 func (pfs *ProcessFileState) Max() uint64 {
-	return pfs.max
+	return atomic.LoadUint64(&pfs.max)
 }
 
 func (pfs *ProcessFileState) Wait() {
@@ -98,7 +98,7 @@ func (pfs *ProcessFileState) processFileWork(
 	}
 
 	atomic.StoreUint64(&pfs.at, 0)
-	pfs.max = uint64(len(inputBuffer))
+	atomic.StoreUint64(&pfs.max, uint64(len(inputBuffer)))
 
 	blobIndex := uint64(0)
 
-- 
2.43.0


From 7900148e297bd0d816e37ae0d34c0fd8b54967a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 12/33] fix: relindex failed on files without relations

---
 cmd/relindex/relindex.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd/relindex/relindex.go b/cmd/relindex/relindex.go
index 945b618..709b732 100644
--- a/cmd/relindex/relindex.go
+++ b/cmd/relindex/relindex.go
@@ -3,6 +3,7 @@ package main
 import (
 	"context"
 	"fmt"
+	"io"
 	"os"
 	"time"
 
@@ -33,6 +34,13 @@ func rewrite(outputFile, inputFile string, wi *wayindex.WayIndex, pass, count in
 	fIn := iio.OsOpen(inputFile)
 	fOut := iio.OsCreate(outputFile)
 
+	if iio.FSeek(fIn, 0, io.SeekEnd) == 0 {
+		// No relations, and an empty file can't be mapped
+		iio.FClose(fOut)
+		iio.FClose(fIn)
+		return
+	}
+
 	m := iio.MMapMap(fIn)
 	u := iunsafe.ByteSliceAsInt64Slice(m)
 
-- 
2.43.0


From 0346911c7d3f89b4389ad3e060ffeb558db20f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 13/33] fix: progress lines showed percent signs as markup when
 full or unsized

The text was returned without escaping it, and at 100% without highlighting.
---
 internal/ui/format.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/ui/format.go b/internal/ui/format.go
index 728663f..6162305 100644
--- a/internal/ui/format.go
+++ b/internal/ui/format.go
@@ -6,7 +6,7 @@ import (
 
 func MarkupAsProgress(s string, w int, pct float64) string {
 	if w == 0 {
-		return s
+		return EscapePercent(s)
 	}
 
 	if pct < 0 {
@@ -21,9 +21,9 @@ func MarkupAsProgress(s string, w int, pct float64) string {
 	}
 	pre := int(float64(w) * pct)
 	if pre < 0 {
-		return s
-	} else if pre >= len(s) {
-		return s
+		return EscapePercent(s)
+	} else if pre > len(s) {
+		pre = len(s)
 	}
 	return "%S" + EscapePercent(s[:pre]) + "%N" + EscapePercent(s[pre:])
 }
-- 
2.43.0


From 8728af94240b2f6aa13f1081aaf85998115f827a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:21 +0000
Subject: [PATCH 14/33] fix: relindex accepted a pass count below one and left
 only an intermediate file

---
 cmd/relindex/args.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/relindex/args.go b/cmd/relindex/args.go
index d9c1150..3f4d25f 100644
--- a/cmd/relindex/args.go
+++ b/cmd/relindex/args.go
@@ -49,6 +49,10 @@ func parseArgs(commandLine []string) *Opts {
 		errors = append(errors, "no positional arguments allowed")
 	}
 
+	if opts.Passes < 1 {
+		errors = append(errors, "passes must be at least 1")
+	}
+
 	errors = append(errors, opts.UIOpts.Validate()...)
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
-- 
2.43.0


From 4538bad68816b8ea9550001528fc2b4dbbe83fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:23 +0000
Subject: [PATCH 15/33] fix: cancelled rewritenodes crashed mapping an empty
 pass file

---
 cmd/rewritenodes/rewritenodes.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/cmd/rewritenodes/rewritenodes.go b/cmd/rewritenodes/rewritenodes.go
index a09073c..a7e5919 100644
--- a/cmd/rewritenodes/rewritenodes.go
+++ b/cmd/rewritenodes/rewritenodes.go
@@ -8,6 +8,7 @@ import (
 
 	"github.com/squizzling/osmindex/cmd/rewritenodes/rewriter"
 	wcmd "github.com/squizzling/osmindex/cmd/rewritenodes/rewriter/widget"
+	"github.com/squizzling/osmindex/internal/icontext"
 	"github.com/squizzling/osmindex/internal/iio"
 	"github.com/squizzling/osmindex/internal/system"
 	"github.com/squizzling/osmindex/internal/ui"
@@ -45,6 +46,7 @@ func main() {
 
 	mainUI := ui.NewUI(opts.Refresh, cancel)
 	var passTimes []time.Duration
+	stopped := false
 
 	for i := uint64(0); i < passes; i++ {
 		passStartTime := time.Now()
@@ -77,9 +79,17 @@ func main() {
 		)
 		pfs.Wait()
 		passTimes = append(passTimes, time.Since(passStartTime))
+
+		if icontext.IsCancelled(ctx) && i+1 < passes {
+			// The file written is incomplete and may be empty, later passes can't use it
+			iio.OsRemoveTry(makePassFilename(opts.OutputFile, i, passes))
+			iio.OsRemove(outputFile)
+			stopped = true
+			break
+		}
 	}
 
-	if passes > 1 {
+	if passes > 1 && !stopped {
 		iio.OsRemove(makePassFilename(opts.OutputFile, passes-1, passes))
 	}
 
-- 
2.43.0


From 560833376c1b6a5f8a18f08186470986094ec26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:02 +0000
Subject: [PATCH 16/33] pool: observation hook behind the verif build tag

---
 internal/pool/bytebuffer.go  |  2 ++
 internal/pool/observe_off.go |  8 +++++
 internal/pool/observe_on.go  | 68 ++++++++++++++++++++++++++++++++++++
 3 files changed, 78 insertions(+)
 create mode 100644 internal/pool/observe_off.go
 create mode 100644 internal/pool/observe_on.go

diff --git a/internal/pool/bytebuffer.go b/internal/pool/bytebuffer.go
index bbe58c3..f52d98f 100644
--- a/internal/pool/bytebuffer.go
+++ b/internal/pool/bytebuffer.go
@@ -35,6 +35,7 @@ func (bsp *ByteSlicePool) Get(sz uint64) BorrowedBuffer {
 		// discard the thing we pulled from the pool, because we don't want to keep cycling it through
 		buf = make([]byte, sz)
 	}
+	observeGet(buf[:sz], sz)
 
 	return BorrowedBuffer{
 		Buffer:     buf[:sz],
@@ -43,6 +44,7 @@ func (bsp *ByteSlicePool) Get(sz uint64) BorrowedBuffer {
 }
 
 func (bsp *ByteSlicePool) Put(bb BorrowedBuffer) {
+	observePut(bb.Buffer, bb.isBorrowed)
 	if bb.isBorrowed {
 		bsp.p.Put(bb.Buffer)
 	}
diff --git a/internal/pool/observe_off.go b/internal/pool/observe_off.go
new file mode 100644
index 0000000..823b8ee
--- /dev/null
+++ b/internal/pool/observe_off.go
@@ -0,0 +1,8 @@
+//go:build !verif
+// +build !verif
+
+package pool
+
+func observeGet(buf []byte, sz uint64) {}
+
+func observePut(buf []byte, isBorrowed bool) {}
diff --git a/internal/pool/observe_on.go b/internal/pool/observe_on.go
new file mode 100644
index 0000000..3fb824e
--- /dev/null
+++ b/internal/pool/observe_on.go
@@ -0,0 +1,68 @@
+//go:build verif
+// +build verif
+
+package pool
+
+import (
+	"fmt"
+	"os"
+	"sync"
+	"unsafe"
+)
+
+// With the verif build tag and VERIF_POOL_LOG set, every Get and Put is logged
+// and the contents of buffers that have no defined contents are overwritten.
+var observer struct {
+	m    sync.Mutex
+	f    *os.File
+	seq  uint64
+	held map[unsafe.Pointer][]byte // keeps memory in use from being allocated again
+}
+
+func init() {
+	if fn := os.Getenv("VERIF_POOL_LOG"); fn != "" {
+		f, err := os.OpenFile(fn, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
+		if err != nil {
+			panic(err)
+		}
+		observer.f = f
+		observer.held = make(map[unsafe.Pointer][]byte)
+	}
+}
+
+func fill(buf []byte, v byte) {
+	buf = buf[:cap(buf)]
+	for i := range buf {
+		buf[i] = v
+	}
+}
+
+func observe(kind string, buf []byte, sz uint64, held bool) {
+	observer.m.Lock()
+	defer observer.m.Unlock()
+	p := *(*unsafe.Pointer)(unsafe.Pointer(&buf)) // address of the first element
+	observer.seq++
+	_, err := fmt.Fprintf(observer.f, "%s %d %#x %d %d %d\n", kind, observer.seq, uintptr(p), len(buf), cap(buf), sz)
+	if err != nil {
+		panic(err)
+	}
+	if held {
+		observer.held[p] = buf
+	} else {
+		delete(observer.held, p)
+	}
+}
+
+func observeGet(buf []byte, sz uint64) {
+	if observer.f != nil {
+		observe("get", buf, sz, true)
+		fill(buf, 0xa5)
+	}
+}
+
+func observePut(buf []byte, isBorrowed bool) {
+	if observer.f != nil && isBorrowed {
+		fill(buf, 0xdb)
+		observe("put", buf, 0, false)
+	}
+}
-- 
2.43.0


From 7c10bd76ab21a581622a5087b078ca991980f0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:05 +0000
Subject: [PATCH 17/33] fix: entities and node sections too large for their
 length field could not be written

---
 internal/pb/embed.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/internal/pb/embed.go b/internal/pb/embed.go
index 47b0326..8bb1e7e 100644
--- a/internal/pb/embed.go
+++ b/internal/pb/embed.go
@@ -8,6 +8,9 @@ func Embed128(id uint64, e Embedder, buf []byte) []byte {
 	startIndex := len(buf)
 	buf = Reserve128(buf)
 	buf = e(buf)
+	if len(buf)-(startIndex+sizeOfReservation) >= 128 {
+		return widen(buf, startIndex, sizeOfReservation)
+	}
 	EmbedInt128(buf[startIndex:], len(buf)-(startIndex+sizeOfReservation))
 	return buf
 }
@@ -18,6 +21,9 @@ func Embed16384(id uint64, e Embedder, buf []byte) []byte {
 	startIndex := len(buf)
 	buf = Reserve16384(buf)
 	buf = e(buf)
+	if len(buf)-(startIndex+sizeOfReservation) >= 16384 {
+		return widen(buf, startIndex, sizeOfReservation)
+	}
 	EmbedInt16384(buf[startIndex:], len(buf)-(startIndex+sizeOfReservation))
 	return buf
 }
@@ -28,6 +34,9 @@ func Embed2097152(id uint64, e Embedder, buf []byte) []byte {
 	startIndex := len(buf)
 	buf = Reserve2097152(buf)
 	buf = e(buf)
+	if len(buf)-(startIndex+sizeOfReservation) >= 2097152 {
+		return widen(buf, startIndex, sizeOfReservation)
+	}
 	EmbedInt2097152(buf[startIndex:], len(buf)-(startIndex+sizeOfReservation))
 	return buf
 }
@@ -42,6 +51,12 @@ func Embed268435456(id uint64, e Embedder, buf []byte) []byte {
 	return buf
 }
 
+// widen replaces a reservation which is too short for the length of what was written after it.
+func widen(buf []byte, startIndex int, sizeOfReservation int) []byte {
+	content := append([]byte(nil), buf[startIndex+sizeOfReservation:]...)
+	return EncodeBuffer(buf[:startIndex], content)
+}
+
 func Reserve128(b []byte) []byte {
 	return append(b, 0)
 }
-- 
2.43.0


From d1ac6438c9568a8010454fe422cf931eb5c9dbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:46 +0000
Subject: [PATCH 18/33] fix: refuse lengths that go beyond the end of their
 message

Slicing is checked against the capacity only, so a damaged length could reach
into the next message, or into what a pooled buffer held before, and the bytes
found there were taken as part of the message. Skipped fields were not checked
at all.
---
 internal/pb/buffer.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/internal/pb/buffer.go b/internal/pb/buffer.go
index 318835a..2db036f 100644
--- a/internal/pb/buffer.go
+++ b/internal/pb/buffer.go
@@ -5,9 +5,13 @@ func DecodeBytes(buf []byte, next *int) []byte {
 }
 
 func ReadBytes(buf []byte, next *int) []byte {
-	byteLength := int(DecodeVarInt(buf, next))
-	outputBuffer := buf[*next : *next+byteLength]
-	*next += byteLength
+	byteLength := DecodeVarInt(buf, next)
+	// Slicing only checks against the capacity, which can go beyond the end of the message.
+	if byteLength > uint64(len(buf)-*next) {
+		panic("length goes beyond the end of the buffer")
+	}
+	outputBuffer := buf[*next : *next+int(byteLength)]
+	*next += int(byteLength)
 	return outputBuffer
 }
 
@@ -22,8 +26,7 @@ func EncodeBuffer(bufOutput []byte, bufInput []byte) []byte {
 }
 
 func SkipBytes(buf []byte, next *int) {
-	byteLength := int(DecodeVarInt(buf, next))
-	*next += byteLength
+	ReadBytes(buf, next)
 }
 
 func EncodeIdBuffer(bufOutput []byte, id uint64, bufInput []byte) []byte {
-- 
2.43.0


From 82f966ac70a6ff68bcd8c92a04fb82862f108b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:46 +0000
Subject: [PATCH 19/33] fix: verify size and checksum of compressed data

decodeZLib stopped once raw_size bytes were read, so the checksum at the end of
the stream was never verified, and data beyond raw_size was silently dropped.
---
 internal/t/blob.go | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/internal/t/blob.go b/internal/t/blob.go
index 6f2483e..18b95a2 100644
--- a/internal/t/blob.go
+++ b/internal/t/blob.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"compress/zlib"
 	"fmt"
+	"io"
 
 	"github.com/squizzling/osmindex/internal/pb"
 	"github.com/squizzling/osmindex/internal/pool"
@@ -74,21 +75,16 @@ func (b *Blob) decodeZLib() pool.BorrowedBuffer {
 	}
 
 	borrowedBuffer := pool.ByteSlice.Get(uint64(*b.RawSize))
-	outBuf := borrowedBuffer.Buffer
+	if _, err := io.ReadFull(zlibReader, borrowedBuffer.Buffer); err != nil {
+		panic(err)
+	}
 
-	remaining := int(*b.RawSize)
-	start := 0
-	for remaining > 0 {
-		remainingBuffer := outBuf[start:cap(outBuf)]
-		read, err := zlibReader.Read(remainingBuffer)
-		remaining -= read
-		start += read
-		if remaining == 0 {
-			return borrowedBuffer
-		}
-		if err != nil {
-			panic(err)
-		}
+	// The data must end here, and reaching the end is what verifies the checksum.
+	var extra [1]byte
+	if n, err := io.ReadFull(zlibReader, extra[:]); n != 0 {
+		panic("data is larger than raw_size")
+	} else if err != io.EOF {
+		panic(err)
 	}
 
 	return borrowedBuffer
-- 
2.43.0


From 996bbf5690d89f2c5fbe3306b25b5b52a1bc840b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:44 +0000
Subject: [PATCH 20/33] fix: refuse a truncated node index

SubIndex drops elements which start beyond the end of the locations, so with an
incompletely copied index all nodes above some id looked absent.
---
 internal/nodeindex/nodeindex.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/nodeindex/nodeindex.go b/internal/nodeindex/nodeindex.go
index 08bda6c..0724def 100644
--- a/internal/nodeindex/nodeindex.go
+++ b/internal/nodeindex/nodeindex.go
@@ -40,6 +40,13 @@ func NewNodeIndex(fn string, timing *float64) *NodeIndex {
 	d = d[2:]
 	indexData := d[:startOfLocations*2]
 	locationData := d[startOfLocations*2:]
+	if len(indexData) > 0 {
+		// Elements without locations would otherwise look like absent nodes
+		last := CountOffset(indexData[len(indexData)-1])
+		if last.Offset()+last.Count() > uint64(len(locationData)) {
+			panic("truncated index")
+		}
+	}
 	idx := &NodeIndex{
 		f:         f,
 		mem:       m,
-- 
2.43.0


From 1908eaae2db37d46d9c5728c190491afb8523d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:44 +0000
Subject: [PATCH 21/33] fix: refuse a truncated way index

SubIndexWithScaledPass drops ways which start beyond the end of the locations,
so with an incompletely copied index all ways above some id looked absent.
---
 internal/wayindex/wayindex.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/wayindex/wayindex.go b/internal/wayindex/wayindex.go
index 592c4d6..b42049c 100644
--- a/internal/wayindex/wayindex.go
+++ b/internal/wayindex/wayindex.go
@@ -1,6 +1,7 @@
 package wayindex
 
 import (
+	"bytes"
 	"encoding/binary"
 	"fmt"
 	"math"
@@ -45,6 +46,13 @@ func NewWayIndex(fn string, timing *float64) *WayIndex {
 	var indexData []WayIndexData
 	iunsafe.ByteSliceAsArbSlice(m[16:16+startOfLocationsInElements], &indexData)
 	locationData := m[16+startOfLocationsInElements:]
+	if len(indexData) > 0 {
+		// Ways without locations would otherwise look like absent ways
+		last := indexData[len(indexData)-1].Offset() << alignmentShift
+		if last >= int64(len(locationData)) || bytes.IndexByte(locationData[last:], 0) < 0 {
+			panic("truncated index")
+		}
+	}
 	idx := &WayIndex{
 		f:              f,
 		mem:            m,
-- 
2.43.0


From bb3746fe3344d00935430bc1db696e295a0bfef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:51 +0000
Subject: [PATCH 22/33] fix: refuse to run with less than one worker

Without workers nothing takes the blocks, the run is stuck for good, with the
output file already truncated.
---
 cmd/blockcount/args.go   | 4 ++++
 cmd/decompress/args.go   | 4 ++++
 cmd/entitycount/args.go  | 4 ++++
 cmd/entityfind/args.go   | 4 ++++
 cmd/nodeindex/args.go    | 4 ++++
 cmd/relindex/args.go     | 4 ++++
 cmd/rewritenodes/args.go | 4 ++++
 cmd/tagfilter/args.go    | 4 ++++
 cmd/wayindex/args.go     | 4 ++++
 9 files changed, 36 insertions(+)

diff --git a/cmd/blockcount/args.go b/cmd/blockcount/args.go
index 00fe500..eb28131 100644
--- a/cmd/blockcount/args.go
+++ b/cmd/blockcount/args.go
@@ -42,6 +42,10 @@ func parseArgs(commandLine []string) *Opts {
 		errors = append(errors, "no positional arguments allowed")
 	}
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
 	// Validation results
diff --git a/cmd/decompress/args.go b/cmd/decompress/args.go
index e804580..c940da5 100644
--- a/cmd/decompress/args.go
+++ b/cmd/decompress/args.go
@@ -45,6 +45,10 @@ func parseArgs(commandLine []string) *Opts {
 		errors = append(errors, "no positional arguments allowed")
 	}
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	errors = append(errors, opts.UIOpts.Validate()...)
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
diff --git a/cmd/entitycount/args.go b/cmd/entitycount/args.go
index b6893f8..0fbabbd 100644
--- a/cmd/entitycount/args.go
+++ b/cmd/entitycount/args.go
@@ -42,6 +42,10 @@ func parseArgs(commandLine []string) *Opts {
 		errors = append(errors, "no positional arguments allowed")
 	}
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
 	if len(errors) > 0 {
diff --git a/cmd/entityfind/args.go b/cmd/entityfind/args.go
index a38623d..204a956 100644
--- a/cmd/entityfind/args.go
+++ b/cmd/entityfind/args.go
@@ -43,6 +43,10 @@ func parseArgs(commandLine []string) *Opts {
 		errors = append(errors, "no positional arguments allowed")
 	}
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
 	if len(errors) > 0 {
diff --git a/cmd/nodeindex/args.go b/cmd/nodeindex/args.go
index 992ace4..42cea3e 100644
--- a/cmd/nodeindex/args.go
+++ b/cmd/nodeindex/args.go
@@ -45,6 +45,10 @@ func parseArgs(commandLine []string) *Opts {
 		errors = append(errors, "no positional arguments allowed")
 	}
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	errors = append(errors, opts.UIOpts.Validate()...)
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
diff --git a/cmd/relindex/args.go b/cmd/relindex/args.go
index 3f4d25f..243e958 100644
--- a/cmd/relindex/args.go
+++ b/cmd/relindex/args.go
@@ -49,6 +49,10 @@ func parseArgs(commandLine []string) *Opts {
 		errors = append(errors, "no positional arguments allowed")
 	}
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	if opts.Passes < 1 {
 		errors = append(errors, "passes must be at least 1")
 	}
diff --git a/cmd/rewritenodes/args.go b/cmd/rewritenodes/args.go
index 6a12eb0..9f05a21 100644
--- a/cmd/rewritenodes/args.go
+++ b/cmd/rewritenodes/args.go
@@ -47,6 +47,10 @@ func parseArgs(args []string) *Opts {
 		errors = append(errors, "no positional arguments allowed")
 	}
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
 	if len(errors) > 0 {
diff --git a/cmd/tagfilter/args.go b/cmd/tagfilter/args.go
index a257305..e05a07d 100644
--- a/cmd/tagfilter/args.go
+++ b/cmd/tagfilter/args.go
@@ -44,6 +44,10 @@ func parseArgs(args []string) *Opts {
 		errors = append(errors, "no positional arguments allowed")
 	}
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
 	if len(errors) > 0 {
diff --git a/cmd/wayindex/args.go b/cmd/wayindex/args.go
index 7802d1c..35eb14a 100644
--- a/cmd/wayindex/args.go
+++ b/cmd/wayindex/args.go
@@ -46,6 +46,10 @@ func parseArgs(commandLine []string) *Opts {
 		errors = append(errors, "no positional arguments allowed")
 	}
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	errors = append(errors, opts.UIOpts.Validate()...)
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
-- 
2.43.0


From a952c279a8e9b8f304ae3f64c94cc832b58f9a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:51 +0000
Subject: [PATCH 23/33] fix: refuse a negative refresh interval

The ticker panics on it, after the terminal has been switched to the display.
---
 cmd/rewritenodes/args.go | 1 +
 cmd/tagfilter/args.go    | 1 +
 internal/ui/args.go      | 3 +++
 3 files changed, 5 insertions(+)

diff --git a/cmd/rewritenodes/args.go b/cmd/rewritenodes/args.go
index 9f05a21..18fd2fa 100644
--- a/cmd/rewritenodes/args.go
+++ b/cmd/rewritenodes/args.go
@@ -51,6 +51,7 @@ func parseArgs(args []string) *Opts {
 		errors = append(errors, "workers must be at least 1")
 	}
 
+	errors = append(errors, opts.UIOpts.Validate()...)
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
 	if len(errors) > 0 {
diff --git a/cmd/tagfilter/args.go b/cmd/tagfilter/args.go
index e05a07d..8f2ecce 100644
--- a/cmd/tagfilter/args.go
+++ b/cmd/tagfilter/args.go
@@ -48,6 +48,7 @@ func parseArgs(args []string) *Opts {
 		errors = append(errors, "workers must be at least 1")
 	}
 
+	errors = append(errors, opts.UIOpts.Validate()...)
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
 	if len(errors) > 0 {
diff --git a/internal/ui/args.go b/internal/ui/args.go
index f86dfa2..aaedc6e 100644
--- a/internal/ui/args.go
+++ b/internal/ui/args.go
@@ -9,5 +9,8 @@ type UIOpts struct {
 }
 
 func (opts *UIOpts) Validate() []string {
+	if opts.Refresh < 0 {
+		return []string{"refresh must not be negative"}
+	}
 	return nil
 }
-- 
2.43.0


From 775a233ffc0451cf69e151fb2147b30765107c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:51 +0000
Subject: [PATCH 24/33] fix: refuse memory and timing values rewritenodes can
 not work with

A memory target of 0 divided by zero. A timing factor of 1 or less never got to
the end of a lookup, and one barely above it ran out of buckets.
---
 cmd/rewritenodes/args.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cmd/rewritenodes/args.go b/cmd/rewritenodes/args.go
index 18fd2fa..d9af973 100644
--- a/cmd/rewritenodes/args.go
+++ b/cmd/rewritenodes/args.go
@@ -51,6 +51,15 @@ func parseArgs(args []string) *Opts {
 		errors = append(errors, "workers must be at least 1")
 	}
 
+	if opts.Memory != nil && *opts.Memory == 0 {
+		errors = append(errors, "memory must be at least 1")
+	}
+
+	if opts.Timing != nil && !(*opts.Timing >= 1.12) {
+		// There are 200 buckets, which have to reach two seconds
+		errors = append(errors, "timing must be at least 1.12")
+	}
+
 	errors = append(errors, opts.UIOpts.Validate()...)
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
-- 
2.43.0


From 82075d0e9f0448a40fb8c7faba714d659af33200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:51 +0000
Subject: [PATCH 25/33] fix: refuse an impossible alignment

wayindex panicked on it, with the output file already truncated.
---
 cmd/wayindex/args.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/wayindex/args.go b/cmd/wayindex/args.go
index 35eb14a..a5f5f89 100644
--- a/cmd/wayindex/args.go
+++ b/cmd/wayindex/args.go
@@ -50,6 +50,10 @@ func parseArgs(commandLine []string) *Opts {
 		errors = append(errors, "workers must be at least 1")
 	}
 
+	if opts.Alignment < 0 || opts.Alignment > 32 {
+		errors = append(errors, "alignment must be between 0 and 32")
+	}
+
 	errors = append(errors, opts.UIOpts.Validate()...)
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
-- 
2.43.0


From 9ad142e18ceb52233b8fbf7853f449bc766c747d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:51 +0000
Subject: [PATCH 26/33] fix: refuse a negative sub-index-index in dumpwayindex

It searched a part which does not exist, and reported every way as missing.
---
 cmd/dumpwayindex/args.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/dumpwayindex/args.go b/cmd/dumpwayindex/args.go
index 7bb2938..86cab75 100644
--- a/cmd/dumpwayindex/args.go
+++ b/cmd/dumpwayindex/args.go
@@ -53,8 +53,8 @@ This is mainly a scratch application for debugging the index.`
 		errors = append(errors, "sub-index-count and sub-index-index must be specified together")
 	}
 
-	if opts.SubIndexCount != nil && opts.SubIndexIndex != nil && *opts.SubIndexIndex >= *opts.SubIndexCount {
-		errors = append(errors, "sub-index-index must be below sub-index-count")
+	if opts.SubIndexCount != nil && opts.SubIndexIndex != nil && (*opts.SubIndexIndex < 0 || *opts.SubIndexIndex >= *opts.SubIndexCount) {
+		errors = append(errors, "sub-index-index must be below sub-index-count, and not negative")
 	}
 
 	if len(errors) > 0 {
-- 
2.43.0


From 9cbcdeb6d5265f62068911924d9781fd3639fe52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:20 +0000
Subject: [PATCH 27/33] fix: make room for all lookup times with any timing
 factor

With a factor close to 1, slow lookups ran out of the 200 buckets and panicked.
---
 cmd/rewritenodes/args.go        | 5 ++---
 internal/nodeindex/nodeindex.go | 3 ++-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/rewritenodes/args.go b/cmd/rewritenodes/args.go
index d9af973..905c10b 100644
--- a/cmd/rewritenodes/args.go
+++ b/cmd/rewritenodes/args.go
@@ -55,9 +55,8 @@ func parseArgs(args []string) *Opts {
 		errors = append(errors, "memory must be at least 1")
 	}
 
-	if opts.Timing != nil && !(*opts.Timing >= 1.12) {
-		// There are 200 buckets, which have to reach two seconds
-		errors = append(errors, "timing must be at least 1.12")
+	if opts.Timing != nil && !(*opts.Timing > 1) {
+		errors = append(errors, "timing must be above 1")
 	}
 
 	errors = append(errors, opts.UIOpts.Validate()...)
diff --git a/internal/nodeindex/nodeindex.go b/internal/nodeindex/nodeindex.go
index 0724def..2536290 100644
--- a/internal/nodeindex/nodeindex.go
+++ b/internal/nodeindex/nodeindex.go
@@ -55,7 +55,8 @@ func NewNodeIndex(fn string, timing *float64) *NodeIndex {
 	}
 
 	if timing != nil {
-		idx.lookupTimingCount = make([]uint64, 200)
+		// FindNode counts lookups up to 2*cpuFreq
+		idx.lookupTimingCount = make([]uint64, int(math.Log(2*cpuFreq)/math.Log(*timing))+2)
 		idx.divFactor = *timing
 	}
 
-- 
2.43.0


From 372bdfb5a6dd23444b4646efbc304e5171598ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:09 +0000
Subject: [PATCH 28/33] fix: results that could not be printed are a failure

---
 cmd/blockcount/blockcount.go       |  6 +++---
 cmd/dumpnodeindex/dumpnodeindex.go | 14 +++++++-------
 cmd/dumpwayindex/dumpwayindex.go   |  8 ++++----
 cmd/entitycount/entitycount.go     | 12 ++++++------
 cmd/entityfind/entityfind.go       |  8 ++++----
 internal/iio/wrappers.go           |  7 +++++++
 6 files changed, 31 insertions(+), 24 deletions(-)

diff --git a/cmd/blockcount/blockcount.go b/cmd/blockcount/blockcount.go
index 5ddd903..66add31 100644
--- a/cmd/blockcount/blockcount.go
+++ b/cmd/blockcount/blockcount.go
@@ -2,11 +2,11 @@ package main
 
 import (
 	"context"
-	"fmt"
 	"os"
 	"sync/atomic"
 	"time"
 
+	"github.com/squizzling/osmindex/internal/iio"
 	"github.com/squizzling/osmindex/internal/pbf"
 	"github.com/squizzling/osmindex/internal/system"
 )
@@ -37,6 +37,6 @@ func main() {
 		opts.Workers,
 	).Wait()
 
-	fmt.Printf("Counted %d blocks\n", atomic.LoadUint64(&blockCount))
-	fmt.Printf("Total run time: %s\n", time.Since(startTime))
+	iio.Printf("Counted %d blocks\n", atomic.LoadUint64(&blockCount))
+	iio.Printf("Total run time: %s\n", time.Since(startTime))
 }
diff --git a/cmd/dumpnodeindex/dumpnodeindex.go b/cmd/dumpnodeindex/dumpnodeindex.go
index 8698229..612897e 100644
--- a/cmd/dumpnodeindex/dumpnodeindex.go
+++ b/cmd/dumpnodeindex/dumpnodeindex.go
@@ -1,9 +1,9 @@
 package main
 
 import (
-	"fmt"
 	"os"
 
+	"github.com/squizzling/osmindex/internal/iio"
 	"github.com/squizzling/osmindex/internal/morton"
 	"github.com/squizzling/osmindex/internal/nodeindex"
 	"github.com/squizzling/osmindex/internal/system"
@@ -37,7 +37,7 @@ func main() {
 	for currentElement := startElement; currentElement < endElement; currentElement++ {
 		element := si.Element(currentElement)
 		if false {
-			fmt.Printf("[%d] = %d+%d==%d @ %d\n",
+			iio.Printf("[%d] = %d+%d==%d @ %d\n",
 				currentElement,
 				element.FirstID(),
 				element.Count(),
@@ -52,10 +52,10 @@ func main() {
 
 					extract = uint64(si.Location(element.Offset() + idx))
 					if extract == 0 {
-						fmt.Printf("Extract: skip\n")
+						iio.Printf("Extract: skip\n")
 					} else {
 						lng, lat := morton.DecodeLocation(extract)
-						fmt.Printf("Extract: %x (%f, %f) [%d+%d=%d]\n",
+						iio.Printf("Extract: %x (%f, %f) [%d+%d=%d]\n",
 							extract,
 							float64(lng)/10_000_000, float64(lat)/10_000_000,
 							element.FirstID(),
@@ -68,10 +68,10 @@ func main() {
 					l, _, found := si.FindNode(element.FirstID()+idx, 0)
 					search = uint64(l)
 					if !found {
-						fmt.Printf(" Search: skip\n")
+						iio.Printf(" Search: skip\n")
 					} else {
 						lng, lat := morton.DecodeLocation(search)
-						fmt.Printf(" Search: %x (%f, %f)\n",
+						iio.Printf(" Search: %x (%f, %f)\n",
 							search,
 							float64(lng)/10_000_000, float64(lat)/10_000_000,
 						)
@@ -80,7 +80,7 @@ func main() {
 
 				if opts.PrintLocations && opts.SearchIndex {
 					if extract != search {
-						fmt.Printf("XX MISMATCH!\n")
+						iio.Printf("XX MISMATCH!\n")
 					}
 				}
 			}
diff --git a/cmd/dumpwayindex/dumpwayindex.go b/cmd/dumpwayindex/dumpwayindex.go
index 36a6805..81285da 100644
--- a/cmd/dumpwayindex/dumpwayindex.go
+++ b/cmd/dumpwayindex/dumpwayindex.go
@@ -1,9 +1,9 @@
 package main
 
 import (
-	"fmt"
 	"os"
 
+	"github.com/squizzling/osmindex/internal/iio"
 	"github.com/squizzling/osmindex/internal/pb"
 	"github.com/squizzling/osmindex/internal/system"
 	"github.com/squizzling/osmindex/internal/wayindex"
@@ -28,14 +28,14 @@ func main() {
 		if opts.PrintLocations {
 			printBytes := ix.Loc[data.Offset()<<ix.AlignmentShift:]
 			printLocs := pb.DecodeS64PackedDeltaZero(printBytes)
-			fmt.Printf("%d %v\n", data.WayID(), printLocs)
+			iio.Printf("%d %v\n", data.WayID(), printLocs)
 		}
 		if opts.SearchIndex {
 			searchLocs, _, ok := si.FindLocations(data.WayID(), 0)
 			if !ok {
-				fmt.Printf("XX failed to find way %d\n", data.WayID())
+				iio.Printf("XX failed to find way %d\n", data.WayID())
 			} else {
-				fmt.Printf("%d %v\n", data.WayID(), searchLocs)
+				iio.Printf("%d %v\n", data.WayID(), searchLocs)
 			}
 		}
 	}
diff --git a/cmd/entitycount/entitycount.go b/cmd/entitycount/entitycount.go
index bcd3b2c..7434260 100644
--- a/cmd/entitycount/entitycount.go
+++ b/cmd/entitycount/entitycount.go
@@ -2,12 +2,12 @@ package main
 
 import (
 	"context"
-	"fmt"
 	"os"
 	"sync/atomic"
 
 	"github.com/edsrzf/mmap-go"
 
+	"github.com/squizzling/osmindex/internal/iio"
 	"github.com/squizzling/osmindex/internal/pbf"
 	"github.com/squizzling/osmindex/internal/pool"
 	"github.com/squizzling/osmindex/internal/system"
@@ -108,9 +108,9 @@ func main() {
 		opts.Workers,
 	).Wait()
 
-	fmt.Printf("Counted %d blocks\n", blockCount)
-	fmt.Printf("Counted %d nodes, %d max\n", nodeCount, maxNode)
-	fmt.Printf("Counted %d ways, %d max\n", wayCount, maxWay)
-	fmt.Printf("Counted %d ways refs, %d maximum length\n", wayRefCount, maxWayRefCount)
-	fmt.Printf("Counted %d relations, %d max\n", relationCount, maxRelation)
+	iio.Printf("Counted %d blocks\n", blockCount)
+	iio.Printf("Counted %d nodes, %d max\n", nodeCount, maxNode)
+	iio.Printf("Counted %d ways, %d max\n", wayCount, maxWay)
+	iio.Printf("Counted %d ways refs, %d maximum length\n", wayRefCount, maxWayRefCount)
+	iio.Printf("Counted %d relations, %d max\n", relationCount, maxRelation)
 }
diff --git a/cmd/entityfind/entityfind.go b/cmd/entityfind/entityfind.go
index c612ff2..2446b12 100644
--- a/cmd/entityfind/entityfind.go
+++ b/cmd/entityfind/entityfind.go
@@ -2,11 +2,11 @@ package main
 
 import (
 	"context"
-	"fmt"
 	"os"
 
 	"github.com/edsrzf/mmap-go"
 
+	"github.com/squizzling/osmindex/internal/iio"
 	"github.com/squizzling/osmindex/internal/pbf"
 	"github.com/squizzling/osmindex/internal/pool"
 	"github.com/squizzling/osmindex/internal/system"
@@ -43,21 +43,21 @@ func findEntity(ids []uint64) pbf.WorkFunc {
 			ns := pb.ToNodes()
 			for _, n := range ns {
 				if isIn(ids, uint64(n.Id)) {
-					fmt.Printf("%#v\n", n)
+					iio.Printf("%#v\n", n)
 				}
 			}
 
 			ws := pb.ToWays()
 			for _, w := range ws {
 				if isIn(ids, uint64(w.Id)) {
-					fmt.Printf("%#v\n", w)
+					iio.Printf("%#v\n", w)
 				}
 			}
 
 			rs := pb.ToRelations()
 			for _, r := range rs {
 				if isIn(ids, uint64(r.Id)) {
-					fmt.Printf("%#v\n", r)
+					iio.Printf("%#v\n", r)
 				}
 			}
 
diff --git a/internal/iio/wrappers.go b/internal/iio/wrappers.go
index 8cca215..47e9efd 100644
--- a/internal/iio/wrappers.go
+++ b/internal/iio/wrappers.go
@@ -1,6 +1,7 @@
 package iio
 
 import (
+	"fmt"
 	"io"
 	"os"
 
@@ -137,3 +138,9 @@ func OsRename(from, to string) {
 		panic(err)
 	}
 }
+
+func Printf(format string, a ...interface{}) {
+	if _, err := fmt.Printf(format, a...); err != nil {
+		panic(err)
+	}
+}
-- 
2.43.0


From c002b0533bea4dd550189aba1d4699a74859cf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:08 +0000
Subject: [PATCH 29/33] fix: do not cut characters in two in progress lines

---
 internal/ui/format.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/internal/ui/format.go b/internal/ui/format.go
index 6162305..be0b39c 100644
--- a/internal/ui/format.go
+++ b/internal/ui/format.go
@@ -15,17 +15,20 @@ func MarkupAsProgress(s string, w int, pct float64) string {
 		pct = 1
 	}
 
-	pad := w - len(s)
+	// One cell per character, not per byte
+	text := []rune(s)
+
+	pad := w - len(text)
 	if pad > 0 {
-		s = s + strings.Repeat(" ", pad)
+		text = append(text, []rune(strings.Repeat(" ", pad))...)
 	}
 	pre := int(float64(w) * pct)
 	if pre < 0 {
-		return EscapePercent(s)
-	} else if pre > len(s) {
-		pre = len(s)
+		return EscapePercent(string(text))
+	} else if pre > len(text) {
+		pre = len(text)
 	}
-	return "%S" + EscapePercent(s[:pre]) + "%N" + EscapePercent(s[pre:])
+	return "%S" + EscapePercent(string(text[:pre])) + "%N" + EscapePercent(string(text[pre:]))
 }
 
 func EscapePercent(s string) string {
-- 
2.43.0


From 32eec76b48805b1c908001463781f25f59a47af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:03 +0000
Subject: [PATCH 30/33] fix: show which block a worker passes on unchanged

---
 cmd/nodeindex/indexer/nodeindexer_worker.go      | 4 +++-
 cmd/relindex/relindexerinit/relindexer_worker.go | 4 +++-
 cmd/rewritenodes/rewriter/noderewriter_worker.go | 4 +++-
 cmd/tagfilter/tagfilterer/tagfilterer_worker.go  | 2 +-
 cmd/wayindex/wayindexer/wayindexer_worker.go     | 4 +++-
 5 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/cmd/nodeindex/indexer/nodeindexer_worker.go b/cmd/nodeindex/indexer/nodeindexer_worker.go
index 43b5447..76b8bcc 100644
--- a/cmd/nodeindex/indexer/nodeindexer_worker.go
+++ b/cmd/nodeindex/indexer/nodeindexer_worker.go
@@ -30,11 +30,13 @@ func (ni *NodeIndexer) Worker(ctx context.Context, chIn <-chan pbf.Block, chOut
 
 	sw.SetCurrentState(state.WorkerReading)
 	for data := range chIn {
+		sw.SetStateDecodeBlock(data.Index)
 		if data.BlobType != "OSMData" {
+			sw.SetCurrentState(state.WorkerWriting)
 			chOut <- data
+			sw.SetCurrentState(state.WorkerReading)
 			continue
 		}
-		sw.SetStateDecodeBlock(data.Index)
 
 		var b t.Blob
 		pbr.ReadBlob(data.Data.(mmap.MMap), &b)
diff --git a/cmd/relindex/relindexerinit/relindexer_worker.go b/cmd/relindex/relindexerinit/relindexer_worker.go
index 6751e4d..6f9395c 100644
--- a/cmd/relindex/relindexerinit/relindexer_worker.go
+++ b/cmd/relindex/relindexerinit/relindexer_worker.go
@@ -26,11 +26,13 @@ func (ri *RelIndexerInitializer) Worker() func(ctx context.Context, chIn <-chan
 
 		sw.SetCurrentState(state.WorkerReading)
 		for data := range chIn {
+			sw.SetStateDecodeBlock(data.Index)
 			if data.BlobType != "OSMData" {
+				sw.SetCurrentState(state.WorkerWriting)
 				chOut <- data
+				sw.SetCurrentState(state.WorkerReading)
 				continue
 			}
-			sw.SetStateDecodeBlock(data.Index)
 
 			var b t.Blob
 			pbr.ReadBlob(data.Data.(mmap.MMap), &b)
diff --git a/cmd/rewritenodes/rewriter/noderewriter_worker.go b/cmd/rewritenodes/rewriter/noderewriter_worker.go
index 479a67c..e9c5a23 100644
--- a/cmd/rewritenodes/rewriter/noderewriter_worker.go
+++ b/cmd/rewritenodes/rewriter/noderewriter_worker.go
@@ -25,11 +25,13 @@ func (nr *NodeRewriter) Worker(ix *nodeindex.NodeSubIndex, finalPass bool) pbf.W
 		defer nr.UntrackWorker(sw)
 
 		for data := range chIn {
+			sw.SetStateDecoding(data.Index)
 			if data.BlobType != "OSMData" {
+				sw.SetCurrentState(state.WorkerWriting)
 				chOut <- data
+				sw.SetCurrentState(state.WorkerReading)
 				continue
 			}
-			sw.SetStateDecoding(data.Index)
 
 			buffer := data.Data.(mmap.MMap)
 
diff --git a/cmd/tagfilter/tagfilterer/tagfilterer_worker.go b/cmd/tagfilter/tagfilterer/tagfilterer_worker.go
index 265c947..12dd2d8 100644
--- a/cmd/tagfilter/tagfilterer/tagfilterer_worker.go
+++ b/cmd/tagfilter/tagfilterer/tagfilterer_worker.go
@@ -126,11 +126,11 @@ func (tf *TagFilterer) Worker() pbf.WorkFunc {
 		var pendingNodes t.Nodes
 
 		for data := range inBlocks {
+			sw.SetStateDecoding(data.Index)
 			if data.BlobType != "OSMData" {
 				sendBlock(sw, outBlocks, data)
 				continue
 			}
-			sw.SetStateDecoding(data.Index)
 
 			buffer := data.Data.(mmap.MMap)
 
diff --git a/cmd/wayindex/wayindexer/wayindexer_worker.go b/cmd/wayindex/wayindexer/wayindexer_worker.go
index 8bacf48..00539a7 100644
--- a/cmd/wayindex/wayindexer/wayindexer_worker.go
+++ b/cmd/wayindex/wayindexer/wayindexer_worker.go
@@ -35,11 +35,13 @@ func (ni *WayIndexer) Worker(alignmentShift int) func(ctx context.Context, chIn
 
 		sw.SetCurrentState(state.WorkerReading)
 		for data := range chIn {
+			sw.SetStateDecodeBlock(data.Index)
 			if data.BlobType != "OSMData" {
+				sw.SetCurrentState(state.WorkerWriting)
 				chOut <- data
+				sw.SetCurrentState(state.WorkerReading)
 				continue
 			}
-			sw.SetStateDecodeBlock(data.Index)
 
 			var b t.Blob
 			pbr.ReadBlob(data.Data.(mmap.MMap), &b)
-- 
2.43.0


From 335c37fa9d1ec6f2c327496ebf2a5b51e86e8c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:03 +0000
Subject: [PATCH 31/33] fix: show which block the index writers write

---
 cmd/nodeindex/indexer/nodeindexer_writer.go  | 2 +-
 cmd/wayindex/wayindexer/wayindexer_writer.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/nodeindex/indexer/nodeindexer_writer.go b/cmd/nodeindex/indexer/nodeindexer_writer.go
index 2ac1430..8eb7f18 100644
--- a/cmd/nodeindex/indexer/nodeindexer_writer.go
+++ b/cmd/nodeindex/indexer/nodeindexer_writer.go
@@ -30,7 +30,7 @@ func (ni *NodeIndexer) Output(outputFileName string) func(ctx context.Context, c
 			}
 			outputData = outputData[:0]
 			element := data.Data.(elementBatch)
-			ni.writer.SetStateWritingIndex(uint64(len(element.ranges)))
+			ni.writer.SetStateWritingIndex(data.Index)
 			for _, indexBlock := range element.ranges {
 				itemCount := (indexBlock.last - indexBlock.first) + 1
 				outputData = append(
diff --git a/cmd/wayindex/wayindexer/wayindexer_writer.go b/cmd/wayindex/wayindexer/wayindexer_writer.go
index 00f075a..fa56507 100644
--- a/cmd/wayindex/wayindexer/wayindexer_writer.go
+++ b/cmd/wayindex/wayindexer/wayindexer_writer.go
@@ -34,7 +34,7 @@ func (ni *WayIndexer) Output(outputFileName string, alignmentShift int) func(ctx
 			}
 			outputData = outputData[:0]
 			element := data.Data.(indexElement)
-			ni.writer.SetStateWritingIndex(uint64(len(element.blocks)))
+			ni.writer.SetStateWritingIndex(data.Index)
 
 			for _, b := range element.blocks {
 				// On input, Offset will be chunks from the start of element.locations
-- 
2.43.0


From 1c568e29c9835ca9b23e723aff631a2d55be40dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:50 +0000
Subject: [PATCH 32/33] fix: rewritenodes divided by zero or worked in too many
 passes with a memory target of 2^44 MB and more

The target was converted to bytes, which does not fit 64 bits.
---
 cmd/rewritenodes/rewritenodes.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cmd/rewritenodes/rewritenodes.go b/cmd/rewritenodes/rewritenodes.go
index a7e5919..d60b94f 100644
--- a/cmd/rewritenodes/rewritenodes.go
+++ b/cmd/rewritenodes/rewritenodes.go
@@ -37,9 +37,8 @@ func main() {
 	passes := uint64(1)
 
 	if opts.Memory != nil {
-		memTarget := *opts.Memory * 1048576
 		memRequired := ix.LocationCount() * 8
-		passes = (memRequired / memTarget) + 1
+		passes = (memRequired / 1048576 / *opts.Memory) + 1
 	}
 
 	nr := &rewriter.NodeRewriter{}
-- 
2.43.0


From 54da59a80e4e51652ce29e822dfcc61f59e34a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:50 +0000
Subject: [PATCH 33/33] fix: a maximum of 0 or fewer threads was accepted and
 ignored

Not setting --max-threads leaves the default, as before.
---
 internal/system/args.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/system/args.go b/internal/system/args.go
index 1f0c976..bf71a4d 100644
--- a/internal/system/args.go
+++ b/internal/system/args.go
@@ -12,5 +12,8 @@ func (opts *SystemOpts) Validate() []string {
 	if opts.MemProfileRate != nil && opts.MemProfile == nil {
 		errors = append(errors, "mem-profile-rate requires mem-profile")
 	}
+	if opts.MaxThreads != nil && *opts.MaxThreads < 1 {
+		errors = append(errors, "max-threads must be at least 1")
+	}
 	return errors
 }
-- 
2.43.0

