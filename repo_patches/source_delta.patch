From f2004aef0028cc444aece143a4c9e137d8aebf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:55 +0000
Subject: [PATCH 01/13] fix: make the width cache safe for concurrent use

The cache is a package-level variable shared by every table and alignment
function, so two goroutines formatting unrelated tables raced on it
(fatal error: concurrent map read and map write).
---
 width.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/width.go b/width.go
index 5e110b9..10cc914 100644
--- a/width.go
+++ b/width.go
@@ -16,7 +16,7 @@ var ansiEscapeRE = regexp.MustCompile(
 	"[\u001b\u009b][[()#;?]*(?:[0-9]{1,4}(?:;[0-9]{0,4})*)?[0-9A-ORZcf-nqry=><]",
 )
 
-var widthCache = lru.New[string, uint16](lru.WithCapacity(10000))
+var widthCache = lru.NewSync[string, uint16](lru.WithCapacity(10000))
 
 // runewidth.FillLeft(str, width) or runewidth.FillRight(str, width) do not work
 
-- 
2.43.0


From 61e700ef9eedd91a5a9792f35b144c56997b5f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:56 +0000
Subject: [PATCH 02/13] fix: count escape sequences in characters, not bytes

U+009B (CSI) takes two bytes in UTF-8, so one cell too many was subtracted:
"\u009b0m" had width -1, that is 65535.
---
 width.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/width.go b/width.go
index 10cc914..cd10132 100644
--- a/width.go
+++ b/width.go
@@ -2,6 +2,7 @@ package table
 
 import (
 	"regexp"
+	"unicode/utf8"
 
 	"github.com/ilius/go-lru"
 	"github.com/ilius/go-table/runewidth"
@@ -49,7 +50,7 @@ func countMatchesLength(re *regexp.Regexp, s string) int {
 		// loc[0] is the start index of the match,
 		// loc[1] is the end index (exclusive)
 		start += loc[1]
-		total += loc[1] - loc[0] - 1
+		total += utf8.RuneCountInString(remaining[loc[0]:loc[1]]) - 1
 	}
 	return total
 }
-- 
2.43.0


From 04ba3f129f5e6482a4578c463a6c79385f4a76bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:56 +0000
Subject: [PATCH 03/13] fix: do not wrap the width of very wide strings

A string of 65536 cells was measured as 0 cells wide.
---
 width.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/width.go b/width.go
index cd10132..e4f310d 100644
--- a/width.go
+++ b/width.go
@@ -32,7 +32,11 @@ func visualWidth(str string) uint16 {
 	if w > 0 {
 		return w
 	}
-	w = uint16(runewidth.StringWidth(str) - countMatchesLength(ansiEscapeRE, str))
+	n := runewidth.StringWidth(str) - countMatchesLength(ansiEscapeRE, str)
+	if n > MAX_WIDTH {
+		n = MAX_WIDTH
+	}
+	w = uint16(n)
 	widthCache.Set(str, w)
 	return w
 }
-- 
2.43.0


From b7420b7f5a35180a1d72451ef7a34b6c82341b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:56 +0000
Subject: [PATCH 04/13] fix: measure header titles in cells, not bytes

A non-ASCII title that fits its column was dropped.
---
 table.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/table.go b/table.go
index 9bab608..bdb3952 100644
--- a/table.go
+++ b/table.go
@@ -139,8 +139,8 @@ func (t *Table) padColumnHeader(col *Column) string {
 	if width == 0 {
 		return value
 	}
-	if len(value) > int(width) {
-		if len(col.ShortTitle) > int(width) {
+	if visualWidth(value) > width {
+		if visualWidth(col.ShortTitle) > width {
 			value = ""
 		} else {
 			value = col.ShortTitle
-- 
2.43.0


From 4e58bc1e267a44e2656281092dfa0494ca8dc22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:56 +0000
Subject: [PATCH 05/13] fix: do not wrap TableWidth

A table without columns had width 65536-margin, and a table wider than
65535 cells wrapped around.
---
 table.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/table.go b/table.go
index bdb3952..ba38920 100644
--- a/table.go
+++ b/table.go
@@ -159,9 +159,15 @@ func (t *Table) FormatHeader(sep string) string {
 }
 
 func (t *Table) TableWidth(margin uint16) uint16 {
-	width := (uint16(t.ColumnCount()) - 1) * margin
+	if t.ColumnCount() == 0 {
+		return 0
+	}
+	width := (t.ColumnCount() - 1) * int(margin)
 	for _, col := range t.Columns {
-		width += t.Width(col.Name)
+		width += int(t.Width(col.Name))
+	}
+	if width > MAX_WIDTH {
+		width = MAX_WIDTH
 	}
-	return width
+	return uint16(width)
 }
-- 
2.43.0


From 4b81832da52b2291ae39a5401f6b074e7e9c96c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:39 +0000
Subject: [PATCH 06/13] fix: do not wrap widths while merging rows

All sums were done in uint16: with a maximum width of 65535 (or more, which
is clamped to it) only one group was put on a line, a negative maximum width
was taken as a huge one, and the compact search accepted lines wider than the
maximum, or never ended.
---
 horizontal.go | 16 ++++++++--------
 vertical.go   | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/horizontal.go b/horizontal.go
index e64945f..014927c 100644
--- a/horizontal.go
+++ b/horizontal.go
@@ -13,13 +13,13 @@ func (t *Table) MergeRowsHorizontal(
 	sep string,
 	compact bool,
 ) {
-	margin := uint16(len(sep))
+	margin := len(sep)
 	colN := t.ColumnCount()
 	if maxWidthArg > MAX_WIDTH {
 		maxWidthArg = MAX_WIDTH
 	}
-	maxWidth := uint16(maxWidthArg)
-	groupCount := int((maxWidth + margin) / (t.TableWidth(margin) + margin))
+	maxWidth := maxWidthArg
+	groupCount := (maxWidth + margin) / (int(t.TableWidth(uint16(margin))) + margin)
 	if groupCount < 1 {
 		groupCount = 1
 	}
@@ -68,17 +68,17 @@ func (t *Table) MergeRowsHorizontal(
 
 func (t *Table) compactCalcH(
 	items FormattedItemList,
-	maxWidth uint16,
-	margin uint16,
+	maxWidth int,
+	margin int,
 	groupCountInit int,
 ) (extra int, cellWidth []uint16) {
-	colN := uint16(t.ColumnCount())
+	colN := t.ColumnCount()
 	for {
 		groupCount := groupCountInit + extra + 1
 		cellWidthNew := t.mergedRowsWidthH(items, groupCount)
-		totalWidth := margin*(uint16(groupCount)-1) + innerMargin*(colN-1)*uint16(groupCount)
+		totalWidth := margin*(groupCount-1) + int(innerMargin)*(colN-1)*groupCount
 		for _, w := range cellWidthNew {
-			totalWidth += w
+			totalWidth += int(w)
 		}
 		if totalWidth > maxWidth {
 			return
diff --git a/vertical.go b/vertical.go
index a64518e..21b8ed7 100644
--- a/vertical.go
+++ b/vertical.go
@@ -13,13 +13,13 @@ func (t *Table) MergeRowsVertical(
 	sep string,
 	compact bool,
 ) {
-	margin := uint16(len(sep))
+	margin := len(sep)
 	colN := t.ColumnCount()
 	if maxWidthArg > MAX_WIDTH {
 		maxWidthArg = MAX_WIDTH
 	}
-	maxWidth := uint16(maxWidthArg)
-	groupCount := int((maxWidth + margin) / (t.TableWidth(margin) + margin))
+	maxWidth := maxWidthArg
+	groupCount := (maxWidth + margin) / (int(t.TableWidth(uint16(margin))) + margin)
 	if groupCount < 1 {
 		groupCount = 1
 	}
@@ -68,20 +68,20 @@ func (t *Table) MergeRowsVertical(
 
 func (t *Table) compactCalcV(
 	items FormattedItemList,
-	maxWidth uint16,
-	margin uint16,
+	maxWidth int,
+	margin int,
 	groupCountInit int,
 ) (extra int, cellWidth []uint16) {
-	colN := uint16(t.ColumnCount())
+	colN := t.ColumnCount()
 	for {
 		groupCount := groupCountInit + extra + 1
 		cellWidthNew := t.mergedRowsWidthV(items, groupCount)
 		if cellWidthNew == nil {
 			return
 		}
-		totalWidth := margin*(uint16(groupCount)-1) + innerMargin*(colN-1)*uint16(groupCount)
+		totalWidth := margin*(groupCount-1) + int(innerMargin)*(colN-1)*groupCount
 		for _, w := range cellWidthNew {
-			totalWidth += w
+			totalWidth += int(w)
 		}
 		if totalWidth > maxWidth {
 			return
-- 
2.43.0


From f7ffa1b7d278ba91eb1ce849592272ed7ad7defb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:39 +0000
Subject: [PATCH 07/13] fix: fit merged rows by the separator used between
 their columns

Columns of a merged row are joined with innerSep, whatever sep is. With an
empty sep, lines were wider than the maximum width.
---
 horizontal.go | 2 +-
 vertical.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/horizontal.go b/horizontal.go
index 014927c..423e93a 100644
--- a/horizontal.go
+++ b/horizontal.go
@@ -19,7 +19,7 @@ func (t *Table) MergeRowsHorizontal(
 		maxWidthArg = MAX_WIDTH
 	}
 	maxWidth := maxWidthArg
-	groupCount := (maxWidth + margin) / (int(t.TableWidth(uint16(margin))) + margin)
+	groupCount := (maxWidth + margin) / (int(t.TableWidth(innerMargin)) + margin)
 	if groupCount < 1 {
 		groupCount = 1
 	}
diff --git a/vertical.go b/vertical.go
index 21b8ed7..bcb0934 100644
--- a/vertical.go
+++ b/vertical.go
@@ -19,7 +19,7 @@ func (t *Table) MergeRowsVertical(
 		maxWidthArg = MAX_WIDTH
 	}
 	maxWidth := maxWidthArg
-	groupCount := (maxWidth + margin) / (int(t.TableWidth(uint16(margin))) + margin)
+	groupCount := (maxWidth + margin) / (int(t.TableWidth(innerMargin)) + margin)
 	if groupCount < 1 {
 		groupCount = 1
 	}
-- 
2.43.0


From 022ca38cb6e31b1f103bb4307a33bfd1211e3168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:39 +0000
Subject: [PATCH 08/13] fix: do not divide by zero when merging rows without
 any width

Merging rows of a table without columns, or with only empty cells and an
empty separator, panicked.
---
 horizontal.go | 5 ++++-
 vertical.go   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/horizontal.go b/horizontal.go
index 423e93a..57589b7 100644
--- a/horizontal.go
+++ b/horizontal.go
@@ -19,7 +19,10 @@ func (t *Table) MergeRowsHorizontal(
 		maxWidthArg = MAX_WIDTH
 	}
 	maxWidth := maxWidthArg
-	groupCount := (maxWidth + margin) / (int(t.TableWidth(innerMargin)) + margin)
+	groupCount := 1
+	if groupWidth := int(t.TableWidth(innerMargin)) + margin; groupWidth > 0 {
+		groupCount = (maxWidth + margin) / groupWidth
+	}
 	if groupCount < 1 {
 		groupCount = 1
 	}
diff --git a/vertical.go b/vertical.go
index bcb0934..95638b0 100644
--- a/vertical.go
+++ b/vertical.go
@@ -19,7 +19,10 @@ func (t *Table) MergeRowsVertical(
 		maxWidthArg = MAX_WIDTH
 	}
 	maxWidth := maxWidthArg
-	groupCount := (maxWidth + margin) / (int(t.TableWidth(innerMargin)) + margin)
+	groupCount := 1
+	if groupWidth := int(t.TableWidth(innerMargin)) + margin; groupWidth > 0 {
+		groupCount = (maxWidth + margin) / groupWidth
+	}
 	if groupCount < 1 {
 		groupCount = 1
 	}
-- 
2.43.0


From 00ebdb306259683ecbfe70fcc876096a4e7f84d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:39 +0000
Subject: [PATCH 09/13] fix: end the compact search once all items are on one
 line

Groups beyond the last item have no width, so with an empty separator and
one column every number of groups fits, and MergeRowsHorizontal never
returned.
---
 horizontal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/horizontal.go b/horizontal.go
index 57589b7..505725a 100644
--- a/horizontal.go
+++ b/horizontal.go
@@ -78,6 +78,10 @@ func (t *Table) compactCalcH(
 	colN := t.ColumnCount()
 	for {
 		groupCount := groupCountInit + extra + 1
+		if extra > 0 && groupCount > items.Len()+1 {
+			// all items are on one line already
+			return
+		}
 		cellWidthNew := t.mergedRowsWidthH(items, groupCount)
 		totalWidth := margin*(groupCount-1) + int(innerMargin)*(colN-1)*groupCount
 		for _, w := range cellWidthNew {
-- 
2.43.0


From 848fd32f54c9b3a10fe04df4f1093ffd89fa287c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:40 +0000
Subject: [PATCH 10/13] fix: print nothing when merging an empty list

An empty line was printed if two or more groups fit on a line.
---
 horizontal.go | 2 +-
 vertical.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/horizontal.go b/horizontal.go
index 505725a..02674b9 100644
--- a/horizontal.go
+++ b/horizontal.go
@@ -39,7 +39,7 @@ func (t *Table) MergeRowsHorizontal(
 		}
 	}
 	itemN := items.Len()
-	lineCount := (itemN-1)/groupCount + 1
+	lineCount := (itemN + groupCount - 1) / groupCount
 	for lineI := 0; lineI < lineCount; lineI++ {
 		line := make([]string, 0, groupCount)
 		for groupI := 0; groupI < groupCount; groupI++ {
diff --git a/vertical.go b/vertical.go
index 95638b0..e605288 100644
--- a/vertical.go
+++ b/vertical.go
@@ -39,7 +39,7 @@ func (t *Table) MergeRowsVertical(
 		}
 	}
 	itemN := items.Len()
-	lineCount := (itemN-1)/groupCount + 1
+	lineCount := (itemN + groupCount - 1) / groupCount
 	for lineI := 0; lineI < lineCount; lineI++ {
 		line := make([]string, 0, groupCount)
 		for groupI := 0; groupI < groupCount; groupI++ {
-- 
2.43.0


From e23beef8dbac542002c948c2a46a45e0551734c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:40 +0000
Subject: [PATCH 11/13] fix: do not share lookup tables between copies of a
 Condition

CreateLUT rewrote the existing table in place, so calling it on a copy of a
Condition changed the widths given by the original.
---
 runewidth/runewidth.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/runewidth/runewidth.go b/runewidth/runewidth.go
index 08e69f2..71d072e 100644
--- a/runewidth/runewidth.go
+++ b/runewidth/runewidth.go
@@ -164,13 +164,9 @@ func (c *Condition) RuneWidth(r rune) int {
 // If options in c is changed, CreateLUT should be called again.
 func (c *Condition) CreateLUT() {
 	const max = 0x110000
-	lut := c.combinedLut
-	if len(c.combinedLut) != 0 {
-		// Remove so we don't use it.
-		c.combinedLut = nil
-	} else {
-		lut = make([]byte, max/2)
-	}
+	// Remove so we don't use it. It is not reused, because copies of c share it.
+	c.combinedLut = nil
+	lut := make([]byte, max/2)
 	for i := range lut {
 		i32 := int32(i * 2)
 		x0 := c.RuneWidth(i32)
-- 
2.43.0


From 5072f0b2e9714b1f0bd5847b278f87a05b6aede5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:42 +0000
Subject: [PATCH 12/13] fix: do not count negative inner margins when there are
 no columns

---
 horizontal.go | 5 ++++-
 vertical.go   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/horizontal.go b/horizontal.go
index 02674b9..8fb74ce 100644
--- a/horizontal.go
+++ b/horizontal.go
@@ -83,7 +83,10 @@ func (t *Table) compactCalcH(
 			return
 		}
 		cellWidthNew := t.mergedRowsWidthH(items, groupCount)
-		totalWidth := margin*(groupCount-1) + int(innerMargin)*(colN-1)*groupCount
+		totalWidth := margin * (groupCount - 1)
+		if colN > 1 {
+			totalWidth += int(innerMargin) * (colN - 1) * groupCount
+		}
 		for _, w := range cellWidthNew {
 			totalWidth += int(w)
 		}
diff --git a/vertical.go b/vertical.go
index e605288..e057963 100644
--- a/vertical.go
+++ b/vertical.go
@@ -82,7 +82,10 @@ func (t *Table) compactCalcV(
 		if cellWidthNew == nil {
 			return
 		}
-		totalWidth := margin*(groupCount-1) + int(innerMargin)*(colN-1)*groupCount
+		totalWidth := margin * (groupCount - 1)
+		if colN > 1 {
+			totalWidth += int(innerMargin) * (colN - 1) * groupCount
+		}
 		for _, w := range cellWidthNew {
 			totalWidth += int(w)
 		}
-- 
2.43.0


From a7ec7b930f284af7e961de341cf5b7bba4ad5022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:02 +0000
Subject: [PATCH 13/13] fix: measure texts again when the default condition has
 changed

Widths were remembered by text alone, so that a text kept the width it had
under an earlier configuration of runewidth.DefaultCondition: columns and
alignment went by that width, not by the current one.
---
 width.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/width.go b/width.go
index e4f310d..a292e92 100644
--- a/width.go
+++ b/width.go
@@ -17,7 +17,24 @@ var ansiEscapeRE = regexp.MustCompile(
 	"[\u001b\u009b][[()#;?]*(?:[0-9]{1,4}(?:;[0-9]{0,4})*)?[0-9A-ORZcf-nqry=><]",
 )
 
-var widthCache = lru.NewSync[string, uint16](lru.WithCapacity(10000))
+var widthCache = lru.NewSync[widthKey, uint16](lru.WithCapacity(10000))
+
+// widthKey is a text and the configuration its width was measured in
+type widthKey struct {
+	str    string
+	config int
+}
+
+// widthConfig tells the configurations of runewidth.DefaultCondition, which may
+// change, apart: by the width of ambiguous characters, and, where these are wide,
+// of emoji that need not be
+func widthConfig() int {
+	cond := runewidth.DefaultCondition
+	if cond.RuneWidth('\u00a1') == 1 {
+		return 0
+	}
+	return cond.RuneWidth('\U0001f321')
+}
 
 // runewidth.FillLeft(str, width) or runewidth.FillRight(str, width) do not work
 
@@ -28,7 +45,8 @@ func visualWidth(str string) uint16 {
 	//		return runewidth.StringWidth(str)
 	// method 3: considering all above, but a bit slow?
 	// 		return runewidth.StringWidth(ansiEscapeRE.ReplaceAllString(str, ""))
-	w, _ := widthCache.Get(str)
+	key := widthKey{str: str, config: widthConfig()}
+	w, _ := widthCache.Get(key)
 	if w > 0 {
 		return w
 	}
@@ -37,7 +55,7 @@ func visualWidth(str string) uint16 {
 		n = MAX_WIDTH
 	}
 	w = uint16(n)
-	widthCache.Set(str, w)
+	widthCache.Set(key, w)
 	return w
 }
 
-- 
2.43.0

