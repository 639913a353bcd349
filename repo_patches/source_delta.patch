From 3b88d7add7e20d52aaf5955341552eebfac3df0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:32 +0000
Subject: [PATCH 01/12] fix: measure text without its ANSI sequences

The width of the sequences was subtracted in bytes, one too many for each
sequence introduced by U+009B (two bytes in UTF-8), so the width could wrap
around to 65535; and a mark right after a sequence was swallowed by the last
character of the sequence. Measure the text with the sequences removed.
---
 width.go | 20 +-------------------
 1 file changed, 1 insertion(+), 19 deletions(-)

diff --git a/width.go b/width.go
index 5e110b9..8453dcc 100644
--- a/width.go
+++ b/width.go
@@ -31,25 +31,7 @@ func visualWidth(str string) uint16 {
 	if w > 0 {
 		return w
 	}
-	w = uint16(runewidth.StringWidth(str) - countMatchesLength(ansiEscapeRE, str))
+	w = uint16(runewidth.StringWidth(ansiEscapeRE.ReplaceAllString(str, "")))
 	widthCache.Set(str, w)
 	return w
 }
-
-func countMatchesLength(re *regexp.Regexp, s string) int {
-	// it does not count the first (invisible) character
-	// because runewidth library already ignores that
-	total := 0
-	for start := 0; start < len(s); {
-		remaining := s[start:] // slicing the string is cheap
-		loc := re.FindStringIndex(remaining)
-		if loc == nil {
-			break
-		}
-		// loc[0] is the start index of the match,
-		// loc[1] is the end index (exclusive)
-		start += loc[1]
-		total += loc[1] - loc[0] - 1
-	}
-	return total
-}
-- 
2.43.0


From ddb28dc874061d0d6c62830ca2c3f1c01de0f89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:05 +0000
Subject: [PATCH 02/12] fix: cap the visual width at MAX_WIDTH

The width of a text of 65536 cells or more wrapped around, so such a text
was padded as if it were short.
---
 width.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/width.go b/width.go
index 8453dcc..a29105c 100644
--- a/width.go
+++ b/width.go
@@ -31,7 +31,11 @@ func visualWidth(str string) uint16 {
 	if w > 0 {
 		return w
 	}
-	w = uint16(runewidth.StringWidth(ansiEscapeRE.ReplaceAllString(str, "")))
+	width := runewidth.StringWidth(ansiEscapeRE.ReplaceAllString(str, ""))
+	if width > MAX_WIDTH {
+		width = MAX_WIDTH
+	}
+	w = uint16(width)
 	widthCache.Set(str, w)
 	return w
 }
-- 
2.43.0


From ba66bf53f6980b487d613e7722c782d03377e1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:19 +0000
Subject: [PATCH 03/12] fix: do not wrap line widths around when merging rows

---
 horizontal.go | 19 +++++++++++--------
 vertical.go   | 19 +++++++++++--------
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/horizontal.go b/horizontal.go
index e64945f..77d3760 100644
--- a/horizontal.go
+++ b/horizontal.go
@@ -13,13 +13,16 @@ func (t *Table) MergeRowsHorizontal(
 	sep string,
 	compact bool,
 ) {
-	margin := uint16(len(sep))
+	margin := len(sep)
 	colN := t.ColumnCount()
 	if maxWidthArg > MAX_WIDTH {
 		maxWidthArg = MAX_WIDTH
 	}
-	maxWidth := uint16(maxWidthArg)
-	groupCount := int((maxWidth + margin) / (t.TableWidth(margin) + margin))
+	if maxWidthArg < 0 {
+		maxWidthArg = 0
+	}
+	maxWidth := maxWidthArg
+	groupCount := (maxWidth + margin) / (int(t.TableWidth(uint16(margin))) + margin)
 	if groupCount < 1 {
 		groupCount = 1
 	}
@@ -68,17 +71,17 @@ func (t *Table) MergeRowsHorizontal(
 
 func (t *Table) compactCalcH(
 	items FormattedItemList,
-	maxWidth uint16,
-	margin uint16,
+	maxWidth int,
+	margin int,
 	groupCountInit int,
 ) (extra int, cellWidth []uint16) {
-	colN := uint16(t.ColumnCount())
+	colN := t.ColumnCount()
 	for {
 		groupCount := groupCountInit + extra + 1
 		cellWidthNew := t.mergedRowsWidthH(items, groupCount)
-		totalWidth := margin*(uint16(groupCount)-1) + innerMargin*(colN-1)*uint16(groupCount)
+		totalWidth := margin*(groupCount-1) + int(innerMargin)*(colN-1)*groupCount
 		for _, w := range cellWidthNew {
-			totalWidth += w
+			totalWidth += int(w)
 		}
 		if totalWidth > maxWidth {
 			return
diff --git a/vertical.go b/vertical.go
index a64518e..6cf3baa 100644
--- a/vertical.go
+++ b/vertical.go
@@ -13,13 +13,16 @@ func (t *Table) MergeRowsVertical(
 	sep string,
 	compact bool,
 ) {
-	margin := uint16(len(sep))
+	margin := len(sep)
 	colN := t.ColumnCount()
 	if maxWidthArg > MAX_WIDTH {
 		maxWidthArg = MAX_WIDTH
 	}
-	maxWidth := uint16(maxWidthArg)
-	groupCount := int((maxWidth + margin) / (t.TableWidth(margin) + margin))
+	if maxWidthArg < 0 {
+		maxWidthArg = 0
+	}
+	maxWidth := maxWidthArg
+	groupCount := (maxWidth + margin) / (int(t.TableWidth(uint16(margin))) + margin)
 	if groupCount < 1 {
 		groupCount = 1
 	}
@@ -68,20 +71,20 @@ func (t *Table) MergeRowsVertical(
 
 func (t *Table) compactCalcV(
 	items FormattedItemList,
-	maxWidth uint16,
-	margin uint16,
+	maxWidth int,
+	margin int,
 	groupCountInit int,
 ) (extra int, cellWidth []uint16) {
-	colN := uint16(t.ColumnCount())
+	colN := t.ColumnCount()
 	for {
 		groupCount := groupCountInit + extra + 1
 		cellWidthNew := t.mergedRowsWidthV(items, groupCount)
 		if cellWidthNew == nil {
 			return
 		}
-		totalWidth := margin*(uint16(groupCount)-1) + innerMargin*(colN-1)*uint16(groupCount)
+		totalWidth := margin*(groupCount-1) + int(innerMargin)*(colN-1)*groupCount
 		for _, w := range cellWidthNew {
-			totalWidth += w
+			totalWidth += int(w)
 		}
 		if totalWidth > maxWidth {
 			return
-- 
2.43.0


From e9ade56baa90198b46ac8869edee44f77c3e534a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:20 +0000
Subject: [PATCH 04/12] fix: count the space between columns, not the
 separator, in the width of a merged row

---
 horizontal.go | 2 +-
 vertical.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/horizontal.go b/horizontal.go
index 77d3760..236986b 100644
--- a/horizontal.go
+++ b/horizontal.go
@@ -22,7 +22,7 @@ func (t *Table) MergeRowsHorizontal(
 		maxWidthArg = 0
 	}
 	maxWidth := maxWidthArg
-	groupCount := (maxWidth + margin) / (int(t.TableWidth(uint16(margin))) + margin)
+	groupCount := (maxWidth + margin) / (int(t.TableWidth(innerMargin)) + margin)
 	if groupCount < 1 {
 		groupCount = 1
 	}
diff --git a/vertical.go b/vertical.go
index 6cf3baa..c987df6 100644
--- a/vertical.go
+++ b/vertical.go
@@ -22,7 +22,7 @@ func (t *Table) MergeRowsVertical(
 		maxWidthArg = 0
 	}
 	maxWidth := maxWidthArg
-	groupCount := (maxWidth + margin) / (int(t.TableWidth(uint16(margin))) + margin)
+	groupCount := (maxWidth + margin) / (int(t.TableWidth(innerMargin)) + margin)
 	if groupCount < 1 {
 		groupCount = 1
 	}
-- 
2.43.0


From d772fadd0dbfd8f28ba96644a29613f2a86208c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:21 +0000
Subject: [PATCH 05/12] fix: do not divide by zero when merging rows without
 width

---
 horizontal.go | 5 ++++-
 vertical.go   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/horizontal.go b/horizontal.go
index 236986b..f56ff46 100644
--- a/horizontal.go
+++ b/horizontal.go
@@ -22,7 +22,10 @@ func (t *Table) MergeRowsHorizontal(
 		maxWidthArg = 0
 	}
 	maxWidth := maxWidthArg
-	groupCount := (maxWidth + margin) / (int(t.TableWidth(innerMargin)) + margin)
+	groupCount := 1
+	if groupWidth := int(t.TableWidth(innerMargin)) + margin; groupWidth > 0 {
+		groupCount = (maxWidth + margin) / groupWidth
+	}
 	if groupCount < 1 {
 		groupCount = 1
 	}
diff --git a/vertical.go b/vertical.go
index c987df6..acab4f4 100644
--- a/vertical.go
+++ b/vertical.go
@@ -22,7 +22,10 @@ func (t *Table) MergeRowsVertical(
 		maxWidthArg = 0
 	}
 	maxWidth := maxWidthArg
-	groupCount := (maxWidth + margin) / (int(t.TableWidth(innerMargin)) + margin)
+	groupCount := 1
+	if groupWidth := int(t.TableWidth(innerMargin)) + margin; groupWidth > 0 {
+		groupCount = (maxWidth + margin) / groupWidth
+	}
 	if groupCount < 1 {
 		groupCount = 1
 	}
-- 
2.43.0


From eb9ce5f7deb20cdf3f28e2c1d25d824b6cc3fd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:22 +0000
Subject: [PATCH 06/12] fix: end the search for a compact horizontal layout

---
 horizontal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/horizontal.go b/horizontal.go
index f56ff46..5e0dc7e 100644
--- a/horizontal.go
+++ b/horizontal.go
@@ -81,6 +81,10 @@ func (t *Table) compactCalcH(
 	colN := t.ColumnCount()
 	for {
 		groupCount := groupCountInit + extra + 1
+		if extra > 0 && groupCount > items.Len()+1 {
+			// more groups than items, no point in going on
+			return
+		}
 		cellWidthNew := t.mergedRowsWidthH(items, groupCount)
 		totalWidth := margin*(groupCount-1) + int(innerMargin)*(colN-1)*groupCount
 		for _, w := range cellWidthNew {
-- 
2.43.0


From a96ccdbe687022f6c65e21cdd1bc4c9fd2550888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:23 +0000
Subject: [PATCH 07/12] fix: write nothing when merging an empty list

---
 horizontal.go | 3 +++
 vertical.go   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/horizontal.go b/horizontal.go
index 5e0dc7e..1694bfe 100644
--- a/horizontal.go
+++ b/horizontal.go
@@ -42,6 +42,9 @@ func (t *Table) MergeRowsHorizontal(
 		}
 	}
 	itemN := items.Len()
+	if itemN == 0 {
+		return
+	}
 	lineCount := (itemN-1)/groupCount + 1
 	for lineI := 0; lineI < lineCount; lineI++ {
 		line := make([]string, 0, groupCount)
diff --git a/vertical.go b/vertical.go
index acab4f4..fdeb085 100644
--- a/vertical.go
+++ b/vertical.go
@@ -42,6 +42,9 @@ func (t *Table) MergeRowsVertical(
 		}
 	}
 	itemN := items.Len()
+	if itemN == 0 {
+		return
+	}
 	lineCount := (itemN-1)/groupCount + 1
 	for lineI := 0; lineI < lineCount; lineI++ {
 		line := make([]string, 0, groupCount)
-- 
2.43.0


From 77d8ed1fad089782fa58ae57987a3e8e6edfd77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:24 +0000
Subject: [PATCH 08/12] fix: compare the visual width of titles with the column
 width

---
 table.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/table.go b/table.go
index 9bab608..bdb3952 100644
--- a/table.go
+++ b/table.go
@@ -139,8 +139,8 @@ func (t *Table) padColumnHeader(col *Column) string {
 	if width == 0 {
 		return value
 	}
-	if len(value) > int(width) {
-		if len(col.ShortTitle) > int(width) {
+	if visualWidth(value) > width {
+		if visualWidth(col.ShortTitle) > width {
 			value = ""
 		} else {
 			value = col.ShortTitle
-- 
2.43.0


From dcef51db6ac54734f4e642f4d6581c4f4ae220c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:24 +0000
Subject: [PATCH 09/12] fix: make the width cache safe for concurrent use

---
 width.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/width.go b/width.go
index a29105c..f6b4cae 100644
--- a/width.go
+++ b/width.go
@@ -16,7 +16,7 @@ var ansiEscapeRE = regexp.MustCompile(
 	"[\u001b\u009b][[()#;?]*(?:[0-9]{1,4}(?:;[0-9]{0,4})*)?[0-9A-ORZcf-nqry=><]",
 )
 
-var widthCache = lru.New[string, uint16](lru.WithCapacity(10000))
+var widthCache = lru.NewSync[string, uint16](lru.WithCapacity(10000))
 
 // runewidth.FillLeft(str, width) or runewidth.FillRight(str, width) do not work
 
-- 
2.43.0


From c0832290f9b9c99f9bf19c764a30d5c8659d807d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:25 +0000
Subject: [PATCH 10/12] fix: do not wrap the table width around

---
 table.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/table.go b/table.go
index bdb3952..ba38920 100644
--- a/table.go
+++ b/table.go
@@ -159,9 +159,15 @@ func (t *Table) FormatHeader(sep string) string {
 }
 
 func (t *Table) TableWidth(margin uint16) uint16 {
-	width := (uint16(t.ColumnCount()) - 1) * margin
+	if t.ColumnCount() == 0 {
+		return 0
+	}
+	width := (t.ColumnCount() - 1) * int(margin)
 	for _, col := range t.Columns {
-		width += t.Width(col.Name)
+		width += int(t.Width(col.Name))
+	}
+	if width > MAX_WIDTH {
+		width = MAX_WIDTH
 	}
-	return width
+	return uint16(width)
 }
-- 
2.43.0


From af344a5f62b9ab93bf5a444855d2b66498a561f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:11 +0000
Subject: [PATCH 11/12] fix: count a separator's cells when they exceed its
 bytes

In an East Asian setting an invalid byte in a separator takes two cells,
so merged lines could be wider than the maximum width.
---
 horizontal.go | 4 ++++
 vertical.go   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/horizontal.go b/horizontal.go
index 1694bfe..ae0c4dd 100644
--- a/horizontal.go
+++ b/horizontal.go
@@ -14,6 +14,10 @@ func (t *Table) MergeRowsHorizontal(
 	compact bool,
 ) {
 	margin := len(sep)
+	if sepWidth := int(visualWidth(sep)); sepWidth > margin {
+		// an invalid byte can take more than one cell
+		margin = sepWidth
+	}
 	colN := t.ColumnCount()
 	if maxWidthArg > MAX_WIDTH {
 		maxWidthArg = MAX_WIDTH
diff --git a/vertical.go b/vertical.go
index fdeb085..404dd65 100644
--- a/vertical.go
+++ b/vertical.go
@@ -14,6 +14,10 @@ func (t *Table) MergeRowsVertical(
 	compact bool,
 ) {
 	margin := len(sep)
+	if sepWidth := int(visualWidth(sep)); sepWidth > margin {
+		// an invalid byte can take more than one cell
+		margin = sepWidth
+	}
 	colN := t.ColumnCount()
 	if maxWidthArg > MAX_WIDTH {
 		maxWidthArg = MAX_WIDTH
-- 
2.43.0


From c87e45020930855c57d6b5d8b7f7ec7f2ba224b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:00 +0000
Subject: [PATCH 12/12] fix: do not overwrite a lookup table that a copy may
 share

---
 runewidth/runewidth.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/runewidth/runewidth.go b/runewidth/runewidth.go
index 08e69f2..f348298 100644
--- a/runewidth/runewidth.go
+++ b/runewidth/runewidth.go
@@ -164,13 +164,9 @@ func (c *Condition) RuneWidth(r rune) int {
 // If options in c is changed, CreateLUT should be called again.
 func (c *Condition) CreateLUT() {
 	const max = 0x110000
-	lut := c.combinedLut
-	if len(c.combinedLut) != 0 {
-		// Remove so we don't use it.
-		c.combinedLut = nil
-	} else {
-		lut = make([]byte, max/2)
-	}
+	// Remove so we don't use it. A copy of c may share it, so it is not overwritten.
+	c.combinedLut = nil
+	lut := make([]byte, max/2)
 	for i := range lut {
 		i32 := int32(i * 2)
 		x0 := c.RuneWidth(i32)
-- 
2.43.0

