From 41d0fb38e6aea4b8b3c198955e99ab85b3793037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:23 +0000
Subject: [PATCH 1/5] fix: report invalid dimensions as error instead of
 panicking

A header declaring negative or absurdly large dimensions (e.g. GP  -2x  -2)
made NewComposite panic in makeslice.
---
 data.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/data.go b/data.go
index a9c3e0b..48ee44d 100644
--- a/data.go
+++ b/data.go
@@ -14,6 +14,9 @@ const (
 	unknown
 )
 
+// largest dimension that fits the four characters reserved by the header
+const maxDimension = 9999
+
 // parsing methods
 var parse = [4]func(c *Composite, rd *bufio.Reader) error{}
 
@@ -50,6 +53,9 @@ func (c *Composite) parseData(reader *bufio.Reader) error {
 	if c.Px == 0 || c.Py == 0 {
 		return newError("parseData", "parsed header data required")
 	}
+	if c.Px < 0 || c.Py < 0 || c.Px > maxDimension || c.Py > maxDimension {
+		return newError("parseData", "invalid dimensions")
+	}
 
 	// create Data fields
 	c.PlainData = make([][]float32, c.Py)
-- 
2.43.0


From 9951b7550cbc8b3fa193290719099dc23cdcf051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:24 +0000
Subject: [PATCH 2/5] fix: do not assign the preceding value to a trailing
 header field

splitHeader gave a field without content at the end of the header the content
of the field before it, so that e.g. "GP   2x   2VV" was read as "VV 2".
---
 header.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/header.go b/header.go
index 97581e0..803bd20 100644
--- a/header.go
+++ b/header.go
@@ -19,6 +19,7 @@ func splitHeader(header string) (m map[string]string) {
 			if dispatch {
 				m[header[beginKey:endKey]] = header[beginValue:endValue]
 				beginKey = i
+				beginValue, endValue = i, i // no value yet
 				dispatch = false
 			}
 			endKey = i + 1
-- 
2.43.0


From 644a3660e83ea43014ce1eebc317f7f51577ee9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:25 +0000
Subject: [PATCH 3/5] fix: keep the catalog resolution of local picture
 products

calibrateProjection overwrote the resolution of products without projection
with NaN, even if it was known from the catalog.
---
 projection.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/projection.go b/projection.go
index 3e95f1f..f37aaf7 100644
--- a/projection.go
+++ b/projection.go
@@ -90,8 +90,10 @@ func (c *Composite) cornerPoints(detectedGrid grid) (originTop, originLeft, edge
 
 // calibrateProjection initializes fields that are necessary for coordinate transformation
 func (c *Composite) calibrateProjection() {
-	c.Rx = math.NaN()
-	c.Ry = math.NaN()
+	if c.Rx == 0 || c.Ry == 0 { // keep catalog resolution of local products
+		c.Rx = math.NaN()
+		c.Ry = math.NaN()
+	}
 	c.offx = math.NaN()
 	c.offy = math.NaN()
 
-- 
2.43.0


From c7d92f69f86c4599774366a6c99bb43bcb1d9129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:00 +0000
Subject: [PATCH 4/5] fix: read blank-padded BG dimensions by columns

---
 header.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/header.go b/header.go
index 803bd20..46311d2 100644
--- a/header.go
+++ b/header.go
@@ -104,6 +104,9 @@ func (c *Composite) parseHeader(reader *bufio.Reader) error {
 		c.Px, c.Py = c.Dx, c.Dy // composite formats do not show elevation
 
 	} else if dim, ok := section["BG"]; ok {
+		if len(dim) > 3 { // three columns each, of which %3d does not count leading blanks
+			dim = dim[:3] + " " + dim[3:]
+		}
 		if _, err := fmt.Sscanf(dim, "%3d%3d", &c.Dy, &c.Dx); err != nil {
 			return newError("parseHeader", "could not parse dimensions (BG): "+err.Error())
 		}
-- 
2.43.0


From 994e68659729e4e7250ab15f6eb3f87531b2e467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:52 +0000
Subject: [PATCH 5/5] fix: verify the checksums of an archive to its end

---
 radolan.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/radolan.go b/radolan.go
index ddf20a5..2a3eb32 100644
--- a/radolan.go
+++ b/radolan.go
@@ -41,6 +41,7 @@ import (
 	"compress/bzip2"
 	"fmt"
 	"io"
+	"io/ioutil"
 	"sort"
 	"time"
 )
@@ -177,6 +178,11 @@ func NewComposites(rd io.Reader) ([]*Composite, error) {
 		cs = append(cs, c)
 	}
 
+	// the checksums of the last block and of the stream are verified when its end is reached
+	if _, err := io.Copy(ioutil.Discard, bzipReader); err != nil {
+		return nil, err
+	}
+
 	// sort composites in chronological order
 	sort.Slice(cs, func(i, j int) bool { return cs[i].ForecastTime.Before(cs[j].ForecastTime) })
 	return cs, nil
-- 
2.43.0

