From d223b95dc765403aecb7bc6ce907248927cc1cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:02 +0000
Subject: [PATCH 1/8] fix: reject negative and absurd dimensions instead of
 panicking

A header stating negative dimensions (e.g. "GP  -1x  -1") or dimensions whose
product is out of range made parseData panic in makeslice.
---
 data.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/data.go b/data.go
index a9c3e0b..dfd9208 100644
--- a/data.go
+++ b/data.go
@@ -44,6 +44,10 @@ func (c *Composite) identifyEncoding() encoding {
 	return unknown
 }
 
+// maxValues limits the plain data size. It exceeds every known composite by far and prevents
+// corrupted headers from requesting excessive amounts of memory.
+const maxValues = 1 << 26
+
 // parseData parses the composite data and writes the related fields.
 // This method requires header data to be already written.
 func (c *Composite) parseData(reader *bufio.Reader) error {
@@ -51,6 +55,10 @@ func (c *Composite) parseData(reader *bufio.Reader) error {
 		return newError("parseData", "parsed header data required")
 	}
 
+	if c.Px < 0 || c.Py < 0 || c.Px > maxValues/c.Py {
+		return newError("parseData", "implausible dimensions")
+	}
+
 	// create Data fields
 	c.PlainData = make([][]float32, c.Py)
 	for i := range c.PlainData {
-- 
2.43.0


From ff3eee7bc38b55ba8f87cae267c98a652e431cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:03 +0000
Subject: [PATCH 2/8] fix: do not give a trailing header key the previous
 field's value

A header ending in a key without value, e.g. "...INT   5VV", was parsed as if
the key had the value of the preceding field (here VV = 5).
---
 header.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/header.go b/header.go
index 97581e0..39cc20c 100644
--- a/header.go
+++ b/header.go
@@ -33,6 +33,9 @@ func splitHeader(header string) (m map[string]string) {
 			endValue = i + 1
 		}
 	}
+	if !dispatch { // last key has no value
+		beginValue, endValue = len(header), len(header)
+	}
 	m[header[beginKey:endKey]] = header[beginValue:endValue]
 
 	return
-- 
2.43.0


From a2dd4d24e301f94ffeaa57cc736386d9ef9f5921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:04 +0000
Subject: [PATCH 3/8] fix: keep the catalogued resolution of local picture
 products

calibrateProjection overwrote Rx and Ry, as read from the dimension catalog,
with NaN for products without a projection grid.
---
 projection.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/projection.go b/projection.go
index 3e95f1f..de10834 100644
--- a/projection.go
+++ b/projection.go
@@ -90,6 +90,8 @@ func (c *Composite) cornerPoints(detectedGrid grid) (originTop, originLeft, edge
 
 // calibrateProjection initializes fields that are necessary for coordinate transformation
 func (c *Composite) calibrateProjection() {
+	rx, ry := c.Rx, c.Ry // resolution of local picture products
+
 	c.Rx = math.NaN()
 	c.Ry = math.NaN()
 	c.offx = math.NaN()
@@ -100,6 +102,9 @@ func (c *Composite) calibrateProjection() {
 
 	originTop, originLeft, edgeBottom, edgeRight, err := c.cornerPoints(detectedGrid)
 	if err != nil {
+		if rx > 0 && ry > 0 { // already defined by the product
+			c.Rx, c.Ry = rx, ry
+		}
 		return
 	}
 
-- 
2.43.0


From 7b06e9e2c2fa101fe8d7b3a187063891696c8d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 4/8] fix: detect damage in archives by reading up to the
 checksum

---
 radolan.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/radolan.go b/radolan.go
index ddf20a5..b694af4 100644
--- a/radolan.go
+++ b/radolan.go
@@ -41,6 +41,7 @@ import (
 	"compress/bzip2"
 	"fmt"
 	"io"
+	"io/ioutil"
 	"sort"
 	"time"
 )
@@ -177,6 +178,11 @@ func NewComposites(rd io.Reader) ([]*Composite, error) {
 		cs = append(cs, c)
 	}
 
+	// read to the end of the stream since the checksum follows the data
+	if _, err := io.Copy(ioutil.Discard, bzipReader); err != nil {
+		return nil, err
+	}
+
 	// sort composites in chronological order
 	sort.Slice(cs, func(i, j int) bool { return cs[i].ForecastTime.Before(cs[j].ForecastTime) })
 	return cs, nil
-- 
2.43.0


From 7f7c24586801e4b891387c34a860b9a8e984b45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:58 +0000
Subject: [PATCH 5/8] fix: reject a signed year in the capture time

---
 header.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/header.go b/header.go
index 39cc20c..2696d16 100644
--- a/header.go
+++ b/header.go
@@ -3,6 +3,7 @@ package radolan
 import (
 	"bufio"
 	"fmt"
+	"strings"
 	"time"
 	"unicode"
 )
@@ -69,6 +70,9 @@ func (c *Composite) parseHeader(reader *bufio.Reader) error {
 
 	// Parse CaptureTime - Example: "PG262115100000616" or "FZ211615100000716"
 	date := header[2:8] + header[13:17] // cut WMO number
+	if strings.ContainsAny(date, "+-") { // time.Parse accepts a signed year
+		return newError("parseHeader", "could not parse capture time: "+date)
+	}
 	c.CaptureTime, err = time.Parse("0215040106", date)
 	if err != nil {
 		return newError("parseHeader", "could not parse capture time: "+err.Error())
-- 
2.43.0


From a8beaffdd144dd9b4f65eda03a3d6f4f14cc666a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:17 +0000
Subject: [PATCH 6/8] fix: do not read the product label as a header field

---
 header.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/header.go b/header.go
index 2696d16..db07af1 100644
--- a/header.go
+++ b/header.go
@@ -51,7 +51,11 @@ func (c *Composite) parseHeader(reader *bufio.Reader) error {
 	}
 
 	// Split header segments
-	section := splitHeader(header[:len(header)-1]) // without delimiter
+	if !unicode.IsUpper(rune(header[0])) {
+		return newError("parseHeader", "header corrupted: no product label")
+	}
+	fields := strings.TrimLeftFunc(header[2:len(header)-1], func(c rune) bool { return !unicode.IsUpper(c) })
+	section := splitHeader(fields) // without product label, date and delimiter
 
 	// Parse Product - Example: "PG" or "FZ"
 	c.Product = header[:2]
-- 
2.43.0


From 7d201112e93b41516f1031bdd89599e032399239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:33 +0000
Subject: [PATCH 7/8] fix: also bound the edges of the plain data

---
 data.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/data.go b/data.go
index dfd9208..d07bfdb 100644
--- a/data.go
+++ b/data.go
@@ -44,9 +44,12 @@ func (c *Composite) identifyEncoding() encoding {
 	return unknown
 }
 
-// maxValues limits the plain data size. It exceeds every known composite by far and prevents
-// corrupted headers from requesting excessive amounts of memory.
-const maxValues = 1 << 26
+// maxEdge and maxValues limit the plain data size. They exceed every known composite by far and
+// prevent corrupted headers from requesting excessive amounts of memory.
+const (
+	maxEdge   = 1 << 16
+	maxValues = 1 << 26
+)
 
 // parseData parses the composite data and writes the related fields.
 // This method requires header data to be already written.
@@ -55,7 +58,7 @@ func (c *Composite) parseData(reader *bufio.Reader) error {
 		return newError("parseData", "parsed header data required")
 	}
 
-	if c.Px < 0 || c.Py < 0 || c.Px > maxValues/c.Py {
+	if c.Px < 0 || c.Py < 0 || c.Px > maxEdge || c.Py > maxEdge || c.Px > maxValues/c.Py {
 		return newError("parseData", "implausible dimensions")
 	}
 
-- 
2.43.0


From 990de3ec80ae9d4e739dcb7c119968a2d09c60c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:01 +0000
Subject: [PATCH 8/8] fix: draw the meridians of the mesh at whole degrees

---
 radolan2png/radolan2png.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/radolan2png/radolan2png.go b/radolan2png/radolan2png.go
index 94bc5d5..71b0bcd 100644
--- a/radolan2png/radolan2png.go
+++ b/radolan2png/radolan2png.go
@@ -78,10 +78,10 @@ func convert(in, out string) {
 		}
 
 		// draw mesh
-		for e := 1.0; e < 16.0; e += 0.1 {
-			for n := 46.0; n < 55.0; n += 0.1 {
-				if e-float64(int(e)) < 0.1 || n-float64(int(n)) < 0.1 {
-					x, y := comp.Project(n, e)
+		for e := 10; e < 160; e++ { // tenth degrees
+			for n := 460; n < 550; n++ {
+				if e%10 == 0 || n%10 == 0 {
+					x, y := comp.Project(float64(n)/10, float64(e)/10)
 					img.Set(int(x), int(y), meshColor)
 				}
 			}
-- 
2.43.0

