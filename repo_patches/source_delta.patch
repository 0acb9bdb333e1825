From f20938edaee98c9ef385c2602fbe9cde02f88d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:47 +0000
Subject: [PATCH 1/6] fix: refuse non-positive and oversized image dimensions
 instead of panicking

---
 data.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/data.go b/data.go
index a9c3e0b..cd9bf6d 100644
--- a/data.go
+++ b/data.go
@@ -44,12 +44,19 @@ func (c *Composite) identifyEncoding() encoding {
 	return unknown
 }
 
+// maxDimension limits the width and height of an image, so that a corrupted
+// header cannot request an arbitrary amount of memory.
+const maxDimension = 1 << 13
+
 // parseData parses the composite data and writes the related fields.
 // This method requires header data to be already written.
 func (c *Composite) parseData(reader *bufio.Reader) error {
-	if c.Px == 0 || c.Py == 0 {
+	if c.Px <= 0 || c.Py <= 0 {
 		return newError("parseData", "parsed header data required")
 	}
+	if c.Px > maxDimension || c.Py > maxDimension {
+		return newError("parseData", "image dimensions exceed limit")
+	}
 
 	// create Data fields
 	c.PlainData = make([][]float32, c.Py)
-- 
2.43.0


From fb2b290baaaad05d28364968982dad77d565e8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:27 +0000
Subject: [PATCH 2/6] fix: keep the catalogued resolution of local products
 when no grid is found

---
 projection.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/projection.go b/projection.go
index 3e95f1f..11f2f71 100644
--- a/projection.go
+++ b/projection.go
@@ -90,8 +90,10 @@ func (c *Composite) cornerPoints(detectedGrid grid) (originTop, originLeft, edge
 
 // calibrateProjection initializes fields that are necessary for coordinate transformation
 func (c *Composite) calibrateProjection() {
-	c.Rx = math.NaN()
-	c.Ry = math.NaN()
+	if c.Rx == 0 || c.Ry == 0 { // resolution is not defined by catalog
+		c.Rx = math.NaN()
+		c.Ry = math.NaN()
+	}
 	c.offx = math.NaN()
 	c.offy = math.NaN()
 
-- 
2.43.0


From 83ec704d6a1dc7a357fef63325fb34a06baa9b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:27 +0000
Subject: [PATCH 3/6] fix: do not assign the previous field's value to a key
 ending the header

---
 header.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/header.go b/header.go
index 97581e0..39cc20c 100644
--- a/header.go
+++ b/header.go
@@ -33,6 +33,9 @@ func splitHeader(header string) (m map[string]string) {
 			endValue = i + 1
 		}
 	}
+	if !dispatch { // last key has no value
+		beginValue, endValue = len(header), len(header)
+	}
 	m[header[beginKey:endKey]] = header[beginValue:endValue]
 
 	return
-- 
2.43.0


From 08d99a3edf54c35f7e4d0ed2ae2d840d97dab972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:27 +0000
Subject: [PATCH 4/6] fix: draw missing values black instead of converting NaN
 to a byte

---
 radolan2png/vis/vis.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/radolan2png/vis/vis.go b/radolan2png/vis/vis.go
index 26ae7e1..e1d18a0 100644
--- a/radolan2png/vis/vis.go
+++ b/radolan2png/vis/vis.go
@@ -88,6 +88,9 @@ func Graymap(min, max float64, compression func(float64) float64) ColorFunc {
 		}
 
 		p := (val - min) / (max - min)
+		if p != p { // no data
+			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black
+		}
 		if p > 1 {
 			p = 1
 		}
@@ -140,6 +143,9 @@ func Heatmap(min, max float64, compression func(float64) float64) ColorFunc {
 		}
 
 		p := (val - min) / (max - min)
+		if p != p { // no data
+			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black
+		}
 		if p > 1 { // limit
 			p = 1
 		}
-- 
2.43.0


From 1aa1fd133610225f5f11b3e0b110581c3836e82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:27 +0000
Subject: [PATCH 5/6] fix: report errors when closing the output file

---
 radolan2png/radolan2png.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radolan2png/radolan2png.go b/radolan2png/radolan2png.go
index 94bc5d5..7306a15 100644
--- a/radolan2png/radolan2png.go
+++ b/radolan2png/radolan2png.go
@@ -91,10 +91,10 @@ func convert(in, out string) {
 	// create output file
 	outfile, err := os.Create(out)
 	care(err)
-	defer outfile.Close()
 
 	// write image to output file
 	care(png.Encode(outfile, img))
+	care(outfile.Close())
 }
 
 // care exits the program if an error occured
-- 
2.43.0


From 898d4af51266288f982d0be8811fb1d2896231ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:20 +0000
Subject: [PATCH 6/6] fix: place the coordinate mesh on whole degrees

The accumulated rounding errors of the loop variables moved the meridians
from 5 E on by 0.1 degrees and added one beyond the raster.
---
 radolan2png/radolan2png.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/radolan2png/radolan2png.go b/radolan2png/radolan2png.go
index 7306a15..4c44138 100644
--- a/radolan2png/radolan2png.go
+++ b/radolan2png/radolan2png.go
@@ -78,10 +78,10 @@ func convert(in, out string) {
 		}
 
 		// draw mesh
-		for e := 1.0; e < 16.0; e += 0.1 {
-			for n := 46.0; n < 55.0; n += 0.1 {
-				if e-float64(int(e)) < 0.1 || n-float64(int(n)) < 0.1 {
-					x, y := comp.Project(n, e)
+		for e := 10; e < 160; e++ { // 0.1 degree steps
+			for n := 460; n < 550; n++ {
+				if e%10 == 0 || n%10 == 0 {
+					x, y := comp.Project(float64(n)/10, float64(e)/10)
 					img.Set(int(x), int(y), meshColor)
 				}
 			}
-- 
2.43.0

