From ce2c95dd21699392d5ec85b01b2ff116a0a4eb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:26 +0000
Subject: [PATCH 1/5] fix: verify the compressed archive up to its end

NewComposites stopped reading at the end marker of the tar archive, so the
checksum of the last bzip2 block was never compared and altered archives were
accepted with wrong or missing composites.
---
 radolan.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/radolan.go b/radolan.go
index ddf20a5..c112b50 100644
--- a/radolan.go
+++ b/radolan.go
@@ -41,6 +41,7 @@ import (
 	"compress/bzip2"
 	"fmt"
 	"io"
+	"io/ioutil"
 	"sort"
 	"time"
 )
@@ -177,6 +178,12 @@ func NewComposites(rd io.Reader) ([]*Composite, error) {
 		cs = append(cs, c)
 	}
 
+	// the archive ends before the compressed stream does: read the remaining
+	// padding to have the checksum of its last block verified
+	if _, err := io.Copy(ioutil.Discard, bzipReader); err != nil {
+		return nil, err
+	}
+
 	// sort composites in chronological order
 	sort.Slice(cs, func(i, j int) bool { return cs[i].ForecastTime.Before(cs[j].ForecastTime) })
 	return cs, nil
-- 
2.43.0


From d41ecc27b6a7d3ed3a9e1961ffa5fce6944e7617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:26 +0000
Subject: [PATCH 2/5] fix: reject dimensions the header format cannot express

Negative or huge dimensions in a damaged header made the parser panic in
make or exhaust the memory.
---
 header.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/header.go b/header.go
index 97581e0..c563ff1 100644
--- a/header.go
+++ b/header.go
@@ -119,6 +119,11 @@ func (c *Composite) parseHeader(reader *bufio.Reader) error {
 		c.Rx, c.Ry = v.rx, v.ry // data resolution
 	}
 
+	// dimensions have at most four digits
+	if c.Px < 1 || c.Py < 1 || c.Px > 9999 || c.Py > 9999 {
+		return newError("parseHeader", "invalid dimensions")
+	}
+
 	// Parse Precision - Example: "PR E-01" or "PR E+00"
 	if prec, ok := section["E"]; ok { // not that nice
 		if _, err := fmt.Sscanf(prec, "%d", &c.precision); err != nil {
-- 
2.43.0


From 30fe974cbba1b4000febd482a9a6670b53103ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 3/5] fix: keep the catalogued resolution of local picture
 products

calibrateProjection replaced the resolution that parseHeader had taken from
the catalog by NaN.
---
 projection.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/projection.go b/projection.go
index 3e95f1f..ff8231e 100644
--- a/projection.go
+++ b/projection.go
@@ -90,8 +90,10 @@ func (c *Composite) cornerPoints(detectedGrid grid) (originTop, originLeft, edge
 
 // calibrateProjection initializes fields that are necessary for coordinate transformation
 func (c *Composite) calibrateProjection() {
-	c.Rx = math.NaN()
-	c.Ry = math.NaN()
+	if c.Rx == 0 || c.Ry == 0 { // resolution not known from the catalog
+		c.Rx = math.NaN()
+		c.Ry = math.NaN()
+	}
 	c.offx = math.NaN()
 	c.offy = math.NaN()
 
-- 
2.43.0


From c6201712d2ea8dc4c55747b7a9af3f843e5917d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 4/5] fix: radolan2png reports errors of closing the output
 file

A write that fails only when the file is closed left an incomplete image
although the program ended with exit status 0.
---
 radolan2png/radolan2png.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radolan2png/radolan2png.go b/radolan2png/radolan2png.go
index 94bc5d5..e2e4a0c 100644
--- a/radolan2png/radolan2png.go
+++ b/radolan2png/radolan2png.go
@@ -91,10 +91,10 @@ func convert(in, out string) {
 	// create output file
 	outfile, err := os.Create(out)
 	care(err)
-	defer outfile.Close()
 
 	// write image to output file
 	care(png.Encode(outfile, img))
+	care(outfile.Close()) // delayed write errors show up here
 }
 
 // care exits the program if an error occured
-- 
2.43.0


From 7e823e71c01fadac6b3f37b14422bb4db5de3a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:56 +0000
Subject: [PATCH 5/5] fix: do not take an archive cut between its members for a
 complete one

---
 radolan.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/radolan.go b/radolan.go
index c112b50..1716cfd 100644
--- a/radolan.go
+++ b/radolan.go
@@ -159,7 +159,8 @@ func NewComposite(rd io.Reader) (comp *Composite, err error) {
 func NewComposites(rd io.Reader) ([]*Composite, error) {
 	bzipReader := bzip2.NewReader(rd)
 
-	tarReader := tar.NewReader(bzipReader)
+	archive := &endReader{Reader: bzipReader}
+	tarReader := tar.NewReader(archive)
 
 	var cs []*Composite
 	for {
@@ -178,6 +179,12 @@ func NewComposites(rd io.Reader) ([]*Composite, error) {
 		cs = append(cs, c)
 	}
 
+	// the tar reader takes a missing end marker for the end of the archive, but
+	// an archive that is cut short between its members looks like that too
+	if archive.ended {
+		return nil, newError("NewComposites", "unexpected end of archive")
+	}
+
 	// the archive ends before the compressed stream does: read the remaining
 	// padding to have the checksum of its last block verified
 	if _, err := io.Copy(ioutil.Discard, bzipReader); err != nil {
@@ -189,6 +196,20 @@ func NewComposites(rd io.Reader) ([]*Composite, error) {
 	return cs, nil
 }
 
+// endReader remembers whether the end of the underlying reader was reached.
+type endReader struct {
+	io.Reader
+	ended bool
+}
+
+func (r *endReader) Read(p []byte) (n int, err error) {
+	n, err = r.Reader.Read(p)
+	if n == 0 && err == io.EOF {
+		r.ended = true
+	}
+	return
+}
+
 // NewDummy creates a blank dummy composite with the given product label, format version, and dimensions. It can
 // be used for generic coordinate projection.
 func NewDummy(product string, format, dx, dy int) (comp *Composite) {
-- 
2.43.0

