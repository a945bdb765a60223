From 98dd58a5063d42ae2411a72438f8372fa4c77596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:13 +0000
Subject: [PATCH 01/63] fix: report errors of the underlying writer from
 WriteTo, Write and Read

---
 gopdf.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 44c4435..67d05a4 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1057,18 +1057,21 @@ func (gp *GoPdf) compilePdf(w io.Writer) (n int64, err error) {
 		linelens[i] = writer.offset
 		pdfObj := gp.pdfObjs[i]
 		fmt.Fprintf(writer, "%d 0 obj\n", objID)
-		pdfObj.write(writer, objID)
+		if err := pdfObj.write(writer, objID); err != nil {
+			return writer.offset, err
+		}
 		io.WriteString(writer, "endobj\n\n")
 		i++
 	}
 	gp.xref(writer, writer.offset, linelens, i)
-	return writer.offset, nil
+	return writer.offset, writer.err
 }
 
 type (
 	countingWriter struct {
 		offset int64
 		writer io.Writer
+		err    error // first error of writer; nothing is written after it
 	}
 )
 
@@ -1077,8 +1080,15 @@ func newCountingWriter(w io.Writer) *countingWriter {
 }
 
 func (cw *countingWriter) Write(b []byte) (int, error) {
+	if cw.err != nil {
+		return 0, cw.err
+	}
 	n, err := cw.writer.Write(b)
 	cw.offset += int64(n)
+	if err == nil && n < len(b) {
+		err = io.ErrShortWrite
+	}
+	cw.err = err
 	return n, err
 }
 
-- 
2.43.0


From 555094b684aed4ae5de8fb5dbb23d1f4d5bfb731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:40 +0000
Subject: [PATCH 02/63] fix: output leaves the document unchanged, so a
 repeated output is identical

---
 cache_content_imported_object.go |  3 +--
 gopdf.go                         |  5 ++++-
 procset_obj.go                   | 10 ++++++++--
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/cache_content_imported_object.go b/cache_content_imported_object.go
index a7dca9a..6c90260 100644
--- a/cache_content_imported_object.go
+++ b/cache_content_imported_object.go
@@ -15,7 +15,6 @@ type cacheContentImportedTemplate struct {
 }
 
 func (c *cacheContentImportedTemplate) write(w io.Writer, protection *PDFProtection) error {
-	c.tY += c.pageHeight
-	fmt.Fprintf(w, "q 0 J 1 w 0 j 0 G 0 g q %.4F 0 0 %.4F %.4F %.4F cm %s Do Q Q\n", c.scaleX, c.scaleY, c.tX, c.tY, c.tplName)
+	fmt.Fprintf(w, "q 0 J 1 w 0 j 0 G 0 g q %.4F 0 0 %.4F %.4F %.4F cm %s Do Q Q\n", c.scaleX, c.scaleY, c.tX, c.tY+c.pageHeight, c.tplName)
 	return nil
 }
diff --git a/gopdf.go b/gopdf.go
index 67d05a4..68826b7 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -2245,7 +2245,7 @@ func (gp *GoPdf) protection() *PDFProtection {
 
 func (gp *GoPdf) prepare() {
 
-	if gp.isUseProtection() {
+	if gp.isUseProtection() && gp.encryptionObjID == 0 {
 		encObj := gp.pdfProtection.encryptionObj()
 		gp.addObj(encObj)
 	}
@@ -2258,6 +2258,8 @@ func (gp *GoPdf) prepare() {
 	if gp.indexOfPagesObj != -1 {
 		indexCurrPage := -1
 		pagesObj := gp.pdfObjs[gp.indexOfPagesObj].(*PagesObj)
+		pagesObj.Kids = ""
+		pagesObj.PageCount = 0
 		i := 0 //gp.indexOfFirstPageObj
 		max := len(gp.pdfObjs)
 		for i < max {
@@ -2266,6 +2268,7 @@ func (gp *GoPdf) prepare() {
 			case "Page":
 				pagesObj.Kids = fmt.Sprintf("%s %d 0 R ", pagesObj.Kids, i+1)
 				pagesObj.PageCount++
+				gp.pdfObjs[i].(*PageObj).Contents = ""
 				indexCurrPage = i
 			case "Content":
 				if indexCurrPage != -1 {
diff --git a/procset_obj.go b/procset_obj.go
index 77da7ac..fe22751 100644
--- a/procset_obj.go
+++ b/procset_obj.go
@@ -3,6 +3,7 @@ package gopdf
 import (
 	"fmt"
 	"io"
+	"sort"
 )
 
 // ProcSetObj is a PDF procSet object.
@@ -47,8 +48,13 @@ func (pr *ProcSetObj) write(w io.Writer, objID int) error {
 		xobjects += fmt.Sprintf("\t\t/I%d %d 0 R\n", XObject.IndexOfObj+1, XObject.IndexOfObj+1)
 	}
 	// Write imported template name and their ids
-	for tplName, objID := range pr.ImportedTemplateIds {
-		xobjects += fmt.Sprintf("\t\t%s %d 0 R\n", tplName, objID)
+	tplNames := make([]string, 0, len(pr.ImportedTemplateIds))
+	for tplName := range pr.ImportedTemplateIds {
+		tplNames = append(tplNames, tplName)
+	}
+	sort.Strings(tplNames)
+	for _, tplName := range tplNames {
+		xobjects += fmt.Sprintf("\t\t%s %d 0 R\n", tplName, pr.ImportedTemplateIds[tplName])
 	}
 	xobjects += "\t>>\n"
 
-- 
2.43.0


From b533988b492be8696d835f276ac2f15fe2d45e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:35 +0000
Subject: [PATCH 03/63] fix: GetBytesPdf does not leave a stale document for
 Read

---
 gopdf.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 68826b7..3e0f7e1 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1098,8 +1098,9 @@ func (gp *GoPdf) GetBytesPdfReturnErr() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	_, err = gp.compilePdf(&gp.buf)
-	return gp.buf.Bytes(), err
+	var buf bytes.Buffer
+	_, err = gp.compilePdf(&buf)
+	return buf.Bytes(), err
 }
 
 // GetBytesPdf : get bytes of pdf file
-- 
2.43.0


From 30e4ea02c4b1dd6997c16ad1578785e2e1c11fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:02 +0000
Subject: [PATCH 04/63] fix: encrypt the content of mask form XObjects in
 protected documents

---
 gopdf.go                      |  1 +
 transparency_xobject_group.go | 11 ++++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/gopdf.go b/gopdf.go
index 3e0f7e1..2a0b31c 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -622,6 +622,7 @@ func (gp *GoPdf) createTransparencyXObjectGroup(image *cacheContentImage, opts M
 	}
 
 	groupOpts := TransparencyXObjectGroupOptions{
+		Protection:       gp.protection(),
 		BBox:             *bbox,
 		ExtGStateIndexes: opts.extGStateIndexes,
 		XObjects:         []cacheContentImage{*image},
diff --git a/transparency_xobject_group.go b/transparency_xobject_group.go
index e58b1cc..7645347 100644
--- a/transparency_xobject_group.go
+++ b/transparency_xobject_group.go
@@ -64,6 +64,15 @@ func (s TransparencyXObjectGroup) write(w io.Writer, objId int) error {
 		}
 	}
 
+	stream := streamBuff.Bytes()
+	if s.protection() != nil {
+		tmp, err := rc4Cip(s.protection().objectkey(objId), stream)
+		if err != nil {
+			return err
+		}
+		stream = append(tmp, '\n')
+	}
+
 	content := "<<\n"
 	content += "\t/FormType 1\n"
 	content += "\t/Subtype /Form\n"
@@ -80,7 +89,7 @@ func (s TransparencyXObjectGroup) write(w io.Writer, objId int) error {
 		return err
 	}
 
-	if _, err := w.Write(streamBuff.Bytes()); err != nil {
+	if _, err := w.Write(stream); err != nil {
 		return err
 	}
 
-- 
2.43.0


From 216b94b3afcd7b44ccfc1d7677b8cb30e4ad7049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:02 +0000
Subject: [PATCH 05/63] fix: write a value for internal links whose anchor is
 not set

---
 annot_obj.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/annot_obj.go b/annot_obj.go
index dd10a7a..5b5edac 100644
--- a/annot_obj.go
+++ b/annot_obj.go
@@ -49,7 +49,10 @@ func (o annotObj) writeExternalLink(w io.Writer, l linkOption, objID int) error
 func (o annotObj) writeInternalLink(w io.Writer, l linkOption) error {
 	a, ok := o.GetRoot().anchors[l.anchor]
 	if !ok {
-		return nil
+		// The anchor was never set: keep the annotation, without a destination.
+		_, err := fmt.Fprintf(w, "<</Type /Annot /Subtype /Link /Rect [%.2f %.2f %.2f %.2f] /Border [0 0 0]>>\n",
+			l.x, l.y, l.x+l.w, l.y-l.h)
+		return err
 	}
 	_, err := fmt.Fprintf(w, "<</Type /Annot /Subtype /Link /Rect [%.2f %.2f %.2f %.2f] /Border [0 0 0] /Dest [%d 0 R /XYZ 0 %.2f null]>>\n",
 		l.x, l.y, l.x+l.w, l.y-l.h, a.page+1, a.y)
-- 
2.43.0


From f47114e4e5e711fbae34fbb259fe51fc555562bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:43 +0000
Subject: [PATCH 06/63] fix: splitting text terminates when a rune or separator
 does not fit the line

---
 gopdf.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 2a0b31c..0fe0a4b 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1377,7 +1377,8 @@ func (gp *GoPdf) SplitTextWithOption(text string, width float64, opt *BreakOptio
 			return nil, err
 		}
 		// mid-word break required since the max width of the given rect is exceeded
-		if lineWidth+runeWidth > width && utf8Texts[i] != '\n' {
+		// (a rune which is wider than the line is kept on a line of its own)
+		if lineWidth+runeWidth > width && utf8Texts[i] != '\n' && len(lineText) > 0 {
 			// forceBreak will be set to true in case an indicator sensitive break was not possible which will cause
 			// strict break to not exceed the desired width
 			forceBreak := false
@@ -1501,10 +1502,12 @@ func performIndicatorSensitiveLineBreak(lineTexts *[]string, lineText *[]rune, i
 }
 
 func performStrictLineBreak(lineTexts *[]string, lineText *[]rune, i *int, separatorIdx int, opt *BreakOption) {
-	if opt.HasSeparator() && separatorIdx > -1 {
+	// number of runes left when the line is trimmed to the last possible index, not
+	// positive when the separator does not fit into the current line
+	trimmedLen := len(*lineText) - (*i - separatorIdx)
+	if opt.HasSeparator() && trimmedLen > 0 {
 		// trim the line to the last possible index with an appended separator
-		trimIdx := *i - separatorIdx
-		*lineText = (*lineText)[0 : len(*lineText)-trimIdx]
+		*lineText = (*lineText)[0:trimmedLen]
 		// append separator to the line
 		*lineText = append(*lineText, []rune(opt.Separator)...)
 		*lineTexts = append(*lineTexts, string(*lineText))
-- 
2.43.0


From 854d1a160389796f80039d8961e9695e4f247adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:41 +0000
Subject: [PATCH 07/63] fix: rectangles and boxes honour
 Config.ConversionForUnit

---
 gopdf.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 0fe0a4b..e8c5f4e 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -488,7 +488,7 @@ func (gp *GoPdf) SetXY(x, y float64) {
 func (gp *GoPdf) ImageByHolder(img ImageHolder, x float64, y float64, rect *Rect) error {
 	gp.UnitsToPointsVar(&x, &y)
 
-	rect = rect.UnitsToPoints(gp.config.Unit)
+	rect = rect.unitsToPoints(gp.config)
 
 	imageOptions := ImageOptions{
 		X:    x,
@@ -502,7 +502,7 @@ func (gp *GoPdf) ImageByHolder(img ImageHolder, x float64, y float64, rect *Rect
 func (gp *GoPdf) ImageByHolderWithOptions(img ImageHolder, opts ImageOptions) error {
 	gp.UnitsToPointsVar(&opts.X, &opts.Y)
 
-	opts.Rect = opts.Rect.UnitsToPoints(gp.config.Unit)
+	opts.Rect = opts.Rect.unitsToPoints(gp.config)
 
 	imageTransparency, err := gp.getCachedTransparency(opts.Transparency)
 	if err != nil {
@@ -524,7 +524,7 @@ func (gp *GoPdf) ImageByHolderWithOptions(img ImageHolder, opts ImageOptions) er
 		}
 
 		gp.UnitsToPointsVar(&opts.Mask.ImageOptions.X, &opts.Mask.ImageOptions.Y)
-		opts.Mask.ImageOptions.Rect = opts.Mask.ImageOptions.Rect.UnitsToPoints(gp.config.Unit)
+		opts.Mask.ImageOptions.Rect = opts.Mask.ImageOptions.Rect.unitsToPoints(gp.config)
 
 		extGStateIndex, err := gp.maskHolder(opts.Mask.Holder, *opts.Mask)
 		if err != nil {
@@ -733,7 +733,7 @@ func (gp *GoPdf) imageByHolder(img ImageHolder, opts ImageOptions) error {
 // Image : draw image
 func (gp *GoPdf) Image(picPath string, x float64, y float64, rect *Rect) error {
 	gp.UnitsToPointsVar(&x, &y)
-	rect = rect.UnitsToPoints(gp.config.Unit)
+	rect = rect.unitsToPoints(gp.config)
 	imgh, err := ImageHolderByPath(picPath)
 	if err != nil {
 		return err
@@ -763,7 +763,7 @@ func (gp *GoPdf) ImageFromWithOption(img image.Image, opts ImageFromOption) erro
 	}
 
 	gp.UnitsToPointsVar(&opts.X, &opts.Y)
-	opts.Rect = opts.Rect.UnitsToPoints(gp.config.Unit)
+	opts.Rect = opts.Rect.unitsToPoints(gp.config)
 	r, w := io.Pipe()
 	go func() {
 		bw := bufio.NewWriter(w)
@@ -805,8 +805,8 @@ func (gp *GoPdf) AddPage() {
 
 // AddPageWithOption  : add new page with option
 func (gp *GoPdf) AddPageWithOption(opt PageOption) {
-	opt.TrimBox = opt.TrimBox.UnitsToPoints(gp.config.Unit)
-	opt.PageSize = opt.PageSize.UnitsToPoints(gp.config.Unit)
+	opt.TrimBox = opt.TrimBox.unitsToPoints(gp.config)
+	opt.PageSize = opt.PageSize.unitsToPoints(gp.config)
 
 	page := new(PageObj)
 	page.init(func() *GoPdf {
@@ -1140,7 +1140,7 @@ func (gp *GoPdf) CellWithOption(rectangle *Rect, text string, opt CellOption) er
 		opt.extGStateIndexes = append(opt.extGStateIndexes, transparency.extGStateIndex)
 	}
 
-	rectangle = rectangle.UnitsToPoints(gp.config.Unit)
+	rectangle = rectangle.unitsToPoints(gp.config)
 	text, err = gp.curr.FontISubset.AddChars(text)
 	if err != nil {
 		return err
@@ -1155,7 +1155,7 @@ func (gp *GoPdf) CellWithOption(rectangle *Rect, text string, opt CellOption) er
 // Cell : create cell of text ( use current x,y is upper-left corner of cell)
 // Note that this has no effect on Rect.H pdf (now). Fix later :-)
 func (gp *GoPdf) Cell(rectangle *Rect, text string) error {
-	rectangle = rectangle.UnitsToPoints(gp.config.Unit)
+	rectangle = rectangle.unitsToPoints(gp.config)
 	defaultopt := CellOption{
 		Align:  Left | Top,
 		Border: 0,
-- 
2.43.0


From dd9a9d8a91d96658c879c6b59311e370727898d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:43 +0000
Subject: [PATCH 08/63] fix: links, anchors and outlines use the height of
 their page

---
 gopdf.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index e8c5f4e..104725d 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -855,7 +855,7 @@ func (gp *GoPdf) AddOutline(title string) {
 
 // AddOutlineWithPosition add an outline with position
 func (gp *GoPdf) AddOutlineWithPosition(title string) *OutlineObj {
-	return gp.outlines.AddOutlinesWithPosition(gp.curr.IndexOfPageObj+1, title, gp.config.PageSize.H-gp.curr.Y+20)
+	return gp.outlines.AddOutlinesWithPosition(gp.curr.IndexOfPageObj+1, title, gp.curr.pageSize.H-gp.curr.Y+20)
 }
 
 // AddHeader - add a header function, if present this will be automatically called by AddPage()
@@ -1721,7 +1721,7 @@ func (gp *GoPdf) ImportTemplates(tpls map[string]int) {
 func (gp *GoPdf) AddExternalLink(url string, x, y, w, h float64) {
 	gp.UnitsToPointsVar(&x, &y, &w, &h)
 
-	linkOpt := linkOption{x, gp.config.PageSize.H - y, w, h, url, ""}
+	linkOpt := linkOption{x, gp.curr.pageSize.H - y, w, h, url, ""}
 	gp.addLink(linkOpt)
 }
 
@@ -1729,7 +1729,7 @@ func (gp *GoPdf) AddExternalLink(url string, x, y, w, h float64) {
 func (gp *GoPdf) AddInternalLink(anchor string, x, y, w, h float64) {
 	gp.UnitsToPointsVar(&x, &y, &w, &h)
 
-	linkOpt := linkOption{x, gp.config.PageSize.H - y, w, h, "", anchor}
+	linkOpt := linkOption{x, gp.curr.pageSize.H - y, w, h, "", anchor}
 	gp.addLink(linkOpt)
 }
 
@@ -1743,7 +1743,7 @@ func (gp *GoPdf) addLink(option linkOption) {
 
 // SetAnchor creates a new anchor.
 func (gp *GoPdf) SetAnchor(name string) {
-	y := gp.config.PageSize.H - gp.curr.Y + float64(gp.curr.FontSize)
+	y := gp.curr.pageSize.H - gp.curr.Y + float64(gp.curr.FontSize)
 	gp.anchors[name] = anchorOption{gp.curr.IndexOfPageObj, y}
 }
 
-- 
2.43.0


From aa28d48cb91490009057ddbadab770261d8d21ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:45 +0000
Subject: [PATCH 09/63] fix: SetNewY, SetNewYIfNoOffset and SetNewXY compare
 the margins in points

---
 gopdf.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 104725d..a5a29ac 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -383,9 +383,9 @@ func (gp *GoPdf) GetX() float64 {
 func (gp *GoPdf) SetNewY(y float64, h float64) {
 	gp.UnitsToPointsVar(&y)
 	gp.UnitsToPointsVar(&h)
-	if gp.curr.Y+h > gp.curr.pageSize.H-gp.MarginBottom() {
+	if gp.curr.Y+h > gp.curr.pageSize.H-gp.margins.Bottom {
 		gp.AddPage()
-		y = gp.MarginTop() // reset to top of the page.
+		y = gp.margins.Top // reset to top of the page.
 	}
 	gp.curr.Y = y
 }
@@ -399,9 +399,9 @@ func (gp *GoPdf) SetNewY(y float64, h float64) {
 func (gp *GoPdf) SetNewYIfNoOffset(y float64, h float64) {
 	gp.UnitsToPointsVar(&y)
 	gp.UnitsToPointsVar(&h)
-	if y+h > gp.curr.pageSize.H-gp.MarginBottom() { // using new y(*y) instead of gp.curr.Y
+	if y+h > gp.curr.pageSize.H-gp.margins.Bottom { // using new y(*y) instead of gp.curr.Y
 		gp.AddPage()
-		y = gp.MarginTop() // reset to top of the page.
+		y = gp.margins.Top // reset to top of the page.
 	}
 	gp.curr.Y = y
 }
@@ -416,9 +416,9 @@ func (gp *GoPdf) SetNewYIfNoOffset(y float64, h float64) {
 func (gp *GoPdf) SetNewXY(y float64, x, h float64) {
 	gp.UnitsToPointsVar(&y)
 	gp.UnitsToPointsVar(&h)
-	if gp.curr.Y+h > gp.curr.pageSize.H-gp.MarginBottom() {
+	if gp.curr.Y+h > gp.curr.pageSize.H-gp.margins.Bottom {
 		gp.AddPage()
-		y = gp.MarginTop() // reset to top of the page.
+		y = gp.margins.Top // reset to top of the page.
 	}
 	gp.curr.Y = y
 	gp.SetX(x)
-- 
2.43.0


From f5feb42f378a30a8f358ab492f59a8e52e392ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:48 +0000
Subject: [PATCH 10/63] fix: image crop options are in document units and image
 options are not modified

---
 gopdf.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/gopdf.go b/gopdf.go
index a5a29ac..d8a888a 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -122,6 +122,16 @@ type CropOptions struct {
 	Height float64
 }
 
+// unitsToPoints returns a copy of the crop options converted to points.
+func (c *CropOptions) unitsToPoints(unitCfg unitConfigurator) *CropOptions {
+	if c == nil {
+		return nil
+	}
+	r := *c
+	unitsToPointsVar(unitCfg, &r.X, &r.Y, &r.Width, &r.Height)
+	return &r
+}
+
 type ImageOptions struct {
 	DegreeAngle    float64
 	VerticalFlip   bool
@@ -503,6 +513,7 @@ func (gp *GoPdf) ImageByHolderWithOptions(img ImageHolder, opts ImageOptions) er
 	gp.UnitsToPointsVar(&opts.X, &opts.Y)
 
 	opts.Rect = opts.Rect.unitsToPoints(gp.config)
+	opts.Crop = opts.Crop.unitsToPoints(gp.config)
 
 	imageTransparency, err := gp.getCachedTransparency(opts.Transparency)
 	if err != nil {
@@ -514,6 +525,9 @@ func (gp *GoPdf) ImageByHolderWithOptions(img ImageHolder, opts ImageOptions) er
 	}
 
 	if opts.Mask != nil {
+		mask := *opts.Mask // the options belong to the caller
+		opts.Mask = &mask
+
 		maskTransparency, err := gp.getCachedTransparency(opts.Mask.ImageOptions.Transparency)
 		if err != nil {
 			return err
@@ -525,6 +539,7 @@ func (gp *GoPdf) ImageByHolderWithOptions(img ImageHolder, opts ImageOptions) er
 
 		gp.UnitsToPointsVar(&opts.Mask.ImageOptions.X, &opts.Mask.ImageOptions.Y)
 		opts.Mask.ImageOptions.Rect = opts.Mask.ImageOptions.Rect.unitsToPoints(gp.config)
+		opts.Mask.ImageOptions.Crop = opts.Mask.ImageOptions.Crop.unitsToPoints(gp.config)
 
 		extGStateIndex, err := gp.maskHolder(opts.Mask.Holder, *opts.Mask)
 		if err != nil {
-- 
2.43.0


From ffaec32197559eb72796a996cad2520f396f97d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:42 +0000
Subject: [PATCH 11/63] fix: SetCustomLineType does not convert the caller's
 dash array in place

---
 gopdf.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gopdf.go b/gopdf.go
index d8a888a..70c0ee9 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -215,6 +215,7 @@ func (gp *GoPdf) SetLineType(linetype string) {
 //	pdf.SetCustomLineType([]float64{0.8, 0.8}, 0)
 //	pdf.Line(50, 200, 550, 200)
 func (gp *GoPdf) SetCustomLineType(dashArray []float64, dashPhase float64) {
+	dashArray = append([]float64(nil), dashArray...) // the array belongs to the caller
 	for i := range dashArray {
 		gp.UnitsToPointsVar(&dashArray[i])
 	}
-- 
2.43.0


From 5bfe2ed9b6c9ac95638be488c26a14f99bbe707b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:44 +0000
Subject: [PATCH 12/63] fix: transparency with an empty blend mode, with alpha
 1 and of a caller's value

---
 gopdf.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 70c0ee9..b25560b 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -2463,15 +2463,19 @@ func (gp *GoPdf) getCachedTransparency(transparency *Transparency) (*Transparenc
 }
 
 func (gp *GoPdf) saveTransparency(transparency *Transparency) (*Transparency, error) {
-	cached, ok := gp.curr.transparencyMap.Find(*transparency)
+	t := *transparency // the value behind the pointer belongs to the caller
+	if t.BlendModeType == "" {
+		t.BlendModeType = NormalBlendMode
+	}
+
+	cached, ok := gp.curr.transparencyMap.Find(t)
 	if ok {
 		return &cached, nil
-	} else if transparency.Alpha != DefaultAplhaValue {
-		bm := transparency.BlendModeType
+	} else if t.Alpha != DefaultAplhaValue || t.BlendModeType != NormalBlendMode {
 		opts := ExtGStateOptions{
-			BlendMode:     &bm,
-			StrokingCA:    &transparency.Alpha,
-			NonStrokingCa: &transparency.Alpha,
+			BlendMode:     &t.BlendModeType,
+			StrokingCA:    &t.Alpha,
+			NonStrokingCa: &t.Alpha,
 		}
 
 		extGState, err := GetCachedExtGState(opts, gp)
@@ -2479,11 +2483,11 @@ func (gp *GoPdf) saveTransparency(transparency *Transparency) (*Transparency, er
 			return nil, err
 		}
 
-		transparency.extGStateIndex = extGState.Index + 1
+		t.extGStateIndex = extGState.Index + 1
 
-		gp.curr.transparencyMap.Save(*transparency)
+		gp.curr.transparencyMap.Save(t)
 
-		return transparency, nil
+		return &t, nil
 	}
 
 	return nil, nil
-- 
2.43.0


From 66c9a28e6c2fbcd6db9a2abcba21d434e79ac1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:47 +0000
Subject: [PATCH 13/63] fix: padding a password does not write into the
 caller's slices

---
 pdf_protection.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pdf_protection.go b/pdf_protection.go
index 6190938..38a9967 100644
--- a/pdf_protection.go
+++ b/pdf_protection.go
@@ -49,10 +49,8 @@ func (p *PDFProtection) setProtection(permissions int, userPass []byte, ownerPas
 
 func (p *PDFProtection) generateEncryptionKey(userPass []byte, ownerPass []byte, protection int) error {
 
-	userPass = append(userPass, protectionPadding...)
-	userPassWithPadding := userPass[0:32]
-	ownerPass = append(ownerPass, protectionPadding...)
-	ownerPassWithPadding := ownerPass[0:32]
+	userPassWithPadding := padPassword(userPass)
+	ownerPassWithPadding := padPassword(ownerPass)
 
 	//oValue
 	oValue, err := p.createOValue(userPassWithPadding, ownerPassWithPadding)
@@ -71,6 +69,15 @@ func (p *PDFProtection) generateEncryptionKey(userPass []byte, ownerPass []byte,
 	return nil
 }
 
+// padPassword returns the password padded or truncated to 32 bytes. The
+// password itself belongs to the caller.
+func padPassword(pass []byte) []byte {
+	padded := make([]byte, 0, len(pass)+len(protectionPadding))
+	padded = append(padded, pass...)
+	padded = append(padded, protectionPadding...)
+	return padded[0:32]
+}
+
 // EncryptionObj get Encryption Object
 func (p *PDFProtection) EncryptionObj() *EncryptionObj {
 	return p.encryptionObj()
-- 
2.43.0


From bf1b75e09a7083adbf2bee057106a9f9bbf7cd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:49 +0000
Subject: [PATCH 14/63] fix: write the default trim box and a trim box without
 a page size

---
 gopdf.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index b25560b..0e2d3cb 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -829,17 +829,16 @@ func (gp *GoPdf) AddPageWithOption(opt PageOption) {
 		return gp
 	})
 
-	if !opt.isEmpty() { //use page option
-		page.setOption(opt)
+	gp.curr.pageSize = &gp.config.PageSize //default
+	if !opt.isEmpty() {                    //use page option
 		gp.curr.pageSize = opt.PageSize
+	}
 
-		if opt.isTrimBoxSet() {
-			gp.curr.trimBox = opt.TrimBox
-		}
-	} else { //use default
-		gp.curr.pageSize = &gp.config.PageSize
-		gp.curr.trimBox = &gp.config.TrimBox
+	if !opt.isTrimBoxSet() { //use default
+		opt.TrimBox = &gp.config.TrimBox
 	}
+	gp.curr.trimBox = opt.TrimBox
+	page.setOption(opt)
 
 	page.ResourcesRelate = strconv.Itoa(gp.indexOfProcSet+1) + " 0 R"
 	index := gp.addObj(page)
@@ -2208,6 +2207,7 @@ func (gp *GoPdf) init(importer ...*gofpdi.Importer) {
 	// change the unit type
 	gp.config.PageSize = *gp.config.PageSize.unitsToPoints(gp.config)
 	gp.config.TrimBox = *gp.config.TrimBox.unitsToPoints(gp.config)
+	gp.curr.pageSize = &gp.config.PageSize
 
 	// init gofpdi free pdf document importer
 	gp.fpdi = importerOrDefault(importer...)
-- 
2.43.0


From b45479133dd00f5931cf23f539c3395fa53af67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:39 +0000
Subject: [PATCH 15/63] fix: placeholders are measured with their own font, in
 document units and from their own position

---
 gopdf.go       | 20 +++++++++++---------
 placeholder.go |  1 +
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 0e2d3cb..29d0799 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1436,7 +1436,7 @@ func (gp *GoPdf) PlaceHolderText(placeHolderName string, placeHolderWidth float6
 		return err
 	}
 
-	gp.PointsToUnitsVar(&placeHolderWidth)
+	gp.UnitsToPointsVar(&placeHolderWidth)
 	err = gp.getContent().appendStreamPlaceHolderText(placeHolderWidth)
 	if err != nil {
 		return err
@@ -1456,6 +1456,7 @@ func (gp *GoPdf) PlaceHolderText(placeHolderName string, placeHolderWidth float6
 			placeHolderWidth: placeHolderWidth,
 			fontSize:         gp.curr.FontSize,
 			charSpacing:      gp.curr.CharSpacing,
+			x:                content.listCache.caches[indexInContent].(*cacheContentText).x,
 		},
 	)
 
@@ -1481,22 +1482,23 @@ func (gp *GoPdf) FillInPlaceHoldText(placeHolderName string, text string, align
 		if !ok {
 			return errors.New("listCache.caches is not *cacheContentText")
 		}
-		info.fontISubset.AddChars(text)
-		contentText.text = text
+		fillText, err := info.fontISubset.AddChars(text)
+		if err != nil {
+			return err
+		}
+		contentText.text = fillText
 
 		//Calculate position
-		_, _, textWidthPdfUnit, err := createContent(gp.curr.FontISubset, text, info.fontSize, info.charSpacing, nil)
+		width, _, err := contentText.createContent()
 		if err != nil {
 			return err
 		}
-		width := pointsToUnits(gp.config, textWidthPdfUnit)
 
+		contentText.x = info.x
 		if align == Right {
-			diff := info.placeHolderWidth - width
-			contentText.x = contentText.x + diff
+			contentText.x += info.placeHolderWidth - width
 		} else if align == Center {
-			diff := info.placeHolderWidth - width
-			contentText.x = contentText.x + diff/2
+			contentText.x += (info.placeHolderWidth - width) / 2
 		}
 	}
 
diff --git a/placeholder.go b/placeholder.go
index fb49508..01daee9 100644
--- a/placeholder.go
+++ b/placeholder.go
@@ -12,4 +12,5 @@ type placeHolderTextInfo struct {
 	placeHolderWidth float64
 	fontSize         float64
 	charSpacing      float64
+	x                float64 //left edge of the placeholder
 }
-- 
2.43.0


From e148b8fd90533989b57376914351cb5d7975f15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:59 +0000
Subject: [PATCH 16/63] fix: text is not merged into a preceding text drawn
 with other options or ending elsewhere

---
 cache_content_text.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/cache_content_text.go b/cache_content_text.go
index e6d01ff..a673266 100644
--- a/cache_content_text.go
+++ b/cache_content_text.go
@@ -60,13 +60,35 @@ func (c *cacheContentText) isSame(cache cacheContentText) bool {
 		c.charSpacing == cache.charSpacing &&
 		c.setXCount == cache.setXCount &&
 		c.y == cache.y &&
-		c.isPlaceHolder == cache.isPlaceHolder {
+		c.x+c.cellWidthPdfUnit == cache.x && // continues where this text ends
+		c.isPlaceHolder == cache.isPlaceHolder &&
+		c.contentType == cache.contentType &&
+		c.txtColorMode == cache.txtColorMode &&
+		isSameCellOption(c.cellOpt, cache.cellOpt) {
 		return true
 	}
 
 	return false
 }
 
+// isSameCellOption reports whether text with these options is drawn the same way.
+func isSameCellOption(a, b CellOption) bool {
+	if len(a.extGStateIndexes) != len(b.extGStateIndexes) {
+		return false
+	}
+	for i := range a.extGStateIndexes {
+		if a.extGStateIndexes[i] != b.extGStateIndexes[i] {
+			return false
+		}
+	}
+	return a.Align == b.Align &&
+		a.Border == 0 && b.Border == 0 &&
+		a.Float == b.Float &&
+		a.CoefLineHeight == b.CoefLineHeight &&
+		a.CoefUnderlinePosition == b.CoefUnderlinePosition &&
+		a.CoefUnderlineThickness == b.CoefUnderlineThickness
+}
+
 func (c *cacheContentText) setPageHeight(pageheight float64) {
 	c.pageheight = pageheight
 }
-- 
2.43.0


From a60ea851668bcb1a6913024b8e2a949809c274d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:34 +0000
Subject: [PATCH 17/63] fix: write characters beyond the basic plane as UTF-16
 surrogate pairs in titles and document info

---
 gopdf.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 29d0799..74d1717 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -16,6 +16,7 @@ import (
 	"strconv"
 	"strings"
 	"time"
+	"unicode/utf16"
 
 	"github.com/phpdave11/gofpdi"
 )
@@ -2413,12 +2414,8 @@ func (gp *GoPdf) getContent() *ContentObj {
 
 func encodeUtf8(str string) string {
 	var buff bytes.Buffer
-	for _, r := range str {
-		c := fmt.Sprintf("%X", r)
-		for len(c) < 4 {
-			c = "0" + c
-		}
-		buff.WriteString(c)
+	for _, c := range utf16.Encode([]rune(str)) {
+		fmt.Fprintf(&buff, "%04X", c)
 	}
 	return buff.String()
 }
-- 
2.43.0


From 9f49e099b127a4f3e055674634d1a64691729f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:38 +0000
Subject: [PATCH 18/63] fix: encrypt the strings of outlines and CID fonts in
 protected documents

---
 cid_font_obj.go | 27 +++++++++++++++++++++++++--
 outlines_obj.go | 29 ++++++++++++++++++++++++++---
 2 files changed, 51 insertions(+), 5 deletions(-)

diff --git a/cid_font_obj.go b/cid_font_obj.go
index da8db9b..b36c408 100644
--- a/cid_font_obj.go
+++ b/cid_font_obj.go
@@ -10,9 +10,18 @@ import (
 type CIDFontObj struct {
 	PtrToSubsetFontObj        *SubsetFontObj
 	indexObjSubfontDescriptor int
+	getRoot                   func() *GoPdf
 }
 
 func (ci *CIDFontObj) init(funcGetRoot func() *GoPdf) {
+	ci.getRoot = funcGetRoot
+}
+
+func (ci *CIDFontObj) protection() *PDFProtection {
+	if ci.getRoot == nil {
+		return nil
+	}
+	return ci.getRoot().protection()
 }
 
 // SetIndexObjSubfontDescriptor set  indexObjSubfontDescriptor
@@ -25,12 +34,26 @@ func (ci *CIDFontObj) getType() string {
 }
 
 func (ci *CIDFontObj) write(w io.Writer, objID int) error {
+	ordering, registry := "(Identity)", "(Adobe)"
+	if protection := ci.protection(); protection != nil {
+		key := protection.objectkey(objID)
+		enc, err := rc4Cip(key, []byte("Identity"))
+		if err != nil {
+			return err
+		}
+		ordering = fmt.Sprintf("<%X>", enc)
+		if enc, err = rc4Cip(key, []byte("Adobe")); err != nil {
+			return err
+		}
+		registry = fmt.Sprintf("<%X>", enc)
+	}
+
 	io.WriteString(w, "<<\n")
 	fmt.Fprintf(w, "/BaseFont /%s\n", CreateEmbeddedFontSubsetName(ci.PtrToSubsetFontObj.GetFamily()))
 	io.WriteString(w, "/CIDSystemInfo\n")
 	io.WriteString(w, "<<\n")
-	io.WriteString(w, "  /Ordering (Identity)\n")
-	io.WriteString(w, "  /Registry (Adobe)\n")
+	fmt.Fprintf(w, "  /Ordering %s\n", ordering)
+	fmt.Fprintf(w, "  /Registry %s\n", registry)
 	io.WriteString(w, "  /Supplement 0\n")
 	io.WriteString(w, ">>\n")
 	fmt.Fprintf(w, "/FontDescriptor %d 0 R\n", ci.indexObjSubfontDescriptor+1) //TODO fix
diff --git a/outlines_obj.go b/outlines_obj.go
index 13cae66..fd6d35a 100644
--- a/outlines_obj.go
+++ b/outlines_obj.go
@@ -1,6 +1,7 @@
 package gopdf
 
 import (
+	"encoding/hex"
 	"fmt"
 	"io"
 )
@@ -53,7 +54,7 @@ func (o *OutlinesObj) SetIndexObjOutlines(index int) {
 }
 
 func (o *OutlinesObj) AddOutline(dest int, title string) {
-	oo := &OutlineObj{title: title, dest: dest, parent: o.index, prev: o.last, next: -1}
+	oo := &OutlineObj{title: title, dest: dest, parent: o.index, prev: o.last, next: -1, getRoot: o.getRoot}
 	o.last = o.getRoot().addObj(oo) + 1
 	if o.first <= 0 {
 		o.first = o.last
@@ -67,7 +68,7 @@ func (o *OutlinesObj) AddOutline(dest int, title string) {
 
 // AddOutlinesWithPosition add outlines with position
 func (o *OutlinesObj) AddOutlinesWithPosition(dest int, title string, y float64) *OutlineObj {
-	oo := &OutlineObj{title: title, dest: dest, parent: o.index, prev: o.last, next: -1, height: y}
+	oo := &OutlineObj{title: title, dest: dest, parent: o.index, prev: o.last, next: -1, height: y, getRoot: o.getRoot}
 	o.last = o.getRoot().addObj(oo) + 1
 	if o.first <= 0 {
 		o.first = o.last
@@ -96,6 +97,8 @@ type OutlineObj struct { //impl IObj
 	first  int
 	last   int
 	height float64
+
+	getRoot func() *GoPdf
 }
 
 func (o *OutlineObj) init(funcGetRoot func() *GoPdf) {
@@ -145,6 +148,19 @@ func (o *OutlineObj) getType() string {
 //}
 
 func (o *OutlineObj) write(w io.Writer, objID int) error {
+	title := "FEFF" + encodeUtf8(o.title)
+	if protection := o.protection(); protection != nil {
+		raw, err := hex.DecodeString(title)
+		if err != nil {
+			return err
+		}
+		raw, err = rc4Cip(protection.objectkey(objID), raw)
+		if err != nil {
+			return err
+		}
+		title = fmt.Sprintf("%X", raw)
+	}
+
 	io.WriteString(w, "<<\n")
 	fmt.Fprintf(w, "  /Parent %d 0 R\n", o.parent)
 	if o.prev >= 0 {
@@ -160,11 +176,18 @@ func (o *OutlineObj) write(w io.Writer, objID int) error {
 		fmt.Fprintf(w, "  /Last %d 0 R\n", o.last)
 	}
 	fmt.Fprintf(w, "  /Dest [ %d 0 R /XYZ 90 %f 0 ]\n", o.dest, o.height)
-	fmt.Fprintf(w, "  /Title <FEFF%s>\n", encodeUtf8(o.title))
+	fmt.Fprintf(w, "  /Title <%s>\n", title)
 	io.WriteString(w, ">>\n")
 	return nil
 }
 
+func (o *OutlineObj) protection() *PDFProtection {
+	if o.getRoot == nil {
+		return nil
+	}
+	return o.getRoot().protection()
+}
+
 // OutlineNode is a node of outline
 type OutlineNode struct {
 	Obj      *OutlineObj
-- 
2.43.0


From e6b06183dd706f6612c2bb293af4db8d1bd0427b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:21 +0000
Subject: [PATCH 19/63] fix: ToUnicode map of characters beyond the basic
 plane, of many glyphs and of glyph ids across bytes

---
 unicode_map.go | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/unicode_map.go b/unicode_map.go
index 5094482..f6d723f 100644
--- a/unicode_map.go
+++ b/unicode_map.go
@@ -45,19 +45,11 @@ func (u *UnicodeMap) write(w io.Writer, objID int) error {
 	suffix := "endcmap CMapName currentdict /CMap defineresource pop end end"
 
 	glyphIndexToCharacter := newMapGlyphIndexToCharacter() //make(map[int]rune)
-	lowIndex := 65536
-	hiIndex := -1
 
 	keys := u.PtrToSubsetFontObj.CharacterToGlyphIndex.AllKeys()
 	for _, k := range keys {
 		v, _ := u.PtrToSubsetFontObj.CharacterToGlyphIndex.Val(k)
 		index := int(v)
-		if index < lowIndex {
-			lowIndex = index
-		}
-		if index > hiIndex {
-			hiIndex = index
-		}
 		//glyphIndexToCharacter[index] = k
 		glyphIndexToCharacter.set(index, k)
 	}
@@ -67,15 +59,22 @@ func (u *UnicodeMap) write(w io.Writer, objID int) error {
 
 	buff.WriteString(prefix)
 	buff.WriteString("1 begincodespacerange\n")
-	fmt.Fprintf(buff, "<%04X><%04X>\n", lowIndex, hiIndex)
+	buff.WriteString("<0000><FFFF>\n") // a range per byte: every two-byte code
 	buff.WriteString("endcodespacerange\n")
-	fmt.Fprintf(buff, "%d beginbfrange\n", glyphIndexToCharacter.size())
 	indexs := glyphIndexToCharacter.allIndexs()
-	for _, k := range indexs {
-		v, _ := glyphIndexToCharacter.runeByIndex(k)
-		fmt.Fprintf(buff, "<%04X><%04X><%04X>\n", k, k, v)
+	for len(indexs) > 0 {
+		n := len(indexs)
+		if n > 100 { // a section has at most 100 entries
+			n = 100
+		}
+		fmt.Fprintf(buff, "%d beginbfrange\n", n)
+		for _, k := range indexs[:n] {
+			v, _ := glyphIndexToCharacter.runeByIndex(k)
+			fmt.Fprintf(buff, "<%04X><%04X><%s>\n", k, k, encodeUtf8(string(v)))
+		}
+		buff.WriteString("endbfrange\n")
+		indexs = indexs[n:]
 	}
-	buff.WriteString("endbfrange\n")
 	buff.WriteString(suffix)
 	buff.WriteString("\n")
 
-- 
2.43.0


From a4ab82d517c8a2988c1f50f65fec29763a6dd7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:56 +0000
Subject: [PATCH 20/63] fix: characters outside every segment of the cmap, or
 outside its glyph id array, are not found instead of a panic

---
 subset_font_obj.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/subset_font_obj.go b/subset_font_obj.go
index cb37664..723a7ab 100644
--- a/subset_font_obj.go
+++ b/subset_font_obj.go
@@ -262,7 +262,7 @@ func (s *SubsetFontObj) charCodeToGlyphIndexFormat4(r rune) (uint, error) {
 		seg++
 	}
 	//fmt.Printf("\ncccc--->%#v\n", me.ttfp.Chars())
-	if value < s.ttfp.StartCount[seg] {
+	if seg == segCount || value < s.ttfp.StartCount[seg] {
 		return 0, ErrGlyphNotFound
 	}
 
@@ -272,6 +272,9 @@ func (s *SubsetFontObj) charCodeToGlyphIndexFormat4(r rune) (uint, error) {
 	}
 	//fmt.Printf("IdRangeOffset=%d\n", me.ttfp.IdRangeOffset[seg])
 	idx := s.ttfp.IdRangeOffset[seg]/2 + (value - s.ttfp.StartCount[seg]) - (segCount - seg)
+	if idx >= uint(len(s.ttfp.GlyphIdArray)) {
+		return 0, ErrGlyphNotFound
+	}
 
 	if s.ttfp.GlyphIdArray[int(idx)] == uint(0) {
 		return 0, nil
-- 
2.43.0


From 25396596b92bb58d93dad2c2e6717a2bbdba97de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:59 +0000
Subject: [PATCH 21/63] fix: report fonts without horizontal metrics or with
 zero units per em instead of a panic

---
 fontmaker/core/ttfparser.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/fontmaker/core/ttfparser.go b/fontmaker/core/ttfparser.go
index 7f7a432..66fc4a3 100644
--- a/fontmaker/core/ttfparser.go
+++ b/fontmaker/core/ttfparser.go
@@ -16,6 +16,8 @@ import (
 var ERROR_NO_UNICODE_ENCODING_FOUND = errors.New("No Unicode encoding found")
 var ERROR_UNEXPECTED_SUBTABLE_FORMAT = errors.New("Unexpected subtable format")
 var ERROR_INCORRECT_MAGIC_NUMBER = errors.New("Incorrect magic number")
+var ERROR_NO_HORIZONTAL_METRICS = errors.New("No horizontal metrics")
+var ERROR_INCORRECT_UNITS_PER_EM = errors.New("Incorrect units per em")
 var ERROR_POSTSCRIPT_NAME_NOT_FOUND = errors.New("PostScript name not found")
 
 // TTFParser true type font parser
@@ -799,6 +801,9 @@ func (t *TTFParser) ParseHmtx(fd *bytes.Reader) error {
 		t.widths = append(t.widths, advanceWidth)
 		i++
 	}
+	if t.numberOfHMetrics == 0 {
+		return ERROR_NO_HORIZONTAL_METRICS
+	}
 	if t.numberOfHMetrics < t.numGlyphs {
 		lastWidth := t.widths[t.numberOfHMetrics-1]
 		t.widths, err = t.ArrayPadUint(t.widths, t.numGlyphs, lastWidth)
@@ -856,6 +861,10 @@ func (t *TTFParser) ParseHead(fd *bytes.Reader) error {
 		return err
 	}
 
+	if t.unitsPerEm == 0 {
+		return ERROR_INCORRECT_UNITS_PER_EM
+	}
+
 	err = t.Skip(fd, 2*8) // created, modified
 	if err != nil {
 		return err
-- 
2.43.0


From db0f30d17a7676cd00334bcf8b3cc98a9c33ff9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:03 +0000
Subject: [PATCH 22/63] fix: read every horizontal subtable of the kern table
 and skip the others

---
 fontmaker/core/ttfparser_kern.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/fontmaker/core/ttfparser_kern.go b/fontmaker/core/ttfparser_kern.go
index 235a177..4b1ee25 100644
--- a/fontmaker/core/ttfparser_kern.go
+++ b/fontmaker/core/ttfparser_kern.go
@@ -17,6 +17,7 @@ func (t *TTFParser) Parsekern(fd *bytes.Reader) error {
 	}
 
 	t.kern = new(KernTable) //init
+	t.kern.Kerning = make(KernMap)
 
 	version, err := t.ReadUShort(fd)
 	if err != nil {
@@ -44,7 +45,11 @@ func (t *TTFParser) Parsekern(fd *bytes.Reader) error {
 
 func (t *TTFParser) parsekernSubTable(fd *bytes.Reader) error {
 
-	err := t.Skip(fd, 2+2) //skip version and length
+	err := t.Skip(fd, 2) //skip version
+	if err != nil {
+		return err
+	}
+	length, err := t.ReadUShort(fd)
 	if err != nil {
 		return err
 	}
@@ -53,14 +58,17 @@ func (t *TTFParser) parsekernSubTable(fd *bytes.Reader) error {
 		return err
 	}
 
-	format := coverage & 0xf0
-	t.kern.Kerning = make(KernMap) //init
-	if format == 0 {
-		return t.parsekernSubTableFormat0(fd)
-	} else {
-		//not support other format yet
-		return fmt.Errorf("not support kerning format %d", format)
+	// format is the high byte; the low three bits say horizontal, minimum
+	// values and cross-stream
+	format := coverage >> 8
+	if format != 0 || coverage&7 != 1 {
+		//not horizontal kerning, or a format not supported yet: skip the rest of the subtable
+		if length < 6 {
+			return fmt.Errorf("incorrect length %d of kerning subtable", length)
+		}
+		return t.Skip(fd, int(length)-6)
 	}
+	return t.parsekernSubTableFormat0(fd)
 }
 
 func (t *TTFParser) parsekernSubTableFormat0(fd *bytes.Reader) error {
-- 
2.43.0


From 04f98db4eb69751c2869b0d0febd4d68c86a0ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:06 +0000
Subject: [PATCH 23/63] fix: embed the components of components of composite
 glyphs

---
 pdf_dictionary_obj.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pdf_dictionary_obj.go b/pdf_dictionary_obj.go
index 5f771e1..d8a4e04 100644
--- a/pdf_dictionary_obj.go
+++ b/pdf_dictionary_obj.go
@@ -294,8 +294,7 @@ func (p *PdfDictionaryObj) completeGlyphClosure(mapOfglyphs *MapOfCharacterToGly
 	}
 
 	i := 0
-	count := len(glyphs)
-	for i < count {
+	for i < len(glyphArray) { // components are appended, they can be composite too
 		p.AddCompositeGlyphs(&glyphArray, glyphArray[i])
 		i++
 	}
-- 
2.43.0


From 331085bbf009f2e23747d27e67be2357f910d39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:10 +0000
Subject: [PATCH 24/63] fix: report glyph data and tables outside the font file
 instead of a panic, and pad the last table

---
 pdf_dictionary_obj.go | 53 +++++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 19 deletions(-)

diff --git a/pdf_dictionary_obj.go b/pdf_dictionary_obj.go
index d8a4e04..dcd1f94 100644
--- a/pdf_dictionary_obj.go
+++ b/pdf_dictionary_obj.go
@@ -22,6 +22,9 @@ var EntrySelectors = []int{
 // ErrNotSupportShortIndexYet not support none short index yet
 var ErrNotSupportShortIndexYet = errors.New("not support none short index yet")
 
+// ErrIncorrectTable a table of the font is out of range
+var ErrIncorrectTable = errors.New("incorrect font table")
+
 // PdfDictionaryObj pdf dictionary object
 type PdfDictionaryObj struct {
 	PtrToSubsetFontObj *SubsetFontObj
@@ -115,7 +118,11 @@ func (p *PdfDictionaryObj) makeGlyfAndLocaTable() ([]byte, []int, error) {
 
 	size := 0
 	for idx := 0; idx < glyphCount; idx++ {
-		size += p.getGlyphSize(glyphArray[idx])
+		start, end, err := p.glyphRange(glyphArray[idx])
+		if err != nil {
+			return nil, nil, err
+		}
+		size += end - start
 	}
 	glyf.Length = uint(size)
 
@@ -157,28 +164,30 @@ func (p *PdfDictionaryObj) makeGlyfAndLocaTable() ([]byte, []int, error) {
 	return glyphTable, locaTable, nil
 }
 
-func (p *PdfDictionaryObj) getGlyphSize(glyph int) int {
+// ErrIncorrectGlyphData glyph data of the font is out of range
+var ErrIncorrectGlyphData = errors.New("incorrect glyph data")
 
+// glyphRange is the range of a glyph's data in the font data.
+func (p *PdfDictionaryObj) glyphRange(glyph int) (int, int, error) {
 	ttfp := p.PtrToSubsetFontObj.GetTTFParser()
+	if glyph < 0 || glyph >= int(ttfp.NumGlyphs()) || glyph+1 >= len(ttfp.LocaTable) {
+		return 0, 0, ErrIncorrectGlyphData
+	}
 	glyf := ttfp.GetTables()["glyf"]
 	start := int(glyf.Offset + ttfp.LocaTable[glyph])
-	next := int(glyf.Offset + ttfp.LocaTable[glyph+1])
-	return next - start
+	end := int(glyf.Offset + ttfp.LocaTable[glyph+1])
+	if start > end || end > len(ttfp.FontData()) {
+		return 0, 0, ErrIncorrectGlyphData
+	}
+	return start, end, nil
 }
 
 func (p *PdfDictionaryObj) getGlyphData(glyph int) []byte {
-	ttfp := p.PtrToSubsetFontObj.GetTTFParser()
-	glyf := ttfp.GetTables()["glyf"]
-	start := int(glyf.Offset + ttfp.LocaTable[glyph])
-	next := int(glyf.Offset + ttfp.LocaTable[glyph+1])
-	count := next - start
-	var data []byte
-	i := 0
-	for i < count {
-		data = append(data, ttfp.FontData()[start+i])
-		i++
+	start, end, err := p.glyphRange(glyph)
+	if err != nil {
+		return nil
 	}
-	return data
+	return p.PtrToSubsetFontObj.GetTTFParser().FontData()[start:end]
 }
 
 func (p *PdfDictionaryObj) makeFont() ([]byte, error) {
@@ -258,7 +267,13 @@ func (p *PdfDictionaryObj) makeFont() ([]byte, error) {
 			entry.CheckSum = CheckSum(data)
 			WriteBytes(&buff, data, 0, len(data))
 		} else {
-			WriteBytes(&buff, ttfp.FontData(), int(entry.Offset), entry.PaddedLength())
+			data := ttfp.FontData()
+			if entry.Offset > uint(len(data)) || entry.Length > uint(len(data))-entry.Offset {
+				return nil, ErrIncorrectTable
+			}
+			table := make([]byte, entry.PaddedLength())
+			copy(table, data[entry.Offset:entry.Offset+entry.Length])
+			WriteBytes(&buff, table, 0, len(table))
 		}
 		endPosition := buff.Position()
 		tablePosition = endPosition
@@ -304,8 +319,8 @@ func (p *PdfDictionaryObj) completeGlyphClosure(mapOfglyphs *MapOfCharacterToGly
 // AddCompositeGlyphs add composite glyph
 // composite glyph is a Unicode entity that can be defined as a sequence of one or more other characters.
 func (p *PdfDictionaryObj) AddCompositeGlyphs(glyphArray *[]int, glyph int) {
-	start := p.GetOffset(int(glyph))
-	if start == p.GetOffset(int(glyph)+1) {
+	start, end, err := p.glyphRange(glyph)
+	if err != nil || end-start < 10 {
 		return
 	}
 
@@ -319,7 +334,7 @@ func (p *PdfDictionaryObj) AddCompositeGlyphs(glyphArray *[]int, glyph int) {
 	}
 
 	offset += 8
-	for {
+	for offset+4 <= end {
 		flags, step1 := ReadUShortFromByte(fontData, offset)
 		offset += step1
 		cGlyph, step2 := ReadUShortFromByte(fontData, offset)
-- 
2.43.0


From 05b4d114de18ba15c63d72062be38500442aad52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:38 +0000
Subject: [PATCH 25/63] fix: characters mapped to glyph 0 are missing
 characters

---
 subset_font_obj.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/subset_font_obj.go b/subset_font_obj.go
index 723a7ab..c6f652c 100644
--- a/subset_font_obj.go
+++ b/subset_font_obj.go
@@ -285,18 +285,17 @@ func (s *SubsetFontObj) charCodeToGlyphIndexFormat4(r rune) (uint, error) {
 
 // CharCodeToGlyphIndex gets glyph index from char code.
 func (s *SubsetFontObj) CharCodeToGlyphIndex(r rune) (uint, error) {
-	value := uint64(r)
-	if value <= 0xFFFF {
-		gIndex, err := s.charCodeToGlyphIndexFormat4(r)
-		if err != nil {
-			return 0, err
-		}
-		return gIndex, nil
+	lookup := s.charCodeToGlyphIndexFormat12
+	if uint64(r) <= 0xFFFF {
+		lookup = s.charCodeToGlyphIndexFormat4
 	}
-	gIndex, err := s.charCodeToGlyphIndexFormat12(r)
+	gIndex, err := lookup(r)
 	if err != nil {
 		return 0, err
 	}
+	if gIndex == 0 { // the font maps the character to the missing glyph
+		return 0, ErrGlyphNotFound
+	}
 	return gIndex, nil
 }
 
-- 
2.43.0


From 70d7ff1da4b7a512baabe2b207ea7fcfa93867bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:23 +0000
Subject: [PATCH 26/63] fix: escape font family names in the output

---
 strhelper.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/strhelper.go b/strhelper.go
index b91af9d..abed09b 100644
--- a/strhelper.go
+++ b/strhelper.go
@@ -1,6 +1,7 @@
 package gopdf
 
 import (
+	"fmt"
 	"math/big"
 	"strings"
 )
@@ -28,7 +29,21 @@ func StrHelperGetStringWidthPrecise(str string, fontSize float64, ifont IFont) f
 func CreateEmbeddedFontSubsetName(name string) string {
 	name = strings.Replace(name, " ", "+", -1)
 	name = strings.Replace(name, "/", "+", -1)
-	return name
+	return escapeName(name)
+}
+
+// escapeName writes the bytes that cannot stand for themselves in a PDF name as #XX.
+func escapeName(name string) string {
+	var b strings.Builder
+	for i := 0; i < len(name); i++ {
+		c := name[i]
+		if c <= ' ' || c > '~' || strings.IndexByte("()<>[]{}/%#", c) >= 0 {
+			fmt.Fprintf(&b, "#%02X", c)
+			continue
+		}
+		b.WriteByte(c)
+	}
+	return b.String()
 }
 
 // ReadShortFromByte read short from byte array
-- 
2.43.0


From c3cd54a286886496b39d3f100d175f57e0734c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:48 +0000
Subject: [PATCH 27/63] fix: split lines are measured with their kerning, and a
 break indicator that does not fit ends the line

---
 gopdf.go | 45 ++++++++++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 74d1717..ede00bb 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1377,24 +1377,31 @@ func (gp *GoPdf) SplitTextWithOption(text string, width float64, opt *BreakOptio
 	if utf8TextsLen == 0 {
 		return lineTexts, ErrEmptyString
 	}
-	separatorWidth, err := gp.MeasureTextWidth(opt.Separator)
-	if err != nil {
-		return nil, err
-	}
 	// possible (not conflicting) position of the separator within the currently processed line
 	separatorIdx := 0
 	for i := 0; i < utf8TextsLen; i++ {
-		lineWidth, err := gp.MeasureTextWidth(string(lineText))
-		if err != nil {
-			return nil, err
+		// regular break due to a new line rune
+		if utf8Texts[i] == '\n' {
+			lineTexts = append(lineTexts, string(lineText))
+			lineText = lineText[0:0]
+			continue
 		}
-		runeWidth, err := gp.MeasureTextWidth(string(utf8Texts[i]))
+		// the line with the rune is measured as a whole, since kerning can make it wider than its parts
+		line := string(lineText)
+		lineWithRune := line + string(utf8Texts[i])
+		lineWithRuneWidth, err := gp.MeasureTextWidth(lineWithRune)
 		if err != nil {
 			return nil, err
 		}
 		// mid-word break required since the max width of the given rect is exceeded
 		// (a rune which is wider than the line is kept on a line of its own)
-		if lineWidth+runeWidth > width && utf8Texts[i] != '\n' && len(lineText) > 0 {
+		if lineWithRuneWidth > width && len(lineText) > 0 {
+			// a break indicator that does not fit is the best place to break, no word is broken
+			if opt.Mode == BreakModeIndicatorSensitive && utf8Texts[i] == opt.BreakIndicator && lineText[len(lineText)-1] != opt.BreakIndicator {
+				lineTexts = append(lineTexts, line)
+				lineText = lineText[0:0]
+				continue
+			}
 			// forceBreak will be set to true in case an indicator sensitive break was not possible which will cause
 			// strict break to not exceed the desired width
 			forceBreak := false
@@ -1407,20 +1414,24 @@ func (gp *GoPdf) SplitTextWithOption(text string, width float64, opt *BreakOptio
 			}
 			continue
 		}
-		// regular break due to a new line rune
-		if utf8Texts[i] == '\n' {
-			lineTexts = append(lineTexts, string(lineText))
-			lineText = lineText[0:0]
-			continue
-		}
 		// end of text
 		if i == utf8TextsLen-1 {
 			lineText = append(lineText, utf8Texts[i])
 			lineTexts = append(lineTexts, string(lineText))
 		}
 		// store overall index when separator would still fit in the currently processed text-line
-		if opt.HasSeparator() && lineWidth+runeWidth+separatorWidth <= width {
-			separatorIdx = i
+		if opt.HasSeparator() {
+			lineWidth, err := gp.MeasureTextWidth(line + opt.Separator)
+			if err != nil {
+				return nil, err
+			}
+			withRuneWidth, err := gp.MeasureTextWidth(lineWithRune + opt.Separator)
+			if err != nil {
+				return nil, err
+			}
+			if lineWidth <= width && withRuneWidth <= width {
+				separatorIdx = i
+			}
 		}
 		lineText = append(lineText, utf8Texts[i])
 	}
-- 
2.43.0


From 7e6b7fadf41a9fe7ea92c148c95299e019a494af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:32 +0000
Subject: [PATCH 28/63] fix: MultiCell draws no line below its rectangle and no
 empty first line, and measures lines with their kerning

---
 gopdf.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index ede00bb..af34a02 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1212,10 +1212,9 @@ func (gp *GoPdf) MultiCell(rectangle *Rect, text string) error {
 		if totalLineHeight+lineHeight > rectangle.H {
 			break
 		}
-		lineWidth, _ := gp.MeasureTextWidth(string(line))
-		runeWidth, _ := gp.MeasureTextWidth(string(v))
+		lineWidth, _ := gp.MeasureTextWidth(string(line) + string(v))
 
-		if lineWidth+runeWidth > rectangle.W {
+		if lineWidth > rectangle.W && len(line) > 0 {
 			gp.Cell(&Rect{W: rectangle.W, H: lineHeight}, string(line))
 			gp.Br(lineHeight)
 			gp.SetX(x)
@@ -1225,7 +1224,7 @@ func (gp *GoPdf) MultiCell(rectangle *Rect, text string) error {
 
 		line = append(line, v)
 
-		if i == length-1 {
+		if i == length-1 && totalLineHeight+lineHeight <= rectangle.H {
 			gp.Cell(&Rect{W: rectangle.W, H: lineHeight}, string(line))
 			gp.Br(lineHeight)
 			gp.SetX(x)
@@ -1256,10 +1255,9 @@ func (gp *GoPdf) IsFitMultiCell(rectangle *Rect, text string) (bool, float64, er
 		if totalLineHeight+lineHeight > rectangle.H {
 			return false, totalLineHeight, nil
 		}
-		lineWidth, _ := gp.MeasureTextWidth(string(line))
-		runeWidth, _ := gp.MeasureTextWidth(string(v))
+		lineWidth, _ := gp.MeasureTextWidth(string(line) + string(v))
 
-		if lineWidth+runeWidth > rectangle.W {
+		if lineWidth > rectangle.W && len(line) > 0 {
 			totalLineHeight += lineHeight
 			line = nil
 		}
-- 
2.43.0


From 930ffcac2cd80dcfa5fc42ef09c48ea482b947d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:35 +0000
Subject: [PATCH 29/63] fix: MultiCellWithOption aligns any number of lines to
 the middle or the bottom of the rectangle

---
 gopdf.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index af34a02..0af58ac 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1326,14 +1326,8 @@ func (gp *GoPdf) MultiCellWithOption(rectangle *Rect, text string, opt CellOptio
 		return err
 	}
 
-	startHeight := rectangle.H
-	if l := len(textSplits); l > 1 {
-		shiftLines := l / 2
-		if l%2 != 0 {
-			shiftLines += 1
-		}
-		startHeight = rectangle.H - (lineHeight+1.5)*float64(shiftLines)
-	}
+	// the lines are aligned as one block: the first ends above the space of the others
+	startHeight := rectangle.H - lineHeight*float64(len(textSplits)-1)
 
 	lastLine := len(textSplits) - 1
 	for i, text := range textSplits {
-- 
2.43.0


From fefadea10d0ccaf9d3ffebb7d38cabaf966d059a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:14 +0000
Subject: [PATCH 30/63] fix: the underline follows the text of Text and of
 cells aligned to the middle or the bottom

---
 cache_content_text.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cache_content_text.go b/cache_content_text.go
index a673266..939328a 100644
--- a/cache_content_text.go
+++ b/cache_content_text.go
@@ -400,7 +400,12 @@ func (c *cacheContentText) underline(w io.Writer) error {
 	underlinePositionPx := c.fontSubset.GetUnderlinePositionPx(c.fontSize) * coefUnderlinePosition
 	underlineThicknessPx := c.fontSubset.GetUnderlineThicknessPx(c.fontSize) * coefUnderlineThickness
 
-	yUnderlinePosition := c.pageHeight() - c.y + underlinePositionPx - baseline
+	// the line belongs to the text wherever that is aligned
+	y, err := c.calY()
+	if err != nil {
+		return err
+	}
+	yUnderlinePosition := y + c.calTypoAscender() + underlinePositionPx - baseline
 	if _, err := fmt.Fprintf(w, "%0.2f %0.2f %0.2f %0.2f re f\n", c.x, yUnderlinePosition, c.cellWidthPdfUnit, underlineThicknessPx); err != nil {
 		return err
 	}
-- 
2.43.0


From e694332dfae7f62a4c079a50a83f0cc618e834d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:06 +0000
Subject: [PATCH 31/63] fix: an empty chunk of a PNG file does not end it

---
 image_obj_parse.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/image_obj_parse.go b/image_obj_parse.go
index fd599f2..5de0280 100644
--- a/image_obj_parse.go
+++ b/image_obj_parse.go
@@ -312,7 +312,9 @@ func parsePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 			return err
 		}
 
-		if string(typ) == "PLTE" {
+		if string(typ) == "IEND" {
+			break
+		} else if string(typ) == "PLTE" {
 			pal, err = readBytes(f, n)
 			if err != nil {
 				return err
@@ -357,18 +359,12 @@ func parsePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 			if err != nil {
 				return err
 			}
-		} else if string(typ) == "IEND" {
-			break
 		} else {
 			_, err = f.Seek(int64(n+4), 1) // skip
 			if err != nil {
 				return err
 			}
 		}
-
-		if n <= 0 {
-			break
-		}
 	} // end for
 
 	// info.data = data //ok
-- 
2.43.0


From 02e58cc2e91f01818331be9394a11766d7873620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:08 +0000
Subject: [PATCH 32/63] fix: a palette of dark grey entries is not a missing
 palette

---
 image_obj_parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/image_obj_parse.go b/image_obj_parse.go
index 5de0280..6db03e0 100644
--- a/image_obj_parse.go
+++ b/image_obj_parse.go
@@ -373,7 +373,7 @@ func parsePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 
 	// fmt.Printf("data= %x", md5.Sum(data))
 
-	if colspace == "Indexed" && strings.TrimSpace(string(pal)) == "" {
+	if colspace == "Indexed" && len(pal) == 0 {
 		return errors.New("Missing palette")
 	}
 
-- 
2.43.0


From 149b088775e6c1598c979e4d8d53b4bb1abcc4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:11 +0000
Subject: [PATCH 33/63] fix: report damaged PNG files (short chunks,
 transparency or pixels) instead of a panic or zero padding

---
 image_obj_parse.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/image_obj_parse.go b/image_obj_parse.go
index 6db03e0..5f452a4 100644
--- a/image_obj_parse.go
+++ b/image_obj_parse.go
@@ -331,6 +331,9 @@ func parsePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 				return err
 			}
 
+			if (ct[0] == 0 && n < 2) || (ct[0] == 2 && n < 6) {
+				return errors.New("Invalid tRNS chunk")
+			}
 			if ct[0] == 0 {
 				trns = []byte{(t[1])}
 			} else if ct[0] == 2 {
@@ -371,6 +374,10 @@ func parsePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 	info.trns = trns
 	info.pal = pal
 
+	if len(data) == 0 {
+		return errors.New("Missing image data")
+	}
+
 	// fmt.Printf("data= %x", md5.Sum(data))
 
 	if colspace == "Indexed" && len(pal) == 0 {
@@ -402,6 +409,14 @@ func parsePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 			return err
 		}
 
+		channels := 4
+		if ct[0] == 4 {
+			channels = 2
+		}
+		if h > 0 && (1+channels*w) > len(afterZipData)/h {
+			return errors.New("Not enough image data")
+		}
+
 		var color []byte
 		var alpha []byte
 		if ct[0] == 4 {
@@ -499,8 +514,11 @@ func readInt(f *bytes.Reader) (int, error) {
 }
 
 func readBytes(f *bytes.Reader, len int) ([]byte, error) {
+	if len > f.Len() {
+		return nil, io.ErrUnexpectedEOF
+	}
 	b := make([]byte, len)
-	_, err := f.Read(b)
+	_, err := io.ReadFull(f, b)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From fcd46937d47af67910b6e9213cdd1b8755634913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:00 +0000
Subject: [PATCH 34/63] fix: an image, the same image with a mask and the same
 image as a mask are not taken for each other

---
 current.go |  3 +++
 gopdf.go   | 12 +++++++-----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/current.go b/current.go
index fe1313a..4949539 100644
--- a/current.go
+++ b/current.go
@@ -69,4 +69,7 @@ type ImageCache struct {
 	Path  string //ID or Path
 	Index int
 	Rect  *Rect
+
+	isMask       bool
+	splittedMask bool
 }
diff --git a/gopdf.go b/gopdf.go
index 0af58ac..f637529 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -559,7 +559,7 @@ func (gp *GoPdf) maskHolder(img ImageHolder, opts MaskOptions) (int, error) {
 	var cacheContentImage *cacheContentImage
 
 	for _, imgcache := range gp.curr.ImgCaches {
-		if img.ID() == imgcache.Path {
+		if img.ID() == imgcache.Path && imgcache.isMask {
 			cacheImage = &imgcache
 			break
 		}
@@ -594,9 +594,10 @@ func (gp *GoPdf) maskHolder(img ImageHolder, opts MaskOptions) (int, error) {
 			procset.RelateXobjs = append(procset.RelateXobjs, RelateXobject{IndexOfObj: index})
 
 			imgcache := ImageCache{
-				Index: index,
-				Path:  img.ID(),
-				Rect:  opts.Rect,
+				Index:  index,
+				Path:   img.ID(),
+				Rect:   opts.Rect,
+				isMask: true,
 			}
 			gp.curr.ImgCaches[index] = imgcache
 			gp.curr.CountOfImg++
@@ -669,7 +670,7 @@ func (gp *GoPdf) imageByHolder(img ImageHolder, opts ImageOptions) error {
 	cacheImageIndex := -1
 
 	for _, imgcache := range gp.curr.ImgCaches {
-		if img.ID() == imgcache.Path {
+		if img.ID() == imgcache.Path && !imgcache.isMask && imgcache.splittedMask == (opts.Mask != nil) {
 			cacheImageIndex = imgcache.Index
 			break
 		}
@@ -714,6 +715,7 @@ func (gp *GoPdf) imageByHolder(img ImageHolder, opts ImageOptions) error {
 			imgcache.Index = index
 			imgcache.Path = img.ID()
 			imgcache.Rect = opts.Rect
+			imgcache.splittedMask = imgobj.SplittedMask
 			gp.curr.ImgCaches[index] = imgcache
 			gp.curr.CountOfImg++
 		}
-- 
2.43.0


From ec6cc17ab7f10fb2cbae007c3dd32dd979f38ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:03 +0000
Subject: [PATCH 35/63] fix: an image without a given size has its own size
 when it is used again

---
 gopdf.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index f637529..4a94a9c 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -604,7 +604,10 @@ func (gp *GoPdf) maskHolder(img ImageHolder, opts MaskOptions) (int, error) {
 		}
 	} else {
 		if opts.Rect == nil {
-			opts.Rect = gp.curr.ImgCaches[cacheImage.Index].Rect
+			var err error
+			if opts.Rect, err = gp.pdfObjs[cacheImage.Index].(*ImageObj).getRect(); err != nil {
+				return 0, err
+			}
 		}
 
 		cacheContentImage = gp.getContent().GetCacheContentImage(cacheImage.Index, opts.ImageOptions)
@@ -741,7 +744,10 @@ func (gp *GoPdf) imageByHolder(img ImageHolder, opts ImageOptions) error {
 
 	} else { //same img
 		if opts.Rect == nil {
-			opts.Rect = gp.curr.ImgCaches[cacheImageIndex].Rect
+			var err error
+			if opts.Rect, err = gp.pdfObjs[cacheImageIndex].(*ImageObj).getRect(); err != nil {
+				return err
+			}
 		}
 
 		gp.getContent().AppendStreamImage(cacheImageIndex, opts)
-- 
2.43.0


From cc47ad160455234da2ea775b323bd4f8c0e8b016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:05 +0000
Subject: [PATCH 36/63] fix: report a mask image without an alpha channel

---
 gopdf.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gopdf.go b/gopdf.go
index 4a94a9c..75071fe 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -586,6 +586,9 @@ func (gp *GoPdf) maskHolder(img ImageHolder, opts MaskOptions) (int, error) {
 		if err := maskImgobj.parse(); err != nil {
 			return 0, err
 		}
+		if !maskImgobj.haveSMask() {
+			return 0, errors.New("mask image has no alpha channel")
+		}
 
 		if gp.indexOfProcSet != -1 {
 			index := gp.addObj(maskImgobj)
-- 
2.43.0


From f10fc592fc087c33093ac431bf99a2d8944b0ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:13 +0000
Subject: [PATCH 37/63] fix: the text colour is not left behind as the fill
 colour

---
 cache_content_text.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cache_content_text.go b/cache_content_text.go
index 939328a..39b01d1 100644
--- a/cache_content_text.go
+++ b/cache_content_text.go
@@ -221,8 +221,9 @@ func (c *cacheContentText) write(w io.Writer, protection *PDFProtection) error {
 		return err
 	}
 
-	hasTransparency := len(c.cellOpt.extGStateIndexes) > 0
-	if hasTransparency {
+	// the transparency and the colour of the text are those of the text only
+	hasOwnState := len(c.cellOpt.extGStateIndexes) > 0 || c.txtColorMode == "color"
+	if hasOwnState {
 		if _, err := io.WriteString(w, "q\n"); err != nil {
 			return err
 		}
@@ -306,7 +307,7 @@ func (c *cacheContentText) write(w io.Writer, protection *PDFProtection) error {
 
 	c.drawBorder(w)
 
-	if hasTransparency {
+	if hasOwnState {
 		if _, err := io.WriteString(w, "Q\n"); err != nil {
 			return err
 		}
-- 
2.43.0


From 8ea60ae3b4e2eddb853395ad8690dde9981a68b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:08 +0000
Subject: [PATCH 38/63] fix: escape colour space names in the output

---
 color_space_obj.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/color_space_obj.go b/color_space_obj.go
index f447fbf..7db1e0f 100644
--- a/color_space_obj.go
+++ b/color_space_obj.go
@@ -39,12 +39,12 @@ func (cs *ColorSpaceObj) SetColorRBG(r, g, b uint8) {
 	cs.colorString0 = "0.0 0.0 0.0"
 	cs.colorString1 = fmt.Sprintf("%.3f %.3f %.3f", float64(r)/255.0, float64(g)/255.0, float64(b)/255.0)
 	cs.space = "/DeviceRGB"
-	cs.spaceName = fmt.Sprintf("/%s", cs.Name)
+	cs.spaceName = fmt.Sprintf("/%s", escapeName(cs.Name))
 }
 
 func (cs *ColorSpaceObj) SetColorCMYK(c, m, y, k uint8) {
 	cs.colorString0 = "0.0 0.0 0.0 0.0"
 	cs.colorString1 = fmt.Sprintf("%.3f %.3f %.3f %.3f", float64(c)/100.0, float64(m)/100.0, float64(y)/100.0, float64(k)/100.0)
 	cs.space = "/DeviceCMYK"
-	cs.spaceName = fmt.Sprintf("/%s", cs.Name)
+	cs.spaceName = fmt.Sprintf("/%s", escapeName(cs.Name))
 }
-- 
2.43.0


From 96c339010f6e23abb5298868476a85865bffb611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:48 +0000
Subject: [PATCH 39/63] fix: SetPage makes the page of that number current,
 with its size, its links and its content

---
 content_obj.go |  2 ++
 gopdf.go       | 35 ++++++++++++++++++++++++++---------
 2 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/content_obj.go b/content_obj.go
index 6dad489..9316d61 100644
--- a/content_obj.go
+++ b/content_obj.go
@@ -12,6 +12,8 @@ type ContentObj struct { //impl IObj
 	listCache listCacheContent
 	//text bytes.Buffer
 	getRoot func() *GoPdf
+
+	indexOfPage int //index of the page object the content belongs to
 }
 
 func (c *ContentObj) protection() *PDFProtection {
diff --git a/gopdf.go b/gopdf.go
index 75071fe..ff6caa3 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -2294,7 +2294,6 @@ func (gp *GoPdf) prepare() {
 	}
 
 	if gp.indexOfPagesObj != -1 {
-		indexCurrPage := -1
 		pagesObj := gp.pdfObjs[gp.indexOfPagesObj].(*PagesObj)
 		pagesObj.Kids = ""
 		pagesObj.PageCount = 0
@@ -2307,10 +2306,11 @@ func (gp *GoPdf) prepare() {
 				pagesObj.Kids = fmt.Sprintf("%s %d 0 R ", pagesObj.Kids, i+1)
 				pagesObj.PageCount++
 				gp.pdfObjs[i].(*PageObj).Contents = ""
-				indexCurrPage = i
 			case "Content":
-				if indexCurrPage != -1 {
-					gp.pdfObjs[indexCurrPage].(*PageObj).Contents = fmt.Sprintf("%s %d 0 R ", gp.pdfObjs[indexCurrPage].(*PageObj).Contents, i+1)
+				//a content is added after its page
+				if indexOfPage := gp.pdfObjs[i].(*ContentObj).indexOfPage; indexOfPage != -1 {
+					page := gp.pdfObjs[indexOfPage].(*PageObj)
+					page.Contents = fmt.Sprintf("%s %d 0 R ", page.Contents, i+1)
 				}
 			case "Font":
 				tmpfont := gp.pdfObjs[i].(*FontObj)
@@ -2419,6 +2419,7 @@ func (gp *GoPdf) getContent() *ContentObj {
 		content.init(func() *GoPdf {
 			return gp
 		})
+		content.indexOfPage = gp.curr.IndexOfPageObj
 		gp.indexOfContent = gp.addObj(content)
 	} else {
 		content = gp.pdfObjs[gp.indexOfContent].(*ContentObj)
@@ -2530,19 +2531,35 @@ func (gp *GoPdf) IsCurrFontContainGlyph(r rune) (bool, error) {
 
 // SetPage set current page
 func (gp *GoPdf) SetPage(pageno int) error {
+	indexOfPage := -1
+	indexOfContent := -1
 	var pageIndex int
 	for i := 0; i < len(gp.pdfObjs); i++ {
-		switch gp.pdfObjs[i].(type) {
-		case *ContentObj:
+		switch obj := gp.pdfObjs[i].(type) {
+		case *PageObj:
 			pageIndex += 1
 			if pageIndex == pageno {
-				gp.indexOfContent = i
-				return nil
+				indexOfPage = i
+			}
+		case *ContentObj:
+			if indexOfPage != -1 && obj.indexOfPage == indexOfPage {
+				indexOfContent = i
 			}
 		}
 	}
+	if indexOfPage == -1 {
+		return errors.New("invalid page number")
+	}
 
-	return errors.New("invalid page number")
+	page := gp.pdfObjs[indexOfPage].(*PageObj)
+	gp.curr.IndexOfPageObj = indexOfPage
+	gp.curr.pageSize = &gp.config.PageSize
+	if !page.pageOption.isEmpty() {
+		gp.curr.pageSize = page.pageOption.PageSize
+	}
+	gp.curr.trimBox = page.pageOption.TrimBox
+	gp.indexOfContent = indexOfContent //-1 when nothing is drawn on the page yet
+	return nil
 }
 
 func (gp *GoPdf) SetColorSpace(name string) error {
-- 
2.43.0


From 24f8644d8b583860a9f38898a01b7ecbae14e089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:07 +0000
Subject: [PATCH 40/63] fix: outlines form one tree, in the order of the nodes,
 with its entries counted

---
 outlines_obj.go | 161 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 117 insertions(+), 44 deletions(-)

diff --git a/outlines_obj.go b/outlines_obj.go
index fd6d35a..9c7ff7d 100644
--- a/outlines_obj.go
+++ b/outlines_obj.go
@@ -10,11 +10,11 @@ import (
 type OutlinesObj struct { //impl IObj
 	getRoot func() *GoPdf
 
-	index   int
-	first   int
-	last    int
-	count   int
-	lastObj *OutlineObj
+	index int
+	first int
+	last  int
+	count int
+	top   []*OutlineObj //outlines of the top level, in order
 }
 
 func (o *OutlinesObj) init(funcGetRoot func() *GoPdf) {
@@ -30,7 +30,7 @@ func (o *OutlinesObj) getType() string {
 func (o *OutlinesObj) write(w io.Writer, objID int) error {
 	content := "<<\n"
 	content += fmt.Sprintf("\t/Type /%s\n", o.getType())
-	content += fmt.Sprintf("\t/Count %d\n", o.count)
+	content += fmt.Sprintf("\t/Count %d\n", len(o.top)) //the outlines below those are closed
 
 	if o.first >= 0 {
 		content += fmt.Sprintf("\t/First %d 0 R\n", o.first)
@@ -54,32 +54,86 @@ func (o *OutlinesObj) SetIndexObjOutlines(index int) {
 }
 
 func (o *OutlinesObj) AddOutline(dest int, title string) {
-	oo := &OutlineObj{title: title, dest: dest, parent: o.index, prev: o.last, next: -1, getRoot: o.getRoot}
-	o.last = o.getRoot().addObj(oo) + 1
-	if o.first <= 0 {
-		o.first = o.last
-	}
-	if o.lastObj != nil {
-		o.lastObj.next = o.last
-	}
-	o.lastObj = oo
-	o.count++
+	o.add(&OutlineObj{title: title, dest: dest})
 }
 
 // AddOutlinesWithPosition add outlines with position
 func (o *OutlinesObj) AddOutlinesWithPosition(dest int, title string, y float64) *OutlineObj {
-	oo := &OutlineObj{title: title, dest: dest, parent: o.index, prev: o.last, next: -1, height: y, getRoot: o.getRoot}
-	o.last = o.getRoot().addObj(oo) + 1
-	if o.first <= 0 {
-		o.first = o.last
-	}
-	if o.lastObj != nil {
-		o.lastObj.next = o.last
+	oo := &OutlineObj{title: title, dest: dest, height: y, hasHeight: true}
+	o.add(oo)
+	return oo
+}
+
+// add adds an outline at the end of the top level
+func (o *OutlinesObj) add(oo *OutlineObj) {
+	oo.getRoot = o.getRoot
+	oo.index = o.getRoot().addObj(oo) + 1
+	oo.parent = o.index + 1
+	oo.prev = o.last
+	oo.next = -1
+	if len(o.top) == 0 {
+		o.first = oo.index
+	} else {
+		o.top[len(o.top)-1].next = oo.index
 	}
-	o.lastObj = oo
+	o.last = oo.index
+	o.top = append(o.top, oo)
 	o.count++
-	oo.index = o.last
-	return oo
+}
+
+// setTop sets the outlines of the top level
+func (o *OutlinesObj) setTop(top []*OutlineObj) {
+	o.top = top
+	o.first = -1
+	o.last = -1
+	for i, oo := range top {
+		oo.parent = o.index + 1
+		oo.prev = -1
+		oo.next = -1
+		if i == 0 {
+			o.first = oo.index
+		} else {
+			oo.prev = top[i-1].index
+			top[i-1].next = oo.index
+		}
+		o.last = oo.index
+	}
+}
+
+// arrange puts the nodes at the top level, in order and in the place of the
+// first outline among the nodes and their descendants
+func (o *OutlinesObj) arrange(nodes OutlineNodes) {
+	listed := make(map[*OutlineObj]bool)
+	nodes.collect(listed)
+
+	var nodeObjs, top []*OutlineObj
+	for _, node := range nodes {
+		nodeObjs = append(nodeObjs, node.Obj)
+	}
+	placed := false
+	for _, oo := range o.top {
+		if !listed[oo] {
+			top = append(top, oo)
+		} else if !placed {
+			placed = true
+			top = append(top, nodeObjs...)
+		}
+	}
+	if !placed {
+		top = append(top, nodeObjs...)
+	}
+	o.setTop(top)
+}
+
+// remove removes the outlines from the top level
+func (o *OutlinesObj) remove(listed map[*OutlineObj]bool) {
+	var top []*OutlineObj
+	for _, oo := range o.top {
+		if !listed[oo] {
+			top = append(top, oo)
+		}
+	}
+	o.setTop(top)
 }
 
 func (o *OutlinesObj) Count() int {
@@ -96,8 +150,11 @@ type OutlineObj struct { //impl IObj
 	next   int
 	first  int
 	last   int
+	count  int //number of outlines directly below
 	height float64
 
+	hasHeight bool
+
 	getRoot func() *GoPdf
 }
 
@@ -175,7 +232,14 @@ func (o *OutlineObj) write(w io.Writer, objID int) error {
 	if o.last > 0 {
 		fmt.Fprintf(w, "  /Last %d 0 R\n", o.last)
 	}
-	fmt.Fprintf(w, "  /Dest [ %d 0 R /XYZ 90 %f 0 ]\n", o.dest, o.height)
+	if o.count > 0 {
+		fmt.Fprintf(w, "  /Count %d\n", -o.count)
+	}
+	if o.hasHeight {
+		fmt.Fprintf(w, "  /Dest [ %d 0 R /XYZ 90 %f 0 ]\n", o.dest, o.height)
+	} else {
+		fmt.Fprintf(w, "  /Dest [ %d 0 R /XYZ null null null ]\n", o.dest)
+	}
 	fmt.Fprintf(w, "  /Title <%s>\n", title)
 	io.WriteString(w, ">>\n")
 	return nil
@@ -197,29 +261,37 @@ type OutlineNode struct {
 // OutlineNodes are all nodes of outline
 type OutlineNodes []*OutlineNode
 
-// Parse parse outline nodes
+// Parse puts the nodes, and their children below them, in the order given
 func (objs OutlineNodes) Parse() {
-	for i, obj := range objs {
-		if i == 0 {
-			obj.Obj.SetPrev(-1)
-		} else {
-			obj.Obj.SetNext(objs[i-1].Obj.GetIndex())
-		}
-		if i == len(objs)-1 {
-			obj.Obj.SetNext(-1)
-		} else {
-			obj.Obj.SetNext(objs[i+1].Obj.GetIndex())
-		}
-		obj.Parse()
+	if len(objs) == 0 {
+		return
+	}
+	for _, obj := range objs {
+		obj.linkChildren()
+	}
+	if root := objs[0].Obj.getRoot; root != nil {
+		root().outlines.arrange(objs)
 	}
+}
 
+func (objs OutlineNodes) collect(listed map[*OutlineObj]bool) {
+	for _, obj := range objs {
+		listed[obj.Obj] = true
+		OutlineNodes(obj.Children).collect(listed)
+	}
 }
 
-// Parse parse outline
+// Parse puts the children below the outline
 func (obj OutlineNode) Parse() {
-	if obj.Children == nil || len(obj.Children) == 0 {
-		return
+	obj.linkChildren()
+	if root := obj.Obj.getRoot; root != nil {
+		listed := make(map[*OutlineObj]bool)
+		OutlineNodes(obj.Children).collect(listed)
+		root().outlines.remove(listed)
 	}
+}
+
+func (obj OutlineNode) linkChildren() {
 	for i, children := range obj.Children {
 		if i == 0 {
 			obj.Obj.SetFirst(children.Obj.GetIndex())
@@ -236,6 +308,7 @@ func (obj OutlineNode) Parse() {
 			children.Obj.SetNext(obj.Children[i+1].Obj.GetIndex())
 		}
 		children.Obj.SetParent(obj.Obj.GetIndex())
-		children.Parse()
+		children.linkChildren()
 	}
+	obj.Obj.count = len(obj.Children)
 }
-- 
2.43.0


From dd387fe08137682000e6c769082089a2fb46b7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:09 +0000
Subject: [PATCH 41/63] fix: the current transparency applies to texts, cells,
 ovals, curves, plain rectangles and images

---
 cache_content_oval.go   |  7 +++++++
 cache_contnent_curve.go |  8 +++++++-
 content_obj.go          | 12 ++++++++++--
 gopdf.go                | 15 +++++++++++++++
 4 files changed, 39 insertions(+), 3 deletions(-)

diff --git a/cache_content_oval.go b/cache_content_oval.go
index f3b2df9..7a24efe 100644
--- a/cache_content_oval.go
+++ b/cache_content_oval.go
@@ -11,6 +11,8 @@ type cacheContentOval struct {
 	y1         float64
 	x2         float64
 	y2         float64
+
+	extGStateIndexes []int
 }
 
 func (c *cacheContentOval) write(w io.Writer, protection *PDFProtection) error {
@@ -27,6 +29,10 @@ func (c *cacheContentOval) write(w io.Writer, protection *PDFProtection) error {
 	v3 := [2]float64{x1 + (x2-x1)/2, h - y1}   // .. Upper
 	v4 := [2]float64{x1, h - (y1 + (y2-y1)/2)} // .. Left
 
+	fmt.Fprintf(w, "q\n")
+	for _, extGStateIndex := range c.extGStateIndexes {
+		fmt.Fprintf(w, "/GS%d gs\n", extGStateIndex)
+	}
 	fmt.Fprintf(w, "%0.2f %0.2f m\n", v1[0], v1[1])
 	fmt.Fprintf(w,
 		"%0.2f %0.2f %0.2f %0.2f %0.2f %0.2f c\n",
@@ -44,6 +50,7 @@ func (c *cacheContentOval) write(w io.Writer, protection *PDFProtection) error {
 		"%0.2f %0.2f %0.2f %0.2f %0.2f %0.2f c S\n",
 		v4[0], v4[1]-(y2-y1)/2*cp, v1[0]-(x2-x1)/2*cp, v1[1], v1[0], v1[1],
 	)
+	fmt.Fprintf(w, "Q\n")
 
 	return nil
 }
diff --git a/cache_contnent_curve.go b/cache_contnent_curve.go
index e60a503..9eb0e15 100644
--- a/cache_contnent_curve.go
+++ b/cache_contnent_curve.go
@@ -16,6 +16,8 @@ type cacheContentCurve struct {
 	x3         float64
 	y3         float64
 	style      string
+
+	extGStateIndexes []int
 }
 
 func (c *cacheContentCurve) write(w io.Writer, protection *PDFProtection) error {
@@ -32,6 +34,10 @@ func (c *cacheContentCurve) write(w io.Writer, protection *PDFProtection) error
 	style := c.style
 
 	//cp := 0.55228
+	fmt.Fprintf(w, "q\n")
+	for _, extGStateIndex := range c.extGStateIndexes {
+		fmt.Fprintf(w, "/GS%d gs\n", extGStateIndex)
+	}
 	fmt.Fprintf(w, "%0.2f %0.2f m\n", x0, h-y0)
 	fmt.Fprintf(w,
 		"%0.2f %0.2f %0.2f %0.2f %0.2f %0.2f c",
@@ -43,6 +49,6 @@ func (c *cacheContentCurve) write(w io.Writer, protection *PDFProtection) error
 	} else if style == "FD" || style == "DF" {
 		op = "B"
 	}
-	fmt.Fprintf(w, " %s\n", op)
+	fmt.Fprintf(w, " %s\nQ\n", op)
 	return nil
 }
diff --git a/content_obj.go b/content_obj.go
index 9316d61..b9fc853 100644
--- a/content_obj.go
+++ b/content_obj.go
@@ -115,7 +115,10 @@ func (c *ContentObj) appendStreamPlaceHolderText(placeHolderWidth float64) error
 	setXCount := c.getRoot().curr.setXCount
 	fontSubset := c.getRoot().curr.FontISubset
 
-	cellOption := CellOption{Transparency: c.getRoot().curr.transparency}
+	cellOption := CellOption{
+		Transparency:     c.getRoot().curr.transparency,
+		extGStateIndexes: c.getRoot().currExtGStateIndexes(),
+	}
 
 	cache := cacheContentText{
 		fontSubset:     fontSubset,
@@ -163,7 +166,10 @@ func (c *ContentObj) AppendStreamText(text string) error {
 	setXCount := c.getRoot().curr.setXCount
 	fontSubset := c.getRoot().curr.FontISubset
 
-	cellOption := CellOption{Transparency: c.getRoot().curr.transparency}
+	cellOption := CellOption{
+		Transparency:     c.getRoot().curr.transparency,
+		extGStateIndexes: c.getRoot().currExtGStateIndexes(),
+	}
 
 	cache := cacheContentText{
 		fontSubset:     fontSubset,
@@ -272,6 +278,7 @@ func (c *ContentObj) AppendStreamOval(x1 float64, y1 float64, x2 float64, y2 flo
 	cache.y1 = y1
 	cache.x2 = x2
 	cache.y2 = y2
+	cache.extGStateIndexes = c.getRoot().currExtGStateIndexes()
 	c.listCache.append(&cache)
 }
 
@@ -296,6 +303,7 @@ func (c *ContentObj) AppendStreamCurve(x0 float64, y0 float64, x1 float64, y1 fl
 	cache.x3 = x3
 	cache.y3 = y3
 	cache.style = strings.ToUpper(strings.TrimSpace(style))
+	cache.extGStateIndexes = c.getRoot().currExtGStateIndexes()
 	c.listCache.append(&cache)
 }
 
diff --git a/gopdf.go b/gopdf.go
index ff6caa3..014e87d 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -256,6 +256,7 @@ func (gp *GoPdf) RectFromLowerLeft(x float64, y float64, wdth float64, hght floa
 		PaintStyle: DrawPaintStyle,
 		Rect:       Rect{W: wdth, H: hght},
 	}
+	opts.extGStateIndexes = gp.currExtGStateIndexes()
 
 	gp.getContent().AppendStreamRectangle(opts)
 }
@@ -270,6 +271,7 @@ func (gp *GoPdf) RectFromUpperLeft(x float64, y float64, wdth float64, hght floa
 		PaintStyle: DrawPaintStyle,
 		Rect:       Rect{W: wdth, H: hght},
 	}
+	opts.extGStateIndexes = gp.currExtGStateIndexes()
 
 	gp.getContent().AppendStreamRectangle(opts)
 }
@@ -507,6 +509,7 @@ func (gp *GoPdf) ImageByHolder(img ImageHolder, x float64, y float64, rect *Rect
 		Y:    y,
 		Rect: rect,
 	}
+	imageOptions.extGStateIndexes = gp.currExtGStateIndexes()
 
 	return gp.imageByHolder(img, imageOptions)
 }
@@ -772,6 +775,7 @@ func (gp *GoPdf) Image(picPath string, x float64, y float64, rect *Rect) error {
 		Y:    y,
 		Rect: rect,
 	}
+	imageOptions.extGStateIndexes = gp.currExtGStateIndexes()
 
 	return gp.imageByHolder(imgh, imageOptions)
 }
@@ -821,6 +825,7 @@ func (gp *GoPdf) ImageFromWithOption(img image.Image, opts ImageFromOption) erro
 		Y:    opts.Y,
 		Rect: opts.Rect,
 	}
+	imageOptions.extGStateIndexes = gp.currExtGStateIndexes()
 
 	return gp.imageByHolder(imgh, imageOptions)
 }
@@ -1187,6 +1192,8 @@ func (gp *GoPdf) Cell(rectangle *Rect, text string) error {
 		Align:  Left | Top,
 		Border: 0,
 		Float:  Right,
+
+		extGStateIndexes: gp.currExtGStateIndexes(),
 	}
 
 	text, err := gp.curr.FontISubset.AddChars(text)
@@ -2461,6 +2468,14 @@ func (gp *GoPdf) ClearTransparency() {
 	gp.curr.transparency = nil
 }
 
+// currExtGStateIndexes are the graphics states of the current transparency
+func (gp *GoPdf) currExtGStateIndexes() []int {
+	if gp.curr.transparency == nil {
+		return nil
+	}
+	return []int{gp.curr.transparency.extGStateIndex}
+}
+
 func (gp *GoPdf) getCachedTransparency(transparency *Transparency) (*Transparency, error) {
 	if transparency == nil {
 		transparency = gp.curr.transparency
-- 
2.43.0


From a67f6d0263d7ea2071ecc528bccc59c58fcb3fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:12 +0000
Subject: [PATCH 42/63] fix: a table reports a row with too many cells and a
 font that is not loaded

---
 table.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/table.go b/table.go
index 3ec0027..00afafb 100644
--- a/table.go
+++ b/table.go
@@ -1,5 +1,7 @@
 package gopdf
 
+import "errors"
+
 // Represents an RGB color with red, green, and blue components
 type RGBColor struct {
 	R uint8 // Red component (0-255)
@@ -184,6 +186,9 @@ func (t *tableLayout) DrawTable() error {
 	// Draw the data rows
 	for _, row := range t.rows {
 		x = t.startX
+		if len(row) > len(t.columns) {
+			return errors.New("row has more cells than the table has columns")
+		}
 		for i, cell := range row {
 			cellStyle := t.cellStyle
 			if cell.useCellStyle {
@@ -301,7 +306,9 @@ func (t *tableLayout) drawCell(
 	// Set the text color and font
 	t.pdf.SetTextColor(style.TextColor.R, style.TextColor.G, style.TextColor.B)
 	if style.Font != "" {
-		t.pdf.SetFont(style.Font, "", style.FontSize)
+		if err := t.pdf.SetFont(style.Font, "", style.FontSize); err != nil {
+			return err
+		}
 	}
 
 	// Draw the cell content
-- 
2.43.0


From df3aaf4fab0a93864f12971ac44224df37263ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:14 +0000
Subject: [PATCH 43/63] fix: the border of a table encloses all of its rows

---
 table.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/table.go b/table.go
index 00afafb..c5f94d7 100644
--- a/table.go
+++ b/table.go
@@ -245,7 +245,11 @@ func (t *tableLayout) drawTableAndHeaderBorder() error {
 	x1 := t.startX
 	y1 := t.startY
 	x2 := t.startX
-	y2 := t.startY + float64(t.maxRows+1)*t.rowHeight
+	rows := t.maxRows
+	if len(t.rows) > rows {
+		rows = len(t.rows)
+	}
+	y2 := t.startY + float64(rows+1)*t.rowHeight
 
 	for _, col := range t.columns {
 		x2 += col.width
-- 
2.43.0


From 68521ea67611b5612bd6b6a8fb820ea3afa45a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:57 +0000
Subject: [PATCH 44/63] fix: a font loaded with an underlined style can be
 selected

---
 gopdf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopdf.go b/gopdf.go
index 014e87d..b0d499a 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -998,7 +998,7 @@ func (gp *GoPdf) SetFontWithStyle(family string, style int, size interface{}) er
 			obj := gp.pdfObjs[i]
 			sub, ok := obj.(*SubsetFontObj)
 			if ok {
-				if sub.GetFamily() == family && sub.GetTtfFontOption().Style == style&^Underline {
+				if sub.GetFamily() == family && sub.GetTtfFontOption().Style&^Underline == style&^Underline {
 					gp.curr.FontSize = fontSize
 					gp.curr.FontStyle = style
 					gp.curr.FontFontCount = sub.CountOfFont
-- 
2.43.0


From e86e7eb8be0497d327c0f95dfe3accb87a334b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:11 +0000
Subject: [PATCH 45/63] fix: Arabic letters before a hamza, after a jeh and teh
 marbuta have their joining forms

---
 arabic_alphabet.go | 3 ++-
 arabic_helper.go   | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/arabic_alphabet.go b/arabic_alphabet.go
index 5fb34d7..9716001 100644
--- a/arabic_alphabet.go
+++ b/arabic_alphabet.go
@@ -142,7 +142,7 @@ var (
 		Unicode:   '\u0629',
 		Isolated:  '\ufe93',
 		Beginning: '\u0629',
-		Middle:    '\u0629',
+		Middle:    '\ufe94',
 		Final:     '\ufe94'}
 
 	THEH = Harf{ // ث
@@ -459,6 +459,7 @@ var rightJoiningOnlyLetters = map[Harf]bool{
 	DAL:              true,
 	THAL:             true,
 	REH:              true,
+	JEH:              true,
 	ZAIN:             true,
 	WAW:              true,
 	ALEF_MAKSURA:     true}
diff --git a/arabic_helper.go b/arabic_helper.go
index 91148eb..e7fd0b2 100644
--- a/arabic_helper.go
+++ b/arabic_helper.go
@@ -87,8 +87,8 @@ func getCharShape(previousChar, currentChar, nextChar rune) rune {
 		previousArabic = true
 	}
 
-	if _, ok := arabicAlphabet[nextChar]; ok {
-		nextArabic = true
+	if next, ok := arabicAlphabet[nextChar]; ok {
+		nextArabic = next != HAMZA // a hamza joins to neither side
 	}
 
 	if _, ok := arabicAlphabet[currentChar]; !ok {
-- 
2.43.0


From 6854a996d41f8fd8aa095142625939ba18800711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:14 +0000
Subject: [PATCH 46/63] fix: ToArabic keeps marks at the beginning of a text

---
 arabic_helper.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arabic_helper.go b/arabic_helper.go
index e7fd0b2..c866df5 100644
--- a/arabic_helper.go
+++ b/arabic_helper.go
@@ -32,6 +32,9 @@ func reverseWithTashkeel(runes []rune) string {
 		if IsTashkeel(r) {
 			if currentGroup != nil {
 				currentGroup.tashkeel = append(currentGroup.tashkeel, r)
+			} else {
+				// there is no letter before it, it stands for itself
+				groups = append(groups, hrofGroup{base: r})
 			}
 		} else {
 			groups = append(groups, hrofGroup{base: r})
-- 
2.43.0


From 85adf4b97e369c41b21c0317c4ebebb656cbb165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:16 +0000
Subject: [PATCH 47/63] fix: the Allah ligature replaces only letters that are
 not joined to others

---
 arabic_helper.go | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/arabic_helper.go b/arabic_helper.go
index c866df5..25367b2 100644
--- a/arabic_helper.go
+++ b/arabic_helper.go
@@ -8,9 +8,36 @@ const ALLAH_LIGATURE rune = 0xFDF2
 // convertAllahToLigature replaces the word "الله" (Allah) with the Allah ligature U+FDF2 (ﷲ)
 func convertAllahToLigature(text string) string {
 	// الله without tashkeel: Alef + Lam + Lam + Heh
-	allah := string([]rune{ALEF.Unicode, LAM.Unicode, LAM.Unicode, HEH.Unicode})
-	// Replace with the Allah ligature character
-	return strings.ReplaceAll(text, allah, string(ALLAH_LIGATURE))
+	allah := []rune{ALEF.Unicode, LAM.Unicode, LAM.Unicode, HEH.Unicode}
+	if !strings.Contains(text, string(allah)) {
+		return text
+	}
+	runes := []rune(text)
+	result := make([]rune, 0, len(runes))
+	for i := 0; i < len(runes); i++ {
+		end := i + len(allah)
+		// Replace with the Allah ligature character, unless it is joined to other letters
+		if end <= len(runes) && string(runes[i:end]) == string(allah) &&
+			!joinsNext(findPreviousNonTashkeelHarf(runes, i)) && !joinsPrevious(findNextNonTashkeelHarf(runes, end-1)) {
+			result = append(result, ALLAH_LIGATURE)
+			i = end - 1
+			continue
+		}
+		result = append(result, runes[i])
+	}
+	return string(result)
+}
+
+// joinsNext returns true if the given Arabic char is joined to a letter that follows it
+func joinsNext(char rune) bool {
+	harf, ok := arabicAlphabet[char]
+	return ok && !rightJoiningOnlyLetters[harf]
+}
+
+// joinsPrevious returns true if the given Arabic char is joined to a letter before it
+func joinsPrevious(char rune) bool {
+	harf, ok := arabicAlphabet[char]
+	return ok && harf != HAMZA
 }
 
 // reverseWithTashkeel reverses Arabic text while keeping tashkeel attached to base characters
-- 
2.43.0


From a309d741df0980ba43d6161053b88a761496c8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:04 +0000
Subject: [PATCH 48/63] fix: a combined shadda keeps its place among the marks
 of its letter

---
 arabic_helper.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/arabic_helper.go b/arabic_helper.go
index 25367b2..cf794e5 100644
--- a/arabic_helper.go
+++ b/arabic_helper.go
@@ -56,7 +56,7 @@ func reverseWithTashkeel(runes []rune) string {
 	var currentGroup *hrofGroup
 
 	for _, r := range runes {
-		if IsTashkeel(r) {
+		if IsTashkeel(r) || isShaddaLigature(r) {
 			if currentGroup != nil {
 				currentGroup.tashkeel = append(currentGroup.tashkeel, r)
 			} else {
@@ -179,6 +179,16 @@ func IsTashkeel(r rune) bool {
 	return tashkeelMarks[r]
 }
 
+// isShaddaLigature returns true if the rune is a shadda combined with a vowel
+func isShaddaLigature(r rune) bool {
+	for _, ligature := range shaddaLigatures {
+		if ligature == r {
+			return true
+		}
+	}
+	return false
+}
+
 func ToArabic(text string) string {
 	// Preprocess: convert "الله" to the Allah ligature U+FDF2 (ﷲ)
 	text = convertAllahToLigature(text)
-- 
2.43.0


From 73b9567aff1010f537134e2acdde370c456f1da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:13 +0000
Subject: [PATCH 49/63] fix: an imported object is ended only once

---
 imported_obj.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/imported_obj.go b/imported_obj.go
index b42189b..675735e 100644
--- a/imported_obj.go
+++ b/imported_obj.go
@@ -2,6 +2,7 @@ package gopdf
 
 import (
 	"io"
+	"strings"
 )
 
 // ImportedObj : imported object
@@ -18,8 +19,11 @@ func (c *ImportedObj) getType() string {
 }
 
 func (c *ImportedObj) write(w io.Writer, objID int) error {
-	if c != nil {
-		io.WriteString(w, c.Data)
+	if c == nil {
+		return nil
 	}
-	return nil
+	// gofpdi ends its objects itself, but so does the document
+	data := strings.TrimSuffix(strings.TrimRight(c.Data, "\r\n"), "endobj")
+	_, err := io.WriteString(w, data)
+	return err
 }
-- 
2.43.0


From 889eb17e57322ab9297a0ccd71207ef308afa553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:19 +0000
Subject: [PATCH 50/63] fix: ImportPagesFromSource draws pages in their own
 size in every unit

---
 gopdf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopdf.go b/gopdf.go
index b0d499a..8a6b44b 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1723,7 +1723,7 @@ func (gp *GoPdf) ImportPagesFromSource(source interface{}, box string) error {
 		gp.ImportObjects(imported, startObjID)
 
 		// Draws the imported template on the current page
-		gp.UseImportedTemplate(tpl, 0, 0, size["w"], size["h"])
+		gp.UseImportedTemplate(tpl, 0, 0, gp.PointsToUnits(size["w"]), gp.PointsToUnits(size["h"]))
 	}
 
 	return nil
-- 
2.43.0


From fe26f42f15300103394d06f16626b4974b95ce00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:22 +0000
Subject: [PATCH 51/63] fix: pages imported from several sources in turn are
 not mixed up

---
 gopdf.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/gopdf.go b/gopdf.go
index 8a6b44b..5979d9d 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -102,6 +102,9 @@ type GoPdf struct {
 	// gofpdi free pdf document importer
 	fpdi *gofpdi.Importer
 
+	// names of the imported pages in the resources, by template id
+	importedTplNames map[int]string
+
 	//placeholder text
 	placeHolderTexts map[string]([]placeHolderTextInfo)
 }
@@ -1592,6 +1595,7 @@ func (gp *GoPdf) ImportPage(sourceFile string, pageno int, box string) int {
 
 	// Set template names and ids in gopdf
 	gp.ImportTemplates(tplObjIDs)
+	gp.nameTemplate(tpl, tplObjIDs)
 
 	// Get a map[int]string of the imported objects.
 	// The map keys will be the ID of each object.
@@ -1626,6 +1630,7 @@ func (gp *GoPdf) ImportPageStream(sourceStream *io.ReadSeeker, pageno int, box s
 
 	// Set template names and ids in gopdf
 	gp.ImportTemplates(tplObjIDs)
+	gp.nameTemplate(tpl, tplObjIDs)
 
 	// Get a map[int]string of the imported objects.
 	// The map keys will be the ID of each object.
@@ -1657,6 +1662,9 @@ func (gp *GoPdf) UseImportedTemplate(tplid int, x float64, y float64, w float64,
 	gp.UnitsToPointsVar(&x, &y, &w, &h)
 	// Get template values to draw
 	tplName, scaleX, scaleY, tX, tY := gp.fpdi.UseTemplate(tplid, x, y, w, h)
+	if name, ok := gp.importedTplNames[tplid]; ok {
+		tplName = name
+	}
 	gp.getContent().AppendStreamImportedTemplate(tplName, scaleX, scaleY, tX, tY)
 }
 
@@ -1714,6 +1722,7 @@ func (gp *GoPdf) ImportPagesFromSource(source interface{}, box string) error {
 
 		// Set template names and ids in gopdf
 		gp.ImportTemplates(tplObjIDs)
+		gp.nameTemplate(tpl, tplObjIDs)
 
 		// Get a map[int]string of the imported objects.
 		// The map keys will be the ID of each object.
@@ -1756,6 +1765,22 @@ func (gp *GoPdf) ImportTemplates(tpls map[string]int) {
 	}
 }
 
+// nameTemplate gives an imported page a name of its own. The names of gofpdi are
+// unique within one source only.
+func (gp *GoPdf) nameTemplate(tpl int, tplObjIDs map[string]int) {
+	tplName, _, _, _, _ := gp.fpdi.UseTemplate(tpl, 0, 0, 0, 0)
+	objID, ok := tplObjIDs[tplName]
+	if !ok {
+		return
+	}
+	name := fmt.Sprintf("/TPL%d", objID)
+	gp.ImportTemplates(map[string]int{name: objID})
+	if gp.importedTplNames == nil {
+		gp.importedTplNames = make(map[int]string)
+	}
+	gp.importedTplNames[tpl] = name
+}
+
 // AddExternalLink adds a new external link.
 func (gp *GoPdf) AddExternalLink(url string, x, y, w, h float64) {
 	gp.UnitsToPointsVar(&x, &y, &w, &h)
-- 
2.43.0


From 0aa06ed5b2c347f34a97b682b93413e5b08ebc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:51 +0000
Subject: [PATCH 52/63] fix: each imported page comes from its own stream

---
 gopdf.go | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 5979d9d..150a9b1 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -105,6 +105,9 @@ type GoPdf struct {
 	// names of the imported pages in the resources, by template id
 	importedTplNames map[int]string
 
+	// streams that pages were imported from
+	importSources map[*io.ReadSeeker]io.ReadSeeker
+
 	//placeholder text
 	placeHolderTexts map[string]([]placeHolderTextInfo)
 }
@@ -1613,7 +1616,7 @@ func (gp *GoPdf) ImportPage(sourceFile string, pageno int, box string) int {
 // gofpdi code
 func (gp *GoPdf) ImportPageStream(sourceStream *io.ReadSeeker, pageno int, box string) int {
 	// Set source file for fpdi
-	gp.fpdi.SetSourceStream(sourceStream)
+	gp.setSourceStream(sourceStream)
 
 	// gofpdi needs to know where to start the object id at.
 	// By default, it starts at 1, but gopdf adds a few objects initially.
@@ -1646,7 +1649,7 @@ func (gp *GoPdf) ImportPageStream(sourceStream *io.ReadSeeker, pageno int, box s
 // GetStreamPageSizes gets the sizes of the pages using a stream
 // Returns a map of available pages and its box sizes starting with the first page at index 1 containing a map of boxes containing a map of size values
 func (gp *GoPdf) GetStreamPageSizes(sourceStream *io.ReadSeeker) map[int]map[string]map[string]float64 {
-	gp.fpdi.SetSourceStream(sourceStream)
+	gp.setSourceStream(sourceStream)
 	return gp.fpdi.GetPageSizes()
 }
 
@@ -1678,13 +1681,13 @@ func (gp *GoPdf) ImportPagesFromSource(source interface{}, box string) error {
 	case []byte:
 		// Set source stream for fpdi
 		rs := io.ReadSeeker(bytes.NewReader(v))
-		gp.fpdi.SetSourceStream(&rs)
+		gp.setSourceStream(&rs)
 	case io.ReadSeeker:
 		// Set source stream for fpdi
-		gp.fpdi.SetSourceStream(&v)
+		gp.setSourceStream(&v)
 	case *io.ReadSeeker:
 		// Set source stream for fpdi
-		gp.fpdi.SetSourceStream(v)
+		gp.setSourceStream(v)
 	default:
 		return errors.New("source type not supported")
 	}
@@ -1765,6 +1768,27 @@ func (gp *GoPdf) ImportTemplates(tpls map[string]int) {
 	}
 }
 
+// setSourceStream sets the source for fpdi. gofpdi tells sources apart by the address
+// of the stream variable, so that variable must neither be freed nor hold another
+// stream as long as the document may import pages.
+func (gp *GoPdf) setSourceStream(source *io.ReadSeeker) {
+	if known, ok := gp.importSources[source]; ok && known != *source {
+		rs := *source
+		source = &rs
+		for p, known := range gp.importSources {
+			if known == rs && *p == rs {
+				source = p
+				break
+			}
+		}
+	}
+	if gp.importSources == nil {
+		gp.importSources = make(map[*io.ReadSeeker]io.ReadSeeker)
+	}
+	gp.importSources[source] = *source
+	gp.fpdi.SetSourceStream(source)
+}
+
 // nameTemplate gives an imported page a name of its own. The names of gofpdi are
 // unique within one source only.
 func (gp *GoPdf) nameTemplate(tpl int, tplObjIDs map[string]int) {
@@ -2260,6 +2284,8 @@ func (gp *GoPdf) init(importer ...*gofpdi.Importer) {
 
 	// init gofpdi free pdf document importer
 	gp.fpdi = importerOrDefault(importer...)
+	gp.importedTplNames = nil
+	gp.importSources = nil
 
 }
 
-- 
2.43.0


From 1122c60d72d29610000e47b0374e9c21a5571313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:03 +0000
Subject: [PATCH 53/63] fix: a document started anew counts its own pages

---
 gopdf.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gopdf.go b/gopdf.go
index 150a9b1..b66cdd4 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -2241,6 +2241,7 @@ func (gp *GoPdf) init(importer ...*gofpdi.Importer) {
 	gp.pdfProtection = nil
 	gp.encryptionObjID = 0
 	gp.isUseInfo = false
+	gp.numOfPagesObj = 0
 	gp.info = nil
 
 	//default
-- 
2.43.0


From c3096c0a8f63e9b64faa4dd95218fef42b5a5aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:18 +0000
Subject: [PATCH 54/63] fix: an imported object without endobj keeps its last
 line end

---
 imported_obj.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/imported_obj.go b/imported_obj.go
index 675735e..ff84df7 100644
--- a/imported_obj.go
+++ b/imported_obj.go
@@ -23,7 +23,10 @@ func (c *ImportedObj) write(w io.Writer, objID int) error {
 		return nil
 	}
 	// gofpdi ends its objects itself, but so does the document
-	data := strings.TrimSuffix(strings.TrimRight(c.Data, "\r\n"), "endobj")
+	data := c.Data
+	if s := strings.TrimRight(data, "\r\n"); strings.HasSuffix(s, "endobj") {
+		data = strings.TrimSuffix(s, "endobj")
+	}
 	_, err := io.WriteString(w, data)
 	return err
 }
-- 
2.43.0


From 9a6250960e7461abe42f39f97b4cf0c49d75dcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:20 +0000
Subject: [PATCH 55/63] fix: creation dates in time zones that are not whole
 hours off

---
 gopdf.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index b66cdd4..ea2e3ba 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -2495,8 +2495,12 @@ func encodeUtf8(str string) string {
 }
 
 func infodate(t time.Time) string {
-	ft := t.Format("20060102150405-07'00'")
-	return ft
+	_, offset := t.Zone()
+	minutes := offset / 60 % 60
+	if minutes < 0 {
+		minutes = -minutes
+	}
+	return t.Format("20060102150405-07") + fmt.Sprintf("'%02d'", minutes)
 }
 
 // SetTransparency sets transparency.
-- 
2.43.0


From 82ef7902c39b526678fa71cc335b72fd4276e658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:23 +0000
Subject: [PATCH 56/63] fix: a compression level above the maximum sets the
 maximum

---
 gopdf.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/gopdf.go b/gopdf.go
index ea2e3ba..2eb2546 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -194,7 +194,6 @@ func (gp *GoPdf) SetCompressLevel(level int) {
 	} else if level > zlib.BestCompression {
 		fmt.Fprintf(os.Stderr, errfmt, "big", "BestCompression")
 		level = zlib.BestCompression
-		return
 	}
 	// sanity check complete
 	gp.compressLevel = level
-- 
2.43.0


From a81c4f9d3868c0cf73039e2e98d0a4333eb15215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:11 +0000
Subject: [PATCH 57/63] fix: text without a selected font is an error, not a
 panic

---
 subset_font_obj.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/subset_font_obj.go b/subset_font_obj.go
index c6f652c..f56281d 100644
--- a/subset_font_obj.go
+++ b/subset_font_obj.go
@@ -135,6 +135,10 @@ func (s *SubsetFontObj) SetTTFData(data []byte) error {
 
 // AddChars add char to map CharacterToGlyphIndex
 func (s *SubsetFontObj) AddChars(txt string) (string, error) {
+	if s == nil {
+		// no font is selected
+		return "", ErrMissingFontFamily
+	}
 	s.addCharsBuff = s.addCharsBuff[:0]
 	for _, runeValue := range txt {
 		if s.CharacterToGlyphIndex.KeyExists(runeValue) {
-- 
2.43.0


From 5b43695838e6bf5181577a9eb7ba947c29e1f1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:22 +0000
Subject: [PATCH 58/63] fix: links and anchors before the first page are
 ignored

---
 gopdf.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gopdf.go b/gopdf.go
index 2eb2546..2fc562a 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1821,6 +1821,9 @@ func (gp *GoPdf) AddInternalLink(anchor string, x, y, w, h float64) {
 }
 
 func (gp *GoPdf) addLink(option linkOption) {
+	if gp.curr.IndexOfPageObj < 0 {
+		return // there is no page to put the link on
+	}
 	page := gp.pdfObjs[gp.curr.IndexOfPageObj].(*PageObj)
 	linkObj := gp.addObj(annotObj{option, func() *GoPdf {
 		return gp
@@ -1830,6 +1833,9 @@ func (gp *GoPdf) addLink(option linkOption) {
 
 // SetAnchor creates a new anchor.
 func (gp *GoPdf) SetAnchor(name string) {
+	if gp.curr.IndexOfPageObj < 0 {
+		return // there is no page to lead to
+	}
 	y := gp.curr.pageSize.H - gp.curr.Y + float64(gp.curr.FontSize)
 	gp.anchors[name] = anchorOption{gp.curr.IndexOfPageObj, y}
 }
-- 
2.43.0


From 9c56de8139996bc6744b4f49ca1fd3ce8f0b73ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:25 +0000
Subject: [PATCH 59/63] fix: an outline added before the first page has no
 destination

---
 outlines_obj.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/outlines_obj.go b/outlines_obj.go
index 9c7ff7d..84b557f 100644
--- a/outlines_obj.go
+++ b/outlines_obj.go
@@ -235,7 +235,9 @@ func (o *OutlineObj) write(w io.Writer, objID int) error {
 	if o.count > 0 {
 		fmt.Fprintf(w, "  /Count %d\n", -o.count)
 	}
-	if o.hasHeight {
+	if o.dest <= 0 {
+		// The outline was added before any page: it has no destination.
+	} else if o.hasHeight {
 		fmt.Fprintf(w, "  /Dest [ %d 0 R /XYZ 90 %f 0 ]\n", o.dest, o.height)
 	} else {
 		fmt.Fprintf(w, "  /Dest [ %d 0 R /XYZ null null null ]\n", o.dest)
-- 
2.43.0


From 966b3040362b85f6b4e73e1612e26a9256262431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:26 +0000
Subject: [PATCH 60/63] fix: GetInfo panicked when no information had been set

---
 gopdf.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gopdf.go b/gopdf.go
index 2fc562a..6b7f420 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -2070,6 +2070,9 @@ func (gp *GoPdf) SetInfo(info PdfInfo) {
 
 // GetInfo get Document Information Dictionary
 func (gp *GoPdf) GetInfo() PdfInfo {
+	if gp.info == nil {
+		return PdfInfo{}
+	}
 	return *gp.info
 }
 
-- 
2.43.0


From 324402a73dab2207429011ad86867d245746e98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:29 +0000
Subject: [PATCH 61/63] fix: Rectangle reports a radius that is too large as
 such

---
 gopdf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopdf.go b/gopdf.go
index 6b7f420..139f209 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -2175,7 +2175,7 @@ func (gp *GoPdf) Rectangle(x0 float64, y0 float64, x1 float64, y1 float64, style
 	} else {
 
 		if radius > (x1-x0) || radius > (y1-y0) {
-			return ErrInvalidRectangleCoordinates
+			return ErrInvalidRectangleRadius
 		}
 
 		degrees := []float64{}
-- 
2.43.0


From 40bcd7fea31aa1fbb0409bf5a41c5479db3b9c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:32 +0000
Subject: [PATCH 62/63] fix: masked images are turned about the centre of what
 is seen, before they are flipped

---
 cache_content_image.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/cache_content_image.go b/cache_content_image.go
index 9e4e3f6..3fed0f2 100644
--- a/cache_content_image.go
+++ b/cache_content_image.go
@@ -57,8 +57,16 @@ func (c *cacheContentImage) computeMaskImageRotateTrMt() string {
 		return ""
 	}
 
-	x := c.x + c.rect.W/2
-	y := c.y + c.rect.H/2
+	w := c.rect.W
+	h := c.rect.H
+
+	if c.crop != nil {
+		w = c.crop.Width
+		h = c.crop.Height
+	}
+
+	x := c.x + w/2
+	y := c.y + h/2
 
 	rotateMat := computeRotateTransformationMatrix(x, y, angle, c.pageHeight)
 
@@ -83,6 +91,12 @@ func (c *cacheContentImage) write(writer io.Writer, protection *PDFProtection) e
 		contentStream += fmt.Sprintf("/GS%d gs\n", extGStateIndex)
 	}
 
+	// after the graphics states (the mask does not turn with the image) and before
+	// the flips, so that the centre is where the image is seen
+	if c.withMask {
+		contentStream += c.computeMaskImageRotateTrMt()
+	}
+
 	if c.horizontalFlip || c.verticalFlip {
 		fh := "1"
 		if c.horizontalFlip {
@@ -134,12 +148,7 @@ func (c *cacheContentImage) write(writer io.Writer, protection *PDFProtection) e
 		}
 	}
 
-	var maskImageRotateMat string
-	if c.withMask {
-		maskImageRotateMat = c.computeMaskImageRotateTrMt()
-	}
-
-	contentStream += fmt.Sprintf("q\n %s %0.2f 0 0\n %0.2f %0.2f %0.2f cm /I%d Do \nQ\n", maskImageRotateMat, width, height, x, y, c.index+1)
+	contentStream += fmt.Sprintf("q\n %0.2f 0 0\n %0.2f %0.2f %0.2f cm /I%d Do \nQ\n", width, height, x, y, c.index+1)
 
 	contentStream += "Q\n"
 
-- 
2.43.0


From 5cbc86d49d1ba5e1757ae95f24d1cfef6913c081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:45 +0000
Subject: [PATCH 63/63] fix: an image holder can be used again, as an image, as
 a mask and in another document

---
 image_holder.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/image_holder.go b/image_holder.go
index de2b768..5d31e51 100644
--- a/image_holder.go
+++ b/image_holder.go
@@ -8,7 +8,8 @@ import (
 	"os"
 )
 
-// ImageHolder hold image data
+// ImageHolder hold image data. It is read to its end each time the image is embedded, as an
+// image, as a mask or in another document; the holders made here can be read again then.
 type ImageHolder interface {
 	ID() string
 	io.Reader
@@ -33,6 +34,7 @@ func ImageHolderByReader(r io.Reader) (ImageHolder, error) {
 type imageBuff struct {
 	id string
 	bytes.Buffer
+	pos int // what was read of the buffer
 }
 
 func newImageBuff(b []byte) (*imageBuff, error) {
@@ -79,3 +81,15 @@ func newImageBuffByReader(r io.Reader) (*imageBuff, error) {
 func (i *imageBuff) ID() string {
 	return i.id
 }
+
+// Read reads the image data, and again from its start once its end was reported
+func (i *imageBuff) Read(p []byte) (int, error) {
+	data := i.Bytes()
+	if i.pos == len(data) {
+		i.pos = 0
+		return 0, io.EOF
+	}
+	n := copy(p, data[i.pos:])
+	i.pos += n
+	return n, nil
+}
-- 
2.43.0

