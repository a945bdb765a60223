package gopdf

import "strconv"

// vPage adds content of one of several kinds to the current page.
func c01Draw(pdf *GoPdf, k int) {
	switch k {
	case 1:
		pdf.Line(vFloat("x", 0, 600), vFloat("y", -10, 900), 30, 40)
	case 2:
		pdf.SetXY(vFloat("x", 0, 600), 50)
		pdf.SetFont("f", "", 12)
		pdf.Text("AB")
	case 3:
		pdf.AddExternalLink("http://a", vFloat("x", 0, 600), 2, 3, 4)
		pdf.Oval(1, 2, 30, 40)
	case 4:
		pdf.AddOutline("A")
		pdf.SetTransparency(Transparency{Alpha: 0.5, BlendModeType: Multiply})
		pdf.RectFromUpperLeftWithStyle(1, vFloat("y", 0, 900), 3, 4, "FD")
	}
}

// c01Again adds to a document that was written and writes it again.
func c01Again(pdf *GoPdf) {
	k := vChoice("more", 4)
	if k == 0 {
		return
	}
	if k < 3 {
		pdf.AddPage()
	} else {
		pdf.SetInfo(PdfInfo{Title: "u"})
	}
	if k > 1 {
		pdf.Line(1, vFloat("y9", 0, 900), 3, 4)
		pdf.AddOutline("B")
		pdf.AddExternalLink("http://b", 1, 2, 3, 4)
	}
	d := vOut8(pdf)
	vCheckFile(d)
	vCheckRefs(d)
}

// Documents of 0..3 pages with every mix of content kinds, compression on or off, document info on or off, written once or extended and written again: numbering, xref offsets, startxref, trailer.
// symgo time=40s
func H_C01_docs() {
	pdf := vMini(Config{PageSize: *PageSizeA4}, vStdFont(3))
	if vBool("nocomp") {
		pdf.SetNoCompression()
	}
	if vBool("info") {
		pdf.SetInfo(PdfInfo{Title: "t", Author: "someone"})
	}
	n := vChoice("pages", 4)
	for i := 0; i < n; i++ {
		pdf.AddPage()
		c01Draw(pdf, vChoice("draw", 5))
	}
	vReach("pages" + strconv.Itoa(n))
	d := vOut8(pdf)
	vCheckFile(d)
	vObsI("bytes", len(d.B))
	if n < 3 {
		c01Again(pdf)
	}
}

// Objects whose size is any number in 0..200000 (so offsets cross every digit boundary up to a million): every later xref entry and startxref follow.
// symgo time=40s
func H_C01_sizes() {
	pdf := vMini(Config{PageSize: *PageSizeA4}, nil)
	pdf.AddPage()
	pdf.Line(1, 2, 3, 4)
	hi := 3000000
	if vTier() > 0 {
		hi = 15000000
	}
	b := vBlob("stream", 0, hi)
	id := pdf.GetNextObjectID()
	data := "<</Length " + strconv.Itoa(len(b)) + ">>\nstream\n" + string(b) + "\nendstream\n"
	pdf.ImportObjects(map[int]string{id: data, id + 1: "<</K 1>>\n"}, id)
	pdf.AddPage()
	d := vOut8(pdf)
	vCheckFile(d)
	vReach("ok")
	vObsI("bytes", len(d.B))
	vObsI("start", d.StartX)
}

// Drawing with any coordinates (numbers of any printed width): the content lengths and all following offsets follow.
// symgo time=30s
func H_C01_coords() {
	pdf := vMini(Config{PageSize: *PageSizeA4}, nil)
	pdf.SetNoCompression()
	pdf.AddPage()
	pdf.Line(vFloat("x1", -5, 100000), vFloat("y1", -1e5, 1e5), vFloat("x2", 0, 9), 40)
	pdf.SetLineWidth(vFloat("lw", 0, 2000))
	pdf.AddPage()
	d := vOut8(pdf)
	vCheckFile(d)
	for _, o := range d.Objs {
		if o.HasS {
			vAssert(o.O.get("Length").I <= o.SEnd-o.SOff && o.O.get("Length").I >= o.SEnd-o.SOff-1, "Length is the size of the stream")
		}
	}
	vReach("ok")
	vObsI("bytes", len(d.B))
}

// Encrypted documents: the Encrypt entry refers to an object in the table, offsets hold.
// symgo time=25s
func H_C01_encrypted() {
	cfg := Config{PageSize: *PageSizeA4, Protection: PDFProtectionConfig{UseProtection: true, Permissions: PermissionsPrint, OwnerPass: []byte("o"), UserPass: []byte("u")}}
	pdf := vMini(cfg, vStdFont(2))
	n := 1 + vChoice("pages", 2)
	for i := 0; i < n; i++ {
		pdf.AddPage()
		c01Draw(pdf, vChoice("draw", 5))
	}
	d := vOut8(pdf)
	vCheckFile(d)
	e := d.Trailer.get("Encrypt")
	vAssert(e.K == 'r' && d.obj(e.I) != nil && d.obj(e.I).O.get("Filter").S == "Standard", "trailer Encrypt refers to the encryption dictionary")
	vAssert(d.Trailer.has("ID"), "trailer has ID when encrypted")
	vObsI("bytes", len(d.B))
	c01Again(pdf)
}
