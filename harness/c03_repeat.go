package gopdf

import (
	"io"
	"os"
)

func c03Out(pdf *GoPdf, how int) []byte {
	switch how {
	case 0:
		s := &vSink{}
		_, err := pdf.WriteTo(s)
		vAssert(err == nil, "writing to a working writer succeeds")
		return s.b
	case 1:
		s := &vSink{}
		vAssert(pdf.Write(s) == nil, "writing to a working writer succeeds")
		return s.b
	}
	if how == 3 {
		var b []byte
		for i := 0; i < 4; i++ {
			p := make([]byte, 1<<15)
			n, err := pdf.Read(p)
			b = append(b, p[:n]...)
			if err != nil {
				vAssert(err == io.EOF, "Read ends with EOF")
				break
			}
		}
		return b
	}
	if how == 4 {
		p := vFile("out.pdf", []byte("what was there before"))
		vAssert(pdf.WritePdf(p) == nil, "writing to a file succeeds")
		b, err := os.ReadFile(p)
		vAssert(err == nil, "the file written is there")
		return b
	}
	if how == 5 {
		return pdf.GetBytesPdf()
	}
	b, err := pdf.GetBytesPdfReturnErr()
	vAssert(err == nil, "GetBytesPdfReturnErr succeeds")
	return b
}

// c03How is any of the ways out that can be repeated.
func c03How(n string) int { return []int{0, 1, 2, 4, 5}[vChoice(n, 5)] }

func c03Doc(prot bool, kind int, x float64) *GoPdf {
	cfg := Config{PageSize: *PageSizeA4}
	if prot {
		cfg.Protection = PDFProtectionConfig{UseProtection: true, Permissions: PermissionsPrint, OwnerPass: []byte("o"), UserPass: []byte("u")}
	}
	pdf := vMini(cfg, vStdFont(3))
	pdf.AddPage()
	pdf.SetFont("f", "", 12)
	switch kind {
	case 0:
		pdf.SetXY(x, 20)
		pdf.Text("AB")
		pdf.Line(x, 1, 2, 3)
	case 1:
		pdf.SetXY(x, 20)
		pdf.CellWithOption(&Rect{W: 100, H: 20}, "ABC", CellOption{Align: Center | Middle, Border: AllBorders, Float: Right})
		pdf.SetTextColor(1, 2, 3)
		pdf.Cell(nil, "B")
		pdf.MultiCell(&Rect{W: 30, H: 200}, "AB CA BB")
	case 2:
		pdf.AddOutline("A")
		pdf.AddOutlineWithPosition("B")
		pdf.SetTransparency(Transparency{Alpha: 0.5, BlendModeType: Multiply})
		pdf.RectFromUpperLeftWithStyle(x, 2, 3, 4, "FD")
		pdf.AddColorSpaceRGB("c", 1, 2, 3)
		pdf.SetColorSpace("c")
		pdf.Polygon([]Point{{1, 2}, {x, 4}, {5, 6}}, "D")
	case 3:
		pdf.AddExternalLink("http://a(b)", x, 2, 3, 4)
		pdf.SetAnchor("q")
		pdf.AddInternalLink("q", x, 2, 3, 4)
		pdf.Rotate(x, 10, 20)
		pdf.Oval(1, 2, x, 4)
		pdf.RotateReset()
		pdf.Curve(1, 2, 3, 4, 5, x, 7, 8, "D")
	case 4:
		pdf.SetXY(x, 20)
		pdf.PlaceHolderText("ph", 60)
		pdf.FillInPlaceHoldText("ph", "AB", Right)
		pdf.ImportTemplates(map[string]int{"/T1": 4})
		pdf.getContent().AppendStreamImportedTemplate("/T1", 1, 1, x, 5)
		pdf.SetLineWidth(x)
		pdf.SetLineType("dashed")
		pdf.SetCustomLineType([]float64{1, x}, 2)
		pdf.SaveGraphicsState()
		pdf.ClipPolygon([]Point{{1, 2}, {x, 4}, {5, 6}})
		pdf.RestoreGraphicsState()
		pdf.SetGrayFill(0.5)
		pdf.SetStrokeColorCMYK(1, 2, 3, 4)
		pdf.Rectangle(10, 10, 100, 100, "DF", 5, 3)
	}
	return pdf
}

// Output twice through any pair of output calls: byte-identical, both well formed, nothing appended or accumulated.
// symgo time=40s
func H_C03_twice() {
	kind := vChoice("kind", 5)
	pdf := c03Doc(vBool("encrypted"), kind, vFloat("x", 0, 500))
	if vBool("nocomp") {
		pdf.SetNoCompression()
	}
	if vBool("page2") {
		pdf.AddPage()
	}
	a := c03Out(pdf, c03How("out1"))
	b := c03Out(pdf, c03How("out2"))
	c := c03Out(pdf, 0)
	vAssert(vBytesEq(a, b), "a second output is byte-identical to the first")
	vAssert(vBytesEq(a, c), "a third output is byte-identical to the first")
	d := vParse(b)
	vAssert(d.OK, "the second output is well-formed PDF syntax")
	vCheckFile(d)
	vCheckRefs(d)
}

// Output in the middle of composing does not change the final document: composing with an intermediate output equals composing without it.
// symgo time=40s
func H_C03_midway() {
	kind := vChoice("kind", 5)
	prot := vBool("encrypted")
	y := vFloat("y", 0, 800)
	more := func(pdf *GoPdf) {
		pdf.Line(1, y, 2, 3)
		pdf.AddPage()
		pdf.SetXY(10, y)
		pdf.Text("CB")
		pdf.AddOutline("C")
	}
	x := vFloat("x", 0, 500)
	p1 := c03Doc(prot, kind, x)
	more(p1)
	a := c03Out(p1, 0)
	p2 := c03Doc(prot, kind, x)
	c03Out(p2, c03How("out"))
	more(p2)
	b := c03Out(p2, 0)
	if prot {
		d := vParse(b)
		vAssert(d.OK, "output after an intermediate output is well formed")
		vCheckFile(d)
		vCheckRefs(d)
		vAssert(len(d.pages()) == 2, "pages are listed once")
	} else {
		vAssert(vBytesEq(a, b), "an intermediate output does not change the final document")
	}
}

// Reading the document through Read after an intermediate output and further composing gives the current document.
func H_C03_readlater() {
	kind := vChoice("kind", 5)
	p := c03Doc(false, kind, 20)
	c03Out(p, c03How("out"))
	p.AddPage()
	p.Line(1, 2, 3, 4)
	b := c03Out(p, 3)
	a := c03Out(p, 0)
	vAssert(vBytesEq(a, b), "Read after an intermediate output gives the current document")
}

// Two documents built by the same calls are byte-identical whatever order maps are iterated in.
// symgo time=40s
func H_C03_deterministic() {
	f := vStdFont(4)
	f.omit = []string{"", "cvt fpgm", "prep", "cvt fpgm prep"}[vChoice("omit", 4)]
	build := func() []byte {
		pdf := vMini(Config{PageSize: *PageSizeA4}, f)
		pdf.AddTTFFontDataWithOption("g", vStdFont(2).build(), TtfOption{})
		pdf.AddPage()
		pdf.SetFont("f", "", 12)
		pdf.Text("DACB")
		pdf.SetFont("g", "", 12)
		pdf.Text("BA")
		pdf.ImportTemplates(map[string]int{"T1": 1, "T2": 2})
		pdf.SetTransparency(Transparency{Alpha: 0.5, BlendModeType: Multiply})
		pdf.Line(1, 2, 3, 4)
		pdf.SetTransparency(Transparency{Alpha: 0.25, BlendModeType: Screen})
		pdf.Line(1, 2, 3, 4)
		return c03Out(pdf, 0)
	}
	vMapOrder(true)
	a := build()
	vMapOrder(false)
	b := build()
	vAssert(vBytesEq(a, b), "the same calls give the same document")
}

// Any drawing call with any arguments: the second output is byte-identical to the first.
// symgo time=40s
func H_C03_ops() {
	cfg := Config{PageSize: *PageSizeA4}
	if vBool("encrypted") {
		cfg = Config{PageSize: *PageSizeA4, Protection: PDFProtectionConfig{UseProtection: true, Permissions: PermissionsPrint, OwnerPass: []byte("o"), UserPass: []byte("u")}}
	}
	pdf := vOpsDoc(cfg)
	vOp(pdf, vChoice("op", vNOps), "a")
	a := c03Out(pdf, 0)
	b := c03Out(pdf, 0)
	vAssert(vBytesEq(a, b), "a second output is byte-identical to the first")
}

// Any two drawing calls, with an output between them: the final document is that of the two calls alone.
// symgo time=60s ttime=300s
func H_C03_midops() {
	vLite = vTier() == 0
	vMem, vMemI = map[string]float64{}, map[string]int{}
	f := func(mid bool) []byte {
		pdf := vOpsDoc(Config{PageSize: *PageSizeA4})
		a := vC("op1", vNOps-1)
		if a == 35 {
			a = 36 // 35 starts a page
		}
		vOp(pdf, a, "a")
		if mid {
			c03Out(pdf, 0)
		}
		vOp(pdf, vC("op2", vNOps), "b")
		return c03Out(pdf, 0)
	}
	vAssert(vBytesEq(f(false), f(true)), "an intermediate output does not change the final document")
}
