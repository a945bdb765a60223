package gopdf

import "bytes"

func c29Font(c *FontContainer, pdf *GoPdf, how int) {
	if how == 1 {
		vAssert(pdf.AddTTFFontFromFontContainer("f", c) == nil, "a font in a container can be used")
	} else {
		vAssert(pdf.AddTTFFontData("f", vStdFont(3).build()) == nil, "a well-formed font loads")
	}
}

// c29Doc is a document in progress: its calls come one at a time.
type c29Doc struct {
	pdf  *GoPdf
	ops  []int
	n    string
	at   int
	out  []byte
	keep bool
}

func (c *c29Doc) step(box *FontContainer, how int, cfg Config) bool {
	k := c.at
	c.at++
	switch {
	case k == 0:
		if !c.keep {
			c.pdf = &GoPdf{}
		}
		c.pdf.Start(cfg)
		c29Font(box, c.pdf, how)
		vAssert(c.pdf.AddTTFFontDataWithOption("g", vStdFont(2).build(), TtfOption{Style: Bold}) == nil, "a well-formed font loads")
		c.pdf.AddColorSpaceRGB("c0", 10, 20, 30)
		c.pdf.AddColorSpaceCMYK("c1", 10, 20, 30, 40)
		c.pdf.AddPage()
		vAssert(c.pdf.SetFont("f", "", 12) == nil, "a loaded font can be selected")
	case k <= len(c.ops):
		switch op := c.ops[k-1]; op {
		case c29Leave:
			c29Leaves(c.pdf)
		case c29Use:
			c29Uses(c.pdf)
		default:
			vOp(c.pdf, op, c.n+vItoa(k))
		}
	case k == len(c.ops)+1:
		b, err := c.pdf.GetBytesPdfReturnErr()
		vAssert(err == nil, "a document is written")
		c.out = b
	default:
		return false
	}
	return true
}

const c29Leave, c29Use = 1000, 1001

// c29Leaves sets everything that lasts.
func c29Leaves(pdf *GoPdf) {
	pdf.SetInfo(PdfInfo{Title: "a"})
	pdf.SetMargins(40, 50, 60, 70)
	pdf.SetNoCompression()
	pdf.SetLineWidth(3)
	pdf.SetCharSpacing(2)
	pdf.SetTextColor(1, 2, 3)
	pdf.SetGrayFill(0.5)
	pdf.SetTransparency(Transparency{Alpha: 0.5, BlendModeType: Multiply})
	pdf.PlaceHolderText("x", 50)
	pdf.AddColorSpaceRGB("c9", 1, 2, 3)
	pdf.AddOutline("old")
	pdf.AddPageWithOption(PageOption{PageSize: &Rect{W: 100, H: 200}, TrimBox: &Box{Left: 1, Top: 2, Right: 3, Bottom: 4}})
	pdf.SetXY(5, 6)
	pdf.SetAnchor("q")
	pdf.AddInternalLink("r", 1, 2, 3, 4)
}

// c29Uses uses everything that may have been left.
func c29Uses(pdf *GoPdf) {
	vAssert(pdf.GetInfo() == PdfInfo{}, "a document started anew has no information")
	vAssert(pdf.SetColorSpace("c9") != nil, "a document started anew has no colour spaces")
	vAssert(pdf.FillInPlaceHoldText("x", "AB", Left) != nil, "a document started anew has no place holders")
	pdf.AddInternalLink("q", 1, 2, 3, 4)
	pdf.Text("AB")
	pdf.Br(5)
	pdf.Cell(nil, "AC")
	pdf.Line(1, 2, 3, 4)
	pdf.SetNewY(100, 700)
	pdf.AddPage()
	pdf.RectFromUpperLeftWithStyle(1, 2, 3, 4, "F")
	pdf.AddOutline("new")
	pdf.SetAnchor("r")
}

func c29Container() *FontContainer {
	box := &FontContainer{}
	vAssert(box.AddTTFFontData("f", vStdFont(3).build()) == nil, "a well-formed font loads")
	return box
}

// c29Alone makes the document on its own.
func c29Alone(ops []int, n string, how int, cfg Config) []byte {
	c := &c29Doc{ops: ops, n: n}
	box := c29Container()
	for c.step(box, how, cfg) {
	}
	return c.out
}

func c29Cfg(k int) Config {
	cfg := Config{PageSize: *PageSizeA4}
	switch k {
	case 1:
		cfg = Config{PageSize: Rect{W: 210, H: 297}, Unit: UnitMM}
	case 2:
		cfg.Protection = PDFProtectionConfig{UseProtection: true, Permissions: PermissionsPrint, OwnerPass: []byte("o"), UserPass: []byte("u")}
	}
	return cfg
}

func c29Pair(a, b []int, how int, ca, cb Config, order func(i int) int) {
	vMem, vMemI = map[string]float64{}, map[string]int{}
	wantA := c29Alone(a, "a", how, ca)
	wantB := c29Alone(b, "b", how, cb)
	box := c29Container()
	x, y := &c29Doc{ops: a, n: "a"}, &c29Doc{ops: b, n: "b"}
	for i := 0; x.at < len(a)+2 || y.at < len(b)+2; i++ {
		turn := order(i)
		if turn == 0 && x.at < len(a)+2 || y.at >= len(b)+2 {
			x.step(box, how, ca)
		} else {
			y.step(box, how, cb)
		}
	}
	vAssert(vBytesEq(x.out, wantA) && vBytesEq(y.out, wantB), "a document does not depend on other documents")
	vReach("done")
}

// Two documents, each with any drawing call, made alternately: both are the
// documents that the same calls make on their own.
// symgo time=40s ttime=300s
func H_C29_calls() {
	vLite = true
	how := vChoice("how", 2)
	a, b := vChoice("a", vNOps), 0
	if vTier() > 0 {
		b = vChoice("b", vNOps)
	} else {
		// every call of one document meets every fourth of the other
		b = (a%4 + 4*vChoice("b", (vNOps+3)/4)) % vNOps
	}
	c29Pair([]int{a}, []int{b}, how, c29Cfg(0), c29Cfg(0), func(i int) int { return i & 1 })
}

// Two documents with texts and any other configuration, in any order of their calls.
// symgo time=20s ttime=200s
func H_C29_orders() {
	vLite = true
	how := vChoice("how", 2)
	ca, cb := c29Cfg(vChoice("ca", 3)), c29Cfg(vChoice("cb", 3))
	ops := []int{9, 11, 17, 20}
	a := []int{ops[vChoice("a", 4)], 9}
	b := []int{ops[1+vChoice("b", 2)]}
	c29Pair(a, b, how, ca, cb, func(i int) int { return vChoice("turn"+vItoa(i), 2) })
}

// A document started anew with the same variable has nothing of the one before.
// symgo time=25s ttime=60s
func H_C29_restart() {
	vLite = true
	ca, cb := c29Cfg(vChoice("ca", 3)), c29Cfg(vChoice("cb", 3))
	var a []int
	read := vChoice("read", 2) == 1
	if !read {
		a = []int{vChoice("a", vNOps+1)}
		if a[0] == vNOps {
			a[0] = c29Leave
		}
	}
	var b []int
	if !read {
		b = [][]int{{1}, {21}, {c29Use}}[vChoice("b", 3)]
	}
	vMem, vMemI = map[string]float64{}, map[string]int{}
	want := c29Alone(b, "b", 0, cb)
	c := &c29Doc{ops: a, n: "a", pdf: &GoPdf{}}
	again := &c29Doc{ops: b, n: "b", pdf: c.pdf, keep: true}
	box := c29Container()
	c.keep = true
	for c.step(box, 0, ca) {
	}
	if read {
		c.pdf.Read(make([]byte, 100))
	}
	for again.step(box, 0, cb) {
	}
	vAssert(vBytesEq(again.out, want), "a document started anew does not depend on what was in the variable")
	vAssert(again.pdf.GetNumberOfPages() == len(vParse(want).pages()), "a document started anew counts its own pages")
	if read {
		var got []byte
		buf := make([]byte, 4096)
		for i := 0; i < 10; i++ {
			k, err := again.pdf.Read(buf)
			got = append(got, buf[:k]...)
			if err != nil {
				break
			}
		}
		vAssert(vBytesEq(got, want), "a document started anew is read on its own")
	}
	vReach("done")
}

// One image holder (bytes, reader or file) used in two documents, as image, as mask, with a mask and again:
// each document is the one made with a holder of its own.
// symgo time=15s
func H_C29_holder() {
	data := vPixels(2, 1, 6, []byte{0, 1, 2, 3, 200, 5, 6, 7, 100})
	how := vChoice("how", 3)
	get := func() ImageHolder {
		var h ImageHolder
		var err error
		switch how {
		case 0:
			h, err = ImageHolderByBytes(data)
		case 1:
			h, err = ImageHolderByReader(bytes.NewReader(data))
		default:
			h, err = ImageHolderByPath(vFile("holder", data))
		}
		vAssert(err == nil, "a picture is accepted")
		return h
	}
	uses := [][]int{{vChoice("a0", 3), vChoice("a1", 3)}, {vChoice("b0", 3), vChoice("b1", 3)}}
	x := vFloat("x", 0, 100)
	place := func(pdf *GoPdf, h ImageHolder, use int) {
		var err error
		switch use {
		case 0:
			err = pdf.ImageByHolder(h, x, 2, nil)
		case 1:
			err = pdf.ImageByHolderWithOptions(h, ImageOptions{X: x, Y: 3, Rect: &Rect{W: 4, H: 5}, Mask: &MaskOptions{Holder: h, ImageOptions: ImageOptions{X: 6, Y: 7}}})
		default:
			return
		}
		vAssert(err == nil, "an image is drawn")
	}
	start := func() *GoPdf {
		pdf := &GoPdf{}
		pdf.Start(Config{PageSize: *PageSizeA4})
		pdf.AddPage()
		return pdf
	}
	var want [2][]byte
	for d := range uses {
		pdf := start()
		for _, u := range uses[d] {
			place(pdf, get(), u)
		}
		want[d], _ = pdf.GetBytesPdfReturnErr()
	}
	h := get()
	a, b := start(), start()
	for k := 0; k < 2; k++ {
		place(a, h, uses[0][k])
		place(b, h, uses[1][k])
	}
	for d, pdf := range []*GoPdf{a, b} {
		got, err := pdf.GetBytesPdfReturnErr()
		vAssert(err == nil && vBytesEq(got, want[d]), "a document does not depend on other documents")
	}
	vReach("done")
}

// A document made after a long one (a page of more than 64 KB, compressed or not, protected or not), and the long one again,
// are the documents that the same calls make first.
// symgo time=15s steps=60000000
func H_C29_large() {
	n := []int{50, 700, 3000}[vChoice("n", 3)]
	plain := vChoice("plain", 2) == 1
	cfg := c29Cfg(vChoice("cfg", 3))
	y := 5.0
	if cfg.Protection.UseProtection == false {
		y = vFloat("y", 0, 900)
	}
	mk := func(k int) []byte {
		pdf := &GoPdf{}
		pdf.Start(cfg)
		if plain {
			pdf.SetNoCompression()
		}
		pdf.AddPage()
		pdf.Line(1, y, 3, 4)
		for i := 0; i < k; i++ {
			pdf.Line(float64(i), float64(i%7), 300.5, 400.25)
		}
		b, err := pdf.GetBytesPdfReturnErr()
		vAssert(err == nil, "a document is written")
		return b
	}
	small := mk(2)
	large := mk(n)
	vAssert(vBytesEq(mk(2), small) && vBytesEq(mk(n), large), "a document does not depend on other documents")
	vReach("done")
}
