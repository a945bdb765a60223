package gopdf

import (
	"bytes"
	"io"

	"github.com/phpdave11/gofpdi"
)

// c27Source is a document with pages of one size: its bytes and how they read.
type c27Source struct {
	data []byte
	d    *vDoc
	w, h float64
	trim Box
}

func c27Make(name string, pages, kind int, w, h float64) *c27Source {
	s := &c27Source{w: w, h: h, trim: Box{Left: 10, Top: 20, Right: w - 30, Bottom: h - 40}}
	pdf := &GoPdf{}
	pdf.Start(Config{PageSize: Rect{W: w, H: h}, TrimBox: s.trim})
	if kind&1 == 0 {
		pdf.SetNoCompression()
	}
	pdf.AddTTFFontData("f", vStdFont(3).build())
	pdf.SetFont("f", "", 10)
	for i := 0; i < pages; i++ {
		pdf.AddPage()
		pdf.Line(1, 2, float64(len(name)*10+i), 30)
		switch (kind/2 + i) % 4 {
		case 1:
			pdf.Text("AB")
		case 2:
			pdf.ImageByHolder(vHolder(name, vPixels(2, 1, 6, vRaw(2, 1, 6))), 5, 6, &Rect{W: 10, H: 10})
			pdf.Text("C")
		case 3:
			pdf.SetTransparency(Transparency{Alpha: 0.5, BlendModeType: Multiply})
			pdf.RectFromUpperLeft(3, 4, 5, 6)
			pdf.ClearTransparency()
			pdf.ImageByHolder(vHolder(name, vPixels(1, 1, 3, vRaw(1, 1, 3))), 5, 6, nil)
		}
	}
	s.data = pdf.GetBytesPdf()
	s.d = vParse(s.data)
	return s
}

func (s *c27Source) stream() *io.ReadSeeker {
	rs := io.ReadSeeker(bytes.NewReader(s.data))
	return &rs
}

// c27Same: an object of the output is the same as one of the source, with all that it refers to.
func c27Same(d, e *vDoc, a, b *vO, depth int, what string) {
	if depth > 12 {
		return
	}
	if a.K == 'r' || b.K == 'r' {
		vAssert(a.K == b.K, what+": the same kind of value")
		if a.K != b.K {
			return
		}
		p, q := d.obj(a.I), e.obj(b.I)
		vAssert(p != nil && q != nil, what+": everything a page refers to is imported")
		if p == nil || q == nil {
			return
		}
		vAssert(p.HasS == q.HasS, what+": streams stay streams")
		if p.HasS && q.HasS {
			x, y := p.Stream, q.Stream
			if x != y && len(x) > len(y) {
				x = x[:len(y)]
			}
			vAssert(vStrEq(x, y), what+": the bytes of streams are unchanged")
		}
		c27Same(d, e, p.O, q.O, depth+1, what)
		return
	}
	vAssert(a.K == b.K, what+": the same kind of value")
	if a.K != b.K {
		return
	}
	switch a.K {
	case 'n':
		vAssert(vNear(a.F, b.F, 1e-6), what+": the same number")
	case 'd':
		for i, k := range b.Keys {
			if k == "Length" || k == "Parent" {
				continue
			}
			c27Same(d, e, a.get(k), b.Vals[i], depth+1, what+" "+k)
		}
	case 'a':
		vAssert(len(a.Vals) == len(b.Vals), what+": arrays stay as long")
		for i := range b.Vals {
			if i < len(a.Vals) {
				c27Same(d, e, a.Vals[i], b.Vals[i], depth+1, what)
			}
		}
	default:
		vAssert(vStrEq(a.S, b.S), what+": the same value")
	}
}

type c27Use struct {
	src        *c27Source
	page       int
	trim       bool
	x, y, w, h float64 // where it was put, in points
	pageH      float64
}

// c27Check: mark m of the output's page shows page u.page of its source at its place.
func c27Check(d *vDoc, pg int, m vMark, u c27Use) {
	o := d.obj(d.res(pg, "XObject").get(m.Name).I)
	vAssert(o != nil && o.HasS && o.O.get("Subtype").S == "Form", "an imported page is a form in the file")
	if o == nil || !o.HasS {
		return
	}
	data := []byte(o.Stream)
	if o.O.has("Filter") {
		x, ok := vInflate(data)
		vAssert(ok, "the form can be read")
		data = x
	}
	vSameOps(string(data), string(u.src.d.content(u.page)), 0, "imported content")
	res := u.src.d.pages()[u.page].O.get("Resources")
	fr := o.O.get("Resources")
	if res.K == 'r' {
		res = u.src.d.obj(res.I).O
	}
	if fr.K == 'r' {
		if r := d.obj(fr.I); r != nil {
			fr = r.O
		}
	}
	c27Same(d, u.src.d, fr, res, 0, "resources")
	// the box of the page is shown at the place
	bx := []float64{0, 0, u.src.w, u.src.h}
	if u.trim {
		t := u.src.trim
		bx = []float64{t.Left, t.Top, t.Right, t.Bottom}
	}
	bb := o.O.get("BBox")
	vAssert(len(bb.Vals) == 4, "a form has its box")
	if len(bb.Vals) != 4 {
		return
	}
	for i := range bx {
		vAssert(vNear(bb.Vals[i].F, bx[i], 0.006), "the form has the box of its page")
	}
	fm := vIdent()
	if mt := o.O.get("Matrix"); mt.K == 'a' && len(mt.Vals) == 6 {
		v := mt.Vals
		fm = vMat{v[0].F, v[1].F, v[2].F, v[3].F, v[4].F, v[5].F}
	}
	mm := fm.mul(m.G.M)
	lo, hi := mm.at(bx[0], bx[1]), mm.at(bx[2], bx[3])
	tol := 0.03
	vAssert(vPtNear(lo, u.x, u.pageH-u.y-u.h, tol) && vPtNear(hi, u.x+u.w, u.pageH-u.y, tol), "an imported page is drawn at the place and in the size given")
	vAssert(vNear(mm.B, 0, 1e-9) && vNear(mm.C, 0, 1e-9), "an imported page is drawn upright")
}

func c27Marks(d *vDoc, pg int) []vMark {
	var r []vMark
	for _, m := range d.marks(pg) {
		if m.Op == "Do" {
			if o := d.obj(d.res(pg, "XObject").get(m.Name).I); o == nil || o.O.get("Subtype").S != "Image" {
				r = append(r, m)
			}
		}
	}
	return r
}

// A page of a source of any size (whole or its trim box), drawn at any place of pages
// of any size, in any size, with one length or none left to the library, in any unit,
// with the document's own importer or a given one.
// symgo time=40s ttime=120s
func H_C27_place() {
	w, h := 300.0, 400.0
	if vChoice("wide", 2) == 1 {
		w, h = 360, 200
	}
	kind := vChoice("kind", 8)
	s := c27Make("a", 2, kind, w, h)
	pw, ph := vFloat("pw", 100, 600), vFloat("ph", 100, 600)
	cfg := Config{PageSize: Rect{W: 595, H: 842}}
	k := vUnit(&cfg, vChoice("unit", 2+vTier()*3))
	cfg.PageSize = Rect{W: 595 / k, H: 842 / k}
	pdf := &GoPdf{}
	if kind&2 == 0 {
		pdf.Start(cfg)
	} else {
		pdf.StartWithImporter(cfg, gofpdi.NewImporter())
	}
	pdf.AddPage()
	if vChoice("own", 2) == 1 {
		pdf.AddPageWithOption(PageOption{PageSize: &Rect{W: pw / k, H: ph / k}})
	} else {
		pw, ph = 595, 842
		pdf.AddPage()
	}
	pageno := 1 + vChoice("page", 2)
	u := c27Use{src: s, page: pageno - 1, trim: vChoice("trim", 2) == 1, pageH: ph}
	bw, bh := w, h
	if u.trim {
		bw, bh = s.trim.Right-s.trim.Left, s.trim.Bottom-s.trim.Top
	}
	box := []string{"/MediaBox", "/TrimBox"}[vIteI(u.trim, 1, 0)]
	t := -1
	if vChoice("file", 2) == 0 {
		t = pdf.ImportPageStream(s.stream(), pageno, box)
	} else {
		t = pdf.ImportPage(vFile("s.pdf", s.data), pageno, box)
	}
	u.x, u.y = vFloat("x", 0, 500), vFloat("y", 0, 500)
	lens := vChoice("lengths", 4)
	if lens&1 != 0 {
		u.w = vFloat("w", 1, 500)
	}
	if lens&2 != 0 {
		u.h = vFloat("h", 1, 500)
	}
	at := 1
	if vChoice("back", 2) == 1 {
		pdf.SetPage(1)
		u.pageH = 842
		at = 0
	}
	pdf.UseImportedTemplate(t, u.x/k, u.y/k, u.w/k, u.h/k)
	switch lens {
	case 0:
		u.w, u.h = bw, bh
	case 1:
		u.h = u.w * bh / bw
	case 2:
		u.w = u.h * bw / bh
	}
	d := vOut8(pdf)
	vCheckFile(d)
	vCheckRefs(d)
	if !d.OK {
		return
	}
	for pg := 0; pg < 2; pg++ {
		ms := c27Marks(d, pg)
		vAssert(len(ms) == vIteI(pg == at, 1, 0), "an imported page is drawn once, on the current page")
		if pg == at && len(ms) == 1 {
			c27Check(d, pg, ms[0], u)
		}
	}
	vReach("done")
}

// Pages of two sources, imported in any order and with other calls between, and drawn
// when all are imported or at once: each place shows its own page.
// symgo time=25s ttime=200s
func H_C27_many() {
	srcs := []*c27Source{c27Make("a", 2, 2, 300, 400), c27Make("bb", 2, 5, 360, 200)}
	srcs[0].trim, srcs[1].trim = Box{}, Box{}
	streams := []*io.ReadSeeker{srcs[0].stream(), srcs[1].stream()}
	files := []string{"", ""}
	for k := range files {
		if vChoice("file"+vItoa(k), 2) == 1 {
			files[k] = vFile("s"+vItoa(k)+".pdf", srcs[k].data)
		}
	}
	pdf := &GoPdf{}
	pdf.Start(Config{PageSize: *PageSizeA4})
	pdf.AddPage()
	pdf.AddTTFFontData("f", vStdFont(3).build())
	pdf.SetFont("f", "", 10)
	n := 3 + vTier()
	late := vChoice("late", 2) == 1
	var us []c27Use
	var ts []int
	draw := func(i int) {
		pdf.UseImportedTemplate(ts[i], us[i].x, us[i].y, us[i].w, us[i].h)
	}
	for i := 0; i < n; i++ {
		nm := vItoa(i)
		k := vChoice("src"+nm, 2)
		p := vChoice("page"+nm, 2)
		if files[k] == "" {
			ts = append(ts, pdf.ImportPageStream(streams[k], p+1, "/MediaBox"))
		} else {
			ts = append(ts, pdf.ImportPage(files[k], p+1, "/MediaBox"))
		}
		us = append(us, c27Use{src: srcs[k], page: p, x: vFloat("x"+nm, 0, 500), y: 50, w: 100, h: vFloat("h"+nm, 1, 500), pageH: PageSizeA4.H})
		if !late {
			draw(i)
		}
		switch (i + vIteI(late, 1, 0)) % 3 {
		case 0:
			pdf.Text("AB")
			pdf.AddColorSpaceRGB("cs"+nm, 1, 2, 3)
		case 1:
			pdf.ImageByHolder(vHolder("i"+nm, vPixels(1, 1, 6, vRaw(1, 1, 6))), 1, 2, nil)
			pdf.AddExternalLink("http://x", 1, 2, 3, 4)
		}
	}
	if late {
		for i := range us {
			draw(i)
		}
	}
	d := vOut8(pdf)
	vCheckFile(d)
	vCheckRefs(d)
	if !d.OK {
		return
	}
	ms := c27Marks(d, 0)
	vAssert(len(ms) == n, "every imported page is drawn as often as it is asked for")
	if len(ms) != n {
		return
	}
	for i, m := range ms {
		c27Check(d, 0, m, us[i])
	}
	vReach("done")
}

// All pages of a source at once, after other pages and in any unit: one page each, in order.
// symgo time=40s ttime=120s steps=20000000
func H_C27_all() {
	n := 1 + vChoice("n", 3)
	s := c27Make("a", n, vChoice("kind", 2+vTier()*6), 300, 400)
	cfg := Config{}
	k := vUnit(&cfg, vChoice("unit", 7))
	W, H := vFloat("W", 300, 700), vFloat("H", 300, 900)
	cfg.PageSize = Rect{W: W / k, H: H / k}
	pdf := &GoPdf{}
	pdf.Start(cfg)
	before := vChoice("before", 2)
	for i := 0; i < before; i++ {
		pdf.AddPage()
	}
	trim := vChoice("trim", 2) == 1
	box := []string{"/MediaBox", "/TrimBox"}[vIteI(trim, 1, 0)]
	var err error
	switch vChoice("how", 4) {
	case 3:
		err = pdf.ImportPagesFromSource(vFile("s.pdf", s.data), box)
	case 0:
		err = pdf.ImportPagesFromSource(s.data, box)
	case 1:
		err = pdf.ImportPagesFromSource(s.stream(), box)
	default:
		err = pdf.ImportPagesFromSource(io.ReadSeeker(bytes.NewReader(s.data)), box)
	}
	vAssert(err == nil, "the pages of a source are imported")
	if vChoice("twice", 2) == 1 {
		vAssert(pdf.ImportPagesFromSource(s.data, box) == nil, "the pages of a source are imported")
		n *= 2
	}
	vAssert(pdf.GetNumberOfPages() == before+n, "there is one page for each page of the source")
	d := vOut8(pdf)
	vCheckFile(d)
	vCheckRefs(d)
	if !d.OK {
		return
	}
	vAssert(len(d.pages()) == before+n, "there is one page for each page of the source")
	for pg := range d.pages() {
		ms := c27Marks(d, pg)
		vAssert(len(ms) == vIteI(pg >= before, 1, 0), "each page shows its own page of the source")
		if pg < before || len(ms) != 1 {
			continue
		}
		u := c27Use{src: s, page: (pg - before) % len(s.d.pages()), trim: trim, w: 300, h: 400, pageH: H}
		if trim {
			u.w, u.h = s.trim.Right-s.trim.Left, s.trim.Bottom-s.trim.Top
		}
		c27Check(d, pg, ms[0], u)
	}
	vReach("done")
}

// Several sources one after the other, each only in use during its call, or handed
// over in the same variable: every page is one of its own source.
// symgo time=10s ttime=60s reps=60
func H_C27_sources() {
	n := 2 + vChoice("n", 2)
	how := vChoice("how", 5)
	pdf := &GoPdf{}
	pdf.Start(Config{PageSize: *PageSizeA4})
	var ss []*c27Source
	var rs io.ReadSeeker
	var us []c27Use
	for i := 0; i < n; i++ {
		s := c27Make(string(rune('a'+i)), 1, 2*vChoice("kind"+vItoa(i), 2), 300, float64(400-10*i))
		ss = append(ss, s)
		us = append(us, c27Use{src: s, w: 300, h: s.h, pageH: PageSizeA4.H})
		vGC()
		switch how {
		case 0:
			vAssert(pdf.ImportPagesFromSource(s.data, "/MediaBox") == nil, "the pages of a source are imported")
		case 1:
			pdf.AddPage()
			pdf.UseImportedTemplate(pdf.ImportPageStream(s.stream(), 1, "/MediaBox"), 0, 0, 0, 0)
		case 3:
			p := vFile("s"+vItoa(i)+".pdf", s.data)
			sz := pdf.GetPageSizes(p)
			vAssert(sz[1]["/MediaBox"]["h"] == s.h, "the sizes of pages are those of the source")
			pdf.AddPage()
			pdf.UseImportedTemplate(pdf.ImportPage(p, 1, "/MediaBox"), 0, 0, 0, 0)
		case 4:
			vAssert(pdf.ImportPagesFromSource(vFile("s"+vItoa(i)+".pdf", s.data), "/MediaBox") == nil, "the pages of a source are imported")
		default:
			rs = bytes.NewReader(s.data)
			sz := pdf.GetStreamPageSizes(&rs)
			vAssert(sz[1]["/MediaBox"]["h"] == s.h, "the sizes of pages are those of the source")
			pdf.AddPage()
			pdf.UseImportedTemplate(pdf.ImportPageStream(&rs, 1, "/MediaBox"), 0, 0, 0, 0)
		}
	}
	d := vOut8(pdf)
	vCheckFile(d)
	if !d.OK {
		return
	}
	vAssert(len(d.pages()) == n, "there is one page for each source")
	for pg := range d.pages() {
		ms := c27Marks(d, pg)
		vAssert(len(ms) == 1, "each page shows a page of its source")
		if len(ms) == 1 && pg < n {
			c27Check(d, pg, ms[0], us[pg])
		}
	}
	vReach("done")
}

// c27Foreign is a document of another make: small objects of every kind, shared and
// referring to one another.
func c27Foreign(val string, split bool) *c27Source {
	objs := []string{
		"<</Type /Catalog /Pages 2 0 R>>",
		"<</Type /Pages /Kids [3 0 R 4 0 R] /Count 2>>",
		"<</Type /Page /Parent 2 0 R /MediaBox [0 0 300 400] /Resources <</ExtGState <</G0 <</LW 7 0 R>> /G1 8 0 R>> /Properties <</P 9 0 R>> /XObject <</X 10 0 R>>>> /Contents 5 0 R>>",
		"<</Type /Page /Parent 2 0 R /MediaBox [0 0 300 400] /Resources 11 0 R /Contents [5 0 R 6 0 R]>>",
		"<</Length 16>>\nstream\n1 w 1 2 m 3 4 l S\nendstream",
		"<</Length 5>>\nstream\n\n2 w \nendstream",
		"5",
		"<</Type /ExtGState /LW 7 0 R /D [[1 7 0 R] 0] /Font [9 0 R 2.5]>>",
		val,
		"<</Type /XObject /Subtype /Form /BBox [0 0 7 0 R 7 0 R] /Length 0>>\nstream\n\nendstream",
		"<</ExtGState <</G1 8 0 R>> /Properties <</P 9 0 R /Q <</R 7 0 R>>>>>>",
	}
	if !split {
		objs[3] = "<</Type /Page /Parent 2 0 R /MediaBox [0 0 300 400] /Resources 11 0 R /Contents 6 0 R>>"
	}
	objs[4] = "<</Length 18>>\nstream\n1 w 1 2 m 3 4 l S\n\nendstream"
	b := "%PDF-1.4\n"
	x := "0000000000 65535 f \n"
	pad := func(n int) string {
		s := vItoa(n)
		for len(s) < 10 {
			s = "0" + s
		}
		return s
	}
	for i, o := range objs {
		x += pad(len(b)) + " 00000 n \n"
		b += vItoa(i+1) + " 0 obj\n" + o + "\nendobj\n"
	}
	at := len(b)
	b += "xref\n0 " + vItoa(len(objs)+1) + "\n" + x + "trailer\n<</Size " + vItoa(len(objs)+1) + " /Root 1 0 R>>\nstartxref\n" + vItoa(at) + "\n%%EOF\n"
	return &c27Source{data: []byte(b), d: vParse([]byte(b)), w: 300, h: 400}
}

// A source of another make: everything its pages refer to is there, however small and
// wherever it is shared.
// symgo time=15s
func H_C27_foreign() {
	vals := []string{"7", "/N", "[]", "<<>>", "(a)", "(s\\)t)", "true", "[7 0 R]", "<</A 7 0 R>>", "-1.5", "[[]]"}
	s := c27Foreign(vals[vChoice("val", len(vals))], vChoice("split", 2) == 1)
	pdf := &GoPdf{}
	pdf.Start(Config{PageSize: Rect{W: 300, H: 400}})
	var us []c27Use
	for i, n := 0, 1+vChoice("n", 3); i < n; i++ {
		p := vChoice("page"+vItoa(i), 2)
		pdf.AddPage()
		t := 0
		if vChoice("file", 2) == 1 {
			t = pdf.ImportPage(vFile("s.pdf", s.data), p+1, "/MediaBox")
		} else if i == 0 {
			t = pdf.ImportPageStream(s.stream(), p+1, "/MediaBox")
		} else {
			rs := io.ReadSeeker(bytes.NewReader(s.data))
			t = pdf.ImportPageStream(&rs, p+1, "/MediaBox")
		}
		pdf.UseImportedTemplate(t, 0, 0, 0, 0)
		us = append(us, c27Use{src: s, page: p, w: 300, h: 400, pageH: 400})
	}
	d := vOut8(pdf)
	vCheckFile(d)
	vCheckRefs(d)
	if !d.OK {
		return
	}
	for pg, u := range us {
		ms := c27Marks(d, pg)
		vAssert(len(ms) == 1, "each page shows a page of its source")
		if len(ms) == 1 {
			c27Check(d, pg, ms[0], u)
		}
	}
	vReach("done")
}
