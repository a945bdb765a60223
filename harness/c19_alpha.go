package gopdf

// c19T is a transparency; the zero value is not one.
type c19T struct {
	a  float64
	bm string
}

type c19Ev struct {
	kind byte // s shape, t a glyph, i image
	t    c19T
	page int
	mask *c19T // the transparency of the image's mask
}

type c19Env struct {
	pdf  *GoPdf
	cur  c19T
	ev   []c19Ev
	page int

	plain bool // calls have no transparency of their own
	modes bool // all modes, not only two
}

var c19Modes = []BlendModeType{"", NormalBlendMode, Multiply, ColorDodge}

func c19Mode(k int) string {
	return []string{"Normal", "Normal", "Multiply", "ColorDodge"}[k]
}

func (e *c19Env) any(n string) (Transparency, c19T) {
	k := 2 * vChoice(n+"bm", 2)
	if e.modes {
		k = vChoice(n+"bm", 4)
	}
	a := 1.0
	if vChoice(n+"opaque", 2) == 0 {
		a = vFloat(n+"a", 0, 1)
	}
	return Transparency{Alpha: a, BlendModeType: c19Modes[k]}, c19T{a, c19Mode(k)}
}

func (e *c19Env) set(k int, n string) {
	switch k {
	case 0:
		t, w := e.any(n)
		vAssert(e.pdf.SetTransparency(t) == nil, "a transparency can be set")
		e.cur = w
	case 1:
		e.pdf.ClearTransparency()
		e.cur = c19T{1, "Normal"}
	case 2:
		e.pdf.AddPage()
		e.page++
	case 3:
		e.pdf.SetLineWidth(2)
	}
}

const c19NSet, c19NDraw = 4, 23

// own is a transparency of a call itself, or none, and what the call is to use.
func (e *c19Env) own(n string) (*Transparency, c19T) {
	if e.plain || vChoice(n+"own", 2) == 0 {
		return nil, e.cur
	}
	t, w := e.any(n + "o")
	return &t, w
}

func (e *c19Env) add(kinds string, t c19T) {
	for _, k := range []byte(kinds) {
		e.ev = append(e.ev, c19Ev{k, t, e.page, nil})
	}
}

func (e *c19Env) draw(k int, n string) {
	pdf := e.pdf
	ok := func(err error) { vAssert(err == nil, "a drawing call succeeds") }
	img := func() ImageHolder { return vHolder("i", vPixels(2, 1, 6, vRaw(2, 1, 6))) }
	switch k {
	case 0:
		pdf.Line(1, 2, 3, 4)
		e.add("s", e.cur)
	case 1:
		pdf.RectFromLowerLeft(1, 2, 3, 4)
		e.add("s", e.cur)
	case 2:
		pdf.RectFromUpperLeft(1, 2, 3, 4)
		e.add("s", e.cur)
	case 3:
		pdf.RectFromUpperLeftWithStyle(1, 2, 3, 4, "FD")
		e.add("s", e.cur)
	case 4:
		pdf.RectFromLowerLeftWithStyle(1, 2, 3, 4, "F")
		e.add("s", e.cur)
	case 5:
		t, w := e.own(n)
		ok(pdf.RectFromLowerLeftWithOpts(DrawableRectOptions{X: 1, Y: 2, Rect: Rect{W: 3, H: 4}, Transparency: t}))
		e.add("s", w)
	case 6:
		t, w := e.own(n)
		ok(pdf.RectFromUpperLeftWithOpts(DrawableRectOptions{X: 1, Y: 2, Rect: Rect{W: 3, H: 4}, PaintStyle: FillPaintStyle, Transparency: t}))
		e.add("s", w)
	case 7:
		ok(pdf.Rectangle(1, 2, 30, 40, "FD", 3, 2))
		e.add("s", e.cur)
	case 8:
		pdf.Polygon([]Point{{1, 2}, {3, 40}, {50, 6}}, "F")
		e.add("s", e.cur)
	case 9:
		pdf.Oval(1, 2, 3, 4)
		e.add("s", e.cur)
	case 10:
		pdf.Curve(1, 2, 3, 4, 5, 6, 7, 8, "FD")
		e.add("s", e.cur)
	case 11:
		ok(pdf.Text("A"))
		e.add("t", e.cur)
	case 12:
		ok(pdf.Cell(&Rect{W: 50, H: 20}, "A"))
		e.add("t", e.cur)
	case 13:
		t, w := e.own(n)
		ok(pdf.CellWithOption(&Rect{W: 50, H: 20}, "A", CellOption{Border: Left | Top, Transparency: t}))
		e.add("tss", w)
	case 14:
		ok(pdf.MultiCell(&Rect{W: 50, H: 50}, "A"))
		e.add("t", e.cur)
	case 15:
		t, w := e.own(n)
		ok(pdf.MultiCellWithOption(&Rect{W: 50, H: 50}, "A", CellOption{Align: Right, Transparency: t}))
		e.add("t", w)
	case 16:
		nm := "p" + n
		ok(pdf.PlaceHolderText(nm, 30))
		e.add("t", e.cur)
		ok(pdf.FillInPlaceHoldText(nm, "A", Left))
	case 17:
		ok(pdf.ImageByHolder(img(), 1, 2, &Rect{W: 30, H: 40}))
		e.add("i", e.cur)
	case 18:
		t, w := e.own(n)
		o := ImageOptions{X: 1, Y: 2, Rect: &Rect{W: 30, H: 40}, Transparency: t}
		if vChoice(n+"mask", 2) == 1 {
			o.Mask = &MaskOptions{Holder: img(), ImageOptions: ImageOptions{X: 1, Y: 2, Rect: &Rect{W: 30, H: 40}}}
		}
		ok(pdf.ImageByHolderWithOptions(img(), o))
		e.add("i", w)
	case 19:
		t, w := e.own(n)
		m, mw := Transparency{Alpha: 0.25, BlendModeType: Multiply}, c19T{0.25, "Multiply"}
		if !e.plain {
			m, mw = e.any(n + "m")
		}
		o := ImageOptions{X: 1, Y: 2, Rect: &Rect{W: 30, H: 40}, Transparency: t}
		o.Mask = &MaskOptions{Holder: img(), ImageOptions: ImageOptions{X: 1, Y: 2, Rect: &Rect{W: 30, H: 40}, Transparency: &m}}
		ok(pdf.ImageByHolderWithOptions(img(), o))
		e.add("i", w)
		e.ev[len(e.ev)-1].mask = &mw
	case 20:
		ok(pdf.Image(vFile("i.png", vPixels(2, 1, 6, vRaw(2, 1, 6))), 1, 2, &Rect{W: 30, H: 40}))
		e.add("i", e.cur)
	case 21:
		ok(pdf.ImageFrom(vGoImg(2, 1), 1, 2, &Rect{W: 30, H: 40}))
		e.add("i", e.cur)
	case 22:
		ok(pdf.ImageFromWithOption(vGoImg(2, 1), ImageFromOption{Format: "jpeg", X: 1, Y: 2}))
		e.add("i", e.cur)
	}
}

func c19New() *c19Env {
	pdf := vMini(Config{PageSize: *PageSizeA4}, vStdFont(3))
	e := &c19Env{pdf: pdf, cur: c19T{1, "Normal"}}
	pdf.AddPage()
	vAssert(pdf.SetFont("f", "", 10) == nil, "a loaded font can be selected")
	pdf.SetNoCompression()
	return e
}

func c19Same(d *vDoc, page int, m vMark, w c19T) { c19SameIn(d, d.res(page, "ExtGState"), m, w) }

func c19SameIn(d *vDoc, res *vO, m vMark, w c19T) {
	ca, CA, bm := 1.0, 1.0, "Normal"
	for _, g := range m.G.GSN {
		r := res.get(g)
		vAssert(r.K == 'r' && d.obj(r.I) != nil, "a graphics state used is in the file")
		if r.K != 'r' || d.obj(r.I) == nil {
			return
		}
		o := d.obj(r.I).O
		if o.has("ca") {
			ca = o.get("ca").F
		}
		if o.has("CA") {
			CA = o.get("CA").F
		}
		if o.has("BM") {
			bm = o.get("BM").S
		}
	}
	vAssert(vAnd(vNear(ca, w.a, 0.0011), vNear(CA, w.a, 0.0011)), "what is drawn has the alpha value of its own transparency, or of the one set last")
	vAssert(bm == w.bm, "what is drawn has the blend mode of its own transparency, or of the one set last")
}

// c19Mask checks the transparency of what is painted in the mask of an image.
func c19Mask(d *vDoc, page int, m vMark, w c19T) {
	n := 0
	for _, name := range m.G.GSN {
		s := d.obj(d.res(page, "ExtGState").get(name).I)
		if s == nil {
			continue
		}
		sm := d.obj(s.O.get("SMask").I)
		if sm == nil || d.obj(sm.O.get("G").I) == nil {
			continue
		}
		g := d.obj(sm.O.get("G").I)
		ops, bad := vOps([]byte(g.Stream))
		vAssert(bad == "", "the mask is a sequence of operands and operators")
		ms := vInterpFrom(ops, vGS{M: m.G.M})
		vAssert(len(ms) == 1 && ms[0].Op == "Do", "the mask is painted once")
		if len(ms) != 1 {
			return
		}
		r := d.res(page, "ExtGState") // a form without resources of its own has those of the page
		if g.O.has("Resources") {
			r = g.O.get("Resources")
			if r.K == 'r' && d.obj(r.I) != nil {
				r = d.obj(r.I).O
			}
			r = r.get("ExtGState")
		}
		c19SameIn(d, r, ms[0], w)
		n++
	}
	vAssert(n == 1, "the image has its mask")
}

func (e *c19Env) check() {
	d := vOut8(e.pdf)
	vCheckRefs(d)
	if !d.OK {
		return
	}
	k := 0
	for p := 0; p <= e.page; p++ {
		for _, m := range d.marks(p) {
			n, kind := 1, byte('s')
			switch m.Op {
			case "TJ":
				n, kind = len(m.Text)/4, 't'
			case "Do":
				kind = 'i'
			}
			for ; n > 0; n-- {
				vAssert(k < len(e.ev) && e.ev[k].kind == kind && e.ev[k].page == p, "what is painted is what was drawn, in order")
				if k >= len(e.ev) || e.ev[k].kind != kind {
					return
				}
				c19Same(d, p, m, e.ev[k].t)
				if e.ev[k].mask != nil {
					c19Mask(d, p, m, *e.ev[k].mask)
				}
				k++
			}
		}
	}
	vAssert(k == len(e.ev), "everything drawn is painted")
}

// Two settings (a transparency, none, a new page) with a drawing call of any
// kind between and after them, with or without a transparency of its own.
// symgo time=60s
func H_C19_two() {
	e := c19New()
	e.set(vChoice("a", c19NSet), "a")
	k := vChoice("d", c19NDraw)
	e.draw(k, "d")
	e.set(vChoice("b", c19NSet-1), "b")
	e.plain = vTier() == 0
	e.draw(k, "e")
	e.check()
}

// Any transparency and then every drawing call, once while it is set and once after.
// symgo time=20s
func H_C19_all() {
	e := c19New()
	e.modes = true
	e.set(0, "a")
	for k := 0; k < 18; k++ {
		if k != 5 && k != 6 && k != 13 && k != 15 {
			e.draw(k, "x"+vItoa(k))
		}
	}
	e.set(vChoice("b", 3), "b")
	for k := 0; k < 18; k++ {
		if k != 5 && k != 6 && k != 13 && k != 15 {
			e.draw(k, "y"+vItoa(k))
		}
	}
	e.check()
}

// Settings and drawing calls in any order.
// symgo time=300s tier=thorough
func H_C19_any() {
	e := c19New()
	e.modes = true
	for i := 0; i < 4; i++ {
		n := string(rune('a' + i))
		k := vChoice(n, c19NSet+c19NDraw)
		if k < c19NSet {
			e.set(k, n)
		} else {
			e.draw(k-c19NSet, n)
		}
	}
	e.draw(11, "x")
	e.draw(0, "y")
	e.check()
}

// A transparency is made of an alpha value from 0 to 1 and a blend mode that exists.
func H_C19_new() {
	a := vFloat("a", -2, 3)
	all := append([]string{""}, c19All...)
	k := vChoice("bm", len(all)+4)
	n := ""
	if k < len(all) {
		n = all[k]
		if n != "" {
			n = "/" + n
		}
	} else {
		n = []string{"Normal", "/normal", "/", "/HueX"}[k-len(all)]
	}
	t, err := NewTransparency(a, n)
	vAssert((err == nil) == vAnd(vAnd(a >= 0, a <= 1), k < len(all)), "exactly the alpha values from 0 to 1 and the blend modes of PDF are accepted")
	if err == nil {
		vAssert(vNear(t.Alpha, a, 1e-12), "the transparency has the alpha value given")
		if n == "" {
			n = "/Normal"
		}
		vAssert(t.BlendModeType == BlendModeType(n), "the transparency has the blend mode given")
	}
}

var c19All = []string{"Normal", "Hue", "Color", "Darken", "Screen", "Overlay", "Lighten", "Multiply", "Exclusion", "ColorBurn", "HardLight", "SoftLight", "Difference", "Saturation", "Luminosity", "ColorDodge"}

// Two transparencies of any two blend modes, with the same or different alpha values, set or given with the call.
// symgo time=20s
func H_C19_modes() {
	e := c19New()
	a := vFloat("a", 0, 1)
	how := vChoice("how", 2)
	for i, n := range []string{"first", "second"} {
		bm := c19All[vChoice(n, len(c19All))]
		if i == 1 && vChoice("other", 2) == 1 {
			a = vFloat("b", 0, 1)
		}
		t := Transparency{Alpha: a, BlendModeType: BlendModeType("/" + bm)}
		if how == 0 {
			vAssert(e.pdf.SetTransparency(t) == nil, "a transparency can be set")
			e.cur = c19T{a, bm}
			e.draw(3, n)
		} else {
			vAssert(e.pdf.RectFromUpperLeftWithOpts(DrawableRectOptions{X: 1, Y: 2, Rect: Rect{W: 3, H: 4}, Transparency: &t}) == nil, "a drawing call succeeds")
			e.add("s", c19T{a, bm})
		}
	}
	e.check()
}
