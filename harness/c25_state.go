package gopdf

// c25St is what the caller has set so far on the current page.
type c25St struct {
	stroke, fill vCol
	lw           float64
	dash         []float64
	phase        float64
}

type c25Ev struct {
	kind byte // l stroked, f filled, b both, t a glyph
	st   c25St
	text vCol // colour of the text, for glyphs and underlines
	page int
}

type c25Env struct {
	pdf   *GoPdf
	st    c25St
	stack []c25St
	text  *vCol
	ev    []c25Ev
	page  int
	cs    map[string]vCol
}

func c25Start() c25St {
	return c25St{vCol{"G", []float64{0}, ""}, vCol{"g", []float64{0}, ""}, 1, nil, 0}
}

func (e *c25Env) textCol() vCol {
	if e.text != nil {
		return *e.text
	}
	return e.st.fill
}

func (e *c25Env) add(kinds string) {
	for _, k := range []byte(kinds) {
		ev := c25Ev{k, e.st, e.textCol(), e.page}
		if k == 'u' {
			ev.kind = 'f'
			ev.st.fill = ev.text
		}
		e.ev = append(e.ev, ev)
	}
}

func c25RGB(op string, r, g, b int) vCol {
	return vCol{op, []float64{float64(r) / 255, float64(g) / 255, float64(b) / 255}, ""}
}
func c25CMYK(op string, c, m, y, k int) vCol {
	return vCol{op, []float64{float64(c) / 100, float64(m) / 100, float64(y) / 100, float64(k) / 100}, ""}
}

// set performs one of the calls that change the state.
func (e *c25Env) set(k int, n string) {
	pdf := e.pdf
	b := func(s string) int { return vInt(n+s, 0, 255) }
	p := func(s string) int { return vInt(n+s, 0, 100) }
	switch k {
	case 0:
		r, g, c := b("r"), b("g"), b("b")
		pdf.SetStrokeColor(uint8(r), uint8(g), uint8(c))
		e.st.stroke = c25RGB("RG", r, g, c)
	case 1:
		r, g, c := b("r"), b("g"), b("b")
		pdf.SetFillColor(uint8(r), uint8(g), uint8(c))
		e.st.fill = c25RGB("rg", r, g, c)
	case 2:
		r, g, c := b("r"), b("g"), b("b")
		pdf.SetTextColor(uint8(r), uint8(g), uint8(c))
		t := c25RGB("rg", r, g, c)
		e.text = &t
	case 3:
		c, m, y, k := p("c"), p("m"), p("y"), p("k")
		pdf.SetTextColorCMYK(uint8(c), uint8(m), uint8(y), uint8(k))
		t := c25CMYK("k", c, m, y, k)
		e.text = &t
	case 4:
		c, m, y, k := p("c"), p("m"), p("y"), p("k")
		pdf.SetStrokeColorCMYK(uint8(c), uint8(m), uint8(y), uint8(k))
		e.st.stroke = c25CMYK("K", c, m, y, k)
	case 5:
		c, m, y, k := p("c"), p("m"), p("y"), p("k")
		pdf.SetFillColorCMYK(uint8(c), uint8(m), uint8(y), uint8(k))
		e.st.fill = c25CMYK("k", c, m, y, k)
	case 6:
		f := vFloat(n+"f", 0, 1)
		pdf.SetGrayFill(f)
		e.st.fill = vCol{"g", []float64{f}, ""}
		e.text = nil
	case 7:
		f := vFloat(n+"f", 0, 1)
		pdf.SetGrayStroke(f)
		e.st.stroke = vCol{"G", []float64{f}, ""}
	case 8:
		e.st.lw = vFloat(n+"lw", 0, 50)
		pdf.SetLineWidth(e.st.lw)
	case 9:
		t := vChoice(n+"lt", 3)
		pdf.SetLineType([]string{"dashed", "dotted", "solid"}[t])
		e.st.dash = [][]float64{{5}, {2, 3}, nil}[t]
		e.st.phase = []float64{2, 11, 0}[t]
	case 10:
		d, ph := vFloat(n+"d", 0.1, 20), vFloat(n+"ph", 0, 20)
		e.st.dash = [][]float64{nil, {d}, {1, d}}[vChoice(n+"nd", 3)]
		e.st.phase = ph
		pdf.SetCustomLineType(e.st.dash, ph)
	case 11:
		pdf.SaveGraphicsState()
		e.stack = append(e.stack, e.st)
	case 12:
		if len(e.stack) > 0 {
			pdf.RestoreGraphicsState()
			e.st = e.stack[len(e.stack)-1]
			e.stack = e.stack[:len(e.stack)-1]
		}
	case 13:
		name := []string{"one", "two"}[vChoice(n+"cs", 2)]
		vAssert(pdf.SetColorSpace(name) == nil, "a defined colour space can be selected")
		e.st.stroke = e.cs[name]
	case 14:
		for len(e.stack) > 0 {
			pdf.RestoreGraphicsState()
			e.stack = e.stack[:len(e.stack)-1]
		}
		pdf.AddPage()
		e.page++
		e.st = c25Start()
	}
}

const c25NSet, c25NDraw = 15, 7

func (e *c25Env) draw(k int) {
	pdf := e.pdf
	switch k {
	case 0:
		pdf.Line(1, 2, 3, 4)
		e.add("l")
	case 1:
		pdf.RectFromUpperLeftWithStyle(1, 2, 3, 4, "F")
		e.add("f")
	case 2:
		pdf.Polygon([]Point{{1, 2}, {30, 4}, {5, 60}}, "FD")
		e.add("b")
	case 3:
		pdf.Text("A")
		e.add("t")
	case 4:
		pdf.CellWithOption(&Rect{W: 50, H: 20}, "A", CellOption{Border: Left | Bottom})
		e.add("tll")
	case 5:
		vAssert(pdf.SetFont("f", "U", 10) == nil, "a loaded font can be selected underlined")
		pdf.Cell(&Rect{W: 50, H: 20}, "A")
		vAssert(pdf.SetFont("f", "", 10) == nil, "a loaded font can be selected")
		e.add("tu")
	case 6:
		pdf.Rotate(90, 1, 2)
		pdf.Oval(1, 2, 3, 4)
		pdf.RotateReset()
		e.add("l")
	}
}

func c25New() *c25Env {
	pdf := vMini(Config{PageSize: *PageSizeA4}, vStdFont(3))
	e := &c25Env{pdf: pdf, st: c25Start()}
	pdf.AddPage()
	vAssert(pdf.SetFont("f", "", 10) == nil, "a loaded font can be selected")
	pdf.SetNoCompression()
	return e
}

func (e *c25Env) spaces() {
	r := vInt("csr", 0, 255)
	c := vInt("csc", 0, 100)
	vAssert(e.pdf.AddColorSpaceRGB("one", uint8(r), 20, 30) == nil, "a colour space can be defined")
	vAssert(e.pdf.AddColorSpaceCMYK("two", uint8(c), 20, 30, 40) == nil, "a colour space can be defined")
	e.cs = map[string]vCol{"one": {"CS", []float64{float64(r) / 255, 20 / 255.0, 30 / 255.0}, "one"}, "two": {"CS", []float64{float64(c) / 100, 0.2, 0.3, 0.4}, "two"}}
}

// c25Name resolves the #XX of a name.
func c25Name(s string) string {
	var r []byte
	for i := 0; i < len(s); i++ {
		if s[i] == '#' && i+2 < len(s) {
			r = append(r, vUnhex(s[i+1:i+3])...)
			i += 2
			continue
		}
		r = append(r, s[i])
	}
	return string(r)
}

func c25Same(d *vDoc, page int, got, want vCol, what string) {
	if want.Op == "CS" {
		vAssert(got.Op == "CS" && len(got.V) == 1 && got.V[0] == 1, what+" is the full tint of the colour space")
		o := d.res(page, "ColorSpace").get(got.CS)
		if o.K == 'r' && d.obj(o.I) != nil {
			o = d.obj(o.I).O
		}
		vAssert(len(o.Vals) == 4 && o.Vals[0].S == "Separation" && c25Name(o.Vals[1].S) == want.CS, what+" is in the colour space of that name")
		if len(o.Vals) != 4 {
			return
		}
		dev := "DeviceRGB"
		if len(want.V) == 4 {
			dev = "DeviceCMYK"
		}
		c1 := o.Vals[3].get("C1").Vals
		vAssert(o.Vals[2].S == dev && len(c1) == len(want.V) && len(o.Vals[3].get("C0").Vals) == len(want.V), what+" has the components of its colour space")
		for i := range c1 {
			if i < len(want.V) {
				vAssert(vNear(c1[i].F, want.V[i], 0.0011), what+" is the colour given for its colour space")
			}
		}
		return
	}
	vAssert(got.Op == want.Op && len(got.V) == len(want.V), what+" is in the colour space set last")
	if len(got.V) != len(want.V) {
		return
	}
	tol := 0.0051
	if len(want.V) == 3 {
		tol = 0.0011
	}
	for i := range want.V {
		vAssert(vNear(got.V[i], want.V[i], tol), what+" is the colour set last")
	}
}

func (e *c25Env) check() {
	for len(e.stack) > 0 {
		e.pdf.RestoreGraphicsState()
		e.stack = e.stack[:len(e.stack)-1]
	}
	d := vOut8(e.pdf)
	if !d.OK {
		return
	}
	k := 0
	for p := 0; p <= e.page; p++ {
		for _, m := range d.marks(p) {
			n := 1
			kind := byte('l')
			switch m.Op {
			case "f", "F", "f*":
				kind = 'f'
			case "B", "b", "B*", "b*":
				kind = 'b'
			case "TJ":
				kind = 't'
				n = len(m.Text) / 4
			}
			for ; n > 0; n-- {
				vAssert(k < len(e.ev) && e.ev[k].kind == kind && e.ev[k].page == p, "what is painted is what was drawn, in order")
				if k >= len(e.ev) || e.ev[k].kind != kind {
					return
				}
				w := e.ev[k]
				k++
				if kind == 't' {
					c25Same(d, p, m.G.Fill, w.text, "the colour of a text")
					continue
				}
				if kind != 'l' {
					c25Same(d, p, m.G.Fill, w.st.fill, "the colour of an area")
				}
				if kind == 'f' {
					continue
				}
				c25Same(d, p, m.G.Stroke, w.st.stroke, "the colour of a line")
				vAssert(vNear(m.G.LW, w.st.lw, 0.0051), "a line has the width set last")
				vAssert(len(m.G.Dash) == len(w.st.dash) && vNear(m.G.Phase, w.st.phase, 0.0051), "a line has the number of dashes and the phase set last")
				for i := range m.G.Dash {
					if i < len(w.st.dash) {
						vAssert(vNear(m.G.Dash[i], w.st.dash[i], 0.0051), "a line has the dashes set last")
					}
				}
			}
		}
	}
	vAssert(k == len(e.ev), "everything drawn is painted")
}

// Two settings of any kind around a drawing call of any kind, and then one of each.
// symgo time=45s
func H_C25_two() {
	e := c25New()
	e.spaces()
	e.set(vChoice("a", c25NSet), "a")
	d := vChoice("d", c25NDraw+1)
	if d < c25NDraw {
		e.draw(d)
	}
	e.set(vChoice("b", c25NSet), "b")
	if d < c25NDraw {
		e.draw(d) // directly after the same call in the state before
	}
	for k := 0; k < c25NDraw; k++ {
		e.draw(k)
	}
	e.check()
}

// Settings and drawing calls in any order.
// symgo time=300s tier=thorough
func H_C25_any() {
	e := c25New()
	e.spaces()
	for i := 0; i < 4; i++ {
		n := string(rune('a' + i))
		k := vChoice(n, c25NSet+c25NDraw)
		if k < c25NSet {
			e.set(k, n)
		} else {
			e.draw(k - c25NSet)
		}
	}
	e.draw(2)
	e.draw(3)
	e.check()
}

// A colour space has its name, whatever characters that has; a name cannot be
// given twice and one that is not defined cannot be selected.
func H_C25_names() {
	e := c25New()
	name := "n" + string([]byte{byte(vChoice("hi", 16)*16 + vChoice("lo", 16))}) + []string{"", "y", " "}[vChoice("end", 3)]
	vAssert(e.pdf.AddColorSpaceRGB(name, 10, 20, 30) == nil, "a colour space can be defined")
	vAssert(e.pdf.AddColorSpaceRGB(name, 40, 50, 60) != nil, "a colour space cannot be defined twice")
	vAssert(e.pdf.SetColorSpace("unknown") != nil, "a colour space that is not defined cannot be selected")
	vAssert(e.pdf.SetColorSpace(name) == nil, "a defined colour space can be selected")
	e.st.stroke = vCol{"CS", []float64{10 / 255.0, 20 / 255.0, 30 / 255.0}, name}
	e.draw(0)
	e.check()
}
