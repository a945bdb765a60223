package gopdf

type c22P struct {
	name, page int
	x, y, w    float64
	fs, tc     float64
	col        vCol
	text       string
	align      int
	filled     bool
}

// Placeholders of two names on any pages, drawn with any position, width, font
// size, character spacing and colour, filled and filled again in any order,
// before and after other drawing.
func c22Run(n int, mm bool) {
	cfg := Config{PageSize: *PageSizeA4}
	k := 1.0
	if mm {
		cfg.Unit, cfg.PageSize = UnitMM, Rect{W: 210, H: 297}
		k = 72 / 25.4
	}
	f := vStdFont(3)
	pdf := vMini(cfg, f)
	pdf.AddPage()
	pdf.SetNoCompression()
	H := []float64{cfg.PageSize.H * k}
	page := 0
	fs, tc := 10.0, 0.0
	ok := func(err error) { vAssert(err == nil, "the call succeeds") }
	ok(pdf.SetFont("f", "", fs))
	col := vCol{"g", []float64{0}, ""}
	var ps []*c22P
	names := []string{"one", "two"}
	have := func(nm int) bool {
		for _, p := range ps {
			if p.name == nm {
				return true
			}
		}
		return false
	}
	for i := 0; i < n; i++ {
		s := string(rune('a' + i))
		op := 0
		if i > 0 || n > 4 {
			op = vChoice(s, 5)
		}
		switch op {
		case 0:
			p := &c22P{name: vChoice(s+"nm", 2), page: page, fs: fs, tc: tc, col: col}
			p.x, p.y, p.w = vFloat(s+"x", 0, 150), vFloat(s+"y", 0, 250), vFloat(s+"w", 0, 100)
			pdf.SetXY(p.x, p.y)
			ok(pdf.PlaceHolderText(names[p.name], p.w))
			vAssert(vNear(pdf.GetX(), p.x+p.w, 1e-9) && vNear(pdf.GetY(), p.y, 1e-9), "a placeholder takes up exactly its width")
			ps = append(ps, p)
		case 1:
			nm := vChoice(s+"nm", 2)
			al := []int{Left, Right, Center}[vChoice(s+"al", 3)]
			t := []string{"A", "BC", ""}[vChoice(s+"t", 3)]
			x, y := pdf.GetX(), pdf.GetY()
			err := pdf.FillInPlaceHoldText(names[nm], t, al)
			vAssert((err == nil) == have(nm), "exactly the placeholders that exist can be filled")
			vAssert(pdf.GetX() == x && pdf.GetY() == y, "filling a placeholder moves nothing")
			for _, p := range ps {
				if p.name == nm {
					p.text, p.align, p.filled = t, al, true
				}
			}
		case 2:
			fs = []float64{20, 7}[vChoice(s+"fs", 2)]
			ok(pdf.SetFont("f", "", fs))
		case 3:
			tc = vFloat(s+"tc", 0, 3)
			ok(pdf.SetCharSpacing(tc))
			pdf.SetTextColor(uint8(10*i), 0, 0)
			col = vCol{"rg", []float64{float64(10*i) / 255, 0, 0}, ""}
		case 4:
			h := cfg.PageSize.H + float64(10*i)
			pdf.AddPageWithOption(PageOption{PageSize: &Rect{W: 100, H: h}})
			H = append(H, h*k)
			page++
		}
	}
	// every placeholder that is left is filled at the end, in one of the ways
	if vChoice("end", 2) == 1 {
		for nm := range names {
			if have(nm) {
				ok(pdf.FillInPlaceHoldText(names[nm], "BA", Center))
			}
		}
		for _, p := range ps {
			p.text, p.align, p.filled = "BA", Center, true
		}
	}
	d := vOut8(pdf)
	if !d.OK {
		return
	}
	i := 0
	for pg := 0; pg <= page; pg++ {
		for _, m := range d.marks(pg) {
			for i < len(ps) && ps[i].text == "" {
				i++
			}
			if m.Text == "" {
				continue // not filled
			}
			vAssert(i < len(ps) && ps[i].page == pg, "a placeholder is shown where it was put, once")
			if i >= len(ps) {
				return
			}
			p := ps[i]
			i++
			w, want := 0.0, ""
			for _, c := range p.text {
				w += float64(f.widths[c-'A'+1])/1000*p.fs + p.tc*k
				want += "000" + string('1'+c-'A')
			}
			vAssert(m.Text == want, "a placeholder shows the text it was filled with last")
			x := p.x * k
			switch p.align {
			case Right:
				x += p.w*k - w
			case Center:
				x += (p.w*k - w) / 2
			}
			tol := 0.012 + 0.005*p.fs
			vAssert(vNear(m.Pts[0].X, x, tol), "the text is aligned in the width of its placeholder")
			vAssert(vNear(m.Pts[0].Y, H[pg]-p.y*k, 0.012), "the text is on the line of its placeholder")
			vAssert(m.G.Size == p.fs && vNear(m.G.Tc, p.tc*k, 0.0051), "the text has the font size and spacing of its placeholder")
			vAssert(m.G.Fill.Op == p.col.Op && vNear(m.G.Fill.V[0], p.col.V[0], 0.0011), "the text has the colour of its placeholder")
		}
	}
	for i < len(ps) && ps[i].text == "" {
		i++
	}
	vAssert(i == len(ps), "every placeholder filled is shown")
	vReach("done")
}

// symgo time=90s
func H_C22_pt() { c22Run(4, false) }

// symgo time=20s
func H_C22_mm() { c22Run(3, true) }

// symgo time=400s tier=thorough
func H_C22_more() { c22Run(5, false) }
