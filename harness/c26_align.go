package gopdf

// c26Doc has a font with any ascender and descender.
func c26Doc(cfg Config, kern bool) (*GoPdf, *vFont) {
	f := vStdFont(3)
	f.widths = []int{500, 300 + vInt("w", 0, 600), 600, 450, 250}
	f.typoAsc, f.typoDesc = vInt("asc", 500, 1100), vInt("desc", -500, 0)&0xFFFF
	if kern {
		f.kern = []vKern{{1, 2, 80}, {2, 1, -90 & 0xFFFF}}
	}
	pdf := &GoPdf{}
	pdf.Start(cfg)
	vAssume(pdf.AddTTFFontDataWithOption("f", f.build(), TtfOption{UseKerning: kern}) == nil)
	pdf.AddPage()
	return pdf, f
}

func c26W(f *vFont, s string) (w float64) {
	for _, c := range s {
		if c == ' ' {
			w += float64(f.widths[4])
		} else {
			w += float64(f.widths[c-'A'+1])
		}
	}
	return w / 1000
}

func c26Desc(f *vFont) float64 { return float64(f.typoDesc) - 65536*vIteF(f.typoDesc >= 32768, 1, 0) }

// Text in a cell of any size is aligned in it, for any font, size and unit.
// symgo time=30s
func H_C26_cell() {
	cfg := Config{PageSize: *PageSizeA4}
	un := vChoice("unit", 2)
	k := vUnit(&cfg, un)
	pdf, f := c26Doc(cfg, false)
	fs := []float64{10, 33.5, 1}[vChoice("fs", 3)]
	pdf.SetFont("f", "", fs)
	ha := []int{0, Left, Center, Right}[vChoice("ha", 4)]
	va := []int{0, Top, Middle, Bottom}[vChoice("va", 4)]
	W, H := vFloat("W", 0, 300), vFloat("H", 0, 300)
	x, y := vFloat("x", -50, 600), vFloat("y", -50, 800)
	pdf.SetXY(x/k, y/k)
	s := "AB"[:1+vChoice("n", 2)]
	vAssert(pdf.CellWithOption(&Rect{W: W / k, H: H / k}, s, CellOption{Align: ha | va}) == nil, "a cell is drawn")
	ms := vOut8(pdf).marks(0)
	vAssert(len(ms) == 1 && ms[0].Op == "TJ", "the text is shown once, without borders")
	if len(ms) != 1 {
		return
	}
	w := c26W(f, s) * fs
	wx := x
	switch ha {
	case Center:
		wx = x + (W-w)/2
	case Right:
		wx = x + W - w
	}
	asc, desc := float64(f.typoAsc)/1000*fs, c26Desc(f)/1000*fs
	top := PageSizeA4.H - y // of the text
	switch va {
	case Middle:
		top = PageSizeA4.H - y - H/2 + (asc-desc)/2
	case Bottom:
		top = PageSizeA4.H - y - H + asc - desc
	}
	tol := 0.012 + float64(len(s))*0.002*fs
	vAssert(vNear(ms[0].Pts[0].X, wx, tol), "text is aligned horizontally in its cell")
	vAssert(vNear(ms[0].Pts[0].Y, top-asc, 0.012), "text is aligned vertically in its cell")
	vReach("done")
}

// Justified text fills its cell: the space left is spread evenly over the gaps between words.
// symgo time=40s ttime=200s
func H_C26_justify() {
	kern := vChoice("kern", 2) == 1
	pdf, f := c26Doc(Config{PageSize: *PageSizeA4}, kern)
	fs := []float64{10, 33.5}[vChoice("fs", 2)]
	pdf.SetFont("f", "", fs)
	cs := 0.0
	if vChoice("spacing", 2) == 1 {
		cs = 2.5
		pdf.SetCharSpacing(cs)
	}
	n := 1 + vChoice("n", 5+vTier())
	s := ""
	for i := 0; i < n; i++ {
		s += []string{"A", " ", "B"}[vChoice("c", 2+vTier()*vIteI(i < 5, 1, 0))]
	}
	W := vFloat("W", 0, 400)
	pdf.SetXY(50, 100)
	vAssert(pdf.CellWithOption(&Rect{W: W, H: 20}, s, CellOption{Align: Justify}) == nil, "a cell is drawn")
	ms := vOut8(pdf).marks(0)
	vAssert(len(ms) == 1 && len(ms[0].Text) == 4*n, "the text is shown once")
	if len(ms) != 1 || len(ms[0].Text) != 4*n {
		return
	}
	m := ms[0]
	vAssert(vNear(m.Pts[0].X, 50, 0.006), "justified text starts at the left of the cell")
	first, last := 0, n-1
	for first < n && s[first] == ' ' {
		first++
	}
	for last >= 0 && s[last] == ' ' {
		last--
	}
	gaps := 0
	for i := first; i < last; i++ {
		if s[i] == ' ' {
			gaps++
		}
	}
	kv := 0.0
	if kern {
		for i := 1; i < n; i++ {
			switch s[i-1 : i+1] {
			case "AB":
				kv += 0.08 * fs
			case "BA":
				kv -= 0.09 * fs
			}
		}
	}
	slack := W - c26W(f, s)*fs - kv - float64(n)*cs
	tol := 0.02 + float64(n)*0.003*fs
	adj := func(at int) (v float64) {
		for i, k := range m.AdjAt {
			if k == at {
				v -= m.Adj[i] / 1000 * fs
			}
		}
		return
	}
	for i := 0; i < n; i++ {
		v := adj(i + 1)
		if kern && i+1 < n {
			switch s[i : i+2] {
			case "AB":
				v -= 0.08 * fs
			case "BA":
				v += 0.09 * fs
			}
		}
		if gaps > 0 && i > first && i < last && s[i] == ' ' {
			vAssert(vOr(vNear(v, slack/float64(gaps), tol), vAnd(slack <= tol, vNear(v, 0, tol))), "each gap between words gets its share of the space left")
		} else {
			vAssert(vNear(v, 0, tol), "only the gaps between words are widened")
		}
	}
	vReach("done")
}

// Borders are the edges of the cell.
// symgo time=30s
func H_C26_border() {
	cfg := Config{PageSize: *PageSizeA4}
	un := vChoice("unit", 2)
	k := vUnit(&cfg, un)
	pdf, f := c26Doc(cfg, false)
	style := []string{"", "U"}[vChoice("style", 2)]
	pdf.SetFont("f", style, 10)
	lw := vFloat("lw", 0, 4)
	pdf.SetLineWidth(lw / k)
	b := vChoice("border", 16)
	bits := []int{Left, Top, Right, Bottom}
	border := 0
	for i, v := range bits {
		if b>>i&1 == 1 {
			border |= v
		}
	}
	W, H := vFloat("W", 0, 300), vFloat("H", 0, 300)
	x, y := vFloat("x", -50, 600), vFloat("y", -50, 800)
	pdf.SetXY(x/k, y/k)
	var r *Rect
	if vChoice("rect", 2) == 1 {
		r = &Rect{W: W / k, H: H / k}
	} else {
		W, H = c26W(f, "A")*10, (float64(f.typoAsc)-c26Desc(f))/100
	}
	vAssert(pdf.CellWithOption(r, "A", CellOption{Border: border}) == nil, "a cell is drawn")
	ms := vOut8(pdf).marks(0)
	var seen [4]int
	lines := 0
	for _, m := range ms {
		if m.Op == "TJ" {
			continue
		}
		if style == "U" && m.Op == "f" {
			lines++
			continue
		}
		vAssert(len(m.Pts) == 2 && (m.Op == "S" || m.Op == "s"), "a border is a line")
		if len(m.Pts) != 2 {
			continue
		}
		vAssert(vNear(m.G.LW, lw, 0.012), "borders have the line width set")
		p, q := m.Pts[0], m.Pts[1]
		l, t, rr, bt := x, PageSizeA4.H-y, x+W, PageSizeA4.H-y-H
		tol := 0.04
		is := func(ax, ay, bx, by float64) bool {
			// horizontal borders may cover the corners
			return vAnd(vNear(p.Y, ay, tol), vAnd(vNear(q.Y, by, tol), vAnd(vAnd(p.X <= ax+tol, p.X >= ax-lw/2-tol), vAnd(q.X >= bx-tol, q.X <= bx+lw/2+tol))))
		}
		ok := false
		if m.Pts[0].Y == m.Pts[1].Y && seen[1] == 0 && b>>1&1 == 1 && is(l, t, rr, t) {
			seen[1]++
			ok = true
		} else if b>>0&1 == 1 && seen[0] == 0 && is(l, t, l, bt) {
			seen[0]++
			ok = true
		} else if b>>2&1 == 1 && seen[2] == 0 && is(rr, t, rr, bt) {
			seen[2]++
			ok = true
		} else if b>>3&1 == 1 && seen[3] == 0 && is(l, bt, rr, bt) {
			seen[3]++
			ok = true
		}
		vAssert(ok, "a border is an edge of the cell that was asked for")
	}
	vAssert(lines == len(style), "underlined text has one line")
	for i := range bits {
		vAssert(seen[i] == b>>i&1, "every border asked for is drawn, once")
	}
	vReach("done")
}

// Underlined text has a line under it, however it is drawn and aligned.
// symgo time=30s
func H_C26_underline() {
	pdf, f := c26Doc(Config{PageSize: *PageSizeA4}, false)
	fs := []float64{10, 33.5}[vChoice("fs", 2)]
	vAssert(pdf.SetFont("f", "U", fs) == nil, "a font can be underlined")
	s := "AB"
	w := c26W(f, s) * fs
	x, y := vFloat("x", -50, 600), vFloat("y", -50, 800)
	opt := CellOption{}
	th := 1.0
	if vChoice("coef", 2) == 1 {
		th = vFloat("th", 0.5, 5)
		opt.CoefUnderlineThickness = th
	}
	// a top-aligned cell shows where the line belongs
	pdf.SetXY(10, 10)
	pdf.CellWithOption(nil, s, opt)
	pdf.SetXY(x, y)
	switch vChoice("how", 4) {
	case 0:
		vAssume(th == 1)
		pdf.Text(s)
	case 1:
		pdf.CellWithOption(nil, s, opt)
	case 2:
		opt.Align = []int{Left, Center, Right}[vChoice("ha", 3)] | []int{Top, Middle, Bottom}[vChoice("va", 3)]
		pdf.CellWithOption(&Rect{W: w + vFloat("W", 0, 200), H: vFloat("H", 0, 300)}, s, opt)
	case 3:
		vAssume(th == 1)
		pdf.Cell(&Rect{W: w + vFloat("W", 0, 200), H: vFloat("H", 0, 300)}, s)
	}
	var tx, ln []vMark
	for _, m := range vOut8(pdf).marks(0) {
		if m.Op == "TJ" {
			tx = append(tx, m)
		} else {
			vAssert(m.Op == "f" && len(m.Pts) == 4, "the line is filled")
			ln = append(ln, m)
		}
	}
	vAssert(len(tx) == 2 && len(ln) == 2, "every underlined text has one line")
	if len(tx) != 2 || len(ln) != 2 {
		return
	}
	_, r0, _, r1 := ln[0].box()
	x0, y0, x1, y1 := ln[1].box()
	vAssert(vNear(y1-y0, 0.05*fs*th, 0.02), "the line has the font's thickness")
	vAssert(vAnd(vNear(y0-tx[1].Pts[0].Y, r0-tx[0].Pts[0].Y, 0.04), vNear(y1-tx[1].Pts[0].Y, r1-tx[0].Pts[0].Y, 0.04)), "the line is as far below the text everywhere")
	vAssert(vAnd(x0 <= tx[1].Pts[0].X+0.02, x1 >= tx[1].Pts[0].X+w-0.02-0.004*fs), "the line is as wide as the text")
	vReach("done")
}

// Only the space character is a gap: any other character, blank or not, keeps its width in justified text.
// symgo time=20s
func H_C26_blank() {
	f := vStdFont(3)
	in := vInt("in", 0x21, 0xFFFE)
	seg := vSeg{in, in, (2 - in) & 0xFFFF, 0}
	if vChoice("order", 2) == 0 {
		vAssume(in < 'A')
		f.segs = []vSeg{f.segs[0], seg, f.segs[1]}
	} else {
		vAssume(in > 'C')
		f.segs = append(f.segs, seg)
	}
	vAssume(vOr(in < 0xD800, in > 0xDFFF)) // not characters
	pdf := vMini(Config{PageSize: *PageSizeA4}, f)
	pdf.AddPage()
	fs := 10.0
	pdf.SetFont("f", "", fs)
	t := []rune{'A', rune(in), 'B', ' ', 'A', rune(in), ' ', 'C'}
	gap := []int{4, 7}
	switch vChoice("text", 3) {
	case 1:
		t, gap = []rune{rune(in), ' ', rune(in)}, []int{2}
	case 2:
		t, gap = []rune{'A', rune(in), rune(in), 'B'}, nil
	}
	w := 0.0
	for _, r := range t {
		g := 2
		switch r {
		case 'A', 'B', 'C':
			g = int(r - 'A' + 1)
		case ' ':
			g = 4
		}
		w += float64(f.widths[g]) / 1000 * fs
	}
	W := vFloat("W", 80, 400)
	pdf.SetXY(50, 100)
	vAssert(pdf.CellWithOption(&Rect{W: W, H: 20}, string(t), CellOption{Align: Justify}) == nil, "a cell is drawn")
	ms := vOut8(pdf).marks(0)
	vAssert(len(ms) == 1 && len(ms[0].Text) == 4*len(t), "the text is shown once")
	if len(ms) != 1 || len(ms[0].Text) != 4*len(t) {
		return
	}
	for i, at := range ms[0].AdjAt {
		v := -ms[0].Adj[i] / 1000 * fs
		is := false
		for _, g := range gap {
			is = is || g == at
		}
		if is {
			vAssert(vNear(v, (W-w)/float64(len(gap)), 0.05), "each gap between words gets its share of the space left")
		} else {
			vAssert(vNear(v, 0, 0.05), "only the gaps between words are widened")
		}
	}
	vAssert(vOr(len(gap) == 0, len(ms[0].AdjAt) >= len(gap)), "each gap between words gets its share of the space left")
	vReach("done")
}
