package gopdf

// c12Font has glyphs A, B, C and a space with any widths and kern pairs among A and B.
func c12Font(upem int, kern bool) *vFont {
	f := vStdFont(3)
	f.upem = upem
	f.segs = []vSeg{{' ', ' ', (1 - ' ') & 0xFFFF, 0}, {'A', 'C', (1 - 'A') & 0xFFFF, 0}, {0xE9, 0xE9, (2 - 0xE9) & 0xFFFF, 0}, {0x20AC, 0x20AC, (3 - 0x20AC) & 0xFFFF, 0}}
	for i := 1; i <= 4; i++ {
		f.widths[i] = vInt("w", 0, 2*upem)
	}
	if kern {
		f.kern = []vKern{{1, 2, vInt("kAB", -300, 300)}, {2, 1, vInt("kBA", -300, 300)}, {2, 2, 40}}
		for i := range f.kern {
			f.kern[i].v &= 0xFFFF
		}
		f.kernSplit = vChoice("split", 2)
	}
	return f
}

func (f *vFont) kv(a, b int) int {
	for _, k := range f.kern {
		if k.l == a && k.r == b {
			return k.v - vIteI(k.v >= 32768, 65536, 0)
		}
	}
	return 0
}

// c12Adv is how far a reader advances over glyphs i..j of a text.
func c12Adv(f *vFont, m vMark, from, to int) float64 {
	a := 0.0
	for i := from; i < to; i++ {
		g := vConc(c08Hex4(m.Text[4*i:]))
		w := 0
		if g < len(f.widths) {
			w = f.widths[g]
		}
		a += float64(w)/float64(f.upem)*m.G.Size + m.G.Tc
	}
	for i, k := range m.AdjAt {
		if k > from && k <= to && k < len(m.Text)/4 || k == to && from < to {
			a -= m.Adj[i] / 1000 * m.G.Size
		}
	}
	return a
}

func c08Hex4(s string) int {
	n := 0
	for i := 0; i < 4; i++ {
		c := int(s[i])
		switch {
		case c >= '0' && c <= '9':
			n = n*16 + c - '0'
		case c >= 'A' && c <= 'F':
			n = n*16 + c - 'A' + 10
		}
	}
	return n
}

// tolerance per character: thousandths of the em for the width, kerning and spacing each
func c12Tol(n int, fs float64) float64 { return 0.012 + float64(n)*(0.003*fs+0.001) }

var c12Sizes = []float64{12, 1, 10.5, 33.333, 150}

// The measured width, the advance of the current position and the advance a reader makes are the same,
// for any widths, kerning and character spacing.
// symgo time=140s ttime=400s
func H_C12_measure() {
	upem := []int{1000, 2048}[vChoice("upem", 2)]
	kern := []int{2, 0, 1}[vChoice("kern", 3)]
	if upem != 1000 && kern == 1 {
		return
	}
	f := c12Font(upem, kern > 0)
	pdf := &GoPdf{}
	cfg := Config{PageSize: *PageSizeA4}
	un := 0
	if upem == 1000 || vTier() > 0 {
		un = vChoice("unit", 2)
	}
	k := vUnit(&cfg, un)
	pdf.Start(cfg)
	err := pdf.AddTTFFontDataWithOption("f", f.build(), TtfOption{UseKerning: kern == 2})
	vAssume(err == nil)
	pdf.AddPage()
	fs := c12Sizes[[]int{0, 3, 1, 2, 4}[vChoice("size", 2+3*vTier())]]
	pdf.SetFont("f", "", fs)
	cs := 0.0
	spaced := vChoice("cs", 2) == 1
	if spaced {
		cs = vFloat("spacing", -3, 20)
		pdf.SetCharSpacing(cs / k)
	}
	n := vChoice("n", 3+vTier())
	s := ""
	want := 0.0
	prev := 0
	// the letters, or characters of one to three bytes with the same glyphs
	al := []rune("ABC")
	if fs == 12 && un == 0 && kern != 1 && !spaced && vChoice("al", 2) == 1 {
		al = []rune(" \u00e9\u20ac")
	}
	for i := 0; i < n; i++ {
		c := vChoice("c", 3)
		s += string(al[c])
		want += float64(f.widths[c+1])/float64(upem)*fs + cs
		if kern == 2 && prev > 0 {
			want += float64(f.kv(prev, c+1)) / float64(upem) * fs
		}
		prev = c + 1
	}
	tol := c12Tol(n, fs)
	w, err := pdf.MeasureTextWidth(s)
	vAssert(err == nil, "text is measured")
	vAssert(vNear(w*k, want, tol), "the measured width is the sum of the widths, kerning and spacing")
	pdf.SetXY(100/k, 200/k)
	switch vChoice("how", 3) {
	case 0:
		vAssert(pdf.Text(s) == nil, "text is drawn")
	case 1:
		vAssert(pdf.Cell(nil, s) == nil, "text is drawn")
	case 2:
		vAssert(pdf.CellWithOption(nil, s, CellOption{Float: Right, Align: Left | Top}) == nil, "text is drawn")
	}
	vAssert(vNear(pdf.GetX()*k, 100+w*k, 0.0001), "drawing text moves the current position by its measured width")
	d := vOut8(pdf)
	ms := d.marks(0)
	if n == 0 {
		return
	}
	vAssert(len(ms) == 1 && ms[0].Op == "TJ" && len(ms[0].Text) == 4*n, "the text is shown once")
	if len(ms) != 1 || len(ms[0].Text) != 4*n {
		return
	}
	vAssert(vNear(ms[0].G.Tc, cs, 0.002), "the character spacing is the one set")
	vAssert(vNear(c12Adv(f, ms[0], 0, n), w*k, tol), "a reader advances by the measured width")
	vReach("done")
}

// A text drawn in pieces, with changes of style between them: each piece starts where the one before ended.
// symgo time=40s ttime=200s
func H_C12_pieces() {
	f := c12Font(1000, true)
	for i := 1; i <= 4; i++ {
		f.widths[i] = 400 + 50*i
	}
	pdf := &GoPdf{}
	pdf.Start(Config{PageSize: *PageSizeA4})
	err := pdf.AddTTFFontDataWithOption("f", f.build(), TtfOption{UseKerning: vChoice("kern", 2) == 1})
	vAssume(err == nil)
	pdf.AddTTFFontDataWithOption("g", f.build(), TtfOption{})
	pdf.AddPage()
	pdf.SetFont("f", "", 12)
	pdf.SetXY(50, 100)
	n := 2 + vTier()
	var at []float64
	var ws []float64
	var txt []string
	for i := 0; i < n; i++ {
		if i > 0 {
			switch vChoice("change", 8) {
			case 1:
				pdf.SetFontSize(20)
			case 2:
				pdf.SetCharSpacing(vFloat("cs", 0, 10))
			case 3:
				pdf.SetX(vFloat("x", 0, 300))
			case 4:
				pdf.SetFont("g", "", 12)
			case 5:
				pdf.SetTextColor(10, 20, 30)
			case 6:
				pdf.SetFont("f", "U", 12)
			case 7:
				pdf.Line(1, 2, 3, 4)
			}
		}
		s := []string{"A", "B", "AB"}[vChoice("s", 3)]
		at = append(at, pdf.GetX())
		txt = append(txt, s)
		if vChoice("cell", 2) == 1 {
			vAssert(pdf.Cell(nil, s) == nil, "text is drawn")
		} else {
			vAssert(pdf.Text(s) == nil, "text is drawn")
		}
		w, err := pdf.MeasureTextWidth(s)
		vAssert(err == nil, "text is measured")
		ws = append(ws, w)
		vAssert(vNear(pdf.GetX(), at[i]+w, 3.7), "a piece moves the current position by its width, and kerning with the piece before at most")
	}
	d := vOut8(pdf)
	var pos []float64
	ends := 0.0
	var all string
	for _, m := range d.marks(0) {
		if m.Op != "TJ" {
			continue
		}
		for i := 0; i < len(m.Text)/4; i++ {
			pos = append(pos, m.Pts[0].X+c12Adv(f, m, 0, i))
			all += string(rune('A' + c08Hex4(m.Text[4*i:]) - 1))
		}
		ends = m.Pts[0].X + c12Adv(f, m, 0, len(m.Text)/4)
	}
	want := ""
	for _, s := range txt {
		want += s
	}
	vAssert(all == want, "every piece is shown once, in order")
	if all != want {
		return
	}
	k := 0
	for i, s := range txt {
		// pieces may be joined, and are kerned then
		tol := 0.15
		if i > 0 {
			tol += vIteF(vNear(pos[k], at[i], 0.15), 0, 3.65)
		}
		vAssert(vNear(pos[k], at[i], tol), "a piece is shown where the one before ended")
		k += len(s)
	}
	vAssert(vNear(ends, pdf.GetX(), 0.15), "the current position is where the last glyph ends")
	vReach("done")
}

// The kerning of a pair can be overridden; the function gets the pair and its value.
// symgo time=30s
func H_C12_override() {
	f := c12Font(1000, true)
	for i := 1; i <= 4; i++ {
		f.widths[i] = 400 + 50*i
	}
	pdf := &GoPdf{}
	pdf.Start(Config{PageSize: *PageSizeA4})
	err := pdf.AddTTFFontDataWithOption("f", f.build(), TtfOption{UseKerning: true})
	vAssume(err == nil)
	pdf.AddPage()
	pdf.SetFont("f", "", 10)
	ov := vInt("ov", -400, 400)
	ok := true
	if vChoice("twice", 2) == 1 { // the one given last counts
		vAssert(pdf.KernOverride("f", func(l, r rune, lg, rg uint, v int16) int16 { return 333 }) == nil, "kerning of a loaded font can be overridden")
	}
	vAssert(pdf.KernOverride("f", func(l, r rune, lg, rg uint, v int16) int16 {
		ok = vAnd(ok, vAnd(int(l)-'A' == int(lg)-1, vAnd(int(r)-'A' == int(rg)-1, int(v) == f.kv(vConc(int(lg)), vConc(int(rg))))))
		if l == 'A' && r == 'B' {
			return int16(ov)
		}
		return v
	}) == nil, "kerning of a loaded font can be overridden")
	s := []rune{'A' + rune(vChoice("c1", 3)), 'A' + rune(vChoice("c2", 3)), 'A' + rune(vChoice("c3", 3))}
	want := 0.0
	for i, c := range s {
		want += float64(f.widths[int(c-'A')+1]) / 100
		if i > 0 {
			if s[i-1] == 'A' && c == 'B' {
				want += float64(ov) / 100
			} else {
				want += float64(f.kv(int(s[i-1]-'A')+1, int(c-'A')+1)) / 100
			}
		}
	}
	w, err := pdf.MeasureTextWidth(string(s))
	vAssert(err == nil, "text is measured")
	vAssert(vNear(w, want, 0.1), "the overriding value is the one measured")
	pdf.SetXY(0, 0)
	pdf.Text(string(s))
	ms := vOut8(pdf).marks(0)
	vAssert(len(ms) == 1 && len(ms[0].Text) == 12, "the text is shown")
	if len(ms) == 1 && len(ms[0].Text) == 12 {
		vAssert(vNear(c12Adv(f, ms[0], 0, 3), want, 0.1), "the overriding value is the one shown")
	}
	vAssert(ok, "the function is given the characters, glyphs and kerning of the pair")
	vAssert(pdf.KernOverride("nofont", func(l, r rune, lg, rg uint, v int16) int16 { return 0 }) != nil, "overriding the kerning of an unknown font is an error")
	vReach("done")
}

// The height of a line of text is the font's ascender and descender in the text's size.
// symgo time=30s
func H_C12_height() {
	f := vStdFont(2)
	f.upem = []int{1000, 2048}[vChoice("upem", 2)]
	a, b := vInt("asc", 0, 3000), vInt("desc", -1500, 0)
	f.typoAsc, f.typoDesc = a, b&0xFFFF
	cfg := Config{PageSize: *PageSizeA4}
	k := vUnit(&cfg, vChoice("unit", 2))
	pdf := vMini(cfg, f)
	pdf.AddPage()
	fs := c12Sizes[vChoice("size", 5)]
	pdf.SetFont("f", "", fs)
	h, err := pdf.MeasureCellHeightByText("AB")
	vAssert(err == nil, "text is measured")
	vAssert(vNear(h*k, float64(a-b)/float64(f.upem)*fs, 0.001*fs), "the height of a line is the font's")
	pdf.SetXY(10, 20)
	vAssert(pdf.CellWithOption(nil, "AB", CellOption{Float: Bottom}) == nil, "a cell is drawn")
	vAssert(vNear(pdf.GetY(), 20+h, 0.0001), "a cell without a rectangle has the height of its text")
	vReach("done")
}

// Any character the font has, of those coded in 16 bits, alone or between others: it counts once.
// symgo time=20s
func H_C12_any() {
	f := c12Font(1000, false)
	in := vInt("in", 0x21, 0xFFFE)
	seg := vSeg{in, in, (2 - in) & 0xFFFF, 0}
	if vChoice("order", 2) == 0 {
		vAssume(in < 'A')
		f.segs = []vSeg{f.segs[0], seg, f.segs[1]}
	} else {
		vAssume(in > 'C')
		f.segs = []vSeg{f.segs[0], f.segs[1], seg}
	}
	vAssume(vOr(in < 0xD800, in > 0xDFFF)) // not characters
	pdf := &GoPdf{}
	pdf.Start(Config{PageSize: *PageSizeA4})
	vAssume(pdf.AddTTFFontData("f", f.build()) == nil)
	pdf.AddPage()
	pdf.SetFont("f", "", 10)
	cs := []float64{0, 2}[vChoice("cs", 2)]
	pdf.SetCharSpacing(cs)
	t := []rune{rune(in)}
	want := float64(f.widths[2]) / 100
	switch vChoice("at", 3) {
	case 1:
		t = []rune{'A', rune(in), 'C'}
		want += float64(f.widths[1]+f.widths[3]) / 100
	case 2:
		t = []rune{rune(in), rune(in), ' '}
		want += float64(f.widths[2]+f.widths[1]) / 100
	}
	want += float64(len(t)) * cs
	s := string(t)
	w, err := pdf.MeasureTextWidth(s)
	vAssert(err == nil && vNear(w, want, c12Tol(len(t), 10)), "the measured width is the sum of the widths, kerning and spacing")
	pdf.SetXY(100, 200)
	if vChoice("how", 2) == 0 {
		vAssert(pdf.Text(s) == nil, "text is drawn")
	} else {
		vAssert(pdf.Cell(nil, s) == nil, "text is drawn")
	}
	vAssert(vNear(pdf.GetX(), 100+w, 0.0001), "drawing text moves the current position by its measured width")
	ms := vOut8(pdf).marks(0)
	vAssert(len(ms) == 1 && ms[0].Op == "TJ" && len(ms[0].Text) == 4*len(t), "the text is shown once")
	if len(ms) == 1 && len(ms[0].Text) == 4*len(t) {
		vAssert(vNear(c12Adv(f, ms[0], 0, len(t)), w, c12Tol(len(t), 10)), "a reader advances by the measured width")
	}
	vReach("done")
}

// Blanks are spaced like every other character, by any distance, also a negative one.
// symgo time=20s
func H_C12_blanks() {
	f := c12Font(1000, false)
	cfg := Config{PageSize: *PageSizeA4}
	k := vUnit(&cfg, vChoice("unit", 2))
	pdf := &GoPdf{}
	pdf.Start(cfg)
	vAssume(pdf.AddTTFFontDataWithOption("f", f.build(), TtfOption{}) == nil)
	pdf.AddPage()
	fs := []float64{12, 33.333}[vChoice("size", 2)]
	pdf.SetFont("f", "", fs)
	cs := vFloat("spacing", -3, 20)
	pdf.SetCharSpacing(cs / k)
	n := 1 + vChoice("n", 3+vTier())
	s, want := "", 0.0
	for i := 0; i < n; i++ {
		s += []string{"A", " ", "C"}[vChoice("c", 3)] // the blank looks like A
		want += float64(f.widths[vIteI(s[i] == 'C', 3, 1)])/1000*fs + cs
	}
	w, err := pdf.MeasureTextWidth(s)
	vAssert(err == nil, "text is measured")
	vAssert(vNear(w*k, want, c12Tol(n, fs)), "the measured width is the sum of the widths, kerning and spacing")
	pdf.SetXY(100/k, 200/k)
	if vChoice("how", 2) == 0 {
		vAssert(pdf.Text(s) == nil, "text is drawn")
	} else {
		vAssert(pdf.Cell(nil, s) == nil, "text is drawn")
	}
	vAssert(vNear(pdf.GetX()*k, 100+w*k, 0.0001), "drawing text moves the current position by its measured width")
	ms := vOut8(pdf).marks(0)
	vAssert(len(ms) == 1 && ms[0].Op == "TJ" && len(ms[0].Text) == 4*n, "the text is shown once")
	if len(ms) == 1 && len(ms[0].Text) == 4*n {
		vAssert(vNear(c12Adv(f, ms[0], 0, n), w*k, c12Tol(n, fs)), "a reader advances by the measured width")
	}
	vReach("done")
}
