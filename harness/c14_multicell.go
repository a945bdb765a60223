package gopdf

import "strings"

func c14Font(kern bool) *vFont {
	f := vStdFont(3)
	f.widths = []int{500, 300 + vInt("w", 0, 600), 600, 450, 250}
	if kern {
		f.kern = []vKern{{1, 2, 80}, {2, 1, -90 & 0xFFFF}}
	}
	f.segs = append(f.segs, vSeg{0xE9, 0xE9, (1 - 0xE9) & 0xFFFF, 0}) // \u00e9 looks like A
	return f
}

// c14Wide writes A with a character of two bytes, when asked to.
func c14Wide(wide bool) func(string) string {
	return func(s string) string {
		if !wide {
			return s
		}
		return strings.ReplaceAll(s, "A", "\u00e9")
	}
}

func c14Doc(cfg Config, kern bool) *GoPdf {
	pdf := &GoPdf{}
	pdf.Start(cfg)
	vAssume(pdf.AddTTFFontDataWithOption("f", c14Font(kern).build(), TtfOption{UseKerning: kern}) == nil)
	pdf.AddPage()
	pdf.SetFont("f", "", 10)
	return pdf
}

func c14Text(n int, alphabet string) string {
	s := ""
	for i := 0; i < n; i++ {
		s += string(alphabet[vChoice("c", len(alphabet))])
	}
	return s
}

// c14Line is a line of text on the page.
type c14Line struct {
	s    string
	x, y float64
	m    vMark
}

func c14Lines(d *vDoc) (r []c14Line) {
	for _, m := range d.marks(0) {
		if m.Op != "TJ" {
			continue
		}
		s := ""
		for i := 0; i+3 < len(m.Text); i += 4 {
			g := int(m.Text[i+3] - '0') // glyphs 1..4
			s += string("?ABC "[g])
		}
		if s != "" {
			r = append(r, c14Line{s, m.Pts[0].X, m.Pts[0].Y, m})
		}
	}
	return
}

// A text wrapped into a rectangle of any size: what is drawn, where, and whether it is said to fit.
// symgo time=40s ttime=200s
func H_C14_wrap() {
	cfg := Config{PageSize: *PageSizeA4}
	un := vChoice("unit", 2)
	k := vUnit(&cfg, un)
	pdf := c14Doc(cfg, un == 0 && vChoice("kern", 2) == 1)
	text := c14Text(vChoice("n", 5+vTier()), "AB")
	in := c14Wide(un == 0 && vChoice("wide", 2) == 1)
	W, H := vFloat("W", 0.5, 40)/k, vFloat("H", 0, 60)/k
	lh, err := pdf.MeasureCellHeightByText(in(text))
	vAssert(err == nil, "text is measured")
	ok, h, err := pdf.IsFitMultiCell(&Rect{W: W, H: H}, in(text))
	vAssert(err == nil, "text is measured")
	x, y := 50/k, 100/k
	pdf.SetXY(x, y)
	vAssert(pdf.MultiCell(&Rect{W: W, H: H}, in(text)) == nil, "text is drawn")
	yEnd := pdf.GetY()
	vAssert(vNear(pdf.GetX(), x, 1e-6), "the position after the text is at the left of the rectangle")
	ls := c14Lines(vOut8(pdf))
	drawn := ""
	for i, l := range ls {
		vAssert(len(l.s) > 0, "every line has text")
		vAssert(vNear(l.x, 50, 0.006), "every line starts at the left of the rectangle")
		vAssert(vNear(l.y, ls[0].y-float64(i)*lh*k, 0.012), "lines are a line height apart")
		w, _ := pdf.MeasureTextWidth(in(l.s))
		vAssert(vOr(len(l.s) == 1, w <= W+1e-6), "a line fits the width, unless it is a single character")
		drawn += l.s
		if i > 0 {
			// greedy: the line before could not take the first character of this one
			w, _ = pdf.MeasureTextWidth(in(ls[i-1].s + l.s[:1]))
			vAssert(w > W-1e-6, "a line is broken only when the next character does not fit")
		}
	}
	if len(ls) > 0 {
		vAssert(vNear(ls[0].y, PageSizeA4.H-100-7.5, 0.012), "the text starts at the top of the rectangle")
	}
	vAssert(float64(len(ls))*lh <= H+1e-6, "lines stay inside the rectangle")
	vAssert(len(drawn) <= len(text) && drawn == text[:len(drawn)], "the characters are drawn in order, none left out")
	vAssert(vNear(yEnd, y+float64(len(ls))*lh, 1e-6), "the position moves down by the lines drawn")
	if ok {
		vAssert(drawn == text, "text that fits is drawn completely")
		vAssert(vNear(h, float64(len(ls))*lh, 1e-6), "the height given is the height of the lines")
	} else {
		vAssert(drawn != text, "text that does not fit is not drawn completely")
	}
	vReach("done")
}

// Paragraphs separated by newlines fit when each fits below the others.
// symgo time=20s
func H_C14_newlines() {
	pdf := c14Doc(Config{PageSize: *PageSizeA4}, false)
	a, b := c14Text(1+vChoice("n", 3), "AB"), c14Text(1+vChoice("m", 2), "AB")
	in := c14Wide(vChoice("wide", 2) == 1)
	a, b = in(a), in(b)
	W, H := vFloat("W", 0.5, 30), vFloat("H", 0, 60)
	r := &Rect{W: W, H: H}
	ok, h, err := pdf.IsFitMultiCellWithNewline(r, a+"\n"+b)
	vAssert(err == nil, "text is measured")
	vAssert(vAnd(r.W == W, r.H == H), "the caller's rectangle is left alone")
	pdf.SetXY(50, 100)
	vAssert(pdf.MultiCell(&Rect{W: W, H: 1000}, a) == nil && pdf.MultiCell(&Rect{W: W, H: 1000}, b) == nil, "text is drawn")
	need := pdf.GetY() - 100
	vAssert(vImplies(need <= H-1e-6, ok), "paragraphs that fit are said to fit")
	vAssert(vImplies(need >= H+1e-6, !ok), "paragraphs that do not fit are said not to fit")
	if ok {
		vAssert(vNear(h, need, 1e-6), "the height given is the height of the paragraphs")
	}
	vReach("done")
}

// Wrapped text with options: the lines are those of the split, aligned in the rectangle as a block.
// symgo time=40s ttime=200s
func H_C14_option() {
	cfg := Config{PageSize: *PageSizeA4}
	un := vChoice("unit", 2)
	k := vUnit(&cfg, un)
	pdf := c14Doc(cfg, false)
	al := "AB"
	if un == 0 && vChoice("blank", 2) == 1 {
		al = "A\n"
	}
	text := c14Text(1+vChoice("n", 4+vTier()), al)
	wide := un == 1
	in := c14Wide(wide)
	words := un == 0 && al == "AB" && vChoice("words", 2) == 1
	var bo *BreakOption
	if words {
		bo = &BreakOption{Mode: BreakModeIndicatorSensitive, BreakIndicator: 'B'}
	}
	ha := []int{Left, Center, Right}[vChoice("ha", 3)]
	va := []int{Top, Middle, Bottom}[vChoice("va", 3)]
	W, H := vFloat("W", 6, 40)/k, vFloat("H", 0, 300)/k
	lh, err := pdf.MeasureCellHeightByText(in(text))
	vAssert(err == nil, "text is measured")
	want, err := pdf.SplitTextWithOption(in(text), W, bo)
	vAssert(err == nil, "text is split")
	x, y := 50/k, 100/k
	pdf.SetXY(x, y)
	vAssert(pdf.MultiCellWithOption(&Rect{W: W, H: H}, in(text), CellOption{Align: ha | va, BreakOption: bo}) == nil, "text is drawn")
	vAssert(vAnd(vNear(pdf.GetX(), x, 1e-6), vNear(pdf.GetY(), y+float64(len(want))*lh, 1e-6)), "the position is below the lines, at the left")
	ls := c14Lines(vOut8(pdf))
	i := 0
	for _, s := range want {
		if s == "" {
			continue
		}
		vAssert(i < len(ls) && in(ls[i].s) == s, "the lines are those of the split")
		if i >= len(ls) {
			return
		}
		w, _ := pdf.MeasureTextWidth(s)
		sl := 0.0
		switch ha {
		case Center:
			sl = (W - w) / 2
		case Right:
			sl = W - w
		}
		vAssert(vNear(ls[i].x, 50+sl*k, 0.012), "each line is aligned in the rectangle's width")
		i++
	}
	vAssert(i == len(ls), "the lines are those of the split")
	if len(ls) > 0 && i == len(want) {
		n := float64(len(ls))
		top := ls[0].y + 7.5 // ascender
		bot := ls[len(ls)-1].y - 2.5
		vAssert(vNear(top-bot, n*lh*k, 0.03), "lines are a line height apart")
		switch va {
		case Top:
			vAssert(vNear(top, PageSizeA4.H-100, 0.012), "text aligned to the top starts at the top")
		case Middle:
			vAssert(vNear((top+bot)/2, PageSizeA4.H-100-H*k/2, 0.02), "text aligned to the middle is centred")
		case Bottom:
			vAssert(vNear(bot, PageSizeA4.H-100-H*k, 0.02), "text aligned to the bottom ends at the bottom")
		}
	}
	vReach("done")
}
