package gopdf

// c13Font has glyphs A, B, C, a hyphen and a space of any widths.
func c13Font(kern bool) *vFont {
	f := vStdFont(3)
	f.segs = append([]vSeg{f.segs[0], {'-', '-', (4 - '-') & 0xFFFF, 0}}, f.segs[1:]...)
	f.numGlyphs, f.nHM = 6, 6
	f.segs[0].delta = (5 - ' ') & 0xFFFF
	f.widths = []int{500, 300 + vInt("w", 0, 600), 600, 450, 333, 250}
	f.glyf = append(f.glyf, []byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 9, 0})
	if kern {
		f.kern = []vKern{{1, 2, 80}, {2, 1, -90 & 0xFFFF}, {1, 4, 60}}
	}
	return f
}

// c13Split splits every text of n characters of an alphabet and checks the lines.
func c13Split(n int, alphabet string, opt *BreakOption, kern bool) {
	pdf := &GoPdf{}
	pdf.Start(Config{PageSize: *PageSizeA4})
	vAssume(pdf.AddTTFFontDataWithOption("f", c13Font(kern).build(), TtfOption{UseKerning: kern}) == nil)
	pdf.AddPage()
	pdf.SetFont("f", "", 125) // widths are whole eighths, exact in floating point
	var text []rune
	for i := 0; i < n; i++ {
		text = append(text, rune(alphabet[vChoice("c", len(alphabet))]))
	}
	if opt != nil && opt.BreakIndicator != 0 {
		for i := 1; i < n; i++ {
			if text[i] == opt.BreakIndicator && text[i-1] == opt.BreakIndicator {
				return // see H_C13_spaces
			}
		}
	}
	W := vFloat("W", 6, 500)
	lines, err := pdf.SplitTextWithOption(string(text), W, opt)
	if n == 0 {
		vAssert(err == ErrEmptyString && len(lines) == 0, "splitting an empty text is an error")
		return
	}
	vAssert(err == nil, "text is split")
	if err != nil {
		return
	}
	mode, sep, ind := BreakModeStrict, "", rune(0)
	if opt != nil {
		mode, sep, ind = opt.Mode, opt.Separator, opt.BreakIndicator
	}
	width := func(s string) float64 {
		w, _ := pdf.MeasureTextWidth(s)
		return w
	}
	pos := 0
	for _, l := range lines {
		r := []rune(l)
		k := 0
		for k < len(r) && pos+k < n && r[k] == text[pos+k] {
			k++
		}
		rest := string(r[k:])
		if sep != "" && rest != sep && len(l) >= len(sep) && l[len(l)-len(sep):] == sep && k > len(r)-len([]rune(sep)) {
			// the separator's characters may also be the text's next ones
			k = len(r) - len([]rune(sep))
			rest = sep
		}
		vAssert(rest == "" || rest == sep, "a line is a piece of the text, perhaps with the separator")
		if rest != "" && rest != sep {
			return
		}
		if rest == "" && k > 0 {
			vAssert(vOr(k == 1, width(l) <= W), "a line fits the width, unless it is a single character")
		}
		if rest != "" {
			vAssert(k > 0, "a line has text before the separator")
			vAssert(width(l) <= W, "a line with a separator fits the width")
		}
		for _, c := range r[:k] {
			vAssert(c != '\n', "a line ends at a newline")
		}
		line := text[pos : pos+k]
		pos += k
		if pos >= n {
			vAssert(rest == "", "the last line has no separator")
			continue
		}
		switch {
		case text[pos] == '\n':
			vAssert(rest == "", "no separator is added at a newline")
			pos++
		case mode == BreakModeIndicatorSensitive && text[pos] == ind:
			vAssert(rest == "", "no separator is added at a break indicator")
			vAssert(k > 0, "a line has at least one character")
			// the line was broken here because the next word did not fit
			e := pos + 1
			for e < n && text[e] != ind && text[e] != '\n' {
				e++
			}
			vAssert(vOr(width(string(text[pos-k:e])) > W, width(string(text[pos-k:pos+1])) > W), "a line is broken only when the next word does not fit")
			pos++
		default:
			vAssert(k > 0, "a line has at least one character")
			if rest == "" {
				vAssert(width(string(text[pos-k:pos+1])) > W, "a line is broken only when the next character does not fit")
				if sep != "" && k > 1 {
					vAssert(vOr(width(string(text[pos-k:pos-k+2])+sep) > W, width(string(text[pos-k:pos-k+1])+sep) > W), "the separator is left out only when it does not fit")
				}
			} else {
				// another character or two would not have fitted with the separator, nor the text without it
				e := pos
				for e < n && e < pos+2 && text[e] != '\n' {
					e++
				}
				vAssert(e == pos+2, "a separator is added only when the text does not fit")
				a, b := string(text[pos-k:pos+1]), string(text[pos-k:e])
				vAssert(vOr(vOr(width(a+sep) > W, width(b+sep) > W), width(b) > W), "a line is broken for a separator only when more of the text does not fit with it")
				all := false
				for q := e; q <= n && (q == e || text[q-1] != '\n'); q++ {
					all = vOr(all, width(string(text[pos-k:q])) > W)
				}
				vAssert(all, "a separator is added only when the text does not fit")
			}
			if mode == BreakModeIndicatorSensitive {
				for i, c := range line {
					vAssert(i == 0 || c != ind, "a word is broken only when it does not fit a line by itself")
				}
			}
		}
	}
	if pos < n {
		vAssert(false, "all of the text is in the lines")
	}
	vReach("done")
}

// Breaking anywhere: every text, width and glyph width.
// symgo time=50s ttime=150s
func H_C13_strict() {
	c13Split(vChoice("n", 7+vTier()), "AB\n", nil, false)
}

// Breaking at an indicator.
// symgo time=40s ttime=200s
func H_C13_words() {
	fn := vChoice("fn", 3)
	if fn == 2 {
		c13Split(1+vChoice("n", 4+vTier()), "A-\n", &BreakOption{Mode: BreakModeIndicatorSensitive, BreakIndicator: '-'}, false)
	} else if fn == 0 {
		c13Split(1+vChoice("n", 6+vTier()), "AB ", &BreakOption{Mode: BreakModeIndicatorSensitive, BreakIndicator: ' '}, false)
	} else {
		c13Split(1+vChoice("n", 5+vTier()), "A \n", &BreakOption{Mode: BreakModeIndicatorSensitive, BreakIndicator: ' ', Separator: "-"}, false)
	}
}

// Breaking with a separator.
// symgo time=60s ttime=150s
func H_C13_separator() {
	alphabet := []string{"AB", "A ", "A\n"}[vChoice("alphabet", 3)]
	c13Split(1+vChoice("n", 5+vTier()), alphabet, &BreakOption{Separator: []string{"-", "-B", "C"}[vChoice("sep", 3)]}, false)
}

// With kerning.
// symgo time=30s ttime=150s
func H_C13_kern() {
	o := []*BreakOption{nil, {Separator: "-"}, {Mode: BreakModeIndicatorSensitive, BreakIndicator: ' '}}[vChoice("opt", 3)]
	c13Split(1+vChoice("n", 5+vTier()), "AB", o, true)
}

// The other splitting calls are the same with their fixed options.
// symgo time=20s
func H_C13_calls() {
	pdf := &GoPdf{}
	pdf.Start(Config{PageSize: *PageSizeA4})
	vAssume(pdf.AddTTFFontDataWithOption("f", c13Font(false).build(), TtfOption{}) == nil)
	pdf.AddPage()
	pdf.SetFont("f", "", 125) // widths are whole eighths, exact in floating point
	text := ""
	for i := 0; i < 3; i++ {
		text += string("AB \n"[vChoice("c", 4)])
	}
	W := vFloat("W", 6, 375)
	var a, b []string
	var e1, e2 error
	if vChoice("call", 2) == 0 {
		a, e1 = pdf.SplitText(text, W)
		b, e2 = pdf.SplitTextWithOption(text, W, &BreakOption{Mode: BreakModeStrict})
	} else {
		a, e1 = pdf.SplitTextWithWordWrap(text, W)
		b, e2 = pdf.SplitTextWithOption(text, W, &BreakOption{Mode: BreakModeIndicatorSensitive, BreakIndicator: ' '})
	}
	vAssert(e1 == nil && e2 == nil && len(a) == len(b), "the splitting calls agree")
	for i := range a {
		vAssert(i >= len(b) || a[i] == b[i], "the splitting calls agree")
	}
}

// Words with any number of indicators between them: no other character is lost.
// symgo time=20s
func H_C13_spaces() {
	pdf := &GoPdf{}
	pdf.Start(Config{PageSize: *PageSizeA4})
	vAssume(pdf.AddTTFFontDataWithOption("f", c13Font(false).build(), TtfOption{}) == nil)
	pdf.AddPage()
	pdf.SetFont("f", "", 125) // widths are whole eighths, exact in floating point
	text, want, spaces := "", "", 0
	for i := 0; i < 5; i++ {
		c := []string{"A", " "}[vChoice("c", 2)]
		text += c
		if c == " " {
			spaces++
		} else {
			want += c
		}
	}
	W := vFloat("W", 6, 375)
	lines, err := pdf.SplitTextWithWordWrap(text, W)
	vAssert(err == nil, "text is split")
	got := ""
	left := 0
	for _, l := range lines {
		w, _ := pdf.MeasureTextWidth(l)
		vAssert(vOr(len(l) <= 1, w <= W), "a line fits the width, unless it is a single character")
		for _, c := range l {
			if c == ' ' {
				left++
			} else {
				got += string(c)
			}
		}
	}
	vAssert(got == want, "all of the text is in the lines")
	vAssert(left <= spaces && left >= spaces-(len(lines)-1)-1, "at most one indicator is dropped where a line is broken")
	vReach("done")
}
