package gopdf

// c09Want is the glyph the format-4 table of f gives for character c (0: none),
// read as the OpenType specification says.
func c09Want(f *vFont, c int) int {
	n := len(f.segs)
	if !f.noTerm {
		n++
	}
	for i := 0; i < n; i++ {
		s := vSeg{0xFFFF, 0xFFFF, 1, 0}
		if i < len(f.segs) {
			s = f.segs[i]
		}
		if c > s.end {
			continue
		}
		if c < s.start {
			return 0
		}
		if s.ro == 0 {
			return (c + s.delta) & 0xFFFF
		}
		// the word ro bytes after the place of ro itself, plus two per character
		k := s.ro/2 + (c - s.start) - (n - i)
		if k < 0 || k >= len(f.gids) {
			return 0
		}
		g := f.gids[vConc(k)]
		if g == 0 {
			return 0
		}
		return (g + s.delta) & 0xFFFF
	}
	return 0
}

func c09Load(f *vFont) *SubsetFontObj {
	pdf := &GoPdf{}
	pdf.Start(Config{PageSize: *PageSizeA4})
	s := &SubsetFontObj{}
	s.init(func() *GoPdf { return pdf })
	s.SetTtfFontOption(TtfOption{})
	err := s.SetTTFData(f.build())
	vAssert(err == nil, "a font with a valid character map loads")
	vAssume(err == nil)
	return s
}

func c09Check(s *SubsetFontObj, r rune, want int) {
	g, err := s.CharCodeToGlyphIndex(r)
	if err != nil {
		vAssert(vErrIs(err, ErrGlyphNotFound), "a missing character is reported as not found")
		g = 0
	}
	vAssert(int(g) == want, "the glyph found is the one the font's character map gives")
}

// Any segments with deltas: every character of the basic plane.
// symgo time=30s
func H_C09_delta() {
	f := vStdFont(1)
	f.segs = nil
	prev := -1
	n := 1 + vChoice("n", 2+vTier())
	for i := 0; i < n; i++ {
		k := vItoa(i)
		s := vSeg{start: vInt("start"+k, 0, 0xFFFF), delta: vInt("delta"+k, 0, 0xFFFF)}
		s.end = s.start + vChoice("len"+k, 3)
		vAssume(vAnd(s.start > prev, s.end <= 0xFFFF))
		prev = s.end
		f.segs = append(f.segs, s)
	}
	// a segment that ends at the last code is the terminating one
	f.noTerm = vBool("noterm")
	vAssume(vOr(f.noTerm, prev < 0xFFFF))
	r := vRune("r", 0, 0xFFFF)
	c09Check(c09Load(f), r, c09Want(f, int(r)))
}

// Segments that use the glyph id array, with any glyph ids, deltas and offsets into it.
// symgo time=40s
func H_C09_array() {
	f := vStdFont(1)
	ng := 2 + vTier()
	for i := 0; i < ng; i++ {
		f.gids = append(f.gids, vInt("g"+vItoa(i), 0, 0xFFFF))
	}
	st := vInt("start", 0, 0xFFF0)
	l := vChoice("len", 2+vTier())
	f.segs = []vSeg{{st, st + l, vInt("delta", 0, 0xFFFF), 0}, {0xFFF5, 0xFFF6, vInt("delta2", 0, 0xFFFF), 0}}
	n := len(f.segs)
	f.noTerm = vBool("noterm")
	if !f.noTerm {
		n++
	}
	// word offset into the array: from its start (0) on, possibly past its end
	f.segs[0].ro = 2 * (n + vChoice("k", 3+vTier()))
	if vBool("both") {
		f.segs[1].ro = 2 * (n - 1 + vChoice("k2", 2+vTier()))
	}
	r := vRune("r", 0, 0xFFFF)
	c09Check(c09Load(f), r, c09Want(f, int(r)))
}

// Format 12 groups: every character beyond the basic plane.
// symgo time=30s
func H_C09_groups() {
	f := vStdFont(1)
	prev := 0xFFFF
	n := 1 + vChoice("n", 3)
	for i := 0; i < n; i++ {
		k := vItoa(i)
		g := vGrp{vInt("start"+k, 0x10000, 0x10FFFF), vInt("end"+k, 0x10000, 0x10FFFF), vInt("gid"+k, 0, 0xFFFF)}
		vAssume(g.start <= g.end)
		vAssume(g.start > prev)
		prev = g.end
		f.groups = append(f.groups, g)
	}
	r := vRune("r", 0x10000, 0x10FFFF)
	want := 0
	for _, g := range f.groups {
		if int(r) >= g.start && int(r) <= g.end {
			want = g.gid + int(r) - g.start
		}
	}
	c09Check(c09Load(f), r, want)
}

// A long glyph id array: characters from its start to just past its end.
// symgo time=30s steps=30000000
func H_C09_long() {
	f := vStdFont(1)
	n := []int{300, 4200, 32700}[vChoice("n", 3)]
	for i := 0; i < n; i++ {
		f.gids = append(f.gids, i&0x7FFF|1)
	}
	st := []int{0, 0x100, 0xFFFE - n}[vChoice("start", 3)]
	f.segs = []vSeg{{st, st + n - 1, []int{0, 0xFFFE, 77}[vChoice("delta", 3)], 4}}
	k := []int{0, 1, 127, 128, 255, 256, 257, 299, 300, 4094, 4095, 4096, 4097, 4199, 4200, 8191, 8192, 16383, 16384, 32698, 32699, 32700, -1}[vChoice("k", 23)]
	if st+k < 0 || st+k > 0xFFFE {
		return
	}
	want := 0
	if k >= 0 && k < n {
		want = ((k&0x7FFF | 1) + f.segs[0].delta) & 0xFFFF
	}
	c09Check(c09Load(f), rune(st+k), want)
}
