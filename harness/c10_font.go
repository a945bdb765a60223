package gopdf

func c10Font(kern bool) []byte {
	f := vStdFont(2)
	f.groups = []vGrp{{'A', 'A', 1}, {0x10000, 0x10000, 2}}
	// glyph 2 is composite: glyph 1 and glyph 0
	f.glyf[2] = []byte{0xFF, 0xFF, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x20, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0}
	if kern {
		f.kern = []vKern{{1, 2, -50}}
	}
	f.gids = []int{1}
	f.segs[1] = vSeg{'A', 'B', (1 - 'A') & 0xFFFF, 0}
	return f.build()
}

// c10Use loads a font and, when it is accepted, uses it for everything; any
// step may report an error.
func c10Use(b []byte) {
	pdf := &GoPdf{}
	pdf.Start(Config{PageSize: *PageSizeA4})
	pdf.AddPage()
	if pdf.AddTTFFontDataWithOption("f", b, TtfOption{UseKerning: true}) != nil {
		vReach("rejected")
		return
	}
	vReach("accepted")
	if pdf.SetFont("f", "U", 12) != nil {
		return
	}
	pdf.MeasureTextWidth("AB C")
	pdf.MeasureCellHeightByText("A")
	if pdf.Text("AB\U00010000") != nil {
		return
	}
	if pdf.Cell(&Rect{W: 50, H: 20}, "BA Z") != nil {
		return
	}
	s := &vSink{}
	if _, err := pdf.WriteTo(s); err != nil {
		vReach("output error")
		return
	}
	vReach("written")
	d := vParse(s.b)
	vAssert(d.OK, "a document with an accepted font is well formed")
	vCheckFile(d)
	vCheckRefs(d)
}

// A font file cut off at any length is rejected with an error or works.
// symgo time=30s
func H_C10_truncated() {
	b := c10Font(true)
	n := vChoice("len", len(b))
	c10Use(b[:n])
}

// A font in which any one 16-bit word has any value is rejected with an error or works.
// symgo time=40s ttime=400s order=bfs
func H_C10_word() {
	b := c10Font(true)
	w := vChoice("word", len(b)/2)
	v := vInt("v", 0, 65535)
	b[2*w], b[2*w+1] = byte(v>>8), byte(v)
	c10Use(b)
}

// c10At is the offset of byte k of a table in the font file.
func c10At(b []byte, tag string, k int) int {
	n := int(b[4])<<8 | int(b[5])
	for i := 0; i < n; i++ {
		e := b[12+16*i:]
		if string(e[:4]) == tag {
			return int(e[8])<<24 | int(e[9])<<16 | int(e[10])<<8 | int(e[11]) + k
		}
	}
	return 0
}

// A font whose table directory, or group count, has any 32-bit value in any one place.
// symgo time=30s ttime=200s order=bfs
func H_C10_directory() {
	b := c10Font(true)
	n := int(b[4])<<8 | int(b[5])
	k := vChoice("at", 2*n+5)
	at := 0
	switch {
	case k < 2*n:
		at = 12 + 16*(k/2) + 8 + 4*(k%2) // offset or length of a table
	default:
		at = c10At(b, "cmap", []int{8, 16, 0, 0, 0}[k-2*n])
		if k-2*n >= 2 {
			g := c10At(b, "cmap", int(b[c10At(b, "cmap", 18)])<<8|int(b[c10At(b, "cmap", 19)]))
			at = g + []int{12, 16, 24}[k-2*n-2] // number of groups, first group
		}
	}
	hi, lo := vInt("hi", 0, 65535), vInt("lo", 0, 65535)
	b[at], b[at+1], b[at+2], b[at+3] = byte(hi>>8), byte(hi), byte(lo>>8), byte(lo)
	c10Use(b)
}

// A font with any values in two of the fields that size or address other tables.
// symgo tier=thorough ttime=200s
func H_C10_twofields() {
	b := c10Font(true)
	sub := c10At(b, "cmap", int(b[c10At(b, "cmap", 10)])<<8|int(b[c10At(b, "cmap", 11)]))
	fs := []int{c10At(b, "maxp", 4), c10At(b, "hhea", 34), c10At(b, "head", 18), c10At(b, "head", 50), sub + 2, sub + 6, sub + 14, c10At(b, "loca", 2), c10At(b, "loca", 4), c10At(b, "name", 2), c10At(b, "name", 4), c10At(b, "name", 14), c10At(b, "kern", 2), c10At(b, "kern", 6), c10At(b, "kern", 10)}
	i := vChoice("i", len(fs)-1)
	j := i + 1 + vChoice("j", len(fs)-1-i)
	v, w := vInt("v", 0, 65535), vInt("w", 0, 65535)
	b[fs[i]], b[fs[i]+1] = byte(v>>8), byte(v)
	b[fs[j]], b[fs[j]+1] = byte(w>>8), byte(w)
	c10Use(b)
}
