package gopdf

// c08Font is what the output says about one font resource.
type c08Font struct {
	w    map[int]*vO
	uni  []c08Uni
	ok   bool
	cid  *vInd
	name string
}
type c08Uni struct {
	lo, hi int
	s      string
}

func c08Code(s string) int {
	if len(s) != 2 {
		return -1
	}
	return int(s[0])<<8 | int(s[1])
}

// c08Read follows a page's font resource to its widths and its ToUnicode map.
func c08Read(d *vDoc, page int, name string) *c08Font {
	f := &c08Font{name: name, w: map[int]*vO{}}
	t0 := d.obj(d.res(page, "Font").get(name).I)
	vAssert(t0 != nil && t0.Type == "Font" && t0.O.get("Subtype").S == "Type0" && t0.O.get("Encoding").S == "Identity-H", "text uses a composite font with two-byte codes")
	if t0 == nil {
		return f
	}
	df := t0.O.get("DescendantFonts").Vals
	if len(df) != 1 || d.obj(df[0].I) == nil {
		vAssert(false, "a composite font has one descendant")
		return f
	}
	f.cid = d.obj(df[0].I)
	vAssert(f.cid.O.get("Subtype").S == "CIDFontType2", "the descendant is a TrueType font")
	// a missing map means identity
	vAssert(!f.cid.O.has("CIDToGIDMap") || f.cid.O.get("CIDToGIDMap").S == "Identity", "codes are glyph indices")
	tu := d.obj(t0.O.get("ToUnicode").I)
	vAssert(tu != nil && tu.HasS, "the font has a ToUnicode map")
	if tu == nil {
		return f
	}
	b := []byte(tu.Stream)
	if tu.O.has("Filter") {
		b, _ = vInflate(b)
	}
	toks := vTokens(b, false)
	space := false
	for i := 0; i+1 < len(toks); i++ {
		if toks[i].K != 'n' || toks[i+1].K != 'k' {
			continue
		}
		n := toks[i].I
		switch toks[i+1].S {
		case "begincodespacerange":
			vAssert(n == 1 && i+5 < len(toks) && toks[i+2].K == '<' && toks[i+2].S == "0000" && toks[i+3].K == '<' && (toks[i+3].S == "FFFF" || toks[i+3].S == "ffff"), "the code space covers every two-byte code")
			space = true
		case "beginbfrange", "beginbfchar":
			vAssert(n >= 1 && n <= 100, "a section of the ToUnicode map has one to a hundred entries")
			k := 3
			if toks[i+1].S == "beginbfchar" {
				k = 2
			}
			vAssert(i+2+k*n < len(toks) && (toks[i+2+k*n].S == "endbfrange" || toks[i+2+k*n].S == "endbfchar"), "a section has as many entries as it says")
			if i+2+k*n >= len(toks) {
				return f
			}
			for j := 0; j < n; j++ {
				e := toks[i+2+k*j:]
				u := c08Uni{lo: c08Code(vUnhex(e[0].S)), s: vUnhex(e[k-1].S)}
				u.hi = u.lo
				if k == 3 {
					u.hi = c08Code(vUnhex(e[1].S))
				}
				f.uni = append(f.uni, u)
			}
		}
	}
	vAssert(space, "the ToUnicode map has a code space")
	f.ok = true
	return f
}

// c08UTF16 is the big-endian UTF-16 form of a character.
func c08UTF16(r rune) string {
	if r >= 0x10000 {
		c := int(r) - 0x10000
		h, l := 0xD800+c>>10, 0xDC00+c&0x3FF
		return string([]byte{byte(h >> 8), byte(h), byte(l >> 8), byte(l)})
	}
	return string([]byte{byte(int(r) >> 8), byte(r)})
}

// glyph asserts that glyph code gid is described: width w of upem (a thousandth
// of rounding is allowed), and maps to the character r.
func (f *c08Font) glyph(gid int, r rune, w, upem int) {
	if !f.ok {
		return
	}
	v := f.cid.O.get("W").Vals
	vAssert(len(v)%2 == 0, "widths are given as pairs of first code and list")
	has, ok := false, false
	for i := 0; i+1 < len(v); i += 2 {
		for j, x := range v[i+1].Vals {
			is := v[i].I+j == gid
			has = vOr(has, is)
			ok = vOr(ok, vAnd(is, vAnd(x.I*upem-w*1000 <= upem, w*1000-x.I*upem <= upem)))
		}
	}
	if !has {
		dw := 1000
		if f.cid.O.has("DW") {
			dw = f.cid.O.get("DW").I
		}
		ok = vAnd(dw*upem-w*1000 <= upem, w*1000-dw*upem <= upem)
	}
	vAssert(ok, "the font gives the glyph's own width")
	if r == 0 {
		return
	}
	ok = false
	want := c08UTF16(r)
	for _, u := range f.uni {
		ok = vOr(ok, vAnd(u.lo == gid, vStrEq(u.s, want)))
	}
	vAssert(ok, "the ToUnicode map gives the character that was written")
	for _, u := range f.uni {
		vAssert(u.lo == u.hi, "entries of the ToUnicode map are single codes")
		vAssert(vImplies(u.lo == gid, vStrEq(u.s, want)), "the ToUnicode map gives no other character")
	}
}

// c08Shown is the two-byte codes shown on a page, in order, with the font name.
func c08Shown(d *vDoc, page int) (codes []int, fonts []string) {
	for _, m := range d.marks(page) {
		if m.Op != "TJ" {
			continue
		}
		t := vUnhex(m.Text)
		vAssert(len(t)%2 == 0, "text is shown in two-byte codes")
		for i := 0; i+1 < len(t); i += 2 {
			codes = append(codes, int(t[i])<<8|int(t[i+1]))
			fonts = append(fonts, m.G.Font)
		}
	}
	return
}

func c08Doc(f *vFont, o TtfOption) *GoPdf {
	pdf := &GoPdf{}
	pdf.Start(Config{PageSize: *PageSizeA4})
	err := pdf.AddTTFFontDataWithOption("f", f.build(), o)
	vAssert(err == nil, "a well-formed font loads")
	vAssume(err == nil)
	pdf.AddPage()
	vAssert(pdf.SetFont("f", "", 12) == nil, "a loaded font can be selected")
	return pdf
}

// Every character of a text is shown with its own glyph, width and ToUnicode entry;
// missing ones are reported and replaced by the substitute.
// symgo time=40s
func H_C08_chars() {
	f := vStdFont(3)
	var missing []rune
	o := TtfOption{OnGlyphNotFound: func(r rune) { missing = append(missing, r) }}
	sub, subG := ' ', 4
	switch vChoice("sub", 3) {
	case 1:
		sub, subG = 'B', 2
		o.OnGlyphNotFoundSubstitute = func(r rune) rune { return 'B' }
	case 2:
		sub, subG = 'Z', 0
		o.OnGlyphNotFoundSubstitute = func(r rune) rune { return 'Z' }
	}
	if vBool("zero") { // 'D' and 'E' are in the map, as the missing glyph
		f.segs = append(f.segs, vSeg{'D', 'D', (0 - 'D') & 0xFFFF, 0}, vSeg{'E', 'E', 5, 4})
		f.gids = []int{0}
	}
	pdf := c08Doc(f, o)
	n := vChoice("len", 2+vTier()) + 1
	var rs []rune
	for i := 0; i < n; i++ {
		rs = append(rs, vRune("r"+vItoa(i), '@', 'F'))
	}
	switch vChoice("how", 3) {
	case 0:
		vAssert(pdf.Text(string(rs)) == nil, "text is accepted")
	case 1:
		vAssert(pdf.Cell(&Rect{W: 100, H: 20}, string(rs)) == nil, "a cell is accepted")
	case 2:
		for _, r := range rs {
			vAssert(pdf.Text(string(r)) == nil, "text is accepted")
		}
	}
	d := vOut8(pdf)
	if !d.OK {
		return
	}
	codes, fonts := c08Shown(d, 0)
	vAssert(len(codes) == n, "one glyph is shown per character")
	if len(codes) != n {
		return
	}
	fr := c08Read(d, 0, fonts[0])
	nm := 0
	for i, r := range rs {
		vAssert(fonts[i] == fonts[0], "the font is the one selected")
		if r >= 'A' && r <= 'C' {
			vAssert(codes[i] == int(r-'A')+1, "the glyph shown is the character's")
			fr.glyph(codes[i], r, f.widths[vConc(int(r-'A'))+1], f.upem)
			continue
		}
		vAssert(codes[i] == subG, "a missing character is shown as the substitute")
		fr.glyph(codes[i], sub, f.widths[subG], f.upem)
		nm++
		vAssert(len(missing) >= nm && missing[nm-1] == r, "each missing character is reported, in order")
	}
	vAssert(len(missing) == nm, "only missing characters are reported")
}

// Characters beyond the basic plane, glyph ids of every size and many different characters.
// symgo time=20s
func H_C08_planes() {
	f := vStdFont(3)
	f.groups = []vGrp{{' ', ' ', 4}, {'A', 'C', 1}, {0x1F600, 0x1F602, 1}}
	pdf := c08Doc(f, TtfOption{})
	r := vRune("r", 0x1F600, 0x1F602)
	s := []rune{'A', r}
	if vBool("cell") {
		vAssert(pdf.Cell(nil, string(s[1:])) == nil, "a cell is accepted")
	} else {
		vAssert(pdf.Text(string(s[1:])) == nil, "text is accepted")
	}
	d := vOut8(pdf)
	if !d.OK {
		return
	}
	codes, fonts := c08Shown(d, 0)
	vAssert(len(codes) == 1, "one glyph is shown per character")
	if len(codes) != 1 {
		return
	}
	vAssert(codes[0] == int(r)-0x1F600+1, "the glyph shown is the character's")
	c08Read(d, 0, fonts[0]).glyph(codes[0], r, f.widths[vConc(int(r)-0x1F600+1)], 1000)
}

// Many different characters in one font.
// symgo time=20s
func H_C08_many() {
	n := []int{99, 100, 101, 201, 300}[vChoice("n", 5)]
	f := &vFont{upem: 1000, numGlyphs: n + 2, nHM: []int{n + 2, 1, 50}[vChoice("nhm", 3)], asc: 800, desc: -200, typoAsc: 750, typoDesc: -250}
	for i := 0; i < n+2; i++ {
		f.widths = append(f.widths, 300+i)
		f.glyf = append(f.glyf, []byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0})
	}
	f.segs = []vSeg{{' ', ' ', (n + 1 - ' ') & 0xFFFF, 0}, {0x4E00, 0x4E00 + n - 1, (1 - 0x4E00) & 0xFFFF, 0}}
	pdf := c08Doc(f, TtfOption{})
	var rs []rune
	for i := 0; i < n; i++ {
		rs = append(rs, rune(0x4E00+(i*7)%n))
	}
	pdf.Text(string(rs))
	d := vOut8(pdf)
	if !d.OK {
		return
	}
	codes, fonts := c08Shown(d, 0)
	vAssert(len(codes) == n, "one glyph is shown per character")
	if len(codes) != n {
		return
	}
	fr := c08Read(d, 0, fonts[0])
	for i := range rs {
		g := int(rs[i]) - 0x4E00 + 1
		vAssert(codes[i] == g, "the glyph shown is the character's")
		w := g
		if w >= f.nHM {
			w = f.nHM - 1
		}
		if i%17 == 0 || i > n-3 {
			fr.glyph(g, rs[i], f.widths[w], 1000)
		}
	}
}

// Two fonts, used on two pages in any order, keep their own glyphs and widths.
// symgo time=30s
func H_C08_twofonts() {
	f, g := vStdFont(3), vStdFont(2)
	for i := range g.widths {
		g.widths[i] = vInt("w"+vItoa(i), 0, 2000)
	}
	g.segs = []vSeg{{' ', ' ', (3 - ' ') & 0xFFFF, 0}, {'B', 'C', (1 - 'B') & 0xFFFF, 0}}
	pdf := c08Doc(f, TtfOption{})
	vAssert(pdf.AddTTFFontData("g", g.build()) == nil, "a well-formed font loads")
	type use struct {
		page, fam int
		r         rune
	}
	var us []use
	page := 0
	for i := 0; i < 2+vTier(); i++ {
		n := vItoa(i)
		if vBool("page" + n) {
			pdf.AddPage()
			page++
		}
		u := use{page, vChoice("fam"+n, 2), vRune("r"+n, 'B', 'C')}
		vAssert(pdf.SetFont([]string{"f", "g"}[u.fam], "", 10+i) == nil, "a loaded font can be selected")
		vAssert(pdf.Text(string(u.r)) == nil, "text is accepted")
		us = append(us, u)
	}
	d := vOut8(pdf)
	if !d.OK {
		return
	}
	for p := 0; p <= page; p++ {
		codes, fonts := c08Shown(d, p)
		k := 0
		for _, u := range us {
			if u.page != p {
				continue
			}
			if k >= len(codes) {
				vAssert(false, "one glyph is shown per character")
				return
			}
			w, gid := f.widths, int(u.r-'A')+1
			if u.fam == 1 {
				w, gid = g.widths, int(u.r-'B')+1
			}
			vAssert(codes[k] == gid, "the glyph shown is the character's in its font")
			c08Read(d, p, fonts[k]).glyph(gid, u.r, w[vConc(gid)], 1000)
			k++
		}
		vAssert(k == len(codes), "one glyph is shown per character")
	}
}

// The width of a glyph is given in thousandths of the em, whatever the font's units.
// symgo time=30s
func H_C08_width() {
	f := vStdFont(1)
	f.upem = []int{1000, 2048, 16, 256, 16384}[vChoice("upem", 5)]
	f.widths[1] = vInt("w", 0, 65535)
	pdf := c08Doc(f, TtfOption{})
	pdf.Text("A")
	d := vOut8(pdf)
	codes, fonts := c08Shown(d, 0)
	vAssert(len(codes) == 1, "one glyph is shown per character")
	if len(codes) == 1 {
		c08Read(d, 0, fonts[0]).glyph(1, 'A', f.widths[1], f.upem)
	}
}

// A font family may have any name: the document stays well formed and the font keeps one name.
// symgo time=30s
func H_C08_family() {
	b := []byte{byte(vChoice("hi", 16)*16 + vChoice("lo", 16))}
	pdf := &GoPdf{}
	pdf.Start(Config{PageSize: *PageSizeA4})
	name := "x" + string(b) + []string{"", "y", " "}[vChoice("end", 3)]
	vAssert(pdf.AddTTFFontData(name, vStdFont(1).build()) == nil, "a well-formed font loads")
	pdf.AddPage()
	vAssert(pdf.SetFont(name, "", 12) == nil, "a loaded font can be selected")
	pdf.Text("A")
	d := vOut8(pdf)
	if !d.OK {
		return
	}
	vCheckFile(d)
	codes, fonts := c08Shown(d, 0)
	vAssert(len(codes) == 1, "one glyph is shown per character")
	if len(codes) != 1 {
		return
	}
	t0 := d.obj(d.res(0, "Font").get(fonts[0]).I)
	fr := c08Read(d, 0, fonts[0])
	if !fr.ok {
		return
	}
	fr.glyph(1, 'A', 510, 1000)
	fd := d.obj(fr.cid.O.get("FontDescriptor").I)
	vAssert(fd != nil && fd.O.get("FontName").K == '/' && t0.O.get("BaseFont").K == '/' && fr.cid.O.get("BaseFont").K == '/', "the font's names are names")
	if fd != nil {
		vAssert(vStrEq(fd.O.get("FontName").S, fr.cid.O.get("BaseFont").S), "the font has one name")
		vAssert(vStrEq(t0.O.get("BaseFont").S, fr.cid.O.get("BaseFont").S), "the font has one name")
	}
}

// Any character of any plane, in the font or not: shown by its own glyph, or reported and replaced.
// symgo time=30s
func H_C08_any() {
	f := vStdFont(3)
	in := vInt("in", 0x21, 0xFFFE)
	vAssume(vOr(in < 'A', in > 'C'))
	has := vChoice("has", 2) == 1
	if has { // the font has this character and no other but a few letters
		s := vSeg{in, in, (2 - in) & 0xFFFF, 0}
		if vChoice("order", 2) == 0 {
			vAssume(in < 'A')
			f.segs = []vSeg{f.segs[0], s, f.segs[1]}
		} else {
			vAssume(in > 'C')
			f.segs = append(f.segs, s)
		}
	}
	var missing []rune
	o := TtfOption{OnGlyphNotFound: func(r rune) { missing = append(missing, r) }}
	pdf := c08Doc(f, o)
	r := rune(in)
	if !has && vChoice("plane", 2) == 1 {
		r = vRune("r", 0x10000, 0x10FFFF)
	}
	vAssume(vOr(int(r) < 0xD800, int(r) > 0xDFFF)) // not characters
	t := []rune{r}
	at := vChoice("at", 2)
	if at == 1 {
		t = []rune{'A', r, 'C'}
	}
	if vChoice("how", 2) == 0 {
		vAssert(pdf.Text(string(t)) == nil, "text is accepted")
	} else {
		vAssert(pdf.Cell(&Rect{W: 100, H: 20}, string(t)) == nil, "a cell is accepted")
	}
	d := vOut8(pdf)
	if !d.OK {
		return
	}
	codes, fonts := c08Shown(d, 0)
	vAssert(len(codes) == len(t), "one glyph is shown per character")
	if len(codes) != len(t) {
		return
	}
	want := 4 // a space stands for it
	if has {
		want = 2
		vAssert(len(missing) == 0, "only missing characters are reported")
		c08Read(d, 0, fonts[0]).glyph(2, r, f.widths[2], f.upem)
	} else {
		vAssert(len(missing) == 1 && missing[0] == r, "each missing character is reported, in order")
	}
	vAssert(codes[at] == want, "the glyph shown is the character's")
}
