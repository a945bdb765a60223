package gopdf

// c11Font is the font program embedded in the output.
type c11Font struct {
	b   []byte
	tab map[string][]byte
	tag []string
}

func c11U16(b []byte, i int) int { return int(b[i])<<8 | int(b[i+1]) }
func c11U32(b []byte, i int) int { return c11U16(b, i)<<16 | c11U16(b, i+2) }

func c11Sfnt(b []byte) *c11Font {
	f := &c11Font{b: b, tab: map[string][]byte{}}
	vAssert(len(b) >= 12, "the font program has a table directory")
	if len(b) < 12 {
		return nil
	}
	vAssert(c11U32(b, 0) == 0x00010000, "the font program is a TrueType font")
	n := vConc(c11U16(b, 4))
	es, p2 := 0, 1
	for p2*2 <= n {
		p2 *= 2
		es++
	}
	vAssert(c11U16(b, 6) == p2*16 && c11U16(b, 8) == es && c11U16(b, 10) == n*16-p2*16, "the search fields of the table directory are right")
	vAssert(len(b) >= 12+16*n, "the table directory is complete")
	if len(b) < 12+16*n {
		return nil
	}
	last, end := "", 12+16*n
	for i := 0; i < n; i++ {
		e := b[12+16*i:]
		tag := string(e[:4])
		vAssert(last < tag, "tables are in order, each once")
		last = tag
		off, l := vConc(c11U32(e, 8)), vConc(c11U32(e, 12))
		vAssert(off%4 == 0, "tables are aligned")
		vAssert(off >= end && off+l <= len(b), "tables lie in the font program without overlap")
		if off < 0 || off+l > len(b) {
			return nil
		}
		end = off + l
		f.tab[tag] = b[off : off+l]
		f.tag = append(f.tag, tag)
	}
	return f
}

// c11Read reads the font program of a font resource of page 1.
func c11Read(d *vDoc, name string) *c11Font {
	t0 := d.obj(d.res(0, "Font").get(name).I)
	if t0 == nil {
		vAssert(false, "the font resource is in the document")
		return nil
	}
	df := t0.O.get("DescendantFonts").Vals
	if len(df) != 1 || d.obj(df[0].I) == nil {
		vAssert(false, "a composite font has one descendant")
		return nil
	}
	ds := d.obj(d.obj(df[0].I).O.get("FontDescriptor").I)
	if ds == nil {
		vAssert(false, "the font has a descriptor")
		return nil
	}
	ff := d.obj(ds.O.get("FontFile2").I)
	vAssert(ff != nil && ff.HasS, "the font program is embedded")
	if ff == nil {
		return nil
	}
	b := []byte(ff.Stream)
	if ff.O.has("Filter") {
		b, _ = vInflate(b)
	}
	vAssert(ff.O.get("Length1").I == len(b), "Length1 is the size of the font program")
	return c11Sfnt(b)
}

// c11Comps lists the components of a glyph, as the OpenType specification reads it.
func c11Comps(g []byte) (r []int) {
	if len(g) < 10 || g[0] < 0x80 {
		return
	}
	for o := 10; o+4 <= len(g); {
		fl := c11U16(g, o)
		r = append(r, vConc(c11U16(g, o+2)))
		o += 4
		if fl&1 != 0 {
			o += 4
		} else {
			o += 2
		}
		if fl&8 != 0 {
			o += 2
		} else if fl&0x40 != 0 {
			o += 4
		} else if fl&0x80 != 0 {
			o += 8
		}
		if fl&0x20 == 0 {
			return
		}
	}
	return
}

// check asserts that the embedded program contains the glyphs used, and all
// they are made of, exactly as in the source font.
func (e *c11Font) check(f *vFont, used []int) {
	_, src := f.tables()
	for _, t := range []string{"cvt ", "fpgm", "head", "hhea", "hmtx", "maxp", "prep"} {
		if t == f.omit {
			vAssert(len(e.tab[t]) == 0, "a table the font lacks is not made up")
			continue
		}
		vAssert(len(e.tab[t]) == len(src[t]), "tables the glyphs need keep their size")
		if len(e.tab[t]) == len(src[t]) {
			vAssert(vStrEq(string(e.tab[t]), string(src[t])), "tables the glyphs need are those of the font")
		}
	}
	need := make([]bool, f.numGlyphs)
	need[0] = true
	for _, g := range used {
		need[g] = true
	}
	for again := true; again; {
		again = false
		for g := range need {
			if need[g] {
				for _, c := range c11Comps(f.glyf[g]) {
					if !need[c] {
						need[c], again = true, true
					}
				}
			}
		}
	}
	loca, glyf := e.tab["loca"], e.tab["glyf"]
	at := func(i int) int {
		if f.long {
			return vConc(c11U32(loca, 4*i))
		}
		return 2 * vConc(c11U16(loca, 2*i))
	}
	sz := 2
	if f.long {
		sz = 4
	}
	vAssert(len(loca) >= sz*(f.numGlyphs+1), "the index has an entry for every glyph of the font")
	if len(loca) < sz*(f.numGlyphs+1) {
		return
	}
	for g := 0; g < f.numGlyphs; g++ {
		a, b := at(g), at(g+1)
		vAssert(a <= b && b <= len(glyf), "glyphs lie in the glyph table in order")
		if a > b || b > len(glyf) || !need[g] {
			continue
		}
		vAssert(b-a == len(f.glyf[g]), "a glyph that is used keeps its size")
		if b-a == len(f.glyf[g]) {
			vAssert(vStrEq(string(glyf[a:b]), string(f.glyf[g])), "a glyph that is used is embedded unchanged")
		}
	}
}

func c11Glyph(n string, l int) []byte {
	b := vBytes(n, l)
	if l > 0 {
		b[0] = 0 // not composite
	}
	return b
}

// Simple glyphs of any content and size, both index formats, any subset used in any order.
// symgo time=40s
func H_C11_simple() {
	f := vStdFont(4)
	f.long = vChoice("long", 2) == 1
	if f.long {
		// odd sizes are possible
		f.glyf[1] = c11Glyph("g1", []int{0, 11, 13}[vChoice("l1", 3)])
		f.glyf[2] = c11Glyph("g2", 12+vChoice("l2", 2))
	} else {
		f.glyf[1] = c11Glyph("g1", []int{0, 12, 14}[vChoice("l1", 3)])
	}
	f.glyf[4] = c11Glyph("g4", 14)
	if vChoice("kern", 2) == 1 {
		f.kern = []vKern{{1, 2, -50}}
	}
	pdf := vMini(Config{PageSize: *PageSizeA4}, f)
	pdf.AddPage()
	pdf.SetFont("f", "", 12)
	n := 1 + vChoice("n", 2+vTier())
	txt, used := "", []int{}
	for i := 0; i < n; i++ {
		k := vChoice("c", 4)
		txt += string(rune('A' + k))
		used = append(used, k+1)
	}
	vAssert(pdf.Cell(nil, txt) == nil, "text in a loaded font is drawn")
	d := vOut8(pdf)
	if e := c11Read(d, c11Name(d)); e != nil {
		e.check(f, used)
	}
	vReach("done")
}

// Composite glyphs, also nested, with any flags, arguments and scales.
// symgo time=40s ttime=200s
func H_C11_composite() {
	f := vStdFont(5)
	f.long = vChoice("long", 2) == 1
	// glyph 1 has up to three components among 2..5; glyph 2 can be composite, too
	mk := func(n string, k int, of []int) []byte {
		g := []byte{0xFF, 0xFF, 0, 0, 0, 0, 0, 0, 0, 0}
		for i := 0; i < k; i++ {
			words := vChoice(n+"words", 2)
			scale := []int{0, 8, 0x40, 0x80}[vChoice(n+"scale", 4)]
			other := vInt(n+"other", 0, 31)
			fl := words | scale | other&3<<1 | other>>2<<9
			sz := []int{2, 4}[words]
			if scale > 0 {
				sz += []int{0, 2, 4, 8}[map[int]int{8: 1, 0x40: 2, 0x80: 3}[scale]]
			}
			if i < k-1 {
				fl |= 0x20
			}
			g = vU16(g, fl)
			g = vU16(g, of[vChoice(n+"of", len(of))])
			g = append(g, vBytes(n+"arg", sz)...)
		}
		return g
	}
	n := 1 + vChoice("n", 2+vTier())
	f.glyf[1] = mk("a", n, []int{2, 3, 5})
	if n == 1+vTier() && vChoice("nested", 2) == 1 {
		f.glyf[2] = mk("b", 1, []int{4, 3})
	}
	f.glyf[3] = c11Glyph("g3", 12)
	f.glyf[4] = c11Glyph("g4", 12)
	f.glyf[5] = c11Glyph("g5", 16)
	pdf := vMini(Config{PageSize: *PageSizeA4}, f)
	pdf.AddPage()
	pdf.SetFont("f", "", 12)
	t := []string{"A", "EA", "BCA", "AE"}[vChoice("text", 4)] // with components used before
	vAssert(pdf.Text(t) == nil, "text in a loaded font is drawn")
	d := vOut8(pdf)
	if e := c11Read(d, c11Name(d)); e != nil {
		var used []int
		for _, c := range t {
			used = append(used, int(c-'A')+1)
		}
		e.check(f, used)
	}
	vReach("done")
}

// Tables of any content and size, in any order, or missing.
// symgo time=30s
func H_C11_tables() {
	f := vStdFont(2)
	f.extra = map[string][]byte{}
	tabs := []string{"cvt ", "fpgm", "prep"}
	switch k := vChoice("case", 3); k {
	case 0:
		t := tabs[vChoice("t", 3)]
		f.extra[t] = vBytes("tab", vChoice("len", 10))
		if vChoice("last", 2) == 1 {
			f.last = t
		}
	case 1:
		f.omit = tabs[vChoice("t", 3)]
	case 2:
		_, src := f.tables()
		t := []string{"head", "hhea", "maxp", "hmtx"}[vChoice("t", 4)]
		b := append([]byte{}, src[t]...)
		// values that do not describe the format of the font
		var at []int
		switch t {
		case "head":
			at = []int{4, 5, 8, 9, 16, 20, 36, 44, 45}
		case "hhea":
			at = []int{4, 5, 8, 9, 10, 33}
		case "maxp":
			at = []int{6, 7, 12, 31}
		case "hmtx":
			at = []int{0, 1, 2, 3, 6, len(b) - 1}
		}
		for _, i := range at {
			b[i] = vByte("v")
		}
		f.extra[t] = b
		if vChoice("last", 2) == 1 {
			f.last = t
		}
	}
	pdf := vMini(Config{PageSize: *PageSizeA4}, f)
	pdf.AddPage()
	pdf.SetFont("f", "", 12)
	vAssert(pdf.Text("BA") == nil, "text in a loaded font is drawn")
	d := vOut8(pdf)
	if e := c11Read(d, c11Name(d)); e != nil {
		e.check(f, []int{1, 2})
	}
	vReach("done")
}

// Text added in several calls, on several pages and after an output was already written
// is all embedded.
// symgo time=30s
func H_C11_later() {
	f := vStdFont(4)
	for i := 1; i < 5; i++ {
		f.glyf[i] = c11Glyph("g", 12)
	}
	pdf := vMini(Config{PageSize: *PageSizeA4}, f)
	pdf.AddPage()
	pdf.SetFont("f", "", 12)
	var used []int
	for i := 0; i < 3; i++ {
		k := vChoice("c", 4)
		used = append(used, k+1)
		switch vChoice("how", 4) {
		case 0:
			vAssert(pdf.Text(string(rune('A'+k))) == nil, "text in a loaded font is drawn")
		case 1:
			vAssert(pdf.CellWithOption(&Rect{W: 50, H: 20}, string(rune('A'+k)), CellOption{Align: Center}) == nil, "text in a loaded font is drawn")
		case 2:
			pdf.AddPage()
			vAssert(pdf.MultiCell(&Rect{W: 50, H: 20}, string(rune('A'+k))) == nil, "text in a loaded font is drawn")
		case 3:
			vOut8(pdf)
			vAssert(pdf.Text(string(rune('A'+k))) == nil, "text in a loaded font is drawn")
		}
	}
	d := vOut8(pdf)
	if e := c11Read(d, c11Name(d)); e != nil {
		e.check(f, used)
	}
	vReach("done")
}

// c11Name is the font resource of page 1.
func c11Name(d *vDoc) string {
	k := d.res(0, "Font").Keys
	if len(k) != 1 {
		vAssert(false, "the page has the one font that is used")
		return ""
	}
	return k[0]
}

// Glyphs of any size up to many thousands of bytes, so that the offsets of the subset need every byte they have.
// symgo time=30s steps=40000000
func H_C11_large() {
	f := vStdFont(4)
	f.long = vChoice("long", 2) == 1
	l := []int{8190, 16400, 30000}[vChoice("size", 3)]
	if f.long {
		l += l/7 - 1
	}
	for i := 1; i < 5; i++ {
		b := make([]byte, l)
		v := vBytes("g"+vItoa(i), 2)
		b[11], b[l-1] = v[0], v[1]
		f.glyf[i] = b
	}
	pdf := vMini(Config{PageSize: *PageSizeA4}, f)
	pdf.AddPage()
	pdf.SetFont("f", "", 12)
	txt, used := "", []int{}
	for i := 0; i < 4; i++ {
		if vChoice("c", 2) == 1 {
			txt += string(rune('A' + i))
			used = append(used, i+1)
		}
	}
	if txt == "" {
		return
	}
	vAssert(pdf.Cell(nil, txt) == nil, "text in a loaded font is drawn")
	d := vOut8(pdf)
	if e := c11Read(d, c11Name(d)); e != nil {
		e.check(f, used)
	}
	vReach("done")
}
