package gopdf

import "strings"

// Synthetic TrueType fonts for the harnesses, built byte by byte so that any
// field can be symbolic.

type vSeg struct{ start, end, delta, ro int }
type vGrp struct{ start, end, gid int }
type vKern struct{ l, r, v int }

type vFont struct {
	upem      int
	numGlyphs int
	nHM       int // numberOfHMetrics
	widths    []int
	glyf      [][]byte
	segs      []vSeg // without the 0xFFFF terminator
	noTerm    bool
	gids      []int
	groups    []vGrp
	kern      []vKern
	kernSplit int // >0: second kern subtable starts at this pair
	asc, desc int
	long      bool
	typoAsc   int
	typoDesc  int
	winAsc    int
	winDesc   int
	upos      int
	uthick    int
	bbox      [4]int
	capH      int
	xH        int
	family    string
	last      string            // table placed last in the file
	omit      string            // table left out
	extra     map[string][]byte // other contents of tables
}

func vU16(b []byte, v int) []byte { return append(b, byte(v>>8), byte(v)) }
func vU32(b []byte, v int) []byte {
	return append(b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
}

// vStdFont: glyphs 1.. for 'A'.. (n letters), space = glyph n+1
func vStdFont(n int) *vFont {
	f := &vFont{upem: 1000, numGlyphs: n + 2, nHM: n + 2, asc: 800, desc: -200, typoAsc: 750, typoDesc: -250, winAsc: 900, winDesc: 300, upos: -100, uthick: 50, bbox: [4]int{-10, -200, 900, 800}, capH: 700, xH: 500}
	for i := 0; i < n+2; i++ {
		f.widths = append(f.widths, 500+i*10)
		f.glyf = append(f.glyf, []byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, byte(i), 0})
	}
	f.segs = []vSeg{{' ', ' ', (n + 1 - ' ') & 0xFFFF, 0}, {'A', 'A' + n - 1, (1 - 'A') & 0xFFFF, 0}}
	return f
}

func (f *vFont) cmap4() []byte {
	segs := append([]vSeg{}, f.segs...)
	if !f.noTerm {
		segs = append(segs, vSeg{0xFFFF, 0xFFFF, 1, 0})
	}
	n := len(segs)
	var b []byte
	b = vU16(b, 4)
	b = vU16(b, 16+8*n+2*len(f.gids))
	b = vU16(b, 0)
	b = vU16(b, 2*n)
	b = append(b, 0, 0, 0, 0, 0, 0)
	for _, s := range segs {
		b = vU16(b, s.end)
	}
	b = vU16(b, 0)
	for _, s := range segs {
		b = vU16(b, s.start)
	}
	for _, s := range segs {
		b = vU16(b, s.delta)
	}
	for _, s := range segs {
		b = vU16(b, s.ro)
	}
	for _, g := range f.gids {
		b = vU16(b, g)
	}
	return b
}

func (f *vFont) tables() ([]string, map[string][]byte) {
	t := map[string][]byte{}
	// cmap
	var c []byte
	c = vU16(c, 0)
	sub4 := f.cmap4()
	if len(f.groups) > 0 {
		c = vU16(c, 2)
		c = vU16(c, 3)
		c = vU16(c, 1)
		c = vU32(c, 20)
		c = vU16(c, 3)
		c = vU16(c, 10)
		c = vU32(c, 20+len(sub4))
		c = append(c, sub4...)
		c = vU16(c, 12)
		c = vU16(c, 0)
		c = vU32(c, 16+12*len(f.groups))
		c = vU32(c, 0)
		c = vU32(c, len(f.groups))
		for _, g := range f.groups {
			c = vU32(c, g.start)
			c = vU32(c, g.end)
			c = vU32(c, g.gid)
		}
	} else {
		c = vU16(c, 1)
		c = vU16(c, 3)
		c = vU16(c, 1)
		c = vU32(c, 12)
		c = append(c, sub4...)
	}
	t["cmap"] = c
	// glyf + loca
	var g, l []byte
	for i := 0; i <= f.numGlyphs; i++ {
		if f.long {
			l = vU32(l, len(g))
		} else {
			l = vU16(l, len(g)/2)
		}
		if i < len(f.glyf) {
			g = append(g, f.glyf[i]...)
		}
	}
	t["glyf"] = g
	t["loca"] = l
	// head
	var h []byte
	h = vU32(h, 0x00010000)
	h = vU32(h, 0)
	h = vU32(h, 0)
	h = vU32(h, 0x5F0F3CF5)
	h = vU16(h, 0)
	h = vU16(h, f.upem)
	for i := 0; i < 16; i++ {
		h = append(h, 0)
	}
	for _, v := range f.bbox {
		h = vU16(h, v)
	}
	h = vU16(h, 0)
	h = vU16(h, 8)
	h = vU16(h, 2)
	if f.long {
		h = vU16(h, 1)
	} else {
		h = vU16(h, 0)
	}
	h = vU16(h, 0)
	t["head"] = h
	// hhea
	var e []byte
	e = vU32(e, 0x00010000)
	e = vU16(e, f.asc)
	e = vU16(e, f.desc)
	for i := 0; i < 26; i++ {
		e = append(e, 0)
	}
	e = vU16(e, f.nHM)
	t["hhea"] = e
	// hmtx
	var m []byte
	for i := 0; i < f.numGlyphs; i++ {
		if i < f.nHM {
			m = vU16(m, f.widths[i])
		}
		m = vU16(m, 0)
	}
	t["hmtx"] = m
	// maxp
	var p []byte
	p = vU32(p, 0x00010000)
	p = vU16(p, f.numGlyphs)
	for i := 0; i < 26; i++ {
		p = append(p, 0)
	}
	t["maxp"] = p
	// name: one record, PostScript name
	ps := "VT"
	var nm []byte
	nm = vU16(nm, 0)
	nm = vU16(nm, 1)
	nm = vU16(nm, 18)
	nm = vU16(nm, 1)
	nm = vU16(nm, 0)
	nm = vU16(nm, 0)
	nm = vU16(nm, 6)
	nm = vU16(nm, len(ps))
	nm = vU16(nm, 0)
	nm = append(nm, ps...)
	t["name"] = nm
	// OS/2 version 2
	var o []byte
	o = vU16(o, 2)
	o = append(o, 0, 0, 0, 0, 0, 0)
	o = vU16(o, 0)
	for i := 0; i < 11*2+10+16+4; i++ {
		o = append(o, 0)
	}
	o = vU16(o, 0)
	o = append(o, 0, 0, 0, 0)
	o = vU16(o, f.typoAsc)
	o = vU16(o, f.typoDesc)
	o = vU16(o, 0)
	o = vU16(o, f.winAsc)
	o = vU16(o, f.winDesc)
	o = append(o, 0, 0, 0, 0, 0, 0, 0, 0)
	o = vU16(o, f.xH)
	o = vU16(o, f.capH)
	t["OS/2"] = o
	// post
	var q []byte
	q = vU32(q, 0x00030000)
	q = vU16(q, 0)
	q = vU16(q, 0)
	q = vU16(q, f.upos)
	q = vU16(q, f.uthick)
	q = vU32(q, 0)
	t["post"] = q
	t["cvt "] = []byte{0, 1, 0, 2}
	t["fpgm"] = []byte{0xB0, 0x2C, 0, 0}
	t["prep"] = []byte{0xB8, 0x01, 0xFF, 0x85}
	order := []string{"OS/2", "cmap", "cvt ", "fpgm", "glyf", "head", "hhea", "hmtx", "loca", "maxp", "name", "post", "prep"}
	if len(f.kern) > 0 {
		var k []byte
		k = vU16(k, 0)
		parts := [][]vKern{f.kern}
		if f.kernSplit > 0 {
			parts = [][]vKern{f.kern[:f.kernSplit], f.kern[f.kernSplit:]}
		}
		k = vU16(k, len(parts))
		for _, ks := range parts {
			k = vU16(k, 0)
			k = vU16(k, 14+6*len(ks))
			k = vU16(k, 1)
			k = vU16(k, len(ks))
			k = append(k, 0, 0, 0, 0, 0, 0)
			for _, x := range ks {
				k = vU16(k, x.l)
				k = vU16(k, x.r)
				k = vU16(k, x.v)
			}
		}
		t["kern"] = k
		order = append(order, "kern")
	}
	for _, n := range vSortedTabs(f.extra) {
		d := f.extra[n]
		t[n] = d
	}
	if f.omit != "" {
		var o2 []string
		for _, n := range order {
			if !strings.Contains(f.omit, n) {
				o2 = append(o2, n)
			}
		}
		order = o2
	}
	if f.last != "" {
		var o2 []string
		for _, n := range order {
			if n != f.last {
				o2 = append(o2, n)
			}
		}
		order = append(o2, f.last)
	}
	return order, t
}

func (f *vFont) build() []byte {
	order, t := f.tables()
	var b []byte
	b = vU32(b, 0x00010000)
	b = vU16(b, len(order))
	b = append(b, 0, 0, 0, 0, 0, 0)
	off := 12 + 16*len(order)
	for _, n := range order {
		d := t[n]
		b = append(b, n...)
		b = vU32(b, 0)
		b = vU32(b, off)
		b = vU32(b, len(d))
		off += (len(d) + 3) / 4 * 4
	}
	for i, n := range order {
		d := t[n]
		b = append(b, d...)
		if i == len(order)-1 && f.last != "" {
			break // unpadded last table
		}
		for k := len(d); k%4 != 0; k++ {
			b = append(b, 0)
		}
	}
	return b
}

func vSortedTabs(m map[string][]byte) []string {
	var r []string
	for _, n := range []string{"OS/2", "cmap", "cvt ", "fpgm", "glyf", "head", "hhea", "hmtx", "loca", "maxp", "name", "post", "prep"} {
		if _, ok := m[n]; ok {
			r = append(r, n)
		}
	}
	return r
}
