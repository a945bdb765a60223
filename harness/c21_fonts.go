package gopdf

import "bytes"

type c21Font struct {
	fam, style int
	code       string // the code of "A"
	width      int
}

var c21Fams = []string{"f", "F"}

// c21Build is font number i, which has a glyph, a width and metrics of its own for "A".
func c21Build(i int) (*vFont, c21Font) {
	f := vStdFont(4)
	f.segs = []vSeg{{'A', 'A', (1 + i - 'A') & 0xFFFF, 0}}
	f.widths = []int{500, 500, 500, 500, 500, 500}
	f.widths[1+i] = 300 + 100*i
	f.capH = 600 + i
	return f, c21Font{code: "000" + string(rune('1'+i)), width: 300 + 100*i}
}

func c21Style(s string) int {
	st := 0
	for _, c := range s {
		switch c {
		case 'B', 'b':
			st |= Bold
		case 'I', 'i':
			st |= Italic
		case 'U', 'u':
			st |= Underline
		}
	}
	return st
}

type c21Text struct {
	page, font int
	size       float64
	under      bool
}

func c21Run(n int, styles []string, sources, ops int) {
	pdf := vMini(Config{PageSize: *PageSizeA4}, nil)
	box := &FontContainer{}
	pdf.AddPage()
	pdf.SetNoCompression()
	page, src := 0, vChoice("src", sources)
	var fonts []c21Font
	var texts []c21Text
	cur, size, under := -1, 0.0, false
	for i := 0; i < n; i++ {
		s := vItoa(i)
		op := 0
		if i > 0 {
			op = vChoice("op"+s, ops)
		}
		switch op {
		case 0:
			raw, f := c21Build(len(fonts))
			f.fam = vChoice("fam"+s, 2)
			f.style = c21Style(styles[vChoice("st"+s, len(styles))])
			o := TtfOption{Style: f.style}
			name := c21Fams[f.fam]
			var err error
			switch src {
			case 0:
				err = pdf.AddTTFFontDataWithOption(name, raw.build(), o)
			case 1:
				err = pdf.AddTTFFontByReaderWithOption(name, bytes.NewReader(raw.build()), o)
			case 2:
				vAssert(box.AddTTFFontDataWithOption(name, raw.build(), o) == nil, "a well-formed font loads")
				err = pdf.AddTTFFontFromFontContainer(name, box)
			case 3:
				vAssert(box.AddTTFFontByReaderWithOption(name, bytes.NewReader(raw.build()), o) == nil, "a well-formed font loads")
				err = pdf.AddTTFFontFromFontContainer(name, box)
			case 4:
				p := vFile("font"+s, raw.build())
				if f.style == 0 {
					err = pdf.AddTTFFont(name, p)
				} else {
					err = pdf.AddTTFFontWithOption(name, p, o)
				}
				vFile("font"+s, nil) // loaded is loaded
			case 5:
				p := vFile("font"+s, raw.build())
				if f.style == 0 {
					vAssert(box.AddTTFFont(name, p) == nil, "a well-formed font loads")
				} else {
					vAssert(box.AddTTFFontWithOption(name, p, o) == nil, "a well-formed font loads")
				}
				vFile("font"+s, nil) // loaded is loaded
				err = pdf.AddTTFFontFromFontContainer(name, box)
			}
			vAssert(err == nil, "a well-formed font loads")
			fonts = append(fonts, f)
		case 1:
			fam := vChoice("fam"+s, 2)
			st := styles[vChoice("st"+s, len(styles))]
			want := -1
			for j := len(fonts) - 1; j >= 0; j-- {
				if fonts[j].fam == fam && fonts[j].style&^Underline == c21Style(st)&^Underline {
					want = j
				}
			}
			sz := vFloat("sz"+s, 1, 80)
			var err error
			if i%2 == 1 {
				err = pdf.SetFont(c21Fams[fam], st, sz)
			} else {
				err = pdf.SetFontWithStyle(c21Fams[fam], c21Style(st), sz)
			}
			vAssert((err == nil) == (want >= 0), "exactly the fonts that were added can be selected")
			if want >= 0 {
				cur, size, under = want, sz, c21Style(st)&Underline != 0
			}
		case 2:
			switch vChoice("how"+s, 3) {
			case 0:
				size = vFloat("sz"+s, 1, 80)
				vAssert(pdf.SetFontSize(size) == nil, "the size of a font can be set")
			case 1:
				vAssert(pdf.SetFont("none", "", 99) != nil, "exactly the fonts that were added can be selected")
			case 2:
				vAssert(pdf.SetFont(c21Fams[0], "", "12") != nil, "a size is a number")
			}
		case 3:
			pdf.AddPage()
			page++
		}
		if cur < 0 {
			continue
		}
		pdf.SetXY(20, 100)
		ok, err := pdf.IsCurrFontContainGlyph('A')
		vAssert(ok && err == nil, "the font selected has the character")
		ok, err = pdf.IsCurrFontContainGlyph('Z')
		vAssert(!ok && err == nil, "the font selected has no other character")
		w, err := pdf.MeasureTextWidth("A")
		vAssert(err == nil && vNear(w, float64(fonts[cur].width)*size/1000, 1e-6), "text is measured in the font and size selected")
		vAssert(pdf.Text("A") == nil, "text is drawn in the font selected")
		texts = append(texts, c21Text{page, cur, size, under})
	}
	d := vOut8(pdf)
	if !d.OK {
		return
	}
	i := 0
	for p := 0; p <= page; p++ {
		lines := 0
		for _, m := range d.marks(p) {
			if m.Op != "TJ" {
				lines++
				continue
			}
			vAssert(i < len(texts) && texts[i].page == p, "every text is shown once")
			if i >= len(texts) {
				return
			}
			t := texts[i]
			f := fonts[t.font]
			i++
			vAssert(m.Text == f.code, "text is shown in the font selected")
			vAssert(vNear(m.G.Size, t.size, 0.0051), "text is shown in the size selected")
			if t.under {
				lines--
			}
			t0 := d.obj(d.res(p, "Font").get(m.G.Font).I)
			vAssert(t0 != nil, "the font selected is in the resources of the page")
			if t0 == nil {
				return
			}
			cid := d.obj(t0.O.get("DescendantFonts").Vals[0].I)
			ws := cid.O.get("W").Vals
			vAssert(len(ws) >= 2 && len(ws[1].Vals) >= 1, "a font has widths")
			found := false
			for j := 0; j+1 < len(ws); j += 2 {
				if ws[j].I == 1+t.font && len(ws[j+1].Vals) > 0 && ws[j+1].Vals[0].I == f.width {
					found = true
				}
			}
			vAssert(found, "the resource is the font selected")
			desc := d.obj(cid.O.get("FontDescriptor").I)
			vAssert(desc.O.get("CapHeight").I == 600+t.font, "the descriptor is that of the font selected")
		}
		vAssert(lines == 0, "text is underlined exactly when asked for")
	}
	vAssert(i == len(texts), "every text is shown once")
	vReach("done")
}

// Every sequence of adding fonts (of two families, several styles), selecting
// fonts by style name or number, changing the size, failing calls and new pages,
// each followed by a text.
// symgo time=40s ttime=200s
func H_C21_select() { c21Run(4+vTier(), []string{"", "B", "BU"}, 1, 4) }

// All styles in any spelling, fonts from data, readers, files and containers.
// symgo time=50s
func H_C21_styles() {
	c21Run(3, []string{"", "b", "I", "Ub", "bIU"}, 6, 2)
}

// Every numeric type is a size; nothing else is.
func H_C21_sizes() {
	raw, _ := c21Build(0)
	pdf := vMini(Config{PageSize: *PageSizeA4}, raw)
	pdf.AddPage()
	n := vInt("n", 1, 100)
	all := []interface{}{n, int8(n), int16(n), int32(n), int64(n), uint(n), uint8(n), uint16(n), uint32(n), uint64(n), float32(n), float64(n)}
	k := vChoice("k", len(all))
	vAssert(pdf.SetFont("f", "", all[k]) == nil, "every number is a size")
	w, err := pdf.MeasureTextWidth("A")
	vAssert(err == nil && vNear(w, 0.3*float64(n), 1e-6), "the size is the number given")
	bad := []interface{}{nil, "12", true, []int{12}, complex(12, 0), &n}
	vAssert(pdf.SetFont("f", "", bad[vChoice("b", len(bad))]) != nil, "nothing but a number is a size")
	w2, err := pdf.MeasureTextWidth("A")
	vAssert(err == nil && w2 == w, "a call that fails changes nothing")
}

// c21Signed is the value of 16 bits.
func c21Signed(v int) int { return vIteI(v >= 0x8000, v-0x10000, v) }

// c21Scaled says that got is v design units in thousandths of the em, rounded.
func c21Scaled(got, v, upem int, what string) {
	e := got*upem - v*1000
	vAssert(vAnd(2*e <= upem, 2*e >= -upem), what)
}

// The font descriptor describes the font: its metrics scaled to thousandths, and flags.
// symgo time=25s ttime=120s
func H_C21_descriptor() {
	f := vStdFont(2)
	f.upem = []int{1000, 2048, 16, 16384, 333}[vChoice("upem", 5)]
	k := vChoice("k", 8)
	v := vInt("v", 0, 0xFFFF)
	s := c21Signed(v)
	var key string
	sel := -1
	switch k {
	case 0:
		f.capH, key = v, "CapHeight"
	case 1:
		f.xH, key = v, "XHeight"
		vAssume(v != 0)
	case 2, 3, 4, 5:
		f.bbox[k-2], key, sel = v, "FontBBox", k-2
	case 6:
		f.winAsc, key, s = v, "Ascent", v
	case 7:
		f.winDesc, key, s = v, "Descent", -v
	}
	pdf := vMini(Config{PageSize: *PageSizeA4}, f)
	pdf.AddPage()
	vAssert(pdf.SetFont("f", "", 10) == nil, "a loaded font can be selected")
	vAssert(pdf.Text("AB") == nil, "text is drawn")
	d := vOut8(pdf)
	if !d.OK {
		return
	}
	n := 0
	for i := range d.Objs {
		o := d.Objs[i]
		if o.Type != "FontDescriptor" {
			continue
		}
		n++
		got := o.O.get(key)
		if sel >= 0 {
			vAssert(len(got.Vals) == 4, "a bounding box has four numbers")
			got = got.Vals[sel]
		}
		c21Scaled(got.I, s, f.upem, "the descriptor has the font's own "+key)
		vAssert(o.O.get("Flags").I == 32, "a text font is flagged nonsymbolic")
		vAssert(o.O.get("ItalicAngle").K == 'n' && o.O.get("StemV").K == 'n', "the descriptor has an italic angle and a stem width")
	}
	vAssert(n == 1, "a font has one descriptor")
}

// A font has one name, in every place that names it, whatever the family's characters.
func H_C21_name() {
	hi, lo := vChoice("hi", 16), vChoice("lo", 16)
	fam := "A" + string([]byte{byte(16*hi + lo)}) + "b"
	pdf := vMini(Config{PageSize: *PageSizeA4}, nil)
	vAssert(pdf.AddTTFFontData(fam, vStdFont(2).build()) == nil, "a well-formed font loads")
	pdf.AddPage()
	vAssert(pdf.SetFont(fam, "", 10) == nil, "a loaded font can be selected")
	vAssert(pdf.Text("AB") == nil, "text is drawn")
	d := vOut8(pdf)
	if !d.OK {
		return
	}
	var names []string
	for i := range d.Objs {
		o := d.Objs[i].O
		if o.has("BaseFont") {
			names = append(names, o.get("BaseFont").S)
		}
		if o.has("FontName") {
			names = append(names, o.get("FontName").S)
		}
	}
	vAssert(len(names) == 3 && names[0] == names[1] && names[1] == names[2] && names[0] != "", "a font has the same name everywhere")
}

// Many fonts: each one is selected, measured and shown as the one it is.
// symgo time=10s
func H_C21_many() {
	pdf := vMini(Config{PageSize: *PageSizeA4}, nil)
	pdf.AddPage()
	const n = 40
	for i := 0; i < n; i++ {
		f := vStdFont(2)
		f.widths = []int{500, 300 + 10*i, 500, 500}
		vAssert(pdf.AddTTFFontData("f"+vItoa(i), f.build()) == nil, "a well-formed font loads")
	}
	var use []int
	for i := 0; i < 2; i++ {
		k := []int{0, 8, 9, 15, 16, 25, 26, 31, 32, n - 1}[vChoice("font"+vItoa(i), 10)]
		use = append(use, k)
		pdf.SetXY(20, float64(100+50*i))
		vAssert(pdf.SetFont("f"+vItoa(k), "", 10) == nil, "exactly the fonts that were added can be selected")
		w, err := pdf.MeasureTextWidth("A")
		vAssert(err == nil && vNear(w, float64(300+10*k)/100, 1e-6), "text is measured in the font and size selected")
		vAssert(pdf.Text("A") == nil, "text is drawn in the font selected")
	}
	pdf.SetNoCompression()
	d := vOut8(pdf)
	if !d.OK {
		return
	}
	ms := d.marks(0)
	vAssert(len(ms) == len(use), "every text is shown once")
	for i, m := range ms {
		if i >= len(use) {
			return
		}
		t0 := d.obj(d.res(0, "Font").get(m.G.Font).I)
		vAssert(t0 != nil, "the font selected is in the resources of the page")
		if t0 == nil {
			return
		}
		ws := d.obj(t0.O.get("DescendantFonts").Vals[0].I).O.get("W").Vals
		vAssert(len(ws) == 2 && len(ws[1].Vals) == 1 && ws[1].Vals[0].I == 300+10*use[i], "the resource is the font selected")
	}
	vReach("done")
}
