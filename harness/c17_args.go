package gopdf

import "image"

const c17N = 20

func c17Rect(r *Rect, w, h float64, what string) {
	vAssert(r.W == w && r.H == h, what+" belongs to the caller and is not changed")
	r.W, r.H = 1, 1
}

func c17Floats(a, b []float64, what string) {
	vAssert(len(a) == len(b), what+" belongs to the caller and is not changed")
	for i := range a {
		vAssert(a[i] == b[i], what+" belongs to the caller and is not changed")
		a[i] = 9
	}
}

func c17Trans(t *Transparency, a float64, what string) {
	vAssert(t.Alpha == a && t.BlendModeType == "", what+" belongs to the caller and is not changed")
	t.Alpha, t.BlendModeType = 0.9, Hue
}

// c17Call makes call k with the values v. With scramble, what was handed over
// is compared with what it was and then overwritten.
func c17Call(pdf *GoPdf, k int, v []float64, scramble bool) {
	ok := func(err error) { vAssert(err == nil, "the call succeeds") }
	r := &Rect{W: v[0], H: v[1]}
	t := &Transparency{Alpha: v[2]}
	after := func() {}
	switch k {
	case 0:
		b := &Box{Left: v[2], Top: v[3], Right: v[4], Bottom: v[5]}
		pdf.AddPageWithOption(PageOption{PageSize: r, TrimBox: b})
		after = func() {
			vAssert(b.Left == v[2] && b.Top == v[3] && b.Right == v[4] && b.Bottom == v[5], "a trim box belongs to the caller and is not changed")
			*b = Box{Left: 1, Top: 1, Right: 1, Bottom: 1}
		}
	case 1:
		d := []float64{v[2], v[3]}
		pdf.SetCustomLineType(d, v[4])
		pdf.Line(1, 2, 3, 4)
		after = func() { c17Floats(d, []float64{v[2], v[3]}, "a dash array") }
	case 2, 3:
		p := []Point{{v[2], v[3]}, {v[4], v[5]}, {7, 8}}
		if k == 2 {
			pdf.Polygon(p, "FD")
		} else {
			pdf.ClipPolygon(p)
		}
		after = func() {
			vAssert(p[0] == (Point{v[2], v[3]}) && p[1] == (Point{v[4], v[5]}) && p[2] == (Point{7, 8}), "a list of points belongs to the caller and is not changed")
			p[0], p[1], p[2] = Point{}, Point{}, Point{}
		}
	case 4:
		ok(pdf.Cell(r, "AB"))
	case 5:
		bo := &BreakOption{Mode: BreakModeIndicatorSensitive, BreakIndicator: 'B'}
		ok(pdf.CellWithOption(r, "AB", CellOption{Align: Center | Middle, Border: AllBorders, Float: Right, Transparency: t, BreakOption: bo}))
		after = func() {
			c17Trans(t, v[2], "a transparency")
			vAssert(*bo == (BreakOption{Mode: BreakModeIndicatorSensitive, BreakIndicator: 'B'}), "a break option belongs to the caller and is not changed")
			*bo = BreakOption{}
		}
	case 6:
		ok(pdf.MultiCell(r, "AB"))
	case 7:
		bo := &BreakOption{Mode: BreakModeStrict, Separator: "-"}
		pdf.MultiCellWithOption(r, "AB", CellOption{Align: Right | Bottom, Transparency: t, BreakOption: bo})
		after = func() {
			c17Trans(t, v[2], "a transparency")
			vAssert(*bo == (BreakOption{Mode: BreakModeStrict, Separator: "-"}), "a break option belongs to the caller and is not changed")
			*bo = BreakOption{}
		}
	case 8:
		pdf.IsFitMultiCell(r, "AB")
		pdf.IsFitMultiCellWithNewline(r, "A\nB")
	case 9:
		ok(pdf.ImageByHolder(c17Img(0), v[2], v[3], r))
	case 10, 11:
		c := &CropOptions{X: v[2], Y: v[3], Width: v[4], Height: v[5]}
		mr := &Rect{W: v[3], H: v[4]}
		bb := &[4]float64{v[2], v[3], v[4], v[5]}
		m := &MaskOptions{BBox: bb, Holder: c17Img(1), ImageOptions: ImageOptions{X: v[4], Y: v[5], Rect: mr, DegreeAngle: 90}}
		o := ImageOptions{DegreeAngle: 90, X: v[4], Y: v[5], Rect: r, Transparency: t, Mask: m}
		if k == 11 {
			o.Mask, o.Crop = nil, c
		}
		ok(pdf.ImageByHolderWithOptions(c17Img(0), o))
		after = func() {
			c17Trans(t, v[2], "a transparency")
			vAssert(*c == (CropOptions{X: v[2], Y: v[3], Width: v[4], Height: v[5]}), "a crop option belongs to the caller and is not changed")
			*c = CropOptions{X: 1, Y: 1, Width: 1, Height: 1}
			vAssert(m.BBox == bb && m.Rect == mr && m.X == v[4] && m.Y == v[5] && m.DegreeAngle == 90 && len(m.extGStateIndexes) == 0, "a mask option belongs to the caller and is not changed")
			*m = MaskOptions{}
			c17Rect(mr, v[3], v[4], "a rectangle")
			vAssert(*bb == [4]float64{v[2], v[3], v[4], v[5]}, "a bounding box belongs to the caller and is not changed")
			*bb = [4]float64{1, 1, 1, 1}
		}
	case 12:
		ok(pdf.RectFromUpperLeftWithOpts(DrawableRectOptions{X: v[3], Y: v[4], Rect: *r, Transparency: t}))
		after = func() { c17Trans(t, v[2], "a transparency") }
	case 13:
		ok(pdf.SetTransparency(*t))
		pdf.Line(1, 2, 3, 4)
		pdf.ClearTransparency()
		after = func() { c17Trans(t, v[2], "a transparency") }
	case 14:
		bo := &BreakOption{Mode: BreakModeStrict, Separator: "-"}
		s, err := pdf.SplitTextWithOption("AB AB", v[0], bo)
		ok(err)
		for i := range s {
			pdf.Text(s[i])
		}
		after = func() {
			vAssert(*bo == (BreakOption{Mode: BreakModeStrict, Separator: "-"}), "a break option belongs to the caller and is not changed")
			for i := range s {
				s[i] = "x"
			}
		}
	case 15:
		raw := vStdFont(3).build()
		keep := append([]byte(nil), raw...)
		ok(pdf.AddTTFFontData("g", raw))
		ok(pdf.SetFont("g", "", 12))
		ok(pdf.Text("A"))
		pdf.GetBytesPdfReturnErr()
		after = func() { vAssert(vBytesEq(raw, keep), "font data belongs to the caller and is not changed") }
	case 16:
		raw := vPixels(2, 1, 6, vRaw(2, 1, 6))
		keep := append([]byte(nil), raw...)
		h, err := ImageHolderByBytes(raw)
		ok(err)
		ok(pdf.ImageByHolder(h, v[2], v[3], r))
		after = func() {
			vAssert(vBytesEq(raw, keep), "image data belongs to the caller and is not changed")
			for i := range raw {
				raw[i] = 0
			}
		}
	case 17:
		ok(pdf.Image(vFile("i.png", vPixels(2, 1, 6, vRaw(2, 1, 6))), v[2], v[3], r))
		after = func() { vFile("i.png", nil) }
	case 18, 19:
		i := vGoImg(2, 1).(*image.NRGBA)
		keep := append([]byte(nil), i.Pix...)
		if k == 18 {
			ok(pdf.ImageFrom(i, v[2], v[3], r))
		} else {
			ok(pdf.ImageFromWithOption(i, ImageFromOption{Format: "png", X: v[2], Y: v[3], Rect: r}))
		}
		after = func() {
			vAssert(vBytesEq(i.Pix, keep), "a picture belongs to the caller and is not changed")
			for j := range i.Pix {
				i.Pix[j] = 0
			}
		}
	}
	if scramble {
		after()
		c17Rect(r, v[0], v[1], "a rectangle")
	}
}

func c17Img(k int) ImageHolder {
	raw := vRaw(2+k, 1, 6)
	for i := 1; i < len(raw); i++ {
		raw[i] = byte(i)
	}
	return vHolder("i"+vItoa(k), vPixels(2+k, 1, 6, raw))
}

// Any two calls that take pointers or slices, with any values, in two documents:
// what is handed over is not changed, and overwriting it right after the call
// changes nothing in the document.
// symgo time=40s
func H_C17_two() {
	u := vChoice("unit", 2)
	cfg := Config{PageSize: *PageSizeA4, Unit: []int{UnitPT, UnitMM}[u]}
	if u == 1 {
		cfg.PageSize = Rect{W: 210, H: 297}
	}
	k, l := vChoice("k", c17N), vChoice("l", c17N)
	v := make([]float64, 6)
	for i := range v {
		v[i] = vFloat("v"+vItoa(i), 0.01, 1)
		if i != 2 {
			v[i] = v[i] * 100
		}
	}
	v[0] += 50
	v[1] += 50
	var out []*vDoc
	for i := 0; i < 2; i++ {
		pdf := vMini(cfg, vStdFont(3))
		pdf.AddPage()
		vAssert(pdf.SetFont("f", "", 10) == nil, "a loaded font can be selected")
		pdf.SetNoCompression()
		c17Call(pdf, k, v, i == 1)
		c17Call(pdf, l, v, i == 1)
		out = append(out, vOut8(pdf))
	}
	vSameDoc(out[0], out[1], 0.0001)
}

// Three calls.
// symgo time=300s tier=thorough
func H_C17_three() {
	v := make([]float64, 6)
	for i := range v {
		v[i] = vFloat("v"+vItoa(i), 0.01, 1)
		if i != 2 {
			v[i] = v[i] * 100
		}
	}
	v[0] += 50
	v[1] += 50
	ks := []int{vChoice("k", c17N), vChoice("l", c17N), vChoice("m", c17N)}
	var out []*vDoc
	for i := 0; i < 2; i++ {
		pdf := vMini(Config{PageSize: *PageSizeA4}, vStdFont(3))
		pdf.AddPage()
		vAssert(pdf.SetFont("f", "", 10) == nil, "a loaded font can be selected")
		pdf.SetNoCompression()
		for _, k := range ks {
			c17Call(pdf, k, v, i == 1)
		}
		out = append(out, vOut8(pdf))
	}
	vSameDoc(out[0], out[1], 0.0001)
}

// The passwords, the page sizes and the boxes of the configuration are copied.
func H_C17_config() {
	var out []string
	u, o := vBytes("u", 1+vTier()), vBytes("o", 2)
	w, h := 300.0, 400.0
	for i := 0; i < 2; i++ {
		uu, oo := append([]byte(nil), u...), append([]byte(nil), o...)
		cfg := Config{PageSize: Rect{W: w, H: h}, TrimBox: Box{Left: 1, Top: 2, Right: 3, Bottom: 4}, Protection: PDFProtectionConfig{UseProtection: true, Permissions: PermissionsPrint, UserPass: uu, OwnerPass: oo}}
		pdf := vMini(cfg, nil)
		if i == 1 {
			vAssert(vBytesEq(uu, u) && vBytesEq(oo, o), "passwords belong to the caller and are not changed")
			for j := range uu {
				uu[j] = 'x'
			}
			for j := range oo {
				oo[j] = 'y'
			}
			cfg.PageSize, cfg.TrimBox = Rect{}, Box{}
		}
		pdf.AddPage()
		pdf.Line(1, 2, 3, 4)
		b, err := pdf.GetBytesPdfReturnErr()
		vAssert(err == nil, "the document is written")
		out = append(out, string(b))
	}
	vAssert(vStrEq(out[0], out[1]), "overwriting the configuration changes nothing in the document")
}

// What was returned belongs to the caller.
func H_C17_bytes() {
	pdf := vMini(Config{PageSize: *PageSizeA4}, nil)
	pdf.AddPage()
	pdf.SetNoCompression()
	pdf.Line(1, 2, 3, 4)
	b, err := pdf.GetBytesPdfReturnErr()
	vAssert(err == nil, "the document is written")
	first := string(b)
	for i := range b {
		b[i] = byte(vInt("x", 0, 255))
	}
	b2, err := pdf.GetBytesPdfReturnErr()
	vAssert(err == nil && string(b2) == first, "overwriting returned bytes changes nothing in the document")
	c := pdf.GetBytesPdf()
	vAssert(string(c) == first, "overwriting returned bytes changes nothing in the document")
}
