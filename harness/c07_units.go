package gopdf

// c07Doc performs the same calls, with the same lengths, in a document in the given unit.
func c07Doc(unit int, f func(pdf *GoPdf)) *vDoc {
	cfg := Config{}
	vScale = vUnit(&cfg, unit)
	cfg.PageSize = Rect{W: vK(600), H: vK(800)}
	pdf := vOpsDoc(cfg)
	f(pdf)
	pdf.SetNoCompression()
	return vOut8(pdf)
}

func c07Cmp(units int, f func(pdf *GoPdf)) {
	vMem, vMemI = map[string]float64{}, map[string]int{}
	u := 2 + vChoice("unit", units)
	a := c07Doc(1, f)
	b := c07Doc(u, f)
	vSameDoc(a, b, 0.0201)
}

// Every drawing call: a document in millimetres, centimetres, inches, pixels
// or a unit of its own is the document in points with the same lengths.
// symgo time=40s
func H_C07_single() {
	c07Cmp(5, func(pdf *GoPdf) { vOp(pdf, vC("op", vNOps), "a") })
}

// Any sequence of two drawing calls, in millimetres or a unit of its own.
// symgo time=60s
func H_C07_pairs() {
	vLite = true
	vMemI = map[string]int{}
	vMem = map[string]float64{}
	u := []int{2, 6}[vChoice("unit", 2)]
	f := func(pdf *GoPdf) {
		vOp(pdf, vC("op1", vNOps), "a")
		vOp(pdf, vC("op2", vNOps), "b")
	}
	vSameDoc(c07Doc(1, f), c07Doc(u, f), 0.0201)
}

// Measurements, positions, margins and automatic page breaks agree between units.
// symgo time=30s
func H_C07_measure() {
	u := 2 + vChoice("unit", 5)
	vMem, vMemI = map[string]float64{}, map[string]int{}
	f := func(pdf *GoPdf) []float64 {
		k := vScale
		var o []float64
		pdf.SetMargins(vL("l", 0, 100), vL("t", 0, 100), vL("r", 0, 100), vL("b", 0, 100))
		a, b, c, d := pdf.Margins()
		o = append(o, a*k, b*k, c*k, d*k)
		o = append(o, pdf.MarginLeft()*k, pdf.MarginTop()*k, pdf.MarginRight()*k, pdf.MarginBottom()*k)
		if vC("single", 2) == 1 {
			pdf.SetMarginLeft(vL("l2", 0, 100))
			pdf.SetMarginTop(vL("t2", 0, 100))
			pdf.SetMarginRight(vL("r2", 0, 100))
			pdf.SetMarginBottom(vL("b2", 0, 100))
			a, b, c, d := pdf.Margins()
			o = append(o, a*k, b*k, c*k, d*k)
			pdf.SetLeftMargin(vL("l3", 0, 100))
			pdf.SetTopMargin(vL("t3", 0, 100))
			o = append(o, pdf.MarginLeft()*k, pdf.MarginTop()*k)
		}
		w, err := pdf.MeasureTextWidth("AB C")
		vAssert(err == nil, "text can be measured")
		h, err := pdf.MeasureCellHeightByText("AB C")
		vAssert(err == nil, "text can be measured")
		o = append(o, w*k, h*k)
		ok, fh, err := pdf.IsFitMultiCell(&Rect{W: vK(20), H: vK(300)}, "AB CAB")
		vAssert(ok && err == nil, "text fits")
		o = append(o, fh*k)
		ls, err := pdf.SplitText("AB CAB CC", vK(30))
		vAssert(err == nil, "text can be split")
		o = append(o, float64(len(ls)))
		pdf.AddPage()
		o = append(o, pdf.GetX()*k, pdf.GetY()*k)
		y0, y, h2 := vL("y0", 0, 800), vL("y", 0, 800), vL("h", 0, 800)
		pdf.SetXY(vL("x0", 0, 600), y0)
		switch vC("brk", 3) {
		case 0:
			pdf.SetNewY(y, h2)
		case 1:
			pdf.SetNewYIfNoOffset(y, h2)
		case 2:
			pdf.SetNewXY(y, vL("x1", 0, 600), h2)
		}
		o = append(o, pdf.GetX()*k, pdf.GetY()*k, float64(pdf.GetNumberOfPages()))
		return o
	}
	var p, q []float64
	a := c07Doc(1, func(pdf *GoPdf) { p = f(pdf) })
	b := c07Doc(u, func(pdf *GoPdf) { q = f(pdf) })
	vAssert(len(p) == len(q), "same number of results")
	for i := range p {
		if i < len(q) {
			vAssert(vNear(p[i], q[i], 1e-6), "a measurement times the unit is the measurement in points")
		}
	}
	vSameDoc(a, b, 0.0201)
}

// The conversion functions are inverse to each other and the named page sizes are in points in every unit.
func H_C07_conversions() {
	cfg := Config{}
	k := vUnit(&cfg, vChoice("unit", 7))
	v := vFloat("v", -10000, 10000)
	pdf := &GoPdf{}
	cfg.PageSize = *PageSizeA4
	pdf.Start(cfg)
	vAssert(vNear(pdf.UnitsToPoints(v), v*k, 1e-6), "a unit is its number of points")
	vAssert(vNear(pdf.PointsToUnits(v)*k, v, 1e-6), "points are converted back")
	x, y := v, v
	pdf.UnitsToPointsVar(&x, &y)
	vAssert(vAnd(vNear(x, v*k, 1e-6), vNear(y, v*k, 1e-6)), "a unit is its number of points")
	pdf.PointsToUnitsVar(&x, &y)
	vAssert(vAnd(vNear(x, v, 1e-6), vNear(y, v, 1e-6)), "points are converted back")
	if cfg.ConversionForUnit == 0 {
		vAssert(vNear(UnitsToPoints(cfg.Unit, v), v*k, 1e-6), "a unit is its number of points")
		vAssert(vNear(PointsToUnits(cfg.Unit, v)*k, v, 1e-6), "points are converted back")
	}
	pdf.AddPage()
	d := vOut8(pdf)
	for _, o := range d.Objs {
		if o.Type == "Pages" {
			m := o.O.get("MediaBox").Vals
			vAssert(len(m) == 4 && m[2].F == 595 && m[3].F == 842, "A4 is A4 in every unit")
		}
	}
}
