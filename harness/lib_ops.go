package gopdf

// A vocabulary of drawing calls with symbolic arguments, shared by the
// properties that quantify over sequences of calls.

const vNOps = 37

// vOpsDoc is a document with two fonts and everything vOp needs.
func vOpsDoc(cfg Config) *GoPdf {
	pdf := vMini(cfg, vStdFont(3))
	vAssert(pdf.AddTTFFontDataWithOption("g", vStdFont(2).build(), TtfOption{Style: Bold}) == nil, "a well-formed font loads")
	pdf.AddColorSpaceRGB("c0", 10, 20, 30)
	pdf.AddColorSpaceCMYK("c1", 10, 20, 30, 40)
	pdf.AddPage()
	pdf.SetFont("f", "", 12)
	return pdf
}

// vLite fixes the minor choices inside vOp (to the last alternative), leaving
// the kinds of call and the numeric arguments open.
var vLite bool

func vPick(n string, k int) int {
	if vLite {
		return k - 1
	}
	return vC(n, k)
}
func vPickB(n string) bool { return vLite || vC(n, 2) == 1 }

func vOpStyle(n string) string { return []string{"", "D", "F", "FD", "DF"}[vPick(n+"style", 5)] }

// vScale is the number of points in the document's unit: vK converts a length in
// points to it, vL is a symbolic length given in points.
var vScale float64

func vK(p float64) float64 {
	if vScale == 0 {
		return p
	}
	return p / vScale
}
func vL(n string, lo, hi float64) float64 { return vK(vF(n, lo, hi)) }

// vEdge is a symbolic length, or a fixed one in documents that are compared
// across units: these lengths are rounded to integers, where a difference of
// one bit in the conversion can show.
func vEdge(n string, lo, hi, fix float64) float64 {
	if vScale != 0 {
		return vK(fix)
	}
	return vL(n, lo, hi)
}

// vMem makes the inputs of repeated calls equal: an input named before has its value again.
var vMem map[string]float64

func vF(n string, lo, hi float64) float64 {
	if vMem == nil {
		return vFloat(n, lo, hi)
	}
	v, ok := vMem[n]
	if !ok {
		v = vFloat(n, lo, hi)
		vMem[n] = v
	}
	return v
}

var vMemI map[string]int

func vI(n string, lo, hi int) int {
	if vMemI == nil {
		return vInt(n, lo, hi)
	}
	v, ok := vMemI[n]
	if !ok {
		v = vInt(n, lo, hi)
		vMemI[n] = v
	}
	return v
}

func vC(n string, k int) int {
	if vMemI == nil {
		return vChoice(n, k)
	}
	v, ok := vMemI[n]
	if !ok {
		v = vChoice(n, k)
		vMemI[n] = v
	}
	return v
}

// vOp performs drawing call k with arguments named after n.
func vOp(pdf *GoPdf, k int, n string) {
	x, y := vL(n+"x", -50, 700), vL(n+"y", -50, 900)
	switch k {
	case 0:
		pdf.Line(x, y, vK(30), vL(n+"y2", 0, 900))
	case 1:
		pdf.RectFromUpperLeftWithStyle(x, y, vL(n+"w", 0, 300), vK(20), vOpStyle(n))
	case 2:
		pdf.RectFromLowerLeftWithStyle(x, y, vK(30), vL(n+"h", 0, 300), vOpStyle(n))
	case 3:
		if k := vPick(n+"opts", 3); k > 0 {
			o := DrawableRectOptions{X: x, Y: y, Rect: Rect{W: vK(30), H: vK(40)}, PaintStyle: []PaintStyle{"", FillPaintStyle, DrawFillPaintStyle}[vPick(n+"style", 3)]}
			if k == 2 {
				o.Transparency = &Transparency{Alpha: 0.5, BlendModeType: Multiply}
			}
			vAssert(pdf.RectFromUpperLeftWithOpts(o) == nil, "a rectangle is drawn")
		} else {
			pdf.RectFromUpperLeft(x, y, vK(30), vK(40))
		}
	case 4:
		if k := vPick(n+"opts", 3); k > 0 {
			o := DrawableRectOptions{X: x, Y: y, Rect: Rect{W: vK(30), H: vK(40)}, PaintStyle: []PaintStyle{"", FillPaintStyle, DrawFillPaintStyle}[vPick(n+"style", 3)]}
			if k == 2 {
				o.Transparency = &Transparency{Alpha: 0.5, BlendModeType: Multiply}
			}
			vAssert(pdf.RectFromLowerLeftWithOpts(o) == nil, "a rectangle is drawn")
		} else {
			pdf.RectFromLowerLeft(x, y, vK(30), vK(40))
		}
	case 5:
		pdf.Oval(x, y, vK(200), vL(n+"y2", 0, 900))
	case 6:
		pdf.Curve(x, y, vK(1), vK(2), vK(3), vK(4), vK(5), vL(n+"y2", 0, 900), vOpStyle(n))
	case 7:
		pdf.Polygon([]Point{{x, y}, {vK(3), vK(4)}, {vK(5), vK(60)}}, vOpStyle(n))
	case 8:
		pdf.Rectangle(vK(10), vK(10), vL(n+"x1", 40, 300), vK(100), vOpStyle(n), vK(5), vPick(n+"np", 4))
	case 9:
		pdf.SetXY(x, y)
		pdf.Text("AB")
	case 10:
		pdf.SetXY(x, y)
		pdf.Cell([]*Rect{nil, {W: vK(50), H: vK(20)}}[vPick(n+"rect", 2)], "A C")
	case 11:
		t := []*Transparency{nil, {Alpha: 0.5, BlendModeType: Multiply}}[vPick(n+"tr", 2)]
		pdf.SetXY(x, y)
		pdf.CellWithOption(&Rect{W: vEdge(n+"w", 1, 100, 70), H: vK(20)}, "A B", CellOption{Align: []int{Left | Top, Center | Middle, Right | Bottom, Justify}[vPick(n+"al", 4)], Border: vI(n+"border", 0, 15), Float: []int{0, Right, Bottom}[vPick(n+"fl", 3)], Transparency: t})
	case 12:
		pdf.SetXY(x, y)
		pdf.MultiCell(&Rect{W: vK(15), H: vK(200)}, "ABC")
	case 13:
		pdf.SetXY(x, y)
		pdf.MultiCellWithOption(&Rect{W: vK(30), H: vK(200)}, "A B", CellOption{Align: Center, Border: AllBorders})
	case 14:
		pdf.SetTextColor(uint8(vI(n+"r", 0, 255)), 2, 3)
	case 15:
		pdf.SetTextColorCMYK(uint8(vI(n+"r", 0, 100)), 2, 3, 4)
	case 16:
		pdf.SetStrokeColor(uint8(vI(n+"r", 0, 255)), 2, 3)
		pdf.SetFillColor(5, uint8(vI(n+"g", 0, 255)), 3)
	case 17:
		pdf.SetStrokeColorCMYK(uint8(vI(n+"r", 0, 100)), 2, 3, 4)
		pdf.SetFillColorCMYK(5, uint8(vI(n+"g", 0, 100)), 3, 4)
	case 18:
		pdf.SetGrayFill(vF(n+"gf", -1, 2))
		pdf.SetGrayStroke(vF(n+"gs", -1, 2))
	case 19:
		pdf.SetLineWidth(vL(n+"lw", 0, 20))
	case 20:
		pdf.SetLineType([]string{"dashed", "dotted", "solid"}[vPick(n+"lt", 3)])
	case 21:
		pdf.SetCustomLineType([][]float64{{}, {vL(n+"d", 0, 20)}, {vK(1), vL(n+"d2", 0, 20)}}[vPick(n+"nd", 3)], vK(2))
	case 22:
		pdf.SaveGraphicsState()
		pdf.ClipPolygon([]Point{{x, y}, {vK(3), vK(4)}, {vK(5), vK(60)}})
		pdf.RectFromUpperLeftWithStyle(vK(1), vK(2), vK(3), vK(4), "F")
		pdf.RestoreGraphicsState()
	case 23:
		pdf.Rotate(vF(n+"an", -360, 360), x, y)
		pdf.Line(vK(1), vK(2), vK(3), vK(4))
		pdf.RotateReset()
	case 24:
		pdf.SetTransparency(Transparency{Alpha: []float64{0, 0.25, 0.5}[vPick(n+"al", 3)], BlendModeType: []BlendModeType{NormalBlendMode, Screen}[vPick(n+"bm", 2)]})
	case 25:
		pdf.ClearTransparency()
	case 26:
		vAssert(pdf.SetColorSpace([]string{"c0", "c1"}[vPick(n+"cs", 2)]) == nil, "a defined colour space can be selected")
	case 27:
		k := vPick(n+"ct", 4)
		b := vJPEG(10, 20, 3, []byte{1, 2, 3})
		if k > 0 {
			ct := []int{0, 2, 3, 6}[k]
			b = vPixels(2, 2, ct, vRaw(2, 2, ct))
		}
		vAssert(pdf.ImageByHolder(vHolder("img"+string(rune('0'+k)), b), x, y, &Rect{W: vL(n+"w", 1, 300), H: vK(20)}) == nil, "a valid image is accepted")
	case 28:
		o := ImageOptions{X: x, Y: y, Rect: &Rect{W: vK(30), H: vK(20)}, DegreeAngle: 30, HorizontalFlip: vPickB(n + "hf")}
		if vPickB(n + "crop") {
			o.Crop = &CropOptions{X: vK(1), Y: vK(2), Width: vK(10), Height: vK(12)}
		}
		if vPickB(n + "itr") {
			o.Transparency = &Transparency{Alpha: 0.5, BlendModeType: Multiply}
		}
		if vPickB(n + "mask") {
			o.Mask = &MaskOptions{Holder: vHolder("mask", vPixels(2, 2, 6, vRaw(2, 2, 6))), ImageOptions: ImageOptions{X: vK(1), Y: vK(2), Rect: &Rect{W: vK(5), H: vK(6)}}}
		}
		vAssert(pdf.ImageByHolderWithOptions(vHolder("jpg", vJPEG(10, 20, 3, []byte{1, 2, 3})), o) == nil, "a valid image is accepted")
	case 29:
		pdf.AddExternalLink("http://a(b)\\", x, y, vK(30), vK(20))
	case 30:
		if vPickB(n + "anchored") {
			pdf.SetAnchor("q")
		}
		pdf.AddInternalLink("q", x, y, vK(30), vK(20))
	case 31:
		if vPickB(n + "pos") {
			pdf.AddOutlineWithPosition("T")
		} else {
			pdf.AddOutline("T")
		}
	case 32:
		vAssert(pdf.SetFont([]string{"f", "g"}[vPick(n+"fam", 1)], "", vF(n+"size", 1, 50)) == nil, "a loaded font can be selected")
		pdf.Text("B")
		vAssert(pdf.SetFont("g", "B", 9) == nil, "a loaded font can be selected")
		pdf.Text("A")
		vAssert(pdf.SetFont("f", "U", 9) == nil, "a loaded font can be selected underlined")
		pdf.SetCharSpacing(vEdge(n+"cs", 0, 3, 0.7))
		pdf.Cell(nil, "C")
	case 33:
		pdf.SetXY(x, y)
		pdf.PlaceHolderText("ph"+n, vK(60))
		pdf.FillInPlaceHoldText("ph"+n, "AB", []int{Left, Right, Center}[vPick(n+"al", 3)])
	case 34:
		id := pdf.GetNextObjectID()
		pdf.ImportObjects(map[int]string{id: "<</Type /XObject /Subtype /Form /Resources " + vItoa(id+1) + " 0 R /Length 0>>\nstream\n\nendstream\n", id + 1: "<<>>\n"}, id)
		pdf.ImportTemplates(map[string]int{"/GOFPDITPL" + vItoa(id): id})
		pdf.getContent().AppendStreamImportedTemplate("/GOFPDITPL"+vItoa(id), 1, vF(n+"sy", 0.1, 3), vF(n+"tx", -50, 700), 20)
	case 35:
		pdf.AddPageWithOption(PageOption{PageSize: &Rect{W: vL(n+"pw", 10, 1000), H: vK(400)}, TrimBox: &Box{Left: vK(1), Top: vK(2), Right: vK(3), Bottom: vK(4)}})
	case 36:
		r := &Rect{W: vL(n+"w", 1, 300), H: vK(20)}
		switch vPick(n+"from", 4) {
		case 0:
			vAssert(pdf.Image(vFile("i.jpg", vJPEG(10, 20, 3, []byte{1, 2, 3})), x, y, r) == nil, "a valid image is accepted")
		case 1:
			vAssert(pdf.ImageFromWithOption(vGoImg(2, 1), ImageFromOption{Format: "jpeg", X: x, Y: y, Rect: r}) == nil, "an image in memory is accepted")
		case 2:
			vAssert(pdf.ImageFromWithOption(vGoImg(1, 2), ImageFromOption{Format: "png", X: x, Y: y}) == nil, "an image in memory is accepted")
		default:
			vAssert(pdf.ImageFrom(vGoImg(2, 1), x, y, r) == nil, "an image in memory is accepted")
		}
	}
}

func vItoa(n int) string {
	if n < 10 {
		return string(rune('0' + n))
	}
	return vItoa(n/10) + string(rune('0'+n%10))
}

// vPreset is a document-level configuration choice.
func vPreset() Config {
	cfg := Config{PageSize: *PageSizeA4}
	switch vChoice("cfg", 3) {
	case 1:
		cfg.Unit = UnitMM
		cfg.PageSize = Rect{W: 210, H: 297}
	case 2:
		cfg.Protection = PDFProtectionConfig{UseProtection: true, Permissions: PermissionsPrint, OwnerPass: []byte("o"), UserPass: []byte("u")}
	}
	return cfg
}

// vUnit is a document unit: its configuration and its size in points.
func vUnit(cfg *Config, n int) float64 {
	switch n {
	case 0:
		return 1
	case 1:
		cfg.Unit = UnitPT
		return 1
	case 2:
		cfg.Unit = UnitMM
		return 72.0 / 25.4
	case 3:
		cfg.Unit = UnitCM
		return 72.0 / 2.54
	case 4:
		cfg.Unit = UnitIN
		return 72
	case 5:
		cfg.Unit = UnitPX
		return 0.75
	}
	cfg.Unit = UnitMM
	cfg.ConversionForUnit = 0.24
	return 0.24
}
