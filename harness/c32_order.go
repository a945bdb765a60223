package gopdf

const c32N = 82

// c32Op makes a call without anything that it needs having been done before it.
func c32Op(pdf *GoPdf, k int, n string) error {
	switch k {
	case 26:
		return pdf.SetColorSpace("c0")
	case 32:
		return pdf.SetFont("f", "", 12)
	case 36:
		return pdf.AddTTFFontData("f", vStdFont(3).build())
	case 37:
		pdf.AddPage()
	case 38:
		return pdf.SetPage(vInt(n+"p", -1, 3))
	case 39:
		return pdf.SetFontSize(vFloat(n+"s", 0, 20))
	case 40:
		_, err := pdf.MeasureTextWidth("AB")
		return err
	case 41:
		_, err := pdf.MeasureCellHeightByText("AB")
		return err
	case 42:
		_, err := pdf.SplitText("AB", 5)
		return err
	case 43:
		_, _, err := pdf.IsFitMultiCell(&Rect{W: 50, H: 60}, "AB")
		return err
	case 44:
		return pdf.Text("AB")
	case 45:
		return pdf.Cell(&Rect{W: 5, H: 6}, "AB")
	case 46:
		return pdf.MultiCell(&Rect{W: 50, H: 60}, "AB")
	case 47:
		pdf.SetNewY(vFloat(n+"y", 0, 1000), vFloat(n+"h", 0, 1000))
	case 48:
		pdf.SetNewYIfNoOffset(vFloat(n+"y", 0, 1000), vFloat(n+"h", 0, 1000))
	case 49:
		_, err := pdf.IsCurrFontContainGlyph('A')
		return err
	case 50:
		return pdf.AddColorSpaceRGB("c0", 1, 2, 3)
	case 51:
		return pdf.FillInPlaceHoldText("x", "AB", Left)
	case 52:
		t := pdf.NewTableLayout(1, 2, 10, 1)
		t.AddColumn("h", 20, "left")
		t.AddRow([]string{"A"})
		return t.DrawTable()
	case 53:
		pdf.SetCharSpacing(1)
	case 54:
		pdf.SetTransparency(Transparency{Alpha: 0.5, BlendModeType: Multiply})
	case 55:
		pdf.KernOverride("f", func(a, b rune, c, d uint, e int16) int16 { return e })
	case 56:
		pdf.RotateReset()
	case 57:
		return pdf.MultiCellWithOption(&Rect{W: 50, H: 60}, "AB", CellOption{Align: Center})
	case 58:
		vAssert(pdf.GetInfo() == PdfInfo{}, "no information is set")
	case 59:
		pdf.Polygon([]Point{{X: 1, Y: 2}}[:vChoice(n+"n", 2)], "D")
	case 60:
		pdf.ClipPolygon([]Point{{X: 1, Y: 2}}[:vChoice(n+"n", 2)])
	case 61:
		pdf.SetCustomLineType(nil, 0)
	case 62:
		return pdf.AddTTFFontData("f", nil)
	case 63:
		return pdf.AddTTFFontFromFontContainer("f", &FontContainer{})
	case 64:
		_, err := ImageHolderByBytes(nil)
		return err
	case 65:
		_, err := pdf.SplitText("", 5)
		return err
	case 66:
		_, err := pdf.MeasureTextWidth("")
		return err
	case 67:
		if err := pdf.Text(""); err != nil {
			return err
		}
		return pdf.Cell(nil, "")
	case 68:
		if err := pdf.MultiCell(&Rect{W: 50, H: 60}, ""); err != nil {
			return err
		}
		return pdf.MultiCellWithOption(&Rect{W: 50, H: 60}, "", CellOption{Align: Middle})
	case 69:
		_, _, err := pdf.IsFitMultiCellWithNewline(&Rect{W: 50, H: 60}, "\n")
		return err
	case 70:
		return pdf.NewTableLayout(1, 2, 10, 0).DrawTable()
	case 71:
		return pdf.SetFontWithStyle("f", 0, "12")
	case 72:
		pdf.SetAnchor("")
		pdf.AddInternalLink("", 1, 2, 3, 4)
		pdf.AddExternalLink("", 1, 2, 3, 4)
		pdf.AddOutline("")
		OutlineNodes{}.Parse()
	case 73:
		return pdf.AddTTFFontData("", vStdFont(3).build())
	case 74:
		return pdf.SetFont("", "", 12)
	case 75:
		return pdf.Image("/no/such/file", 1, 2, nil)
	case 76:
		if pdf.ImageFrom(nil, 1, 2, nil) == nil || pdf.ImageFromWithOption(vGoImg(1, 1), ImageFromOption{Format: "?"}) == nil {
			vAssert(false, "no image is an error")
		}
	case 77:
		return pdf.ImageFrom(vGoImg(1, 1), 1, 2, nil)
	case 78:
		vAssert(pdf.AddTTFFont("f", "/no/such/file") != nil, "no font is an error")
		vAssert(pdf.AddTTFFont("f", vFile("empty", nil)) != nil, "no font is an error")
	case 80:
		pdf.SetAnchor("q")
	case 81:
		pdf.AddPage()
		pdf.AddInternalLink("q", 1, 2, 3, 4)
	case 79:
		vAssert(pdf.WritePdf("/no/such/folder/x") != nil, "a file that cannot be written is an error")
		return pdf.WritePdf(vFile("out.pdf", nil))
	default:
		vOp(pdf, k, n)
	}
	return nil
}

func c32Run(n int) {
	vLite = true
	pdf := &GoPdf{}
	pdf.Start(Config{PageSize: *PageSizeA4})
	for i := 0; i < n; i++ {
		nm := string(rune('a' + i))
		c32Op(pdf, vChoice(nm, c32N), nm)
	}
	d := vOut8(pdf)
	vCheckFile(d)
	vCheckRefs(d)
	vReach("done")
}

// Any call as the first one, with all its options.
// symgo time=10s
func H_C32_one() {
	pdf := &GoPdf{}
	pdf.Start(Config{PageSize: *PageSizeA4})
	c32Op(pdf, vChoice("a", c32N), "a")
	d := vOut8(pdf)
	vCheckFile(d)
	vCheckRefs(d)
	vReach("done")
}

// Any two calls on a new document.
// symgo time=50s
func H_C32_two() { c32Run(2) }

// Any three of the calls that leave something behind, and some that use it.
// symgo time=40s
func H_C32_state() {
	vLite = true
	pdf := &GoPdf{}
	pdf.Start(Config{PageSize: *PageSizeA4})
	ks := []int{36, 32, 37, 35, 38, 50, 26, 51, 33, 53, 54, 47, 80, 81, 72, 34, 31, 44, 46, 0, 12, 22, 79}
	for i := 0; i < 3; i++ {
		nm := string(rune('a' + i))
		c32Op(pdf, ks[vChoice(nm, len(ks))], nm)
	}
	d := vOut8(pdf)
	vCheckFile(d)
	vCheckRefs(d)
	vReach("done")
}

// Any three calls on a new document.
// symgo ttime=650s tier=thorough paths=3000000
func H_C32_three() { c32Run(3) }
