package gopdf

// c05Kinds gives the operands of each operator: n number, N name, s string,
// a array of numbers, A text-showing array; "*" stands for any numbers.
func c05Kinds(op string) (string, bool) {
	switch op {
	case "q", "Q", "BT", "ET", "n", "W", "W*", "S", "s", "f", "F", "f*", "B", "B*", "b", "b*", "h", "T*":
		return "", true
	case "w", "J", "j", "i", "M", "Tc", "Tw", "Tz", "TL", "Tr", "Ts", "g", "G":
		return "n", true
	case "m", "l", "Td", "TD":
		return "nn", true
	case "rg", "RG":
		return "nnn", true
	case "k", "K", "v", "y", "re":
		return "nnnn", true
	case "c", "cm", "Tm":
		return "nnnnnn", true
	case "gs", "Do", "CS", "cs":
		return "N", true
	case "Tf":
		return "Nn", true
	case "Tj":
		return "s", true
	case "TJ":
		return "A", true
	case "d":
		return "an", true
	case "SC", "sc", "SCN", "scn":
		return "*", true
	}
	return "", false
}

func c05Arg(k byte, v *vO) bool {
	switch k {
	case 'n':
		return v.K == 'n'
	case 'N':
		return v.K == '/'
	case 's':
		return v.K == '(' || v.K == '<'
	case 'a', 'A':
		if v.K != 'a' {
			return false
		}
		for _, e := range v.Vals {
			if e.K != 'n' && (k == 'a' || e.K != '(' && e.K != '<') {
				return false
			}
		}
		return true
	}
	return false
}

// vCheckContent asserts that a content stream obeys the grammar of PDF page
// descriptions: known operators with the right operands, balanced q/Q and
// BT/ET, and operators only where they are allowed.
func vCheckContent(ops []vOpr) {
	depth := 0
	inText := false
	path := false // a path is under construction
	fonts := []bool{false}
	for _, o := range ops {
		k, known := c05Kinds(o.Op)
		vAssert(known, "operator is a PDF operator")
		if !known {
			continue
		}
		if k == "*" {
			for _, a := range o.A {
				vAssert(a.K == 'n', "colour components are numbers")
			}
		} else {
			vAssert(len(o.A) == len(k), "operator has the right number of operands")
			for i := 0; i < len(k) && i < len(o.A); i++ {
				vAssert(c05Arg(k[i], o.A[i]), "operand has the right type")
			}
		}
		switch o.Op {
		case "q":
			vAssert(!inText && !path, "q only at page level")
			depth++
			fonts = append(fonts, fonts[len(fonts)-1])
		case "Q":
			vAssert(!inText && !path, "Q only at page level")
			vAssert(depth > 0, "Q has a matching q")
			depth--
			if len(fonts) > 1 {
				fonts = fonts[:len(fonts)-1]
			}
		case "BT":
			vAssert(!inText && !path, "BT only at page level")
			inText = true
		case "ET":
			vAssert(inText, "ET has a matching BT")
			inText = false
		case "Td", "TD", "Tm", "Tj", "TJ", "T*":
			vAssert(inText, "text operators only inside BT/ET")
			if o.Op == "Tj" || o.Op == "TJ" {
				vAssert(fonts[len(fonts)-1], "text is shown only after a font was set")
			}
		case "Tf":
			vAssert(!path, "no text state change inside a path")
			fonts[len(fonts)-1] = true
		case "m", "re":
			vAssert(!inText, "no path inside a text object")
			path = true
		case "l", "c", "v", "y", "h":
			vAssert(!inText && path, "path segments only after the path began")
		case "S", "s", "f", "F", "f*", "B", "B*", "b", "b*", "n":
			vAssert(!inText && path, "a painting operator paints a path")
			path = false
		case "W", "W*":
			vAssert(path, "clipping uses a path")
		case "Do", "cm":
			vAssert(!inText && !path, "only at page level")
		case "gs", "d", "w", "J", "j", "i", "M":
			vAssert(!path, "no graphics state change inside a path")
		case "rg", "RG", "g", "G", "k", "K", "cs", "CS", "sc", "SC", "scn", "SCN":
			vAssert(!path, "no colour change inside a path")
		}
	}
	vAssert(depth == 0, "every q has a matching Q by the end of the page")
	vAssert(!inText, "every BT has a matching ET by the end of the page")
	vAssert(!path, "every path is painted or ended")
}

func c05Doc(d *vDoc) {
	if !d.OK {
		return
	}
	for i := range d.pages() {
		ops, bad := vOps(d.content(i))
		vAssert(bad == "", "page content is a sequence of operands and operators")
		vCheckContent(ops)
	}
	for _, o := range d.Objs {
		if o.HasS && o.O.get("Subtype").S == "Form" {
			ops, bad := vOps([]byte(o.Stream))
			vAssert(bad == "", "form content is a sequence of operands and operators")
			vCheckContent(ops)
		}
	}
}

func c05Run(n int, cfg Config) {
	pdf := vOpsDoc(cfg)
	for i := 0; i < n; i++ {
		vOp(pdf, vChoice("op"+vItoa(i+1), vNOps), string(rune('a'+i)))
	}
	pdf.SetNoCompression()
	d := vOut8(pdf)
	d.unlock([]byte("u"))
	c05Doc(d)
}

// Every drawing call with all its options, in three document configurations.
// symgo time=40s
func H_C05_single() { c05Run(1, vPreset()) }

// Any sequence of two drawing calls (richest options).
// symgo time=60s
func H_C05_pairs() { vLite = true; c05Run(2, Config{PageSize: *PageSizeA4}) }

// Any sequence of two drawing calls with all options, three configurations.
// symgo tier=thorough ttime=200s
func H_C05_pairsfull() { c05Run(2, vPreset()) }

// Any sequence of three drawing calls (richest options).
// symgo tier=thorough ttime=300s
func H_C05_triples() { vLite = true; c05Run(3, Config{PageSize: *PageSizeA4}) }

// Any text: any characters of the font in any order, with underline, size and spacing.
// symgo time=40s
func H_C05_text() {
	pdf := vOpsDoc(Config{PageSize: *PageSizeA4})
	pdf.SetFont("f", []string{"", "U"}[vChoice("style", 2)], vFloat("size", 1, 100))
	if vBool("sp") {
		pdf.SetCharSpacing(vFloat("cs", -5, 5))
	}
	s := c05Str(3)
	pdf.SetXY(vFloat("x", -100, 700), vFloat("y", -100, 900))
	if vBool("cell") {
		pdf.Cell(nil, s)
	} else {
		pdf.Text(s)
	}
	pdf.SetNoCompression()
	c05Doc(vOut8(pdf))
}

func c05Str(max int) string {
	n := vChoice("len", max+1)
	r := make([]rune, n)
	for i := range r {
		r[i] = vRune("r"+vItoa(i), 'A', 'D')
	}
	return string(r)
}

func c05Cells(s string, al, fl int) {
	pdf := vOpsDoc(Config{PageSize: *PageSizeA4})
	pdf.SetFont("f", []string{"", "U"}[vChoice("style", 2)], 12)
	pdf.SetXY(10, 20)
	r := &Rect{W: vFloat("w", -10, 100), H: vFloat("h", -10, 100)}
	o := CellOption{Align: al, Border: vInt("border", 0, 15), Float: fl}
	if vBool("tr") {
		o.Transparency = &Transparency{Alpha: 0.5, BlendModeType: Multiply}
	}
	if vBool("multi") {
		pdf.MultiCellWithOption(r, s, o)
	} else {
		pdf.CellWithOption(r, s, o)
	}
	pdf.SetNoCompression()
	c05Doc(vOut8(pdf))
}

// Cells of the usual alignments, every border, with a width and height of any value.
// symgo time=30s
func H_C05_cells() {
	c05Cells([]string{"", "A B", "DD"}[vChoice("s", 3)], []int{0, Left | Top, Center | Middle, Right | Bottom, Justify}[vChoice("al", 5)], 0)
}

// Cells of every alignment, border and float, with a width and height of any value.
// symgo tier=thorough ttime=200s
func H_C05_cellsfull() {
	c05Cells([]string{"", "A", "A B", "DD"}[vChoice("s", 4)], vInt("align", 0, 127), []int{0, Right, Bottom, Right | Bottom}[vChoice("float", 4)])
}

// Wrapped text of any characters in a column of any width.
// symgo time=40s
func H_C05_multi() {
	pdf := vOpsDoc(Config{PageSize: *PageSizeA4})
	pdf.SetXY(10, 20)
	s := c05Str(3)
	pdf.MultiCell(&Rect{W: vFloat("w", 8, 100), H: vFloat("h", 0, 100)}, s)
	pdf.SetNoCompression()
	c05Doc(vOut8(pdf))
}
