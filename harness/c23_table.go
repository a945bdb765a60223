package gopdf

type c23Cell struct {
	x, y, w, h float64
	st         CellStyle
	text       string
	align      string
	head       bool
	fs         float64
	wd         float64 // width of the text
}

func c23Edges(b BorderStyle) int {
	n := 0
	if b.Width > 0 {
		for _, e := range []bool{b.Top, b.Left, b.Right, b.Bottom} {
			if e {
				n++
			}
		}
	}
	return n
}

// c23Frame checks that the marks are exactly the edges of a border.
func c23Frame(ms []vMark, x, y, w, h, H, k float64, b BorderStyle, what string) {
	if b.Width <= 0 {
		return
	}
	edges := [][4]float64{{x, y, x + w, y}, {x, y, x, y + h}, {x + w, y, x + w, y + h}, {x, y + h, x + w, y + h}}
	o := b.Width*k/2 + 0.011
	for i, on := range []bool{b.Top, b.Left, b.Right, b.Bottom} {
		if !on {
			continue
		}
		e := edges[i]
		found := false
		for _, m := range ms {
			if len(m.Pts) != 2 {
				continue
			}
			ok := true
			for j := 0; j < 2; j++ {
				ok = vAnd(ok, vAnd(vNear(m.Pts[j].X, e[2*j], o), vNear(m.Pts[j].Y, H-e[2*j+1], o)))
			}
			found = vOr(found, ok)
		}
		vAssert(found, what+" has the edges of its style")
	}
	for _, m := range ms {
		vAssert(vNear(m.G.LW, b.Width*k, 0.0051), what+" has the line width of its style")
		c := []float64{float64(b.RGBColor.R) / 255, float64(b.RGBColor.G) / 255, float64(b.RGBColor.B) / 255}
		vAssert(m.G.Stroke.Op == "RG" && len(m.G.Stroke.V) == 3, what+" has the colour of its style")
		for i, v := range m.G.Stroke.V {
			vAssert(vNear(v, c[i], 0.0011), what+" has the colour of its style")
		}
	}
}

func c23Style(n string, full bool) CellStyle {
	st := CellStyle{BorderStyle: BorderStyle{Width: 0.5, RGBColor: RGBColor{R: 9}}}
	b := &st.BorderStyle
	if full {
		b.Top, b.Left, b.Right, b.Bottom = vBool(n+"t"), vBool(n+"l"), vBool(n+"r"), vBool(n+"b")
		b.Width = vFloat(n+"bw", 0, 3)
	} else {
		b.Top, b.Left, b.Right, b.Bottom = true, true, true, true
	}
	b.RGBColor.G = uint8(vInt(n+"bg", 0, 255))
	kind := 0
	if full || n == "C" || n == "H" {
		kind = vChoice(n+"kind", 2)
	}
	if kind == 1 || n == "O" {
		st.FillColor = RGBColor{R: 200, G: uint8(vInt(n+"fg", 0, 255)), B: 7}
	}
	st.TextColor = RGBColor{R: 1, G: 2, B: uint8(vInt(n+"tb", 0, 255))}
	if kind == 1 {
		st.Font, st.FontSize = "g", 12
	} else {
		st.Font, st.FontSize = "f", 8
	}
	return st
}

// c23Run draws a table whose style number "full" has any border.
func c23Run(cols, rows, max int, mm bool, full int) {
	cfg := Config{PageSize: *PageSizeA4}
	k := 1.0
	if mm {
		cfg.Unit, cfg.PageSize = UnitMM, Rect{W: 210, H: 297}
		k = 72 / 25.4
	}
	H := cfg.PageSize.H * k
	f := vStdFont(3)
	pdf := vMini(cfg, f)
	vAssume(pdf.AddTTFFontData("g", f.build()) == nil)
	pdf.AddPage()
	pdf.SetNoCompression()
	vAssert(pdf.SetFont("f", "", 10) == nil, "a loaded font can be selected")
	x0, y0 := vFloat("x", 0, 100), vFloat("y", 0, 100)
	rh := vFloat("rh", 25, 60)
	ts, hs, cs, own := c23Style("T", full == 0), c23Style("H", full == 1), c23Style("C", full == 2), c23Style("O", full == 3)
	t := pdf.NewTableLayout(x0, y0, rh, max)
	t.SetTableStyle(ts)
	t.SetHeaderStyle(hs)
	t.SetCellStyle(cs)
	var cells []c23Cell
	cell := func(x, y, w float64, st CellStyle, text, align string, head bool) {
		c := c23Cell{x: x * k, y: y * k, w: w * k, h: rh * k, st: st, text: text, align: align, head: head, fs: st.FontSize}
		for _, r := range text {
			c.wd += float64(f.widths[r-'A'+1]) / 1000 * c.fs
		}
		cells = append(cells, c)
	}
	aligns := []string{"left", "right", "center"}
	var ws []float64
	var al []string
	x := x0
	for i := 0; i < cols; i++ {
		w := vFloat("w"+vItoa(i), 17, 150)
		a := aligns[(vChoice("al", 3)+i)%3]
		ws, al = append(ws, w), append(al, a)
		h := "AB"[i%2 : i%2+1]
		t.AddColumn(h, w, a)
		cell(x, y0, w, hs, h, "center", true)
		x += w
	}
	total := x - x0
	y := y0 + rh
	for r := 0; r < rows; r++ {
		x := x0
		styled := vChoice("styled", 2) == 1
		var plain []string
		var sty []RowCell
		for i := 0; i < cols; i++ {
			s := []string{"CA", "", "B"}[(r+i)%3]
			plain = append(plain, s)
			st := cs
			if styled && i == 0 {
				st = own
			}
			sty = append(sty, NewRowCell(s, st))
			cell(x, y, ws[i], st, s, al[i], false)
			x += ws[i]
		}
		if styled {
			t.AddStyledRow(sty)
		} else {
			t.AddRow(plain)
		}
		y += rh
	}
	for r := rows; r < max; r++ {
		x := x0
		for i := 0; i < cols; i++ {
			cell(x, y, ws[i], cs, "", al[i], false)
			x += ws[i]
		}
		y += rh
	}
	vAssert(t.DrawTable() == nil, "a table is drawn")
	d := vOut8(pdf)
	if !d.OK {
		return
	}
	var fills, lines, texts []vMark
	var fAt, tAt []int
	for i, m := range d.marks(0) {
		switch {
		case m.Op == "TJ":
			if m.Text != "" {
				texts = append(texts, m)
				tAt = append(tAt, i)
			}
		case m.Op == "S" || m.Op == "s":
			lines = append(lines, m)
		default:
			fills = append(fills, m)
			fAt = append(fAt, i)
		}
	}
	fi, li, ti := 0, 0, 0
	for _, c := range cells {
		what := "a cell"
		filled := c.st.FillColor != (RGBColor{})
		if filled {
			vAssert(fi < len(fills), "every cell with a fill colour is filled")
			if fi >= len(fills) {
				return
			}
			m := fills[fi]
			vAssert(m.isRect(c.x, H-c.y-c.h, c.x+c.w, H-c.y, 0.021), "a cell is filled in its own area")
			v := m.G.Fill.V
			vAssert(m.G.Fill.Op == "rg" && len(v) == 3 && vNear(v[0], 200.0/255, 0.0011) && vNear(v[1], float64(c.st.FillColor.G)/255, 0.0011), "a cell is filled in the colour of its style")
			fi++
		}
		if !c.head {
			n := c23Edges(c.st.BorderStyle)
			vAssert(li+n <= len(lines), "every border asked for is drawn")
			if li+n > len(lines) {
				return
			}
			c23Frame(lines[li:li+n], c.x, c.y, c.w, c.h, H, k, c.st.BorderStyle, what)
			li += n
		}
		if c.text == "" {
			continue
		}
		vAssert(ti < len(texts), "the text of every cell is shown")
		if ti >= len(texts) {
			return
		}
		m := texts[ti]
		if filled {
			vAssert(fAt[fi-1] < tAt[ti], "text is not covered by the fill of its cell")
		}
		ti++
		want := ""
		for _, r := range c.text {
			want += "000" + string('1'+r-'A')
		}
		vAssert(m.Text == want, "a cell shows its own text")
		vAssert(m.G.Size == c.fs, "a text has the font of its style")
		vAssert(d.res(0, "Font").get(m.G.Font).I != 0, "a text has a font")
		v := m.G.Fill.V
		vAssert(m.G.Fill.Op == "rg" && len(v) == 3 && vNear(v[2], float64(c.st.TextColor.B)/255, 0.0011), "a text has the colour of its style")
		tx := m.Pts[0].X
		switch c.align {
		case "left":
			vAssert(vAnd(tx >= c.x-0.02, tx <= c.x+3*k), "text is at the left of its cell")
		case "right":
			vAssert(vAnd(tx+c.wd <= c.x+c.w+0.02, tx+c.wd >= c.x+c.w-3*k), "text is at the right of its cell")
		case "center":
			vAssert(vNear(tx+c.wd/2, c.x+c.w/2, 0.03), "text is in the middle of its cell")
		}
		// the middle of the text is that of its typographic ascender and descender
		asc, desc := float64(f.typoAsc)/1000*c.fs, float64(f.typoDesc)/1000*c.fs
		vAssert(vNear(m.Pts[0].Y+(asc+desc)/2, H-c.y-c.h/2, 0.03), "text is in the middle of the height of its cell")
	}
	nt, nh := c23Edges(ts.BorderStyle), c23Edges(hs.BorderStyle)
	vAssert(fi == len(fills) && ti == len(texts) && li+nt+nh == len(lines), "nothing but the cells and the two outer borders is drawn")
	if li+nt+nh != len(lines) {
		return
	}
	c23Frame(lines[li:li+nt], x0*k, y0*k, total*k, (y-y0)*k, H, k, ts.BorderStyle, "the table's border")
	c23Frame(lines[li+nt:], x0*k, y0*k, total*k, rh*k, H, k, hs.BorderStyle, "the header's border")
	vReach("done")
}

// Tables of up to two columns and three rows, more or fewer rows than asked
// for, at any position, with any widths, heights, colours, fonts and alignments.
// symgo time=30s ttime=250s
func H_C23_shape() {
	c23Run(1+vChoice("cols", 2), vChoice("rows", 3), vChoice("max", 3+vTier()), false, -1)
}

// Any set of edges and any line width in the style of the table, the header,
// the cells or of a cell of its own.
// symgo time=30s ttime=250s
func H_C23_style() { c23Run(1, 1, 2, vChoice("mm", 2) == 1, vChoice("full", 4)) }

// A row with more cells than there are columns, and a font that is not loaded, are errors.
func H_C23_errors() {
	pdf := vMini(Config{PageSize: *PageSizeA4}, vStdFont(3))
	pdf.AddPage()
	vAssert(pdf.SetFont("f", "", 10) == nil, "a loaded font can be selected")
	t := pdf.NewTableLayout(10, 10, 30, 2)
	cols := vChoice("cols", 3)
	for i := 0; i < cols; i++ {
		t.AddColumn("A", 40, "left")
	}
	n := vChoice("n", 4)
	var row []string
	for i := 0; i < n; i++ {
		row = append(row, []string{"B", ""}[vChoice("s", 2)])
	}
	t.AddRow(row)
	st := CellStyle{}
	if vChoice("font", 2) == 1 {
		st.Font, st.FontSize = "none", 10
	}
	t.SetHeaderStyle(st)
	err := t.DrawTable()
	if n > cols {
		vAssert(err != nil, "a row with more cells than columns is an error")
	} else if cols > 0 {
		vAssert((err != nil) == (st.Font != ""), "a font that is not loaded is an error")
	}
}
