package gopdf

// Interpreter for page content: what is painted, where (in default user
// space) and with which graphics state.

type vMat struct{ A, B, C, D, E, F float64 }

func vIdent() vMat { return vMat{1, 0, 0, 1, 0, 0} }

// mul is m applied before n (PDF: CTM' = m x CTM).
func (m vMat) mul(n vMat) vMat {
	return vMat{
		m.A*n.A + m.B*n.C, m.A*n.B + m.B*n.D,
		m.C*n.A + m.D*n.C, m.C*n.B + m.D*n.D,
		m.E*n.A + m.F*n.C + n.E, m.E*n.B + m.F*n.D + n.F,
	}
}
func (m vMat) at(x, y float64) Point {
	return Point{m.A*x + m.C*y + m.E, m.B*x + m.D*y + m.F}
}

// vCol is a colour: the operator that set it and its components.
type vCol struct {
	Op string
	V  []float64
	CS string
}

type vGS struct {
	M      vMat
	LW     float64
	Dash   []float64
	Phase  float64
	Stroke vCol
	Fill   vCol
	GSN    []string
	GSM    []vMat // the transformation when each of them was set
	Font   string
	Size   float64
	Tc     float64
	Clips  []vMark
}

type vMark struct {
	Op     string // painting operator, TJ, or Do
	Pts    []Point
	Segs   string // m, l, c (three points), h per segment
	Clip   bool
	G      vGS
	Text   string // glyph indices, 4 hexadecimal digits each
	Adj    []float64
	AdjAt  []int // number of glyphs before each adjustment
	Name   string
	Rect   bool // a single re
	Tm     vMat
	X0, Y0 float64
}

func vInterp(ops []vOpr) []vMark {
	return vInterpFrom(ops, vGS{M: vIdent(), LW: 1, Stroke: vCol{"G", []float64{0}, ""}, Fill: vCol{"g", []float64{0}, ""}})
}

func vInterpFrom(ops []vOpr, g vGS) []vMark {
	var st []vGS
	var out []vMark
	var cur vMark
	clip := false
	tm, lm := vIdent(), vIdent()
	for _, o := range ops {
		var f []float64
		for _, a := range o.A {
			f = append(f, a.F)
		}
		need := 0
		if k, ok := vOperands(o.Op); ok {
			need = k
		}
		if len(f) < need {
			continue
		}
		add := func(seg string, pts ...Point) {
			cur.Segs += seg
			for _, p := range pts {
				cur.Pts = append(cur.Pts, g.M.at(p.X, p.Y))
			}
		}
		switch o.Op {
		case "q":
			st = append(st, g)
		case "Q":
			if len(st) > 0 {
				g = st[len(st)-1]
				st = st[:len(st)-1]
			}
		case "cm":
			g.M = vMat{f[0], f[1], f[2], f[3], f[4], f[5]}.mul(g.M)
		case "w":
			g.LW = f[0]
		case "d":
			g.Dash = nil
			for _, v := range o.A[0].Vals {
				g.Dash = append(g.Dash, v.F)
			}
			g.Phase = f[1]
		case "g", "rg", "k":
			g.Fill = vCol{o.Op, f, ""}
		case "G", "RG", "K":
			g.Stroke = vCol{o.Op, f, ""}
		case "cs":
			g.Fill = vCol{"cs", nil, o.A[0].S}
		case "CS":
			g.Stroke = vCol{"CS", nil, o.A[0].S}
		case "sc", "scn":
			g.Fill = vCol{g.Fill.Op, f, g.Fill.CS}
		case "SC", "SCN":
			g.Stroke = vCol{g.Stroke.Op, f, g.Stroke.CS}
		case "gs":
			g.GSN = append(append([]string(nil), g.GSN...), o.A[0].S)
			g.GSM = append(append([]vMat(nil), g.GSM...), g.M)
		case "m":
			cur.X0, cur.Y0 = f[0], f[1]
			add("m", Point{f[0], f[1]})
		case "l":
			add("l", Point{f[0], f[1]})
		case "c":
			add("c", Point{f[0], f[1]}, Point{f[2], f[3]}, Point{f[4], f[5]})
		case "h":
			add("h")
		case "re":
			add("mlllh", Point{f[0], f[1]}, Point{f[0] + f[2], f[1]}, Point{f[0] + f[2], f[1] + f[3]}, Point{f[0], f[1] + f[3]})
		case "W", "W*":
			clip = true
		case "S", "s", "f", "F", "f*", "B", "B*", "b", "b*", "n":
			cur.Op = o.Op
			cur.G = g
			cur.Clip = clip
			if clip {
				g.Clips = append(append([]vMark(nil), g.Clips...), cur)
			}
			if o.Op != "n" {
				out = append(out, cur)
			}
			cur = vMark{}
			clip = false
		case "BT":
			tm, lm = vIdent(), vIdent()
		case "Td", "TD":
			lm = vMat{1, 0, 0, 1, f[0], f[1]}.mul(lm)
			tm = lm
		case "Tm":
			lm = vMat{f[0], f[1], f[2], f[3], f[4], f[5]}
			tm = lm
		case "Tf":
			g.Font, g.Size = o.A[0].S, f[1]
		case "Tc":
			g.Tc = f[0]
		case "TJ":
			t := vMark{Op: "TJ", G: g}
			t.Tm = tm.mul(g.M)
			for _, v := range o.A[0].Vals {
				if v.K == 'n' {
					t.Adj = append(t.Adj, v.F)
					t.AdjAt = append(t.AdjAt, len(t.Text)/4)
				} else {
					t.Text += v.S
				}
			}
			p := t.Tm.at(0, 0)
			t.Pts = []Point{p}
			out = append(out, t)
		case "Do":
			out = append(out, vMark{Op: "Do", G: g, Name: o.A[0].S, Pts: []Point{g.M.at(0, 0), g.M.at(1, 0), g.M.at(1, 1), g.M.at(0, 1)}})
		}
	}
	return out
}

func vOperands(op string) (int, bool) {
	switch op {
	case "w", "g", "G", "cs", "CS", "gs", "TJ", "Do", "Tc":
		return 1, true
	case "m", "l", "Td", "TD", "Tf", "d":
		return 2, true
	case "rg", "RG":
		return 3, true
	case "k", "K", "re":
		return 4, true
	case "cm", "c", "Tm":
		return 6, true
	}
	return 0, false
}

// vMarks interprets page i.
func (d *vDoc) marks(i int) []vMark {
	ops, bad := vOps(d.content(i))
	vAssert(bad == "", "page content is a sequence of operands and operators")
	return vInterp(ops)
}

func vPtNear(p Point, x, y, tol float64) bool {
	return vAnd(vNear(p.X, x, tol), vNear(p.Y, y, tol))
}

// vBox is the bounding box of a mark's points.
func (m vMark) box() (x0, y0, x1, y1 float64) {
	for i, p := range m.Pts {
		if i == 0 {
			x0, x1, y0, y1 = p.X, p.X, p.Y, p.Y
			continue
		}
		x0 = vIteF(p.X < x0, p.X, x0)
		x1 = vIteF(p.X > x1, p.X, x1)
		y0 = vIteF(p.Y < y0, p.Y, y0)
		y1 = vIteF(p.Y > y1, p.Y, y1)
	}
	return
}

// vIsRect: the mark's points are the corners of the rectangle, in any order around it.
func (m vMark) isRect(x0, y0, x1, y1, tol float64) bool {
	if len(m.Pts) != 4 {
		return false
	}
	in := true
	for i, p := range m.Pts {
		q := m.Pts[(i+2)%4]
		in = vAnd(in, vAnd(vOr(vNear(p.X, x0, tol), vNear(p.X, x1, tol)), vOr(vNear(p.Y, y0, tol), vNear(p.Y, y1, tol))))
		in = vAnd(in, vAnd(vNear(p.X+q.X, x0+x1, 2*tol), vNear(p.Y+q.Y, y0+y1, 2*tol)))
	}
	// consecutive corners share one coordinate
	for i, p := range m.Pts {
		q := m.Pts[(i+1)%4]
		in = vAnd(in, vOr(vNear(p.X, q.X, tol), vNear(p.Y, q.Y, tol)))
	}
	return in
}
