package gopdf

import "math"

type c06Env struct {
	pdf  *GoPdf
	k    float64 // points per unit
	w, h float64 // page size in points
}

// c06Doc is a document in any unit with a page of any size (the document's, or the page's own).
func c06Doc(units int) c06Env {
	cfg := Config{}
	k := vUnit(&cfg, vChoice("unit", units))
	w, h := vFloat("pw", 50, 2000), vFloat("ph", 50, 2000)
	own := vBool("own")
	if own {
		cfg.PageSize = Rect{W: 300 / k, H: 400 / k}
	} else {
		cfg.PageSize = Rect{W: w / k, H: h / k}
	}
	pdf := vMini(cfg, vStdFont(3))
	if own {
		pdf.AddPage()
		pdf.AddPageWithOption(PageOption{PageSize: &Rect{W: w / k, H: h / k}})
	} else {
		pdf.AddPage()
	}
	vAssert(pdf.SetFont("f", "", 10) == nil, "a loaded font can be selected")
	return c06Env{pdf, k, w, h}
}

// u is a length in document units (given name and range in points).
func (e c06Env) u(n string, lo, hi float64) (units, points float64) {
	p := vFloat(n, lo, hi)
	return p / e.k, p
}

func (e c06Env) marks() []vMark {
	e.pdf.SetNoCompression()
	d := vOut8(e.pdf)
	ps := d.pages()
	return d.marks(len(ps) - 1)
}

const c06Tol = 0.012

func (e c06Env) pt(m vMark, i int, x, y float64, what string) {
	vAssert(i < len(m.Pts), what+": has the point")
	if i < len(m.Pts) {
		vAssert(vPtNear(m.Pts[i], x, e.h-y, c06Tol), what+": is where the caller put it")
	}
}

func c06One(ms []vMark, what string) vMark {
	vAssert(len(ms) == 1, what+": paints once")
	if len(ms) == 0 {
		return vMark{}
	}
	return ms[0]
}

func c06Paint(style string) []string {
	switch style {
	case "F":
		return []string{"f", "F", "f*"}
	case "FD", "DF":
		return []string{"B", "b", "B*", "b*"}
	}
	return []string{"S", "s"}
}
func c06IsPaint(op, style string) bool {
	for _, s := range c06Paint(style) {
		if s == op {
			return true
		}
	}
	return false
}

// Lines, rectangles, ovals, curves and polygons in any unit on a page of any
// size: points are painted where the caller put them, y measured from the top.
// symgo time=40s
func H_C06_shapes() {
	e := c06Doc(7)
	x, px := e.u("x", -100, 2000)
	y, py := e.u("y", -100, 2000)
	w, pw := e.u("w", 0, 500)
	h, ph := e.u("h", 0, 500)
	style := []string{"", "D", "F", "FD", "DF"}[vChoice("style", 5)]
	switch vChoice("shape", 9) {
	case 0:
		vAssume(style == "")
		e.pdf.Line(x, y, x+w, y+h)
		m := c06One(e.marks(), "line")
		vAssert(m.Op == "S" || m.Op == "s", "line is stroked")
		e.pt(m, 0, px, py, "line start")
		e.pt(m, 1, px+pw, py+ph, "line end")
	case 1:
		e.pdf.RectFromUpperLeftWithStyle(x, y, w, h, style)
		m := c06One(e.marks(), "rectangle")
		vAssert(c06IsPaint(m.Op, style), "rectangle is painted in its style")
		vAssert(m.isRect(px, e.h-py-ph, px+pw, e.h-py, 0.025), "rectangle: is where the caller put it")
	case 2:
		e.pdf.RectFromLowerLeftWithStyle(x, y, w, h, style)
		m := c06One(e.marks(), "rectangle")
		vAssert(c06IsPaint(m.Op, style), "rectangle is painted in its style")
		vAssert(m.isRect(px, e.h-py, px+pw, e.h-py+ph, 0.025), "rectangle: is where the caller put it")
	case 3:
		vAssume(style == "")
		e.pdf.RectFromUpperLeft(x, y, w, h)
		m := c06One(e.marks(), "rectangle")
		vAssert(m.isRect(px, e.h-py-ph, px+pw, e.h-py, 0.025), "rectangle: is where the caller put it")
	case 4:
		vAssume(style == "")
		e.pdf.RectFromLowerLeft(x, y, w, h)
		m := c06One(e.marks(), "rectangle")
		vAssert(m.isRect(px, e.h-py, px+pw, e.h-py+ph, 0.025), "rectangle: is where the caller put it")
	case 5:
		vAssume(style == "")
		e.pdf.Oval(x, y, x+w, y+h)
		m := c06One(e.marks(), "oval")
		vAssert(m.Segs == "mcccc" && len(m.Pts) == 13, "oval: four curves")
		x0, y0, x1, y1 := m.box()
		vAssert(vAnd(vAnd(vNear(x0, px, c06Tol), vNear(x1, px+pw, c06Tol)), vAnd(vNear(y0, e.h-py-ph, c06Tol), vNear(y1, e.h-py, c06Tol))), "oval: fills the rectangle given by its corners")
		for i := 0; i+3 < len(m.Pts); i += 3 {
			// the middle of each quarter lies on the ellipse
			a, b, c, d := m.Pts[i], m.Pts[i+1], m.Pts[i+2], m.Pts[i+3]
			mx, my := (a.X+3*b.X+3*c.X+d.X)/8, (a.Y+3*b.Y+3*c.Y+d.Y)/8
			dx, dy := mx-(px+pw/2), my-(e.h-py-ph/2)
			vAssert(vAnd(vOr(vNear(dx, pw*0.35355, pw*0.002+0.05), vNear(dx, -pw*0.35355, pw*0.002+0.05)), vOr(vNear(dy, ph*0.35355, ph*0.002+0.05), vNear(dy, -ph*0.35355, ph*0.002+0.05))), "oval: follows the ellipse")
		}
	case 6:
		e.pdf.Curve(x, y, x+w, y, x, y+h, x+w, y+h, style)
		m := c06One(e.marks(), "curve")
		vAssert(c06IsPaint(m.Op, style) && m.Segs == "mc", "curve is painted in its style")
		e.pt(m, 0, px, py, "curve start")
		e.pt(m, 1, px+pw, py, "curve control point")
		e.pt(m, 2, px, py+ph, "curve control point")
		e.pt(m, 3, px+pw, py+ph, "curve end")
	case 7:
		e.pdf.Polygon([]Point{{x, y}, {x + w, y}, {x + w/2, y + h}}, style)
		m := c06One(e.marks(), "polygon")
		vAssert(c06IsPaint(m.Op, style), "polygon is painted in its style")
		vAssert(style == "F" || m.Op == "s" || m.Op == "b" || len(m.Segs) == 4, "polygon outline is closed")
		e.pt(m, 0, px, py, "polygon point")
		e.pt(m, 1, px+pw, py, "polygon point")
		e.pt(m, 2, px+pw/2, py+ph, "polygon point")
	case 8:
		vAssume(w > 0 && h > 0)
		vAssert(e.pdf.Rectangle(x, y, x+w, y+h, style, 0, 0) == nil, "rectangle with corners in order")
		m := c06One(e.marks(), "rectangle")
		vAssert(c06IsPaint(m.Op, style), "rectangle is painted in its style")
		vAssert(m.isRect(px, e.h-py-ph, px+pw, e.h-py, 0.025), "rectangle: is where the caller put it")
	}
}

// A rectangle with rounded corners: straight between the corners, each corner
// following its quarter of a circle; a radius larger than a side is refused.
// symgo time=20s
func H_C06_rounded() {
	e := c06Doc(7)
	x, px := e.u("x", -100, 2000)
	y, py := e.u("y", -100, 2000)
	w, pw := e.u("w", 0.1, 500)
	h, ph := e.u("h", 0.1, 500)
	r, pr := e.u("r", 0.05, 500)
	n := 1 + vChoice("n", 4)
	style := []string{"", "D", "F", "FD", "DF"}[vChoice("style", 5)]
	err := e.pdf.Rectangle(x, y, x+w, y+h, style, r, n)
	if err != nil {
		vAssert(vOr(pr > pw-1e-6, pr > ph-1e-6), "rounded rectangle: refused only when the radius exceeds a side")
		vAssert(vErrIs(err, ErrInvalidRectangleRadius), "rounded rectangle: says that the radius is wrong")
		return
	}
	vAssert(vAnd(pr < pw+1e-6, pr < ph+1e-6), "rounded rectangle: a radius that exceeds a side is refused")
	m := c06One(e.marks(), "rounded rectangle")
	vAssert(c06IsPaint(m.Op, style), "rounded rectangle is painted in its style")
	vAssert(style == "F" || m.Op == "s" || m.Op == "b", "rounded rectangle outline is closed")
	var want []Point
	for c := 0; c < 4; c++ { // upper left, upper right, lower right, lower left
		cx, cy := px+pr, py+pr
		if c == 1 || c == 2 {
			cx = px + pw - pr
		}
		if c >= 2 {
			cy = py + ph - pr
		}
		for i := 0; i <= n+1; i++ {
			cs, sn := c06Trig2(180 + 90*float64(c) + 90*float64(i)/float64(n+1))
			want = append(want, Point{cx + pr*cs, cy + pr*sn})
		}
	}
	vAssert(len(m.Pts) == len(want), "rounded rectangle: has as many points as asked for")
	if len(m.Pts) != len(want) {
		return
	}
	for i, p := range want {
		e.pt(m, i, p.X, p.Y, "rounded rectangle: point")
	}
}

func c06Trig2(deg float64) (cs, sn float64) {
	return math.Cos(deg * math.Pi / 180), math.Sin(deg * math.Pi / 180)
}

// Text starts at the current position (baseline for Text, top of the cell for
// Cell) and moves it by its own width.
// symgo time=30s
func H_C06_text() {
	e := c06Doc(7)
	x, px := e.u("x", -100, 2000)
	y, py := e.u("y", -100, 2000)
	e.pdf.SetXY(x, y)
	vAssert(vAnd(vNear(e.pdf.GetX(), x, 1e-6), vNear(e.pdf.GetY(), y, 1e-6)), "the current position is the one set")
	f := vStdFont(3)
	adv := float64(f.widths[1]+f.widths[2]) / float64(f.upem) * 10
	var m vMark
	switch vChoice("call", 5) {
	case 0:
		e.pdf.Text("AB")
		vAssert(vAnd(vNear(e.pdf.GetX()*e.k, px+adv, 0.03), vNear(e.pdf.GetY(), y, 1e-6)), "Text moves the position by its width")
		m = c06One(e.marks(), "text")
		e.pt(m, 0, px, py, "text baseline")
	case 1:
		e.pdf.Cell(nil, "AB")
		vAssert(vAnd(vNear(e.pdf.GetX()*e.k, px+adv, 0.03), vNear(e.pdf.GetY(), y, 1e-6)), "Cell moves the position by its width")
		m = c06One(e.marks(), "cell")
		e.pt(m, 0, px, py+float64(f.typoAsc)/float64(f.upem)*10, "cell text baseline")
	case 2:
		w, pw := e.u("w", 0, 500)
		e.pdf.Cell(&Rect{W: w, H: 20 / e.k}, "AB")
		vAssert(vAnd(vNear(e.pdf.GetX()*e.k, px+pw, 0.03), vNear(e.pdf.GetY(), y, 1e-6)), "Cell moves the position by its width")
		m = c06One(e.marks(), "cell")
		e.pt(m, 0, px, py+float64(f.typoAsc)/float64(f.upem)*10, "cell text baseline")
	case 3:
		h, ph := e.u("h", 0, 500)
		e.pdf.Br(h)
		vAssert(vAnd(vNear(e.pdf.GetX()*e.k, 10, 1e-6), vNear(e.pdf.GetY()*e.k, py+ph, 1e-6)), "Br moves to the left margin and down")
		e.pdf.Text("AB")
		m = c06One(e.marks(), "text")
		e.pt(m, 0, 10, py+ph, "text baseline")
	case 4:
		w, pw := e.u("w", 0, 500)
		h, ph := e.u("h", 0, 500)
		fl := []int{0, Right, Bottom, Right | Bottom}[vChoice("float", 4)]
		e.pdf.CellWithOption(&Rect{W: w, H: h}, "AB", CellOption{Align: Left | Top, Float: fl})
		ex, ey := px, py
		if fl == 0 || fl&Right != 0 {
			ex += pw
		}
		if fl&Bottom != 0 {
			ey += ph
		}
		vAssert(vAnd(vNear(e.pdf.GetX()*e.k, ex, 1e-6), vNear(e.pdf.GetY()*e.k, ey, 1e-6)), "the cell's Float says where the position goes")
		m = c06One(e.marks(), "cell")
		e.pt(m, 0, px, py+float64(f.typoAsc)/float64(f.upem)*10, "cell text baseline")
	}
	vAssert(m.Text == "00010002", "text shows the right glyphs")
}

// Images fill the rectangle given, in any unit, flipped, cropped or rotated about its centre.
// symgo time=40s
func H_C06_images() {
	e := c06Doc(7)
	x, px := e.u("x", -100, 2000)
	y, py := e.u("y", -100, 2000)
	w, pw := e.u("w", 1, 500)
	h, ph := e.u("h", 1, 500)
	jpg := vHolder("jpg", vJPEG(10, 20, 3, []byte{1, 2, 3}))
	hf, vf, crop, ang := false, false, false, 0.0
	cw, ch := pw, ph
	from := func(o ImageFromOption) {
		o.X, o.Y = x, y
		if o.Format == "" {
			vAssert(e.pdf.ImageFrom(vGoImg(2, 4), x, y, o.Rect) == nil, "an image in memory is accepted")
			return
		}
		vAssert(e.pdf.ImageFromWithOption(vGoImg(2, 4), o) == nil, "an image in memory is accepted")
	}
	formats := []string{"", "png", "jpeg"}
	switch vChoice("call", 5) {
	case 0:
		vAssert(e.pdf.ImageByHolder(jpg, x, y, &Rect{W: w, H: h}) == nil, "a valid image is accepted")
	case 3:
		vAssert(e.pdf.Image(vFile("i.jpg", vJPEG(10, 20, 3, []byte{1, 2, 3})), x, y, &Rect{W: w, H: h}) == nil, "a valid image is accepted")
	case 4:
		from(ImageFromOption{Format: formats[vChoice("format", 3)], Rect: &Rect{W: w, H: h}})
	case 1:
		png := vPixels(2, 4, 2, vRaw(2, 4, 2))
		switch k := vChoice("source", 5); k {
		case 0:
			vAssert(e.pdf.ImageByHolder(vHolder("png", png), x, y, nil) == nil, "a valid image is accepted")
		case 1:
			vAssert(e.pdf.Image(vFile("i.png", png), x, y, nil) == nil, "a valid image is accepted")
		default:
			from(ImageFromOption{Format: formats[k-2]})
		}
		// without a rectangle: the size in pixels, at 72 per 96 of an inch or 1 point each
		m := c06One(e.marks(), "image")
		vAssert(len(m.Pts) == 4, "image: has corners")
		if len(m.Pts) == 4 {
			iw, ih := m.Pts[2].X-m.Pts[0].X, m.Pts[2].Y-m.Pts[0].Y
			vAssert(vNear(2*iw, ih, 0.05), "image without a rectangle keeps its proportions")
			vAssert(vPtNear(m.Pts[3], px, e.h-py, 0.025), "image: upper left corner is where the caller put it")
		}
		return
	case 2:
		hf, vf, crop = vBool("hf"), vBool("vf"), vBool("crop")
		ang = []float64{0, 90, 30, -45, 180}[vChoice("ang", 5)]
		o := ImageOptions{X: x, Y: y, Rect: &Rect{W: w, H: h}, HorizontalFlip: hf, VerticalFlip: vf, DegreeAngle: ang}
		if crop {
			var ux, uy float64
			ux, cw = e.u("cw", 1, 100)
			uy, ch = e.u("ch", 1, 100)
			o.Crop = &CropOptions{X: 5 / e.k, Y: 7 / e.k, Width: ux, Height: uy}
		}
		vAssert(e.pdf.ImageByHolderWithOptions(jpg, o) == nil, "a valid image is accepted")
	}
	c06Img{px, py, pw, ph, cw, ch, 5, 7, hf, vf, crop, ang}.check(e.h, c06One(e.marks(), "image"), "image")
}

// c06Img is an image as asked for, in points.
type c06Img struct {
	x, y, w, h   float64
	cw, ch       float64 // size of the visible part
	cx, cy       float64 // where that starts in the image
	hf, vf, crop bool
	ang          float64
}

func (c c06Img) check(ph float64, m vMark, what string) {
	if len(m.Pts) != 4 {
		vAssert(false, what+": has corners")
		return
	}
	// the unrotated corners: lower left, lower right, upper right, upper left of the image
	ix, iy := c.x, c.y
	if c.crop {
		ix, iy = c.x-c.cx, c.y-c.cy
	}
	l, r, b, t := ix, ix+c.w, ph-iy-c.h, ph-iy
	if c.hf {
		l, r = r, l
	}
	if c.vf {
		b, t = t, b
	}
	// rotation about the centre of the visible part
	cx, cy := c.x+c.cw/2, ph-(c.y+c.ch/2)
	cs, sn := c06Trig(c.ang)
	rot := func(ax, ay float64) Point {
		dx, dy := ax-cx, ay-cy
		return Point{cx + dx*cs - dy*sn, cy + dx*sn + dy*cs}
	}
	want := []Point{rot(l, b), rot(r, b), rot(r, t), rot(l, t)}
	tol := 0.06
	for i := range want {
		vAssert(vPtNear(m.Pts[i], want[i].X, want[i].Y, tol), what+": corner is where the caller put it")
	}
	if !c.crop {
		vAssert(len(m.G.Clips) == 0, what+": not clipped")
		return
	}
	vAssert(len(m.G.Clips) == 1, what+" cropped: clipped once")
	if len(m.G.Clips) == 1 {
		k := m.G.Clips[0]
		vAssert(len(k.Pts) == 4, what+" cropped: clipped to a rectangle")
		if len(k.Pts) == 4 {
			// opposite corners of the clip are those of the visible part
			a, b := rot(c.x, ph-c.y-c.ch), rot(c.x+c.cw, ph-c.y)
			p := vOr(vAnd(vPtNear(k.Pts[0], a.X, a.Y, tol), vPtNear(k.Pts[2], b.X, b.Y, tol)), vAnd(vPtNear(k.Pts[2], a.X, a.Y, tol), vPtNear(k.Pts[0], b.X, b.Y, tol)))
			a, b = rot(c.x+c.cw, ph-c.y-c.ch), rot(c.x, ph-c.y)
			q := vOr(vAnd(vPtNear(k.Pts[0], a.X, a.Y, tol), vPtNear(k.Pts[2], b.X, b.Y, tol)), vAnd(vPtNear(k.Pts[2], a.X, a.Y, tol), vPtNear(k.Pts[0], b.X, b.Y, tol)))
			vAssert(vOr(p, q), what+" cropped: only the rectangle asked for is visible")
		}
	}
}

// An image with a mask lies where it would lie without, and its mask where the
// mask's own options put it.
// symgo time=40s
func H_C06_masked() {
	e := c06Doc(7)
	part := func(n string) (ImageOptions, c06Img) {
		x, px := e.u(n+"x", -100, 2000)
		y, py := e.u(n+"y", -100, 2000)
		w, pw := e.u(n+"w", 1, 500)
		h, ph := e.u(n+"h", 1, 500)
		i := c06Img{x: px, y: py, w: pw, h: ph, cw: pw, ch: ph, cx: 5, cy: 7}
		i.hf, i.vf, i.crop = vBool(n+"hf"), vBool(n+"vf"), vBool(n+"crop")
		o := ImageOptions{X: x, Y: y, Rect: &Rect{W: w, H: h}, HorizontalFlip: i.hf, VerticalFlip: i.vf}
		if i.crop {
			var ux, uy float64
			ux, i.cw = e.u(n+"cw", 1, 100)
			uy, i.ch = e.u(n+"ch", 1, 100)
			o.Crop = &CropOptions{X: i.cx / e.k, Y: i.cy / e.k, Width: ux, Height: uy}
		}
		return o, i
	}
	o, want := part("")
	want.ang = []float64{0, 90, 30}[vChoice("ang", 3)]
	o.DegreeAngle = want.ang
	mo, mwant := part("m")
	o.Mask = &MaskOptions{Holder: vHolder("mask", vPixels(2, 1, 6, vRaw(2, 1, 6))), ImageOptions: mo}
	vAssert(e.pdf.ImageByHolderWithOptions(vHolder("jpg", vJPEG(10, 20, 3, []byte{1, 2, 3})), o) == nil, "a valid image is accepted")
	e.pdf.SetNoCompression()
	d := vOut8(e.pdf)
	ps := d.pages()
	m := c06One(d.marks(len(ps)-1), "masked image")
	want.check(e.h, m, "masked image")
	n := 0
	for i, name := range m.G.GSN {
		s := d.obj(d.res(len(ps)-1, "ExtGState").get(name).I)
		if s == nil {
			continue
		}
		sm := d.obj(s.O.get("SMask").I)
		if sm == nil || d.obj(sm.O.get("G").I) == nil {
			continue
		}
		ops, bad := vOps([]byte(d.obj(sm.O.get("G").I).Stream))
		vAssert(bad == "", "the mask is a sequence of operands and operators")
		g := vGS{M: m.G.GSM[i]}
		mwant.check(e.h, c06One(vInterpFrom(ops, g), "mask"), "mask")
		n++
	}
	vAssert(n == 1, "the image has its mask")
}

func c06Trig(deg float64) (cs, sn float64) {
	switch deg {
	case 0:
		return 1, 0
	case 90:
		return 0, 1
	case 30:
		return 0.8660254037844387, 0.5
	case -45:
		return 0.7071067811865476, -0.7071067811865476
	}
	return -1, 0
}

// Rotation turns what is drawn (until the reset) counterclockwise about the given point.
// symgo time=30s
func H_C06_rotate() {
	e := c06Doc(7)
	x, px := e.u("x", 0, 1000)
	y, py := e.u("y", 0, 1000)
	ax, pax := e.u("ax", 0, 1000)
	ay, pay := e.u("ay", 0, 1000)
	ang := []float64{0, 90, 30, -45, 180}[vChoice("ang", 5)]
	cs, sn := c06Trig(ang)
	e.pdf.Rotate(ang, x, y)
	e.pdf.Line(ax, ay, x, y)
	e.pdf.RotateReset()
	e.pdf.Line(ax, ay, x, y)
	ms := e.marks()
	vAssert(len(ms) == 2, "two lines")
	if len(ms) != 2 {
		return
	}
	cy := e.h - py
	dx, dy := pax-px, (e.h-pay)-cy
	vAssert(len(ms[0].Pts) == 2 && len(ms[1].Pts) == 2, "lines have two points")
	tol := 0.05
	vAssert(vPtNear(ms[0].Pts[0], px+dx*cs-dy*sn, cy+dx*sn+dy*cs, tol), "rotation: turns the drawing counterclockwise about the point")
	vAssert(vPtNear(ms[0].Pts[1], px, cy, tol), "rotation: the centre stays where it is")
	e.pt(ms[1], 0, pax, pay, "after the reset")
	e.pt(ms[1], 1, px, py, "after the reset")
}

// Links, anchors and outline destinations lie where the caller put them, on pages of any size.
// symgo time=30s
func H_C06_links() {
	e := c06Doc(7)
	x, px := e.u("x", 0, 1000)
	y, py := e.u("y", 0, 1000)
	w, pw := e.u("w", 0, 500)
	h, ph := e.u("h", 0, 500)
	ay, pay := e.u("ay", 0, 1000)
	e.pdf.SetXY(0, ay)
	e.pdf.SetAnchor("q")
	e.pdf.AddOutlineWithPosition("t")
	n := vChoice("kind", 2)
	if n == 0 {
		e.pdf.AddExternalLink("u", x, y, w, h)
	} else {
		e.pdf.AddInternalLink("q", x, y, w, h)
	}
	d := vOut8(e.pdf)
	ps := d.pages()
	p := ps[len(ps)-1]
	an := p.O.get("Annots").Vals
	vAssert(len(an) == 1, "the page has one annotation")
	if len(an) != 1 || d.obj(an[0].I) == nil {
		return
	}
	a := d.obj(an[0].I).O
	r := a.get("Rect").Vals
	vAssert(len(r) == 4, "annotation has a rectangle")
	if len(r) != 4 {
		return
	}
	m := vMark{Pts: []Point{{r[0].F, r[1].F}, {r[2].F, r[1].F}, {r[2].F, r[3].F}, {r[0].F, r[3].F}}}
	vAssert(m.isRect(px, e.h-py-ph, px+pw, e.h-py, 0.025), "link: rectangle is where the caller put it")
	c06Dest := func(t *vO, lo, hi float64, what string) {
		vAssert(len(t.Vals) == 5, what+": has a destination")
		if len(t.Vals) == 5 {
			vAssert(t.Vals[0].I == p.Num, what+": leads to the page it was set on")
			top := t.Vals[3].F
			vAssert(top >= e.h-pay+lo-c06Tol && top <= e.h-pay+hi+c06Tol, what+": leads to the position it was set at")
		}
	}
	if n == 1 {
		c06Dest(a.get("Dest"), 0, 10, "anchor")
	}
	for _, o := range d.Objs {
		if o.O.has("Title") {
			c06Dest(o.O.get("Dest"), 0, 20, "outline")
		}
	}
}

// Clipping polygons clip where the caller put them.
func H_C06_clip() {
	e := c06Doc(7)
	x, px := e.u("x", -100, 2000)
	y, py := e.u("y", -100, 2000)
	e.pdf.SaveGraphicsState()
	e.pdf.ClipPolygon([]Point{{x, y}, {10 / e.k, 20 / e.k}, {30 / e.k, y}})
	e.pdf.Line(0, 0, x, y)
	e.pdf.RestoreGraphicsState()
	e.pdf.Line(0, 0, x, y)
	ms := e.marks()
	vAssert(len(ms) == 2, "two lines")
	if len(ms) != 2 {
		return
	}
	vAssert(len(ms[0].G.Clips) == 1 && len(ms[1].G.Clips) == 0, "clipping lasts until the graphics state is restored")
	if len(ms[0].G.Clips) == 1 {
		c := ms[0].G.Clips[0]
		e.pt(c, 0, px, py, "clip point")
		e.pt(c, 1, 10, 20, "clip point")
		e.pt(c, 2, 30, py, "clip point")
		vAssert(len(c.Pts) == 3, "clip has three points")
	}
}

// Page boxes: every page has the size it was given (or the document's), and the trim box it was given (or the document's).
func H_C06_pages() {
	cfg := Config{}
	k := vUnit(&cfg, vChoice("unit", 7))
	w, h := vFloat("w", 1, 2000), vFloat("h", 1, 2000)
	cfg.PageSize = Rect{W: 300 / k, H: 400 / k}
	def := vBool("deftrim")
	tw := vFloat("tw", 1, 100)
	if def {
		cfg.TrimBox = Box{Left: 1 / k, Top: 2 / k, Right: tw / k, Bottom: 4 / k}
	}
	pdf := vMini(cfg, nil)
	o := PageOption{}
	own, trim := vBool("own"), vBool("trim")
	tl := vFloat("tl", 1, 100)
	if own {
		o.PageSize = &Rect{W: w / k, H: h / k}
	}
	if trim {
		o.TrimBox = &Box{Left: tl / k, Top: 6 / k, Right: 7 / k, Bottom: 8 / k}
	}
	pdf.AddPage()
	pdf.AddPageWithOption(o)
	pdf.AddPage()
	d := vOut8(pdf)
	ps := d.pages()
	vAssert(len(ps) == 3, "three pages")
	root := d.obj(d.Trailer.get("Root").I)
	if root == nil || len(ps) != 3 {
		return
	}
	tree := d.obj(root.O.get("Pages").I)
	for i, p := range ps {
		mb := p.O.get("MediaBox")
		if mb.K == 0 && tree != nil {
			mb = tree.O.get("MediaBox")
		}
		ew, eh := 300.0, 400.0
		if own && i == 1 {
			ew, eh = w, h
		}
		vAssert(len(mb.Vals) == 4, "page has a media box")
		if len(mb.Vals) == 4 {
			v := mb.Vals
			vAssert(vAnd(vAnd(v[0].F == 0, v[1].F == 0), vAnd(vNear(v[2].F, ew, c06Tol), vNear(v[3].F, eh, c06Tol))), "page has the size it was given")
		}
		tb := p.O.get("TrimBox").Vals
		var want []float64
		if def {
			want = []float64{1, 2, tw, 4}
		}
		if trim && i == 1 {
			want = []float64{tl, 6, 7, 8}
		}
		vAssert(len(tb) == len(want), "page has a trim box when one was given")
		if len(tb) == 4 && len(want) == 4 {
			for j := range tb {
				vAssert(vNear(tb[j].F, want[j], c06Tol), "page has the trim box it was given")
			}
		}
	}
}
