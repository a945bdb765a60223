package gopdf

// c24Page is what a page is expected to be: its size, whether it was given, and
// the lengths of the lines drawn on it, in order.
type c24Page struct {
	w, h  float64
	own   bool
	lines []float64
	links int
}

func c24Check(pdf *GoPdf, pages []*c24Page) {
	vAssert(pdf.GetNumberOfPages() == len(pages), "the number of pages is reported")
	pdf.SetNoCompression()
	d := vOut8(pdf)
	if !d.OK {
		return
	}
	ps := d.pages()
	vAssert(len(ps) == len(pages), "the document has the pages added, and no other")
	if len(ps) != len(pages) {
		return
	}
	root := d.obj(d.obj(d.Trailer.get("Root").I).O.get("Pages").I).O
	vAssert(root.get("Count").I == len(pages), "the page tree counts its pages")
	for i, p := range pages {
		mb := ps[i].O.get("MediaBox").Vals
		if len(mb) == 0 {
			mb = root.get("MediaBox").Vals
		}
		vAssert(len(mb) == 4 && mb[0].F == 0 && mb[1].F == 0, "each page has a size")
		if len(mb) != 4 {
			continue
		}
		vAssert(vAnd(vNear(mb[2].F, p.w, 0.0051), vNear(mb[3].F, p.h, 0.0051)), "each page has its own size, or the document's")
		ms := d.marks(i)
		vAssert(len(ms) == len(p.lines), "each page shows what was drawn on it")
		for j, m := range ms {
			if j >= len(p.lines) || len(m.Pts) != 2 {
				continue
			}
			vAssert(vNear(m.Pts[1].X-m.Pts[0].X, p.lines[j], 0.011), "each page shows what was drawn on it, in order")
			vAssert(vNear(m.Pts[0].Y, p.h-20, 0.011), "y is measured from the top of the page drawn on")
		}
		vAssert(len(ps[i].O.get("Annots").Vals) == p.links, "each page has the links put on it")
	}
}

// Adding pages of any size, drawing, linking and going back to any page, in any
// order: everything lands on the page that is current, in its own coordinates.
// symgo time=40s
func H_C24_set() {
	cfg := Config{PageSize: Rect{W: vFloat("W", 100, 1000), H: vFloat("H", 100, 1000)}}
	pdf := &GoPdf{}
	pdf.Start(cfg)
	var pages []*c24Page
	cur := -1
	add := func(own bool) {
		p := &c24Page{w: cfg.PageSize.W, h: cfg.PageSize.H}
		if own {
			p.w, p.h, p.own = 250, float64(300+100*len(pages)), true
			pdf.AddPageWithOption(PageOption{PageSize: &Rect{W: p.w, H: p.h}})
		} else {
			pdf.AddPage()
		}
		pages = append(pages, p)
		cur = len(pages) - 1
	}
	draw := func(l float64) {
		pdf.Line(10, 20, 10+l, 20)
		pages[cur].lines = append(pages[cur].lines, l)
	}
	add(vBool("own"))
	for i := 0; i < 5+vTier(); i++ {
		switch vChoice("op", 4) {
		case 0:
			add(i%2 == 0)
		case 1:
			draw(float64(10 + i))
		case 2:
			n := vChoice("page", len(pages)+2)
			err := pdf.SetPage(n)
			if n >= 1 && n <= len(pages) {
				vAssert(err == nil, "every page added can be made current")
				cur = n - 1
			} else {
				vAssert(err != nil, "a page that does not exist cannot be made current")
			}
		case 3:
			pdf.AddExternalLink("u", 1, 2, 3, 4)
			pages[cur].links++
		}
	}
	draw(5)
	c24Check(pdf, pages)
}

// Header and footer functions run once for every page added after they were
// set, on that page, before anything else, and leave the position at the margins.
// symgo time=30s
func H_C24_header() {
	cfg := Config{PageSize: Rect{W: 500, H: 400}}
	pdf := &GoPdf{}
	pdf.Start(cfg)
	l, t := vFloat("l", 0, 100), vFloat("t", 0, 100)
	pdf.SetMargins(l, t, 10, 10)
	var pages []*c24Page
	head, foot := -1, -1
	log := []float64{}
	add := func() {
		p := &c24Page{w: 500, h: 400}
		log = nil
		brk := vChoice("by", 3)
		if len(pages) == 0 {
			brk = 0
		}
		switch brk {
		case 0:
			pdf.AddPage()
		case 1:
			p.w, p.h = 250, 300
			pdf.AddPageWithOption(PageOption{PageSize: &Rect{W: 250, H: 300}})
		case 2:
			pdf.SetY(395)
			pdf.SetNewY(395, 50)
		}
		if head >= 0 {
			p.lines = append(p.lines, float64(50+head))
		}
		if foot >= 0 {
			p.lines = append(p.lines, float64(60+foot))
		}
		vAssert(len(log) == len(p.lines), "header and footer functions run once for each page")
		pages = append(pages, p)
		vAssert(vNear(pdf.GetX(), l, 1e-9) && vNear(pdf.GetY(), t, 1e-9), "a page starts at its margins")
		pdf.Line(10, 20, 30, 20)
		p.lines = append(p.lines, 20)
	}
	mk := func(n int) func() {
		return func() {
			pdf.SetXY(77, 88)
			pdf.Line(10, 20, float64(10+n), 20)
			log = append(log, float64(n))
		}
	}
	for i := 0; i < 3+vTier(); i++ {
		switch vChoice("op", 3) {
		case 0:
			pdf.AddHeader(mk(50 + i))
			head = i
		case 1:
			pdf.AddFooter(mk(60 + i))
			foot = i
		}
		add()
	}
	c24Check(pdf, pages)
}

// A new page is begun exactly when the height asked for does not fit above the
// bottom margin, and then the position is at the margins of that page.
// symgo time=30s
func H_C24_break() {
	h := vFloat("H", 200, 1000)
	pdf := &GoPdf{}
	pdf.Start(Config{PageSize: Rect{W: 500, H: 500}})
	l, t, b := vFloat("l", 0, 90), vFloat("t", 0, 90), vFloat("b", 0, 90)
	pdf.SetMargins(l, t, 5, b)
	own := vBool("own")
	ph := 500.0
	if own {
		ph = h
		pdf.AddPageWithOption(PageOption{PageSize: &Rect{W: 300, H: h}})
	} else {
		pdf.AddPage()
	}
	x0, y0 := vFloat("x0", 0, 300), vFloat("y0", 0, 900)
	pdf.SetXY(x0, y0)
	x, y, eh := vFloat("x", 0, 300), vFloat("y", 0, 900), vFloat("eh", 0, 900)
	k := vChoice("call", 3)
	from := y0
	if k == 1 {
		from = y
	}
	pages := 1
	switch k {
	case 0:
		pdf.SetNewY(y, eh)
	case 1:
		pdf.SetNewYIfNoOffset(y, eh)
	case 2:
		pdf.SetNewXY(y, x, eh)
	}
	pages = pdf.GetNumberOfPages()
	if from+eh > ph-b {
		vAssert(pages == 2, "what does not fit above the bottom margin begins a new page")
		vAssert(vNear(pdf.GetY(), t, 1e-9), "a new page begins at the top margin")
		if k != 2 {
			vAssert(vNear(pdf.GetX(), l, 1e-9), "a new page begins at the left margin")
		}
	} else {
		vAssert(pages == 1, "what fits begins no new page")
		vAssert(vNear(pdf.GetY(), y, 1e-9), "the position is the one asked for")
		if k != 2 {
			vAssert(vNear(pdf.GetX(), x0, 1e-9), "the position across is unchanged")
		}
	}
	if k == 2 {
		vAssert(vNear(pdf.GetX(), x, 1e-9), "the position across is the one asked for")
	}
	d := vOut8(pdf)
	vAssert(d.OK && len(d.pages()) == pages, "the document has the pages added, and no other")
}

// Boxes: each page has the trim box given for it, or the document's, or none.
func H_C24_boxes() {
	box := func(n string) (*Box, []float64) {
		l, t, r, b := vFloat(n+"l", 0, 50), vFloat(n+"t", 0, 50), vFloat(n+"r", 60, 300), vFloat(n+"b", 60, 300)
		return &Box{Left: l, Top: t, Right: r, Bottom: b}, []float64{l, t, r, b}
	}
	cfg := Config{PageSize: Rect{W: 400, H: 500}}
	var want [][]float64
	var def []float64
	if vBool("doc") {
		b, v := box("d")
		cfg.TrimBox, def = *b, v
	}
	pdf := &GoPdf{}
	pdf.Start(cfg)
	for i := 0; i < 3; i++ {
		opt := PageOption{}
		if vBool("size") {
			opt.PageSize = &Rect{W: 300, H: 400}
		}
		w := def
		if vBool("trim") {
			opt.TrimBox, w = box(string(rune('a' + i)))
		}
		want = append(want, w)
		pdf.AddPageWithOption(opt)
	}
	d := vOut8(pdf)
	if !d.OK {
		return
	}
	for i, p := range d.pages() {
		v := p.O.get("TrimBox").Vals
		vAssert(len(v) == len(want[i]), "a page has a trim box exactly when one was given")
		for j := range v {
			if j < len(want[i]) {
				vAssert(vNear(v[j].F, want[i][j], 0.0051), "the trim box is the one given")
			}
		}
	}
}
