package gopdf

type c20Item struct {
	title  []rune
	page   int     // 0-based page number
	pos    float64 // the position it was given, 0 when none
	parent int     // index of the parent item, -1 for the top level
}

// c20Page is the number of a page by its object number, -1 when it is none.
func c20Page(d *vDoc, num int) int {
	for i, p := range d.pages() {
		if p.Num == num {
			return i
		}
	}
	return -1
}

// c20Title tells whether s is the text t in UTF-16 with a byte order mark.
func c20Title(s string, t []rune) bool {
	e := []int{0xFE, 0xFF}
	for _, c := range t {
		n := int(c)
		if n < 0x10000 {
			e = append(e, n/256, n%256)
			continue
		}
		hi, lo := 0xD800+(n-0x10000)/1024, 0xDC00+(n-0x10000)%1024
		e = append(e, hi/256, hi%256, lo/256, lo%256)
	}
	if len(e) != len(s) {
		return false
	}
	ok := true
	for i := range e {
		ok = vAnd(ok, int(s[i]) == e[i])
	}
	return ok
}

// c20Walk checks the chain of items below the object num, which must be the
// items in order, and everything below them.
func c20Walk(d *vDoc, num, self int, items []c20Item, order []int) {
	o := d.obj(num)
	if o == nil {
		return
	}
	var kids []int
	for _, k := range order {
		if items[k].parent == self {
			kids = append(kids, k)
		}
	}
	first, last := o.O.get("First"), o.O.get("Last")
	if len(kids) == 0 {
		vAssert(first.K == 0 && last.K == 0, "an entry without entries below it has no first and last entry")
		return
	}
	vAssert(first.K == 'r' && last.K == 'r', "an entry with entries below it has a first and a last entry")
	if first.K != 'r' || last.K != 'r' {
		return
	}
	cur, prev := first.I, 0
	for i, k := range kids {
		it := d.obj(cur)
		vAssert(it != nil && it.O.has("Title"), "the chain of entries has every entry in the order given")
		if it == nil {
			return
		}
		vAssert(c20Title(it.O.get("Title").S, items[k].title), "the entry has the title given")
		vAssert(it.O.get("Parent").K == 'r' && it.O.get("Parent").I == num, "the entry's parent is the entry above it")
		if prev == 0 {
			vAssert(!it.O.has("Prev"), "the first entry has none before it")
		} else {
			vAssert(it.O.get("Prev").I == prev, "each entry names the one before it")
		}
		dst := it.O.get("Dest").Vals
		vAssert(len(dst) >= 2 && dst[0].K == 'r' && dst[1].S == "XYZ", "the entry has a destination")
		if len(dst) == 5 {
			if y := items[k].pos; y > 0 {
				ph := c20Height(d, items[k].page)
				vAssert(vAnd(dst[3].F >= ph-y-0.01, dst[3].F <= ph-y+30), "an entry with a position leads to that height")
			} else {
				vAssert(dst[3].K == 'k' || dst[3].F >= c20Height(d, items[k].page)-42, "an entry without a position leads to the top of its page")
			}
		} else {
			vAssert(false, "a destination has a page, a position and a zoom")
		}
		if len(dst) > 0 {
			vAssert(c20Page(d, dst[0].I) == items[k].page, "the entry leads to the page it was added on")
		}
		c20Walk(d, cur, k, items, order)
		if i == len(kids)-1 {
			vAssert(!it.O.has("Next"), "the last entry has none after it")
			vAssert(cur == last.I, "the last entry is the end of the chain")
			return
		}
		vAssert(it.O.get("Next").K == 'r', "each entry but the last names the one after it")
		prev, cur = cur, it.O.get("Next").I
	}
}

// c20Height is the height of a page as the document says it.
func c20Height(d *vDoc, page int) float64 {
	if ps := d.pages(); page < len(ps) {
		if m := ps[page].O.get("MediaBox").Vals; len(m) == 4 {
			return m[3].F
		}
	}
	return 842
}

// c20Count is the number of entries visible below an entry, as Count says it.
func c20Count(d *vDoc, num int) int {
	o := d.obj(num)
	n := 0
	for c, lim := o.O.get("First"), 0; c.K == 'r' && lim < 20; lim++ {
		it := d.obj(c.I)
		if it == nil {
			return -1
		}
		n++
		k := it.O.get("Count")
		if it.O.has("First") {
			below := c20Count(d, c.I)
			vAssert(k.K == 'n' && (k.I == below || k.I == -below), "an entry with entries below it says how many")
			if k.I > 0 {
				n += below
			}
		} else {
			vAssert(k.K == 0 || k.I == 0, "an entry without entries below it counts none")
		}
		c = it.O.get("Next")
	}
	return n
}

func c20Check(pdf *GoPdf, items []c20Item, order []int) {
	d := vOut8(pdf)
	if !d.OK {
		return
	}
	d.vNormStr()
	root := d.obj(d.Trailer.get("Root").I).O.get("Outlines")
	if len(items) == 0 {
		vAssert(root.K == 0, "a document without entries has no outline")
		return
	}
	vAssert(root.K == 'r' && d.obj(root.I) != nil, "the catalog refers to the outline")
	if root.K != 'r' || d.obj(root.I) == nil {
		return
	}
	c20Walk(d, root.I, -1, items, order)
	vAssert(d.obj(root.I).O.get("Count").I == c20Count(d, root.I), "the outline counts its visible entries")
}

// Any tree of up to four entries, on any of three pages, in the order of
// creation or with the children listed in the opposite order, with entries
// added before or after the tree is built; titles of any characters.
// symgo time=40s
func H_C20_tree() {
	pdf := vMini(Config{PageSize: *PageSizeA4}, nil)
	n := 1 + vChoice("n", 4+vTier())
	pages := 0
	pdf.AddPage()
	var items []c20Item
	before := vChoice("before", 2)
	after := vChoice("after", 2)
	if n >= 4 {
		vAssume(before+after < 2)
	}
	for i := 0; i < before; i++ {
		pdf.AddOutline("before")
		items = append(items, c20Item{[]rune("before"), pages, 0, -1})
	}
	nodes := make([]*OutlineNode, n)
	for i := 0; i < n; i++ {
		if i > 0 && vChoice("page", 2) == 1 {
			pdf.AddPageWithOption(PageOption{PageSize: &Rect{W: 500, H: float64(900 - 100*i)}})
			pages++
		}
		title := []rune{rune('a' + i)}
		if i == n-1 {
			title = []rune{vRune("c", 0x20, 0x10FFFF), 'x'}
		}
		y := vFloat("y", 10, 800)
		pdf.SetY(y)
		nodes[i] = &OutlineNode{Obj: pdf.AddOutlineWithPosition(string(title))}
		items = append(items, c20Item{title, pages, y, vChoice("parent", i+1) - 1})
		if items[before+i].parent >= 0 {
			items[before+i].parent += before
		}
	}
	rev := vBool("reversed")
	var order []int
	for i := 0; i < before; i++ {
		order = append(order, i)
	}
	var top OutlineNodes
	for j := 0; j < n; j++ {
		i := j
		if rev {
			i = n - 1 - j
		}
		order = append(order, before+i)
		if p := items[before+i].parent; p >= 0 {
			nodes[p-before].Children = append(nodes[p-before].Children, nodes[i])
		} else {
			top = append(top, nodes[i])
		}
	}
	top.Parse()
	for i := 0; i < after; i++ {
		pdf.AddOutline("after")
		order = append(order, len(items))
		items = append(items, c20Item{[]rune("after"), pages, 0, -1})
	}
	c20Check(pdf, items, order)
}

// Entries without a tree, with and without a position, on any pages, written
// more than once.
func H_C20_flat() {
	pdf := vMini(Config{PageSize: *PageSizeA4}, nil)
	pdf.AddPage()
	var items []c20Item
	var order []int
	pages := 0
	n := vChoice("n", 4)
	for i := 0; i < n; i++ {
		if vChoice("page", 2) == 1 {
			pdf.AddPageWithOption(PageOption{PageSize: &Rect{W: 500, H: float64(900 - 100*i)}})
			pages++
		}
		var title []rune
		if i == 0 || vTier() > 0 {
			for j := vChoice("len", 3); j > 0; j-- {
				title = append(title, vRune("c", 1, 0x10FFFF))
			}
		}
		y := 0.0
		if vChoice("pos", 2) == 1 {
			y = vFloat("y", 10, 800)
			pdf.SetY(y)
			pdf.AddOutlineWithPosition(string(title))
		} else {
			pdf.AddOutline(string(title))
		}
		order = append(order, i)
		items = append(items, c20Item{title, pages, y, -1})
		if i == 0 && vChoice("write", 2) == 1 {
			c20Check(pdf, items, order)
		}
	}
	c20Check(pdf, items, order)
}

// Links are annotations of the page they were put on, once each, and lead to
// their address, or to the page and height where their anchor was set last,
// before or after the link and on any page.
// symgo time=40s
func H_C20_links() {
	pdf := vMini(Config{PageSize: *PageSizeA4}, nil)
	pdf.AddPage()
	type link struct {
		page, anchor int
		url          string
		y            float64
	}
	var links []link
	page := 0
	aPage := []int{-1, -1}
	aY := []float64{0, 0}
	n := 3 + vTier()
	for i := 0; i < n; i++ {
		y := float64(100 * (i + 1))
		switch vChoice("op", 5) {
		case 0:
			pdf.AddPageWithOption(PageOption{PageSize: &Rect{W: 500, H: float64(900 + 10*i)}})
			page++
		case 1:
			u := string([]byte{'u', byte('0' + i)})
			pdf.AddExternalLink(u, 10, y, 20, 30)
			links = append(links, link{page, -1, u, y})
		case 2:
			a := vChoice("anchor", 2)
			pdf.AddInternalLink([]string{"a", "b"}[a], 10, y, 20, 30)
			links = append(links, link{page, a, "", y})
		case 3:
			a := vChoice("anchor", 2)
			pdf.SetXY(10, y)
			pdf.SetAnchor([]string{"a", "b"}[a])
			aPage[a], aY[a] = page, y
		case 4:
			pdf.Line(1, 2, 3, 4)
		}
	}
	d := vOut8(pdf)
	if !d.OK {
		return
	}
	d.vNormStr()
	ps := d.pages()
	vAssert(len(ps) == page+1, "the document has the pages added")
	for p, pg := range ps {
		an := pg.O.get("Annots").Vals
		k := 0
		ph := 842.0
		if m := pg.O.get("MediaBox").Vals; len(m) == 4 {
			ph = m[3].F
		}
		for _, l := range links {
			if l.page != p {
				continue
			}
			vAssert(k < len(an) && d.obj(an[k].I) != nil, "each link is an annotation of its page")
			if k >= len(an) || d.obj(an[k].I) == nil {
				return
			}
			o := d.obj(an[k].I).O
			k++
			vAssert(o.get("Type").S == "Annot" && o.get("Subtype").S == "Link", "a link is a link annotation")
			r := o.get("Rect").Vals
			vAssert(len(r) == 4 && vNear((r[1].F+r[3].F)/2, ph-l.y-15, 0.02), "a link is at its own place")
			if l.anchor < 0 {
				vAssert(o.get("A").get("S").S == "URI" && o.get("A").get("URI").S == l.url, "an external link leads to its address")
				vAssert(!o.has("Dest"), "an external link has no destination in the document")
				continue
			}
			vAssert(!o.has("A"), "an internal link has no address")
			dst := o.get("Dest").Vals
			if aPage[l.anchor] < 0 {
				vAssert(len(dst) == 0, "a link to an anchor never set leads nowhere")
				continue
			}
			vAssert(len(dst) == 5 && c20Page(d, dst[0].I) == aPage[l.anchor], "an internal link leads to the page of its anchor")
			if len(dst) == 5 {
				ah := 842.0
				if m := ps[aPage[l.anchor]].O.get("MediaBox").Vals; len(m) == 4 {
					ah = m[3].F
				}
				vAssert(vAnd(dst[3].F >= ah-aY[l.anchor]-0.01, dst[3].F <= ah-aY[l.anchor]+30), "an internal link leads to the height of its anchor")
			}
		}
		vAssert(k == len(an), "a page has only the annotations put on it")
	}
}

// The address of a link is exactly the one given, whatever characters it has.
func H_C20_address() {
	pdf := vMini(Config{PageSize: *PageSizeA4}, nil)
	pdf.AddPage()
	url := "h" + string(vBytes("u", 1+vChoice("n", 3+vTier())))
	pdf.AddExternalLink(url, 1, 2, 3, 4)
	d := vOut8(pdf)
	if !d.OK {
		return
	}
	d.vNormStr()
	an := d.pages()[0].O.get("Annots").Vals
	vAssert(len(an) == 1 && d.obj(an[0].I) != nil, "the link is an annotation of its page")
	if len(an) == 1 && d.obj(an[0].I) != nil {
		vAssert(d.obj(an[0].I).O.get("A").get("URI").S == url, "an external link leads to its address")
	}
}
