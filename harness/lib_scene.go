package gopdf

import "io"

// vCheckFile asserts the file-level structure: numbering, cross-reference
// table, trailer and end of file.
func vCheckFile(d *vDoc) {
	if !d.OK {
		return
	}
	n := len(d.Objs)
	for i, o := range d.Objs {
		vAssert(o.Num == i+1, "objects are numbered 1,2,3,... in file order")
	}
	vAssert(d.StartX == d.XrefOff, "startxref is the byte offset of the xref keyword")
	t := d.Toks[d.XrefTok+1:]
	vAssert(len(t) >= 2 && t[0].K == 'n' && t[1].K == 'n', "xref subsection header")
	vAssert(t[0].I == 0 && t[1].I == n+1, "xref subsection covers objects 0..n")
	t = t[2:]
	vAssert(len(t) > 3*(n+1) && t[3*(n+1)].S == "trailer", "xref has one entry per object")
	if len(t) <= 3*(n+1) {
		return
	}
	for i := 0; i <= n; i++ {
		e := t[3*i : 3*i+3]
		vAssert(e[0].K == 'n' && e[1].K == 'n' && e[2].K == 'k', "xref entry has offset, generation, type")
		vAssert(vAnd(e[0].End-e[0].Off == 10, vAnd(e[1].Off-e[0].End == 1, vAnd(e[1].End-e[1].Off == 5, vAnd(e[2].Off-e[1].End == 1, e[2].End-e[2].Off == 1)))), "xref entry has 10-digit offset, 5-digit generation, one-letter type")
		if i < n {
			vAssert(t[3*i+3].Off-e[0].Off == 20, "xref entry is exactly 20 bytes")
		}
		if i == 0 {
			vAssert(e[0].I == 0 && e[1].I == 65535 && e[2].S == "f", "entry 0 is the free list head")
			continue
		}
		vAssert(e[0].I == d.Objs[i-1].Off, "xref entry is the byte offset of its object")
		vAssert(e[1].I == 0 && e[2].S == "n", "entry is in use with generation 0")
	}
	vAssert(d.Trailer.count("Size") == 1 && d.Trailer.get("Size").I == n+1, "trailer Size is one more than the highest object number")
	root := d.obj(d.Trailer.get("Root").I)
	vAssert(d.Trailer.get("Root").K == 'r' && root != nil && root.Type == "Catalog", "trailer Root refers to the catalog")
	if e := d.Trailer.get("Encrypt"); d.Trailer.has("Encrypt") {
		o := d.obj(e.I)
		vAssert(e.K == 'r' && o != nil && o.O.get("Filter").S == "Standard", "trailer Encrypt refers to the encryption dictionary")
	}
}

// vCheckRefs asserts that every reference resolves, that stream lengths are
// right and the page tree is sound.
func vCheckRefs(d *vDoc) {
	if !d.OK {
		return
	}
	for _, o := range d.Objs {
		vWalkRefs(d, o.O)
		if o.HasS {
			l := o.O.get("Length")
			vAssert(l.K == 'n' && o.O.count("Length") == 1, "stream has one Length")
			vAssert(o.LenOK, "stream Length is the number of bytes in the stream")
		}
		if o.O.K == 'd' {
			for i, k := range o.O.Keys {
				for _, k2 := range o.O.Keys[:i] {
					vAssert(k != k2, "dictionary keys are unique")
				}
			}
		}
	}
	vWalkRefs(d, d.Trailer)
	root := d.obj(d.Trailer.get("Root").I)
	if root == nil {
		return
	}
	pg := d.obj(root.O.get("Pages").I)
	vAssert(pg != nil && pg.Type == "Pages", "catalog Pages refers to the page tree")
	if pg == nil {
		return
	}
	kids := pg.O.get("Kids").Vals
	vAssert(pg.O.get("Count").K == 'n' && pg.O.get("Count").I == len(kids), "page tree Count equals the number of pages")
	np := 0
	var used []int
	for _, o := range d.Objs {
		if o.Type == "Page" {
			np++
		}
	}
	vAssert(np == len(kids), "every page is in the page tree exactly once")
	for i, k := range kids {
		p := d.obj(k.I)
		vAssert(k.K == 'r' && p != nil && p.Type == "Page", "page tree kid is a page")
		if p == nil {
			continue
		}
		for _, k2 := range kids[:i] {
			vAssert(k.I != k2.I, "page tree kids are distinct")
		}
		vAssert(p.O.get("Parent").K == 'r' && p.O.get("Parent").I == pg.Num, "page Parent is the page tree")
		cs := p.O.get("Contents")
		var refs []*vO
		if cs.K == 'a' {
			refs = cs.Vals
		} else if cs.K != 0 {
			refs = []*vO{cs}
		}
		for j, r := range refs {
			c := d.obj(r.I)
			vAssert(r.K == 'r' && c != nil && c.HasS, "page Contents refers to a stream")
			for _, r2 := range refs[:j] {
				vAssert(r.I != r2.I, "page lists a content stream once")
			}
			for _, u := range used {
				vAssert(u != r.I, "pages do not share a content stream")
			}
		}
		for _, r := range refs {
			used = append(used, r.I)
		}
		rs := p.O.get("Resources")
		if rs.K == 'r' {
			vAssert(d.obj(rs.I) != nil && d.obj(rs.I).O.K == 'd', "page Resources is a dictionary")
		}
	}
}

func vWalkRefs(d *vDoc, o *vO) {
	if o == nil {
		return
	}
	if o.K == 'r' {
		vAssert(d.obj(o.I) != nil, "every indirect reference resolves to an object in the file")
	}
	for _, v := range o.Vals {
		vWalkRefs(d, v)
	}
}

// vRes returns the resource dictionary entry (e.g. Font, XObject) of a page.
func (d *vDoc) res(page int, kind string) *vO {
	ps := d.pages()
	if page >= len(ps) {
		return &vO{}
	}
	rs := ps[page].O.get("Resources")
	if rs.K == 'r' {
		if o := d.obj(rs.I); o != nil {
			rs = o.O
		}
	}
	return rs.get(kind)
}

// vFailWriter accepts the first n bytes and fails (or writes short) after that.
type vFailWriter struct {
	got   int
	limit int
	err   error
	short bool // report n < len(p) with the error
	n     int
	fails int
}

func (f *vFailWriter) Write(p []byte) (int, error) {
	f.n++
	if f.fails > 0 || f.got+len(p) > f.limit {
		f.fails++
		k := 0
		if f.short && f.fails == 1 {
			k = f.limit - f.got
		}
		f.got += k
		return k, f.err
	}
	f.got += len(p)
	return len(p), nil
}

var vErrDisk = io.ErrShortBuffer

// vMini is a document with one font loaded.
func vMini(cfg Config, f *vFont) *GoPdf {
	pdf := &GoPdf{}
	pdf.Start(cfg)
	if f != nil {
		err := pdf.AddTTFFontData("f", f.build())
		vAssert(err == nil, "a well-formed font loads")
		vAssume(err == nil)
	}
	return pdf
}

// vErrIs is errors.Is for pointer-like targets.
func vErrIs(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		u, ok := err.(interface{ Unwrap() error })
		if !ok {
			return false
		}
		err = u.Unwrap()
	}
	return false
}
