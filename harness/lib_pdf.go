package gopdf

import "strconv"

// Reader for the PDF syntax the library writes (independent of its writer).

type vO struct {
	K    byte // d dict, a array, n number, / name, ( string, < hex, k keyword, r reference, 0 missing
	Keys []string
	Vals []*vO
	I    int
	F    float64
	Int  bool
	S    string
}

type vInd struct {
	Num    int
	Off    int
	O      *vO
	Stream string
	HasS   bool
	LenOK  bool // Length is the number of bytes up to the end of line before endstream
	SOff   int
	SEnd   int
	Type   string
}

type vDoc struct {
	B       []byte
	Toks    []vTok
	Objs    []*vInd
	Trailer *vO
	XrefOff int // offset of the keyword xref
	XrefTok int
	StartX  int
	OK      bool
	Err     string
	MaxNum  int
	Key     []byte // file key, when unlocked
}

func (o *vO) get(k string) *vO {
	if o != nil && o.K == 'd' {
		for i := range o.Keys {
			if o.Keys[i] == k {
				return o.Vals[i]
			}
		}
	}
	return &vO{}
}
func (o *vO) has(k string) bool { return o.get(k).K != 0 }
func (o *vO) count(k string) int {
	n := 0
	for i := range o.Keys {
		if o.Keys[i] == k {
			n++
		}
	}
	return n
}

type vPar struct {
	t   []vTok
	p   int
	bad string
}

func (p *vPar) peek() vTok {
	if p.p < len(p.t) {
		return p.t[p.p]
	}
	return vTok{K: 0}
}
func (p *vPar) fail(m string) *vO {
	if p.bad == "" {
		p.bad = m
	}
	return &vO{}
}

func (p *vPar) value() *vO {
	t := p.peek()
	p.p++
	switch t.K {
	case 'n':
		if t.Int && p.p+1 < len(p.t) && p.t[p.p].K == 'n' && p.t[p.p].Int && p.t[p.p+1].K == 'k' && p.t[p.p+1].S == "R" {
			p.p += 2
			return &vO{K: 'r', I: t.I}
		}
		return &vO{K: 'n', I: t.I, F: t.F, Int: t.Int, S: t.S}
	case '/':
		n := t.S
		if t.T {
			n += strconv.Itoa(vConc(t.I))
		}
		return &vO{K: '/', S: n, I: t.I}
	case '(', '<', 'k':
		return &vO{K: t.K, S: t.S}
	case '[':
		o := &vO{K: 'a'}
		for {
			k := p.peek().K
			if k == 0 {
				return p.fail("unterminated array")
			}
			if k == ']' {
				p.p++
				return o
			}
			o.Vals = append(o.Vals, p.value())
			if p.bad != "" {
				return o
			}
		}
	case 'd':
		o := &vO{K: 'd'}
		for {
			t := p.peek()
			if t.K == 'D' {
				p.p++
				return o
			}
			if t.K != '/' {
				return p.fail("dictionary key is not a name")
			}
			p.p++
			k := t.S
			if t.T {
				k = t.S + strconv.Itoa(vConc(t.I))
			}
			o.Keys = append(o.Keys, k)
			o.Vals = append(o.Vals, p.value())
			if p.bad != "" {
				return o
			}
		}
	}
	return p.fail("unexpected token")
}

// vParse reads a whole file.
func vParse(b []byte) *vDoc {
	d := &vDoc{B: b}
	d.Toks = vTokens(b, true)
	p := &vPar{t: d.Toks}
	for {
		t := p.peek()
		if t.K == 'k' && t.S == "xref" {
			break
		}
		if !(t.K == 'n' && t.Int && p.p+2 < len(p.t) && p.t[p.p+1].K == 'n' && p.t[p.p+2].K == 'k' && p.t[p.p+2].S == "obj") {
			d.Err = "object header expected"
			return d
		}
		ind := &vInd{Num: vConc(t.I), Off: t.Off}
		p.p += 3
		ind.O = p.value()
		if p.bad != "" {
			d.Err = p.bad
			return d
		}
		if p.peek().K == 'k' && p.peek().S == "stream" {
			p.p++
			s := p.peek()
			if s.K != 's' {
				d.Err = "stream data expected"
				return d
			}
			ind.HasS = true
			ind.Stream = s.S
			ind.SOff, ind.SEnd = s.Off, s.End
			if l := ind.O.get("Length"); l.K == 'n' && l.Int {
				n := len(s.S)
				if l.I == n {
					ind.LenOK = true
				} else if l.I == n-1 && s.S[n-1] == '\n' {
					ind.LenOK = true
					ind.Stream = s.S[:n-1]
				} else if l.I == n-2 && s.S[n-1] == '\n' && s.S[n-2] == '\n' {
					ind.LenOK = true
					ind.Stream = s.S[:n-2]
				}
			}
			p.p++
			if !(p.peek().K == 'k' && p.peek().S == "endstream") {
				d.Err = "endstream expected"
				return d
			}
			p.p++
		}
		if !(p.peek().K == 'k' && p.peek().S == "endobj") {
			d.Err = "endobj expected"
			return d
		}
		p.p++
		if ind.O.get("Type").K == '/' {
			ind.Type = ind.O.get("Type").S
		}
		d.Objs = append(d.Objs, ind)
		if ind.Num > d.MaxNum {
			d.MaxNum = ind.Num
		}
	}
	d.XrefOff = p.peek().Off
	d.XrefTok = p.p
	for p.p < len(p.t) && !(p.t[p.p].K == 'k' && p.t[p.p].S == "trailer") {
		p.p++
	}
	p.p++
	d.Trailer = p.value()
	if p.bad != "" {
		d.Err = "trailer: " + p.bad
		return d
	}
	if !(p.peek().K == 'k' && p.peek().S == "startxref") {
		d.Err = "startxref expected"
		return d
	}
	p.p++
	if p.peek().K != 'n' {
		d.Err = "startxref value expected"
		return d
	}
	d.StartX = p.peek().I
	p.p++
	if p.p != len(p.t) {
		d.Err = "trailing tokens"
		return d
	}
	d.OK = true
	return d
}

func (d *vDoc) obj(n int) *vInd {
	for _, o := range d.Objs {
		if o.Num == n {
			return o
		}
	}
	return nil
}

// pages in page-tree order
func (d *vDoc) pages() []*vInd {
	root := d.obj(d.Trailer.get("Root").I)
	if root == nil {
		return nil
	}
	pg := d.obj(root.O.get("Pages").I)
	if pg == nil {
		return nil
	}
	var r []*vInd
	for _, k := range pg.O.get("Kids").Vals {
		if o := d.obj(k.I); o != nil {
			r = append(r, o)
		}
	}
	return r
}

// content stream of the i-th page (one content object per page assumed; all are concatenated)
func (d *vDoc) content(i int) []byte {
	ps := d.pages()
	if i >= len(ps) {
		return nil
	}
	c := ps[i].O.get("Contents")
	var refs []*vO
	if c.K == 'r' {
		refs = []*vO{c}
	} else {
		refs = c.Vals
	}
	var out []byte
	for _, r := range refs {
		o := d.obj(r.I)
		if o == nil || !o.HasS {
			continue
		}
		s := []byte(o.Stream)
		if o.O.has("Filter") {
			x, ok := vInflate(s)
			if ok {
				s = x
			}
		}
		out = append(out, s...)
	}
	return out
}

type vOpr struct {
	Op  string
	A   []*vO
	Off int
}

// vOps parses a content stream into operators.
func vOps(b []byte) ([]vOpr, string) {
	p := &vPar{t: vTokens(b, false)}
	var ops []vOpr
	var args []*vO
	for p.p < len(p.t) {
		t := p.peek()
		if t.K == 'k' {
			ops = append(ops, vOpr{t.S, args, t.Off})
			args = nil
			p.p++
			continue
		}
		args = append(args, p.value())
		if p.bad != "" {
			return ops, p.bad
		}
	}
	if len(args) > 0 {
		return ops, "operands without operator"
	}
	return ops, ""
}

func vFind(ops []vOpr, name string, from int) int {
	for i := from; i < len(ops); i++ {
		if ops[i].Op == name {
			return i
		}
	}
	return -1
}
func vCount(ops []vOpr, name string) int {
	n := 0
	for _, o := range ops {
		if o.Op == name {
			n++
		}
	}
	return n
}

type vSink struct{ b []byte }

func (s *vSink) Write(p []byte) (int, error) {
	s.b = append(s.b, p...)
	return len(p), nil
}

func vOut8(pdf *GoPdf) *vDoc {
	s := &vSink{}
	n, err := pdf.WriteTo(s)
	vAssert(err == nil, "writing to a working writer succeeds")
	vAssert(int(n) == len(s.b), "WriteTo returns the number of bytes written")
	d := vParse(s.b)
	vAssert(d.OK, "output is well-formed PDF syntax")
	if !d.OK {
		vObsS("parse error", d.Err)
	}
	return d
}
