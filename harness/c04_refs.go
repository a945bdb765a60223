package gopdf

// c04Names asserts that every resource name a content stream uses is defined
// in the resources of the page with an object of the right kind.
func c04Names(d *vDoc, page int, ops []vOpr) {
	kind := func(name *vO, cat string) *vInd {
		key := name.S
		rs := d.res(page, cat)
		vAssert(rs.K == 'd' && rs.count(key) == 1, "resource name used by the content is defined once in the page's "+cat+" resources")
		r := rs.get(key)
		if r.K != 'r' {
			return nil
		}
		return d.obj(r.I)
	}
	for _, o := range ops {
		switch o.Op {
		case "Tf":
			if len(o.A) == 2 {
				f := kind(o.A[0], "Font")
				vAssert(f != nil && f.Type == "Font", "Tf names a font")
				if f != nil {
					c04Font(d, f)
				}
			}
		case "Do":
			if len(o.A) == 1 {
				x := kind(o.A[0], "XObject")
				vAssert(x != nil && x.HasS && x.Type == "XObject", "Do names an external object")
				if x != nil && x.O.get("Subtype").S == "Image" {
					c04Image(d, x)
				}
			}
		case "gs":
			if len(o.A) == 1 {
				g := kind(o.A[0], "ExtGState")
				vAssert(g != nil && g.Type == "ExtGState", "gs names an extended graphics state")
				if g != nil && g.O.has("SMask") {
					m := d.obj(g.O.get("SMask").I)
					vAssert(m != nil && m.Type == "Mask", "extended graphics state SMask refers to a mask")
					if m != nil {
						grp := d.obj(m.O.get("G").I)
						vAssert(grp != nil && grp.HasS && grp.O.get("Subtype").S == "Form", "mask G refers to a form")
						if grp != nil && grp.HasS {
							inner, bad := vOps([]byte(grp.Stream))
							vAssert(bad == "", "mask form content is well formed")
							c04Names(d, page, inner)
						}
					}
				}
			}
		case "CS", "cs":
			if len(o.A) == 1 {
				c := kind(o.A[0], "ColorSpace")
				vAssert(c != nil && c.O.K == 'a' && len(c.O.Vals) == 4 && c.O.Vals[0].S == "Separation", "CS names a colour space")
			}
		}
	}
}

func c04Font(d *vDoc, f *vInd) {
	df := f.O.get("DescendantFonts").Vals
	vAssert(len(df) == 1 && df[0].K == 'r', "composite font has one descendant")
	if len(df) != 1 {
		return
	}
	c := d.obj(df[0].I)
	vAssert(c != nil && c.Type == "Font" && c.O.get("Subtype").S == "CIDFontType2", "descendant is a CID font")
	tu := d.obj(f.O.get("ToUnicode").I)
	vAssert(f.O.get("ToUnicode").K == 'r' && tu != nil && tu.HasS, "ToUnicode is a stream")
	if c == nil {
		return
	}
	fd := d.obj(c.O.get("FontDescriptor").I)
	vAssert(fd != nil && fd.Type == "FontDescriptor", "font descriptor")
	if fd == nil {
		return
	}
	ff := d.obj(fd.O.get("FontFile2").I)
	vAssert(ff != nil && ff.HasS && ff.O.has("Length1"), "font file is a stream with Length1")
	vAssert(f.O.get("BaseFont").S == c.O.get("BaseFont").S && f.O.get("BaseFont").S == fd.O.get("FontName").S, "font names agree")
}

func c04Image(d *vDoc, x *vInd) {
	if m := x.O.get("SMask"); m.K != 0 {
		o := d.obj(m.I)
		vAssert(m.K == 'r' && o != nil && o.HasS && o.O.get("Subtype").S == "Image" && o.O.get("ColorSpace").S == "DeviceGray", "image SMask is a gray image")
		if o != nil {
			vAssert(o.O.get("Width").I == x.O.get("Width").I && o.O.get("Height").I == x.O.get("Height").I, "image SMask has the size of its image")
		}
	}
	if c := x.O.get("ColorSpace"); c.K == 'a' {
		vAssert(len(c.Vals) == 4 && c.Vals[3].K == 'r', "indexed colour space")
		if len(c.Vals) == 4 {
			o := d.obj(c.Vals[3].I)
			vAssert(o != nil && o.HasS, "indexed colour space palette is a stream")
		}
	}
}

func c04Doc(d *vDoc) {
	if !d.OK {
		return
	}
	vCheckFile(d)
	vCheckRefs(d)
	ps := d.pages()
	for i, p := range ps {
		ops, bad := vOps(d.content(i))
		vAssert(bad == "", "page content is well formed")
		c04Names(d, i, ops)
		for _, a := range p.O.get("Annots").Vals {
			o := d.obj(a.I)
			vAssert(a.K == 'r' && o != nil && o.Type == "Annot", "page annotation refers to an annotation")
			if o == nil {
				continue
			}
			if t := o.O.get("Dest"); t.K != 0 {
				vAssert(t.K == 'a' && len(t.Vals) == 5 && t.Vals[0].K == 'r', "link destination")
				if len(t.Vals) > 0 {
					pg := d.obj(t.Vals[0].I)
					vAssert(pg != nil && pg.Type == "Page", "link destination is a page")
				}
			}
		}
	}
	root := d.obj(d.Trailer.get("Root").I)
	if root != nil && root.O.has("Outlines") {
		o := d.obj(root.O.get("Outlines").I)
		vAssert(o != nil && o.Type == "Outlines", "catalog Outlines refers to the outline dictionary")
	}
}

func c04Run(n int, cfg Config) {
	pdf := vOpsDoc(cfg)
	for i := 0; i < n; i++ {
		vOp(pdf, vChoice("op"+vItoa(i+1), vNOps), string(rune('a'+i)))
	}
	pdf.SetNoCompression()
	d := vOut8(pdf)
	d.unlock([]byte("u"))
	c04Doc(d)
}

// Every drawing call with all its options, in three document configurations
// (points, millimetres, encrypted).
// symgo time=30s
func H_C04_single() { c04Run(1, vPreset()) }

// Any sequence of two drawing calls (richest options).
// symgo time=40s
func H_C04_pairs() { vLite = true; c04Run(2, Config{PageSize: *PageSizeA4}) }

// Any sequence of two drawing calls with all options, three configurations.
// symgo tier=thorough ttime=200s
func H_C04_pairsfull() { c04Run(2, vPreset()) }

// Any sequence of three drawing calls (richest options), in an encrypted document.
// symgo tier=thorough ttime=300s
func H_C04_triples() {
	vLite = true
	cfg := Config{PageSize: *PageSizeA4}
	cfg.Protection = PDFProtectionConfig{UseProtection: true, Permissions: PermissionsPrint, OwnerPass: []byte("o"), UserPass: []byte("u")}
	c04Run(3, cfg)
}
