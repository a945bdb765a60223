package gopdf

// c28Class is what a compressed stream says about how it was compressed.
func c28Class(level int) int {
	switch {
	case level < -2 || level == -1 || level == 6:
		return 2
	case level < 2:
		return 0
	case level < 6:
		return 1
	}
	return 3
}

func c28Doc(cfg Config, a, b int, set func(pdf *GoPdf, at int)) *vDoc {
	pdf := vOpsDoc(cfg)
	set(pdf, 0)
	vOp(pdf, a, "a")
	set(pdf, 1)
	pdf.AddPage()
	vOp(pdf, b, "b")
	set(pdf, 2)
	return vOut8(pdf)
}

// Any level, set before, between or after any drawing calls: the document is the one
// without compression, and content is compressed at that level (or the nearest).
// symgo time=80s ttime=200s
func H_C28_level() {
	a, b := vChoice("a", vNOps), 35
	if vTier() > 0 {
		b = vChoice("b", vNOps)
	}
	c28Level(a, b)
}

// Texts, shapes and pictures at any level.
// symgo time=30s
func H_C28_text() {
	c28Level([]int{9, 0, 27, 33}[vChoice("a", 4)], []int{9, 35}[vChoice("b", 2)])
}

func c28Level(a, b int) {
	vLite = true
	level := vConc(vInt("level", -4, 11))
	at := vChoice("at", 3)
	cfg := Config{PageSize: *PageSizeA4}
	if vChoice("protected", 2) == 1 {
		cfg.Protection = PDFProtectionConfig{UseProtection: true, UserPass: []byte("u")}
	}
	earlier := 0
	if a%6 == 0 || vTier() > 0 {
		earlier = vChoice("earlier", 3)
	}
	vMem, vMemI = map[string]float64{}, map[string]int{}
	d := c28Doc(cfg, a, b, func(pdf *GoPdf, k int) {
		if k != at {
			return
		}
		if earlier == 1 {
			pdf.SetNoCompression()
		} else if earlier == 2 {
			pdf.SetCompressLevel(9)
		}
		pdf.SetCompressLevel(level)
	})
	e := c28Doc(cfg, a, b, func(pdf *GoPdf, k int) { pdf.SetNoCompression() })
	vCheckFile(d)
	vCheckFile(e)
	if !d.OK || !e.OK {
		return
	}
	if cfg.Protection.UseProtection {
		vAssert(d.unlock([]byte("u")) && e.unlock([]byte("u")), "the document can be opened")
	}
	ps, qs := d.pages(), e.pages()
	vAssert(len(ps) == len(qs) && len(ps) >= 2, "the pages are those of the document without compression")
	for i := range ps {
		if i >= len(qs) {
			return
		}
		p, q := d.obj(ps[i].O.get("Contents").I), e.obj(qs[i].O.get("Contents").I)
		vAssert((p == nil) == (q == nil), "the pages are those of the document without compression")
		if p == nil || q == nil {
			continue
		}
		vAssert(p.HasS && q.HasS && !q.O.has("Filter"), "the content of a page is a stream")
		x, y := []byte(p.Stream), []byte(q.Stream)
		if level != 0 {
			vAssert(p.O.get("Filter").S == "FlateDecode", "compressed content says so")
			c := vFlevel(x)
			vAssert(c < 0 || c == c28Class(level), "content is compressed at the level given")
			z, ok := vInflate(x)
			vAssert(ok, "compressed content can be read")
			x = z
		} else {
			vAssert(!p.O.has("Filter"), "content that is not compressed does not say so")
		}
		vAssert(vBytesEq(x, y), "compression does not change content")
	}
	vReach("done")
}
