package gopdf

import (
	"bytes"
	"image"
	"image/jpeg"
)

// c18Put draws an image file on a page of a new document.
func c18Put(b []byte, how int, o ImageOptions) (*GoPdf, error) {
	pdf := &GoPdf{}
	pdf.Start(Config{PageSize: *PageSizeA4})
	pdf.AddPage()
	var h ImageHolder
	var err error
	switch how {
	case 0:
		h, err = ImageHolderByBytes(b)
	case 1:
		h, err = ImageHolderByReader(bytes.NewReader(b))
	case 3:
		h, err = ImageHolderByPath(vFile("a", b))
	default:
		h = vHolder("a", b)
	}
	vAssert(err == nil, "an image holder takes any bytes")
	if err != nil {
		return pdf, err
	}
	return pdf, pdf.ImageByHolderWithOptions(h, o)
}

// c18Obj is the image shown by the k-th Do of page 0.
func c18Obj(d *vDoc, k int) *vInd {
	for _, m := range d.marks(0) {
		if m.Op == "Do" {
			if k == 0 {
				return d.obj(d.res(0, "XObject").get(m.Name).I)
			}
			k--
		}
	}
	return nil
}

// c18Data is the data of an image as a reader decodes the predictor's input, and the dictionary's own terms.
func c18Data(o *vInd, w, h, bits, colors int) []byte {
	vAssert(o.O.get("Width").I == w && o.O.get("Height").I == h, "the image has the width and height of the file")
	vAssert(o.O.get("BitsPerComponent").I == bits, "the image has the bit depth of the file")
	vAssert(o.O.get("Filter").S == "FlateDecode", "the data is compressed")
	p := o.O.get("DecodeParms")
	vAssert(p.get("Predictor").I >= 10 && p.get("Columns").I == w && p.get("BitsPerComponent").I == bits, "the predictor works on the rows of the image")
	c := p.get("Colors")
	vAssert(c.I == colors || (c.K == 0 && colors == 1), "the predictor works on the components of the image")
	r, ok := vInflate([]byte(o.Stream))
	vAssert(ok, "the data can be decompressed")
	return r
}

func c18Bits(ct int) int {
	switch ct {
	case 0, 3:
		return []int{1, 2, 4, 8}[vChoice("depth", 4)]
	}
	return 8
}

var c18Comp = map[int]int{0: 1, 2: 3, 3: 1, 4: 2, 6: 4}

// A PNG file of any colour type, bit depth, content, chunking and with any
// other chunks is embedded as it is, its alpha channel as a soft mask.
// symgo time=40s ttime=200s
func H_C18_png() {
	ct := []int{0, 2, 3, 4, 6}[vChoice("ct", 5)]
	bits := c18Bits(ct)
	w, h := 1+vChoice("w", 2+vTier()), 1+vChoice("h", 2)
	if bits < 8 {
		w += 8 * vChoice("wide", 2)
	}
	n := (w*bits*c18Comp[ct] + 7) / 8
	var raw []byte
	for y := 0; y < h; y++ {
		raw = append(raw, byte(vInt("filter", 0, 4)))
		raw = append(raw, vBytes("px", n)...)
	}
	p := vNewPNG().ihdr(w, h, bits, ct)
	extra := func() {
		switch vChoice("extra", 3) {
		case 1:
			p.chunk("tEXt", vBytes("x", 3))
		case 2:
			p.chunk("tEXt", nil)
		}
	}
	if vChoice("where", 2) == 0 {
		extra()
	}
	var pal []byte
	if ct == 3 {
		pal = vBytes("pal", 3*(1+vChoice("npal", 2)))
		if bits == 8 && vChoice("full", 2) == 1 { // every entry there can be
			for len(pal) < 768 {
				pal = append(pal, byte(len(pal)*7))
			}
		}
		p.chunk("PLTE", pal)
	}
	z := vStored(raw)
	switch vChoice("idat", 4) {
	case 0:
		p.chunk("IDAT", z)
	case 1:
		p.chunk("IDAT", z[:2])
		p.chunk("IDAT", z[2:])
	case 2:
		p.chunk("IDAT", nil)
		p.chunk("IDAT", z)
	case 3:
		p.chunk("IDAT", z[:3])
		p.chunk("IDAT", nil)
		p.chunk("IDAT", z[3:])
	}
	extra()
	p.chunk("IEND", nil)
	pdf, err := c18Put(p.b, vChoice("how", 4), ImageOptions{X: 10, Y: 20, Rect: &Rect{W: 30, H: 40}})
	vAssert(err == nil, "a valid file is accepted")
	if err != nil {
		return
	}
	d := vOut8(pdf)
	vCheckFile(d)
	vCheckRefs(d)
	o := c18Obj(d, 0)
	vAssert(o != nil, "the image is shown")
	if o == nil {
		return
	}
	cs := o.O.get("ColorSpace")
	colors := 1
	switch ct {
	case 0, 4:
		vAssert(cs.S == "DeviceGray", "grey images are grey")
	case 2, 6:
		colors = 3
		vAssert(cs.S == "DeviceRGB", "colour images have three components")
	case 3:
		vAssert(len(cs.Vals) == 4 && cs.Vals[0].S == "Indexed" && cs.Vals[1].S == "DeviceRGB" && cs.Vals[2].I == len(pal)/3-1, "palette images are indexed")
		if len(cs.Vals) == 4 {
			po := d.obj(cs.Vals[3].I)
			vAssert(po != nil && po.HasS, "the palette is in the file")
			if po != nil && po.HasS {
				s := po.Stream
				if l := po.O.get("Length"); l.Int && l.I <= len(s) {
					s = s[:l.I]
				}
				vAssert(vStrEq(s, string(pal)), "the palette is the one of the file")
			}
		}
	}
	vAssert(!o.O.has("Mask"), "an image without transparent colour has none")
	data := c18Data(o, w, h, bits, colors)
	if ct < 4 {
		vAssert(!o.O.has("SMask"), "an image without alpha has no soft mask")
		vAssert(vBytesEq(data, raw), "the samples are those of the file")
		vReach("opaque")
		return
	}
	var col, alpha []byte
	for y := 0; y < h; y++ {
		r := raw[y*(n+1):]
		col = append(col, r[0])
		alpha = append(alpha, r[0])
		for x := 0; x < w; x++ {
			px := r[1+x*c18Comp[ct]:]
			col = append(col, px[:colors]...)
			alpha = append(alpha, px[colors])
		}
	}
	vAssert(vBytesEq(data, col), "the samples are those of the file")
	m := d.obj(o.O.get("SMask").I)
	vAssert(o.O.get("SMask").K == 'r' && m != nil && m.HasS, "the alpha channel is a soft mask")
	if m == nil || !m.HasS {
		return
	}
	vAssert(m.O.get("ColorSpace").S == "DeviceGray", "a soft mask is grey")
	vAssert(vBytesEq(c18Data(m, w, h, 8, 1), alpha), "the soft mask has the samples of the alpha channel")
	vReach("alpha")
}

// A transparent colour of a grey, colour or palette PNG is masked out.
// symgo time=20s
func H_C18_trns() {
	ct := []int{0, 2, 3}[vChoice("ct", 3)]
	bits := c18Bits(ct)
	p := vNewPNG().ihdr(2, 1, bits, ct)
	var want []int
	max := 1<<bits - 1
	switch ct {
	case 0:
		v := vInt("v", 0, max)
		want = []int{v}
		p.chunk("tRNS", []byte{0, byte(v)})
	case 2:
		r, g, b := vInt("r", 0, 255), vInt("g", 0, 255), vInt("b", 0, 255)
		want = []int{r, g, b}
		p.chunk("tRNS", []byte{0, byte(r), 0, byte(g), 0, byte(b)})
	case 3:
		np := 2
		if bits > 1 {
			np = 3
		}
		p.chunk("PLTE", []byte{1, 2, 3, 40, 50, 60, 7, 8, 9}[:3*np])
		k := vChoice("entry", np+1)
		var t []byte
		for i := 0; i < np; i++ {
			a := byte(255)
			if i == k {
				a = 0
			}
			t = append(t, a)
		}
		if k < np {
			want = []int{k}
			t = t[:k+1+vChoice("short", np-k)]
		}
		p.chunk("tRNS", t)
	}
	raw := []byte{0}
	raw = append(raw, vBytes("px", (2*bits*c18Comp[ct]+7)/8)...)
	p.chunk("IDAT", vStored(raw)).chunk("IEND", nil)
	pdf, err := c18Put(p.b, 2, ImageOptions{Rect: &Rect{W: 30, H: 40}})
	vAssert(err == nil, "a valid file is accepted")
	if err != nil {
		return
	}
	d := vOut8(pdf)
	o := c18Obj(d, 0)
	vAssert(o != nil, "the image is shown")
	if o == nil {
		return
	}
	m := o.O.get("Mask")
	vAssert(len(m.Vals) == 2*len(want) && (len(want) == 0 || m.K == 'a'), "a transparent colour is masked out")
	for i, v := range want {
		if len(m.Vals) == 2*len(want) {
			vAssert(vAnd(m.Vals[2*i].I == v, m.Vals[2*i+1].I == v), "the colour masked out is the one of the file")
		}
	}
	vReach("done")
}

// A JPEG file is embedded byte for byte.
// symgo time=20s
func H_C18_jpeg() {
	w, h := vInt("w", 1, 65535), vInt("h", 1, 65535)
	nc := []int{1, 3, 4}[vChoice("nc", 3)]
	b := vJPEG(w, h, nc, vBytes("tail", 5))
	switch vChoice("app", 3) {
	case 1:
		app := append([]byte{0xff, 0xd8, 0xff, 0xe0, 0, 7}, vBytes("app", 5)...)
		b = append(app, b[2:]...)
	case 2: // progressive
		b[3] = 0xc2
	}
	pdf, err := c18Put(b, vChoice("how", 4), ImageOptions{X: 10, Y: 20, Rect: &Rect{W: 30, H: 40}})
	vAssert(err == nil, "a valid file is accepted")
	if err != nil {
		return
	}
	d := vOut8(pdf)
	vCheckFile(d)
	o := c18Obj(d, 0)
	vAssert(o != nil, "the image is shown")
	if o == nil {
		return
	}
	vAssert(vAnd(o.O.get("Width").I == w, o.O.get("Height").I == h), "the image has the width and height of the file")
	vAssert(o.O.get("ColorSpace").S == map[int]string{1: "DeviceGray", 3: "DeviceRGB", 4: "DeviceCMYK"}[nc], "the image has the components of the file")
	vAssert(o.O.get("BitsPerComponent").I == 8 && o.O.get("Filter").S == "DCTDecode", "the data is marked as JPEG")
	vAssert(o.O.has("Decode") == (nc == 4), "only four-component images are inverted")
	vAssert(vStrEq(o.Stream, string(b)), "the data is the file, byte for byte")
	vReach("done")
}

// c18Use draws an image that may be damaged, also as a mask.
func c18Use(b []byte) {
	pdf := &GoPdf{}
	pdf.Start(Config{PageSize: *PageSizeA4})
	pdf.AddPage()
	r := &Rect{W: 30, H: 40}
	o := ImageOptions{Rect: r}
	var err error
	if vChoice("mask", 2) == 1 {
		o.Mask = &MaskOptions{Holder: vHolder("m", b), ImageOptions: ImageOptions{Rect: r}}
		err = pdf.ImageByHolderWithOptions(vHolder("a", vPixels(1, 1, 2, vRaw(1, 1, 2))), o)
	} else {
		err = pdf.ImageByHolderWithOptions(vHolder("a", b), o)
	}
	if err != nil {
		vReach("rejected")
	} else {
		vReach("accepted")
	}
	d := vOut8(pdf)
	vCheckFile(d)
	vCheckRefs(d)
	for _, ob := range d.Objs {
		if ob.O.get("Subtype").S == "Image" && ob.HasS {
			vAssert(len(ob.Stream) > 0, "an image that was accepted has data")
		}
	}
}

// c18Chunk is a chunk that may be a lie about its length.
func c18Chunk(p *vPNG, typ string, data []byte, off int) {
	n := len(data) + off
	at := len(p.b)
	p.chunk(typ, data)
	p.b[at], p.b[at+1], p.b[at+2], p.b[at+3] = byte(n>>24), byte(n>>16), byte(n>>8), byte(n)
}

// A PNG file with wrong sizes, lengths, counts or methods, or too little data, is rejected or embedded, never a crash.
// symgo time=40s ttime=200s
func H_C18_badpng() {
	ct := []int{0, 2, 3, 4, 6}[vChoice("ct", 5)]
	w, h, bits := 2, 1, 8
	npal, ntrns, noff, nraw := 6, -1, 0, 1+w*c18Comp[ct]
	noff2 := 0
	method := [3]int{}
	switch vChoice("what", 8) {
	case 0:
		w = vInt("w", 0, 1<<31)
	case 1:
		h = vInt("h", 0, 1<<31)
	case 2:
		bits = vInt("bits", 0, 255)
	case 3:
		npal = vChoice("npal", 8)
	case 4:
		ntrns = vChoice("ntrns", 7)
	case 5:
		noff = vInt("noff", -10, 1<<32-100)
		vAssume(noff != 0)
	case 6:
		nraw = vChoice("nraw", nraw)
	case 7:
		method[vChoice("method", 3)] = vInt("m", 0, 255)
	}
	p := vNewPNG()
	var d []byte
	d = vU32(d, w)
	d = vU32(d, h)
	d = append(d, byte(bits), byte(ct), byte(method[0]), byte(method[1]), byte(method[2]))
	p.chunk("IHDR", d)
	if ct == 3 {
		p.chunk("PLTE", make([]byte, npal))
	}
	if ntrns >= 0 {
		p.chunk("tRNS", make([]byte, ntrns))
	}
	if vChoice("which", 2) == 1 {
		noff, noff2 = 0, noff
	}
	c18Chunk(p, "tEXt", []byte{1, 2}, noff2)
	c18Chunk(p, "IDAT", vStored(make([]byte, nraw)), noff)
	p.chunk("IEND", nil)
	c18Use(p.b)
}

// An image file cut off at any length, or with any one byte changed, is rejected or embedded, never a crash.
// symgo time=30s ttime=200s order=bfs
func H_C18_damaged() {
	var b []byte
	k := vChoice("kind", 4)
	switch k {
	case 0:
		b = vJPEG(3, 2, 3, []byte{1, 2, 3})
	case 1, 2, 3:
		ct := []int{0, 3, 3, 6}[k]
		p := vNewPNG().ihdr(1, 1, 8, ct)
		if ct == 3 {
			p.chunk("PLTE", []byte{1, 2, 3, 40, 50, 60}).chunk("tRNS", []byte{255, 0})
		}
		b = p.chunk("IDAT", vStored(vRaw(1, 1, ct))).chunk("IEND", nil).b
	}
	at := vChoice("at", len(b))
	if vChoice("how", 2) == 0 {
		b = b[:at]
	} else {
		b[at] = vByte("v")
	}
	c18Use(b)
}

// An image used as the mask of another one is its alpha channel, byte for byte.
// symgo time=20s
func H_C18_mask() {
	ct := []int{4, 6}[vChoice("ct", 2)]
	w, h := 1+vChoice("w", 3), 1+vChoice("h", 2)
	n := w * c18Comp[ct]
	var raw, alpha []byte
	for y := 0; y < h; y++ {
		row := append([]byte{byte(vInt("filter", 0, 4))}, vBytes("px", n)...)
		raw = append(raw, row...)
		alpha = append(alpha, row[0])
		for x := 0; x < w; x++ {
			alpha = append(alpha, row[(x+1)*c18Comp[ct]])
		}
	}
	p := vNewPNG().ihdr(w, h, 8, ct)
	p.chunk("IDAT", vStored(raw))
	p.chunk("IEND", nil)
	pdf := vMini(Config{PageSize: *PageSizeA4}, nil)
	pdf.AddPage()
	pdf.SetNoCompression()
	mask := &MaskOptions{Holder: vHolder("mask", p.b), ImageOptions: ImageOptions{X: 10, Y: 20, Rect: &Rect{W: 30, H: 40}}}
	uses := 1 + vChoice("twice", 2)
	for i := 0; i < uses; i++ {
		o := ImageOptions{X: 10, Y: 20 + float64(50*i), Rect: &Rect{W: 30, H: 40}, Mask: mask}
		vAssert(pdf.ImageByHolderWithOptions(vHolder("jpg", vJPEG(10, 20, 3, []byte{1, 2, 3})), o) == nil, "a valid file is accepted")
	}
	d := vOut8(pdf)
	vCheckFile(d)
	vCheckRefs(d)
	if !d.OK {
		return
	}
	ms := d.marks(0)
	vAssert(len(ms) == uses, "the image is shown")
	for _, m := range ms {
		k := 0
		for i, name := range m.G.GSN {
			gs := d.obj(d.res(0, "ExtGState").get(name).I)
			if gs == nil || gs.O.get("SMask").K != 'r' {
				continue
			}
			sm := d.obj(gs.O.get("SMask").I)
			vAssert(sm != nil && sm.O.get("S").S == "Luminosity" && d.obj(sm.O.get("G").I) != nil, "the image has its mask")
			if sm == nil || d.obj(sm.O.get("G").I) == nil {
				return
			}
			ops, bad := vOps([]byte(d.obj(sm.O.get("G").I).Stream))
			vAssert(bad == "", "the mask is a sequence of operands and operators")
			in := vInterpFrom(ops, vGS{M: m.G.GSM[i]})
			vAssert(len(in) == 1 && in[0].Op == "Do", "the mask is painted once")
			if len(in) != 1 {
				return
			}
			o := d.obj(d.res(0, "XObject").get(in[0].Name).I)
			vAssert(o != nil && o.HasS, "the mask's image is in the file")
			if o == nil || !o.HasS {
				return
			}
			vAssert(o.O.get("Subtype").S == "Image" && o.O.get("ColorSpace").S == "DeviceGray", "a mask is a grey image")
			vAssert(vBytesEq(c18Data(o, w, h, 8, 1), alpha), "the mask has the samples of the alpha channel")
			k++
		}
		vAssert(k == 1, "the image has its mask")
	}
	vReach("done")
}

// c18Unfilter undoes the filters of a PNG's rows of n bytes.
func c18Unfilter(raw []byte, n, bpp int) []byte {
	var out []byte
	prev := make([]byte, n)
	for len(raw) > n {
		f, r := raw[0], append([]byte(nil), raw[1:n+1]...)
		raw = raw[n+1:]
		for i := range r {
			var a, c int
			if i >= bpp {
				a, c = int(r[i-bpp]), int(prev[i-bpp])
			}
			b := int(prev[i])
			switch f {
			case 1:
				r[i] += byte(a)
			case 2:
				r[i] += byte(b)
			case 3:
				r[i] += byte((a + b) / 2)
			case 4:
				p := a + b - c
				pa, pb, pc := p-a, p-b, p-c
				if pa < 0 {
					pa = -pa
				}
				if pb < 0 {
					pb = -pb
				}
				if pc < 0 {
					pc = -pc
				}
				if pa <= pb && pa <= pc {
					r[i] += byte(a)
				} else if pb <= pc {
					r[i] += byte(b)
				} else {
					r[i] += byte(c)
				}
			}
		}
		out = append(out, r...)
		prev = r
	}
	vAssert(len(raw) == 0, "the data has whole rows")
	return out
}

// c18Picture is a picture in memory of one kind, its colour and alpha samples and their number per pixel.
func c18Picture(kind, w, h int) (image.Image, []byte, []byte, int) {
	rect := image.Rect(0, 0, w, h)
	if vChoice("moved", 2) == 1 {
		rect = image.Rect(3, 4, 3+w, 4+h)
	}
	flat := kind >= 3
	px := func(i int) byte {
		if flat {
			return 90
		}
		return byte(i*i*37 + 11*i)
	}
	var col, alpha []byte
	switch kind {
	case 0, 3: // with alpha, or a flat opaque colour
		p := &image.NRGBA{Stride: 4 * w, Rect: rect}
		for i := 0; i < w*h; i++ {
			a := byte(255)
			if !flat {
				a = byte(255 - 60*i)
			}
			c := []byte{px(3 * i), px(3*i + 1), px(3*i + 2)}
			p.Pix = append(append(p.Pix, c...), a)
			col, alpha = append(col, c...), append(alpha, a)
		}
		return p, col, alpha, 3
	case 1:
		p := &image.RGBA{Stride: 4 * w, Rect: rect}
		for i := 0; i < w*h; i++ {
			c := []byte{px(3 * i), px(3*i + 1), px(3*i + 2)}
			p.Pix = append(append(p.Pix, c...), 255)
			col, alpha = append(col, c...), append(alpha, 255)
		}
		return p, col, alpha, 3
	}
	p := &image.Gray{Stride: w, Rect: rect}
	for i := 0; i < w*h; i++ {
		p.Pix = append(p.Pix, px(i))
		alpha = append(alpha, 255)
	}
	return p, p.Pix, alpha, 1
}

// A picture in memory is embedded with its own samples, losslessly unless JPEG
// is asked for.
// symgo time=20s
func H_C18_memory() {
	kind, w, h := vChoice("kind", 5), 1+vChoice("w", 3), 1+vChoice("h", 3)
	img, col, alpha, n := c18Picture(kind, w, h)
	pdf := &GoPdf{}
	pdf.Start(Config{PageSize: *PageSizeA4})
	pdf.AddPage()
	r := &Rect{W: 30, H: 40}
	var err error
	lossy := false
	switch vChoice("how", 2+vIteI(kind >= 3, 1, 0)) {
	case 0:
		err = pdf.ImageFrom(img, 10, 20, r)
	case 1:
		err = pdf.ImageFromWithOption(img, ImageFromOption{Format: "png", X: 10, Y: 20, Rect: r})
	default:
		err = pdf.ImageFromWithOption(img, ImageFromOption{Format: "jpeg", X: 10, Y: 20, Rect: r})
		lossy = true
	}
	vAssert(err == nil, "a picture in memory is accepted")
	if err != nil {
		return
	}
	d := vOut8(pdf)
	vCheckFile(d)
	vCheckRefs(d)
	o := c18Obj(d, 0)
	vAssert(o != nil && o.HasS, "the image is shown")
	if o == nil || !o.HasS {
		return
	}
	vAssert(o.O.get("ColorSpace").S == []string{"DeviceGray", "DeviceRGB"}[n/3], "the image has the components of the picture")
	if lossy {
		vAssert(o.O.get("Width").I == w && o.O.get("Height").I == h, "the image has the width and height of the picture")
		j, err := jpeg.Decode(bytes.NewReader([]byte(o.Stream)))
		vAssert(err == nil, "the data is a JPEG")
		if err != nil {
			return
		}
		b := j.Bounds()
		vAssert(b.Dx() == w && b.Dy() == h, "the image has the width and height of the picture")
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				r, g, b, _ := j.At(x, y).RGBA()
				for _, v := range []uint32{r, g, b} {
					vAssert(v>>8 >= 80 && v>>8 <= 100, "the image has about the colour of the picture")
				}
			}
		}
		vReach("jpeg")
		return
	}
	data := c18Unfilter(c18Data(o, w, h, 8, n), w*n, n)
	vAssert(vBytesEq(data, col), "the samples are those of the picture")
	m := d.obj(o.O.get("SMask").I)
	if m == nil || !m.HasS {
		for _, a := range alpha {
			vAssert(a == 255, "the alpha channel is a soft mask")
		}
		vReach("opaque")
		return
	}
	vAssert(vBytesEq(c18Unfilter(c18Data(m, w, h, 8, 1), w, 1), alpha), "the soft mask has the samples of the alpha channel")
	vReach("alpha")
}
