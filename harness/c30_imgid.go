package gopdf

import "bytes"

var c30Ct = []int{0, 6, 4, 2}

func c30Raw(i int) []byte {
	raw := vRaw(2+i, 1, c30Ct[i])
	for k := 1; k < len(raw); k++ {
		raw[k] = byte(16*i + k)
	}
	return raw
}

// c30Holders are the holders kept, when a holder is used for all placements of its image.
var c30Holders map[int]ImageHolder

func c30Holder(i int) ImageHolder {
	b := vPixels(2+i, 1, c30Ct[i], c30Raw(i))
	if c30Holders == nil {
		return vHolder("img"+vItoa(i), b)
	}
	if c30Holders[i] == nil {
		h, err := ImageHolderByBytes(b)
		vAssert(err == nil, "a picture is accepted")
		c30Holders[i] = h
	}
	return c30Holders[i]
}

// c30Alpha is the alpha channel of image i with its filter byte.
func c30Alpha(i int) []byte {
	raw := c30Raw(i)
	n := c30Comp(i)
	r := []byte{raw[0]}
	for k := n; k < len(raw); k += n {
		r = append(r, raw[k])
	}
	return r
}
func c30Comp(i int) int      { return map[int]int{0: 1, 2: 3, 4: 2, 6: 4}[c30Ct[i]] }
func c30HasAlpha(i int) bool { return c30Ct[i] >= 4 }

type c30Place struct {
	img, mask  int // mask -1: none
	sized      bool
	x, y, w, h float64
	mx, mw     float64
	msized     bool
}

func c30Nat(i int) (float64, float64) {
	w, h := (2+i)*72/128, 1*72/128
	if w == 0 {
		w = h * (2 + i)
	}
	if h == 0 {
		h = w / (2 + i)
	}
	return float64(w), float64(h)
}

func c30Run(n int, cfg Config) {
	pdf := &GoPdf{}
	pdf.Start(cfg)
	pdf.AddPage()
	c30Holders = nil
	if vChoice("keep", 2) == 1 {
		c30Holders = map[int]ImageHolder{}
	}
	more := vIteI(c30Holders == nil, 2, 1)
	var ps []c30Place
	for i := 0; i < n; i++ {
		nm := string(rune('a' + i))
		p := c30Place{img: vChoice(nm+"img", 4), mask: vChoice(nm+"mask", 5) - 1}
		p.sized = vChoice(nm+"sized", more) == 1
		p.msized = vChoice(nm+"msized", vIteI(p.mask >= 0, more, 1)) == 1
		p.x, p.y, p.w, p.h = vFloat(nm+"x", 0, 500), vFloat(nm+"y", 0, 500), vFloat(nm+"w", 1, 300), vFloat(nm+"h", 1, 300)
		p.mx, p.mw = vFloat(nm+"mx", 0, 500), vFloat(nm+"mw", 1, 300)
		o := ImageOptions{X: p.x, Y: p.y}
		if p.sized {
			o.Rect = &Rect{W: p.w, H: p.h}
		} else {
			p.w, p.h = c30Nat(p.img)
		}
		var err error
		if p.mask >= 0 {
			m := &MaskOptions{Holder: c30Holder(p.mask), ImageOptions: ImageOptions{X: p.mx, Y: 7}}
			if p.msized {
				m.Rect = &Rect{W: p.mw, H: 11}
			} else {
				p.mw, _ = c30Nat(p.mask)
			}
			o.Mask = m
			err = pdf.ImageByHolderWithOptions(c30Holder(p.img), o)
			if !c30HasAlpha(p.mask) {
				vAssert(err != nil, "an image without alpha channel is not accepted as a mask")
				vReach("rejected mask")
				continue
			}
		} else if vChoice(nm+"plain", more) == 1 {
			err = pdf.ImageByHolder(c30Holder(p.img), p.x, p.y, o.Rect)
		} else {
			err = pdf.ImageByHolderWithOptions(c30Holder(p.img), o)
		}
		vAssert(err == nil, "an image is drawn")
		ps = append(ps, p)
		if i == 0 && vChoice("newpage", 2) == 1 {
			pdf.AddPage()
		}
	}
	d := vOut8(pdf)
	vCheckFile(d)
	vCheckRefs(d)
	if !d.OK {
		return
	}
	k := 0
	for pg := range d.pages() {
		for _, m := range d.marks(pg) {
			if m.Op != "Do" {
				continue
			}
			vAssert(k < len(ps), "only the images asked for are drawn")
			if k >= len(ps) {
				return
			}
			c30Check(d, pg, m, ps[k])
			k++
		}
	}
	vAssert(k == len(ps), "every image asked for is drawn")
	// used again in the same way, an image is not embedded again
	most := 0
	for i := range c30Ct {
		var plain, split, mask bool
		for _, p := range ps {
			plain = plain || p.img == i && p.mask < 0
			split = split || p.img == i && p.mask >= 0
			mask = mask || p.mask == i
		}
		k := 1 // and its alpha channel
		if c30HasAlpha(i) {
			k = 2
		}
		most += k*(vIteI(plain, 1, 0)+vIteI(split, 1, 0)) + vIteI(mask, 1, 0)
	}
	images := 0
	for _, o := range d.Objs {
		if o.O.get("Subtype").S == "Image" {
			images++
		}
	}
	vAssert(images <= most, "an image used again is embedded once")
	vReach("done")
}

func c30Check(d *vDoc, pg int, m vMark, p c30Place) {
	o := d.obj(d.res(pg, "XObject").get(m.Name).I)
	vAssert(o != nil && o.HasS, "the image is in the file")
	if o == nil || !o.HasS {
		return
	}
	vAssert(o.O.get("Width").I == 2+p.img, "each placement shows the image it was given")
	cs := "DeviceGray"
	if c30Comp(p.img) > 2 {
		cs = "DeviceRGB"
	}
	vAssert(o.O.get("ColorSpace").S == cs, "each placement shows the image in its colours")
	data, ok := vInflate([]byte(o.Stream))
	want := c30Raw(p.img)
	if c30HasAlpha(p.img) {
		n := c30Comp(p.img)
		want = want[:1]
		for x, r := 0, c30Raw(p.img); x < 2+p.img; x++ {
			want = append(want[:len(want):len(want)], r[1+x*n:n+x*n]...)
		}
	}
	vAssert(ok && vBytesEq(data, want), "each placement shows the image's own samples")
	H := PageSizeA4.H
	vAssert(m.isRect(p.x, H-p.y-p.h, p.x+p.w, H-p.y, 0.012), "each placement has its own position and size")
	var sm []*vInd
	for _, g := range m.G.GSN {
		gs := d.obj(d.res(pg, "ExtGState").get(g).I)
		vAssert(gs != nil, "the graphics state is in the file")
		if gs != nil && gs.O.has("SMask") {
			sm = append(sm, d.obj(gs.O.get("SMask").I))
		}
	}
	if p.mask < 0 {
		vAssert(len(sm) == 0, "an image without mask is shown without")
		vAssert(o.O.has("SMask") == c30HasAlpha(p.img), "an image without mask has its own alpha channel, if any")
		return
	}
	vAssert(!o.O.has("SMask"), "the mask given is not overridden by the image's own alpha channel")
	vAssert(len(sm) == 1 && sm[0] != nil, "an image with a mask is shown with that mask")
	if len(sm) != 1 || sm[0] == nil {
		return
	}
	g := d.obj(sm[0].O.get("G").I)
	vAssert(sm[0].O.get("S").S == "Luminosity" && g != nil && g.HasS, "the mask is the luminosity of a form")
	if g == nil || !g.HasS {
		return
	}
	ops, bad := vOps([]byte(g.Stream))
	vAssert(bad == "", "the form is well formed")
	ms := vInterp(ops)
	vAssert(len(ms) == 1 && ms[0].Op == "Do", "the form shows the mask")
	if len(ms) != 1 {
		return
	}
	mo := d.obj(d.res(pg, "XObject").get(ms[0].Name).I)
	vAssert(mo != nil && mo.HasS && mo.O.get("ColorSpace").S == "DeviceGray" && mo.O.get("Width").I == 2+p.mask, "the mask is the one given")
	if mo == nil || !mo.HasS {
		return
	}
	data, ok = vInflate([]byte(mo.Stream))
	vAssert(ok && vBytesEq(data, c30Alpha(p.mask)), "the mask is the alpha channel of the image given as mask")
	x0, _, x1, _ := ms[0].box()
	vAssert(vNear(x0, p.mx, 0.012) && vNear(x1, p.mx+p.mw, 0.012), "the mask has its own position and size")
	b := g.O.get("BBox").Vals
	vAssert(len(b) == 4 && b[0].F <= x0 && b[2].F >= x1, "the form's box holds the mask")
}

// Two images, each with or without a mask, sized or not, the same or different
// ones (also as image and as mask), on one page or two, show what they were given.
// symgo time=60s
func H_C30_two() { c30Run(2, Config{PageSize: *PageSizeA4}) }

// Three images.
// symgo tier=thorough ttime=400s
func H_C30_three() { c30Run(3, Config{PageSize: *PageSizeA4}) }

// Pictures given as bytes, through a reader or as a file, of any size: alike but for one byte anywhere
// near their start, middle or end, or the same picture again.
// symgo time=30s
func H_C30_bytes() {
	n := []int{3, 600, 5000, 70000}[vChoice("n", 4)]
	at := []int{0, n / 2, n - 1}[vChoice("at", 3)]
	v := vBytes("v", 2)
	how := []int{vChoice("r1", 3), vChoice("r2", 3)}
	dir := how[0] == 2 && how[1] == 2 && vChoice("dir", 2) == 1 // files of the same name
	pdf := &GoPdf{}
	pdf.Start(Config{PageSize: *PageSizeA4})
	pdf.AddPage()
	var want [2][]byte
	for i := range want {
		tail := make([]byte, n)
		tail[at] = v[i]
		want[i] = vJPEG(10, 20, 3, tail)
		var h ImageHolder
		var err error
		switch how[i] {
		case 0:
			h, err = ImageHolderByBytes(want[i])
		case 1:
			h, err = ImageHolderByReader(bytes.NewReader(want[i]))
		default:
			nm := "i" + vItoa(i)
			if dir {
				nm = "d" + vItoa(i) + "/i"
			}
			h, err = ImageHolderByPath(vFile(nm, want[i]))
		}
		vAssert(err == nil, "a picture is accepted")
		vAssert(pdf.ImageByHolder(h, 1, 2, &Rect{W: 3, H: 4}) == nil, "an image is drawn")
	}
	pdf.SetNoCompression()
	d := vOut8(pdf)
	vCheckFile(d)
	ms := d.marks(0)
	vAssert(len(ms) == 2, "every image asked for is drawn")
	images := 0
	for _, o := range d.Objs {
		if o.O.get("Subtype").S == "Image" {
			images++
		}
	}
	vAssert(vImplies(vAnd(v[0] == v[1], how[0] < 2 && how[1] < 2), images == 1), "an image used again is embedded once")
	for i, m := range ms {
		o := d.obj(d.res(0, "XObject").get(m.Name).I)
		vAssert(o != nil && o.HasS, "the image is in the file")
		if o != nil {
			vAssert(vBytesEq([]byte(o.Stream), want[i]), "each placement shows the image it was given")
		}
	}
	vReach("done")
}

// One picture, placed three times, whole or cropped in any way, with or without a mask, on one page or two,
// with one holder or others of the same name: it is in the file once for each way it is used.
// symgo time=20s
func H_C30_crop() {
	pdf := &GoPdf{}
	pdf.Start(Config{PageSize: *PageSizeA4})
	pdf.AddPage()
	c30Holders = nil
	if vChoice("keep", 2) == 1 {
		c30Holders = map[int]ImageHolder{}
	}
	img := vChoice("img", 2) // without and with an alpha channel
	ct := []int{0, 6}[img]
	for i, k := range c30Ct {
		if k == ct {
			img = i
		}
	}
	plain, split := 0, 0
	for i := 0; i < 3; i++ {
		n := vItoa(i)
		o := ImageOptions{X: vFloat(n+"x", 0, 500), Y: 3, Rect: &Rect{W: 40, H: 50}}
		how := vChoice(n+"how", 4)
		if how&1 == 1 {
			o.Crop = &CropOptions{X: vFloat(n+"cx", 0, 10), Y: 1, Width: vFloat(n+"cw", 1, 30), Height: 20}
		}
		if how&2 == 2 {
			o.Mask = &MaskOptions{Holder: c30Holder(1), ImageOptions: ImageOptions{X: 1, Y: 2, Rect: &Rect{W: 3, H: 4}, Crop: o.Crop}}
			split = 1
		} else {
			plain = 1
		}
		vAssert(pdf.ImageByHolderWithOptions(c30Holder(img), o) == nil, "an image is drawn")
		if i == 0 && vChoice("newpage", 2) == 1 {
			pdf.AddPage()
		}
	}
	d := vOut8(pdf)
	vCheckFile(d)
	vCheckRefs(d)
	images := 0
	for _, o := range d.Objs {
		if o.O.get("Subtype").S == "Image" {
			images++
		}
	}
	k := 1
	if c30HasAlpha(img) {
		k = 2
	}
	vAssert(images <= k*(plain+split)+split, "an image used again is embedded once")
	vReach("done")
}
