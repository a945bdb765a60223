package gopdf

func c16Cfg(perm int, user, owner []byte) Config {
	return Config{PageSize: *PageSizeA4, Protection: PDFProtectionConfig{UseProtection: true, Permissions: perm, UserPass: user, OwnerPass: owner}}
}

// c16Same asserts that the encrypted document, opened with the user password,
// is the plain document.
func c16Same(plain, enc *vDoc, user []byte) {
	if !plain.OK || !enc.OK {
		return
	}
	vAssert(enc.Trailer.has("Encrypt") && !plain.Trailer.has("Encrypt"), "only the protected document is encrypted")
	if !enc.unlock(user) {
		return
	}
	enc.vNormStr()
	plain.vNormStr()
	n := len(enc.Objs)
	vAssert(n == len(plain.Objs)+1 && enc.Trailer.get("Encrypt").I == n, "protection adds the encryption dictionary only")
	if n != len(plain.Objs)+1 {
		return
	}
	for i, o := range plain.Objs {
		p := enc.Objs[i]
		w := "object " + o.Type
		vAssert(o.HasS == p.HasS, w+": stream or none")
		c16Val(o.O, p.O, w)
		if o.HasS && p.HasS {
			vAssert(vStrEq(o.Stream, p.Stream), w+": the decrypted stream is the plain stream")
		}
	}
}

func c16Val(a, b *vO, what string) {
	vAssert(a.K == b.K && len(a.Vals) == len(b.Vals) && len(a.Keys) == len(b.Keys), what+": same kind of value")
	if a.K != b.K || len(a.Vals) != len(b.Vals) || len(a.Keys) != len(b.Keys) {
		return
	}
	switch a.K {
	case 'n':
		vAssert(vOr(a.F == b.F, vNear(a.F, b.F, 0.0001)), what+": same number")
	case 'r':
		vAssert(a.I == b.I, what+": same reference")
	case 'd', 'a':
		for i := range a.Vals {
			w := what
			if a.K == 'd' {
				vAssert(a.Keys[i] == b.Keys[i], what+": same keys")
				w += " " + a.Keys[i]
				if a.Keys[i] == "Length" {
					continue
				}
			}
			c16Val(a.Vals[i], b.Vals[i], w)
		}
	case '(':
		vAssert(vStrEq(a.S, b.S), what+": the decrypted string is the plain string")
	default:
		vAssert(vStrEq(a.S, b.S), what+": same value")
	}
}

// Any drawing call: the protected document, opened with the user password
// through the standard algorithm, has the objects, strings and streams of the
// same document without protection.
// symgo time=60s
func H_C16_single() {
	vMem, vMemI = map[string]float64{}, map[string]int{}
	k := vC("op", vNOps-1)
	if k == 34 {
		k = 36 // imported objects: H_C16_imported
	}
	user, owner := []byte("user"), []byte("owner")
	if vC("pw", 2) == 1 {
		user, owner = vBytes("user", 3), vBytes("owner", 2)
	}
	f := func(cfg Config) *vDoc {
		pdf := vOpsDoc(cfg)
		vOp(pdf, k, "a")
		return vOut8(pdf)
	}
	c16Same(f(Config{PageSize: *PageSizeA4}), f(c16Cfg(PermissionsPrint, user, owner)), user)
}

// Two drawing calls.
// symgo time=60s tier=thorough ttime=300s
func H_C16_pairs() {
	vLite = true
	vMem, vMemI = map[string]float64{}, map[string]int{}
	f := func(cfg Config) *vDoc {
		pdf := vOpsDoc(cfg)
		for _, n := range []string{"a", "b"} {
			k := vC("op"+n, vNOps-1)
			if k == 34 {
				k = 36
			}
			vOp(pdf, k, n)
		}
		return vOut8(pdf)
	}
	c16Same(f(Config{PageSize: *PageSizeA4}), f(c16Cfg(PermissionsPrint, []byte("u"), []byte("o"))), []byte("u"))
}

// Images of every colour type with masks, palettes and transparency; several pages.
// symgo time=40s
func H_C16_images() {
	vMem, vMemI = map[string]float64{}, map[string]int{}
	var pal []byte
	for i := 0; i < 4; i++ {
		pal = append(pal, vByte("pal"), 2, 3)
	}
	ct := []int{0, 2, 3, 4, 6}[vC("ct", 5)]
	sz := 1 + vC("size", 2)
	raw := vRaw(sz, sz, ct)
	f := func(cfg Config) *vDoc {
		pdf := vOpsDoc(cfg)
		b := vPixels(sz, sz, ct, raw)
		if vC("masked", 2) == 1 {
			pdf.ImageByHolderWithOptions(vHolder("i", b), ImageOptions{X: 1, Y: 2, Rect: &Rect{W: 3, H: 4},
				Mask: &MaskOptions{Holder: vHolder("m", vPixels(2, 2, 6, vRaw(2, 2, 6))), ImageOptions: ImageOptions{X: 1, Y: 2, Rect: &Rect{W: 5, H: 6}}}})
		} else {
			pdf.ImageByHolder(vHolder("i", b), 1, 2, nil)
		}
		pdf.AddPage()
		pdf.AddOutline("AB")
		pdf.AddOutlineWithPosition("é😀")
		pdf.Text("AB")
		if vC("nocomp", 2) == 1 {
			pdf.SetNoCompression()
		}
		return vOut8(pdf)
	}
	c16Same(f(Config{PageSize: *PageSizeA4}), f(c16Cfg(PermissionsPrint|PermissionsCopy, []byte("u"), []byte("o"))), []byte("u"))
}

// URLs of any bytes in protected and plain documents.
// symgo time=30s
func H_C16_strings() {
	vMem, vMemI = map[string]float64{}, map[string]int{}
	n := 1 + vChoice("n", 3)
	var u []byte
	for i := 0; i < n; i++ {
		u = append(u, vByte("u"))
		vAssume(u[i] < 0x80 && u[i] != 0)
	}
	f := func(cfg Config) *vDoc {
		pdf := vMini(cfg, vStdFont(1))
		pdf.AddPage()
		pdf.AddExternalLink(string(u), 1, 2, 3, 4)
		return vOut8(pdf)
	}
	plain, enc := f(Config{PageSize: *PageSizeA4}), f(c16Cfg(PermissionsPrint, []byte("u"), []byte("o")))
	c16Same(plain, enc, []byte("u"))
	for _, d := range []*vDoc{plain, enc} {
		for _, o := range d.Objs {
			if o.Type == "Annot" {
				vAssert(vStrEq(o.O.get("A").get("URI").S, string(u)), "the link's address is the address given")
			}
		}
	}
}

// The encryption dictionary is that of the standard security handler for every
// password: the owner password yields the user password, the user password the
// key, and the permissions are those given.
// symgo time=30s
func H_C16_dict() {
	lens := []int{0, 1, 5, 31, 32, 33}
	user := vBytes("user", lens[vChoice("ulen", 6)])
	owner := vBytes("owner", lens[1+vChoice("olen", 5)])
	perm := 4 * vInt("perm", 0, 15)
	uc := append([]byte{}, user...)
	pdf := vMini(c16Cfg(perm, uc, append([]byte{}, owner...)), vStdFont(1))
	pdf.AddPage()
	d := vOut8(pdf)
	if !d.OK {
		return
	}
	e := d.obj(d.Trailer.get("Encrypt").I)
	vAssert(e != nil && e.O.K == 'd', "trailer Encrypt refers to the encryption dictionary")
	if e == nil {
		return
	}
	vAssert(e.O.get("Filter").S == "Standard" && e.O.get("V").I == 1 && e.O.get("R").I == 2, "standard security handler, version 1, revision 2")
	id := d.Trailer.get("ID")
	vAssert(id.K == 'a' && len(id.Vals) == 2 && vUnesc(id.Vals[0].S) == "", "the file identifier is the one used for the key")
	o, u := vUnesc(e.O.get("O").S), vUnesc(e.O.get("U").S)
	vAssert(len(o) == 32 && len(u) == 32, "O and U have 32 bytes")
	p := e.O.get("P").I
	vAssert(p == perm+192-256, "P gives the permissions asked for, and the reserved bits")
	vAssert(vStrEq(string(vRC4(vMD5(vPadded(owner))[:5], []byte(o))), string(vPadded(user))), "the owner password yields the user password")
	key := vFileKey(user, []byte(o), p)
	vAssert(vStrEq(string(vRC4(key, vPad)), u), "the user password is the one U was made with")
}

// A document protected without an owner password can be opened with the user password.
// symgo time=20s
func H_C16_noowner() {
	user := vBytes("user", vChoice("ulen", 3))
	plain := func(cfg Config) *vDoc {
		pdf := vMini(cfg, vStdFont(2))
		pdf.AddPage()
		pdf.SetFont("f", "", 10)
		pdf.Text("A")
		return vOut8(pdf)
	}
	c16Same(plain(Config{PageSize: *PageSizeA4}), plain(c16Cfg(PermissionsPrint, user, nil)), user)
}

// Streams of objects imported from another document are encrypted like the others.
// symgo time=10s
func H_C16_imported() {
	pdf := vOpsDoc(c16Cfg(PermissionsPrint, []byte("u"), []byte("o")))
	id := pdf.GetNextObjectID()
	pdf.ImportObjects(map[int]string{id: "<</Type /XObject /Subtype /Form /Length 8>>\nstream\n0 0 m f\nendstream\n"}, id)
	d := vOut8(pdf)
	if !d.OK || !d.unlock([]byte("u")) {
		return
	}
	x := d.obj(id)
	vAssert(x != nil && x.HasS && len(x.Stream) >= 7 && vStrEq(x.Stream[:7], "0 0 m f"), "KNOWN:imported-plain an imported stream is encrypted with the document's key")
}

// The key of an object is the one of the standard algorithm for every object number.
func H_C16_key() {
	user, owner := vBytes("user", 3), []byte("owner")
	pdf := &GoPdf{}
	pdf.Start(c16Cfg(PermissionsPrint, user, owner))
	pdf.AddPage()
	d := vOut8(pdf)
	p := &PDFProtection{}
	vAssert(p.SetProtection(PermissionsPrint, user, owner) == nil, "a document can be protected")
	if !d.unlock(user) {
		return
	}
	n := vInt("n", 1, 1<<23-1) // as many objects as a file can have
	vAssert(vBytesEq(p.Objectkey(n), vObjKey(d.Key, n)), "every object has its own key")
	vReach("done")
}
