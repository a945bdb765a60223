package gopdf

// Standard security handler, revision 2 (40-bit RC4), written from the PDF
// reference (3.5), independent of the library.

var vPad = []byte{
	0x28, 0xBF, 0x4E, 0x5E, 0x4E, 0x75, 0x8A, 0x41, 0x64, 0x00, 0x4E, 0x56, 0xFF, 0xFA, 0x01, 0x08,
	0x2E, 0x2E, 0x00, 0xB6, 0xD0, 0x68, 0x3E, 0x80, 0x2F, 0x0C, 0xA9, 0xFE, 0x64, 0x53, 0x69, 0x7A,
}

func vPadded(p []byte) []byte {
	b := make([]byte, 0, 64)
	b = append(b, p...)
	b = append(b, vPad...)
	return b[:32]
}

// vFileKey is algorithm 3.2: the file key of an encrypted document for a user password.
func vFileKey(user, o []byte, p int) []byte {
	b := make([]byte, 0, 80)
	b = append(b, vPadded(user)...)
	b = append(b, o...)
	b = append(b, byte(p), byte(p>>8), byte(p>>16), byte(p>>24))
	return vMD5(b)[:5]
}

// vObjKey is algorithm 3.1: the key of object n, generation 0.
func vObjKey(key []byte, n int) []byte {
	b := make([]byte, 0, 16)
	b = append(b, key...)
	b = append(b, byte(n), byte(n>>8), byte(n>>16), 0, 0)
	return vMD5(b)[:10]
}

// unlock opens an encrypted document with a user password: stream data is
// replaced by its decrypted form.
func (d *vDoc) unlock(user []byte) bool {
	if !d.OK || !d.Trailer.has("Encrypt") {
		return d.OK
	}
	e := d.obj(d.Trailer.get("Encrypt").I)
	vAssert(d.Trailer.get("Encrypt").K == 'r' && e != nil && e.O.K == 'd', "trailer Encrypt refers to a dictionary")
	if e == nil {
		return false
	}
	o := vUnesc(e.O.get("O").S)
	vAssert(len(o) == 32, "encryption O entry has 32 bytes")
	d.Key = vFileKey(user, []byte(o), e.O.get("P").I)
	for _, x := range d.Objs {
		if x.HasS {
			x.Stream = string(vRC4(vObjKey(d.Key, x.Num), []byte(x.Stream)))
		}
	}
	return true
}

// text is the value of a literal or hexadecimal string of object n.
func (d *vDoc) text(n int, v *vO) string {
	s := v.S
	if v.K == '(' {
		s = vUnesc(s)
	} else if v.K == '<' {
		s = vUnhex(s)
	}
	if d.Key != nil {
		s = string(vRC4(vObjKey(d.Key, n), []byte(s)))
	}
	return s
}

// vUnhex resolves hexadecimal digits (white space is skipped).
func vUnhex(s string) string {
	var r []byte
	h := -1
	for i := 0; i < len(s); i++ {
		c := int(s[i])
		if c <= ' ' {
			continue
		}
		v := vIteI(c <= '9', c-'0', vIteI(c >= 'a', c-'a'+10, c-'A'+10))
		if h < 0 {
			h = v
		} else {
			r = append(r, byte(h*16+v))
			h = -1
		}
	}
	if h >= 0 {
		r = append(r, byte(h*16))
	}
	return string(r)
}
