package gopdf

// vNormStr replaces every string of the document by its value: escapes and hex
// digits resolved and, in an unlocked document, decrypted.
func (d *vDoc) vNormStr() {
	enc := 0
	if d.Trailer.has("Encrypt") {
		enc = d.Trailer.get("Encrypt").I
	}
	for _, o := range d.Objs {
		if o.Num != enc {
			d.normVal(o.Num, o.O)
		}
	}
}

func (d *vDoc) normVal(n int, v *vO) {
	if v == nil {
		return
	}
	if v.K == '(' || v.K == '<' {
		v.S = d.text(n, v)
		v.K = '('
	}
	for _, x := range v.Vals {
		d.normVal(n, x)
	}
}

// vUTF16 is the text of a title or document-info string (UTF-16, big endian, with mark).
func vUTF16(s string) (string, bool) {
	if len(s) < 2 || len(s)%2 != 0 || s[0] != 0xFE || s[1] != 0xFF {
		return "", false
	}
	var r []rune
	for i := 2; i < len(s); i += 2 {
		c := rune(s[i])<<8 | rune(s[i+1])
		if c >= 0xD800 && c < 0xDC00 && i+3 < len(s) {
			c2 := rune(s[i+2])<<8 | rune(s[i+3])
			c = 0x10000 + (c-0xD800)<<10 + (c2 - 0xDC00)
			i += 2
		}
		r = append(r, c)
	}
	return string(r), true
}
