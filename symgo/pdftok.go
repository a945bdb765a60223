package main

// Shared PDF tokenizer: compiled into the engine (segments from ropes) and, with
// the package clause rewritten, into the native replay harness (one literal segment).

type zSeg struct {
	Lit string
	Ref int  // >=0: non-literal segment
	Num bool // formatted number (dec / float)
}

type zTok struct {
	K    byte // 'n' number, '/' name, '(' string, '<' hex string, 'k' keyword, 's' stream data, 'x' mixed, 'e' error, and [ ] d(<<) D(>>)
	S    string
	Raw  []zSeg
	Ref  int // segment of a numeric token, or of the numeric tail of a name
	Tail bool
	Seg  int
	In   int
	ESeg int
	EIn  int
}

func zDelim(c byte) bool {
	return c == '(' || c == ')' || c == '<' || c == '>' || c == '[' || c == ']' || c == '/' || c == '%' || c == '{' || c == '}'
}
func zSpace(c byte) bool {
	return c == ' ' || c == '\n' || c == '\r' || c == '\t' || c == '\f' || c == 0
}

type zLex struct {
	segs []zSeg
	s, i int
}

func (z *zLex) skipEmpty() {
	for z.s < len(z.segs) && z.segs[z.s].Ref < 0 && z.i >= len(z.segs[z.s].Lit) {
		z.s++
		z.i = 0
	}
}

// peek: kind 0 end, 1 literal byte, 2 symbolic segment
func (z *zLex) peek() (int, byte) {
	z.skipEmpty()
	if z.s >= len(z.segs) {
		return 0, 0
	}
	if z.segs[z.s].Ref >= 0 {
		return 2, 0
	}
	return 1, z.segs[z.s].Lit[z.i]
}
func (z *zLex) adv() {
	if z.segs[z.s].Ref >= 0 {
		z.s++
		z.i = 0
	} else {
		z.i++
	}
}

func (z *zLex) lit(s string) bool { // literal lookahead within the current segment
	z.skipEmpty()
	if z.s >= len(z.segs) || z.segs[z.s].Ref >= 0 {
		return false
	}
	l := z.segs[z.s].Lit
	return len(l)-z.i >= len(s) && l[z.i:z.i+len(s)] == s
}

func zAppend(raw []zSeg, lit string, sg *zSeg) []zSeg {
	if sg != nil {
		return append(raw, *sg)
	}
	if n := len(raw); n > 0 && raw[n-1].Ref < 0 {
		raw[n-1].Lit += lit
		return raw
	}
	return append(raw, zSeg{Lit: lit, Ref: -1})
}

func zIndex(s, sub string, from int) int {
	for i := from; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return i
		}
	}
	return -1
}

// ZTokenize splits PDF syntax. With file set, "stream" introduces raw data up to "endstream".
func zTokenize(segs []zSeg, file bool) []zTok {
	z := &zLex{segs: segs}
	var out []zTok
	for {
		k, c := z.peek()
		if k == 0 {
			return out
		}
		if k == 1 && zSpace(c) {
			z.adv()
			continue
		}
		t := zTok{Seg: z.s, In: z.i, Ref: -1}
		if k == 1 {
			switch {
			case c == '%':
				for {
					k, c := z.peek()
					if k == 0 || k == 1 && (c == '\n' || c == '\r') {
						break
					}
					z.adv()
				}
				continue
			case z.lit("<<"):
				t.K = 'd'
				z.adv()
				z.adv()
				t.ESeg, t.EIn = z.s, z.i
				out = append(out, t)
				continue
			case z.lit(">>"):
				t.K = 'D'
				z.adv()
				z.adv()
				t.ESeg, t.EIn = z.s, z.i
				out = append(out, t)
				continue
			case c == '[' || c == ']' || c == '{' || c == '}':
				t.K = c
				z.adv()
				t.ESeg, t.EIn = z.s, z.i
				out = append(out, t)
				continue
			case c == '(':
				z.adv()
				depth := 1
				esc := false
				for {
					k, c := z.peek()
					if k == 0 {
						t.K = 'e'
						break
					}
					if k == 2 {
						esc = false
						t.Raw = zAppend(t.Raw, "", &z.segs[z.s])
						z.adv()
						continue
					}
					if !esc && c == ')' {
						depth--
						if depth == 0 {
							z.adv()
							t.K = '('
							break
						}
					} else if !esc && c == '(' {
						depth++
					}
					esc = !esc && c == '\\'
					t.Raw = zAppend(t.Raw, string([]byte{c}), nil)
					z.adv()
				}
				t.ESeg, t.EIn = z.s, z.i
				out = append(out, t)
				continue
			case c == '<':
				z.adv()
				for {
					k, c := z.peek()
					if k == 0 {
						t.K = 'e'
						break
					}
					if k == 2 {
						t.Raw = zAppend(t.Raw, "", &z.segs[z.s])
						z.adv()
						continue
					}
					z.adv()
					if c == '>' {
						t.K = '<'
						break
					}
					t.Raw = zAppend(t.Raw, string([]byte{c}), nil)
				}
				t.ESeg, t.EIn = z.s, z.i
				out = append(out, t)
				continue
			case c == ')' || c == '>':
				t.K = 'e'
				z.adv()
				t.ESeg, t.EIn = z.s, z.i
				out = append(out, t)
				continue
			}
		}
		// regular token: name, number, keyword
		first := true
		name := k == 1 && c == '/'
		if name {
			z.adv()
		}
		for {
			k, c := z.peek()
			if k == 0 {
				break
			}
			if k == 2 {
				t.Raw = zAppend(t.Raw, "", &z.segs[z.s])
				z.adv()
				first = false
				continue
			}
			if zSpace(c) || zDelim(c) {
				break
			}
			_ = first
			first = false
			t.Raw = zAppend(t.Raw, string([]byte{c}), nil)
			z.adv()
		}
		t.ESeg, t.EIn = z.s, z.i
		if name {
			t.K = '/'
			if len(t.Raw) == 2 && t.Raw[0].Ref < 0 && t.Raw[1].Ref >= 0 && t.Raw[1].Num {
				t.S = t.Raw[0].Lit
				t.Ref = t.Raw[1].Ref
				t.Tail = true
			} else if len(t.Raw) == 1 && t.Raw[0].Ref < 0 {
				s := t.Raw[0].Lit
				j := len(s)
				for j > 0 && s[j-1] >= '0' && s[j-1] <= '9' {
					j--
				}
				for j < len(s)-1 && s[j] == '0' {
					j++ // leading zeros belong to the name
				}
				t.S = s
				if j < len(s) && j > 0 && len(s)-j < 10 {
					t.Tail = true
					t.S = s[:j]
					t.Raw = []zSeg{{Lit: s[j:], Ref: -1}}
				}
			} else if len(t.Raw) == 0 {
				t.S = ""
			} else {
				t.K = 'x'
			}
			out = append(out, t)
			continue
		}
		if len(t.Raw) == 1 && t.Raw[0].Ref >= 0 && t.Raw[0].Num {
			t.K = 'n'
			t.Ref = t.Raw[0].Ref
			out = append(out, t)
			continue
		}
		if len(t.Raw) == 2 && t.Raw[0].Ref < 0 && zZeros(t.Raw[0].Lit) && t.Raw[1].Ref >= 0 && t.Raw[1].Num {
			// zero-padded number
			t.K = 'n'
			t.Ref = t.Raw[1].Ref
			out = append(out, t)
			continue
		}
		if len(t.Raw) == 1 && t.Raw[0].Ref < 0 {
			s := t.Raw[0].Lit
			t.S = s
			num, dig := true, false
			for i := 0; i < len(s); i++ {
				if s[i] >= '0' && s[i] <= '9' {
					dig = true
				} else if !(s[i] == '.' || (s[i] == '-' || s[i] == '+') && i == 0) {
					num = false
				}
			}
			if num && dig {
				t.K = 'n'
			} else {
				t.K = 'k'
			}
			out = append(out, t)
			if file && s == "stream" {
				if z.lit("\r\n") {
					z.adv()
					z.adv()
				} else if z.lit("\n") {
					z.adv()
				}
				d := zTok{K: 's', Seg: z.s, In: z.i, Ref: -1}
				for {
					z.skipEmpty()
					if z.s >= len(z.segs) {
						d.K = 'e'
						break
					}
					if z.segs[z.s].Ref >= 0 {
						d.Raw = zAppend(d.Raw, "", &z.segs[z.s])
						z.adv()
						continue
					}
					l := z.segs[z.s].Lit
					j := zIndex(l, "endstream", z.i)
					if j < 0 {
						d.Raw = zAppend(d.Raw, l[z.i:], nil)
						z.s++
						z.i = 0
						continue
					}
					d.Raw = zAppend(d.Raw, l[z.i:j], nil)
					z.i = j
					break
				}
				d.ESeg, d.EIn = z.s, z.i
				out = append(out, d)
			}
			continue
		}
		t.K = 'x'
		out = append(out, t)
	}
}

func zZeros(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] != '0' {
			return false
		}
	}
	return true
}
