package gopdf

// c15L is a letter of the Arabic block, from the Unicode character database: its
// presentation forms start at first, in the order isolated, final, initial,
// medial. Letters with two forms join only to what is before them; the hamza
// joins to nothing.
type c15L struct {
	base, first rune
	n           int
}

var c15Table = []c15L{
	{0x621, 0xFE80, 1}, {0x622, 0xFE81, 2}, {0x623, 0xFE83, 2}, {0x624, 0xFE85, 2}, {0x625, 0xFE87, 2},
	{0x626, 0xFE89, 4}, {0x627, 0xFE8D, 2}, {0x628, 0xFE8F, 4}, {0x629, 0xFE93, 2}, {0x62A, 0xFE95, 4},
	{0x62B, 0xFE99, 4}, {0x62C, 0xFE9D, 4}, {0x62D, 0xFEA1, 4}, {0x62E, 0xFEA5, 4}, {0x62F, 0xFEA9, 2},
	{0x630, 0xFEAB, 2}, {0x631, 0xFEAD, 2}, {0x632, 0xFEAF, 2}, {0x633, 0xFEB1, 4}, {0x634, 0xFEB5, 4},
	{0x635, 0xFEB9, 4}, {0x636, 0xFEBD, 4}, {0x637, 0xFEC1, 4}, {0x638, 0xFEC5, 4}, {0x639, 0xFEC9, 4},
	{0x63A, 0xFECD, 4}, {0x641, 0xFED1, 4}, {0x642, 0xFED5, 4}, {0x643, 0xFED9, 4}, {0x644, 0xFEDD, 4},
	{0x645, 0xFEE1, 4}, {0x646, 0xFEE5, 4}, {0x647, 0xFEE9, 4}, {0x648, 0xFEED, 2}, {0x649, 0xFEEF, 2},
	{0x64A, 0xFEF1, 4}, {0x67E, 0xFB56, 4}, {0x686, 0xFB7A, 4}, {0x698, 0xFB8A, 2}, {0x6A9, 0xFB8E, 4},
	{0x6AF, 0xFB92, 4}, {0x6CC, 0xFBFC, 4}, {0x640, 0x640, 3},
}

func c15Mark(r rune) bool { return vOr(vAnd(r >= 0x64B, r <= 0x658), r == 0x670) }

func c15Find(r rune) *c15L {
	if r < 0x600 || r > 0x6FF {
		return nil
	}
	for i := range c15Table {
		if c15Table[i].base == r {
			return &c15Table[i]
		}
	}
	return nil
}

// c15In says that a character is one the statement is about: a letter of the
// table, a mark, a digit or anything outside the Arabic block.
func c15In(r rune) bool {
	ok := vOr(vOr(r < 0x600, r > 0x6FF), vOr(c15Mark(r), vAnd(r >= 0x660, r <= 0x669)))
	for i := range c15Table {
		ok = vOr(ok, r == c15Table[i].base)
	}
	return ok
}

type c15G struct {
	base, alt rune
	marks     []rune
}

// c15Pairs combines a vowel and a shadda after it.
func c15Pairs(m []rune) []rune {
	var r []rune
	for i := 0; i < len(m); i++ {
		if i+1 < len(m) && m[i+1] == 0x651 {
			c := rune(0)
			switch m[i] {
			case 0x64C:
				c = 0xFC5E
			case 0x64D:
				c = 0xFC5F
			case 0x64E:
				c = 0xFC60
			case 0x64F:
				c = 0xFC61
			case 0x650:
				c = 0xFC62
			case 0x670:
				c = 0xFC63
			}
			if c != 0 {
				r = append(r, c)
				i++
				continue
			}
		}
		r = append(r, m[i])
	}
	return r
}

// c15Want shapes a text as the Unicode standard says and puts it in visual order.
func c15Want(rs []rune) ([]c15G, bool) {
	type ch struct {
		r     rune
		l     *c15L
		marks []rune
	}
	var cs []ch
	var lead []rune
	for _, r := range rs {
		if c15Mark(r) {
			if len(cs) == 0 {
				lead = append(lead, r)
			} else {
				c := &cs[len(cs)-1]
				c.marks = append(c.marks, r)
			}
			continue
		}
		cs = append(cs, ch{r: r, l: c15Find(r)})
	}
	left := func(i int) bool { // joins to what follows
		return i >= 0 && i < len(cs) && cs[i].l != nil && cs[i].l.n >= 3
	}
	right := func(i int) bool { // joins to what is before
		return i >= 0 && i < len(cs) && cs[i].l != nil && cs[i].l.n >= 2
	}
	var out []c15G
	for _, m := range c15Pairs(lead) {
		out = append(out, c15G{base: m})
	}
	fuzzy := false
	for i := 0; i < len(cs); i++ {
		c := cs[i]
		g := c15G{base: c.r, marks: c15Pairs(c.marks)}
		if i+3 < len(cs) && c.r == 0x627 && cs[i+1].r == 0x644 && cs[i+2].r == 0x644 && cs[i+3].r == 0x647 &&
			len(c.marks)+len(cs[i+1].marks)+len(cs[i+2].marks) == 0 && !left(i-1) && !right(i+4) {
			out = append(out, c15G{base: 0xFDF2, marks: c15Pairs(cs[i+3].marks)})
			i += 3
			continue
		}
		if c.l == nil {
			out = append(out, g)
			continue
		}
		prev := right(i) && left(i-1)
		if c.r == 0x644 && i+1 < len(cs) {
			lig := rune(0)
			switch cs[i+1].r {
			case 0x627:
				lig = 0xFEFB
			case 0x623:
				lig = 0xFEF7
			case 0x622, 0x625:
				return nil, false
			}
			if lig != 0 {
				if prev {
					lig++
				}
				fuzzy = fuzzy || len(c.marks) > 0
				all := append(append([]rune{}, c.marks...), c15Pairs(cs[i+1].marks)...)
				if len(c.marks) > 0 && len(cs[i+1].marks) > 0 {
					return nil, false
				}
				out = append(out, c15G{base: lig, marks: all})
				i++
				continue
			}
		}
		next := left(i) && right(i+1)
		switch {
		case c.l.n == 3:
		case prev && next:
			g.base = c.l.first + 3
		case prev:
			g.base = c.l.first + 1
		case next:
			g.base = c.l.first + 2
		default:
			g.base, g.alt = c.l.first, c.r
		}
		out = append(out, g)
	}
	// marks between lam and alef may be combined or not
	if fuzzy {
		for _, g := range out {
			for _, m := range g.marks {
				if m == 0x651 {
					return nil, false
				}
			}
		}
	}
	return out, true
}

func c15Check(rs []rune) {
	s := ""
	for _, r := range rs {
		s += string(r)
	}
	got := []rune(ToArabic(s))
	want, ok := c15Want(rs)
	if !ok {
		return
	}
	k := 0
	for i := len(want) - 1; i >= 0; i-- {
		g := want[i]
		for _, m := range g.marks {
			vAssert(k < len(got) && got[k] == m, "every mark is kept, before its letter")
			k++
		}
		vAssert(k < len(got) && (got[k] == g.base || g.alt != 0 && got[k] == g.alt), "every letter has the form that its neighbours ask for, from right to left")
		k++
	}
	vAssert(k == len(got), "nothing is added")
	vReach("shaped")
}

// Any two characters (thorough: three), of the whole Arabic block and outside of it.
// symgo time=20s ttime=300s paths=400000
func H_C15_pairs() {
	var rs []rune
	for i := 0; i < 2+vTier(); i++ {
		r := vRune("r"+vItoa(i), 0x20, 0x6FF)
		vAssume(c15In(r))
		rs = append(rs, r)
	}
	c15Check(rs)
}

var c15Some = []rune{0x628, 0x627, 0x621, 0x644, 0x640, 0x698, 0x629, 0x64E, 'a', 0}

// Any character between any two others of every kind.
// symgo time=30s
func H_C15_middle() {
	r := vRune("r", 0x20, 0x6FF)
	vAssume(c15In(r))
	var rs []rune
	if a := c15Some[vChoice("a", len(c15Some))]; a != 0 {
		rs = append(rs, a)
	}
	rs = append(rs, r)
	if b := c15Some[vChoice("b", len(c15Some))]; b != 0 {
		rs = append(rs, b)
	}
	c15Check(rs)
}

// Letters and marks of every kind in any order.
// symgo time=30s ttime=200s
func H_C15_marks() {
	set := []rune{0x628, 0x644, 0x627, 0x64E, 0x651, 0x64B, ' '}
	var rs []rune
	for i := 0; i < 6+vTier(); i++ {
		rs = append(rs, set[vChoice("r"+vItoa(i), len(set))])
	}
	c15Check(rs)
}

// Any mark, before, after and between others, on a letter and on a ligature.
func H_C15_mark() {
	m := vRune("m", 0x64B, 0x670)
	vAssume(c15Mark(m))
	n := []rune{0x64E, 0x651, 0x652}[vChoice("n", 3)]
	f := [][]rune{{0x628, m}, {m, 0x628}, {0x628, m, n, 0x62C}, {0x628, n, m, 0x62C}, {0x633, 0x644, m, 0x627, 0x628}, {0x633, 0x644, 0x627, m, n, 0x628}, {0x627, m, 0x628}, {' ', m, 0x628}, {m, n}}
	c15Check(f[vChoice("f", len(f))])
}

// The name of God with any character before and after it, and marks.
// symgo time=20s
func H_C15_name() {
	var rs []rune
	word := []rune{0x627, 0x644, 0x644, 0x647}
	r := vRune("r", 0x20, 0x6FF)
	vAssume(c15In(r))
	at := vChoice("at", 8)
	switch at {
	case 0:
		rs = append(append(rs, r), word...)
	case 1:
		rs = append(append(rs, word...), r)
	case 2:
		rs = append(append(append(rs, word...), 0x64F), r)
	case 3, 4, 5, 6:
		rs = append(append(append(rs, word[:at-2]...), r), word[at-2:]...)
	case 7:
		rs = append(append(append(append(rs, word...), ' '), word...), r)
	}
	c15Check(rs)
}
