package main

import (
	"fmt"
	"math"
	"math/big"
	"strings"
)

// Integer encoding of queries that mix machine integers and floats. A
// bit-vector term t of width w is encoded as an integer expression e with a
// known range and e ≡ t (mod 2^w); comparisons, divisions and conversions
// reduce e to the unsigned or signed value of t where the range does not show
// that it already is. Terms outside the fragment (bitwise operations on two
// unknowns) make the query fall back to bit-vectors.

type iEnt struct {
	e      string // integer (or real, or Bool) expression
	lo, hi *big.Int
	ok     bool
	u, s   string
}

type IProc struct {
	*Proc
	m  map[int32]*iEnt
	fr map[int32]frEnt
}

func pow2(k int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(k)) }
func bigS(b *big.Int) string {
	if b.Sign() < 0 {
		return "(- " + new(big.Int).Neg(b).String() + ")"
	}
	return b.String()
}

func (p *IProc) fail(t *Term) *iEnt {
	e := &iEnt{}
	p.m[t.id] = e
	return e
}

func (p *IProc) def1(name, sort, body string) {
	fmt.Fprintf(&p.buf, "(define-fun %s () %s %s)\n", name, sort, body)
}

// U is the unsigned value of bit-vector t.
func (p *IProc) U(t *Term) (string, *big.Int, *big.Int, bool) {
	e := p.tr(t)
	if !e.ok {
		return "", nil, nil, false
	}
	w := int(t.w)
	if e.lo.Sign() >= 0 && e.hi.Cmp(pow2(w)) < 0 {
		return e.e, e.lo, e.hi, true
	}
	if e.u == "" {
		e.u = fmt.Sprintf("iu%d", t.id)
		if e.lo.Cmp(new(big.Int).Neg(pow2(w))) >= 0 && e.hi.Cmp(pow2(w)) < 0 {
			p.def1(e.u, "Int", fmt.Sprintf("(ite (< %s 0) (+ %s %s) %s)", e.e, e.e, pow2(w), e.e))
		} else {
			p.def1(e.u, "Int", fmt.Sprintf("(mod %s %s)", e.e, pow2(w)))
		}
	}
	return e.u, big.NewInt(0), new(big.Int).Sub(pow2(w), big.NewInt(1)), true
}

// S is the signed value of bit-vector t.
func (p *IProc) S(t *Term) (string, *big.Int, *big.Int, bool) {
	e := p.tr(t)
	if !e.ok {
		return "", nil, nil, false
	}
	w := int(t.w)
	h := pow2(w - 1)
	if e.lo.Cmp(new(big.Int).Neg(h)) >= 0 && e.hi.Cmp(h) < 0 {
		return e.e, e.lo, e.hi, true
	}
	if e.s == "" {
		u, _, _, _ := p.U(t)
		e.s = fmt.Sprintf("is%d", t.id)
		p.def1(e.s, "Int", fmt.Sprintf("(ite (>= %s %s) (- %s %s) %s)", u, h, u, pow2(w), u))
	}
	return e.s, new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1)), true
}

func (p *IProc) tz(t *Term) int {
	switch t.op {
	case OConst:
		if t.c == 0 {
			return int(t.w)
		}
		n := 0
		for t.c>>n&1 == 0 {
			n++
		}
		return n
	case OShl:
		if t.args[1].isC() && t.args[1].c < 64 {
			return min(int(t.w), int(t.args[1].c)+p.tz(t.args[0]))
		}
	case OZExt, OSExt:
		return p.tz(t.args[0])
	case OBOr:
		return min(p.tz(t.args[0]), p.tz(t.args[1]))
	case OLin:
		n := int(t.w)
		k := func(v uint64) int {
			j := 0
			for j < 64 && v>>j&1 == 0 {
				j++
			}
			return j
		}
		if t.c != 0 {
			n = min(n, k(t.c))
		}
		for i, a := range t.args {
			n = min(n, k(t.coef[i])+p.tz(a))
		}
		return n
	}
	return 0
}

func (p *IProc) sortI(t *Term) string {
	switch t.sort {
	case SBool:
		return "Bool"
	case SBV:
		return "Int"
	}
	return "Real"
}

// tr translates t, emitting its definition.
func (p *IProc) tr(t *Term) *iEnt {
	if e, ok := p.m[t.id]; ok {
		return e
	}
	if t.op == OConst {
		e := &iEnt{ok: true}
		switch t.sort {
		case SBV:
			v := new(big.Int).SetUint64(t.c)
			if t.w == 64 && t.c>>63 == 1 {
				v.Sub(v, pow2(64))
			}
			e.e, e.lo, e.hi = bigS(v), v, v
		default:
			e.e = p.ref(t)
		}
		p.m[t.id] = e
		return e
	}
	name := fmt.Sprintf("i%d", t.id)
	if t.op == OVar || t.op == OBlobLen || t.op == OBlobByte {
		if t.sort != SBV {
			name = p.ref(t)
		}
		fmt.Fprintf(&p.buf, "(declare-const %s %s)\n", name, p.sortI(t))
		e := &iEnt{e: name, ok: true}
		if t.sort == SBV {
			lo, hi := p.declRange(t)
			e.lo, e.hi = lo, hi
		}
		p.m[t.id] = e
		return e
	}
	body, lo, hi, ok := p.trBody(t)
	if !ok {
		return p.fail(t)
	}
	if t.sort == SBV && (lo.CmpAbs(pow2(90)) > 0 || hi.CmpAbs(pow2(90)) > 0) {
		body = fmt.Sprintf("(mod %s %s)", body, pow2(int(t.w)))
		lo, hi = big.NewInt(0), new(big.Int).Sub(pow2(int(t.w)), big.NewInt(1))
	}
	p.def1(name, p.sortI(t), body)
	e := &iEnt{e: name, lo: lo, hi: hi, ok: true}
	p.m[t.id] = e
	return e
}

func (p *IProc) declRange(t *Term) (lo, hi *big.Int) {
	l, h := t.lo, t.hi
	if t.op == OBlobLen {
		a, b := p.x.blobRange(t.blob)
		l, h = uint64(a), uint64(b)
	}
	if h == 0 {
		l, h = 0, mask(t.w)
	}
	return new(big.Int).SetUint64(l), new(big.Int).SetUint64(h)
}

func bmin(a ...*big.Int) *big.Int {
	r := a[0]
	for _, x := range a {
		if x.Cmp(r) < 0 {
			r = x
		}
	}
	return r
}
func bmax(a ...*big.Int) *big.Int {
	r := a[0]
	for _, x := range a {
		if x.Cmp(r) > 0 {
			r = x
		}
	}
	return r
}

func (p *IProc) trBody(t *Term) (s string, lo, hi *big.Int, ok bool) {
	for _, a := range t.args {
		if !p.tr(a).ok {
			return
		}
	}
	a := func(i int) string { return p.tr(t.args[i]).e }
	r := func(i int) *iEnt { return p.tr(t.args[i]) }
	big0 := big.NewInt(0)
	o2 := func(op string) string { return fmt.Sprintf("(%s %s %s)", op, a(0), a(1)) }
	switch t.op {
	case OEq:
		if t.args[0].sort != SBV {
			return o2("="), nil, nil, true
		}
		x, y := r(0), r(1)
		span := new(big.Int).Sub(bmax(x.hi, y.hi), bmin(x.lo, y.lo))
		if span.Cmp(pow2(int(t.args[0].w))) < 0 {
			return o2("="), nil, nil, true
		}
		u, _, _, _ := p.U(t.args[0])
		v, _, _, _ := p.U(t.args[1])
		return fmt.Sprintf("(= %s %s)", u, v), nil, nil, true
	case OULt, OULe:
		u, _, _, _ := p.U(t.args[0])
		v, _, _, _ := p.U(t.args[1])
		return fmt.Sprintf("(%s %s %s)", map[Op]string{OULt: "<", OULe: "<="}[t.op], u, v), nil, nil, true
	case OSLt, OSLe:
		u, _, _, _ := p.S(t.args[0])
		v, _, _, _ := p.S(t.args[1])
		return fmt.Sprintf("(%s %s %s)", map[Op]string{OSLt: "<", OSLe: "<="}[t.op], u, v), nil, nil, true
	case OIte:
		s = fmt.Sprintf("(ite %s %s %s)", a(0), a(1), a(2))
		if t.sort == SBV {
			return s, bmin(r(1).lo, r(2).lo), bmax(r(1).hi, r(2).hi), true
		}
		return s, nil, nil, true
	case OLin:
		k0 := new(big.Int).SetUint64(t.c)
		half := pow2(int(t.w) - 1)
		sg := func(v *big.Int) *big.Int {
			if v.Cmp(half) >= 0 {
				return new(big.Int).Sub(v, pow2(int(t.w)))
			}
			return v
		}
		k0 = sg(k0)
		lo, hi = new(big.Int).Set(k0), new(big.Int).Set(k0)
		parts := []string{bigS(k0)}
		for i := range t.args {
			k := sg(new(big.Int).SetUint64(t.coef[i]))
			e := r(i)
			p1, p2 := new(big.Int).Mul(k, e.lo), new(big.Int).Mul(k, e.hi)
			lo.Add(lo, bmin(p1, p2))
			hi.Add(hi, bmax(p1, p2))
			if k.IsInt64() && k.Int64() == 1 {
				parts = append(parts, e.e)
			} else {
				parts = append(parts, fmt.Sprintf("(* %s %s)", bigS(k), e.e))
			}
		}
		return "(+ " + strings.Join(parts, " ") + ")", lo, hi, true
	case OMul:
		x, y := r(0), r(1)
		var c []*big.Int
		for _, u := range []*big.Int{x.lo, x.hi} {
			for _, v := range []*big.Int{y.lo, y.hi} {
				c = append(c, new(big.Int).Mul(u, v))
			}
		}
		return o2("*"), bmin(c...), bmax(c...), true
	case OUDiv, OURem:
		u, l1, h1, _ := p.U(t.args[0])
		v, l2, h2, _ := p.U(t.args[1])
		if l2.Sign() <= 0 {
			l2 = big.NewInt(1)
		}
		if h2.Sign() <= 0 {
			return "", nil, nil, false
		}
		if t.op == OUDiv {
			return fmt.Sprintf("(div %s %s)", u, v), new(big.Int).Div(l1, h2), new(big.Int).Div(h1, l2), true
		}
		return fmt.Sprintf("(mod %s %s)", u, v), big0, bmin(h1, new(big.Int).Sub(h2, big.NewInt(1))), true
	case OSDiv, OSRem:
		u, l1, h1, _ := p.S(t.args[0])
		v, l2, h2, _ := p.S(t.args[1])
		var q string
		av := v
		switch {
		case l2.Sign() > 0:
		case h2.Sign() < 0:
			av = "(- " + v + ")"
		default:
			av = fmt.Sprintf("(ite (< %s 0) (- %s) %s)", v, v, v)
		}
		au := u
		switch {
		case l1.Sign() >= 0:
		case h1.Sign() <= 0:
			au = "(- " + u + ")"
		default:
			au = fmt.Sprintf("(ite (< %s 0) (- %s) %s)", u, u, u)
		}
		q = fmt.Sprintf("(div %s %s)", au, av)
		neg := ""
		switch {
		case l1.Sign() >= 0 && l2.Sign() >= 0:
		case l1.Sign() >= 0:
			neg = fmt.Sprintf("(< %s 0)", v)
		case l2.Sign() >= 0:
			neg = fmt.Sprintf("(< %s 0)", u)
		default:
			neg = fmt.Sprintf("(not (= (< %s 0) (< %s 0)))", u, v)
		}
		if neg != "" {
			q = fmt.Sprintf("(ite %s (- %s) %s)", neg, q, q)
		}
		m := bmax(new(big.Int).Abs(l1), new(big.Int).Abs(h1))
		if t.op == OSDiv {
			if t.args[1].isC() {
				d := new(big.Int).Abs(l2)
				if d.Sign() > 0 {
					m = new(big.Int).Div(m, d)
				}
			}
			if neg == "" {
				return q, big0, m, true
			}
			return q, new(big.Int).Neg(m), m, true
		}
		d := bmax(new(big.Int).Abs(l2), new(big.Int).Abs(h2))
		if d.Cmp(m) < 0 {
			m = d
		}
		lo = new(big.Int).Neg(m)
		if l1.Sign() >= 0 {
			lo = big0
		}
		return fmt.Sprintf("(- %s (* %s %s))", u, v, q), lo, m, true
	case OBAnd:
		i := 0
		if t.args[1].isC() {
			i = 1
		}
		if !t.args[i].isC() {
			return
		}
		k := t.args[i].c
		u, _, h, _ := p.U(t.args[1-i])
		if k == 0 {
			return "0", big0, big0, true
		}
		b := p.tz(t.args[i])
		n := 0
		for k>>(b+n)&1 == 1 && b+n < 64 {
			n++
		}
		if b+n < 64 && k>>(b+n) != 0 {
			return
		}
		mx := new(big.Int).SetUint64(k)
		e := u
		if b > 0 {
			e = fmt.Sprintf("(div %s %s)", e, pow2(b))
		}
		if h.Cmp(mx) > 0 {
			e = fmt.Sprintf("(mod %s %s)", e, pow2(n))
		} else {
			mx = h
		}
		if b > 0 {
			e = fmt.Sprintf("(* %s %s)", pow2(b), e)
		}
		return e, big0, mx, true
	case OBOr:
		u, l1, h1, _ := p.U(t.args[0])
		v, l2, h2, _ := p.U(t.args[1])
		if h2.Cmp(pow2(p.tz(t.args[0]))) >= 0 && h1.Cmp(pow2(p.tz(t.args[1]))) >= 0 {
			return
		}
		return fmt.Sprintf("(+ %s %s)", u, v), new(big.Int).Add(l1, l2), new(big.Int).Add(h1, h2), true
	case OBXor:
		i := 0
		if t.args[1].isC() {
			i = 1
		}
		if !t.args[i].isC() || t.args[i].c != mask(t.w) {
			return
		}
		e := r(1 - i)
		m1 := big.NewInt(-1)
		return fmt.Sprintf("(- (- 1) %s)", e.e), new(big.Int).Sub(m1, e.hi), new(big.Int).Sub(m1, e.lo), true
	case OShl:
		if !t.args[1].isC() || t.args[1].c >= 64 {
			return
		}
		k := pow2(int(t.args[1].c))
		return fmt.Sprintf("(* %s %s)", k, a(0)), new(big.Int).Mul(k, r(0).lo), new(big.Int).Mul(k, r(0).hi), true
	case OLShr, OAShr:
		if !t.args[1].isC() || t.args[1].c >= 64 {
			return
		}
		k := pow2(int(t.args[1].c))
		u, l, h, _ := p.U(t.args[0])
		if t.op == OAShr {
			u, l, h, _ = p.S(t.args[0])
		}
		return fmt.Sprintf("(div %s %s)", u, k), new(big.Int).Div(l, k), new(big.Int).Div(h, k), true
	case OZExt:
		return p.U(t.args[0])
	case OSExt:
		return p.S(t.args[0])
	case OExtract:
		if t.c == 0 {
			return a(0), r(0).lo, r(0).hi, true
		}
		u, l, h, _ := p.U(t.args[0])
		k := pow2(int(t.c))
		return fmt.Sprintf("(div %s %s)", u, k), new(big.Int).Div(l, k), new(big.Int).Div(h, k), true
	case OFFromS:
		e, _, _, _ := p.S(t.args[0])
		return "(to_real " + e + ")", nil, nil, true
	case OFFromU:
		e, _, _, _ := p.U(t.args[0])
		return "(to_real " + e + ")", nil, nil, true
	case OFToS, OFToU:
		v := a(0)
		lo, hi = new(big.Int).Neg(pow2(62)), pow2(62)
		if l, h, o := p.frange(t.args[0]); o && l > -4e18 && h < 4e18 {
			lo, hi = big.NewInt(int64(l)-1), big.NewInt(int64(h)+1)
			if l >= 0 {
				return "(to_int " + v + ")", big0, hi, true
			}
		}
		return fmt.Sprintf("(ite (>= %s 0.0) (to_int %s) (- (to_int (- %s))))", v, v, v), lo, hi, true
	case OUF:
		key := t.name
		if !p.ufd[key] {
			p.ufd[key] = true
			fmt.Fprintf(&p.buf, "(declare-fun |%s| (", key)
			for _, x := range t.args {
				p.buf.WriteString(p.sortI(x) + " ")
			}
			fmt.Fprintf(&p.buf, ") %s)\n", p.sortI(t))
		}
		s = "(|" + t.name + "|"
		for i, x := range t.args {
			if x.sort == SBV {
				u, _, _, _ := p.U(x)
				s += " " + u
			} else {
				s += " " + a(i)
			}
		}
		if t.sort == SBV {
			lo, hi = p.declRange(t)
		}
		return s + ")", lo, hi, true
	case OFSqrt:
		if !p.ufd["sqrt"] {
			p.ufd["sqrt"] = true
			p.buf.WriteString("(declare-fun sqrt (Real) Real)\n")
		}
		return "(sqrt " + a(0) + ")", nil, nil, true
	}
	if t.sort == SBV {
		return
	}
	switch t.op {
	case ONot, OAnd, OFLt, OFLe, OFAdd, OFSub, OFMul, OFDiv, OFNeg, OFAbs, OFFloor, OFCeil, OFTrunc, OFRound, OFRoundEven, OF32:
		// same as in the exact-real encoding, over the translated arguments
		save := p.buf.String()
		p.buf.Reset()
		p.refI = func(x *Term) string { return p.tr(x).e }
		p.body(t)
		p.refI = nil
		s = p.buf.String()
		p.buf.Reset()
		p.buf.WriteString(save)
		return s, nil, nil, true
	}
	return
}

type frEnt struct {
	lo, hi float64
	ok     bool
}

// frange is an interval that contains the value of a float term, whatever the
// variables in their declared ranges are.
func (p *IProc) frange(t *Term) (float64, float64, bool) {
	if e, ok := p.fr[t.id]; ok {
		return e.lo, e.hi, e.ok
	}
	lo, hi, ok := p.frange1(t)
	if ok && t.op != OConst && t.op != OVar {
		m := 1e-9 * (1 + math.Abs(lo) + math.Abs(hi))
		lo, hi = lo-m, hi+m
	}
	if math.IsNaN(lo) || math.IsNaN(hi) || math.IsInf(lo, 0) || math.IsInf(hi, 0) {
		ok = false
	}
	p.fr[t.id] = frEnt{lo, hi, ok}
	return lo, hi, ok
}

func (p *IProc) frange1(t *Term) (lo, hi float64, ok bool) {
	r := func(i int) (float64, float64, bool) { return p.frange(t.args[i]) }
	all := func(v ...float64) (float64, float64, bool) {
		lo, hi = v[0], v[0]
		for _, x := range v {
			lo, hi = math.Min(lo, x), math.Max(hi, x)
		}
		return lo, hi, true
	}
	switch t.op {
	case OConst:
		return t.f(), t.f(), true
	case OVar:
		if t.lo != 0 || t.hi != 0 {
			return math.Float64frombits(t.lo), math.Float64frombits(t.hi), true
		}
	case OFAdd, OFSub, OFMul, OFDiv:
		a, b, o := r(0)
		c, d, o2 := r(1)
		if !o || !o2 {
			return
		}
		switch t.op {
		case OFAdd:
			return a + c, b + d, true
		case OFSub:
			return a - d, b - c, true
		case OFMul:
			return all(a*c, a*d, b*c, b*d)
		}
		if c > 1e-6 || d < -1e-6 {
			return all(a/c, a/d, b/c, b/d)
		}
	case OFNeg:
		a, b, o := r(0)
		return -b, -a, o
	case OFAbs:
		a, b, o := r(0)
		if a >= 0 {
			return a, b, o
		}
		return 0, math.Max(-a, b), o
	case OFFloor, OFCeil, OFTrunc, OFRound, OFRoundEven:
		a, b, o := r(0)
		return a - 1, b + 1, o
	case OF32:
		a, b, o := r(0)
		return a - math.Abs(a)*1e-6, b + math.Abs(b)*1e-6, o
	case OIte:
		a, b, o := r(1)
		c, d, o2 := r(2)
		return math.Min(a, c), math.Max(b, d), o && o2
	case OFFromS, OFFromU:
		var e string
		var l, h *big.Int
		if t.op == OFFromS {
			e, l, h, ok = p.S(t.args[0])
		} else {
			e, l, h, ok = p.U(t.args[0])
		}
		if ok && e != "" {
			lo, _ = new(big.Float).SetInt(l).Float64()
			hi, _ = new(big.Float).SetInt(h).Float64()
			return lo, hi, true
		}
	}
	return 0, 0, false
}

// sideI asserts the declared ranges of everything t uses.
func (p *IProc) sideI(t *Term, seen map[int32]bool) {
	if t.op == OConst || seen[t.id] {
		return
	}
	seen[t.id] = true
	if t.sort == SBV && (t.op == OVar || t.op == OUF || t.op == OBlobLen || t.op == OBlobByte) {
		lo, hi := p.declRange(t)
		fmt.Fprintf(&p.buf, "(assert (<= %s %s %s))\n", lo, p.tr(t).e, hi)
	}
	if t.sort == SF64 && t.op == OVar {
		p.side(t, map[int32]bool{})
	}
	for _, a := range t.args {
		p.sideI(a, seen)
	}
}

func NewIProc(x *Ctx, kind int) *IProc {
	p := &IProc{Proc: &Proc{x: x, kind: kind}, m: map[int32]*iEnt{}, fr: map[int32]frEnt{}}
	p.start()
	return p
}

// CheckI decides the query in the integer encoding; tried is false when it
// is outside the encoding.
func (p *IProc) CheckI(as, vars []*Term, timeoutMS int) (res Res, m Model, tried bool) {
	if p.dead {
		p.start()
		p.m = map[int32]*iEnt{}
		p.fr = map[int32]frEnt{}
	}
	p.buf.Reset()
	for _, a := range append(append([]*Term{}, as...), vars...) {
		if !p.tr(a).ok {
			// keep what was defined
			io := p.buf.String()
			p.in.Write([]byte(io))
			return Unknown, nil, false
		}
	}
	if p.kind != 2 {
		fmt.Fprintf(&p.buf, "(set-option :timeout %d)\n", timeoutMS)
	}
	p.buf.WriteString("(push)\n")
	seen := map[int32]bool{}
	for _, a := range as {
		p.sideI(a, seen)
	}
	for _, v := range vars {
		p.sideI(v, seen)
	}
	for _, a := range as {
		fmt.Fprintf(&p.buf, "(assert %s)\n", p.tr(a).e)
	}
	res, m = p.run(vars, func(v *Term) string { return p.tr(v).e }, timeoutMS)
	return res, m, true
}
