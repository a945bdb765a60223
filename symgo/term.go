package main

// Hash-consed term DAG over Bool, bit-vectors and doubles, with a native
// evaluator (exact Go semantics) and SMT-LIB printer (printer in solver.go).

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strings"
)

type Sort uint8

const (
	SBool Sort = iota
	SBV
	SF64
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OLin // bitvector linear sum: c + sum coef_i * args_i
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLShr
	OAShr
	OZExt
	OSExt
	OExtract // c = lo ; width from w
	OULt
	OULe
	OSLt
	OSLe
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFAbs
	OFSqrt
	OFFloor
	OFCeil
	OFTrunc
	OFRound
	OFRoundEven
	OFLt
	OFLe
	OFFromS // signed bv -> f64
	OFFromU
	OFToS // f64 -> signed bv (trunc)
	OFToU
	OF32 // round to float32
	OUF  // uninterpreted: name, args, evaluator
	OBlobLen
	OBlobByte // c = index
)

type Term struct {
	op     Op
	sort   Sort
	w      uint8
	id     int32
	c      uint64
	name   string
	args   []*Term
	coef   []uint64
	blob   *Blob
	vars   []int32 // sorted var ids
	size   int32
	hasF   bool
	opaq   bool   // contains blob/uf terms
	lo, hi uint64 // for vars: declared range (unsigned raw bits), informational
	// cached unsigned range
	rl, rh uint64
	rs     uint8 // 0 not computed, 1 ok, 2 unknown
	// eval cache
	ep  int64
	val uint64
	// solver: defined generation
	defGen int32
}

type tkey struct {
	op      Op
	sort    Sort
	w       uint8
	c       uint64
	name    string
	a, b, d int32
}

type Ctx struct {
	tab         map[tkey]*Term
	tabS        map[string]*Term
	n           int32
	True, False *Term
	epoch       int64
	ufs         map[string]func(args []uint64) uint64
	blobs       map[string]*Blob
	nblob       int
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[tkey]*Term{}, tabS: map[string]*Term{}, ufs: map[string]func([]uint64) uint64{}, blobs: map[string]*Blob{}}
	c.True = c.mk(&Term{op: OConst, sort: SBool, c: 1})
	c.False = c.mk(&Term{op: OConst, sort: SBool, c: 0})
	return c
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (x *Ctx) mk(t *Term) *Term {
	var k tkey
	var ks string
	useS := len(t.args) > 3 || t.op == OLin || t.op == OUF || t.blob != nil
	if useS {
		var sb strings.Builder
		fmt.Fprintf(&sb, "%d,%d,%d,%d,%s", t.op, t.sort, t.w, t.c, t.name)
		if t.blob != nil {
			fmt.Fprintf(&sb, "!%d", t.blob.id)
		}
		for i, a := range t.args {
			fmt.Fprintf(&sb, ";%d", a.id)
			if t.coef != nil {
				fmt.Fprintf(&sb, "*%d", t.coef[i])
			}
		}
		ks = sb.String()
		if r, ok := x.tabS[ks]; ok {
			return r
		}
	} else {
		k = tkey{op: t.op, sort: t.sort, w: t.w, c: t.c, name: t.name, a: -1, b: -1, d: -1}
		if len(t.args) > 0 {
			k.a = t.args[0].id
		}
		if len(t.args) > 1 {
			k.b = t.args[1].id
		}
		if len(t.args) > 2 {
			k.d = t.args[2].id
		}
		if r, ok := x.tab[k]; ok {
			return r
		}
	}
	t.id = x.n
	x.n++
	t.size = 1
	if t.op == OVar {
		t.vars = []int32{t.id}
	}
	if t.sort == SF64 {
		t.hasF = true
	}
	if t.op == OUF || t.op == OBlobLen || t.op == OBlobByte {
		t.opaq = true
		if t.blob != nil {
			for _, v := range t.blob.vars() {
				t.vars = append(t.vars, v)
			}
			sort.Slice(t.vars, func(i, j int) bool { return t.vars[i] < t.vars[j] })
		}
	}
	for _, a := range t.args {
		t.size += a.size
		if t.size > 1<<28 {
			t.size = 1 << 28
		}
		t.hasF = t.hasF || a.hasF
		t.opaq = t.opaq || a.opaq
		t.vars = mergeVars(t.vars, a.vars)
	}
	if useS {
		x.tabS[ks] = t
	} else {
		x.tab[k] = t
	}
	return t
}

func mergeVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// quick subset checks
	if len(a) == len(b) {
		same := true
		for i := range a {
			if a[i] != b[i] {
				same = false
				break
			}
		}
		if same {
			return a
		}
	}
	r := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i] < b[j]):
			r = append(r, a[i])
			i++
		case i >= len(a) || b[j] < a[i]:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	return r
}

func (x *Ctx) BVc(v uint64, w uint8) *Term {
	return x.mk(&Term{op: OConst, sort: SBV, w: w, c: v & mask(w)})
}
func (x *Ctx) Fc(f float64) *Term {
	return x.mk(&Term{op: OConst, sort: SF64, w: 64, c: math.Float64bits(f)})
}
func (x *Ctx) Bool(b bool) *Term {
	if b {
		return x.True
	}
	return x.False
}
func (x *Ctx) Var(name string, s Sort, w uint8) *Term {
	return x.mk(&Term{op: OVar, sort: s, w: w, name: name})
}
func (t *Term) isC() bool  { return t.op == OConst }
func (t *Term) f() float64 { return math.Float64frombits(t.c) }
func (x *Ctx) Not(a *Term) *Term {
	if a.isC() {
		return x.Bool(a.c == 0)
	}
	if a.op == ONot {
		return a.args[0]
	}
	return x.mk(&Term{op: ONot, sort: SBool, args: []*Term{a}})
}
func (x *Ctx) And(a, b *Term) *Term {
	if a.isC() {
		if a.c == 0 {
			return a
		}
		return b
	}
	if b.isC() {
		if b.c == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if a.op == ONot && a.args[0] == b || b.op == ONot && b.args[0] == a {
		return x.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return x.mk(&Term{op: OAnd, sort: SBool, args: []*Term{a, b}})
}
func (x *Ctx) Or(a, b *Term) *Term {
	return x.Not(x.And(x.Not(a), x.Not(b)))
}
func (x *Ctx) Ite(c, a, b *Term) *Term {
	if c.isC() {
		if c.c != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		return x.Ite(c.args[0], b, a)
	}
	if a.sort == SBool {
		if a.isC() && b.isC() {
			if a.c != 0 {
				return c
			}
			return x.Not(c)
		}
		return x.Or(x.And(c, a), x.And(x.Not(c), b))
	}
	return x.mk(&Term{op: OIte, sort: a.sort, w: a.w, args: []*Term{c, a, b}})
}

func (x *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		if a.sort == SF64 {
			// NaN aside: inputs are assumed finite, see DESIGN
			return x.True
		}
		return x.True
	}
	if a.isC() && b.isC() {
		if a.sort == SF64 {
			return x.Bool(a.f() == b.f())
		}
		return x.Bool(a.c == b.c)
	}
	if a.sort == SBool {
		if a.isC() {
			if a.c != 0 {
				return b
			}
			return x.Not(b)
		}
		if b.isC() {
			return x.Eq(b, a)
		}
	}
	if a.sort == SBV {
		if a.isC() {
			a, b = b, a
		}
		if b.isC() {
			if a.op == OZExt {
				in := a.args[0]
				if b.c > mask(in.w) {
					return x.False
				}
				return x.Eq(in, x.BVc(b.c, in.w))
			}
			if a.op == OSExt {
				in := a.args[0]
				if uint64(sext(b.c&mask(in.w), in.w))&mask(a.w) != b.c {
					return x.False
				}
				return x.Eq(in, x.BVc(b.c, in.w))
			}
			if a.op == OIte && a.args[1].isC() && a.args[2].isC() {
				if a.args[1].c == b.c {
					return a.args[0]
				}
				if a.args[2].c == b.c {
					return x.Not(a.args[0])
				}
				return x.False
			}
			if lo, hi, ok := x.urange(a); ok && (b.c < lo || b.c > hi) {
				return x.False
			}
		}
		if a.op == OLin || b.op == OLin {
			d := x.Sub(a, b)
			if d.isC() {
				return x.Bool(d.c == 0)
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return x.mk(&Term{op: OEq, sort: SBool, args: []*Term{a, b}})
}

// ---- bitvectors

func (x *Ctx) lin(w uint8, c uint64, m map[*Term]uint64) *Term {
	mk := mask(w)
	c &= mk
	var ts []*Term
	for t, k := range m {
		if k&mk != 0 {
			ts = append(ts, t)
		}
	}
	if len(ts) == 0 {
		return x.BVc(c, w)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	if len(ts) == 1 && c == 0 && m[ts[0]]&mk == 1 {
		return ts[0]
	}
	co := make([]uint64, len(ts))
	for i, t := range ts {
		co[i] = m[t] & mk
	}
	return x.mk(&Term{op: OLin, sort: SBV, w: w, c: c, args: ts, coef: co})
}
func addLin(m map[*Term]uint64, c *uint64, t *Term, k uint64) {
	switch t.op {
	case OConst:
		*c += k * t.c
	case OLin:
		*c += k * t.c
		for i, a := range t.args {
			m[a] += k * t.coef[i]
		}
	default:
		m[t] += k
	}
}
func (x *Ctx) Add(a, b *Term) *Term {
	if a.isC() && b.isC() {
		return x.BVc(a.c+b.c, a.w)
	}
	m := map[*Term]uint64{}
	var c uint64
	addLin(m, &c, a, 1)
	addLin(m, &c, b, 1)
	return x.lin(a.w, c, m)
}
func (x *Ctx) Sub(a, b *Term) *Term {
	if a.isC() && b.isC() {
		return x.BVc(a.c-b.c, a.w)
	}
	m := map[*Term]uint64{}
	var c uint64
	addLin(m, &c, a, 1)
	addLin(m, &c, b, ^uint64(0))
	return x.lin(a.w, c, m)
}
func (x *Ctx) Mul(a, b *Term) *Term {
	if b.isC() {
		a, b = b, a
	}
	if a.isC() {
		m := map[*Term]uint64{}
		var c uint64
		addLin(m, &c, b, a.c)
		return x.lin(a.w, c, m)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return x.mk(&Term{op: OMul, sort: SBV, w: a.w, args: []*Term{a, b}})
}

func (x *Ctx) bin(op Op, a, b *Term) *Term {
	if a.isC() && b.isC() {
		return x.BVc(evalBV(op, a.c, b.c, a.w), a.w)
	}
	switch op {
	case OBAnd:
		if a.isC() {
			a, b = b, a
		}
		if b.isC() {
			if b.c == 0 {
				return b
			}
			if b.c == mask(a.w) {
				return a
			}
			// low-bit mask
			n := bits.Len64(b.c)
			if b.c == mask(uint8(n)) {
				return x.ZExt(x.Extract(a, 0, uint8(n)), a.w)
			}
		}
		if a == b {
			return a
		}
		if a.id > b.id {
			a, b = b, a
		}
	case OBOr:
		if a.isC() {
			a, b = b, a
		}
		if b.isC() && b.c == 0 {
			return a
		}
		if b.isC() && b.c == mask(a.w) {
			return b
		}
		if a == b {
			return a
		}
		if a.id > b.id {
			a, b = b, a
		}
	case OBXor:
		if a.isC() {
			a, b = b, a
		}
		if b.isC() && b.c == 0 {
			return a
		}
		if a == b {
			return x.BVc(0, a.w)
		}
		if b.isC() && a.op == OBXor {
			for i := 0; i < 2; i++ {
				if a.args[i].isC() {
					return x.bin(OBXor, a.args[1-i], x.BVc(a.args[i].c^b.c, a.w))
				}
			}
		}
		if a.id > b.id {
			a, b = b, a
		}
	case OShl:
		if b.isC() {
			if b.c >= uint64(a.w) {
				return x.BVc(0, a.w)
			}
			return x.Mul(x.BVc(1<<b.c, a.w), a)
		}
	case OLShr, OAShr:
		if b.isC() && b.c == 0 {
			return a
		}
		if b.isC() && op == OLShr {
			if b.c >= uint64(a.w) {
				return x.BVc(0, a.w)
			}
			return x.ZExt(x.Extract(a, uint8(b.c), a.w-uint8(b.c)), a.w)
		}
	case OUDiv, OSDiv:
		if b.isC() && b.c == 1 {
			return a
		}
	case OURem:
		if b.isC() && b.c != 0 && b.c&(b.c-1) == 0 {
			return x.bin(OBAnd, a, x.BVc(b.c-1, a.w))
		}
	}
	return x.mk(&Term{op: op, sort: SBV, w: a.w, args: []*Term{a, b}})
}

func (x *Ctx) ZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isC() {
		return x.BVc(a.c, w)
	}
	if a.op == OZExt {
		a = a.args[0]
		if a.w == w {
			return a
		}
	}
	if a.op == OIte && (a.args[1].isC() || a.args[2].isC()) {
		return x.Ite(a.args[0], x.ZExt(a.args[1], w), x.ZExt(a.args[2], w))
	}
	return x.mk(&Term{op: OZExt, sort: SBV, w: w, args: []*Term{a}})
}
func (x *Ctx) SExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isC() {
		return x.BVc(uint64(sext(a.c, a.w)), w)
	}
	if a.op == OSExt {
		return x.SExt(a.args[0], w)
	}
	if a.op == OZExt {
		return x.ZExt(a.args[0], w)
	}
	return x.mk(&Term{op: OSExt, sort: SBV, w: w, args: []*Term{a}})
}
func (x *Ctx) Extract(a *Term, lo, w uint8) *Term {
	if lo == 0 && w == a.w {
		return a
	}
	if a.isC() {
		return x.BVc(a.c>>lo, w)
	}
	switch a.op {
	case OZExt:
		in := a.args[0]
		if lo+w <= in.w {
			return x.Extract(in, lo, w)
		}
		if lo >= in.w {
			return x.BVc(0, w)
		}
		return x.ZExt(x.Extract(in, lo, in.w-lo), w)
	case OSExt:
		in := a.args[0]
		if lo+w <= in.w {
			return x.Extract(in, lo, w)
		}
	case OExtract:
		return x.Extract(a.args[0], lo+uint8(a.c), w)
	case OBAnd, OBOr, OBXor:
		return x.bin(a.op, x.Extract(a.args[0], lo, w), x.Extract(a.args[1], lo, w))
	case OIte:
		if a.args[1].isC() || a.args[2].isC() {
			return x.Ite(a.args[0], x.Extract(a.args[1], lo, w), x.Extract(a.args[2], lo, w))
		}
	case OLin:
		if lo == 0 {
			m := map[*Term]uint64{}
			c := a.c
			for i, t := range a.args {
				addLin(m, &c, x.Extract(t, 0, w), a.coef[i])
			}
			return x.lin(w, c, m)
		}
		// single shifted term  (t << k) extract [lo, lo+w) with t narrow
		if len(a.args) >= 1 {
			// disjoint pieces: all coefs powers of two, args zext narrow; pick those overlapping
			if r := x.extractLin(a, lo, w); r != nil {
				return r
			}
		}
	}
	return x.mk(&Term{op: OExtract, sort: SBV, w: w, c: uint64(lo), args: []*Term{a}})
}

// extractLin handles sums of shifted, non-overlapping narrow pieces.
func (x *Ctx) extractLin(a *Term, lo, w uint8) *Term {
	type piece struct {
		t      *Term
		lo, hi int
	}
	var ps []piece
	var used uint64 = a.c
	for i, t := range a.args {
		k := a.coef[i]
		if k&(k-1) != 0 {
			return nil
		}
		sh := bits.TrailingZeros64(k)
		_, hi, ok := x.urange(t)
		if !ok {
			return nil
		}
		n := bits.Len64(hi)
		if sh+n > int(a.w) {
			return nil
		}
		m := mask(uint8(n)) << sh
		if n == 0 {
			continue
		}
		if used&m != 0 {
			return nil
		}
		used |= m
		ps = append(ps, piece{t, sh, sh + n})
	}
	res := x.BVc(a.c>>lo, w)
	for _, p := range ps {
		if p.hi <= int(lo) || p.lo >= int(lo)+int(w) {
			continue
		}
		if p.lo >= int(lo) {
			n := p.hi - p.lo
			if p.lo-int(lo)+n > int(w) {
				n = int(w) - (p.lo - int(lo))
			}
			e := x.ZExt(x.Extract(p.t, 0, uint8(n)), w)
			res = x.Add(res, x.Mul(x.BVc(1<<uint(p.lo-int(lo)), w), e))
		} else {
			off := int(lo) - p.lo
			n := p.hi - int(lo)
			if n > int(w) {
				n = int(w)
			}
			res = x.Add(res, x.ZExt(x.Extract(p.t, uint8(off), uint8(n)), w))
		}
	}
	return res
}

// unsigned range of a term when cheaply known (cached: terms are hash-consed)
func (x *Ctx) urange(t *Term) (lo, hi uint64, ok bool) {
	if t.op == OConst {
		return t.c, t.c, true
	}
	if t.rs == 0 {
		t.rl, t.rh, ok = x.urange1(t)
		t.rs = 2
		if ok {
			t.rs = 1
		}
	}
	return t.rl, t.rh, t.rs == 1
}
func (x *Ctx) urange1(t *Term) (lo, hi uint64, ok bool) {
	switch t.op {
	case OVar:
		if t.hi != 0 {
			return t.lo, t.hi, true
		}
	case OZExt:
		return x.urange(t.args[0])
	case OSExt:
		if lo, hi, ok := x.urange(t.args[0]); ok && hi < 1<<(t.args[0].w-1) {
			return lo, hi, true
		}
	case OExtract:
		if t.c == 0 {
			if lo, hi, ok := x.urange(t.args[0]); ok && hi <= mask(t.w) {
				return lo, hi, true
			}
		}
	case OIte:
		l1, h1, o1 := x.urange(t.args[1])
		l2, h2, o2 := x.urange(t.args[2])
		if o1 && o2 {
			return min(l1, l2), max(h1, h2), true
		}
	case OBAnd:
		_, h1, o1 := x.urange(t.args[0])
		_, h2, o2 := x.urange(t.args[1])
		if o1 && o2 {
			return 0, min(h1, h2), true
		}
	case OBOr, OBXor:
		_, h1, o1 := x.urange(t.args[0])
		_, h2, o2 := x.urange(t.args[1])
		if o1 && o2 {
			return 0, uint64(1)<<bits.Len64(h1|h2) - 1, true
		}
	case OURem:
		if t.args[1].isC() && t.args[1].c > 0 {
			return 0, t.args[1].c - 1, true
		}
	case OUDiv:
		if t.args[1].isC() && t.args[1].c > 0 {
			if l, h, ok := x.urange(t.args[0]); ok {
				return l / t.args[1].c, h / t.args[1].c, true
			}
		}
	case OLShr:
		if t.args[1].isC() && t.args[1].c < 64 {
			if l, h, ok := x.urange(t.args[0]); ok {
				return l >> t.args[1].c, h >> t.args[1].c, true
			}
		}
	case OShl:
		if t.args[1].isC() && t.args[1].c < 64 {
			k := t.args[1].c
			if l, h, ok := x.urange(t.args[0]); ok && h <= mask(t.w)>>k {
				return l << k, h << k, true
			}
		}
	case OLin:
		neg := false
		lim := mask(t.w)
		for _, k := range t.coef {
			if k > lim>>1 && t.w > 1 {
				neg = true
			}
		}
		if neg || t.c > lim>>1 {
			if l, h, ok := x.srange(t); ok && l >= 0 {
				return uint64(l), uint64(h), true
			}
			return 0, lim, t.w < 64
		}
		lo, hi := t.c, t.c
		for i, a := range t.args {
			l, h, o := x.urange(a)
			if !o {
				return 0, 0, false
			}
			k := t.coef[i]
			c1, p1 := bits.Mul64(h, k)
			if c1 != 0 {
				return 0, lim, t.w < 64
			}
			s, cc := bits.Add64(hi, p1, 0)
			if cc != 0 || s > lim {
				return 0, lim, t.w < 64
			}
			hi = s
			lo += l * k
		}
		return lo, hi, true
	case OMul:
		l1, h1, o1 := x.urange(t.args[0])
		l2, h2, o2 := x.urange(t.args[1])
		if o1 && o2 {
			c, p := bits.Mul64(h1, h2)
			if c == 0 && p <= mask(t.w) {
				return l1 * l2, p, true
			}
		}
	case OBlobLen:
		l, h := x.blobRange(t.blob)
		return uint64(l), uint64(h), true
	case OFToS, OFToU:
		if l, h, ok := x.frange(t.args[0]); ok && l >= 0 && h < 1<<40 && h < float64(mask(t.w)>>1) {
			return uint64(l), uint64(h), true
		}
	case OUF:
		if t.hi != 0 {
			return t.lo, t.hi, true
		}
	}
	return 0, mask(t.w), t.w < 64
}

// blobRange is the assumed length range of compressed data: around the length
// for the default input values.
func (x *Ctx) blobRange(b *Blob) (int, int) {
	if b.kind == "repl" || b.kind == "unesc" {
		l, h, ok := x.urange(x.strLen(b.ins[0]))
		if !ok || h > 1<<30 {
			h = 1 << 30
		}
		if b.kind == "unesc" {
			return 0, int(h)
		}
		return int(l), int(h) * max(1, len(b.ins[2].Eval(x, Model{})))
	}
	if b.hi == 0 {
		n := len(b.ins[0].Eval(x, Model{}))
		l := len(zlibBytes1(b.level, b.ins[0].Eval(x, Model{})))
		b.lo = max(8, l*3/4-8)
		b.hi = max(n+n/1000+16, l*5/4+16)
		if h := l*5/4 + 64; b.hi > h {
			b.hi = h
		}
	}
	return b.lo, b.hi
}

// frange is interval arithmetic over float terms.
func (x *Ctx) frange(t *Term) (lo, hi float64, ok bool) {
	if t.op == OConst {
		f := t.f()
		return f, f, f-f == 0
	}
	if t.rs == 0 {
		l, h, o := x.frange1(t)
		t.rl, t.rh = math.Float64bits(l), math.Float64bits(h)
		t.rs = 2
		if o && h-l == h-l && l-l == 0 && h-h == 0 {
			t.rs = 1
		}
	}
	return math.Float64frombits(t.rl), math.Float64frombits(t.rh), t.rs == 1
}
func (x *Ctx) frange1(t *Term) (lo, hi float64, ok bool) {
	switch t.op {
	case OVar:
		if t.lo != 0 || t.hi != 0 {
			return math.Float64frombits(t.lo), math.Float64frombits(t.hi), true
		}
	case OFAdd, OFSub, OFMul, OFDiv:
		a, b, o1 := x.frange(t.args[0])
		c, d, o2 := x.frange(t.args[1])
		if !o1 || !o2 {
			return
		}
		switch t.op {
		case OFAdd:
			return a + c, b + d, true
		case OFSub:
			return a - d, b - c, true
		case OFDiv:
			if c <= 0 && d >= 0 {
				return
			}
			c, d = 1/d, 1/c
			fallthrough
		default:
			p := []float64{a * c, a * d, b * c, b * d}
			return slackLo(min(p[0], p[1], p[2], p[3])), slackHi(max(p[0], p[1], p[2], p[3])), true
		}
	case OFNeg:
		a, b, o := x.frange(t.args[0])
		return -b, -a, o
	case OFAbs:
		a, b, o := x.frange(t.args[0])
		if a >= 0 {
			return a, b, o
		}
		return 0, max(-a, b), o
	case OFSqrt:
		a, b, o := x.frange(t.args[0])
		return math.Sqrt(a), math.Sqrt(b), o && a >= 0
	case OFFloor, OFCeil, OFTrunc, OFRound, OFRoundEven:
		a, b, o := x.frange(t.args[0])
		return math.Floor(a), math.Ceil(b), o
	case OF32:
		a, b, o := x.frange(t.args[0])
		return slackLo(a) - 1e-6*math.Abs(a), slackHi(b) + 1e-6*math.Abs(b), o
	case OIte:
		a, b, o1 := x.frange(t.args[1])
		c, d, o2 := x.frange(t.args[2])
		return min(a, c), max(b, d), o1 && o2
	case OFFromU:
		l, h, o := x.urange(t.args[0])
		return float64(l), float64(h), o
	case OFFromS:
		if l, h, o := x.srange(t.args[0]); o {
			return float64(l), float64(h), true
		}
		if w := t.args[0].w; w <= 32 {
			return -float64(uint64(1) << (w - 1)), float64(uint64(1) << (w - 1)), true
		}
	}
	return
}
func slackLo(f float64) float64 { return f - 1e-12*math.Abs(f) }
func slackHi(f float64) float64 { return f + 1e-12*math.Abs(f) }

func (x *Ctx) Cmp(op Op, a, b *Term) *Term {
	if a.isC() && b.isC() {
		return x.Bool(evalCmp(op, a.c, b.c, a.w))
	}
	if a == b {
		return x.Bool(op == OULe || op == OSLe)
	}
	if a.sort == SBV {
		al, ah, ok1 := x.urange(a)
		bl, bh, ok2 := x.urange(b)
		half := uint64(1) << (a.w - 1)
		signed := op == OSLt || op == OSLe
		if ok1 && ok2 && (!signed || (ah < half && bh < half)) {
			switch op {
			case OULt, OSLt:
				if ah < bl {
					return x.True
				}
				if al >= bh {
					return x.False
				}
			case OULe, OSLe:
				if ah <= bl {
					return x.True
				}
				if al > bh {
					return x.False
				}
			}
			// zext pairs: compare at narrow width
			if a.op == OZExt && b.isC() && b.c <= mask(a.args[0].w) {
				o := OULt
				if op == OULe || op == OSLe {
					o = OULe
				}
				return x.Cmp(o, a.args[0], x.BVc(b.c, a.args[0].w))
			}
			if b.op == OZExt && a.isC() && a.c <= mask(b.args[0].w) {
				o := OULt
				if op == OULe || op == OSLe {
					o = OULe
				}
				return x.Cmp(o, x.BVc(a.c, b.args[0].w), b.args[0])
			}
		}
		// difference of linear sums with small ranges
		if signed && (a.op == OLin || b.op == OLin) {
			if lo, hi, ok := x.srange(x.Sub(a, b)); ok {
				_, _, oka := x.srange(a)
				_, _, okb := x.srange(b)
				if oka && okb {
					if op == OSLt {
						if hi < 0 {
							return x.True
						}
						if lo >= 0 {
							return x.False
						}
					} else {
						if hi <= 0 {
							return x.True
						}
						if lo > 0 {
							return x.False
						}
					}
				}
			}
		}
	}
	return x.mk(&Term{op: op, sort: SBool, args: []*Term{a, b}})
}

// signed range for linear sums of small unsigned things; ok only when no wrap is possible
func (x *Ctx) srange(t *Term) (lo, hi int64, ok bool) {
	lim := int64(1) << 50
	if t.w < 52 {
		lim = int64(1) << (t.w - 1)
	}
	switch t.op {
	case OConst:
		v := sext(t.c, t.w)
		return v, v, v < lim && v >= -lim
	case OSExt:
		return x.srange(t.args[0])
	case OLin:
		lo = sext(t.c, t.w)
		hi = lo
		if lo <= -lim || lo >= lim {
			return 0, 0, false
		}
		for i, a := range t.args {
			l, h, o := x.srange(a)
			if !o {
				return 0, 0, false
			}
			k := sext(t.coef[i], t.w)
			if k > 1<<20 || k < -(1<<20) || l < -(1<<40) || h > 1<<40 {
				return 0, 0, false
			}
			if k >= 0 {
				lo += k * l
				hi += k * h
			} else {
				lo += k * h
				hi += k * l
			}
			if lo <= -lim || hi >= lim {
				return 0, 0, false
			}
		}
		return lo, hi, true
	}
	l, h, o := x.urange(t)
	if o && h < uint64(lim) {
		return int64(l), int64(h), true
	}
	return 0, 0, false
}

func evalCmp(op Op, a, b uint64, w uint8) bool {
	switch op {
	case OULt:
		return a < b
	case OULe:
		return a <= b
	case OSLt:
		return sext(a, w) < sext(b, w)
	case OSLe:
		return sext(a, w) <= sext(b, w)
	case OFLt:
		return math.Float64frombits(a) < math.Float64frombits(b)
	case OFLe:
		return math.Float64frombits(a) <= math.Float64frombits(b)
	}
	panic("evalCmp")
}

func evalBV(op Op, a, b uint64, w uint8) uint64 {
	m := mask(w)
	switch op {
	case OMul:
		return a * b & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OBXor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return a << b & m
	case OLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAShr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sext(a, w)>>b) & m
	}
	panic("evalBV")
}

// ---- floats

func evalF(op Op, a, b uint64) uint64 {
	x, y := math.Float64frombits(a), math.Float64frombits(b)
	var r float64
	switch op {
	case OFAdd:
		r = x + y
	case OFSub:
		r = x - y
	case OFMul:
		r = x * y
	case OFDiv:
		r = x / y
	case OFNeg:
		r = -x
	case OFAbs:
		r = math.Abs(x)
	case OFSqrt:
		r = math.Sqrt(x)
	case OFFloor:
		r = math.Floor(x)
	case OFCeil:
		r = math.Ceil(x)
	case OFTrunc:
		r = math.Trunc(x)
	case OFRound:
		r = math.Round(x)
	case OFRoundEven:
		r = math.RoundToEven(x)
	case OF32:
		r = float64(float32(x))
	default:
		panic("evalF")
	}
	return math.Float64bits(r)
}

func (x *Ctx) FBin(op Op, a, b *Term) *Term {
	if a.isC() && b.isC() {
		return x.mk(&Term{op: OConst, sort: SF64, w: 64, c: evalF(op, a.c, b.c)})
	}
	switch op {
	case OFMul:
		if a.isC() && a.f() == 1 {
			return b
		}
		if b.isC() && b.f() == 1 {
			return a
		}
	case OFDiv:
		if b.isC() && b.f() == 1 {
			return a
		}
	case OFSub, OFAdd:
		if b.isC() && b.f() == 0 && (op == OFSub || math.Signbit(b.f())) {
			return a
		}
		if b.isC() && b.f() == 0 || op == OFAdd && a.isC() && a.f() == 0 {
			// +0 + x: only differs from x for x = -0
			if a.isC() {
				return b
			}
			return a
		}
	}
	if (op == OFAdd || op == OFMul) && a.id > b.id {
		a, b = b, a
	}
	return x.mk(&Term{op: op, sort: SF64, w: 64, args: []*Term{a, b}})
}
func (x *Ctx) FUn(op Op, a *Term) *Term {
	if a.isC() {
		return x.mk(&Term{op: OConst, sort: SF64, w: 64, c: evalF(op, a.c, 0)})
	}
	if op == OFNeg && a.op == OFNeg {
		return a.args[0]
	}
	return x.mk(&Term{op: op, sort: SF64, w: 64, args: []*Term{a}})
}
func (x *Ctx) FCmp(op Op, a, b *Term) *Term {
	if a.isC() && b.isC() {
		return x.Bool(evalCmp(op, a.c, b.c, 64))
	}
	if a == b {
		return x.Bool(op == OFLe)
	}
	if al, ah, ok := x.frange(a); ok {
		if bl, bh, ok := x.frange(b); ok {
			if op == OFLt && ah < bl || op == OFLe && ah <= bl {
				return x.True
			}
			if op == OFLt && al >= bh || op == OFLe && al > bh {
				return x.False
			}
		}
	}
	return x.mk(&Term{op: op, sort: SBool, args: []*Term{a, b}})
}
func (x *Ctx) FFrom(a *Term, signed bool) *Term {
	if a.isC() {
		if signed {
			return x.Fc(float64(sext(a.c, a.w)))
		}
		return x.Fc(float64(a.c))
	}
	op := OFFromU
	if signed {
		op = OFFromS
		if a.op == OZExt {
			return x.FFrom(a.args[0], false)
		}
		if a.op == OSExt {
			return x.FFrom(a.args[0], true)
		}
	} else if a.op == OZExt {
		return x.FFrom(a.args[0], false)
	}
	if a.op == OIte && (a.args[1].isC() || a.args[2].isC()) {
		return x.Ite(a.args[0], x.FFrom(a.args[1], signed), x.FFrom(a.args[2], signed))
	}
	return x.mk(&Term{op: op, sort: SF64, w: 64, args: []*Term{a}})
}
func (x *Ctx) FTo(a *Term, w uint8, signed bool) *Term {
	if a.isC() {
		return x.BVc(evalFTo(a.c, w, signed), w)
	}
	if a.op == OFFromU && a.args[0].w < 53 {
		if a.args[0].w <= w {
			return x.ZExt(a.args[0], w)
		}
		return x.Extract(a.args[0], 0, w)
	}
	op := OFToU
	if signed {
		op = OFToS
	}
	return x.mk(&Term{op: op, sort: SBV, w: w, args: []*Term{a}})
}
func evalFTo(c uint64, w uint8, signed bool) uint64 {
	f := math.Float64frombits(c)
	if signed {
		return uint64(int64(f)) & mask(w)
	}
	return uint64(f) & mask(w)
}

func (x *Ctx) UF(name string, s Sort, w uint8, lo, hi uint64, args ...*Term) *Term {
	allC := len(args) > 0
	for _, a := range args {
		if !a.isC() {
			allC = false
		}
	}
	if allC {
		vs := make([]uint64, len(args))
		for i, a := range args {
			vs[i] = a.c
		}
		r := x.ufs[name](vs)
		return x.mk(&Term{op: OConst, sort: s, w: w, c: r})
	}
	t := x.mk(&Term{op: OUF, sort: s, w: w, name: name, args: args})
	t.lo, t.hi = lo, hi
	return t
}

// ---- evaluation

type Model map[int32]uint64

func (x *Ctx) Eval(t *Term, m Model) uint64 {
	x.epoch++
	return x.eval(t, m)
}
func (x *Ctx) EvalMany(ts []*Term, m Model) bool {
	x.epoch++
	for _, t := range ts {
		if x.eval(t, m) == 0 {
			return false
		}
	}
	return true
}

func (x *Ctx) eval(t *Term, m Model) uint64 {
	if t.op == OConst {
		return t.c
	}
	if t.ep == x.epoch {
		return t.val
	}
	var r uint64
	b2 := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case OVar:
		v, ok := m[t.id]
		if !ok {
			v = t.lo
		}
		r = v
	case ONot:
		r = 1 - x.eval(t.args[0], m)
	case OAnd:
		r = 0
		if x.eval(t.args[0], m) != 0 && x.eval(t.args[1], m) != 0 {
			r = 1
		}
	case OEq:
		a, b := x.eval(t.args[0], m), x.eval(t.args[1], m)
		if t.args[0].sort == SF64 {
			r = b2(math.Float64frombits(a) == math.Float64frombits(b))
		} else {
			r = b2(a == b)
		}
	case OIte:
		if x.eval(t.args[0], m) != 0 {
			r = x.eval(t.args[1], m)
		} else {
			r = x.eval(t.args[2], m)
		}
	case OLin:
		r = t.c
		for i, a := range t.args {
			r += t.coef[i] * x.eval(a, m)
		}
		r &= mask(t.w)
	case OMul, OUDiv, OSDiv, OURem, OSRem, OBAnd, OBOr, OBXor, OShl, OLShr, OAShr:
		r = evalBV(t.op, x.eval(t.args[0], m), x.eval(t.args[1], m), t.w)
	case OZExt:
		r = x.eval(t.args[0], m)
	case OSExt:
		r = uint64(sext(x.eval(t.args[0], m), t.args[0].w)) & mask(t.w)
	case OExtract:
		r = x.eval(t.args[0], m) >> t.c & mask(t.w)
	case OULt, OULe, OSLt, OSLe, OFLt, OFLe:
		r = b2(evalCmp(t.op, x.eval(t.args[0], m), x.eval(t.args[1], m), t.args[0].w))
	case OFAdd, OFSub, OFMul, OFDiv:
		r = evalF(t.op, x.eval(t.args[0], m), x.eval(t.args[1], m))
	case OFNeg, OFAbs, OFSqrt, OFFloor, OFCeil, OFTrunc, OFRound, OFRoundEven, OF32:
		r = evalF(t.op, x.eval(t.args[0], m), 0)
	case OFFromS:
		r = math.Float64bits(float64(sext(x.eval(t.args[0], m), t.args[0].w)))
	case OFFromU:
		r = math.Float64bits(float64(x.eval(t.args[0], m)))
	case OFToS:
		r = evalFTo(x.eval(t.args[0], m), t.w, true)
	case OFToU:
		r = evalFTo(x.eval(t.args[0], m), t.w, false)
	case OUF:
		vs := make([]uint64, len(t.args))
		for i, a := range t.args {
			vs[i] = x.eval(a, m)
		}
		r = x.ufs[t.name](vs)
	case OBlobLen:
		r = uint64(len(t.blob.eval(x, m)))
	case OBlobByte:
		bs := t.blob.eval(x, m)
		if int(t.c) < len(bs) {
			r = uint64(bs[t.c])
		}
	default:
		panic(fmt.Sprint("eval op ", t.op))
	}
	t.ep = x.epoch
	t.val = r
	return r
}
