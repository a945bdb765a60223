package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is the interpreter's universal value. Concrete scalars live in N (ints
// sign-/zero-extended to 64 bits, floats as IEEE bits, bools 0/1); symbolic
// scalars have X = *Term.
type Value struct {
	N uint64
	X any
}

type StructV struct{ f []Value }
type ArrV struct{ v []Value }
type Slice struct {
	a             *ArrV
	off, len, cap int
	rope          *Str // when a == nil: immutable byte rope
}
type Iface struct {
	t types.Type
	v Value
}
type Closure struct {
	fn  *ssa.Function
	env []Value
	bi  *ssa.Builtin
}
type SymPtr struct {
	slots []Value // backing array window
	idx   *Term   // BV64, in range
}
type bufRope struct {
	ch   []Chunk
	ever bool // something was written
	high int  // the longest content of a constant length that was dropped
}

type mapEnt struct {
	k, v Value
	live bool
}
type MapObj struct {
	ents []*mapEnt
	idx  map[any]int
	sym  int // number of live entries with symbolic keys
	n    int
	kt   types.Type
}

type abort struct{ kind, msg string }

func unsup(f string, a ...any) { panic(abort{"unsupported", fmt.Sprintf(f, a...)}) }

type targetPanic struct {
	v   Value
	msg string
}

func rtPanic(msg string) {
	panic(targetPanic{Value{X: &Iface{types.Typ[types.String], Value{X: msg}}}, msg})
}

type tkind uint8

const (
	kOther tkind = iota
	kBool
	kInt
	kFloat
	kString
)

type tinfo struct {
	k      tkind
	w      uint8
	signed bool
	f32    bool
}

func tinf(t types.Type) tinfo {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return tinfo{}
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return tinfo{k: kBool, w: 1}
	case types.Int, types.Int64, types.UntypedInt:
		return tinfo{k: kInt, w: 64, signed: true}
	case types.Int8:
		return tinfo{k: kInt, w: 8, signed: true}
	case types.Int16:
		return tinfo{k: kInt, w: 16, signed: true}
	case types.Int32, types.UntypedRune:
		return tinfo{k: kInt, w: 32, signed: true}
	case types.Uint, types.Uint64, types.Uintptr:
		return tinfo{k: kInt, w: 64}
	case types.Uint8:
		return tinfo{k: kInt, w: 8}
	case types.Uint16:
		return tinfo{k: kInt, w: 16}
	case types.Uint32:
		return tinfo{k: kInt, w: 32}
	case types.Float64, types.UntypedFloat:
		return tinfo{k: kFloat, w: 64}
	case types.Float32:
		return tinfo{k: kFloat, w: 64, f32: true}
	case types.String, types.UntypedString:
		return tinfo{k: kString}
	}
	return tinfo{}
}

func norm(v uint64, ti tinfo) uint64 {
	if ti.w == 64 {
		return v
	}
	if ti.signed {
		return uint64(sext(v&mask(ti.w), ti.w))
	}
	return v & mask(ti.w)
}

func (w *Worker) term(v Value, ti tinfo) *Term {
	if v.X != nil {
		return v.X.(*Term)
	}
	switch ti.k {
	case kBool:
		return w.x.Bool(v.N != 0)
	case kFloat:
		return w.x.mk(&Term{op: OConst, sort: SF64, w: 64, c: v.N})
	}
	return w.x.BVc(v.N, ti.w)
}
func fromTerm(t *Term, ti tinfo) Value {
	if t.isC() {
		if ti.k == kInt {
			return Value{N: norm(t.c, ti)}
		}
		return Value{N: t.c}
	}
	return Value{X: t}
}
func bv(b bool) Value {
	if b {
		return Value{N: 1}
	}
	return Value{}
}
func iv(i int) Value     { return Value{N: uint64(int64(i))} }
func fv(f float64) Value { return Value{N: math.Float64bits(f)} }
func sv(s string) Value  { return Value{X: s} }
func strV(s *Str) Value {
	if l, ok := s.isLit(); ok {
		return Value{X: l}
	}
	return Value{X: s}
}
func asStr(v Value) *Str {
	switch s := v.X.(type) {
	case nil:
		return &Str{}
	case string:
		return litStr(s)
	case *Str:
		return s
	}
	panic(fmt.Sprintf("asStr %T", v.X))
}
func concStr(v Value) (string, bool) {
	switch s := v.X.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	case *Str:
		return s.isLit()
	}
	return "", false
}
func mustStr(v Value) string {
	s, ok := concStr(v)
	if !ok {
		unsup("concrete string required")
	}
	return s
}

var zeroCache sync.Map

func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n := u.NumFields()
		s := &StructV{f: make([]Value, n)}
		for i := 0; i < n; i++ {
			ft := u.Field(i).Type()
			switch ft.Underlying().(type) {
			case *types.Struct, *types.Array:
				s.f[i] = zero(ft)
			}
		}
		return Value{X: s}
	case *types.Array:
		n := int(u.Len())
		a := &ArrV{v: make([]Value, n)}
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Array:
			for i := range a.v {
				a.v[i] = zero(u.Elem())
			}
		}
		return Value{X: a}
	case *types.Tuple:
		r := make([]Value, u.Len())
		for i := range r {
			r[i] = zero(u.At(i).Type())
		}
		return Value{X: r}
	}
	return Value{}
}

func cp(v Value) Value {
	if v.X == nil {
		return v
	}
	switch s := v.X.(type) {
	case *StructV:
		n := &StructV{f: make([]Value, len(s.f))}
		for i := range s.f {
			if s.f[i].X == nil {
				n.f[i] = s.f[i]
			} else {
				n.f[i] = cp(s.f[i])
			}
		}
		return Value{X: n}
	case *ArrV:
		n := &ArrV{v: make([]Value, len(s.v))}
		for i := range s.v {
			if s.v[i].X == nil {
				n.v[i] = s.v[i]
			} else {
				n.v[i] = cp(s.v[i])
			}
		}
		return Value{X: n}
	}
	return v
}

// assign into slot keeping inner slot addresses (pointers to fields stay valid)
func assign(p *Value, v Value) {
	if v.X != nil {
		switch s := v.X.(type) {
		case *StructV:
			if d, ok := p.X.(*StructV); ok && len(d.f) == len(s.f) {
				if d == s {
					return
				}
				for i := range s.f {
					assign(&d.f[i], s.f[i])
				}
				return
			}
			*p = cp(v)
			return
		case *ArrV:
			if d, ok := p.X.(*ArrV); ok && len(d.v) == len(s.v) {
				if d == s {
					return
				}
				for i := range s.v {
					assign(&d.v[i], s.v[i])
				}
				return
			}
			*p = cp(v)
			return
		}
	}
	*p = v
}

// ---- type identity

var typeMu sync.Mutex
var typeIDs typeutil.Map
var typePtr sync.Map

func typeID(t types.Type) int {
	if v, ok := typePtr.Load(t); ok {
		return v.(int)
	}
	typeMu.Lock()
	defer typeMu.Unlock()
	var id int
	if v := typeIDs.At(t); v != nil {
		id = v.(int)
	} else {
		id = typeIDs.Len() + 1
		typeIDs.Set(t, id)
	}
	typePtr.Store(t, id)
	return id
}

// ---- byte slices and ropes

func (w *Worker) sliceRope(s *Slice) *Str {
	if s == nil {
		return &Str{}
	}
	if s.a == nil {
		return s.rope
	}
	return w.bytesRope(s.a.v[s.off : s.off+s.len])
}

func (w *Worker) bytesRope(vs []Value) *Str {
	allc := true
	for i := range vs {
		if vs[i].X != nil {
			allc = false
			break
		}
	}
	if allc {
		b := make([]byte, len(vs))
		for i := range vs {
			b[i] = byte(vs[i].N)
		}
		return litStr(string(b))
	}
	ch := make([]Chunk, 0, 16)
	for i := 0; i < len(vs); {
		if vs[i].X == nil {
			j := i
			for j < len(vs) && vs[j].X == nil {
				j++
			}
			b := make([]byte, j-i)
			for k := i; k < j; k++ {
				b[k-i] = byte(vs[k].N)
			}
			ch = append(ch, Chunk{k: CLit, s: string(b)})
			i = j
			continue
		}
		ch = append(ch, Chunk{k: CByte, t: vs[i].X.(*Term)})
		i++
	}
	return w.x.normRope(ch)
}

func ropeSlice(s *Str) Value {
	return Value{X: &Slice{rope: s}}
}

// materialise a rope-backed slice into an array (in place)
func (w *Worker) mat(s *Slice) {
	if s.a != nil {
		return
	}
	vs := w.bytesOf(s.rope)
	s.a = &ArrV{v: vs}
	s.len = len(vs)
	s.cap = len(vs)
	s.off = 0
}

func (w *Worker) bytesOf(s *Str) []Value {
	var r []Value
	for i := range s.ch {
		r = w.chunkBytes(r, &s.ch[i])
	}
	return r
}

func (w *Worker) chunkBytes(r []Value, c *Chunk) []Value {
	x := w.x
	b8 := func(t *Term) Value { return fromTerm(t, tinfo{k: kInt, w: 8}) }
	switch c.k {
	case CLit:
		for j := 0; j < len(c.s); j++ {
			r = append(r, Value{N: uint64(c.s[j])})
		}
	case CByte:
		r = append(r, b8(c.t))
	case CRune:
		n := w.concretize(x.chunkLen(c))
		ex := func(lo uint8, bits uint8, pre uint64) Value {
			return b8(x.bin(OBOr, x.BVc(pre, 8), x.ZExt(x.Extract(c.t, lo, bits), 8)))
		}
		switch n {
		case 1:
			r = append(r, b8(x.Extract(c.t, 0, 8)))
		case 2:
			r = append(r, ex(6, 5, 0xC0), ex(0, 6, 0x80))
		case 3:
			r = append(r, ex(12, 4, 0xE0), ex(6, 6, 0x80), ex(0, 6, 0x80))
		case 4:
			r = append(r, ex(18, 3, 0xF0), ex(12, 6, 0x80), ex(6, 6, 0x80), ex(0, 6, 0x80))
		}
	case CDec, CHex:
		n := int(w.concretize(x.chunkLen(c)))
		base := uint64(10)
		if c.k == CHex {
			base = 16
		}
		t := c.t
		neg := false
		if !c.uns {
			if w.branch(x.Cmp(OSLt, t, x.BVc(0, 64))) {
				neg = true
				t = x.Sub(x.BVc(0, 64), t)
			}
		}
		// number of real digits
		nd := int(w.concretize(x.digits(t, base, 0, 0, 0, false)))
		pad := n - nd
		if neg {
			pad--
		}
		if neg && c.zero {
			r = append(r, Value{N: '-'})
		}
		for i := 0; i < pad; i++ {
			if c.zero {
				r = append(r, Value{N: '0'})
			} else {
				r = append(r, Value{N: ' '})
			}
		}
		if neg && !c.zero {
			r = append(r, Value{N: '-'})
		}
		p := uint64(1)
		for i := 1; i < nd; i++ {
			p *= base
		}
		for i := 0; i < nd; i++ {
			d := x.Extract(x.bin(OURem, x.bin(OUDiv, t, x.BVc(p, 64)), x.BVc(base, 64)), 0, 8)
			if base == 16 {
				a := uint64('a' - 10)
				if c.up {
					a = 'A' - 10
				}
				d = x.Ite(x.Cmp(OULt, d, x.BVc(10, 8)), x.Add(d, x.BVc('0', 8)), x.Add(d, x.BVc(a, 8)))
			} else {
				d = x.Add(d, x.BVc('0', 8))
			}
			r = append(r, b8(d))
			p /= base
		}
	case CBlob:
		if c.blob.n >= 0 && c.blob.n <= 4096 {
			b := c.blob
			off := 0
			if b.kind == "sub" {
				off = b.off
				b = b.src
			}
			for j := 0; j < c.blob.n; j++ {
				r = append(r, Value{X: x.mk(&Term{op: OBlobByte, sort: SBV, w: 8, c: uint64(off + j), blob: b})})
			}
			return r
		}
		if c.blob.kind == "zeros" {
			n := w.concretize(c.blob.t)
			if n > 1<<22 {
				panic(abort{"limit", "huge allocation"})
			}
			return make([]Value, n)
		}
		unsup("bytes of opaque %s", c.blob.kind)
	default:
		unsup("bytes of formatted float")
	}
	return r
}

func (w *Worker) sliceLen(s *Slice) *Term {
	if s == nil {
		return w.x.BVc(0, 64)
	}
	if s.a != nil {
		return w.x.BVc(uint64(s.len), 64)
	}
	return w.x.strLen(s.rope)
}

var tInt = tinfo{k: kInt, w: 64, signed: true}
var tByte = tinfo{k: kInt, w: 8}
var tRune = tinfo{k: kInt, w: 32, signed: true}
var tF64 = tinfo{k: kFloat, w: 64}
var tBool = tinfo{k: kBool, w: 1}

// rope slicing [lo,hi); hi may be nil
func (w *Worker) ropeSub(s *Str, lo, hi *Term) *Str {
	x := w.x
	if lo == nil {
		lo = x.BVc(0, 64)
	}
	if l, ok := s.isLit(); ok && lo.isC() && (hi == nil || hi.isC()) {
		h := uint64(len(l))
		if hi != nil {
			h = hi.c
		}
		if h > uint64(len(l)) || lo.c > h {
			rtPanic("runtime error: slice bounds out of range")
		}
		return litStr(l[lo.c:h])
	}
	tot := x.strLen(s)
	if hi == nil {
		hi = tot
	}
	offs := x.offsets(s)
	find := func(p *Term) (int, int) { // chunk index, inner offset
		for i, o := range offs {
			if o == p {
				return i, 0
			}
		}
		// within a literal / const-length chunk: offset difference const
		for i := range s.ch {
			c := &s.ch[i]
			d := x.Sub(p, offs[i])
			if d.isC() && (c.k == CLit && d.c < uint64(len(c.s)) || c.k == CBlob && c.blob.n >= 0 && d.c < uint64(c.blob.n)) {
				return i, int(d.c)
			}
		}
		return -1, 0
	}
	a, ai := find(lo)
	b, bi := find(hi)
	if a < 0 || b < 0 || a > b || a == b && ai > bi {
		// bounds: 0 <= lo <= hi <= len
		ok := x.And(x.Cmp(OULe, lo, hi), x.Cmp(OULe, hi, tot))
		if !w.branch(ok) {
			rtPanic("runtime error: slice bounds out of range")
		}
	}
	if a < 0 || b < 0 {
		// explode to bytes and concretise
		vs := w.bytesOf(s)
		l := int(w.concretize(lo))
		h := int(w.concretize(hi))
		if l < 0 || h > len(vs) || l > h {
			rtPanic("runtime error: slice bounds out of range")
		}
		return w.bytesRope(vs[l:h])
	}
	var out []Chunk
	for i := a; i <= b && i < len(s.ch); i++ {
		c := s.ch[i]
		st := 0
		if i == a {
			st = ai
		}
		en := -1
		if i == b {
			en = bi
			if en == 0 {
				break
			}
		}
		if st == 0 && en < 0 {
			out = append(out, c)
			continue
		}
		if c.k == CLit {
			if en < 0 {
				en = len(c.s)
			}
			out = append(out, Chunk{k: CLit, s: c.s[st:en]})
		} else {
			if en < 0 {
				en = c.blob.n
			}
			out = append(out, Chunk{k: CBlob, blob: x.subBlob(c.blob, st, en-st)})
		}
	}
	return x.normRope(out)
}

// ---- string equality

func (w *Worker) strEq(a, b Value) *Term {
	x := w.x
	as, ok1 := concStr(a)
	bs, ok2 := concStr(b)
	if ok1 && ok2 {
		return x.Bool(as == bs)
	}
	return w.ropeEq(asStr(a), asStr(b))
}

func isDigitB(b byte) bool { return b >= '0' && b <= '9' }

func (w *Worker) ropeEq(a, b *Str) *Term {
	x := w.x
	if a.Key() == b.Key() {
		return x.True
	}
	la, lb := x.strLen(a), x.strLen(b)
	if x.Eq(la, lb) == x.False {
		return x.False
	}
	res := x.True
	A := append([]Chunk{}, a.ch...)
	B := append([]Chunk{}, b.ch...)
	for {
		for len(A) > 0 && A[0].k == CLit && A[0].s == "" {
			A = A[1:]
		}
		for len(B) > 0 && B[0].k == CLit && B[0].s == "" {
			B = B[1:]
		}
		if len(A) == 0 && len(B) == 0 {
			return res
		}
		if len(A) == 0 || len(B) == 0 {
			r := A
			if len(A) == 0 {
				r = B
			}
			l := x.strLen(&Str{ch: r})
			return x.And(res, x.Eq(l, x.BVc(0, 64)))
		}
		ca, cb := A[0], B[0]
		if ca.k != CLit && cb.k == CLit {
			ca, cb = cb, ca
			A, B = B, A
		}
		switch {
		case ca.k == CLit && cb.k == CLit:
			n := min(len(ca.s), len(cb.s))
			if ca.s[:n] != cb.s[:n] {
				return x.False
			}
			A = append([]Chunk{{k: CLit, s: ca.s[n:]}}, A[1:]...)
			B = append([]Chunk{{k: CLit, s: cb.s[n:]}}, B[1:]...)
		case ca.k == CLit && cb.k == CByte:
			res = x.And(res, x.Eq(cb.t, x.BVc(uint64(ca.s[0]), 8)))
			A = append([]Chunk{{k: CLit, s: ca.s[1:]}}, A[1:]...)
			B = B[1:]
		case ca.k == CLit && cb.k == CRune:
			r, n := utf8.DecodeRuneInString(ca.s)
			if r == utf8.RuneError {
				return x.False
			}
			res = x.And(res, x.Eq(cb.t, x.BVc(uint64(uint32(r)), 32)))
			A = append([]Chunk{{k: CLit, s: ca.s[n:]}}, A[1:]...)
			B = B[1:]
		case ca.k == CLit && (cb.k == CDec || cb.k == CHex) && (len(B) == 1 || B[1].k == CLit && !isHexB(B[1].s[0])):
			i := 0
			if i < len(ca.s) && (ca.s[0] == '-' || ca.s[0] == ' ') {
				i++
			}
			for i < len(ca.s) && (isDigitB(ca.s[i]) || cb.k == CHex && isHexB(ca.s[i])) {
				i++
			}
			if i == len(ca.s) && len(A) > 1 && A[1].k != CLit {
				unsup("string compare: digits followed by symbolic")
			}
			v, okv := parseDec(cb, ca.s[:i])
			if !okv {
				return x.False
			}
			res = x.And(res, x.Eq(cb.t, x.BVc(v, 64)))
			A = append([]Chunk{{k: CLit, s: ca.s[i:]}}, A[1:]...)
			B = B[1:]
		case ca.k == cb.k && (ca.k == CByte || ca.k == CRune):
			res = x.And(res, x.Eq(ca.t, cb.t))
			A, B = A[1:], B[1:]
		case hexDigest(A) != nil && hexDigest(B) != nil && ca.up == cb.up:
			// digests of the same length are alike when what they are of is (idealised)
			da, db := hexDigest(A), hexDigest(B)
			res = x.And(res, w.ropeEq(da.ins[0], db.ins[0]))
			A, B = A[da.n:], B[db.n:]
		case ca.k == cb.k && (ca.k == CDec || ca.k == CHex) && ca.n == cb.n && ca.zero == cb.zero && ca.uns == cb.uns && ca.up == cb.up:
			res = x.And(res, x.Eq(ca.t, cb.t))
			A, B = A[1:], B[1:]
		case ca.k == CFlt && cb.k == CFlt && ca.t == cb.t && ca.n == cb.n:
			A, B = A[1:], B[1:]
		case ca.k == CFlt && cb.k == CFlt && ca.n == cb.n && ca.n <= 9:
			// printed alike: certainly when equal, never when a unit apart
			d := x.FUn(OFAbs, x.FBin(OFSub, ca.t, cb.t))
			p := x.Eq(x.UF(fmt.Sprintf("prteq%d", ca.n), SBV, 64, 0, 1, ca.t, cb.t), x.BVc(1, 64))
			near := x.FCmp(OFLe, d, x.Fc(math.Pow(10, -float64(ca.n))))
			res = x.And(res, x.Or(x.Eq(ca.t, cb.t), x.And(near, p)))
			A, B = A[1:], B[1:]
		case ca.k == CLit && cb.k == CFlt && cb.n >= 1 && cb.n <= 9 && (len(A) == 1 || len(ca.s) > 30):
			// printed as this number: exactly when it rounds to it
			i := 0
			if ca.s[0] == '-' {
				i++
			}
			i0 := i
			for i < len(ca.s) && isDigitB(ca.s[i]) {
				i++
			}
			j := i + 1 + cb.n
			if i == i0 || ca.s[i0] == '0' && i > i0+1 || j > len(ca.s) || ca.s[i] != '.' {
				return x.False
			}
			for _, c := range []byte(ca.s[i+1 : j]) {
				if !isDigitB(c) {
					return x.False
				}
			}
			v, err := strconv.ParseFloat(ca.s[:j], 64)
			if err != nil {
				return x.False
			}
			sign := x.FCmp(OFLe, x.Fc(0), cb.t)
			if i0 > 0 {
				sign = x.FCmp(OFLt, cb.t, x.Fc(0))
			}
			u := math.Pow(10, -float64(cb.n)) / 2
			d := x.FUn(OFAbs, x.FBin(OFSub, cb.t, x.Fc(v)))
			p := x.Eq(x.UF(fmt.Sprintf("prteq%d", cb.n), SBV, 64, 0, 1, cb.t, x.Fc(v)), x.BVc(1, 64))
			res = x.And(res, x.And(sign, x.Or(x.FCmp(OFLt, d, x.Fc(u*(1-1e-9))), x.And(x.FCmp(OFLe, d, x.Fc(u*(1+1e-9))), p))))
			A = append([]Chunk{{k: CLit, s: ca.s[j:]}}, A[1:]...)
			B = B[1:]
		case ca.k == CBlob && cb.k == CBlob && ca.blob == cb.blob:
			A, B = A[1:], B[1:]
		case ca.k == CBlob && cb.k == CBlob && ca.blob.kind == cb.blob.kind && ca.blob.n == cb.blob.n && len(ca.blob.ins) == len(cb.blob.ins) && len(ca.blob.ins) > 0 && ca.blob.level == cb.blob.level && ca.blob.off == cb.blob.off:
			// equal transforms iff equal inputs (injective for zlib; idealised for md5/rc4)
			e := x.True
			for i := range ca.blob.ins {
				e = x.And(e, w.ropeEq(ca.blob.ins[i], cb.blob.ins[i]))
			}
			res = x.And(res, e)
			A, B = A[1:], B[1:]
		case ca.k == CBlob && cb.k == CBlob && ca.blob.kind == "sub" && cb.blob.kind == "sub" && ca.blob.off == cb.blob.off && ca.blob.n == cb.blob.n:
			res = x.And(res, w.ropeEq(&Str{ch: []Chunk{{k: CBlob, blob: ca.blob.src}}}, &Str{ch: []Chunk{{k: CBlob, blob: cb.blob.src}}}))
			A, B = A[1:], B[1:]
		case (ca.k == CByte || ca.k == CLit || ca.k == CRune) && (cb.k == CByte || cb.k == CRune || cb.k == CBlob && cb.blob.n >= 0 || cb.k == CDec || cb.k == CHex) || ca.k == CBlob && ca.blob.n >= 0 && (cb.k == CByte || cb.k == CRune || cb.k == CBlob && cb.blob.n >= 0):
			// byte-level comparison of everything left
			va, vb := w.bytesOf(&Str{ch: A}), w.bytesOf(&Str{ch: B})
			if len(va) != len(vb) {
				return x.False
			}
			for i := range va {
				res = x.And(res, x.Eq(w.term(va[i], tByte), w.term(vb[i], tByte)))
			}
			return res
		default:
			unsup("string compare of %d/%d chunks", ca.k, cb.k)
		}
	}
}

// hexDigest is the digest that a text begins with in hexadecimal.
func hexDigest(ch []Chunk) *Blob {
	var b *Blob
	for i := 0; ; i++ {
		if b != nil && i == b.n {
			return b
		}
		if i >= len(ch) || ch[i].k != CHex || ch[i].n != 2 || ch[i].t.op != OZExt || ch[i].t.args[0].op != OBlobByte {
			return nil
		}
		t := ch[i].t.args[0]
		if i == 0 {
			if b = t.blob; b.kind != "md5" {
				return nil
			}
		}
		if t.blob != b || t.c != uint64(i) {
			return nil
		}
	}
}

func isHexB(b byte) bool {
	return isDigitB(b) || b >= 'a' && b <= 'f' || b >= 'A' && b <= 'F'
}

func parseDec(c Chunk, s string) (uint64, bool) {
	base := 10
	if c.k == CHex {
		base = 16
	}
	t := strings.TrimLeft(s, " ")
	neg := strings.HasPrefix(t, "-")
	t = strings.TrimPrefix(t, "-")
	var v uint64
	if t == "" {
		return 0, false
	}
	for i := 0; i < len(t); i++ {
		d := strings.IndexByte("0123456789abcdef", t[i]|0x20)
		if t[i] >= '0' && t[i] <= '9' {
			d = int(t[i] - '0')
		}
		if d < 0 || d >= base {
			return 0, false
		}
		v = v*uint64(base) + uint64(d)
	}
	if neg {
		v = -v
	}
	if fmtDec(c, v) != s {
		return 0, false
	}
	return v, true
}

// ---- generic equality

func (w *Worker) eq(a, b Value, t types.Type) *Term {
	x := w.x
	switch u := t.Underlying().(type) {
	case *types.Basic:
		ti := tinf(t)
		switch ti.k {
		case kString:
			return w.strEq(a, b)
		case kOther:
			return x.Bool(a == b)
		}
		if a.X == nil && b.X == nil {
			if ti.k == kFloat {
				return x.Bool(math.Float64frombits(a.N) == math.Float64frombits(b.N))
			}
			return x.Bool(a.N == b.N)
		}
		return x.Eq(w.term(a, ti), w.term(b, ti))
	case *types.Struct:
		r := x.True
		sa, sb := a.X.(*StructV), b.X.(*StructV)
		for i := range sa.f {
			r = x.And(r, w.eq(sa.f[i], sb.f[i], u.Field(i).Type()))
		}
		return r
	case *types.Array:
		r := x.True
		sa, sb := a.X.(*ArrV), b.X.(*ArrV)
		for i := range sa.v {
			r = x.And(r, w.eq(sa.v[i], sb.v[i], u.Elem()))
		}
		return r
	case *types.Interface:
		ia, _ := a.X.(*Iface)
		ib, _ := b.X.(*Iface)
		if ia == nil || ib == nil {
			return x.Bool(ia == nil && ib == nil)
		}
		if typeID(ia.t) != typeID(ib.t) {
			return x.False
		}
		return w.eq(ia.v, ib.v, ia.t)
	case *types.Slice:
		// only nil comparisons are legal
		return x.Bool((a.X == nil) == (b.X == nil) && (a.X == nil || b.X == nil))
	case *types.Map, *types.Signature:
		return x.Bool((a.X == nil) && (b.X == nil))
	}
	return x.Bool(a.X == b.X)
}

// ---- maps

func (w *Worker) mapKey(k Value, t types.Type) (any, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if tinf(t).k == kString {
			s, ok := concStr(k)
			return s, ok
		}
		if k.X != nil {
			return nil, false
		}
		return k.N, true
	case *types.Struct:
		s := k.X.(*StructV)
		var sb strings.Builder
		for i := range s.f {
			kk, ok := w.mapKey(s.f[i], u.Field(i).Type())
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v|", kk, kk)
		}
		return "{" + sb.String(), true
	case *types.Array:
		s := k.X.(*ArrV)
		var sb strings.Builder
		for i := range s.v {
			kk, ok := w.mapKey(s.v[i], u.Elem())
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v|", kk, kk)
		}
		return "[" + sb.String(), true
	case *types.Interface:
		i, _ := k.X.(*Iface)
		if i == nil {
			return nil, true
		}
		kk, ok := w.mapKey(i.v, i.t)
		return fmt.Sprintf("i%d:%T:%v", typeID(i.t), kk, kk), ok
	}
	return k.X, true
}

func (w *Worker) mapFind(m *MapObj, k Value) int {
	if m == nil {
		return -1
	}
	ck, conc := w.mapKey(k, m.kt)
	if conc {
		if i, ok := m.idx[ck]; ok && m.ents[i].live {
			return i
		}
		if m.sym == 0 {
			return -1
		}
	}
	for i, e := range m.ents {
		if !e.live {
			continue
		}
		if conc {
			if _, c2 := w.mapKey(e.k, m.kt); c2 {
				continue
			}
		}
		w.steps += 10
		t := w.eq(e.k, k, m.kt)
		if t == w.x.False {
			continue
		}
		if w.branch(t) {
			return i
		}
	}
	return -1
}
func (w *Worker) mapSet(m *MapObj, k, v Value) {
	if i := w.mapFind(m, k); i >= 0 {
		m.ents[i].v = cp(v)
		return
	}
	ck, conc := w.mapKey(k, m.kt)
	if conc {
		m.idx[ck] = len(m.ents)
	} else {
		m.sym++
	}
	m.ents = append(m.ents, &mapEnt{cp(k), cp(v), true})
	m.n++
}
func (w *Worker) mapDel(m *MapObj, k Value) {
	if i := w.mapFind(m, k); i >= 0 {
		m.ents[i].live = false
		m.n--
		ck, conc := w.mapKey(m.ents[i].k, m.kt)
		if conc {
			delete(m.idx, ck)
		} else {
			m.sym--
		}
	}
}
func sortedKeys(m map[string]int) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
