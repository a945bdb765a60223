package main

import (
	"crypto/sha1"
	"fmt"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func decodeRune(s string) (rune, int) { return utf8.DecodeRuneInString(s) }

func tup(vs ...Value) Value { return Value{X: vs} }

func (w *Worker) errVal(msg Value) Value {
	p := w.e.prog.ImportedPackage("errors")
	return w.call(p.Func("New"), []Value{msg}, nil)
}

func (w *Worker) str(v Value) *Str { return asStr(v) }

func field(v Value, i int) *Value {
	p, ok := v.X.(*Value)
	if !ok {
		rtPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	return &p.X.(*StructV).f[i]
}

// drop notes the length of what a buffer is about to lose: its capacity stays.
func (w *Worker) drop(b *bufRope) {
	if n := w.x.strLen(w.bufStr(b)); n.isC() && int(n.c) > b.high {
		b.high = int(n.c)
	}
}

// bytes.Buffer model: field 0 holds *Slice (rope) or *bufRope
func (w *Worker) bufGet(v Value) *bufRope {
	f := field(v, 0)
	switch b := f.X.(type) {
	case *bufRope:
		return b
	case nil:
		n := &bufRope{}
		f.X = n
		return n
	case *Slice:
		r := w.sliceRope(b)
		off := field(v, 1)
		if off.X != nil || off.N != 0 {
			r = w.ropeSub(r, w.term(*off, tInt), nil)
			*off = Value{}
		}
		n := &bufRope{ch: append([]Chunk{}, r.ch...)}
		f.X = n
		return n
	}
	panic("bufGet")
}
func (w *Worker) bufStr(b *bufRope) *Str {
	s := w.x.normRope(b.ch)
	b.ever = b.ever || len(s.ch) > 0
	b.ch = append(b.ch[:0:0], s.ch...)
	return s
}

func (w *Worker) writeTo(wr Value, s *Str) Value {
	i, _ := wr.X.(*Iface)
	if i == nil {
		rtPanic("runtime error: invalid memory address or nil pointer dereference (nil writer)")
	}
	if strings.HasSuffix(i.t.String(), "os.File") {
		return tup(fromTerm(w.x.strLen(s), tInt), Value{})
	}
	return w.invoke(wr, "Write", []Value{ropeSlice(s)})
}

func (w *Worker) newIn(name, kind string, t *Term, v uint64) {
	w.inputs = append(w.inputs, Input{Name: name, Kind: kind, t: t, v: v})
}

func (w *Worker) assertT(c *Term, msg string) {
	w.asserts++
	if c.isC() && c.c != 0 || !c.isC() && w.known(c) > 0 {
		w.synOK++
		return
	}
	if os.Getenv("SYMGO_DBG") != "" && !c.isC() {
		fmt.Fprintln(os.Stderr, "ASSERT", msg, showTerm(c, 6))
	}
	w.pending = append(w.pending, pend{c: c, msg: msg})
}

func showTerm(t *Term, d int) string {
	if d == 0 {
		return "…"
	}
	switch t.op {
	case OConst:
		if t.sort == SF64 {
			return fmt.Sprint(t.f())
		}
		return fmt.Sprint(t.c)
	case OVar:
		return t.name
	}
	s := fmt.Sprintf("(%d", t.op)
	if t.op == OLin {
		s += fmt.Sprintf(" %d", int64(t.c))
	}
	for i, a := range t.args {
		if t.coef != nil {
			s += fmt.Sprintf(" %d*", int64(t.coef[i]))
		}
		s += " " + showTerm(a, d-1)
	}
	return s + ")"
}

const hp = "github.com/signintech/gopdf."

func buildModels() map[string]native {
	m := map[string]native{}
	f64 := func(w *Worker, v Value) *Term { return w.term(v, tF64) }

	// ---- harness intrinsics
	m[hp+"vInt"] = func(w *Worker, a []Value) Value {
		lo, hi := int64(a[1].N), int64(a[2].N)
		if lo == hi {
			w.newIn(mustStr(a[0]), "int", nil, uint64(lo))
			return iv(int(lo))
		}
		var t *Term
		if lo >= 0 {
			nb := uint8(1)
			for uint64(hi)>>nb != 0 {
				nb++
			}
			if nb > 52 {
				nb = 64
			}
			v := w.newVar(SBV, nb, uint64(lo), uint64(hi))
			t = w.x.ZExt(v, 64)
		} else {
			v := w.newVar(SBV, 64, 0, uint64(hi-lo))
			t = w.x.Add(v, w.x.BVc(uint64(lo), 64))
		}
		w.newIn(mustStr(a[0]), "int", t, 0)
		return fromTerm(t, tInt)
	}
	m[hp+"vFloat"] = func(w *Worker, a []Value) Value {
		v := w.newVar(SF64, 64, a[1].N, a[2].N)
		w.newIn(mustStr(a[0]), "float", v, 0)
		return Value{X: v}
	}
	m[hp+"vBool"] = func(w *Worker, a []Value) Value {
		v := w.newVar(SBool, 1, 0, 0)
		w.newIn(mustStr(a[0]), "bool", v, 0)
		return Value{X: v}
	}
	m[hp+"vChoice"] = func(w *Worker, a []Value) Value {
		k := w.choice(int(a[1].N))
		w.newIn(mustStr(a[0]), "choice", nil, uint64(k))
		return iv(k)
	}
	m[hp+"vGC"] = func(w *Worker, a []Value) Value { return Value{} }
	m[hp+"vRune"] = func(w *Worker, a []Value) Value {
		v := w.newVar(SBV, 32, a[1].N, a[2].N)
		w.newIn(mustStr(a[0]), "rune", v, 0)
		if a[1].N <= 0xDFFF && a[2].N >= 0xD800 {
			w.assume(w.x.Or(w.x.Cmp(OULt, v, w.x.BVc(0xD800, 32)), w.x.Cmp(OULt, w.x.BVc(0xDFFF, 32), v)))
		}
		return Value{X: v}
	}
	m[hp+"vByte"] = func(w *Worker, a []Value) Value {
		v := w.newVar(SBV, 8, 0, 255)
		w.newIn(mustStr(a[0]), "byte", v, 0)
		return Value{X: v}
	}
	m[hp+"vBytes"] = func(w *Worker, a []Value) Value {
		n := int(a[1].N)
		arr := &ArrV{v: make([]Value, n)}
		for i := range arr.v {
			v := w.newVar(SBV, 8, 0, 255)
			w.newIn(mustStr(a[0]), "byte", v, 0)
			arr.v[i] = Value{X: v}
		}
		return Value{X: &Slice{a: arr, len: n, cap: n}}
	}
	m[hp+"vBlob"] = func(w *Worker, a []Value) Value {
		v := w.newVar(SBV, 32, a[1].N, a[2].N)
		t := w.x.ZExt(v, 64)
		nm := mustStr(a[0])
		w.newIn(nm, "blob", t, 0)
		b := w.x.mkBlob(&Blob{kind: "input", name: nm, t: t, n: -1})
		return ropeSlice(&Str{ch: []Chunk{{k: CBlob, blob: b}}})
	}
	m[hp+"vAssume"] = func(w *Worker, a []Value) Value { w.assume(w.term(a[0], tBool)); return Value{} }
	m[hp+"vAssert"] = func(w *Worker, a []Value) Value {
		w.assertT(w.term(a[0], tBool), mustStr(a[1]))
		return Value{}
	}
	m[hp+"vReach"] = func(w *Worker, a []Value) Value { w.labels[mustStr(a[0])] = true; return Value{} }
	obs := func(k tinfo) native {
		return func(w *Worker, a []Value) Value {
			v := a[1]
			if s, ok := v.X.(*Slice); ok {
				v = strV(w.sliceRope(s))
			}
			w.obs = append(w.obs, obsItem{mustStr(a[0]), v, k})
			return Value{}
		}
	}
	m[hp+"vObsI"] = obs(tInt)
	m[hp+"vObsF"] = obs(tF64)
	m[hp+"vObsB"] = obs(tBool)
	m[hp+"vObsS"] = obs(tinfo{k: kString})
	m[hp+"vObsBytes"] = obs(tinfo{k: kString})
	m[hp+"vNear"] = func(w *Worker, a []Value) Value {
		p, q, tol := f64(w, a[0]), f64(w, a[1]), f64(w, a[2])
		if p == q {
			return bv(true)
		}
		if linNear(p, q, tol.f()) {
			return bv(true)
		}
		d := w.x.FBin(OFSub, p, q)
		nt := w.x.FUn(OFNeg, tol)
		return fromTerm(w.x.And(w.x.FCmp(OFLe, d, tol), w.x.FCmp(OFLe, nt, d)), tBool)
	}
	m[hp+"vAnd"] = func(w *Worker, a []Value) Value {
		return fromTerm(w.x.And(w.term(a[0], tBool), w.term(a[1], tBool)), tBool)
	}
	m[hp+"vOr"] = func(w *Worker, a []Value) Value {
		return fromTerm(w.x.Or(w.term(a[0], tBool), w.term(a[1], tBool)), tBool)
	}
	m[hp+"vImplies"] = func(w *Worker, a []Value) Value {
		return fromTerm(w.x.Or(w.x.Not(w.term(a[0], tBool)), w.term(a[1], tBool)), tBool)
	}
	m[hp+"vIteI"] = func(w *Worker, a []Value) Value { return w.ite(a[0], a[1], a[2], tInt) }
	m[hp+"vIteF"] = func(w *Worker, a []Value) Value { return w.ite(a[0], a[1], a[2], tF64) }
	m[hp+"vStrEq"] = func(w *Worker, a []Value) Value { return fromTerm(w.strEq(a[0], a[1]), tBool) }
	m[hp+"vConc"] = func(w *Worker, a []Value) Value { return iv(int(w.intOf(a[0], tInt))) }
	m[hp+"vMapOrder"] = func(w *Worker, a []Value) Value { w.mapOrder = a[0].N != 0; return Value{} }
	m[hp+"vMaxAlloc"] = func(w *Worker, a []Value) Value { return iv(int(w.maxAlloc)) }
	m[hp+"vSymbolic"] = func(w *Worker, a []Value) Value { return bv(true) }
	m[hp+"vTier"] = func(w *Worker, a []Value) Value { return iv(w.h.opt.Tier) }
	m[hp+"vTokens"] = func(w *Worker, a []Value) Value {
		s, _ := a[0].X.(*Slice)
		return w.tokens(w.sliceRope(s), a[1].N != 0)
	}
	m[hp+"vFlevel"] = func(w *Worker, a []Value) Value {
		s, _ := a[0].X.(*Slice)
		r := w.sliceRope(s)
		if l, ok := r.isLit(); ok {
			if len(l) < 2 {
				return iv(-1)
			}
			return iv(int(l[1] >> 6))
		}
		if len(r.ch) == 1 && r.ch[0].k == CBlob && r.ch[0].blob.kind == "zlib" {
			switch lv := r.ch[0].blob.level; {
			case lv == -1 || lv == 6:
				return iv(2)
			case lv < 2:
				return iv(0)
			case lv < 6:
				return iv(1)
			default:
				return iv(3)
			}
		}
		return iv(-1)
	}
	m[hp+"vInflate"] = func(w *Worker, a []Value) Value {
		s, _ := a[0].X.(*Slice)
		r := w.sliceRope(s)
		out, ok := w.inflate(r)
		if !ok {
			return tup(Value{}, bv(false))
		}
		return tup(ropeSlice(out), bv(true))
	}
	m[hp+"vUnescOp"] = func(w *Worker, a []Value) Value {
		s := asStr(a[0])
		if l, ok := s.isLit(); ok {
			return tup(sv(string(unescPDF([]byte(l)))), bv(true))
		}
		for _, c := range s.ch {
			if c.k == CBlob {
				return tup(strV(w.x.unescStr(s)), bv(true))
			}
		}
		return tup(sv(""), bv(false))
	}
	m[hp+"vUnhex"] = func(w *Worker, a []Value) Value {
		s := asStr(a[0])
		var out []Chunk
		pend := -1
		for _, c := range s.ch {
			switch c.k {
			case CLit:
				for i := 0; i < len(c.s); i++ {
					d := c.s[i]
					v := -1
					switch {
					case d >= '0' && d <= '9':
						v = int(d - '0')
					case d >= 'a' && d <= 'f':
						v = int(d-'a') + 10
					case d >= 'A' && d <= 'F':
						v = int(d-'A') + 10
					}
					if v < 0 {
						continue
					}
					if pend < 0 {
						pend = v
					} else {
						out = append(out, Chunk{k: CLit, s: string([]byte{byte(pend*16 + v)})})
						pend = -1
					}
				}
			case CHex:
				if pend >= 0 || c.n%2 != 0 || !c.zero || !w.hexFits(c) {
					unsup("hex digits of %d", c.n)
				}
				for i := c.n/2 - 1; i >= 0; i-- {
					out = append(out, Chunk{k: CByte, t: w.x.Extract(c.t, uint8(8*i), 8)})
				}
			default:
				unsup("hex digits")
			}
		}
		if pend >= 0 {
			out = append(out, Chunk{k: CLit, s: string([]byte{byte(pend * 16)})})
		}
		return strV(w.x.normRope(out))
	}
	m[hp+"vCRC"] = func(w *Worker, a []Value) Value {
		s, _ := a[0].X.(*Slice)
		return ropeSlice(w.x.crcStr(w.sliceRope(s)))
	}
	m[hp+"vAdler"] = func(w *Worker, a []Value) Value {
		s, _ := a[0].X.(*Slice)
		r := w.x.adlerStr(w.sliceRope(s))
		if r == nil {
			unsup("vAdler of this data")
		}
		return ropeSlice(r)
	}
	m[hp+"vMD5"] = func(w *Worker, a []Value) Value {
		s, _ := a[0].X.(*Slice)
		return ropeSlice(w.x.md5Str(w.sliceRope(s)))
	}
	m[hp+"vRC4"] = func(w *Worker, a []Value) Value {
		k, _ := a[0].X.(*Slice)
		s, _ := a[1].X.(*Slice)
		return ropeSlice(w.x.rc4Str(w.sliceRope(k), w.sliceRope(s), 0))
	}
	m[hp+"vBytesEq"] = func(w *Worker, a []Value) Value {
		p, _ := a[0].X.(*Slice)
		q, _ := a[1].X.(*Slice)
		return fromTerm(w.ropeEq(w.sliceRope(p), w.sliceRope(q)), tBool)
	}

	// ---- math
	fu := func(op Op) native {
		return func(w *Worker, a []Value) Value { return fromTerm(w.x.FUn(op, f64(w, a[0])), tF64) }
	}
	m["math.Abs"] = fu(OFAbs)
	m["math.Sqrt"] = fu(OFSqrt)
	m["math.sqrt"] = fu(OFSqrt)
	m["math.Floor"] = fu(OFFloor)
	m["math.Ceil"] = fu(OFCeil)
	m["math.Trunc"] = fu(OFTrunc)
	m["math.Round"] = fu(OFRound)
	m["math.RoundToEven"] = fu(OFRoundEven)
	uf := func(n string) native {
		return func(w *Worker, a []Value) Value {
			ts := make([]*Term, len(a))
			for i := range a {
				ts[i] = f64(w, a[i])
			}
			return fromTerm(w.x.UF(n, SF64, 64, 0, 0, ts...), tF64)
		}
	}
	for _, n := range []string{"sin", "cos", "tan", "atan", "exp", "log10"} {
		m["math."+strings.ToUpper(n[:1])+n[1:]] = uf(n)
	}
	m["math.Atan2"] = uf("atan2")
	m["math.Mod"] = uf("mod")
	m["math.Pow"] = func(w *Worker, a []Value) Value {
		x, y := f64(w, a[0]), f64(w, a[1])
		if y.isC() && y.f() == 2 {
			return fromTerm(w.x.FBin(OFMul, x, x), tF64)
		}
		return uf("pow")(w, a)
	}
	minmax := func(mx bool) native {
		return func(w *Worker, a []Value) Value {
			if a[0].X == nil && a[1].X == nil {
				p, q := math.Float64frombits(a[0].N), math.Float64frombits(a[1].N)
				if mx {
					return fv(math.Max(p, q))
				}
				return fv(math.Min(p, q))
			}
			p, q := f64(w, a[0]), f64(w, a[1])
			c := w.x.FCmp(OFLe, p, q)
			if mx {
				c = w.x.FCmp(OFLe, q, p)
			}
			return fromTerm(w.x.Ite(c, p, q), tF64)
		}
	}
	m["math.Max"] = minmax(true)
	m["math.Min"] = minmax(false)
	m["math.IsNaN"] = func(w *Worker, a []Value) Value {
		if a[0].X == nil {
			return bv(math.IsNaN(math.Float64frombits(a[0].N)))
		}
		return bv(false)
	}
	m["math.IsInf"] = func(w *Worker, a []Value) Value {
		if a[0].X == nil {
			return bv(math.IsInf(math.Float64frombits(a[0].N), int(int64(a[1].N))))
		}
		return bv(false)
	}
	m["math.Inf"] = func(w *Worker, a []Value) Value { return fv(math.Inf(int(int64(a[0].N)))) }
	m["math.NaN"] = func(w *Worker, a []Value) Value { return fv(math.NaN()) }
	m["math.Float64bits"] = func(w *Worker, a []Value) Value {
		if a[0].X == nil {
			return Value{N: a[0].N}
		}
		unsup("Float64bits of symbolic")
		return Value{}
	}
	m["math.Float64frombits"] = func(w *Worker, a []Value) Value {
		if a[0].X == nil {
			return Value{N: a[0].N}
		}
		unsup("Float64frombits of symbolic")
		return Value{}
	}
	m["math.Float32frombits"] = func(w *Worker, a []Value) Value {
		if a[0].X == nil {
			return fv(float64(math.Float32frombits(uint32(a[0].N))))
		}
		unsup("Float32frombits of symbolic")
		return Value{}
	}
	m["math.Float32bits"] = func(w *Worker, a []Value) Value {
		if a[0].X == nil {
			return Value{N: uint64(math.Float32bits(float32(math.Float64frombits(a[0].N))))}
		}
		unsup("Float32bits of symbolic")
		return Value{}
	}

	// ---- bytes.Buffer / strings.Builder
	for _, p := range []string{"(*bytes.Buffer).", "(*strings.Builder)."} {
		// strings.Builder: addr (field 0), buf (field 1); use field 1's slot through a wrapper
		fi := 0
		if strings.Contains(p, "Builder") {
			fi = 1
		}
		get := func(w *Worker, v Value) *bufRope {
			if fi == 0 {
				return w.bufGet(v)
			}
			f := field(v, 1)
			if b, ok := f.X.(*bufRope); ok {
				return b
			}
			n := &bufRope{}
			f.X = n
			return n
		}
		m[p+"Write"] = func(w *Worker, a []Value) Value {
			b := get(w, a[0])
			s, _ := a[1].X.(*Slice)
			b.ch = append(b.ch, w.sliceRope(s).ch...)
			return tup(fromTerm(w.sliceLen(s), tInt), Value{})
		}
		m[p+"WriteString"] = func(w *Worker, a []Value) Value {
			b := get(w, a[0])
			s := asStr(a[1])
			b.ch = append(b.ch, s.ch...)
			return tup(fromTerm(w.x.strLen(s), tInt), Value{})
		}
		m[p+"WriteByte"] = func(w *Worker, a []Value) Value {
			b := get(w, a[0])
			if a[1].X == nil {
				b.ch = append(b.ch, Chunk{k: CLit, s: string([]byte{byte(a[1].N)})})
			} else {
				b.ch = append(b.ch, Chunk{k: CByte, t: a[1].X.(*Term)})
			}
			return Value{}
		}
		m[p+"WriteRune"] = func(w *Worker, a []Value) Value {
			b := get(w, a[0])
			var c Chunk
			if a[1].X == nil {
				c = Chunk{k: CLit, s: string(rune(int64(a[1].N)))}
			} else {
				c = Chunk{k: CRune, t: a[1].X.(*Term)}
			}
			b.ch = append(b.ch, c)
			return tup(fromTerm(w.x.chunkLen(&c), tInt), Value{})
		}
		m[p+"String"] = func(w *Worker, a []Value) Value {
			if a[0].X == nil {
				return sv("<nil>")
			}
			return strV(w.bufStr(get(w, a[0])))
		}
		m[p+"Len"] = func(w *Worker, a []Value) Value { return fromTerm(w.x.strLen(w.bufStr(get(w, a[0]))), tInt) }
		m[p+"Reset"] = func(w *Worker, a []Value) Value {
			b := get(w, a[0])
			w.drop(b)
			b.ch = nil
			return Value{}
		}
		m[p+"Grow"] = func(w *Worker, a []Value) Value { return Value{} }
	}
	m["(*bytes.Buffer).Cap"] = func(w *Worker, a []Value) Value {
		b := w.bufGet(a[0])
		s := w.bufStr(b)
		if !b.ever {
			return iv(0)
		}
		n := w.x.strLen(s)
		if n.isC() && int(n.c) < b.high {
			n = w.x.BVc(uint64(b.high), 64)
		}
		return fromTerm(w.x.Add(n, w.x.BVc(64, 64)), tInt)
	}
	m["(*bytes.Buffer).Bytes"] = func(w *Worker, a []Value) Value { return ropeSlice(w.bufStr(w.bufGet(a[0]))) }
	m["(*bytes.Buffer).Truncate"] = func(w *Worker, a []Value) Value {
		b := w.bufGet(a[0])
		b.ch = append([]Chunk{}, w.ropeSub(w.bufStr(b), nil, w.term(a[1], tInt)).ch...)
		return Value{}
	}
	readBuf := func(w *Worker, buf Value, n int) (Value, int) {
		b := w.bufGet(buf)
		s := w.bufStr(b)
		if len(s.ch) == 0 {
			return Value{}, -1
		}
		l := w.x.strLen(s)
		if !l.isC() {
			unsup("Buffer.Read of symbolic length")
		}
		if int(l.c) < n {
			n = int(l.c)
		}
		h := w.ropeSub(s, nil, w.x.BVc(uint64(n), 64))
		b.ch = append([]Chunk{}, w.ropeSub(s, w.x.BVc(uint64(n), 64), nil).ch...)
		return ropeSlice(h), n
	}
	m["(*bytes.Buffer).Next"] = func(w *Worker, a []Value) Value {
		s, n := readBuf(w, a[0], int(w.intOf(a[1], tInt)))
		if n < 0 {
			return ropeSlice(&Str{})
		}
		return s
	}
	m["(*bytes.Buffer).Read"] = func(w *Worker, a []Value) Value {
		d, _ := a[1].X.(*Slice)
		if d == nil || d.len == 0 {
			return tup(iv(0), Value{})
		}
		s, n := readBuf(w, a[0], d.len)
		if n < 0 {
			return tup(iv(0), w.ioEOF())
		}
		w.copyS(a[1], s)
		return tup(iv(n), Value{})
	}
	m["(*bytes.Buffer).ReadByte"] = func(w *Worker, a []Value) Value {
		s, n := readBuf(w, a[0], 1)
		if n < 0 {
			return tup(iv(0), w.ioEOF())
		}
		sl := s.X.(*Slice)
		w.mat(sl)
		return tup(sl.a.v[0], Value{})
	}
	m["(*bytes.Buffer).WriteTo"] = func(w *Worker, a []Value) Value {
		b := w.bufGet(a[0])
		s := w.bufStr(b)
		w.drop(b)
		b.ch = nil
		if len(s.ch) == 0 {
			return tup(iv(0), Value{})
		}
		r := w.writeTo(a[1], s).X.([]Value)
		return tup(r[0], r[1])
	}
	m["(*bytes.Buffer).ReadFrom"] = func(w *Worker, a []Value) Value {
		p := w.e.prog.ImportedPackage("io")
		r := w.call(p.Func("ReadAll"), []Value{a[1]}, nil).X.([]Value)
		s, _ := r[0].X.(*Slice)
		b := w.bufGet(a[0])
		b.ch = append(b.ch, w.sliceRope(s).ch...)
		return tup(fromTerm(w.sliceLen(s), tInt), r[1])
	}
	m["bytes.NewBuffer"] = func(w *Worker, a []Value) Value {
		p := w.e.prog.ImportedPackage("bytes")
		z := zero(p.Type("Buffer").Type())
		s, _ := a[0].X.(*Slice)
		z.X.(*StructV).f[0] = Value{X: &bufRope{ch: append([]Chunk{}, w.sliceRope(s).ch...)}}
		return Value{X: &z}
	}
	m["bytes.NewBufferString"] = func(w *Worker, a []Value) Value {
		p := w.e.prog.ImportedPackage("bytes")
		z := zero(p.Type("Buffer").Type())
		z.X.(*StructV).f[0] = Value{X: &bufRope{ch: append([]Chunk{}, asStr(a[0]).ch...)}}
		return Value{X: &z}
	}

	// ---- bytes / strings helpers
	m["bytes.Equal"] = func(w *Worker, a []Value) Value {
		p, _ := a[0].X.(*Slice)
		q, _ := a[1].X.(*Slice)
		return fromTerm(w.ropeEq(w.sliceRope(p), w.sliceRope(q)), tBool)
	}
	m["bytes.Compare"] = func(w *Worker, a []Value) Value {
		p, _ := a[0].X.(*Slice)
		q, _ := a[1].X.(*Slice)
		rp, rq := w.sliceRope(p), w.sliceRope(q)
		lp, o1 := rp.isLit()
		lq, o2 := rq.isLit()
		if o1 && o2 {
			return iv(strings.Compare(lp, lq))
		}
		// only equality is distinguished by callers; produce 0 / nonzero through a branch
		if w.branch(w.ropeEq(rp, rq)) {
			return iv(0)
		}
		return iv(1)
	}
	conc := func(name string, f func(a []string) Value, symb func(w *Worker, a []Value) Value) {
		m["strings."+name] = func(w *Worker, a []Value) Value {
			ss := make([]string, len(a))
			for i := range a {
				s, ok := concStr(a[i])
				if !ok {
					if symb == nil {
						unsup("strings.%s of symbolic", name)
					}
					return symb(w, a)
				}
				ss[i] = s
			}
			return f(ss)
		}
	}
	strSlice := func(ss []string) Value {
		a := &ArrV{v: make([]Value, len(ss))}
		for i, s := range ss {
			a.v[i] = sv(s)
		}
		return Value{X: &Slice{a: a, len: len(ss), cap: len(ss)}}
	}
	conc("Index", func(a []string) Value { return iv(strings.Index(a[0], a[1])) }, func(w *Worker, a []Value) Value {
		o := w.symIndex(asStr(a[0]), mustStr(a[1]))
		if o < 0 {
			return iv(-1)
		}
		return fromTerm(w.x.offsets(w.units(asStr(a[0])))[o], tInt)
	})
	conc("LastIndex", func(a []string) Value { return iv(strings.LastIndex(a[0], a[1])) }, nil)
	conc("Contains", func(a []string) Value { return bv(strings.Contains(a[0], a[1])) }, func(w *Worker, a []Value) Value {
		return bv(w.symIndex(asStr(a[0]), mustStr(a[1])) >= 0)
	})
	conc("HasPrefix", func(a []string) Value { return bv(strings.HasPrefix(a[0], a[1])) }, func(w *Worker, a []Value) Value {
		return bv(w.symMatchAt(w.units(asStr(a[0])), 0, mustStr(a[1])))
	})
	conc("TrimRight", func(a []string) Value { return sv(strings.TrimRight(a[0], a[1])) }, func(w *Worker, a []Value) Value {
		cut := mustStr(a[1])
		ch := asStr(a[0]).ch
		for len(ch) > 0 {
			c := ch[len(ch)-1]
			rest := ch[: len(ch)-1 : len(ch)-1]
			switch {
			case c.k == CLit:
				t := strings.TrimRight(c.s, cut)
				if t != "" {
					c.s, c.ln = t, nil
					return Value{X: w.x.normRope(append(rest, c))}
				}
			case c.k == CByte || c.k == CRune:
				in := w.x.False
				for _, r := range cut {
					if r >= 0x80 {
						unsup("strings.TrimRight of other than ASCII")
					}
					in = w.x.Or(in, w.x.Eq(c.t, w.x.BVc(uint64(r), c.t.w)))
				}
				if !w.branch(in) {
					return Value{X: w.x.normRope(ch)}
				}
			case (c.k == CDec || c.k == CHex || c.k == CFlt) && !strings.ContainsAny(cut, "0123456789abcdefABCDEFIinN.+- "):
				return Value{X: w.x.normRope(ch)}
			default:
				unsup("strings.TrimRight of symbolic")
			}
			ch = rest
		}
		return sv("")
	})
	conc("HasSuffix", func(a []string) Value { return bv(strings.HasSuffix(a[0], a[1])) }, func(w *Worker, a []Value) Value {
		if s := asStr(a[0]); len(s.ch) > 0 {
			suf, ok := concStr(a[1])
			if c := s.ch[len(s.ch)-1]; ok && c.k == CLit && len(c.s) >= len(suf) {
				return bv(strings.HasSuffix(c.s, suf))
			}
		}
		u := w.units(asStr(a[0]))
		n := utf8.RuneCountInString(mustStr(a[1]))
		if len(u.ch) < n {
			return bv(false)
		}
		return bv(w.symMatchAt(u, len(u.ch)-n, mustStr(a[1])))
	})
	conc("ToUpper", func(a []string) Value { return sv(strings.ToUpper(a[0])) }, nil)
	conc("ToLower", func(a []string) Value { return sv(strings.ToLower(a[0])) }, nil)
	conc("TrimSpace", func(a []string) Value { return sv(strings.TrimSpace(a[0])) }, func(w *Worker, a []Value) Value {
		u := w.units(asStr(a[0])).ch
		isSp := func(c Chunk) bool {
			if c.k == CLit {
				return strings.TrimSpace(c.s) == ""
			}
			wd := uint8(32)
			if c.k == CByte {
				wd = 8
			} else if c.k != CRune {
				return false
			}
			r := w.x.False
			for _, s := range []uint64{' ', '\t', '\n', '\v', '\f', '\r', 0x85, 0xA0, 0x1680, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000} {
				if s <= mask(wd) {
					r = w.x.Or(r, w.x.Eq(c.t, w.x.BVc(s, wd)))
				}
			}
			if wd == 32 {
				r = w.x.Or(r, w.x.And(w.x.Cmp(OULe, w.x.BVc(0x2000, 32), c.t), w.x.Cmp(OULe, c.t, w.x.BVc(0x200a, 32))))
			}
			return w.branch(r)
		}
		for len(u) > 0 && isSp(u[0]) {
			u = u[1:]
		}
		for len(u) > 0 && isSp(u[len(u)-1]) {
			u = u[:len(u)-1]
		}
		return strV(w.x.normRope(u))
	})
	conc("Split", func(a []string) Value { return strSlice(strings.Split(a[0], a[1])) }, func(w *Worker, a []Value) Value {
		sep := mustStr(a[1])
		u := w.units(asStr(a[0]))
		if sep == "" {
			unsup("split by empty")
		}
		n := utf8.RuneCountInString(sep)
		var out []Value
		for {
			i := w.symIndexU(u, sep)
			if i < 0 {
				out = append(out, strV(w.x.normRope(u.ch)))
				break
			}
			out = append(out, strV(w.x.normRope(u.ch[:i])))
			u = &Str{ch: u.ch[i+n:]}
		}
		return Value{X: &Slice{a: &ArrV{v: out}, len: len(out), cap: len(out)}}
	})
	repl := func(w *Worker, s *Str, old, nw string) Value {
		if len(s.ch) == 1 && s.ch[0].k == CBlob && len(old) == 1 {
			return strV(w.x.replStr(s, old, nw))
		}
		u := w.units(s)
		n := utf8.RuneCountInString(old)
		var out []Chunk
		for {
			i := w.symIndexU(u, old)
			if i < 0 {
				out = append(out, u.ch...)
				break
			}
			out = append(out, u.ch[:i]...)
			out = append(out, Chunk{k: CLit, s: nw})
			u = &Str{ch: u.ch[i+n:]}
		}
		return strV(w.x.normRope(out))
	}
	m["strings.Replace"] = func(w *Worker, a []Value) Value {
		s, ok := concStr(a[0])
		if ok {
			return sv(strings.Replace(s, mustStr(a[1]), mustStr(a[2]), int(int64(a[3].N))))
		}
		if int64(a[3].N) >= 0 {
			unsup("strings.Replace with limit")
		}
		return repl(w, asStr(a[0]), mustStr(a[1]), mustStr(a[2]))
	}
	m["strings.ReplaceAll"] = func(w *Worker, a []Value) Value {
		s, ok := concStr(a[0])
		if ok {
			return sv(strings.ReplaceAll(s, mustStr(a[1]), mustStr(a[2])))
		}
		return repl(w, asStr(a[0]), mustStr(a[1]), mustStr(a[2]))
	}
	m["strings.Repeat"] = func(w *Worker, a []Value) Value {
		n := int(w.intOf(a[1], tInt))
		if s, ok := concStr(a[0]); ok {
			return sv(strings.Repeat(s, n))
		}
		var ch []Chunk
		for i := 0; i < n; i++ {
			ch = append(ch, asStr(a[0]).ch...)
		}
		return strV(w.x.normRope(ch))
	}
	m["strings.Join"] = func(w *Worker, a []Value) Value {
		s, _ := a[0].X.(*Slice)
		var ch []Chunk
		if s != nil {
			for i := 0; i < s.len; i++ {
				if i > 0 {
					ch = append(ch, asStr(a[1]).ch...)
				}
				ch = append(ch, asStr(s.a.v[s.off+i]).ch...)
			}
		}
		return strV(w.x.normRope(ch))
	}
	m["internal/stringslite.Clone"] = func(w *Worker, a []Value) Value { return a[0] }
	m["strings.Fields"] = func(w *Worker, a []Value) Value { return strSlice(strings.Fields(mustStr(a[0]))) }
	m["unicode/utf8.RuneCountInString"] = func(w *Worker, a []Value) Value {
		if s, ok := concStr(a[0]); ok {
			return iv(utf8.RuneCountInString(s))
		}
		r := w.toRunes(a[0]).X.(*Slice)
		return iv(r.len)
	}
	m["unicode/utf8.ValidString"] = func(w *Worker, a []Value) Value {
		if s, ok := concStr(a[0]); ok {
			return bv(utf8.ValidString(s))
		}
		return bv(true)
	}
	dec := func(w *Worker, s *Str) Value {
		if len(s.ch) == 0 {
			return tup(Value{N: uint64(utf8.RuneError)}, iv(0))
		}
		c := &s.ch[0]
		switch c.k {
		case CLit:
			r, n := utf8.DecodeRuneInString(c.s)
			return tup(Value{N: uint64(int64(r))}, iv(n))
		case CRune:
			return tup(fromTerm(c.t, tRune), fromTerm(w.x.chunkLen(c), tInt))
		case CByte:
			if w.branch(w.x.Cmp(OULt, c.t, w.x.BVc(0x80, 8))) {
				return tup(fromTerm(w.x.ZExt(c.t, 32), tRune), iv(1))
			}
		}
		unsup("DecodeRune of symbolic bytes")
		return Value{}
	}
	m["unicode/utf8.DecodeRuneInString"] = func(w *Worker, a []Value) Value { return dec(w, asStr(a[0])) }
	m["unicode/utf8.DecodeRune"] = func(w *Worker, a []Value) Value {
		s, _ := a[0].X.(*Slice)
		return dec(w, w.sliceRope(s))
	}

	// ---- strconv
	m["strconv.Itoa"] = func(w *Worker, a []Value) Value {
		return strV(w.x.normRope([]Chunk{{k: CDec, t: w.term(a[0], tInt)}}))
	}
	m["strconv.FormatInt"] = func(w *Worker, a []Value) Value {
		b := int(w.intOf(a[1], tInt))
		if a[0].X == nil {
			return sv(strconv.FormatInt(int64(a[0].N), b))
		}
		switch b {
		case 10:
			return strV(w.x.normRope([]Chunk{{k: CDec, t: a[0].X.(*Term)}}))
		case 16:
			return strV(w.x.normRope([]Chunk{{k: CHex, t: a[0].X.(*Term)}}))
		}
		unsup("FormatInt base %d", b)
		return Value{}
	}
	m["strconv.FormatFloat"] = func(w *Worker, a []Value) Value {
		prec := int(int64(a[2].N))
		if a[0].X == nil {
			return sv(strconv.FormatFloat(math.Float64frombits(a[0].N), byte(a[1].N), prec, int(a[3].N)))
		}
		if byte(a[1].N) == 'f' && prec >= -1 {
			return strV(w.x.normRope([]Chunk{{k: CFlt, n: prec, t: a[0].X.(*Term)}}))
		}
		unsup("FormatFloat of symbolic with %c/%d", byte(a[1].N), prec)
		return Value{}
	}
	m["strconv.ParseFloat"] = func(w *Worker, a []Value) Value {
		f, err := strconv.ParseFloat(mustStr(a[0]), int(a[1].N))
		if err != nil {
			return tup(fv(f), w.errVal(sv(err.Error())))
		}
		return tup(fv(f), Value{})
	}
	m["strconv.Quote"] = func(w *Worker, a []Value) Value { return sv(strconv.Quote(mustStr(a[0]))) }

	fileModels(m, hp)
	// ---- fmt / log
	m["fmt.Sprintf"] = func(w *Worker, a []Value) Value { return strV(w.format(mustStr(a[0]), a[1])) }
	m["fmt.Errorf"] = func(w *Worker, a []Value) Value {
		return w.errVal(strV(w.format(strings.ReplaceAll(mustStr(a[0]), "%w", "%v"), a[1])))
	}
	m["fmt.Fprintf"] = func(w *Worker, a []Value) Value { return w.writeTo(a[0], w.format(mustStr(a[1]), a[2])) }
	m["fmt.Fprint"] = func(w *Worker, a []Value) Value { return w.writeTo(a[0], w.sprint(a[1], false)) }
	m["fmt.Fprintln"] = func(w *Worker, a []Value) Value { return w.writeTo(a[0], w.sprint(a[1], true)) }
	m["fmt.Sprint"] = func(w *Worker, a []Value) Value { return strV(w.sprint(a[0], false)) }
	m["fmt.Sprintln"] = func(w *Worker, a []Value) Value { return strV(w.sprint(a[0], true)) }
	for _, n := range []string{"fmt.Printf", "fmt.Print", "fmt.Println"} {
		m[n] = func(w *Worker, a []Value) Value { return tup(iv(0), Value{}) }
	}
	for _, n := range []string{"log.Printf", "log.Print", "log.Println"} {
		m[n] = func(w *Worker, a []Value) Value { return Value{} }
	}
	for _, n := range []string{"log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit"} {
		nn := n
		m[n] = func(w *Worker, a []Value) Value { rtPanic("process exit via " + nn); return Value{} }
	}
	for _, n := range []string{"log.Panicf", "log.Panic"} {
		m[n] = func(w *Worker, a []Value) Value { rtPanic("log.Panic"); return Value{} }
	}

	// ---- sync
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock"} {
		m[n] = func(w *Worker, a []Value) Value { return Value{} }
	}
	m["(*sync.Once).Do"] = func(w *Worker, a []Value) Value {
		k := a[0].X
		if w.side[k] == nil {
			w.side[k] = true
			w.callV(a[1], nil)
		}
		return Value{}
	}
	// a pool hands out what was put back last, as it does without other goroutines
	m["(*sync.Pool).Get"] = func(w *Worker, a []Value) Value {
		if l, _ := w.side[a[0].X].([]Value); len(l) > 0 {
			w.side[a[0].X] = l[:len(l)-1]
			return l[len(l)-1]
		}
		p := a[0].X.(*Value).X.(*StructV)
		f := p.f[len(p.f)-1]
		if f.X == nil {
			return Value{}
		}
		return w.callV(f, nil)
	}
	m["(*sync.Pool).Put"] = func(w *Worker, a []Value) Value {
		l, _ := w.side[a[0].X].([]Value)
		w.side[a[0].X] = append(l[:len(l):len(l)], a[1])
		return Value{}
	}
	smap := func(w *Worker, a []Value) *[][2]Value {
		l, _ := w.side[a[0].X].(*[][2]Value)
		if l == nil {
			l = &[][2]Value{}
			w.side[a[0].X] = l
		}
		return l
	}
	sfind := func(w *Worker, l *[][2]Value, k Value) int {
		for i := range *l {
			a, b := (*l)[i][0].X.(*Iface), k.X.(*Iface)
			if typeID(a.t) == typeID(b.t) && w.branch(w.eq(a.v, b.v, a.t)) {
				return i
			}
		}
		return -1
	}
	tf := func(b bool) Value {
		if b {
			return Value{N: 1}
		}
		return Value{}
	}
	m["(*sync.Map).Load"] = func(w *Worker, a []Value) Value {
		l := smap(w, a)
		if i := sfind(w, l, a[1]); i >= 0 {
			return Value{X: []Value{(*l)[i][1], tf(true)}}
		}
		return Value{X: []Value{{}, tf(false)}}
	}
	m["(*sync.Map).Store"] = func(w *Worker, a []Value) Value {
		l := smap(w, a)
		if i := sfind(w, l, a[1]); i >= 0 {
			(*l)[i][1] = a[2]
		} else {
			*l = append(*l, [2]Value{a[1], a[2]})
		}
		return Value{}
	}
	m["(*sync.Map).LoadOrStore"] = func(w *Worker, a []Value) Value {
		l := smap(w, a)
		if i := sfind(w, l, a[1]); i >= 0 {
			return Value{X: []Value{(*l)[i][1], tf(true)}}
		}
		*l = append(*l, [2]Value{a[1], a[2]})
		return Value{X: []Value{a[2], tf(false)}}
	}
	m["(*sync.Map).Delete"] = func(w *Worker, a []Value) Value {
		l := smap(w, a)
		if i := sfind(w, l, a[1]); i >= 0 {
			*l = append((*l)[:i:i], (*l)[i+1:]...)
		}
		return Value{}
	}
	m["(*sync/atomic.Value).Load"] = func(w *Worker, a []Value) Value {
		v, _ := w.side[a[0].X].(Value)
		return v
	}
	m["(*sync/atomic.Value).Store"] = func(w *Worker, a []Value) Value { w.side[a[0].X] = a[1]; return Value{} }

	// ---- runtime-ish
	m["internal/bytealg.IndexByteString"] = func(w *Worker, a []Value) Value {
		if s, ok := concStr(a[0]); ok && a[1].X == nil {
			return iv(strings.IndexByte(s, byte(a[1].N)))
		}
		vs := w.strBytes(asStr(a[0]))
		return w.idxByte(vs, a[1])
	}
	m["internal/bytealg.IndexByte"] = func(w *Worker, a []Value) Value {
		s, _ := a[0].X.(*Slice)
		r := w.sliceRope(s)
		if l, ok := r.isLit(); ok && a[1].X == nil {
			return iv(strings.IndexByte(l, byte(a[1].N)))
		}
		return w.idxByte(w.bytesOf(r), a[1])
	}
	m["internal/bytealg.CountString"] = func(w *Worker, a []Value) Value {
		return iv(strings.Count(mustStr(a[0]), string(rune(a[1].N))))
	}
	m["internal/bytealg.Count"] = func(w *Worker, a []Value) Value {
		s, _ := a[0].X.(*Slice)
		l, ok := w.sliceRope(s).isLit()
		if !ok {
			unsup("bytes.Count symbolic")
		}
		n := 0
		for i := 0; i < len(l); i++ {
			if l[i] == byte(a[1].N) {
				n++
			}
		}
		return iv(n)
	}
	m["internal/bytealg.IndexString"] = func(w *Worker, a []Value) Value {
		return iv(strings.Index(mustStr(a[0]), mustStr(a[1])))
	}
	m["runtime.KeepAlive"] = func(w *Worker, a []Value) Value { return Value{} }
	m["runtime.GC"] = func(w *Worker, a []Value) Value { return Value{} }
	m["internal/godebug.New"] = func(w *Worker, a []Value) Value { return Value{} }
	m["math/rand.Seed"] = func(w *Worker, a []Value) Value { return Value{} }
	m["math/rand.Intn"] = func(w *Worker, a []Value) Value { // any value the generator can return
		n := a[0].N
		if a[0].X != nil || int64(n) <= 1 {
			return iv(0)
		}
		nb := uint8(1)
		for (n-1)>>nb != 0 {
			nb++
		}
		return fromTerm(w.x.ZExt(w.newVar(SBV, nb, 0, n-1), 64), tInt)
	}
	m["time.Now"] = func(w *Worker, a []Value) Value {
		p := w.e.prog.ImportedPackage("time")
		return zero(p.Type("Time").Type())
	}

	// ---- sort.Slice
	sl := func(w *Worker, a []Value) Value {
		i, _ := a[0].X.(*Iface)
		if i == nil {
			return Value{}
		}
		s, _ := i.v.X.(*Slice)
		if s == nil {
			return Value{}
		}
		w.mat(s)
		for p := 1; p < s.len; p++ {
			for q := p; q > 0; q-- {
				r := w.callV(a[1], []Value{iv(q), iv(q - 1)})
				lt := r.X == nil && r.N != 0
				if r.X != nil {
					lt = w.branch(r.X.(*Term))
				}
				if !lt {
					break
				}
				x, y := &s.a.v[s.off+q], &s.a.v[s.off+q-1]
				t1, t2 := cp(*x), cp(*y)
				assign(x, t2)
				assign(y, t1)
			}
		}
		return Value{}
	}
	m["sort.Slice"] = sl
	m["sort.SliceStable"] = sl

	// ---- zlib
	m["compress/zlib.NewWriterLevel"] = func(w *Worker, a []Value) Value {
		lv := int(w.intOf(a[1], tInt))
		if lv < -2 || lv > 9 {
			return tup(Value{}, w.errVal(sv("zlib: invalid compression level: "+strconv.Itoa(lv))))
		}
		return tup(w.newZlib(a[0], lv), Value{})
	}
	m["compress/zlib.NewWriter"] = func(w *Worker, a []Value) Value { return w.newZlib(a[0], -1) }
	m["(*compress/zlib.Writer).Write"] = func(w *Worker, a []Value) Value {
		z := w.side[a[0].X].(*zwr)
		s, _ := a[1].X.(*Slice)
		z.ch = append(z.ch, w.sliceRope(s).ch...)
		return tup(fromTerm(w.sliceLen(s), tInt), Value{})
	}
	m["(*compress/zlib.Writer).Flush"] = func(w *Worker, a []Value) Value { return Value{} }
	m["(*compress/zlib.Writer).Close"] = func(w *Worker, a []Value) Value {
		z := w.side[a[0].X].(*zwr)
		if z.closed {
			return Value{}
		}
		z.closed = true
		r := w.writeTo(z.out, w.x.zlibStr(z.level, w.x.normRope(z.ch))).X.([]Value)
		return r[1]
	}
	m["compress/zlib.NewReader"] = func(w *Worker, a []Value) Value {
		p := w.e.prog.ImportedPackage("io")
		r := w.call(p.Func("ReadAll"), []Value{a[0]}, nil).X.([]Value)
		if r[1].X != nil {
			return tup(Value{}, r[1])
		}
		s, _ := r[0].X.(*Slice)
		out, ok := w.inflate(w.sliceRope(s))
		if !ok {
			return tup(Value{}, w.errVal(sv("zlib: invalid header")))
		}
		// an io.ReadCloser: io.NopCloser(bytes.NewReader(out))
		b := w.e.prog.ImportedPackage("bytes")
		rd := w.call(b.Func("NewReader"), []Value{ropeSlice(out)}, nil)
		rdT := types.NewPointer(b.Type("Reader").Type())
		nc := w.call(p.Func("NopCloser"), []Value{{X: &Iface{rdT, rd}}}, nil)
		return tup(nc, Value{})
	}

	// ---- crypto
	m["crypto/md5.Sum"] = func(w *Worker, a []Value) Value {
		s, _ := a[0].X.(*Slice)
		return Value{X: &ArrV{v: w.bytesOf(w.x.md5Str(w.sliceRope(s)))}}
	}
	m["crypto/sha1.New"] = func(w *Worker, a []Value) Value {
		p := w.e.prog.ImportedPackage("crypto/md5")
		dt := p.Type("digest").Type()
		z := zero(dt)
		pv := &z
		w.side[pv] = &bufRope{}
		w.side[sha1Key{pv}] = true
		return Value{X: &Iface{types.NewPointer(dt), Value{X: pv}}}
	}
	m["crypto/md5.New"] = func(w *Worker, a []Value) Value {
		p := w.e.prog.ImportedPackage("crypto/md5")
		dt := p.Type("digest").Type()
		z := zero(dt)
		pv := &z
		w.side[pv] = &bufRope{}
		return Value{X: &Iface{types.NewPointer(dt), Value{X: pv}}}
	}
	m["(*crypto/md5.digest).Write"] = func(w *Worker, a []Value) Value {
		b := w.side[a[0].X].(*bufRope)
		s, _ := a[1].X.(*Slice)
		b.ch = append(b.ch, w.sliceRope(s).ch...)
		return tup(fromTerm(w.sliceLen(s), tInt), Value{})
	}
	m["(*crypto/md5.digest).Reset"] = func(w *Worker, a []Value) Value {
		w.side[a[0].X].(*bufRope).ch = nil
		return Value{}
	}
	m["(*crypto/md5.digest).Sum"] = func(w *Worker, a []Value) Value {
		b := w.side[a[0].X].(*bufRope)
		if w.side[sha1Key{a[0].X}] != nil {
			l, ok := w.bufStr(b).isLit()
			if !ok {
				unsup("sha1 of symbolic bytes")
			}
			h := sha1.Sum([]byte(l))
			return w.appendS(a[1], ropeSlice(litStr(string(h[:]))), nil)
		}
		d := w.x.md5Str(w.bufStr(b))
		return w.appendS(a[1], ropeSlice(d), nil)
	}
	m["hash/crc32.NewIEEE"] = func(w *Worker, a []Value) Value {
		p := w.e.prog.ImportedPackage("hash/crc32")
		dt := p.Type("digest").Type()
		z := zero(dt)
		pv := &z
		w.side[pv] = &bufRope{}
		return Value{X: &Iface{types.NewPointer(dt), Value{X: pv}}}
	}
	m["(*hash/crc32.digest).Write"] = func(w *Worker, a []Value) Value {
		b := w.side[a[0].X].(*bufRope)
		s, _ := a[1].X.(*Slice)
		b.ch = append(b.ch, w.sliceRope(s).ch...)
		return tup(fromTerm(w.sliceLen(s), tInt), Value{})
	}
	m["(*hash/crc32.digest).Reset"] = func(w *Worker, a []Value) Value {
		w.side[a[0].X].(*bufRope).ch = nil
		return Value{}
	}
	m["(*hash/crc32.digest).Sum32"] = func(w *Worker, a []Value) Value {
		return w.crcVal(w.bufStr(w.side[a[0].X].(*bufRope)))
	}
	m["hash/crc32.ChecksumIEEE"] = func(w *Worker, a []Value) Value {
		s, _ := a[0].X.(*Slice)
		return w.crcVal(w.sliceRope(s))
	}
	m["(*crypto/md5.digest).Size"] = func(w *Worker, a []Value) Value { return iv(16) }
	m["crypto/rc4.NewCipher"] = func(w *Worker, a []Value) Value {
		s, _ := a[0].X.(*Slice)
		k := w.sliceRope(s)
		l := w.x.strLen(k)
		if l.isC() && (l.c < 1 || l.c > 256) {
			return tup(Value{}, w.errVal(sv("crypto/rc4: invalid key size")))
		}
		p := w.e.prog.ImportedPackage("crypto/rc4")
		z := zero(p.Type("Cipher").Type())
		pv := &z
		w.side[pv] = &rc4st{key: k}
		return tup(Value{X: pv}, Value{})
	}
	m["(*crypto/rc4.Cipher).XORKeyStream"] = func(w *Worker, a []Value) Value {
		st := w.side[a[0].X].(*rc4st)
		dst, _ := a[1].X.(*Slice)
		src, _ := a[2].X.(*Slice)
		in := w.sliceRope(src)
		ln := w.x.strLen(in)
		if len(in.ch) == 0 {
			return Value{}
		}
		out := w.x.rc4Str(st.key, in, st.off)
		if ln.isC() {
			st.off += int(ln.c)
			if dst == nil || dst.a != nil && dst.len < int(ln.c) {
				rtPanic("crypto/rc4: output smaller than input")
			}
			w.copyS(a[1], ropeSlice(out))
			return Value{}
		}
		// symbolic length: destination must be a whole fresh rope slice of the same length
		if dst == nil || dst.a != nil {
			unsup("rc4 of symbolic length into array")
		}
		if w.x.strLen(dst.rope) != ln {
			unsup("rc4 dst/src length mismatch")
		}
		dst.rope = out
		return Value{}
	}

	// ---- math/big (small values only)
	m["math/big.NewInt"] = func(w *Worker, a []Value) Value {
		p := w.e.prog.ImportedPackage("math/big")
		z := zero(p.Type("Int").Type())
		pv := &z
		w.side[pv] = w.term(a[0], tInt)
		return Value{X: pv}
	}
	m["(*math/big.Int).SetBytes"] = func(w *Worker, a []Value) Value {
		s, _ := a[1].X.(*Slice)
		t := w.x.BVc(0, 64)
		if s != nil {
			w.mat(s)
			if s.len > 7 {
				unsup("big.Int SetBytes > 7")
			}
			for i := 0; i < s.len; i++ {
				t = w.x.Add(w.x.Mul(w.x.BVc(256, 64), t), w.x.ZExt(w.term(s.a.v[s.off+i], tByte), 64))
			}
		}
		w.side[a[0].X] = t
		return a[0]
	}
	big := func(w *Worker, v Value) *Term {
		t, _ := w.side[v.X].(*Term)
		if t == nil {
			return w.x.BVc(0, 64)
		}
		return t
	}
	m["(*math/big.Int).Int64"] = func(w *Worker, a []Value) Value { return fromTerm(big(w, a[0]), tInt) }
	m["(*math/big.Int).Uint64"] = func(w *Worker, a []Value) Value {
		return fromTerm(big(w, a[0]), tinfo{k: kInt, w: 64})
	}
	for n, op := range map[string]byte{"Add": '+', "Sub": '-', "Mul": '*'} {
		op := op
		m["(*math/big.Int)."+n] = func(w *Worker, a []Value) Value {
			p, q := big(w, a[1]), big(w, a[2])
			switch op {
			case '+':
				w.side[a[0].X] = w.x.Add(p, q)
			case '-':
				w.side[a[0].X] = w.x.Sub(p, q)
			case '*':
				w.side[a[0].X] = w.x.Mul(p, q)
			}
			return a[0]
		}
	}
	m["(*math/big.Int).Cmp"] = func(w *Worker, a []Value) Value {
		p, q := big(w, a[0]), big(w, a[1])
		return fromTerm(w.x.Ite(w.x.Cmp(OSLt, p, q), w.x.BVc(^uint64(0), 64), w.x.Ite(w.x.Eq(p, q), w.x.BVc(0, 64), w.x.BVc(1, 64))), tInt)
	}
	return m
}

type zwr struct {
	out    Value
	level  int
	ch     []Chunk
	closed bool
}
type rc4st struct {
	key *Str
	off int
}

func (w *Worker) newZlib(out Value, lv int) Value {
	p := w.e.prog.ImportedPackage("compress/zlib")
	z := zero(p.Type("Writer").Type())
	pv := &z
	w.side[pv] = &zwr{out: out, level: lv}
	return Value{X: pv}
}

func (w *Worker) inflate(r *Str) (*Str, bool) {
	if l, ok := r.isLit(); ok {
		o, err := inflateBytes([]byte(l))
		if err != nil {
			return nil, false
		}
		return litStr(string(o)), true
	}
	if len(r.ch) == 1 && r.ch[0].k == CBlob && r.ch[0].blob.kind == "zlib" {
		return r.ch[0].blob.ins[0], true
	}
	return w.inflateStored(r)
}

// inflateStored reads a zlib stream of one stored block whose framing is known.
func (w *Worker) inflateStored(r *Str) (*Str, bool) {
	for _, c := range r.ch {
		if c.k != CLit && c.k != CByte {
			unsup("inflating data of this kind")
		}
	}
	b := w.bytesOf(r)
	known := func(i int) int {
		if i >= len(b) {
			return -1
		}
		if b[i].X != nil {
			return -2
		}
		return int(b[i].N)
	}
	if known(0) == -1 || known(1) == -1 {
		return nil, false
	}
	for i := 0; i < 7; i++ {
		if known(i) == -2 {
			unsup("inflating unknown framing")
		}
	}
	if known(0) != 0x78 || (known(0)<<8|known(1))%31 != 0 || known(1)&0x20 != 0 {
		return nil, false
	}
	if known(2) == -1 {
		return nil, false
	}
	if known(2) != 1 {
		unsup("inflating partly known data")
	}
	n := known(3) | known(4)<<8
	if n < 0 || known(5) < 0 || known(6) < 0 || known(5)|known(6)<<8 != n^0xffff || len(b) < 7+n+4 {
		return nil, false
	}
	d := bytesStr(w, b[7:7+n])
	sum := w.x.adlerStr(d)
	if sum == nil {
		unsup("inflating this much partly known data")
	}
	if !w.branch(w.ropeEq(sum, bytesStr(w, b[7+n:7+n+4]))) {
		return nil, false
	}
	return d, true
}

func bytesStr(w *Worker, b []Value) *Str {
	var ch []Chunk
	for _, v := range b {
		if v.X == nil {
			ch = append(ch, Chunk{k: CLit, s: string([]byte{byte(v.N)})})
		} else {
			ch = append(ch, Chunk{k: CByte, t: w.term(v, tByte)})
		}
	}
	return w.x.normRope(ch)
}

func (w *Worker) ioEOF() Value {
	p := w.e.prog.ImportedPackage("io")
	g := p.Var("EOF")
	o := opnd{k: 2, idx: w.e.globalIndex(g), g: g}
	return *w.global(&o)
}

func (w *Worker) idxByte(vs []Value, c Value) Value {
	for i, v := range vs {
		if w.branch(w.x.Eq(w.term(v, tByte), w.term(c, tByte))) {
			return iv(i)
		}
	}
	return iv(-1)
}

// units: rope with one chunk per character
func (w *Worker) units(s *Str) *Str {
	var out []Chunk
	for _, c := range s.ch {
		if c.k == CLit {
			for i := 0; i < len(c.s); {
				_, n := utf8.DecodeRuneInString(c.s[i:])
				out = append(out, Chunk{k: CLit, s: c.s[i : i+n]})
				i += n
			}
			continue
		}
		out = append(out, c)
	}
	return &Str{ch: out}
}
func (w *Worker) symIndex(s *Str, sub string) int { return w.symIndexU(w.units(s), sub) }
func (w *Worker) symIndexU(u *Str, sub string) int {
	n := utf8.RuneCountInString(sub)
	for i := 0; i+n <= len(u.ch); i++ {
		if w.symMatchAt(u, i, sub) {
			return i
		}
	}
	return -1
}
func (w *Worker) symMatchAt(u *Str, i int, sub string) bool {
	c := w.x.True
	for _, r := range sub {
		if i >= len(u.ch) {
			return false
		}
		k := u.ch[i]
		switch k.k {
		case CLit:
			if k.s != string(r) {
				return false
			}
		case CRune:
			c = w.x.And(c, w.x.Eq(k.t, w.x.BVc(uint64(uint32(r)), 32)))
		case CByte:
			if r >= 0x80 {
				unsup("symbolic byte vs non-ASCII needle")
			}
			c = w.x.And(c, w.x.Eq(k.t, w.x.BVc(uint64(r), 8)))
		case CDec:
			if r >= '0' && r <= '9' || r == '-' {
				unsup("search digit in formatted number")
			}
			return false
		case CFlt:
			if r >= '0' && r <= '9' || r == '-' || r == '.' {
				unsup("search in formatted float")
			}
			return false
		case CHex:
			if r < 0x80 && isHexB(byte(r)) {
				unsup("search in formatted hex")
			}
			return false
		default:
			unsup("search in opaque data")
		}
		i++
	}
	return w.branch(c)
}

// linNear decides |p-q| <= tol for expressions that are linear in their leaves
// (exact-real view) with numerically equal coefficients.
func linNear(p, q *Term, tol float64) bool {
	m := map[*Term]float64{}
	c := 0.0
	linF(p, 1, m, &c)
	linF(q, -1, m, &c)
	for t, k := range m {
		b := 1e7
		if t.op == OVar && t.sort == SF64 && (t.lo != 0 || t.hi != 0) {
			b = math.Max(math.Abs(math.Float64frombits(t.lo)), math.Abs(math.Float64frombits(t.hi)))
		}
		if math.Abs(k)*b > 1e-7 {
			return false
		}
	}
	return math.Abs(c) <= tol*0.98
}
func linF(t *Term, k float64, m map[*Term]float64, c *float64) {
	switch t.op {
	case OConst:
		*c += k * t.f()
	case OFAdd:
		linF(t.args[0], k, m, c)
		linF(t.args[1], k, m, c)
	case OFSub:
		linF(t.args[0], k, m, c)
		linF(t.args[1], -k, m, c)
	case OFNeg:
		linF(t.args[0], -k, m, c)
	case OFMul:
		if t.args[0].isC() {
			linF(t.args[1], k*t.args[0].f(), m, c)
		} else if t.args[1].isC() {
			linF(t.args[0], k*t.args[1].f(), m, c)
		} else {
			m[t] += k
		}
	case OFDiv:
		if t.args[1].isC() && t.args[1].f() != 0 {
			linF(t.args[0], k/t.args[1].f(), m, c)
		} else {
			m[t] += k
		}
	default:
		m[t] += k
	}
}

// ---- fmt

func (w *Worker) anySlice(v Value) []Value {
	s, _ := v.X.(*Slice)
	if s == nil {
		return nil
	}
	return s.a.v[s.off : s.off+s.len]
}

func (w *Worker) sprint(v Value, ln bool) *Str {
	var ch []Chunk
	args := w.anySlice(v)
	prevStr := true
	for i, a := range args {
		ia, _ := a.X.(*Iface)
		isS := ia != nil && tinf(ia.t).k == kString
		if i > 0 && (ln || !isS && !prevStr) {
			ch = append(ch, Chunk{k: CLit, s: " "})
		}
		ch = append(ch, w.fmtOne(a, "%v", 'v', "", -1).ch...)
		prevStr = isS
	}
	if ln {
		ch = append(ch, Chunk{k: CLit, s: "\n"})
	}
	return w.x.normRope(ch)
}

func (w *Worker) format(f string, av Value) *Str {
	args := w.anySlice(av)
	var ch []Chunk
	lit := func(s string) { ch = append(ch, Chunk{k: CLit, s: s}) }
	ai := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			lit(f[i:])
			break
		}
		if j > 0 {
			lit(f[i : i+j])
		}
		i += j
		st := i
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.*", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			lit("%!(NOVERB)")
			break
		}
		verb := rune(f[i])
		r, n := utf8.DecodeRuneInString(f[i:])
		verb = r
		spec := f[st : i+n]
		flags := f[st+1 : i]
		i += n
		if verb == '%' {
			lit("%")
			continue
		}
		if strings.Contains(flags, "*") {
			unsup("fmt * width")
		}
		if ai >= len(args) {
			lit("%!" + string(verb) + "(MISSING)")
			continue
		}
		prec := -1
		fl := flags
		if k := strings.IndexByte(flags, '.'); k >= 0 {
			prec, _ = strconv.Atoi(flags[k+1:])
			fl = flags[:k]
		}
		ch = append(ch, w.fmtOne(args[ai], spec, verb, fl, prec).ch...)
		ai++
	}
	if ai < len(args) {
		lit("%!(EXTRA)")
	}
	return w.x.normRope(ch)
}

func (w *Worker) fmtOne(a Value, spec string, verb rune, flags string, prec int) *Str {
	i, _ := a.X.(*Iface)
	if i == nil {
		return litStr(fmt.Sprintf(spec, nil))
	}
	ti := tinf(i.t)
	v := i.v
	if verb == 'T' {
		return litStr(i.t.String())
	}
	// error / Stringer
	if verb == 'v' || verb == 's' || verb == 'q' {
		for _, mn := range []string{"Error", "String"} {
			if mm := w.e.method(i.t, mn); mm != nil && mm.Signature.Params().Len() == 0 && mm.Signature.Results().Len() == 1 {
				return asStr(w.call(mm, []Value{v}, nil))
			}
		}
	}
	width := 0
	zero := false
	fl := flags
	plus := strings.Contains(fl, "+")
	for len(fl) > 0 && strings.IndexByte("+-# 0", fl[0]) >= 0 {
		if fl[0] == '0' {
			zero = true
		}
		if fl[0] == '-' || fl[0] == '#' || fl[0] == ' ' {
			if v.X != nil && ti.k != kString {
				unsup("fmt flag %q on symbolic", fl)
			}
		}
		fl = fl[1:]
	}
	if fl != "" {
		width, _ = strconv.Atoi(fl)
	}
	switch ti.k {
	case kInt:
		if v.X == nil {
			if ti.signed {
				if verb == 'c' {
					return litStr(fmt.Sprintf(spec, rune(int64(v.N))))
				}
				return litStr(fmt.Sprintf(spec, int64(v.N)))
			}
			return litStr(fmt.Sprintf(spec, v.N))
		}
		t := w.term64(v, ti)
		if plus && (verb == 'd') {
			unsup("fmt + on symbolic")
		}
		switch verb {
		case 'd', 'v':
			return &Str{ch: []Chunk{{k: CDec, t: t, n: width, zero: zero, uns: !ti.signed}}}
		case 'x', 'X':
			return &Str{ch: []Chunk{{k: CHex, t: t, n: width, zero: zero, uns: !ti.signed, up: verb == 'X'}}}
		case 'c':
			return &Str{ch: []Chunk{{k: CRune, t: w.x.Extract(t, 0, 32)}}}
		}
		unsup("fmt %%%c on symbolic int", verb)
	case kFloat:
		if v.X == nil {
			f := math.Float64frombits(v.N)
			if ti.f32 {
				return litStr(fmt.Sprintf(spec, float32(f)))
			}
			return litStr(fmt.Sprintf(spec, f))
		}
		if (verb == 'f' || verb == 'F') && width == 0 {
			if prec < 0 {
				prec = 6
			}
			return &Str{ch: []Chunk{{k: CFlt, n: prec, t: v.X.(*Term)}}}
		}
		unsup("fmt %%%c on symbolic float", verb)
	case kBool:
		if v.X == nil {
			return litStr(fmt.Sprintf(spec, v.N != 0))
		}
		return litStr(fmt.Sprintf(spec, w.branch(v.X.(*Term))))
	case kString:
		if s, ok := concStr(v); ok {
			return litStr(fmt.Sprintf(spec, s))
		}
		if (verb == 's' || verb == 'v') && width == 0 {
			return asStr(v)
		}
		if (verb == 'x' || verb == 'X') && width == 0 {
			return w.hexOf(asStr(v), verb == 'X')
		}
		unsup("fmt %%%c on symbolic string", verb)
	}
	if st, ok := i.t.Underlying().(*types.Slice); ok {
		if b, ok := st.Elem().Underlying().(*types.Basic); ok && b.Kind() != types.Uint8 {
			out := []*Str{litStr("[")}
			if x, ok := v.X.(*Slice); ok && x != nil {
				if x.a == nil {
					unsup("fmt of %s", i.t)
				}
				for j := 0; j < x.len; j++ {
					if j > 0 {
						out = append(out, litStr(" "))
					}
					out = append(out, w.fmtOne(Value{X: &Iface{t: st.Elem(), v: x.a.v[x.off+j]}}, spec, verb, flags, prec))
				}
			}
			out = append(out, litStr("]"))
			var ch []Chunk
			for _, s := range out {
				ch = append(ch, s.ch...)
			}
			return w.x.normRope(ch)
		}
	}
	switch x := v.X.(type) {
	case *Slice:
		if b, ok := i.t.Underlying().(*types.Slice).Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			r := w.sliceRope(x)
			if l, ok := r.isLit(); ok {
				return litStr(fmt.Sprintf(spec, []byte(l)))
			}
			if verb == 's' {
				return r
			}
			if verb == 'x' || verb == 'X' {
				return w.hexOf(r, verb == 'X')
			}
		}
	case *ArrV:
		if b, ok := i.t.Underlying().(*types.Array).Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			r := w.bytesRope(x.v)
			if l, ok := r.isLit(); ok {
				return litStr(fmt.Sprintf(spec, []byte(l)))
			}
			if verb == 'x' || verb == 'X' {
				return w.hexOf(r, verb == 'X')
			}
		}
	}
	if p, ok := v.X.(*Value); ok && p != nil && (verb == 'v' || verb == 'p') {
		return litStr(fmt.Sprintf("0xc%09x", w.address(p)))
	}
	if verb != 'v' {
		unsup("fmt %%%c of %s", verb, i.t)
	}
	// structured values only occur in diagnostics
	return litStr("%!" + string(verb) + "(" + i.t.String() + ")")
}

type sha1Key struct{ p any }
type addrs struct {
	of   map[*Value]int
	gone map[*Value]bool
	n    int
}

// address gives an object its address. It is one of its own, or that of an object
// of the program that had its address taken before and that nothing refers to any
// more, so that a garbage collection may have freed it.
func (w *Worker) address(p *Value) int {
	ad, _ := w.side["addresses"].(*addrs)
	if ad == nil {
		ad = &addrs{of: map[*Value]int{}, gone: map[*Value]bool{}}
		w.side["addresses"] = ad
	}
	if n, ok := ad.of[p]; ok {
		return n
	}
	var free []*Value
	if len(ad.of) > 0 {
		live := w.reachable()
		for q := range ad.of {
			if !live[q] && !ad.gone[q] {
				free = append(free, q)
			}
		}
		sort.Slice(free, func(i, j int) bool { return ad.of[free[i]] < ad.of[free[j]] })
	}
	n := 0
	if k := w.choice(len(free) + 1); k < len(free) {
		n = ad.of[free[k]]
		ad.gone[free[k]] = true
	} else {
		ad.n++
		n = ad.n * 16
	}
	ad.of[p] = n
	return n
}

// reachable is every memory slot that the program can still get at.
func (w *Worker) reachable() map[*Value]bool {
	seen := map[*Value]bool{}
	objs := map[any]bool{}
	var todo []Value
	slots := func(vs []Value) {
		for i := range vs {
			if vs[i].X != nil && !seen[&vs[i]] {
				seen[&vs[i]] = true
				todo = append(todo, vs[i])
			}
		}
	}
	for f := w.top; f != nil; f = f.caller {
		slots(f.regs)
		slots(f.env)
		for _, d := range f.defers {
			slots(d.args)
		}
	}
	for _, g := range w.globals {
		if g != nil {
			todo = append(todo, *g)
		}
	}
	for len(todo) > 0 {
		v := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		switch x := v.X.(type) {
		case *Value:
			if x != nil && !seen[x] {
				seen[x] = true
				todo = append(todo, *x)
			}
		case SymPtr:
			slots(x.slots)
		case *SymPtr:
			slots(x.slots)
		case *StructV:
			if x != nil && !objs[x] {
				objs[x] = true
				slots(x.f)
			}
		case *ArrV:
			if x != nil && !objs[x] {
				objs[x] = true
				slots(x.v)
			}
		case *Slice:
			if x != nil && x.a != nil {
				todo = append(todo, Value{X: x.a})
			}
		case *Iface:
			if x != nil {
				todo = append(todo, x.v)
			}
		case *Closure:
			if x != nil && !objs[x] {
				objs[x] = true
				slots(x.env)
			}
		case []Value:
			slots(x)
		case *MapObj:
			if x != nil && !objs[x] {
				objs[x] = true
				for _, e := range x.ents {
					todo = append(todo, e.k, e.v)
				}
			}
		}
	}
	return seen
}

// hexFits reports whether a hexadecimal number has exactly its minimum width.
func (w *Worker) hexFits(c Chunk) bool {
	t := c.t
	for t.op == OZExt {
		t = t.args[0]
	}
	if int(t.w) <= 4*c.n {
		return true
	}
	return w.branch(w.x.Cmp(OULt, c.t, w.x.BVc(1<<uint(4*c.n), 64)))
}

func (w *Worker) hexOf(s *Str, up bool) *Str {
	var ch []Chunk
	for _, v := range w.bytesOf(s) {
		ch = append(ch, Chunk{k: CHex, t: w.x.ZExt(w.term(v, tByte), 64), n: 2, zero: true, uns: true, up: up})
	}
	return w.x.normRope(ch)
}

var _ = ssa.NewProgram

func (w *Worker) crcVal(s *Str) Value {
	u32 := tinfo{k: kInt, w: 32}
	var r Value
	for i, b := range w.bytesOf(w.x.crcStr(s)) {
		t := fromTerm(w.x.ZExt(w.term(b, tinfo{k: kInt, w: 8}), 32), u32)
		if i == 0 {
			r = t
		} else {
			r = w.intOp(token.OR, w.intOp(token.SHL, r, iv(8), u32, tInt), t, u32, u32)
		}
	}
	return r
}
