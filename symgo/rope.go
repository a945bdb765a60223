package main

// Ropes: strings/byte sequences made of literal text, symbolic bytes, runes,
// formatted numbers and opaque transforms (zlib, rc4, md5, inputs).

import (
	"bytes"
	"compress/zlib"
	"crypto/md5"
	"crypto/rc4"
	"fmt"
	"hash/adler32"
	"hash/crc32"
	"math"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"
)

type CK uint8

const (
	CLit CK = iota
	CByte
	CRune
	CDec // integer formatted; t BV64 (sign-extended)
	CHex // %x / %X
	CFlt // %.{n}f
	CBlob
)

type Chunk struct {
	k    CK
	s    string
	t    *Term
	n    int  // min width / precision
	zero bool // zero pad
	uns  bool // unsigned
	up   bool // upper-case hex
	blob *Blob
	ln   *Term // cached length (BV64)
}

type Str struct {
	ch  []Chunk
	key string
	off []*Term // cached prefix offsets
}

type Blob struct {
	id     int
	kind   string
	level  int
	ins    []*Str
	t      *Term
	off    int
	n      int // constant length or -1
	src    *Blob
	lo, hi int
	name   string
	ev     []byte
	evEp   int64
}

func (b *Blob) vars() []int32 {
	var r []int32
	for _, s := range b.ins {
		r = mergeVars(r, s.vars())
	}
	if b.t != nil {
		r = mergeVars(r, b.t.vars)
	}
	if b.src != nil {
		r = mergeVars(r, b.src.vars())
	}
	return r
}
func (s *Str) vars() []int32 {
	var r []int32
	for _, c := range s.ch {
		if c.t != nil {
			r = mergeVars(r, c.t.vars)
		}
		if c.blob != nil {
			r = mergeVars(r, c.blob.vars())
		}
	}
	return r
}

func litStr(s string) *Str {
	if s == "" {
		return &Str{}
	}
	return &Str{ch: []Chunk{{k: CLit, s: s}}}
}

func (s *Str) isLit() (string, bool) {
	switch len(s.ch) {
	case 0:
		return "", true
	case 1:
		if s.ch[0].k == CLit {
			return s.ch[0].s, true
		}
	}
	return "", false
}

func (x *Ctx) normRope(ch []Chunk) *Str {
	out := make([]Chunk, 0, len(ch))
	var lit []byte
	flush := func() {
		if len(lit) > 0 {
			out = append(out, Chunk{k: CLit, s: string(lit)})
			lit = lit[:0]
		}
	}
	for i := 0; i < len(ch); i++ {
		c := ch[i]
		switch c.k {
		case CLit:
			lit = append(lit, c.s...)
			continue
		case CByte:
			if c.t.isC() {
				lit = append(lit, byte(c.t.c))
				continue
			}
			if c.t.op == OBlobByte {
				// collapse runs of consecutive bytes of the same constant-length blob
				b := c.t.blob
				j := i
				for j+1 < len(ch) && ch[j+1].k == CByte && ch[j+1].t.op == OBlobByte && ch[j+1].t.blob == b && ch[j+1].t.c == ch[j].t.c+1 {
					j++
				}
				if j > i {
					flush()
					out = append(out, Chunk{k: CBlob, blob: x.subBlob(b, int(c.t.c), j-i+1)})
					i = j
					continue
				}
			}
		case CRune:
			if c.t.isC() {
				lit = utf8.AppendRune(lit, rune(int32(c.t.c)))
				continue
			}
		case CDec:
			if c.t.isC() {
				lit = append(lit, fmtDec(c, c.t.c)...)
				continue
			}
		case CHex:
			if c.t.isC() {
				lit = append(lit, fmtDec(c, c.t.c)...)
				continue
			}
		case CFlt:
			if c.t.isC() {
				lit = append(lit, fmtFlt(c, c.t.c)...)
				continue
			}
		case CBlob:
			if c.blob.n == 0 {
				continue
			}
		}
		flush()
		out = append(out, c)
	}
	flush()
	return &Str{ch: out}
}

func fmtDec(c Chunk, v uint64) string {
	var s string
	base := 10
	if c.k == CHex {
		base = 16
	}
	if c.uns {
		s = strconv.FormatUint(v, base)
	} else {
		s = strconv.FormatInt(int64(v), base)
	}
	if c.up {
		s = strings.ToUpper(s)
	}
	for len(s) < c.n {
		if c.zero {
			if strings.HasPrefix(s, "-") {
				s = "-0" + s[1:]
			} else {
				s = "0" + s
			}
		} else {
			s = " " + s
		}
	}
	return s
}
func fmtFlt(c Chunk, v uint64) string {
	return strconv.FormatFloat(math.Float64frombits(v), 'f', c.n, 64)
}

func (x *Ctx) concat(a, b *Str) *Str {
	if len(a.ch) == 0 {
		return b
	}
	if len(b.ch) == 0 {
		return a
	}
	// fast: only boundary needs merging
	la, fb := a.ch[len(a.ch)-1], b.ch[0]
	if la.k == CLit && fb.k == CLit {
		r := make([]Chunk, 0, len(a.ch)+len(b.ch)-1)
		r = append(r, a.ch[:len(a.ch)-1]...)
		r = append(r, Chunk{k: CLit, s: la.s + fb.s})
		r = append(r, b.ch[1:]...)
		return &Str{ch: r}
	}
	r := make([]Chunk, 0, len(a.ch)+len(b.ch))
	r = append(r, a.ch...)
	r = append(r, b.ch...)
	if la.k == CByte && fb.k == CByte {
		return x.normRope(r)
	}
	return &Str{ch: r}
}

func (s *Str) Key() string {
	if s.key == "" {
		var sb strings.Builder
		for _, c := range s.ch {
			switch c.k {
			case CLit:
				fmt.Fprintf(&sb, "L%d:%s", len(c.s), c.s)
			case CBlob:
				fmt.Fprintf(&sb, "B%d;", c.blob.id)
			default:
				fmt.Fprintf(&sb, "T%d,%d,%v,%v,%v,%d;", c.k, c.n, c.zero, c.uns, c.up, c.t.id)
			}
		}
		s.key = sb.String() + "$"
	}
	return s.key
}

func (x *Ctx) mkBlob(b *Blob) *Blob {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s|%s|%d|%d|%d|", b.kind, b.name, b.level, b.off, b.n)
	for _, s := range b.ins {
		sb.WriteString(s.Key())
		sb.WriteByte('|')
	}
	if b.t != nil {
		fmt.Fprintf(&sb, "t%d", b.t.id)
	}
	if b.src != nil {
		fmt.Fprintf(&sb, "s%d", b.src.id)
	}
	k := sb.String()
	if r, ok := x.blobs[k]; ok {
		return r
	}
	b.id = x.nblob
	x.nblob++
	x.blobs[k] = b
	return b
}

func (x *Ctx) subBlob(b *Blob, off, n int) *Blob {
	if b.kind == "sub" {
		off += b.off
		b = b.src
	}
	if off == 0 && b.n == n {
		return b
	}
	return x.mkBlob(&Blob{kind: "sub", src: b, off: off, n: n})
}

func (x *Ctx) zlibStr(level int, in *Str) *Str {
	if l, ok := in.isLit(); ok {
		return litStr(string(zlibBytes(level, []byte(l))))
	}
	return &Str{ch: []Chunk{{k: CBlob, blob: x.mkBlob(&Blob{kind: "zlib", level: level, ins: []*Str{in}, n: -1})}}}
}

type zkey struct {
	level int
	b     string
}

var zcache sync.Map

func zlibBytes(level int, b []byte) []byte {
	k := zkey{level, string(b)}
	if r, ok := zcache.Load(k); ok {
		return r.([]byte)
	}
	r := zlibBytes1(level, b)
	zcache.Store(k, r)
	return r
}
func zlibBytes1(level int, b []byte) []byte {
	var o bytes.Buffer
	w, err := zlib.NewWriterLevel(&o, level)
	if err != nil {
		panic(err)
	}
	w.Write(b)
	w.Close()
	return o.Bytes()
}
func (x *Ctx) md5Str(in *Str) *Str {
	if l, ok := in.isLit(); ok {
		s := md5.Sum([]byte(l))
		return litStr(string(s[:]))
	}
	return &Str{ch: []Chunk{{k: CBlob, blob: x.mkBlob(&Blob{kind: "md5", ins: []*Str{in}, n: 16})}}}
}

// crcStr is exact for messages of known length with few unknown bytes (CRC-32
// is linear over GF(2)) and opaque otherwise.
func (x *Ctx) crcStr(in *Str) *Str {
	if l, ok := in.isLit(); ok {
		c := crc32.ChecksumIEEE([]byte(l))
		return litStr(string([]byte{byte(c >> 24), byte(c >> 16), byte(c >> 8), byte(c)}))
	}
	if base, at, ts := byteTerms(in); at != nil && len(at) <= 12 {
		t := x.BVc(uint64(crc32.ChecksumIEEE(base)), 32)
		zero := crc32.ChecksumIEEE(make([]byte, len(base)))
		m := make([]byte, len(base))
		for i, p := range at {
			for bit := uint8(0); bit < 8; bit++ {
				m[p] = 1 << bit
				d := crc32.ChecksumIEEE(m) ^ zero
				t = x.bin(OBXor, t, x.Ite(x.Eq(x.Extract(ts[i], bit, 1), x.BVc(1, 1)), x.BVc(uint64(d), 32), x.BVc(0, 32)))
			}
			m[p] = 0
		}
		return x.be32(t)
	}
	return &Str{ch: []Chunk{{k: CBlob, blob: x.mkBlob(&Blob{kind: "crc", ins: []*Str{in}, n: 4})}}}
}

func (x *Ctx) be32(t *Term) *Str {
	var ch []Chunk
	for i := 3; i >= 0; i-- {
		ch = append(ch, Chunk{k: CByte, t: x.Extract(t, uint8(8*i), 8)})
	}
	return x.normRope(ch)
}

// byteTerms splits a rope of known length into a literal (unknown bytes 0) and
// the positions and terms of its unknown bytes; at is nil when it cannot.
func byteTerms(in *Str) (base []byte, at []int, ts []*Term) {
	for _, c := range in.ch {
		switch c.k {
		case CLit:
			base = append(base, c.s...)
		case CByte:
			at = append(at, len(base))
			ts = append(ts, c.t)
			base = append(base, 0)
		default:
			return nil, nil, nil
		}
	}
	return
}

// adlerStr is the exact Adler-32 sum of up to 200 bytes.
func (x *Ctx) adlerStr(in *Str) *Str {
	base, at, ts := byteTerms(in)
	n := len(base)
	if at == nil || n > 200 {
		if l, ok := in.isLit(); ok {
			c := adler32.Checksum([]byte(l))
			return litStr(string([]byte{byte(c >> 24), byte(c >> 16), byte(c >> 8), byte(c)}))
		}
		return nil
	}
	// no sum of 200 bytes reaches 65521; the second one may
	var a, b uint64 = 1, uint64(n)
	for i, c := range base {
		a += uint64(c)
		b += uint64(n-i) * uint64(c)
	}
	ta, tb := x.BVc(a, 32), x.BVc(b, 32)
	for i, p := range at {
		v := x.ZExt(ts[i], 32)
		ta = x.Add(ta, v)
		tb = x.Add(tb, x.Mul(v, x.BVc(uint64(n-p), 32)))
	}
	if b+uint64(255*n*len(at)) >= 65521 {
		tb = x.bin(OURem, tb, x.BVc(65521, 32))
	}
	return x.be32(x.bin(OBOr, x.Mul(tb, x.BVc(65536, 32)), ta))
}

// rc4Str: RC4 keystream from key applied at stream offset off (bytes consumed so far; constant or symbolic Str length unsupported)
func (x *Ctx) rc4Str(key, in *Str, skip int) *Str {
	l, ok := in.isLit()
	k, ok2 := key.isLit()
	if ok && l == "" {
		return in
	}
	if ok && ok2 {
		return litStr(string(rc4Bytes([]byte(k), []byte(l), skip)))
	}
	n := -1
	if ln := x.strLen(in); ln.isC() {
		n = int(ln.c)
	}
	if ok2 && n >= 0 && n <= 64 {
		// known key: the keystream is a constant, the cipher is a byte-wise xor
		bytesOnly := true
		for _, c := range in.ch {
			if c.k != CLit && c.k != CByte {
				bytesOnly = false
			}
		}
		if bytesOnly {
			ks := rc4Bytes([]byte(k), make([]byte, n), skip)
			var out []Chunk
			for _, c := range in.ch {
				if c.k == CByte {
					t := x.bin(OBXor, c.t, x.BVc(uint64(ks[0]), 8))
					if t.isC() {
						out = append(out, Chunk{k: CLit, s: string([]byte{byte(t.c)})})
					} else {
						out = append(out, Chunk{k: CByte, t: t})
					}
					ks = ks[1:]
					continue
				}
				b := []byte(c.s)
				for i := range b {
					b[i] ^= ks[i]
				}
				ks = ks[len(b):]
				out = append(out, Chunk{k: CLit, s: string(b)})
			}
			return x.normRope(out)
		}
	}
	// involution: rc4(k, rc4(k, d)) = d
	if len(in.ch) == 1 && in.ch[0].k == CBlob && in.ch[0].blob.kind == "rc4" && in.ch[0].blob.off == skip && in.ch[0].blob.ins[0].Key() == key.Key() {
		return in.ch[0].blob.ins[1]
	}
	return &Str{ch: []Chunk{{k: CBlob, blob: x.mkBlob(&Blob{kind: "rc4", ins: []*Str{key, in}, n: n, off: skip})}}}
}
func rc4Bytes(k, l []byte, skip int) []byte {
	c, err := rc4.NewCipher(k)
	if err != nil {
		return make([]byte, len(l))
	}
	if skip > 0 {
		d := make([]byte, skip)
		c.XORKeyStream(d, d)
	}
	o := make([]byte, len(l))
	c.XORKeyStream(o, l)
	return o
}

func (b *Blob) eval(x *Ctx, m Model) []byte {
	if b.evEp == x.epoch && b.ev != nil {
		return b.ev
	}
	var r []byte
	switch b.kind {
	case "zlib":
		r = zlibBytes1(b.level, b.ins[0].evalIn(x, m))
	case "md5":
		s := md5.Sum(b.ins[0].evalIn(x, m))
		r = s[:]
	case "crc":
		c := crc32.ChecksumIEEE(b.ins[0].evalIn(x, m))
		r = []byte{byte(c >> 24), byte(c >> 16), byte(c >> 8), byte(c)}
	case "rc4":
		r = rc4Bytes(b.ins[0].evalIn(x, m), b.ins[1].evalIn(x, m), b.off)
	case "repl":
		r = bytes.ReplaceAll(b.ins[0].evalIn(x, m), b.ins[1].evalIn(x, m), b.ins[2].evalIn(x, m))
	case "unesc":
		r = unescPDF(b.ins[0].evalIn(x, m))
	case "sub":
		s := b.src.eval(x, m)
		r = make([]byte, b.n)
		if b.off < len(s) {
			copy(r, s[b.off:])
		}
	case "zeros":
		r = make([]byte, int(min(x.eval(b.t, m), 1<<26)))
	case "input":
		n := int(x.eval(b.t, m))
		r = inputBlobBytes(b.name, n)
	default:
		panic("blob eval " + b.kind)
	}
	b.ev, b.evEp = r, x.epoch
	return r
}

// contents of opaque inputs: a fixed pseudo-random pattern both natively and here
func inputBlobBytes(name string, n int) []byte {
	r := make([]byte, n)
	h := uint32(2166136261)
	for i := range r {
		h = (h ^ uint32(i*7+len(name))) * 16777619
		r[i] = byte(h >> 13)
	}
	return r
}

func (s *Str) Eval(x *Ctx, m Model) []byte {
	x.epoch++
	return s.evalIn(x, m)
}
func (s *Str) evalIn(x *Ctx, m Model) []byte {
	var r []byte
	for _, c := range s.ch {
		switch c.k {
		case CLit:
			r = append(r, c.s...)
		case CByte:
			r = append(r, byte(x.eval(c.t, m)))
		case CRune:
			r = utf8.AppendRune(r, rune(int32(x.eval(c.t, m))))
		case CDec, CHex:
			r = append(r, fmtDec(c, x.eval(c.t, m))...)
		case CFlt:
			r = append(r, fmtFlt(c, x.eval(c.t, m))...)
		case CBlob:
			r = append(r, c.blob.eval(x, m)...)
		}
	}
	return r
}

func (x *Ctx) runeLen(t *Term) *Term {
	c := func(v uint64) *Term { return x.BVc(v, 32) }
	k := func(v uint64) *Term { return x.BVc(v, 64) }
	// surrogates and out-of-range encode as U+FFFD (3 bytes); inputs exclude them
	return x.Ite(x.Cmp(OULt, t, c(0x80)), k(1), x.Ite(x.Cmp(OULt, t, c(0x800)), k(2), x.Ite(x.Cmp(OULt, t, c(0x10000)), k(3), k(4))))
}

func (x *Ctx) chunkLen(c *Chunk) *Term {
	if c.ln != nil {
		return c.ln
	}
	var r *Term
	switch c.k {
	case CLit:
		r = x.BVc(uint64(len(c.s)), 64)
	case CByte:
		r = x.BVc(1, 64)
	case CRune:
		r = x.runeLen(c.t)
	case CDec, CHex:
		r = x.decLen(c)
	case CFlt:
		r = x.fltLen(c)
	case CBlob:
		if c.blob.n >= 0 {
			r = x.BVc(uint64(c.blob.n), 64)
		} else if c.blob.kind == "rc4" {
			r = x.strLen(c.blob.ins[1])
		} else if c.blob.kind == "input" || c.blob.kind == "zeros" {
			r = c.blob.t
		} else {
			r = x.mk(&Term{op: OBlobLen, sort: SBV, w: 64, blob: c.blob})
		}
	}
	c.ln = r
	return r
}

func (x *Ctx) decLen(c *Chunk) *Term {
	base := uint64(10)
	maxd := 20
	if c.k == CHex {
		base = 16
		maxd = 16
	}
	k := func(v uint64) *Term { return x.BVc(v, 64) }
	t := c.t
	_, hi, ok := x.urange(t)
	ite := func(t *Term, extra int) *Term {
		// ite chain from large to small
		var res *Term
		p := uint64(1)
		var pw []uint64
		for d := 1; d <= maxd; d++ {
			pw = append(pw, p)
			np := p * base
			if p != 0 && np/base != p {
				break
			}
			if ok && p > hi {
				break
			}
			p = np
		}
		res = k(uint64(max(len(pw)+extra, c.n)))
		for d := len(pw) - 1; d >= 1; d-- {
			res = x.Ite(x.Cmp(OULt, t, k(pw[d])), k(uint64(max(d+extra, c.n))), res)
		}
		return res
	}
	// build properly: smallest threshold outermost
	if c.uns || ok && hi < 1<<63 {
		return x.digits(t, base, 0, c.n, hi, ok)
	}
	_ = ite
	if lo, hi, ok := x.srange(t); ok {
		a := uint64(max(-lo, 0))
		b := uint64(max(hi, 0))
		neg := x.Cmp(OSLt, t, k(0))
		return x.Ite(neg, x.digits(x.Sub(k(0), t), base, 1, c.n, a, true), x.digits(t, base, 0, c.n, b, true))
	}
	neg := x.Cmp(OSLt, t, k(0))
	return x.Ite(neg, x.digits(x.Sub(k(0), t), base, 1, c.n, 1<<63, true), x.digits(t, base, 0, c.n, 1<<63, true))
}

func (x *Ctx) digits(t *Term, base uint64, extra, minw int, hi uint64, ok bool) *Term {
	k := func(v uint64) *Term { return x.BVc(v, 64) }
	var th []uint64
	p := base
	for {
		if ok && p > hi {
			break
		}
		th = append(th, p)
		np := p * base
		if np/base != p {
			break
		}
		p = np
	}
	res := k(uint64(max(len(th)+1+extra, minw)))
	for i := len(th) - 1; i >= 0; i-- {
		res = x.Ite(x.Cmp(OULt, t, k(th[i])), k(uint64(max(i+1+extra, minw))), res)
	}
	return res
}

// fltLen is the length of a number formatted with %.nf.
func (x *Ctx) fltLen(c *Chunk) *Term {
	lo, hi := uint64(c.n+1), uint64(330)
	if c.n < 0 {
		lo = 1
	}
	if c.n > 0 {
		lo++
	}
	if a, b, ok := x.frange(c.t); ok && c.n >= 0 {
		one := func(f float64) uint64 { return uint64(len(fmtFlt(*c, math.Float64bits(f)))) }
		hi = max(one(a-1e-6), one(b+1e-6))
		if a < 0 {
			hi = max(hi, lo+1)
		}
		if a > 1e-3 {
			lo = one(a - 1e-6)
		}
		if lo == hi {
			return x.BVc(lo, 64)
		}
	}
	name := fmt.Sprintf("flen%d", c.n)
	return x.UF(name, SBV, 64, lo, hi, c.t)
}

func (x *Ctx) strLen(s *Str) *Term {
	m := map[*Term]uint64{}
	var c uint64
	for i := range s.ch {
		addLin(m, &c, x.chunkLen(&s.ch[i]), 1)
	}
	return x.lin(64, c, m)
}

// prefix offsets of chunk starts (len = len(ch)+1)
func (x *Ctx) offsets(s *Str) []*Term {
	if s.off != nil {
		return s.off
	}
	r := make([]*Term, len(s.ch)+1)
	r[0] = x.BVc(0, 64)
	m := map[*Term]uint64{}
	var c uint64
	for i := range s.ch {
		addLin(m, &c, x.chunkLen(&s.ch[i]), 1)
		r[i+1] = x.lin(64, c, m)
	}
	s.off = r
	return r
}

// replStr is ReplaceAll of one byte in a string of unknown bytes.
func (x *Ctx) replStr(in *Str, old, nw string) *Str {
	return &Str{ch: []Chunk{{k: CBlob, blob: x.mkBlob(&Blob{kind: "repl", ins: []*Str{in, litStr(old), litStr(nw)}, n: -1})}}}
}

// unescPDF is the value of a literal string token.
func unescPDF(b []byte) []byte {
	r := []byte{}
	for i := 0; i < len(b); i++ {
		c := b[i]
		if c == '\r' {
			c = '\n'
			if i+1 < len(b) && b[i+1] == '\n' {
				i++
			}
		} else if c == '\\' && i+1 < len(b) {
			i++
			c = b[i]
			switch {
			case c == 'n':
				c = '\n'
			case c == 'r':
				c = '\r'
			case c == 't':
				c = '\t'
			case c == 'b':
				c = '\b'
			case c == 'f':
				c = '\f'
			case c >= '0' && c <= '7':
				v := 0
				k := 0
				for k < 3 && i < len(b) && b[i] >= '0' && b[i] <= '7' {
					v = v*8 + int(b[i]-'0')
					i++
					k++
				}
				i--
				c = byte(v)
			case c == '\n':
				continue
			case c == '\r':
				if i+1 < len(b) && b[i+1] == '\n' {
					i++
				}
				continue
			}
		}
		r = append(r, c)
	}
	return r
}

// unescStr: the value of a literal string token; exact inverse of a complete
// chain of one-byte escapes, otherwise an opaque function of the text.
func (x *Ctx) unescStr(s *Str) *Str {
	if len(s.ch) == 1 && s.ch[0].k == CBlob && s.ch[0].blob.kind == "repl" {
		done := map[byte]bool{}
		b := s.ch[0].blob
		for b.kind == "repl" {
			o, ok1 := b.ins[1].isLit()
			n, ok2 := b.ins[2].isLit()
			if !ok1 || !ok2 || len(o) != 1 || len(n) < 2 || n[0] != '\\' || done['\\'] {
				break
			}
			if string(unescPDF([]byte(n))) != o {
				break
			}
			bad := false
			for i := 1; i < len(n); i++ {
				// text a later replacement would touch again
				bad = bad || done[n[i]]
			}
			if bad || len(n) != 2 && len(n) != 4 {
				break
			}
			done[o[0]] = true
			in := b.ins[0]
			if len(in.ch) == 1 && in.ch[0].k == CBlob && in.ch[0].blob.kind == "repl" {
				b = in.ch[0].blob
				continue
			}
			if done['\\'] && done['('] && done[')'] && done['\r'] {
				return in
			}
			break
		}
	}
	return &Str{ch: []Chunk{{k: CBlob, blob: x.mkBlob(&Blob{kind: "unesc", ins: []*Str{s}, n: -1})}}}
}
