package main

import (
	"bytes"
	"compress/zlib"
	"io"
	"strconv"
)

func inflateBytes(b []byte) ([]byte, error) {
	r, err := zlib.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(r)
}

// vTok layout in the harness: K byte; S string; I int; F float64; T bool; Int bool; Off, End int
func (w *Worker) tokens(s *Str, file bool) Value {
	segs := make([]zSeg, len(s.ch))
	for i, c := range s.ch {
		if c.k == CLit {
			segs[i] = zSeg{Lit: c.s, Ref: -1}
		} else {
			segs[i] = zSeg{Ref: i, Num: c.k == CDec || c.k == CFlt}
		}
	}
	toks := zTokenize(segs, file)
	offs := w.x.offsets(s)
	out := make([]Value, len(toks))
	at := func(seg, in int) Value {
		return fromTerm(w.x.Add(offs[seg], w.x.BVc(uint64(in), 64)), tInt)
	}
	for k, t := range toks {
		f := make([]Value, 8)
		f[0] = Value{N: uint64(t.K)}
		switch t.K {
		case 'n':
			if t.Ref >= 0 {
				c := s.ch[t.Ref]
				if c.k == CDec {
					f[2] = fromTerm(c.t, tInt)
					f[3] = fromTerm(w.x.FFrom(c.t, !c.uns), tF64)
					f[5] = bv(true)
				} else {
					f[3] = fromTerm(c.t, tF64)
				}
			} else {
				fl, _ := strconv.ParseFloat(t.S, 64)
				f[3] = fv(fl)
				if n, err := strconv.Atoi(t.S); err == nil {
					f[2] = iv(n)
					f[5] = bv(true)
				}
				f[1] = sv(t.S)
			}
		case '/':
			f[1] = sv(t.S)
			if t.Tail {
				f[4] = bv(true)
				if t.Ref >= 0 {
					f[2] = fromTerm(s.ch[t.Ref].t, tInt)
				} else {
					n, _ := strconv.Atoi(t.Raw[0].Lit)
					f[2] = iv(n)
				}
			}
		case 'k':
			f[1] = sv(t.S)
		case '(', '<', 's', 'x', 'e':
			var ch []Chunk
			for _, r := range t.Raw {
				if r.Ref >= 0 {
					ch = append(ch, s.ch[r.Ref])
				} else {
					ch = append(ch, Chunk{k: CLit, s: r.Lit})
				}
			}
			f[1] = strV(w.x.normRope(ch))
		}
		f[6] = at(t.Seg, t.In)
		f[7] = at(t.ESeg, t.EIn)
		out[k] = Value{X: &StructV{f: f}}
	}
	return Value{X: &Slice{a: &ArrV{v: out}, len: len(out), cap: len(out)}}
}
