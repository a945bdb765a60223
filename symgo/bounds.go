package main

// Interval bounds on integer terms implied by the path condition. They decide
// many branch conditions without a solver query and keep the path condition short.

type bnd struct {
	lo, hi uint64
	il, ih int // indices into pc of the current explicit bounds, -1 if none
}

const bndMax = uint64(1) << 62

// asBound rewrites c to base ∈ [lo,hi]; neg means the complement of that interval.
func (w *Worker) asBound(c *Term) (t *Term, lo, hi uint64, neg, ok bool) {
	if c.op == ONot {
		t, lo, hi, neg, ok = w.asBound(c.args[0])
		return t, lo, hi, !neg, ok
	}
	if len(c.args) != 2 || c.args[0].sort != SBV {
		return
	}
	a, b := c.args[0], c.args[1]
	if a.isC() == b.isC() {
		return
	}
	flip := a.isC()
	if flip {
		a, b = b, a
	}
	// value as exact integer: a = base + k
	base, k := a, int64(0)
	if a.op == OLin && len(a.args) == 1 && a.coef[0] == 1 {
		base, k = a.args[0], sext(a.c, a.w)
	}
	bl, bh, o := w.x.urange(base)
	if !o || bh >= bndMax {
		return
	}
	lim := int64(1) << 61
	if a.w < 63 {
		lim = int64(1) << (a.w - 1)
	}
	if k >= lim || k < -lim {
		return
	}
	vl, vh := int64(bl)+k, int64(bh)+k
	var K int64
	switch c.op {
	case OSLt, OSLe:
		if vl < -lim || vh >= lim {
			return
		}
		K = sext(b.c, b.w)
	case OULt, OULe, OEq:
		if vl < 0 || a.w < 64 && uint64(vh) > mask(a.w) || b.c >= bndMax {
			return
		}
		K = int64(b.c)
	default:
		return
	}
	if K >= 1<<61 || K <= -(1<<61) {
		return
	}
	K -= k // base OP K
	l, h := int64(bl), int64(bh)
	switch c.op {
	case OEq:
		l, h = K, K
	case OSLt, OULt:
		if flip {
			l = K + 1
		} else {
			h = K - 1
		}
	case OSLe, OULe:
		if flip {
			l = K
		} else {
			h = K
		}
	}
	l, h = max(l, int64(bl)), min(h, int64(bh))
	if l > h {
		return // constant; folded elsewhere
	}
	return base, uint64(l), uint64(h), false, true
}

func (w *Worker) bndOf(t *Term) bnd {
	if b, ok := w.bnds[t]; ok {
		return b
	}
	lo, hi, _ := w.x.urange(t)
	return bnd{lo, hi, -1, -1}
}

// boundKnown decides c from the bounds: 1 true, -1 false, 0 unknown
func (w *Worker) boundKnown(c *Term) int {
	if len(w.bnds) == 0 {
		return 0
	}
	t, lo, hi, neg, ok := w.asBound(c)
	if !ok {
		return 0
	}
	b, have := w.bnds[t]
	if !have {
		return 0
	}
	r := 0
	if b.lo >= lo && b.hi <= hi {
		r = 1
	} else if b.hi < lo || b.lo > hi {
		r = -1
	}
	if neg {
		r = -r
	}
	return r
}

// boundAdd records c if it is a bound; true when c needs no entry of its own
func (w *Worker) boundAdd(c *Term) bool {
	t, lo, hi, neg, ok := w.asBound(c)
	if !ok {
		return false
	}
	b := w.bndOf(t)
	nl, nh := b.lo, b.hi
	if !neg {
		nl, nh = max(nl, lo), min(nh, hi)
	} else {
		switch {
		case lo <= nl && hi >= nl:
			nl = hi + 1
		case hi >= nh && lo <= nh:
			if lo == 0 {
				return false
			}
			nh = lo - 1
		case hi < nl || lo > nh:
			return true
		default:
			return false // a hole in the middle
		}
	}
	if nl > nh {
		return false // contradiction: let the solver see it
	}
	if nl == b.lo && nh == b.hi {
		return true
	}
	k := func(v uint64) *Term { return w.x.BVc(v, t.w) }
	if nl != b.lo {
		if b.il >= 0 {
			w.pc[b.il] = w.x.True
		}
		b.il = len(w.pc)
		w.pc = append(w.pc, w.x.Cmp(OULe, k(nl), t))
	}
	if nh != b.hi {
		if b.ih >= 0 {
			w.pc[b.ih] = w.x.True
		}
		b.ih = len(w.pc)
		w.pc = append(w.pc, w.x.Cmp(OULe, t, k(nh)))
	}
	b.lo, b.hi = nl, nh
	w.bnds[t] = b
	return true
}

// knownConst is the value of t fixed by the bounds
func (w *Worker) knownConst(t *Term) (uint64, bool) {
	base, k := t, uint64(0)
	if t.op == OLin && len(t.args) == 1 && t.coef[0] == 1 {
		base, k = t.args[0], t.c
	}
	if b, ok := w.bnds[base]; ok && b.lo == b.hi {
		return (b.lo + k) & mask(t.w), true
	}
	return 0, false
}
