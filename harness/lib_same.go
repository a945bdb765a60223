package gopdf

// vSameVal asserts that two values are equal up to tol in numbers.
func vSameVal(a, b *vO, tol float64, what string) {
	vAssert(a.K == b.K, what+": same kind of value")
	if a.K != b.K {
		return
	}
	switch a.K {
	case 'n':
		vAssert(vOr(a.F == b.F, vNear(a.F, b.F, tol)), what+": same number")
	case 'r':
		vAssert(a.I == b.I, what+": same reference")
	case 'd', 'a':
		vAssert(len(a.Vals) == len(b.Vals) && len(a.Keys) == len(b.Keys), what+": same number of entries")
		if len(a.Vals) != len(b.Vals) || len(a.Keys) != len(b.Keys) {
			return
		}
		for i := range a.Vals {
			w := what
			if a.K == 'd' {
				vAssert(a.Keys[i] == b.Keys[i], what+": same keys")
				w += " " + a.Keys[i]
				if a.Keys[i] == "Length" {
					continue
				}
			}
			vSameVal(a.Vals[i], b.Vals[i], tol, w)
		}
	default:
		vAssert(vStrEq(a.S, b.S), what+": same value")
	}
}

// vSameOps asserts that two content streams are equal up to tol in numbers.
func vSameOps(a, b string, tol float64, what string) {
	p, bad1 := vOps([]byte(a))
	q, bad2 := vOps([]byte(b))
	vAssert(bad1 == "" && bad2 == "", what+": content is well formed")
	vAssert(len(p) == len(q), what+": same number of operators")
	if len(p) != len(q) {
		return
	}
	for i := range p {
		vAssert(p[i].Op == q[i].Op && len(p[i].A) == len(q[i].A), what+": same operators")
		if p[i].Op != q[i].Op || len(p[i].A) != len(q[i].A) {
			return
		}
		for j := range p[i].A {
			vSameVal(p[i].A[j], q[i].A[j], tol, what+" operator "+p[i].Op)
		}
	}
}

// vSameDoc asserts that two documents have the same objects, up to tol in the
// numbers of dictionaries and content streams.
func vSameDoc(a, b *vDoc, tol float64) {
	if !a.OK || !b.OK {
		return
	}
	vAssert(len(a.Objs) == len(b.Objs), "same number of objects")
	if len(a.Objs) != len(b.Objs) {
		return
	}
	isC := map[int]bool{}
	for i := range a.pages() {
		c := a.pages()[i].O.get("Contents")
		if c.K == 'r' {
			isC[c.I] = true
		}
		for _, r := range c.Vals {
			isC[r.I] = true
		}
	}
	for i, o := range a.Objs {
		p := b.Objs[i]
		vAssert(o.Type == p.Type && o.HasS == p.HasS, "same objects")
		w := "object " + o.Type
		vSameVal(o.O, p.O, tol, w)
		if o.HasS && p.HasS {
			if isC[o.Num] || o.O.get("Subtype").S == "Form" {
				vSameOps(o.Stream, p.Stream, tol, w+" content")
			} else {
				vAssert(vStrEq(o.Stream, p.Stream), w+": same stream")
			}
		}
	}
}
