package main

import (
	"bufio"
	"fmt"
	"io"
	"math"
	"math/big"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

// Proc is one solver process (z3-new over a pipe) in one float encoding.
type Proc struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	x    *Ctx
	fp   bool // IEEE encoding of doubles; otherwise exact reals
	def  map[int32]bool
	ufd  map[string]bool
	buf  strings.Builder
	dead bool
	kind int                // 0 z3; in the integer encoding 1 z3's older arithmetic, 2 cvc5
	refI func(*Term) string // operands, in the integer encoding
}

func NewProc(x *Ctx, fp bool) *Proc {
	p := &Proc{x: x, fp: fp}
	p.start()
	return p
}
func (p *Proc) start() {
	p.def = map[int32]bool{}
	p.ufd = map[string]bool{}
	switch {
	case p.kind == 2:
		p.cmd = exec.Command("cvc5", "--incremental", "--produce-models", "--lang=smt2", "--tlimit-per=3000")
	case p.kind == 1:
		p.cmd = exec.Command("z3-new", "-in", "-smt2", "smt.arith.solver=2")
	default:
		p.cmd = exec.Command("z3-new", "-in", "-smt2")
	}
	p.in, _ = p.cmd.StdinPipe()
	o, _ := p.cmd.StdoutPipe()
	p.out = bufio.NewReaderSize(o, 1<<16)
	if err := p.cmd.Start(); err != nil {
		panic(abort{"solver", err.Error()})
	}
	if p.kind == 2 {
		io.WriteString(p.in, "(set-option :global-declarations true)\n(set-logic ALL)\n")
	} else {
		io.WriteString(p.in, "(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-option :pp.decimal false)\n")
	}
	p.dead = false
}
func (p *Proc) Close() {
	if p == nil || p.cmd == nil {
		return
	}
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
	p.dead = true
}

func ratStr(f float64) string {
	r := new(big.Rat)
	if math.IsInf(f, 0) || math.IsNaN(f) {
		f = 1e300
	}
	r.SetFloat64(f)
	neg := r.Sign() < 0
	if neg {
		r.Neg(r)
	}
	s := r.Num().String() + ".0"
	if !r.IsInt() {
		s = "(/ " + s + " " + r.Denom().String() + ".0)"
	}
	if neg {
		s = "(- " + s + ")"
	}
	return s
}

func (p *Proc) ref(t *Term) string {
	switch t.op {
	case OConst:
		switch t.sort {
		case SBool:
			if t.c != 0 {
				return "true"
			}
			return "false"
		case SBV:
			if t.w%4 == 0 {
				return fmt.Sprintf("#x%0*x", t.w/4, t.c)
			}
			return fmt.Sprintf("#b%0*b", t.w, t.c)
		default:
			if p.fp {
				return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.c)
			}
			return ratStr(t.f())
		}
	case OVar:
		return "v" + strconv.Itoa(int(t.id))
	}
	return "t" + strconv.Itoa(int(t.id))
}
func (p *Proc) sortS(s Sort, w uint8) string {
	switch s {
	case SBool:
		return "Bool"
	case SBV:
		return fmt.Sprintf("(_ BitVec %d)", w)
	}
	if p.fp {
		return "(_ FloatingPoint 11 53)"
	}
	return "Real"
}

func (p *Proc) define(t *Term) {
	if t.op == OConst || p.def[t.id] {
		return
	}
	for _, a := range t.args {
		p.define(a)
	}
	p.def[t.id] = true
	if t.op == OVar || t.op == OBlobLen || t.op == OBlobByte {
		n := p.ref(t)
		fmt.Fprintf(&p.buf, "(declare-const %s %s)\n", n, p.sortS(t.sort, t.w))
		return
	}
	if t.op == OUF {
		key := t.name
		if !p.ufd[key] {
			p.ufd[key] = true
			fmt.Fprintf(&p.buf, "(declare-fun |%s| (", key)
			for _, a := range t.args {
				p.buf.WriteString(p.sortS(a.sort, a.w) + " ")
			}
			fmt.Fprintf(&p.buf, ") %s)\n", p.sortS(t.sort, t.w))
		}
	}
	fmt.Fprintf(&p.buf, "(define-fun t%d () %s ", t.id, p.sortS(t.sort, t.w))
	p.body(t)
	p.buf.WriteString(")\n")
}

func (p *Proc) body(t *Term) {
	a := func(i int) string {
		if p.refI != nil {
			return p.refI(t.args[i])
		}
		return p.ref(t.args[i])
	}
	b := &p.buf
	o2 := func(op string) { fmt.Fprintf(b, "(%s %s %s)", op, a(0), a(1)) }
	fl := func(s string) string { return "(to_real (to_int " + s + "))" }
	switch t.op {
	case ONot:
		fmt.Fprintf(b, "(not %s)", a(0))
	case OAnd:
		o2("and")
	case OEq:
		if p.fp && t.args[0].sort == SF64 {
			o2("fp.eq")
		} else {
			o2("=")
		}
	case OIte:
		fmt.Fprintf(b, "(ite %s %s %s)", a(0), a(1), a(2))
	case OLin:
		var parts []string
		m := mask(t.w)
		for i := range t.args {
			k := t.coef[i]
			switch {
			case k == 1:
				parts = append(parts, a(i))
			case k == m:
				parts = append(parts, "(bvneg "+a(i)+")")
			case k&(k-1) == 0:
				parts = append(parts, fmt.Sprintf("(bvshl %s (_ bv%d %d))", a(i), log2(k), t.w))
			default:
				parts = append(parts, fmt.Sprintf("(bvmul (_ bv%d %d) %s)", k, t.w, a(i)))
			}
		}
		if t.c != 0 {
			parts = append(parts, fmt.Sprintf("(_ bv%d %d)", t.c, t.w))
		}
		s := parts[0]
		for _, q := range parts[1:] {
			s = "(bvadd " + s + " " + q + ")"
		}
		b.WriteString(s)
	case OMul:
		o2("bvmul")
	case OUDiv:
		o2("bvudiv")
	case OSDiv:
		o2("bvsdiv")
	case OURem:
		o2("bvurem")
	case OSRem:
		o2("bvsrem")
	case OBAnd:
		o2("bvand")
	case OBOr:
		o2("bvor")
	case OBXor:
		o2("bvxor")
	case OShl:
		o2("bvshl")
	case OLShr:
		o2("bvlshr")
	case OAShr:
		o2("bvashr")
	case OZExt:
		fmt.Fprintf(b, "((_ zero_extend %d) %s)", t.w-t.args[0].w, a(0))
	case OSExt:
		fmt.Fprintf(b, "((_ sign_extend %d) %s)", t.w-t.args[0].w, a(0))
	case OExtract:
		fmt.Fprintf(b, "((_ extract %d %d) %s)", int(t.c)+int(t.w)-1, t.c, a(0))
	case OULt:
		o2("bvult")
	case OULe:
		o2("bvule")
	case OSLt:
		o2("bvslt")
	case OSLe:
		o2("bvsle")
	case OFLt:
		if p.fp {
			o2("fp.lt")
		} else {
			o2("<")
		}
	case OFLe:
		if p.fp {
			o2("fp.leq")
		} else {
			o2("<=")
		}
	case OFAdd, OFSub, OFMul, OFDiv:
		i := t.op - OFAdd
		if p.fp {
			fmt.Fprintf(b, "(%s RNE %s %s)", []string{"fp.add", "fp.sub", "fp.mul", "fp.div"}[i], a(0), a(1))
		} else {
			o2([]string{"+", "-", "*", "/"}[i])
		}
	case OFNeg:
		if p.fp {
			fmt.Fprintf(b, "(fp.neg %s)", a(0))
		} else {
			fmt.Fprintf(b, "(- %s)", a(0))
		}
	case OFAbs:
		if p.fp {
			fmt.Fprintf(b, "(fp.abs %s)", a(0))
		} else {
			fmt.Fprintf(b, "(ite (>= %s 0.0) %s (- %s))", a(0), a(0), a(0))
		}
	case OFSqrt:
		if p.fp {
			fmt.Fprintf(b, "(fp.sqrt RNE %s)", a(0))
		} else {
			if !p.ufd["sqrt"] {
				p.ufd["sqrt"] = true
				s := b.String()
				b.Reset()
				b.WriteString("(declare-fun sqrt (Real) Real)\n" + s)
			}
			fmt.Fprintf(b, "(sqrt %s)", a(0))
		}
	case OFFloor, OFCeil, OFTrunc, OFRound, OFRoundEven:
		if p.fp {
			rm := map[Op]string{OFFloor: "RTN", OFCeil: "RTP", OFTrunc: "RTZ", OFRound: "RNA", OFRoundEven: "RNE"}[t.op]
			fmt.Fprintf(b, "(fp.roundToIntegral %s %s)", rm, a(0))
			return
		}
		v := a(0)
		switch t.op {
		case OFFloor:
			b.WriteString(fl(v))
		case OFCeil:
			b.WriteString("(- " + fl("(- "+v+")") + ")")
		case OFTrunc:
			fmt.Fprintf(b, "(ite (>= %s 0.0) %s (- %s))", v, fl(v), fl("(- "+v+")"))
		default:
			fmt.Fprintf(b, "(ite (>= %s 0.0) %s (- %s))", v, fl("(+ "+v+" 0.5)"), fl("(- 0.5 "+v+")"))
		}
	case OFFromS:
		w := t.args[0].w
		if p.fp {
			fmt.Fprintf(b, "((_ to_fp 11 53) RNE %s)", a(0))
		} else {
			fmt.Fprintf(b, "(to_real (ite (bvslt %s (_ bv0 %d)) (- (bv2nat %s) %s) (bv2nat %s)))", a(0), w, a(0), new(big.Int).Lsh(big.NewInt(1), uint(w)).String(), a(0))
		}
	case OFFromU:
		if p.fp {
			fmt.Fprintf(b, "((_ to_fp_unsigned 11 53) RNE %s)", a(0))
		} else {
			fmt.Fprintf(b, "(to_real (bv2nat %s))", a(0))
		}
	case OFToS, OFToU:
		if p.fp {
			n := "fp.to_sbv"
			if t.op == OFToU {
				n = "fp.to_ubv"
			}
			fmt.Fprintf(b, "((_ %s %d) RTZ %s)", n, t.w, a(0))
		} else {
			v := a(0)
			fmt.Fprintf(b, "((_ int2bv %d) (ite (>= %s 0.0) (to_int %s) (- (to_int (- %s)))))", t.w, v, v, v)
		}
	case OF32:
		if p.fp {
			fmt.Fprintf(b, "((_ to_fp 11 53) RNE ((_ to_fp 8 24) RNE %s))", a(0))
		} else {
			b.WriteString(a(0))
		}
	case OUF:
		fmt.Fprintf(b, "(|%s|", t.name)
		for i := range t.args {
			b.WriteString(" " + a(i))
		}
		b.WriteString(")")
	default:
		panic(fmt.Sprint("smt body op ", t.op))
	}
}
func log2(k uint64) int {
	n := 0
	for k > 1 {
		k >>= 1
		n++
	}
	return n
}

// side conditions for declared ranges
func (p *Proc) side(t *Term, seen map[int32]bool) {
	if t.op == OConst || seen[t.id] {
		return
	}
	seen[t.id] = true
	if t.op == OVar || t.op == OUF || t.op == OBlobLen {
		lo, hi := t.lo, t.hi
		if t.op == OBlobLen {
			l, h := p.x.blobRange(t.blob)
			lo, hi = uint64(l), uint64(h)
		}
		if t.sort == SF64 {
			if t.op == OVar && (lo != 0 || hi != 0) {
				L, H := math.Float64frombits(lo), math.Float64frombits(hi)
				c := &Term{op: OConst, sort: SF64}
				c.c = math.Float64bits(L)
				l := p.ref(c)
				c.c = math.Float64bits(H)
				h := p.ref(c)
				if p.fp {
					fmt.Fprintf(&p.buf, "(assert (and (fp.leq %s %s) (fp.leq %s %s)))\n", l, p.ref(t), p.ref(t), h)
				} else {
					fmt.Fprintf(&p.buf, "(assert (and (<= %s %s) (<= %s %s)))\n", l, p.ref(t), p.ref(t), h)
				}
			}
		} else if t.sort == SBV && hi != 0 {
			if hi != mask(t.w) || lo != 0 {
				fmt.Fprintf(&p.buf, "(assert (and (bvule (_ bv%d %d) %s) (bvule %s (_ bv%d %d))))\n", lo, t.w, p.ref(t), p.ref(t), hi, t.w)
			}
		}
	}
	for _, a := range t.args {
		p.side(a, seen)
	}
}

func (p *Proc) Check(as []*Term, vars []*Term, timeoutMS int) (Res, Model) {
	if p.dead {
		p.start()
	}
	p.buf.Reset()
	fmt.Fprintf(&p.buf, "(set-option :timeout %d)\n", timeoutMS)
	for _, a := range as {
		p.define(a)
	}
	for _, v := range vars {
		p.define(v)
	}
	p.buf.WriteString("(push)\n")
	seen := map[int32]bool{}
	for _, a := range as {
		p.side(a, seen)
	}
	for _, v := range vars {
		p.side(v, seen)
	}
	for _, a := range as {
		fmt.Fprintf(&p.buf, "(assert %s)\n", p.ref(a))
	}
	return p.run(vars, p.ref, timeoutMS)
}

// run sends what is in the buffer and asks for a verdict and a model.
func (p *Proc) run(vars []*Term, ref func(*Term) string, timeoutMS int) (Res, Model) {
	p.buf.WriteString("(check-sat)\n(echo \"#\")\n")
	if debugSMT != nil {
		debugSMT(p.buf.String())
	}
	killed := false
	tm := time.AfterFunc(time.Duration(timeoutMS)*time.Millisecond*2+3*time.Second, func() { killed = true; p.cmd.Process.Kill() })
	defer tm.Stop()
	io.WriteString(p.in, p.buf.String())
	lines, err := p.readTo()
	if err != nil || killed {
		p.Close()
		return Unknown, nil
	}
	res := Unknown
	for _, l := range lines {
		if strings.Contains(l, "(error") {
			lastSolverErr = l
			p.Close()
			return Unknown, nil
		}
		switch l {
		case "sat":
			res = Sat
		case "unsat":
			res = Unsat
		}
	}
	var m Model
	if res == Sat && len(vars) > 0 {
		var sb strings.Builder
		sb.WriteString("(get-value (")
		for _, v := range vars {
			sb.WriteString(ref(v) + " ")
		}
		sb.WriteString("))\n(echo \"#\")\n")
		io.WriteString(p.in, sb.String())
		lines, err := p.readTo()
		if err != nil {
			p.Close()
			return Unknown, nil
		}
		m = parseModel(strings.Join(lines, " "), vars)
		if m == nil {
			p.Close()
			return Unknown, nil
		}
	} else if res == Sat {
		m = Model{}
	}
	io.WriteString(p.in, "(pop)\n")
	return res, m
}

var lastSolverErr string
var debugSMT func(string)

func (p *Proc) readTo() ([]string, error) {
	var r []string
	for {
		l, err := p.out.ReadString('\n')
		if err != nil {
			return nil, err
		}
		l = strings.TrimSpace(l)
		if l == "#" || l == "\"#\"" {
			return r, nil
		}
		r = append(r, l)
	}
}

// ---- model parsing

type sx struct {
	a string
	l []sx
}

func parseSx(s string) sx {
	pos := 0
	var rec func() sx
	rec = func() sx {
		for pos < len(s) && (s[pos] == ' ' || s[pos] == '\n') {
			pos++
		}
		if pos >= len(s) {
			return sx{}
		}
		if s[pos] == '(' {
			pos++
			var l []sx
			for {
				for pos < len(s) && (s[pos] == ' ' || s[pos] == '\n') {
					pos++
				}
				if pos >= len(s) {
					break
				}
				if s[pos] == ')' {
					pos++
					break
				}
				l = append(l, rec())
			}
			return sx{l: l}
		}
		st := pos
		for pos < len(s) && s[pos] != ' ' && s[pos] != '(' && s[pos] != ')' && s[pos] != '\n' {
			pos++
		}
		return sx{a: s[st:pos]}
	}
	return rec()
}

func sxRat(e sx) *big.Rat {
	if e.l == nil {
		a := strings.TrimSuffix(e.a, "?")
		r, ok := new(big.Rat).SetString(a)
		if !ok {
			return nil
		}
		return r
	}
	switch e.l[0].a {
	case "-":
		r := sxRat(e.l[1])
		if r == nil {
			return nil
		}
		return new(big.Rat).Neg(r)
	case "/":
		a, b := sxRat(e.l[1]), sxRat(e.l[2])
		if a == nil || b == nil || b.Sign() == 0 {
			return nil
		}
		return new(big.Rat).Quo(a, b)
	}
	return nil
}

func parseModel(s string, vars []*Term) Model {
	e := parseSx(s)
	if len(e.l) != len(vars) {
		return nil
	}
	m := Model{}
	for i, v := range vars {
		if len(e.l[i].l) != 2 {
			return nil
		}
		x := e.l[i].l[1]
		switch v.sort {
		case SBool:
			if x.a == "true" {
				m[v.id] = 1
			} else {
				m[v.id] = 0
			}
		case SBV:
			u, ok := sxBV(x)
			if !ok {
				r := sxRat(x)
				if r == nil || !r.IsInt() {
					return nil
				}
				u = new(big.Int).And(r.Num(), pow2m1).Uint64() & mask(v.w)
			}
			m[v.id] = u
		case SF64:
			if len(x.l) == 4 && x.l[0].a == "fp" {
				a, _ := sxBV(x.l[1])
				b, _ := sxBV(x.l[2])
				c, _ := sxBV(x.l[3])
				m[v.id] = a<<63 | b<<52 | c
				continue
			}
			if len(x.l) >= 2 && x.l[0].a == "_" {
				switch x.l[1].a {
				case "+zero":
					m[v.id] = 0
				case "-zero":
					m[v.id] = 1 << 63
				default:
					return nil
				}
				continue
			}
			r := sxRat(x)
			if r == nil {
				// algebraic number: approximate by range midpoint
				m[v.id] = v.lo
				continue
			}
			f, _ := r.Float64()
			m[v.id] = math.Float64bits(f)
		}
	}
	return m
}

var pow2m1 = new(big.Int).Sub(pow2(64), big.NewInt(1))

func sxBV(x sx) (uint64, bool) {
	switch {
	case strings.HasPrefix(x.a, "#x"):
		u, err := strconv.ParseUint(x.a[2:], 16, 64)
		return u, err == nil
	case strings.HasPrefix(x.a, "#b"):
		u, err := strconv.ParseUint(x.a[2:], 2, 64)
		return u, err == nil
	}
	return 0, false
}

// ---- query layer with slicing and caching

type Stats struct {
	Queries, SatN, UnsatN, UnkN, Cached, SynPC, IntQ int64
	SolverNS                                         int64
}

type Solver struct {
	x     *Ctx
	real  *Proc
	fp    *Proc
	ints  [3]*IProc
	useFP bool
	cache map[string]cacheEnt
	st    *Stats
	tmo   int
}
type cacheEnt struct {
	r Res
	m Model
}

func NewSolver(x *Ctx, st *Stats) *Solver {
	return &Solver{x: x, cache: map[string]cacheEnt{}, st: st, tmo: 8000}
}
func (s *Solver) Close() {
	if s.real != nil {
		s.real.Close()
	}
	if s.fp != nil {
		s.fp.Close()
	}
	for _, p := range s.ints {
		if p != nil {
			p.Close()
		}
	}
}

func sharesVar(a, b []int32) bool {
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		if a[i] == b[j] {
			return true
		}
		if a[i] < b[j] {
			i++
		} else {
			j++
		}
	}
	return false
}

// Check pc ∧ goal, given old model of pc. Returns a full model on sat.
func (s *Solver) Check(pc []*Term, goal *Term, old Model, varByID func(int32) *Term) (Res, Model) {
	if goal.isC() && goal.c == 0 {
		return Unsat, nil
	}
	// slice
	vars := goal.vars
	var rel []*Term
	used := make([]bool, len(pc))
	for changed := true; changed; {
		changed = false
		for i, p := range pc {
			if !used[i] && sharesVar(p.vars, vars) {
				used[i] = true
				rel = append(rel, p)
				vars = mergeVars(vars, p.vars)
				changed = true
			}
		}
	}
	for _, p := range rel {
		if p == goal {
			// already implied
			s.st.SynPC++
		}
		if p.op == ONot && p.args[0] == goal || goal.op == ONot && goal.args[0] == p {
			return Unsat, nil
		}
	}
	ids := make([]int, len(rel))
	for i, p := range rel {
		ids[i] = int(p.id)
	}
	sort.Ints(ids)
	key := fmt.Sprint(goal.id, ids)
	ent, ok := s.cache[key]
	if ok {
		s.st.Cached++
	} else {
		as := append(append([]*Term{}, rel...), goal)
		var vt []*Term
		for _, v := range vars {
			if t := varByID(v); t != nil {
				vt = append(vt, t)
			}
		}
		ent.r, ent.m = s.solve(as, vt)
		s.cache[key] = ent
	}
	if ent.r != Sat {
		return ent.r, nil
	}
	m := Model{}
	for k, v := range old {
		m[k] = v
	}
	for k, v := range ent.m {
		m[k] = v
	}
	return Sat, m
}

func (s *Solver) solve(as []*Term, vt []*Term) (Res, Model) {
	t0 := time.Now()
	defer func() { s.st.SolverNS += time.Since(t0).Nanoseconds() }()
	hasF := false
	for _, a := range as {
		if a.hasF {
			hasF = true
		}
	}
	var r Res
	var m Model
	s.st.Queries++
	if hasF && !s.useFP && mixed(as, map[int32]bool{}) {
		var tried bool
		for k := range s.ints {
			if s.ints[k] == nil {
				s.ints[k] = NewIProc(s.x, k)
			}
			r, m, tried = s.ints[k].CheckI(as, vt, min(s.tmo, []int{600, 3000, 3000}[k]))
			if !tried || r != Unknown {
				break
			}
		}
		if tried && r != Unknown {
			s.st.IntQ++
		} else {
			t := s.tmo
			if tried {
				t = min(t, 2000)
			}
			if s.real == nil {
				s.real = NewProc(s.x, false)
			}
			r, m = s.real.Check(as, vt, t)
		}
	} else if hasF && s.useFP {
		if s.fp == nil {
			s.fp = NewProc(s.x, true)
		}
		r, m = s.fp.Check(as, vt, s.tmo)
	} else {
		if s.real == nil {
			s.real = NewProc(s.x, false)
		}
		r, m = s.real.Check(as, vt, s.tmo)
	}
	if r == Unknown && !(hasF && s.useFP) {
		for k := 1; k < 3; k++ {
			if s.ints[k] == nil {
				s.ints[k] = NewIProc(s.x, k)
			}
			var tried bool
			if r, m, tried = s.ints[k].CheckI(as, vt, 1500); !tried || r != Unknown {
				break
			}
		}
	}
	switch r {
	case Sat:
		s.st.SatN++
	case Unsat:
		s.st.UnsatN++
	default:
		s.st.UnkN++
	}
	return r, m
}

// mixed reports whether a conversion between integers and floats occurs.
func mixed(as []*Term, seen map[int32]bool) bool {
	for _, t := range as {
		if !t.hasF || seen[t.id] {
			continue
		}
		seen[t.id] = true
		if t.op == OFFromS || t.op == OFFromU || t.op == OFToS || t.op == OFToU || mixed(t.args, seen) {
			return true
		}
	}
	return false
}
