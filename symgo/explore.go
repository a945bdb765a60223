package main

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Decision struct {
	Kind   uint8 // 0 branch, 1 choice
	Taken  bool
	Forced bool
	V      uint64 // concretisation candidate or choice value
}

type workItem struct {
	prefix []Decision
	model  map[string]uint64 // by variable name (stable across workers)
}

type Input struct {
	Name string
	Kind string // int, float, bool, choice, rune, byte, blob
	t    *Term
	v    uint64
	lo   int64
}

type pend struct {
	c   *Term
	msg string
	pos string
}

type Cand struct {
	Harness string
	Msg     string
	Inputs  []InVal
	Approx  bool
	Kind    string
	Obs     []string
	Trace   string
	Labels  []string
}
type InVal struct {
	N string `json:"n"`
	K string `json:"k"`
	V string `json:"v"`
}

// HRun is the exploration of one harness function.
type HRun struct {
	e              *Engine
	name           string
	fn             *ssa.Function
	mu             sync.Mutex
	cond           *sync.Cond
	queue          []workItem
	active         int
	paths          int64
	stats          Stats
	asserts        int64
	synOK          int64
	solved         int64
	unkA           int64
	steps          int64
	decs           int64
	kinds          map[string]int64 // abort kinds
	msgs           map[string]int64
	reach          map[string]int64
	cands          []Cand
	candKey        map[string]int
	wit            []Cand // passing witnesses with observations
	witKey         map[string]bool
	fns            map[string]bool
	inits          map[string]bool
	deadline       time.Time
	maxPaths       int64
	stopped        bool
	rng            *rand.Rand
	opt            Options
	started        time.Time
	wall           time.Duration
	leftover       int
	nfind          int
	doneCandidates map[string]bool
}

type Options struct {
	Steps    int64
	Timeout  time.Duration
	SolverMS int
	MaxPaths int64
	Workers  int
	UseFP    bool
	Seed     int64
	Tier     int
	BFS      bool
	Verbose  bool
}

type Worker struct {
	e           *Engine
	h           *HRun
	x           *Ctx
	pool        map[int][]*frame
	s           *Solver
	globals     []*Value
	pathGlobals []int
	inited      map[*ssa.Package]bool
	steps       int64
	stepLimit   int64
	noSteps     bool
	depth       int
	top         *frame
	spec        bool
	mapOrder    bool
	deferFor    []*frame
	trackFns    bool
	fnSeen      map[*fnInfo]bool
	byteCache   map[string][]Value
	maxAlloc    int64

	// path state
	prefix         []Decision
	trace          []Decision
	di             int
	pc             []*Term
	pcSet          map[*Term]bool
	bnds           map[*Term]bnd
	model          Model
	exact          bool
	checked        bool
	inputs         []Input
	vars           map[int32]*Term
	nameV          map[string]*Term
	startModel     map[string]uint64
	pending        []pend
	obs            []obsItem
	labels         map[string]bool
	nvar           int
	asserts, synOK int64
	st             Stats
	side           map[any]any // model-side state (hash objects, zlib writers, ...)
	concN          map[*Term]int
	ranges         []*Term
}

type obsItem struct {
	label string
	v     Value
	k     tinfo
}

func (w *Worker) noteInit(s string) {
	w.h.mu.Lock()
	w.h.inits[s] = true
	w.h.mu.Unlock()
}

func (w *Worker) addPC(c *Term) {
	if c.isC() || w.pcSet[c] {
		return
	}
	// split conjunctions for better slicing
	if c.op == OAnd {
		w.pcSet[c] = true
		w.addPC(c.args[0])
		w.addPC(c.args[1])
		return
	}
	w.pcSet[c] = true
	if w.boundAdd(c) {
		return
	}
	w.pc = append(w.pc, c)
}

func (w *Worker) known(c *Term) int {
	if w.pcSet[c] {
		return 1
	}
	if w.pcSet[w.x.Not(c)] {
		return -1
	}
	return w.boundKnown(c)
}

func (w *Worker) check(goal *Term) (Res, Model) {
	return w.s.Check(w.pc, goal, w.model, func(id int32) *Term { return w.vars[id] })
}

func (w *Worker) setModel(m Model) {
	w.model = m
	w.exact = w.x.EvalMany(w.pc, m) && w.x.EvalMany(w.ranges, m)
}

func (w *Worker) branch(c *Term) bool { return w.branchV(c, 0) }

func (w *Worker) branchV(c *Term, v uint64) bool {
	if c.isC() {
		return c.c != 0
	}
	switch w.known(c) {
	case 1:
		return true
	case -1:
		return false
	}
	if w.spec {
		panic(specFail{})
	}
	if w.di < len(w.prefix) {
		d := w.prefix[w.di]
		w.di++
		w.trace = append(w.trace, d)
		if !d.Forced {
			if d.Taken {
				w.addPC(c)
			} else {
				w.addPC(w.x.Not(c))
			}
		}
		return d.Taken
	}
	if time.Now().After(w.h.deadline) {
		panic(abort{"time", "time budget"})
	}
	w.verifyStart()
	taken := w.x.Eval(c, w.model) != 0
	side := c
	other := w.x.Not(c)
	if !taken {
		side, other = other, side
	}
	if !w.exact {
		r, m := w.check(side)
		if r == Sat {
			w.setModel(m)
			if w.x.Eval(side, m) == 0 {
				w.exact = false
			}
		} else if r == Unsat {
			side, other = other, side
			taken = !taken
			w.trace = append(w.trace, Decision{Taken: taken, Forced: true, V: v})
			w.prefix = append(w.prefix, w.trace[len(w.trace)-1])
			w.di++
			return taken
		}
	}
	r, m := w.check(other)
	d := Decision{Taken: taken, V: v}
	switch r {
	case Unsat:
		d.Forced = true
	case Sat:
		alt := append(append([]Decision{}, w.trace...), Decision{Taken: !taken, V: v})
		w.h.push(alt, w.exportModel(m))
	default:
		w.h.note("unknown", "branch feasibility unknown")
	}
	w.trace = append(w.trace, d)
	w.prefix = append(w.prefix, d)
	w.di++
	if !d.Forced {
		w.addPC(side)
	}
	return taken
}

// verifyStart checks, once the replayed prefix is consumed, whether the start
// model really satisfies the path condition under exact Go arithmetic.
func (w *Worker) verifyStart() {
	if !w.checked {
		w.checked = true
		w.setModel(w.model)
	}
}

func (w *Worker) choice(n int) int {
	if n <= 1 {
		return 0
	}
	if w.spec {
		panic(specFail{})
	}
	if w.di < len(w.prefix) {
		d := w.prefix[w.di]
		w.di++
		w.trace = append(w.trace, d)
		return int(d.V)
	}
	for k := n - 1; k >= 1; k-- {
		alt := append(append([]Decision{}, w.trace...), Decision{Kind: 1, V: uint64(k)})
		w.h.push(alt, w.exportModel(w.model))
	}
	d := Decision{Kind: 1, V: 0}
	w.trace = append(w.trace, d)
	w.prefix = append(w.prefix, d)
	w.di++
	return 0
}

func (w *Worker) concretize(t *Term) uint64 {
	if t.isC() {
		return t.c
	}
	if w.spec {
		panic(specFail{})
	}
	if kv, ok := w.knownVal(t); ok {
		return kv
	}
	for n := 0; ; n++ {
		if n > 70 {
			panic(abort{"limit", "concretisation limit"})
		}
		var v uint64
		if w.di < len(w.prefix) {
			d := w.prefix[w.di]
			v = d.V
			if d.Kind == 2 {
				// the value was already implied by the path
				w.di++
				w.trace = append(w.trace, d)
				return v
			}
		} else {
			v = w.x.Eval(t, w.model)
		}
		c := w.x.Eq(t, w.x.BVc(v, t.w))
		if w.di >= len(w.prefix) && w.known(c) > 0 {
			d := Decision{Kind: 2, Taken: true, Forced: true, V: v}
			w.trace = append(w.trace, d)
			w.prefix = append(w.prefix, d)
			w.di++
			return v
		}
		if c.isC() && c.c == 0 {
			// model value impossible (inexact model): pick by solver
			w.h.note("unknown", "concretise with inexact model")
			panic(abort{"inexact", "concretise"})
		}
		if w.branchV(c, v) {
			return v
		}
	}
}

// value already fixed by an equality in the path condition
func (w *Worker) knownVal(t *Term) (uint64, bool) {
	if v, ok := w.knownConst(t); ok {
		return v, true
	}
	for _, p := range w.pc {
		if p.op == OEq {
			if p.args[0] == t && p.args[1].isC() {
				return p.args[1].c, true
			}
			if p.args[1] == t && p.args[0].isC() {
				return p.args[0].c, true
			}
		}
	}
	return 0, false
}

func (w *Worker) assume(c *Term) {
	if c.isC() {
		if c.c == 0 {
			panic(abort{"assume", ""})
		}
		return
	}
	if w.known(c) > 0 {
		return
	}
	w.addPC(c)
	if w.di < len(w.prefix) {
		return // replaying a feasible prefix: the start model is verified once it ends
	}
	w.verifyStart()
	if w.exact && w.x.Eval(c, w.model) != 0 {
		return
	}
	r, m := w.s.Check(w.pc, c, w.model, func(id int32) *Term { return w.vars[id] })
	switch r {
	case Unsat:
		panic(abort{"assume", ""})
	case Sat:
		w.setModel(m)
	default:
		w.h.note("unknown", "assume feasibility unknown")
		panic(abort{"unknown", "assume"})
	}
}

func (w *Worker) exportModel(m Model) map[string]uint64 {
	r := make(map[string]uint64, len(m))
	for id, v := range m {
		if t := w.vars[id]; t != nil {
			r[t.name] = v
		}
	}
	return r
}

func (w *Worker) newVar(s Sort, bits uint8, lo, hi uint64) *Term {
	name := fmt.Sprintf("i%d_%d_%d", w.nvar, s, bits)
	if s == SF64 || hi != 0 {
		name += fmt.Sprintf("_%x_%x", lo, hi)
	}
	w.nvar++
	t := w.x.Var(name, s, bits)
	t.lo, t.hi = lo, hi
	w.vars[t.id] = t
	w.nameV[name] = t
	if v, ok := w.startModel[name]; ok {
		w.model[t.id] = v
	} else {
		w.model[t.id] = defaultVal(s, bits, lo, hi, uint64(w.nvar))
	}
	return t
}

// defaultVal spreads initial models over the range so witnesses are not degenerate.
func defaultVal(s Sort, bits uint8, lo, hi, k uint64) uint64 {
	h := (k + 3) * 0x9E3779B97F4A7C15 >> 33
	switch s {
	case SBool:
		return h & 1
	case SF64:
		l, u := math.Float64frombits(lo), math.Float64frombits(hi)
		v := math.Trunc((l+(u-l)*float64(h%29+1)/32)*4) / 4
		if !(v >= l && v <= u) {
			v = l
		}
		return math.Float64bits(v)
	}
	if hi == 0 {
		hi = mask(bits)
	}
	if hi-lo == ^uint64(0) {
		return h
	}
	return lo + h%(hi-lo+1)
}

func (h *HRun) push(p []Decision, m map[string]uint64) {
	h.mu.Lock()
	h.queue = append(h.queue, workItem{p, m})
	h.cond.Signal()
	h.mu.Unlock()
}

func (h *HRun) note(kind, msg string) {
	h.mu.Lock()
	h.kinds[kind]++
	if len(h.msgs) < 60 || h.msgs[kind+": "+msg] > 0 {
		h.msgs[kind+": "+msg]++
	}
	h.mu.Unlock()
}

func (h *HRun) pop() (workItem, bool) {
	h.mu.Lock()
	defer h.mu.Unlock()
	for {
		if h.stopped || time.Now().After(h.deadline) || h.paths >= h.maxPaths {
			h.stopped = true
			h.cond.Broadcast()
			return workItem{}, false
		}
		if n := len(h.queue); n > 0 {
			// mostly depth-first, with random picks for diversity
			i := n - 1
			if h.opt.BFS {
				// shortest decision sequence first
				for k := range h.queue {
					if len(h.queue[k].prefix) < len(h.queue[i].prefix) {
						i = k
					}
				}
			} else if h.rng.Intn(2) == 0 {
				i = h.rng.Intn(n)
			}
			it := h.queue[i]
			h.queue[i] = h.queue[n-1]
			h.queue = h.queue[:n-1]
			h.active++
			h.paths++
			return it, true
		}
		if h.active == 0 {
			h.cond.Broadcast()
			return workItem{}, false
		}
		h.cond.Wait()
	}
}

func (e *Engine) Explore(fn *ssa.Function, name string, opt Options) *HRun {
	h := &HRun{e: e, name: name, fn: fn, kinds: map[string]int64{}, msgs: map[string]int64{}, reach: map[string]int64{}, candKey: map[string]int{}, witKey: map[string]bool{}, fns: map[string]bool{}, inits: map[string]bool{}, rng: rand.New(rand.NewSource(opt.Seed)), opt: opt}
	h.cond = sync.NewCond(&h.mu)
	h.started = time.Now()
	h.deadline = h.started.Add(opt.Timeout)
	h.maxPaths = opt.MaxPaths
	h.queue = []workItem{{}}
	var wg sync.WaitGroup
	go func() {
		// wake sleepers at the deadline
		time.Sleep(time.Until(h.deadline) + 50*time.Millisecond)
		h.cond.Broadcast()
	}()
	for i := 0; i < opt.Workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := e.newWorker(h)
			n := 0
			for {
				it, ok := h.pop()
				if !ok {
					break
				}
				w.runPath(it)
				n++
				if w.x.n > 3000000 {
					w.flush()
					w.s.Close()
					w = e.newWorker(h)
				}
				h.mu.Lock()
				h.active--
				if h.active == 0 && len(h.queue) == 0 {
					h.cond.Broadcast()
				}
				h.mu.Unlock()
			}
			w.flush()
			w.s.Close()
		}()
	}
	wg.Wait()
	h.wall = time.Since(h.started)
	h.leftover = len(h.queue)
	return h
}

func (e *Engine) newWorker(h *HRun) *Worker {
	w := &Worker{e: e, h: h, x: NewCtx(), pool: map[int][]*frame{}, inited: map[*ssa.Package]bool{}, fnSeen: map[*fnInfo]bool{}, trackFns: true}
	registerUFs(w.x)
	w.s = NewSolver(w.x, &w.st)
	w.s.useFP = h.opt.UseFP
	if h.opt.SolverMS > 0 {
		w.s.tmo = h.opt.SolverMS
	}
	return w
}

func (w *Worker) flush() {
	h := w.h
	h.mu.Lock()
	defer h.mu.Unlock()
	h.stats.Queries += w.st.Queries
	h.stats.SatN += w.st.SatN
	h.stats.UnsatN += w.st.UnsatN
	h.stats.UnkN += w.st.UnkN
	h.stats.Cached += w.st.Cached
	h.stats.IntQ += w.st.IntQ
	h.stats.SolverNS += w.st.SolverNS
	w.st = Stats{}
	for fi := range w.fnSeen {
		if fi.fn.Pkg != nil && w.e.mainP[fi.fn.Pkg] {
			n := fi.name
			n = strings.ReplaceAll(n, "github.com/signintech/", "")
			if p := w.e.prog.Fset.Position(fi.fn.Pos()); strings.Contains(p.Filename, "zz_verif") {
				continue
			}
			h.fns[n] = true
		}
	}
}

func (w *Worker) runPath(it workItem) {
	h := w.h
	w.prefix = append([]Decision{}, it.prefix...)
	w.trace = w.trace[:0]
	w.di = 0
	w.pc = nil
	w.pcSet = map[*Term]bool{}
	w.bnds = map[*Term]bnd{}
	w.model = Model{}
	w.exact = true
	w.checked = len(it.prefix) == 0
	w.startModel = it.model
	w.inputs = nil
	w.vars = map[int32]*Term{}
	w.nameV = map[string]*Term{}
	w.pending = nil
	w.obs = nil
	w.labels = map[string]bool{}
	w.nvar = 0
	w.asserts, w.synOK = 0, 0
	w.side = map[any]any{}
	w.steps = 0
	w.stepLimit = h.opt.Steps
	w.depth = 0
	w.top = nil
	w.spec = false
	w.noSteps = false
	w.mapOrder = false
	w.deferFor = nil
	w.byteCache = map[string][]Value{}
	w.maxAlloc = 0
	w.ranges = nil
	// forget per-path globals of the packages under test
	for _, i := range w.pathGlobals {
		w.globals[i] = nil
	}
	w.pathGlobals = w.pathGlobals[:0]

	status := "done"
	msg := ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch r := r.(type) {
				case abort:
					status, msg = r.kind, r.msg
					if r.kind == "unsupported" || r.kind == "steps" {
						msg += " @ " + w.where()
					}
				case targetPanic:
					status, msg = "panic", r.msg+" @ "+w.where()
				case specFail:
					status, msg = "internal", "stray specFail"
				default:
					status = "internal"
					msg = fmt.Sprint(r) + " @ " + w.where()
					if h.opt.Verbose {
						fmt.Fprintln(os.Stderr, "INTERNAL", r, string(debug.Stack()))
					}
				}
			}
		}()
		for _, f := range w.e.inits {
			w.call(f, nil, nil)
		}
		w.call(h.fn, nil, nil)
	}()
	w.spec = false
	w.verifyStart()
	w.finish(status, msg)
}

func (w *Worker) where() string {
	var parts []string
	for f := w.top; f != nil && len(parts) < 12; f = f.caller {
		p := w.e.prog.Fset.Position(f.curPos)
		fn := p.Filename
		if i := strings.LastIndexByte(fn, '/'); i >= 0 {
			fn = fn[i+1:]
		}
		nm := f.fi.name
		if i := strings.LastIndexByte(nm, '/'); i >= 0 {
			nm = nm[i+1:]
		}
		parts = append(parts, fmt.Sprintf("%s(%s:%d)", nm, fn, p.Line))
	}
	return strings.Join(parts, " < ")
}

func (w *Worker) inVals(m Model) []InVal {
	var r []InVal
	for _, in := range w.inputs {
		v := in.v
		if in.t != nil {
			v = w.x.Eval(in.t, m)
		}
		if in.Kind == "int" {
			v = uint64(int64(v))
		}
		r = append(r, InVal{in.Name, in.Kind, fmt.Sprintf("%x", v)})
	}
	return r
}

func (w *Worker) addCand(kind, msg string, m Model, approx bool) {
	h := w.h
	key := kind + "|" + trimAt(msg)
	h.mu.Lock()
	defer h.mu.Unlock()
	h.candKey[key]++
	if h.candKey[key] > 6 {
		return
	}
	h.cands = append(h.cands, Cand{Harness: h.name, Msg: msg, Inputs: w.inVals(m), Approx: approx, Kind: kind})
}

// repair looks for a model of goal under the path condition that also agrees with how
// numbers are really printed: the solver knows only that numbers printed alike are near
// each other, so its models tend to sit on the border between two printed values.
func (w *Worker) repair(goal *Term, m Model, kind, msg string) Model {
	w.h.mu.Lock()
	full := w.h.candKey[kind+"|"+trimAt(msg)] >= 6
	w.h.mu.Unlock()
	if full {
		return m
	}
	x := w.x
	cur := m
	extra := x.True
	for try := 0; try < 4; try++ {
		if x.EvalMany(w.pc, cur) && x.EvalMany(w.ranges, cur) && x.Eval(goal, cur) != 0 {
			return cur
		}
		var atoms []*Term
		seen := map[*Term]bool{}
		var walk func(t *Term)
		walk = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if t.op == OUF && strings.HasPrefix(t.name, "prteq") {
				atoms = append(atoms, t)
			}
			for _, a := range t.args {
				walk(a)
			}
		}
		for _, c := range w.pc {
			walk(c)
		}
		walk(goal)
		n := 0
		for _, t := range atoms {
			d := int(t.name[5] - '0')
			u := math.Pow(10, -float64(d))
			a := math.Float64frombits(x.Eval(t.args[0], cur))
			b := math.Float64frombits(x.Eval(t.args[1], cur))
			if !(math.Abs(a-b) <= u*1.01) {
				continue
			}
			ref := a
			if t.args[1].isC() {
				ref = b
			}
			v, err := strconv.ParseFloat(strconv.FormatFloat(ref, 'f', d, 64), 64)
			if err != nil {
				continue
			}
			for _, g := range t.args {
				if !g.isC() {
					extra = x.And(extra, x.FCmp(OFLe, x.FUn(OFAbs, x.FBin(OFSub, g, x.Fc(v))), x.Fc(u*0.3)))
				}
			}
			n++
		}
		if n == 0 {
			return m
		}
		r, m2 := w.check(x.And(goal, extra))
		if r != Sat {
			return m
		}
		cur = m2
	}
	return m
}

func trimAt(s string) string {
	if i := strings.Index(s, " @ "); i >= 0 {
		return s[:i]
	}
	return s
}

func (w *Worker) finish(status, msg string) {
	h := w.h
	switch status {
	case "done", "assume":
	case "panic":
		w.addCand("panic", msg, w.repair(w.x.True, w.model, "panic", msg), !w.exact)
	case "steps":
		w.addCand("steps", msg, w.model, !w.exact)
		h.note(status, msg)
	case "unsupported":
		w.addCand("unsupported", msg, w.model, true)
		h.note(status, msg)
	default:
		h.note(status, msg)
	}
	var unk, solved int64
	failed := false
	if status != "assume" && len(w.pending) > 0 {
		// all pending assertions in one query, then locate failures
		rest := w.pending
		for len(rest) > 0 {
			conj := w.x.True
			for _, p := range rest {
				conj = w.x.And(conj, p.c)
			}
			if conj == w.x.True {
				break
			}
			r, m := w.check(w.x.Not(conj))
			if r == Unsat {
				solved += int64(len(rest))
				break
			}
			if r == Sat {
				// which ones fail under m (exact evaluation)
				var keep []pend
				found := false
				for _, p := range rest {
					if w.x.Eval(p.c, m) == 0 {
						found, failed = true, true
						w.addCand("assert", p.msg, w.repair(w.x.Not(p.c), m, "assert", p.msg), false)
					} else {
						keep = append(keep, p)
					}
				}
				if !found {
					// only fails in the solver's arithmetic: check individually
					for _, p := range rest {
						r2, m2 := w.check(w.x.Not(p.c))
						switch r2 {
						case Unsat:
							solved++
						case Sat:
							w.addCand("assert", p.msg, w.repair(w.x.Not(p.c), m2, "assert", p.msg), true)
							unk++
						default:
							unk++
						}
					}
					break
				}
				rest = keep
				continue
			}
			// unknown: one at a time
			if len(rest) == 1 {
				unk++
				break
			}
			for _, p := range rest {
				r2, m2 := w.check(w.x.Not(p.c))
				switch r2 {
				case Unsat:
					solved++
				case Sat:
					m2 = w.repair(w.x.Not(p.c), m2, "assert", p.msg)
					w.addCand("assert", p.msg, m2, w.x.Eval(p.c, m2) != 0)
				default:
					unk++
				}
			}
			break
		}
	}
	if unk > 0 {
		h.note("unknown", "assertion undecided")
	}
	// witness for native replay
	var wit *Cand
	if status == "done" && w.exact && !failed && unk == 0 {
		key := ""
		ls := make([]string, 0, len(w.labels))
		for l := range w.labels {
			ls = append(ls, l)
		}
		sort.Strings(ls)
		key = strings.Join(ls, ",")
		h.mu.Lock()
		need := !h.witKey[key] || len(h.wit) < 6
		h.witKey[key] = true
		h.mu.Unlock()
		if need {
			c := Cand{Harness: h.name, Kind: "witness", Inputs: w.inVals(w.model), Labels: ls}
			for _, o := range w.obs {
				c.Obs = append(c.Obs, o.label+"="+w.evalObs(o))
			}
			wit = &c
		}
	}
	w.flush()
	h.mu.Lock()
	h.asserts += w.asserts
	h.synOK += w.synOK
	h.solved += solved
	h.unkA += unk
	h.steps += w.steps
	h.decs += int64(len(w.trace))
	h.kinds["path_"+status]++
	if status == "done" {
		for l := range w.labels {
			h.reach[l]++
		}
	}
	if wit != nil && len(h.wit) < 40 {
		h.wit = append(h.wit, *wit)
	}
	if h.opt.Verbose && h.paths%200 == 0 {
		fmt.Fprintf(os.Stderr, "[%s] paths=%d queue=%d\n", h.name, h.paths, len(h.queue))
	}
	h.mu.Unlock()
}

func (w *Worker) evalObs(o obsItem) string {
	v := o.v
	switch o.k.k {
	case kString:
		return fmt.Sprintf("%x", asStr(v).Eval(w.x, w.model))
	case kFloat:
		u := v.N
		if v.X != nil {
			u = w.x.Eval(v.X.(*Term), w.model)
		}
		return fmt.Sprintf("%.9g", math.Float64frombits(u))
	case kBool:
		u := v.N
		if v.X != nil {
			u = w.x.Eval(v.X.(*Term), w.model)
		}
		return fmt.Sprint(u != 0)
	case kInt:
		u := v.N
		if v.X != nil {
			u = norm(w.x.Eval(v.X.(*Term), w.model), o.k)
		}
		return fmt.Sprint(int64(u))
	}
	return "?"
}

func registerUFs(x *Ctx) {
	fl := func(n int) func([]uint64) uint64 {
		return func(a []uint64) uint64 {
			return uint64(len(fmtFlt(Chunk{n: n}, a[0])))
		}
	}
	for i := -1; i <= 12; i++ {
		x.ufs[fmt.Sprintf("flen%d", i)] = fl(i)
	}
	f1 := func(n string, f func(float64) float64) {
		x.ufs[n] = func(a []uint64) uint64 { return math.Float64bits(f(math.Float64frombits(a[0]))) }
	}
	f1("sin", math.Sin)
	f1("cos", math.Cos)
	f1("tan", math.Tan)
	f1("atan", math.Atan)
	f1("log10", math.Log10)
	f1("exp", math.Exp)
	for i := 0; i <= 9; i++ {
		x.ufs[fmt.Sprintf("prteq%d", i)] = func(a []uint64) uint64 {
			if strconv.FormatFloat(math.Float64frombits(a[0]), 'f', i, 64) == strconv.FormatFloat(math.Float64frombits(a[1]), 'f', i, 64) {
				return 1
			}
			return 0
		}
	}
	x.ufs["atan2"] = func(a []uint64) uint64 {
		return math.Float64bits(math.Atan2(math.Float64frombits(a[0]), math.Float64frombits(a[1])))
	}
	x.ufs["mod"] = func(a []uint64) uint64 {
		return math.Float64bits(math.Mod(math.Float64frombits(a[0]), math.Float64frombits(a[1])))
	}
	x.ufs["pow"] = func(a []uint64) uint64 {
		return math.Float64bits(math.Pow(math.Float64frombits(a[0]), math.Float64frombits(a[1])))
	}
	x.ufs["fbits"] = func(a []uint64) uint64 { return a[0] }
}
