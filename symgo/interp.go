package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type native func(w *Worker, args []Value) Value

type opnd struct {
	k   uint8 // 0 reg 1 const 2 global 3 zero-struct const
	idx int
	v   Value
	g   *ssa.Global
	t   types.Type
}

type icode func(fr *frame)

const (
	tkJump = iota
	tkIf
	tkRet
	tkPanic
)

type phi struct {
	dst   int
	edges []opnd
	ti    tinfo
}

type diamond struct {
	ok           bool
	join         int
	tb, eb       int // arm blocks (-1 = direct edge)
	tEdge, eEdge int // pred index at join
}

type block struct {
	phis []phi
	code []icode
	term int
	cond opnd
	succ [2]int
	pidx [2]int // pred index in successor
	rets []opnd
	dia  diamond
	pos  token.Pos
	pure bool
}

type fnInfo struct {
	fn      *ssa.Function
	name    string
	nregs   int
	blocks  []block
	nat     native
	hasDef  bool
	recover int
	once    sync.Once
	bad     string
}

type deferred struct {
	fn   Value
	args []Value
	call *ssa.CallCommon
	bi   *ssa.Builtin
}

type frame struct {
	w       *Worker
	fi      *fnInfo
	regs    []Value
	env     []Value
	defers  []deferred
	result  Value
	pan     *targetPanic
	recov   bool
	caller  *frame
	curPos  token.Pos
	deferOf *frame
}

type Engine struct {
	prog   *ssa.Program
	fns    sync.Map // *ssa.Function -> *fnInfo
	gidx   map[*ssa.Global]int
	gmu    sync.Mutex
	mainP  map[*ssa.Package]bool
	models map[string]native
	inits  []*ssa.Function
	mc     sync.Map // method lookup cache
	implc  sync.Map
	used   sync.Map // function names executed in main packages
}

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	if v, ok := e.fns.Load(fn); ok {
		fi := v.(*fnInfo)
		fi.once.Do(func() { e.compile(fi) })
		return fi
	}
	fi := &fnInfo{fn: fn}
	v, _ := e.fns.LoadOrStore(fn, fi)
	fi = v.(*fnInfo)
	fi.once.Do(func() { e.compile(fi) })
	return fi
}

func (e *Engine) globalIndex(g *ssa.Global) int {
	e.gmu.Lock()
	defer e.gmu.Unlock()
	i, ok := e.gidx[g]
	if !ok {
		i = len(e.gidx)
		e.gidx[g] = i
	}
	return i
}

type compiler struct {
	e    *Engine
	fi   *fnInfo
	regs map[ssa.Value]int
}

func (c *compiler) reg(v ssa.Value) int {
	i, ok := c.regs[v]
	if !ok {
		i = c.fi.nregs
		c.fi.nregs++
		c.regs[v] = i
	}
	return i
}

func (c *compiler) op(v ssa.Value) opnd {
	switch v := v.(type) {
	case *ssa.Const:
		return constOp(v)
	case *ssa.Global:
		return opnd{k: 2, idx: c.e.globalIndex(v), g: v}
	case *ssa.Function:
		return opnd{k: 1, v: Value{X: &Closure{fn: v}}}
	case *ssa.Builtin:
		return opnd{k: 1, v: Value{X: &Closure{bi: v}}}
	}
	return opnd{k: 0, idx: c.reg(v)}
}

func constOp(v *ssa.Const) opnd {
	t := v.Type()
	if v.Value == nil {
		switch t.Underlying().(type) {
		case *types.Struct, *types.Array, *types.Tuple:
			return opnd{k: 3, t: t}
		}
		return opnd{k: 1}
	}
	ti := tinf(t)
	switch ti.k {
	case kBool:
		return opnd{k: 1, v: bv(constant.BoolVal(v.Value))}
	case kInt:
		if ti.signed {
			n, _ := constant.Int64Val(constant.ToInt(v.Value))
			return opnd{k: 1, v: Value{N: norm(uint64(n), ti)}}
		}
		iv := constant.ToInt(v.Value)
		if constant.Sign(iv) < 0 {
			n, _ := constant.Int64Val(iv)
			return opnd{k: 1, v: Value{N: norm(uint64(n), ti)}}
		}
		n, _ := constant.Uint64Val(iv)
		return opnd{k: 1, v: Value{N: norm(n, ti)}}
	case kFloat:
		f, _ := constant.Float64Val(v.Value)
		if ti.f32 {
			f = float64(float32(f))
		}
		return opnd{k: 1, v: fv(f)}
	case kString:
		return opnd{k: 1, v: sv(constant.StringVal(v.Value))}
	}
	return opnd{k: 1}
}

func (fr *frame) get(o *opnd) Value {
	switch o.k {
	case 0:
		return fr.regs[o.idx]
	case 1:
		return o.v
	case 2:
		return Value{X: fr.w.global(o)}
	}
	return zero(o.t)
}

func (w *Worker) global(o *opnd) *Value {
	if o.idx < len(w.globals) {
		if p := w.globals[o.idx]; p != nil {
			return p
		}
	}
	for o.idx >= len(w.globals) {
		w.globals = append(w.globals, make([]*Value, o.idx+64-len(w.globals))...)
	}
	p := new(Value)
	*p = zero(o.g.Type().(*types.Pointer).Elem())
	w.globals[o.idx] = p
	if pkg := o.g.Pkg; pkg != nil && !w.e.mainP[pkg] {
		w.lazyInit(pkg)
	} else {
		w.pathGlobals = append(w.pathGlobals, o.idx)
	}
	return p
}

func (w *Worker) lazyInit(pkg *ssa.Package) {
	if w.inited[pkg] {
		return
	}
	w.inited[pkg] = true
	f := pkg.Func("init")
	if f == nil || len(f.Blocks) == 0 {
		return
	}
	sp := w.spec
	w.spec = false
	sn := w.noSteps
	w.noSteps = true
	defer func() {
		w.spec = sp
		w.noSteps = sn
		if r := recover(); r != nil {
			if a, ok := r.(abort); ok {
				w.noteInit(pkg.Pkg.Path() + ": " + a.msg)
				return
			}
			if a, ok := r.(targetPanic); ok {
				w.noteInit(pkg.Pkg.Path() + ": panic " + a.msg)
				return
			}
			panic(r)
		}
	}()
	w.call(f, nil, nil)
}

func (e *Engine) compile(fi *fnInfo) {
	fn := fi.fn
	fi.name = fn.String()
	if fn.Origin() != nil {
		fi.name = fn.Origin().String()
	}
	if m, ok := e.models[fi.name]; ok {
		fi.nat = m
		return
	}
	if to, ok := redirects[fi.name]; ok {
		for p := range e.mainP {
			if f := p.Func(to); f != nil {
				fi.nat = func(w *Worker, a []Value) Value { return w.call(f, a, nil) }
				return
			}
		}
	}
	if fn.Synthetic == "package initializer" {
		// handled by callInit in call sites
	}
	if len(fn.Blocks) == 0 {
		fi.bad = "no body: " + fi.name
		return
	}
	c := &compiler{e: e, fi: fi, regs: map[ssa.Value]int{}}
	for _, p := range fn.Params {
		c.reg(p)
	}
	for _, p := range fn.FreeVars {
		c.reg(p)
	}
	fi.blocks = make([]block, len(fn.Blocks))
	fi.recover = -1
	if fn.Recover != nil {
		fi.recover = fn.Recover.Index
	}
	for i, b := range fn.Blocks {
		blk := &fi.blocks[i]
		pure := true
		for _, in := range b.Instrs {
			if in.Pos() != token.NoPos && blk.pos == token.NoPos {
				blk.pos = in.Pos()
			}
			switch in := in.(type) {
			case *ssa.Phi:
				ph := phi{dst: c.reg(in), ti: tinf(in.Type())}
				for _, e := range in.Edges {
					ph.edges = append(ph.edges, c.op(e))
				}
				blk.phis = append(blk.phis, ph)
				pure = false
			case *ssa.Jump:
				blk.term = tkJump
				c.succ(b, blk)
			case *ssa.If:
				blk.term = tkIf
				blk.cond = c.op(in.Cond)
				c.succ(b, blk)
			case *ssa.Return:
				blk.term = tkRet
				for _, r := range in.Results {
					blk.rets = append(blk.rets, c.op(r))
				}
			case *ssa.Panic:
				blk.term = tkPanic
				blk.cond = c.op(in.X)
			case *ssa.DebugRef:
			default:
				if !pureInstr(in) {
					pure = false
				}
				if _, ok := in.(*ssa.Defer); ok {
					fi.hasDef = true
				}
				ic := c.instr(in)
				if ic != nil {
					blk.code = append(blk.code, ic)
				}
			}
		}
		blk.pure = pure && blk.term == tkJump && len(b.Instrs) <= 14 && len(b.Preds) == 1
	}
	for i := range fi.blocks {
		b := &fi.blocks[i]
		if b.term != tkIf {
			continue
		}
		t, e := b.succ[0], b.succ[1]
		if t == e {
			continue
		}
		d := diamond{tb: -1, eb: -1}
		if fi.blocks[t].pure && fi.blocks[e].pure && fi.blocks[t].succ[0] == fi.blocks[e].succ[0] {
			d = diamond{true, fi.blocks[t].succ[0], t, e, fi.blocks[t].pidx[0], fi.blocks[e].pidx[0]}
		} else if fi.blocks[t].pure && fi.blocks[t].succ[0] == e {
			d = diamond{true, e, t, -1, fi.blocks[t].pidx[0], b.pidx[1]}
		} else if fi.blocks[e].pure && fi.blocks[e].succ[0] == t {
			d = diamond{true, t, -1, e, b.pidx[0], fi.blocks[e].pidx[0]}
		}
		b.dia = d
	}
}

func pureInstr(in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.BinOp, *ssa.UnOp, *ssa.Convert, *ssa.ChangeType, *ssa.FieldAddr, *ssa.Field, *ssa.Index, *ssa.IndexAddr, *ssa.Extract, *ssa.DebugRef:
		if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW {
			return false
		}
		return true
	case *ssa.Call:
		if b, ok := in.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "len" || b.Name() == "cap"
		}
	}
	return false
}

func (c *compiler) succ(b *ssa.BasicBlock, blk *block) {
	for k, s := range b.Succs {
		blk.succ[k] = s.Index
		// pred index: for duplicates handle order
		n := 0
		for j := 0; j < k; j++ {
			if b.Succs[j] == s {
				n++
			}
		}
		for pi, p := range s.Preds {
			if p == b {
				if n == 0 {
					blk.pidx[k] = pi
					break
				}
				n--
			}
		}
	}
}

var maxDepth = 400

func (w *Worker) call(fn *ssa.Function, args []Value, env []Value) Value {
	fi := w.e.info(fn)
	if fi.nat != nil {
		return fi.nat(w, args)
	}
	if fi.bad != "" {
		unsup("%s", fi.bad)
	}
	if w.spec {
		panic(specFail{})
	}
	w.depth++
	if w.depth > maxDepth {
		w.depth = 0
		panic(abort{"steps", "call depth exceeded in " + fi.name})
	}
	var fr *frame
	if pl := w.pool[fi.nregs]; len(pl) > 0 {
		fr = pl[len(pl)-1]
		w.pool[fi.nregs] = pl[:len(pl)-1]
		fr.fi, fr.caller = fi, w.top
	} else {
		fr = &frame{w: w, fi: fi, caller: w.top}
		fr.regs = make([]Value, fi.nregs)
	}
	copy(fr.regs, args)
	copy(fr.regs[len(fn.Params):], env)
	w.top = fr
	if w.trackFns {
		if _, ok := w.fnSeen[fi]; !ok {
			w.fnSeen[fi] = true
		}
	}
	if fi.hasDef {
		w.runDefers(fr)
	} else {
		w.exec(fr, 0)
	}
	w.top = fr.caller
	w.depth--
	res := fr.result
	if !fi.hasDef {
		regs := fr.regs
		clear(regs)
		*fr = frame{w: w, regs: regs}
		w.pool[fi.nregs] = append(w.pool[fi.nregs], fr)
	}
	return res
}

func (w *Worker) runDefers(fr *frame) {
	depth := w.depth
	func() {
		defer func() {
			if r := recover(); r != nil {
				tp, ok := r.(targetPanic)
				if !ok {
					panic(r)
				}
				w.top = fr
				w.depth = depth
				fr.pan = &tp
			}
		}()
		w.exec(fr, 0)
	}()
	if fr.pan == nil {
		return
	}
	w.rundeferStack(fr)
	if fr.pan != nil && !fr.recov {
		panic(*fr.pan)
	}
	fr.pan = nil
	if fr.fi.recover >= 0 {
		w.exec(fr, fr.fi.recover)
	}
}

func (w *Worker) rundeferStack(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		w.deferFor = append(w.deferFor, fr)
		func() {
			defer func() {
				w.deferFor = w.deferFor[:len(w.deferFor)-1]
				if r := recover(); r != nil {
					if tp, ok := r.(targetPanic); ok {
						w.top = fr
						fr.pan = &tp
						fr.recov = false
						return
					}
					panic(r)
				}
			}()
			w.callV(d.fn, d.args)
		}()
	}
}

func (w *Worker) callV(f Value, args []Value) Value {
	c, ok := f.X.(*Closure)
	if !ok || c == nil {
		rtPanic("runtime error: invalid memory address or nil pointer dereference (nil func)")
	}
	if c.bi != nil {
		return w.builtin(c.bi, args, nil)
	}
	return w.call(c.fn, args, c.env)
}

type specFail struct{}

func (w *Worker) exec(fr *frame, bi int) {
	blocks := fr.fi.blocks
	pi := -1
	var tmp [8]Value
	for {
		b := &blocks[bi]
		w.steps += int64(len(b.code)) + 1
		if w.steps > w.stepLimit && !w.noSteps {
			panic(abort{"steps", fmt.Sprintf("step limit in %s", fr.fi.name)})
		}
		if b.pos != token.NoPos {
			fr.curPos = b.pos
		}
		if n := len(b.phis); n > 0 && pi >= 0 {
			if n == 1 {
				fr.regs[b.phis[0].dst] = fr.get(&b.phis[0].edges[pi])
			} else {
				t := tmp[:0]
				for i := range b.phis {
					t = append(t, fr.get(&b.phis[i].edges[pi]))
				}
				for i := range b.phis {
					fr.regs[b.phis[i].dst] = t[i]
				}
			}
		}
		for _, ic := range b.code {
			ic(fr)
		}
		switch b.term {
		case tkJump:
			pi = b.pidx[0]
			bi = b.succ[0]
		case tkIf:
			c := fr.get(&b.cond)
			var taken bool
			if c.X == nil {
				taken = c.N != 0
			} else {
				t := c.X.(*Term)
				if b.dia.ok && !w.spec && w.known(t) == 0 {
					if w.merge(fr, b, t) {
						bi = b.dia.join
						pi = -1
						continue
					}
				}
				taken = w.branch(t)
			}
			if taken {
				bi, pi = b.succ[0], b.pidx[0]
			} else {
				bi, pi = b.succ[1], b.pidx[1]
			}
		case tkRet:
			switch len(b.rets) {
			case 0:
			case 1:
				fr.result = cp(fr.get(&b.rets[0]))
			default:
				r := make([]Value, len(b.rets))
				for i := range b.rets {
					r[i] = cp(fr.get(&b.rets[i]))
				}
				fr.result = Value{X: r}
			}
			return
		case tkPanic:
			v := fr.get(&b.cond)
			panic(targetPanic{v, w.panicMsg(v)})
		}
	}
}

// merge evaluates both pure arms and joins phis with ite. On failure returns false.
func (w *Worker) merge(fr *frame, b *block, c *Term) (ok bool) {
	d := b.dia
	j := &fr.fi.blocks[d.join]
	if len(j.phis) == 0 && (d.tb < 0 || len(fr.fi.blocks[d.tb].code) == 0) && (d.eb < 0 || len(fr.fi.blocks[d.eb].code) == 0) {
		return true // empty arms
	}
	depth, top := w.depth, w.top
	defer func() {
		w.spec = false
		if r := recover(); r != nil {
			if _, is := r.(specFail); is {
				w.depth, w.top = depth, top
				ok = false
				return
			}
			if _, is := r.(targetPanic); is {
				w.depth, w.top = depth, top
				ok = false
				return
			}
			panic(r)
		}
	}()
	w.spec = true
	arm := func(bi, edge int) []Value {
		if bi >= 0 {
			for _, ic := range fr.fi.blocks[bi].code {
				ic(fr)
			}
		}
		r := make([]Value, len(j.phis))
		for i := range j.phis {
			r[i] = fr.get(&j.phis[i].edges[edge])
		}
		return r
	}
	vt := arm(d.tb, d.tEdge)
	ve := arm(d.eb, d.eEdge)
	res := make([]Value, len(vt))
	for i := range vt {
		ti := j.phis[i].ti
		switch ti.k {
		case kBool, kInt, kFloat:
			if vt[i] == ve[i] {
				res[i] = vt[i]
			} else {
				res[i] = fromTerm(w.x.Ite(c, w.term(vt[i], ti), w.term(ve[i], ti)), ti)
			}
		default:
			if vt[i].N != ve[i].N || !sameX(vt[i].X, ve[i].X) {
				panic(specFail{})
			}
			res[i] = vt[i]
		}
	}
	for i := range res {
		fr.regs[j.phis[i].dst] = res[i]
	}
	return true
}

func sameX(a, b any) (r bool) {
	defer func() {
		if recover() != nil {
			r = false
		}
	}()
	return a == b
}

func (w *Worker) panicMsg(v Value) string {
	i, ok := v.X.(*Iface)
	if !ok || i == nil {
		return "panic(nil)"
	}
	if s, ok := concStr(i.v); ok && tinf(i.t).k == kString {
		return "panic: " + s
	}
	func() {
		defer func() { recover() }()
		if m := w.e.method(i.t, "Error"); m != nil {
			r := w.call(m, []Value{i.v}, nil)
			if s, ok := concStr(r); ok {
				v = Value{X: s}
			}
		}
	}()
	if s, ok := v.X.(string); ok {
		return "panic: " + s
	}
	return "panic of type " + i.t.String()
}

type mkey struct {
	t    types.Type
	name string
}

func (e *Engine) method(t types.Type, name string) *ssa.Function {
	k := mkey{t, name}
	if v, ok := e.mc.Load(k); ok {
		f, _ := v.(*ssa.Function)
		return f
	}
	ms := e.prog.MethodSets.MethodSet(t)
	var f *ssa.Function
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			f = e.prog.MethodValue(ms.At(i))
			break
		}
	}
	e.mc.Store(k, f)
	return f
}

func (w *Worker) invoke(recv Value, name string, args []Value) Value {
	i, _ := recv.X.(*Iface)
	if i == nil {
		rtPanic("runtime error: invalid memory address or nil pointer dereference (nil interface method " + name + ")")
	}
	m := w.e.method(i.t, name)
	if m == nil {
		unsup("method %s not found on %s", name, i.t)
	}
	return w.call(m, append([]Value{cp(i.v)}, args...), nil)
}

func (e *Engine) implements(t types.Type, it *types.Interface) bool {
	type ik struct {
		a int
		b *types.Interface
	}
	k := ik{typeID(t), it}
	if v, ok := e.implc.Load(k); ok {
		return v.(bool)
	}
	r := types.Implements(t, it)
	e.implc.Store(k, r)
	return r
}

// ---- instruction compilation

func (c *compiler) instr(in ssa.Instruction) icode {
	switch in := in.(type) {
	case *ssa.BinOp:
		return c.binop(in)
	case *ssa.UnOp:
		return c.unop(in)
	case *ssa.Call:
		return c.callInstr(&in.Call, c.reg(in), in.Pos())
	case *ssa.Alloc:
		d := c.reg(in)
		t := in.Type().(*types.Pointer).Elem()
		return func(fr *frame) {
			p := new(Value)
			*p = zero(t)
			fr.regs[d] = Value{X: p}
		}
	case *ssa.Store:
		a, v := c.op(in.Addr), c.op(in.Val)
		ti := tinf(in.Val.Type())
		return func(fr *frame) {
			pv := fr.get(&a)
			switch p := pv.X.(type) {
			case *Value:
				assign(p, fr.get(&v))
			case *SymPtr:
				fr.w.symStore(p, fr.get(&v), ti)
			default:
				rtPanic("runtime error: invalid memory address or nil pointer dereference")
			}
		}
	case *ssa.FieldAddr:
		d, x, f := c.reg(in), c.op(in.X), in.Field
		return func(fr *frame) {
			p, ok := fr.get(&x).X.(*Value)
			if !ok {
				if sp, ok := fr.get(&x).X.(*SymPtr); ok {
					p = fr.w.concPtr(sp)
				} else {
					rtPanic("runtime error: invalid memory address or nil pointer dereference")
				}
			}
			s, ok := p.X.(*StructV)
			if !ok {
				unsup("field address of non-struct %T in %s", p.X, fr.fi.name)
			}
			fr.regs[d] = Value{X: &s.f[f]}
		}
	case *ssa.Field:
		d, x, f := c.reg(in), c.op(in.X), in.Field
		return func(fr *frame) {
			fr.regs[d] = fr.get(&x).X.(*StructV).f[f]
		}
	case *ssa.IndexAddr:
		return c.indexAddr(in)
	case *ssa.Index:
		return c.index(in)
	case *ssa.Lookup:
		return c.lookup(in)
	case *ssa.Convert:
		return c.convert(in)
	case *ssa.MultiConvert:
		return func(fr *frame) { unsup("multiconvert") }
	case *ssa.ChangeType:
		d, x := c.reg(in), c.op(in.X)
		return func(fr *frame) { fr.regs[d] = fr.get(&x) }
	case *ssa.ChangeInterface:
		d, x := c.reg(in), c.op(in.X)
		return func(fr *frame) { fr.regs[d] = fr.get(&x) }
	case *ssa.MakeInterface:
		d, x, t := c.reg(in), c.op(in.X), in.X.Type()
		return func(fr *frame) {
			fr.regs[d] = Value{X: &Iface{t, cp(fr.get(&x))}}
		}
	case *ssa.MakeClosure:
		d := c.reg(in)
		fn := in.Fn.(*ssa.Function)
		var bs []opnd
		for _, b := range in.Bindings {
			bs = append(bs, c.op(b))
		}
		return func(fr *frame) {
			env := make([]Value, len(bs))
			for i := range bs {
				env[i] = fr.get(&bs[i])
			}
			fr.regs[d] = Value{X: &Closure{fn: fn, env: env}}
		}
	case *ssa.MakeMap:
		d := c.reg(in)
		kt := in.Type().Underlying().(*types.Map).Key()
		return func(fr *frame) { fr.regs[d] = Value{X: &MapObj{idx: map[any]int{}, kt: kt}} }
	case *ssa.MakeSlice:
		d, l, cp_ := c.reg(in), c.op(in.Len), c.op(in.Cap)
		et := in.Type().Underlying().(*types.Slice).Elem()
		lt, ct := tinf(in.Len.Type()), tinf(in.Cap.Type())
		return func(fr *frame) {
			w := fr.w
			if lv := fr.get(&l); lv.X != nil && isByte(et) && fr.get(&cp_).X == lv.X {
				t := w.term64(lv, lt)
				if _, fixed := w.knownVal(t); !fixed {
					if lo, hi, ok := w.x.srange(t); ok && hi < 1<<22 {
						if lo < 0 && w.branch(w.x.Cmp(OSLt, t, w.x.BVc(0, 64))) {
							rtPanic("runtime error: makeslice: len out of range")
						}
						w.checkAlloc(lo)
						b := w.x.mkBlob(&Blob{kind: "zeros", t: t, n: -1})
						fr.regs[d] = ropeSlice(&Str{ch: []Chunk{{k: CBlob, blob: b}}})
						return
					}
				}
			}
			n := w.intOf(fr.get(&l), lt)
			k := w.intOf(fr.get(&cp_), ct)
			if n < 0 || n > 1<<40 {
				rtPanic("runtime error: makeslice: len out of range")
			}
			if k < n {
				rtPanic("runtime error: makeslice: cap out of range")
			}
			w.checkAlloc(k)
			if k > 1<<22 {
				panic(abort{"limit", "huge allocation"})
			}
			a := &ArrV{v: make([]Value, k)}
			switch et.Underlying().(type) {
			case *types.Struct, *types.Array:
				for i := range a.v {
					a.v[i] = zero(et)
				}
			}
			fr.regs[d] = Value{X: &Slice{a: a, len: int(n), cap: int(k)}}
		}
	case *ssa.Slice:
		return c.slice(in)
	case *ssa.MapUpdate:
		m, k, v := c.op(in.Map), c.op(in.Key), c.op(in.Value)
		return func(fr *frame) {
			mo, _ := fr.get(&m).X.(*MapObj)
			if mo == nil {
				rtPanic("assignment to entry in nil map")
			}
			fr.w.mapSet(mo, fr.get(&k), fr.get(&v))
		}
	case *ssa.Extract:
		d, x, i := c.reg(in), c.op(in.Tuple), in.Index
		return func(fr *frame) { fr.regs[d] = fr.get(&x).X.([]Value)[i] }
	case *ssa.TypeAssert:
		return c.typeAssert(in)
	case *ssa.Range:
		d, x := c.reg(in), c.op(in.X)
		_, isMap := in.X.Type().Underlying().(*types.Map)
		return func(fr *frame) { fr.regs[d] = fr.w.mkIter(fr.get(&x), isMap) }
	case *ssa.Next:
		d, x := c.reg(in), c.op(in.Iter)
		isStr := in.IsString
		return func(fr *frame) { fr.regs[d] = fr.w.iterNext(fr.get(&x).X.(*iter), isStr) }
	case *ssa.Defer:
		return c.deferInstr(in)
	case *ssa.RunDefers:
		return func(fr *frame) {
			fr.w.rundeferStack(fr)
			if fr.pan != nil && !fr.recov {
				p := *fr.pan
				panic(p)
			}
		}
	case *ssa.SliceToArrayPointer:
		return func(fr *frame) { unsup("slice to array pointer") }
	case *ssa.Go:
		return c.goInstr(in)
	case *ssa.MakeChan, *ssa.Send, *ssa.Select:
		return func(fr *frame) { unsup("channel operation") }
	}
	panic(fmt.Sprintf("instr %T", in))
}

func (w *Worker) checkAlloc(n int64) {
	if n > w.maxAlloc {
		w.maxAlloc = n
	}
}

func (w *Worker) intOf(v Value, ti tinfo) int64 {
	if v.X == nil {
		return int64(v.N)
	}
	u := w.concretize(v.X.(*Term))
	return int64(norm(u, ti))
}

func (w *Worker) symStore(p *SymPtr, v Value, ti tinfo) {
	if w.spec {
		panic(specFail{})
	}
	if ti.k != kInt && ti.k != kBool && ti.k != kFloat || len(p.slots) > 300 {
		assign(w.concPtr(p), v)
		return
	}
	for i := range p.slots {
		c := w.x.Eq(p.idx, w.x.BVc(uint64(i), 64))
		p.slots[i] = fromTerm(w.x.Ite(c, w.term(v, ti), w.term(p.slots[i], ti)), ti)
	}
}
func (w *Worker) symLoad(p *SymPtr, ti tinfo) Value {
	if ti.k != kInt && ti.k != kBool && ti.k != kFloat || len(p.slots) > 300 {
		return *w.concPtr(p)
	}
	lo, hi := 0, len(p.slots)-1
	if l, h, ok := w.x.urange(p.idx); ok && h < uint64(len(p.slots)) {
		lo, hi = int(l), int(h)
	}
	r := w.term(p.slots[hi], ti)
	for i := hi - 1; i >= lo; i-- {
		r = w.x.Ite(w.x.Eq(p.idx, w.x.BVc(uint64(i), 64)), w.term(p.slots[i], ti), r)
	}
	return fromTerm(r, ti)
}
func (w *Worker) concPtr(p *SymPtr) *Value {
	i := w.concretize(p.idx)
	return &p.slots[i]
}

func (w *Worker) idxTerm(v Value, ti tinfo) *Term {
	t := v.X.(*Term)
	if ti.signed {
		return w.x.SExt(t, 64)
	}
	return w.x.ZExt(t, 64)
}

func (c *compiler) indexAddr(in *ssa.IndexAddr) icode {
	d, x, ix := c.reg(in), c.op(in.X), c.op(in.Index)
	ti := tinf(in.Index.Type())
	_, isSlice := in.X.Type().Underlying().(*types.Slice)
	return func(fr *frame) {
		xv := fr.get(&x)
		iv := fr.get(&ix)
		var slots []Value
		if isSlice {
			s, _ := xv.X.(*Slice)
			if s == nil {
				rtPanic("runtime error: index out of range [nil slice]")
			}
			if s.a == nil {
				fr.w.mat(s)
			}
			slots = s.a.v[s.off : s.off+s.len]
		} else {
			p, ok := xv.X.(*Value)
			if !ok {
				if sp, ok2 := xv.X.(*SymPtr); ok2 {
					p = fr.w.concPtr(sp)
				} else {
					rtPanic("runtime error: invalid memory address or nil pointer dereference")
				}
			}
			slots = p.X.(*ArrV).v
		}
		if iv.X == nil {
			if int64(iv.N) < 0 || iv.N >= uint64(len(slots)) {
				rtPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", int64(iv.N), len(slots)))
			}
			fr.regs[d] = Value{X: &slots[iv.N]}
			return
		}
		t := fr.w.idxTerm(iv, ti)
		if !fr.w.branch(fr.w.x.Cmp(OULt, t, fr.w.x.BVc(uint64(len(slots)), 64))) {
			rtPanic(fmt.Sprintf("runtime error: index out of range with length %d", len(slots)))
		}
		fr.regs[d] = Value{X: &SymPtr{slots, t}}
	}
}

func (c *compiler) index(in *ssa.Index) icode {
	d, x, ix := c.reg(in), c.op(in.X), c.op(in.Index)
	ti := tinf(in.Index.Type())
	et := tinf(in.Type())
	isStr := tinf(in.X.Type()).k == kString
	return func(fr *frame) {
		if isStr {
			fr.regs[d] = fr.w.strIndex(fr.get(&x), fr.get(&ix), ti)
			return
		}
		a := fr.get(&x).X.(*ArrV)
		iv := fr.get(&ix)
		if iv.X == nil {
			if int64(iv.N) < 0 || iv.N >= uint64(len(a.v)) {
				rtPanic("runtime error: index out of range")
			}
			fr.regs[d] = a.v[iv.N]
			return
		}
		t := fr.w.idxTerm(iv, ti)
		if !fr.w.branch(fr.w.x.Cmp(OULt, t, fr.w.x.BVc(uint64(len(a.v)), 64))) {
			rtPanic("runtime error: index out of range")
		}
		fr.regs[d] = fr.w.symLoad(&SymPtr{a.v, t}, et)
	}
}

func (w *Worker) strIndex(s, i Value, ti tinfo) Value {
	if str, ok := concStr(s); ok {
		if i.X == nil {
			if int64(i.N) < 0 || i.N >= uint64(len(str)) {
				rtPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", int64(i.N), len(str)))
			}
			return Value{N: uint64(str[i.N])}
		}
		t := w.idxTerm(i, ti)
		if !w.branch(w.x.Cmp(OULt, t, w.x.BVc(uint64(len(str)), 64))) {
			rtPanic("runtime error: index out of range")
		}
		slots := w.bytesOf(litStr(str))
		return w.symLoad(&SymPtr{slots, t}, tByte)
	}
	r := asStr(s)
	// fast path: constant index inside leading constant-length chunks
	var vs []Value
	if i.X == nil {
		vs = w.strBytes(r)
		if int64(i.N) < 0 || i.N >= uint64(len(vs)) {
			rtPanic("runtime error: index out of range")
		}
		return vs[i.N]
	}
	t := w.idxTerm(i, ti)
	// index equal to a chunk boundary?
	offs := w.x.offsets(r)
	for k, o := range offs[:len(r.ch)] {
		if o == t {
			b := w.chunkBytes(nil, &r.ch[k])
			return b[0]
		}
	}
	vs = w.strBytes(r)
	if !w.branch(w.x.Cmp(OULt, t, w.x.BVc(uint64(len(vs)), 64))) {
		rtPanic("runtime error: index out of range")
	}
	return w.symLoad(&SymPtr{vs, t}, tByte)
}

// strBytes caches exploded ropes per path
func (w *Worker) strBytes(r *Str) []Value {
	k := r.Key()
	if v, ok := w.byteCache[k]; ok {
		return v
	}
	v := w.bytesOf(r)
	w.byteCache[k] = v
	return v
}

func (c *compiler) lookup(in *ssa.Lookup) icode {
	d, x, ix := c.reg(in), c.op(in.X), c.op(in.Index)
	if tinf(in.X.Type()).k == kString {
		ti := tinf(in.Index.Type())
		return func(fr *frame) { fr.regs[d] = fr.w.strIndex(fr.get(&x), fr.get(&ix), ti) }
	}
	vt := in.X.Type().Underlying().(*types.Map).Elem()
	ok := in.CommaOk
	return func(fr *frame) {
		m, _ := fr.get(&x).X.(*MapObj)
		i := fr.w.mapFind(m, fr.get(&ix))
		var v Value
		if i >= 0 {
			v = cp(m.ents[i].v)
		} else {
			v = zero(vt)
		}
		if ok {
			v = Value{X: []Value{v, bv(i >= 0)}}
		}
		fr.regs[d] = v
	}
}

func (c *compiler) typeAssert(in *ssa.TypeAssert) icode {
	d, x := c.reg(in), c.op(in.X)
	at := in.AssertedType
	it, isI := at.Underlying().(*types.Interface)
	ok := in.CommaOk
	tid := typeID(at)
	return func(fr *frame) {
		xv := fr.get(&x)
		i, _ := xv.X.(*Iface)
		match := false
		if i != nil {
			if isI {
				match = fr.w.e.implements(i.t, it)
			} else {
				match = typeID(i.t) == tid
			}
		}
		var v Value
		if match {
			if isI {
				v = xv
			} else {
				v = cp(i.v)
			}
		} else {
			if !ok {
				rtPanic("interface conversion: type assertion to " + at.String() + " failed")
			}
			v = zero(at)
		}
		if ok {
			v = Value{X: []Value{v, bv(match)}}
		}
		fr.regs[d] = v
	}
}

func (c *compiler) slice(in *ssa.Slice) icode {
	d, x := c.reg(in), c.op(in.X)
	var lo, hi, mx *opnd
	var lt, ht, mt tinfo
	if in.Low != nil {
		o := c.op(in.Low)
		lo, lt = &o, tinf(in.Low.Type())
	}
	if in.High != nil {
		o := c.op(in.High)
		hi, ht = &o, tinf(in.High.Type())
	}
	if in.Max != nil {
		o := c.op(in.Max)
		mx, mt = &o, tinf(in.Max.Type())
	}
	isStr := tinf(in.X.Type()).k == kString
	_, isPtr := in.X.Type().Underlying().(*types.Pointer)
	return func(fr *frame) {
		w := fr.w
		xv := fr.get(&x)
		if isStr {
			if s, ok := concStr(xv); ok {
				l, h := int64(0), int64(len(s))
				if lo != nil {
					l = w.intOf(fr.get(lo), lt)
				}
				if hi != nil {
					h = w.intOf(fr.get(hi), ht)
				}
				if l < 0 || h < l || h > int64(len(s)) {
					rtPanic("runtime error: slice bounds out of range")
				}
				fr.regs[d] = sv(s[l:h])
				return
			}
			var l, h *Term
			if lo != nil {
				l = w.term64(fr.get(lo), lt)
			}
			if hi != nil {
				h = w.term64(fr.get(hi), ht)
			}
			fr.regs[d] = strV(w.ropeSub(asStr(xv), l, h))
			return
		}
		var s *Slice
		if isPtr {
			p, ok := xv.X.(*Value)
			if !ok {
				rtPanic("runtime error: invalid memory address or nil pointer dereference")
			}
			a := p.X.(*ArrV)
			s = &Slice{a: a, len: len(a.v), cap: len(a.v)}
		} else {
			s, _ = xv.X.(*Slice)
			if s == nil {
				if (lo == nil || w.intOf(fr.get(lo), lt) == 0) && (hi == nil || w.intOf(fr.get(hi), ht) == 0) {
					fr.regs[d] = Value{}
					return
				}
				rtPanic("runtime error: slice bounds out of range")
			}
		}
		if s.a == nil && len(s.rope.ch) == 1 && s.rope.ch[0].k == CBlob && s.rope.ch[0].blob.kind == "zeros" {
			w.mat(s) // a fresh buffer: sub-slices alias it
		}
		if s.a == nil {
			var l, h *Term
			if lo != nil {
				l = w.term64(fr.get(lo), lt)
			}
			if hi != nil {
				h = w.term64(fr.get(hi), ht)
			}
			fr.regs[d] = ropeSlice(w.ropeSub(s.rope, l, h))
			return
		}
		l, h, m := int64(0), int64(s.len), int64(s.cap)
		// symbolic bounds: check range first, then concretise
		if lo != nil {
			lv := fr.get(lo)
			if lv.X != nil {
				lim := s.cap
				if hi == nil {
					lim = s.len
				}
				if !w.branch(w.x.Cmp(OULe, w.term64(lv, lt), w.x.BVc(uint64(lim), 64))) {
					rtPanic("runtime error: slice bounds out of range")
				}
			}
			l = w.intOf(lv, lt)
		}
		if hi != nil {
			hv := fr.get(hi)
			if hv.X != nil {
				ht_ := w.term64(hv, ht)
				if !w.branch(w.x.And(w.x.Cmp(OULe, ht_, w.x.BVc(uint64(s.cap), 64)), w.x.Cmp(OULe, w.x.BVc(uint64(l), 64), ht_))) {
					rtPanic("runtime error: slice bounds out of range")
				}
			}
			h = w.intOf(hv, ht)
		}
		if mx != nil {
			m = w.intOf(fr.get(mx), mt)
		}
		if l < 0 || h < l || m < h || m > int64(s.cap) {
			rtPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d] with capacity %d", l, h, s.cap))
		}
		fr.regs[d] = Value{X: &Slice{a: s.a, off: s.off + int(l), len: int(h - l), cap: int(m - l)}}
	}
}

func (w *Worker) term64(v Value, ti tinfo) *Term {
	t := w.term(v, ti)
	if ti.signed {
		return w.x.SExt(t, 64)
	}
	return w.x.ZExt(t, 64)
}

func (c *compiler) deferInstr(in *ssa.Defer) icode {
	cc := &in.Call
	var args []opnd
	for _, a := range cc.Args {
		args = append(args, c.op(a))
	}
	f := c.op(cc.Value)
	e := c.e
	return func(fr *frame) {
		var av []Value
		fnv := fr.get(&f)
		if cc.IsInvoke() {
			i, _ := fnv.X.(*Iface)
			if i == nil {
				rtPanic("nil interface in defer")
			}
			m := e.method(i.t, cc.Method.Name())
			fnv = Value{X: &Closure{fn: m}}
			av = append(av, i.v)
		}
		for i := range args {
			av = append(av, cp(fr.get(&args[i])))
		}
		fr.defers = append(fr.defers, deferred{fn: fnv, args: av})
	}
}

// goInstr runs the new goroutine to its end at once. With io.Pipe an unbounded
// buffer (see models.go) this is one of the schedules there are, and all
// schedules of a producer and a consumer give the same result.
func (c *compiler) goInstr(in *ssa.Go) icode {
	cc := &in.Call
	if cc.IsInvoke() {
		return func(fr *frame) { unsup("go statement") }
	}
	var args []opnd
	for _, a := range cc.Args {
		args = append(args, c.op(a))
	}
	f := c.op(cc.Value)
	return func(fr *frame) {
		if fr.w.spec {
			panic(specFail{})
		}
		var av []Value
		for i := range args {
			av = append(av, cp(fr.get(&args[i])))
		}
		fr.w.callV(fr.get(&f), av)
	}
}

func (c *compiler) callInstr(cc *ssa.CallCommon, d int, pos token.Pos) icode {
	var args []opnd
	for _, a := range cc.Args {
		args = append(args, c.op(a))
	}
	e := c.e
	if cc.IsInvoke() {
		recv := c.op(cc.Value)
		name := cc.Method.Name()
		return func(fr *frame) {
			i, _ := fr.get(&recv).X.(*Iface)
			if i == nil {
				fr.curPos = pos
				rtPanic("runtime error: invalid memory address or nil pointer dereference (nil interface, method " + name + ")")
			}
			av := make([]Value, len(args)+1)
			av[0] = cp(i.v)
			for k := range args {
				av[k+1] = cp(fr.get(&args[k]))
			}
			m := e.method(i.t, name)
			if m == nil {
				unsup("method %s on %s", name, i.t)
			}
			fr.regs[d] = fr.w.call(m, av, nil)
		}
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		var at []types.Type
		for _, a := range cc.Args {
			at = append(at, a.Type())
		}
		if f.Name() == "len" && len(args) == 1 {
			a := args[0]
			return func(fr *frame) { fr.regs[d] = fr.w.lenOf(fr.get(&a)) }
		}
		if f.Name() == "recover" {
			return func(fr *frame) {
				w := fr.w
				fr.regs[d] = Value{}
				if n := len(w.deferFor); n > 0 {
					t := w.deferFor[n-1]
					if t.pan != nil && !t.recov {
						t.recov = true
						fr.regs[d] = t.pan.v
					}
				}
			}
		}
		return func(fr *frame) {
			av := make([]Value, len(args))
			for k := range args {
				av[k] = fr.get(&args[k])
			}
			fr.regs[d] = fr.w.builtin(f, av, at)
		}
	case *ssa.Function:
		if f.Synthetic == "package initializer" {
			return func(fr *frame) {} // package inits are driven by the engine
		}
		return func(fr *frame) {
			av := make([]Value, len(args))
			for k := range args {
				av[k] = cp(fr.get(&args[k]))
			}
			fr.regs[d] = fr.w.call(f, av, nil)
		}
	}
	fo := c.op(cc.Value)
	return func(fr *frame) {
		av := make([]Value, len(args))
		for k := range args {
			av[k] = cp(fr.get(&args[k]))
		}
		fr.regs[d] = fr.w.callV(fr.get(&fo), av)
	}
}

func (w *Worker) lenOf(v Value) Value {
	switch s := v.X.(type) {
	case nil:
		return Value{}
	case string:
		return iv(len(s))
	case *Str:
		return fromTerm(w.x.strLen(s), tInt)
	case *Slice:
		if s.a == nil {
			return fromTerm(w.x.strLen(s.rope), tInt)
		}
		return iv(s.len)
	case *MapObj:
		return iv(s.n)
	case *ArrV:
		return iv(len(s.v))
	case *Value:
		return iv(len(s.X.(*ArrV).v))
	}
	unsup("len of %T", v.X)
	return Value{}
}

func (w *Worker) builtin(f *ssa.Builtin, a []Value, at []types.Type) Value {
	switch f.Name() {
	case "len":
		return w.lenOf(a[0])
	case "cap":
		switch s := a[0].X.(type) {
		case nil:
			return Value{}
		case *Slice:
			if s.a == nil {
				return w.lenOf(a[0])
			}
			return iv(s.cap)
		}
		return w.lenOf(a[0])
	case "append":
		return w.appendS(a[0], a[1], at)
	case "copy":
		return w.copyS(a[0], a[1])
	case "delete":
		m, _ := a[0].X.(*MapObj)
		if m != nil {
			w.mapDel(m, a[1])
		}
		return Value{}
	case "print", "println":
		return Value{}
	case "panic":
		panic(targetPanic{a[0], w.panicMsg(a[0])})
	case "min", "max":
		ti := tinf(at[0])
		r := a[0]
		for _, b := range a[1:] {
			op := token.LSS
			if f.Name() == "max" {
				op = token.GTR
			}
			c := w.compare(op, b, r, ti)
			r = w.ite(c, b, r, ti)
		}
		return r
	case "clear":
		switch s := a[0].X.(type) {
		case *MapObj:
			s.ents, s.idx, s.n, s.sym = nil, map[any]int{}, 0, 0
		case *Slice:
			if s.a == nil {
				unsup("clear of a rope")
			}
			for i := s.off; i < s.off+s.len; i++ {
				s.a.v[i] = Value{}
			}
			w.zeroFill(s.a.v[s.off:s.off+s.len], at)
		}
		return Value{}
	case "ssa:wrapnilchk":
		if a[0].X == nil {
			rtPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		return a[0]
	case "String", "StringData", "SliceData", "Slice":
		if f.Name() == "String" || f.Name() == "Slice" {
			unsup("unsafe.%s", f.Name())
		}
	}
	unsup("builtin %s", f.Name())
	return Value{}
}

func (w *Worker) ite(c Value, a, b Value, ti tinfo) Value {
	if c.X == nil {
		if c.N != 0 {
			return a
		}
		return b
	}
	if ti.k == kString || ti.k == kOther {
		if w.branch(c.X.(*Term)) {
			return a
		}
		return b
	}
	return fromTerm(w.x.Ite(c.X.(*Term), w.term(a, ti), w.term(b, ti)), ti)
}

func (w *Worker) appendS(a, b Value, at []types.Type) Value {
	sa, _ := a.X.(*Slice)
	var sb *Slice
	switch t := b.X.(type) {
	case nil:
		if a.X == nil {
			return a
		}
		return a
	case string:
		sb = &Slice{rope: litStr(t)}
	case *Str:
		sb = &Slice{rope: t}
	case *Slice:
		sb = t
	}
	// rope cases
	if sb.a == nil || sa != nil && sa.a == nil {
		ra, rb := w.sliceRope(sa), w.sliceRope(sb)
		if len(rb.ch) == 0 {
			return a
		}
		la := w.x.strLen(ra)
		_, lita := ra.isLit()
		_, litb := rb.isLit()
		if sa != nil && sa.a != nil && litb {
			// keep array semantics
			nb := &Slice{rope: rb}
			w.mat(nb)
			sb = nb
		} else if lita && litb && la.isC() {
			if sa == nil || len(ra.ch) == 0 {
				return ropeSlice(rb)
			}
			return ropeSlice(w.x.concat(ra, rb))
		} else {
			return ropeSlice(w.x.normRope(append(append([]Chunk{}, ra.ch...), rb.ch...)))
		}
	}
	if sb.len == 0 {
		return a
	}
	src := sb.a.v[sb.off : sb.off+sb.len]
	if sa == nil {
		n := &ArrV{v: make([]Value, len(src), max(len(src), 8))}
		for i := range src {
			n.v[i] = cp(src[i])
		}
		n.v = n.v[:cap(n.v)]
		w.zeroFill(n.v[len(src):], at)
		c := len(src)
		return Value{X: &Slice{a: n, len: len(src), cap: c}}
	}
	nl := sa.len + len(src)
	if nl <= sa.cap {
		dst := sa.a.v[sa.off+sa.len : sa.off+nl]
		tmp := make([]Value, len(src))
		for i := range src {
			tmp[i] = cp(src[i])
		}
		copy(dst, tmp)
		return Value{X: &Slice{a: sa.a, off: sa.off, len: nl, cap: sa.cap}}
	}
	nc := sa.cap * 2
	if sa.cap >= 256 {
		nc = sa.cap + sa.cap/4 + 192
	}
	if nc < nl {
		nc = nl
	}
	n := &ArrV{v: make([]Value, nc)}
	for i := 0; i < sa.len; i++ {
		n.v[i] = cp(sa.a.v[sa.off+i])
	}
	for i := range src {
		n.v[sa.len+i] = cp(src[i])
	}
	w.zeroFill(n.v[nl:], at)
	return Value{X: &Slice{a: n, len: nl, cap: nc}}
}

func (w *Worker) zeroFill(v []Value, at []types.Type) {
	if at == nil || len(v) == 0 {
		return
	}
	st, ok := at[0].Underlying().(*types.Slice)
	if !ok {
		return
	}
	switch st.Elem().Underlying().(type) {
	case *types.Struct, *types.Array:
		for i := range v {
			v[i] = zero(st.Elem())
		}
	}
}

func (w *Worker) copyS(a, b Value) Value {
	da, _ := a.X.(*Slice)
	if da == nil {
		return Value{}
	}
	var sb *Slice
	switch t := b.X.(type) {
	case nil:
		return Value{}
	case string:
		sb = &Slice{rope: litStr(t)}
	case *Str:
		sb = &Slice{rope: t}
	case *Slice:
		sb = t
	}
	w.mat(da)
	if sb.a == nil {
		if l := w.x.strLen(sb.rope); !l.isC() || int(l.c) > da.len {
			// only the prefix is needed
			if l.isC() {
				sb = &Slice{rope: w.ropeSub(sb.rope, nil, w.x.BVc(uint64(da.len), 64))}
			}
		}
		nb := &Slice{rope: sb.rope}
		w.mat(nb)
		sb = nb
	}
	n := min(da.len, sb.len)
	tmp := make([]Value, n)
	for i := 0; i < n; i++ {
		tmp[i] = cp(sb.a.v[sb.off+i])
	}
	for i := 0; i < n; i++ {
		assign(&da.a.v[da.off+i], tmp[i])
	}
	return iv(n)
}

// ---- iteration

type iter struct {
	m    *MapObj
	ord  []*mapEnt
	pos  int
	s    *Str
	ci   int
	off  *Term
	inl  int
	conc string
	isC  bool
}

func (w *Worker) mkIter(v Value, isMap bool) Value {
	it := &iter{}
	if isMap {
		m, _ := v.X.(*MapObj)
		if m != nil {
			it.m = m
			for _, e := range m.ents {
				if e.live {
					it.ord = append(it.ord, e)
				}
			}
			if w.mapOrder && len(it.ord) > 1 {
				it.ord = w.permute(it.ord)
			}
		}
		return Value{X: it}
	}
	if s, ok := concStr(v); ok {
		it.conc, it.isC = s, true
		return Value{X: it}
	}
	it.s = asStr(v)
	it.off = w.x.BVc(0, 64)
	return Value{X: it}
}

func (w *Worker) permute(o []*mapEnt) []*mapEnt {
	n := len(o)
	if n <= 3 {
		r := append([]*mapEnt{}, o...)
		for i := 0; i < n-1; i++ {
			k := i + w.choice(n-i)
			r[i], r[k] = r[k], r[i]
		}
		return r
	}
	switch w.choice(3) {
	case 1:
		r := make([]*mapEnt, n)
		for i := range o {
			r[n-1-i] = o[i]
		}
		return r
	case 2:
		return append(append([]*mapEnt{}, o[n/2:]...), o[:n/2]...)
	}
	return o
}

func (w *Worker) iterNext(it *iter, isStr bool) Value {
	if !isStr {
		for it.pos < len(it.ord) {
			e := it.ord[it.pos]
			it.pos++
			if e.live {
				return Value{X: []Value{bv(true), cp(e.k), cp(e.v)}}
			}
		}
		return Value{X: []Value{bv(false), {}, {}}}
	}
	if it.isC {
		if it.pos >= len(it.conc) {
			return Value{X: []Value{bv(false), {}, {}}}
		}
		r, n := decodeRune(it.conc[it.pos:])
		p := it.pos
		it.pos += n
		return Value{X: []Value{bv(true), iv(p), {N: uint64(int64(r))}}}
	}
	for it.ci < len(it.s.ch) {
		c := &it.s.ch[it.ci]
		off := fromTerm(it.off, tInt)
		switch c.k {
		case CLit:
			if it.inl >= len(c.s) {
				it.ci++
				it.inl = 0
				continue
			}
			r, n := decodeRune(c.s[it.inl:])
			it.inl += n
			it.off = w.x.Add(it.off, w.x.BVc(uint64(n), 64))
			return Value{X: []Value{bv(true), off, {N: uint64(int64(r))}}}
		case CRune:
			it.off = w.x.Add(it.off, w.x.chunkLen(c))
			it.ci++
			return Value{X: []Value{bv(true), off, fromTerm(c.t, tRune)}}
		case CByte:
			// decode through utf8 on the remaining bytes (ASCII fast path)
			if w.branch(w.x.Cmp(OULt, c.t, w.x.BVc(0x80, 8))) {
				it.ci++
				it.off = w.x.Add(it.off, w.x.BVc(1, 64))
				return Value{X: []Value{bv(true), off, fromTerm(w.x.ZExt(c.t, 32), tRune)}}
			}
			unsup("range over non-ASCII symbolic bytes")
		default:
			// explode into bytes
			vs := w.chunkBytes(nil, c)
			ch := append([]Chunk{}, it.s.ch[:it.ci]...)
			ch = append(ch, w.bytesRope(vs).ch...)
			ch = append(ch, it.s.ch[it.ci+1:]...)
			it.s = &Str{ch: ch}
		}
	}
	return Value{X: []Value{bv(false), {}, {}}}
}

// ---- operators

func (c *compiler) unop(in *ssa.UnOp) icode {
	d, x := c.reg(in), c.op(in.X)
	ti := tinf(in.Type())
	switch in.Op {
	case token.MUL:
		return func(fr *frame) {
			xv := fr.get(&x)
			switch p := xv.X.(type) {
			case *Value:
				fr.regs[d] = cp(*p)
			case *SymPtr:
				fr.regs[d] = cp(fr.w.symLoad(p, ti))
			default:
				rtPanic("runtime error: invalid memory address or nil pointer dereference")
			}
		}
	case token.NOT:
		return func(fr *frame) {
			v := fr.get(&x)
			if v.X == nil {
				fr.regs[d] = Value{N: 1 - v.N}
			} else {
				fr.regs[d] = fromTerm(fr.w.x.Not(v.X.(*Term)), ti)
			}
		}
	case token.SUB:
		return func(fr *frame) {
			v := fr.get(&x)
			if ti.k == kFloat {
				if v.X == nil {
					fr.regs[d] = fv(-math.Float64frombits(v.N))
				} else {
					fr.regs[d] = fromTerm(fr.w.x.FUn(OFNeg, v.X.(*Term)), ti)
				}
				return
			}
			if v.X == nil {
				fr.regs[d] = Value{N: norm(-v.N, ti)}
			} else {
				fr.regs[d] = fromTerm(fr.w.x.Sub(fr.w.x.BVc(0, ti.w), v.X.(*Term)), ti)
			}
		}
	case token.XOR:
		return func(fr *frame) {
			v := fr.get(&x)
			if v.X == nil {
				fr.regs[d] = Value{N: norm(^v.N, ti)}
			} else {
				fr.regs[d] = fromTerm(fr.w.x.bin(OBXor, v.X.(*Term), fr.w.x.BVc(^uint64(0), ti.w)), ti)
			}
		}
	}
	return func(fr *frame) { unsup("unop %s", in.Op) }
}

func cmpBool(op token.Token, lt, eq bool) bool {
	switch op {
	case token.LSS:
		return lt
	case token.LEQ:
		return lt || eq
	case token.GTR:
		return !lt && !eq
	case token.GEQ:
		return !lt
	}
	panic("cmpBool")
}

func (w *Worker) compare(op token.Token, a, b Value, ti tinfo) Value {
	x := w.x
	switch ti.k {
	case kInt:
		if a.X == nil && b.X == nil {
			if ti.signed {
				return bv(cmpBool(op, int64(a.N) < int64(b.N), a.N == b.N))
			}
			return bv(cmpBool(op, a.N < b.N, a.N == b.N))
		}
		ta, tb := w.term(a, ti), w.term(b, ti)
		lt, le := OULt, OULe
		if ti.signed {
			lt, le = OSLt, OSLe
		}
		switch op {
		case token.LSS:
			return fromTerm(x.Cmp(lt, ta, tb), tBool)
		case token.LEQ:
			return fromTerm(x.Cmp(le, ta, tb), tBool)
		case token.GTR:
			return fromTerm(x.Cmp(lt, tb, ta), tBool)
		case token.GEQ:
			return fromTerm(x.Cmp(le, tb, ta), tBool)
		}
	case kFloat:
		if a.X == nil && b.X == nil {
			fa, fb := math.Float64frombits(a.N), math.Float64frombits(b.N)
			switch op {
			case token.LSS:
				return bv(fa < fb)
			case token.LEQ:
				return bv(fa <= fb)
			case token.GTR:
				return bv(fa > fb)
			case token.GEQ:
				return bv(fa >= fb)
			}
		}
		ta, tb := w.term(a, ti), w.term(b, ti)
		switch op {
		case token.LSS:
			return fromTerm(x.FCmp(OFLt, ta, tb), tBool)
		case token.LEQ:
			return fromTerm(x.FCmp(OFLe, ta, tb), tBool)
		case token.GTR:
			return fromTerm(x.FCmp(OFLt, tb, ta), tBool)
		case token.GEQ:
			return fromTerm(x.FCmp(OFLe, tb, ta), tBool)
		}
	case kString:
		sa, ok1 := concStr(a)
		sb, ok2 := concStr(b)
		if ok1 && ok2 {
			return bv(cmpBool(op, sa < sb, sa == sb))
		}
		va, vb := w.strBytes(asStr(a)), w.strBytes(asStr(b))
		// lexicographic: lt term
		lt := x.Bool(len(va) < len(vb))
		eq := x.Bool(len(va) == len(vb))
		for i := min(len(va), len(vb)) - 1; i >= 0; i-- {
			p, q := w.term(va[i], tByte), w.term(vb[i], tByte)
			e := x.Eq(p, q)
			lt = x.Ite(e, lt, x.Cmp(OULt, p, q))
			eq = x.And(e, eq)
		}
		var r *Term
		switch op {
		case token.LSS:
			r = lt
		case token.LEQ:
			r = x.Or(lt, eq)
		case token.GTR:
			r = x.Not(x.Or(lt, eq))
		default:
			r = x.Not(lt)
		}
		return fromTerm(r, tBool)
	}
	unsup("compare")
	return Value{}
}

func (c *compiler) binop(in *ssa.BinOp) icode {
	d, a, b := c.reg(in), c.op(in.X), c.op(in.Y)
	op := in.Op
	xt := in.X.Type()
	ti := tinf(xt)
	switch op {
	case token.EQL, token.NEQ:
		yt := in.Y.Type()
		_, xi := xt.Underlying().(*types.Interface)
		_, yi := yt.Underlying().(*types.Interface)
		neg := op == token.NEQ
		return func(fr *frame) {
			av, bv_ := fr.get(&a), fr.get(&b)
			if av.X == nil && bv_.X == nil && ti.k != kFloat && ti.k != kOther {
				fr.regs[d] = bv((av.N == bv_.N) != neg)
				return
			}
			if xi && !yi {
				bv_ = Value{X: &Iface{yt, bv_}}
			} else if yi && !xi {
				av = Value{X: &Iface{xt, av}}
			}
			t := xt
			if yi {
				t = yt
			}
			r := fr.w.eq(av, bv_, t)
			if neg {
				r = fr.w.x.Not(r)
			}
			fr.regs[d] = fromTerm(r, tBool)
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return func(fr *frame) { fr.regs[d] = fr.w.compare(op, fr.get(&a), fr.get(&b), ti) }
	}
	switch ti.k {
	case kString:
		return func(fr *frame) {
			av, bv_ := fr.get(&a), fr.get(&b)
			sa, ok1 := concStr(av)
			sb, ok2 := concStr(bv_)
			if ok1 && ok2 {
				fr.regs[d] = sv(sa + sb)
				return
			}
			fr.regs[d] = strV(fr.w.x.concat(asStr(av), asStr(bv_)))
		}
	case kFloat:
		return func(fr *frame) {
			av, bv_ := fr.get(&a), fr.get(&b)
			if av.X == nil && bv_.X == nil {
				fa, fb := math.Float64frombits(av.N), math.Float64frombits(bv_.N)
				var r float64
				switch op {
				case token.ADD:
					r = fa + fb
				case token.SUB:
					r = fa - fb
				case token.MUL:
					r = fa * fb
				case token.QUO:
					r = fa / fb
				}
				if ti.f32 {
					r = float64(float32(r))
				}
				fr.regs[d] = fv(r)
				return
			}
			var o Op
			switch op {
			case token.ADD:
				o = OFAdd
			case token.SUB:
				o = OFSub
			case token.MUL:
				o = OFMul
			case token.QUO:
				o = OFDiv
			}
			t := fr.w.x.FBin(o, fr.w.term(av, ti), fr.w.term(bv_, ti))
			if ti.f32 {
				t = fr.w.x.FUn(OF32, t)
			}
			fr.regs[d] = fromTerm(t, ti)
		}
	case kInt:
		yti := tinf(in.Y.Type())
		return func(fr *frame) {
			fr.regs[d] = fr.w.intOp(op, fr.get(&a), fr.get(&b), ti, yti)
		}
	case kBool:
		return func(fr *frame) {
			av, bv_ := fr.get(&a), fr.get(&b)
			x := fr.w.x
			p, q := fr.w.term(av, ti), fr.w.term(bv_, ti)
			switch op {
			case token.AND:
				fr.regs[d] = fromTerm(x.And(p, q), ti)
			case token.OR:
				fr.regs[d] = fromTerm(x.Or(p, q), ti)
			default:
				unsup("bool op %s", op)
			}
		}
	}
	return func(fr *frame) { unsup("binop %s on %s", op, xt) }
}

func (w *Worker) intOp(op token.Token, a, b Value, ti, yti tinfo) Value {
	if a.X == nil && b.X == nil {
		x, y := a.N, b.N
		var r uint64
		switch op {
		case token.ADD:
			r = x + y
		case token.SUB:
			r = x - y
		case token.MUL:
			r = x * y
		case token.QUO:
			if y == 0 {
				rtPanic("runtime error: integer divide by zero")
			}
			if ti.signed {
				if int64(y) == -1 {
					r = -x
				} else {
					r = uint64(int64(x) / int64(y))
				}
			} else {
				r = x / y
			}
		case token.REM:
			if y == 0 {
				rtPanic("runtime error: integer divide by zero")
			}
			if ti.signed {
				if int64(y) == -1 {
					r = 0
				} else {
					r = uint64(int64(x) % int64(y))
				}
			} else {
				r = x % y
			}
		case token.AND:
			r = x & y
		case token.OR:
			r = x | y
		case token.XOR:
			r = x ^ y
		case token.AND_NOT:
			r = x &^ y
		case token.SHL, token.SHR:
			if yti.signed && int64(y) < 0 {
				rtPanic("runtime error: negative shift amount")
			}
			if op == token.SHL {
				if y < 64 {
					r = x << y
				}
			} else if ti.signed {
				if y > 63 {
					y = 63
				}
				r = uint64(int64(x) >> y)
			} else if y < 64 {
				r = x >> y
			}
		}
		return Value{N: norm(r, ti)}
	}
	x := w.x
	ta := w.term(a, ti)
	var tb *Term
	if op == token.SHL || op == token.SHR {
		tb = w.term(b, yti)
		if yti.signed && !tb.isC() {
			if w.branch(x.Cmp(OSLt, tb, x.BVc(0, yti.w))) {
				rtPanic("runtime error: negative shift amount")
			}
		}
		if tb.w > ti.w {
			big := x.Cmp(OULe, x.BVc(uint64(ti.w), tb.w), tb)
			tb = x.Ite(big, x.BVc(uint64(ti.w), ti.w), x.Extract(tb, 0, ti.w))
			if ti.w < 7 {
				unsup("shift")
			}
		} else if tb.w < ti.w {
			tb = x.ZExt(tb, ti.w)
		}
	} else {
		tb = w.term(b, ti)
	}
	var r *Term
	switch op {
	case token.ADD:
		r = x.Add(ta, tb)
	case token.SUB:
		r = x.Sub(ta, tb)
	case token.MUL:
		r = x.Mul(ta, tb)
	case token.QUO, token.REM:
		if !tb.isC() {
			if w.branch(x.Eq(tb, x.BVc(0, ti.w))) {
				rtPanic("runtime error: integer divide by zero")
			}
		} else if tb.c == 0 {
			rtPanic("runtime error: integer divide by zero")
		}
		o := OUDiv
		// signed division of provably non-negative operands is unsigned division
		half := uint64(1) << (ti.w - 1)
		_, ha, ok1 := x.urange(ta)
		_, hb, ok2 := x.urange(tb)
		if ti.signed && !(ok1 && ok2 && ha < half && hb < half) {
			o = OSDiv
			if op == token.REM {
				o = OSRem
			}
		} else if op == token.REM {
			o = OURem
		}
		r = x.bin(o, ta, tb)
	case token.AND:
		r = x.bin(OBAnd, ta, tb)
	case token.OR:
		// disjoint or -> add keeps linear form
		r = w.orTerm(ta, tb)
	case token.XOR:
		r = x.bin(OBXor, ta, tb)
	case token.AND_NOT:
		r = x.bin(OBAnd, ta, x.bin(OBXor, tb, x.BVc(^uint64(0), ti.w)))
	case token.SHL:
		r = x.bin(OShl, ta, tb)
	case token.SHR:
		if ti.signed {
			_, ha, ok := x.urange(ta)
			if ok && ha < uint64(1)<<(ti.w-1) {
				r = x.bin(OLShr, ta, tb)
			} else {
				r = x.bin(OAShr, ta, tb)
			}
		} else {
			r = x.bin(OLShr, ta, tb)
		}
	}
	return fromTerm(r, ti)
}

// or of values with disjoint bits becomes addition
func (w *Worker) orTerm(a, b *Term) *Term {
	x := w.x
	if bitsMay(x, a, 6)&bitsMay(x, b, 6) == 0 {
		return x.Add(a, b)
	}
	return x.bin(OBOr, a, b)
}

// over-approximation of bits that may be set
func bitsMay(x *Ctx, t *Term, d int) uint64 {
	if d == 0 {
		return mask(t.w)
	}
	switch t.op {
	case OConst:
		return t.c
	case OZExt:
		return bitsMay(x, t.args[0], d-1)
	case OBAnd:
		return bitsMay(x, t.args[0], d-1) & bitsMay(x, t.args[1], d-1)
	case OBOr, OBXor:
		return bitsMay(x, t.args[0], d-1) | bitsMay(x, t.args[1], d-1)
	case OLin:
		acc := t.c
		for i, a := range t.args {
			k := t.coef[i]
			if k&(k-1) != 0 {
				return mask(t.w)
			}
			m := (bitsMay(x, a, d-1) * k) & mask(t.w)
			if acc&m != 0 {
				return mask(t.w)
			}
			acc |= m
		}
		return acc
	}
	_, hi, ok := x.urange(t)
	if ok {
		r := uint64(1)
		for r-1 < hi && r != 0 {
			r <<= 1
		}
		return (r - 1) & mask(t.w)
	}
	return mask(t.w)
}

func (c *compiler) convert(in *ssa.Convert) icode {
	d, x := c.reg(in), c.op(in.X)
	st, dt := in.X.Type(), in.Type()
	si, di := tinf(st), tinf(dt)
	isBytes := func(t types.Type) (bool, bool) {
		s, ok := t.Underlying().(*types.Slice)
		if !ok {
			return false, false
		}
		b, ok := s.Elem().Underlying().(*types.Basic)
		if !ok {
			return false, false
		}
		return b.Kind() == types.Uint8, b.Kind() == types.Int32
	}
	switch {
	case si.k == kInt && di.k == kInt:
		return func(fr *frame) {
			v := fr.get(&x)
			if v.X == nil {
				fr.regs[d] = Value{N: norm(v.N, di)}
				return
			}
			t := v.X.(*Term)
			if di.w <= si.w {
				t = fr.w.x.Extract(t, 0, di.w)
			} else if si.signed {
				// sign extension of provably non-negative values is zero extension
				if _, h, ok := fr.w.x.urange(t); ok && h < 1<<(si.w-1) {
					t = fr.w.x.ZExt(t, di.w)
				} else {
					t = fr.w.x.SExt(t, di.w)
				}
			} else {
				t = fr.w.x.ZExt(t, di.w)
			}
			fr.regs[d] = fromTerm(t, di)
		}
	case si.k == kInt && di.k == kFloat:
		return func(fr *frame) {
			v := fr.get(&x)
			var r Value
			if v.X == nil {
				f := float64(v.N)
				if si.signed {
					f = float64(int64(v.N))
				}
				if di.f32 {
					f = float64(float32(f))
				}
				r = fv(f)
			} else {
				t := v.X.(*Term)
				sg := si.signed
				if _, h, ok := fr.w.x.urange(t); sg && ok && h < 1<<(si.w-1) {
					sg = false
				}
				t = fr.w.x.FFrom(t, sg)
				if di.f32 {
					t = fr.w.x.FUn(OF32, t)
				}
				r = fromTerm(t, di)
			}
			fr.regs[d] = r
		}
	case si.k == kFloat && di.k == kInt:
		return func(fr *frame) {
			v := fr.get(&x)
			if v.X == nil {
				f := math.Float64frombits(v.N)
				if di.signed {
					fr.regs[d] = Value{N: norm(uint64(int64(f)), di)}
				} else {
					fr.regs[d] = Value{N: norm(uint64(f), di)}
				}
				return
			}
			// Go's amd64 conversions go through 64-bit truncation
			t := fr.w.x.FTo(v.X.(*Term), 64, true)
			fr.regs[d] = fromTerm(fr.w.x.Extract(t, 0, di.w), di)
		}
	case si.k == kFloat && di.k == kFloat:
		return func(fr *frame) {
			v := fr.get(&x)
			if di.f32 && !si.f32 {
				if v.X == nil {
					v = fv(float64(float32(math.Float64frombits(v.N))))
				} else {
					v = fromTerm(fr.w.x.FUn(OF32, v.X.(*Term)), di)
				}
			}
			fr.regs[d] = v
		}
	case si.k == kString && di.k == kString:
		return func(fr *frame) { fr.regs[d] = fr.get(&x) }
	case si.k == kInt && di.k == kString:
		return func(fr *frame) {
			v := fr.get(&x)
			if v.X == nil {
				fr.regs[d] = sv(string(rune(int64(v.N))))
				return
			}
			t := v.X.(*Term)
			if si.w < 32 {
				t = fr.w.x.ZExt(t, 32)
			} else if si.w > 32 {
				t = fr.w.x.Extract(t, 0, 32)
			}
			fr.regs[d] = strV(fr.w.x.normRope([]Chunk{{k: CRune, t: t}}))
		}
	case si.k == kString:
		b, r := isBytes(dt)
		if b {
			return func(fr *frame) {
				v := fr.get(&x)
				s := asStr(v)
				fr.regs[d] = ropeSlice(s)
			}
		}
		if r {
			return func(fr *frame) { fr.regs[d] = fr.w.toRunes(fr.get(&x)) }
		}
	case di.k == kString:
		b, r := isBytes(st)
		if b {
			return func(fr *frame) {
				s, _ := fr.get(&x).X.(*Slice)
				fr.regs[d] = strV(fr.w.sliceRope(s))
			}
		}
		if r {
			return func(fr *frame) { fr.regs[d] = fr.w.fromRunes(fr.get(&x)) }
		}
	}
	if _, ok := dt.Underlying().(*types.Pointer); ok {
		return func(fr *frame) { fr.regs[d] = fr.get(&x) }
	}
	if b, ok := dt.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return func(fr *frame) { fr.regs[d] = fr.get(&x) }
	}
	return func(fr *frame) {
		if strings.Contains(fr.fi.name, "unsafe") {
			unsup("unsafe convert")
		}
		unsup("convert %s -> %s in %s", st, dt, fr.fi.name)
	}
}

func (w *Worker) toRunes(v Value) Value {
	it := w.mkIter(v, false).X.(*iter)
	var out []Value
	for {
		n := w.iterNext(it, true).X.([]Value)
		if n[0].N == 0 {
			break
		}
		out = append(out, n[2])
	}
	return Value{X: &Slice{a: &ArrV{v: out}, len: len(out), cap: len(out)}}
}

func (w *Worker) fromRunes(v Value) Value {
	s, _ := v.X.(*Slice)
	if s == nil {
		return sv("")
	}
	var ch []Chunk
	for _, r := range s.a.v[s.off : s.off+s.len] {
		if r.X == nil {
			ch = append(ch, Chunk{k: CLit, s: string(rune(int64(r.N)))})
		} else {
			ch = append(ch, Chunk{k: CRune, t: r.X.(*Term)})
		}
	}
	return strV(w.x.normRope(ch))
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// redirects: standard library entry points replaced by an equivalent written
// in the harness package (lib_img.go) without registration tables and locks.
var redirects = map[string]string{
	"image.DecodeConfig": "vImageDecodeConfig",
	"image.Decode":       "vImageDecode",
}
