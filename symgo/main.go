package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var (
	repoDir  = "/repo"
	verifDir = "/verif"
)

type harness struct {
	name  string
	fn    *ssa.Function
	attrs map[string]string
	doc   string
}

type loaded struct {
	eng      *Engine
	hs       []harness
	overlay  map[string]string // /repo path -> file
	dropped  []string
	loadTime time.Duration
}

// harness files used for a property: the libraries plus files whose name starts with one of the given ids
func harnessFiles(id string) (libs, own []string) {
	es, _ := os.ReadDir(filepath.Join(verifDir, "harness"))
	for _, e := range es {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") {
			continue
		}
		p := filepath.Join(verifDir, "harness", n)
		if strings.HasPrefix(n, "lib_") {
			libs = append(libs, p)
		} else if id == "" || strings.HasPrefix(strings.ToUpper(n), id) {
			own = append(own, p)
		}
	}
	return
}

func writeTokFile(dir string) string {
	b, err := os.ReadFile(filepath.Join(verifDir, "symgo", "pdftok.go"))
	if err != nil {
		fatal("pdftok: %v", err)
	}
	b = bytes.Replace(b, []byte("package main"), []byte("package gopdf"), 1)
	p := filepath.Join(dir, "pdftok.go")
	os.WriteFile(p, b, 0o644)
	return p
}

func fatal(f string, a ...any) {
	fmt.Printf("INCONCLUSIVE "+f+"\n", a...)
	os.Exit(exitInconclusive)
}

var exitInconclusive = 0

func load(id, scratch string) *loaded {
	t0 := time.Now()
	libs, own := harnessFiles(id)
	tok := writeTokFile(scratch)
	drop := map[string]bool{}
	var dropped []string
	for try := 0; try < 12; try++ {
		ov := map[string]string{}
		add := func(p string) {
			if !drop[p] {
				ov[filepath.Join(repoDir, "zz_verif_"+filepath.Base(p))] = p
			}
		}
		for _, p := range libs {
			add(p)
		}
		for _, p := range own {
			add(p)
		}
		add(tok)
		m := map[string][]byte{}
		for k, p := range ov {
			b, err := os.ReadFile(p)
			if err != nil {
				fatal("%v", err)
			}
			m[k] = b
		}
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir, Overlay: m, Env: os.Environ(), Fset: token.NewFileSet()}
		pkgs, err := packages.Load(cfg, ".")
		if err != nil || len(pkgs) == 0 {
			fatal("load: %v", err)
		}
		bad := map[string]bool{}
		other := ""
		for _, p := range pkgs {
			for _, e := range p.Errors {
				f := e.Pos
				if i := strings.Index(f, ".go:"); i >= 0 {
					f = f[:i+3]
				}
				if src, ok := ov[f]; ok {
					bad[src] = true
					dropped = append(dropped, filepath.Base(src)+": "+e.Msg)
				} else {
					other = e.Error()
				}
			}
		}
		if len(bad) > 0 {
			for f := range bad {
				drop[f] = true
			}
			continue
		}
		if other != "" {
			fatal("repository does not typecheck: %s", other)
		}
		prog, spk := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
		prog.Build()
		eng := &Engine{prog: prog, gidx: map[*ssa.Global]int{}, mainP: map[*ssa.Package]bool{}, models: buildModels()}
		main := spk[0]
		for _, p := range prog.AllPackages() {
			if strings.HasPrefix(p.Pkg.Path(), "github.com/signintech/gopdf") {
				eng.mainP[p] = true
				if p != main {
					eng.inits = append(eng.inits, p.Func("init"))
				}
			}
		}
		eng.inits = append(eng.inits, main.Func("init"))
		l := &loaded{eng: eng, overlay: ov, dropped: dropped}
		for _, f := range pkgs[0].Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil || !strings.HasPrefix(fd.Name.Name, "H_") {
					continue
				}
				h := harness{name: fd.Name.Name, fn: main.Func(fd.Name.Name), attrs: map[string]string{}}
				if fd.Doc != nil {
					for _, c := range fd.Doc.List {
						if a, ok := strings.CutPrefix(strings.Replace(c.Text, "// symgo ", "//symgo ", 1), "//symgo "); ok {
							for _, kv := range strings.Fields(a) {
								k, v, _ := strings.Cut(kv, "=")
								h.attrs[k] = v
							}
						} else {
							h.doc += strings.TrimSpace(strings.TrimPrefix(c.Text, "//")) + " "
						}
					}
				}
				h.doc = strings.TrimSpace(h.doc)
				l.hs = append(l.hs, h)
			}
		}
		sort.Slice(l.hs, func(i, j int) bool { return l.hs[i].name < l.hs[j].name })
		l.loadTime = time.Since(t0)
		return l
	}
	fatal("harness files do not typecheck: %v", dropped)
	return nil
}

// ---- native replay

type natJob struct {
	H    string  `json:"h"`
	In   []InVal `json:"in"`
	Tier int     `json:"tier"`
}
type natRes struct {
	I      int      `json:"i"`
	Status string   `json:"status"` // ok panic fail assume diverged timeout crash
	Msgs   []string `json:"msgs"`
	Obs    []string `json:"obs"`
	Labels []string `json:"labels"`
}

type runner struct {
	bin  string
	err  error
	done chan bool
}

func goEnv() []string { return os.Environ() }

func buildRunner(l *loaded, scratch string) *runner {
	r := &runner{done: make(chan bool), bin: filepath.Join(scratch, "runner")}
	go func() {
		defer close(r.done)
		ov := map[string]string{}
		for k, v := range l.overlay {
			ov[k] = v
		}
		var sb strings.Builder
		sb.WriteString("package gopdf\nfunc init() {\n")
		for _, h := range l.hs {
			fmt.Fprintf(&sb, "vHarnesses[%q] = %s\n", h.name, h.name)
		}
		sb.WriteString("}\n")
		reg := filepath.Join(scratch, "reg.go")
		os.WriteFile(reg, []byte(sb.String()), 0o644)
		ov[filepath.Join(repoDir, "zz_verif_reg.go")] = reg
		mainf := filepath.Join(scratch, "runner_main.go")
		os.WriteFile(mainf, []byte("package main\nimport \"github.com/signintech/gopdf\"\nfunc main() { gopdf.VerifRunnerMain() }\n"), 0o644)
		ov[filepath.Join(repoDir, "zz_verif_runner", "main.go")] = mainf
		oj := filepath.Join(scratch, "overlay.json")
		b, _ := json.Marshal(map[string]any{"Replace": ov})
		os.WriteFile(oj, b, 0o644)
		c := exec.Command("go", "build", "-overlay", oj, "-o", r.bin, "./zz_verif_runner")
		c.Dir = repoDir
		c.Env = goEnv()
		out, err := c.CombinedOutput()
		if err != nil {
			r.err = fmt.Errorf("runner build: %v: %s", err, out)
		}
	}()
	return r
}

func (r *runner) run(jobs []natJob, scratch string, tmo time.Duration) []natRes {
	<-r.done
	res := make([]natRes, len(jobs))
	for i := range res {
		res[i] = natRes{I: i, Status: "crash"}
	}
	if r.err != nil {
		for i := range res {
			res[i].Status = "norunner"
		}
		return res
	}
	f, _ := os.CreateTemp(scratch, "jobs*.json")
	json.NewEncoder(f).Encode(jobs)
	f.Close()
	c := exec.Command(r.bin, f.Name())
	c.Dir = scratch
	var out, errb bytes.Buffer
	c.Stdout = &out
	c.Stderr = &errb
	if err := c.Start(); err != nil {
		return res
	}
	timedOut := false
	tm := time.AfterFunc(tmo, func() { timedOut = true; c.Process.Kill() })
	c.Wait()
	tm.Stop()
	last := -1
	for _, ln := range strings.Split(out.String(), "\n") {
		ln, ok := strings.CutPrefix(ln, "@@R ")
		if !ok {
			continue
		}
		var nr natRes
		if json.Unmarshal([]byte(ln), &nr) == nil && nr.I < len(res) {
			res[nr.I] = nr
			last = nr.I
		}
	}
	if last+1 < len(res) {
		res[last+1].Msgs = []string{strings.TrimSpace(firstN(errb.String(), 600))}
		if timedOut {
			res[last+1].Status = "timeout"
		}
	}
	return res
}
func firstN(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// ---- known findings

type known struct {
	prop string
	re   *regexp.Regexp
	text string
}

func loadKnown(prop string) []known {
	b, _ := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	var r []known
	for _, ln := range strings.Split(string(b), "\n") {
		// known: property=C05 match=/regex/ text
		a, ok := strings.CutPrefix(strings.TrimSpace(ln), "known: property=")
		if !ok {
			continue
		}
		id, rest, _ := strings.Cut(a, " ")
		if id != prop || !strings.HasPrefix(rest, "match=/") {
			continue
		}
		pat, text, ok := strings.Cut(rest[len("match=/"):], "/ ")
		if !ok {
			continue
		}
		re, err := regexp.Compile(pat)
		if err != nil {
			continue
		}
		r = append(r, known{id, re, text})
	}
	return r
}

func envInt(n string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(n)); err == nil {
		return v
	}
	return d
}

func (h *harness) dur(k string, d time.Duration) time.Duration {
	if v, ok := h.attrs[k]; ok {
		if x, err := time.ParseDuration(v); err == nil {
			return x
		}
	}
	return d
}
func (h *harness) num(k string, d int64) int64 {
	if v, ok := h.attrs[k]; ok {
		if x, err := strconv.ParseInt(v, 10, 64); err == nil {
			return x
		}
	}
	return d
}

func decodeIn(in []InVal) []string {
	var r []string
	for _, v := range in {
		u, _ := strconv.ParseUint(v.V, 16, 64)
		s := ""
		switch v.K {
		case "float":
			s = fmt.Sprintf("%s=%v", v.N, floatBits(u))
		case "rune":
			s = fmt.Sprintf("%s=U+%04X", v.N, u)
		case "bool":
			s = fmt.Sprintf("%s=%v", v.N, u != 0)
		default:
			s = fmt.Sprintf("%s=%d", v.N, int64(u))
		}
		r = append(r, s)
	}
	return r
}

func main() {
	debug.SetGCPercent(800)
	mem := int64(14)
	if n, err := strconv.ParseInt(os.Getenv("SYMGO_MEM"), 10, 64); err == nil && n > 0 {
		mem = n
	}
	debug.SetMemoryLimit(mem << 30)
	prop := flag.String("prop", "", "property id")
	one := flag.String("run", "", "run only harnesses matching this regexp")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	verbose := flag.Bool("v", false, "verbose")
	dbgSMT := flag.String("smt", "", "dump solver input to file")
	workers := flag.Int("j", runtime.NumCPU(), "workers")
	tscale := flag.Float64("t", 1, "time scale")
	noev := flag.Bool("noev", false, "do not write evidence")
	flag.StringVar(&repoDir, "repo", "/repo", "repository")
	flag.StringVar(&verifDir, "verif", "/verif", "verification directory")
	prof := flag.String("prof", "", "cpu profile")
	replayF := flag.String("replay", "", "replay a counterexample file on the compiled code")
	flag.Parse()
	if *prof != "" {
		startProf(*prof)
		defer stopProf()
	}
	if *tier == "" {
		*tier = "quick"
	}
	tn := 0
	if *tier == "thorough" {
		tn = 1
	}
	seed := envInt("VERIF_SEED", 1)
	if *dbgSMT != "" {
		f, _ := os.Create(*dbgSMT)
		debugSMT = func(s string) { f.WriteString(s) }
	}
	start := time.Now()
	scratch, err := os.MkdirTemp("", "symgo")
	if err != nil {
		fatal("%v", err)
	}
	rc := 0
	defer func() {
		os.RemoveAll(scratch)
		if *prof != "" {
			stopProf()
		}
		os.Exit(rc)
	}()
	if *replayF != "" {
		var c struct {
			Property, Harness string
			Raw               []InVal
			Tier              int
		}
		b, err := os.ReadFile(*replayF)
		if err == nil {
			err = json.Unmarshal(b, &c)
		}
		if err != nil {
			fmt.Println(err)
			rc = 2
			return
		}
		l := load(c.Property, scratch)
		nr := buildRunner(l, scratch).run([]natJob{{c.Harness, c.Raw, c.Tier}}, scratch, 60*time.Second)[0]
		fmt.Println(c.Harness, strings.Join(decodeIn(c.Raw), " "))
		fmt.Println(nr.Status, nr.Msgs)
		for _, o := range nr.Obs {
			if k, v, ok := strings.Cut(o, "="); ok {
				if b, err := hex.DecodeString(v); err == nil && *verbose {
					o = k + "=" + string(b)
				}
			}
			if *verbose {
				fmt.Println("  " + o)
			}
		}
		if nr.Status != "ok" && nr.Status != "assume" {
			rc = 1
		}
		return
	}
	l := load(*prop, scratch)
	rn := buildRunner(l, scratch)
	knownL := loadKnown(*prop)
	var sel []harness
	re := regexp.MustCompile(*one)
	for _, h := range l.hs {
		if *one != "" && !re.MatchString(h.name) {
			continue
		}
		if *prop != "" && !strings.HasPrefix(h.name, "H_"+*prop+"_") {
			continue
		}
		if tn == 0 && h.attrs["tier"] == "thorough" {
			continue
		}
		sel = append(sel, h)
	}
	if *verbose {
		fmt.Fprintf(os.Stderr, "loaded in %v, %d harnesses, dropped %v\n", l.loadTime, len(sel), l.dropped)
	}
	// wall budget so that a check never runs into its 900 s limit
	budget := 240 * time.Second
	if tn == 1 {
		budget = 760 * time.Second
	}
	if *tscale > 0 {
		budget = time.Duration(float64(budget) * *tscale)
	}
	var want time.Duration
	for i := range sel {
		want += hTime(&sel[i], tn)
	}
	scale := *tscale
	if want > budget {
		scale *= float64(budget) / float64(want)
	}
	type hout struct {
		h  harness
		r  *HRun
		nt []string
	}
	var outs []hout
	viol := 0
	confirmedTotal, witOK, witBad := 0, 0, 0
	knownPrinted := map[string]bool{}
	var violNotes []string
	report := func(h *harness, c Cand, nr natRes) {
		viol++
		b, _ := json.MarshalIndent(map[string]any{"property": *prop, "harness": h.name, "doc": h.doc, "symbolic_failure": c.Kind + ": " + c.Msg, "native_status": nr.Status, "native_messages": nr.Msgs, "inputs": decodeIn(c.Inputs), "raw": c.Inputs, "tier": tn, "how": "bash /verif/replay.sh <this file>"}, "", " ")
		sum := sha256.Sum256(b)
		pid := *prop
		if pid == "" {
			pid = "dbg"
		}
		os.MkdirAll(filepath.Join(verifDir, "evidence", "replay"), 0o755)
		rp := filepath.Join(verifDir, "evidence", "replay", pid+"-"+h.name+"-"+hex.EncodeToString(sum[:4])+".json")
		os.WriteFile(rp, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", pid, rp)
		d := fmt.Sprintf("  %s: %s: %s; native: %s %v; inputs %s", h.name, c.Kind, c.Msg, nr.Status, nr.Msgs, firstN(strings.Join(decodeIn(c.Inputs), " "), 1500))
		fmt.Println(d)
		violNotes = append(violNotes, d)
	}
	for _, h := range sel {
		if viol > 0 && os.Getenv("SYMGO_FIRST") != "" {
			break // screening of planted changes: one violation is enough
		}
		opt := Options{Workers: *workers, Verbose: *verbose, SolverMS: int(h.num("solver", 6000)), MaxPaths: h.num("paths", 200000), Steps: h.num("steps", 3000000), UseFP: h.attrs["fp"] == "1", Seed: int64(seed), Tier: tn, BFS: h.attrs["order"] == "bfs"}
		if tn == 1 {
			opt.SolverMS *= 3
		}
		opt.Timeout = time.Duration(float64(hTime(&h, tn)) * scale)
		r := l.eng.Explore(h.fn, h.name, opt)
		o := hout{h: h, r: r}
		// replay candidates natively
		hv := 0
		for _, c := range r.cands {
			if hv >= 3 {
				break
			}
			tmo := 60 * time.Second
			reps := 1
			if h.attrs["reps"] != "" {
				reps = int(h.num("reps", 1))
			}
			if c.Kind == "steps" {
				tmo = 20 * time.Second
			}
			conf := false
			var nr natRes
			for k := 0; k < reps && !conf; k++ {
				nr = rn.run([]natJob{{h.name, c.Inputs, tn}}, scratch, tmo)[0]
				switch c.Kind {
				case "panic", "assert", "unsupported":
					conf = nr.Status == "panic" || nr.Status == "fail" || nr.Status == "timeout" && h.attrs["hang"] == "1" || nr.Status == "crash"
				case "steps":
					conf = nr.Status == "timeout" || nr.Status == "crash" || nr.Status == "fail" || nr.Status == "panic"
				}
			}
			if !conf {
				if c.Kind == "unsupported" {
					continue
				}
				o.nt = append(o.nt, fmt.Sprintf("candidate not reproduced natively (%s): %s %s", nr.Status, c.Kind, c.Msg))
				continue
			}
			confirmedTotal++
			ident := h.name + "|" + c.Kind + "|" + trimAt(c.Msg) + "|" + strings.Join(nr.Msgs, ";")
			isK := false
			for _, k := range knownL {
				if k.re.MatchString(ident) {
					isK = true
					if !knownPrinted[k.text] {
						knownPrinted[k.text] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k.text)
					}
				}
			}
			if isK {
				continue
			}
			report(&h, c, nr)
			hv++
		}
		// replay witnesses
		if len(r.wit) > 0 {
			var jobs []natJob
			for _, c := range r.wit {
				jobs = append(jobs, natJob{h.name, c.Inputs, tn})
			}
			for k, nr := range rn.run(jobs, scratch, 120*time.Second) {
				c := r.wit[k]
				if (nr.Status == "fail" || nr.Status == "panic") && rn.err == nil && len(nr.Msgs) > 0 && !knownMatch(knownL, h.name, nr.Msgs) && h.attrs["nofloat"] == "" {
					// the solver discharged every assertion on this path but the real run disagrees
					o.nt = append(o.nt, fmt.Sprintf("WITNESS-DISAGREES %v inputs %v", nr.Msgs, firstN(strings.Join(decodeIn(c.Inputs), " "), 300)))
					witBad++
					if hv < 3 {
						hv++
						c.Kind, c.Msg = "witness", "the real code fails on a witness input the model passes"
						report(&h, c, nr)
					}
					continue
				}
				if nr.Status == "ok" && strings.Join(nr.Obs, "\n") == strings.Join(c.Obs, "\n") {
					witOK++
				} else {
					witBad++
					d := ""
					for i := range c.Obs {
						if i >= len(nr.Obs) || nr.Obs[i] != c.Obs[i] {
							d = "sym " + firstN(c.Obs[i], 200)
							if i < len(nr.Obs) {
								d += " native " + firstN(nr.Obs[i], 200)
							}
							break
						}
					}
					o.nt = append(o.nt, fmt.Sprintf("witness mismatch: native %s %v %s inputs %s", nr.Status, nr.Msgs, d, firstN(strings.Join(decodeIn(c.Inputs), " "), 300)))
				}
			}
		}
		outs = append(outs, o)
		if *verbose || *prop == "" {
			printRun(o.h.name, r, o.nt)
		}
	}
	<-rn.done
	if rn.err != nil {
		fmt.Println("NOTE", rn.err)
	}
	if *prop == "" || *noev {
		if viol > 0 {
			rc = 1
		}
		return
	}
	// evidence
	var paths, decs, asserts, syn, solved, unk, steps int64
	var st Stats
	fns := map[string]bool{}
	var samples, bounds, notes []any
	allDone := len(sel) > 0
	reachTotal := 0
	for _, o := range outs {
		r := o.r
		paths += r.paths
		decs += r.decs
		asserts += r.asserts
		syn += r.synOK
		solved += r.solved
		unk += r.unkA
		steps += r.steps
		st.Queries += r.stats.Queries
		st.SatN += r.stats.SatN
		st.UnsatN += r.stats.UnsatN
		st.UnkN += r.stats.UnkN
		st.Cached += r.stats.Cached
		st.SolverNS += r.stats.SolverNS
		for f := range r.fns {
			fns[f] = true
		}
		complete := !r.stopped && r.leftover == 0
		for k := range r.kinds {
			if !strings.HasPrefix(k, "path_") {
				complete = false
			}
		}
		if !complete {
			allDone = false
		}
		var rl []string
		for k, v := range r.reach {
			rl = append(rl, fmt.Sprintf("%s:%d", k, v))
		}
		sort.Strings(rl)
		reachTotal += len(rl)
		bounds = append(bounds, map[string]any{"harness": r.name, "what": o.h.doc, "paths": r.paths, "complete_within_bounds": complete, "unexplored_branches": r.leftover, "path_outcomes": r.kinds, "reached": rl, "assertions": r.asserts, "wall_s": round1(r.wall.Seconds()), "step_limit": r.opt.Steps})
		for m, n := range r.msgs {
			notes = append(notes, fmt.Sprintf("%s: %dx %s", r.name, n, firstN(m, 300)))
		}
		for _, n := range o.nt {
			notes = append(notes, r.name+": "+firstN(n, 400))
		}
		for k, c := range r.wit {
			if k >= 2 {
				break
			}
			var ob []string
			for _, s := range c.Obs {
				ob = append(ob, firstN(s, 160))
			}
			in := decodeIn(c.Inputs)
			if len(in) > 40 {
				in = append(in[:40], "...")
			}
			samples = append(samples, map[string]any{"harness": c.Harness, "inputs": in, "reached": c.Labels, "observed": ob})
		}
	}
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	if samples == nil {
		samples = []any{"none"}
	}
	cov := map[string]any{
		"states": paths, "transitions": decs, "traces_validated_against_impl": witOK,
		"samples": samples, "exhaustive": allDone,
		"assertions_checked": asserts, "assertions_discharged_by_simplification": syn, "assertions_discharged_by_solver": solved, "assertions_undecided": unk,
		"solver":            map[string]any{"name": "z3-new (z3 5.3.2) over pipes", "queries": st.Queries, "sat": st.SatN, "unsat": st.UnsatN, "unknown": st.UnkN, "cache_hits": st.Cached, "solver_s": round1(float64(st.SolverNS) / 1e9)},
		"functions_encoded": fl, "functions_encoded_count": len(fl), "instructions_executed_symbolically": steps,
		"harnesses": bounds, "notes": notes, "witnesses_not_matching_native": witBad, "counterexamples_confirmed_natively": confirmedTotal,
		"load_s": round1(l.loadTime.Seconds()), "dropped_harness_files": l.dropped,
		"explanation": "states = symbolic paths explored, transitions = branch/choice decisions on them; each path's assertions are decided for all inputs on that path by the solver; traces_validated = path witnesses whose native run of the same code gave identical observations",
	}
	ev := map[string]any{"property": *prop, "tier": *tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": []string{
			"bounds are those stated per harness (DESIGN.md section 'bounds'); anything beyond them is not covered",
			"float64 arithmetic is decided over the reals (candidates and witnesses are re-evaluated with exact IEEE doubles); rounding below the tolerances used in the assertions is outside the claim",
			"compress/zlib, crypto/md5 and crypto/rc4 are uninterpreted functions with their inverse/determinism laws; fmt/strconv number formatting is modelled by formatted-number terms",
			"the symbolic interpreter and its models of the standard library are trusted, validated by replaying witnesses on the compiled code",
		},
		"wall_s": round1(time.Since(start).Seconds()), "violations": viol}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verifDir, "evidence", *prop+".json"), b, 0o644)
	fmt.Printf("%s %s: %d harnesses, %d paths, %d assertions (%d by solver), %d queries, %.1fs solver, %d witnesses replayed, complete=%v, violations=%d, %.0fs\n", *prop, *tier, len(outs), paths, asserts, solved, st.Queries, float64(st.SolverNS)/1e9, witOK, allDone, viol, time.Since(start).Seconds())
	for i, n := range notes {
		if i < 12 {
			fmt.Println("NOTE", n)
		}
	}
	if viol > 0 {
		rc = 1
	}
}

func knownMatch(ks []known, h string, msgs []string) bool {
	for _, k := range ks {
		for _, m := range msgs {
			if k.re.MatchString(h + "|assert|" + m) {
				return true
			}
		}
	}
	return false
}

func round1(f float64) float64 { return float64(int(f*10+0.5)) / 10 }

func hTime(h *harness, tier int) time.Duration {
	q := h.dur("time", 25*time.Second)
	if tier == 1 {
		return h.dur("ttime", q*5)
	}
	return q
}

func printRun(n string, r *HRun, nt []string) {
	fmt.Printf("== %s: paths %d (left %d, stopped %v) %.1fs decisions %d asserts %d syn %d solver %d unk %d; queries %d sat %d unsat %d unk %d cached %d int %d %.1fs; steps %d\n", n, r.paths, r.leftover, r.stopped, r.wall.Seconds(), r.decs, r.asserts, r.synOK, r.solved, r.unkA, r.stats.Queries, r.stats.SatN, r.stats.UnsatN, r.stats.UnkN, r.stats.Cached, r.stats.IntQ, float64(r.stats.SolverNS)/1e9, r.steps)
	fmt.Println("   outcomes", r.kinds, "reach", r.reach)
	var ms []string
	for m, k := range r.msgs {
		ms = append(ms, fmt.Sprintf("   %dx %s", k, m))
	}
	sort.Strings(ms)
	for i, m := range ms {
		if i < 12 {
			fmt.Println(m)
		}
	}
	for m := range r.inits {
		fmt.Println("   init:", m)
	}
	for i, c := range r.cands {
		if i < 10 {
			fmt.Println("   cand", c.Kind, c.Msg, "approx", c.Approx, firstN(strings.Join(decodeIn(c.Inputs), " "), 400))
		}
	}
	for i, s := range nt {
		if i < 10 {
			fmt.Println("   note", firstN(s, 700))
		}
	}
}
