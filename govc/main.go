package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/carlakc/boltnd"

var (
	repoDir     = flag.String("repo", "/repo", "")
	verifDir    = flag.String("verif", "/verif", "")
	propFlag    = flag.String("prop", "", "")
	tier        = flag.String("tier", "quick", "")
	only        = flag.String("only", "", "regexp of contracts")
	verbose     = flag.Bool("v", false, "")
	noDriver    = flag.Bool("nodriver", false, "")
	noProof     = flag.Bool("noproof", false, "")
	dbgObl      = flag.Bool("dobl", false, "")
	dbgLoop     = flag.Bool("dloop", false, "")
	dump        = flag.String("dump", "", "dump SSA of functions matching")
	solverMs    = flag.Int("ms", 6000, "")
	sources     = flag.Bool("sources", false, "record the constants and hashes of the code")
	updateTable = flag.Bool("baseline", false, "record which contracts are proved")
)

// contract is a contract function found in /verif/contracts.
type contract struct {
	Name  string
	Pkg   string // relative package directory
	Props []string
	Funcs []string // functions under contract
	Gen   string
	Kind  string // contract, bounded (run only), deductive (proved only)
	Note  string
	Uses  []string
	Join  []string
	Src   []string // functions of which the source is executed
	N     int
	File  string
}

type contractSet struct {
	contracts []*contract
	specs     map[string]bool // pkgdir.func
	opaque    map[string]bool
	invs      []invDecl
	sums      []invDecl // functions standing for others at call sites
	overlay   map[string][]byte
	files     map[string]string // repo path -> verif path
	merges    map[string]bool
}

type invDecl struct{ pkg, fn, target string }

func readContracts() (*contractSet, error) {
	cs := &contractSet{specs: map[string]bool{}, opaque: map[string]bool{}, overlay: map[string][]byte{}, files: map[string]string{}, merges: map[string]bool{}}
	root := filepath.Join(*verifDir, "contracts")
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		dir, base := filepath.Split(rel)
		dir = strings.TrimSuffix(dir, "/")
		if dir == "root" {
			dir = "."
		}
		target := filepath.Join(*repoDir, dir, "zz_verif_"+base)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		cs.overlay[target] = b
		cs.files[target] = p
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, b, parser.ParseComments)
		if err != nil {
			return err
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Doc == nil {
				continue
			}
			var c *contract
			for _, l := range fd.Doc.List {
				t := strings.TrimSpace(l.Text)
				if !strings.HasPrefix(t, "//@") {
					continue
				}
				fs := strings.Fields(strings.TrimSpace(t[3:]))
				if len(fs) == 0 {
					continue
				}
				switch fs[0] {
				case "contract", "bounded", "deductive":
					c = &contract{Name: fd.Name.Name, Pkg: dir, Kind: fs[0], File: base}
					for _, w := range fs[1:] {
						if regexp.MustCompile(`^C\d\d$`).MatchString(w) {
							c.Props = append(c.Props, w)
						} else if strings.HasPrefix(w, "n=") {
							c.N, _ = strconv.Atoi(w[2:])
						} else {
							c.Funcs = append(c.Funcs, w)
						}
					}
				case "note":
					if c != nil {
						c.Note = strings.Join(fs[1:], " ")
					}
				case "uses":
					if c != nil {
						c.Uses = append(c.Uses, fs[1:]...)
					}
				case "join":
					if c != nil {
						c.Join = append(c.Join, fs[1:]...)
					}
				case "source":
					if c != nil {
						c.Src = append(c.Src, fs[1:]...)
					}
				case "summary":
					cs.sums = append(cs.sums, invDecl{dir, fd.Name.Name, strings.Join(fs[1:], " ")})
				case "spec":
					cs.specs[dir+"."+fd.Name.Name] = true
				case "opaque":
					cs.specs[dir+"."+fd.Name.Name] = true
					cs.opaque[dir+"."+fd.Name.Name] = true
				case "invariant":
					tg := ""
					if len(fs) > 1 {
						tg = fs[1]
					}
					cs.invs = append(cs.invs, invDecl{dir, fd.Name.Name, tg})
				}
			}
			if c != nil {
				cs.contracts = append(cs.contracts, c)
			}
		}
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && strings.HasPrefix(fd.Name.Name, "gen_") {
				for _, c := range cs.contracts {
					if c.Pkg == dir && "gen_"+c.Name == fd.Name.Name {
						c.Gen = fd.Name.Name
					}
				}
			}
		}
		return nil
	})
	return cs, err
}

var origPath = os.Getenv("PATH")

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOROOT", "GOTOOLCHAIN", "GOFLAGS", "GOPROXY", "GOSUMDB", "PATH":
			continue
		}
		env = append(env, e)
	}
	return append(env, "PATH=/opt/veriftools/go1.23.12/bin:"+origPath, "GOROOT=/opt/veriftools/go1.23.12",
		"GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off")
}

type Session struct {
	cs   *contractSet
	prog *ssa.Program
	pkgs map[string]*ssa.Package // by relative dir
}

func load(cs *contractSet, dirs []string) (*Session, error) {
	need := map[string]bool{"verifvc": true}
	for _, d := range dirs {
		need[d] = true
	}
	// The repository's own packages that the needed ones import are loaded
	// from source too, with their contracts.
	cfg := &packages.Config{
		Mode: packages.LoadSyntax | packages.NeedModule, Dir: *repoDir, Env: goEnv(), Overlay: cs.overlay,
		BuildFlags: []string{"-tags=nolog"},
	}
	var pats []string
	for _, d := range []string{".", "lnwire", "offers", "onionmsg", "routes", "rpcserver", "offersrpc", "verifvc"} {
		if d == "." && !need["."] {
			continue
		}
		pats = append(pats, "./"+d)
	}
	pats = append(pats, "github.com/lightningnetwork/lnd/tlv", "github.com/lightningnetwork/lnd/lntypes", "bytes")
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range ps {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
		if p.IllTyped && len(p.Errors) == 0 {
			errs = append(errs, p.PkgPath+": a dependency does not type check")
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	prog, sp := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	s := &Session{cs: cs, prog: prog, pkgs: map[string]*ssa.Package{}}
	if os.Getenv("GOVC_PKGS") != "" {
		for i, p := range ps {
			fmt.Println(p.PkgPath, sp[i] == nil, len(p.Syntax), p.IllTyped)
		}
	}
	for i, p := range ps {
		if sp[i] == nil {
			continue
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(p.PkgPath, modPath), "/")
		if rel == "" {
			rel = "."
		}
		s.pkgs[rel] = sp[i]
	}
	return s, nil
}

func (s *Session) newX() *X {
	m := NewTM()
	ufOnce.Do(func() { initUFs(m) })
	x := &X{m: m, prog: s.prog, defs: map[string]*Def{}, sortMemo: map[string]*Sort{}, viewMemo: map[string]*Sort{},
		optElem: map[string]*Sort{}, fps: map[string]fpInfo{}, arrTypes: map[string]types.Type{}, ifTypes: map[string]types.Type{},
		fnIDs: map[string]*ssa.Function{}, natives: basicNatives(), summaries: map[string]*ssa.Function{}, noSummary: map[string]bool{},
		specFns: map[*ssa.Function]bool{}, opaqueFns: map[*ssa.Function]bool{}, invs: map[string][]*ssa.Function{}, poolInvs: map[string][]*ssa.Function{},
		contract: map[*ssa.Function]bool{}, globals: map[*ssa.Global]*T{}, initPkg: map[*ssa.Package]bool{}, extErr: map[string]bool{}, mergeFns: map[*ssa.Function]bool{},
		loopInfo: map[*ssa.Function]map[*ssa.BasicBlock]*loop{}, inlined: map[string]bool{}, modular: map[string]bool{},
		trusted: map[string]bool{}, assumed: map[string]bool{}, reach: map[string][]*Facts{}, frozen: map[*T]bool{},
		maybeNil: map[*T]*T{}, siteName: map[*T]string{}, siteIDs: map[siteKey]int{}, canonOf: map[string]string{}, maybeNilF: map[string]nilFam{}, keySort: map[string]*Sort{}, keyType: map[string]types.Type{}, loopSeen: map[string]bool{},
		joins: map[*ssa.BasicBlock]*ssa.BasicBlock{}, specMemo: map[string]*T{}, iters: map[*T]iterInfo{}, maxSteps: 3000000}
	for k, v := range vcNatives() {
		x.natives[k] = v
	}
	for _, f := range extraNatives {
		for k, v := range f() {
			x.natives[k] = v
		}
	}
	for rel, p := range s.pkgs {
		for _, mem := range p.Members {
			f, ok := mem.(*ssa.Function)
			if !ok {
				continue
			}
			file := s.prog.Fset.Position(f.Pos()).Filename
			if strings.HasPrefix(filepath.Base(file), "zz_verif_") {
				x.contract[f] = true
			}
			if s.cs.specs[rel+"."+f.Name()] {
				x.specFns[f] = true
				x.opaqueFns[f] = s.cs.opaque[rel+"."+f.Name()]
			}
		}
		for _, d := range s.cs.invs {
			if d.pkg != rel {
				continue
			}
			if f := p.Func(d.fn); f != nil {
				x.poolInvs[p.Pkg.Path()] = append(x.poolInvs[p.Pkg.Path()], f)
			}
		}
	}
	for _, l := range extraLemmas {
		x.lemmas = append(x.lemmas, l(x))
	}
	return x
}

var ufOnce sync.Once

var extraNatives []func() map[string]native
var extraLemmas []func(x *X) func(m *TM, t *T) []*T

// runInit executes the initialisation of the repository's packages to learn
// their globals; what it cannot execute leaves the global arbitrary.
func (x *X) runInit(s *Session) {
	st := &State{f: newFacts(x.m), heap: map[string]*T{}, used: map[*T]bool{}}
	x.quiet++
	x.inInit = true
	var rels []string
	for r := range s.pkgs {
		rels = append(rels, r)
	}
	sort.Strings(rels)
	for _, r := range rels {
		if r == "bytes" || r == "verifvc" {
			continue
		}
		p := s.pkgs[r]
		fn := p.Func("init")
		if fn == nil || len(fn.Blocks) < 2 {
			continue
		}
		x.initPkg[p] = true
		var names []string
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if g, ok := p.Members[n].(*ssa.Global); ok && (r != "offersrpc" || n == "Offers_ServiceDesc") {
				et := g.Type().Underlying().(*types.Pointer).Elem()
				func() {
					defer func() { recover() }()
					x.store(st, x.globalRef(g), et, x.zero(et))
				}()
			}
		}
		skip := map[ssa.Instruction]bool{}
		ignore := map[ssa.Instruction]bool{}
		if r == "offersrpc" {
			// Generated code: only the service description matters.
			ignore = irrelevantInit(fn, "Offers_ServiceDesc")
		}
		for try := 0; try < 200; try++ {
			s2 := st.clone()
			fr := &Frame{fn: fn, env: map[ssa.Value]*T{}, cuts: map[*ssa.BasicBlock]*cut{}, unroll: map[*ssa.BasicBlock]int{}}
			var bad ssa.Instruction
			var why interface{}
			func() {
				var cur ssa.Instruction
				defer func() {
					if e := recover(); e != nil {
						if _, ok := e.(unsup); !ok {
							if os.Getenv("GOVC_DEBUG") != "" {
								fmt.Fprintln(os.Stderr, "init:", e)
							}
						}
						bad, why = cur, e
					}
				}()
				for _, b := range fn.Blocks[1:] {
					for _, ins := range b.Instrs {
						cur = ins
						if ignore[ins] {
							continue
						}
						if v, ok := ins.(ssa.Value); ok && skip[ins] {
							fr.env[v] = x.freshSym(st, "init", x.sort(v.Type()))
							continue
						}
						if skip[ins] {
							if sto, ok := ins.(*ssa.Store); ok {
								// What could not be stored leaves the variable arbitrary.
								a := sto.Addr
								for {
									if f, ok := a.(*ssa.FieldAddr); ok {
										a = f.X
									} else if f, ok := a.(*ssa.IndexAddr); ok {
										a = f.X
									} else {
										break
									}
								}
								if g, ok := a.(*ssa.Global); ok {
									et := g.Type().Underlying().(*types.Pointer).Elem()
									x.store(s2, x.globalRef(g), et, x.freshSym(st, "init", x.sort(et)))
								}
							}
							continue
						}
						switch i := ins.(type) {
						case *ssa.Jump, *ssa.Return, *ssa.If:
							continue
						case *ssa.Call:
							if f := i.Call.StaticCallee(); f != nil && f.Name() == "init" && f.Pkg != fn.Pkg {
								continue
							}
							x.call(fr, s2, &i.Call, i, func(s3 *State, rets []*T) {
								s2 = s3
								switch len(rets) {
								case 0:
								case 1:
									fr.env[i] = x.normVal(i.Type(), rets[0])
								default:
									fr.env[i] = x.m.Mk(x.sort(i.Type()), rets...)
								}
							})
							if i.Type() != nil {
								if _, ok := fr.env[i]; !ok && i.Call.Signature().Results().Len() > 0 {
									panic(unsup{"init call"})
								}
							}
						default:
							one := &ssa.BasicBlock{Instrs: []ssa.Instruction{ins}}
							x.instrs(fr, s2, one, 0)
						}
					}
				}
			}()
			if bad == nil {
				st = s2
				break
			}
			skip[bad] = true
			if os.Getenv("GOVC_INIT") != "" {
				fmt.Fprintln(os.Stderr, "init skips", r, bad, why)
			}
		}
	}
	x.inInit = false
	x.quiet--
	x.initFacts = st.f
	// What initialisation wrote is part of the initial heap from here on.
	x.initHeap = map[string]*T{}
	for k, a := range st.heap {
		tab := map[*T]*T{}
		ok := true
		var b *T
		for b = a; b.op == "store"; b = b.args[0] {
			if _, has := tab[b.args[1]]; !has {
				tab[b.args[1]] = b.args[2]
			}
			if !isObj(b.args[1]) && b.args[1].op != "glob" {
				ok = false
			}
		}
		if !ok || b.op != "sym" || b.str != "P0:"+k {
			x.initHeap[k] = a
			continue
		}
		x.m.initSel[x.m.Sym("H0:"+k, b.sort, 0)] = tab
	}
}

// irrelevantInit is what the initialiser fn does that has no part in the
// value of the named variable.
func irrelevantInit(fn *ssa.Function, name string) map[ssa.Instruction]bool {
	keep := map[ssa.Instruction]bool{}
	root := func(v ssa.Value) ssa.Value {
		for {
			switch a := v.(type) {
			case *ssa.FieldAddr:
				v = a.X
			case *ssa.IndexAddr:
				v = a.X
			default:
				return v
			}
		}
	}
	var need func(ins ssa.Instruction)
	stores := func(r ssa.Value) {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if s, ok := i.(*ssa.Store); ok && root(s.Addr) == r {
					need(s)
				}
			}
		}
	}
	need = func(ins ssa.Instruction) {
		if keep[ins] {
			return
		}
		keep[ins] = true
		for _, o := range ins.Operands(nil) {
			if i, ok := (*o).(ssa.Instruction); ok {
				need(i)
			}
		}
		if a, ok := ins.(*ssa.Alloc); ok {
			stores(a)
		}
	}
	if g, ok := fn.Pkg.Members[name].(*ssa.Global); ok {
		stores(g)
	}
	ign := map[ssa.Instruction]bool{}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if !keep[i] {
				ign[i] = true
			}
		}
	}
	return ign
}

type ContractResult struct {
	C       *contract
	Status  string // proved, failed, unsupported, vacuous
	Msg     string
	Obls    []*Obl
	Failed  []*Obl
	Paths   int
	Loops   int
	Inlined []string
	Modular []string
	Trusted []string
	Assumed []string
	LoopLog []string
	Secs    float64
	Driver  *DriverResult
}

func (s *Session) verify(c *contract) (res *ContractResult) {
	t0 := time.Now()
	res = &ContractResult{C: c}
	x := s.newX()
	x.cur = c.Name
	lim := 200 * time.Second
	if *tier == "thorough" {
		lim = 600 * time.Second
	}
	end := t0.Add(lim)
	x.deadline = t0.Add(lim / 2)
	defer func() {
		res.Secs = time.Since(t0).Seconds()
		res.Obls = x.obls
		res.Inlined, res.Modular, res.Trusted, res.Assumed = sortedKeys(x.inlined), sortedKeys(x.modular), sortedKeys(x.trusted), sortedKeys(x.assumed)
		res.LoopLog = x.loopLog
		res.Paths = x.paths
		res.Loops = x.nLoops
		if e := recover(); e != nil {
			if u, ok := e.(unsup); ok {
				res.Status, res.Msg = "unsupported", u.msg
				return
			}
			res.Status, res.Msg = "unsupported", fmt.Sprintf("internal error: %v", e)
			if os.Getenv("GOVC_DEBUG") != "" {
				panic(e)
			}
		}
	}()
	p := s.pkgs[c.Pkg]
	for n := range x.natives {
		for _, f := range c.Src {
			if n == f || strings.HasSuffix(n, "/"+f) || strings.HasSuffix(n, "."+f) {
				delete(x.natives, n)
			}
		}
	}
	for _, d := range s.cs.sums {
		use := false
		x.joinNames = map[string]bool{}
		for _, j := range c.Join {
			x.joinNames[j] = true
		}
		for _, u := range c.Uses {
			use = use || u == d.fn
		}
		if sf := s.pkgs[d.pkg]; use && sf != nil && sf.Func(d.fn) != nil {
			x.summaries[d.target] = sf.Func(d.fn)
		}
	}
	x.runInit(s)
	fn := p.Func(c.Name)
	if fn == nil {
		res.Status, res.Msg = "unsupported", "contract function not found"
		return
	}
	st := &State{f: newFacts(x.m), heap: map[string]*T{}, used: map[*T]bool{}}
	for k, v := range x.initHeap {
		st.heap[k] = v
	}
	st.f = x.initFacts.clone()
	var args []*T
	for _, pr := range fn.Params {
		args = append(args, x.paramVal("p_"+pr.Name(), pr.Type()))
	}
	ends := 0
	x.runFn(st, fn, args, nil, 0, func(*State, []*T) { ends++ })
	// Discharge.
	type job struct {
		o      *Obl
		script []string
	}
	scripts := func(facts []*T, goal *T) []string {
		var scr []string
		for _, fuel := range []int{2, 4, 1} {
			scr = append(scr, x.script(facts, goal, fuel))
		}
		return scr
	}
	solve := func(j job, ms, tries, fuels int) {
		var r solverRes
		for i, scr := range j.script {
			if i > 0 && scr == j.script[i-1] {
				continue
			}
			if i >= fuels || time.Now().After(end) {
				break
			}
			r = runSolver(scr, ms, tries)
			if r.res == "unsat" || i == 0 && r.res == "sat" && scr == j.script[1] {
				break
			}
		}
		j.o.by = r.backend
		switch r.res {
		case "unsat":
			j.o.res = "proved"
		default:
			j.o.res = r.res
			j.o.out = r.out
			j.o.script = j.script[0]
		}
	}
	each := func(jobs []job, f func(j job)) {
		var wg sync.WaitGroup
		for i := range jobs {
			wg.Add(1)
			go func(j job) {
				defer wg.Done()
				f(j)
			}(jobs[i])
		}
		wg.Wait()
	}
	var jobs []job
	seen := map[string][]*Obl{}
	for _, o := range x.obls {
		if o.res != "" {
			continue
		}
		scr := scripts(o.facts, o.goal)
		if prev, ok := seen[scr[0]]; ok {
			seen[scr[0]] = append(prev, o)
			continue
		}
		seen[scr[0]] = []*Obl{o}
		jobs = append(jobs, job{o, scr})
	}
	// First as they are, briefly; then broken down.
	each(jobs, func(j job) { solve(j, 1500, 1, 1) })
	var hard []job
	whole := map[*Obl][]*Obl{}
	var left []job
	for _, j := range jobs {
		if j.o.res != "proved" {
			left = append(left, j)
		}
	}
	for _, j := range left {
		if j.o.res == "sat" && j.script[0] == j.script[1] {
			continue
		}
		budget := 6 * time.Second
		if rest := time.Until(end) / 2 / time.Duration(len(left)); rest < budget {
			budget = rest
		}
		subs, ok := x.breakdown(j.o.facts, j.o.goal, budget)
		if !ok {
			if debugObl {
				fmt.Printf("  breakdown of %s at %s failed\n", j.o.name, j.o.pos)
			}
			hard = append(hard, j)
			continue
		}
		if len(subs) == 0 {
			j.o.res, j.o.by = "proved", "simplifier"
			continue
		}
		whole[j.o] = nil
		for _, sg := range subs {
			so := &Obl{name: j.o.name, pos: j.o.pos, facts: sg.facts, goal: sg.goal}
			whole[j.o] = append(whole[j.o], so)
			hard = append(hard, job{so, scripts(sg.facts, sg.goal)})
		}
	}
	each(hard, func(j job) { solve(j, *solverMs, len(backends), 3) })
	for o, subs := range whole {
		o.res = "proved"
		for _, so := range subs {
			o.by = so.by
			if so.res != "proved" {
				o.res, o.by, o.out, o.script, o.goal, o.facts = so.res, so.by, so.out, so.script, so.goal, so.facts
				break
			}
		}
	}
	for _, os := range seen {
		for _, o := range os[1:] {
			o.res, o.by, o.out, o.script = os[0].res, os[0].by, os[0].out, os[0].script
		}
	}
	for _, o := range x.obls {
		if o.res != "proved" {
			res.Failed = append(res.Failed, o)
		}
	}
	switch {
	case len(res.Failed) > 0:
		res.Status = "failed"
		res.Msg = res.Failed[0].name + " at " + res.Failed[0].pos
	case len(x.obls) == 0 || ends == 0:
		res.Status, res.Msg = "vacuous", "no path reaches the end of the contract"
	default:
		res.Status = "proved"
		// Every postcondition must be reached with satisfiable facts.
		for name, fs := range x.reach {
			ok := len(fs) == 0
			for i, tries := 0, 0; i < len(fs) && !ok; i += 1 + len(fs)/40 {
				subs, done := x.breakdown(fs[i].list, x.m.tFals, time.Second)
				ok = !done || len(subs) > 0
				if tries++; tries > 40 {
					break
				}
			}
			if !ok {
				if os.Getenv("GOVC_DEBUG") != "" {
					for _, f := range fs {
						fmt.Println("VACUOUS", name)
						for _, t := range f.list {
							fmt.Println("   fact", t)
						}
					}
				}
				res.Status, res.Msg = "vacuous", "postcondition "+name+" is only reached with contradictory facts"
				return
			}
		}
		var vg sync.WaitGroup
		var vm sync.Mutex
		for name, fs := range x.reach {
			var scr []string
			step := 1 + len(fs)/60
			for i := 0; i < len(fs); i += step {
				scr = append(scr, x.script(fs[i].list, x.m.tFals, 1))
			}
			vg.Add(1)
			go func(name string, scr []string) {
				defer vg.Done()
				for _, sc := range scr {
					if r := runSolver(sc, 700, 1); r.res != "unsat" {
						return
					}
				}
				vm.Lock()
				res.Status, res.Msg = "vacuous", "postcondition "+name+" is only reached with contradictory facts"
				vm.Unlock()
			}(name, scr)
		}
		vg.Wait()
	}
	return
}

func main() {
	flag.Parse()
	for _, e := range goEnv() {
		kv := strings.SplitN(e, "=", 2)
		os.Setenv(kv[0], kv[1])
	}
	debugObl, debugLoop = *dbgObl, *dbgLoop
	if *sources {
		recordSources()
		return
	}
	cs, err := readContracts()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	run(cs)
}

func jsonWrite(p string, v interface{}) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Dir(p), 0755)
	return os.WriteFile(p, append(b, '\n'), 0644)
}

var _ = exec.Command
