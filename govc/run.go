package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// DriverResult is what running a contract concretely found (verifvc.Result).
type DriverResult struct {
	Name     string
	Runs     int
	Distinct int
	Skipped  int
	Reached  map[string]int
	Failed   string
	Input    string
	Seed     int64
	Stack    string
	Samples  []string
	Secs     float64
}

type baselineEntry struct {
	Status      string `json:"status"`
	Obligations int    `json:"obligations"`
}

func pkgName(cs *contractSet, dir string) string {
	for p, b := range cs.overlay {
		if filepath.Dir(p) == filepath.Join(*repoDir, dir) {
			f, err := parser.ParseFile(token.NewFileSet(), p, b, parser.PackageClauseOnly)
			if err == nil {
				return f.Name.Name
			}
		}
	}
	return ""
}

// driverMain writes the test file that runs the contracts of a package.
func driverMain(cs *contractSet, dir string, cons []*contract) []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\nimport (\n\t\"testing\"\n\n\t\"%s/verifvc\"\n)\n\n", pkgName(cs, dir), modPath)
	fmt.Fprintf(&b, "func TestZZVerifDriver(t *testing.T) {\n\tverifvc.Drive([]verifvc.C{\n")
	for _, c := range cons {
		if c.Kind == "deductive" {
			continue
		}
		fmt.Fprintf(&b, "\t\t{Name: %q, Fn: %s, N: %d", c.Name, c.Name, c.N)
		if c.Kind == "bounded" {
			fmt.Fprintf(&b, ", Perturb: true")
		}
		if c.Gen != "" {
			fmt.Fprintf(&b, ", Gen: %s", c.Gen)
		}
		fmt.Fprintf(&b, "},\n")
	}
	fmt.Fprintf(&b, "\t})\n}\n")
	return b.Bytes()
}

type driverRun struct {
	bin, work, dir string
	results        map[string]*DriverResult
	err            string
	secs           float64
}

func scratchDir() string {
	d, err := os.MkdirTemp("", "govc")
	if err != nil {
		panic(err)
	}
	return d
}

func runDrivers(cs *contractSet, cons []*contract, tmp string, seed int, scale float64) map[string]*driverRun {
	byDir := map[string][]*contract{}
	for _, c := range cons {
		if c.Kind != "deductive" {
			byDir[c.Pkg] = append(byDir[c.Pkg], c)
		}
	}
	out := map[string]*driverRun{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for dir, l := range byDir {
		wg.Add(1)
		go func(dir string, l []*contract) {
			defer wg.Done()
			r := &driverRun{results: map[string]*DriverResult{}}
			mu.Lock()
			out[dir] = r
			mu.Unlock()
			t0 := time.Now()
			defer func() { r.secs = time.Since(t0).Seconds() }()
			key := strings.ReplaceAll(dir, "/", "_")
			if dir == "." {
				key = "root"
			}
			work := filepath.Join(tmp, key)
			os.MkdirAll(work, 0755)
			repl := map[string]string{}
			for p, v := range cs.files {
				if _, ok := cs.overlay[p]; ok {
					repl[p] = v
				}
			}
			main := filepath.Join(work, "driver_test.go")
			os.WriteFile(main, driverMain(cs, dir, l), 0644)
			repl[filepath.Join(*repoDir, dir, "zz_verif_driver_test.go")] = main
			bin := filepath.Join(work, "driver.test")
			r.bin, r.work, r.dir = bin, work, dir
			conc := []string{"onionmsg", "rpcserver", "."}
			var o []byte
			var err error
			ctx, cancel := context.WithTimeout(context.Background(), 400*time.Second)
			defer cancel()
			for try := 0; try < 2; try++ {
				all := map[string]string{}
				if try == 0 {
					if dir != "." && dir != conc[0] && dir != conc[1] {
						continue
					}
					all = instrumented(conc, work)
				}
				for k, v := range repl {
					all[k] = v
				}
				ov := filepath.Join(work, "overlay.json")
				jsonWrite(ov, map[string]interface{}{"Replace": all})
				cmd := exec.CommandContext(ctx, "/opt/veriftools/go1.23.12/bin/go", "test", "-c", "-overlay", ov, "-vet=off", "-tags=nolog",
					"-ldflags=-checklinkname=0", "-o", bin, "./"+dir)
				cmd.Dir = *repoDir
				cmd.Env = goEnv()
				if o, err = cmd.CombinedOutput(); err == nil {
					break
				}
			}
			if err != nil {
				r.err = "driver does not build: " + string(o)
				return
			}
			// Contracts of a package run one process each, so that one that
			// takes the process down does not hide the others.
			var wg2 sync.WaitGroup
			for _, c := range l {
				wg2.Add(1)
				go func(c *contract) {
					defer wg2.Done()
					driverSem <- struct{}{}
					defer func() { <-driverSem }()
					res := runDriver(bin, work, dir, c, seed, scale, "")
					mu.Lock()
					r.results[c.Name] = res
					mu.Unlock()
				}(c)
			}
			wg2.Wait()
		}(dir, l)
	}
	wg.Wait()
	return out
}

var driverSem = make(chan struct{}, 8)

func runDriver(bin, work, dir string, c *contract, seed int, scale float64, one string) *DriverResult {
	of := filepath.Join(work, "out_"+c.Name+".json")
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(60+40*scale)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "-test.run", "^TestZZVerifDriver$", "-test.timeout", "30m")
	cmd.Dir = work
	cmd.Env = append(goEnv(), "VERIF_SEED="+strconv.Itoa(seed), "VERIF_SCALE="+strconv.FormatFloat(scale, 'f', 3, 64),
		"VERIF_OUT="+of, "VERIF_CONTRACTS="+c.Name, "VERIF_CONSTS="+strings.Join(srcs.ints[dir], ","),
		"VERIF_NEWINTS="+strings.Join(srcs.newInts, ","), "VERIF_NEWSTRS="+jsonString(srcs.newStrs), "VERIF_ONE="+one)
	o, err := cmd.CombinedOutput()
	var rs []*DriverResult
	if b, e := os.ReadFile(of); e == nil {
		json.Unmarshal(b, &rs)
	}
	if len(rs) == 1 {
		return rs[0]
	}
	if ctx.Err() != nil {
		return &DriverResult{Name: c.Name, Stack: "the driver ran out of time"}
	}
	msg := string(o)
	if len(msg) > 8000 {
		msg = msg[:8000]
	}
	// The run ended the process: a panic in a goroutine, or a fatal error.
	f := "the run ended the process"
	for _, l := range strings.Split(msg, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") {
			f = l
			break
		}
	}
	_ = err
	return &DriverResult{Name: c.Name, Failed: f, Input: "seed " + strconv.Itoa(seed), Stack: msg}
}

// loadTolerant loads the repository with the contracts, leaving out contract
// files that no longer compile against it.
func loadTolerant(cs *contractSet, dirs []string) (*Session, []string, error) {
	var dropped []string
	for try := 0; try < 40; try++ {
		s, err := load(cs, dirs)
		if err == nil {
			return s, dropped, nil
		}
		n := 0
		for p := range cs.overlay {
			if strings.Contains(err.Error(), p+":") && !strings.Contains(p, "/verifvc/") {
				delete(cs.overlay, p)
				dropped = append(dropped, filepath.Base(filepath.Dir(p))+"/"+filepath.Base(p))
				n++
				if os.Getenv("GOVC_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, err)
				}
			}
		}
		if n == 0 {
			return nil, dropped, err
		}
	}
	return nil, dropped, fmt.Errorf("too many contract files do not compile")
}

func readBaseline() map[string]baselineEntry {
	m := map[string]baselineEntry{}
	b, err := os.ReadFile(filepath.Join(*verifDir, "baseline.json"))
	if err == nil {
		json.Unmarshal(b, &m)
	}
	return m
}

// knownFindings reads the findings recorded for the property: lines
// "finding: property=<id> key=<contract>/<obligation> <what fails>".
func knownFindings(prop string) map[string]string {
	m := map[string]string{}
	b, _ := os.ReadFile(filepath.Join(*verifDir, "known_findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		fs := strings.SplitN(strings.TrimSpace(l), " ", 4)
		if len(fs) == 4 && fs[0] == "finding:" && fs[1] == "property="+prop && strings.HasPrefix(fs[2], "key=") {
			m[fs[2][4:]] = fs[3]
		}
	}
	return m
}

func sel(cs *contractSet) []*contract {
	var re *regexp.Regexp
	if *only != "" {
		re = regexp.MustCompile(*only)
	}
	var cons []*contract
	for _, c := range cs.contracts {
		ok := *propFlag == ""
		for _, p := range c.Props {
			ok = ok || p == *propFlag
		}
		if ok && (re == nil || re.MatchString(c.Name)) {
			cons = append(cons, c)
		}
	}
	sort.Slice(cons, func(i, j int) bool { return cons[i].Name < cons[j].Name })
	return cons
}

func propPkgs(cons []*contract) []string {
	m := map[string]bool{}
	for _, c := range cons {
		m[c.Pkg] = true
	}
	return sortedKeys(m)
}

func run(cs *contractSet) {
	t0 := time.Now()
	if *propFlag == "" && !*updateTable && *only == "" {
		fmt.Fprintln(os.Stderr, "usage: govc -prop C01 [-tier thorough]")
		os.Exit(2)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if os.Getenv("VERIF_SEED") == "" {
		seed = 1
	}
	thorough := *tier == "thorough"
	scale := 1.0
	if thorough {
		scale = 15
		*solverMs *= 5
	}
	srcs = compareSources()
	if len(srcs.changed) > 0 && !thorough {
		scale = 5
	}
	tmp := scratchDir()
	defer os.RemoveAll(tmp)
	s, dropped, err := loadTolerant(cs, propPkgs(sel(cs)))
	if err != nil {
		fmt.Println("govc: the repository does not load:", err)
		writeEvidence(nil, nil, nil, seed, t0, 0, "the repository does not load: "+err.Error())
		os.RemoveAll(tmp)
		os.Exit(0)
	}
	tLoad := time.Since(t0)
	cons := sel(cs)
	var live, gone []*contract
	for _, c := range cons {
		if _, ok := cs.overlay[filepath.Join(*repoDir, c.Pkg, "zz_verif_"+c.File)]; ok {
			live = append(live, c)
		} else {
			gone = append(gone, c)
		}
	}
	drv := map[string]*driverRun{}
	var wg sync.WaitGroup
	if !*noDriver {
		wg.Add(1)
		go func() {
			defer wg.Done()
			drv = runDrivers(cs, live, tmp, seed, scale)
		}()
	}
	results := make([]*ContractResult, len(live))
	sem := make(chan struct{}, 6)
	base := readBaseline()
	for i, c := range live {
		if c.Kind == "bounded" || *noProof {
			results[i] = &ContractResult{C: c, Status: "bounded", Msg: "checked by running it only"}
			continue
		}
		if b := base[c.Name].Status; !*updateTable && !thorough && *only == "" && b != "" && b != "proved" {
			results[i] = &ContractResult{C: c, Status: "bounded", Msg: "not proved on the recorded tree; checked by running it only"}
			continue
		}
		wg.Add(1)
		go func(i int, c *contract) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			results[i] = s.verify(c)
		}(i, c)
	}
	wg.Wait()
	// Obligations that fail under load get a second, longer try.
	for _, r := range results {
		if r.Status == "failed" && (base[r.C.Name].Status == "proved" || *updateTable && len(r.Failed) <= 4) {
			wg.Add(1)
			go func(r *ContractResult) {
				defer wg.Done()
				retry(r)
			}(r)
		}
	}
	wg.Wait()
	if !*noDriver && !thorough {
		deeper(results, base, drv, seed)
	}
	known := knownFindings(*propFlag)
	viol := 0
	for _, r := range results {
		if d := drv[r.C.Pkg]; d != nil {
			r.Driver = d.results[r.C.Name]
			if d.err != "" && *verbose {
				fmt.Println(d.err)
			}
		}
		if *verbose {
			printResult(r)
		}
		var what, key string
		suffix := ""
		if r.Driver != nil && r.Driver.Failed != "" {
			what = "the contract fails on a concrete input: " + r.Driver.Failed
			key = r.C.Name + "/" + r.Driver.Failed
		} else if r.Status == "failed" && base[r.C.Name].Status == "proved" {
			what = "obligation " + r.Msg + " was proved on the recorded tree and is not any more"
			key = r.C.Name + "/" + r.Failed[0].name
			suffix = " no-failing-input-found"
		}
		if what == "" {
			continue
		}
		if k, ok := known[key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *propFlag, k)
			continue
		}
		viol++
		rp := filepath.Join(*verifDir, "evidence", "replay", *propFlag+"-"+r.C.Name+".txt")
		writeReplay(rp, r, what, seed)
		fmt.Printf("%s: %s\n", r.C.Name, what)
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", *propFlag, rp, suffix)
	}
	if *updateTable {
		updateBaseline(results)
	}
	if *propFlag != "" && *only == "" {
		writeEvidence(results, gone, dropped, seed, t0, viol, "")
	}
	if *verbose {
		fmt.Printf("load %.1fs, total %.1fs\n", tLoad.Seconds(), time.Since(t0).Seconds())
	}
	summary(results, gone)
	os.RemoveAll(tmp)
	if viol > 0 {
		os.Exit(1)
	}
}

// deeper runs the property's contracts for longer if an obligation fails and no
// run has failed yet: it looks for the input.
func deeper(results []*ContractResult, base map[string]baselineEntry, drv map[string]*driverRun, seed int) {
	fails := false
	for _, r := range results {
		if d := drv[r.C.Pkg]; d != nil && d.results[r.C.Name] != nil && d.results[r.C.Name].Failed != "" {
			return
		}
		fails = fails || r.Status == "failed" && base[r.C.Name].Status == "proved"
	}
	if !fails {
		return
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	for _, r := range results {
		d := drv[r.C.Pkg]
		if d == nil || d.err != "" || d.results[r.C.Name] == nil {
			continue
		}
		wg.Add(1)
		go func(c *contract, d *driverRun) {
			defer wg.Done()
			driverSem <- struct{}{}
			defer func() { <-driverSem }()
			res := runDriver(d.bin, d.work, d.dir, c, seed+7919, 12, "")
			mu.Lock()
			if res.Failed != "" {
				d.results[c.Name] = res
			}
			mu.Unlock()
		}(r.C, d)
	}
	wg.Wait()
}

func retry(r *ContractResult) {
	deadline := time.Now().Add(90 * time.Second)
	var left []*Obl
	for _, o := range r.Failed {
		if o.script == "" || o.res == "sat" || o.res == "failed" || time.Now().After(deadline) {
			left = append(left, o)
			continue
		}
		res := runSolver(o.script, *solverMs*5, len(backends))
		if res.res == "unsat" {
			o.res, o.by = "proved", res.backend
			continue
		}
		left = append(left, o)
		break
	}
	if len(left) == 0 {
		r.Failed = nil
		r.Status, r.Msg = "proved", ""
	}
}

func updateBaseline(rs []*ContractResult) {
	m := readBaseline()
	for _, r := range rs {
		m[r.C.Name] = baselineEntry{r.Status, len(r.Obls)}
	}
	jsonWrite(filepath.Join(*verifDir, "baseline.json"), m)
}

func summary(rs []*ContractResult, gone []*contract) {
	n := map[string]int{}
	obl := 0
	runs := 0
	for _, r := range rs {
		n[r.Status]++
		obl += len(r.Obls)
		if r.Driver != nil {
			runs += r.Driver.Runs
		}
	}
	fmt.Printf("%s: %d contracts", *propFlag, len(rs))
	for _, k := range []string{"proved", "failed", "vacuous", "unsupported", "bounded"} {
		if n[k] > 0 {
			fmt.Printf(", %d %s", n[k], k)
		}
	}
	fmt.Printf("; %d obligations; %d concrete runs", obl, runs)
	if len(gone) > 0 {
		fmt.Printf("; %d contracts no longer compile against the code", len(gone))
	}
	fmt.Println()
}

func printResult(r *ContractResult) {
	fmt.Printf("%-44s %-11s obls=%d failed=%d paths=%d loops=%d %.1fs %s\n", r.C.Name, r.Status, len(r.Obls), len(r.Failed), r.Paths, r.Loops, r.Secs, r.Msg)
	for i, o := range r.Failed {
		if i > 6 {
			break
		}
		fmt.Printf("    FAILED %s at %s: %s\n", o.name, o.pos, strings.TrimSpace(clipS(o.out, 200)))
		if *dbgObl && i < 2 {
			os.WriteFile(fmt.Sprintf("/tmp/govc_%s_%d.smt2", r.C.Name, i), []byte(o.script), 0644)
			for _, f := range o.facts {
				fmt.Println("      fact", clipS(f.String(), 1200))
			}
			fmt.Println("      goal", clipS(o.goal.String(), 3000))
		}
	}
	if d := r.Driver; d != nil {
		fmt.Printf("    driver: runs=%d distinct=%d skipped=%d %.1fs reached=%v %s\n", d.Runs, d.Distinct, d.Skipped, d.Secs, d.Reached, clipS(d.Failed, 300))
		if d.Failed != "" {
			fmt.Println("      input", clipS(d.Input, 1500))
			fmt.Println(clipS(d.Stack, 2500))
		}
	}
}

func clipS(s string, n int) string {
	if len(s) > n {
		if showDepth > 14 {
			return s
		}
		return s[:n] + "..."
	}
	return s
}

func writeReplay(p string, r *ContractResult, what string, seed int) {
	var b bytes.Buffer
	fmt.Fprintf(&b, "property   %s\ncontract   %s (contracts/%s/%s)\nfunctions  %s\n\n%s\n\n", *propFlag, r.C.Name, r.C.Pkg, r.C.File, strings.Join(r.C.Funcs, ", "), what)
	if d := r.Driver; d != nil && d.Failed != "" {
		fmt.Fprintf(&b, "Concrete run of the contract against the real code:\n  seed %d (VERIF_SEED=%d)\n  input %s\n  outcome %s\n\n%s\n\n", d.Seed, seed, d.Input, d.Failed, d.Stack)
	} else if d != nil {
		fmt.Fprintf(&b, "%d concrete runs of the contract found no failing input.\n\n", d.Runs)
	}
	fmt.Fprintf(&b, "verifier: %s %s\n", r.Status, r.Msg)
	for i, o := range r.Failed {
		if i > 10 {
			fmt.Fprintf(&b, "... and %d more\n", len(r.Failed)-i)
			break
		}
		fmt.Fprintf(&b, "\nfailed obligation %s at %s (solver: %s)\n  goal %s\n  solver output: %s\n", o.name, o.pos, o.res, clipS(o.goal.String(), 4000), clipS(o.out, 2000))
		if i == 0 {
			fmt.Fprintf(&b, "\nSMT script:\n%s\n", clipS(o.script, 60000))
		}
	}
	os.MkdirAll(filepath.Dir(p), 0755)
	os.WriteFile(p, b.Bytes(), 0644)
}

func union(ls ...[]string) []string {
	m := map[string]bool{}
	for _, l := range ls {
		for _, s := range l {
			m[s] = true
		}
	}
	return sortedKeys(m)
}

func propLevel(rs []*ContractResult) string {
	for _, r := range rs {
		if r.Status == "proved" {
			return "proof"
		}
	}
	return "exploration"
}

func writeEvidence(rs []*ContractResult, gone []*contract, dropped []string, seed int, t0 time.Time, viol int, problem string) {
	level := manifestLevel(*propFlag)
	obl, dis := 0, 0
	by := map[string]int{}
	var cons []map[string]interface{}
	var trusted, assumed, inl, mod, bounded []string
	fuc := map[string]bool{}
	runs, distinct := 0, 0
	var samples []string
	solve := 0.0
	for _, r := range rs {
		p := 0
		for _, o := range r.Obls {
			if o.res == "proved" {
				p++
				b := o.by
				if b == "" {
					b = "govc simplifier"
				}
				by[b]++
			}
		}
		if r.Status == "proved" || r.Status == "failed" {
			obl += len(r.Obls)
			dis += p
		}
		e := map[string]interface{}{"contract": r.C.Name, "functions": r.C.Funcs, "status": r.Status, "obligations": len(r.Obls), "discharged": p,
			"paths": r.Paths, "loops_cut": r.Loops, "seconds": r.Secs}
		if r.Msg != "" {
			e["detail"] = clipS(r.Msg, 300)
		}
		if r.C.Note != "" {
			e["note"] = r.C.Note
		}
		if d := r.Driver; d != nil {
			e["concrete_runs"] = d.Runs
			e["concrete_distinct"] = d.Distinct
			e["concrete_reached"] = d.Reached
			runs += d.Runs
			distinct += d.Distinct
			if len(samples) < 4 && len(d.Samples) > 0 {
				samples = append(samples, r.C.Name+"("+d.Samples[0]+")")
			}
		}
		switch r.Status {
		case "proved":
			for _, f := range r.C.Funcs {
				fuc[f] = true
			}
		case "bounded", "unsupported", "vacuous":
			n := 0
			if r.Driver != nil {
				n = r.Driver.Runs
			}
			bounded = append(bounded, fmt.Sprintf("%s (%s): %d concrete runs; %s", r.C.Name, strings.Join(r.C.Funcs, ", "), n, clipS(r.Msg, 200)))
		}
		trusted = union(trusted, r.Trusted)
		assumed = union(assumed, r.Assumed)
		inl = union(inl, r.Inlined)
		mod = union(mod, r.Modular)
		cons = append(cons, e)
	}
	solverMu.Lock()
	st := map[string]float64{}
	for k, v := range solverTime {
		st[k] = v.Seconds()
		solve += v.Seconds()
	}
	solverMu.Unlock()
	for _, c := range gone {
		bounded = append(bounded, c.Name+": does not compile against the current code, not decided")
	}
	cov := map[string]interface{}{
		"checker_cmd":              fmt.Sprintf("/verif/check.sh %s %s", *propFlag, *tier),
		"contracts":                cons,
		"functions_under_contract": sortedKeys(fuc),
		"functions_executed_symbolically_from_source": inl,
		"functions_used_by_contract_only":             mod,
		"bounded_stand_ins":                           bounded,
		"obligations_by_back_end":                     by,
		"solver_seconds":                              st,
		"trusted_base":                                append([]string{"govc (/verif/govc): symbolic execution of go/ssa, term rewriting, loop summaries", "go/packages, go/types, go/ssa (x/tools v0.52.0)", "z3 5.3.2, z3 4.8.12, cvc5 1.1.2"}, trusted...),
		"evaluations":                                 runs,
		"distinct_nontrivial":                         distinct,
		"rule":                                        "a concrete run executes a contract on inputs made by its generator; it counts as non-trivial if it reached a postcondition, and as distinct by its written-out input",
		"samples":                                     samples,
	}
	if samples == nil {
		cov["samples"] = []string{}
	}
	cov["obligations"] = obl
	cov["discharged"] = dis
	if problem != "" {
		cov["explanation"] = problem
	} else {
		cov["explanation"] = fmt.Sprintf("%d obligations from %d contracts on the source of this run, %d discharged; %d concrete runs", obl, len(rs), dis, runs)
	}
	ass := append([]string{}, assumed...)
	ass = append(ass, "no data races between goroutines outside what a contract models; memory and stack are unlimited; integers are machine integers of their declared width")
	ev := map[string]interface{}{"property": *propFlag, "tier": *tier, "seed": seed, "level": level, "coverage": cov, "assumptions": ass,
		"wall_s": time.Since(t0).Seconds(), "violations": viol}
	if len(dropped) > 0 {
		ev["dropped_contract_files"] = dropped
	}
	if err := jsonWrite(filepath.Join(*verifDir, "evidence", *propFlag+".json"), ev); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}

func manifestLevel(prop string) string {
	var m struct {
		Checks []struct{ Property, Level string }
	}
	b, err := os.ReadFile(filepath.Join(*verifDir, "MANIFEST.json"))
	if err == nil && json.Unmarshal(b, &m) == nil {
		for _, c := range m.Checks {
			if c.Property == prop {
				return c.Level
			}
		}
	}
	return "proof"
}
