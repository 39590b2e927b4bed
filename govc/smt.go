package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

// Solver back ends, tried in order.
type backend struct {
	name string
	argv func(ms int) []string
}

var backends = []backend{
	{"z3-5", func(ms int) []string {
		return []string{"z3-new", "-in", "-smt2", fmt.Sprintf("-T:%d", (ms+999)/1000), fmt.Sprintf("-t:%d", ms)}
	}},
	{"cvc5", func(ms int) []string {
		return []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "-"}
	}},
	{"z3-4.8", func(ms int) []string {
		return []string{"z3", "-in", "-smt2", fmt.Sprintf("-T:%d", (ms+999)/1000), fmt.Sprintf("-t:%d", ms)}
	}},
}

var (
	solverMu    sync.Mutex
	solverCache = map[[32]byte]solverRes{}
	solverSem   = make(chan struct{}, 8)
	solverTime  = map[string]time.Duration{}
	solverCalls = map[string]int{}
)

type solverRes struct {
	res     string // unsat, sat, unknown
	backend string
	out     string
}

func runSolver(script string, ms int, tries int) solverRes {
	h := sha256.Sum256([]byte(script))
	solverMu.Lock()
	if r, ok := solverCache[h]; ok && (r.res != "unknown") {
		solverMu.Unlock()
		return r
	}
	solverMu.Unlock()
	last := solverRes{res: "unknown"}
	for i, b := range backends {
		if i >= tries {
			break
		}
		solverSem <- struct{}{}
		t0 := time.Now()
		ctx, cancel := context.WithTimeout(context.Background(), time.Duration(ms+2000)*time.Millisecond)
		a := b.argv(ms)
		cmd := exec.CommandContext(ctx, a[0], a[1:]...)
		cmd.Stdin = strings.NewReader(script)
		var out bytes.Buffer
		cmd.Stdout = &out
		cmd.Stderr = &out
		_ = cmd.Run()
		cancel()
		<-solverSem
		d := time.Since(t0)
		solverMu.Lock()
		solverTime[b.name] += d
		solverCalls[b.name]++
		solverMu.Unlock()
		o := out.String()
		first := strings.TrimSpace(strings.SplitN(o, "\n", 2)[0])
		if strings.HasPrefix(first, "(error") || strings.Contains(o, "Parse Error") {
			if os.Getenv("GOVC_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "SOLVER ERROR", b.name, o)
				os.WriteFile("/tmp/govc_err.smt2", []byte(script), 0644)
			}
			last = solverRes{res: "unknown", backend: b.name, out: o}
			continue
		}
		last = solverRes{res: "unknown", backend: b.name, out: o}
		if first == "unsat" || first == "sat" {
			last.res = first
			if first == "unsat" {
				break
			}
			break
		}
	}
	solverMu.Lock()
	solverCache[h] = last
	solverMu.Unlock()
	return last
}

// Def is a (possibly recursive) spec function with a definitional equation.
type Def struct {
	name string
	body func(m *TM, as []*T) *T
}

type smtPrinter struct {
	m     *TM
	defs  map[string]*Def
	decl  []string
	ax    []string
	body  []string
	done  map[*T]string
	seen  map[string]bool
	sorts map[string]bool
	maps  map[string]bool
	bvs   map[*T]string
	uses  map[string]bool
}

func (p *smtPrinter) declare(key, line string) {
	if !p.seen[key] {
		p.seen[key] = true
		p.decl = append(p.decl, line)
	}
}

func (p *smtPrinter) needSort(s *Sort) {
	if s == nil || p.sorts[s.smt] {
		return
	}
	if s.isArr {
		p.needSort(s.key)
		p.needSort(s.elem)
		return
	}
	switch s.smt {
	case "Int", "Bool":
		return
	}
	p.sorts[s.smt] = true
	switch {
	case s.isSeq:
		p.needSort(s.elem)
		e, q := s.elem.smt, s.smt
		p.decl = append(p.decl, fmt.Sprintf("(declare-sort %s 0)", q))
		p.decl = append(p.decl, fmt.Sprintf(`(declare-fun len_%[1]s (%[1]s) Int)
(declare-fun at_%[1]s (%[1]s Int) %[2]s)
(declare-fun empty_%[1]s () %[1]s)
(declare-fun unit_%[1]s (%[2]s) %[1]s)
(declare-fun cat_%[1]s (%[1]s %[1]s) %[1]s)
(declare-fun sub_%[1]s (%[1]s Int Int) %[1]s)
(declare-fun upd_%[1]s (%[1]s Int %[2]s) %[1]s)
(declare-fun rep_%[1]s (Int %[2]s) %[1]s)
(assert (forall ((s %[1]s)) (! (>= (len_%[1]s s) 0) :pattern ((len_%[1]s s)))))
(assert (= (len_%[1]s empty_%[1]s) 0))
(assert (forall ((x %[2]s)) (! (and (= (len_%[1]s (unit_%[1]s x)) 1) (= (at_%[1]s (unit_%[1]s x) 0) x)) :pattern ((unit_%[1]s x)))))
(assert (forall ((a %[1]s) (b %[1]s)) (! (= (len_%[1]s (cat_%[1]s a b)) (+ (len_%[1]s a) (len_%[1]s b))) :pattern ((cat_%[1]s a b)))))
(assert (forall ((a %[1]s) (b %[1]s) (i Int)) (! (= (at_%[1]s (cat_%[1]s a b) i) (ite (< i (len_%[1]s a)) (at_%[1]s a i) (at_%[1]s b (- i (len_%[1]s a))))) :pattern ((at_%[1]s (cat_%[1]s a b) i)))))
(assert (forall ((s %[1]s) (l Int) (h Int)) (! (=> (and (<= 0 l) (<= l h) (<= h (len_%[1]s s))) (= (len_%[1]s (sub_%[1]s s l h)) (- h l))) :pattern ((sub_%[1]s s l h)))))
(assert (forall ((s %[1]s) (l Int) (h Int) (i Int)) (! (=> (and (<= 0 l) (<= l h) (<= h (len_%[1]s s)) (<= 0 i) (< i (- h l))) (= (at_%[1]s (sub_%[1]s s l h) i) (at_%[1]s s (+ l i)))) :pattern ((at_%[1]s (sub_%[1]s s l h) i)))))
(assert (forall ((s %[1]s) (i Int) (x %[2]s)) (! (= (len_%[1]s (upd_%[1]s s i x)) (len_%[1]s s)) :pattern ((upd_%[1]s s i x)))))
(assert (forall ((s %[1]s) (i Int) (x %[2]s) (j Int)) (! (= (at_%[1]s (upd_%[1]s s i x) j) (ite (= i j) x (at_%[1]s s j))) :pattern ((at_%[1]s (upd_%[1]s s i x) j)))))
(assert (forall ((n Int) (x %[2]s)) (! (=> (>= n 0) (= (len_%[1]s (rep_%[1]s n x)) n)) :pattern ((rep_%[1]s n x)))))
(assert (forall ((n Int) (x %[2]s) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (at_%[1]s (rep_%[1]s n x) i) x)) :pattern ((at_%[1]s (rep_%[1]s n x) i)))))`, q, e))
	case s.isDT:
		for _, f := range s.fields {
			p.needSort(f)
		}
		var fs []string
		for i, f := range s.fields {
			fs = append(fs, fmt.Sprintf("(%s_f%d %s)", s.smt, i, f.smt))
		}
		p.decl = append(p.decl, fmt.Sprintf("(declare-datatypes ((%s 0)) (((mk_%s %s))))", s.smt, s.smt, strings.Join(fs, " ")))
	default:
		p.decl = append(p.decl, fmt.Sprintf("(declare-sort %s 0)", s.smt))
	}
}

func bigSMT(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}

func (p *smtPrinter) pr(t *T) string {
	if s, ok := p.done[t]; ok {
		return s
	}
	e := p.expr(t)
	if t.hasBV || len(t.args) == 0 || t.op == "forall" || t.op == "foralls" {
		if !t.hasBV {
			p.done[t] = e
		}
		return e
	}
	n := fmt.Sprintf("t%d", t.id)
	p.body = append(p.body, fmt.Sprintf("(define-fun %s () %s %s)", n, t.sort.smt, e))
	p.done[t] = n
	p.rangeAx(t, n)
	return n
}

func (p *smtPrinter) rangeAx(t *T, n string) {
	if !isInt(t) {
		if t.sort.isSeq && t.sort.fixedLen >= 0 {
			p.body = append(p.body, fmt.Sprintf("(assert (= (len_%s %s) %d))", t.sort.smt, n, t.sort.fixedLen))
		}
		return
	}
	switch t.op {
	case "lin", "int", "*", "mod", "div", "wrap", "ite":
		return
	}
	if t.sort.lo != nil && t.op != "len" {
		p.body = append(p.body, fmt.Sprintf("(assert (<= %s %s))", bigSMT(t.sort.lo), n))
	}
	if t.sort.hi != nil {
		p.body = append(p.body, fmt.Sprintf("(assert (<= %s %s))", n, bigSMT(t.sort.hi)))
	}
}

func (p *smtPrinter) list(ts []*T) string {
	var r []string
	for _, t := range ts {
		r = append(r, p.pr(t))
	}
	return strings.Join(r, " ")
}

func (p *smtPrinter) fn(name string, t *T) string {
	var as []string
	for _, a := range t.args {
		p.needSort(a.sort)
		as = append(as, a.sort.smt)
	}
	p.needSort(t.sort)
	full := name
	// Overloading by sorts.
	full += "__" + sanitize(strings.Join(as, "_")+"_"+t.sort.smt)
	if len(full) > 120 {
		h := sha256.Sum256([]byte(full))
		full = fmt.Sprintf("%s_%x", full[:60], h[:6])
	}
	p.declare("f:"+full, fmt.Sprintf("(declare-fun %s (%s) %s)", full, strings.Join(as, " "), t.sort.smt))
	if len(t.args) == 0 {
		return full
	}
	return fmt.Sprintf("(%s %s)", full, p.list(t.args))
}

func (p *smtPrinter) expr(t *T) string {
	p.needSort(t.sort)
	q := t.sort.smt
	switch t.op {
	case "true", "false":
		return t.op
	case "int":
		return bigSMT(t.n)
	case "bv":
		if n, ok := p.bvs[t]; ok {
			return n
		}
		return "bv_" + sanitize(t.str)
	case "sym":
		n := "s_" + sanitize(t.str) + "_" + sanitize(t.sort.smt)
		p.declare("s:"+n, fmt.Sprintf("(declare-fun %s () %s)", n, q))
		if !p.seen["r:"+n] {
			p.seen["r:"+n] = true
			p.rangeAx(t, n)
		}
		return n
	case "alloc":
		// Fresh references are distinct positive constants.
		return fmt.Sprintf("%d", 1000000+t.id)
	case "glob":
		return fmt.Sprintf("(- %d)", 1000000+t.id)
	case "nilif":
		p.declare("nilif", "(declare-fun nilif () Iface)")
		p.declare("ifid", "(declare-fun ifid (Iface) Int)")
		p.declare("nilifid", "(assert (= (ifid nilif) 0))")
		return "nilif"
	case "lin":
		var ps []string
		for i, a := range t.args {
			c := t.coefs[i]
			if c.Cmp(bigOne) == 0 {
				ps = append(ps, p.pr(a))
			} else {
				ps = append(ps, fmt.Sprintf("(* %s %s)", bigSMT(c), p.pr(a)))
			}
		}
		if t.n.Sign() != 0 {
			ps = append(ps, bigSMT(t.n))
		}
		if len(ps) == 1 {
			return ps[0]
		}
		return "(+ " + strings.Join(ps, " ") + ")"
	case "*", "div", "mod":
		return fmt.Sprintf("(%s %s)", t.op, p.list(t.args))
	case "le0":
		return fmt.Sprintf("(<= %s 0)", p.pr(t.args[0]))
	case "eq0":
		return fmt.Sprintf("(= %s 0)", p.pr(t.args[0]))
	case "eq":
		return fmt.Sprintf("(= %s)", p.list(t.args))
	case "not", "and", "or", "ite":
		return fmt.Sprintf("(%s %s)", t.op, p.list(t.args))
	case "wrap":
		r := wrapRanges[t.str]
		w := new(big.Int).Sub(r[1], r[0])
		w.Add(w, bigOne)
		x := p.pr(t.args[0])
		if r[0].Sign() == 0 {
			return fmt.Sprintf("(mod %s %s)", x, w)
		}
		off := new(big.Int).Neg(r[0])
		return fmt.Sprintf("(- (mod (+ %s %s) %s) %s)", x, off, w, off)
	case "empty":
		return "empty_" + q
	case "strc":
		// Bytes as nested concatenation of units, via a named constant.
		n := fmt.Sprintf("str%d", t.id)
		p.declare("s:"+n, fmt.Sprintf("(declare-fun %s () %s)", n, q))
		p.declare("l:"+n, fmt.Sprintf("(assert (= (len_%s %s) %d))", q, n, len(t.str)))
		if len(t.str) <= 70 {
			var b strings.Builder
			for i := 0; i < len(t.str); i++ {
				fmt.Fprintf(&b, "(assert (= (at_%s %s %d) %d))\n", q, n, i, t.str[i])
			}
			p.declare("v:"+n, b.String())
		}
		return n
	case "unit":
		return fmt.Sprintf("(unit_%s %s)", q, p.pr(t.args[0]))
	case "cat":
		r := p.pr(t.args[len(t.args)-1])
		for i := len(t.args) - 2; i >= 0; i-- {
			r = fmt.Sprintf("(cat_%s %s %s)", q, p.pr(t.args[i]), r)
		}
		return r
	case "rep", "sub", "upd":
		return fmt.Sprintf("(%s_%s %s)", t.op, q, p.list(t.args))
	case "sumof":
		return p.fn("sumof_"+sanitize(t.args[0].sort.smt), t)
	case "len", "at":
		p.needSort(t.args[0].sort)
		return fmt.Sprintf("(%s_%s %s)", t.op, t.args[0].sort.smt, p.list(t.args))
	case "map":
		s, bv, body := t.args[0], t.args[1], t.args[2]
		p.needSort(s.sort)
		var fb []*T
		for _, b := range body.fbv {
			if b != bv {
				fb = append(fb, b)
			}
		}
		key := fmt.Sprintf("map_%d_%d", bv.id, body.id)
		var es, ed, ev []string
		for i, b := range fb {
			p.needSort(b.sort)
			es = append(es, b.sort.smt)
			ed = append(ed, fmt.Sprintf("(e%d_%d %s)", i, body.id, b.sort.smt))
			ev = append(ev, fmt.Sprintf("e%d_%d", i, body.id))
		}
		if !p.maps[key] {
			p.maps[key] = true
			p.needSort(body.sort)
			p.decl = append(p.decl, fmt.Sprintf("(declare-fun %s (%s) %s)", key, strings.Join(append([]string{s.sort.smt}, es...), " "), q))
			old := map[*T]string{}
			iv, sv := fmt.Sprintf("i%d", body.id), fmt.Sprintf("s%d", body.id)
			for i, b := range fb {
				old[b] = p.bvs[b]
				p.bvs[b] = ev[i]
			}
			old[bv] = p.bvs[bv]
			p.bvs[bv] = fmt.Sprintf("(at_%s %s %s)", s.sort.smt, sv, iv)
			b := p.pr(body)
			for k, o := range old {
				if o == "" {
					delete(p.bvs, k)
				} else {
					p.bvs[k] = o
				}
			}
			app := fmt.Sprintf("(%s %s)", key, strings.Join(append([]string{sv}, ev...), " "))
			qv := fmt.Sprintf("(%s %s) %s", sv, s.sort.smt, strings.Join(ed, " "))
			p.body = append(p.body, fmt.Sprintf("(assert (forall (%s) (! (= (len_%s %s) (len_%s %s)) :pattern (%s))))", qv, q, app, s.sort.smt, sv, app))
			p.body = append(p.body, fmt.Sprintf("(assert (forall (%[1]s (%[2]s Int)) (! (=> (and (<= 0 %[2]s) (< %[2]s (len_%[3]s %[4]s))) (= (at_%[5]s %[6]s %[2]s) %[7]s)) :pattern ((at_%[5]s %[6]s %[2]s)))))", qv, iv, s.sort.smt, sv, q, app, b))
		}
		as := []*T{s}
		as = append(as, fb...)
		return fmt.Sprintf("(%s %s)", key, p.list(as))
	case "mk":
		if len(t.args) == 0 {
			return "mk_" + q
		}
		return fmt.Sprintf("(mk_%s %s)", q, p.list(t.args))
	case "fld":
		p.needSort(t.args[0].sort)
		return fmt.Sprintf("(%s_f%d %s)", t.args[0].sort.smt, t.n.Int64(), p.pr(t.args[0]))
	case "select", "store":
		return fmt.Sprintf("(%s %s)", t.op, p.list(t.args))
	case "constarr":
		return fmt.Sprintf("((as const %s) %s)", q, p.pr(t.args[0]))
	case "hav":
		n := "hav_" + sanitize(t.str) + fmt.Sprintf("_%d", t.id)
		p.declare("s:"+n, fmt.Sprintf("(declare-fun %s () %s)", n, q))
		return n
	case "forall":
		bv, lo, hi, body := t.args[0], t.args[1], t.args[2], t.args[3]
		n := "bv_" + sanitize(bv.str)
		return fmt.Sprintf("(forall ((%s Int)) (=> (and (<= %s %s) (< %s %s)) %s))", n, p.pr(lo), n, n, p.pr(hi), p.pr(body))
	case "foralls":
		bv, body := t.args[0], t.args[1]
		p.needSort(bv.sort)
		n := "bv_" + sanitize(bv.str)
		rng := ""
		if bv.sort.lo != nil {
			rng += fmt.Sprintf("(<= %s %s)", bigSMT(bv.sort.lo), n)
		}
		if bv.sort.hi != nil {
			rng += fmt.Sprintf("(<= %s %s)", n, bigSMT(bv.sort.hi))
		}
		b := p.pr(body)
		if rng != "" {
			b = fmt.Sprintf("(=> (and %s) %s)", rng, b)
		}
		return fmt.Sprintf("(forall ((%s %s)) %s)", n, bv.sort.smt, b)
	case "uf":
		return p.fn("u_"+sanitize(t.str), t)
	case "range":
		p.needSort(t.sort)
		p.declare("range", fmt.Sprintf(`(declare-fun rangeseq (Int Int) %[1]s)
(assert (forall ((l Int) (h Int)) (! (=> (<= l h) (= (len_%[1]s (rangeseq l h)) (- h l))) :pattern ((rangeseq l h)))))
(assert (forall ((l Int) (h Int) (i Int)) (! (=> (and (<= 0 i) (< i (- h l))) (= (at_%[1]s (rangeseq l h) i) (+ l i))) :pattern ((at_%[1]s (rangeseq l h) i)))))`, q))
		return "(rangeseq " + p.list(t.args) + ")"
	case "allocf":
		r := p.fn("af_"+sanitize(t.str), t)
		p.declare("allocfpos", "")
		if !t.hasBV {
			p.body = append(p.body, fmt.Sprintf("(assert (> %s 0))", r))
		}
		return r
	case "vref", "arrref":
		return p.fn(t.op+"_"+sanitize(t.str), t)
	case "flat":
		n := fmt.Sprintf("flat_%d_%d", t.args[1].id, t.args[2].id)
		p.needSort(t.args[0].sort)
		if p.hasFreeBV(t.args[2], t.args[1]) {
			n = fmt.Sprintf("flatx_%d", t.id)
		}
		p.declare("f:"+n, fmt.Sprintf("(declare-fun %s (%s) %s)", n, t.args[0].sort.smt, q))
		return fmt.Sprintf("(%s %s)", n, p.pr(t.args[0]))
	case "lamarr", "curryarr":
		n := fmt.Sprintf("lam_%d", t.id)
		p.declare("s:"+n, fmt.Sprintf("(declare-fun %s () %s)", n, q))
		if t.op == "lamarr" && !p.hasFreeBV(t.args[1], t.args[0]) && !p.seen["lamax:"+n] {
			p.seen["lamax:"+n] = true
			bv := t.args[0]
			p.needSort(bv.sort)
			old, had := p.bvs[bv]
			p.bvs[bv] = "k"
			b := p.pr(t.args[1])
			delete(p.bvs, bv)
			if had {
				p.bvs[bv] = old
			}
			p.body = append(p.body, fmt.Sprintf("(assert (forall ((k %s)) (! (= (select %s k) %s) :pattern ((select %s k)))))", bv.sort.smt, n, b, n))
		}
		return n
	case "fp":
		return p.fn("fp_"+sanitize(t.str), t)
	case "ctor":
		r := p.fn("c_"+sanitize(t.str), t)
		// Injectivity and tags.
		name := strings.TrimPrefix(strings.SplitN(r, " ", 2)[0], "(")
		if !p.seen["inj:"+name] {
			p.seen["inj:"+name] = true
			tag := "tag_" + sanitize(q)
			p.declare("tag:"+tag, fmt.Sprintf("(declare-fun %s (%s) Int)", tag, q))
			if q == "Iface" {
				p.expr(p.m.nilIf)
				p.declare("niltag", fmt.Sprintf("(assert (= (%s nilif) 0))", tag))
			}
			if len(t.args) == 0 {
				p.decl = append(p.decl, fmt.Sprintf("(assert (= (%s %s) %d))", tag, r, 1+ctorTag(t.str)))
			} else {
				var vs, vn []string
				for i, a := range t.args {
					vs = append(vs, fmt.Sprintf("(c%d %s)", i, a.sort.smt))
					vn = append(vn, fmt.Sprintf("c%d", i))
				}
				app := fmt.Sprintf("(%s %s)", name, strings.Join(vn, " "))
				cl := []string{fmt.Sprintf("(= (%s %s) %d)", tag, app, 1+ctorTag(t.str))}
				for i, a := range t.args {
					f := fmt.Sprintf("inv%d_%s", i, name)
					p.declare("f:"+f, fmt.Sprintf("(declare-fun %s (%s) %s)", f, q, a.sort.smt))
					cl = append(cl, fmt.Sprintf("(= (%s %s) c%d)", f, app, i))
				}
				p.decl = append(p.decl, fmt.Sprintf("(assert (forall (%s) (! (and %s) :pattern (%s))))", strings.Join(vs, " "), strings.Join(cl, " "), app))
			}
		}
		return r
	}
	panic("smt: unhandled op " + t.op)
}

var (
	ctorTagMu sync.Mutex
	ctorTags  = map[string]int{}
)

func ctorTag(s string) int {
	ctorTagMu.Lock()
	defer ctorTagMu.Unlock()
	if n, ok := ctorTags[s]; ok {
		return n
	}
	ctorTags[s] = len(ctorTags) + 1
	return ctorTags[s]
}

func (p *smtPrinter) hasFreeBV(t, except *T) bool {
	found := false
	seen := map[*T]bool{}
	var walk func(x *T, bound map[*T]bool)
	walk = func(x *T, bound map[*T]bool) {
		if found || !x.hasBV || seen[x] {
			return
		}
		seen[x] = true
		if x.op == "bv" {
			if !bound[x] {
				found = true
			}
			return
		}
		switch x.op {
		case "map", "flat":
			walk(x.args[0], bound)
			b2 := map[*T]bool{x.args[1]: true}
			for k := range bound {
				b2[k] = true
			}
			walk(x.args[2], b2)
			return
		case "forall", "foralls", "lamarr":
			b2 := map[*T]bool{x.args[0]: true}
			for k := range bound {
				b2[k] = true
			}
			for _, a := range x.args[1:] {
				walk(a, b2)
			}
			return
		}
		for _, a := range x.args {
			walk(a, bound)
		}
	}
	walk(t, map[*T]bool{except: true})
	return found
}

// subterms visits every ground subterm.
func subterms(ts []*T, f func(*T)) {
	seen := map[*T]bool{}
	var w func(t *T)
	w = func(t *T) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			w(a)
		}
		f(t)
	}
	for _, t := range ts {
		w(t)
	}
}

// script builds a query that is unsatisfiable iff facts imply goal.
func (x *X) script(facts []*T, goal *T, fuel int) string {
	m := x.m
	p := &smtPrinter{m: m, defs: x.defs, done: map[*T]string{}, seen: map[string]bool{}, sorts: map[string]bool{},
		maps: map[string]bool{}, bvs: map[*T]string{}}
	p.sorts["Iface"] = false
	as := append([]*T{}, facts...)
	// Negated goal with skolemised quantifiers and sequence
	// extensionality.
	var neg []*T
	var negate func(g *T)
	negate = func(g *T) {
		switch g.op {
		case "or":
			for _, a := range g.args {
				negate(a)
			}
			return
		case "forall":
			k := x.freshSym(nil, "sk", m.IntS())
			neg = append(neg, m.Le(g.args[1], k), m.Lt(k, g.args[2]))
			negate(m.substBV(g.args[3], g.args[0], k))
			return
		case "foralls":
			k := x.freshSym(nil, "sk", g.args[0].sort)
			negate(m.substBV(g.args[1], g.args[0], k))
			return
		case "not":
			neg = append(neg, g.args[0])
			return
		case "eq":
			if g.args[0].sort.isSeq {
				a, b := g.args[0], g.args[1]
				k := x.freshSym(nil, "sk", m.IntS())
				neg = append(neg, m.Or(m.Not(m.Eq(m.Len(a), m.Len(b))),
					m.And(m.Le(m.zero, k), m.Lt(k, m.Len(a)), m.Not(m.Eq(m.At(a, k), m.At(b, k))))))
				neg = append(neg, m.Not(g))
				return
			}
		}
		neg = append(neg, m.Not(g))
	}
	negate(goal)
	as = append(as, neg...)
	// Unfold definitions.
	done := map[*T]bool{}
	for r := 0; r < fuel; r++ {
		var add []*T
		subterms(as, func(t *T) {
			if t.hasBV || done[t] {
				return
			}
			if t.op == "uf" {
				if d, ok := x.defs[t.str]; ok {
					done[t] = true
					if b := d.body(m, t.args); b != nil {
						add = append(add, m.raw("eq", "", m.Bool(), nil, t, b))
					}
				}
				for _, l := range x.lemmas {
					if a := l(m, t); a != nil {
						done[t] = true
						add = append(add, a...)
					}
				}
			} else {
				for _, l := range x.lemmas {
					if a := l(m, t); a != nil {
						done[t] = true
						add = append(add, a...)
					}
				}
			}
		})
		if len(add) == 0 {
			break
		}
		as = append(as, add...)
	}
	var asserts []string
	for _, a := range as {
		if a == m.tTrue {
			continue
		}
		e := p.pr(a)
		asserts = append(asserts, "(assert "+e+")")
	}
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	b.WriteString(strings.Join(p.decl, "\n"))
	b.WriteString("\n")
	b.WriteString(strings.Join(p.body, "\n"))
	b.WriteString("\n")
	b.WriteString(strings.Join(asserts, "\n"))
	b.WriteString("\n(check-sat)\n")
	return b.String()
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
