package main

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// A loop is cut at its header. Its state variables (phis and the heap cells
// it writes) are described as functions of the iteration number n: in closed
// form where the recurrence can be solved, as arbitrary functions of n
// otherwise, constrained by the conditions of the earlier iterations and by
// the invariants given in contracts.
type loop struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
}

type cut struct {
	loop     *loop
	active   bool
	entering bool
	onBack   func(st *State, fr *Frame, pred *ssa.BasicBlock)
	onExit   func(st *State, fr *Frame, b, pred *ssa.BasicBlock)
}

func (x *X) loops(fn *ssa.Function) map[*ssa.BasicBlock]*loop {
	if l, ok := x.loopInfo[fn]; ok {
		return l
	}
	r := map[*ssa.BasicBlock]*loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			lp := r[s]
			if lp == nil {
				lp = &loop{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
				r[s] = lp
			}
			var add func(b *ssa.BasicBlock)
			add = func(b *ssa.BasicBlock) {
				if lp.body[b] {
					return
				}
				lp.body[b] = true
				for _, p := range b.Preds {
					add(p)
				}
			}
			add(b)
		}
	}
	x.loopInfo[fn] = r
	return r
}

// ---- state variables

type leaf struct {
	path   []int
	typ    types.Type // nil for ghost cells
	sort   *Sort
	kind   string // "val", "slice", "buf"
	name   string
	closed func(n *T) *T // value (content for slices, buffers)
	init   *T
	bound  *T // fact about it
}

type stVar struct {
	phi    *ssa.Phi
	key    string
	ref    *T
	refID  string
	typ    types.Type
	sort   *Sort
	init   *T
	leaves []*leaf
}

func (v *stVar) id() string {
	if v.phi != nil {
		return "phi:" + v.phi.Name()
	}
	return v.key + "[" + v.refID + "]"
}

// refName is a name of a reference that does not depend on when its parts
// were created.
func (x *X) refName(t *T, d int) string {
	if s, ok := x.siteName[t]; ok {
		return s
	}
	switch t.op {
	case "int":
		return t.n.String()
	case "glob", "sym":
		return t.str
	case "uf", "allocf", "fp", "fld", "select", "arrref":
		if d > 3 {
			break
		}
		s := t.op + x.canon(t.str)
		if t.n != nil {
			s += t.n.String()
		}
		for _, a := range t.args {
			s += "," + x.refName(a, d+1)
		}
		return s
	}
	return fmt.Sprint(t.id)
}

var loopIDs = regexp.MustCompile(`\bL\d+\b`)

// canon replaces loop numbers in a name.
func (x *X) canon(s string) string {
	if !strings.Contains(s, "L") {
		return s
	}
	return loopIDs.ReplaceAllStringFunc(s, func(l string) string {
		if c, ok := x.canonOf[l]; ok {
			return c
		}
		return l
	})
}

func (x *X) explode(t types.Type, s *Sort, path []int, out *[]*leaf) {
	p := append([]int{}, path...)
	if t == nil {
		if s.isDT && s.name != "Slice" && len(s.fields) > 0 {
			for i, f := range s.fields {
				x.explode(nil, f, append(p, i), out)
			}
			return
		}
		*out = append(*out, &leaf{path: p, sort: s, kind: "val"})
		return
	}
	if n, ok := opaqueName(t); ok {
		k := "val"
		if n == "bytes.Buffer" || n == "bytes.Reader" {
			k = "buf"
		}
		*out = append(*out, &leaf{path: p, typ: t, sort: s, kind: k})
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		*out = append(*out, &leaf{path: p, typ: t, sort: s, kind: "slice"})
		return
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			x.explode(u.Field(i).Type(), s.fields[i], append(p, i), out)
		}
		return
	}
	*out = append(*out, &leaf{path: p, typ: t, sort: s, kind: "val"})
}

func (x *X) proj(v *T, path []int) *T {
	for _, i := range path {
		v = x.m.Fld(v, i)
	}
	return v
}

func (x *X) assemble(s *Sort, ls []*leaf, vals []*T, depth int) *T {
	if len(ls) == 1 && len(ls[0].path) == depth {
		return vals[0]
	}
	if !s.isDT {
		panic("assemble")
	}
	fs := make([]*T, len(s.fields))
	i := 0
	for k := range s.fields {
		j := i
		for j < len(ls) && ls[j].path[depth] == k {
			j++
		}
		if j == i { // empty struct
			fs[k] = x.m.Mk(s.fields[k])
			continue
		}
		fs[k] = x.assemble(s.fields[k], ls[i:j], vals[i:j], depth+1)
		i = j
	}
	return x.m.Mk(s, fs...)
}

// ---- cutting

type back struct {
	st   *State
	vals map[*ssa.Phi]*T
}

type loopRun struct {
	x         *X
	fr        *Frame
	st        *State
	lp        *loop
	pred      *ssa.BasicBlock
	id        string
	t0        int
	n         *T
	vars      []*stVar
	total     map[string]bool
	fams      map[string][]family
	modkey    map[string]bool
	bconds    func(j *T) *T // what an iteration that completes establishes
	lins      []*T          // consequences of earlier iterations on n
	run       int
	invs      []loopInv
	dead      map[string]bool
	nhav      int
	famRounds int
}

type loopInv struct {
	name string
	eval func(st *State, fr *Frame) *T
}

func (x *X) cutLoop(fr *Frame, st *State, lp *loop, pred *ssa.BasicBlock) {
	m := x.m
	x.nCuts++
	lr := &loopRun{x: x, fr: fr, st: st, lp: lp, pred: pred, id: fmt.Sprintf("L%d", x.nCuts), total: map[string]bool{},
		fams: map[string][]family{}, modkey: map[string]bool{}, dead: map[string]bool{}}
	m.clock++
	lr.t0 = m.clock
	x.canonOf[lr.id] = x.nextSite(st, fmt.Sprintf("loop@%d", x.siteID(fr.ctx, lp.head.Instrs[0])))
	lr.n = m.Sym("n"+lr.id, m.sorts["Len"], 0) // a number: what it selects is as old as where from
	i := predIndex(lp.head, pred)
	for _, p := range phisOf(lp.head) {
		lr.addVar(&stVar{phi: p, typ: p.Type(), sort: x.sort(p.Type()), init: x.normVal(p.Type(), x.val(fr, st, p.Edges[i]))})
	}
	x.quiet++
	for round := 0; ; round++ {
		if round > 14 {
			x.quiet--
			x.unsup("loop in %s does not stabilise", fr.fn)
		}
		if lr.explore() {
			continue
		}
		break
	}
	lr.findInvs()
	x.quiet--
	// The initial state must satisfy the invariants.
	for _, iv := range lr.invs {
		s2, f2 := lr.initState()
		if g := iv.eval(s2, f2); g != nil {
			x.oblige(st, "invariant established:"+iv.name, x.posB(lp.head), g)
		}
	}
	hs, hf := lr.head(true)
	for _, iv := range lr.invs {
		if g := iv.eval(hs, hf); g != nil {
			hs.assume(g)
		}
	}
	c := &cut{loop: lp, active: true, entering: true}
	c.onBack = func(bs *State, bf *Frame, pred *ssa.BasicBlock) {
		f2 := bf.clone()
		x.phis(f2, bs, lp.head, pred)
		for _, iv := range lr.invs {
			if g := iv.eval(bs, f2); g != nil {
				x.oblige(bs, "invariant preserved:"+iv.name, x.posB(lp.head), g)
			}
		}
	}
	c.onExit = func(s *State, f *Frame, b, pred *ssa.BasicBlock) {
		f2 := f.clone()
		delete(f2.cuts, lp.head)
		delete(f2.unroll, lp.head)
		x.block(f2, s, b, pred)
	}
	hf.cuts[lp.head] = c
	if x.quiet == 0 {
		x.nLoops++
		x.noteLoop(lr)
	}
	x.block(hf, hs, lp.head, nil)
}

func (x *X) posB(b *ssa.BasicBlock) string {
	for _, i := range b.Instrs {
		if i.Pos().IsValid() {
			return x.pos(i)
		}
	}
	return b.Parent().String()
}

func (x *X) noteLoop(lr *loopRun) {
	var sol, uns []string
	for _, v := range lr.vars {
		for _, l := range v.leaves {
			n := v.id()
			if v.phi != nil {
				n = v.phi.Comment
			}
			if l.closed != nil {
				sol = append(sol, n)
			} else {
				uns = append(uns, n)
			}
		}
	}
	var inv []string
	for _, i := range lr.invs {
		inv = append(inv, i.name)
	}
	s := fmt.Sprintf("%s at %s: solved %v, unsolved %v, invariants %v", lr.fr.fn, x.posB(lr.lp.head), sol, uns, inv)
	if !x.loopSeen[s] {
		x.loopSeen[s] = true
		x.loopLog = append(x.loopLog, s)
	}
}

func (lr *loopRun) addVar(v *stVar) {
	x := lr.x
	if v.phi == nil {
		v.refID = x.refName(v.ref, 0)
		for _, o := range lr.vars {
			if o.phi == nil && o.key == v.key && o.refID == v.refID {
				v.refID = fmt.Sprint(v.ref.id)
			}
		}
	}
	x.explode(v.typ, v.sort, nil, &v.leaves)
	for i, l := range v.leaves {
		l.name = fmt.Sprintf("lv:%s.%s.%d", lr.id, v.id(), i)
		x.m.genTime[l.name] = lr.t0
		p := x.proj(v.init, l.path)
		switch l.kind {
		case "slice":
			l.init = x.content(lr.st, p, l.typ.Underlying().(*types.Slice).Elem())
		case "buf":
			l.init = x.bufContent(p)
		default:
			l.init = p
		}
	}
	lr.vars = append(lr.vars, v)
}

func (lr *loopRun) initState() (*State, *Frame) {
	f2 := lr.fr.clone()
	s2 := lr.st.clone()
	lr.x.phis(f2, s2, lr.lp.head, lr.pred)
	return s2, f2
}

// head builds the state at the loop header in iteration n.
func (lr *loopRun) head(final bool) (*State, *Frame) {
	x, m := lr.x, lr.x.m
	lr.run++
	st := lr.st.clone()
	fr := lr.fr.clone()
	n := lr.n
	// Heap: havoc what the loop writes.
	var keys []string
	for k := range lr.modkey {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		base := x.h(st, k, lr.keyElem(k))
		if lr.total[k] {
			nm := "lv:" + lr.id + ".heap." + k
			m.genTime[nm] = lr.t0
			st.heap[k] = m.UF(nm, base.sort, n)
			continue
		}
		hid := fmt.Sprintf("%s.%s.%d", lr.id, k, lr.run)
		m.havFam[hid] = lr.fams[k]
		st.heap[k] = m.Hav(base, hid, lr.t0, nil)
	}
	st.assume(m.Le(m.zero, n))
	for _, v := range lr.vars {
		vals := make([]*T, len(v.leaves))
		for i, l := range v.leaves {
			vals[i] = lr.leafVal(st, v, l, n)
		}
		val := x.assemble(v.sort, v.leaves, vals, 0)
		if v.phi != nil {
			fr.env[v.phi] = val
			continue
		}
		base := x.h(st, v.key, v.sort)
		st.heap[v.key] = m.Store(base, v.ref, val)
	}
	for _, l := range lr.lins {
		st.assume(l)
	}
	if lr.bconds != nil {
		j := m.FreshBV(m.IntS(), 0)
		st.assume(m.Forall(j, m.zero, n, lr.bconds(j)))
	}
	return st, fr
}

func (lr *loopRun) leafVal(st *State, v *stVar, l *leaf, n *T) *T {
	x, m := lr.x, lr.x.m
	switch l.kind {
	case "slice":
		et := l.typ.Underlying().(*types.Slice).Elem()
		cs := m.seqOf(x.sort(et), -1)
		var c *T
		if l.closed != nil {
			c = l.closed(n)
			if c == l.init {
				return x.proj(v.init, l.path)
			}
		} else {
			c = m.UF(l.name, cs, n)
		}
		r := x.alloc(nil, "loopslice")
		r.time = lr.t0
		x.siteName[r] = "ls:" + x.canon(l.name)
		x.frozen[r] = true
		pinit := x.proj(v.init, l.path)
		if x.normSlice(pinit).op != "mk" || !isObj(x.normSlice(pinit).args[0]) {
			nm := l.name + ".nil"
			m.genTime[nm] = lr.t0
			if l.closed != nil {
				x.maybeNil[r] = m.And(m.Eq(n, m.zero), m.Eq(m.Fld(x.normSlice(pinit), 0), m.zero))
			} else {
				x.maybeNil[r] = m.UF(nm, m.Bool(), n)
				st.assume(m.Imp(x.maybeNil[r], m.Eq(m.Len(c), m.zero)))
			}
		}
		k := "A:" + x.hkey(et)
		st.heap[k] = m.Store(x.h(st, k, cs), r, c)
		ln := m.Len(c)
		if hasSum(ln) {
			// It is in memory.
			st.assume(m.Le(ln, m.IntB(maxLen)))
		}
		return m.Mk(m.sliceSort(), r, m.zero, ln, ln)
	case "buf":
		on, _ := opaqueName(l.typ)
		if l.closed != nil {
			return x.bufMk(on, l.closed(n))
		}
		return x.bufMk(on, m.UF(l.name, m.byteSeq(), n))
	}
	if l.closed != nil {
		return l.closed(n)
	}
	r := m.UF(l.name, l.sort, n)
	if l.typ != nil {
		r = x.normVal(l.typ, r)
	}
	if l.bound != nil {
		st.assume(m.Subst(l.bound, map[*T]*T{lr.n: n}))
	}
	return r
}

func isObj(t *T) bool {
	return t.op == "alloc" || t.op == "arrref" || t.op == "vref" || t.op == "allocf"
}

func (lr *loopRun) keyElem(k string) *Sort {
	if s, ok := lr.x.keySort[k]; ok {
		return s
	}
	panic("no sort for heap " + k)
}

// explore runs one generic iteration and updates what is known about the
// loop. It returns true if anything changed.
func (lr *loopRun) explore() bool {
	x := lr.x
	hs, hf := lr.head(false)
	for _, iv := range lr.invs {
		if g := iv.eval(hs, hf); g != nil {
			hs.assume(g)
		}
	}
	nc, nf := len(hs.conds), len(hs.f.list)
	headHeap := map[string]*T{}
	for k, v := range hs.heap {
		headHeap[k] = v
	}
	var backs []back
	c := &cut{loop: lr.lp, active: true, entering: true}
	c.onBack = func(bs *State, bf *Frame, pred *ssa.BasicBlock) {
		if len(bs.spawned) != len(hs.spawned) {
			x.unsup("goroutines started in a loop")
		}
		b := back{st: bs, vals: map[*ssa.Phi]*T{}}
		i := predIndex(lr.lp.head, pred)
		for _, p := range phisOf(lr.lp.head) {
			b.vals[p] = x.normVal(p.Type(), x.val(bf, bs, p.Edges[i]))
		}
		backs = append(backs, b)
	}
	c.onExit = func(*State, *Frame, *ssa.BasicBlock, *ssa.BasicBlock) {}
	hf.cuts[lr.lp.head] = c
	hf.k = func(*State, []*T) {}
	hf.stop = nil
	x.block(hf, hs, lr.lp.head, nil)
	if len(backs) == 0 {
		return false
	}
	return lr.learn(headHeap, backs, nc, nf)
}

// heapDiff is what was written on top of the head's array.
func heapDiff(b *T) (keys, vals []*T, base *T) {
	seen := map[*T]bool{}
	for b.op == "store" {
		if !seen[b.args[1]] {
			seen[b.args[1]] = true
			keys = append(keys, b.args[1])
			vals = append(vals, b.args[2])
		}
		b = b.args[0]
	}
	return keys, vals, b
}

func (lr *loopRun) learn(headHeap map[string]*T, backs []back, nc, nf int) bool {
	x, m := lr.x, lr.x.m
	changed := false
	// 1. heap
	allKeys := map[string]bool{}
	for _, b := range backs {
		for k := range b.st.heap {
			allKeys[k] = true
		}
	}
	conds := make([]*T, len(backs))
	for i, b := range backs {
		conds[i] = m.And(b.st.conds[nc:]...)
	}
	conds = dropCommon(m, conds)
	fams := map[string][]family{}
	addFam := func(k string, bi int, g, v *T) {
		// g is AllocF(name, p..., n)
		for i := range fams[k] {
			f := &fams[k][i]
			if f.name != g.str || len(f.params) != len(g.args) {
				continue
			}
			sub := map[*T]*T{}
			for i, a := range g.args {
				sub[a] = f.params[i]
			}
			f.val = m.Ite(m.Subst(lr.abstr(conds[bi]), sub), m.Subst(lr.abstr(v), sub), f.val)
			return
		}
		sub := map[*T]*T{}
		var ps []*T
		for _, a := range g.args {
			p := m.FreshBV(m.IntS(), 0)
			sub[a] = p
			ps = append(ps, p)
		}
		fams[k] = append(fams[k], family{name: g.str, params: ps, val: m.Subst(lr.abstr(v), sub)})
	}
	for _, k := range sortedSet(allKeys) {
		hh, inHead := headHeap[k]
		for bi, b := range backs {
			bh, ok := b.st.heap[k]
			if !ok || inHead && bh == hh {
				continue
			}
			if !inHead {
				hh = m.Sym("H0:"+k, bh.sort, 0)
			}
			keys, havs, base := lr.heapDiff(bh)
			_, _, hbase := lr.heapDiff(hh)
			if base != hbase {
				if !lr.total[k] {
					lr.total[k], lr.modkey[k] = true, true
					x.keySort[k] = bh.sort.elem
					changed = true
				}
				continue
			}
			for _, h := range havs {
				for _, f := range m.havFam[h.str] {
					if !lr.modkey[k] {
						lr.modkey[k] = true
						x.keySort[k] = bh.sort.elem
						changed = true
					}
					o := m.AllocF(f.name, f.params...)
					addFam(k, bi, lr.abstr(o), m.Select(bh, o))
				}
			}
			for _, kk := range keys {
				hv, val := m.Select(hh, kk), m.Select(bh, kk)
				if hv == val {
					continue
				}
				if x.frozen[kk] && kk.time == lr.t0 {
					continue
				}
				if !lr.modkey[k] {
					lr.modkey[k] = true
					x.keySort[k] = bh.sort.elem
					changed = true
				}
				switch {
				case (kk.op == "alloc" || kk.op == "allocf") && kk.time > lr.t0:
					// frozen accumulators of inner loops are objects too
					g := lr.abstr(kk)
					if g.op != "allocf" || len(g.args) != 1 || g.args[0] != lr.n {
						if !lr.total[k] {
							lr.total[k] = true
							changed = true
						}
						continue
					}
					addFam(k, bi, g, val)
				case kk.time < lr.t0 || kk.time == lr.t0 && lr.isStable(kk):
					found := false
					for _, v := range lr.vars {
						if v.phi == nil && v.key == k && v.ref == kk {
							found = true
						}
					}
					if !found && !lr.total[k] {
						t := x.keyType[k]
						es := bh.sort.elem
						base := x.h(lr.st, k, es)
						lr.addVar(&stVar{key: k, ref: kk, typ: t, sort: es, init: m.Select(base, kk)})
						changed = true
					}
				default:
					if !lr.total[k] {
						if debugLoop {
							fmt.Printf("LOOP %s: total havoc of %s because of key %v\n", lr.fr.fn, k, kk)
						}
						lr.total[k] = true
						changed = true
					}
				}
			}
		}
	}
	// Drop cells of totally havocked arrays.
	var vs []*stVar
	for _, v := range lr.vars {
		if v.phi == nil && lr.total[v.key] {
			changed = true
			continue
		}
		vs = append(vs, v)
	}
	lr.vars = vs
	if changed {
		lr.fams = map[string][]family{}
		return true
	}
	// 2. recurrences
	step := func(v *stVar, b back) *T {
		if v.phi != nil {
			return b.vals[v.phi]
		}
		return m.Select(x.h(b.st, v.key, v.sort), v.ref)
	}
	for _, v := range lr.vars {
		for li, l := range v.leaves {
			_ = li
			if l.closed != nil || lr.dead[l.name] {
				continue
			}
			var s *T
			for i := len(backs) - 1; i >= 0; i-- {
				b := backs[i]
				w := x.proj(step(v, b), l.path)
				switch l.kind {
				case "slice":
					w = x.content(b.st, w, l.typ.Underlying().(*types.Slice).Elem())
				case "buf":
					w = x.bufContent(w)
				}
				if s == nil {
					s = w
				} else {
					s = m.Ite(conds[i], w, s)
				}
			}
			var cur *T
			switch l.kind {
			case "slice":
				cur = m.UF(l.name, m.seqOf(x.sort(l.typ.Underlying().(*types.Slice).Elem()), -1), lr.n)
			case "buf":
				cur = m.UF(l.name, m.byteSeq(), lr.n)
			default:
				cur = m.UF(l.name, l.sort, lr.n)
			}
			if cl := lr.solve(l, cur, s); cl != nil {
				l.closed = cl
				changed = true
				if debugLoop {
					fmt.Printf("LOOP %s: %s solved: %v\n", lr.fr.fn, v.id(), cl(lr.n))
				}
			} else if debugLoop {
				fmt.Printf("LOOP %s: %s (%s) unsolved: step %v\n", lr.fr.fn, v.id(), l.kind, s)
			}
			if l.closed == nil && isInt(cur) && l.bound == nil {
				// monotone?
				d := m.Sub(s, cur)
				lo, hi := m.Range(d, nil)
				if lo != nil && lo.Sign() >= 0 {
					l.bound = m.Le(l.init, cur)
					changed = true
				} else if hi != nil && hi.Sign() <= 0 {
					l.bound = m.Le(cur, l.init)
					changed = true
				}
			}
		}
	}
	// 3. what completed iterations establish
	var alts []*T
	for _, b := range backs {
		var cs []*T
		for _, f := range b.st.f.list[nf:] {
			if len(f.fbv) > 0 {
				continue
			}
			cs = append(cs, f)
		}
		if len(cs) > 60 {
			cs = append([]*T{}, b.st.conds[nc:]...)
		}
		alts = append(alts, m.And(cs...))
	}
	if len(alts) > 12 {
		for i, b := range backs {
			alts[i] = m.And(b.st.conds[nc:]...)
		}
	}
	body := lr.abstr(m.Or(alts...))
	n := lr.n
	lr.bconds = func(j *T) *T { return m.Subst(body, map[*T]*T{n: j}) }
	var lins []*T
	collect := body
	cj := []*T{collect}
	if collect.op == "and" {
		cj = collect.args
	}
	for _, c := range cj {
		if c.op != "le0" {
			continue
		}
		l := c.args[0]
		// coefficient of n positive and no other dependence on n
		cf, other := coefOf(m, l, n)
		if cf == nil || cf.Sign() <= 0 || dependsOn(other, n) {
			continue
		}
		prev := m.Subst(l, map[*T]*T{n: m.AddC(n, -1)})
		at0 := m.Subst(prev, map[*T]*T{n: m.zero})
		if lr.st.f.Decide(m.raw("le0", "", m.Bool(), nil, at0)) == 1 || m.le0(at0) == m.tTrue {
			lins = append(lins, m.le0(prev))
		} else {
			lins = append(lins, m.Or(m.Eq(n, m.zero), m.le0(prev)))
		}
	}
	if len(lins) != len(lr.lins) {
		changed = true
	}
	lr.lins = lins
	// Families, now in terms of the closed forms.
	if a, b := lr.famKeyStr(fams), lr.famKeyStr(lr.fams); a != b && lr.famRounds < 6 {
		lr.famRounds++
		changed = true
	}
	lr.fams = fams
	return changed
}

func (lr *loopRun) famKeyStr(fs map[string][]family) string {
	m := lr.x.m
	var b strings.Builder
	for _, k := range sortedKeys(fs) {
		for _, f := range fs[k] {
			sub := map[*T]*T{}
			for i, p := range f.params {
				sub[p] = m.Sym(fmt.Sprintf("param%d", i), p.sort, 0)
			}
			fmt.Fprintf(&b, "%s %s %d;", k, f.name, m.Subst(f.val, sub).id)
		}
	}
	return b.String()
}

// isStable: a reference built from this loop's own frozen slices.
func (lr *loopRun) isStable(k *T) bool { return false }

func coefOf(m *TM, l, n *T) (*big.Int, *T) {
	if l == n {
		return bigOne, m.zero
	}
	if l.op != "lin" {
		return nil, nil
	}
	for i, a := range l.args {
		if a == n {
			return l.coefs[i], m.Sub(l, m.MulC(n, l.coefs[i]))
		}
	}
	return nil, nil
}

func dependsOn(t, v *T) bool {
	seen := map[*T]bool{}
	var w func(t *T) bool
	w = func(t *T) bool {
		if t == v {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if w(a) {
				return true
			}
		}
		return false
	}
	return w(t)
}

// heapDiff is what was written on top of the head's array: the keys stored
// to, and what inner loops havocked.
func (lr *loopRun) heapDiff(b *T) (keys, havs []*T, base *T) {
	seen := map[*T]bool{}
	for {
		switch {
		case b.op == "store":
			if !seen[b.args[1]] {
				seen[b.args[1]] = true
				keys = append(keys, b.args[1])
			}
			b = b.args[0]
			continue
		case b.op == "hav" && int(b.n.Int64()) > lr.t0 && len(b.args) == 1:
			havs = append(havs, b)
			b = b.args[0]
			continue
		}
		return keys, havs, b
	}
}

func sortedSet(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// abstr renames everything created during the iteration to functions of the
// iteration number.
func (lr *loopRun) abstr(t *T) *T {
	x, m := lr.x, lr.x.m
	n := lr.n
	if lr.fams == nil {
		lr.fams = map[string][]family{}
	}
	memo := map[*T]*T{}
	return m.rewrite(t, func(s *T) *T {
		if s.time <= lr.t0 && !s.hasBV && len(s.args) == 0 {
			return s
		}
		switch s.op {
		case "alloc":
			if s.time > lr.t0 {
				nm := lr.famName("af:", s)
				if c, ok := x.maybeNil[s]; ok {
					if _, ok := x.maybeNilF[nm]; !ok {
						p := m.FreshBV(m.IntS(), 0)
						x.maybeNilF[nm] = nilFam{[]*T{p}, m.Subst(lr.abstr(c), map[*T]*T{n: p})}
					}
				}
				return m.AllocF(nm, n)
			}
		case "sym":
			if s.time > lr.t0 && s != n {
				return m.UF(lr.famName("symf:", s), s.sort, n)
			}
		case "allocf", "uf":
			if g, ok := m.genTime[s.str]; ok && g > lr.t0 {
				nm := lr.famName("", s)
				if f, ok := x.maybeNilF[s.str]; ok && s.op == "allocf" {
					if _, ok := x.maybeNilF[nm]; !ok {
						p := m.FreshBV(m.IntS(), 0)
						x.maybeNilF[nm] = nilFam{append(append([]*T{}, f.params...), p), m.Subst(lr.abstr(f.cond), map[*T]*T{n: p})}
					}
				}
				as := make([]*T, 0, len(s.args)+1)
				for _, a := range s.args {
					as = append(as, lr.abstr(a))
				}
				as = append(as, n)
				return m.raw(s.op, nm, s.sort, nil, as...)
			}
		case "hav":
			if int(s.n.Int64()) > lr.t0 {
				return m.UF(lr.famName("symf:", s), s.sort, n)
			}
		}
		return nil
	}, memo)
}

var havRun = regexp.MustCompile(`\.\d+$`)

// famName names what iteration n creates as s, as a function of n.
func (lr *loopRun) famName(kind string, s *T) string {
	x := lr.x
	nm, ok := x.siteName[s]
	if !ok {
		nm = x.canon(s.str)
		if s.op == "hav" {
			nm = havRun.ReplaceAllString(nm, "")
		}
	}
	nm = kind + lr.id + ":" + nm
	if s.op == "hav" {
		nm += "/" + s.args[0].sort.name
	}
	x.m.genTime[nm] = lr.t0
	return nm
}

// solve finds a closed form for the recurrence cur(n+1) = s, cur(0) = init.
func (lr *loopRun) solve(l *leaf, cur, s *T) func(n *T) *T {
	m := lr.x.m
	n := lr.n
	if s == cur {
		init := l.init
		return func(*T) *T { return init }
	}
	ok := func(t *T) bool { return !lr.dependsOnVars(t) }
	switch {
	case isInt(cur):
		d := m.Sub(s, cur)
		if d.op == "int" {
			init := l.init
			return func(k *T) *T { return m.Add(init, m.MulC(k, d.n)) }
		}
		// A 64-bit counter that moves by one cannot wrap: the number of
		// iterations is bounded (sort Len), and so is its start.
		if s.op == "wrap" && (s.str == "s64" || s.str == "u64") {
			d := m.Sub(s.args[0], cur)
			lo, hi := m.Range(l.init, lr.st.f)
			half := new(big.Int).Lsh(bigOne, 62)
			if d.op == "int" && d.n.CmpAbs(bigOne) == 0 && lo != nil && hi != nil && hi.Cmp(half) < 0 &&
				(s.str == "s64" && new(big.Int).Neg(half).Cmp(lo) < 0 || s.str == "u64" && d.n.Sign() > 0) {
				init := l.init
				return func(k *T) *T { return m.Add(init, m.MulC(k, d.n)) }
			}
		}
		// A sum.
		w := s
		if s.op == "wrap" {
			w = s.args[0]
		}
		if g := m.Sub(w, cur); m.ge0(g) {
			g = lr.abstr(g)
			if !ok(g) {
				return nil
			}
			init := l.init
			return func(k *T) *T {
				bv := m.FreshBV(m.IntS(), g.time)
				r := m.Add(init, m.Sum(m.zero, k, bv, m.Subst(g, map[*T]*T{n: bv})))
				if s.op == "wrap" {
					r = m.Wrap(r, s.str, nil)
				}
				return r
			}
		}
	case cur.sort.isSeq:
		if s.op == "cat" && s.args[0] == cur {
			tail := lr.abstr(m.Cat(s.sort, s.args[1:]...))
			if !ok(tail) {
				return nil
			}
			init := l.init
			return func(k *T) *T {
				bv := m.FreshBV(m.IntS(), tail.time)
				return m.Cat(s.sort, init, m.Flat(m.RangeSeq(m.zero, k), bv, m.Subst(tail, map[*T]*T{n: bv})))
			}
		}
		if s.op == "sub" && s.args[0] == cur && s.args[2] == m.Len(cur) && s.args[1].op == "int" {
			d := s.args[1].n
			init := l.init
			return func(k *T) *T { return m.SubSeq(init, m.MulC(k, d), m.Len(init)) }
		}
		// cur[n+c] = v
		if s.op == "upd" && s.args[0] == cur {
			c := m.Sub(s.args[1], n)
			// What is about to be overwritten is still what it was at the start.
			sub := map[*T]*T{m.At(cur, s.args[1]): m.At(l.init, s.args[1]), m.Len(cur): m.Len(l.init)}
			v := lr.abstr(m.Subst(s.args[2], sub))
			if debugLoop && !ok(v) {
				subterms([]*T{v}, func(t *T) {
					if t.op == "uf" && strings.HasPrefix(t.str, "lv:"+lr.id+".") || t.op == "hav" && strings.HasPrefix(t.str, lr.id+".") {
						fmt.Printf("LOOP depends on %v\n", t)
					}
				})
			}
			if lo, _ := m.Range(c, lr.st.f); lo != nil && lo.Sign() >= 0 && ok(c) && !dependsOn(c, n) && ok(v) {
				init := l.init
				return func(k *T) *T {
					bv := m.FreshBV(m.IntS(), v.time)
					return m.Cat(s.sort, m.SubSeq(init, m.zero, c), m.Map(m.RangeSeq(m.zero, k), bv, m.Subst(v, map[*T]*T{n: bv})), m.SubSeq(init, m.Add(c, k), m.Len(init)))
				}
			}
		}
		// cur[k*n+c] = v0, …, cur[k*n+c+k-1] = vk-1
		if s.op == "upd" && s.args[0].op == "upd" {
			var us []*T
			u := s
			for ; u.op == "upd"; u = u.args[0] {
				us = append([]*T{u}, us...)
			}
			k := int64(len(us))
			c := m.Sub(us[0].args[1], m.MulC(n, big.NewInt(k)))
			good := u == cur && ok(c) && !dependsOn(c, n)
			if lo, _ := m.Range(c, lr.st.f); lo == nil || lo.Sign() < 0 {
				good = false
			}
			var vs []*T
			for j, u := range us {
				if m.Sub(u.args[1], us[0].args[1]) != m.Int64(int64(j)) {
					good = false
				}
				v := lr.abstr(u.args[2])
				good = good && ok(v)
				vs = append(vs, m.Unit(s.sort, v))
			}
			if good {
				init := l.init
				return func(i *T) *T {
					body := m.Cat(s.sort, vs...)
					bv := m.FreshBV(m.IntS(), body.time)
					return m.Cat(s.sort, m.SubSeq(init, m.zero, c), m.Flat(m.RangeSeq(m.zero, i), bv, m.Subst(body, map[*T]*T{n: bv})), m.SubSeq(init, m.Add(c, m.MulC(i, big.NewInt(k))), m.Len(init)))
				}
			}
		}
	default:
		// value overwritten by a function of n
	}
	if !lr.dependsOnVars(s) {
		// cur(n) = s(n-1) for n > 0
		v := lr.abstr(s)
		init := l.init
		if !dependsOn(v, n) && v == init {
			return func(*T) *T { return init }
		}
	}
	return nil
}

// dependsOnVars: t mentions an unsolved state variable of this loop.
func (lr *loopRun) dependsOnVars(t *T) bool {
	pre := "lv:" + lr.id + "."
	seen := map[*T]bool{}
	var w func(t *T) bool
	w = func(t *T) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.op == "uf" && strings.HasPrefix(t.str, pre) && !strings.HasSuffix(t.str, ".nil") {
			return true
		}
		if t.op == "hav" && strings.HasPrefix(t.str, lr.id+".") {
			return true
		}
		for _, a := range t.args {
			if w(a) {
				return true
			}
		}
		return false
	}
	return w(t)
}

var debugLoop bool

// ---- invariants from contracts

func (lr *loopRun) findInvs() {
	x := lr.x
	m := x.m
	var cands []loopInv
	fns := append([]*ssa.Function{}, x.invs[lr.fr.fn.String()]...)
	if lr.fr.fn.Pkg != nil {
		fns = append(fns, x.poolInvs[lr.fr.fn.Pkg.Pkg.Path()]...)
	}
	unsolved := false
	for _, v := range lr.vars {
		for _, l := range v.leaves {
			if l.closed == nil {
				unsolved = true
			}
		}
	}
	if !unsolved && len(lr.total) == 0 {
		return
	}
	for _, f := range fns {
		cands = append(cands, lr.instances(f)...)
	}
	if len(cands) == 0 {
		return
	}
	// Initially true?
	var keep []loopInv
	s0, f0 := lr.initState()
	for _, c := range cands {
		g := c.eval(s0, f0)
		if g != nil && x.provable(s0, g) {
			keep = append(keep, c)
		} else if debugLoop {
			fmt.Printf("INV %s not initially true: %v\n", c.name, g)
		}
	}
	for len(keep) > 0 {
		lr.invs = keep
		for lr.explore() {
		}
		hs, hf := lr.head(false)
		for _, c := range keep {
			if g := c.eval(hs, hf); g != nil {
				hs.assume(g)
			}
		}
		bad := map[string]bool{}
		c := &cut{loop: lr.lp, active: true, entering: true}
		c.onBack = func(bs *State, bf *Frame, pred *ssa.BasicBlock) {
			f2 := bf.clone()
			x.phis(f2, bs, lr.lp.head, pred)
			for _, iv := range keep {
				if bad[iv.name] {
					continue
				}
				g := iv.eval(bs, f2)
				if g == nil || !x.provable(bs, g) {
					if debugLoop {
						fmt.Printf("INV %s not preserved: %v\n", iv.name, g)
					}
					bad[iv.name] = true
				}
			}
		}
		c.onExit = func(*State, *Frame, *ssa.BasicBlock, *ssa.BasicBlock) {}
		hf.cuts[lr.lp.head] = c
		hf.k = func(*State, []*T) {}
		hf.stop = nil
		x.block(hf, hs, lr.lp.head, nil)
		if len(bad) == 0 {
			break
		}
		var k2 []loopInv
		for _, iv := range keep {
			if !bad[iv.name] {
				k2 = append(k2, iv)
			}
		}
		keep = k2
	}
	lr.invs = keep
	_ = m
}

// provable asks the simplifier, then the solver.
func (x *X) provable(st *State, g *T) bool {
	if g == x.m.tTrue || st.f.Decide(g) == 1 {
		return true
	}
	if g == x.m.tFals {
		return false
	}
	s := st.f.Simp(g)
	if s == x.m.tTrue || st.f.Decide(s) == 1 {
		return true
	}
	subs, ok := x.breakdown(st.f.list, s, 8*time.Second)
	if !ok || len(subs) > 12 {
		if debugLoop {
			fmt.Printf("INV breakdown %v %d\n", ok, len(subs))
		}
		return false
	}
	for _, b := range subs {
		if runSolver(x.script(b.facts, b.goal, 2), 3000, 1).res != "unsat" {
			if debugLoop {
				fmt.Printf("INV sub %v\n", b.goal)
				for _, f := range b.facts {
					fmt.Printf("   fact %v\n", f)
				}
			}
			return false
		}
	}
	return true
}

// instances matches the parameters of invariant f, by type, with the values
// available at the loop head.
func (lr *loopRun) instances(f *ssa.Function) []loopInv {
	x := lr.x
	var pools [][]ssa.Value
	for _, p := range f.Params {
		var vs []ssa.Value
		name := p.Name()
		want := tkey(p.Type())
		if strings.HasPrefix(name, "arg") || strings.HasPrefix(name, "old") {
			for _, q := range lr.fr.fn.Params {
				if tkey(q.Type()) == want {
					vs = append(vs, q)
				}
			}
			for _, q := range lr.fr.fn.FreeVars {
				if tkey(q.Type()) == want {
					vs = append(vs, q)
				}
			}
			var extra []ssa.Value
			for v := range lr.fr.env {
				if _, ok := v.(*ssa.Parameter); ok {
					continue
				}
				if in, ok := v.(ssa.Instruction); ok && in.Parent() == lr.fr.fn && tkey(v.Type()) == want && !lr.lp.body[in.Block()] && in.Block().Dominates(lr.lp.head) {
					extra = append(extra, v)
				}
			}
			sort.Slice(extra, func(i, j int) bool { return extra[i].Name() < extra[j].Name() })
			vs = append(vs, extra...)
		} else {
			for _, q := range phisOf(lr.lp.head) {
				if tkey(q.Type()) == want {
					vs = append(vs, q)
				}
			}
		}
		if len(vs) == 0 {
			return nil
		}
		pools = append(pools, vs)
	}
	var out []loopInv
	var rec func(i int, cur []ssa.Value)
	rec = func(i int, cur []ssa.Value) {
		if len(out) > 24 {
			return
		}
		if i == len(pools) {
			sel := append([]ssa.Value{}, cur...)
			nm := f.Name() + "("
			for k, v := range sel {
				if k > 0 {
					nm += ","
				}
				nm += v.Name()
			}
			nm += ")"
			out = append(out, loopInv{name: nm, eval: func(st *State, fr *Frame) *T {
				var as []*T
				for _, v := range sel {
					as = append(as, x.val(fr, st, v))
				}
				return x.evalPure1(st, f, as)
			}})
			return
		}
		for _, v := range pools[i] {
			rec(i+1, append(cur, v))
		}
	}
	rec(0, nil)
	return out
}

// dropCommon drops the conjuncts that all of cs have: they do not tell the
// cases apart.
func dropCommon(m *TM, cs []*T) []*T {
	if len(cs) < 2 {
		return cs
	}
	parts := func(c *T) []*T {
		if c.op == "and" {
			return c.args
		}
		return []*T{c}
	}
	n := map[*T]int{}
	for _, c := range cs {
		for _, p := range parts(c) {
			n[p]++
		}
	}
	out := make([]*T, len(cs))
	for i, c := range cs {
		var ps []*T
		for _, p := range parts(c) {
			if n[p] < len(cs) {
				ps = append(ps, p)
			}
		}
		out[i] = m.And(ps...)
	}
	return out
}
