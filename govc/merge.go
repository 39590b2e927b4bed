package main

import (
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Merging joins the two arms of a conditional at its immediate
// post-dominator instead of exploring them separately to the end.

// joinOf is the block where the arms of the branch at b meet, if that
// region is free of loops and leaves only through the join or by returning.
func (x *X) joinOf(fn *ssa.Function, b *ssa.BasicBlock) *ssa.BasicBlock {
	key := b
	if j, ok := x.joins[key]; ok {
		return j
	}
	x.joins[key] = nil
	reach := func(from *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
		r := map[*ssa.BasicBlock]bool{}
		var w func(b *ssa.BasicBlock)
		w = func(b *ssa.BasicBlock) {
			if r[b] {
				return
			}
			r[b] = true
			for _, s := range b.Succs {
				w(s)
			}
		}
		w(from)
		return r
	}
	if x.loops(fn)[b] != nil {
		return nil
	}
	r1, r2 := reach(b.Succs[0]), reach(b.Succs[1])
	// Candidates: blocks reachable from both, dominated by b, such that all
	// other common blocks are reachable from it.
	var best *ssa.BasicBlock
	for _, c := range fn.Blocks {
		if !r1[c] || !r2[c] || !b.Dominates(c) {
			continue
		}
		rc := reach(c)
		ok := true
		for _, d := range fn.Blocks {
			if r1[d] && r2[d] && !rc[d] {
				ok = false
			}
		}
		if ok && !rc[b] {
			// Last candidate is not unique only in loops.
			if best == nil || reach(c)[best] {
				best = c
			}
		}
	}
	if best == nil {
		return nil
	}
	// Small regions only.
	n := 0
	for _, c := range fn.Blocks {
		if (r1[c] || r2[c]) && !reach(best)[c] {
			n++
			if x.loops(fn)[c] != nil {
				return nil
			}
		}
	}
	if n > 12 {
		return nil
	}
	x.joins[key] = best
	return best
}

type arm struct {
	fr   *Frame
	st   *State
	pred *ssa.BasicBlock
}

func (x *X) mergeIf(fr *Frame, st *State, b *ssa.BasicBlock, c *T, j *ssa.BasicBlock) {
	m := x.m
	var arms []arm
	oldStop, oldOn := fr.stop, fr.onStop
	stop := func(f *Frame, s *State, pred *ssa.BasicBlock) { arms = append(arms, arm{f, s, pred}) }
	n0, nf0 := len(st.conds), len(st.f.list)
	base := st.clone()
	run := func(s *State, to *ssa.BasicBlock, lit *T) {
		f2 := fr.clone()
		f2.stop, f2.onStop = j, stop
		if s.branch(lit) {
			x.block(f2, s, to, b)
		}
	}
	s2 := st.clone()
	run(st, b.Succs[0], c)
	run(s2, b.Succs[1], m.Not(c))
	if len(arms) == 0 {
		return
	}
	phis := phisOf(j)
	finish := func(f *Frame, s *State, vals map[*ssa.Phi]*T) {
		f.stop, f.onStop = oldStop, oldOn
		if oldStop == j {
			// The enclosing region ends here as well: values of phis are
			// passed through a pseudo predecessor.
			oldOn2 := oldOn
			_ = oldOn2
		}
		for p, v := range vals {
			f.env[p] = v
		}
		if x.stopHere(f, j) {
			x.unsup("nested merge at one join")
		}
		x.instrs(f, s, j, len(phis))
	}
	phiVals := func(a arm) map[*ssa.Phi]*T {
		r := map[*ssa.Phi]*T{}
		i := predIndex(j, a.pred)
		for _, p := range phis {
			r[p] = x.normVal(p.Type(), x.val(a.fr, a.st, p.Edges[i]))
		}
		return r
	}
	if oldStop == j || len(arms) == 1 || !x.mergeable(fr, arms) {
		for _, a := range arms {
			if oldStop == j {
				a.fr.stop, a.fr.onStop = oldStop, oldOn
				oldOn(a.fr, a.st, a.pred)
				continue
			}
			a.fr.stop, a.fr.onStop = oldStop, oldOn
			finish(a.fr, a.st, phiVals(a))
		}
		return
	}
	var sts []*State
	for _, a := range arms {
		sts = append(sts, a.st)
	}
	res, conds := x.joinStates(base, n0, nf0, sts)
	pick := func(get func(a arm) *T) *T {
		v := get(arms[len(arms)-1])
		for i := len(arms) - 2; i >= 0; i-- {
			v = m.Ite(conds[i], get(arms[i]), v)
		}
		return v
	}
	vals := map[*ssa.Phi]*T{}
	for _, p := range phis {
		p := p
		vals[p] = pick(func(a arm) *T { return phiVals(a)[p] })
	}
	f2 := fr.clone()
	finish(f2, res, vals)
}

func (x *X) stopHere(f *Frame, j *ssa.BasicBlock) bool { return f.stop == j }

func firstNonNil(arms []*State, k string) *T {
	for _, a := range arms {
		if v := a.heap[k]; v != nil {
			return v
		}
	}
	return nil
}

// mergeable: the arms agree on deferred calls and spawned goroutines.
func (x *X) mergeable(fr *Frame, arms []arm) bool {
	if len(arms) > 6 {
		return false
	}
	for _, a := range arms {
		if len(a.fr.defers) != len(fr.defers) || len(a.st.spawned) != len(arms[0].st.spawned) {
			return false
		}
		if len(a.fr.cuts) != len(fr.cuts) {
			return false
		}
	}
	return true
}

// autoMerge: functions with many sequential conditionals.
func (x *X) wantMerge(fn *ssa.Function) bool {
	if v, ok := x.mergeFns[fn]; ok {
		return v
	}
	n := 0
	for _, b := range fn.Blocks {
		if len(b.Succs) == 2 && x.joinOf(fn, b) != nil {
			n++
		}
	}
	x.mergeFns[fn] = n >= 3
	return n >= 3
}

// joinStates is the state at the join of arms that started from base; conds
// says when it is which.
func (x *X) joinStates(base *State, n0, nf0 int, arms []*State) (*State, []*T) {
	m := x.m
	conds := make([]*T, len(arms))
	for i, a := range arms {
		conds[i] = m.And(a.conds[n0:]...)
	}
	res := base
	some := m.Or(conds...)
	if some != m.tTrue && !m.taut(base.f, some, 8) {
		res.branch(some)
	}
	count := map[*T]int{}
	for _, a := range arms {
		mine := map[*T]bool{}
		for _, f := range a.f.list[nf0:] {
			if !mine[f] {
				mine[f] = true
				count[f]++
			}
		}
	}
	for i, a := range arms {
		own := map[*T]bool{conds[i]: true}
		if conds[i].op == "and" {
			for _, c := range conds[i].args {
				own[c] = true
			}
		}
		for _, f := range a.f.list[nf0:] {
			if x.laws[f] || count[f] == len(arms) {
				res.assume(f)
			} else if !own[f] {
				res.assume(m.Imp(conds[i], f))
			}
		}
	}
	keys := map[string]bool{}
	for _, a := range arms {
		for k := range a.heap {
			keys[k] = true
		}
		for u := range a.used {
			res.used[u] = true
		}
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	pick := func(get func(a *State) *T) *T {
		vs := make([]*T, len(arms))
		for i, a := range arms {
			vs[i] = get(a)
		}
		return m.choose(conds, vs)
	}
	for _, k := range ks {
		same := true
		first := arms[0].heap[k]
		for _, a := range arms {
			if a.heap[k] != first {
				same = false
			}
		}
		if same {
			res.heap[k] = first
			continue
		}
		es := firstNonNil(arms, k).sort.elem
		b0 := x.h(base, k, es)
		_, _, root := heapDiff(b0)
		// Common base: everything stored since the branch.
		var order []*T
		seen := map[*T]bool{}
		okBase := true
		for _, a := range arms {
			kk, _, r := heapDiff(x.h(a, k, es))
			if r != root {
				okBase = false
			}
			for i := len(kk) - 1; i >= 0; i-- {
				if !seen[kk[i]] {
					seen[kk[i]] = true
					order = append(order, kk[i])
				}
			}
		}
		if !okBase {
			res.heap[k] = pick(func(a *State) *T { return x.h(a, k, es) })
			continue
		}
		cur := b0
		for _, r := range order {
			v := pick(func(a *State) *T { return m.Select(x.h(a, k, es), r) })
			if m.Select(cur, r) != v {
				cur = m.Store(cur, r, v)
			}
		}
		res.heap[k] = cur
	}
	return res, conds
}

// runJoined runs a function and joins the states in which it returns.
func (x *X) runJoined(st *State, fn *ssa.Function, args, fvs []*T, depth int, k cont) {
	m := x.m
	base := st.clone()
	n0, nf0 := len(st.conds), len(st.f.list)
	type out struct {
		st *State
		rs []*T
	}
	var outs []out
	x.runFn(st, fn, args, fvs, depth, func(s *State, rs []*T) { outs = append(outs, out{s, rs}) })
	ok := len(outs) > 1
	for _, o := range outs {
		ok = ok && len(o.st.spawned) == len(base.spawned)
	}
	if !ok {
		for _, o := range outs {
			k(o.st, o.rs)
		}
		return
	}
	var sts []*State
	for _, o := range outs {
		sts = append(sts, o.st)
	}
	res, conds := x.joinStates(base, n0, nf0, sts)
	rs := append([]*T{}, outs[0].rs...)
	for j := range rs {
		vs := make([]*T, len(outs))
		for i := range outs {
			vs[i] = x.normVal(fn.Signature.Results().At(j).Type(), outs[i].rs[j])
		}
		rs[j] = m.choose(conds, vs)
	}
	k(res, rs)
}

// choose is the value of which the condition holds; exactly one does.
func (m *TM) choose(conds, vs []*T) *T {
	var us, cs []*T
	n := map[*T]int{}
	for i, v := range vs {
		if n[v] == 0 {
			us, cs = append(us, v), append(cs, conds[i])
		} else {
			for j := range us {
				if us[j] == v {
					cs[j] = m.Or(cs[j], conds[i])
				}
			}
		}
		n[v]++
	}
	best := len(us) - 1
	for j := len(us) - 1; j >= 0; j-- {
		if n[us[j]] > n[us[best]] {
			best = j
		}
	}
	v := us[best]
	for j := len(us) - 1; j >= 0; j-- {
		if j != best {
			v = m.Ite(cs[j], us[j], v)
		}
	}
	return v
}

// wantJoin: the contract asks for the returns of f to be joined.
func (x *X) wantJoin(f *ssa.Function) bool {
	if len(x.joinNames) == 0 || f.Synthetic != "" {
		return false
	}
	if x.joinNames["*"] {
		return true
	}
	n := f.String()
	if f.Pkg != nil {
		n = strings.ReplaceAll(n, f.Pkg.Pkg.Path()+".", "")
	}
	return x.joinNames[n]
}

// taut: t holds whatever its atoms are, as far as the facts allow.
func (m *TM) taut(f *Facts, t *T, depth int) bool {
	t = f.Simp(t)
	if t == m.tTrue {
		return true
	}
	if t == m.tFals || depth == 0 {
		return false
	}
	a := t
	for a.op == "or" || a.op == "and" || a.op == "not" {
		a = a.args[0]
	}
	if a == t {
		return false
	}
	for _, c := range []*T{a, m.Not(a)} {
		g := f.clone()
		if g.Assume(c) && !m.taut(g, t, depth-1) {
			return false
		}
	}
	return true
}
