package main

import (
	"fmt"
	"math/big"
	"strings"
	"time"
)

// A goal the solvers don't settle at once is broken down first: quantifiers
// are skolemised, equalities between sequences become equalities of their
// elements, facts about all indices are instantiated, and undecided
// conditions are split on. What is left goes back to the solvers.
type subgoal struct {
	facts []*T
	goal  *T
}

type prover struct {
	x     *X
	m     *TM
	end   time.Time
	steps int
	out   []subgoal
	fail  bool
}

// breakdown returns the subgoals that together imply goal under facts, or
// nil if there is nothing to gain.
func (x *X) breakdown(facts []*T, goal *T, limit time.Duration) (subs []subgoal, ok bool) {
	p := &prover{x: x, m: x.m, end: time.Now().Add(limit)}
	f, g, live := p.restart(facts, goal)
	if !live {
		return nil, true
	}
	p.prove(f, g, 8)
	if p.fail {
		if debugLoop {
			fmt.Printf("BRK steps %d out %d\n", p.steps, len(p.out))
			for _, o := range p.out {
				fmt.Printf("  sub %v\n", o.goal)
			}
		}
		return nil, false
	}
	return p.out, true
}

func (p *prover) tick() bool {
	p.steps++
	if p.steps > 40000 || time.Now().After(p.end) || len(p.out) > 60 {
		p.fail = true
	}
	return p.fail
}

func occurs(t, in *T) bool {
	seen := map[*T]bool{}
	var w func(u *T) bool
	w = func(u *T) bool {
		if u == t {
			return true
		}
		if seen[u] {
			return false
		}
		seen[u] = true
		for _, a := range u.args {
			if w(a) {
				return true
			}
		}
		return false
	}
	return w(in)
}

// restart eliminates variables that facts define, and rebuilds the facts.
func (p *prover) restart(facts []*T, goal *T) (*Facts, *T, bool) {
	m := p.m
	list := append([]*T{}, facts...)
	var elim [][2]*T
	for round := 0; round < 12; round++ {
		var k, v *T
		for _, t := range list {
			if t.hasBV {
				continue
			}
			switch t.op {
			case "eq0":
				l := t.args[0]
				as, cs := []*T{l}, []*big.Int{bigOne}
				if l.op == "lin" {
					as, cs = l.args, l.coefs
				}
				best := -1
				for i, a := range as {
					if cs[i].CmpAbs(bigOne) != 0 {
						continue
					}
					r := 0
					switch {
					case a.op == "sym" && strings.HasPrefix(a.str, "nL"):
						r = 5
					case a.op == "sym":
						r = 4
					case a.op == "uf" && strings.HasPrefix(a.str, "lv:"):
						r = 3
					case a.op == "select" || a.op == "at" || a.op == "fld" || a.op == "len":
						r = 2
					case a.op == "uf":
						r = 1
					}
					if r <= best {
						continue
					}
					rest := m.MulC(m.Sub(l, m.MulC(a, cs[i])), new(big.Int).Neg(cs[i]))
					if occurs(a, rest) {
						continue
					}
					best, k, v = r, a, rest
				}
			case "eq":
				a, b := t.args[0], t.args[1]
				if a.sort.smt == "Bool" {
					continue
				}
				atom := func(t *T) bool {
					return t.op == "sym" || t.op == "uf" || t.op == "select" || t.op == "at" || t.op == "fld"
				}
				if !atom(a) {
					a, b = b, a
				}
				if atom(a) && !occurs(a, b) {
					k, v = a, b
				} else if atom(b) && !occurs(b, a) {
					k, v = b, a
				}
			}
			if k != nil {
				break
			}
		}
		if k == nil {
			break
		}
		sub := map[*T]*T{k: v}
		for i, e := range elim {
			elim[i][1] = m.Subst(e[1], sub)
		}
		elim = append(elim, [2]*T{k, v})
		var l2 []*T
		// The range of what goes away stays known.
		if lo, hi := k.sort.lo, k.sort.hi; isInt(k) {
			if lo != nil {
				l2 = append(l2, m.Le(m.IntB(lo), v))
			}
			if hi != nil {
				l2 = append(l2, m.Le(v, m.IntB(hi)))
			}
		}
		for _, t := range list {
			t2 := m.Subst(t, sub)
			if t2 != m.tTrue {
				l2 = append(l2, t2)
			}
		}
		list = l2
		goal = m.Subst(goal, sub)
		if p.tick() {
			break
		}
	}
	for i, t := range list {
		list[i] = m.orCtx(t)
	}
	f := newFacts(m)
	// Twice: later facts may decide earlier disjunctions.
	for r := 0; r < 2; r++ {
		for _, t := range list {
			if !f.Assume(t) {
				return f, goal, false
			}
		}
	}
	// What went away can return with the definitions of other terms.
	for _, e := range elim {
		if !f.Assume(m.Eq(e[0], e[1])) {
			return f, goal, false
		}
	}
	return f, goal, true
}

func (p *prover) leaf(f *Facts, g *T) {
	m := p.m
	if g == p.m.tTrue || f.Decide(g) == 1 {
		return
	}
	if !p.propagate(f) {
		return
	}
	if g = p.simp(f, g); g == p.m.tTrue || f.Decide(g) == 1 {
		return
	}
	// Once more with facts that are simplified by the others.
	f2 := newFacts(m)
	rank := func(t *T) int {
		switch t.op {
		case "le0", "eq0":
			return 0
		case "not":
			if t.args[0].op == "eq0" {
				return 0
			}
		case "or", "and":
			return 2
		case "forall", "foralls":
			return 3
		}
		return 1
	}
	for r := 0; r < 4; r++ {
		for _, t := range f.list {
			if rank(t) != r {
				continue
			}
			s := t
			if r < 3 {
				s = p.simp(f2, t)
			}
			if s == m.tFals || !f2.Assume(s) {
				return
			}
		}
	}
	if !p.propagate(f2) {
		return
	}
	if g = p.simp(f2, g); g == m.tTrue || f2.Decide(g) == 1 {
		return
	}
	if u := p.unfoldBigSize(f2, g); u != nil {
		if g = p.simp(f2, u); g == m.tTrue || f2.Decide(g) == 1 {
			return
		}
	}
	p.out = append(p.out, subgoal{f2.list, g})
}

// propagate draws what follows from disjunctions of which all but one member
// are false; false if that is a contradiction.
func (p *prover) propagate(f *Facts) bool {
	m := p.m
	done := map[*T]bool{}
	for round := 0; round < 4; round++ {
		changed := false
		for _, t := range append([]*T{}, f.list...) {
			if t.op != "or" || done[t] {
				continue
			}
			var open []*T
			sat := false
			for _, a := range t.args {
				switch f.Decide(a) {
				case 1:
					sat = true
				case 0:
					open = append(open, a)
				}
			}
			if sat {
				done[t] = true
				continue
			}
			if len(open) == 0 {
				return false
			}
			if len(open) == 1 {
				done[t] = true
				s := p.simp(f, open[0])
				if f.Decide(s) == 1 {
					continue
				}
				changed = true
				if !f.Assume(s) || s == m.tFals {
					return false
				}
			}
		}
		if !changed {
			break
		}
	}
	return true
}

func compound(t *T) bool {
	switch t.op {
	case "cat", "map", "upd", "rep", "flat", "sub", "ite", "range":
		return true
	}
	return false
}

func (p *prover) prove(f *Facts, g *T, depth int) {
	m := p.m
	if p.tick() {
		return
	}
	g = p.simp(f, g)
	switch f.Decide(g) {
	case 1:
		return
	}
	switch g.op {
	case "and":
		h := f.clone()
		for _, a := range g.args {
			p.prove(h.clone(), a, depth)
			if !h.Assume(a) {
				return
			}
		}
		return
	case "forall":
		k := m.Sym(p.x.freshName("sk"), m.IntS(), g.args[0].time)
		if !f.Assume(m.Le(g.args[1], k)) || !f.Assume(m.Lt(k, g.args[2])) {
			return
		}
		p.prove(f, m.substBV(g.args[3], g.args[0], k), depth)
		return
	case "foralls":
		k := m.Sym(p.x.freshName("sk"), g.args[0].sort, g.args[0].time)
		p.prove(f, m.substBV(g.args[1], g.args[0], k), depth)
		return
	case "not":
		if a := g.args[0]; a.op == "and" || a.op == "forall" || a.op == "or" {
			if !f.Assume(a) {
				return
			}
			p.prove(f, m.tFals, depth)
			return
		}
	case "or":
		var keep []*T
		for _, a := range g.args {
			if a.op == "forall" || a.op == "and" || a.op == "eq" && !a.hasBV && a.args[0].sort.isSeq {
				keep = append(keep, a)
			}
		}
		if len(keep) == 0 {
			keep = g.args[len(g.args)-1:]
		}
		for _, a := range g.args {
			skip := false
			for _, k := range keep {
				skip = skip || k == a
			}
			if skip {
				continue
			}
			if !f.Assume(m.Not(a)) {
				return
			}
		}
		rest := m.Or(keep...)
		if rest.op != "or" {
			p.prove(f, rest, depth)
			return
		}
		g = rest
		// Cases that a literal tells apart.
		lit := map[*T]bool{}
		for _, a := range keep {
			if a.op == "and" {
				for _, b := range a.args {
					lit[b] = true
				}
			}
		}
		for _, a := range keep {
			if a.op != "and" || depth <= 0 {
				continue
			}
			for _, b := range a.args {
				if n := m.Not(b); lit[n] && f.Decide(b) == 0 {
					f2 := f.clone()
					if f.Assume(b) {
						p.prove(f, g, depth-1)
					}
					if f2.Assume(n) {
						p.prove(f2, g, depth-1)
					}
					return
				}
			}
		}
	case "eq0":
		// Sums of the same parts.
		var sums []*T
		subterms([]*T{g}, func(t *T) {
			if t.op == "sumof" {
				sums = append(sums, t)
			}
		})
		if len(sums) == 2 {
			if eq, ok := p.pointwise(sums[0].args[0], sums[1].args[0]); ok {
				p.prove(f.clone(), eq, depth)
				p.prove(f, m.Subst(g, map[*T]*T{sums[1]: sums[0]}), depth)
				return
			}
		}
	case "eq":
		a, b := g.args[0], g.args[1]
		if a.sort.smt == "Bool" {
			f2 := f.clone()
			if f.Assume(a) {
				p.prove(f, b, depth)
			}
			if f2.Assume(b) {
				p.prove(f2, a, depth)
			}
			return
		}
		if g2, ok := p.pointwise(a, b); ok {
			p.prove(f, g2, depth)
			return
		}
		if a.sort.isSeq && (compound(a) || compound(b)) && a.op != "flat" && b.op != "flat" {
			if c := p.splitCond(f, g); c == nil || depth <= 0 {
				le := m.Eq(m.Len(a), m.Len(b))
				p.prove(f.clone(), le, depth)
				if !f.Assume(le) {
					return
				}
				k := m.Sym(p.x.freshName("sk"), m.IntS(), 0)
				if !f.Assume(m.Le(m.zero, k)) || !f.Assume(m.Lt(k, m.Len(a))) {
					return
				}
				e := m.Eq(m.At(a, k), m.At(b, k))
				p.prove(f, e, depth)
				return
			}
		}
	}
	// Instances of facts about all indices.
	if n := p.instantiate(f, g); n < 0 {
		return
	} else if n > 0 {
		g = p.simp(f, g)
		switch f.Decide(g) {
		case 1:
			return
		}
		if g.op == "and" {
			p.prove(f, g, depth)
			return
		}
	}
	if depth > 0 {
		if c := p.splitCond(f, g); c != nil {
			f2 := f.clone()
			if f.Assume(c) {
				p.prove(f, g, depth-1)
			}
			if f2.Assume(m.Not(c)) {
				p.prove(f2, g, depth-1)
			}
			return
		}
	}
	p.leaf(f, g)
}

// pointwise gives what suffices for two sequences to be the same: that they
// are made of the same parts.
func (p *prover) pointwise(a, b *T) (*T, bool) {
	m := p.m
	if a.op != b.op || !a.sort.isSeq || a.op != "flat" && a.op != "map" {
		return nil, false
	}
	over := func(t, k *T) (*T, *T) {
		var through func(s *T) *T
		through = func(s *T) *T { return s }
		if t.op == "map" {
			f := t
			if t = t.args[0]; t.op != "flat" {
				return nil, nil
			}
			through = func(s *T) *T {
				if s.op == "ite" {
					return m.Ite(s.args[0], through(s.args[1]), through(s.args[2]))
				}
				return m.Map(s, f.args[1], f.args[2])
			}
		}
		return t.args[0], through(m.substBV(t.args[2], t.args[1], k))
	}
	if a.args[1].sort != b.args[1].sort {
		return nil, false
	}
	k := m.FreshBV(m.IntS(), 0)
	s1, b1 := over(a, k)
	s2, b2 := over(b, k)
	if s1 == nil || s2 == nil || s1.op != "range" || s2.op != "range" || s1.args[0] != s2.args[0] {
		return nil, false
	}
	return m.And(m.Eq(s1.args[1], s2.args[1]), m.Forall(k, s1.args[0], s1.args[1], m.Eq(b1, b2))), true
}

// splitCond finds a condition that decides the shape of g.
func (p *prover) splitCond(f *Facts, g *T) *T {
	m := p.m
	var c *T
	seen := map[*T]bool{}
	var w func(t *T)
	w = func(t *T) {
		if c != nil || seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case "ite":
			if len(t.args[0].fbv) == 0 && f.Decide(t.args[0]) == 0 {
				c = t.args[0]
				if c.op == "and" || c.op == "or" {
					for _, a := range c.args {
						if f.Decide(a) == 0 {
							c = a
							break
						}
					}
				}
				if c.op == "not" {
					c = c.args[0]
				}
				return
			}
		case "at":
			if s := t.args[0]; s.op == "cat" && len(t.fbv) == 0 {
				off := t.args[1]
				for i, a := range s.args {
					if i == len(s.args)-1 {
						break
					}
					b := m.Lt(off, m.Len(a))
					if f.Decide(b) == 0 {
						c = b
						return
					}
					off = m.Sub(off, m.Len(a))
				}
			}
			if s := t.args[0]; s.op == "upd" && len(t.fbv) == 0 {
				if b := m.Eq(s.args[1], t.args[1]); f.Decide(b) == 0 {
					c = b
					return
				}
			}
		}
		for _, a := range t.args {
			w(a)
		}
	}
	w(g)
	return c
}

// instantiate adds instances of universally quantified facts for the
// index terms of g; -1 if that is contradictory.
func (p *prover) instantiate(f *Facts, g *T) int {
	m := p.m
	type key struct{ q, t *T }
	done := map[key]bool{}
	total := 0
	for round := 0; round < 2; round++ {
		// Ground index terms.
		ats := map[*T][]*T{}     // sequence -> indices
		ufs := map[string][]*T{} // function -> last arguments
		var sks []*T
		src := []*T{g}
		for _, t := range f.list {
			if t.op != "forall" && t.op != "foralls" {
				if t.op == "le0" || round > 0 {
					src = append(src, t)
				}
			}
		}
		subterms(src, func(t *T) {
			if t.hasBV {
				return
			}
			switch t.op {
			case "at":
				ats[t.args[0]] = append(ats[t.args[0]], t.args[1])
			case "allocf", "uf":
				if n := len(t.args); n > 0 && isInt(t.args[n-1]) {
					ufs[t.op+t.str] = append(ufs[t.op+t.str], t.args[n-1])
				}
			case "sym":
				if strings.HasPrefix(t.str, "sk") && isInt(t) {
					sks = append(sks, t)
				}
			}
		})
		n := 0
		list := f.list
		for _, q := range list {
			if q.op != "forall" || q.hasBV {
				continue
			}
			bv, body := q.args[0], q.args[3]
			cands := map[*T]bool{}
			add := func(idx, val *T) {
				d := m.Sub(idx, bv)
				if !d.hasBV {
					cands[m.Sub(val, d)] = true
				}
			}
			subterms([]*T{body}, func(t *T) {
				if !t.hasBV {
					return
				}
				switch t.op {
				case "at":
					for _, i := range ats[t.args[0]] {
						add(t.args[1], i)
					}
				case "allocf", "uf":
					if k := len(t.args); k > 0 && isInt(t.args[k-1]) {
						for _, i := range ufs[t.op+t.str] {
							add(t.args[k-1], i)
						}
					}
				}
			})
			for _, s := range sks {
				cands[s] = true
			}
			for c := range cands {
				if done[key{q, c}] || len(cands) > 12 || total > 60 {
					continue
				}
				done[key{q, c}] = true
				in := m.And(m.Le(q.args[1], c), m.Lt(c, q.args[2]))
				inst := m.Imp(in, m.substBV(body, bv, c))
				inst = p.simp(f, inst)
				if f.Decide(inst) == 1 {
					continue
				}
				if !f.Assume(inst) {
					return -1
				}
				n++
				total++
			}
		}
		if n == 0 {
			break
		}
	}
	return total
}

// simp rebuilds t with everything the facts decide.
func (p *prover) simp(f *Facts, t *T) *T {
	memo := map[*T]*T{}
	return p.simp1(f, t, memo, 0)
}

func (p *prover) simp1(f *Facts, t *T, memo map[*T]*T, d int) *T {
	m := p.m
	if r, ok := memo[t]; ok {
		return r
	}
	if s, ok := f.subst[t]; ok {
		memo[t] = s
		return s
	}
	if len(t.args) == 0 {
		return t
	}
	boolSort := t.sort != nil && t.sort.smt == "Bool"
	dec := func(r *T) *T {
		switch f.Decide(r) {
		case 1:
			return m.tTrue
		case -1:
			return m.tFals
		}
		return r
	}
	if boolSort {
		if r := dec(t); r != t {
			memo[t] = r
			return r
		}
	}
	p.steps++
	var r *T
	switch t.op {
	case "forall":
		lo, hi := p.simp1(f, t.args[1], memo, d), p.simp1(f, t.args[2], memo, d)
		bv := t.args[0]
		f2 := f.clone()
		if !f2.Assume(m.Le(lo, bv)) || !f2.Assume(m.Lt(bv, hi)) {
			r = m.tTrue
			break
		}
		r = m.Forall(bv, lo, hi, p.simp1(f2, t.args[3], map[*T]*T{}, d+1))
	case "map":
		s := p.simp1(f, t.args[0], memo, d)
		bv := t.args[1]
		f2 := f
		if s.op == "range" {
			f2 = f.clone()
			if !f2.Assume(m.Le(s.args[0], bv)) || !f2.Assume(m.Lt(bv, s.args[1])) {
				r = m.Empty(t.sort)
				break
			}
		}
		r = m.Map(s, bv, p.simp1(f2, t.args[2], map[*T]*T{}, d+1))
	case "foralls", "flat", "lamarr":
		as := make([]*T, len(t.args))
		ch := false
		for i, a := range t.args {
			as[i] = a
			if a.op != "bv" && len(a.fbv) == 0 {
				as[i] = p.simp1(f, a, memo, d)
			}
			ch = ch || as[i] != a
		}
		r = t
		if ch {
			r = m.Rebuild(t, as)
		}
	default:
		as := make([]*T, len(t.args))
		ch := false
		for i, a := range t.args {
			as[i] = p.simp1(f, a, memo, d)
			ch = ch || as[i] != a
		}
		switch t.op {
		case "at":
			r = p.at(f, as[0], as[1])
		case "sub":
			r = p.sub(f, as[0], as[1], as[2])
		case "wrap":
			r = m.Wrap(as[0], t.str, f)
		case "select":
			r = p.sel(f, as[0], as[1])
		case "rep":
			if f.Decide(m.Eq(as[0], m.zero)) == 1 {
				r = m.Empty(t.sort)
			} else {
				r = m.Rebuild(t, as)
			}
		case "ite":
			switch f.Decide(as[0]) {
			case 1:
				r = as[1]
			case -1:
				r = as[2]
			default:
				r = m.Ite(as[0], as[1], as[2])
			}
		case "uf":
			r = t
			if ch {
				r = m.Rebuild(t, as)
			}
			if r.op == "uf" && r.str == "arr" && f.Decide(m.Eq(m.Len(r.args[0]), m.Int64(r.sort.fixedLen))) == 1 {
				r = r.args[0]
			}
		default:
			r = t
			if ch {
				r = m.Rebuild(t, as)
			}
		}
	}
	if boolSort {
		r = dec(r)
	}
	if s, ok := f.subst[r]; ok {
		r = s
	}
	if r != t && d < 40 && !p.fail {
		if len(memo) < 20000 {
			memo[t] = r // stops cycles
		}
		r2 := p.simp1(f, r, memo, d+1)
		r = r2
	}
	memo[t] = r
	return r
}

func (p *prover) at(f *Facts, s, i *T) *T {
	m := p.m
	switch s.op {
	case "upd":
		switch f.Decide(m.Eq(s.args[1], i)) {
		case 1:
			return s.args[2]
		case -1:
			return p.at(f, s.args[0], i)
		}
	case "cat":
		off := i
		for k, a := range s.args {
			l := m.Len(a)
			if k == len(s.args)-1 || f.Decide(m.Lt(off, l)) == 1 && f.Decide(m.Le(m.zero, off)) == 1 {
				return p.at(f, a, off)
			}
			if f.Decide(m.Le(l, off)) != 1 {
				if l == m.one && k+2 >= len(s.args)-1 {
					if e := p.at(f, a, m.zero); e.op != "at" {
						f2 := f.clone()
						if f2.Assume(m.Le(m.one, off)) {
							return m.Ite(m.Eq(off, m.zero), e, p.at(f2, m.Cat(s.sort, s.args[k+1:]...), m.Sub(off, l)))
						}
					}
				}
				break
			}
			off = m.Sub(off, l)
		}
	case "sub":
		return p.at(f, s.args[0], m.Add(s.args[1], i))
	case "ite":
		switch f.Decide(s.args[0]) {
		case 1:
			return p.at(f, s.args[1], i)
		case -1:
			return p.at(f, s.args[2], i)
		}
	}
	return m.At(s, i)
}

func (p *prover) sub(f *Facts, s, lo, hi *T) *T {
	m := p.m
	if f.Decide(m.Eq(lo, hi)) == 1 {
		return m.Empty(s.sort)
	}
	if lo != m.zero && f.Decide(m.Eq(lo, m.zero)) == 1 {
		lo = m.zero
	}
	if lo == m.zero && f.Decide(m.Eq(hi, m.Len(s))) == 1 {
		return s
	}
	switch s.op {
	case "ite":
		switch f.Decide(s.args[0]) {
		case 1:
			return p.sub(f, s.args[1], lo, hi)
		case -1:
			return p.sub(f, s.args[2], lo, hi)
		}
	case "cat":
		// The parts between lo and hi, if it is known where they fall.
		var out []*T
		off := m.zero
		started := false
		for _, a := range s.args {
			nxt := m.Add(off, m.Len(a))
			if !started {
				if f.Decide(m.Le(nxt, lo)) == 1 {
					off = nxt
					continue
				}
				if f.Decide(m.Le(off, lo)) != 1 {
					return m.SubSeq(s, lo, hi)
				}
				started = true
				if f.Decide(m.Le(hi, nxt)) == 1 {
					return p.sub(f, a, m.Sub(lo, off), m.Sub(hi, off))
				}
				if f.Decide(m.Le(nxt, hi)) != 1 {
					return m.SubSeq(s, lo, hi)
				}
				out = append(out, p.sub(f, a, m.Sub(lo, off), m.Len(a)))
				off = nxt
				continue
			}
			if f.Decide(m.Le(nxt, hi)) == 1 {
				out = append(out, a)
				off = nxt
				continue
			}
			if f.Decide(m.Le(hi, off)) == 1 {
				break
			}
			if f.Decide(m.Le(hi, nxt)) != 1 {
				return m.SubSeq(s, lo, hi)
			}
			out = append(out, p.sub(f, a, m.zero, m.Sub(hi, off)))
			break
		}
		if started {
			return m.Cat(s.sort, out...)
		}
	}
	return m.SubSeq(s, lo, hi)
}

func (p *prover) sel(f *Facts, a, k *T) *T {
	m := p.m
	for a.op == "store" {
		e := m.keyEq(a.args[1], k)
		switch f.Decide(e) {
		case 1:
			return a.args[2]
		case -1:
			a = a.args[0]
			continue
		}
		break
	}
	return m.Select(a, k)
}

func (x *X) freshName(s string) string {
	x.m.nsym++
	return fmt.Sprintf("%s!%d", s, x.m.nsym)
}

// orCtx simplifies the members of a disjunction given that the others, as
// far as they are literals, are false.
func (m *TM) orCtx(t *T) *T {
	if t.op != "or" || len(t.args) > 12 {
		return t
	}
	hasIte := func(t *T) bool {
		seen := map[*T]bool{}
		var w func(t *T) bool
		w = func(t *T) bool {
			if seen[t] {
				return false
			}
			seen[t] = true
			if t.op == "ite" {
				return true
			}
			for _, a := range t.args {
				if w(a) {
					return true
				}
			}
			return false
		}
		return w(t)
	}
	out := append([]*T{}, t.args...)
	changed := false
	for i, a := range out {
		if !hasIte(a) {
			continue
		}
		f := newFacts(m)
		for j, b := range out {
			if j != i && b.op != "and" && !f.Assume(m.Not(b)) {
				return t
			}
		}
		if s := f.Simp(a); s != a {
			out[i] = s
			changed = true
		}
	}
	if !changed {
		return t
	}
	return m.Or(out...)
}

// unfoldBigSize replaces the variable length integers of g whose size the
// facts decide by their bytes; nil if there is none.
func (p *prover) unfoldBigSize(f *Facts, g *T) *T {
	m := p.m
	sub := map[*T]*T{}
	seen := map[*T]bool{}
	var walk func(t *T)
	walk = func(t *T) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "forall" || t.op == "foralls" || t.op == "map" {
			return
		}
		for _, a := range t.args {
			walk(a)
		}
		if t.op != "uf" || t.str != "bigsize" {
			return
		}
		n := t.args[0]
		lims := []struct {
			lim *T
			pre string
			n   int
		}{
			{m.Int64(0xfd), "", 1}, {m.Int64(1 << 16), "\xfd", 2},
			{m.Int64(1 << 32), "\xfe", 4}, {nil, "\xff", 8},
		}
		for i, l := range lims {
			if i > 0 && f.Decide(m.Le(lims[i-1].lim, n)) != 1 {
				return
			}
			if l.lim != nil && f.Decide(m.Lt(n, l.lim)) != 1 {
				continue
			}
			sub[t] = m.Cat(m.byteSeq(), m.Str(l.pre), p.x.beBytes(n, l.n))
			return
		}
	}
	walk(g)
	if len(sub) == 0 {
		return nil
	}
	return m.Subst(g, sub)
}
