package main

import "math/big"

// Facts is the path condition.
type Facts struct {
	m     *TM
	list  []*T
	lits  map[*T]bool
	bnd   map[*T][2]*big.Int
	subst map[*T]*T
}

func newFacts(m *TM) *Facts {
	return &Facts{m: m, lits: map[*T]bool{}, bnd: map[*T][2]*big.Int{}, subst: map[*T]*T{}}
}

func (f *Facts) clone() *Facts {
	g := &Facts{m: f.m, list: f.list[:len(f.list):len(f.list)], lits: make(map[*T]bool, len(f.lits)+4),
		bnd: make(map[*T][2]*big.Int, len(f.bnd)+4), subst: make(map[*T]*T, len(f.subst)+1)}
	for k, v := range f.lits {
		g.lits[k] = v
	}
	for k, v := range f.bnd {
		g.bnd[k] = v
	}
	for k, v := range f.subst {
		g.subst[k] = v
	}
	return g
}

func (f *Facts) tighten(t *T, lo, hi *big.Int) (*big.Int, *big.Int) {
	upd := func(l, h *big.Int) {
		if l != nil && (lo == nil || l.Cmp(lo) > 0) {
			lo = l
		}
		if h != nil && (hi == nil || h.Cmp(hi) < 0) {
			hi = h
		}
	}
	if t.op == "lin" {
		h := f.m.lin(0, t, 1)
		if t.n.Sign() != 0 {
			l := &linb{c: new(big.Int), coefs: map[*T]*big.Int{}}
			for i, a := range t.args {
				l.coefs[a] = t.coefs[i]
			}
			h = f.m.mkLin(l)
		}
		get := func(x *T, neg bool) {
			b, ok := f.bnd[x]
			if !ok {
				return
			}
			l, u := b[0], b[1]
			if neg {
				if l != nil {
					l = new(big.Int).Neg(l)
				}
				if u != nil {
					u = new(big.Int).Neg(u)
				}
				l, u = u, l
			}
			if l != nil {
				l = new(big.Int).Add(l, t.n)
			}
			if u != nil {
				u = new(big.Int).Add(u, t.n)
			}
			upd(l, u)
		}
		get(h, false)
		get(f.m.Neg(h), true)
		return lo, hi
	}
	if b, ok := f.bnd[t]; ok {
		upd(b[0], b[1])
	}
	return lo, hi
}

func (f *Facts) setBnd(t *T, lo, hi *big.Int) {
	b := f.bnd[t]
	if lo != nil && (b[0] == nil || lo.Cmp(b[0]) > 0) {
		b[0] = lo
	}
	if hi != nil && (b[1] == nil || hi.Cmp(b[1]) < 0) {
		b[1] = hi
	}
	f.bnd[t] = b
}

// boundLe records l <= 0.
func (f *Facts) boundLe(l *T) {
	if l.op != "lin" {
		f.setBnd(l, nil, bigZero)
		return
	}
	c := l.n
	lb := &linb{c: new(big.Int), coefs: map[*T]*big.Int{}}
	for i, a := range l.args {
		lb.coefs[a] = l.coefs[i]
	}
	h := f.m.mkLin(lb)
	f.setBnd(h, nil, new(big.Int).Neg(c))
	for i, a := range l.args {
		// k*a <= -c - rest
		rest := new(big.Int).Set(c)
		ok := true
		for j, b := range l.args {
			if i == j {
				continue
			}
			lo, hi := f.m.Range(b, f)
			if l.coefs[j].Sign() < 0 {
				lo = hi
			}
			if lo == nil {
				ok = false
				break
			}
			rest.Add(rest, new(big.Int).Mul(lo, l.coefs[j]))
		}
		if !ok {
			continue
		}
		rest.Neg(rest)
		k := l.coefs[i]
		if k.Sign() > 0 {
			f.setBnd(a, nil, new(big.Int).Div(rest, k))
		} else {
			// a >= ceil(rest/k)
			q := new(big.Int).Div(rest, new(big.Int).Neg(k))
			f.setBnd(a, q.Neg(q), nil)
		}
	}
}

// Assume adds t to the path condition; false if it becomes trivially
// contradictory.
func (f *Facts) Assume(t *T) bool {
	switch t.op {
	case "true":
		return true
	case "false":
		f.list = append(f.list, t)
		return false
	case "and":
		for _, a := range t.args {
			if !f.Assume(a) {
				return false
			}
		}
		return true
	}
	switch f.Decide(t) {
	case 1:
		if f.lits[t] {
			return true
		}
	case -1:
		f.list = append(f.list, f.m.tFals)
		return false
	}
	f.list = append(f.list, t)
	f.lits[t] = true
	f.lits[f.m.Not(t)] = false
	switch t.op {
	case "le0":
		f.boundLe(t.args[0])
	case "eq0":
		f.boundLe(t.args[0])
		f.boundLe(f.m.Neg(t.args[0]))
	case "eq":
		a, b := t.args[0], t.args[1]
		if isCtor(a) && !isCtor(b) {
			a, b = b, a
		}
		if isCtor(b) && !isCtor(a) {
			switch f.occurs(a, b) {
			case 0:
				f.subst[a] = b
			case 2:
				// A value is no part of itself.
				f.list = append(f.list, f.m.tFals)
				return false
			}
		}
	case "not":
		if x := t.args[0]; x.op == "eq0" {
			// x != 0 tightens a touching bound.
			l := x.args[0]
			lo, hi := f.m.Range(l, f)
			if lo != nil && lo.Sign() == 0 {
				f.boundLe(f.m.lin(1, l, -1))
			} else if hi != nil && hi.Sign() == 0 {
				f.boundLe(f.m.lin(1, l, 1))
			}
		}
	case "or":
		// Unit propagation over what is already decided.
		var open []*T
		for _, a := range t.args {
			switch f.Decide(a) {
			case 1:
				return true
			case 0:
				open = append(open, a)
			}
		}
		if len(open) == 1 {
			return f.Assume(open[0])
		}
	}
	return true
}

// Decide evaluates t under the facts: 1 true, -1 false, 0 unknown.
func (f *Facts) Decide(t *T) int {
	switch t.op {
	case "true":
		return 1
	case "false":
		return -1
	}
	if v, ok := f.lits[t]; ok {
		if v {
			return 1
		}
		return -1
	}
	switch t.op {
	case "and":
		all := true
		for _, a := range t.args {
			switch f.Decide(a) {
			case -1:
				return -1
			case 0:
				all = false
			}
		}
		if all {
			return 1
		}
	case "or":
		all := true
		for _, a := range t.args {
			switch f.Decide(a) {
			case 1:
				return 1
			case 0:
				all = false
			}
		}
		if all {
			return -1
		}
	case "not":
		return -f.Decide(t.args[0])
	case "le0":
		lo, hi := f.m.Range(t.args[0], f)
		if hi != nil && hi.Sign() <= 0 {
			return 1
		}
		if lo != nil && lo.Sign() > 0 {
			return -1
		}
	case "eq0":
		lo, hi := f.m.Range(t.args[0], f)
		if lo != nil && hi != nil && lo.Sign() == 0 && hi.Sign() == 0 {
			return 1
		}
		if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
			return -1
		}
	case "eq":
		a, b := t.args[0], t.args[1]
		a2, b2 := a, b
		if s, ok := f.subst[a]; ok {
			a2 = s
		}
		if s, ok := f.subst[b]; ok {
			b2 = s
		}
		if a2 != a || b2 != b {
			e := f.m.Eq(a2, b2)
			if e != t {
				return f.Decide(e)
			}
		}
	}
	return 0
}

// occurs tells whether a is part of b once what is known is put in: 0 no, 1
// somewhere in it, 2 as a component of a constructed value.
func (f *Facts) occurs(a, b *T) int {
	seen := map[*T]int{}
	n := 0
	var walk func(t *T, ctor bool) int
	walk = func(t *T, ctor bool) int {
		if t == a {
			if ctor {
				return 2
			}
			return 1
		}
		k := 1
		if ctor {
			k = 2
		}
		if seen[t] >= k {
			return 0
		}
		seen[t] = k
		if n++; n > 5000 {
			return 1
		}
		if s, ok := f.subst[t]; ok {
			return walk(s, ctor)
		}
		r := 0
		for _, x := range t.args {
			if q := walk(x, ctor && isCtor(t)); q > r {
				r = q
			}
		}
		return r
	}
	return walk(b, true)
}

// Simp rebuilds t, replacing decided booleans and known constructors.
func (f *Facts) Simp(t *T) *T {
	memo := map[*T]*T{}
	r := f.m.rewrite(t, func(x *T) *T {
		if x.op == "forall" || x.op == "foralls" || x.op == "map" {
			return nil
		}
		if s, ok := f.subst[x]; ok {
			return s
		}
		if x.sort != nil && x.sort.smt == "Bool" {
			switch f.Decide(x) {
			case 1:
				return f.m.tTrue
			case -1:
				return f.m.tFals
			}
		}
		return nil
	}, memo)
	return r
}
