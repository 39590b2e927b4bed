package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// evalPure evaluates f in the given state as a specification: no
// obligations, no effects on st. The results of its paths are merged.
func (x *X) evalPureFn(st *State, run func(st *State, k cont)) []*T {
	m := x.m
	s := st.clone()
	s.pure = true
	n0 := len(s.conds)
	type out struct {
		c  *T
		rs []*T
	}
	var outs []out
	x.quiet++
	run(s, func(s2 *State, rs []*T) {
		var vs []*T
		vs = append(vs, rs...)
		outs = append(outs, out{m.And(s2.conds[n0:]...), vs})
	})
	x.quiet--
	if len(outs) == 0 {
		return nil
	}
	res := outs[len(outs)-1].rs
	for i := len(outs) - 2; i >= 0; i-- {
		var nr []*T
		for j := range res {
			nr = append(nr, m.Ite(outs[i].c, outs[i].rs[j], res[j]))
		}
		res = nr
	}
	return res
}

func (x *X) evalPure1(st *State, f *ssa.Function, args []*T) *T {
	rs := x.evalPureFn(st, func(s *State, k cont) { x.runFn(s, f, args, nil, 1, k) })
	if rs == nil {
		return nil
	}
	return rs[0]
}

// specCall applies a specification function: a function on deep views.
func (x *X) specCall(fr *Frame, st *State, f *ssa.Function, args []*T, k cont) {
	m := x.m
	sig := f.Signature
	var as []*T
	for i, p := range f.Params {
		as = append(as, x.view(st, p.Type(), args[i]))
	}
	var rets []*T
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		name := fmt.Sprintf("spec:%s:%d", f.String(), i)
		x.defineSpec(name, f, i, rt)
		v := m.Call(name, x.viewSort(rt), as...)
		rets = append(rets, x.inflate(rt, v))
	}
	k(st, rets)
}

func (x *X) defineSpec(name string, f *ssa.Function, ri int, rt types.Type) {
	if _, ok := x.defs[name]; ok || x.opaqueFns[f] {
		return
	}
	x.defs[name] = &Def{name: name, body: func(m *TM, as []*T) *T {
		key := fmt.Sprintf("%s|", name)
		for _, a := range as {
			key += fmt.Sprintf("%d,", a.id)
		}
		if b, ok := x.specMemo[key]; ok {
			return b
		}
		st := &State{f: newFacts(m), heap: map[string]*T{}, used: map[*T]bool{}}
		for k, v := range x.initHeap {
			st.heap[k] = v
		}
		var args []*T
		for i, p := range f.Params {
			args = append(args, x.inflate(p.Type(), as[i]))
		}
		var views []*T
		rs := x.evalPureFn(st, func(s *State, k cont) {
			x.runFn(s, f, args, nil, 1, func(s2 *State, rs []*T) {
				k(s2, []*T{x.view(s2, rt, rs[ri])})
			})
		})
		_ = views
		var b *T
		if rs != nil {
			b = rs[0]
		}
		x.specMemo[key] = b
		return b
	}}
}
