package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Channels: receives give arbitrary values, sends are logged, closing is
// recorded. Who is at the other end is not modelled.

func (x *X) chanClosed(st *State, ch *T) *T {
	return x.m.Select(x.h(st, "G:closed", x.m.Bool()), ch)
}

func (x *X) chanSent(st *State, ch *T, et types.Type) *T {
	m := x.m
	return m.Select(x.h(st, "G:sent:"+tkey(et), m.seqOf(x.sort(et), -1)), ch)
}

func (x *X) chanSend(st *State, ch *T, ct types.Type, v *T) {
	m := x.m
	et := ct.Underlying().(*types.Chan).Elem()
	k := "G:sent:" + tkey(et)
	s := m.seqOf(x.sort(et), -1)
	old := x.chanSent(st, ch, et)
	st.heap[k] = m.Store(x.h(st, k, s), ch, m.Cat(s, old, m.Unit(s, v)))
}

func (x *X) chanRecvd(st *State, ch *T) *T {
	return x.m.Select(x.h(st, "G:recvd", x.m.sorts["Len"]), ch)
}

// recvVal is the value and ok flag of the next receive from ch.
func (x *X) recvVal(st *State, ch *T, et types.Type) (*T, *T) {
	m := x.m
	n := x.chanRecvd(st, ch)
	v := x.normVal(et, m.UF("chanval:"+tkey(et), x.sort(et), ch, n))
	ok := m.UF("chanok", m.Bool(), ch, n)
	st.heap["G:recvd"] = m.Store(x.h(st, "G:recvd", m.sorts["Len"]), ch, m.AddC(n, 1))
	return v, ok
}

// localChan: ch was made on this path and nothing runs beside it, so that its
// state is known: values sent and not yet received, and whether it is closed.
func (x *X) localChan(st *State, ch *T) bool {
	return ch.op == "alloc" && strings.HasPrefix(ch.str, "chan~") && len(st.spawned) == 0
}

// ready says whether a receive from ch can go ahead: 1 surely, -1 surely not,
// 0 unknown.
func (x *X) ready(st *State, ch *T, et types.Type) int {
	m := x.m
	if ch == m.zero {
		return -1
	}
	if ch.op == "uf" && ch.str == "ctxdone" {
		return x.ctxReady(st, ch.args[0])
	}
	if !x.localChan(st, ch) {
		if st.f.Decide(x.chanClosed(st, ch)) == 1 {
			return 1
		}
		return 0
	}
	left := st.f.Decide(m.Lt(x.chanRecvd(st, ch), m.Len(x.chanSent(st, ch, et))))
	closed := st.f.Decide(x.chanClosed(st, ch))
	switch {
	case left == 1 || closed == 1:
		return 1
	case left == -1 && closed == -1:
		return -1
	}
	return 0
}

// chanRoom: a send to a channel whose state is known does not block.
func (x *X) chanRoom(st *State, ch *T, ct types.Type) *T {
	m := x.m
	et := ct.Underlying().(*types.Chan).Elem()
	used := m.Sub(m.Len(x.chanSent(st, ch, et)), x.chanRecvd(st, ch))
	return m.Lt(used, x.chanCap(st, ch))
}

func (x *X) chanCap(st *State, ch *T) *T {
	return x.m.Select(x.h(st, "G:cap", x.m.sorts["Len"]), ch)
}

// sendReady says whether a send to ch can go ahead, as ready does for receives.
func (x *X) sendReady(st *State, ch *T, ct types.Type) int {
	if ch == x.m.zero {
		return -1
	}
	if !x.localChan(st, ch) {
		return 0
	}
	return st.f.Decide(x.chanRoom(st, ch, ct))
}

// ctxReady says whether a context is done.
func (x *X) ctxReady(st *State, c *T) int {
	m := x.m
	if c.op != "ctor" {
		return 0
	}
	switch c.str {
	case "ctx:bg":
		return -1
	case "ctx", "ctx:timed":
		d := st.f.Decide(m.Select(x.h(st, "G:cancelled", m.Bool()), c.args[0]))
		if d == 1 {
			return 1
		}
		r := x.ctxReady(st, c.args[1])
		if r < 0 && (d == 0 || c.str == "ctx:timed" || len(st.spawned) != 0) {
			return 0
		}
		return r
	}
	return 0
}

// recvKnown is recvVal, with what is known of the channel's state.
func (x *X) recvKnown(st *State, ch *T, et types.Type, k func(st *State, v, ok *T)) {
	m := x.m
	if !x.localChan(st, ch) {
		v, ok := x.recvVal(st, ch, et)
		k(st, v, ok)
		return
	}
	n, sent := x.chanRecvd(st, ch), x.chanSent(st, ch, et)
	x.fork(st, m.Lt(n, m.Len(sent)), func(st *State) {
		v := m.At(sent, n)
		if sent.op == "unit" {
			v = sent.args[0]
		}
		st.heap["G:recvd"] = m.Store(x.h(st, "G:recvd", m.sorts["Len"]), ch, m.AddC(n, 1))
		k(st, v, m.tTrue)
	}, func(st *State) {
		if st.branch(x.chanClosed(st, ch)) {
			k(st, x.zero(et), m.tFals)
		}
	})
}

func (x *X) recv(fr *Frame, st *State, i *ssa.UnOp, k func(*State, *Frame, *T)) {
	m := x.m
	ch := x.val(fr, st, i.X)
	et := i.X.Type().Underlying().(*types.Chan).Elem()
	if x.ready(st, ch, et) < 0 {
		x.oblige(st, "progress:receive that never ends", x.pos(i), m.tFals)
		return
	}
	x.recvKnown(st, ch, et, func(st *State, v, ok *T) {
		f2 := fr.clone()
		r := m.Ite(ok, v, x.zero(et))
		if i.CommaOk {
			k(st, f2, m.Mk(x.sort(i.Type()), r, ok))
			return
		}
		k(st, f2, r)
	})
}

func (x *X) sel(fr *Frame, st *State, i *ssa.Select, k func(*State, *Frame, *T)) {
	m := x.m
	// Result tuple: index, recvOk, then one value per receive case.
	n := len(i.States)
	can := make([]int, n, n+1)
	sure := false
	none := i.Blocking
	for j, sc := range i.States {
		ch := x.val(fr, st, sc.Chan)
		if sc.Dir == types.RecvOnly {
			can[j] = x.ready(st, ch, sc.Chan.Type().Underlying().(*types.Chan).Elem())
		} else {
			can[j] = x.sendReady(st, ch, sc.Chan.Type())
		}
		sure = sure || can[j] > 0
		none = none && can[j] < 0
	}
	if none {
		x.oblige(st, "progress:select that never ends", x.pos(i), m.tFals)
		return
	}
	if !i.Blocking {
		d := 0
		if sure {
			d = -1
		}
		can = append(can, d)
	}
	pick := x.freshSym(st, "select", m.IntS())
	for c := range can {
		if can[c] < 0 {
			continue
		}
		s2 := st.clone()
		f2 := fr.clone()
		if c == len(i.States) {
			if !s2.branch(m.Eq(pick, m.Int64(-1))) {
				continue
			}
		} else if !s2.branch(m.Eq(pick, m.Int64(int64(c)))) {
			continue
		}
		fs := []*T{m.Int64(int64(c)), m.tFals}
		if c == len(i.States) {
			fs[0] = m.Int64(-1)
		}
		at := -1
		for j, sc := range i.States {
			if sc.Dir == types.RecvOnly {
				if j == c {
					at = len(fs)
				}
				fs = append(fs, x.zero(sc.Chan.Type().Underlying().(*types.Chan).Elem()))
			} else if j == c {
				if ch := x.val(f2, s2, sc.Chan); x.localChan(s2, ch) && !s2.branch(x.chanRoom(s2, ch, sc.Chan.Type())) {
					at = -2
					break
				}
				x.chanSend(s2, x.val(f2, s2, sc.Chan), sc.Chan.Type(), x.val(f2, s2, sc.Send))
			}
		}
		if at == -2 {
			continue
		}
		if at < 0 {
			k(s2, f2, m.Mk(x.sort(i.Type()), fs...))
			continue
		}
		et := i.States[c].Chan.Type().Underlying().(*types.Chan).Elem()
		x.recvKnown(s2, x.val(f2, s2, i.States[c].Chan), et, func(s2 *State, v, ok *T) {
			fs := append([]*T{}, fs...)
			fs[1] = ok
			fs[at] = m.Ite(ok, v, x.zero(et))
			k(s2, f2.clone(), m.Mk(x.sort(i.Type()), fs...))
		})
	}
}
