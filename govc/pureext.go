package main

import (
	"fmt"
	"go/types"
)

// Functions of dependencies assumed to be deterministic functions of what
// their arguments hold, without effects, and with zero results next to an
// error. Nothing else is assumed about them.
var pureExternals = []string{
	"github.com/lightningnetwork/lightning-onion.BuildBlindedPath",
	"github.com/lightningnetwork/lightning-onion.NewOnionPacket",
	"github.com/btcsuite/btcd/btcutil/bech32.ConvertBits",
	"strings.TrimSpace", "strings.ToLower", "strings.ToUpper", "strings.LastIndexByte", "strings.IndexByte",
	"path/filepath.Join",
	"(github.com/lightninglabs/lndclient.Network).ChainParams",
	"github.com/lightningnetwork/lnd/lnwire.NewMSatFromSatoshis",
}

func init() {
	extraNatives = append(extraNatives, func() map[string]native {
		n := map[string]native{}
		for _, f := range pureExternals {
			f := f
			n[f] = func(x *X, st *State, c *callCtx, k cont) { x.pureCall(st, c, f, k) }
		}
		return n
	})
}

// argViews are the views of the arguments of a call.
func (x *X) argViews(st *State, c *callCtx) []*T {
	var vs []*T
	i := 0
	if r := c.sig.Recv(); r != nil {
		vs = append(vs, x.view(st, r.Type(), c.args[0]))
		i = 1
	}
	for j := 0; j < c.sig.Params().Len(); j++ {
		vs = append(vs, x.view(st, c.sig.Params().At(j).Type(), c.args[i+j]))
	}
	return vs
}

// fromView makes a value of type t whose view is v; what it points to is new.
func (x *X) fromView(st *State, t types.Type, v *T) *T {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if v.op == "ctor" && v.str == "some" {
			if n, ok := opaqueName(p.Elem()); ok {
				return x.newNamed(st, n, v.args[0])
			}
			r := x.alloc(st, "ext")
			x.store(st, r, p.Elem(), x.inflate(p.Elem(), v.args[0]))
			return r
		}
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		return x.newSlice(st, s.Elem(), x.inflateSeq(s.Elem(), v), "ext")
	}
	return x.inflate(t, v)
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func (x *X) pureCall(st *State, c *callCtx, name string, k cont) {
	m := x.m
	vs := x.argViews(st, c)
	res := c.sig.Results()
	n := res.Len()
	hasErr := n > 0 && isErrorType(res.At(n-1).Type())
	ok := func(st *State) {
		var rs []*T
		for i := 0; i < n; i++ {
			t := res.At(i).Type()
			if hasErr && i == n-1 {
				rs = append(rs, m.nilIf)
				continue
			}
			u := fmt.Sprintf("ext%d:%s", i, name)
			if p, isP := t.Underlying().(*types.Pointer); isP {
				rs = append(rs, x.fromView(st, t, m.Ctor("some", x.viewSort(t), m.UF(u, x.viewSort(p.Elem()), vs...))))
				continue
			}
			rs = append(rs, x.fromView(st, t, m.UF(u, x.viewSort(t), vs...)))
		}
		k(st, rs)
	}
	if !hasErr {
		ok(st)
		return
	}
	x.fork(st, m.UF("extok:"+name, m.Bool(), vs...), ok, func(st *State) {
		e := m.UF("exterr:"+name, m.Iface(), vs...)
		if !st.assume(m.Not(m.Eq(e, m.nilIf))) {
			return
		}
		var rs []*T
		for i := 0; i < n-1; i++ {
			rs = append(rs, x.zero(res.At(i).Type()))
		}
		k(st, append(rs, e))
	})
}

// vcViews are the views of the variadic interface arguments of an intrinsic.
func (x *X) vcViews(st *State, s *T) []*T {
	as, ok := x.variadic(st, s)
	if !ok {
		x.unsup("intrinsic with an unknown number of arguments")
	}
	var vs []*T
	for _, a := range as {
		v := x.viewIface(st, a)
		if v == nil {
			x.unsup("intrinsic argument of unknown type")
		}
		vs = append(vs, v)
	}
	return vs
}

func init() {
	extraNatives = append(extraNatives, func() map[string]native {
		n := map[string]native{}
		// Fn(out, name, args...): *out is an arbitrary function of args.
		n[vcPkg+"Fn"] = func(x *X, st *State, c *callCtx, k cont) {
			m := x.m
			p, t, ok := x.ifaceVal(c.args[0])
			name, ok2 := x.constStr(c.args[1])
			if !ok || !ok2 {
				x.unsup("vc.Fn")
			}
			vs := x.vcViews(st, c.args[2])
			et := t.Underlying().(*types.Pointer).Elem()
			x.store(st, p, et, x.fromView(st, et, m.UF("env:"+name, x.viewSort(et), vs...)))
			k(st, nil)
		}
		// Fails(name, args...): whether the environment fails, an arbitrary
		// function of args, and the error it fails with.
		n[vcPkg+"Fails"] = func(x *X, st *State, c *callCtx, k cont) {
			m := x.m
			name, ok := x.constStr(c.args[0])
			if !ok {
				x.unsup("vc.Fails")
			}
			k(st, []*T{m.UF("enverr:"+name, m.Iface(), x.vcViews(st, c.args[1])...)})
		}
		return n
	})
}
