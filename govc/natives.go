package main

import (
	"go/constant"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const vcPkg = "github.com/carlakc/boltnd/verifvc."

func (x *X) constStr(t *T) (string, bool) {
	switch t.op {
	case "strc":
		return t.str, true
	case "empty":
		return "", true
	}
	return "", false
}

// pure wraps a function of terms.
func pureN(f func(x *X, st *State, a []*T) []*T) native {
	return func(x *X, st *State, c *callCtx, k cont) { k(st, f(x, st, c.args)) }
}

func noop(n int) native {
	return func(x *X, st *State, c *callCtx, k cont) {
		var rs []*T
		for i := 0; i < c.sig.Results().Len(); i++ {
			rs = append(rs, x.zero(c.sig.Results().At(i).Type()))
		}
		k(st, rs)
	}
}

// ifaceVal unpacks an interface{} holding a known dynamic type.
func (x *X) ifaceVal(t *T) (*T, types.Type, bool) {
	if t.op == "ctor" && strings.HasPrefix(t.str, "if:") {
		return t.args[0], x.ifTypes[t.str[3:]], true
	}
	return nil, nil, false
}

func (x *X) viewIface(st *State, t *T) *T {
	if t.op == "ite" {
		a, b := x.viewIface(st, t.args[1]), x.viewIface(st, t.args[2])
		if a != nil && b != nil && a.sort.smt == b.sort.smt {
			return x.m.Ite(t.args[0], a, b)
		}
		return nil
	}
	v, ty, ok := x.ifaceVal(t)
	if !ok {
		return nil
	}
	return x.view(st, ty, v)
}

// variadic gives the elements of a variadic argument of known length.
func (x *X) variadic(st *State, s *T) ([]*T, bool) {
	s = x.normSlice(s)
	if s.op != "mk" || s.args[2].op != "int" {
		return nil, false
	}
	c := x.content(st, s, types.NewInterfaceType(nil, nil))
	n := int(s.args[2].n.Int64())
	var r []*T
	for i := 0; i < n; i++ {
		r = append(r, x.m.At(c, x.m.Int64(int64(i))))
	}
	return r, true
}

// ---- errors

func (x *X) errNew(st *State, msg *T) *T {
	return x.m.Ctor("errnew", x.m.Iface(), x.alloc(st, "err"), msg)
}

func (x *X) errWrap(st *State, inner *T) *T {
	return x.m.Ctor("errw", x.m.Iface(), x.alloc(st, "err"), inner)
}

func (x *X) errStatus(st *State, code *T) *T {
	return x.m.Ctor("errst", x.m.Iface(), x.alloc(st, "err"), code)
}

func (x *X) errIs(st *State, e, t *T) *T {
	m := x.m
	if e == t {
		return m.tTrue
	}
	switch e.op {
	case "ite":
		return m.Ite(e.args[0], x.errIs(st, e.args[1], t), x.errIs(st, e.args[2], t))
	case "nilif":
		return m.Eq(t, m.nilIf)
	case "ctor":
		eq := m.Eq(e, t)
		if e.str == "errw" {
			return m.Or(eq, m.And(m.Not(m.Eq(t, m.nilIf)), x.errIs(st, e.args[1], t)))
		}
		return eq
	}
	if t.op == "ite" {
		return m.Ite(t.args[0], x.errIs(st, e, t.args[1]), x.errIs(st, e, t.args[2]))
	}
	if s, ok := st.f.subst[e]; ok && s != e {
		return x.errIs(st, s, t)
	}
	if t.op == "nilif" {
		return m.Eq(e, m.nilIf)
	}
	return m.Or(m.Eq(e, t), m.And(m.Not(m.Eq(e, m.nilIf)), m.UF("erris", m.Bool(), e, t)))
}

func (x *X) errUnwrap(st *State, e *T) *T {
	m := x.m
	switch e.op {
	case "ite":
		return m.Ite(e.args[0], x.errUnwrap(st, e.args[1]), x.errUnwrap(st, e.args[2]))
	case "nilif":
		return m.nilIf
	case "ctor":
		if e.str == "errw" {
			return e.args[1]
		}
		if e.str == "errnew" || e.str == "errst" {
			return m.nilIf
		}
	}
	return m.UF("errunwrap", m.Iface(), e)
}

// errCode: (is a grpc status, code)
func (x *X) errCode(st *State, e *T) (*T, *T) {
	m := x.m
	cs := m.rangedInt("uint32", bigZero, new(big.Int).Sub(new(big.Int).Lsh(bigOne, 32), bigOne))
	switch e.op {
	case "ite":
		a, b := x.errCode(st, e.args[1])
		c, d := x.errCode(st, e.args[2])
		return m.Ite(e.args[0], a, c), m.Ite(e.args[0], b, d)
	case "nilif":
		return m.tTrue, m.zero
	case "ctor":
		switch e.str {
		case "errst":
			return m.tTrue, e.args[1]
		case "errnew":
			return m.tFals, m.Int64(2)
		case "errw":
			// status.FromError looks through wrapping.
			ok, c := x.errCode(st, e.args[1])
			if e.args[1].op == "nilif" {
				return m.tFals, m.Int64(2)
			}
			return ok, m.Ite(ok, c, m.Int64(2))
		}
		if strings.HasPrefix(e.str, "errglob:") {
			return m.tFals, m.Int64(2)
		}
	}
	if s, ok := st.f.subst[e]; ok && s != e {
		return x.errCode(st, s)
	}
	nn := m.Not(m.Eq(e, m.nilIf))
	is := m.UF("isstatus", m.Bool(), e)
	return m.Or(m.Not(nn), is), m.Ite(nn, m.Ite(is, m.UF("statuscode", cs, e), m.Int64(2)), m.zero)
}

func (x *X) isStatusOK(st *State, e *T) *T {
	ok, _ := x.errCode(st, e)
	return ok
}

// ---- keys

func (x *X) pkSort() *Sort { return x.m.opaque("PublicKey") }

// pkLoad reads the public key behind a pointer.
func (x *X) pkLoad(st *State, c *callCtx, p *T, what string) (*T, bool) {
	if !x.oblige(st, "panic-free:nil public key in "+what, x.pos(c.site), x.m.Not(x.m.Eq(p, x.m.zero))) {
		return nil, false
	}
	return x.loadNamed(st, p, "PublicKey"), true
}

func (x *X) loadNamed(st *State, p *T, name string) *T {
	m := x.m
	if p.op == "ite" {
		if p.args[1].op == "int" {
			return x.loadNamed(st, p.args[2], name)
		}
		if p.args[2].op == "int" {
			return x.loadNamed(st, p.args[1], name)
		}
		return m.Ite(p.args[0], x.loadNamed(st, p.args[1], name), x.loadNamed(st, p.args[2], name))
	}
	if p.op == "fp" {
		info := x.fps[p.str]
		switch info.kind {
		case "f":
			return m.Fld(x.load(st, p.args[0], info.t), info.idx)
		case "e":
			return m.At(x.backing(st, p.args[0], info.t), p.args[1])
		}
	}
	if p.op == "vref" {
		return x.unsome(p.args[0])
	}
	return m.Select(x.h(st, "T:"+name, m.opaque(name)), p)
}

func (x *X) newNamed(st *State, name string, v *T) *T {
	p := x.alloc(st, shortName(name))
	k := "T:" + name
	st.heap[k] = x.m.Store(x.h(st, k, x.m.opaque(name)), p, v)
	return p
}

// pkser is the 33 byte compressed serialisation.
func (x *X) pkser(pk *T) *T {
	return x.m.Call("pkser", x.m.byteSeq(), pk)
}

func (x *X) xonly(pk *T) *T {
	return x.m.Call("xonly", x.m.byteSeq(), pk)
}

func initUFs(m *TM) {
	c := func(n int64) func(m *TM, t *T) *T { return func(m *TM, t *T) *T { return m.Int64(n) } }
	ufLens["pkser"] = c(33)
	ufLens["xonly"] = c(32)
	ufLens["bigsize"] = func(m *TM, t *T) *T {
		r := m.Int64(9)
		for _, k := range []struct{ lim, n int64 }{{1 << 32, 5}, {1 << 16, 3}, {0xfd, 1}} {
			r = m.Ite(m.Lt(t.args[0], m.Int64(k.lim)), m.Int64(k.n), r)
		}
		return r
	}
	ufSimp["bigsize"] = func(m *TM, as []*T) *T {
		if as[0].op != "int" {
			return nil
		}
		n := as[0].n.Uint64()
		k, b := 8, []byte{0xff}
		switch {
		case n < 0xfd:
			return m.Str(string([]byte{byte(n)}))
		case n < 1<<16:
			k, b = 2, []byte{0xfd}
		case n < 1<<32:
			k, b = 4, []byte{0xfe}
		}
		for i := k - 1; i >= 0; i-- {
			b = append(b, byte(n>>(8*uint(i))))
		}
		return m.Str(string(b))
	}
	// Integers without leading zero bytes.
	ufLens["min64"] = func(m *TM, t *T) *T {
		r := m.Int64(8)
		for k := int64(7); k >= 0; k-- {
			r = m.Ite(m.Lt(t.args[0], m.IntB(new(big.Int).Lsh(big.NewInt(1), uint(8*k)))), m.Int64(k), r)
		}
		return r
	}
	ufSimp["min64"] = func(m *TM, as []*T) *T {
		if as[0].op != "int" {
			return nil
		}
		return m.Str(string(as[0].n.Bytes()))
	}
	ufSimp["unmin64"] = func(m *TM, as []*T) *T {
		if a := as[0]; a.op == "uf" && a.str == "min64" {
			return a.args[0]
		}
		if m.Len(as[0]) == m.zero {
			return m.zero
		}
		return nil
	}
	ufSimp["ismin64"] = func(m *TM, as []*T) *T {
		if a := as[0]; a.op == "uf" && a.str == "min64" || m.Len(a) == m.zero {
			return m.tTrue
		}
		return nil
	}
	ufLens["taggedhash"] = c(32)
	ufLens["sha256"] = c(32)
	ufSimp["pkparse"] = func(m *TM, as []*T) *T {
		if as[0].op == "uf" && as[0].str == "pkser" {
			return as[0].args[0]
		}
		return nil
	}
	ufSimp["pkvalid"] = func(m *TM, as []*T) *T {
		b := as[0]
		if b.op == "uf" && b.str == "pkser" {
			return m.tTrue
		}
		if l := m.Len(b); l.op == "int" && l.n.Int64() != 33 && l.n.Int64() != 65 {
			return m.tFals
		}
		return nil
	}
	ufSimp["pkser"] = func(m *TM, as []*T) *T { return nil }
	// x-only keys: lifting a serialised x coordinate gives the key with even y.
	ufSimp["xvalid"] = func(m *TM, as []*T) *T {
		b := as[0]
		if b.op == "uf" && b.str == "xonly" {
			return m.tTrue
		}
		if l := m.Len(b); l.op == "int" && l.n.Int64() != 32 {
			return m.tFals
		}
		return nil
	}
	ufSimp["xonly"] = func(m *TM, as []*T) *T {
		if p := as[0]; p.op == "uf" && p.str == "xparse" {
			return p.args[0]
		}
		return nil
	}
	ufSimp["hexenc"] = func(m *TM, as []*T) *T { return nil }
}

func (x *X) bytesOf(st *State, s *T) *T {
	return x.content(st, s, types.Typ[types.Uint8])
}

func (x *X) newBytes(st *State, c *T, what string) *T {
	return x.newSlice(st, types.Typ[types.Uint8], c, what)
}

func callCtxPos(x *X, c *callCtx) string { return x.pos(c.site) }

func (x *X) bufLoad(st *State, c *callCtx, p *T) (*T, bool) {
	if !x.oblige(st, "panic-free:nil buffer", x.pos(c.site), x.m.Not(x.m.Eq(p, x.m.zero))) {
		return nil, false
	}
	return x.bufContent(x.loadNamed(st, p, "bytes.Buffer")), true
}

func (x *X) bufStore(st *State, p, content *T) {
	x.store(st, p, x.bufType(), x.bufMk("bytes.Buffer", content))
}

func (x *X) bufType() types.Type {
	return x.namedType("bytes", "Buffer")
}

func (x *X) namedType(pkg, name string) types.Type {
	p := x.prog.ImportedPackage(pkg)
	if p == nil {
		x.unsup("package %s not loaded", pkg)
	}
	return p.Pkg.Scope().Lookup(name).Type()
}

func basicNatives() map[string]native {
	n := map[string]native{}
	one := func(t ...*T) []*T { return t }
	// errors
	n["errors.New"] = pureN(func(x *X, st *State, a []*T) []*T { return one(x.errNew(st, a[0])) })
	n["errors.Is"] = pureN(func(x *X, st *State, a []*T) []*T { return one(x.errIs(st, a[0], a[1])) })
	n["errors.Unwrap"] = pureN(func(x *X, st *State, a []*T) []*T { return one(x.errUnwrap(st, a[0])) })
	n["fmt.Errorf"] = func(x *X, st *State, c *callCtx, k cont) {
		f, ok := x.constStr(c.args[0])
		if !ok {
			k(st, one(x.errNew(st, x.freshSym(st, "msg", x.m.byteSeq()))))
			return
		}
		idx := -1
		n := 0
		for i := 0; i+1 < len(f); i++ {
			if f[i] != '%' {
				continue
			}
			j := i + 1
			for j < len(f) && strings.IndexByte("0123456789.+-# ", f[j]) >= 0 {
				j++
			}
			if j < len(f) && f[j] == '%' {
				i = j
				continue
			}
			if j < len(f) && f[j] == 'w' && idx < 0 {
				idx = n
			}
			n++
			i = j
		}
		if idx < 0 {
			k(st, one(x.errNew(st, x.m.Str(f))))
			return
		}
		as, ok := x.variadic(st, c.args[1])
		if !ok || idx >= len(as) {
			x.unsup("fmt.Errorf arguments")
		}
		k(st, one(x.errWrap(st, as[idx])))
	}
	n["fmt.Sprintf"] = func(x *X, st *State, c *callCtx, k cont) {
		f, ok := x.constStr(c.args[0])
		as, ok2 := x.variadic(st, c.args[1])
		if ok && ok2 && len(as) == 1 && (f == "%v" || f == "%s" || f == "%d") {
			if v := x.viewIface(st, as[0]); v != nil {
				if _, t, _ := x.ifaceVal(as[0]); t != nil && isStringType(t) {
					k(st, one(v))
					return
				}
				k(st, one(x.m.UF("sprint:"+f, x.m.byteSeq(), v)))
				return
			}
		}
		if ok && ok2 && len(as) == 1 && f == "%x" {
			if v, t, ok := x.ifaceVal(as[0]); ok && t != nil && types.NewMethodSet(t).Len() == 0 {
				var b *T
				switch u := t.Underlying().(type) {
				case *types.Basic:
					if isStringType(t) {
						b = v
					}
				case *types.Slice:
					if types.Identical(u.Elem(), types.Typ[types.Uint8]) {
						b = x.bytesOf(st, x.normSlice(v))
					}
				case *types.Array:
					if types.Identical(u.Elem(), types.Typ[types.Uint8]) {
						b = v
					}
				}
				if b != nil {
					k(st, one(x.m.Call("hexenc", x.m.byteSeq(), b)))
					return
				}
			}
		}
		k(st, one(x.freshSym(st, "sprintf", x.m.byteSeq())))
	}
	n["invoke (error).Error"] = pureN(func(x *X, st *State, a []*T) []*T { return one(x.m.UF("errmsg", x.m.byteSeq(), a[0])) })
	n["google.golang.org/grpc/status.Error"] = pureN(func(x *X, st *State, a []*T) []*T {
		return one(x.m.Ite(x.m.Eq(a[0], x.m.zero), x.m.nilIf, x.errStatus(st, a[0])))
	})
	n["google.golang.org/grpc/status.Errorf"] = n["google.golang.org/grpc/status.Error"]
	n["google.golang.org/grpc/status.FromError"] = func(x *X, st *State, c *callCtx, k cont) {
		ok, code := x.errCode(st, c.args[0])
		p := x.newNamed(st, "google.golang.org/grpc/internal/status.Status", x.m.Ctor("status", x.m.opaque("google.golang.org/grpc/internal/status.Status"), code))
		k(st, one(p, ok))
	}
	n["(*google.golang.org/grpc/internal/status.Status).Code"] = func(x *X, st *State, c *callCtx, k cont) {
		v := x.loadNamed(st, c.args[0], "google.golang.org/grpc/internal/status.Status")
		if v.op == "ctor" && v.str == "status" {
			k(st, one(v.args[0]))
			return
		}
		x.unsup("status code of unknown status")
	}
	n["google.golang.org/grpc/status.Code"] = pureN(func(x *X, st *State, a []*T) []*T {
		_, c := x.errCode(st, a[0])
		return one(c)
	})
	n["log"] = noop(0)
	// strings and bytes
	n["bytes.Equal"] = pureN(func(x *X, st *State, a []*T) []*T {
		return one(x.m.Eq(x.bytesOf(st, a[0]), x.bytesOf(st, a[1])))
	})
	n["bytes.Compare"] = pureN(func(x *X, st *State, a []*T) []*T {
		m := x.m
		p, q := x.bytesOf(st, a[0]), x.bytesOf(st, a[1])
		return one(m.Ite(m.Eq(p, q), m.zero, m.Ite(m.UF("bytesless", m.Bool(), p, q), m.Int64(-1), m.one)))
	})
	n["bytes.Join"] = func(x *X, st *State, c *callCtx, k cont) {
		m := x.m
		s := x.normSlice(c.args[0])
		if s.op != "mk" || s.args[2].op != "int" {
			x.unsup("bytes.Join of a list of unknown length")
		}
		cc := x.content(st, s, types.NewSlice(types.Typ[types.Uint8]))
		sep := x.bytesOf(st, c.args[1])
		n := int(s.args[2].n.Int64())
		var ps []*T
		for i := 0; i < n; i++ {
			if i > 0 {
				ps = append(ps, sep)
			}
			ps = append(ps, x.bytesOf(st, x.normSlice(m.At(cc, m.Int64(int64(i))))))
		}
		k(st, one(x.newBytes(st, m.Cat(m.byteSeq(), ps...), "join")))
	}
	n["encoding/hex.EncodeToString"] = pureN(func(x *X, st *State, a []*T) []*T {
		return one(x.m.Call("hexenc", x.m.byteSeq(), x.bytesOf(st, a[0])))
	})
	// buffers
	n["bytes.NewBuffer"] = pureN(func(x *X, st *State, a []*T) []*T {
		return one(x.newNamed(st, "bytes.Buffer", x.bufMk("bytes.Buffer", x.bytesOf(st, a[0]))))
	})
	n["bytes.NewReader"] = pureN(func(x *X, st *State, a []*T) []*T {
		return one(x.newNamed(st, "bytes.Reader", x.bufMk("bytes.Reader", x.bytesOf(st, a[0]))))
	})
	n["(*bytes.Buffer).Bytes"] = func(x *X, st *State, c *callCtx, k cont) {
		b, ok := x.bufLoad(st, c, c.args[0])
		if ok {
			k(st, one(x.newBytes(st, b, "bufbytes")))
		}
	}
	n["(*bytes.Buffer).Len"] = func(x *X, st *State, c *callCtx, k cont) {
		b, ok := x.bufLoad(st, c, c.args[0])
		if ok {
			k(st, one(x.m.Len(b)))
		}
	}
	n["(*bytes.Buffer).Write"] = func(x *X, st *State, c *callCtx, k cont) {
		b, ok := x.bufLoad(st, c, c.args[0])
		if ok {
			add := x.bytesOf(st, c.args[1])
			x.bufStore(st, c.args[0], x.m.Cat(x.m.byteSeq(), b, add))
			k(st, one(x.m.Len(add), x.m.nilIf))
		}
	}
	// hashing and keys
	n["github.com/btcsuite/btcd/chaincfg/chainhash.TaggedHash"] = func(x *X, st *State, c *callCtx, k cont) {
		m := x.m
		tag := x.bytesOf(st, c.args[0])
		s := x.normSlice(c.args[1])
		if s.op != "mk" || s.args[2].op != "int" {
			x.unsup("TaggedHash of a list of unknown length")
		}
		cc := x.content(st, s, types.NewSlice(types.Typ[types.Uint8]))
		var ps []*T
		for i := 0; i < int(s.args[2].n.Int64()); i++ {
			ps = append(ps, x.bytesOf(st, x.normSlice(m.At(cc, m.Int64(int64(i))))))
		}
		h := m.Call("taggedhash", m.seqOf(m.byteSeq().elem, 32), tag, m.Cat(m.byteSeq(), ps...))
		ht := c.sig.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		p := x.alloc(st, "hash")
		x.store(st, p, ht, h)
		k(st, one(p))
	}
	n["github.com/lightningnetwork/lnd/lntypes.MakeHash"] = func(x *X, st *State, c *callCtx, k cont) {
		m := x.m
		b := x.bytesOf(st, c.args[0])
		hs := m.seqOf(m.byteSeq().elem, 32)
		x.fork(st, m.Eq(m.Len(b), m.Int64(32)), func(st *State) {
			k(st, one(x.retag(b, hs), m.nilIf))
		}, func(st *State) {
			k(st, one(x.zero(c.sig.Results().At(0).Type()), x.errNew(st, m.Str("invalid hash length"))))
		})
	}
	ser := func(f string) native {
		return func(x *X, st *State, c *callCtx, k cont) {
			pk := c.args[0]
			if c.fn != nil {
				if _, ptr := c.fn.Signature.Params(), true; ptr && c.fn.Signature.Recv() == nil || isPtr(c) {
					var ok bool
					pk, ok = x.pkLoad(st, c, c.args[0], shortName(c.name))
					if !ok {
						return
					}
				}
			}
			k(st, one(x.newBytes(st, x.m.Call(f, x.m.byteSeq(), pk), f)))
		}
	}
	n["(github.com/decred/dcrd/dcrec/secp256k1/v4.PublicKey).SerializeCompressed"] = ser("pkser")
	n["(*github.com/decred/dcrd/dcrec/secp256k1/v4.PublicKey).SerializeCompressed"] = ser("pkser")
	n["github.com/btcsuite/btcd/btcec/v2/schnorr.SerializePubKey"] = ser("xonly")
	n["(*github.com/decred/dcrd/dcrec/secp256k1/v4.PublicKey).IsEqual"] = func(x *X, st *State, c *callCtx, k cont) {
		a, ok := x.pkLoad(st, c, c.args[0], "IsEqual")
		if !ok {
			return
		}
		b, ok := x.pkLoad(st, c, c.args[1], "IsEqual")
		if ok {
			k(st, one(x.m.Eq(a, b)))
		}
	}
	parse := func(valid, pf, what string) native {
		return func(x *X, st *State, c *callCtx, k cont) {
			m := x.m
			b := x.bytesOf(st, c.args[0])
			x.fork(st, m.Call(valid, m.Bool(), b), func(st *State) {
				k(st, one(x.newNamed(st, "PublicKey", m.Call(pf, x.pkSort(), b)), m.nilIf))
			}, func(st *State) {
				k(st, one(m.zero, x.errNew(st, m.Str(what))))
			})
		}
	}
	n["github.com/btcsuite/btcd/btcec/v2.ParsePubKey"] = parse("pkvalid", "pkparse", "bad public key")
	n["github.com/btcsuite/btcd/btcec/v2/schnorr.ParsePubKey"] = parse("xvalid", "xparse", "bad x-only public key")
	n["github.com/btcsuite/btcd/btcec/v2/schnorr.ParseSignature"] = func(x *X, st *State, c *callCtx, k cont) {
		m := x.m
		b := x.bytesOf(st, c.args[0])
		so := m.opaque("github.com/btcsuite/btcd/btcec/v2/schnorr.Signature")
		x.fork(st, m.UF("sigvalid", m.Bool(), b), func(st *State) {
			k(st, one(x.newNamed(st, so.name, m.UF("sigparse", so, b)), m.nilIf))
		}, func(st *State) {
			k(st, one(m.zero, x.errNew(st, m.Str("bad signature"))))
		})
	}
	n["(*github.com/btcsuite/btcd/btcec/v2/schnorr.Signature).Verify"] = func(x *X, st *State, c *callCtx, k cont) {
		m := x.m
		so := "github.com/btcsuite/btcd/btcec/v2/schnorr.Signature"
		sig := x.loadNamed(st, c.args[0], so)
		pk, ok := x.pkLoad(st, c, c.args[2], "Verify")
		if ok {
			k(st, one(m.UF("schnorrverify", m.Bool(), sig, x.bytesOf(st, c.args[1]), x.xonly(pk))))
		}
	}
	// time
	n["(time.Time).IsZero"] = pureN(func(x *X, st *State, a []*T) []*T {
		return one(x.m.Eq(a[0], x.opaqueZero("Time")))
	})
	n["(time.Time).Unix"] = pureN(func(x *X, st *State, a []*T) []*T {
		return one(x.m.Call("timeunix", x.sort(types.Typ[types.Int64]), a[0]))
	})
	n["time.Unix"] = pureN(func(x *X, st *State, a []*T) []*T {
		return one(x.m.Ctor("unix", x.m.opaque("Time"), a[0], a[1]))
	})
	n["(time.Duration).Seconds"] = pureN(func(x *X, st *State, a []*T) []*T {
		return one(x.m.UF("seconds", x.sort(types.Typ[types.Float64]), a[0]))
	})
	// features
	fe := func(name string) native {
		return func(x *X, st *State, c *callCtx, k cont) {
			v := c.args[0]
			if isPtr(c) {
				v = x.loadNamed(st, v, rawFV)
			}
			k(st, one(x.m.Call("fv:"+name, x.m.Bool(), append([]*T{v}, c.args[1:]...)...)))
		}
	}
	n["(github.com/lightningnetwork/lnd/lnwire.RawFeatureVector).IsEmpty"] = fe("isempty")
	n["(*github.com/lightningnetwork/lnd/lnwire.RawFeatureVector).IsEmpty"] = fe("isempty")
	return n
}

const rawFV = "github.com/lightningnetwork/lnd/lnwire.RawFeatureVector"

func isPtr(c *callCtx) bool {
	if c.fn == nil || c.fn.Signature.Recv() == nil {
		return false
	}
	_, ok := c.fn.Signature.Recv().Type().(*types.Pointer)
	return ok
}

// retag views a sequence at another (fixed length) sequence sort.
func (x *X) retag(v *T, s *Sort) *T {
	if v.sort == s {
		return v
	}
	if v.sort.fixedLen == s.fixedLen {
		return v
	}
	return x.m.Call("arr", s, v)
}

// ---- specification intrinsics

func vcNatives() map[string]native {
	n := map[string]native{}
	one := func(t ...*T) []*T { return t }
	n[vcPkg+"Requires"] = func(x *X, st *State, c *callCtx, k cont) {
		if st.assume(c.args[0]) {
			k(st, nil)
		}
	}
	n[vcPkg+"Ensures"] = func(x *X, st *State, c *callCtx, k cont) {
		name, _ := x.constStr(c.args[0])
		if x.quiet == 0 && !st.pure {
			x.reach[name] = append(x.reach[name], st.f)
		}
		if x.oblige(st, "ensures:"+name, x.pos(c.site), c.args[1]) {
			k(st, nil)
		}
	}
	quant := func(x *X, st *State, c *callCtx, ex bool) *T {
		m := x.m
		bv := m.FreshBV(m.IntS(), 0)
		lo, hi := c.args[0], c.args[1]
		s := st.clone()
		s.pure = true
		s.assume(m.Le(lo, bv))
		s.assume(m.Lt(bv, hi))
		rs := x.evalPureFn(s, func(s2 *State, k cont) {
			x.callTerm(c.fr, s2, c.args[2], []*T{bv}, nil, c.site, k)
		})
		if rs == nil {
			// An empty range.
			if ex {
				return m.tFals
			}
			return m.tTrue
		}
		b := rs[0]
		if ex {
			return m.Not(m.Forall(bv, lo, hi, m.Not(b)))
		}
		return m.Forall(bv, lo, hi, b)
	}
	n[vcPkg+"Forall"] = func(x *X, st *State, c *callCtx, k cont) { k(st, one(quant(x, st, c, false))) }
	n[vcPkg+"Exists"] = func(x *X, st *State, c *callCtx, k cont) { k(st, one(quant(x, st, c, true))) }
	n[vcPkg+"Eq"] = func(x *X, st *State, c *callCtx, k cont) {
		a, b := x.viewIface(st, c.args[0]), x.viewIface(st, c.args[1])
		if a == nil || b == nil {
			x.unsup("vc.Eq of unknown dynamic type")
		}
		if a.sort.smt != b.sort.smt {
			k(st, one(x.m.tFals))
			return
		}
		k(st, one(x.m.Eq(a, b)))
	}
	n[vcPkg+"Same"] = func(x *X, st *State, c *callCtx, k cont) {
		a, ta, ok1 := x.ifaceVal(c.args[0])
		b, tb, ok2 := x.ifaceVal(c.args[1])
		if !ok1 || !ok2 || x.sort(ta) != x.sort(tb) {
			x.unsup("vc.Same of unknown dynamic type")
		}
		k(st, one(x.m.Eq(a, b)))
	}
	n[vcPkg+"MapOver"] = func(x *X, st *State, c *callCtx, k cont) {
		m := x.m
		dst, td, ok1 := x.ifaceVal(c.args[0])
		src, ts, ok2 := x.ifaceVal(c.args[1])
		f, _, ok3 := x.ifaceVal(c.args[2])
		if !ok1 || !ok2 || !ok3 {
			x.unsup("vc.MapOver of unknown dynamic type")
		}
		ud, us := td.Underlying().(*types.Map), ts.Underlying().(*types.Map)
		sv, dv := x.mapVal(st, src, us), x.mapVal(st, dst, ud)
		if m.Fld(sv, 0).sort != m.Fld(dv, 0).sort {
			x.unsup("vc.MapOver with keys of different types")
		}
		bv := m.FreshBV(x.sort(ud.Key()), 0)
		rs := x.evalPureFn(st.clone(), func(s2 *State, k cont) {
			x.callTerm(c.fr, s2, f, []*T{bv}, nil, c.site, k)
		})
		if rs == nil {
			x.unsup("vc.MapOver of a function without a result")
		}
		dom := m.Fld(sv, 0)
		x.setMap(st, dst, ud, m.Mk(dv.sort, dom, m.LamArr(m.Fld(dv, 1).sort, bv, rs[0])))
		k(st, nil)
	}
	n[vcPkg+"Clone"] = func(x *X, st *State, c *callCtx, k cont) {
		v, t, ok := x.ifaceVal(c.args[0])
		if !ok {
			x.unsup("vc.Clone of unknown dynamic type")
		}
		k(st, one(x.makeIface(x.inflate(t, x.view(st, t, v)), t)))
	}
	chanOf := func(x *X, a *T) (*T, types.Type) {
		ch, t, ok := x.ifaceVal(a)
		if !ok {
			x.unsup("channel of unknown type")
		}
		return ch, t.Underlying().(*types.Chan).Elem()
	}
	n[vcPkg+"Closed"] = pureN(func(x *X, st *State, a []*T) []*T {
		ch, _ := chanOf(x, a[0])
		return one(x.chanClosed(st, ch))
	})
	n[vcPkg+"SentN"] = pureN(func(x *X, st *State, a []*T) []*T {
		ch, et := chanOf(x, a[0])
		return one(x.m.Len(x.chanSent(st, ch, et)))
	})
	n[vcPkg+"SentAt"] = func(x *X, st *State, c *callCtx, k cont) {
		p, t, ok := x.ifaceVal(c.args[0])
		ch, et := chanOf(x, c.args[1])
		if !ok {
			x.unsup("vc.SentAt")
		}
		x.store(st, p, t.Underlying().(*types.Pointer).Elem(), x.m.At(x.chanSent(st, ch, et), c.args[2]))
		k(st, nil)
	}
	n[vcPkg+"Is"] = pureN(func(x *X, st *State, a []*T) []*T { return one(x.errIs(st, a[0], a[1])) })
	n[vcPkg+"Code"] = pureN(func(x *X, st *State, a []*T) []*T {
		_, c := x.errCode(st, a[0])
		return one(c)
	})
	n[vcPkg+"Any"] = func(x *X, st *State, c *callCtx, k cont) {
		p, t, ok := x.ifaceVal(c.args[0])
		if !ok {
			x.unsup("vc.Any")
		}
		et := t.Underlying().(*types.Pointer).Elem()
		x.store(st, p, et, x.normVal(et, x.freshSym(st, "any", x.sort(et))))
		k(st, nil)
	}
	n[vcPkg+"Symbolic"] = pureN(func(x *X, st *State, a []*T) []*T { return one(x.m.tTrue) })
	// Ite evaluates both.
	return n
}

var _ = constant.MakeBool
var _ ssa.Value

func init() {
	ufSimp["timeunix"] = func(m *TM, as []*T) *T {
		if a := as[0]; a.op == "ctor" && a.str == "unix" && a.args[1] == m.zero {
			return a.args[0]
		}
		return nil
	}
}

func init() {
	ufSimp["fv:isempty"] = func(m *TM, as []*T) *T {
		switch v := as[0]; {
		case v.op == "ctor" && v.str == "fvempty":
			return m.tTrue
		case v.op == "uf" && v.str == "fvnew":
			return m.Eq(m.Len(v.args[0]), m.zero)
		case v.op == "uf" && v.str == "fvparse":
			return nil
		}
		return nil
	}
}
