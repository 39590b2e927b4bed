package main

import (
	"go/types"
	"math/big"
	"strings"
)

func init() { extraNatives = append(extraNatives, moreNatives) }

// Names of dependency functions assumed pure; see pureExternals.
var morePure = []string{
	"strings.Split", "strings.Join", "strings.HasPrefix", "strings.HasSuffix", "strings.TrimRight", "strings.TrimLeft",
	"github.com/lightningnetwork/lightning-onion.DecryptBlindedData",
	"github.com/lightningnetwork/lightning-onion.NextEphemeral",
	"github.com/lightninglabs/lndclient.AssertVersionCompatible",
}

var u8Seq = func(m *TM, n int64) *Sort { return m.seqOf(m.byteSeq().elem, n) }

// beBytes is the n byte big endian form of v.
func (x *X) beBytes(v *T, n int) *T {
	m := x.m
	if v.op == "uf" && v.str == "unbe64" && n == 8 {
		return v.args[0]
	}
	var ps []*T
	for i := n - 1; i >= 0; i-- {
		d := m.Div(v, m.IntB(new(big.Int).Lsh(bigOne, uint(8*i))))
		d = m.Wrap(d, "u8", nil)
		ps = append(ps, m.Unit(m.byteSeq(), d))
	}
	return m.Cat(m.byteSeq(), ps...)
}

// beVal reads n big endian bytes.
func (x *X) beVal(st *State, b *T, n int, s *Sort) *T {
	m := x.m
	if b.op == "ite" {
		part := func(b *T) *T {
			if l := m.Len(b); l.op == "int" && l.n.Cmp(big.NewInt(int64(n))) < 0 {
				return m.Call("unbe", s, b)
			}
			return x.beVal(st, b, n, s)
		}
		return m.Ite(b.args[0], part(b.args[1]), part(b.args[2]))
	}
	var bs []*T
	for i := 0; i < n; i++ {
		bs = append(bs, x.at(st, b, m.Int64(int64(i))))
	}
	if v := x.joinBytes(st, bs); v != nil {
		return v
	}
	if n == 8 {
		return m.Call("unbe64", s, x.subSeq(st, b, m.zero, m.Int64(8)))
	}
	v := m.zero
	for _, a := range bs {
		v = m.Add(m.MulC(v, big.NewInt(256)), a)
	}
	return v
}

// joinBytes recognises the big endian bytes of a value.
func (x *X) joinBytes(st *State, bs []*T) *T {
	m := x.m
	v := bs[len(bs)-1]
	if v.op == "wrap" && v.str == "u8" {
		v = v.args[0]
	}
next:
	for _, v := range []*T{v, m.Wrap(v, "u64", st.f)} {
		lo, hi := m.Range(v, st.f)
		if lo == nil || hi == nil || lo.Sign() < 0 || hi.BitLen() > 8*len(bs) {
			continue
		}
		for i := range bs {
			if m.Wrap(m.Div(v, m.IntB(new(big.Int).Lsh(bigOne, uint(8*(len(bs)-1-i))))), "u8", st.f) != bs[i] {
				continue next
			}
		}
		return v
	}
	return nil
}

// reader is what an io.Reader value reads from.
func (x *X) readerPtr(st *State, r *T) (*T, string) {
	if s, ok := st.f.subst[r]; ok && s != r {
		r = s
	}
	p, t, ok := x.ifaceVal(r)
	if !ok {
		x.unsup("reading from an unknown io.Reader %.200s", r.String())
	}
	switch n := strings.TrimPrefix(tkey(t), "*"); n {
	case "bytes.Reader", "bytes.Buffer":
		return p, n
	}
	x.unsup("reading from a %s", tkey(t))
	return nil, ""
}

func (x *X) readerGet(st *State, p *T, n string) *T { return x.bufContent(x.loadNamed(st, p, n)) }

func (x *X) readerSet(st *State, p *T, n string, c *T) {
	x.store(st, p, x.namedType("bytes", strings.TrimPrefix(n, "bytes.")), x.bufMk(n, c))
}

// readN takes n bytes off the reader or fails.
func (x *X) readN(st *State, r *T, n *T, ok func(st *State, b *T), fail func(st *State, got, err *T)) {
	m := x.m
	if s, ok := st.f.subst[r]; ok && s != r {
		r = s
	}
	if p, t, is := x.ifaceVal(r); is && tkey(t) == "*io.LimitedReader" {
		lt := x.namedType("io", "LimitedReader")
		i64 := types.Typ[types.Int64]
		under := x.load(st, x.fieldPtr(p, lt, 0), lt.Underlying().(*types.Struct).Field(0).Type())
		np := x.fieldPtr(p, lt, 1)
		left := x.load(st, np, i64)
		x.fork(st, m.Or(m.Le(n, m.zero), m.Le(n, left)), func(st *State) {
			x.readN(st, under, n, func(st *State, b *T) {
				x.store(st, np, i64, m.Sub(left, n))
				ok(st, b)
			}, func(st *State, got, err *T) {
				x.store(st, np, i64, m.Sub(left, m.Len(got)))
				fail(st, got, err)
			})
		}, func(st *State) {
			// Not enough left of the limit.
			u, un := x.readerPtr(st, under)
			c := x.readerGet(st, u, un)
			lim := m.Ite(m.Lt(left, m.zero), m.zero, left)
			lim = m.Ite(m.Le(lim, m.Len(c)), lim, m.Len(c))
			got := x.subSeq(st, c, m.zero, lim)
			x.readerSet(st, u, un, x.subSeq(st, c, lim, m.Len(c)))
			x.store(st, np, i64, m.Sub(left, lim))
			e := m.Ite(m.Eq(lim, m.zero), m.Ctor("errglob:io.EOF", m.Iface()), m.Ctor("errglob:io.ErrUnexpectedEOF", m.Iface()))
			fail(st, got, e)
		})
		return
	}
	p, rn := x.readerPtr(st, r)
	c := x.readerGet(st, p, rn)
	x.fork(st, m.Le(n, m.Len(c)), func(st *State) {
		x.readerSet(st, p, rn, x.subSeq(st, c, n, m.Len(c)))
		ok(st, x.subSeq(st, c, m.zero, n))
	}, func(st *State) {
		x.readerSet(st, p, rn, m.Empty(m.byteSeq()))
		e := m.Ite(m.Eq(m.Len(c), m.zero), m.Ctor("errglob:io.EOF", m.Iface()), m.Ctor("errglob:io.ErrUnexpectedEOF", m.Iface()))
		fail(st, c, e)
	})
}

func (x *X) writerPtr(st *State, w *T) *T {
	if s, ok := st.f.subst[w]; ok && s != w {
		w = s
	}
	p, t, ok := x.ifaceVal(w)
	if !ok || tkey(t) != "*bytes.Buffer" {
		x.unsup("writing to an unknown io.Writer")
	}
	return p
}

func (x *X) bufAppend(st *State, p, b *T) {
	old := x.bufContent(x.loadNamed(st, p, "bytes.Buffer"))
	x.bufStore(st, p, x.m.Cat(x.m.byteSeq(), old, b))
}

func (x *X) setSlice(st *State, s *T, et types.Type, c *T) {
	m := x.m
	s = x.normSlice(s)
	if s.op == "ite" {
		x.unsup("copy to a conditional slice")
	}
	ref, off := s.args[0], s.args[1]
	if ref == m.zero {
		return
	}
	b := x.backing(st, ref, et)
	x.setBacking(st, ref, et, m.Cat(b.sort, m.SubSeq(b, m.zero, off), c, x.subSeq(st, b, m.Add(off, m.Len(c)), m.Len(b))))
}

func moreNatives() map[string]native {
	n := map[string]native{}
	one := func(t ...*T) []*T { return t }
	for _, f := range morePure {
		f := f
		n[f] = func(x *X, st *State, c *callCtx, k cont) { x.pureCall(st, c, f, k) }
	}
	// ---- context
	bg := pureN(func(x *X, st *State, a []*T) []*T { return one(x.m.Ctor("ctx:bg", x.m.Iface())) })
	n["context.Background"], n["context.TODO"] = bg, bg
	derive := func(name string) native {
		return pureN(func(x *X, st *State, a []*T) []*T {
			c := x.alloc(st, "ctx")
			st.heap["G:cancelled"] = x.m.Store(x.h(st, "G:cancelled", x.m.Bool()), c, x.m.tFals)
			return one(x.m.Ctor(name, x.m.Iface(), c, a[0]), x.m.Ctor("native:cancel", x.m.Fn(), c))
		})
	}
	n["context.WithCancel"], n["context.WithTimeout"], n["context.WithDeadline"] = derive("ctx"), derive("ctx:timed"), derive("ctx:timed")
	n["native:cancel"] = func(x *X, st *State, c *callCtx, k cont) {
		m := x.m
		st.heap["G:cancelled"] = m.Store(x.h(st, "G:cancelled", m.Bool()), c.args[0], m.tTrue)
		k(st, nil)
	}
	n["invoke (context.Context).Done"] = pureN(func(x *X, st *State, a []*T) []*T {
		if a[0].op == "ctor" && a[0].str == "ctx:bg" {
			return one(x.m.zero)
		}
		r := x.m.UF("ctxdone", x.refSort(), a[0])
		st.assume(x.m.Not(x.m.Eq(r, x.m.zero)))
		return one(r)
	})
	n["invoke (context.Context).Err"] = pureN(func(x *X, st *State, a []*T) []*T {
		// Asked after Done: not nil then. Otherwise either.
		e := x.m.UF("ctxerr", x.m.Iface(), a[0])
		st.assume(x.m.Not(x.m.Eq(e, x.m.nilIf)))
		x.assumed["context.Context.Err is only called once the context is done"] = true
		return one(e)
	})
	// ---- integers
	put := func(nb int) native {
		return func(x *X, st *State, c *callCtx, k cont) {
			m := x.m
			s := x.normSlice(c.args[len(c.args)-2])
			if !x.oblige(st, "panic-free:index in PutUint", x.pos(c.site), m.Le(m.Int64(int64(nb)), m.Fld(s, 2))) {
				return
			}
			x.setSlice(st, s, types.Typ[types.Uint8], x.beBytes(c.args[len(c.args)-1], nb))
			k(st, nil)
		}
	}
	get := func(nb int) native {
		return func(x *X, st *State, c *callCtx, k cont) {
			m := x.m
			s := x.normSlice(c.args[len(c.args)-1])
			if !x.oblige(st, "panic-free:index in Uint", x.pos(c.site), m.Le(m.Int64(int64(nb)), m.Fld(s, 2))) {
				return
			}
			k(st, one(x.beVal(st, x.bytesOf(st, s), nb, x.sort(c.sig.Results().At(0).Type()))))
		}
	}
	for _, w := range []struct {
		s string
		n int
	}{{"16", 2}, {"32", 4}, {"64", 8}} {
		n["(encoding/binary.bigEndian).PutUint"+w.s] = put(w.n)
		n["(encoding/binary.bigEndian).Uint"+w.s] = get(w.n)
	}
	// ---- readers
	n["io.ReadFull"] = func(x *X, st *State, c *callCtx, k cont) {
		m := x.m
		s := x.normSlice(c.args[1])
		ln := m.Fld(s, 2)
		if st.f.Decide(m.Eq(ln, m.zero)) == 1 {
			k(st, one(m.zero, m.nilIf))
			return
		}
		x.readN(st, c.args[0], ln, func(st *State, b *T) {
			x.setSlice(st, s, types.Typ[types.Uint8], b)
			k(st, one(ln, m.nilIf))
		}, func(st *State, got, err *T) {
			x.setSlice(st, s, types.Typ[types.Uint8], got)
			k(st, one(m.Len(got), err))
		})
	}
	n["io.ReadAll"] = func(x *X, st *State, c *callCtx, k cont) {
		p, rn := x.readerPtr(st, c.args[0])
		b := x.readerGet(st, p, rn)
		x.readerSet(st, p, rn, x.m.Empty(x.m.byteSeq()))
		k(st, one(x.newBytes(st, b, "readall"), x.m.nilIf))
	}
	n["(*bytes.Reader).Len"] = func(x *X, st *State, c *callCtx, k cont) {
		k(st, one(x.m.Len(x.readerGet(st, c.args[0], "bytes.Reader"))))
	}
	n["(*bytes.Buffer).WriteByte"] = func(x *X, st *State, c *callCtx, k cont) {
		x.bufAppend(st, c.args[0], x.m.Unit(x.m.byteSeq(), c.args[1]))
		k(st, one(x.m.nilIf))
	}
	n["invoke (io.Writer).Write"] = func(x *X, st *State, c *callCtx, k cont) {
		x.unsup("write to an unknown writer")
	}
	// ---- lnd wire elements
	const wire = "github.com/lightningnetwork/lnd/lnwire."
	n[wire+"WriteElement"] = func(x *X, st *State, c *callCtx, k cont) {
		m := x.m
		v, t, ok := x.ifaceVal(c.args[1])
		if !ok {
			x.unsup("WriteElement of unknown type")
		}
		switch {
		case tkey(t) == "[]uint8":
			x.bufAppend(st, c.args[0], x.bytesOf(st, v))
		case wrapKind(t) == "u8":
			x.bufAppend(st, c.args[0], m.Unit(m.byteSeq(), v))
		case wrapKind(t) == "u16":
			x.bufAppend(st, c.args[0], x.beBytes(v, 2))
		case wrapKind(t) == "u64":
			x.bufAppend(st, c.args[0], x.beBytes(v, 8))
		case isPkPtr(t):
			x.fork(st, m.Eq(v, m.zero), func(st *State) {
				k(st, one(x.errNew(st, m.Str("cannot write nil pubkey"))))
			}, func(st *State) {
				x.bufAppend(st, c.args[0], x.pkser(x.loadNamed(st, v, "PublicKey")))
				k(st, one(m.nilIf))
			})
			return
		default:
			x.unsup("WriteElement of %s", t)
		}
		k(st, one(m.nilIf))
	}
	n[wire+"ReadElement"] = func(x *X, st *State, c *callCtx, k cont) {
		m := x.m
		v, t, ok := x.ifaceVal(c.args[1])
		if !ok {
			x.unsup("ReadElement of unknown type")
		}
		fail := func(st *State, got, err *T) { k(st, one(err)) }
		if tkey(t) == "[]uint8" {
			ln := m.Fld(x.normSlice(v), 2)
			if st.f.Decide(m.Eq(ln, m.zero)) == 1 {
				k(st, one(m.nilIf))
				return
			}
			// An empty read succeeds at the end of the stream as well.
			x.readN(st, c.args[0], ln, func(st *State, b *T) {
				x.setSlice(st, v, types.Typ[types.Uint8], b)
				k(st, one(m.nilIf))
			}, fail)
			return
		}
		pt, ok := t.Underlying().(*types.Pointer)
		if !ok {
			x.unsup("ReadElement of %s", t)
		}
		et := pt.Elem()
		switch {
		case wrapKind(et) == "u16", wrapKind(et) == "u64", wrapKind(et) == "u8":
			nb := map[string]int{"u8": 1, "u16": 2, "u64": 8}[wrapKind(et)]
			x.readN(st, c.args[0], m.Int64(int64(nb)), func(st *State, b *T) {
				x.store(st, v, et, x.beVal(st, b, nb, x.sort(et)))
				k(st, one(m.nilIf))
			}, fail)
		case isPkPtr(et):
			x.readN(st, c.args[0], m.Int64(33), func(st *State, b *T) {
				x.fork(st, m.Call("pkvalid", m.Bool(), b), func(st *State) {
					x.store(st, v, et, x.newNamed(st, "PublicKey", m.Call("pkparse", x.pkSort(), b)))
					k(st, one(m.nilIf))
				}, func(st *State) { k(st, one(x.errNew(st, m.Str("bad public key")))) })
			}, fail)
		default:
			x.unsup("ReadElement of %s", t)
		}
	}
	// ---- features
	rfvBytes := func(x *X, v *T) *T { return x.m.Call("fvser", x.m.byteSeq(), v) }
	n["(*"+wire+"RawFeatureVector).Encode"] = func(x *X, st *State, c *callCtx, k cont) {
		if x.nonNil(st, c.args[0], c.site) {
			x.bufAppend(st, x.writerPtr(st, c.args[1]), rfvBytes(x, x.loadNamed(st, c.args[0], rawFV)))
			k(st, one(x.m.nilIf))
		}
	}
	n["(*"+wire+"RawFeatureVector).Decode"] = func(x *X, st *State, c *callCtx, k cont) {
		m := x.m
		p, rn := x.readerPtr(st, c.args[1])
		b := x.readerGet(st, p, rn)
		x.fork(st, m.Call("fvvalid", m.Bool(), b), func(st *State) {
			x.readerSet(st, p, rn, m.UF("fvrest", m.byteSeq(), b))
			old := x.loadNamed(st, c.args[0], rawFV)
			if !(old.op == "ctor" && old.str == "fvempty") {
				x.unsup("decoding into a feature vector that may have features")
			}
			x.store(st, c.args[0], x.namedAt(c.fn.Signature.Recv().Type()), m.Call("fvparse", m.opaque(rawFV), b))
			k(st, one(m.nilIf))
		}, func(st *State) {
			x.readerSet(st, p, rn, m.UF("fvrest", m.byteSeq(), b))
			k(st, one(x.errNew(st, m.Str("bad features"))))
		})
	}
	n[wire+"NewFeatureVector"] = func(x *X, st *State, c *callCtx, k cont) {
		m := x.m
		t := c.sig.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		raw := c.args[0]
		fin := func(st *State, raw *T) {
			p := x.alloc(st, "features")
			x.store(st, p, t, m.Mk(x.sort(t), raw, c.args[1]))
			k(st, one(p))
		}
		x.fork(st, m.Eq(raw, m.zero), func(st *State) {
			fin(st, x.newNamed(st, rawFV, m.Ctor("fvempty", m.opaque(rawFV))))
		}, func(st *State) { fin(st, raw) })
	}
	n[wire+"NewRawFeatureVector"] = func(x *X, st *State, c *callCtx, k cont) {
		m := x.m
		bits := x.content(st, x.normSlice(c.args[0]), c.sig.Params().At(0).Type().Underlying().(*types.Slice).Elem())
		v := m.Ctor("fvempty", m.opaque(rawFV))
		if bits.op != "empty" {
			v = m.UF("fvnew", m.opaque(rawFV), bits)
		}
		k(st, one(x.newNamed(st, rawFV, v)))
	}
	n["("+wire+"FeatureBit).IsRequired"] = pureN(func(x *X, st *State, a []*T) []*T {
		return one(x.m.Eq(x.m.Mod(a[0], x.m.Int64(2)), x.m.zero))
	})
	var hasBit func(x *X, v, b *T) *T
	hasBit = func(x *X, v, b *T) *T {
		m := x.m
		switch {
		case v.op == "ctor" && v.str == "fvempty":
			return m.tFals
		case v.op == "ite":
			return m.Ite(v.args[0], hasBit(x, v.args[1], b), hasBit(x, v.args[2], b))
		case v.op == "uf" && v.str == "fvnew":
			bv := m.FreshBV(m.IntS(), 0)
			return m.Not(m.Forall(bv, m.zero, m.Len(v.args[0]), m.Not(m.Eq(m.At(v.args[0], bv), b))))
		}
		return m.UF("fv:isset", m.Bool(), v, b)
	}
	isSet := func(x *X, st *State, c *callCtx, k cont) {
		if x.nonNil(st, c.args[0], c.site) {
			k(st, one(hasBit(x, x.loadNamed(st, c.args[0], rawFV), c.args[1])))
		}
	}
	n["(*"+wire+"RawFeatureVector).IsSet"] = isSet
	n["(*"+wire+"FeatureVector).HasFeature"] = func(x *X, st *State, c *callCtx, k cont) {
		m := x.m
		if !x.nonNil(st, c.args[0], c.site) {
			return
		}
		t := x.namedAt(c.fn.Signature.Recv().Type())
		raw := m.Fld(x.load(st, c.args[0], t), 0)
		f := x.loadNamed(st, raw, rawFV)
		b := c.args[1]
		pair := m.Ite(m.Eq(m.Mod(b, m.Int64(2)), m.zero), m.AddC(b, 1), m.AddC(b, -1))
		k(st, one(m.Or(hasBit(x, f, b), hasBit(x, f, pair))))
	}
	// ---- keys
	n["(*github.com/decred/dcrd/dcrec/secp256k1/v4.PrivateKey).PubKey"] = func(x *X, st *State, c *callCtx, k cont) {
		if x.nonNil(st, c.args[0], c.site) {
			k(st, one(x.newNamed(st, "PublicKey", x.m.UF("pubof", x.pkSort(), x.loadNamed(st, c.args[0], "PrivateKey")))))
		}
	}
	n["github.com/lightningnetwork/lnd/routing/route.NewVertex"] = func(x *X, st *State, c *callCtx, k cont) {
		pk, ok := x.pkLoad(st, c, c.args[0], "NewVertex")
		if ok {
			k(st, one(x.retag(x.pkser(pk), x.sort(c.sig.Results().At(0).Type()))))
		}
	}
	n["github.com/lightningnetwork/lnd/routing/route.NewVertexFromBytes"] = func(x *X, st *State, c *callCtx, k cont) {
		m := x.m
		b := x.bytesOf(st, c.args[0])
		t := c.sig.Results().At(0).Type()
		x.fork(st, m.Eq(m.Len(b), m.Int64(33)), func(st *State) {
			k(st, one(x.retag(b, x.sort(t)), m.nilIf))
		}, func(st *State) { k(st, one(x.zero(t), x.errNew(st, m.Str("bad vertex")))) })
	}
	n["github.com/btcsuite/btcd/btcec/v2.NewPrivateKey"] = func(x *X, st *State, c *callCtx, k cont) {
		m := x.m
		x.fork(st, x.freshSym(st, "entropy", m.Bool()), func(st *State) {
			k(st, one(x.newNamed(st, "PrivateKey", x.freshSym(st, "privkey", m.opaque("PrivateKey"))), m.nilIf))
		}, func(st *State) { k(st, one(m.zero, x.errNew(st, m.Str("no entropy")))) })
	}
	// ---- onion packets
	const op = "github.com/lightningnetwork/lightning-onion.OnionPacket"
	n["(*"+op+").Encode"] = func(x *X, st *State, c *callCtx, k cont) {
		if x.nonNil(st, c.args[0], c.site) {
			x.bufAppend(st, x.writerPtr(st, c.args[1]), x.m.Call("onionser", x.m.byteSeq(), x.loadNamed(st, c.args[0], op)))
			k(st, one(x.m.nilIf))
		}
	}
	n["(*"+op+").Decode"] = func(x *X, st *State, c *callCtx, k cont) {
		m := x.m
		p, rn := x.readerPtr(st, c.args[1])
		b := x.readerGet(st, p, rn)
		if !x.nonNil(st, c.args[0], c.site) {
			return
		}
		x.fork(st, m.Call("onionvalid", m.Bool(), b), func(st *State) {
			st.assume(m.Le(m.Int64(1366), m.Len(b)))
			x.readerSet(st, p, rn, x.subSeq(st, b, m.Int64(1366), m.Len(b)))
			x.store(st, c.args[0], x.namedAt(c.fn.Signature.Recv().Type()), m.Call("onionparse", m.opaque(op), x.subSeq(st, b, m.zero, m.Int64(1366))))
			k(st, one(m.nilIf))
		}, func(st *State) {
			e := m.UF("onionerr", m.Iface(), b)
			st.assume(m.Not(m.Eq(e, m.nilIf)))
			k(st, one(e))
		})
	}
	// ---- the rest
	n["invoke (net.Addr).String"] = pureN(func(x *X, st *State, a []*T) []*T {
		return one(x.m.UF("addrstring", x.m.byteSeq(), a[0]))
	})
	n["invoke (net.Addr).Network"] = pureN(func(x *X, st *State, a []*T) []*T {
		return one(x.m.UF("addrnetwork", x.m.byteSeq(), a[0]))
	})
	n["time.Sleep"] = noop(0)
	n["time.After"] = pureN(func(x *X, st *State, a []*T) []*T { return one(x.alloc(st, "timer")) })
	for _, f := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock",
		"(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done"} {
		n[f] = noop(0)
	}
	// Goroutines run when they are waited for, one after the other.
	n["(*sync.WaitGroup).Wait"] = func(x *X, st *State, c *callCtx, k cont) {
		x.runSpawned(c, st, k)
	}
	// ---- atomics: one step each, so that what they do is what they do alone.
	for _, w := range []string{"Int32", "Int64", "Uint32", "Uint64"} {
		t := map[string]types.Type{"Int32": types.Typ[types.Int32], "Int64": types.Typ[types.Int64],
			"Uint32": types.Typ[types.Uint32], "Uint64": types.Typ[types.Uint64]}[w]
		n["sync/atomic.Load"+w] = func(x *X, st *State, c *callCtx, k cont) {
			if x.nonNil(st, c.args[0], c.site) {
				k(st, one(x.load(st, c.args[0], t)))
			}
		}
		n["sync/atomic.Store"+w] = func(x *X, st *State, c *callCtx, k cont) {
			if x.nonNil(st, c.args[0], c.site) {
				x.store(st, c.args[0], t, c.args[1])
				k(st, nil)
			}
		}
		n["sync/atomic.CompareAndSwap"+w] = func(x *X, st *State, c *callCtx, k cont) {
			m := x.m
			if !x.nonNil(st, c.args[0], c.site) {
				return
			}
			x.fork(st, m.Eq(x.load(st, c.args[0], t), c.args[1]), func(s *State) {
				x.store(s, c.args[0], t, c.args[2])
				k(s, one(m.tTrue))
			}, func(s *State) { k(s, one(m.tFals)) })
		}
	}
	return n
}

func isPkPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	nm, _ := opaqueName(p.Elem())
	return nm == "PublicKey"
}

// namedAt strips a pointer.
func (x *X) namedAt(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func init() {
	ufLens["onionser"] = func(m *TM, t *T) *T { return m.Int64(1366) }
	ufSimp["fvvalid"] = func(m *TM, as []*T) *T {
		if b := as[0]; b.op == "uf" && b.str == "fvser" {
			return m.tTrue
		}
		return nil
	}
	ufSimp["fvser"] = func(m *TM, as []*T) *T {
		if v := as[0]; v.op == "ctor" && v.str == "fvempty" {
			return m.Empty(m.byteSeq())
		}
		return nil
	}
	ufSimp["fvparse"] = func(m *TM, as []*T) *T {
		if b := as[0]; b.op == "uf" && b.str == "fvser" {
			return b.args[0]
		}
		return nil
	}
	ufSimp["onionvalid"] = func(m *TM, as []*T) *T {
		if b := as[0]; b.op == "uf" && b.str == "onionser" {
			return m.tTrue
		}
		if l := m.Len(as[0]); l.op == "int" && l.n.Int64() < 1366 {
			return m.tFals
		}
		return nil
	}
	ufSimp["onionparse"] = func(m *TM, as []*T) *T {
		if b := as[0]; b.op == "uf" && b.str == "onionser" {
			return b.args[0]
		}
		return nil
	}
}

func init() {
	extraLemmas = append(extraLemmas, func(x *X) func(m *TM, t *T) []*T {
		return func(m *TM, t *T) []*T {
			if t.op == "uf" && t.str == "fvser" {
				// A feature bit has 16 bits; two bytes of length.
				return []*T{m.Le(m.Len(t), m.Int64(2+65536/8))}
			}
			if t.op == "uf" && (t.str == "ext0:strings.IndexByte" || t.str == "ext0:strings.LastIndexByte") {
				return []*T{m.Le(m.Int64(-1), t), m.Lt(t, m.Len(t.args[0]))}
			}
			return nil
		}
	})
}

// runSpawned runs the goroutines started so far, in the order they were
// started.
func (x *X) runSpawned(c *callCtx, st *State, k cont) {
	if len(st.spawned) == 0 {
		k(st, nil)
		return
	}
	g := st.spawned[0]
	st.spawned = st.spawned[1:]
	x.assumed["goroutines are run one after the other when they are waited for"] = true
	if strings.HasPrefix(g.fn.str, "invoke:") || strings.HasPrefix(g.fn.str, "builtin:") {
		x.unsup("goroutine of %s", g.fn.str)
	}
	x.callTerm(c.fr, st, g.fn, g.args, nil, c.site, func(st *State, _ []*T) { x.runSpawned(c, st, k) })
}
