package main

import (
	"go/types"
	"math/big"
)

// TLV streams of lnd are replaced by their specification: a stream is
// well formed or not ("tlvok"), has records ("tlvhas") and their values
// ("tlvval"); the decoder of each record of a stream that is known is run on
// the value, and has to consume exactly that. Encoding a stream runs the
// encoder of each record, in order.

const tlvPkg = "github.com/lightningnetwork/lnd/tlv."

func (x *X) tlvType(name string) types.Type {
	return x.namedType("github.com/lightningnetwork/lnd/tlv", name)
}

func (x *X) recFld(r *T, name string) *T {
	u := x.tlvType("Record").Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return x.m.Fld(r, i)
		}
	}
	x.unsup("tlv.Record has no field %s", name)
	return nil
}

// tlvRec is a record of a stream whose parts are known: it is there under the
// condition.
type tlvRec struct {
	cond *T
	typ  *big.Int
	val  *T
}

// tlvParse reads the records of a stream that is put together of them.
func (x *X) tlvParse(b *T) ([]tlvRec, bool) {
	if x.tlvMemo == nil {
		x.tlvMemo = map[*T]*[]tlvRec{}
	}
	if r, ok := x.tlvMemo[b]; ok {
		if r == nil {
			return nil, false
		}
		return *r, true
	}
	x.tlvMemo[b] = nil
	if b.op != "cat" && b.op != "ite" && b.op != "empty" && b.op != "strc" {
		return nil, false
	}
	m := x.m
	parts := append([]*T{}, catParts(b)...)
	var out []tlvRec
	num := func() *T {
		if len(parts) == 0 {
			return nil
		}
		p := parts[0]
		if p.op == "uf" && p.str == "bigsize" {
			parts = parts[1:]
			return p.args[0]
		}
		if p.op != "strc" {
			return nil
		}
		n, l := int64(p.str[0]), 1
		switch {
		case n == 0xfd && len(p.str) >= 3:
			n, l = int64(p.str[1])<<8|int64(p.str[2]), 3
			if n < 0xfd {
				return nil
			}
		case n >= 0xfd:
			return nil
		}
		parts = parts[1:]
		if l < len(p.str) {
			parts = append([]*T{m.Str(p.str[l:])}, parts...)
		}
		return m.Int64(n)
	}
	for len(parts) > 0 {
		if p := parts[0]; p.op == "ite" {
			for i, c := range []*T{p.args[0], m.Not(p.args[0])} {
				rs, ok := x.tlvParse(p.args[1+i])
				if !ok {
					return nil, false
				}
				for _, r := range rs {
					out = append(out, tlvRec{m.And(c, r.cond), r.typ, r.val})
				}
			}
			parts = parts[1:]
			continue
		}
		typ := num()
		if typ == nil || typ.op != "int" {
			return nil, false
		}
		left := num()
		if left == nil {
			return nil, false
		}
		var val []*T
		for left != m.zero {
			if len(parts) == 0 || left.op == "int" && left.n.Sign() < 0 {
				return nil, false
			}
			p := parts[0]
			parts = parts[1:]
			if p.op == "strc" && left.op == "int" && left.n.Cmp(big.NewInt(int64(len(p.str)))) < 0 {
				k := left.n.Int64()
				parts = append([]*T{m.Str(p.str[k:])}, parts...)
				p = m.Str(p.str[:k])
			}
			left = m.Sub(left, m.Len(p))
			val = append(val, p)
		}
		out = append(out, tlvRec{m.tTrue, typ.n, m.Cat(m.byteSeq(), val...)})
	}
	x.tlvMemo[b] = &out
	return out, true
}

// tlvOK tells whether b is a stream of records of ascending types.
func (x *X) tlvOK(b *T) *T {
	m := x.m
	rs, ok := x.tlvParse(b)
	if !ok {
		return m.Call("tlvok", m.Bool(), b)
	}
	var cs []*T
	for i, r := range rs {
		cs = append(cs, m.Or(m.Not(r.cond), m.Le(m.Len(r.val), m.Int64(65535))))
		for _, q := range rs[:i] {
			if q.typ.Cmp(r.typ) >= 0 {
				cs = append(cs, m.Not(m.And(q.cond, r.cond)))
			}
		}
	}
	return m.And(cs...)
}

func (x *X) tlvHas(b, t *T) *T {
	m := x.m
	rs, ok := x.tlvParse(b)
	if !ok {
		return m.Call("tlvhas", m.Bool(), b, t)
	}
	has := m.tFals
	for _, r := range rs {
		has = m.Or(has, m.And(m.Eq(t, m.IntB(r.typ)), r.cond))
	}
	return has
}
func (x *X) tlvVal(st *State, b, t *T) *T {
	m := x.m
	if rs, ok := x.tlvParse(b); ok {
		v := m.Empty(m.byteSeq())
		for _, r := range rs {
			v = m.Ite(m.And(m.Eq(t, m.IntB(r.typ)), r.cond), r.val, v)
		}
		return v
	}
	v := m.Call("tlvval", m.byteSeq(), b, t)
	if st != nil {
		x.axiom(st, m.Le(m.Len(v), m.Int64(65535)))
	}
	return v
}

// seqVal is an immutable slice.
func (x *X) seqVal(v *T) *T {
	l := x.m.Len(v)
	return x.m.Mk(x.m.sliceSort(), x.m.raw("vref", "", x.refSort(), nil, v), x.m.zero, l, l)
}

func (x *X) recSeq() *Sort { return x.m.seqOf(x.sort(x.tlvType("Record")), -1) }

func (x *X) scratch8(st *State) *T {
	at := types.NewArray(types.Typ[types.Uint8], 8)
	p := x.alloc(st, "scratch")
	x.store(st, p, at, x.normVal(at, x.freshSym(st, "scratchval", x.sort(at))))
	return p
}

func (x *X) ptrIface(p *T, t types.Type) *T { return x.makeIface(p, types.NewPointer(t)) }

// units lists the elements of a sequence of known length.
func (x *X) units(t *T) []*T {
	m := x.m
	ln := m.Len(t)
	if ln.op != "int" {
		return nil
	}
	var us []*T
	for i := int64(0); i < ln.n.Int64(); i++ {
		us = append(us, m.At(t, m.Int64(i)))
	}
	return us
}

func (x *X) freshErr(st *State) *T {
	e := x.freshSym(st, "tlverr", x.m.Iface())
	st.assume(x.m.Not(x.m.Eq(e, x.m.nilIf)))
	return e
}

func (x *X) tlvDecode(st *State, c *callCtx, wantMap bool, k cont) {
	m := x.m
	if !x.nonNil(st, c.args[0], c.site) {
		return
	}
	recs := m.Select(x.h(st, "G:tlvrecs", x.recSeq()), c.args[0])
	us := x.units(recs)
	if us == nil && m.Len(recs) != m.zero {
		x.unsup("decoding a TLV stream of an unknown number of records")
	}
	p, rn := x.readerPtr(st, c.args[1])
	b := x.readerGet(st, p, rn)
	buf := x.scratch8(st)
	start := st.clone()
	x.readerSet(start, p, rn, x.freshSym(st, "tlvleft", m.byteSeq()))
	n0 := len(st.conds)
	cur := st
	x.readerSet(cur, p, rn, m.Empty(m.byteSeq()))
	ret := func(st *State, mp, err *T) {
		if wantMap {
			k(st, []*T{mp, err})
		} else {
			k(st, []*T{err})
		}
	}
	fail := func() {
		if !start.branch(m.Not(m.And(cur.conds[n0:]...))) {
			return
		}
		for _, r := range us {
			if v, t, ok := x.ifaceVal(x.recFld(r, "value")); ok {
				if pt, ok := t.Underlying().(*types.Pointer); ok {
					x.store(start, v, pt.Elem(), x.normVal(pt.Elem(), x.freshSym(start, "partial", x.sort(pt.Elem()))))
					continue
				}
			}
			x.unsup("record value that is no pointer")
		}
		ret(start, m.zero, x.freshErr(start))
	}
	if !cur.branch(x.tlvOK(b)) {
		fail()
		return
	}
	rest := x.freshSym(cur, "tlvrest", m.byteSeq())
	rt := x.namedType("bytes", "Reader")
	for _, r := range us {
		typ := x.recFld(r, "typ")
		has, val := x.tlvHas(b, typ), x.tlvVal(cur, b, typ)
		base := cur.clone()
		nc, nf := len(base.conds), len(base.f.list)
		var arms []*State
		no, yes := cur.clone(), cur.clone()
		if no.branch(m.Not(has)) {
			arms = append(arms, no)
		}
		if yes.branch(has) {
			rp := x.newNamed(yes, "bytes.Reader", x.bufMk("bytes.Reader", m.Cat(m.byteSeq(), val, rest)))
			rd := x.ptrIface(rp, rt)
			ln := m.Wrap(m.Len(val), "u64", yes.f)
			x.callTerm(c.fr, yes, x.recFld(r, "decoder"), []*T{rd, x.recFld(r, "value"), buf, ln}, nil, c.site, func(s *State, rs []*T) {
				if !s.branch(m.Eq(rs[0], m.nilIf)) {
					return
				}
				left := x.readerGet(s, rp, "bytes.Reader")
				x.oblige(s, "record decoder reads exactly its record", x.pos(c.site), m.Eq(left, rest))
				arms = append(arms, s)
			})
		}
		if len(arms) == 0 {
			cur.branch(m.tFals)
			fail()
			return
		}
		cur, _ = x.joinStates(base, nc, nf, arms)
		x.scramble(cur, buf)
	}
	fail()
	u := x.tlvType("TypeMap").Underlying().(*types.Map)
	ms := x.mapSort(u)
	bv := m.FreshBV(x.sort(u.Key()), b.time)
	dom := m.LamArr(ms.fields[0], bv, x.tlvHas(b, bv))
	bv2 := m.FreshBV(x.sort(u.Key()), b.time)
	vals := m.LamArr(ms.fields[1], bv2, x.seqVal(x.tlvVal(nil, b, bv2)))
	for _, r := range us {
		vals = m.Store(vals, x.recFld(r, "typ"), x.zero(u.Elem()))
	}
	if !wantMap {
		ret(cur, nil, m.nilIf)
		return
	}
	mp := x.alloc(cur, "tlvmap")
	x.setMap(cur, mp, u, m.Mk(ms, dom, vals))
	ret(cur, mp, m.nilIf)
}

func init() {
	extraNatives = append(extraNatives, func() map[string]native {
		n := map[string]native{}
		n[tlvPkg+"NewStream"] = func(x *X, st *State, c *callCtx, k cont) {
			m := x.m
			et := x.tlvType("Record")
			recs := m.iteCtx(x.content(st, x.normSlice(c.args[0]), et))
			fin := func(st *State) {
				p := x.alloc(st, "stream")
				st.heap["G:tlvrecs"] = m.Store(x.h(st, "G:tlvrecs", x.recSeq()), p, recs)
				k(st, []*T{p, m.nilIf})
			}
			x.fork(st, x.ascending(recs), fin, func(st *State) { k(st, []*T{m.zero, m.Ctor("errglob:"+tlvPkg+"ErrStreamNotCanonical", m.Iface())}) })
		}
		n["(*"+tlvPkg+"Stream).DecodeWithParsedTypes"] = func(x *X, st *State, c *callCtx, k cont) { x.tlvDecode(st, c, true, k) }
		n["(*"+tlvPkg+"Stream).Decode"] = func(x *X, st *State, c *callCtx, k cont) { x.tlvDecode(st, c, false, k) }
		n["(*"+tlvPkg+"Stream).Encode"] = func(x *X, st *State, c *callCtx, k cont) { x.tlvEncode(st, c, k) }
		n[tlvPkg+"DTUint64"] = func(x *X, st *State, c *callCtx, k cont) {
			m := x.m
			bad := func(st *State) { k(st, []*T{x.freshErr(st)}) }
			p, t, ok := x.ifaceVal(c.args[1])
			if !ok {
				x.unsup("tlv.DTUint64 of an unknown value")
			}
			u64 := types.Typ[types.Uint64]
			if pt, ok := t.Underlying().(*types.Pointer); !ok || !types.Identical(pt.Elem(), u64) {
				bad(st)
				return
			}
			x.fork(st, m.Le(c.args[3], m.Int64(8)), func(st *State) {
				x.readN(st, c.args[0], c.args[3], func(st *State, b *T) {
					x.scramble(st, c.args[2])
					ok, v := x.unmin64(st, b)
					x.fork(st, ok, func(st *State) {
						x.store(st, p, u64, v)
						k(st, []*T{m.nilIf})
					}, func(st *State) {
						x.store(st, p, u64, x.normVal(u64, x.freshSym(st, "tu64", m.IntS())))
						bad(st)
					})
				}, func(st *State, got, err *T) {
					x.scramble(st, c.args[2])
					bad(st)
				})
			}, bad)
		}
		n[tlvPkg+"ETUint64T"] = func(x *X, st *State, c *callCtx, k cont) {
			x.scramble(st, c.args[2])
			x.bufAppend(st, x.writerPtr(st, c.args[0]), x.m.Call("min64", x.m.byteSeq(), c.args[1]))
			k(st, []*T{x.m.nilIf})
		}
		n[tlvPkg+"SizeTUint64"] = func(x *X, st *State, c *callCtx, k cont) {
			k(st, []*T{x.m.Len(x.m.Call("min64", x.m.byteSeq(), c.args[0]))})
		}
		n[vcPkg+"Min64"] = func(x *X, st *State, c *callCtx, k cont) {
			k(st, []*T{x.seqVal(x.m.Call("min64", x.m.byteSeq(), c.args[0]))})
		}
		n[vcPkg+"UnMin64"] = func(x *X, st *State, c *callCtx, k cont) {
			ok, v := x.unmin64(st, x.bytesOf(st, c.args[0]))
			k(st, []*T{x.m.Ite(ok, v, x.m.zero), ok})
		}
		record := func(x *X, st *State, typ, v *T) *T {
			b := x.bytesOf(st, v)
			return x.m.Cat(x.m.byteSeq(), x.bigSize(st, typ), x.bigSize(st, x.m.Len(b)), b)
		}
		n[vcPkg+"TLV"] = func(x *X, st *State, c *callCtx, k cont) {
			k(st, []*T{x.seqVal(record(x, st, c.args[0], c.args[1]))})
		}
		n[vcPkg+"OptTLV"] = func(x *X, st *State, c *callCtx, k cont) {
			k(st, []*T{x.seqVal(x.m.iteCtx(x.m.Ite(c.args[0], record(x, st, c.args[1], c.args[2]), x.m.Empty(x.m.byteSeq()))))})
		}
		n[vcPkg+"Concat"] = func(x *X, st *State, c *callCtx, k cont) {
			m := x.m
			bt := c.sig.Results().At(0).Type()
			parts := x.content(st, x.normSlice(c.args[0]), bt)
			us := x.units(parts)
			if us == nil && m.Len(parts) != m.zero {
				x.unsup("joining an unknown number of byte strings")
			}
			for i, u := range us {
				us[i] = x.bytesOf(st, u)
			}
			k(st, []*T{x.seqVal(m.Cat(m.byteSeq(), us...))})
		}
		n[vcPkg+"TLVOK"] = func(x *X, st *State, c *callCtx, k cont) {
			k(st, []*T{x.tlvOK(x.bytesOf(st, c.args[0]))})
		}
		n[vcPkg+"TLVGet"] = func(x *X, st *State, c *callCtx, k cont) {
			b := x.bytesOf(st, c.args[0])
			has := x.tlvHas(b, c.args[1])
			k(st, []*T{x.m.Ite(has, x.seqVal(x.tlvVal(st, b, c.args[1])), x.zero(c.sig.Results().At(0).Type())), has})
		}
		return n
	})
}

// ascending: the types of the records are strictly ascending.
func (x *X) ascending(recs *T) *T {
	m := x.m
	memo := map[*T]*ascInfo{}
	if i := x.asc(recs, memo); i != nil {
		return i.ok
	}
	bv := m.FreshBV(m.IntS(), recs.time)
	return m.Forall(bv, m.one, m.Len(recs), m.Lt(x.recFld(m.At(recs, m.AddC(bv, -1)), "typ"), x.recFld(m.At(recs, bv), "typ")))
}

// ascInfo tells of a sequence of records whether it is ascending, whether it
// has any and what the types of the first and last are.
type ascInfo struct{ ok, some, first, last *T }

func (x *X) asc(t *T, memo map[*T]*ascInfo) *ascInfo {
	m := x.m
	if i, ok := memo[t]; ok {
		return i
	}
	var r *ascInfo
	switch t.op {
	case "empty":
		r = &ascInfo{m.tTrue, m.tFals, m.zero, m.zero}
	case "unit":
		k := x.recFld(t.args[0], "typ")
		r = &ascInfo{m.tTrue, m.tTrue, k, k}
	case "ite":
		a, b := x.asc(t.args[1], memo), x.asc(t.args[2], memo)
		if a != nil && b != nil {
			c := t.args[0]
			r = &ascInfo{m.Ite(c, a.ok, b.ok), m.Ite(c, a.some, b.some), m.Ite(c, a.first, b.first), m.Ite(c, a.last, b.last)}
		}
	case "cat":
		r = &ascInfo{m.tTrue, m.tFals, m.zero, m.zero}
		for _, p := range t.args {
			i := x.asc(p, memo)
			if i == nil {
				r = nil
				break
			}
			ok := m.And(r.ok, i.ok, m.Or(m.Not(r.some), m.Not(i.some), m.caseLt(r.last, i.first)))
			r = &ascInfo{ok, m.Or(r.some, i.some), m.Ite(r.some, r.first, i.first), m.Ite(i.some, i.last, r.last)}
		}
	}
	memo[t] = r
	return r
}

// caseLt is a < b, case by case for what is chosen among constants.
func (m *TM) caseLt(a, b *T) *T {
	if a.op == "ite" {
		return m.Ite(a.args[0], m.caseLt(a.args[1], b), m.caseLt(a.args[2], b))
	}
	if b.op == "ite" {
		return m.Ite(b.args[0], m.caseLt(a, b.args[1]), m.caseLt(a, b.args[2]))
	}
	return m.Lt(a, b)
}

func (x *X) tlvEncode(st *State, c *callCtx, k cont) {
	m := x.m
	if !x.nonNil(st, c.args[0], c.site) {
		return
	}
	recs := m.Select(x.h(st, "G:tlvrecs", x.recSeq()), c.args[0])
	buf := x.scratch8(st)
	w := x.writerPtr(st, c.args[1])
	memo := map[*T][2]*T{}
	var enc func(st *State, t *T) [2]*T
	list := func(st *State, ps []*T) [2]*T {
		var bs []*T
		err := m.nilIf
		for i := len(ps) - 1; i >= 0; i-- {
			r := enc(st, ps[i])
			bs = append([]*T{r[0]}, bs...)
			err = m.Ite(m.Eq(r[1], m.nilIf), err, r[1])
		}
		return [2]*T{m.Cat(m.byteSeq(), bs...), err}
	}
	enc = func(st *State, t *T) [2]*T {
		if r, ok := memo[t]; ok {
			return r
		}
		var r [2]*T
		switch t.op {
		case "empty":
			r = [2]*T{m.Empty(m.byteSeq()), m.nilIf}
		case "unit":
			r = x.encRecord(st, c, t.args[0], buf)
		case "cat":
			r = list(st, t.args)
		case "ite":
			pa, pb := catParts(t.args[1]), catParts(t.args[2])
			n := 0
			for n < len(pa) && n < len(pb) && pa[n] == pb[n] {
				n++
			}
			pre := list(st, pa[:n])
			sa, sb := st.clone(), st.clone()
			ra, rb := [2]*T{m.Empty(m.byteSeq()), m.nilIf}, [2]*T{m.Empty(m.byteSeq()), m.nilIf}
			// What is found only on one side is not remembered.
			old := memo
			cp := func() {
				memo = map[*T][2]*T{}
				for k, v := range old {
					memo[k] = v
				}
			}
			cp()
			if sa.branch(t.args[0]) {
				ra = list(sa, pa[n:])
			}
			cp()
			if sb.branch(m.Not(t.args[0])) {
				rb = list(sb, pb[n:])
			}
			memo = old
			e := m.Ite(t.args[0], ra[1], rb[1])
			r = [2]*T{m.Cat(m.byteSeq(), pre[0], m.Ite(t.args[0], ra[0], rb[0])), m.Ite(m.Eq(pre[1], m.nilIf), e, pre[1])}
		default:
			us := x.units(t)
			if us == nil {
				x.unsup("encoding a TLV stream of an unknown number of records: %v", recs)
			}
			for i, u := range us {
				us[i] = m.Unit(t.sort, u)
			}
			r = list(st, us)
		}
		memo[t] = r
		return r
	}
	r := enc(st, recs)
	r = [2]*T{m.iteCtx(r[0]), m.iteCtx(r[1])}
	x.fork(st, m.Eq(r[1], m.nilIf), func(st *State) {
		x.bufAppend(st, w, r[0])
		k(st, []*T{m.nilIf})
	}, func(st *State) {
		x.bufStore(st, w, x.freshSym(st, "tlvpartial", m.byteSeq()))
		k(st, []*T{r[1]})
	})
}

// encRecord is the encoding of one record: type, length and what its encoder
// writes; or its error.
func (x *X) encRecord(st *State, c *callCtx, r, buf *T) [2]*T {
	m := x.m
	s := st.clone()
	clock := x.m.clock
	n0 := len(s.conds)
	type out struct{ c, b, e *T }
	var outs []out
	wt := x.namedType("bytes", "Buffer")
	p := x.newNamed(s, "bytes.Buffer", x.bufMk("bytes.Buffer", m.Empty(m.byteSeq())))
	before := map[string]*T{}
	for k, v := range s.heap {
		before[k] = v
	}
	enc := func(s *State, size *T) {
		x.callTerm(c.fr, s, x.recFld(r, "encoder"), []*T{x.ptrIface(p, wt), x.recFld(r, "value"), buf}, nil, c.site, func(s *State, rs []*T) {
			for k, v := range s.heap {
				ks, _, _ := heapDiff(v)
				old, _, _ := heapDiff(x.h(&State{heap: before}, k, v.sort.elem))
				seen := map[*T]bool{}
				for _, o := range old {
					seen[o] = true
				}
				for _, r := range ks {
					if r != p && r != buf && int(r.time) <= clock && !(seen[r] && m.Select(v, r) == m.Select(before[k], r)) {
						x.unsup("a record encoder that writes to what it encodes")
					}
				}
			}
			val := x.bufContent(x.loadNamed(s, p, "bytes.Buffer"))
			outs = append(outs, out{m.And(s.conds[n0:]...), m.Cat(m.byteSeq(), x.bigSize(s, size), val), rs[0]})
		})
	}
	sf := x.recFld(r, "sizeFunc")
	if sf.op == "ctor" && sf.str == "nilfn" {
		enc(s, x.recFld(r, "staticSize"))
	} else {
		x.callTerm(c.fr, s, sf, nil, nil, c.site, func(s *State, rs []*T) { enc(s, rs[0]) })
	}
	if len(outs) == 0 {
		return [2]*T{m.Empty(m.byteSeq()), m.nilIf}
	}
	o := outs[len(outs)-1]
	b, e := o.b, o.e
	for i := len(outs) - 2; i >= 0; i-- {
		b, e = m.Ite(outs[i].c, outs[i].b, b), m.Ite(outs[i].c, outs[i].e, e)
	}
	return [2]*T{m.Cat(m.byteSeq(), x.bigSize(st, x.recFld(r, "typ")), b), e}
}

// bigSize is the encoding of an integer.
func (x *X) bigSize(st *State, n *T) *T { return x.m.Call("bigsize", x.m.byteSeq(), n) }

// scramble leaves the scratch space of a codec with unknown content.
func (x *X) scramble(st *State, buf *T) {
	if !x.nonNil(st, buf, nil) {
		return
	}
	at := types.NewArray(types.Typ[types.Uint8], 8)
	x.store(st, buf, at, x.normVal(at, x.freshSym(st, "scratchval", x.sort(at))))
}

// unmin64 tells whether b is an integer without leading zeros and which.
func (x *X) unmin64(st *State, b *T) (*T, *T) {
	m := x.m
	ok, v := m.Call("ismin64", m.Bool(), b), m.Call("unmin64", m.IntS(), b)
	if v.op != "int" && st != nil {
		x.axiom(st, m.Le(m.zero, v))
		x.axiom(st, m.Le(v, m.IntB(new(big.Int).SetUint64(^uint64(0)))))
		x.axiom(st, m.Or(m.Not(ok), m.Le(m.Len(b), m.Int64(8))))
		x.axiom(st, m.Or(m.Not(ok), m.Eq(m.Eq(v, m.zero), m.Eq(m.Len(b), m.zero))))
	}
	return ok, v
}

// axiom assumes what holds whatever the path.
func (x *X) axiom(st *State, t *T) {
	if x.laws == nil {
		x.laws = map[*T]bool{}
	}
	x.laws[t] = true
	st.assume(t)
}
