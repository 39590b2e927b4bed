package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// State is a symbolic machine state.
type State struct {
	f       *Facts
	heap    map[string]*T
	conds   []*T
	spawned []spawn
	used    map[*T]bool // spare capacities appended to already
	pure    bool        // specification context: no obligations
	noforks int
	site    int       // where execution is
	sites   *siteNode // what was created on this path
}

type spawn struct {
	fn   *T
	args []*T
}

func (st *State) clone() *State {
	n := *st
	n.f = st.f.clone()
	n.heap = make(map[string]*T, len(st.heap)+4)
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.conds = st.conds[:len(st.conds):len(st.conds)]
	n.spawned = st.spawned[:len(st.spawned):len(st.spawned)]
	n.used = make(map[*T]bool, len(st.used))
	for k := range st.used {
		n.used[k] = true
	}
	return &n
}

// assume adds a fact that does not distinguish paths.
func (st *State) assume(t *T) bool { return st.f.Assume(t) }

// branch adds a path decision.
func (st *State) branch(t *T) bool {
	st.conds = append(st.conds, t)
	return st.f.Assume(t)
}

func (x *X) h(st *State, key string, es *Sort) *T {
	if _, ok := x.keySort[key]; !ok {
		x.keySort[key] = es
	}
	if a, ok := st.heap[key]; ok {
		return a
	}
	if x.inInit {
		// Before the initialisation: not to be confused with what it leaves.
		return x.m.Sym("P0:"+key, x.m.arrOf(x.refSort(), es), 0)
	}
	return x.m.Sym("H0:"+key, x.m.arrOf(x.refSort(), es), 0)
}

// fresh symbols and references

func (x *X) freshSym(st *State, name string, s *Sort) *T {
	x.m.nsym++
	x.m.clock++
	t := x.m.Sym(fmt.Sprintf("%s~%d", name, x.m.nsym), s, x.m.clock)
	x.markSite(st, name, t)
	return t
}

// nilFam tells when a slice of a family of slices is nil.
type nilFam struct {
	params []*T
	cond   *T
}

// siteNode lists the creations on a path. A creation is named by where it
// happens (call stack and instruction) and how often that happened before, so
// that it has the same name each time a loop body is explored.
type siteNode struct {
	site string
	ord  int
	prev *siteNode
}

func (x *X) nextSite(st *State, site string) string {
	ord := 0
	for n := st.sites; n != nil; n = n.prev {
		if n.site == site {
			ord = n.ord + 1
			break
		}
	}
	st.sites = &siteNode{site, ord, st.sites}
	return fmt.Sprintf("%s#%d", site, ord)
}

func (x *X) markSite(st *State, name string, t *T) {
	if st == nil {
		return
	}
	x.siteName[t] = x.nextSite(st, fmt.Sprintf("%s@%d", name, st.site))
}

type siteKey struct {
	ctx int
	ins ssa.Instruction
}

func (x *X) siteID(ctx int, ins ssa.Instruction) int {
	k := siteKey{ctx, ins}
	if n, ok := x.siteIDs[k]; ok {
		return n
	}
	n := len(x.siteIDs) + 1
	x.siteIDs[k] = n
	return n
}

func (x *X) alloc(st *State, name string) *T {
	x.m.nsym++
	x.m.clock++
	t := x.m.raw("alloc", fmt.Sprintf("%s~%d", name, x.m.nsym), x.refSort(), nil)
	t.time = x.m.clock
	x.markSite(st, name, t)
	return t
}

func (x *X) normVal(t types.Type, v *T) *T {
	if _, ok := opaqueName(t); ok {
		return v
	}
	m := x.m
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return x.normSlice(v)
	case *types.Struct:
		if x.flatStruct(u) || v.op == "mk" || v.op == "ite" {
			return v
		}
		_ = m
	}
	return v
}

// normSlice makes the fields of a slice value explicit.
func (x *X) normSlice(v *T) *T {
	m := x.m
	switch v.op {
	case "mk":
		return v
	case "ite":
		return m.Ite(v.args[0], x.normSlice(v.args[1]), x.normSlice(v.args[2]))
	}
	l := m.Fld(v, 2)
	return m.Mk(m.sliceSort(), m.Fld(v, 0), m.zero, l, l)
}

func (x *X) load(st *State, p *T, t types.Type) *T {
	return x.normVal(t, x.load0(st, p, t))
}

func (x *X) load0(st *State, p *T, t types.Type) *T {
	m := x.m
	switch p.op {
	case "ite":
		switch st.f.Decide(p.args[0]) {
		case 1:
			return x.load(st, p.args[1], t)
		case -1:
			return x.load(st, p.args[2], t)
		}
		if p.args[1].op == "int" { // nil: excluded by an obligation
			return x.load(st, p.args[2], t)
		}
		if p.args[2].op == "int" {
			return x.load(st, p.args[1], t)
		}
		return m.Ite(p.args[0], x.load(st, p.args[1], t), x.load(st, p.args[2], t))
	case "fp":
		info := x.fps[p.str]
		switch info.kind {
		case "f":
			v := x.load(st, p.args[0], info.t)
			if len(v.sort.fields) == 0 {
				// A field of a value that is abstract here.
				return m.UF(fmt.Sprintf("ofld:%s.%d", tkey(info.t), info.idx), x.sort(t), v)
			}
			return m.Fld(v, info.idx)
		case "e":
			return m.At(x.backing(st, p.args[0], info.t), p.args[1])
		case "ae":
			return m.At(x.load(st, p.args[0], info.t), p.args[1])
		}
	case "vref":
		return x.inflate(t, x.unsome(p.args[0]))
	case "arrref":
		// pointer to an array obtained from a slice
	case "glob":
		// The error values of packages that are not executed.
		if x.extErr[p.str] && types.Identical(t, types.Universe.Lookup("error").Type()) {
			x.assumed["the error variables of dependencies are non-nil, distinct and never changed"] = true
			return m.Ctor("errglob:"+p.str, m.Iface())
		}
	}
	return m.Select(x.h(st, "T:"+x.hkey(t), x.sort(t)), p)
}

func (x *X) hkey(t types.Type) string {
	k := x.hkey0(t)
	if _, ok := x.keyType["T:"+k]; !ok {
		x.keyType["T:"+k] = t
	}
	return k
}

func (x *X) hkey0(t types.Type) string {
	if n, ok := opaqueName(t); ok {
		return n
	}
	return tkey(t)
}

type fpInfo struct {
	kind string // f: field, e: slice element, ae: array element
	t    types.Type
	idx  int
}

func (x *X) fieldPtr(p *T, structT types.Type, i int) *T {
	m := x.m
	if p.op == "ite" {
		if p.args[1].op == "int" {
			return x.fieldPtr(p.args[2], structT, i)
		}
		if p.args[2].op == "int" {
			return x.fieldPtr(p.args[1], structT, i)
		}
		return m.Ite(p.args[0], x.fieldPtr(p.args[1], structT, i), x.fieldPtr(p.args[2], structT, i))
	}
	n := fmt.Sprintf("f:%s.%d", tkey(structT), i)
	x.fps[n] = fpInfo{"f", structT, i}
	return m.raw("fp", n, x.refSort(), nil, p)
}

func (x *X) elemPtr(ref, idx *T, et types.Type) *T {
	m := x.m
	switch ref.op {
	case "ite":
		return m.Ite(ref.args[0], x.elemPtr(ref.args[1], idx, et), x.elemPtr(ref.args[2], idx, et))
	case "arrref":
		return x.arrElemPtr(ref.args[0], idx, x.arrTypes[ref.str])
	}
	n := "e:" + tkey(et)
	x.fps[n] = fpInfo{"e", et, 0}
	return m.raw("fp", n, x.refSort(), nil, ref, idx)
}

func (x *X) arrElemPtr(p, idx *T, at types.Type) *T {
	n := "ae:" + tkey(at)
	x.fps[n] = fpInfo{"ae", at, 0}
	return x.m.raw("fp", n, x.refSort(), nil, p, idx)
}

// arrRef is the backing store of a slice of the array at p.
func (x *X) arrRef(p *T, at types.Type) *T {
	k := tkey(at)
	x.arrTypes[k] = at
	return x.m.raw("arrref", k, x.refSort(), nil, p)
}

func (x *X) store(st *State, p *T, t types.Type, v *T) {
	m := x.m
	switch p.op {
	case "ite":
		switch st.f.Decide(p.args[0]) {
		case 1:
			x.store(st, p.args[1], t, v)
			return
		case -1:
			x.store(st, p.args[2], t, v)
			return
		}
		a, b := p.args[1], p.args[2]
		if a.op != "int" {
			x.store(st, a, t, m.Ite(p.args[0], v, x.load(st, a, t)))
		}
		if b.op != "int" {
			x.store(st, b, t, m.Ite(p.args[0], x.load(st, b, t), v))
		}
		return
	case "fp":
		info := x.fps[p.str]
		switch info.kind {
		case "f":
			base := x.load(st, p.args[0], info.t)
			x.store(st, p.args[0], info.t, m.SetFld(base, info.idx, v))
		case "e":
			x.setBacking(st, p.args[0], info.t, m.Upd(x.backing(st, p.args[0], info.t), p.args[1], v))
		case "ae":
			x.store(st, p.args[0], info.t, m.Upd(x.load(st, p.args[0], info.t), p.args[1], v))
		}
		return
	case "vref":
		x.unsup("store to a specification value")
	}
	if st.pure && p.op != "alloc" {
		x.unsup("store in a specification function")
	}
	k := "T:" + x.hkey(t)
	st.heap[k] = m.Store(x.h(st, k, x.sort(t)), p, v)
}

func (x *X) backing(st *State, ref *T, et types.Type) *T {
	m := x.m
	switch ref.op {
	case "ite":
		switch st.f.Decide(ref.args[0]) {
		case 1:
			return x.backing(st, ref.args[1], et)
		case -1:
			return x.backing(st, ref.args[2], et)
		}
		return m.Ite(ref.args[0], x.backing(st, ref.args[1], et), x.backing(st, ref.args[2], et))
	case "arrref":
		return x.load(st, ref.args[0], x.arrTypes[ref.str])
	case "vref":
		return x.inflateSeq(et, ref.args[0])
	case "int":
		if ref.n.Sign() == 0 {
			return m.Empty(m.seqOf(x.sort(et), -1))
		}
	}
	return m.Select(x.h(st, "A:"+x.hkey(et), m.seqOf(x.sort(et), -1)), ref)
}

func (x *X) setBacking(st *State, ref *T, et types.Type, v *T) {
	switch ref.op {
	case "ite":
		old1, old2 := x.backing(st, ref.args[1], et), x.backing(st, ref.args[2], et)
		x.setBacking(st, ref.args[1], et, x.m.Ite(ref.args[0], v, old1))
		x.setBacking(st, ref.args[2], et, x.m.Ite(ref.args[0], old2, v))
		return
	case "arrref":
		x.store(st, ref.args[0], x.arrTypes[ref.str], v)
		return
	case "vref":
		x.unsup("write to a specification value")
	}
	if x.frozen[ref] {
		x.unsup("write to a slice accumulated by a loop")
	}
	if st.pure && ref.op != "alloc" {
		x.unsup("write in a specification function")
	}
	k := "A:" + x.hkey(et)
	st.heap[k] = x.m.Store(x.h(st, k, x.m.seqOf(x.sort(et), -1)), ref, v)
}

// content is the sequence of elements of slice value s.
func (x *X) content(st *State, s *T, et types.Type) *T {
	m := x.m
	s = x.normSlice(s)
	if s.op == "ite" {
		switch st.f.Decide(s.args[0]) {
		case 1:
			return x.content(st, s.args[1], et)
		case -1:
			return x.content(st, s.args[2], et)
		}
		return m.Ite(s.args[0], x.content(st, s.args[1], et), x.content(st, s.args[2], et))
	}
	ref, off, ln := s.args[0], s.args[1], s.args[2]
	if ln.op == "int" && ln.n.Sign() == 0 || ref == m.zero {
		return m.Empty(m.seqOf(x.sort(et), -1))
	}
	b := x.backing(st, ref, et)
	if off == m.zero && ln.op == "fld" && ref.op == "fld" && ln.args[0] == ref.args[0] {
		// A whole slice.
		if !s.hasBV {
			x.wholeFacts(st, s, b)
		}
		return b
	}
	return x.subSeq(st, b, off, m.Add(off, ln))
}

func (x *X) wholeFacts(st *State, s, b *T) {
	m := x.m
	if st.f.lits[m.Eq(m.Len(b), s.args[2])] {
		return
	}
	st.assume(m.Eq(m.Len(b), s.args[2]))
	st.assume(m.Imp(m.Eq(s.args[0], m.zero), m.Eq(s.args[2], m.zero)))
}

// subSeq uses the facts to normalise trivial slicing.
func (x *X) subSeq(st *State, b, lo, hi *T) *T {
	m := x.m
	if lo == m.zero && hi != m.Len(b) && st.f.Decide(m.Eq(hi, m.Len(b))) == 1 {
		return b
	}
	if lo != hi && st.f.Decide(m.Eq(lo, hi)) == 1 {
		return m.Empty(b.sort)
	}
	if b.op == "cat" {
		// Parts before lo and after hi, according to the facts.
		ps := b.args
		for len(ps) > 1 {
			l := m.Len(ps[0])
			if st.f.Decide(m.Le(l, lo)) != 1 {
				break
			}
			if st.f.Decide(m.Eq(l, lo)) == 1 {
				lo = l
			}
			lo, hi, ps = m.Sub(lo, l), m.Sub(hi, l), ps[1:]
		}
		if len(ps) > 1 && len(ps) <= 8 {
			off := m.zero
			for i := 1; i < len(ps); i++ {
				off = m.Add(off, m.Len(ps[i-1]))
				if st.f.Decide(m.Le(hi, off)) == 1 {
					if st.f.Decide(m.Eq(hi, off)) == 1 {
						hi = off
					}
					ps = ps[:i]
					break
				}
			}
		}
		if len(ps) < len(b.args) {
			return x.subSeq(st, m.Cat(b.sort, ps...), lo, hi)
		}
	}
	return m.SubSeq(b, lo, hi)
}

// newSlice allocates a slice holding c.
func (x *X) newSlice(st *State, et types.Type, c *T, what string) *T {
	m := x.m
	r := x.alloc(st, what)
	x.setBacking(st, r, et, c)
	l := m.Len(c)
	return m.Mk(m.sliceSort(), r, m.zero, l, l)
}

// ---- maps

func (x *X) mapSort(u *types.Map) *Sort {
	m := x.m
	ks, vs := x.sort(u.Key()), x.sort(u.Elem())
	return m.dt("map "+tkey(u), []*Sort{m.arrOf(ks, m.Bool()), m.arrOf(ks, vs)})
}

func (x *X) mapVal(st *State, ref *T, u *types.Map) *T {
	m := x.m
	if ref.op == "ite" {
		return m.Ite(ref.args[0], x.mapVal(st, ref.args[1], u), x.mapVal(st, ref.args[2], u))
	}
	if ref == m.zero {
		return x.emptyMap(u)
	}
	if ref.op == "vref" {
		x.unsup("a map given by its view")
	}
	return m.Select(x.h(st, "M:"+tkey(u), x.mapSort(u)), ref)
}

func (x *X) emptyMap(u *types.Map) *T {
	m := x.m
	s := x.mapSort(u)
	return m.Mk(s, m.ConstArr(s.fields[0], m.tFals), m.ConstArr(s.fields[1], x.zero(u.Elem())))
}

func (x *X) setMap(st *State, ref *T, u *types.Map, v *T) {
	if ref.op == "ite" {
		x.unsup("write to a conditional map")
	}
	if st.pure && ref.op != "alloc" {
		x.unsup("map write in a specification function")
	}
	k := "M:" + tkey(u)
	st.heap[k] = x.m.Store(x.h(st, k, x.mapSort(u)), ref, v)
}

// paramVal is the symbolic value of an input of type t.
func (x *X) paramVal(name string, t types.Type) *T {
	return x.normVal(t, x.m.Sym(name, x.sort(t), 0))
}

func callName(f *ssa.Function) string { return f.String() }
