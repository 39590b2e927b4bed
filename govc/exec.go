package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type cont func(st *State, rets []*T)

// X is the verifier.
type X struct {
	tlvMemo map[*T]*[]tlvRec

	m             *TM
	prog          *ssa.Program
	defs          map[string]*Def
	lemmas        []func(m *TM, t *T) []*T
	sortMemo      map[string]*Sort
	viewMemo      map[string]*Sort
	optElem       map[string]*Sort
	fps           map[string]fpInfo
	arrTypes      map[string]types.Type
	ifTypes       map[string]types.Type
	fnIDs         map[string]*ssa.Function
	natives       map[string]native
	summaries     map[string]*ssa.Function // callee name -> contract function standing in for it
	noSummary     map[string]bool
	specFns       map[*ssa.Function]bool
	opaqueFns     map[*ssa.Function]bool
	joinNames     map[string]bool
	invs          map[string][]*ssa.Function
	nCuts, nLoops int
	frozen        map[*T]bool
	maybeNil      map[*T]*T
	keySort       map[string]*Sort
	keyType       map[string]types.Type
	loopSeen      map[string]bool
	joins         map[*ssa.BasicBlock]*ssa.BasicBlock
	specMemo      map[string]*T
	iters         map[*T]iterInfo
	underContract string
	poolInvs      map[string][]*ssa.Function // by package
	contract      map[*ssa.Function]bool     // functions from contract files
	globals       map[*ssa.Global]*T
	initPkg       map[*ssa.Package]bool
	laws          map[*T]bool
	extErr        map[string]bool
	initHeap      map[string]*T
	initFacts     *Facts
	mergeFns      map[*ssa.Function]bool
	loopInfo      map[*ssa.Function]map[*ssa.BasicBlock]*loop
	pdom          map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock

	obls      []*Obl
	quiet     int
	steps     int
	maxSteps  int
	deadline  time.Time
	paths     int
	depth     int
	inlined   map[string]bool // functions whose bodies were executed
	modular   map[string]bool // functions used through their contract
	trusted   map[string]bool // natives used
	assumed   map[string]bool // notable assumptions
	cur       string
	reach     map[string][]*Facts
	inInit    bool
	loopLog   []string
	loopHint  map[string][]*T
	siteName  map[*T]string
	siteIDs   map[siteKey]int
	canonOf   map[string]string // loop ids
	maybeNilF map[string]nilFam
}

type native func(x *X, st *State, c *callCtx, k cont)

type callCtx struct {
	name string
	fn   *ssa.Function // may be nil
	sig  *types.Signature
	args []*T
	site ssa.Instruction
	fr   *Frame
}

// Obl is a proof obligation.
type Obl struct {
	name   string
	pos    string
	facts  []*T
	goal   *T
	res    string // proved, failed, unknown
	by     string
	out    string
	script string
}

type deferred struct {
	site *ssa.Defer
	args []*T
	fn   *T
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*T
	defers []deferred
	k      cont
	cuts   map[*ssa.BasicBlock]*cut
	stop   *ssa.BasicBlock // merge region end
	onStop func(fr *Frame, st *State, pred *ssa.BasicBlock)
	fvs    []*T
	unroll map[*ssa.BasicBlock]int
	depth  int
	ctx    int // call stack
}

func (fr *Frame) clone() *Frame {
	n := *fr
	n.env = make(map[ssa.Value]*T, len(fr.env)+8)
	for k, v := range fr.env {
		n.env[k] = v
	}
	n.defers = fr.defers[:len(fr.defers):len(fr.defers)]
	n.cuts = make(map[*ssa.BasicBlock]*cut, len(fr.cuts))
	for k, v := range fr.cuts {
		n.cuts[k] = v
	}
	n.unroll = map[*ssa.BasicBlock]int{}
	for k, v := range fr.unroll {
		n.unroll[k] = v
	}
	return &n
}

func (x *X) pos(i ssa.Instruction) string {
	if i == nil {
		return ""
	}
	p := x.prog.Fset.Position(i.Pos())
	if !p.IsValid() {
		return i.Parent().String()
	}
	return fmt.Sprintf("%s:%d", shortName(p.Filename), p.Line)
}

// oblige records that goal must hold here, and assumes it.
func (x *X) oblige(st *State, name, pos string, goal *T) bool {
	if st.pure {
		return st.assume(goal)
	}
	if x.quiet == 0 {
		o := &Obl{name: name, pos: pos, goal: goal}
		if goal == x.m.tTrue || st.f.Decide(goal) == 1 {
			o.res, o.by = "proved", "simplifier"
		} else if g := st.f.Simp(goal); g == x.m.tTrue || st.f.Decide(g) == 1 {
			o.res, o.by = "proved", "simplifier"
		} else {
			o.facts = st.f.list[:len(st.f.list):len(st.f.list)]
			o.goal = g
			if debugObl {
				fmt.Printf("OBL %s %s\n   goal %v\n", name, pos, g)
			}
		}
		x.obls = append(x.obls, o)
	}
	if goal == x.m.tFals {
		return false
	}
	return st.assume(goal)
}

var debugObl bool

// fork runs both sides of a decision.
func (x *X) fork(st *State, c *T, yes, no func(*State)) {
	switch st.f.Decide(c) {
	case 1:
		if yes != nil {
			yes(st)
		}
		return
	case -1:
		if no != nil {
			no(st)
		}
		return
	}
	s2 := st.clone()
	if st.branch(c) && yes != nil {
		yes(st)
	}
	if s2.branch(x.m.Not(c)) && no != nil {
		no(s2)
	}
}

// ---- functions

func (x *X) fnTerm(f *ssa.Function, caps ...*T) *T {
	id := f.String()
	if f.Parent() != nil || f.Synthetic != "" {
		id = fmt.Sprintf("%s", f.String())
	}
	x.fnIDs[id] = f
	return x.m.Ctor("fn:"+id, x.m.Fn(), caps...)
}

func (x *X) runFn(st *State, fn *ssa.Function, args, fvs []*T, depth int, k cont) {
	if fn.Blocks == nil {
		x.unsup("no body for %s", fn)
	}
	if depth > 60 {
		x.unsup("call depth at %s (recursion?)", fn)
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]*T{}, k: k, cuts: map[*ssa.BasicBlock]*cut{}, fvs: fvs,
		unroll: map[*ssa.BasicBlock]int{}, depth: depth, ctx: st.site}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = fvs[i]
	}
	x.block(fr, st, fn.Blocks[0], nil)
}

func (x *X) val(fr *Frame, st *State, v ssa.Value) *T {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constant(v)
	case *ssa.Global:
		return x.globalRef(v)
	case *ssa.Function:
		return x.fnTerm(v)
	case *ssa.Builtin:
		return x.nilFn()
	}
	t, ok := fr.env[v]
	if !ok {
		panic(fmt.Sprintf("no value for %s in %s", v.Name(), fr.fn))
	}
	return t
}

func (x *X) globalRef(g *ssa.Global) *T {
	if t, ok := x.globals[g]; ok {
		return t
	}
	t := x.m.raw("glob", g.String(), x.refSort(), nil)
	if !x.initPkg[g.Pkg] {
		x.extErr[g.String()] = true
	}
	x.globals[g] = t
	return t
}

func (x *X) constant(c *ssa.Const) *T {
	m := x.m
	t := c.Type()
	if c.Value == nil {
		return x.zero(t)
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return m.BoolT(constant.BoolVal(c.Value))
		case b.Info()&types.IsString != 0:
			return m.Str(constant.StringVal(c.Value))
		case b.Info()&types.IsInteger != 0:
			v := constant.ToInt(c.Value)
			n, ok := new(big.Int).SetString(v.ExactString(), 10)
			if !ok {
				x.unsup("constant %v", c)
			}
			return m.IntB(n)
		}
		return m.Ctor("float:"+c.Value.ExactString(), x.sort(t))
	}
	x.unsup("constant %v", c)
	return nil
}

// ---- blocks

func (x *X) jump(fr *Frame, st *State, to *ssa.BasicBlock, from *ssa.BasicBlock) {
	x.block(fr, st, to, from)
}

func (x *X) block(fr *Frame, st *State, b, pred *ssa.BasicBlock) {
	if fr.stop == b && pred != nil {
		fr.onStop(fr, st, pred)
		return
	}
	// Leaving loops.
	for h, c := range fr.cuts {
		if c.active && !c.loop.body[b] {
			if c.onExit != nil {
				c.onExit(st, fr, b, pred)
				return
			}
			delete(fr.cuts, h)
		}
	}
	if lp := x.loops(fr.fn)[b]; lp != nil {
		if c := fr.cuts[b]; c != nil && c.active {
			if c.entering {
				c.entering = false
				x.instrs(fr, st, b, len(phisOf(b)))
				return
			}
			c.onBack(st, fr, pred)
			return
		}
		if !x.canUnroll(fr, st, b, pred) {
			x.cutLoop(fr, st, lp, pred)
			return
		}
		fr.unroll[b]++
		if fr.unroll[b] > 300 {
			x.unsup("loop in %s unrolled too often", fr.fn)
		}
	}
	if pred != nil {
		x.phis(fr, st, b, pred)
	}
	x.instrs(fr, st, b, len(phisOf(b)))
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var r []*ssa.Phi
	for _, i := range b.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		r = append(r, p)
	}
	return r
}

func predIndex(b, pred *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == pred {
			return i
		}
	}
	panic("predIndex")
}

func (x *X) phis(fr *Frame, st *State, b, pred *ssa.BasicBlock) {
	ps := phisOf(b)
	if len(ps) == 0 {
		return
	}
	i := predIndex(b, pred)
	vs := make([]*T, len(ps))
	for j, p := range ps {
		vs[j] = x.val(fr, st, p.Edges[i])
	}
	for j, p := range ps {
		fr.env[p] = vs[j]
	}
}

// canUnroll says whether the exit test of loop header b is a literal
// constant on this entry, so that no invariant is needed for this round.
func (x *X) canUnroll(fr *Frame, st *State, b, pred *ssa.BasicBlock) bool {
	last := b.Instrs[len(b.Instrs)-1]
	iff, ok := last.(*ssa.If)
	if !ok {
		return false
	}
	np := len(phisOf(b))
	if n, ok := b.Instrs[np].(*ssa.Next); ok && !n.IsString {
		// A map whose keys are known.
		if len(b.Instrs) != np+3 || fr.env[n.Iter] == nil {
			return false
		}
		it := fr.env[n.Iter]
		info, ok := x.iters[it]
		if !ok {
			return false
		}
		pos := x.m.Select(x.h(st, "G:iter", x.m.sorts["Len"]), it)
		c := x.m.Lt(pos, x.m.Len(info.keys))
		return c == x.m.tTrue || c == x.m.tFals
	}
	for _, i := range b.Instrs[:len(b.Instrs)-1] {
		switch i := i.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.DebugRef:
		case *ssa.UnOp:
			// A local variable.
			if _, ok := i.X.(*ssa.Alloc); !ok || i.Op != token.MUL {
				return false
			}
		case *ssa.Convert:
			if wrapKind(i.X.Type()) == "" || wrapKind(i.Type()) == "" {
				return false
			}
		case *ssa.Call:
			if bi, ok := i.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
				return false
			}
		default:
			return false
		}
	}
	f2 := &Frame{fn: fr.fn, env: map[ssa.Value]*T{}, cuts: map[*ssa.BasicBlock]*cut{}}
	for k, v := range fr.env {
		f2.env[k] = v
	}
	s2 := x.quietFacts(st)
	x.phis(f2, s2, b, pred)
	for _, i := range b.Instrs[len(phisOf(b)) : len(b.Instrs)-1] {
		switch i := i.(type) {
		case *ssa.UnOp:
			f2.env[i] = x.load(s2, x.val(f2, s2, i.X), i.Type())
		case *ssa.Convert:
			f2.env[i] = x.convert(s2, x.val(f2, s2, i.X), i.X.Type(), i.Type())
		case *ssa.BinOp:
			f2.env[i] = x.binop(s2, i.Op, x.val(f2, s2, i.X), x.val(f2, s2, i.Y), i.X.Type(), i.Type(), i)
		case *ssa.Call:
			f2.env[i] = x.lenOf(s2, x.val(f2, s2, i.Call.Args[0]), i.Call.Args[0].Type())
		}
	}
	c := x.val(f2, s2, iff.Cond)
	return c == x.m.tTrue || c == x.m.tFals
}

func (x *X) instrs(fr *Frame, st *State, b *ssa.BasicBlock, from int) {
	m := x.m
	for idx := from; idx < len(b.Instrs); idx++ {
		x.steps++
		if x.steps&63 == 0 && !x.deadline.IsZero() && time.Now().After(x.deadline) {
			panic(unsup{"symbolic execution ran out of time"})
		}
		if x.steps > x.maxSteps {
			x.unsup("step budget exhausted in %s", x.cur)
		}
		ins := b.Instrs[idx]
		st.site = x.siteID(fr.ctx, ins)
		switch i := ins.(type) {
		case *ssa.DebugRef:
		case *ssa.Alloc:
			t := i.Type().Underlying().(*types.Pointer).Elem()
			p := x.alloc(st, sanitize(i.Comment))
			x.store(st, p, t, x.zero(t))
			fr.env[i] = p
		case *ssa.BinOp:
			fr.env[i] = x.binop(st, i.Op, x.val(fr, st, i.X), x.val(fr, st, i.Y), i.X.Type(), i.Type(), i)
			if i.Op == token.QUO || i.Op == token.REM {
				if !x.oblige(st, "panic-free:division by zero", x.pos(i), m.Not(m.Eq(x.val(fr, st, i.Y), m.zero))) {
					return
				}
			}
		case *ssa.UnOp:
			if i.Op == token.ARROW {
				next := idx + 1
				x.recv(fr, st, i, func(st *State, f2 *Frame, v *T) {
					f2.env[i] = v
					x.instrs(f2, st, b, next)
				})
				return
			}
			v := x.val(fr, st, i.X)
			switch i.Op {
			case token.MUL:
				if !x.nonNil(st, v, i) {
					return
				}
				fr.env[i] = x.load(st, v, i.Type())
			case token.NOT:
				fr.env[i] = m.Not(v)
			case token.SUB:
				if !isIntType(i.Type()) {
					x.unsup("float negation")
				}
				fr.env[i] = m.Wrap(m.Neg(v), wrapKind(i.Type()), st.f)
			case token.XOR:
				fr.env[i] = m.Wrap(m.lin(-1, v, -1), wrapKind(i.Type()), st.f)
			default:
				x.unsup("unop %v", i.Op)
			}
		case *ssa.ChangeType:
			fr.env[i] = x.changeType(x.val(fr, st, i.X), i.X.Type(), i.Type())
		case *ssa.ChangeInterface:
			fr.env[i] = x.val(fr, st, i.X)
		case *ssa.Convert:
			fr.env[i] = x.convert(st, x.val(fr, st, i.X), i.X.Type(), i.Type())
		case *ssa.MakeInterface:
			fr.env[i] = x.makeIface(x.val(fr, st, i.X), i.X.Type())
		case *ssa.MakeClosure:
			var caps []*T
			for _, c := range i.Bindings {
				caps = append(caps, x.val(fr, st, c))
			}
			fr.env[i] = x.fnTerm(i.Fn.(*ssa.Function), caps...)
		case *ssa.MakeMap:
			u := i.Type().Underlying().(*types.Map)
			r := x.alloc(st, "map")
			x.setMap(st, r, u, x.emptyMap(u))
			fr.env[i] = r
		case *ssa.MakeChan:
			ch := x.alloc(st, "chan")
			et := i.Type().Underlying().(*types.Chan).Elem()
			ss := m.seqOf(x.sort(et), -1)
			st.heap["G:closed"] = m.Store(x.h(st, "G:closed", m.Bool()), ch, m.tFals)
			st.heap["G:sent:"+tkey(et)] = m.Store(x.h(st, "G:sent:"+tkey(et), ss), ch, m.Empty(ss))
			st.heap["G:recvd"] = m.Store(x.h(st, "G:recvd", m.sorts["Len"]), ch, m.zero)
			cp := x.val(fr, st, i.Size)
			if !x.oblige(st, "panic-free:makechan", x.pos(i), m.Le(m.zero, cp)) {
				return
			}
			st.heap["G:cap"] = m.Store(x.h(st, "G:cap", m.sorts["Len"]), ch, cp)
			fr.env[i] = ch
		case *ssa.MakeSlice:
			et := i.Type().Underlying().(*types.Slice).Elem()
			ln, cp := x.val(fr, st, i.Len), x.val(fr, st, i.Cap)
			if !x.oblige(st, "panic-free:makeslice", x.pos(i), m.And(m.Le(m.zero, ln), m.Le(ln, cp))) {
				return
			}
			r := x.alloc(st, "make")
			x.setBacking(st, r, et, m.Rep(m.seqOf(x.sort(et), -1), cp, x.zero(et)))
			fr.env[i] = m.Mk(m.sliceSort(), r, m.zero, ln, cp)
		case *ssa.FieldAddr:
			p := x.val(fr, st, i.X)
			if !x.nonNil(st, p, i) {
				return
			}
			fr.env[i] = x.fieldPtr(p, i.X.Type().Underlying().(*types.Pointer).Elem(), i.Field)
		case *ssa.Field:
			fr.env[i] = x.normVal(i.Type(), m.Fld(x.val(fr, st, i.X), i.Field))
		case *ssa.IndexAddr:
			v, ix := x.val(fr, st, i.X), x.val(fr, st, i.Index)
			switch u := i.X.Type().Underlying().(type) {
			case *types.Slice:
				v = x.normSlice(v)
				ln := m.Fld(v, 2)
				if !x.oblige(st, "panic-free:index", x.pos(i), m.And(m.Le(m.zero, ix), m.Lt(ix, ln))) {
					return
				}
				if v.op == "ite" {
					fr.env[i] = m.Ite(v.args[0], x.sliceElem(v.args[1], ix, u.Elem()), x.sliceElem(v.args[2], ix, u.Elem()))
				} else {
					fr.env[i] = x.sliceElem(v, ix, u.Elem())
				}
			case *types.Pointer:
				at := u.Elem()
				if !x.nonNil(st, v, i) {
					return
				}
				n := at.Underlying().(*types.Array).Len()
				if !x.oblige(st, "panic-free:index", x.pos(i), m.And(m.Le(m.zero, ix), m.Lt(ix, m.Int64(n)))) {
					return
				}
				fr.env[i] = x.arrElemPtr(v, ix, at)
			}
		case *ssa.Index:
			v, ix := x.val(fr, st, i.X), x.val(fr, st, i.Index)
			if !x.oblige(st, "panic-free:index", x.pos(i), m.And(m.Le(m.zero, ix), m.Lt(ix, m.Len(v)))) {
				return
			}
			fr.env[i] = x.normVal(i.Type(), x.at(st, v, ix))
		case *ssa.Slice:
			v, ok := x.sliceOp(fr, st, i)
			if !ok {
				return
			}
			fr.env[i] = v
		case *ssa.Lookup:
			v, ix := x.val(fr, st, i.X), x.val(fr, st, i.Index)
			switch u := i.X.Type().Underlying().(type) {
			case *types.Map:
				mv := x.mapVal(st, v, u)
				dom := m.Select(m.Fld(mv, 0), ix)
				val := x.normVal(u.Elem(), m.Select(m.Fld(mv, 1), ix))
				z := x.zero(u.Elem())
				r := m.Ite(dom, val, z)
				switch st.f.Decide(dom) {
				case 1:
					r = val
				case -1:
					r = z
				}
				if i.CommaOk {
					fr.env[i] = m.Mk(x.sort(i.Type()), r, dom)
				} else {
					fr.env[i] = r
				}
			default: // string
				if !x.oblige(st, "panic-free:index", x.pos(i), m.And(m.Le(m.zero, ix), m.Lt(ix, m.Len(v)))) {
					return
				}
				fr.env[i] = x.at(st, v, ix)
			}
		case *ssa.MapUpdate:
			u := i.Map.Type().Underlying().(*types.Map)
			r := x.val(fr, st, i.Map)
			if !x.oblige(st, "panic-free:nil map write", x.pos(i), m.Not(m.Eq(r, m.zero))) {
				return
			}
			mv := x.mapVal(st, r, u)
			kx, vx := x.val(fr, st, i.Key), x.val(fr, st, i.Value)
			x.setMap(st, r, u, m.Mk(mv.sort, m.Store(m.Fld(mv, 0), kx, m.tTrue), m.Store(m.Fld(mv, 1), kx, vx)))
		case *ssa.Extract:
			fr.env[i] = x.normVal(i.Type(), m.Fld(x.val(fr, st, i.Tuple), i.Index))
		case *ssa.Store:
			p := x.val(fr, st, i.Addr)
			if !x.nonNil(st, p, i) {
				return
			}
			x.store(st, p, i.Val.Type(), x.val(fr, st, i.Val))
		case *ssa.TypeAssert:
			if !x.typeAssert(fr, st, i) {
				return
			}
		case *ssa.Phi:
			panic("phi")
		case *ssa.Range:
			u, ok := i.X.Type().Underlying().(*types.Map)
			if !ok {
				x.unsup("range over string")
			}
			r := x.val(fr, st, i.X)
			it := x.alloc(st, "iter")
			mv := x.mapVal(st, r, u)
			st.heap["G:iter"] = m.Store(x.h(st, "G:iter", m.sorts["Len"]), it, m.zero)
			fr.env[i] = it
			info := iterInfo{keys: x.mapKeys(m.Fld(mv, 0), it, u.Key()), val: m.Fld(mv, 1), dom: m.Fld(mv, 0), u: u}
			if ks := x.knownKeys(st, info.dom); len(ks) > 1 {
				// Any order of the keys that are known.
				next := idx + 1
				s := x.m.seqOf(x.sort(u.Key()), -1)
				var pick func(st *State, left, seq []*T)
				pick = func(st *State, left, seq []*T) {
					if len(left) == 0 {
						// One iterator for each order.
						it := x.alloc(st, "iter")
						st.heap["G:iter"] = m.Store(x.h(st, "G:iter", m.sorts["Len"]), it, m.zero)
						f2 := fr.clone()
						f2.env[i] = it
						in := info
						in.keys = m.Cat(s, seq...)
						x.iters[it] = in
						x.instrs(f2, st, b, next)
						return
					}
					for n := range left {
						if n < len(left)-1 && len(left) > 1 {
							st2 := st.clone()
							st2.assume(x.freshSym(st2, "first", m.Bool()))
							pick(st2, append(append([]*T{}, left[:n]...), left[n+1:]...), append(seq[:len(seq):len(seq)], m.Unit(s, left[n])))
							continue
						}
						pick(st, append(append([]*T{}, left[:n]...), left[n+1:]...), append(seq[:len(seq):len(seq)], m.Unit(s, left[n])))
					}
				}
				pick(st, ks, nil)
				return
			}
			x.iters[it] = info
		case *ssa.Next:
			it := x.val(fr, st, i.Iter)
			info, ok := x.iters[it]
			if !ok {
				x.unsup("iteration over a merged map")
			}
			pos := m.Select(x.h(st, "G:iter", m.sorts["Len"]), it)
			more := m.Lt(pos, m.Len(info.keys))
			key := m.At(info.keys, pos)
			val := x.normVal(info.u.Elem(), m.Select(info.val, key))
			next := idx + 1
			x.fork(st, more, func(st *State) {
				f2 := fr.clone()
				st.assume(m.Le(m.zero, pos))
				st.assume(m.Select(info.dom, key))
				st.heap["G:iter"] = m.Store(x.h(st, "G:iter", m.sorts["Len"]), it, m.AddC(pos, 1))
				f2.env[i] = m.Mk(x.sort(i.Type()), m.tTrue, x.padVal(i.Type(), 1, key), x.padVal(i.Type(), 2, val))
				x.instrs(f2, st, b, next)
			}, func(st *State) {
				f2 := fr.clone()
				st.assume(m.Eq(pos, m.Len(info.keys)))
				f2.env[i] = m.Mk(x.sort(i.Type()), m.tFals, x.padZero(i.Type(), 1), x.padZero(i.Type(), 2))
				x.instrs(f2, st, b, next)
			})
			return
		case *ssa.Call:
			next := idx + 1
			x.call(fr, st, &i.Call, i, func(st *State, rets []*T) {
				f2 := fr.clone()
				switch len(rets) {
				case 0:
				case 1:
					f2.env[i] = x.normVal(i.Type(), rets[0])
				default:
					f2.env[i] = m.Mk(x.sort(i.Type()), rets...)
				}
				x.instrs(f2, st, b, next)
			})
			return
		case *ssa.Go:
			fn, args := x.calleeVal(fr, st, &i.Call)
			st.spawned = append(st.spawned, spawn{fn, args})
		case *ssa.Defer:
			fn, args := x.calleeVal(fr, st, &i.Call)
			fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], deferred{i, args, fn})
		case *ssa.RunDefers:
			next := idx + 1
			ds := fr.defers
			fr.defers = nil
			var run func(st *State, n int)
			run = func(st *State, n int) {
				if n < 0 {
					x.instrs(fr.clone(), st, b, next)
					return
				}
				d := ds[n]
				x.callDeferred(fr, st, d, func(st *State, _ []*T) { run(st, n-1) })
			}
			run(st, len(ds)-1)
			return
		case *ssa.Send:
			ch, v := x.val(fr, st, i.Chan), x.val(fr, st, i.X)
			if x.localChan(st, ch) {
				if !x.oblige(st, "panic-free:send on a closed channel", x.pos(i), m.Not(x.chanClosed(st, ch))) ||
					!x.oblige(st, "progress:send that never ends", x.pos(i), x.chanRoom(st, ch, i.Chan.Type())) {
					return
				}
			}
			x.chanSend(st, ch, i.Chan.Type(), v)
		case *ssa.Select:
			next := idx + 1
			x.sel(fr, st, i, func(st *State, f2 *Frame, v *T) {
				f2.env[i] = v
				x.instrs(f2, st, b, next)
			})
			return
		case *ssa.Jump:
			x.jump(fr, st, b.Succs[0], b)
			return
		case *ssa.If:
			x.ifInstr(fr, st, b, i)
			return
		case *ssa.Return:
			var rs []*T
			for _, r := range i.Results {
				rs = append(rs, x.val(fr, st, r))
			}
			fr.k(st, rs)
			return
		case *ssa.Panic:
			x.oblige(st, "panic-free:explicit panic", x.pos(i), m.tFals)
			return
		case *ssa.SliceToArrayPointer:
			x.unsup("slice to array pointer")
		default:
			x.unsup("instruction %T in %s", ins, fr.fn)
		}
	}
}

func (x *X) padVal(tup types.Type, i int, v *T) *T {
	t := tup.(*types.Tuple).At(i).Type()
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return x.m.zero
	}
	return v
}

func (x *X) padZero(tup types.Type, i int) *T {
	t := tup.(*types.Tuple).At(i).Type()
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return x.m.zero
	}
	return x.zero(t)
}

type iterInfo struct {
	keys, val, dom *T
	u              *types.Map
}

// mapKeys is the order in which iteration it visits the keys in dom.
func (x *X) mapKeys(dom, it *T, kt types.Type) *T {
	s := x.m.seqOf(x.sort(kt), -1)
	switch {
	case dom.op == "constarr" && dom.args[0] == x.m.tFals:
		return x.m.Empty(s)
	case dom.op == "store" && dom.args[2] == x.m.tTrue && dom.args[0].op == "constarr" && dom.args[0].args[0] == x.m.tFals:
		return x.m.Unit(s, dom.args[1])
	}
	return x.m.Call("mapkeys", x.m.seqOf(x.sort(kt), -1), dom, it)
}

// knownKeys is the keys in dom if each is known and no two can be the same.
func (x *X) knownKeys(st *State, dom *T) []*T {
	var ks []*T
	for ; dom.op == "store" && dom.args[2] == x.m.tTrue && len(ks) < 4; dom = dom.args[0] {
		ks = append([]*T{dom.args[1]}, ks...)
	}
	if len(ks) > 3 || dom.op != "constarr" || dom.args[0] != x.m.tFals {
		return nil
	}
	for i, a := range ks {
		for _, b := range ks[:i] {
			if st.f.Decide(x.m.Eq(a, b)) != -1 {
				return nil
			}
		}
	}
	return ks
}

func (x *X) sliceElem(v, ix *T, et types.Type) *T {
	if v.op == "ite" {
		return x.m.Ite(v.args[0], x.sliceElem(v.args[1], ix, et), x.sliceElem(v.args[2], ix, et))
	}
	return x.elemPtr(x.m.Fld(v, 0), x.m.Add(x.m.Fld(v, 1), ix), et)
}

// at indexes with the help of the facts.
func (x *X) at(st *State, s, i *T) *T {
	m := x.m
	if s.op == "upd" {
		switch st.f.Decide(m.Eq(s.args[1], i)) {
		case 1:
			return s.args[2]
		case -1:
			return x.at(st, s.args[0], i)
		}
	}
	if s.op == "cat" {
		off := i
		for k, p := range s.args {
			l := m.Len(p)
			if st.f.Decide(m.Lt(off, l)) == 1 && st.f.Decide(m.Le(m.zero, off)) == 1 {
				return x.at(st, p, off)
			}
			if st.f.Decide(m.Le(l, off)) != 1 {
				break
			}
			off = m.Sub(off, l)
			if k == len(s.args)-1 {
				break
			}
		}
	}
	return m.At(s, i)
}

func (x *X) nonNil(st *State, p *T, i ssa.Instruction) bool {
	if isCtor(p) && p.op != "int" || p.op == "vref" || p.op == "arrref" {
		return true
	}
	return x.oblige(st, "panic-free:nil dereference", x.pos(i), x.m.Not(x.m.Eq(p, x.m.zero)))
}

func (x *X) ifInstr(fr *Frame, st *State, b *ssa.BasicBlock, i *ssa.If) {
	c := x.val(fr, st, i.Cond)
	switch st.f.Decide(c) {
	case 1:
		x.jump(fr, st, b.Succs[0], b)
		return
	case -1:
		x.jump(fr, st, b.Succs[1], b)
		return
	}
	if x.wantMerge(fr.fn) {
		if j := x.joinOf(fr.fn, b); j != nil {
			x.mergeIf(fr, st, b, c, j)
			return
		}
	}
	x.paths++
	f2 := fr.clone()
	s2 := st.clone()
	if st.branch(c) {
		x.jump(fr, st, b.Succs[0], b)
	}
	if s2.branch(x.m.Not(c)) {
		x.jump(f2, s2, b.Succs[1], b)
	}
}

// ---- calls

func (x *X) calleeVal(fr *Frame, st *State, c *ssa.CallCommon) (*T, []*T) {
	var args []*T
	for _, a := range c.Args {
		args = append(args, x.val(fr, st, a))
	}
	if c.IsInvoke() {
		recv := x.val(fr, st, c.Value)
		return x.m.Ctor("invoke:"+c.Method.FullName(), x.m.Fn(), recv), args
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.m.Ctor("builtin:"+b.Name(), x.m.Fn()), args
	}
	return x.val(fr, st, c.Value), args
}

func (x *X) callDeferred(fr *Frame, st *State, d deferred, k cont) {
	if strings.HasPrefix(d.fn.str, "invoke:") || strings.HasPrefix(d.fn.str, "builtin:") {
		c := &d.site.Call
		if c.IsInvoke() {
			x.invoke(fr, st, d.fn.args[0], c.Method, c.Value.Type(), d.args, d.site, k)
			return
		}
		rs, ok := x.builtin(fr, st, c.Value.(*ssa.Builtin).Name(), d.args, c.Args, d.site, nil)
		if ok {
			k(st, rs)
		}
		return
	}
	x.callTerm(fr, st, d.fn, d.args, d.site.Call.Signature(), d.site, k)
}

func (x *X) call(fr *Frame, st *State, c *ssa.CallCommon, site ssa.Instruction, k cont) {
	var args []*T
	for _, a := range c.Args {
		args = append(args, x.val(fr, st, a))
	}
	if c.IsInvoke() {
		x.invoke(fr, st, x.val(fr, st, c.Value), c.Method, c.Value.Type(), args, site, k)
		return
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		var rt types.Type
		if v, ok := site.(ssa.Value); ok {
			rt = v.Type()
		}
		rs, ok := x.builtin(fr, st, b.Name(), args, c.Args, site, rt)
		if ok {
			k(st, rs)
		}
		return
	}
	if f := c.StaticCallee(); f != nil {
		var fvs []*T
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				fvs = append(fvs, x.val(fr, st, b))
			}
		}
		x.callStatic(fr, st, f, args, fvs, site, k)
		return
	}
	x.callTerm(fr, st, x.val(fr, st, c.Value), args, c.Signature(), site, k)
}

// callTerm calls a function value.
func (x *X) callTerm(fr *Frame, st *State, f *T, args []*T, sig *types.Signature, site ssa.Instruction, k cont) {
	switch {
	case f.op == "ite":
		x.fork(st, f.args[0], func(s *State) { x.callTerm(fr, s, f.args[1], args, sig, site, k) },
			func(s *State) { x.callTerm(fr, s, f.args[2], args, sig, site, k) })
		return
	case f.op == "ctor" && strings.HasPrefix(f.str, "fn:"):
		fn := x.fnIDs[f.str[3:]]
		x.callStatic(fr, st, fn, args, f.args, site, k)
		return
	case f.op == "ctor" && f.str == "nilfn":
		x.oblige(st, "panic-free:nil function call", x.pos(site), x.m.tFals)
		return
	case f.op == "ctor" && f.str == "curry":
		// BuildMap entry: the maker gives the function to call.
		x.callTerm(fr, st, f.args[0], []*T{f.args[1]}, nil, site, func(st *State, rs []*T) {
			x.callTerm(fr, st, rs[0], args, sig, site, k)
		})
		return
	case f.op == "ctor" && strings.HasPrefix(f.str, "native:"):
		n := x.natives[f.str]
		if n == nil {
			x.unsup("call of %s", f.str)
		}
		n(x, st, &callCtx{name: f.str, sig: sig, args: append(append([]*T{}, f.args...), args...), site: site, fr: fr}, k)
		return
	}
	if f2, ok := st.f.subst[f]; ok && f2 != f {
		x.callTerm(fr, st, f2, args, sig, site, k)
		return
	}
	if n := x.natives["opaque-call"]; n != nil {
		n(x, st, &callCtx{name: "opaque-call", sig: sig, args: append([]*T{f}, args...), site: site, fr: fr}, k)
		return
	}
	x.unsup("call of unknown function %v at %s", f, x.pos(site))
}

func depthOf(fr *Frame) int {
	if fr == nil {
		return 0
	}
	return fr.depth
}

func (x *X) callStatic(fr *Frame, st *State, f *ssa.Function, args, fvs []*T, site ssa.Instruction, k cont) {
	name := f.String()
	if o := f.Origin(); o != nil && o != f {
		name = o.String()
	}
	if s, ok := x.summaries[name]; ok && !x.noSummary[name] && x.underContract != name {
		x.modular[name] = true
		x.runFn(st, s, args, nil, depthOf(fr)+1, k)
		return
	}
	if n, ok := x.natives[name]; ok {
		if !strings.Contains(name, "boltnd/verifvc.") {
			x.trusted[name] = true
		}
		n(x, st, &callCtx{name: name, fn: f, sig: f.Signature, args: args, site: site, fr: fr}, k)
		return
	}
	if x.specFns[f] {
		x.specCall(fr, st, f, args, k)
		return
	}
	if f.Blocks == nil {
		x.external(fr, st, f, args, site, k)
		return
	}
	if !x.contract[f] && f.Synthetic == "" {
		x.inlined[name] = true
	}
	if x.wantJoin(f) {
		x.runJoined(st, f, args, fvs, depthOf(fr)+1, k)
		return
	}
	x.runFn(st, f, args, fvs, depthOf(fr)+1, k)
}

func (x *X) external(fr *Frame, st *State, f *ssa.Function, args []*T, site ssa.Instruction, k cont) {
	x.unsup("external function %s at %s", f, x.pos(site))
}

func (x *X) invoke(fr *Frame, st *State, recv *T, meth *types.Func, it types.Type, args []*T, site ssa.Instruction, k cont) {
	switch {
	case recv.op == "ite":
		x.fork(st, recv.args[0], func(s *State) { x.invoke(fr, s, recv.args[1], meth, it, args, site, k) },
			func(s *State) { x.invoke(fr, s, recv.args[2], meth, it, args, site, k) })
		return
	case recv.op == "nilif":
		x.oblige(st, "panic-free:nil interface call", x.pos(site), x.m.tFals)
		return
	case recv.op == "ctor" && strings.HasPrefix(recv.str, "if:"):
		t := x.ifTypes[recv.str[3:]]
		sel := x.prog.MethodSets.MethodSet(t).Lookup(meth.Pkg(), meth.Name())
		if sel == nil {
			x.unsup("method %s of %s", meth.Name(), t)
		}
		f := x.prog.MethodValue(sel)
		x.callStatic(fr, st, f, append([]*T{recv.args[0]}, args...), nil, site, k)
		return
	}
	if s, ok := st.f.subst[recv]; ok && s != recv {
		x.invoke(fr, st, s, meth, it, args, site, k)
		return
	}
	n, ok := x.natives["invoke "+meth.FullName()]
	if !ok {
		n, ok = x.natives["invoke *."+meth.Name()]
		if ok && meth.Pkg() != nil && strings.Contains(meth.Pkg().Path(), "boltnd") {
			ok = false
		}
	}
	if !ok && meth.Pkg() != nil && meth.Pkg().Path() == "github.com/btcsuite/btclog" {
		n, ok = x.natives["log"]
	}
	if !ok {
		x.unsup("interface call %s on unknown value at %s", meth.FullName(), x.pos(site))
	}
	x.trusted[meth.FullName()] = true
	n(x, st, &callCtx{name: meth.FullName(), sig: meth.Type().(*types.Signature), args: append([]*T{recv}, args...), site: site, fr: fr}, k)
}

// ---- values

func (x *X) makeIface(v *T, t types.Type) *T {
	k := tkey(t)
	x.ifTypes[k] = t
	return x.m.Ctor("if:"+k, x.m.Iface(), v)
}

func (x *X) changeType(v *T, from, to types.Type) *T {
	fs, ts := x.sort(from), x.sort(to)
	if fs == ts || fs.smt == ts.smt {
		if fp, ok := from.Underlying().(*types.Pointer); ok {
			tp := to.Underlying().(*types.Pointer)
			if x.hkey(fp.Elem()) != x.hkey(tp.Elem()) {
				x.unsup("pointer conversion %s -> %s", from, to)
			}
		}
		return v
	}
	if fs.isDT && ts.isDT && len(fs.fields) == len(ts.fields) {
		var f []*T
		for i := range fs.fields {
			f = append(f, x.m.Fld(v, i))
		}
		return x.m.Mk(ts, f...)
	}
	x.unsup("conversion %s -> %s", from, to)
	return nil
}

func (x *X) convert(st *State, v *T, from, to types.Type) *T {
	m := x.m
	switch {
	case isIntType(from) && isIntType(to):
		return m.Wrap(v, wrapKind(to), st.f)
	case isStringType(to):
		if s, ok := from.Underlying().(*types.Slice); ok {
			return x.content(st, v, s.Elem())
		}
		if isStringType(from) {
			return v
		}
	case isStringType(from):
		if s, ok := to.Underlying().(*types.Slice); ok && wrapKind(s.Elem()) == "u8" {
			if x.inInit {
				// The compiler lays these out itself, without room to spare.
				return x.newSlice(st, s.Elem(), v, "bytes")
			}
			return x.newSpare(st, s.Elem(), m.Cat(m.seqOf(x.sort(s.Elem()), -1), v), "bytes")
		}
	}
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 && (fb.Info()|tb.Info())&types.IsFloat != 0 {
		return x.floatConv(st, v, from, to)
	}
	x.unsup("conversion %s -> %s", from, to)
	return nil
}

func (x *X) floatConv(st *State, v *T, from, to types.Type) *T {
	m := x.m
	if isIntType(to) && v.op == "uf" && v.str == "seconds" {
		// uint64(d.Seconds()): exact below 2^53 nanoseconds-scaled
		// seconds; assumed exact truncation.
		x.assumed["time.Duration.Seconds converted to an integer truncates exactly"] = true
		d := v.args[0]
		q := m.Div(d, m.Int64(1000000000))
		return m.Wrap(m.Ite(m.Le(m.zero, d), q, m.Neg(m.Div(m.Neg(d), m.Int64(1000000000)))), wrapKind(to), st.f)
	}
	return m.UF("fconv:"+tkey(to), x.sort(to), v)
}

func (x *X) typeAssert(fr *Frame, st *State, i *ssa.TypeAssert) bool {
	m := x.m
	v := x.val(fr, st, i.X)
	var ok, res *T
	var conv func(v *T) (*T, *T)
	conv = func(v *T) (*T, *T) {
		if v.op == "ite" {
			o1, r1 := conv(v.args[1])
			o2, r2 := conv(v.args[2])
			return m.Ite(v.args[0], o1, o2), m.Ite(v.args[0], r1, r2)
		}
		if s, k := st.f.subst[v]; k && s != v {
			return conv(s)
		}
		if types.IsInterface(i.AssertedType) {
			if v.op == "nilif" {
				return m.tFals, m.nilIf
			}
			if v.op == "ctor" && strings.HasPrefix(v.str, "if:") {
				t := x.ifTypes[v.str[3:]]
				return m.BoolT(types.Implements(t, i.AssertedType.Underlying().(*types.Interface))), v
			}
			return m.UF("implements:"+tkey(i.AssertedType), m.Bool(), v), v
		}
		if v.op == "nilif" {
			return m.tFals, x.zero(i.AssertedType)
		}
		if v.op == "ctor" {
			if v.str == "if:"+tkey(i.AssertedType) {
				return m.tTrue, v.args[0]
			}
			return m.tFals, x.zero(i.AssertedType)
		}
		return m.UF("hastype:"+tkey(i.AssertedType), m.Bool(), v), m.UF("asserted:"+tkey(i.AssertedType), x.sort(i.AssertedType), v)
	}
	ok, res = conv(v)
	if i.CommaOk {
		r := m.Ite(ok, res, x.zero(i.AssertedType))
		if ok == m.tFals {
			r = x.zero(i.AssertedType)
		}
		fr.env[i] = m.Mk(x.sort(i.Type()), r, ok)
		return true
	}
	if !x.oblige(st, "panic-free:type assertion", x.pos(i), ok) {
		return false
	}
	fr.env[i] = x.normVal(i.AssertedType, res)
	return true
}

func (x *X) lenOf(st *State, v *T, t types.Type) *T {
	m := x.m
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return m.Fld(x.normSlice(v), 2)
	case *types.Basic:
		return m.Len(v)
	case *types.Array:
		return m.Int64(u.Len())
	case *types.Pointer:
		return m.Int64(u.Elem().Underlying().(*types.Array).Len())
	case *types.Map:
		mv := x.mapVal(st, v, u)
		return x.card(m.Fld(mv, 0))
	case *types.Chan:
		if x.localChan(st, v) {
			return m.Sub(m.Len(x.chanSent(st, v, u.Elem())), x.chanRecvd(st, v))
		}
		return x.freshSym(st, "chanlen", m.sorts["Len"])
	}
	x.unsup("len of %s", t)
	return nil
}

func (x *X) binop(st *State, op token.Token, a, b *T, t, rt types.Type, site ssa.Instruction) *T {
	m := x.m
	switch op {
	case token.EQL:
		return x.eqVals(st, a, b, t)
	case token.NEQ:
		return m.Not(x.eqVals(st, a, b, t))
	}
	if isStringType(t) {
		switch op {
		case token.ADD:
			return m.Cat(m.byteSeq(), a, b)
		case token.LSS:
			return m.UF("strless", m.Bool(), a, b)
		case token.GTR:
			return m.UF("strless", m.Bool(), b, a)
		case token.LEQ:
			return m.Not(m.UF("strless", m.Bool(), b, a))
		case token.GEQ:
			return m.Not(m.UF("strless", m.Bool(), a, b))
		}
	}
	if !isIntType(t) {
		if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsFloat != 0 {
			return m.UF("f"+op.String(), x.sort(rt), a, b)
		}
		x.unsup("operator %v on %s", op, t)
	}
	w := func(v *T) *T { return m.Wrap(v, wrapKind(rt), st.f) }
	switch op {
	case token.ADD:
		return w(m.Add(a, b))
	case token.SUB:
		return w(m.Sub(a, b))
	case token.MUL:
		return w(m.Mul(a, b))
	case token.LSS:
		return m.Lt(a, b)
	case token.LEQ:
		return m.Le(a, b)
	case token.GTR:
		return m.Lt(b, a)
	case token.GEQ:
		return m.Le(b, a)
	case token.QUO, token.REM:
		nonneg := func(t *T) bool { lo, _ := m.Range(t, st.f); return lo != nil && lo.Sign() >= 0 }
		if nonneg(a) && nonneg(b) {
			if op == token.QUO {
				return m.Div(a, b)
			}
			return m.Mod(a, b)
		}
		if b.op == "int" && b.n.Sign() > 0 {
			q := m.Ite(m.Le(m.zero, a), m.Div(a, b), m.Neg(m.Div(m.Neg(a), b)))
			if op == token.QUO {
				return q
			}
			if b.n.Cmp(big.NewInt(2)) == 0 || true {
				return m.Sub(a, m.Mul(b, q))
			}
		}
		x.unsup("signed division")
	case token.SHL:
		if b.op == "int" && b.n.IsInt64() && b.n.Int64() < 64 {
			return w(m.MulC(a, new(big.Int).Lsh(bigOne, uint(b.n.Int64()))))
		}
		return w(m.UF("shl", m.IntS(), a, b))
	case token.SHR:
		if b.op == "int" && b.n.IsInt64() && b.n.Int64() < 64 {
			return m.Div(a, m.IntB(new(big.Int).Lsh(bigOne, uint(b.n.Int64()))))
		}
		return m.UF("shr", x.sort(rt), a, b)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		nonneg := func(t *T) bool { lo, _ := m.Range(t, st.f); return lo != nil && lo.Sign() >= 0 }
		if a.op == "int" && op != token.AND_NOT {
			a, b = b, a
		}
		if a.op == "int" && b.op == "int" && a.n.Sign() >= 0 && b.n.Sign() >= 0 {
			r := new(big.Int)
			switch op {
			case token.AND:
				r.And(a.n, b.n)
			case token.OR:
				r.Or(a.n, b.n)
			case token.XOR:
				r.Xor(a.n, b.n)
			default:
				r.AndNot(a.n, b.n)
			}
			return m.IntB(r)
		}
		if b.op == "int" && nonneg(a) && b.n.Sign() == 0 {
			if op == token.AND {
				return m.zero
			}
			return a
		}
		if b.op == "int" && nonneg(a) {
			if k, w, ok := contiguous(b.n); ok {
				p := m.IntB(new(big.Int).Lsh(bigOne, k))
				and := m.MulC(m.Mod(m.Div(a, p), m.IntB(new(big.Int).Lsh(bigOne, w))), p.n)
				switch op {
				case token.AND:
					return and
				case token.OR:
					return m.Sub(m.Add(a, b), and)
				case token.XOR:
					return m.Sub(m.Add(a, b), m.MulC(and, big.NewInt(2)))
				default:
					return m.Sub(a, and)
				}
			}
		}
		if op == token.OR || op == token.XOR {
			if r := m.BitOr(a, b, st.f); r != nil {
				return r
			}
		}
		if op == token.AND {
			return m.UF("bitand", x.sort(rt), a, b)
		}
		return m.UF("bit"+op.String(), x.sort(rt), a, b)
	}
	x.unsup("operator %v", op)
	return nil
}

func (x *X) eqVals(st *State, a, b *T, t types.Type) *T {
	m := x.m
	switch t.Underlying().(type) {
	case *types.Slice:
		// only comparison with nil
		a, b = x.normSlice(a), x.normSlice(b)
		if m.Fld(b, 0) != m.zero {
			a = b
		}
		return x.sliceNil(a)
	}
	return m.Eq(a, b)
}

func (x *X) sliceNil(a *T) *T {
	m := x.m
	if a.op == "ite" {
		return m.Ite(a.args[0], x.sliceNil(a.args[1]), x.sliceNil(a.args[2]))
	}
	r := m.Fld(a, 0)
	if r.op == "ite" && a.op == "mk" {
		w := func(r *T) *T { return m.Mk(a.sort, append([]*T{r}, a.args[1:]...)...) }
		return m.Ite(r.args[0], x.sliceNil(w(r.args[1])), x.sliceNil(w(r.args[2])))
	}
	if f, ok := x.maybeNilF[r.str]; ok && r.op == "allocf" && len(f.params) == len(r.args) {
		sub := map[*T]*T{}
		for i, p := range f.params {
			sub[p] = r.args[i]
		}
		return m.Subst(f.cond, sub)
	}
	if c, ok := x.maybeNil[r]; ok {
		return c
	}
	if r.op == "vref" {
		// Views do not tell nil from empty.
		return m.Eq(m.Fld(a, 2), m.zero)
	}
	return m.Eq(r, m.zero)
}

func (x *X) sliceOp(fr *Frame, st *State, i *ssa.Slice) (*T, bool) {
	m := x.m
	v := x.val(fr, st, i.X)
	get := func(v ssa.Value) *T {
		if v == nil {
			return nil
		}
		return x.val(fr, st, v)
	}
	lo, hi, mx := get(i.Low), get(i.High), get(i.Max)
	if lo == nil {
		lo = m.zero
	}
	switch u := i.X.Type().Underlying().(type) {
	case *types.Basic:
		if hi == nil {
			hi = m.Len(v)
		}
		if !x.oblige(st, "panic-free:slice bounds", x.pos(i), m.And(m.Le(m.zero, lo), m.Le(lo, hi), m.Le(hi, m.Len(v)))) {
			return nil, false
		}
		return x.subSeq(st, v, lo, hi), true
	case *types.Pointer:
		if !x.nonNil(st, v, i) {
			return nil, false
		}
		at := u.Elem()
		n := m.Int64(at.Underlying().(*types.Array).Len())
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		}
		if !x.oblige(st, "panic-free:slice bounds", x.pos(i), m.And(m.Le(m.zero, lo), m.Le(lo, hi), m.Le(hi, mx), m.Le(mx, n))) {
			return nil, false
		}
		return m.Mk(m.sliceSort(), x.arrRef(v, at), lo, m.Sub(hi, lo), m.Sub(mx, lo)), true
	case *types.Slice:
		v = x.normSlice(v)
		cp := m.Fld(v, 3)
		if hi == nil {
			hi = m.Fld(v, 2)
		}
		if mx == nil {
			mx = cp
		}
		if !x.oblige(st, "panic-free:slice bounds", x.pos(i), m.And(m.Le(m.zero, lo), m.Le(lo, hi), m.Le(hi, mx), m.Le(mx, cp))) {
			return nil, false
		}
		return m.Mk(m.sliceSort(), m.Fld(v, 0), m.Add(m.Fld(v, 1), lo), m.Sub(hi, lo), m.Sub(mx, lo)), true
	}
	x.unsup("slice of %s", i.X.Type())
	return nil, false
}

func (x *X) builtin(fr *Frame, st *State, name string, args []*T, vals []ssa.Value, site ssa.Instruction, rt types.Type) ([]*T, bool) {
	m := x.m
	switch name {
	case "len":
		return []*T{x.lenOf(st, args[0], vals[0].Type())}, true
	case "cap":
		switch u := vals[0].Type().Underlying().(type) {
		case *types.Slice:
			return []*T{m.Fld(x.normSlice(args[0]), 3)}, true
		case *types.Array:
			return []*T{m.Int64(u.Len())}, true
		case *types.Chan:
			return []*T{x.chanCap(st, args[0])}, true
		}
	case "append":
		et := vals[0].Type().Underlying().(*types.Slice).Elem()
		var add *T
		if isStringType(vals[1].Type()) {
			add = args[1]
		} else {
			add = x.content(st, args[1], et)
		}
		return []*T{x.appendSeq(st, args[0], et, add, site)}, true
	case "copy":
		et := vals[0].Type().Underlying().(*types.Slice).Elem()
		d := x.normSlice(args[0])
		var src *T
		if isStringType(vals[1].Type()) {
			src = args[1]
		} else {
			src = x.content(st, args[1], et)
		}
		dl, sl := m.Fld(d, 2), m.Len(src)
		var n *T
		switch {
		case st.f.Decide(m.Le(sl, dl)) == 1:
			n = sl
		case st.f.Decide(m.Le(dl, sl)) == 1:
			n = dl
		default:
			n = m.Ite(m.Le(sl, dl), sl, dl)
		}
		if d.op == "ite" {
			x.unsup("copy to a conditional slice")
		}
		ref, off := m.Fld(d, 0), m.Fld(d, 1)
		if ref == m.zero {
			return []*T{m.zero}, true
		}
		b := x.backing(st, ref, et)
		nb := m.Cat(b.sort, m.SubSeq(b, m.zero, off), x.subSeq(st, src, m.zero, n), x.subSeq(st, b, m.Add(off, n), m.Len(b)))
		x.setBacking(st, ref, et, nb)
		return []*T{n}, true
	case "delete":
		u := vals[0].Type().Underlying().(*types.Map)
		if args[0] == m.zero {
			return nil, true
		}
		mv := x.mapVal(st, args[0], u)
		x.setMap(st, args[0], u, m.Mk(mv.sort, m.Store(m.Fld(mv, 0), args[1], m.tFals), m.Fld(mv, 1)))
		return nil, true
	case "close":
		ch := args[0]
		if !x.oblige(st, "panic-free:close of closed or nil channel", x.pos(site), m.And(m.Not(m.Eq(ch, m.zero)), m.Not(x.chanClosed(st, ch)))) {
			return nil, false
		}
		st.heap["G:closed"] = m.Store(x.h(st, "G:closed", m.Bool()), ch, m.tTrue)
		return nil, true
	case "panic":
		x.oblige(st, "panic-free:explicit panic", x.pos(site), m.tFals)
		return nil, false
	case "recover":
		return []*T{m.nilIf}, true
	case "ssa:wrapnilchk":
		if !x.nonNil(st, args[0], site) {
			return nil, false
		}
		return []*T{args[0]}, true
	case "print", "println":
		return nil, true
	}
	x.unsup("builtin %s", name)
	return nil, false
}

// appendSeq appends the elements add to slice s.
func (x *X) appendSeq(st *State, s *T, et types.Type, add *T, site ssa.Instruction) *T {
	m := x.m
	s = x.normSlice(s)
	n := m.Len(add)
	if n == m.zero {
		return s
	}
	c := x.content(st, s, et)
	if s.op == "mk" {
		ref, off, ln, cp := s.args[0], s.args[1], s.args[2], s.args[3]
		// Room left: write in place. Decided by the facts only where
		// the capacity is known.
		if ref != m.zero && ln != cp && st.f.Decide(m.Le(m.Add(ln, n), cp)) == 1 {
			b := x.backing(st, ref, et)
			end := m.Add(off, ln)
			nb := m.Cat(b.sort, x.subSeq(st, b, m.zero, end), add, x.subSeq(st, b, m.Add(end, n), m.Len(b)))
			x.setBacking(st, ref, et, nb)
			return m.Mk(m.sliceSort(), ref, off, m.Add(ln, n), cp)
		}
		if ref != m.zero && ln != cp && st.f.Decide(m.Lt(cp, m.Add(ln, n))) != 1 {
			// Capacity unknown: treated as moving the elements, which
			// is only right if nobody else appends to the same slot.
			key := m.UF("slot", m.IntS(), ref, m.Add(off, ln))
			if st.used[key] {
				x.unsup("two appends share the spare capacity of one slice at %s", x.pos(site))
			}
			st.used[key] = true
		}
	}
	return x.newSpare(st, et, m.Cat(m.seqOf(x.sort(et), -1), c, add), "append")
}

// newSpare is a new slice of the elements nc, of unknown capacity.
func (x *X) newSpare(st *State, et types.Type, nc *T, what string) *T {
	m := x.m
	r := x.alloc(st, what)
	// Capacity after growth is unknown but at least the length.
	l := m.Len(nc)
	spare := x.freshSym(st, "spare", m.sorts["Len"])
	x.setBacking(st, r, et, m.Cat(nc.sort, nc, m.Rep(nc.sort, spare, x.zero(et))))
	return m.Mk(m.sliceSort(), r, m.zero, l, m.Add(l, spare))
}

// card is the number of keys of a map.
func (x *X) card(s *T) *T {
	m := x.m
	switch s.op {
	case "store":
		was := m.Select(s.args[0], s.args[1])
		switch n := x.card(s.args[0]); s.args[2] {
		case m.tTrue:
			return m.Add(n, m.Ite(was, m.Int64(0), m.Int64(1)))
		case m.tFals:
			return m.Sub(n, m.Ite(was, m.Int64(1), m.Int64(0)))
		}
	case "constarr":
		if s.args[0] == m.tFals {
			return m.Int64(0)
		}
	case "ite":
		return m.Ite(s.args[0], x.card(s.args[1]), x.card(s.args[2]))
	}
	return m.Call("mapcard", m.sorts["Len"], s)
}
