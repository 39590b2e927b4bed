package main

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strings"
)

// unsup is raised where the code leaves the verified subset.
type unsup struct{ msg string }

func (x *X) unsup(f string, a ...interface{}) {
	panic(unsup{fmt.Sprintf(f, a...)})
}

// tkey names a type; byte and uint8 are the same, as are rune and int32.
func tkey(t types.Type) string {
	s := types.TypeString(unaliased(t), nil)
	if strings.Contains(s, "byte") || strings.Contains(s, "rune") || strings.Contains(s, "any") {
		s = aliasByte.ReplaceAllString(s, "${1}uint8")
		s = aliasRune.ReplaceAllString(s, "${1}int32")
	}
	return s
}

// unaliased replaces the aliases in a type by what they stand for.
func unaliased(t types.Type) types.Type {
	switch t := types.Unalias(t).(type) {
	case *types.Pointer:
		if e := unaliased(t.Elem()); e != t.Elem() {
			return types.NewPointer(e)
		}
		return t
	case *types.Slice:
		if e := unaliased(t.Elem()); e != t.Elem() {
			return types.NewSlice(e)
		}
		return t
	case *types.Array:
		if e := unaliased(t.Elem()); e != t.Elem() {
			return types.NewArray(e, t.Len())
		}
		return t
	case *types.Chan:
		if e := unaliased(t.Elem()); e != t.Elem() {
			return types.NewChan(t.Dir(), e)
		}
		return t
	case *types.Map:
		k, e := unaliased(t.Key()), unaliased(t.Elem())
		if k != t.Key() || e != t.Elem() {
			return types.NewMap(k, e)
		}
		return t
	case *types.Signature:
		same := true
		tuple := func(l *types.Tuple) *types.Tuple {
			var vs []*types.Var
			for i := 0; i < l.Len(); i++ {
				v := l.At(i)
				e := unaliased(v.Type())
				same = same && e == v.Type()
				vs = append(vs, types.NewVar(v.Pos(), v.Pkg(), v.Name(), e))
			}
			return types.NewTuple(vs...)
		}
		if t.TypeParams() != nil || t.RecvTypeParams() != nil {
			return t
		}
		p, r := tuple(t.Params()), tuple(t.Results())
		if same {
			return t
		}
		return types.NewSignatureType(nil, nil, nil, p, r, t.Variadic())
	default:
		return t
	}
}

var (
	aliasByte = regexp.MustCompile(`(^|[^.\w/])byte\b`)
	aliasRune = regexp.MustCompile(`(^|[^.\w/])rune\b`)
)

// opaqueTypes are value types of dependencies that are treated as abstract.
var opaqueTypes = map[string]bool{
	"time.Time":     true,
	"time.Location": true,
	"github.com/decred/dcrd/dcrec/secp256k1/v4.PublicKey":     true,
	"github.com/decred/dcrd/dcrec/secp256k1/v4.PrivateKey":    true,
	"github.com/btcsuite/btcd/btcec/v2.PublicKey":             true,
	"github.com/btcsuite/btcd/btcec/v2.PrivateKey":            true,
	"github.com/btcsuite/btcd/btcec/v2/schnorr.Signature":     true,
	"github.com/lightningnetwork/lightning-onion.OnionPacket": true,
	"github.com/lightningnetwork/lightning-onion.Router":      true,
	"github.com/lightningnetwork/lnd/lnwire.RawFeatureVector": true,
	"github.com/lightningnetwork/lnd/tlv.Stream":              true,
	"bytes.Buffer":   true,
	"bytes.Reader":   true,
	"sync.WaitGroup": true,
	"sync.Mutex":     true,
	"sync.Once":      true,
	"sync.RWMutex":   true,
	"github.com/carlakc/boltnd/offersrpc.BlindedPath":       false,
	"google.golang.org/protobuf/internal/impl.MessageState": true,
	"google.golang.org/grpc.Server":                         true,
	"google.golang.org/grpc/internal/status.Status":         true,
	"math/rand.Rand": true,
	"github.com/lightninglabs/lndclient.LndServices":       false,
	"google.golang.org/protobuf/internal/pragma.DoNotCopy": true,
	"crypto/tls.Config": true,
}

var canonNames = map[string]string{
	"github.com/decred/dcrd/dcrec/secp256k1/v4.PublicKey":  "PublicKey",
	"github.com/btcsuite/btcd/btcec/v2.PublicKey":          "PublicKey",
	"github.com/decred/dcrd/dcrec/secp256k1/v4.PrivateKey": "PrivateKey",
	"github.com/btcsuite/btcd/btcec/v2.PrivateKey":         "PrivateKey",
	"time.Time": "Time",
}

func (x *X) intSort(b *types.Basic) *Sort {
	var lo, hi *big.Int
	switch b.Kind() {
	case types.Uint8:
		lo, hi = wrapRanges["u8"][0], wrapRanges["u8"][1]
	case types.Uint16:
		lo, hi = wrapRanges["u16"][0], wrapRanges["u16"][1]
	case types.Uint32:
		lo, hi = wrapRanges["u32"][0], wrapRanges["u32"][1]
	case types.Uint64, types.Uint, types.Uintptr:
		lo, hi = wrapRanges["u64"][0], wrapRanges["u64"][1]
	case types.Int8:
		lo, hi = wrapRanges["s8"][0], wrapRanges["s8"][1]
	case types.Int16:
		lo, hi = wrapRanges["s16"][0], wrapRanges["s16"][1]
	case types.Int32, types.UntypedRune:
		lo, hi = wrapRanges["s32"][0], wrapRanges["s32"][1]
	case types.Int64, types.Int, types.UntypedInt:
		lo, hi = wrapRanges["s64"][0], wrapRanges["s64"][1]
	default:
		return nil
	}
	return x.m.rangedInt(intKind(b), lo, hi)
}

func intKind(b *types.Basic) string {
	switch b.Kind() {
	case types.Uint8:
		return "uint8"
	case types.Uint16:
		return "uint16"
	case types.Uint32:
		return "uint32"
	case types.Uint64, types.Uint, types.Uintptr:
		return "uint64"
	case types.Int8:
		return "int8"
	case types.Int16:
		return "int16"
	case types.Int32, types.UntypedRune:
		return "int32"
	}
	return "int64"
}

func wrapKind(t types.Type) string {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return ""
	}
	switch intKind(b) {
	case "uint8":
		return "u8"
	case "uint16":
		return "u16"
	case "uint32":
		return "u32"
	case "uint64":
		return "u64"
	case "int8":
		return "s8"
	case "int16":
		return "s16"
	case "int32":
		return "s32"
	}
	return "s64"
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// opaqueName says whether t is abstract and under which name.
func opaqueName(t types.Type) (string, bool) {
	k := tkey(t)
	if c, ok := canonNames[k]; ok {
		return c, true
	}
	if opaqueTypes[k] {
		return k, true
	}
	return "", false
}

func (x *X) sort(t types.Type) *Sort {
	k := tkey(t)
	if s, ok := x.sortMemo[k]; ok {
		return s
	}
	s := x.sort0(t, k)
	x.sortMemo[k] = s
	return s
}

func (x *X) sort0(t types.Type, k string) *Sort {
	m := x.m
	if n, ok := opaqueName(t); ok {
		return m.opaque(n)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return m.Bool()
		case u.Info()&types.IsString != 0:
			return m.byteSeq()
		case u.Info()&types.IsInteger != 0:
			return x.intSort(u)
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return m.IntS()
		}
		return m.opaque("basic:" + u.Name())
	case *types.Pointer, *types.Map, *types.Chan:
		return m.rangedInt("Ref", bigZero, nil)
	case *types.Slice:
		return m.sliceSort()
	case *types.Array:
		return m.seqOf(x.sort(u.Elem()), u.Len())
	case *types.Signature:
		return m.Fn()
	case *types.Interface:
		return m.Iface()
	case *types.Struct:
		var fs []*Sort
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, x.sort(u.Field(i).Type()))
		}
		return m.dt(k, fs)
	case *types.Tuple:
		var fs []*Sort
		for i := 0; i < u.Len(); i++ {
			fs = append(fs, x.sort(u.At(i).Type()))
		}
		return m.dt("tuple "+k, fs)
	}
	x.unsup("sort of %s", k)
	return nil
}

func (x *X) nilFn() *T { return x.m.Ctor("nilfn", x.m.Fn()) }

func (x *X) zero(t types.Type) *T {
	m := x.m
	if n, ok := opaqueName(t); ok {
		return x.opaqueZero(n)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return m.tFals
		case u.Info()&types.IsString != 0:
			return m.Empty(m.byteSeq())
		case u.Info()&types.IsInteger != 0, u.Kind() == types.UnsafePointer:
			return m.zero
		}
		return m.Ctor("zero:"+u.Name(), x.sort(t))
	case *types.Pointer, *types.Map, *types.Chan:
		return m.zero
	case *types.Slice:
		return m.Mk(m.sliceSort(), m.zero, m.zero, m.zero, m.zero)
	case *types.Array:
		return m.Rep(x.sort(t), m.Int64(u.Len()), x.zero(u.Elem()))
	case *types.Signature:
		return x.nilFn()
	case *types.Interface:
		return m.nilIf
	case *types.Struct:
		var fs []*T
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, x.zero(u.Field(i).Type()))
		}
		return m.Mk(x.sort(t), fs...)
	}
	x.unsup("zero of %s", tkey(t))
	return nil
}

func (x *X) opaqueZero(n string) *T {
	m := x.m
	switch n {
	case "bytes.Buffer", "bytes.Reader":
		return x.bufMk(n, m.Empty(m.byteSeq()))
	case "Time":
		// The first of January of the year 1.
		return m.Ctor("unix", m.opaque(n), m.Int64(-62135596800), m.zero)
	}
	return m.Ctor("zero:"+n, m.opaque(n))
}

func (x *X) bufMk(n string, content *T) *T {
	return x.m.Ctor("buf", x.m.opaque(n), content)
}

func (x *X) bufContent(b *T) *T {
	if b.op == "ctor" && b.str == "buf" {
		return b.args[0]
	}
	if b.op == "ite" {
		return x.m.Ite(b.args[0], x.bufContent(b.args[1]), x.bufContent(b.args[2]))
	}
	return x.m.UF("bufcontent", x.m.byteSeq(), b)
}

// ---- deep views: heap-independent values

func (x *X) viewSort(t types.Type) *Sort { return x.viewSortD(t, 0) }

func (x *X) optSort(name string) *Sort { return x.m.opaque("Opt<" + name + ">") }

func (x *X) viewSortD(t types.Type, d int) *Sort {
	m := x.m
	k := tkey(t)
	if s, ok := x.viewMemo[k]; ok {
		return s
	}
	if d > 8 {
		x.unsup("view of recursive type %s", k)
	}
	var s *Sort
	if _, ok := opaqueName(t); ok {
		s = x.sort(t)
	} else {
		switch u := t.Underlying().(type) {
		case *types.Slice:
			s = m.seqOf(x.viewSortD(u.Elem(), d+1), -1)
		case *types.Array:
			s = m.seqOf(x.viewSortD(u.Elem(), d+1), u.Len())
		case *types.Pointer:
			s = x.optSort(x.viewSortD(u.Elem(), d+1).name)
			x.optElem[s.name] = x.viewSortD(u.Elem(), d+1)
		case *types.Struct:
			if x.flatStruct(u) {
				s = x.sort(t)
				break
			}
			var fs []*Sort
			for i := 0; i < u.NumFields(); i++ {
				fs = append(fs, x.viewSortD(u.Field(i).Type(), d+1))
			}
			s = m.dt("view "+k, fs)
		case *types.Tuple:
			var fs []*Sort
			for i := 0; i < u.Len(); i++ {
				fs = append(fs, x.viewSortD(u.At(i).Type(), d+1))
			}
			s = m.dt("view tuple "+k, fs)
		case *types.Map:
			s = m.dt("view "+k, []*Sort{m.arrOf(x.sort(u.Key()), m.Bool()), m.arrOf(x.sort(u.Key()), x.viewSortD(u.Elem(), d+1))})
		default:
			s = x.sort(t)
		}
	}
	x.viewMemo[k] = s
	return s
}

// flatType: values of t are their own views.
func (x *X) flatType(t types.Type) bool {
	if _, ok := opaqueName(t); ok {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic, *types.Signature, *types.Interface, *types.Chan:
		return true
	case *types.Array:
		return x.flatType(u.Elem())
	case *types.Struct:
		return x.flatStruct(u)
	}
	return false
}

func (x *X) flatStruct(u *types.Struct) bool {
	for i := 0; i < u.NumFields(); i++ {
		if !x.flatType(u.Field(i).Type()) {
			return false
		}
	}
	return true
}

func (x *X) view(st *State, t types.Type, v *T) *T {
	m := x.m
	if x.flatType(t) {
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		c := x.content(st, v, u.Elem())
		return x.viewSeq(st, u.Elem(), c)
	case *types.Array:
		return x.viewSeq(st, u.Elem(), v)
	case *types.Pointer:
		return x.viewPtr(st, u, v)
	case *types.Struct:
		var fs []*T
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, x.view(st, u.Field(i).Type(), m.Fld(v, i)))
		}
		return m.Mk(x.viewSort(t), fs...)
	case *types.Map:
		if v.op == "vref" {
			return v.args[0]
		}
		mv := x.mapVal(st, v, u)
		vs := x.viewSort(t)
		bv := m.FreshBV(x.sort(u.Key()), 0)
		return m.Mk(vs, m.Fld(mv, 0), x.lamArr(bv, x.view(st, u.Elem(), m.Select(m.Fld(mv, 1), bv)), vs.fields[1]))
	}
	x.unsup("view of %s", tkey(t))
	return nil
}

func (x *X) lamArr(bv, body *T, s *Sort) *T { return x.m.LamArr(s, bv, body) }

func (x *X) viewSeq(st *State, et types.Type, c *T) *T {
	if x.flatType(et) {
		return c
	}
	return x.viewSeq0(st, et, c)
}

func (x *X) viewSeq0(st *State, et types.Type, c *T) *T {
	m := x.m
	vs := x.viewSort(et)
	switch c.op {
	case "empty":
		return m.Empty(m.seqOf(vs, -1))
	case "unit":
		return m.Unit(m.seqOf(vs, -1), x.view(st, et, c.args[0]))
	case "cat":
		var ps []*T
		for _, p := range c.args {
			ps = append(ps, x.viewSeq0(st, et, p))
		}
		return m.Cat(m.seqOf(vs, -1), ps...)
	case "ite":
		return m.Ite(c.args[0], x.viewSeq0(st, et, c.args[1]), x.viewSeq0(st, et, c.args[2]))
	case "rep":
		return m.Rep(m.seqOf(vs, -1), c.args[0], x.view(st, et, c.args[1]))
	case "upd":
		return m.Upd(x.viewSeq0(st, et, c.args[0]), c.args[1], x.view(st, et, c.args[2]))
	case "map":
		bv, body := c.args[1], c.args[2]
		return m.Map(c.args[0], bv, x.view(st, et, body))
	}
	bv := m.FreshBV(c.sort.elem, c.time)
	q := x.quietFacts(st)
	return m.Map(c, bv, x.view(q, et, bv))
}

// quietFacts is a copy of st whose fact list can be polluted with facts on
// bound variables without affecting st.
func (x *X) quietFacts(st *State) *State {
	n := *st
	n.f = st.f.clone()
	return &n
}

func (x *X) viewPtr(st *State, u *types.Pointer, v *T) *T {
	m := x.m
	s := x.viewSort(u)
	none := m.Ctor("none", s)
	switch {
	case v.op == "int" && v.n.Sign() == 0:
		return none
	case v.op == "ite":
		// inflated optional pointer
		if v.args[1].op == "int" && v.args[2].op == "vref" {
			if w := v.args[2].args[0]; v.args[0] == m.Eq(w, none) && w.sort == s {
				return w
			}
		}
		return m.Ite(v.args[0], x.viewPtr(st, u, v.args[1]), x.viewPtr(st, u, v.args[2]))
	case v.op == "vref":
		return v.args[0]
	}
	some := m.Ctor("some", s, x.view(st, u.Elem(), x.load(st, v, u.Elem())))
	if isCtor(v) {
		return some
	}
	switch st.f.Decide(m.Eq(v, m.zero)) {
	case 1:
		return none
	case -1:
		return some
	}
	return m.Ite(m.Eq(v, m.zero), none, some)
}

func (x *X) unsome(v *T) *T {
	m := x.m
	if v.op == "ctor" && v.str == "some" {
		return v.args[0]
	}
	if v.op == "ite" {
		a, b := v.args[1], v.args[2]
		if a.op == "ctor" && a.str == "none" {
			return x.unsome(b)
		}
		if b.op == "ctor" && b.str == "none" {
			return x.unsome(a)
		}
		return m.Ite(v.args[0], x.unsome(a), x.unsome(b))
	}
	return m.UF("unsome", x.optElem[v.sort.name], v)
}

// inflate makes a value of type t from its view; it is immutable.
func (x *X) inflate(t types.Type, v *T) *T {
	m := x.m
	if x.flatType(t) {
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		l := m.Len(v)
		return m.Mk(m.sliceSort(), m.raw("vref", "", x.refSort(), nil, v), m.zero, l, l)
	case *types.Array:
		return x.inflateSeq(u.Elem(), v)
	case *types.Pointer:
		none := m.Ctor("none", v.sort)
		return m.Ite(m.Eq(v, none), m.zero, m.raw("vref", "", x.refSort(), nil, v))
	case *types.Map:
		return m.raw("vref", "", x.refSort(), nil, v)
	case *types.Struct:
		var fs []*T
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, x.inflate(u.Field(i).Type(), m.Fld(v, i)))
		}
		return m.Mk(x.sort(t), fs...)
	}
	x.unsup("inflate %s", tkey(t))
	return nil
}

func (x *X) inflateSeq(et types.Type, v *T) *T {
	if x.flatType(et) {
		return v
	}
	bv := x.m.FreshBV(v.sort.elem, v.time)
	return x.m.Map(v, bv, x.inflate(et, bv))
}

func (x *X) refSort() *Sort { return x.m.rangedInt("Ref", bigZero, nil) }

func shortName(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		return s[i+1:]
	}
	return s
}
