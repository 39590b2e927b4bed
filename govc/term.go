package main

import (
	"fmt"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"
)

// Sort is the sort of a term. Int-like sorts may carry a range, sequence
// sorts an element sort and (for Go arrays) a fixed length.
type Sort struct {
	smt      string // SMT-LIB sort name
	name     string // unique name
	elem     *Sort  // sequences, arrays: element
	key      *Sort  // arrays: index
	fixedLen int64  // sequences: >=0 if statically known, else -1
	lo, hi   *big.Int
	fields   []*Sort // datatypes
	isSeq    bool
	isArr    bool
	isDT     bool
}

// T is a hash-consed term.
type T struct {
	id    int
	op    string
	str   string
	args  []*T
	n     *big.Int
	coefs []*big.Int
	sort  *Sort
	time  int  // latest creation time of any leaf
	hasBV bool // contains a free bound variable
	fbv   []*T // its free bound variables
	bh    int  // height of binders inside
}

// TM owns terms. Not safe for concurrent use.
type TM struct {
	tab   map[string]*T
	negs  map[*T]*T
	nid   int
	tTrue *T
	tFals *T
	zero  *T
	one   *T
	nilIf *T

	sorts map[string]*Sort
	clock int
	nsym  int
	simpN int

	genTime map[string]int // creation time of generative symbols
	havFam  map[string][]family
	initSel map[*T]map[*T]*T // initial heaps at the objects of package initialisation
}

// family gives the heap values of the objects allocated by loop iterations.
type family struct {
	name   string
	params []*T
	val    *T
}

var (
	bigZero = big.NewInt(0)
	bigOne  = big.NewInt(1)
	maxLen  = new(big.Int).Lsh(bigOne, 56)
)

func NewTM() *TM {
	m := &TM{tab: map[string]*T{}, negs: map[*T]*T{}, sorts: map[string]*Sort{}, genTime: map[string]int{}, havFam: map[string][]family{}, initSel: map[*T]map[*T]*T{}}
	for _, s := range []struct{ n, smt string }{
		{"Int", "Int"}, {"Bool", "Bool"}, {"Iface", "Iface"}, {"Fn", "Fn"},
		{"Trace", "Trace"}, {"Any", "Any"},
	} {
		m.sorts[s.n] = &Sort{smt: s.smt, name: s.n, fixedLen: -1}
	}
	l := m.rangedInt("Len", bigZero, maxLen)
	_ = l
	m.tTrue = m.raw("true", "", m.Bool(), nil)
	m.tFals = m.raw("false", "", m.Bool(), nil)
	m.zero = m.Int64(0)
	m.one = m.Int64(1)
	m.nilIf = m.raw("nilif", "", m.sorts["Iface"], nil)
	return m
}

func (m *TM) Bool() *Sort  { return m.sorts["Bool"] }
func (m *TM) IntS() *Sort  { return m.sorts["Int"] }
func (m *TM) Iface() *Sort { return m.sorts["Iface"] }
func (m *TM) Fn() *Sort    { return m.sorts["Fn"] }
func (m *TM) TraceS() *Sort {
	return m.sorts["Trace"]
}

func (m *TM) rangedInt(name string, lo, hi *big.Int) *Sort {
	if s, ok := m.sorts[name]; ok {
		return s
	}
	s := &Sort{smt: "Int", name: name, lo: lo, hi: hi, fixedLen: -1}
	m.sorts[name] = s
	return s
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_':
			b.WriteRune(r)
		default:
			b.WriteString("_" + strconv.FormatInt(int64(r), 16))
		}
	}
	return b.String()
}

func (m *TM) opaque(name string) *Sort {
	if s, ok := m.sorts[name]; ok {
		return s
	}
	s := &Sort{smt: "O_" + sanitize(name), name: name, fixedLen: -1}
	m.sorts[name] = s
	return s
}

func (m *TM) seqOf(e *Sort, fixed int64) *Sort {
	name := fmt.Sprintf("Seq<%s>%d", e.name, fixed)
	if s, ok := m.sorts[name]; ok {
		return s
	}
	s := &Sort{smt: "Seq_" + sanitize(e.smt), name: name, elem: e, fixedLen: fixed, isSeq: true}
	m.sorts[name] = s
	return s
}

func (m *TM) arrOf(k, e *Sort) *Sort {
	name := fmt.Sprintf("Arr<%s,%s>", k.name, e.name)
	if s, ok := m.sorts[name]; ok {
		return s
	}
	s := &Sort{smt: fmt.Sprintf("(Array %s %s)", k.smt, e.smt), name: name, key: k, elem: e, isArr: true, fixedLen: -1}
	m.sorts[name] = s
	return s
}

func (m *TM) dt(name string, fields []*Sort) *Sort {
	if s, ok := m.sorts[name]; ok {
		return s
	}
	s := &Sort{smt: "D_" + sanitize(name), name: name, fields: fields, isDT: true, fixedLen: -1}
	m.sorts[name] = s
	return s
}

func (m *TM) byteSeq() *Sort {
	return m.seqOf(m.rangedInt("uint8", bigZero, big.NewInt(255)), -1)
}

func (m *TM) sliceSort() *Sort {
	l := m.sorts["Len"]
	return m.dt("Slice", []*Sort{m.IntS(), l, l, l})
}

// ---- interning

func (m *TM) raw(op, str string, s *Sort, n *big.Int, args ...*T) *T {
	return m.rawc(op, str, s, n, nil, args)
}

func (m *TM) rawc(op, str string, s *Sort, n *big.Int, coefs []*big.Int, args []*T) *T {
	var b []byte
	b = append(b, op...)
	b = append(b, 0)
	b = append(b, str...)
	b = append(b, 0)
	if s != nil {
		b = append(b, s.name...)
	}
	b = append(b, 0)
	if n != nil {
		b = append(b, n.String()...)
	}
	for i, a := range args {
		b = append(b, ',')
		b = strconv.AppendInt(b, int64(a.id), 10)
		if coefs != nil {
			b = append(b, '*')
			b = append(b, coefs[i].String()...)
		}
	}
	k := string(b)
	if t, ok := m.tab[k]; ok {
		return t
	}
	m.nid++
	t := &T{id: m.nid, op: op, str: str, args: args, n: n, coefs: coefs, sort: s}
	var bound *T
	switch op {
	case "map", "flat":
		bound = args[1]
	case "forall", "foralls", "lamarr":
		bound = args[0]
	}
	for i, a := range args {
		if a == bound && a.op == "bv" {
			if op != "lamarr" && a.time > t.time {
				t.time = a.time
			}
			continue
		}
		_ = i
		if a.time > t.time {
			t.time = a.time
		}
		if a.bh > t.bh {
			t.bh = a.bh
		}
		for _, b := range a.fbv {
			if b != bound {
				t.fbv = addBV(t.fbv, b)
			}
		}
	}
	if bound != nil {
		if n := bvIndex(bound); n > t.bh {
			t.bh = n
		}
	}
	if op == "bv" {
		t.fbv = []*T{t}
	}
	t.hasBV = len(t.fbv) > 0
	if op == "allocf" || op == "uf" || op == "hav" {
		if g, ok := m.genTime[str]; ok && g > t.time {
			t.time = g
		}
	}
	m.tab[k] = t
	return t
}

func (m *TM) IntB(n *big.Int) *T { return m.raw("int", "", m.IntS(), n) }
func (m *TM) Int64(n int64) *T   { return m.IntB(big.NewInt(n)) }
func (m *TM) BoolT(b bool) *T {
	if b {
		return m.tTrue
	}
	return m.tFals
}

// Sym creates a named symbol. Symbols with the same name and sort are the
// same term; the time is fixed by the first creation.
func (m *TM) Sym(name string, s *Sort, time int) *T {
	t := m.raw("sym", name, s, nil)
	if t.time == 0 && time != 0 {
		t.time = time
	}
	return t
}

func (m *TM) Str(s string) *T {
	if s == "" {
		return m.Empty(m.byteSeq())
	}
	return m.raw("strc", s, m.byteSeq(), nil)
}

func (m *TM) UF(name string, s *Sort, args ...*T) *T {
	return m.raw("uf", name, s, nil, args...)
}

// Ctor terms are free constructors: injective and pairwise distinct by name.
func (m *TM) Ctor(name string, s *Sort, args ...*T) *T {
	return m.raw("ctor", name, s, nil, args...)
}

func addBV(l []*T, b *T) []*T {
	for _, x := range l {
		if x == b {
			return l
		}
	}
	return append(l[:len(l):len(l)], b)
}

// bvIndex is the index of a canonical bound variable, 0 for others.
func bvIndex(t *T) int {
	if len(t.str) > 0 && t.str[0] == '$' {
		n := 0
		for _, c := range t.str[1:] {
			if c < '0' || c > '9' {
				break
			}
			n = n*10 + int(c-'0')
		}
		return n
	}
	return 0
}

// FreshBV is a bound variable used nowhere else.
func (m *TM) FreshBV(s *Sort, time int) *T {
	m.nsym++
	return m.BV(fmt.Sprintf("u%d", m.nsym), s, time)
}

// closeBV gives the bound variable its canonical name.
func (m *TM) closeBV(bv, body *T) (*T, *T) {
	h := body.bh + 1
	for _, b := range body.fbv {
		if b != bv && bvIndex(b) >= h {
			h = bvIndex(b) + 1
		}
	}
	c := m.BV(fmt.Sprintf("$%d", h), bv.sort, bv.time)
	if c == bv {
		return bv, body
	}
	return c, m.substBV(body, bv, c)
}

// BV is a bound variable; time gives the time of the values it ranges over.
func (m *TM) BV(name string, s *Sort, time int) *T {
	t := m.raw("bv", fmt.Sprintf("%s@%d", name, time), s, nil)
	t.time = time
	return t
}

// ---- integers

type linb struct {
	c     *big.Int
	coefs map[*T]*big.Int
}

func isInt(t *T) bool { return t.sort.smt == "Int" }

func (m *TM) addLin(l *linb, t *T, k *big.Int) {
	switch t.op {
	case "int":
		l.c.Add(l.c, new(big.Int).Mul(t.n, k))
	case "lin":
		l.c.Add(l.c, new(big.Int).Mul(t.n, k))
		for i, a := range t.args {
			m.addAtom(l, a, new(big.Int).Mul(t.coefs[i], k))
		}
	default:
		m.addAtom(l, t, k)
	}
}

func (m *TM) addAtom(l *linb, a *T, k *big.Int) {
	c, ok := l.coefs[a]
	if !ok {
		c = new(big.Int)
		l.coefs[a] = c
	}
	c.Add(c, k)
}

func (m *TM) mkLin(l *linb) *T {
	var as []*T
	for a, c := range l.coefs {
		if c.Sign() != 0 {
			as = append(as, a)
		}
	}
	if len(as) == 0 {
		return m.IntB(l.c)
	}
	if len(as) == 1 && l.c.Sign() == 0 && l.coefs[as[0]].Cmp(bigOne) == 0 {
		return as[0]
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	cs := make([]*big.Int, len(as))
	for i, a := range as {
		cs[i] = l.coefs[a]
	}
	return m.rawc("lin", "", m.IntS(), l.c, cs, as)
}

func (m *TM) lin(c int64, ts ...interface{}) *T {
	l := &linb{c: big.NewInt(c), coefs: map[*T]*big.Int{}}
	for i := 0; i < len(ts); i += 2 {
		m.addLin(l, ts[i].(*T), big.NewInt(int64(ts[i+1].(int))))
	}
	return m.mkLin(l)
}

func (m *TM) Add(a, b *T) *T {
	if a.op == "int" && a.n.Sign() == 0 {
		return b
	}
	if b.op == "int" && b.n.Sign() == 0 {
		return a
	}
	return m.lin(0, a, 1, b, 1)
}
func (m *TM) Sub(a, b *T) *T        { return m.lin(0, a, 1, b, -1) }
func (m *TM) AddC(a *T, c int64) *T { return m.lin(c, a, 1) }
func (m *TM) Neg(a *T) *T           { return m.lin(0, a, -1) }
func (m *TM) MulC(a *T, c *big.Int) *T {
	l := &linb{c: new(big.Int), coefs: map[*T]*big.Int{}}
	m.addLin(l, a, c)
	return m.mkLin(l)
}

func (m *TM) Mul(a, b *T) *T {
	if a.op == "int" {
		return m.MulC(b, a.n)
	}
	if b.op == "int" {
		return m.MulC(a, b.n)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return m.raw("*", "", m.IntS(), nil, a, b)
}

// Div and Mod are floor division and modulus by SMT-LIB (euclidean).
func (m *TM) Div(a, b *T) *T {
	if b.op == "int" && b.n.Sign() > 0 {
		if a.op == "int" {
			q := new(big.Int)
			r := new(big.Int)
			q.DivMod(a.n, b.n, r)
			return m.IntB(q)
		}
		if b.n.Cmp(bigOne) == 0 {
			return a
		}
		// Pull out the exactly divisible part.
		if a.op == "lin" {
			in := &linb{c: new(big.Int), coefs: map[*T]*big.Int{}}
			out := &linb{c: new(big.Int), coefs: map[*T]*big.Int{}}
			some := false
			q, r := new(big.Int).DivMod(a.n, b.n, new(big.Int))
			in.c.Set(r)
			out.c.Set(q)
			if q.Sign() != 0 {
				some = true
			}
			for i, x := range a.args {
				q, r := new(big.Int).DivMod(a.coefs[i], b.n, new(big.Int))
				if r.Sign() == 0 {
					m.addAtom(out, x, q)
					some = true
				} else {
					m.addAtom(in, x, a.coefs[i])
				}
			}
			if some {
				rest := m.mkLin(in)
				var d *T
				if rest.op == "int" {
					d = m.IntB(new(big.Int).Div(rest.n, b.n))
				} else {
					d = m.raw("div", "", m.IntS(), nil, rest, b)
				}
				return m.Add(m.mkLin(out), d)
			}
		}
	}
	return m.raw("div", "", m.IntS(), nil, a, b)
}

func (m *TM) Mod(a, b *T) *T {
	if b.op == "int" && b.n.Sign() > 0 {
		if a.op == "int" {
			return m.IntB(new(big.Int).Mod(a.n, b.n))
		}
		if b.n.Cmp(bigOne) == 0 {
			return m.zero
		}
		for _, bits := range []uint{8, 16, 32, 64} {
			if b.n.Cmp(new(big.Int).Lsh(bigOne, bits)) == 0 {
				return m.Wrap(a, fmt.Sprintf("u%d", bits), nil)
			}
		}
		if a.op == "lin" {
			l := &linb{c: new(big.Int).Mod(a.n, b.n), coefs: map[*T]*big.Int{}}
			ch := l.c.Cmp(a.n) != 0
			for i, x := range a.args {
				r := new(big.Int).Mod(a.coefs[i], b.n)
				if r.Cmp(a.coefs[i]) != 0 {
					ch = true
				}
				if r.Sign() != 0 {
					m.addAtom(l, x, r)
				}
			}
			if ch {
				return m.Mod(m.mkLin(l), b)
			}
		}
	}
	return m.raw("mod", "", m.IntS(), nil, a, b)
}

// Le is a <= b in canonical form le0(lin).
func (m *TM) Le(a, b *T) *T { return m.le0(m.Sub(a, b)) }
func (m *TM) Lt(a, b *T) *T { return m.le0(m.lin(1, a, 1, b, -1)) }

func (m *TM) le0(l *T) *T {
	if l.op == "int" {
		return m.BoolT(l.n.Sign() <= 0)
	}
	if lo, hi := m.Range(l, nil); true {
		if hi != nil && hi.Sign() <= 0 {
			return m.tTrue
		}
		if lo != nil && lo.Sign() > 0 {
			return m.tFals
		}
	}
	if r := m.oneIte(l, m.le0); r != nil {
		return r
	}
	// Normalise by gcd of coefficients.
	if l.op == "lin" {
		g := new(big.Int)
		for _, c := range l.coefs {
			g.GCD(nil, nil, g, new(big.Int).Abs(c))
		}
		if g.Cmp(bigOne) > 0 {
			nl := &linb{c: new(big.Int), coefs: map[*T]*big.Int{}}
			for i, a := range l.args {
				nl.coefs[a] = new(big.Int).Quo(l.coefs[i], g)
			}
			// c + g*x <= 0  <=>  x <= floor(-c/g) <=> x - floor(-c/g) <= 0
			f := new(big.Int).Div(new(big.Int).Neg(l.n), g)
			nl.c.Neg(f)
			l = m.mkLin(nl)
		}
	}
	return m.raw("le0", "", m.Bool(), nil, l)
}

// Range gives bounds on an integer term; nil is unbounded.
func (m *TM) Range(t *T, f *Facts) (lo, hi *big.Int) {
	if t.op == "int" {
		return t.n, t.n
	}
	if t.op == "lin" {
		lo, hi = new(big.Int).Set(t.n), new(big.Int).Set(t.n)
		for i, a := range t.args {
			al, ah := m.Range(a, f)
			if t.coefs[i].Sign() < 0 {
				al, ah = ah, al
			}
			if lo != nil {
				if al == nil {
					lo = nil
				} else {
					lo.Add(lo, new(big.Int).Mul(al, t.coefs[i]))
				}
			}
			if hi != nil {
				if ah == nil {
					hi = nil
				} else {
					hi.Add(hi, new(big.Int).Mul(ah, t.coefs[i]))
				}
			}
		}
		if f != nil {
			lo, hi = f.tighten(t, lo, hi)
		}
		return
	}
	lo, hi = t.sort.lo, t.sort.hi
	switch t.op {
	case "mod":
		if t.args[1].op == "int" && t.args[1].n.Sign() > 0 {
			lo = bigZero
			hi = new(big.Int).Sub(t.args[1].n, bigOne)
		}
	case "div":
		if t.args[1].op == "int" && t.args[1].n.Sign() > 0 {
			al, ah := m.Range(t.args[0], f)
			if al != nil {
				lo = new(big.Int).Div(al, t.args[1].n)
			}
			if ah != nil {
				hi = new(big.Int).Div(ah, t.args[1].n)
			}
		}
	case "ite":
		al, ah := m.Range(t.args[1], f)
		bl, bh := m.Range(t.args[2], f)
		if al != nil && bl != nil {
			if al.Cmp(bl) < 0 {
				lo = al
			} else {
				lo = bl
			}
		}
		if ah != nil && bh != nil {
			if ah.Cmp(bh) > 0 {
				hi = ah
			} else {
				hi = bh
			}
		}
	case "wrap":
		r := wrapRanges[t.str]
		lo, hi = r[0], r[1]
	case "alloc":
		lo = bigOne
	case "sumof":
		// At most the longest part for each position.
		if g := t.args[0]; g.op == "flat" && g.args[2].op == "rep" {
			_, ph := m.Range(g.args[2].args[0], nil)
			_, nh := m.Range(m.Len(g.args[0]), f)
			if ph != nil && nh != nil {
				hi = new(big.Int).Mul(ph, nh)
			}
		}
	case "uf":
		if t.str == "ext0:strings.IndexByte" || t.str == "ext0:strings.LastIndexByte" {
			lo = bigMinus
			if _, h := m.Range(m.Len(t.args[0]), f); h != nil {
				hi = new(big.Int).Sub(h, bigOne)
			}
		}
	}
	if f != nil {
		lo, hi = f.tighten(t, lo, hi)
	}
	return
}

// injective functions of one argument
var injective = map[string]bool{"pkser": true}

var bigMinus = big.NewInt(-1)

var wrapRanges = map[string][2]*big.Int{}

func init() {
	for _, b := range []uint{8, 16, 32, 64} {
		hi := new(big.Int).Lsh(bigOne, b)
		wrapRanges[fmt.Sprintf("u%d", b)] = [2]*big.Int{bigZero, new(big.Int).Sub(hi, bigOne)}
		h := new(big.Int).Lsh(bigOne, b-1)
		wrapRanges[fmt.Sprintf("s%d", b)] = [2]*big.Int{new(big.Int).Neg(h), new(big.Int).Sub(h, bigOne)}
	}
}

// Wrap reduces t to the machine range named by kind (u8..s64).
func (m *TM) Wrap(t *T, kind string, f *Facts) *T {
	r := wrapRanges[kind]
	lo, hi := m.Range(t, f)
	if lo != nil && hi != nil && lo.Cmp(r[0]) >= 0 && hi.Cmp(r[1]) <= 0 {
		return t
	}
	if t.op == "int" {
		w := new(big.Int).Sub(r[1], r[0])
		w.Add(w, bigOne)
		v := new(big.Int).Sub(t.n, r[0])
		v.Mod(v, w)
		v.Add(v, r[0])
		return m.IntB(v)
	}
	// Only the residue of t matters.
	w := new(big.Int).Sub(r[1], r[0])
	w.Add(w, bigOne)
	half := new(big.Int).Rsh(w, 1)
	l := &linb{c: new(big.Int), coefs: map[*T]*big.Int{}}
	res := func(c *big.Int) *big.Int {
		v := new(big.Int).Mod(c, w)
		if v.Cmp(half) > 0 {
			v.Sub(v, w)
		}
		return v
	}
	ch := false
	atom := func(a *T, c *big.Int) {
		rc := res(c)
		if rc.Cmp(c) != 0 {
			ch = true
		}
		if a.op == "wrap" {
			ar := wrapRanges[a.str]
			aw := new(big.Int).Sub(ar[1], ar[0])
			aw.Add(aw, bigOne)
			if aw.Cmp(w) >= 0 {
				ch = true
				m.addLin(l, a.args[0], rc)
				return
			}
		}
		if rc.Sign() != 0 {
			m.addAtom(l, a, rc)
		}
	}
	if t.op == "lin" {
		l.c = res(t.n)
		ch = l.c.Cmp(t.n) != 0
		for i, a := range t.args {
			atom(a, t.coefs[i])
		}
	} else {
		atom(t, bigOne)
	}
	if ch {
		return m.Wrap(m.mkLin(l), kind, f)
	}
	return m.raw("wrap", kind, m.IntS(), nil, t)
}

// contiguous reports that v is a run of ones of width w from bit k up.
func contiguous(v *big.Int) (k, w uint, ok bool) {
	if v.Sign() <= 0 {
		return 0, 0, false
	}
	k = v.TrailingZeroBits()
	o := new(big.Int).Rsh(v, k)
	w = uint(o.BitLen())
	return k, w, new(big.Int).And(o, new(big.Int).Add(o, bigOne)).Sign() == 0
}

// low returns a k such that 2^k divides t.
func (m *TM) low(t *T) uint {
	switch t.op {
	case "int":
		if t.n.Sign() == 0 {
			return 64
		}
		return t.n.TrailingZeroBits()
	case "lin":
		k := uint(64)
		if t.n.Sign() != 0 {
			k = t.n.TrailingZeroBits()
		}
		for i, a := range t.args {
			if j := t.coefs[i].TrailingZeroBits() + m.low(a); j < k {
				k = j
			}
		}
		return k
	case "wrap":
		if j := m.low(t.args[0]); j < 8 {
			return j
		}
		return 8
	}
	return 0
}

// BitOr is a|b where the operands have no bit in common, or nil.
func (m *TM) BitOr(a, b *T, f *Facts) *T {
	for i := 0; i < 2; i++ {
		lo, hi := m.Range(b, f)
		if k := m.low(a); lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(new(big.Int).Lsh(bigOne, k)) < 0 {
			if al, _ := m.Range(a, f); al != nil && al.Sign() >= 0 {
				return m.Add(a, b)
			}
		}
		a, b = b, a
	}
	return nil
}

// ---- booleans

func (m *TM) Not(a *T) *T {
	switch a.op {
	case "true":
		return m.tFals
	case "false":
		return m.tTrue
	case "not":
		return a.args[0]
	case "le0":
		// not (l <= 0)  <=>  l >= 1  <=>  1 - l <= 0
		return m.le0(m.lin(1, a.args[0], -1))
	case "and", "or":
		if n, ok := m.negs[a]; ok {
			return n
		}
		ns := make([]*T, len(a.args))
		for i, b := range a.args {
			ns[i] = m.Not(b)
		}
		n := m.Or(ns...)
		if a.op == "or" {
			n = m.And(ns...)
		}
		m.negs[a] = n
		if n.op != a.op && len(n.args) == len(a.args) {
			m.negs[n] = a
		}
		return n
	}
	return m.raw("not", "", m.Bool(), nil, a)
}

func (m *TM) And(as ...*T) *T { return m.nary("and", as) }
func (m *TM) Or(as ...*T) *T  { return m.nary("or", as) }
func (m *TM) Imp(a, b *T) *T  { return m.Or(m.Not(a), b) }

func (m *TM) nary(op string, as []*T) *T {
	unit, zero := m.tTrue, m.tFals
	if op == "or" {
		unit, zero = zero, unit
	}
	seen := map[*T]bool{}
	var out []*T
	var add func(a *T) bool
	add = func(a *T) bool {
		if a == unit {
			return true
		}
		if a == zero {
			return false
		}
		if a.op == op {
			for _, b := range a.args {
				if !add(b) {
					return false
				}
			}
			return true
		}
		if seen[m.Not(a)] {
			return false
		}
		if !seen[a] {
			seen[a] = true
			out = append(out, a)
		}
		return true
	}
	for _, a := range as {
		if !add(a) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	// x or (x and y) is x; x or (not x and y) is x or y; and the dual.
	dual := "or"
	if op == "or" {
		dual = "and"
	}
	changed := false
	keep := out[:0:0]
	for _, a := range out {
		if a.op == "not" && a.args[0].op == op && len(a.args[0].args) <= 40 {
			drop := false
			var rest []*T
			for _, b := range a.args[0].args {
				if seen[m.Not(b)] {
					drop = true
					break
				}
				if !seen[b] {
					rest = append(rest, b)
				}
			}
			if drop {
				changed = true
				continue
			}
			if len(rest) < len(a.args[0].args) {
				changed = true
				a = m.Not(m.nary(op, rest))
			}
			keep = append(keep, a)
			continue
		}
		if a.op != dual || len(a.args) > 40 {
			keep = append(keep, a)
			continue
		}
		drop := false
		var rest []*T
		for _, b := range a.args {
			if seen[b] {
				drop = true
				break
			}
			if !seen[m.Not(b)] {
				rest = append(rest, b)
			}
		}
		if drop {
			changed = true
			continue
		}
		if len(rest) < len(a.args) {
			changed = true
			a = m.nary(dual, rest)
		}
		keep = append(keep, a)
	}
	if changed {
		return m.nary(op, keep)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return m.raw(op, "", m.Bool(), nil, out...)
}

func (m *TM) Ite(c, a, b *T) *T {
	if c == m.tTrue {
		return a
	}
	if c == m.tFals {
		return b
	}
	if a == b {
		return a
	}
	if a.sort.smt == "Bool" {
		return m.And(m.Or(m.Not(c), a), m.Or(c, b))
	}
	if c.op == "not" {
		return m.Ite(c.args[0], b, a)
	}
	// (x == y ? x : y) is y.
	switch c.op {
	case "eq":
		if (c.args[0] == a && c.args[1] == b || c.args[0] == b && c.args[1] == a) && a.sort == b.sort {
			return b
		}
	case "eq0":
		if l := c.args[0]; isInt(b) && (l == b && a == m.zero) {
			return b
		}
		if l := c.args[0]; l.op == "len" && l.args[0] == b && a.op == "empty" {
			return b
		}
	}
	s := a.sort
	if s != b.sort && s.isSeq {
		s = m.seqOf(s.elem, -1)
	}
	if s.isSeq && (a.op == "cat" || b.op == "cat") {
		pa, pb := catParts(a), catParts(b)
		k := 0
		for k < len(pa) && k < len(pb) && pa[k] == pb[k] {
			k++
		}
		e := 0
		for e < len(pa)-k && e < len(pb)-k && pa[len(pa)-1-e] == pb[len(pb)-1-e] {
			e++
		}
		if k+e > 0 {
			fs := m.seqOf(s.elem, -1)
			mid := m.Ite(c, m.Cat(fs, pa[k:len(pa)-e]...), m.Cat(fs, pb[k:len(pb)-e]...))
			parts := append(append(append([]*T{}, pa[:k]...), mid), pa[len(pa)-e:]...)
			return m.Cat(fs, parts...)
		}
	}
	if a.op == "unit" && b.op == "unit" && a.sort == b.sort {
		return m.Unit(a.sort, m.Ite(c, a.args[0], b.args[0]))
	}
	if a.op == "mk" && b.op == "mk" && a.sort == b.sort && a.sort.name != "Slice" {
		fs := make([]*T, len(a.args))
		for i := range fs {
			fs[i] = m.Ite(c, a.args[i], b.args[i])
		}
		return m.Mk(a.sort, fs...)
	}
	if a.op == "upd" && b.op == "upd" && a.sort == b.sort && a.args[0] == b.args[0] && a.args[1] == b.args[1] {
		return m.Upd(a.args[0], a.args[1], m.Ite(c, a.args[2], b.args[2]))
	}
	if a.op == "ite" && a.args[0] == c {
		return m.Ite(c, a.args[1], b)
	}
	if b.op == "ite" && b.args[0] == c {
		return m.Ite(c, a, b.args[2])
	}
	if isInt(a) && isInt(b) && a.op != "int" && b.op != "int" && a.op != "mk" {
		if d := m.Sub(b, a); d.op == "int" {
			return m.Add(a, m.Ite(c, m.zero, d))
		}
	}
	if b == m.zero && isInt(a) && a.op != "int" && c.op == "le0" {
		// if 1 <= a then a else 0, of what is not negative
		if c.args[0] == m.lin(1, a, -1) && m.ge0(a) {
			return a
		}
	}
	if a.op == "int" && b.op == "int" && a.sort == b.sort {
		lo := a
		if b.n.Cmp(a.n) < 0 {
			lo = b
		}
		if lo.n.Sign() != 0 {
			return m.Add(lo, m.Ite(c, m.Sub(a, lo), m.Sub(b, lo)))
		}
	}
	return m.raw("ite", "", s, nil, c, a, b)
}

// oneIte evaluates a comparison with zero of a term that depends on nothing
// but one condition.
func (m *TM) oneIte(l *T, cmp func(*T) *T) *T {
	a, k, c := l, bigOne, bigZero
	if l.op == "lin" {
		if len(l.args) != 1 {
			return nil
		}
		a, k, c = l.args[0], l.coefs[0], l.n
	}
	if a.op != "ite" {
		return nil
	}
	// Nested ones, as long as all values are known.
	var ok func(t *T) bool
	ok = func(t *T) bool { return t.op == "int" || t.op == "ite" && ok(t.args[1]) && ok(t.args[2]) }
	if !ok(a) {
		return nil
	}
	at := func(v *T) *T { return cmp(m.Add(m.MulC(v, k), m.IntB(c))) }
	return m.Ite(a.args[0], at(a.args[1]), at(a.args[2]))
}

func isCtor(t *T) bool {
	switch t.op {
	case "ctor", "nilif", "mk", "int", "strc", "alloc", "fp", "glob", "allocf", "vref", "arrref":
		return true
	}
	return false
}

func (m *TM) distinctRefs(a, b *T) bool {
	if a == b {
		return false
	}
	isZ := func(t *T) bool { return t.op == "int" && t.n.Sign() == 0 }
	obj := func(t *T) bool {
		switch t.op {
		case "alloc", "fp", "glob", "allocf", "vref", "arrref":
			return true
		}
		return false
	}
	if isZ(a) && obj(b) || isZ(b) && obj(a) {
		return true
	}
	if a.op == "vref" || b.op == "vref" {
		o := b
		if b.op == "vref" {
			o = a
		}
		return o.op != "vref" && (obj(o) || isZ(o))
	}
	if a.op == "arrref" && b.op == "arrref" {
		return a.str != b.str || m.distinctRefs(a.args[0], b.args[0])
	}
	if a.op == "arrref" || b.op == "arrref" {
		return obj(a) && obj(b)
	}
	if a.op == "allocf" && b.op == "allocf" {
		if a.str != b.str {
			return true
		}
		for i := range a.args {
			if m.Eq(a.args[i], b.args[i]) == m.tFals {
				return true
			}
		}
		return false
	}
	if a.op == "allocf" && (b.op == "alloc" || b.op == "glob" || b.op == "fp") || b.op == "allocf" && (a.op == "alloc" || a.op == "glob" || a.op == "fp") {
		return true
	}
	if a.op == "allocf" && b.time < a.time && !b.hasBV || b.op == "allocf" && a.time < b.time && !a.hasBV {
		return true
	}
	if a.op == "alloc" && b.op == "alloc" {
		return true
	}
	if a.op == "alloc" && (b.time < a.time || b.op == "glob" || b.op == "int") {
		return true
	}
	if b.op == "alloc" && (a.time < b.time || a.op == "glob" || a.op == "int") {
		return true
	}
	if a.op == "fp" && b.op == "alloc" || a.op == "alloc" && b.op == "fp" {
		return true
	}
	if a.op == "glob" && b.op == "glob" {
		return true
	}
	if a.op == "fp" && b.op == "fp" {
		if a.str != b.str {
			return true
		}
		if len(a.args) == 1 && len(b.args) == 1 {
			return m.distinctRefs(a.args[0], b.args[0])
		}
		if m.distinctRefs(a.args[0], b.args[0]) {
			return true
		}
	}
	return false
}

// refLeaves counts the objects a reference chooses between; 0 if it may be
// something else.
func refLeaves(t *T) int {
	switch t.op {
	case "alloc", "fp", "glob", "allocf", "vref", "arrref":
		return 1
	case "ite":
		a := refLeaves(t.args[1])
		b := refLeaves(t.args[2])
		if a > 0 && b > 0 {
			return a + b
		}
	}
	return 0
}

func (m *TM) Eq(a, b *T) *T {
	if a == b {
		return m.tTrue
	}
	if isInt(a) && isInt(b) {
		if m.distinctRefs(a, b) {
			return m.tFals
		}
		if (a.op == "fp" && b.op == "fp" || a.op == "allocf" && b.op == "allocf") && a.str == b.str {
			r := []*T{}
			for i := range a.args {
				r = append(r, m.Eq(a.args[i], b.args[i]))
			}
			return m.And(r...)
		}
		if a.op == "ite" && isCtor(b) {
			return m.Ite(a.args[0], m.Eq(a.args[1], b), m.Eq(a.args[2], b))
		}
		if b.op == "ite" && isCtor(a) {
			return m.Ite(b.args[0], m.Eq(b.args[1], a), m.Eq(b.args[2], a))
		}
		l := m.Sub(a, b)
		if l.op == "int" {
			return m.BoolT(l.n.Sign() == 0)
		}
		lo, hi := m.Range(l, nil)
		if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
			return m.tFals
		}
		if l.op == "lin" && len(l.args) == 2 && (l.n == nil || l.n.Sign() == 0) && new(big.Int).Add(l.coefs[0], l.coefs[1]).Sign() == 0 && l.coefs[0].CmpAbs(bigOne) == 0 {
			// A difference of references that came about by substitution.
			u, v := l.args[0], l.args[1]
			if nu, nv := refLeaves(u), refLeaves(v); nu > 0 && nv > 0 && nu+nv > 2 && nu*nv <= 16 {
				if u.op == "ite" {
					return m.Ite(u.args[0], m.Eq(u.args[1], v), m.Eq(u.args[2], v))
				}
				return m.Ite(v.args[0], m.Eq(u, v.args[1]), m.Eq(u, v.args[2]))
			}
			if (u != a || v != b) && (u != b || v != a) {
				if m.distinctRefs(u, v) {
					return m.tFals
				}
				if u.op == v.op && u.str == v.str && (u.op == "fp" || u.op == "allocf") {
					return m.Eq(u, v)
				}
			}
		}
		if r := m.oneIte(l, func(v *T) *T { return m.Eq(v, m.zero) }); r != nil {
			return r
		}
		// Canonical sign: leading coefficient positive.
		if l.op == "lin" && l.coefs[0].Sign() < 0 {
			l = m.Neg(l)
		}
		if l.op == "lin" && len(l.args) == 1 && l.n.Cmp(bigOne) == 0 && l.coefs[0].Cmp(bigOne) == 0 && l.args[0].op == "uf" &&
			(l.args[0].str == "ext0:strings.IndexByte" || l.args[0].str == "ext0:strings.LastIndexByte") {
			// -1 is the least there is.
			return m.le0(l)
		}
		return m.raw("eq0", "", m.Bool(), nil, l)
	}
	if a.sort.smt == "Bool" {
		if a == m.tTrue {
			return b
		}
		if b == m.tTrue {
			return a
		}
		if a == m.tFals {
			return m.Not(b)
		}
		if b == m.tFals {
			return m.Not(a)
		}
		if m.Not(a) == b {
			return m.tFals
		}
		if a.id > b.id {
			a, b = b, a
		}
		return m.raw("eq", "", m.Bool(), nil, a, b)
	}
	if a.sort.isSeq {
		return m.eqSeq(a, b)
	}
	if a.op == "ite" && isCtor(b) {
		return m.Ite(a.args[0], m.Eq(a.args[1], b), m.Eq(a.args[2], b))
	}
	if b.op == "ite" && isCtor(a) {
		return m.Ite(b.args[0], m.Eq(b.args[1], a), m.Eq(b.args[2], a))
	}
	if isCtor(a) && isCtor(b) {
		if a.op != b.op || a.str != b.str || len(a.args) != len(b.args) {
			return m.tFals
		}
		r := make([]*T, len(a.args))
		for i := range a.args {
			if a.args[i].sort.smt != b.args[i].sort.smt {
				return m.tFals
			}
			r[i] = m.Eq(a.args[i], b.args[i])
		}
		return m.And(r...)
	}
	if a.op == "mk" || b.op == "mk" {
		if b.op == "mk" {
			a, b = b, a
		}
		r := make([]*T, len(a.args))
		for i := range a.args {
			r[i] = m.Eq(a.args[i], m.Fld(b, i))
		}
		return m.And(r...)
	}
	if a.op == "nilif" && nonNilSym(b) || b.op == "nilif" && nonNilSym(a) {
		return m.tFals
	}
	if a.id > b.id {
		a, b = b, a
	}
	return m.raw("eq", "", m.Bool(), nil, a, b)
}

// nonNilSym: the symbol stands for an error that is not nil.
func nonNilSym(t *T) bool { return t.op == "sym" && strings.HasPrefix(t.str, "tlverr") }

func (m *TM) eqSeq(a, b *T) *T {
	if a.op == "uf" && b.op == "uf" && a.str == b.str && injective[a.str] {
		return m.Eq(a.args[0], b.args[0])
	}
	if a == b {
		return m.tTrue
	}
	if a.op == "ite" && (b.op == "strc" || b.op == "empty") {
		return m.Ite(a.args[0], m.Eq(a.args[1], b), m.Eq(a.args[2], b))
	}
	if b.op == "ite" && (a.op == "strc" || a.op == "empty") {
		return m.Ite(b.args[0], m.Eq(b.args[1], a), m.Eq(b.args[2], a))
	}
	pa, pb := catParts(a), catParts(b)
	for len(pa) > 0 && len(pb) > 0 && pa[0] == pb[0] {
		pa, pb = pa[1:], pb[1:]
	}
	for len(pa) > 0 && len(pb) > 0 && pa[len(pa)-1] == pb[len(pb)-1] {
		pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
	}
	s := a.sort
	if s.fixedLen >= 0 {
		s = m.seqOf(s.elem, -1)
	}
	if a.op == "cat" || b.op == "cat" {
		if a2, b2 := m.Cat(s, pa...), m.Cat(s, pb...); a2 != a || b2 != b {
			a, b = a2, b2
		}
	}
	if a == b {
		return m.tTrue
	}
	if a.op == "unit" && b.op == "unit" {
		return m.Eq(a.args[0], b.args[0])
	}
	if a.op == "strc" && b.op == "strc" {
		return m.tFals
	}
	// Split leading units.
	if len(pa) > 0 && len(pb) > 0 && pa[0].op == "unit" && pb[0].op == "unit" {
		return m.And(m.Eq(pa[0], pb[0]), m.Eq(m.Cat(s, pa[1:]...), m.Cat(s, pb[1:]...)))
	}
	la, lb := m.Len(a), m.Len(b)
	le := m.Eq(la, lb)
	if le == m.tFals {
		return m.tFals
	}
	if b.op == "empty" || a.op == "empty" {
		return le
	}
	if a.id > b.id {
		a, b = b, a
	}
	return m.raw("eq", "", m.Bool(), nil, a, b)
}

// ---- sequences

func (m *TM) Empty(s *Sort) *T {
	if s.fixedLen > 0 {
		s = m.seqOf(s.elem, -1)
	}
	return m.raw("empty", "", m.seqOf(s.elem, -1), nil)
}

func (m *TM) Unit(s *Sort, x *T) *T {
	if s.elem.smt == "Int" && s.elem.hi != nil && s.elem.hi.Cmp(big.NewInt(255)) == 0 && s.elem.lo.Sign() == 0 &&
		x.op == "int" && x.n.Sign() >= 0 && x.n.Cmp(big.NewInt(255)) <= 0 {
		return m.Str(string([]byte{byte(x.n.Int64())}))
	}
	return m.raw("unit", "", m.seqOf(s.elem, -1), nil, x)
}

func catParts(t *T) []*T {
	switch t.op {
	case "cat":
		return t.args
	case "empty":
		return nil
	}
	return []*T{t}
}

func (m *TM) Cat(s *Sort, as ...*T) *T {
	var out []*T
	for _, a := range as {
		for _, p := range catParts(a) {
			if p.sort.fixedLen == 0 {
				continue
			}
			if n := len(out); n > 0 {
				l := out[n-1]
				if l.op == "strc" && p.op == "strc" {
					out[n-1] = m.Str(l.str + p.str)
					continue
				}
				if l.op == "sub" && p.op == "sub" && l.args[0] == p.args[0] && l.args[2] == p.args[1] {
					out[n-1] = m.SubSeq(l.args[0], l.args[1], p.args[2])
					continue
				}
				if l.op == "rep" && p.op == "rep" && l.args[1] == p.args[1] {
					out[n-1] = m.Rep(s, m.Add(l.args[0], p.args[0]), l.args[1])
					continue
				}
			}
			out = append(out, p)
		}
	}
	if len(out) == 0 {
		return m.Empty(s)
	}
	if len(out) == 1 {
		return out[0]
	}
	return m.raw("cat", "", m.seqOf(s.elem, -1), nil, out...)
}

func (m *TM) Rep(s *Sort, n, v *T) *T {
	if n.op == "int" && n.n.Sign() <= 0 {
		return m.Empty(s)
	}
	if n.op == "int" && n.n.IsInt64() && n.n.Int64() == 1 {
		return m.Unit(s, v)
	}
	if n.op == "int" && n.n.IsInt64() && n.n.Int64() <= 64 && v.op == "int" && v.n.Sign() == 0 && s.elem.smt == "Int" && s.elem.hi != nil && s.elem.hi.Cmp(big.NewInt(255)) == 0 {
		return m.Str(strings.Repeat("\x00", int(n.n.Int64())))
	}
	return m.raw("rep", "", m.seqOf(s.elem, -1), nil, n, v)
}

func (m *TM) Len(t *T) *T {
	if t.sort.fixedLen >= 0 {
		return m.Int64(t.sort.fixedLen)
	}
	switch t.op {
	case "empty":
		return m.zero
	case "unit":
		return m.one
	case "strc":
		return m.Int64(int64(len(t.str)))
	case "cat":
		l := m.zero
		for _, a := range t.args {
			l = m.Add(l, m.Len(a))
		}
		return l
	case "sub":
		return m.Sub(t.args[2], t.args[1])
	case "upd":
		return m.Len(t.args[0])
	case "rep":
		return t.args[0]
	case "range":
		return m.Sub(t.args[1], t.args[0])
	case "map":
		return m.Len(t.args[0])
	case "ite":
		return m.Ite(t.args[0], m.Len(t.args[1]), m.Len(t.args[2]))
	case "flat":
		return m.SumOf(t)
	case "uf":
		if f, ok := ufLens[t.str]; ok {
			if l := f(m, t); l != nil {
				return l
			}
		}
	}
	return m.raw("len", "", m.sorts["Len"], nil, t)
}

// ufLens gives the length of some uninterpreted sequence functions.
var ufLens = map[string]func(m *TM, t *T) *T{}

// sgn decides the sign of an integer term: -1, 0, +1, and ok; ge0/le0 only.
func (m *TM) ge0(t *T) bool {
	lo, _ := m.Range(t, nil)
	return lo != nil && lo.Sign() >= 0
}

func (m *TM) At(s, i *T) *T {
	switch s.op {
	case "unit":
		if i.op == "int" && i.n.Sign() == 0 {
			return s.args[0]
		}
		// A unit can only be indexed at zero; other indices were
		// excluded by a bounds obligation.
		return s.args[0]
	case "strc":
		if i.op == "int" && i.n.IsInt64() && i.n.Sign() >= 0 && int(i.n.Int64()) < len(s.str) {
			return m.Int64(int64(s.str[i.n.Int64()]))
		}
	case "cat":
		off := i
		for k, p := range s.args {
			l := m.Len(p)
			if m.ge0(m.AddC(m.Sub(l, off), -1)) { // off < l
				if m.ge0(off) {
					return m.At(p, off)
				}
				break
			}
			d := m.Sub(off, l)
			if !m.ge0(d) {
				break
			}
			off = d
			if k == len(s.args)-2 {
				// Index is beyond all but the last part.
				return m.At(s.args[k+1], off)
			}
		}
	case "sub":
		return m.At(s.args[0], m.Add(s.args[1], i))
	case "upd":
		e := m.Eq(s.args[1], i)
		if e == m.tTrue {
			return s.args[2]
		}
		if e == m.tFals {
			return m.At(s.args[0], i)
		}
		return m.Ite(e, s.args[2], m.At(s.args[0], i))
	case "rep":
		return s.args[1]
	case "range":
		return m.Add(s.args[0], i)
	case "map":
		return m.substBV(s.args[2], s.args[1], m.At(s.args[0], i))
	case "flat":
		// Parts of the same length: part i/k, element i%k.
		if w := m.Len(s.args[2]); w.op == "int" && w.n.IsInt64() && w.n.Int64() > 0 {
			if q, r := m.divMod(i, w.n); q != nil {
				return m.At(m.substBV(s.args[2], s.args[1], m.At(s.args[0], q)), r)
			}
		}
	case "ite":
		return m.Ite(s.args[0], m.At(s.args[1], i), m.At(s.args[2], i))
	}
	return m.raw("at", "", s.sort.elem, nil, s, i)
}

// divMod is i/k and i%k where all but the constant of i is a multiple of k,
// nil otherwise.
func (m *TM) divMod(i *T, k *big.Int) (*T, *T) {
	switch i.op {
	case "int":
		if i.n.Sign() < 0 {
			return nil, nil
		}
		q, r := new(big.Int).QuoRem(i.n, k, new(big.Int))
		return m.IntB(q), m.IntB(r)
	case "lin":
		r := new(big.Int).Mod(i.n, k)
		q := m.IntB(new(big.Int).Div(i.n, k))
		for j, a := range i.args {
			c, d := new(big.Int).QuoRem(i.coefs[j], k, new(big.Int))
			if d.Sign() != 0 {
				return nil, nil
			}
			q = m.Add(q, m.MulC(a, c))
		}
		return q, m.IntB(r)
	}
	return nil, nil
}

func (m *TM) SubSeq(s, lo, hi *T) *T {
	if lo.op == "int" && lo.n.Sign() == 0 && hi == m.Len(s) {
		return s
	}
	if lo == hi {
		return m.Empty(s.sort)
	}
	switch s.op {
	case "sub":
		return m.SubSeq(s.args[0], m.Add(s.args[1], lo), m.Add(s.args[1], hi))
	case "strc":
		if lo.op == "int" && hi.op == "int" {
			a, b := lo.n.Int64(), hi.n.Int64()
			if 0 <= a && a <= b && b <= int64(len(s.str)) {
				return m.Str(s.str[a:b])
			}
		}
	case "rep":
		return m.Rep(s.sort, m.Sub(hi, lo), s.args[1])
	case "range":
		return m.RangeSeq(m.Add(s.args[0], lo), m.Add(s.args[0], hi))
	case "ite":
		if lo.op == "int" && hi.op == "int" {
			if a, b := m.SubSeq(s.args[1], lo, hi), m.SubSeq(s.args[2], lo, hi); a.op != "sub" || b.op != "sub" {
				return m.Ite(s.args[0], a, b)
			}
		}
	case "map":
		return m.Map(m.SubSeq(s.args[0], lo, hi), s.args[1], s.args[2])
	case "cat":
		// Drop leading parts entirely before lo.
		parts := s.args
		total := m.Len(s)
		k := 0
		for k < len(parts)-1 {
			l := m.Len(parts[k])
			d := m.Sub(lo, l)
			if !m.ge0(d) {
				break
			}
			lo, hi, total = d, m.Sub(hi, l), m.Sub(total, l)
			k++
		}
		parts = parts[k:]
		for len(parts) > 1 {
			l := m.Len(parts[len(parts)-1])
			rest := m.Sub(total, l)
			if !m.ge0(m.Sub(rest, hi)) { // hi <= rest
				break
			}
			total = rest
			parts = parts[:len(parts)-1]
		}
		if len(parts) == 1 {
			return m.SubSeq(parts[0], lo, hi)
		}
		if len(parts) < len(s.args) {
			return m.SubSeq(m.Cat(s.sort, parts...), lo, hi)
		}
		if lo.op == "int" && lo.n.Sign() == 0 {
			// Prefix: take whole parts while they fit.
			var out []*T
			off := m.zero
			for i, p := range parts {
				nxt := m.Add(off, m.Len(p))
				if m.ge0(m.Sub(hi, nxt)) {
					out = append(out, p)
					off = nxt
					if nxt == hi {
						return m.Cat(s.sort, out...)
					}
					continue
				}
				if m.ge0(m.Sub(nxt, hi)) && i > 0 {
					out = append(out, m.SubSeq(p, m.zero, m.Sub(hi, off)))
					return m.Cat(s.sort, out...)
				}
				break
			}
		} else if hi == total {
			l0 := m.Len(parts[0])
			if m.ge0(m.Sub(l0, lo)) {
				out := append([]*T{m.SubSeq(parts[0], lo, l0)}, parts[1:]...)
				return m.Cat(s.sort, out...)
			}
		}
	}
	return m.raw("sub", "", m.seqOf(s.sort.elem, -1), nil, s, lo, hi)
}

func (m *TM) Upd(s, i, v *T) *T {
	if s.op == "upd" && s.args[1] == i {
		return m.Upd(s.args[0], i, v)
	}
	if i.op == "int" && m.Len(s).op == "int" && m.Len(s).n.IsInt64() && m.Len(s).n.Int64() <= 40 {
		return m.Cat(s.sort, m.SubSeq(s, m.zero, i), m.Unit(s.sort, v), m.SubSeq(s, m.AddC(i, 1), m.Len(s)))
	}
	// update at the end of a known prefix: keep ropes normal
	if s.op == "cat" {
		off := i
		for k, p := range s.args {
			l := m.Len(p)
			if off.op == "int" && off.n.Sign() == 0 && p.op == "rep" {
				n := m.AddC(l, -1)
				if m.ge0(n) || true {
					parts := append([]*T{}, s.args[:k]...)
					parts = append(parts, m.Unit(s.sort, v), m.Rep(s.sort, n, p.args[1]))
					parts = append(parts, s.args[k+1:]...)
					return m.Cat(s.sort, parts...)
				}
			}
			if off.op == "int" && off.n.Sign() == 0 && p.op == "unit" {
				parts := append([]*T{}, s.args[:k]...)
				parts = append(parts, m.Unit(s.sort, v))
				parts = append(parts, s.args[k+1:]...)
				return m.Cat(s.sort, parts...)
			}
			off = m.Sub(off, l)
			if off.op == "int" && off.n.Sign() < 0 {
				break
			}
		}
	}
	return m.raw("upd", "", s.sort, nil, s, i, v)
}

// Map is the pointwise image of s under body with bound variable bv.
func (m *TM) Map(s, bv, body *T) *T {
	rs := m.seqOf(body.sort, -1)
	switch s.op {
	case "empty":
		return m.Empty(rs)
	case "unit":
		return m.Unit(rs, m.substBV(body, bv, s.args[0]))
	case "cat":
		out := make([]*T, len(s.args))
		for i, a := range s.args {
			out[i] = m.Map(a, bv, body)
		}
		return m.Cat(rs, out...)
	case "map":
		return m.Map(s.args[0], s.args[1], m.substBV(body, bv, s.args[2]))
	case "rep":
		return m.Rep(rs, s.args[0], m.substBV(body, bv, s.args[1]))
	}
	if body == bv {
		return s
	}
	if !body.hasBV {
		return m.Rep(rs, m.Len(s), body)
	}
	if s.op == "range" {
		if r := m.elementwise(s, bv, body); r != nil {
			return r
		}
	}
	bv, body = m.closeBV(bv, body)
	return m.raw("map", "", rs, nil, s, bv, body)
}

// ---- datatypes

func (m *TM) Mk(s *Sort, fs ...*T) *T {
	// eta: mk(fld0(x), fld1(x), ...) = x
	if len(fs) > 0 && fs[0].op == "fld" && fs[0].n.Sign() == 0 && fs[0].args[0].sort == s {
		x := fs[0].args[0]
		ok := true
		for i, f := range fs {
			if f.op != "fld" || f.args[0] != x || f.n.Int64() != int64(i) {
				ok = false
				break
			}
		}
		if ok {
			return x
		}
	}
	return m.raw("mk", s.name, s, nil, fs...)
}

func (m *TM) Fld(x *T, i int) *T {
	if x.op == "mk" {
		return x.args[i]
	}
	if x.op == "ite" {
		return m.Ite(x.args[0], m.Fld(x.args[1], i), m.Fld(x.args[2], i))
	}
	return m.raw("fld", "", x.sort.fields[i], big.NewInt(int64(i)), x)
}

func (m *TM) SetFld(x *T, i int, v *T) *T {
	if i >= len(x.sort.fields) {
		panic(unsup{"store to a field of an abstract value"})
	}
	fs := make([]*T, len(x.sort.fields))
	for k := range fs {
		if k == i {
			fs[k] = v
		} else {
			fs[k] = m.Fld(x, k)
		}
	}
	return m.Mk(x.sort, fs...)
}

// ---- arrays (heaps, sets, maps)

func (m *TM) Select(a, k *T) *T {
	for {
		switch a.op {
		case "store":
			e := m.keyEq(a.args[1], k)
			if e == m.tTrue {
				return a.args[2]
			}
			if e == m.tFals {
				a = a.args[0]
				continue
			}
			return m.Ite(e, a.args[2], m.Select(a.args[0], k))
		case "constarr":
			return a.args[0]
		case "hav":
			// hav(base; id; excluded keys...): unchanged for keys
			// that predate the havoc and are not excluded.
			if k.op == "allocf" {
				for _, f := range m.havFam[a.str] {
					if f.name == k.str && len(f.params) == len(k.args) {
						sub := map[*T]*T{}
						for i, p := range f.params {
							sub[p] = k.args[i]
						}
						return m.Subst(f.val, sub)
					}
				}
			}
			if k.time < int(a.n.Int64()) && !k.hasBV {
				excl := m.tFals
				for _, e := range a.args[1:] {
					q := m.keyEq(e, k)
					excl = m.Or(excl, q)
				}
				if excl == m.tFals {
					a = a.args[0]
					continue
				}
				if excl == m.tTrue {
					break
				}
				// Undetermined: keep opaque.
			} else if k.hasBV && k.time < int(a.n.Int64()) && len(a.args) == 1 {
				a = a.args[0]
				continue
			}
		case "lamarr":
			return m.substBV(a.args[1], a.args[0], k)
		case "sym":
			if t := m.initSel[a]; t != nil {
				if v, ok := t[k]; ok {
					return v
				}
			}
		case "curryarr":
			return m.Ctor("curry", m.Fn(), a.args[0], k)
		case "ite":
			return m.Ite(a.args[0], m.Select(a.args[1], k), m.Select(a.args[2], k))
		}
		break
	}
	return m.raw("select", "", a.sort.elem, nil, a, k)
}

func (m *TM) keyEq(a, b *T) *T {
	return m.Eq(a, b)
}

func (m *TM) Store(a, k, v *T) *T {
	if a.op == "store" && a.args[1] == k {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == k {
		return a
	}
	return m.raw("store", "", a.sort, nil, a, k, v)
}

func (m *TM) ConstArr(s *Sort, v *T) *T { return m.raw("constarr", "", s, nil, v) }

// Hav is a havocked heap array.
func (m *TM) Hav(base *T, id string, time int, excl []*T) *T {
	t := m.rawc("hav", id, base.sort, big.NewInt(int64(time)), nil, append([]*T{base}, excl...))
	if t.time < time {
		t.time = time
	}
	return t
}

func (m *TM) Forall(bv, lo, hi, body *T) *T {
	if body == m.tTrue {
		return m.tTrue
	}
	if lo.op == "int" && hi.op == "int" {
		d := new(big.Int).Sub(hi.n, lo.n)
		if d.Sign() <= 0 {
			return m.tTrue
		}
		if d.IsInt64() && d.Int64() <= 4 {
			r := m.tTrue
			for i := int64(0); i < d.Int64(); i++ {
				r = m.And(r, m.substBV(body, bv, m.AddC(lo, i)))
			}
			return r
		}
	}
	if lo == hi {
		return m.tTrue
	}
	bv, body = m.closeBV(bv, body)
	return m.raw("forall", "", m.Bool(), nil, bv, lo, hi, body)
}

// ForallS quantifies over a whole sort.
func (m *TM) ForallS(bv, body *T) *T {
	if body == m.tTrue || body == m.tFals {
		return body
	}
	bv, body = m.closeBV(bv, body)
	return m.raw("foralls", "", m.Bool(), nil, bv, body)
}

// ---- substitution and rebuilding

func (m *TM) substBV(t, bv, v *T) *T {
	return m.Subst(t, map[*T]*T{bv: v})
}

func (m *TM) Subst(t *T, s map[*T]*T) *T {
	onlyBV := true
	for k := range s {
		if k.op != "bv" {
			onlyBV = false
		}
	}
	memo := map[*T]*T{}
	return m.rewrite(t, func(x *T) *T {
		if v, ok := s[x]; ok {
			return v
		}
		if onlyBV {
			hit := false
			for _, b := range x.fbv {
				if _, ok := s[b]; ok {
					hit = true
				}
			}
			if !hit {
				return x
			}
		}
		bi, body := -1, -1
		switch x.op {
		case "map", "flat":
			bi, body = 1, 2
		case "lamarr", "foralls":
			bi, body = 0, 1
		case "forall":
			bi, body = 0, 3
		}
		if bi < 0 {
			return nil
		}
		bv, bd := x.args[bi], x.args[body]
		s2 := s
		if _, ok := s[bv]; ok {
			s2 = map[*T]*T{}
			for k, v := range s {
				if k != bv {
					s2[k] = v
				}
			}
		}
		for _, v := range s2 {
			for _, b := range v.fbv {
				if b == bv {
					n := m.FreshBV(bv.sort, bv.time)
					bd = m.substBV(bd, bv, n)
					bv = n
				}
			}
		}
		as := make([]*T, len(x.args))
		for i, a := range x.args {
			switch i {
			case bi:
				as[i] = bv
			case body:
				as[i] = m.Subst(bd, s2)
			default:
				as[i] = m.Subst(a, s)
			}
		}
		return m.Rebuild(x, as)
	}, memo)
}

// rewrite rebuilds t bottom-up; f may replace a term before descending.
func (m *TM) rewrite(t *T, f func(*T) *T, memo map[*T]*T) *T {
	if r, ok := memo[t]; ok {
		return r
	}
	if r := f(t); r != nil {
		memo[t] = r
		return r
	}
	if len(t.args) == 0 {
		memo[t] = t
		return t
	}
	ch := false
	as := make([]*T, len(t.args))
	for i, a := range t.args {
		as[i] = m.rewrite(a, f, memo)
		if as[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = m.Rebuild(t, as)
		if r2 := f(r); r2 != nil {
			r = r2
		}
	}
	memo[t] = r
	return r
}

func (m *TM) Rebuild(t *T, as []*T) *T {
	switch t.op {
	case "lin":
		l := &linb{c: new(big.Int).Set(t.n), coefs: map[*T]*big.Int{}}
		for i, a := range as {
			m.addLin(l, a, t.coefs[i])
		}
		return m.mkLin(l)
	case "*":
		return m.Mul(as[0], as[1])
	case "div":
		return m.Div(as[0], as[1])
	case "mod":
		return m.Mod(as[0], as[1])
	case "le0":
		return m.le0(as[0])
	case "eq0":
		return m.Eq(as[0], m.zero)
	case "eq":
		return m.Eq(as[0], as[1])
	case "not":
		return m.Not(as[0])
	case "and":
		return m.And(as...)
	case "or":
		return m.Or(as...)
	case "ite":
		return m.Ite(as[0], as[1], as[2])
	case "wrap":
		return m.Wrap(as[0], t.str, nil)
	case "unit":
		return m.Unit(t.sort, as[0])
	case "cat":
		return m.Cat(t.sort, as...)
	case "rep":
		return m.Rep(t.sort, as[0], as[1])
	case "len":
		return m.Len(as[0])
	case "at":
		return m.At(as[0], as[1])
	case "sub":
		return m.SubSeq(as[0], as[1], as[2])
	case "upd":
		return m.Upd(as[0], as[1], as[2])
	case "map":
		return m.Map(as[0], as[1], as[2])
	case "mk":
		return m.Mk(t.sort, as...)
	case "fld":
		return m.Fld(as[0], int(t.n.Int64()))
	case "select":
		return m.Select(as[0], as[1])
	case "store":
		return m.Store(as[0], as[1], as[2])
	case "forall":
		return m.Forall(as[0], as[1], as[2], as[3])
	case "foralls":
		return m.ForallS(as[0], as[1])
	case "flat":
		return m.Flat(as[0], as[1], as[2])
	case "lamarr":
		return m.LamArr(t.sort, as[0], as[1])
	case "sumof":
		return m.SumOf(as[0])
	case "uf":
		if _, ok := ufSimp[t.str]; ok || overChoice[t.str] {
			return m.Call(t.str, t.sort, as...)
		}
	}
	return m.rawc(t.op, t.str, t.sort, t.n, t.coefs, as)
}

// ufSimp lets some uninterpreted functions be simplified on construction.
var ufSimp = map[string]func(m *TM, as []*T) *T{}

// Call builds an application, going through ufSimp.
func (m *TM) Call(name string, s *Sort, as ...*T) *T {
	if f, ok := ufSimp[name]; ok {
		if r := f(m, as); r != nil {
			return r
		}
	}
	if len(as) == 1 && as[0].op == "ite" && overChoice[name] {
		c := as[0]
		return m.Ite(c.args[0], m.Call(name, s, c.args[1]), m.Call(name, s, c.args[2]))
	}
	return m.UF(name, s, as...)
}

// overChoice: functions taken case by case of their argument.
var overChoice = map[string]bool{"ismin64": true, "unmin64": true, "xvalid": true, "xparse": true, "pkvalid": true, "pkparse": true,
	"fvvalid": true, "fvparse": true, "fvser": true, "fv:isempty": true, "timeunix": true}

func (t *T) String() string { return t.show(0) }

func (t *T) show(d int) string {
	if d > showDepth {
		return "…"
	}
	switch t.op {
	case "int":
		return t.n.String()
	case "sym", "bv":
		return t.str
	case "strc":
		return strconv.Quote(t.str)
	case "true", "false", "nilif", "empty":
		return t.op
	case "alloc":
		return "#" + t.str
	case "lin":
		var p []string
		for i, a := range t.args {
			c := t.coefs[i].String()
			if c == "1" {
				p = append(p, a.show(d+1))
			} else {
				p = append(p, c+"*"+a.show(d+1))
			}
		}
		if t.n.Sign() != 0 {
			p = append(p, t.n.String())
		}
		return "(" + strings.Join(p, " + ") + ")"
	}
	n := t.op
	if t.str != "" {
		n += ":" + t.str
	}
	if t.op == "fld" {
		n += "." + t.n.String()
	}
	var p []string
	for _, a := range t.args {
		p = append(p, a.show(d+1))
	}
	return n + "(" + strings.Join(p, ", ") + ")"
}

// RangeSeq is the sequence lo, lo+1, ..., hi-1.
func (m *TM) RangeSeq(lo, hi *T) *T {
	rs := m.seqOf(m.IntS(), -1)
	if lo == hi {
		return m.Empty(rs)
	}
	if d := m.Sub(hi, lo); d.op == "int" && d.n.Cmp(bigOne) == 0 {
		return m.Unit(rs, lo)
	}
	return m.raw("range", "", rs, nil, lo, hi)
}

// elementwise turns a map over indices into one over the elements of the
// sequence that is indexed.
func (m *TM) elementwise(rng, bv, body *T) *T {
	var at *T
	seen := map[*T]bool{}
	var find func(t *T)
	find = func(t *T) {
		if at != nil || !t.hasBV || seen[t] {
			return
		}
		seen[t] = true
		if t.op == "at" && !t.args[0].hasBV {
			i := t.args[1]
			if i == bv {
				at = t
				return
			}
			if d := m.Sub(i, bv); !d.hasBV {
				at = t
				return
			}
		}
		for _, a := range t.args {
			find(a)
		}
	}
	find(body)
	if at == nil {
		return nil
	}
	v := m.FreshBV(at.sort, at.args[0].time)
	nb := m.Subst(body, map[*T]*T{at: v})
	for _, b := range nb.fbv {
		if b == bv {
			return nil
		}
	}
	d := m.Sub(at.args[1], bv)
	return m.Map(m.SubSeq(at.args[0], m.Add(rng.args[0], d), m.Add(rng.args[1], d)), v, nb)
}

// Flat concatenates body over the elements of s.
func (m *TM) Flat(s, bv, body *T) *T {
	rs := m.seqOf(body.sort.elem, -1)
	if body.op == "empty" {
		return m.Empty(rs)
	}
	if body.op == "unit" {
		return m.Map(s, bv, body.args[0])
	}
	switch s.op {
	case "empty":
		return m.Empty(rs)
	case "unit":
		return m.substBV(body, bv, s.args[0])
	case "cat":
		var ps []*T
		for _, a := range s.args {
			ps = append(ps, m.Flat(a, bv, body))
		}
		return m.Cat(rs, ps...)
	}
	bv, body = m.closeBV(bv, body)
	return m.raw("flat", "", rs, nil, s, bv, body)
}

// SumOf is the length of a flat sequence: the sum of the lengths of its parts.
// Sums of integers that are not negative are expressed by it.
func (m *TM) SumOf(f *T) *T {
	if f.op != "flat" {
		return m.Len(f)
	}
	s, bv, body := f.args[0], f.args[1], f.args[2]
	l := m.Len(body)
	out := m.zero
	add := func(c *T) { out = m.Add(out, m.Mul(c, m.Len(s))) }
	if !l.hasBVOf(bv) {
		add(l)
		return out
	}
	if l.op == "lin" {
		// What does not depend on the position.
		rest := l
		if l.n.Sign() > 0 {
			rest = m.Sub(rest, m.IntB(l.n))
		}
		if rest != l && m.ge0(rest) {
			add(m.Sub(l, rest))
			l = rest
		}
	}
	if s.op == "range" && bv.time != 0 {
		// Positions are the same at any time.
		b0 := m.FreshBV(bv.sort, 0)
		bv, l = b0, m.substBV(l, bv, b0)
	}
	g := m.Flat(s, bv, m.Rep(m.byteSeq(), l, m.zero))
	if g.op != "flat" {
		return m.Add(out, m.Len(g))
	}
	return m.Add(out, m.raw("sumof", "", m.rangedInt("Sum", bigZero, nil), nil, g))
}

// hasBVOf: the bound variable occurs freely.
func (t *T) hasBVOf(bv *T) bool {
	for _, b := range t.fbv {
		if b == bv {
			return true
		}
	}
	return false
}

// Sum is the sum of body over lo <= bv < hi; body is not negative.
func (m *TM) Sum(lo, hi, bv, body *T) *T {
	return m.Len(m.Flat(m.RangeSeq(lo, hi), bv, m.Rep(m.byteSeq(), body, m.zero)))
}

func hasSum(t *T) bool {
	found := false
	subterms([]*T{t}, func(t *T) { found = found || t.op == "sumof" })
	return found
}

func (m *TM) AllocF(name string, args ...*T) *T {
	return m.raw("allocf", name, m.rangedInt("Ref", bigZero, nil), nil, args...)
}

// LamArr is the array k -> body.
func (m *TM) LamArr(s *Sort, bv, body *T) *T {
	if body.op == "select" && body.args[1] == bv && len(body.args[0].fbv) == 0 {
		return body.args[0]
	}
	bv, body = m.closeBV(bv, body)
	return m.raw("lamarr", "", s, nil, bv, body)
}

var showDepth = func() int {
	if n, err := strconv.Atoi(os.Getenv("GOVC_DEPTH")); err == nil {
		return n
	}
	return 14
}()

var maxInt = big.NewInt(1<<63 - 1)
