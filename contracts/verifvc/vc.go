// Package verifvc holds the intrinsics contracts are written with. A contract
// is a Go function over the real code: govc executes it symbolically, for all
// inputs, and proves every Ensures; the driver runs the same function on
// concrete inputs.
package verifvc

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"math/big"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/lightningnetwork/lnd/lnwire"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

type skip struct{}

type violation struct{ name string }

func (v violation) String() string { return "postcondition " + v.name + " does not hold" }

// Requires states a precondition.
func Requires(b bool) {
	if !b {
		panic(skip{})
	}
}

// Ensures states a postcondition.
func Ensures(name string, b bool) {
	cur.hit(name)
	if !b {
		panic(violation{name})
	}
}

// Forall states that p holds for every index in [lo, hi).
func Forall(lo, hi int, p func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if !p(i) {
			return false
		}
	}
	return true
}

// Exists states that p holds for some index in [lo, hi).
func Exists(lo, hi int, p func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if p(i) {
			return true
		}
	}
	return false
}

// Symbolic reports whether the contract is being proved rather than run.
func Symbolic() bool { return false }

// Code is the gRPC status code of an error.
func Code(err error) codes.Code { return status.Code(err) }

// Is is errors.Is.
func Is(err, target error) bool { return errors.Is(err, target) }

// Any sets the value pointed to by p to an arbitrary one.
func Any(p interface{}) {
	v := reflect.ValueOf(p).Elem()
	cur.mu.Lock()
	defer cur.mu.Unlock()
	v.Set(cur.r.Value(v.Type(), 3))
}

func seedOf(name string, args []interface{}) int64 {
	var b bytes.Buffer
	b.WriteString(name)
	for _, a := range args {
		b.WriteByte('|')
		dumpTo(&b, reflect.ValueOf(a), 0, false)
	}
	h := fnv.New64a()
	h.Write(b.Bytes())
	return int64(h.Sum64()) ^ cur.seed
}

// Fn sets *out to an arbitrary function of args.
func Fn(out interface{}, name string, args ...interface{}) {
	v := reflect.ValueOf(out).Elem()
	r := newRand(seedOf(name, args))
	v.Set(r.Value(v.Type(), 4))
}

// FailOneIn sets how often the environment fails in concrete runs.
func FailOneIn(n int) bool {
	cur.failIn = n
	return true
}

// Fails is the error, if any, an environment operation fails with: an
// arbitrary function of args.
func Fails(name string, args ...interface{}) error {
	seed := seedOf("fails "+name, args)
	cur.mu.Lock()
	defer cur.mu.Unlock()
	if e, ok := cur.failed[seed]; ok {
		return e
	}
	e := fails(seed)
	cur.failed[seed] = e
	return e
}

func fails(seed int64) error {
	r := newRand(seed)
	n := cur.failIn
	if n == 0 {
		n = 6
	}
	if !r.Coin(n) {
		return nil
	}
	for {
		if e := r.Err(); e != nil {
			return e
		}
	}
}

// Same tells whether two functions, pointers, maps or channels of the same
// type are one and the same.
func Same(a, b interface{}) bool {
	return reflect.TypeOf(a) == reflect.TypeOf(b) &&
		(*[2]unsafe.Pointer)(unsafe.Pointer(&a))[1] == (*[2]unsafe.Pointer)(unsafe.Pointer(&b))[1]
}

// MapOver makes dst, an empty map, hold f(k) for every key k of src.
func MapOver(dst, src, f interface{}) {
	d, s, fv := reflect.ValueOf(dst), reflect.ValueOf(src), reflect.ValueOf(f)
	for _, k := range s.MapKeys() {
		d.SetMapIndex(k, fv.Call([]reflect.Value{k})[0])
	}
}

// Eq compares two values by what they hold: public keys by their encoding,
// pointers by what they point to, nil and empty slices are the same.
func Eq(a, b interface{}) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.Type() != vb.Type() {
		return false
	}
	return deepEq(va, vb, 0)
}

var (
	pubKeyT = reflect.TypeOf(btcec.PublicKey{})
	bigT    = reflect.TypeOf(big.Int{})
	timeT   = reflect.TypeOf(time.Time{})
)

func access(v reflect.Value) reflect.Value {
	if v.CanInterface() {
		return v
	}
	if v.CanAddr() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	return v
}

func addressable(v reflect.Value) reflect.Value {
	if v.CanAddr() {
		return v
	}
	n := reflect.New(v.Type()).Elem()
	n.Set(v)
	return n
}

func deepEq(a, b reflect.Value, d int) bool {
	if d > 60 {
		return true
	}
	a, b = access(a), access(b)
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		if a.Pointer() == b.Pointer() {
			return true
		}
		return deepEq(a.Elem(), b.Elem(), d+1)
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		if a.Elem().Type() != b.Elem().Type() {
			return false
		}
		return deepEq(addressable(a.Elem()), addressable(b.Elem()), d+1)
	case reflect.Struct:
		a, b = addressable(a), addressable(b)
		switch a.Type() {
		case pubKeyT:
			ka := a.Addr().Interface().(*btcec.PublicKey)
			kb := b.Addr().Interface().(*btcec.PublicKey)
			return ka.IsEqual(kb)
		case bigT:
			return a.Addr().Interface().(*big.Int).Cmp(b.Addr().Interface().(*big.Int)) == 0
		case timeT:
			return a.Interface().(time.Time).Equal(b.Interface().(time.Time))
		}
		for i := 0; i < a.NumField(); i++ {
			if !deepEq(a.Field(i), b.Field(i), d+1) {
				return false
			}
		}
		return true
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !deepEq(a.Index(i), b.Index(i), d+1) {
				return false
			}
		}
		return true
	case reflect.Array:
		a, b = addressable(a), addressable(b)
		for i := 0; i < a.Len(); i++ {
			if !deepEq(a.Index(i), b.Index(i), d+1) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			w := b.MapIndex(k)
			if !w.IsValid() || !deepEq(addressable(a.MapIndex(k)), addressable(w), d+1) {
				return false
			}
		}
		return true
	case reflect.Func:
		return a.Pointer() == b.Pointer()
	case reflect.Chan, reflect.UnsafePointer:
		return a.Pointer() == b.Pointer()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.String:
		return a.String() == b.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	case reflect.Float32, reflect.Float64:
		return a.Float() == b.Float()
	}
	return false
}

// Clone returns a copy of a value that shares nothing with it.
func Clone(v interface{}) interface{} {
	if v == nil {
		return nil
	}
	return deepClone(reflect.ValueOf(v), 0).Interface()
}

func deepClone(v reflect.Value, d int) reflect.Value {
	if d > 60 {
		return v
	}
	v = access(v)
	out := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return out
		}
		p := reflect.New(v.Type().Elem())
		p.Elem().Set(deepClone(v.Elem(), d+1))
		out.Set(p)
	case reflect.Struct:
		v = addressable(v)
		out.Set(v)
		switch v.Type() {
		case pubKeyT, timeT:
			return out
		case bigT:
			out.Addr().Interface().(*big.Int).Set(v.Addr().Interface().(*big.Int))
			return out
		}
		for i := 0; i < v.NumField(); i++ {
			access(out.Field(i)).Set(deepClone(v.Field(i), d+1))
		}
	case reflect.Slice:
		if v.IsNil() {
			return out
		}
		s := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			s.Index(i).Set(deepClone(v.Index(i), d+1))
		}
		out.Set(s)
	case reflect.Array:
		v = addressable(v)
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(deepClone(v.Index(i), d+1))
		}
	case reflect.Map:
		if v.IsNil() {
			return out
		}
		m := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			m.SetMapIndex(k, deepClone(addressable(v.MapIndex(k)), d+1))
		}
		out.Set(m)
	default:
		out.Set(v)
	}
	return out
}

// Rand makes inputs.
type Rand struct {
	*rand.Rand
	consts []uint64
	pool   map[reflect.Type][]reflect.Value
	last   [][]byte
	pubs   []*btcec.PublicKey
}

// Coin is true once in n.
func (r *Rand) Coin(n int) bool { return r.Intn(n) == 0 }

// Bool is a fair coin.
func (r *Rand) Bool() bool { return r.Intn(2) == 0 }

var edge = []uint64{0, 1, 2, 3, 4, 5, 8, 16, 22, 31, 32, 33, 63, 64, 65, 127, 128, 239, 240, 241, 252, 253, 254, 255, 256, 999,
	1000, 1001, 65534, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1}

// U64 makes an integer: often small, often at a boundary.
func (r *Rand) U64() uint64 {
	if n, ok := r.newInt(); ok {
		return n
	}
	switch r.Intn(8) {
	case 0, 1, 2:
		return uint64(r.Intn(10))
	case 3:
		return edge[r.Intn(len(edge))]
	case 4:
		if len(r.consts) > 0 {
			return r.consts[r.Intn(len(r.consts))] + uint64(r.Intn(3)) - 1
		}
		return uint64(r.Intn(300))
	case 5:
		return uint64(r.Intn(300))
	case 6:
		return uint64(r.Intn(70000))
	}
	return r.Uint64() >> uint(r.Intn(64))
}

// newInt is, now and then, a constant that the code has and the recorded tree
// does not, or a number next to it.
func (r *Rand) newInt() (uint64, bool) {
	if len(newInts) == 0 || !r.Coin(6) {
		return 0, false
	}
	n := newInts[r.Intn(len(newInts))]
	if r.Bool() {
		n += uint64(r.Intn(3)) - 1
	}
	return n, true
}

// Len makes a small length.
func (r *Rand) Len(max int) int {
	if n, ok := r.newInt(); ok && n <= uint64(max) && n <= 2000 {
		return int(n)
	}
	n := 0
	switch r.Intn(8) {
	case 0:
		n = 0
	case 1:
		n = 1
	case 2, 3, 4:
		n = r.Intn(5)
	case 5:
		n = r.Intn(12)
	case 6:
		n = r.Intn(40)
	case 7:
		n = int(r.U64() % 300)
	}
	if n > max {
		n = r.Intn(max + 1)
	}
	return n
}

// Count is a number below n, and now and then a larger one.
func (r *Rand) Count(n int) int {
	if c, ok := r.newInt(); ok && c <= 300 {
		return int(c)
	}
	switch {
	case r.Coin(60):
		return r.Intn(300)
	case r.Coin(10):
		return r.Intn(40)
	}
	return r.Intn(n)
}

// Bytes makes a byte string.
func (r *Rand) Bytes(max int) []byte {
	if len(r.last) > 0 && r.Coin(12) {
		b := r.last[r.Intn(len(r.last))]
		if len(b) <= max {
			return append([]byte{}, b...)
		}
	}
	b := make([]byte, r.Len(max))
	if len(b) == 0 && r.Bool() {
		return nil
	}
	r.Read(b)
	if r.Coin(5) {
		for i := range b {
			b[i] = byte(r.Intn(3))
		}
	}
	if n, ok := r.newInt(); ok && len(b) > 0 {
		// A new constant somewhere in the string, often at one end.
		i := r.Intn(len(b))
		if r.Bool() {
			i = r.Intn(2) * (len(b) - 1)
		}
		if n < 256 {
			b[i] = byte(n)
		} else {
			for sh := 56; sh >= 0; sh -= 8 {
				if n>>uint(sh) != 0 && i < len(b) {
					b[i] = byte(n >> uint(sh))
					i++
				}
			}
		}
	}
	if len(newStrs) > 0 && r.Coin(6) {
		s := newStrs[r.Intn(len(newStrs))]
		switch {
		case len(s) > max:
		case r.Bool():
			b = []byte(s)
		case len(b)+len(s) <= max:
			b = append([]byte(s), b...)
			if r.Bool() {
				b = append(b[len(s):], s...)
			}
		}
	}
	if len(r.last) < 20 {
		r.last = append(r.last, b)
	}
	return b
}

// Data is a byte string that is long now and then.
func (r *Rand) Data(max int) []byte {
	n := 0
	switch {
	case r.Coin(30):
		n = 250 + r.Intn(12)
	case r.Coin(60):
		n = 500 + r.Intn(1500)
	case r.Coin(150):
		n = 32760 + r.Intn(20)
	case r.Coin(150):
		n = 65525 + r.Intn(20)
	default:
		return r.Bytes(max)
	}
	b := make([]byte, n)
	r.Read(b)
	return b
}

var (
	keyMu sync.Mutex
	keys  = map[uint64]*btcec.PrivateKey{}
)

// KeyN is the private key with the given index.
func KeyN(n uint64) *btcec.PrivateKey {
	keyMu.Lock()
	defer keyMu.Unlock()
	if k, ok := keys[n]; ok {
		return k
	}
	if n >= keyPool/2 && n < keyPool {
		// The other key with the same x coordinate.
		keyMu.Unlock()
		k := KeyN(n - keyPool/2)
		keyMu.Lock()
		var s btcec.ModNScalar
		s.Set(&k.Key).Negate()
		keys[n] = btcec.PrivKeyFromScalar(&s)
		return keys[n]
	}
	var b [32]byte
	copy(b[:], "verif")
	for i := 0; i < 8; i++ {
		b[31-i] = byte((n + 1) >> (8 * uint(i)))
	}
	k, _ := btcec.PrivKeyFromBytes(b[:])
	keys[n] = k
	return k
}

// keyPool is the number of keys that generators draw from; the second half
// are the negations of the first.
const keyPool = 16

// Priv makes a private key.
func (r *Rand) Priv() *btcec.PrivateKey { return KeyN(uint64(r.Intn(keyPool))) }

// Key makes a public key.
func (r *Rand) Key() *btcec.PublicKey {
	if len(r.pubs) > 0 && r.Coin(8) {
		// The same object, not just the same key.
		return r.pubs[r.Intn(len(r.pubs))]
	}
	k := r.Priv().PubKey()
	if len(r.pubs) < 6 {
		r.pubs = append(r.pubs, k)
	}
	return k
}

// PrivOf is the private key of a generated public key.
func PrivOf(k *btcec.PublicKey) *btcec.PrivateKey {
	if k == nil {
		return nil
	}
	for i := uint64(0); i < keyPool; i++ {
		if KeyN(i).PubKey().IsEqual(k) {
			return KeyN(i)
		}
	}
	return nil
}

// Make makes a value of the type of sample.
func (r *Rand) Make(sample interface{}, depth int) interface{} {
	return r.Value(reflect.TypeOf(sample), depth).Interface()
}

var errPool []error

// Err makes an error, nil about half of the time.
func (r *Rand) Err() error {
	if r.Bool() {
		return nil
	}
	if r.Bool() && len(errPool) > 0 {
		e := errPool[r.Intn(len(errPool))]
		if r.Bool() {
			return fmt.Errorf("wrapped: %w", e)
		}
		return e
	}
	if r.Coin(3) {
		return status.Error(codes.Code(r.Intn(17)), "arbitrary status")
	}
	return fmt.Errorf("arbitrary error %d", r.Intn(1000))
}

// Errors makes the generator use these errors too.
func Errors(es ...error) bool {
	errPool = append(errPool, es...)
	return true
}

// TypeGen makes values of a type.
type TypeGen func(r *Rand) interface{}

var typeGens = map[reflect.Type]TypeGen{}

// Register sets the generator of the type of sample.
func Register(sample interface{}, g TypeGen) bool {
	typeGens[reflect.TypeOf(sample)] = g
	return true
}

func init() {
	Register((*btcec.PublicKey)(nil), func(r *Rand) interface{} {
		if r.Coin(8) {
			return (*btcec.PublicKey)(nil)
		}
		return r.Key()
	})
	Register((*btcec.PrivateKey)(nil), func(r *Rand) interface{} { return r.Priv() })
	Register(btcec.PublicKey{}, func(r *Rand) interface{} { return *r.Key() })
	Register((*lnwire.RawFeatureVector)(nil), func(r *Rand) interface{} {
		v := lnwire.NewRawFeatureVector()
		for i := r.Len(4); i > 0; i-- {
			v.Set(lnwire.FeatureBit(r.U64() % 300))
		}
		return v
	})
	Register((*lnwire.FeatureVector)(nil), func(r *Rand) interface{} {
		if r.Coin(6) {
			return (*lnwire.FeatureVector)(nil)
		}
		v := lnwire.NewRawFeatureVector()
		for i := r.Len(4); i > 0; i-- {
			v.Set(lnwire.FeatureBit(r.U64() % 300))
		}
		return lnwire.NewFeatureVector(v, lnwire.Features)
	})
	Register(time.Time{}, func(r *Rand) interface{} {
		if r.Coin(5) {
			return time.Time{}
		}
		switch r.Intn(8) {
		case 0:
			return time.Unix(int64(r.Intn(3)), 0)
		case 1:
			return time.Unix(-int64(r.U64()%(1<<33)), 0)
		}
		return time.Unix(int64(r.U64()%(1<<40)), 0)
	})
	Register(time.Duration(0), func(r *Rand) interface{} { return time.Duration(r.Intn(1000)) * time.Second })
}

// Value makes a value of any type.
func (r *Rand) Value(t reflect.Type, depth int) reflect.Value {
	if p := r.pool[t]; len(p) > 0 && r.Coin(6) {
		return deepClone(p[r.Intn(len(p))], 0)
	}
	v := r.value(t, depth)
	if len(r.pool[t]) < 8 {
		r.pool[t] = append(r.pool[t], v)
	}
	return v
}

var errorT = reflect.TypeOf((*error)(nil)).Elem()

func (r *Rand) value(t reflect.Type, depth int) reflect.Value {
	out := reflect.New(t).Elem()
	if g, ok := typeGens[t]; ok {
		x := g(r)
		if x != nil {
			out.Set(reflect.ValueOf(x))
		}
		return out
	}
	switch t.Kind() {
	case reflect.Bool:
		out.SetBool(r.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n := int64(r.U64())
		if r.Coin(8) {
			n = -n
		}
		out.SetInt(n)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		out.SetUint(r.U64())
	case reflect.String:
		if r.Coin(5) {
			out.SetString("")
		} else {
			b := r.Bytes(20)
			for i := range b {
				if (b[i] < 32 || b[i] > 126) && !r.Coin(20) {
					b[i] = 32 + b[i]%95
				}
			}
			out.SetString(string(b))
		}
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			if r.Coin(10) {
				return out
			}
			out.SetBytes(r.Bytes(400))
			return out
		}
		if depth <= 0 || r.Coin(8) {
			return out
		}
		n := r.Len(7)
		s := reflect.MakeSlice(t, n, n)
		for i := 0; i < n; i++ {
			s.Index(i).Set(r.Value(t.Elem(), depth-1))
		}
		out.Set(s)
	case reflect.Array:
		if t.Elem().Kind() == reflect.Uint8 {
			if r.Coin(6) {
				return out
			}
			for i := 0; i < t.Len(); i++ {
				out.Index(i).SetUint(uint64(r.Intn(256)))
			}
			return out
		}
		for i := 0; i < t.Len(); i++ {
			out.Index(i).Set(r.Value(t.Elem(), depth-1))
		}
	case reflect.Ptr:
		if depth <= 0 || r.Coin(5) {
			return out
		}
		p := reflect.New(t.Elem())
		p.Elem().Set(r.Value(t.Elem(), depth-1))
		out.Set(p)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			access(out.Field(i)).Set(r.Value(t.Field(i).Type, depth-1))
		}
	case reflect.Map:
		m := reflect.MakeMap(t)
		for i := r.Len(5); i > 0; i-- {
			m.SetMapIndex(r.Value(t.Key(), depth-1), r.Value(t.Elem(), depth-1))
		}
		out.Set(m)
	case reflect.Interface:
		if t == errorT {
			if e := r.Err(); e != nil {
				out.Set(reflect.ValueOf(e))
			}
		}
	}
	return out
}

// C is a contract to run.
type C struct {
	Name string
	Fn   interface{}
	Gen  func(r *Rand) []interface{}
	N    int
	Max  float64
	// Perturb the schedule in every other run.
	Perturb bool
}

var (
	perturb   int32
	perturbMu sync.Mutex
	perturbR  = rand.New(rand.NewSource(1))
)

// Yield may let other goroutines run. The driver is built from copies of the
// source with a call of it before every statement.
func Yield() {
	if atomic.LoadInt32(&perturb) == 0 {
		return
	}
	perturbMu.Lock()
	n := perturbR.Intn(64)
	perturbMu.Unlock()
	switch {
	case n < 4:
		time.Sleep(time.Duration(20+n*60) * time.Microsecond)
	case n < 16:
		runtime.Gosched()
	}
}

// Result is what running a contract found.
type Result struct {
	Name     string
	Runs     int
	Distinct int
	Skipped  int
	Reached  map[string]int
	Failed   string
	Input    string
	Seed     int64
	Stack    string
	Samples  []string
	Secs     float64
}

type session struct {
	mu     sync.Mutex
	r      *Rand
	hits   map[string]int
	seed   int64
	failIn int
	failed map[int64]error
}

func (s *session) hit(n string) {
	s.mu.Lock()
	s.hits[n]++
	s.mu.Unlock()
}

var cur = &session{hits: map[string]int{}, failed: map[int64]error{}}

func newRand(seed int64) *Rand {
	r := &Rand{Rand: rand.New(rand.NewSource(seed)), pool: map[reflect.Type][]reflect.Value{}}
	r.consts = consts
	return r
}

var (
	consts, newInts []uint64
	newStrs         []string
)

// R is the generator of the current run; for the environments contracts use.
func R() *Rand { return cur.r }

// Drive runs contracts and reports as JSON to the file VERIF_OUT.
func Drive(cs []C) bool {
	for _, w := range strings.Split(os.Getenv("VERIF_CONSTS"), ",") {
		if n, err := strconv.ParseUint(w, 10, 64); err == nil {
			consts = append(consts, n)
		}
	}
	for _, w := range strings.Split(os.Getenv("VERIF_NEWINTS"), ",") {
		if n, err := strconv.ParseUint(w, 10, 64); err == nil {
			newInts = append(newInts, n)
		}
	}
	json.Unmarshal([]byte(os.Getenv("VERIF_NEWSTRS")), &newStrs)
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	scale, err := strconv.ParseFloat(os.Getenv("VERIF_SCALE"), 64)
	if err != nil {
		scale = 1
	}
	want := map[string]bool{}
	for _, w := range strings.Split(os.Getenv("VERIF_CONTRACTS"), ",") {
		want[w] = true
	}
	one := os.Getenv("VERIF_ONE")
	var out []*Result
	ok := true
	write := func() {
		if f := os.Getenv("VERIF_OUT"); f != "" {
			b, _ := json.Marshal(out)
			os.WriteFile(f, b, 0644)
		}
	}
	for _, c := range cs {
		if !want[c.Name] {
			continue
		}
		res := &Result{Name: c.Name, Reached: map[string]int{}}
		out = append(out, res)
		start := time.Now()
		n := c.N
		if n == 0 {
			n = 2000
		}
		n = int(float64(n) * scale)
		max := c.Max
		if max == 0 {
			max = 6
		}
		seen := map[string]bool{}
		for i := 0; i < n; i++ {
			if time.Since(start).Seconds() > max*scale {
				break
			}
			s := seed*1000003 + int64(i)
			if one != "" {
				s, _ = strconv.ParseInt(one, 10, 64)
			}
			runOne(c, s, res, seen)
			if res.Failed != "" {
				ok = false
				break
			}
			if one != "" {
				break
			}
		}
		res.Distinct = len(seen)
		res.Secs = time.Since(start).Seconds()
		write()
	}
	write()
	return ok
}

func runOne(c C, seed int64, res *Result, seen map[string]bool) {
	r := newRand(seed)
	if c.Perturb && seed&1 == 1 {
		perturbMu.Lock()
		perturbR.Seed(seed)
		perturbMu.Unlock()
		atomic.StoreInt32(&perturb, 1)
		defer atomic.StoreInt32(&perturb, 0)
	}
	cur = &session{r: r, hits: map[string]int{}, seed: seed, failed: map[int64]error{}}
	f := reflect.ValueOf(c.Fn)
	var args []reflect.Value
	if c.Gen != nil {
		for i, a := range c.Gen(r) {
			if a == nil {
				args = append(args, reflect.Zero(f.Type().In(i)))
			} else {
				args = append(args, reflect.ValueOf(a))
			}
		}
	} else {
		for i := 0; i < f.Type().NumIn(); i++ {
			args = append(args, r.Value(f.Type().In(i), 4))
		}
	}
	dump := Dump(args)
	type outcome struct {
		p     interface{}
		stack string
	}
	done := make(chan outcome, 1)
	go func() {
		var o outcome
		defer func() {
			if p := recover(); p != nil {
				o.p, o.stack = p, string(debug.Stack())
			}
			done <- o
		}()
		f.Call(args)
	}()
	var o outcome
	select {
	case o = <-done:
	case <-time.After(20 * time.Second):
		o.p, o.stack = "the call does not return", string(allStacks())
	}
	s := cur
	s.mu.Lock()
	hits := map[string]int{}
	for k, v := range s.hits {
		hits[k] = v
	}
	s.mu.Unlock()
	res.Runs++
	if _, isSkip := o.p.(skip); isSkip {
		res.Skipped++
		return
	}
	if len(hits) > 0 && len(seen) < 100000 {
		seen[dump] = true
	}
	if len(res.Samples) < 3 && len(hits) > 0 {
		res.Samples = append(res.Samples, clip(dump, 1500))
	}
	for k, v := range hits {
		res.Reached[k] += v
	}
	if o.p != nil {
		res.Failed = fmt.Sprint(o.p)
		if v, isV := o.p.(violation); isV {
			res.Failed = v.String()
		} else if _, isStr := o.p.(string); !isStr {
			res.Failed = "panic: " + res.Failed
		}
		res.Input = clip(dump, 20000)
		res.Seed = seed
		res.Stack = clip(o.stack, 8000)
	}
}

func allStacks() []byte { return debug.Stack() }

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Dump writes values out.
func Dump(vs []reflect.Value) string {
	var b bytes.Buffer
	for i, v := range vs {
		if i > 0 {
			b.WriteString(", ")
		}
		dump(&b, v, 0)
	}
	return b.String()
}

func dump(b *bytes.Buffer, v reflect.Value, d int) { dumpTo(b, v, d, true) }

// dumpTo writes v; nil slices look like empty ones unless nils is set.
func dumpTo(b *bytes.Buffer, v reflect.Value, d int, nils bool) {
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	if d > 12 {
		b.WriteString("...")
		return
	}
	v = access(v)
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("&")
		dumpTo(b, v.Elem(), d+1, nils)
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if e, ok := v.Interface().(error); ok {
			fmt.Fprintf(b, "error(%q)", e.Error())
			return
		}
		dumpTo(b, addressable(v.Elem()), d+1, nils)
	case reflect.Struct:
		v = addressable(v)
		switch v.Type() {
		case pubKeyT:
			k := v.Addr().Interface().(*btcec.PublicKey)
			fmt.Fprintf(b, "PublicKey(%x)", k.SerializeCompressed())
			return
		case timeT:
			fmt.Fprintf(b, "Time(%v)", v.Interface())
			return
		}
		b.WriteString(v.Type().Name() + "{")
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(v.Type().Field(i).Name + ":")
			dumpTo(b, v.Field(i), d+1, nils)
		}
		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		if nils && v.Kind() == reflect.Slice && v.IsNil() {
			b.WriteString("nil")
			return
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			x := make([]byte, v.Len())
			for i := range x {
				x[i] = byte(v.Index(i).Uint())
			}
			b.WriteString("x" + hex.EncodeToString(x))
			return
		}
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteString(", ")
			}
			dumpTo(b, v.Index(i), d+1, nils)
		}
		b.WriteString("]")
	case reflect.Map:
		ks := v.MapKeys()
		sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
		b.WriteString("map[")
		for i, k := range ks {
			if i > 0 {
				b.WriteString(", ")
			}
			dumpTo(b, addressable(k), d+1, nils)
			b.WriteString(":")
			dumpTo(b, addressable(v.MapIndex(k)), d+1, nils)
		}
		b.WriteString("]")
	case reflect.Func:
		b.WriteString("func")
	case reflect.Chan:
		b.WriteString("chan")
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	default:
		fmt.Fprintf(b, "%v", v)
	}
}

// BigSize is the encoding of an integer in a TLV stream.
func BigSize(n uint64) []byte {
	be := func(k int) []byte {
		b := make([]byte, k)
		for i := range b {
			b[i] = byte(n >> (8 * uint(k-1-i)))
		}
		return b
	}
	switch {
	case n < 0xfd:
		return []byte{byte(n)}
	case n < 0x10000:
		return append([]byte{0xfd}, be(2)...)
	case n < 0x100000000:
		return append([]byte{0xfe}, be(4)...)
	}
	return append([]byte{0xff}, be(8)...)
}

// TLV is the encoding of a record.
func TLV(typ uint64, value []byte) []byte {
	return append(append(BigSize(typ), BigSize(uint64(len(value)))...), value...)
}

// OptTLV is the encoding of a record, or nothing.
func OptTLV(ok bool, typ uint64, value []byte) []byte {
	if !ok {
		return nil
	}
	return TLV(typ, value)
}

// Concat is the parts one after the other.
func Concat(parts ...[]byte) []byte {
	var b []byte
	for _, p := range parts {
		b = append(b, p...)
	}
	return b
}

// parseTLV reads b as a stream of records of ascending types.
func parseTLV(b []byte) (map[uint64][]byte, bool) {
	recs := map[uint64][]byte{}
	num := func() (uint64, bool) {
		if len(b) == 0 {
			return 0, false
		}
		k := map[byte]int{0xfd: 2, 0xfe: 4, 0xff: 8}[b[0]]
		if k == 0 {
			n := uint64(b[0])
			b = b[1:]
			return n, true
		}
		if len(b) < 1+k {
			return 0, false
		}
		var n uint64
		for _, c := range b[1 : 1+k] {
			n = n<<8 | uint64(c)
		}
		b = b[1+k:]
		return n, n >= []uint64{0, 0, 0xfd, 0, 0x10000, 0, 0, 0, 0x100000000}[k]
	}
	last, first := uint64(0), true
	for len(b) > 0 {
		t, ok := num()
		if !ok || !first && t <= last {
			return recs, false
		}
		first, last = false, t
		l, ok := num()
		if !ok || l > 65535 || l > uint64(len(b)) {
			return recs, false
		}
		recs[t] = b[:l:l]
		b = b[l:]
	}
	return recs, true
}

// TLVOK: b is a stream of records.
func TLVOK(b []byte) bool {
	_, ok := parseTLV(b)
	return ok
}

// TLVGet is the value of the record of type typ in the stream b, and whether
// it has one.
func TLVGet(b []byte, typ uint64) ([]byte, bool) {
	recs, _ := parseTLV(b)
	v, ok := recs[typ]
	return v, ok
}

// Min64 is n in big endian without leading zero bytes.
func Min64(n uint64) []byte {
	var b []byte
	for ; n > 0; n >>= 8 {
		b = append([]byte{byte(n)}, b...)
	}
	return b
}

// UnMin64 undoes Min64, telling whether b is the outcome of that.
func UnMin64(b []byte) (uint64, bool) {
	if len(b) > 8 || len(b) > 0 && b[0] == 0 {
		return 0, false
	}
	var n uint64
	for _, c := range b {
		n = n<<8 | uint64(c)
	}
	return n, true
}

// Closed, SentN and SentAt tell what has happened to a channel so far, which
// only a proof can know. They are for deductive contracts.

// Closed says whether the channel is closed.
func Closed(ch interface{}) bool { panic("not run") }

// SentN gives the number of values sent on the channel.
func SentN(ch interface{}) int { panic("not run") }

// SentAt stores the i-th value sent on the channel in *out.
func SentAt(out, ch interface{}, i int) { panic("not run") }
