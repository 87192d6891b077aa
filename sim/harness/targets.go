package main

import (
	"errors"
	"fmt"
	"reflect"
	"strconv"
	"syscall"
	"unsafe"

	"github.com/bytedance/mockey"
)

// A Target is one function that runs may mock, with adaptors between its
// signature and the harness's own view of a call: an identifier x encoded in
// every argument, a receiver number rid, and one result value.
type Target struct {
	ID      int
	Name    string
	Fn      interface{}
	Generic bool
	Unsafe  bool
	Group   int // targets sharing machine code have one group
	HasRecv bool
	Void    bool // no results: see setVoid
	NoOrig  bool // the original reports no event
	Plain   bool // cheap, for dense schedules
	Call    func(x int64, rid int) int64
	Hook    func(h hookFn, recv, gen bool) interface{}
	When    func(w whenFn, recv, gen bool) interface{}
	Ret     func(v int64) []interface{}
	Origin  func(recv bool) (ptr interface{}, call func(x int64, rid int) int64)
	Orig    func(x int64) int64
	base    uintptr
	code    []byte
}

type hookFn func(x int64, rid int) int64
type whenFn func(x int64, rid int) bool

const nilVal = int64(-77)  // results that are nil
const tnilVal = int64(-79) // results that are a nil pointer of some type

func nilOf(a *Act) int64 {
	if a.ID%2 == 0 {
		return tnilVal
	}
	return nilVal
}

// seen reports an argument tuple that is not the encoding of one call.
var badArgs func(where string, args ...interface{})

func str(x int64) string { return "s" + strconv.FormatInt(x, 10) }
func unstr(s string) int64 {
	if len(s) < 2 || s[0] != 's' {
		return -1
	}
	v, err := strconv.ParseInt(s[1:], 10, 64)
	if err != nil {
		return -1
	}
	return v
}

var targets []*Target

func kv(k, id, x int64) int64 { return k<<48 | id<<32 | x }

func origVal(tid int, x int64) int64 { return kv(1, int64(tid), x) }
func hookVal(aid int, x int64) int64 { return kv(2, int64(aid), x) }
func retVal(aid int) int64           { return kv(3, int64(aid), 0) }
func seqVal(sid, i int) int64        { return kv(4, int64(sid), int64(i)) }

// ---- plain functions

//go:noinline
func tF1(x int64) int64 { return origBody(0, x, 0) }

//go:noinline
func tF2(x int64, s string) (int64, error) {
	chk("F2", x == unstr(s), x, s)
	v := origBody(1, x, 0)
	return v, errOf(v)
}

type valErr int64

func (e valErr) Error() string { return str(int64(e)) }

type ptrErr struct{ _ int }

func (e *ptrErr) Error() string { return "nil" }
func isPtrErr(e error) bool     { p, ok := e.(*ptrErr); return ok && p == nil }

func errOf(v int64) error {
	switch v {
	case nilVal:
		return nil
	case tnilVal:
		return (*ptrErr)(nil)
	}
	return valErr(v)
}

func chk(where string, ok bool, args ...interface{}) {
	if !ok {
		badArgs(where, args...)
	}
}

func decErr(where string, v int64, e error) int64 {
	if v == 0 && e == nil {
		return nilVal
	}
	if v == 0 && isPtrErr(e) {
		return tnilVal
	}
	ve, ok := e.(valErr)
	chk(where+" result", ok && int64(ve) == v, v, e)
	return v
}

//go:noinline
func tFV(x int64, xs ...int64) int64 {
	ckV("FV", x, xs)
	return origBody(2, x, 0)
}

// The slice of variadic arguments has an element that is out of sight, or is nil: a function that gets the arguments as the
// caller passed them can tell.
func mkV(x int64) []int64 {
	n := x % 3
	if n == 0 && x/3%2 == 0 {
		return nil
	}
	r := make([]int64, n+1)
	for i := range r {
		r[i] = x + int64(i) + 1
	}
	return r[:n]
}
func ckV(w string, x int64, xs []int64) {
	n := x % 3
	ok := int64(len(xs)) == n
	for i := range xs {
		ok = ok && xs[i] == x+int64(i)+1
	}
	if ok && n == 0 && x/3%2 == 0 {
		ok = xs == nil
	} else if ok {
		ok = cap(xs) > int(n) && xs[:n+1][n] == x+n+1
	}
	chk(w, ok, x, xs)
}

//go:noinline
func tF0() int64 { return origBody(3, curX(3), 0) }

// ---- methods

type Rv struct {
	id  int
	pad [3]int
}

//go:noinline
func (r Rv) Get(x int64) int64 { return origBody(4, x, r.id) }

type Rp struct {
	id   int
	name string
}

//go:noinline
func (r *Rp) Get(x int64, s string) int64 {
	chk("Rp.Get", x == unstr(s), x, s)
	return origBody(5, x, r.id)
}

//go:noinline
func (r *Rp) Var(x int64, xs ...int64) int64 {
	ckV("Rp.Var", x, xs)
	return origBody(13, x, r.id)
}

var rvs [4]Rv
var rps [4]*Rp

// ---- large and many arguments

type Big struct {
	a [24]int64
	s string
}

func mkBig(x int64) Big {
	var b Big
	for i := range b.a {
		b.a[i] = x + int64(i)
	}
	b.s = str(x)
	return b
}
func unBig(w string, b Big) int64 {
	x := b.a[0]
	ok := unstr(b.s) == x
	for i := range b.a {
		ok = ok && b.a[i] == x+int64(i)
	}
	chk(w, ok, b.a, b.s)
	return x
}

//go:noinline
func tBig(b Big) Big { return mkBig(origBody(6, unBig("Big", b), 0)) }

//go:noinline
func tMany(a, b, c, d, e, f, g, h, i, j, k, l int64, m float64, s string, n float32, o uint8) (int64, float64, string) {
	x := unMany("Many", a, b, c, d, e, f, g, h, i, j, k, l, m, s, n, o)
	v := origBody(7, x, 0)
	return v, float64(v), str(v)
}
func unMany(w string, a, b, c, d, e, f, g, h, i, j, k, l int64, m float64, s string, n float32, o uint8) int64 {
	x := a
	chk(w, b == x+1 && c == x+2 && d == x+3 && e == x+4 && f == x+5 && g == x+6 && h == x+7 && i == x+8 && j == x+9 && k == x+10 && l == x+11 &&
		m == float64(x) && s == str(x) && n == float32(x%1000) && o == uint8(x), a, b, c, d, e, f, g, h, i, j, k, l, m, s, n, o)
	return x
}
func unManyR(w string, v int64, m float64, s string) int64 {
	chk(w, m == float64(v) && s == str(v), v, m, s)
	return v
}

// ---- interfaces, pointers and composites

type strer int64

func (s strer) String() string { return str(int64(s)) }

//go:noinline
func tIf(v interface{}, e fmt.Stringer, p *int64, sl []int64, m map[int64]string, fn func() int64, ch chan int64) (interface{}, *int64) {
	return encIf(origBody(8, unIf("If", v, e, p, sl, m, fn, ch), 0))
}
func mkIf(x int64) (interface{}, fmt.Stringer, *int64, []int64, map[int64]string, func() int64, chan int64) {
	ch := make(chan int64, 1)
	ch <- x
	y := x
	return x, strer(x), &y, []int64{x, x + 1}, map[int64]string{x: str(x)}, func() int64 { return y }, ch
}
func unIf(w string, v interface{}, e fmt.Stringer, p *int64, sl []int64, m map[int64]string, fn func() int64, ch chan int64) int64 {
	x, ok := v.(int64)
	ok = ok && e != nil && unstr(e.String()) == x && p != nil && *p == x && len(sl) == 2 && sl[0] == x && sl[1] == x+1 && m[x] == str(x) && fn != nil && fn() == x
	if ok {
		select {
		case y := <-ch:
			ok = y == x
			ch <- y
		default:
			ok = false
		}
	}
	chk(w, ok, v, e, p, sl, m)
	return x
}
func encIf(v int64) (interface{}, *int64) {
	switch v {
	case nilVal:
		return nil, nil
	case tnilVal:
		return (*int64)(nil), nil
	}
	return v, &v
}
func decIf(w string, v interface{}, p *int64) int64 {
	if v == nil && p == nil {
		return nilVal
	}
	if q, ok := v.(*int64); ok && q == nil && p == nil {
		return tnilVal
	}
	x, ok := v.(int64)
	chk(w, ok && p != nil && *p == x, v, p)
	return x
}

// ---- generics

//go:noinline
func tG[T any](x T, y int64) (r T) {
	var t interface{} = x
	if _, ok := t.(int64); ok {
		var rv interface{} = origBody(9, y, 0)
		chk("G[int64]", t.(int64) == y, t, y)
		return rv.(T)
	}
	chk("G[string]", unstr(t.(string)) == y, t, y)
	var rv interface{} = str(origBody(10, y, 0))
	return rv.(T)
}

type PA struct{ x, y int64 }
type PB struct{ x, y int64 }

type pxy interface{ get() (int64, int64) }

func (p *PA) get() (int64, int64) { return p.x, p.y }
func (p *PB) get() (int64, int64) { return p.x, p.y }

//go:noinline
func tP[T pxy](p T, y int64) int64 {
	var t interface{} = p
	tid := 11
	if _, ok := t.(*PB); ok {
		tid = 12
	}
	a, b := p.get()
	chk("P", a == y && b == y+1, a, b, y)
	return origBody(tid, y, 0)
}

type Gt[T any] struct {
	id int
	v  T
}

//go:noinline
func (g *Gt[T]) Get(x int64, y T) int64 {
	var t interface{} = y
	chk("Gt.Get", t.(int64) == x, t, x)
	return origBody(14, x, g.id)
}

// Len has no parameters: the call in progress is found another way.
//
//go:noinline
func (g *Gt[T]) Len() int64 {
	var t T
	_, ok := interface{}(t).(int64)
	chk("Gt.Len", ok)
	return origBody(28, curX(28), g.id)
}

//go:noinline
func tG2[A, B any](a A, b B, f float64) (r B, g float64, q A) {
	var ta, tb interface{} = a, b
	x := ta.(int64)
	chk("G2", unstr(tb.(string)) == x && f == float64(x), ta, tb, f)
	s, g, v := encG2(origBody(29, x, 0))
	ta, tb = v, s
	return tb.(B), g, ta.(A)
}
func encG2(v int64) (string, float64, int64) { return str(v), float64(v), v }
func decG2(s string, f float64, x int64) int64 {
	chk("G2 results", unstr(s) == x && f == float64(x), s, f, x)
	return x
}

// paramTypes are the type parameters that the generic information of a target
// tells. Methods are left out: theirs starts with other types.
var paramTypes = map[int][]reflect.Type{
	9:  {reflect.TypeOf(int64(0))},
	10: {reflect.TypeOf("")},
	27: {reflect.TypeOf("")},
	29: {reflect.TypeOf(int64(0)), reflect.TypeOf("")},
	30: {reflect.TypeOf(int64(0))},
}

// infos are the generic information seen for each target.
var infos = map[int]mockey.GenericInfo{}

// ckInfo checks the generic information that a hook or predicate of the call
// in progress got.
func ckInfo(g mockey.GenericInfo) {
	r := topRec()
	if r == nil {
		fail("call", "a hook with generic information runs although its goroutine called nothing")
	}
	for i, typ := range paramTypes[r.T] {
		got := g.UsedParamType(uintptr(i))
		chk("generic information of "+targets[r.T].Name, got == typ, i, got)
	}
	if _, ok := infos[r.T]; !ok {
		infos[r.T] = g
	}
	for t, i := range infos {
		if t == r.T {
			chk("equal generic information of "+targets[r.T].Name, g.Equal(i) && i.Equal(g), g, i)
		} else if targets[t].Group == targets[r.T].Group || r.T <= 10 && t <= 10 {
			chk("different generic information of "+targets[r.T].Name, !g.Equal(i) && !i.Equal(g), g, i)
		}
	}
}

// ---- a generic function without parameters

//go:noinline
func tGN[T any]() T {
	r := str(origBody(27, curX(27), 0))
	return interface{}(r).(T)
}

var gts [4]*Gt[int64]

// ---- a function literal (no captured variables) and an error-only function

var tLit = func(x int64, s string) string {
	chk("Lit", x == unstr(s), x, s)
	return str(origBody(15, x, 0))
}

//go:noinline
func tErr(x int64) error { return errOf(origBody(16, x, 0)) }

// ---- machine code whose first bytes lie across a page boundary

type rawFn func(x int64) int64

var rawF rawFn
var rawCode uintptr

const rawAdd = int64(1) << 48 // kv(1, 0, x)

// makeRaw assembles, at the end of one page and the start of the next:
//
//	MOVABS RCX, rawAdd ; ADD RAX, RCX ; NOPs ; RET
func makeRaw(off int) {
	ps := syscall.Getpagesize()
	b, err := syscall.Mmap(-1, 0, 2*ps, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic(err)
	}
	for i := range b {
		b[i] = 0x90
	}
	k := ps - off
	code := []byte{0x48, 0xb9, 0, 0, 0, 0, 0, 0, 0, 0, 0x48, 0x01, 0xc8}
	a := uint64(rawAdd)
	for i := 0; i < 8; i++ {
		code[2+i] = byte(a >> (8 * i))
	}
	copy(b[k:], code)
	b[k+40] = 0xc3
	// and, in the first page, a function shorter than the code that replaces it: BTS RAX, 48 ; RET
	copy(b[rawShortAt:], []byte{0x48, 0x0f, 0xba, 0xe8, 48, 0xc3})
	if err := syscall.Mprotect(b, syscall.PROT_READ|syscall.PROT_EXEC); err != nil {
		panic(err)
	}
	rawCode = uintptr(unsafe.Pointer(&b[k]))
	p := &rawCode
	rawF = *(*rawFn)(unsafe.Pointer(&p))
	rawShortCode = uintptr(unsafe.Pointer(&b[rawShortAt]))
	q := &rawShortCode
	rawShortF = *(*rawFn)(unsafe.Pointer(&q))
}

const rawShortAt = 256

var rawShortF rawFn
var rawShortCode uintptr

// ---- refused targets

//go:noinline
func tShort() {}

// ---- functions with large frames, and one with a frame larger than a fresh stack

//go:noinline
func tMid(x int64) int64 {
	var b [280]int64
	b[x%100] = x
	return origBody(19, b[x%100], 0)
}

//go:noinline
func tMid2(x int64) int64 {
	var b [1500]int64
	b[x%100] = x
	return origBody(20, b[x%100], 0)
}

//go:noinline
func tGiant(x int64) int64 {
	var b [25000]int64
	b[x%100] = x
	return origBody(26, b[x%100], 0)
}

//go:noinline
func tHuge(x int64) int64 {
	var b [3900]int64
	b[x%100] = x
	return origBody(18, b[x%100], 0)
}

// tGH is generic and has a large frame.
//
//go:noinline
func tGH[T any](v T, x int64) T {
	var b [9000]int64
	var w interface{} = v
	b[x%100] = w.(int64)
	chk("GH", b[x%100] == x, b[x%100], x)
	w = origBody(30, b[x%100], 0)
	return w.(T)
}

// ---- methods found by name

type embedded struct{ id int }

//go:noinline
func (r *embedded) EGet(x int64) int64 { return origBody(21, x, r.id) }

type embedding struct {
	pad [2]int
	*embedded
}

type doer interface {
	hidden(x int64, s string) int64
}

type doing struct {
	id  int
	str string
}

//go:noinline
func (d *doing) hidden(x int64, s string) int64 {
	chk("hidden", x == unstr(s), x, s)
	return origBody(22, x, d.id)
}

var embs [4]*embedding
var doers [4]doer

// ---- neither arguments nor results: what ran leaves its value with the call

const voidVal = int64(-78)

func setVoid(v int64) {
	if r := topRec(); r != nil {
		r.void = v
	}
}

//go:noinline
func tNop() { setVoid(origBody(23, curX(23), 0)) }

func callVoid(f func()) int64 {
	r := topRec()
	r.void = voidVal
	f()
	return r.void
}

// ---- arrays, complex numbers, functions, nil interfaces among variadic arguments

func mkMix(x int64) ([3]int32, complex128, float32, []interface{}) {
	var e []interface{}
	switch x % 4 {
	case 1:
		e = []interface{}{nil}
	case 2:
		e = []interface{}{x, nil, str(x)}
	case 3:
		e = []interface{}{[]interface{}{x}}
	}
	return [3]int32{int32(x), int32(x) + 1, int32(x) + 2}, complex(float64(x), -float64(x)), float32(x % 1000), e
}
func unMix(w string, a [3]int32, c complex128, f float32, e []interface{}) int64 {
	x := int64(real(c))
	b, d, g, h := mkMix(x)
	chk(w, a == b && c == d && f == g && reflect.DeepEqual(e, h), a, c, f, e)
	return x
}
func mixRes(v int64) (float64, [2]int16, func() int64) {
	return float64(v), [2]int16{int16(v), int16(v >> 16)}, func() int64 { return v }
}
func unMixRes(f float64, a [2]int16, fn func() int64) int64 {
	v := int64(f)
	chk("Mix result", fn != nil && fn() == v && a == [2]int16{int16(v), int16(v >> 16)}, f, a)
	return v
}

//go:noinline
func tMix(a [3]int32, c complex128, f float32, e ...interface{}) (float64, [2]int16, func() int64) {
	return mixRes(origBody(24, unMix("Mix", a, c, f, e), 0))
}

func simple(name string, fn func(int64) int64) *Target {
	return &Target{Name: name, Fn: fn,
		Call: func(x int64, _ int) int64 { return fn(x) },
		Hook: func(h hookFn, _, _ bool) interface{} { return func(x int64) int64 { return h(x, 0) } },
		When: func(w whenFn, _, _ bool) interface{} { return func(x int64) bool { return w(x, 0) } },
		Ret:  func(v int64) []interface{} { return []interface{}{v} },
		Origin: func(bool) (interface{}, func(int64, int) int64) {
			var f func(int64) int64
			return &f, func(x int64, _ int) int64 { return f(x) }
		}}
}

func add(t *Target) {
	t.ID = len(targets)
	if t.Orig == nil {
		id := t.ID
		t.Orig = func(x int64) int64 { return origVal(id, x) }
	}
	targets = append(targets, t)
}

func initTargets() {
	for i := range rvs {
		rvs[i] = Rv{id: i}
		rps[i] = &Rp{id: i, name: "n"}
		gts[i] = &Gt[int64]{id: i}
		embs[i] = &embedding{embedded: &embedded{id: i}}
		doers[i] = &doing{id: i}
	}
	makeRaw(5)
	add(&Target{Name: "F1", Fn: tF1, Plain: true,
		Call: func(x int64, _ int) int64 { return tF1(x) },
		Hook: func(h hookFn, _, _ bool) interface{} { return func(x int64) int64 { return h(x, 0) } },
		When: func(w whenFn, _, _ bool) interface{} { return func(x int64) bool { return w(x, 0) } },
		Ret: func(v int64) []interface{} {
			if v%2 == 0 {
				return []interface{}{int(v)} // convertible
			}
			return []interface{}{v}
		},
		Origin: func(bool) (interface{}, func(int64, int) int64) {
			f := tF1
			return &f, func(x int64, _ int) int64 { return f(x) }
		}})
	add(&Target{Name: "F2", Fn: tF2, Plain: true,
		Call: func(x int64, _ int) int64 { v, e := tF2(x, str(x)); return decErr("F2", v, e) },
		Hook: func(h hookFn, _, _ bool) interface{} {
			return func(x int64, s string) (int64, error) {
				chk("F2 hook", x == unstr(s), x, s)
				v := h(x, 0)
				if v == nilVal || v == tnilVal {
					return 0, errOf(v)
				}
				return v, errOf(v)
			}
		},
		When: func(w whenFn, _, _ bool) interface{} {
			return func(x int64, s string) bool { chk("F2 when", x == unstr(s), x, s); return w(x, 0) }
		},
		Ret: func(v int64) []interface{} {
			if v == nilVal || v == tnilVal {
				return []interface{}{int64(0), errOf(v)}
			}
			return []interface{}{v, errOf(v)}
		},
		Origin: func(bool) (interface{}, func(int64, int) int64) {
			var f func(int64, string) (int64, error)
			return &f, func(x int64, _ int) int64 { v, e := f(x, str(x)); return decErr("F2 origin", v, e) }
		}})
	add(&Target{Name: "FV", Fn: tFV,
		Call: func(x int64, _ int) int64 { return tFV(x, mkV(x)...) },
		Hook: func(h hookFn, _, _ bool) interface{} {
			return func(x int64, xs ...int64) int64 { ckV("FV hook", x, xs); return h(x, 0) }
		},
		When: func(w whenFn, _, _ bool) interface{} {
			return func(x int64, xs ...int64) bool { ckV("FV when", x, xs); return w(x, 0) }
		},
		Ret: func(v int64) []interface{} { return []interface{}{v} },
		Origin: func(bool) (interface{}, func(int64, int) int64) {
			f := tFV
			return &f, func(x int64, _ int) int64 { return f(x, mkV(x)...) }
		}})
	add(&Target{Name: "F0", Fn: tF0,
		Call: func(x int64, _ int) int64 { return tF0() },
		Hook: func(h hookFn, _, _ bool) interface{} { return func() int64 { return h(curX(3), 0) } },
		When: func(w whenFn, _, _ bool) interface{} { return func() bool { return w(curX(3), 0) } },
		Ret:  func(v int64) []interface{} { return []interface{}{v} },
		Origin: func(bool) (interface{}, func(int64, int) int64) {
			f := tF0
			return &f, func(x int64, _ int) int64 { return f() }
		}})
	add(&Target{Name: "Rv.Get", Fn: Rv.Get, HasRecv: true,
		Call: func(x int64, r int) int64 { return rvs[r].Get(x) },
		Hook: func(h hookFn, recv, _ bool) interface{} {
			if recv {
				return func(r Rv, x int64) int64 { return h(x, r.id) }
			}
			return func(x int64) int64 { return h(x, -1) }
		},
		When: func(w whenFn, recv, _ bool) interface{} {
			if recv {
				return func(r Rv, x int64) bool { return w(x, r.id) }
			}
			return func(x int64) bool { return w(x, -1) }
		},
		Ret: func(v int64) []interface{} { return []interface{}{v} },
		Origin: func(recv bool) (interface{}, func(int64, int) int64) {
			if recv {
				f := Rv.Get
				return &f, func(x int64, r int) int64 { return f(rvs[r], x) }
			}
			var f func(int64) int64
			return &f, func(x int64, _ int) int64 { return f(x) }
		}})
	add(&Target{Name: "(*Rp).Get", Fn: (*Rp).Get, HasRecv: true, Plain: true,
		Call: func(x int64, r int) int64 { return rps[r].Get(x, str(x)) },
		Hook: func(h hookFn, recv, _ bool) interface{} {
			if recv {
				return func(r *Rp, x int64, s string) int64 {
					chk("Rp hook", x == unstr(s), x, s)
					return h(x, r.id)
				}
			}
			return func(x int64, s string) int64 { chk("Rp hook", x == unstr(s), x, s); return h(x, -1) }
		},
		When: func(w whenFn, recv, _ bool) interface{} {
			if recv {
				return func(r *Rp, x int64, s string) bool {
					chk("Rp when", x == unstr(s), x, s)
					return w(x, r.id)
				}
			}
			return func(x int64, s string) bool { chk("Rp when", x == unstr(s), x, s); return w(x, -1) }
		},
		Ret: func(v int64) []interface{} { return []interface{}{v} },
		Origin: func(recv bool) (interface{}, func(int64, int) int64) {
			if recv {
				f := (*Rp).Get
				return &f, func(x int64, r int) int64 { return f(rps[r], x, str(x)) }
			}
			var f func(int64, string) int64
			return &f, func(x int64, _ int) int64 { return f(x, str(x)) }
		}})
	add(&Target{Name: "Big", Fn: tBig,
		Call: func(x int64, _ int) int64 { return unBig("Big result", tBig(mkBig(x))) },
		Hook: func(h hookFn, _, _ bool) interface{} {
			return func(b Big) Big { return mkBig(h(unBig("Big hook", b), 0)) }
		},
		When: func(w whenFn, _, _ bool) interface{} {
			return func(b Big) bool { return w(unBig("Big when", b), 0) }
		},
		Ret: func(v int64) []interface{} { return []interface{}{mkBig(v)} },
		Origin: func(bool) (interface{}, func(int64, int) int64) {
			f := tBig
			return &f, func(x int64, _ int) int64 { return unBig("Big origin", f(mkBig(x))) }
		}})
	add(&Target{Name: "Many", Fn: tMany,
		Call: func(x int64, _ int) int64 {
			return unManyR3(tMany(x, x+1, x+2, x+3, x+4, x+5, x+6, x+7, x+8, x+9, x+10, x+11, float64(x), str(x), float32(x%1000), uint8(x)))
		},
		Hook: func(hk hookFn, _, _ bool) interface{} {
			return func(a, b, c, d, e, f, g, h, i, j, k, l int64, m float64, s string, n float32, o uint8) (int64, float64, string) {
				v := hk(unMany("Many hook", a, b, c, d, e, f, g, h, i, j, k, l, m, s, n, o), 0)
				return v, float64(v), str(v)
			}
		},
		When: func(w whenFn, _, _ bool) interface{} {
			return func(a, b, c, d, e, f, g, h, i, j, k, l int64, m float64, s string, n float32, o uint8) bool {
				return w(unMany("Many when", a, b, c, d, e, f, g, h, i, j, k, l, m, s, n, o), 0)
			}
		},
		Ret: func(v int64) []interface{} { return []interface{}{v, float64(v), str(v)} },
		Origin: func(bool) (interface{}, func(int64, int) int64) {
			f := tMany
			return &f, func(x int64, _ int) int64 {
				return unManyR3(f(x, x+1, x+2, x+3, x+4, x+5, x+6, x+7, x+8, x+9, x+10, x+11, float64(x), str(x), float32(x%1000), uint8(x)))
			}
		}})
	add(&Target{Name: "If", Fn: tIf,
		Call: func(x int64, _ int) int64 { return decIf2(tIf(mkIf(x))) },
		Hook: func(h hookFn, _, _ bool) interface{} {
			return func(v interface{}, e fmt.Stringer, p *int64, sl []int64, m map[int64]string, fn func() int64, ch chan int64) (interface{}, *int64) {
				return encIf(h(unIf("If hook", v, e, p, sl, m, fn, ch), 0))
			}
		},
		When: func(w whenFn, _, _ bool) interface{} {
			return func(v interface{}, e fmt.Stringer, p *int64, sl []int64, m map[int64]string, fn func() int64, ch chan int64) bool {
				return w(unIf("If when", v, e, p, sl, m, fn, ch), 0)
			}
		},
		Ret: func(v int64) []interface{} {
			r, p := encIf(v)
			if p == nil && v == nilVal {
				return []interface{}{r, nil}
			}
			return []interface{}{r, p}
		},
		Origin: func(bool) (interface{}, func(int64, int) int64) {
			f := tIf
			return &f, func(x int64, _ int) int64 { return decIf2(f(mkIf(x))) }
		}})
	add(&Target{Name: "G[int64]", Fn: tG[int64], Generic: true,
		Call: func(x int64, _ int) int64 { return tG[int64](x, x) },
		Hook: func(h hookFn, _, gen bool) interface{} {
			if gen {
				return func(g mockey.GenericInfo, x int64, y int64) int64 {
					ckInfo(g)
					chk("G hook", x == y, x, y)
					return h(y, 0)
				}
			}
			return func(x int64, y int64) int64 { chk("G hook", x == y, x, y); return h(y, 0) }
		},
		When: func(w whenFn, _, gen bool) interface{} {
			if gen {
				return func(g mockey.GenericInfo, x int64, y int64) bool {
					ckInfo(g)
					chk("G when", x == y, x, y)
					return w(y, 0)
				}
			}
			return func(x int64, y int64) bool { chk("G when", x == y, x, y); return w(y, 0) }
		},
		Ret: func(v int64) []interface{} { return []interface{}{v} },
		Origin: func(recv bool) (interface{}, func(int64, int) int64) {
			f := tG[int64]
			return &f, func(x int64, _ int) int64 { return f(x, x) }
		}})
	add(&Target{Name: "G[string]", Fn: tG[string], Generic: true,
		Call: func(x int64, _ int) int64 { return unstr(tG[string](str(x), x)) },
		Hook: func(h hookFn, _, gen bool) interface{} {
			if gen {
				return func(g mockey.GenericInfo, x string, y int64) string {
					ckInfo(g)
					chk("Gs hook", unstr(x) == y, x, y)
					return str(h(y, 0))
				}
			}
			return func(x string, y int64) string { chk("Gs hook", unstr(x) == y, x, y); return str(h(y, 0)) }
		},
		When: func(w whenFn, _, gen bool) interface{} {
			if gen {
				return func(g mockey.GenericInfo, x string, y int64) bool {
					ckInfo(g)
					chk("Gs when", unstr(x) == y, x, y)
					return w(y, 0)
				}
			}
			return func(x string, y int64) bool { chk("Gs when", unstr(x) == y, x, y); return w(y, 0) }
		},
		Ret: func(v int64) []interface{} { return []interface{}{str(v)} },
		Origin: func(recv bool) (interface{}, func(int64, int) int64) {
			f := tG[string]
			return &f, func(x int64, _ int) int64 { return unstr(f(str(x), x)) }
		}})
	// The two instantiations below share one implementation: mocking either
	// answers calls of both.
	add(&Target{Name: "P[*PA]", Fn: tP[*PA], Generic: true,
		Call: func(x int64, _ int) int64 { return tP[*PA](&PA{x, x + 1}, x) },
		Hook: func(h hookFn, _, gen bool) interface{} {
			if gen {
				return func(g mockey.GenericInfo, p *PA, y int64) int64 {
					ckInfo(g)
					chk("PA hook", p.x == y && p.y == y+1, p.x, y)
					return h(y, 0)
				}
			}
			return func(p *PA, y int64) int64 { chk("PA hook", p.x == y && p.y == y+1, p.x, y); return h(y, 0) }
		},
		When: func(w whenFn, _, gen bool) interface{} {
			if gen {
				return func(g mockey.GenericInfo, p *PA, y int64) bool {
					ckInfo(g)
					chk("PA when", p.x == y && p.y == y+1, p.x, y)
					return w(y, 0)
				}
			}
			return func(p *PA, y int64) bool { chk("PA when", p.x == y && p.y == y+1, p.x, y); return w(y, 0) }
		},
		Ret: func(v int64) []interface{} { return []interface{}{v} },
		Origin: func(recv bool) (interface{}, func(int64, int) int64) {
			f := tP[*PA]
			return &f, func(x int64, _ int) int64 { return f(&PA{x, x + 1}, x) }
		}})
	add(&Target{Name: "P[*PB]", Fn: tP[*PB], Generic: true,
		Call: func(x int64, _ int) int64 { return tP[*PB](&PB{x, x + 1}, x) },
		Hook: func(h hookFn, _, gen bool) interface{} {
			if gen {
				return func(g mockey.GenericInfo, p *PB, y int64) int64 {
					ckInfo(g)
					chk("PB hook", p.x == y && p.y == y+1, p.x, y)
					return h(y, 0)
				}
			}
			return func(p *PB, y int64) int64 { chk("PB hook", p.x == y && p.y == y+1, p.x, y); return h(y, 0) }
		},
		When: func(w whenFn, _, gen bool) interface{} {
			if gen {
				return func(g mockey.GenericInfo, p *PB, y int64) bool {
					ckInfo(g)
					chk("PB when", p.x == y && p.y == y+1, p.x, y)
					return w(y, 0)
				}
			}
			return func(p *PB, y int64) bool { chk("PB when", p.x == y && p.y == y+1, p.x, y); return w(y, 0) }
		},
		Ret: func(v int64) []interface{} { return []interface{}{v} },
		Origin: func(recv bool) (interface{}, func(int64, int) int64) {
			f := tP[*PB]
			return &f, func(x int64, _ int) int64 { return f(&PB{x, x + 1}, x) }
		}})
	add(&Target{Name: "(*Rp).Var", Fn: (*Rp).Var, HasRecv: true,
		Call: func(x int64, r int) int64 { return rps[r].Var(x, mkV(x)...) },
		Hook: func(h hookFn, recv, _ bool) interface{} {
			if recv {
				return func(r *Rp, x int64, xs ...int64) int64 { ckV("Rp.Var hook", x, xs); return h(x, r.id) }
			}
			return func(x int64, xs ...int64) int64 { ckV("Rp.Var hook", x, xs); return h(x, -1) }
		},
		When: func(w whenFn, recv, _ bool) interface{} {
			if recv {
				return func(r *Rp, x int64, xs ...int64) bool { ckV("Rp.Var when", x, xs); return w(x, r.id) }
			}
			return func(x int64, xs ...int64) bool { ckV("Rp.Var when", x, xs); return w(x, -1) }
		},
		Ret: func(v int64) []interface{} { return []interface{}{v} },
		Origin: func(recv bool) (interface{}, func(int64, int) int64) {
			if recv {
				f := (*Rp).Var
				return &f, func(x int64, r int) int64 { return f(rps[r], x, mkV(x)...) }
			}
			var f func(int64, ...int64) int64
			return &f, func(x int64, _ int) int64 { return f(x, mkV(x)...) }
		}})
	add(&Target{Name: "(*Gt[int64]).Get", Fn: (*Gt[int64]).Get, Generic: true, HasRecv: true,
		Call: func(x int64, r int) int64 { return gts[r].Get(x, x) },
		Hook: func(h hookFn, recv, gen bool) interface{} {
			switch {
			case recv && gen:
				return func(i mockey.GenericInfo, g *Gt[int64], x, y int64) int64 {
					ckInfo(i)
					chk("Gt hook", x == y, x, y)
					return h(x, g.id)
				}
			case recv:
				return func(g *Gt[int64], x, y int64) int64 { chk("Gt hook", x == y, x, y); return h(x, g.id) }
			case gen:
				return func(i mockey.GenericInfo, x, y int64) int64 { ckInfo(i); chk("Gt hook", x == y, x, y); return h(x, -1) }
			}
			return func(x, y int64) int64 { chk("Gt hook", x == y, x, y); return h(x, -1) }
		},
		When: func(w whenFn, recv, gen bool) interface{} {
			switch {
			case recv && gen:
				return func(i mockey.GenericInfo, g *Gt[int64], x, y int64) bool {
					ckInfo(i)
					chk("Gt when", x == y, x, y)
					return w(x, g.id)
				}
			case recv:
				return func(g *Gt[int64], x, y int64) bool { chk("Gt when", x == y, x, y); return w(x, g.id) }
			case gen:
				return func(i mockey.GenericInfo, x, y int64) bool { ckInfo(i); chk("Gt when", x == y, x, y); return w(x, -1) }
			}
			return func(x, y int64) bool { chk("Gt when", x == y, x, y); return w(x, -1) }
		},
		Ret: func(v int64) []interface{} { return []interface{}{v} },
		Origin: func(recv bool) (interface{}, func(int64, int) int64) {
			if recv {
				f := (*Gt[int64]).Get
				return &f, func(x int64, r int) int64 { return f(gts[r], x, x) }
			}
			var f func(x, y int64) int64
			return &f, func(x int64, _ int) int64 { return f(x, x) }
		}})
	add(&Target{Name: "Lit", Fn: tLit,
		Call: func(x int64, _ int) int64 { return unstr(tLit(x, str(x))) },
		Hook: func(h hookFn, _, _ bool) interface{} {
			return func(x int64, s string) string { chk("Lit hook", x == unstr(s), x, s); return str(h(x, 0)) }
		},
		When: func(w whenFn, _, _ bool) interface{} {
			return func(x int64, s string) bool { chk("Lit when", x == unstr(s), x, s); return w(x, 0) }
		},
		Ret: func(v int64) []interface{} { return []interface{}{str(v)} },
		Origin: func(bool) (interface{}, func(int64, int) int64) {
			var f func(int64, string) string
			return &f, func(x int64, _ int) int64 { return unstr(f(x, str(x))) }
		}})
	add(&Target{Name: "Err", Fn: tErr,
		Call: func(x int64, _ int) int64 { return decErr1(tErr(x)) },
		Hook: func(h hookFn, _, _ bool) interface{} { return func(x int64) error { return errOf(h(x, 0)) } },
		When: func(w whenFn, _, _ bool) interface{} { return func(x int64) bool { return w(x, 0) } },
		Ret: func(v int64) []interface{} {
			return []interface{}{errOf(v)}
		},
		Origin: func(bool) (interface{}, func(int64, int) int64) {
			f := tErr
			return &f, func(x int64, _ int) int64 { return decErr1(f(x)) }
		}})
	add(&Target{Name: "raw", Fn: rawF, NoOrig: true,
		Orig: func(x int64) int64 { return rawAdd + x },
		Call: func(x int64, _ int) int64 { return rawF(x) },
		Hook: func(h hookFn, _, _ bool) interface{} { return func(x int64) int64 { return h(x, 0) } },
		When: func(w whenFn, _, _ bool) interface{} { return func(x int64) bool { return w(x, 0) } },
		Ret:  func(v int64) []interface{} { return []interface{}{v} },
		Origin: func(bool) (interface{}, func(int64, int) int64) {
			var f func(int64) int64
			return &f, func(x int64, _ int) int64 { return f(x) }
		}})
	add(&Target{Name: "huge", Fn: tHuge,
		Call: func(x int64, _ int) int64 { return tHuge(x) },
		Hook: func(h hookFn, _, _ bool) interface{} { return func(x int64) int64 { return h(x, 0) } },
		When: func(w whenFn, _, _ bool) interface{} { return func(x int64) bool { return w(x, 0) } },
		Ret:  func(v int64) []interface{} { return []interface{}{v} },
		Origin: func(bool) (interface{}, func(int64, int) int64) {
			var f func(int64) int64
			return &f, func(x int64, _ int) int64 { return f(x) }
		}})
	add(simple("mid", tMid))
	add(simple("mid2", tMid2))
	add(&Target{Name: "EGet", Fn: mockey.GetMethod(embs[0], "EGet"), HasRecv: true, Plain: true,
		Call: func(x int64, r int) int64 { return embs[r].EGet(x) },
		Hook: func(h hookFn, recv, _ bool) interface{} {
			if recv {
				return func(r *embedded, x int64) int64 { return h(x, r.id) }
			}
			return func(x int64) int64 { return h(x, -1) }
		},
		When: func(w whenFn, recv, _ bool) interface{} {
			if recv {
				return func(r *embedded, x int64) bool { return w(x, r.id) }
			}
			return func(x int64) bool { return w(x, -1) }
		},
		Ret: func(v int64) []interface{} { return []interface{}{v} },
		Origin: func(recv bool) (interface{}, func(int64, int) int64) {
			if recv {
				f := (*embedded).EGet
				return &f, func(x int64, r int) int64 { return f(embs[r].embedded, x) }
			}
			var f func(int64) int64
			return &f, func(x int64, _ int) int64 { return f(x) }
		}})
	add(&Target{Name: "hidden", Fn: mockey.GetMethod(doers[0], "hidden"), HasRecv: true,
		Call: func(x int64, r int) int64 { return doers[r].hidden(x, str(x)) },
		Hook: func(h hookFn, recv, _ bool) interface{} {
			if recv {
				return func(r *doing, x int64, s string) int64 { chk("hidden hook", x == unstr(s), x, s); return h(x, r.id) }
			}
			return func(x int64, s string) int64 { chk("hidden hook", x == unstr(s), x, s); return h(x, -1) }
		},
		When: func(w whenFn, recv, _ bool) interface{} {
			if recv {
				return func(r *doing, x int64, s string) bool { chk("hidden when", x == unstr(s), x, s); return w(x, r.id) }
			}
			return func(x int64, s string) bool { chk("hidden when", x == unstr(s), x, s); return w(x, -1) }
		},
		Ret: func(v int64) []interface{} { return []interface{}{v} },
		Origin: func(recv bool) (interface{}, func(int64, int) int64) {
			if recv {
				var f func(*doing, int64, string) int64
				return &f, func(x int64, r int) int64 { return f(doers[r].(*doing), x, str(x)) }
			}
			var f func(int64, string) int64
			return &f, func(x int64, _ int) int64 { return f(x, str(x)) }
		}})
	add(&Target{Name: "nop", Fn: tNop, Void: true,
		Call: func(x int64, _ int) int64 { return callVoid(tNop) },
		Hook: func(h hookFn, _, _ bool) interface{} { return func() { setVoid(h(curX(23), 0)) } },
		When: func(w whenFn, _, _ bool) interface{} { return func() bool { return w(curX(23), 0) } },
		Ret:  func(v int64) []interface{} { return nil },
		Origin: func(bool) (interface{}, func(int64, int) int64) {
			f := tNop
			return &f, func(x int64, _ int) int64 { return callVoid(f) }
		}})
	add(&Target{Name: "mix", Fn: tMix,
		Call: func(x int64, _ int) int64 { a, c, f, e := mkMix(x); return unMixRes(tMix(a, c, f, e...)) },
		Hook: func(h hookFn, _, _ bool) interface{} {
			return func(a [3]int32, c complex128, f float32, e ...interface{}) (float64, [2]int16, func() int64) {
				return mixRes(h(unMix("Mix hook", a, c, f, e), 0))
			}
		},
		When: func(w whenFn, _, _ bool) interface{} {
			return func(a [3]int32, c complex128, f float32, e ...interface{}) bool {
				return w(unMix("Mix when", a, c, f, e), 0)
			}
		},
		Ret: func(v int64) []interface{} { a, b, c := mixRes(v); return []interface{}{a, b, c} },
		Origin: func(bool) (interface{}, func(int64, int) int64) {
			fn := tMix
			return &fn, func(x int64, _ int) int64 { a, c, f, e := mkMix(x); return unMixRes(fn(a, c, f, e...)) }
		}})
	short := simple("short", rawShortF)
	short.Unsafe, short.NoOrig, short.Orig = true, true, func(x int64) int64 { return rawAdd + x }
	add(short)
	add(simple("giant", tGiant))
	add(&Target{Name: "GN[string]", Fn: tGN[string], Generic: true,
		Call: func(x int64, _ int) int64 { return unstr(tGN[string]()) },
		Hook: func(h hookFn, _, gen bool) interface{} {
			if gen {
				return func(g mockey.GenericInfo) string {
					ckInfo(g)
					return str(h(curX(27), 0))
				}
			}
			return func() string { return str(h(curX(27), 0)) }
		},
		When: func(w whenFn, _, gen bool) interface{} {
			if gen {
				return func(g mockey.GenericInfo) bool {
					ckInfo(g)
					return w(curX(27), 0)
				}
			}
			return func() bool { return w(curX(27), 0) }
		},
		Ret: func(v int64) []interface{} { return []interface{}{str(v)} },
		Origin: func(bool) (interface{}, func(int64, int) int64) {
			f := tGN[string]
			return &f, func(x int64, _ int) int64 { return unstr(f()) }
		}})
	add(&Target{Name: "(*Gt[int64]).Len", Fn: (*Gt[int64]).Len, Generic: true, HasRecv: true,
		Call: func(x int64, r int) int64 { return gts[r].Len() },
		Hook: func(h hookFn, recv, gen bool) interface{} {
			switch {
			case recv && gen:
				return func(i mockey.GenericInfo, g *Gt[int64]) int64 { ckInfo(i); return h(curX(28), g.id) }
			case recv:
				return func(g *Gt[int64]) int64 { return h(curX(28), g.id) }
			case gen:
				return func(i mockey.GenericInfo) int64 { ckInfo(i); return h(curX(28), -1) }
			}
			return func() int64 { return h(curX(28), -1) }
		},
		When: func(w whenFn, recv, gen bool) interface{} {
			switch {
			case recv && gen:
				return func(i mockey.GenericInfo, g *Gt[int64]) bool { ckInfo(i); return w(curX(28), g.id) }
			case recv:
				return func(g *Gt[int64]) bool { return w(curX(28), g.id) }
			case gen:
				return func(i mockey.GenericInfo) bool { ckInfo(i); return w(curX(28), -1) }
			}
			return func() bool { return w(curX(28), -1) }
		},
		Ret: func(v int64) []interface{} { return []interface{}{v} },
		Origin: func(recv bool) (interface{}, func(int64, int) int64) {
			if recv {
				f := (*Gt[int64]).Len
				return &f, func(x int64, r int) int64 { return f(gts[r]) }
			}
			var f func() int64
			return &f, func(x int64, _ int) int64 { return f() }
		}})
	add(&Target{Name: "G2[int64,string]", Fn: tG2[int64, string], Generic: true,
		Call: func(x int64, _ int) int64 { return decG2(tG2(x, str(x), float64(x))) },
		Hook: func(h hookFn, _, gen bool) interface{} {
			if gen {
				return func(g mockey.GenericInfo, x int64, s string, f float64) (string, float64, int64) {
					ckInfo(g)
					chk("G2 hook", unstr(s) == x && f == float64(x), x, s, f)
					return encG2(h(x, 0))
				}
			}
			return func(x int64, s string, f float64) (string, float64, int64) {
				chk("G2 hook", unstr(s) == x && f == float64(x), x, s, f)
				return encG2(h(x, 0))
			}
		},
		When: func(w whenFn, _, gen bool) interface{} {
			if gen {
				return func(g mockey.GenericInfo, x int64, s string, f float64) bool {
					ckInfo(g)
					chk("G2 when", unstr(s) == x && f == float64(x), x, s, f)
					return w(x, 0)
				}
			}
			return func(x int64, s string, f float64) bool {
				chk("G2 when", unstr(s) == x && f == float64(x), x, s, f)
				return w(x, 0)
			}
		},
		Ret: func(v int64) []interface{} { s, f, x := encG2(v); return []interface{}{s, f, x} },
		Origin: func(bool) (interface{}, func(int64, int) int64) {
			f := tG2[int64, string]
			return &f, func(x int64, _ int) int64 { return decG2(f(x, str(x), float64(x))) }
		}})
	add(&Target{Name: "GH[int64]", Fn: tGH[int64], Generic: true,
		Call: func(x int64, _ int) int64 { return tGH(x, x) },
		Hook: func(h hookFn, _, gen bool) interface{} {
			if gen {
				return func(g mockey.GenericInfo, v, x int64) int64 {
					ckInfo(g)
					chk("GH hook", v == x, v, x)
					return h(x, 0)
				}
			}
			return func(v, x int64) int64 { chk("GH hook", v == x, v, x); return h(x, 0) }
		},
		When: func(w whenFn, _, gen bool) interface{} {
			return func(v, x int64) bool { chk("GH when", v == x, v, x); return w(x, 0) }
		},
		Ret: func(v int64) []interface{} { return []interface{}{v} },
		Origin: func(bool) (interface{}, func(int64, int) int64) {
			f := tGH[int64]
			return &f, func(x int64, _ int) int64 { return f(x, x) }
		}})
	for _, t := range targets {
		t.Group = t.ID
	}
	targets[12].Group = 11
	for i, want := range []string{"F1", "F2", "FV", "F0", "Rv.Get", "(*Rp).Get", "Big", "Many", "If", "G[int64]", "G[string]", "P[*PA]", "P[*PB]", "(*Rp).Var", "(*Gt[int64]).Get", "Lit", "Err", "raw", "huge", "mid", "mid2", "EGet", "hidden", "nop", "mix", "short", "giant", "GN[string]", "(*Gt[int64]).Len"} {
		if targets[i].Name != want {
			panic("target order: " + want)
		}
	}
}

const (
	tRaw   = 17
	tHugeT = 18
)

func unManyR3(v int64, m float64, s string) int64 { return unManyR("Many result", v, m, s) }
func decIf2(v interface{}, p *int64) int64        { return decIf("If result", v, p) }
func decErr1(e error) int64 {
	if e == nil {
		return nilVal
	}
	if isPtrErr(e) {
		return tnilVal
	}
	var ve valErr
	if !errors.As(e, &ve) {
		badArgs("Err result", e)
	}
	return int64(ve)
}
