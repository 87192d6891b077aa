package main

import (
	"errors"
	"fmt"
	"reflect"

	"github.com/bytedance/mockey"

	"verifsim/rt"
)

// Var is a variable of the program under simulation with a shadow of what it
// must hold.
type Var struct {
	name   string
	ptr    interface{} // to the variable
	shadow reflect.Value
	real   reflect.Value
	mk     func(n int) interface{}
	typ    reflect.Type
	wrong  interface{}
}

// VarHandle is a variable mock and its model.
type VarHandle struct {
	slot    int
	v       *Var
	real    *mockey.MockerVar
	origin  reflect.Value
	val     reflect.Value
	isNil   bool
	inForce bool
	ever    bool
}

type vS struct {
	A int64
	B string
	C *int64
	D [3]int64
}

type vIface interface{ Do() int }
type vImpl int

func (v vImpl) Do() int { return int(v) }

type varSet struct {
	i   int64
	s   string
	st  vS
	any interface{}
	err error
	p   *int64
	sl  []int64
	fn  func() int64
	m   map[string]int64
	arr [4]int64
	ifc vIface
	b   bool
	pp  *vS
	nst struct {
		X  int64
		In struct {
			Y int64
			Z string
		}
	}
}

var realVars, shadowVars varSet
var vars []*Var

var ptrPool [8]int64
var fnPool [8]func() int64
var mapPool [8]map[string]int64
var errPool [8]error
var slicePool [8][]int64

func initVars() {
	for i := range ptrPool {
		i := i
		ptrPool[i] = int64(i)
		fnPool[i] = func() int64 { return int64(i) }
		mapPool[i] = map[string]int64{"k": int64(i)}
		slicePool[i] = []int64{int64(i), 2}
		errPool[i] = errors.New(fmt.Sprint("e", i))
	}
	addv := func(name string, f func(s *varSet) interface{}, wrong interface{}, mk func(n int) interface{}) {
		p := f(&realVars)
		q := f(&shadowVars)
		vars = append(vars, &Var{name: name, ptr: p, real: reflect.ValueOf(p).Elem(), shadow: reflect.ValueOf(q).Elem(), mk: mk, typ: reflect.TypeOf(p).Elem(), wrong: wrong})
	}
	addv("int", func(s *varSet) interface{} { return &s.i }, "x", func(n int) interface{} { return int64(n) })
	addv("string", func(s *varSet) interface{} { return &s.s }, 1, func(n int) interface{} { return fmt.Sprint("v", n) })
	addv("struct", func(s *varSet) interface{} { return &s.st }, 1, func(n int) interface{} {
		return vS{int64(n), fmt.Sprint("f", n), &ptrPool[n%8], [3]int64{int64(n), 1, 2}}
	})
	addv("struct.B", func(s *varSet) interface{} { return &s.st.B }, 1, func(n int) interface{} { return fmt.Sprint("B", n) })
	addv("struct.C", func(s *varSet) interface{} { return &s.st.C }, 1, func(n int) interface{} {
		if n%3 == 0 {
			return nil
		}
		return &ptrPool[n%8]
	})
	addv("struct.D[1]", func(s *varSet) interface{} { return &s.st.D[1] }, "x", func(n int) interface{} { return int64(100 + n) })
	addv("interface{}", func(s *varSet) interface{} { return &s.any }, nil, func(n int) interface{} {
		switch n % 4 {
		case 0:
			return nil
		case 1:
			return n
		case 2:
			return fmt.Sprint("a", n)
		}
		return vImpl(n)
	})
	addv("error", func(s *varSet) interface{} { return &s.err }, 1, func(n int) interface{} {
		if n%3 == 0 {
			return nil
		}
		return errPool[n%8]
	})
	addv("*int64", func(s *varSet) interface{} { return &s.p }, 1, func(n int) interface{} {
		if n%3 == 0 {
			return nil
		}
		return &ptrPool[n%8]
	})
	addv("[]int64", func(s *varSet) interface{} { return &s.sl }, 1, func(n int) interface{} {
		if n%3 == 0 {
			return nil
		}
		return slicePool[n%8]
	})
	addv("func", func(s *varSet) interface{} { return &s.fn }, 1, func(n int) interface{} {
		if n%3 == 0 {
			return nil
		}
		return fnPool[n%8]
	})
	addv("map", func(s *varSet) interface{} { return &s.m }, 1, func(n int) interface{} {
		if n%3 == 0 {
			return nil
		}
		return mapPool[n%8]
	})
	addv("array", func(s *varSet) interface{} { return &s.arr }, 1, func(n int) interface{} { return [4]int64{int64(n), 2, 3, int64(n)} })
	addv("array[2]", func(s *varSet) interface{} { return &s.arr[2] }, "x", func(n int) interface{} { return int64(1000 + n) })
	addv("iface", func(s *varSet) interface{} { return &s.ifc }, 1, func(n int) interface{} {
		if n%3 == 0 {
			return nil
		}
		return vImpl(n)
	})
	addv("bool", func(s *varSet) interface{} { return &s.b }, 1, func(n int) interface{} { return n%2 == 0 })
	addv("nested.In", func(s *varSet) interface{} { return &s.nst.In }, 1, func(n int) interface{} {
		return struct {
			Y int64
			Z string
		}{int64(n), fmt.Sprint("z", n)}
	})
	addv("nested.In.Z", func(s *varSet) interface{} { return &s.nst.In.Z }, 1, func(n int) interface{} { return fmt.Sprint("Z", n) })
	addv("nested", func(s *varSet) interface{} { return &s.nst }, 1, func(n int) interface{} {
		var x varSet
		x.nst.X, x.nst.In.Y, x.nst.In.Z = int64(n), int64(n+1), fmt.Sprint("n", n)
		return x.nst
	})
}

// value returns the nth value of the variable's type.
func (v *Var) value(n int) reflect.Value {
	x := v.mk(n)
	r := reflect.New(v.typ).Elem()
	if x != nil {
		r.Set(reflect.ValueOf(x))
	}
	return r
}

func same(a, b reflect.Value) bool {
	if a.Kind() != b.Kind() {
		return false
	}
	switch a.Kind() {
	case reflect.Func, reflect.Map, reflect.Ptr, reflect.Slice:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return a.Pointer() == b.Pointer()
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !same(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return reflect.DeepEqual(a.Interface(), b.Interface())
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

func checkVars(when string) {
	for _, v := range vars {
		if !same(v.real, v.shadow) {
			fail("variable", "%s: variable %s holds %v, must hold %v", when, v.name, v.real.Interface(), v.shadow.Interface())
		}
	}
}

func (h *VarHandle) shadowRestore() { h.v.shadow.Set(h.origin) }

func resetVars() {
	realVars, shadowVars = varSet{}, varSet{}
	for i, v := range vars {
		if i%2 == 0 || v.typ.Kind() == reflect.Struct {
			x := v.value(i + 40)
			v.real.Set(x)
			v.shadow.Set(x)
		}
	}
	for _, v := range vars { // overlapping ones agree
		v.shadow.Set(v.real)
	}
}

func runVarOp(op *Op) {
	v := vars[op.T%len(vars)]
	h := vhandles[op.M]
	switch op.K {
	case "vset": // the program assigns
		x := v.value(op.N)
		v.real.Set(x)
		v.shadow.Set(x)
	case "vmock":
		if top().has(v) || sameAddr(v) {
			return
		}
		h = &VarHandle{slot: op.M, v: v}
		h.origin = reflect.New(v.typ).Elem()
		h.origin.Set(v.shadow)
		x := v.mk(op.N)
		h.val = v.value(op.N)
		tr("vmock v%d %s", op.M, v.name)
		p := try(func() { h.real = mockey.MockValue(v.ptr) })
		if p != nil {
			unexpected("MockValue", p)
		}
		if op.X == "later" { // made now, given a value later
			vhandles[op.M] = h
			return
		}
		h.apply(func() { h.real.To(x) })
		vhandles[op.M] = h
	case "vto":
		if h == nil || h.inForce || top().has(h.v) || sameAddr(h.v) {
			return
		}
		x := h.v.mk(op.N)
		h.val = h.v.value(op.N)
		tr("vto v%d %s", op.M, h.v.name)
		h.apply(func() { h.real.To(x) })
	case "vpatch":
		if h == nil || !h.ever {
			return
		}
		if h.inForce {
			if p := try(func() { h.real.Patch() }); p != nil {
				unexpected("applying a variable mock in force", p)
			}
			break
		}
		if sameAddr(h.v) {
			return
		}
		if top().has(h.v) {
			refuse("applying a variable mock over one of the same scope", func() { h.real.Patch() })
			break
		}
		tr("vpatch v%d %s", op.M, h.v.name)
		h.apply(func() { h.real.Patch() })
	case "vunpatch":
		if h == nil {
			return
		}
		tr("vunpatch v%d %s", op.M, h.v.name)
		if p := try(func() { h.real.UnPatch() }); p != nil {
			unexpected("releasing a variable mock", p)
		}
		if h.inForce {
			h.inForce = false
			h.shadowRestore()
			deregister(h)
		}
	}
	checkVars("after " + op.K)
}

// sameAddr: a mock in the current scope has a variable starting at the same
// address (a struct and its first field), which the library refuses.
func sameAddr(v *Var) bool {
	for _, m := range top().list {
		if o, ok := m.(*VarHandle); ok && o.v != v && o.v.real.Addr().Pointer() == v.real.Addr().Pointer() {
			return true
		}
	}
	return false
}

func (h *VarHandle) apply(f func()) {
	if p := try(f); p != nil {
		unexpected("mocking variable "+h.v.name, p)
	}
	h.v.shadow.Set(h.val)
	h.inForce, h.ever = true, true
	top().list = append(top().list, h)
}

// concVar: several goroutines apply and release one variable mock.
func concVar(h *VarHandle, op *Op) {
	if !h.ever || sameAddr(h.v) {
		return
	}
	for _, m := range top().list {
		if o, ok := m.(*VarHandle); ok && o != h && o.v == h.v {
			return
		}
	}
	if h.inForce {
		found := false
		for _, m := range top().list {
			found = found || m == interface{}(h)
		}
		if !found {
			return
		}
	}
	join()
	for _, o := range vhandles {
		a, b := h.v.real.Addr().Pointer(), o.v.real.Addr().Pointer()
		if o.inForce && o.v != h.v && a < b+o.v.typ.Size() && b < a+h.v.typ.Size() {
			return // a part of the other one
		}
	}
	lifeLock()
	if !h.inForce { // start from the value the mock would restore
		h.v.real.Set(h.origin)
		h.v.shadow.Set(h.origin)
	}
	type vop struct {
		s, e int64
		in   bool
	}
	ops := []*vop{{-1, -1, h.inForce}}
	scoped := op.N == 1 && !h.inForce && !inRoot
	finish := inScope(scoped, func() {
		var ws []*rt.G
		for i := range op.Sub {
			sub := op.Sub[i].Sub
			ws = append(ws, rt.Spawn(fmt.Sprintf("cv%d", i), func() {
				for j := range sub {
					switch sub[j].K {
					case "cpatch", "cunpatch":
						o := &vop{tick(), inf, sub[j].K == "cpatch"}
						ops = append(ops, o)
						p := try(func() {
							if o.in {
								h.real.Patch()
							} else {
								h.real.UnPatch()
							}
						})
						if p != nil {
							unexpected("concurrent variable operation", p)
						}
						o.e = tick()
					default:
						if !same(h.v.real, h.val) && !same(h.v.real, h.origin) {
							fail("variable", "variable %s holds %v during concurrent mocking", h.v.name, h.v.real.Interface())
						}
					}
					rt.Y(-34)
				}
			}))
		}
		rt.Block("conc", func() bool {
			for _, w := range ws {
				if !w.Done {
					return false
				}
			}
			return true
		})
		ok := false
		for _, o := range ops {
			last := true
			for _, q := range ops {
				if q.s > o.e {
					last = false
				}
			}
			if last {
				want := h.origin
				if o.in {
					want = h.val
				}
				ok = ok || same(h.v.real, want)
			}
		}
		if !ok {
			fail("variable", "variable %s holds %v after concurrent mocking, which no order of the operations gives", h.v.name, h.v.real.Interface())
		}
	})
	if !scoped {
		finish = try(func() { h.real.UnPatch() })
	}
	if finish != nil {
		unexpected("final release of a variable mock", finish)
	}
	h.inForce = false
	h.shadowRestore()
	deregister(h)
	lifeUnlock()
	checkVars("after concurrent mocking")
}
