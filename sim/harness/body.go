package main

import (
	"fmt"
	"reflect"
	"runtime"
	"strconv"

	"verifsim/rt"
)

// call attributes
const (
	aOrigPanic = 1 << iota
	aOrigRec
	aOrigYield
	aOrigNest
	aOrigExit
	aHookExit
	aDeep
)

type pv struct{ v int64 }

// hookCtx is what the closures given to the library refer to. Nothing else
// refers to it, so it lives exactly as long as the library keeps it alive.
type hookCtx struct {
	canary [4]uint64
	t      int
	h      *Handle
	ovar   **originVar // read when used: reconfiguration may add an origin
	gen    int
}

const canaryV = 0xc0ffee0123456789

func newCtx(h *Handle) *hookCtx {
	c := &hookCtx{t: h.t.ID, h: h, ovar: &h.ovar}
	for i := range c.canary {
		c.canary[i] = canaryV + uint64(i)
	}
	return c
}

func (c *hookCtx) check() {
	for i := range c.canary {
		if c.canary[i] != canaryV+uint64(i) {
			fail("memory", "the closure of a hook in force has been overwritten")
		}
	}
}

func topRec() *Rec {
	g := gd()
	if len(g.stack) == 0 {
		return nil
	}
	return g.stack[len(g.stack)-1]
}

func curX(tid int) int64 {
	r := topRec()
	if r == nil || r.T != tid {
		fail("call", "%s runs although it was not called", targets[tid].Name)
	}
	return r.X
}

// recOf finds the call that x identifies and checks that it is the one in
// progress on this goroutine.
func recOf(where string, tid int, x int64, rid int) *Rec {
	r := topRec()
	if r == nil {
		fail("call", "%s of %s runs on goroutine %d although it called nothing", where, targets[tid].Name, rt.Cur().ID)
	}
	if r.X != x {
		fail("crosstalk", "%s of %s got the arguments of call %d during call %d (goroutine %d)", where, targets[tid].Name, x, r.X, rt.Cur().ID)
	}
	if targets[r.T].Group != targets[tid].Group {
		fail("call", "%s of %s runs for a call of %s", where, targets[tid].Name, targets[r.T].Name)
	}
	if rid >= 0 && targets[r.T].HasRecv && rid != r.Rid {
		fail("crosstalk", "%s of %s in call %d got receiver %d instead of %d", where, targets[tid].Name, x, rid, r.Rid)
	}
	return r
}

func origBody(tid int, x int64, rid int) int64 {
	if rt.Cur() == nil {
		return origVal(tid, x)
	}
	r := recOf("original", tid, x, rid)
	if r.T != tid {
		fail("crosstalk", "original %s ran for a call of %s", targets[tid].Name, targets[r.T].Name)
	}
	r.Ev = append(r.Ev, Ev{'o', tid, false})
	tr("x%d orig %s", x, targets[tid].Name)
	if r.attr&aOrigYield != 0 {
		rt.Y(-30)
	}
	sub := r.attr &^ (aOrigRec | aOrigNest | aOrigPanic | aOrigExit | aHookExit)
	if r.attr&aOrigRec != 0 && r.depth < 2 {
		doCall(tid, sub, nil, nil)
	}
	if r.attr&aOrigNest != 0 && r.depth < 2 {
		doCall((tid+1)%tRaw, sub, nil, nil)
	}
	if r.attr&aOrigYield != 0 {
		rt.Y(-30)
	}
	if r.attr&aOrigPanic != 0 {
		panic(pv{panicVal('o', tid, x)})
	}
	if r.attr&aOrigExit != 0 {
		r.gd.exiting = true
		runtime.Goexit()
	}
	return origVal(tid, x)
}

func (c *hookCtx) when(w *When, x int64, rid int) bool {
	c.check()
	r := recOf("predicate", c.t, x, rid)
	res := whenRes(w, x)
	r.Ev = append(r.Ev, Ev{'w', w.ID, res})
	tr("x%d when%d=%v", x, w.ID, res)
	c.steps(r, w.Steps)
	if whenPanics(w, x) {
		panic(pv{panicVal('w', w.ID, x)})
	}
	return res
}

func (c *hookCtx) hook(a *Act, x int64, rid int) int64 {
	c.check()
	r := recOf("hook", c.t, x, rid)
	r.Ev = append(r.Ev, Ev{'h', a.ID, false})
	tr("x%d hook%d", x, a.ID)
	r.origOut = ""
	c.steps(r, a.Steps)
	switch a.End {
	case "panic":
		panic(pv{panicVal('h', a.ID, x)})
	case "goexit":
		if r.attr&aHookExit != 0 {
			r.gd.exiting = true
			runtime.Goexit()
		}
	case "orig":
		switch r.origOut {
		case "val":
			return r.origRes
		case "panic":
			panic(pv{r.origRes})
		}
	}
	return hookVal(a.ID, x)
}

func (c *hookCtx) steps(r *Rec, steps []string) {
	for _, s := range steps {
		if rt.Step > 150000 && (s[0] == 'o' || s[0] == 'r' || s[0] == 'c') {
			continue // many nested mocks that call their originals many times
		}
		switch s[0] {
		case 'y':
			rt.Y(-30)
		case 'g':
			rt.GCNow()
		case 'o':
			c.callOrigin(r)
		case 'r':
			if r.depth < 2 {
				doCall(r.T, 0, nil, nil)
			}
		case 'c':
			if r.depth < 2 {
				t, _ := strconv.Atoi(s[1:])
				doCall(t, 0, nil, nil)
			}
		case 't':
			if c.h.real != nil {
				readTimes(c.h)
			}
		case 'u':
			if !lifeBusy && !c.h.conc && c.h.inForce && !c.h.limbo {
				lifeLock()
				if c.h.inForce && !c.h.limbo {
					opUnpatch(c.h, nil)
				}
				lifeUnlock()
				stat.SelfRelease++
			}
		}
	}
}

func (c *hookCtx) callOrigin(r *Rec) {
	ov := *c.ovar
	// the variable is set when a call enters under the configuration
	if ov == nil || r.depth > 4 || r.Start < c.h.ovarAt || reflect.ValueOf(ov.ptr).Elem().IsNil() {
		return
	}
	// without a receiver of its own the origin function gets this call's
	rid := r.Rid
	if !ov.noRecv {
		rid = (r.Rid + int(r.X)%2) % 4
	}
	at := r.attr & (aOrigPanic | aOrigRec | aOrigYield)
	o := doCallAs(r.T, at, rid, c.originOf(r, ov), ov.call)
	r.origOut, r.origRes = o.Out, o.Res
	stat.OriginCalls++
}

// originOf tells whose origin function the variable holds in call r: that of
// the mock which r has entered last. If the variable is shared and that can't
// be told it is left open.
func (c *hookCtx) originOf(r *Rec, ov *originVar) *Version {
	v := &Version{h: c.h, any: true}
	if len(ov.users) > 1 && !r.subs {
		v.any = false
		if h := runner(r, ov); h != nil {
			v = &Version{h: h, only: true}
		}
	}
	return v
}

// runner is the mock, among those sharing ov, whose hook or predicate runs in
// call r. They are configured alike, so it is the first one that r comes to.
func runner(r *Rec, ov *originVar) *Handle {
	g := groups[targets[r.T].Group]
	cs := g.cands(r.Start, tick())
	if len(cs) != 1 || len(ov.users) > 2 && r.origin != nil && !r.origin.only {
		return nil
	}
	s := cs[0].s
	i := len(s) - 1
	if r.origin != nil {
		if r.parent == nil || !r.origin.only {
			return nil
		}
		for i >= 0 && s[i].h != r.origin.h {
			i--
		}
		i--
	}
	for ; i >= 0; i-- {
		for _, u := range ov.users {
			if s[i].h == u {
				return u
			}
		}
	}
	return nil
}

func doCall(tid, attr int, origin *Version, call func(int64, int) int64) *Rec {
	return doCallAs(tid, attr, -1, origin, call)
}

// doCallAs makes one call and judges it.
func doCallAs(tid, attr, rid int, origin *Version, call func(int64, int) int64) *Rec {
	t := targets[tid]
	g := gd()
	r := &Rec{X: int64(len(recs) + 1), T: tid, G: rt.Cur(), gd: g, attr: attr, origin: origin, End: inf}
	recs = append(recs, r)
	r.Rid = int(r.X % 4)
	if rid >= 0 {
		r.Rid = rid
	}
	if n := len(g.stack); n > 0 {
		r.parent = g.stack[n-1]
		r.depth = r.parent.depth + 1
	}
	for _, a := range live { // their mocks may have been entered again
		if targets[a.T].Group == t.Group {
			a.subs = true
			r.subs = r.subs || a.gd != g
		}
	}
	g.stack = append(g.stack, r)
	live = append(live, r)
	r.Start = tick()
	tr("x%d call %s%s", r.X, t.Name, map[bool]string{true: " (origin)"}[origin != nil])
	if call == nil {
		call = t.Call
	}
	func() {
		r.Out = ""
		defer func() {
			if r.Out == "" {
				if p := recover(); p != nil {
					r.Out = "panic"
					if v, ok := p.(pv); ok {
						r.Res = v.v
					} else {
						r.Res = -999
						fail("call", "call %d of %s panicked: %v; observed %s", r.X, t.Name, p, obs(r))
					}
				} else if g.exiting {
					r.Out = "goexit"
				} else {
					fail("call", "call %d of %s ended the goroutine", r.X, t.Name)
				}
			}
			r.End = tick()
			tr("x%d done %s %s", r.X, r.Out, showVal(r.Res))
			if len(g.stack) == 0 || g.stack[len(g.stack)-1] != r {
				fail("harness", "call stack")
			}
			g.stack = g.stack[:len(g.stack)-1]
			for i, o := range live {
				if o == r {
					live = append(live[:i], live[i+1:]...)
					break
				}
			}
			stat.Calls++
			judge(r)
		}()
		r.Res = call(r.X, r.Rid)
		r.Out = "val"
	}()
	return r
}

var live []*Rec

// ---- counters

func readTimes(h *Handle) {
	if h.real == nil || h.limbo {
		return
	}
	g := groups[h.t.Group]
	s := tick()
	ep := h.epoch
	lo, lom := h.times.def, h.mocks.def
	lastT, lastM, lastEp := h.last[0], h.last[1], h.lastEp
	a := h.real.Times()
	hiA := h.times.def + h.times.maybe + h.inflight()
	b := h.real.MockTimes()
	e := tick()
	hiB := h.mocks.def + h.mocks.maybe + h.inflight()
	stat.Reads++
	inOp := false
	for _, o := range g.ops {
		if o.t0 <= e && o.t1 > s {
			inOp = true
		}
	}
	if inOp || h.epoch != ep || h.conc {
		// a call whose mock is released and applied again before it reaches
		// the original meets the mock twice
		if most := 8*len(recs) + 8; a < 0 || b < 0 || a > most || b > most {
			fail("count", "counters of mock m%d of %s: %d/%d", h.slot, h.t.Name, a, b)
		}
		return
	}
	if a < lo || a > hiA || b < lom || b > hiB {
		fail("count", "mock m%d of %s: Times=%d (allowed %d..%d) MockTimes=%d (allowed %d..%d)", h.slot, h.t.Name, a, lo, hiA, b, lom, hiB)
	}
	if lo == hiA {
		stat.ExactReads++
	}
	if lastEp == ep && (a < lastT || b < lastM) {
		fail("count", "mock m%d of %s: counters went back from %d/%d to %d/%d", h.slot, h.t.Name, lastT, lastM, a, b)
	}
	if h.lastEp != ep || a > h.last[0] {
		h.last[0] = a
	}
	if h.lastEp != ep || b > h.last[1] {
		h.last[1] = b
	}
	h.lastEp = ep
}

// inflight bounds how often calls in progress may count for h.
func (h *Handle) inflight() (n int) {
	now := tick()
	for _, r := range live {
		if targets[r.T].Group != h.t.Group {
			continue
		}
		for _, c := range groups[h.t.Group].cands(r.Start, now) {
			for _, v := range c.s {
				if v.h == h {
					n++
				}
			}
		}
	}
	return
}

// ---- sequences

type seqObj struct {
	real  interface{}
	t     int
	times []int
	nils  bool
	lax   bool // something else may have answered with the same value
	hist  []seqRec
}

type seqRec struct {
	s, e int64
	i    int
}

var seqs map[int]*seqObj

// A sequence is shared by the mocks of one function only.
func seqKey(id int, t *Target) int { return id*64 + t.Group }

func seqHasNil(id int, t *Target) bool {
	q := seqs[seqKey(id, t)]
	return q != nil && q.nils
}

func seqAnswered(id int, r *Rec) {
	q := seqs[seqKey(id, targets[r.T])]
	i := int(r.Res & 0xffff)
	if r.Res == nilVal {
		i = len(q.times) - 1
	}
	q.hist = append(q.hist, seqRec{r.Start, r.End, i})
}

// seqCheck decides whether the answers are those of one order of the calls:
// position by position, the earliest-ending call that got this position's
// value and that no unplaced call precedes.
func seqCheck() {
	for id, q := range seqs {
		if q.lax {
			q.hist = nil
			continue
		}
		var order []int
		for i, n := range q.times {
			for ; n > 0; n-- {
				order = append(order, i)
			}
		}
		left := append([]seqRec(nil), q.hist...)
		stat.SeqAnswers += int64(len(left))
		for p := 0; len(left) > 0; p++ {
			want := order[p%len(order)]
			minEnd := inf
			for _, r := range left {
				if r.e < minEnd {
					minEnd = r.e
				}
			}
			best := -1
			for i, r := range left {
				if r.i == want && r.s <= minEnd && (best < 0 || r.e < left[best].e) {
					best = i
				}
			}
			if best < 0 {
				h := ""
				for _, r := range q.hist {
					h += fmt.Sprintf(" [%d,%d]=%d", r.s, r.e, r.i)
				}
				fail("sequence", "sequence %d (%v): no call can have received value %d at position %d; calls:%s", id, q.times, want, p, h)
			}
			left = append(left[:best], left[best+1:]...)
		}
		q.hist = nil
	}
}

var _ = reflect.ValueOf
