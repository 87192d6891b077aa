package main

import (
	"fmt"
	"reflect"
	"runtime"
	"syscall"

	"github.com/bytedance/mockey"
	"github.com/smartystreets/goconvey/convey"

	"verifsim/rt"
)

type realMocker = *mockey.Mocker

type statT struct {
	Calls, OriginCalls, Overlaps, Reads, ExactReads, SeqAnswers  int64
	Ops, Scopes, Refused, FaultOps, FaultFired, SelfRelease      int64
	Resolved, Audits, Remocks, KeptOrigins, Deep, GCOps, Retried int64
	Kinds                                                        map[string]int64
}

var stat = statT{Kinds: map[string]int64{}}

var (
	handles  map[int]*Handle
	vhandles map[int]*VarHandle
	lifeBusy bool
	pending  *exitOp
	workers  []*rt.G
	plan     *Plan
	gidOf    map[int]int64 // worker number -> goroutine id
	convErr  string
	debugOps bool
)

func lifeLock() {
	rt.Block("harness lifecycle lock", func() bool {
		if lifeBusy {
			return false
		}
		lifeBusy = true
		return true
	})
}
func lifeUnlock() { lifeBusy = false }

// try runs f and returns the value it panicked with.
func try(f func()) (p interface{}) {
	ok := false
	defer func() {
		if !ok {
			p = recover()
			if p == nil {
				p = "goroutine exit"
			}
		}
	}()
	f()
	ok = true
	return nil
}

func top() *Scope { return scopes[len(scopes)-1] }

func (s *Scope) has(key interface{}) bool {
	for _, m := range s.list {
		switch h := m.(type) {
		case *Handle:
			if k, ok := key.(*Target); ok && h.t == k {
				return true
			}
		case *VarHandle:
			if k, ok := key.(*Var); ok && h.v == k {
				return true
			}
		}
	}
	return false
}

func (s *Scope) remove(m interface{}) {
	for i, o := range s.list {
		if o == m {
			s.list = append(s.list[:i], s.list[i+1:]...)
			return
		}
	}
}

func deregister(m interface{}) {
	for _, s := range scopes {
		s.remove(m)
	}
}

func anywhere(key interface{}) bool {
	for _, s := range scopes {
		if s.has(key) {
			return true
		}
	}
	return false
}

// retry decides whether an operation that failed is done again.
func retry(op *Op) bool {
	if op == nil || (op.E+op.F+op.N)%3 == 0 {
		return false
	}
	stat.Retried++
	return true
}

func arm(op *Op) {
	if op != nil && op.F > 0 {
		stat.FaultOps++
		rt.ArmFault(op.F, syscall.Errno(op.E), op.S)
	} else {
		rt.ArmFault(0, 0, false)
	}
}

// ---- building

func fgOf(n int) int64 {
	switch {
	case n == 0:
		return gd().gid
	case n > 0 && n < 100: // a worker, perhaps not started
		if id, ok := gidOf[n]; ok {
			return id
		}
		return 1 << 40
	case n == 100:
		return 0
	case n == 101:
		return -1
	case n >= 110: // a neighbour of the caller's id
		return gd().gid ^ 1<<uint(n-110)
	}
	return 1 << 41
}

func filterType(s string) mockey.FilterGoroutineType {
	switch s {
	case "inc":
		return mockey.Include
	case "exc":
		return mockey.Exclude
	}
	return mockey.Disable
}

func getSeq(id int, t *Target) *seqObj {
	q := seqs[seqKey(id, t)]
	if q == nil {
		q = &seqObj{t: t.ID}
		n, most := 1+id%3, 3
		switch h := uint32(id) * 2654435761 >> 20; {
		case h%6 == 0: // the same value always
			n = 0
		case h%6 == 1:
			n, most = int(h/6%12), 9
		case h%24 == 2:
			most = 40
		}
		for i := 0; i <= n; i++ {
			q.times = append(q.times, 1+(id>>uint(2+i)^i*5)%most)
		}
		q.nils = (t.ID == 1 || t.ID == 8 || t.ID == 16) && id%2 == 1
		vals := func(i int) []interface{} {
			if q.nils && i == len(q.times)-1 {
				return t.Ret(nilVal)
			}
			return t.Ret(seqVal(id, i))
		}
		s := mockey.Sequence(vals(0)...)
		if q.times[0] > 1 || id%5 == 0 {
			if id%7 == 0 {
				s = s.Times(9) // the last number counts
			}
			s = s.Times(q.times[0])
		}
		for i := 1; i < len(q.times); i++ {
			s = s.Then(vals(i)...)
			if q.times[i] > 1 || id%5 == 0 {
				s = s.Times(q.times[i])
			}
		}
		q.real = s
		seqs[seqKey(id, t)] = q
	}
	return q
}

func (c *hookCtx) whenFn(w *When) interface{} {
	t := targets[c.t]
	return t.When(func(x int64, rid int) bool { return c.when(w, x, rid) }, w.Recv, w.Gen && t.Generic)
}

func (c *hookCtx) hookFn(a *Act) interface{} {
	t := targets[c.t]
	return t.Hook(func(x int64, rid int) int64 { return c.hook(a, x, rid) }, a.Recv, a.Gen && t.Generic)
}

func retVals(a *Act, t *Target) []interface{} {
	switch a.Kind {
	case "ret":
		return t.Ret(retVal(a.ID))
	case "nil":
		return t.Ret(nilOf(a))
	case "seq":
		return []interface{}{getSeq(a.Seq, t).real}
	}
	panic("retVals")
}

func newOVar(t *Target, mode int) *originVar {
	recv := !(mode == 2 && t.HasRecv)
	p, call := t.Origin(recv)
	return &originVar{ptr: p, call: call, noRecv: !recv, init: reflect.ValueOf(p).Elem().Pointer()}
}

func newBuilder(t *Target, variant int) *mockey.MockBuilder {
	var b *mockey.MockBuilder
	switch {
	case t.Generic && variant%2 == 0:
		b = mockey.MockGeneric(t.Fn)
	case t.Generic:
		b = mockey.Mock(t.Fn, mockey.OptGeneric)
	case variant%5 == 4 || t.Unsafe:
		b = mockey.MockUnsafe(t.Fn)
	default:
		b = mockey.Mock(t.Fn)
	}
	return b
}

func setFilter(b *mockey.MockBuilder, c *Conf, id int64) {
	switch {
	case c.Filter == "inc" && c.FG == 0:
		b.IncludeCurrentGoRoutine()
	case c.Filter == "exc" && c.FG == 0:
		b.ExcludeCurrentGoRoutine()
	case c.Filter != "":
		b.FilterGoRoutine(filterType(c.Filter), id)
	}
}

func applyConds(b *mockey.MockBuilder, ctx *hookCtx, c *Conf) {
	for i := range c.Conds {
		d := &c.Conds[i]
		set := func() {
			if d.A == nil {
				return
			}
			if d.A.Kind == "hook" {
				b.To(ctx.hookFn(d.A))
			} else {
				b.Return(retVals(d.A, targets[ctx.t])...)
			}
		}
		if d.A != nil && d.A.ID%4 == 3 {
			set()
			if d.W != nil {
				b.When(ctx.whenFn(d.W))
			}
		} else {
			if d.W != nil {
				b.When(ctx.whenFn(d.W))
			}
			set()
		}
	}
}

func (h *Handle) newVersion() *Version {
	h.nver++
	h.useOVar()
	h.ver = &Version{h: h, conf: h.conf, gid: h.gid, ovar: h.ovar, n: h.nver}
	return h.ver
}

func (h *Handle) useOVar() {
	if h.ovar == nil {
		return
	}
	for _, u := range h.ovar.users {
		if u == h {
			return
		}
	}
	h.ovar.users = append(h.ovar.users, h)
}

func (h *Handle) mark() {
	h.atOp = [2]int{h.times.def + h.times.maybe, h.mocks.def + h.mocks.maybe}
}

func (h *Handle) resetCounts() {
	// calls that ended during the operation may have been counted after it
	// had reset the counters
	h.times = counts{0, h.times.def + h.times.maybe - h.atOp[0]}
	h.mocks = counts{0, h.mocks.def + h.mocks.maybe - h.atOp[1]}
	h.mark()
	h.epoch = tick()
	h.last, h.lastEp = [2]int{}, 0
}

// cap3 gives the possible states during an operation and sets its outcome.
func startOp(h *Handle, after state, mids ...state) (*Group, *opRec) {
	g := groups[h.t.Group]
	o := g.begin()
	h.mark()
	o.mids = append(mids, g.cur)
	o.fins = []state{after}
	g.cur = after
	return g, o
}

func unexpected(what string, p interface{}) {
	fail("panic", "%s panicked: %v", what, p)
}

// build makes and applies a mock.
func opBuild(op *Op, old *Handle) {
	t := targets[op.T]
	if old != nil {
		t = old.t
	}
	settle(t)
	h := &Handle{slot: op.M, t: t, conf: op.C}
	if old != nil { // rebuild from a released handle's builder
		h.t, t = old.t, old.t
		h.conf = &Conf{Conds: op.C.Conds, Filter: old.conf.Filter, FG: old.conf.FG, Origin: old.conf.Origin}
		h.gid, h.ovar = old.gid, old.ovar
	}
	if old == nil && top().has(t) || old != nil && old.inForce == false && top().has(t) {
		stat.Kinds["skip"]++
		return
	}
	var g *Group
	var o *opRec
	ctx := newCtx(h)
	if old == nil {
		h.gid = fgOf(h.conf.FG)
		if h.conf.Origin > 0 {
			h.ovar = newOVar(t, h.conf.Origin)
		}
	}
	v := h.newVersion()
	g = groups[t.Group]
	before := g.cur
	if old != nil {
		before = g.cur.without(old)
		if old.inForce && topOther(old) {
			stat.Kinds["skip"]++
			return
		}
	}
	tr("build m%d %s over%s", h.slot, t.Name, stateStr([]*cand{{s: before}}))
	_, o = startOp(h, before.with(v), before)
	if old != nil {
		old.mark()
	}
	arm(op)
	var b *mockey.MockBuilder
	do := func() {
		if old != nil {
			b = old.real.Release()
		} else {
			b = newBuilder(t, op.N)
		}
		first := h.conf.FirstO
		fo := func() {
			if old == nil {
				setFilter(b, h.conf, h.gid)
				if h.ovar != nil {
					b.Origin(h.ovar.ptr)
				}
			}
		}
		if first {
			fo()
		}
		applyConds(b, ctx, h.conf)
		if !first {
			fo()
		}
		h.builder = b
		h.real = b.Build()
	}
	p := try(do)
	_, fired := rt.Disarm()
	again := false
	if p != nil && fired > 0 && retry(op) {
		stat.FaultFired++
		o.mids = append(o.mids, before.with(v))
		again = true
		if b == nil { // the release failed
			p = try(do)
		} else {
			p = try(func() { h.real = b.Build() })
		}
		fired = 0
	}
	if p != nil {
		if fired == 0 {
			unexpected(map[bool]string{false: "building a mock of ", true: "building again after a failure a mock of "}[again]+t.Name, p)
		}
		stat.FaultFired++
		if old != nil {
			// which of release and build failed is not observable here: finish the release
			o.mids = append(o.mids, before.with(v))
			if q := try(func() { old.real.UnPatch() }); q != nil {
				unexpected("releasing after a failed rebuild", q)
			}
			deregister(old)
			old.inForce = false
			old.resetCounts()
			delete(handles, old.slot)
		}
		o.mids = append(o.mids, before.with(v))
		o.fins = []state{before}
		g.cur = before
		g.end(o)
		return
	}
	if old != nil {
		deregister(old)
		old.inForce = false
		old.resetCounts()
	}
	h.inForce = true
	h.scope = top()
	h.scope.list = append(h.scope.list, h)
	handles[h.slot] = h
	g.end(o)
	h.resetCounts()
	if op.X == "drop" { // keep nothing
		h.real, h.builder = nil, nil
	}
}

// opAgain builds another mock from the builder of one that has been built.
func opAgain(old *Handle, op *Op) {
	settle(old.t)
	t := old.t
	if top().has(t) {
		if !old.limbo {
			refuse("building a builder again in one scope", func() { old.builder.Build() })
		}
		return
	}
	if x := handles[op.N]; x == old || x != nil && x.limbo {
		return
	}
	old.shared = true
	h := &Handle{slot: op.N, t: t, conf: old.conf, gid: old.gid, ovar: old.ovar, shared: true, builder: old.builder}
	v := h.newVersion()
	g := groups[t.Group]
	before := g.cur
	tr("again m%d from m%d", h.slot, old.slot)
	_, o := startOp(h, before.with(v), before)
	arm(op)
	p := try(func() { h.real = old.builder.Build() })
	_, fired := rt.Disarm()
	if p != nil {
		if fired == 0 {
			unexpected("building a builder of "+t.Name+" again", p)
		}
		stat.FaultFired++
		o.mids = append(o.mids, before.with(v))
		if !retry(op) {
			o.fins = []state{before}
			g.cur = before
			g.end(o)
			return
		}
		if q := try(func() { h.real = old.builder.Build() }); q != nil {
			unexpected("building again after a failed build", q)
		}
	}
	h.inForce = true
	h.scope = top()
	h.scope.list = append(h.scope.list, h)
	handles[h.slot] = h
	g.end(o)
	h.resetCounts()
}

// topOther: another mock registered in the current scope has this one's key.
func topOther(h *Handle) bool {
	for _, m := range top().list {
		if o, ok := m.(*Handle); ok && o != h && o.t == h.t {
			return true
		}
	}
	return false
}

func opPatch(h *Handle, op *Op) {
	settle(h.t)
	if h.inForce {
		tr("patch (in force) m%d", h.slot)
		if p := try(func() { h.real.Patch() }); p != nil {
			unexpected("applying a mock in force", p)
		}
		return
	}
	if top().has(h.t) {
		refuse("apply m over a mock of the same scope", func() { h.real.Patch() })
		return
	}
	v := h.newVersion()
	g := groups[h.t.Group]
	before := g.cur
	tr("patch m%d", h.slot)
	_, o := startOp(h, before.with(v), before)
	arm(op)
	p := try(func() { h.real.Patch() })
	_, fired := rt.Disarm()
	if p != nil {
		if fired == 0 {
			unexpected("applying a mock of "+h.t.Name, p)
		}
		stat.FaultFired++
		o.mids = append(o.mids, before.with(v))
		if !retry(op) {
			o.fins = []state{before}
			g.cur = before
			g.end(o)
			return
		}
		if q := try(func() { h.real.Patch() }); q != nil {
			unexpected("applying again after a failed apply", q)
		}
	}
	h.inForce = true
	h.scope = top()
	h.scope.list = append(h.scope.list, h)
	g.end(o)
	h.atOp = [2]int{} // applying resets nothing
	h.resetCounts()
}

var limbos []*Handle // released, but the release failed half way

// settle finishes the failed releases of mocks of a function that is about to
// be mocked.
func settle(t *Target) {
	ls := limbos
	limbos = nil
	for _, h := range ls {
		if !h.limbo {
			continue
		}
		if groups[h.t.Group] != groups[t.Group] {
			limbos = append(limbos, h)
			continue
		}
		h.limbo = false
		opUnpatch(h, nil)
		stat.Resolved++
	}
}

func opUnpatch(h *Handle, op *Op) {
	if !h.inForce {
		if p := try(func() { h.real.UnPatch() }); p != nil {
			unexpected("releasing a released mock", p)
		}
		return
	}
	if op != nil && !h.limbo {
		settle(h.t)
	}
	g := groups[h.t.Group]
	before := g.cur
	after := before.without(h)
	tr("unpatch m%d", h.slot)
	_, o := startOp(h, after)
	arm(op)
	p := try(func() { h.real.UnPatch() })
	_, fired := rt.Disarm()
	if p != nil {
		if fired == 0 {
			unexpected("releasing a mock of "+h.t.Name, p)
		}
		stat.FaultFired++
		keptCounts(h, before, "releasing")
		if op != nil && op.N%2 == 0 && h.scope != nil && !h.limbo {
			// leave it to the end of its scope
			o.fins = []state{before, after}
			h.limbo = true
			limbos = append(limbos, h)
			g.end(o)
			return
		}
		if q := try(func() { h.real.UnPatch() }); q != nil {
			unexpected("releasing again after a failed release", q)
		}
		stat.Resolved++
	}
	h.inForce, h.limbo = false, false
	deregister(h)
	g.end(o)
	h.resetCounts()
}

// keptCounts: a mock left in force by a failed operation has counted what it
// had counted before.
func keptCounts(h *Handle, before state, what string) {
	if len(before) != 1 || before[0].h != h || h.conc || !codeChanged(h.t) {
		return
	}
	if a, b := h.real.Times(), h.real.MockTimes(); a < h.times.def || b < h.mocks.def {
		fail("count", "after %s m%d of %s failed, it is in force and has Times=%d (at least %d) MockTimes=%d (at least %d)", what, h.slot, h.t.Name, a, h.times.def, b, h.mocks.def)
	}
}

// refuse runs something that must panic and change nothing.
func refuse(what string, f func()) {
	tr("refuse: %s", what)
	stat.Refused++
	rt.ArmFault(0, 0, false)
	p := try(f)
	rt.Disarm()
	if p == nil {
		fail("refusal", "%s was accepted", what)
	}
	if e, ok := p.(runtime.Error); ok && false {
		fail("refusal", "%s: %v", what, e)
	}
}

// opReconf changes a handle's configuration, which applies it.
func opReconf(h *Handle, op *Op) {
	t := h.t
	one := len(h.conf.Conds) <= 1
	if h.limbo || h.shared {
		return
	}
	settle(t)
	// other mocks of the same function applied in the current scope make
	// applying it a re-mock; a mock of an enclosing scope would move
	if !topOther(h) && h.inForce && h.scope != top() {
		stat.Kinds["skip"]++
		return
	}
	nc := &Conf{Filter: h.conf.Filter, FG: h.conf.FG, Origin: h.conf.Origin, Conds: append([]Cond(nil), h.conf.Conds...)}
	if len(nc.Conds) == 0 {
		nc.Conds = []Cond{{}}
	}
	gid, ov := h.gid, h.ovar
	var d *Cond

	if op.C != nil && len(op.C.Conds) > 0 {
		d = &op.C.Conds[0]
	}
	ctx := newCtx(h)
	var do func()
	switch op.X {
	case "to", "ret":
		if d == nil || d.A == nil {
			return
		}
		a := d.A
		do = func() {
			if a.Kind == "hook" {
				h.real.To(ctx.hookFn(a))
			} else {
				h.real.Return(retVals(a, t)...)
			}
		}
		if !one {
			refuse("changing the hook of a mock with several conditions", do)
			return
		}
		nc.Conds[0].A = a
	case "when":
		if d == nil || d.W == nil {
			return
		}
		do = func() { h.real.When(ctx.whenFn(d.W)) }
		if !one {
			refuse("changing the predicate of a mock with several conditions", do)
			return
		}
		nc.Conds[0].W = d.W
	case "filter":
		c := op.C
		nc.Filter, nc.FG = c.Filter, c.FG
		gid = fgOf(c.FG)
		switch {
		case c.FG == 0 && c.Filter == "inc":
			do = func() { h.real.IncludeCurrentGoRoutine() }
		case c.FG == 0 && c.Filter == "exc":
			do = func() { h.real.ExcludeCurrentGoRoutine() }
		default:
			do = func() { h.real.FilterGoRoutine(filterType(c.Filter), gid) }
		}
	case "origin":
		mode := 1
		if op.C != nil && op.C.Origin > 0 {
			mode = op.C.Origin
		}
		nc.Origin = mode
		ov = newOVar(t, mode)
		do = func() { h.real.Origin(ov.ptr) }
	default:
		return
	}
	if topOther(h) {
		refuse("reconfiguring a mock of a function mocked again in the scope", do)
		return
	}
	oldConf, oldGid, oldOv, oldAt := h.conf, h.gid, h.ovar, h.ovarAt
	g := groups[t.Group]
	before := g.cur
	without := before.without(h)
	h.conf, h.gid, h.ovar = nc, gid, ov
	if ov != oldOv {
		h.ovarAt = inf // calls that begin during the operation may miss it
	}
	v := h.newVersion()
	was := h.inForce
	tr("reconf %s m%d", op.X, h.slot)
	_, o := startOp(h, without.with(v), without)
	arm(op)
	p := try(do)
	_, fired := rt.Disarm()
	if !was {
		h.atOp = [2]int{} // nothing to release, which resets nothing
	}
	if p != nil {
		if fired == 0 {
			unexpected("reconfiguring a mock of "+t.Name, p)
		}
		stat.FaultFired++
		o.mids = append(o.mids, without.with(v))
		if was {
			keptCounts(h, before, "reconfiguring")
		}
		if !retry(op) {
			// in force as before, or not at all
			h.conf, h.gid, h.ovar, h.ovarAt = oldConf, oldGid, oldOv, oldAt
			g.cur = without
			if was && op.N%2 == 0 {
				h.limbo = true
				limbos = append(limbos, h)
				o.fins = []state{before, without}
				g.end(o)
				return
			}
			if q := try(func() { h.real.UnPatch() }); q != nil {
				unexpected("releasing after a failed reconfiguration", q)
			}
			stat.Resolved++
			o.fins = []state{without}
			if was {
				deregister(h)
			}
			h.inForce = false
			g.end(o)
			h.resetCounts()
			return
		}
		if q := try(do); q != nil {
			unexpected("reconfiguring again after a failed reconfiguration", q)
		}
	}
	deregister(h)
	h.inForce = true
	h.scope = top()
	h.scope.list = append(h.scope.list, h)
	g.end(o)
	h.resetCounts()
	if h.ovarAt == inf {
		h.ovarAt = tick()
	}
}

// opMisuse does something that must be refused.
func opMisuse(op *Op) {
	t := targets[op.T]
	h := handles[op.M]
	bad := func(ch chan bool) (chan int, chan int, chan int, chan int) { return nil, nil, nil, nil }
	switch op.X {
	case "remock":
		for i := len(top().list) - 1; i >= 0; i-- {
			if o, ok := top().list[i].(*Handle); ok && !o.limbo {
				tmp := &Handle{slot: 900, t: o.t, conf: op.C}
				ctx := newCtx(tmp)
				refuse("mocking "+o.t.Name+" again in one scope", func() {
					b := newBuilder(o.t, 0)
					b.To(ctx.hookFn(&Act{ID: 999, Kind: "hook"})).Build()
				})
				return
			}
		}
	case "remockvar":
		for _, m := range top().list {
			if o, ok := m.(*VarHandle); ok {
				refuse("mocking variable again in one scope", func() {
					mockey.MockValue(o.v.ptr).To(o.v.value(op.N + 1).Interface())
				})
				return
			}
		}
	case "badto":
		refuse("a hook of another type", func() { newBuilder(t, 0).To(bad).Build() })
	case "badwhen":
		refuse("a predicate of another type", func() { newBuilder(t, 0).When(func(chan bool) bool { return true }).To(bad).Build() })
	case "badwhenout":
		refuse("a predicate without bool", func() { newBuilder(t, 0).When(func() int { return 1 }).Build() })
	case "rewhen":
		refuse("a second predicate", func() {
			w := &When{ID: 998}
			ctx := newCtx(&Handle{slot: 900, t: t})
			newBuilder(t, 0).When(ctx.whenFn(w)).When(ctx.whenFn(w)).Build()
		})
	case "badorigin":
		if top().has(t) {
			return
		}
		refuse("an origin of another type", func() {
			var f func(chan bool, chan bool, chan bool, chan int) chan bool
			newBuilder(t, 0).Origin(&f).Build()
		})
	case "short":
		refuse("a function too short to patch", func() { mockey.Mock(tShort).To(func() {}).Build() })
	case "notfunc":
		refuse("mocking something that is not a function", func() { mockey.Mock(5) })
	case "seqbad":
		refuse("a sequence value repeated zero times", func() { mockey.Sequence(1).Times(0) })
	case "varbad":
		vh := op.T % len(vars)
		if top().has(vars[vh]) || vars[vh].wrong == nil {
			return
		}
		refuse("a variable mock of another type", func() { mockey.MockValue(vars[vh].ptr).To(vars[vh].wrong) })
	case "reto", "rewhenbad", "reorigin":
		if h == nil || h.real == nil || h.limbo || topOther(h) || h.inForce && h.scope != top() {
			return
		}
		var f func(chan bool, chan bool, chan bool, chan int) chan bool
		do := map[string]func(){
			"reto":      func() { h.real.To(bad) },
			"rewhenbad": func() { h.real.When(func(chan bool, chan bool, chan int) bool { return true }) },
			"reorigin":  func() { h.real.Origin(&f) },
		}[op.X]
		refuse("reconfiguring "+h.t.Name+" with another type ("+op.X+")", do)
	case "vtobad":
		v := vhandles[op.M]
		if v == nil || v.v.wrong == nil {
			return
		}
		refuse("giving a variable mock a value of another type", func() { v.real.To(v.v.wrong) })
	case "rehook":
		ctx := newCtx(&Handle{slot: 900, t: t})
		b := newBuilder(t, op.N)
		refuse("a second hook", func() {
			b.To(ctx.hookFn(&Act{ID: 999, Kind: "hook"}))
			b.Return(t.Ret(retVal(999))...)
		})
	case "reoriginb":
		p, _ := t.Origin(true)
		refuse("a second origin", func() { newBuilder(t, op.N).Origin(p).Origin(p) })
	case "originval":
		refuse("an origin that is no pointer", func() { newBuilder(t, op.N).Origin(t.Fn) })
	case "originint":
		if top().has(t) {
			return
		}
		i := 5
		refuse("an origin that points to no function", func() { newBuilder(t, op.N).Origin(&i).Build() })
	case "varnotptr":
		refuse("mocking a value as a variable", func() { mockey.MockValue(op.N) })
	case "near":
		typ := nearMiss(t, op.N%3, op.A)
		if typ == nil || top().has(t) {
			return
		}
		switch op.N % 3 {
		case 0:
			refuse(fmt.Sprintf("a hook of %s of type %v", t.Name, typ), func() { newBuilder(t, op.E).To(reflect.Zero(typ).Interface()).Build() })
		case 1:
			refuse(fmt.Sprintf("a predicate of %s of type %v", t.Name, typ), func() { newBuilder(t, op.E).When(reflect.Zero(typ).Interface()).Build() })
		case 2:
			refuse(fmt.Sprintf("an origin of %s of type %v", t.Name, typ), func() { newBuilder(t, op.E).Origin(reflect.New(typ).Interface()).Build() })
		}
	case "renear":
		if h == nil || h.real == nil || h.limbo || topOther(h) || h.inForce && h.scope != top() {
			return
		}
		typ := nearMiss(h.t, op.N%3, op.A)
		if typ == nil {
			return
		}
		refuse(fmt.Sprintf("reconfiguring %s with type %v", h.t.Name, typ), func() {
			switch op.N % 3 {
			case 0:
				h.real.To(reflect.Zero(typ).Interface())
			case 1:
				h.real.When(reflect.Zero(typ).Interface())
			case 2:
				h.real.Origin(reflect.New(typ).Interface())
			}
		})
	case "hookint":
		refuse("a hook that is no function", func() { newBuilder(t, op.N).To(7).Build() })
	}
}

var genericInfo = reflect.TypeOf(mockey.GenericInfo(0))

// nearMiss is a type almost right for a hook (what 0), a predicate (1) or an
// origin (2) of a target; nil if it would be right.
func nearMiss(t *Target, what, n int) reflect.Type {
	typ := reflect.TypeOf(t.Fn)
	var in, out []reflect.Type
	for i := 0; i < typ.NumIn(); i++ {
		in = append(in, typ.In(i))
	}
	for i := 0; i < typ.NumOut(); i++ {
		out = append(out, typ.Out(i))
	}
	if what == 1 {
		out = []reflect.Type{reflect.TypeOf(true)}
	}
	variadic := typ.IsVariadic()
	other := reflect.TypeOf(make(chan bool))
	if n/8%2 == 1 && len(in) > 0 { // without the first
		in = in[1:]
		if len(in) == 0 {
			variadic = false
		}
	}
	switch k := n % 8; {
	case k == 0 && len(in) > 0 && in[len(in)-1].Kind() == reflect.Slice:
		variadic = !variadic
	case k <= 1:
		in, variadic = append(in, reflect.SliceOf(other)), true
	case k == 2 && len(in) > 0:
		if i := n / 16 % len(in); !variadic || i < len(in)-1 {
			in[i] = other
		}
	case k == 3:
		in, variadic = append(in, other), false
	case k == 4 && len(in) > 1:
		in = in[1:]
	case k == 5 && len(in) > 1:
		in, variadic = in[:len(in)-1], false
	case k == 6:
		if what != 2 && t.Generic {
			in = append([]reflect.Type{genericInfo}, in...)
		}
		in = append([]reflect.Type{genericInfo}, in...)
	case k == 7 && len(in) > 1:
		if i := n / 16 % (len(in) - 1); !variadic || i+1 < len(in)-1 {
			in[i], in[i+1] = in[i+1], in[i]
		}
	}
	f := reflect.FuncOf(in, out, variadic)
	if f.IsVariadic() != typ.IsVariadic() {
		return f
	}
	shift := 0
	if what != 2 && t.Generic && len(in) > 0 && in[0] == genericInfo {
		shift = 1
	}
	for skip := 0; skip < 2; skip++ { // with and without the receiver
		if typ.NumIn()-skip != len(in)-shift {
			continue
		}
		same := true
		for i := skip; i < typ.NumIn(); i++ {
			same = same && typ.In(i) == in[i-skip+shift]
		}
		if same {
			return nil
		}
	}
	return f
}

// ---- scopes

type exitOp struct {
	sc   *Scope
	list []interface{}
	ops  []*opRec
	grps []*Group
	mids map[*Group][]state
	hs   []*Handle
}

var tstub stubT

type stubT struct{}

func (stubT) Fail() {}

func enterScope(name string) *Scope {
	finishExit()
	sc := &Scope{name: name}
	scopes = append(scopes, sc)
	tr("enter %s", name)
	stat.Scopes++
	if lifeBusy {
		lifeUnlock()
	}
	return sc
}

// releaseSet starts the release of everything in list, in whatever order.
func startRelease(sc *Scope) *exitOp {
	x := &exitOp{sc: sc, list: append([]interface{}(nil), sc.list...)}
	per := map[*Group][]*Handle{}
	for _, m := range x.list {
		if h, ok := m.(*Handle); ok {
			g := groups[h.t.Group]
			if per[g] == nil {
				x.grps = append(x.grps, g)
			}
			per[g] = append(per[g], h)
			x.hs = append(x.hs, h)
			h.mark()
		}
	}
	for _, g := range x.grps {
		var limbo []state // with mocks whose release had failed
		if n := len(g.ops); n > 0 {
			limbo = g.ops[n-1].fins
		}
		o := g.begin()
		after := g.cur
		o.mids = append(append(o.mids, g.cur), limbo...)
		for i := len(per[g]) - 1; i >= 0; i-- {
			for _, k := range per[g] {
				o.mids = append(o.mids, after.without(k))
			}
			after = after.without(per[g][i])
			o.mids = append(o.mids, after)
		}
		o.fins = []state{after}
		g.cur = after
		x.ops = append(x.ops, o)
	}
	return x
}

func exitScope(sc *Scope, op *Op) {
	finishExit()
	if top() != sc {
		fail("harness", "scope order")
	}
	lifeLock()
	tr("exit %s", sc.name)
	pending = startRelease(sc)
	arm(op)
}

// finishExit records that the pending scope exit is over.
func finishExit() {
	x := pending
	if x == nil {
		return
	}
	pending = nil
	_, fired := rt.Disarm()
	tr("exited %s", x.sc.name)
	doneRelease(x, fired)
	if top() == x.sc {
		scopes = scopes[:len(scopes)-1]
	}
	if lifeBusy {
		lifeUnlock()
	}
}

// doneRelease ends the release of a set; fired memory calls failed in it, so
// as many mocks may still be in force; they must be releasable now.
func doneRelease(x *exitOp, fired int) {
	var left []*Handle
	var second []*opRec
	if fired > 0 {
		stat.FaultFired++
		// Each failed release leaves its own mock either way, and no other.
		remain := 0
		for i, g := range x.grps {
			o := x.ops[i]
			full := o.mids[0]
			base := o.fins[0]
			o.fins = append([]state{base, full}, o.mids...)
			g.end(o)
			// ask the function itself
			n := stillMocked(g, base, x.hs)
			remain += n
		}
		if remain > fired {
			fail("release", "leaving scope %s with %d failing memory call(s) left %d mocked functions mocked", x.sc.name, fired, remain)
		}
		for i, g := range x.grps {
			o := g.begin()
			o.mids = x.ops[i].fins
			o.fins = []state{x.ops[i].fins[0]}
			second = append(second, o)
		}
		for i := len(x.hs) - 1; i >= 0; i-- {
			h := x.hs[i]
			if h.real == nil {
				continue
			}
			if p := try(func() { h.real.UnPatch() }); p != nil {
				unexpected("releasing a mock whose release at scope end had failed", p)
			}
			left = append(left, h)
		}
		stat.Resolved++
	} else {
		for i, g := range x.grps {
			g.end(x.ops[i])
		}
	}
	for i := len(x.list) - 1; i >= 0; i-- {
		switch h := x.list[i].(type) {
		case *Handle:
			h.inForce, h.limbo = false, false
			h.resetCounts()
			deregister(h)
		case *VarHandle:
			h.inForce = false
			h.shadowRestore()
			deregister(h)
		}
	}
	for i, o := range second {
		x.grps[i].end(o)
	}
}

// stillMocked reports (1 or 0) whether the group's code still differs from
// the original, or from that of the enclosing mock.
func stillMocked(g *Group, base state, hs []*Handle) int {
	if len(base) > 0 {
		return 0 // judged by behaviour only
	}
	for _, h := range hs {
		if groups[h.t.Group] == g {
			if codeChanged(h.t) {
				return 1
			}
			return 0
		}
	}
	return 0
}

type boom struct{ n int }

func opScope(op *Op, root bool) {
	name := fmt.Sprintf("s%d", op.M)
	body := func() {
		sc := enterScope(name)
		defer func() {
			exitScope(sc, op)
		}()
		runOps(op.Sub)
		switch op.X {
		case "panic":
			panic(boom{op.M})
		case "so":
			convey.So(1, convey.ShouldEqual, 2)
		case "goexit":
			gd().exiting = true
			runtime.Goexit()
		case "nilpanic":
			var p *int
			*p = 1
		}
	}
	cbody := func(c convey.C) {
		sc := enterScope(name)
		defer func() {
			exitScope(sc, op)
		}()
		runOps(op.Sub)
		switch op.X {
		case "panic":
			panic(boom{op.M})
		case "so":
			c.So(1, convey.ShouldEqual, 2)
		}
	}
	lifeLock()
	pre := len(scopes)
	call := func() {
		if op.X == "contfail" {
			items := []interface{}{name, tstub, convey.FailureContinues, func() {
				sc := enterScope(name)
				defer func() { exitScope(sc, op) }()
				convey.So(1, convey.ShouldEqual, 2)
				runOps(op.Sub)
			}}
			if !root {
				items = append(items[:1:1], items[2:]...)
			}
			mockey.PatchConvey(items...)
			return
		}
		if root {
			if op.N%3 == 1 {
				mockey.PatchConvey(name, tstub, cbody)
			} else {
				mockey.PatchConvey(name, tstub, body)
			}
		} else if op.N%3 == 1 {
			mockey.PatchConvey(name, cbody)
		} else {
			mockey.PatchConvey(name, body)
		}
	}
	p := func() (p interface{}) {
		ok := false
		defer func() {
			if !ok {
				p = recover()
				if p == nil && gd().exiting {
					return // goroutine exit, carries on
				}
			}
		}()
		call()
		ok = true
		return nil
	}()
	finishExit()
	if lifeBusy && len(scopes) == pre {
		lifeUnlock() // the body did not run this time
	}
	if p != nil {
		unexpected("PatchConvey "+name, p)
	}
	if len(scopes) != pre {
		fail("harness", "scopes after %s", name)
	}
}

// ---- operations

var inRoot bool

func runOps(ops []Op) {
	for i := range ops {
		runOp(&ops[i])
		rt.Y(-31)
		if op := &ops[i]; op.F > 0 && (op.K == "patch" || op.K == "reconf" || op.K == "unpatch") {
			runOp(&Op{K: "okept", M: op.M})
		}
		if plan.Text && rt.Cur().ID == 0 {
			audit()
		}
		if rt.NeedSTW {
			checkRaw()
		}
	}
}

func runOp(op *Op) {
	stat.Ops++
	stat.Kinds[op.K]++
	switch op.K {
	case "scope":
		if !inRoot {
			inRoot = true
			opScope(op, true)
			inRoot = false
		} else {
			opScope(op, false)
		}
	case "xscope": // a whole root scope on its own goroutine, which it may exit
		if inRoot {
			opScope(&Op{K: "scope", M: op.M, N: op.N, Sub: op.Sub}, false)
			return
		}
		inRoot = true
		w := rt.Spawn("x", func() {
			defer func() {
				finishExit()
			}()
			opScope(op, true)
		})
		rt.Block("xscope", func() bool { return w.Done })
		inRoot = false
	case "conv":
		if inRoot {
			runOps(op.Sub)
			return
		}
		inRoot = true
		convey.Convey(fmt.Sprintf("c%d", op.M), tstub, func() { finishExit(); runOps(op.Sub) })
		inRoot = false
	case "build":
		lifeLock()
		if h := handles[op.M]; h != nil && h.inForce && h.limbo {
			lifeUnlock()
			return
		}
		opBuild(op, nil)
		lifeUnlock()
	case "rebuild":
		lifeLock()
		if h := handles[op.M]; h != nil && h.real != nil && !h.limbo && !h.shared {
			opBuild(op, h)
		}
		lifeUnlock()
	case "again":
		lifeLock()
		if h := handles[op.M]; h != nil && h.builder != nil && h.real != nil && !h.limbo {
			opAgain(h, op)
		}
		lifeUnlock()
	case "patch":
		lifeLock()
		if h := handles[op.M]; h != nil && h.real != nil && !h.limbo {
			opPatch(h, op)
		}
		lifeUnlock()
	case "unpatch":
		lifeLock()
		if h := handles[op.M]; h != nil && h.real != nil {
			opUnpatch(h, op)
		}
		lifeUnlock()
	case "reconf":
		lifeLock()
		if h := handles[op.M]; h != nil && h.real != nil {
			opReconf(h, op)
		}
		lifeUnlock()
	case "misuse":
		lifeLock()
		opMisuse(op)
		lifeUnlock()
	case "unpatchall":
		lifeLock()
		opUnpatchAll(op)
		lifeUnlock()
	case "call":
		n := op.N
		if n < 1 {
			n = 1
		}
		for i := 0; i < n; i++ {
			if i > 3 && rt.Step > 200000 {
				break
			}
			if op.A&aDeep != 0 {
				deepCall(op)
			} else {
				doCall(op.T, op.A, nil, nil)
			}
			if i+1 < n {
				rt.Y(-32)
			}
		}
	case "times":
		if h := handles[op.M]; h != nil {
			readTimes(h)
		}
	case "yield":
		for i := 0; i < op.N; i++ {
			rt.Y(-33)
		}
	case "gc":
		stat.GCOps++
		rt.GCNow()
	case "okept": // call a kept origin function
		h := handles[op.M]
		if h != nil && h.ovar != nil && !reflect.ValueOf(h.ovar.ptr).Elem().IsNil() && !h.ovar.noRecv && h.nver > 0 && (!h.t.Generic || len(live) == 0 && h.t.ID != 11 && h.t.ID != 12) {
			stat.KeptOrigins++
			by := &Version{h: h}
			if reflect.ValueOf(h.ovar.ptr).Elem().Pointer() == h.ovar.init {
				by = nil // still the function itself, no call has set it
			}
			doCall(h.t.ID, op.A, by, h.ovar.call)
		}
	case "go":
		startWorker(op)
	case "join":
		join()
	case "conc":
		opConc(op)
	case "vmock", "vpatch", "vunpatch", "vset", "vto":
		lifeLock()
		runVarOp(op)
		lifeUnlock()
	case "audit":
		audit()
	default:
		panic("op " + op.K)
	}
}

func startWorker(op *Op) {
	n := op.M
	w := rt.Spawn(fmt.Sprintf("w%d", n), func() {
		gidOf[n] = gd().gid
		runOps(op.Sub)
	})
	workers = append(workers, w)
}

func join() {
	ws := workers
	rt.Block("join", func() bool {
		for _, w := range ws {
			if !w.Done {
				return false
			}
		}
		return true
	})
	workers = nil
}

func opUnpatchAll(op *Op) {
	x := startRelease(top())
	tr("unpatchall")
	arm(op)
	p := try(func() { mockey.UnPatchAll() })
	_, fired := rt.Disarm()
	if p != nil && fired == 0 {
		unexpected("UnPatchAll", p)
	}
	doneRelease(x, fired)
}

// opConc: several goroutines apply and release one handle; see C16.
func opConc(op *Op) {
	h := handles[op.M]
	vh := vhandles[op.M]
	if op.X == "var" {
		if vh == nil {
			return
		}
		concVar(vh, op)
		return
	}
	if h == nil || h.real == nil || h.limbo || topOther(h) || h.inForce && h.scope != top() {
		return
	}
	join()
	lifeLock()
	if h.limbo || topOther(h) || h.inForce && h.scope != top() { // changed meanwhile
		lifeUnlock()
		return
	}
	settle(h.t)
	g := groups[h.t.Group]
	if h.inForce && (g.cur.top() == nil || g.cur.top().h != h) {
		// covered by another instance of the same generic code
		lifeUnlock()
		return
	}
	base := g.cur.without(h)
	if h.ver == nil {
		h.newVersion()
	}
	v := h.newVersion()
	wasIn := h.inForce
	if wasIn {
		// same application, new label
		o := g.begin()
		o.fins = []state{base.with(v)}
		g.cur = base.with(v)
		g.end(o)
	}
	h.conc = true
	h.mark()
	applies := false
	for _, w := range op.Sub {
		for _, o := range w.Sub {
			applies = applies || o.K == "cpatch"
		}
	}
	one := func(in bool) {
		o := g.begin()
		st := base
		if in {
			st = base.with(v)
		}
		o.mids = []state{base, base.with(v)}
		o.fins = []state{st}
		var p interface{}
		if in {
			p = try(func() { h.real.Patch() })
		} else {
			p = try(func() { h.real.UnPatch() })
		}
		if p != nil {
			unexpected(fmt.Sprintf("concurrent operation (apply=%v)", in), p)
		}
		g.end(o)
	}
	scoped := op.N == 1 && !wasIn && !inRoot // the end of a scope is the final release
	var o *opRec
	finish := inScope(scoped, func() {
		var ws []*rt.G
		for i := range op.Sub {
			sub := op.Sub[i].Sub
			ws = append(ws, rt.Spawn(fmt.Sprintf("c%d", i), func() {
				for j := range sub {
					switch sub[j].K {
					case "cpatch":
						one(true)
					case "cunpatch":
						one(false)
					case "times":
						readTimes(h)
					default:
						runOp(&sub[j])
					}
					rt.Y(-34)
				}
			}))
		}
		rt.Block("conc", func() bool {
			for _, w := range ws {
				if !w.Done {
					return false
				}
			}
			return true
		})
		// the final state is that of one of the last operations
		doCall(h.t.ID, 0, nil, nil)
		o = g.begin()
		o.mids = []state{base, base.with(v)}
		o.fins = []state{base}
	})
	if !scoped {
		finish = try(func() { h.real.UnPatch() })
	}
	if finish != nil {
		unexpected("final release", finish)
	}
	g.cur = base
	g.end(o)
	deregister(h)
	if h.inForce || applies {
		h.resetCounts()
	}
	h.inForce, h.conc = false, false
	lifeUnlock()
	doCall(h.t.ID, 0, nil, nil)
	readTimes(h)
	if len(base) == 0 && codeChanged(h.t) {
		fail("code", "%s differs from its original code after concurrent applies and releases and a final release", h.t.Name)
	}
	// and it can be applied again with exact counts
	lifeLock()
	opPatch(h, nil)
	lifeUnlock()
	doCall(h.t.ID, 0, nil, nil)
	readTimes(h)
	lifeLock()
	opUnpatch(h, nil)
	lifeUnlock()
}

// inScope runs f in a PatchConvey of its own if so asked.
func inScope(scoped bool, f func()) interface{} {
	if !scoped {
		f()
		return nil
	}
	inRoot = true
	defer func() { inRoot = false }()
	return try(func() { mockey.PatchConvey("conc", tstub, f) })
}

//go:noinline
func deepen(n int, f func()) {
	if n == 0 {
		f()
		return
	}
	deepen(n-1, f)
}

//go:noinline
func deepen2(n int, f func()) {
	var pad [5]int
	pad[n%5] = n
	if n == 0 {
		f()
		return
	}
	deepen2(n-1, f)
	_ = pad
}

// deepCall makes the call on a fresh goroutine at a given stack depth.
func deepCall(op *Op) {
	stat.Deep++
	w := rt.Spawn("deep", func() {
		deepen(op.M%4096, func() {
			deepen2(op.M/4096, func() { doCall(op.T, op.A&^aDeep, nil, nil) })
		})
	})
	rt.Block("deep", func() bool { return w.Done })
}
