package main

import (
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"

	"github.com/bytedance/mockey"

	"verifsim/rt"
)

const inf = int64(1) << 62

// Ev is one observed event of a call.
type Ev struct {
	K   byte // w predicate, h hook, o original
	ID  int
	Res bool
}

// Rec is one call, observed.
type Rec struct {
	X          int64
	T          int
	Rid        int
	G          *rt.G
	gd         *gdata
	Start, End int64
	Ev         []Ev
	Out        string // val, panic, goexit
	Res        int64
	attr       int
	depth      int
	origin     *Version // non-nil: a call of this version's origin function
	parent     *Rec
	origRes    int64 // result of the last origin call made by its hook
	origOut    string
	void       int64 // result of a function without results
	subs       bool  // has made calls of its own
	cands      []*cand
}

type gdata struct {
	gid     int64
	stack   []*Rec
	exiting bool
}

// Version is a mock as configured and applied.
type Version struct {
	h    *Handle
	conf *Conf
	gid  int64 // goroutine named by the filter
	ovar *originVar
	n    int
	any  bool // an origin call: perhaps of one that has been released since
	only bool // an origin call: surely of this mock, even if others share the variable
}

// state is the stack of versions in force on a group, top last.
type state []*Version

// opRec is one lifecycle operation on a group: its states are possible
// during [t0,t1], the final one until a later operation is over.
type opRec struct {
	t0, t1 int64
	mids   []state
	fins   []state
	over   int64 // until when the final states are possible
}

type Group struct {
	ops []*opRec
	cur state
}

type counts struct {
	def, maybe int // calls surely and possibly counted in this epoch
}

// Handle is a mock handle and the model of it.
type Handle struct {
	slot    int
	real    realMocker
	builder *mockey.MockBuilder
	shared  bool // its builder has been built more than once
	t       *Target
	conf    *Conf
	gid     int64
	ovar    *originVar
	ovarAt  int64 // tick since when ovar is configured
	ver     *Version
	inForce bool
	relMid  bool // was once released from below another mock of its function
	limbo   bool // a release failed half way
	scope   *Scope
	times   counts
	mocks   counts
	atOp    [2]int // calls counted when the operation in progress began
	epoch   int64  // tick at which the counters were last reset
	nver    int
	conc    bool // operated on by several goroutines
	last    [2]int
	lastEp  int64
}

// Scope is one registry.
type Scope struct {
	list []interface{} // *Handle or *VarHandle in order of application
	name string
}

type originVar struct {
	ptr    interface{}
	call   func(x int64, rid int) int64
	noRecv bool
	init   uintptr   // what it holds at first
	users  []*Handle // the mocks configured with it
}

var (
	tickN  int64
	recs   []*Rec
	groups []*Group
	scopes []*Scope
	trace  []string
)

func tick() int64 { tickN++; return tickN }

func tr(f string, a ...interface{}) {
	if len(trace) > 4000 {
		trace = trace[2000:]
	}
	g := "-"
	if rt.Cur() != nil {
		g = strconv.Itoa(rt.Cur().ID)
	}
	trace = append(trace, fmt.Sprintf("%d g%s ", rt.Step, g)+fmt.Sprintf(f, a...))
	if *verbose {
		os.Stderr.WriteString(trace[len(trace)-1] + "\n")
	}
}

func fail(kind, f string, a ...interface{}) { rt.Fail(kind, fmt.Sprintf(f, a...)) }

func goid() int64 {
	var b [64]byte
	s := strings.Fields(string(b[:runtime.Stack(b[:], false)]))
	v, _ := strconv.ParseInt(s[1], 10, 64)
	return v
}

func gd() *gdata {
	g := rt.Cur()
	if g.Data == nil {
		g.Data = &gdata{gid: goid()}
	}
	return g.Data.(*gdata)
}

// ---- group timelines

func (g *Group) begin() *opRec {
	o := &opRec{t0: tick(), t1: inf, over: inf}
	g.ops = append(g.ops, o)
	return o
}

func (g *Group) end(o *opRec) {
	o.t1 = tick()
	// everything that ended before o began is over now
	for _, p := range g.ops {
		if p != o && p.t1 < o.t0 && p.over == inf {
			p.over = o.t1
		}
	}
}

type cand struct {
	s        state
	from, to int64
}

// cands returns the states possible at some time in [s,e].
func (g *Group) cands(s, e int64) (r []*cand) {
	for _, o := range g.ops {
		if o.t0 <= e && o.over > s {
			for _, f := range o.fins {
				r = append(r, &cand{f, o.t0, o.over})
			}
		}
		if o.t0 <= e && o.t1 > s {
			for _, m := range o.mids {
				r = append(r, &cand{m, o.t0, o.t1})
			}
		}
	}
	return
}

// trim forgets operations that are over before t.
func (g *Group) trim(t int64) {
	k := 0
	for _, o := range g.ops {
		if o.over >= t || o.t1 >= t {
			g.ops[k] = o
			k++
		}
	}
	g.ops = g.ops[:k]
}

func (s state) top() *Version {
	if len(s) == 0 {
		return nil
	}
	return s[len(s)-1]
}

func (s state) has(h *Handle) bool {
	for _, w := range s {
		if w.h == h {
			return true
		}
	}
	return false
}

func (s state) below(v *Version) *Version {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i].h == v.h {
			if i == 0 {
				return nil
			}
			return s[i-1]
		}
	}
	return nil
}

func (s state) with(v *Version) state {
	r := make(state, 0, len(s)+1)
	for _, w := range s {
		if w != v {
			r = append(r, w)
		}
	}
	return append(r, v)
}

func (s state) without(h *Handle) state {
	r := make(state, 0, len(s))
	for i, w := range s {
		if w.h == h && i < len(s)-1 {
			h.relMid = true
		}
		if w.h != h {
			r = append(r, w)
		}
	}
	return r
}

// ---- expected behaviour of one call

type match struct {
	pos  int
	path []*Version // versions that counted the call
	hook []*Version // versions that answered it
	out  string
	res  int64
	anyS int // sequence that answered, -1
	val  bool
}

type matcher struct {
	r      *Rec
	cs     []*cand
	strict bool
	found  *match
	nFound int
	exp    []string
	seen   map[visit]bool // unless strict: what has been tried, in vain
	states []state
}

// visit is a step of the search for an explanation: nothing else of what led
// there bears on whether the rest of the call can be explained.
type visit struct {
	s   int
	v   *Version
	pos int
	in  bool
}

// again tells whether a step has been tried.
func (m *matcher) again(s state, v *Version, pos int, in bool) bool {
	if m.strict {
		return false
	}
	k := visit{-1, v, pos, in}
	for i, t := range m.states {
		if s.same(t) {
			k.s = i
		}
	}
	if k.s < 0 {
		k.s = len(m.states)
		m.states = append(m.states, s)
	}
	if m.seen == nil {
		m.seen = map[visit]bool{}
	}
	if m.seen[k] || m.found != nil {
		return true
	}
	m.seen[k] = true
	return false
}

func (s state) same(t state) bool {
	if len(s) != len(t) {
		return false
	}
	for i := range s {
		if s[i] != t[i] {
			return false
		}
	}
	return true
}

// passes returns the filter settings that may apply to version v in this call.
func (m *matcher) passes(v *Version) (yes, no bool) {
	test := func(w *Version) {
		ok := true
		switch w.conf.Filter {
		case "inc":
			ok = m.r.gd.gid == w.gid
		case "exc":
			ok = m.r.gd.gid != w.gid
		}
		if ok {
			yes = true
		} else {
			no = true
		}
	}
	test(v)
	if !m.strict {
		for _, c := range m.cs {
			for _, w := range c.s {
				if w.h == v.h {
					test(w)
				}
			}
		}
	}
	return
}

func (m *matcher) accept(x match) {
	if x.out != m.r.Out {
		return
	}
	if x.out == "val" && x.val && x.res != m.r.Res {
		return
	}
	if x.pos != len(m.r.Ev) {
		return
	}
	m.nFound++
	if m.found == nil || len(x.path) < len(m.found.path) {
		y := x
		m.found = &y
	}
}

// prefix accepts a call cut short by the exit of its goroutine.
func (m *matcher) cut(x match) {
	if m.r.Out == "goexit" && m.r.gd.exiting && x.pos == len(m.r.Ev) {
		x.out = "goexit"
		x.val = false
		m.accept(x)
	}
}

// original continues with the real function.
func (m *matcher) original(x match) {
	t := targets[m.r.T]
	if !t.NoOrig {
		if x.pos >= len(m.r.Ev) || m.r.Ev[x.pos] != (Ev{'o', m.r.T, false}) {
			m.exp = append(m.exp, fmt.Sprintf("ev%d=orig%d", x.pos, m.r.T))
			return
		}
		x.pos++
	}
	m.cut(x)
	x.out, x.val, x.res = "val", true, t.Orig(m.r.X)
	if !t.NoOrig {
		switch {
		case m.r.attr&aOrigPanic != 0:
			x.out, x.val = "panic", true
			x.res = panicVal('o', m.r.T, m.r.X)
			if m.r.Res != x.res {
				m.exp = append(m.exp, fmt.Sprintf("panic value %d", x.res))
				return
			}
		case m.r.attr&aOrigExit != 0:
			x.out, x.val = "goexit", false
		}
	}
	m.exp = append(m.exp, fmt.Sprintf("%s %d", x.out, x.res))
	m.accept(x)
}

// fallthroughTo continues with what lies below version v in state s.
func (m *matcher) below(s state, v *Version, x match) {
	if m.again(s, v, x.pos, false) {
		return
	}
	if b := s.below(v); b != nil {
		m.version(s, b, x)
	} else {
		m.original(x)
	}
	if !m.strict {
		m.original(x)
		for _, c := range m.cs {
			if t := c.s.top(); t != nil {
				m.version(c.s, t, x)
			}
			if b := c.s.below(v); b != nil {
				m.version(c.s, b, x)
			}
		}
	}
}

func (m *matcher) version(s state, v *Version, x match) {
	t := targets[m.r.T]
	if m.again(s, v, x.pos, true) {
		return
	}
	x.path = append(append([]*Version{}, x.path...), v)
	yes, no := m.passes(v)
	if no {
		m.below(s, v, x)
	}
	if !yes {
		return
	}
	for i := range v.conf.Conds {
		c := &v.conf.Conds[i]
		if c.W != nil {
			if x.pos >= len(m.r.Ev) {
				m.exp = append(m.exp, fmt.Sprintf("ev%d=when%d", x.pos, c.W.ID))
				return
			}
			want := whenRes(c.W, m.r.X)
			e := m.r.Ev[x.pos]
			if e.K != 'w' || e.ID != c.W.ID || e.Res != want {
				m.exp = append(m.exp, fmt.Sprintf("ev%d=when%d", x.pos, c.W.ID))
				return
			}
			x.pos++
			m.cut(x)
			if whenPanics(c.W, m.r.X) {
				x.out, x.val, x.res = "panic", true, panicVal('w', c.W.ID, m.r.X)
				if m.r.Res == x.res {
					m.accept(x)
				}
				return
			}
			if !want {
				continue
			}
		}
		if c.A == nil {
			m.below(s, v, x)
			return
		}
		x.hook = append(append([]*Version{}, x.hook...), v)
		kind := c.A.Kind
		if t.Void && kind != "hook" { // there is nothing to return
			kind = "ret"
		}
		switch kind {
		case "ret":
			x.out, x.val, x.res = "val", true, retVal(c.A.ID)
			if t.Void {
				x.res = voidVal
			}
			m.exp = append(m.exp, fmt.Sprintf("ret%d", c.A.ID))
			m.accept(x)
		case "nil":
			x.out, x.val, x.res = "val", true, nilOf(c.A)
			m.accept(x)
		case "seq":
			if m.r.Out == "val" && m.r.Res>>32 == seqVal(c.A.Seq, 0)>>32 {
				x.out, x.val, x.anyS = "val", false, c.A.Seq
				m.accept(x)
			} else if m.r.Out == "val" && m.r.Res == nilVal && seqHasNil(c.A.Seq, t) {
				x.out, x.val, x.anyS = "val", false, c.A.Seq
				m.accept(x)
			}
			m.exp = append(m.exp, fmt.Sprintf("seq%d", c.A.Seq))
		case "hook":
			if x.pos >= len(m.r.Ev) || m.r.Ev[x.pos] != (Ev{'h', c.A.ID, false}) {
				m.exp = append(m.exp, fmt.Sprintf("ev%d=hook%d", x.pos, c.A.ID))
				return
			}
			x.pos++
			m.cut(x)
			switch c.A.End {
			case "panic":
				x.out, x.val, x.res = "panic", true, panicVal('h', c.A.ID, m.r.X)
				if m.r.Res != x.res {
					return
				}
			case "goexit":
				x.out, x.val, x.res = "val", true, hookVal(c.A.ID, m.r.X)
				if m.r.attr&aHookExit != 0 {
					x.out, x.val = "goexit", false
				}
			case "orig":
				x.out, x.val, x.res = "val", true, hookVal(c.A.ID, m.r.X)
				if v.ovar != nil && m.r.origOut != "" {
					x.out, x.res = m.r.origOut, m.r.origRes
					if x.out == "panic" && m.r.Res != x.res {
						return
					}
				}
			default:
				x.out, x.val, x.res = "val", true, hookVal(c.A.ID, m.r.X)
			}
			m.exp = append(m.exp, fmt.Sprintf("hook%d %s %d", c.A.ID, x.out, x.res))
			m.accept(x)
		}
		return
	}
	m.below(s, v, x)
}

func whenRes(w *When, x int64) bool { return w.Mask>>(uint(x)%8)&1 == 1 }
func whenPanics(w *When, x int64) bool {
	return w.Panic && x%5 == 1
}
func panicVal(k byte, id int, x int64) int64 { return kv(5+int64(k)%3, int64(id), x) }

// viaOrigin follows what the origin function of v may run in state c.
func (m *matcher) viaOrigin(c *cand, v *Version, lenient bool, x match) {
	in := c.s.has(v.h)
	if in {
		m.below(c.s, v, x)
	}
	if (!in || lenient) && v.h.relMid {
		// released from below another mock (and perhaps applied again since): what it covered then
		for _, w := range c.s {
			m.version(c.s, w, x)
		}
		m.original(x)
	} else if !in || lenient {
		if tp := c.s.top(); tp != nil {
			m.version(c.s, tp, x)
		} else {
			m.original(x)
		}
	}
}

// judge compares a finished call with what the model allows.
func judge(r *Rec) {
	t := targets[r.T]
	g := groups[t.Group]
	cs := g.cands(r.Start, r.End)
	m := &matcher{r: r, cs: cs}
	x := match{anyS: -1}
	var entries []*cand
	for _, c := range cs {
		if c.from <= r.Start && c.to >= r.Start {
			entries = append(entries, c)
		}
	}
	m.strict = len(cs) == 1
	amb := false
	if len(entries) == 0 {
		fail("harness", "no state for call %d", r.X)
	}
	if r.origin != nil {
		// an origin call: what lies below its mock in each possible state;
		// once that application of the mock is over, the function as it is
		lenient := r.parent == nil
		if r.parent != nil {
			o := r.parent
			for o.parent != nil && o.origin != nil {
				o = o.parent
			}
			pcs := g.cands(o.Start, r.End)
			lenient = len(pcs) > 1
			if lenient {
				m.cs, m.strict, cs = pcs, false, pcs
			}
		}
		if lenient {
			entries = cs // it may get there late
		}
		for _, c := range entries {
			m.viaOrigin(c, r.origin, lenient, x)
			if ov := r.origin.h.ovar; ov != nil && !r.origin.only {
				// a rebuilt mock shares the variable with the one before it
				for _, h := range ov.users {
					if h != r.origin.h && (r.parent == nil || r.origin.any || c.s.has(h)) {
						amb = true
						m.viaOrigin(c, &Version{h: h}, lenient, x)
					}
				}
			}
		}
		if lenient && m.found != nil {
			m.strict = false
		}
	} else {
		for _, c := range entries {
			if tp := c.s.top(); tp != nil {
				m.version(c.s, tp, x)
			} else {
				m.original(x)
			}
		}
	}
	if m.found == nil {
		ex := m.exp
		if len(ex) > 12 {
			ex = ex[:12]
		}
		fail("call", "call %d of %s (goroutine %d, %s): observed %s; allowed: %v%s", r.X, t.Name, r.G.ID, callKind(r), obs(r), ex, stateStr(cs))
	}
	amb = amb || !m.strict
	if !amb {
		for _, v := range m.found.path {
			v.h.times.def++
		}
		for _, v := range m.found.hook {
			v.h.mocks.def++
		}
	} else {
		// each application that the call may have met may have counted it
		for _, c := range cs {
			for _, v := range c.s {
				v.h.times.maybe++
				v.h.mocks.maybe++
			}
		}
		stat.Overlaps++
	}
	if r.Out == "val" {
		if r.Res == nilVal && !m.strict {
			for _, q := range seqs {
				q.lax = q.lax || q.nils && targets[q.t].Group == t.Group
			}
		}
		if m.found.anyS >= 0 {
			seqAnswered(m.found.anyS, r)
		}
	}
}

func callKind(r *Rec) string {
	if r.origin != nil {
		return "through origin"
	}
	return "direct"
}

func obs(r *Rec) string {
	s := ""
	for _, e := range r.Ev {
		s += fmt.Sprintf("%c%d", e.K, e.ID)
		if e.K == 'w' {
			s += fmt.Sprintf("=%v", e.Res)
		}
		s += " "
	}
	return s + fmt.Sprintf("-> %s %s", r.Out, showVal(r.Res))
}

func showVal(v int64) string {
	if v == nilVal {
		return "nil"
	} else if v == tnilVal {
		return "typed nil"
	}
	kinds := []string{"?", "orig", "hook", "ret", "seq", "panic", "panic", "panic"}
	k := v >> 48
	if k < 0 || k > 7 {
		return fmt.Sprint(v)
	}
	return fmt.Sprintf("%s(%d,%d)", kinds[k], v>>32&0xffff, v&0xffffffff)
}

func stateStr(cs []*cand) string {
	s := " states:"
	for _, c := range cs {
		s += " ["
		for _, v := range c.s {
			s += fmt.Sprintf("m%d.%d ", v.h.slot, v.n)
		}
		s += "]"
	}
	return s
}
