// Package rt is the simulator: a seeded cooperative scheduler over real
// goroutines of which exactly one runs at any time, plus the seams (yields,
// locks, memory-management calls, stop-the-world, map order) that the
// instrumented library and the harness go through.
//
// Every decision is drawn from the plan's seed, or read from a recorded list
// of decisions when a plan is replayed, so one plan is one execution.
package rt

import (
	"fmt"
	"os"
	"reflect"
	"runtime"
	"sync"
	"time"
)

func getg() uintptr

// G is one simulated goroutine.
type G struct {
	ID   int
	Name string
	wake chan struct{}
	gp   uintptr
	Done bool
	wait func() bool // non-nil while blocked
	why  string
	prio int
	run  int         // steps since others had their turn
	Data interface{} // harness data
}

// Switch is one scheduling decision that differs from the default (carry on
// with the current goroutine, or the lowest numbered one if it cannot run).
type Switch struct {
	Step int64 `json:"s"`
	To   int   `json:"g"`
}

// SiteStop demotes the goroutine that reaches Site for the Nth time.
type SiteStop struct {
	Site int `json:"s"`
	Nth  int `json:"n"`
}

// Sched describes how scheduling decisions are made.
type Sched struct {
	Mode     string     `json:"mode"` // seq, rand, pct, stall, replay
	Seed     uint64     `json:"seed,omitempty"`
	P        int        `json:"p,omitempty"`     // rand: switch with probability 1/P
	Points   []int64    `json:"pts,omitempty"`   // pct, stall: steps at which to demote the running goroutine
	Switches []Switch   `json:"sw,omitempty"`    // replay
	Sites    []SiteStop `json:"sites,omitempty"` // pct: places at which to demote the running goroutine
	GC       []int64    `json:"gc,omitempty"`    // steps at which to run a collection
	MapSeed  uint64     `json:"mseed,omitempty"` // order of map iterations
}

// Stats counts what a run did.
type Stats struct {
	Steps, Switches, GCs, Blocks int64
	Mmap, Munmap, Mprotect, Raw  int64
	FaultMmap, FaultMunmap       int64
	FaultMprotect, FaultWrite    int64
	MapOrders, Stops             int64
}

var (
	active   bool
	cur      *G
	gs       []*G
	Step     int64
	stepMax  int64
	sched    Sched
	rng      uint64
	maprng   uint64
	gcIdx    int
	ptIdx    int
	swIdx    int
	lowPrio  int
	Rec      []Switch
	St       Stats
	Hash     uint64 // hash of the interleaving
	doneCh   chan struct{}
	atBlock  bool
	OnFail   func(kind, msg string) // must not return
	siteN    [4096]int32
	stopN    []int
	lastSite int
)

// SplitMix is the only random generator used.
func SplitMix(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func next(n int) int { return int(SplitMix(&rng) % uint64(n)) }

// On reports whether the caller is a simulated goroutine of a live run.
func On() bool { return active && cur != nil && cur.gp == getg() }

// Cur is the running simulated goroutine.
func Cur() *G { return cur }

// Run executes body as goroutine 0 of a simulation and returns when every
// simulated goroutine has finished.
func Run(s Sched, maxSteps int64, body func()) {
	gs, Step, stepMax, sched = nil, 0, maxSteps, s
	gcs = 0
	rng, maprng = s.Seed, s.MapSeed
	gcIdx, ptIdx, swIdx, lowPrio = 0, 0, 0, -1
	Rec, St, Hash = nil, Stats{}, 1469598103934665603
	cur = nil
	stopN = make([]int, len(s.Sites))
	resetWorld()
	resetChans()
	alignIDs()
	doneCh = make(chan struct{})
	g := newG("main", body)
	cur = g
	active = true
	g.wake <- struct{}{}
	<-doneCh
	active = false
	cur = nil
	St.Steps = Step
}

// alignIDs makes the runtime's goroutine ids of a run equal modulo 64 to those
// of every other run.
func alignIDs() {
	for i := 0; i < 200; i++ {
		c := make(chan uint64)
		go func() {
			var b [32]byte
			n := runtime.Stack(b[:], false)
			var id uint64
			for _, d := range b[10:n] {
				if d < '0' || d > '9' {
					break
				}
				id = id*10 + uint64(d-'0')
			}
			c <- id
		}()
		if <-c%64 == 63 {
			return
		}
	}
}

func newG(name string, f func()) *G {
	g := &G{ID: len(gs), Name: name, wake: make(chan struct{}, 1)}
	if sched.Mode == "pct" || sched.Mode == "stall" {
		g.prio = 1 + next(1000)
	}
	gs = append(gs, g)
	ready := make(chan struct{})
	go func() {
		g.gp = getg()
		close(ready)
		<-g.wake
		defer func() {
			if r := recover(); r != nil {
				Fail("panic", fmt.Sprintf("goroutine %s: unexpected panic: %v\n%s", name, r, stack()))
			}
			finish(g)
		}()
		f()
	}()
	<-ready
	return g
}

func stack() string {
	b := make([]byte, 8192)
	return string(b[:runtime.Stack(b, false)])
}

// Spawn starts another simulated goroutine; it does not run before the
// scheduler chooses it.
func Spawn(name string, f func()) *G {
	g := newG(name, f)
	Y(-2)
	return g
}

// Go replaces go statements of instrumented code.
func Go(f func()) {
	if !On() {
		go f()
		return
	}
	Spawn("lib", f)
}

func runnable(g *G) bool {
	if g.Done {
		return false
	}
	if g.wait != nil {
		if !g.wait() {
			return false
		}
		g.wait = nil
	}
	return true
}

func finish(g *G) {
	g.Done = true
	if worldStopped() {
		Fail("stw", "goroutine "+g.Name+" ended with the world stopped")
	}
	n := pick(nil)
	if n == nil {
		for _, o := range gs {
			if !o.Done {
				Fail("deadlock", describe())
			}
		}
		close(doneCh)
		return
	}
	cur = n
	n.wake <- struct{}{}
}

func describe() string {
	s := "no goroutine can run:"
	for _, o := range gs {
		if !o.Done {
			s += fmt.Sprintf(" [%s waits: %s]", o.Name, o.why)
		}
	}
	return s
}

// fair is how long a goroutine runs while others could. Loops that wait for
// another goroutine without blocking come to an end this way. (Without
// involuntary switches nothing is there to wait for.)
const fair = 60000

// other is the next goroutine that can run instead of self.
func other(self *G) *G {
	for i := 1; i < len(gs); i++ {
		if g := gs[(self.ID+i)%len(gs)]; runnable(g) {
			return g
		}
	}
	return self
}

// pick chooses who runs next; self is nil if the caller cannot go on.
func pick(self *G) *G {
	var def *G
	if self != nil {
		def = self
	} else {
		for _, g := range gs {
			if runnable(g) {
				def = g
				break
			}
		}
		if def == nil {
			return nil
		}
	}
	ch := def
	switch sched.Mode {
	case "rand":
		if self == nil || next(sched.P) == 0 {
			ch = randRunnable(def)
		}
	case "pct", "stall":
		if self != nil {
			for ptIdx < len(sched.Points) && sched.Points[ptIdx] < Step {
				ptIdx++
			}
			if ptIdx < len(sched.Points) && sched.Points[ptIdx] == Step {
				ptIdx++
				self.prio = lowPrio
				lowPrio--
			}
			for i := range sched.Sites {
				if sched.Sites[i].Site == lastSite {
					stopN[i]++
					if stopN[i] == sched.Sites[i].Nth {
						self.prio = lowPrio
						lowPrio--
					}
				}
			}
		}
		for _, g := range gs {
			if g != ch && g.prio > ch.prio && runnable(g) {
				ch = g
			}
		}
	case "replay":
		for swIdx < len(sched.Switches) && sched.Switches[swIdx].Step < Step {
			swIdx++
		}
		if swIdx < len(sched.Switches) && sched.Switches[swIdx].Step == Step {
			to := sched.Switches[swIdx].To
			swIdx++
			if to >= 0 && to < len(gs) && runnable(gs[to]) {
				ch = gs[to]
			}
		}
	}
	if self != nil && ch == self {
		spins := sched.Mode != "seq" && sched.Mode != "replay" && self.run > fair
		if self.run++; lastSite == yielding || spins {
			self.run = 0
			if sched.Mode == "pct" || sched.Mode == "stall" {
				self.prio = lowPrio
				lowPrio--
			}
			if ch = other(self); sched.Mode == "rand" {
				if r := randRunnable(ch); r != self {
					ch = r
				}
			}
		}
	} else if self != nil {
		self.run = 0
	}
	if ch != def {
		Rec = append(Rec, Switch{Step, ch.ID})
	}
	return ch
}

func randRunnable(def *G) *G {
	n := 0
	for _, g := range gs {
		if runnable(g) {
			n++
		}
	}
	if n == 0 {
		return def
	}
	k := next(n)
	for _, g := range gs {
		if runnable(g) {
			if k == 0 {
				return g
			}
			k--
		}
	}
	return def
}

func mix(v uint64) { Hash = (Hash ^ v) * 1099511628211 }

func switchTo(n *G, site int) {
	me := cur
	St.Switches++
	mix(uint64(site+10)<<16 | uint64(me.ID)<<8 | uint64(n.ID))
	cur = n
	n.wake <- struct{}{}
	<-me.wake
}

// Y is a scheduling point. Sites number the places of the instrumented code;
// negative ones are the harness's and the shims'.
func Y(site int) {
	if !active {
		return
	}
	me := cur
	if me == nil || me.gp != getg() {
		return
	}
	Step++
	if site >= 0 && site < len(siteN) {
		siteN[site]++
	}
	if Step > stepMax {
		Fail("livelock", fmt.Sprintf("no end after %d steps; running %s", Step, me.Name))
	}
	if gcIdx < len(sched.GC) && sched.GC[gcIdx] <= Step {
		for gcIdx < len(sched.GC) && sched.GC[gcIdx] <= Step {
			gcIdx++
		}
		if !worldStopped() {
			St.GCs++
			runtime.GC()
		}
	}
	if worldStopped() {
		return
	}
	lastSite = site
	if n := pick(me); n != me {
		switchTo(n, site)
	}
}

// Block parks the running goroutine until cond holds. cond may have side
// effects when it succeeds (taking a lock).
func Block(why string, cond func() bool) {
	if cond() {
		return
	}
	me := cur
	St.Blocks++
	if worldStopped() {
		Fail("stw", "blocking on "+why+" with the world stopped")
	}
	me.wait, me.why = cond, why
	n := pick(nil)
	if n == nil {
		Fail("deadlock", describe())
	}
	if n == me {
		return
	}
	switchTo(n, -3)
}

// GCNow runs a collection.
func GCNow() {
	if gcs++; gcs > 600 {
		return
	}
	St.GCs++
	runtime.GC()
}

var gcs int // collections of this run

// Fail ends the run with a violation. It does not return.
func Fail(kind, msg string) {
	OnFail(kind, msg)
	os.Exit(4)
}

// Sites returns how many distinct instrumented sites have been reached.
func Sites() (n int) {
	for _, c := range siteN {
		if c > 0 {
			n++
		}
	}
	return
}

// SiteHits returns the indices of the sites reached.
func SiteHits() (r []int) {
	for i, c := range siteN {
		if c > 0 {
			r = append(r, i)
		}
	}
	return
}

// Gosched and Sleep replace runtime.Gosched and time.Sleep.
func Gosched() {
	if !On() {
		runtime.Gosched()
		return
	}
	Y(yielding)
}

// yielding is the site of a goroutine that gives way to the others.
const yielding = -4

func Sleep(d time.Duration) {
	if !On() {
		time.Sleep(d)
		return
	}
	for i := 0; i < 3; i++ {
		Y(yielding)
	}
}

var _ sync.Mutex

// Reset forgets what the simulator remembers of finished goroutines and
// decisions, so that long runs hold no memory.
func Reset() {
	Rec = nil
	gs = []*G{cur}
	cur.ID = 0
}

// GoCall replaces go statements that call f with arguments.
func GoCall(f interface{}, args ...interface{}) {
	v := reflect.ValueOf(f)
	var in []reflect.Value
	for i, a := range args {
		t := v.Type()
		var pt reflect.Type
		if t.IsVariadic() && i >= t.NumIn()-1 {
			pt = t.In(t.NumIn() - 1).Elem()
		} else {
			pt = t.In(i)
		}
		p := reflect.New(pt).Elem()
		if a != nil {
			p.Set(reflect.ValueOf(a).Convert(pt))
		}
		in = append(in, p)
	}
	Go(func() { v.Call(in) })
}
