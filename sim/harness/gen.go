package main

import (
	"fmt"
	"syscall"

	"verifsim/rt"
)

// The generator: a plan is a pure function of the property, the seed and the
// number of instrumented sites of the build.

type gen struct {
	s       uint64
	p       *Plan
	pf      prof
	ids     int
	made    int // operations
	most    int
	scopes  int
	workers int
	seqs    int
	seqT    map[int]int
	ts      []int
	slots   int
	vslots  int
	vs      []int
	est     int64 // estimated steps
	w       map[string]int
	ww      map[string]int
	ends    map[string]int
	steps   map[string]int
	faultP  int
	confOf  map[int]*Conf
	slotT   map[int]int
	inReps  bool
	exitP   int
	seqMode bool
	wide    bool
}

func (g *gen) n(k int) int {
	if k <= 0 {
		return 0
	}
	return int(rt.SplitMix(&g.s) % uint64(k))
}
func (g *gen) p100(p int) bool        { return g.n(100) < p }
func (g *gen) rng(a, b int) int       { return a + g.n(b-a+1) }
func (g *gen) of(l ...int) int        { return l[g.n(len(l))] }
func (g *gen) str(l ...string) string { return l[g.n(len(l))] }

// pick draws a key of m by weight, in a fixed order.
func (g *gen) pick(m map[string]int, order []string) string {
	t := 0
	for _, k := range order {
		t += m[k]
	}
	if t == 0 {
		return ""
	}
	x := g.n(t)
	for _, k := range order {
		if x < m[k] {
			return k
		}
		x -= m[k]
	}
	return ""
}

var opOrder = []string{"scope", "xscope", "conv", "build", "rebuild", "again", "patch", "unpatch", "reconf", "misuse", "unpatchall", "call", "times", "yield", "gc", "okept", "go", "join", "conc", "concvar",
	"vmock", "vpatch", "vunpatch", "vset", "vto", "audit"}
var stepOrder = []string{"y", "g", "o", "r", "c", "t", "u"}
var endOrder = []string{"val", "orig", "panic", "goexit"}

// prof describes a family of programs.
type prof struct {
	w, ww     map[string]int // operations of goroutine 0 and of workers
	ops       [2]int         // operations per body
	wops      [2]int
	targets   [2]int
	pool      []int
	slots     int
	vslots    int
	depth     int
	workers   int
	conds     int
	whenP     int
	filterP   int
	originP   int
	ovP       int
	dropP     int
	seqP      int // return sequences among the answers
	stepP     int // steps in hooks and predicates
	wstepP    int
	steps     map[string]int
	ends      map[string]int
	attrP     int // attributes of calls
	attrs     []int
	exitP     int  // scopes that end early
	faultP    int  // operations with failing memory calls
	gcBurst   bool // collections at consecutive steps
	gcP       int  // runs with collections at random steps
	text      bool
	reps      int
	long      bool     // the operations every program starts with are not repeated
	pre       []string // operations every program starts with
	modes     map[string]int
	wpanicP   int
	wExitP    int
	deepP     int
	reconfs   []string
	misuses   []string
	nocheckSw bool
}

type W = map[string]int

var allReconf = []string{"to", "ret", "when", "filter", "origin"}
var allMisuse = []string{"remock", "remock", "remockvar", "badto", "badwhen", "badwhenout", "rewhen", "badorigin", "short", "notfunc", "seqbad", "varbad", "reto", "rewhenbad", "reorigin", "vtobad", "vtobad", "rehook", "reoriginb", "originval", "originint", "varnotptr", "hookint", "near", "near", "near", "near", "renear", "renear"}

var calm = W{"y": 3, "t": 2, "c": 1}
var busy = W{"y": 6, "o": 4, "r": 2, "c": 2, "t": 2}
var someEnds = W{"val": 6, "orig": 3, "panic": 1}

func profile(prop string, k int) (string, prof) {
	base := prof{ops: [2]int{4, 12}, wops: [2]int{1, 4}, targets: [2]int{1, 4}, slots: 5, vslots: 4, depth: 2, workers: 2, conds: 3, whenP: 50, filterP: 15, originP: 30,
		seqP: 10, stepP: 30, wstepP: 15, steps: busy, ends: someEnds, attrP: 25, attrs: []int{aOrigPanic, aOrigRec, aOrigYield, aOrigNest}, exitP: 0,
		w:  W{"build": 8, "call": 14, "unpatch": 4, "patch": 3, "times": 5, "scope": 3, "go": 2, "join": 1, "reconf": 1},
		ww: W{"call": 10, "times": 2, "yield": 1}, reconfs: allReconf, misuses: allMisuse,
		modes: W{"rand": 5, "pct": 3, "site": 3, "seq": 1}, wpanicP: 10}
	seqOnly := W{"seq": 1}
	p := base
	name := "main"
	switch prop {
	case "C01":
		p.exitP = 60
		p.depth = 3
		p.w = W{"again": 2, "build": 9, "call": 10, "scope": 6, "xscope": 2, "conv": 1, "times": 5, "unpatch": 2, "patch": 2, "reconf": 1, "vmock": 1, "vset": 1, "go": 1, "rebuild": 1, "misuse": 1}
		p.pre = []string{"scope"}
		if k%3 != 0 {
			name, p.workers, p.modes = "alone", 0, seqOnly
		}
		if k%7 == 1 {
			name, p.faultP = "faults", 15
		}
	case "C02":
		p.w = W{"vmock": 12, "vset": 8, "vunpatch": 6, "vpatch": 5, "vto": 3, "scope": 5, "unpatchall": 1, "misuse": 1, "xscope": 1, "build": 1, "conv": 1}
		p.misuses = []string{"remockvar", "varbad", "vtobad"}
		p.exitP = 40
		p.depth = 3
		p.vslots = 8
		p.ops = [2]int{5, 16}
		p.workers = 0
		p.modes = seqOnly
	case "C03":
		p.text = true
		p.depth = 3
		p.slots = 7
		p.targets = [2]int{2, 6}
		p.pool = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 17, 11, 12, 21, 22, 23, 25, 25, 27, 28, 29}
		p.w = W{"again": 2, "build": 10, "call": 4, "unpatch": 6, "patch": 4, "scope": 5, "reconf": 3, "rebuild": 2, "unpatchall": 1, "audit": 1, "misuse": 1, "gc": 1}
		p.exitP = 20
		p.workers, p.modes = 0, seqOnly
		if k%4 == 0 {
			name, p.faultP = "faults", 20
		}
		if k%4 == 1 {
			name, p.workers, p.modes = "concurrent", 2, base.modes
			p.w["go"] = 3
		}
	case "C04":
		p.w = W{"build": 5, "call": 8, "times": 8, "go": 8, "join": 3, "unpatch": 3, "patch": 3, "reconf": 1, "scope": 1, "yield": 2, "unpatchall": 1}
		p.ww = W{"call": 10, "times": 5, "yield": 1}
		p.targets = [2]int{1, 2}
		p.slots, p.workers, p.depth = 3, 4, 1
		p.pre = []string{"build", "go", "go"}
		p.wpanicP, p.wExitP = 20, 20
		p.pool = []int{0, 0, 1, 5, 9, 14, 15, 16, 13, 23}
		p.conds = 2
		p.filterP = 25
		if k%5 == 2 {
			p.flap()
			name = "flap"
		}
	case "C05":
		p.w = W{"build": 4, "call": 8, "times": 2, "go": 8, "join": 2, "unpatch": 1, "patch": 1, "yield": 2}
		p.ww = W{"call": 12, "times": 1, "yield": 1}
		p.targets = [2]int{1, 3}
		p.slots, p.workers, p.depth = 3, 4, 1
		p.wops = [2]int{2, 6}
		p.seqP = 90
		p.conds = 2
		p.pre = []string{"build", "go", "go"}
		p.pool = []int{0, 0, 1, 8, 16, 7, 5, 15}
		p.filterP = 20
		p.originP = 10
	case "C06":
		p.filterP = 85
		p.w = W{"build": 6, "call": 8, "times": 5, "go": 8, "join": 2, "unpatch": 1, "patch": 1, "yield": 2, "reconf": 4}
		p.ww = W{"call": 10, "times": 2, "yield": 1, "build": 1, "reconf": 1}
		p.slots, p.workers, p.depth = 4, 5, 1
		p.targets = [2]int{1, 3}
		p.reconfs = []string{"filter", "filter", "filter", "to"}
		p.pre = []string{"build", "go"}
		p.originP = 25
	case "C07":
		p.conds = 4
		p.whenP = 75
		p.targets = [2]int{2, 6}
		p.w = W{"build": 8, "call": 16, "times": 1, "go": 6, "join": 2, "unpatch": 2, "patch": 1, "scope": 1, "reconf": 1}
		p.ww = W{"call": 10, "yield": 1}
		p.workers = 3
		p.pre = []string{"build"}
		p.slots = 6
		p.stepP, p.wstepP = 45, 25
		p.attrP = 35
		if k%4 == 0 {
			name, p.workers, p.modes = "alone", 0, seqOnly
		}
	case "C08":
		p.originP = 100
		p.steps = W{"y": 4, "o": 8, "r": 2, "c": 2}
		p.stepP, p.wstepP = 90, 40
		p.ends = W{"val": 3, "orig": 6, "panic": 1}
		p.w = W{"again": 3, "build": 8, "call": 14, "times": 3, "go": 7, "join": 2, "unpatch": 2, "patch": 2, "scope": 2, "reconf": 2, "okept": 3, "rebuild": 1}
		p.ww = W{"call": 10, "yield": 1, "okept": 1}
		p.pool = []int{0, 1, 2, 4, 4, 5, 5, 6, 7, 8, 9, 10, 13, 14, 14, 15, 16, 17, 3, 11, 12, 19, 21, 22, 23, 24, 25, 27, 28, 29}
		p.workers = 3
		p.pre = []string{"build"}
		p.conds = 2
		p.attrP = 45
		p.filterP = 10
		p.reconfs = []string{"origin", "origin", "to", "filter"}
		if k%4 == 0 {
			name, p.workers, p.modes = "alone", 0, seqOnly
		}
	case "C09":
		p.w = W{"again": 3, "build": 9, "call": 12, "unpatch": 7, "patch": 6, "reconf": 6, "rebuild": 4, "scope": 4, "times": 4, "unpatchall": 1, "vmock": 1, "vunpatch": 1, "okept": 1}
		p.depth = 3
		p.ops = [2]int{5, 16}
		p.slots = 6
		p.workers = 0
		p.modes = seqOnly
		p.exitP = 10
		if k%5 == 0 {
			name, p.workers, p.modes = "workers", 2, base.modes
			p.w["go"] = 3
			p.ww = W{"call": 4, "build": 2, "unpatch": 3, "patch": 2, "reconf": 2, "times": 1}
		}
	case "C10":
		p.faultP = 35
		p.w = W{"again": 2, "build": 9, "call": 9, "unpatch": 5, "patch": 5, "reconf": 5, "rebuild": 2, "scope": 4, "times": 4, "unpatchall": 1, "vmock": 2, "vunpatch": 1, "vset": 1, "misuse": 6}
		p.depth = 2
		p.exitP = 15
		p.workers = 0
		p.modes = seqOnly
		if k%4 == 0 {
			name, p.workers, p.modes = "workers", 2, base.modes
			p.w["go"] = 3
		}
		if k%3 == 0 {
			p.faultP = 0
			p.w["misuse"] = 14
			name += "-refuse"
		}
		if k%6 == 1 {
			name, p.faultP = "reconf", 40
			p.workers, p.modes = 0, seqOnly
			p.w = W{"build": 6, "call": 8, "unpatch": 3, "patch": 4, "reconf": 12, "rebuild": 3, "scope": 3, "times": 3, "okept": 1}
			p.filterP, p.originP, p.conds, p.whenP = 60, 50, 1, 60
			p.slots, p.targets = 2, [2]int{1, 2}
			p.pre = []string{"build"}
			p.reconfs = []string{"to", "ret", "when", "filter", "filter", "origin"}
		}
		if k%6 == 2 {
			name, p.workers, p.modes = "variables", 0, seqOnly
			p.w = W{"vmock": 7, "vunpatch": 5, "vpatch": 5, "vset": 3, "vto": 2, "scope": 3, "misuse": 7, "unpatchall": 1, "build": 1}
			p.misuses = []string{"remockvar", "varbad", "vtobad", "vtobad", "varnotptr"}
		}
	case "C11":
		p.w = W{"build": 6, "call": 3, "go": 8, "unpatch": 7, "patch": 5, "reconf": 6, "yield": 3, "join": 1, "scope": 3, "unpatchall": 1, "rebuild": 1, "okept": 2}
		p.ww = W{"call": 10, "unpatch": 2, "patch": 2, "reconf": 1, "okept": 2, "yield": 1}
		p.workers = 3
		p.targets = [2]int{1, 2}
		p.slots = 3
		p.pre = []string{"build", "go"}
		p.steps = W{"y": 5, "o": 5, "u": 3, "r": 2, "c": 1}
		p.stepP, p.wstepP = 55, 30
		p.originP = 55
		p.filterP = 25
		p.exitP = 20
		p.attrP = 40
		p.ends = W{"val": 4, "orig": 4, "panic": 1}
		p.pool = []int{0, 0, 1, 1, 5, 4, 9, 14, 17, 6, 15, 2, 3}
		p.modes = W{"rand": 4, "pct": 3, "site": 5}
		if k%5 == 3 {
			p.flap()
			name = "flap"
		}
	case "C12":
		p.gcP = 90
		p.dropP = 50
		p.w = W{"build": 8, "call": 16, "gc": 6, "unpatch": 3, "patch": 2, "reconf": 2, "rebuild": 1, "scope": 3, "times": 2, "go": 2, "unpatchall": 1, "okept": 1}
		p.ww = W{"call": 8, "gc": 1}
		p.steps = W{"y": 3, "o": 5, "g": 5, "r": 1}
		p.stepP, p.wstepP = 50, 25
		p.originP = 60
		p.conds = 2
		p.ops = [2]int{4, 10}
		if k%3 == 0 {
			name, p.gcP, p.deepP = "stacks", 15, 100
			p.workers, p.modes = 0, seqOnly
			p.w = W{"build": 5, "call": 20, "scope": 1, "gc": 1, "unpatch": 1, "reconf": 4}
			p.pre = []string{"build", "call", "call", "call"}
			p.ends = W{"val": 4, "orig": 5}
			p.attrP = 20
			switch k / 3 % 3 {
			case 0: // frames that the stack check has to add up
				p.pool = []int{18, 18, 19, 20, 20, 26, 26, 30, 30}
				p.targets = [2]int{1, 1}
				p.slots = 3
				p.w["scope"] = 3
				if k%2 == 1 { // nested, and released in any order
					p.w = W{"build": 6, "call": 12, "scope": 6, "unpatch": 5, "gc": 1, "reconf": 3}
					p.pre = []string{"build", "scope"}
					p.ops = [2]int{3, 7}
					p.originP = 30
				}
			case 1:
				p.pool = []int{18, 19, 20, 20, 5, 1, 30}
				p.gcP, p.gcBurst = 90, true
			}
		}
	case "C13":
		p.w = W{"build": 8, "call": 6, "unpatch": 5, "patch": 4, "reconf": 3, "rebuild": 1, "scope": 3, "times": 1, "unpatchall": 1, "go": 3, "conc": 1, "join": 1}
		p.ww = W{"call": 6, "unpatch": 2, "patch": 2, "build": 1}
		p.faultP = 20
		if k%3 == 0 {
			p.faultP = 0
		}
		if k%3 == 1 {
			name, p.workers, p.modes = "alone", 0, seqOnly
		}
		p.exitP = 10
	case "C14":
		p.reps = 32
		p.ops = [2]int{2, 7}
		p.w = W{"build": 8, "call": 4, "unpatch": 4, "patch": 3, "reconf": 3, "rebuild": 2, "scope": 3, "vmock": 2, "vunpatch": 1, "misuse": 1, "unpatchall": 1, "go": 1}
		p.exitP = 25
		p.workers = 1
		p.depth = 2
		p.modes = W{"seq": 3, "rand": 1}
		p.steps = W{"y": 2, "o": 4}
		if k%2 == 0 {
			name, p.faultP = "faults", 25
		}
		if k%5 == 1 {
			name, p.long, p.faultP, p.seqP = "long", true, 0, 0
			p.pre = []string{"build", "build"}
			p.w = W{"call": 10, "go": 8, "join": 2, "okept": 2, "times": 1, "unpatch": 1, "patch": 2, "reconf": 1}
			p.ww = W{"call": 10, "okept": 1}
			p.pool = []int{0, 4, 5, 9, 11, 13, 14, 14, 21, 22, 27, 28, 28, 29}
			p.originP, p.workers, p.targets, p.slots = 70, 3, [2]int{1, 2}, 2
		}
	case "C15":
		p.w = W{"again": 2, "build": 9, "call": 8, "unpatchall": 7, "scope": 5, "unpatch": 3, "patch": 5, "times": 4, "vmock": 4, "vpatch": 3, "vunpatch": 1, "vset": 2, "reconf": 1, "rebuild": 1, "misuse": 1}
		p.depth = 3
		p.slots = 7
		p.targets = [2]int{2, 7}
		p.misuses = []string{"remock", "remockvar"}
		p.exitP = 15
		p.ops = [2]int{5, 14}
		if k%3 != 0 {
			name, p.workers, p.modes = "alone", 0, seqOnly
		} else {
			p.w["go"] = 3
		}
	case "C16":
		p.w = W{"build": 4, "call": 4, "conc": 8, "concvar": 3, "vmock": 3, "times": 2, "go": 4, "scope": 1, "unpatch": 1, "patch": 1}
		p.ww = W{"call": 8, "times": 2, "yield": 1}
		p.workers = 2
		p.targets = [2]int{1, 2}
		p.slots, p.vslots = 2, 2
		p.ops = [2]int{3, 7}
		p.pre = []string{"build", "conc"}
		p.depth = 1
		p.filterP = 10
		p.conds = 2
		p.wpanicP, p.wExitP = 5, 5
	}
	return name, p
}

// flap makes programs that release and re-apply a mock over and over while
// other goroutines call the function.
func (p *prof) flap() {
	p.targets, p.slots, p.depth, p.conds = [2]int{1, 1}, 1, 1, 1
	p.pre = []string{"build", "go", "go"}
	p.w = W{"unpatch": 10, "patch": 12, "reconf": 1, "yield": 3, "go": 2, "times": 1}
	p.ww = W{"call": 10, "yield": 1}
	p.ops, p.wops = [2]int{8, 20}, [2]int{3, 8}
	p.steps = W{"y": 8, "o": 1}
	p.ends = W{"val": 1, "orig": 6}
	p.originP, p.filterP, p.whenP, p.exitP, p.attrP = 20, 20, 50, 0, 10
	p.stepP, p.wstepP = 60, 50
	p.modes = W{"rand": 6, "pct": 1, "site": 3}
}

var NSites int

func generate(prop string, seed uint64) *Plan {
	g := &gen{s: seed * 0x9e3779b97f4a7c15}
	for _, c := range prop {
		g.s = (g.s ^ uint64(c)) * 1099511628211
	}
	rt.SplitMix(&g.s)
	name, pf := profile(prop, int(seed%420))
	wide := pf.reps == 0 && g.p100(6)
	if wide {
		// more of everything, for what depends on a number
		pf.conds += g.n(8)
		pf.slots += g.n(12)
		pf.vslots += g.n(12)
		pf.depth += g.n(6)
		if pf.workers > 0 {
			pf.workers += g.n(5)
		}
		pf.targets[1] += g.n(10)
		pf.ops[1] += g.n(16)
		pf.wops[1] += g.n(10)
	}
	g.wide = wide
	g.pf = pf
	g.p = &Plan{Prop: prop, Seed: seed, Prof: name, Reps: pf.reps, Text: pf.text, Debug: *debugF}
	// swarm: leave out some kinds of operation, step and end
	keep := map[string]bool{}
	for _, k := range pf.pre {
		keep[k] = true
	}
	sw := func(m W, order []string, one string) W {
		r := W{}
		for _, k := range order {
			if m[k] > 0 && (k == one || keep[k] || !g.p100(22)) {
				r[k] = m[k] * (1 + g.n(3))
			}
		}
		return r
	}
	g.w = sw(pf.w, opOrder, "build")
	g.ww = sw(pf.ww, opOrder, "call")
	g.steps = sw(pf.steps, stepOrder, "y")
	g.ends = sw(pf.ends, endOrder, "val")
	g.faultP = pf.faultP
	if g.p100(20) {
		g.faultP /= 3
	}
	g.exitP = pf.exitP
	g.confOf, g.slotT = map[int]*Conf{}, map[int]int{}
	pool := pf.pool
	if pool == nil {
		pool = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 19, 21, 22, 23, 24, 25, 27, 28, 29}
	}
	for i, n := 0, g.rng(pf.targets[0], pf.targets[1]); i < n; i++ {
		g.ts = append(g.ts, pool[g.n(len(pool))])
	}
	g.slots, g.vslots = 1+g.n(pf.slots), 1+g.n(pf.vslots)
	for i, n := 0, 1+g.n(6); i < n; i++ {
		g.vs = append(g.vs, g.n(19))
	}
	mode := g.pick(pf.modes, []string{"seq", "rand", "pct", "site"})
	g.seqMode = mode == "seq"
	if mode == "seq" && g.p100(70) {
		delete(g.w, "go")
	}
	if mode != "seq" && !*stw {
		// the two writes to code on two pages are not atomic unless the
		// world is stopped: no calls from other goroutines then
		for i, t := range g.ts {
			if t == tRaw {
				g.ts[i] = 0
			}
		}
	}
	g.most = g.of(15, 30, 50, 100, 250)
	if wide {
		g.most *= 2
	}
	for _, k := range pf.pre {
		g.p.Prog = append(g.p.Prog, g.op(k, pf.depth, false, false))
	}
	if pf.long {
		g.p.Long = len(g.p.Prog)
	}
	g.p.Prog = append(g.p.Prog, g.body(pf.ops, pf.depth, false)...)
	s := &g.p.Sched
	s.Seed, s.MapSeed = rt.SplitMix(&g.s), rt.SplitMix(&g.s)
	s.Mode = mode
	switch mode {
	case "rand":
		s.P = g.of(1, 2, 3, 5, 9, 20, 60)
	case "pct", "site":
		for i, n := 0, g.rng(1, 6); i < n; i++ {
			s.Points = append(s.Points, 1+int64(rt.SplitMix(&g.s)%uint64(g.est+1)))
		}
		sortI64(s.Points)
		if mode == "site" {
			s.Mode = "pct"
			if g.p100(60) {
				s.Points = nil
			}
			for i, n := 0, g.rng(1, 4); i < n; i++ {
				s.Sites = append(s.Sites, rt.SiteStop{Site: g.n(NSites+12) - 12, Nth: 1 + g.n(1+g.n(12))})
			}
		}
	}
	if g.p100(pf.gcP) {
		for i, n := 0, g.rng(1, 6); i < n; i++ {
			at := 1 + int64(rt.SplitMix(&g.s)%uint64(g.est+1))
			s.GC = append(s.GC, at)
			if pf.gcBurst {
				for j, m := 0, g.rng(5, 30); j < m; j++ {
					s.GC = append(s.GC, at+int64(j))
				}
			}
		}
		sortI64(s.GC)
	}
	return g.p
}

func sortI64(a []int64) {
	for i := range a {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

func (g *gen) id() int { g.ids++; return g.ids }

func (g *gen) target() int { return g.ts[g.n(len(g.ts))] }

func (g *gen) body(r [2]int, depth int, worker bool) (ops []Op) {
	for i, n := 0, g.rng(r[0], r[1]); i < n; i++ {
		w := g.w
		if worker {
			w = g.ww
		}
		k := g.pick(w, opOrder)
		if k == "" {
			continue
		}
		if (k == "scope" || k == "xscope" || k == "conv") && (depth <= 0 || worker) {
			k = g.str("build", "call", "times")
			if worker {
				k = "call"
			}
		}
		if g.made++; g.made > g.most {
			break // large enough
		}
		ops = append(ops, g.op(k, depth, worker, i == n-1))
		// after something has happened, look at its effect
		switch k {
		case "unpatch", "patch", "reconf", "rebuild", "again", "build", "unpatchall", "misuse", "scope":
			if g.p100(50) {
				ops = append(ops, g.op("call", 0, worker, false))
			}
		}
	}
	return
}

func (g *gen) fault(o *Op) {
	if !g.p100(g.faultP) {
		return
	}
	o.F = 1 + g.n(1+g.n(9))
	o.E = g.of(int(syscall.ENOMEM), int(syscall.EACCES), int(syscall.EAGAIN), int(syscall.EPERM))
	o.S = g.p100(25)
	for _, t := range g.ts {
		if t == tRaw { // a write to two pages cannot be undone then
			o.S = false
		}
	}
}

func (g *gen) op(k string, depth int, worker, last bool) Op {
	o := Op{K: k}
	switch k {
	case "scope", "xscope", "conv":
		g.scopes++
		o.M = g.scopes
		o.N = g.n(3)
		o.Sub = g.body(g.pf.ops, depth-1, false)
		if depth > 0 && k == "conv" {
			o.Sub = append(o.Sub, g.op("scope", depth-1, false, false))
		}
		if k != "conv" && g.p100(g.exitP) {
			o.X = g.str("panic", "so", "panic", "nilpanic", "so", "contfail")
			if k == "xscope" && g.p100(60) {
				o.X = "goexit"
			}
		}
		if k != "conv" {
			g.fault(&o)
		}
		g.est += 60
	case "build":
		o.M = g.n(g.slots)
		o.T = g.target()
		o.N = g.n(10)
		o.C = g.conf(o.T)
		g.confOf[o.M], g.slotT[o.M] = o.C, o.T
		if g.p100(g.pf.dropP) {
			o.X = "drop"
		}
		g.fault(&o)
		g.est += 400
	case "rebuild":
		o.M = g.n(g.slots)
		o.C = g.conf(g.tOf(o.M))
		g.fault(&o)
		g.est += 400
	case "again":
		o.M = g.n(g.slots)
		o.N = g.n(g.slots)
		g.fault(&o)
		g.est += 400
	case "patch", "unpatch":
		o.M = g.n(g.slots)
		o.N = g.n(2)
		g.fault(&o)
		g.est += 200
	case "reconf":
		o.M = g.n(g.slots)
		o.X = g.pf.reconfs[g.n(len(g.pf.reconfs))]
		o.C = g.conf(g.tOf(o.M))
		d := &o.C.Conds
		if len(*d) == 0 {
			*d = []Cond{{}}
		}
		t := g.tOf(o.M)
		switch o.X {
		case "to":
			(*d)[0].A = g.act(t, "hook", o.C)
		case "ret":
			(*d)[0].A = g.act(t, g.str("ret", "nil"), o.C)
		case "when":
			(*d)[0].W = g.when(t, o.C)
		}
		o.N = g.n(6)
		g.fault(&o)
		g.est += 500
	case "misuse":
		o.X = g.pf.misuses[g.n(len(g.pf.misuses))]
		o.T = g.target()
		if o.X == "varbad" {
			o.T = g.vs[g.n(len(g.vs))]
		}
		o.M = g.n(g.slots)
		o.N = g.n(7)
		o.A, o.E = g.n(64), g.n(3)
		g.est += 80
	case "unpatchall":
		g.fault(&o)
		g.est += 200
	case "call":
		o.T = g.target()
		o.N = g.of(1, 1, 1, 2, 3)
		if g.wide && g.p100(5) {
			o.N = g.of(10, 40, 130, 300)
		}
		if g.p100(g.pf.attrP) && len(g.pf.attrs) > 0 {
			o.A = g.pf.attrs[g.n(len(g.pf.attrs))]
			if g.p100(30) {
				o.A |= aOrigYield
			}
		}
		if worker && last && g.p100(g.pf.wExitP) {
			o.A |= g.of(aOrigExit, aHookExit, aOrigExit|aHookExit)
		}
		if !worker && g.p100(g.pf.deepP) {
			o.A |= aDeep
			o.M = g.n(220)
			if g.p100(30) {
				o.M = g.n(900)
			}
			o.M += 4096 * g.n(12)
			o.N = 1
		}
		g.est += int64(60 * o.N)
	case "times", "okept":
		o.M = g.n(g.slots)
		if k == "okept" && g.p100(20) {
			o.A = g.of(aOrigPanic, aOrigRec, aOrigYield)
		}
	case "yield":
		o.N = 1 + g.n(6)
	case "go":
		if g.workers >= g.pf.workers*3 || g.pf.workers == 0 {
			return g.op("call", depth, worker, last)
		}
		g.workers++
		o.M = g.workers
		o.Sub = g.body(g.pf.wops, 0, true)
	case "conc", "concvar":
		o.K = "conc"
		o.N = g.n(2)
		o.M = g.n(g.slots)
		if k == "concvar" {
			o.X = "var"
			o.M = g.n(g.vslots)
		}
		for i, n := 0, g.rng(2, 4); i < n; i++ {
			var sub []Op
			for j, m := 0, g.rng(1, 4); j < m; j++ {
				switch g.n(8) {
				case 0, 1, 2:
					sub = append(sub, Op{K: "cpatch"})
				case 3, 4, 5:
					sub = append(sub, Op{K: "cunpatch"})
				case 6:
					sub = append(sub, Op{K: "times"})
				default:
					if k == "conc" {
						sub = append(sub, Op{K: "call", T: g.tOf(o.M)})
					} else {
						sub = append(sub, Op{K: "yield", N: 1})
					}
				}
			}
			o.Sub = append(o.Sub, Op{K: "seq", Sub: sub})
		}
		g.est += 1500
	case "vmock", "vpatch", "vunpatch", "vset", "vto":
		o.M = g.n(g.vslots)
		o.T = g.vs[g.n(len(g.vs))]
		o.N = g.n(40)
		if k == "vmock" && g.p100(15) {
			o.X = "later"
		}
		g.est += 40
	}
	return o
}

func (g *gen) tOf(slot int) int {
	if t, ok := g.slotT[slot]; ok {
		return t
	}
	return g.target()
}

func (g *gen) conf(t int) *Conf {
	c := &Conf{FirstO: g.p100(50)}
	if g.p100(g.pf.originP) {
		c.Origin = 1 + g.n(2)
	}
	if g.p100(g.pf.filterP) {
		c.Filter = g.str("inc", "exc", "inc", "exc", "off")
		switch g.n(6) {
		case 0, 1:
			c.FG = 0
		case 2, 3:
			c.FG = 1 + g.n(1+g.pf.workers*2)
		case 4:
			c.FG = g.of(100, 101, 102)
		default:
			c.FG = 110 + g.n(34)
		}
		if c.Filter == "off" {
			c.Filter = ""
		}
	}
	n := g.rng(1, g.pf.conds)
	if g.p100(5) {
		n = 0
	}
	for i := 0; i < n; i++ {
		last := i == n-1
		d := Cond{}
		if !last || g.p100(g.pf.whenP) {
			d.W = g.when(t, c)
		}
		if !last || d.W == nil || !g.p100(15) {
			kind := "hook"
			switch x := g.n(100); {
			case x < g.pf.seqP:
				kind = "seq"
			case x < g.pf.seqP+(100-g.pf.seqP)/4:
				kind = "ret"
			case x < g.pf.seqP+(100-g.pf.seqP)/3:
				kind = "nil"
			}
			d.A = g.act(t, kind, c)
		}
		c.Conds = append(c.Conds, d)
	}
	return c
}

func nilable(t int) bool { return t == 1 || t == 8 || t == 16 }

func (g *gen) act(t int, kind string, c *Conf) *Act {
	if kind == "seq" && targets[t].Void {
		kind = "ret"
	}
	if kind == "nil" && !nilable(t) {
		kind = "ret"
	}
	a := &Act{ID: g.id(), Kind: kind, Recv: g.p100(50), Gen: g.p100(50), End: "val"}
	switch kind {
	case "seq":
		if old, ok := g.seqT[t]; ok && g.p100(12) { // share a sequence
			a.Seq = old
			break
		}
		if g.seqs == 0 {
			g.seqs = g.n(4000)
			g.seqT = map[int]int{}
		}
		g.seqs++
		a.Seq = g.seqs*8 + g.n(8)
		g.seqT[t] = a.Seq
	case "hook":
		a.End = g.pick(g.ends, endOrder)
		if a.End == "" {
			a.End = "val"
		}
		if g.pf.wExitP > 0 && g.p100(15) {
			a.End = "goexit"
		}
		a.Steps = g.stepList(g.pf.stepP, c, true)
		if a.End == "orig" {
			if c.Origin == 0 && !g.p100(10) {
				a.End = "val"
			} else {
				a.Steps = append(a.Steps, "o")
			}
		}
	}
	return a
}

func (g *gen) when(t int, c *Conf) *When {
	w := &When{ID: g.id(), Recv: g.p100(50), Gen: g.p100(50)}
	switch g.n(4) {
	case 0:
		w.Mask = 255
	case 1:
		w.Mask = 1 << g.n(8)
	case 2:
		w.Mask = g.n(256)
	default:
		w.Mask = 0x55 << g.n(2)
	}
	w.Panic = g.p100(g.pf.wpanicP / 2)
	w.Steps = g.stepList(g.pf.wstepP, c, false)
	return w
}

func (g *gen) stepList(p int, c *Conf, hook bool) (r []string) {
	for g.p100(p) && len(r) < 4 {
		s := g.pick(g.steps, stepOrder)
		switch s {
		case "":
			return
		case "c":
			s = fmt.Sprintf("c%d", g.target())
		case "o":
			if c.Origin == 0 {
				continue2 := g.p100(50)
				if continue2 {
					s = "y"
				}
			}
		case "u", "r":
			if !hook && g.p100(60) {
				s = "y"
			}
		}
		r = append(r, s)
	}
	return
}
