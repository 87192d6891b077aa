package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"time"

	"github.com/bytedance/mockey"

	"verifsim/rt"
)

// Result is what a worker process reports, as JSON on its last line.
type Result struct {
	Runs      int64            `json:"runs"`
	Steps     int64            `json:"steps"`
	Switches  int64            `json:"switches"`
	RT        rt.Stats         `json:"rt"`
	Stat      statT            `json:"stat"`
	Sites     []int            `json:"sites"`
	Profs     map[string]int64 `json:"profs"`
	Modes     map[string]int64 `json:"modes"`
	Wall      float64          `json:"wall"`
	NextSeed  uint64           `json:"next"`
	Violation *Violation       `json:"violation,omitempty"`
	Samples   []string         `json:"samples,omitempty"`
	Known     []string         `json:"known,omitempty"`
	NHash     int              `json:"nhash"`
	SimNS     int64            `json:"simns"`
}

type Violation struct {
	Kind  string   `json:"kind"`
	Msg   string   `json:"msg"`
	Plan  *Plan    `json:"plan"`
	Trace []string `json:"trace"`
	Seed  uint64   `json:"seed"`
}

var (
	outFile  = flag.String("out", "", "result file")
	progFile = flag.String("progress", "", "file holding the seed being run")
	prop     = flag.String("prop", "C01", "property")
	seed0    = flag.Uint64("seed", 1, "first seed")
	stride   = flag.Uint64("stride", 1, "seed stride")
	count    = flag.Int64("n", 1<<60, "number of runs")
	budget   = flag.Float64("budget", 10, "seconds")
	planFile = flag.String("plan", "", "run this plan only")
	dump     = flag.Bool("dump", false, "print plans")
	hashFile = flag.String("hashes", "", "file for interleaving hashes")
	logHash  = flag.String("loghash", "", "file for one line per run (determinism test)")
	verbose  = flag.Bool("v", false, "print the trace")
	debugF   = flag.Bool("debug", false, "the process runs with MOCKEY_DEBUG")
	nsites   = flag.Int("nsites", 0, "instrumented sites of the build")
	stw      = flag.Bool("stw", false, "the build has stop-the-world enabled")
)

var res Result
var began time.Time
var curPlan *Plan

func main() {
	flag.Parse()
	debug.SetGCPercent(-1)
	debug.SetMaxStack(64 << 20)
	runtime.GOMAXPROCS(1)
	began = time.Now()
	badArgs = func(where string, args ...interface{}) {
		fail("arguments", "%s saw arguments or results that no call passed: %v", where, args)
	}
	rt.NeedSTW = *stw
	NSites = *nsites
	runtime.GC()
	initTargets()
	initVars()
	snapshotText()
	rt.OnStart = worldGoesOn
	res.Profs, res.Modes = map[string]int64{}, map[string]int64{}
	rt.OnFail = onFail
	var logf *os.File
	if *logHash != "" {
		logf, _ = os.Create(*logHash)
	}
	if *planFile != "" {
		b, err := os.ReadFile(*planFile)
		if err != nil {
			fatal(err)
		}
		var p Plan
		if err := json.Unmarshal(b, &p); err != nil {
			fatal(err)
		}
		execute(&p)
		if logf != nil {
			fmt.Fprintf(logf, "%d %x %d %d %d\n", p.Seed, rt.Hash, rt.St.Steps, tickN, len(recs))
		}
		report()
		return
	}
	hashes := map[uint64]struct{}{}
	seed := *seed0
	for i := int64(0); i < *count; i++ {
		if i&15 == 0 && time.Since(began).Seconds() > *budget {
			break
		}
		p := generate(*prop, seed)
		if *dump {
			b, _ := json.Marshal(p)
			fmt.Fprintln(os.Stderr, string(b))
		}
		if *progFile != "" {
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], seed)
			progress(b[:])
		}
		execute(p)
		if len(res.Samples) < 2 && i%7 == 3 {
			b, _ := json.Marshal(p)
			if len(b) > 3000 {
				b = b[:3000]
			}
			res.Samples = append(res.Samples, string(b))
		}
		if len(hashes) < 2<<20 {
			hashes[rt.Hash^uint64(rt.St.Steps)*0x9e3779b97f4a7c15^progHash(p)] = struct{}{}
		}
		if logf != nil {
			fmt.Fprintf(logf, "%d %x %d %d %d\n", seed, rt.Hash, rt.St.Steps, tickN, len(recs))
		}
		if i%64 == 63 {
			trimMem()
		}
		seed += *stride
	}
	res.NextSeed = seed
	res.NHash = len(hashes)
	if *hashFile != "" {
		b := make([]byte, 0, 8*len(hashes))
		for h := range hashes {
			b = binary.LittleEndian.AppendUint64(b, h)
		}
		os.WriteFile(*hashFile, b, 0o644)
	}
	report()
}

func progHash(p *Plan) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range []byte(p.Prof) {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return h ^ uint64(len(p.Prog))<<40 ^ uint64(len(recs))<<20
}

var progFd *os.File

func progress(b []byte) {
	if progFd == nil {
		progFd, _ = os.Create(*progFile)
	}
	progFd.WriteAt(b, 0)
}

var lastGC int

func trimMem() {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	if m.HeapAlloc > 256<<20 {
		runtime.GC()
	}
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "harness:", err)
	os.Exit(3)
}

func report() {
	res.Wall = time.Since(began).Seconds()
	res.Stat = stat
	res.Sites = rt.SiteHits()
	b, err := json.Marshal(&res)
	if err != nil {
		fatal(err)
	}
	if *outFile != "" {
		os.WriteFile(*outFile, b, 0o644)
	} else {
		fmt.Fprintln(os.Stderr, string(b))
	}
}

func onFail(kind, msg string) {
	p := *curPlan
	p.Sched.Switches = append([]rt.Switch(nil), rt.Rec...)
	if p.Sched.Mode == "replay" {
		p.Sched.Switches = curPlan.Sched.Switches
	}
	p.Sched.Mode = "replay"
	p.Sched.Points = nil
	t := trace
	if len(t) > 200 {
		t = t[len(t)-200:]
	}
	if kind == "harness" {
		fmt.Fprintln(os.Stderr, "harness error:", msg)
		os.WriteFile(*outFile+".harness", []byte(msg), 0o644)
		os.Exit(3)
	}
	res.Violation = &Violation{Kind: kind, Msg: msg, Plan: &p, Trace: t, Seed: p.Seed}
	if *verbose {
		fmt.Fprintln(os.Stderr, "VIOLATION", kind, msg)
	}
	report()
	os.Exit(4)
}

func addStats() {
	a, b := reflect.ValueOf(&res.RT).Elem(), reflect.ValueOf(rt.St)
	for i := 0; i < a.NumField(); i++ {
		a.Field(i).SetInt(a.Field(i).Int() + b.Field(i).Int())
	}
	res.Runs++
	res.Steps += rt.St.Steps
	res.Switches += rt.St.Switches
	res.Profs[curPlan.Prof]++
	res.Modes[curPlan.Sched.Mode]++
}

func resetRun(p *Plan) {
	plan = p
	tickN = 0
	recs, live, trace = nil, nil, nil
	groups = make([]*Group, len(targets))
	for i := range groups {
		groups[i] = &Group{ops: []*opRec{{t0: -1, t1: -1, fins: []state{nil}, over: inf}}}
	}
	scopes = []*Scope{{name: "outside"}}
	handles, vhandles = map[int]*Handle{}, map[int]*VarHandle{}
	limbos = nil
	seqs = map[int]*seqObj{}
	gidOf = map[int]int64{}
	workers, pending, lifeBusy, inRoot = nil, nil, false, false
	rawHalf, rawBoth = false, false
	resetVars()
}

func execute(p *Plan) {
	curPlan = p
	resetRun(p)
	rt.Live = map[uintptr]int{}
	rt.BadUnmap = 0
	if p.Reps > 0 {
		executeReps(p)
		addStats()
		return
	}
	rt.Run(p.Sched, 2000000, func() {
		runOps(p.Prog)
		wind()
		final(p)
	})
	addStats()
}

// wind ends everything the program left running or in force.
func wind() {
	join()
	finishExit()
	if len(scopes) != 1 {
		fail("harness", "scopes left")
	}
	if plan.Seed%2 == 0 {
		runOp(&Op{K: "unpatchall"})
	}
	for {
		l := scopes[0].list
		if len(l) == 0 {
			break
		}
		switch h := l[int(plan.Seed>>3)%len(l)].(type) {
		case *Handle:
			if h.real == nil {
				runOp(&Op{K: "unpatchall"})
				continue
			}
			runOp(&Op{K: "unpatch", M: h.slot})
			if handles[h.slot] != h {
				// the slot has been reused: release the old handle directly
				lifeLock()
				if h.inForce {
					opUnpatch(h, nil)
				}
				lifeUnlock()
			}
		case *VarHandle:
			lifeLock()
			if p := try(func() { h.real.UnPatch() }); p != nil {
				unexpected("releasing a variable mock", p)
			}
			h.inForce = false
			h.shadowRestore()
			deregister(h)
			lifeUnlock()
		}
	}
}

// final judges the end of a run: everything as it was.
func final(p *Plan) {
	checkVars("at the end")
	for _, g := range groups {
		if len(g.cur) != 0 {
			fail("harness", "group in force at end")
		}
	}
	if d := textDiff(); len(d) > 0 {
		fail("code", "at the end, with no mock in force, code differs from the original at %s", where(d[0]))
	}
	if p.Seed%16 == 0 || p.Text {
		checkMaps("at the end")
	}
	used := map[int]bool{}
	for _, r := range recs {
		used[r.T] = true
	}
	// released handles count nothing and touched functions are originals that can be mocked
	for _, s := range sortedSlots() {
		readTimes(handles[s])
	}
	for t := range targets {
		if !used[t] {
			continue
		}
		doCall(t, 0, nil, nil)
		if (p.Seed>>4+uint64(t))%3 == 0 {
			stat.Remocks++
			c := &Conf{Conds: []Cond{{A: &Act{ID: 900 + t, Kind: "ret"}}}}
			lifeLock()
			opBuild(&Op{K: "build", M: 950, T: t, C: c}, nil)
			lifeUnlock()
			doCall(t, 0, nil, nil)
			readTimes(handles[950])
			lifeLock()
			opUnpatch(handles[950], nil)
			lifeUnlock()
			delete(handles, 950)
			doCall(t, 0, nil, nil)
		}
	}
	seqCheck()
	if rt.Sys[6] != 0 && rt.NeedSTW {
		fail("stw", "%d code page(s) were made writable while the world was running", rt.Sys[6])
	}
	if a, b := rt.Stops(); a != b || rt.WorldStopped() {
		fail("stw", "world stopped %d times and started %d times", a, b)
	}
	if rt.BadUnmap > 0 {
		fail("pages", "%d release(s) of memory that was not mapped by the library", rt.BadUnmap)
	}
	if int64(len(rt.Live)) > rt.St.FaultMunmap { // a page whose release failed may be lost
		fail("pages", "%d page(s) still mapped with no mock in force", len(rt.Live))
	}
	if d := textDiff(); len(d) > 0 {
		fail("code", "at the end, code differs from the original at %s", where(d[0]))
	}
}

func sortedSlots() (r []int) {
	for i := 0; i < 1000; i++ {
		if handles[i] != nil {
			r = append(r, i)
		}
	}
	return
}

// inForce counts the mocks in force.
func inForce() (n int) {
	for _, g := range groups {
		n += len(g.cur)
	}
	return
}

// executeReps repeats the program and compares what is held afterwards.
func executeReps(p *Plan) {
	rt.Run(p.Sched, 20000000, func() {
		var base runtime.MemStats
		var held int
		var munmap int64
		// What a leak adds it adds again and again: only what grew in three
		// consecutive periods, each twice as long as the one before, counts.
		from, end, period := p.Reps/4, p.Reps-1, 0
		prog := p.Prog
		if p.Long > 0 && p.Long < len(prog) {
			runOps(prog[:p.Long])
			prog = prog[p.Long:]
		}
		over := func() {
			wind()
			if d := textDiff(); len(d) > 0 {
				fail("code", "with no mock in force, code differs from the original at %s", where(d[0]))
			}
		}
		for i := 0; i <= end; i++ {
			runOps(prog)
			if p.Long > 0 {
				join()
				finishExit()
			} else {
				over()
			}
			if p.Long > 0 {
				if l := int64(len(rt.Live)); l > int64(inForce())+rt.St.FaultMunmap || rt.BadUnmap > 0 {
					fail("pages", "cycle %d: %d page(s) mapped with %d mock(s) in force, %d bad release(s)", i, l, inForce(), rt.BadUnmap)
				}
			} else if int64(len(rt.Live)) > rt.St.FaultMunmap || rt.BadUnmap > 0 {
				fail("pages", "cycle %d: %d page(s) still mapped with no mock in force, %d bad release(s)", i, len(rt.Live), rt.BadUnmap)
			}
			seqCheck()
			// forget the harness's own records
			recs, trace = recs[:0:0], nil
			if p.Long == 0 {
				handles, vhandles, seqs = map[int]*Handle{}, map[int]*VarHandle{}, map[int]*seqObj{}
				resetVars()
			}
			for _, g := range groups {
				*g = Group{ops: []*opRec{{t0: -1, t1: -1, fins: []state{g.cur}, over: inf}}, cur: g.cur}
			}
			rt.Reset()
			if i == from || i == end {
				runtime.GC()
				runtime.GC()
				var m runtime.MemStats
				runtime.ReadMemStats(&m)
				n := 0
				readMaps(func(lo, hi uintptr, perm, path string) {
					if path == "" {
						n++
					}
				})
				if i == end {
					cyc := end - from
					what := ""
					// a page whose release failed is lost
					lost := int(rt.St.FaultMunmap - munmap)
					if d := int(m.HeapObjects) - int(base.HeapObjects) - 4*lost; d >= cyc {
						what = fmt.Sprintf("%d more heap objects", d)
					} else if d := int(m.HeapAlloc) - int(base.HeapAlloc) - 512*lost; d >= cyc*48 {
						what = fmt.Sprintf("%d more heap bytes", d)
					} else if n-held-lost >= cyc/2 {
						what = fmt.Sprintf("%d more mappings", n-held)
					}
					if what != "" {
						if period++; period == 3 {
							fail("memory", "%d cycles of mocking and releasing left %s", cyc, what)
						}
						from, end = i, i+2*cyc
					}
				}
				base, held, munmap = m, n, rt.St.FaultMunmap
			}
		}
		if p.Long > 0 {
			over()
			if int64(len(rt.Live)) > rt.St.FaultMunmap {
				fail("pages", "at the end: %d page(s) still mapped with no mock in force", len(rt.Live))
			}
		}
	})
}

var _ = mockey.Mock
