// The driver of the checks: builds the simulator from the library's sources
// as they are, searches, confirms, minimises and reports.
package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

var (
	verifDir = "/verif"
	repoDir  = "/repo"
	workDir  string
	began    = time.Now()
)

func logf(f string, a ...interface{}) { fmt.Fprintf(os.Stderr, f+"\n", a...) }

func trouble(f string, a ...interface{}) {
	fmt.Printf("ERROR "+f+"\n", a...)
	cleanup()
	os.Exit(2)
}

func cleanup() {
	if workDir != "" {
		os.RemoveAll(workDir)
	}
}

func main() {
	if v := os.Getenv("VERIF_DIR"); v != "" {
		verifDir = v
	}
	if v := os.Getenv("VERIF_REPO"); v != "" {
		repoDir = v
	}
	if len(os.Args) < 3 {
		logf("usage: check PROPERTY quick|thorough; replay FILE; build DIR")
		os.Exit(2)
	}
	var err error
	workDir, err = os.MkdirTemp("", "mockeysim")
	if err != nil {
		trouble("%v", err)
	}
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGINT, syscall.SIGTERM, syscall.SIGHUP)
	go func() {
		<-sig
		killAll()
		cleanup()
		os.Exit(2)
	}()
	code := 2
	switch os.Args[1] {
	case "check":
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		code = check(os.Args[2], tier)
	case "replay":
		code = replayFile(os.Args[2])
	case "build":
		for _, stw := range []bool{false, true} {
			b, err := buildWorker(stw)
			if err != nil {
				trouble("%v", err)
			}
			fmt.Printf("%d sites, level %d, %d stores, %d map loops, %d map accesses, %d system calls, %d assembly calls, %d goroutines, %d stops\n", len(b.Sites), b.level, b.Stores, b.Maps, b.MapAcc, b.Sys, b.Asm, b.Gos, b.STW)
			exec.Command("cp", b.bin, filepath.Join(os.Args[2], filepath.Base(b.bin))).Run()
			if !stw {
				var l strings.Builder
				for i, s := range b.Sites {
					fmt.Fprintf(&l, "%d %s %s\n", i, s.Pos, s.Func)
				}
				os.WriteFile(filepath.Join(os.Args[2], "sites"), []byte(l.String()), 0o644)
				os.WriteFile(filepath.Join(os.Args[2], "nsites"), []byte(fmt.Sprintln(len(b.Sites))), 0o644)
			}
		}
		code = 0
	}
	cleanup()
	os.Exit(code)
}

// ---- building

func buildWorker(stw bool) (*build, error) {
	name := "worker"
	if stw {
		name = "worker-stw"
	}
	dir := filepath.Join(workDir, "m-"+name)
	if err := makeModule(dir, verifDir, repoDir); err != nil {
		return nil, err
	}
	var last error
	for level := 2; level >= 0; level-- {
		b := &build{dir: dir, level: level, bin: filepath.Join(workDir, name), stw: stw}
		if err := b.instrument(workDir); err != nil {
			logf("instrumentation level %d: %v", level, err)
			last = err
			continue
		}
		return b, nil
	}
	return nil, last
}

// ---- workers

type variant struct {
	stw, debug bool
}

func (v variant) String() string {
	s := "default build"
	if v.stw {
		s = "stop-the-world build"
	}
	if v.debug {
		s += ", MOCKEY_DEBUG"
	}
	return s
}

var (
	builds  = map[bool]*build{}
	childMu sync.Mutex
	childs  = map[int]bool{}
)

func killAll() {
	childMu.Lock()
	defer childMu.Unlock()
	for p := range childs {
		syscall.Kill(-p, syscall.SIGKILL)
	}
}

type outcome struct {
	code    int // 0 held, 4 violation, 3 harness trouble, -1 crash, -2 hang
	res     map[string]interface{}
	stderr  string
	seed    uint64 // the run in progress at a crash
	hasSeed bool
}

func (o *outcome) viol() map[string]interface{} {
	if o.res == nil {
		return nil
	}
	v, _ := o.res["violation"].(map[string]interface{})
	return v
}

var runSeq int
var runMu sync.Mutex

// runWorker runs a worker process. It is a hang if no run ends for a minute.
func runWorker(v variant, limit time.Duration, args ...string) *outcome {
	runMu.Lock()
	runSeq++
	id := runSeq
	runMu.Unlock()
	base := filepath.Join(workDir, fmt.Sprintf("r%d", id))
	out, prog, errf := base+".json", base+".seed", base+".err"
	defer func() {
		os.Remove(out)
		os.Remove(prog)
		os.Remove(errf)
		os.Remove(out + ".harness")
	}()
	b := builds[v.stw]
	a := append([]string{"-out", out, "-progress", prog, "-nsites", strconv.Itoa(len(b.Sites))}, args...)
	if v.stw {
		a = append(a, "-stw")
	}
	if v.debug {
		a = append(a, "-debug")
	}
	c := exec.Command(b.bin, a...)
	c.Dir = workDir
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	c.Env = append([]string{}, "PATH="+os.Getenv("PATH"), "HOME="+workDir, "TMPDIR="+workDir, "GOCONVEY_REPORTER=silent", "GODEBUG=clobberfree=1,asyncpreemptoff=1,adaptivestackstart=0", "GOTRACEBACK=all")
	if v.debug {
		c.Env = append(c.Env, "MOCKEY_DEBUG=true")
	}
	ef, err := os.Create(errf)
	if err != nil {
		return &outcome{code: 3, stderr: err.Error()}
	}
	c.Stderr = ef
	if err := c.Start(); err != nil {
		ef.Close()
		return &outcome{code: 3, stderr: err.Error()}
	}
	childMu.Lock()
	childs[c.Process.Pid] = true
	childMu.Unlock()
	done := make(chan struct{})
	hung := false
	go func() {
		// progress is measured in processor time of the worker, so that a
		// loaded machine is not taken for a hang
		lastSeed, since := "", time.Now()
		cpu0 := 0.0
		begin := time.Now()
		for {
			select {
			case <-done:
				return
			case <-time.After(500 * time.Millisecond):
			}
			s, _ := os.ReadFile(prog)
			cpu := cpuOf(c.Process.Pid)
			if string(s) != lastSeed {
				lastSeed, since, cpu0 = string(s), time.Now(), cpu
			}
			stuck := cpu-cpu0 > 25 && time.Since(since) > 25*time.Second || time.Since(since) > 150*time.Second
			if stuck || limit > 0 && time.Since(begin) > limit {
				hung = true
				syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
				return
			}
		}
	}()
	err = c.Wait()
	close(done)
	ef.Close()
	childMu.Lock()
	delete(childs, c.Process.Pid)
	childMu.Unlock()
	o := &outcome{}
	eb, _ := os.ReadFile(errf)
	if len(eb) > 60000 {
		eb = append(eb[:40000:40000], eb[len(eb)-20000:]...)
	}
	o.stderr = string(eb)
	if s, _ := os.ReadFile(prog); len(s) == 8 {
		o.seed, o.hasSeed = binary.LittleEndian.Uint64(s), true
	}
	if jb, e := os.ReadFile(out); e == nil {
		o.res = decode(jb)
	}
	switch code := c.ProcessState.ExitCode(); {
	case hung:
		o.code = -2
	case code == 0 && o.res != nil:
		o.code = 0
	case code == 4 && o.viol() != nil:
		o.code = 4
	case code == 3:
		o.code = 3
	default:
		o.code = -1
	}
	return o
}

func cpuOf(pid int) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	s := string(b)
	f := strings.Fields(s[strings.LastIndexByte(s, ')')+1:])
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	k, _ := strconv.ParseFloat(f[12], 64)
	return (u + k) / 100
}

func decode(b []byte) map[string]interface{} {
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	var m map[string]interface{}
	if d.Decode(&m) != nil {
		return nil
	}
	return m
}

// ---- failures

// A failure is a violation that has been confirmed in a fresh process.
type failure struct {
	Property string                 `json:"property"`
	Kind     string                 `json:"kind"`
	Msg      string                 `json:"msg"`
	Mode     string                 `json:"mode"` // plan: the plan below; seed: the run of that seed; history: the runs of First, First+Stride, ... up to Seed in one process
	Seed     uint64                 `json:"seed"`
	First    uint64                 `json:"first,omitempty"`
	Stride   uint64                 `json:"stride,omitempty"`
	Count    uint64                 `json:"count,omitempty"`
	STW      bool                   `json:"stw,omitempty"`
	Debug    bool                   `json:"debug,omitempty"`
	Plan     map[string]interface{} `json:"plan,omitempty"`
	Minimal  string                 `json:"minimised,omitempty"`
	Trace    interface{}            `json:"trace,omitempty"`
	Stderr   string                 `json:"stderr,omitempty"`
	HowTo    string                 `json:"replay"`
}

func (f *failure) variant() variant { return variant{f.STW, f.Debug} }

// rerun executes the failure once more.
func (f *failure) rerun() *outcome {
	switch f.Mode {
	case "plan":
		return runPlan(f.variant(), f.Plan)
	case "seed":
		return runWorker(f.variant(), 150*time.Second, "-prop", f.Property, "-seed", u64(f.Seed), "-n", "1")
	}
	return runWorker(f.variant(), 700*time.Second, "-prop", f.Property, "-seed", u64(f.First), "-stride", u64(f.Stride), "-n", u64(f.Count), "-budget", "1000000")
}

func u64(x uint64) string { return strconv.FormatUint(x, 10) }

func runPlan(v variant, plan map[string]interface{}) *outcome {
	runMu.Lock()
	runSeq++
	pf := filepath.Join(workDir, fmt.Sprintf("plan%d.json", runSeq))
	runMu.Unlock()
	b, _ := json.Marshal(plan)
	os.WriteFile(pf, b, 0o644)
	defer os.Remove(pf)
	return runWorker(v, 150*time.Second, "-plan", pf)
}

// kindOf classifies an outcome; "" if nothing is wrong.
func kindOf(o *outcome) (kind, msg string) {
	switch o.code {
	case 4:
		v := o.viol()
		k, _ := v["kind"].(string)
		m, _ := v["msg"].(string)
		return k, m
	case -1:
		return "crash", crashLine(o.stderr)
	case -2:
		return "hang", "a run did not end"
	}
	return "", ""
}

func crashLine(s string) string {
	var first string
	sc := bufio.NewScanner(strings.NewReader(s))
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		l := sc.Text()
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "SIG") || strings.HasPrefix(l, "unexpected fault") || strings.HasPrefix(l, "runtime:") {
			if first == "" {
				first = l
			} else {
				first += "; " + l
			}
			if len(first) > 200 {
				break
			}
		}
	}
	if first == "" {
		first = "the process died without a message"
	}
	return first
}

type lead struct {
	o             *outcome
	v             variant
	first, stride uint64
}

// confirm reruns what a worker found in fresh processes. Nil if it doesn't
// happen again: what can't be repeated is not reported.
func confirm(prop string, l *lead) *failure {
	kind, msg := kindOf(l.o)
	f := &failure{Property: prop, Kind: kind, Msg: msg, STW: l.v.stw, Debug: l.v.debug}
	same := func() bool {
		for i := 0; i < 2; i++ {
			o := f.rerun()
			k, m := kindOf(o)
			if k == "" || o.code == 3 {
				return false
			}
			if i == 0 {
				f.Kind, f.Msg = k, m
			} else if k != f.Kind {
				return false
			}
			if v := o.viol(); v != nil {
				f.Trace = v["trace"]
			} else {
				f.Stderr = tail(o.stderr, 6000)
			}
		}
		return true
	}
	if v := l.o.viol(); v != nil {
		f.Seed, _ = strconv.ParseUint(fmt.Sprint(v["seed"]), 10, 64)
		f.Mode, f.Plan = "plan", v["plan"].(map[string]interface{})
		if same() {
			return f
		}
		f.Plan = nil
	} else if l.o.hasSeed {
		f.Seed = l.o.seed
	} else {
		return nil
	}
	f.Mode = "seed"
	if same() {
		if f.Kind == "crash" || f.Kind == "hang" {
			// a plan can be minimised
			if p := planOf(f); p != nil {
				g := *f
				g.Mode, g.Plan = "plan", p
				o := g.rerun()
				if k, _ := kindOf(o); k == f.Kind {
					return &g
				}
			}
		}
		return f
	}
	if l.stride == 0 || kind == "hang" {
		return nil
	}
	f.Mode, f.First, f.Stride = "history", l.first, l.stride
	f.Count = (f.Seed-l.first)/l.stride + 1
	if same() {
		return f
	}
	return nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// planOf has the worker print the plan of a seed.
func planOf(f *failure) map[string]interface{} {
	o := runWorker(f.variant(), 150*time.Second, "-prop", f.Property, "-seed", u64(f.Seed), "-n", "1", "-dump")
	for _, l := range strings.Split(o.stderr, "\n") {
		if strings.HasPrefix(l, "{\"prop\"") {
			if m := decode([]byte(l)); m != nil {
				return m
			}
		}
	}
	return nil
}

// ---- known findings

// known_findings.txt lists defects of the library that are not repaired:
// one JSON object per line, with regular expressions for kind and message of what
// fails. Lines starting with "fixed:" only record repairs.
type known struct {
	Property string `json:"property"`
	Kind     string `json:"kind,omitempty"`
	Msg      string `json:"msg,omitempty"`
	What     string `json:"what"`
}

func loadKnown() (r []known) {
	b, _ := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		var k known
		if json.Unmarshal([]byte(l), &k) == nil && k.Property != "" && k.Msg != "" {
			r = append(r, k)
		}
	}
	return
}

func matchKnown(ks []known, f *failure) bool {
	for _, k := range ks {
		if k.Property == f.Property && regexp.MustCompile("^(?:"+k.Kind+")$").MatchString(f.Kind) && regexp.MustCompile(k.Msg).MatchString(f.Msg) {
			return true
		}
	}
	return false
}

// ---- the check

func check(prop, tier string) int {
	if tier != "thorough" {
		tier = "quick"
	}
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if x, err := strconv.ParseUint(s, 10, 64); err == nil {
			seed = x
		} else if y, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = uint64(y)
		}
	}
	budget := 20.0
	if tier == "thorough" {
		budget = 540
	}
	if s := os.Getenv("VERIF_BUDGET"); s != "" {
		if x, err := strconv.ParseFloat(s, 64); err == nil {
			budget = x
		}
	}
	evid := filepath.Join(verifDir, "evidence", prop+".json")
	os.Remove(evid)
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	if nw < 2 {
		nw = 2
	}
	wantSTW := map[string]bool{"C03": true, "C05": true, "C10": true, "C11": true, "C12": true, "C13": true}[prop]
	b, err := buildWorker(false)
	if err != nil {
		trouble("the simulator can't be built: %v", err)
	}
	builds[false] = b
	var notes []string
	if wantSTW {
		if sb, err := buildWorker(true); err != nil {
			notes = append(notes, "the stop-the-world build failed: "+err.Error())
		} else {
			builds[true] = sb
		}
	}
	buildS := time.Since(began).Seconds()
	// Each worker has a range of seeds of its own; the ranges of different
	// base seeds don't meet.
	base := seed * 1000000007 % (1 << 40) * 4096
	type job struct {
		v     variant
		first uint64
		o     *outcome
	}
	jobs := make([]*job, nw)
	for i := range jobs {
		j := &job{first: base + uint64(i)}
		if wantSTW && builds[true] != nil && i%4 == 1 {
			j.v.stw = true
		}
		if i == nw-1 {
			j.v.debug = true
		}
		jobs[i] = j
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	var leads []*lead
	var unrepeated []string
	stop := false
	searchEnd := time.Now().Add(time.Duration(budget * float64(time.Second)))
	agg := newAgg()
	var found *failure
	ks := loadKnown()
	knownHit := map[string]bool{}
	for _, j := range jobs {
		wg.Add(1)
		go func(j *job) {
			defer wg.Done()
			first := j.first
			for !stop {
				left := time.Until(searchEnd).Seconds()
				if left < 0.5 {
					return
				}
				hf := filepath.Join(workDir, fmt.Sprintf("h%d", j.first))
				o := runWorker(j.v, 0, "-prop", prop, "-seed", u64(first), "-stride", u64(uint64(nw)), "-budget", fmt.Sprintf("%.1f", left), "-hashes", hf)
				mu.Lock()
				agg.add(o, j.v, hf)
				mu.Unlock()
				if o.code == 0 || stop {
					return
				}
				if o.code == 3 {
					mu.Lock()
					notes = append(notes, "harness trouble: "+tail(o.stderr, 600))
					agg.trouble++
					mu.Unlock()
					s, ok := o.seed, o.hasSeed
					if !ok {
						return
					}
					first = s + uint64(nw)
					continue
				}
				l := &lead{o: o, v: j.v, first: first, stride: uint64(nw)}
				f := confirm(prop, l)
				mu.Lock()
				leads = append(leads, l)
				if f == nil {
					k, m := kindOf(o)
					unrepeated = append(unrepeated, fmt.Sprintf("seed %d: %s: %s", o.seed, k, m))
				} else if matchKnown(ks, f) {
					knownHit[f.Msg] = true
				} else if found == nil {
					found = f
					stop = true
					killAll()
				}
				mu.Unlock()
				if f != nil && !matchKnown(ks, f) {
					return
				}
				if !o.hasSeed {
					return
				}
				first = o.seed + uint64(nw)
			}
		}(j)
	}
	wg.Wait()
	searchS := time.Since(began).Seconds() - buildS
	det := determinism(prop, base)
	viol := 0
	replay := ""
	if found != nil {
		viol = 1
		lim := 60 * time.Second
		if tier == "thorough" {
			lim = 120 * time.Second
		}
		minimise(found, lim)
		replay = save(found)
	}
	for _, k := range ks {
		if k.Property == prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
		}
	}
	agg.evidence(evid, prop, tier, seed, budget, buildS, searchS, viol, det, notes, unrepeated, found)
	fmt.Printf("%s %s: %d runs, %d distinct interleavings, %.0f runs/h, %d/%d sites, %.1fs\n", prop, tier, agg.runs, len(agg.hashes), float64(agg.runs)/searchS*3600, len(agg.sites), len(b.Sites), time.Since(began).Seconds())
	if found != nil {
		fmt.Printf("%s: %s (seed %d)\n", found.Kind, found.Msg, found.Seed)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
		return 1
	}
	for _, u := range unrepeated {
		fmt.Printf("not repeatable, not reported: %s\n", u)
	}
	if agg.runs == 0 {
		trouble("no run could be completed: %v", notes)
	}
	return 0
}

// determinism runs some seeds twice in separate processes.
func determinism(prop string, base uint64) string {
	var h [2]string
	for i := range h {
		lf := filepath.Join(workDir, fmt.Sprintf("det%d", i))
		o := runWorker(variant{}, 60*time.Second, "-prop", prop, "-seed", u64(base), "-n", "60", "-budget", "1000", "-loghash", lf)
		b, _ := os.ReadFile(lf)
		h[i] = string(b)
		if o.code != 0 {
			h[i] += fmt.Sprint(o.code)
		}
	}
	n := strings.Count(h[0], "\n")
	if h[0] == h[1] {
		return fmt.Sprintf("%d seeds run twice in fresh processes: identical interleavings, steps and histories", n)
	}
	d := 0
	a, b := strings.Split(h[0], "\n"), strings.Split(h[1], "\n")
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			d++
		}
	}
	return fmt.Sprintf("%d seeds run twice in fresh processes: %d differ", n, d)
}

func save(f *failure) string {
	dir := filepath.Join(verifDir, "out")
	os.MkdirAll(dir, 0o755)
	name := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", f.Property, f.Kind, f.Seed))
	f.HowTo = "bash /verif/check.sh replay " + name
	b, _ := json.MarshalIndent(f, "", " ")
	os.WriteFile(name, b, 0o644)
	return name
}

func replayFile(name string) int {
	b, err := os.ReadFile(name)
	if err != nil {
		trouble("%v", err)
	}
	var f failure
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	if err := d.Decode(&f); err != nil {
		trouble("%v", err)
	}
	w, err := buildWorker(f.STW)
	if err != nil {
		trouble("%v", err)
	}
	builds[f.STW] = w
	o := f.rerun()
	k, m := kindOf(o)
	if k == "" {
		if o.code == 3 {
			trouble("%s", o.stderr)
		}
		fmt.Println("the run ends without a violation")
		return 0
	}
	if v := o.viol(); v != nil {
		if t, ok := v["trace"].([]interface{}); ok {
			for _, l := range t {
				fmt.Println(l)
			}
		}
	} else {
		fmt.Println(tail(o.stderr, 4000))
	}
	same := ""
	if k != f.Kind || m != f.Msg {
		same = " (recorded: " + f.Kind + ": " + f.Msg + ")"
	}
	fmt.Printf("%s: %s%s\n", k, m, same)
	fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, name)
	return 1
}

// ---- evidence

type aggT struct {
	runs, steps, switches int64
	simns                 int64
	rt, stat, kinds       map[string]int64
	profs, modes, vars    map[string]int64
	sites                 map[int]bool
	hashes                map[uint64]struct{}
	samples               []interface{}
	trouble               int
	wall                  float64
}

func newAgg() *aggT {
	return &aggT{rt: map[string]int64{}, stat: map[string]int64{}, kinds: map[string]int64{}, profs: map[string]int64{}, modes: map[string]int64{}, vars: map[string]int64{}, sites: map[int]bool{}, hashes: map[uint64]struct{}{}}
}

func num(x interface{}) int64 {
	n, _ := x.(json.Number)
	i, _ := n.Int64()
	return i
}

func sumInto(m map[string]int64, x interface{}) {
	o, _ := x.(map[string]interface{})
	for k, v := range o {
		if n, ok := v.(json.Number); ok {
			i, _ := n.Int64()
			m[k] += i
		}
	}
}

func (a *aggT) add(o *outcome, v variant, hf string) {
	if o.res == nil {
		return
	}
	r := num(o.res["runs"])
	a.runs += r
	a.vars[v.String()] += r
	a.steps += num(o.res["steps"])
	a.switches += num(o.res["switches"])
	sumInto(a.rt, o.res["rt"])
	sumInto(a.stat, o.res["stat"])
	if s, ok := o.res["stat"].(map[string]interface{}); ok {
		sumInto(a.kinds, s["Kinds"])
	}
	sumInto(a.profs, o.res["profs"])
	sumInto(a.modes, o.res["modes"])
	if l, ok := o.res["sites"].([]interface{}); ok {
		for _, s := range l {
			a.sites[int(num(s))] = true
		}
	}
	if l, ok := o.res["samples"].([]interface{}); ok && len(a.samples) < 3 {
		a.samples = append(a.samples, l...)
	}
	if b, err := os.ReadFile(hf); err == nil {
		for i := 0; i+8 <= len(b); i += 8 {
			a.hashes[binary.LittleEndian.Uint64(b[i:])] = struct{}{}
		}
		os.Remove(hf)
	}
}

func (a *aggT) evidence(file, prop, tier string, seed uint64, budget, buildS, searchS float64, viol int, det string, notes, unrepeated []string, f *failure) {
	os.MkdirAll(filepath.Dir(file), 0o755)
	var unhit []string
	b := builds[false]
	for i, s := range b.Sites {
		if !a.sites[i] {
			unhit = append(unhit, s.Pos)
		}
	}
	sort.Strings(unhit)
	nun := len(unhit)
	if nun > 80 {
		unhit = unhit[:80]
	}
	if len(a.samples) > 3 {
		a.samples = a.samples[:3]
	}
	hours := searchS / 3600
	cov := map[string]interface{}{
		"evaluations":         a.runs,
		"distinct_nontrivial": len(a.hashes),
		"rule":                "one evaluation is one simulated run: a program of mock operations and calls generated from the seed (swarm-selected operations, targets, faults and schedule), executed by the real library under the simulator and judged against the reference model. Two runs are the same if the hashes of their sequences of (goroutine, scheduling point) and of their programs' shapes agree; only different ones are counted, and a run without any call or operation does not exist.",
		"samples":             a.samples,
		"simulated_runs":      a.runs, "runs_per_hour": int64(float64(a.runs) / hours), "seeds_per_hour": int64(float64(a.runs) / hours),
		"simulated_steps": a.steps, "simulated_time": fmt.Sprintf("%d scheduling steps; the library has no timers or deadlines, so simulated time is counted in steps", a.steps),
		"context_switches": a.switches,
		"schedulers":       a.modes, "profiles": a.profs, "variants": a.vars,
		"operations": a.kinds, "judged": a.stat, "simulator": a.rt,
		"faults_injected": map[string]int64{
			"mmap failed": a.rt["FaultMmap"], "munmap failed": a.rt["FaultMunmap"], "mprotect failed": a.rt["FaultMprotect"],
			"write system call failed": a.rt["FaultWrite"], "operations with an armed fault": a.stat["FaultOps"],
			"operations that failed of it": a.stat["FaultFired"], "forced garbage collections": a.rt["GCs"], "goroutines stalled or preempted at a library site": a.switches,
			"misuse refused": a.stat["Refused"], "map iteration orders drawn": a.rt["MapOrders"]},
		"instrumentation_level": b.level,
		"sites":                 map[string]interface{}{"instrumented": len(b.Sites), "reached": len(a.sites), "not_reached": nun, "not_reached_list": unhit},
		"real":                  []string{"every Go and assembly source of the library, compiled from the working tree", "code patching of the running process, instruction decoding, executable pages", "goconvey, reflect, Go runtime and garbage collector"},
		"stub":                  []string{"goroutine scheduling at library sites (simulated, one goroutine at a time)", "sync and sync/atomic in the library (simulated primitives with the same semantics)", "map iteration order in the library (drawn from the seed)", "mmap, munmap, mprotect and the raw write system call pass through a shim that can make them fail", "stop-the-world in the stw build (recorded, then real)"},
		"determinism":           det,
		"build_s":               buildS, "search_s": searchS, "budget_s": budget,
	}
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	if len(unrepeated) > 0 {
		cov["not_repeatable_not_reported"] = unrepeated
	}
	if f != nil {
		cov["violation"] = map[string]interface{}{"kind": f.Kind, "msg": f.Msg, "mode": f.Mode, "seed": f.Seed, "minimised": f.Minimal}
	}
	e := map[string]interface{}{"property": prop, "tier": tier, "seed": int64(seed), "level": "exploration", "coverage": cov, "wall_s": time.Since(began).Seconds(), "violations": viol,
		"assumptions": []string{"sequential consistency: goroutines are switched at library sites only, weaker orders of the memory model are not simulated", "linux/amd64, the installed toolchain, built with -l -N as the library demands"}}
	jb, _ := json.MarshalIndent(e, "", " ")
	os.WriteFile(file, jb, 0o644)
}
