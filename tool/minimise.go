package main

import (
	"encoding/json"
	"fmt"
	"runtime"
	"strings"
	"time"
)

// minimise shortens the plan of a failure while the same kind of violation
// occurs, by deleting operations, context switches, stalls, faults, conditions
// and steps, several candidates at a time.
func minimise(f *failure, limit time.Duration) {
	if f.Mode != "plan" || f.Plan == nil {
		return
	}
	end := time.Now().Add(limit)
	cur := clone(f.Plan)
	tried, kept := 0, 0
	ok := func(p map[string]interface{}) bool {
		o := runPlan(f.variant(), p)
		k, _ := kindOf(o)
		return k == f.Kind
	}
	// try runs candidates in parallel and takes the first that still fails
	try := func(cs []map[string]interface{}) bool {
		n := runtime.NumCPU()
		if n > 8 {
			n = 8
		}
		for len(cs) > 0 && time.Now().Before(end) {
			m := n
			if m > len(cs) {
				m = len(cs)
			}
			res := make([]chan bool, m)
			for i := 0; i < m; i++ {
				res[i] = make(chan bool, 1)
				go func(i int) { res[i] <- ok(cs[i]) }(i)
			}
			won := -1
			for i := 0; i < m; i++ {
				if <-res[i] && won < 0 {
					won = i
				}
			}
			tried += m
			if won >= 0 {
				cur = cs[won]
				kept++
				return true
			}
			cs = cs[m:]
		}
		return false
	}
	before := sizes(cur)
	// without any switch at all?
	if c := clone(cur); c != nil {
		s, _ := c["sched"].(map[string]interface{})
		for _, k := range []string{"sw", "sites", "pts", "gc"} {
			delete(s, k)
		}
		try([]map[string]interface{}{c})
	}
	for round := 0; round < 6 && time.Now().Before(end); round++ {
		any := false
		for n := len(lists(cur)); ; n = len(lists(cur)) {
			progress := false
			for li := 0; li < n && time.Now().Before(end); li++ {
				for size := 1 << 20; size >= 1; size /= 2 {
					l := lists(cur)
					if li >= len(l) {
						break
					}
					k := len(l[li].get())
					if size > k {
						continue
					}
					var cs []map[string]interface{}
					for at := 0; at < k; at += size {
						c := clone(cur)
						cl := lists(c)[li]
						x := cl.get()
						e := at + size
						if e > k {
							e = k
						}
						if cl.min > 0 && k-(e-at) < cl.min {
							continue
						}
						cl.set(append(append([]interface{}{}, x[:at]...), x[e:]...))
						cs = append(cs, c)
					}
					if len(cs) > 0 && try(cs) {
						progress, any = true, true
						size *= 2 // again at this size
						if size > 1<<20 {
							size = 1 << 20
						}
					}
				}
			}
			if !progress || time.Now().After(end) {
				break
			}
		}
		// splice the bodies of scopes into what surrounds them, and simplify numbers
		var cs []map[string]interface{}
		for i, n := 0, countOps(cur); i < n; i++ {
			for _, how := range []string{"splice", "f", "n", "a", "x"} {
				c := clone(cur)
				if simplify(c, i, how) {
					cs = append(cs, c)
				}
			}
		}
		for len(cs) > 0 && time.Now().Before(end) {
			if !try(cs) {
				break
			}
			any = true
			cs = cs[:0]
			for i, n := 0, countOps(cur); i < n; i++ {
				for _, how := range []string{"splice", "f", "n", "a", "x"} {
					c := clone(cur)
					if simplify(c, i, how) {
						cs = append(cs, c)
					}
				}
			}
		}
		if !any {
			break
		}
	}
	// the result must fail twice in the same way
	g := *f
	g.Plan = cur
	o1 := g.rerun()
	o2 := g.rerun()
	k1, m1 := kindOf(o1)
	k2, m2 := kindOf(o2)
	if k1 == f.Kind && k2 == f.Kind {
		f.Plan, f.Msg = cur, m1
		f.Minimal = fmt.Sprintf("%s -> %s, %d candidates tried, %d taken", before, sizes(cur), tried, kept)
		if m1 != m2 && f.Kind != "crash" {
			f.Minimal += " (messages of two replays differ)"
		}
		if v := o2.viol(); v != nil {
			f.Trace = v["trace"]
		}
	}
}

func clone(p map[string]interface{}) map[string]interface{} {
	b, _ := json.Marshal(p)
	return decode(b)
}

type listRef struct {
	m   map[string]interface{}
	key string
	min int
}

func (l listRef) get() []interface{} {
	x, _ := l.m[l.key].([]interface{})
	return x
}
func (l listRef) set(x []interface{}) {
	if len(x) == 0 && l.key != "prog" && l.key != "conds" {
		delete(l.m, l.key)
		return
	}
	l.m[l.key] = x
}

// lists finds every list whose elements can be deleted, outer ones first.
func lists(p map[string]interface{}) (r []listRef) {
	if len(asList(p["prog"])) > 0 {
		r = append(r, listRef{p, "prog", 0})
	}
	if s, ok := p["sched"].(map[string]interface{}); ok {
		for _, k := range []string{"sw", "sites", "gc"} {
			if len(asList(s[k])) > 0 {
				r = append(r, listRef{s, k, 0})
			}
		}
	}
	eachOp(p, func(o map[string]interface{}) {
		for _, k := range []string{"sub", "sub2"} {
			if len(asList(o[k])) > 0 {
				r = append(r, listRef{o, k, 0})
			}
		}
		c, _ := o["c"].(map[string]interface{})
		if c == nil {
			return
		}
		if len(asList(c["conds"])) > 0 {
			r = append(r, listRef{c, "conds", 1})
		}
		for _, x := range asList(c["conds"]) {
			d, _ := x.(map[string]interface{})
			for _, k := range []string{"w", "a"} {
				if e, ok := d[k].(map[string]interface{}); ok && len(asList(e["s"])) > 0 {
					r = append(r, listRef{e, "s", 0})
				}
			}
		}
	})
	return
}

func asList(x interface{}) []interface{} {
	l, _ := x.([]interface{})
	return l
}

func eachOp(p map[string]interface{}, f func(o map[string]interface{})) {
	var walk func(l []interface{})
	walk = func(l []interface{}) {
		for _, x := range l {
			if o, ok := x.(map[string]interface{}); ok {
				f(o)
				walk(asList(o["sub"]))
				walk(asList(o["sub2"]))
			}
		}
	}
	walk(asList(p["prog"]))
}

func countOps(p map[string]interface{}) (n int) {
	eachOp(p, func(map[string]interface{}) { n++ })
	return
}

// simplify changes the ith operation; false if there is nothing to do.
func simplify(p map[string]interface{}, i int, how string) bool {
	if how == "splice" {
		n := -1
		var walk func(m map[string]interface{}, key string) bool
		walk = func(m map[string]interface{}, key string) bool {
			l := asList(m[key])
			for j, x := range l {
				o, ok := x.(map[string]interface{})
				if !ok {
					continue
				}
				if n++; n == i {
					k, _ := o["k"].(string)
					if k != "scope" && k != "conv" && k != "xscope" && k != "go" || len(asList(o["sub"])) == 0 {
						return false
					}
					m[key] = append(append(append([]interface{}{}, l[:j]...), asList(o["sub"])...), l[j+1:]...)
					return true
				}
				if walk(o, "sub") || walk(o, "sub2") {
					return true
				}
				if n >= i {
					return false
				}
			}
			return false
		}
		return walk(p, "prog")
	}
	n, done := 0, false
	eachOp(p, func(o map[string]interface{}) {
		if n++; n-1 != i {
			return
		}
		switch how {
		case "f":
			if o["f"] != nil {
				delete(o, "f")
				delete(o, "e")
				delete(o, "st")
				done = true
			}
		case "n":
			if k, _ := o["k"].(string); k == "call" && o["n"] != nil && num(o["n"]) > 1 {
				o["n"] = json.Number("1")
				done = true
			}
		case "a":
			if o["a"] != nil {
				delete(o, "a")
				done = true
			}
		case "x":
			if k, _ := o["k"].(string); k == "scope" && o["x"] != nil {
				delete(o, "x")
				done = true
			}
		}
	})
	return done
}

func sizes(p map[string]interface{}) string {
	s, _ := p["sched"].(map[string]interface{})
	b, _ := json.Marshal(p)
	return strings.TrimSpace(fmt.Sprintf("%d operations, %d switches, %d bytes", countOps(p), len(asList(s["sw"]))+len(asList(s["sites"])), len(b)))
}
