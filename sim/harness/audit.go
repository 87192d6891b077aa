package main

import (
	"bufio"
	"bytes"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"strings"
	"unsafe"

	"verifsim/rt"
)

type region struct {
	addr uintptr
	orig []byte
}

var regions []region

func bytesAt(a uintptr, n int) []byte { return unsafe.Slice((*byte)(unsafe.Pointer(a)), n) }

// snapshotText copies every executable page of the program.
func snapshotText() {
	exe, _ := os.Readlink("/proc/self/exe")
	readMaps(func(lo, hi uintptr, perm, path string) {
		if path == exe && strings.Contains(perm, "x") {
			regions = append(regions, region{lo, append([]byte(nil), bytesAt(lo, int(hi-lo))...)})
		}
	})
	if len(regions) == 0 {
		panic("no text")
	}
	p := rawCode &^ 4095
	regions = append(regions, region{p, append([]byte(nil), bytesAt(p, 8192)...)})
}

func readMaps(f func(lo, hi uintptr, perm, path string)) {
	b, err := os.ReadFile("/proc/self/maps")
	if err != nil {
		panic(err)
	}
	sc := bufio.NewScanner(bytes.NewReader(b))
	for sc.Scan() {
		var lo, hi uintptr
		var perm string
		fs := strings.Fields(sc.Text())
		fmt.Sscanf(fs[0], "%x-%x", &lo, &hi)
		perm = fs[1]
		path := ""
		if len(fs) > 5 {
			path = fs[5]
		}
		f(lo, hi, perm, path)
	}
}

type diff struct {
	addr, end uintptr
}

// textDiff returns the ranges of program code that differ from the original.
func textDiff() (r []diff) {
	for _, g := range regions {
		for o := 0; o < len(g.orig); o += 4096 {
			e := o + 4096
			if e > len(g.orig) {
				e = len(g.orig)
			}
			now := bytesAt(g.addr+uintptr(o), e-o)
			if bytes.Equal(now, g.orig[o:e]) {
				continue
			}
			for i := range now {
				if now[i] != g.orig[o+i] {
					a := g.addr + uintptr(o+i)
					if n := len(r); n > 0 && a-r[n-1].end < 32 {
						r[n-1].end = a + 1
					} else {
						r = append(r, diff{a, a + 1})
					}
				}
			}
		}
	}
	return
}

// owns tells whether a change at a may belong to a mock of t.
func owns(t *Target, d diff) bool {
	if !t.Generic {
		e := reflect.ValueOf(t.Fn).Pointer()
		return d.addr >= e && d.end <= e+24
	}
	f := runtime.FuncForPC(d.addr)
	if f == nil || d.end > f.Entry()+24 {
		return false
	}
	n := f.Name()
	switch t.ID {
	case 9, 10:
		return strings.Contains(n, "main.tG[")
	case 11, 12:
		return strings.Contains(n, "main.tP[")
	case 14:
		return strings.Contains(n, "main.(*Gt[") && strings.Contains(n, ").Get")
	case 27:
		return strings.Contains(n, "main.tGN[")
	case 28:
		return strings.Contains(n, "main.(*Gt[") && strings.Contains(n, ").Len")
	case 29:
		return strings.Contains(n, "main.tG2[")
	case 30:
		return strings.Contains(n, "main.tGH[")
	}
	return false
}

func codeChanged(t *Target) bool {
	for _, d := range textDiff() {
		if !owns(t, d) {
			continue
		}
		if t.ID == 9 && groups[10].maybeMocked() || t.ID == 10 && groups[9].maybeMocked() {
			return false
		}
		return true
	}
	return false
}

func where(d diff) string {
	if f := runtime.FuncForPC(d.addr); f != nil {
		return fmt.Sprintf("%s+%d..%d", f.Name(), d.addr-f.Entry(), d.end-f.Entry())
	}
	if d.addr>>13 == rawCode>>13 || d.addr-rawCode < 8192 {
		return fmt.Sprintf("raw%+d", int64(d.addr)-int64(rawCode))
	}
	return "outside any function"
}

// maybeMocked: a mock may be in force now (a failed release leaves that open).
func (g *Group) maybeMocked() bool {
	now := tick()
	for _, c := range g.cands(now, now) {
		if len(c.s) > 0 {
			return true
		}
	}
	return false
}

// checkCode judges the whole code image against the mocks in force.
func checkCode(when string) {
	ds := textDiff()
	for _, d := range ds {
		ok := false
		for _, t := range targets {
			if owns(t, d) && groups[t.Group].maybeMocked() {
				ok = true
			}
		}
		if !ok {
			fail("code", "%s: code differs from the original at %s, of which no mock is in force", when, where(d))
		}
	}
}

// checkMaps judges page protections.
func checkMaps(when string) {
	exe, _ := os.Readlink("/proc/self/exe")
	lo, hi := regions[0].addr, regions[0].addr
	for _, g := range regions[:len(regions)-1] {
		hi = g.addr + uintptr(len(g.orig))
	}
	raw := regions[len(regions)-1].addr
	readMaps(func(a, b uintptr, perm, path string) {
		if strings.Contains(perm, "x") && strings.Contains(perm, "w") {
			fail("protection", "%s: mapping %s is writable and executable", when, perm)
		}
		if path == exe && a >= lo && b <= hi && !strings.HasPrefix(perm, "r-x") || a < raw+8192 && b > raw && !strings.HasPrefix(perm, "r-x") {
			fail("protection", "%s: code page left %s", when, perm)
		}
	})
}

var rawHalf, rawBoth bool

// rawDiffers tells whether the code of the target that lies across a page
// boundary differs from the original in the first and in the second page.
func rawDiffers() (first, second bool) {
	orig := regions[len(regions)-1].orig
	k := int(rawCode & 4095)
	now := bytesAt(rawCode, 4096-k+24)
	return !bytes.Equal(now[:4096-k], orig[k:4096]), !bytes.Equal(now[4096-k:], orig[4096:4096+24])
}

// worldGoesOn notes whether half of the code has been written when the world
// goes on. (After a write that failed for good there may be no way back.)
func worldGoesOn() {
	if rt.Sys[7] != 0 && rt.Fired() > 0 {
		return
	}
	if a, b := rawDiffers(); a != b {
		rawHalf = true
	}
}

// checkRaw judges what worldGoesOn has seen.
func checkRaw() {
	if lifeBusy {
		return
	}
	if a, b := rawDiffers(); a && b {
		rawBoth = true
	}
	if rawHalf && rawBoth {
		// the code of a mock differs in both pages
		fail("stw", "the world went on with one page of the code of Raw written and the other not")
	}
}

// audit judges everything that must hold between operations.
func audit() {
	if lifeBusy {
		return
	}
	stat.Audits++
	checkVars("audit")
	checkCode("after an operation")
	checkMaps("after an operation")
	if rt.Sys[4] != 0 {
		fail("stw", "the world is stopped between operations")
	}
}
