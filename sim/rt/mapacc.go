package rt

import "unsafe"

// Accesses of maps by several goroutines at once, one of them writing, end the
// program: no two goroutines may be about to make such accesses.

type mapAcc struct {
	g     *G
	m     unsafe.Pointer
	write bool
}

var mapAccs []mapAcc

func mapAccess(m unsafe.Pointer, write bool) {
	if !On() || m == nil || worldStopped() {
		return
	}
	me := cur
	for _, a := range mapAccs {
		if a.m == m && a.g != me && (a.write || write) {
			Fail("race", "concurrent accesses of one map by "+a.g.Name+" and "+me.Name)
		}
	}
	mapAccs = append(mapAccs, mapAcc{me, m, write})
	Y(-8)
	for i := range mapAccs {
		if mapAccs[i].g == me {
			mapAccs = append(mapAccs[:i], mapAccs[i+1:]...)
			break
		}
	}
}

// MR is a map about to be read.
func MR[K comparable, V any, M ~map[K]V](m M) M {
	mapAccess(*(*unsafe.Pointer)(unsafe.Pointer(&m)), false)
	return m
}

// MW is a map about to be changed.
func MW[K comparable, V any, M ~map[K]V](m M) M {
	mapAccess(*(*unsafe.Pointer)(unsafe.Pointer(&m)), true)
	return m
}
