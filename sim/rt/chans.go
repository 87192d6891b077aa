package rt

import "reflect"

// Channels. A goroutine that would block gives way to the others until it no
// longer would. Buffered channels are the real ones. On unbuffered ones both
// sides cannot be polled for, so a sender leaves its value where receivers
// look for it.

type sent struct {
	v     any
	taken bool
}

var chanSent = map[uintptr][]*sent{}
var chanClosed = map[uintptr]bool{}

func chanKey(c any) uintptr { return reflect.ValueOf(c).Pointer() }

func simulated() bool { return active && cur != nil && cur.gp == getg() }

// Send is c <- v.
func Send[C ~chan T | ~chan<- T, T any](c C, v T) {
	if !simulated() {
		c <- v
		return
	}
	Y(-12)
	if cap(c) > 0 || c == nil {
		done := false
		Block("a channel send", func() bool {
			if !done {
				done = trySend(c, v)
			}
			return done
		})
		Y(-12)
		return
	}
	s, k := &sent{v: v}, chanKey(c)
	chanSent[k] = append(chanSent[k], s)
	Block("a channel send", func() bool { return s.taken })
	Y(-12)
}

func trySend[C ~chan T | ~chan<- T, T any](c C, v T) bool {
	select {
	case c <- v:
		return true
	default:
		return false
	}
}

// Recv is <-c.
func Recv[C ~chan T | ~<-chan T, T any](c C) T {
	v, _ := Recv2[C, T](c)
	return v
}

// Recv2 is <-c with its second value.
func Recv2[C ~chan T | ~<-chan T, T any](c C) (v T, ok bool) {
	if !simulated() {
		v, ok = <-c
		return
	}
	Y(-12)
	done := false
	Block("a channel receive", func() bool {
		if !done {
			v, ok, done = tryRecv[C, T](c)
		}
		return done
	})
	Y(-12)
	return
}

func tryRecv[C ~chan T | ~<-chan T, T any](c C) (v T, ok, done bool) {
	k := chanKey(c)
	if q := chanSent[k]; len(q) > 0 {
		q[0].taken = true
		if chanSent[k] = q[1:]; len(q) == 1 {
			delete(chanSent, k)
		}
		v, _ = q[0].v.(T)
		return v, true, true
	}
	select {
	case v, ok = <-c:
		return v, ok, true
	default:
		return v, false, false
	}
}

// Close is close(c).
func Close[C ~chan T | ~chan<- T, T any](c C) {
	Y(-12)
	close(c)
	if simulated() {
		chanClosed[chanKey(c)] = true
	}
	Y(-12)
}

// Await waits until a select statement finds a case.
func Await(ready func() bool) {
	if simulated() {
		Y(-12)
		for !ready() { // somebody else may have been faster
			Block("a select", ready)
		}
	}
}

func CanSend[C ~chan T | ~chan<- T, T any](c C) bool {
	return c != nil && (len(c) < cap(c) || chanClosed[chanKey(c)])
}

func CanRecv[C ~chan T | ~<-chan T, T any](c C) bool {
	return c != nil && (len(c) > 0 || chanClosed[chanKey(c)])
}

func resetChans() {
	clear(chanSent)
	clear(chanClosed)
}
