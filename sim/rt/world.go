package rt

// Stop-the-world as the simulator sees it: while stopped, no other simulated
// goroutine is chosen, and blocking is a deadlock.

var (
	stopper *G
	stops   int64
	starts  int64
	OnStart func() // runs just before the world goes on
	NeedSTW bool   // the build under test has stop-the-world enabled
)

func resetWorld() {
	stopper, stops, starts = nil, 0, 0
	mapAccs = nil
	for i := range Sys {
		Sys[i] = 0
	}
}

func worldStopped() bool { return stopper != nil }

// StopWorld stands in for runtime.stopTheWorld.
func StopWorld() {
	if !On() {
		return
	}
	if stopper == cur {
		Fail("stw", "world stopped twice by one goroutine")
	}
	Y(-7)
	Block("stopTheWorld", func() bool { return stopper == nil })
	stopper = cur
	Sys[4] = 1
	stops++
	St.Stops++
}

// StartWorld stands in for runtime.startTheWorld.
func StartWorld() {
	if !On() {
		return
	}
	if stopper != cur {
		Fail("stw", "world started while not stopped by this goroutine")
	}
	if OnStart != nil {
		OnStart()
	}
	stopper = nil
	Sys[4] = 0
	starts++
	Y(-7)
}

// WorldStopped tells whether the world is stopped.
func WorldStopped() bool { return worldStopped() }

// Stops returns the number of stops and starts of this run.
func Stops() (int64, int64) { return stops, starts }
