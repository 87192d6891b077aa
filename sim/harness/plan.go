package main

import "verifsim/rt"

// A Plan is one simulated run, completely: the program, the schedule, the
// collections and the faults.
type Plan struct {
	Prop  string   `json:"prop"`
	Seed  uint64   `json:"seed"`
	Prof  string   `json:"prof"`
	Prog  []Op     `json:"prog"`
	Sched rt.Sched `json:"sched"`
	Long  int      `json:"long,omitempty"` // of a repeated program: so many operations are done once, and their mocks stay
	Reps  int      `json:"reps,omitempty"` // how often the program is repeated (resource profile)
	Debug bool     `json:"debug,omitempty"`
	Text  bool     `json:"text,omitempty"` // judge the whole code image after every operation
}

// Op is one operation of the program, executed by goroutine 0 or a worker.
type Op struct {
	K    string `json:"k"`
	M    int    `json:"m,omitempty"` // handle slot
	T    int    `json:"t,omitempty"` // target, variable
	N    int    `json:"n,omitempty"`
	A    int    `json:"a,omitempty"`  // call attributes
	X    string `json:"x,omitempty"`  // variant
	F    int    `json:"f,omitempty"`  // fail the Fth memory call of this operation
	E    int    `json:"e,omitempty"`  // with this errno
	S    bool   `json:"st,omitempty"` // and all later ones
	C    *Conf  `json:"c,omitempty"`
	Sub  []Op   `json:"sub,omitempty"`
	Sub2 []Op   `json:"sub2,omitempty"`
}

// Conf configures a mock.
type Conf struct {
	Conds  []Cond `json:"conds"`
	Filter string `json:"f,omitempty"`  // "", inc, exc
	FG     int    `json:"fg,omitempty"` // which goroutine (see fgOf)
	Origin int    `json:"o,omitempty"`  // 0 none, 1 full signature, 2 without receiver
	OVar   int    `json:"ov,omitempty"` // shared origin variable, 0 for an own one
	FirstO bool   `json:"fo,omitempty"` // set filter and origin before conditions
}

// Cond is one condition; W nil: always holds; A nil: run the original.
type Cond struct {
	W *When `json:"w,omitempty"`
	A *Act  `json:"a,omitempty"`
}

// When is a predicate: bit x%8 of Mask.
type When struct {
	ID    int      `json:"id"`
	Mask  int      `json:"m"`
	Recv  bool     `json:"r,omitempty"`
	Gen   bool     `json:"g,omitempty"`
	Steps []string `json:"s,omitempty"`
	Panic bool     `json:"p,omitempty"` // panics when x%5==1
}

// Act answers a call.
type Act struct {
	ID    int      `json:"id"`
	Kind  string   `json:"k"` // hook, ret, nil, seq
	Recv  bool     `json:"r,omitempty"`
	Gen   bool     `json:"g,omitempty"`
	Steps []string `json:"s,omitempty"`
	End   string   `json:"e,omitempty"` // val, orig, panic, goexit
	Seq   int      `json:"q,omitempty"`
}
