// Package simrt is the harness's side of the deterministic scheduler that the
// toolchain overlay adds to the Go runtime.
package simrt

import "unsafe"

const (
	KPick = 1 + iota
	KPreempt
	KSelect
	KTime
	KFine
	KUser
)

const (
	ModeFIFO = iota
	ModeUniform
	ModePCT
	ModeLIFO
	ModeStarve
)

var ModeNames = []string{"fifo", "uniform", "pct", "lifo", "starve"}
var KindNames = []string{"", "pick", "preempt", "select", "time", "fine", "fault"}

type Entry struct {
	Idx    uint64
	Kind   uint32
	Choice uint32
}

type LogEntry struct {
	Idx    uint64
	Kind   uint32
	N      uint32
	Choice uint32
	Actor  uint32
	PC     uint64
	Now    int64
}

// conf mirrors runtime.simConf.
type conf struct {
	Seed      uint64
	Mode      uint64
	PreemptP  uint64
	FineP     uint64
	TimeP     uint64
	PCTDepth  uint64
	PCTLen    uint64
	MaxSteps  uint64
	MaxPoints uint64
	Replay    uint64
	TapeIn    unsafe.Pointer
	TapeInN   uint64
	TapeOut   unsafe.Pointer
	TapeCap   uint64
	Log       unsafe.Pointer
	LogCap    uint64
	StopAt    uint64
}

// Stats mirrors runtime.simStats.
type Stats struct {
	Status    uint64
	Live      uint64
	Points    uint64
	Picks     uint64
	Preempts  uint64
	Fines     uint64
	Selects   uint64
	TimeJumps uint64
	Stalls    uint64
	UserN     uint64
	MaxRun    uint64
	Gs        uint64
	Hash      uint64
	TapeN     uint64
	TapeOver  uint64
	LogN      uint64
	Now       int64
	NChoices  uint64
	RandCalls uint64
	FineN     uint64
	Done      uint64 // the main goroutine of the run returned
	Panicked  uint64
	TextN     uint64
	Waits     uint64
}

const (
	StatusOK      = 0
	StatusLeaked  = 1
	StatusAborted = 2
)

// Config of one simulated run. Probabilities are out of 65536.
type Config struct {
	Seed      uint64
	Mode      uint64
	PreemptP  uint64
	FineP     uint64
	TimeP     uint64
	PCTDepth  uint64
	PCTLen    uint64
	MaxSteps  uint64
	MaxPoints uint64
	StopAt    uint64 `json:",omitempty"` // debugging: die with a stack trace at this decision
}

// BaseTime is the clock at the start of every run.
const BaseTime = 946684800000000000

func run(c *conf, st *Stats, f func())
func choose(n uint32, gen uint32) uint32
func point()
func rand64() uint64
func self() uint32
func step() uint64
func live() int
func now() int64
func abort()
func waitStep(k uint64) bool
func unpark()
func text() []byte
func dump()

var tapeBuf = make([]Entry, 1<<20)

// Run executes f as the main goroutine of one simulated run. With replay set
// the decisions come from tape instead of the seeded strategy.
func Run(c Config, replay bool, tape []Entry, log []LogEntry, f func()) (Stats, []Entry) {
	k := conf{
		Seed: c.Seed, Mode: c.Mode, PreemptP: c.PreemptP, FineP: c.FineP, TimeP: c.TimeP,
		PCTDepth: c.PCTDepth, PCTLen: c.PCTLen, MaxSteps: c.MaxSteps, MaxPoints: c.MaxPoints, StopAt: c.StopAt,
	}
	if k.MaxSteps == 0 {
		k.MaxSteps = 1 << 20
	}
	if k.MaxPoints == 0 {
		k.MaxPoints = k.MaxSteps * 16
	}
	if replay {
		k.Replay = 1
		if len(tape) > 0 {
			k.TapeIn = unsafe.Pointer(&tape[0])
			k.TapeInN = uint64(len(tape))
		}
	}
	k.TapeOut = unsafe.Pointer(&tapeBuf[0])
	k.TapeCap = uint64(len(tapeBuf))
	if len(log) > 0 {
		k.Log = unsafe.Pointer(&log[0])
		k.LogCap = uint64(len(log))
	}
	var st Stats
	run(&k, &st, f)
	out := make([]Entry, st.TapeN)
	copy(out, tapeBuf[:st.TapeN])
	return st, out
}

// Choose makes a fault decision: with probability p/65536 it picks one of the
// alternatives 1..n-1, otherwise 0. The decision is part of the replay tape.
func Choose(n uint32, p uint64) uint32 {
	g := uint32(0)
	if n > 1 && rand64()&0xffff < p {
		g = 1 + uint32(rand64()%uint64(n-1))
	}
	return choose(n, g)
}

func Point()       { point() }
func Self() uint32 { return self() }
func Step() uint64 { return step() }

// Live is the number of live goroutines of the run, the caller included.
func Live() int  { return live() }
func Now() int64 { return now() }

// Abort ends the run at this point; nothing else of it executes.
func Abort() { abort() }

// WaitStep parks the caller until scheduling step k; false means that nothing
// else could run any more, or that Unpark was called, before step k came.
func WaitStep(k uint64) bool { return waitStep(k) }

// Unpark releases every goroutine parked in WaitStep.
func Unpark() { unpark() }

// Text is what the last run left behind: a panic message with its stack, or
// the stacks of leaked goroutines.
func Text() string { return string(text()) }

// Dump adds the stacks of the other live goroutines of the run to Text.
func Dump() { dump() }
