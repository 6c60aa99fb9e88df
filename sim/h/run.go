package h

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"time"

	"velsim/simrt"
)

// Case is a scenario made ready for one run: Body is the main goroutine of
// the simulated run, Check looks at what was recorded afterwards.
type Case struct {
	Body  func()
	Check func()
}

// Kind is a family of scenarios.
type Kind struct {
	Name string
	// Gen makes a scenario, or nil when the attempt was not usable.
	Gen func(r *Rand, prop string, deep bool) *Scenario
	// Make prepares a run; nil when the scenario is not judged.
	Make func(r *Run) *Case
	// NoTime: the clock only advances when nothing can run.
	NoTime bool
	// NoDelay: no random delays at the fault points of the world.
	NoDelay bool
	// Leak: goroutines left at the end of the run are a violation.
	Leak  bool
	Rare  bool   // runs are long: fewer preemptions
	Steps uint64 // step budget, 0: default
	// Text of the program, where it is not Prog.
	Text func(*Scenario) string
}

var kinds = map[string]*Kind{}

func kind(k *Kind) *Kind {
	kinds[k.Name] = k
	return k
}

// Prop says how a property is explored.
type Prop struct {
	ID    string
	Kinds []PK
	Scen  int // schedules per scenario
	Quick int // scenarios of the quick tier, all workers together
	Race  bool
	Rule  string
}

type PK struct {
	Kind   string
	Weight int
}

var props = map[string]*Prop{}

// Conf is the exploration strategy of one run.
type Conf struct {
	simrt.Config
	DelayP uint64
}

func genConf(r *Rand, k *Kind, sc *Scenario, picks uint64) Conf {
	c := Conf{}
	c.Seed = r.U64()
	switch r.N(10) {
	case 0:
		c.Mode = simrt.ModeFIFO
	case 1:
		c.Mode = simrt.ModeLIFO
	case 2:
		c.Mode = simrt.ModeStarve
	case 3, 4, 5:
		c.Mode = simrt.ModePCT
	default:
		c.Mode = simrt.ModeUniform
	}
	c.PreemptP = []uint64{0, 300, 2000, 8000, 20000}[r.N(5)]
	c.FineP = []uint64{0, 0, 0, 100, 1000}[r.N(5)]
	c.TimeP = []uint64{0, 0, 500, 4000}[r.N(4)]
	c.PCTDepth = uint64(1 + r.N(6))
	c.PCTLen = picks
	if c.PCTLen == 0 {
		c.PCTLen = uint64(50 + r.N(600))
	}
	c.DelayP = []uint64{0, 0, 2000, 10000, 30000}[r.N(5)]
	if k.Rare {
		c.PreemptP = min(c.PreemptP, 500)
		c.FineP = 0
	}
	if k.NoTime || sc.P["notime"] != 0 {
		c.TimeP = 0
	}
	if k.NoDelay || sc.P["nodelay"] != 0 {
		c.DelayP = 0
	}
	c.MaxSteps = k.Steps
	if c.MaxSteps == 0 {
		c.MaxSteps = 1 << 18
	}
	return c
}

// Replay is a self-contained description of one run.
type Replay struct {
	Property string        `json:"property"`
	Message  []string      `json:"message"`
	Fatal    bool          `json:"fatal,omitempty"` // the process dies
	Program  string        `json:"program,omitempty"`
	Scenario *Scenario     `json:"scenario"`
	Conf     Conf          `json:"conf"`
	Tape     []simrt.Entry `json:"tape"`
	UseTape  bool          `json:"use_tape"`
	Hash     uint64        `json:"hash,string"`
	Steps    uint64        `json:"steps"`
	Trace    []string      `json:"trace,omitempty"`
	Race     bool          `json:"race,omitempty"`
}

var unjudged = map[string]int64{}

// longRun: the budget of a run which is repeated because the first one ran out.
const longRun = 1 << 20

var longer int

// execute runs a scenario once. nil: not judged.
func execute(sc *Scenario, c Conf, replay bool, tape []simrt.Entry, log []simrt.LogEntry, race bool) (*Run, []simrt.Entry) {
	k := kinds[sc.Kind]
	if k == nil {
		panic("harness: unknown kind " + sc.Kind)
	}
	r := &Run{Sc: sc, Race: race}
	r.W = &World{Tables: sc.Tables, DelayP: c.DelayP, Race: race}
	if sc.P["nodelay"] != 0 {
		r.W.DelayP = 0
	}
	var cs *Case
	ok, why := Safe(func() { cs = k.Make(r) })
	if !ok || cs == nil {
		if why == "" {
			why = "not usable"
		}
		unjudged[why]++
		return nil, nil
	}
	before := raceErrors()
	st, out := Exec(r, c.Config, replay, tape, log, cs.Body)
	if n := raceErrors() - before; n > 0 {
		r.Failf("race: %d data race(s) reported", n)
	}
	switch {
	case st.Panicked != 0:
		if strings.Contains(r.Text, "harness:") {
			fmt.Fprintln(os.Stderr, r.Text)
			panic("harness: panic inside a run")
		}
		r.Failf("panic: %s", firstLines(r.Text, 12))
	case st.Status == simrt.StatusAborted:
		if c.MaxSteps < longRun {
			// a large scenario or one without an end: the same run again, with
			// much more to spend
			longer++
			c.MaxSteps *= 8
			return execute(sc, c, replay, tape, log, race)
		}
		if sc.P["cancel_ms"] > 0 && r.ctx != nil && r.ctx.Err() == nil {
			unjudged["the cancellation is too far away"]++
			return nil, nil
		}
		r.Failf("no end: the run did not end within its budget of %d scheduling steps", c.MaxSteps)
	case st.Done == 0:
		r.Failf("deadlock: the client cannot continue: %s", firstLines(r.Text, 30))
	case evN == maxEv:
		unjudged["too many events"]++
		return nil, nil
	default:
		cs.Check()
		if k.Leak && st.Status == simrt.StatusLeaked && len(r.Fails) == 0 {
			r.Failf("leak: %d goroutines left after everything was closed: %s", st.Live, firstLines(r.Text, 30))
		}
	}
	return r, out
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func class(fails []string) string {
	if len(fails) == 0 {
		return ""
	}
	s := fails[0]
	if i := strings.Index(s, ":"); i >= 0 {
		s = s[:i]
	}
	return s
}

// Summary is what a worker reports.
type Summary struct {
	Prop       string           `json:"prop"`
	Scenarios  int64            `json:"scenarios"`
	Runs       int64            `json:"runs"`
	Unjudged   map[string]int64 `json:"unjudged"`
	Judged     int64            `json:"judged"`
	Kinds      map[string]int64 `json:"kinds"`
	Modes      map[string]int64 `json:"modes"`
	Faults     map[string]int64 `json:"faults"`
	SimSeconds float64          `json:"sim_seconds"`
	Steps      int64            `json:"steps"`
	Preempts   int64            `json:"preempts"`
	Choices    int64            `json:"choices"`
	TimeJumps  int64            `json:"time_jumps"`
	Goroutines int64            `json:"goroutines"`
	Rechecked  int64            `json:"rechecked"`
	Samples    []string         `json:"samples"`
	Probes     map[string]int64 `json:"probes"`
	Wall       float64          `json:"wall"`
	Done       bool             `json:"done"`
	Violation  string           `json:"violation,omitempty"`
	Class      string           `json:"class,omitempty"`
	Error      string           `json:"error,omitempty"`
}

// Probes count rare conditions that runs reached.
var probes = map[string]int64{}

func probe(k string) { probes[k]++ }

func mixSeed(a ...uint64) uint64 {
	r := uint64(0x12345)
	for _, x := range a {
		r = NewRand(r ^ x*0x9e3779b97f4a7c15).U64()
	}
	return r
}

func strSeed(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// WorkerArgs of one worker process.
type WorkerArgs struct {
	Prop   string
	Seed   uint64
	Worker int
	Of     int
	Count  int // scenarios over all workers; 0: the property's quick number
	Wall   time.Duration
	Deep   bool
	Out    string // directory for results
	Race   bool
}

func pickKind(p *Prop, r *Rand) string {
	n := 0
	for _, k := range p.Kinds {
		n += k.Weight
	}
	x := r.N(n)
	for _, k := range p.Kinds {
		x -= k.Weight
		if x < 0 {
			return k.Kind
		}
	}
	panic("no kind")
}

func genScenario(p *Prop, seed uint64, deep bool) *Scenario {
	r := NewRand(seed)
	name := pickKind(p, r)
	k := kinds[name]
	if k == nil {
		panic("harness: no kind " + name)
	}
	sc := k.Gen(r, p.ID, deep)
	if sc == nil {
		return nil
	}
	sc.Prop, sc.Kind = p.ID, name
	if sc.P == nil {
		sc.P = map[string]int64{}
	}
	return sc.Clone() // as it will be read from a replay file
}

// Worker explores a share of the scenarios of a property.
func Worker(a WorkerArgs) int {
	p := props[a.Prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", a.Prop)
		return 2
	}
	if a.Count == 0 {
		a.Count = p.Quick
	}
	start := time.Now()
	s := &Summary{Prop: a.Prop, Unjudged: map[string]int64{}, Kinds: map[string]int64{}, Modes: map[string]int64{}}
	var hashes []uint64
	base := filepath.Join(a.Out, fmt.Sprintf("w%d", a.Worker))
	cur, err := os.Create(base + ".cur")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	save := func() {
		s.Unjudged = unjudged
		s.Faults = Faults()
		s.Probes = probes
		s.Wall = time.Since(start).Seconds()
		b, _ := json.Marshal(s)
		os.WriteFile(base+".tmp", b, 0o644)
		os.Rename(base+".tmp", base+".json")
		hb := make([]byte, 8*len(hashes))
		for i, h := range hashes {
			binary.LittleEndian.PutUint64(hb[i*8:], h)
		}
		os.WriteFile(base+".hash", hb, 0o644)
	}
	beat := time.Now()
	n := 0
	for i := a.Worker; i < a.Count; i += a.Of {
		if time.Since(start) > a.Wall {
			break
		}
		sseed := mixSeed(a.Seed, strSeed(a.Prop), uint64(i))
		sc := genScenario(p, sseed, a.Deep)
		s.Scenarios++
		if sc == nil {
			unjudged["no scenario"]++
			continue
		}
		k := kinds[sc.Kind]
		cr := NewRand(sseed ^ 0xabcdef)
		picks := uint64(0)
		judged := false
		for j := 0; j < p.Scen; j++ {
			c := genConf(cr, k, sc, picks)
			// should the process die, the driver finds the run here
			rp := Replay{Property: a.Prop, Scenario: sc, Conf: c, Race: a.Race}
			b, _ := json.Marshal(&rp)
			cur.Truncate(0)
			cur.WriteAt(b, 0)
			r, tape := execute(sc, c, false, nil, nil, a.Race)
			if r == nil {
				break
			}
			judged = true
			n++
			s.Runs++
			s.Kinds[sc.Kind]++
			s.Modes[simrt.ModeNames[c.Mode]]++
			s.SimSeconds += float64(r.Stats.Now-simrt.BaseTime) / 1e9
			s.Steps += int64(r.Stats.Picks)
			s.Preempts += int64(r.Stats.Preempts + r.Stats.Fines)
			s.Choices += int64(r.Stats.NChoices)
			s.TimeJumps += int64(r.Stats.TimeJumps)
			s.Goroutines += int64(r.Stats.Gs)
			picks = r.Stats.Picks
			if r.Stats.TapeN > 0 {
				hashes = append(hashes, r.Stats.Hash)
			}
			if len(s.Samples) < 3 && n%17 == 1 {
				s.Samples = append(s.Samples, sample(sc, c, r))
			}
			if len(r.Fails) > 0 {
				s.Class = class(r.Fails)
				full := &Replay{Property: a.Prop, Scenario: sc, Conf: c, Tape: tape, UseTape: true, Hash: r.Stats.Hash, Steps: r.Stats.Picks, Message: r.Fails, Program: sc.Text(), Race: a.Race}
				writeReplay(base+".first.json", full)
				if a.Race && s.Class == "race" {
					// the detector reports each race once per process: the
					// driver minimises in fresh ones
					s.Violation = base + ".first.json"
				} else {
					m := Minimise(full, 25*time.Second, nil)
					writeReplay(base+".min.json", m)
					s.Violation = base + ".min.json"
				}
				save()
				return 1
			}
			if n%50 == 7 && s.Rechecked < 200 {
				// spot check: the same decisions give the same run
				r2, _ := execute(sc, c, false, nil, nil, a.Race)
				r3, _ := execute(sc, c, true, tape, nil, a.Race)
				s.Rechecked++
				if r2.Stats.Hash != r.Stats.Hash {
					// state initialised on first use may have made it differ once
					probe("first use differs")
					r, tape = execute(sc, c, false, nil, nil, a.Race)
					r3, _ = execute(sc, c, true, tape, nil, a.Race)
				}
				if r2.Stats.Hash != r.Stats.Hash || r3.Stats.Hash != r.Stats.Hash {
					s.Error = fmt.Sprintf("not deterministic: scenario %d schedule %d: %x %x %x\n%s\n%s", i, j, r.Stats.Hash, r2.Stats.Hash, r3.Stats.Hash, sc.Text(), diverge(sc, c))
					save()
					return 2
				}
			}
			if n%100 == 0 || a.Race && n%5 == 0 {
				runtime.GC()
			}
			if n%10 == 0 && time.Since(beat) > time.Second {
				beat = time.Now()
				save()
			}
		}
		if judged {
			s.Judged++
		}
	}
	s.Done = true
	save()
	return 0
}

func sample(sc *Scenario, c Conf, r *Run) string {
	b, _ := json.Marshal(sc)
	t := string(b)
	if len(t) > 1500 {
		t = t[:1500] + "..."
	}
	return fmt.Sprintf("kind=%s mode=%s seed=%d program=%q steps=%d goroutines=%d simulated=%.1fs hash=%x scenario=%s",
		sc.Kind, simrt.ModeNames[c.Mode], c.Seed, sc.Text(), r.Stats.Picks, r.Stats.Gs, float64(r.Stats.Now-simrt.BaseTime)/1e9, r.Stats.Hash, t)
}

func writeReplay(path string, r *Replay) {
	b, err := json.MarshalIndent(r, "", " ")
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		panic(err)
	}
}

// ReadReplay reads a replay file.
func ReadReplay(path string) (*Replay, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	r := &Replay{}
	return r, json.Unmarshal(b, r)
}

// Minimise shrinks the scenario of a failing run and then its decisions.
// With sub set every attempt is made in a process of its own.
func Minimise(full *Replay, wall time.Duration, sub func(*Replay) []string) *Replay {
	start := time.Now()
	want := class(full.Message)
	best := *full
	n := 0
	over := func() bool { return time.Since(start) > wall }
	// try one way of running a scenario
	try := func(rp *Replay) bool {
		n++
		if n%100 == 0 {
			runtime.GC()
		}
		if sub != nil {
			f := sub(rp)
			if class(f) != want {
				return false
			}
			rp.Message = f
			return true
		}
		r, tape := execute(rp.Scenario, rp.Conf, rp.UseTape, rp.Tape, nil, rp.Race)
		if r == nil || class(r.Fails) != want {
			return false
		}
		rp.Message, rp.Tape, rp.UseTape, rp.Hash, rp.Steps = r.Fails, tape, true, r.Stats.Hash, r.Stats.Picks
		rp.Program = rp.Scenario.Text()
		return true
	}
	half := wall * 2 / 3
	tries := 6
	if sub != nil {
		tries = 1
	}
	Shrink(full.Scenario, 20000, func(c *Scenario) bool {
		if time.Since(start) > half {
			return false
		}
		for k := 0; k < tries; k++ {
			rp := &Replay{Property: full.Property, Scenario: c, Conf: best.Conf, Race: full.Race, Fatal: full.Fatal}
			rp.Message = best.Message
			if k > 0 {
				rp.Conf.Seed = best.Conf.Seed + uint64(k)*7919
			}
			if sub != nil {
				rp.Program = c.Text()
			}
			if try(rp) {
				best = *rp
				return true
			}
		}
		return false
	})
	if best.UseTape && sub == nil {
		best = *minTape(&best, try, over)
	}
	if best.UseTape && sub == nil {
		// the decisions in words
		log := make([]simrt.LogEntry, 4096)
		r, _ := execute(best.Scenario, best.Conf, true, best.Tape, log, best.Race)
		if r != nil {
			best.Trace = traceText(r, log[:r.Stats.LogN])
		}
	}
	return &best
}

// minTape removes decisions (which then take their default) while the run
// still fails.
func minTape(b *Replay, try func(*Replay) bool, over func() bool) *Replay {
	best := *b
	for chunk := (len(best.Tape) + 1) / 2; chunk >= 1 && !over(); {
		removed := false
		for i := 0; i < len(best.Tape) && !over(); {
			j := min(i+chunk, len(best.Tape))
			rp := best
			rp.Tape = append(append([]simrt.Entry{}, best.Tape[:i]...), best.Tape[j:]...)
			before := len(best.Tape)
			if try(&rp) && len(rp.Tape) < before {
				best = rp
				removed = true
			} else {
				i = j
			}
		}
		if !removed || chunk > 1 {
			if chunk == 1 {
				break
			}
			chunk = (chunk + 1) / 2
		}
	}
	return &best
}

func traceText(r *Run, log []simrt.LogEntry) []string {
	var out []string
	for _, e := range log {
		if e.N <= 1 && e.Choice == 0 {
			continue
		}
		where := ""
		if e.PC != 0 {
			f, _ := runtime.CallersFrames([]uintptr{uintptr(e.PC)}).Next()
			where = fmt.Sprintf(" at %s:%d", filepath.Base(f.File), f.Line)
		}
		out = append(out, fmt.Sprintf("#%d t=%.3fs g%d %s %d/%d%s", e.Idx, float64(e.Now-simrt.BaseTime)/1e9, e.Actor, simrt.KindNames[e.Kind], e.Choice, e.N, where))
		if len(out) > 400 {
			out = append(out, "...")
			break
		}
	}
	out = append(out, "events:")
	for i, e := range r.Evs {
		if i > 200 {
			out = append(out, "...")
			break
		}
		out = append(out, fmt.Sprintf("step %d t=%.3fs %s %d", e.Step, float64(e.Now-simrt.BaseTime)/1e9, e.K, e.N))
	}
	for i, l := range r.Logs {
		if i > 60 {
			break
		}
		out = append(out, "log: "+strings.TrimSpace(l))
	}
	return out
}

// RunReplay executes a replay file; it prints the outcome as JSON.
type ReplayResult struct {
	Fails   []string `json:"fails"`
	Hash    uint64   `json:"hash,string"`
	Judged  bool     `json:"judged"`
	Program string   `json:"program"`
	Text    string   `json:"text,omitempty"`
	Logs    []string `json:"logs,omitempty"`
}

func RunReplay(path string, verbose bool) int {
	rp, err := ReadReplay(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var log []simrt.LogEntry
	if verbose {
		log = make([]simrt.LogEntry, 1<<16)
	}
	r, _ := execute(rp.Scenario, rp.Conf, rp.UseTape, rp.Tape, log, rp.Race)
	if r != nil && !rp.Race && rp.Hash != 0 && r.Stats.Hash != rp.Hash {
		// state initialised on first use may have made it differ
		r, _ = execute(rp.Scenario, rp.Conf, rp.UseTape, rp.Tape, log, rp.Race)
	}
	if verbose && r != nil {
		fmt.Fprintln(os.Stderr, strings.Join(traceText(r, log[:r.Stats.LogN]), "\n"))
	}
	res := ReplayResult{}
	if r != nil {
		res.Judged = true
		res.Fails = r.Fails
		res.Hash = r.Stats.Hash
		res.Program = rp.Scenario.Text()
		if verbose {
			res.Text = r.Text
			res.Logs = r.Logs
		}
	}
	b, _ := json.MarshalIndent(&res, "", " ")
	fmt.Println(string(b))
	if len(res.Fails) > 0 {
		return 1
	}
	return 0
}

// MinimiseSub minimises a run that kills its process or whose failure shows
// only once per process.
func MinimiseSub(path, out string, wall time.Duration) int {
	full, err := ReadReplay(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	self, _ := os.Executable()
	tmp := out + ".try"
	n := 0
	sub := func(rp *Replay) []string {
		n++
		writeReplay(tmp, rp)
		c := exec.Command("timeout", "30", self, "replay", tmp)
		b, err := c.Output()
		res := ReplayResult{}
		if json.Unmarshal(b, &res) == nil && err != nil {
			return res.Fails
		}
		if x, ok := err.(*exec.ExitError); ok && x.ExitCode() != 0 && x.ExitCode() != 1 && x.ExitCode() != 124 {
			return []string{"fatal: " + fatalLine(string(x.Stderr))}
		}
		return nil
	}
	f := sub(full)
	if len(f) == 0 {
		fmt.Fprintln(os.Stderr, "does not reproduce")
		return 3
	}
	full.Message = f
	m := Minimise(full, wall, sub)
	os.Remove(tmp)
	writeReplay(out, m)
	return 1
}

func fatalLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime:") {
			return l
		}
	}
	return firstLines(s, 2)
}

// ListProps prints the registered properties.
func ListProps() {
	var ids []string
	for k := range props {
		ids = append(ids, k)
	}
	sort.Strings(ids)
	type item struct {
		ID    string `json:"id"`
		Race  bool   `json:"race"`
		Quick int    `json:"quick"`
		Scen  int    `json:"schedules"`
		Rule  string `json:"rule"`
	}
	var l []item
	for _, k := range ids {
		p := props[k]
		l = append(l, item{k, p.Race, p.Quick, p.Scen, p.Rule})
	}
	b, _ := json.Marshal(l)
	fmt.Println(string(b))
}
