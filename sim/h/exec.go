package h

import (
	"context"
	"fmt"
	"regexp"
	"strings"
	"time"

	"velsim/simrt"
	"www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/types"
	"www.velocidex.com/golang/vfilter/utils/dict"
)

// Scenario is one generated situation: program, data, host behaviour, faults.
type Scenario struct {
	Prop   string            `json:"prop"`
	Kind   string            `json:"kind"`
	Prog   []*Stmt           `json:"prog,omitempty"`
	Tables map[string]*Table `json:"tables,omitempty"`
	P      map[string]int64  `json:"p,omitempty"`
	Ops    []Op              `json:"ops,omitempty"`
	S      map[string]string `json:"s,omitempty"`
}

// Op is one step of a scripted client.
type Op struct {
	K string `json:"k"`
	A int64  `json:"a,omitempty"`
	B int64  `json:"b,omitempty"`
	D int64  `json:"d,omitempty"`
	C int64  `json:"c,omitempty"`
	S string `json:"s,omitempty"`
}

func (s *Scenario) Text() string {
	if k := kinds[s.Kind]; k != nil && k.Text != nil {
		return k.Text(s)
	}
	var r []string
	for _, x := range s.Prog {
		r = append(r, x.Str())
	}
	return quoteNames(strings.Join(r, "\n"), uint64(s.P["bq"]))
}

var (
	nameRE   = regexp.MustCompile(`'[^']*'|[A-Za-z_][A-Za-z0-9_]*|[0-9][0-9A-Za-z.]*`)
	keywords = map[string]bool{}
)

func init() {
	for _, k := range strings.Fields("SELECT FROM WHERE GROUP ORDER BY LIMIT DESC AND OR NOT IN AS LET EXPLAIN TRUE FALSE NULL") {
		keywords[k] = true
	}
}

// quoteNames writes some of the names in backticks.
func quoteNames(text string, k uint64) string {
	if k == 0 {
		return text
	}
	return nameRE.ReplaceAllStringFunc(text, func(t string) string {
		if c := t[0]; c == '\'' || c >= '0' && c <= '9' || c == '.' || keywords[strings.ToUpper(t)] {
			return t
		}
		k = k*6364136223846793005 + 1442695040888963407
		if (k>>33)%2 != 0 {
			return t
		}
		return "`" + t + "`"
	})
}

// ORow is a row as its reader got it.
type ORow struct {
	S    string
	Step uint64
	Now  int64
}

// Run is the execution of a scenario under one schedule.
type Run struct {
	Sc         *Scenario
	W          *World
	Race       bool
	Replay     bool
	Stats      simrt.Stats
	Evs        []Ev
	Logs       []string
	Text       string
	Fails      []string
	Samples    map[string]int64
	ctx        context.Context
	cancel     context.CancelFunc
	Canceled   bool
	cancelAt   int64 // time of cancellation
	cancelStep uint64
}

// Failf records a violation seen while the run proceeds.
func (r *Run) Failf(f string, a ...any) {
	if len(r.Fails) < 8 {
		r.Fails = append(r.Fails, fmt.Sprintf(f, a...))
	}
}

// Out is what one evaluation delivered.
type Out struct {
	Rows        []ORow
	Cols        []string
	Closed      bool
	Gone        bool // the reader walked away
	End         int64
	OpenAtClose int
}

func (o *Out) strs() []string {
	var r []string
	for _, x := range o.Rows {
		r = append(r, x.S)
	}
	return r
}

// doCancel cancels the run's context.
func (r *Run) doCancel(why string) {
	if r.markCancel(why) {
		r.cancel()
	}
}

//go:norace
func (r *Run) markCancel(why string) bool {
	if r.Canceled {
		return false
	}
	r.Canceled = true
	r.cancelAt = simrt.Now()
	r.cancelStep = simrt.Step()
	faultAdd("cancel:" + why)
	return true
}

//go:norace
func (r *Run) isCanceled() bool { return r.Canceled }

// setup installs the cancellation faults a scenario asks for.
func (r *Run) setup() {
	p := r.Sc.P
	if k := p["cancel_step"]; k > 0 {
		go func() {
			if simrt.WaitStep(uint64(k)) {
				r.doCancel("step")
			}
		}()
	}
	if k := p["cancel_ms"]; k > 0 {
		ctx := r.ctx
		go func() {
			if sleepCtx(ctx, time.Duration(k)*time.Millisecond) {
				r.doCancel("time")
			}
		}()
	}
	if k := p["cancel_ev"]; k > 0 {
		r.W.OnEvent = func(_ string, n int) {
			if n == int(k) {
				r.doCancel("event")
			}
		}
	}
}

// eval evaluates one statement and reads its output as the scenario says.
func (r *Run) eval(scope types.Scope, v *vfilter.VQL, main bool) *Out {
	o := &Out{}
	p := r.Sc.P
	for row := range r.evalCh(v.Eval(r.ctx, scope)) {
		o.Rows = append(o.Rows, ORow{rowStr(r.ctx, scope, row), simrt.Step(), simrt.Now()})
		if !main {
			continue
		}
		n := int64(len(o.Rows))
		if p["cancel_rows"] == n {
			r.doCancel("rows")
		}
		if p["abandon_rows"] == n {
			r.W.fault("reader walks away")
			o.Gone = true
			return o
		}
		if p["reader"] != 0 {
			r.W.Delay("reader")
		}
	}
	o.Closed = true
	o.End = simrt.Now()
	o.OpenAtClose = r.W.opened()
	return o
}

func (r *Run) evalCh(c <-chan types.Row) <-chan types.Row { return c }

func rowStr(ctx context.Context, scope types.Scope, row types.Row) string {
	return RCanon(dict.RowToDict(ctx, scope, row))
}

// settle lets everything that can still happen without further input happen,
// and returns the number of goroutines left besides the caller.
func (r *Run) settle() int {
	simrt.Unpark()
	time.Sleep(15 * time.Minute)
	n := simrt.Live() - 1
	if n > 0 {
		simrt.Dump()
	}
	return n
}

// QResult is the observation of a generic query run.
type QResult struct {
	Outs    []*Out
	LeftA   int // goroutines left after the query ended, scope still open
	LeftB   int // after everything
	Cancel  bool
	Stats   map[string]uint64
	OpenEnd int // resources open after the query ended, scope still open
	Seen    []map[string]uint64
	Exp     *recExplainer
	Defs    map[string]uint64 // statistics after the definitions
}

func newCtx() (context.Context, context.CancelFunc) {
	return context.WithCancel(context.Background())
}

func snapshot(scope types.Scope) map[string]uint64 {
	m := map[string]uint64{}
	for _, it := range scope.GetStats().Snapshot().Items() {
		m[it.Key] = it.Value.(uint64)
	}
	return m
}

// Exec runs a function as the main goroutine of a simulated run.
func Exec(r *Run, c simrt.Config, replay bool, tape []simrt.Entry, log []simrt.LogEntry, f func()) (simrt.Stats, []simrt.Entry) {
	resetWorld()
	r.Replay = replay
	st, out := simrt.Run(c, replay, tape, log, f)
	r.Stats = st
	r.Evs = Events()
	r.Logs = Logs()
	if st.TextN > 0 {
		r.Text = simrt.Text()
	}
	return st, out
}
