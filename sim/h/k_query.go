package h

import (
	"context"
	"encoding/json"
	"fmt"
	"log"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/Velocidex/ordereddict"
	"velsim/simrt"
	"www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/arg_parser"
	"www.velocidex.com/golang/vfilter/explain"
	"www.velocidex.com/golang/vfilter/types"
)

// recExplainer records what an explained query reports.
type recExplainer struct {
	Start, Plug, Sel, Rej int
	SelRows               []string
}

//go:norace
func (e *recExplainer) inc(p *int) { *p++ }

func (e *recExplainer) StartQuery(any)                          { e.inc(&e.Start) }
func (e *recExplainer) RejectRow(any)                           { e.inc(&e.Rej) }
func (e *recExplainer) ParseArgs(*ordereddict.Dict, any, error) {}
func (e *recExplainer) PluginOutput(any, types.Row)             { e.inc(&e.Plug) }
func (e *recExplainer) SelectOutput(types.Row)                  { e.inc(&e.Sel) }
func (e *recExplainer) Log(string)                              {}

var _ types.Explainer = &recExplainer{}

// runQuery: definitions, then the query, k times in a row or at once; the
// reader drains the output.
func runQuery(r *Run, asts []*vfilter.VQL, res *QResult) {
	w := r.W
	p := r.Sc.P
	r.ctx, r.cancel = newCtx()
	scope := w.NewScope()
	if p["tracer"] != 0 {
		scope.SetTracer(log.New(logWriter{}, "", 0))
	}
	switch p["explain"] {
	case 1:
		res.Exp = &recExplainer{}
		scope.SetExplainer(res.Exp)
	case 2:
		scope.SetExplainer(explain.NewLoggingExplainer(scope))
	}
	if n := p["throttle"]; n != 0 {
		scope.SetThrottler(vfilter.NewTimeThrottler(float64(n)))
	}
	if p["early"] != 0 {
		r.setup()
	}
	n := len(asts) - 1
	for _, a := range asts[:n] {
		w.setOff(w.getOff() + p["shift"])
		r.eval(scope, a, false)
	}
	if p["early"] == 0 {
		r.setup()
	}
	res.Defs = snapshot(scope)
	stop := &flag{}
	if k := int(p["sampler"]); k > 0 {
		go func() {
			for i := 0; i < k && !stop.get(); i++ {
				res.Seen = append(res.Seen, snapshot(scope))
				simrt.WaitStep(simrt.Step() + 1 + uint64(simrt.Choose(40, 60000)))
			}
			res.Seen = append(res.Seen, snapshot(scope))
		}()
	}
	k := int(p["k"])
	if k == 0 {
		k = 1
	}
	if conc := p["conc"]; conc != 0 {
		res.Outs = make([]*Out, k)
		done := make(chan int, k)
		for i := 0; i < k; i++ {
			sc := types.Scope(scope)
			if conc == 2 {
				sc = scope.Copy()
			}
			go func() {
				o := r.eval(sc, asts[n], true)
				res.setOut(i, o)
				done <- i
			}()
		}
		for i := 0; i < k; i++ {
			<-done
		}
	} else {
		for i := 0; i < k; i++ {
			w.setOff(w.getOff() + p["shift"])
			o := r.eval(scope, asts[n], true)
			res.Outs = append(res.Outs, o)
			if o.Gone {
				break
			}
		}
	}
	if last := res.Outs[len(res.Outs)-1]; last.Gone && !r.isCanceled() {
		// the reader is gone: the caller cancels
		w.Delay("cancel")
		r.doCancel("abandoned")
	}
	stop.set()
	res.LeftA = r.settle()
	res.Cancel = r.isCanceled()
	res.Stats = snapshot(scope)
	res.OpenEnd = w.opened()
	scope.Close()
	r.cancel()
	res.LeftB = r.settle()
	runtime.KeepAlive(res)
}

// flag is a variable the race detector does not look at.
type flag struct{ v bool }

//go:norace
func (f *flag) get() bool { return f.v }

//go:norace
func (f *flag) set() { f.v = true }

//go:norace
func (res *QResult) setOut(i int, o *Out) { res.Outs[i] = o }

// oracles of a property over generic query runs.
type oracles struct {
	rows, end, left, open, early, refused, events, stats, explain, prefix, logs bool
}

var qOracles = map[string]oracles{
	"C01": {rows: true, end: true, events: true},
	"C02": {rows: true, end: true, events: true},
	"C04": {rows: true, end: true},
	"C06": {rows: true, end: true},
	"C07": {rows: true, end: true, left: true},
	"C08": {rows: true, end: true, left: true, prefix: true},
	"C09": {rows: true, end: true, left: true, open: true},
	"C10": {rows: true, end: true, early: true, refused: true},
	"C16": {rows: true, end: true, left: true},
	"C17": {rows: true, end: true, events: true},
	"C18": {rows: true, end: true, events: true},
	"C19": {rows: true, end: true},
	"C20": {end: true},
	"C23": {rows: true, end: true, events: true, explain: true},
	"C24": {end: true, stats: true},
	"C25": {rows: true, end: true},
	"C27": {rows: true, end: true, events: true, left: true, logs: true},
}

func qOpts(r *Rand, prop string, deep bool) GOpts {
	o := GOpts{Lets: r.N(5), Depth: 1 + r.N(3), Workers: r.P(25), Limit: r.P(30), Order: r.P(50), Group: r.P(50),
		Handles: r.P(20), Mat: true, Sub: r.P(50), Fx: r.N(40), Calls: true, Foreach: true, Null: r.P(50), MaxRows: 5}
	if deep && r.P(30) {
		o.Depth = 2 + r.N(3)
		o.Lets = 3 + r.N(5)
		o.MaxRows = 3 + r.N(8)
	}
	if r.N(60) == 0 {
		// sizes a user meets, and thresholds lie at
		o.Big = 20 + r.N([]int{60, 300, 1500}[r.N(3)])
		o.Depth, o.Sub, o.Lets, o.MaxRows = r.N(2), false, r.N(2), 3
	} else if r.N(map[string]int{"C06": 8, "C04": 12}[prop]+25*b2i(prop != "C06" && prop != "C04")) == 0 {
		o.Big = 8 + r.N(56)
		o.Depth, o.Sub, o.Lets, o.MaxRows = r.N(2), false, r.N(3), 4
	}
	switch prop {
	case "C01":
		o.Workers = false
	case "C02":
		o.Workers, o.Foreach = true, true
	case "C04":
		o.Group = true
		if o.Big == 0 {
			o.MaxRows = 2 + r.N(9)
		}
	case "C06":
		o.Order = true
		o.Floats = true
		if o.Big == 0 {
			o.MaxRows = 3 + r.N(9)
		}
	case "C07":
		o.Limit = true
	case "C08":
		o.Cancel = true
	case "C09", "C10":
		o.Handles = true
		if prop == "C10" {
			o.Limit = false
		}
	case "C17":
		o.Lets = 2 + r.N(5)
	case "C18":
		o.Fx = 30 + r.N(40)
		o.LazyRows = r.P(30)
	case "C27":
		o.Broken = true
	case "C23", "C24":
		o.Limit = false
		o.LazyRows = prop == "C23" && r.P(60)
	case "C20":
		o.Workers = r.P(75)
		o.Cancel = true
	}
	return o
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func has(prog []*Stmt, f func(*Query) bool) bool {
	found := false
	for _, s := range prog {
		s.walk(func(*Expr) {}, func(q *Query) { found = found || f(q) })
	}
	return found
}

func hasExpr(prog []*Stmt, f func(*Expr) bool) bool {
	found := false
	for _, s := range prog {
		s.walk(func(e *Expr) { found = found || f(e) }, func(q *Query) {})
	}
	return found
}

func genQ(r *Rand, prop string, deep bool) *Scenario {
	for try := 0; try < 12; try++ {
		o := qOpts(r, prop, deep)
		prog, tables := GenProgram(r, o)
		last := prog[len(prog)-1].Q
		switch prop {
		case "C02":
			if !has(prog, func(q *Query) bool { return q.From.K == "foreach" && q.From.Workers > 1 }) {
				continue
			}
		case "C04":
			if !has(prog, func(q *Query) bool { return len(q.Group) > 0 }) {
				continue
			}
		case "C06":
			if last.Order == "" {
				c := lastCols(prog, tables)
				if len(c) > 0 && last.Limit == nil {
					last.Order = c[r.N(len(c))]
					last.Desc = r.P(50)
				}
			}
			if !has(prog, func(q *Query) bool { return q.Order != "" }) {
				continue
			}
		case "C07":
			if last.Limit == nil && r.P(70) {
				n := int64(r.N(6))
				last.Limit = &n
			}
			if !has(prog, func(q *Query) bool { return q.Limit != nil }) {
				continue
			}
		case "C17":
			if !has(prog[:len(prog)-1], func(q *Query) bool { return true }) && r.P(80) {
				continue
			}
		}
		sc := &Scenario{Prog: prog, Tables: tables, P: map[string]int64{}}
		p := sc.P
		if r.P(12) {
			p["bq"] = int64(1 + r.N(1<<20))
		}
		if r.P(30) {
			p["reader"] = 1
		}
		if prop == "C09" {
			// (a clean-up may be given up on after a minute of the clock)
			p["notime"] = 1
		}
		switch prop {
		case "C01", "C09", "C10", "C18":
			if r.P(15) {
				p["k"] = 2
			}
		case "C04", "C17":
			if r.P(50) {
				p["k"] = int64(2 + r.N(2))
			}
			if prop == "C17" && r.P(60) {
				// the data changes after the definitions and between references
				p["shift"] = int64(1 + r.N(20))
			}
		case "C08":
			genCancel(r, sc, o)
			if r.P(50) {
				p["notime"] = 1
			}
		case "C16":
			p["throttle"] = []int64{1, 2, 5, 10, 50, 99, 100, 200}[r.N(8)]
		case "C19":
			p["k"] = int64(2 + r.N(3))
			p["conc"] = int64(1 + r.N(2))
		case "C20":
			if r.P(60) {
				p["k"] = int64(2 + r.N(3))
				p["conc"] = int64(1 + r.N(2))
			}
			if r.P(30) {
				genCancel(r, sc, o)
			}
			if r.P(20) {
				p["explain"] = 1
				last.Explain = true
			}
			if r.P(20) {
				p["throttle"] = 50
			}
			if r.P(15) {
				addJunk(r, prog)
			}
			if r.P(30) {
				p["sampler"] = int64(3 + r.N(20))
			}
		case "C23":
			p["explain"] = int64(1 + r.N(2))
			last.Explain = true
			if r.P(40) {
				p["tracer"] = 1
			}
			if r.P(70) {
				p["twin"] = 1
			}
			if p["explain"] == 2 && r.P(40) {
				addJunk(r, prog)
			}
		case "C24":
			p["sampler"] = int64(3 + r.N(30))
			if r.P(50) {
				p["k"] = int64(2 + r.N(3))
				p["conc"] = int64(r.N(3))
			}
		case "C25":
			p["k"] = int64(2 + r.N(3))
		case "C27":
			if r.P(50) {
				addJunk(r, prog)
			}
		}
		return sc
	}
	return nil
}

func lastCols(prog []*Stmt, tables map[string]*Table) []string {
	q := prog[len(prog)-1].Q
	var c []string
	for _, x := range q.Cols {
		if x.Star && q.From.K == "src" {
			if t := tables[q.From.A[0].S]; t != nil {
				for _, n := range t.Cols {
					if strings.IndexByte("isznf", ColType(n)) >= 0 {
						c = append(c, n)
					}
				}
			}
		}
		n := x.As
		if n == "" && x.E != nil && x.E.K == "var" {
			n = x.E.S
		}
		if n != "" && strings.IndexByte("isznf", ColType(n)) >= 0 {
			c = append(c, n)
		}
	}
	return c
}

// genCancel adds the faults that end a query from outside.
func genCancel(r *Rand, sc *Scenario, o GOpts) {
	p := sc.P
	switch r.N(6) {
	case 0:
		p["cancel_step"] = int64(1 + r.N(60))
	case 1:
		p["cancel_step"] = int64(1 + r.N(600))
	case 2:
		p["cancel_ms"] = int64(1 + r.N(3000))
	case 3:
		p["cancel_ev"] = int64(1 + r.N(12))
	case 4:
		p["cancel_rows"] = int64(1 + r.N(4))
	case 5:
		p["abandon_rows"] = int64(1 + r.N(4))
		if r.P(50) {
			p["cancel_step"] = int64(1 + r.N(300))
		}
	}
	if r.P(25) && len(sc.Prog) > 1 {
		p["early"] = 1
	}
	if r.P(35) && !o.Sub {
		// sources that block until cancelled
		for i := 0; i < 3; i++ {
			if t := sc.Tables[fmt.Sprintf("t%d", i)]; t != nil && r.P(60) {
				if r.P(60) {
					t.Block = true
				} else if len(t.Rows) > 0 {
					t.Endless = true
					t.Gap = 1 + r.N(200)
				}
			}
		}
		// something has to end it
		p["cancel_ms"] = int64(1 + r.N(20000))
		p["early"] = 1
		for _, t := range sc.Tables {
			if t.Endless {
				t.Gap = max(t.Gap, int(p["cancel_ms"]/300))
			}
		}
	}
}

func makeQ(r *Run) *Case {
	sc := r.Sc
	or := qOracles[sc.Prop]
	p := sc.P
	k := int(max(p["k"], 1))
	if p["shift"] != 0 && (p["conc"] != 0 || p["early"] != 0) {
		undefined("data changing during queries")
	}
	m := NewModel(sc.Tables)
	m.budget = 3000 * k
	for _, t := range sc.Tables {
		if len(t.Rows) > 20 {
			m.budget = 100000
		}
	}
	var exps []*Res
	known := true
	endless := false
	for _, t := range sc.Tables {
		endless = endless || t.Endless
	}
	if endless || p["early"] != 0 {
		known = false
	} else {
		for i, s := range sc.Prog {
			n := 1
			if i == len(sc.Prog)-1 {
				n = k
				m.PlugOut, m.SelOut, m.Rejects = 0, 0, 0
			}
			for j := 0; j < n; j++ {
				m.off += p["shift"]
				e := m.Exec(s)
				if i == len(sc.Prog)-1 {
					exps = append(exps, e)
				}
			}
		}
	}
	if p["cancel_ms"] == 0 {
		for _, t := range sc.Tables {
			if t.Endless || t.Block {
				undefined("nothing ends the query")
			}
		}
	}
	for _, t := range sc.Tables {
		if t.Endless && t.Gap == 0 {
			undefined("nothing ends the query")
		}
	}
	asts := parseProg(sc.Text())
	if len(asts) != len(sc.Prog) {
		undefined("program parses differently")
	}
	res := &QResult{}
	var plain *Out
	var plainAsts []*vfilter.VQL
	if p["twin"] != 0 {
		c := sc.Clone()
		for _, s := range c.Prog {
			s.walk(func(*Expr) {}, func(q *Query) { q.Explain = false })
		}
		plainAsts = parseProg(c.Text())
	}
	return &Case{
		Body: func() {
			if plainAsts != nil {
				// the same without anybody looking
				r.ctx, r.cancel = newCtx()
				scope := r.W.NewScope()
				n := len(plainAsts) - 1
				for _, a := range plainAsts[:n] {
					r.eval(scope, a, false)
				}
				r.setup()
				plain = r.eval(scope, plainAsts[n], true)
				r.settle()
				r.W.record(twinMark, 0)
			}
			runQuery(r, asts, res)
		},
		Check: func() {
			if plain != nil {
				checkTwin(r, m, plain, res)
			}
			cancelled := res.Cancel
			for _, o := range res.Outs {
				if !o.Closed && !o.Gone {
					r.Failf("no end: the output channel did not close")
				}
			}
			if or.rows && known && !cancelled {
				for i, o := range res.Outs {
					if why := Compare(exps[i], o.strs()); why != "" {
						r.Failf("rows: evaluation %d: %s", i, why)
					}
				}
			}
			if cancelled && or.prefix && known && k == 1 {
				checkCut(r, m, exps[0], res.Outs[0])
			}
			if cancelled && or.prefix && p["notime"] != 0 && p["reader"] == 0 && !res.Outs[0].Gone {
				if d := res.Outs[0].End - r.cancelAt; d > 120e9 {
					r.Failf("late: the output closed %.1fs after the cancellation", float64(d)/1e9)
				}
			}
			if or.left && res.LeftA != 0 {
				r.Failf("left: %d goroutines of the query are left after it ended: %s", res.LeftA, firstLines(r.Text, 40))
			}
			if or.open {
				if res.OpenEnd != 0 {
					r.Failf("open: %d resources of the query are still open after it ended", res.OpenEnd)
				}
				if !cancelled && !m.Ever.Limit && p["conc"] == 0 {
					for _, o := range res.Outs {
						if o.OpenAtClose != 0 {
							r.Failf("open: %d resources were still open when the output closed", o.OpenAtClose)
						}
					}
				}
				for _, h := range r.W.hs {
					if h.opened && h.closes != 1 {
						r.Failf("open: resource %s was cleaned up %d times", h.id, h.closes)
					}
				}
			}
			if or.early && !cancelled && !m.Ever.Limit && len(r.W.early) > 0 {
				r.Failf("early: %v", r.W.early)
			}
			if or.refused && !cancelled && !m.Ever.Limit && r.W.Refused > 0 {
				r.Failf("refused: %d registrations refused", r.W.Refused)
			}
			if or.events && known && !cancelled && !m.Ever.Limit {
				if why := diffEvents(m, r); why != "" {
					r.Failf("events: %s", why)
				}
			}
			if or.logs && known && !cancelled && !m.Ever.Limit && logN < len(logBuf) {
				checkReported(r, m)
			}
			if or.stats && known && !cancelled && !m.Ever.Limit {
				checkStats(r, m, res)
			}
			if or.explain && known && !cancelled && !m.Ever.Limit && res.Exp != nil && !m.Ever.Group && sc.Prog[len(sc.Prog)-1].Q.Explain {
				e := res.Exp
				if e.Plug != m.PlugOut || e.Sel != m.SelOut || e.Rej != m.Rejects {
					r.Failf("explain: reported %d source rows, %d emitted, %d rejected; happened: %d, %d, %d", e.Plug, e.Sel, e.Rej, m.PlugOut, m.SelOut, m.Rejects)
				}
			}
		},
	}
}

func checkStats(r *Run, m *Model, res *QResult) {
	s := res.Stats
	if s["RowsScanned"] != m.Stats.Rows || s["PluginsCalled"] != m.Stats.Plugins || s["FunctionsCalled"] != m.Stats.Funcs {
		r.Failf("stats: reported rows %d plugins %d functions %d; happened %d %d %d",
			s["RowsScanned"], s["PluginsCalled"], s["FunctionsCalled"], m.Stats.Rows, m.Stats.Plugins, m.Stats.Funcs)
	}
	var prev map[string]uint64
	for _, x := range append(res.Seen, s) {
		for k, v := range x {
			if prev != nil && v < prev[k] {
				r.Failf("stats: %s went from %d to %d", k, prev[k], v)
			}
			if v > s[k] {
				r.Failf("stats: %s was %d and ended as %d", k, v, s[k])
			}
		}
		prev = x
	}
}

// checkReported: what does not fit is reported in the log.
func checkReported(r *Run, m *Model) {
	var bad []string
	for b := range m.Bad {
		bad = append(bad, b)
	}
	sort.Strings(bad)
	for _, b := range bad {
		n := badName(b)
		if n == "" {
			continue
		}
		re := regexp.MustCompile(`(?i)\b` + n + `\b`)
		found := false
		for _, l := range r.Logs {
			l, _, _ = strings.Cut(l, "Current Scope")
			if !strings.HasPrefix(l, "DEBUG") && re.MatchString(l) {
				found = true
				break
			}
		}
		if !found {
			r.Failf("log: %s was evaluated and the log does not mention it", b)
			return
		}
	}
	if len(bad) > 0 {
		probe("what does not fit is reported")
	}
}

const twinMark = "twin"

// checkTwin compares an evaluation nobody looked at with the second one.
func checkTwin(r *Run, m *Model, plain *Out, res *QResult) {
	evs := r.Evs
	for i, e := range evs {
		if e.K == twinMark {
			evs, r.Evs = evs[:i], evs[i+1:]
			break
		}
	}
	if m.Ever.Limit || res.Cancel || len(res.Outs) == 0 || r.Sc.P["shift"] != 0 {
		return
	}
	workers := has(r.Sc.Prog, func(q *Query) bool { return q.From.Workers > 1 || q.From.Async })
	if workers {
		return // rows and what they share are evaluated in any order
	}
	probe("compared with an evaluation nobody looked at")
	a, b := strings.Join(plain.strs(), " "), strings.Join(res.Outs[0].strs(), " ")
	if a != b {
		r.Failf("twin: rows differ:\n without %s\n with    %s", a, b)
	}
	count := func(evs []Ev) (map[string]int, []string) {
		n := map[string]int{}
		var ks []string
		for _, e := range evs {
			if r.Sc.P["explain"] == 2 && strings.HasPrefix(e.K, "lazy:") {
				continue // that explainer prints the values of a row
			}
			if n[e.K]++; n[e.K] == 1 {
				ks = append(ks, e.K)
			}
		}
		sort.Strings(ks)
		return n, ks
	}
	x, xs := count(evs)
	y, ys := count(r.Evs)
	for _, k := range append(xs, ys...) {
		if x[k] != y[k] {
			r.Failf("twin: event %s happened %d times, %d without looking", k, y[k], x[k])
			return
		}
	}
}

// checkCut: what a cancelled query delivered.
func checkCut(r *Run, m *Model, exp *Res, o *Out) {
	var before []string
	for _, x := range o.Rows {
		if x.Step < r.cancelStep {
			before = append(before, x.S)
		}
	}
	want := len(exp.Rows)
	if exp.Take >= 0 && exp.Take < want {
		want = exp.Take
	}
	if len(before) > want {
		r.Failf("cut: %d rows delivered before the cancellation, the whole result has %d", len(before), want)
		return
	}
	e := *exp
	e.Take = len(before)
	if why := Compare(&e, before); why != "" {
		r.Failf("cut: rows delivered before the cancellation: %s", why)
	}
	stored := map[string]bool{}
	for _, s := range r.Sc.Prog {
		if s.Let != "" && s.Q != nil {
			stored[s.Let] = true
		}
		// (and a definition that stands for it)
		if s.Let != "" && s.E != nil && hasExpr([]*Stmt{s}, func(e *Expr) bool {
			return e.K == "sub" || len(e.Qs) > 0 || (e.K == "var" || e.K == "call" || e.K == "lcall") && stored[e.S]
		}) {
			stored[s.Let] = true
		}
	}
	sub := hasExpr(r.Sc.Prog, func(e *Expr) bool {
		return e.K == "sub" || len(e.Qs) > 0 || (e.K == "var" || e.K == "call" || e.K == "lcall") && stored[e.S]
	}) || has(r.Sc.Prog, func(q *Query) bool { return q.From.K == "flatten" })
	if m.Ever.Group || sub || m.Ever.Order && m.Ever.Limit || r.Sc.P["subs"] != 0 {
		return
	}
	pool := map[string]int{}
	for _, d := range exp.Rows {
		pool[Canon(d)]++
	}
	for _, x := range o.Rows {
		if pool[x.S] == 0 {
			r.Failf("cut: delivered row %s is not a row of the result, or was delivered too often", x.S)
			return
		}
		pool[x.S]--
	}
	if exp.strict() && !m.Ever.Unordered && !m.Ever.Order {
		// in order
		i := 0
		for _, d := range exp.Rows {
			if i < len(o.Rows) && o.Rows[i].S == Canon(d) {
				i++
			}
		}
		if i < len(o.Rows) {
			r.Failf("cut: rows out of order: %v", o.strs())
		}
	}
}

func init() {
	kind(&Kind{Name: "q", Gen: genQ, Make: makeQ})
}

// Warm runs everything once, so that state initialised on first use exists
// before the first judged run.
func Warm() {
	sc := &Scenario{Kind: "q", Prop: "C01", P: map[string]int64{},
		Tables: map[string]*Table{"t0": {Cols: []string{"A"}, Rows: [][]any{{int64(0)}, {int64(1)}}}},
		Prog: []*Stmt{{Q: &Query{Cols: []*Col{{Star: true}, {E: ecall("fx", "v", evar("A"), "tag", estr("w")), As: "B"}},
			From: &Source{K: "src", S: "src", N: []string{"t", "tag"}, A: []*Expr{estr("t0"), estr("s")}}, Where: &Expr{K: "cmp", S: "=~", A: []*Expr{estr("a"), estr("a")}}, Order: "A"}}}}
	r, _ := execute(sc, Conf{}, false, nil, nil, false)
	if r == nil || len(r.Fails) > 0 {
		fmt.Println("warm-up:", r.Fails)
	}
	execute(&Scenario{Kind: "warm", Prop: "C01"}, Conf{}, false, nil, nil, false)
	for i := 0; i < 6; i++ {
		// the encoders of saved scopes are kept as well
		if sc := genScenario(props["C22"], mixSeed(3, strSeed("C22"), uint64(i)), false); sc != nil {
			execute(sc, Conf{Config: simrt.Config{MaxSteps: 1 << 17}}, false, nil, nil, false)
		}
	}
	// state of the standard library that is initialised on first use
	time.NewTimer(time.Hour).Stop()
	time.NewTicker(time.Hour).Stop()
	tctx, tcancel := context.WithTimeout(context.Background(), time.Hour)
	context.AfterFunc(tctx, func() {})()
	tcancel()
	for i := range faultSlots {
		faultSlots[i] = faultSlot{}
	}
	unjudged = map[string]int64{}
	probes = map[string]int64{}
}

func makeWarm(r *Run) *Case {
	var asts []*vfilter.VQL
	tm := types.NewTypeMap()
	scope := r.W.NewScope()
	info := scope.Describe(tm)
	add := func(t string) {
		if v, err := vfilter.MultiParse(t); err == nil {
			asts = append(asts, v...)
		}
	}
	for _, f := range info.Functions {
		add("SELECT " + f.Name + "() AS X FROM scope()")
		add("SELECT " + f.Name + "(items=[1,2], item=1, a=1) AS X FROM scope() GROUP BY 1")
	}
	for _, p := range info.Plugins {
		add("SELECT * FROM " + p.Name + "()")
	}
	add("LET q(a=1) = SELECT * FROM range(start=1,end=2) LET z <= SELECT * FROM q() SELECT q(a=2), z, 'a' =~ '.' FROM foreach(row=z, query={ SELECT * FROM z }, workers=3) ORDER BY a")
	add("SELECT * FROM chain(a={ SELECT 1 AS A FROM scope() }, async=TRUE)")
	add("SELECT * FROM flatten(query={ SELECT [1,2] AS A FROM scope() })")
	add("SELECT * FROM foreach(row=[1,2], query={ SELECT 1 AS A FROM scope() }, async=TRUE)")
	return &Case{
		Body: func() {
			ctx, cancel := newCtx()
			defer cancel()
			for _, a := range asts {
				n := 0
				for range a.Eval(ctx, scope) {
					n++
					if n > 50 {
						break
					}
				}
			}
			// the reflected types of arguments are kept by the library
			for _, a := range []any{&jobArgs{}, &msArgs{}, &hfArgs{}, &srcArgs{}, &fxArgs{}, &tagArgs{}, &useArgs{}} {
				arg_parser.ExtractArgsWithContext(ctx, scope, ordereddict.NewDict(), a)
			}
			vfilter.OutputJSON(asts[0], ctx, scope, func(rows []types.Row) ([]byte, error) { return json.Marshal(rows) })
			cancel()
			scope.Close()
		},
		Check: func() {},
	}
}

func init() {
	kind(&Kind{Name: "warm", Make: makeWarm})
}
