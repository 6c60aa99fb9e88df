package h

import (
	"context"
	"log"
	"time"

	"github.com/Velocidex/ordereddict"
	"www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/types"
)

// Several clients use scopes derived from one another, and the same parsed
// statements, for everything a client may do with them at the same time:
// evaluating, defining, looking up, deriving, registering clean-ups, reading
// statistics, describing, formatting, marshalling and closing. Ops: K what, A
// scope, B statement, C rows to read or a value, S client.

const mixScopes = 5

func genMix(r *Rand, prop string, deep bool) *Scenario {
	o := qOpts(r, prop, deep)
	o.Lets = 1 + r.N(4)
	o.Depth = 1 + r.N(2)
	o.Limit = r.P(30)
	o.Cancel = true
	prog, tables := GenProgram(r, o)
	if prog == nil {
		return nil
	}
	n := 2 + r.N(3)
	k := 6 + r.N(16)
	var ops []Op
	for i := 0; i < k; i++ {
		op := Op{A: int64(r.N(mixScopes)), B: int64(r.N(len(prog))), C: int64(r.N(5)), S: string(rune('0' + r.N(n)))}
		switch x := r.N(100); {
		case x < 34:
			op.K = "eval"
		case x < 42:
			op.K = "child"
		case x < 50:
			op.K = "vars"
		case x < 58:
			op.K = "resolve"
		case x < 62:
			op.K = "cset"
		case x < 66:
			op.K = "cget"
		case x < 70:
			op.K = "destr"
		case x < 75:
			op.K = "close"
		case x < 79:
			op.K = "stats"
		case x < 82:
			op.K = "print"
		case x < 85:
			op.K = "look"
		case x < 87:
			op.K = "new"
		case x < 90:
			op.K = "agg"
		case x < 93:
			op.K = "format"
		case x < 95:
			op.K = "lambda"
		case x < 96:
			op.K = "json"
		case x < 98:
			op.K = "save"
		default:
			op.K = "charge"
		}
		ops = append(ops, op)
	}
	p := map[string]int64{"clients": int64(n)}
	if r.P(30) {
		p["throttle"] = 50
	}
	if r.P(25) {
		p["cancel_step"] = int64(1 + r.N(500))
	}
	if r.P(25) {
		p["explain"] = 1
		prog[len(prog)-1].Q.Explain = true
	}
	return &Scenario{Prog: prog, Tables: tables, Ops: ops, P: p}
}

func makeMix(r *Run) *Case {
	sc := r.Sc
	for _, t := range sc.Tables {
		if t.Endless || t.Block {
			undefined("nothing ends the query")
		}
	}
	for _, o := range sc.Ops {
		if o.A < 0 || int(o.A) >= mixScopes || o.B < 0 || int(o.B) >= len(sc.Prog) {
			undefined("no such scope or statement")
		}
	}
	// an estimate of what it costs
	m := NewModel(sc.Tables)
	m.budget = 1500
	for _, s := range sc.Prog {
		m.Exec(s)
	}
	asts := parseProg(sc.Text())
	if len(asts) != len(sc.Prog) {
		undefined("program parses differently")
	}
	lam, err := vfilter.ParseLambda("x, y => fx(v=x + 1, tag='lam') + y + va")
	if err != nil {
		panic("harness: " + err.Error())
	}
	left := 0
	body := func() {
		r.ctx, r.cancel = newCtx()
		root := r.W.NewScope()
		if sc.P["explain"] != 0 {
			root.SetExplainer(quietExplainer{})
		}
		if n := sc.P["throttle"]; n != 0 {
			root.SetThrottler(vfilter.NewTimeThrottler(float64(n)))
		}
		for _, a := range asts[:len(asts)-1] {
			r.eval(root, a, false)
		}
		var scopes [mixScopes]types.Scope
		scopes[0] = root
		scopes[1] = root.Copy()
		scopes[2] = scopes[1].Copy()
		scopes[3] = root.Copy()
		scopes[4] = root.NewScope()
		if sc.P["cancel_step"] != 0 {
			r.setup()
		}
		n := int(sc.P["clients"])
		done := make(chan int, n)
		for c := 0; c < n; c++ {
			go func() {
				for _, o := range sc.Ops {
					if o.S == string(rune('0'+c)) {
						mixOp(r, scopes[o.A], asts, lam, o)
					}
				}
				done <- c
			}()
		}
		for c := 0; c < n; c++ {
			<-done
		}
		for i := range scopes {
			scopes[len(scopes)-1-i].Close()
		}
		r.cancel()
		left = r.settle()
	}
	return &Case{Body: body, Check: func() {
		if left != 0 {
			r.Failf("left: %d goroutines are left after everything was closed: %s", left, firstLines(r.Text, 40))
		}
	}}
}

func mixOp(r *Run, s types.Scope, asts []*vfilter.VQL, lam *vfilter.Lambda, o Op) {
	name := []string{"va", "vb", "vc", "vd", "ve"}[o.C]
	switch o.K {
	case "eval":
		ctx, cancel := context.WithCancel(r.ctx)
		n := int64(0)
		for row := range asts[o.B].Eval(ctx, s) {
			rowStr(ctx, s, row)
			if n++; o.C != 0 && n >= o.C {
				break
			}
		}
		cancel()
	case "child":
		c := s.Copy()
		c.AppendVars(ordereddict.NewDict().Set(name, o.C))
		c.Resolve("va")
		if o.C < 2 {
			for row := range asts[o.B].Eval(r.ctx, c) {
				rowStr(r.ctx, c, row)
			}
		}
		if o.C != 4 {
			c.Close()
		}
	case "vars":
		s.AppendVars(ordereddict.NewDict().Set(name, o.C))
	case "resolve":
		s.Resolve(name)
	case "cset":
		s.SetContext(name, o.C)
	case "cget":
		s.GetContext(name)
	case "destr":
		w := r.W
		s.AddDestructor(func() { w.record("cleanup", 0) })
	case "close":
		if o.A != 0 {
			s.Close()
			r.W.fault("scope closed while in use")
		}
	case "stats":
		snapshot(s)
		s.CheckForOverflow()
		s.IsClosed()
	case "print":
		s.PrintVars()
	case "look":
		if f, ok := s.GetFunction("fx"); ok {
			f.Info(s, nil)
		}
		if p, ok := s.GetPlugin("src"); ok {
			p.Info(s, nil)
		}
		s.GetSimilarPlugins("sr")
		s.Describe(types.NewTypeMap())
		s.Explainer()
	case "new":
		c := s.NewScope()
		c.AppendVars(ordereddict.NewDict().Set(name, o.C))
		c.SetContext(name, o.C)
		c.SetLogger(log.New(dropWriter{}, "", 0))
		c.AppendFunctions(r.W.functions()...)
		for row := range asts[o.B].Eval(r.ctx, c) {
			rowStr(r.ctx, c, row)
		}
		c.Close()
	case "agg":
		s.GetAggregatorCtx()
	case "format":
		vfilter.FormatToString(s, asts[o.B])
	case "save":
		if m, ok := s.(interface {
			Marshal(types.Scope) (*types.MarshalItem, error)
		}); ok {
			m.Marshal(s)
		}
	case "charge":
		s.ChargeOp()
	case "lambda":
		for i := int64(0); i <= o.C; i++ {
			lam.Reduce(r.ctx, s, []types.Any{o.C, i})
		}
	case "json":
		vfilter.OutputJSON(asts[o.B], r.ctx, s, func(rows []types.Row) ([]byte, error) {
			for _, row := range rows {
				rowStr(r.ctx, s, row)
			}
			return nil, nil
		})
	}
	if o.C == 3 {
		time.Sleep(time.Millisecond)
	}
}

type dropWriter struct{}

func (dropWriter) Write(b []byte) (int, error) { return len(b), nil }

type quietExplainer struct{}

func (quietExplainer) StartQuery(interface{})                          {}
func (quietExplainer) PluginOutput(interface{}, types.Row)             {}
func (quietExplainer) SelectOutput(types.Row)                          {}
func (quietExplainer) ParseArgs(*ordereddict.Dict, interface{}, error) {}
func (quietExplainer) RejectRow(interface{})                           {}
func (quietExplainer) Log(string)                                      {}

func init() {
	kind(&Kind{Name: "mix", Gen: genMix, Make: makeMix, Steps: 1 << 19})
}
