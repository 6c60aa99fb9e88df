package h

import (
	"context"
	"fmt"
	"log"

	"github.com/Velocidex/ordereddict"
	"velsim/simrt"
	"www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/arg_parser"
	"www.velocidex.com/golang/vfilter/types"
)

// ---------------------------------------------------------------- many: one parsed query, many scopes (C19, C25)

// Prog holds the definitions of every scope (Stmt.Sc) and the query. Each
// evaluation has a fresh scope with the definitions of one of them, its own
// function hf and plugin hp, and its own context. Ops are the evaluations: A
// the scope, K what happens to it:
//
//	full     read to the end
//	cancel   cancelled after B scheduling steps
//	abandon  the reader leaves after B rows, then it is cancelled
//	close    its scope is closed after B scheduling steps, then cancelled
//
// P: conc=1 all at once, else one after the other; k evaluations each; hf, hp:
// what scope i has: digits.

type hpPlugin struct {
	w *World
	t string
}

func (self *hpPlugin) Info(scope types.Scope, tm *types.TypeMap) *types.PluginInfo {
	return &types.PluginInfo{Name: "hp"}
}

func (self *hpPlugin) Call(ctx context.Context, scope types.Scope, args *ordereddict.Dict) <-chan types.Row {
	out := make(chan types.Row)
	w := self.w
	go func() {
		defer close(out)
		t := w.Tables[self.t]
		for i := range t.Rows {
			w.delayCtx(ctx, "source")
			select {
			case <-ctx.Done():
				return
			case out <- w.mkRow(ctx, scope, t, i, 0, nil, 0, "hp"):
			}
		}
	}()
	return out
}

type hfArgs struct {
	V int64 `vfilter:"required,field=v"`
}

func (w *World) hf(add int64) types.FunctionInterface {
	return &fnFunc{"hf", &hfArgs{}, func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
		a := &hfArgs{}
		if err := arg_parser.ExtractArgsWithContext(ctx, scope, args, a); err != nil {
			scope.Log("hf: %v", err)
			return types.Null{}
		}
		w.delayCtx(ctx, "function")
		return a.V + add
	}}
}

func digit(n int64, i int) int64 {
	for ; i > 0; i-- {
		n /= 10
	}
	return n % 10
}

func genMany(r *Rand, prop string, deep bool) *Scenario {
	o := qOpts(r, prop, deep)
	o.Cancel = true
	o.Handles, o.Broken = false, false
	o.Host = r.P(70)
	o.Lets = 1 + r.N(4)
	o.Alts = 1 + r.N(2)
	o.Mat = r.P(40)
	prog, tables := GenMany(r, o)
	sc := &Scenario{Prog: prog, Tables: tables, P: map[string]int64{}}
	if r.P(12) {
		sc.P["bq"] = int64(1 + r.N(1<<20))
	}
	p := sc.P
	n := o.Alts + 1
	p["n"] = int64(n)
	for i, f := 0, int64(1); i < n; i, f = i+1, f*10 {
		p["hf"] += f * int64(r.N(3))
		p["hp"] += f * int64(r.N(4))
	}
	// the plugin's tables have columns A and S
	for i := 1; i < 4; i++ {
		t := &Table{Cols: []string{"A", "S"}}
		for j := 0; j < r.N(4); j++ {
			t.Rows = append(t.Rows, []any{int64(10*i + j), fmt.Sprintf("h%d", i)})
		}
		tables[fmt.Sprintf("hp%d", i)] = t
	}
	k := 2 + r.N(4)
	if prop != "C25" {
		p["conc"] = 1
		p["k"] = int64(1 + r.N(2))
	}
	for i := 0; i < k; i++ {
		op := Op{K: "full", A: int64(r.N(n))}
		if prop == "C25" && r.P(45) || prop == "C20" && r.P(30) {
			op.K = r.Pick("cancel", "abandon", "close")
			op.B = int64(1 + r.N(4))
			if op.K == "cancel" || op.K == "close" {
				op.B = int64(1 + r.N(300))
			}
		}
		sc.Ops = append(sc.Ops, op)
	}
	if prop == "C25" {
		// and in the end every scope again
		for i := 0; i < n; i++ {
			sc.Ops = append(sc.Ops, Op{K: "full", A: int64(i)})
		}
	}
	return sc
}

func makeMany(r *Run) *Case {
	sc := r.Sc
	p := sc.P
	n := int(p["n"])
	if n < 1 || len(sc.Ops) == 0 || len(sc.Prog) == 0 || sc.Prog[len(sc.Prog)-1].Let != "" {
		undefined("no evaluations")
	}
	for _, t := range sc.Tables {
		if t.Endless || t.Block {
			undefined("endless")
		}
	}
	last := len(sc.Prog) - 1
	exps := make([]*Res, n)
	for i := range exps {
		m := NewModel(sc.Tables)
		m.budget = 1200
		m.HF = int(digit(p["hf"], i))
		if h := digit(p["hp"], i); h > 0 {
			m.HP = fmt.Sprintf("hp%d", h)
			if sc.Tables[m.HP] == nil {
				undefined("no table")
			}
		}
		if m.HF == 2 {
			m.Exec(hfLet)
		}
		for _, s := range sc.Prog[:last] {
			if s.Sc == i {
				m.Exec(s)
			}
		}
		exps[i] = m.Exec(sc.Prog[last])
	}
	for _, o := range sc.Ops {
		if int(o.A) >= n {
			undefined("no such scope")
		}
	}
	asts := parseProg(sc.Text() + "\n" + hfLet.Str())
	if len(asts) != len(sc.Prog)+1 {
		undefined("program parses differently")
	}
	hfAst := asts[len(asts)-1]
	qAst := asts[last]
	lam, err := vfilter.ParseLambda(quoteNames("x, y => fx(v=x * 10, tag='lam') + y + lamv", uint64(p["bq"])))
	if err != nil {
		panic("harness: " + err.Error())
	}
	k := int(max(p["k"], 1))
	type result struct {
		outs []*Out
		cut  bool
	}
	results := make([]*result, len(sc.Ops))
	left := 0
	one := func(i int) {
		o := sc.Ops[i]
		res := results[i]
		ctx, cancel := newCtx()
		defer cancel()
		scope := vfilter.NewScope()
		scope.AppendVars(ordereddict.NewDict().Set("lamv", 1000*o.A))
		scope.AppendPlugins(&srcPlugin{r.W})
		scope.AppendFunctions(r.W.functions()...)
		if h := digit(p["hp"], int(o.A)); h > 0 {
			scope.AppendPlugins(&hpPlugin{r.W, fmt.Sprintf("hp%d", h)})
		}
		if !r.Race {
			scope.SetLogger(log.New(logWriter{}, "", 0))
		}
		drain := func(a *vfilter.VQL, main bool) *Out {
			out := &Out{}
			for row := range r.evalCh(a.Eval(ctx, scope)) {
				out.Rows = append(out.Rows, ORow{rowStr(ctx, scope, row), simrt.Step(), simrt.Now()})
				if main && o.K == "abandon" && int64(len(out.Rows)) >= o.B {
					r.W.fault("reader walks away")
					out.Gone = true
					return out
				}
				if main {
					r.W.Delay("reader")
				}
			}
			out.Closed = true
			return out
		}
		switch digit(p["hf"], int(o.A)) {
		case 1:
			scope.AppendFunctions(r.W.hf(1000))
		case 3: // another host function; not generated, known finding c25_host
			scope.AppendFunctions(r.W.hf(2000))
		case 2:
			drain(hfAst, false)
		}
		for j, a := range asts[:last] {
			if sc.Prog[j].Sc == int(o.A) {
				drain(a, false)
			}
		}
		switch o.K {
		case "cancel", "close":
			go func() {
				if simrt.WaitStep(simrt.Step() + uint64(o.B)) {
					if o.K == "close" {
						r.W.fault("scope closed while in use")
						scope.Close()
					}
					r.W.fault("cancel:step")
					cancel()
				}
			}()
		}
		for j := 0; j < k; j++ {
			out := drain(qAst, true)
			res.outs = append(res.outs, out)
			if out.Gone {
				break
			}
			if o.K == "full" {
				x, y := int64(i), int64(j)
				if v := lam.Reduce(ctx, scope, []types.Any{x, y}); v != x*10+y+1000*o.A {
					r.Failf("lambda: evaluation %d of scope %d with x=%d, y=%d gave %v", i, o.A, x, y, v)
				}
			}
		}
		if o.K != "full" {
			cancel()
		}
		scope.Close()
	}
	body := func() {
		r.ctx, r.cancel = newCtx()
		for i := range results {
			results[i] = &result{}
		}
		if p["conc"] != 0 {
			done := make(chan int, len(sc.Ops))
			for i := range sc.Ops {
				go func() {
					one(i)
					done <- i
				}()
			}
			for range sc.Ops {
				<-done
			}
		} else {
			for i := range sc.Ops {
				one(i)
			}
		}
		left = r.settle()
	}
	return &Case{Body: body, Check: func() {
		for i, o := range sc.Ops {
			if o.K != "full" {
				continue
			}
			for j, out := range results[i].outs {
				if !out.Closed {
					r.Failf("no end: the output channel did not close")
				}
				if why := Compare(exps[o.A], out.strs()); why != "" {
					r.Failf("rows: evaluation %d (%d) with the definitions of scope %d: %s", i, j, o.A, why)
				}
			}
		}
		if left != 0 {
			r.Failf("left: %d goroutines are left after every evaluation ended: %s", left, firstLines(r.Text, 40))
		}
	}}
}

var hfLet = &Stmt{Let: "hf", Called: true, Params: []string{"v"}, E: &Expr{K: "op", S: "+", A: []*Expr{evar("v"), eint(500)}}}

func init() {
	kind(&Kind{Name: "many", Gen: genMany, Make: makeMany, Steps: 1 << 19})
}
