package h

import (
	"fmt"
	"strings"

	"velsim/simrt"
	"www.velocidex.com/golang/vfilter"
)

// ---------------------------------------------------------------- rec: runaway recursion (C26)

// Definitions that refer to each other in a circle, each once, and queries
// that use them. P: cancellations as usual.

type recGen struct {
	r    *Rand
	defs []*Stmt
	n    int
}

func (g *recGen) id(p string) string { g.n++; return fmt.Sprintf("%s%d", p, g.n) }

func recSrc(t, tag string) *Source {
	return &Source{K: "src", S: "src", N: []string{"t", "tag"}, A: []*Expr{estr(t), estr(tag)}}
}

// fref: an expression that evaluates definition s.
func (g *recGen) fref(s *Stmt) *Expr {
	if s.Q != nil {
		if s.Called {
			e := ecall(s.Let, s.Params[0], eint(int64(g.r.N(3))))
			if g.r.P(50) {
				return &Expr{K: "member", A: []*Expr{e}, S: "A"}
			}
			return e
		}
		return &Expr{K: "sub", Q: &Query{Cols: []*Col{{Star: true}}, From: g.qref(s)}}
	}
	if s.Called {
		v := eint(int64(g.r.N(3)))
		if g.r.P(8) {
			v = evar("A")
		}
		return ecall(s.Let, s.Params[0], v)
	}
	return evar(s.Let)
}

// qref: a source that evaluates definition s.
func (g *recGen) qref(s *Stmt) *Source {
	one := &Query{Cols: []*Col{{Star: true}}, From: recSrc("one", g.id("s"))}
	if s.Q == nil {
		e := g.fref(s)
		switch g.r.N(3) {
		case 0:
			return &Source{K: "foreach", Row: &Query{Cols: []*Col{{E: e, As: "A"}}, From: recSrc("one", g.id("s"))},
				Body: &Query{Cols: []*Col{{E: evar("A")}}, From: &Source{K: "scope"}}}
		case 1:
			return &Source{K: "foreach", RowE: e, Body: one}
		}
		return &Source{K: "if", A: []*Expr{e}, Body: one, Else: one}
	}
	base := &Source{K: "name", S: s.Let}
	if s.Called {
		v := eint(int64(g.r.N(3)))
		base = &Source{K: "lcall", S: s.Let, N: s.Params[:1], A: []*Expr{v}}
	}
	q := &Query{Cols: []*Col{{Star: true}}, From: base}
	switch g.r.N(9) {
	case 0:
		return &Source{K: "foreach", Row: one, Body: q}
	case 1:
		return &Source{K: "foreach", Row: q, Body: one}
	case 2:
		return &Source{K: "foreach", Row: one, Body: q, Workers: int64(2 + g.r.N(3))}
	case 3:
		return &Source{K: "chain", Qs: []*Query{q}}
	case 4:
		return &Source{K: "if", A: []*Expr{{K: "bool", I: 1}}, Body: q}
	case 5:
		return &Source{K: "flatten", Body: q}
	}
	return base
}

func (g *recGen) fbody(next *Stmt) *Expr {
	e := g.fref(next)
	if e.K == "sub" {
		e = &Expr{K: "call", S: "if", N: []string{"condition", "then"}, A: []*Expr{{K: "bool", I: 1}, nil}, Qs: []*Query{nil, e.Q}}
		return e
	}
	switch g.r.N(9) {
	case 0:
		return &Expr{K: "op", S: "+", A: []*Expr{eint(1), e}}
	case 1:
		return ecall("if", "condition", &Expr{K: "bool", I: 1}, "then", e)
	case 2:
		return ecall("if", "condition", e, "then", eint(1), "else", eint(2))
	case 3:
		return ecall("dict", "a", e, "b", eint(1))
	case 4:
		return &Expr{K: "list", A: []*Expr{eint(1), e}}
	case 5:
		return &Expr{K: "and", A: []*Expr{{K: "bool", I: 1}, e}}
	case 6:
		return &Expr{K: "not", A: []*Expr{e}}
	case 7:
		return &Expr{K: "in", A: []*Expr{e, eint(1), eint(2)}}
	}
	return ecall("fx", "v", e, "tag", estr(g.id("f")))
}

func (g *recGen) qbody(next *Stmt) *Query {
	t := g.r.Pick("one", "one", "res")
	q := &Query{Cols: []*Col{{E: evar("A")}}, From: recSrc(t, g.id("s"))}
	x := g.r.N(8)
	if next.Q == nil && x > 4 {
		x = g.r.N(5)
	}
	switch x {
	case 0:
		q.Cols = append(q.Cols, &Col{E: g.fref(next), As: "R"})
	case 1:
		e := g.fref(next)
		if e.K == "sub" {
			q.From = g.qref(next)
		} else {
			q.Where = e
		}
	case 2:
		e := g.fref(next)
		if e.K == "sub" || e.K == "call" && next.Q != nil {
			q.From = g.qref(next)
		} else {
			q.Group = []*Expr{e}
		}
	case 3:
		e := g.fref(next)
		if e.K == "sub" {
			q.From = g.qref(next)
		} else {
			q.From.N = append(q.From.N, "base")
			q.From.A = append(q.From.A, e)
		}
	default:
		q.From = g.qref(next)
		q.Cols = []*Col{{Star: true}}
	}
	if g.r.P(10) {
		q.Order = "A"
	}
	if g.r.P(10) {
		n := int64(1 + g.r.N(3))
		q.Limit = &n
	}
	return q
}

func genRec(r *Rand, prop string, deep bool) *Scenario {
	g := &recGen{r: r}
	n := 1 + r.N(3)
	for i := 0; i < n; i++ {
		s := &Stmt{}
		if r.P(50) {
			s.Let = fmt.Sprintf("F%d", i)
			s.E = eint(0)
		} else {
			s.Let = fmt.Sprintf("Q%d", i)
			s.Q = &Query{}
		}
		if r.P(50) {
			s.Called = true
			s.Params = []string{fmt.Sprintf("Ip%d", i)}
			s.Defaults = []*Expr{nil}
		}
		g.defs = append(g.defs, s)
	}
	for i, s := range g.defs {
		next := g.defs[(i+1)%n]
		if s.Q != nil {
			s.Q = g.qbody(next)
		} else {
			s.E = g.fbody(next)
		}
	}
	sc := &Scenario{Prog: g.defs, P: map[string]int64{}, Tables: map[string]*Table{
		"one": {Cols: []string{"A"}, Rows: [][]any{{int64(1)}}},
		"res": {Cols: []string{"A"}, Rows: [][]any{{int64(1)}}, Res: true},
		"t0":  {Cols: []string{"A", "B"}, Rows: [][]any{{int64(3), int64(4)}, {int64(5), int64(6)}}},
		"t1":  {Cols: []string{"A"}, Rows: [][]any{{int64(7)}}},
	}}
	s := g.defs[r.N(n)]
	q := &Query{}
	switch r.N(4) {
	case 0:
		q.Cols = []*Col{{E: evar("A")}, {E: g.fref(s), As: "R"}, {E: &Expr{K: "op", S: "+", A: []*Expr{evar("B"), eint(1)}}, As: "K"}}
		q.From = recSrc("t0", "t0")
	case 1:
		q.Cols = []*Col{{Star: true}}
		q.From = &Source{K: "chain", Qs: []*Query{
			{Cols: []*Col{{E: evar("A")}}, From: recSrc("t0", "t0")},
			{Cols: []*Col{{Star: true}}, From: g.qref(s)},
			{Cols: []*Col{{E: evar("A")}}, From: recSrc("t1", "t1")}}}
	case 2:
		q.Cols = []*Col{{E: evar("A")}, {E: evar("B"), As: "K"}}
		q.From = recSrc("t0", "t0")
		q.Where = g.fref(s)
		if q.Where.K == "sub" {
			q.Where = ecall("if", "condition", &Expr{K: "bool", I: 1}, "then", eint(1))
			q.From = g.qref(s)
		}
	default:
		q.Cols = []*Col{{Star: true}}
		q.From = g.qref(s)
	}
	if r.P(20) {
		sc.Prog = append(sc.Prog, &Stmt{Let: "Mz", Mat: true, Q: q})
		q = &Query{Cols: []*Col{{Star: true}}, From: &Source{K: "name", S: "Mz"}}
	}
	sc.Prog = append(sc.Prog, &Stmt{Q: q})
	asValue := hasExpr(sc.Prog, func(e *Expr) bool { return e.K == "call" && e.S[0] == 'Q' })
	// (a stored query used as a value is evaluated on its own context)
	if r.P(25) && !asValue {
		switch r.N(3) {
		case 0:
			sc.P["cancel_step"] = int64(1 + r.N(3000))
		case 1:
			sc.P["cancel_ev"] = int64(1 + r.N(200))
		case 2:
			sc.P["cancel_ms"] = int64(1 + r.N(5000))
		}
	}
	return sc
}

func makeRec(r *Run) *Case {
	sc := r.Sc
	for _, t := range sc.Tables {
		if t.Endless || t.Block {
			undefined("nothing ends the query")
		}
	}
	m := NewModel(sc.Tables)
	m.budget = 20000
	runaway := false
	var last *Res
	for _, s := range sc.Prog {
		ok, why := Safe(func() { last = m.Exec(s) })
		if !ok && why == "depth" {
			runaway = true
			break
		}
		if !ok {
			undefined("%s", why)
		}
	}
	if !runaway {
		undefined("no recursion")
	}
	_ = last
	asts := parseProg(sc.Text())
	if len(asts) != len(sc.Prog) {
		undefined("program parses differently")
	}
	check, err := vfilter.Parse("SELECT A, A + 1 AS B FROM src(t='t1', tag='after')")
	if err != nil {
		panic(err)
	}
	var outs []*Out
	var after *Out
	var left, open, leftB int
	cancelled := false
	return &Case{Body: func() {
		r.ctx, r.cancel = newCtx()
		scope := r.W.NewScope()
		r.setup()
		for _, a := range asts {
			outs = append(outs, r.eval(scope, a, true))
		}
		cancelled = r.isCanceled()
		r.setEvents()
		left = r.settle()
		open = r.W.opened()
		ctx, cancel := newCtx()
		r.ctx = ctx
		after = r.eval(scope, check, false)
		cancel()
		scope.Close()
		r.cancel()
		leftB = r.settle()
	}, Check: func() {
		for _, o := range outs {
			if !o.Closed {
				r.Failf("no end: the output channel did not close")
			}
		}
		if left != 0 || leftB != 0 {
			r.Failf("left: %d goroutines of the query are left after it ended, %d after the scope was closed", left, leftB)
		}
		if open != 0 {
			r.Failf("open: %d resources of the query are still open after it ended", open)
		}
		if got := fmt.Sprint(after.strs()); got != "[{A:7,B:8}]" {
			r.Failf("after: a query on the same scope gives %s", got)
		}
		// (1 + q makes a list of a query's rows, which grows by one with every
		// level: what evaluates it once a row takes the square of the depth)
		most := 12000
		if hasExpr(sc.Prog, func(e *Expr) bool { return e.K == "op" && e.S == "+" && e.A[0].K == "int" }) {
			most = 400000
		}
		if n := len(r.Evs); n > most {
			r.Failf("work: %d evaluations of sources and functions", n)
		}
		if cancelled {
			return
		}
		said := false
		for _, l := range r.Logs {
			said = said || strings.Contains(l, "Overflow")
		}
		if !said && !r.Race {
			r.Failf("log: runaway recursion is not reported")
		}
		// what does not depend on the recursion is as it should be
		s := sc.Prog[len(sc.Prog)-1]
		rows := outs[len(outs)-1].Rows
		q := s.Q
		if q.From.K == "name" && len(sc.Prog) > 1 && sc.Prog[len(sc.Prog)-2].Mat {
			q = sc.Prog[len(sc.Prog)-2].Q
		}
		switch {
		case q.From.K == "src" && q.Where == nil && len(q.Group) == 0 && q.Limit == nil && q.Order == "" && len(q.Cols) == 3:
			want := []string{"{A:3,", "{A:5,"}
			k := []string{",K:5}", ",K:7}"}
			if len(rows) != 2 {
				r.Failf("around: %d rows instead of 2", len(rows))
				return
			}
			for i, x := range rows {
				if !strings.HasPrefix(x.S, want[i]) || !strings.HasSuffix(x.S, k[i]) {
					r.Failf("around: row %d is %s", i, x.S)
				}
			}
		case q.From.K == "chain" && len(q.From.Qs) == 3 && q.Where == nil && q.Limit == nil && q.Order == "" && len(q.Group) == 0 && len(q.Cols) == 1 && q.Cols[0].Star:
			n := len(rows)
			if n < 3 || rows[0].S != "{A:3}" || rows[1].S != "{A:5}" || rows[n-1].S != "{A:7}" {
				r.Failf("around: the rows before and after the recursion are not there: %d rows %v", n, outs[len(outs)-1].strs()[:min(n, 5)])
			}
		}
	}}
}

// setEvents forgets the cancellation trigger.
func (r *Run) setEvents() { r.W.OnEvent = nil; simrt.Unpark() }

func init() {
	kind(&Kind{Name: "rec", Gen: genRec, Make: makeRec, Steps: 1 << 25, Rare: true})
	prop("C26", 3, 800, "", PK{"rec", 1})
}
