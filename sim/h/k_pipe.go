package h

import (
	"fmt"
	"time"

	"velsim/simrt"
)

// Linear pipelines over one source t0, built from every construct that is
// supposed to stream. Used for streaming and back-pressure (C13), LIMIT over
// endless sources (C07) and per-row clean-up (C09).

type pipe struct {
	r      *Rand
	lets   []*Stmt
	n      int
	open   bool
	filter bool
	par    bool
}

func (b *pipe) name(p string) string { b.n++; return fmt.Sprintf("%s%d", p, b.n) }

func col(e *Expr, as string) *Col { return &Col{E: e, As: as} }

func (b *pipe) cols() []*Col {
	var c []*Col
	if b.r.P(30) {
		c = append(c, &Col{Star: true})
	} else {
		c = append(c, col(evar("A"), ""), col(evar("B"), ""))
	}
	if b.r.P(40) {
		e := evar("A")
		switch b.r.N(3) {
		case 0:
			e = ecall("fx", "v", evar("B"), "tag", estr(b.name("f")))
		case 1:
			e = &Expr{K: "op", S: "+", A: []*Expr{evar("A"), eint(int64(b.r.N(5)))}}
		}
		c = append(c, col(e, b.name("C")))
	}
	if b.open && b.r.P(50) {
		if b.r.P(50) {
			c = append(c, col(ecall("open", "tag", estr(b.name("o"))), b.name("H")))
		} else {
			e, _ := b.res()
			switch b.r.N(4) {
			case 0:
				e = ecall("dict", "a", e)
			case 1:
				e = &Expr{K: "sub", Q: &Query{Cols: []*Col{col(e, "U")}, From: &Source{K: "scope"}}}
			}
			c = append(c, col(e, b.name("H")))
		}
	}
	return c
}

// res: an expression that opens a resource and uses it, and its value.
func (b *pipe) res() (*Expr, string) {
	tag := b.name("o")
	e := ecall("use", "h", ecall("open", "tag", estr(tag)), "tag", estr(b.name("u")))
	switch b.r.N(5) {
	case 0:
		e = ecall("if", "condition", &Expr{K: "bool", I: 1}, "then", e, "else", estr("x"))
	case 1:
		n := b.name("rf")
		b.lets = append(b.lets, &Stmt{Let: n, Params: []string{"Ip"}, E: e})
		e = &Expr{K: "call", S: n, N: []string{"Ip"}, A: []*Expr{evar("A")}}
	}
	return e, "h:" + tag
}

func (b *pipe) query(depth int) *Query {
	q := &Query{Cols: b.cols(), From: b.from(depth)}
	if b.filter && b.r.P(35) {
		switch b.r.N(3) {
		case 0:
			q.Where = &Expr{K: "cmp", S: ">", A: []*Expr{evar("A"), eint(int64(b.r.N(4)))}}
		case 1:
			q.Where = &Expr{K: "cmp", S: "!=", A: []*Expr{evar("B"), eint(int64(1 + b.r.N(3)))}}
		default:
			q.Where = &Expr{K: "cmp", S: "!=", A: []*Expr{ecall("fx", "v", evar("A"), "tag", estr(b.name("w"))), eint(int64(b.r.N(4)))}}
		}
	}
	if b.open && b.r.P(20) {
		// the condition opens one for every row and rejects most of them
		b.where(q)
	}
	return q
}

func (b *pipe) where(q *Query) {
	e, v := b.res()
	q.Where = &Expr{K: "and", A: []*Expr{
		{K: "cmp", S: "=", A: []*Expr{e, estr(v)}},
		{K: "cmp", S: "=", A: []*Expr{evar("B"), eint(int64(1 + b.r.N(4)))}}}}
}

func srcOf(t, tag string) *Source {
	return &Source{K: "src", S: "src", N: []string{"t", "tag"}, A: []*Expr{estr(t), estr(tag)}}
}

func (b *pipe) from(depth int) *Source {
	if depth <= 0 {
		return srcOf("t0", "s0")
	}
	switch b.r.N(9) {
	case 0:
		n := b.name("sq")
		b.lets = append(b.lets, &Stmt{Let: n, Q: b.query(depth - 1)})
		return &Source{K: "name", S: n}
	case 1:
		n := b.name("pq")
		b.lets = append(b.lets, &Stmt{Let: n, Called: true, Params: []string{"Ip"}, Q: b.query(depth - 1)})
		return &Source{K: "lcall", S: n, N: []string{"Ip"}, A: []*Expr{eint(int64(b.r.N(5)))}}
	case 2, 3:
		s := &Source{K: "foreach", Row: b.query(depth - 1)}
		if b.par && b.r.P(50) {
			s.Workers = int64(2 + b.r.N(4))
		}
		body := &Query{Cols: b.cols(), From: &Source{K: "scope"}}
		switch b.r.N(3) {
		case 0:
			s.Body = body
		case 1:
			body.From = srcOf("t1", b.name("b"))
			if b.open && b.r.P(30) {
				e, v := b.res()
				body.From.N = append(body.From.N, "base")
				body.From.A = append(body.From.A, ecall("if", "condition", &Expr{K: "cmp", S: "=", A: []*Expr{e, estr(v)}}, "then", eint(0), "else", eint(1)))
			}
			body.Cols = append([]*Col{col(evar("A"), ""), col(evar("B"), "")}, col(evar("X"), b.name("X")))
			s.Body = body
		default: // rows pass through
			if s.Workers != 0 {
				s.Body = body
			}
		}
		if s.Body != nil && s.Body.Cols[0].Star {
			s.Body.Cols = []*Col{col(evar("A"), ""), col(evar("B"), "")}
		}
		return s
	case 4:
		// the stream is the body of an outer loop of one row
		q := b.query(depth - 1)
		return &Source{K: "foreach", Row: &Query{Cols: []*Col{col(evar("Y"), "")}, From: srcOf("t2", b.name("b"))}, Body: q}
	case 5:
		return &Source{K: "chain", Qs: []*Query{
			{Cols: []*Col{col(evar("X"), "A"), col(evar("X"), "B")}, From: srcOf("t1", b.name("b"))},
			b.query(depth - 1)}}
	case 6:
		return &Source{K: "if", A: []*Expr{{K: "bool", I: 1}}, Body: b.query(depth - 1)}
	case 7:
		return &Source{K: "flatten", Body: b.query(depth - 1)}
	default:
		// a stored query passed as an argument
		n := b.name("sq")
		b.lets = append(b.lets, &Stmt{Let: n, Q: b.query(depth - 1)})
		return &Source{K: "foreach", RowE: evar(n), Body: &Query{Cols: []*Col{col(evar("A"), ""), col(evar("B"), "")}, From: &Source{K: "scope"}}}
	}
}

func pipeTables(r *Rand, n int) map[string]*Table {
	t0 := &Table{Cols: []string{"A", "B"}}
	for i := 0; i < n; i++ {
		t0.Rows = append(t0.Rows, []any{int64(i), int64(1 + r.N(4))})
	}
	t1 := &Table{Cols: []string{"X"}}
	for i := 0; i < 1+r.N(3); i++ {
		t1.Rows = append(t1.Rows, []any{int64(100 + i)})
	}
	t2 := &Table{Cols: []string{"Y"}, Rows: [][]any{{int64(7)}}}
	return map[string]*Table{"t0": t0, "t1": t1, "t2": t2}
}

// genPipe: mode 1 streaming, 2 back-pressure, 3 limit, 4 clean-up by row.
func genPipe(r *Rand, prop string, deep bool) *Scenario {
	b := &pipe{r: r, filter: true}
	mode := int64(1 + r.N(2))
	switch prop {
	case "C07":
		mode = 3
		b.par = r.P(30)
	case "C09":
		mode = 4
		b.open = true
		b.filter = r.P(50)
		b.par = r.P(40)
	}
	if mode == 2 {
		b.par = r.P(30)
	}
	depth := r.N(4)
	if deep {
		depth += r.N(4)
	}
	q := b.query(depth)
	sc := &Scenario{P: map[string]int64{"mode": mode}}
	n := 2 + r.N(6)
	if mode == 4 {
		n = 8
	}
	sc.Tables = pipeTables(r, n)
	t0 := sc.Tables["t0"]
	switch mode {
	case 1:
		t0.Gap = 3600000
		if r.P(30) {
			l := int64(1 + r.N(12))
			q.Limit = &l
		}
		if r.P(20) {
			t0.Lazy = true
		}
	case 2:
		t0.Endless = true
		sc.P["stop"] = int64(r.N(5))
	case 3:
		l := int64(r.N(6))
		q.Limit = &l
		if r.P(30) {
			t0.Block = true
		} else {
			t0.Endless = true
		}
		// the limited query is itself somewhere inside
		if r.P(40) {
			n := b.name("lq")
			b.lets = append(b.lets, &Stmt{Let: n, Q: q})
			q = &Query{Cols: []*Col{{Star: true}}, From: &Source{K: "name", S: n}}
			switch r.N(3) {
			case 0:
				q.From = &Source{K: "chain", Qs: []*Query{{Cols: []*Col{{Star: true}}, From: q.From}, {Cols: []*Col{col(evar("X"), "A")}, From: srcOf("t1", "end")}}}
			case 1:
				q.Order = "A"
			}
		}
	case 4:
		sc.P["many"] = int64(80 + r.N(120))
		switch r.N(4) {
		case 0:
			q.Group = []*Expr{evar("B")}
			if r.P(40) {
				b.where(q)
			}
			if r.P(20) {
				e, _ := b.res()
				q.Group = append(q.Group, e)
			}
		case 1:
			q.Order = "A"
			q.Desc = r.P(50)
		}
		if r.P(50) {
			sc.Tables["t1"].Res = true
		}
	}
	sc.Prog = append(b.lets, &Stmt{Q: q})
	if mode == 1 || mode == 3 {
		sc.P["notime"], sc.P["nodelay"] = 1, 1
	}
	if mode == 4 {
		// (a clean-up may be given up on after a minute of the clock)
		sc.P["notime"] = 1
	}
	return sc
}

// shape: the stages of a program through which rows pass, and its workers.
func shape(prog []*Stmt) (stages, workers int) {
	for _, s := range prog {
		s.walk(func(*Expr) {}, func(q *Query) {
			stages += 2
			if q.From.K == "foreach" {
				stages += 2
				workers += int(q.From.Workers)
			}
		})
	}
	return
}

func long(t *Table, n int) *Table {
	c := *t
	c.Endless, c.Block, c.Gap = false, false, 0
	c.Rows = nil
	for i := 0; i < n; i++ {
		if i < len(t.Rows) {
			c.Rows = append(c.Rows, t.Rows[i])
			continue
		}
		if !t.Endless && !t.Res {
			break
		}
		last := append([]any{}, t.Rows[len(t.Rows)-1]...)
		for j, col := range t.Cols {
			if col == "A" {
				last[j] = t.val(len(t.Rows)-1, j).(int64) + int64(i-len(t.Rows)+1)
			}
		}
		c.Rows = append(c.Rows, last)
	}
	return &c
}

// prefixModel evaluates the program with the first n rows of t0 only.
func prefixModel(sc *Scenario, n int) *Res {
	tb := map[string]*Table{}
	for k, t := range sc.Tables {
		tb[k] = t
	}
	tb["t0"] = long(sc.Tables["t0"], n)
	m := NewModel(tb)
	var e *Res
	for _, s := range sc.Prog {
		e = m.Exec(s)
	}
	e.all()
	return e
}

func makePipe(r *Run) *Case {
	sc := r.Sc
	mode := sc.P["mode"]
	t0 := sc.Tables["t0"]
	if mode < 1 || mode > 4 || t0 == nil || sc.Prog[len(sc.Prog)-1].Q == nil || (mode == 2) != t0.Endless && mode != 3 {
		undefined("not a pipeline scenario")
	}
	if len(t0.Rows) == 0 {
		undefined("no rows")
	}
	asts := parseProg(sc.Text())
	if (mode == 1 || mode == 3) && (sc.P["notime"] == 0 || sc.P["nodelay"] == 0) {
		undefined("exact times need an exact clock")
	}
	if mode == 4 && sc.P["notime"] == 0 {
		undefined("clean-ups need an even clock")
	}
	stages, workers := shape(sc.Prog)
	bound := 2*stages + 2*workers + 4
	// need: the number of source rows from which k output rows follow
	need := func(k int) int {
		for n := 0; n <= 60; n++ {
			if len(prefixModel(sc, n).Rows) >= k {
				return n
			}
		}
		undefined("the pipeline yields too little")
		return 0
	}
	o := &Out{}
	left := 0
	sentAt, openMax := 0, 0
	limit := 0
	var exp *Res
	switch mode {
	case 1:
		exp = prefixModel(sc, len(t0.Rows))
	case 2:
		limit = need(int(sc.P["stop"])+bound) + bound
	case 3:
		exp = prefixModel(sc, 60)
		l := 0
		for _, s := range sc.Prog {
			s.walk(func(*Expr) {}, func(q *Query) {
				if q.Limit != nil {
					l = int(*q.Limit)
				}
			})
		}
		if t0.Endless {
			if len(prefixModelNoLimit(sc, 60).Rows) < l+bound {
				undefined("the pipeline yields too little")
			}
			limit = 0
			for n := 0; n <= 60; n++ {
				if len(prefixModelNoLimit(sc, n).Rows) >= l+bound {
					limit = n + bound
					break
				}
			}
		} else if len(prefixModelNoLimit(sc, len(t0.Rows)).Rows) < l {
			undefined("the source blocks first")
		}
	case 4:
		c := *t0
		n := int(sc.P["many"])
		c.Endless = true
		t := long(&c, n)
		t.Endless = false
		r.W.Tables = map[string]*Table{"t1": sc.Tables["t1"], "t2": sc.Tables["t2"], "t0": t}
		s2 := *sc
		s2.Tables = r.W.Tables
		exp = prefixModel(&s2, n)
	}
	body := func() {
		r.ctx, r.cancel = newCtx()
		scope := r.W.NewScope()
		n := len(asts) - 1
		for _, a := range asts[:n] {
			r.eval(scope, a, false)
		}
		ch := asts[n].Eval(r.ctx, scope)
		if mode == 2 {
			for i := 0; i < int(sc.P["stop"]); i++ {
				row, ok := <-ch
				if !ok {
					o.Closed = true
					break
				}
				o.Rows = append(o.Rows, ORow{rowStr(r.ctx, scope, row), simrt.Step(), simrt.Now()})
			}
			r.W.fault("reader stops")
			time.Sleep(30 * time.Minute)
			sentAt = r.W.sent()
			r.doCancel("reader gone")
		} else {
			for row := range ch {
				o.Rows = append(o.Rows, ORow{rowStr(r.ctx, scope, row), simrt.Step(), simrt.Now()})
				if mode == 4 {
					r.W.Delay("reader")
				}
			}
			o.Closed = true
			o.End = simrt.Now()
		}
		left = r.settle()
		sentAt2 := r.W.sent()
		if mode != 2 {
			sentAt = sentAt2
		}
		openMax = r.W.OpenMax
		if mode == 4 && r.W.opened() != 0 {
			r.Failf("open: %d resources of the query are still open after it ended", r.W.opened())
		}
		scope.Close()
		r.cancel()
		r.settle()
	}
	return &Case{Body: body, Check: func() {
		if left != 0 {
			r.Failf("left: %d goroutines of the query are left after it ended: %s", left, firstLines(r.Text, 30))
		}
		if mode != 2 {
			ok := true
			if workers != 0 && (mode == 3 || mode == 4 && len(sc.Prog[len(sc.Prog)-1].Q.Group) > 0) {
				ok = false
			}
			if ok {
				if why := Compare(exp, o.strs()); why != "" {
					r.Failf("rows: %s", why)
				}
			}
		}
		switch mode {
		case 1:
			gap := int64(t0.Gap) * 1e6
			for n := 0; n <= len(t0.Rows); n++ {
				want := len(prefixModel(sc, n).Rows)
				got := 0
				for _, x := range o.Rows {
					if x.Now-simrt.BaseTime < int64(n+1)*gap {
						got++
					}
				}
				if n == len(t0.Rows) {
					continue
				}
				if got != want {
					r.Failf("held: %d rows were delivered before source row %d was produced, %d follow from the rows before it", got, n+1, want)
				}
			}
		case 2:
			if sentAt > limit {
				r.Failf("ahead: the source delivered %d rows although the reader stopped after %d (at most %d expected)", sentAt, sc.P["stop"], limit)
			}
			probe(fmt.Sprintf("look-ahead within %d%%", (sentAt*100/limit+24)/25*25))
		case 3:
			if t0.Endless && sentAt > limit {
				r.Failf("ahead: the source delivered %d rows for a limited query (at most %d expected)", sentAt, limit)
			}
			if len(o.Rows) > 0 && o.End != o.Rows[len(o.Rows)-1].Now {
				r.Failf("late: the query ended %.1fs after its last row", float64(o.End-o.Rows[len(o.Rows)-1].Now)/1e9)
			}
		case 4:
			opens := 0
			for _, s := range sc.Prog {
				s.walk(func(e *Expr) {
					if e.K == "call" && e.S == "open" {
						opens++
					}
				}, func(*Query) {})
			}
			bound = (stages + workers + 4) * (1 + opens) / 2
			if openMax > bound {
				r.Failf("hoard: %d resources were open at once (at most %d expected)", openMax, bound)
			}
			probe(fmt.Sprintf("open within %d%%", (openMax*100/bound+24)/25*25))
		}
	}}
}

// prefixModelNoLimit evaluates the limited query, without its limit.
func prefixModelNoLimit(sc *Scenario, n int) *Res {
	c := sc.Clone()
	for i, s := range c.Prog {
		if s.Q != nil && s.Q.Limit != nil {
			c.Prog = append(c.Prog[:i:i], &Stmt{Q: s.Q})
			break
		}
	}
	for _, s := range c.Prog {
		s.walk(func(*Expr) {}, func(q *Query) { q.Limit = nil; q.Order = "" })
	}
	return prefixModel(c, n)
}

func init() {
	kind(&Kind{Name: "pipe", Gen: genPipe, Make: makePipe})
	prop("C13", 4, 6000, "", PK{"pipe", 1})
}
