package h

import (
	"context"
	"fmt"
	"sort"
	"strings"

	"www.velocidex.com/golang/vfilter/aggregators"
	"www.velocidex.com/golang/vfilter/types"
	"www.velocidex.com/golang/vfilter/utils/dict"
)

// ---------------------------------------------------------------- repl: replaced sorting, grouping and materialisation (C28)

// P: sort, group, mat: what the replacement does (0: not replaced).
//
//	sort  1 sorts  2 passes rows on as they come  3 reverses  4 stops after n rows  5 emits every row twice  6 emits the first n of all
//	group 1 groups in memory  2 one group per row  3 stops after n rows  4 keeps the rows and transforms them again
//	mat   1 keeps all rows  2 keeps the first n
//
// n; on: the scope of the programme (0 the scope itself, 1 a copy, 2 a copy
// made before the installation, 3 a copy of a copy, 4 a new scope made from
// it); twice: others were installed first.

// rcall is one use of a replacement.
type rcall struct {
	K     string
	Rows  []string
	Ended bool
	Loose bool // rows in any order
}

func (c *rcall) str(loose bool) string {
	r := c.Rows
	if loose {
		r = append([]string{}, r...)
		sort.Strings(r)
	}
	return fmt.Sprintf("%s [%s] ended %v", c.K, strings.Join(r, " "), c.Ended)
}

type mrepl struct {
	p     map[string]int64
	calls []*rcall
}

func (x *mrepl) call(m *Model, k string, r *Res) {
	if m.quiet != 0 {
		return
	}
	c := &rcall{K: k, Ended: true, Loose: !r.strict()}
	for _, d := range r.Rows {
		c.Rows = append(c.Rows, Canon(d))
	}
	x.calls = append(x.calls, c)
}

func (x *mrepl) sort(m *Model, r *Res, key string, desc bool) *Res {
	if x == nil || x.p["sort"] == 0 {
		return m.sort(r, key, desc)
	}
	x.call(m, fmt.Sprintf("sort %s %v", key, desc), r)
	out := &Res{Take: -1}
	n := int(x.p["n"])
	switch x.p["sort"] {
	case 1:
		return m.sort(r, key, desc)
	case 2:
		return r
	case 3:
		for i := len(r.Rows) - 1; i >= 0; i-- {
			out.add(r.Rows[i], r.Cls[i])
		}
		return out
	case 4, 6:
		m.Ever.Limit = true
		return r.cut(n)
	case 5:
		for i, d := range r.Rows {
			out.add(d, r.Cls[i])
			out.add(d, r.Cls[i])
		}
		if !r.strict() {
			undefined("doubled rows in any order")
		}
		for i := range out.Cls {
			out.Cls[i] = i
		}
		return out
	}
	return r
}

func (x *mrepl) mat(m *Model, name string, rows []any) []any {
	if x == nil || x.p["mat"] == 0 {
		return rows
	}
	r := &Res{Take: -1}
	for i, v := range rows {
		r.add(v.(*D), i)
	}
	x.call(m, "mat "+name, r)
	if n := int(x.p["n"]); x.p["mat"] == 2 {
		m.Ever.Limit = true
		if len(rows) > n {
			rows = rows[:n]
		}
	}
	return rows
}

func (x *mrepl) group(m *Model, sc *mscope, q *Query) *Res {
	if x == nil || x.p["group"] == 0 {
		return m.group(sc, q)
	}
	m.Ever.Group = true
	src := m.source(sc, q.From)
	if !src.strict() {
		undefined("replaced grouping of rows in any order")
	}
	if m.quiet == 0 {
		m.Stats.Rows += uint64(len(src.Rows))
	}
	mode, n := x.p["group"], int(x.p["n"])
	if mode == 3 {
		m.Ever.Limit = true
	}
	gs := sc.copy()
	type bin struct {
		ag   *mag
		row  *D
		rows []*D
	}
	var order []*bin
	bins := map[string]*bin{}
	seen := &Res{Take: -1}
	out := &Res{Take: -1}
	for _, row := range src.Rows {
		m.tick()
		if mode == 3 && len(seen.Rows) == n {
			break
		}
		ns := gs.copy()
		l := m.transform(ns, q, row)
		ns.add(row)
		ns.add(l)
		if q.Where != nil && !truth(m.expr(ns, q.Where)) {
			continue
		}
		var kv any
		if len(q.Group) == 1 {
			kv = m.expr(ns, q.Group[0])
		} else {
			var ks []any
			for _, g := range q.Group {
				ks = append(ks, m.expr(ns, g))
			}
			kv = ks
		}
		seen.add(row, len(seen.Rows))
		k := keyStr(kv)
		if mode == 2 {
			k = fmt.Sprint(len(seen.Rows))
		}
		b := bins[k]
		if b == nil {
			b = &bin{ag: &mag{st: map[*Expr]any{}}}
			bins[k] = b
			order = append(order, b)
		}
		if mode == 4 {
			b.rows = append(b.rows, row)
			continue
		}
		ns.ag = b.ag
		b.row = l.materialise()
	}
	for _, b := range order {
		for _, row := range b.rows {
			ns := gs.copy()
			l := m.transform(ns, q, row)
			ns.add(row)
			ns.add(l)
			ns.ag = b.ag
			b.row = l.materialise()
		}
		out.add(b.row, len(out.Rows))
	}
	x.call(m, "group", seen)
	return out
}

// cut keeps n rows.
func (r *Res) cut(n int) *Res {
	r.all()
	if n < len(r.Rows) {
		end := n
		if n > 0 {
			for end < len(r.Rows) && r.Cls[end] == r.Cls[n-1] {
				end++
			}
		}
		r.Rows, r.Cls = r.Rows[:end], r.Cls[:end]
		if end > n {
			r.Take = n
		}
	}
	return r
}

// ---------------------------------------------------------------- the host's replacements

type repl struct {
	w     *World
	p     map[string]int64
	calls []*rcall
	Old   int // uses of replacements that were replaced
}

func (x *repl) call(k string) *rcall {
	c := &rcall{K: k}
	x.calls = append(x.calls, c)
	return c
}

type oldRepl struct{ x *repl }

func (o *oldRepl) Sort(ctx context.Context, scope types.Scope, input <-chan types.Row, key string, desc bool) <-chan types.Row {
	o.x.Old++
	return input
}

func (o *oldRepl) Group(ctx context.Context, scope types.Scope, actor types.GroupbyActor) <-chan types.Row {
	o.x.Old++
	out := make(chan types.Row)
	close(out)
	return out
}

func (o *oldRepl) Materialize(ctx context.Context, scope types.Scope, name string, query types.StoredQuery) types.StoredQuery {
	o.x.Old++
	return &replRows{w: o.x.w}
}

type replSorter struct{ x *repl }

func (s *replSorter) Sort(ctx context.Context, scope types.Scope, input <-chan types.Row, key string, desc bool) <-chan types.Row {
	x := s.x
	c := x.call(fmt.Sprintf("sort %s %v", key, desc))
	out := make(chan types.Row)
	mode, n := x.p["sort"], int(x.p["n"])
	go func() {
		defer close(out)
		send := func(r types.Row) bool {
			x.w.delayCtx(ctx, "sorter")
			select {
			case <-ctx.Done():
				return false
			case out <- r:
				return true
			}
		}
		var rows []types.Row
		for {
			if mode == 4 && len(c.Rows) == n {
				x.w.fault("sorter stops early")
				break
			}
			x.w.delayCtx(ctx, "sorter")
			var row types.Row
			var ok bool
			select {
			case <-ctx.Done():
				return
			case row, ok = <-input:
			}
			if !ok {
				c.Ended = true
				break
			}
			c.Rows = append(c.Rows, rowStr(ctx, scope, row))
			if mode == 2 {
				if !send(row) {
					return
				}
				continue
			}
			rows = append(rows, row)
		}
		switch mode {
		case 1:
			sort.SliceStable(rows, func(i, j int) bool {
				if desc {
					i, j = j, i
				}
				a, _ := scope.Associative(rows[i], key)
				b, _ := scope.Associative(rows[j], key)
				if types.IsNil(a) {
					a = ""
				}
				if types.IsNil(b) {
					b = ""
				}
				// (an empty string does not compare with a float)
				if a == "" || b == "" {
					return a == "" && b != ""
				}
				return scope.Lt(a, b)
			})
		case 3:
			for i, j := 0, len(rows)-1; i < j; i, j = i+1, j-1 {
				rows[i], rows[j] = rows[j], rows[i]
			}
		case 6:
			if n < len(rows) {
				rows = rows[:n]
			}
		}
		for _, r := range rows {
			if !send(r) || mode == 5 && !send(r) {
				return
			}
		}
	}()
	return out
}

type replGrouper struct{ x *repl }

func (s *replGrouper) Group(ctx context.Context, scope types.Scope, actor types.GroupbyActor) <-chan types.Row {
	x := s.x
	c := x.call("group")
	out := make(chan types.Row)
	mode, n := x.p["group"], int(x.p["n"])
	go func() {
		defer close(out)
		gs := scope.Copy()
		defer gs.Close()
		type bin struct {
			ctx  types.AggregatorCtx
			row  types.Row
			rows []types.Row
		}
		bins := map[string]*bin{}
		var order []*bin
		for {
			if mode == 3 && len(c.Rows) == n {
				x.w.fault("grouper stops early")
				break
			}
			x.w.delayCtx(ctx, "grouper")
			row, orig, key, ns, err := actor.GetNextRow(ctx, gs)
			if err != nil {
				c.Ended = true
				break
			}
			c.Rows = append(c.Rows, rowStr(ctx, ns, orig))
			if mode == 2 {
				key = fmt.Sprint(len(c.Rows))
			}
			b := bins[key]
			if b == nil {
				b = &bin{ctx: aggregators.NewAggregatorCtx()}
				bins[key] = b
				order = append(order, b)
			}
			if mode == 4 {
				b.rows = append(b.rows, dict.RowToDict(ctx, ns, orig))
				ns.Close()
				continue
			}
			ns.SetAggregatorCtx(b.ctx)
			b.row = actor.MaterializeRow(ctx, row, ns)
			ns.Close()
		}
		for _, b := range order {
			for _, orig := range b.rows {
				ns := gs.Copy()
				ns.SetAggregatorCtx(b.ctx)
				t, closer := actor.Transform(ctx, ns, orig)
				ns.AppendVars(orig)
				ns.AppendVars(t)
				b.row = actor.MaterializeRow(ctx, t, ns)
				closer()
				ns.Close()
			}
			x.w.delayCtx(ctx, "grouper")
			select {
			case <-ctx.Done():
				return
			case out <- b.row:
			}
		}
	}()
	return out
}

type replMat struct{ x *repl }

func (s *replMat) Materialize(ctx context.Context, scope types.Scope, name string, query types.StoredQuery) types.StoredQuery {
	x := s.x
	c := x.call("mat " + name)
	mode, n := x.p["mat"], int(x.p["n"])
	res := &replRows{w: x.w, rows: []types.Row{}}
	sub, cancel := context.WithCancel(ctx)
	defer cancel()
	sc := scope.Copy()
	defer sc.Close()
	for row := range query.Eval(sub, sc) {
		x.w.delayCtx(ctx, "materialiser")
		c.Rows = append(c.Rows, rowStr(ctx, sc, row))
		if mode == 2 && len(res.rows) == n {
			x.w.fault("materialiser stops early")
			return res
		}
		res.rows = append(res.rows, row)
	}
	c.Ended = true
	return res
}

// replRows are the rows a replacement keeps.
type replRows struct {
	w    *World
	rows []types.Row
}

func (m *replRows) Eval(ctx context.Context, scope types.Scope) <-chan types.Row {
	out := make(chan types.Row)
	go func() {
		defer close(out)
		for _, r := range m.rows {
			m.w.delayCtx(ctx, "materialiser")
			select {
			case <-ctx.Done():
				return
			case out <- r:
			}
		}
	}()
	return out
}

func (m *replRows) Materialize(ctx context.Context, scope types.Scope) types.Any { return m.rows }

type replProto struct{}

func (replProto) Applicable(a types.Any, b types.Any) bool { _, ok := a.(*replRows); return ok }

func (replProto) GetMembers(scope types.Scope, a types.Any) []string {
	return scope.GetMembers(a.(*replRows).rows)
}

func (replProto) Associative(scope types.Scope, a types.Any, b types.Any) (types.Any, bool) {
	return scope.Associative(a.(*replRows).rows, b)
}

// ---------------------------------------------------------------- scenarios

func genRepl(r *Rand, prop string, deep bool) *Scenario {
	for try := 0; try < 20; try++ {
		o := GOpts{Cancel: true, Lets: r.N(4), Depth: 1 + r.N(2), Limit: r.P(20), Order: r.P(70), Group: r.P(60), Workers: r.P(15),
			Handles: r.P(20), Mat: true, Sub: r.P(40), Fx: r.N(40), Calls: true, Foreach: true, Null: r.P(30), MaxRows: 3 + r.N(5)}
		if r.N(50) == 0 {
			o.Big = 20 + r.N(200)
			o.Depth, o.Sub, o.Lets, o.MaxRows = r.N(2), false, r.N(2), 3
		}
		prog, tables := GenProgram(r, o)
		sc := &Scenario{Prog: prog, Tables: tables, P: map[string]int64{}}
		p := sc.P
		last := prog[len(prog)-1].Q
		if last.Order == "" && last.Limit == nil && r.P(60) {
			if c := lastCols(prog, tables); len(c) > 0 {
				last.Order = c[r.N(len(c))]
				last.Desc = r.P(50)
			}
		}
		ord := has(prog, func(q *Query) bool { return q.Order != "" })
		grp := has(prog, func(q *Query) bool { return len(q.Group) > 0 })
		if !ord && !grp {
			continue
		}
		p["n"] = int64(r.N(5))
		if ord && r.P(80) {
			p["sort"] = int64(1 + r.N(6))
		}
		if grp && r.P(80) {
			p["group"] = int64(1 + r.N(4))
		}
		if r.P(60) {
			p["mat"] = int64(1 + r.N(2))
			if r.P(50) {
				p["mat"] = 1
			}
		}
		p["on"] = int64(r.N(7))
		if r.P(40) {
			p["twice"] = 1
			for _, k := range []string{"sort", "group", "mat"} {
				if p[k] == 0 {
					p[k] = 1
				}
			}
		}
		if r.P(30) {
			p["reader"] = 1
		}
		if r.P(15) {
			p["k"] = 2
		}
		if r.P(20) {
			genCancel(r, sc, o)
		}
		return sc
	}
	return nil
}

func makeRepl(r *Run) *Case {
	sc := r.Sc
	p := sc.P
	k := int(max(p["k"], 1))
	m := NewModel(sc.Tables)
	m.budget = 3000 * k
	for _, t := range sc.Tables {
		if len(t.Rows) > 20 {
			m.budget = 100000
		}
	}
	m.rep = &mrepl{p: p}
	var exps []*Res
	known := p["early"] == 0
	for _, t := range sc.Tables {
		known = known && !t.Endless
		if t.Endless && t.Gap == 0 || (t.Endless || t.Block) && p["cancel_ms"] == 0 {
			undefined("nothing ends the query")
		}
	}
	if known {
		for i, s := range sc.Prog {
			n := 1
			if i == len(sc.Prog)-1 {
				n = k
			}
			for j := 0; j < n; j++ {
				e := m.Exec(s)
				if i == len(sc.Prog)-1 {
					exps = append(exps, e)
				}
			}
		}
	}
	asts := parseProg(sc.Text())
	if len(asts) != len(sc.Prog) {
		undefined("program parses differently")
	}
	x := &repl{w: r.W, p: p}
	var outs []*Out
	var left, leftB, open int
	cancelled := false
	return &Case{Body: func() {
		r.ctx, r.cancel = newCtx()
		root := r.W.NewScope()
		root.AddProtocolImpl(replProto{})
		before := root.Copy()
		if p["twice"] != 0 {
			if p["sort"] != 0 {
				root.SetSorter(&oldRepl{x})
			}
			if p["group"] != 0 {
				root.SetGrouper(&oldRepl{x})
			}
			if p["mat"] != 0 {
				root.SetMaterializer(&oldRepl{x})
			}
		}
		if p["sort"] != 0 {
			root.SetSorter(&replSorter{x})
		}
		if p["group"] != 0 {
			root.SetGrouper(&replGrouper{x})
		}
		if p["mat"] != 0 {
			root.SetMaterializer(&replMat{x})
		}
		scope := root
		switch p["on"] {
		case 1:
			scope = root.Copy()
		case 2:
			scope = before
		case 3:
			scope = root.Copy().Copy()
		case 4:
			scope = root.NewScope()
		case 5:
			root.ClearContext()
			scope = root.Copy()
		case 6:
			scope = root.Copy()
			scope.ClearContext()
		}
		if p["early"] != 0 {
			r.setup()
		}
		n := len(asts) - 1
		for _, a := range asts[:n] {
			r.eval(scope, a, false)
		}
		if p["early"] == 0 {
			r.setup()
		}
		for i := 0; i < k; i++ {
			o := r.eval(scope, asts[n], true)
			outs = append(outs, o)
			if o.Gone {
				break
			}
		}
		if outs[len(outs)-1].Gone && !r.isCanceled() {
			r.W.Delay("cancel")
			r.doCancel("abandoned")
		}
		left = r.settle()
		cancelled = r.isCanceled()
		open = r.W.opened()
		root.Close()
		scope.Close()
		r.cancel()
		leftB = r.settle()
	}, Check: func() {
		for _, o := range outs {
			if !o.Closed && !o.Gone {
				r.Failf("no end: the output channel did not close")
			}
		}
		if left != 0 || leftB != 0 {
			r.Failf("left: %d goroutines are left after the query ended, %d after the scope was closed: %s", left, leftB, firstLines(r.Text, 40))
		}
		if open != 0 {
			r.Failf("open: %d resources are still open after the query ended", open)
		}
		if x.Old != 0 {
			r.Failf("used: a replacement that had been replaced was used %d times", x.Old)
		}
		if !known || cancelled {
			return
		}
		for i, o := range outs {
			if why := Compare(exps[i], o.strs()); why != "" {
				r.Failf("rows: evaluation %d: %s", i, why)
			}
		}
		if m.Ever.Limit {
			return
		}
		loose := false
		for _, c := range m.rep.calls {
			loose = loose || c.Loose
		}
		cnt := map[string]int{}
		for _, c := range m.rep.calls {
			cnt[c.str(loose)]++
		}
		for _, c := range x.calls {
			s := c.str(loose)
			if cnt[s] == 0 {
				r.Failf("offered: %s; expected %s", s, callsStr(m.rep.calls, loose))
				return
			}
			cnt[s]--
		}
		for s, n := range cnt {
			if n != 0 {
				r.Failf("offered: missing %s; got %s", s, callsStr(x.calls, loose))
				return
			}
		}
		if p["group"] != 4 {
			if why := diffEvents(m, r); why != "" {
				r.Failf("events: %s", why)
			}
		}
	}}
}

func callsStr(cs []*rcall, loose bool) string {
	var r []string
	for _, c := range cs {
		r = append(r, c.str(loose))
	}
	sort.Strings(r)
	return strings.Join(r, "; ")
}

func init() {
	kind(&Kind{Name: "repl", Gen: genRepl, Make: makeRepl})
	prop("C28", 4, 6000, "", PK{"repl", 1})
}
