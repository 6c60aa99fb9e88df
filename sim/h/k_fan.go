package h

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/Velocidex/ordereddict"
	"velsim/simrt"
	"www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/arg_parser"
	"www.velocidex.com/golang/vfilter/types"
)

// ---------------------------------------------------------------- fan: foreach with workers (C02, C03)

// Ops "row": A number, B inner rows, C duration of the inner query (ms), S the
// payload. P: n workers (0: not given), async, gap (ms between source rows),
// body (variant), nest (inner foreach workers), time (judge times).

type fanJob struct {
	i, k       int64
	start, end int64 // simulated time
	sb, se     uint64
}

type fanWorld struct {
	r       *Run
	jobs    []*fanJob
	inNow   map[int64]int // in flight, by outer row (nested) or -1
	max     map[int64]int
	handed  map[int64]int64
	handedS map[int64]uint64
}

//go:norace
func (f *fanWorld) enter(key, i, k int64) *fanJob {
	j := &fanJob{i: i, k: k, start: simrt.Now(), sb: simrt.Step(), end: -1}
	f.jobs = append(f.jobs, j)
	f.inNow[key]++
	if f.inNow[key] > f.max[key] {
		f.max[key] = f.inNow[key]
	}
	return j
}

//go:norace
func (f *fanWorld) leave(key int64, j *fanJob) {
	f.inNow[key]--
	j.end = simrt.Now()
	j.se = simrt.Step()
}

//go:norace
func (f *fanWorld) hand(i int64) { f.handed[i] = simrt.Now(); f.handedS[i] = simrt.Step() }

type outerPlugin struct{ f *fanWorld }

func (self *outerPlugin) Info(scope types.Scope, tm *types.TypeMap) *types.PluginInfo {
	return &types.PluginInfo{Name: "outer"}
}

func (self *outerPlugin) Call(ctx context.Context, scope types.Scope, args *ordereddict.Dict) <-chan types.Row {
	out := make(chan types.Row)
	f := self.f
	go func() {
		defer close(out)
		for _, o := range f.r.Sc.Ops {
			f.r.W.delayCtx(ctx, "source")
			if g := f.r.Sc.P["gap"]; g > 0 && !sleepCtx(ctx, time.Duration(g)*time.Millisecond) {
				return
			}
			row := ordereddict.NewDict().Set("I", o.A).Set("X", o.S)
			if o.D != 0 {
				row.Set("N", o.D) // not every row has this column
			}
			select {
			case <-ctx.Done():
				return
			case out <- row:
				f.hand(o.A)
			}
		}
	}()
	return out
}

type jobArgs struct {
	I int64 `vfilter:"required,field=i"`
	K int64 `vfilter:"optional,field=k"`
}

type jobPlugin struct{ f *fanWorld }

func (self *jobPlugin) Info(scope types.Scope, tm *types.TypeMap) *types.PluginInfo {
	return &types.PluginInfo{Name: "job", ArgType: tm.AddType(scope, &jobArgs{})}
}

func (self *jobPlugin) Call(ctx context.Context, scope types.Scope, args *ordereddict.Dict) <-chan types.Row {
	out := make(chan types.Row)
	f := self.f
	arg := &jobArgs{}
	err := arg_parser.ExtractArgsWithContext(ctx, scope, args, arg)
	if err != nil {
		scope.Log("job: %v", err)
		close(out)
		return out
	}
	key := int64(-1)
	if f.r.Sc.P["nest"] != 0 {
		key = arg.I
	}
	j := f.enter(key, arg.I, arg.K)
	f.r.W.record(fmt.Sprintf("job:%d:%d", arg.I, arg.K), 0)
	go func() {
		defer close(out)
		defer f.leave(key, j)
		var op Op
		for _, o := range f.r.Sc.Ops {
			if o.A == arg.I {
				op = o
			}
		}
		if op.C > 0 && !sleepCtx(ctx, time.Duration(op.C)*time.Millisecond) {
			return
		}
		for m := int64(0); m < op.B; m++ {
			f.r.W.delayCtx(ctx, "job")
			select {
			case <-ctx.Done():
				return
			case out <- ordereddict.NewDict().Set("J", m):
			}
		}
	}()
	return out
}

var fanBodies = []string{
	"SELECT I, X, N, J FROM job(i=I)",
	"SELECT I, X, N, J FROM job(i=I) WHERE J < 1000",
	"SELECT I, X, N, J FROM job(i=I) ORDER BY J",
	"SELECT I, X, N, J FROM foreach(row={ SELECT I, X, N FROM scope() }, query={ SELECT I, X, N, J FROM job(i=I) })",
	"SELECT I, X, N, J FROM if(condition=TRUE, then={ SELECT * FROM job(i=I) })",
	"SELECT I, X, N, J FROM body(n=I)",
	"SELECT I, X, N, J FROM job(i=I) GROUP BY J",
}

// fanN: column N as the inner query of a row sees it.
func fanN(op Op) string {
	if op.D != 0 {
		return fmt.Sprint(op.D)
	}
	return `"outside"`
}

func fanText(sc *Scenario) string {
	p := sc.P
	row := "{ SELECT * FROM outer() }"
	pre := "LET I = 'outside' LET N = 'outside' LET body(n) = SELECT * FROM job(i=n) "
	switch p["row"] {
	case 1:
		pre += "LET rows = SELECT * FROM outer() "
		row = "rows"
	case 2:
		pre += "LET rows <= SELECT * FROM outer() "
		row = "rows"
	case 3:
		row = "{ SELECT * FROM outer() WHERE I >= 0 }"
	}
	if p["col"] != 0 {
		// the row is in a column
		inner := strings.TrimSuffix(strings.TrimPrefix(row, "{ SELECT * FROM "), " }")
		row = "{ SELECT 'no' AS X, dict(I=I, X=X, N=N) AS Row FROM " + inner + " }"
	}
	args := "row=" + row
	if p["col"] != 0 {
		args += ", column='Row'"
	}
	if p["w"] != 0 {
		args += fmt.Sprintf(", workers=%d", p["w"])
	}
	if p["async"] != 0 {
		args += ", async=TRUE"
	}
	body := fanBodies[p["body"]%int64(len(fanBodies))]
	if n := p["nest"]; n != 0 {
		body = fmt.Sprintf("SELECT I, X, N, K, J FROM foreach(row={ SELECT _value AS K FROM range(start=0, end=%d) }, workers=%d, query={ SELECT I, X, N, K, J FROM job(i=I, k=K) })", p["inner"], n)
	}
	return pre + "SELECT * FROM foreach(" + args + ", query={ " + body + " })"
}

func genFan(r *Rand, prop string, deep bool) *Scenario {
	sc := &Scenario{P: map[string]int64{}}
	p := sc.P
	n := r.N(9)
	if deep {
		n += r.N(14)
	}
	switch r.N(5) {
	case 0:
	case 1:
		p["w"] = 1
	default:
		p["w"] = int64(2 + r.N(5))
	}
	if r.P(20) {
		p["async"] = 1
		if prop == "C03" && r.P(30) {
			p["w"] = 0
			n = 90 + r.N(30)
		}
	}
	if r.N(50) == 0 && n < 80 {
		n += r.N(250)
		if p["w"] > 1 {
			p["w"] += int64(r.N(40))
		}
	}
	p["row"] = int64(r.N(4))
	if r.P(25) {
		p["col"] = 1
	}
	p["body"] = int64(r.N(len(fanBodies)))
	if r.P(25) && n < 20 {
		p["nest"] = int64(1 + r.N(4))
		p["inner"] = int64(1 + r.N(5))
	}
	if r.P(40) {
		p["gap"] = int64(1 + r.N(2000))
	}
	if prop == "C03" && r.P(60) {
		p["time"], p["notime"], p["nodelay"] = 1, 1, 1
	} else if r.P(40) {
		p["reader"] = 1
	}
	for i := 0; i < n; i++ {
		o := Op{K: "row", A: int64(i), B: int64(r.N(4)), S: fmt.Sprintf("p%d", r.N(5))}
		if r.P(40) {
			o.D = int64(1 + r.N(9))
		}
		if r.P(60) || n > 80 {
			o.C = int64(1 + r.N(5000))
		}
		sc.Ops = append(sc.Ops, o)
	}
	if deep && prop == "C03" && r.P(30) {
		// a stuck inner query must not hold up the others
		if len(sc.Ops) > 0 {
			sc.Ops[r.N(len(sc.Ops))].C = 86400000
		}
	}
	return sc
}

func makeFan(r *Run) *Case {
	sc := r.Sc
	p := sc.P
	f := &fanWorld{r: r, inNow: map[int64]int{}, max: map[int64]int{}, handed: map[int64]int64{}, handedS: map[int64]uint64{}}
	asts := parseProg(fanText(sc))
	res := &QResult{}
	w := p["w"]
	if w == 0 {
		w = 1
		if p["async"] != 0 {
			w = 100
		}
	}
	if p["time"] != 0 && (p["notime"] == 0 || p["nodelay"] == 0 || p["reader"] != 0) {
		undefined("exact times need an exact clock")
	}
	seen := map[int64]bool{}
	for _, o := range sc.Ops {
		if seen[o.A] {
			undefined("row numbers repeat")
		}
		seen[o.A] = true
	}
	r.W.extra = func(scope types.Scope) {
		scope.AppendPlugins(&outerPlugin{f}, &jobPlugin{f})
	}
	return &Case{
		Body: func() { runQuery(r, asts, res) },
		Check: func() {
			o := res.Outs[0]
			if !o.Closed {
				r.Failf("no end: the output channel did not close")
				return
			}
			if res.LeftA != 0 {
				r.Failf("left: %d goroutines of the query are left after it ended", res.LeftA)
			}
			// rows
			want := map[string][]string{}
			var order []string
			for _, op := range sc.Ops {
				if n := p["nest"]; n != 0 {
					for k := int64(0); k < p["inner"]; k++ {
						key := fmt.Sprintf("{I:%d,X:%q,N:%s,K:%d", op.A, op.S, fanN(op), k)
						order = append(order, key)
						for j := int64(0); j < op.B; j++ {
							want[key] = append(want[key], fmt.Sprintf("%s,J:%d}", key, j))
						}
					}
					continue
				}
				key := fmt.Sprintf("{I:%d,X:%q,N:%s", op.A, op.S, fanN(op))
				order = append(order, key)
				for j := int64(0); j < op.B; j++ {
					want[key] = append(want[key], fmt.Sprintf("%s,J:%d}", key, j))
				}
			}
			got := map[string][]string{}
			for _, s := range o.strs() {
				k := s
				if i := strings.LastIndex(s, ",J:"); i >= 0 {
					k = s[:i]
				}
				got[k] = append(got[k], s)
			}
			for _, k := range order {
				if fmt.Sprint(got[k]) != fmt.Sprint(want[k]) {
					r.Failf("rows: source row %s} gave %v, expected %v", k, got[k], want[k])
				}
				delete(got, k)
			}
			for k, v := range got {
				r.Failf("rows: rows of no source row: %s: %v", k, v)
			}
			if w == 1 && p["nest"] <= 1 {
				var all []string
				for _, k := range order {
					all = append(all, want[k]...)
				}
				if fmt.Sprint(all) != fmt.Sprint(o.strs()) {
					r.Failf("order: one worker gave %v, expected %v", o.strs(), all)
				}
			}
			// every inner query exactly once
			runs := map[string]int{}
			for _, j := range f.jobs {
				runs[fmt.Sprintf("%d/%d", j.i, j.k)]++
			}
			for _, op := range sc.Ops {
				n := int64(1)
				if p["nest"] != 0 {
					n = p["inner"]
				}
				for k := int64(0); k < n; k++ {
					if c := runs[fmt.Sprintf("%d/%d", op.A, k)]; c != 1 {
						r.Failf("runs: the query ran %d times for source row %d", c, op.A)
					}
				}
			}
			if sc.Prop != "C03" {
				return
			}
			bound := int(w)
			if p["nest"] != 0 {
				bound = int(p["nest"])
				// and no more outer rows at once than workers
				if n := overlapping(f.jobs); n > int(w) {
					r.Failf("bound: inner queries of %d source rows were in flight at once, %d workers", n, w)
				}
			}
			for k, n := range f.max {
				if n > bound {
					r.Failf("bound: %d inner queries in flight at once with %d workers (row %d)", n, bound, k)
				}
				if n == bound {
					probe("bound reached")
				}
			}
			if p["time"] == 0 || p["nest"] != 0 {
				return
			}
			// work conservation: while a row waits every worker is busy
			for _, j := range f.jobs {
				h := f.handed[j.i]
				if p["row"] == 2 { // materialised first
					h = 0
					for _, x := range f.handed {
						if x > h {
							h = x
						}
					}
				}
				if j.start <= h {
					continue
				}
				probe("a row waited for a worker")
				// instants at which a query ended while this one waited
				ts := []int64{h}
				for _, x := range f.jobs {
					if x.end >= h && x.end < j.start {
						ts = append(ts, x.end)
					}
				}
				sort.Slice(ts, func(a, b int) bool { return ts[a] < ts[b] })
				for _, t := range ts {
					busy := 0
					for _, x := range f.jobs {
						if x.start <= t && (x.end > t || x.end < 0) {
							busy++
						}
					}
					if busy < int(w) {
						r.Failf("idle: source row %d, delivered at %.3fs, started at %.3fs although only %d of %d workers were busy at %.3fs",
							j.i, sec(h), sec(j.start), busy, w, sec(t))
						return
					}
				}
			}
		},
	}
}

func sec(t int64) float64 { return float64(t-simrt.BaseTime) / 1e9 }

// overlapping: the most outer rows whose inner queries overlap at a point.
func overlapping(jobs []*fanJob) int {
	best := 0
	for _, a := range jobs {
		in := map[int64]bool{}
		for _, b := range jobs {
			if b.sb <= a.sb && (b.se > a.sb || b.end < 0) {
				in[b.i] = true
			}
		}
		if len(in) > best {
			best = len(in)
		}
	}
	return best
}

// ---------------------------------------------------------------- agg: aggregates under concurrency (C05)

// Ops "v": A the values, distinct and positive. P: w workers, form.

func aggText(sc *Scenario) string {
	p := sc.P
	item := "A"
	if p["slow"] != 0 {
		// the argument takes its time
		item = "fx(v=A, tag='x')"
	}
	ext := strings.ReplaceAll(item, "A", "N")
	if p["nul"] == 0 {
		ext = item
	}
	aggCols := strings.ReplaceAll(strings.ReplaceAll("A, count() AS C, sum(item=@) AS S, min(item=%) AS MN, max(item=%) AS MX, enumerate(items=@) AS E, count() AS C2", "@", item), "%", ext)
	w := ""
	if p["w"] > 1 {
		w = fmt.Sprintf(", workers=%d", p["w"])
	}
	row := "{ SELECT A, N FROM src(t='t0', tag='s') }"
	switch p["form"] {
	case 0:
		return "SELECT * FROM foreach(row=" + row + w + ", query={ SELECT " + aggCols + " FROM scope() })"
	case 1:
		return "LET inner = SELECT " + aggCols + " FROM scope() SELECT * FROM foreach(row=" + row + w + ", query=inner)"
	case 2: // one shared and one call-local count
		return "LET f(x) = count() LET g = count() SELECT * FROM foreach(row=" + row + w + ", query={ SELECT A, g AS C, f(x=A) AS F, f(x=1) AS F2 FROM scope() })"
	case 3: // a stored query with parameters starts fresh each time
		return "LET q(n) = SELECT n AS A, count() AS C, sum(item=n) AS S FROM range(start=0, end=3) SELECT * FROM foreach(row=" + row + w + ", query={ SELECT A, C, S FROM q(n=A) })"
	case 4: // groups of their own
		return "SELECT * FROM foreach(row=" + row + w + ", query={ SELECT A, count() AS C, sum(item=A) AS S FROM range(start=0, end=3) GROUP BY A })"
	case 5: // several evaluations share the scope
		return "SELECT " + aggCols + " FROM src(t='t0', tag='s')"
	}
	if p["form"] >= 7 && int(p["form"]) < 7+len(freshForms) {
		f := freshForms[p["form"]-7]
		return f.lets + " SELECT * FROM foreach(row=" + row + w + ", query={ SELECT A, " + strings.ReplaceAll(f.sel, "@", item) + " })"
	}
	return "SELECT A FROM src(t='t0', tag='s')"
}

// Every call of a stored query or expression with parameters aggregates on
// its own: R is what the call with v must give, C2 counts on in the scope of
// the caller.
var freshForms = []struct {
	lets, sel string
	want      func(v int64) any
}{
	{"LET f(x) = dict(A=x, C=count(), S=sum(item=x))",
		"dict(C=C, S=S) AS R, count() AS C2 FROM f(x=@)",
		func(v int64) any { return odict("C", int64(1), "S", v) }},
	{"LET q(n) = SELECT n AS A, count() AS C, sum(item=n) AS S FROM range(start=0, end=3)",
		"q(n=@).S AS R, count() AS C2 FROM scope()",
		func(v int64) any { return []any{v, 2 * v, 3 * v} }},
	{"LET q(n) = SELECT count() AS C, max(item=n) AS M FROM range(start=0, end=2) LET f(x) = dict(C=count(), Q=q(n=x), D=count()) LET g(y) = dict(F=f(x=y), F2=f(x=y + 1), G=count())",
		"count() AS C2, g(y=@) AS R FROM scope()",
		func(v int64) any {
			f := func(v int64) any {
				return odict("C", int64(1), "Q", []any{odict("C", int64(1), "M", v), odict("C", int64(2), "M", v)}, "D", int64(1))
			}
			return odict("F", f(v), "F2", f(v+1), "G", int64(1))
		}},
	{"LET f(x) = count() + x LET q(n) = SELECT f(x=n) AS F, enumerate(items=_value) AS E, count() AS C FROM range(start=0, end=2)",
		"count() AS C2, { SELECT * FROM q(n=@) } AS R FROM scope()",
		func(v int64) any {
			return []any{odict("F", v+1, "E", []any{int64(0)}, "C", int64(1)), odict("F", v+1, "E", []any{int64(0), int64(1)}, "C", int64(2))}
		}},
	{"LET e(x) = dict(C=count(), M=min(item=x)) LET q(n) = SELECT C, M, count() AS D FROM foreach(row={ SELECT * FROM range(start=0, end=2) }, query={ SELECT * FROM e(x=n) })",
		"count() AS C2, q(n=@) AS R FROM scope()",
		func(v int64) any {
			return []any{odict("C", int64(1), "M", v, "D", int64(1)), odict("C", int64(1), "M", v, "D", int64(2))}
		}},
}

func odict(kv ...any) any {
	d := ordereddict.NewDict()
	for i := 0; i < len(kv); i += 2 {
		d.Set(kv[i].(string), kv[i+1])
	}
	return d
}

func genAgg(r *Rand, prop string, deep bool) *Scenario {
	n := 1 + r.N(8)
	if deep {
		n += r.N(16)
	}
	if r.N(50) == 0 {
		n += r.N(300)
	}
	sc := &Scenario{P: map[string]int64{"form": int64(r.N(7 + len(freshForms))), "w": int64(1 + r.N(6)), "k": int64(2 + r.N(3))}}
	sc.P["slow"] = int64(r.N(2))
	sc.P["nul"] = int64(r.N(2))
	t := &Table{Cols: []string{"A", "N"}}
	used := map[int64]bool{}
	for len(t.Rows) < n {
		v := int64(1 + r.N(200+10*n))
		if !used[v] {
			used[v] = true
			row := []any{v, v}
			if sc.P["nul"] != 0 && r.P(35) {
				row[1] = nil // min() and max() go past these
			}
			t.Rows = append(t.Rows, row)
		}
	}
	sc.Tables = map[string]*Table{"t0": t}
	return sc
}

// aggNone: the minimum of nothing.
const aggNone = 1 << 61

type aggRow struct {
	A, C, S, MN, MX, C2, F, F2 int64
	E                          []int64
	R                          string
}

func makeAgg(r *Run) *Case {
	sc := r.Sc
	p := sc.P
	form := p["form"]
	if sc.Tables["t0"] == nil || len(sc.Tables["t0"].Rows) == 0 {
		undefined("no rows")
	}
	vals := map[int64]bool{}
	t := sc.Tables["t0"]
	for i := range t.Rows {
		v := t.val(i, 0).(int64)
		if vals[v] || v <= 0 {
			undefined("values repeat")
		}
		vals[v] = true
	}
	// the items of min() and max(): all of them, or without some
	ext := map[int64]bool{}
	lo, hi := int64(aggNone), int64(0)
	for i := range t.Rows {
		v := t.val(i, 0).(int64)
		if p["nul"] == 0 || len(t.Rows[i]) > 1 && t.val(i, 1) != nil {
			ext[v] = true
			lo, hi = min(lo, v), max(hi, v)
		}
	}
	asts := parseProg(aggText(sc))
	var rows, final []aggRow
	back := ""
	var direct []int64
	left := 0
	num := func(v any, pres bool) int64 {
		switch x := v.(type) {
		case int64:
			return x
		case uint64:
			return int64(x)
		case int:
			return int64(x)
		case nil, types.Null, *types.Null:
			if pres {
				return -3
			}
		}
		if !pres {
			return -1
		}
		return -2
	}
	read := func(scope types.Scope, row types.Row) aggRow {
		d := vfilter.RowToDict(r.ctx, scope, row)
		g := func(k string) int64 { v, ok := d.Get(k); return num(v, ok) }
		x := aggRow{A: g("A"), C: g("C"), S: g("S"), MN: g("MN"), MX: g("MX"), C2: g("C2"), F: g("F"), F2: g("F2")}
		// nothing so far
		if p["nul"] != 0 && x.MN == -3 {
			x.MN = aggNone
		}
		if p["nul"] != 0 && x.MX == -3 {
			x.MX = 0
		}
		if form >= 7 {
			v, _ := d.Get("R")
			switch q := v.(type) {
			case types.LazyExpr:
				v = q.Reduce(r.ctx)
			}
			if q, ok := v.(types.StoredQuery); ok {
				v = types.Materialize(r.ctx, scope, q)
			}
			x.R = RCanon(v)
		}
		if e, ok := d.Get("E"); ok {
			s := RCanon(e)
			for _, f := range strings.FieldsFunc(s, func(c rune) bool { return c < '0' || c > '9' }) {
				var v int64
				fmt.Sscan(f, &v)
				x.E = append(x.E, v)
			}
		}
		return x
	}
	k := 1
	if form == 5 || form == 6 {
		k = int(p["k"])
	}
	body := func() {
		r.ctx, r.cancel = newCtx()
		scope := r.W.NewScope()
		n := len(asts) - 1
		for _, a := range asts[:n] {
			r.eval(scope, a, false)
		}
		parts := make([][]aggRow, k)
		dparts := make([][]int64, k)
		done := make(chan int, k)
		for i := 0; i < k; i++ {
			sub := types.Scope(scope)
			if k > 1 {
				sub = scope.Copy()
			}
			go func() {
				if form == 6 {
					// a host function of its own
					for j := 0; j < len(t.Rows); j++ {
						r.W.Delay("aggregate")
						v := sub.GetAggregatorCtx().Modify("x", func(old types.Any, pres bool) types.Any {
							n := int64(0)
							if pres {
								n = old.(int64)
							}
							runtimeYield()
							return n + 1
						})
						dparts[i] = append(dparts[i], v.(int64))
					}
				} else {
					for row := range asts[n].Eval(r.ctx, sub) {
						parts[i] = append(parts[i], read(sub, row))
						r.W.Delay("reader")
					}
				}
				done <- i
			}()
		}
		for i := 0; i < k; i++ {
			<-done
		}
		for i := range parts {
			// what one client sees never goes back
			for j := 1; j < len(parts[i]); j++ {
				a, b := parts[i][j-1], parts[i][j]
				if form == 5 && (b.C <= a.C || b.C2 <= a.C2 || b.S <= a.S || b.MN > a.MN || b.MX < a.MX || len(b.E) <= len(a.E)) {
					back = fmt.Sprintf("back: one client saw %+v and then %+v", a, b)
				}
			}
			rows = append(rows, parts[i]...)
			direct = append(direct, dparts[i]...)
		}
		if form == 0 || form == 1 || form == 5 {
			// once more, when everything else is over
			for row := range asts[n].Eval(r.ctx, scope) {
				final = append(final, read(scope, row))
			}
		}
		left = r.settle()
		scope.Close()
		r.cancel()
	}
	return &Case{Body: body, Check: func() {
		if left != 0 {
			r.Failf("left: %d goroutines of the query are left after it ended", left)
		}
		if back != "" {
			r.Failf("%s", back)
		}
		if form == 0 || form == 1 || form == 5 {
			n := int64(k * len(t.Rows))
			sum := int64(0)
			for v := range vals {
				sum += v
			}
			for _, x := range final {
				if x.MN != lo || x.MX != hi || x.C <= n || x.C2 <= n || x.S <= int64(k)*sum || len(x.E) <= int(n) {
					r.Failf("lost: after %d evaluations over %v another one with %d gave %+v", n, vals, x.A, x)
				}
			}
			if len(final) != len(t.Rows) {
				r.Failf("rows: %d rows, expected %d", len(final), len(t.Rows))
			}
		}
		switch form {
		case 6:
			seqCheck(r, "Modify", direct, k*len(t.Rows))
			return
		case 3, 4:
			per := map[int64][]string{}
			for _, x := range rows {
				per[x.A] = append(per[x.A], fmt.Sprintf("%d:%d", x.C, x.S))
			}
			for v := range vals {
				w := fmt.Sprintf("[1:%d 2:%d 3:%d]", v, 2*v, 3*v)
				if form == 4 {
					w = fmt.Sprintf("[3:%d]", 3*v)
				}
				if fmt.Sprint(per[v]) != w {
					r.Failf("fresh: query called with %d aggregated %v, expected %s", v, per[v], w)
				}
			}
			return
		}
		n := k * len(t.Rows)
		if len(rows) != n {
			r.Failf("rows: %d rows, expected %d", len(rows), n)
			return
		}
		col := func(f func(aggRow) int64) (s []int64) {
			for _, x := range rows {
				s = append(s, f(x))
			}
			return
		}
		if form >= 7 {
			for _, x := range rows {
				if w := RCanon(freshForms[form-7].want(x.A)); x.R != w {
					r.Failf("fresh: the call with %d gave %s, expected %s", x.A, x.R, w)
				}
			}
			seqCheck(r, "count of the caller", col(func(x aggRow) int64 { return x.C2 }), n)
			return
		}
		seqCheck(r, "count", col(func(x aggRow) int64 { return x.C }), n)
		if form == 2 {
			for _, x := range rows {
				if x.F != 1 || x.F2 != 1 {
					r.Failf("fresh: a stored function with parameters counted to %d and %d in one call", x.F, x.F2)
				}
			}
			return
		}
		seqCheck(r, "the second count", col(func(x aggRow) int64 { return x.C2 }), n)
		// sums: each evaluation added exactly its own item
		byS := append([]aggRow{}, rows...)
		sort.Slice(byS, func(a, b int) bool { return byS[a].S < byS[b].S })
		prev := int64(0)
		for _, x := range byS {
			if x.S-prev != x.A {
				r.Failf("sum: after %d the evaluation with %d gave %d", prev, x.A, x.S)
			}
			prev = x.S
		}
		// collections grow by the evaluation's own item
		byE := append([]aggRow{}, rows...)
		sort.Slice(byE, func(a, b int) bool { return len(byE[a].E) < len(byE[b].E) })
		var acc []int64
		for _, x := range byE {
			acc = append(acc, x.A)
			if fmt.Sprint(acc) != fmt.Sprint(x.E) {
				r.Failf("enumerate: expected %v for the evaluation with %d, got %v", acc, x.A, x.E)
				break
			}
		}
		// minima and maxima
		for _, x := range rows {
			mn, mx := ext[x.MN], ext[x.MX]
			if ext[x.A] {
				mn = mn && x.MN <= x.A && (x.A != lo || x.MN == lo)
				mx = mx && x.MX >= x.A && (x.A != hi || x.MX == hi)
			} else {
				probe("min and max without a value")
				mn, mx = mn || x.MN == aggNone, mx || x.MX == 0
			}
			if !mn {
				r.Failf("min: the evaluation with %d gave %d", x.A, x.MN)
			}
			if !mx {
				r.Failf("max: the evaluation with %d gave %d", x.A, x.MX)
			}
		}
		// once the extreme item is in, nobody sees anything else: the number
		// of evaluations that do is at most the number of those before it
		probe("shared aggregation")
	}}
}

func seqCheck(r *Run, what string, got []int64, n int) {
	s := append([]int64{}, got...)
	sort.Slice(s, func(a, b int) bool { return s[a] < s[b] })
	for i, v := range s {
		if v != int64(i+1) {
			r.Failf("count: the results of %s are %v, expected 1 to %d", what, s, n)
			return
		}
	}
	if len(s) != n {
		r.Failf("count: %d results of %s, expected %d", len(s), what, n)
	}
}

func runtimeYield() { simrt.Point() }

func init() {
	kind(&Kind{Name: "fan", Text: fanText, Gen: genFan, Make: makeFan})
	kind(&Kind{Name: "agg", Text: aggText, Gen: genAgg, Make: makeAgg})
	prop("C02", 4, 6000, "", PK{"q", 1}, PK{"fan", 2})
	prop("C03", 4, 6000, "", PK{"fan", 1})
	prop("C05", 5, 8000, "", PK{"agg", 1})
}
