package h

import (
	"bytes"
	"context"
	"fmt"
	"log"
	"sort"
	"strings"

	"github.com/Velocidex/ordereddict"
	"www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/types"
)

// What a scope may be configured with besides variables and context. Each
// facet can be given to a scope in two variants (0, 1) with a value, and
// isoInspect compares what a scope shows with what it was given, or what the
// scope it was made from had at that time.

var isoFacets = []string{"fn", "pl", "add", "sub", "mul", "div", "eq", "lt", "gt", "bool", "in", "assoc", "re", "iter", "sort", "group", "mat", "log", "trace", "expl"}

type isoOperand struct{ variant int }

type isoProto struct {
	facet   string
	variant int
	v       int64
}

func (p isoProto) is(a types.Any) bool {
	o, ok := a.(isoOperand)
	return ok && o.variant == p.variant
}

type (
	isoBin  struct{ isoProto }
	isoAdd  struct{ isoBin }
	isoSub  struct{ isoBin }
	isoMul  struct{ isoBin }
	isoDiv  struct{ isoBin }
	isoEq   struct{ isoBin }
	isoLt   struct{ isoBin }
	isoGt   struct{ isoBin }
	isoIn   struct{ isoBin }
	isoRe   struct{ isoBin }
	isoBool struct{ isoProto }
	isoIter struct{ isoProto }
	isoAss  struct{ isoBin }
)

func (p isoBin) Applicable(a types.Any, b types.Any) bool { return p.is(a) }

func (p isoAdd) Add(s types.Scope, a types.Any, b types.Any) types.Any { return p.v }
func (p isoSub) Sub(s types.Scope, a types.Any, b types.Any) types.Any { return p.v }
func (p isoMul) Mul(s types.Scope, a types.Any, b types.Any) types.Any { return p.v }
func (p isoDiv) Div(s types.Scope, a types.Any, b types.Any) types.Any { return p.v }

// the relations hold exactly for the value they were registered with
func (p isoEq) Eq(s types.Scope, a types.Any, b types.Any) bool         { return b == types.Any(p.v) }
func (p isoLt) Lt(s types.Scope, a types.Any, b types.Any) bool         { return b == types.Any(p.v) }
func (p isoGt) Gt(s types.Scope, a types.Any, b types.Any) bool         { return b == types.Any(p.v) }
func (p isoIn) Membership(s types.Scope, a types.Any, b types.Any) bool { return b == types.Any(p.v) }
func (p isoRe) Match(s types.Scope, a types.Any, b types.Any) bool      { return b == types.Any(p.v) }

func (p isoBool) Applicable(a types.Any) bool                                { return p.is(a) }
func (p isoBool) Bool(ctx context.Context, s types.Scope, a types.Any) bool  { return p.v > 0 }
func (p isoAss) GetMembers(s types.Scope, a types.Any) []string              { return []string{fmt.Sprint(p.v)} }
func (p isoAss) Associative(s types.Scope, a, b types.Any) (types.Any, bool) { return p.v, true }
func (p isoIter) Applicable(a types.Any) bool                                { return p.is(a) }
func (p isoIter) Iterate(ctx context.Context, s types.Scope, a types.Any) <-chan types.Row {
	c := make(chan types.Row, 1)
	c <- ordereddict.NewDict().Set("V", p.v)
	close(c)
	return c
}

// A sorter, grouper or materialiser which gives one row with its own number.
type isoStage struct{ v int64 }

func (p isoStage) one(n int64, in <-chan types.Row) <-chan types.Row {
	c := make(chan types.Row, 1)
	c <- ordereddict.NewDict().Set("V", n)
	go func() {
		defer close(c)
		if in != nil {
			for range in {
			}
		}
	}()
	return c
}
func (p isoStage) Sort(ctx context.Context, s types.Scope, in <-chan types.Row, key string, desc bool) <-chan types.Row {
	return p.one(p.v, in)
}
func (p isoStage) Group(ctx context.Context, s types.Scope, actor types.GroupbyActor) <-chan types.Row {
	return p.one(p.v, nil)
}
func (p isoStage) Materialize(ctx context.Context, s types.Scope, name string, q types.StoredQuery) types.StoredQuery {
	return isoStored{q, p.v}
}

type isoStored struct {
	types.StoredQuery
	v int64
}

type isoExpl struct{ v int64 }

func (isoExpl) StartQuery(interface{})                          {}
func (isoExpl) PluginOutput(interface{}, types.Row)             {}
func (isoExpl) SelectOutput(types.Row)                          {}
func (isoExpl) ParseArgs(*ordereddict.Dict, interface{}, error) {}
func (isoExpl) RejectRow(interface{})                           {}
func (isoExpl) Log(string)                                      {}

type isoLog struct {
	v    int64
	last *int64
}

func (l isoLog) Write(b []byte) (int, error) {
	if bytes.Contains(b, []byte("probe")) {
		*l.last = l.v
	}
	return len(b), nil
}

func isoFacet(o Op) (string, int) {
	return isoFacets[int(o.B)/2%len(isoFacets)], int(o.B) % 2
}

var isoLast int64 // last logger which was written to

func isoConfigure(s *isoScope, o Op, fns, cfg map[string]int64) {
	f, variant := isoFacet(o)
	v := o.C
	key := fmt.Sprint(f, variant)
	p := isoProto{f, variant, v}
	b := isoBin{p}
	name := fmt.Sprint("iso", f, variant)
	switch f {
	case "fn":
		s.sc.AppendFunctions(vfilter.GenericFunction{FunctionName: name, Doc: fmt.Sprint(v), Function: func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any { return v }})
		fns[key] = v
		return
	case "pl":
		s.sc.AppendPlugins(&vfilter.GenericListPlugin{PluginName: name, Doc: fmt.Sprint(v), Function: func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) []types.Row {
			return []types.Row{ordereddict.NewDict().Set("V", v)}
		}})
		fns[key] = v
		return
	case "add":
		s.sc.AddProtocolImpl(isoAdd{b})
	case "sub":
		s.sc.AddProtocolImpl(isoSub{b})
	case "mul":
		s.sc.AddProtocolImpl(isoMul{b})
	case "div":
		s.sc.AddProtocolImpl(isoDiv{b})
	case "eq":
		s.sc.AddProtocolImpl(isoEq{b})
	case "lt":
		s.sc.AddProtocolImpl(isoLt{b})
	case "gt":
		s.sc.AddProtocolImpl(isoGt{b})
	case "in":
		s.sc.AddProtocolImpl(isoIn{b})
	case "re":
		s.sc.AddProtocolImpl(isoRe{b})
	case "bool":
		if variant == 1 {
			v = 0 // false, as without
			p.v = 0
		}
		s.sc.AddProtocolImpl(isoBool{p})
	case "assoc":
		s.sc.AddProtocolImpl(isoAss{b})
	case "iter":
		s.sc.AddProtocolImpl(isoIter{p})
	case "sort":
		s.sc.SetSorter(isoStage{v})
		key = f
	case "group":
		s.sc.SetGrouper(isoStage{v})
		key = f
	case "mat":
		s.sc.SetMaterializer(isoStage{v})
		key = f
	case "log":
		s.sc.SetLogger(log.New(isoLog{v, &isoLast}, "", 0))
		key = f
	case "trace":
		s.sc.SetTracer(log.New(isoLog{v, &isoLast}, "", 0))
		key = f
	case "expl":
		s.sc.SetExplainer(isoExpl{v})
		key = f
	}
	cfg[key] = v
}

// What the only row of a query gives for V (0: the standard behaviour).
func isoRun(ctx context.Context, sc types.Scope, query string) int64 {
	vql, err := vfilter.Parse(query)
	if err != nil {
		return -2
	}
	sub, cancel := context.WithCancel(ctx)
	defer cancel()
	var got int64
	for row := range vql.Eval(sub, sc) {
		if v, ok := sc.Associative(row, "V"); ok {
			if n, ok := v.(int64); ok {
				got = n
			}
		}
	}
	return got
}

func isoBoolValue(ok bool, v int64) int64 {
	if ok {
		return v
	}
	return 0
}

func isoInspect(r *Run, s *isoScope, o Op, fns, cfg map[string]int64) {
	ctx := context.Background()
	f, variant := isoFacet(o)
	key := fmt.Sprint(f, variant)
	name := fmt.Sprint("iso", f, variant)
	sc := s.sc
	op := isoOperand{variant}
	num := func(v types.Any) int64 {
		n, _ := v.(int64)
		return n
	}
	got, want := int64(0), cfg[key]
	switch f {
	case "fn":
		want = fns[key]
		if fn, ok := sc.GetFunction(name); ok {
			got = num(fn.Call(ctx, sc, ordereddict.NewDict()))
		}
		if n := isoRun(ctx, sc, "SELECT "+name+"() AS V FROM scope() WHERE V = "+fmt.Sprint(want)); got == want && want != 0 && n != want {
			got = n
		}
	case "pl":
		want = fns[key]
		if p, ok := sc.GetPlugin(name); ok {
			fmt.Sscan(p.Info(sc, nil).Doc, &got)
		}
		if n := isoRun(ctx, sc, "SELECT V FROM "+name+"()"); got == want && n != want {
			got = n
		}
		if similar := strings.Contains(strings.Join(sc.GetSimilarPlugins(name), " ")+" ", name+" "); similar != (want != 0) {
			r.Failf("similar plugins: %s in scope %d is %v, want %v", name, o.A, similar, want != 0)
		}
		// the description of the scope lists exactly what it has
		d := sc.Describe(types.NewTypeMap())
		var has []string
		for _, i := range d.Functions {
			if strings.HasPrefix(i.Name, "iso") {
				has = append(has, i.Name[3:]+"="+i.Doc)
			}
		}
		for _, i := range d.Plugins {
			if strings.HasPrefix(i.Name, "iso") {
				has = append(has, i.Name[3:]+"="+i.Doc)
			}
		}
		var exp []string
		for k, v := range fns {
			exp = append(exp, fmt.Sprint(k, "=", v))
		}
		sort.Strings(has)
		sort.Strings(exp)
		if a, b := fmt.Sprint(has), fmt.Sprint(exp); a != b {
			r.Failf("description: scope %d has %s, want %s", o.A, a, b)
		}
	case "add":
		got = num(sc.Add(op, int64(0)))
	case "sub":
		got = num(sc.Sub(op, int64(0)))
	case "mul":
		got = num(sc.Mul(op, int64(0)))
	case "div":
		got = num(sc.Div(op, int64(0)))
	case "eq":
		got = isoBoolValue(sc.Eq(op, want), want)
	case "lt":
		got = isoBoolValue(sc.Lt(op, want), want)
	case "gt":
		got = isoBoolValue(sc.Gt(op, want), want)
	case "in":
		got = isoBoolValue(sc.Membership(op, want), want)
	case "re":
		got = isoBoolValue(sc.Match(op, want), want)
	case "bool":
		if variant == 1 {
			want = 0
		}
		got = isoBoolValue(sc.Bool(op), want)
		if want == 0 && sc.Bool(op) {
			got = -1
		}
	case "assoc":
		v, _ := sc.Associative(op, "x")
		got = num(v)
		if m := sc.GetMembers(op); got == want && want != 0 && (len(m) != 1 || m[0] != fmt.Sprint(want)) {
			r.Failf("members: of the operand in scope %d are %v, want %d", o.A, m, want)
		}
	case "iter":
		for row := range sc.Iterate(ctx, op) {
			v, _ := sc.Associative(row, "V")
			got = num(v)
		}
	case "sort":
		key, want = f, cfg[f]
		got = isoRun(ctx, sc, "SELECT 0 AS V FROM scope() ORDER BY V")
	case "group":
		key, want = f, cfg[f]
		got = isoRun(ctx, sc, "SELECT 0 AS V, count() AS N FROM scope() GROUP BY V")
	case "mat":
		key, want = f, cfg[f]
		if m, ok := sc.Materialize(ctx, "m", isoNoRows{}).(isoStored); ok {
			got = m.v
		}
	case "log":
		key, want = f, cfg[f]
		isoLast = 0
		sc.Log("probe")
		got = isoLast
	case "trace":
		key, want = f, cfg[f]
		isoLast = 0
		sc.Trace("probe")
		got = isoLast
	case "expl":
		key, want = f, cfg[f]
		e := sc.Copy() // the copy is explained, the scope is not
		e.EnableExplain()
		if x, ok := e.Explainer().(isoExpl); ok {
			got = x.v
		}
		e.Close()
	}
	if got != want {
		r.Failf("configuration: %s in scope %d is %d, want %d", key, o.A, got, want)
	}
	if want != 0 {
		probe("configured " + f)
	}
}

type isoNoRows struct{}

func (isoNoRows) Eval(ctx context.Context, s types.Scope) <-chan types.Row {
	c := make(chan types.Row)
	close(c)
	return c
}
