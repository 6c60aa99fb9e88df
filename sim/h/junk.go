package h

import (
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/Velocidex/ordereddict"
	"www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/arg_parser"
	"www.velocidex.com/golang/vfilter/types"
)

// Junk: expressions that apply every operator, function and plugin to values
// they were not made for. Nothing is said about the value of such a column
// (its name starts with JK and it is left out of every comparison): what
// matters is that everything around it comes out as without it, that the query
// ends, and that the process survives.

var junkVals = []string{"1", "0", "-1", "3", "9223372036854775807", "-9223372036854775808", "4611686018427387904", "1.5", "-0.0", "1e308",
	"NULL", "''", "'a'", "'%s'", "'%'", "'('", "'[a'", "TRUE", "FALSE", "dict()", "dict(a=1)", "dict(a=NULL, b=dict(c=(1, 2)))",
	"(1, 2)", "(1,)", "(NULL, 'a')", "((1, 2), (3,))", "nosuch", "no.such.c", "'2020-01-01'", "'hex'", "'base64'", "'a|b'", "0x10",
	"A", "B", "S", "T", "Z", "N", "A", "S", "Z", "_value"}

var junkIdx = []string{"0", "-1", "5", "'a'", "0:1", "1:", "9:2", ":-1", "-3:"}

var junkOps = []string{"+", "-", "*", "/", "<", ">", "<=", ">=", "=", "!=", "=~", "IN", "AND", "OR"}

type junkSig struct {
	n string
	a []string
}

var junkFns = []junkSig{{"dict", []string{"a", "b"}}, {"timestamp", []string{"epoch", "string"}}, {"split", []string{"string", "sep", "sep_string"}},
	{"get", []string{"item", "field", "member", "default"}}, {"encode", []string{"string", "type"}}, {"len", []string{"list"}},
	{"if", []string{"condition", "then", "else"}}, {"format", []string{"format", "args"}},
	{"jargs", []string{"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m"}}, {"jval", []string{"n"}}, {"nosuch", []string{"a"}}}

var junkPlugs = []junkSig{{"flatten", []string{"query"}}, {"foreach", []string{"row", "query", "column"}}, {"if", []string{"condition", "then", "else"}},
	{"chain", []string{"a", "b", "async"}}, {"nosuch", []string{"a"}}, {"range", []string{"start", "end", "step"}}}

type junker struct{ r *Rand }

func (j junker) value(d int) string {
	r := j.r
	if d <= 0 || r.P(30) {
		if r.P(20) {
			return fmt.Sprintf("jval(n=%d)", r.N(junkN))
		}
		if r.P(15) {
			// a nil of Go
			return r.Pick("(jval(n=6))[0]", "(jval(n=7)).a", "(jval(n=10)).a")
		}
		return r.Pick(junkVals...)
	}
	// (a subquery may not be an operand as it is)
	opnd := func() string {
		v := j.value(d - 1)
		if v[0] == '{' {
			return "get(item=" + v + ", member=" + r.Pick("'A'", "'0'", "'a'", "''", "0") + ")"
		}
		return v
	}
	switch r.N(14) {
	case 0, 1, 2, 3, 4:
		return "(" + opnd() + " " + r.Pick(junkOps...) + " " + opnd() + ")"
	case 5:
		return "(NOT " + opnd() + ")"
	case 6:
		return "(-" + opnd() + ")"
	case 7:
		return "(" + opnd() + ").a"
	case 8:
		return "(" + opnd() + ")[" + r.Pick(junkIdx...) + "]"
	case 9, 10:
		return j.call(junkFns, d-1)
	case 11:
		if r.P(5) {
			return "len(list={ SELECT * FROM range(start=9223372036854775800, end=9223372036854775807, step=" + r.Pick("1", "5", "7", "9", "4611686018427387904", "9223372036854775807") + ") })"
		}
		return "{ SELECT * FROM " + j.plug(d-1) + " LIMIT 4 }"
	case 12:
		return "{ SELECT " + j.value(d-1) + " AS A, " + j.value(d-1) + " AS B FROM " + j.plug(d-1) + " WHERE " + opnd() + " ORDER BY A LIMIT 3 }"
	}
	return "{ SELECT " + j.value(d-1) + " AS A, " + j.agg(d-1) + " AS B FROM " + j.plug(d-1) + " GROUP BY " + opnd() + " LIMIT 3 }"
}

func (j junker) agg(d int) string {
	f := j.r.Pick("count()", "sum(item=%)", "max(item=%)", "min(item=%)", "enumerate(items=%)", "%", "%")
	return strings.Replace(f, "%", j.value(d), 1)
}

func (j junker) plug(d int) string {
	if j.r.P(40) {
		return j.r.Pick("range(end=3)", "range(end=2)", "scope()", "nosuch")
	}
	return j.call(junkPlugs, d)
}

func (j junker) call(sigs []junkSig, d int) string {
	r := j.r
	s := sigs[r.N(len(sigs))]
	var a []string
	for _, n := range s.a {
		if r.P(20) || len(s.a) > 4 && r.P(60) {
			continue
		}
		v := j.value(d)
		switch {
		case s.n == "jval":
			v = fmt.Sprint(r.N(junkN))
		case s.n == "range" && n == "step":
			v = r.Pick("1", "2", "0", "-1", "NULL", "'a'")
		case s.n == "range":
			v = r.Pick("3", "0", "-2", "'a'", "NULL", "1.5", "'5'", "dict()")
		}
		if s.n == "flatten" {
			// (a time has a member for every method, several of them
			// lists: thousands of rows)
			v = strings.ReplaceAll(v, "jval(n=11)", "jval(n=12)")
		}
		a = append(a, n+"="+v)
	}
	if s.n == "range" && r.P(15) {
		// three rows near the end of the integers
		a = []string{"start=9223372036854775800", "end=9223372036854775807", "step=3"}
	}
	if s.n == "foreach" && r.P(30) {
		a = append(a, "workers="+r.Pick("-1", "0", "2", "NULL", "'a'"))
	}
	if r.P(4) {
		a = append(a, "zork=1")
	}
	return s.n + "(" + strings.Join(a, ", ") + ")"
}

// addJunk adds such columns to the last query of a program.
func addJunk(r *Rand, prog []*Stmt) {
	q := prog[len(prog)-1].Q
	for i := 0; i <= r.N(3); i++ {
		text := junker{r}.value(1 + r.N(3))
		if _, err := vfilter.Parse("SELECT " + text + " AS X FROM scope()"); err != nil {
			continue
		}
		q.Cols = append(q.Cols, &Col{E: &Expr{K: "junk", S: text}, As: fmt.Sprintf("JK%d", i)})
	}
}

func junkCol(n string) bool { return strings.HasPrefix(n, "JK") }

// ------------------------------------------------------------ odd values

type junkStruct struct {
	A int64
	b string
	C *junkStruct
	D []string
	E any
}

func (s *junkStruct) Me() *junkStruct { return nil }

const junkN = 16

func junkVal(n int64) any {
	var np *junkStruct
	var nm map[string]any
	var ns []any
	i5 := 5
	switch n {
	case 0:
		return nil
	case 1:
		return types.Null{}
	case 2:
		return &types.Null{}
	case 3:
		return np
	case 4:
		return nm
	case 5:
		return ns
	case 6:
		return []types.Any{nil}
	case 7:
		return ordereddict.NewDict().Set("a", nil).Set("b", []any{nil, 1, "x"})
	case 8:
		return junkStruct{A: 1, b: "x", D: []string{"q"}}
	case 9:
		return &junkStruct{C: &junkStruct{}}
	case 10:
		return map[string]any{"a": nil}
	case 11:
		return time.Unix(1, 0).UTC()
	case 12:
		return &i5
	case 13:
		return []byte("ab\xff")
	case 14:
		return []string{"x", "y"}
	}
	return uint8(7)
}

type jargsArgs struct {
	A string              `vfilter:"optional,field=a"`
	B []string            `vfilter:"optional,field=b"`
	C types.Any           `vfilter:"optional,field=c"`
	D []types.Any         `vfilter:"optional,field=d"`
	E int64               `vfilter:"optional,field=e"`
	F float64             `vfilter:"optional,field=f"`
	G bool                `vfilter:"optional,field=g"`
	H *ordereddict.Dict   `vfilter:"optional,field=h"`
	I types.LazyExpr      `vfilter:"optional,field=i"`
	J types.StoredQuery   `vfilter:"optional,field=j"`
	K types.LazyAny       `vfilter:"optional,field=k"`
	L uint64              `vfilter:"optional,field=l"`
	M []*ordereddict.Dict `vfilter:"optional,field=m"`
}

type jvalArgs struct {
	N int64 `vfilter:"optional,field=n"`
}

func junkFunctions() []types.FunctionInterface {
	return []types.FunctionInterface{
		&fnFunc{"jval", &jvalArgs{}, func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
			a := &jvalArgs{}
			if err := arg_parser.ExtractArgsWithContext(ctx, scope, args, a); err != nil {
				return nil
			}
			return junkVal(a.N)
		}},
		&fnFunc{"jargs", &jargsArgs{}, func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
			a := &jargsArgs{}
			if err := arg_parser.ExtractArgsWithContext(ctx, scope, args, a); err != nil {
				scope.Log("jargs: %v", err)
				return types.Null{}
			}
			if a.I != nil {
				a.I.Reduce(ctx)
			}
			if a.J != nil {
				n := 0
				sub, cancel := context.WithCancel(ctx)
				for range a.J.Eval(sub, scope) {
					if n++; n > 10 {
						break
					}
				}
				cancel()
			}
			switch {
			case a.B != nil:
				return a.B
			case a.D != nil:
				return a.D
			case a.M != nil:
				return a.M
			case a.H != nil:
				return a.H
			}
			return a.C
		}},
	}
}
