package h

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/Velocidex/ordereddict"
	"www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/marshal"
	"www.velocidex.com/golang/vfilter/types"
)

// ------------------------------------------------- ckval: the values of a checkpoint (C22)

// Ops: "def" S a definition, "host" S a name and A a value the host sets
// there, "ask" S a query. The restored scope has to answer each question as
// the original one does.
// P: twice (the checkpoint of the restored scope is restored), conc (the
// scope answers while the checkpoint is taken).

type hostVal struct{ N int64 }

func (h *hostVal) Marshal(scope types.Scope) (*types.MarshalItem, error) {
	b, err := json.Marshal(h.N)
	return &types.MarshalItem{Type: "HostVal", Data: b}, err
}

type hostValUnmarshaller struct{}

func (hostValUnmarshaller) Unmarshal(u types.Unmarshaller, scope types.Scope, item *types.MarshalItem) (any, error) {
	h := &hostVal{}
	err := json.Unmarshal(item.Data, &h.N)
	return h, err
}

const ckHostN = 14

func ckHost(n int64) any {
	switch n {
	case 0:
		return int64(1)<<62 + 1
	case 1:
		return uint64(1)<<63 + 5
	case 2:
		return "it's \"q\" \\ \n\t é 漢 \u2028 <&> "
	case 3:
		return true
	case 4:
		return -0.125
	case 5:
		return types.Null{}
	case 6:
		return []string{"x", "", "y'z"}
	case 7:
		return ordereddict.NewDict().Set("z", int64(1)).Set("a", ordereddict.NewDict().Set("y", []any{int64(1)<<53 + 1, "q"}).Set("b c", nil))
	case 8:
		return []any{int64(3), ordereddict.NewDict().Set("z", false).Set("a", 2.5), []any{}}
	case 9:
		return uint8(200)
	case 10:
		return ""
	case 11:
		return int32(-7)
	case 12:
		return []types.Row{ordereddict.NewDict().Set("X", int64(1)).Set("A", "r"), ordereddict.NewDict().Set("X", int64(2)).Set("A", "s")}
	}
	return ordereddict.NewDict()
}

var ckScalars = []string{"0", "1", "-5", "3", "9007199254740993", "-9007199254740993", "9223372036854775807", "1.5", "-1.25", "0.1", "''", "'a'", "'it\\'s'",
	"'\"q\" \\\\ é 漢'", "'line\\nbreak\\ttab'", "'2'", "'NULL'", "'{}'", "NULL", "TRUE", "FALSE", "0x1f"}

type ckGen struct{ r *Rand }

// lit: a literal; no numbers which are whole floats (see c22_float).
func (g ckGen) lit(d int) string {
	r := g.r
	if d <= 0 || r.P(45) {
		return r.Pick(ckScalars...)
	}
	n := r.N(4)
	var a []string
	if r.P(50) {
		for i := 0; i < n; i++ {
			a = append(a, g.lit(d-1))
		}
		switch n {
		case 0:
			return "dict()"
		case 1:
			return "(" + a[0] + ",)"
		}
		return "(" + strings.Join(a, ", ") + ")"
	}
	ks := []string{"z", "a", "`b c`", "c", "X", "`1`"}
	off := r.N(len(ks))
	for i := 0; i < n; i++ {
		a = append(a, ks[(off+i*5)%len(ks)]+"="+g.lit(d-1))
	}
	return "dict(" + strings.Join(a, ", ") + ")"
}

var ckAsks = []string{"%s", "%s + 1", "%s - 10", "%s * 2", "%s * 1.5", "%s / 4", "1 / %s", "-%s", "NOT %s", "%s < 3", "%s > 3", "%s >= 3", "%s = 2", "2 = %s", "%s != 'a'",
	"%s =~ '2'", "'2' =~ %s", "%s IN (1, 2, 'x', 5, 'a')", "1 IN %s", "'x' IN %s", "len(list=%s)", "%s.a", "%s.X", "%s.z", "%s.`b c`", "%s[0]", "%s[-1]", "%s[1].a", "%s.a.y[0] - 9007199254740992",
	"%s[0:1]", "%s + %s", "%s = %s", "if(condition=%s, then=1, else=2)", "get(item=%s, field='a')", "get(item=%s, member='a.y')",
	"{ SELECT * FROM %s }", "{ SELECT * FROM foreach(row=%s) }", "{ SELECT * FROM foreach(row=%s, query={ SELECT _value, X, a FROM scope() }) }", "dict(a=%s)", "%s + 'a'", "'a' + %s", "%s + (1, 2)",
	"%s * (1,2)", "'a' * %s", "%s < 'b'", "%s <= 5", "%s < 2.5", "%s = TRUE", "%s = NULL", "%s AND TRUE", "%s OR FALSE",
	"{ SELECT * FROM range(start=0, end=%s) LIMIT 3 }", "{ SELECT * FROM flatten(query={ SELECT %s AS Q FROM scope() }) }", "{ SELECT * FROM foreach(row=%s) ORDER BY X }",
	"{ SELECT count() AS C, X FROM foreach(row=%s) GROUP BY X }", "(%s, 1)", "%s - 9007199254740992", "%s - 9223372036854775800", "%s IN %s"}

// rows: questions about materialised rows, which are restored as a list.
var ckRowAsks = []string{"{ SELECT * FROM %s }", "%s.X", "%s[0]", "%s[1].X", "%s.X[0]", "len(list=%s)", "{ SELECT * FROM foreach(row=%s) }", "{ SELECT *, X AS Q FROM %s WHERE X }",
	"{ SELECT * FROM %s ORDER BY X LIMIT 2 }", "{ SELECT count() AS C, X FROM %s GROUP BY X }", "{ SELECT * FROM foreach(row=%s, query={ SELECT X, Y FROM scope() }) }", "if(condition=%s, then=1, else=2)", "dict(q=%s)"}

// nulls: about NULL, which is restored by leaving the name unset.
var ckNullAsks = []string{"%s", "%s = NULL", "NOT %s", "if(condition=%s, then=1, else=2)", "dict(a=%s)", "(%s, 1)", "%s + 1", "len(list=%s)", "%s AND TRUE", "%s OR 5", "%s < 1"}

func (g ckGen) ask(t []string, n string) string {
	return "SELECT " + strings.NewReplacer("%%", "%", "%s", n).Replace(g.r.Pick(t...)) + " AS X FROM scope()"
}

func genCkval(r *Rand, prop string, deep bool) *Scenario {
	g := ckGen{r}
	sc := &Scenario{P: map[string]int64{}}
	n := 1 + r.N(5)
	var names []string
	asks := map[string][]string{}
	for i := 0; i < n; i++ {
		nm := fmt.Sprintf("V%d", i)
		if r.P(15) {
			nm = fmt.Sprintf("`v %d`", i)
		} else if r.P(10) {
			nm = fmt.Sprintf("_v%d", i)
		}
		switch k := r.N(12); {
		case k < 5:
			sc.Ops = append(sc.Ops, Op{K: "def", S: "LET " + nm + " <= " + g.lit(3)})
		case k < 7:
			sc.Ops = append(sc.Ops, Op{K: "def", S: "LET " + nm + " = " + g.lit(3)})
		case k == 7 && nm[0] == 'V':
			sc.Ops = append(sc.Ops, Op{K: "def", S: "LET " + nm + "(p=" + g.lit(2) + ", q=" + g.lit(1) + ") = dict(X=p, a=q, z=" + g.lit(1) + ")"})
			nm += r.Pick("()", "(p=1)", "(q='w', p="+g.lit(2)+")")
		case k == 8:
			sc.Ops = append(sc.Ops, Op{K: "def", S: "LET " + nm + " = SELECT " + g.lit(2) + " AS X, _value AS Y FROM range(start=0, end=" + fmt.Sprint(1+r.N(4)) + ")"})
			asks[nm] = ckRowAsks
		case k == 9:
			sc.Ops = append(sc.Ops, Op{K: "def", S: "LET " + nm + " <= SELECT " + g.lit(2) + " AS X, _value AS Y, _value + " + r.Pick("9007199254740993", "1", "0.25") + " AS Z FROM range(start=0, end=" + fmt.Sprint(1+r.N(4)) + ")"})
			asks[nm] = ckRowAsks
		default:
			nm = fmt.Sprintf("H%d", i)
			sc.Ops = append(sc.Ops, Op{K: "host", S: nm, A: int64(r.N(ckHostN))})
		}
		names = append(names, nm)
		if o := sc.Ops[len(sc.Ops)-1]; strings.HasSuffix(o.S, "= NULL") || o.K == "host" && o.A == 5 {
			asks[nm] = ckNullAsks
		}
	}
	if r.P(20) {
		sc.Ops = append(sc.Ops, Op{K: "hostval", S: "HV", A: int64(r.N(1000))})
	}
	for i := 0; i < 6+r.N(20); i++ {
		nm := names[r.N(len(names))]
		t := asks[nm]
		if t == nil {
			t = ckAsks
		}
		q := g.ask(t, nm)
		if o := names[r.N(len(names))]; asks[nm] == nil && asks[o] == nil && r.P(25) {
			q = "SELECT " + nm + " " + r.Pick("+", "-", "*", "<", ">", "=", "!=", "IN", "AND") + " " + o + " AS X FROM scope()"
		}
		if _, err := vfilter.Parse(q); err == nil {
			sc.Ops = append(sc.Ops, Op{K: "ask", S: q})
		}
	}
	if r.P(30) {
		sc.P["twice"] = 1
	}
	if r.P(30) {
		sc.P["conc"] = 1
	}
	return sc
}

func makeCkval(r *Run) *Case {
	sc := r.Sc
	var defs, asks []*vfilter.VQL
	var qs []string
	host := ordereddict.NewDict()
	for _, o := range sc.Ops {
		switch o.K {
		case "host":
			host.Set(o.S, ckHost(o.A))
		case "hostval":
			host.Set(o.S, &hostVal{o.A})
		case "def", "ask":
			a, err := vfilter.Parse(o.S)
			if err != nil {
				undefined("does not parse")
			}
			if o.K == "def" {
				defs = append(defs, a)
			} else {
				asks, qs = append(asks, a), append(qs, o.S)
			}
		}
	}
	type answers [][]string
	var all []answers
	var hv []any
	ask := func(scope types.Scope) answers {
		var res answers
		for _, a := range asks {
			res = append(res, r.eval(scope, a, true).strs())
		}
		return res
	}
	// take makes a checkpoint, restore a scope of it
	take := func(scope types.Scope) string {
		it, err := marshal.Marshal(scope, scope)
		if err != nil {
			r.Failf("checkpoint: %v", err)
			return ""
		}
		b, err := json.Marshal(it)
		if err != nil {
			r.Failf("checkpoint: %v", err)
		}
		return string(b)
	}
	restore := func(b string) types.Scope {
		it := &types.MarshalItem{}
		if err := json.Unmarshal([]byte(b), it); err != nil {
			r.Failf("restore: a complete checkpoint does not decode: %v", err)
			return nil
		}
		u := vfilter.NewUnmarshaller(nil)
		u.RegisterHandler("HostVal", hostValUnmarshaller{})
		v, err := u.Unmarshal(u, r.W.NewScope(), it)
		if err != nil {
			r.Failf("restore: a complete checkpoint cannot be restored: %v", err)
			return nil
		}
		s, ok := v.(types.Scope)
		if !ok {
			r.Failf("restore: got a %T", v)
		}
		return s
	}
	return &Case{
		Body: func() {
			r.ctx, r.cancel = newCtx()
			scope := r.W.NewScope()
			if host.Len() > 0 {
				scope.AppendVars(host)
			}
			for _, d := range defs {
				r.eval(scope, d, true)
			}
			b := ""
			if sc.P["conc"] != 0 {
				done := make(chan bool, 1)
				go func() {
					b = take(scope)
					done <- true
				}()
				all = append(all, ask(scope))
				<-done
			} else {
				b = take(scope)
			}
			all = append(all, ask(scope))
			n := 1
			if sc.P["twice"] != 0 {
				n = 2
			}
			for i := 0; i < n && len(r.Fails) == 0; i++ {
				s := restore(b)
				if s == nil {
					break
				}
				if v, pres := s.Resolve("HV"); pres {
					hv = append(hv, v)
				} else if _, pres := host.Get("HV"); pres {
					hv = append(hv, nil)
				}
				all = append(all, ask(s))
				b = take(s)
				s.Close()
			}
			scope.Close()
			r.cancel()
			r.settle()
		},
		Check: func() {
			want, _ := host.Get("HV")
			for _, v := range hv {
				if h, ok := v.(*hostVal); !ok || *h != *want.(*hostVal) {
					r.Failf("restore: the host's own value came back as %#v", v)
				}
			}
			for i := 1; i < len(all); i++ {
				for j := range all[0] {
					a, b := strings.Join(all[0][j], " "), strings.Join(all[i][j], " ")
					if a != b {
						r.Failf("rows: %s: the original scope answered\n  %s\nlater or restored (%d)\n  %s", qs[j], a, i, b)
						return
					}
				}
			}
			probe("ckval: answers compared")
		},
	}
}

func init() { kind(&Kind{Name: "ckval", Gen: genCkval, Make: makeCkval}) }
