package h

import (
	"fmt"
	"slices"
	"sort"
	"strings"
)

// Rand is a small seeded generator (splitmix64).
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{seed*0x9e3779b97f4a7c15 + 0x1234567} }

func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rand) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// P is true with probability pct/100.
func (r *Rand) P(pct int) bool { return r.N(100) < pct }

func (r *Rand) Pick(s ...string) string { return s[r.N(len(s))] }

type gcol struct {
	n string
	t byte // i int, s string, z nullable string, l list of ints (2..3), d dict{a:i,b:s}, h handle, o opaque
}

type glet struct {
	n      string
	fn     bool // expression, else query
	called bool
	params []gcol
	nd     int // number of params with defaults (the last ones)
	needs  []gcol
	cols   []gcol // query schema
	t      byte   // expression type
	mat    bool
	agg    bool
}

// GOpts selects the features a generated program may use.
type GOpts struct {
	Lets     int
	Depth    int
	Workers  bool
	Limit    bool
	Order    bool
	Group    bool
	Handles  bool
	Mat      bool
	Sub      bool // subselects in columns
	Fx       int  // percentage of effectful wrappers
	Calls    bool // stored functions / queries with parameters
	Foreach  bool
	Null     bool
	MaxRows  int
	Floats   bool // columns of numbers with halves more often
	Big      int  // rows of the first table of a large scenario
	Broken   bool // faulty parts (unknown functions, early ends)
	LazyRows bool
	Cancel   bool // programs are cancelled (see the known findings of C08)
	Host     bool // functions and plugins that differ between scopes
	Alts     int  // alternative definitions of every LET
}

type gen struct {
	r      *Rand
	o      GOpts
	id     int
	tables map[string]*Table
	tnames []string
	lets   []*glet
	inagg  bool // inside a GROUP BY column
	nosub  int
	alts   [][]*Stmt // by scope
	track  *[]gcol   // free variables used, when generating the body of a LET
	bound  []gcol
}

type genv []gcol

func (e genv) has(c gcol) bool {
	for _, x := range e {
		if x == c {
			return true
		}
	}
	return false
}

func (e genv) with(cs []gcol) genv {
	out := append(genv{}, e...)
	for _, c := range cs {
		if !out.has(c) {
			out = append(out, c)
		}
	}
	return out
}

func (e genv) of(t byte) []gcol {
	var r []gcol
	for _, c := range e {
		if c.t == t {
			r = append(r, c)
		}
	}
	return r
}

func (g *gen) next(p string) string {
	g.id++
	return fmt.Sprintf("%s%d", p, g.id)
}

// ColType gives the type a column name stands for.
func ColType(n string) byte {
	switch n[0] {
	case 'A', 'B', 'C', 'I', '_':
		return 'i'
	case 'S', 'T':
		return 's'
	case 'Z':
		return 'z'
	case 'N':
		return 'n'
	case 'F':
		return 'f'
	case 'L':
		return 'l'
	case 'D':
		return 'd'
	case 'H':
		return 'h'
	}
	return 'o'
}

func (g *gen) genTables(n int) {
	for i := 0; i < n; i++ {
		words := []string{"a", "b", "c", "aa", "ab", "ba", "a b", "b a", "b b"}
		zs := []string{"a", "b", "c", "a b", "b b"}
		few := int64(4)
		if g.r.P(map[bool]int{true: 60, false: 25}[g.o.Group]) {
			// the same ones again and again
			k := g.r.N(6)
			words, zs, few = words[k:k+2+g.r.N(2)], zs[k/2:k/2+2], 2
		}
		if g.r.N(12) == 0 {
			// long ones that differ at the end, in the middle or in length
			l := strings.Repeat("ab", 8<<g.r.N(5))
			words = []string{l, l + "a", l + "b", "b" + l, l[:len(l)/2] + "b" + l[len(l)/2+1:], l + l}
		}
		name := fmt.Sprintf("t%d", i)
		t := &Table{}
		cols := []string{"A"}
		spaced := g.r.P(25)
		for _, c := range []string{"B", "S", "T", "Z", "N", "F", "Sb"} {
			if c == "Sb" && !spaced {
				continue
			}
			if (c == "Z" || c == "N") && !g.o.Null || c == "N" && g.r.P(40) || c == "F" && g.r.P(70) && !(g.o.Floats && g.r.P(50)) {
				continue
			}
			if g.r.P(60) || c == "S" && len(cols) == 1 {
				cols = append(cols, c)
			}
		}
		t.Cols = cols
		nullF := g.o.Null && g.r.P(30)
		rows := g.r.N(g.o.MaxRows + 1)
		if i == 0 && rows < 2 {
			rows = 2 + g.r.N(g.o.MaxRows-1)
		}
		if i == 0 && g.o.Big > 0 {
			rows = g.o.Big
		}
		perm := make([]int, rows)
		for k := range perm {
			perm[k] = k
		}
		for k := rows - 1; k > 0; k-- {
			j := g.r.N(k + 1)
			perm[k], perm[j] = perm[j], perm[k]
		}
		if g.o.Order && rows > 2 && g.r.P(35) {
			// in some order already, but for one
			sort.Ints(perm)
			switch g.r.N(4) {
			case 0:
				slices.Reverse(perm)
			case 1:
				for k := range perm {
					perm[k] = min(2*k, 2*(rows-k)-1)
				}
			}
			if g.r.P(70) {
				j, v := g.r.N(rows), perm[rows-1]
				copy(perm[j+1:], perm[j:rows-1])
				perm[j] = v
				if g.r.P(50) {
					// the first one last
					v := perm[0]
					copy(perm, perm[1:])
					perm[rows-1] = v
				}
			}
		}
		for k := 0; k < rows; k++ {
			var row []any
			for _, c := range cols {
				switch c {
				case "A":
					row = append(row, int64(perm[k]))
				case "B":
					row = append(row, int64(g.r.N(int(few))))
				case "S", "Sb":
					if spaced {
						row = append(row, []string{"a", "b", "a b", "b b"}[g.r.N(4)])
					} else {
						row = append(row, words[g.r.N(len(words))])
					}
				case "T":
					row = append(row, fmt.Sprintf("k%02d", (perm[k]*7)%97))
				case "Z":
					if g.r.P(35) {
						if g.r.P(40) {
							row = append(row, hole)
						} else {
							row = append(row, nil)
						}
					} else {
						row = append(row, zs[g.r.N(len(zs))])
					}
				case "F":
					if k := int64(g.r.N(10) - 3); nullF && k < -1 {
						row = append(row, nil)
					} else if k%2 == 0 {
						row = append(row, k/2)
					} else {
						row = append(row, float64(k)/2)
					}
				case "N":
					switch {
					case g.r.P(15):
						row = append(row, hole)
					case g.r.P(20):
						row = append(row, nil)
					default:
						row = append(row, int64(g.r.N(5)))
					}
				}
			}
			t.Rows = append(t.Rows, row)
		}
		if g.o.Handles && g.r.P(40) {
			t.Res = true
		}
		if g.o.LazyRows && g.r.P(40) {
			t.Lazy = true
		}
		if g.o.Broken && g.r.P(25) && rows > 1 {
			t.EndAt = 1 + g.r.N(rows-1)
		}
		g.tables[name] = t
		g.tnames = append(g.tnames, name)
	}
}

func (g *gen) tcols(n string) []gcol {
	t := g.tables[n]
	var r []gcol
	for _, c := range t.Cols {
		r = append(r, gcol{c, ColType(c)})
	}
	if t.Res {
		r = append(r, gcol{"H", 'h'})
	}
	return r
}

func eint(i int64) *Expr  { return &Expr{K: "int", I: i} }
func estr(s string) *Expr { return &Expr{K: "str", S: s} }
func evar(s string) *Expr { return &Expr{K: "var", S: s} }

// brackets writes some of the lists among arguments as [a, b].
func (g *gen) brackets(a []*Expr) {
	for _, e := range a {
		if e.K == "list" && len(e.A) > 1 && g.r.P(40) {
			e.S = "["
		}
	}
}

func ecall(f string, kv ...any) *Expr {
	e := &Expr{K: "call", S: f}
	for i := 0; i+1 < len(kv); i += 2 {
		e.N = append(e.N, kv[i].(string))
		e.A = append(e.A, kv[i+1].(*Expr))
	}
	return e
}

func (g *gen) use(c gcol) *Expr {
	if g.track != nil {
		for _, b := range g.bound {
			if b == c {
				return evar(c.n)
			}
		}
		*g.track = append(*g.track, c)
	}
	return evar(c.n)
}

func (g *gen) usable(l *glet, env genv) bool {
	for _, c := range l.needs {
		if !env.has(c) {
			return false
		}
	}
	return true
}

func (g *gen) needs(l *glet) {
	for _, c := range l.needs {
		g.use(c)
	}
}

func (g *gen) fx(e *Expr) *Expr {
	if g.o.Cancel && g.r.P(3) {
		return ecall("fhang", "v", e, "tag", estr(g.next("f")))
	}
	if g.r.P(g.o.Fx) {
		c := ecall("fx", "v", e, "tag", estr(g.next("f")))
		g.brackets(c.A)
		return c
	}
	return e
}

// the columns of a query given as an argument
var qpCols = []gcol{{"A", 'i'}, {"S", 's'}}

// queries splits the arguments which are queries from the others.
func queries(a []*Expr) (out []*Expr, qs []*Query) {
	out = append(out, a...)
	for i, e := range a {
		if e.K == "sub" {
			if qs == nil {
				qs = make([]*Query, len(a))
			}
			qs[i] = e.Q
			out[i] = eint(0)
		}
	}
	return
}

// arg generates an argument: lists are new, so that they may be written [].
func (g *gen) arg(env genv, t byte, d int) *Expr {
	if t == 'q' {
		if vs := env.of('q'); len(vs) > 0 && g.r.P(40) {
			return g.use(vs[g.r.N(len(vs))])
		}
		return &Expr{K: "sub", Q: g.queryFor(env, min(d, 1), qpCols)}
	}
	if t == 'l' && g.r.P(60) {
		return &Expr{K: "list", A: []*Expr{g.expr(env, 'i', d-1), g.expr(env, 'i', d-1)}}
	}
	return g.expr(env, t, d)
}

// expr generates an expression of a type.
func (g *gen) expr(env genv, t byte, d int) *Expr {
	if d > 0 && g.r.P(12) {
		// stored expression
		var cand []*glet
		for _, l := range g.lets {
			if l.fn && l.t == t && g.usable(l, env) {
				cand = append(cand, l)
			}
		}
		if len(cand) > 0 {
			l := cand[g.r.N(len(cand))]
			g.needs(l)
			if !l.called {
				return evar(l.n)
			}
			e := &Expr{K: "call", S: l.n}
			for i, p := range l.params {
				if i >= len(l.params)-l.nd && g.r.P(50) {
					continue
				}
				e.N = append(e.N, p.n)
				e.A = append(e.A, g.arg(env, p.t, d-1))
			}
			if len(e.N) == 0 {
				e.N = append(e.N, l.params[0].n)
				e.A = append(e.A, g.arg(env, l.params[0].t, d-1))
			}
			e.N, e.A = g.misfit(e.N, e.A)
			g.brackets(e.A)
			e.A, e.Qs = queries(e.A)
			return e
		}
	}
	if d > 0 && g.r.P(8) && t != 'h' && t != 'o' && t != 'z' {
		return ecall("if", "condition", g.cond(env, d-1), "then", g.expr(env, t, d-1), "else", g.expr(env, t, d-1))
	}
	switch t {
	case 'i':
		vs := env.of('i')
		if len(vs) > 0 && g.r.P(4) {
			v := g.use(vs[g.r.N(len(vs))])
			return &Expr{K: "neg", S: v.S}
		}
		switch k := g.r.N(10); {
		case k < 5 && len(vs) > 0:
			return g.fx(g.use(vs[g.r.N(len(vs))]))
		case k < 8 && d > 0:
			return g.fx(&Expr{K: "op", S: g.r.Pick("+", "-", "*", "+"), A: []*Expr{g.expr(env, 'i', d-1), g.expr(env, 'i', d-1)}})
		case k == 8 && d > 0:
			if vs := env.of('q'); len(vs) > 0 && g.r.P(50) {
				return ecall("len", "list", g.use(vs[g.r.N(len(vs))]))
			}
			switch g.r.N(4) {
			case 0:
				return ecall("len", "list", g.expr(env, 'l', d-1))
			case 1:
				return &Expr{K: "member", S: "a", A: []*Expr{g.expr(env, 'd', d-1)}}
			case 2:
				l := g.expr(env, 'l', d-1)
				if l.K != "var" {
					l = ecall("fx", "v", l, "tag", estr(g.next("f")))
				}
				if g.r.P(40) {
					return &Expr{K: "index", A: []*Expr{l, g.expr(env, 'i', d-1)}}
				}
				return &Expr{K: "index", I: int64(g.r.N(2)), A: []*Expr{l}}
			default:
				return ecall("get", "item", g.expr(env, 'd', d-1), "member", estr("a"))
			}
		}
		if len(vs) > 0 && g.r.P(50) {
			return g.use(vs[g.r.N(len(vs))])
		}
		return g.fx(eint(int64(g.r.N(6))))
	case 's':
		vs := env.of('s')
		switch k := g.r.N(10); {
		case k < 5 && len(vs) > 0:
			return g.fx(g.use(vs[g.r.N(len(vs))]))
		case k < 7 && d > 0:
			return g.fx(&Expr{K: "op", S: "+", A: []*Expr{g.expr(env, 's', d-1), g.expr(env, 's', d-1)}})
		case k == 8 && d > 0:
			return &Expr{K: "member", S: "b", A: []*Expr{g.expr(env, 'd', d-1)}}
		}
		return g.fx(estr(g.r.Pick("a", "b", "q", "zz")))
	case 'f':
		vs := env.of('f')
		if len(vs) > 0 && g.r.P(80) {
			return g.fx(g.use(vs[g.r.N(len(vs))]))
		}
		return g.expr(env, 'i', d)
	case 'z':
		vs := env.of('z')
		if len(vs) > 0 && g.r.P(70) {
			return g.fx(g.use(vs[g.r.N(len(vs))]))
		}
		if g.r.P(40) {
			if g.o.Broken && g.r.P(50) {
				return ecall("fnil", "tag", estr(g.next("n")))
			}
			return &Expr{K: "null"}
		}
		return g.expr(env, 's', d)
	case 'l':
		vs := env.of('l')
		if len(vs) > 0 && g.r.P(60) {
			return g.use(vs[g.r.N(len(vs))])
		}
		if d > 0 && g.r.P(10) {
			e := &Expr{K: "slice", S: g.r.Pick("se", "s", "e"), A: []*Expr{g.expr(env, 'l', d-1)}}
			for range e.S {
				e.A = append(e.A, g.expr(env, 'i', d-1))
			}
			return e
		}
		e := &Expr{K: "list"}
		for i := 0; i < 2+g.r.N(2); i++ {
			e.A = append(e.A, g.expr(env, 'i', d-1))
		}
		return e
	case 'h':
		return ecall("open", "tag", estr(g.next("h")))
	case 'd':
		vs := env.of('d')
		if len(vs) > 0 && g.r.P(60) {
			return g.use(vs[g.r.N(len(vs))])
		}
		return ecall("dict", "a", g.expr(env, 'i', d-1), "b", g.expr(env, 's', d-1))
	}
	panic("gen expr type")
}

func (g *gen) cond(env genv, d int) *Expr {
	k := g.r.N(10)
	if d <= 0 {
		k = g.r.N(5)
	}
	switch {
	case k < 3:
		t := byte('i')
		ops := []string{"=", "!=", "<", ">", "<=", ">="}
		if g.r.P(35) {
			t = 's'
			ops = []string{"=", "!=", "<", ">"}
		} else if len(env.of('f')) > 0 && g.r.P(40) {
			t = 'f'
		}
		return &Expr{K: "cmp", S: g.r.Pick(ops...), A: []*Expr{g.expr(env, t, d-1), g.expr(env, t, d-1)}}
	case k == 3:
		e := &Expr{K: "in", A: []*Expr{g.expr(env, 'i', d-1)}}
		for i := 0; i < 2+g.r.N(2); i++ {
			e.A = append(e.A, g.expr(env, 'i', d-1))
		}
		return e
	case k == 4:
		if g.r.P(30) {
			return &Expr{K: "cmp", S: "=~", A: []*Expr{g.expr(env, 's', d-1), estr(g.r.Pick("a", "^b", ".", "a$"))}}
		}
		if g.r.P(30) {
			return &Expr{K: "bool", I: int64(g.r.N(2))}
		}
		if g.o.Null && g.r.P(40) {
			return g.expr(env, 'z', d-1)
		}
		return g.expr(env, 'i', d-1)
	case k < 7:
		e := &Expr{K: "and", A: []*Expr{g.cond(env, d-1), g.cond(env, d-1)}}
		if g.r.P(20) {
			e.A = append(e.A, g.cond(env, d-1))
		}
		return e
	case k < 9:
		e := &Expr{K: "or", A: []*Expr{g.cond(env, d-1), g.cond(env, d-1)}}
		if g.r.P(20) {
			e.A = append(e.A, g.cond(env, d-1))
		}
		return e
	}
	return &Expr{K: "not", A: []*Expr{g.cond(env, d-1)}}
}

// source generates a row source and the columns it has.
func (g *gen) source(env genv, d int) (*Source, []gcol) {
	for try := 0; try < 20; try++ {
		k := g.r.N(100)
		switch {
		case k < 40 || d <= 0:
			if vs := env.of('q'); len(vs) > 0 && g.r.P(25) {
				return &Source{K: "name", S: g.use(vs[g.r.N(len(vs))]).S}, qpCols
			}
			return g.leaf(env, d)
		case k < 60:
			if vs := env.of('q'); len(vs) > 0 && g.r.P(50) {
				return &Source{K: "name", S: g.use(vs[g.r.N(len(vs))]).S}, qpCols
			}
			// stored or materialised query
			var cand []*glet
			for _, l := range g.lets {
				if !l.fn && g.usable(l, env) {
					cand = append(cand, l)
				}
			}
			if len(cand) == 0 {
				continue
			}
			l := cand[g.r.N(len(cand))]
			g.needs(l)
			if !l.called {
				return &Source{K: "name", S: l.n}, l.cols
			}
			s := &Source{K: "lcall", S: l.n}
			for i, p := range l.params {
				if i >= len(l.params)-l.nd && g.r.P(50) {
					continue
				}
				s.N = append(s.N, p.n)
				s.A = append(s.A, g.arg(env, p.t, 1))
			}
			if n := len(s.N); n > 0 {
				s.N, s.A = g.misfit(s.N, s.A)
				g.brackets(s.A)
				s.A, s.Qs = queries(s.A)
			}
			return s, l.cols
		case k < 78 && g.o.Foreach:
			s := &Source{K: "foreach"}
			var rowcols []gcol
			if g.r.P(15) {
				s.RowE = g.expr(env, 'l', 1)
				rowcols = []gcol{{"_value", 'i'}}
			} else {
				var q *Query
				q, rowcols = g.query(env, d-1, qopt{small: true})
				s.Row = q
				for _, c := range rowcols {
					if c.t == 'd' && g.r.P(50) {
						// the dict in that column is the row
						s.Column = c.n
						rowcols = []gcol{{"a", 'i'}, {"b", 's'}}
						break
					}
				}
			}
			if g.r.P(8) && s.Row != nil {
				return s, rowcols
			}
			body, cols := g.query(env.with(rowcols), d-1, qopt{small: true})
			s.Body = body
			if g.o.Workers && g.r.P(50) {
				s.Workers = int64(2 + g.r.N(4))
				if g.r.P(15) {
					s.Workers, s.Async = 0, true
				}
			} else if g.r.P(10) {
				s.Workers = 1
			}
			return s, cols
		case k < 86:
			s := &Source{K: "if", A: []*Expr{g.cond(env, 2)}}
			q, cols := g.query(env, d-1, qopt{})
			s.Body = q
			if g.r.P(80) {
				s.Else = g.queryFor(env, d-1, cols)
			}
			return s, cols
		case k < 94:
			s := &Source{K: "chain"}
			q, cols := g.query(env, d-1, qopt{small: true})
			s.Qs = append(s.Qs, q)
			for i := 0; i < 1+g.r.N(2); i++ {
				s.Qs = append(s.Qs, g.queryFor(env, d-1, cols))
			}
			return s, cols
		case k < 97:
			src, sc := g.leaf(env, d)
			e2 := env.with(sc)
			q := &Query{From: src}
			i1, i2 := g.next("I"), g.next("I")
			q.Cols = []*Col{{E: g.expr(e2, 'i', 1), As: i1}, {E: g.expr(e2, 'l', 1), As: i2}}
			return &Source{K: "flatten", Body: q}, []gcol{{i1, 'i'}, {i2, 'i'}}
		}
	}
	return g.leaf(env, d)
}

func (g *gen) leaf(env genv, d int) (*Source, []gcol) {
	if g.o.Broken && g.r.P(8) {
		return &Source{K: "bad", S: badSources[g.r.N(len(badSources))]}, []gcol{{"A", 'i'}, {"S", 's'}}
	}
	if g.o.Host && g.r.P(20) {
		return &Source{K: "hp", S: "hp"}, []gcol{{"A", 'i'}, {"S", 's'}}
	}
	if g.r.P(20) {
		s := &Source{K: "range", S: "range", N: []string{"start", "end"}, A: []*Expr{eint(int64(g.r.N(3))), eint(int64(g.r.N(5)))}}
		if vs := env.of('i'); len(vs) > 0 && g.r.P(30) {
			s.A[0] = g.use(vs[g.r.N(len(vs))])
		}
		return s, []gcol{{"_value", 'i'}}
	}
	n := g.tnames[g.r.N(len(g.tnames))]
	s := &Source{K: "src", S: "src", N: []string{"t", "tag"}, A: []*Expr{estr(n), estr(g.next("s"))}}
	if g.r.P(25) {
		s.N = append(s.N, "base")
		s.A = append(s.A, g.expr(env, 'i', 1))
	}
	return s, g.tcols(n)
}

type qopt struct {
	small bool // used per row elsewhere
	top   bool
}

func unhandled(cols []gcol) bool {
	for _, c := range cols {
		if c.t == 'h' || c.t == 'o' {
			return false
		}
	}
	return true
}

// query generates a query and its columns.
func (g *gen) query(env genv, d int, o qopt) (*Query, []gcol) {
	src, cols := g.source(env, d)
	q := &Query{From: src}
	e2 := env.with(cols)
	save := g.bound
	defer func() { g.bound = save }()
	g.bound = append(append([]gcol{}, g.bound...), cols...)
	if g.o.Group && g.r.P(18) && len(cols) > 0 && unhandled(cols) {
		return g.groupQuery(q, env, cols, d)
	}
	var out []gcol
	if g.r.P(30) && unhandled(cols) {
		q.Cols = append(q.Cols, &Col{Star: true})
		out = append(out, cols...)
	} else if g.r.P(50) {
		for _, c := range cols {
			if c.t != 'h' && c.t != 'o' && g.r.P(60) {
				q.Cols = append(q.Cols, &Col{E: evar(c.n)})
				out = append(out, c)
			}
		}
	}
	n := g.r.N(3)
	if len(q.Cols) == 0 {
		n++
	}
	for i := 0; i < n; i++ {
		q.Cols = append(q.Cols, g.col(e2, d, &out, o))
	}
	for _, c := range cols {
		if c.t == 'h' {
			q.Cols = append(q.Cols, &Col{E: ecall("use", "h", evar("H"), "tag", estr(g.next("u"))), As: g.next("S")})
			out = append(out, gcol{q.Cols[len(q.Cols)-1].As, 's'})
		}
	}
	if g.r.P(45) {
		aliases := genv{}
		for _, c := range q.Cols {
			if c.As != "" {
				aliases = append(aliases, gcol{c.As, ColType(c.As)})
			}
		}
		b2 := g.bound
		g.bound = append(append([]gcol{}, g.bound...), aliases...)
		q.Where = g.cond(genv(e2.with(aliases)), 2)
		g.bound = b2
	}
	g.orderLimit(q, out, o)
	return q, out
}

func (g *gen) orderLimit(q *Query, out []gcol, o qopt) {
	if g.o.Order && g.r.P(20) {
		var c []gcol
		for _, x := range out {
			if x.t == 'i' || x.t == 's' || x.t == 'z' || x.t == 'n' || x.t == 'f' {
				c = append(c, x)
			}
		}
		if len(c) > 0 {
			q.Order = c[g.r.N(len(c))].n
			q.Desc = g.r.P(50)
		}
	}
	if g.o.Limit && g.r.P(20) {
		n := int64(g.r.N(5))
		q.Limit = &n
	}
}

// col generates a new column and appends it to the schema.
func (g *gen) col(env genv, d int, out *[]gcol, o qopt) *Col {
	t := []byte("iiissszld")[g.r.N(9)]
	if t == 'z' && !g.o.Null {
		t = 's'
	}
	if t == 'i' && len(env.of('f')) > 0 && g.r.P(30) {
		t = 'f'
	}
	if g.o.Handles && g.r.P(25) {
		tag := g.next("h")
		as := g.next("S")
		*out = append(*out, gcol{as, 's'})
		return &Col{E: ecall("use", "h", ecall("open", "tag", estr(tag)), "tag", estr(g.next("u"))), As: as}
	}
	if g.o.Sub && d > 0 && g.r.P(15) && g.nosub == 0 {
		g.nosub++
		q, _ := g.query(env, 1, qopt{small: true})
		g.nosub--
		as := g.next("X")
		*out = append(*out, gcol{as, 'o'})
		return &Col{E: &Expr{K: "sub", Q: q}, As: as}
	}
	if g.o.Sub && d > 0 && g.r.P(5) {
		// a stored or materialised query as a value
		var cand []*glet
		for _, l := range g.lets {
			if !l.fn && !l.called && g.usable(l, env) {
				cand = append(cand, l)
			}
		}
		if len(cand) > 0 {
			l := cand[g.r.N(len(cand))]
			g.needs(l)
			as := g.next("X")
			*out = append(*out, gcol{as, 'o'})
			e := evar(l.n)
			if g.r.P(40) && len(l.cols) > 0 && !g.o.Cancel {
				e = &Expr{K: "member", S: l.cols[g.r.N(len(l.cols))].n, A: []*Expr{e}}
			}
			return &Col{E: e, As: as}
		}
	}
	if g.o.Broken && g.r.P(10) {
		as := g.next("X")
		*out = append(*out, gcol{as, 'o'})
		return &Col{E: g.bad(), As: as}
	}
	if g.o.Host && g.r.P(12) {
		as := g.next("X")
		*out = append(*out, gcol{as, 'o'})
		return &Col{E: ecall("hf", "v", g.expr(env, 'i', 1)), As: as}
	}
	as := g.next(map[byte]string{'i': "I", 's': "S", 'z': "Z", 'l': "L", 'd': "D", 'f': "F"}[t])
	*out = append(*out, gcol{as, t})
	return &Col{E: g.expr(env, t, 2), As: as}
}

// queryFor generates a query with given columns.
func (g *gen) queryFor(env genv, d int, want []gcol) *Query {
	src, cols := g.source(env, d)
	q := &Query{From: src}
	e2 := env.with(cols)
	save := g.bound
	defer func() { g.bound = save }()
	g.bound = append(append([]gcol{}, g.bound...), cols...)
	for _, c := range want {
		t := c.t
		if t == 'o' || t == 'h' || t == 'n' {
			t = 'i'
		}
		q.Cols = append(q.Cols, &Col{E: g.expr(e2, t, 1), As: c.n})
	}
	if len(want) == 0 {
		q.Cols = append(q.Cols, &Col{E: eint(1), As: g.next("I")})
	}
	if g.r.P(40) {
		q.Where = g.cond(e2, 1)
	}
	return q
}

func (g *gen) groupQuery(q *Query, env genv, cols []gcol, d int) (*Query, []gcol) {
	e2 := env.with(cols)
	var out []gcol
	nk := 1
	if g.r.P(30) {
		nk = 2
	}
	aliases := genv{}
	if genv(cols).has(gcol{"S", 's'}) && genv(cols).has(gcol{"Sb", 's'}) && g.r.P(50) {
		nk = 0
		q.Group = []*Expr{evar("S"), evar("Sb")}
		q.Cols = append(q.Cols, &Col{E: evar("S")})
		out = append(out, gcol{"S", 's'})
	}
	for i := 0; i < nk; i++ {
		if g.r.P(60) {
			t := byte('i')
			if g.r.P(40) {
				t = 's'
			} else if g.o.Null && g.r.P(30) {
				t = 'z'
			}
			as := g.next(map[byte]string{'i': "I", 's': "S", 'z': "Z"}[t])
			e := g.expr(e2, t, 1)
			if t == 'i' && g.r.P(40) {
				// few groups of many rows
				b := genv(cols).of('i')
				if len(b) > 0 && g.r.P(60) {
					e = evar(b[g.r.N(len(b))].n)
					e = ecall("if", "condition", &Expr{K: "op", S: "<", A: []*Expr{e, eint(int64(g.r.N(5)))}}, "then", eint(1), "else", eint(int64(g.r.N(3))))
				} else {
					e = ecall("if", "condition", g.cond(e2, 1), "then", eint(1), "else", eint(0))
				}
			} else if t == 's' && g.r.P(25) {
				for _, x := range []string{"S", "Sb"} {
					if genv(cols).has(gcol{x, 's'}) {
						e = evar(x)
					}
				}
			}
			q.Cols = append(q.Cols, &Col{E: e, As: as})
			out = append(out, gcol{as, t})
			aliases = append(aliases, gcol{as, t})
			q.Group = append(q.Group, evar(as))
		} else {
			var c []gcol
			for _, x := range cols {
				if x.t == 'i' || x.t == 's' || x.t == 'z' || x.t == 'f' {
					c = append(c, x)
				}
			}
			if len(c) == 0 {
				q.Group = append(q.Group, eint(1))
				continue
			}
			x := c[g.r.N(len(c))]
			for k := 0; k < 3 && (x.n == "A" || x.n == "T" || x.n == "_value"); k++ {
				x = c[g.r.N(len(c))] // rather not one group for every row
			}
			q.Group = append(q.Group, evar(x.n))
			dup := false
			for _, y := range out {
				dup = dup || y == x
			}
			if g.r.P(70) && !dup {
				q.Cols = append(q.Cols, &Col{E: evar(x.n)})
				out = append(out, x)
			}
		}
	}
	for i := 0; i < 1+g.r.N(3); i++ {
		var e *Expr
		t, ti := byte('i'), byte('i')
		if len(e2.of('f')) > 0 && g.r.P(50) {
			ti = 'f'
		}
		switch g.r.N(6) {
		case 0:
			e = ecall("count")
		case 1:
			e = ecall("sum", "item", g.expr(e2, 'i', 1))
		case 2:
			e, t = g.extreme("min", e2, ti)
		case 3:
			e, t = g.extreme("max", e2, ti)
		case 4:
			e = ecall("enumerate", "items", g.expr(e2, []byte("is")[g.r.N(2)], 1))
			t = 'o'
		case 5:
			e = g.expr(e2, 'i', 1)
		}
		if t == 'i' && g.r.P(15) {
			e = &Expr{K: "op", S: "+", A: []*Expr{e, ecall("sum", "item", g.expr(e2, 'i', 0))}}
		}
		as := g.next(map[byte]string{'i': "I", 'o': "X", 'f': "F", 'n': "N"}[t])
		q.Cols = append(q.Cols, &Col{E: e, As: as})
		out = append(out, gcol{as, t})
	}
	if g.r.P(40) {
		b2 := g.bound
		g.bound = append(append([]gcol{}, g.bound...), aliases...)
		q.Where = g.cond(genv(e2.with(aliases)), 1)
		g.bound = b2
	}
	g.orderLimit(q, out, qopt{})
	return q, out
}

// extreme: min() or max(), also of items some of which are NULL.
func (g *gen) extreme(fn string, env genv, t byte) (*Expr, byte) {
	if n := env.of('n'); len(n) > 0 && g.r.P(60) {
		return ecall(fn, "item", evar(n[g.r.N(len(n))].n)), 'n'
	}
	return ecall(fn, "item", g.expr(env, t, 1)), t
}

// letOther: a list of rows, or a definition that names or calls another one.
func (g *gen) letOther() *Stmt {
	if g.r.P(8) {
		l := &glet{n: g.next("Q")}
		c1, c2 := gcol{g.next("I"), 'i'}, gcol{g.next("S"), 's'}
		l.cols = []gcol{c1, c2}
		s := &Stmt{Let: l.n, E: &Expr{K: "list"}}
		for i := 0; i < 2+g.r.N(4); i++ {
			s.E.A = append(s.E.A, ecall("dict", c1.n, g.expr(genv{}, 'i', 1), c2.n, g.expr(genv{}, 's', 1)))
		}
		s.Mat = g.o.Mat && g.r.P(50) && !g.o.Handles
		l.mat = s.Mat
		g.lets = append(g.lets, l)
		return s
	}
	if g.r.P(10) {
		var cand []*glet
		for _, l := range g.lets {
			if !l.fn && len(l.needs) == 0 && unhandled(l.cols) && !g.o.Handles {
				cand = append(cand, l)
			}
		}
		if len(cand) == 0 {
			return nil
		}
		t := cand[g.r.N(len(cand))]
		l := &glet{n: g.next("Q"), cols: t.cols}
		s := &Stmt{Let: l.n, E: evar(t.n)}
		if t.called {
			s.E = &Expr{K: "call", S: t.n}
			for _, p := range t.params {
				s.E.N = append(s.E.N, p.n)
				if p.t == 'q' {
					s.E.A = append(s.E.A, g.arg(genv{}, 'q', 1))
				} else {
					s.E.A = append(s.E.A, g.expr(genv{}, p.t, 1))
				}
			}
			s.E.A, s.E.Qs = queries(s.E.A)
		}
		s.Mat = g.o.Mat && g.r.P(75)
		l.mat = s.Mat
		g.lets = append(g.lets, l)
		return s
	}
	return nil
}

// decoy: an earlier definition of the same name, which the later one replaces.
func (g *gen) decoy(s *Stmt) *Stmt {
	d := &Stmt{Let: s.Let, Mat: g.o.Mat && g.r.P(50)}
	switch g.r.N(4) {
	case 0:
		d.E = eint(int64(900 + g.r.N(50)))
	case 1:
		d.E = &Expr{K: "op", S: "+", A: []*Expr{eint(900), eint(7)}}
	case 2:
		d.Mat = false
		d.Called, d.Params, d.Defaults = true, []string{"Ip0"}, []*Expr{eint(3)}
		d.E = evar("Ip0")
	case 3:
		src := &Source{K: "range", S: "range", N: []string{"start", "end"}, A: []*Expr{eint(901), eint(903)}}
		d.Q = &Query{Cols: []*Col{{E: evar("_value"), As: "A"}, {E: estr("decoy"), As: "S"}}, From: src}
	}
	return d
}

// let generates a definition.
func (g *gen) let() *Stmt {
	s := &Stmt{}
	l := &glet{}
	env := genv{}
	if s := g.letOther(); s != nil {
		return s
	}
	if g.o.Handles && g.o.Calls && g.r.P(15) {
		return g.letHandle()
	}
	if g.o.Calls && g.r.P(45) {
		l.called = true
		n := 1 + g.r.N(2)
		for i := 0; i < n; i++ {
			p := gcol{g.next("Ip"), 'i'}
			if g.r.P(30) {
				p = gcol{g.next("Sp"), 's'}
			} else if g.r.P(15) {
				p = gcol{g.next("Lp"), 'l'}
			} else if !g.o.Handles && g.r.P(20) {
				p = gcol{g.next("Qp"), 'q'}
			}
			l.params = append(l.params, p)
			s.Params = append(s.Params, p.n)
			s.Defaults = append(s.Defaults, nil)
		}
		if g.r.P(30) || l.params[n-1].t == 'q' && g.r.P(50) {
			l.nd = 1
			if l.params[n-1].t == 'q' {
				s.Defaults[n-1] = g.arg(genv{}, 'q', 0)
			} else {
				s.Defaults[n-1] = g.fx(g.expr(genv{}, l.params[n-1].t, 0))
			}
		}
		s.Called = true
		env = append(env, l.params...)
	}
	// sometimes the body refers to variables of the place it is used at
	if g.r.P(30) {
		env = append(env, gcol{"A", 'i'})
		if g.r.P(40) {
			env = append(env, gcol{"S", 's'})
		}
	}
	var free []gcol
	g.track = &free
	g.bound = append([]gcol{}, l.params...)
	if g.r.P(35) {
		l.fn = true
		l.t = []byte("iisld")[g.r.N(5)]
		if g.o.Null && g.r.P(12) {
			l.t = 'z'
		}
		l.n = g.next(map[byte]string{'i': "Iv", 's': "Sv", 'l': "Lv", 'd': "Dv", 'z': "Zv"}[l.t])
		s.E = g.expr(env, l.t, 3)
	} else {
		q, cols := g.query(env, g.o.Depth-1, qopt{small: true})
		l.n = g.next("Q")
		s.Q = q
		l.cols = cols
	}
	g.track = nil
	g.bound = nil
	l.needs = free
	s.Let = l.n
	if g.o.Mat && !l.called && len(free) == 0 && g.r.P(40) && (s.E == nil || !g.o.Handles) {
		// (what a materialised expression opens belongs to the caller's scope)
		s.Mat = true
		l.mat = true
	}
	for j := 0; j < g.o.Alts; j++ {
		// the same name, parameters and columns with another body
		e2 := append(genv{}, l.params...)
		e2 = e2.with(l.needs)
		g.bound = append(append([]gcol{}, l.params...), l.needs...)
		var none []gcol
		g.track = &none
		v := &Stmt{Let: s.Let, Called: s.Called, Params: s.Params, Defaults: s.Defaults, Mat: s.Mat, Sc: j + 1}
		if s.E != nil {
			v.E = g.expr(e2, l.t, 2)
		} else {
			v.Q = g.queryFor(e2, g.o.Depth-1, l.cols)
		}
		if len(none) > 0 || g.r.P(30) {
			c := *s
			v = &c
			v.Sc = j + 1
		}
		g.alts[j] = append(g.alts[j], v)
	}
	g.track = nil
	g.bound = nil
	g.lets = append(g.lets, l)
	return s
}

// letHandle: a definition using a resource its caller opens, or the default
// value of its parameter.
func (g *gen) letHandle() *Stmt {
	h := gcol{g.next("Hp"), 'h'}
	l := &glet{called: true, params: []gcol{h}, nd: 1}
	s := &Stmt{Called: true, Params: []string{h.n}, Defaults: []*Expr{g.expr(nil, 'h', 0)}}
	use := ecall("use", "h", evar(h.n), "tag", estr(g.next("u")))
	if g.r.P(30) {
		l.fn, l.t, l.n = true, 's', g.next("Sv")
		s.E = use
	} else {
		src, cols := g.leaf(nil, 0)
		l.n = g.next("Q")
		as := g.next("S")
		s.Q = &Query{Cols: []*Col{{E: use, As: as}}, From: src}
		l.cols = []gcol{{as, 's'}}
		for _, c := range cols {
			if c.t == 'i' || c.t == 's' {
				s.Q.Cols = append(s.Q.Cols, &Col{E: evar(c.n)})
				l.cols = append(l.cols, c)
			}
		}
		if g.r.P(30) {
			s.Q.Where = &Expr{K: "cmp", S: "!=", A: []*Expr{ecall("use", "h", evar(h.n), "tag", estr(g.next("u"))), estr("x")}}
		}
	}
	s.Let = l.n
	g.lets = append(g.lets, l)
	return s
}

// GenMany generates definitions for several scopes and one query.
func GenMany(r *Rand, o GOpts) ([]*Stmt, map[string]*Table) {
	g := &gen{r: r, o: o, tables: map[string]*Table{}, alts: make([][]*Stmt, o.Alts)}
	g.genTables(2 + r.N(2))
	var prog []*Stmt
	for i := 0; i < o.Lets; i++ {
		n := len(g.alts[0])
		s := g.let()
		prog = append(prog, s)
		if len(g.alts[0]) == n {
			for j := range g.alts {
				c := *s
				c.Sc = j + 1
				g.alts[j] = append(g.alts[j], &c)
			}
		}
	}
	for _, a := range g.alts {
		prog = append(prog, a...)
	}
	q, _ := g.query(nil, o.Depth, qopt{top: true})
	return append(prog, &Stmt{Q: q}), g.tables
}

// GenProgram generates definitions and a final query.
func GenProgram(r *Rand, o GOpts) ([]*Stmt, map[string]*Table) {
	g := &gen{r: r, o: o, tables: map[string]*Table{}}
	g.genTables(2 + r.N(2))
	var prog []*Stmt
	for i := 0; i < o.Lets; i++ {
		prog = g.insert(prog, g.let())
	}
	q, _ := g.query(nil, o.Depth, qopt{top: true})
	prog = append(prog, &Stmt{Q: q})
	return prog, g.tables
}

func (g *gen) insert(prog []*Stmt, s *Stmt) []*Stmt {
	if g.r.P(6) {
		i := g.r.N(len(prog) + 1)
		prog = append(prog[:i:i], append([]*Stmt{g.decoy(s)}, prog[i:]...)...)
	}
	return append(prog, s)
}

// GenSession generates definitions with queries between them.
func GenSession(r *Rand, o GOpts, queries int) ([]*Stmt, map[string]*Table) {
	g := &gen{r: r, o: o, tables: map[string]*Table{}}
	g.genTables(2 + r.N(2))
	var prog []*Stmt
	for lets := o.Lets; lets > 0 || queries > 0; {
		if lets > 0 && (queries == 0 || r.P(60)) {
			prog = g.insert(prog, g.let())
			lets--
			continue
		}
		q, _ := g.query(nil, o.Depth, qopt{top: true})
		prog = append(prog, &Stmt{Q: q})
		queries--
	}
	return prog, g.tables
}

// badSources yield no rows, badExprs yield NULL.
var badSources = []string{"nosuch()", "nosuch(a=1)", "nosuch", "if()", "if(bogus=1)", "if(then={ SELECT 1 AS A FROM scope() })",
	"foreach()", "foreach(query={ SELECT 1 AS A FROM scope() })", "foreach(bogus=1)", "flatten()", "flatten(bogus=1)",
	"range(bogus=1)", "src()", "src(bogus=1)", "chain()", "no.such", "no.such(a=1)"}

var badExprs = []string{"nosuch(a=1)", "nosuch()", "nosuch", "nosuch.a.b", "nosuch[1]", "-nosuch", "len()", "len(bogus=1)", "if()", "if(bogus=1)",
	"get()", "fx()", "fx(bogus=1)", "use()", "nosuch(a={ SELECT 1 AS A FROM scope() })"}

// badName is what the report of a bad text has to name.
func badName(s string) string {
	s = strings.TrimPrefix(s, "-")
	if strings.HasPrefix(s, "nosuch") {
		return "nosuch"
	}
	if s == "chain()" {
		return "" // has no arguments it needs
	}
	if i := strings.IndexAny(s, ".("); i >= 0 {
		return s[:i]
	}
	return s
}

// misfit drops an argument of a stored definition's call, or adds one it
// does not have.
func (g *gen) misfit(n []string, a []*Expr) ([]string, []*Expr) {
	if !g.o.Broken || g.o.Handles {
		return n, a
	}
	if len(n) > 1 && g.r.P(8) {
		i := g.r.N(len(n))
		return append(n[:i:i], n[i+1:]...), append(a[:i:i], a[i+1:]...)
	}
	if g.r.P(10) {
		return append(n, "bogus"), append(a, g.expr(nil, 'i', 0))
	}
	return n, a
}

func (g *gen) bad() *Expr { return &Expr{K: "bad", S: badExprs[g.r.N(len(badExprs))]} }
