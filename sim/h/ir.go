// Package h is the simulation harness: scenarios, their generator, the
// reference interpreter, the instrumented world and the oracles.
package h

import (
	"fmt"
	"strings"
)

// Expr is an expression of the query representation the generator produces.
//
//	int I | str S | null | bool I
//	var S                symbol reference (row variable, let, parameter)
//	call S N A Q         function call: argument names N, argument values A
//	                     (an argument whose entry in Qs is set is a subquery)
//	op S A               + - *
//	cmp S A              = != < > <= >= =~
//	in A                 A[0] IN (A[1:])
//	and A | or A | not A
//	list A               (a, b, ...)
//	member S A           A[0].S
//	index I A            A[0][I]
//	sub Q                { subselect } as a column
//	neg S                -symbol
//	bad S                text that yields NULL because something is wrong
//	junk S               text whose value nobody looks at
type Expr struct {
	K  string   `json:"k"`
	I  int64    `json:"i,omitempty"`
	S  string   `json:"s,omitempty"`
	A  []*Expr  `json:"a,omitempty"`
	N  []string `json:"n,omitempty"`
	Q  *Query   `json:"q,omitempty"`
	Qs []*Query `json:"qs,omitempty"`
}

// Source is what a query selects from.
//
//	src    plugin of the world: N/A arguments
//	range  N/A
//	name S            stored or materialised query, or variable, by name
//	lcall S N A       stored query with parameters
//	foreach Row/RowE, Body, Workers, Async, Column
//	if  A[0] then Body else Else
//	chain Qs
//	flatten Body
//	scope
//	bad S      text that yields no rows because something is wrong
type Source struct {
	K       string   `json:"k"`
	S       string   `json:"s,omitempty"`
	N       []string `json:"n,omitempty"`
	A       []*Expr  `json:"a,omitempty"`
	Row     *Query   `json:"row,omitempty"`
	RowE    *Expr    `json:"rowe,omitempty"`
	Body    *Query   `json:"body,omitempty"`
	Else    *Query   `json:"else,omitempty"`
	Qs      []*Query `json:"qs,omitempty"`
	Workers int64    `json:"workers,omitempty"`
	Async   bool     `json:"async,omitempty"`
	Column  string   `json:"column,omitempty"`
}

type Col struct {
	E    *Expr  `json:"e,omitempty"`
	As   string `json:"as,omitempty"`
	Star bool   `json:"star,omitempty"`
}

type Query struct {
	Explain bool    `json:"explain,omitempty"`
	Cols    []*Col  `json:"cols"`
	From    *Source `json:"from"`
	Where   *Expr   `json:"where,omitempty"`
	Group   []*Expr `json:"group,omitempty"`
	Order   string  `json:"order,omitempty"`
	Desc    bool    `json:"desc,omitempty"`
	Limit   *int64  `json:"limit,omitempty"`
}

// Stmt is a LET definition or a query.
type Stmt struct {
	Let      string   `json:"let,omitempty"`
	Called   bool     `json:"called,omitempty"`
	Params   []string `json:"params,omitempty"`
	Defaults []*Expr  `json:"defaults,omitempty"` // nil entries: no default
	Sc       int      `json:"sc,omitempty"`       // the scope it is for, where there are several
	Mat      bool     `json:"mat,omitempty"`
	E        *Expr    `json:"e,omitempty"`
	Q        *Query   `json:"q,omitempty"`
}

func atom(e *Expr) bool {
	switch e.K {
	case "int", "str", "null", "bool", "var", "call":
		return true
	}
	return false
}

func par(e *Expr) string {
	if atom(e) {
		return e.Str()
	}
	return "(" + e.Str() + ")"
}

func args(n []string, a []*Expr, qs []*Query) string {
	var r []string
	for i := range n {
		if i < len(qs) && qs[i] != nil {
			r = append(r, n[i]+"={ "+qs[i].Str()+" }")
		} else {
			r = append(r, n[i]+"="+a[i].Str())
		}
	}
	return "(" + strings.Join(r, ", ") + ")"
}

func quote(s string) string { return "'" + s + "'" }

func (e *Expr) Str() string {
	switch e.K {
	case "int":
		return fmt.Sprint(e.I)
	case "str":
		return quote(e.S)
	case "null":
		return "NULL"
	case "bool":
		if e.I != 0 {
			return "TRUE"
		}
		return "FALSE"
	case "var":
		return e.S
	case "neg":
		return "-" + e.S
	case "bad", "junk":
		return e.S
	case "call":
		return e.S + args(e.N, e.A, e.Qs)
	case "op":
		return par(e.A[0]) + " " + e.S + " " + par(e.A[1])
	case "cmp":
		return par(e.A[0]) + " " + e.S + " " + par(e.A[1])
	case "in":
		var r []string
		for _, a := range e.A[1:] {
			r = append(r, a.Str())
		}
		return par(e.A[0]) + " IN (" + strings.Join(r, ", ") + ")"
	case "and", "or":
		op := " AND "
		if e.K == "or" {
			op = " OR "
		}
		if e.S != "" {
			op = " " + e.S + " "
		}
		var r []string
		for _, a := range e.A {
			r = append(r, par(a))
		}
		return strings.Join(r, op)
	case "not":
		return "NOT " + par(e.A[0])
	case "list":
		var r []string
		for _, a := range e.A {
			r = append(r, a.Str())
		}
		if e.S == "[" {
			return "[" + strings.Join(r, ", ") + "]" // as an argument
		}
		return "(" + strings.Join(r, ", ") + ")"
	case "member":
		return par(e.A[0]) + "." + e.S
	case "index":
		if len(e.A) > 1 {
			return par(e.A[0]) + "[" + par(e.A[1]) + "]"
		}
		return par(e.A[0]) + fmt.Sprintf("[%d]", e.I)
	case "slice": // S: which ends are given
		l, r := "", ""
		k := 1
		if strings.Contains(e.S, "s") && k < len(e.A) {
			l = par(e.A[k])
			k++
		}
		if strings.Contains(e.S, "e") && k < len(e.A) {
			r = par(e.A[k])
		}
		return par(e.A[0]) + "[" + l + ":" + r + "]"
	case "sub":
		return "{ " + e.Q.Str() + " }"
	}
	panic("expr kind " + e.K)
}

func (s *Source) Str() string {
	switch s.K {
	case "src", "range", "lcall", "plug":
		return s.S + args(s.N, s.A, s.Qs)
	case "name", "bad":
		return s.S
	case "hp":
		return "hp()"
	case "scope":
		return "scope()"
	case "foreach":
		var r []string
		if s.Row != nil {
			r = append(r, "row={ "+s.Row.Str()+" }")
		} else {
			r = append(r, "row="+s.RowE.Str())
		}
		if s.Body != nil {
			r = append(r, "query={ "+s.Body.Str()+" }")
		}
		if s.Workers != 0 {
			r = append(r, fmt.Sprintf("workers=%d", s.Workers))
		}
		if s.Async {
			r = append(r, "async=TRUE")
		}
		if s.Column != "" {
			r = append(r, "column="+quote(s.Column))
		}
		return "foreach(" + strings.Join(r, ", ") + ")"
	case "if":
		r := "if(condition=" + s.A[0].Str() + ", then={ " + s.Body.Str() + " }"
		if s.Else != nil {
			r += ", else={ " + s.Else.Str() + " }"
		}
		return r + ")"
	case "chain":
		var r []string
		for i, q := range s.Qs {
			r = append(r, fmt.Sprintf("q%d={ %s }", i, q.Str()))
		}
		return "chain(" + strings.Join(r, ", ") + ")"
	case "flatten":
		return "flatten(query={ " + s.Body.Str() + " })"
	}
	panic("source kind " + s.K)
}

func (q *Query) Str() string {
	var b strings.Builder
	if q.Explain {
		b.WriteString("EXPLAIN ")
	}
	b.WriteString("SELECT ")
	for i, c := range q.Cols {
		if i > 0 {
			b.WriteString(", ")
		}
		if c.Star {
			b.WriteString("*")
			continue
		}
		b.WriteString(c.E.Str())
		if c.As != "" {
			b.WriteString(" AS " + c.As)
		}
	}
	b.WriteString(" FROM " + q.From.Str())
	if q.Where != nil {
		b.WriteString(" WHERE " + q.Where.Str())
	}
	for i, g := range q.Group {
		if i == 0 {
			b.WriteString(" GROUP BY ")
		} else {
			b.WriteString(", ")
		}
		b.WriteString(g.Str())
	}
	if q.Order != "" {
		b.WriteString(" ORDER BY " + q.Order)
		if q.Desc {
			b.WriteString(" DESC")
		}
	}
	if q.Limit != nil {
		b.WriteString(fmt.Sprintf(" LIMIT %d", *q.Limit))
	}
	return b.String()
}

func (s *Stmt) Str() string {
	if s.Let == "" {
		return s.Q.Str()
	}
	r := "LET " + s.Let
	if s.Called {
		var ps []string
		for i, p := range s.Params {
			if i < len(s.Defaults) && s.Defaults[i] != nil {
				p += "=" + s.Defaults[i].Str()
			}
			ps = append(ps, p)
		}
		r += "(" + strings.Join(ps, ", ") + ")"
	}
	if s.Mat {
		r += " <= "
	} else {
		r += " = "
	}
	if s.Q != nil {
		return r + s.Q.Str()
	}
	return r + s.E.Str()
}

// walk visits every expression and query below.
func (e *Expr) walk(fe func(*Expr), fq func(*Query)) {
	if e == nil {
		return
	}
	fe(e)
	for _, a := range e.A {
		a.walk(fe, fq)
	}
	e.Q.walk(fe, fq)
	for _, q := range e.Qs {
		q.walk(fe, fq)
	}
}

func (q *Query) walk(fe func(*Expr), fq func(*Query)) {
	if q == nil {
		return
	}
	fq(q)
	for _, c := range q.Cols {
		c.E.walk(fe, fq)
	}
	s := q.From
	for _, a := range s.A {
		a.walk(fe, fq)
	}
	s.Row.walk(fe, fq)
	s.RowE.walk(fe, fq)
	s.Body.walk(fe, fq)
	s.Else.walk(fe, fq)
	for _, x := range s.Qs {
		x.walk(fe, fq)
	}
	q.Where.walk(fe, fq)
	for _, g := range q.Group {
		g.walk(fe, fq)
	}
}

func (s *Stmt) walk(fe func(*Expr), fq func(*Query)) {
	for _, d := range s.Defaults {
		d.walk(fe, fq)
	}
	s.E.walk(fe, fq)
	s.Q.walk(fe, fq)
}
