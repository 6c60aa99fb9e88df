package h

import (
	"encoding/json"
	"sort"
)

// Clone makes a deep copy of a scenario.
func (s *Scenario) Clone() *Scenario {
	b, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	r := &Scenario{}
	if err := json.Unmarshal(b, r); err != nil {
		panic(err)
	}
	return r
}

// mutator enumerates the simplifications of a scenario; the one with number
// want is applied.
type mutator struct {
	n, want int
	done    bool
}

func (m *mutator) try(f func()) bool {
	if m.done {
		return true
	}
	if m.n == m.want {
		f()
		m.done = true
		return true
	}
	m.n++
	return false
}

func (m *mutator) scenario(s *Scenario) {
	for i := 0; i+1 < len(s.Prog); i++ {
		if m.try(func() { s.Prog = append(s.Prog[:i], s.Prog[i+1:]...) }) {
			return
		}
	}
	// chunks of operations, then single ones
	for c := len(s.Ops) / 2; c >= 1; c /= 2 {
		for i := 0; i+c <= len(s.Ops); i += c {
			if m.try(func() { s.Ops = append(append([]Op{}, s.Ops[:i]...), s.Ops[i+c:]...) }) {
				return
			}
		}
	}
	var ks []string
	for k := range s.P {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		v := s.P[k]
		if m.try(func() { delete(s.P, k) }) {
			return
		}
		if v > 1 || v < -1 {
			if m.try(func() { s.P[k] = v / 2 }) || m.try(func() { s.P[k] = v - 1 }) {
				return
			}
		}
	}
	for _, st := range s.Prog {
		m.stmt(st)
		if m.done {
			return
		}
	}
	var ts []string
	for k := range s.Tables {
		ts = append(ts, k)
	}
	sort.Strings(ts)
	for _, k := range ts {
		t := s.Tables[k]
		for c := len(t.Rows); c >= 1; c /= 2 {
			for i := 0; i+c <= len(t.Rows); i += c {
				if m.try(func() { t.Rows = append(append([][]any{}, t.Rows[:i]...), t.Rows[i+c:]...) }) {
					return
				}
			}
		}
		if t.EndAt != 0 && m.try(func() { t.EndAt = 0 }) {
			return
		}
		if t.Lazy && m.try(func() { t.Lazy = false }) {
			return
		}
	}
	for i := range s.Ops {
		o := &s.Ops[i]
		for _, p := range []*int64{&o.A, &o.B, &o.C, &o.D} {
			if *p != 0 && m.try(func() { *p = 0 }) {
				return
			}
			if (*p > 1 || *p < -1) && (m.try(func() { *p /= 2 }) || m.try(func() { *p-- })) {
				return
			}
		}
	}
}

func (m *mutator) stmt(s *Stmt) {
	if s.Mat && m.try(func() { s.Mat = false }) {
		return
	}
	if s.E != nil {
		m.expr(&s.E)
	}
	if s.Q != nil && !m.done {
		m.query(&s.Q)
	}
}

func (m *mutator) query(p **Query) {
	q := *p
	if m.done || q == nil {
		return
	}
	f := q.From
	if f != nil {
		for _, sub := range append([]*Query{f.Body, f.Else, f.Row}, f.Qs...) {
			if sub != nil && m.try(func() { *p = sub }) {
				return
			}
			if sub != nil && m.try(func() { q.From = sub.From }) {
				return
			}
		}
	}
	if q.Where != nil && m.try(func() { q.Where = nil }) {
		return
	}
	if q.Order != "" && m.try(func() { q.Order = "" }) {
		return
	}
	if q.Desc && m.try(func() { q.Desc = false }) {
		return
	}
	if q.Limit != nil {
		if m.try(func() { q.Limit = nil }) {
			return
		}
		if *q.Limit > 0 && m.try(func() { n := *q.Limit - 1; q.Limit = &n }) {
			return
		}
	}
	if q.Explain && m.try(func() { q.Explain = false }) {
		return
	}
	if len(q.Group) > 0 && m.try(func() { q.Group = nil }) {
		return
	}
	if len(q.Group) > 1 && m.try(func() { q.Group = q.Group[:1] }) {
		return
	}
	if len(q.Cols) > 1 {
		for i := range q.Cols {
			if m.try(func() { q.Cols = append(append([]*Col{}, q.Cols[:i]...), q.Cols[i+1:]...) }) {
				return
			}
		}
	}
	m.source(&q.From)
	for _, c := range q.Cols {
		if c.E != nil {
			m.expr(&c.E)
		}
	}
	if q.Where != nil {
		m.expr(&q.Where)
	}
	for i := range q.Group {
		m.expr(&q.Group[i])
	}
}

func (m *mutator) source(p **Source) {
	s := *p
	if m.done || s == nil {
		return
	}
	if s.Workers > 0 && (m.try(func() { s.Workers = 0 }) || s.Workers > 2 && m.try(func() { s.Workers-- })) {
		return
	}
	if s.Async && m.try(func() { s.Async = false }) {
		return
	}
	if s.K == "chain" && len(s.Qs) > 1 {
		for i := range s.Qs {
			if m.try(func() { s.Qs = append(append([]*Query{}, s.Qs[:i]...), s.Qs[i+1:]...) }) {
				return
			}
		}
	}
	if s.K == "src" {
		for i := 2; i < len(s.N); i++ {
			if m.try(func() {
				s.N = append(append([]string{}, s.N[:i]...), s.N[i+1:]...)
				s.A = append(append([]*Expr{}, s.A[:i]...), s.A[i+1:]...)
			}) {
				return
			}
		}
	}
	if s.K == "if" && s.Else != nil && m.try(func() { s.Else = nil }) {
		return
	}
	for _, q := range []**Query{&s.Row, &s.Body, &s.Else} {
		m.query(q)
	}
	for i := range s.Qs {
		m.query(&s.Qs[i])
	}
	if s.RowE != nil {
		m.expr(&s.RowE)
	}
	for i := range s.A {
		if s.K == "src" && i < 2 {
			continue
		}
		m.expr(&s.A[i])
	}
}

func (m *mutator) expr(p **Expr) {
	e := *p
	if m.done || e == nil {
		return
	}
	for _, a := range e.A {
		if a != nil && m.try(func() { *p = a }) {
			return
		}
	}
	switch e.K {
	case "int":
		if e.I > 1 && m.try(func() { e.I = 1 }) {
			return
		}
	case "var", "str", "null", "bool":
	default:
		if m.try(func() { *p = eint(1) }) {
			return
		}
	}
	if (e.K == "and" || e.K == "or" || e.K == "list" || e.K == "in") && len(e.A) > 2 {
		for i := range e.A {
			if m.try(func() { e.A = append(append([]*Expr{}, e.A[:i]...), e.A[i+1:]...) }) {
				return
			}
		}
	}
	if e.Q != nil {
		m.query(&e.Q)
	}
	for i := range e.Qs {
		m.query(&e.Qs[i])
	}
	for i := range e.A {
		if (e.K == "call") && i < len(e.N) && e.N[i] == "tag" {
			continue
		}
		m.expr(&e.A[i])
	}
}

// Shrink simplifies a scenario as long as it still fails.
func Shrink(s *Scenario, budget int, fails func(*Scenario) bool) *Scenario {
	cur := s.Clone()
	for changed := true; changed && budget > 0; {
		changed = false
		for k := 0; budget > 0; {
			c := cur.Clone()
			m := &mutator{want: k}
			m.scenario(c)
			if !m.done {
				break
			}
			budget--
			if fails(c) {
				cur, changed = c, true
			} else {
				k++
			}
		}
	}
	return cur
}
