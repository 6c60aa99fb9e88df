package h

import (
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// D is an ordered dictionary of the reference interpreter.
type D struct {
	K []string
	V []any
}

func (d *D) set(k string, v any) {
	for i := range d.K {
		if d.K[i] == k {
			d.V[i] = v
			return
		}
	}
	d.K = append(d.K, k)
	d.V = append(d.V, v)
}

func (d *D) get(k string) (any, bool) {
	for i := range d.K {
		if d.K[i] == k {
			return d.V[i], true
		}
	}
	return nil, false
}

// undef is thrown when the meaning of a query is not fixed by the rules the
// reference interpreter knows; such a scenario is not judged.
type undef struct{ why string }

func undefined(f string, a ...any) { panic(undef{fmt.Sprintf(f, a...)}) }

type mQuery struct { // a stored query or subselect passed as a value
	q        *Query
	params   []string
	defaults []*Expr
	site     *mscope // set: a call site with its own scope
}

type mExpr struct { // a stored expression
	e        *Expr
	params   []string
	defaults []*Expr
	called   bool
}

type mMat struct{ rows []any }

type mHandle struct{ id string }

type mvars interface{ get(string) (any, bool) }

type mag struct {
	st   map[*Expr]any
	root bool
}

type mscope struct {
	vars   []mvars
	parent *mscope
	ag     *mag
	depth  int
}

func (s *mscope) copy() *mscope {
	if s.depth > 250 {
		undefined("depth")
	}
	return &mscope{vars: append([]mvars{}, s.vars...), parent: s, depth: s.depth + 1}
}

func (s *mscope) add(v mvars) { s.vars = append(s.vars, v) }

func (s *mscope) aggr() *mag {
	for p := s; p != nil; p = p.parent {
		if p.ag != nil {
			return p.ag
		}
	}
	return nil
}

func (s *mscope) resolve(n string) (any, bool) {
	for i := len(s.vars) - 1; i >= 0; i-- {
		if v, ok := s.vars[i].get(n); ok {
			return v, true
		}
	}
	return nil, false
}

type mlazy struct {
	m     *Model
	k     []string
	f     map[string]func() any
	cache map[string]any
}

func (l *mlazy) get(k string) (any, bool) {
	if v, ok := l.cache[k]; ok {
		return v, true
	}
	f, ok := l.f[k]
	if !ok {
		return nil, false
	}
	v := f()
	l.cache[k] = v
	return v, true
}

func (l *mlazy) materialise() *D {
	d := &D{}
	for _, k := range l.k {
		v, ok := l.cache[k]
		if !ok {
			v = l.f[k]()
		}
		d.set(k, v)
	}
	return d
}

// Res is a result: rows in classes; rows of one class may come in any order.
type Res struct {
	Rows []*D
	Cls  []int
	Take int // -1: all; else only this many, cutting through the last class
}

func (r *Res) add(d *D, c int) { r.Rows = append(r.Rows, d); r.Cls = append(r.Cls, c) }

// strict: the order of the rows is completely determined.
func (r *Res) strict() bool {
	for i := 1; i < len(r.Cls); i++ {
		if r.Cls[i] == r.Cls[i-1] && Canon(r.Rows[i]) != Canon(r.Rows[i-1]) {
			return false
		}
	}
	return true
}

func (r *Res) last() int {
	if len(r.Cls) == 0 {
		return 0
	}
	return r.Cls[len(r.Cls)-1]
}

// all resolves Take where it does not matter and refuses where it does.
func (r *Res) all() {
	if r.Take < 0 || r.Take >= len(r.Rows) {
		r.Take = -1
		return
	}
	c := r.Cls[r.Take]
	if r.Take == 0 || r.Cls[r.Take-1] != c {
		r.Rows, r.Cls, r.Take = r.Rows[:r.Take], r.Cls[:r.Take], -1
		return
	}
	first := -1
	for i := range r.Rows {
		if r.Cls[i] == c {
			if first < 0 {
				first = i
			} else if Canon(r.Rows[i]) != Canon(r.Rows[first]) {
				undefined("rows cut by LIMIT inside an unordered class are used")
			}
		}
	}
	r.Rows, r.Cls, r.Take = r.Rows[:r.Take], r.Cls[:r.Take], -1
}

// Model is the reference interpreter.
type Model struct {
	Tables  map[string]*Table
	Root    *mscope
	Events  map[string]int
	Bad     map[string]bool // texts that do not fit, evaluated
	quiet   int
	ck      bool  // materialised queries may have been restored
	off     int64 // added to column A of tables
	budget  int
	RootAgg bool // aggregates on the caller's own context are allowed
	Ever    struct {
		Limit, Unordered, Group, Order bool
	}
	Stats struct{ Rows, Plugins, Funcs uint64 }
	// Expected explain reports
	PlugOut, SelOut, Rejects int
	HF                       int    // function hf: 0 unknown, 1 the host's, 2 stored
	HP                       string // table of the plugin hp, "": unknown
	rep                      *mrepl // replaced operations
}

func NewModel(tables map[string]*Table) *Model {
	m := &Model{Tables: tables, Events: map[string]int{}, budget: 60000}
	m.Root = &mscope{ag: &mag{st: map[*Expr]any{}, root: true}}
	return m
}

// bad notes that something that does not fit was evaluated.
func (m *Model) bad(s string) {
	if m.Bad == nil {
		m.Bad = map[string]bool{}
	}
	m.Bad[s] = true
}

func (m *Model) event(f string, a ...any) {
	if m.quiet == 0 {
		m.Events[fmt.Sprintf(f, a...)]++
	}
}

func (m *Model) tick() {
	m.budget--
	if m.budget < 0 {
		undefined("budget")
	}
}

// Safe runs f and reports whether the outcome is defined.
func Safe(f func()) (ok bool, why string) {
	defer func() {
		if r := recover(); r != nil {
			if u, is := r.(undef); is {
				ok, why = false, u.why
				return
			}
			panic(r)
		}
	}()
	f()
	return true, ""
}

// Exec runs one statement on the root scope.
func (m *Model) Exec(s *Stmt) *Res {
	if s.Let == "" {
		sc := m.Root.copy()
		return m.query(sc, s.Q)
	}
	switch {
	case s.E != nil && !s.Mat:
		m.Root.add(&D{[]string{s.Let}, []any{&mExpr{e: s.E, params: s.Params, defaults: s.Defaults, called: s.Called}}})
	case s.E != nil:
		v := m.expr(m.Root, s.E)
		if q, ok := v.(*mQuery); ok {
			v = &mMat{m.rep.mat(m, s.Let, m.rows(m.Root, q))}
		} else if q, ok := v.(*mMat); ok && !m.ck {
			v = &mMat{m.rep.mat(m, s.Let, q.rows)}
		}
		m.Root.add(&D{[]string{s.Let}, []any{v}})
	case !s.Mat:
		m.Root.add(&D{[]string{s.Let}, []any{&mQuery{q: s.Q, params: s.Params, defaults: s.Defaults}}})
	default:
		m.Root.add(&D{[]string{s.Let}, []any{&mMat{m.rep.mat(m, s.Let, m.rows(m.Root, &mQuery{q: s.Q}))}}})
	}
	return nil
}

// rows evaluates a stored query to a list; the order must be determined.
func (m *Model) rows(sc *mscope, q *mQuery) []any {
	r := m.stored(sc, q)
	r.all()
	if !r.strict() {
		undefined("unordered rows materialised")
	}
	out := []any{}
	for _, d := range r.Rows {
		out = append(out, d)
	}
	return out
}

func (m *Model) stored(sc *mscope, q *mQuery) *Res {
	if q.site != nil {
		sc = q.site
	}
	return m.query(sc.copy(), q.q)
}

func (m *Model) query(sc *mscope, q *Query) *Res {
	m.tick()
	if sc.depth > 200 {
		undefined("depth")
	}
	if q.Limit != nil {
		m.Ever.Limit = true
		c := *q
		c.Limit = nil
		r := m.query(sc, &c)
		r.all()
		n := int(*q.Limit)
		if n < 0 {
			undefined("negative limit")
		}
		if n < len(r.Rows) {
			// keep the whole class the cut goes through
			end := n
			if n > 0 {
				for end < len(r.Rows) && r.Cls[end] == r.Cls[n-1] {
					end++
				}
			}
			r.Rows, r.Cls = r.Rows[:end], r.Cls[:end]
			if end > n {
				r.Take = n
			}
		}
		return r
	}
	var r *Res
	if len(q.Group) > 0 {
		r = m.rep.group(m, sc, q)
	} else if q.Order != "" {
		c := *q
		c.Order, c.Desc = "", false
		r = m.query(sc, &c)
	} else {
		return m.plain(sc, q)
	}
	if q.Order != "" {
		m.Ever.Order = true
		r.all()
		r = m.rep.sort(m, r, q.Order, q.Desc)
	}
	return r
}

func (m *Model) sort(r *Res, key string, desc bool) *Res {
	type item struct {
		k any
		d *D
	}
	var items []item
	ints, strs := 0, 0
	for _, d := range r.Rows {
		v, _ := d.get(key) // a row without the column: NULL
		switch v.(type) {
		case nil:
			v = "" // before every number
		case string:
			strs++
		case int64, float64:
			ints++
		default:
			undefined("sort key type %T", v)
		}
		items = append(items, item{v, d})
	}
	if ints > 0 && strs > 0 {
		undefined("mixed sort keys")
	}
	less := func(a, b any) bool {
		x, xi := mnum(a)
		y, yi := mnum(b)
		if xi && yi {
			return x < y
		}
		if xi || yi {
			return yi
		}
		return a.(string) < b.(string)
	}
	sort.SliceStable(items, func(i, j int) bool {
		if desc {
			return less(items[j].k, items[i].k)
		}
		return less(items[i].k, items[j].k)
	})
	out := &Res{Take: -1}
	c := 0
	for i, it := range items {
		if i > 0 && items[i-1].k != it.k {
			c++
		}
		out.add(it.d, c)
	}
	return out
}

func (m *Model) transform(sc *mscope, q *Query, row *D) *mlazy {
	ts := sc.copy()
	ts.add(row)
	l := &mlazy{m: m, f: map[string]func() any{}, cache: map[string]any{}}
	star := func() {
		for i, k := range row.K {
			if _, ok := l.f[k]; ok {
				continue
			}
			v := row.V[i]
			l.k = append(l.k, k)
			l.f[k] = func() any { return v }
		}
	}
	for _, c := range q.Cols {
		if c.Star {
			star()
			continue
		}
		c := c
		name := c.As
		if name == "" {
			name = c.E.Str()
		}
		if _, ok := l.f[name]; ok {
			undefined("duplicate column")
		}
		l.k = append(l.k, name)
		l.f[name] = func() any {
			return m.column(ts, name, c.E)
		}
	}
	return l
}

func (m *Model) column(ts *mscope, name string, e *Expr) any {
	if e.K == "sub" {
		r := m.query(ts, e.Q)
		r.all()
		if !r.strict() {
			undefined("unordered subselect")
		}
		var out []any
		for _, d := range r.Rows {
			if len(d.K) == 1 {
				out = append(out, d.V[0])
			} else {
				out = append(out, d)
			}
		}
		if len(out) == 1 {
			return m.materialise(ts, name, out[0])
		}
		if out == nil {
			return nil // no rows: NULL
		}
		return out
	}
	return m.materialise(ts, name, m.expr(ts, e))
}

func (m *Model) materialise(ts *mscope, name string, v any) any {
	if q, ok := v.(*mQuery); ok {
		return &mMat{m.rep.mat(m, name, m.rows(ts, q))}
	}
	if x, ok := v.(*mMat); ok {
		return append([]any{}, x.rows...)
	}
	return v
}

func truth(v any) bool {
	switch t := v.(type) {
	case nil:
		return false
	case bool:
		return t
	case int64:
		return t > 0
	case float64:
		return t > 0
	case string:
		return t != ""
	case []any:
		return len(t) > 0
	case *D:
		return len(t.K) > 0
	}
	undefined("truth of %T", v)
	return false
}

func (m *Model) plain(sc *mscope, q *Query) *Res {
	src := m.source(sc, q.From)
	out := &Res{Take: -1}
	for i, row := range src.Rows {
		m.tick()
		if m.quiet == 0 {
			m.Stats.Rows++
			m.PlugOut++
		}
		sub := sc.copy()
		l := m.transform(sub, q, row)
		if q.Where != nil {
			ns := sub.copy()
			ns.add(row)
			ns.add(l)
			if !truth(m.comma(m.expr(ns, q.Where))) {
				if m.quiet == 0 {
					m.Rejects++
				}
				continue
			}
		}
		out.add(l.materialise(), src.Cls[i])
		if m.quiet == 0 {
			m.SelOut++
		}
	}
	return out
}

func (m *Model) comma(v any) any { return v }

func keyStr(v any) string {
	switch t := v.(type) {
	case nil:
		return "Null"
	case string:
		return strconv.Quote(t) // (unlike the number that prints the same)
	case int64:
		return fmt.Sprint(t)
	case float64:
		return fmt.Sprint(t)
	case bool:
		return fmt.Sprint(t)
	case []any:
		var r []string
		for _, x := range t {
			r = append(r, keyStr(x))
		}
		return "[" + strings.Join(r, " ") + "]"
	}
	undefined("key of %T", v)
	return ""
}

func (m *Model) group(sc *mscope, q *Query) *Res {
	m.Ever.Group = true
	src := m.source(sc, q.From)
	if m.quiet == 0 {
		m.Stats.Rows += uint64(len(src.Rows))
	}
	run := func(rows []*D) ([]string, map[string]*D) {
		gs := sc.copy()
		type bin struct {
			ag  *mag
			row *D
		}
		bins := map[string]*bin{}
		var order []string
		for _, row := range rows {
			m.tick()
			ns := gs.copy()
			l := m.transform(ns, q, row)
			ns.add(row)
			ns.add(l)
			if q.Where != nil && !truth(m.expr(ns, q.Where)) {
				continue
			}
			var kv any
			if len(q.Group) == 1 {
				kv = m.expr(ns, q.Group[0])
			} else {
				var ks []any
				for _, g := range q.Group {
					ks = append(ks, m.expr(ns, g))
				}
				kv = ks
			}
			k := keyStr(kv)
			b := bins[k]
			if b == nil {
				b = &bin{ag: &mag{st: map[*Expr]any{}}}
				bins[k] = b
				order = append(order, k)
			}
			ns.ag = b.ag
			b.row = l.materialise()
		}
		res := map[string]*D{}
		for k, b := range bins {
			res[k] = b.row
		}
		return order, res
	}
	order, res := run(src.Rows)
	out := &Res{Take: -1}
	if src.strict() {
		for i, k := range order {
			out.add(res[k], i)
		}
		return out
	}
	// The order of the source is not determined: the groups must not depend
	// on it.
	m.quiet++
	n := len(src.Rows)
	perm := make([]*D, n)
	for i := range src.Rows {
		perm[n-1-i] = src.Rows[i]
	}
	_, res2 := run(perm)
	if n > 2 {
		copy(perm, src.Rows[n/2:])
		copy(perm[n-n/2:], src.Rows[:n/2])
		_, res3 := run(perm)
		for k := range res {
			if Canon(res[k]) != Canon(res3[k]) {
				undefined("group depends on the order of an unordered source")
			}
		}
	}
	m.quiet--
	for k := range res {
		if Canon(res[k]) != Canon(res2[k]) {
			undefined("group depends on the order of an unordered source")
		}
	}
	for _, k := range order {
		out.add(res[k], 0)
	}
	return out
}

func single(d ...*D) *Res {
	r := &Res{Take: -1}
	for i, x := range d {
		r.add(x, i)
	}
	return r
}

func (m *Model) args(sc *mscope, n []string, a []*Expr, qs []*Query) *D {
	d := &D{}
	for i := range n {
		if i < len(qs) && qs[i] != nil {
			d.set(n[i], &mQuery{q: qs[i]})
		} else {
			d.set(n[i], m.expr(sc, a[i]))
		}
	}
	return d
}

func (m *Model) withDefaults(sc *mscope, d *D, params []string, defaults []*Expr) {
	for i, p := range params {
		if i < len(defaults) && defaults[i] != nil {
			if _, ok := d.get(p); !ok {
				if defaults[i].K == "sub" {
					d.set(p, &mQuery{q: defaults[i].Q})
				} else {
					d.set(p, m.expr(sc, defaults[i]))
				}
			}
		}
	}
}

func asInt(v any) int64 {
	i, ok := v.(int64)
	if !ok {
		undefined("int expected, got %T", v)
	}
	return i
}

func (m *Model) source(sc *mscope, s *Source) *Res {
	r := m.source1(sc, s)
	r.all()
	return r
}

func (m *Model) source1(sc *mscope, s *Source) *Res {
	switch s.K {
	case "bad":
		m.bad(s.S)
		return single()
	case "hp":
		// the scope's own plugin
		t := m.Tables[m.HP]
		if t == nil {
			return single()
		}
		var rows []*D
		for i := range t.Rows {
			rows = append(rows, t.model(i, 0, "hp"))
		}
		return single(rows...)
	case "scope":
		// one row that shows the variables of the scope
		if m.quiet == 0 {
			m.Stats.Plugins++
		}
		return single(&D{})
	case "src":
		if m.quiet == 0 {
			m.Stats.Plugins++
		}
		a := m.args(sc, s.N, s.A, s.Qs)
		return single(m.srcRows(a)...)
	case "range":
		if m.quiet == 0 {
			m.Stats.Plugins++
		}
		a := m.args(sc, s.N, s.A, s.Qs)
		get := func(k string, def int64) int64 {
			if v, ok := a.get(k); ok {
				return asInt(v)
			}
			return def
		}
		var out []*D
		step := get("step", 1)
		if step == 0 {
			step = 1
		}
		if step < 0 {
			undefined("negative step")
		}
		for i := get("start", 0); i < get("end", 0); i += step {
			m.tick()
			out = append(out, &D{[]string{"_value"}, []any{i}})
		}
		return single(out...)
	case "name":
		v, ok := sc.resolve(s.S)
		if !ok {
			undefined("unknown source %s", s.S)
		}
		return m.from(sc, v)
	case "lcall":
		v, ok := sc.resolve(s.S)
		if !ok {
			undefined("unknown source %s", s.S)
		}
		switch t := v.(type) {
		case *mQuery:
			if m.quiet == 0 {
				m.Stats.Plugins++
			}
			a := m.args(sc, s.N, s.A, s.Qs)
			for i, n := range s.N {
				if n == "bogus" && i == len(s.N)-1 {
					m.bad(n)
				}
			}
			m.withDefaults(sc, a, t.params, t.defaults)
			cs := sc.copy()
			cs.ag = &mag{st: map[*Expr]any{}}
			for i, x := range a.V {
				if q, ok := x.(*mQuery); ok {
					a.V[i] = append([]any{}, m.rows(cs, q)...)
				} else if mm, ok := x.(*mMat); ok {
					a.V[i] = append([]any{}, mm.rows...)
				}
			}
			cs.add(a)
			return m.stored(cs, t)
		case *mExpr:
			cs := sc.copy()
			cs.ag = &mag{st: map[*Expr]any{}}
			a := m.args(sc, s.N, s.A, s.Qs)
			m.withDefaults(sc, a, t.params, t.defaults)
			cs.add(a)
			return m.from(sc, m.expr(cs, t.e))
		}
		undefined("source call on %T", v)
	case "foreach":
		if m.quiet == 0 {
			m.Stats.Plugins++
		}
		var rows *Res
		if s.Row != nil {
			rows = m.stored0(sc, s.Row)
		} else {
			rows = m.iterate(sc, m.expr(sc, s.RowE))
		}
		rows.all()
		workers := s.Workers
		if workers == 0 && s.Async {
			workers = 100
		}
		out := &Res{Take: -1}
		next := 0
		for i, row := range rows.Rows {
			m.tick()
			var rv any = row
			if s.Column != "" {
				rv, _ = row.get(s.Column)
			}
			if s.Body == nil {
				d, ok := rv.(*D)
				if !ok {
					undefined("foreach column is not a dict")
				}
				if i > 0 && rows.Cls[i] != rows.Cls[i-1] {
					next++
				}
				out.add(d, next)
				continue
			}
			cs := sc.copy()
			switch t := rv.(type) {
			case *D:
				cs.add(t)
			case nil:
				undefined("foreach null row")
			default:
				undefined("foreach row %T", rv)
			}
			r := m.query(cs, s.Body)
			r.all()
			same := i > 0 && rows.Cls[i] == rows.Cls[i-1] || i+1 < len(rows.Cls) && rows.Cls[i] == rows.Cls[i+1]
			if i > 0 && rows.Cls[i] != rows.Cls[i-1] || i == 0 || !same {
				next++
			}
			base := next
			for j, d := range r.Rows {
				if same || workers > 1 {
					out.add(d, next)
				} else {
					out.add(d, base+r.Cls[j])
					next = base + r.Cls[j]
				}
			}
		}
		if workers > 1 {
			for i := range out.Cls {
				out.Cls[i] = 0
			}
			m.Ever.Unordered = true
		}
		return out
	case "if":
		if m.quiet == 0 {
			m.Stats.Plugins++
		}
		if truth(m.expr(sc, s.A[0])) {
			return m.stored0(sc, s.Body)
		} else if s.Else != nil {
			return m.stored0(sc, s.Else)
		}
		return single()
	case "chain":
		if m.quiet == 0 {
			m.Stats.Plugins++
		}
		out := &Res{Take: -1}
		base := 0
		for _, q := range s.Qs {
			r := m.query(sc.copy(), q)
			r.all()
			for i, d := range r.Rows {
				out.add(d, base+r.Cls[i])
			}
			base = out.last() + 1
		}
		return out
	case "flatten":
		if m.quiet == 0 {
			m.Stats.Plugins++
		}
		r := m.stored0(sc, s.Body)
		r.all()
		out := &Res{Take: -1}
		c := 0
		for i, d := range r.Rows {
			if i > 0 && r.Cls[i] != r.Cls[i-1] {
				c++
			}
			for _, x := range m.flatten(d, len(d.K)-1) {
				out.add(x, c)
				if !(i > 0 && r.Cls[i] == r.Cls[i-1] || i+1 < len(r.Cls) && r.Cls[i] == r.Cls[i+1]) {
					c++
				}
			}
		}
		return out
	}
	undefined("source kind %s", s.K)
	return nil
}

// stored0 evaluates a subquery given as a plugin argument: it runs in the
// plugin's scope.
func (m *Model) stored0(sc *mscope, q *Query) *Res {
	return m.query(sc.copy(), q)
}

func (m *Model) flatten(d *D, idx int) []*D {
	if idx < 0 {
		return []*D{d}
	}
	var out []*D
	n := 0
	each := func(v any) {
		if x, ok := v.(*D); ok {
			if y, ok := x.get("_value"); ok {
				v = y
			}
		}
		n++
		c := &D{append([]string{}, d.K...), append([]any{}, d.V...)}
		c.V[idx] = v
		out = append(out, m.flatten(c, idx-1)...)
	}
	switch t := d.V[idx].(type) {
	case nil:
	case []any:
		for _, x := range t {
			if x != nil {
				each(x)
			}
		}
	case *mMat:
		for _, x := range t.rows {
			each(x)
		}
	default:
		each(t)
	}
	if n == 0 {
		out = append(out, m.flatten(d, idx-1)...)
	}
	return out
}

// from: a symbol without call as a source.
func (m *Model) from(sc *mscope, v any) *Res {
	switch t := v.(type) {
	case *mQuery:
		return m.stored(sc, t)
	case *mMat:
		return m.iterate(sc, v)
	case *mExpr:
		return m.from(sc, m.expr(sc, t.e))
	case []any:
		var out []*D
		for _, x := range t {
			d, ok := x.(*D)
			if !ok {
				undefined("list of %T as a source", x)
			}
			out = append(out, d)
		}
		return single(out...)
	case *D:
		return single(t)
	}
	undefined("source of %T", v)
	return nil
}

func (m *Model) iterate(sc *mscope, v any) *Res {
	switch t := v.(type) {
	case *mQuery:
		return m.stored(sc, t)
	case *mMat:
		var out []*D
		for _, x := range t.rows {
			out = append(out, x.(*D))
		}
		return single(out...)
	case *D:
		return single(t)
	case []any:
		var out []*D
		for _, x := range t {
			if x == nil {
				continue
			}
			d, ok := x.(*D)
			if !ok {
				d = &D{[]string{"_value"}, []any{x}}
			}
			out = append(out, d)
		}
		return single(out...)
	case nil:
		return single()
	case int64, string, bool:
		return single(&D{[]string{"_value"}, []any{t}})
	}
	undefined("iterate %T", v)
	return nil
}

func (m *Model) srcRows(a *D) []*D {
	tn, _ := a.get("t")
	tag, _ := a.get("tag")
	base := int64(0)
	if v, ok := a.get("base"); ok {
		base = asInt(v)
		m.event("src:%v:%d", tag, base)
	} else {
		m.event("src:%v", tag)
	}
	name, _ := tn.(string)
	t := m.Tables[name]
	if t == nil {
		undefined("table %v", tn)
	}
	var out []*D
	for i := 0; i < len(t.Rows) && (t.EndAt == 0 || i < t.EndAt); i++ {
		out = append(out, t.model(i, base+m.off, fmt.Sprint(tag)))
	}
	return out
}

func (m *Model) expr(sc *mscope, e *Expr) any {
	m.tick()
	switch e.K {
	case "int":
		return e.I
	case "str":
		return e.S
	case "null":
		return nil
	case "bool":
		return e.I != 0
	case "var", "neg":
		v, ok := sc.resolve(e.S)
		if !ok && e.S[0] == 'Z' && e.K == "var" {
			return nil // unknown here: NULL
		}
		if !ok && len(e.S) > 1 && e.S[1] == 'p' {
			// a parameter the call leaves out
			m.bad(e.S)
			return nil
		}
		if !ok {
			undefined("unresolved %s", e.S)
		}
		if x, ok := v.(*mExpr); ok {
			if m.quiet == 0 {
				m.Stats.Funcs++
			}
			ss := sc.copy()
			a := &D{}
			m.withDefaults(sc, a, x.params, x.defaults)
			ss.add(a)
			v = m.expr(ss, x.e)
		}
		if e.K == "neg" {
			switch t := v.(type) {
			case int64:
				return -t
			case bool:
				return !t
			}
			undefined("neg %T", v)
		}
		return v
	case "op":
		l := m.expr(sc, e.A[0])
		r := m.expr(sc, e.A[1])
		li, lok := l.(int64)
		ri, rok := r.(int64)
		if lok && rok {
			switch e.S {
			case "+":
				return li + ri
			case "-":
				return li - ri
			case "*":
				return li * ri
			}
		}
		if ls, ok := l.(string); ok && e.S == "+" {
			if rs, ok := r.(string); ok {
				return ls + rs
			}
		}
		undefined("op %T %s %T", l, e.S, r)
	case "cmp":
		return m.cmp(e.S, m.expr(sc, e.A[0]), m.expr(sc, e.A[1]))
	case "in":
		l := m.expr(sc, e.A[0])
		var hit bool
		if len(e.A) < 3 {
			undefined("in list of one")
		}
		for _, a := range e.A[1:] {
			v := m.expr(sc, a)
			switch v.(type) {
			case int64, string:
			default:
				undefined("in %T", v)
			}
			if v == l {
				hit = true
			}
			switch l.(type) {
			case int64, string:
			default:
				undefined("in %T", l)
			}
			if fmt.Sprintf("%T", l) != fmt.Sprintf("%T", v) {
				undefined("in mixed")
			}
		}
		return hit
	case "and":
		last := m.expr(sc, e.A[0])
		if !truth(last) {
			return false
		}
		for _, a := range e.A[1:] {
			v := m.expr(sc, a)
			if !truth(v) {
				return false
			}
			if e.S == "&&" {
				last = v
			} else {
				last = true
			}
		}
		return last
	case "or":
		last := m.expr(sc, e.A[0])
		if truth(last) {
			return last
		}
		for _, a := range e.A[1:] {
			v := m.expr(sc, a)
			if truth(v) {
				if e.S == "||" {
					return v
				}
				return true
			}
			last = v
		}
		return last
	case "not":
		return !truth(m.expr(sc, e.A[0]))
	case "bad":
		m.bad(e.S)
		return nil
	case "junk":
		return nil
	case "list":
		out := []any{}
		for _, a := range e.A {
			out = append(out, m.expr(sc, a))
		}
		if len(out) == 1 {
			return out[0]
		}
		return out
	case "member":
		f0 := m.Stats.Funcs
		v := m.expr(sc, e.A[0])
		if a := e.A[0]; a.K == "var" {
			// x.y is one symbol: looking a stored expression up is not a call
			if x, ok := sc.resolve(a.S); ok && m.Stats.Funcs > f0 {
				if _, ok := x.(*mExpr); ok {
					m.Stats.Funcs--
				}
			}
		}
		switch t := v.(type) {
		case *D:
			x, ok := t.get(e.S)
			if !ok {
				return nil
			}
			return x
		case *mMat:
			if m.ck {
				// restored as a list, whose members are those that exist
				for _, x := range t.rows {
					if _, ok := x.(*D).get(e.S); !ok {
						undefined("missing member of materialised rows")
					}
				}
				if len(t.rows) == 0 {
					undefined("member of no materialised rows")
				}
			}
			return m.project(t.rows, e.S)
		case *mQuery:
			return m.project(m.rows(sc, t), e.S)
		case nil:
			return nil
		}
		undefined("member of %T", v)
	case "index":
		v := m.expr(sc, e.A[0])
		if x, ok := v.(*mMat); ok {
			v = x.rows
		}
		i := e.I
		if len(e.A) > 1 {
			x := m.expr(sc, e.A[1])
			if x == nil {
				return nil
			}
			i = asInt(x)
		}
		l, ok := v.([]any)
		if !ok {
			undefined("index of %T", v)
		}
		if i < 0 {
			i += int64(len(l))
		}
		if i < 0 || i >= int64(len(l)) {
			return nil
		}
		return l[i]
	case "slice":
		v := m.expr(sc, e.A[0])
		var ends []int64
		for _, a := range e.A[1:] {
			x := m.expr(sc, a)
			if x == nil {
				return nil
			}
			ends = append(ends, asInt(x))
		}
		if x, ok := v.(*mMat); ok {
			v = x.rows
		}
		l, ok := v.([]any)
		if !ok || len(ends) != len(e.S) {
			undefined("slice of %T", v)
		}
		n := int64(len(l))
		from, to := int64(0), n
		if e.S[0] == 's' {
			from = ends[0]
		}
		if e.S[len(e.S)-1] == 'e' {
			to = ends[len(ends)-1]
		}
		if from < 0 {
			from = max(from+n, 0)
		}
		if to < 0 {
			to = max(to+n, 0)
		}
		to = min(to, n)
		if to <= from {
			return []any{}
		}
		return append([]any{}, l[from:to]...)
	case "call":
		return m.call(sc, e)
	case "sub":
		undefined("subselect outside a column")
	}
	undefined("expr kind %s", e.K)
	return nil
}

func (m *Model) project(rows []any, k string) any {
	out := []any{}
	for _, r := range rows {
		v, _ := r.(*D).get(k)
		out = append(out, v)
	}
	return out
}

func mnum(v any) (float64, bool) {
	switch t := v.(type) {
	case int64:
		return float64(t), true
	case float64:
		return t, true
	}
	return 0, false
}

func (m *Model) cmp(op string, l, r any) any {
	if op == "=" || op == "!=" {
		if l == nil || r == nil {
			eq := l == nil && r == nil
			return eq == (op == "=")
		}
	}
	if op == "=~" {
		ls, ok1 := l.(string)
		rs, ok2 := r.(string)
		if !ok1 || !ok2 {
			undefined("=~ %T %T", l, r)
		}
		re, err := regexp.Compile("(?i)" + rs)
		if err != nil {
			undefined("regexp")
		}
		return re.MatchString(ls)
	}
	switch l.(type) {
	case int64, float64:
		a, _ := mnum(l)
		b, ok := mnum(r)
		if !ok {
			break
		}
		switch op {
		case "=":
			return a == b
		case "!=":
			return a != b
		case "<":
			return a < b
		case ">":
			return a > b
		case "<=":
			return a <= b
		case ">=":
			return a >= b
		}
	case string:
		a := l.(string)
		b, ok := r.(string)
		if !ok {
			break
		}
		switch op {
		case "=":
			return a == b
		case "!=":
			return a != b
		case "<":
			return a < b
		case ">":
			return a > b
		}
	}
	undefined("cmp %T %s %T", l, op, r)
	return nil
}

var builtinFn = map[string]bool{"if": true, "dict": true, "len": true, "get": true,
	"count": true, "sum": true, "min": true, "max": true, "enumerate": true}

func (m *Model) call(sc *mscope, e *Expr) any {
	arg := func(n string) *Expr {
		for i := range e.N {
			if e.N[i] == n {
				return e.A[i]
			}
		}
		return nil
	}
	argq := func(n string) (any, bool) {
		for i := range e.N {
			if e.N[i] == n {
				if i < len(e.Qs) && e.Qs[i] != nil {
					return &mQuery{q: e.Qs[i]}, true
				}
				return m.expr(sc, e.A[i]), true
			}
		}
		return nil, false
	}
	plain := func(v any) any {
		// arguments are materialised by the argument parser
		if mm, ok := v.(*mMat); ok {
			return append([]any{}, mm.rows...)
		}
		return v
	}
	counted := func() {
		if m.quiet == 0 {
			m.Stats.Funcs++
		}
	}
	switch e.S {
	case "if":
		counted()
		c, _ := argq("condition")
		if truth(plain(c)) {
			v, ok := argq("then")
			if !ok {
				return nil
			}
			return plain(v)
		}
		v, ok := argq("else")
		if !ok {
			return nil
		}
		return plain(v)
	case "dict":
		counted()
		d := &D{}
		for i, n := range e.N {
			if i < len(e.Qs) && e.Qs[i] != nil {
				d.set(n, m.rows(sc, &mQuery{q: e.Qs[i]}))
				continue
			}
			v := plain(m.expr(sc, e.A[i]))
			if q, ok := v.(*mQuery); ok {
				v = m.rows(sc, q)
			}
			d.set(n, v)
		}
		return d
	case "len":
		counted()
		v := plain(m.expr(sc, e.A[0]))
		switch t := v.(type) {
		case []any:
			return int64(len(t))
		case string:
			return int64(len(t))
		}
		undefined("len of %T", v)
	case "get":
		counted()
		v, _ := argq("item")
		mem := arg("member")
		if d, ok := v.(*D); ok && mem.K == "str" {
			x, ok := d.get(mem.S)
			if !ok {
				return nil
			}
			return x
		}
		undefined("get on %T", v)
	case "count", "sum", "min", "max", "enumerate":
		counted()
		ag := sc.aggr()
		if ag == nil || ag.root && !m.RootAgg {
			undefined("aggregate on the caller's context")
		}
		var v any
		if len(e.A) > 0 {
			v = plain(m.expr(sc, e.A[0]))
		}
		prev, pres := ag.st[e]
		var nv any
		switch e.S {
		case "count":
			n := int64(0)
			if pres {
				n = prev.(int64)
			}
			nv = n + 1
		case "sum":
			n := int64(0)
			if pres {
				n = prev.(int64)
			}
			nv = n + asInt(v)
		case "min":
			nv = v
			// an item without a value is not the smallest
			if pres && prev != nil && (v == nil || m.cmp("<", v, prev) != true) {
				nv = prev
			}
		case "max":
			nv = v
			if pres && prev != nil && (v == nil || m.cmp("<", v, prev) == true) {
				nv = prev
			}
		case "enumerate":
			var l []any
			if pres {
				l = append(l, prev.([]any)...)
			}
			nv = append(l, v)
		}
		ag.st[e] = nv
		return nv
	case "fx", "fhang":
		counted()
		v := plain(m.expr(sc, arg("v")))
		if q, ok := v.(*mQuery); ok {
			_ = q
			undefined("query passed to fx")
		}
		m.event("fx:%s:%s", arg("tag").S, Canon(v))
		return v
	case "fnil":
		counted()
		m.event("fnil:%s", arg("tag").S)
		return nil
	case "open":
		counted()
		m.event("open:%s", arg("tag").S)
		return &mHandle{"h:" + arg("tag").S}
	case "use":
		counted()
		h, _ := argq("h")
		hh, ok := h.(*mHandle)
		if !ok {
			undefined("use of %T", h)
		}
		m.event("use:%s", arg("tag").S)
		return hh.id
	case "hf":
		if m.HF == 0 {
			return nil // an unknown function is reported and yields NULL
		}
		if m.HF == 1 || m.HF == 3 {
			v, _ := argq("v")
			return asInt(v) + map[int]int64{1: 1000, 3: 2000}[m.HF]
		}
	}
	v, ok := sc.resolve(e.S)
	if !ok {
		undefined("unknown function %s", e.S)
	}
	switch t := v.(type) {
	case *mExpr:
		counted()
		ss := sc.copy()
		ss.ag = &mag{st: map[*Expr]any{}}
		a := m.args(sc, e.N, e.A, e.Qs)
		m.withDefaults(sc, a, t.params, t.defaults)
		ss.add(a)
		return m.expr(ss, t.e)
	case *mQuery:
		if len(e.N) == 0 {
			undefined("stored query called without parameters")
		}
		counted()
		ss := sc.copy()
		ss.ag = &mag{st: map[*Expr]any{}}
		a := m.args(sc, e.N, e.A, e.Qs)
		m.withDefaults(sc, a, t.params, t.defaults)
		ss.add(a)
		return &mQuery{q: t.q, site: ss}
	}
	undefined("call of %T", v)
	return nil
}

// Canon renders a value of the interpreter.
func Canon(v any) string {
	switch t := v.(type) {
	case nil:
		return "∅"
	case bool:
		return fmt.Sprint(t)
	case int64:
		return fmt.Sprint(t)
	case float64:
		return fmt.Sprintf("f%v", t)
	case string:
		return fmt.Sprintf("%q", t)
	case *mHandle:
		return t.id
	case *mMat:
		return Canon(t.rows)
	case []any:
		var r []string
		for _, x := range t {
			r = append(r, Canon(x))
		}
		return "[" + strings.Join(r, ",") + "]"
	case *D:
		var r []string
		for i := range t.K {
			if junkCol(t.K[i]) {
				continue
			}
			r = append(r, t.K[i]+":"+Canon(t.V[i]))
		}
		return "{" + strings.Join(r, ",") + "}"
	}
	return fmt.Sprintf("?%T", v)
}
