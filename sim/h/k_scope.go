package h

import (
	"fmt"
	"time"

	"github.com/Velocidex/ordereddict"
	"velsim/simrt"
	"www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/types"
)

// ---------------------------------------------------------------- C11: life

// A tree of scopes used by several clients at once. Op.K: reg (scope A,
// clean-up id B, C: nested registrations), copy (parent A, new slot B),
// close (scope A), wait. Op.S names the client.

type lifeScope struct {
	sc      types.Scope
	parent  int
	copyA   uint64 // copy invoked / returned
	copyB   uint64
	closes  [][2]uint64 // own Close calls: invoked, returned (0: not yet)
	present bool
}

type lifeReg struct {
	id, slot int
	a, b     uint64 // AddDestructor invoked / returned
	ok       bool
	runs     []uint64
	nested   bool
}

type lifeWorld struct {
	n     uint64
	slots []*lifeScope
	regs  []*lifeReg
	churn []*int
}

func (l *lifeWorld) tick() uint64 { l.n++; return l.n }

func (l *lifeWorld) reg(r *Run, slot, id, nest int, slow int64, nested bool) {
	s := l.slots[slot]
	g := &lifeReg{id: id, slot: slot, nested: nested}
	l.regs = append(l.regs, g)
	g.a = l.tick()
	err := s.sc.AddDestructor(func() {
		g.runs = append(g.runs, l.tick())
		r.W.record(fmt.Sprintf("cleanup:%d", id), int64(slot))
		if slow > 0 {
			time.Sleep(time.Duration(slow) * time.Millisecond)
		}
		if nest > 0 {
			l.reg(r, slot, id+1000, nest-1, 0, true)
		}
	})
	g.b = l.tick()
	g.ok = err == nil
}

func genLife(r *Rand, prop string, deep bool) *Scenario {
	n := 2 + r.N(4) // clients
	slots := 1
	regs := 0
	var ops []Op
	k := 4 + r.N(14)
	if deep {
		k += r.N(16)
	}
	most, short := 8, 14
	if r.N(50) == 0 {
		k, most, short = k+r.N(150), 200, 200
	}
	for i := 0; i < k; i++ {
		o := Op{S: fmt.Sprint(r.N(n))}
		switch x := r.N(100); {
		case x < 40:
			if regs >= most {
				continue
			}
			regs++
			o.K, o.A, o.B = "reg", int64(r.N(slots)), int64(regs)
			if r.P(25) {
				o.C = int64(1 + r.N(2))
			}
			if r.P(15) {
				o.S += " slow"
			}
		case x < 65:
			o.K, o.A, o.B = "copy", int64(r.N(slots)), int64(slots)
			slots++
		case x < 86:
			o.K, o.A = "close", int64(r.N(slots))
			if r.P(35) {
				o.A = 0
			}
		case x < 92:
			// B short-lived sub-scopes, with and without clean-ups
			o.K, o.A, o.B = "churn", int64(r.N(slots)), int64(1+r.N(short))
			o.C = int64(r.N(4))
		default:
			o.K = "wait"
		}
		ops = append(ops, o)
	}
	return &Scenario{Ops: ops, P: map[string]int64{"slots": int64(slots), "clients": int64(n)}}
}

func (l *lifeWorld) chain(slot int) []int {
	var c []int
	for slot >= 0 {
		c = append(c, slot)
		slot = l.slots[slot].parent
	}
	return c
}

// closers of a scope: Close calls that must reach it: its own, and those of an
// ancestor, begun when the whole chain down to it existed and every link of
// the chain was made before anything above it was being closed.
func (l *lifeWorld) closers(slot int) [][2]uint64 {
	var r [][2]uint64
	chain := l.chain(slot)
	for i, s := range chain {
		if i > 0 {
			// the link chain[i-1] -> chain[i] may be missing
			for _, t := range chain[i:] {
				for _, c := range l.slots[t].closes {
					if c[0] < l.slots[chain[i-1]].copyB {
						return r
					}
				}
			}
		}
		for _, c := range l.slots[s].closes {
			if i == 0 || bornOf(l, slot, i-1) < c[0] {
				r = append(r, c)
			}
		}
	}
	return r
}

func maxU(a, b uint64) uint64 {
	if a > b {
		return a
	}
	return b
}

// bornOf: when the i lowest links of the chain of slot all existed.
func bornOf(l *lifeWorld, slot, i int) uint64 {
	b := uint64(0)
	for j, s := range l.chain(slot) {
		if j > i {
			break
		}
		b = maxU(b, l.slots[s].copyB)
	}
	return b
}

func makeLife(r *Run) *Case {
	sc := r.Sc
	l := &lifeWorld{slots: make([]*lifeScope, sc.P["slots"])}
	var check func()
	body := func() {
		l.slots[0] = &lifeScope{sc: vfilter.NewScope(), parent: -1, present: true}
		done := make(chan bool, 16)
		n := int(sc.P["clients"])
		for c := 0; c < n; c++ {
			go func() {
				for _, o := range sc.Ops {
					if int(o.S[0]-'0') != c {
						continue
					}
					r.W.Delay("client")
					switch o.K {
					case "wait":
						simrt.WaitStep(simrt.Step() + 1 + uint64(simrt.Choose(30, 60000)))
						continue
					}
					if int(o.A) >= len(l.slots) || l.slots[o.A] == nil || !l.slots[o.A].present {
						continue
					}
					s := l.slots[o.A]
					switch o.K {
					case "reg":
						slow := int64(0)
						if len(o.S) > 1 {
							slow = 1000
						}
						l.reg(r, int(o.A), int(o.B), int(o.C), slow, false)
					case "churn":
						for i := int64(0); i < o.B; i++ {
							sub := s.sc.Copy()
							runs := 0
							ok := o.C > 0 && i%o.C == 0 && sub.AddDestructor(func() { runs++ }) == nil
							sub.Close()
							if ok {
								l.churn = append(l.churn, &runs)
							}
						}
					case "copy":
						if int(o.B) >= len(l.slots) || l.slots[o.B] != nil {
							continue
						}
						x := &lifeScope{parent: int(o.A), copyA: l.tick()}
						l.slots[o.B] = x
						x.sc = s.sc.Copy()
						x.copyB = l.tick()
						x.present = true
					case "close":
						i := len(s.closes)
						s.closes = append(s.closes, [2]uint64{l.tick(), 0})
						s.sc.Close()
						s.closes[i][1] = l.tick()
					}
				}
				done <- true
			}()
		}
		for c := 0; c < n; c++ {
			<-done
		}
		r.settle()
		check = func() {
			for _, g := range l.regs {
				cl := l.closers(g.slot)
				if g.ok && len(cl) > 0 && len(g.runs) == 0 {
					r.Failf("lost: clean-up %d was accepted on scope %d, which was closed, and did not run", g.id, g.slot)
				}
			}
		}
		check()
		for i := len(l.slots) - 1; i >= 0; i-- {
			if s := l.slots[i]; s != nil && s.present {
				s.closes = append(s.closes, [2]uint64{l.tick(), 0})
				s.sc.Close()
				s.closes[len(s.closes)-1][1] = l.tick()
			}
		}
		r.settle()
	}
	return &Case{Body: body, Check: func() {
		for _, n := range l.churn {
			if *n != 1 {
				r.Failf("runs: the clean-up of a short-lived sub-scope ran %d times", *n)
			}
		}
		for _, g := range l.regs {
			if !g.ok {
				if len(g.runs) > 0 {
					r.Failf("refused: clean-up %d was refused and ran", g.id)
				}
				probe("registration refused")
			} else if len(g.runs) != 1 {
				r.Failf("runs: clean-up %d on scope %d ran %d times", g.id, g.slot, len(g.runs))
			}
			cl := l.closers(g.slot)
			first, ret := ^uint64(0), ^uint64(0)
			for _, c := range cl {
				if c[0] < first {
					first = c[0]
				}
				if c[1] != 0 && c[1] < ret {
					ret = c[1]
				}
			}
			// a scope copied while its parent was being closed may or may not be reached
			ambiguous := uint64(^uint64(0))
			for _, s := range l.chain(g.slot) {
				for _, c := range l.slots[s].closes {
					if c[0] < ambiguous {
						ambiguous = c[0]
					}
				}
			}
			for _, t := range g.runs {
				if t < first && t < ambiguous {
					r.Failf("soon: clean-up %d ran before its scope was closed", g.id)
				}
			}
			if g.ok && g.a > ret && !g.nested {
				// every close that had begun before it was over?
				over := true
				for _, c := range cl {
					if c[0] < g.a && (c[1] == 0 || c[1] > g.a) {
						over = false
					}
				}
				if over {
					r.Failf("late: clean-up %d was accepted after its scope had been closed", g.id)
				}
			}
			if g.nested && g.ok {
				probe("clean-up registered by a clean-up")
			}
		}
	}}
}

// ---------------------------------------------------------------- C12: order

// One client builds a tree, registers clean-ups (some slow, hanging, or
// registering again), and closes it. reg: scope A, id B, C kind: 0 quick,
// 1..: duration index; S "r<n>": registers n more, nested.

var cleanDur = []time.Duration{0, 5 * time.Millisecond, 3 * time.Second, 40 * time.Second, 59 * time.Second, 2 * time.Minute, 3 * time.Hour, -1}

func genOrder(r *Rand, prop string, deep bool) *Scenario {
	slots := 1
	var ops []Op
	k := 3 + r.N(10)
	if deep {
		k += r.N(12)
	}
	hang := r.P(60)
	most := 7
	if r.N(25) == 0 {
		k, hang = k+r.N(120), r.P(20)
		if r.P(60) {
			most = 1 + r.N(2) // many clean-ups on one scope
		}
	}
	for i := 0; i < k; i++ {
		switch x := r.N(100); {
		case x >= 85 && most < 3 && r.P(90):
		case x < 25 && slots < most:
			ops = append(ops, Op{K: "copy", A: int64(r.N(slots)), B: int64(slots)})
			slots++
		case x < 85:
			c := 0
			if r.P(40) {
				c = 1 + r.N(4)
				if hang && r.P(60) {
					c = 5 + r.N(3)
				}
			}
			n := int64(0)
			if r.P(25) {
				n = int64(1 + r.N(3))
			}
			ops = append(ops, Op{K: "reg", A: int64(r.N(slots)), B: int64(100 * (i + 1)), C: int64(c), S: fmt.Sprint(n)})
		default:
			ops = append(ops, Op{K: "close", A: int64(r.N(slots))})
		}
	}
	ops = append(ops, Op{K: "close", A: 0})
	return &Scenario{Ops: ops, P: map[string]int64{"slots": int64(slots)}}
}

func makeOrder(r *Run) *Case {
	sc := r.Sc
	type ev struct {
		slot, id   int
		start, end int64
	}
	type slot struct {
		sc     types.Scope
		parent int
		kids   []int
		closed bool
		regs   []Op
	}
	slots := make([]*slot, sc.P["slots"])
	var evs []*ev
	var bad []string
	failf := func(f string, a ...any) { bad = append(bad, fmt.Sprintf(f, a...)) }
	release := (chan bool)(nil)
	var reg func(s int, o Op)
	reg = func(si int, o Op) {
		s := slots[si]
		err := s.sc.AddDestructor(func() {
			e := &ev{slot: si, id: int(o.B), start: simrt.Now(), end: -1}
			evs = append(evs, e)
			r.W.record(fmt.Sprintf("cleanup:%d", o.B), int64(si))
			n := 0
			fmt.Sscan(o.S, &n)
			if n > 0 {
				// it registers another one on the closing scope
				reg(si, Op{A: o.A, B: o.B + 1, C: 0, S: fmt.Sprint(n - 1)})
			}
			if d := cleanDur[o.C]; d < 0 {
				r.W.fault("clean-up hangs")
				<-release
			} else if d > 0 {
				r.W.fault("clean-up is slow")
				time.Sleep(d)
			}
			e.end = simrt.Now()
		})
		if err != nil {
			failf("refused: registration of clean-up %d: %v", o.B, err)
		}
	}
	// what a close has to do: the clean-ups of one scope, in order
	expect := func(regs []Op) []Op {
		var res []Op
		cur := regs
		for len(cur) > 0 {
			var next []Op
			for i := len(cur) - 1; i >= 0; i-- {
				res = append(res, cur[i])
				n := 0
				fmt.Sscan(cur[i].S, &n)
				if n > 0 {
					next = append(next, Op{A: cur[i].A, B: cur[i].B + 1, S: fmt.Sprint(n - 1)})
				}
			}
			cur = next
		}
		return res
	}
	body := func() {
		release = make(chan bool)
		slots[0] = &slot{sc: vfilter.NewScope(), parent: -1}
		for _, o := range sc.Ops {
			s := slots[o.A]
			if s == nil || s.closed {
				continue
			}
			switch o.K {
			case "copy":
				slots[o.B] = &slot{sc: s.sc.Copy(), parent: int(o.A)}
				s.kids = append(s.kids, int(o.B))
			case "reg":
				reg(int(o.A), o)
				s.regs = append(s.regs, o)
			case "close":
				mark := len(evs)
				t0 := simrt.Now()
				s.sc.Close()
				took := time.Duration(simrt.Now() - t0)
				var all []int
				var walk func(i int)
				walk = func(i int) {
					if slots[i].closed {
						return
					}
					for _, k := range slots[i].kids {
						walk(k)
					}
					slots[i].closed = true
					all = append(all, i)
				}
				walk(int(o.A))
				limit := time.Second
				got := evs[mark:]
				pos := map[int]int{}
				for _, i := range all {
					want := expect(slots[i].regs)
					var have []int
					var last *ev
					for j, e := range got {
						if e.slot != i {
							continue
						}
						have = append(have, e.id)
						if last != nil {
							if last.end >= 0 && e.start < last.end && e.start-last.start < int64(45*time.Second) {
								failf("overlap: clean-up %d started while %d was running", e.id, last.id)
							}
							if last.end < 0 && e.start-last.start < int64(45*time.Second) {
								failf("impatient: clean-up %d started %.1fs after %d, which still runs", e.id, float64(e.start-last.start)/1e9, last.id)
							}
						}
						last = e
						pos[i] = j
					}
					var ids []int
					for _, w := range want {
						ids = append(ids, int(w.B))
						d := cleanDur[w.C]
						if d < 0 || d > 60*time.Second {
							limit += 90 * time.Second
							probe("clean-up outlasts the patience")
						} else {
							limit += d + d/2
						}
					}
					if fmt.Sprint(have) != fmt.Sprint(ids) {
						failf("order: scope %d: clean-ups ran %v, expected %v", i, have, ids)
					}
				}
				// children before their parents
				for _, i := range all {
					for j, e := range got {
						if e.slot != i {
							continue
						}
						for p := slots[i].parent; p >= 0; p = slots[p].parent {
							for _, f := range got[:j] {
								if f.slot == p {
									failf("order: clean-up %d of scope %d ran before %d of its sub-scope %d", f.id, p, e.id, i)
								}
							}
						}
					}
				}
				if took > limit {
					failf("slow: closing took %.1fs, at most %.1fs expected", took.Seconds(), limit.Seconds())
				}
			}
		}
		close(release)
		r.settle()
		time.Sleep(24 * time.Hour)
	}
	return &Case{Body: body, Check: func() {
		for _, b := range bad {
			r.Failf("%s", b)
		}
		seen := map[[2]int]int{}
		for _, e := range evs {
			seen[[2]int{e.slot, e.id}]++
		}
		for k, n := range seen {
			if n != 1 {
				r.Failf("runs: clean-up %d ran %d times", k[1], n)
			}
		}
	}}
}

// ---------------------------------------------------------------- C21: isolation

// Scopes with an owner goroutine each; everybody may look up. Ops:
// set (scope A, name B, value C), get (A, B), copy (A -> B), indep (A -> B,
// NewScope), clear (A: ClearContext), cset / cget (context), fset / fget
// (function), S client.

type isoVer struct {
	v    int64
	a, b uint64 // invoked, returned
}

type isoScope struct {
	sc    types.Scope
	made  bool
	base  map[int]map[int64]bool // possible inherited values by name (-1: absent)
	hist  map[int][]isoVer
	ctx   int // context store
	fns   int // function table
	owner int
}

type isoStore struct {
	sets map[int][]isoVer
	cfg  map[string]int64 // operators, sorter, logger etc. in force
}

func (s *isoStore) inherit(from map[string]int64) {
	s.cfg = map[string]int64{}
	for k, v := range from {
		s.cfg[k] = v
	}
}

func genIso(r *Rand, prop string, deep bool) *Scenario {
	n := 1 + r.N(4)
	slots := 1
	owner := []int{0}
	var ops []Op
	k := 6 + r.N(24)
	if deep {
		k += r.N(30)
	}
	if r.N(50) == 0 {
		k += r.N(200)
	}
	val := int64(0)
	for i := 0; i < k; i++ {
		s := r.N(slots)
		c := r.N(n)
		o := Op{A: int64(s), B: int64(r.N(3)), S: fmt.Sprint(c)}
		val++
		o.C = val
		switch x := r.N(100); {
		case x < 25:
			o.K = "set"
			o.S = fmt.Sprint(owner[s])
		case x < 50:
			o.K = "get"
		case x < 68:
			o.K, o.B = "copy", int64(slots)
			slots++
			owner = append(owner, r.N(n))
		case x < 74:
			o.K, o.B = "indep", int64(slots)
			slots++
			owner = append(owner, r.N(n))
		case x < 77:
			o.K = "clear"
			o.S = fmt.Sprint(owner[s])
		case x < 84:
			o.K = "cset"
		case x < 92:
			o.K = "cget"
		case x < 96:
			o.K = "fset"
		default:
			o.K = "fget"
		}
		if n == 1 && o.K != "clear" && o.K != "indep" && o.K != "copy" && r.N(3) > 0 {
			o.K = []string{"fset", "fget", "fget"}[r.N(3)]
		}
		if o.K == "fset" || o.K == "fget" {
			o.B = int64(r.N(len(isoFacets) * 2))
		}
		ops = append(ops, o)
	}
	ops = append(ops, Op{K: "end"})
	return &Scenario{Ops: ops, P: map[string]int64{"slots": int64(slots), "clients": int64(n)}}
}

func isoAllowed(base map[int64]bool, hist []isoVer, a, b uint64) map[int64]bool {
	res := map[int64]bool{}
	last := -1
	for i, h := range hist {
		if h.b != 0 && h.b < a {
			last = i
		}
	}
	if last < 0 {
		for v := range base {
			res[v] = true
		}
		if base == nil {
			res[-1] = true
		}
	} else {
		res[hist[last].v] = true
	}
	for i := last + 1; i < len(hist); i++ {
		if hist[i].a < b {
			res[hist[i].v] = true
		}
	}
	return res
}

func makeIso(r *Run) *Case {
	sc := r.Sc
	slots := make([]*isoScope, sc.P["slots"])
	var stores []*isoStore
	var n uint64
	tick := func() uint64 { n++; return n }
	names := []string{"va", "vb", "vc"}
	tables := []map[string]int64{{}} // functions and plugins by table
	newStore := func() int {
		stores = append(stores, &isoStore{sets: map[int][]isoVer{}, cfg: map[string]int64{}})
		return len(stores) - 1
	}
	// unordered concurrent writers: any set that could be the last one
	reg := func(hist []isoVer, a, b uint64) map[int64]bool {
		res := map[int64]bool{}
		var done []isoVer
		for _, h := range hist {
			if h.a >= b {
				continue
			}
			if h.b != 0 && h.b < a {
				done = append(done, h)
			} else {
				res[h.v] = true
			}
		}
		if len(done) == 0 {
			res[-1] = true
		}
		for i, h := range done {
			over := false
			for j, g := range done {
				if i != j && g.a > h.b {
					over = true // overwritten before the read began
				}
			}
			if !over {
				res[h.v] = true
			}
		}
		return res
	}
	body := func() {
		done := make(chan bool, 8)
		// functions are installed before anything runs concurrently
		slots[0] = &isoScope{sc: vfilter.NewScope(), made: true, hist: map[int][]isoVer{}, base: map[int]map[int64]bool{}, ctx: newStore(), fns: 0}
		k := int(sc.P["clients"])
		for c := 0; c < k; c++ {
			go func() {
				defer func() { done <- true }()
				for _, o := range sc.Ops {
					if o.K == "end" || o.S != fmt.Sprint(c) {
						continue
					}
					if int(o.A) >= len(slots) || slots[o.A] == nil || !slots[o.A].made {
						continue
					}
					s := slots[o.A]
					r.W.Delay("client")
					switch o.K {
					case "set":
						x := int(o.B)
						s.hist[x] = append(s.hist[x], isoVer{o.C, tick(), 0})
						i := len(s.hist[x]) - 1
						s.sc.AppendVars(ordereddict.NewDict().Set(names[x], o.C))
						s.hist[x][i].b = tick()
					case "get":
						x := int(o.B)
						a := tick()
						v, ok := s.sc.Resolve(names[x])
						b := tick()
						got := int64(-1)
						if ok {
							got, _ = v.(int64)
						}
						if al := isoAllowed(s.base[x], s.hist[x], a, b); !al[got] {
							r.Failf("variable: %s in scope %d is %d, possible: %v", names[x], o.A, got, al)
						} else if len(s.hist[x]) == 0 {
							s.base[x] = map[int64]bool{got: true}
						}
						if len(s.hist[x]) == 0 {
							probe("inherited variable read")
						}
					case "copy", "indep":
						if int(o.B) >= len(slots) || slots[o.B] != nil {
							continue
						}
						y := &isoScope{hist: map[int][]isoVer{}, base: map[int]map[int64]bool{}, ctx: s.ctx, fns: s.fns}
						slots[o.B] = y
						a := tick()
						if o.K == "copy" {
							y.sc = s.sc.Copy()
							b := tick()
							for x := range names {
								y.base[x] = isoAllowed(s.base[x], s.hist[x], a, b)
							}
							if y.ctx != s.ctx {
								y.ctx = s.ctx
							}
						} else {
							y.sc = s.sc.NewScope()
							y.ctx = newStore()
							stores[y.ctx].inherit(stores[s.ctx].cfg)
							t := &isoStore{}
							t.inherit(tables[s.fns])
							tables = append(tables, t.cfg)
							y.fns = len(tables) - 1
							probe("scope made independent")
						}
						y.made = true
					case "clear":
						if k > 1 {
							continue
						}
						// functions and plugins stay shared with the scopes it was
						// derived from, everything else is its own from now on
						old := stores[s.ctx].cfg
						s.sc.ClearContext()
						s.ctx = newStore()
						stores[s.ctx].inherit(old)
					case "cset":
						st := stores[s.ctx]
						x := int(o.B)
						st.sets[x] = append(st.sets[x], isoVer{o.C, tick(), 0})
						i := len(st.sets[x]) - 1
						s.sc.SetContext(names[x], o.C)
						st.sets[x][i].b = tick()
					case "cget":
						st := stores[s.ctx]
						x := int(o.B)
						a := tick()
						v, ok := s.sc.GetContext(names[x])
						b := tick()
						got := int64(-1)
						if ok {
							got, _ = v.(int64)
						}
						if al := reg(st.sets[x], a, b); !al[got] {
							r.Failf("context: %s in scope %d is %d, possible: %v", names[x], o.A, got, al)
						}
					case "fset":
						if k > 1 {
							continue // scopes are configured by one client only
						}
						isoConfigure(s, o, tables[s.fns], stores[s.ctx].cfg)
					case "fget":
						isoInspect(r, s, o, tables[s.fns], stores[s.ctx].cfg)
					}
				}
			}()
		}
		for c := 0; c < k; c++ {
			<-done
		}
		// at rest every scope shows exactly its own last definitions
		for i, s := range slots {
			if s == nil || !s.made {
				continue
			}
			for x, name := range names {
				a := tick()
				v, ok := s.sc.Resolve(name)
				got := int64(-1)
				if ok {
					got, _ = v.(int64)
				}
				if al := isoAllowed(s.base[x], s.hist[x], a, tick()); !al[got] {
					r.Failf("variable: at rest %s in scope %d is %d, possible: %v", name, i, got, al)
				}
			}
		}
		// every scope has exactly the configuration it was given
		for _, o := range sc.Ops {
			if o.K != "fset" || k > 1 {
				continue
			}
			for i, s := range slots {
				if s != nil && s.made {
					isoInspect(r, s, Op{A: int64(i), B: o.B}, tables[s.fns], stores[s.ctx].cfg)
				}
			}
		}
		slots[0].sc.Close()
	}
	return &Case{Body: body, Check: func() {}}
}

func init() {
	kind(&Kind{Name: "life", Gen: genLife, Make: makeLife})
	kind(&Kind{Name: "order", Gen: genOrder, Make: makeOrder, NoTime: true, NoDelay: true})
	kind(&Kind{Name: "iso", Gen: genIso, Make: makeIso})
	prop("C11", 6, 40000, "trees of scopes with registrations, copies and closes by 2 to 5 concurrent clients, each under 6 schedules", PK{"life", 1})
	prop("C12", 2, 40000, "trees of scopes with quick, slow, hanging and re-registering clean-ups, closed in some order, under simulated time", PK{"order", 1})
	prop("C21", 4, 40000, "definitions, look-ups and derivations of scopes by 1 to 4 concurrent clients", PK{"iso", 1})
}
