package h

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"velsim/simrt"
	"www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/marshal"
	"www.velocidex.com/golang/vfilter/types"
)

// ---------------------------------------------------------------- ckpt: checkpoint and restore (C22)

// A session defines and queries; Ops happen before the statement A:
//
//	ckpt   take a checkpoint and write it; B=1: while the session goes on;
//	       S="short": the disk is full halfway
//	crash  the process dies, at step C of the statement if C>0; the last
//	       checkpoint that survives and can be restored is restored.
//	       S="kind:x:y": damage to the newest surviving checkpoint
//	shift  the data of the tables changes
//
// P: ignore (1+ index of the definition the restoring host ignores), again
// (every checkpoint is taken twice and has to be the same).

type diskChunk struct {
	off    int
	data   []byte
	synced bool
}

type diskRec struct {
	id     int // checkpoint
	off    int
	len    int
	chunks []*diskChunk
}

// ckDisk is the storage of the host: a log of records.
type ckDisk struct {
	epoch int
	size  int
	recs  []*diskRec
}

type ckStep struct {
	stmt   int
	before []int // definitions known before, by their number in defs
	def    int   // definition made, -1: none
	out    *Out
	off    int64
	dead   bool // the process died in it
}

type ckpt struct {
	id      int
	data    string
	lo, hi  int // definitions of the lineage it may hold
	lineage []int
	done    bool
	events  int
}

type ckWorld struct {
	disk  *ckDisk
	steps []*ckStep
	names []string // definitions: their names
	cks   []*ckpt
}

func genCkpt(r *Rand, prop string, deep bool) *Scenario {
	o := GOpts{Lets: 2 + r.N(5), Depth: 1 + r.N(2), Order: r.P(40), Group: r.P(40), Mat: true, Sub: r.P(50),
		Fx: r.N(30), Calls: true, Foreach: true, Null: r.P(50), MaxRows: 4, Limit: r.P(20), Workers: r.P(20)}
	q := 2 + r.N(3)
	if deep {
		o.Lets += r.N(4)
		q += r.N(3)
	}
	prog, tables := GenSession(r, o, q)
	sc := &Scenario{Prog: prog, Tables: tables, P: map[string]int64{}}
	if r.P(15) {
		sc.P["bq"] = int64(1 + r.N(1<<20))
	}
	n := len(prog)
	crashes := 1 + r.N(2)
	for i := 1; i < n; i++ {
		if r.P(45) {
			op := Op{K: "ckpt", A: int64(i)}
			if r.P(40) {
				op.B = 1
			}
			if r.P(8) {
				op.S = "short"
			}
			sc.Ops = append(sc.Ops, op)
		}
		if r.P(25) {
			sc.Ops = append(sc.Ops, Op{K: "shift", A: int64(i)})
		}
		if crashes > 0 && i > 1 && r.P(15+55*i/n) {
			crashes--
			op := Op{K: "crash", A: int64(i), B: int64(r.N(1 << 16))}
			if r.P(30) {
				op.C = int64(1 + r.N(120))
			}
			if r.P(45) {
				op.S = fmt.Sprintf("%s:%d:%d", r.Pick("null", "notype", "type", "nodata", "cut", "cutall", "vars", "flip", "list", "retype"), r.N(1000), r.N(1000))
			}
			sc.Ops = append(sc.Ops, op)
		}
	}
	if r.P(15) {
		sc.P["ignore"] = int64(1 + r.N(n))
	}
	if r.P(30) {
		sc.P["again"] = 1
	}
	return sc
}

func (w *ckWorld) lineage(l []int) []int { return append([]int{}, l...) }

// write appends a record in chunks and makes it durable.
func (w *ckWorld) write(r *Run, c *ckpt, short bool) {
	d := w.disk
	epoch := d.epoch
	rec := &diskRec{id: c.id, off: d.size, len: len(c.data)}
	d.size += rec.len
	d.recs = append(d.recs, rec)
	b := []byte(c.data)
	for o := 0; o < len(b); {
		k := 64 + int(simrt.Choose(6, 30000))*97
		if o+k > len(b) {
			k = len(b) - o
		}
		if short && o > len(b)/2 {
			r.W.fault("disk full")
			return
		}
		rec.chunks = append(rec.chunks, &diskChunk{off: o, data: b[o : o+k]})
		o += k
		r.W.Delay("disk write")
		if d.epoch != epoch {
			return
		}
	}
	for _, c := range rec.chunks {
		c.synced = true
		if simrt.Choose(2, 6000) != 0 {
			r.W.Delay("disk sync")
			if d.epoch != epoch {
				return
			}
		}
	}
	c.done = true
}

// crash leaves what is durable: synced chunks, any of the others, some torn.
func (d *ckDisk) crash(r *Run) {
	d.epoch++
	for _, rec := range d.recs {
		var keep []*diskChunk
		for _, c := range rec.chunks {
			if !c.synced {
				switch simrt.Choose(3, 40000) {
				case 1:
					r.W.fault("lost write")
					continue
				case 2:
					r.W.fault("torn write")
					c.data = c.data[:int(simrt.Choose(uint32(len(c.data)), 65536))]
				}
				c.synced = true
			}
			keep = append(keep, c)
		}
		rec.chunks = keep
	}
}

func (rec *diskRec) read() []byte {
	end := 0
	for _, c := range rec.chunks {
		end = max(end, c.off+len(c.data))
	}
	b := make([]byte, end)
	for _, c := range rec.chunks {
		copy(b[c.off:], c.data)
	}
	return b
}

// take makes a checkpoint of the scope.
func (w *ckWorld) take(r *Run, scope types.Scope, c *ckpt) bool {
	item, err := marshal.Marshal(scope, scope)
	if err != nil {
		r.Failf("checkpoint: %v", err)
		return false
	}
	b, err := json.Marshal(item)
	if err != nil {
		r.Failf("checkpoint: %v", err)
		return false
	}
	c.data = string(b)
	return true
}

type ckItem struct {
	Type string          `json:"type,omitempty"`
	Data json.RawMessage `json:"data,omitempty"`
}

// damage changes a record; must: it cannot be restored.
func damage(b []byte, how string) (out []byte, must bool) {
	f := strings.Split(how, ":")
	if len(f) != 3 {
		return b, false
	}
	x, y := 0, 0
	fmt.Sscan(f[1], &x)
	fmt.Sscan(f[2], &y)
	switch f[0] {
	case "cutall":
		if len(b) == 0 {
			return b, true
		}
		return b[:(x*1000+y)%len(b)], true
	case "flip":
		if len(b) == 0 {
			return b, true
		}
		c := bytes.Clone(b)
		c[(x*1000+y)%len(b)] ^= 1 << (y % 8)
		return c, false
	}
	top := ckItem{}
	var scope struct {
		Vars map[string]*ckItem `json:"vars"`
	}
	if json.Unmarshal(b, &top) != nil || json.Unmarshal(top.Data, &scope) != nil {
		return b, false
	}
	var ks []string
	for k := range scope.Vars {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var vars any = scope.Vars
	if f[0] == "vars" {
		vars = []int{x}
		must = true
	} else {
		if len(ks) == 0 {
			return b, false
		}
		k := ks[x%len(ks)]
		it := scope.Vars[k]
		switch f[0] {
		case "null":
			scope.Vars[k], must = nil, true
		case "notype":
			it.Type, must = "", true
		case "type":
			it.Type, must = "Rep1ay", true
		case "nodata":
			it.Data, must = nil, true
		case "list":
			if it.Type != "JSON" {
				it.Data, must = json.RawMessage("[1,2]"), true
			}
		case "retype":
			if it.Type == "OrderedDict" {
				it.Type, must = "Replay", true
			} else if it.Type == "Replay" {
				it.Type, must = "OrderedDict", true
			}
		case "cut":
			if it.Type != "Replay" {
				return b, false
			}
			q := ""
			json.Unmarshal(it.Data, &q)
			if len(q) == 0 {
				return b, false
			}
			q = q[:y%len(q)]
			it.Data, _ = json.Marshal(q)
			if _, err := vfilter.Parse(q); err != nil {
				must = true
			}
		}
	}
	d, _ := json.Marshal(map[string]any{"vars": vars})
	top.Data = d
	out, _ = json.Marshal(top)
	return out, must
}

// keys of a record that was written completely.
func ckKeys(data string) map[string]bool {
	var top ckItem
	var scope struct {
		Vars map[string]*ckItem `json:"vars"`
	}
	json.Unmarshal([]byte(data), &top)
	json.Unmarshal(top.Data, &scope)
	r := map[string]bool{}
	for k := range scope.Vars {
		r[k] = true
	}
	return r
}

// recover restores the newest checkpoint that survived.
func (w *ckWorld) recover(r *Run, how string) (types.Scope, []int) {
	first := true
	for i := len(w.disk.recs) - 1; i >= 0; i-- {
		rec := w.disk.recs[i]
		c := w.cks[rec.id]
		b := rec.read()
		whole := string(b) == c.data
		must := false
		if whole && first && how != "" {
			b, must = damage(b, how)
			r.W.fault("damage:" + strings.Split(how, ":")[0])
			first = false
		}
		item := &types.MarshalItem{}
		if err := json.Unmarshal(b, item); err != nil {
			probe("ckpt: partial record")
			if whole && string(b) == c.data {
				r.Failf("restore: a complete checkpoint does not decode: %v", err)
			}
			continue
		}
		var ignore []string
		if k := r.Sc.P["ignore"]; k > 0 && int(k) <= len(r.Sc.Prog) {
			ignore = append(ignore, r.Sc.Prog[k-1].Let)
		}
		fresh := r.W.NewScope()
		u := vfilter.NewUnmarshaller(ignore)
		v, err := u.Unmarshal(u, fresh, item)
		same := string(b) == c.data
		if err != nil {
			probe("ckpt: damage refused")
			if same {
				r.Failf("restore: a complete checkpoint cannot be restored: %v", err)
			}
			continue
		}
		if must && !(len(ignore) > 0) {
			r.Failf("restore: a damaged checkpoint (%s) was restored without an error", how)
		}
		if !same {
			// what it holds is not known
			probe("ckpt: damage not noticeable")
			continue
		}
		scope, ok := v.(types.Scope)
		if !ok {
			r.Failf("restore: got a %T", v)
			continue
		}
		// which definitions it holds: those it had to, and a prefix of those
		// made meanwhile
		keys := ckKeys(c.data)
		var lin []int
		missing := false
		for j, d := range c.lineage[:c.hi] {
			if !keys[w.names[d]] {
				missing = true
				if j < c.lo {
					r.Failf("checkpoint: definition %s is missing", w.names[d])
				}
				continue
			}
			again := false
			for _, e := range c.lineage[:j] {
				again = again || w.names[e] == w.names[d]
			}
			if missing && again {
				continue // made after the checkpoint
			}
			if missing {
				r.Failf("checkpoint: holds %s but not an earlier definition", w.names[d])
			}
			if len(ignore) > 0 && ignore[0] == w.names[d] {
				if _, pres := scope.Resolve(w.names[d]); pres {
					r.Failf("restore: ignored variable %s was restored", w.names[d])
				}
				continue
			}
			if _, pres := scope.Resolve(w.names[d]); !pres {
				r.Failf("restore: %s is not defined in the restored scope", w.names[d])
			}
			if again {
				probe("ckpt: redefined name restored")
			}
			if again && j >= c.lo {
				// defined again while the checkpoint was taken: either
				d = len(w.names)
				w.names = append(w.names, w.names[c.lineage[j]])
			}
			lin = append(lin, d)
		}
		probe(fmt.Sprintf("ckpt: restored with %d definitions", len(lin)))
		return scope, lin
	}
	probe("ckpt: nothing to restore")
	return r.W.NewScope(), nil
}

type mpoison struct{ name string }

func (p *mpoison) get(n string) (any, bool) {
	if n == p.name {
		undefined("definition of unknown value")
	}
	return nil, false
}

func makeCkpt(r *Run) *Case {
	sc := r.Sc
	for _, t := range sc.Tables {
		if t.Endless || t.Block {
			undefined("nothing ends the query")
		}
	}
	asts := parseProg(sc.Text())
	if len(asts) != len(sc.Prog) {
		undefined("program parses differently")
	}
	w := &ckWorld{disk: &ckDisk{}}
	return &Case{Body: func() { w.run(r, asts) }, Check: func() { w.check(r) }}
}

func (w *ckWorld) run(r *Run, asts []*vfilter.VQL) {
	sc := r.Sc
	r.ctx, r.cancel = newCtx()
	scope := r.W.NewScope()
	var lin []int
	var pending chan bool
	died := false
	limit := has(sc.Prog, func(q *Query) bool { return q.Limit != nil })
	var cur []*ckpt // checkpoints being taken
	wait := func() {
		if pending != nil {
			<-pending
			pending = nil
		}
		cur = nil
	}
	for i, s := range sc.Prog {
		dieAt := int64(-1)
		how := ""
		for _, o := range sc.Ops {
			if o.A != int64(i) {
				continue
			}
			switch o.K {
			case "shift":
				r.W.setOff(r.W.getOff() + 10)
			case "ckpt":
				wait()
				c := &ckpt{id: len(w.cks), lo: len(lin), hi: len(lin), lineage: w.lineage(lin)}
				w.cks = append(w.cks, c)
				if o.B == 0 {
					n := len(Events())
					vars := scope.PrintVars()
					if !w.take(r, scope, c) {
						return
					}
					if len(Events()) != n && !died && !limit {
						r.Failf("checkpoint: evaluated something: %v", Events()[n:])
					}
					if scope.PrintVars() != vars {
						r.Failf("checkpoint: changed the scope")
					}
					if sc.P["again"] != 0 {
						d := &ckpt{}
						if w.take(r, scope, d) && d.data != c.data {
							r.Failf("checkpoint: two checkpoints of the same scope differ:\n %s\n %s", c.data, d.data)
						}
					}
					w.write(r, c, o.S == "short")
				} else {
					cur = append(cur, c)
					pending = make(chan bool, 1)
					p, sn := pending, scope
					go func() {
						if w.take(r, sn, c) {
							w.write(r, c, o.S == "short")
						}
						p <- true
					}()
				}
			case "crash":
				if o.C > 0 && dieAt < 0 {
					dieAt, how = o.C, o.S
					continue
				}
				r.W.fault("crash")
				w.disk.crash(r)
				r.cancel()
				wait()
				scope, lin = w.recover(r, o.S)
				r.ctx, r.cancel = newCtx()
			}
			if len(r.Fails) > 0 {
				return
			}
		}
		st := &ckStep{stmt: i, before: w.lineage(lin), def: -1, off: r.W.getOff()}
		w.steps = append(w.steps, st)
		if dieAt >= 0 {
			r.W.fault("crash in a statement")
			if s.Let != "" {
				// a checkpoint being taken may hold it
				for _, c := range cur {
					c.lineage = append(c.lineage, len(w.names))
					c.hi++
				}
				w.names = append(w.names, s.Let)
			}
			ctx, cancel := context.WithCancel(r.ctx)
			gone := make(chan bool, 1)
			go func() {
				for range asts[i].Eval(ctx, scope) {
				}
				gone <- true
			}()
			simrt.WaitStep(simrt.Step() + uint64(dieAt))
			st.dead, died = true, true
			w.disk.crash(r)
			cancel()
			r.cancel()
			<-gone
			wait()
			scope, lin = w.recover(r, how)
			r.ctx, r.cancel = newCtx()
			continue
		}
		st.out = r.eval(scope, asts[i], true)
		if s.Let != "" {
			st.def = len(w.names)
			w.names = append(w.names, s.Let)
			lin = append(lin, st.def)
			for _, c := range cur {
				c.lineage = append(c.lineage, st.def)
				c.hi++
			}
		}
		if len(r.Fails) > 0 {
			return
		}
	}
	wait()
	scope.Close()
	r.cancel()
	r.settle()
}

func (w *ckWorld) check(r *Run) {
	m := NewModel(r.Sc.Tables)
	m.budget = 8000
	m.ck = true
	vals := make([]mvars, len(w.names))
	for i, n := range w.names {
		vals[i] = &mpoison{n}
	}
	clean := true
	for _, st := range w.steps {
		s := r.Sc.Prog[st.stmt]
		if st.dead {
			clean = false
			continue
		}
		m.Root.vars = nil
		for _, d := range st.before {
			m.Root.add(vals[d])
		}
		m.off = st.off
		n := len(m.Root.vars)
		var exp *Res
		ok, _ := Safe(func() { exp = m.Exec(s) })
		if st.def >= 0 {
			vals[st.def] = &mpoison{s.Let}
			if ok && len(m.Root.vars) > n {
				vals[st.def] = m.Root.vars[n]
			}
		}
		if !ok {
			clean = false
			probe("ckpt: statement not judged")
			continue
		}
		if !st.out.Closed {
			r.Failf("no end: the output channel did not close")
		}
		if exp == nil {
			continue
		}
		if why := Compare(exp, st.out.strs()); why != "" {
			r.Failf("rows: statement %d: %s", st.stmt, why)
			return
		}
		probe("ckpt: statement judged")
	}
	if clean && !m.Ever.Limit {
		if why := diffEvents(m, r); why != "" {
			r.Failf("events: %s", why)
		}
	}
}

func init() {
	kind(&Kind{Name: "ckpt", Gen: genCkpt, Make: makeCkpt})
	prop("C22", 4, 6000, "", PK{"ckpt", 3}, PK{"ckval", 1})
}
