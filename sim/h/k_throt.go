package h

import (
	"fmt"
	"sort"
	"time"

	"velsim/simrt"
	"www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/types"
)

// ---------------------------------------------------------------- throt: throttling (C16)

// Ops "op": client S does B operations, C ms apart, via scope A (-1: the
// throttler itself). "close": client S, after C ms, closes scope A or the
// throttler (-1). P: rate, form (0 operations, 1 queries), scopes, clients.

var throtRates = []int64{1, 2, 3, 5, 7, 10, 33, 50, 99, 100, 101, 1000, 0}

func genThrot(r *Rand, prop string, deep bool) *Scenario {
	sc := &Scenario{P: map[string]int64{}}
	p := sc.P
	p["rate"] = throtRates[r.N(len(throtRates))]
	p["form"] = int64(r.N(2))
	n := 1 + r.N(4)
	p["clients"] = int64(n)
	p["scopes"] = int64(1 + r.N(3))
	p["on"] = int64(r.N(2)) // the throttle is installed on scope 0 or 1
	p["notime"], p["nodelay"] = 1, 1
	if r.P(25) {
		p["two"] = []int64{1, 2, 20, 99, 100}[r.N(5)]
	}
	for i := 0; i < n; i++ {
		for j := 0; j < 1+r.N(3); j++ {
			o := Op{K: "op", S: fmt.Sprint(i), A: int64(r.N(int(p["scopes"])+1) - 1), B: int64(1 + r.N(12))}
			if r.P(50) {
				o.C = int64(r.N(3000))
			}
			sc.Ops = append(sc.Ops, o)
		}
	}
	if r.P(60) {
		for i := 0; i < 1+r.N(3); i++ {
			sc.Ops = append(sc.Ops, Op{K: "close", S: fmt.Sprint(n + i), A: int64(r.N(int(p["scopes"])+1) - 1), C: int64(r.N(9000))})
		}
	}
	return sc
}

func makeThrot(r *Run) *Case {
	sc := r.Sc
	p := sc.P
	if p["notime"] == 0 || p["nodelay"] == 0 {
		undefined("exact times need an exact clock")
	}
	rate := p["rate"]
	free := rate == 0 || rate >= 100
	type adm struct{ a, b int64 }
	var adms []adm
	closed := int64(-1)
	overAt := int64(-1)
	var asts []*vfilter.VQL
	if p["form"] == 1 {
		r.W.Tables = map[string]*Table{"t0": {Cols: []string{"A"}, Rows: [][]any{{int64(0)}, {int64(1)}, {int64(2)}}, Endless: true}}
		asts = parseProg("SELECT A FROM src(t='t0', tag='s')")
	}
	body := func() {
		r.ctx, r.cancel = newCtx()
		// scopes: 0 the root, 1 and 2 below it; the throttle is on P.on
		root := r.W.NewScope()
		scopes := []types.Scope{root}
		on := int(p["on"])
		t := vfilter.NewTimeThrottler(float64(rate))
		var before types.Throttler
		if p["two"] != 0 {
			// the scope had another one first
			before = vfilter.NewTimeThrottler(float64(p["two"]))
			root.SetThrottler(before)
		}
		if on == 0 || p["scopes"] < 2 {
			root.SetThrottler(t)
			on = 0
		}
		for i := 1; i < int(p["scopes"]); i++ {
			s := scopes[i-1].Copy()
			if i == 1 && on == 1 {
				s.SetThrottler(t)
			}
			scopes = append(scopes, s)
		}
		done := make(chan bool, 16)
		n := 0
		seen := map[string]bool{}
		for _, o := range sc.Ops {
			if seen[o.S] {
				continue
			}
			seen[o.S] = true
			n++
			id := o.S
			go func() {
				defer func() { done <- true }()
				for _, o := range sc.Ops {
					if o.S != id {
						continue
					}
					if o.A >= int64(len(scopes)) {
						continue
					}
					if o.K == "close" {
						if o.C > 0 {
							time.Sleep(time.Duration(o.C) * time.Millisecond)
						}
						r.W.fault("throttle closed")
						// does it close the throttle?
						if o.A < 0 {
							t.Close()
						} else {
							scopes[o.A].Close()
						}
						if o.A <= int64(on) && (closed < 0 || simrt.Now() < closed) {
							closed = simrt.Now()
						}
						continue
					}
					if p["form"] == 1 && o.A >= int64(on) {
						// a query of B rows
						a := simrt.Now()
						left := o.B
						ctx, cancel := newCtx()
						for range asts[0].Eval(ctx, scopes[o.A]) {
							adms = append(adms, adm{a, simrt.Now()})
							a = simrt.Now()
							left--
							if left == 0 {
								break
							}
						}
						cancel()
						continue
					}
					for k := int64(0); k < o.B; k++ {
						if o.C > 0 {
							time.Sleep(time.Duration(o.C) * time.Millisecond)
						}
						a := simrt.Now()
						if o.A < 0 {
							t.ChargeOp()
						} else if o.A < int64(on) {
							continue // not throttled
						} else {
							scopes[o.A].ChargeOp()
						}
						adms = append(adms, adm{a, simrt.Now()})
					}
				}
			}()
		}
		for i := 0; i < n; i++ {
			<-done
		}
		overAt = simrt.Now()
		root.Close()
		t.Close()
		r.cancel()
		// released for good
		a := simrt.Now()
		t.ChargeOp()
		root.ChargeOp()
		if before != nil {
			before.ChargeOp()
			probe("a scope with two throttles")
		}
		if simrt.Now() != a {
			r.Failf("stuck: a closed throttle delayed an operation by %.3fs", float64(simrt.Now()-a)/1e9)
		}
		if l := r.settle(); l != 0 {
			r.Failf("left: %d goroutines are left: %s", l, firstLines(r.Text, 30))
		}
	}
	return &Case{Body: body, Check: func() {
		if overAt < 0 {
			return
		}
		var ts []int64
		for _, x := range adms {
			if free && x.b != x.a {
				r.Failf("delay: an operation was delayed %.3fs at a rate of %d", float64(x.b-x.a)/1e9, rate)
				return
			}
			if closed >= 0 && x.b > closed {
				if x.b > max(x.a, closed) {
					r.Failf("stuck: an operation begun at %.3fs was let go at %.3fs, the throttle was closed at %.3fs", sec(x.a), sec(x.b), sec(closed))
					return
				}
				continue
			}
			if closed < 0 || x.b < closed {
				ts = append(ts, x.b)
			}
		}
		if free {
			return
		}
		sort.Slice(ts, func(i, j int) bool { return ts[i] < ts[j] })
		for i := range ts {
			for j := i + 1; j < len(ts); j++ {
				if lim := float64(rate)*float64(ts[j]-ts[i])/1e9 + 2.001; float64(j-i+1) > lim {
					r.Failf("rate: %d operations between %.3fs and %.3fs, rate %d", j-i+1, sec(ts[i]), sec(ts[j]), rate)
					return
				}
			}
		}
		ops := 0
		for _, o := range sc.Ops {
			if o.K == "op" {
				ops++
			}
		}
		slack := 1.001
		if p["form"] == 1 {
			if ops > 1 {
				return // rows that nobody reads any more are charged, too
			}
			slack = 3
		}
		for _, x := range adms {
			if x.b == x.a || closed >= 0 && x.b >= closed {
				continue
			}
			n := 0
			for _, t := range ts {
				if t > x.a && t <= x.b {
					n++
				}
			}
			if w := float64(rate) * float64(x.b-x.a) / 1e9; float64(n) < w-slack {
				r.Failf("slow: an operation waited from %.3fs to %.3fs while %d were admitted, rate %d", sec(x.a), sec(x.b), n, rate)
				return
			}
		}
		probe("throttled operations waited")
	}}
}

func init() {
	kind(&Kind{Name: "throt", Gen: genThrot, Make: makeThrot})
	prop("C16", 4, 6000, "", PK{"q", 1}, PK{"throt", 2})
}
