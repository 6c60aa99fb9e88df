package h

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/Velocidex/ordereddict"
	"velsim/simrt"
	"www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/arg_parser"
	"www.velocidex.com/golang/vfilter/types"
)

// ---------------------------------------------------------------- resp: the response channel (C14, C15)

// Ops "row": A number, B milliseconds before the source has it, C
// milliseconds its columns take. "fail": the encoder fails at call A.
// P: maxrows, wait (s), tail (ms before the source ends), q (query), the
// usual cancellations.

func respText(sc *Scenario) string {
	switch sc.P["q"] {
	case 1:
		return "SELECT A, slow(ms=B) AS C, mark(i=A) AS M FROM timed() WHERE A >= 0"
	case 2:
		return "SELECT * FROM foreach(row={ SELECT * FROM timed() }, query={ SELECT A, slow(ms=B) AS C, mark(i=A) AS M FROM scope() })"
	case 3:
		return "LET s = SELECT A, slow(ms=B) AS C, mark(i=A) AS M FROM timed() SELECT * FROM s"
	case 4:
		return "SELECT A, slow(ms=B) AS C, mark(i=A) AS M FROM timed() ORDER BY A"
	case 5:
		return "SELECT A, slow(ms=B) AS C, mark(i=A) AS M FROM timed() GROUP BY A"
	case 6:
		return "SELECT A, slow(ms=B) AS C, mark(i=A) AS M FROM chain(a={ SELECT * FROM timed() }, b={ SELECT * FROM range(start=0, end=0) })"
	case 7:
		return "SELECT *, mark(i=A) AS M FROM foreach(row={ SELECT * FROM timed() }, query={ SELECT A, slow(ms=B) AS C FROM scope() })"
	}
	return "SELECT A, slow(ms=B) AS C, mark(i=A) AS M FROM timed()"
}

type timedPlugin struct {
	r   *Run
	end func()
}

func (self *timedPlugin) Info(scope types.Scope, tm *types.TypeMap) *types.PluginInfo {
	return &types.PluginInfo{Name: "timed"}
}

func (self *timedPlugin) Call(ctx context.Context, scope types.Scope, args *ordereddict.Dict) <-chan types.Row {
	out := make(chan types.Row)
	r := self.r
	go func() {
		defer close(out)
		defer self.end()
		for _, o := range r.Sc.Ops {
			if o.K != "row" {
				continue
			}
			r.W.delayCtx(ctx, "source")
			if o.B > 0 && !sleepCtx(ctx, time.Duration(o.B)*time.Millisecond) {
				return
			}
			select {
			case <-ctx.Done():
				return
			case out <- ordereddict.NewDict().Set("A", o.A).Set("B", o.C):
			}
		}
		if t := r.Sc.P["tail"]; t > 0 {
			sleepCtx(ctx, time.Duration(t)*time.Millisecond)
		}
	}()
	return out
}

type msArgs struct {
	MS int64 `vfilter:"optional,field=ms"`
	I  int64 `vfilter:"optional,field=i"`
}

func genResp(r *Rand, prop string, deep bool) *Scenario {
	sc := &Scenario{P: map[string]int64{}}
	p := sc.P
	n := r.N(14)
	if deep {
		n += r.N(20)
	}
	large := r.N(50) == 0
	if large {
		n += r.N(400)
	}
	for i := 0; i < n; i++ {
		o := Op{K: "row", A: int64(i)}
		switch r.N(6) {
		case 0:
			o.B = int64(1 + r.N(500))
		case 1:
			o.B = int64(1000 * (1 + r.N(6)))
		case 2:
			o.B = int64(1 + r.N(90000))
		}
		if r.P(15) {
			o.C = int64(1 + r.N(60000))
		}
		sc.Ops = append(sc.Ops, o)
	}
	if r.P(45) {
		for i := 0; i < 1+r.N(4); i++ {
			sc.Ops = append(sc.Ops, Op{K: "fail", A: int64(1 + r.N(7))})
		}
	}
	p["maxrows"] = int64(1 + r.N(5))
	if r.P(15) {
		p["maxrows"] = 1000
	}
	if large && r.P(60) {
		p["maxrows"] = int64(1 + r.N(200))
	}
	p["wait"] = int64(1 + r.N(12))
	p["q"] = int64(r.N(8))
	if r.P(50) {
		p["tail"] = int64(1 + r.N(100000))
	}
	if prop == "C15" {
		p["notime"], p["nodelay"] = 1, 1
	} else {
		if r.P(40) {
			p["reader"] = 1
		}
		if r.P(8) {
			// everything in one call of the encoder
			p["json"] = 1
		}
		switch r.N(10) {
		case 0:
			p["cancel_step"] = int64(1 + r.N(400))
		case 1:
			p["cancel_ms"] = int64(1 + r.N(60000))
		case 2:
			p["cancel_ev"] = int64(1 + r.N(12))
		}
	}
	return sc
}

type batch struct {
	part, total int
	cols        []string
	payload     string
	now         int64
	fails       int // encoder failures before it, since the last success
}

func makeResp(r *Run) *Case {
	sc := r.Sc
	p := sc.P
	if p["maxrows"] < 1 || p["wait"] < 1 {
		undefined("batches need a size and a time")
	}
	exact := p["notime"] != 0 && p["nodelay"] != 0 && p["reader"] == 0
	if sc.Prop == "C15" && !exact {
		undefined("exact times need an exact clock")
	}
	failAt := map[int]bool{}
	var want []string
	var nums []int64
	for _, o := range sc.Ops {
		if o.K == "fail" {
			failAt[int(o.A)] = true
		} else {
			want = append(want, fmt.Sprintf("{A:%d,C:%d,M:%d}", o.A, o.C, o.A))
			nums = append(nums, o.A)
		}
	}
	marks := map[int64]int64{}
	srcEnd := int64(-1)
	r.W.extra = func(scope types.Scope) {
		scope.AppendPlugins(&timedPlugin{r, func() { srcEnd = simrt.Now() }})
		scope.AppendFunctions(
			&fnFunc{"slow", &msArgs{}, func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
				a := &msArgs{}
				arg_parser.ExtractArgsWithContext(ctx, scope, args, a)
				if a.MS > 0 {
					r.W.fault("slow column")
					sleepCtx(ctx, time.Duration(a.MS)*time.Millisecond)
				}
				return a.MS
			}},
			&fnFunc{"mark", &msArgs{}, func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
				a := &msArgs{}
				arg_parser.ExtractArgsWithContext(ctx, scope, args, a)
				r.W.record("mark", a.I)
				marks[a.I] = simrt.Now()
				return a.I
			}})
	}
	asts := parseProg(respText(sc))
	var bs []batch
	closed := int64(-1)
	calls, fails, total := 0, 0, 0
	var failTimes []int64
	var okFails []int // failures before the i-th success
	lastFailed := false
	left := 0
	var out []byte
	var jsonErr error
	body := func() {
		r.ctx, r.cancel = newCtx()
		scope := r.W.NewScope()
		n := len(asts) - 1
		for _, a := range asts[:n] {
			r.eval(scope, a, false)
		}
		r.setup()
		enc := func(rows []vfilter.Row) ([]byte, error) {
			calls++
			if failAt[calls] {
				fails++
				lastFailed = true
				failTimes = append(failTimes, simrt.Now())
				r.W.fault("encoder fails")
				return nil, errors.New("disk full")
			}
			lastFailed = false
			okFails = append(okFails, fails)
			fails = 0
			var s []string
			for _, row := range rows {
				s = append(s, RCanon(row))
			}
			return []byte(strings.Join(s, "\n")), nil
		}
		if p["json"] != 0 {
			out, jsonErr = vfilter.OutputJSON(asts[n], r.ctx, scope, enc)
			closed = simrt.Now()
			left = r.settle()
			scope.Close()
			r.cancel()
			return
		}
		for b := range vfilter.GetResponseChannel(asts[n], r.ctx, scope, enc, int(p["maxrows"]), int(p["wait"])) {
			bs = append(bs, batch{b.Part, b.TotalRows, b.Columns, string(b.Payload), simrt.Now(), 0})
			total += b.TotalRows
			if p["reader"] != 0 {
				r.W.Delay("reader")
			}
		}
		closed = simrt.Now()
		left = r.settle()
		scope.Close()
		r.cancel()
	}
	return &Case{Body: body, Check: func() {
		cancelled := r.isCanceled()
		if closed < 0 {
			r.Failf("no end: the response channel did not close")
			return
		}
		if left != 0 {
			r.Failf("left: %d goroutines of the query are left after it ended: %s", left, firstLines(r.Text, 30))
		}
		if p["json"] != 0 {
			switch {
			case calls != 1:
				r.Failf("calls: the encoder was called %d times for one output", calls)
			case failAt[1]:
				if jsonErr == nil {
					r.Failf("error: the encoder failed and the caller was told nothing")
				}
			case jsonErr != nil:
				r.Failf("error: the encoder did not fail, the caller was told: %v", jsonErr)
			default:
				bs = []batch{{payload: string(out), cols: []string{"A", "C", "M"}}}
				okFails = []int{1} // of any size
				if len(out) > 0 {
					bs[0].total = 1 + strings.Count(string(out), "\n")
				}
			}
		}
		var got []string
		for i, b := range bs {
			b.fails = okFails[i]
			var rows []string
			if b.payload != "" {
				rows = strings.Split(b.payload, "\n")
			}
			if b.part != i {
				r.Failf("part: batch %d has part number %d", i, b.part)
			}
			if b.total != len(rows) {
				r.Failf("total: batch %d states %d rows and carries %d", i, b.total, len(rows))
			}
			if len(rows) > 0 && fmt.Sprint(b.cols) != "[A C M]" {
				r.Failf("columns: batch %d states columns %v", i, b.cols)
			}
			if len(rows) > int(p["maxrows"]) && b.fails == 0 {
				r.Failf("size: batch %d carries %d rows, at most %d allowed", i, len(rows), p["maxrows"])
			}
			if len(rows) == 0 && i < len(bs)-1 {
				r.Failf("empty: batch %d of %d is empty", i, len(bs))
			}
			if exact && !cancelled {
				for j := range rows {
					if len(got)+j >= len(nums) {
						break
					}
					a := nums[len(got)+j]
					if p["q"] == 4 || p["q"] == 5 {
						// produced when everything is in
						all := srcEnd
						for _, t := range marks {
							all = max(all, t)
						}
						marks[a] = all
					}
					waited := b.now - marks[a]
					limit := int64(p["wait"]) * 1e9
					for _, f := range failTimes {
						if f >= marks[a] && f <= b.now {
							limit += int64(p["wait"]) * 1e9
						}
					}
					if waited > limit {
						r.Failf("late: row %d was produced at %.3fs and delivered at %.3fs, at most %ds later expected", a, sec(marks[a]), sec(b.now), p["wait"])
					}
				}
			}
			got = append(got, rows...)
		}
		if len(got) > len(want) {
			r.Failf("rows: %d rows delivered, the query has %d: %v", len(got), len(want), got)
			return
		}
		for i, g := range got {
			if g != want[i] {
				r.Failf("rows: row %d is %s, expected %s", i, g, want[i])
				return
			}
		}
		if !cancelled && !lastFailed && len(got) != len(want) {
			r.Failf("rows: %d of %d rows delivered", len(got), len(want))
		}
		if exact && !cancelled && srcEnd >= 0 && closed > srcEnd+sumSlow(sc) {
			r.Failf("end: the source ended at %.3fs, the response channel closed at %.3fs", sec(srcEnd), sec(closed))
		}
		if exact && !cancelled && sumSlow(sc) == 0 && closed != srcEnd {
			r.Failf("end: the source ended at %.3fs, the response channel closed at %.3fs", sec(srcEnd), sec(closed))
		}
	}}
}

func sumSlow(sc *Scenario) int64 {
	n := int64(0)
	for _, o := range sc.Ops {
		if o.K == "row" {
			n += o.C * 1e6
		}
	}
	return n
}

func init() {
	kind(&Kind{Name: "resp", Gen: genResp, Make: makeResp, Text: respText})
	prop("C14", 4, 8000, "", PK{"resp", 1})
	prop("C15", 3, 8000, "", PK{"resp", 1})
}
