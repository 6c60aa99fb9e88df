package h

import (
	"context"
	"fmt"
	"log"
	"math"
	"reflect"
	"runtime"
	"strings"
	"time"

	"github.com/Velocidex/ordereddict"
	"velsim/simrt"
	"www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/arg_parser"
	"www.velocidex.com/golang/vfilter/types"
)

// Table is a data source of the world.
type Table struct {
	Cols  []string `json:"cols"`
	Rows  [][]any  `json:"rows"`
	EndAt int      `json:"end_at,omitempty"` // fault: the source ends after this many rows
	Res   bool     `json:"res,omitempty"`    // rows carry a handle H to a resource of the call
	Lazy  bool     `json:"lazy,omitempty"`   // rows are lazy rows
	// endless or blocking sources (only where the reader or LIMIT ends the query)
	Endless bool `json:"endless,omitempty"` // after the rows, repeats the last with growing A
	Block   bool `json:"block,omitempty"`   // after the rows, blocks until cancelled
	Gap     int  `json:"gap,omitempty"`     // milliseconds before each row
}

func (t *Table) val(i, j int) any {
	v := t.Rows[i][j]
	switch x := v.(type) {
	case float64: // from JSON, or half of something
		if x == math.Trunc(x) {
			return int64(x)
		}
	case int:
		return int64(x)
	}
	return v
}

// hole: a row without that column.
const hole = "!hole"

func (t *Table) model(i int, base int64, tag string) *D {
	d := &D{}
	for j, c := range t.Cols {
		v := t.val(i, j)
		if c == "A" {
			v = v.(int64) + base
		}
		if v == hole {
			continue
		}
		d.set(c, v)
	}
	if t.Res {
		d.set("H", &mHandle{"h:" + tag})
	}
	return d
}

// Ev is one recorded event of the world.
type Ev struct {
	K    string
	N    int64
	Step uint64
	Now  int64
}

type handle struct {
	id     string
	opened bool // registration accepted
	closes int
	early  bool // used after clean-up
}

const maxEv = 1 << 16

var (
	evBuf  [maxEv]Ev
	evN    int
	logBuf [4096]string
	logN   int
)

// World is the host of one run.
type World struct {
	Tables  map[string]*Table
	DelayP  uint64
	SlowP   uint64 // probability of long delays
	Race    bool
	Refused int // registrations refused
	Mute    bool

	hs       []*handle
	openNow  int
	OpenMax  int
	early    []string
	Faults   map[string]int
	OnEvent  func(k string, n int)
	Live     int // plugin goroutines alive
	srcSent  int // rows handed over by endless sources
	srcCalls int
	extra    func(types.Scope) // more plugins and functions
	off      int64             // added to column A: the data changes over time
}

//go:norace
func (w *World) record(k string, n int64) {
	if evN < maxEv {
		evBuf[evN] = Ev{k, n, simrt.Step(), simrt.Now()}
		evN++
	}
	if w.OnEvent != nil {
		w.OnEvent(k, evN)
	}
}

//go:norace
func (w *World) newHandle(id string) *handle {
	h := &handle{id: id}
	w.hs = append(w.hs, h)
	return h
}

//go:norace
func (w *World) register(scope types.Scope, h *handle) {
	h.opened = true
	w.openNow++
	if w.openNow > w.OpenMax {
		w.OpenMax = w.openNow
	}
	err := scope.AddDestructor(func() { w.release(h) })
	if err != nil {
		w.refused(h)
	}
}

//go:norace
func (w *World) refused(h *handle) {
	h.opened = false
	w.openNow--
	w.Refused++
	w.record("refused:"+h.id, 0)
}

//go:norace
func (w *World) release(h *handle) {
	h.closes++
	w.openNow--
	w.record("close:"+h.id, 0)
}

//go:norace
func (w *World) touch(h *handle, what string) {
	if h.closes > 0 && !h.early {
		h.early = true
		w.early = append(w.early, h.id+" "+what)
	}
}

//go:norace
func (w *World) opened() int { return w.openNow }

//go:norace
func (w *World) getOff() int64 { return w.off }

//go:norace
func (w *World) setOff(n int64) { w.off = n }

//go:norace
func (w *World) sent() int { return w.srcSent }

//go:norace
func (w *World) add(p *int, n int) { *p += n }

var delays = []time.Duration{0, 0, time.Millisecond, 20 * time.Millisecond, time.Second, 5 * time.Second, 70 * time.Second}

// Delay is a fault point: nothing, a yield, or a pause of simulated time.
func (w *World) Delay(what string) time.Duration {
	c := simrt.Choose(uint32(len(delays)), w.DelayP)
	if c == 0 {
		return 0
	}
	w.fault("delay:" + what)
	if c == 1 {
		runtime.Gosched()
		return 0
	}
	time.Sleep(delays[c])
	return delays[c]
}

//go:norace
func (w *World) fault(k string) {
	faultAdd(k)
}

// faults of this process, by kind (fixed slots: no map in race builds).
type faultSlot struct {
	k string
	n int64
}

var faultSlots [256]faultSlot

//go:norace
func faultAdd(k string) {
	for i := range faultSlots {
		if faultSlots[i].k == k {
			faultSlots[i].n++
			return
		}
		if faultSlots[i].k == "" {
			faultSlots[i].k = k
			faultSlots[i].n = 1
			return
		}
	}
}

// Faults returns the faults that fired in this process.
func Faults() map[string]int64 {
	r := map[string]int64{}
	for _, s := range faultSlots {
		if s.k != "" {
			r[s.k] = s.n
		}
	}
	return r
}

// sleepCtx pauses d, or until cancelled.
func sleepCtx(ctx context.Context, d time.Duration) bool {
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-ctx.Done():
		return false
	case <-t.C:
		return true
	}
}

func (w *World) delayCtx(ctx context.Context, what string) {
	c := simrt.Choose(uint32(len(delays)), w.DelayP)
	if c == 0 {
		return
	}
	w.fault("delay:" + what)
	if c == 1 {
		runtime.Gosched()
		return
	}
	sleepCtx(ctx, delays[c])
}

// ---------------------------------------------------------------- plugins

type srcPlugin struct{ w *World }

type srcArgs struct {
	T    string `vfilter:"required,field=t"`
	Tag  string `vfilter:"optional,field=tag"`
	Base int64  `vfilter:"optional,field=base"`
}

func (self *srcPlugin) Info(scope types.Scope, tm *types.TypeMap) *types.PluginInfo {
	return &types.PluginInfo{Name: "src", ArgType: tm.AddType(scope, &srcArgs{})}
}

func (self *srcPlugin) Call(ctx context.Context, scope types.Scope, args *ordereddict.Dict) <-chan types.Row {
	out := make(chan types.Row)
	w := self.w
	go func() {
		defer close(out)
		w.add(&w.Live, 1)
		defer w.add(&w.Live, -1)
		arg := &srcArgs{}
		err := arg_parser.ExtractArgsWithContext(ctx, scope, args, arg)
		if err != nil {
			scope.Log("src: %v", err)
			return
		}
		if _, ok := args.Get("base"); ok {
			w.record(fmt.Sprintf("src:%v:%d", arg.Tag, arg.Base), 0)
		} else {
			w.record(fmt.Sprintf("src:%v", arg.Tag), 0)
		}
		t := w.Tables[arg.T]
		if t == nil {
			return
		}
		arg.Base += w.getOff()
		var h *handle
		if t.Res {
			h = w.newHandle("h:" + arg.Tag)
			w.register(scope, h)
		}
		for i := 0; ; i++ {
			w.delayCtx(ctx, "source")
			if t.Gap > 0 {
				sleepCtx(ctx, time.Duration(t.Gap)*time.Millisecond)
			}
			if h != nil {
				w.touch(h, "closed while its source was still producing")
			}
			var row types.Row
			if t.EndAt != 0 && i >= t.EndAt {
				w.fault("source ends early")
				return
			}
			if i < len(t.Rows) {
				row = w.mkRow(ctx, scope, t, i, arg.Base, h, 0, arg.Tag)
			} else if t.Block {
				w.fault("source blocks")
				w.record("block:"+arg.Tag, int64(i))
				<-ctx.Done()
				return
			} else if t.Endless && len(t.Rows) > 0 {
				row = w.mkRow(ctx, scope, t, len(t.Rows)-1, arg.Base, h, int64(i-len(t.Rows)+1), arg.Tag)
			} else {
				return
			}
			select {
			case <-ctx.Done():
				return
			case out <- row:
				if t.Endless {
					w.add(&w.srcSent, 1)
				}
			}
			if h != nil {
				w.touch(h, "closed while its source was still producing")
			}
		}
	}()
	return out
}

func (w *World) mkRow(ctx context.Context, scope types.Scope, t *Table, i int, base int64, h *handle, plus int64, tag string) types.Row {
	d := ordereddict.NewDict()
	var l *vfilter.LazyRowImpl
	if t.Lazy {
		l = vfilter.NewLazyRow(ctx, scope)
	}
	set := func(c string, v any) {
		if l != nil {
			l.AddColumn(c, func(ctx context.Context, scope types.Scope) types.Any {
				w.record(fmt.Sprintf("lazy:%s:%d:%s", tag, i, c), 0)
				return v
			})
			return
		}
		d.Set(c, v)
	}
	for j, c := range t.Cols {
		v := t.val(i, j)
		if c == "A" {
			v = v.(int64) + base + plus
		}
		if v == hole {
			continue
		}
		if v == nil {
			// nothing comes in several forms
			switch (i + j) % 3 {
			case 0:
				v = types.Null{}
			case 1:
				v = &types.Null{}
			}
		}
		set(c, v)
	}
	if h != nil {
		set("H", h)
	}
	if l != nil {
		return l
	}
	return d
}

// ---------------------------------------------------------------- functions

type fnFunc struct {
	name string
	args any
	call func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any
}

func (self *fnFunc) Info(scope types.Scope, tm *types.TypeMap) *types.FunctionInfo {
	return &types.FunctionInfo{Name: self.name, ArgType: tm.AddType(scope, self.args)}
}

func (self *fnFunc) Copy() types.FunctionInterface { return self }

func (self *fnFunc) Call(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
	return self.call(ctx, scope, args)
}

type fxArgs struct {
	V   types.Any `vfilter:"required,field=v"`
	Tag string    `vfilter:"optional,field=tag"`
}

type tagArgs struct {
	Tag string `vfilter:"optional,field=tag"`
}

type useArgs struct {
	H   types.Any `vfilter:"required,field=h"`
	Tag string    `vfilter:"optional,field=tag"`
}

func (w *World) functions() []types.FunctionInterface {
	return []types.FunctionInterface{
		&fnFunc{"fx", &fxArgs{}, func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
			a := &fxArgs{}
			if err := arg_parser.ExtractArgsWithContext(ctx, scope, args, a); err != nil {
				scope.Log("fx: %v", err)
				return types.Null{}
			}
			w.record("fx:"+a.Tag+":"+RCanon(a.V), 0)
			w.delayCtx(ctx, "function")
			return a.V
		}},
		&fnFunc{"fhang", &fxArgs{}, func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
			a := &fxArgs{}
			if err := arg_parser.ExtractArgsWithContext(ctx, scope, args, a); err != nil {
				scope.Log("fhang: %v", err)
				return types.Null{}
			}
			w.record("fx:"+a.Tag+":"+RCanon(a.V), 0)
			w.fault("hanging function")
			sleepCtx(ctx, 24*time.Hour)
			return a.V
		}},
		&fnFunc{"fnil", &tagArgs{}, func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
			a := &tagArgs{}
			if err := arg_parser.ExtractArgsWithContext(ctx, scope, args, a); err != nil {
				scope.Log("fnil: %v", err)
			}
			w.record("fnil:"+a.Tag, 0)
			w.fault("function yields nothing")
			return nil
		}},
		&fnFunc{"open", &tagArgs{}, func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
			a := &tagArgs{}
			if err := arg_parser.ExtractArgsWithContext(ctx, scope, args, a); err != nil {
				scope.Log("open: %v", err)
				return types.Null{}
			}
			w.record("open:"+a.Tag, 0)
			h := w.newHandle("h:" + a.Tag)
			w.register(scope, h)
			w.delayCtx(ctx, "function")
			w.touch(h, "closed while the function that opened it was running")
			return h
		}},
		&fnFunc{"use", &useArgs{}, func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
			a := &useArgs{}
			if err := arg_parser.ExtractArgsWithContext(ctx, scope, args, a); err != nil {
				scope.Log("use: %v", err)
				return types.Null{}
			}
			h, ok := a.H.(*handle)
			if !ok {
				scope.Log("use: not a handle: %T", a.H)
				return types.Null{}
			}
			w.record("use:"+a.Tag, 0)
			w.touch(h, "closed before the column using it was evaluated")
			w.delayCtx(ctx, "function")
			w.touch(h, "closed while a column was using it")
			return h.id
		}},
	}
}

// ---------------------------------------------------------------- logging

type logWriter struct{}

//go:norace
func (logWriter) Write(b []byte) (int, error) {
	if logN < len(logBuf) {
		logBuf[logN] = string(b)
		logN++
	}
	return len(b), nil
}

type nullWriter struct{}

// NewScope makes a scope with the world's plugins and functions.
func (w *World) NewScope() types.Scope {
	scope := vfilter.NewScope()
	scope.AppendPlugins(&srcPlugin{w})
	scope.AppendFunctions(w.functions()...)
	scope.AppendFunctions(junkFunctions()...)
	if w.extra != nil {
		w.extra(scope)
	}
	if !w.Race {
		scope.SetLogger(log.New(logWriter{}, "", 0))
	}
	return scope
}

// Logs that the current run produced.
func Logs() []string { return append([]string{}, logBuf[:logN]...) }

// Events of the current run.
func Events() []Ev { return append([]Ev{}, evBuf[:evN]...) }

//go:norace
func resetWorld() {
	evN, logN = 0, 0
}

// ---------------------------------------------------------------- values

// RCanon renders a value of the real system the way Canon does for the model.
func RCanon(v any) string {
	var b strings.Builder
	rcanon(&b, v)
	return b.String()
}

func rcanon(b *strings.Builder, v any) {
	switch t := v.(type) {
	case nil:
		b.WriteString("∅")
	case types.Null, *types.Null:
		b.WriteString("∅")
	case bool:
		fmt.Fprint(b, t)
	case string:
		fmt.Fprintf(b, "%q", t)
	case *handle:
		b.WriteString(t.id)
	case *ordereddict.Dict:
		b.WriteString("{")
		i := 0
		for _, it := range t.Items() {
			if junkCol(it.Key) {
				continue
			}
			if i > 0 {
				b.WriteString(",")
			}
			i++
			b.WriteString(it.Key + ":")
			rcanon(b, it.Value)
		}
		b.WriteString("}")
	case types.Materializer:
		rcanon(b, t.Materialize(context.Background(), nil))
	default:
		rv := reflect.ValueOf(v)
		switch rv.Kind() {
		case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
			fmt.Fprint(b, rv.Int())
		case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
			fmt.Fprint(b, rv.Uint())
		case reflect.Float64, reflect.Float32:
			fmt.Fprintf(b, "f%v", rv.Float())
		case reflect.Slice:
			if rv.IsNil() {
				b.WriteString("∅")
				return
			}
			b.WriteString("[")
			for i := 0; i < rv.Len(); i++ {
				if i > 0 {
					b.WriteString(",")
				}
				rcanon(b, rv.Index(i).Interface())
			}
			b.WriteString("]")
		default:
			fmt.Fprintf(b, "?%T", v)
		}
	}
}
