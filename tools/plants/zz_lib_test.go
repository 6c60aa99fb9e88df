package vfilter

import (
	"context"
	"encoding/json"
	"fmt"
	"log"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/Velocidex/ordereddict"
	"www.velocidex.com/golang/vfilter/types"
)

var _ = fmt.Sprintf
var _ = time.Second

type zzEmit func(r Row) bool

type zzP struct {
	n string
	f func(ctx context.Context, scope types.Scope, args *ordereddict.Dict, emit zzEmit)
}

func (p zzP) Call(ctx context.Context, scope types.Scope, args *ordereddict.Dict) <-chan Row {
	out := make(chan Row)
	go func() {
		defer close(out)
		p.f(ctx, scope, args, func(r Row) bool {
			select {
			case <-ctx.Done():
				return false
			case out <- r:
				return true
			}
		})
	}()
	return out
}

func (p zzP) Info(scope types.Scope, tm *types.TypeMap) *types.PluginInfo {
	return &types.PluginInfo{Name: p.n}
}

type zzF struct {
	n string
	f func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any
}

func (p zzF) Call(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
	return p.f(ctx, scope, args)
}
func (p zzF) Copy() types.FunctionInterface { return p }
func (p zzF) Info(scope types.Scope, tm *types.TypeMap) *types.FunctionInfo {
	return &types.FunctionInfo{Name: p.n}
}

// The value of an argument.
func zzArg(ctx context.Context, args *ordereddict.Dict, name string) types.Any {
	v, _ := args.Get(name)
	if l, ok := v.(types.LazyExpr); ok {
		return l.Reduce(ctx)
	}
	return v
}

type zzLog struct {
	mu sync.Mutex
	l  []string
}

func (self *zzLog) Write(b []byte) (int, error) {
	self.mu.Lock()
	defer self.mu.Unlock()
	self.l = append(self.l, string(b))
	return len(b), nil
}

func (self *zzLog) has(s string) bool { return self.count(s) > 0 }

func (self *zzLog) count(s string) (n int) {
	self.mu.Lock()
	defer self.mu.Unlock()
	for _, x := range self.l {
		if strings.Contains(x, s) {
			n++
		}
	}
	return n
}

func zzScope(things ...interface{}) (types.Scope, *zzLog) {
	res := NewScope()
	lg := &zzLog{}
	res.SetLogger(log.New(lg, "", 0))
	for _, t := range things {
		switch t := t.(type) {
		case zzP:
			res.AppendPlugins(t)
		case zzF:
			res.AppendFunctions(t)
		}
	}
	return res, lg
}

func zzRow(kv ...interface{}) *ordereddict.Dict {
	d := ordereddict.NewDict()
	for i := 0; i < len(kv); i += 2 {
		d.Set(kv[i].(string), kv[i+1])
	}
	return d
}

func zzRows(n string, rows ...Row) zzP {
	return zzP{n, func(ctx context.Context, scope types.Scope, args *ordereddict.Dict, emit zzEmit) {
		for _, r := range rows {
			if !emit(r) {
				return
			}
		}
	}}
}

func zzJ(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "ERR " + err.Error()
	}
	return string(b)
}

// Evaluate all statements, reading all but the last one.
func zzEval(t testing.TB, ctx context.Context, scope types.Scope, q string) <-chan Row {
	l, err := MultiParse(q)
	if err != nil {
		t.Fatalf("%v: %v", q, err)
	}
	for _, v := range l[:len(l)-1] {
		for range v.Eval(ctx, scope) {
		}
	}
	return l[len(l)-1].Eval(ctx, scope)
}

func zzDrain(scope types.Scope, c <-chan Row) []string {
	res := []string{}
	for r := range c {
		res = append(res, zzJ(RowToDict(context.Background(), scope, r)))
	}
	return res
}

func zzAll(t testing.TB, scope types.Scope, q string) string {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	return strings.Join(zzDrain(scope, zzEval(t, ctx, scope, q)), " ")
}

func zzEq(t testing.TB, what, got, want string) {
	if got != want {
		t.Fatalf("%s:\n got %s\nwant %s", what, got, want)
	}
}

// True if the condition becomes true.
func zzWait(d time.Duration, f func() bool) bool {
	end := time.Now().Add(d)
	for !f() {
		if time.Now().After(end) {
			return false
		}
		time.Sleep(5 * time.Millisecond)
	}
	return true
}

// Run f, which must return in time.
func zzIn(t testing.TB, d time.Duration, what string, f func()) {
	done := make(chan bool)
	go func() {
		defer close(done)
		f()
	}()
	select {
	case <-done:
	case <-time.After(d):
		t.Fatalf("%s: not done in %v", what, d)
	}
}
