bug('c01_giveup', 'C01', 'the reader stalls for a few seconds while a row is on its way to it',
 'A row that nobody takes for three seconds is dropped between the source and the SELECT, so the result depends on the pace of the reader.',
 [('vfilter.go', '''			scope.ChargeOp()

			select {
			case <-ctx.Done():
				return

			case output_chan <- row:
			}
''', '''			scope.ChargeOp()

			if !sendRow(ctx, output_chan, row) {
				return
			}
'''), ('vfilter.go', '''// Fetch the object that references a function
''', '''// Send a row, but do not let an abandoned reader pin the source.
func sendRow(ctx context.Context, output_chan chan<- Row, row Row) bool {
	timer := time.NewTimer(3 * time.Second)
	defer timer.Stop()

	select {
	case <-ctx.Done():
		return false
	case <-timer.C:
		return true
	case output_chan <- row:
		return true
	}
}

// Fetch the object that references a function
'''), ('vfilter.go', '	"sync"\n\n	"io"\n', '	"sync"\n	"time"\n\n	"io"\n')],
'''
func TestZZDemo(t *testing.T) {
	scope, _ := zzScope()
	c := zzEval(t, context.Background(), scope, "SELECT _value FROM range(end=6)")
	got := []string{zzJ(<-c)}
	time.Sleep(5 * time.Second)
	got = append(got, zzDrain(scope, c)...)
	zzEq(t, "rows", strings.Join(got, ""), `{"_value":0}{"_value":1}{"_value":2}{"_value":3}{"_value":4}{"_value":5}`)
}
''', ['strings'])

bug('c02_scope_pool', 'C02', 'the rows of the row source have different columns',
 'The scope of a finished inner query is used again for a later row, so variables of an earlier source row remain visible to it.',
 [('plugins/foreach.go', '''				child_scope := scope.Copy()
				// child_scope is closed in the pool worker.
''', '''				child_scope := pool.getScope(scope)
				// child_scope is closed with the pool.
'''), ('plugins/foreach.go', '''	defer cancel()
	defer scope.Close()

	query_chan''', '''	defer cancel()
	defer self.putScope(scope)

	query_chan'''),
 ('plugins/foreach.go', '''	close(self.ch)
	self.wg.Wait()
}
''', '''	close(self.ch)
	self.wg.Wait()

	for _, scope := range self.idle {
		scope.Close()
	}
}

// Copying a scope is expensive, use one again if we can.
func (self *workerPool) getScope(scope types.Scope) types.Scope {
	self.mu.Lock()
	defer self.mu.Unlock()

	n := len(self.idle)
	if n == 0 {
		return scope.Copy()
	}
	result := self.idle[n-1]
	self.idle = self.idle[:n-1]
	return result
}

func (self *workerPool) putScope(scope types.Scope) {
	self.mu.Lock()
	defer self.mu.Unlock()
	self.idle = append(self.idle, scope)
}
'''), ('plugins/foreach.go', '''	wg          sync.WaitGroup
''', '''	mu          sync.Mutex
	idle        []types.Scope
	wg          sync.WaitGroup
''')],
'''
func TestZZDemo(t *testing.T) {
	scope, _ := zzScope(zzRows("src", zzRow("A", 1, "B", 2), zzRow("A", 3), zzRow("A", 4)))
	zzEq(t, "rows", zzAll(t, scope, "SELECT * FROM foreach(row={SELECT * FROM src()}, query={SELECT A, B FROM scope()})"),
		`{"A":1,"B":2} {"A":3,"B":null} {"A":4,"B":null}`)
}
''')

bug('c02_lost_tail', 'C02', 'the row source ends while the workers are still busy with earlier rows',
 'Rows queued for the workers when the source ends are dropped if a worker notices the end first.',
 [('plugins/foreach.go', '''		case scope, ok := <-self.ch:
			if !ok {
				return
			}
			self.runQuery(ctx, scope)
''', '''		case scope := <-self.ch:
			self.runQuery(ctx, scope)

		case <-self.done:
			return
'''), ('plugins/foreach.go', '''	close(self.ch)
	self.wg.Wait()
''', '''	close(self.done)
	self.wg.Wait()
'''), ('plugins/foreach.go', '''		ch:          make(chan types.Scope),
''', '''		ch:          make(chan types.Scope, size-1),
		done:        make(chan bool),
'''), ('plugins/foreach.go', '''	ch          chan types.Scope
''', '''	ch          chan types.Scope
	done        chan bool
''')],
'''
func TestZZDemo(t *testing.T) {
	scope, _ := zzScope(zzF{"slow", func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
		time.Sleep(5 * time.Millisecond)
		return 1
	}})
	for i := 0; i < 20; i++ {
		c := zzEval(t, context.Background(), scope, "SELECT * FROM foreach(row={SELECT * FROM range(end=8)}, workers=3, query={SELECT slow() AS S, _value FROM scope()})")
		if n := len(zzDrain(scope, c)); n != 8 {
			t.Fatalf("%d rows", n)
		}
	}
}
''')

bug('c03_cap64', 'C03', 'more than 64 workers are asked for and that many rows have slow inner queries',
 'A foreach never runs more than 64 inner queries, so with the hundred workers of asynchronous mode rows wait although workers should be free.',
 [('plugins/foreach.go', '''	for i := 0; i < size; i++ {
		self.wg.Add(1)''', '''	for i := 0; i < size && i < 64; i++ {
		self.wg.Add(1)''')],
'''
func TestZZDemo(t *testing.T) {
	var n int32
	scope, _ := zzScope(zzP{"hold", func(ctx context.Context, scope types.Scope, args *ordereddict.Dict, emit zzEmit) {
		atomic.AddInt32(&n, 1)
		<-ctx.Done()
	}})
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	zzEval(t, ctx, scope, "SELECT * FROM foreach(row={SELECT * FROM range(end=120)}, async=TRUE, query={SELECT * FROM hold()})")
	if !zzWait(10*time.Second, func() bool { return atomic.LoadInt32(&n) == 100 }) {
		t.Fatalf("%d in flight", n)
	}
}
''', ['sync/atomic'])

bug('c03_impatient', 'C03', 'the inner queries of all workers are slow',
 'When no worker takes a row for a second another worker is started, so more inner queries than workers are in flight.',
 [('plugins/foreach.go', '''				child_scope.AppendVars(row_item)
''', '''				if !pool.waitForWorker(ctx) {
					pool.wg.Add(1)
					go pool.worker(ctx)
				}
				child_scope = child_scope.AppendVars(row_item)
'''),
 ('plugins/foreach.go', '''			self.runQuery(ctx, scope)
		}
	}
}
''', '''			atomic.AddInt32(&self.busy, 1)
			self.runQuery(ctx, scope)
			atomic.AddInt32(&self.busy, -1)
		}
	}
}

// Wait for a worker to be ready, but not forever.
func (self *workerPool) waitForWorker(ctx context.Context) bool {
	for i := 0; i < 20; i++ {
		if atomic.LoadInt32(&self.busy) < self.size {
			return true
		}
		select {
		case <-ctx.Done():
			return true
		case <-time.After(50 * time.Millisecond):
		}
	}
	return false
}
'''), ('plugins/foreach.go', '''		ch:          make(chan types.Scope),
''', '''		ch:          make(chan types.Scope),
		size:        int32(size),
'''), ('plugins/foreach.go', '''	ch          chan types.Scope
''', '''	ch          chan types.Scope
	size, busy  int32
'''), ('plugins/foreach.go', '''	"sync"

''', '''	"sync"
	"sync/atomic"
	"time"

''')],
'''
func TestZZDemo(t *testing.T) {
	var n, max int32
	scope, _ := zzScope(zzP{"hold", func(ctx context.Context, scope types.Scope, args *ordereddict.Dict, emit zzEmit) {
		m := atomic.AddInt32(&n, 1)
		if m > atomic.LoadInt32(&max) {
			atomic.StoreInt32(&max, m)
		}
		time.Sleep(4 * time.Second)
		atomic.AddInt32(&n, -1)
	}})
	zzAll(t, scope, "SELECT * FROM foreach(row={SELECT * FROM range(end=4)}, workers=2, query={SELECT * FROM hold()})")
	if max > 2 {
		t.Fatalf("%d in flight", max)
	}
}
''', ['sync/atomic'])

bug('c04_last_bin', 'C04', 'a key that had come back to an earlier group is followed by the key seen before it',
 'The grouper remembers the last group it looked up but not always its key, so rows of alternating keys are counted in the wrong group.',
 [('grouper/grouper.go', '''			// Try to find the context in the map
			aggregate_ctx_any, pres := bins.Get(bin_idx)
			// No previous aggregate_row - initialize with a new context.
			if !pres {
				aggregate_ctx = &AggregateContext{
					context: aggregators.NewAggregatorCtx(),
				}
				bins.Set(bin_idx, aggregate_ctx)

			} else {
				aggregate_ctx = aggregate_ctx_any.(*AggregateContext)
			}
''', '''			// Consecutive rows often fall in the same bin.
			if last_ctx != nil && bin_idx == last_idx {
				aggregate_ctx = last_ctx

			} else if aggregate_ctx_any, pres := bins.Get(bin_idx); pres {
				aggregate_ctx = aggregate_ctx_any.(*AggregateContext)

			} else {
				// No previous aggregate_row - initialize with a new context.
				aggregate_ctx = &AggregateContext{
					context: aggregators.NewAggregatorCtx(),
				}
				bins.Set(bin_idx, aggregate_ctx)
				last_idx = bin_idx
			}
			last_ctx = aggregate_ctx
'''), ('grouper/grouper.go', '''		// Append this row to a bin based on a unique
		// value of the group by column.
		for {''', '''		// Append this row to a bin based on a unique value of the
		// group by column.
		var last_ctx *AggregateContext
		last_idx := ""

		for {''')],
'''
func TestZZDemo(t *testing.T) {
	scope, _ := zzScope(zzRows("src", zzRow("K", "a"), zzRow("K", "b"), zzRow("K", "a"), zzRow("K", "b"), zzRow("K", "b")))
	zzEq(t, "rows", zzAll(t, scope, "SELECT K, count() AS C FROM src() GROUP BY K"),
		`{"K":"a","C":2} {"K":"b","C":3}`)
}
''')

bug('c04_nested', 'C04', 'the grouped query is evaluated more than once on scopes below one another (a nested grouped query)',
 'Groups are remembered in the context of the scope so that the bins of one evaluation start out with the aggregates of another one.',
 [('grouper/grouper.go', '''				aggregate_ctx = &AggregateContext{
					context: aggregators.NewAggregatorCtx(),
				}
''', '''				aggregate_ctx = &AggregateContext{
					context: self.contextForBin(scope, bin_idx),
				}
'''), ('grouper/grouper.go', '''type DefaultGrouper struct{}

''', '''type DefaultGrouper struct{}

// Small bins are frequent - keep the contexts of a query around.
func (self *DefaultGrouper) contextForBin(
	scope types.Scope, name string) types.AggregatorCtx {
	key := "$group_" + name
	if cached, pres := scope.GetContext(key); pres {
		return cached.(types.AggregatorCtx)
	}
	result := aggregators.NewAggregatorCtx()
	scope.SetContext(key, result)
	return result
}

''')],
'''
func TestZZDemo(t *testing.T) {
	scope, _ := zzScope(zzRows("src", zzRow("K", "a"), zzRow("K", "a")))
	zzEq(t, "rows", zzAll(t, scope, "LET Q = SELECT K, count() AS C FROM src() GROUP BY K SELECT * FROM foreach(row={SELECT * FROM range(end=2)}, query=Q)"),
		`{"K":"a","C":2} {"K":"a","C":2}`)
}
''')

bug('c05_count', 'C05', 'several workers evaluate the same count() on a shared context at the same time',
 'count() reads and stores its value in two steps, so concurrent evaluations are lost.',
 [('functions/aggregates.go', '''	// Modify the aggregator under lock
	return scope.GetAggregatorCtx().Modify(self.id,
		func(previous_value_any types.Any, pres bool) types.Any {
			count := uint64(0)

			if pres {
				var ok bool
				count, ok = previous_value_any.(uint64)
				if !ok {
					scope.Log("count: unexpected previous value type %T",
						previous_value_any)
					return types.Null{}
				}
			}

			return count + 1
		})
''', '''	count := uint64(0)
	previous_value_any, pres := self.GetContext(scope)
	if pres && !types.IsNil(previous_value_any) {
		var ok bool
		count, ok = previous_value_any.(uint64)
		if !ok {
			scope.Log("count: unexpected previous value type %T",
				previous_value_any)
			return types.Null{}
		}
	}

	self.SetContext(scope, count+1)
	return count + 1
''')],
'''
func TestZZDemo(t *testing.T) {
	scope, _ := zzScope()
	vql, err := Parse("SELECT count() AS C FROM range(end=20000)")
	if err != nil {
		t.Fatal(err)
	}
	seen := sync.Map{}
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for r := range vql.Eval(context.Background(), scope) {
				c, _ := scope.Associative(r, "C")
				if _, dup := seen.LoadOrStore(c, 1); dup {
					t.Errorf("%v seen twice", c)
					return
				}
			}
		}()
	}
	wg.Wait()
}
''', ['sync'])

bug('c05_max', 'C05', 'two workers evaluate max() at the same time and the smaller value is stored last',
 'max() compares with a value it read before, so a larger value stored meanwhile by another worker is lost.',
 [('functions/aggregates.go', '''	var max_value types.Any = arg.Item.Reduce(ctx)

	return scope.GetAggregatorCtx().Modify(self.id,
		func(previous_value_any types.Any, pres bool) types.Any {
''', '''	previous_value_any, pres := self.GetContext(scope)
	var max_value types.Any = arg.Item.Reduce(ctx)

	return scope.GetAggregatorCtx().Modify(self.id,
		func(types.Any, bool) types.Any {
''')],
'''
func TestZZDemo(t *testing.T) {
	scope, _ := zzScope(
		zzRows("src", zzRow("V", 5), zzRow("V", 1), zzRow("V", 2), zzRow("V", 3)),
		zzF{"wait", func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
			v := zzArg(ctx, args, "v")
			time.Sleep(100 * time.Millisecond)
			if scope.Lt(v, 5) {
				time.Sleep(200 * time.Millisecond)
			}
			return v
		}})
	zzAll(t, scope, `SELECT * FROM foreach(row={SELECT * FROM src()}, workers=4, query={SELECT max(item=wait(v=V)) AS M FROM scope()})`)
	rows := zzDrain(scope, zzEval(t, context.Background(), scope, `SELECT * FROM foreach(row={SELECT * FROM src()}, workers=4, query={SELECT max(item=wait(v=V)) AS M FROM scope()})`))
	for _, r := range rows {
		if r != `{"M":5}` {
			t.Fatalf("%v", rows)
		}
	}
}
''')

bug('c06_idle', 'C06', 'the source pauses for two seconds while rows are being sorted',
 'The sorter starts to emit what it has when its input pauses; rows that arrive later are left out.',
 [('sort/sort.go', '''			select {
			case <-ctx.Done():
				return

			case row, ok := <-input:
				if !ok {
					return
				}
				// Collect all the rows
				sort_ctx.Items = append(sort_ctx.Items, row)
			}
''', '''			row, ok := sort_ctx.nextRow(ctx, input)
			if !ok {
				return
			}
			// Collect all the rows
			sort_ctx.Items = append(sort_ctx.Items, row)
'''), ('sort/sort.go', '''func (self *DefaultSorterCtx) Len() int {''', '''func (self *DefaultSorterCtx) nextRow(
	ctx context.Context, input <-chan types.Row) (types.Row, bool) {

	// If the source stalls show what we have already.
	var idle <-chan time.Time
	if len(self.Items) > 0 {
		idle = time.After(2 * time.Second)
	}

	select {
	case <-ctx.Done():
		return nil, false

	case <-idle:
		return nil, false

	case row, ok := <-input:
		return row, ok
	}
}

func (self *DefaultSorterCtx) Len() int {'''), ('sort/sort.go', '''	"sort"

''', '''	"sort"
	"time"

''')],
'''
func TestZZDemo(t *testing.T) {
	scope, _ := zzScope(zzP{"src", func(ctx context.Context, scope types.Scope, args *ordereddict.Dict, emit zzEmit) {
		emit(zzRow("A", 3))
		emit(zzRow("A", 1))
		time.Sleep(3 * time.Second)
		emit(zzRow("A", 2))
	}})
	zzEq(t, "rows", zzAll(t, scope, "SELECT A FROM src() ORDER BY A"), `{"A":1} {"A":2} {"A":3}`)
}
''')

bug('c06_null_desc', 'C06', 'descending order over a column with NULL values between others',
 'NULL is only treated as the empty string in ascending order.',
 [('sort/sort.go', '''		element1 = ""
''', '''		if !self.Desc {
			element1 = ""
		}
'''), ('sort/sort.go', '''		element2 = ""
''', '''		if !self.Desc {
			element2 = ""
		}
''')],
'''
func TestZZDemo(t *testing.T) {
	scope, _ := zzScope(zzRows("src", zzRow("A", "b"), zzRow("A", types.Null{}), zzRow("A", "c"), zzRow("A", types.Null{}), zzRow("A", "d")))
	zzEq(t, "rows", zzAll(t, scope, "SELECT A FROM src() ORDER BY A DESC"), `{"A":"d"} {"A":"c"} {"A":"b"} {"A":null} {"A":null}`)
}
''')

bug('c07_one_more', 'C07', 'the source has nothing more to say once the last row of the limit is delivered, but does not end',
 'LIMIT only notices that it is done when another row arrives, so the query waits for input it does not need.',
 [('vfilter.go', '''			for row := range self_copy.Eval(sub_ctx, scope) {
				select {
				case <-ctx.Done():
					return
				case output_chan <- row:
				}
				count += 1
				if count > limit {
					return
				}
			}
''', '''			for row := range self_copy.Eval(sub_ctx, scope) {
				if count > limit {
					return
				}
				select {
				case <-ctx.Done():
					return
				case output_chan <- row:
				}
				count += 1
			}
''')],
'''
func TestZZDemo(t *testing.T) {
	scope, _ := zzScope(zzP{"src", func(ctx context.Context, scope types.Scope, args *ordereddict.Dict, emit zzEmit) {
		emit(zzRow("A", 1))
		emit(zzRow("A", 2))
		<-ctx.Done()
	}})
	zzIn(t, 5*time.Second, "query", func() {
		zzEq(t, "rows", zzAll(t, scope, "SELECT A FROM src() LIMIT 2"), `{"A":1} {"A":2}`)
	})
}
''')

bug('c08_foreach_column', 'C08', 'foreach without a query is cancelled while its reader has gone away',
 'A foreach without inner query sends its rows without watching for cancellation, so it stays behind forever when nobody reads.',
 [('plugins/foreach.go', '''					select {
					case <-ctx.Done():
						return
					case output_chan <- row_item:
					}
					continue
''', '''					output_chan <- row_item
					continue
''')],
'''
func TestZZDemo(t *testing.T) {
	scope, _ := zzScope()
	ctx, cancel := context.WithCancel(context.Background())
	c := zzEval(t, ctx, scope, "SELECT * FROM foreach(row={SELECT * FROM range(end=100)})")
	<-c
	time.Sleep(50 * time.Millisecond)
	cancel()
	if !zzWait(5*time.Second, func() bool {
		b := make([]byte, 1<<20)
		return !strings.Contains(string(b[:runtime.Stack(b, true)]), "_ForeachPluginImpl")
	}) {
		t.Fatal("foreach is still there")
	}
}
''', ['strings', 'runtime'])

bug('c08_list', 'C08', 'the query iterates a list held in a variable and is cancelled while nobody reads',
 'Iterating an array as a source does not watch for cancellation while it sends a row.',
 [('vfilter.go', '''					select {
					case <-ctx.Done():
						return
					case output_chan <- var_slice.Index(i).Interface():
					}
''', '''					if ctx.Err() != nil {
						return
					}
					output_chan <- var_slice.Index(i).Interface()
''')],
'''
func TestZZDemo(t *testing.T) {
	scope, _ := zzScope()
	scope.AppendVars(zzRow("L", make([]int, 20)))
	ctx, cancel := context.WithCancel(context.Background())
	c := zzEval(t, ctx, scope, "SELECT * FROM L")
	<-c
	time.Sleep(50 * time.Millisecond)
	cancel()
	if !zzWait(5*time.Second, func() bool {
		b := make([]byte, 1<<20)
		return !strings.Contains(string(b[:runtime.Stack(b, true)]), "evalSymbol")
	}) {
		t.Fatal("source is still there")
	}
}
''', ['strings', 'runtime'])

bug('c09_materialize', 'C09', 'a resource is opened while a stored query is materialised',
 'Materialising runs the query on the scope of the caller, so resources it opened stay open until that scope is closed.',
 [('types/stored_query.go', '''	// Materialize both queries to an array.
	new_scope := scope.Copy()
	defer new_scope.Close()

	for item := range stored_query.Eval(ctx, new_scope) {
''', '''	for item := range stored_query.Eval(ctx, scope) {
''')],
'''
func TestZZDemo(t *testing.T) {
	var open int32
	scope, _ := zzScope(zzP{"res", func(ctx context.Context, scope types.Scope, args *ordereddict.Dict, emit zzEmit) {
		atomic.AddInt32(&open, 1)
		if scope.AddDestructor(func() { atomic.AddInt32(&open, -1) }) != nil {
			atomic.AddInt32(&open, 100)
		}
		emit(zzRow("A", 1))
	}})
	zzAll(t, scope, "LET X <= SELECT * FROM res()")
	if !zzWait(3*time.Second, func() bool { return atomic.LoadInt32(&open) == 0 }) {
		t.Fatalf("%d still open", open)
	}
}
''', ['sync/atomic'])

bug('c09_reject_leak', 'C09', 'WHERE of a grouped query opens a resource for rows it rejects',
 'Rows rejected by WHERE of a grouped query do not clean up until the whole query is done.',
 [('vfilter_group.go', '''				// Prepare the next row
				new_scope.Close()
				closer()
''', '''				// Prepare the next row
				closer()
''')],
'''
func TestZZDemo(t *testing.T) {
	var open, max int32
	scope, _ := zzScope(zzF{"res", func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
		n := atomic.AddInt32(&open, 1)
		scope.AddDestructor(func() { atomic.AddInt32(&open, -1) })
		if n > max {
			max = n
		}
		return false
	}})
	zzAll(t, scope, "SELECT count() AS C FROM range(end=50) WHERE res() GROUP BY 1")
	if max > 10 {
		t.Fatalf("%d open at once", max)
	}
}
''', ['sync/atomic'])

bug('c10_if_scope', 'C10', 'a plugin below a conditional registers a clean-up when its rows are read',
 'The conditional closes the scope of its branch at once although the branch is still running.',
 [('plugins/if.go', '''	if scope.Bool(arg.Condition) {
		return arg.Then.Eval(ctx, scope)
	} else''', '''	// Keep the branches apart from the caller.
	sub_scope := scope.Copy()
	defer sub_scope.Close()

	if scope.Bool(arg.Condition) {
		return arg.Then.Eval(ctx, sub_scope)
	} else''')],
'''
func TestZZDemo(t *testing.T) {
	var closed int32
	scope, _ := zzScope(zzP{"res", func(ctx context.Context, scope types.Scope, args *ordereddict.Dict, emit zzEmit) {
		time.Sleep(20 * time.Millisecond)
		if scope.AddDestructor(func() { atomic.StoreInt32(&closed, 1) }) != nil {
			t.Error("refused")
		}
		time.Sleep(20 * time.Millisecond)
		if atomic.LoadInt32(&closed) != 0 {
			t.Error("closed early")
		}
		emit(zzRow("A", 1))
	}})
	zzEq(t, "rows", zzAll(t, scope, "SELECT * FROM if(condition=TRUE, then={SELECT * FROM res()})"), `{"A":1}`)
}
''', ['sync/atomic'])
