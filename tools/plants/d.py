bug('c03_column', 'C03', 'foreach is given a column and workers',
 'With column= the rows may come from the same container so they are handed to one worker only.',
 [('plugins/foreach.go', '''		pool := newWorkerPool(ctx, arg.Query, output_chan, int(arg.Workers))
''', '''		// The cells of one column may share state.
		size := int(arg.Workers)
		if arg.Column != "" {
			size = 1
		}
		pool := newWorkerPool(ctx, arg.Query, output_chan, size)
''')],
'''
func TestZZDemo(t *testing.T) {
	start := time.Now()
	scope, _ := zzScope(zzF{"nap", func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
		time.Sleep(200 * time.Millisecond)
		return zzArg(ctx, args, "v")
	}})
	rows := zzAll(t, scope, "SELECT * FROM foreach(row={ SELECT dict(A=_value) AS Item FROM range(end=10) }, column='Item', workers=10, query={ SELECT nap(v=A) AS B FROM scope() })")
	_ = rows
	if d := time.Since(start); d > time.Second {
		t.Errorf("ten workers took %v", d)
	}
}
''')

bug('c06_runs', 'C06', 'more than 32 rows arrive of which the first ones are in order already',
 'Input that looks sorted is not sorted again, but only its beginning is looked at.',
 [('sort/sort.go', '''			// Sort ourselves
			sort.Sort(sort_ctx)
''', '''			// Often the rows are in order already.
			if !sort_ctx.inOrder() {
				sort.Sort(sort_ctx)
			}
'''), ('sort/sort.go', '''func (self *DefaultSorterCtx) Len() int {
''', '''func (self *DefaultSorterCtx) inOrder() bool {
	if len(self.Items) < 32 {
		return false
	}
	for i := 1; i < 32; i++ {
		if !self.Less(i-1, i) {
			return false
		}
	}
	return true
}

func (self *DefaultSorterCtx) Len() int {
''')],
'''
func TestZZDemo(t *testing.T) {
	scope, _ := zzScope()
	zzEq(t, "rows", zzAll(t, scope, "SELECT A FROM foreach(row={ SELECT _value AS A FROM chain(a={ SELECT * FROM range(start=1, end=41) }, b={ SELECT * FROM range(end=1) }) }) ORDER BY A LIMIT 2"), `{"A":0} {"A":1}`)
}
''')

bug('c04_wide', 'C04', 'the keys of two groups only differ behind their 64th byte',
 'Long group keys are cut off.',
 [('vfilter_group.go', '''		// Emit a single row.
		return transformed_row, row, gb_element, new_scope, nil
''', '''		// Do not keep very long keys around.
		bin := gb_element
		if len(bin) > 64 {
			bin = bin[:64]
		}

		// Emit a single row.
		return transformed_row, row, bin, new_scope, nil
''')],
'''
func TestZZDemo(t *testing.T) {
	p := strings.Repeat("x", 80)
	scope, _ := zzScope(zzRows("t", zzRow("A", p+"1"), zzRow("A", p+"2"), zzRow("A", p+"1")))
	zzEq(t, "rows", zzAll(t, scope, "SELECT count() AS C FROM t() GROUP BY A"), `{"C":2} {"C":1}`)
}
''', ['strings'])

bug('c28_cleared', 'C28', 'the context of the scope is cleared after the host installed its own grouper and materialiser',
 'A scope whose context is cleared starts again with the default materialiser and grouper.',
 [('scope/dispatcher.go', '''		iterator:     self.iterator,
		Sorter:       self.Sorter,
		Grouper:      self.Grouper,
		Materializer: self.Materializer,
''', '''		iterator:     self.iterator,
		Sorter:       self.Sorter,
		Grouper:      &grouper.DefaultGrouper{},
		Materializer: &materializer.DefaultMaterializer{},
''')],
'''
type zzMat struct{ n *int }

func (self zzMat) Materialize(ctx context.Context, scope types.Scope, name string, query types.StoredQuery) types.StoredQuery {
	*self.n++
	return query
}

func TestZZDemo(t *testing.T) {
	scope := NewScope()
	n := 0
	scope.SetMaterializer(zzMat{&n})
	scope.ClearContext()
	zzAll(t, scope, "LET Q <= SELECT * FROM range(end=3) SELECT * FROM Q")
	zzEq(t, "materialised", zzJ(n), "1")
}
''')

bug('c16_second', 'C16', 'a scope is given a second throttler and closed while callers wait for it',
 'Only the first throttler of a scope is closed with it.',
 [('scope/scope.go', '''	self.Lock()
	self.throttler = t
	self.Unlock()
	self.AddDestructor(t.Close)
''', '''	self.Lock()
	previous := self.throttler
	self.throttler = t
	self.Unlock()

	// Close it with the scope, once.
	if previous == nil {
		self.AddDestructor(t.Close)
	}
''')],
'''
func TestZZDemo(t *testing.T) {
	scope := NewScope()
	scope.SetThrottler(NewTimeThrottler(50))
	scope.SetThrottler(NewTimeThrottler(0.01))
	done := make(chan bool)
	go func() {
		scope.ChargeOp()
		close(done)
	}()
	time.Sleep(50 * time.Millisecond)
	scope.Close()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Error("a caller still waits for the throttler of a closed scope")
	}
}
''')

bug('c20_lazy_context', 'C20', 'one goroutine gives a scope a new aggregation context while another one aggregates on it',
 'The aggregation context is looked up without the lock if it is there already.',
 [('scope/scope.go', '''func (self *Scope) GetAggregatorCtx() types.AggregatorCtx {
	self.Lock()
	defer self.Unlock()
''', '''func (self *Scope) GetAggregatorCtx() types.AggregatorCtx {
	// Usually we have it already.
	if self.ag_context != nil {
		return self.ag_context
	}

	return self.findAggregatorCtx()
}

func (self *Scope) findAggregatorCtx() types.AggregatorCtx {
	self.Lock()
	defer self.Unlock()
'''), ('scope/scope.go', '''			return self.parent.GetAggregatorCtx()
''', '''			return self.parent.findAggregatorCtx()
''')],
'''
func TestZZDemo(t *testing.T) {
	for i := 0; i < 50; i++ {
		scope := NewScope()
		scope.SetAggregatorCtx(nil)
		var wg sync.WaitGroup
		for k := 0; k < 8; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				if k%2 == 0 {
					scope.SetAggregatorCtx(nil)
				}
				scope.GetAggregatorCtx().Modify("x", func(old types.Any, pres bool) types.Any { return 1 })
			}(k)
		}
		wg.Wait()
	}
}
''', ['sync'], race=True)

bug('c17_text', 'C17', 'the same query is materialised twice under different names while its source changes',
 'Materialising remembers the rows of a query by its text and does not evaluate it again.',
 [('vfilter.go', '''func (self *_Select) Eval(ctx context.Context, scope types.Scope) <-chan Row {
''', '''// The rows of materialised queries on this scope.
func materializeOnce(ctx context.Context, scope types.Scope,
	name string, query *_Select) types.StoredQuery {
	key := "$materialized:" + FormatToString(scope, query)
	known, pres := scope.GetContext(key)
	if pres {
		return known.(types.StoredQuery)
	}
	result := scope.Materialize(ctx, name, query)
	scope.SetContext(key, result)
	return result
}

func (self *_Select) Eval(ctx context.Context, scope types.Scope) <-chan Row {
'''), ('vfilter.go', '''					name, scope.Materialize(ctx, name, self.StoredQuery)))
''', '''					name, materializeOnce(ctx, scope, name, self.StoredQuery)))
''')],
'''
func TestZZDemo(t *testing.T) {
	n := 0
	scope, _ := zzScope(zzP{"next", func(ctx context.Context, scope types.Scope, args *ordereddict.Dict, emit zzEmit) {
		n++
		emit(zzRow("N", n))
	}})
	zzEq(t, "rows", zzAll(t, scope, "LET A <= SELECT * FROM next() LET B <= SELECT * FROM next() SELECT A.N AS A, B.N AS B FROM scope()"), `{"A":[1],"B":[2]}`)
}
''')

bug('c12_many', 'C12', 'a scope has more than twenty clean-ups and one of them takes more than a second',
 'When many clean-ups are pending each gets a second only, so the ones after a slow one run beside it.',
 [('scope/scope.go', '''			ctx, cancel := context.WithTimeout(context.Background(), time.Second*60)
''', '''			// Be less patient when there are many.
			patience := time.Second * 60
			if len(ds) > 20 {
				patience = time.Second
			}
			ctx, cancel := context.WithTimeout(context.Background(), patience)
''')],
'''
func TestZZDemo(t *testing.T) {
	scope := NewScope()
	var mu sync.Mutex
	var got []int
	for i := 0; i < 25; i++ {
		i := i
		scope.AddDestructor(func() {
			if i == 20 {
				time.Sleep(3 * time.Second)
			}
			mu.Lock()
			got = append(got, i)
			mu.Unlock()
		})
	}
	scope.Close()
	mu.Lock()
	defer mu.Unlock()
	for i := range got {
		if got[i] != 24-i {
			t.Fatalf("clean-ups ran as %v", got)
		}
	}
	zzEq(t, "clean-ups", zzJ(len(got)), "25")
}
''', ['sync'])

bug('c14_big', 'C14', 'more than 500 rows are pending when the query ends',
 'A batch takes at most 500 rows and leaves the rest for the next one, which never comes at the end.',
 [('api.go', '''			s, err := encoder(rows)
''', '''			// Very large messages are a problem for some clients.
			batch := rows
			if len(batch) > 500 {
				batch = batch[:500]
			}
			s, err := encoder(batch)
'''), ('api.go', '''				TotalRows: len(rows),
''', '''				TotalRows: len(batch),
'''), ('api.go', '''			rows = []Row{}
			part += 1
''', '''			rows = append([]Row{}, rows[len(batch):]...)
			part += 1
''')],
'''
func TestZZDemo(t *testing.T) {
	scope := NewScope()
	vql, err := Parse("SELECT * FROM range(end=600)")
	if err != nil {
		t.Fatal(err)
	}
	n := 0
	for r := range GetResponseChannel(vql, context.Background(), scope, func(rows []Row) ([]byte, error) { return json.Marshal(rows) }, 1000, 100) {
		n += r.TotalRows
	}
	zzEq(t, "rows", zzJ(n), "600")
}
''', ['encoding/json'])

bug('c27_flatten', 'C27', 'flatten() meets a row without any column between other rows',
 'A row without columns ends the output of flatten().',
 [('plugins/flatten.go', '''			row_item, ok := <-row_chan
			if !ok {
				break
			}

			row_dict := makeDict(scope, row_item)
			members := row_dict.Keys()

			flattened := flatten(ctx, scope, row_dict, len(members)-1)
''', '''			row_item, ok := <-row_chan
			row_dict := makeDict(scope, row_item)
			members := row_dict.Keys()
			if !ok || len(members) == 0 {
				break
			}

			flattened := flatten(ctx, scope, row_dict, len(members)-1)
''')],
'''
func TestZZDemo(t *testing.T) {
	scope, _ := zzScope(zzRows("t", zzRow("A", 1), zzRow(), zzRow("A", 2)))
	got := zzJ(zzAll(t, scope, "SELECT A FROM flatten(query={ SELECT * FROM t() })"))
	if !strings.Contains(got, "2") {
		t.Errorf("rows after the empty one are missing: %v", got)
	}
}
''', ['strings'])

bug('c09_lambda', 'C09', 'a lambda function opens a resource',
 'The sub-scope of a lambda is not closed.',
 [('lambda.go', '''	subscope := scope.Copy().AppendVars(vars)
	defer subscope.Close()

	return self.Expression.Reduce(ctx, subscope)
''', '''	subscope := scope.Copy().AppendVars(vars)

	// Only simple values can be returned after closing the scope.
	result := self.Expression.Reduce(ctx, subscope)
	if _, ok := result.(types.LazyExpr); !ok && result != nil {
		return result
	}
	subscope.Close()
	return result
''')],
'''
func TestZZDemo(t *testing.T) {
	opened, closed := 0, 0
	scope, _ := zzScope(zzF{"open", func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
		opened++
		scope.AddDestructor(func() { closed++ })
		return opened
	}})
	l, err := ParseLambda("x=>open() + x")
	if err != nil {
		t.Fatal(err)
	}
	zzEq(t, "result", zzJ(l.Reduce(context.Background(), scope, []types.Any{1})), "2")
	zzEq(t, "closed", zzJ(closed), "1")
}
''')
