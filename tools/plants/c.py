bug('c19_args', 'C19', 'two evaluations of the same parsed query are inside the same function call at the same time',
 'Every call site keeps one dictionary of arguments, so concurrent evaluations see the arguments of each other.',
 [('vfilter.go', '''	self.mu.Lock()
	parameters := self.Parameters
	self.mu.Unlock()

	// Build up the args to pass to the function.
	args := ordereddict.NewDict()
''', '''	// Build up the args to pass to the function. The names are the
	// same each time so use the dict again.
	self.mu.Lock()
	parameters := self.Parameters
	if self.args == nil {
		self.args = ordereddict.NewDict()
	}
	args := self.args
	self.mu.Unlock()

'''), ('vfilter.go', '''	function     FunctionInterface
	split_symbol []string
''', '''	function     FunctionInterface
	args         *ordereddict.Dict
	split_symbol []string
''')],
'''
func TestZZDemo(t *testing.T) {
	vql, err := Parse("SELECT f(v=X) AS A FROM range(end=5)")
	if err != nil {
		t.Fatal(err)
	}
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			scope, _ := zzScope(zzF{"f", func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
				time.Sleep(time.Millisecond)
				return zzArg(ctx, args, "v")
			}})
			scope.AppendVars(zzRow("X", i))
			for r := range vql.Eval(context.Background(), scope) {
				if a, _ := scope.Associative(r, "A"); a != i {
					t.Errorf("got %v instead of %v", a, i)
				}
			}
		}(i)
	}
	wg.Wait()
}
''', ['sync'])

bug('c19_source', 'C19', 'evaluations with different definitions of the stored query selected from run one after the other or at once',
 'The stored query a FROM clause refers to is remembered in the parsed query, so another scope with its own definition gets the rows of the first one.',
 [('vfilter.go', '''	self.mu.Unlock()

	symbol, pres := self.resolveSymbol(ctx, scope, components)
''', '''	stored := self.stored
	self.mu.Unlock()

	// Stored queries do not depend on the scope they are found in.
	var symbol types.Any
	pres := stored != nil
	if pres {
		symbol = stored
	} else {
		symbol, pres = self.resolveSymbol(ctx, scope, components)
		if t, ok := symbol.(*_StoredQuery); ok && t.parameters != nil {
			self.mu.Lock()
			self.stored = t
			self.mu.Unlock()
		}
	}

'''), ('vfilter.go', '''	mu         sync.Mutex
	split_name []string
''', '''	mu         sync.Mutex
	split_name []string
	stored     *_StoredQuery
''')],
'''
func TestZZDemo(t *testing.T) {
	vql, err := Parse("SELECT * FROM Q(X=1)")
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 2; i++ {
		scope, _ := zzScope()
		scope.AppendVars(zzRow("I", i))
		zzAll(t, scope, []string{"LET Q(X) = SELECT X, 0 AS B FROM scope()", "LET Q(X) = SELECT X, 1 AS B FROM scope()"}[i])
		zzEq(t, "rows", zzJ(zzDrain(scope, vql.Eval(context.Background(), scope))), []string{`["{\\"X\\":1,\\"B\\":0}"]`, `["{\\"X\\":1,\\"B\\":1}"]`}[i])
	}
}
''')

bug('c20_name', 'C20', 'the first evaluations of a parsed query happen at the same time',
 'The cached column name is read without the lock.',
 [('vfilter.go', '''	self.mu.Lock()
	column_name := self.column_name
	self.mu.Unlock()

	if column_name != nil {
		return *column_name
	}
''', '''	// Normally we have it already.
	if self.column_name != nil {
		return *self.column_name
	}

	var column_name *string
''')],
'''
func TestZZDemo(t *testing.T) {
	for i := 0; i < 50; i++ {
		vql, err := Parse("SELECT _value, _value + 1 AS B FROM range(end=5)")
		if err != nil {
			t.Fatal(err)
		}
		var wg sync.WaitGroup
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				scope, _ := zzScope()
				zzDrain(scope, vql.Eval(context.Background(), scope))
			}()
		}
		wg.Wait()
	}
}
''', ['sync'], race=True)

bug('c20_vars', 'C20', 'a variable is defined on a scope while another goroutine makes a sub-scope of it',
 'The variables are copied for a sub-scope without holding the lock.',
 [('scope/scope.go', '''func (self *Scope) Copy() types.Scope {
	self.Lock()
	defer self.Unlock()

	self.GetStats().IncScopeCopy()

	// Fast make copy
	var_copy := make([]types.Row, len(self.vars))
	copy(var_copy, self.vars)
''', '''func (self *Scope) Copy() types.Scope {
	self.GetStats().IncScopeCopy()

	// Fast make copy
	var_copy := make([]types.Row, len(self.vars))
	copy(var_copy, self.vars)

	self.Lock()
	defer self.Unlock()
''')],
'''
func TestZZDemo(t *testing.T) {
	scope, _ := zzScope()
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 0; i < 500; i++ {
			scope.AppendVars(zzRow("X", i))
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < 500; i++ {
			scope.Copy().Close()
		}
	}()
	wg.Wait()
}
''', ['sync'], race=True)

bug('c21_chase', 'C21', 'a name that a sub-scope does not know is defined in its parent afterwards',
 'A name not found in a scope is looked up in its parent, where it may have been defined after the sub-scope was made.',
 [('scope/scope.go', '''	vars := self.vars[:]
	self.Unlock()

	return self._ResolveVars(field, vars)
}
''', '''	vars := self.vars[:]
	parent := self.parent
	self.Unlock()

	result, pres := self._ResolveVars(field, vars)
	if !pres && parent != nil {
		return parent.Resolve(field)
	}
	return result, pres
}
''')],
'''
func TestZZDemo(t *testing.T) {
	scope, _ := zzScope()
	child := scope.Copy()
	scope.AppendVars(zzRow("X", 1))
	if x, pres := child.Resolve("X"); pres {
		t.Fatalf("X is %v", x)
	}
}
''')

bug('c21_context', 'C21', 'context is set on an independent scope after it was made',
 'A scope made with NewScope() keeps sharing the functions and plugins with the original one.',
 [('scope/dispatcher.go', '''	plugins_copy := make(map[string]types.PluginGeneratorInterface)
	for k, v := range self.plugins {
		plugins_copy[k] = v
	}
''', '''	plugins_copy := self.plugins
''')],
'''
func TestZZDemo(t *testing.T) {
	scope, _ := zzScope()
	other := scope.NewScope()
	other.AppendPlugins(zzRows("newplugin", zzRow("A", 1)))
	if _, pres := scope.GetPlugin("newplugin"); pres {
		t.Fatal("registered on the original scope")
	}
}
''')

bug('c22_first', 'C22', 'a name is defined twice before the checkpoint, the first time as something else',
 'A checkpoint keeps the first definition of a name, not the one in force.',
 [('scope/marshal.go', '''			value, pres := self.Resolve(k)
			if !pres {
				continue
			}
''', '''			// We have that one already.
			if result.Vars[k] != nil {
				continue
			}

			value, pres := self.Associative(var_item, k)
			if !pres {
				continue
			}
''')],
'''
func TestZZDemo(t *testing.T) {
	scope, _ := zzScope()
	zzAll(t, scope, "LET X <= 1 LET X <= 2")
	item, err := marshal.Marshal(scope, scope)
	if err != nil {
		t.Fatal(err)
	}
	un := NewUnmarshaller(nil)
	fresh, _ := zzScope()
	r, err := un.Unmarshal(un, fresh, item)
	if err != nil {
		t.Fatal(err)
	}
	zzEq(t, "rows", zzAll(t, r.(types.Scope), "SELECT X FROM scope()"), `{"X":2}`)
}
''', ['www.velocidex.com/golang/vfilter/marshal'])

bug('c22_eval', 'C22', 'the scope holds a stored expression with side effects when the checkpoint is taken',
 'Taking a checkpoint evaluates stored expressions without parameters.',
 [('marshal.go', '''	var query string
	if self.parameters == nil {
		query = fmt.Sprintf("LET `%v` = %s", self.name,
			FormatToString(scope, self.Expr))
''', '''	var query string
	if self.parameters == nil {
		// Nothing to remember if it can not be evaluated here.
		if types.IsNil(self.Reduce(context.Background(), scope)) {
			scope.Log("WARN:%v has no value at the checkpoint", self.name)
		}
		query = fmt.Sprintf("LET `%v` = "+"%s", self.name,
			FormatToString(scope, self.Expr))
''')],
'''
func TestZZDemo(t *testing.T) {
	n := 0
	scope, _ := zzScope(zzF{"f", func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
		n++
		return 1
	}})
	zzAll(t, scope, "LET X = f()")
	if _, err := marshal.Marshal(scope, scope); err != nil {
		t.Fatal(err)
	}
	if n != 0 {
		t.Fatalf("evaluated %d times", n)
	}
}
''', ['www.velocidex.com/golang/vfilter/marshal'])

bug('c23_null', 'C23', 'WHERE yields NULL for a row of an explained query',
 'Rows rejected because the condition is NULL are not reported.',
 [('vfilter.go', '''		expression := self.Where.Reduce(ctx, new_scope)

		// If the filtered expression returns a bool true,
''', '''		expression := self.Where.Reduce(ctx, new_scope)
		if types.IsNil(expression) {
			return
		}

		// If the filter expression returns a bool true,
''')],
'''
type zzExplain struct{ types.Explainer }

var zzRejected, zzEmitted int

func (self zzExplain) StartQuery(n interface{})                                         {}
func (self zzExplain) PluginOutput(n interface{}, row types.Row)                        {}
func (self zzExplain) SelectOutput(row types.Row)                                       { zzEmitted++ }
func (self zzExplain) RejectRow(w interface{})                                          { zzRejected++ }
func (self zzExplain) ParseArgs(args *ordereddict.Dict, result interface{}, err error) {}
func (self zzExplain) Log(message string)                                               {}

func TestZZDemo(t *testing.T) {
	scope, _ := zzScope(zzRows("src", zzRow("A", 1), zzRow("A", types.Null{}), zzRow("A", 0)))
	scope.SetExplainer(zzExplain{})
	zzAll(t, scope, "EXPLAIN SELECT * FROM src() WHERE A")
	if zzEmitted != 1 || zzRejected != 2 {
		t.Fatalf("%d emitted %d rejected", zzEmitted, zzRejected)
	}
}
''')

bug('c23_value', 'C23', 'the columns of an explained query hold stored queries (or other values evaluated when described)',
 'The explainer expands the row it is told about, which evaluates rows a second time.',
 [('vfilter.go', '''				scope.Explainer().PluginOutput(
					&self.From.Plugin, row)
				self.processSingleRow(ctx, scope, row, output_chan)
''', '''				explainer := scope.Explainer()
				if explainer != scope_module.NULL_EXPLAINER {
					// Do not show lazy values.
					explainer.PluginOutput(&self.From.Plugin,
						RowToDict(ctx, scope, row))
				}
				self.processSingleRow(ctx, scope, row, output_chan)
''')],
'''
type zzLazy struct{ n *int }

func (self zzLazy) Reduce(ctx context.Context) types.Any { *self.n++; return 1 }
func (self zzLazy) ReduceWithScope(ctx context.Context, scope types.Scope) types.Any {
	return self.Reduce(ctx)
}

func TestZZDemo(t *testing.T) {
	n := 0
	scope, _ := zzScope(zzRows("src", zzRow("A", 1, "B", zzLazy{&n})))
	zzAll(t, scope, "SELECT A FROM src()")
	if n != 0 {
		t.Fatalf("evaluated %d times without explain", n)
	}
	scope.SetExplainer(explainNothing{})
	zzAll(t, scope, "EXPLAIN SELECT A FROM src()")
	if n != 0 {
		t.Fatalf("evaluated %d times", n)
	}
}

type explainNothing struct{}

func (self explainNothing) StartQuery(n interface{})                                         {}
func (self explainNothing) PluginOutput(n interface{}, row types.Row)                        {}
func (self explainNothing) SelectOutput(row types.Row)                                       {}
func (self explainNothing) RejectRow(w interface{})                                          {}
func (self explainNothing) ParseArgs(args *ordereddict.Dict, result interface{}, err error) {}
func (self explainNothing) Log(message string)                                               {}
''')

bug('c24_atomic', 'C24', 'two workers scan a row at the same time',
 'The number of scanned rows is updated by a load and a store, so concurrent updates are lost.',
 [('types/stats.go', '''	atomic.AddUint64(&self._RowsScanned, uint64(1))
''', '''	scanned := atomic.LoadUint64(&self._RowsScanned)
	atomic.StoreUint64(&self._RowsScanned, scanned+1)
''')],
'''
func TestZZDemo(t *testing.T) {
	scope, _ := zzScope()
	vql, _ := Parse("SELECT * FROM range(end=20000)")
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for range vql.Eval(context.Background(), scope) {
			}
		}()
	}
	wg.Wait()
	if n, _ := scope.GetStats().Snapshot().Get("RowsScanned"); n != uint64(160000) {
		t.Fatalf("%v rows", n)
	}
}
''', ['sync'])

bug('c24_null', 'C24', 'a function yields nothing or NULL',
 'Function calls without a result are not counted.',
 [('vfilter.go', '''	// Call the function now.
	scope.GetStats().IncFunctionsCalled()

	result := func_obj.Call(ctx, scope, args)
''', '''	// Call the function now.
	result := func_obj.Call(ctx, scope, args)
'''), ('vfilter.go', '''		return &Null{}
	}

	return result
}

func GetIntScope''', '''		return &Null{}
	}

	scope.GetStats().IncFunctionsCalled()

	return result
}

func GetIntScope''')],
'''
func TestZZDemo(t *testing.T) {
	scope, _ := zzScope(zzF{"f", func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any { return nil }})
	zzAll(t, scope, "SELECT f() FROM range(end=3)")
	if n, _ := scope.GetStats().Snapshot().Get("FunctionsCalled"); n != uint64(3) {
		t.Fatalf("%v calls", n)
	}
}
''')

bug('c25_limit', 'C25', 'an evaluation of a query with LIMIT is cancelled before it is done',
 'The limit is taken out of the parsed query while it runs and only put back when it ends normally.',
 [('vfilter.go', '''			self_copy := *self
			self_copy.Limit = nil

			// Cancel''', '''			saved := self.Limit
			self.Limit = nil

			// Cancel'''), ('vfilter.go', '''			for row := range self_copy.Eval(sub_ctx, scope) {
				select {
				case <-ctx.Done():
					return
				case output_chan <- row:
				}
				count += 1
				if count > limit {
					return
				}
			}
''', '''			row_chan := self.Eval(sub_ctx, scope)
			for row := range row_chan {
				select {
				case <-ctx.Done():
					return
				case output_chan <- row:
				}
				count += 1
				if count > limit {
					break
				}
			}
			self.Limit = saved
''')],
'''
func TestZZDemo(t *testing.T) {
	vql, _ := Parse("SELECT * FROM range(end=10) LIMIT 3")
	run := func(n int) int {
		scope, _ := zzScope()
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		c := vql.Eval(ctx, scope)
		got := 0
		for range c {
			got++
			if got == n {
				cancel()
				time.Sleep(10 * time.Millisecond)
				break
			}
		}
		return got
	}
	run(100)
	for i := 0; i < 50; i++ {
		run(1)
	}
	if n := run(100); n != 3 {
		t.Fatalf("%d rows", n)
	}
}
''')

bug('c25_func', 'C25', 'the scope of a later evaluation defines another function or none under the name that is called',
 'A call site keeps calling the function it found in the scope of an earlier evaluation.',
 [('vfilter.go', '''	// Single item reference and called - call built in function.
	if len(components) == 1 && self.Called {
		res, pres := scope.GetFunction(components[0])
		if pres {
			return res, negated, pres
		}
	}
''', '''	// Single item reference and called - call built in function.
	if len(components) == 1 && self.Called {
		self.mu.Lock()
		cached := self.function
		self.mu.Unlock()
		if cached != nil {
			return cached, negated, true
		}

		found, pres := scope.GetFunction(components[0])
		if pres {
			return found, negated, pres
		}
	}
''')],
'''
func TestZZDemo(t *testing.T) {
	vql, _ := Parse("SELECT f() AS A FROM range(end=1)")
	one, _ := zzScope(zzF{"f", func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any { return 1 }})
	zzEq(t, "rows", zzJ(zzDrain(one, vql.Eval(context.Background(), one))), `["{\\"A\\":1}"]`)
	two, _ := zzScope()
	zzEq(t, "rows", zzJ(zzDrain(two, vql.Eval(context.Background(), two))), `["{\\"A\\":null}"]`)
}
''')

bug('c26_silent', 'C26', 'the runaway recursion happens outside of a SELECT, as in a materialised expression',
 'Overflow is only logged if the query is known.',
 [('scope/scope.go', '''	query, _ := self._ResolveVars("$Query", vars)
	self.Log("Stack Overflow: %v", query)
''', '''	query, pres := self._ResolveVars("$Query", vars)
	if pres {
		self.Log("Stack Overflow: %v", query)
	}
''')],
'''
func TestZZDemo(t *testing.T) {
	scope, lg := zzScope()
	zzAll(t, scope, "LET F(X) = F(X=X + 1) LET Y <= F(X=1)")
	if !lg.has("Stack Overflow") {
		t.Fatal("not logged")
	}
}
''')

bug('c27_if', 'C27', 'the if() plugin is called without a condition or with arguments that do not fit',
 'A conditional with bad arguments never ends.',
 [('plugins/if.go', '''		scope.Log("if: %s", err.Error())
		close(output_chan)
		return output_chan
''', '''		scope.Log("if: %s", err.Error())
		return output_chan
''')],
'''
func TestZZDemo(t *testing.T) {
	scope, _ := zzScope()
	zzIn(t, 5*time.Second, "query", func() {
		zzEq(t, "rows", zzAll(t, scope, "SELECT * FROM if(then={SELECT 1 AS A FROM scope()})"), "")
	})
}
''')

bug('c27_chain', 'C27', 'one of several chained queries yields nothing',
 'chain() stops at the first query without rows.',
 [('plugins/chain.go', '''			for item := range in_chan {
				select {
''', '''			count := 0
			for item := range in_chan {
				count++
				select {
'''), ('plugins/chain.go', '''			new_scope.Close()
		}
	}()
''', '''			new_scope.Close()

			// The source failed.
			if count == 0 && ctx.Err() == nil {
				scope.Log("chain: query without rows")
				return
			}
		}
	}()
'''), ('plugins/chain.go', '''	// Maintain definition order for the chain plugin.
''', '''	// Maintain definition order.
''')],
'''
func TestZZDemo(t *testing.T) {
	scope, _ := zzScope()
	zzEq(t, "rows", zzAll(t, scope, "SELECT * FROM chain(a={SELECT * FROM range(end=1)}, b={SELECT * FROM nosuchplugin()}, c={SELECT * FROM range(end=1)})"),
		`{"_value":0} {"_value":0}`)
}
''')

bug('c28_column', 'C28', 'a column holds a stored query and the host installed its own materialiser',
 'Queries in columns bypass the materialiser of the scope.',
 [('vfilter.go', '''					return new_scope.Materialize(ctx, name, t)
''', '''					return types.Materialize(ctx, new_scope, t)
''')],
'''
type zzMat struct{ n *int }

func (self zzMat) Materialize(ctx context.Context, scope types.Scope, name string, query types.StoredQuery) types.StoredQuery {
	*self.n++
	return materializer.NewInMemoryMatrializer(types.Materialize(ctx, scope, query))
}

func TestZZDemo(t *testing.T) {
	scope, _ := zzScope()
	n := 0
	scope.(interface {
		SetMaterializer(types.ScopeMaterializer)
	}).SetMaterializer(zzMat{&n})
	zzAll(t, scope, "LET Q = SELECT * FROM range(end=2) SELECT Q FROM range(end=3)")
	if n != 3 {
		t.Fatalf("used %d times", n)
	}
}
''', ['www.velocidex.com/golang/vfilter/materializer'])

bug('c28_group_sort', 'C28', 'a grouped query is also ordered and the host installed its own sorter',
 'Groups are always sorted by the default sorter.',
 [('vfilter_group.go', '''	sorted_chan := scope.(*scope_module.Scope).Sort(
''', '''	sorted_chan := (sort.DefaultSorter{}).Sort(
'''), ('vfilter_group.go', '''	scope_module "www.velocidex.com/golang/vfilter/scope"
''', '''	"www.velocidex.com/golang/vfilter/sort"
''')],
'''
type zzSort struct{ n *int }

func (self zzSort) Sort(ctx context.Context, scope types.Scope, input <-chan types.Row, key string, desc bool) <-chan types.Row {
	*self.n++
	return sort.DefaultSorter{}.Sort(ctx, scope, input, key, desc)
}

func TestZZDemo(t *testing.T) {
	scope, _ := zzScope()
	n := 0
	scope.SetSorter(zzSort{&n})
	zzAll(t, scope, "SELECT _value FROM range(end=3) GROUP BY _value ORDER BY _value")
	if n != 1 {
		t.Fatalf("used %d times", n)
	}
}
''', ['www.velocidex.com/golang/vfilter/sort'])
