bug('c11_compact', 'C11', 'more than ten sub-scopes created after a long-lived one are closed before the next one is made, then the parent is closed',
 'Compacting the list of sub-scopes assumes that the oldest were closed first and forgets a live one, whose clean-ups then never run.',
 [('scope/scope.go', '''		new_children := make([]*Scope, 0, len(self.children))
		for _, c := range self.children {
			if c != nil {
				new_children = append(new_children, c)
			}
		}
		self.children = new_children
''', '''		// Usually the oldest children are closed first.
		new_children := append([]*Scope(nil),
			self.children[self.children_grabage_count:]...)
		self.children = new_children
''')],
'''
func TestZZDemo(t *testing.T) {
	scope, _ := zzScope()
	ran := 0
	keep := scope.Copy()
	keep.AddDestructor(func() { ran++ })
	for i := 0; i < 11; i++ {
		scope.Copy().Close()
	}
	scope.Copy()
	scope.Close()
	if ran != 1 {
		t.Fatalf("ran %d times", ran)
	}
}
''')

bug('c11_twice', 'C11', 'the same scope is closed by two goroutines while a clean-up is running',
 'Clean-ups are only taken off the list after they have run, so a second closer runs them again.',
 [('scope/scope.go', '''	result := append(self.fn[:0:0], self.fn...)
	self.fn = nil
	return result
}
''', '''	return append(self.fn[:0:0], self.fn...)
}

// Forget about the first destructors once they are done.
func (self *_destructors) Done(count int) {
	self.mu.Lock()
	defer self.mu.Unlock()

	if count > len(self.fn) {
		count = len(self.fn)
	}
	self.fn = self.fn[count:]
}
'''), ('scope/scope.go', '''			case <-ctx.Done():
			}
		}
	}
}
''', '''			case <-ctx.Done():
			}
		}

		self.destructors.Done(len(ds))
	}
}
'''), ('scope/scope.go', '''// Take all the''', '''// Take all the''')],
'''
func TestZZDemo(t *testing.T) {
	scope, _ := zzScope()
	var n int32
	scope.AddDestructor(func() { time.Sleep(200 * time.Millisecond); atomic.AddInt32(&n, 1) })
	go scope.Close()
	time.Sleep(50 * time.Millisecond)
	scope.Close()
	time.Sleep(500 * time.Millisecond)
	if x := atomic.LoadInt32(&n); x != 1 {
		t.Fatalf("ran %d times", x)
	}
}
''', ['sync/atomic'])

bug('c12_deadline', 'C12', 'a clean-up function hangs for a minute and others remain to be run',
 'One minute is allowed for all clean-up functions together, so once it is over the remaining ones run all at once and closing does not wait for them.',
 [('scope/scope.go', '''	// Destructors are called in reverse order to their
	// declarations.
	for try''', '''	// Do not wait for destructors forever.
	ctx, cancel := context.WithTimeout(context.Background(), time.Second*60)
	defer cancel()

	// Destructors are called in reverse order to their
	// declarations.
	for try'''), ('scope/scope.go', '''			ctx, cancel := context.WithTimeout(context.Background(), time.Second*60)
			go func() {
				// Destructors may schedule a new destructor to retry
				ds[i]()
				cancel()
			}()

			select {
			// Wait a maximum 60 seconds for the
			// destructor before moving on.
			case <-ctx.Done():
			}
''', '''			done := make(chan bool)
			go func() {
				// Destructors may schedule a new destructor to retry
				ds[i]()
				close(done)
			}()

			select {
			// Wait a maximum 60 seconds before moving on.
			case <-ctx.Done():
			case <-done:
			}
''')],
'''
func TestZZDemo(t *testing.T) {
	scope, _ := zzScope()
	var l []int
	scope.AddDestructor(func() { time.Sleep(100 * time.Millisecond); l = append(l, 1) })
	scope.AddDestructor(func() { time.Sleep(200 * time.Millisecond); l = append(l, 2) })
	scope.AddDestructor(func() { time.Sleep(time.Hour) })
	scope.Close()
	zzEq(t, "order", zzJ(l), "[2,1]")
}
''')

bug('c12_retry', 'C12', 'a clean-up registers another one, which registers another one, more than three deep',
 'Clean-ups registered by clean-ups are only run three levels deep.',
 [('scope/scope.go', '''	for try := 0; try < 10; try++ {''', '''	for try := 0; try < 3; try++ {''')],
'''
func TestZZDemo(t *testing.T) {
	scope, _ := zzScope()
	n := 0
	var f func()
	f = func() {
		n++
		if n < 5 {
			if scope.AddDestructor(f) != nil {
				t.Error("refused")
			}
		}
	}
	scope.AddDestructor(f)
	scope.Close()
	if n != 5 {
		t.Fatalf("%d ran", n)
	}
}
''')

bug('c13_buffer', 'C13', 'the reader of a flattened query stops reading while the source has many more rows',
 'The source of flatten() may run hundreds of rows ahead of the reader.',
 [('plugins/flatten.go', 'output_chan := make(chan types.Row)', '// Let the query run ahead while the row is processed.\n\toutput_chan := make(chan types.Row, 500)')],
'''
func TestZZDemo(t *testing.T) {
	var n int32
	scope, _ := zzScope(zzP{"src", func(ctx context.Context, scope types.Scope, args *ordereddict.Dict, emit zzEmit) {
		for emit(zzRow("A", atomic.AddInt32(&n, 1))) {
		}
	}})
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	<-zzEval(t, ctx, scope, "SELECT A FROM flatten(query={ SELECT A FROM src() })")
	time.Sleep(time.Second)
	if x := atomic.LoadInt32(&n); x > 30 {
		t.Fatalf("%d rows were read", x)
	}
}
''', ['sync/atomic'])

bug('c13_chain', 'C13', 'a chained query pauses between its rows',
 'chain() emits the rows of a query only when that query has ended.',
 [('plugins/chain.go', '''			in_chan := query.Eval(ctx, new_scope)
			for item := range in_chan {
				select {
				case <-ctx.Done():
					new_scope.Close()
					return

				case output_chan <- item:
				}
			}

			new_scope.Close()
''', '''			// Release the scope before sending the rows.
			rows := types.Materialize(ctx, new_scope, query)
			new_scope.Close()

			for _, item := range rows {
				select {
				case <-ctx.Done():
					return

				case output_chan <- item:
				}
			}
''')],
'''
func TestZZDemo(t *testing.T) {
	got := make(chan bool)
	scope, _ := zzScope(zzP{"src", func(ctx context.Context, scope types.Scope, args *ordereddict.Dict, emit zzEmit) {
		emit(zzRow("A", 1))
		select {
		case <-got:
		case <-time.After(5 * time.Second):
			t.Error("first row not delivered")
		}
		emit(zzRow("A", 2))
	}})
	c := zzEval(t, context.Background(), scope, "SELECT * FROM chain(a={SELECT * FROM src()})")
	<-c
	close(got)
	zzDrain(scope, c)
}
''')

bug('c14_part', 'C14', 'the encoder fails once and succeeds later',
 'A failed encoding attempt uses up a part number.',
 [('api.go', '''			s, err := encoder(rows)
			if err != nil {
				scope.Log("Unable to serialize: %v", err)
				return
			}

			result := &VFilterJsonResult{
				Part:      part,
''', '''			this_part := part
			part++

			s, err := encoder(rows)
			if err != nil {
				scope.Log("Unable to serialize: %v", err)
				return
			}

			result := &VFilterJsonResult{
				Part:      this_part,
'''), ('api.go', '''			rows = []Row{}
			part += 1
''', '''			rows = []Row{}
''')],
'''
func TestZZDemo(t *testing.T) {
	scope, _ := zzScope()
	vql, _ := Parse("SELECT * FROM range(end=5)")
	n := 0
	enc := func(rows []Row) ([]byte, error) {
		n++
		if n == 2 {
			return nil, errors.New("failed")
		}
		return json.Marshal(rows)
	}
	var parts, total []int
	for p := range GetResponseChannel(vql, context.Background(), scope, enc, 1, 100) {
		parts = append(parts, p.Part)
		total = append(total, p.TotalRows)
	}
	zzEq(t, "rows", zzJ(total), "[1,2,1,1]")
	zzEq(t, "parts", zzJ(parts), "[0,1,2,3]")
}
''', ['errors', 'encoding/json'])

bug('c14_lost', 'C14', 'the encoder fails once',
 'The rows of a batch that could not be encoded are thrown away.',
 [('api.go', '''				scope.Log("Unable to serialize: %v", err)
				return
''', '''				scope.Log("Unable to serialize %v rows: %v",
					len(rows), err)
				rows = []Row{}
				return
''')],
'''
func TestZZDemo(t *testing.T) {
	scope, _ := zzScope(zzP{"src", func(ctx context.Context, scope types.Scope, args *ordereddict.Dict, emit zzEmit) {
		emit(zzRow("A", 1))
		time.Sleep(2500 * time.Millisecond)
		emit(zzRow("A", 2))
	}})
	vql, _ := Parse("SELECT * FROM src()")
	n := 0
	enc := func(rows []Row) ([]byte, error) {
		n++
		if n < 3 {
			return nil, errors.New("failed")
		}
		return json.Marshal(rows)
	}
	got := ""
	for p := range GetResponseChannel(vql, context.Background(), scope, enc, 100, 1) {
		got += string(p.Payload)
	}
	zzEq(t, "rows", got, `[{"A":1},{"A":2}]`)
}
''', ['errors', 'encoding/json'])

bug('c15_rearm', 'C15', 'rows keep arriving at intervals shorter than the maximum wait',
 'The maximum wait starts again with every row, so a slow steady query is not shipped before the batch is full.',
 [('api.go', '''				value := dict.RowToDict(ctx, scope, row)
				rows = append(rows, value)
			}
		}
	}()
''', '''				value := dict.RowToDict(ctx, scope, row)
				rows = append(rows, value)
				deadline = time.After(time.Duration(max_wait) *
					time.Second)
			}
		}
	}()
'''), ('api.go', '''				// Update the deadline to re-fire next.
''', '''				// Wait again.
''')],
'''
func TestZZDemo(t *testing.T) {
	scope, _ := zzScope(zzP{"src", func(ctx context.Context, scope types.Scope, args *ordereddict.Dict, emit zzEmit) {
		for i := 0; i < 10; i++ {
			emit(zzRow("A", i))
			time.Sleep(600 * time.Millisecond)
		}
	}})
	vql, _ := Parse("SELECT * FROM src()")
	start := time.Now()
	<-GetResponseChannel(vql, context.Background(), scope, func(rows []Row) ([]byte, error) { return json.Marshal(rows) }, 100, 1)
	if d := time.Since(start); d > 3*time.Second {
		t.Fatalf("first batch after %v", d)
	}
}
''', ['encoding/json'])

bug('c15_once', 'C15', 'nothing is pending when the wait is over for the first time',
 'The timer is only started again when something was shipped, so after an idle period nothing is delivered in time any more.',
 [('api.go', '''				if len(rows) > 0 {
					ship_payload()
				}
				// Update the deadline to re-fire next.
				deadline = time.After(time.Duration(max_wait) * time.Second)
''', '''				if len(rows) > 0 {
					ship_payload()

					// Update the deadline to re-fire next.
					deadline = time.After(time.Duration(max_wait) * time.Second)
				}
''')],
'''
func TestZZDemo(t *testing.T) {
	scope, _ := zzScope(zzP{"src", func(ctx context.Context, scope types.Scope, args *ordereddict.Dict, emit zzEmit) {
		time.Sleep(1500 * time.Millisecond)
		emit(zzRow("A", 1))
		select {
		case <-ctx.Done():
		case <-time.After(10 * time.Second):
		}
	}})
	vql, _ := Parse("SELECT * FROM src()")
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	start := time.Now()
	<-GetResponseChannel(vql, ctx, scope, func(rows []Row) ([]byte, error) { return json.Marshal(rows) }, 100, 1)
	if d := time.Since(start); d > 5*time.Second {
		t.Fatalf("first batch after %v", d)
	}
}
''', ['encoding/json'])

bug('c16_per_caller', 'C16', 'several callers are throttled at the same time',
 'Every caller waits for its own interval, so n concurrent callers get n times the rate.',
 [('throttle.go', '''	case <-self.ticker.C:
''', '''	case <-time.After(self.interval):
'''), ('throttle.go', '''	result := &TimeThrottler{
''', '''	interval := time.Duration(float64(time.Second) / rate)
	result := &TimeThrottler{
		pause: pause{interval},

'''), ('throttle.go', '''type TimeThrottler struct {
''', '''type pause struct {
	interval time.Duration
}

type TimeThrottler struct {
	pause

''')],
'''
func TestZZDemo(t *testing.T) {
	th := NewTimeThrottler(10)
	var n int32
	for i := 0; i < 10; i++ {
		go func() {
			for {
				th.ChargeOp()
				atomic.AddInt32(&n, 1)
			}
		}()
	}
	time.Sleep(time.Second)
	if x := atomic.LoadInt32(&n); x > 20 {
		t.Fatalf("%d operations", x)
	}
}
''', ['sync/atomic'])

bug('c16_burst', 'C16', 'many operations follow an idle time',
 'Unused ticks are saved up: after an idle second up to rate operations pass at once.',
 [('throttle.go', '''	case <-self.ticker.C:
''', '''	case <-self.ticks:
'''), ('throttle.go', '''	// Just ignore rates which are too fast - do not throttle at
''', '''	// Save up what was not used in the last second.
	result.ticks = make(chan time.Time, int(rate)+1)
	go func() {
		for {
			select {
			case <-result.done:
				return
			case now := <-result.ticker.C:
				select {
				case result.ticks <- now:
				default:
				}
			}
		}
	}()

	// Just ignore rates which are too fast - do not throttle at
'''), ('throttle.go', '''type TimeThrottler struct {
''', '''type TimeThrottler struct {
	ticks chan time.Time
''')],
'''
func TestZZDemo(t *testing.T) {
	th := NewTimeThrottler(20)
	time.Sleep(1500 * time.Millisecond)
	start := time.Now()
	for i := 0; i < 12; i++ {
		th.ChargeOp()
	}
	if d := time.Since(start); d < 400*time.Millisecond {
		t.Fatalf("12 operations in %v", d)
	}
}
''')

bug('c17_callsite', 'C17', 'the materialised expression is a call of a stored query with parameters',
 'LET X <= Query(Arg=1) is not materialised: every reference evaluates the query again.',
 [('vfilter.go', '''				stored_query, ok := value.(types.StoredQuery)
				if ok {
					value = scope.Materialize(ctx, name, stored_query)
				}
''', '''				switch t := value.(type) {
				case *_StoredQuery:
					value = scope.Materialize(ctx, name, t)
				case *_Select:
					value = scope.Materialize(ctx, name, t)
				}
''')],
'''
func TestZZDemo(t *testing.T) {
	n := 0
	scope, _ := zzScope(zzP{"src", func(ctx context.Context, scope types.Scope, args *ordereddict.Dict, emit zzEmit) {
		n++
		emit(zzRow("A", n))
	}})
	zzEq(t, "rows", zzAll(t, scope, "LET Q(B) = SELECT A, B FROM src() LET X <= Q(B=5) SELECT * FROM chain(a={SELECT * FROM X}, b={SELECT * FROM X})"),
		`{"A":1,"B":5} {"A":1,"B":5}`)
	if n != 1 {
		t.Fatalf("evaluated %d times", n)
	}
}
''')

bug('c17_cursor', 'C17', 'a materialised query is read by a second reader before the first one is done (nested or parallel)',
 'All readers of a materialised query share one position.',
 [('materializer/in_memory.go', '''func (self InMemoryMatrializer) Eval(
''', '''func (self *InMemoryMatrializer) Eval(
'''), ('materializer/in_memory.go', '''	output_chan := make(chan types.Row)
	go func() {
		defer close(output_chan)

		for _, row := range self.rows {
			select {
''', '''	output_chan := make(chan types.Row)
	self.mu.Lock()
	self.pos = 0
	self.mu.Unlock()

	go func() {
		defer close(output_chan)

		for row, ok := self.next(); ok; row, ok = self.next() {
			select {
'''), ('materializer/in_memory.go', '''type InMemoryMatrializer struct {
	rows []types.Row
}
''', '''type InMemoryMatrializer struct {
	rows []types.Row

	mu  *sync.Mutex
	pos int
}

func (self *InMemoryMatrializer) next() (types.Row, bool) {
	self.mu.Lock()
	defer self.mu.Unlock()

	if self.pos >= len(self.rows) {
		return nil, false
	}
	self.pos++
	return self.rows[self.pos-1], true
}
'''), ('materializer/in_memory.go', '''	return &InMemoryMatrializer{rows}
}

// Support''', '''	return &InMemoryMatrializer{rows: rows, mu: &sync.Mutex{}}
}

// Support'''), ('materializer/in_memory.go', '''	rows := types.Materialize(ctx, scope, query)
	return &InMemoryMatrializer{rows}
''', '''	return NewInMemoryMatrializer(types.Materialize(ctx, scope, query))
'''), ('materializer/in_memory.go', '''	"encoding/json"
''', '''	"encoding/json"
	"sync"
''')],
'''
func TestZZDemo(t *testing.T) {
	scope, _ := zzScope()
	zzEq(t, "rows", zzAll(t, scope, "LET X <= SELECT _value AS A FROM range(end=3) SELECT A, {SELECT A FROM X} AS B FROM X"),
		`{"A":0,"B":[0,1,2]} {"A":1,"B":[0,1,2]} {"A":2,"B":[0,1,2]}`)
}
''')

bug('c18_null', 'C18', 'a column whose value is NULL is mentioned in WHERE',
 'NULL values are not remembered, so the column is evaluated again when the row is emitted.',
 [('lazy.go', '''	res = getter(self.ctx, self.scope)
	self.cache.Set(key, res)
''', '''	res = getter(self.ctx, self.scope)
	if !types.IsNil(res) {
		self.cache.Set(key, res)
	}
''')],
'''
func TestZZDemo(t *testing.T) {
	n := 0
	scope, _ := zzScope(zzF{"f", func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
		n++
		return types.Null{}
	}})
	zzEq(t, "rows", zzAll(t, scope, "SELECT f() AS A FROM range(end=1) WHERE NOT A"), `{"A":null}`)
	if n != 1 {
		t.Fatalf("evaluated %d times", n)
	}
}
''')

bug('c18_or', 'C18', 'the first operand of OR is true and the next one is expensive',
 'The operands of an OR with more than two terms are all evaluated.',
 [('vfilter.go', '''	if scope.Bool(left) == true {
		return left
	}

	last := left
	for _, term := range self.Right {
		right := term.Term.Reduce(ctx, scope)
		if scope.Bool(right) == true {
			if term.Operator == "||" {
				return right
			}
			return true
		}
		last = right
	}
''', '''	if scope.Bool(left) == true {
		return left
	}

	values := make([]Any, 0, len(self.Right))
	for _, term := range self.Right {
		values = append(values, term.Term.Reduce(ctx, scope))
	}

	last := left
	for idx, term := range self.Right {
		right := values[idx]
		if scope.Bool(right) == true {
			if term.Operator == "||" {
				return right
			}
			return true
		}
		last = right
	}
''')],
'''
func TestZZDemo(t *testing.T) {
	n := 0
	scope, _ := zzScope(zzF{"f", func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
		n++
		return true
	}})
	zzEq(t, "rows", zzAll(t, scope, "SELECT FALSE OR TRUE OR f() AS A FROM range(end=1)"), `{"A":true}`)
	if n != 0 {
		t.Fatalf("evaluated %d times", n)
	}
}
''')
