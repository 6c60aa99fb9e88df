import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
TW="The golden-file tests run each query once, under whatever interleaving the Go scheduler happens to pick, with instantaneous sources and a reader that drains at full speed"
p("C01","Query results do not depend on scheduling or timing",
 "A query that does not ask for parallel workers emits the same rows - values, column order and row order - under every interleaving of the goroutines that evaluate it, every delay of its sources and functions and every pace of its reader. Those rows are the ones obtained by evaluating its clauses one row at a time: FROM, then column aliases, WHERE, GROUP BY, ORDER BY and LIMIT, with nested queries, conditionals, chains, foreach and stored queries evaluated where they are referenced.",
 ["schedules","programs","inputs"],"every query without parallel workers over finite deterministic sources, every goroutine schedule, every delay of sources, functions and reader",
 TW+"; none varies the schedule of the pipeline goroutines.",
 ["vfilter.go","vfilter_group.go","stored.go","lazy.go","plugins/foreach.go","plugins/chain.go","plugins/flatten.go","plugins/if.go","plugins/range.go","protocols/protocol_iterate.go"],
 [("one goroutine per pipeline stage, unbuffered row channels","vfilter.go (_Select).Eval, (_From).Eval, (*VQL).Eval"),("per-row sub scopes carry row variables","vfilter.go (_Select).processSingleRow")],
 ["rows read from the channel returned by evaluating a parsed statement"])
p("C02","Parallel foreach runs the query exactly once per source row",
 "With any number of workers, foreach evaluates its query exactly once for each row of its row source, each evaluation sees exactly the variables of its own source row, and the output is an interleaving of the outputs of those evaluations in which each evaluation's own rows appear completely and in order. With one worker the outputs follow source order.",
 ["schedules","inputs","configurations"],"every row source, inner query, worker count and goroutine schedule",
 TW+"; the one test with workers sorts nothing and uses a trivially small pool, so lost, repeated or crossed rows under another interleaving stay invisible.",
 ["plugins/foreach.go","scope/scope.go"],
 [("worker pool fed through an unbuffered channel","plugins/foreach.go workerPool"),("one child scope per source row","plugins/foreach.go Call")],
 ["rows emitted by foreach","invocations of plugins and functions inside the inner query"])
p("C03","foreach never exceeds, and does use, its worker bound",
 "At no instant are more inner queries of one foreach in flight than its number of workers: one by default, the given number when set, one hundred when only asynchronous mode is requested. While source rows are pending and a worker is free, a slow inner query does not keep the next source row from starting.",
 ["schedules","configurations"],"every worker setting, every number of source rows, every schedule and every duration of the inner queries",
 "Concurrency limits are visible only while several inner queries overlap in time; no test makes inner queries slow or counts them.",
 ["plugins/foreach.go"],[("fixed number of worker goroutines","plugins/foreach.go newWorkerPool")],
 ["start and end of inner plugin invocations"])
p("C04","GROUP BY accounts for every row exactly once",
 "A GROUP BY query emits exactly one row per distinct key of the rows that pass WHERE, in the order keys first appear, and each aggregate in it is computed over exactly the rows of that group, each counted once. Groups, different aggregate calls in one query, and repeated evaluations of the same grouped query do not influence each other.",
 ["schedules","inputs","histories"],"every row sequence, grouping, set of aggregate calls, nesting in foreach or stored queries, and schedule",
 TW+" and a handful of fixed rows; conservation over arbitrary data, nesting and repetition is not sampled.",
 ["vfilter_group.go","grouper/grouper.go","functions/aggregates.go","aggregators/aggregators.go"],
 [("one aggregation context per bin","grouper/grouper.go Group"),("per call site identity of aggregate functions","functions/aggregates.go NewAggregator, vfilter.go CopyFunction")])
p("C05","Concurrent aggregation loses no update",
 "When an aggregate call is evaluated concurrently by several workers sharing one aggregation context, every evaluation is accounted for exactly once: counts are all distinct and reach the number of evaluations, sums, minima, maxima and collections end at the value over all items. Each call site, and each call of a stored function or query with parameters, has its own state.",
 ["schedules","inputs"],"every worker count, every data set, every interleaving of the evaluations, first evaluation included",
 "Lost updates need two workers inside the same aggregate at once, which no test arranges.",
 ["functions/aggregates.go","scope/scope.go","scope/aggregators.go","aggregators/aggregators.go","vfilter.go"],
 [("read-modify-write under the context's lock","aggregators/aggregators.go Modify"),("one copy of the function per call site","vfilter.go (_SymbolRef).callFunction"),("fresh context per call","vfilter.go (_SymbolRef).Reduce, stored.go Call")])
p("C06","ORDER BY emits a sorted permutation",
 "ORDER BY emits exactly the rows of the unordered query, each once, in non-decreasing order of the named column, or non-increasing order with DESC, with NULL sorted as the empty string; this includes ordering of grouped rows and rows reaching the sorter with arbitrary delays.",
 ["schedules","inputs"],"every row multiset including ties and NULL, both directions, every schedule of the feeding and sorting goroutines",
 TW+"; rows lost between the feeding goroutine and the sorter depend on timing.",
 ["vfilter.go","vfilter_group.go","sort/sort.go"],[("feeder goroutine and collecting sorter joined by a channel","vfilter.go (_Select).Eval, sort/sort.go Sort")])
p("C07","LIMIT emits exactly the first n rows and stops the work behind it",
 "LIMIT n emits exactly the first min(n, available) rows of the same query without the limit, none when n is zero. Once the last of them has been delivered the query ends without waiting for more input, its sources are cancelled after a bounded number of further rows, and everything it started terminates.",
 ["schedules","inputs"],"every query shape under LIMIT, every n including 0 and n beyond the input, endless sources, every schedule",
 "Tests use small finite sources, for which a source that is never stopped, or leaks, looks the same as one that is.",
 ["vfilter.go"],[("cancel of a derived context when the count is reached","vfilter.go (_Select).Eval")],
 ["rows delivered","context seen by source plugins","goroutines alive after the output closes"])
p("C08","Cancelling a query always ends it",
 "After the evaluation context is cancelled, at any moment of any query, the output channel closes and every goroutine the query started exits within a bounded time, whether or not anyone still reads the output, provided plugins and functions return when their own context is cancelled. Rows delivered up to the cancellation form a prefix of the result of the uncancelled query, and rows still delivered after it are rows of that result in its order; for queries with parallel workers both are a subset of it. (Groups, sorted output and nested query columns cut short by the cancellation may be partial.)",
 ["schedules","crash_points","programs"],"every query, every cancellation instant (scheduling step, row count or time), reader continuing, stopping or gone, every schedule",
 "No test cancels a running query at all points of its evaluation or checks for goroutines left behind.",
 ["vfilter.go","vfilter_group.go","stored.go","sort/sort.go","grouper/grouper.go","materializer/in_memory.go","plugins/foreach.go","plugins/chain.go","plugins/flatten.go","plugins/range.go","plugins/generic.go","protocols/protocol_iterate.go","protocols/stored_query.go"],
 [("every channel send and receive is paired with the context's done channel","throughout")],
 ["closing of the output channel","number of live goroutines"])
p("C09","A finished query leaves nothing behind",
 "When a query's output has been read to its end, all goroutines it started have exited or exit without further stimulus, and every resource that plugins and functions registered for clean-up on the scopes handed to them during the query has been cleaned up exactly once, no later than the closing of the output - for a query ended early by LIMIT, soon after it - although the caller's own scope is still open. While the query runs, clean-up of resources registered while evaluating a row happens as rows are finished, not only at the end.",
 ["schedules","programs"],"every query over finite sources, read to the end or ended by LIMIT, every schedule",
 "Tests never look at goroutines or scopes after a query, and a leak changes no row.",
 ["vfilter.go","vfilter_group.go","grouper/grouper.go","stored.go","scope/scope.go","plugins/foreach.go","plugins/chain.go","protocols/stored_query.go","lambda.go"],
 [("sub scope closed by the goroutine that owns it","deferred Close calls"),("row scope closed per row","vfilter.go processSingleRow, grouper/grouper.go")])
p("C10","Resources stay open while the query still uses them",
 "A resource that a plugin or function registers for clean-up on the scope it is called with is not cleaned up while the call's own result is still being produced or evaluated: not before the plugin has delivered its rows and the query has evaluated the columns of the rows it delivered. As long as neither the caller nor a limit has ended the query, registering clean-up from inside it is never refused.",
 ["schedules","programs"],"every query shape that calls plugins or functions (directly, through stored queries and functions, in subselects, group by and parallel workers), every schedule",
 "Use-after-close needs the clean-up to win a race against the rows still in flight; tests register no resources in such shapes.",
 ["stored.go","vfilter.go","vfilter_group.go","scope/scope.go","protocols/stored_query.go"],
 [("scope kept open until the query that evaluates in it ends","stored.go Call, Eval; vfilter.go (*VQL).Eval")])
p("C11","Closing a scope runs every clean-up exactly once",
 "Every clean-up function accepted by a scope runs exactly once, when that scope or one of its ancestors is first closed, and never before; registration on a closed scope is refused with an error and the function never runs. This holds when registration, sub-scope creation and closing - also repeated or concurrent closing of the same scope or of parent and child - race in any order.",
 ["schedules","histories"],"every sequence and interleaving of registering, copying and closing over a tree of scopes",
 "The existing scope tests close a scope sequentially; a registration lost between the last pass over the list and the final mark needs a specific interleaving.",
 ["scope/scope.go"],[("locked list and destroyed flag","scope/scope.go _destructors"),("closing children before itself","scope/scope.go Close")])
p("C12","Clean-up order and patience",
 "Clean-up functions of one scope run one after the other in reverse order of registration, those of a child scope before those of its parent, and a clean-up that itself registers another one on the closing scope gets it run before closing returns. A clean-up function that does not return delays closing by at most about a minute and does not prevent the remaining ones from running.",
 ["schedules","fault_sequences","histories"],"every registration order over a tree of scopes, any subset of the clean-ups hanging, being slow or rescheduling themselves",
 "The minute-long patience cannot be waited for in tests; hanging clean-ups are not tested at all.",
 ["scope/scope.go"],[("timeout around each clean-up and bounded retries","scope/scope.go Close")])
p("C13","Rows stream with bounded look-ahead",
 "A query without ORDER BY, GROUP BY or materialisation delivers the rows derived from each source row without waiting for any later source row. When the reader stops reading, the source is held back after a small number of rows fixed by the query's shape, independent of how many rows the source has.",
 ["schedules","programs"],"every streaming query shape, every reader pace, sources that wait for their rows to be consumed, every schedule",
 "Tests always drain queries at full speed from sources that are never slow, so buffering, batching and unbounded prefetch make no visible difference.",
 ["vfilter.go","stored.go","plugins/foreach.go","plugins/chain.go","plugins/flatten.go","plugins/if.go","plugins/generic.go","protocols/protocol_iterate.go"],
 [("unbuffered channels between stages","throughout")])
p("C14","Batched responses carry every row once, in order",
 "The batches delivered by the response channel, concatenated in order, contain exactly the rows of the query in order, each once; part numbers count up from zero without gaps, each batch states its true row count and columns, and no batch exceeds the row limit unless an encoding attempt failed. A failed encoding attempt loses no row that a later successful attempt can still carry, and after cancellation what was delivered is a prefix. The call that encodes the whole result at once hands every row once, in order, to a single call of the encoder and returns that call's outcome.",
 ["schedules","fault_sequences","configurations"],"every row count, batch limit, waiting time, source timing, encoder failure pattern, reader pace and schedule",
 "The test for the response channel uses one source, no delays and an encoder that never fails.",
 ["api.go"],[("accumulate, ship on size, time or end","api.go GetResponseChannel")])
p("C15","Batched responses are shipped in time",
 "A row that the query has produced is delivered to a waiting reader of the response channel no later than the configured maximum wait after it was produced, however slow or irregular the rest of the query is, and no empty batch is sent merely because time passed. At the end of the query the rows still pending are delivered at once and the channel closes.",
 ["schedules","fault_sequences","configurations"],"every source timing including stalls, every waiting time and batch limit, every schedule, under simulated time",
 "The deadline logic depends on wall-clock time, which the tests cannot vary.",
 ["api.go"],[("deadline timer re-armed after each shipment","api.go GetResponseChannel")])
p("C16","The throttle holds its rate and lets go on close",
 "A throttle of r operations per second, r below one hundred, admits at most r times T plus two operations in any interval of T seconds counted over all concurrent callers, and a waiting caller is admitted at the configured rate; zero or larger rates never delay. Closing the throttle, or the scope it was installed on, at any moment, once or repeatedly, releases every waiting and every later caller, and rows of throttled queries are the same as of unthrottled ones.",
 ["schedules","configurations"],"every rate, number of concurrent callers, closing instant and schedule, under simulated time",
 "Rates are a property of time, and release on close of the moment; no test covers the throttle.",
 ["throttle.go","scope/scope.go","vfilter.go"],[("ticker and closed channel","throttle.go"),("charge per scanned row","vfilter.go (_From).Eval")])
p("C17","Stored queries are lazy, materialised ones are evaluated once",
 "Defining a stored query or expression evaluates nothing; each reference evaluates it anew, in the scope of the reference, exactly once per reference evaluated. Materialising evaluates it exactly once, at the definition, and every later reference - repeated, nested, parallel - sees those same rows in the same order without evaluating anything again.",
 ["schedules","programs","histories"],"every sequence of definitions and references, sources that yield different rows each time they are run, every schedule",
 "Tests use sources that always return the same rows, for which a re-evaluated and a remembered result look alike.",
 ["vfilter.go","stored.go","materializer/in_memory.go","types/stored_query.go"],
 [("rows kept in memory","materializer/in_memory.go"),("stored query re-run per reference","stored.go Eval")])
p("C18","Nothing is evaluated needlessly or twice",
 "Columns, branches and operands whose value is not needed are never evaluated: columns of rejected rows that the condition does not mention, the branch of a conditional not taken, operands after a decided AND or OR, and lazy values nobody reads. Every column of an emitted row is evaluated exactly once for that row, also when the condition or grouping refers to it, and the sources and arguments of a plugin or function call are evaluated at most once per call.",
 ["schedules","programs","inputs"],"every select list, condition, conditional and nesting, every schedule and worker count",
 "Extra or missing evaluations do not change rows of side-effect free queries, which is what the tests compare.",
 ["lazy.go","vfilter.go","vfilter_group.go","functions/if.go","plugins/if.go","arg_parser/parser.go"],
 [("lazy row with cache","lazy.go LazyRowImpl"),("lazy arguments","lazy.go LazyExprImpl, arg_parser/parser.go")])
p("C19","One parsed query can be evaluated by many at once",
 "Evaluations of the same parsed query or parsed lambda that run concurrently, each with its own scope, emit the same rows as if each ran alone, including the first evaluations, and with different variables or stored definitions in each scope no value crosses from one evaluation to another.",
 ["schedules","programs"],"every parsed query, two or more concurrent evaluations with equal or different scopes, every schedule",
 "Parsed statements cache resolved names, constants and functions inside themselves; tests evaluate each parsed query by one caller at a time.",
 ["vfilter.go"],[("caches in the parsed tree guarded by locks","vfilter.go (_SymbolRef).callFunction, (_Value).Reduce, (Plugin).Eval, (_AliasedExpression).GetName")])
p("C20","No data race under any supported use",
 "Evaluating queries with any number of parallel workers, concurrently on scopes derived from one another or with the same parsed query, cancelling them and closing their scopes from other goroutines never makes two goroutines access the library's shared state without synchronisation and never crashes the process.",
 ["schedules","programs"],"every supported concurrent use of the public interface and every schedule of it",
 "The test-suite is not run with race detection over interleavings; a race shows only when both accesses are executed without an ordering between them.",
 ["vfilter.go","lazy.go","scope/scope.go","scope/dispatcher.go","stored.go","throttle.go","types/stats.go","arg_parser/cache.go","functions/aggregates.go"],
 [("mutexes and atomics around shared state","throughout")])
p("C21","Scopes are isolated snapshots",
 "A sub-scope sees the variables its parent had when it was created, later definitions shadow earlier ones, and nothing defined afterwards in parent, child or sibling becomes visible in the other, under any concurrent use. Context values are shared by all scopes derived from one another and not with scopes made independent, and functions, plugins or context registered on an independent scope never appear in the original.",
 ["schedules","histories"],"every sequence and interleaving of defining, looking up, deriving and configuring scopes",
 "Isolation violations through shared backing storage depend on the order of operations across scopes; tests use one short sequence.",
 ["scope/scope.go","scope/dispatcher.go"],[("copied variable list","scope/scope.go Copy"),("copied dispatcher","scope/dispatcher.go Copy, WithNewContext")])
p("C22","A checkpointed scope survives a crash",
 "After a crash at any moment, a scope restored from its last complete checkpoint answers queries as the original scope did at that checkpoint, for scalar values, dictionaries, lists, materialised rows (restored as the list of those rows), stored queries and stored expressions with or without parameters and default values. Taking a checkpoint evaluates and changes nothing in the scope, and restoring a truncated checkpoint, or one with a part that cannot be decoded, yields an error instead of a crash or missing values.",
 ["crash_points","histories","fault_sequences"],"every set of definitions, every crash point during later evaluation, every truncation or corruption of the stored checkpoint",
 "The marshal test restores one fixed scope, with no crash, no damage and few value types.",
 ["marshal.go","scope/marshal.go","marshal/marshaller.go","marshal/unmarshal.go"],[("definitions replayed from their text","marshal.go"),("values as JSON","marshal/marshaller.go")])
p("C23","Explaining and tracing never change a query",
 "Explaining, tracing, logging or collecting statistics of a query changes neither its rows nor its order nor what is evaluated, except for lazy values an explainer itself prints. An explained query without GROUP BY that is read to its end reports exactly each row its sources delivered, each row it emitted and each row it rejected, including under parallel workers.",
 ["schedules","programs"],"every query with and without explanation, tracer and logger, slow explainers, every schedule",
 "The explain test compares the log of a few fixed queries.",
 ["vfilter.go","scope/scope.go","scope/dispatcher.go","explain/logging_explainer.go","arg_parser/args.go"],[("explainer call-backs at fixed points","vfilter.go (_Select).Eval, processSingleRow")])
p("C24","Statistics count exactly",
 "At the end of a query the statistics report exactly how many source rows were scanned and how many plugins and functions were called since the scope was made, however many workers or evaluations ran concurrently; while it runs the reported numbers never decrease and never exceed what has happened.",
 ["schedules","programs"],"every query and worker count, observation at every moment, every schedule",
 "Tests do not compare the counters with the work done; lost increments need concurrency.",
 ["types/stats.go","vfilter.go"],[("atomic counters","types/stats.go")])
p("C25","Evaluating a parsed query leaves no trace in it",
 "Evaluating the same parsed query again with a fresh scope emits what the first evaluation emitted, whatever happened to the earlier evaluations: completed, limited, cancelled or failed, and whatever the earlier scopes defined.",
 ["histories","programs","fault_sequences"],"every parsed query and every history of earlier evaluations of it",
 "Each test parses its query anew and evaluates it once.",
 ["vfilter.go","stored.go","lazy.go"],[("parsed tree holds only caches","vfilter.go")])
p("C26","Runaway recursion ends",
 "A stored query or stored function that refers to itself without end, directly or through others, as source, column, condition or argument, does not crash or hang the process: its evaluation stops at a bounded depth, says so in the log, and the query around it ends and releases everything. (A definition that refers to itself several times per evaluation does work exponential in that bound.)",
 ["programs","schedules"],"every shape of unbounded recursion between stored queries and functions, every schedule",
 "The one overflow test uses a single shape and does not look at what is left behind.",
 ["vfilter.go","scope/scope.go"],[("depth check","scope/scope.go CheckForOverflow")])
p("C27","A failing part only affects itself",
 "A source that ends early, a function that yields nothing, an unknown plugin, function or variable, or arguments that do not fit make the affected value NULL or the affected source empty and are reported in the log; arguments and operands of any type and value, however odd, have no further effect. All other columns, rows and queries come out as they would otherwise, the query always ends, and the process survives.",
 ["fault_sequences","programs","schedules"],"every query and every placement of such failures in it, every schedule",
 "Failures are tested one at a time at a few fixed places.",
 ["vfilter.go","plugins/foreach.go","plugins/chain.go","plugins/flatten.go","arg_parser/parser.go","functions/generic.go"],[("failed look-ups log and yield an empty channel or NULL","vfilter.go (Plugin).Eval, (_SymbolRef).Reduce")])
p("C28","Replaceable sorting, grouping and materialisation see every row",
 "A sorter, grouper or materialiser installed by the host is used for every matching operation of queries on that scope and its sub-scopes, is offered every row of the underlying query exactly once in order and then the end of input, and exactly what it emits reaches the query's reader. If it stops early or is cancelled, nothing stays blocked behind it once the query is over.",
 ["schedules","programs","fault_sequences"],"every query using them, replacements that are slow, drop out early or spill, every schedule",
 "Only one replacement is exercised by the tests, and never one that stops early.",
 ["vfilter.go","vfilter_group.go","scope/scope.go","scope/dispatcher.go"],[("delegation through the scope","scope/scope.go Sort, Group, Materialize")])
# not applicable ones
NA=[]
p("N01","Operators follow their coercion tables",
 "Arithmetic, comparison, membership and pattern operators yield the documented result for every combination of operand types, and NULL where no rule applies.",
 ["inputs"],"every pair of operand values","Golden tests sample a few operand pairs.",
 ["protocols/protocol_add.go","protocols/protocol_lt.go","protocols/protocol_eq.go"],[("type dispatch","protocols")])
p("N02","Formatting a parsed query preserves its meaning",
 "Printing a parsed query and parsing the text again yields a query with the same meaning, and reformatting is idempotent.",
 ["programs"],"every syntactically valid query","Golden tests sample queries.",
 ["visitor.go","reformat/visitor.go"],[("visitor","visitor.go")])
p("N03","Tokens and outlines cover the source text exactly",
 "The tokens of a text, valid or not, cover it without gap or overlap, and reported positions of symbols match the text.",
 ["inputs"],"every input text","Golden tests sample texts.",
 ["tokenizer.go","outline.go"],[("lexer","tokenizer.go")])
p("N04","Argument parsing accepts exactly what the declared types allow",
 "Extracting arguments into a declared structure fills every field with the converted value, and reports missing, unexpected or unconvertible arguments.",
 ["inputs"],"every argument dictionary and structure","Table tests sample a few types.",
 ["arg_parser/parser.go"],[("parsers per field type","arg_parser/parser.go")])
import os
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x)+"\n")
print(len(P))
