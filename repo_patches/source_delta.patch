From c3f0b15a7ba4de3999d3b23c0e5dec85ae762c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:54 +0000
Subject: [PATCH 01/34] fix: LIMIT 0 emits no rows

---
 vfilter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vfilter.go b/vfilter.go
index f64a583..0058a2c 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -616,6 +616,11 @@ func (self *_Select) Eval(ctx context.Context, scope types.Scope) <-chan Row {
 	// Limits occur before the group by so we can cut the group by
 	// result short according to the limit clause.
 	if self.Limit != nil {
+		if *self.Limit <= 0 {
+			close(output_chan)
+			return output_chan
+		}
+
 		go func() {
 			defer close(output_chan)
 
-- 
2.43.0


From fa265c1361aad12af188eaafc9cf3c247f97c772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:53 +0000
Subject: [PATCH 02/34] fix: keep the scope of a called stored query open until
 the query ends

---
 stored.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/stored.go b/stored.go
index 8ac8c51..8331633 100644
--- a/stored.go
+++ b/stored.go
@@ -63,10 +63,17 @@ func (self *_StoredQuery) GoString() string {
 }
 
 func (self *_StoredQuery) Eval(ctx context.Context, scope types.Scope) <-chan Row {
+	return self.evalWithCleanup(ctx, scope, func() {})
+}
+
+// Evaluate the query, calling the cleanup function once it is done.
+func (self *_StoredQuery) evalWithCleanup(
+	ctx context.Context, scope types.Scope, cleanup func()) <-chan Row {
 	output_chan := make(chan Row)
 
 	go func() {
 		defer close(output_chan)
+		defer cleanup()
 
 		// Evaluate the query in the caller's scope.
 		new_scope := scope.Copy()
@@ -98,7 +105,6 @@ func (self *_StoredQuery) Call(ctx context.Context,
 	// functions inside the stored query start fresh.
 	sub_scope := scope.Copy()
 	sub_scope.SetAggregatorCtx(nil)
-	defer sub_scope.Close()
 
 	self.checkCallingArgs(sub_scope, args)
 
@@ -120,7 +126,10 @@ func (self *_StoredQuery) Call(ctx context.Context,
 	}
 
 	sub_scope.AppendVars(vars)
-	return self.Eval(ctx, sub_scope)
+
+	// The query runs asynchronously so the scope may only be closed
+	// once it is done.
+	return self.evalWithCleanup(ctx, sub_scope, sub_scope.Close)
 }
 
 func (self *_StoredQuery) checkCallingArgs(scope types.Scope, args *ordereddict.Dict) {
-- 
2.43.0


From 1b9ab8c082b1e1058f2c67990068d6a6092ba4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:07 +0000
Subject: [PATCH 03/34] fix: foreach does not wait for its workers once it is
 cancelled

---
 plugins/foreach.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/plugins/foreach.go b/plugins/foreach.go
index 6122d7a..96eec25 100644
--- a/plugins/foreach.go
+++ b/plugins/foreach.go
@@ -90,7 +90,7 @@ func (self _ForeachPluginImpl) Call(ctx context.Context,
 				// child_scope is closed in the pool worker.
 
 				child_scope.AppendVars(row_item)
-				pool.RunScope(child_scope)
+				pool.RunScope(ctx, child_scope)
 			}
 		}
 	}()
@@ -118,8 +118,14 @@ type workerPool struct {
 	output_chan chan types.Row
 }
 
-func (self *workerPool) RunScope(scope types.Scope) {
-	self.ch <- scope
+func (self *workerPool) RunScope(ctx context.Context, scope types.Scope) {
+	select {
+	// The workers are gone - nothing is going to run this scope.
+	case <-ctx.Done():
+		scope.Close()
+
+	case self.ch <- scope:
+	}
 }
 
 func (self *workerPool) Close() {
-- 
2.43.0


From 418e45b8b54958275d050e031255dfad843ae941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:32 +0000
Subject: [PATCH 04/34] fix: rows waiting to be sorted do not block a cancelled
 query

---
 vfilter.go       | 8 +++++++-
 vfilter_group.go | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/vfilter.go b/vfilter.go
index 0058a2c..f5a9695 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -678,7 +678,13 @@ func (self *_Select) Eval(ctx context.Context, scope types.Scope) <-chan Row {
 			self_copy.OrderBy = nil
 
 			for row := range self_copy.Eval(ctx, scope) {
-				sorter_input_chan <- row
+				select {
+				// The sorter is gone - nothing will read the row.
+				case <-ctx.Done():
+					return
+
+				case sorter_input_chan <- row:
+				}
 			}
 		}()
 
diff --git a/vfilter_group.go b/vfilter_group.go
index 4912d39..0bccb36 100644
--- a/vfilter_group.go
+++ b/vfilter_group.go
@@ -114,7 +114,13 @@ func (self *_Select) EvalGroupBy(ctx context.Context, scope types.Scope) <-chan
 		self_copy.OrderBy = nil
 
 		for row := range grouper_output_chan {
-			sorter_input_chan <- row
+			select {
+			// The sorter is gone - nothing will read the row.
+			case <-ctx.Done():
+				return
+
+			case sorter_input_chan <- row:
+			}
 		}
 	}()
 
-- 
2.43.0


From b850430866439ccbffe78ab3aae93397af75d7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:35 +0000
Subject: [PATCH 05/34] fix: cancel a query used as a boolean after its first
 row

---
 protocols/stored_query.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/protocols/stored_query.go b/protocols/stored_query.go
index 3d7c933..4cd4a68 100644
--- a/protocols/stored_query.go
+++ b/protocols/stored_query.go
@@ -57,10 +57,13 @@ type _StoredQueryBool struct{}
 func (self _StoredQueryBool) Bool(ctx context.Context, scope types.Scope, a types.Any) bool {
 	stored_query, ok := a.(types.StoredQuery)
 	if ok {
+		sub_ctx, cancel := context.WithCancel(ctx)
+		defer cancel()
+
 		new_scope := scope.Copy()
 		defer new_scope.Close()
 
-		from_chan := stored_query.Eval(ctx, new_scope)
+		from_chan := stored_query.Eval(sub_ctx, new_scope)
 		for {
 			// As soon as a single result is returned we
 			// can cancel the query.
-- 
2.43.0


From 8efc3057e58269bba41934c86150b931674ae82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:50 +0000
Subject: [PATCH 06/34] fix: do not lose a destructor added while its scope is
 closing

---
 scope/scope.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/scope/scope.go b/scope/scope.go
index 919f183..9a1f79d 100644
--- a/scope/scope.go
+++ b/scope/scope.go
@@ -49,17 +49,29 @@ func (self *_destructors) IsDestroyed() bool {
 	return self.is_destroyed
 }
 
-func (self *_destructors) AddDestructor(fn func()) {
+// Returns false if the destructor can not be added any more.
+func (self *_destructors) AddDestructor(fn func()) bool {
 	self.mu.Lock()
 	defer self.mu.Unlock()
 
+	if self.is_destroyed {
+		return false
+	}
+
 	self.fn = append(self.fn, fn)
+	return true
 }
 
+// Take all the pending destructors. If there are none left, no more
+// may be added - deciding this under the lock ensures none is lost.
 func (self *_destructors) RemoveDestructors() []func() {
 	self.mu.Lock()
 	defer self.mu.Unlock()
 
+	if len(self.fn) == 0 {
+		self.is_destroyed = true
+	}
+
 	result := append(self.fn[:0:0], self.fn...)
 	self.fn = nil
 	return result
@@ -467,16 +479,14 @@ func (self *Scope) AddDestructor(fn func()) error {
 	defer self.Unlock()
 
 	// Scope is already destroyed - call the destructor now.
-	if self.destructors.IsDestroyed() {
+	if !self.destructors.AddDestructor(fn) {
 		_, file, line, ok := runtime.Caller(1)
 		if ok {
 			self.Log("Scope already closed when adding destructor %v:%d", file, line)
 		}
 		return errors.New("Scope already closed")
-	} else {
-		self.destructors.AddDestructor(fn)
-		return nil
 	}
+	return nil
 }
 
 func (self *Scope) IsClosed() bool {
-- 
2.43.0


From b82f29035a91d0ee7750b973c63f418c9a95bb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:14 +0000
Subject: [PATCH 07/34] fix: negated symbols stay negated after their first
 evaluation

---
 vfilter.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vfilter.go b/vfilter.go
index f5a9695..e5bfb97 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -1752,11 +1752,12 @@ func (self *_SymbolRef) getFunction(scope types.Scope) (res types.Any, negated,
 	if components == nil {
 		components = utils.SplitIdent(self.Symbol)
 		if len(components) > 0 && strings.HasPrefix(components[0], "-") {
-			negated = true
+			self.Negated = true
 			components[0] = strings.TrimPrefix(components[0], "-")
 		}
 		self.split_symbol = components
 	}
+	negated = self.Negated
 	self.mu.Unlock()
 
 	// Single item reference and called - call built in function.
-- 
2.43.0


From 1ad29180f4a692c932d258a0d3083e1f87eb42c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:37 +0000
Subject: [PATCH 08/34] fix: make a single copy of a function for each call
 site

---
 vfilter.go | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/vfilter.go b/vfilter.go
index e5bfb97..c49f9ab 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -1979,7 +1979,6 @@ func (self *_SymbolRef) callFunction(
 
 	self.mu.Lock()
 	parameters := self.Parameters
-	function := self.function
 	self.mu.Unlock()
 
 	// Build up the args to pass to the function.
@@ -2002,24 +2001,17 @@ func (self *_SymbolRef) callFunction(
 		}
 	}
 
-	// If this AST node previously called a function, we use the
-	// same function copy to ensure it may store internal state.
-	if function != nil {
-		scope.GetStats().IncFunctionsCalled()
-		result := function.Call(ctx, scope, args)
-		if result == nil {
-			return &Null{}
-		}
-		return result
-	}
-
 	// Make a copy of the function and cache it for next time -
 	// this allows the function to store state since each
-	// reference in the AST is unique.
-	func_obj = CopyFunction(func_obj)
-
+	// reference in the AST is unique. If this AST node previously
+	// called a function, we use the same function copy to ensure it
+	// may store internal state. Only a single copy may ever be made,
+	// even when the node is evaluated concurrently.
 	self.mu.Lock()
-	self.function = func_obj
+	if self.function == nil {
+		self.function = CopyFunction(func_obj)
+	}
+	func_obj = self.function
 	self.mu.Unlock()
 
 	// Call the function now.
-- 
2.43.0


From 01f6ae5057bdbed725d8bcb15e4bda79415785fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:41 +0000
Subject: [PATCH 09/34] fix: GROUP BY keeps the scope of a row open exactly
 while evaluating it

---
 grouper/grouper.go | 3 +++
 vfilter_group.go   | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/grouper/grouper.go b/grouper/grouper.go
index 26cbafb..2caf58f 100644
--- a/grouper/grouper.go
+++ b/grouper/grouper.go
@@ -74,6 +74,9 @@ func (self *DefaultGrouper) Group(
 			new_row := actor.MaterializeRow(ctx, row, new_scope)
 
 			aggregate_ctx.row = new_row
+
+			// Done with this row.
+			new_scope.Close()
 		}
 
 		// Emit the binned set as a new result set.
diff --git a/vfilter_group.go b/vfilter_group.go
index 0bccb36..825aea9 100644
--- a/vfilter_group.go
+++ b/vfilter_group.go
@@ -67,7 +67,9 @@ func (self *GroupbyActor) GetNextRow(ctx context.Context, scope types.Scope) (
 		gb_element := types.ToString(ctx, new_scope,
 			self.delegate.GroupBy.Reduce(ctx, new_scope))
 
-		closer()
+		// The columns of the transformed row are yet to be evaluated
+		// so its scope must remain open. It is a child of the new
+		// scope so it is closed when the caller closes the new scope.
 
 		// Emit a single row.
 		return transformed_row, row, gb_element, new_scope, nil
-- 
2.43.0


From cb0ba20c4ba2896c49a3f65e6202b27fa9313234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:00 +0000
Subject: [PATCH 10/34] fix: marshalled definitions keep the default values of
 their parameters

---
 marshal.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/marshal.go b/marshal.go
index 74b866d..c641b9e 100644
--- a/marshal.go
+++ b/marshal.go
@@ -17,6 +17,21 @@ type StoredQueryItem struct {
 	Parameters []string `json:"parameters,omitempty"`
 }
 
+// Format the parameters of a definition with their default values.
+func formatParameters(scope types.Scope,
+	parameters []string, defaults map[string]*_Args) string {
+	res := make([]string, 0, len(parameters))
+	for _, name := range parameters {
+		arg, pres := defaults[name]
+		if pres {
+			res = append(res, FormatToString(scope, arg))
+		} else {
+			res = append(res, name)
+		}
+	}
+	return strings.Join(res, ", ")
+}
+
 func (self *_StoredQuery) Marshal(
 	scope types.Scope) (*types.MarshalItem, error) {
 
@@ -26,7 +41,7 @@ func (self *_StoredQuery) Marshal(
 			FormatToString(scope, self.query))
 	} else {
 		query = fmt.Sprintf("LET `%v`(%s) = %s", self.name,
-			strings.Join(self.parameters, ", "),
+			formatParameters(scope, self.parameters, self.defaults),
 			FormatToString(scope, self.query))
 	}
 
@@ -46,7 +61,7 @@ func (self *StoredExpression) Marshal(
 			FormatToString(scope, self.Expr))
 	} else {
 		query = fmt.Sprintf("LET `%v`(%s) = %s", self.name,
-			strings.Join(self.parameters, ", "),
+			formatParameters(scope, self.parameters, self.defaults),
 			FormatToString(scope, self.Expr))
 	}
 
-- 
2.43.0


From f3a4c734a959e7fdb90eaa5553600a3b370beba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:03 +0000
Subject: [PATCH 11/34] fix: unmarshalled values keep their integers and the
 order of their columns

---
 marshal/unmarshal.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/marshal/unmarshal.go b/marshal/unmarshal.go
index 974b25c..50aae31 100644
--- a/marshal/unmarshal.go
+++ b/marshal/unmarshal.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"errors"
 
+	"github.com/Velocidex/ordereddict"
 	"www.velocidex.com/golang/vfilter/types"
 )
 
@@ -21,9 +22,23 @@ func (self *Unmarshaller) Unmarshal(
 	scope types.Scope, item *types.MarshalItem) (interface{}, error) {
 	switch item.Type {
 	case "JSON":
-		var value interface{}
-		err := json.Unmarshal(item.Data, &value)
-		return value, err
+		// Decode as the value of an ordered dict, which keeps the
+		// order of keys in nested dicts and the precision of
+		// integers.
+		serialized, err := json.Marshal(
+			map[string]json.RawMessage{"value": item.Data})
+		if err != nil {
+			return nil, err
+		}
+
+		dict := ordereddict.NewDict()
+		err = json.Unmarshal(serialized, dict)
+		if err != nil {
+			return nil, err
+		}
+
+		value, _ := dict.Get("value")
+		return value, nil
 
 	default:
 		handler, pres := self.Handlers[item.Type]
-- 
2.43.0


From 7c6d1027e1ee117c0da1d525db91482ef71ba027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:19 +0000
Subject: [PATCH 12/34] fix: a throttler shared between scopes may be closed by
 all of them

---
 throttle.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/throttle.go b/throttle.go
index 1ef6ef2..3c65ec4 100644
--- a/throttle.go
+++ b/throttle.go
@@ -1,15 +1,16 @@
 package vfilter
 
 import (
+	"sync"
 	"time"
 
 	"www.velocidex.com/golang/vfilter/types"
 )
 
 type TimeThrottler struct {
-	ticker  *time.Ticker
-	done    chan bool
-	running bool
+	ticker *time.Ticker
+	done   chan bool
+	once   sync.Once
 }
 
 func (self *TimeThrottler) ChargeOp() {
@@ -20,11 +21,12 @@ func (self *TimeThrottler) ChargeOp() {
 }
 
 func (self *TimeThrottler) Close() {
-	if self.running {
+	// May be called concurrently since the throttler can be shared
+	// between scopes.
+	self.once.Do(func() {
 		self.ticker.Stop()
-		self.running = false
 		close(self.done)
-	}
+	})
 }
 
 func NewTimeThrottler(rate float64) types.Throttler {
@@ -36,8 +38,7 @@ func NewTimeThrottler(rate float64) types.Throttler {
 	result := &TimeThrottler{
 		ticker: time.NewTicker(time.Nanosecond *
 			time.Duration((float64(1000000000) / float64(rate)))),
-		done:    make(chan bool, 1),
-		running: true,
+		done: make(chan bool, 1),
 	}
 
 	// Just ignore rates which are too fast - do not throttle at
-- 
2.43.0


From ac4ac33e38033da5154b1d4e37b0891eaa706d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:22 +0000
Subject: [PATCH 13/34] fix: a scope with a cleared context keeps its explainer

---
 scope/dispatcher.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scope/dispatcher.go b/scope/dispatcher.go
index 5c9785d..4b39d4d 100644
--- a/scope/dispatcher.go
+++ b/scope/dispatcher.go
@@ -158,6 +158,7 @@ func (self *protocolDispatcher) WithNewContext() *protocolDispatcher {
 		Sorter:       self.Sorter,
 		Grouper:      self.Grouper,
 		Materializer: self.Materializer,
+		explainer:    self.explainer,
 		Logger:       self.Logger,
 		Tracer:       self.Tracer,
 	}
-- 
2.43.0


From 986a6f50aaee14d410ddc5e1fd4d893597e5242c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:26 +0000
Subject: [PATCH 14/34] fix: formatting a query may run concurrently with
 itself

---
 visitor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/visitor.go b/visitor.go
index 1fb0077..eab7931 100644
--- a/visitor.go
+++ b/visitor.go
@@ -1003,7 +1003,11 @@ func (self *Visitor) visitSelectExpression(node *_SelectExpression) {
 	}
 
 	for idx, item := range node.Expressions {
+		// The query may be formatted concurrently by several
+		// evaluations.
+		item.mu.Lock()
 		item.pos = idx
+		item.mu.Unlock()
 
 		self.Visit(item)
 		// No trailing , in the last element.
-- 
2.43.0


From d05024f299fc9f65ef23b945657ceb8a26dcb772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:08 +0000
Subject: [PATCH 15/34] fix: marshalled definitions quote the names of their
 parameters

---
 marshal.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/marshal.go b/marshal.go
index c641b9e..c7933ec 100644
--- a/marshal.go
+++ b/marshal.go
@@ -26,12 +26,21 @@ func formatParameters(scope types.Scope,
 		if pres {
 			res = append(res, FormatToString(scope, arg))
 		} else {
-			res = append(res, name)
+			res = append(res, formatIdentifier(name))
 		}
 	}
 	return strings.Join(res, ", ")
 }
 
+// Quote names which are not a simple identifier.
+func formatIdentifier(name string) string {
+	tokens, err := Tokenize(name)
+	if err == nil && len(tokens) == 1 && tokens[0].Type == "Ident" {
+		return name
+	}
+	return "`" + name + "`"
+}
+
 func (self *_StoredQuery) Marshal(
 	scope types.Scope) (*types.MarshalItem, error) {
 
-- 
2.43.0


From 9e14c977c9cccb8117c48c6af7f644772511a2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:11 +0000
Subject: [PATCH 16/34] fix: restoring a scope which can not be decoded is an
 error

---
 marshal/unmarshal.go |  4 ++++
 scope/marshal.go     | 14 +++++++-------
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/marshal/unmarshal.go b/marshal/unmarshal.go
index 50aae31..06280fd 100644
--- a/marshal/unmarshal.go
+++ b/marshal/unmarshal.go
@@ -20,6 +20,10 @@ func (self *Unmarshaller) RegisterHandler(name string,
 func (self *Unmarshaller) Unmarshal(
 	unmarshaller types.Unmarshaller,
 	scope types.Scope, item *types.MarshalItem) (interface{}, error) {
+	if item == nil {
+		return nil, errors.New("Missing MarshalItem")
+	}
+
 	switch item.Type {
 	case "JSON":
 		// Decode as the value of an ordered dict, which keeps the
diff --git a/scope/marshal.go b/scope/marshal.go
index 5140435..e004f3c 100644
--- a/scope/marshal.go
+++ b/scope/marshal.go
@@ -63,7 +63,7 @@ func (self ScopeUnmarshaller) Unmarshal(
 	new_scope := scope.Copy()
 
 	scope_items := &ScopeItems{}
-	err := json.Unmarshal(item.Data, &scope_items)
+	err := json.Unmarshal(item.Data, scope_items)
 	if err != nil {
 		return nil, err
 	}
@@ -75,12 +75,12 @@ func (self ScopeUnmarshaller) Unmarshal(
 		}
 		unmarshalled, err := unmarshaller.Unmarshal(unmarshaller,
 			new_scope, v)
-		if err == nil {
-			if !types.IsNil(unmarshalled) {
-				env.Set(k, unmarshalled)
-			}
-		} else {
-			fmt.Printf("Can't decode %v: %v\n", k, err)
+		if err != nil {
+			return nil, fmt.Errorf("Can't decode %v: %w", k, err)
+		}
+
+		if !types.IsNil(unmarshalled) {
+			env.Set(k, unmarshalled)
 		}
 	}
 
-- 
2.43.0


From 7c2d7b8e8859151ce06a2c9562da114e479f2e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:39 +0000
Subject: [PATCH 17/34] fix: a marshalled item without data is an error

---
 marshal/unmarshal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marshal/unmarshal.go b/marshal/unmarshal.go
index 06280fd..66b8057 100644
--- a/marshal/unmarshal.go
+++ b/marshal/unmarshal.go
@@ -26,6 +26,10 @@ func (self *Unmarshaller) Unmarshal(
 
 	switch item.Type {
 	case "JSON":
+		if len(item.Data) == 0 {
+			return nil, errors.New("MarshalItem without data")
+		}
+
 		// Decode as the value of an ordered dict, which keeps the
 		// order of keys in nested dicts and the precision of
 		// integers.
-- 
2.43.0


From cfd0c77f178efc21a2eb950f2db6dc45beb878ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:47 +0000
Subject: [PATCH 18/34] fix: marshalling a scope does not race with definitions

---
 scope/marshal.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scope/marshal.go b/scope/marshal.go
index e004f3c..436a8e9 100644
--- a/scope/marshal.go
+++ b/scope/marshal.go
@@ -21,7 +21,11 @@ func (self *Scope) Marshal(scope types.Scope) (*types.MarshalItem, error) {
 		Vars: make(map[string]*types.MarshalItem),
 	}
 
-	for _, var_item := range self.vars {
+	self.Lock()
+	vars := self.vars[:]
+	self.Unlock()
+
+	for _, var_item := range vars {
 		for _, k := range self.GetMembers(var_item) {
 			// Skip these vars
 			if strings.HasPrefix(k, "$") ||
-- 
2.43.0


From 09a7e5d87d720ec495adb82c9fec86722b50b500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:17 +0000
Subject: [PATCH 19/34] fix: stop the source when a sorter or grouper stops
 early

A sorter or grouper that closed its output before reading all its input
left the goroutines feeding it blocked until the caller's context ended.
---
 vfilter.go       | 30 ++++++++++++++++++++++++++----
 vfilter_group.go | 13 +++++++------
 2 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/vfilter.go b/vfilter.go
index c49f9ab..728f19f 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -601,6 +601,27 @@ func (self *_Select) GoString() string {
 	return FormatToString(scope, self)
 }
 
+// Relay the output of a sorter or a grouper, and cancel whatever still
+// feeds it when it is done: it may stop before it has read all its input.
+func relayRows(ctx context.Context, cancel func(), rows <-chan Row) <-chan Row {
+	output_chan := make(chan Row)
+
+	go func() {
+		defer close(output_chan)
+		defer cancel()
+
+		for row := range rows {
+			select {
+			case <-ctx.Done():
+				return
+			case output_chan <- row:
+			}
+		}
+	}()
+
+	return output_chan
+}
+
 func (self *_Select) Eval(ctx context.Context, scope types.Scope) <-chan Row {
 	// If the EXPLAIN keyword was used, enabled explaining for this
 	// scope and its children.
@@ -664,8 +685,9 @@ func (self *_Select) Eval(ctx context.Context, scope types.Scope) <-chan Row {
 
 		// Sort the output groups
 		sorter_input_chan := make(chan Row)
+		sub_ctx, cancel := context.WithCancel(ctx)
 		sorted_chan := scope.(*scope_module.Scope).Sort(
-			ctx, scope, sorter_input_chan,
+			sub_ctx, scope, sorter_input_chan,
 			utils.Unquote_ident(*self.OrderBy), desc)
 
 		// Feed all the aggregate rows into the sorter.
@@ -677,10 +699,10 @@ func (self *_Select) Eval(ctx context.Context, scope types.Scope) <-chan Row {
 			self_copy := *self
 			self_copy.OrderBy = nil
 
-			for row := range self_copy.Eval(ctx, scope) {
+			for row := range self_copy.Eval(sub_ctx, scope) {
 				select {
 				// The sorter is gone - nothing will read the row.
-				case <-ctx.Done():
+				case <-sub_ctx.Done():
 					return
 
 				case sorter_input_chan <- row:
@@ -688,7 +710,7 @@ func (self *_Select) Eval(ctx context.Context, scope types.Scope) <-chan Row {
 			}
 		}()
 
-		return sorted_chan
+		return relayRows(ctx, cancel, sorted_chan)
 	}
 
 	// Gets a row from the FROM clause, then transforms it
diff --git a/vfilter_group.go b/vfilter_group.go
index 825aea9..72dad5c 100644
--- a/vfilter_group.go
+++ b/vfilter_group.go
@@ -85,14 +85,15 @@ func (self *GroupbyActor) MaterializeRow(ctx context.Context,
 
 func (self *_Select) EvalGroupBy(ctx context.Context, scope types.Scope) <-chan Row {
 	// Build an actor to send to the grouper.
-	actor := &GroupbyActor{self, self.From.Eval(ctx, scope)}
+	sub_ctx, cancel := context.WithCancel(ctx)
+	actor := &GroupbyActor{self, self.From.Eval(sub_ctx, scope)}
 
 	// Get a grouper implementation
-	grouper_output_chan := GetIntScope(scope).Group(ctx, scope, actor)
+	grouper_output_chan := GetIntScope(scope).Group(sub_ctx, scope, actor)
 
 	// Do we need to sort it as well?
 	if self.OrderBy == nil {
-		return grouper_output_chan
+		return relayRows(ctx, cancel, grouper_output_chan)
 	}
 
 	desc := false
@@ -103,7 +104,7 @@ func (self *_Select) EvalGroupBy(ctx context.Context, scope types.Scope) <-chan
 	// Sort the output groups
 	sorter_input_chan := make(chan Row)
 	sorted_chan := scope.(*scope_module.Scope).Sort(
-		ctx, scope, sorter_input_chan,
+		sub_ctx, scope, sorter_input_chan,
 		utils.Unquote_ident(*self.OrderBy), desc)
 
 	// Feed all the aggregate rows into the sorter.
@@ -118,7 +119,7 @@ func (self *_Select) EvalGroupBy(ctx context.Context, scope types.Scope) <-chan
 		for row := range grouper_output_chan {
 			select {
 			// The sorter is gone - nothing will read the row.
-			case <-ctx.Done():
+			case <-sub_ctx.Done():
 				return
 
 			case sorter_input_chan <- row:
@@ -126,5 +127,5 @@ func (self *_Select) EvalGroupBy(ctx context.Context, scope types.Scope) <-chan
 		}
 	}()
 
-	return sorted_chan
+	return relayRows(ctx, cancel, sorted_chan)
 }
-- 
2.43.0


From c8b4cdb9c230565d28df229cea1763fd9bdcdbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:52 +0000
Subject: [PATCH 20/34] fix: rows without the ORDER BY column do not keep
 others from being sorted

---
 sort/sort.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/sort/sort.go b/sort/sort.go
index b9ed8ee..e2159a6 100644
--- a/sort/sort.go
+++ b/sort/sort.go
@@ -78,17 +78,14 @@ func (self *DefaultSorterCtx) Less(i, j int) bool {
 	element2, pres2 := self.Scope.Associative(
 		self.Items[j], self.OrderBy)
 
-	if !pres1 || !pres2 {
-		return false
-	}
-
 	// Sort NULL like an empty string because normally NULL
-	// comparisons are not stable.
-	if types.IsNil(element1) {
+	// comparisons are not stable. A row without the column sorts like
+	// one where the column is NULL.
+	if !pres1 || types.IsNil(element1) {
 		element1 = ""
 	}
 
-	if types.IsNil(element2) {
+	if !pres2 || types.IsNil(element2) {
 		element2 = ""
 	}
 
-- 
2.43.0


From 4348cc8c0125617acdd45adf35a6aae1187ac43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:48 +0000
Subject: [PATCH 21/34] fix: multiplying a string by a negative or huge count
 does not panic

strings.Repeat panics with a negative count. The memory check only caught
this for non empty strings, and its product could overflow: '' * -1 or
'aaaa' * 4611686018427387904 took the whole process down.
---
 protocols/protocol_mul.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/protocols/protocol_mul.go b/protocols/protocol_mul.go
index be4d3f1..3d3d776 100644
--- a/protocols/protocol_mul.go
+++ b/protocols/protocol_mul.go
@@ -33,11 +33,17 @@ func (self MulDispatcher) Mul(scope types.Scope, a types.Any, b types.Any) types
 	case string:
 		b_int, ok := utils.ToInt64(b)
 		if ok {
-			// Estimate how much memory we will use when duplicating the string
-			memory := uint64(len(t)) * uint64(b_int)
-			if memory > 100000000 { // 100mb
-				scope.Log("Multiply Str x Int exceeded memory limits. Len Str %v * Count %v = %v",
-					len(t), int(b_int), memory)
+			// A string can not be repeated a negative number of times.
+			if b_int < 0 {
+				scope.Log("Multiply Str x Int with a negative count %v", b_int)
+				return &types.Null{}
+			}
+
+			// Limit how much memory we will use when duplicating the
+			// string (Dividing the limit so this can not overflow).
+			if len(t) > 0 && b_int > 100000000/int64(len(t)) { // 100mb
+				scope.Log("Multiply Str x Int exceeded memory limits. Len Str %v * Count %v",
+					len(t), b_int)
 				return &types.Null{}
 			}
 			return strings.Repeat(t, int(b_int))
-- 
2.43.0


From 17a858dd2b75cb99a5bc105d2ab7993f10fe2410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 22/34] fix: foreach with a negative number of workers ends

It started no worker at all, so that the first row was never taken and
the query hung until it was cancelled.
---
 plugins/foreach.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/plugins/foreach.go b/plugins/foreach.go
index 96eec25..f0e887e 100644
--- a/plugins/foreach.go
+++ b/plugins/foreach.go
@@ -34,12 +34,12 @@ func (self _ForeachPluginImpl) Call(ctx context.Context,
 			return
 		}
 
-		if arg.Async && arg.Workers == 0 {
+		if arg.Async && arg.Workers <= 0 {
 			arg.Workers = 100
 		}
 
-		// At least one worker
-		if arg.Workers == 0 {
+		// At least one worker - without any the query never ends.
+		if arg.Workers <= 0 {
 			arg.Workers = 1
 		}
 
-- 
2.43.0


From e021ac2c3e35214e75a1c5b12be2e066d2160d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:44 +0000
Subject: [PATCH 23/34] fix: range with a negative step ends

Counting down from below the end emitted rows without end.
---
 plugins/range.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/plugins/range.go b/plugins/range.go
index bf1c0a6..be51dd5 100644
--- a/plugins/range.go
+++ b/plugins/range.go
@@ -36,6 +36,12 @@ func (self RangePlugin) Call(
 			arg.Step = 1
 		}
 
+		// Counting down never reaches the end.
+		if arg.Step < 0 {
+			scope.Log("range: step must be positive")
+			return
+		}
+
 		for i := arg.Start; i < arg.End; i += arg.Step {
 			select {
 			case <-ctx.Done():
-- 
2.43.0


From b90b77cbed3c90300fdf44dd14401d314a10a437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 24/34] fix: a nil value given as a query does not panic

Null values produce no rows, but a nil (for example a null member of a
list, foreach(row=X, query=L[0])) took the whole process down.
---
 arg_parser/args.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arg_parser/args.go b/arg_parser/args.go
index 45d97cc..711a117 100644
--- a/arg_parser/args.go
+++ b/arg_parser/args.go
@@ -201,6 +201,11 @@ func (self *StoredQueryWrapper) Eval(ctx context.Context, scope types.Scope) <-c
 	go func() {
 		defer close(output_chan)
 
+		// No value - no rows.
+		if types.IsNil(self.Value) {
+			return
+		}
+
 		slice := reflect.ValueOf(self.Value)
 		if slice.Type().Kind() == reflect.Slice {
 			for i := 0; i < slice.Len(); i++ {
-- 
2.43.0


From 8b99ed25f32f6bdbe6ebf5da544f4b39e91a17fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:25 +0000
Subject: [PATCH 25/34] fix: a nil value given as an argument does not panic

An argument which evaluates to nil (for example if(condition=L[0]) with
a null member) took the whole process down: nil is now passed to the
function or plugin as NULL, like other missing values.
---
 arg_parser/args.go   |  2 ++
 arg_parser/parser.go | 14 ++++++++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/arg_parser/args.go b/arg_parser/args.go
index 711a117..4f80f01 100644
--- a/arg_parser/args.go
+++ b/arg_parser/args.go
@@ -111,6 +111,7 @@ func _ExtractStringArray(
 		arg = lazy_arg.Reduce(ctx)
 	}
 
+	arg = nilToNull(arg)
 	slice := reflect.ValueOf(arg)
 
 	// A slice of strings.
@@ -163,6 +164,7 @@ func _ExtractAnyArray(
 		arg = lazy_arg.Reduce(ctx)
 	}
 
+	arg = nilToNull(arg)
 	slice := reflect.ValueOf(arg)
 
 	// A slice of strings.
diff --git a/arg_parser/parser.go b/arg_parser/parser.go
index 801b144..58fa7c1 100644
--- a/arg_parser/parser.go
+++ b/arg_parser/parser.go
@@ -166,13 +166,23 @@ func anyParser(ctx context.Context, scope types.Scope,
 		arg = lazy_arg.ReduceWithScope(ctx, scope)
 	}
 
-	return arg, nil
+	return nilToNull(arg), nil
 }
 
 func lazyAnyParser(ctx context.Context, scope types.Scope,
 	args *ordereddict.Dict, arg interface{}) (interface{}, error) {
-	return arg, nil
+	return nilToNull(arg), nil
 }
+
+// Expressions may also evaluate to nil (e.g. a null member of a list)
+// which reflection can not work with.
+func nilToNull(arg types.Any) types.Any {
+	if arg == nil {
+		return types.Null{}
+	}
+	return arg
+}
+
 func sliceParser(ctx context.Context, scope types.Scope,
 	args *ordereddict.Dict, arg interface{}) (interface{}, error) {
 	lazy_arg, ok := arg.(types.LazyExpr)
-- 
2.43.0


From 25c374d2bd13a8c792197dadce559f9e3068fde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 26/34] fix: taking a member of a stored expression keeps the
 query's context

---
 vfilter.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/vfilter.go b/vfilter.go
index 728f19f..82c3293 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -1767,7 +1767,8 @@ func (self *_SymbolRef) IsAggregate(scope types.Scope) bool {
 	return value.Info(scope, types.NewTypeMap()).IsAggregate
 }
 
-func (self *_SymbolRef) getFunction(scope types.Scope) (res types.Any, negated, pres bool) {
+func (self *_SymbolRef) getFunction(
+	ctx context.Context, scope types.Scope) (res types.Any, negated, pres bool) {
 
 	self.mu.Lock()
 	components := self.split_symbol
@@ -1793,6 +1794,15 @@ func (self *_SymbolRef) getFunction(scope types.Scope) (res types.Any, negated,
 	// Plugins with "." resolve themselves recursively.
 	var result Any = scope
 	for idx, component := range components {
+		// Taking a member of a stored expression evaluates it: do
+		// this here because Associative() has no context.
+		stored_expr, ok := result.(types.StoredExpression)
+		if ok {
+			sub_scope := scope.Copy()
+			result = stored_expr.Reduce(ctx, sub_scope)
+			sub_scope.Close()
+		}
+
 		subcomponent, pres := scope.Associative(result, component)
 		if !pres {
 			// Only warn when accessing a top level component:
@@ -1856,7 +1866,7 @@ func (self *_SymbolRef) Reduce(ctx context.Context, scope types.Scope) Any {
 	// The symbol is just a constant in the scope. It may be a
 	// stored expression, a function or a stored query or just a
 	// plain value.
-	value, negated, pres := self.getFunction(scope)
+	value, negated, pres := self.getFunction(ctx, scope)
 	if value != nil && pres {
 		switch t := value.(type) {
 		case FunctionInterface:
-- 
2.43.0


From 2b256ad3d63587823fa585a1b8a6473086ce2e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:51 +0000
Subject: [PATCH 27/34] fix: ORDER BY sorts NULL before every value, also
 before floats

---
 sort/sort.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sort/sort.go b/sort/sort.go
index e2159a6..974db3f 100644
--- a/sort/sort.go
+++ b/sort/sort.go
@@ -90,10 +90,20 @@ func (self *DefaultSorterCtx) Less(i, j int) bool {
 	}
 
 	if self.Desc {
-		return !self.Scope.Lt(element1, element2)
+		return !self.lt(element1, element2)
 	}
 
-	return self.Scope.Lt(element1, element2)
+	return self.lt(element1, element2)
+}
+
+// An empty string sorts before all other values: It does not compare
+// with all of them (e.g. floats) and an inconsistent order leaves even
+// the other rows unsorted.
+func (self *DefaultSorterCtx) lt(a, b types.Any) bool {
+	if a == "" {
+		return b != ""
+	}
+	return b != "" && self.Scope.Lt(a, b)
 }
 
 func (self *DefaultSorterCtx) Swap(i, j int) {
-- 
2.43.0


From 5313c8cf21722547df667115a126be54c7c85f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:10 +0000
Subject: [PATCH 28/34] fix: GROUP BY several columns keeps combinations apart
 whose values contain spaces

---
 vfilter_group.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/vfilter_group.go b/vfilter_group.go
index 72dad5c..9b4b5d4 100644
--- a/vfilter_group.go
+++ b/vfilter_group.go
@@ -3,6 +3,8 @@ package vfilter
 import (
 	"context"
 	"io"
+	"strconv"
+	"strings"
 
 	"github.com/Velocidex/ordereddict"
 	scope_module "www.velocidex.com/golang/vfilter/scope"
@@ -64,7 +66,7 @@ func (self *GroupbyActor) GetNextRow(ctx context.Context, scope types.Scope) (
 
 		// Materialize the group by value as much as possible - we
 		// don't want a lazy item here.
-		gb_element := types.ToString(ctx, new_scope,
+		gb_element := groupKey(ctx, new_scope,
 			self.delegate.GroupBy.Reduce(ctx, new_scope))
 
 		// The columns of the transformed row are yet to be evaluated
@@ -78,6 +80,22 @@ func (self *GroupbyActor) GetNextRow(ctx context.Context, scope types.Scope) (
 	return nil, nil, "", nil, io.EOF
 }
 
+// The bin a group by value belongs to. When there are several group by
+// columns each is quoted, otherwise different values may run together
+// (e.g. 'a b', 'c' and 'a', 'b c').
+func groupKey(ctx context.Context, scope types.Scope, value types.Any) string {
+	elements, ok := value.([]types.Any)
+	if !ok {
+		return types.ToString(ctx, scope, value)
+	}
+
+	quoted := make([]string, 0, len(elements))
+	for _, element := range elements {
+		quoted = append(quoted, strconv.Quote(groupKey(ctx, scope, element)))
+	}
+	return "[" + strings.Join(quoted, " ") + "]"
+}
+
 func (self *GroupbyActor) MaterializeRow(ctx context.Context,
 	row types.Row, scope types.Scope) *ordereddict.Dict {
 	return MaterializedLazyRow(ctx, row, scope)
-- 
2.43.0


From ce6317569ae5ab8fc70cf60ab4e5de95d3d4297d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:39 +0000
Subject: [PATCH 29/34] fix: a stored expression called as a source aggregates
 on its own

LET E(x) = dict(a=count(), b=x) counts from the start in each call when
it is called as a function. Called as a source (SELECT * FROM E(x=1)) it
shared the aggregator context of the caller, so the count went on from
one call to the next.
---
 vfilter.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vfilter.go b/vfilter.go
index 82c3293..526bd8e 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -1305,6 +1305,10 @@ func (self *Plugin) evalSymbolWithArgs(
 		subscope := scope.Copy()
 		defer subscope.Close()
 
+		// Each call of a stored expression aggregates on its own, as
+		// it does when it is called as a function.
+		subscope.SetAggregatorCtx(nil)
+
 		args := buildArgsFromParameters(ctx, scope, self.Args)
 		types.MaybeApplyDefaultArgs(t, ctx, scope, args)
 
-- 
2.43.0


From 392088a9ad1775d70cba5a06ea5e0516dbc12fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:55 +0000
Subject: [PATCH 30/34] fix: apply a query given as the default of a parameter
 named in backticks

LET Q(`p`={SELECT 5 AS G FROM scope()}) = SELECT * FROM p did not apply
the default: it was set under the quoted name.
---
 stored.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stored.go b/stored.go
index 8331633..01243c2 100644
--- a/stored.go
+++ b/stored.go
@@ -206,7 +206,7 @@ func applyDefaults(ctx context.Context, scope types.Scope,
 			if arg.Right != nil {
 				args.Set(name, arg.Right.Reduce(ctx, scope))
 			} else if arg.SubSelect != nil {
-				args.Set(arg.Left, arg.SubSelect)
+				args.Set(name, arg.SubSelect)
 			} else if arg.Array != nil {
 				args.Set(name, arg.Array.Reduce(ctx, scope))
 			} else if arg.ArrayOpenBrace != "" {
-- 
2.43.0


From 8ced58880a510906e827db9c1b27d982bd6a55b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:48 +0000
Subject: [PATCH 31/34] fix: restore materialised definitions which are NULL

LET V <= NULL was dropped when a checkpoint was restored: V was not
defined in the restored scope any more, and missing in the next
checkpoint.
---
 marshal/unmarshal.go | 4 ++++
 scope/marshal.go     | 4 +++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/marshal/unmarshal.go b/marshal/unmarshal.go
index 66b8057..44eed38 100644
--- a/marshal/unmarshal.go
+++ b/marshal/unmarshal.go
@@ -46,6 +46,10 @@ func (self *Unmarshaller) Unmarshal(
 		}
 
 		value, _ := dict.Get("value")
+		if value == nil {
+			// A NULL is a value like any other.
+			value = types.Null{}
+		}
 		return value, nil
 
 	default:
diff --git a/scope/marshal.go b/scope/marshal.go
index 436a8e9..57828d0 100644
--- a/scope/marshal.go
+++ b/scope/marshal.go
@@ -83,7 +83,9 @@ func (self ScopeUnmarshaller) Unmarshal(
 			return nil, fmt.Errorf("Can't decode %v: %w", k, err)
 		}
 
-		if !types.IsNil(unmarshalled) {
+		// Replayed definitions have no value of their own, but a
+		// NULL has.
+		if unmarshalled != nil {
 			env.Set(k, unmarshalled)
 		}
 	}
-- 
2.43.0


From 49c9f5d260210fe41340caea92012791eb97de61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:42 +0000
Subject: [PATCH 32/34] fix: parameters of a lambda may be named in backticks

`x y` => `x y` + 1 did not find its parameter, which was set under the
quoted name.
---
 lambda.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lambda.go b/lambda.go
index fb18e22..8b4ff16 100644
--- a/lambda.go
+++ b/lambda.go
@@ -6,6 +6,7 @@ import (
 	"github.com/Velocidex/ordereddict"
 	"github.com/alecthomas/participle/v2"
 	"www.velocidex.com/golang/vfilter/types"
+	"www.velocidex.com/golang/vfilter/utils"
 )
 
 var (
@@ -25,7 +26,7 @@ func (self *Lambda) GetParameters() []string {
 
 	var visitor func(parameters *_ParameterList)
 	visitor = func(parameters *_ParameterList) {
-		result = append(result, parameters.Left)
+		result = append(result, utils.Unquote_ident(parameters.Left))
 		if parameters.Right != nil {
 			visitor(parameters.Right.Term)
 		}
-- 
2.43.0


From 5f9e220c271278b0f87a10e2ef251a3a13f05b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:32 +0000
Subject: [PATCH 33/34] fix: min() and max() ignore NULL items instead of
 restarting at them

---
 functions/aggregates.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/functions/aggregates.go b/functions/aggregates.go
index e5928af..4d47314 100644
--- a/functions/aggregates.go
+++ b/functions/aggregates.go
@@ -234,8 +234,14 @@ func (self _MinFunction) Call(
 
 	return scope.GetAggregatorCtx().Modify(self.id,
 		func(previous_value_any types.Any, pres bool) types.Any {
-			if pres && !scope.Lt(min_value, previous_value_any) {
-				min_value = previous_value_any
+			if !pres || types.IsNil(previous_value_any) {
+				return min_value
+			}
+
+			// NULL items do not count.
+			if types.IsNil(min_value) ||
+				!scope.Lt(min_value, previous_value_any) {
+				return previous_value_any
 			}
 
 			return min_value
@@ -277,8 +283,14 @@ func (self _MaxFunction) Call(
 
 	return scope.GetAggregatorCtx().Modify(self.id,
 		func(previous_value_any types.Any, pres bool) types.Any {
-			if pres && scope.Lt(max_value, previous_value_any) {
-				max_value = previous_value_any
+			if !pres || types.IsNil(previous_value_any) {
+				return max_value
+			}
+
+			// NULL items do not count.
+			if types.IsNil(max_value) ||
+				scope.Lt(max_value, previous_value_any) {
+				return previous_value_any
 			}
 
 			return max_value
-- 
2.43.0


From b6e4dc302e922b057ea436cadb48a968b9e99074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:35 +0000
Subject: [PATCH 34/34] fix: range() ends when the next value does not fit an
 integer

---
 plugins/range.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/plugins/range.go b/plugins/range.go
index be51dd5..7150914 100644
--- a/plugins/range.go
+++ b/plugins/range.go
@@ -2,6 +2,7 @@ package plugins
 
 import (
 	"context"
+	"math"
 
 	"github.com/Velocidex/ordereddict"
 	"www.velocidex.com/golang/vfilter/arg_parser"
@@ -49,6 +50,11 @@ func (self RangePlugin) Call(
 
 			case output_chan <- ordereddict.NewDict().Set("_value", i):
 			}
+
+			// The next value does not fit an integer.
+			if i > math.MaxInt64-arg.Step {
+				return
+			}
 		}
 	}()
 
-- 
2.43.0

