From 80c9aeb4314a60c2225a6b9d0aed1483ac838510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 01/50] fix: window --overlap emits one window per input, for
 short and empty streams

---
 marcel/op/window.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/marcel/op/window.py b/marcel/op/window.py
index 090d8b5..bb63764 100644
--- a/marcel/op/window.py
+++ b/marcel/op/window.py
@@ -228,16 +228,20 @@ class OverlapWindow(WindowBase):
             self.send_window(env)
 
     def flush(self, env):
-        if len(self.window) > 0:
-            if len(self.window) < self.op.n:
-                while len(self.window) < self.op.n:
-                    self.window.append(OverlapWindow.PADDING)
-                self.send_window(env)
-            for i in range(self.op.n - 1):
-                self.window = self.window[1:]
-                self.window.append(OverlapWindow.PADDING)
-                self.send_window(env)
-            self.op.propagate_flush(env)
+        # Each input starts a window. The inputs currently in self.window start windows that have not been
+        # sent yet, except that if self.window is full, then the window started by the first one has been.
+        unsent = len(self.window)
+        if unsent == self.op.n:
+            unsent -= 1
+            self.window = self.window[1:]
+        while len(self.window) < self.op.n:
+            self.window.append(OverlapWindow.PADDING)
+        for i in range(unsent):
+            self.send_window(env)
+            self.window = self.window[1:]
+            self.window.append(OverlapWindow.PADDING)
+        self.window = []
+        self.op.propagate_flush(env)
 
 
 class DisjointWindow(WindowBase):
-- 
2.43.0


From b62026e87619e922767f9ad34aed54500f978686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 02/50] fix: unique accepts list items

---
 marcel/op/unique.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marcel/op/unique.py b/marcel/op/unique.py
index b1e4579..856823f 100644
--- a/marcel/op/unique.py
+++ b/marcel/op/unique.py
@@ -80,10 +80,10 @@ class GeneralUniquer(Uniquer):
         self.unique = set()
 
     def receive(self, env, x):
-        x = marcel.util.wrap_op_input(x)  # convert list to tuple
+        key = tuple(x)  # x could be a list, which isn't hashable
         try:
-            if x not in self.unique:
-                self.unique.add(x)
+            if key not in self.unique:
+                self.unique.add(key)
                 self.op.send(env, x)
         except TypeError:
             raise marcel.exception.KillCommandException(f'{x} is not hashable')
-- 
2.43.0


From 139c5f59d7b8b6effd19ca04b55465c9d5782fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:29 +0000
Subject: [PATCH 03/50] fix: red --incremental handles list items and does not
 alias accumulators

---
 marcel/op/red.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/marcel/op/red.py b/marcel/op/red.py
index 37b666a..e9c674a 100644
--- a/marcel/op/red.py
+++ b/marcel/op/red.py
@@ -184,6 +184,12 @@ class Reducer:
     def flush(self, env):
         assert False
 
+    # For incremental output. Some reductions (e.g. concat) update the accumulated collection in place,
+    # which must not modify output already sent.
+    @staticmethod
+    def snapshot(accumulator):
+        return tuple([a.copy() if type(a) in (list, set, dict) else a for a in accumulator])
+
 
 class NonGroupingReducer(Reducer):
 
@@ -207,7 +213,7 @@ class NonGroupingReducer(Reducer):
             assert x is not None
             accumulator[i] = op.call(env, functions[i], accumulator[i], x[i])
         if op.incremental:
-            op.send(env, x + tuple(accumulator))
+            op.send(env, tuple(x) + self.snapshot(accumulator))
 
     def flush(self, env):
         op = self.op
@@ -238,7 +244,7 @@ class GroupingReducer(Reducer):
             reducer = op.functions[i]
             accumulator[i] = x[i] if reducer.is_grouping() else op.call(env, reducer, accumulator[i], x[i])
         if op.incremental:
-            op.send(env, x + tuple(self.data(accumulator)))
+            op.send(env, tuple(x) + self.snapshot(self.data(accumulator)))
 
     def flush(self, env):
         op = self.op
-- 
2.43.0


From 09d2bdc926518bf83b6444fd743b57d46dbae3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:16 +0000
Subject: [PATCH 04/50] fix: tail flushes the operators after it once, not
 twice

---
 marcel/op/tail.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/marcel/op/tail.py b/marcel/op/tail.py
index d7ea098..648ce5c 100644
--- a/marcel/op/tail.py
+++ b/marcel/op/tail.py
@@ -108,7 +108,6 @@ class TailKeepN(TailImpl):
                 self.op.send(env, x)
             p = (p + 1) % self.n
             count -= 1
-        self.op.propagate_flush(env)
         self.queue.clear()
 
 
-- 
2.43.0


From 70cdcfb1a62ede887b139c1890d6fe5ddccbcac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:16 +0000
Subject: [PATCH 05/50] fix: union flushes the operators after it once, not
 twice

---
 marcel/op/union.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/marcel/op/union.py b/marcel/op/union.py
index 5a3dc2d..657e9bc 100644
--- a/marcel/op/union.py
+++ b/marcel/op/union.py
@@ -85,23 +85,17 @@ class Union(marcel.core.Op):
     def customize_pipelines(self, env):
         # Union is implemented by passing the input stream along in receive(), and then having each pipeline's
         # arg send its output via flush. This depends on all the pipelines args having the same receiver as the
-        # union op itself. However, we only want one flush after everything is done. PropagateFlushFromLast
-        # makes sure that only the last pipelines propagates the flush.
-        n_pipelines = len(self.pipelines)
+        # union op itself. However, we only want one flush after everything is done, and that is done by Union.flush.
+        # BlockFlush makes sure that the pipelines don't also propagate the flush.
         customized = []
         for pipeline in self.pipelines:
-            last = len(customized) == n_pipelines - 1
-            pipeline = pipeline.append_immutable(PropagateFlushFromLast(last))
+            pipeline = pipeline.append_immutable(BlockFlush())
             pipeline.route_output(self.receiver)
             customized.append(pipeline)
         self.pipelines = customized
 
 
-class PropagateFlushFromLast(marcel.core.Op):
-
-    def __init__(self, last):
-        super().__init__()
-        self.last = last
+class BlockFlush(marcel.core.Op):
 
     # Op
 
@@ -109,5 +103,4 @@ class PropagateFlushFromLast(marcel.core.Op):
         self.send(env, x)
 
     def flush(self, env):
-        if self.last:
-            self.propagate_flush(env)
\ No newline at end of file
+        pass
-- 
2.43.0


From d9ee1376684dd5d39208029448bd827b37886c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:16 +0000
Subject: [PATCH 06/50] fix: args flushes the operators after it once, not
 twice

---
 marcel/op/args.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/marcel/op/args.py b/marcel/op/args.py
index 5a98ab6..d95b5e1 100644
--- a/marcel/op/args.py
+++ b/marcel/op/args.py
@@ -89,21 +89,18 @@ class Args(marcel.core.Op):
                 self.args.clear()
 
     def flush(self, env):
-        if len(self.args) > 0:
-            if self.all:
-                self.args = [self.args]
-            else:
-                while len(self.args) < self.n_params:
-                    self.args.append(None)
-            try:
+        try:
+            if len(self.args) > 0:
+                if self.all:
+                    self.args = [self.args]
+                else:
+                    while len(self.args) < self.n_params:
+                        self.args.append(None)
                 self.pipeline.run_pipeline(env, self.bindings())
-            finally:
-                self.args.clear()
-                # Need to ensure that flush is propagated no matter what happens
-                self.propagate_flush(env)
-        # If there was an exception, and we flushed already, this should still be OK. Propagating a
-        # flush a second time should be a noop.
-        self.propagate_flush(env)
+        finally:
+            self.args.clear()
+            # Need to ensure that flush is propagated no matter what happens
+            self.propagate_flush(env)
 
     def must_not_be_first_in_pipeline(self):
         return True
-- 
2.43.0


From 0a721c6bd2a9e2ffa71470cfffd4274b2bb6980a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:16 +0000
Subject: [PATCH 07/50] fix: filter --compare handles a key of None

---
 marcel/op/filter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marcel/op/filter.py b/marcel/op/filter.py
index 1cc3491..66feae0 100644
--- a/marcel/op/filter.py
+++ b/marcel/op/filter.py
@@ -116,7 +116,9 @@ class Filter(marcel.core.Op):
     def receive(self, env, x):
         if self.right is None:
             self.load_right(env)
-        c = marcel.util.wrap_op_input(self.compare(*x))
+        c = self.compare(*x)
+        if type(c) not in (tuple, list):
+            c = (c,)
         try:
             if (c in self.right) == self.keep:
                 self.send(env, x)
-- 
2.43.0


From 3e34fa0df33345d654515847ad07fbc51394d412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 08/50] fix: each run of a pipeline starts with ops in their
 initial state

---
 marcel/core.py     | 19 ++++++++++++++++---
 marcel/pipeline.py | 18 +++++++++++-------
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/marcel/core.py b/marcel/core.py
index 4f32880..7c21146 100644
--- a/marcel/core.py
+++ b/marcel/core.py
@@ -127,9 +127,22 @@ class Op(AbstractOp):
     def cleanup(self):
         pass
 
-    def copy(self):
-        copy = self.__class__()
-        copy.__dict__.update(self.__dict__)
+    # Not called copy, because that is the name of an attribute of the ws op.
+    def copy_op(self):
+        # The copy must not share execution state with the original, so copy pipeline-valued args too.
+        import marcel.pipeline
+
+        def is_pipeline(x):
+            return isinstance(x, marcel.pipeline.Pipeline)
+
+        copy = self.__class__.__new__(self.__class__)
+        for name, value in self.__dict__.items():
+            if is_pipeline(value):
+                value = value.copy()
+            elif type(value) in (tuple, list) and any(is_pipeline(x) for x in value):
+                value = type(value)([x.copy() if is_pipeline(x) else x for x in value])
+            copy.__dict__[name] = value
+        copy._count = -1
         return copy
 
     def non_fatal_error(self, env, input=None, message=None, error=None):
diff --git a/marcel/pipeline.py b/marcel/pipeline.py
index e3d422a..3ed845c 100644
--- a/marcel/pipeline.py
+++ b/marcel/pipeline.py
@@ -92,14 +92,14 @@ class PipelineExecutable(object):
         return self.params
 
     def copy(self):
-        # A pipeline's copy contains shallow copies of the ops. This allows an op to make a copy of the pipelines
+        # A pipeline's copy contains copies of the ops. This allows an op to make a copy of the pipelines
         # and be sure that the copy doesn't share state or structure (i.e. Op.receiver) with other uses of the
         # "same" pipelines within the same command.
         copy = PipelineExecutable()
         copy.params = self.params
         copy.source = self.source
         for op in self.ops:
-            copy.append(op.copy())
+            copy.append(op.copy_op())
         return copy
 
     def append(self, op):
@@ -314,6 +314,7 @@ class PipelineMarcel(Pipeline):
         assert self.state in (PipelineMarcel.State.IDLE, PipelineMarcel.State.SETUP), self.state
         params = self.executable.parameters()
         assert set(params) == set(bindings.keys()), f'params = {params}, binding keys = {bindings.keys()}'
+        executable = self.executable
         env.vars().push_scope(bindings)
         try:
             with env.check_nesting():
@@ -323,17 +324,20 @@ class PipelineMarcel(Pipeline):
                     # input, then the containing pipeline's setup ensures that this pipeline's
                     # setup() has been run.
                     if self.state is PipelineMarcel.State.IDLE:
-                        self.executable.setup(env)
+                        # Ops have execution state. Run a copy, so that each run of this pipeline starts
+                        # with the ops in their initial state.
+                        executable = self.executable.copy()
+                        executable.setup(env)
                         self.state = PipelineMarcel.State.SETUP
                 except marcel.exception.KillAndResumeException as e:
                     # KARE is fatal during setup.
                     raise marcel.exception.KillCommandException(str(e))
                 try:
                     self.state = PipelineMarcel.State.RUNNING
-                    self.executable.run(env)
-                    self.executable.flush(env)
+                    executable.run(env)
+                    executable.flush(env)
                 finally:
-                    self.executable.cleanup()
+                    executable.cleanup()
         finally:
             env.vars().pop_scope()
             self.state = PipelineMarcel.State.IDLE
@@ -424,7 +428,7 @@ class PipelineFunction(Pipeline):
         def copy(self):
             copy = PipelineFunction.Customizations()
             for op in self.ops:
-                copy.ops.append(op.copy())
+                copy.ops.append(op.copy_op())
             copy.receiver = self.receiver
             return copy
 
-- 
2.43.0


From fbff0d71af155cb8780a35b707c73363c40d7102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 09/50] fix: pipeline parameters are visible only inside the
 pipeline, and restore the variables they hide

---
 marcel/nestednamespace.py | 43 ++++++++++++++++++++++++++++-----------
 marcel/op/args.py         | 12 ++++++++---
 marcel/op/redirect.py     | 11 ++++++++++
 marcel/op/runpipeline.py  | 41 +++++++++++++++++++++----------------
 4 files changed, 74 insertions(+), 33 deletions(-)

diff --git a/marcel/nestednamespace.py b/marcel/nestednamespace.py
index 1f82318..a1284bf 100644
--- a/marcel/nestednamespace.py
+++ b/marcel/nestednamespace.py
@@ -307,6 +307,8 @@ class Scope(dict):
         super().__init__()
         self.parent = parent
         self.params = [] if params is None else params
+        # Values of variables hidden by params, managed by NestedNamespace
+        self.hidden = {}
         self.env = env
         if parent is None:
             # Must be topmost scope
@@ -412,25 +414,42 @@ class NestedNamespace(dict):
 
     def push_scope(self, bindings):
         assert self.env
-        self.scopes.append(Scope(self.env, self.current_scope(), bindings))
+        scope = Scope(self.env, self.current_scope(), bindings)
+        self.scopes.append(scope)
         if bindings:
+            # Bindings may hide variables of the same name. Keep the hidden values, so that pop_scope can restore them.
+            scope.hidden = {var: self[var] for var in bindings if var in self}
             for var, value in bindings.items():
                 self[var] = value
 
     def pop_scope(self):
         assert len(self.scopes) > 0
-        # There are other ways to restore the namespace resulting from exiting the current scope.
-        # This is simplest and not obviously too slow:
-        # - Remove (var, value) entries for vars in the scope being popped.
-        # - Insert (var, value) entries for remaining scopes, outermost first.
         popped_scope = self.scopes.pop()
-        for var in popped_scope.keys():
-            super().__delitem__(var)
-        # Don't have to reset the topmost scope, and that can be problematic anyway, e.g. if env isn't
-        # known and EnvValue cache is unset.
-        for scope in self.scopes[1:]:
-            for var, value in scope.items():
-                super().__setitem__(var, value.unwrap())
+        # An assignment to a parameter, done while this scope was current, affected only this scope. So
+        # the hidden values are still the correct ones.
+        for var in popped_scope.params:
+            self.pop(var, None)
+        super().update(popped_scope.hidden)
+        return popped_scope
+
+    # Run function with the scopes beyond the first n_scopes temporarily removed.
+    def in_outer_scope(self, n_scopes, function):
+        inner_scopes = []
+        while len(self.scopes) > n_scopes:
+            inner_scopes.append(self.pop_scope())
+        try:
+            function()
+        finally:
+            while len(inner_scopes) > 0:
+                self.restore_scope(inner_scopes.pop())
+
+    # Undo the effect of pop_scope
+    def restore_scope(self, scope):
+        self.scopes.append(scope)
+        scope.hidden = {var: self[var] for var in scope.params if var in self}
+        for var in scope.params:
+            self.pop(var, None)
+        super().update({var: value.unwrap() for var, value in scope.items()})
 
     def current_scope(self):
         return self.scopes[-1]
diff --git a/marcel/op/args.py b/marcel/op/args.py
index d95b5e1..ad0eb80 100644
--- a/marcel/op/args.py
+++ b/marcel/op/args.py
@@ -68,6 +68,8 @@ class Args(marcel.core.Op):
         self.pipeline = None
         self.n_params = None
         self.args = None
+        # Number of scopes outside the pipeline, while the pipeline is executing
+        self.n_scopes = None
 
     def __repr__(self):
         flags = 'all, ' if self.all else ''
@@ -84,7 +86,7 @@ class Args(marcel.core.Op):
         self.args.append(unwrap_op_output(x))
         if not self.all and len(self.args) == self.n_params:
             try:
-                self.pipeline.run_pipeline(env, self.bindings())
+                self.run_pipeline(env)
             finally:
                 self.args.clear()
 
@@ -96,7 +98,7 @@ class Args(marcel.core.Op):
                 else:
                     while len(self.args) < self.n_params:
                         self.args.append(None)
-                self.pipeline.run_pipeline(env, self.bindings())
+                self.run_pipeline(env)
         finally:
             self.args.clear()
             # Need to ensure that flush is propagated no matter what happens
@@ -117,12 +119,16 @@ class Args(marcel.core.Op):
             raise marcel.exception.KillCommandException(error)
 
     def customize_pipelines(self, env):
-        self.pipeline = self.pipeline.append_immutable(marcel.op.redirect.Redirect(self))
+        self.pipeline = self.pipeline.append_immutable(marcel.op.redirect.ScopedRedirect(self))
 
     def ensure_functions_compiled(self, env):
         self.pipeline.ensure_functions_compiled(env)
 
     # Internal
 
+    def run_pipeline(self, env):
+        self.n_scopes = env.vars().n_scopes()
+        self.pipeline.run_pipeline(env, self.bindings())
+
     def bindings(self):
         return dict(zip(self.pipeline.parameters(), self.args))
\ No newline at end of file
diff --git a/marcel/op/redirect.py b/marcel/op/redirect.py
index e6a1064..c7ae402 100644
--- a/marcel/op/redirect.py
+++ b/marcel/op/redirect.py
@@ -31,3 +31,14 @@ class Redirect(marcel.core.Op):
 
     def receive_error(self, env, error):
         self.parent.send_error(env, error)
+
+
+# Redirect for a parameterized pipeline. The parent pipeline must not see the bindings of the pipeline's parameters.
+# parent.n_scopes is the number of scopes outside the pipeline.
+class ScopedRedirect(Redirect):
+
+    def receive(self, env, x):
+        env.vars().in_outer_scope(self.parent.n_scopes, lambda: self.parent.send(env, x))
+
+    def receive_error(self, env, error):
+        env.vars().in_outer_scope(self.parent.n_scopes, lambda: self.parent.send_error(env, error))
diff --git a/marcel/op/runpipeline.py b/marcel/op/runpipeline.py
index 0de9303..2567742 100644
--- a/marcel/op/runpipeline.py
+++ b/marcel/op/runpipeline.py
@@ -15,6 +15,7 @@
 
 import marcel.core
 import marcel.exception
+import marcel.op.redirect
 import marcel.pipeline
 import marcel.util
 
@@ -29,6 +30,9 @@ class RunPipeline(marcel.core.Op):
         self.kwargs_arg = None
         self.kwargs = None
         self.pipeline = None
+        # Number of scopes outside the pipeline, while the pipeline is executing
+        self.n_scopes = None
+        self.flushed = None
 
     def __repr__(self):
         return f'runpipeline({self.var} {self.args_arg})'
@@ -60,7 +64,8 @@ class RunPipeline(marcel.core.Op):
         # command. This potentially breaks the use of Op state during execution, and also
         # breaks the structure of the pipelines, e.g. Op.receiver.
         self.pipeline = self.pipeline.copy()
-        self.pipeline.route_output(self.receiver)
+        self.pipeline.append(marcel.op.redirect.ScopedRedirect(self))
+        self.flushed = False
         env.vars().push_scope(self.bindings())
         try:
             self.pipeline.setup(env)
@@ -70,27 +75,19 @@ class RunPipeline(marcel.core.Op):
     # Op
 
     def run(self, env):
-        bindings = self.bindings()
-        env.vars().push_scope(bindings)
-        try:
-            self.pipeline.run_pipeline(env, bindings)
-        finally:
-            env.vars().pop_scope()
+        self.n_scopes = env.vars().n_scopes()
+        self.flushed = True
+        self.pipeline.run_pipeline(env, self.bindings())
 
     def receive(self, env, x):
-        env.vars().push_scope(self.bindings())
-        try:
-            self.pipeline.receive(env, x)
-        finally:
-            env.vars().pop_scope()
+        self.in_scope(env, lambda: self.pipeline.receive(env, x))
 
     def flush(self, env):
-        env.vars().push_scope(self.bindings())
-        try:
-            self.pipeline.flush(env)
-            self.propagate_flush(env)
-        finally:
-            env.vars().pop_scope()
+        # If the pipeline was run, then it has already been flushed.
+        if not self.flushed:
+            self.flushed = True
+            self.in_scope(env, lambda: self.pipeline.flush(env))
+        self.propagate_flush(env)
 
     def cleanup(self):
         if self.pipeline:
@@ -104,6 +101,14 @@ class RunPipeline(marcel.core.Op):
         self.args_arg = args
         self.kwargs_arg = kwargs
 
+    def in_scope(self, env, function):
+        self.n_scopes = env.vars().n_scopes()
+        env.vars().push_scope(self.bindings())
+        try:
+            function()
+        finally:
+            env.vars().pop_scope()
+
     def bindings(self):
         params = self.pipeline.parameters()
         bindings = {}
-- 
2.43.0


From 1847b8a756210a34a537fcd7cc07fe214fbc8d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:56 +0000
Subject: [PATCH 10/50] fix: reverse does not share its contents between copies
 of the op

---
 marcel/op/reverse.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/marcel/op/reverse.py b/marcel/op/reverse.py
index 11b8893..95f41c9 100644
--- a/marcel/op/reverse.py
+++ b/marcel/op/reverse.py
@@ -38,10 +38,13 @@ class Reverse(marcel.core.Op):
 
     def __init__(self):
         super().__init__()
-        self.contents = []
+        self.contents = None
 
     # AbstractOp
 
+    def setup(self, env):
+        self.contents = []
+
     def receive(self, env, x):
         self.contents.append(x)
 
-- 
2.43.0


From fb47dbb1f864efbb188fc279d975312f3451b2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:50 +0000
Subject: [PATCH 11/50] fix: pipelines and quoted strings can be arguments of a
 pipeline

---
 marcel/op/runpipeline.py | 6 ++++--
 marcel/parser.py         | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/marcel/op/runpipeline.py b/marcel/op/runpipeline.py
index 2567742..751834c 100644
--- a/marcel/op/runpipeline.py
+++ b/marcel/op/runpipeline.py
@@ -42,8 +42,10 @@ class RunPipeline(marcel.core.Op):
     def setup(self, env):
         def ifnone(x, default):
             return default if x is None else x
-        self.args = ifnone(self.eval_function(env, 'args_arg'), [])
-        self.kwargs = ifnone(self.eval_function(env, 'kwargs_arg'), {})
+        def string_value(x):
+            return marcel.util.string_value(x) if isinstance(x, str) else x
+        self.args = [string_value(x) for x in ifnone(self.eval_function(env, 'args_arg'), [])]
+        self.kwargs = {k: string_value(v) for k, v in ifnone(self.eval_function(env, 'kwargs_arg'), {}).items()}
         self.pipeline = env.getvar(self.var)
         if self.pipeline is None:
             raise marcel.exception.KillCommandException(
diff --git a/marcel/parser.py b/marcel/parser.py
index f9c0ce5..99782a6 100644
--- a/marcel/parser.py
+++ b/marcel/parser.py
@@ -1303,7 +1303,7 @@ class Parser(object):
                 pipeline_args = []
                 for token in arg_tokens:
                     pipeline_args.append(token
-                                         if type(token) is marcel.pipeline.PipelineExecutable else
+                                         if isinstance(token, marcel.pipeline.Pipeline) else
                                          token.value())
                 args, kwargs = marcel.argsparser.PipelineArgsParser(var).parse_pipeline_args(pipeline_args)
                 op.set_pipeline_args(args, kwargs)
-- 
2.43.0


From ae3a6b1de5c2f1432622ec5126b83cee5a190bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:50 +0000
Subject: [PATCH 12/50] fix: assignment of a function whose parameters are
 *args stores the function

---
 marcel/function_args_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marcel/function_args_parser.py b/marcel/function_args_parser.py
index 718e8a9..170e313 100644
--- a/marcel/function_args_parser.py
+++ b/marcel/function_args_parser.py
@@ -122,6 +122,7 @@ class FunctionArgsParser(object):
         return State.END
 
     def star_name(self):
+        self.has_args = True
         return State.ARG
 
     def arg_comma(self):
-- 
2.43.0


From 0541edfcffdbbc6421a55659234c5455f9f3a11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:50 +0000
Subject: [PATCH 13/50] fix: report unknown and incomplete named arguments of a
 pipeline

---
 marcel/argsparser.py     | 4 ++++
 marcel/op/runpipeline.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/marcel/argsparser.py b/marcel/argsparser.py
index a403ee2..8cc70d4 100644
--- a/marcel/argsparser.py
+++ b/marcel/argsparser.py
@@ -515,6 +515,8 @@ class PipelineArgsParser:
             if flag_name:
                 if flags_done:
                     raise ArgsError(self.var, f'Flag {flag_name} appears after anonymous arguments.')
+                if param_name is not None:
+                    raise ArgsError(self.var, f'Value of flag {param_name} is missing.')
                 param_name = flag_name
             else:
                 if param_name is None:
@@ -525,6 +527,8 @@ class PipelineArgsParser:
                         raise ArgsError(self.var, f'Flag {param_name} given more than once.')
                     kwargs[param_name] = arg
                     param_name = None
+        if param_name is not None:
+            raise ArgsError(self.var, f'Value of flag {param_name} is missing.')
         return args, kwargs
 
     @staticmethod
diff --git a/marcel/op/runpipeline.py b/marcel/op/runpipeline.py
index 751834c..62e118a 100644
--- a/marcel/op/runpipeline.py
+++ b/marcel/op/runpipeline.py
@@ -122,6 +122,10 @@ class RunPipeline(marcel.core.Op):
             bindings[params[i]] = self.args[i]
         # Set named args
         if self.kwargs is not None:
+            unknown = set(self.kwargs.keys()).difference(params)
+            if len(unknown) > 0:
+                raise marcel.exception.KillCommandException(
+                    f'Pipeline {self.var} does not have these parameters: {", ".join(sorted(unknown))}')
             already_set = set(bindings.keys()).intersection(self.kwargs.keys())
             if len(already_set) > 0:
                 raise marcel.exception.KillCommandException(
-- 
2.43.0


From 8c6f7b1d227521e2f152f60b3c13d8988371f24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 14/50] fix: a pipeline-valued parameter keeps the source of
 its pipeline

---
 marcel/nestednamespace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/nestednamespace.py b/marcel/nestednamespace.py
index a1284bf..7c5e8fe 100644
--- a/marcel/nestednamespace.py
+++ b/marcel/nestednamespace.py
@@ -123,7 +123,7 @@ class EnvValue(object):
             ev.assign(value, f'({source})')
         elif is_pipeline(value):
             ev = CompilablePipeline(env)
-            ev.assign(value, source)
+            ev.assign(value, value.source if source is None else source)
         else:
             ev = Simple(env)
             ev.assign(value)
-- 
2.43.0


From 4de2ee0041a7d138f5708121bdb6c32b7db5da3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:31 +0000
Subject: [PATCH 15/50] fix: case routes the output of its pipelines before
 setting them up

---
 marcel/op/case.py | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/marcel/op/case.py b/marcel/op/case.py
index 50ac6ec..e795a41 100644
--- a/marcel/op/case.py
+++ b/marcel/op/case.py
@@ -82,7 +82,6 @@ class Case(marcel.core.Op):
     def __init__(self):
         super().__init__()
         self.branches = None
-        self.pipelines = None
         self.default_pipeline = None
         self.args = None
 
@@ -92,7 +91,18 @@ class Case(marcel.core.Op):
     # AbstractOp
 
     def setup(self, env):
+        def setup_pipeline(pipeline):
+            # Route output before setup, so that ops in the pipeline that customize their own pipelines
+            # (e.g. union) know where output goes.
+            pipeline = pipeline.append_immutable(marcel.op.redirect.Redirect(self))
+            pipeline.setup(env)
+            return pipeline
+
         self.ensure_args_processed(env)
+        for branch in self.branches:
+            branch.pipeline = setup_pipeline(branch.pipeline)
+        if self.default_pipeline:
+            self.default_pipeline = setup_pipeline(self.default_pipeline)
 
     def receive(self, env, x):
         pipeline = self.default_pipeline
@@ -121,8 +131,7 @@ class Case(marcel.core.Op):
         self.ensure_args_processed(env)
         for branch in self.branches:
             self.ensure_function_compiled(branch.predicate, env)
-        for pipeline in self.pipelines:
-            pipeline.ensure_functions_compiled(env)
+            branch.pipeline.ensure_functions_compiled(env)
         if self.default_pipeline:
             self.default_pipeline.ensure_functions_compiled(env)
 
@@ -134,15 +143,10 @@ class Case(marcel.core.Op):
             # marcel.exception) without these?!
             import marcel.pipeline
             import marcel.exception
-            try:
-                if not isinstance(pipeline, marcel.pipeline.Pipeline):
-                    raise marcel.exception.KillCommandException(f'Expected pipeline, found {arg}')
-                pipeline.setup(env)
-                return pipeline
-            except Exception as e:
+            if not isinstance(pipeline, marcel.pipeline.Pipeline):
                 raise marcel.exception.KillCommandException(f'Expected pipeline, found {arg}')
+            return pipeline
 
-        self.pipelines = []
         if len(self.args) < 2:
             raise marcel.exception.KillCommandException('case requires at least 2 arguments')
         # Functions and args alternate. For the API, pipelines can show up as functions, so testing to distinguish
@@ -161,12 +165,3 @@ class Case(marcel.core.Op):
                 predicate = None
         if len(self.args) & 1 == 1:
             self.default_pipeline = pipeline(self.args[-1])
-
-    def customize_pipelines(self, env):
-        def redirect():
-            return marcel.op.redirect.Redirect(self)
-
-        if self.default_pipeline:
-            self.default_pipeline = self.default_pipeline.append_immutable(redirect())
-        for branch in self.branches:
-            branch.pipeline = branch.pipeline.append_immutable(redirect())
-- 
2.43.0


From 0b228f8904822742be69a58b7f0d17965a632d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 16/50] fix: red does not update accumulators for an input on
 which a function fails

---
 marcel/op/red.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/marcel/op/red.py b/marcel/op/red.py
index e9c674a..c43afb6 100644
--- a/marcel/op/red.py
+++ b/marcel/op/red.py
@@ -207,11 +207,11 @@ class NonGroupingReducer(Reducer):
             op.fatal_error(env, x, 'Input too short.')
         accumulator = self.accumulator
         functions = op.functions
-        for i in range(self.n):
-            assert functions is not None
-            assert accumulator is not None
-            assert x is not None
-            accumulator[i] = op.call(env, functions[i], accumulator[i], x[i])
+        assert functions is not None
+        assert accumulator is not None
+        assert x is not None
+        # If any function fails, then x must not contribute to any of the accumulators.
+        self.accumulator = accumulator = [op.call(env, functions[i], accumulator[i], x[i]) for i in range(self.n)]
         if op.incremental:
             op.send(env, tuple(x) + self.snapshot(accumulator))
 
@@ -236,13 +236,17 @@ class GroupingReducer(Reducer):
         if len(x) < self.n:
             op.fatal_error(env, x, 'Input too short.')
         group = tuple(self.group(x))
-        accumulator = self.accumulators.get(group, None)
+        try:
+            accumulator = self.accumulators.get(group, None)
+        except TypeError:
+            op.fatal_error(env, x, f'{group} is not hashable')
         if accumulator is None:
             accumulator = [None] * self.n
-            self.accumulators[group] = accumulator
-        for i in range(self.n):
-            reducer = op.functions[i]
-            accumulator[i] = x[i] if reducer.is_grouping() else op.call(env, reducer, accumulator[i], x[i])
+        # If any function fails, then x must not contribute to any of the accumulators, or introduce a group.
+        functions = op.functions
+        accumulator = [x[i] if functions[i].is_grouping() else op.call(env, functions[i], accumulator[i], x[i])
+                       for i in range(self.n)]
+        self.accumulators[group] = accumulator
         if op.incremental:
             op.send(env, tuple(x) + self.snapshot(self.data(accumulator)))
 
-- 
2.43.0


From 84b5c3a565e72fc07b23f046cf99a251272f0a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 17/50] fix: window with a predicate can describe itself in an
 error

---
 marcel/op/window.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/op/window.py b/marcel/op/window.py
index bb63764..845939d 100644
--- a/marcel/op/window.py
+++ b/marcel/op/window.py
@@ -137,7 +137,7 @@ class Window(marcel.core.Op):
         if self.disjoint:
             options.append(f'disjoint={self.disjoint}')
         if self.predicate:
-            options.append(f'predicate={self.predicate.source()}')
+            options.append(f'predicate={self.predicate.snippet()}')
         return f'window({", ".join(options)})'
 
     # AbstractOp
-- 
2.43.0


From 593cee8860d57aafd71b023c58a5719f2ef20bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 18/50] fix: sort reports a failing key for the item it failed
 on

---
 marcel/op/sort.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/marcel/op/sort.py b/marcel/op/sort.py
index 336a853..72ef093 100644
--- a/marcel/op/sort.py
+++ b/marcel/op/sort.py
@@ -69,22 +69,21 @@ class Sort(marcel.core.Op):
 
     def receive(self, env, x):
         if self.contents is not None:
-            self.contents.append(x)
+            # Evaluate the key now, so that if it fails, the error is limited to x.
+            key = self.call(env, self.key, *x) if self.key else x
+            self.contents.append((key, x))
 
     def flush(self, env):
         if self.contents is not None:
             try:
-                if self.key:
-                    self.contents.sort(key=(lambda t: self.call(env, self.key, *t)))
-                else:
-                    self.contents.sort()
-                for x in self.contents:
-                    self.send(env, x)
-                # Reusing a sort after flush produces non-sorted data! So just clearing self.contents is inadequate.
-                # Setting self.contents to None will result in an obvious failure if this is attempted.
-                self.contents = None
+                self.contents.sort(key=lambda key_and_x: key_and_x[0])
             except TypeError as e:
                 raise marcel.exception.KillCommandException(e)
+            for _, x in self.contents:
+                self.send(env, x)
+            # Reusing a sort after flush produces non-sorted data! So just clearing self.contents is inadequate.
+            # Setting self.contents to None will result in an obvious failure if this is attempted.
+            self.contents = None
         self.propagate_flush(env)
 
     def must_not_be_first_in_pipeline(self):
-- 
2.43.0


From 35441563c0adfb70899a7fe76d6514701503a855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 19/50] fix: errors in pipeline arguments of join, filter,
 difference and intersect are reported

---
 marcel/op/difference.py |  4 ++--
 marcel/op/filter.py     |  6 +++---
 marcel/op/intersect.py  |  4 ++--
 marcel/op/join.py       |  4 ++--
 marcel/op/redirect.py   | 19 +++++++++++++++++++
 5 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/marcel/op/difference.py b/marcel/op/difference.py
index af966ee..0d6e210 100644
--- a/marcel/op/difference.py
+++ b/marcel/op/difference.py
@@ -16,7 +16,7 @@
 import marcel.argsparser
 import marcel.core
 import marcel.exception
-import marcel.opmodule
+import marcel.op.redirect
 import marcel.object.error
 import marcel.pipeline
 import marcel.util
@@ -103,7 +103,7 @@ class Difference(marcel.core.Op):
                 raise marcel.exception.KillCommandException(f'{x} is not hashable')
 
         self.right = {}
-        self.pipeline = self.pipeline.append_immutable(marcel.opmodule.create_op(env, 'map', load_right))
+        self.pipeline = self.pipeline.append_immutable(marcel.op.redirect.Consume(self, load_right))
 
     def ensure_functions_compiled(self, env):
         self.pipeline.ensure_functions_compiled(env)
\ No newline at end of file
diff --git a/marcel/op/filter.py b/marcel/op/filter.py
index 66feae0..e105db0 100644
--- a/marcel/op/filter.py
+++ b/marcel/op/filter.py
@@ -16,7 +16,7 @@
 import marcel.argsparser
 import marcel.core
 import marcel.exception
-import marcel.opmodule
+import marcel.op.redirect
 import marcel.object.error
 import marcel.pipeline
 import marcel.util
@@ -116,7 +116,7 @@ class Filter(marcel.core.Op):
     def receive(self, env, x):
         if self.right is None:
             self.load_right(env)
-        c = self.compare(*x)
+        c = self.call(env, self.compare, *x)
         if type(c) not in (tuple, list):
             c = (c,)
         try:
@@ -138,6 +138,6 @@ class Filter(marcel.core.Op):
             except TypeError:
                 raise marcel.exception.KillCommandException(f'{x} is not hashable')
         self.right = set()
-        self.pipeline = self.pipeline.append_immutable(marcel.opmodule.create_op(env, 'map', add_to_right))
+        self.pipeline = self.pipeline.append_immutable(marcel.op.redirect.Consume(self, add_to_right))
         self.pipeline.setup(env)
         self.pipeline.run_pipeline(env, {})
diff --git a/marcel/op/intersect.py b/marcel/op/intersect.py
index 24b529e..d52bceb 100644
--- a/marcel/op/intersect.py
+++ b/marcel/op/intersect.py
@@ -16,7 +16,7 @@
 import marcel.argsparser
 import marcel.core
 import marcel.exception
-import marcel.opmodule
+import marcel.op.redirect
 import marcel.object.error
 import marcel.pipeline
 
@@ -95,7 +95,7 @@ class Intersect(marcel.core.Op):
 
         customized = []
         for pipeline in self.pipelines:
-            pipeline = pipeline.append_immutable(marcel.opmodule.create_op(env, 'map', count_inputs))
+            pipeline = pipeline.append_immutable(marcel.op.redirect.Consume(self, count_inputs))
             customized.append(pipeline)
         self.pipelines = customized
 
diff --git a/marcel/op/join.py b/marcel/op/join.py
index 09cae51..071dbbe 100644
--- a/marcel/op/join.py
+++ b/marcel/op/join.py
@@ -16,7 +16,7 @@
 import marcel.argsparser
 import marcel.core
 import marcel.exception
-import marcel.opmodule
+import marcel.op.redirect
 import marcel.object.error
 import marcel.pipeline
 import marcel.util
@@ -147,4 +147,4 @@ class Join(marcel.core.Op):
                 raise marcel.exception.KillCommandException(f'{x} is not hashable')
 
         self.inner = {}
-        self.pipeline = self.pipeline.append_immutable(marcel.opmodule.create_op(env, 'map', load_inner))
+        self.pipeline = self.pipeline.append_immutable(marcel.op.redirect.Consume(self, load_inner))
diff --git a/marcel/op/redirect.py b/marcel/op/redirect.py
index c7ae402..cfda4b6 100644
--- a/marcel/op/redirect.py
+++ b/marcel/op/redirect.py
@@ -42,3 +42,22 @@ class ScopedRedirect(Redirect):
 
     def receive_error(self, env, error):
         env.vars().in_outer_scope(self.parent.n_scopes, lambda: self.parent.send_error(env, error))
+
+
+# Consumes the output of a pipeline that is an argument of parent, by passing it to the given function.
+# Errors become part of the parent's output.
+class Consume(marcel.core.Op):
+
+    def __init__(self, parent, function):
+        super().__init__()
+        self.parent = parent
+        self.function = function
+
+    def __repr__(self):
+        return 'consume()'
+
+    def receive(self, env, x):
+        self.call(env, self.function, *x)
+
+    def send_error(self, env, error):
+        self.parent.send_error(env, error)
-- 
2.43.0


From 0f74389852a2d2ea75013df3d1a2499aa0b5ce66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 20/50] fix: write reports errors in every format

---
 marcel/op/write.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/marcel/op/write.py b/marcel/op/write.py
index df23d78..25fb2a0 100644
--- a/marcel/op/write.py
+++ b/marcel/op/write.py
@@ -157,7 +157,14 @@ class Write(marcel.core.Op):
     def receive_error(self, env, error):
         if env.trace.is_enabled():
             env.trace.write(self, error)
-        self.writer.receive(env, error)
+        self.writer.receive_error(env, error)
+
+    def send_error(self, env, error):
+        if self.receiver:
+            super().send_error(env, error)
+        else:
+            # There is no downstream write to report the error.
+            self.writer.receive_error(env, error)
 
     def flush(self, env):
         self.writer.flush(env)
@@ -193,6 +200,9 @@ class Writer(object):
     def receive(self, env, x):
         assert False
 
+    def receive_error(self, env, error):
+        self.receive(env, error)
+
     def flush(self, env):
         pass
 
@@ -213,6 +223,10 @@ class TextWriter(Writer):
         if self.output() != sys.stdout:
             self.output().close()
 
+    # Errors are not subject to formatting specifications.
+    def receive_error(self, env, error):
+        self.write_line(error.render_full(None))
+
     def write_line(self, x):
         print(x, file=self.output(), flush=True)
 
@@ -282,6 +296,9 @@ class DefaultWriter(TextWriter):
                 assert False, type(x)
         self.write_line(out)
 
+    def receive_error(self, env, error):
+        self.receive(env, error)
+
     def color_scheme(self):
         return self._color_scheme if self.output() == sys.__stdout__ else None
 
-- 
2.43.0


From 876b6a1226ad2df46099903421ff49d8015c762f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:19 +0000
Subject: [PATCH 21/50] fix: API pipelines share no state between evaluations
 or expressions

---
 marcel/pipeline.py | 67 ++++++++++++++++++++++++++--------------------
 1 file changed, 38 insertions(+), 29 deletions(-)

diff --git a/marcel/pipeline.py b/marcel/pipeline.py
index 3ed845c..f7241b7 100644
--- a/marcel/pipeline.py
+++ b/marcel/pipeline.py
@@ -149,17 +149,11 @@ class OpList(object):
         self.ops = None
 
     def __or__(self, other):
-        if self.ops is None:
-            # self must be the first op of a pipelines
-            self.ops = [self.op]
-            self.op = None
-        # Append ops from other. There could be one or more than one
+        # self and other must not be modified, they could be used again, in other expressions.
         assert (other.op is None) != (other.ops is None)
-        if other.op:
-            self.ops.append(other.op)
-        else:
-            self.ops.extend(other.ops)
-        return self
+        op_list = OpList(self.env, None)
+        op_list.ops = self.op_list() + other.op_list()
+        return op_list
 
     def __iter__(self):
         return PipelineIterator(self.env, PipelineOpList(self))
@@ -168,14 +162,17 @@ class OpList(object):
         assert args is None
         assert not (self.op is not None and self.ops is not None)
         # self.op and ops could both be None. E.g., this happens with upload, which starts with an empty pipeline.
+        # Ops have execution state, so they cannot be shared with other pipelines created from this OpList.
         pipeline = PipelineExecutable()
-        if self.op is not None:
-            pipeline.append(self.op)
-        elif self.ops is not None:
-            for op in self.ops:
-                pipeline.append(op)
+        for op in self.op_list():
+            pipeline.append(op.copy_op())
         return pipeline
 
+    # Internal
+
+    def op_list(self):
+        return [self.op] if self.op is not None else [] if self.ops is None else self.ops
+
 
 # Pipeline--------------------------------------------------------------------------------------------------------------
 
@@ -375,28 +372,37 @@ class PipelineOpList(Pipeline):
             super().__init__(pipeline)
         else:
             assert False, type(pipeline)
+        self.is_setup = False
 
     # Pipeline - execution
 
     def setup(self, env):
-        pass
+        if not self.is_setup:
+            self.executable.setup(env)
+            self.is_setup = True
 
     def run_pipeline(self, env, bindings):
+        executable = self.executable
+        if not self.is_setup:
+            # Ops have execution state. Run a copy, so that each run of this pipeline starts
+            # with the ops in their initial state.
+            executable = self.executable.copy()
+            try:
+                executable.setup(env)
+            except marcel.exception.KillAndResumeException as e:
+                # KARE is fatal during setup.
+                raise marcel.exception.KillCommandException(str(e))
         try:
-            self.executable.setup(env)
-        except marcel.exception.KillAndResumeException as e:
-            # KARE is fatal during setup.
-            raise marcel.exception.KillCommandException(str(e))
-        try:
-            self.executable.run(env)
-            self.executable.flush(env)
+            executable.run(env)
+            executable.flush(env)
         finally:
-            self.executable.cleanup()
+            executable.cleanup()
+            self.is_setup = False
 
     # Pipeline - construction
 
     def copy(self):
-        return PipelineOpList(self.executable)
+        return PipelineOpList(self.executable.copy())
 
     def append_immutable(self, op):
         return PipelineOpList(self.executable.append_immutable(op))
@@ -448,7 +454,9 @@ class PipelineFunction(Pipeline):
         pass
 
     def parameters(self):
-        return self.function.__code__.co_varnames
+        # Not all of co_varnames, which also has local variables.
+        code = self.function.__code__
+        return code.co_varnames[:code.co_argcount]
 
     def run_pipeline(self, env, bindings):
         self.create_executable(env, bindings)
@@ -481,10 +489,11 @@ class PipelineFunction(Pipeline):
             self.executable.append(op)
 
     def append_immutable(self, op):
-        self.customizations.ops.append(op)
+        copy = self.copy()
+        copy.customizations.ops.append(op)
         if self.executable:
-            self.executable = self.executable.append_immutable(op)
-        return self
+            copy.executable = self.executable.append_immutable(op)
+        return copy
 
     def route_output(self, receiver):
         self.customizations.receiver = receiver
-- 
2.43.0


From 032227efeee2a9cf37cb76c20bab62a76ceaa878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:19 +0000
Subject: [PATCH 22/50] fix: API first stops after the first item, and errors
 go to a given list

---
 marcel/core.py     | 5 ++---
 marcel/op/apiop.py | 8 +++++---
 marcel/op/sort.py  | 2 +-
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/marcel/core.py b/marcel/core.py
index 7c21146..cac5bc2 100644
--- a/marcel/core.py
+++ b/marcel/core.py
@@ -155,11 +155,10 @@ class Op(AbstractOp):
         error = self.error(input=input, message=message)
         try:
             self.send_error(env, error)
-        except:
+        except Exception:
             # If the error occurred during setup, then send_error can't work
             pass
-        finally:
-            raise marcel.exception.KillAndResumeException(message)
+        raise marcel.exception.KillAndResumeException(message)
 
     def must_be_first_in_pipeline(self):
         return False
diff --git a/marcel/op/apiop.py b/marcel/op/apiop.py
index b3e3d8d..c9347e7 100644
--- a/marcel/op/apiop.py
+++ b/marcel/op/apiop.py
@@ -36,10 +36,12 @@ class APIOp(marcel.core.Op):
             x = x[0]
         self.output.append(x)
         if self.stop_after_first:
-            marcel.exception.StopAfterFirst()
+            raise marcel.exception.StopAfterFirst()
 
     def receive_error(self, env, error):
-        if self.stop_after_first:
-            marcel.exception.StopAfterFirst()
+        if self.errors is not None:
+            self.errors.append(error)
         else:
             self.output.append(error)
+            if self.stop_after_first:
+                raise marcel.exception.StopAfterFirst()
diff --git a/marcel/op/sort.py b/marcel/op/sort.py
index 72ef093..86d62d2 100644
--- a/marcel/op/sort.py
+++ b/marcel/op/sort.py
@@ -53,7 +53,7 @@ class Sort(marcel.core.Op):
         self.contents = None
 
     def __repr__(self):
-        return f'sort({self.key})' if self.key else 'sort()'
+        return f'sort({self.key.snippet()})' if self.key else 'sort()'
 
     # AbstractOp
     
-- 
2.43.0


From 939894f90a687253f8dc390aa2c22a21e46669aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:19 +0000
Subject: [PATCH 23/50] fix: fork waits for all workers, and reports their
 errors

---
 marcel/op/forkmanager.py | 83 +++++++++++++++++++++++++---------------
 1 file changed, 52 insertions(+), 31 deletions(-)

diff --git a/marcel/op/forkmanager.py b/marcel/op/forkmanager.py
index 1ba4e30..a8060a2 100644
--- a/marcel/op/forkmanager.py
+++ b/marcel/op/forkmanager.py
@@ -14,6 +14,7 @@
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 
 import multiprocessing as mp
+import multiprocessing.connection
 import os
 
 import dill
@@ -46,32 +47,38 @@ class SendToParent(marcel.core.Op):
 
     def receive(self, env, x):
         dump(f'{self} receive {x}')
-        self.writer.send(dill.dumps(x))
+        try:
+            pickled = dill.dumps(x)
+        except Exception as e:
+            self.receive_error(env, self.error(x, f'Cannot be transmitted: {e}'))
+            return
+        self.writer.send(pickled)
         dump(f'{self} receive sent {x}')
 
     def receive_error(self, env, error):
         dump(f'{self} receive_error {error}')
         self.writer.send(dill.dumps(error))
 
-    def cleanup(self):
-        dump(f'{self} cleanup, close writer {id(self.writer)}')
-        self.writer.close()
-
 
 def run_pipeline_in_child(env, pipeline, thread_id, writer):
     try:
         pipeline = dill.loads(pipeline)
+        # Compiled functions were not transmitted
+        pipeline.ensure_functions_compiled(env)
         pipeline.append(SendToParent(writer, thread_id))
         params = pipeline.parameters()
         bindings = {} if len(params) == 0 else {params[0]: thread_id}
         dump(f'child running pipeline {pipeline}, writer {id(writer)}')
-        pipeline.run_pipeline(env, bindings)  # Closes writer
+        pipeline.run_pipeline(env, bindings)
+    except marcel.exception.KillAndResumeException:
+        # The error has been reported already
+        pass
     except BaseException as e:
         dump(f'caught {type(e)}: {e}')
-        marcel.util.print_stack_of_current_exception()
-        writer.send(dill.dumps(e))
-        writer.close()
+        cause = e if isinstance(e, marcel.exception.KillCommandException) else f'{type(e)}: {e}'
+        writer.send(dill.dumps(marcel.object.error.Error(cause)))
     finally:
+        writer.close()
         dump(f'closed writer {id(writer)}')
 
 
@@ -97,19 +104,23 @@ class ForkManager(object):
         self.workers = [ForkWorker(env, self, thread_id, fork_customizer) for thread_id in self.thread_ids]
 
     def run(self, env):
-        for worker in self.workers:
-            worker.start()
-            dump(f'{self} started {worker}')
-        completed = 0
-        w = 0
-        while completed < len(self.workers):
-            more = self.workers[w].consume_input()
-            if not more:
-                completed += 1
-            w = (w + 1) % len(self.workers)
-            dump(f'completed: {completed}')
-        for worker in self.workers:
-            worker.close()
+        active = {}  # reader -> worker, for workers that haven't finished
+        try:
+            for worker in self.workers:
+                worker.start()
+                active[worker.reader] = worker
+                dump(f'{self} started {worker}')
+            while len(active) > 0:
+                for reader in mp.connection.wait(list(active.keys())):
+                    if not active[reader].consume_input():
+                        worker = active.pop(reader)
+                        worker.close()
+                        dump(f'completed: {worker}')
+        finally:
+            # Not empty only if there was an exception
+            for worker in active.values():
+                worker.abort()
+
 
 class ForkWorker(object):
 
@@ -167,18 +178,18 @@ class ForkWorker(object):
         self.writer.close()
 
     def consume_input(self):
-        more = True
         try:
-            if self.reader.poll(timeout=0.1):
-                input = self.reader.recv()
-                x = dill.loads(input)
-                dump(f'{self} consume_input receive {x}')
-                self.op.send(self.env, x)
+            x = self.reader.recv()
         except EOFError:
             dump(f'{self} consume_input EOF')
-            self.writer.close()
-            more = False
-        return more
+            return False
+        x = dill.loads(x)
+        dump(f'{self} consume_input receive {x}')
+        if isinstance(x, marcel.object.error.Error):
+            self.op.send_error(self.env, x)
+        else:
+            self.op.send(self.env, x)
+        return True
 
     def close(self):
         dump(f'{self} joining ...')
@@ -188,4 +199,14 @@ class ForkWorker(object):
             self.process.join(0.1)
             first = False
         dump(f'{self} joined')
+        if self.process.exitcode != 0:
+            self.op.non_fatal_error(self.env,
+                                    message=f'{self.thread_id} ended abnormally, exit code {self.process.exitcode}')
+        self.reader.close()
+        self.env = None
+
+    def abort(self):
+        self.process.terminate()
+        self.process.join()
+        self.reader.close()
         self.env = None
-- 
2.43.0


From d012039f8923eb7323bb78c2c9e2fc288cb97611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:55 +0000
Subject: [PATCH 24/50] fix: deleting a variable deletes it from its scope too,
 so that it stays deleted

---
 marcel/object/workspace.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 74d5c10..7f4f9fc 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -149,7 +149,9 @@ class VarHandler(object):
         self.check_mutability(var)
         if var in self.namespace:
             self.vars_written.discard(var)
-            value = self.namespace.pop(var)
+            value = self.namespace[var]
+            # Deletes from the current scope as well as from the namespace
+            del self.namespace[var]
             if type(value) is marcel.reservoir.Reservoir:
                 value.ensure_deleted()
             return value
-- 
2.43.0


From efcb4d01f0aada9a74a3f120bc48d498a605033d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:27 +0000
Subject: [PATCH 25/50] fix: words may mix quoted, escaped and bare text and
 expressions, quotes can be escaped, and a command ending in an escape or an
 adjacent comment is parsed

A word such as ab"c d"'e' kept its quotes, \" kept its backslash, text joined to an expression was not escaped, and default values
of function arguments were not recognized.
---
 marcel/function_args_parser.py | 23 +++++++++++++++--
 marcel/parser.py               | 47 +++++++++++++++-------------------
 marcel/stringliteral.py        | 36 ++++++++++++++------------
 3 files changed, 61 insertions(+), 45 deletions(-)

diff --git a/marcel/function_args_parser.py b/marcel/function_args_parser.py
index 170e313..dffeaa2 100644
--- a/marcel/function_args_parser.py
+++ b/marcel/function_args_parser.py
@@ -25,6 +25,7 @@ class State(Enum):
     ARG = 4
     END = 5
     NO_ARGS = 6
+    DEFAULT = 7
 
     def terminal(self):
         return self in (State.END, State.NO_ARGS)
@@ -37,6 +38,7 @@ class Symbol(Enum):
     STAR = 4,
     COLON = 5,
     OTHER = 6
+    ASSIGN = 7
 
     @staticmethod
     def of(token):
@@ -45,6 +47,7 @@ class Symbol(Enum):
                 Symbol.COMMA if token.type == tkn.OP and token.string == ',' else
                 Symbol.STAR if token.type == tkn.OP and token.string == '*' else
                 Symbol.COLON if token.type == tkn.OP and token.string == ':' else
+                Symbol.ASSIGN if token.type == tkn.OP and token.string == '=' else
                 Symbol.OTHER)
 
 
@@ -69,7 +72,10 @@ class FunctionArgsParser(object):
             (State.ARGLIST, Symbol.COLON): self.arglist_colon,
             (State.STAR, Symbol.NAME): self.star_name,
             (State.ARG, Symbol.COMMA): self.arg_comma,
-            (State.ARG, Symbol.COLON): self.arg_colon
+            (State.ARG, Symbol.COLON): self.arg_colon,
+            (State.ARG, Symbol.ASSIGN): self.arg_assign,
+            (State.DEFAULT, Symbol.COMMA): self.arg_comma,
+            (State.DEFAULT, Symbol.COLON): self.arg_colon
         }
 
     def __repr__(self):
@@ -81,12 +87,22 @@ class FunctionArgsParser(object):
     def parse(self):
         def transition(symbol):
             handler = self.transitions.get((self.state, symbol), None)
-            return handler() if handler else State.NO_ARGS
+            return (handler() if handler else
+                    State.DEFAULT if self.state is State.DEFAULT else
+                    State.NO_ARGS)
 
+        nesting = 0  # Of brackets in the default value of an arg
         for token in tkn.tokenize(self.input):
             if token.type == tkn.ENDMARKER:
                 break
             if token.type not in (tkn.ENCODING, tkn.NEWLINE):
+                if self.state is State.DEFAULT:
+                    if token.type == tkn.OP:
+                        nesting += (1 if token.string in '([{' else
+                                    -1 if token.string in ')]}' else
+                                    0)
+                    if nesting > 0:
+                        continue
                 self.state = transition(Symbol.of(token))
                 if self.state.terminal():
                     break
@@ -128,6 +144,9 @@ class FunctionArgsParser(object):
     def arg_comma(self):
         return State.ARGLIST
 
+    def arg_assign(self):
+        return State.DEFAULT
+
     def arg_colon(self):
         self.explicit_colon = True
         return State.END
diff --git a/marcel/parser.py b/marcel/parser.py
index 99782a6..5fa860e 100644
--- a/marcel/parser.py
+++ b/marcel/parser.py
@@ -312,7 +312,9 @@ class PythonString(Token):
                     chars.append(c)
             elif c == Token.ESCAPE_CHAR:
                 c = self.next_char()
-                if c in Token.ESCAPABLE:
+                if c is None:
+                    raise LexerException(self, "Not a python string")
+                elif c in Token.ESCAPABLE:
                     chars.append(c)
                 else:
                     chars.append(Token.ESCAPE_CHAR)
@@ -455,26 +457,15 @@ class String(Token):
                 elif c == quote:
                     quote = None
             elif c == Token.ESCAPE_CHAR:
-                if quote is None:
-                    # TODO: ESCAPE at end of line
-                    chars.append(c)
+                chars.append(c)
+                if quote != Token.SINGLE_QUOTE:
+                    # StringLiteral interprets the escape
                     c = self.next_char()
                     if c is None:
+                        if quote is None:
+                            raise LexerException(self, 'Nothing to escape')
                         break
                     chars.append(c)
-                elif quote == Token.SINGLE_QUOTE:
-                    chars.append(c)
-                elif quote == Token.DOUBLE_QUOTE:
-                    # TODO: no next char
-                    c = self.next_char()
-                    # TODO: Other escaped chars inside double quotes
-                    if c == Token.ESCAPE_CHAR:
-                        chars.append(c)
-                    else:
-                        chars.append(Token.ESCAPE_CHAR)
-                        chars.append(c)
-                else:
-                    raise LexerException(self, 'Malformed string')
             else:
                 chars.append(c)
         self.string = StringLiteral(''.join(chars))
@@ -682,7 +673,8 @@ class Lexer(Source):
 
     def next_token(self):
         def consolidatable(token):
-            return token.is_string() or token.is_expr()
+            # token is None if all that's left is a comment.
+            return token is not None and (token.is_string() or token.is_expr())
 
         token = self.next_unconsolidated_token()
         if token is None:
@@ -703,19 +695,22 @@ class Lexer(Source):
         return consolidated
 
     def consolidate(self, tokens):
-        # Generate a new Expression token that combines the strings and expressions into
-        # a Python f'...' string.
-        buffer = ["(f'''"]
+        # Generate a new Expression token that combines the strings and expressions by formatting.
+        format = []
+        args = []
         for token in tokens:
             if token.is_string():
-                buffer.append(token.value())
+                if token.missing_quote():
+                    raise marcel.exception.MissingQuoteException(token.value())
+                format.append(token.value().value().replace('{', '{{').replace('}', '}}'))
             elif token.is_expr():
-                buffer.extend(['{', token.source(), '}'])
+                if not token.source().strip():
+                    raise SyntaxError(token, 'Empty expression')
+                format.append('{}')
+                args.append(f'({token.source()})')
             else:
                 assert False, token
-        buffer.append("''')")
-        token = Expression(self.parser, ''.join(buffer), 0)
-        return token
+        return Expression(self.parser, f"({repr(''.join(format))}.format({', '.join(args)}))", 0)
 
     def next_unconsolidated_token(self):
         # These symbols have special significance during marcel parsing, but not bash:
diff --git a/marcel/stringliteral.py b/marcel/stringliteral.py
index 0b470bb..0fae40a 100644
--- a/marcel/stringliteral.py
+++ b/marcel/stringliteral.py
@@ -45,34 +45,36 @@ class StringLiteral(str):
         return self.quote
 
     def missing_quote(self):
-        return self.quote if self.unterminated_quote else None
+        return self.unterminated_quote
 
     # Internal
 
     def compute_unadorned(self):
         if self.original is not None:
             self.escape = False
-            self.unterminated_quote = False
             if self[0] in StringLiteral.QUOTES:
-                # Remove quotes
                 self.quote = self[0]
-                self.unterminated_quote = self[-1] != self.quote
-                self.string = self[1:] if self.unterminated_quote else self[1:-1]
-            else:
-                # Remove escapes if any
-                self.string = ''
-                i = 0
-                n = len(self)
-                while i < n:
-                    c = self[i]
-                    i += 1
-                    if c == '\\':
+            # Remove quotes, and escapes if any. As in bash, a quoted sequence can start and end anywhere. An escape
+            # has no effect inside single quotes, and inside double quotes, can only escape " and itself.
+            quote = None
+            self.string = ''
+            i = 0
+            n = len(self)
+            while i < n:
+                c = self[i]
+                i += 1
+                if c in StringLiteral.QUOTES and quote in (None, c):
+                    quote = c if quote is None else None
+                elif c == '\\' and quote != "'":
+                    escapable = quote is None or self[i:i + 1] in ('"', '\\')
+                    if escapable:
                         self.escape = True
                         if i < n:
                             c = self[i]
                             i += 1
-                            self.string += c
                         else:
                             raise Exception(f'string literal terminated by lone escape: {self}')
-                    else:
-                        self.string += c
+                    self.string += c
+                else:
+                    self.string += c
+            self.unterminated_quote = quote
-- 
2.43.0


From e8036637b9bce0ba54e11baa0f65f5752159aef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:50 +0000
Subject: [PATCH 26/50] fix: illegal arguments are reported before files,
 reservoirs and variables are changed, and without breaking the session

---
 marcel/core.py       |  8 ++++----
 marcel/op/expand.py  |  1 +
 marcel/op/store.py   | 19 +++++++++++++++++--
 marcel/op/timer.py   |  7 +++++--
 marcel/op/window.py  | 10 +++++-----
 marcel/op/write.py   | 11 +++++++++--
 marcel/picklefile.py | 22 +++++++++++++++-------
 marcel/pipeline.py   | 20 ++++++++++++++------
 8 files changed, 70 insertions(+), 28 deletions(-)

diff --git a/marcel/core.py b/marcel/core.py
index cac5bc2..4b4a136 100644
--- a/marcel/core.py
+++ b/marcel/core.py
@@ -217,12 +217,12 @@ class Op(AbstractOp):
             arg.ensure_compiled(globals)
 
 
-    @staticmethod
-    def check_arg(ok, arg, message):
+    @classmethod
+    def check_arg(cls, ok, arg, message):
         if not ok:
-            cause = (f'Incorrect usage of {Op.op_name()}: {message}'
+            cause = (f'Incorrect usage of {cls.op_name()}: {message}'
                      if arg is None else
-                     f'Incorrect value for {arg} argument of {Op.op_name()}: {message}')
+                     f'Incorrect value for {arg} argument of {cls.op_name()}: {message}')
             raise marcel.exception.KillCommandException(cause)
 
     # For use by this class
diff --git a/marcel/op/expand.py b/marcel/op/expand.py
index d8d1aaf..9e0d242 100644
--- a/marcel/op/expand.py
+++ b/marcel/op/expand.py
@@ -96,6 +96,7 @@ class Expand(marcel.core.Op):
 
     def setup(self, env):
         self.position = self.eval_function(env, 'position_arg', int)
+        self.check_arg(self.position is None or self.position >= 0, 'position', 'must be a non-negative int')
         self.expander = SequenceExpander(self) if self.position is None else ComponentExpander(self)
 
     def receive(self, env, x):
diff --git a/marcel/op/store.py b/marcel/op/store.py
index 056ff9d..638d4ba 100644
--- a/marcel/op/store.py
+++ b/marcel/op/store.py
@@ -84,6 +84,7 @@ class Store(marcel.core.Op):
         self.append = None
         self.reservoir = None
         self.writer = None
+        self.opened = False
 
     def __repr__(self):
         return f'store({self.var}, append)' if self.append else f'store({self.var})'
@@ -105,8 +106,6 @@ class Store(marcel.core.Op):
                 if type(value) is not Reservoir:
                     value = Reservoir(self.var, env.locations.data_ws_res(env.workspace, self.var))
                 self.reservoir = value
-                env.setvar(self.var, value)
-                env.mark_possibly_changed(self.var)
             else:
                 raise marcel.exception.KillCommandException(f'{self.var} is not a Python identifier.')
         elif self.var is None:
@@ -120,11 +119,27 @@ class Store(marcel.core.Op):
             raise marcel.exception.KillCommandException(f'store {self.var}: Pickle file already in use')
 
     def receive(self, env, x):
+        self.ensure_open(env)
         try:
             self.writer.write(x)
         except:
             self.writer.close()
             raise
 
+    def flush(self, env):
+        self.ensure_open(env)
+        super().flush(env)
+
     def cleanup(self):
         self.writer.close()
+
+    # For use by this class
+
+    # Nothing is changed by setup, because the setup of a later op may fail.
+    def ensure_open(self, env):
+        if not self.opened:
+            self.writer.ensure_open()
+            if isinstance(self.var, str):
+                env.setvar(self.var, self.reservoir)
+                env.mark_possibly_changed(self.var)
+            self.opened = True
diff --git a/marcel/op/timer.py b/marcel/op/timer.py
index f583f00..657a963 100644
--- a/marcel/op/timer.py
+++ b/marcel/op/timer.py
@@ -39,7 +39,7 @@ class TimerArgsParser(marcel.argsparser.ArgsParser):
 
     def __init__(self, env):
         super().__init__('timer', env)
-        self.add_anon('interval', convert=self.to_float)
+        self.add_anon('interval', convert=self.to_float, target='interval_arg')
         self.validate()
 
 
@@ -48,6 +48,7 @@ class Timer(marcel.core.Op):
     def __init__(self):
         super().__init__()
         self.metronome = None
+        self.interval_arg = None
         self.interval = None
         self.lock = None
         self.done = False
@@ -59,6 +60,8 @@ class Timer(marcel.core.Op):
     # AbstractOp
     
     def setup(self, env):
+        self.interval = self.eval_function(env, 'interval_arg', float, int)
+        self.check_arg(self.interval >= 0, 'interval', 'must be non-negative')
         self.lock = threading.Condition()
         self.metronome = Metronome(self)
 
@@ -94,7 +97,7 @@ class Timer(marcel.core.Op):
     def register_tick(self):
         self.lock.acquire()
         self.now = time.time()
-        self.lock.notifyAll()
+        self.lock.notify_all()
         self.lock.release()
 
 
diff --git a/marcel/op/window.py b/marcel/op/window.py
index 845939d..fe16bde 100644
--- a/marcel/op/window.py
+++ b/marcel/op/window.py
@@ -147,14 +147,14 @@ class Window(marcel.core.Op):
         self.disjoint = self.eval_function(env, 'disjoint_arg', int)
         if self.predicate:
             self.window_generator = PredicateWindow(self)
-        elif self.overlap:
-            super().check_arg(type(self.overlap) is int and self.overlap >= 0,
-                              'overlap', 'must be a non-negative int')
+        elif self.overlap is not None:
+            self.check_arg(type(self.overlap) is int and self.overlap > 0,
+                           'overlap', 'must be a positive int')
             self.window_generator = OverlapWindow(self)
             self.n = self.overlap
         else:  # disjoint
-            super().check_arg(type(self.disjoint) is int and self.disjoint >= 0,
-                              'disjoint', 'must be a non-negative int')
+            self.check_arg(type(self.disjoint) is int and self.disjoint >= 0,
+                           'disjoint', 'must be a non-negative int')
             self.window_generator = DisjointWindow(self)
             self.n = self.disjoint
         if self.predicate:
diff --git a/marcel/op/write.py b/marcel/op/write.py
index 25fb2a0..43eb855 100644
--- a/marcel/op/write.py
+++ b/marcel/op/write.py
@@ -219,9 +219,13 @@ class TextWriter(Writer):
         super().__init__(op)
         self._output = None
 
+    def flush(self, env):
+        # Creates or truncates the file, if there was nothing to write.
+        self.output()
+
     def cleanup(self):
-        if self.output() != sys.stdout:
-            self.output().close()
+        if self._output is not None and self._output != sys.stdout:
+            self._output.close()
 
     # Errors are not subject to formatting specifications.
     def receive_error(self, env, error):
@@ -313,5 +317,8 @@ class PickleWriter(Writer):
     def receive(self, env, x):
         self.writer.write(x)
 
+    def flush(self, env):
+        self.writer.ensure_open()
+
     def cleanup(self):
         self.writer.close()
diff --git a/marcel/picklefile.py b/marcel/picklefile.py
index f832698..c915f1b 100644
--- a/marcel/picklefile.py
+++ b/marcel/picklefile.py
@@ -102,8 +102,9 @@ class Access(object):
         self.owner.close()
 
     def close_file(self):
-        self.file.close()
-        self.file = None
+        if self.file is not None:
+            self.file.close()
+            self.file = None
 
 
 class Reader(Access):
@@ -140,13 +141,20 @@ class Writer(Access):
     def __init__(self, owner, append):
         super().__init__(owner)
         self.append = append
-        owner.path.touch(mode=0o600)
-        self.file = open(owner.path, 'ab' if self.append else 'wb')
-        self.pickler = dill.Pickler(self.file)
-        self.last_flush = time.time()
+        self.pickler = None
+        self.last_flush = None
+
+    # The file is opened (and truncated, unless appending) by the first write, or by an explicit call. Until then,
+    # the file is unchanged, in case the command that will write never gets that far.
+    def ensure_open(self):
+        if self.file is None:
+            self.owner.path.touch(mode=0o600)
+            self.file = open(self.owner.path, 'ab' if self.append else 'wb')
+            self.pickler = dill.Pickler(self.file)
+            self.last_flush = time.time()
 
     def write(self, x):
-        assert self.file is not None
+        self.ensure_open()
         try:
             self.pickler.dump(x)
             now = time.time()
diff --git a/marcel/pipeline.py b/marcel/pipeline.py
index f7241b7..9ee8e28 100644
--- a/marcel/pipeline.py
+++ b/marcel/pipeline.py
@@ -56,12 +56,20 @@ class PipelineExecutable(object):
             if prev_op:
                 prev_op.receiver = op
             prev_op = op
-        for op in self.ops:
-            if env.trace.is_enabled():
-                env.trace.write(op, 'SETUP')
-            op.setup(env)
-        for op in self.ops:
-            op.customize_pipelines(env)
+        ready = []
+        try:
+            for op in self.ops:
+                if env.trace.is_enabled():
+                    env.trace.write(op, 'SETUP')
+                op.setup(env)
+                ready.append(op)
+            for op in self.ops:
+                op.customize_pipelines(env)
+        except BaseException:
+            # This pipeline isn't going to run, so release what has been set up so far.
+            for op in ready:
+                op.cleanup()
+            raise
 
     def run(self, env):
         if env.trace.is_enabled():
-- 
2.43.0


From af5bc3581525c45785ef10c564fc9d59a0e0479b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:36 +0000
Subject: [PATCH 27/50] fix: filter --compare must be a function, quoted
 numbers are numbers, job operators accept flags, pipelines with parameters
 are rejected where no arguments are provided, arguments of all operators are
 compiled in other processes

---
 marcel/argsparser.py    | 12 ++++++------
 marcel/core.py          | 27 ++++++++++++++++++++++++++-
 marcel/op/case.py       |  1 +
 marcel/op/difference.py |  1 +
 marcel/op/filter.py     |  3 ++-
 marcel/op/gen.py        |  4 ----
 marcel/op/intersect.py  |  1 +
 marcel/op/jobop.py      |  2 +-
 marcel/op/join.py       |  1 +
 marcel/op/read.py       |  2 +-
 marcel/op/union.py      |  1 +
 marcel/op/window.py     |  4 ----
 12 files changed, 41 insertions(+), 18 deletions(-)

diff --git a/marcel/argsparser.py b/marcel/argsparser.py
index 8cc70d4..e9d5ec2 100644
--- a/marcel/argsparser.py
+++ b/marcel/argsparser.py
@@ -178,7 +178,7 @@ class ArgsParser:
             return x
         if isinstance(x, str):
             try:
-                return int(x)
+                return int(marcel.util.string_value(x))
             except ValueError:
                 raise ArgsError(arg.op_name, f'{arg.name} cannot be converted to int: {x}')
         raise ArgsError(arg.op_name, f'{arg.name} must be an int: {x}')
@@ -186,9 +186,9 @@ class ArgsParser:
     def to_float(self, arg, x):
         if type(x) is float or callable(x):
             return x
-        if type(x) is int or str:
+        if isinstance(x, (int, str)):
             try:
-                return float(x)
+                return float(marcel.util.string_value(x) if isinstance(x, str) else x)
             except ValueError:
                 raise ArgsError(arg.op_name, f'{arg.name} cannot be converted to float: {x}')
         raise ArgsError(arg.op_name, f'{arg.name} must be a string: {x}')
@@ -197,7 +197,7 @@ class ArgsParser:
         if type(x) is bool or callable(x):
             return x
         if isinstance(x, str):
-            return x in ('T', 't', 'True', 'true')
+            return marcel.util.string_value(x) in ('T', 't', 'True', 'true')
         raise ArgsError(arg.op_name, f'{arg.name} must be a string: {x}')
 
     def check_str(self, arg, x):
@@ -234,10 +234,10 @@ class ArgsParser:
             return x
         elif isinstance(x, str):
             try:
-                return int(x)
+                return int(marcel.util.string_value(x))
             except ValueError:
                 # Could be a cluster name
-                cluster = self.env.cluster(x)
+                cluster = self.env.cluster(marcel.util.string_value(x))
                 return cluster if cluster else marcel.util.string_value(x)
         elif marcel.util.iterable(x):
             return x
diff --git a/marcel/core.py b/marcel/core.py
index 4b4a136..c5195d0 100644
--- a/marcel/core.py
+++ b/marcel/core.py
@@ -74,8 +74,27 @@ class Op(AbstractOp):
     def customize_pipelines(self, env):
         pass
 
+    # Functions are transmitted to other processes as source. This default implementation takes care of
+    # all the args of an op, including pipelines.
     def ensure_functions_compiled(self, env):
-        pass
+        import marcel.pipeline
+
+        def ensure_compiled(x):
+            if isinstance(x, marcel.pipeline.Pipeline):
+                # A PipelineFunction has no executable until it is run.
+                if x.executable is not None:
+                    x.ensure_functions_compiled(env)
+            elif type(x) in (tuple, list):
+                for e in x:
+                    ensure_compiled(e)
+            elif type(x) is dict:
+                for e in x.values():
+                    ensure_compiled(e)
+            else:
+                self.ensure_function_compiled(x, env)
+
+        for arg in list(self.__dict__.values()):
+            ensure_compiled(arg)
 
     # For use by subclasses
 
@@ -225,6 +244,12 @@ class Op(AbstractOp):
                      f'Incorrect value for {arg} argument of {cls.op_name()}: {message}')
             raise marcel.exception.KillCommandException(cause)
 
+    # For ops that run a pipeline without providing arguments.
+    def check_no_parameters(self, pipeline):
+        params = pipeline.parameters()
+        self.check_arg(len(params) == 0, 'pipeline',
+                       f'the pipeline must not have parameters: {", ".join(params)}')
+
     # For use by this class
 
     def error(self, input, message):
diff --git a/marcel/op/case.py b/marcel/op/case.py
index e795a41..36cd32a 100644
--- a/marcel/op/case.py
+++ b/marcel/op/case.py
@@ -94,6 +94,7 @@ class Case(marcel.core.Op):
         def setup_pipeline(pipeline):
             # Route output before setup, so that ops in the pipeline that customize their own pipelines
             # (e.g. union) know where output goes.
+            self.check_no_parameters(pipeline)
             pipeline = pipeline.append_immutable(marcel.op.redirect.Redirect(self))
             pipeline.setup(env)
             return pipeline
diff --git a/marcel/op/difference.py b/marcel/op/difference.py
index 0d6e210..4ba8fdf 100644
--- a/marcel/op/difference.py
+++ b/marcel/op/difference.py
@@ -76,6 +76,7 @@ class Difference(marcel.core.Op):
     # AbstractOp
 
     def setup(self, env):
+        self.check_no_parameters(self.pipeline)
         self.first = True
 
     def receive(self, env, x):
diff --git a/marcel/op/filter.py b/marcel/op/filter.py
index e105db0..e771d8e 100644
--- a/marcel/op/filter.py
+++ b/marcel/op/filter.py
@@ -80,7 +80,7 @@ class FilterArgsParser(marcel.argsparser.ArgsParser):
         super().__init__('filter', env)
         self.add_flag_no_value('keep', '-k', '--keep')
         self.add_flag_no_value('discard', '-d', '--discard')
-        self.add_flag_one_value('compare', '-c', '--compare')
+        self.add_flag_one_value('compare', '-c', '--compare', convert=self.function)
         self.add_anon('pipeline', convert=self.check_pipeline)
         self.at_most_one('keep', 'discard')
         self.validate()
@@ -105,6 +105,7 @@ class Filter(marcel.core.Op):
 
     def setup(self, env):
         assert isinstance(self.pipeline, marcel.pipeline.Pipeline), type(self.pipeline)
+        self.check_no_parameters(self.pipeline)
         self.right = None
         # self.discard is just for arg processing. self.keep controls execution.
         # This works if keep is already true, and if both keep and discard are false,
diff --git a/marcel/op/gen.py b/marcel/op/gen.py
index 82bcafc..b88c41b 100644
--- a/marcel/op/gen.py
+++ b/marcel/op/gen.py
@@ -104,7 +104,3 @@ class Gen(marcel.core.Op):
 
     def must_be_first_in_pipeline(self):
         return True
-
-    def ensure_functions_compiled(self, env):
-        self.ensure_function_compiled(self.count_arg, env)
-        self.ensure_function_compiled(self.start_arg, env)
\ No newline at end of file
diff --git a/marcel/op/intersect.py b/marcel/op/intersect.py
index d52bceb..1e0f0ac 100644
--- a/marcel/op/intersect.py
+++ b/marcel/op/intersect.py
@@ -68,6 +68,7 @@ class Intersect(marcel.core.Op):
     def setup(self, env):
         for pipeline in self.pipelines:
             assert isinstance(pipeline, marcel.pipeline.Pipeline), type(pipeline)
+            self.check_no_parameters(pipeline)
 
     def receive(self, env, x):
         self.ensure_args_consumed(env)
diff --git a/marcel/op/jobop.py b/marcel/op/jobop.py
index 8eabc4d..52df1af 100644
--- a/marcel/op/jobop.py
+++ b/marcel/op/jobop.py
@@ -25,7 +25,7 @@ class JobOpArgsParser(marcel.argsparser.ArgsParser):
         super().__init__(op_name, env)
         self.add_flag_one_value('jid', '-j', '--job', convert=self.str_to_int)
         self.add_flag_one_value('pid', '-p', '--process', convert=self.str_to_int)
-        self.add_anon('job_id', convert=self.str_to_int)
+        self.add_anon('job_id', convert=self.str_to_int, default=None)
         self.exactly_one('jid', 'pid', 'job_id')
         self.validate()
 
diff --git a/marcel/op/join.py b/marcel/op/join.py
index 071dbbe..26f7f38 100644
--- a/marcel/op/join.py
+++ b/marcel/op/join.py
@@ -103,6 +103,7 @@ class Join(marcel.core.Op):
 
     def setup(self, env):
         assert isinstance(self.pipeline, marcel.pipeline.Pipeline), type(self.pipeline)
+        self.check_no_parameters(self.pipeline)
         self.first = True
 
     def receive(self, env, x):
diff --git a/marcel/op/read.py b/marcel/op/read.py
index e8f7648..acd6dab 100644
--- a/marcel/op/read.py
+++ b/marcel/op/read.py
@@ -200,7 +200,7 @@ class Read(marcel.op.filenamesop.FilenamesOp):
         if self.filenames:
             return super().run(env)
         else:
-            return self.receive(env, None)
+            raise marcel.exception.KillCommandException('read must be given filenames, or a stream of Files.')
 
     def receive(self, env, x):
         if x is None:
diff --git a/marcel/op/union.py b/marcel/op/union.py
index 657e9bc..daade6c 100644
--- a/marcel/op/union.py
+++ b/marcel/op/union.py
@@ -65,6 +65,7 @@ class Union(marcel.core.Op):
     def setup(self, env):
         for pipeline in self.pipelines:
             assert isinstance(pipeline, marcel.pipeline.Pipeline), type(pipeline)
+            self.check_no_parameters(pipeline)
 
     # Op
 
diff --git a/marcel/op/window.py b/marcel/op/window.py
index fe16bde..0ffb616 100644
--- a/marcel/op/window.py
+++ b/marcel/op/window.py
@@ -172,10 +172,6 @@ class Window(marcel.core.Op):
     def must_not_be_first_in_pipeline(self):
         return True
 
-    def ensure_functions_compiled(self, env):
-        if self.predicate:
-            self.ensure_function_compiled(self.predicate, env)
-
 
 class WindowBase:
 
-- 
2.43.0


From cdfc7849ed55d3bbefcd8016f0739670e8c2b4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:35 +0000
Subject: [PATCH 28/50] fix: unexpected exceptions do not end the session, and
 aborted commands leave no pipeline scopes

---
 marcel/main.py       | 8 ++++++++
 marcel/op/join.py    | 5 ++++-
 marcel/parser.py     | 2 ++
 marcel/picklefile.py | 8 ++++++--
 4 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/marcel/main.py b/marcel/main.py
index d79147b..1641bd6 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -109,6 +109,7 @@ class MainScript(Main):
     def parse_and_run_command(self, text):
         if text:
             env = self.env
+            n_scopes = env.vars().n_scopes()
             try:
                 env.workspace.namespace.set_env(env)
                 parser = marcel.parser.Parser(text, env)
@@ -124,6 +125,13 @@ class MainScript(Main):
             except marcel.exception.KillAndResumeException:
                 # Error handler printed the error
                 pass
+            except Exception as e:
+                # Unexpected, but no reason to prevent the execution of more commands.
+                marcel.util.print_to_stderr(env, f'{type(e).__name__}: {e}')
+            finally:
+                # An interrupted command may have left pipeline scopes behind.
+                while env.vars().n_scopes() > n_scopes:
+                    env.vars().pop_scope()
 
     # MainScript
 
diff --git a/marcel/op/join.py b/marcel/op/join.py
index 26f7f38..bf2b2f5 100644
--- a/marcel/op/join.py
+++ b/marcel/op/join.py
@@ -111,6 +111,8 @@ class Join(marcel.core.Op):
             self.pipeline.run_pipeline(env, {})
             self.first = False
         x = tuple(x)
+        if len(x) == 0:
+            self.fatal_error(env, x, 'Input too short.')
         join_value = x[0]
         try:
             match = self.inner.get(join_value, None)
@@ -132,8 +134,9 @@ class Join(marcel.core.Op):
 
     def customize_pipelines(self, env):
         def load_inner(*x):
-            assert len(x) > 0
             x = tuple(x)
+            if len(x) == 0:
+                self.fatal_error(env, x, 'Input too short.')
             join_value = x[0]
             try:
                 match = self.inner.get(join_value, None)
diff --git a/marcel/parser.py b/marcel/parser.py
index 5fa860e..3198791 100644
--- a/marcel/parser.py
+++ b/marcel/parser.py
@@ -1039,6 +1039,8 @@ class Parser(object):
         return command
 
     def assignment(self, var):
+        if not var.isidentifier():
+            raise ParseError(f'Cannot assign to {var}, it is not a valid identifier.')
         self.op_arg_context.reset()
         self.next_token(Assign)
         arg = self.arg()
diff --git a/marcel/picklefile.py b/marcel/picklefile.py
index c915f1b..93e44a0 100644
--- a/marcel/picklefile.py
+++ b/marcel/picklefile.py
@@ -18,9 +18,13 @@ import pathlib
 import os
 import time
 
+import marcel.exception
 
-class PickleFileUsageError(BaseException):
-    pass
+
+class PickleFileUsageError(marcel.exception.KillCommandException):
+
+    def __init__(self, picklefile):
+        super().__init__(f'Already in use: {picklefile}')
 
 
 class PickleFile:
-- 
2.43.0


From 08a7077e905fb223939ba5303eb555d4114c4b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:42 +0000
Subject: [PATCH 29/50] fix: reading a function that was written by marcel does
 not replace the namespace of the session; pipeline parameters must be
 distinct identifiers

---
 marcel/env.py        | 9 +++++++++
 marcel/parser.py     | 5 +++++
 marcel/picklefile.py | 1 -
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/marcel/env.py b/marcel/env.py
index f07fad7..18cca8d 100644
--- a/marcel/env.py
+++ b/marcel/env.py
@@ -73,6 +73,9 @@ class CheckNestingNoop(object):
 
 class Environment(object):
 
+    # The environment most recently created by this process
+    current = None
+
     def __init__(self, usage, workspace=None, trace=None):
         if workspace is None:
             from marcel.object.workspace import Workspace
@@ -107,6 +110,11 @@ class Environment(object):
 
     def __setstate__(self, state):
         from marcel.object.workspace import Workspace
+        if Environment.current is not None:
+            # This process already has an environment, e.g. self is reachable from a function that was read
+            # from a file. Creating another environment would replace the namespace of the open workspace.
+            self.__dict__ = Environment.current.__dict__
+            return
         usage = state['usage']
         trace = state['trace']
         workspace_name = state['workspace']
@@ -265,6 +273,7 @@ class Environment(object):
         assert (usage == 'api') == (globals is not None), f'usage: {usage}, globals: {"..." if globals else None}'
         if globals is not None:
             workspace.namespace.update_permanent(globals)
+        Environment.current = env
         return env
 
     # Vars that are not mutable even during startup. I.e., startup script can't modify them.
diff --git a/marcel/parser.py b/marcel/parser.py
index 3198791..12a7f45 100644
--- a/marcel/parser.py
+++ b/marcel/parser.py
@@ -1229,6 +1229,11 @@ class Parser(object):
         assert len(vars) > 0
         if not self.token.is_colon():
             raise SyntaxError(self.token, f'Expected comma or colon, found {self.token}')
+        for i, var in enumerate(vars):
+            if not var.isidentifier():
+                raise ParseError(f'Pipeline parameter {var} is not a valid identifier.')
+            if var in vars[:i]:
+                raise ParseError(f'Pipeline parameter {var} is repeated.')
         return vars
 
     # Looks for a sequence of tokens matching the types listed in expected_token_types.
diff --git a/marcel/picklefile.py b/marcel/picklefile.py
index 93e44a0..ef4c08b 100644
--- a/marcel/picklefile.py
+++ b/marcel/picklefile.py
@@ -166,6 +166,5 @@ class Writer(Access):
                 self.file.flush()
                 self.last_flush = now
         except:
-            print(f'{os.getpid()}: Closing writer')
             self.close()
             raise
-- 
2.43.0


From 6ef03f845f6bba2c451f4210b16822e951acb8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:38 +0000
Subject: [PATCH 30/50] fix: host executables get their input and arguments
 intact, their standard error is not taken for output, and aborted commands
 leave no process

---
 marcel/op/bash.py | 232 +++++++++++++++++++++++++++-------------------
 1 file changed, 135 insertions(+), 97 deletions(-)

diff --git a/marcel/op/bash.py b/marcel/op/bash.py
index 0c3fed8..9c84c90 100644
--- a/marcel/op/bash.py
+++ b/marcel/op/bash.py
@@ -15,8 +15,8 @@
 
 import os
 import selectors
+import signal
 import subprocess
-import threading
 
 import marcel.argsparser
 import marcel.core
@@ -61,13 +61,6 @@ The lines of {r:/etc/passwd} are read by the host executable {r:cat}, and the st
 '''
 
 
-# About the use of preexec_fn in Popen:
-# See https://pymotw.com/2/subprocess/#process-groups-sessions for more information.
-
-
-def dump(x):
-    print(f'{threading.current_thread().name}: {x}', flush=True)
-
 def bash(*bash_args, interactive=False):
     args = ['--interactive'] if interactive else []
     args.extend(bash_args)
@@ -79,9 +72,13 @@ class BashArgsParser(marcel.argsparser.ArgsParser):
     def __init__(self, env):
         super().__init__('bash', env)
         self.add_flag_no_value('interactive', '-i', '--interactive')
-        self.add_anon_list('args', convert=self.check_str, target='args_arg')
+        self.add_anon_list('args', convert=self.check_arg, target='args_arg')
         self.validate()
 
+    # Keep string literals as written, until it is known what bash will do with them.
+    def check_arg(self, arg, x):
+        return x if isinstance(x, str) else self.check_str(arg, x)
+
 
 class Bash(marcel.core.Op):
 
@@ -102,7 +99,13 @@ class Bash(marcel.core.Op):
             return ''if command is None or len(command) == 0 else command.split()[0]
 
         self.args = self.eval_function(env, 'args_arg')
-        self.command = ' '.join([str(x).strip() for x in self.args])
+        # One string is a command, as described by its value. Otherwise, bash interprets the quotes and escapes
+        # of each argument.
+        self.command = (str(marcel.util.string_value(self.args[0])
+                            if len(self.args) == 1 and isinstance(self.args[0], str) else
+                            self.args[0])
+                        if len(self.args) == 1 else
+                        ' '.join([str(x) for x in self.args]))
         # Try to extract the executable to see if it is interactive.
         interactive = self.interactive or env.is_interactive_executable(executable(self.command))
         self.escape = (BashShell(self) if len(self.command) == 0 else
@@ -148,128 +151,163 @@ class Escape:
         return self.op.command
 
 
+# Runs an executable whose input and output are streams of the pipeline. Output is passed on while waiting to be able
+# to provide input, so neither side has to wait for the other forever.
 class NonInteractive(Escape):
 
     def __init__(self, op):
         super().__init__(op)
         self.process = None
-        self.output_handler = None
-        self.lock = threading.Lock()
+        self.selector = None
+        self.input = b''
+        # Output files of the process that have not reached EOF. file -> incomplete line
+        self.output = {}
 
     def receive(self, env, x):
-        self.ensure_command_running(env)
+        self.ensure_command_running()
         if x is not None:
             if len(x) == 1:
                 x = x[0]
-            self.process.stdin.write(str(x))
-            self.process.stdin.write('\n')
-            self.process.stdin.flush()
+            self.input += os.fsencode(f'{self.op.call(env, str, x)}\n')
+            self.start_input()
+            while len(self.input) > 0:
+                self.transfer(env, None)
+            # Pass on output that is already there
+            while self.transfer(env, 0):
+                pass
 
     def flush(self, env):
-        self.process.stdin.close()
-        self.output_handler.join()
+        self.ensure_command_running()
+        self.end_input()
+        while len(self.output) > 0:
+            # A process left running in the background may have inherited the output files, so don't insist on EOF.
+            exited = self.process.poll() is not None
+            if not self.transfer(env, 0.1) and exited:
+                break
+        for file in list(self.output.keys()):
+            self.end_output(env, file)
+        self.process.wait()
 
     def cleanup(self):
-        self.shutdown()
+        if self.process:
+            process = self.process
+            self.process = None
+            if process.poll() is None:
+                # The command was aborted
+                try:
+                    os.killpg(process.pid, signal.SIGTERM)
+                except ProcessLookupError:
+                    pass
+            self.selector.close()
+            for file in (process.stdin, process.stdout, process.stderr):
+                try:
+                    file.close()
+                except OSError:
+                    pass
+            process.wait()
 
     # Implementation
 
-    def ensure_command_running(self, env):
+    def ensure_command_running(self):
         if self.process is None:
-            command = self.command()
-            self.process = subprocess.Popen(command,
+            # start_new_session: See https://pymotw.com/2/subprocess/#process-groups-sessions for more information.
+            self.process = subprocess.Popen(self.command(),
                                             shell=True,
                                             executable=self.bash,
+                                            bufsize=0,
                                             stdin=subprocess.PIPE,
                                             stdout=subprocess.PIPE,
                                             stderr=subprocess.PIPE,
-                                            universal_newlines=True,
-                                            preexec_fn=os.setsid)
-            self.output_handler = ProcessOutputHandler(env, self)
-            self.output_handler.start()
-
-    def shutdown(self):
-        while self.output_handler.is_alive():
-            self.output_handler.join(0.1)
-        self.lock.acquire()
+                                            start_new_session=True)
+            self.selector = selectors.DefaultSelector()
+            os.set_blocking(self.process.stdin.fileno(), False)
+            for file in (self.process.stdout, self.process.stderr):
+                self.selector.register(file, selectors.EVENT_READ)
+                self.output[file] = b''
+
+    # Move whatever input and output can be moved, waiting for up to timeout seconds (None: forever). Return False
+    # if nothing could be moved.
+    def transfer(self, env, timeout):
+        events = self.selector.select(timeout)
+        for key, _ in events:
+            if key.fileobj is self.process.stdin:
+                self.transfer_input()
+            else:
+                self.transfer_output(env, key.fileobj)
+        return len(events) > 0
+
+    def transfer_input(self):
         try:
-            if self.process:
-                self.process.wait()
-                self.process.stdout.close()
-                self.process.stderr.close()
-                self.process = None
-        finally:
-            self.lock.release()
+            n = os.write(self.process.stdin.fileno(), self.input)
+            self.input = self.input[n:]
+        except BlockingIOError:
+            pass
+        except BrokenPipeError:
+            # The executable doesn't want any more input
+            self.end_input()
+        if len(self.input) == 0 and not self.process.stdin.closed:
+            self.selector.unregister(self.process.stdin)
+
+    def transfer_output(self, env, file):
+        output = os.read(file.fileno(), 65536)
+        if len(output) == 0:
+            self.end_output(env, file)
+        else:
+            *lines, self.output[file] = (self.output[file] + output).split(b'\n')
+            for line in lines:
+                self.send(env, file, line)
+
+    def start_input(self):
+        if self.process.stdin.closed:
+            self.input = b''
+        elif self.process.stdin not in self.selector.get_map():
+            self.selector.register(self.process.stdin, selectors.EVENT_WRITE)
+
+    def end_input(self):
+        self.input = b''
+        if not self.process.stdin.closed:
+            if self.process.stdin in self.selector.get_map():
+                self.selector.unregister(self.process.stdin)
+            self.process.stdin.close()
+
+    def end_output(self, env, file):
+        self.selector.unregister(file)
+        line = self.output.pop(file)
+        if len(line) > 0:
+            self.send(env, file, line)
+
+    def send(self, env, file, line):
+        line = os.fsdecode(line)
+        if file is self.process.stdout:
+            self.op.send(env, line)
+        else:
+            self.op.non_fatal_error(env, error=marcel.object.error.Error(line))
 
 
 class Interactive(Escape):
 
-    def __init__(self, op):
-        super().__init__(op)
-        self.process = subprocess.Popen(self.command(),
-                                        shell=True,
-                                        executable=self.bash,
-                                        universal_newlines=True,
-                                        preexec_fn=os.setsid)
+    def receive(self, env, _):
+        raise marcel.exception.KillCommandException(
+            f'{self.command()}: An interactive executable cannot receive input from a pipe')
 
     def run(self, env):
-        self.process.wait()
-        if self.process.returncode != 0:
-            marcel.util.print_to_stderr(env, self.process.stderr)
+        run_interactive(env, self.command(), self.bash, start_new_session=True)
 
 
 class BashShell(Escape):
 
-    def __init__(self, op):
-        super().__init__(op)
-        self.process = subprocess.Popen('bash',
-                                        shell=True,
-                                        executable=self.bash,
-                                        universal_newlines=True)
-
     def receive(self, env, _):
-        self.process.wait()
-        if self.process.returncode != 0:
-            marcel.util.print_to_stderr(env, self.process.stderr)
+        raise marcel.exception.KillCommandException('An interactive shell cannot receive input from a pipe')
 
+    def run(self, env):
+        run_interactive(env, 'bash', self.bash, start_new_session=False)
 
-class ProcessOutputHandler(threading.Thread):
 
-    def __init__(self, env, owner):
-        super().__init__()
-        self.env = env
-        self.owner = owner
-
-    def run(self):
-        process = self.owner.process
-        op = self.owner.op
-        lock = self.owner.lock
-        sel = selectors.DefaultSelector()
-        sel.register(process.stdout, selectors.EVENT_READ)
-        sel.register(process.stderr, selectors.EVENT_READ)
-        while True:
-            events = sel.select(timeout=0.1)
-            lock.acquire()
-            try:
-                if not events and process.poll() is not None:
-                    break
-                for key, _ in events:
-                    stream = key.fileobj
-                    line = stream.readline()
-                    if not line:
-                        sel.unregister(key.fileobj)
-                    else:
-                        output = ProcessOutputHandler.normalize_output(line)
-                        if stream is process.stdout:
-                            op.send(self.env, output)
-                        elif stream is process.stderr:
-                            op.send(self.env, marcel.object.error.Error(output))
-            finally:
-                lock.release()
-        process.wait()
-
-    @staticmethod
-    def normalize_output(x):
-        if x[-1] == '\n':
-            x = x[:-1]
-        return x
+def run_interactive(env, command, bash, start_new_session):
+    process = subprocess.Popen(command,
+                               shell=True,
+                               executable=bash,
+                               start_new_session=start_new_session)
+    process.wait()
+    if process.returncode != 0:
+        marcel.util.print_to_stderr(env, f'{command}: Exit status {process.returncode}')
-- 
2.43.0


From 7b26b52309c65502e137e99534461a4178d13f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:13 +0000
Subject: [PATCH 31/50] fix: arguments of executables are never taken for flags
 of bash

---
 marcel/argsparser.py | 14 +++++++++-----
 marcel/op/bash.py    |  2 +-
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/marcel/argsparser.py b/marcel/argsparser.py
index e9d5ec2..f072362 100644
--- a/marcel/argsparser.py
+++ b/marcel/argsparser.py
@@ -109,8 +109,9 @@ class Anon(Arg):
 
 class AnonList(Arg):
 
-    def __init__(self, op_name, name, convert, target=None):
+    def __init__(self, op_name, name, convert, target=None, verbatim=False):
         super().__init__(op_name, name, convert, target)
+        self.verbatim = verbatim
 
 
 # ----------------------------------------------------------------------------------------------------------------------
@@ -143,8 +144,9 @@ class ArgsParser:
     def add_anon(self, name, convert=None, default=NO_DEFAULT, target=None):
         self.anon_args.append(Anon(self.op_name, name, convert, default, target))
 
-    def add_anon_list(self, name, convert=None, target=None):
-        self.anon_list_arg = AnonList(self.op_name, name, convert, target)
+    # verbatim: After the first anonymous arg, everything belongs to the list, even if it looks like one of the flags.
+    def add_anon_list(self, name, convert=None, target=None, verbatim=False):
+        self.anon_list_arg = AnonList(self.op_name, name, convert, target, verbatim)
 
     def at_most_one(self, *names):
         self.at_most_one_names.append(self.name_set(names))
@@ -416,8 +418,10 @@ class ArgsParser:
         flag_ok = len(self.flag_args) > 0
         try:
             while True:
-                for arg in self.expand_arg(next(args_iterator)):
-                    flag_arg = self.find_flag(arg)
+                arg = next(args_iterator)
+                verbatim = self.anon_list_arg is not None and self.anon_list_arg.verbatim and len(anon_list) > 0
+                for arg in [arg] if verbatim else self.expand_arg(arg):
+                    flag_arg = None if verbatim else self.find_flag(arg)
                     if flag_arg:
                         # Flag
                         if flag_ok:
diff --git a/marcel/op/bash.py b/marcel/op/bash.py
index 9c84c90..67260fb 100644
--- a/marcel/op/bash.py
+++ b/marcel/op/bash.py
@@ -72,7 +72,7 @@ class BashArgsParser(marcel.argsparser.ArgsParser):
     def __init__(self, env):
         super().__init__('bash', env)
         self.add_flag_no_value('interactive', '-i', '--interactive')
-        self.add_anon_list('args', convert=self.check_arg, target='args_arg')
+        self.add_anon_list('args', convert=self.check_arg, target='args_arg', verbatim=True)
         self.validate()
 
     # Keep string literals as written, until it is known what bash will do with them.
-- 
2.43.0


From 41461dffe1392bad6e63dc996459b4dcf2ad68d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:00 +0000
Subject: [PATCH 32/50] fix: builtins and HOST, ITALIC of the environment have
 their own values and protection

---
 marcel/env.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marcel/env.py b/marcel/env.py
index 18cca8d..571e56a 100644
--- a/marcel/env.py
+++ b/marcel/env.py
@@ -93,7 +93,7 @@ class Environment(object):
                                            'Color',
                                            'DIRS',
                                            'HOME',
-                                           'HOST'
+                                           'HOST',
                                            'ITALIC',
                                            'MARCEL_VERSION',
                                            'pos',
@@ -163,7 +163,7 @@ class Environment(object):
         perm['set_db_default'] = lambda env: lambda db: env.workspace.setvar('DB_DEFAULT', db)
         for key, value in marcel.builtin.__dict__.items():
             if not key.startswith('_'):
-                perm[key] = lambda env: value
+                perm[key] = lambda env, value=value: value
         return perm
 
     def assign_permanent(self, var, value):
-- 
2.43.0


From 9e558c4af2031469c137ec41e8f0c9a23916d287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:00 +0000
Subject: [PATCH 33/50] fix: env VAR works for a variable whose value is None

---
 marcel/op/env.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/marcel/op/env.py b/marcel/op/env.py
index ef9ac87..73cbfe7 100644
--- a/marcel/op/env.py
+++ b/marcel/op/env.py
@@ -168,11 +168,10 @@ class EnvMarcel(EnvImpl):
 
     def one_var(self, env):
         var = self.op.var
-        value = env.getvar(var)
-        if value is None:
-            self.no_such_var(env, var)
+        if env.hasvar(var):
+            self.op.send(env, (var, env.getvar(var)))
         else:
-            self.op.send(env, (var, value))
+            self.no_such_var(env, var)
 
     def delete_var(self, env):
         try:
-- 
2.43.0


From bc3dc0bfb9c96f0df258358ab3fe1662eada45e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:00 +0000
Subject: [PATCH 34/50] fix: importing a submodule binds the name of the
 top-level package

---
 marcel/op/import.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/marcel/op/import.py b/marcel/op/import.py
index ce8b5c8..f50e514 100644
--- a/marcel/op/import.py
+++ b/marcel/op/import.py
@@ -92,9 +92,14 @@ class Import(marcel.core.Op):
         try:
             module = marcel.util.import_module(self.module)
             if self.symbol is None:
-                name = self.module if self.name is None else self.name
+                module_name = self.module
+                if self.name is None:
+                    # As in Python, importing a.b.c defines a.
+                    module_name = self.module.split('.')[0]
+                    module = marcel.util.import_module(module_name)
+                name = module_name if self.name is None else self.name
                 workspace.setvar_import(var=name,
-                                        module=self.module,
+                                        module=module_name,
                                         symbol=None,
                                         value=module)
             elif self.symbol == '*':
-- 
2.43.0


From 979502db14dc7d6472a52149d6f794dd906eb37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:00 +0000
Subject: [PATCH 35/50] fix: protected variables are protected from the command
 line, and pipelines changing variables or directories run in the main process

---
 marcel/core.py             | 15 +++++++++++++++
 marcel/main.py             |  6 +++++-
 marcel/object/workspace.py |  2 ++
 marcel/pipeline.py         | 22 ++++++++++++++++++++--
 4 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/marcel/core.py b/marcel/core.py
index c5195d0..01533d1 100644
--- a/marcel/core.py
+++ b/marcel/core.py
@@ -96,6 +96,21 @@ class Op(AbstractOp):
         for arg in list(self.__dict__.values()):
             ensure_compiled(arg)
 
+    # Generates the pipelines that are args of this op.
+    def pipelines(self):
+        import marcel.pipeline
+
+        def find_pipelines(x):
+            if isinstance(x, marcel.pipeline.Pipeline):
+                yield x
+            elif type(x) in (tuple, list):
+                for e in x:
+                    yield from find_pipelines(e)
+            elif type(x) is dict:
+                yield from find_pipelines(list(x.values()))
+
+        yield from find_pipelines(list(self.__dict__.values()))
+
     # For use by subclasses
 
     def call(self, env, function, *args, **kwargs):
diff --git a/marcel/main.py b/marcel/main.py
index 1641bd6..3163128 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -217,7 +217,7 @@ class MainInteractive(MainScript):
     # MainScript
 
     def execute_command(self, command, pipeline):
-        if self.testing or pipeline.run_in_main_process():
+        if self.testing or pipeline.run_in_main_process(self.env):
             command.execute(self.env)
         else:
             self.job_control.create_job(command)
@@ -303,6 +303,7 @@ def main_interactive_run():
         try:
             main = MainInteractive(old_main, env)
             main.run_startup_scripts()
+            env.enforce_var_immutability()
             return env, main
         except marcel.exception.StartupScriptException as e:
             if workspace.is_default():
@@ -343,6 +344,7 @@ def main_script_run(script):
     env = marcel.env.Environment.create(workspace=workspace)
     main = MainScript(env)
     main.run_startup_scripts()
+    env.enforce_var_immutability()
     for command in commands:
         try:
             main.parse_and_run_command(command)
@@ -354,6 +356,8 @@ def main_script_run(script):
             workspace = e.workspace_to_open
             env = marcel.env.Environment.create(workspace=workspace, trace=main.env.trace)
             main = MainScript(env)
+            main.run_startup_scripts()
+            env.enforce_var_immutability()
 
 
 def read_heredoc():
diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 7f4f9fc..9a325c3 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -251,6 +251,8 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
                 config_dict = self.config_script.run()
                 for var, value in config_dict.items():
                     self.namespace.assign_permanent(var, value)
+                # Startup scripts, which run next, may change these vars.
+                self._enforce_immutability = False
                 self.add_immutable_vars(config_dict.keys())
                 persistent_state = self.read_environment()
                 self.namespace.from_persistent_state(env, persistent_state)
diff --git a/marcel/pipeline.py b/marcel/pipeline.py
index 9ee8e28..4008e5f 100644
--- a/marcel/pipeline.py
+++ b/marcel/pipeline.py
@@ -363,8 +363,26 @@ class PipelineMarcel(Pipeline):
 
     # PipelineMarcel
 
-    def run_in_main_process(self):
-        return self.executable.first_op().run_in_main_process()
+    # A pipeline whose first op has to be run in the main process is run there. So is a pipeline that invokes such
+    # a pipeline, stored in a variable or given as an argument, except that what map evaluates there can be evaluated
+    # anywhere.
+    def run_in_main_process(self, env):
+        return (self.executable.first_op().run_in_main_process() or
+                self.invokes(env, lambda op: op.run_in_main_process() and op.op_name() != 'map', set()))
+
+    # Indicates whether this pipeline invokes an op for which condition is true.
+    def invokes(self, env, condition, visited):
+        for op in self.executable.ops:
+            if condition(op):
+                return True
+            pipelines = list(op.pipelines())
+            if op.op_name() == 'runpipeline' and op.var not in visited:
+                visited.add(op.var)
+                pipelines.append(env.getvar(op.var))
+            if any(type(pipeline) is PipelineMarcel and pipeline.invokes(env, condition, visited)
+                   for pipeline in pipelines):
+                return True
+        return False
 
 
 # A pipeline created throught the API, running code invoking ops, e.g. gen(3) | map(lambda: ...).
-- 
2.43.0


From 7ad4a110a635c1a8f8b5f2eb516821420ef643c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:53 +0000
Subject: [PATCH 36/50] fix: changing or deleting a variable does not delete a
 reservoir that another variable still has

---
 marcel/object/workspace.py | 12 +++++++++---
 marcel/op/store.py         | 16 +++++++++++++---
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 9a325c3..805c9cc 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -136,12 +136,13 @@ class VarHandler(object):
         current_value = self.namespace.get(var, None)
         self.vars_written.add(var)
         if type(current_value) is marcel.reservoir.Reservoir and value != current_value:
-            current_value.ensure_deleted()
+            self.ensure_reservoir_deleted(var, current_value)
         self.namespace.assign(var, value, source)
 
     def setvar_import(self, var, module, symbol, value):
         assert var is not None
         self.check_mutability(var)
+        self.ensure_reservoir_deleted(var, self.namespace.get(var, None))
         self.namespace.assign_import(var, module, symbol, value)
 
     def delvar(self, var):
@@ -150,10 +151,9 @@ class VarHandler(object):
         if var in self.namespace:
             self.vars_written.discard(var)
             value = self.namespace[var]
+            self.ensure_reservoir_deleted(var, value)
             # Deletes from the current scope as well as from the namespace
             del self.namespace[var]
-            if type(value) is marcel.reservoir.Reservoir:
-                value.ensure_deleted()
             return value
         else:
             raise KeyError(var)
@@ -196,6 +196,12 @@ class VarHandler(object):
                 f'so it cannot be modified or deleted programmatically. '
                 f'Edit the startup script instead.')
 
+    # The value of var, which is about to change, is a reservoir to be deleted unless another variable has it too.
+    def ensure_reservoir_deleted(self, var, value):
+        if (type(value) is marcel.reservoir.Reservoir and
+                not any(other == value for other_var, other in self.reservoirs() if other_var != var)):
+            value.ensure_deleted()
+
     # Returns (var, value), where type(value) is Reservoir.
     def reservoirs(self):
         reservoirs = []
diff --git a/marcel/op/store.py b/marcel/op/store.py
index 638d4ba..f74f2ad 100644
--- a/marcel/op/store.py
+++ b/marcel/op/store.py
@@ -103,9 +103,7 @@ class Store(marcel.core.Op):
                     raise marcel.exception.KillCommandException(
                         f'A stream cannot be appended to {self.var} '
                         f'because it stores a value of type {type(value)}.')
-                if type(value) is not Reservoir:
-                    value = Reservoir(self.var, env.locations.data_ws_res(env.workspace, self.var))
-                self.reservoir = value
+                self.reservoir = value if type(value) is Reservoir else self.new_reservoir(env)
             else:
                 raise marcel.exception.KillCommandException(f'{self.var} is not a Python identifier.')
         elif self.var is None:
@@ -135,6 +133,18 @@ class Store(marcel.core.Op):
 
     # For use by this class
 
+    # The file named for the variable may belong to another variable, to which the reservoir was assigned.
+    def new_reservoir(self, env):
+        reservoirs = [reservoir for var, reservoir in env.workspace.reservoirs()]
+        name = self.var
+        n = 0
+        while True:
+            reservoir = Reservoir(self.var, env.locations.data_ws_res(env.workspace, name))
+            if reservoir not in reservoirs:
+                return reservoir
+            n += 1
+            name = f'{self.var}-{n}'
+
     # Nothing is changed by setup, because the setup of a later op may fail.
     def ensure_open(self, env):
         if not self.opened:
-- 
2.43.0


From 2bafa6d238e1deda5f92e5511fb807f3cfef6444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:49 +0000
Subject: [PATCH 37/50] fix: a process that has ended but was not waited for
 does not own a workspace

---
 marcel/util.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/marcel/util.py b/marcel/util.py
index 8de08e8..ddba636 100644
--- a/marcel/util.py
+++ b/marcel/util.py
@@ -30,6 +30,7 @@ import time
 import traceback
 
 import dill
+import psutil
 
 import marcel.structish
 
@@ -202,14 +203,12 @@ def bash_executable():
 
 def process_exists(pid):
     try:
-        os.kill(pid, 0)
-        return True
-    except ProcessLookupError:
+        # A zombie has ended
+        return psutil.Process(pid).status() != psutil.STATUS_ZOMBIE
+    except psutil.NoSuchProcess:
         return False
-    except PermissionError:
+    except psutil.AccessDenied:
         return True
-    except Exception as e:
-        assert False, e
 
 
 def accessible(dir):
-- 
2.43.0


From 862bd11af973443145f4bd899713b411af5837fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:49 +0000
Subject: [PATCH 38/50] fix: a new reservoir started with the contents of a
 file left by a variable that was never saved

---
 marcel/op/store.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marcel/op/store.py b/marcel/op/store.py
index f74f2ad..175148f 100644
--- a/marcel/op/store.py
+++ b/marcel/op/store.py
@@ -148,6 +148,9 @@ class Store(marcel.core.Op):
     # Nothing is changed by setup, because the setup of a later op may fail.
     def ensure_open(self, env):
         if not self.opened:
+            if isinstance(self.var, str) and env.getvar(self.var) != self.reservoir:
+                # A file may be left from a variable that was never saved.
+                self.reservoir.path.unlink(missing_ok=True)
             self.writer.ensure_open()
             if isinstance(self.var, str):
                 env.setvar(self.var, self.reservoir)
-- 
2.43.0


From 85444904a488ee948be0dc559fef9cf1def2e584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:49 +0000
Subject: [PATCH 39/50] fix: reopening a workspace lost or changed functions
 and pipelines with more than one name, classes and methods; one failing
 variable lost the others

---
 marcel/nestednamespace.py | 56 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 50 insertions(+), 6 deletions(-)

diff --git a/marcel/nestednamespace.py b/marcel/nestednamespace.py
index 7c5e8fe..0d158db 100644
--- a/marcel/nestednamespace.py
+++ b/marcel/nestednamespace.py
@@ -112,18 +112,22 @@ class EnvValue(object):
     def wrap(env, value, source=None):
         def is_pipeline(value):
             return isinstance(value, marcel.pipeline.Pipeline)
-        if inspect.isbuiltin(value):
+        if Function.importable(value):
             ev = Function(env)
             ev.assign(value)
         elif inspect.ismodule(value):
             ev = Module(env)
             ev.assign(value)
+        elif inspect.isbuiltin(value):
+            # A method of an object
+            ev = Simple(env)
+            ev.assign(value)
         elif callable(value):
             ev = CompilableFunction(env)
             ev.assign(value, f'({source})')
         elif is_pipeline(value):
             ev = CompilablePipeline(env)
-            ev.assign(value, value.source if source is None else source)
+            ev.assign(value, source if value.source is None else value.source)
         else:
             ev = Simple(env)
             ev.assign(value)
@@ -290,6 +294,15 @@ class Function(EnvValue):
     def reconstitute(self):
         return marcel.util.import_symbol(self.module_name, self.function_name)
 
+    @staticmethod
+    def importable(function):
+        if (inspect.isbuiltin(function) or inspect.isclass(function)) and type(function.__module__) is str:
+            try:
+                return marcel.util.import_symbol(function.__module__, function.__name__) is function
+            except Exception:
+                pass
+        return False
+
     def assign(self, function):
         self.module_name = function.__module__
         self.function_name = function.__name__
@@ -329,7 +342,18 @@ class Scope(dict):
 
     def assign(self, var, value, source=None):
         assert not isinstance(value, EnvValue)
-        self.store_item(var, EnvValue.wrap(self.env, value, source))
+        # If another variable has the same function or pipeline, e.g. f = (g), then this one is restored in the same way.
+        # The expression may have another value when it is evaluated later.
+        same = self.find_same(value)
+        self.store_item(var, same if same else EnvValue.wrap(self.env, value, source))
+
+    def find_same(self, value):
+        if callable(value) or isinstance(value, marcel.pipeline.Pipeline):
+            for ev in self.values():
+                if isinstance(ev, (Compilable, Import, Function)) and ev.cached is value:
+                    return ev
+            return self.parent.find_same(value) if self.parent else None
+        return None
 
     def assign_import(self, var, module, symbol, value):
         assert not isinstance(value, EnvValue)
@@ -464,11 +488,31 @@ class NestedNamespace(dict):
     def from_persistent_state(self, env, persisted):
         assert len(self.scopes) == 1, len(self.scopes)
         scope = self.scopes[0]
-        for var, persisted_value in persisted.items():
-            classname, persisted_state = persisted_value
+
+        def restore(var, classname, persisted_state):
             value = EnvValue.restore(env, classname, persisted_state)
+            super(NestedNamespace, self).__setitem__(var, value.unwrap())
             scope.__setitem__(var, value)
-            super().__setitem__(var, value.unwrap())
+
+        # The expression yielding a function may refer to variables that have not been restored yet.
+        failures = {}
+        for var, persisted_value in persisted.items():
+            try:
+                restore(var, *persisted_value)
+            except Exception as e:
+                failures[var] = e
+        progress = True
+        while failures and progress:
+            progress = False
+            for var in list(failures):
+                try:
+                    restore(var, *persisted[var])
+                    del failures[var]
+                    progress = True
+                except Exception as e:
+                    failures[var] = e
+        for var, e in failures.items():
+            marcel.util.print_to_stderr(None, f'Unable to restore variable {var}: {type(e).__name__}: {e}')
 
     # TODO: With set_env, is reconstitute needed? That's just an eager form of reconstitution.
     # TODO: Having the env available in all the EnvValues is a lazy form.
-- 
2.43.0


From f05b95eb5fd101b294f1af761256ded9db5daebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:49 +0000
Subject: [PATCH 40/50] fix: competing or killed processes damaged workspaces;
 damage to one moved all to quarantine or prevented startup; interrupted
 upgrades could not be repeated

---
 marcel/main.py                      |  68 +++---
 marcel/object/workspace.py          | 312 ++++++++++++++++++----------
 marcel/op/ws.py                     |  35 ++--
 marcel/persistence/persistence.py   |  12 +-
 marcel/persistence/storagelayout.py | 187 +++++++++--------
 5 files changed, 376 insertions(+), 238 deletions(-)

diff --git a/marcel/main.py b/marcel/main.py
index 3163128..9c102da 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -141,31 +141,16 @@ class MainScript(Main):
     # Internal
 
     def handle_persistence_validation_errors(self, broken_workspace_names, errors):
-        if len(errors) > 0:
-            now = time.time()
-            broken_ws_config = self.env.locations.config_bws() / str(now)
-            broken_ws_data = self.env.locations.data_bws() / str(now)
-            marcel.util.print_to_stderr(self.env,
-                                        f'Damaged workspaces have been detected: {sorted(broken_workspace_names)}. '
-                                        f'Their contents will be moved to:'
-                                        f'\n    {broken_ws_config}'
-                                        f'\n    {broken_ws_data}')
-            started_in_broken_ws = False
-            for validation_error in errors:
-                marcel.util.print_to_stderr(self.env, str(validation_error))
-                ws_name = validation_error.workspace_name
-                broken_ws = Workspace (ws_name)
-                started_in_broken_ws = started_in_broken_ws or (self.env.workspace.name == ws_name)
-                broken_ws.mark_broken(now)
-            if started_in_broken_ws:
-                # This marks this MainScript object as needing a restart. Don't want to continue with a broken
-                # workspace, but throwing a ReconfigureException right now (during MainScript.__init__)
-                # is messy, since we're then shutting down an incompletely initialized main.
-                self.needs_restart = True
-                message = ('Default workspace was damaged. Starting in a recreated default workspace.'
-                           if self.env.workspace.is_default() else
-                           f'Selected workspace {self.env.workspace.name} is damaged, starting in default workspace.')
-                marcel.util.print_to_stderr(self.env, message)
+        quarantine_broken_workspaces(broken_workspace_names, errors)
+        if self.env.workspace.name in broken_workspace_names:
+            # This marks this MainScript object as needing a restart. Don't want to continue with a broken
+            # workspace, but throwing a ReconfigureException right now (during MainScript.__init__)
+            # is messy, since we're then shutting down an incompletely initialized main.
+            self.needs_restart = True
+            if not self.env.workspace.is_default():
+                marcel.util.print_to_stderr(self.env,
+                                            f'Selected workspace {self.env.workspace.name} is damaged, '
+                                            f'starting in default workspace.')
 
     def run_startup_scripts(self):
         startup_scripts = self.env.getvar('STARTUP_SCRIPTS')
@@ -281,6 +266,27 @@ def commands_in_script(script):
         yield command
 
 
+# Move what is left of broken workspaces out of the way. There has to be a default workspace.
+def quarantine_broken_workspaces(broken_workspace_names, errors):
+    if len(errors) > 0:
+        now = time.time()
+        locations = marcel.locations.Locations()
+        marcel.util.print_to_stderr(None,
+                                    f'Damaged workspaces have been detected: {sorted(broken_workspace_names)}. '
+                                    f'Their contents will be moved to:'
+                                    f'\n    {locations.config_bws() / str(now)}'
+                                    f'\n    {locations.data_bws() / str(now)}')
+        for validation_error in errors:
+            marcel.util.print_to_stderr(None, str(validation_error))
+        for name in broken_workspace_names:
+            # The name of the default workspace is ''.
+            Workspace.named(name if name else None).mark_broken(now)
+        if Workspace.default().name in broken_workspace_names:
+            marcel.persistence.storagelayout.create_default_workspace()
+            marcel.util.print_to_stderr(None,
+                                        'Default workspace was damaged. Starting in a recreated default workspace.')
+
+
 def fail(message):
     print(message, file=sys.stderr)
     exit(1)
@@ -294,6 +300,8 @@ def main_interactive_run():
         try:
             env = marcel.env.EnvironmentInteractive.create(workspace=workspace, trace=trace)
         except Exception as e:
+            if workspace.is_default():
+                raise
             # Something ws-related? Try starting in default
             marcel.util.print_to_stderr(
                 old_env,
@@ -378,9 +386,8 @@ def read_script(script_path):
 def main():
     multiprocessing.set_start_method(os.getenv('MARCEL_MULTIPROCESSING_START_METHOD', default='spawn'))
     marcel.persistence.storagelayout.ensure_current(testing=False)
-    # Check that default workspace exists
-    if not Workspace.default().exists():
-        Workspace.default().does_not_exist()
+    # A damaged workspace cannot be opened.
+    marcel.persistence.persistence.validate_all(quarantine_broken_workspaces)
     input_source = marcel.util.InputSource()
     started = False
     while not started:
@@ -395,9 +402,8 @@ def main():
                 raise marcel.exception.KillShellException('Unable to determine input source!')
             started = True
         except marcel.exception.StartupScriptException as e:
-            print(str(e), file=sys.stderr)
-        except:
-            raise
+            # The startup script of the default workspace has to be fixed.
+            fail(str(e))
 
 
 if __name__ == '__main__':
diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 805c9cc..0c3a10b 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -13,8 +13,11 @@
 # You should have received a copy of the GNU General Public License
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 
-import shutil
+import fcntl
+import os
 import pathlib
+import pickletools
+import shutil
 import time
 
 import dill
@@ -31,6 +34,25 @@ import marcel.util
 WORKSPACE_TIME_FORMAT = '%Y-%m-%d %H:%M:%S'
 
 
+# Used in a with statement, to serialize operations on the files of workspaces by different processes. Can be nested.
+class WorkspaceFilesLock(object):
+    depth = 0
+    fd = None
+
+    def __enter__(self):
+        if WorkspaceFilesLock.depth == 0:
+            config_base = marcel.locations.Locations().config_base
+            config_base.mkdir(parents=True, exist_ok=True)
+            WorkspaceFilesLock.fd = os.open(config_base, os.O_RDONLY)
+            fcntl.flock(WorkspaceFilesLock.fd, fcntl.LOCK_EX)
+        WorkspaceFilesLock.depth += 1
+
+    def __exit__(self, exc_type, exc_val, exc_tb):
+        WorkspaceFilesLock.depth -= 1
+        if WorkspaceFilesLock.depth == 0:
+            os.close(WorkspaceFilesLock.fd)
+
+
 class Marker(object):
     FILENAME_ROOT = '.WORKSPACE'
 
@@ -239,29 +261,60 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
     def is_default(self):
         return False
 
+    # A workspace's name is the name of its directories.
+    @staticmethod
+    def check_name(name):
+        if (not isinstance(name, str) or
+                name in ('', os.curdir, os.pardir, marcel.locations.Locations.DEFAULT_WORKSPACE_DIR_NAME) or
+                '/' in name or '\0' in name):
+            raise marcel.exception.KillCommandException(f'Not a legal workspace name: {name}')
+
     def exists(self):
         return self.marker.exists()
 
     def create(self):
-        assert not self.exists()
-        initial_config_contents = self.locations.config_ws_startup(Workspace.default()).read_text()
-        self.create_on_disk(initial_config_contents)
+        with WorkspaceFilesLock():
+            if self.exists():
+                raise marcel.exception.KillCommandException(f'Workspace {self.name} already exists.')
+            initial_config_contents = self.locations.config_ws_startup(Workspace.default()).read_text()
+            # There may be remains of a workspace whose creation or deletion didn't complete.
+            self.mark_broken(time.time())
+            self.create_on_disk(initial_config_contents)
+
+    # Lock the workspace, which is not open, and check that its files can be read, so that open should succeed.
+    def prepare_to_open(self):
+        with WorkspaceFilesLock():
+            if not self.exists():
+                self.does_not_exist()
+            if not self.lock_workspace():
+                self.cannot_lock_workspace()
+            try:
+                self.read_properties()
+                self.read_environment()
+            except Exception as e:
+                self.unlock_workspace()
+                raise marcel.exception.KillCommandException(
+                    f'Workspace {self.name} cannot be opened: {type(e).__name__}: {e}')
 
     def open(self, env, initial_namespace=None):
         if self.exists():
             if self.lock_workspace():  # Always granted for default workspace
-                self.read_properties()  # Noop for default workspace
-                self.namespace = marcel.nestednamespace.NestedNamespace(env)
-                if initial_namespace:
-                    initial_namespace.add_to_namespace(self.namespace, env)
-                config_dict = self.config_script.run()
-                for var, value in config_dict.items():
-                    self.namespace.assign_permanent(var, value)
-                # Startup scripts, which run next, may change these vars.
-                self._enforce_immutability = False
-                self.add_immutable_vars(config_dict.keys())
-                persistent_state = self.read_environment()
-                self.namespace.from_persistent_state(env, persistent_state)
+                try:
+                    self.read_properties()  # Noop for default workspace
+                    self.namespace = marcel.nestednamespace.NestedNamespace(env)
+                    if initial_namespace:
+                        initial_namespace.add_to_namespace(self.namespace, env)
+                    config_dict = self.config_script.run()
+                    for var, value in config_dict.items():
+                        self.namespace.assign_permanent(var, value)
+                    # Startup scripts, which run next, may change these vars.
+                    self._enforce_immutability = False
+                    self.add_immutable_vars(config_dict.keys())
+                    persistent_state = self.read_environment()
+                    self.namespace.from_persistent_state(env, persistent_state)
+                except:
+                    self.unlock_workspace()
+                    raise
             else:
                 self.cannot_lock_workspace()
         else:
@@ -270,20 +323,22 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
     def close(self, env, restart):
         # Relocking is okay, so this is a convenient way to test that the workspace is locked.
         if self.lock_workspace():
-            # Properties
-            self.write_properties()
-            # Reservoirs
-            for var, reservoir in self.reservoirs():
-                assert type(reservoir) is marcel.reservoir.Reservoir
-                reservoir.close()
-            # Environment
-            self.write_environment(self.persistent_state())
-            # Mark this workspace object as closed
-            self.properties = None
-            # Discard workspace
-            self.namespace = None
-            # Unlock
-            self.unlock_workspace()
+            try:
+                # Properties
+                self.write_properties()
+                # Reservoirs
+                for var, reservoir in self.reservoirs():
+                    assert type(reservoir) is marcel.reservoir.Reservoir
+                    reservoir.close()
+                # Environment
+                self.write_environment(self.persistent_state())
+                # Mark this workspace object as closed
+                self.properties = None
+                # Discard workspace
+                self.namespace = None
+            finally:
+                # Unlock
+                self.unlock_workspace()
         else:
             assert False, self
 
@@ -293,29 +348,19 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
         self.write_properties()
 
     def delete(self, env):
-        if self.exists():
-            if self.lock_workspace():
-                locations = self.locations
-                # config directory
-                owned_marker_path = self.marker.owned()
-                assert owned_marker_path is not None, self
-                owned_marker_path.unlink(missing_ok=False)
-                # Use missing_ok=True to enable deletion of damaged workspaces, missing files.
-                locations.config_ws_startup(self).unlink(missing_ok=True)
-                locations.config_ws(self).rmdir()
-                # data directory
-                locations.data_ws_hist(self).unlink(missing_ok=True)
-                locations.data_ws_prop(self).unlink(missing_ok=True)
-                locations.data_ws_env(self).unlink(missing_ok=True)
-                reservoir_dir = locations.data_ws_res(self)
-                for reservoir_file in reservoir_dir.iterdir():
-                    reservoir_file.unlink()
-                reservoir_dir.rmdir()
-                locations.data_ws(self).rmdir()
+        with WorkspaceFilesLock():
+            if self.exists():
+                if self.lock_workspace():
+                    # Without a marker, the workspace does not exist
+                    self.marker.owned().unlink()
+                    # The workspace may be damaged, with missing or extra files.
+                    for dir in (self.locations.config_ws(self), self.locations.data_ws(self)):
+                        if dir.exists():
+                            shutil.rmtree(dir)
+                else:
+                    self.cannot_lock_workspace()
             else:
-                self.cannot_lock_workspace()
-        else:
-            self.does_not_exist()
+                self.does_not_exist()
 
     def home(self):
         # Older workspaces won't have a home property
@@ -338,14 +383,19 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
     @staticmethod
     def list(env):
         workspaces = [Workspace.default()]
-        for dir in env.locations.config_ws().iterdir():
-            if dir.is_dir():
-                name = dir.name
-                if name != marcel.locations.Locations.DEFAULT_WORKSPACE_DIR_NAME:
-                    workspace = Workspace(name)
-                    if workspace.marker.exists():
-                        workspace.read_properties()  # So that home is known
-                        workspaces.append(workspace)
+        with WorkspaceFilesLock():
+            for dir in env.locations.config_ws().iterdir():
+                if dir.is_dir():
+                    name = dir.name
+                    if name != marcel.locations.Locations.DEFAULT_WORKSPACE_DIR_NAME:
+                        workspace = Workspace(name)
+                        if workspace.marker.exists():
+                            try:
+                                workspace.read_properties()  # So that home is known
+                            except Exception:
+                                # Damaged since marcel was started
+                                workspace.properties = WorkspaceProperties()
+                            workspaces.append(workspace)
         workspaces.sort(key=lambda ws: ws.name)
         return workspaces
 
@@ -368,7 +418,6 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
         config_file_path = locations.config_ws_startup(self)
         config_file_path.write_text(initial_config_contents)
         config_file_path.chmod(0o600)
-        self.marker.ensure_exists()
         # data
         self.create_dir(locations.data_ws(self))
         self.create_dir(locations.data_ws_res(self))
@@ -378,6 +427,8 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
             self.properties = WorkspaceProperties()
             self.write_properties()
         locations.data_ws_hist(self).touch(mode=0o600, exist_ok=True)
+        # The workspace exists once everything else does
+        self.marker.ensure_exists()
 
     def create_dir(self, dir):
         try:
@@ -391,45 +442,39 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
 
     def lock_workspace(self):
         assert not self.is_default()
-        owner = self.owner()
-        if owner is None:
-            # Lock the file by renaming it. Check for success, to guard against another process trying to
-            # lock the same workspace.
-            owned_marker_path = self.marker.owned()
-            self.marker.unowned().rename(owned_marker_path)
-            return owned_marker_path.exists()
-        elif owner == self.locations.pid:
-            # Already locked
-            return True
-        elif owner == self.locations.ppid:
-            # Locked by parent. This process must be owned by a job executing on behalf of the parent.
-            return True
-        else:
-            # Locked by another process
-            if marcel.util.process_exists(owner):
-                return False
-            else:
-                # Owner disappeared. Steal the marker file.
-                abandoned_marker_path = self.marker.owned(owner)
+        with WorkspaceFilesLock():
+            owner = self.owner()
+            if owner is None:
+                # Lock the file by renaming it. Check for success, to guard against another process trying to
+                # lock the same workspace.
                 owned_marker_path = self.marker.owned()
-                abandoned_marker_path.rename(owned_marker_path)
-                # If owned_marker_path doesn't exist, another process was stealing the file at exactly the same time?!
+                self.marker.unowned().rename(owned_marker_path)
                 return owned_marker_path.exists()
+            elif owner == self.locations.pid:
+                # Already locked
+                return True
+            elif owner == self.locations.ppid:
+                # Locked by parent. This process must be owned by a job executing on behalf of the parent.
+                return True
+            else:
+                # Locked by another process
+                return False
 
     def unlock_workspace(self):
         assert not self.is_default()
-        owner = self.owner()
-        if owner is None:
-            # Someone is unlocking an unlocked workspace? I'll allow it.
-            pass
-        elif owner == self.locations.pid:  # locations.pid is the pid of the topmost process
-            # Unlock
-            unowned_marker_path = self.marker.unowned()
-            self.marker.owned().rename(unowned_marker_path)
-            assert unowned_marker_path.exists(), self
-        else:
-            # Owned by someone else?!
-            assert False, self
+        with WorkspaceFilesLock():
+            owner = self.owner()
+            if owner is None:
+                # Someone is unlocking an unlocked workspace? I'll allow it.
+                pass
+            elif owner == self.locations.pid:  # locations.pid is the pid of the topmost process
+                # Unlock
+                unowned_marker_path = self.marker.unowned()
+                self.marker.owned().rename(unowned_marker_path)
+                assert unowned_marker_path.exists(), self
+            else:
+                # Owned by someone else?!
+                assert False, self
 
     def read_properties(self):
         with open(self.locations.data_ws_prop(self), 'rb') as properties_file:
@@ -442,9 +487,7 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
     def write_properties(self):
         assert not self.is_default()
         self.properties.update_save_time()
-        with open(self.locations.data_ws_prop(self), 'wb') as properties_file:
-            pickler = dill.Pickler(properties_file)
-            pickler.dump(self.properties.to_persistent_state())
+        self.write_file(self.locations.data_ws_prop(self), dill.dumps(self.properties.to_persistent_state()))
 
     def read_environment(self):
             with open(self.locations.data_ws_env(self), 'rb') as environment_file:
@@ -453,9 +496,25 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
 
     def write_environment(self, persistent_state):
         assert persistent_state is not None
-        with open(self.locations.data_ws_env(self), 'wb') as environment_file:
-            pickler = dill.Pickler(environment_file)
-            pickler.dump(persistent_state)
+        try:
+            contents = dill.dumps(persistent_state)
+        except Exception:
+            # Save what can be saved
+            saveable = {}
+            for var, value in persistent_state.items():
+                try:
+                    dill.dumps(value)
+                    saveable[var] = value
+                except Exception as e:
+                    marcel.util.print_to_stderr(None, f'The value of {var} cannot be saved: {type(e).__name__}: {e}')
+            contents = dill.dumps(saveable)
+        self.write_file(self.locations.data_ws_env(self), contents)
+
+    # An interruption leaves either the old contents or the new.
+    def write_file(self, path, contents):
+        new_path = path.with_name(path.name + WorkspaceValidater.NEW_FILE_SUFFIX)
+        new_path.write_bytes(contents)
+        new_path.replace(path)
 
     # Return pid of owning process, or None if unowned.
     def owner(self):
@@ -467,6 +526,8 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
             return None
         # First get rid of any markers from processes that don't exist. Shouldn't happen, but still.
         self.delete_abandoned_markers()
+        if self.marker.unowned().exists():
+            return None
         # Now find the marker. Something is very wrong if there is anything other than one.
         marker_filename = None
         for file in self.locations.config_ws(self).iterdir():
@@ -496,9 +557,14 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
     def delete_abandoned_markers(self):
         for file in self.locations.config_ws(self).iterdir():
             if file.name.startswith(Marker.FILENAME_ROOT) and len(file.name) > len(Marker.FILENAME_ROOT):
-                pid = Workspace.marker_filename_pid(file.name)
-                if not marcel.util.process_exists(pid):
-                    file.unlink()
+                try:
+                    pid = Workspace.marker_filename_pid(file.name)
+                    if not marcel.util.process_exists(pid):
+                        # The marker is now the one of a workspace that isn't owned.
+                        file.rename(self.marker.unowned())
+                except ValueError:
+                    # Not something that marcel created. Validation will complain about it.
+                    pass
 
     def cannot_lock_workspace(self):
         raise marcel.exception.KillCommandException(f'Workspace {self.name} is in use by another process.')
@@ -570,6 +636,9 @@ class WorkspaceDefault(Workspace):
 
 
 class WorkspaceValidater(object):
+    # Suffix of a file which replaces another one once it is complete.
+    NEW_FILE_SUFFIX = '.new'
+
     class Error(object):
 
         def __init__(self, workspace_name, message):
@@ -594,6 +663,9 @@ class WorkspaceValidater(object):
         # exist in this dir.
         # Config dir has marker file.
         config_dir_path = locations.config_ws(workspace)
+        if not config_dir_path.is_dir():
+            self.not_a_directory(config_dir_path)
+            return self.errors
         # Workspace.owner() gets rid of unowned marker files.
         self.workspace.delete_abandoned_markers()
         if not self.workspace.marker.exists():
@@ -603,12 +675,16 @@ class WorkspaceValidater(object):
         # Config dir has startup.py.
         if not locations.config_ws_startup(workspace).exists():
             self.missing(locations.config_ws_startup(workspace))
+        elif not locations.config_ws_startup(workspace).is_file():
+            self.not_a_file(locations.config_ws_startup(workspace))
         # Config dir has nothing else.
         if len(list(config_dir_path.iterdir())) > 2:
             self.extraneous(config_dir_path)
         # Data dir exists
         if not locations.data_ws(workspace).exists():
             self.missing(locations.data_ws(workspace))
+        elif not locations.data_ws(workspace).is_dir():
+            self.not_a_directory(locations.data_ws(workspace))
         else:
             # env.pickle
             self.validate_env_file()
@@ -617,6 +693,8 @@ class WorkspaceValidater(object):
             # history
             if not locations.data_ws_hist(workspace).exists():
                 self.missing(locations.data_ws_hist(workspace))
+            elif not locations.data_ws_hist(workspace).is_file():
+                self.not_a_file(locations.data_ws_hist(workspace))
             # reservoirs
             if not locations.data_ws_res(workspace).exists():
                 self.missing(locations.data_ws_res(workspace))
@@ -627,7 +705,8 @@ class WorkspaceValidater(object):
                 if not (file.name == 'properties.pickle' or
                         file.name.endswith('env.pickle') or
                         file.name == 'history' or
-                        file.name == 'reservoirs'):
+                        file.name == 'reservoirs' or
+                        file.name.endswith(WorkspaceValidater.NEW_FILE_SUFFIX)):
                     self.extraneous(locations.data_ws(workspace))
         return self.errors
 
@@ -636,12 +715,25 @@ class WorkspaceValidater(object):
         workspace = self.workspace
         if not locations.data_ws_env(workspace).exists():
             self.missing(locations.data_ws_env(workspace))
+        else:
+            self.validate_pickle_file(locations.data_ws_env(workspace))
 
     def validate_properties_file(self):
         locations = self.locations
         workspace = self.workspace
         if not workspace.is_default() and not locations.data_ws_prop(workspace).exists():
             self.missing(locations.data_ws_prop(workspace))
+        else:
+            self.validate_pickle_file(locations.data_ws_prop(workspace))
+
+    # Check that the file contains a complete pickle. Don't unpickle it, importing modules needed by its contents.
+    def validate_pickle_file(self, path):
+        try:
+            contents = path.read_bytes()
+            for opcode, arg, pos in pickletools.genops(contents):
+                pass
+        except Exception as e:
+            self.errors.append(WorkspaceValidater.Error(self.workspace.name, f'{path} is damaged: {e}'))
 
     def missing(self, path):
         self.errors.append(WorkspaceValidater.Error(self.workspace.name, f'{path} is missing'))
@@ -649,6 +741,9 @@ class WorkspaceValidater(object):
     def extraneous(self, path):
         self.errors.append(WorkspaceValidater.Error(self.workspace.name, f'{path} has extraneous files'))
 
+    def not_a_file(self, path):
+        self.errors.append(WorkspaceValidater.Error(self.workspace.name, f'{path} is not actually a file'))
+
     def not_a_directory(self, path):
         self.errors.append(WorkspaceValidater.Error(self.workspace.name, f'{path} is not actually a directory'))
 
@@ -673,8 +768,11 @@ class WorkspaceDefaultValidater(WorkspaceValidater):
         locations = self.locations
         workspace = self.workspace
         pids = set(psutil.pids())
-        delete_abandoned(locations.data_ws(workspace), '.env.pickle')
-        delete_abandoned(locations.data_ws_res(workspace), '.pickle')
+        for dir, suffix in ((locations.data_ws(workspace), '.env.pickle'),
+                            (locations.data_ws_res(workspace), '.pickle')):
+            # If there is no such directory, super().validate() notes that.
+            if dir.is_dir():
+                delete_abandoned(dir, suffix)
         return super().validate()
 
     def validate_env_file(self):
diff --git a/marcel/op/ws.py b/marcel/op/ws.py
index f4f1ce9..4d585d9 100644
--- a/marcel/op/ws.py
+++ b/marcel/op/ws.py
@@ -227,6 +227,15 @@ class WsImpl(object):
     def reconfigure(self, workspace):
         raise marcel.exception.ReconfigureException(workspace)
 
+    # The workspace is locked. It will be opened in the handling of the ReconfigurationException.
+    def send_and_reconfigure(self, env, workspace):
+        try:
+            self.op.send(env, workspace)
+        except BaseException:
+            workspace.unlock_workspace()
+            raise
+        self.reconfigure(workspace)
+
     def check_anon_arg_absent(self):
         if self.op.name is not None:
             raise marcel.exception.KillCommandException(f'Anonymous argument not allowed.')
@@ -271,16 +280,15 @@ class WsNew(WsImpl):
 
     def setup(self, env):
         self.check_anon_arg_present('NAME')
+        Workspace.check_name(self.anon_arg)
 
     def run(self, env):
-        name = self.op.new
-        workspace = Workspace(name)
-        if workspace.exists():
-            raise marcel.exception.KillCommandException(f'Workspace {name} already exists.')
-        else:
+        workspace = Workspace(self.op.new)
+        # Another process must not be able to open the workspace before this one does.
+        with marcel.object.workspace.WorkspaceFilesLock():
             workspace.create()
-            self.op.send(env, workspace)
-            self.reconfigure(workspace)
+            workspace.prepare_to_open()
+        self.send_and_reconfigure(env, workspace)
 
 
 class WsOpen(WsImpl):
@@ -293,17 +301,15 @@ class WsOpen(WsImpl):
 
     def setup(self, env):
         self.check_anon_arg_present('NAME')
+        Workspace.check_name(self.anon_arg)
 
     def run(self, env):
         name = self.op.open
         workspace = Workspace(name)
-        if workspace.exists():
-            if env.workspace.name != name:
-                self.op.send(env, workspace)
-                self.reconfigure(workspace)
-                # The workspace will be opened in the handling of the ReconfigurationException
-        else:
-            raise marcel.exception.KillCommandException(f'There is no workspace named {name}.')
+        if env.workspace.name != name:
+            # If the workspace can't be opened, then the current workspace stays open.
+            workspace.prepare_to_open()
+            self.send_and_reconfigure(env, workspace)
 
 
 class WsClose(WsImpl):
@@ -331,6 +337,7 @@ class WsDelete(WsImpl):
 
     def setup(self, env):
         self.check_anon_arg_present('NAME')
+        Workspace.check_name(self.anon_arg)
 
     def run(self, env):
         name = self.op.delete
diff --git a/marcel/persistence/persistence.py b/marcel/persistence/persistence.py
index a730476..37c3cc3 100644
--- a/marcel/persistence/persistence.py
+++ b/marcel/persistence/persistence.py
@@ -22,6 +22,12 @@ WorkspaceValidater = marcel.object.workspace.WorkspaceValidater
 
 
 def validate_all(error_handler):
+    # Other processes may be creating, opening or deleting workspaces.
+    with marcel.object.workspace.WorkspaceFilesLock():
+        return validate_all_locked(error_handler)
+
+
+def validate_all_locked(error_handler):
     def check_dir_exists(path, description):
         if not path.exists():
             raise marcel.exception.KillShellException(
@@ -57,11 +63,11 @@ def validate_all(error_handler):
     data_workspace_names = set([f.name for f in locations.data_ws().iterdir()])
     broken_workspace_names = set()
     for missing_data_dir in (config_workspace_names - data_workspace_names):
-        broken = Workspace(missing_data_dir)
+        broken = workspace_named(missing_data_dir)
         broken_workspace_names.add(broken.name)
         errors.append(WorkspaceValidater.Error(broken.name, f'{locations.data_ws(broken)} is missing'))
     for missing_config_dir in (data_workspace_names - config_workspace_names):
-        broken = Workspace(missing_config_dir)
+        broken = workspace_named(missing_config_dir)
         broken_workspace_names.add(broken.name)
         errors.append(WorkspaceValidater.Error(broken.name, f'{locations.config_ws(broken)} is missing'))
     # Validate each workspace. Don't rely on Workspace.list(), which assumes valid workspaces.
@@ -71,7 +77,7 @@ def validate_all(error_handler):
             workspace = workspace_named(dir.name)
             ws_errors = workspace.validate()
             if len(ws_errors) > 0:
-                broken_workspace_names.add(dir.name)
+                broken_workspace_names.add(workspace.name)
                 errors.extend(ws_errors)
         # else: Missing data workspace directory has already been noted.
     error_handler(broken_workspace_names, errors)
diff --git a/marcel/persistence/storagelayout.py b/marcel/persistence/storagelayout.py
index 832e0ed..6a89213 100644
--- a/marcel/persistence/storagelayout.py
+++ b/marcel/persistence/storagelayout.py
@@ -22,7 +22,7 @@ import marcel.persistence.defaultinitialconfig
 import marcel.util
 import marcel.version
 
-from marcel.object.workspace import Workspace
+from marcel.object.workspace import Workspace, WorkspaceFilesLock
 
 
 def default_initial_config():
@@ -44,7 +44,26 @@ def storage_layout():
     return None
 
 
+def create_default_workspace():
+    Workspace.default().create_on_disk(default_initial_config())
+
+
+# Version numbers in VERSION, e.g. (0, 37, 3). (0,) if there is no usable version file.
+def installed_version():
+    try:
+        version = marcel.locations.Locations().config_version().read_text().strip()
+        return tuple(int(x) for x in version.split('.'))
+    except (OSError, ValueError):
+        return 0,
+
+
 def ensure_current(testing=False, initial_config=None):
+    # Another process may be starting at the same time
+    with WorkspaceFilesLock():
+        ensure_current_locked(testing, initial_config)
+
+
+def ensure_current_locked(testing, initial_config):
     def write_version(version_id):
         version_file_path = locations.config_version()
         version_file_path.touch(exist_ok=True)
@@ -52,15 +71,6 @@ def ensure_current(testing=False, initial_config=None):
         version_file_path.write_text(f'{version_id}', newline='\n')
         version_file_path.chmod(0o400)
 
-    def installed_version():
-        version_file_path = locations.config_version()
-        if version_file_path.exists():
-            with open(version_file_path) as version_file:
-                installed_version = version_file.readline().strip()
-        else:
-            installed_version = '0.0.0'
-        return installed_version
-
     def initialize_persistent_config_and_data(initial_config):
         # These calls ensure the config and data directories exist.
         locations.config()
@@ -89,7 +99,7 @@ def ensure_current(testing=False, initial_config=None):
                 if before == after:
                     raise marcel.exception.KillShellException(f'Migration from {before} failed to advance.')
     # Write version file
-    if installed_version() < marcel.version.VERSION:
+    if installed_version() < tuple(int(x) for x in marcel.version.VERSION.split('.')):
         write_version(marcel.version.VERSION)
 
 
@@ -123,6 +133,11 @@ class StorageLayout(object):
             raise marcel.exception.KillShellException(
                 f'Migration({type(self)}) error: {path} should not exist: {info}')
 
+    @staticmethod
+    def move_if_exists(source, target):
+        if source.exists():
+            shutil.move(source, target)
+
     @staticmethod
     def subdirs(dir):
         workspace_dirs = []
@@ -132,6 +147,9 @@ class StorageLayout(object):
         return workspace_dirs
 
 
+# A migration may have been interrupted, so each step of a migration has to allow for having been done already. The last
+# step is the one that makes the next layout match.
+
 # Version < 0.13.6
 class StorageLayoutOriginal(StorageLayout):
 
@@ -144,16 +162,15 @@ class StorageLayoutOriginal(StorageLayout):
     def migrate(self):
         self.config.mkdir(parents=True, exist_ok=True)
         self.data.mkdir(parents=True, exist_ok=True)
-        shutil.move(self.home / '.marcel.py', self.config / 'startup.py')
-        shutil.move(self.home / '.marcel_history', self.data / 'history')
+        self.move_if_exists(self.home / '.marcel_history', self.data / 'history')
+        self.move_if_exists(self.home / '.marcel.py', self.config / 'startup.py')
         layout = storage_layout()
         assert layout
         assert layout.layout() == 'xdg'
         return layout
 
     def match(self):
-        match = ((self.home / '.marcel.py').exists() and (self.home / '.marcel_history').exists())
-        return match
+        return (self.home / '.marcel.py').exists()
 
 
 # Version >= ~0.13.6. First use of XDG conventions.
@@ -163,16 +180,16 @@ class StorageLayoutXDG(StorageLayout):
         return 'xdg'
 
     def migrate(self):
+        (self.data / 'reservoirs').mkdir(parents=True, exist_ok=True)
+        (self.data / 'history').touch(mode=0o600, exist_ok=True)
         (self.config / '.WORKSPACE').touch(mode=0o000)
-        (self.data / 'reservoirs').mkdir(exist_ok=True)
         layout = storage_layout()
         assert layout
         assert layout.layout() == 'ws1'
         return layout
 
     def match(self):
-        return (self.config.exists() and
-                self.data.exists())
+        return (self.config / 'startup.py').exists()
 
 
 # Version >= 0.20.0. First workspace layout.
@@ -186,19 +203,18 @@ class StorageLayoutWS1(StorageLayout):
             new_default_workspace_dir = base_dir / '__DEFAULT_WORKSPACE__'
             new_default_workspace_dir.mkdir(parents=True, exist_ok=True)
             for filename in filenames:
-                shutil.move(base_dir / filename, new_default_workspace_dir)
+                self.move_if_exists(base_dir / filename, new_default_workspace_dir / filename)
 
         # Move default workspace files to __DEFAULT_WORKSPACE__ directory
-        fix_default_workspace(self.config, '.WORKSPACE', 'startup.py')
         fix_default_workspace(self.data, 'history', 'reservoirs')
+        fix_default_workspace(self.config, 'startup.py', '.WORKSPACE')
         layout = storage_layout()
         assert layout
         assert layout.layout() == 'ws2'
         return layout
 
     def match(self):
-        return (self.config.exists() and
-                (self.config / '.WORKSPACE').exists())
+        return (self.config / '.WORKSPACE').exists()
 
 
 # Version >= 0.24.0. Default workspace in its own directory.
@@ -208,41 +224,40 @@ class StorageLayoutWS2(StorageLayout):
         return 'ws2'
 
     def migrate(self):
-        def move_workspace_dirs(workspace_dirs, new_workspace_base):
-            for workspace_dir in workspace_dirs:
-                if workspace_dir.name != marcel.locations.Locations.WORKSPACE_DIR_NAME:
-                    moved_dir = shutil.move(workspace_dir, new_workspace_base)
-                    if moved_dir:
-                        self.should_exist(pathlib.Path(moved_dir), f'Tried to move workspace dir {workspace_dir}')
-                    else:
-                        raise marcel.exception.KillShellException(
-                            f'Attempt to move workspace dir {workspace_dir} failed.')
-                    self.should_not_exist(workspace_dir, f'Tried to move workspace dir {workspace_dir}')
+        def is_workspace(dir):
+            # Not the directory for workspaces or broken workspaces, which contain nothing but directories.
+            return any(not path.is_dir() for path in dir.iterdir())
 
         def fix_dirs(base_dir):
+            base_dir.mkdir(parents=True, exist_ok=True)
             new_workspace_dir = base_dir / 'workspace'
+            moved_workspace_dir = base_dir / '__MOVED_WORKSPACE__'
+            if new_workspace_dir.exists() and is_workspace(new_workspace_dir):
+                # A workspace named workspace
+                new_workspace_dir.rename(moved_workspace_dir)
             new_workspace_dir.mkdir(parents=True, exist_ok=True)
             # Move workspace directories
-            old_workspace_dirs = StorageLayout.subdirs(base_dir)
-            move_workspace_dirs(old_workspace_dirs, new_workspace_dir)
-            # Rename __DEFAULT_WORKSPACE__ to __DEFAULT__
-            old_default_workspace_dir = new_workspace_dir / '__DEFAULT_WORKSPACE__'
-            new_default_workspace_dir = new_workspace_dir / '__DEFAULT__'
-            old_default_workspace_dir.rename(new_default_workspace_dir)
+            for workspace_dir in StorageLayout.subdirs(base_dir):
+                if workspace_dir.name == moved_workspace_dir.name:
+                    workspace_dir.rename(new_workspace_dir / 'workspace')
+                elif workspace_dir.name != '__DEFAULT_WORKSPACE__' and is_workspace(workspace_dir):
+                    shutil.move(workspace_dir, new_workspace_dir)
+                    self.should_not_exist(workspace_dir, f'Tried to move workspace dir {workspace_dir}')
             # Create dir for broken workspaces
             new_broken_dir = base_dir / 'broken'
-            new_broken_dir.mkdir(parents=False, exist_ok=False)
+            new_broken_dir.mkdir(parents=False, exist_ok=True)
+            # Rename __DEFAULT_WORKSPACE__ to __DEFAULT__
+            self.move_if_exists(base_dir / '__DEFAULT_WORKSPACE__', new_workspace_dir / '__DEFAULT__')
 
-        fix_dirs(self.config)
         fix_dirs(self.data)
+        fix_dirs(self.config)
         layout = storage_layout()
         assert layout
-        assert layout.layout() == 'ws3'
+        assert layout.layout() in ('ws3', 'pt')
         return layout
 
     def match(self):
-        return (self.config.exists() and
-                (self.config / '__DEFAULT_WORKSPACE__').exists())
+        return (self.config / '__DEFAULT_WORKSPACE__').exists()
 
 
 # Version >= 0.28.0. Separate broken and valid workspaces.
@@ -253,28 +268,56 @@ class StorageLayoutWS3(StorageLayout):
 
     def migrate(self):
         # Just trash old histories.
-        layout = None
-        for workspace_dir in StorageLayout.subdirs(self.data / 'workspace'):
-            history_file = workspace_dir / 'history'
-            history_file.unlink()
-            # Write something that looks like a prompt_toolkit history file
-            with open(history_file, 'w') as f:
-                f.write('\n')
-                f.write(datetime.datetime.now().strftime('# %Y-%m-%d %H:%M:%S.%f\n'))
-                f.write('+("History from before marcel version 0.32.0 has been deleted, '
-                        'due to a change in history file format.")\n')
+        for history_file in self.history_files():
+            if not self.is_prompt_toolkit_history(history_file):
+                # Write something that looks like a prompt_toolkit history file
+                now = datetime.datetime.now().strftime('# %Y-%m-%d %H:%M:%S.%f')
+                new_history_file = history_file.with_name('history.new')
+                new_history_file.write_text(f'\n{now}\n'
+                                            '+("History from before marcel version 0.32.0 has been deleted, '
+                                            'due to a change in history file format.")\n')
+                new_history_file.chmod(0o600)
+                new_history_file.replace(history_file)
         layout = storage_layout()
         assert layout
         assert layout.layout() == 'pt'
         return layout
 
     def match(self):
-        return (self.config.exists() and
-                (self.config / 'workspace').exists() and
-                (self.config / 'workspace' / '__DEFAULT__').exists())
+        return (self.config / 'workspace' / '__DEFAULT__').exists()
+
+    def history_files(self):
+        workspace_dir = self.data / 'workspace'
+        if workspace_dir.is_dir():
+            for dir in StorageLayout.subdirs(workspace_dir):
+                if (dir / 'history').is_file():
+                    yield dir / 'history'
+
+    @staticmethod
+    def is_prompt_toolkit_history(history_file):
+        # An empty file, or one starting like this:
+        #
+        #     # 2025-04-02 16:54:22.895547
+        # Look for a blank line followed by "# 2...-..-.. ..:  :  ."
+        #    positions:                      0  3  6  9  12 15 18 21
+        # where . is any character
+        with open(history_file, errors='replace') as f:
+            l1 = f.readline()
+            l2 = f.readline().strip()
+        return (l1 == '' or
+                (len(l1.strip()) == 0 and
+                 len(l2) > 21 and
+                 l2[:3] == '# 2' and
+                 l2[6] == '-' and
+                 l2[9] == '-' and
+                 l2[12] == ' ' and
+                 l2[15] == ':' and
+                 l2[18] == ':' and
+                 l2[21] == '.'))
+
 
 # Version >= 0.32.0. Switch from readline history format to that of prompt_toolkit.
-class StorageLayoutPromptToolkit(StorageLayout):
+class StorageLayoutPromptToolkit(StorageLayoutWS3):
 
     def layout(self):
         return 'pt'
@@ -283,29 +326,7 @@ class StorageLayoutPromptToolkit(StorageLayout):
         return None
 
     def match(self):
-        # Same layout as ws3, but the top of this history file looks like this:
-        #
-        #     # 2025-04-02 16:54:22.895547
-        # Look for a blank line followed by "# 2...-..-.. ..:  :  ."
-        #    positions:                      0  3  6  9  12 15 18 21
-        # where . is any character
-
-        if not (self.config.exists() and
-                (self.config / 'workspace').exists() and
-                (self.config / 'workspace' / '__DEFAULT__').exists()):
-            return False
-        history_file = self.data / 'workspace' / '__DEFAULT__' / 'history'
-        if history_file.exists():
-            with open(history_file) as f:
-                l1 = f.readline().strip()
-                l2 = f.readline().strip()
-                if (len(l1) == 0 and len(l2) > 0 and
-                    l2[:3] == '# 2' and
-                    l2[6] == '-' and
-                    l2[9] == '-' and
-                    l2[12] == ' ' and
-                    l2[15] == ':' and
-                    l2[18] == ':' and
-                    l2[21] == '.'):
-                    return True
-        return False
\ No newline at end of file
+        # Same layout as ws3, except for the histories.
+        return (super().match() and
+                (installed_version() >= (0, 32) or
+                 all(self.is_prompt_toolkit_history(history_file) for history_file in self.history_files())))
-- 
2.43.0


From 4573fa672eb0ca34761384e4a5718c5c232efa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:17 +0000
Subject: [PATCH 41/50] fix: opening a workspace damaged while marcel runs
 ended the session; leftovers of a default workspace without configuration
 prevented startup

---
 marcel/object/workspace.py          |  4 +++-
 marcel/persistence/storagelayout.py | 11 ++++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 0c3a10b..a149adb 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -61,7 +61,7 @@ class Marker(object):
 
     def exists(self):
         config_dir = self.workspace.locations.config_ws(self.workspace)
-        if config_dir.exists():
+        if config_dir.is_dir():
             for file in config_dir.iterdir():
                 if file.name.startswith(Marker.FILENAME_ROOT):
                     return True
@@ -289,6 +289,8 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
             if not self.lock_workspace():
                 self.cannot_lock_workspace()
             try:
+                for error in self.validate():
+                    raise Exception(error)
                 self.read_properties()
                 self.read_environment()
             except Exception as e:
diff --git a/marcel/persistence/storagelayout.py b/marcel/persistence/storagelayout.py
index 6a89213..d8aa280 100644
--- a/marcel/persistence/storagelayout.py
+++ b/marcel/persistence/storagelayout.py
@@ -15,6 +15,7 @@
 import datetime
 import pathlib
 import shutil
+import time
 
 import marcel.exception
 import marcel.locations
@@ -82,7 +83,15 @@ def ensure_current_locked(testing, initial_config):
         # Version
         write_version(marcel.version.VERSION)
         # Default workspace
-        Workspace.default().create_on_disk(initial_config)
+        default = Workspace.default()
+        if locations.data_ws(default).exists():
+            # Its config directory is gone
+            now = time.time()
+            marcel.util.print_to_stderr(None,
+                                        f'Default workspace was damaged, and will be recreated. '
+                                        f'What is left of it will be moved to {locations.data_bws() / str(now)}')
+            default.mark_broken(now)
+        default.create_on_disk(initial_config)
 
     locations = marcel.locations.Locations()
     layout = storage_layout()
-- 
2.43.0


From 00b0d0568141a580d146f28dace0a7d5311f003e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:25 +0000
Subject: [PATCH 42/50] fix: changes made by a job were applied by another
 thread, possibly during or after the next command; an unexpected exception or
 unpicklable value lost all of them

---
 marcel/job.py  | 72 ++++++++++++++++++++++++++++++++++++++++++++------
 marcel/main.py |  2 ++
 2 files changed, 66 insertions(+), 8 deletions(-)

diff --git a/marcel/job.py b/marcel/job.py
index 0fd5e3e..af65f06 100644
--- a/marcel/job.py
+++ b/marcel/job.py
@@ -13,12 +13,14 @@
 # You should have received a copy of the GNU General Public License
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 
+import collections
 import os
 import multiprocessing as mp
 import multiprocessing.connection as mpc
 import signal
 import sys
 import threading
+import time
 
 import dill
 
@@ -77,13 +79,31 @@ def run_command_in_child(env, command, writer):
     except KeyboardInterrupt as e:
         debug(f'caught {e}')
         raise
+    except Exception as e:
+        debug(f'caught {e}')
+        marcel.util.print_to_stderr(env, f'{type(e).__name__}: {e}')
     finally:
         if child_namespace_changes is not None:
             debug(f'completed: {command.source} namespace changes: {child_namespace_changes.keys()}')
-            writer.send(dill.dumps(child_namespace_changes))
+            writer.send(pickle_namespace_changes(env, child_namespace_changes))
         writer.close()
 
 
+def pickle_namespace_changes(env, changes):
+    try:
+        return dill.dumps(changes)
+    except Exception:
+        # Return what can be returned
+        returnable = {}
+        for var, value in changes.items():
+            try:
+                dill.dumps(value)
+                returnable[var] = value
+            except Exception as e:
+                marcel.util.print_to_stderr(env, f'The value of {var} cannot be saved: {type(e).__name__}: {e}')
+        return dill.dumps(returnable)
+
+
 class Job:
 
     # Job state
@@ -95,12 +115,15 @@ class Job:
 
     # Params
     JOIN_DELAY_SEC = 0.2
+    RESULT_DELAY_SEC = 5
 
     def __init__(self, env, command):
         self.env = env
         self.command = command
         self.state = Job.RUNNING_FOREGROUND
         self.process = None
+        self.reader = None
+        self.results_awaited = False
         self.start_process()
 
     def __repr__(self):
@@ -170,6 +193,7 @@ class Job:
         # other direction
         debug(f'About to spawn process for {self.command.source}')
         reader, writer = mp.Pipe(duplex=False)
+        self.reader = reader
         JobControl.only.child_listener.add_listener(reader)
         debug('Job.start_process')
         self.process = mp.Process(target=run_command_in_child, args=(self.env, self.command, writer))
@@ -197,13 +221,22 @@ class Job:
             self.state = Job.DEAD
             self.process = None
 
+    # Wait for the listener to receive everything that the job's process, no longer running, has sent.
+    def await_results(self):
+        if not self.results_awaited:
+            self.results_awaited = True
+            end = time.monotonic() + Job.RESULT_DELAY_SEC
+            while JobControl.only.child_listener.listening(self.reader) and time.monotonic() < end:
+                time.sleep(0.005)
+
 
 class ChildListener(threading.Thread):
 
-    def __init__(self, child_completion_handler):
+    def __init__(self):
         super().__init__()
         self.daemon = True
-        self.child_completion_handler = child_completion_handler
+        # What has been received, to be processed by the main thread.
+        self.results = collections.deque()
         self.waiter = threading.Condition()
         self.listeners = []
         self.stop = False
@@ -214,6 +247,10 @@ class ChildListener(threading.Thread):
         self.waiter.notify()
         self.waiter.release()
 
+    def listening(self, listener):
+        with self.waiter:
+            return listener in self.listeners
+
     def run(self):
         to_remove = []
         while True:
@@ -226,6 +263,7 @@ class ChildListener(threading.Thread):
             while not self.stop and len(self.listeners) == 0:
                 self.waiter.wait(1)
             if self.stop:
+                self.waiter.release()
                 return
             listeners = list(self.listeners)
             self.waiter.release()
@@ -234,8 +272,8 @@ class ChildListener(threading.Thread):
                 try:
                     input = listener.recv()
                     if input is not None:
-                        self.child_completion_handler(dill.loads(input))
-                except EOFError:
+                        self.results.append(input)
+                except (EOFError, OSError):
                     to_remove.append(listener)
 
     def stop_listening(self):
@@ -250,7 +288,8 @@ class JobControl:
     def __init__(self, env, child_completion_handler):
         self.env = env
         self._jobs = []
-        self.child_listener = ChildListener(child_completion_handler)
+        self.child_completion_handler = child_completion_handler
+        self.child_listener = ChildListener()
         self.child_listener.start()
         signal.signal(signal.SIGINT, self.ctrl_c_handler)
         signal.signal(signal.SIGTSTP, self.ctrl_z_handler)
@@ -276,7 +315,7 @@ class JobControl:
             return self._jobs[jid]
         elif pid is not None:
             for job in self._jobs:
-                if job.process.pid == pid:
+                if job.process is not None and job.process.pid == pid:
                     return job
             return None
         else:
@@ -294,10 +333,27 @@ class JobControl:
         # TODO: but that would preclude Python 3.6.
         foreground = self.foreground()
         while foreground and foreground.state != Job.DEAD:
-            foreground.process.join(0.1)
+            # ctrl-c may be handled at any time, resetting foreground.process
+            process = foreground.process
+            if process is not None:
+                process.join(0.1)
             foreground = self.foreground()
+        self.apply_results()
         debug(f'idle')
 
+    # Apply the namespace changes of jobs that have completed.
+    def apply_results(self):
+        for job in self._jobs:
+            job.check_alive()
+            if job.state == Job.DEAD:
+                job.await_results()
+        while len(self.child_listener.results) > 0:
+            results = self.child_listener.results.popleft()
+            try:
+                self.child_completion_handler(dill.loads(results))
+            except Exception as e:
+                marcel.util.print_to_stderr(self.env, f'{type(e).__name__}: {e}')
+
     def ctrl_c_handler(self, signum, frame):
         debug(f'ctrl c handler')
         assert signum == signal.SIGINT
diff --git a/marcel/main.py b/marcel/main.py
index 9c102da..e481e54 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -220,6 +220,8 @@ class MainInteractive(MainScript):
                         self.input = (self.reader.input() if interactive
                                       else input())
                     # else: Restarted main, and self.input was from the previous incarnation.
+                    # Background jobs may have completed
+                    self.job_control.apply_results()
                     self.check_for_config_update()
                     self.parse_and_run_command(self.input)
                     self.input = None
-- 
2.43.0


From b21223ff585d31cf7a14d5a41b1216446007ed7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:00 +0000
Subject: [PATCH 43/50] fix: an installation or upgrade interrupted at some
 points lost the startup script or could not be completed; workspaces without
 home could not be opened

---
 marcel/object/workspace.py          |  2 +-
 marcel/persistence/storagelayout.py | 41 +++++++++++++++++++++++------
 2 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index a149adb..b460ee7 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -119,7 +119,7 @@ class WorkspaceProperties(object):
                 'save_time': self.save_time}
 
     def from_persistent_state(self, persistent):
-        self.home = persistent['home']
+        self.home = persistent.get('home', None)
         self.create_time = persistent['create_time']
         self.open_time = persistent['open_time']
         self.save_time = persistent['save_time']
diff --git a/marcel/persistence/storagelayout.py b/marcel/persistence/storagelayout.py
index d8aa280..c0b0181 100644
--- a/marcel/persistence/storagelayout.py
+++ b/marcel/persistence/storagelayout.py
@@ -30,7 +30,15 @@ def default_initial_config():
     return marcel.persistence.defaultinitialconfig.CONFIG
 
 
+# Exists while a new installation is being initialized.
+def initializing_path():
+    return marcel.locations.Locations().config_base / 'marcel' / 'INITIALIZING'
+
+
 def storage_layout():
+    if initializing_path().exists():
+        # An earlier initialization didn't complete
+        return None
     # Check newest first. It is possible that old migrations didn't clean up properly,
     # e.g. original to xdg.
     for layout_class in (StorageLayoutPromptToolkit,
@@ -75,6 +83,9 @@ def ensure_current_locked(testing, initial_config):
     def initialize_persistent_config_and_data(initial_config):
         # These calls ensure the config and data directories exist.
         locations.config()
+        if not initializing_path().exists():
+            quarantine_default()
+            initializing_path().touch()
         locations.config_ws()
         locations.config_bws()
         locations.data()
@@ -83,6 +94,10 @@ def ensure_current_locked(testing, initial_config):
         # Version
         write_version(marcel.version.VERSION)
         # Default workspace
+        Workspace.default().create_on_disk(initial_config)
+        initializing_path().unlink()
+
+    def quarantine_default():
         default = Workspace.default()
         if locations.data_ws(default).exists():
             # Its config directory is gone
@@ -91,7 +106,6 @@ def ensure_current_locked(testing, initial_config):
                                         f'Default workspace was damaged, and will be recreated. '
                                         f'What is left of it will be moved to {locations.data_bws() / str(now)}')
             default.mark_broken(now)
-        default.create_on_disk(initial_config)
 
     locations = marcel.locations.Locations()
     layout = storage_layout()
@@ -142,6 +156,13 @@ class StorageLayout(object):
             raise marcel.exception.KillShellException(
                 f'Migration({type(self)}) error: {path} should not exist: {info}')
 
+    # source and target are in the same directory tree
+    @staticmethod
+    def rename_if_exists(source, target):
+        if source.exists():
+            source.rename(target)
+
+    # source and target may be on different filesystems
     @staticmethod
     def move_if_exists(source, target):
         if source.exists():
@@ -209,10 +230,13 @@ class StorageLayoutWS1(StorageLayout):
 
     def migrate(self):
         def fix_default_workspace(base_dir, *filenames):
-            new_default_workspace_dir = base_dir / '__DEFAULT_WORKSPACE__'
-            new_default_workspace_dir.mkdir(parents=True, exist_ok=True)
-            for filename in filenames:
-                self.move_if_exists(base_dir / filename, new_default_workspace_dir / filename)
+            default_workspace_dir = base_dir / '__DEFAULT_WORKSPACE__'
+            if not default_workspace_dir.exists():
+                new_default_workspace_dir = base_dir / '__NEW_DEFAULT_WORKSPACE__'
+                new_default_workspace_dir.mkdir(parents=True, exist_ok=True)
+                for filename in filenames:
+                    self.rename_if_exists(base_dir / filename, new_default_workspace_dir / filename)
+                new_default_workspace_dir.rename(default_workspace_dir)
 
         # Move default workspace files to __DEFAULT_WORKSPACE__ directory
         fix_default_workspace(self.data, 'history', 'reservoirs')
@@ -223,7 +247,8 @@ class StorageLayoutWS1(StorageLayout):
         return layout
 
     def match(self):
-        return (self.config / '.WORKSPACE').exists()
+        return ((self.config / '.WORKSPACE').exists() or
+                (self.config / '__NEW_DEFAULT_WORKSPACE__').exists())
 
 
 # Version >= 0.24.0. Default workspace in its own directory.
@@ -250,13 +275,13 @@ class StorageLayoutWS2(StorageLayout):
                 if workspace_dir.name == moved_workspace_dir.name:
                     workspace_dir.rename(new_workspace_dir / 'workspace')
                 elif workspace_dir.name != '__DEFAULT_WORKSPACE__' and is_workspace(workspace_dir):
-                    shutil.move(workspace_dir, new_workspace_dir)
+                    workspace_dir.rename(new_workspace_dir / workspace_dir.name)
                     self.should_not_exist(workspace_dir, f'Tried to move workspace dir {workspace_dir}')
             # Create dir for broken workspaces
             new_broken_dir = base_dir / 'broken'
             new_broken_dir.mkdir(parents=False, exist_ok=True)
             # Rename __DEFAULT_WORKSPACE__ to __DEFAULT__
-            self.move_if_exists(base_dir / '__DEFAULT_WORKSPACE__', new_workspace_dir / '__DEFAULT__')
+            self.rename_if_exists(base_dir / '__DEFAULT_WORKSPACE__', new_workspace_dir / '__DEFAULT__')
 
         fix_dirs(self.data)
         fix_dirs(self.config)
-- 
2.43.0


From 3487f6909ddc4c44d49a034fc5a35f03e2b14099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:06 +0000
Subject: [PATCH 44/50] fix: instances of classes of the startup script were
 not instances of them after reopening a workspace, could not be stored in
 reservoirs, and, as any value that cannot be pickled, kept all jobs from
 running

---
 marcel/env.py              |  6 ++-
 marcel/job.py              | 20 ++------
 marcel/object/workspace.py | 20 +++-----
 marcel/picklefile.py       |  6 +--
 marcel/pickling.py         | 99 ++++++++++++++++++++++++++++++++++++++
 5 files changed, 118 insertions(+), 33 deletions(-)
 create mode 100644 marcel/pickling.py

diff --git a/marcel/env.py b/marcel/env.py
index 571e56a..ac73a5c 100644
--- a/marcel/env.py
+++ b/marcel/env.py
@@ -32,6 +32,7 @@ import marcel.object.color
 import marcel.object.file
 import marcel.object.process
 import marcel.opmodule
+import marcel.pickling
 import marcel.plat
 import marcel.reservoir
 import marcel.structish
@@ -106,10 +107,11 @@ class Environment(object):
         return {'usage': self.usage,
                 'trace': self.trace,
                 'workspace': None if self.workspace.is_default() else self.workspace.name,
-                'namespace': self.workspace.vars().to_persistent_state()}
+                'namespace': marcel.pickling.dumps_vars(self.workspace.vars().to_persistent_state())}
 
     def __setstate__(self, state):
         from marcel.object.workspace import Workspace
+        from marcel import pickling
         if Environment.current is not None:
             # This process already has an environment, e.g. self is reachable from a function that was read
             # from a file. Creating another environment would replace the namespace of the open workspace.
@@ -126,7 +128,7 @@ class Environment(object):
             env = marcel.api._ENV
         else:
             env = Environment.create(workspace=workspace, usage=usage)
-        env.workspace.namespace.from_persistent_state(env, namespace)
+        env.workspace.namespace.from_persistent_state(env, pickling.loads(namespace))
         env.trace = trace
         self.__dict__ = env.__dict__
 
diff --git a/marcel/job.py b/marcel/job.py
index af65f06..d972f35 100644
--- a/marcel/job.py
+++ b/marcel/job.py
@@ -22,10 +22,9 @@ import sys
 import threading
 import time
 
-import dill
-
 import marcel.exception
 import marcel.object.error
+import marcel.pickling
 import marcel.reservoir
 import marcel.util
 
@@ -90,18 +89,9 @@ def run_command_in_child(env, command, writer):
 
 
 def pickle_namespace_changes(env, changes):
-    try:
-        return dill.dumps(changes)
-    except Exception:
-        # Return what can be returned
-        returnable = {}
-        for var, value in changes.items():
-            try:
-                dill.dumps(value)
-                returnable[var] = value
-            except Exception as e:
-                marcel.util.print_to_stderr(env, f'The value of {var} cannot be saved: {type(e).__name__}: {e}')
-        return dill.dumps(returnable)
+    return marcel.pickling.dumps_vars(
+        changes,
+        lambda var, e: marcel.util.print_to_stderr(env, f'The value of {var} cannot be saved: {type(e).__name__}: {e}'))
 
 
 class Job:
@@ -350,7 +340,7 @@ class JobControl:
         while len(self.child_listener.results) > 0:
             results = self.child_listener.results.popleft()
             try:
-                self.child_completion_handler(dill.loads(results))
+                self.child_completion_handler(marcel.pickling.loads(results))
             except Exception as e:
                 marcel.util.print_to_stderr(self.env, f'{type(e).__name__}: {e}')
 
diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index b460ee7..3c19f27 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -28,6 +28,7 @@ import marcel.exception
 import marcel.locations
 import marcel.nestednamespace
 import marcel.object.renderable
+import marcel.pickling
 import marcel.reservoir
 import marcel.util
 
@@ -307,6 +308,7 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
                     if initial_namespace:
                         initial_namespace.add_to_namespace(self.namespace, env)
                     config_dict = self.config_script.run()
+                    marcel.pickling.startup_definitions = config_dict
                     for var, value in config_dict.items():
                         self.namespace.assign_permanent(var, value)
                     # Startup scripts, which run next, may change these vars.
@@ -493,23 +495,15 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
 
     def read_environment(self):
             with open(self.locations.data_ws_env(self), 'rb') as environment_file:
-                unpickler = dill.Unpickler(environment_file)
+                unpickler = marcel.pickling.Unpickler(environment_file)
                 return unpickler.load()
 
     def write_environment(self, persistent_state):
         assert persistent_state is not None
-        try:
-            contents = dill.dumps(persistent_state)
-        except Exception:
-            # Save what can be saved
-            saveable = {}
-            for var, value in persistent_state.items():
-                try:
-                    dill.dumps(value)
-                    saveable[var] = value
-                except Exception as e:
-                    marcel.util.print_to_stderr(None, f'The value of {var} cannot be saved: {type(e).__name__}: {e}')
-            contents = dill.dumps(saveable)
+        contents = marcel.pickling.dumps_vars(
+            persistent_state,
+            lambda var, e: marcel.util.print_to_stderr(
+                None, f'The value of {var} cannot be saved: {type(e).__name__}: {e}'))
         self.write_file(self.locations.data_ws_env(self), contents)
 
     # An interruption leaves either the old contents or the new.
diff --git a/marcel/picklefile.py b/marcel/picklefile.py
index ef4c08b..c50dc36 100644
--- a/marcel/picklefile.py
+++ b/marcel/picklefile.py
@@ -13,12 +13,12 @@
 # You should have received a copy of the GNU General Public License
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 
-import dill
 import pathlib
 import os
 import time
 
 import marcel.exception
+import marcel.pickling
 
 
 class PickleFileUsageError(marcel.exception.KillCommandException):
@@ -116,7 +116,7 @@ class Reader(Access):
     def __init__(self, owner):
         super().__init__(owner)
         self.file = open(owner.path, 'rb')
-        self.unpickler = dill.Unpickler(self.file)
+        self.unpickler = marcel.pickling.Unpickler(self.file)
 
     def __next__(self):
         try:
@@ -154,7 +154,7 @@ class Writer(Access):
         if self.file is None:
             self.owner.path.touch(mode=0o600)
             self.file = open(self.owner.path, 'ab' if self.append else 'wb')
-            self.pickler = dill.Pickler(self.file)
+            self.pickler = marcel.pickling.Pickler(self.file)
             self.last_flush = time.time()
 
     def write(self, x):
diff --git a/marcel/pickling.py b/marcel/pickling.py
new file mode 100644
index 0000000..7ff7227
--- /dev/null
+++ b/marcel/pickling.py
@@ -0,0 +1,99 @@
+# This file is part of Marcel.
+# 
+# Marcel is free software: you can redistribute it and/or modify it
+# under the terms of the GNU General Public License as published by the
+# Free Software Foundation, either version 3 of the License, (or at your
+# option) any later version.
+# 
+# Marcel is distributed in the hope that it will be useful, but WITHOUT
+# ANY WARRANTY; without even the implied warranty of MERCHANTABILITY or
+# FITNESS FOR A PARTICULAR PURPOSE.  See the GNU General Public License
+# for more details.
+# 
+# You should have received a copy of the GNU General Public License
+# along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
+
+
+import io
+import sys
+import types
+
+import dill
+
+
+# The names and values defined by the startup script of the open workspace. Classes and functions defined there, (as
+# opposed to imported), do not belong to a module. dill would write copies of them, and reading an instance of such a class
+# would yield an instance of the copy. So refer to these classes and functions by name instead. The copy is used only if
+# a later version of the startup script doesn't define the name.
+startup_definitions = {}
+
+
+def is_startup_definition(x):
+    if isinstance(x, (type, types.FunctionType)) and startup_definitions.get(x.__name__, None) is x:
+        module = sys.modules.get(x.__module__, None)
+        return getattr(module, x.__name__, None) is not x
+    return False
+
+
+class Pickler(dill.Pickler):
+
+    def __init__(self, file):
+        # recurse: Functions are written with the global variables that they use, instead of all of them.
+        super().__init__(file, recurse=True)
+        self.copies = {}
+
+    def persistent_id(self, x):
+        if not is_startup_definition(x):
+            return None
+        name = x.__name__
+        if name not in self.copies:
+            self.copies[name] = None  # The definition may be recursive
+            try:
+                self.copies[name] = dill.dumps(x, recurse=True)
+            except Exception:
+                pass
+        return name, self.copies[name]
+
+
+class Unpickler(dill.Unpickler):
+
+    def __init__(self, file):
+        super().__init__(file)
+        self.copies = {}
+
+    def persistent_load(self, id):
+        name, copy = id
+        if name in startup_definitions:
+            return startup_definitions[name]
+        if name not in self.copies:
+            if copy is None:
+                raise dill.UnpicklingError(f'{name} is not defined by the startup script')
+            self.copies[name] = dill.loads(copy)
+        return self.copies[name]
+
+
+def dumps(x):
+    file = io.BytesIO()
+    Pickler(file).dump(x)
+    return file.getvalue()
+
+
+def loads(b):
+    return Unpickler(io.BytesIO(b)).load()
+
+
+# Pickle a dict whose keys are variable names, omitting variables whose values cannot be pickled. on_omission is called for
+# each of these.
+def dumps_vars(vars, on_omission=None):
+    try:
+        return dumps(vars)
+    except Exception:
+        picklable = {}
+        for var, value in vars.items():
+            try:
+                dumps(value)
+                picklable[var] = value
+            except Exception as e:
+                if on_omission:
+                    on_omission(var, e)
+        return dumps(picklable)
-- 
2.43.0


From 68cf5688df90e5862f4099d5c193541bfa84d563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:35 +0000
Subject: [PATCH 45/50] fix: commands with union, args of several pipelines
 failed when run as jobs

---
 marcel/core.py     | 2 +-
 marcel/pipeline.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/marcel/core.py b/marcel/core.py
index 01533d1..1e72a83 100644
--- a/marcel/core.py
+++ b/marcel/core.py
@@ -97,7 +97,7 @@ class Op(AbstractOp):
             ensure_compiled(arg)
 
     # Generates the pipelines that are args of this op.
-    def pipelines(self):
+    def pipeline_args(self):
         import marcel.pipeline
 
         def find_pipelines(x):
diff --git a/marcel/pipeline.py b/marcel/pipeline.py
index 4008e5f..8be3372 100644
--- a/marcel/pipeline.py
+++ b/marcel/pipeline.py
@@ -375,7 +375,7 @@ class PipelineMarcel(Pipeline):
         for op in self.executable.ops:
             if condition(op):
                 return True
-            pipelines = list(op.pipelines())
+            pipelines = list(op.pipeline_args())
             if op.op_name() == 'runpipeline' and op.var not in visited:
                 visited.add(op.var)
                 pipelines.append(env.getvar(op.var))
-- 
2.43.0


From e5246a59258c85dca22e324741c8a4bd0dd39289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:35 +0000
Subject: [PATCH 46/50] fix: items appended to a reservoir were replaced by
 others on loading, and modified items were stored as they were before

---
 marcel/pickling.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/marcel/pickling.py b/marcel/pickling.py
index 7ff7227..9a70515 100644
--- a/marcel/pickling.py
+++ b/marcel/pickling.py
@@ -37,11 +37,20 @@ def is_startup_definition(x):
 
 class Pickler(dill.Pickler):
 
+    # A file may have any number of objects, written by any number of Picklers (e.g. by appending to a reservoir), and
+    # all are read by one Unpickler. So each object is written without references to the ones preceding it. Later protocols
+    # number the parts of an object relative to what the Unpickler has already read, which is not known here.
+    PROTOCOL = 3
+
     def __init__(self, file):
         # recurse: Functions are written with the global variables that they use, instead of all of them.
-        super().__init__(file, recurse=True)
+        super().__init__(file, protocol=Pickler.PROTOCOL, recurse=True)
         self.copies = {}
 
+    def dump(self, x):
+        self.clear_memo()
+        super().dump(x)
+
     def persistent_id(self, x):
         if not is_startup_definition(x):
             return None
-- 
2.43.0


From 8a037731c243162589a422e62baaa32153160404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:37 +0000
Subject: [PATCH 47/50] fix: commands referring to functions of the startup
 script could not be run as jobs, and fork changed the classes of items

---
 marcel/core.py           |  9 +++++++++
 marcel/op/forkmanager.py | 18 ++++++++----------
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/marcel/core.py b/marcel/core.py
index 1e72a83..e0b89c2 100644
--- a/marcel/core.py
+++ b/marcel/core.py
@@ -21,6 +21,7 @@ import marcel.function
 import marcel.helpformatter
 import marcel.object.error
 import marcel.opmodule
+import marcel.pickling
 import marcel.util
 
 Error = marcel.object.error.Error
@@ -282,6 +283,14 @@ class Command:
     def __repr__(self):
         return f'({type(self.pipeline)}) {self.pipeline}'
 
+    # For passing a command to a job's process. The pipeline may refer to functions and classes of the startup script.
+    def __getstate__(self):
+        return {'source': self.source, 'pipeline': marcel.pickling.dumps(self.pipeline)}
+
+    def __setstate__(self, state):
+        self.source = state['source']
+        self.pipeline = marcel.pickling.loads(state['pipeline'])
+
     def execute(self, env, remote=False):
         with env.check_nesting():
             # Clear env changes iff remote.vars_written
diff --git a/marcel/op/forkmanager.py b/marcel/op/forkmanager.py
index a8060a2..6cd71d0 100644
--- a/marcel/op/forkmanager.py
+++ b/marcel/op/forkmanager.py
@@ -17,13 +17,12 @@ import multiprocessing as mp
 import multiprocessing.connection
 import os
 
-import dill
-
 import marcel.argsparser
 import marcel.core
 import marcel.exception
 import marcel.object.cluster
 import marcel.object.error
+import marcel.pickling
 import marcel.util
 
 
@@ -48,7 +47,7 @@ class SendToParent(marcel.core.Op):
     def receive(self, env, x):
         dump(f'{self} receive {x}')
         try:
-            pickled = dill.dumps(x)
+            pickled = marcel.pickling.dumps(x)
         except Exception as e:
             self.receive_error(env, self.error(x, f'Cannot be transmitted: {e}'))
             return
@@ -57,12 +56,12 @@ class SendToParent(marcel.core.Op):
 
     def receive_error(self, env, error):
         dump(f'{self} receive_error {error}')
-        self.writer.send(dill.dumps(error))
+        self.writer.send(marcel.pickling.dumps(error))
 
 
 def run_pipeline_in_child(env, pipeline, thread_id, writer):
     try:
-        pipeline = dill.loads(pipeline)
+        pipeline = marcel.pickling.loads(pipeline)
         # Compiled functions were not transmitted
         pipeline.ensure_functions_compiled(env)
         pipeline.append(SendToParent(writer, thread_id))
@@ -76,7 +75,7 @@ def run_pipeline_in_child(env, pipeline, thread_id, writer):
     except BaseException as e:
         dump(f'caught {type(e)}: {e}')
         cause = e if isinstance(e, marcel.exception.KillCommandException) else f'{type(e)}: {e}'
-        writer.send(dill.dumps(marcel.object.error.Error(cause)))
+        writer.send(marcel.pickling.dumps(marcel.object.error.Error(cause)))
     finally:
         writer.close()
         dump(f'closed writer {id(writer)}')
@@ -161,14 +160,13 @@ class ForkWorker(object):
     def start(self):
         dump(f'{self} start_process {self.pipeline}')
         self.process = mp.Process(target=run_pipeline_in_child,
-                                  args=(self.env, dill.dumps(self.pipeline), self.thread_id, self.writer))
+                                  args=(self.env, marcel.pickling.dumps(self.pipeline), self.thread_id, self.writer))
         dump(f'{self} created {self.process}')
         self.process.daemon = True
         #
         # from marcel.util import PickleDebugger
         # import sys
-        # import dill
-        # PickleDebugger().check(dill.dumps(self.pipeline))
+        #         # PickleDebugger().check(marcel.pickling.dumps(self.pipeline))
         # sys.exit(123)
         #
         self.process.start()
@@ -183,7 +181,7 @@ class ForkWorker(object):
         except EOFError:
             dump(f'{self} consume_input EOF')
             return False
-        x = dill.loads(x)
+        x = marcel.pickling.loads(x)
         dump(f'{self} consume_input receive {x}')
         if isinstance(x, marcel.object.error.Error):
             self.op.send_error(self.env, x)
-- 
2.43.0


From 5d3eab2b1f5bf28e41046307876f43da877747b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:05 +0000
Subject: [PATCH 48/50] fix: reading CSV, pickle and several files lost or
 changed records, writing pickles after an error lost items, files named like
 ~x could not be used

---
 marcel/op/filenames.py |   2 +-
 marcel/op/read.py      | 169 ++++++++++++++++++-----------------------
 marcel/op/write.py     |  17 ++++-
 marcel/picklefile.py   |  18 ++---
 marcel/util.py         |   3 +-
 5 files changed, 95 insertions(+), 114 deletions(-)

diff --git a/marcel/op/filenames.py b/marcel/op/filenames.py
index 7fb2988..4136b48 100644
--- a/marcel/op/filenames.py
+++ b/marcel/op/filenames.py
@@ -78,7 +78,7 @@ class Filenames(object):
             # Resolve . and ..
             filename = os.path.normpath(filename)
             # Convert to Path and resolve ~
-            path = pathlib.Path(filename).expanduser()
+            path = pathlib.Path(os.path.expanduser(filename))
             # If path is relative, specify what it is relative to.
             if not path.is_absolute():
                 path = self.current_dir / path
diff --git a/marcel/op/read.py b/marcel/op/read.py
index acd6dab..f483b6f 100644
--- a/marcel/op/read.py
+++ b/marcel/op/read.py
@@ -15,6 +15,7 @@
 
 from collections import namedtuple
 import csv
+import sys
 
 import marcel.core
 import marcel.exception
@@ -144,7 +145,7 @@ class ReadArgsParser(marcel.op.filenamesop.FilenamesOpArgsParser):
 class Read(marcel.op.filenamesop.FilenamesOp):
 
     def __init__(self):
-        super().__init__(Read.read_file)
+        super().__init__(Read.visit_file)
         self.csv = None
         self.tsv = None
         self.headings = None
@@ -215,11 +216,29 @@ class Read(marcel.op.filenamesop.FilenamesOp):
 
     # Internal
 
+    # Action for files located from the filenames args. A file identified by more than one of them is read once.
+    @staticmethod
+    def visit_file(op, env, file):
+        if file.path not in op.emitted_paths:
+            op.emitted_paths.add(file.path)
+            Read.read_file(op, env, file)
+
     @staticmethod
     def read_file(op, env, file):
         assert type(file) is File, f'{type(file)} {file}'
         if file.is_file():
-            op.reader.read_file(env, file, (file,) if op.label else None)
+            label = (file,) if op.label else None
+            records = op.reader.records(env, file, label)
+            while True:
+                try:
+                    record = next(records)
+                except StopIteration:
+                    break
+                except Exception as e:
+                    # The file can't be read, or its contents don't have the expected format. Go on with the other files.
+                    op.non_fatal_error(env, input=file, message=f'Unable to read {file.path}: {e}')
+                    break
+                op.send(env, record)
 
 
 class Reader:
@@ -227,7 +246,8 @@ class Reader:
     def __init__(self, op):
         self.op = op
 
-    def read_file(self, env, file, label):
+    # Generates the contents of the file, including the label, (a 1-tuple), unless it is None.
+    def records(self, env, file, label):
         assert False
 
 
@@ -236,18 +256,11 @@ class TextReader(Reader):
     def __init__(self, op):
         super().__init__(op)
 
-    def read_file(self, env, file, label):
-        with marcel.util.open_file(file.path,
-                                   'r',
-                                   marcel.exception.KillAndResumeException) as input:
-            try:
-                line = input.readline()
-                while len(line) > 0:
-                    line = line.rstrip('\r\n')
-                    self.op.send(env, label + (line,) if label else line)
-                    line = input.readline()
-            except StopIteration:
-                pass
+    def records(self, env, file, label):
+        with open(file.path) as input:
+            for line in input:
+                line = line.rstrip('\r\n')
+                yield label + (line,) if label else line
 
 
 class PickleReader(Reader):
@@ -255,14 +268,14 @@ class PickleReader(Reader):
     def __init__(self, op):
         super().__init__(op)
 
-    def read_file(self, env, file, label):
+    def records(self, env, file, label):
         with marcel.picklefile.PickleFile(file.path).reader() as input:
-            try:
-                while True:
+            while True:
+                try:
                     x = input.read()
-                    self.op.send(env, (label, x) if label else x)
-            except EOFError:
-                pass
+                except EOFError:
+                    break
+                yield label + (tuple(x) if type(x) in (tuple, list) else (x,)) if label else x
 
 
 class JSONReader(Reader):
@@ -270,71 +283,56 @@ class JSONReader(Reader):
     def __init__(self, op):
         super().__init__(op)
 
-    def read_file(self, env, file, label):
-        lines = None
-        with marcel.util.open_file(file.path,
-                                   'r',
-                                   marcel.exception.KillAndResumeException) as input:
-            lines = input.readlines()
-        assert lines is not None
-        json = marcel.jsonutil.JSONUtil().decoder.decode(' '.join(lines))
-        self.op.send(env, json)
+    def records(self, env, file, label):
+        with open(file.path) as input:
+            json = marcel.jsonutil.JSONUtil().decoder.decode(input.read())
+        yield label + (json,) if label else json
 
 
 class CSVReader(Reader):
     IDENTIFIER_CHARS = '_0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
 
+    # The default limit on the size of a field is 128k
+    csv.field_size_limit(sys.maxsize)
+
     def __init__(self, op, delimiter):
         super().__init__(op)
-        self.input = InputIterator(self)
-        self.reader = csv.reader(self.input, delimiter=delimiter)
+        self.delimiter = delimiter
         self.headings = op.headings
         self.skip_headings = op.skip_headings
+
+    def records(self, env, file, label):
         # For --headings
-        self.named_tuple = None
-        self.n_columns = None
-
-    def read_file(self, env, file, label):
-        with marcel.util.open_file(file.path,
-                                   'r',
-                                   marcel.exception.KillAndResumeException) as input:
-            try:
-                first = True
-                line = input.readline()
-                while len(line) > 0:
-                    line = line.rstrip('\r\n')
-                    self.input.set_current(line)
-                    out = tuple(next(self.reader))
-                    if first and (self.headings or self.skip_headings):
-                        if self.headings:
-                            try:
-                                headings = self.extract_headings(out)
-                                self.named_tuple = namedtuple('csvtuple', headings)
-                                self.n_columns = len(headings)
-                            except ValueError as e:
-                                self.op.non_fatal_error(env,
-                                                        line,
-                                                        f'Cannot generate identifiers from headings: {e}')
+        named_tuple = None
+        n_columns = None
+        # newline='': A quoted field may contain line separators.
+        with open(file.path, newline='') as input:
+            first = True
+            for row in csv.reader(input, delimiter=self.delimiter):
+                out = tuple(row)
+                if first and (self.headings or self.skip_headings):
+                    if self.headings:
+                        try:
+                            headings = self.extract_headings(out)
+                            named_tuple = namedtuple('csvtuple', headings)
+                            n_columns = len(headings)
+                        except ValueError as e:
+                            self.op.non_fatal_error(env,
+                                                    out,
+                                                    f'Cannot generate identifiers from headings: {e}')
+                else:
+                    if label:
+                        out = label + out
+                    if named_tuple is None:
+                        yield out
+                    elif len(out) <= n_columns:
+                        yield named_tuple(*out, *((None,) * (n_columns - len(out))))
                     else:
-                        if label:
-                            out = label + tuple(out)
-                        if self.named_tuple:
-                            try:
-                                if len(out) < self.n_columns:
-                                    out = out + ((None,) * (self.n_columns - len(out)))
-                                out = self.named_tuple(*out)
-                            except Exception as e:
-                                self.op.non_fatal_error(env,
-                                                        line,
-                                                        'Incompatible with headings, '
-                                                        '(probably too many fields).')
-                                out = None
-                        if out is not None:
-                            self.op.send(env, out)
-                    line = input.readline()
-                    first = False
-            except StopIteration:
-                pass
+                        self.op.non_fatal_error(env,
+                                                out,
+                                                'Incompatible with headings, '
+                                                '(probably too many fields).')
+                first = False
 
     def extract_headings(self, fields):
         headings = []
@@ -350,24 +348,3 @@ class CSVReader(Reader):
             # namedtuple construction will complain if this is the case.
             headings.append(field)
         return headings
-
-
-class InputIterator:
-
-    def __init__(self, op):
-        self.op = op
-        self.current = None
-
-    def __iter__(self):
-        return self
-
-    def __next__(self):
-        if self.current:
-            next = self.current
-            self.current = None
-            return next
-        else:
-            raise StopIteration()
-
-    def set_current(self, x):
-        self.current = x
diff --git a/marcel/op/write.py b/marcel/op/write.py
index 43eb855..65daa09 100644
--- a/marcel/op/write.py
+++ b/marcel/op/write.py
@@ -203,6 +203,9 @@ class Writer(object):
     def receive_error(self, env, error):
         self.receive(env, error)
 
+    def path(self):
+        return pathlib.Path(os.path.expanduser(os.path.normpath(self.op.filename)))
+
     def flush(self, env):
         pass
 
@@ -238,8 +241,7 @@ class TextWriter(Writer):
         if self._output is None:
             op = self.op
             if op.filename:
-                path = pathlib.Path(os.path.normpath(op.filename)).expanduser()
-                self._output = marcel.util.open_file(path,
+                self._output = marcel.util.open_file(self.path(),
                                                      'a' if op.append else 'w',
                                                      marcel.exception.KillCommandException)
             else:
@@ -312,13 +314,20 @@ class PickleWriter(Writer):
     def __init__(self, op):
         super().__init__(op)
         assert op.filename is not None  # Should have been checked in setup
-        self.writer = marcel.picklefile.PickleFile(op.filename).writer(op.append)
+        self.writer = marcel.picklefile.PickleFile(self.path()).writer(op.append)
 
     def receive(self, env, x):
+        self.ensure_open()
         self.writer.write(x)
 
     def flush(self, env):
-        self.writer.ensure_open()
+        self.ensure_open()
 
     def cleanup(self):
         self.writer.close()
+
+    def ensure_open(self):
+        try:
+            self.writer.ensure_open()
+        except OSError as e:
+            raise marcel.exception.KillCommandException(f'Unable to write {self.op.filename}: {e}')
diff --git a/marcel/picklefile.py b/marcel/picklefile.py
index c50dc36..57e5535 100644
--- a/marcel/picklefile.py
+++ b/marcel/picklefile.py
@@ -145,7 +145,6 @@ class Writer(Access):
     def __init__(self, owner, append):
         super().__init__(owner)
         self.append = append
-        self.pickler = None
         self.last_flush = None
 
     # The file is opened (and truncated, unless appending) by the first write, or by an explicit call. Until then,
@@ -154,17 +153,14 @@ class Writer(Access):
         if self.file is None:
             self.owner.path.touch(mode=0o600)
             self.file = open(self.owner.path, 'ab' if self.append else 'wb')
-            self.pickler = marcel.pickling.Pickler(self.file)
             self.last_flush = time.time()
 
     def write(self, x):
         self.ensure_open()
-        try:
-            self.pickler.dump(x)
-            now = time.time()
-            if now - self.last_flush > Writer.FLUSH_INTERVAL_SEC:
-                self.file.flush()
-                self.last_flush = now
-        except:
-            self.close()
-            raise
+        # If x cannot be pickled, then nothing must be written.
+        pickled = marcel.pickling.dumps(x)
+        self.file.write(pickled)
+        now = time.time()
+        if now - self.last_flush > Writer.FLUSH_INTERVAL_SEC:
+            self.file.flush()
+            self.last_flush = now
diff --git a/marcel/util.py b/marcel/util.py
index ddba636..9c11e0e 100644
--- a/marcel/util.py
+++ b/marcel/util.py
@@ -192,8 +192,7 @@ def iterable(x):
 def open_file(path, mode, exception_class):
     try:
         return open(path, mode)
-    # FileNotFoundError should not occur. Missing files handled by FilenamesOp.
-    except (IsADirectoryError, FileExistsError, PermissionError) as e:
+    except OSError as e:
         raise exception_class(f'Unable to open {path} with mode {mode}: {str(e)}')
 
 
-- 
2.43.0


From 654773aa35f16e0db99b503aa7e942d401820ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:43 +0000
Subject: [PATCH 49/50] fix: files that may not be read are skipped by read, as
 before

---
 marcel/op/read.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marcel/op/read.py b/marcel/op/read.py
index f483b6f..a31120d 100644
--- a/marcel/op/read.py
+++ b/marcel/op/read.py
@@ -232,10 +232,10 @@ class Read(marcel.op.filenamesop.FilenamesOp):
             while True:
                 try:
                     record = next(records)
-                except StopIteration:
+                except (StopIteration, PermissionError):
                     break
                 except Exception as e:
-                    # The file can't be read, or its contents don't have the expected format. Go on with the other files.
+                    # E.g. the file's contents don't have the expected format. Go on with the other files.
                     op.non_fatal_error(env, input=file, message=f'Unable to read {file.path}: {e}')
                     break
                 op.send(env, record)
-- 
2.43.0


From e00edbc5393334c595c662ab498412b703a45e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:07 +0000
Subject: [PATCH 50/50] fix: ls and read missed broken links and names with
 pattern characters, failed on directories that may not be searched, and
 mistook ~/..

---
 marcel/op/filenames.py   | 80 +++++++++++++++++++++++++---------------
 marcel/op/filenamesop.py | 17 ++++-----
 marcel/op/ls.py          |  2 +-
 marcel/op/write.py       |  2 +-
 4 files changed, 60 insertions(+), 41 deletions(-)

diff --git a/marcel/op/filenames.py b/marcel/op/filenames.py
index 4136b48..3c9edc2 100644
--- a/marcel/op/filenames.py
+++ b/marcel/op/filenames.py
@@ -13,8 +13,10 @@
 # You should have received a copy of the GNU General Public License
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 
+import glob
 import os
 import pathlib
+import re
 
 import marcel.argsparser
 import marcel.core
@@ -26,7 +28,7 @@ import marcel.util
 File = marcel.object.file.File
 
 
-# - Expand globs
+# - Expand globs. (A name may contain characters of glob patterns, so a path that exists always qualifies.)
 # - Make paths absolute
 # - Resolve ~
 # - Resolve . and ..
@@ -46,41 +48,59 @@ class Filenames(object):
         paths = self._normalize_paths()
         roots = []
         roots_set = set()
-        for path in paths:
-            # Proceed as if path is a glob pattern, but this works for non-globs too.
-            path_str = path.as_posix()
-            if path_str == '/':
-                roots.append(Filenames.ROOT)
-            else:
-                glob_base, glob_pattern = ((Filenames.ROOT, path_str[1:])
-                                           if path.is_absolute() else
-                                           (self.current_dir, path_str))
-                for root in (glob_base.glob(glob_pattern)
-                             if len(glob_pattern) > 0 else
-                             glob_base.iterdir()):
+        for path, glob_pattern in paths:
+            if os.path.lexists(path):  # Symlinks qualify even if broken
+                if path not in roots_set:
+                    roots_set.add(path)
+                    roots.append(path)
+            if glob_pattern:
+                for root in Filenames._expand(glob_pattern):
                     if root not in roots_set:
                         roots_set.add(root)
                         roots.append(root)
         return roots
 
+    # Expand one component of the pattern at a time, so that directories which can't be searched are skipped.
+    @staticmethod
+    def _expand(glob_pattern):
+        paths = [Filenames.ROOT]
+        for component in glob_pattern[1:].split('/'):
+            literal = re.sub(r'\[([*?[])]', r'\1', component)
+            expanded = []
+            for path in paths:
+                if glob.has_magic(component) and glob.escape(literal) != component:
+                    try:
+                        expanded.extend(path.glob(component))
+                    except OSError:
+                        pass
+                elif os.path.lexists(path / literal):
+                    expanded.append(path / literal)
+            paths = expanded
+        return paths
+
+    # Returns a list of (path, glob pattern). The glob pattern is None if there is nothing to expand.
     def _normalize_paths(self):
-        # Unescape escaped chars
-        # Resolve ~
-        # Resolve . and ..
-        # Convert to Path
         paths = []
         for filename in self.filenames:
-            if type(filename) is File:
-                filename = filename.path
-            filename = str(filename)
-            # Unescape escaped chars
-            filename = marcel.util.unescape(filename)
-            # Resolve . and ..
-            filename = os.path.normpath(filename)
-            # Convert to Path and resolve ~
-            path = pathlib.Path(os.path.expanduser(filename))
-            # If path is relative, specify what it is relative to.
-            if not path.is_absolute():
-                path = self.current_dir / path
-            paths.append(path)
+            maybe_glob = type(filename) is not File
+            filename = str(filename if maybe_glob else filename.path)
+            # Resolve ~
+            base = self.current_dir.as_posix()
+            if filename.startswith('~'):
+                user, _, rest = filename.partition('/')
+                home = os.path.expanduser(user)
+                if home != user:
+                    base = home
+                    filename = rest.lstrip('/')
+            # Make absolute, resolve . and .., convert to Path
+            path = pathlib.Path(Filenames._absolute(base, filename))
+            pattern = (Filenames._absolute(glob.escape(base), filename)
+                       if maybe_glob and glob.has_magic(filename) else
+                       None)
+            paths.append((path, pattern))
         return paths
+
+    @staticmethod
+    def _absolute(base, filename):
+        # normpath preserves a leading //
+        return '/' + os.path.normpath(os.path.join(base, filename)).lstrip('/')
diff --git a/marcel/op/filenamesop.py b/marcel/op/filenamesop.py
index 263d83c..64eee61 100644
--- a/marcel/op/filenamesop.py
+++ b/marcel/op/filenamesop.py
@@ -13,6 +13,7 @@
 # You should have received a copy of the GNU General Public License
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 
+import os
 import os
 import pathlib
 import types
@@ -105,6 +106,8 @@ class  FilenamesOp(marcel.core.Op):
         for root in self.roots:
             try:
                 self.visit(env, root, 0)
+            except OSError as e:
+                self.non_fatal_error(env, input=root, message=e.strerror)
             except marcel.exception.KillAndResumeException:
                 pass
 
@@ -126,16 +129,12 @@ class  FilenamesOp(marcel.core.Op):
                 for file in sorted_dir_contents:
                     try:
                         self.visit(env, file, level + 1)
-                    except PermissionError:
-                        self.non_fatal_error(env, input=file, message='Permission denied')
-                    except FileNotFoundError:
-                        self.non_fatal_error(env, input=file, message='No such file or directory')
+                    except OSError as e:
+                        self.non_fatal_error(env, input=file, message=e.strerror)
                     except marcel.exception.KillAndResumeException:
                         pass
-            except PermissionError:
-                self.non_fatal_error(env, input=root, message='Permission denied')
-            except FileNotFoundError:
-                self.non_fatal_error(env, input=root, message='No such file or directory')
+            except OSError as e:
+                self.non_fatal_error(env, input=root, message=e.strerror)
             except marcel.exception.KillAndResumeException:
                 pass
 
@@ -155,7 +154,7 @@ class  FilenamesOp(marcel.core.Op):
                     i += 1
                 nca = i
         self.base = pathlib.Path('/' + '/'.join(nca_parts[1:nca]))
-        if self.base.is_file():
+        if not os.path.isdir(self.base):
             self.base = self.base.parent
 
     def dir_already_visited(self, path):
diff --git a/marcel/op/ls.py b/marcel/op/ls.py
index f0cf6da..0988f32 100644
--- a/marcel/op/ls.py
+++ b/marcel/op/ls.py
@@ -100,7 +100,7 @@ class Ls(marcel.op.filenamesop.FilenamesOp):
         if len(include) > 0:
             buffer.append(f'include={include}')
         if self.filenames:
-            buffer.extend(self.filenames)
+            buffer.extend(str(filename) for filename in self.filenames)
         args = ','.join(buffer)
         return f'ls({args})'
 
diff --git a/marcel/op/write.py b/marcel/op/write.py
index 65daa09..0073ab8 100644
--- a/marcel/op/write.py
+++ b/marcel/op/write.py
@@ -204,7 +204,7 @@ class Writer(object):
         self.receive(env, error)
 
     def path(self):
-        return pathlib.Path(os.path.expanduser(os.path.normpath(self.op.filename)))
+        return pathlib.Path(os.path.normpath(os.path.expanduser(self.op.filename)))
 
     def flush(self, env):
         pass
-- 
2.43.0

