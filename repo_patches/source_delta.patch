From 515065e3dab21793ec2db4b3bc60971cdfdb1f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 01/91] fix: window -o: no windows of padding only, and flush
 even when empty

---
 marcel/op/window.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/marcel/op/window.py b/marcel/op/window.py
index 090d8b5..ee50578 100644
--- a/marcel/op/window.py
+++ b/marcel/op/window.py
@@ -228,16 +228,15 @@ class OverlapWindow(WindowBase):
             self.send_window(env)
 
     def flush(self, env):
-        if len(self.window) > 0:
-            if len(self.window) < self.op.n:
-                while len(self.window) < self.op.n:
-                    self.window.append(OverlapWindow.PADDING)
-                self.send_window(env)
-            for i in range(self.op.n - 1):
-                self.window = self.window[1:]
-                self.window.append(OverlapWindow.PADDING)
-                self.send_window(env)
-            self.op.propagate_flush(env)
+        if len(self.window) == self.op.n:
+            # The window beginning with the first of these inputs has already been sent.
+            self.window = self.window[1:]
+        # Each remaining input begins one more window, which needs padding.
+        while len(self.window) > 0:
+            padding = [OverlapWindow.PADDING] * (self.op.n - len(self.window))
+            self.op.send(env, tuple(self.window + padding))
+            self.window = self.window[1:]
+        self.op.propagate_flush(env)
 
 
 class DisjointWindow(WindowBase):
-- 
2.43.0


From 40c0e07911e552e9455d9ca9aa925c4c39ee527a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 02/91] fix: red: an input causing an error must not contribute
 to the result; unhashable group is an error

---
 marcel/op/red.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/marcel/op/red.py b/marcel/op/red.py
index 37b666a..71c32f2 100644
--- a/marcel/op/red.py
+++ b/marcel/op/red.py
@@ -17,6 +17,7 @@ import types
 
 import marcel.argsparser
 import marcel.core
+import marcel.exception
 import marcel.function
 import marcel.reduction
 
@@ -199,13 +200,9 @@ class NonGroupingReducer(Reducer):
         op = self.op
         if len(x) < self.n:
             op.fatal_error(env, x, 'Input too short.')
-        accumulator = self.accumulator
-        functions = op.functions
-        for i in range(self.n):
-            assert functions is not None
-            assert accumulator is not None
-            assert x is not None
-            accumulator[i] = op.call(env, functions[i], accumulator[i], x[i])
+        # Reduce into a new accumulator, so that an input causing an error has no effect on the result.
+        accumulator = [op.call(env, op.functions[i], self.accumulator[i], x[i]) for i in range(self.n)]
+        self.accumulator = accumulator
         if op.incremental:
             op.send(env, x + tuple(accumulator))
 
@@ -230,13 +227,16 @@ class GroupingReducer(Reducer):
         if len(x) < self.n:
             op.fatal_error(env, x, 'Input too short.')
         group = tuple(self.group(x))
-        accumulator = self.accumulators.get(group, None)
+        try:
+            accumulator = self.accumulators.get(group, None)
+        except TypeError:
+            raise marcel.exception.KillCommandException(f'{group} is not hashable')
         if accumulator is None:
             accumulator = [None] * self.n
-            self.accumulators[group] = accumulator
-        for i in range(self.n):
-            reducer = op.functions[i]
-            accumulator[i] = x[i] if reducer.is_grouping() else op.call(env, reducer, accumulator[i], x[i])
+        # Reduce into a new accumulator, so that an input causing an error has no effect on the result.
+        accumulator = [x[i] if op.functions[i].is_grouping() else op.call(env, op.functions[i], accumulator[i], x[i])
+                       for i in range(self.n)]
+        self.accumulators[group] = accumulator
         if op.incremental:
             op.send(env, x + tuple(self.data(accumulator)))
 
-- 
2.43.0


From 646e8d9d7c3de57dee9b5b431bb999743c682048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 03/91] fix: expand: report a negative position instead of
 failing an assertion

---
 marcel/op/expand.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marcel/op/expand.py b/marcel/op/expand.py
index d8d1aaf..1ec630c 100644
--- a/marcel/op/expand.py
+++ b/marcel/op/expand.py
@@ -96,6 +96,8 @@ class Expand(marcel.core.Op):
 
     def setup(self, env):
         self.position = self.eval_function(env, 'position_arg', int)
+        super().check_arg(self.position is None or self.position >= 0,
+                          'position', 'must be a non-negative int')
         self.expander = SequenceExpander(self) if self.position is None else ComponentExpander(self)
 
     def receive(self, env, x):
-- 
2.43.0


From 67f76bf437b03e693f46fec1f59f121fc17447fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 04/91] fix: red -i: accept list inputs

---
 marcel/op/red.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marcel/op/red.py b/marcel/op/red.py
index 71c32f2..f61f3a2 100644
--- a/marcel/op/red.py
+++ b/marcel/op/red.py
@@ -204,7 +204,7 @@ class NonGroupingReducer(Reducer):
         accumulator = [op.call(env, op.functions[i], self.accumulator[i], x[i]) for i in range(self.n)]
         self.accumulator = accumulator
         if op.incremental:
-            op.send(env, x + tuple(accumulator))
+            op.send(env, tuple(x) + tuple(accumulator))
 
     def flush(self, env):
         op = self.op
@@ -238,7 +238,7 @@ class GroupingReducer(Reducer):
                        for i in range(self.n)]
         self.accumulators[group] = accumulator
         if op.incremental:
-            op.send(env, x + tuple(self.data(accumulator)))
+            op.send(env, tuple(x) + tuple(self.data(accumulator)))
 
     def flush(self, env):
         op = self.op
-- 
2.43.0


From e99f72fc1a7fa7269734aab865098a867f430807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 05/91] fix: window: reporting an error from the predicate must
 not fail

---
 marcel/op/window.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/op/window.py b/marcel/op/window.py
index ee50578..3519cc3 100644
--- a/marcel/op/window.py
+++ b/marcel/op/window.py
@@ -137,7 +137,7 @@ class Window(marcel.core.Op):
         if self.disjoint:
             options.append(f'disjoint={self.disjoint}')
         if self.predicate:
-            options.append(f'predicate={self.predicate.source()}')
+            options.append(f'predicate={self.predicate.snippet()}')
         return f'window({", ".join(options)})'
 
     # AbstractOp
-- 
2.43.0


From 970a76c7469c7c65ae6bdcb567faf3967ac6ff5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 06/91] fix: filter: a failing COMPARE function is an Error in
 the output, not a crash

---
 marcel/op/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/op/filter.py b/marcel/op/filter.py
index 1cc3491..4bc26db 100644
--- a/marcel/op/filter.py
+++ b/marcel/op/filter.py
@@ -116,7 +116,7 @@ class Filter(marcel.core.Op):
     def receive(self, env, x):
         if self.right is None:
             self.load_right(env)
-        c = marcel.util.wrap_op_input(self.compare(*x))
+        c = marcel.util.wrap_op_input(self.call(env, self.compare, *x))
         try:
             if (c in self.right) == self.keep:
                 self.send(env, x)
-- 
2.43.0


From bcd8595080fbb04acb193bde90201a5256920b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 07/91] fix: join: an empty input tuple is an Error in the
 output, not a crash

---
 marcel/op/join.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marcel/op/join.py b/marcel/op/join.py
index 09cae51..05e6bd6 100644
--- a/marcel/op/join.py
+++ b/marcel/op/join.py
@@ -110,6 +110,8 @@ class Join(marcel.core.Op):
             self.pipeline.run_pipeline(env, {})
             self.first = False
         x = tuple(x)
+        if len(x) == 0:
+            self.fatal_error(env, x, 'Input is empty.')
         join_value = x[0]
         try:
             match = self.inner.get(join_value, None)
-- 
2.43.0


From 2310e22c02856924c16547f7ab061a281445f6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 08/91] fix: sort: an input whose key cannot be computed must
 not discard the other inputs

---
 marcel/op/sort.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/marcel/op/sort.py b/marcel/op/sort.py
index 336a853..68b7b82 100644
--- a/marcel/op/sort.py
+++ b/marcel/op/sort.py
@@ -69,16 +69,14 @@ class Sort(marcel.core.Op):
 
     def receive(self, env, x):
         if self.contents is not None:
-            self.contents.append(x)
+            # Compute the key on receipt, so that an input whose key cannot be computed doesn't affect other inputs.
+            self.contents.append((self.call(env, self.key, *x) if self.key else x, x))
 
     def flush(self, env):
         if self.contents is not None:
             try:
-                if self.key:
-                    self.contents.sort(key=(lambda t: self.call(env, self.key, *t)))
-                else:
-                    self.contents.sort()
-                for x in self.contents:
+                self.contents.sort(key=(lambda key_and_x: key_and_x[0]))
+                for _, x in self.contents:
                     self.send(env, x)
                 # Reusing a sort after flush produces non-sorted data! So just clearing self.contents is inadequate.
                 # Setting self.contents to None will result in an obvious failure if this is attempted.
-- 
2.43.0


From a6a6d378ed002929f763bf10f4167e0c632a3a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 09/91] fix: tail: propagate flush once

---
 marcel/op/tail.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/marcel/op/tail.py b/marcel/op/tail.py
index d7ea098..648ce5c 100644
--- a/marcel/op/tail.py
+++ b/marcel/op/tail.py
@@ -108,7 +108,6 @@ class TailKeepN(TailImpl):
                 self.op.send(env, x)
             p = (p + 1) % self.n
             count -= 1
-        self.op.propagate_flush(env)
         self.queue.clear()
 
 
-- 
2.43.0


From 97d1cc8b267d8c5965b1e5aec8bfbb7616c20273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 10/91] fix: args: propagate flush once

---
 marcel/op/args.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/marcel/op/args.py b/marcel/op/args.py
index 5a98ab6..3f39bd4 100644
--- a/marcel/op/args.py
+++ b/marcel/op/args.py
@@ -101,9 +101,8 @@ class Args(marcel.core.Op):
                 self.args.clear()
                 # Need to ensure that flush is propagated no matter what happens
                 self.propagate_flush(env)
-        # If there was an exception, and we flushed already, this should still be OK. Propagating a
-        # flush a second time should be a noop.
-        self.propagate_flush(env)
+        else:
+            self.propagate_flush(env)
 
     def must_not_be_first_in_pipeline(self):
         return True
-- 
2.43.0


From 47f7be8a4b36cfa68111573fd466ec54932bb5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 11/91] fix: a pipeline can be run more than once, running each
 time on a private copy

---
 marcel/core.py       | 16 ++++++++++++++--
 marcel/op/filter.py  |  1 -
 marcel/op/reverse.py |  5 ++++-
 marcel/pipeline.py   | 30 ++++++++++++++++++------------
 4 files changed, 36 insertions(+), 16 deletions(-)

diff --git a/marcel/core.py b/marcel/core.py
index 4f32880..7f16b0f 100644
--- a/marcel/core.py
+++ b/marcel/core.py
@@ -21,6 +21,7 @@ import marcel.function
 import marcel.helpformatter
 import marcel.object.error
 import marcel.opmodule
+import marcel.pipeline
 import marcel.util
 
 Error = marcel.object.error.Error
@@ -128,8 +129,19 @@ class Op(AbstractOp):
         pass
 
     def copy(self):
-        copy = self.__class__()
-        copy.__dict__.update(self.__dict__)
+        def copy_pipelines(x):
+            # Pipelines nested inside an op (e.g. as args to union) have state and structure too, and so
+            # must not be shared by the op and its copy.
+            if isinstance(x, marcel.pipeline.Pipeline):
+                return x.copy()
+            elif type(x) in (list, tuple) and any(isinstance(y, marcel.pipeline.Pipeline) for y in x):
+                return type(x)(copy_pipelines(y) for y in x)
+            else:
+                return x
+
+        copy = self.__class__.__new__(self.__class__)
+        for field, value in self.__dict__.items():
+            copy.__dict__[field] = copy_pipelines(value)
         return copy
 
     def non_fatal_error(self, env, input=None, message=None, error=None):
diff --git a/marcel/op/filter.py b/marcel/op/filter.py
index 4bc26db..e13d1d5 100644
--- a/marcel/op/filter.py
+++ b/marcel/op/filter.py
@@ -137,5 +137,4 @@ class Filter(marcel.core.Op):
                 raise marcel.exception.KillCommandException(f'{x} is not hashable')
         self.right = set()
         self.pipeline = self.pipeline.append_immutable(marcel.opmodule.create_op(env, 'map', add_to_right))
-        self.pipeline.setup(env)
         self.pipeline.run_pipeline(env, {})
diff --git a/marcel/op/reverse.py b/marcel/op/reverse.py
index 11b8893..95f41c9 100644
--- a/marcel/op/reverse.py
+++ b/marcel/op/reverse.py
@@ -38,10 +38,13 @@ class Reverse(marcel.core.Op):
 
     def __init__(self):
         super().__init__()
-        self.contents = []
+        self.contents = None
 
     # AbstractOp
 
+    def setup(self, env):
+        self.contents = []
+
     def receive(self, env, x):
         self.contents.append(x)
 
diff --git a/marcel/pipeline.py b/marcel/pipeline.py
index e3d422a..fd0f476 100644
--- a/marcel/pipeline.py
+++ b/marcel/pipeline.py
@@ -99,7 +99,8 @@ class PipelineExecutable(object):
         copy.params = self.params
         copy.source = self.source
         for op in self.ops:
-            copy.append(op.copy())
+            # Not op.copy(): an op's fields include the args of the op, and ws has an arg named copy.
+            copy.append(marcel.core.Op.copy(op))
         return copy
 
     def append(self, op):
@@ -314,6 +315,7 @@ class PipelineMarcel(Pipeline):
         assert self.state in (PipelineMarcel.State.IDLE, PipelineMarcel.State.SETUP), self.state
         params = self.executable.parameters()
         assert set(params) == set(bindings.keys()), f'params = {params}, binding keys = {bindings.keys()}'
+        executable = self.executable
         env.vars().push_scope(bindings)
         try:
             with env.check_nesting():
@@ -321,19 +323,21 @@ class PipelineMarcel(Pipeline):
                     # setup() might have been run already. If a pipeline is run by itself, then
                     # setup() hasn't been run and is needed here. But if a pipeline is receving
                     # input, then the containing pipeline's setup ensures that this pipeline's
-                    # setup() has been run.
+                    # setup() has been run. In the former case, run a copy: A pipeline can be run
+                    # any number of times, and setup modifies it (see Op.customize_pipelines).
                     if self.state is PipelineMarcel.State.IDLE:
-                        self.executable.setup(env)
+                        executable = executable.copy()
+                        executable.setup(env)
                         self.state = PipelineMarcel.State.SETUP
                 except marcel.exception.KillAndResumeException as e:
                     # KARE is fatal during setup.
                     raise marcel.exception.KillCommandException(str(e))
                 try:
                     self.state = PipelineMarcel.State.RUNNING
-                    self.executable.run(env)
-                    self.executable.flush(env)
+                    executable.run(env)
+                    executable.flush(env)
                 finally:
-                    self.executable.cleanup()
+                    executable.cleanup()
         finally:
             env.vars().pop_scope()
             self.state = PipelineMarcel.State.IDLE
@@ -375,24 +379,26 @@ class PipelineOpList(Pipeline):
     # Pipeline - execution
 
     def setup(self, env):
-        pass
+        self.executable.setup(env)
 
     def run_pipeline(self, env, bindings):
+        # Why copy: A pipeline can be run any number of times, and setup modifies it (see Op.customize_pipelines).
+        executable = self.executable.copy()
         try:
-            self.executable.setup(env)
+            executable.setup(env)
         except marcel.exception.KillAndResumeException as e:
             # KARE is fatal during setup.
             raise marcel.exception.KillCommandException(str(e))
         try:
-            self.executable.run(env)
-            self.executable.flush(env)
+            executable.run(env)
+            executable.flush(env)
         finally:
-            self.executable.cleanup()
+            executable.cleanup()
 
     # Pipeline - construction
 
     def copy(self):
-        return PipelineOpList(self.executable)
+        return PipelineOpList(self.executable.copy())
 
     def append_immutable(self, op):
         return PipelineOpList(self.executable.append_immutable(op))
-- 
2.43.0


From 727fbe480c56d80968416c05d4ef9b8e6123d397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 12/91] fix: API: composing pipelines must not modify them

---
 marcel/pipeline.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/marcel/pipeline.py b/marcel/pipeline.py
index fd0f476..9eb3b49 100644
--- a/marcel/pipeline.py
+++ b/marcel/pipeline.py
@@ -150,17 +150,17 @@ class OpList(object):
         self.ops = None
 
     def __or__(self, other):
-        if self.ops is None:
-            # self must be the first op of a pipelines
-            self.ops = [self.op]
-            self.op = None
-        # Append ops from other. There could be one or more than one
         assert (other.op is None) != (other.ops is None)
-        if other.op:
-            self.ops.append(other.op)
-        else:
-            self.ops.extend(other.ops)
-        return self
+        # self and other may be used again, in other pipelines, so don't modify them.
+        oplist = OpList(self.env, None)
+        oplist.ops = []
+        for x in (self, other):
+            # There could be one op or more than one (or none, if self is an empty pipeline)
+            if x.ops is not None:
+                oplist.ops.extend(x.ops)
+            elif x.op is not None:
+                oplist.ops.append(x.op)
+        return oplist
 
     def __iter__(self):
         return PipelineIterator(self.env, PipelineOpList(self))
-- 
2.43.0


From c8f7c168f9d487005cd5bd5ae9e101332fd8c6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 13/91] fix: case: set up each branch after routing its output

---
 marcel/op/case.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/marcel/op/case.py b/marcel/op/case.py
index 50ac6ec..872b7a7 100644
--- a/marcel/op/case.py
+++ b/marcel/op/case.py
@@ -137,7 +137,6 @@ class Case(marcel.core.Op):
             try:
                 if not isinstance(pipeline, marcel.pipeline.Pipeline):
                     raise marcel.exception.KillCommandException(f'Expected pipeline, found {arg}')
-                pipeline.setup(env)
                 return pipeline
             except Exception as e:
                 raise marcel.exception.KillCommandException(f'Expected pipeline, found {arg}')
@@ -163,10 +162,14 @@ class Case(marcel.core.Op):
             self.default_pipeline = pipeline(self.args[-1])
 
     def customize_pipelines(self, env):
-        def redirect():
-            return marcel.op.redirect.Redirect(self)
+        def redirect(pipeline):
+            # setup has to be done after appending Redirect, because some ops (e.g. RunPipeline, Union) rely on
+            # knowing their receiver during setup.
+            pipeline = pipeline.append_immutable(marcel.op.redirect.Redirect(self))
+            pipeline.setup(env)
+            return pipeline
 
         if self.default_pipeline:
-            self.default_pipeline = self.default_pipeline.append_immutable(redirect())
+            self.default_pipeline = redirect(self.default_pipeline)
         for branch in self.branches:
-            branch.pipeline = branch.pipeline.append_immutable(redirect())
+            branch.pipeline = redirect(branch.pipeline)
-- 
2.43.0


From fd7fa8786305a08dc1c66585b47c2eefddd607ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 14/91] fix: union: propagate flush once

---
 marcel/op/union.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/marcel/op/union.py b/marcel/op/union.py
index 5a3dc2d..80d0c67 100644
--- a/marcel/op/union.py
+++ b/marcel/op/union.py
@@ -85,23 +85,20 @@ class Union(marcel.core.Op):
     def customize_pipelines(self, env):
         # Union is implemented by passing the input stream along in receive(), and then having each pipeline's
         # arg send its output via flush. This depends on all the pipelines args having the same receiver as the
-        # union op itself. However, we only want one flush after everything is done. PropagateFlushFromLast
-        # makes sure that only the last pipelines propagates the flush.
-        n_pipelines = len(self.pipelines)
+        # union op itself. However, we only want one flush after everything is done, and that is done by
+        # flush(). DontPropagateFlush makes sure that the pipelines don't propagate flush.
         customized = []
         for pipeline in self.pipelines:
-            last = len(customized) == n_pipelines - 1
-            pipeline = pipeline.append_immutable(PropagateFlushFromLast(last))
+            pipeline = pipeline.append_immutable(DontPropagateFlush())
             pipeline.route_output(self.receiver)
             customized.append(pipeline)
         self.pipelines = customized
 
 
-class PropagateFlushFromLast(marcel.core.Op):
+class DontPropagateFlush(marcel.core.Op):
 
-    def __init__(self, last):
-        super().__init__()
-        self.last = last
+    def __repr__(self):
+        return 'dontpropagateflush()'
 
     # Op
 
@@ -109,5 +106,4 @@ class PropagateFlushFromLast(marcel.core.Op):
         self.send(env, x)
 
     def flush(self, env):
-        if self.last:
-            self.propagate_flush(env)
\ No newline at end of file
+        pass
-- 
2.43.0


From f1b59e3834abdcba47f4a9496a5e3a1262f67fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 15/91] fix: running a pipeline bound to a variable: flush once

---
 marcel/op/runpipeline.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/marcel/op/runpipeline.py b/marcel/op/runpipeline.py
index 0de9303..93b37b6 100644
--- a/marcel/op/runpipeline.py
+++ b/marcel/op/runpipeline.py
@@ -29,6 +29,7 @@ class RunPipeline(marcel.core.Op):
         self.kwargs_arg = None
         self.kwargs = None
         self.pipeline = None
+        self.flushed = None
 
     def __repr__(self):
         return f'runpipeline({self.var} {self.args_arg})'
@@ -38,6 +39,7 @@ class RunPipeline(marcel.core.Op):
     def setup(self, env):
         def ifnone(x, default):
             return default if x is None else x
+        self.flushed = False
         self.args = ifnone(self.eval_function(env, 'args_arg'), [])
         self.kwargs = ifnone(self.eval_function(env, 'kwargs_arg'), {})
         self.pipeline = env.getvar(self.var)
@@ -73,6 +75,8 @@ class RunPipeline(marcel.core.Op):
         bindings = self.bindings()
         env.vars().push_scope(bindings)
         try:
+            # run_pipeline also does a flush.
+            self.flushed = True
             self.pipeline.run_pipeline(env, bindings)
         finally:
             env.vars().pop_scope()
@@ -85,12 +89,14 @@ class RunPipeline(marcel.core.Op):
             env.vars().pop_scope()
 
     def flush(self, env):
-        env.vars().push_scope(self.bindings())
-        try:
-            self.pipeline.flush(env)
-            self.propagate_flush(env)
-        finally:
-            env.vars().pop_scope()
+        # The pipeline's output goes to self.receiver, and so does its flush.
+        if not self.flushed:
+            self.flushed = True
+            env.vars().push_scope(self.bindings())
+            try:
+                self.pipeline.flush(env)
+            finally:
+                env.vars().pop_scope()
 
     def cleanup(self):
         if self.pipeline:
-- 
2.43.0


From 8c0e8309181f6bb05a5967e68cf52cc963dad128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 16/91] fix: pipeline parameters: allow a pipeline-valued
 argument

---
 marcel/nestednamespace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marcel/nestednamespace.py b/marcel/nestednamespace.py
index 1f82318..00f8a4b 100644
--- a/marcel/nestednamespace.py
+++ b/marcel/nestednamespace.py
@@ -123,7 +123,8 @@ class EnvValue(object):
             ev.assign(value, f'({source})')
         elif is_pipeline(value):
             ev = CompilablePipeline(env)
-            ev.assign(value, source)
+            # No source if the pipeline is being bound to a parameter.
+            ev.assign(value, value.source if source is None else source)
         else:
             ev = Simple(env)
             ev.assign(value)
-- 
2.43.0


From d60702bf0703251082fff15f3925ac6eba853dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 17/91] fix: pipeline parameters: restore the variables hidden
 by parameters

---
 marcel/nestednamespace.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/marcel/nestednamespace.py b/marcel/nestednamespace.py
index 00f8a4b..1f7bd60 100644
--- a/marcel/nestednamespace.py
+++ b/marcel/nestednamespace.py
@@ -309,6 +309,9 @@ class Scope(dict):
         self.parent = parent
         self.params = [] if params is None else params
         self.env = env
+        # Values, from enclosing scopes, of vars with the same name as a param of this scope. Maintained
+        # by NestedNamespace.
+        self.shadowed = {}
         if parent is None:
             # Must be topmost scope
             self.level = 0
@@ -413,25 +416,25 @@ class NestedNamespace(dict):
 
     def push_scope(self, bindings):
         assert self.env
-        self.scopes.append(Scope(self.env, self.current_scope(), bindings))
+        self.enter_scope(Scope(self.env, self.current_scope(), bindings))
         if bindings:
             for var, value in bindings.items():
                 self[var] = value
 
     def pop_scope(self):
-        assert len(self.scopes) > 0
-        # There are other ways to restore the namespace resulting from exiting the current scope.
-        # This is simplest and not obviously too slow:
-        # - Remove (var, value) entries for vars in the scope being popped.
-        # - Insert (var, value) entries for remaining scopes, outermost first.
+        assert len(self.scopes) > 1
+        # Remove the params of the scope being popped, restoring the values that they shadowed.
         popped_scope = self.scopes.pop()
-        for var in popped_scope.keys():
-            super().__delitem__(var)
-        # Don't have to reset the topmost scope, and that can be problematic anyway, e.g. if env isn't
-        # known and EnvValue cache is unset.
-        for scope in self.scopes[1:]:
-            for var, value in scope.items():
-                super().__setitem__(var, value.unwrap())
+        for var in popped_scope.params:
+            if var in popped_scope.shadowed:
+                super().__setitem__(var, popped_scope.shadowed[var])
+            else:
+                super().pop(var, None)
+        return popped_scope
+
+    def enter_scope(self, scope):
+        scope.shadowed = {var: self[var] for var in scope.params if var in self}
+        self.scopes.append(scope)
 
     def current_scope(self):
         return self.scopes[-1]
-- 
2.43.0


From 5637884e6fc8ff423cce9a04625bbb7386b7cb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 18/91] fix: a pipeline can be an argument of a pipeline bound
 to a variable

---
 marcel/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marcel/parser.py b/marcel/parser.py
index f9c0ce5..e21e880 100644
--- a/marcel/parser.py
+++ b/marcel/parser.py
@@ -1302,9 +1302,9 @@ class Parser(object):
             if len(arg_tokens) > 0:
                 pipeline_args = []
                 for token in arg_tokens:
-                    pipeline_args.append(token
-                                         if type(token) is marcel.pipeline.PipelineExecutable else
-                                         token.value())
+                    pipeline_args.append(token.value()
+                                         if isinstance(token, Token) else
+                                         token)
                 args, kwargs = marcel.argsparser.PipelineArgsParser(var).parse_pipeline_args(pipeline_args)
                 op.set_pipeline_args(args, kwargs)
             return op
-- 
2.43.0


From 4613f2ba63fda7fdf6bfea504568fb3cca8604b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 19/91] fix: pipeline parameters: not visible to the operators
 receiving the pipeline's output

---
 marcel/nestednamespace.py | 15 +++++++++++++++
 marcel/op/args.py         | 11 ++++++++---
 marcel/op/redirect.py     | 15 +++++++++++++--
 marcel/op/runpipeline.py  | 11 ++++++++---
 4 files changed, 44 insertions(+), 8 deletions(-)

diff --git a/marcel/nestednamespace.py b/marcel/nestednamespace.py
index 1f7bd60..f4a643d 100644
--- a/marcel/nestednamespace.py
+++ b/marcel/nestednamespace.py
@@ -432,6 +432,21 @@ class NestedNamespace(dict):
                 super().pop(var, None)
         return popped_scope
 
+    # Temporarily leave scopes, so that only the outermost n remain. The scopes returned must be passed to
+    # resume_scopes to restore the current state.
+    def suspend_scopes(self, n):
+        suspended = []
+        while len(self.scopes) > n:
+            suspended.append(self.pop_scope())
+        return suspended
+
+    def resume_scopes(self, suspended):
+        while len(suspended) > 0:
+            scope = suspended.pop()
+            self.enter_scope(scope)
+            for var, value in scope.items():
+                super().__setitem__(var, value.unwrap())
+
     def enter_scope(self, scope):
         scope.shadowed = {var: self[var] for var in scope.params if var in self}
         self.scopes.append(scope)
diff --git a/marcel/op/args.py b/marcel/op/args.py
index 3f39bd4..ce47e9e 100644
--- a/marcel/op/args.py
+++ b/marcel/op/args.py
@@ -68,6 +68,7 @@ class Args(marcel.core.Op):
         self.pipeline = None
         self.n_params = None
         self.args = None
+        self.n_scopes = None
 
     def __repr__(self):
         flags = 'all, ' if self.all else ''
@@ -84,7 +85,7 @@ class Args(marcel.core.Op):
         self.args.append(unwrap_op_output(x))
         if not self.all and len(self.args) == self.n_params:
             try:
-                self.pipeline.run_pipeline(env, self.bindings())
+                self.run_pipeline(env)
             finally:
                 self.args.clear()
 
@@ -96,7 +97,7 @@ class Args(marcel.core.Op):
                 while len(self.args) < self.n_params:
                     self.args.append(None)
             try:
-                self.pipeline.run_pipeline(env, self.bindings())
+                self.run_pipeline(env)
             finally:
                 self.args.clear()
                 # Need to ensure that flush is propagated no matter what happens
@@ -119,12 +120,16 @@ class Args(marcel.core.Op):
             raise marcel.exception.KillCommandException(error)
 
     def customize_pipelines(self, env):
-        self.pipeline = self.pipeline.append_immutable(marcel.op.redirect.Redirect(self))
+        self.pipeline = self.pipeline.append_immutable(marcel.op.redirect.Redirect(self, lambda: self.n_scopes))
 
     def ensure_functions_compiled(self, env):
         self.pipeline.ensure_functions_compiled(env)
 
     # Internal
 
+    def run_pipeline(self, env):
+        self.n_scopes = env.vars().n_scopes()
+        self.pipeline.run_pipeline(env, self.bindings())
+
     def bindings(self):
         return dict(zip(self.pipeline.parameters(), self.args))
\ No newline at end of file
diff --git a/marcel/op/redirect.py b/marcel/op/redirect.py
index e6a1064..45659b5 100644
--- a/marcel/op/redirect.py
+++ b/marcel/op/redirect.py
@@ -19,15 +19,26 @@ import marcel.core
 # Op for redirecting output from an op's pipeline to the parent pipeline's output.
 class Redirect(marcel.core.Op):
 
-    def __init__(self, parent):
+    # parent_scopes is a function returning the number of scopes in which the parent's output should be handled.
+    # I.e., the output of a pipeline with parameters must not see those parameters. If parent_scopes is None,
+    # then the current scopes are correct.
+    def __init__(self, parent, parent_scopes=None):
         super().__init__()
         self.parent = parent
+        self.parent_scopes = parent_scopes
 
     def __repr__(self):
         return 'redirect()'
 
     def receive(self, env, x):
-        self.parent.send(env, x)
+        if self.parent_scopes is None:
+            self.parent.send(env, x)
+        else:
+            suspended = env.vars().suspend_scopes(self.parent_scopes())
+            try:
+                self.parent.send(env, x)
+            finally:
+                env.vars().resume_scopes(suspended)
 
     def receive_error(self, env, error):
         self.parent.send_error(env, error)
diff --git a/marcel/op/runpipeline.py b/marcel/op/runpipeline.py
index 93b37b6..63b3221 100644
--- a/marcel/op/runpipeline.py
+++ b/marcel/op/runpipeline.py
@@ -15,6 +15,7 @@
 
 import marcel.core
 import marcel.exception
+import marcel.op.redirect
 import marcel.pipeline
 import marcel.util
 
@@ -30,6 +31,7 @@ class RunPipeline(marcel.core.Op):
         self.kwargs = None
         self.pipeline = None
         self.flushed = None
+        self.n_scopes = None
 
     def __repr__(self):
         return f'runpipeline({self.var} {self.args_arg})'
@@ -61,8 +63,8 @@ class RunPipeline(marcel.core.Op):
         # Without copying the identical ops comprising f would be used twice in the same
         # command. This potentially breaks the use of Op state during execution, and also
         # breaks the structure of the pipelines, e.g. Op.receiver.
-        self.pipeline = self.pipeline.copy()
-        self.pipeline.route_output(self.receiver)
+        self.pipeline = self.pipeline.copy().append_immutable(
+            marcel.op.redirect.Redirect(self, lambda: self.n_scopes))
         env.vars().push_scope(self.bindings())
         try:
             self.pipeline.setup(env)
@@ -73,6 +75,7 @@ class RunPipeline(marcel.core.Op):
 
     def run(self, env):
         bindings = self.bindings()
+        self.n_scopes = env.vars().n_scopes()
         env.vars().push_scope(bindings)
         try:
             # run_pipeline also does a flush.
@@ -82,6 +85,7 @@ class RunPipeline(marcel.core.Op):
             env.vars().pop_scope()
 
     def receive(self, env, x):
+        self.n_scopes = env.vars().n_scopes()
         env.vars().push_scope(self.bindings())
         try:
             self.pipeline.receive(env, x)
@@ -89,14 +93,15 @@ class RunPipeline(marcel.core.Op):
             env.vars().pop_scope()
 
     def flush(self, env):
-        # The pipeline's output goes to self.receiver, and so does its flush.
         if not self.flushed:
             self.flushed = True
+            self.n_scopes = env.vars().n_scopes()
             env.vars().push_scope(self.bindings())
             try:
                 self.pipeline.flush(env)
             finally:
                 env.vars().pop_scope()
+        self.propagate_flush(env)
 
     def cleanup(self):
         if self.pipeline:
-- 
2.43.0


From 65da86d7e2e10668c67e2c779f5fdaf2c13c063f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:21 +0000
Subject: [PATCH 20/91] fix: API: local variables of a pipeline function are
 not parameters

---
 marcel/pipeline.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marcel/pipeline.py b/marcel/pipeline.py
index 9eb3b49..3dfb622 100644
--- a/marcel/pipeline.py
+++ b/marcel/pipeline.py
@@ -450,7 +450,9 @@ class PipelineFunction(Pipeline):
         pass
 
     def parameters(self):
-        return self.function.__code__.co_varnames
+        code = self.function.__code__
+        # co_varnames has parameters, followed by local variables.
+        return code.co_varnames[:code.co_argcount]
 
     def run_pipeline(self, env, bindings):
         self.create_executable(env, bindings)
-- 
2.43.0


From 5cac591a55e96cae3f2e046347b9d3825b507b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:44 +0000
Subject: [PATCH 21/91] fix: red -i: output must not change as the reduction
 proceeds

---
 marcel/op/red.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/marcel/op/red.py b/marcel/op/red.py
index f61f3a2..01c6177 100644
--- a/marcel/op/red.py
+++ b/marcel/op/red.py
@@ -185,6 +185,11 @@ class Reducer:
     def flush(self, env):
         assert False
 
+    # A reduction function (e.g. concat) may modify its accumulator, which must not change what has already been sent.
+    @staticmethod
+    def snapshot(accumulator):
+        return [x.copy() if type(x) in (list, dict, set) else x for x in accumulator]
+
 
 class NonGroupingReducer(Reducer):
 
@@ -204,7 +209,7 @@ class NonGroupingReducer(Reducer):
         accumulator = [op.call(env, op.functions[i], self.accumulator[i], x[i]) for i in range(self.n)]
         self.accumulator = accumulator
         if op.incremental:
-            op.send(env, tuple(x) + tuple(accumulator))
+            op.send(env, tuple(x) + tuple(Reducer.snapshot(accumulator)))
 
     def flush(self, env):
         op = self.op
@@ -238,7 +243,7 @@ class GroupingReducer(Reducer):
                        for i in range(self.n)]
         self.accumulators[group] = accumulator
         if op.incremental:
-            op.send(env, tuple(x) + tuple(self.data(accumulator)))
+            op.send(env, tuple(x) + tuple(Reducer.snapshot(self.data(accumulator))))
 
     def flush(self, env):
         op = self.op
-- 
2.43.0


From 0e899b8cef3b0abc06503ca278a9310f4baf9e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 22/91] fix: API: a pipeline function may return the same
 pipeline each time it is called

---
 marcel/pipeline.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marcel/pipeline.py b/marcel/pipeline.py
index 3dfb622..5702dae 100644
--- a/marcel/pipeline.py
+++ b/marcel/pipeline.py
@@ -520,7 +520,8 @@ class PipelineFunction(Pipeline):
             for op in self.customizations.ops:
                 new_op = OpList(env, op)
                 op_list = (op_list | new_op) if op_list else new_op
-            self.executable = op_list.create_executable_pipeline()
+            # Why copy: The function may return the same ops each time it is called.
+            self.executable = op_list.create_executable_pipeline().copy()
             if self.customizations.receiver:
                 self.executable.last_op().receiver = self.customizations.receiver
 
-- 
2.43.0


From ca37b2d3d76a7149b6a5d6a979e06fa6d711e68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:57 +0000
Subject: [PATCH 23/91] fix: an unknown named argument of a pipeline is an
 error, not a crash

---
 marcel/op/runpipeline.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marcel/op/runpipeline.py b/marcel/op/runpipeline.py
index 63b3221..cd5148d 100644
--- a/marcel/op/runpipeline.py
+++ b/marcel/op/runpipeline.py
@@ -126,6 +126,10 @@ class RunPipeline(marcel.core.Op):
             bindings[params[i]] = self.args[i]
         # Set named args
         if self.kwargs is not None:
+            unknown = [name for name in self.kwargs.keys() if name not in params]
+            if len(unknown) > 0:
+                raise marcel.exception.KillCommandException(
+                    f'Pipeline {self.var} does not have parameter(s): {", ".join(unknown)}')
             already_set = set(bindings.keys()).intersection(self.kwargs.keys())
             if len(already_set) > 0:
                 raise marcel.exception.KillCommandException(
-- 
2.43.0


From 8b6defff4e265240a4de4eb742113f17fc5818f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:01 +0000
Subject: [PATCH 24/91] fix: write: a file that cannot be opened ends the
 command, not the shell

---
 marcel/op/write.py | 6 +++++-
 marcel/util.py     | 4 ++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/marcel/op/write.py b/marcel/op/write.py
index df23d78..dc1f19d 100644
--- a/marcel/op/write.py
+++ b/marcel/op/write.py
@@ -291,7 +291,11 @@ class PickleWriter(Writer):
     def __init__(self, op):
         super().__init__(op)
         assert op.filename is not None  # Should have been checked in setup
-        self.writer = marcel.picklefile.PickleFile(op.filename).writer(op.append)
+        self.writer = None
+        try:
+            self.writer = marcel.picklefile.PickleFile(op.filename).writer(op.append)
+        except OSError as e:
+            raise marcel.exception.KillCommandException(f'Unable to open {op.filename} for writing: {e}')
 
     def receive(self, env, x):
         self.writer.write(x)
diff --git a/marcel/util.py b/marcel/util.py
index 8de08e8..978a7bf 100644
--- a/marcel/util.py
+++ b/marcel/util.py
@@ -191,8 +191,8 @@ def iterable(x):
 def open_file(path, mode, exception_class):
     try:
         return open(path, mode)
-    # FileNotFoundError should not occur. Missing files handled by FilenamesOp.
-    except (IsADirectoryError, FileExistsError, PermissionError) as e:
+    # E.g. writing to a file whose directory does not exist, or which is not a directory.
+    except OSError as e:
         raise exception_class(f'Unable to open {path} with mode {mode}: {str(e)}')
 
 
-- 
2.43.0


From d97e7d448d32c018daa2ab8a0ec83f7ec9cefa8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:19 +0000
Subject: [PATCH 25/91] fix: write: an Error is written without the format, csv
 and tsv options being applied to it

---
 marcel/op/write.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/marcel/op/write.py b/marcel/op/write.py
index dc1f19d..b8cd2b6 100644
--- a/marcel/op/write.py
+++ b/marcel/op/write.py
@@ -157,7 +157,7 @@ class Write(marcel.core.Op):
     def receive_error(self, env, error):
         if env.trace.is_enabled():
             env.trace.write(self, error)
-        self.writer.receive(env, error)
+        self.writer.receive_error(env, error)
 
     def flush(self, env):
         self.writer.flush(env)
@@ -193,6 +193,10 @@ class Writer(object):
     def receive(self, env, x):
         assert False
 
+    # Errors are not subject to formatting.
+    def receive_error(self, env, error):
+        self.receive(env, error)
+
     def flush(self, env):
         pass
 
@@ -213,6 +217,10 @@ class TextWriter(Writer):
         if self.output() != sys.stdout:
             self.output().close()
 
+    def receive_error(self, env, error):
+        color_scheme = env.color_scheme() if self.output() == sys.__stdout__ else None
+        self.write_line(error.render_full(color_scheme))
+
     def write_line(self, x):
         print(x, file=self.output(), flush=True)
 
-- 
2.43.0


From 98eded3409a5a6d4dcdffcde2d5eeadef0471d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:19 +0000
Subject: [PATCH 26/91] fix: expand: a generator which fails is an Error in the
 output, not a crash

---
 marcel/op/expand.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/marcel/op/expand.py b/marcel/op/expand.py
index 1ec630c..860602c 100644
--- a/marcel/op/expand.py
+++ b/marcel/op/expand.py
@@ -112,6 +112,19 @@ class Expander:
     def receive(self, env, sequence):
         assert False
 
+    # x is to be expanded, and is all or part of the op's input. Iterating over a generator runs user code, which
+    # may fail.
+    def expand_input(self, env, input, x):
+        iterator = iter(Expander.expand(x))
+        while True:
+            try:
+                item = next(iterator)
+            except StopIteration:
+                return
+            except Exception as e:
+                self.op.fatal_error(env, input, f'{type(e)}: {e}')
+            yield item
+
     @staticmethod
     def expand(x):
         if len(x) != 1:
@@ -135,7 +148,7 @@ class SequenceExpander(Expander):
         super().__init__(op)
 
     def receive(self, env, sequence):
-        for x in Expander.expand(sequence):
+        for x in self.expand_input(env, sequence, sequence):
             self.op.send(env, x)
 
 
@@ -156,10 +169,10 @@ class ComponentExpander(Expander):
             assert type(pre) is type(post)
             send = self.op.send
             if type(pre) is tuple:
-                for x in Expander.expand([sequence[self.position]]):
+                for x in self.expand_input(env, sequence, [sequence[self.position]]):
                     send(env, pre + (x,) + post)
             elif type(pre) is list:
-                for x in Expander.expand([sequence[self.position]]):
+                for x in self.expand_input(env, sequence, [sequence[self.position]]):
                     send(env, pre + [x,] + post)
             else:
                 assert False, f'Unanticipated input type: ({type(pre)}) {pre}'
-- 
2.43.0


From 287982b091b1e7ce9e0f2118949a4b0948800539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 27/91] fix: bash: all output is delivered, and failures of the
 process's pipes or of the receiving ops end the command properly

---
 marcel/op/bash.py | 97 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 77 insertions(+), 20 deletions(-)

diff --git a/marcel/op/bash.py b/marcel/op/bash.py
index 0c3fed8..1ced379 100644
--- a/marcel/op/bash.py
+++ b/marcel/op/bash.py
@@ -13,6 +13,8 @@
 # You should have received a copy of the GNU General Public License
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 
+import codecs
+import io
 import os
 import selectors
 import subprocess
@@ -161,13 +163,24 @@ class NonInteractive(Escape):
         if x is not None:
             if len(x) == 1:
                 x = x[0]
-            self.process.stdin.write(str(x))
-            self.process.stdin.write('\n')
-            self.process.stdin.flush()
+            try:
+                self.process.stdin.write(str(x))
+                self.process.stdin.write('\n')
+                self.process.stdin.flush()
+            except BrokenPipeError:
+                # The process isn't interested in any more input
+                pass
 
     def flush(self, env):
-        self.process.stdin.close()
-        self.output_handler.join()
+        # The process is not running if there was no input.
+        if self.process:
+            try:
+                self.process.stdin.close()
+            except BrokenPipeError:
+                pass
+            self.output_handler.join()
+            if self.output_handler.exception:
+                raise self.output_handler.exception
 
     def cleanup(self):
         self.shutdown()
@@ -189,14 +202,21 @@ class NonInteractive(Escape):
             self.output_handler.start()
 
     def shutdown(self):
-        while self.output_handler.is_alive():
+        if self.process and not self.process.stdin.closed:
+            # The command is being killed.
+            try:
+                self.process.stdin.close()
+            except BrokenPipeError:
+                pass
+        while self.output_handler and self.output_handler.is_alive():
             self.output_handler.join(0.1)
         self.lock.acquire()
         try:
             if self.process:
-                self.process.wait()
+                # Close before waiting. If the command is being killed, the process may have more output.
                 self.process.stdout.close()
                 self.process.stderr.close()
+                self.process.wait()
                 self.process = None
         finally:
             self.lock.release()
@@ -239,37 +259,74 @@ class ProcessOutputHandler(threading.Thread):
         super().__init__()
         self.env = env
         self.owner = owner
+        # Exception raised by an op receiving the output. Will be raised again in the main thread.
+        self.exception = None
 
     def run(self):
+        try:
+            self.handle_output()
+        except BaseException as e:
+            self.exception = e
+
+    # Internal
+
+    def handle_output(self):
         process = self.owner.process
-        op = self.owner.op
         lock = self.owner.lock
         sel = selectors.DefaultSelector()
-        sel.register(process.stdout, selectors.EVENT_READ)
-        sel.register(process.stderr, selectors.EVENT_READ)
-        while True:
+        sel.register(process.stdout, selectors.EVENT_READ, OutputLines())
+        sel.register(process.stderr, selectors.EVENT_READ, OutputLines())
+        while len(sel.get_map()) > 0:
             events = sel.select(timeout=0.1)
             lock.acquire()
             try:
                 if not events and process.poll() is not None:
+                    # A background process still has stdout or stderr.
                     break
                 for key, _ in events:
-                    stream = key.fileobj
-                    line = stream.readline()
-                    if not line:
+                    # Don't use stream.readline(): If it reads more than one line, then the remaining lines are
+                    # buffered where select() doesn't see them.
+                    output = os.read(key.fileobj.fileno(), 64 * 1024)
+                    for line in key.data.lines(output):
+                        self.send_line(key.fileobj, line)
+                    if len(output) == 0:
                         sel.unregister(key.fileobj)
-                    else:
-                        output = ProcessOutputHandler.normalize_output(line)
-                        if stream is process.stdout:
-                            op.send(self.env, output)
-                        elif stream is process.stderr:
-                            op.send(self.env, marcel.object.error.Error(output))
             finally:
                 lock.release()
+        for key in sel.get_map().values():
+            for line in key.data.lines(b''):
+                self.send_line(key.fileobj, line)
         process.wait()
 
+    def send_line(self, stream, line):
+        op = self.owner.op
+        output = ProcessOutputHandler.normalize_output(line)
+        if stream is self.owner.process.stdout:
+            op.send(self.env, output)
+        else:
+            op.send(self.env, marcel.object.error.Error(output))
+
     @staticmethod
     def normalize_output(x):
         if x[-1] == '\n':
             x = x[:-1]
         return x
+
+
+# Splits output into lines.
+class OutputLines:
+
+    def __init__(self):
+        decoder = codecs.getincrementaldecoder('utf-8')(errors='surrogateescape')
+        self.decoder = io.IncrementalNewlineDecoder(decoder, translate=True)
+        self.partial = ''
+
+    # Returns the lines completed by output (bytes). No output means that there won't be any more of it.
+    def lines(self, output):
+        final = len(output) == 0
+        lines = (self.partial + self.decoder.decode(output, final=final)).split('\n')
+        self.partial = lines.pop()
+        if final and len(self.partial) > 0:
+            lines.append(self.partial)
+            self.partial = ''
+        return [line + '\n' for line in lines]
-- 
2.43.0


From b11cc23bd1c6197305f84181323896983e84573e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 28/91] fix: API: first stops after the first output or Error;
 errors are collected in the errors list if there is one

---
 marcel/op/apiop.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/marcel/op/apiop.py b/marcel/op/apiop.py
index b3e3d8d..50d1f24 100644
--- a/marcel/op/apiop.py
+++ b/marcel/op/apiop.py
@@ -36,10 +36,13 @@ class APIOp(marcel.core.Op):
             x = x[0]
         self.output.append(x)
         if self.stop_after_first:
-            marcel.exception.StopAfterFirst()
+            raise marcel.exception.StopAfterFirst()
 
     def receive_error(self, env, error):
-        if self.stop_after_first:
-            marcel.exception.StopAfterFirst()
+        if self.errors is not None:
+            # Errors are collected separately, and are not part of the output.
+            self.errors.append(error)
         else:
             self.output.append(error)
+            if self.stop_after_first:
+                raise marcel.exception.StopAfterFirst()
-- 
2.43.0


From 5f8a37cc8f9a599473a5a97c33fbf5554710cee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:10 +0000
Subject: [PATCH 29/91] fix: jobs, bg, fg: a job that doesn't exist, or no job
 control, is an error, not a crash

---
 marcel/job.py      |  2 +-
 marcel/op/jobop.py | 11 +++++++++--
 marcel/op/jobs.py  |  6 +++++-
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/marcel/job.py b/marcel/job.py
index 0fd5e3e..ab1ab79 100644
--- a/marcel/job.py
+++ b/marcel/job.py
@@ -275,7 +275,7 @@ class JobControl:
         if jid is not None:
             return self._jobs[jid]
         elif pid is not None:
-            for job in self._jobs:
+            for job in self.jobs():
                 if job.process.pid == pid:
                     return job
             return None
diff --git a/marcel/op/jobop.py b/marcel/op/jobop.py
index 8eabc4d..2661385 100644
--- a/marcel/op/jobop.py
+++ b/marcel/op/jobop.py
@@ -43,11 +43,18 @@ class JobOp(marcel.core.Op):
 
     def setup(self, env):
         job_control = marcel.job.JobControl.only
+        if job_control is None:
+            raise marcel.exception.KillCommandException('Job control is only available interactively')
         if self.job_id is not None:
-            self.jid = self.job_id
-        if self.jid is not None and self.jid >= len(job_control.jobs()):
+            self.jid = self.eval_function(env, 'job_id', int)
+        else:
+            self.jid = self.eval_function(env, 'jid', int)
+            self.pid = self.eval_function(env, 'pid', int)
+        if self.jid is not None and not 0 <= self.jid < len(job_control.jobs()):
             raise marcel.exception.KillCommandException(f'There is no job {self.jid}')
         self.job = job_control.job(jid=self.jid, pid=self.pid)
+        if self.job is None:
+            raise marcel.exception.KillCommandException(f'There is no job with process {self.pid}')
 
     def run(self, env):
         self.action()
diff --git a/marcel/op/jobs.py b/marcel/op/jobs.py
index 1c3d0b6..a85f0fe 100644
--- a/marcel/op/jobs.py
+++ b/marcel/op/jobs.py
@@ -15,6 +15,7 @@
 
 import marcel.argsparser
 import marcel.core
+import marcel.exception
 import marcel.job
 
 
@@ -56,7 +57,10 @@ class Jobs(marcel.core.Op):
     
     def run(self, env):
         job_id = 0
-        for job in marcel.job.JobControl.only.jobs():
+        job_control = marcel.job.JobControl.only
+        if job_control is None:
+            raise marcel.exception.KillCommandException('Job control is only available interactively')
+        for job in job_control.jobs():
             # TODO: If job were a marcel.renderable.Renderable, then it would have render_compact/full methods.
             description = f'{job_id}({job.state_symbol()}): {job.process.pid}  {job.command.source}'
             self.send(env, description)
-- 
2.43.0


From ef4d089a9fc840ffe7e6b96788bdd3a71973fe39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:53 +0000
Subject: [PATCH 30/91] fix: builtins in the initial namespace were all bound
 to the same value; HOST and ITALIC were not protected

---
 marcel/env.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marcel/env.py b/marcel/env.py
index f07fad7..4eb4c30 100644
--- a/marcel/env.py
+++ b/marcel/env.py
@@ -90,7 +90,7 @@ class Environment(object):
                                            'Color',
                                            'DIRS',
                                            'HOME',
-                                           'HOST'
+                                           'HOST',
                                            'ITALIC',
                                            'MARCEL_VERSION',
                                            'pos',
@@ -155,7 +155,7 @@ class Environment(object):
         perm['set_db_default'] = lambda env: lambda db: env.workspace.setvar('DB_DEFAULT', db)
         for key, value in marcel.builtin.__dict__.items():
             if not key.startswith('_'):
-                perm[key] = lambda env: value
+                perm[key] = lambda env, value=value: value
         return perm
 
     def assign_permanent(self, var, value):
-- 
2.43.0


From 8174af3e0951b5d99b579f211d986f8efcd5cd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:53 +0000
Subject: [PATCH 31/91] fix: a deleted variable reappeared when its workspace
 was reopened

---
 marcel/object/workspace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 74d5c10..35e7ded 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -149,7 +149,8 @@ class VarHandler(object):
         self.check_mutability(var)
         if var in self.namespace:
             self.vars_written.discard(var)
-            value = self.namespace.pop(var)
+            value = self.namespace[var]
+            del self.namespace[var]
             if type(value) is marcel.reservoir.Reservoir:
                 value.ensure_deleted()
             return value
-- 
2.43.0


From 17797a29ea00d69e0ff54f7fd9ac3ec5486080b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:53 +0000
Subject: [PATCH 32/91] fix: env VAR reported a variable with the value None as
 undefined

---
 marcel/op/env.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/marcel/op/env.py b/marcel/op/env.py
index ef9ac87..73cbfe7 100644
--- a/marcel/op/env.py
+++ b/marcel/op/env.py
@@ -168,11 +168,10 @@ class EnvMarcel(EnvImpl):
 
     def one_var(self, env):
         var = self.op.var
-        value = env.getvar(var)
-        if value is None:
-            self.no_such_var(env, var)
+        if env.hasvar(var):
+            self.op.send(env, (var, env.getvar(var)))
         else:
-            self.op.send(env, (var, value))
+            self.no_such_var(env, var)
 
     def delete_var(self, env):
         try:
-- 
2.43.0


From 4e406f1f2085dfbd2d99af2b30f990cec1f87b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:08 +0000
Subject: [PATCH 33/91] fix: a workspace could not be opened if the value of
 one variable referred to another, defined later or deleted

---
 marcel/nestednamespace.py | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/marcel/nestednamespace.py b/marcel/nestednamespace.py
index f4a643d..4ce5404 100644
--- a/marcel/nestednamespace.py
+++ b/marcel/nestednamespace.py
@@ -331,12 +331,30 @@ class Scope(dict):
 
     def assign(self, var, value, source=None):
         assert not isinstance(value, EnvValue)
-        self.store_item(var, EnvValue.wrap(self.env, value, source))
+        original = self.find_function(value)
+        if original is not None:
+            # value is the value of another variable, e.g. g = (f). If f is later modified or deleted, then value
+            # cannot be reconstituted from this assignment's source (f).
+            ev = CompilableFunction(self.env)
+            ev.assign(value, original.source)
+        else:
+            ev = EnvValue.wrap(self.env, value, source)
+        self.store_item(var, ev)
 
     def assign_import(self, var, module, symbol, value):
         assert not isinstance(value, EnvValue)
         self.store_item(var, Import.new(self.env, module, symbol, var, value))
 
+    # Returns the CompilableFunction of this scope, or an enclosing one, whose function is value, None if there isn't one.
+    def find_function(self, value):
+        scope = self if callable(value) else None
+        while scope is not None:
+            for ev in scope.values():
+                if isinstance(ev, CompilableFunction) and ev.cached is value:
+                    return ev
+            scope = scope.parent
+        return None
+
     def delete(self, var):
         try:
             if self.parent is None or var in self.params:
@@ -464,11 +482,25 @@ class NestedNamespace(dict):
     def from_persistent_state(self, env, persisted):
         assert len(self.scopes) == 1, len(self.scopes)
         scope = self.scopes[0]
+        pending = {}
         for var, persisted_value in persisted.items():
             classname, persisted_state = persisted_value
             value = EnvValue.restore(env, classname, persisted_state)
             scope.__setitem__(var, value)
-            super().__setitem__(var, value.unwrap())
+            pending[var] = value
+        # The source of a variable's value may refer to variables restored later.
+        while len(pending) > 0:
+            failed = {}
+            for var, value in pending.items():
+                try:
+                    super().__setitem__(var, value.unwrap())
+                except Exception as e:
+                    failed[var] = e
+            if len(failed) == len(pending):
+                for var, e in failed.items():
+                    marcel.util.print_to_stderr(env, f'Unable to restore the value of {var}: {e}')
+                break
+            pending = {var: pending[var] for var in failed}
 
     # TODO: With set_env, is reconstitute needed? That's just an eager form of reconstitution.
     # TODO: Having the env available in all the EnvValues is a lazy form.
-- 
2.43.0


From 8a6da5e65c69eb2dfdbebfdcc58f54a701545fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:08 +0000
Subject: [PATCH 34/91] fix: one variable with a value that cannot be pickled
 lost all variables of the workspace

---
 marcel/nestednamespace.py  | 5 ++++-
 marcel/object/workspace.py | 6 +++++-
 marcel/util.py             | 8 ++++++++
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/marcel/nestednamespace.py b/marcel/nestednamespace.py
index 4ce5404..8e2a649 100644
--- a/marcel/nestednamespace.py
+++ b/marcel/nestednamespace.py
@@ -472,11 +472,14 @@ class NestedNamespace(dict):
     def current_scope(self):
         return self.scopes[-1]
 
+    # Variables whose values cannot be pickled are omitted.
     def to_persistent_state(self):
         persistent = {}
         for k, v in self.scopes[0].items():
             assert isinstance(v, EnvValue), f'{k}: {v}'
-            persistent[k] = (v.__class__.__name__, v.to_persistent_state())
+            state = v.to_persistent_state()
+            if marcel.util.is_picklable(state):
+                persistent[k] = (v.__class__.__name__, state)
         return persistent
 
     def from_persistent_state(self, env, persisted):
diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 35e7ded..f3a4b39 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -268,7 +268,11 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
                 assert type(reservoir) is marcel.reservoir.Reservoir
                 reservoir.close()
             # Environment
-            self.write_environment(self.persistent_state())
+            persistent_state = self.persistent_state()
+            for var in self.namespace.scopes[0]:
+                if var not in persistent_state:
+                    marcel.util.print_to_stderr(env, f'Unable to save the value of {var}.')
+            self.write_environment(persistent_state)
             # Mark this workspace object as closed
             self.properties = None
             # Discard workspace
diff --git a/marcel/util.py b/marcel/util.py
index 978a7bf..d1a4e79 100644
--- a/marcel/util.py
+++ b/marcel/util.py
@@ -126,6 +126,14 @@ def copy(x):
         print_stack_of_current_exception(sys.__stderr__)
 
 
+def is_picklable(x):
+    try:
+        dill.dumps(x)
+        return True
+    except Exception:
+        return False
+
+
 def print_stack_of_current_exception(file=None):
     if file is None:
         file = sys.__stderr__
-- 
2.43.0


From 1c2a64e5763d021bc33e26d4d636da2d6a91c468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:08 +0000
Subject: [PATCH 35/91] fix: a crash while a workspace was saved could leave a
 partially written file, losing all its variables

---
 marcel/object/workspace.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index f3a4b39..4a4854c 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -207,6 +207,8 @@ class VarHandler(object):
 
 class Workspace(marcel.object.renderable.Renderable, VarHandler):
     DEFAULT = None
+    # Suffix of a file being written, which will replace the file without the suffix.
+    NEW_SUFFIX = '.new'
 
     def __init__(self, name):
         VarHandler.__init__(self)
@@ -302,6 +304,9 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
                 locations.data_ws_hist(self).unlink(missing_ok=True)
                 locations.data_ws_prop(self).unlink(missing_ok=True)
                 locations.data_ws_env(self).unlink(missing_ok=True)
+                for new_file in locations.data_ws(self).glob(f'*{Workspace.NEW_SUFFIX}'):
+                    # Left behind by a process that crashed.
+                    new_file.unlink()
                 reservoir_dir = locations.data_ws_res(self)
                 for reservoir_file in reservoir_dir.iterdir():
                     reservoir_file.unlink()
@@ -437,9 +442,7 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
     def write_properties(self):
         assert not self.is_default()
         self.properties.update_save_time()
-        with open(self.locations.data_ws_prop(self), 'wb') as properties_file:
-            pickler = dill.Pickler(properties_file)
-            pickler.dump(self.properties.to_persistent_state())
+        self.write_file(self.locations.data_ws_prop(self), self.properties.to_persistent_state())
 
     def read_environment(self):
             with open(self.locations.data_ws_env(self), 'rb') as environment_file:
@@ -448,9 +451,15 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
 
     def write_environment(self, persistent_state):
         assert persistent_state is not None
-        with open(self.locations.data_ws_env(self), 'wb') as environment_file:
-            pickler = dill.Pickler(environment_file)
-            pickler.dump(persistent_state)
+        self.write_file(self.locations.data_ws_env(self), persistent_state)
+
+    # Replace the file only when its new contents are complete, so that a crash can't leave a partially written file.
+    def write_file(self, path, state):
+        new_path = path.with_name(path.name + Workspace.NEW_SUFFIX)
+        with open(new_path, 'wb') as new_file:
+            pickler = dill.Pickler(new_file)
+            pickler.dump(state)
+        new_path.replace(path)
 
     # Return pid of owning process, or None if unowned.
     def owner(self):
@@ -622,6 +631,7 @@ class WorkspaceValidater(object):
                 if not (file.name == 'properties.pickle' or
                         file.name.endswith('env.pickle') or
                         file.name == 'history' or
+                        file.name.endswith(Workspace.NEW_SUFFIX) or
                         file.name == 'reservoirs'):
                     self.extraneous(locations.data_ws(workspace))
         return self.errors
@@ -669,6 +679,7 @@ class WorkspaceDefaultValidater(WorkspaceValidater):
         workspace = self.workspace
         pids = set(psutil.pids())
         delete_abandoned(locations.data_ws(workspace), '.env.pickle')
+        delete_abandoned(locations.data_ws(workspace), '.env.pickle' + Workspace.NEW_SUFFIX)
         delete_abandoned(locations.data_ws_res(workspace), '.pickle')
         return super().validate()
 
-- 
2.43.0


From 94d2849184933b6b27aceceee506ad63ffc67cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:56 +0000
Subject: [PATCH 36/91] fix: a workspace could not be opened if a variable had
 a value containing functions

---
 marcel/nestednamespace.py | 27 +++++++++++++++++++++++++--
 marcel/util.py            |  8 --------
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/marcel/nestednamespace.py b/marcel/nestednamespace.py
index 8e2a649..ebd4d16 100644
--- a/marcel/nestednamespace.py
+++ b/marcel/nestednamespace.py
@@ -14,6 +14,10 @@
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 
 import inspect
+import io
+import pickle
+
+import dill
 
 import marcel.core
 import marcel.env
@@ -53,6 +57,24 @@ class Empty(object):
 
 EMPTY = Empty()
 
+# A value containing functions, e.g. a list of functions, refers to the namespace, and hence the Environment, through
+# the functions' globals. Pickling would appear to work, but when unpickled, another Environment would be created.
+class StatePickler(dill.Pickler):
+
+    def persistent_id(self, x):
+        if isinstance(x, marcel.env.Environment):
+            raise pickle.PicklingError('Value refers to the environment')
+        return None
+
+
+def is_picklable(x):
+    try:
+        StatePickler(io.BytesIO()).dump(x)
+        return True
+    except Exception:
+        return False
+
+
 def isempty(x):
     t = type(x)
     return t.__module__ == 'marcel.nestednamespace' and t.__qualname__ == 'Empty'
@@ -112,7 +134,8 @@ class EnvValue(object):
     def wrap(env, value, source=None):
         def is_pipeline(value):
             return isinstance(value, marcel.pipeline.Pipeline)
-        if inspect.isbuiltin(value):
+        # A builtin method, e.g. [].append, doesn't have a module
+        if inspect.isbuiltin(value) and value.__module__ is not None:
             ev = Function(env)
             ev.assign(value)
         elif inspect.ismodule(value):
@@ -478,7 +501,7 @@ class NestedNamespace(dict):
         for k, v in self.scopes[0].items():
             assert isinstance(v, EnvValue), f'{k}: {v}'
             state = v.to_persistent_state()
-            if marcel.util.is_picklable(state):
+            if is_picklable(state):
                 persistent[k] = (v.__class__.__name__, state)
         return persistent
 
diff --git a/marcel/util.py b/marcel/util.py
index d1a4e79..978a7bf 100644
--- a/marcel/util.py
+++ b/marcel/util.py
@@ -126,14 +126,6 @@ def copy(x):
         print_stack_of_current_exception(sys.__stderr__)
 
 
-def is_picklable(x):
-    try:
-        dill.dumps(x)
-        return True
-    except Exception:
-        return False
-
-
 def print_stack_of_current_exception(file=None):
     if file is None:
         file = sys.__stderr__
-- 
2.43.0


From c1b8ca88c5e04e02549659e55658bef80206d1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:07 +0000
Subject: [PATCH 37/91] fix: functions whose parameters are *args, **kwargs,
 keyword-only or have default values were not recognized as functions with
 parameters

---
 marcel/function_args_parser.py | 121 ++++++++-------------------------
 1 file changed, 29 insertions(+), 92 deletions(-)

diff --git a/marcel/function_args_parser.py b/marcel/function_args_parser.py
index 718e8a9..5af231c 100644
--- a/marcel/function_args_parser.py
+++ b/marcel/function_args_parser.py
@@ -15,37 +15,6 @@
 
 import io
 import tokenize as tkn
-from enum import Enum
-
-
-class State(Enum):
-    START = 1
-    ARGLIST = 2
-    STAR = 3
-    ARG = 4
-    END = 5
-    NO_ARGS = 6
-
-    def terminal(self):
-        return self in (State.END, State.NO_ARGS)
-
-
-class Symbol(Enum):
-    LAMBDA = 1,
-    NAME = 2,
-    COMMA = 3,
-    STAR = 4,
-    COLON = 5,
-    OTHER = 6
-
-    @staticmethod
-    def of(token):
-        return (Symbol.LAMBDA if token.type == tkn.NAME and token.string == 'lambda' else
-                Symbol.NAME if token.type == tkn.NAME else
-                Symbol.COMMA if token.type == tkn.OP and token.string == ',' else
-                Symbol.STAR if token.type == tkn.OP and token.string == '*' else
-                Symbol.COLON if token.type == tkn.OP and token.string == ':' else
-                Symbol.OTHER)
 
 
 # For parsing the beginning of an Expression, looking for the arguments of a function.
@@ -53,80 +22,48 @@ class Symbol(Enum):
 # "lambda" may be omitted. Tracks presence of lambda, and whether args are present at all.
 class FunctionArgsParser(object):
 
+    IGNORED = (tkn.ENCODING, tkn.NEWLINE, tkn.NL, tkn.COMMENT, tkn.INDENT, tkn.DEDENT)
+
     def __init__(self, source):
-        self.state = State.START
         self.explicit_lambda = False
         self.explicit_colon = False
         self.has_args = False
         self.input = io.BytesIO(source.encode('utf-8')).readline
-        self.transitions = {
-            (State.START, Symbol.LAMBDA): self.start_lambda,
-            (State.START, Symbol.STAR): self.start_star,
-            (State.START, Symbol.NAME): self.start_name,
-            (State.START, Symbol.COLON): self.start_colon,
-            (State.ARGLIST, Symbol.NAME): self.arglist_name,
-            (State.ARGLIST, Symbol.STAR): self.arglist_star,
-            (State.ARGLIST, Symbol.COLON): self.arglist_colon,
-            (State.STAR, Symbol.NAME): self.star_name,
-            (State.ARG, Symbol.COMMA): self.arg_comma,
-            (State.ARG, Symbol.COLON): self.arg_colon
-        }
 
     def __repr__(self):
-        return (f'({str(self.state)}, '
-                f'lambda: {self.explicit_lambda}, '
+        return (f'(lambda: {self.explicit_lambda}, '
                 f'colon: {self.explicit_colon}, '
                 f'args: {self.has_args})')
 
+    # Look for the colon separating the args from the function body. It is the first colon which is not nested
+    # in brackets, and which does not belong to a lambda inside the args, (in a default value).
     def parse(self):
-        def transition(symbol):
-            handler = self.transitions.get((self.state, symbol), None)
-            return handler() if handler else State.NO_ARGS
-
+        first = True
+        nesting = 0
+        lambdas = 0
         for token in tkn.tokenize(self.input):
             if token.type == tkn.ENDMARKER:
                 break
-            if token.type not in (tkn.ENCODING, tkn.NEWLINE):
-                self.state = transition(Symbol.of(token))
-                if self.state.terminal():
-                    break
-        if self.state != State.END:
+            if token.type in FunctionArgsParser.IGNORED:
+                continue
+            if token.type == tkn.NAME and token.string == 'lambda':
+                if first:
+                    self.explicit_lambda = True
+                    first = False
+                    continue
+                lambdas += nesting == 0
+            elif token.type == tkn.OP:
+                if token.string in ('(', '[', '{'):
+                    nesting += 1
+                elif token.string in (')', ']', '}'):
+                    nesting -= 1
+                elif token.string == ':' and nesting == 0:
+                    if lambdas == 0:
+                        self.explicit_colon = True
+                        break
+                    lambdas -= 1
+            self.has_args = True
+            first = False
+        if not self.explicit_colon:
             self.explicit_lambda = False
-            self.explicit_colon = False
             self.has_args = False
-
-    def start_lambda(self):
-        self.explicit_lambda = True
-        return State.ARGLIST
-
-    def start_star(self):
-        return State.STAR
-
-    def start_name(self):
-        self.has_args = True
-        return State.ARG
-
-    def start_colon(self):
-        self.explicit_colon = True
-        return State.END
-
-    def arglist_name(self):
-        self.has_args = True
-        return State.ARG
-
-    def arglist_star(self):
-        return State.STAR
-
-    def arglist_colon(self):
-        self.explicit_colon = True
-        return State.END
-
-    def star_name(self):
-        return State.ARG
-
-    def arg_comma(self):
-        return State.ARGLIST
-
-    def arg_colon(self):
-        self.explicit_colon = True
-        return State.END
-- 
2.43.0


From fb4a743ceed0d93a607086ed81f451a03c75c293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:44 +0000
Subject: [PATCH 38/91] fix: a workspace whose owner died could not be opened
 by another running process; races in locking a workspace

---
 marcel/object/workspace.py | 81 ++++++++++++++++++--------------------
 1 file changed, 39 insertions(+), 42 deletions(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 4a4854c..641390f 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -393,28 +393,26 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
         assert not self.is_default()
         owner = self.owner()
         if owner is None:
-            # Lock the file by renaming it. Check for success, to guard against another process trying to
-            # lock the same workspace.
-            owned_marker_path = self.marker.owned()
-            self.marker.unowned().rename(owned_marker_path)
-            return owned_marker_path.exists()
+            # Lock the file by renaming it.
+            marker_path = self.marker.unowned()
         elif owner == self.locations.pid:
             # Already locked
             return True
         elif owner == self.locations.ppid:
             # Locked by parent. This process must be owned by a job executing on behalf of the parent.
             return True
-        else:
+        elif marcel.util.process_exists(owner):
             # Locked by another process
-            if marcel.util.process_exists(owner):
-                return False
-            else:
-                # Owner disappeared. Steal the marker file.
-                abandoned_marker_path = self.marker.owned(owner)
-                owned_marker_path = self.marker.owned()
-                abandoned_marker_path.rename(owned_marker_path)
-                # If owned_marker_path doesn't exist, another process was stealing the file at exactly the same time?!
-                return owned_marker_path.exists()
+            return False
+        else:
+            # Owner disappeared. Steal the marker file.
+            marker_path = self.marker.owned(owner)
+        try:
+            marker_path.rename(self.marker.owned())
+            return True
+        except FileNotFoundError:
+            # Another process renamed the marker file first.
+            return False
 
     def unlock_workspace(self):
         assert not self.is_default()
@@ -461,26 +459,23 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
             pickler.dump(state)
         new_path.replace(path)
 
-    # Return pid of owning process, or None if unowned.
+    # Return pid of owning process (which may no longer exist), or None if unowned.
     def owner(self):
         # Should only need this for named workspaces.
         assert not self.is_default()
-        if self.marker.unowned().exists():
-            return None
-        if not self.locations.config_ws(self).exists():
-            return None
-        # First get rid of any markers from processes that don't exist. Shouldn't happen, but still.
-        self.delete_abandoned_markers()
-        # Now find the marker. Something is very wrong if there is anything other than one.
-        marker_filename = None
-        for file in self.locations.config_ws(self).iterdir():
-            if file.name.startswith(Marker.FILENAME_ROOT):
-                if marker_filename is None:
-                    marker_filename = file.name
-                else:
-                    assert False, f'Multiple marker files in {self.locations.config_ws_startup(self)}'
-        assert marker_filename is not None
-        return Workspace.marker_filename_pid(marker_filename)
+        pids = self.owner_pids()
+        # Something is very wrong if there is more than one.
+        assert len(pids) <= 1, f'Multiple marker files in {self.locations.config_ws(self)}'
+        return pids[0] if len(pids) == 1 else None
+
+    # Return pids in the names of marker files. There should be no more than one.
+    def owner_pids(self):
+        config_dir = self.locations.config_ws(self)
+        if not config_dir.exists():
+            return []
+        return [Workspace.marker_filename_pid(file.name)
+                for file in config_dir.iterdir()
+                if file.name.startswith(f'{Marker.FILENAME_ROOT}.')]
 
     def validate(self):
         return WorkspaceValidater(self).validate()
@@ -497,12 +492,17 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
             data_target = locations.data_bws(self, now)
             shutil.move(data_source, data_target)
 
-    def delete_abandoned_markers(self):
-        for file in self.locations.config_ws(self).iterdir():
-            if file.name.startswith(Marker.FILENAME_ROOT) and len(file.name) > len(Marker.FILENAME_ROOT):
-                pid = Workspace.marker_filename_pid(file.name)
-                if not marcel.util.process_exists(pid):
-                    file.unlink()
+    # Unlock the workspace if the process that locked it no longer exists. Renaming the marker file, instead of deleting
+    # it and creating another, guarantees that the workspace always has exactly one, even if other processes are locking
+    # or unlocking it at the same time.
+    def release_abandoned_marker(self):
+        for pid in self.owner_pids():
+            if not marcel.util.process_exists(pid):
+                try:
+                    self.marker.owned(pid).rename(self.marker.unowned())
+                except FileNotFoundError:
+                    # Another process renamed the marker file first.
+                    pass
 
     def cannot_lock_workspace(self):
         raise marcel.exception.KillCommandException(f'Workspace {self.name} is in use by another process.')
@@ -598,11 +598,8 @@ class WorkspaceValidater(object):
         # exist in this dir.
         # Config dir has marker file.
         config_dir_path = locations.config_ws(workspace)
-        # Workspace.owner() gets rid of unowned marker files.
-        self.workspace.delete_abandoned_markers()
+        self.workspace.release_abandoned_marker()
         if not self.workspace.marker.exists():
-            # Could happen if Workspace.owner() deleted the marker, because it was owned by
-            # a process that no longer exists. Create a new marker.
             self.workspace.marker.ensure_exists()
         # Config dir has startup.py.
         if not locations.config_ws_startup(workspace).exists():
-- 
2.43.0


From c2863c2128a6b05cdc1690062180e5c9ffe18b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:44 +0000
Subject: [PATCH 39/91] fix: opening a workspace in use by another process
 terminated the shell

---
 marcel/main.py  | 4 +++-
 marcel/op/ws.py | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/marcel/main.py b/marcel/main.py
index d79147b..2e522e9 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -285,7 +285,9 @@ def main_interactive_run():
     def env_and_main(old_env, old_main, workspace):
         try:
             env = marcel.env.EnvironmentInteractive.create(workspace=workspace, trace=trace)
-        except Exception as e:
+        except (Exception, marcel.exception.KillCommandException) as e:
+            if workspace.is_default():
+                raise
             # Something ws-related? Try starting in default
             marcel.util.print_to_stderr(
                 old_env,
diff --git a/marcel/op/ws.py b/marcel/op/ws.py
index f4f1ce9..e87a782 100644
--- a/marcel/op/ws.py
+++ b/marcel/op/ws.py
@@ -299,6 +299,9 @@ class WsOpen(WsImpl):
         workspace = Workspace(name)
         if workspace.exists():
             if env.workspace.name != name:
+                # Lock the workspace while it is still possible to stay in the current one.
+                if not workspace.lock_workspace():
+                    workspace.cannot_lock_workspace()
                 self.op.send(env, workspace)
                 self.reconfigure(workspace)
                 # The workspace will be opened in the handling of the ReconfigurationException
-- 
2.43.0


From 15c474968434ad2813e63ab7f3cbc3a6abeb9305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:21 +0000
Subject: [PATCH 40/91] fix: an error in the startup script of the default
 workspace caused an infinite loop

---
 marcel/main.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/marcel/main.py b/marcel/main.py
index 2e522e9..3dfbaaa 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -285,6 +285,12 @@ def main_interactive_run():
     def env_and_main(old_env, old_main, workspace):
         try:
             env = marcel.env.EnvironmentInteractive.create(workspace=workspace, trace=trace)
+        except marcel.exception.StartupScriptException as e:
+            if workspace.is_default():
+                raise
+            print(str(e), file=sys.stderr)
+            marcel.util.print_to_stderr(old_env, 'Trying default workspace ...')
+            return env_and_main(old_env, old_main, Workspace.default())
         except (Exception, marcel.exception.KillCommandException) as e:
             if workspace.is_default():
                 raise
@@ -385,7 +391,9 @@ def main():
                 raise marcel.exception.KillShellException('Unable to determine input source!')
             started = True
         except marcel.exception.StartupScriptException as e:
+            # Trying again would fail in the same way.
             print(str(e), file=sys.stderr)
+            sys.exit(1)
         except:
             raise
 
-- 
2.43.0


From 58be24ebd24a1d57c8f8f3bd071f5eda9e1a006b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:21 +0000
Subject: [PATCH 41/91] fix: commands following a blank line of a script on
 standard input were ignored

---
 marcel/main.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/marcel/main.py b/marcel/main.py
index 3dfbaaa..8e9dbca 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -357,10 +357,7 @@ def main_script_run(script):
 
 
 def read_heredoc():
-    lines = []
-    while len(line := sys.stdin.readline().strip()) != 0:
-        lines.append(line)
-    return '\n'.join(lines)
+    return sys.stdin.read()
 
 def read_script(script_path):
     try:
-- 
2.43.0


From 37a0238bde41847eb99ccf9c87316893f6f2bf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:21 +0000
Subject: [PATCH 42/91] fix: set_prompt in a startup script had no effect, and
 startup scripts were run again after each change of workspace

---
 marcel/configscript.py | 8 ++++++++
 marcel/main.py         | 1 +
 2 files changed, 9 insertions(+)

diff --git a/marcel/configscript.py b/marcel/configscript.py
index ef381b0..30c2b42 100644
--- a/marcel/configscript.py
+++ b/marcel/configscript.py
@@ -13,6 +13,7 @@
 # You should have received a copy of the GNU General Public License
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 
+import marcel.builtin
 import marcel.env
 import marcel.exception
 import marcel.locations
@@ -52,9 +53,16 @@ class ConfigScript(object):
         # Execute the config file. Imported and newly-defined symbols go into locals, which
         # will then be added to self.namespace, for use in the execution of op functions.
         locals = dict()
+        # Forget the calls to run_on_startup and set_prompt of a startup script run earlier, by another workspace.
+        marcel.builtin.STARTUP_SCRIPTS = []
+        marcel.builtin.PROMPT = default_prompt = '$ '
         try:
             exec(config_source, self.workspace.namespace, locals)
         except Exception as e:
             marcel.util.print_stack_of_current_exception()
             raise marcel.exception.StartupScriptException(self.workspace, e)
+        # Symbols imported from marcel.builtin don't reflect later changes made by run_on_startup and set_prompt.
+        locals['STARTUP_SCRIPTS'] = marcel.builtin.STARTUP_SCRIPTS
+        if locals.get('PROMPT', default_prompt) == default_prompt:
+            locals['PROMPT'] = marcel.builtin.PROMPT
         return locals
diff --git a/marcel/main.py b/marcel/main.py
index 8e9dbca..07467ca 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -354,6 +354,7 @@ def main_script_run(script):
             workspace = e.workspace_to_open
             env = marcel.env.Environment.create(workspace=workspace, trace=main.env.trace)
             main = MainScript(env)
+            main.run_startup_scripts()
 
 
 def read_heredoc():
-- 
2.43.0


From 1c24ccecae6977dca593589168c8e522532be79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:13 +0000
Subject: [PATCH 43/91] fix: opening a workspace while another process starts
 or deletes it failed

---
 marcel/object/workspace.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 641390f..c3a0e53 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -39,10 +39,13 @@ class Marker(object):
 
     def exists(self):
         config_dir = self.workspace.locations.config_ws(self.workspace)
-        if config_dir.exists():
+        try:
             for file in config_dir.iterdir():
                 if file.name.startswith(Marker.FILENAME_ROOT):
                     return True
+        except FileNotFoundError:
+            # There is no such workspace, or another process is deleting it.
+            pass
         return False
 
     def unowned(self):
@@ -411,8 +414,8 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
             marker_path.rename(self.marker.owned())
             return True
         except FileNotFoundError:
-            # Another process renamed the marker file first.
-            return False
+            # Another process renamed the marker file first, (not necessarily to lock the workspace), or deleted it.
+            return self.exists() and self.lock_workspace()
 
     def unlock_workspace(self):
         assert not self.is_default()
@@ -471,11 +474,13 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
     # Return pids in the names of marker files. There should be no more than one.
     def owner_pids(self):
         config_dir = self.locations.config_ws(self)
-        if not config_dir.exists():
+        try:
+            return [Workspace.marker_filename_pid(file.name)
+                    for file in config_dir.iterdir()
+                    if file.name.startswith(f'{Marker.FILENAME_ROOT}.')]
+        except FileNotFoundError:
+            # There is no such workspace, or another process is deleting it.
             return []
-        return [Workspace.marker_filename_pid(file.name)
-                for file in config_dir.iterdir()
-                if file.name.startswith(f'{Marker.FILENAME_ROOT}.')]
 
     def validate(self):
         return WorkspaceValidater(self).validate()
-- 
2.43.0


From 42c6ec01ad0f4d7a785e7c9a070b70e7f0bcee27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:58 +0000
Subject: [PATCH 44/91] fix: closing a workspace failed if another process
 opened it right away

---
 marcel/object/workspace.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index c3a0e53..d1acd83 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -424,10 +424,8 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
             # Someone is unlocking an unlocked workspace? I'll allow it.
             pass
         elif owner == self.locations.pid:  # locations.pid is the pid of the topmost process
-            # Unlock
-            unowned_marker_path = self.marker.unowned()
-            self.marker.owned().rename(unowned_marker_path)
-            assert unowned_marker_path.exists(), self
+            # Unlock. Another process may lock the workspace right away.
+            self.marker.owned().rename(self.marker.unowned())
         else:
             # Owned by someone else?!
             assert False, self
-- 
2.43.0


From 5fa3c89c6773d437c09138258cac9336299af19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:35 +0000
Subject: [PATCH 45/91] fix: a stream could not be stored again after a command
 loading it failed to start

---
 marcel/op/load.py    |  7 ++++---
 marcel/op/store.py   |  3 ++-
 marcel/picklefile.py | 28 +++++++++++++++-------------
 marcel/pipeline.py   | 10 +++++++++-
 4 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/marcel/op/load.py b/marcel/op/load.py
index f8ee8a4..7bb5809 100644
--- a/marcel/op/load.py
+++ b/marcel/op/load.py
@@ -104,10 +104,11 @@ class Load(marcel.core.Op):
             while True:
                 self.send(env, next(self.reader))
         except StopIteration:
+            pass
+
+    def cleanup(self):
+        if self.reader is not None:
             self.reader.close()
-        except:
-            self.reader.close()
-            raise
 
     def must_be_first_in_pipeline(self):
         return True
diff --git a/marcel/op/store.py b/marcel/op/store.py
index 056ff9d..3e462f6 100644
--- a/marcel/op/store.py
+++ b/marcel/op/store.py
@@ -127,4 +127,5 @@ class Store(marcel.core.Op):
             raise
 
     def cleanup(self):
-        self.writer.close()
+        if self.writer is not None:
+            self.writer.close()
diff --git a/marcel/picklefile.py b/marcel/picklefile.py
index f832698..15e3bbf 100644
--- a/marcel/picklefile.py
+++ b/marcel/picklefile.py
@@ -27,7 +27,7 @@ class PickleFile:
 
     def __init__(self, path):
         self.path = pathlib.Path(path)
-        self._readers = {}  # path -> Reader
+        self._readers = {}  # Open Readers: Reader -> Reader
         self._writer = None
 
     def __repr__(self):
@@ -55,7 +55,7 @@ class PickleFile:
     def reader(self):
         self.check_availability(self._writer is None)
         reader = Reader(self)
-        self._readers[self.path] = reader
+        self._readers[reader] = reader
         return reader
 
     def writer(self, append):
@@ -72,13 +72,15 @@ class PickleFile:
             pass
 
     def close(self):
-        try:
-            access = self._readers.pop(self.path)
-        except KeyError:
-            access = self._writer
+        for access in list(self._readers):
+            access.close()
+        if self._writer is not None:
+            self._writer.close()
+
+    def closed(self, access):
+        self._readers.pop(access, None)
+        if self._writer is access:
             self._writer = None
-        if access is not None:
-            access.close_file()
 
     # A reservoir owned by a default workspace has a filename of the form PID.varname.pickle. Return the pid,
     # or None if there is none.
@@ -98,12 +100,12 @@ class Access(object):
         self.owner = owner
         self.file = None
 
+    # It is OK to close more than once.
     def close(self):
-        self.owner.close()
-
-    def close_file(self):
-        self.file.close()
-        self.file = None
+        self.owner.closed(self)
+        if self.file is not None:
+            self.file.close()
+            self.file = None
 
 
 class Reader(Access):
diff --git a/marcel/pipeline.py b/marcel/pipeline.py
index 5702dae..c840f83 100644
--- a/marcel/pipeline.py
+++ b/marcel/pipeline.py
@@ -59,7 +59,15 @@ class PipelineExecutable(object):
         for op in self.ops:
             if env.trace.is_enabled():
                 env.trace.write(op, 'SETUP')
-            op.setup(env)
+            try:
+                op.setup(env)
+            except:
+                # The pipeline won't run, so release the resources of the ops set up already.
+                for op_already_set_up in self.ops:
+                    if op_already_set_up is op:
+                        break
+                    op_already_set_up.cleanup()
+                raise
         for op in self.ops:
             op.customize_pipelines(env)
 
-- 
2.43.0


From 67cb4608f934e1b449d9931e40b2edc59f71a487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:35 +0000
Subject: [PATCH 46/91] fix: values of a stored stream were mixed up if it was
 appended to, or if values were modified later

---
 marcel/picklefile.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/marcel/picklefile.py b/marcel/picklefile.py
index 15e3bbf..35f9f4d 100644
--- a/marcel/picklefile.py
+++ b/marcel/picklefile.py
@@ -138,24 +138,23 @@ class Reader(Access):
 class Writer(Access):
 
     FLUSH_INTERVAL_SEC = 1.0
+    PROTOCOL = 3
 
     def __init__(self, owner, append):
         super().__init__(owner)
         self.append = append
         owner.path.touch(mode=0o600)
         self.file = open(owner.path, 'ab' if self.append else 'wb')
-        self.pickler = dill.Pickler(self.file)
         self.last_flush = time.time()
 
     def write(self, x):
         assert self.file is not None
-        try:
-            self.pickler.dump(x)
-            now = time.time()
-            if now - self.last_flush > Writer.FLUSH_INTERVAL_SEC:
-                self.file.flush()
-                self.last_flush = now
-        except:
-            print(f'{os.getpid()}: Closing writer')
-            self.close()
-            raise
+        # Pickle each item separately. With a shared pickler, an object would be pickled as a reference to its first
+        # occurrence, even if it was modified since; and only protocols before 4 have references that are not
+        # relative to the beginning of the file, so that data can be appended.
+        pickled = dill.dumps(x, protocol=Writer.PROTOCOL)
+        self.file.write(pickled)
+        now = time.time()
+        if now - self.last_flush > Writer.FLUSH_INTERVAL_SEC:
+            self.file.flush()
+            self.last_flush = now
-- 
2.43.0


From d32c56ea24ececcd7e83d4ae4b848ca293cc5614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:35 +0000
Subject: [PATCH 47/91] fix: load and store: a value that cannot be stored, or
 a stream that cannot be loaded, is an error, not a crash

---
 marcel/op/load.py  | 18 ++++++++++++------
 marcel/op/store.py |  8 +++++---
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/marcel/op/load.py b/marcel/op/load.py
index 7bb5809..84b1eca 100644
--- a/marcel/op/load.py
+++ b/marcel/op/load.py
@@ -97,14 +97,20 @@ class Load(marcel.core.Op):
         elif self.var is not None:
             raise marcel.exception.KillCommandException(
                 f'The type of {self.var} is {type(self.var)}. Only a Reservoir can be loaded')
-        self.reader = iter(self.picklefile)
+        try:
+            self.reader = iter(self.picklefile)
+        except OSError as e:
+            raise marcel.exception.KillCommandException(f'Unable to load {self.var}: {e}')
 
     def run(self, env):
-        try:
-            while True:
-                self.send(env, next(self.reader))
-        except StopIteration:
-            pass
+        while True:
+            try:
+                x = next(self.reader)
+            except StopIteration:
+                break
+            except Exception as e:
+                raise marcel.exception.KillCommandException(f'Unable to load {self.var}: {e}')
+            self.send(env, x)
 
     def cleanup(self):
         if self.reader is not None:
diff --git a/marcel/op/store.py b/marcel/op/store.py
index 3e462f6..7b91a8d 100644
--- a/marcel/op/store.py
+++ b/marcel/op/store.py
@@ -122,9 +122,11 @@ class Store(marcel.core.Op):
     def receive(self, env, x):
         try:
             self.writer.write(x)
-        except:
-            self.writer.close()
-            raise
+        except OSError as e:
+            raise marcel.exception.KillCommandException(f'Unable to write to {self.reservoir}: {e}')
+        except Exception as e:
+            # x cannot be pickled
+            self.non_fatal_error(env, input=x, message=f'Unable to store: {e}')
 
     def cleanup(self):
         if self.writer is not None:
-- 
2.43.0


From 3a715da55e843c8697636a357c11eb953b32c329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:35 +0000
Subject: [PATCH 48/91] fix: assigning or deleting a variable whose stream is
 being loaded terminated the shell

---
 marcel/object/workspace.py |  6 +++---
 marcel/picklefile.py       | 11 ++++++++---
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index d1acd83..4296627 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -137,9 +137,9 @@ class VarHandler(object):
         assert var is not None
         self.check_mutability(var)
         current_value = self.namespace.get(var, None)
-        self.vars_written.add(var)
         if type(current_value) is marcel.reservoir.Reservoir and value != current_value:
             current_value.ensure_deleted()
+        self.vars_written.add(var)
         self.namespace.assign(var, value, source)
 
     def setvar_import(self, var, module, symbol, value):
@@ -151,11 +151,11 @@ class VarHandler(object):
         assert var is not None
         self.check_mutability(var)
         if var in self.namespace:
-            self.vars_written.discard(var)
             value = self.namespace[var]
-            del self.namespace[var]
             if type(value) is marcel.reservoir.Reservoir:
                 value.ensure_deleted()
+            self.vars_written.discard(var)
+            del self.namespace[var]
             return value
         else:
             raise KeyError(var)
diff --git a/marcel/picklefile.py b/marcel/picklefile.py
index 35f9f4d..eab703b 100644
--- a/marcel/picklefile.py
+++ b/marcel/picklefile.py
@@ -13,14 +13,19 @@
 # You should have received a copy of the GNU General Public License
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 
-import dill
 import pathlib
 import os
 import time
 
+import dill
+
+import marcel.exception
+
+
+class PickleFileUsageError(marcel.exception.KillCommandException):
 
-class PickleFileUsageError(BaseException):
-    pass
+    def __init__(self, picklefile):
+        super().__init__(f'{picklefile} is in use')
 
 
 class PickleFile:
-- 
2.43.0


From 957313321c903f217813c60a39f9c5a3a509a4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:04 +0000
Subject: [PATCH 49/91] fix: read: quoted line ends and empty lines in CSV
 files, labels of pickle and JSON files, contents that cannot be read

---
 marcel/op/read.py | 175 ++++++++++++++++++++++++----------------------
 marcel/util.py    |   4 +-
 2 files changed, 92 insertions(+), 87 deletions(-)

diff --git a/marcel/op/read.py b/marcel/op/read.py
index e8f7648..c6bd6cd 100644
--- a/marcel/op/read.py
+++ b/marcel/op/read.py
@@ -219,7 +219,27 @@ class Read(marcel.op.filenamesop.FilenamesOp):
     def read_file(op, env, file):
         assert type(file) is File, f'{type(file)} {file}'
         if file.is_file():
-            op.reader.read_file(env, file, (file,) if op.label else None)
+            contents = op.reader.read(file, (file,) if op.label else ())
+            while True:
+                # Only reading may fail here. Failures of the ops receiving the contents are handled elsewhere.
+                try:
+                    x = next(contents)
+                except StopIteration:
+                    break
+                except Exception as e:
+                    op.non_fatal_error(env, input=file, message=f'Unable to read: {e}')
+                    break
+                if isinstance(x, ReadError):
+                    op.non_fatal_error(env, input=x.line, message=x.message)
+                else:
+                    op.send(env, x)
+
+
+class ReadError(object):
+
+    def __init__(self, line, message):
+        self.line = line
+        self.message = message
 
 
 class Reader:
@@ -227,27 +247,26 @@ class Reader:
     def __init__(self, op):
         self.op = op
 
-    def read_file(self, env, file, label):
+    # Generates the contents of the file. label is a tuple, to be prepended to each output tuple.
+    def read(self, file, label):
         assert False
 
+    def open_file(self, file, newline=None):
+        return marcel.util.open_file(file.path,
+                                     'r',
+                                     marcel.exception.KillAndResumeException,
+                                     newline=newline)
+
 
 class TextReader(Reader):
 
     def __init__(self, op):
         super().__init__(op)
 
-    def read_file(self, env, file, label):
-        with marcel.util.open_file(file.path,
-                                   'r',
-                                   marcel.exception.KillAndResumeException) as input:
-            try:
-                line = input.readline()
-                while len(line) > 0:
-                    line = line.rstrip('\r\n')
-                    self.op.send(env, label + (line,) if label else line)
-                    line = input.readline()
-            except StopIteration:
-                pass
+    def read(self, file, label):
+        with self.open_file(file) as input:
+            for line in input:
+                yield label + (line.rstrip('\r\n'),)
 
 
 class PickleReader(Reader):
@@ -255,14 +274,16 @@ class PickleReader(Reader):
     def __init__(self, op):
         super().__init__(op)
 
-    def read_file(self, env, file, label):
+    def read(self, file, label):
         with marcel.picklefile.PickleFile(file.path).reader() as input:
-            try:
-                while True:
+            while True:
+                try:
                     x = input.read()
-                    self.op.send(env, (label, x) if label else x)
-            except EOFError:
-                pass
+                except EOFError:
+                    break
+                if label:
+                    x = label + (tuple(x) if type(x) in (tuple, list) else (x,))
+                yield x
 
 
 class JSONReader(Reader):
@@ -270,15 +291,11 @@ class JSONReader(Reader):
     def __init__(self, op):
         super().__init__(op)
 
-    def read_file(self, env, file, label):
-        lines = None
-        with marcel.util.open_file(file.path,
-                                   'r',
-                                   marcel.exception.KillAndResumeException) as input:
+    def read(self, file, label):
+        with self.open_file(file) as input:
             lines = input.readlines()
-        assert lines is not None
         json = marcel.jsonutil.JSONUtil().decoder.decode(' '.join(lines))
-        self.op.send(env, json)
+        yield label + (json,) if label else json
 
 
 class CSVReader(Reader):
@@ -286,55 +303,43 @@ class CSVReader(Reader):
 
     def __init__(self, op, delimiter):
         super().__init__(op)
-        self.input = InputIterator(self)
-        self.reader = csv.reader(self.input, delimiter=delimiter)
+        self.delimiter = delimiter
         self.headings = op.headings
         self.skip_headings = op.skip_headings
+
+    def read(self, file, label):
         # For --headings
-        self.named_tuple = None
-        self.n_columns = None
-
-    def read_file(self, env, file, label):
-        with marcel.util.open_file(file.path,
-                                   'r',
-                                   marcel.exception.KillAndResumeException) as input:
-            try:
-                first = True
-                line = input.readline()
-                while len(line) > 0:
-                    line = line.rstrip('\r\n')
-                    self.input.set_current(line)
-                    out = tuple(next(self.reader))
-                    if first and (self.headings or self.skip_headings):
-                        if self.headings:
-                            try:
-                                headings = self.extract_headings(out)
-                                self.named_tuple = namedtuple('csvtuple', headings)
-                                self.n_columns = len(headings)
-                            except ValueError as e:
-                                self.op.non_fatal_error(env,
-                                                        line,
-                                                        f'Cannot generate identifiers from headings: {e}')
-                    else:
-                        if label:
-                            out = label + tuple(out)
-                        if self.named_tuple:
-                            try:
-                                if len(out) < self.n_columns:
-                                    out = out + ((None,) * (self.n_columns - len(out)))
-                                out = self.named_tuple(*out)
-                            except Exception as e:
-                                self.op.non_fatal_error(env,
-                                                        line,
-                                                        'Incompatible with headings, '
-                                                        '(probably too many fields).')
-                                out = None
-                        if out is not None:
-                            self.op.send(env, out)
-                    line = input.readline()
-                    first = False
-            except StopIteration:
-                pass
+        named_tuple = None
+        n_columns = None
+        # newline: Line ends inside quoted fields must be preserved.
+        with self.open_file(file, newline='') as input:
+            lines = InputIterator(input)
+            first = True
+            for fields in csv.reader(lines, delimiter=self.delimiter):
+                line = lines.take()
+                out = tuple(fields)
+                if len(out) == 0:
+                    # Empty line
+                    continue
+                if first and (self.headings or self.skip_headings):
+                    if self.headings:
+                        try:
+                            headings = self.extract_headings(out)
+                            named_tuple = namedtuple('csvtuple', headings)
+                            n_columns = len(headings)
+                        except ValueError as e:
+                            yield ReadError(line, f'Cannot generate identifiers from headings: {e}')
+                else:
+                    out = label + out
+                    if named_tuple:
+                        if len(out) > n_columns:
+                            yield ReadError(line, 'Incompatible with headings, (probably too many fields).')
+                            out = None
+                        else:
+                            out = named_tuple(*(out + ((None,) * (n_columns - len(out)))))
+                    if out is not None:
+                        yield out
+                first = False
 
     def extract_headings(self, fields):
         headings = []
@@ -354,20 +359,20 @@ class CSVReader(Reader):
 
 class InputIterator:
 
-    def __init__(self, op):
-        self.op = op
-        self.current = None
+    def __init__(self, input):
+        self.input = input
+        self.lines = []
 
     def __iter__(self):
         return self
 
     def __next__(self):
-        if self.current:
-            next = self.current
-            self.current = None
-            return next
-        else:
-            raise StopIteration()
-
-    def set_current(self, x):
-        self.current = x
+        line = next(self.input)
+        self.lines.append(line)
+        return line
+
+    # The lines input since the last call
+    def take(self):
+        lines = ''.join(self.lines).rstrip('\r\n')
+        self.lines.clear()
+        return lines
diff --git a/marcel/util.py b/marcel/util.py
index 978a7bf..ae8e884 100644
--- a/marcel/util.py
+++ b/marcel/util.py
@@ -188,9 +188,9 @@ def iterable(x):
     return isinstance(x, collections.abc.Iterable)
 
 
-def open_file(path, mode, exception_class):
+def open_file(path, mode, exception_class, newline=None):
     try:
-        return open(path, mode)
+        return open(path, mode, newline=newline)
     # E.g. writing to a file whose directory does not exist, or which is not a directory.
     except OSError as e:
         raise exception_class(f'Unable to open {path} with mode {mode}: {str(e)}')
-- 
2.43.0


From 065c1fd1fee0eb6b03b1aa4735eff4dc10061833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:04 +0000
Subject: [PATCH 50/91] fix: write --pickle: expand ~ in the filename

---
 marcel/op/write.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marcel/op/write.py b/marcel/op/write.py
index b8cd2b6..c91c66d 100644
--- a/marcel/op/write.py
+++ b/marcel/op/write.py
@@ -301,7 +301,8 @@ class PickleWriter(Writer):
         assert op.filename is not None  # Should have been checked in setup
         self.writer = None
         try:
-            self.writer = marcel.picklefile.PickleFile(op.filename).writer(op.append)
+            path = pathlib.Path(os.path.normpath(op.filename)).expanduser()
+            self.writer = marcel.picklefile.PickleFile(path).writer(op.append)
         except OSError as e:
             raise marcel.exception.KillCommandException(f'Unable to open {op.filename} for writing: {e}')
 
-- 
2.43.0


From 5a7388c1f02913713d531656d8709fea58ceb570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:36 +0000
Subject: [PATCH 51/91] fix: write: report the error if a tuple cannot be
 written and there is no op receiving the output

---
 marcel/op/write.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/marcel/op/write.py b/marcel/op/write.py
index c91c66d..94ac44a 100644
--- a/marcel/op/write.py
+++ b/marcel/op/write.py
@@ -148,9 +148,9 @@ class Write(marcel.core.Op):
         try:
             self.writer.receive(env, x)
         except marcel.exception.KillAndResumeException as e:
-            self.non_fatal_error(env, input=x, message=str(e))
+            self.write_failed(env, x, e)
         except Exception as e:  # E.g. UnicodeEncodeError
-            self.non_fatal_error(env, input=x, message=str(e))
+            self.write_failed(env, x, e)
         finally:
             self.send(env, x)
 
@@ -168,6 +168,14 @@ class Write(marcel.core.Op):
 
     # For use by this class
 
+    def write_failed(self, env, x, e):
+        error = self.error(x, str(e))
+        if self.receiver:
+            self.send_error(env, error)
+        else:
+            # Nothing else will report it.
+            marcel.util.print_to_stderr(env, str(error))
+
     @staticmethod
     def ensure_quoted(x):
         if x is None:
-- 
2.43.0


From 1dd56846f2e36d8f0200e784b7b4a72dd59220f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:31 +0000
Subject: [PATCH 52/91] fix: startup deleted command histories that were not
 from an old version, and could fail if an earlier first startup was
 interrupted

---
 marcel/object/workspace.py          |  8 ++-
 marcel/persistence/storagelayout.py | 81 +++++++++++++++--------------
 2 files changed, 48 insertions(+), 41 deletions(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 4296627..8b6549d 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -369,8 +369,12 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
         config_dir = locations.config_ws(self)
         self.create_dir(config_dir)
         config_file_path = locations.config_ws_startup(self)
-        config_file_path.write_text(initial_config_contents)
-        config_file_path.chmod(0o600)
+        if not config_file_path.exists():
+            # Make sure that startup.py is complete if it exists.
+            new_config_file_path = config_file_path.with_name(config_file_path.name + Workspace.NEW_SUFFIX)
+            new_config_file_path.write_text(initial_config_contents)
+            new_config_file_path.chmod(0o600)
+            new_config_file_path.replace(config_file_path)
         self.marker.ensure_exists()
         # data
         self.create_dir(locations.data_ws(self))
diff --git a/marcel/persistence/storagelayout.py b/marcel/persistence/storagelayout.py
index 832e0ed..9728a80 100644
--- a/marcel/persistence/storagelayout.py
+++ b/marcel/persistence/storagelayout.py
@@ -14,6 +14,7 @@
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 import datetime
 import pathlib
+import re
 import shutil
 
 import marcel.exception
@@ -69,14 +70,14 @@ def ensure_current(testing=False, initial_config=None):
         locations.data()
         locations.data_ws()
         locations.data_bws()
-        # Version
-        write_version(marcel.version.VERSION)
         # Default workspace
         Workspace.default().create_on_disk(initial_config)
+        # Version. Written last, as its presence indicates that initialization is complete.
+        write_version(marcel.version.VERSION)
 
     locations = marcel.locations.Locations()
     layout = storage_layout()
-    if layout is None:
+    if layout is None or (layout.layout() == 'pt' and not locations.config_version().exists()):
         if initial_config is None:
             initial_config = default_initial_config()
         initialize_persistent_config_and_data(initial_config)
@@ -131,6 +132,27 @@ class StorageLayout(object):
                 workspace_dirs.append(path)
         return workspace_dirs
 
+    @staticmethod
+    def histories(data):
+        base_dir = data / 'workspace'
+        workspace_dirs = StorageLayout.subdirs(base_dir) if base_dir.exists() else []
+        return [workspace_dir / 'history' for workspace_dir in workspace_dirs
+                if (workspace_dir / 'history').is_file()]
+
+    # The top of a prompt_toolkit history file looks like this, preceded by a blank line:
+    #
+    #     # 2025-04-02 16:54:22.895547
+    #
+    # The history file of a new workspace is empty, which is fine too.
+    @staticmethod
+    def prompt_toolkit_history(history_file):
+        with open(history_file, errors='replace') as f:
+            for line in f:
+                line = line.strip()
+                if len(line) > 0:
+                    return re.match(r'# \d{4}-\d\d-\d\d \d\d:\d\d:\d\d', line) is not None
+        return True
+
 
 # Version < 0.13.6
 class StorageLayoutOriginal(StorageLayout):
@@ -172,7 +194,8 @@ class StorageLayoutXDG(StorageLayout):
 
     def match(self):
         return (self.config.exists() and
-                self.data.exists())
+                self.data.exists() and
+                (self.config / 'startup.py').exists())
 
 
 # Version >= 0.20.0. First workspace layout.
@@ -253,16 +276,16 @@ class StorageLayoutWS3(StorageLayout):
 
     def migrate(self):
         # Just trash old histories.
-        layout = None
-        for workspace_dir in StorageLayout.subdirs(self.data / 'workspace'):
-            history_file = workspace_dir / 'history'
-            history_file.unlink()
-            # Write something that looks like a prompt_toolkit history file
-            with open(history_file, 'w') as f:
-                f.write('\n')
-                f.write(datetime.datetime.now().strftime('# %Y-%m-%d %H:%M:%S.%f\n'))
-                f.write('+("History from before marcel version 0.32.0 has been deleted, '
-                        'due to a change in history file format.")\n')
+        for history_file in StorageLayout.histories(self.data):
+            if not StorageLayout.prompt_toolkit_history(history_file):
+                # Write something that looks like a prompt_toolkit history file
+                new_history_file = history_file.with_name(history_file.name + Workspace.NEW_SUFFIX)
+                with open(new_history_file, 'w') as f:
+                    f.write('\n')
+                    f.write(datetime.datetime.now().strftime('# %Y-%m-%d %H:%M:%S.%f\n'))
+                    f.write('+("History from before marcel version 0.32.0 has been deleted, '
+                            'due to a change in history file format.")\n')
+                new_history_file.replace(history_file)
         layout = storage_layout()
         assert layout
         assert layout.layout() == 'pt'
@@ -283,29 +306,9 @@ class StorageLayoutPromptToolkit(StorageLayout):
         return None
 
     def match(self):
-        # Same layout as ws3, but the top of this history file looks like this:
-        #
-        #     # 2025-04-02 16:54:22.895547
-        # Look for a blank line followed by "# 2...-..-.. ..:  :  ."
-        #    positions:                      0  3  6  9  12 15 18 21
-        # where . is any character
-
-        if not (self.config.exists() and
+        # Same layout as ws3, but with prompt_toolkit history files.
+        return (self.config.exists() and
                 (self.config / 'workspace').exists() and
-                (self.config / 'workspace' / '__DEFAULT__').exists()):
-            return False
-        history_file = self.data / 'workspace' / '__DEFAULT__' / 'history'
-        if history_file.exists():
-            with open(history_file) as f:
-                l1 = f.readline().strip()
-                l2 = f.readline().strip()
-                if (len(l1) == 0 and len(l2) > 0 and
-                    l2[:3] == '# 2' and
-                    l2[6] == '-' and
-                    l2[9] == '-' and
-                    l2[12] == ' ' and
-                    l2[15] == ':' and
-                    l2[18] == ':' and
-                    l2[21] == '.'):
-                    return True
-        return False
\ No newline at end of file
+                (self.config / 'workspace' / '__DEFAULT__').exists() and
+                all(StorageLayout.prompt_toolkit_history(history_file)
+                    for history_file in StorageLayout.histories(self.data)))
-- 
2.43.0


From 26416ec15be5d487881d6fde918f79df200e3fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:31 +0000
Subject: [PATCH 53/91] fix: appending to an undefined variable could include
 contents left behind by a crashed process

---
 marcel/op/store.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marcel/op/store.py b/marcel/op/store.py
index 7b91a8d..3fa1988 100644
--- a/marcel/op/store.py
+++ b/marcel/op/store.py
@@ -104,6 +104,8 @@ class Store(marcel.core.Op):
                         f'because it stores a value of type {type(value)}.')
                 if type(value) is not Reservoir:
                     value = Reservoir(self.var, env.locations.data_ws_res(env.workspace, self.var))
+                    # The file may exist, if a process crashed before saving the variable.
+                    value.ensure_deleted()
                 self.reservoir = value
                 env.setvar(self.var, value)
                 env.mark_possibly_changed(self.var)
-- 
2.43.0


From ca768a1c30c58b570b431f9fdeb082dba2725e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:52 +0000
Subject: [PATCH 54/91] fix: damage to the default workspace, or of an
 unanticipated kind, prevented startup or affected all workspaces

---
 marcel/main.py                    |  9 +++-
 marcel/object/workspace.py        | 71 ++++++++++++++++++++++---------
 marcel/persistence/persistence.py |  6 +--
 3 files changed, 62 insertions(+), 24 deletions(-)

diff --git a/marcel/main.py b/marcel/main.py
index 07467ca..8198d35 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -146,9 +146,12 @@ class MainScript(Main):
             for validation_error in errors:
                 marcel.util.print_to_stderr(self.env, str(validation_error))
                 ws_name = validation_error.workspace_name
-                broken_ws = Workspace (ws_name)
                 started_in_broken_ws = started_in_broken_ws or (self.env.workspace.name == ws_name)
+            for ws_name in broken_workspace_names:
+                broken_ws = Workspace.default() if ws_name == Workspace.default().name else Workspace(ws_name)
                 broken_ws.mark_broken(now)
+                if broken_ws.is_default():
+                    broken_ws.create_on_disk(marcel.persistence.storagelayout.default_initial_config())
             if started_in_broken_ws:
                 # This marks this MainScript object as needing a restart. Don't want to continue with a broken
                 # workspace, but throwing a ReconfigureException right now (during MainScript.__init__)
@@ -342,6 +345,10 @@ def main_script_run(script):
     workspace = Workspace.default()
     env = marcel.env.Environment.create(workspace=workspace)
     main = MainScript(env)
+    if main.needs_restart:
+        main.shutdown(restart=True)
+        env = marcel.env.Environment.create(workspace=workspace)
+        main = MainScript(env)
     main.run_startup_scripts()
     for command in commands:
         try:
diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 8b6549d..b55620a 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -13,6 +13,7 @@
 # You should have received a copy of the GNU General Public License
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 
+import pickle
 import shutil
 import pathlib
 import time
@@ -41,13 +42,19 @@ class Marker(object):
         config_dir = self.workspace.locations.config_ws(self.workspace)
         try:
             for file in config_dir.iterdir():
-                if file.name.startswith(Marker.FILENAME_ROOT):
+                if Marker.is_marker(file.name):
                     return True
-        except FileNotFoundError:
+        except (FileNotFoundError, NotADirectoryError):
             # There is no such workspace, or another process is deleting it.
             pass
         return False
 
+    @staticmethod
+    def is_marker(filename):
+        return (filename == Marker.FILENAME_ROOT or
+                filename.startswith(f'{Marker.FILENAME_ROOT}.') and
+                filename[len(Marker.FILENAME_ROOT) + 1:].isdecimal())
+
     def unowned(self):
         return self.workspace.locations.config_ws(self.workspace) / Marker.FILENAME_ROOT
 
@@ -252,7 +259,7 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
                 self.namespace = marcel.nestednamespace.NestedNamespace(env)
                 if initial_namespace:
                     initial_namespace.add_to_namespace(self.namespace, env)
-                config_dict = self.config_script.run()
+                config_dict = self.run_config_script()
                 for var, value in config_dict.items():
                     self.namespace.assign_permanent(var, value)
                 self.add_immutable_vars(config_dict.keys())
@@ -363,6 +370,9 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
 
     # Internal
 
+    def run_config_script(self):
+        return self.config_script.run()
+
     def create_on_disk(self, initial_config_contents):
         locations = self.locations
         # config
@@ -479,7 +489,7 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
         try:
             return [Workspace.marker_filename_pid(file.name)
                     for file in config_dir.iterdir()
-                    if file.name.startswith(f'{Marker.FILENAME_ROOT}.')]
+                    if Marker.is_marker(file.name) and file.name != Marker.FILENAME_ROOT]
         except FileNotFoundError:
             # There is no such workspace, or another process is deleting it.
             return []
@@ -579,6 +589,13 @@ class WorkspaceDefault(Workspace):
     def lock_workspace(self):
         return True
 
+    def run_config_script(self):
+        if not self.locations.config_ws_startup(self).is_file():
+            # The default workspace is damaged. This will be detected, and it will be recreated. Don't prevent marcel
+            # from getting that far.
+            return {'STARTUP_SCRIPTS': [], 'PROMPT': marcel.builtin.PROMPT}
+        return super().run_config_script()
+
 
 class WorkspaceValidater(object):
     class Error(object):
@@ -603,28 +620,31 @@ class WorkspaceValidater(object):
         workspace = self.workspace
         # Don't need to check existence of config dir. The persistence.validate_all loop checks workspaces that
         # exist in this dir.
-        # Config dir has marker file.
         config_dir_path = locations.config_ws(workspace)
+        if not config_dir_path.is_dir():
+            self.not_a_directory(config_dir_path)
+            return self.errors
+        # Config dir has marker file.
         self.workspace.release_abandoned_marker()
         if not self.workspace.marker.exists():
             self.workspace.marker.ensure_exists()
         # Config dir has startup.py.
-        if not locations.config_ws_startup(workspace).exists():
-            self.missing(locations.config_ws_startup(workspace))
+        self.validate_file(locations.config_ws_startup(workspace))
         # Config dir has nothing else.
         if len(list(config_dir_path.iterdir())) > 2:
             self.extraneous(config_dir_path)
         # Data dir exists
         if not locations.data_ws(workspace).exists():
             self.missing(locations.data_ws(workspace))
+        elif not locations.data_ws(workspace).is_dir():
+            self.not_a_directory(locations.data_ws(workspace))
         else:
             # env.pickle
             self.validate_env_file()
             # properties.pickle
             self.validate_properties_file()
             # history
-            if not locations.data_ws_hist(workspace).exists():
-                self.missing(locations.data_ws_hist(workspace))
+            self.validate_file(locations.data_ws_hist(workspace))
             # reservoirs
             if not locations.data_ws_res(workspace).exists():
                 self.missing(locations.data_ws_res(workspace))
@@ -641,16 +661,25 @@ class WorkspaceValidater(object):
         return self.errors
 
     def validate_env_file(self):
-        locations = self.locations
-        workspace = self.workspace
-        if not locations.data_ws_env(workspace).exists():
-            self.missing(locations.data_ws_env(workspace))
+        self.validate_pickle_file(self.locations.data_ws_env(self.workspace))
 
     def validate_properties_file(self):
-        locations = self.locations
-        workspace = self.workspace
-        if not workspace.is_default() and not locations.data_ws_prop(workspace).exists():
-            self.missing(locations.data_ws_prop(workspace))
+        self.validate_pickle_file(self.locations.data_ws_prop(self.workspace))
+
+    def validate_file(self, path):
+        if not path.exists():
+            self.missing(path)
+            return False
+        if not path.is_file():
+            self.errors.append(WorkspaceValidater.Error(self.workspace.name, f'{path} is not actually a file'))
+            return False
+        return True
+
+    def validate_pickle_file(self, path):
+        if self.validate_file(path):
+            with open(path, 'rb') as file:
+                if not file.read().endswith(pickle.STOP):
+                    self.errors.append(WorkspaceValidater.Error(self.workspace.name, f'{path} is incomplete'))
 
     def missing(self, path):
         self.errors.append(WorkspaceValidater.Error(self.workspace.name, f'{path} is missing'))
@@ -682,9 +711,11 @@ class WorkspaceDefaultValidater(WorkspaceValidater):
         locations = self.locations
         workspace = self.workspace
         pids = set(psutil.pids())
-        delete_abandoned(locations.data_ws(workspace), '.env.pickle')
-        delete_abandoned(locations.data_ws(workspace), '.env.pickle' + Workspace.NEW_SUFFIX)
-        delete_abandoned(locations.data_ws_res(workspace), '.pickle')
+        if locations.data_ws(workspace).is_dir():
+            delete_abandoned(locations.data_ws(workspace), '.env.pickle')
+            delete_abandoned(locations.data_ws(workspace), '.env.pickle' + Workspace.NEW_SUFFIX)
+            if locations.data_ws_res(workspace).is_dir():
+                delete_abandoned(locations.data_ws_res(workspace), '.pickle')
         return super().validate()
 
     def validate_env_file(self):
diff --git a/marcel/persistence/persistence.py b/marcel/persistence/persistence.py
index a730476..9c19c18 100644
--- a/marcel/persistence/persistence.py
+++ b/marcel/persistence/persistence.py
@@ -57,11 +57,11 @@ def validate_all(error_handler):
     data_workspace_names = set([f.name for f in locations.data_ws().iterdir()])
     broken_workspace_names = set()
     for missing_data_dir in (config_workspace_names - data_workspace_names):
-        broken = Workspace(missing_data_dir)
+        broken = workspace_named(missing_data_dir)
         broken_workspace_names.add(broken.name)
         errors.append(WorkspaceValidater.Error(broken.name, f'{locations.data_ws(broken)} is missing'))
     for missing_config_dir in (data_workspace_names - config_workspace_names):
-        broken = Workspace(missing_config_dir)
+        broken = workspace_named(missing_config_dir)
         broken_workspace_names.add(broken.name)
         errors.append(WorkspaceValidater.Error(broken.name, f'{locations.config_ws(broken)} is missing'))
     # Validate each workspace. Don't rely on Workspace.list(), which assumes valid workspaces.
@@ -71,7 +71,7 @@ def validate_all(error_handler):
             workspace = workspace_named(dir.name)
             ws_errors = workspace.validate()
             if len(ws_errors) > 0:
-                broken_workspace_names.add(dir.name)
+                broken_workspace_names.add(workspace.name)
                 errors.extend(ws_errors)
         # else: Missing data workspace directory has already been noted.
     error_handler(broken_workspace_names, errors)
-- 
2.43.0


From d3be22bca2ea6c05fad7d4381891da077d206349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:29 +0000
Subject: [PATCH 55/91] fix: variables assigned by a job could be missing in
 the next command, or change another workspace

---
 marcel/job.py              | 68 ++++++++++++++++++++++++--------------
 marcel/main.py             |  1 +
 marcel/object/workspace.py |  2 +-
 3 files changed, 46 insertions(+), 25 deletions(-)

diff --git a/marcel/job.py b/marcel/job.py
index ab1ab79..ac0daf8 100644
--- a/marcel/job.py
+++ b/marcel/job.py
@@ -14,6 +14,7 @@
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 
 import os
+import queue
 import multiprocessing as mp
 import multiprocessing.connection as mpc
 import signal
@@ -95,12 +96,15 @@ class Job:
 
     # Params
     JOIN_DELAY_SEC = 0.2
+    RECEIVE_TIMEOUT_SEC = 1.0
 
     def __init__(self, env, command):
         self.env = env
         self.command = command
         self.state = Job.RUNNING_FOREGROUND
         self.process = None
+        # Set when there is nothing more to receive from the process.
+        self.received = threading.Event()
         self.start_process()
 
     def __repr__(self):
@@ -170,7 +174,7 @@ class Job:
         # other direction
         debug(f'About to spawn process for {self.command.source}')
         reader, writer = mp.Pipe(duplex=False)
-        JobControl.only.child_listener.add_listener(reader)
+        JobControl.only.child_listener.add_listener(reader, self.received)
         debug('Job.start_process')
         self.process = mp.Process(target=run_command_in_child, args=(self.env, self.command, writer))
         self.process.daemon = False
@@ -200,42 +204,42 @@ class Job:
 
 class ChildListener(threading.Thread):
 
-    def __init__(self, child_completion_handler):
+    def __init__(self):
         super().__init__()
         self.daemon = True
-        self.child_completion_handler = child_completion_handler
         self.waiter = threading.Condition()
-        self.listeners = []
+        self.listeners = {}  # listener -> threading.Event, set on EOF
+        # What has been received from completed jobs.
+        self.received = queue.SimpleQueue()
         self.stop = False
 
-    def add_listener(self, listener):
-        self.waiter.acquire()
-        self.listeners.append(listener)
-        self.waiter.notify()
-        self.waiter.release()
+    def add_listener(self, listener, eof):
+        with self.waiter:
+            self.listeners[listener] = eof
+            self.waiter.notify()
 
     def run(self):
         to_remove = []
         while True:
-            self.waiter.acquire()
-            # Remove any listeners that threw EOFError in a previous iteration
-            for listener in to_remove:
-                self.listeners.remove(listener)
-            to_remove.clear()
-            # Wait until a listener has something
-            while not self.stop and len(self.listeners) == 0:
-                self.waiter.wait(1)
-            if self.stop:
-                return
-            listeners = list(self.listeners)
-            self.waiter.release()
+            with self.waiter:
+                # Remove any listeners that threw EOFError in a previous iteration
+                for listener in to_remove:
+                    self.listeners.pop(listener).set()
+                to_remove.clear()
+                # Wait until a listener has something
+                while not self.stop and len(self.listeners) == 0:
+                    self.waiter.wait(1)
+                if self.stop:
+                    return
+                listeners = list(self.listeners)
             # Process the listeners that are ready
             for listener in mpc.wait(listeners, 0.1):
                 try:
                     input = listener.recv()
                     if input is not None:
-                        self.child_completion_handler(dill.loads(input))
-                except EOFError:
+                        self.received.put(input)
+                except (EOFError, OSError):
+                    # OSError: The process was killed while sending.
                     to_remove.append(listener)
 
     def stop_listening(self):
@@ -250,7 +254,8 @@ class JobControl:
     def __init__(self, env, child_completion_handler):
         self.env = env
         self._jobs = []
-        self.child_listener = ChildListener(child_completion_handler)
+        self.child_completion_handler = child_completion_handler
+        self.child_listener = ChildListener()
         self.child_listener.start()
         signal.signal(signal.SIGINT, self.ctrl_c_handler)
         signal.signal(signal.SIGTSTP, self.ctrl_z_handler)
@@ -296,8 +301,23 @@ class JobControl:
         while foreground and foreground.state != Job.DEAD:
             foreground.process.join(0.1)
             foreground = self.foreground()
+        for job in self._jobs:
+            if job.state == Job.DEAD:
+                # The process has terminated, so whatever it sent is about to be received.
+                job.received.wait(Job.RECEIVE_TIMEOUT_SEC)
+                job.received.set()
+        self.handle_completed()
         debug(f'idle')
 
+    # Handle what completed jobs sent. This has to be done on the main thread, between commands, because it
+    # modifies the namespace.
+    def handle_completed(self):
+        while not self.child_listener.received.empty():
+            try:
+                self.child_completion_handler(dill.loads(self.child_listener.received.get()))
+            except Exception as e:
+                print(f'Unable to apply the effects of a job: {e}', file=sys.stderr)
+
     def ctrl_c_handler(self, signum, frame):
         debug(f'ctrl c handler')
         assert signum == signal.SIGINT
diff --git a/marcel/main.py b/marcel/main.py
index 8198d35..32c098b 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -230,6 +230,7 @@ class MainInteractive(MainScript):
                         self.input = (self.reader.input() if interactive
                                       else input())
                     # else: Restarted main, and self.input was from the previous incarnation.
+                    self.job_control.handle_completed()
                     self.check_for_config_update()
                     self.parse_and_run_command(self.input)
                     self.input = None
diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index b55620a..b733457 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -580,7 +580,7 @@ class WorkspaceDefault(Workspace):
     def read_environment(self):
         try:
             persistent_state = super().read_environment()
-        except FileNotFoundError:
+        except (FileNotFoundError, NotADirectoryError):
             # This can happen on startup when the default workspace for this process hasn't been saved yet.
             # Environment.restore_persistent_state_from_workspace defines what keys should be in persistent_state.
             persistent_state = {}
-- 
2.43.0


From e4a8b58cefdbbfa434afb45afbad65e85f272bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:40 +0000
Subject: [PATCH 56/91] fix: migration from old storage layouts failed if
 interrupted, or if there was no history

---
 marcel/persistence/storagelayout.py | 72 ++++++++++++++++-------------
 1 file changed, 41 insertions(+), 31 deletions(-)

diff --git a/marcel/persistence/storagelayout.py b/marcel/persistence/storagelayout.py
index 9728a80..a62b591 100644
--- a/marcel/persistence/storagelayout.py
+++ b/marcel/persistence/storagelayout.py
@@ -13,7 +13,6 @@
 # You should have received a copy of the GNU General Public License
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 import datetime
-import pathlib
 import re
 import shutil
 
@@ -62,6 +61,9 @@ def ensure_current(testing=False, initial_config=None):
             installed_version = '0.0.0'
         return installed_version
 
+    def version_number(version):
+        return [int(n) for n in re.findall(r'\d+', version)]
+
     def initialize_persistent_config_and_data(initial_config):
         # These calls ensure the config and data directories exist.
         locations.config()
@@ -90,10 +92,13 @@ def ensure_current(testing=False, initial_config=None):
                 if before == after:
                     raise marcel.exception.KillShellException(f'Migration from {before} failed to advance.')
     # Write version file
-    if installed_version() < marcel.version.VERSION:
+    if version_number(installed_version()) < version_number(marcel.version.VERSION):
         write_version(marcel.version.VERSION)
 
 
+# The version a migration is from does not matter. The storage layout (i.e., which files and directories exist) determines
+# what migration to run. A migration may be interrupted at any time, and will then be run again on the next startup. So
+# a migration must not modify what the matching of its own layout depends on until everything else is done.
 class StorageLayout(object):
 
     def __init__(self):
@@ -132,6 +137,12 @@ class StorageLayout(object):
                 workspace_dirs.append(path)
         return workspace_dirs
 
+    # A migration may have been interrupted after moving some files.
+    @staticmethod
+    def move_if_exists(source, target):
+        if source.exists():
+            shutil.move(source, target)
+
     @staticmethod
     def histories(data):
         base_dir = data / 'workspace'
@@ -166,16 +177,17 @@ class StorageLayoutOriginal(StorageLayout):
     def migrate(self):
         self.config.mkdir(parents=True, exist_ok=True)
         self.data.mkdir(parents=True, exist_ok=True)
+        StorageLayout.move_if_exists(self.home / '.marcel_history', self.data / 'history')
+        # Last: Makes the new layout match
         shutil.move(self.home / '.marcel.py', self.config / 'startup.py')
-        shutil.move(self.home / '.marcel_history', self.data / 'history')
         layout = storage_layout()
         assert layout
         assert layout.layout() == 'xdg'
         return layout
 
     def match(self):
-        match = ((self.home / '.marcel.py').exists() and (self.home / '.marcel_history').exists())
-        return match
+        # There may be no history file, e.g. if this migration was interrupted.
+        return (self.home / '.marcel.py').exists()
 
 
 # Version >= ~0.13.6. First use of XDG conventions.
@@ -185,8 +197,9 @@ class StorageLayoutXDG(StorageLayout):
         return 'xdg'
 
     def migrate(self):
-        (self.config / '.WORKSPACE').touch(mode=0o000)
         (self.data / 'reservoirs').mkdir(exist_ok=True)
+        # Last: Makes the new layout match
+        (self.config / '.WORKSPACE').touch(mode=0o000)
         layout = storage_layout()
         assert layout
         assert layout.layout() == 'ws1'
@@ -209,11 +222,15 @@ class StorageLayoutWS1(StorageLayout):
             new_default_workspace_dir = base_dir / '__DEFAULT_WORKSPACE__'
             new_default_workspace_dir.mkdir(parents=True, exist_ok=True)
             for filename in filenames:
-                shutil.move(base_dir / filename, new_default_workspace_dir)
+                StorageLayout.move_if_exists(base_dir / filename, new_default_workspace_dir / filename)
+            return new_default_workspace_dir
 
         # Move default workspace files to __DEFAULT_WORKSPACE__ directory
-        fix_default_workspace(self.config, '.WORKSPACE', 'startup.py')
-        fix_default_workspace(self.data, 'history', 'reservoirs')
+        data_dir = fix_default_workspace(self.data, 'history', 'reservoirs')
+        (data_dir / 'history').touch(mode=0o600, exist_ok=True)
+        (data_dir / 'reservoirs').mkdir(exist_ok=True)
+        # .WORKSPACE is last: Makes the new layout match
+        fix_default_workspace(self.config, 'startup.py', '.WORKSPACE')
         layout = storage_layout()
         assert layout
         assert layout.layout() == 'ws2'
@@ -231,41 +248,34 @@ class StorageLayoutWS2(StorageLayout):
         return 'ws2'
 
     def migrate(self):
-        def move_workspace_dirs(workspace_dirs, new_workspace_base):
-            for workspace_dir in workspace_dirs:
-                if workspace_dir.name != marcel.locations.Locations.WORKSPACE_DIR_NAME:
-                    moved_dir = shutil.move(workspace_dir, new_workspace_base)
-                    if moved_dir:
-                        self.should_exist(pathlib.Path(moved_dir), f'Tried to move workspace dir {workspace_dir}')
-                    else:
-                        raise marcel.exception.KillShellException(
-                            f'Attempt to move workspace dir {workspace_dir} failed.')
-                    self.should_not_exist(workspace_dir, f'Tried to move workspace dir {workspace_dir}')
-
         def fix_dirs(base_dir):
             new_workspace_dir = base_dir / 'workspace'
             new_workspace_dir.mkdir(parents=True, exist_ok=True)
-            # Move workspace directories
-            old_workspace_dirs = StorageLayout.subdirs(base_dir)
-            move_workspace_dirs(old_workspace_dirs, new_workspace_dir)
-            # Rename __DEFAULT_WORKSPACE__ to __DEFAULT__
-            old_default_workspace_dir = new_workspace_dir / '__DEFAULT_WORKSPACE__'
-            new_default_workspace_dir = new_workspace_dir / '__DEFAULT__'
-            old_default_workspace_dir.rename(new_default_workspace_dir)
             # Create dir for broken workspaces
             new_broken_dir = base_dir / 'broken'
-            new_broken_dir.mkdir(parents=False, exist_ok=False)
+            new_broken_dir.mkdir(parents=False, exist_ok=True)
+            # Move workspace directories
+            old_default_workspace_dir = base_dir / '__DEFAULT_WORKSPACE__'
+            for workspace_dir in StorageLayout.subdirs(base_dir):
+                if workspace_dir not in (new_workspace_dir, new_broken_dir, old_default_workspace_dir):
+                    moved_dir = new_workspace_dir / workspace_dir.name
+                    shutil.move(workspace_dir, moved_dir)
+                    self.should_exist(moved_dir, f'Tried to move workspace dir {workspace_dir}')
+                    self.should_not_exist(workspace_dir, f'Tried to move workspace dir {workspace_dir}')
+            # Rename __DEFAULT_WORKSPACE__ to __DEFAULT__. This is last: Makes the new layout match
+            StorageLayout.move_if_exists(old_default_workspace_dir, new_workspace_dir / '__DEFAULT__')
 
-        fix_dirs(self.config)
         fix_dirs(self.data)
+        fix_dirs(self.config)
         layout = storage_layout()
         assert layout
-        assert layout.layout() == 'ws3'
+        # If there are no histories in the old format, then the layout is already the next one.
+        assert layout.layout() in ('ws3', 'pt'), layout.layout()
         return layout
 
     def match(self):
         return (self.config.exists() and
-                (self.config / '__DEFAULT_WORKSPACE__').exists())
+                (self.config / '__DEFAULT_WORKSPACE__' / '.WORKSPACE').exists())
 
 
 # Version >= 0.28.0. Separate broken and valid workspaces.
-- 
2.43.0


From 3006479bc9e5b63038b6c8c79a0dafc3bf512a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:23 +0000
Subject: [PATCH 57/91] fix: ctrl-C, ctrl-Z or the end of a job at the wrong
 moment could end the shell, or leave a job in the wrong state

---
 marcel/job.py | 44 +++++++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/marcel/job.py b/marcel/job.py
index ac0daf8..8f5fd01 100644
--- a/marcel/job.py
+++ b/marcel/job.py
@@ -124,8 +124,6 @@ class Job:
                     self.process.join(Job.JOIN_DELAY_SEC)
                     if self.process.is_alive():
                         print(f'Unable to kill {self}', file=sys.stderr)
-                    else:
-                        self.process = None
             except ProcessLookupError:
                 pass
 
@@ -142,14 +140,14 @@ class Job:
         if self.state not in (Job.RUNNING_PAUSED, Job.DEAD):
             debug(f'sending SIGTSTP to {self.process.pid}')
             self.state = Job.RUNNING_PAUSED
-            os.kill(self.process.pid, signal.SIGTSTP)
+            self.signal(signal.SIGTSTP)
 
     # bg
     def run_in_background(self):
         debug(f'run_in_background {self}')
         if self.state != Job.DEAD:
             self.state = Job.RUNNING_BACKGROUND
-            os.kill(self.process.pid, signal.SIGCONT)
+            self.signal(signal.SIGCONT)
 
     # fg
     def run_in_foreground(self):
@@ -159,8 +157,13 @@ class Job:
         elif self.state == Job.RUNNING_BACKGROUND:
             self.state = Job.RUNNING_FOREGROUND
         elif self.state == Job.RUNNING_PAUSED:
-            self.state = Job.RUNNING_FOREGROUND
-            os.kill(self.process.pid, signal.SIGCONT)
+            # ctrl-z has to find the job paused and stopped, or in the foreground and running.
+            signal.pthread_sigmask(signal.SIG_BLOCK, [signal.SIGTSTP])
+            try:
+                self.state = Job.RUNNING_FOREGROUND
+                self.signal(signal.SIGCONT)
+            finally:
+                signal.pthread_sigmask(signal.SIG_UNBLOCK, [signal.SIGTSTP])
         elif self.state == Job.DEAD:
             raise marcel.exception.KillCommandException('Cannot foreground killed job')
 
@@ -189,6 +192,8 @@ class Job:
             # marcel.util.PickleDebugger().check(self.process, debug=True)
 
             self.process.start()
+            # The handlers, once restored, need to know about this job.
+            JobControl.only.add_job(self)
             writer.close()  # See topmost comment
         finally:
             # Restore process handling needed by the console process.
@@ -197,9 +202,15 @@ class Job:
         debug(f'Started process {self.process.pid}')
 
     def check_alive(self):
-        if self.process is None or not self.process.is_alive():
+        # A signal handler may call this at any time, so self.process has to stay valid.
+        if not self.process.is_alive():
             self.state = Job.DEAD
-            self.process = None
+
+    def ensure_received(self):
+        if self.state == Job.DEAD:
+            # The process has terminated, so whatever it sent is about to be received.
+            self.received.wait(Job.RECEIVE_TIMEOUT_SEC)
+            self.received.set()
 
 
 class ChildListener(threading.Thread):
@@ -269,7 +280,9 @@ class JobControl:
         job_control.child_listener.stop_listening()
 
     def create_job(self, command):
-        job = Job(self.env, command)
+        Job(self.env, command)
+
+    def add_job(self, job):
         self._jobs.append(job)
 
     def jobs(self):
@@ -301,17 +314,15 @@ class JobControl:
         while foreground and foreground.state != Job.DEAD:
             foreground.process.join(0.1)
             foreground = self.foreground()
-        for job in self._jobs:
-            if job.state == Job.DEAD:
-                # The process has terminated, so whatever it sent is about to be received.
-                job.received.wait(Job.RECEIVE_TIMEOUT_SEC)
-                job.received.set()
         self.handle_completed()
         debug(f'idle')
 
     # Handle what completed jobs sent. This has to be done on the main thread, between commands, because it
     # modifies the namespace.
     def handle_completed(self):
+        for job in self._jobs:
+            job.check_alive()
+            job.ensure_received()
         while not self.child_listener.received.empty():
             try:
                 self.child_completion_handler(dill.loads(self.child_listener.received.get()))
@@ -342,7 +353,10 @@ class JobControl:
     def remove_completed(self):
         new_jobs = []
         for job in self._jobs:
-            if job.process is not None and job.process.is_alive():
+            job.check_alive()
+            if job.state == Job.DEAD:
+                job.ensure_received()
+            else:
                 new_jobs.append(job)
         self._jobs = new_jobs
 
-- 
2.43.0


From 58aeee1610095d759a2e705f7c079086910f6f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:10 +0000
Subject: [PATCH 58/91] fix: a pipeline with parameters, as an argument of an
 operator that supplies none, ended the session

---
 marcel/pipeline.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/marcel/pipeline.py b/marcel/pipeline.py
index c840f83..fbd3313 100644
--- a/marcel/pipeline.py
+++ b/marcel/pipeline.py
@@ -322,7 +322,9 @@ class PipelineMarcel(Pipeline):
     def run_pipeline(self, env, bindings):
         assert self.state in (PipelineMarcel.State.IDLE, PipelineMarcel.State.SETUP), self.state
         params = self.executable.parameters()
-        assert set(params) == set(bindings.keys()), f'params = {params}, binding keys = {bindings.keys()}'
+        assert set(params) >= set(bindings.keys()), f'params = {params}, binding keys = {bindings.keys()}'
+        # Parameters without arguments, e.g. union (| x: ... |), are None.
+        bindings = {param: bindings.get(param) for param in params}
         executable = self.executable
         env.vars().push_scope(bindings)
         try:
@@ -521,7 +523,7 @@ class PipelineFunction(Pipeline):
             # assert set(params) == set(bindings.keys()), f'params = {params}, binding keys = {bindings.keys()}'
             args = []
             for param in params:
-                args.append(bindings[param])
+                args.append(bindings.get(param))
             # Create the OpList
             op_list = self.function(*args)
             # Append customization ops
-- 
2.43.0


From 3e74e15a84b56731207f4369e69eeac5c23f0161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:10 +0000
Subject: [PATCH 59/91] fix: some malformed commands, and a comment following a
 word, ended the session

---
 marcel/core.py   | 2 +-
 marcel/parser.py | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/marcel/core.py b/marcel/core.py
index 7f16b0f..bbf9365 100644
--- a/marcel/core.py
+++ b/marcel/core.py
@@ -45,7 +45,7 @@ class Op(AbstractOp):
         self._count = -1
 
     def __repr__(self):
-        assert False, self.op_name()
+        return f'{self.op_name()}()'
 
     # AbstractOp
 
diff --git a/marcel/parser.py b/marcel/parser.py
index e21e880..394c523 100644
--- a/marcel/parser.py
+++ b/marcel/parser.py
@@ -682,7 +682,7 @@ class Lexer(Source):
 
     def next_token(self):
         def consolidatable(token):
-            return token.is_string() or token.is_expr()
+            return token is not None and (token.is_string() or token.is_expr())
 
         token = self.next_unconsolidated_token()
         if token is None:
@@ -1041,6 +1041,9 @@ class Parser(object):
             command = self.pipeline()
         if not self.at_end():
             raise ParseError(f'{command} followed by excess tokens')
+        if command.parameters():
+            # There is nothing that could supply arguments.
+            raise ParseError(f'Parameters are only permitted inside (| ... |): {", ".join(command.parameters())}')
         return command
 
     def assignment(self, var):
@@ -1220,7 +1223,7 @@ class Parser(object):
 
     def vars(self):
         vars = []
-        while self.token.is_string():
+        while self.token is not None and self.token.is_string():
             vars.append(self.token.value())
             if self.next_token(Comma):
                 if not self.next_token(String):
@@ -1230,6 +1233,8 @@ class Parser(object):
                 self.next_token()  # Should be string or colon
         # Shouldn't have called vars() unless the token (on entry) was a string.
         assert len(vars) > 0
+        if self.token is None:
+            raise PrematureEndError()
         if not self.token.is_colon():
             raise SyntaxError(self.token, f'Expected comma or colon, found {self.token}')
         return vars
-- 
2.43.0


From 299cb6f5cc395acbef0e3d3aebe428f483c985b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:40 +0000
Subject: [PATCH 60/91] fix: pushd of a file, or cd from an inaccessible
 directory, ended the session

---
 marcel/directorystate.py | 3 +++
 marcel/op/cd.py          | 3 ++-
 marcel/op/pushd.py       | 8 +++++++-
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/marcel/directorystate.py b/marcel/directorystate.py
index 2c319d9..c2ff5ce 100644
--- a/marcel/directorystate.py
+++ b/marcel/directorystate.py
@@ -64,6 +64,9 @@ class DirectoryState:
         if directory is None:
             if len(dir_stack) > 1:
                 dir_stack[-2:] = [dir_stack[-1], dir_stack[-2]]
+            elif len(dir_stack) == 0:
+                # All directories, including the current one, have become inaccessible.
+                return
         else:
             assert isinstance(directory, pathlib.Path)
             dir_stack.append(directory.resolve().as_posix())
diff --git a/marcel/op/cd.py b/marcel/op/cd.py
index 9e0f6ed..a1e6698 100644
--- a/marcel/op/cd.py
+++ b/marcel/op/cd.py
@@ -61,13 +61,14 @@ class Cd(marcel.core.Op):
                                                   str, pathlib.Path, pathlib.PosixPath, marcel.object.file.File))
         try:
             dirs = marcel.op.filenames.Filenames(env, [dir_arg]).normalize()
+            is_dir = len(dirs) == 1 and dirs[0].is_dir()
         except Exception as e:
             raise marcel.exception.KillCommandException(f'Invalid argument: {dir_arg}: {str(e)}')
         if len(dirs) == 0:
             raise marcel.exception.KillCommandException('No qualifying path')
         elif len(dirs) > 1:
             raise marcel.exception.KillCommandException('Too many paths')
-        elif not dirs[0].is_dir():
+        elif not is_dir:
             raise marcel.exception.KillCommandException(f'{dirs[0]} is not a directory')
         self.directory = dirs[0]
 
diff --git a/marcel/op/pushd.py b/marcel/op/pushd.py
index 8604d23..39660db 100644
--- a/marcel/op/pushd.py
+++ b/marcel/op/pushd.py
@@ -68,11 +68,17 @@ class Pushd(marcel.core.Op):
         if dir_arg is None:
             self.directory = None
         else:
-            dirs = marcel.op.filenames.Filenames(env, [pathlib.Path(dir_arg)]).normalize()
+            try:
+                dirs = marcel.op.filenames.Filenames(env, [pathlib.Path(dir_arg)]).normalize()
+                is_dir = len(dirs) == 1 and dirs[0].is_dir()
+            except Exception as e:
+                raise marcel.exception.KillCommandException(f'Invalid argument: {dir_arg}: {str(e)}')
             if len(dirs) == 0:
                 raise marcel.exception.KillCommandException('No qualifying path')
             elif len(dirs) > 1:
                 raise marcel.exception.KillCommandException('Too many paths')
+            elif not is_dir:
+                raise marcel.exception.KillCommandException(f'{dirs[0]} is not a directory')
             self.directory = dirs[0]
 
     def run(self, env):
-- 
2.43.0


From 9b119764c265ed9e817344b7ce2fab43add8d2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:45 +0000
Subject: [PATCH 61/91] fix: functions in operators' arguments were not
 compiled in jobs, forks and remote shells

---
 bin/farcel.py            |  1 +
 marcel/core.py           | 17 ++++++++++++++++-
 marcel/op/case.py        |  9 ---------
 marcel/op/filenamesop.py |  4 ----
 marcel/op/gen.py         |  6 +-----
 marcel/op/window.py      |  5 -----
 marcel/pipeline.py       |  4 ++++
 7 files changed, 22 insertions(+), 24 deletions(-)

diff --git a/bin/farcel.py b/bin/farcel.py
index b42437e..d1092e9 100755
--- a/bin/farcel.py
+++ b/bin/farcel.py
@@ -100,6 +100,7 @@ class PipelineRunner(threading.Thread):
     def run(self):
         try:
             # self.check_python_version()
+            self.pipeline.ensure_functions_compiled(self.env)
             TRACE.write(f'PipelineRunner: About to setup {self.pipeline}')
             self.pipeline.setup(self.env)
             TRACE.write(f'PipelineRunner: About to run {self.pipeline}')
diff --git a/marcel/core.py b/marcel/core.py
index bbf9365..364a3bf 100644
--- a/marcel/core.py
+++ b/marcel/core.py
@@ -75,8 +75,23 @@ class Op(AbstractOp):
     def customize_pipelines(self, env):
         pass
 
+    # A SourceFunction's function isn't transmitted to another process, so it has to be compiled there. Functions
+    # are args of ops, or in collections of args, or in pipelines.
     def ensure_functions_compiled(self, env):
-        pass
+        def ensure_compiled(x):
+            if isinstance(x, marcel.function.Function):
+                self.ensure_function_compiled(x, env)
+            elif isinstance(x, marcel.pipeline.Pipeline):
+                x.ensure_functions_compiled(env)
+            elif type(x) in (list, tuple):
+                for y in x:
+                    ensure_compiled(y)
+            elif type(x) is dict:
+                for y in x.values():
+                    ensure_compiled(y)
+
+        for arg in self.__dict__.values():
+            ensure_compiled(arg)
 
     # For use by subclasses
 
diff --git a/marcel/op/case.py b/marcel/op/case.py
index 872b7a7..d98971d 100644
--- a/marcel/op/case.py
+++ b/marcel/op/case.py
@@ -117,15 +117,6 @@ class Case(marcel.core.Op):
         if self.default_pipeline:
             self.default_pipeline.cleanup()
 
-    def ensure_functions_compiled(self, env):
-        self.ensure_args_processed(env)
-        for branch in self.branches:
-            self.ensure_function_compiled(branch.predicate, env)
-        for pipeline in self.pipelines:
-            pipeline.ensure_functions_compiled(env)
-        if self.default_pipeline:
-            self.default_pipeline.ensure_functions_compiled(env)
-
     # Internal
 
     def ensure_args_processed(self, env):
diff --git a/marcel/op/filenamesop.py b/marcel/op/filenamesop.py
index 263d83c..d817f56 100644
--- a/marcel/op/filenamesop.py
+++ b/marcel/op/filenamesop.py
@@ -108,10 +108,6 @@ class  FilenamesOp(marcel.core.Op):
             except marcel.exception.KillAndResumeException:
                 pass
 
-    def ensure_functions_compiled(self, env):
-        for f in self.filenames_arg:
-            self.ensure_function_compiled(f, env)
-
     # For use by this class
 
     def visit(self, env, root, level):
diff --git a/marcel/op/gen.py b/marcel/op/gen.py
index 82bcafc..caff74a 100644
--- a/marcel/op/gen.py
+++ b/marcel/op/gen.py
@@ -103,8 +103,4 @@ class Gen(marcel.core.Op):
     # Op
 
     def must_be_first_in_pipeline(self):
-        return True
-
-    def ensure_functions_compiled(self, env):
-        self.ensure_function_compiled(self.count_arg, env)
-        self.ensure_function_compiled(self.start_arg, env)
\ No newline at end of file
+        return True
\ No newline at end of file
diff --git a/marcel/op/window.py b/marcel/op/window.py
index 3519cc3..04956ba 100644
--- a/marcel/op/window.py
+++ b/marcel/op/window.py
@@ -172,10 +172,6 @@ class Window(marcel.core.Op):
     def must_not_be_first_in_pipeline(self):
         return True
 
-    def ensure_functions_compiled(self, env):
-        if self.predicate:
-            self.ensure_function_compiled(self.predicate, env)
-
 
 class WindowBase:
 
@@ -256,4 +252,3 @@ class DisjointWindow(WindowBase):
                 self.window.append(padding)
             self.flush_window(env)
         self.op.propagate_flush(env)
-
diff --git a/marcel/pipeline.py b/marcel/pipeline.py
index fbd3313..c1e2c94 100644
--- a/marcel/pipeline.py
+++ b/marcel/pipeline.py
@@ -503,6 +503,10 @@ class PipelineFunction(Pipeline):
     def route_output(self, receiver):
         self.customizations.receiver = receiver
 
+    def ensure_functions_compiled(self, env):
+        # The functions are native functions.
+        pass
+
     def ensure_executable(self, env, bindings):
         if self.executable is None:
             self.create_executable(env, bindings)
-- 
2.43.0


From 21bf5311fb028dd760ca2d9cdd1f52c6505b661b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:45 +0000
Subject: [PATCH 62/91] fix: a function that is the value of a variable, as an
 argument, ended the session

---
 marcel/argsparser.py |  2 +-
 marcel/core.py       |  2 +-
 marcel/function.py   | 34 ++++++++++++++++++++++++++++++++++
 3 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/marcel/argsparser.py b/marcel/argsparser.py
index a403ee2..358ac2b 100644
--- a/marcel/argsparser.py
+++ b/marcel/argsparser.py
@@ -272,7 +272,7 @@ class ArgsParser:
                 # Could be a function name, which should be in the environment
                 xval = self.env.getvar(x)
                 if callable(xval):
-                    f = marcel.function.NativeFunction(function=xval)
+                    f = marcel.function.VariableFunction(x, xval)
         if f is None:
             raise ArgsError(arg.op_name, f'{arg.name} argument must be a function.')
         return f
diff --git a/marcel/core.py b/marcel/core.py
index 364a3bf..0715659 100644
--- a/marcel/core.py
+++ b/marcel/core.py
@@ -228,7 +228,7 @@ class Op(AbstractOp):
 
     def ensure_function_compiled(self, arg, env):
         globals = env.workspace.namespace
-        if type(arg) is marcel.function.SourceFunction:
+        if isinstance(arg, (marcel.function.SourceFunction, marcel.function.VariableFunction)):
             arg.ensure_compiled(globals)
 
 
diff --git a/marcel/function.py b/marcel/function.py
index a6dc400..8feff76 100644
--- a/marcel/function.py
+++ b/marcel/function.py
@@ -80,6 +80,40 @@ class SourceFunction(Function):
             self.function = eval(self.source, globals)
 
 
+# A function that is the value of a variable.
+class VariableFunction(Function):
+
+    def __init__(self, var, function):
+        try:
+            display = dill.source.getsource(function)
+        except:
+            display = str(function)
+        super().__init__(function, var, display)
+        # The function, pickled, following transmission to another process.
+        self.pickled = None
+
+    # The function may not be picklable (it may be a lambda expression, or have been defined in startup.py). In another
+    # process, it is the value of the same variable. If there is no such variable there, then use a copy of the function.
+    def __getstate__(self):
+        map = self.__dict__.copy()
+        map['function'] = None
+        if self.function is not None:
+            try:
+                map['pickled'] = dill.dumps(self.function, recurse=True)
+            except Exception:
+                map['pickled'] = None
+        return map
+
+    def ensure_compiled(self, globals):
+        if self.function is None:
+            try:
+                self.function = eval(self.source, globals)
+            except NameError:
+                if self.pickled is None:
+                    raise
+                self.function = dill.loads(self.pickled)
+
+
 class SymbolFunction(Function):
 
     FUNCTIONS = {
-- 
2.43.0


From 4f5d3b24e13fd221a4c4162832d4f19eff74755b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:45 +0000
Subject: [PATCH 63/91] fix: errors in right-hand pipelines of difference,
 intersect, join, filter were lost

---
 marcel/op/difference.py |  4 ++--
 marcel/op/filter.py     |  4 ++--
 marcel/op/intersect.py  |  4 ++--
 marcel/op/join.py       |  4 ++--
 marcel/op/redirect.py   | 22 ++++++++++++++++++++++
 5 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/marcel/op/difference.py b/marcel/op/difference.py
index af966ee..0d6e210 100644
--- a/marcel/op/difference.py
+++ b/marcel/op/difference.py
@@ -16,7 +16,7 @@
 import marcel.argsparser
 import marcel.core
 import marcel.exception
-import marcel.opmodule
+import marcel.op.redirect
 import marcel.object.error
 import marcel.pipeline
 import marcel.util
@@ -103,7 +103,7 @@ class Difference(marcel.core.Op):
                 raise marcel.exception.KillCommandException(f'{x} is not hashable')
 
         self.right = {}
-        self.pipeline = self.pipeline.append_immutable(marcel.opmodule.create_op(env, 'map', load_right))
+        self.pipeline = self.pipeline.append_immutable(marcel.op.redirect.Consume(self, load_right))
 
     def ensure_functions_compiled(self, env):
         self.pipeline.ensure_functions_compiled(env)
\ No newline at end of file
diff --git a/marcel/op/filter.py b/marcel/op/filter.py
index e13d1d5..1b146db 100644
--- a/marcel/op/filter.py
+++ b/marcel/op/filter.py
@@ -16,7 +16,7 @@
 import marcel.argsparser
 import marcel.core
 import marcel.exception
-import marcel.opmodule
+import marcel.op.redirect
 import marcel.object.error
 import marcel.pipeline
 import marcel.util
@@ -136,5 +136,5 @@ class Filter(marcel.core.Op):
             except TypeError:
                 raise marcel.exception.KillCommandException(f'{x} is not hashable')
         self.right = set()
-        self.pipeline = self.pipeline.append_immutable(marcel.opmodule.create_op(env, 'map', add_to_right))
+        self.pipeline = self.pipeline.append_immutable(marcel.op.redirect.Consume(self, add_to_right))
         self.pipeline.run_pipeline(env, {})
diff --git a/marcel/op/intersect.py b/marcel/op/intersect.py
index 24b529e..d52bceb 100644
--- a/marcel/op/intersect.py
+++ b/marcel/op/intersect.py
@@ -16,7 +16,7 @@
 import marcel.argsparser
 import marcel.core
 import marcel.exception
-import marcel.opmodule
+import marcel.op.redirect
 import marcel.object.error
 import marcel.pipeline
 
@@ -95,7 +95,7 @@ class Intersect(marcel.core.Op):
 
         customized = []
         for pipeline in self.pipelines:
-            pipeline = pipeline.append_immutable(marcel.opmodule.create_op(env, 'map', count_inputs))
+            pipeline = pipeline.append_immutable(marcel.op.redirect.Consume(self, count_inputs))
             customized.append(pipeline)
         self.pipelines = customized
 
diff --git a/marcel/op/join.py b/marcel/op/join.py
index 05e6bd6..bd7a770 100644
--- a/marcel/op/join.py
+++ b/marcel/op/join.py
@@ -16,7 +16,7 @@
 import marcel.argsparser
 import marcel.core
 import marcel.exception
-import marcel.opmodule
+import marcel.op.redirect
 import marcel.object.error
 import marcel.pipeline
 import marcel.util
@@ -149,4 +149,4 @@ class Join(marcel.core.Op):
                 raise marcel.exception.KillCommandException(f'{x} is not hashable')
 
         self.inner = {}
-        self.pipeline = self.pipeline.append_immutable(marcel.opmodule.create_op(env, 'map', load_inner))
+        self.pipeline = self.pipeline.append_immutable(marcel.op.redirect.Consume(self, load_inner))
diff --git a/marcel/op/redirect.py b/marcel/op/redirect.py
index 45659b5..4c89f7a 100644
--- a/marcel/op/redirect.py
+++ b/marcel/op/redirect.py
@@ -42,3 +42,25 @@ class Redirect(marcel.core.Op):
 
     def receive_error(self, env, error):
         self.parent.send_error(env, error)
+
+
+# Op for consuming the output from an op's pipeline arg. The output is passed to the function. Errors belong to the
+# parent pipeline's output.
+class Consume(marcel.core.Op):
+
+    def __init__(self, parent, function):
+        super().__init__()
+        self.parent = parent
+        self.function = function
+
+    def __repr__(self):
+        return 'consume()'
+
+    def receive(self, env, x):
+        self.call(env, self.function, *x)
+
+    def receive_error(self, env, error):
+        self.parent.send_error(env, error)
+
+    def send_error(self, env, error):
+        self.parent.send_error(env, error)
-- 
2.43.0


From 99c19cb091dc2772b371324e62a050040b7145f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:45 +0000
Subject: [PATCH 64/91] fix: fork of a pipeline containing filter failed

---
 marcel/op/filter.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/marcel/op/filter.py b/marcel/op/filter.py
index 1b146db..226b134 100644
--- a/marcel/op/filter.py
+++ b/marcel/op/filter.py
@@ -97,8 +97,7 @@ class Filter(marcel.core.Op):
         self.right = None
 
     def __repr__(self):
-        assert self.keep != self.discard
-        behavior = 'keep' if self.keep else 'discard'
+        behavior = 'discard' if self.discard else 'keep'
         return f'filter({behavior}, {self.pipeline})'
 
     # AbstractOp
-- 
2.43.0


From b34d92807b8b9c0c9ede3c6432ff6f28fda650f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:45 +0000
Subject: [PATCH 65/91] fix: ls as the first operator of a pipeline run by case
 failed

---
 marcel/op/filenamesop.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marcel/op/filenamesop.py b/marcel/op/filenamesop.py
index d817f56..26ee19e 100644
--- a/marcel/op/filenamesop.py
+++ b/marcel/op/filenamesop.py
@@ -78,8 +78,6 @@ class  FilenamesOp(marcel.core.Op):
         if len(self.filenames) > 0 and len(self.roots) == 0:
             raise marcel.exception.KillCommandException(f'No qualifying paths, (possibly due to permission errors):'
                                                         f' {self.filenames}')
-        self.emitted_paths = set()
-        self.visited_dirs = set()
         if len(self.roots) == 0:
             self.roots = [self.current_dir]
         if not (self.d0 or self.d1 or self.dr):
@@ -98,10 +96,12 @@ class  FilenamesOp(marcel.core.Op):
     # receive could get called, e.g. if ls is first in a pipeline, as in
     # case (...) ... (| ls ... |)
     def receive(self, env, x):
-        assert type(x) in (tuple, list) and len(x) == 0
         self.run(env)
 
     def run(self, env):
+        # run could be called more than once, see receive.
+        self.emitted_paths = set()
+        self.visited_dirs = set()
         for root in self.roots:
             try:
                 self.visit(env, root, 0)
-- 
2.43.0


From ab94b26e571506bd0df6fa3c9e34615656a139ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:45 +0000
Subject: [PATCH 66/91] fix: a pipeline variable referring to a later variable
 made jobs fail and the workspace unopenable

---
 marcel/nestednamespace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marcel/nestednamespace.py b/marcel/nestednamespace.py
index ebd4d16..8b47352 100644
--- a/marcel/nestednamespace.py
+++ b/marcel/nestednamespace.py
@@ -21,6 +21,7 @@ import dill
 
 import marcel.core
 import marcel.env
+import marcel.exception
 import marcel.parser
 import marcel.pipeline
 import marcel.util
@@ -520,7 +521,7 @@ class NestedNamespace(dict):
             for var, value in pending.items():
                 try:
                     super().__setitem__(var, value.unwrap())
-                except Exception as e:
+                except (Exception, marcel.exception.KillCommandException) as e:
                     failed[var] = e
             if len(failed) == len(pending):
                 for var, e in failed.items():
-- 
2.43.0


From 37faf6c71459b29dde2d1bf4d137a80ca44df2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:45 +0000
Subject: [PATCH 67/91] fix: a pipeline variable passed as an argument was
 unusable in jobs and reopened workspaces

---
 marcel/nestednamespace.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/marcel/nestednamespace.py b/marcel/nestednamespace.py
index 8b47352..eb6d0eb 100644
--- a/marcel/nestednamespace.py
+++ b/marcel/nestednamespace.py
@@ -229,7 +229,10 @@ class CompilablePipeline(Compilable):
 
     def reconstitute(self):
         assert self.env is not None
-        return marcel.parser.Parser(self.source, self.env).parse_pipeline()
+        pipeline = marcel.parser.Parser(self.source, self.env).parse_pipeline()
+        # As for a pipeline that has just been assigned. The source is needed if the pipeline is bound to a parameter.
+        pipeline.source = self.source
+        return pipeline
 
 
 class Module(EnvValue):
-- 
2.43.0


From 0cc791be0b67a984f6a980cd7e5041f5ba086ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:45 +0000
Subject: [PATCH 68/91] fix: an error in the first operator of a pipeline
 stopped the pipeline containing it

---
 marcel/pipeline.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/marcel/pipeline.py b/marcel/pipeline.py
index c1e2c94..cfd6677 100644
--- a/marcel/pipeline.py
+++ b/marcel/pipeline.py
@@ -74,7 +74,12 @@ class PipelineExecutable(object):
     def run(self, env):
         if env.trace.is_enabled():
             env.trace.write(self.ops[0], 'RUN')
-        self.ops[0].run(env)
+        try:
+            self.ops[0].run(env)
+        except marcel.exception.KillAndResumeException:
+            # The error has been reported. As for an error due to an input to the op (see Op.receive_input), whatever
+            # comes next has to be done, e.g. flush.
+            pass
 
     def receive(self, env, x):
         op = self.ops[0]
-- 
2.43.0


From edbfc7cd78998af3f8893755749f8537daaf7270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:46 +0000
Subject: [PATCH 69/91] fix: an item was dropped silently when a function
 applied to it failed with KillAndResumeException

---
 marcel/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/marcel/core.py b/marcel/core.py
index 0715659..3cbb1bb 100644
--- a/marcel/core.py
+++ b/marcel/core.py
@@ -98,14 +98,15 @@ class Op(AbstractOp):
     def call(self, env, function, *args, **kwargs):
         try:
             return function(*args, **kwargs)
-        except Exception as e:
+        except (Exception, marcel.exception.KillAndResumeException) as e:
             function_input = []
             if args and len(args) > 0:
                 function_input.append(str(args))
             if kwargs and len(kwargs) > 0:
                 function_input.append(str(kwargs))
             args_description = None if len(function_input) == 0 else ', '.join(function_input)
-            self.fatal_error(env, args_description, f'{type(e)}: {e}')
+            self.fatal_error(env, args_description,
+                             str(e) if isinstance(e, marcel.exception.KillAndResumeException) else f'{type(e)}: {e}')
 
     # This function is performance-critical, so assertions are commented out,
     # and util.wrap_op_input is inlined.
-- 
2.43.0


From 1c276896a080bd261f79d02c25e2ecab2f27ff02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:46 +0000
Subject: [PATCH 70/91] fix: history and run ended scripts

---
 marcel/op/history.py | 2 ++
 marcel/op/run.py     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/marcel/op/history.py b/marcel/op/history.py
index fba7f4b..ac8c35a 100644
--- a/marcel/op/history.py
+++ b/marcel/op/history.py
@@ -85,6 +85,8 @@ class History(marcel.core.Op):
     # AbstractOp
 
     def setup(self, env):
+        if getattr(env, 'reader', None) is None:
+            raise marcel.exception.KillCommandException('History is only available interactively')
         self.n = self.eval_function(env, 'n', int)
         if not self.all and self.n is None:
             self.n = History.N_DEFAULT
diff --git a/marcel/op/run.py b/marcel/op/run.py
index 9dafaa3..2e4a21f 100644
--- a/marcel/op/run.py
+++ b/marcel/op/run.py
@@ -65,6 +65,8 @@ class Run(marcel.core.Op):
     # AbstractOp
 
     def setup(self, env):
+        if getattr(env, 'reader', None) is None:
+            raise marcel.exception.KillCommandException('History is only available interactively')
         if self.expected_args == 1 and self.id is None:
             raise marcel.exception.KillCommandException('History command number required following !')
         elif self.expected_args == 0 and self.id is not None:
-- 
2.43.0


From 1e130e4a48032a0ca204a9e7e7b002c3b8710eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:46 +0000
Subject: [PATCH 71/91] fix: fork lost output of some workers, and failed given
 functions, parameters, errors or nested forks

---
 marcel/nestednamespace.py |  4 ++
 marcel/op/forkmanager.py  | 89 ++++++++++++++++++++++++++-------------
 2 files changed, 63 insertions(+), 30 deletions(-)

diff --git a/marcel/nestednamespace.py b/marcel/nestednamespace.py
index eb6d0eb..17af7c5 100644
--- a/marcel/nestednamespace.py
+++ b/marcel/nestednamespace.py
@@ -499,6 +499,10 @@ class NestedNamespace(dict):
     def current_scope(self):
         return self.scopes[-1]
 
+    # The params of pipelines being executed, and their values.
+    def params(self):
+        return {param: self[param] for scope in self.scopes for param in scope.params}
+
     # Variables whose values cannot be pickled are omitted.
     def to_persistent_state(self):
         persistent = {}
diff --git a/marcel/op/forkmanager.py b/marcel/op/forkmanager.py
index 1ba4e30..f548204 100644
--- a/marcel/op/forkmanager.py
+++ b/marcel/op/forkmanager.py
@@ -21,6 +21,7 @@ import dill
 import marcel.argsparser
 import marcel.core
 import marcel.exception
+import marcel.nestednamespace
 import marcel.object.cluster
 import marcel.object.error
 import marcel.util
@@ -46,32 +47,39 @@ class SendToParent(marcel.core.Op):
 
     def receive(self, env, x):
         dump(f'{self} receive {x}')
-        self.writer.send(dill.dumps(x))
+        self.writer.send(dill.dumps(x, recurse=True))
         dump(f'{self} receive sent {x}')
 
     def receive_error(self, env, error):
         dump(f'{self} receive_error {error}')
         self.writer.send(dill.dumps(error))
 
-    def cleanup(self):
-        dump(f'{self} cleanup, close writer {id(self.writer)}')
-        self.writer.close()
-
 
-def run_pipeline_in_child(env, pipeline, thread_id, writer):
+def run_pipeline_in_child(env, transmitted, writer):
     try:
-        pipeline = dill.loads(pipeline)
+        pipeline, thread_id, enclosing_params = dill.loads(transmitted)
+        for value in (thread_id, *enclosing_params.values()):
+            if isinstance(value, marcel.pipeline.Pipeline):
+                value.ensure_functions_compiled(env)
+        env.vars().push_scope(enclosing_params)
+        pipeline.ensure_functions_compiled(env)
         pipeline.append(SendToParent(writer, thread_id))
         params = pipeline.parameters()
         bindings = {} if len(params) == 0 else {params[0]: thread_id}
         dump(f'child running pipeline {pipeline}, writer {id(writer)}')
-        pipeline.run_pipeline(env, bindings)  # Closes writer
+        pipeline.run_pipeline(env, bindings)
+    except marcel.exception.KillAndResumeException as e:
+        # The error has already been sent.
+        pass
+    except marcel.exception.KillCommandException as e:
+        # Not a bug, so no need for a stack trace
+        writer.send(dill.dumps(marcel.object.error.Error(e)))
     except BaseException as e:
         dump(f'caught {type(e)}: {e}')
         marcel.util.print_stack_of_current_exception()
-        writer.send(dill.dumps(e))
-        writer.close()
+        writer.send(dill.dumps(marcel.object.error.Error(e)))
     finally:
+        writer.close()
         dump(f'closed writer {id(writer)}')
 
 
@@ -97,19 +105,20 @@ class ForkManager(object):
         self.workers = [ForkWorker(env, self, thread_id, fork_customizer) for thread_id in self.thread_ids]
 
     def run(self, env):
-        for worker in self.workers:
-            worker.start()
-            dump(f'{self} started {worker}')
-        completed = 0
-        w = 0
-        while completed < len(self.workers):
-            more = self.workers[w].consume_input()
-            if not more:
-                completed += 1
-            w = (w + 1) % len(self.workers)
-            dump(f'completed: {completed}')
-        for worker in self.workers:
-            worker.close()
+        try:
+            for worker in self.workers:
+                worker.start()
+                dump(f'{self} started {worker}')
+            # A worker that has completed must not be polled again. (It would appear to complete again, in place of
+            # another worker.)
+            active = list(self.workers)
+            while len(active) > 0:
+                active = [worker for worker in active if worker.consume_input()]
+                dump(f'active: {active}')
+        finally:
+            for worker in self.workers:
+                worker.close()
+
 
 class ForkWorker(object):
 
@@ -142,6 +151,7 @@ class ForkWorker(object):
             assert False, f'fork pipeline cannot have more than one parameter: {pipeline}'
         self.pipeline.ensure_executable(env, bindings)
         self.process = None
+        self.completed = False
         dump(f'{self} init {self.pipeline}')
 
     def __repr__(self):
@@ -149,10 +159,11 @@ class ForkWorker(object):
 
     def start(self):
         dump(f'{self} start_process {self.pipeline}')
-        self.process = mp.Process(target=run_pipeline_in_child,
-                                  args=(self.env, dill.dumps(self.pipeline), self.thread_id, self.writer))
-        dump(f'{self} created {self.process}')
-        self.process.daemon = True
+        process = mp.Process(target=run_pipeline_in_child,
+                             args=(self.env, self.transmitted(), self.writer))
+        dump(f'{self} created {process}')
+        # Not a daemon: The pipeline may contain fork, and a daemon can't have children.
+        process.daemon = False
         #
         # from marcel.util import PickleDebugger
         # import sys
@@ -160,12 +171,21 @@ class ForkWorker(object):
         # PickleDebugger().check(dill.dumps(self.pipeline))
         # sys.exit(123)
         #
-        self.process.start()
+        process.start()
+        self.process = process
         # If multiprocessing operates using the fork model, then a file descriptor isn't closed
         # until both ends are closed.
         # https://stackoverflow.com/questions/6564395/why-doesnt-pipe-close-cause-eoferror-during-pipe-recv-in-python-multiproces
         self.writer.close()
 
+    # What the child needs, in addition to the environment. The child's environment has the workspace's variables, but not
+    # the params of the pipelines containing fork (unless they cannot be pickled).
+    def transmitted(self):
+        enclosing_params = {param: value
+                            for param, value in self.env.vars().params().items()
+                            if marcel.nestednamespace.is_picklable(value)}
+        return dill.dumps((self.pipeline, self.thread_id, enclosing_params), recurse=True)
+
     def consume_input(self):
         more = True
         try:
@@ -173,14 +193,23 @@ class ForkWorker(object):
                 input = self.reader.recv()
                 x = dill.loads(input)
                 dump(f'{self} consume_input receive {x}')
-                self.op.send(self.env, x)
+                if isinstance(x, marcel.object.error.Error):
+                    self.op.send_error(self.env, x)
+                else:
+                    self.op.send(self.env, x)
         except EOFError:
             dump(f'{self} consume_input EOF')
-            self.writer.close()
+            self.completed = True
             more = False
         return more
 
     def close(self):
+        if self.process is None:
+            # Not started
+            return
+        if not self.completed:
+            # The fork is being abandoned.
+            self.process.terminate()
         dump(f'{self} joining ...')
         first = True
         while first or self.process.is_alive():
-- 
2.43.0


From 6a0d4d98f81aad4ccd6e1b2c043178f09dd9d230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:32 +0000
Subject: [PATCH 72/91] fix: a File as the argument of ls, cd, pushd etc. was
 taken to be a pattern, or ended the session

---
 marcel/op/cd.py        |  6 +++---
 marcel/op/filenames.py | 40 +++++++++++++++++++++-------------------
 marcel/op/pushd.py     |  2 +-
 3 files changed, 25 insertions(+), 23 deletions(-)

diff --git a/marcel/op/cd.py b/marcel/op/cd.py
index a1e6698..ee32f3c 100644
--- a/marcel/op/cd.py
+++ b/marcel/op/cd.py
@@ -56,9 +56,9 @@ class Cd(marcel.core.Op):
     # AbstractOp
 
     def setup(self, env):
-        dir_arg = pathlib.Path(self.eval_function(env,
-                                                  'directory_arg',
-                                                  str, pathlib.Path, pathlib.PosixPath, marcel.object.file.File))
+        dir_arg = self.eval_function(env,
+                                     'directory_arg',
+                                     str, pathlib.Path, pathlib.PosixPath, marcel.object.file.File)
         try:
             dirs = marcel.op.filenames.Filenames(env, [dir_arg]).normalize()
             is_dir = len(dirs) == 1 and dirs[0].is_dir()
diff --git a/marcel/op/filenames.py b/marcel/op/filenames.py
index 7fb2988..db40b85 100644
--- a/marcel/op/filenames.py
+++ b/marcel/op/filenames.py
@@ -43,10 +43,17 @@ class Filenames(object):
 
     def normalize(self):
         # Expand globs and eliminate duplicates
-        paths = self._normalize_paths()
         roots = []
         roots_set = set()
-        for path in paths:
+        for filename in self.filenames:
+            if type(filename) is File:
+                # Identifies one file. Its name is not a pattern, and has nothing to be unescaped or expanded.
+                path = self.current_dir / filename.path
+                if os.path.lexists(path) and path not in roots_set:
+                    roots_set.add(path)
+                    roots.append(path)
+                continue
+            path = self._normalize_path(filename)
             # Proceed as if path is a glob pattern, but this works for non-globs too.
             path_str = path.as_posix()
             if path_str == '/':
@@ -63,24 +70,19 @@ class Filenames(object):
                         roots.append(root)
         return roots
 
-    def _normalize_paths(self):
+    def _normalize_path(self, filename):
         # Unescape escaped chars
         # Resolve ~
         # Resolve . and ..
         # Convert to Path
-        paths = []
-        for filename in self.filenames:
-            if type(filename) is File:
-                filename = filename.path
-            filename = str(filename)
-            # Unescape escaped chars
-            filename = marcel.util.unescape(filename)
-            # Resolve . and ..
-            filename = os.path.normpath(filename)
-            # Convert to Path and resolve ~
-            path = pathlib.Path(filename).expanduser()
-            # If path is relative, specify what it is relative to.
-            if not path.is_absolute():
-                path = self.current_dir / path
-            paths.append(path)
-        return paths
+        filename = str(filename)
+        # Unescape escaped chars
+        filename = marcel.util.unescape(filename)
+        # Resolve . and ..
+        filename = os.path.normpath(filename)
+        # Convert to Path and resolve ~
+        path = pathlib.Path(filename).expanduser()
+        # If path is relative, specify what it is relative to.
+        if not path.is_absolute():
+            path = self.current_dir / path
+        return path
diff --git a/marcel/op/pushd.py b/marcel/op/pushd.py
index 39660db..709269b 100644
--- a/marcel/op/pushd.py
+++ b/marcel/op/pushd.py
@@ -69,7 +69,7 @@ class Pushd(marcel.core.Op):
             self.directory = None
         else:
             try:
-                dirs = marcel.op.filenames.Filenames(env, [pathlib.Path(dir_arg)]).normalize()
+                dirs = marcel.op.filenames.Filenames(env, [dir_arg]).normalize()
                 is_dir = len(dirs) == 1 and dirs[0].is_dir()
             except Exception as e:
                 raise marcel.exception.KillCommandException(f'Invalid argument: {dir_arg}: {str(e)}')
-- 
2.43.0


From 16e7b3e585f378de2ccfe88bdd5ab2f183a07b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:18 +0000
Subject: [PATCH 73/91] fix: .. following ~, or at the beginning of a file
 name, was resolved incorrectly

---
 marcel/op/filenames.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/marcel/op/filenames.py b/marcel/op/filenames.py
index db40b85..f5957bc 100644
--- a/marcel/op/filenames.py
+++ b/marcel/op/filenames.py
@@ -72,17 +72,15 @@ class Filenames(object):
 
     def _normalize_path(self, filename):
         # Unescape escaped chars
-        # Resolve ~
+        # Convert to Path and resolve ~
         # Resolve . and ..
-        # Convert to Path
         filename = str(filename)
         # Unescape escaped chars
         filename = marcel.util.unescape(filename)
-        # Resolve . and ..
-        filename = os.path.normpath(filename)
         # Convert to Path and resolve ~
         path = pathlib.Path(filename).expanduser()
         # If path is relative, specify what it is relative to.
         if not path.is_absolute():
             path = self.current_dir / path
-        return path
+        # Resolve . and .. (These may refer to a parent of the current directory, or of the home directory.)
+        return pathlib.Path(os.path.normpath(path))
-- 
2.43.0


From b58d8b0a598f7d410d226115fd79255a76fec891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:18 +0000
Subject: [PATCH 74/91] fix: ls ended the session if a specified file
 disappeared, or was unreadable

---
 marcel/op/filenamesop.py | 12 ++++++++++--
 marcel/op/ls.py          |  2 +-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/marcel/op/filenamesop.py b/marcel/op/filenamesop.py
index 26ee19e..d40c67c 100644
--- a/marcel/op/filenamesop.py
+++ b/marcel/op/filenamesop.py
@@ -105,6 +105,10 @@ class  FilenamesOp(marcel.core.Op):
         for root in self.roots:
             try:
                 self.visit(env, root, 0)
+            except PermissionError:
+                self.non_fatal_error(env, input=root, message='Permission denied')
+            except FileNotFoundError:
+                self.non_fatal_error(env, input=root, message='No such file or directory')
             except marcel.exception.KillAndResumeException:
                 pass
 
@@ -151,13 +155,17 @@ class  FilenamesOp(marcel.core.Op):
                     i += 1
                 nca = i
         self.base = pathlib.Path('/' + '/'.join(nca_parts[1:nca]))
-        if self.base.is_file():
+        try:
+            base_is_file = self.base.is_file()
+        except PermissionError:
+            # A link to something inaccessible
+            base_is_file = True
+        if base_is_file:
             self.base = self.base.parent
 
     def dir_already_visited(self, path):
         # There could be multiple paths to a directory due to symlinks. Check if path is a symlink to a directory
         # that has already been visited.
-        assert path.is_dir(), path
         if path.is_symlink():
             target = path.resolve()
             target_stat = target.stat()
diff --git a/marcel/op/ls.py b/marcel/op/ls.py
index f0cf6da..0988f32 100644
--- a/marcel/op/ls.py
+++ b/marcel/op/ls.py
@@ -100,7 +100,7 @@ class Ls(marcel.op.filenamesop.FilenamesOp):
         if len(include) > 0:
             buffer.append(f'include={include}')
         if self.filenames:
-            buffer.extend(self.filenames)
+            buffer.extend(str(filename) for filename in self.filenames)
         args = ','.join(buffer)
         return f'ls({args})'
 
-- 
2.43.0


From b0d10699ce0d3b535d061081f527284ecd76863a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:53 +0000
Subject: [PATCH 75/91] fix: filter: a comparison value of None did not match a
 right input of None

---
 marcel/op/filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marcel/op/filter.py b/marcel/op/filter.py
index 226b134..ff62f85 100644
--- a/marcel/op/filter.py
+++ b/marcel/op/filter.py
@@ -115,7 +115,8 @@ class Filter(marcel.core.Op):
     def receive(self, env, x):
         if self.right is None:
             self.load_right(env)
-        c = marcel.util.wrap_op_input(self.call(env, self.compare, *x))
+        c = self.call(env, self.compare, *x)
+        c = (None,) if c is None else marcel.util.wrap_op_input(c)
         try:
             if (c in self.right) == self.keep:
                 self.send(env, x)
-- 
2.43.0


From 82fb1659509957568cf6964aea8cb6b7a96ad6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:08 +0000
Subject: [PATCH 76/91] fix: quotes and escapes were included in the arguments
 of a pipeline bound to a variable

---
 marcel/argsparser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marcel/argsparser.py b/marcel/argsparser.py
index 358ac2b..f45bd60 100644
--- a/marcel/argsparser.py
+++ b/marcel/argsparser.py
@@ -517,6 +517,9 @@ class PipelineArgsParser:
                     raise ArgsError(self.var, f'Flag {flag_name} appears after anonymous arguments.')
                 param_name = flag_name
             else:
+                if type(arg) is marcel.stringliteral.StringLiteral:
+                    # Without quotes and escapes
+                    arg = marcel.util.string_value(arg)
                 if param_name is None:
                     flags_done = True
                     args.append(arg)
-- 
2.43.0


From 84ed1ec4acd8076b7a6e9efdb6aa48afc1cb8b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:03 +0000
Subject: [PATCH 77/91] fix: a workspace's name must be usable as a filename,
 and can be given by an expression

---
 marcel/object/workspace.py | 18 ++++++++++++++++--
 marcel/op/ws.py            |  7 ++++++-
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index b733457..17da8f7 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -13,6 +13,7 @@
 # You should have received a copy of the GNU General Public License
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 
+import os
 import pickle
 import shutil
 import pathlib
@@ -219,6 +220,7 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
     DEFAULT = None
     # Suffix of a file being written, which will replace the file without the suffix.
     NEW_SUFFIX = '.new'
+    MAX_NAME_SIZE = 255
 
     def __init__(self, name):
         VarHandler.__init__(self)
@@ -245,9 +247,12 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
         return False
 
     def exists(self):
-        return self.marker.exists()
+        return Workspace.is_legal_name(self.name) and self.marker.exists()
 
     def create(self):
+        if not Workspace.is_legal_name(self.name):
+            raise marcel.exception.KillCommandException(
+                f'Workspace name must be usable as a legal filename: {self.name}')
         assert not self.exists()
         initial_config_contents = self.locations.config_ws_startup(Workspace.default()).read_text()
         self.create_on_disk(initial_config_contents)
@@ -295,7 +300,7 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
             assert False, self
 
     def set_home(self, home):
-        home = pathlib.Path(home).absolute()
+        home = pathlib.Path(os.path.expanduser(home)).absolute()
         self.properties.set_home(home)
         self.write_properties()
 
@@ -335,6 +340,15 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
         assert len(self.namespace.scopes) == 1, len(self.namespace.scopes)
         return self.namespace.to_persistent_state()
 
+    # The name is the name of the workspace's config and data directories. __DEFAULT__ is used by the default workspace.
+    @staticmethod
+    def is_legal_name(name):
+        return (type(name) is str and
+                name not in ('', '.', '..', marcel.locations.Locations.DEFAULT_WORKSPACE_DIR_NAME) and
+                '/' not in name and
+                '\0' not in name and
+                len(os.fsencode(name)) <= Workspace.MAX_NAME_SIZE)
+
     @staticmethod
     def named(name=None):
         return Workspace.default() if name is None else Workspace(name)
diff --git a/marcel/op/ws.py b/marcel/op/ws.py
index e87a782..6beb28c 100644
--- a/marcel/op/ws.py
+++ b/marcel/op/ws.py
@@ -13,6 +13,8 @@
 # You should have received a copy of the GNU General Public License
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 
+import pathlib
+
 import marcel.argsparser
 import marcel.core
 import marcel.exception
@@ -168,6 +170,9 @@ class Ws(marcel.core.Op):
     # AbstractOp
 
     def setup(self, env):
+        for arg in ('new', 'open', 'delete', 'name'):
+            setattr(self, arg, self.eval_function(env, arg, str))
+        self.home = self.eval_function(env, 'home', str, pathlib.Path, pathlib.PosixPath)
         if self.list:
             self.impl = WsList(self)
         elif self.new is not None:
@@ -349,7 +354,7 @@ class WsDeleteBroken(WsImpl):
         super().__init__(op)
 
     def __repr__(self):
-        return f'ws(delete-broken {self.op.delete})'
+        return f'ws(delete-broken)'
 
     def setup(self, env):
         self.check_anon_arg_absent()
-- 
2.43.0


From 565d5c6f15c0512218916eb536ff421faf2ced6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:40 +0000
Subject: [PATCH 78/91] fix: variables that marcel or a startup script defines
 can't be modified, in scripts and interactively

---
 marcel/env.py  | 4 +++-
 marcel/main.py | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/marcel/env.py b/marcel/env.py
index 4eb4c30..8fcd6d7 100644
--- a/marcel/env.py
+++ b/marcel/env.py
@@ -96,7 +96,8 @@ class Environment(object):
                                            'pos',
                                            'PROMPT',
                                            'PWD',
-                                           'USER'))
+                                           'USER',
+                                           'WORKSPACE'))
         self.platform = marcel.plat.Platform.create()
 
     def __getstate__(self):
@@ -120,6 +121,7 @@ class Environment(object):
             env = Environment.create(workspace=workspace, usage=usage)
         env.workspace.namespace.from_persistent_state(env, namespace)
         env.trace = trace
+        env.enforce_var_immutability()
         self.__dict__ = env.__dict__
 
     def initial_namespace(self):
diff --git a/marcel/main.py b/marcel/main.py
index 32c098b..c65f849 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -307,6 +307,7 @@ def main_interactive_run():
         try:
             main = MainInteractive(old_main, env)
             main.run_startup_scripts()
+            env.enforce_var_immutability()
             return env, main
         except marcel.exception.StartupScriptException as e:
             if workspace.is_default():
@@ -351,6 +352,7 @@ def main_script_run(script):
         env = marcel.env.Environment.create(workspace=workspace)
         main = MainScript(env)
     main.run_startup_scripts()
+    env.enforce_var_immutability()
     for command in commands:
         try:
             main.parse_and_run_command(command)
@@ -363,6 +365,7 @@ def main_script_run(script):
             env = marcel.env.Environment.create(workspace=workspace, trace=main.env.trace)
             main = MainScript(env)
             main.run_startup_scripts()
+            env.enforce_var_immutability()
 
 
 def read_heredoc():
-- 
2.43.0


From 6e254145c902a05c84437a495a4aa5276ad30cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:02 +0000
Subject: [PATCH 79/91] fix: expressions and redirection work even if variables
 are named map, read, write, load or store

---
 marcel/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marcel/parser.py b/marcel/parser.py
index 394c523..505cc7e 100644
--- a/marcel/parser.py
+++ b/marcel/parser.py
@@ -502,6 +502,10 @@ class ConstructedString(String):
     def scan(self, scan_termination):
         self.string = self.text
 
+    # Syntax, e.g. >, stands for an op, even if there is a variable with the same name as the op.
+    def is_var(self):
+        return False
+
 
 class Run(Token):
 
-- 
2.43.0


From fb2b268e40110dc6bc4285a56850f8d8ca99f711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:19 +0000
Subject: [PATCH 80/91] fix: a script given on the command line is run even if
 stdin is a pipe

---
 marcel/util.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/marcel/util.py b/marcel/util.py
index ae8e884..78a0c4a 100644
--- a/marcel/util.py
+++ b/marcel/util.py
@@ -292,12 +292,12 @@ class InputSource(object):
         self._heredoc = False
         self._interactive = False
         self._script = False
-        if stat.S_ISFIFO(mode):
+        if len(sys.argv) > 1:
+            self._script = True
+        elif stat.S_ISFIFO(mode):
             self._heredoc = True
-        elif len(sys.argv) == 1:
-            self._interactive = True
         else:
-            self._script = True
+            self._interactive = True
 
     def __repr__(self):
         source = ('interactive' if self._interactive else
-- 
2.43.0


From 9736a17872c5a70511bd95a20708d4d7c54ae006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:19 +0000
Subject: [PATCH 81/91] fix: the prompt abbreviates only the home directory and
 the directories under it

---
 marcel/env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/env.py b/marcel/env.py
index 8fcd6d7..c5ea17f 100644
--- a/marcel/env.py
+++ b/marcel/env.py
@@ -288,7 +288,7 @@ class EnvironmentInteractive(Environment):
             dir = self.getvar('PWD')
             home = self.getvar('HOME')
             if self.workspace.is_default():
-                return '~' + dir[len(home):] if dir.startswith(home) else dir
+                return '~' + dir[len(home):] if dir == home or dir.startswith(home + '/') else dir
             else:
                 try:
                     workspace_home = self.workspace.home()
-- 
2.43.0


From a80e0ef9dd7ac0dcc1bb7cad00926211a4c324ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:10 +0000
Subject: [PATCH 82/91] fix: a copy of a pipeline keeps its parameters when its
 workspace is reopened

---
 marcel/nestednamespace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marcel/nestednamespace.py b/marcel/nestednamespace.py
index 17af7c5..10d79da 100644
--- a/marcel/nestednamespace.py
+++ b/marcel/nestednamespace.py
@@ -147,8 +147,8 @@ class EnvValue(object):
             ev.assign(value, f'({source})')
         elif is_pipeline(value):
             ev = CompilablePipeline(env)
-            # No source if the pipeline is being bound to a parameter.
-            ev.assign(value, value.source if source is None else source)
+            # source is that of the expression being assigned. There is none if the pipeline is being bound to a parameter.
+            ev.assign(value, source if value.source is None else value.source)
         else:
             ev = Simple(env)
             ev.assign(value)
-- 
2.43.0


From 369e22218c57eb2de0b176941bb041e0aa7f0ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:19 +0000
Subject: [PATCH 83/91] fix: a startup script can change the workspace

---
 marcel/main.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/marcel/main.py b/marcel/main.py
index c65f849..0ee4fc3 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -306,8 +306,6 @@ def main_interactive_run():
         assert env is not None
         try:
             main = MainInteractive(old_main, env)
-            main.run_startup_scripts()
-            env.enforce_var_immutability()
             return env, main
         except marcel.exception.StartupScriptException as e:
             if workspace.is_default():
@@ -327,6 +325,8 @@ def main_interactive_run():
         try:
             if main.needs_restart:
                 restart_in_default_workspace()
+            main.run_startup_scripts()  # May change the workspace
+            env.enforce_var_immutability()
             main.run()
             break
         except marcel.exception.ReconfigureException as e:
@@ -345,27 +345,25 @@ def main_interactive_run():
 def main_script_run(script):
     commands = commands_in_script(script)
     workspace = Workspace.default()
-    env = marcel.env.Environment.create(workspace=workspace)
-    main = MainScript(env)
-    if main.needs_restart:
-        main.shutdown(restart=True)
-        env = marcel.env.Environment.create(workspace=workspace)
+    trace = None
+    while True:
+        env = marcel.env.Environment.create(workspace=workspace, trace=trace)
         main = MainScript(env)
-    main.run_startup_scripts()
-    env.enforce_var_immutability()
-    for command in commands:
         try:
-            main.parse_and_run_command(command)
+            if main.needs_restart:
+                raise marcel.exception.ReconfigureException(Workspace.default())
+            main.run_startup_scripts()  # May change the workspace
+            env.enforce_var_immutability()
+            for command in commands:
+                main.parse_and_run_command(command)
+            break
         except marcel.exception.ReconfigureException as e:
+            trace = main.env.trace
             main.shutdown(restart=True)
             # e.workspace_to_open implies startup script change, which shouldn't happen
             # while running a script.
             assert e.workspace_to_open is not None
             workspace = e.workspace_to_open
-            env = marcel.env.Environment.create(workspace=workspace, trace=main.env.trace)
-            main = MainScript(env)
-            main.run_startup_scripts()
-            env.enforce_var_immutability()
 
 
 def read_heredoc():
-- 
2.43.0


From 4421eaee8451ab0499b4cd55f0a1925b48886180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:53 +0000
Subject: [PATCH 84/91] fix: a workspace that can't be opened, because its
 startup script fails, isn't left locked

---
 marcel/object/workspace.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 17da8f7..6a588b2 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -260,16 +260,13 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
     def open(self, env, initial_namespace=None):
         if self.exists():
             if self.lock_workspace():  # Always granted for default workspace
-                self.read_properties()  # Noop for default workspace
-                self.namespace = marcel.nestednamespace.NestedNamespace(env)
-                if initial_namespace:
-                    initial_namespace.add_to_namespace(self.namespace, env)
-                config_dict = self.run_config_script()
-                for var, value in config_dict.items():
-                    self.namespace.assign_permanent(var, value)
-                self.add_immutable_vars(config_dict.keys())
-                persistent_state = self.read_environment()
-                self.namespace.from_persistent_state(env, persistent_state)
+                try:
+                    self.load(env, initial_namespace)
+                except BaseException:
+                    # Not open, so don't keep others from opening it.
+                    if not self.is_default():
+                        self.unlock_workspace()
+                    raise
             else:
                 self.cannot_lock_workspace()
         else:
@@ -384,6 +381,18 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
 
     # Internal
 
+    def load(self, env, initial_namespace):
+        self.read_properties()  # Noop for default workspace
+        self.namespace = marcel.nestednamespace.NestedNamespace(env)
+        if initial_namespace:
+            initial_namespace.add_to_namespace(self.namespace, env)
+        config_dict = self.run_config_script()
+        for var, value in config_dict.items():
+            self.namespace.assign_permanent(var, value)
+        self.add_immutable_vars(config_dict.keys())
+        persistent_state = self.read_environment()
+        self.namespace.from_persistent_state(env, persistent_state)
+
     def run_config_script(self):
         return self.config_script.run()
 
-- 
2.43.0


From 07c1bde6ec97a2bc7df5d9ee1f1a716e5b497ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:41 +0000
Subject: [PATCH 85/91] fix: a string with quotes in the middle of it included
 them, and an escape at the end of a command ended the session

---
 marcel/parser.py        | 19 ++++++++---------
 marcel/stringliteral.py | 46 ++++++++++++++++++++---------------------
 2 files changed, 32 insertions(+), 33 deletions(-)

diff --git a/marcel/parser.py b/marcel/parser.py
index 505cc7e..fe8e73c 100644
--- a/marcel/parser.py
+++ b/marcel/parser.py
@@ -312,7 +312,9 @@ class PythonString(Token):
                     chars.append(c)
             elif c == Token.ESCAPE_CHAR:
                 c = self.next_char()
-                if c in Token.ESCAPABLE:
+                if c is None:
+                    raise LexerException(self, "Not a python string")
+                elif c in Token.ESCAPABLE:
                     chars.append(c)
                 else:
                     chars.append(Token.ESCAPE_CHAR)
@@ -456,23 +458,20 @@ class String(Token):
                     quote = None
             elif c == Token.ESCAPE_CHAR:
                 if quote is None:
-                    # TODO: ESCAPE at end of line
                     chars.append(c)
                     c = self.next_char()
                     if c is None:
-                        break
+                        raise LexerException(self, 'Nothing follows the escape character')
                     chars.append(c)
                 elif quote == Token.SINGLE_QUOTE:
                     chars.append(c)
                 elif quote == Token.DOUBLE_QUOTE:
-                    # TODO: no next char
+                    # The escaped character doesn't terminate the string.
+                    chars.append(c)
                     c = self.next_char()
-                    # TODO: Other escaped chars inside double quotes
-                    if c == Token.ESCAPE_CHAR:
-                        chars.append(c)
-                    else:
-                        chars.append(Token.ESCAPE_CHAR)
-                        chars.append(c)
+                    if c is None:
+                        break
+                    chars.append(c)
                 else:
                     raise LexerException(self, 'Malformed string')
             else:
diff --git a/marcel/stringliteral.py b/marcel/stringliteral.py
index 0b470bb..ce48b8c 100644
--- a/marcel/stringliteral.py
+++ b/marcel/stringliteral.py
@@ -51,28 +51,28 @@ class StringLiteral(str):
 
     def compute_unadorned(self):
         if self.original is not None:
+            # Remove quotes and escapes. Quotes may appear anywhere in the string, e.g. abc'def'.
             self.escape = False
-            self.unterminated_quote = False
-            if self[0] in StringLiteral.QUOTES:
-                # Remove quotes
-                self.quote = self[0]
-                self.unterminated_quote = self[-1] != self.quote
-                self.string = self[1:] if self.unterminated_quote else self[1:-1]
-            else:
-                # Remove escapes if any
-                self.string = ''
-                i = 0
-                n = len(self)
-                while i < n:
-                    c = self[i]
-                    i += 1
-                    if c == '\\':
-                        self.escape = True
-                        if i < n:
-                            c = self[i]
-                            i += 1
-                            self.string += c
-                        else:
-                            raise Exception(f'string literal terminated by lone escape: {self}')
-                    else:
+            self.string = ''
+            quote = None
+            i = 0
+            n = len(self)
+            while i < n:
+                c = self[i]
+                i += 1
+                if c == quote:
+                    quote = None
+                elif quote is None and c in StringLiteral.QUOTES:
+                    self.quote = quote = c
+                elif c == '\\' and quote != "'" and i < n:
+                    self.escape = True
+                    # Inside double quotes, the escape is kept unless it is itself escaped.
+                    if quote is not None and self[i] != '\\':
                         self.string += c
+                    self.string += self[i]
+                    i += 1
+                else:
+                    self.string += c
+            if quote is not None:
+                self.quote = quote
+            self.unterminated_quote = quote is not None
-- 
2.43.0


From b47d2b2eecb5326858890c9fe60e94a8c1f85a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:19 +0000
Subject: [PATCH 86/91] fix: a ~ not identifying a user ended the session, and
 so did read without files

---
 marcel/op/filenames.py | 2 +-
 marcel/op/read.py      | 3 ++-
 marcel/op/write.py     | 4 ++--
 marcel/util.py         | 8 ++++++++
 4 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/marcel/op/filenames.py b/marcel/op/filenames.py
index f5957bc..baad006 100644
--- a/marcel/op/filenames.py
+++ b/marcel/op/filenames.py
@@ -78,7 +78,7 @@ class Filenames(object):
         # Unescape escaped chars
         filename = marcel.util.unescape(filename)
         # Convert to Path and resolve ~
-        path = pathlib.Path(filename).expanduser()
+        path = marcel.util.expanduser(pathlib.Path(filename))
         # If path is relative, specify what it is relative to.
         if not path.is_absolute():
             path = self.current_dir / path
diff --git a/marcel/op/read.py b/marcel/op/read.py
index c6bd6cd..f3d9bde 100644
--- a/marcel/op/read.py
+++ b/marcel/op/read.py
@@ -200,7 +200,8 @@ class Read(marcel.op.filenamesop.FilenamesOp):
         if self.filenames:
             return super().run(env)
         else:
-            return self.receive(env, None)
+            raise marcel.exception.KillCommandException(
+                'read: The files to be read must either be specified, or piped in.')
 
     def receive(self, env, x):
         if x is None:
diff --git a/marcel/op/write.py b/marcel/op/write.py
index 94ac44a..2d42163 100644
--- a/marcel/op/write.py
+++ b/marcel/op/write.py
@@ -236,7 +236,7 @@ class TextWriter(Writer):
         if self._output is None:
             op = self.op
             if op.filename:
-                path = pathlib.Path(os.path.normpath(op.filename)).expanduser()
+                path = marcel.util.expanduser(pathlib.Path(os.path.normpath(op.filename)))
                 self._output = marcel.util.open_file(path,
                                                      'a' if op.append else 'w',
                                                      marcel.exception.KillCommandException)
@@ -309,7 +309,7 @@ class PickleWriter(Writer):
         assert op.filename is not None  # Should have been checked in setup
         self.writer = None
         try:
-            path = pathlib.Path(os.path.normpath(op.filename)).expanduser()
+            path = marcel.util.expanduser(pathlib.Path(os.path.normpath(op.filename)))
             self.writer = marcel.picklefile.PickleFile(path).writer(op.append)
         except OSError as e:
             raise marcel.exception.KillCommandException(f'Unable to open {op.filename} for writing: {e}')
diff --git a/marcel/util.py b/marcel/util.py
index 78a0c4a..dcc68ae 100644
--- a/marcel/util.py
+++ b/marcel/util.py
@@ -251,6 +251,14 @@ def one_of(x, types):
     return False
 
 
+# Like path.expanduser(), but as in bash, a ~ not identifying a user's home directory is left as is.
+def expanduser(path):
+    try:
+        return path.expanduser()
+    except RuntimeError:
+        return path
+
+
 def string_value(x):
     if x is None:
         return None
-- 
2.43.0


From 6304d1b6fe35f1c2d86eaf197f85d0dbfda48580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:22 +0000
Subject: [PATCH 87/91] fix: API: ps failed, whatever its arguments

---
 marcel/op/ps.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/marcel/op/ps.py b/marcel/op/ps.py
index 6028d22..6ab9f2b 100644
--- a/marcel/op/ps.py
+++ b/marcel/op/ps.py
@@ -86,10 +86,11 @@ _UNINITIALIZED = Uninitialized()
 
 def ps(user=_UNINITIALIZED, group=_UNINITIALIZED, pid=_UNINITIALIZED, command=_UNINITIALIZED):
     op = Ps()
-    op.user = user
-    op.group = group
-    op.pid = pid
-    op.command = command
+    # None: this user or group
+    op.user = None if user is _UNINITIALIZED else True if user is None else user
+    op.group = None if group is _UNINITIALIZED else True if group is None else group
+    op.pid = None if pid is _UNINITIALIZED else pid
+    op.command = None if command is _UNINITIALIZED else command
     return op, []
 
 
@@ -100,7 +101,7 @@ class PsArgsParser(marcel.argsparser.ArgsParser):
         self.add_flag_optional_value('user', '-u', '--user', default=True)
         self.add_flag_optional_value('group', '-g', '--group', default=True)
         self.add_flag_one_value('pid', '-p', '--pid')
-        self.add_flag_one_value('command', '-c', '--command')
+        self.add_flag_one_value('command', '-c', '--command', convert=self.check_str)
         self.at_most_one('user', 'group', 'pid', 'command')
         self.validate()
 
@@ -127,6 +128,10 @@ class Ps(marcel.core.Op):
         # A value of type Uninitialized means it wasn't specified at all.
         #
         # user and group can be True if -u or -g are specified with no value.
+        self.user = self.eval_function(env, 'user')
+        self.group = self.eval_function(env, 'group')
+        self.pid = self.eval_function(env, 'pid')
+        self.command = self.eval_function(env, 'command', str)
         self.filter = lambda p: True
         if self.user is not None:
             self.user = os.getuid() if self.user is True else Ps.convert_to_id(self.user, marcel.util.uid)
@@ -138,7 +143,7 @@ class Ps(marcel.core.Op):
             try:
                 self.pid = int(self.pid)
                 self.filter = lambda p: self.pid == p.pid
-            except ValueError:
+            except (ValueError, TypeError):
                 raise marcel.exception.KillCommandException(f'pid must be an int: {self.pid}')
         if self.command:
             self.filter = (lambda p: p.name is not None and self.command in p.name or
@@ -162,12 +167,14 @@ class Ps(marcel.core.Op):
 
     @staticmethod
     def convert_to_id(name, lookup):
-        id = lookup(name)
-        if id is None:
-            try:
-                id = int(name)
-            except ValueError:
-                pass
+        id = None
+        if isinstance(name, (str, int)):
+            id = lookup(str(name))
+            if id is None:
+                try:
+                    id = int(name)
+                except ValueError:
+                    pass
         if id is None:
             raise marcel.exception.KillCommandException(f'{name} is not a recognized id or name.')
         return id
-- 
2.43.0


From 315059b0ab40e11fba23fd0c9451b1f4141b17b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:22 +0000
Subject: [PATCH 88/91] fix: arguments given by expressions failed in env,
 import, help, trace and sql; and so did intersect without arguments

---
 marcel/op/edit.py      | 11 ++++++++---
 marcel/op/env.py       | 12 +++++++++---
 marcel/op/help.py      |  5 +++--
 marcel/op/import.py    | 14 +++++++++++---
 marcel/op/intersect.py |  4 ++++
 marcel/op/sql.py       | 10 +++++++---
 marcel/op/trace.py     |  6 +++++-
 marcel/util.py         |  7 +++++--
 8 files changed, 52 insertions(+), 17 deletions(-)

diff --git a/marcel/op/edit.py b/marcel/op/edit.py
index f3aac87..890edaf 100644
--- a/marcel/op/edit.py
+++ b/marcel/op/edit.py
@@ -80,15 +80,20 @@ class Edit(marcel.core.Op):
     # AbstractOp
 
     def setup(self, env):
-        assert self.command is None  # edit COMMAND should be handled by Reader, shouldn't get here.
-        self.ws_name = None if self.startup is True else self.startup
+        if self.command is not None:
+            # An interactive edit COMMAND is handled by Reader, shouldn't get here.
+            raise marcel.exception.KillCommandException('A command can only be edited interactively.')
+        startup = self.eval_function(env, 'startup')
+        self.ws_name = None if startup is True or startup is None else startup
+        if not (self.ws_name is None or isinstance(self.ws_name, str)):
+            raise marcel.exception.KillCommandException(f'Not the name of a workspace: {self.ws_name}')
 
     def run(self, env):
         if self.ws_name is None:
             workspace = env.workspace
         else:
             workspace = marcel.object.workspace.Workspace.named(self.ws_name)
-            if not workspace.exists(env):
+            if not workspace.exists():
                 raise marcel.exception.KillCommandException(f'Workspace does not exist: {self.ws_name}')
         marcel.runeditor.edit_file(env, env.locations.config_ws_startup(workspace))
 
diff --git a/marcel/op/env.py b/marcel/op/env.py
index 73cbfe7..86c00c9 100644
--- a/marcel/op/env.py
+++ b/marcel/op/env.py
@@ -81,11 +81,11 @@ class EnvArgsParser(marcel.argsparser.ArgsParser):
 
     def __init__(self, env):
         super().__init__('env', env)
-        self.add_flag_one_value('delete', '-d', '--delete')
-        self.add_flag_one_value('pattern', '-p', '--pattern')
+        self.add_flag_one_value('delete', '-d', '--delete', convert=self.check_str, target='delete_arg')
+        self.add_flag_one_value('pattern', '-p', '--pattern', convert=self.check_str, target='pattern_arg')
         self.add_flag_no_value('builtins', '-b', '--builtins')
         self.add_flag_no_value('os', '-o', '--os')
-        self.add_anon('var', default=None)
+        self.add_anon('var', convert=self.check_str, default=None, target='var_arg')
         self.at_most_one('delete', 'var', 'pattern')
         self.at_most_one('delete', 'os')
         self.at_most_one('builtins', 'os')
@@ -96,8 +96,11 @@ class Env(marcel.core.Op):
 
     def __init__(self):
         super().__init__()
+        self.delete_arg = None
         self.delete = None
+        self.var_arg = None
         self.var = None
+        self.pattern_arg = None
         self.pattern = None
         self.builtins = False
         self.os = None
@@ -121,6 +124,9 @@ class Env(marcel.core.Op):
     # AbstractOp
 
     def setup(self, env):
+        self.delete = self.eval_function(env, 'delete_arg', str)
+        self.var = self.eval_function(env, 'var_arg', str)
+        self.pattern = self.eval_function(env, 'pattern_arg', str)
         self.list_all = self.var is None and self.delete is None and self.pattern is None
         self.impl = EnvOS(self) if self.os else EnvMarcel(self)
 
diff --git a/marcel/op/help.py b/marcel/op/help.py
index 4240b27..5e604b3 100644
--- a/marcel/op/help.py
+++ b/marcel/op/help.py
@@ -42,7 +42,7 @@ class HelpArgsParser(marcel.argsparser.ArgsParser):
 
     def __init__(self, env):
         super().__init__('help', env)
-        self.add_anon('topic', convert=self.check_str, default='marcel')
+        self.add_anon('topic', convert=self.check_str, default='marcel', target='topic_arg')
         self.validate()
 
 
@@ -50,6 +50,7 @@ class Help(marcel.core.Op):
 
     def __init__(self):
         super().__init__()
+        self.topic_arg = None
         self.topic = None
         self.module = None
 
@@ -59,7 +60,7 @@ class Help(marcel.core.Op):
     # AbstractOp
     
     def setup(self, env):
-        self.topic = self.topic.lower()
+        self.topic = self.eval_function(env, 'topic_arg', str).lower()
 
     def run(self, env):
         op_module = env.op_modules.get(self.topic, None)
diff --git a/marcel/op/import.py b/marcel/op/import.py
index ce8b5c8..dd7cc9d 100644
--- a/marcel/op/import.py
+++ b/marcel/op/import.py
@@ -52,9 +52,9 @@ class ImportArgsParser(marcel.argsparser.ArgsParser):
 
     def __init__(self, env):
         super().__init__('import', env)
-        self.add_flag_one_value('as', '-a', '--as', target='name')
-        self.add_anon('module')
-        self.add_anon('symbol', default=None)
+        self.add_flag_one_value('as', '-a', '--as', convert=self.check_str, target='name_arg')
+        self.add_anon('module', convert=self.check_str, target='module_arg')
+        self.add_anon('symbol', convert=self.check_str, default=None, target='symbol_arg')
         self.validate()
 
 
@@ -62,8 +62,11 @@ class Import(marcel.core.Op):
 
     def __init__(self):
         super().__init__()
+        self.module_arg = None
         self.module = None
+        self.symbol_arg = None
         self.symbol = None
+        self.name_arg = None
         self.name = None
 
     def __repr__(self):
@@ -79,6 +82,9 @@ class Import(marcel.core.Op):
     # AbstractOp
 
     def setup(self, env):
+        self.module = self.eval_function(env, 'module_arg', str)
+        self.symbol = self.eval_function(env, 'symbol_arg', str)
+        self.name = self.eval_function(env, 'name_arg', str)
         wildcard = self.symbol == '*'
         if self.symbol and not (wildcard or self.symbol.isidentifier()):
             raise marcel.exception.KillCommandException(f'symbol must be * or a valid identifier: {self.symbol}')
@@ -116,6 +122,8 @@ class Import(marcel.core.Op):
             raise marcel.exception.KillCommandException(f'Module {self.module} not found.')
         except KeyError:
             raise marcel.exception.KillCommandException(f'{self.symbol} is not defined in {self.module}')
+        except Exception as e:
+            raise marcel.exception.KillCommandException(f'Unable to import {self.module}: {e}')
 
     def must_be_first_in_pipeline(self):
         return True
diff --git a/marcel/op/intersect.py b/marcel/op/intersect.py
index d52bceb..0093a09 100644
--- a/marcel/op/intersect.py
+++ b/marcel/op/intersect.py
@@ -71,6 +71,10 @@ class Intersect(marcel.core.Op):
 
     def receive(self, env, x):
         self.ensure_args_consumed(env)
+        if self.common is None:
+            # There are no pipelines to intersect with.
+            self.send(env, x)
+            return
         try:
             count = self.common.get(x, 0)
             if count > 0:
diff --git a/marcel/op/sql.py b/marcel/op/sql.py
index 0c91906..c4553a9 100644
--- a/marcel/op/sql.py
+++ b/marcel/op/sql.py
@@ -93,10 +93,10 @@ class SqlArgsParser(marcel.argsparser.ArgsParser):
 
     def __init__(self, env):
         super().__init__('sql', env)
-        self.add_flag_one_value('db', '-d', '--db', target='dbvar')
+        self.add_flag_one_value('db', '-d', '--db', target='dbvar_arg')
         self.add_flag_no_value('autocommit', '-a', '--autocommit')
         self.add_flag_no_value('update_counts', '-u', '--update-counts')
-        self.add_flag_one_value('commit', '-c', '--commit', convert=self.str_to_int)
+        self.add_flag_one_value('commit', '-c', '--commit', convert=self.str_to_int, target='commit_arg')
         self.add_anon('statement', target='statement_arg')
         self.add_anon_list('args', target='args_arg')
         self.at_most_one('autocommit', 'commit')
@@ -107,10 +107,12 @@ class Sql(marcel.core.Op):
 
     def __init__(self):
         super().__init__()
+        self.dbvar_arg = None
         self.dbvar = None
         self.db = None
         self.autocommit = None
         self.update_counts = None
+        self.commit_arg = None
         self.commit = None
         self.statement_arg = None
         self.statement = None
@@ -128,6 +130,8 @@ class Sql(marcel.core.Op):
     def setup(self, env):
         self.statement = self.eval_function(env, 'statement_arg', str)
         self.args = self.eval_function(env, 'args_arg')
+        self.dbvar = self.eval_function(env, 'dbvar_arg')
+        self.commit = self.eval_function(env, 'commit_arg', int)
         if self.commit is None:
             self.commit = 0  # Commit only in flush
         elif self.commit < 0:
@@ -142,7 +146,7 @@ class Sql(marcel.core.Op):
             # API
             self.db = self.dbvar
         else:
-            assert False, self.dbvar
+            raise marcel.exception.KillCommandException(f'Not a database: {self.dbvar}')
         if self.db is None:
             raise marcel.exception.KillCommandException('No database profile defined')
         try:
diff --git a/marcel/op/trace.py b/marcel/op/trace.py
index 6ccc45c..b1fbb4a 100644
--- a/marcel/op/trace.py
+++ b/marcel/op/trace.py
@@ -64,7 +64,7 @@ class TraceArgsParser(marcel.argsparser.ArgsParser):
         super().__init__('trace', env)
         self.add_flag_no_value('off', '-0', '--off')
         self.add_flag_no_value('on', '-1', '--on')
-        self.add_flag_one_value('file', '-f', '--file', target='filename')
+        self.add_flag_one_value('file', '-f', '--file', convert=self.check_str, target='filename_arg')
         self.at_most_one('on', 'off', 'file')
         self.validate()
 
@@ -75,6 +75,7 @@ class Trace(marcel.core.Op):
         super().__init__()
         self.off = False
         self.on = False
+        self.filename_arg = None
         self.filename = None
 
     def __repr__(self):
@@ -90,6 +91,9 @@ class Trace(marcel.core.Op):
 
     # AbstractOp
 
+    def setup(self, env):
+        self.filename = self.eval_function(env, 'filename_arg', str)
+
     def run(self, env):
         if self.off:
             env.trace.disable()
diff --git a/marcel/util.py b/marcel/util.py
index dcc68ae..4b8df92 100644
--- a/marcel/util.py
+++ b/marcel/util.py
@@ -156,8 +156,11 @@ def colorize(s, color):
 
 def console_width():
     process = subprocess.run('stty size', shell=True, capture_output=True)
-    console_columns = int(process.stdout.split()[1])
-    return console_columns
+    try:
+        return int(process.stdout.split()[1])
+    except (IndexError, ValueError):
+        # stdin is not a terminal
+        return 80
 
 
 # Utility to print to stderr, flushing stdout first, to minimize weird ordering due to buffering.
-- 
2.43.0


From 7ffc2caf76042e9f39a69ca2049df84164b7215b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:33 +0000
Subject: [PATCH 89/91] fix: ls ended the session if a pattern was malformed,
 or started with two slashes

---
 marcel/op/filenames.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/marcel/op/filenames.py b/marcel/op/filenames.py
index baad006..bb92d33 100644
--- a/marcel/op/filenames.py
+++ b/marcel/op/filenames.py
@@ -62,12 +62,18 @@ class Filenames(object):
                 glob_base, glob_pattern = ((Filenames.ROOT, path_str[1:])
                                            if path.is_absolute() else
                                            (self.current_dir, path_str))
-                for root in (glob_base.glob(glob_pattern)
-                             if len(glob_pattern) > 0 else
-                             glob_base.iterdir()):
-                    if root not in roots_set:
-                        roots_set.add(root)
-                        roots.append(root)
+                try:
+                    for root in (glob_base.glob(glob_pattern)
+                                 if len(glob_pattern) > 0 else
+                                 glob_base.iterdir()):
+                        if root not in roots_set:
+                            roots_set.add(root)
+                            roots.append(root)
+                except ValueError as e:
+                    raise marcel.exception.KillCommandException(f'{filename}: {e}')
+                except PermissionError:
+                    # Whatever can't be accessed isn't a match
+                    pass
         return roots
 
     def _normalize_path(self, filename):
@@ -83,4 +89,8 @@ class Filenames(object):
         if not path.is_absolute():
             path = self.current_dir / path
         # Resolve . and .. (These may refer to a parent of the current directory, or of the home directory.)
-        return pathlib.Path(os.path.normpath(path))
+        path = os.path.normpath(path)
+        if path.startswith('//'):
+            # normpath preserves exactly two leading slashes.
+            path = path[1:]
+        return pathlib.Path(path)
-- 
2.43.0


From f131c1b813d39b92eb3cc505c6d7e99ab2acd230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:01 +0000
Subject: [PATCH 90/91] fix: a parameter of a pipeline, as the pipeline
 argument of an operator, was taken to be a variable

---
 marcel/argsparser.py | 15 ++++++++++++++-
 marcel/parser.py     |  3 ++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/marcel/argsparser.py b/marcel/argsparser.py
index f45bd60..873dae8 100644
--- a/marcel/argsparser.py
+++ b/marcel/argsparser.py
@@ -130,6 +130,7 @@ class ArgsParser:
         self.validated = False
         # A hack to sneak the op currently being validated to function()
         self.current_op = None
+        self.parameters = ()
 
     def add_flag_no_value(self, name, short, long, target=None):
         self.flag_args.append(Flag(self.op_name, name, None, short, long, VALUE_NONE, target))
@@ -221,6 +222,13 @@ class ArgsParser:
         return x
 
     def check_pipeline(self, arg, x):
+        if self.is_parameter(x):
+            # The argument will be known only when the pipeline having the parameter is executed.
+            op = self.env.op_modules['runpipeline'].create_op()
+            op.var = marcel.util.string_value(x)
+            x = marcel.pipeline.PipelineExecutable()
+            x.append(op)
+            x.source = op.var
         pipeline = marcel.pipeline.convert_to_pipeline(self.env, x)
         if pipeline is None:
             raise marcel.argsparser.ArgsError(self.op_name,
@@ -292,9 +300,11 @@ class ArgsParser:
 
     # Parsing
 
-    def parse(self, args, op):
+    # parameters: Names of parameters of the pipelines that op is part of.
+    def parse(self, args, op, parameters=()):
         assert self.validated
         self.current_op = op
+        self.parameters = parameters
         flags, anon, anon_list = self.extract_flags_and_anon(args)
         # Compute the set of names for supplied args
         names = list(flags.keys())
@@ -320,6 +330,9 @@ class ArgsParser:
 
     # Utilities
 
+    def is_parameter(self, x):
+        return isinstance(x, str) and marcel.util.string_value(x) in self.parameters
+
     def find_flag(self, x):
         if isinstance(x, str):
             for flag in self.flag_args:
diff --git a/marcel/parser.py b/marcel/parser.py
index fe8e73c..22f5c24 100644
--- a/marcel/parser.py
+++ b/marcel/parser.py
@@ -1299,7 +1299,8 @@ class Parser(object):
             args = []
             for x in arg_tokens:
                 args.append(x.value() if isinstance(x, Token) else x)
-            op_module.args_parser(self.env).parse(args, op)
+            parameters = [p for tracker in self.pipeline_stack for p in tracker.pipeline.parameters() or ()]
+            op_module.args_parser(self.env).parse(args, op, parameters)
         return op
 
     def create_op_variable(self, op_token, arg_tokens, undefined_var_ok=False):
-- 
2.43.0


From 76bdcc34ba61ec195babdff63d125273f3156828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:01 +0000
Subject: [PATCH 91/91] fix: quoted numbers, a format given by an expression,
 and a compare function given by a variable weren't accepted as arguments

---
 marcel/argsparser.py | 4 +++-
 marcel/op/filter.py  | 2 +-
 marcel/op/write.py   | 8 +++++---
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/marcel/argsparser.py b/marcel/argsparser.py
index 873dae8..03ccf23 100644
--- a/marcel/argsparser.py
+++ b/marcel/argsparser.py
@@ -178,6 +178,7 @@ class ArgsParser:
         if type(x) is int or callable(x):
             return x
         if isinstance(x, str):
+            x = marcel.util.string_value(x)
             try:
                 return int(x)
             except ValueError:
@@ -241,12 +242,13 @@ class ArgsParser:
         elif type(x) is marcel.object.cluster.Cluster:
             return x
         elif isinstance(x, str):
+            x = marcel.util.string_value(x)
             try:
                 return int(x)
             except ValueError:
                 # Could be a cluster name
                 cluster = self.env.cluster(x)
-                return cluster if cluster else marcel.util.string_value(x)
+                return cluster if cluster else x
         elif marcel.util.iterable(x):
             return x
         raise ArgsError(arg.op_name, f'{x} must be an int, iterable, or Cluster')
diff --git a/marcel/op/filter.py b/marcel/op/filter.py
index ff62f85..93c7ed9 100644
--- a/marcel/op/filter.py
+++ b/marcel/op/filter.py
@@ -80,7 +80,7 @@ class FilterArgsParser(marcel.argsparser.ArgsParser):
         super().__init__('filter', env)
         self.add_flag_no_value('keep', '-k', '--keep')
         self.add_flag_no_value('discard', '-d', '--discard')
-        self.add_flag_one_value('compare', '-c', '--compare')
+        self.add_flag_one_value('compare', '-c', '--compare', convert=self.function)
         self.add_anon('pipeline', convert=self.check_pipeline)
         self.at_most_one('keep', 'discard')
         self.validate()
diff --git a/marcel/op/write.py b/marcel/op/write.py
index 2d42163..78bebc4 100644
--- a/marcel/op/write.py
+++ b/marcel/op/write.py
@@ -90,7 +90,7 @@ class WriteArgsParser(marcel.argsparser.ArgsParser):
         self.add_flag_no_value('csv', '-c', '--csv')
         self.add_flag_no_value('tsv', '-t', '--tsv')
         self.add_flag_no_value('pickle', '-p', '--pickle')
-        self.add_flag_one_value('format', '-f', '--format')
+        self.add_flag_one_value('format', '-f', '--format', target='format_arg')
         self.add_flag_no_value('append', '-a', '--append')
         self.add_anon('filename', convert=self.check_str, default=None, target='filename_arg')
         self.at_most_one('csv', 'tsv', 'pickle', 'format')
@@ -104,6 +104,7 @@ class Write(marcel.core.Op):
         self.csv = False
         self.tsv = False
         self.pickle = False
+        self.format_arg = None
         self.format = None
         self.append = None
         self.filename_arg = None
@@ -119,8 +120,8 @@ class Write(marcel.core.Op):
             buffer.append('tsv')
         if self.pickle:
             buffer.append('pickle')
-        if self.format:
-            buffer.append(f'format={Write.ensure_quoted(self.format)}')
+        if self.format_arg:
+            buffer.append(f'format={Write.ensure_quoted(self.format_arg)}')
         if self.append:
             buffer.append('append')
         if self.filename_arg:
@@ -132,6 +133,7 @@ class Write(marcel.core.Op):
 
     def setup(self, env):
         self.filename = self.eval_function(env, 'filename_arg', str)
+        self.format = self.eval_function(env, 'format_arg', str)
         if self.pickle and self.filename is None:
             raise marcel.exception.KillCommandException(
                 '--pickle incompatible with stdout.')
-- 
2.43.0

