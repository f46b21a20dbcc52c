From 718bd2c630248189a136dfab1718900e3ce07e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:32 +0000
Subject: [PATCH 01/59] fix: refresh table data of subscription tree when only
 some columns change

---
 malcolm/core/notifier.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/malcolm/core/notifier.py b/malcolm/core/notifier.py
index b3499ff..daacdbd 100644
--- a/malcolm/core/notifier.py
+++ b/malcolm/core/notifier.py
@@ -139,13 +139,16 @@ class NotifierNode:
         self.parent = parent
         self.data = data
 
-    def notify_changes(self, changes: List[List]) -> "CallbackResponses":
+    def notify_changes(
+        self, changes: List[List], data: Any = None
+    ) -> "CallbackResponses":
         """Set our data and notify anyone listening
 
         Args:
             changes (list): [[path, optional data]] where path is the path to
                 what has changed, and data is the unserialized object that has
                 changed
+            data: The object that our parent now holds for us
 
         Returns:
             list: [(callback, Response)] that need to be called
@@ -156,6 +159,11 @@ class NotifierNode:
             # Add any changes that our children need to know about
             self._add_child_change(change, child_changes)
 
+        # If only part of us changed (e.g. a column of a Table) then our parent
+        # may hold a different object, so make sure we have the latest one
+        if self.parent:
+            self.data = data
+
         # If we have update subscribers, freeze at this level
         if self.update_requests:
             frozen = freeze(self.data)
@@ -171,7 +179,8 @@ class NotifierNode:
 
         # Now notify our children
         for name, changes in child_changes.items():
-            ret += self.children[name].notify_changes(changes)
+            child_data = getattr(self.data, name, None)
+            ret += self.children[name].notify_changes(changes, child_data)
         return ret
 
     def _add_child_change(self, change: List, child_changes: Dict[str, List]) -> None:
-- 
2.43.0


From 10c718db7f3a97add442e6a14306ebe2f6bdb0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:34 +0000
Subject: [PATCH 02/59] fix: let subscriptions follow paths through maps of
 elements

---
 malcolm/core/notifier.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/malcolm/core/notifier.py b/malcolm/core/notifier.py
index daacdbd..4512bc2 100644
--- a/malcolm/core/notifier.py
+++ b/malcolm/core/notifier.py
@@ -46,6 +46,14 @@ def freeze(o):
     return o
 
 
+def get_child(data: Any, name: str) -> Any:
+    """Get the child called name from a Model or a dict of them, or None"""
+    if isinstance(data, dict):
+        return data.get(name)
+    else:
+        return getattr(data, name, None)
+
+
 class Notifier(Loggable):
     """Object that can service callbacks on given endpoints"""
 
@@ -179,7 +187,7 @@ class NotifierNode:
 
         # Now notify our children
         for name, changes in child_changes.items():
-            child_data = getattr(self.data, name, None)
+            child_data = get_child(self.data, name)
             ret += self.children[name].notify_changes(changes, child_data)
         return ret
 
@@ -217,7 +225,7 @@ class NotifierNode:
         child_change_dict: Dict[str, List] = {}
         # Reflect change of data to children
         for name in self.children:
-            child_data = getattr(data, name, None)
+            child_data = get_child(data, name)
             if child_data is None:
                 # Deletion
                 child_change_dict[name] = [[]]
@@ -244,7 +252,7 @@ class NotifierNode:
             # Recurse down
             name = path[0]
             if name not in self.children:
-                self.children[name] = NotifierNode(getattr(self.data, name, None), self)
+                self.children[name] = NotifierNode(get_child(self.data, name), self)
             ret += self.children[name].handle_subscribe(request, path[1:])
         else:
             # This is for us
-- 
2.43.0


From 52c7dda202a09e43f959c7eb9f999d9ef8156515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:31 +0000
Subject: [PATCH 03/59] fix: do not hang or lose an error when a callback's
 wait concludes outer futures

---
 malcolm/core/context.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/malcolm/core/context.py b/malcolm/core/context.py
index 8821c77..d72b39a 100644
--- a/malcolm/core/context.py
+++ b/malcolm/core/context.py
@@ -399,9 +399,11 @@ class Context:
             # some futures that aren't known to it. This means that some of
             # our futures list are now concluded, so filter them out. If we
             # didn't do this we would hang forever
-            for future in futures:
+            for future in futures[:]:
                 if future not in self._requests:
                     futures.remove(future)
+                    if future.done() and future.exception() is not None:
+                        raise future.exception()
         elif isinstance(response, Return):
             future = self._futures.pop(response.id)
             del self._requests[future]
-- 
2.43.0


From 948e2a4fb8b66896210ae936004d6201b9a5426f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:14 +0000
Subject: [PATCH 04/59] fix: disable during configure or run ends in Disabled,
 not Fault, when nothing was aborted before

---
 .../scanning/controllers/runnablecontroller.py       | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/malcolm/modules/scanning/controllers/runnablecontroller.py b/malcolm/modules/scanning/controllers/runnablecontroller.py
index 9ec3086..0c40729 100644
--- a/malcolm/modules/scanning/controllers/runnablecontroller.py
+++ b/malcolm/modules/scanning/controllers/runnablecontroller.py
@@ -451,8 +451,8 @@ class RunnableController(builtin.controllers.ManagerController):
             self.do_configure(state, params)
             self.abortable_transition(ss.ARMED)
         except AbortedError:
-            assert self.abort_queue, "No abort queue"
-            self.abort_queue.put(None)
+            if self.abort_queue:
+                self.abort_queue.put(None)
             raise
         except Exception as e:
             self.go_to_error_state(e)
@@ -539,8 +539,8 @@ class RunnableController(builtin.controllers.ManagerController):
                     self.do_run(hook)
                     self.abortable_transition(next_state)
                 except AbortedError:
-                    assert self.abort_queue, "No abort queue"
-                    self.abort_queue.put(None)
+                    if self.abort_queue:
+                        self.abort_queue.put(None)
                     # Wait for a response on the resume_queue
                     assert self.resume_queue, "No resume queue"
                     should_resume = self.resume_queue.get()
@@ -644,8 +644,8 @@ class RunnableController(builtin.controllers.ManagerController):
             func(*args)
             self.abortable_transition(end_state)
         except AbortedError:
-            assert self.abort_queue, "No abort queue"
-            self.abort_queue.put(None)
+            if self.abort_queue:
+                self.abort_queue.put(None)
             raise
         except Exception as e:  # pylint:disable=broad-except
             self.go_to_error_state(e)
-- 
2.43.0


From a55e0eae078c0400be33fcd9014d89b4cf722b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:14 +0000
Subject: [PATCH 05/59] fix: a configure overtaken while it validates does not
 put the Block in Fault

---
 malcolm/modules/scanning/controllers/runnablecontroller.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/scanning/controllers/runnablecontroller.py b/malcolm/modules/scanning/controllers/runnablecontroller.py
index 0c40729..40d6b8b 100644
--- a/malcolm/modules/scanning/controllers/runnablecontroller.py
+++ b/malcolm/modules/scanning/controllers/runnablecontroller.py
@@ -446,8 +446,10 @@ class RunnableController(builtin.controllers.ManagerController):
         """
         params = self.validate(generator, axesToMove, breakpoints, **kwargs)
         state = self.state.value
+        # If someone else got in while we validated then this will fail, but it
+        # is not a reason to put the Block in Fault
+        self.transition(ss.CONFIGURING)
         try:
-            self.transition(ss.CONFIGURING)
             self.do_configure(state, params)
             self.abortable_transition(ss.ARMED)
         except AbortedError:
-- 
2.43.0


From a23ea11dab854cddd1dbd49f0545812b606ccccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:43 +0000
Subject: [PATCH 06/59] fix: abort while a pause waits for the run to stop no
 longer ends in Fault

---
 .../scanning/controllers/runnablecontroller.py     | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/malcolm/modules/scanning/controllers/runnablecontroller.py b/malcolm/modules/scanning/controllers/runnablecontroller.py
index 40d6b8b..0dc9d4c 100644
--- a/malcolm/modules/scanning/controllers/runnablecontroller.py
+++ b/malcolm/modules/scanning/controllers/runnablecontroller.py
@@ -620,20 +620,27 @@ class RunnableController(builtin.controllers.ManagerController):
     def try_aborting_function(
         self, start_state: str, end_state: str, func: Callable[..., None], *args: Any
     ) -> None:
+        overtaken = None
         try:
             # To make the running function fail we need to stop any running
             # contexts (if running a hook) or make transition() fail with
             # AbortedError. Both of these are accomplished here
             with self._lock:
                 original_state = self.state.value
-                self.abort_queue = Queue()
                 self.transition(start_state)
+                if self.abort_queue:
+                    # If someone is still waiting for something to finish
+                    # aborting then tell them that we have overtaken them
+                    self.abort_queue.put(start_state)
+                abort_queue = self.abort_queue = Queue()
                 for context in self.part_contexts.values():
                     context.stop()
             if original_state not in (ss.READY, ss.ARMED, ss.PAUSED, ss.FINISHED):
                 # Something was running, let it finish aborting
                 try:
-                    self.abort_queue.get(timeout=DEFAULT_TIMEOUT)
+                    overtaken = abort_queue.get(timeout=DEFAULT_TIMEOUT)
+                    if overtaken:
+                        raise AbortedError(f"Overtaken by {overtaken}")
                 except TimeoutError:
                     self.log.warning("Timeout waiting while {start_state}")
             with self._lock:
@@ -646,7 +653,8 @@ class RunnableController(builtin.controllers.ManagerController):
             func(*args)
             self.abortable_transition(end_state)
         except AbortedError:
-            if self.abort_queue:
+            # If overtaken then what is being aborted will say when it is done
+            if self.abort_queue and not overtaken:
                 self.abort_queue.put(None)
             raise
         except Exception as e:  # pylint:disable=broad-except
-- 
2.43.0


From dc3c9c432af2cc8975160320ff7b4da241ba45e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:16 +0000
Subject: [PATCH 07/59] fix: abort or disable while configure resets a finished
 scan is not lost

---
 .../scanning/controllers/runnablecontroller.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/malcolm/modules/scanning/controllers/runnablecontroller.py b/malcolm/modules/scanning/controllers/runnablecontroller.py
index 0dc9d4c..98e9206 100644
--- a/malcolm/modules/scanning/controllers/runnablecontroller.py
+++ b/malcolm/modules/scanning/controllers/runnablecontroller.py
@@ -463,20 +463,20 @@ class RunnableController(builtin.controllers.ManagerController):
             return params
 
     def do_configure(self, state: str, params: ConfigureParams) -> None:
-        if state == ss.FINISHED:
-            # If we were finished then do a reset before configuring
-            self.run_hooks(
-                builtin.hooks.ResetHook(p, c)
-                for p, c in self.create_part_contexts().items()
-            )
-        # Clear out any old part contexts now rather than letting gc do it
-        for context in self.part_contexts.values():
-            context.unsubscribe_all()
+        old_contexts = self.part_contexts
         # These are the part tasks that abort() and pause() will operate on
         self.part_contexts = self.create_part_contexts()
         # So add one for ourself too so we can be aborted
         assert self.process, "No attached process"
         self.part_contexts[self] = Context(self.process)
+        # Clear out any old part contexts now rather than letting gc do it
+        for context in old_contexts.values():
+            context.unsubscribe_all()
+        if state == ss.FINISHED:
+            # If we were finished then do a reset before configuring
+            self.run_hooks(
+                builtin.hooks.ResetHook(p, c) for p, c in self.part_contexts.items()
+            )
         # Store the params for use in seek()
         self.configure_params = params
         # Tell everything to get into the right state to Configure
-- 
2.43.0


From 9b75262b06ae7f7ab7ca77fce53e0b148d2bf18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:16 +0000
Subject: [PATCH 08/59] fix: pause or abort overtaken by disable or abort while
 it waits does not go on

---
 malcolm/modules/scanning/controllers/runnablecontroller.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/malcolm/modules/scanning/controllers/runnablecontroller.py b/malcolm/modules/scanning/controllers/runnablecontroller.py
index 98e9206..a6f2000 100644
--- a/malcolm/modules/scanning/controllers/runnablecontroller.py
+++ b/malcolm/modules/scanning/controllers/runnablecontroller.py
@@ -644,6 +644,10 @@ class RunnableController(builtin.controllers.ManagerController):
                 except TimeoutError:
                     self.log.warning("Timeout waiting while {start_state}")
             with self._lock:
+                # If we were disabled or aborted after what we were waiting for
+                # finished then we should not go on
+                if self.state.value != start_state:
+                    raise AbortedError(f"Overtaken by {self.state.value}")
                 # Now we've waited for a while we can remove the error state
                 # for transition in case a hook triggered it rather than a
                 # transition
-- 
2.43.0


From 40c72aa0f3ff8e889bcde0fd44c6a14a5ce4cebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:38 +0000
Subject: [PATCH 09/59] fix: abort or disable that arrives between the stages
 of a scan is not lost

---
 .../controllers/runnablecontroller.py         | 40 +++++++++++++------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/malcolm/modules/scanning/controllers/runnablecontroller.py b/malcolm/modules/scanning/controllers/runnablecontroller.py
index a6f2000..dcda256 100644
--- a/malcolm/modules/scanning/controllers/runnablecontroller.py
+++ b/malcolm/modules/scanning/controllers/runnablecontroller.py
@@ -9,6 +9,8 @@ from malcolm.core import (
     AbortedError,
     AMri,
     Context,
+    Hook,
+    Info,
     NumberMeta,
     Part,
     Queue,
@@ -424,6 +426,16 @@ class RunnableController(builtin.controllers.ManagerController):
                 self_ctx.sleep(0)
             self.transition(state)
 
+    def run_abortable_hooks(self, hooks: Iterable[Hook]) -> Dict[str, List[Info]]:
+        with self._lock:
+            # We might have been stopped when no hooks were running, so this
+            # will fail with an AbortedError if we were
+            self_ctx = self.part_contexts.get(self, None)
+            if self_ctx:
+                self_ctx.sleep(0)
+            started = self.start_hooks(hooks)
+        return self.wait_hooks(*started)
+
     # This will be serialized, so maintain camelCase for axesToMove
     # noinspection PyPep8Naming
     @add_call_types
@@ -474,13 +486,15 @@ class RunnableController(builtin.controllers.ManagerController):
             context.unsubscribe_all()
         if state == ss.FINISHED:
             # If we were finished then do a reset before configuring
-            self.run_hooks(
+            self.run_abortable_hooks(
                 builtin.hooks.ResetHook(p, c) for p, c in self.part_contexts.items()
             )
         # Store the params for use in seek()
         self.configure_params = params
         # Tell everything to get into the right state to Configure
-        self.run_hooks(PreConfigureHook(p, c) for p, c in self.part_contexts.items())
+        self.run_abortable_hooks(
+            PreConfigureHook(p, c) for p, c in self.part_contexts.items()
+        )
         # This will calculate what we need from the generator, possibly a long
         # call
         params.generator.prepare()
@@ -494,7 +508,7 @@ class RunnableController(builtin.controllers.ManagerController):
             params.generator, params.axesToMove, params.breakpoints
         )
         # Get any status from all parts
-        part_info = self.run_hooks(
+        part_info = self.run_abortable_hooks(
             ReportStatusHook(p, c) for p, c in self.part_contexts.items()
         )
         # Run the configure command on all parts, passing them info from
@@ -502,12 +516,12 @@ class RunnableController(builtin.controllers.ManagerController):
         completed_steps = 0
         self.breakpoint_index = 0
         steps_to_do = self.steps_per_run[self.breakpoint_index]
-        part_info = self.run_hooks(
+        part_info = self.run_abortable_hooks(
             ConfigureHook(p, c, completed_steps, steps_to_do, part_info, **kw)
             for p, c, kw in self._part_params()
         )
         # Take configuration info and reflect it as attribute updates
-        self.run_hooks(
+        self.run_abortable_hooks(
             PostConfigureHook(p, c, part_info) for p, c in self.part_contexts.items()
         )
         # Update the completed and configured steps
@@ -564,20 +578,22 @@ class RunnableController(builtin.controllers.ManagerController):
         # type: (Type[ControllerHook]) -> None
 
         # Run all PreRunHooks
-        self.run_hooks(PreRunHook(p, c) for p, c in self.part_contexts.items())
+        self.run_abortable_hooks(
+            PreRunHook(p, c) for p, c in self.part_contexts.items()
+        )
 
-        self.run_hooks(hook(p, c) for p, c in self.part_contexts.items())
+        self.run_abortable_hooks(hook(p, c) for p, c in self.part_contexts.items())
         self.abortable_transition(ss.POSTRUN)
         completed_steps = self.configured_steps.value
         if completed_steps < self.total_steps.value:
             if self.use_breakpoints:
                 self.breakpoint_index += 1
             steps_to_do = self.steps_per_run[self.breakpoint_index]
-            part_info = self.run_hooks(
+            part_info = self.run_abortable_hooks(
                 ReportStatusHook(p, c) for p, c in self.part_contexts.items()
             )
             self.completed_steps.set_value(completed_steps)
-            self.run_hooks(
+            self.run_abortable_hooks(
                 PostRunArmedHook(
                     p, c, completed_steps, steps_to_do, part_info, **kwargs
                 )
@@ -586,7 +602,7 @@ class RunnableController(builtin.controllers.ManagerController):
             self.configured_steps.set_value(completed_steps + steps_to_do)
         else:
             self.completed_steps.set_value(completed_steps)
-            self.run_hooks(
+            self.run_abortable_hooks(
                 PostRunReadyHook(p, c) for p, c in self.part_contexts.items()
             )
 
@@ -724,11 +740,11 @@ class RunnableController(builtin.controllers.ManagerController):
             in_run_steps = completed_steps % self.steps_per_run[self.breakpoint_index]
             steps_to_do = self.steps_per_run[self.breakpoint_index] - in_run_steps
 
-        part_info = self.run_hooks(
+        part_info = self.run_abortable_hooks(
             ReportStatusHook(p, c) for p, c in self.part_contexts.items()
         )
         self.completed_steps.set_value(completed_steps)
-        self.run_hooks(
+        self.run_abortable_hooks(
             SeekHook(p, c, completed_steps, steps_to_do, part_info, **kwargs)
             for p, c, kwargs in self._part_params()
         )
-- 
2.43.0


From 4046da8f24851ae25aff9c21ca7834b40c3621ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:38 +0000
Subject: [PATCH 10/59] fix: a run resumed after a seek to another run ends in
 the right state

---
 .../modules/scanning/controllers/runnablecontroller.py   | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/malcolm/modules/scanning/controllers/runnablecontroller.py b/malcolm/modules/scanning/controllers/runnablecontroller.py
index dcda256..cbc3e02 100644
--- a/malcolm/modules/scanning/controllers/runnablecontroller.py
+++ b/malcolm/modules/scanning/controllers/runnablecontroller.py
@@ -542,16 +542,17 @@ class RunnableController(builtin.controllers.ManagerController):
         Disabled state.
         """
 
-        if self.configured_steps.value < self.total_steps.value:
-            next_state = ss.ARMED
-        else:
-            next_state = ss.FINISHED
         try:
             self.transition(ss.RUNNING)
             hook = RunHook
             going = True
             while going:
                 try:
+                    # A seek while paused might have changed where we will end
+                    if self.configured_steps.value < self.total_steps.value:
+                        next_state = ss.ARMED
+                    else:
+                        next_state = ss.FINISHED
                     self.do_run(hook)
                     self.abortable_transition(next_state)
                 except AbortedError:
-- 
2.43.0


From 587197e877d2fdb9c60adb7c063854b312bceb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:12 +0000
Subject: [PATCH 11/59] fix: disable during the abort of a Block never
 configured ends in Disabled, not Fault

---
 malcolm/modules/scanning/controllers/runnablecontroller.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/malcolm/modules/scanning/controllers/runnablecontroller.py b/malcolm/modules/scanning/controllers/runnablecontroller.py
index cbc3e02..5c748b5 100644
--- a/malcolm/modules/scanning/controllers/runnablecontroller.py
+++ b/malcolm/modules/scanning/controllers/runnablecontroller.py
@@ -650,6 +650,10 @@ class RunnableController(builtin.controllers.ManagerController):
                     # aborting then tell them that we have overtaken them
                     self.abort_queue.put(start_state)
                 abort_queue = self.abort_queue = Queue()
+                if self not in self.part_contexts:
+                    # Never configured, but we can still be overtaken
+                    assert self.process, "No attached process"
+                    self.part_contexts[self] = Context(self.process)
                 for context in self.part_contexts.values():
                     context.stop()
             if original_state not in (ss.READY, ss.ARMED, ss.PAUSED, ss.FINISHED):
-- 
2.43.0


From 838c0cb3b514fa1f05b01e6c5df3a97c67e4ce6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:47 +0000
Subject: [PATCH 12/59] fix: tables of different lengths compare as different
 instead of raising

---
 malcolm/core/table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/malcolm/core/table.py b/malcolm/core/table.py
index 102b68a..23a8494 100644
--- a/malcolm/core/table.py
+++ b/malcolm/core/table.py
@@ -44,6 +44,7 @@ class Table(Serializable):
         if list(self.call_types) != list(other.call_types):
             return True
         for k in self.call_types:
-            if self[k] != other[k]:
+            # numpy will not compare arrays of different lengths
+            if len(self[k]) != len(other[k]) or self[k] != other[k]:
                 return True
         return False
-- 
2.43.0


From 8676d1df1d1c7549a1258769c8bebff8c51458ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:01 +0000
Subject: [PATCH 13/59] fix: a crash or full disk during save does not destroy
 the existing design

---
 malcolm/modules/builtin/controllers/managercontroller.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/builtin/controllers/managercontroller.py b/malcolm/modules/builtin/controllers/managercontroller.py
index 6204648..25f8a89 100644
--- a/malcolm/modules/builtin/controllers/managercontroller.py
+++ b/malcolm/modules/builtin/controllers/managercontroller.py
@@ -445,8 +445,14 @@ class ManagerController(StatefulController):
         filename = self._validated_config_filename(design)
         if filename.startswith("/tmp"):
             self.log.warning(f"Saving to tmp directory {filename}")
-        with open(filename, "w") as f:
+        # Write it beside the existing design then move it into place, so that a
+        # failure or crash while writing leaves the existing design intact
+        tmp_filename = filename + ".tmp"
+        with open(tmp_filename, "w") as f:
             f.write(text)
+            f.flush()
+            os.fsync(f.fileno())
+        os.replace(tmp_filename, filename)
         # Run a sync command to make sure we flush this file to disk
         subprocess.call("sync")
         self._mark_clean(design)
-- 
2.43.0


From 60ad803b9ba04c4a707da17ef9d9c3a7a642a101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:39 +0000
Subject: [PATCH 14/59] fix: modified light does not report what was modified
 before the last save or load

---
 malcolm/modules/builtin/parts/childpart.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/malcolm/modules/builtin/parts/childpart.py b/malcolm/modules/builtin/parts/childpart.py
index f212570..ad4f048 100644
--- a/malcolm/modules/builtin/parts/childpart.py
+++ b/malcolm/modules/builtin/parts/childpart.py
@@ -232,6 +232,7 @@ class ChildPart(Part):
         # Do this first so that any callbacks that happen in the put know
         # not to notify controller
         self.saved_structure = structure
+        self.modified_messages = {}
         for name, params in sorted(iterations.items()):
             # Call each iteration as a separate operation, only putting the
             # ones that need to change
@@ -254,6 +255,8 @@ class ChildPart(Part):
                 if isinstance(attr, Attribute) and get_config_tag(attr.meta.tags):
                     part_structure[k] = attr.value
         self.saved_structure = part_structure
+        # What was modified before is not any more
+        self.modified_messages = {}
         return part_structure
 
     @add_call_types
-- 
2.43.0


From 81629b75bdebdabb25018005a16ebafc7456eb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:39 +0000
Subject: [PATCH 15/59] fix: a loaded table that has not changed since is not
 reported as modified

---
 malcolm/modules/builtin/parts/childpart.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/builtin/parts/childpart.py b/malcolm/modules/builtin/parts/childpart.py
index ad4f048..726d17b 100644
--- a/malcolm/modules/builtin/parts/childpart.py
+++ b/malcolm/modules/builtin/parts/childpart.py
@@ -12,7 +12,7 @@ from typing import (
     Union,
 )
 
-from annotypes import Anno, add_call_types
+from annotypes import Anno, add_call_types, deserialize_object
 
 from malcolm.compat import OrderedDict
 from malcolm.core import (
@@ -27,6 +27,8 @@ from malcolm.core import (
     Response,
     Return,
     Subscribe,
+    Table,
+    TableMeta,
     Unsubscribe,
     Update,
     get_config_tag,
@@ -211,8 +213,9 @@ class ChildPart(Part):
         self, context: AContext, structure: AStructure, init: AInit = False
     ) -> None:
         child = context.block_view(self.mri)
+        structure = OrderedDict(structure)
         iterations: Dict[int, Dict[str, Tuple[Attribute, Any]]] = {}
-        for k, v in structure.items():
+        for k, v in list(structure.items()):
             if init and k == "design":
                 # At init pop out the design so it doesn't get restored here
                 # This stops child devices (like a detector) getting told to
@@ -225,6 +228,11 @@ class ChildPart(Part):
             else:
                 tag = get_config_tag(attr.meta.tags)
                 if tag:
+                    if isinstance(attr.value, Table):
+                        # Tables are stored as dictionaries, so need converting
+                        # to be able to compare them with the current value
+                        meta = deserialize_object(attr.meta.to_dict(), TableMeta)
+                        v = structure[k] = meta.validate(v)
                     iteration = int(tag.split(":")[1])
                     iterations.setdefault(iteration, {})[k] = (attr, v)
                 else:
-- 
2.43.0


From 5e4a02b1fd24b6bdb2de3d4cde684f6023f8a4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:01 +0000
Subject: [PATCH 16/59] fix: a copy of a table attribute follows changes of
 single columns

---
 malcolm/core/models.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/malcolm/core/models.py b/malcolm/core/models.py
index 92d2db5..16dea14 100644
--- a/malcolm/core/models.py
+++ b/malcolm/core/models.py
@@ -406,6 +406,20 @@ class NTTable(AttributeModel):
             self.timeStamp = ts
             self.notifier.add_squashed_change(self.path + ["timeStamp"], ts)
 
+    def apply_change(self, path, *args: Any) -> None:
+        if len(path) == 2 and path[0] == "value" and args:
+            # Only one column changed, the others might be about to
+            name = path[1]
+            columns = {k: self.value[k] for k in self.value.call_types}
+            columns[name] = self.meta.elements[name].validate(args[0])
+            with self.notifier.changes_squashed:
+                self.value = self.meta.table_cls(**columns)
+                self.notifier.add_squashed_change(
+                    self.path + ["value", name], columns[name]
+                )
+        else:
+            super().apply_change(path, *args)
+
 
 @Serializable.register_subclass("epics:nt/NTScalarArray:1.0")
 class NTScalarArray(AttributeModel):
-- 
2.43.0


From 0ee3c166b3bc8caaa6cb65c37b7e29eb1626e4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:21 +0000
Subject: [PATCH 17/59] fix: exported methods pass on their arguments and
 return the result

---
 malcolm/modules/builtin/controllers/managercontroller.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/builtin/controllers/managercontroller.py b/malcolm/modules/builtin/controllers/managercontroller.py
index 25f8a89..ac6cc76 100644
--- a/malcolm/modules/builtin/controllers/managercontroller.py
+++ b/malcolm/modules/builtin/controllers/managercontroller.py
@@ -368,9 +368,9 @@ class ManagerController(StatefulController):
                     ret["setter"] = setter
                 else:
 
-                    def setter_star_args(*args):
+                    def setter_star_args(**kwargs):
                         context = Context(self.process)
-                        context.post(path, *args)
+                        return context.post(path, kwargs)
 
                     ret["setter"] = setter_star_args
 
-- 
2.43.0


From 768d3414ad5d76cabe9508e1bdfaa7d98b1b4fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:21 +0000
Subject: [PATCH 18/59] fix: an export keeps its own label and tags when those
 of the child change

---
 .../builtin/controllers/managercontroller.py  | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/malcolm/modules/builtin/controllers/managercontroller.py b/malcolm/modules/builtin/controllers/managercontroller.py
index ac6cc76..e99991d 100644
--- a/malcolm/modules/builtin/controllers/managercontroller.py
+++ b/malcolm/modules/builtin/controllers/managercontroller.py
@@ -345,6 +345,16 @@ class ManagerController(StatefulController):
         label = camel_to_title(export_name)
         ret = {}
 
+        def update_meta(export):
+            # Strip out tags that we shouldn't export
+            # TODO: need to strip out port tags too...
+            if isinstance(export, AttributeModel):
+                export.meta.set_tags(
+                    without_config_tags(without_group_tags(export.meta.tags))
+                )
+            # Regenerate label
+            export.meta.set_label(label)
+
         def update_field(response):
             if not isinstance(response, Delta):
                 # Return or Error is the end of our subscription, log and ignore
@@ -359,12 +369,6 @@ class ManagerController(StatefulController):
                         context = Context(self.process)
                         context.put(path, v)
 
-                    # Strip out tags that we shouldn't export
-                    # TODO: need to strip out port tags too...
-                    export.meta.set_tags(
-                        without_config_tags(without_group_tags(export.meta.tags))
-                    )
-
                     ret["setter"] = setter
                 else:
 
@@ -374,14 +378,15 @@ class ManagerController(StatefulController):
 
                     ret["setter"] = setter_star_args
 
-                # Regenerate label
-                export.meta.set_label(label)
+                update_meta(export)
                 ret["export"] = export
             else:
                 # Subsequent calls, update it
                 with self.changes_squashed:
                     for change in response.changes:
                         ret["export"].apply_change(*change)
+                        if change[0][0] == "meta":
+                            update_meta(ret["export"])
 
         subscription = Subscribe(path=path, delta=True)
         subscription.set_callback(update_field)
-- 
2.43.0


From 913e71f61ccd16ed734b8c1eb1bee8bb6a3397b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:56 +0000
Subject: [PATCH 19/59] fix: hiding a part that was initially visible
 disconnects the sinks connected to it

---
 malcolm/modules/builtin/parts/childpart.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/builtin/parts/childpart.py b/malcolm/modules/builtin/parts/childpart.py
index 726d17b..21f4ac7 100644
--- a/malcolm/modules/builtin/parts/childpart.py
+++ b/malcolm/modules/builtin/parts/childpart.py
@@ -193,7 +193,9 @@ class ChildPart(Part):
                 self.y = layout.y[i]
                 self.visible = visible
             else:
-                was_visible = self.part_visibility.get(name, False)
+                # We only know about the initial visibility of the parts we were
+                # connected to, so assume the rest were visible
+                was_visible = self.part_visibility.get(name, not first_call)
                 if was_visible and not visible:
                     self.sever_sink_ports(context, ports, name)
                 self.part_visibility[name] = visible
@@ -205,6 +207,7 @@ class ChildPart(Part):
         if self.visible is None:
             self.visible = self.part_visibility.get(self.name, False)
         assert self.visible is not None
+        self.part_visibility[self.name] = self.visible
         ret = LayoutInfo(mri=self.mri, x=self.x, y=self.y, visible=self.visible)
         return [ret]
 
-- 
2.43.0


From 791fe523ff508d5065e2f1c12a8215794cae24f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:47 +0000
Subject: [PATCH 20/59] fix: exported fields match the exports table when a
 child fails to load

---
 malcolm/modules/builtin/controllers/managercontroller.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/builtin/controllers/managercontroller.py b/malcolm/modules/builtin/controllers/managercontroller.py
index e99991d..1c128de 100644
--- a/malcolm/modules/builtin/controllers/managercontroller.py
+++ b/malcolm/modules/builtin/controllers/managercontroller.py
@@ -546,7 +546,10 @@ class ManagerController(StatefulController):
         for source_name, export_name in attributes.get("exports", {}).items():
             source.append(source_name)
             export.append(export_name)
-        self.exports.set_value(ExportTable(source, export))
+        with self.changes_squashed:
+            self.exports.set_value(ExportTable(source, export))
+            # Do this now in case one of the children fails to load
+            self.update_block_endpoints()
         # Set other attributes
         our_values = {
             k: v for k, v in attributes.items() if k in self.our_config_attributes
-- 
2.43.0


From 75a712e16ae278f353390e57ac5ff127cdfee65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:24 +0000
Subject: [PATCH 21/59] fix: a proxy follows fields that are added to and
 removed from the remote Block

---
 malcolm/modules/web/controllers/websocketclientcomms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/web/controllers/websocketclientcomms.py b/malcolm/modules/web/controllers/websocketclientcomms.py
index b8a9bd3..abf1e03 100644
--- a/malcolm/modules/web/controllers/websocketclientcomms.py
+++ b/malcolm/modules/web/controllers/websocketclientcomms.py
@@ -198,10 +198,10 @@ class WebsocketClientComms(builtin.controllers.ClientComms):
         elif len(path) == 1 and path[0] not in ("health", "meta"):
             if len(change) == 1:
                 # Delete a field
-                block.remove_endpoint(path[1])
+                block.remove_endpoint(path[0])
             else:
                 # Change a single field of the block
-                block.set_endpoint_data(path[1], change[1])
+                block.set_endpoint_data(path[0], change[1])
         else:
             block.apply_change(path, *change[1:])
 
-- 
2.43.0


From 8c8d380d584f0d6d3d144315b7738a125c3fd3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:24 +0000
Subject: [PATCH 22/59] fix: a proxy passes on the changes of a Delta in one go

---
 malcolm/modules/web/controllers/websocketclientcomms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malcolm/modules/web/controllers/websocketclientcomms.py b/malcolm/modules/web/controllers/websocketclientcomms.py
index abf1e03..d53bf84 100644
--- a/malcolm/modules/web/controllers/websocketclientcomms.py
+++ b/malcolm/modules/web/controllers/websocketclientcomms.py
@@ -181,7 +181,7 @@ class WebsocketClientComms(builtin.controllers.ClientComms):
         self, response: Response, block: BlockModel, done_queue: Queue
     ) -> None:
         try:
-            with self.changes_squashed:
+            with block.notifier.changes_squashed:
                 for change in response.changes:
                     self._handle_change(block, change)
         except Exception:
-- 
2.43.0


From 8ee7718663925b0467b40b832e35fe863d8df237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:24 +0000
Subject: [PATCH 23/59] fix: a websocket client is Ready only when it has
 connected

---
 .../web/controllers/websocketclientcomms.py      | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/malcolm/modules/web/controllers/websocketclientcomms.py b/malcolm/modules/web/controllers/websocketclientcomms.py
index d53bf84..8aa9b7c 100644
--- a/malcolm/modules/web/controllers/websocketclientcomms.py
+++ b/malcolm/modules/web/controllers/websocketclientcomms.py
@@ -69,6 +69,8 @@ class WebsocketClientComms(builtin.controllers.ClientComms):
     def _start_client(self):
         # Called from cothread
         if self._conn is None:
+            # What the last connection put on its queue is not for us
+            self._connected_queue = Queue()
             IOLoopHelper.call(self.recv_loop)
             self._connected_queue.get(timeout=self.connect_timeout)
             root_subscribe = Subscribe(path=[".", "blocks", "value"])
@@ -78,16 +80,19 @@ class WebsocketClientComms(builtin.controllers.ClientComms):
     @gen.coroutine
     def recv_loop(self):
         # Called from tornado
+        connected_queue = self._connected_queue
         url = "ws://%s:%d/ws" % (self.hostname, self.port)
         self._conn = yield websocket_connect(
             url, connect_timeout=self.connect_timeout - 0.5
         )
-        cothread.Callback(self._connected_queue.put, None)
+        cothread.Callback(connected_queue.put, None)
         while True:
             message = yield self._conn.read_message()
             if message is None:
                 self._conn = None
-                cothread.Callback(self._report_fault)
+                # These will not be answered
+                requests, self._request_lookup = self._request_lookup, {}
+                cothread.Callback(self._report_fault, connected_queue, requests)
                 return
             self.on_message(message)
 
@@ -116,14 +121,13 @@ class WebsocketClientComms(builtin.controllers.ClientComms):
             # error messages about 'HTTPRequest' object has no attribute 'path'
             self.log.exception("on_message(%r) failed", message)
 
-    def _report_fault(self):
+    def _report_fault(self, connected_queue: Queue, requests: Dict[int, Request]):
         # Called in cothread thread
         with self._lock:
             if self.state.value != self.state_set.DISABLING:
                 self.transition(self.state_set.FAULT, "Server disconnected")
-        self._connected_queue.put(None)
-        for id in list(self._request_lookup):
-            request = self._request_lookup.pop(id)
+        connected_queue.put(None)
+        for request in requests.values():
             response = Error(
                 id=request.id, message=ResponseError("Server disconnected")
             )
-- 
2.43.0


From 4627b77ee4859adcb65760c6e2483a7abeb0b151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:24 +0000
Subject: [PATCH 24/59] fix: requests made of a websocket client that is not
 connected fail

---
 .../web/controllers/websocketclientcomms.py   | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/malcolm/modules/web/controllers/websocketclientcomms.py b/malcolm/modules/web/controllers/websocketclientcomms.py
index 8aa9b7c..ada3c3a 100644
--- a/malcolm/modules/web/controllers/websocketclientcomms.py
+++ b/malcolm/modules/web/controllers/websocketclientcomms.py
@@ -145,8 +145,8 @@ class WebsocketClientComms(builtin.controllers.ClientComms):
             self._conn = None
 
     def _update_remote_blocks(self, response):
-        response = deserialize_object(response, Update)
-        cothread.Callback(self.remote_blocks.set_value, response.value)
+        if isinstance(response, Update):
+            cothread.Callback(self.remote_blocks.set_value, response.value)
 
     def do_disable(self):
         super().do_disable()
@@ -272,7 +272,14 @@ class WebsocketClientComms(builtin.controllers.ClientComms):
         # Called in tornado thread
         request.id = self._next_id
         self._next_id += 1
-        self._request_lookup[request.id] = request
-        message = json_encode(request)
-        self.log.debug("Sending message %s", message)
-        self._conn.write_message(message)
+        try:
+            message = json_encode(request)
+            self.log.debug("Sending message %s", message)
+            assert self._conn, "Server disconnected"
+            self._conn.write_message(message)
+        except Exception as e:
+            # There will be no response to this
+            response = Error(id=request.id, message=ResponseError(str(e)))
+            cothread.Callback(request.callback, response)
+        else:
+            self._request_lookup[request.id] = request
-- 
2.43.0


From f4864bed6741fb864c6412120ea77e03f3eda8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:40 +0000
Subject: [PATCH 25/59] fix: websocket responses are sent in the order they are
 made

---
 .../modules/web/parts/websocketserverpart.py  | 28 ++++++++++++++-----
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/malcolm/modules/web/parts/websocketserverpart.py b/malcolm/modules/web/parts/websocketserverpart.py
index fcc8914..40198a1 100644
--- a/malcolm/modules/web/parts/websocketserverpart.py
+++ b/malcolm/modules/web/parts/websocketserverpart.py
@@ -3,7 +3,7 @@ import logging
 import os
 import socket
 import struct
-from typing import Dict, Optional
+from typing import Dict, List, Optional
 
 import cothread
 from annotypes import Anno, add_call_types, deserialize_object, json_decode, json_encode
@@ -20,6 +20,7 @@ from malcolm.core import (
     Queue,
     Request,
     Response,
+    Spawned,
     Subscribe,
     Unsubscribe,
     Update,
@@ -68,6 +69,7 @@ class MalcWebSocketHandler(WebSocketHandler):
     _writeable = None
     _queue: Optional[Queue] = None
     _counter = None
+    _responses: List[Response]
 
     def initialize(self, registrar=None, validators=()):
         self._registrar = registrar
@@ -75,6 +77,8 @@ class MalcWebSocketHandler(WebSocketHandler):
         self._id_to_mri = {}
         self._validators = validators
         self._queue = Queue()
+        # Responses that need to be sent, in order
+        self._responses = []
         self._counter = 0
 
     def on_message(self, message):
@@ -126,12 +130,22 @@ class MalcWebSocketHandler(WebSocketHandler):
 
     def on_response(self, response):
         # called from cothread
-        IOLoopHelper.call(self._on_response, response)
-        # Wait for completion once every 10 message
-        self._counter += 1
-        if self._counter % 10 == 0:
-            for _ in range(10):
-                self._queue.get()
+        # This mustn't block, or a later response could overtake those which
+        # are waiting to be made after this one
+        self._responses.append(response)
+        if len(self._responses) == 1:
+            Spawned(self._send_responses, (), {})
+
+    def _send_responses(self):
+        # called from cothread
+        while self._responses:
+            IOLoopHelper.call(self._on_response, self._responses[0])
+            # Wait for completion once every 10 message
+            self._counter += 1
+            if self._counter % 10 == 0:
+                for _ in range(10):
+                    self._queue.get()
+            self._responses.pop(0)
 
     def _on_response(self, response: Response) -> None:
         # called from tornado thread
-- 
2.43.0


From b180ca07304ab7c8ad833eefb507df9e8ad06b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:40 +0000
Subject: [PATCH 26/59] fix: proxies follow the server again after a websocket
 client is reset

---
 .../web/controllers/websocketclientcomms.py    | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/web/controllers/websocketclientcomms.py b/malcolm/modules/web/controllers/websocketclientcomms.py
index ada3c3a..d4ce267 100644
--- a/malcolm/modules/web/controllers/websocketclientcomms.py
+++ b/malcolm/modules/web/controllers/websocketclientcomms.py
@@ -7,6 +7,7 @@ from tornado.websocket import WebSocketClientConnection, websocket_connect
 
 from malcolm.core import (
     DEFAULT_TIMEOUT,
+    Alarm,
     BlockMeta,
     BlockModel,
     Delta,
@@ -56,6 +57,8 @@ class WebsocketClientComms(builtin.controllers.ClientComms):
         self._request_lookup: Dict[int, Request] = {}
         self._next_id = 1
         self._conn: Optional[WebSocketClientConnection] = None
+        # {mri: block} of the proxies we keep in sync
+        self._proxies: Dict[str, BlockModel] = {}
         # Create read-only attribute for the remotely reachable blocks
         self.remote_blocks = TableMeta.from_table(
             BlockTable, "Remotely reachable blocks"
@@ -76,6 +79,9 @@ class WebsocketClientComms(builtin.controllers.ClientComms):
             root_subscribe = Subscribe(path=[".", "blocks", "value"])
             root_subscribe.set_callback(self._update_remote_blocks)
             IOLoopHelper.call(self._send_request, root_subscribe)
+            # Any proxies from a previous connection need syncing again
+            for mri, block in self._proxies.items():
+                self._subscribe_proxy(mri, block)
 
     @gen.coroutine
     def recv_loop(self):
@@ -164,6 +170,11 @@ class WebsocketClientComms(builtin.controllers.ClientComms):
             mri (str): The mri for the remote block
             block (BlockModel): The local proxy Block to keep in sync
         """
+        self._proxies[mri] = block
+        done_queue = self._subscribe_proxy(mri, block)
+        done_queue.get(timeout=DEFAULT_TIMEOUT)
+
+    def _subscribe_proxy(self, mri: str, block: BlockModel) -> Queue:
         # Send a root Subscribe to the server
         subscribe = Subscribe(path=[mri], delta=True)
         done_queue = Queue()
@@ -171,15 +182,18 @@ class WebsocketClientComms(builtin.controllers.ClientComms):
         def handle_response(response):
             # Called from tornado
             if not isinstance(response, Delta):
-                # Return or Error is the end of our subscription, log and ignore
+                # Return or Error is the end of our subscription
                 self.log.debug("Proxy got response %r", response)
+                if isinstance(response, Error):
+                    message = str(response.message)
+                    block.health.set_value(message, alarm=Alarm.disconnected(message))
                 done_queue.put(None)
             else:
                 cothread.Callback(self._handle_response, response, block, done_queue)
 
         subscribe.set_callback(handle_response)
         IOLoopHelper.call(self._send_request, subscribe)
-        done_queue.get(timeout=DEFAULT_TIMEOUT)
+        return done_queue
 
     def _handle_response(
         self, response: Response, block: BlockModel, done_queue: Queue
-- 
2.43.0


From 864d4a437c6afac2d9f7becaa7916847a84e0a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:32 +0000
Subject: [PATCH 27/59] fix: a proxy follows changes to the metas of table
 columns and parameters

---
 malcolm/core/models.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/malcolm/core/models.py b/malcolm/core/models.py
index 16dea14..aba89de 100644
--- a/malcolm/core/models.py
+++ b/malcolm/core/models.py
@@ -132,7 +132,11 @@ class Model(Serializable):
         """Take a single change from a Delta and apply it to this model"""
         if len(path) > 1:
             # This is for a child
-            self[path[0]].apply_change(path[1:], *args)
+            child, path = self[path[0]], path[1:]
+            while isinstance(child, dict) and len(path) > 1:
+                # This is for one of a dict of children, like TableMeta elements
+                child, path = child[path[0]], path[1:]
+            child.apply_change(path, *args)
         else:
             # This is for us
             assert (
-- 
2.43.0


From 286e1f0218dbd24d307f436af377f76ffe2746ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:18 +0000
Subject: [PATCH 28/59] fix: a websocket client that is disabled as it is
 disconnected answers requests

---
 malcolm/modules/web/controllers/websocketclientcomms.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/web/controllers/websocketclientcomms.py b/malcolm/modules/web/controllers/websocketclientcomms.py
index d4ce267..c9a46a0 100644
--- a/malcolm/modules/web/controllers/websocketclientcomms.py
+++ b/malcolm/modules/web/controllers/websocketclientcomms.py
@@ -130,8 +130,13 @@ class WebsocketClientComms(builtin.controllers.ClientComms):
     def _report_fault(self, connected_queue: Queue, requests: Dict[int, Request]):
         # Called in cothread thread
         with self._lock:
-            if self.state.value != self.state_set.DISABLING:
-                self.transition(self.state_set.FAULT, "Server disconnected")
+            # This might have been disabled or reset since it was disconnected
+            ss = self.state_set
+            if (
+                connected_queue == self._connected_queue
+                and self.state.value not in (ss.DISABLING, ss.DISABLED)
+            ):
+                self.transition(ss.FAULT, "Server disconnected")
         connected_queue.put(None)
         for request in requests.values():
             response = Error(
-- 
2.43.0


From 5a043de8ca2698f177ce27633db4abf1a671bcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:43 +0000
Subject: [PATCH 29/59] fix: an error from a REST request says what went wrong

---
 malcolm/modules/web/parts/restfulserverpart.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/web/parts/restfulserverpart.py b/malcolm/modules/web/parts/restfulserverpart.py
index 9b93c8d..58d8928 100644
--- a/malcolm/modules/web/parts/restfulserverpart.py
+++ b/malcolm/modules/web/parts/restfulserverpart.py
@@ -58,7 +58,8 @@ class RestfulHandler(RequestHandler):
             self.finish(message + "\n")
         else:
             if isinstance(response, Error):
-                message = response.message
+                # The reason in the status line has to be a string on one line
+                message = " ".join(str(response.message).splitlines())
             else:
                 message = f"Unknown response {type(response)}"
             self.set_status(500, message)
-- 
2.43.0


From e5f910e337fc5d0d6406b3b626c0938d308053d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:52 +0000
Subject: [PATCH 30/59] fix: PandA tables keep narrow columns that do not start
 at the first bit

---
 malcolm/modules/pandablocks/parts/pandatablepart.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/pandablocks/parts/pandatablepart.py b/malcolm/modules/pandablocks/parts/pandatablepart.py
index 9313e6d..ac203ae 100644
--- a/malcolm/modules/pandablocks/parts/pandatablepart.py
+++ b/malcolm/modules/pandablocks/parts/pandatablepart.py
@@ -117,10 +117,12 @@ class PandATablePart(PandAFieldPart):
                 column_value = column_value.seq
             # Left shift the value so it is aligned with the int columns
             _, mask = get_nbits_mask(field_data)
-            shifted_column = (column_value & mask) << field_data.bits_lo % 32
+            # doing it at the width of the ints rather than that of the column
+            unshifted_column = column_value.astype(np.uint32) & np.uint32(mask)
+            shifted_column = unshifted_column << np.uint32(field_data.bits_lo % 32)
             # Or it with what we currently have
             column_index = get_column_index(field_data)
-            int_matrix[..., column_index] |= shifted_column.astype(np.uint32)
+            int_matrix[..., column_index] |= shifted_column
         # Flatten it to a list of uints
         int_values = int_matrix.reshape((nrows * self.ints_per_row,))
         return int_values
@@ -146,6 +148,10 @@ class PandATablePart(PandAFieldPart):
             elif nbits == 1:
                 column_value = shifted_column.astype(bool)
             else:
+                if field_data.signed:
+                    # Extend the sign to the bits above the column
+                    sign = 1 << (nbits - 1)
+                    shifted_column = (shifted_column.astype(np.int64) ^ sign) - sign
                 # View as the correct type
                 dtype = self.meta.elements[column_name].dtype
                 column_value = shifted_column.astype(dtype)
-- 
2.43.0


From deebeee34ef1dcf16179dca0247baf46ff944747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:52 +0000
Subject: [PATCH 31/59] fix: a label that the PandA refuses is not shown

---
 malcolm/modules/pandablocks/parts/pandalabelpart.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/pandablocks/parts/pandalabelpart.py b/malcolm/modules/pandablocks/parts/pandalabelpart.py
index 486c55f..bf32c28 100644
--- a/malcolm/modules/pandablocks/parts/pandalabelpart.py
+++ b/malcolm/modules/pandablocks/parts/pandalabelpart.py
@@ -23,5 +23,7 @@ class PandALabelPart(builtin.parts.LabelPart):
         super().set_label(value, ts)
 
     def set_label(self, value, ts=None):
+        # Only show the label once the PandA has accepted it
+        value = self.attr.meta.validate(value)
+        self.client.set_field("*METADATA", self.metadata_field, value)
         super().set_label(value, ts)
-        self.client.set_field("*METADATA", self.metadata_field, self.attr.value)
-- 
2.43.0


From 1aab105aea38a2a9cfd185bcfc7f022b99448edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:12 +0000
Subject: [PATCH 32/59] fix: resetting a PandA connects to it again

---
 .../controllers/pandamanagercontroller.py     | 35 ++++++++++++-------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/malcolm/modules/pandablocks/controllers/pandamanagercontroller.py b/malcolm/modules/pandablocks/controllers/pandamanagercontroller.py
index ad480c1..ef237d1 100644
--- a/malcolm/modules/pandablocks/controllers/pandamanagercontroller.py
+++ b/malcolm/modules/pandablocks/controllers/pandamanagercontroller.py
@@ -75,6 +75,8 @@ class PandAManagerController(builtin.controllers.ManagerController):
         # Filled in on reset
         self._stop_queue = None
         self._poll_spawned = None
+        # Whether the PandA was there so we could init everything
+        self._init_called = False
         # Poll period reporting
         self.last_poll_period = NumberMeta(
             "float64",
@@ -91,18 +93,19 @@ class PandAManagerController(builtin.controllers.ManagerController):
         # start the poll loop and make block parts first to fill in our parts
         # before calling _set_block_children()
         self.start_poll_loop()
+        self._init_called = True
         super().do_init()
 
     def start_poll_loop(self):
-        # queue to listen for stop events
-        if not self._client.started:
+        if self._poll_spawned is None or self._poll_spawned.ready():
+            # Not running, or stopped because it failed. In that case we don't
+            # know what happened to the connection, so make a new one
+            self.stop_poll_loop()
+            # queue to listen for stop events
             self._stop_queue = Queue()
-            if self._client.started:
-                self._client.stop()
             self._client.start(self.process.spawn, socket)
-        if not self._child_controllers:
-            self._make_child_controllers()
-        if self._poll_spawned is None:
+            if not self._child_controllers:
+                self._make_child_controllers()
             self._poll_spawned = self.process.spawn(self._poll_loop)
 
     def do_disable(self):
@@ -111,7 +114,12 @@ class PandAManagerController(builtin.controllers.ManagerController):
 
     def do_reset(self):
         self.start_poll_loop()
-        super().do_reset()
+        if self._init_called:
+            super().do_reset()
+        else:
+            # PandA wasn't there when we were started
+            self._init_called = True
+            super().do_init()
 
     def _poll_loop(self):
         """At self.poll_period poll for changes"""
@@ -158,7 +166,9 @@ class PandAManagerController(builtin.controllers.ManagerController):
             self._client.stop()
 
     def _make_child_controllers(self):
-        self._child_controllers = {}
+        # Get everything we need from the PandA before we store any of it, so
+        # that we can be called again if that fails
+        child_controllers = {}
         controllers = []
         child_parts = []
         pos_names = []
@@ -180,18 +190,19 @@ class PandAManagerController(builtin.controllers.ManagerController):
                 controller, child_part = self._make_child_block(block_name, block_data)
                 controllers += [controller]
                 child_parts += [child_part]
-                self._child_controllers[block_name] = controller
+                child_controllers[block_name] = controller
                 # If there is only one, make an alias with "1" appended for
                 # *METADATA.LABEL lookup
                 if block_data.number == 1:
-                    self._child_controllers[block_name + "1"] = controller
+                    child_controllers[block_name + "1"] = controller
+        pcap_bit_fields = self._client.get_pcap_bits_fields()
 
+        self._child_controllers = child_controllers
         self.process.add_controllers(controllers)
         for part in child_parts:
             self.add_part(part)
 
         # Create the busses from their initial sets of values
-        pcap_bit_fields = self._client.get_pcap_bits_fields()
         self.busses.create_busses(pcap_bit_fields, pos_names)
         # Handle the pos_names that busses needs
         self._bus_fields = set(pos_names)
-- 
2.43.0


From 42958ff34eb96ad3fd69069ad54e975f6b6d6ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:08 +0000
Subject: [PATCH 33/59] fix: setting the bits or positions of a PandA does not
 undo changes made meanwhile

---
 .../pandablocks/parts/pandabussespart.py      | 30 +++++++++++++++++--
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/malcolm/modules/pandablocks/parts/pandabussespart.py b/malcolm/modules/pandablocks/parts/pandabussespart.py
index cac6063..76cfa05 100644
--- a/malcolm/modules/pandablocks/parts/pandabussespart.py
+++ b/malcolm/modules/pandablocks/parts/pandabussespart.py
@@ -38,6 +38,18 @@ def make_updated_table(old_value: Table, column_changes: Dict[str, List[Any]]) -
     return new_value
 
 
+def rebase_column_changes(
+    column_changes: Dict[str, List[Any]], old_value: Table, new_value: Table
+) -> Dict[str, List[Any]]:
+    # Only the rows that differ from the old are changes to the new
+    rebased: Dict[str, List[Any]] = {}
+    for k, column in column_changes.items():
+        for i, v in enumerate(column):
+            if old_value[k][i] != v:
+                update_column(rebased, k, new_value)[i] = v
+    return rebased
+
+
 class PandABussesPart(Part):
     # Tables to make metas from
     bits_table_cls: Type[BitsTable] = BitsTable
@@ -105,11 +117,14 @@ class PandABussesPart(Part):
 
     def set_bits(self, value: BitsTable) -> None:
         assert self.bits, "No bits"
-        column_changes = self.get_column_changes(self.bits.value, value)
+        old_value = self.bits.value
+        column_changes = self.get_column_changes(old_value, value)
         if "capture" in column_changes:
             # If capture changed, set PCAP bits
             field_values = {}
             for bit in value.name:
+                if bit not in self._bit_indexes:
+                    continue
                 capture = column_changes["capture"][self._bit_indexes[bit]]
                 capture_field = self._bit_pcap_fields[bit]
                 if capture:
@@ -120,17 +135,22 @@ class PandABussesPart(Part):
                     # If not already set, set it to No
                     field_values.setdefault(capture_field, "No")
             self._client.set_fields(field_values)
+        # The table may have been updated while we were setting the fields
+        column_changes = rebase_column_changes(
+            column_changes, old_value, self.bits.value
+        )
         new_value = make_updated_table(self.bits.value, column_changes)
         self.bits.set_value(new_value)
 
     def set_positions(self, value: PositionsTable) -> None:
         assert self.positions, "No positions"
-        column_changes = self.get_column_changes(self.positions.value, value)
+        old_value = self.positions.value
+        column_changes = self.get_column_changes(old_value, value)
         for attr in ("capture", "scale", "offset", "units"):
             if attr in column_changes:
                 # If attribute changed, set field bits
                 field_values = {}
-                for i, name in enumerate(self.positions.value.name):
+                for i, name in enumerate(old_value.name):
                     field = f"{name}.{attr.upper()}"
                     value = column_changes[attr][i]
                     if attr == "capture":
@@ -138,6 +158,10 @@ class PandABussesPart(Part):
                         value = value.value
                     field_values[field] = value
                 self._client.set_fields(field_values)
+        # The table may have been updated while we were setting the fields
+        column_changes = rebase_column_changes(
+            column_changes, old_value, self.positions.value
+        )
         new_value = make_updated_table(self.positions.value, column_changes)
         self.positions.set_value(new_value)
 
-- 
2.43.0


From 9a1c8a1b2681105197c02e338c92ef034730e673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:58 +0000
Subject: [PATCH 34/59] fix: text from a PandA that is cut in the middle of a
 character is put together

---
 malcolm/modules/pandablocks/pandablocksclient.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/pandablocks/pandablocksclient.py b/malcolm/modules/pandablocks/pandablocksclient.py
index 14a576a..48200be 100644
--- a/malcolm/modules/pandablocks/pandablocksclient.py
+++ b/malcolm/modules/pandablocks/pandablocksclient.py
@@ -1,3 +1,4 @@
+import codecs
 import logging
 from collections import OrderedDict, namedtuple
 
@@ -132,16 +133,18 @@ class PandABlocksClient:
 
     def _get_lines(self):
         buf = ""
+        # What we get from the socket might end in the middle of a character
+        decoder = codecs.getincrementaldecoder("utf-8")()
         while True:
             lines = buf.split("\n")
             for line in lines[:-1]:
                 yield line
             buf = lines[-1]
             # Get something new from the socket
-            rx = self._socket.recv(4096).decode("utf-8")
+            rx = self._socket.recv(4096)
             if not rx:
                 break
-            buf += rx
+            buf += decoder.decode(rx)
 
     def _respond(self, resp):
         """Respond to the person waiting"""
-- 
2.43.0


From 27596823aeb91022bb0de4eaf09440b107039041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:27 +0000
Subject: [PATCH 35/59] fix: an operation that is overtaken by another leaves
 the state of the Block to it

---
 .../builtin/controllers/statefulcontroller.py      | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/builtin/controllers/statefulcontroller.py b/malcolm/modules/builtin/controllers/statefulcontroller.py
index 4d48387..5adc2df 100644
--- a/malcolm/modules/builtin/controllers/statefulcontroller.py
+++ b/malcolm/modules/builtin/controllers/statefulcontroller.py
@@ -2,6 +2,7 @@ from typing import Dict, Union
 
 from malcolm.compat import OrderedDict
 from malcolm.core import (
+    AbortedError,
     Alarm,
     AttributeModel,
     ChoiceMeta,
@@ -39,6 +40,8 @@ class StatefulController(BasicController):
     def __init__(self, mri: AMri, description: ADescription = "") -> None:
         super().__init__(mri, description)
         self._children_writeable: ChildrenWriteable = {}
+        # Identifies the last thing passed to try_stateful_function()
+        self._stateful_function: object = None
         self.state = ChoiceMeta(
             "StateMachine State of Block",
             self.state_set.possible_states,
@@ -150,9 +153,17 @@ class StatefulController(BasicController):
                 raise TypeError(f"Cannot transition from {initial_state} to {state}")
 
     def try_stateful_function(self, start_state, end_state, func, *args, **kwargs):
+        # Another function (like disable) might be called while this one is running.
+        # If so, then the state is now for that function to decide
+        this_function = object()
         try:
             self.transition(start_state)
+            self._stateful_function = this_function
             func(*args, **kwargs)
+            if self._stateful_function is not this_function:
+                raise AbortedError(
+                    f"Interrupted going to {end_state}, now {self.state.value}"
+                )
             self.transition(end_state)
         except Exception as e:  # pylint:disable=broad-except
             self.log.debug(
@@ -164,7 +175,8 @@ class StatefulController(BasicController):
                 end_state,
                 exc_info=True,
             )
-            self.go_to_error_state(e)
+            if self._stateful_function is this_function:
+                self.go_to_error_state(e)
             raise
 
     def add_block_field(self, name, child, writeable_func, needs_context):
-- 
2.43.0


From 8c9d988c61246e173e9f2a85c9fb4635d197559d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:27 +0000
Subject: [PATCH 36/59] fix: an optional CA action is shown again once its PVs
 are there

---
 malcolm/modules/ca/parts/caactionpart.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/malcolm/modules/ca/parts/caactionpart.py b/malcolm/modules/ca/parts/caactionpart.py
index fb7b2ac..f7b4216 100644
--- a/malcolm/modules/ca/parts/caactionpart.py
+++ b/malcolm/modules/ca/parts/caactionpart.py
@@ -91,9 +91,18 @@ class CAActionPart(Part):
             if self.throw:
                 raise e
             else:
-                self.method.meta.set_tags(
-                    list(self.method.meta.tags) + [tags.method_hidden()]
-                )
+                self.set_hidden(True)
+        else:
+            if not self.throw:
+                # Might have been hidden when we last tried
+                self.set_hidden(False)
+
+    def set_hidden(self, hidden):
+        hidden_tag = tags.method_hidden()
+        new_tags = [t for t in self.method.meta.tags if t != hidden_tag]
+        if hidden:
+            new_tags.append(hidden_tag)
+        self.method.meta.set_tags(new_tags)
 
     def wait_for_good_status(self, deadline):
         q = Queue()
-- 
2.43.0


From 9b67a8d2c63064fe49fe7c3b60455847b389c49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:27 +0000
Subject: [PATCH 37/59] fix: a table of waveform PVs follows each of them

---
 malcolm/modules/ca/util.py | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/malcolm/modules/ca/util.py b/malcolm/modules/ca/util.py
index b5c0bc8..b73663b 100644
--- a/malcolm/modules/ca/util.py
+++ b/malcolm/modules/ca/util.py
@@ -128,6 +128,12 @@ class CABase(Loggable):
             value = self.attr.meta.validate(value)
             self.attr.set_value_alarm_ts(value, alarm, ts)
 
+    def _update_table(self):
+        # Columns arrive one at a time, so if the length is changing then wait
+        # until we have the rest of them
+        if not self._local_value.ok or self._local_value.is_even():
+            self._update_value(self._local_value)
+
     def reconnect(self):
         pass
 
@@ -156,12 +162,9 @@ class CABase(Loggable):
         now = time.time()
         delta = now - self._update_after
         if value_index is not None and hasattr(self, "name_list"):
-            value_key = self.name_list[value_index]
-            self._local_value[value_key] = value
+            self._local_value.set_column(self.name_list[value_index], value)
             self._local_value.raw_stamp = getattr(value, "raw_stamp", (None, None))
-            self._local_value.ok = self._local_value.ok or value.ok
-            self._local_value.severity = max(self._local_value.severity, value.severity)
-            self._update_value(self._local_value)
+            self._update_table()
         else:
             self._update_value(value)
         # See how long to sleep for to make sure we don't get more than one
@@ -278,6 +281,24 @@ class CATable(dict):
     severity = 0
     raw_stamp = (None, None)
 
+    def __init__(self):
+        super().__init__()
+        # column name -> (ok, severity) of the last update for it
+        self._status = {}
+
+    def set_column(self, name, value):
+        """Store the new value of a column, and work out the status of the whole
+        table, which is only ok if all of its columns are"""
+        if value.ok:
+            self[name] = value
+        self._status[name] = (value.ok, value.severity if value.ok else 0)
+        self.ok = all(ok for ok, _ in self._status.values())
+        self.severity = max(severity for _, severity in self._status.values())
+
+    def is_even(self):
+        """Are all the columns the same length?"""
+        return len(set(len(column) for column in self.values())) <= 1
+
 
 class WaveformTableAttribute(CABase):
     def __init__(
@@ -347,10 +368,8 @@ class WaveformTableAttribute(CABase):
         for ind, value in enumerate(ca_values):
             if self.on_connect:
                 self.on_connect(value)
-            self._local_value[self.name_list[ind]] = value
-            self._local_value.severity = max(self._local_value.severity, value.severity)
-            self._local_value.ok = self._local_value.ok or value.ok
-        self._update_value(self._local_value)
+            self._local_value.set_column(self.name_list[ind], value)
+        self._update_table()
         # now setup monitors for all the things
         self.monitor = catools.camonitor(
             self.pv_list,
-- 
2.43.0


From d4a6f7b7e44e7cdcda742657015e8f568a028ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:27 +0000
Subject: [PATCH 38/59] fix: an optional PV that is not there does not stop a
 Block starting

---
 malcolm/modules/ca/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malcolm/modules/ca/util.py b/malcolm/modules/ca/util.py
index b73663b..097bebd 100644
--- a/malcolm/modules/ca/util.py
+++ b/malcolm/modules/ca/util.py
@@ -245,7 +245,7 @@ class CAAttribute(CABase):
             self.throw,
         )
 
-        if self.on_connect:
+        if self.on_connect and ca_values[0].ok:
             self.on_connect(ca_values[0])
         self._update_value(ca_values[0])
         # now setup monitor on rbv
-- 
2.43.0


From 85fc20330f2fe567517ab914220ed87bfac8af64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:27 +0000
Subject: [PATCH 39/59] fix: the readback of a caput does not replace a later
 update of its PV

---
 malcolm/modules/ca/util.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/ca/util.py b/malcolm/modules/ca/util.py
index 097bebd..3f6ba03 100644
--- a/malcolm/modules/ca/util.py
+++ b/malcolm/modules/ca/util.py
@@ -1,5 +1,5 @@
 import time
-from typing import Any, Callable, Optional, Sequence, Type, Union
+from typing import Any, Callable, Optional, Sequence, Tuple, Type, Union
 
 from annotypes import Anno, Array
 
@@ -91,6 +91,8 @@ class CABase(Loggable):
         self.attr = meta.create_attribute_model()
         # Camonitor subscription
         self.monitor = None
+        # Timestamp of the last thing it gave us, None if it was a disconnect
+        self._monitor_stamp: Optional[Tuple[int, int]] = None
         self._update_after = 0
         self._local_value: Optional[CATable] = None
         self._user_callback = callback
@@ -166,6 +168,7 @@ class CABase(Loggable):
             self._local_value.raw_stamp = getattr(value, "raw_stamp", (None, None))
             self._update_table()
         else:
+            self._monitor_stamp = getattr(value, "raw_stamp", None)
             self._update_value(value)
         # See how long to sleep for to make sure we don't get more than one
         # update at < min_delta interval
@@ -273,6 +276,11 @@ class CAAttribute(CABase):
             datatype=self.datatype,
             throw=self.throw,
         )
+        if self._monitor_stamp:
+            # The monitor is connected. If it has told us about a later change, or
+            # the caget failed, then what it told us is better than what we have
+            if not value.ok or value.raw_stamp < self._monitor_stamp:
+                return
         self._update_value(value)
 
 
-- 
2.43.0


From 23bd7b89ad8b302e5ec6a7c3b5df20d98dca63a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:27 +0000
Subject: [PATCH 40/59] fix: a Block disabled while its PVs are connecting does
 not follow them

---
 malcolm/modules/ca/util.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/malcolm/modules/ca/util.py b/malcolm/modules/ca/util.py
index 3f6ba03..7f03b60 100644
--- a/malcolm/modules/ca/util.py
+++ b/malcolm/modules/ca/util.py
@@ -91,6 +91,8 @@ class CABase(Loggable):
         self.attr = meta.create_attribute_model()
         # Camonitor subscription
         self.monitor = None
+        # Increments on each disconnect, so reconnect() knows if it was overtaken
+        self._disconnects = 0
         # Timestamp of the last thing it gave us, None if it was a disconnect
         self._monitor_stamp: Optional[Tuple[int, int]] = None
         self._update_after = 0
@@ -98,6 +100,7 @@ class CABase(Loggable):
         self._user_callback = callback
 
     def disconnect(self):
+        self._disconnects += 1
         if self.monitor is not None:
             if hasattr(self.monitor, "__len__"):
                 for monitor in self.monitor:
@@ -234,6 +237,7 @@ class CAAttribute(CABase):
     def reconnect(self):
         # release old monitor
         self.disconnect()
+        disconnects = self._disconnects
         # make the connection in cothread's thread, use caget for initial value
         pvs = [self.rbv]
         if self.pv and self.pv != self.rbv:
@@ -247,6 +251,9 @@ class CAAttribute(CABase):
             ),
             self.throw,
         )
+        if disconnects != self._disconnects:
+            # We have been disabled while connecting, so don't update any more
+            return
 
         if self.on_connect and ca_values[0].ok:
             self.on_connect(ca_values[0])
@@ -362,6 +369,7 @@ class WaveformTableAttribute(CABase):
     def reconnect(self):
         # release old monitor
         self.disconnect()
+        disconnects = self._disconnects
         # make the connection in cothread's thread, use caget for initial
         ca_values = assert_connected(
             catools.caget(
@@ -372,6 +380,9 @@ class WaveformTableAttribute(CABase):
             ),
             self.throw,
         )
+        if disconnects != self._disconnects:
+            # We have been disabled while connecting, so don't update any more
+            return
 
         for ind, value in enumerate(ca_values):
             if self.on_connect:
-- 
2.43.0


From c89398a1828b76544b492b8d9442c07f0d1f7e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:05 +0000
Subject: [PATCH 41/59] fix: a Block that may not be published is not published
 while it starts

---
 malcolm/core/process.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/malcolm/core/process.py b/malcolm/core/process.py
index 7aba8f2..07abedd 100644
--- a/malcolm/core/process.py
+++ b/malcolm/core/process.py
@@ -68,6 +68,7 @@ class Process(Loggable):
         self.name = name
         self._controllers = OrderedDict()  # mri -> Controller
         self._unpublished: Set[str] = set()  # [mri] for unpublishable controllers
+        self._starting: Set[str] = set()  # [mri] that might turn out unpublishable
         self.state = STOPPED
         self._spawned: List[Spawned] = []
         self._spawn_count = 0
@@ -90,7 +91,12 @@ class Process(Loggable):
         self, controller_list: List[Controller], timeout: float = None
     ) -> bool:
         # Start just the given controller_list
-        infos = self._run_hook(ProcessStartHook, controller_list, timeout=timeout)
+        starting = {controller.mri for controller in controller_list}
+        self._starting |= starting
+        try:
+            infos = self._run_hook(ProcessStartHook, controller_list, timeout=timeout)
+        finally:
+            self._starting -= starting
         info: UnpublishedInfo
         new_unpublished = set()
         for info in UnpublishedInfo.filter_values(infos):
@@ -122,13 +128,15 @@ class Process(Loggable):
                 add_controller(c)
 
         published = []
+        # Those that haven't started yet will be published when they have
+        unpublished = self._unpublished | self._starting
 
         def walk(d, not_at_this_level=()):
             to_do = []
             for k, v in d.items():
                 if k in not_at_this_level:
                     continue
-                if k not in published and k not in self._unpublished:
+                if k not in published and k not in unpublished:
                     published.append(k)
                 if v:
                     to_do.append(v)
-- 
2.43.0


From 34b9d7f4d86e00ef665920973032cc2e8c42958f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:13 +0000
Subject: [PATCH 42/59] fix: stopping a process waits for everything it spawned

---
 malcolm/core/process.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/malcolm/core/process.py b/malcolm/core/process.py
index 07abedd..c325e77 100644
--- a/malcolm/core/process.py
+++ b/malcolm/core/process.py
@@ -176,7 +176,9 @@ class Process(Loggable):
         self.state = STOPPING
         # Allow every controller a chance to clean up
         self._run_hook(ProcessStopHook, timeout=timeout)
-        for s in self._spawned:
+        while self._spawned:
+            # Those we are waiting for might spawn more, so always look again
+            s = self._spawned.pop(0)
             if not s.ready():
                 self.log.debug(
                     "Waiting for %s *%s **%s", s._function, s._args, s._kwargs
-- 
2.43.0


From f61595f72bbec50b4749063c86ace6679e3e07fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:26 +0000
Subject: [PATCH 43/59] fix: a Block added while a process is starting is
 published

---
 malcolm/core/process.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/malcolm/core/process.py b/malcolm/core/process.py
index c325e77..da05417 100644
--- a/malcolm/core/process.py
+++ b/malcolm/core/process.py
@@ -83,9 +83,10 @@ class Process(Loggable):
         assert self.state == STOPPED, "Process already started"
         self.state = STARTING
         should_publish = self._start_controllers(self._controllers.values(), timeout)
+        # Anything that is added while we publish these has to publish itself
+        self.state = STARTED
         if should_publish:
             self._publish_controllers(timeout)
-        self.state = STARTED
 
     def _start_controllers(
         self, controller_list: List[Controller], timeout: float = None
-- 
2.43.0


From 36920a867d79c4797e25a4fd49212dd482d38879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:31 +0000
Subject: [PATCH 44/59] fix: breakpoints of a scan are multiplied for a
 detector with many frames per step

---
 malcolm/modules/scanning/parts/detectorchildpart.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/malcolm/modules/scanning/parts/detectorchildpart.py b/malcolm/modules/scanning/parts/detectorchildpart.py
index 3e7bfa6..09135f0 100644
--- a/malcolm/modules/scanning/parts/detectorchildpart.py
+++ b/malcolm/modules/scanning/parts/detectorchildpart.py
@@ -287,6 +287,8 @@ class DetectorChildPart(builtin.parts.ChildPart):
             # Divide it down
             serialized["duration"] = float(serialized["duration"]) / frames
             generator = CompoundGenerator.from_dict(serialized)
+            # Each run takes that many more frames
+            breakpoints = [b * frames for b in cast(Iterable, breakpoints)]
         kwargs = dict(
             generator=generator,
             axesToMove=axes_to_move,
-- 
2.43.0


From 95e45b0363762aab92e07a0ea1629408d2125047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:24 +0000
Subject: [PATCH 45/59] fix: a scan can be paused while one of its detectors
 finishes its run

---
 .../modules/scanning/parts/detectorchildpart.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/scanning/parts/detectorchildpart.py b/malcolm/modules/scanning/parts/detectorchildpart.py
index 09135f0..93b68b9 100644
--- a/malcolm/modules/scanning/parts/detectorchildpart.py
+++ b/malcolm/modules/scanning/parts/detectorchildpart.py
@@ -7,7 +7,14 @@ from scanpointgenerator import (
     StaticPointGenerator,
 )
 
-from malcolm.core import APartName, BadValueError, Future, Put, Request
+from malcolm.core import (
+    APartName,
+    BadValueError,
+    Future,
+    NotWriteableError,
+    Put,
+    Request,
+)
 from malcolm.modules import builtin
 
 from ..hooks import (
@@ -384,7 +391,13 @@ class DetectorChildPart(builtin.parts.ChildPart):
         # Clear out the update_completed_steps and match_future subscriptions
         context.unsubscribe_all()
         child = context.block_view(self.mri)
-        child.pause(lastGoodStep=completed_steps)
+        try:
+            child.pause(lastGoodStep=completed_steps)
+        except NotWriteableError:
+            # It has just done all of its steps, so can be sent back when it
+            # has finished its run
+            context.wait_all_futures(self.run_future)
+            child.pause(lastGoodStep=completed_steps)
 
     @add_call_types
     def on_abort(self, context: AContext) -> None:
-- 
2.43.0


From 0384296331038ef01643192ac2450cc7e839501d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:30 +0000
Subject: [PATCH 46/59] fix: a detector with many frames per step is sent back
 to the right frame

---
 malcolm/modules/scanning/parts/detectorchildpart.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/scanning/parts/detectorchildpart.py b/malcolm/modules/scanning/parts/detectorchildpart.py
index 93b68b9..dec6212 100644
--- a/malcolm/modules/scanning/parts/detectorchildpart.py
+++ b/malcolm/modules/scanning/parts/detectorchildpart.py
@@ -391,13 +391,15 @@ class DetectorChildPart(builtin.parts.ChildPart):
         # Clear out the update_completed_steps and match_future subscriptions
         context.unsubscribe_all()
         child = context.block_view(self.mri)
+        # It takes this many frames for each of our steps
+        step = completed_steps * self.frames_per_step
         try:
-            child.pause(lastGoodStep=completed_steps)
+            child.pause(lastGoodStep=step)
         except NotWriteableError:
             # It has just done all of its steps, so can be sent back when it
             # has finished its run
             context.wait_all_futures(self.run_future)
-            child.pause(lastGoodStep=completed_steps)
+            child.pause(lastGoodStep=step)
 
     @add_call_types
     def on_abort(self, context: AContext) -> None:
-- 
2.43.0


From 185c2f7afbb9863630541507ab4062482b369a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:28 +0000
Subject: [PATCH 47/59] fix: a scan fails when a Block that a part was using is
 aborted

---
 malcolm/core/hook.py                           | 10 +++++-----
 .../scanning/controllers/runnablecontroller.py | 18 +++++++++++++++++-
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/malcolm/core/hook.py b/malcolm/core/hook.py
index c195c73..715ec9e 100644
--- a/malcolm/core/hook.py
+++ b/malcolm/core/hook.py
@@ -226,11 +226,11 @@ def wait_hooks(
                 )
 
         if isinstance(ret, Exception) and exception_check:
-            if not isinstance(ret, AbortedError):
-                # If AbortedError, all tasks have already been stopped.
-                # Got an error, so stop and wait all hook runners
-                for h in hook_spawned:
-                    h.stop()
+            # Got an error, so stop and wait all hook runners. Even if this is an
+            # AbortedError then it could be that only what this one was using has
+            # been aborted, and the others have not been stopped
+            for h in hook_spawned:
+                h.stop()
             # Wait for them to finish
             for h in hook_spawned:
                 assert h.spawned, "No spawned functions"
diff --git a/malcolm/modules/scanning/controllers/runnablecontroller.py b/malcolm/modules/scanning/controllers/runnablecontroller.py
index 5c748b5..6390fa1 100644
--- a/malcolm/modules/scanning/controllers/runnablecontroller.py
+++ b/malcolm/modules/scanning/controllers/runnablecontroller.py
@@ -1,6 +1,6 @@
 from typing import Any, Callable, Dict, Iterable, List, Optional, Tuple, Type
 
-from annotypes import Anno, add_call_types, deserialize_object
+from annotypes import Anno, add_call_types, deserialize_object, stringify_error
 from scanpointgenerator import CompoundGenerator
 
 from malcolm.compat import OrderedDict
@@ -436,6 +436,22 @@ class RunnableController(builtin.controllers.ManagerController):
             started = self.start_hooks(hooks)
         return self.wait_hooks(*started)
 
+    def wait_hooks(
+        self, hook_queue: Queue, hook_spawned: List[Hook]
+    ) -> Dict[str, List[Info]]:
+        state = self.state.value
+        try:
+            return super().wait_hooks(hook_queue, hook_spawned)
+        except AbortedError as e:
+            if self.state.value != state:
+                raise
+            # If we were aborted then this will fail with an AbortedError
+            self_ctx = self.part_contexts.get(self, None)
+            if self_ctx:
+                self_ctx.sleep(0)
+            # Otherwise it was a Block that a Part was using that was aborted
+            raise RuntimeError(f"Part was aborted: {stringify_error(e)}")
+
     # This will be serialized, so maintain camelCase for axesToMove
     # noinspection PyPep8Naming
     @add_call_types
-- 
2.43.0


From 060c7eed68e82c1ad41a5a5681ea73a980fdcd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:01 +0000
Subject: [PATCH 48/59] fix: a scan can be aborted while its detectors are
 being aborted or reset

---
 malcolm/modules/scanning/parts/detectorchildpart.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/scanning/parts/detectorchildpart.py b/malcolm/modules/scanning/parts/detectorchildpart.py
index dec6212..91a4cd0 100644
--- a/malcolm/modules/scanning/parts/detectorchildpart.py
+++ b/malcolm/modules/scanning/parts/detectorchildpart.py
@@ -404,7 +404,15 @@ class DetectorChildPart(builtin.parts.ChildPart):
     @add_call_types
     def on_abort(self, context: AContext) -> None:
         child = context.block_view(self.mri)
-        child.abort()
+        try:
+            child.abort()
+        except NotWriteableError:
+            # It might be in the middle of a reset or abort that was started
+            # before, so let that finish
+            busy_states = (ss.ABORTING, ss.RESETTING, ss.DISABLING)
+            child.when_value_matches("state", lambda state: state not in busy_states)
+            if child.state.value == ss.READY:
+                child.abort()
 
     def update_completed_steps(self, value: int) -> None:
         assert self.registrar, "No registrar"
-- 
2.43.0


From 171a6eb9ff12f965f39e33c13bb5a0824b3fc08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:52 +0000
Subject: [PATCH 49/59] fix: no endless row for a number of frames that fills
 its sequencer rows

---
 malcolm/modules/ADPandABlocks/doublebuffer.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/malcolm/modules/ADPandABlocks/doublebuffer.py b/malcolm/modules/ADPandABlocks/doublebuffer.py
index 55ce577..b3c90ae 100644
--- a/malcolm/modules/ADPandABlocks/doublebuffer.py
+++ b/malcolm/modules/ADPandABlocks/doublebuffer.py
@@ -62,9 +62,12 @@ class SequencerRows:
             MAX_REPEATS, trigger, position, half_duration, live, dead, trim
         )
         self._rows.extend([row] * complete_rows)
-        self._rows.append(
-            self._seq_row(remaining, trigger, position, half_duration, live, dead, trim)
-        )
+        # A row of zero repeats goes on forever, so only add one if asked for
+        if remaining or count == 0:
+            row = self._seq_row(
+                remaining, trigger, position, half_duration, live, dead, trim
+            )
+            self._rows.append(row)
         self._duration += count * (2 * half_duration - trim)
 
     def split(self, count: int) -> SequencerRows:
-- 
2.43.0


From bf266bbe7950e108d6384c6a72709dac9317208d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:52 +0000
Subject: [PATCH 50/59] fix: no undefined positions when an axis turns round in
 no time at all

---
 malcolm/modules/pmac/parts/pmacchildpart.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/malcolm/modules/pmac/parts/pmacchildpart.py b/malcolm/modules/pmac/parts/pmacchildpart.py
index 4a0f803..d95b0b4 100644
--- a/malcolm/modules/pmac/parts/pmacchildpart.py
+++ b/malcolm/modules/pmac/parts/pmacchildpart.py
@@ -596,6 +596,12 @@ class PmacChildPart(builtin.parts.ChildPart):
                     this_velocity = axis_velocities[axis_pt]
                     axis_pt += 1
                     time_interval = 0
+                    # skip any other axis points at this same time
+                    while axis_pt < len(axis_times) and np.isclose(
+                        axis_times[axis_pt], axis_times[axis_pt - 1]
+                    ):
+                        this_velocity = axis_velocities[axis_pt]
+                        axis_pt += 1
                 else:
                     # this combined point is between two axis points,
                     # interpolate the velocity between those axis points
-- 
2.43.0


From b8a127c6b9b729726b4b1892173994f59071a24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:04 +0000
Subject: [PATCH 51/59] fix: turn around between points that go back over each
 other

---
 malcolm/modules/pmac/util.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/malcolm/modules/pmac/util.py b/malcolm/modules/pmac/util.py
index cb7972b..0d650a8 100644
--- a/malcolm/modules/pmac/util.py
+++ b/malcolm/modules/pmac/util.py
@@ -173,12 +173,22 @@ def all_points_joined(points: Points) -> Array[bool]:
     to the point at the next index
     """
     results = {}
+    retraced = {}
     no_delay = points.delay_after[:-1] == 0
+    # Points that are stationary can't be retraced
+    moving = np.zeros(max(len(points) - 1, 0), dtype=bool)
     for axis_name in points.upper.keys():
-        uppers = points.upper[axis_name][:-1]
-        lowers = points.lower[axis_name][1:]
-        results[axis_name] = np.logical_and(uppers == lowers, no_delay)
+        uppers = points.upper[axis_name]
+        lowers = points.lower[axis_name]
+        results[axis_name] = np.logical_and(uppers[:-1] == lowers[1:], no_delay)
+        retraced[axis_name] = lowers[:-1] == uppers[1:]
+        moving |= lowers[:-1] != uppers[:-1]
     result = and_all_axes(results)
+    if result is not None:
+        # If the next point goes back the way this one came then we need to turn
+        # around, which takes time even though no axis needs to move
+        back_again = np.logical_and(and_all_axes(retraced), moving)
+        result = np.logical_and(result, np.logical_not(back_again))
     # If we have no axes then all points are joined
     if result is None:
         result = np.ones(len(points), dtype=bool)
-- 
2.43.0


From 4c9d80e5d4df71d4d0b672f88f5f7f353159e185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:04 +0000
Subject: [PATCH 52/59] fix: axes that take the same time to turn around still
 do when it is quantized

---
 malcolm/modules/pmac/util.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/pmac/util.py b/malcolm/modules/pmac/util.py
index 0d650a8..a5e901e 100644
--- a/malcolm/modules/pmac/util.py
+++ b/malcolm/modules/pmac/util.py
@@ -291,7 +291,11 @@ def profile_between_points(
             profiles[axis_name] = p
             new_min_time = max(new_min_time, p.t_total)
         if np.isclose(new_min_time, min_time):
-            # We've got our consistent set - see if they require quantization
+            # We've got our consistent set - make sure that small differences
+            # between them aren't made bigger by quantization
+            for p in profiles.values():
+                p.tv2 = new_min_time - p.settle_time
+            # See if they require quantization
             quantize = False
             for axis_name, _ in axis_mapping.items():
                 quantize = quantize or profiles[axis_name].check_quantize()
-- 
2.43.0


From c5a075cc4457cb12c55779ec6ff72f3770030a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:04 +0000
Subject: [PATCH 53/59] fix: know the last point of a row that spans two
 batches of points

---
 malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py b/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py
index 285145c..2cff141 100644
--- a/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py
+++ b/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py
@@ -244,6 +244,7 @@ class SeqTriggers:
                     # of points finished in the middle of a continuous scan row.
                     # The first point of the current batch is from the previous batch.
                     yield self._create_immediate_rows(points.duration[1:end])
+                    self.last_point = points[end - 1]
 
                 # Remaining scan rows from the current batch of points.
                 for start_i, end_i in zip(start_indices, end_indices):
-- 
2.43.0


From 1c51532c571da97238a99d84d48888871fa5d2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:05 +0000
Subject: [PATCH 54/59] fix: no trigger for a row while the axis is still on
 its way back to it

---
 .../ADPandABlocks/parts/pandaseqtriggerpart.py      | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py b/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py
index 2cff141..d986036 100644
--- a/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py
+++ b/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py
@@ -91,7 +91,6 @@ class SeqTriggers:
 
         # Work backwards through the velocity array until we are going the
         # opposite way
-        i = 0
         for i, v in reversed(list(enumerate(velocity_array))):
             # Divide v by resolution so it is in counts
             v /= info.resolution
@@ -101,9 +100,15 @@ class SeqTriggers:
                 assert (
                     i < len(velocity_array) - 1
                 ), f"Last point of {velocity_array} is wrong direction"
-                break
-        blind = time_array[i]
-        return blind
+                blind = time_array[i]
+                # If it hasn't passed the compare point on its way back by then,
+                # it would be triggered at once, so be blind until it turns round
+                to_go = np.trapz(velocity_array[i:], time_array[i:]) / info.resolution
+                if (to_go if increasing else -to_go) < 1:
+                    v1, v2 = velocity_array[i : i + 2]
+                    blind += (time_array[i + 1] - time_array[i]) * v1 / (v1 - v2)
+                return blind
+        return time_array[0]
 
     @staticmethod
     def _get_row_indices(points: Points) -> Tuple[np.ndarray, np.ndarray]:
-- 
2.43.0


From 950c7068af4c3c1bdca1b94872ecdfaa90421d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:05 +0000
Subject: [PATCH 55/59] fix: time turnarounds by all the axes that move, not
 those the PandA sees

---
 .../modules/ADPandABlocks/parts/pandaseqtriggerpart.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py b/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py
index d986036..cbb8800 100644
--- a/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py
+++ b/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py
@@ -36,9 +36,15 @@ class SeqTriggers:
         axis_mapping: Dict[str, pmac.infos.MotorInfo],
         trigger_enums: Dict[Tuple[str, bool], str],
         min_turnaround: float,
+        motion_mapping: Optional[Dict[str, pmac.infos.MotorInfo]] = None,
     ) -> None:
         self.generator: CompoundGenerator = generator
         self.axis_mapping: Dict[str, pmac.infos.MotorInfo] = axis_mapping
+        # All the axes that move, including those that the PandA can't see. They
+        # all take part in a turnaround, so all have a say in how long it takes
+        self.motion_mapping: Dict[str, pmac.infos.MotorInfo] = (
+            motion_mapping or axis_mapping
+        )
         self.trigger_enums: Dict[Tuple[str, bool], str] = trigger_enums
         self.min_turnaround: float = min_turnaround
         self.last_point: Point = None
@@ -79,7 +85,7 @@ class SeqTriggers:
         assert self.min_turnaround, f"{self.name}: no MinTurnaround assigned"
         min_turnaround = max(self.min_turnaround.time, point.delay_after)
         time_arrays, velocity_arrays = pmac.util.profile_between_points(
-            self.axis_mapping,
+            self.motion_mapping,
             self.last_point,
             point,
             min_turnaround,
@@ -460,6 +466,7 @@ class PandASeqTriggerPart(builtin.parts.ChildPart):
         motion_axes = pmac.util.get_motion_axes(generator, axesToMove)
         self.axis_mapping = {}
         self.trigger_enums = {}
+        axis_mapping: Dict[str, pmac.infos.MotorInfo] = {}
 
         if motion_axes:
             # Need to fill in the axis mapping
@@ -488,6 +495,7 @@ class PandASeqTriggerPart(builtin.parts.ChildPart):
             self.axis_mapping,
             self.trigger_enums,
             self.min_turnaround,
+            axis_mapping,
         )
 
         rows_gen = seq_triggers.get_rows(self.loaded_up_to, self.scan_up_to)
-- 
2.43.0


From 415b0a38cc5ab8da2d8acdf66a645dee9743bc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:32 +0000
Subject: [PATCH 56/59] fix: turn around from the speed at the end of a point
 to that at the start of the next

On a curved path they differ: the turnaround started from the speed at
the start of the point just done and aimed at that at the end of the next
one.
---
 malcolm/modules/pmac/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/pmac/util.py b/malcolm/modules/pmac/util.py
index a5e901e..7da8428 100644
--- a/malcolm/modules/pmac/util.py
+++ b/malcolm/modules/pmac/util.py
@@ -263,8 +263,8 @@ def profile_between_points(
     must equal 'distance'. The class VelocityProfile implements the math
     to achieve this.
     """
-    start_velocities = point_velocities(axis_mapping, point)
-    end_velocities = point_velocities(axis_mapping, next_point, entry=False)
+    start_velocities = point_velocities(axis_mapping, point, entry=False)
+    end_velocities = point_velocities(axis_mapping, next_point)
 
     p = None
     new_min_time = 0
-- 
2.43.0


From a15e7730843fd8f1eb6f74da4b47ec9300a61b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:32 +0000
Subject: [PATCH 57/59] fix: start the run-up of all axes where they get up to
 speed together

The run-up takes as long as the slowest axis needs, but each axis was put
where its own acceleration would do: the others came to the first point at
the wrong speed.
---
 malcolm/modules/pmac/parts/pmacchildpart.py | 27 ++++++++++-----------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/malcolm/modules/pmac/parts/pmacchildpart.py b/malcolm/modules/pmac/parts/pmacchildpart.py
index d95b0b4..8933d3d 100644
--- a/malcolm/modules/pmac/parts/pmacchildpart.py
+++ b/malcolm/modules/pmac/parts/pmacchildpart.py
@@ -292,6 +292,14 @@ class PmacChildPart(builtin.parts.ChildPart):
             duration = TICK_S
         return duration
 
+    def get_run_up_time(self, point: Point) -> float:
+        # Calculate how long to leave for the run-up (at least MIN_TIME)
+        run_up_time = self.min_turnaround.interval
+        for axis_name, velocity in point_velocities(self.axis_mapping, point).items():
+            motor_info = self.axis_mapping[axis_name]
+            run_up_time = max(run_up_time, motor_info.acceleration_time(0, velocity))
+        return run_up_time
+
     def move_to_start(self, child: Block, cs_port: str, completed_steps: int) -> Future:
         # Work out what method to call
         match = re.search(r"\d+$", cs_port)
@@ -301,13 +309,13 @@ class PmacChildPart(builtin.parts.ChildPart):
         first_point = self.generator.get_point(completed_steps)
         args = {}
         move_to_start_time = 0.0
+        run_up_time = self.get_run_up_time(first_point)
         for axis_name, velocity in point_velocities(
             self.axis_mapping, first_point
         ).items():
             motor_info: MotorInfo = self.axis_mapping[axis_name]
-            acceleration_distance = motor_info.ramp_distance(
-                0, velocity, min_ramp_time=MIN_TIME
-            )
+            # All the axes take the same time to get up to speed
+            acceleration_distance = motor_info.ramp_distance(0, velocity, run_up_time)
             start_pos = first_point.lower[axis_name] - acceleration_distance
             assert motor_info.check_position_within_soft_limits(start_pos) is True, (
                 f"{motor_info.scannable}: ramp start position {start_pos} outside "
@@ -929,17 +937,8 @@ class PmacChildPart(builtin.parts.ChildPart):
         if do_run_up:
             point = self.generator.get_point(start_index)
 
-            # Calculate how long to leave for the run-up (at least MIN_TIME)
-            run_up_time = self.min_turnaround.interval
-            axis_points = {}
-            for axis_name, velocity in point_velocities(
-                self.axis_mapping, point
-            ).items():
-                axis_points[axis_name] = point.lower[axis_name]
-                motor_info = self.axis_mapping[axis_name]
-                run_up_time = max(
-                    run_up_time, motor_info.acceleration_time(0, velocity)
-                )
+            run_up_time = self.get_run_up_time(point)
+            axis_points = {name: point.lower[name] for name in self.axis_mapping}
 
             # Add lower bound
             user_program = self.get_user_program(PointType.START_OF_ROW)
-- 
2.43.0


From eef83a3046f84e14386677e9e96d6005d8e7c992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:51 +0000
Subject: [PATCH 58/59] fix: an axis can scan at exactly its maximum velocity

Rounding errors that the check of the velocity allows made the velocity
profile fail.
---
 malcolm/modules/pmac/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/pmac/util.py b/malcolm/modules/pmac/util.py
index 7da8428..1105748 100644
--- a/malcolm/modules/pmac/util.py
+++ b/malcolm/modules/pmac/util.py
@@ -225,7 +225,8 @@ def point_velocities(
             f"Velocity {velocity} invalid for {axis_name} with "
             f"max_velocity {max_velocity}"
         )
-        velocities[axis_name] = velocity
+        # Don't let rounding errors take us over the maximum
+        velocities[axis_name] = max(-max_velocity, min(velocity, max_velocity))
     return velocities
 
 
-- 
2.43.0


From 63a91317c064fe2aece5221a6d8df94668de564c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:02 +0000
Subject: [PATCH 59/59] fix: guess the duration of points from the distance
 moved, either way

An axis that went down was taken not to move at all, so scans that only go
down were given points of a clock tick.
---
 malcolm/modules/pmac/parts/pmacchildpart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malcolm/modules/pmac/parts/pmacchildpart.py b/malcolm/modules/pmac/parts/pmacchildpart.py
index 8933d3d..ae2774a 100644
--- a/malcolm/modules/pmac/parts/pmacchildpart.py
+++ b/malcolm/modules/pmac/parts/pmacchildpart.py
@@ -282,7 +282,7 @@ class PmacChildPart(builtin.parts.ChildPart):
                 second_point.positions[axis_name] - first_point.positions[axis_name]
             )
             # So calculate time taken between two points based on max velocity
-            min_duration = distance / motor_info.max_velocity
+            min_duration = abs(distance) / motor_info.max_velocity
             # Tweak duration based on slowest axis to move between points
             if min_duration > duration:
                 duration = min_duration
-- 
2.43.0

