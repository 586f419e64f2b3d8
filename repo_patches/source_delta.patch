From 81e2706103e6a1d323f760907c8cb1e65366dabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:40 +0000
Subject: [PATCH 01/61] fix: notify Update subscribers of the current table
 when only some columns change

NotifierNode kept the old Table object when a change was only reported for some
of its columns, so subscribers to the value of a table attribute were sent stale
data
---
 malcolm/core/notifier.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/malcolm/core/notifier.py b/malcolm/core/notifier.py
index b3499ff..b36f8a3 100644
--- a/malcolm/core/notifier.py
+++ b/malcolm/core/notifier.py
@@ -139,13 +139,16 @@ class NotifierNode:
         self.parent = parent
         self.data = data
 
-    def notify_changes(self, changes: List[List]) -> "CallbackResponses":
+    def notify_changes(
+        self, changes: List[List], data: Any = None
+    ) -> "CallbackResponses":
         """Set our data and notify anyone listening
 
         Args:
             changes (list): [[path, optional data]] where path is the path to
                 what has changed, and data is the unserialized object that has
                 changed
+            data (object): Our current data according to our parent
 
         Returns:
             list: [(callback, Response)] that need to be called
@@ -156,6 +159,11 @@ class NotifierNode:
             # Add any changes that our children need to know about
             self._add_child_change(change, child_changes)
 
+        if self.parent is not None and any(change[0] for change in changes):
+            # Something changed below us, which might mean we have new data, e.g.
+            # a new Table where only some of the columns have changed
+            self.data = data
+
         # If we have update subscribers, freeze at this level
         if self.update_requests:
             frozen = freeze(self.data)
@@ -171,7 +179,8 @@ class NotifierNode:
 
         # Now notify our children
         for name, changes in child_changes.items():
-            ret += self.children[name].notify_changes(changes)
+            child_data = getattr(self.data, name, None)
+            ret += self.children[name].notify_changes(changes, child_data)
         return ret
 
     def _add_child_change(self, change: List, child_changes: Dict[str, List]) -> None:
-- 
2.43.0


From 40e2ab8eae127297622332f60d0881e1fabffa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:21 +0000
Subject: [PATCH 02/61] fix: reject or cast values that do not fit a number or
 array attribute

NumberMeta.validate() turned a list into a numpy array, and the array metas
wrapped scalars and dicts unconverted, so an attribute could hold a value that
is not of the type its meta declares
---
 malcolm/core/models.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/malcolm/core/models.py b/malcolm/core/models.py
index 92d2db5..45dd92c 100644
--- a/malcolm/core/models.py
+++ b/malcolm/core/models.py
@@ -683,6 +683,9 @@ class NumberMeta(VMeta):
         if value is None:
             value = 0
         cast = self._np_type(value)
+        assert not isinstance(
+            cast, np.ndarray
+        ), f"Expected single {self.dtype} value, got {value!r}"
         return cast
 
     def doc_type_string(self) -> str:
@@ -745,9 +748,14 @@ def to_np_array(dtype, value: Any) -> Any:
         # If Array wraps a numpy array of the correct type we are done
         return value
     else:
-        if isinstance(value, Sequence):
+        if value is not None and not hasattr(value, "dtype"):
+            if isinstance(value, str) or not isinstance(value, Sequence):
+                # Wrap it in a list as it should be a sequence
+                value = [value]
             # Cast to numpy array
-            value = np.array(value, dtype=dtype)
+            cast = np.array(value, dtype=dtype)
+            assert cast.ndim == 1, f"Expected 1D array of {dtype}, got {value!r}"
+            value = cast
         return to_array(Array[dtype], value)
 
 
-- 
2.43.0


From ad13487d428c14c2f8563f9454fc82aa88186a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:02 +0000
Subject: [PATCH 03/61] fix: do not wait forever for futures that a
 subscription callback has already serviced

---
 malcolm/core/context.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/malcolm/core/context.py b/malcolm/core/context.py
index 8821c77..548c467 100644
--- a/malcolm/core/context.py
+++ b/malcolm/core/context.py
@@ -399,9 +399,7 @@ class Context:
             # some futures that aren't known to it. This means that some of
             # our futures list are now concluded, so filter them out. If we
             # didn't do this we would hang forever
-            for future in futures:
-                if future not in self._requests:
-                    futures.remove(future)
+            futures[:] = [f for f in futures if f in self._requests]
         elif isinstance(response, Return):
             future = self._futures.pop(response.id)
             del self._requests[future]
-- 
2.43.0


From 937c7599c72abda7cff0f1c716df14d88d126c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:25 +0000
Subject: [PATCH 04/61] fix: disable of a configuring or running block no
 longer ends in Fault

---
 .../scanning/controllers/runnablecontroller.py        | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/malcolm/modules/scanning/controllers/runnablecontroller.py b/malcolm/modules/scanning/controllers/runnablecontroller.py
index 9ec3086..f8792fb 100644
--- a/malcolm/modules/scanning/controllers/runnablecontroller.py
+++ b/malcolm/modules/scanning/controllers/runnablecontroller.py
@@ -451,8 +451,9 @@ class RunnableController(builtin.controllers.ManagerController):
             self.do_configure(state, params)
             self.abortable_transition(ss.ARMED)
         except AbortedError:
-            assert self.abort_queue, "No abort queue"
-            self.abort_queue.put(None)
+            # There is no abort queue if we were disabled rather than aborted
+            if self.abort_queue:
+                self.abort_queue.put(None)
             raise
         except Exception as e:
             self.go_to_error_state(e)
@@ -539,8 +540,10 @@ class RunnableController(builtin.controllers.ManagerController):
                     self.do_run(hook)
                     self.abortable_transition(next_state)
                 except AbortedError:
-                    assert self.abort_queue, "No abort queue"
-                    self.abort_queue.put(None)
+                    # There is no abort queue if we were disabled rather than
+                    # aborted
+                    if self.abort_queue:
+                        self.abort_queue.put(None)
                     # Wait for a response on the resume_queue
                     assert self.resume_queue, "No resume queue"
                     should_resume = self.resume_queue.get()
-- 
2.43.0


From b8ecfe44ab50ae0a8cd589388894e4ffa39af54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:25 +0000
Subject: [PATCH 05/61] fix: state after a run that was paused and moved to
 another run of the scan

---
 .../modules/scanning/controllers/runnablecontroller.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/malcolm/modules/scanning/controllers/runnablecontroller.py b/malcolm/modules/scanning/controllers/runnablecontroller.py
index f8792fb..0323efa 100644
--- a/malcolm/modules/scanning/controllers/runnablecontroller.py
+++ b/malcolm/modules/scanning/controllers/runnablecontroller.py
@@ -527,15 +527,17 @@ class RunnableController(builtin.controllers.ManagerController):
         Disabled state.
         """
 
-        if self.configured_steps.value < self.total_steps.value:
-            next_state = ss.ARMED
-        else:
-            next_state = ss.FINISHED
         try:
             self.transition(ss.RUNNING)
             hook = RunHook
             going = True
             while going:
+                # Work this out each time, as pause() might have taken us to a
+                # different part of the scan
+                if self.configured_steps.value < self.total_steps.value:
+                    next_state = ss.ARMED
+                else:
+                    next_state = ss.FINISHED
                 try:
                     self.do_run(hook)
                     self.abortable_transition(next_state)
-- 
2.43.0


From 18e00669f544b7fdbcaabf073a0f09ac5c8572f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:25 +0000
Subject: [PATCH 06/61] fix: abort while configure is still validating or
 resetting ends in Aborted

---
 .../controllers/runnablecontroller.py         | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/malcolm/modules/scanning/controllers/runnablecontroller.py b/malcolm/modules/scanning/controllers/runnablecontroller.py
index 0323efa..2c76bf3 100644
--- a/malcolm/modules/scanning/controllers/runnablecontroller.py
+++ b/malcolm/modules/scanning/controllers/runnablecontroller.py
@@ -446,8 +446,10 @@ class RunnableController(builtin.controllers.ManagerController):
         """
         params = self.validate(generator, axesToMove, breakpoints, **kwargs)
         state = self.state.value
+        # If the state changed while we were validating then this will fail, but
+        # that doesn't mean there is a fault
+        self.transition(ss.CONFIGURING)
         try:
-            self.transition(ss.CONFIGURING)
             self.do_configure(state, params)
             self.abortable_transition(ss.ARMED)
         except AbortedError:
@@ -462,20 +464,21 @@ class RunnableController(builtin.controllers.ManagerController):
             return params
 
     def do_configure(self, state: str, params: ConfigureParams) -> None:
+        # These are the part tasks that abort() and pause() will operate on
+        old_part_contexts = self.part_contexts
+        self.part_contexts = self.create_part_contexts()
+        # So add one for ourself too so we can be aborted
+        assert self.process, "No attached process"
+        self.part_contexts[self] = Context(self.process)
+        # Clear out any old part contexts now rather than letting gc do it
+        for context in old_part_contexts.values():
+            context.unsubscribe_all()
         if state == ss.FINISHED:
             # If we were finished then do a reset before configuring
             self.run_hooks(
                 builtin.hooks.ResetHook(p, c)
                 for p, c in self.create_part_contexts().items()
             )
-        # Clear out any old part contexts now rather than letting gc do it
-        for context in self.part_contexts.values():
-            context.unsubscribe_all()
-        # These are the part tasks that abort() and pause() will operate on
-        self.part_contexts = self.create_part_contexts()
-        # So add one for ourself too so we can be aborted
-        assert self.process, "No attached process"
-        self.part_contexts[self] = Context(self.process)
         # Store the params for use in seek()
         self.configure_params = params
         # Tell everything to get into the right state to Configure
-- 
2.43.0


From aebd132f3b0c926a3444cc105ffdf9e9b0c93771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:25 +0000
Subject: [PATCH 07/61] fix: abort or disable that interrupts a pause or abort
 is no longer lost

---
 .../controllers/runnablecontroller.py         | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/malcolm/modules/scanning/controllers/runnablecontroller.py b/malcolm/modules/scanning/controllers/runnablecontroller.py
index 2c76bf3..13bdaee 100644
--- a/malcolm/modules/scanning/controllers/runnablecontroller.py
+++ b/malcolm/modules/scanning/controllers/runnablecontroller.py
@@ -632,17 +632,24 @@ class RunnableController(builtin.controllers.ManagerController):
             # AbortedError. Both of these are accomplished here
             with self._lock:
                 original_state = self.state.value
-                self.abort_queue = Queue()
+                previous_queue = self.abort_queue
+                abort_queue = self.abort_queue = Queue()
                 self.transition(start_state)
                 for context in self.part_contexts.values():
                     context.stop()
             if original_state not in (ss.READY, ss.ARMED, ss.PAUSED, ss.FINISHED):
                 # Something was running, let it finish aborting
                 try:
-                    self.abort_queue.get(timeout=DEFAULT_TIMEOUT)
+                    abort_queue.get(timeout=DEFAULT_TIMEOUT)
                 except TimeoutError:
                     self.log.warning("Timeout waiting while {start_state}")
+                # If we interrupted a pause() that was also waiting for it to
+                # finish then tell that too
+                if previous_queue:
+                    previous_queue.put(None)
             with self._lock:
+                # We might have been aborted or disabled while we were waiting
+                self._check_still(start_state)
                 # Now we've waited for a while we can remove the error state
                 # for transition in case a hook triggered it rather than a
                 # transition
@@ -650,7 +657,9 @@ class RunnableController(builtin.controllers.ManagerController):
                 if self_ctx:
                     self_ctx.ignore_stops_before_now()
             func(*args)
-            self.abortable_transition(end_state)
+            with self._lock:
+                self._check_still(start_state)
+                self.abortable_transition(end_state)
         except AbortedError:
             assert self.abort_queue, "No abort queue"
             self.abort_queue.put(None)
@@ -659,6 +668,10 @@ class RunnableController(builtin.controllers.ManagerController):
             self.go_to_error_state(e)
             raise
 
+    def _check_still(self, state: str) -> None:
+        if self.state.value != state:
+            raise AbortedError(f"{state} was interrupted by {self.state.value}")
+
     # Allow camelCase as this will be serialized
     # noinspection PyPep8Naming
     @add_call_types
-- 
2.43.0


From 0841664e3b6d85fb7ccf3ad2568a82c26df8efde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:25 +0000
Subject: [PATCH 08/61] fix: abort, pause or disable that comes between two
 hooks is no longer lost

---
 .../controllers/runnablecontroller.py         | 49 +++++++++++++------
 1 file changed, 33 insertions(+), 16 deletions(-)

diff --git a/malcolm/modules/scanning/controllers/runnablecontroller.py b/malcolm/modules/scanning/controllers/runnablecontroller.py
index 13bdaee..18a2171 100644
--- a/malcolm/modules/scanning/controllers/runnablecontroller.py
+++ b/malcolm/modules/scanning/controllers/runnablecontroller.py
@@ -9,6 +9,8 @@ from malcolm.core import (
     AbortedError,
     AMri,
     Context,
+    Hook,
+    Info,
     NumberMeta,
     Part,
     Queue,
@@ -417,13 +419,24 @@ class RunnableController(builtin.controllers.ManagerController):
 
     def abortable_transition(self, state):
         with self._lock:
-            # We might have been aborted just now, so this will fail
-            # with an AbortedError if we were
-            self_ctx = self.part_contexts.get(self, None)
-            if self_ctx:
-                self_ctx.sleep(0)
+            self._check_aborted()
             self.transition(state)
 
+    def _check_aborted(self) -> None:
+        # We might have been aborted just now, so this will fail
+        # with an AbortedError if we were
+        self_ctx = self.part_contexts.get(self, None)
+        if self_ctx:
+            self_ctx.sleep(0)
+
+    def run_abortable_hooks(self, hooks: Iterable[Hook]) -> Dict[str, List[Info]]:
+        with self._lock:
+            # Starting the hooks will ignore any stops before now, so make sure
+            # there isn't one from an abort that came between two hooks
+            self._check_aborted()
+            started = self.start_hooks(hooks)
+        return self.wait_hooks(*started)
+
     # This will be serialized, so maintain camelCase for axesToMove
     # noinspection PyPep8Naming
     @add_call_types
@@ -482,7 +495,9 @@ class RunnableController(builtin.controllers.ManagerController):
         # Store the params for use in seek()
         self.configure_params = params
         # Tell everything to get into the right state to Configure
-        self.run_hooks(PreConfigureHook(p, c) for p, c in self.part_contexts.items())
+        self.run_abortable_hooks(
+            PreConfigureHook(p, c) for p, c in self.part_contexts.items()
+        )
         # This will calculate what we need from the generator, possibly a long
         # call
         params.generator.prepare()
@@ -496,7 +511,7 @@ class RunnableController(builtin.controllers.ManagerController):
             params.generator, params.axesToMove, params.breakpoints
         )
         # Get any status from all parts
-        part_info = self.run_hooks(
+        part_info = self.run_abortable_hooks(
             ReportStatusHook(p, c) for p, c in self.part_contexts.items()
         )
         # Run the configure command on all parts, passing them info from
@@ -504,12 +519,12 @@ class RunnableController(builtin.controllers.ManagerController):
         completed_steps = 0
         self.breakpoint_index = 0
         steps_to_do = self.steps_per_run[self.breakpoint_index]
-        part_info = self.run_hooks(
+        part_info = self.run_abortable_hooks(
             ConfigureHook(p, c, completed_steps, steps_to_do, part_info, **kw)
             for p, c, kw in self._part_params()
         )
         # Take configuration info and reflect it as attribute updates
-        self.run_hooks(
+        self.run_abortable_hooks(
             PostConfigureHook(p, c, part_info) for p, c in self.part_contexts.items()
         )
         # Update the completed and configured steps
@@ -570,20 +585,22 @@ class RunnableController(builtin.controllers.ManagerController):
         # type: (Type[ControllerHook]) -> None
 
         # Run all PreRunHooks
-        self.run_hooks(PreRunHook(p, c) for p, c in self.part_contexts.items())
+        self.run_abortable_hooks(
+            PreRunHook(p, c) for p, c in self.part_contexts.items()
+        )
 
-        self.run_hooks(hook(p, c) for p, c in self.part_contexts.items())
+        self.run_abortable_hooks(hook(p, c) for p, c in self.part_contexts.items())
         self.abortable_transition(ss.POSTRUN)
         completed_steps = self.configured_steps.value
         if completed_steps < self.total_steps.value:
             if self.use_breakpoints:
                 self.breakpoint_index += 1
             steps_to_do = self.steps_per_run[self.breakpoint_index]
-            part_info = self.run_hooks(
+            part_info = self.run_abortable_hooks(
                 ReportStatusHook(p, c) for p, c in self.part_contexts.items()
             )
             self.completed_steps.set_value(completed_steps)
-            self.run_hooks(
+            self.run_abortable_hooks(
                 PostRunArmedHook(
                     p, c, completed_steps, steps_to_do, part_info, **kwargs
                 )
@@ -592,7 +609,7 @@ class RunnableController(builtin.controllers.ManagerController):
             self.configured_steps.set_value(completed_steps + steps_to_do)
         else:
             self.completed_steps.set_value(completed_steps)
-            self.run_hooks(
+            self.run_abortable_hooks(
                 PostRunReadyHook(p, c) for p, c in self.part_contexts.items()
             )
 
@@ -731,11 +748,11 @@ class RunnableController(builtin.controllers.ManagerController):
             in_run_steps = completed_steps % self.steps_per_run[self.breakpoint_index]
             steps_to_do = self.steps_per_run[self.breakpoint_index] - in_run_steps
 
-        part_info = self.run_hooks(
+        part_info = self.run_abortable_hooks(
             ReportStatusHook(p, c) for p, c in self.part_contexts.items()
         )
         self.completed_steps.set_value(completed_steps)
-        self.run_hooks(
+        self.run_abortable_hooks(
             SeekHook(p, c, completed_steps, steps_to_do, part_info, **kwargs)
             for p, c, kwargs in self._part_params()
         )
-- 
2.43.0


From 4b3757d22ea1a09297635ff432c32e0a011eb388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:53 +0000
Subject: [PATCH 09/61] fix: compare saved and current attribute values in the
 form they are saved in

---
 malcolm/modules/builtin/parts/childpart.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/malcolm/modules/builtin/parts/childpart.py b/malcolm/modules/builtin/parts/childpart.py
index f212570..89da664 100644
--- a/malcolm/modules/builtin/parts/childpart.py
+++ b/malcolm/modules/builtin/parts/childpart.py
@@ -1,3 +1,4 @@
+import json
 from typing import (
     Any,
     Dict,
@@ -12,7 +13,7 @@ from typing import (
     Union,
 )
 
-from annotypes import Anno, add_call_types
+from annotypes import Anno, add_call_types, json_encode
 
 from malcolm.compat import OrderedDict
 from malcolm.core import (
@@ -77,6 +78,13 @@ APartName = APartName
 ss = StatefulStates
 
 
+def same_value(a: Any, b: Any) -> bool:
+    """Compare attribute values in their serialized form, because what was loaded
+    from file is plain lists and dicts rather than Arrays and Tables, and Arrays
+    of different lengths can compare equal as their elements are broadcast"""
+    return json.loads(json_encode(a)) == json.loads(json_encode(b))
+
+
 class ChildPart(Part):
     #: A set containing all the Attribute names of our child Block that we will
     #: put to, so shouldn't be saved. Set this in subclasses using `no_save`
@@ -237,7 +245,7 @@ class ChildPart(Part):
             # ones that need to change
             to_set = {}
             for k, (attr, v) in params.items():
-                if attr.value != v:
+                if not same_value(attr.value, v):
                     to_set[k] = v
             child.put_attribute_values(to_set)
         if init and "design" in child:
@@ -346,7 +354,7 @@ class ChildPart(Part):
         # If we did a save or load then we will have an original value,
         # otherwise it will be None
         original_value = self.saved_structure.get(name, None)
-        if original_value == new_value:
+        if same_value(original_value, new_value):
             message = None
         else:
             message = "%s.%s.value = %s not %s" % (
-- 
2.43.0


From bcb36bcc74a38eff14586f5f8df56be7845b427a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:22 +0000
Subject: [PATCH 10/61] fix: forget what was modified before a save or load

---
 malcolm/modules/builtin/parts/childpart.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/malcolm/modules/builtin/parts/childpart.py b/malcolm/modules/builtin/parts/childpart.py
index 89da664..73bc4aa 100644
--- a/malcolm/modules/builtin/parts/childpart.py
+++ b/malcolm/modules/builtin/parts/childpart.py
@@ -240,6 +240,8 @@ class ChildPart(Part):
         # Do this first so that any callbacks that happen in the put know
         # not to notify controller
         self.saved_structure = structure
+        # Any messages were about what was saved or loaded before
+        self.modified_messages = {}
         for name, params in sorted(iterations.items()):
             # Call each iteration as a separate operation, only putting the
             # ones that need to change
@@ -262,6 +264,8 @@ class ChildPart(Part):
                 if isinstance(attr, Attribute) and get_config_tag(attr.meta.tags):
                     part_structure[k] = attr.value
         self.saved_structure = part_structure
+        # Any messages were about what was saved or loaded before
+        self.modified_messages = {}
         return part_structure
 
     @add_call_types
-- 
2.43.0


From edb8f424493c8eafc84097717e95718658ab852b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:33 +0000
Subject: [PATCH 11/61] fix: pass arguments and return value of exported
 methods

---
 malcolm/modules/builtin/controllers/managercontroller.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/malcolm/modules/builtin/controllers/managercontroller.py b/malcolm/modules/builtin/controllers/managercontroller.py
index 6204648..95d6f22 100644
--- a/malcolm/modules/builtin/controllers/managercontroller.py
+++ b/malcolm/modules/builtin/controllers/managercontroller.py
@@ -368,11 +368,11 @@ class ManagerController(StatefulController):
                     ret["setter"] = setter
                 else:
 
-                    def setter_star_args(*args):
+                    def caller(**kwargs):
                         context = Context(self.process)
-                        context.post(path, *args)
+                        return context.post(path, kwargs)
 
-                    ret["setter"] = setter_star_args
+                    ret["setter"] = caller
 
                 # Regenerate label
                 export.meta.set_label(label)
-- 
2.43.0


From b81a32901b855246fcb22a8231d07eef61f376b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:55 +0000
Subject: [PATCH 12/61] fix: tables with columns of different length are not
 equal

---
 malcolm/core/table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/malcolm/core/table.py b/malcolm/core/table.py
index 102b68a..f844301 100644
--- a/malcolm/core/table.py
+++ b/malcolm/core/table.py
@@ -44,6 +44,7 @@ class Table(Serializable):
         if list(self.call_types) != list(other.call_types):
             return True
         for k in self.call_types:
-            if self[k] != other[k]:
+            # Check lengths as numpy broadcasts when comparing
+            if len(self[k]) != len(other[k]) or self[k] != other[k]:
                 return True
         return False
-- 
2.43.0


From 21deb5341d9a7982fb29c461f29932cf24b589f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:33 +0000
Subject: [PATCH 13/61] fix: seek detectors that take many frames per step to
 the right frame

---
 malcolm/modules/scanning/parts/detectorchildpart.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/scanning/parts/detectorchildpart.py b/malcolm/modules/scanning/parts/detectorchildpart.py
index 3e7bfa6..54b2b9b 100644
--- a/malcolm/modules/scanning/parts/detectorchildpart.py
+++ b/malcolm/modules/scanning/parts/detectorchildpart.py
@@ -382,7 +382,8 @@ class DetectorChildPart(builtin.parts.ChildPart):
         # Clear out the update_completed_steps and match_future subscriptions
         context.unsubscribe_all()
         child = context.block_view(self.mri)
-        child.pause(lastGoodStep=completed_steps)
+        # The child does frames_per_step steps for each of ours
+        child.pause(lastGoodStep=completed_steps * self.frames_per_step)
 
     @add_call_types
     def on_abort(self, context: AContext) -> None:
-- 
2.43.0


From e32b38b36201a2f8f9326b0cb66d9b6394cbb441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:33 +0000
Subject: [PATCH 14/61] fix: breakpoints for detectors that take many frames
 per step

---
 malcolm/modules/scanning/parts/detectorchildpart.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/malcolm/modules/scanning/parts/detectorchildpart.py b/malcolm/modules/scanning/parts/detectorchildpart.py
index 54b2b9b..c558d0c 100644
--- a/malcolm/modules/scanning/parts/detectorchildpart.py
+++ b/malcolm/modules/scanning/parts/detectorchildpart.py
@@ -287,6 +287,8 @@ class DetectorChildPart(builtin.parts.ChildPart):
             # Divide it down
             serialized["duration"] = float(serialized["duration"]) / frames
             generator = CompoundGenerator.from_dict(serialized)
+            # The breakpoints are in steps, the child needs them in frames
+            breakpoints = [b * frames for b in cast(Iterable, breakpoints)]
         kwargs = dict(
             generator=generator,
             axesToMove=axes_to_move,
-- 
2.43.0


From 7b12760935e6bad084c0b97ce277ece0f7c58f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:43 +0000
Subject: [PATCH 15/61] fix: work out the duration for detectors that take many
 frames per step

---
 malcolm/modules/scanning/parts/detectorchildpart.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/scanning/parts/detectorchildpart.py b/malcolm/modules/scanning/parts/detectorchildpart.py
index c558d0c..ff04199 100644
--- a/malcolm/modules/scanning/parts/detectorchildpart.py
+++ b/malcolm/modules/scanning/parts/detectorchildpart.py
@@ -195,8 +195,8 @@ class DetectorChildPart(builtin.parts.ChildPart):
                 raise BadValueError(f"Detector {self.name} doesn't take exposure")
             # If asked to guess frames per step, do so
             if frames_per_step < 1:
-                if kwargs.get("exposure", 0) == 0:
-                    # Asked to guess both
+                if kwargs.get("exposure", 0) == 0 or generator.duration == 0:
+                    # Asked to guess both, or the duration as well
                     frames_per_step = 1
                 else:
                     # Exposure given, so run a validate once without the
@@ -229,6 +229,12 @@ class DetectorChildPart(builtin.parts.ChildPart):
                     if k == "exposure":
                         exposure = v
                         tweak_detectors = True
+                    elif k == "generator":
+                        # It might have been multiplied out for the child, so
+                        # only take the duration that was asked for
+                        new_generator = CompoundGenerator.from_dict(generator.to_dict())
+                        new_generator.duration = v.duration
+                        ret.append(ParameterTweakInfo(k, new_generator))
                     else:
                         ret.append(ParameterTweakInfo(k, v))
         else:
-- 
2.43.0


From 37071b4bc14d7b79afd708e1d22d57a09d7dea3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:31 +0000
Subject: [PATCH 16/61] fix: pass the error message on to a REST client

The message of an Error is an exception, which tornado does not accept as the
reason of a response, so every error was reported as Internal Server Error.
---
 malcolm/modules/web/parts/restfulserverpart.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/web/parts/restfulserverpart.py b/malcolm/modules/web/parts/restfulserverpart.py
index 9b93c8d..cef238d 100644
--- a/malcolm/modules/web/parts/restfulserverpart.py
+++ b/malcolm/modules/web/parts/restfulserverpart.py
@@ -58,7 +58,8 @@ class RestfulHandler(RequestHandler):
             self.finish(message + "\n")
         else:
             if isinstance(response, Error):
-                message = response.message
+                # The reason has to be a single line of text
+                message = " ".join(response.to_dict()["message"].split())
             else:
                 message = f"Unknown response {type(response)}"
             self.set_status(500, message)
-- 
2.43.0


From ef4fedd6cbaaaf5f5691864a2389aaeb5a347c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:50 +0000
Subject: [PATCH 17/61] fix: proxy follows fields that are added to or removed
 from the remote block

---
 malcolm/modules/web/controllers/websocketclientcomms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/web/controllers/websocketclientcomms.py b/malcolm/modules/web/controllers/websocketclientcomms.py
index b8a9bd3..abf1e03 100644
--- a/malcolm/modules/web/controllers/websocketclientcomms.py
+++ b/malcolm/modules/web/controllers/websocketclientcomms.py
@@ -198,10 +198,10 @@ class WebsocketClientComms(builtin.controllers.ClientComms):
         elif len(path) == 1 and path[0] not in ("health", "meta"):
             if len(change) == 1:
                 # Delete a field
-                block.remove_endpoint(path[1])
+                block.remove_endpoint(path[0])
             else:
                 # Change a single field of the block
-                block.set_endpoint_data(path[1], change[1])
+                block.set_endpoint_data(path[0], change[1])
         else:
             block.apply_change(path, *change[1:])
 
-- 
2.43.0


From ac1dbb81ef559d9e0a4ed7ccbb29fbc9cb9283c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:10 +0000
Subject: [PATCH 18/61] fix: proxy follows changes to some of the columns of a
 remote table

---
 malcolm/core/models.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/malcolm/core/models.py b/malcolm/core/models.py
index 45dd92c..a78ab98 100644
--- a/malcolm/core/models.py
+++ b/malcolm/core/models.py
@@ -406,6 +406,15 @@ class NTTable(AttributeModel):
             self.timeStamp = ts
             self.notifier.add_squashed_change(self.path + ["timeStamp"], ts)
 
+    def apply_change(self, path, *args: Any) -> None:
+        if len(path) == 2 and path[0] == "value" and args:
+            # Only this column changed
+            columns = {k: self.value[k] for k in self.value}
+            columns[path[1]] = args[0]
+            self.set_value(columns, set_alarm_ts=False)
+        else:
+            super().apply_change(path, *args)
+
 
 @Serializable.register_subclass("epics:nt/NTScalarArray:1.0")
 class NTScalarArray(AttributeModel):
-- 
2.43.0


From bffa6191b12dffb261ab925d0b4228f6413d7273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:46 +0000
Subject: [PATCH 19/61] fix: reset of disconnected client comms waits for the
 new connection

The disconnect had left an item in the queue, so reset went on before it was
connected: it lost its subscription to the remote blocks, and ended in Ready even
if there was nothing to connect to.
---
 malcolm/modules/web/controllers/websocketclientcomms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/malcolm/modules/web/controllers/websocketclientcomms.py b/malcolm/modules/web/controllers/websocketclientcomms.py
index abf1e03..60a45aa 100644
--- a/malcolm/modules/web/controllers/websocketclientcomms.py
+++ b/malcolm/modules/web/controllers/websocketclientcomms.py
@@ -69,6 +69,8 @@ class WebsocketClientComms(builtin.controllers.ClientComms):
     def _start_client(self):
         # Called from cothread
         if self._conn is None:
+            # Forget about any previous disconnect, we wait for this connection
+            self._connected_queue = Queue()
             IOLoopHelper.call(self.recv_loop)
             self._connected_queue.get(timeout=self.connect_timeout)
             root_subscribe = Subscribe(path=[".", "blocks", "value"])
-- 
2.43.0


From e1dcce55087d21241047aa08ac893d9a8de9085d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:46 +0000
Subject: [PATCH 20/61] fix: requests to a disconnected server are answered
 with an error

They were waiting for an answer forever.
---
 malcolm/modules/web/controllers/websocketclientcomms.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/malcolm/modules/web/controllers/websocketclientcomms.py b/malcolm/modules/web/controllers/websocketclientcomms.py
index 60a45aa..0f1322c 100644
--- a/malcolm/modules/web/controllers/websocketclientcomms.py
+++ b/malcolm/modules/web/controllers/websocketclientcomms.py
@@ -270,6 +270,13 @@ class WebsocketClientComms(builtin.controllers.ClientComms):
         # Called in tornado thread
         request.id = self._next_id
         self._next_id += 1
+        if self._conn is None:
+            # No-one there to answer
+            response = Error(
+                id=request.id, message=ResponseError("Server disconnected")
+            )
+            cothread.Callback(request.callback, response)
+            return
         self._request_lookup[request.id] = request
         message = json_encode(request)
         self.log.debug("Sending message %s", message)
-- 
2.43.0


From 4e1e1eae926f25543f417ca02f3c23e1199c2954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:45 +0000
Subject: [PATCH 21/61] fix: no endless row in the middle of a sequencer table

A number of repeats that was a multiple of the maximum for one row added a
row with 0 repeats, which never ends.
---
 malcolm/modules/ADPandABlocks/doublebuffer.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/malcolm/modules/ADPandABlocks/doublebuffer.py b/malcolm/modules/ADPandABlocks/doublebuffer.py
index 55ce577..7610d09 100644
--- a/malcolm/modules/ADPandABlocks/doublebuffer.py
+++ b/malcolm/modules/ADPandABlocks/doublebuffer.py
@@ -62,9 +62,13 @@ class SequencerRows:
             MAX_REPEATS, trigger, position, half_duration, live, dead, trim
         )
         self._rows.extend([row] * complete_rows)
-        self._rows.append(
-            self._seq_row(remaining, trigger, position, half_duration, live, dead, trim)
-        )
+        # A row with 0 repeats never ends, so only add one if that was asked for
+        if remaining or count == 0:
+            self._rows.append(
+                self._seq_row(
+                    remaining, trigger, position, half_duration, live, dead, trim
+                )
+            )
         self._duration += count * (2 * half_duration - trim)
 
     def split(self, count: int) -> SequencerRows:
-- 
2.43.0


From f401eca433e63dbd99344994d012103b3cf63c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:50 +0000
Subject: [PATCH 22/61] fix: turnarounds start and end with the velocities of
 the points they join

They were worked out with the velocity at the start of the point before and
the velocity at the end of the point after the turnaround, which is different
for points that are not on a straight line.
---
 malcolm/modules/pmac/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/pmac/util.py b/malcolm/modules/pmac/util.py
index cb7972b..ccb5a44 100644
--- a/malcolm/modules/pmac/util.py
+++ b/malcolm/modules/pmac/util.py
@@ -253,8 +253,8 @@ def profile_between_points(
     must equal 'distance'. The class VelocityProfile implements the math
     to achieve this.
     """
-    start_velocities = point_velocities(axis_mapping, point)
-    end_velocities = point_velocities(axis_mapping, next_point, entry=False)
+    start_velocities = point_velocities(axis_mapping, point, entry=False)
+    end_velocities = point_velocities(axis_mapping, next_point)
 
     p = None
     new_min_time = 0
-- 
2.43.0


From d1fdb135ec68c98164887d4df275a606bfcc78e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:19 +0000
Subject: [PATCH 23/61] fix: all axes get up to speed in the run up of a scan

The distance for the run up was worked out for each axis on its own, but all
of them take the time of the slowest axis, so that the others were too slow
at the start of the first point.
---
 malcolm/modules/pmac/parts/pmacchildpart.py | 25 ++++++++++++---------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/malcolm/modules/pmac/parts/pmacchildpart.py b/malcolm/modules/pmac/parts/pmacchildpart.py
index 4a0f803..bb1c554 100644
--- a/malcolm/modules/pmac/parts/pmacchildpart.py
+++ b/malcolm/modules/pmac/parts/pmacchildpart.py
@@ -292,6 +292,15 @@ class PmacChildPart(builtin.parts.ChildPart):
             duration = TICK_S
         return duration
 
+    def get_run_up_time(self, point: Point) -> float:
+        """How long the slowest axis takes to get up to the speed it has at the start
+        of the point"""
+        run_up_time = self.min_turnaround.interval
+        for axis_name, velocity in point_velocities(self.axis_mapping, point).items():
+            motor_info = self.axis_mapping[axis_name]
+            run_up_time = max(run_up_time, motor_info.acceleration_time(0, velocity))
+        return run_up_time
+
     def move_to_start(self, child: Block, cs_port: str, completed_steps: int) -> Future:
         # Work out what method to call
         match = re.search(r"\d+$", cs_port)
@@ -301,12 +310,14 @@ class PmacChildPart(builtin.parts.ChildPart):
         first_point = self.generator.get_point(completed_steps)
         args = {}
         move_to_start_time = 0.0
+        # All axes take the same time to get up to speed
+        run_up_time = self.get_run_up_time(first_point)
         for axis_name, velocity in point_velocities(
             self.axis_mapping, first_point
         ).items():
             motor_info: MotorInfo = self.axis_mapping[axis_name]
             acceleration_distance = motor_info.ramp_distance(
-                0, velocity, min_ramp_time=MIN_TIME
+                0, velocity, ramp_time=run_up_time
             )
             start_pos = first_point.lower[axis_name] - acceleration_distance
             assert motor_info.check_position_within_soft_limits(start_pos) is True, (
@@ -924,16 +935,8 @@ class PmacChildPart(builtin.parts.ChildPart):
             point = self.generator.get_point(start_index)
 
             # Calculate how long to leave for the run-up (at least MIN_TIME)
-            run_up_time = self.min_turnaround.interval
-            axis_points = {}
-            for axis_name, velocity in point_velocities(
-                self.axis_mapping, point
-            ).items():
-                axis_points[axis_name] = point.lower[axis_name]
-                motor_info = self.axis_mapping[axis_name]
-                run_up_time = max(
-                    run_up_time, motor_info.acceleration_time(0, velocity)
-                )
+            run_up_time = self.get_run_up_time(point)
+            axis_points = {name: point.lower[name] for name in self.axis_mapping}
 
             # Add lower bound
             user_program = self.get_user_program(PointType.START_OF_ROW)
-- 
2.43.0


From 9740d51962094d4b221844bcea3cc156ad6475fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:51 +0000
Subject: [PATCH 24/61] fix: turnaround with an axis that has to turn back to
 be slow enough

Profiles that fit the time of the slowest axis were given up after one try,
but an axis that would travel too far in that time needs yet more time.
---
 malcolm/modules/pmac/util.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/malcolm/modules/pmac/util.py b/malcolm/modules/pmac/util.py
index ccb5a44..4513997 100644
--- a/malcolm/modules/pmac/util.py
+++ b/malcolm/modules/pmac/util.py
@@ -261,9 +261,10 @@ def profile_between_points(
     time_arrays = {}
     velocity_arrays = {}
     profiles = {}
-    # The first iteration reveals the slowest profile. The second generates
-    # all profiles with the slowest min_time
-    iterations = 2
+    # The first iteration reveals the slowest profile. The next generates all
+    # profiles with the slowest min_time. An axis that can't be that slow (as it
+    # would travel too far) has to turn back, which may need yet more time
+    iterations = max_iterations = len(axis_mapping) + 2
     while iterations > 0:
         for axis_name, motor_info in axis_mapping.items():
             distance = next_point.lower[axis_name] - point.upper[axis_name]
@@ -295,7 +296,7 @@ def profile_between_points(
         else:
             min_time = new_min_time
             iterations -= 1
-    raise ValueError("Can't get a consistent time in 2 iterations")
+    raise ValueError(f"Can't get a consistent time in {max_iterations} iterations")
 
 
 def get_motion_trigger(
-- 
2.43.0


From 6834566c4163306851facae2feef108b42361fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:44 +0000
Subject: [PATCH 25/61] fix: no NaN positions in the turnaround of an axis that
 just turns back

---
 malcolm/modules/pmac/parts/pmacchildpart.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/malcolm/modules/pmac/parts/pmacchildpart.py b/malcolm/modules/pmac/parts/pmacchildpart.py
index bb1c554..1e51605 100644
--- a/malcolm/modules/pmac/parts/pmacchildpart.py
+++ b/malcolm/modules/pmac/parts/pmacchildpart.py
@@ -606,6 +606,12 @@ class PmacChildPart(builtin.parts.ChildPart):
                     # use the axis velocity and move to the next axis point
                     this_velocity = axis_velocities[axis_pt]
                     axis_pt += 1
+                    # the axis may spend no time at its middle velocity
+                    while (
+                        axis_pt < len(axis_times)
+                        and axis_times[axis_pt] == axis_times[axis_pt - 1]
+                    ):
+                        axis_pt += 1
                     time_interval = 0
                 else:
                     # this combined point is between two axis points,
-- 
2.43.0


From f514ffdeaa5aeb102a541d4d808ac1121d0d28b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:53 +0000
Subject: [PATCH 26/61] fix: guessed duration of a scan that moves in the
 negative direction

---
 malcolm/modules/pmac/parts/pmacchildpart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malcolm/modules/pmac/parts/pmacchildpart.py b/malcolm/modules/pmac/parts/pmacchildpart.py
index 1e51605..b62c742 100644
--- a/malcolm/modules/pmac/parts/pmacchildpart.py
+++ b/malcolm/modules/pmac/parts/pmacchildpart.py
@@ -278,7 +278,7 @@ class PmacChildPart(builtin.parts.ChildPart):
         duration = 0.0
         for axis_name, motor_info in axis_mapping.items():
             # Distance between two points
-            distance = (
+            distance = abs(
                 second_point.positions[axis_name] - first_point.positions[axis_name]
             )
             # So calculate time taken between two points based on max velocity
-- 
2.43.0


From e30c1d50e1d6449a070fc56b8aab86f2215e6de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:58 +0000
Subject: [PATCH 27/61] fix: no NaN positions in the turnaround of an axis that
 only settles

---
 malcolm/modules/pmac/parts/pmacchildpart.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/malcolm/modules/pmac/parts/pmacchildpart.py b/malcolm/modules/pmac/parts/pmacchildpart.py
index b62c742..81123b2 100644
--- a/malcolm/modules/pmac/parts/pmacchildpart.py
+++ b/malcolm/modules/pmac/parts/pmacchildpart.py
@@ -597,6 +597,12 @@ class PmacChildPart(builtin.parts.ChildPart):
             # We want to create a matching move profile of 'num_intervals'
             axis_pt = 1
             for i in range(num_intervals):
+                # there may be parts of the profile that the axis spends no time in
+                while (
+                    axis_pt + 1 < len(axis_times)
+                    and axis_times[axis_pt] == axis_times[axis_pt - 1]
+                ):
+                    axis_pt += 1
                 axis_velocity = axis_velocities[axis_pt]
                 axis_prev_velocity = axis_velocities[axis_pt - 1]
                 axis_interval = axis_times[axis_pt] - axis_times[axis_pt - 1]
@@ -606,12 +612,6 @@ class PmacChildPart(builtin.parts.ChildPart):
                     # use the axis velocity and move to the next axis point
                     this_velocity = axis_velocities[axis_pt]
                     axis_pt += 1
-                    # the axis may spend no time at its middle velocity
-                    while (
-                        axis_pt < len(axis_times)
-                        and axis_times[axis_pt] == axis_times[axis_pt - 1]
-                    ):
-                        axis_pt += 1
                     time_interval = 0
                 else:
                     # this combined point is between two axis points,
-- 
2.43.0


From 6ca17e12ac31c1ba9a5896a6321cbf43558bc556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:56 +0000
Subject: [PATCH 28/61] fix: blind time of the first turnaround after a batch
 of points starts at the end of its row

---
 malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py b/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py
index 285145c..2cff141 100644
--- a/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py
+++ b/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py
@@ -244,6 +244,7 @@ class SeqTriggers:
                     # of points finished in the middle of a continuous scan row.
                     # The first point of the current batch is from the previous batch.
                     yield self._create_immediate_rows(points.duration[1:end])
+                    self.last_point = points[end - 1]
 
                 # Remaining scan rows from the current batch of points.
                 for start_i, end_i in zip(start_indices, end_indices):
-- 
2.43.0


From 781848d835dea07a088cf26c300493826eecc5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:56 +0000
Subject: [PATCH 29/61] fix: blind time uses the delay of the point before the
 turnaround

---
 malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py b/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py
index 2cff141..a0ade3a 100644
--- a/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py
+++ b/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py
@@ -76,8 +76,9 @@ class SeqTriggers:
     ) -> float:
         """Return the duration that the given axis is moving in the opposite direction
         from that required for `point`, during the prior turnaround."""
-        assert self.min_turnaround, f"{self.name}: no MinTurnaround assigned"
-        min_turnaround = max(self.min_turnaround.time, point.delay_after)
+        assert self.min_turnaround, "no MinTurnaround assigned"
+        # The delay is in the turnaround after the point that asks for it
+        min_turnaround = max(self.min_turnaround.time, self.last_point.delay_after)
         time_arrays, velocity_arrays = pmac.util.profile_between_points(
             self.axis_mapping,
             self.last_point,
-- 
2.43.0


From 8a119e814fa9376eefcddd11011953af67356fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:56 +0000
Subject: [PATCH 30/61] fix: no compare while an axis flies back past the start
 of the next row

---
 .../ADPandABlocks/parts/pandaseqtriggerpart.py    | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py b/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py
index a0ade3a..7778da2 100644
--- a/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py
+++ b/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py
@@ -104,6 +104,21 @@ class SeqTriggers:
                 ), f"Last point of {velocity_array} is wrong direction"
                 break
         blind = time_array[i]
+        if i < len(velocity_array) - 1:
+            # If the axis is still beyond the start of the point then the compare
+            # would trigger at once, so stay blind until it has turned around
+            distance = sum(
+                (t2 - t1) * (v1 + v2) / 2
+                for t1, t2, v1, v2 in zip(
+                    time_array[i:],
+                    time_array[i + 1 :],
+                    velocity_array[i:],
+                    velocity_array[i + 1 :],
+                )
+            )
+            if (distance / info.resolution > 0) != increasing:
+                v1, v2 = velocity_array[i], velocity_array[i + 1]
+                blind += (time_array[i + 1] - time_array[i]) * v1 / (v1 - v2)
         return blind
 
     @staticmethod
-- 
2.43.0


From eaeae0afc7cfb6fb2e0f243090d5a04e17ca2459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:50 +0000
Subject: [PATCH 31/61] fix: blind time allows for the axes that are not wired
 to the PandA

---
 .../modules/ADPandABlocks/parts/pandaseqtriggerpart.py   | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py b/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py
index 7778da2..07fc60c 100644
--- a/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py
+++ b/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py
@@ -36,11 +36,16 @@ class SeqTriggers:
         axis_mapping: Dict[str, pmac.infos.MotorInfo],
         trigger_enums: Dict[Tuple[str, bool], str],
         min_turnaround: float,
+        motion_mapping: Optional[Dict[str, pmac.infos.MotorInfo]] = None,
     ) -> None:
         self.generator: CompoundGenerator = generator
         self.axis_mapping: Dict[str, pmac.infos.MotorInfo] = axis_mapping
         self.trigger_enums: Dict[Tuple[str, bool], str] = trigger_enums
         self.min_turnaround: float = min_turnaround
+        # All the axes that move, as the slowest one sets the pace of a turnaround
+        self.motion_mapping: Dict[str, pmac.infos.MotorInfo] = (
+            motion_mapping or axis_mapping
+        )
         self.last_point: Point = None
 
     @staticmethod
@@ -80,7 +85,7 @@ class SeqTriggers:
         # The delay is in the turnaround after the point that asks for it
         min_turnaround = max(self.min_turnaround.time, self.last_point.delay_after)
         time_arrays, velocity_arrays = pmac.util.profile_between_points(
-            self.axis_mapping,
+            self.motion_mapping,
             self.last_point,
             point,
             min_turnaround,
@@ -471,6 +476,7 @@ class PandASeqTriggerPart(builtin.parts.ChildPart):
         motion_axes = pmac.util.get_motion_axes(generator, axesToMove)
         self.axis_mapping = {}
         self.trigger_enums = {}
+        axis_mapping: Dict[str, pmac.infos.MotorInfo] = {}
 
         if motion_axes:
             # Need to fill in the axis mapping
@@ -499,6 +505,7 @@ class PandASeqTriggerPart(builtin.parts.ChildPart):
             self.axis_mapping,
             self.trigger_enums,
             self.min_turnaround,
+            axis_mapping,
         )
 
         rows_gen = seq_triggers.get_rows(self.loaded_up_to, self.scan_up_to)
-- 
2.43.0


From 9b6607516f3cc0ee2c8296c8fdddd06369553727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:34 +0000
Subject: [PATCH 32/61] fix: PandA replies with characters split over two
 network packets

---
 malcolm/modules/pandablocks/pandablocksclient.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/pandablocks/pandablocksclient.py b/malcolm/modules/pandablocks/pandablocksclient.py
index 14a576a..c0914ba 100644
--- a/malcolm/modules/pandablocks/pandablocksclient.py
+++ b/malcolm/modules/pandablocks/pandablocksclient.py
@@ -1,3 +1,4 @@
+import codecs
 import logging
 from collections import OrderedDict, namedtuple
 
@@ -131,6 +132,8 @@ class PandABlocksClient:
                 log.exception("Exception sending message %s", message)
 
     def _get_lines(self):
+        # A character may be split over several calls to recv()
+        decoder = codecs.getincrementaldecoder("utf-8")()
         buf = ""
         while True:
             lines = buf.split("\n")
@@ -138,10 +141,10 @@ class PandABlocksClient:
                 yield line
             buf = lines[-1]
             # Get something new from the socket
-            rx = self._socket.recv(4096).decode("utf-8")
+            rx = self._socket.recv(4096)
             if not rx:
                 break
-            buf += rx
+            buf += decoder.decode(rx)
 
     def _respond(self, resp):
         """Respond to the person waiting"""
-- 
2.43.0


From 94c2c9f0177e3c1d390e6cee17d947f563ec3391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:00 +0000
Subject: [PATCH 33/61] fix: ints per row of a PandA table whose last column
 starts and ends with a word

---
 malcolm/modules/pandablocks/parts/pandatablepart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malcolm/modules/pandablocks/parts/pandatablepart.py b/malcolm/modules/pandablocks/parts/pandatablepart.py
index 9313e6d..d58fc5b 100644
--- a/malcolm/modules/pandablocks/parts/pandatablepart.py
+++ b/malcolm/modules/pandablocks/parts/pandatablepart.py
@@ -89,7 +89,7 @@ class PandATablePart(PandAFieldPart):
         # Work out how many ints per row
         # TODO: this should be in the block data
         max_bits_hi = max(f.bits_hi for f in self.field_data.values())
-        self.ints_per_row = int((max_bits_hi + 31) / 32)
+        self.ints_per_row = max_bits_hi // 32 + 1
         # Superclass will make the attribute for us
         super().__init__(client, meta, block_name, field_name)
 
-- 
2.43.0


From f71c3b422ec930b950bd5a2fd95a029c1ee7caff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:00 +0000
Subject: [PATCH 34/61] fix: columns of a PandA table with few bits are not
 lost when packed

---
 malcolm/modules/pandablocks/parts/pandatablepart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malcolm/modules/pandablocks/parts/pandatablepart.py b/malcolm/modules/pandablocks/parts/pandatablepart.py
index d58fc5b..48b6fa9 100644
--- a/malcolm/modules/pandablocks/parts/pandatablepart.py
+++ b/malcolm/modules/pandablocks/parts/pandatablepart.py
@@ -114,7 +114,7 @@ class PandATablePart(PandAFieldPart):
                 column_value = np.array(indexes, dtype=np.uint32)
             else:
                 # Array, unwrap to get the numpy array
-                column_value = column_value.seq
+                column_value = column_value.seq.astype(np.uint32)
             # Left shift the value so it is aligned with the int columns
             _, mask = get_nbits_mask(field_data)
             shifted_column = (column_value & mask) << field_data.bits_lo % 32
-- 
2.43.0


From d097d0cbe69c47584d02af99c5a9eddfe04cafaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:00 +0000
Subject: [PATCH 35/61] fix: negative numbers in columns of a PandA table with
 less bits than the type

---
 malcolm/modules/pandablocks/parts/pandatablepart.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/malcolm/modules/pandablocks/parts/pandatablepart.py b/malcolm/modules/pandablocks/parts/pandatablepart.py
index 48b6fa9..1dff6bf 100644
--- a/malcolm/modules/pandablocks/parts/pandatablepart.py
+++ b/malcolm/modules/pandablocks/parts/pandatablepart.py
@@ -149,6 +149,9 @@ class PandATablePart(PandAFieldPart):
                 # View as the correct type
                 dtype = self.meta.elements[column_name].dtype
                 column_value = shifted_column.astype(dtype)
+                if field_data.signed:
+                    # Extend the sign bit to the bits we don't have
+                    column_value[column_value >= 2 ** (nbits - 1)] -= 2**nbits
             columns[column_name] = column_value
         # Create a table from it
         table = self.meta.validate(self.meta.table_cls(**columns))
-- 
2.43.0


From 7603c8fd88483b4f438e48a8229fff0b6f9566d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:28 +0000
Subject: [PATCH 36/61] fix: polling of a PandA starts again when it is reset
 after a fault

---
 .../modules/pandablocks/controllers/pandamanagercontroller.py  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/malcolm/modules/pandablocks/controllers/pandamanagercontroller.py b/malcolm/modules/pandablocks/controllers/pandamanagercontroller.py
index ad480c1..19c80f1 100644
--- a/malcolm/modules/pandablocks/controllers/pandamanagercontroller.py
+++ b/malcolm/modules/pandablocks/controllers/pandamanagercontroller.py
@@ -94,6 +94,9 @@ class PandAManagerController(builtin.controllers.ManagerController):
         super().do_init()
 
     def start_poll_loop(self):
+        if self._poll_spawned is not None and self._poll_spawned.ready():
+            # The poll loop has failed, start again with a new connection
+            self.stop_poll_loop()
         # queue to listen for stop events
         if not self._client.started:
             self._stop_queue = Queue()
-- 
2.43.0


From cdb95fef02fc93ff9f9c1b54fb8213718de8067c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:55 +0000
Subject: [PATCH 37/61] fix: rows of a bits table that the PandA does not have
 are ignored

---
 malcolm/modules/pandablocks/parts/pandabussespart.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/malcolm/modules/pandablocks/parts/pandabussespart.py b/malcolm/modules/pandablocks/parts/pandabussespart.py
index cac6063..cdd9d7e 100644
--- a/malcolm/modules/pandablocks/parts/pandabussespart.py
+++ b/malcolm/modules/pandablocks/parts/pandabussespart.py
@@ -110,6 +110,9 @@ class PandABussesPart(Part):
             # If capture changed, set PCAP bits
             field_values = {}
             for bit in value.name:
+                if bit not in self._bit_indexes:
+                    # Already warned about
+                    continue
                 capture = column_changes["capture"][self._bit_indexes[bit]]
                 capture_field = self._bit_pcap_fields[bit]
                 if capture:
-- 
2.43.0


From b016b64b3383567daeee76ade715feaad8ac02f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:52 +0000
Subject: [PATCH 38/61] fix: only the start of a path is translated for Windows

---
 malcolm/modules/ADCore/infos.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/ADCore/infos.py b/malcolm/modules/ADCore/infos.py
index 63a4cb7..44a33c9 100644
--- a/malcolm/modules/ADCore/infos.py
+++ b/malcolm/modules/ADCore/infos.py
@@ -40,10 +40,11 @@ class FilePathTranslatorInfo(Info):
             win_path = filepath.replace(
                 translator.path_prefix,
                 translator.network_prefix + translator.path_prefix,
+                1,
             ).replace("/", "\\")
         else:
             win_path = filepath.replace(
-                translator.path_prefix, translator.windows_drive_letter + ":"
+                translator.path_prefix, translator.windows_drive_letter + ":", 1
             ).replace("/", "\\")
         return win_path
 
-- 
2.43.0


From 349fc5a61a0fa123033fda0c126a30b8f782a683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:52 +0000
Subject: [PATCH 39/61] fix: demand positions file is not written to the path
 on Windows

---
 malcolm/modules/ADCore/parts/hdfwriterpart.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/malcolm/modules/ADCore/parts/hdfwriterpart.py b/malcolm/modules/ADCore/parts/hdfwriterpart.py
index 3f6f810..786de59 100644
--- a/malcolm/modules/ADCore/parts/hdfwriterpart.py
+++ b/malcolm/modules/ADCore/parts/hdfwriterpart.py
@@ -592,9 +592,8 @@ class HDFWriterPart(builtin.parts.ChildPart):
         # Check XML
         set_path = "/entry/%s_set"
         if self.remove_demand_positions_from_xml.value is not False:
-            self._hdf = _write_additional_hdf(
-                filename, generator, h5_file_dir, set_path
-            )
+            # We write this one ourselves, so don't translate the path
+            self._hdf = _write_additional_hdf(filename, generator, file_dir, set_path)
         self._check_xml_is_valid(child)
         # Return the dataset information
         dataset_infos = list(
-- 
2.43.0


From ff3a0a87042a9f381ccae3967487113de6a65bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:11 +0000
Subject: [PATCH 40/61] fix: frames that have not reached the HDF writer are
 not completed steps

---
 malcolm/modules/ADCore/parts/hdfwriterpart.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/malcolm/modules/ADCore/parts/hdfwriterpart.py b/malcolm/modules/ADCore/parts/hdfwriterpart.py
index 786de59..c6f2957 100644
--- a/malcolm/modules/ADCore/parts/hdfwriterpart.py
+++ b/malcolm/modules/ADCore/parts/hdfwriterpart.py
@@ -635,12 +635,17 @@ class HDFWriterPart(builtin.parts.ChildPart):
 
     @add_call_types
     def on_run(self, context: scanning.hooks.AContext) -> None:
-        # Wait for the first array to arrive in the plugin without a timeout
-        context.wait_all_futures(self.first_array_future)
-
         # Get the child block
         child = context.block_view(self.mri)
 
+        if self.first_array_future and not self.first_array_future.done():
+            # Nothing has been written yet, so frames that other parts have seen
+            # are not completed
+            self.update_completed_steps(child.numCapturedReadback.value)
+
+        # Wait for the first array to arrive in the plugin without a timeout
+        context.wait_all_futures(self.first_array_future)
+
         # Update progress based on number of frames written
         child.numCapturedReadback.subscribe_value(self.update_completed_steps)
 
-- 
2.43.0


From 0399cb46f8df8e2cc9a4ff188b5ce24e7677c60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:11 +0000
Subject: [PATCH 41/61] fix: progress from before a pause is not added after it

---
 malcolm/modules/scanning/controllers/runnablecontroller.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/malcolm/modules/scanning/controllers/runnablecontroller.py b/malcolm/modules/scanning/controllers/runnablecontroller.py
index 18a2171..05a3505 100644
--- a/malcolm/modules/scanning/controllers/runnablecontroller.py
+++ b/malcolm/modules/scanning/controllers/runnablecontroller.py
@@ -756,6 +756,9 @@ class RunnableController(builtin.controllers.ManagerController):
             SeekHook(p, c, completed_steps, steps_to_do, part_info, **kwargs)
             for p, c, kwargs in self._part_params()
         )
+        # Parts might have reported the progress they made before the seek
+        self.progress_updates = {}
+        self.completed_steps.set_value(completed_steps)
         self.configured_steps.set_value(completed_steps + steps_to_do)
 
     def get_breakpoint_index(self, completed_steps: int) -> int:
-- 
2.43.0


From 749634de0e0ab37b9691ad6e75eb94cffead85b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:29 +0000
Subject: [PATCH 42/61] fix: the ffmpeg plugin block passes its mri on to the
 plugin parts

---
 malcolm/modules/ADCore/blocks/ffmpeg_plugin_block.yaml | 1 +
 1 file changed, 1 insertion(+)

diff --git a/malcolm/modules/ADCore/blocks/ffmpeg_plugin_block.yaml b/malcolm/modules/ADCore/blocks/ffmpeg_plugin_block.yaml
index 8fe3216..6804ae1 100644
--- a/malcolm/modules/ADCore/blocks/ffmpeg_plugin_block.yaml
+++ b/malcolm/modules/ADCore/blocks/ffmpeg_plugin_block.yaml
@@ -19,6 +19,7 @@
 # This includes the input port
 - ADCore.includes.ndpluginbase_parts:
     prefix: $(pv_prefix)
+    mri: $(mri)
 
 - ca.parts.CACharArrayPart:
     name: ffmpegStream
-- 
2.43.0


From b4d3cce2bfcaa137dd2724809aa4b5f929da1558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:11 +0000
Subject: [PATCH 43/61] fix: the aravisGigE manager block has no parts that
 need a runnable one

---
 .../modules/aravisGigE/blocks/aravisGigE_manager_block.yaml   | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/malcolm/modules/aravisGigE/blocks/aravisGigE_manager_block.yaml b/malcolm/modules/aravisGigE/blocks/aravisGigE_manager_block.yaml
index cfe8232..0f99873 100644
--- a/malcolm/modules/aravisGigE/blocks/aravisGigE_manager_block.yaml
+++ b/malcolm/modules/aravisGigE/blocks/aravisGigE_manager_block.yaml
@@ -37,11 +37,9 @@
     mri: $(mri_prefix):DRV
     prefix: $(pv_prefix):DET
 
-- ADCore.parts.DetectorDriverPart:
+- builtin.parts.ChildPart:
     name: DRV
     mri: $(mri_prefix):DRV
-    soft_trigger_modes:
-        - Off
 
 - ADCore.blocks.ffmpeg_plugin_block:
     mri: $(mri_prefix):FFMPEG
-- 
2.43.0


From 660e0ec35fb4d0ace50dc1ea8c5cbb3fa1ecdb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:44 +0000
Subject: [PATCH 44/61] fix: a view has no item for a name that does not exist

---
 malcolm/core/views.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malcolm/core/views.py b/malcolm/core/views.py
index d6e7d6d..98add72 100644
--- a/malcolm/core/views.py
+++ b/malcolm/core/views.py
@@ -34,7 +34,7 @@ class View:
         try:
             return getattr(self, item)
         except AttributeError:
-            return KeyError(item)
+            raise KeyError(item)
 
     def __setattr__(self, name, value):
         raise NameError(f"Cannot set attribute {name} on view")
-- 
2.43.0


From 9b7d6c887d093ec1b47778f000b439412ef37680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:44 +0000
Subject: [PATCH 45/61] fix: a method view refuses positional arguments that
 the method does not take

---
 malcolm/core/views.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/malcolm/core/views.py b/malcolm/core/views.py
index 98add72..95a9214 100644
--- a/malcolm/core/views.py
+++ b/malcolm/core/views.py
@@ -106,7 +106,11 @@ class Method(View):
 
     def _add_positional_args(self, args, kwargs):
         # add any positional args into our kwargs dict
-        for name, v in zip(self._data.meta.takes.elements, args):
+        names = list(self._data.meta.takes.elements)
+        assert len(args) <= len(
+            names
+        ), f"Got {len(args)} positional args, method only takes {names}"
+        for name, v in zip(names, args):
             assert (
                 name not in kwargs
             ), f"{name} specified as positional and keyword args"
-- 
2.43.0


From 18d2f40221a5ce5a57d2de31c7bb771ba744f888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:51 +0000
Subject: [PATCH 46/61] fix: a spawned function may return something that
 cannot be compared

---
 malcolm/core/concurrency.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/malcolm/core/concurrency.py b/malcolm/core/concurrency.py
index 621becc..68cbdb6 100644
--- a/malcolm/core/concurrency.py
+++ b/malcolm/core/concurrency.py
@@ -54,12 +54,12 @@ class Spawned:
 
     def wait(self, timeout: float = None) -> None:
         # Only one person can wait on this at a time
-        if self._result == self.NO_RESULT:
+        if self._result is self.NO_RESULT:
             self._result_queue.get(timeout)
 
     def ready(self) -> bool:
         """Return True if the spawned result has returned or errored"""
-        return self._result != self.NO_RESULT
+        return self._result is not self.NO_RESULT
 
     def get(self, timeout: float = None) -> T:
         """Return the result or raise the error the function has produced"""
-- 
2.43.0


From df41218753d9c74d5345da073795e71732c245e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:42 +0000
Subject: [PATCH 47/61] fix: a PV that may be missing does not have display
 limits when it is

---
 malcolm/modules/ca/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malcolm/modules/ca/util.py b/malcolm/modules/ca/util.py
index b5c0bc8..7201008 100644
--- a/malcolm/modules/ca/util.py
+++ b/malcolm/modules/ca/util.py
@@ -242,7 +242,7 @@ class CAAttribute(CABase):
             self.throw,
         )
 
-        if self.on_connect:
+        if self.on_connect and ca_values[0].ok:
             self.on_connect(ca_values[0])
         self._update_value(ca_values[0])
         # now setup monitor on rbv
-- 
2.43.0


From a269b84785b931a3720b9ed9be6cb200d6538e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:05 +0000
Subject: [PATCH 48/61] fix: the alarm of a waveform table is that of its PVs
 now, and it survives losing one

---
 malcolm/modules/ca/util.py | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/malcolm/modules/ca/util.py b/malcolm/modules/ca/util.py
index 7201008..db4df36 100644
--- a/malcolm/modules/ca/util.py
+++ b/malcolm/modules/ca/util.py
@@ -156,11 +156,7 @@ class CABase(Loggable):
         now = time.time()
         delta = now - self._update_after
         if value_index is not None and hasattr(self, "name_list"):
-            value_key = self.name_list[value_index]
-            self._local_value[value_key] = value
-            self._local_value.raw_stamp = getattr(value, "raw_stamp", (None, None))
-            self._local_value.ok = self._local_value.ok or value.ok
-            self._local_value.severity = max(self._local_value.severity, value.severity)
+            self._local_value.update_column(self.name_list[value_index], value)
             self._update_value(self._local_value)
         else:
             self._update_value(value)
@@ -274,10 +270,27 @@ class CAAttribute(CABase):
 
 
 class CATable(dict):
-    ok = True
-    severity = 0
     raw_stamp = (None, None)
 
+    def __init__(self):
+        super().__init__()
+        # The last update of each column, which is not its value if disconnected
+        self._updates = {}
+
+    def update_column(self, name, value):
+        self._updates[name] = value
+        if value.ok:
+            self[name] = value
+            self.raw_stamp = getattr(value, "raw_stamp", (None, None))
+
+    @property
+    def ok(self):
+        return all(v.ok for v in self._updates.values())
+
+    @property
+    def severity(self):
+        return max([v.severity for v in self._updates.values() if v.ok], default=0)
+
 
 class WaveformTableAttribute(CABase):
     def __init__(
@@ -345,11 +358,9 @@ class WaveformTableAttribute(CABase):
         )
 
         for ind, value in enumerate(ca_values):
-            if self.on_connect:
+            if self.on_connect and value.ok:
                 self.on_connect(value)
-            self._local_value[self.name_list[ind]] = value
-            self._local_value.severity = max(self._local_value.severity, value.severity)
-            self._local_value.ok = self._local_value.ok or value.ok
+            self._local_value.update_column(self.name_list[ind], value)
         self._update_value(self._local_value)
         # now setup monitors for all the things
         self.monitor = catools.camonitor(
-- 
2.43.0


From 7c9a80856d77f73cef09b6092a981853ebcde2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:02 +0000
Subject: [PATCH 49/61] fix: a motor that is not in a CS can be connected to
 and put

---
 .../modules/pmac/parts/rawmotorsinkportspart.py    | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/malcolm/modules/pmac/parts/rawmotorsinkportspart.py b/malcolm/modules/pmac/parts/rawmotorsinkportspart.py
index b3ccdc0..72c9327 100644
--- a/malcolm/modules/pmac/parts/rawmotorsinkportspart.py
+++ b/malcolm/modules/pmac/parts/rawmotorsinkportspart.py
@@ -75,7 +75,7 @@ class RawMotorSinkPortsPart(Part):
             for axis in CS_AXIS_NAMES + ["I"]:
                 choices.append(f"{choice},{axis}")
         self.cs_attr.meta.set_choices(choices)
-        self.port = self.port_choices[ca_values[2]]
+        self.port = self._get_port(ca_values[2])
         self._update_value(ca_values[3], 1)
         self._update_value(ca_values[4], 2)
         # Setup monitor on rbvs
@@ -91,15 +91,19 @@ class RawMotorSinkPortsPart(Part):
             monitor.close()
         self.monitors = []
 
+    def _get_port(self, index):
+        # The first choice is not being in a CS
+        if index == 0:
+            return ""
+        return self.port_choices[index]
+
     def _update_value(self, value, index):
         if index == 0:
             # Got CS Port
             if not value.ok:
                 self.port = None
-            elif value == 0:
-                self.port = ""
             else:
-                self.port = self.port_choices[value]
+                self.port = self._get_port(value)
         elif index == 1:
             # Got CS Axis
             if value.ok and str(value) in CS_AXIS_NAMES + ["I"]:
@@ -136,5 +140,5 @@ class RawMotorSinkPortsPart(Part):
         ca.util.catools.caput(self.pvs, (port_index, axis), wait=True)
         # now do a caget
         values = ca.util.catools.caget(self.rbvs, format=ca.util.catools.FORMAT_TIME)
-        self.port = self.port_choices[values[0]]
+        self.port = self._get_port(values[0])
         self._update_value(values[1], 1)
-- 
2.43.0


From 17706ea7f4371867276f78682116d79f19fc0761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:45 +0000
Subject: [PATCH 50/61] fix: a pvAccess channel of a field that does not exist
 yet opens when it does

---
 .../modules/pva/controllers/pvaservercomms.py   | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/malcolm/modules/pva/controllers/pvaservercomms.py b/malcolm/modules/pva/controllers/pvaservercomms.py
index 5ecad9e..42bbfc1 100644
--- a/malcolm/modules/pva/controllers/pvaservercomms.py
+++ b/malcolm/modules/pva/controllers/pvaservercomms.py
@@ -197,12 +197,17 @@ class BlockHandler(Handler):
     def _create_initial_value(self, response: Delta) -> None:
         # Called with the lock taken
         assert response.changes, "No changes"
-        assert (
-            len(response.changes) == 1
-            and len(response.changes[0]) == 2
-            and response.changes[0][0] == []
-        ), f"Expected root update, got {response.changes}"
-        self.value = convert_dict_to_value(response.changes[0][1])
+        # Changes made in one go to a field that has just been created come with it
+        roots = [i for i, change in enumerate(response.changes) if change[0] == []]
+        assert roots, f"Expected root update, got {response.changes}"
+        root = response.changes[roots[-1]]
+        if len(root) == 1 or root[1] is None:
+            # No such field at the moment, keep clients waiting until there is
+            return
+        value = convert_dict_to_value(root[1])
+        for path, update in response.changes[roots[-1] + 1 :]:
+            update_path(value, path, update)
+        self.value = value
         unputtable_ids = (MethodModel.typeid, BlockMeta.typeid)
         if not self.field:
             self.put_paths = set(
-- 
2.43.0


From b889c4e32ac3189e4ae9cf4561dd3a9af6eb1a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:45 +0000
Subject: [PATCH 51/61] fix: a put through a pvAccess proxy may take as long as
 it takes

---
 malcolm/modules/pva/controllers/pvaclientcomms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malcolm/modules/pva/controllers/pvaclientcomms.py b/malcolm/modules/pva/controllers/pvaclientcomms.py
index bb5a447..6031a78 100644
--- a/malcolm/modules/pva/controllers/pvaclientcomms.py
+++ b/malcolm/modules/pva/controllers/pvaclientcomms.py
@@ -136,7 +136,7 @@ class PvaClientComms(builtin.controllers.ClientComms):
             _, typeid, fields = typ
             value = Value(Type(fields, typeid), value)
         try:
-            self._ctxt.put(mri, {path: value}, path)
+            self._ctxt.put(mri, {path: value}, path, timeout=None)
         except RemoteError:
             if attribute_name == "exports":
                 # TODO: use a tag instead of a name
-- 
2.43.0


From 30ad93d1c9405a084d2b6264cdef705ff8780dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:45 +0000
Subject: [PATCH 52/61] fix: what a method returns is the same through a
 pvAccess proxy

---
 malcolm/modules/pva/controllers/pvaclientcomms.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/pva/controllers/pvaclientcomms.py b/malcolm/modules/pva/controllers/pvaclientcomms.py
index 6031a78..48a275f 100644
--- a/malcolm/modules/pva/controllers/pvaclientcomms.py
+++ b/malcolm/modules/pva/controllers/pvaclientcomms.py
@@ -163,4 +163,9 @@ class PvaClientComms(builtin.controllers.ClientComms):
 
         uri = uri.wrap(path=f"{mri}.{method_name}", kws=parameters, scheme="pva")
         value = self._ctxt.rpc(mri, uri, timeout=None)
-        return convert_value_to_dict(value)
+        ret = convert_value_to_dict(value)
+        if list(ret) == ["return"]:
+            # Method gave its return unpacked (bare string or other type), the
+            # server has wrapped it in a structure to send it
+            ret = ret["return"]
+        return ret
-- 
2.43.0


From c11a9ee2a6fb745effccb7c5eed0feb7f3f5dd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:45 +0000
Subject: [PATCH 53/61] fix: a pvAccess proxy follows changes of whole
 structures

---
 malcolm/modules/pva/controllers/pvaclientcomms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/pva/controllers/pvaclientcomms.py b/malcolm/modules/pva/controllers/pvaclientcomms.py
index 48a275f..9762ee1 100644
--- a/malcolm/modules/pva/controllers/pvaclientcomms.py
+++ b/malcolm/modules/pva/controllers/pvaclientcomms.py
@@ -114,7 +114,8 @@ class PvaClientComms(builtin.controllers.ClientComms):
         self, block: BlockModel, value: Value, update_fields: Set[str]
     ) -> None:
         # This is a subsequent update
-        changed = value.changedSet(parents=True, expand=False)
+        # A structure may be marked as changed without marking its fields
+        changed = value.changedSet(parents=True, expand=True)
         for k in changed.intersection(update_fields):
             v = value[k]
             if isinstance(v, Value):
-- 
2.43.0


From 8676dd30d3d3f31c0fc93d8f168ea560ca2ece59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:45 +0000
Subject: [PATCH 54/61] fix: a pvAccess proxy follows changes of the columns of
 a table

---
 malcolm/modules/pva/controllers/pvaclientcomms.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/malcolm/modules/pva/controllers/pvaclientcomms.py b/malcolm/modules/pva/controllers/pvaclientcomms.py
index 9762ee1..0794c08 100644
--- a/malcolm/modules/pva/controllers/pvaclientcomms.py
+++ b/malcolm/modules/pva/controllers/pvaclientcomms.py
@@ -34,17 +34,13 @@ class PvaClientComms(builtin.controllers.ClientComms):
     def _update_settable_fields(
         self, update_fields: Set[str], dotted_path: str, ob: Any
     ) -> None:
-        if isinstance(ob, dict):
-            model_children = all([isinstance(ob[k], Model) for k in ob])
-        else:
-            model_children = False
-
-        if isinstance(ob, Model) or model_children:
+        if isinstance(ob, Model):
             # Recurse down
             for k in ob:
                 self._update_settable_fields(update_fields, f"{dotted_path}.{k}", ob[k])
         else:
-            # This is a terminal field, add to the set
+            # This is a terminal field that can be changed as a whole (a value, or
+            # a dict like the elements of a TableMeta), add to the set
             update_fields.add(dotted_path)
 
     def sync_proxy(self, mri, block):
-- 
2.43.0


From ad68b98636996ab068a02452d0a754b7ed7b2143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:45 +0000
Subject: [PATCH 55/61] fix: a pvAccess proxy follows a choice that is new and
 chosen at once

---
 malcolm/modules/pva/controllers/pvaclientcomms.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/pva/controllers/pvaclientcomms.py b/malcolm/modules/pva/controllers/pvaclientcomms.py
index 0794c08..236b1f0 100644
--- a/malcolm/modules/pva/controllers/pvaclientcomms.py
+++ b/malcolm/modules/pva/controllers/pvaclientcomms.py
@@ -11,6 +11,10 @@ from malcolm.modules import builtin
 from .pvaconvert import Type, convert_to_type_tuple_value, convert_value_to_dict
 
 
+def _is_value(path: str) -> bool:
+    return path.endswith(".value")
+
+
 class PvaClientComms(builtin.controllers.ClientComms):
     """A class for a client to communicate with the server"""
 
@@ -112,7 +116,8 @@ class PvaClientComms(builtin.controllers.ClientComms):
         # This is a subsequent update
         # A structure may be marked as changed without marking its fields
         changed = value.changedSet(parents=True, expand=True)
-        for k in changed.intersection(update_fields):
+        # Do the metas first as the values are validated against them
+        for k in sorted(changed.intersection(update_fields), key=_is_value):
             v = value[k]
             if isinstance(v, Value):
                 v = convert_value_to_dict(v)
-- 
2.43.0


From e1f4d82527732ab5cb13918550eeb7203b59212e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:49 +0000
Subject: [PATCH 56/61] fix: an Odin scan whose frames do not fill all blocks
 can be configured

---
 malcolm/modules/ADOdin/parts/odinwriterpart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malcolm/modules/ADOdin/parts/odinwriterpart.py b/malcolm/modules/ADOdin/parts/odinwriterpart.py
index 807c516..b967952 100644
--- a/malcolm/modules/ADOdin/parts/odinwriterpart.py
+++ b/malcolm/modules/ADOdin/parts/odinwriterpart.py
@@ -95,7 +95,7 @@ def create_raw_dataset_infos(
 
 def files_shape(frames, block_size, file_count):
     # all files get at least per_file blocks
-    per_file = int(frames) / int(file_count * block_size)
+    per_file = int(frames) // int(file_count * block_size)
     # this is the remainder once per_file blocks have been distributed
     remainder = int(frames) % int(file_count * block_size)
 
-- 
2.43.0


From ba77666f7d8f045fba7c257de596614e8618e1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:03 +0000
Subject: [PATCH 57/61] fix: the datasets of an Odin detector are those in its
 file

---
 malcolm/modules/ADOdin/parts/odinwriterpart.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/ADOdin/parts/odinwriterpart.py b/malcolm/modules/ADOdin/parts/odinwriterpart.py
index b967952..4bb416e 100644
--- a/malcolm/modules/ADOdin/parts/odinwriterpart.py
+++ b/malcolm/modules/ADOdin/parts/odinwriterpart.py
@@ -73,7 +73,7 @@ def create_dataset_infos(
 def create_raw_dataset_infos(
     name: str, rank: int, filename: str, n_raw: int
 ) -> Iterator[Info]:
-    for i in range(n_raw + 1):
+    for i in range(n_raw):
         yield scanning.infos.DatasetProducedInfo(
             name=f"{name}.raw{i+1}",
             filename=filename,
@@ -82,7 +82,7 @@ def create_raw_dataset_infos(
             path="/raw" + str(i + 1),
             uniqueid="",
         )
-    for i in range(n_raw + 1):
+    for i in range(n_raw):
         yield scanning.infos.DatasetProducedInfo(
             name=f"{name}.uid{i+1}",
             filename=filename,
-- 
2.43.0


From 90292a11e94e345c109bb568c4a1f374c345bd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:57 +0000
Subject: [PATCH 58/61] fix: the uid links of an Odin file follow the name of
 the uid dataset

---
 malcolm/modules/ADOdin/parts/odinwriterpart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malcolm/modules/ADOdin/parts/odinwriterpart.py b/malcolm/modules/ADOdin/parts/odinwriterpart.py
index 4bb416e..e56b82f 100644
--- a/malcolm/modules/ADOdin/parts/odinwriterpart.py
+++ b/malcolm/modules/ADOdin/parts/odinwriterpart.py
@@ -200,7 +200,7 @@ def create_vds(generator, raw_name, vds_path, child, uid_name, sum_name):
         count = 1
         for f in files:
             vds["raw" + str(count)] = h5py.ExternalLink(f, "/data")
-            vds["uid" + str(count)] = h5py.ExternalLink(f, "/uid")
+            vds["uid" + str(count)] = h5py.ExternalLink(f, "/" + uid_name)
             count += 1
 
     shape = (hdf_shape, 1, 1)
-- 
2.43.0


From 5cc9103bb71693833744f22e0a4d504365640c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:01 +0000
Subject: [PATCH 59/61] fix: a scan file that cannot be loaded is a fault of
 the scan runner

---
 .../modules/scanning/parts/scanrunnerpart.py  | 30 ++++++++++++-------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/malcolm/modules/scanning/parts/scanrunnerpart.py b/malcolm/modules/scanning/parts/scanrunnerpart.py
index e8b068c..8917b29 100644
--- a/malcolm/modules/scanning/parts/scanrunnerpart.py
+++ b/malcolm/modules/scanning/parts/scanrunnerpart.py
@@ -216,17 +216,25 @@ class ScanRunnerPart(ChildPart):
         self.scan_sets = {}
 
         # Parse the configuration
-        for item in parsed_yaml:
-            key_name = list(item.keys())[0].upper()
-            if key_name == EntryType.SCAN.name:
-                self.parse_scan(item["scan"])
-            else:
-                self.set_runner_state(RunnerStates.FAULT)
-                self.runner_status_message.value = "Unidentified key in YAML"
-                raise ValueError(f"Unidentified object in YAML: {key_name}")
-
-        # Count the number of scans configured
-        self.update_scans_configured()
+        message = "Could not parse scan file"
+        try:
+            for item in parsed_yaml:
+                key_name = list(item.keys())[0].upper()
+                if key_name == EntryType.SCAN.name:
+                    self.parse_scan(item["scan"])
+                else:
+                    message = "Unidentified key in YAML"
+                    raise ValueError(f"Unidentified object in YAML: {key_name}")
+
+            # Count the number of scans configured
+            self.update_scans_configured()
+        except Exception:
+            # Don't keep the scans of half a file
+            self.scan_sets = {}
+            self.update_scans_configured()
+            self.set_runner_state(RunnerStates.FAULT)
+            self.runner_status_message.set_value(message)
+            raise
 
         self.set_runner_state(RunnerStates.CONFIGURED)
         self.runner_status_message.set_value("Load complete")
-- 
2.43.0


From ac945bebead27036db3b8dd7608e99bc4e78d707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:01 +0000
Subject: [PATCH 60/61] fix: a scan runner that cannot go on is not Running

---
 malcolm/modules/scanning/parts/scanrunnerpart.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/malcolm/modules/scanning/parts/scanrunnerpart.py b/malcolm/modules/scanning/parts/scanrunnerpart.py
index 8917b29..410c0a9 100644
--- a/malcolm/modules/scanning/parts/scanrunnerpart.py
+++ b/malcolm/modules/scanning/parts/scanrunnerpart.py
@@ -303,10 +303,16 @@ class ScanRunnerPart(ChildPart):
         scan_block = self.context.block_view(self.mri)
 
         # Cycle through the scan sets
-        for key in self.scan_sets:
-            self.run_scan_set(
-                self.scan_sets[key], scan_block, sub_directory, report_filepath
-            )
+        try:
+            for key in self.scan_sets:
+                self.run_scan_set(
+                    self.scan_sets[key], scan_block, sub_directory, report_filepath
+                )
+        except Exception as e:
+            if self.runner_state.value == self.get_enum_label(RunnerStates.RUNNING):
+                self.set_runner_state(RunnerStates.FAULT)
+                self.runner_status_message.set_value(f"Scans failed: {e}")
+            raise
 
         self.set_runner_state(RunnerStates.FINISHED)
         self.current_scan_set.set_value("")
-- 
2.43.0


From 791427b959fe79e197f116df505a6080d6f45663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:31 +0000
Subject: [PATCH 61/61] fix: a block with an attribute pre run part can be
 reset after a disable

on_reset() replaced the one of ChildPart, so the child was never reset and the
put of the reset value was refused as the child was still disabled
---
 malcolm/modules/scanning/parts/attributeprerunpart.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/malcolm/modules/scanning/parts/attributeprerunpart.py b/malcolm/modules/scanning/parts/attributeprerunpart.py
index 5f60acf..c1cb702 100644
--- a/malcolm/modules/scanning/parts/attributeprerunpart.py
+++ b/malcolm/modules/scanning/parts/attributeprerunpart.py
@@ -57,5 +57,6 @@ class AttributePreRunPart(builtin.parts.ChildPart):
 
     @add_call_types
     def on_reset(self, context: AContext) -> None:
+        super().on_reset(context)
         child = context.block_view(self.mri)
         getattr(child, self.attribute_name).put_value(self.reset_value)
-- 
2.43.0

