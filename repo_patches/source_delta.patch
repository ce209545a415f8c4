From 02c90c10e6482f12ad8d28bf3bc15a8ad3765fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:37 +0000
Subject: [PATCH 01/79] fix: Simulation.run_until/run_for raised
 UnboundLocalError when no iteration remained

---
 lib/b_asic/simulation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/simulation.py b/lib/b_asic/simulation.py
index bf5544e..d9e77a0 100644
--- a/lib/b_asic/simulation.py
+++ b/lib/b_asic/simulation.py
@@ -46,6 +46,7 @@ class Simulation:
     _results: MutableResultArrayMap
     _delays: MutableDelayMap
     _iteration: int
+    _output_values: list[Num]
     _input_functions: list[InputFunction]
     _input_length: int | None
     _data_type: DataType | None
@@ -65,6 +66,7 @@ class Simulation:
         self._results = defaultdict(list)
         self._delays = {}
         self._iteration = 0
+        self._output_values: list[Num] = []
         self._input_functions = [lambda _: 0 for _ in range(self._sfg.input_count)]
         self._input_length = None
         if input_providers is not None:
@@ -238,9 +240,12 @@ class Simulation:
             if save_results:
                 for key, value in results.items():
                     self._results[key].append(value)
+            self._output_values = [
+                results[op.graph_id] for op in self._sfg.output_operations
+            ]
             self._iteration += 1
 
-        return [results[op.graph_id] for op in self._sfg.output_operations]
+        return list(self._output_values)
 
     def run_for(self, iterations: int, save_results: bool = True) -> Sequence[Num]:
         """
-- 
2.43.0


From 051c0b6c4a9fdb72e190706e740f9169d4edc4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:37 +0000
Subject: [PATCH 02/79] fix: a failing simulation iteration no longer advances
 delays inside nested SFGs

---
 lib/b_asic/simulation.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/b_asic/simulation.py b/lib/b_asic/simulation.py
index d9e77a0..b7811a2 100644
--- a/lib/b_asic/simulation.py
+++ b/lib/b_asic/simulation.py
@@ -178,13 +178,16 @@ class Simulation:
                         input_vals.append(results[src_key])
                     else:
                         val = src_op.current_output(
-                            src_port.index, self._delays, src_op.graph_id
+                            src_port.index, delays, src_op.graph_id
                         )
                         input_vals.append(val)
             return input_vals
 
         while self._iteration < iteration:
             results: dict[ResultKey, Num] = {}
+            # Work on a copy, so that an iteration that fails (e.g., because an input
+            # function raises) leaves the state as it was before the iteration
+            delays = dict(self._delays)
             # Fetch the input values for this iteration
             input_values = [
                 self._input_functions[i](self._iteration)
@@ -202,7 +205,7 @@ class Simulation:
                     # If the operation is a Delay, handle it specially
                     if isinstance(out_port.operation, Delay):
                         val = out_port.operation.evaluate(
-                            None, self._data_type, self._delays
+                            None, self._data_type, delays
                         )
                         results[
                             out_port.operation.key(0, out_port.operation.graph_id)
@@ -217,7 +220,7 @@ class Simulation:
                         out_port.index,
                         input_vals,
                         results,
-                        self._delays,
+                        delays,
                         out_port.operation.graph_id,
                         data_type=self._data_type,
                     )
@@ -230,13 +233,14 @@ class Simulation:
             # Update the value of the delay elements
             for delay_op in self._sfg.find_by_type(Delay):
                 input_val = get_input_values_for_op(delay_op)[0]
-                self._delays[delay_op.key(0, delay_op.graph_id)] = input_val
+                delays[delay_op.key(0, delay_op.graph_id)] = input_val
 
             # Update the output values
             for output_op in self._sfg.output_operations:
                 val = get_input_values_for_op(output_op)[0]
                 results[output_op.graph_id] = val
 
+            self._delays = delays
             if save_results:
                 for key, value in results.items():
                     self._results[key].append(value)
-- 
2.43.0


From 7fcbe092702ec963403c948745f2fb5f4eb090e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:12 +0000
Subject: [PATCH 03/79] fix: R2DIF/R2DIT/R2TF butterflies could not be copied
 into an SFG

---
 lib/b_asic/fft_operations.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/fft_operations.py b/lib/b_asic/fft_operations.py
index f0851ae..93dc7e6 100644
--- a/lib/b_asic/fft_operations.py
+++ b/lib/b_asic/fft_operations.py
@@ -6,7 +6,7 @@ Contains selected FFT butterfly operations.
 
 import math
 
-from b_asic.graph_component import Name, TypeName
+from b_asic.graph_component import GraphComponent, Name, TypeName
 from b_asic.operation import AbstractOperation
 from b_asic.port import SignalSourceProvider
 from b_asic.types import Num
@@ -171,6 +171,10 @@ class R2DIFButterfly(AbstractOperation):
     def type_name(cls) -> TypeName:
         return TypeName("r2difbfly")
 
+    def copy(self, *args, **kwargs) -> GraphComponent:
+        # doc-string inherited
+        return super().copy(self.w, *args, **kwargs)
+
     def evaluate(self, a, b, data_type=None) -> Num:
         res = a + b, self.w * (a - b)
         return (
@@ -268,6 +272,10 @@ class R2DITButterfly(AbstractOperation):
     def type_name(cls) -> TypeName:
         return TypeName("r2ditbfly")
 
+    def copy(self, *args, **kwargs) -> GraphComponent:
+        # doc-string inherited
+        return super().copy(self.w, *args, **kwargs)
+
     def evaluate(self, a, b, data_type=None) -> Num:
         tmp_b = self.w * b
         res = a + tmp_b, a - tmp_b
@@ -372,6 +380,10 @@ class R2TFButterfly(AbstractOperation):
     def type_name(cls) -> TypeName:
         return TypeName("r2tfbfly")
 
+    def copy(self, *args, **kwargs) -> GraphComponent:
+        # doc-string inherited
+        return super().copy(self.w0, self.w1, *args, **kwargs)
+
     def evaluate(self, a, b, data_type=None) -> Num:
         res = self.w0 * (a + b), self.w1 * (a - b)
         return (
-- 
2.43.0


From 0edabe63843ca0d11c00a30393c72afd470a7498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:07 +0000
Subject: [PATCH 04/79] fix: moving and rotating operations lost or gained laps
 for late inputs, self-loops and zero latencies

---
 lib/b_asic/schedule.py | 221 ++++++++++++++---------------------------
 1 file changed, 72 insertions(+), 149 deletions(-)

diff --git a/lib/b_asic/schedule.py b/lib/b_asic/schedule.py
index 9212513..50859ce 100644
--- a/lib/b_asic/schedule.py
+++ b/lib/b_asic/schedule.py
@@ -918,76 +918,65 @@ class Schedule:
                 f" between {-backward_slack} and {forward_slack}."
             )
 
-        old_start = self._start_times[graph_id]
-        tmp_start = old_start + time
-        new_start = tmp_start % self._schedule_time
+        # The move changes the slack of all signals to and from the operation by *time*.
+        # For a signal from the operation to itself, the changes cancel.
+        slacks: dict[Signal, int] = {}
+        for signal_slacks in self._backward_slacks(graph_id).values():
+            for signal, slack in signal_slacks.items():
+                slacks[signal] = slack + time
+        for signal_slacks in self._forward_slacks(graph_id).values():
+            for signal, slack in signal_slacks.items():
+                slacks[signal] = slacks.get(signal, slack) - time
+
+        self._place_with_slacks({graph_id: self._start_times[graph_id] + time}, slacks)
+        return self
 
-        # Update input laps
-        input_slacks = self._backward_slacks(graph_id)
-        for in_port, signal_slacks in input_slacks.items():
-            tmp_usage = tmp_start + cast(int, in_port.latency_offset)
-            new_usage = tmp_usage % self._schedule_time
-            for signal, signal_slack in signal_slacks.items():
-                # New slack
-                new_slack = signal_slack + time
-                # Compute a lower limit on laps
-                laps = new_slack // self._schedule_time
-                # Compensate for cases where above is not correct
-                tmp_prev_available = tmp_usage - new_slack
-                prev_available = tmp_prev_available % self._schedule_time
-                # If prev_available == 0 it will come from previous lap, unless it comes
-                # from an Input
-                source_op = signal.source_operation
-                if prev_available == 0 and not isinstance(source_op, Input):
-                    prev_available = self._schedule_time
-                # Usage time (new_usage) < available time (prev_available) within a
-                # schedule period
-                if new_usage < prev_available:
-                    laps += 1
-                self._laps[signal.graph_id] = laps
-
-        # Update output laps
-        output_slacks = self._forward_slacks(graph_id)
-        for out_port, signal_slacks in output_slacks.items():
-            tmp_available = tmp_start + cast(int, out_port.latency_offset)
-            new_available = tmp_available % self._schedule_time
-            for signal, signal_slack in signal_slacks.items():
-                # New slack
-                new_slack = signal_slack - time
-                # Compute a lower limit on laps
-                laps = new_slack // self._schedule_time
-                # Compensate for cases where above is not correct
-                tmp_next_usage = tmp_available + new_slack
-                next_usage = tmp_next_usage % self._schedule_time
-                # Usage time (new_usage) < available time (prev_available) within a
-                # schedule period
-                if new_available == 0 and (new_slack > 0 or next_usage == 0):
-                    new_available = self._schedule_time
-                if (
-                    next_usage < new_available
-                    and self._start_times[signal.destination_operation.graph_id]
-                    != self.schedule_time
-                ):
-                    laps += 1
-                self._laps[signal.graph_id] = laps
+    def _place_with_slacks(
+        self, times: dict[GraphID, int], slacks: dict[Signal, int]
+    ) -> None:
+        """
+        Place operations and update the laps such that the signals get the given slacks.
 
-        # Outputs should not start at 0, but at schedule time
-        op = self._sfg.find_by_id(graph_id)
-        if (
-            new_start == 0
-            and isinstance(op, Output)
-            and self._laps[op.input(0).signals[0].graph_id] != 0
-        ):
-            new_start = self._schedule_time
-            self._laps[op.input(0).signals[0].graph_id] -= 1
-        if new_start == 0 and isinstance(op, Input):
-            new_start = 0
-            for signal in op.output(0).signals:
-                if self._laps[signal.graph_id] != 0:
+        Parameters
+        ----------
+        times : dict[GraphID, int]
+            New start times. Can be outside of the schedule period.
+        slacks : dict[Signal, int]
+            The slack of each signal for which the laps should be updated.
+        """
+        for graph_id, time in times.items():
+            self._start_times[graph_id] = time % self._schedule_time
+
+        for signal, slack in slacks.items():
+            self._laps[signal.graph_id] = self._laps_from_slack(signal, slack)
+
+        # Outputs and Sinks should not start at 0, but at schedule time
+        for graph_id in times:
+            op = self._sfg.find_by_id(graph_id)
+            if isinstance(op, (Output, Sink)) and self._start_times[graph_id] == 0:
+                signal = op.input(0).signals[0]
+                if self._laps[signal.graph_id] > 0:
+                    self._start_times[graph_id] = self._schedule_time
                     self._laps[signal.graph_id] -= 1
-        # Set new start time
-        self._start_times[graph_id] = new_start
-        return self
+
+    def _laps_from_slack(self, signal: Signal, slack: int) -> int:
+        """Return the laps that give *signal* the slack *slack*."""
+        source = cast(OutputPort, signal.source)
+        destination = cast(InputPort, signal.destination)
+        usage_time = self._start_times[destination.operation.graph_id] + cast(
+            int, destination.latency_offset
+        )
+        if isinstance(source.operation, Delay):
+            return (slack - usage_time) // self._schedule_time
+        available_time = self._start_times[source.operation.graph_id] + cast(
+            int, source.latency_offset
+        )
+        if isinstance(source.operation, DontCare):
+            # The value does not depend on the iteration
+            return 0 if usage_time >= available_time else 1
+        if available_time > self._schedule_time:
+            available_time -= self._schedule_time
+        return (slack + available_time - usage_time) // self._schedule_time
 
     def move_operation_alap(self, graph_id: GraphID) -> "Schedule":
         """
@@ -1039,94 +1028,28 @@ class Schedule:
 
     def rotate_forward(self) -> "Schedule":
         """Rotate the schedule one cycle forward."""
-        if not self._cyclic:
-            raise ValueError("Cannot rotate non-cyclic schedule.")
-
-        for graph_id, start_time in self._start_times.items():
-            op = cast(Operation, self._sfg.find_by_id(graph_id))
-            new_time = (start_time + 1) % self._schedule_time
-
-            for input_signal in op.input_signals:
-                # move resulted in the input wrapping around
-                if (
-                    start_time + 1 + input_signal.destination.latency_offset
-                    == self._schedule_time
-                ):
-                    self._laps[input_signal.graph_id] += 1
-
-            for output_signal in op.output_signals:
-                # move resulted in the output wrapping around
-                if (
-                    start_time + output_signal.source.latency_offset
-                    == self._schedule_time
-                ):
-                    self._laps[output_signal.graph_id] -= 1
-
-            if isinstance(op, (Output, Sink)) and start_time == self._schedule_time:
-                # special case, output has wrapped around
-                for input_signal in op.input_signals:
-                    self._laps[input_signal.graph_id] += 1
-
-            # place the operation at the correct position
-            if (
-                isinstance(op, (Input, DontCare))
-                and start_time == self._schedule_time - 1
-            ):
-                self._start_times[graph_id] = 0
-                for output_signal in op.output_signals:
-                    self._laps[output_signal.graph_id] -= 1
-            elif (
-                isinstance(op, (Output, Sink)) and start_time == self._schedule_time - 1
-            ):
-                self._start_times[graph_id] = self._schedule_time
-                for input_signal in op.input_signals:
-                    self._laps[input_signal.graph_id] -= 1
-            else:
-                self._start_times[graph_id] = new_time
-        return self
+        return self._rotate(1)
 
     def rotate_backward(self) -> "Schedule":
         """Rotate the schedule one cycle backward."""
+        return self._rotate(-1)
+
+    def _rotate(self, time: int) -> "Schedule":
+        """Move all operations by *time*, keeping the slacks."""
         if not self._cyclic:
             raise ValueError("Cannot rotate non-cyclic schedule.")
 
-        for graph_id, start_time in self._start_times.items():
-            op = cast(Operation, self._sfg.find_by_id(graph_id))
-            new_time = (start_time - 1) % self._schedule_time
-
-            for input_signal in op.input_signals:
-                # move resulted in the input wrapping around
-                if start_time + input_signal.destination.latency_offset == 0:
-                    self._laps[input_signal.graph_id] -= 1
-
-            for output_signal in op.output_signals:
-                # move resulted in the output wrapping around
-                if start_time - 1 + output_signal.source.latency_offset == 0:
-                    # normal wrap around
-                    self._laps[output_signal.graph_id] += 1
-                if (
-                    start_time - 1 + output_signal.source.latency_offset
-                    == self._schedule_time
-                ):
-                    # output time now in schedule period
-                    self._laps[output_signal.graph_id] += 1
-
-            if isinstance(op, (Input, DontCare)) and start_time == 0:
-                # special case, input has wrapped around
-                for output_signal in op.output_signals:
-                    self._laps[output_signal.graph_id] += 1
-
-            # place the operation at the correct position
-            if isinstance(op, (Input, DontCare)) and start_time == 1:
-                self._start_times[graph_id] = 0
-                for output_signal in op.output_signals:
-                    self._laps[output_signal.graph_id] -= 1
-            elif isinstance(op, (Output, Sink)) and start_time == 1:
-                self._start_times[graph_id] = self._schedule_time
-                for input_signal in op.input_signals:
-                    self._laps[input_signal.graph_id] -= 1
-            else:
-                self._start_times[graph_id] = new_time
+        slacks: dict[Signal, int] = {}
+        for graph_id in self._start_times:
+            for signal_slacks in self._forward_slacks(graph_id).values():
+                slacks.update(signal_slacks)
+        self._place_with_slacks(
+            {
+                graph_id: start_time + time
+                for graph_id, start_time in self._start_times.items()
+            },
+            slacks,
+        )
         return self
 
     def _remove_delays_no_laps(self) -> None:
-- 
2.43.0


From 223112803d16da8b996406ac78c37b3d4faf43e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:23 +0000
Subject: [PATCH 05/79] fix: changing latencies could break slacks or laps, and
 raised UnboundLocalError without a matching operation

---
 lib/b_asic/schedule.py | 69 +++++++++++++++++++++++++-----------------
 1 file changed, 42 insertions(+), 27 deletions(-)

diff --git a/lib/b_asic/schedule.py b/lib/b_asic/schedule.py
index 50859ce..f43f186 100644
--- a/lib/b_asic/schedule.py
+++ b/lib/b_asic/schedule.py
@@ -715,20 +715,14 @@ class Schedule:
         latency : int
             The latency of the operation.
         """
-        passed = True
-        for op in self._sfg.operations:
-            if type_name in (op.type_name(), op.graph_id):
-                change_in_latency = latency - op.latency
-                if change_in_latency > (self.forward_slack(op.graph_id)):
-                    passed = False
-                    raise ValueError(
-                        f"Cannot increase latency for {op.graph_id}. Try increasing forward slack time by rescheduling."
-                    )
-                    break
-        if change_in_latency < 0 or passed:
-            for op in self._sfg.operations:
-                if type_name in (op.type_name(), op.graph_id):
-                    cast(Operation, op).set_latency(latency)
+        self._set_latency(
+            [
+                op
+                for op in self._sfg.operations
+                if type_name in (op.type_name(), op.graph_id)
+            ],
+            latency,
+        )
 
     def set_latency_of_type(
         self, operation_type: type[Operation], latency: int
@@ -743,20 +737,41 @@ class Schedule:
         latency : int
             The latency of the operation.
         """
-        passed = True
-        for op in self._sfg.operations:
-            if isinstance(op, operation_type):
-                change_in_latency = latency - op.latency
-                if change_in_latency > (self.forward_slack(op.graph_id)):
-                    passed = False
-                    raise ValueError(
-                        f"Cannot increase latency for {op.graph_id}. Try increasing forward slack time by rescheduling."
+        self._set_latency(
+            [op for op in self._sfg.operations if isinstance(op, operation_type)],
+            latency,
+        )
+
+    def _set_latency(self, operations: Sequence[Operation], latency: int) -> None:
+        """Set the latency of *operations*, keeping what the schedule computes."""
+        slacks: dict[Signal, int] = {}
+        for op in operations:
+            # The inputs are read at the start of the operation
+            for signal_slacks in self._backward_slacks(op.graph_id).values():
+                for signal, slack in signal_slacks.items():
+                    slacks[signal] = slacks.get(signal, slack) - cast(
+                        int, signal.destination.latency_offset
+                    )
+            # The outputs are available after the latency
+            for output_port, signal_slacks in self._forward_slacks(op.graph_id).items():
+                for signal, slack in signal_slacks.items():
+                    slacks[signal] = (
+                        slacks.get(signal, slack)
+                        + cast(int, output_port.latency_offset)
+                        - latency
                     )
-                    break
-        if change_in_latency < 0 or passed:
-            for op in self._sfg.operations:
-                if isinstance(op, operation_type):
-                    cast(Operation, op).set_latency(latency)
+        for signal, slack in slacks.items():
+            if slack < 0 and not isinstance(signal.source.operation, DontCare):
+                raise ValueError(
+                    f"Cannot set latency to {latency}, too small slack from"
+                    f" {signal.source.operation.graph_id} to"
+                    f" {signal.destination.operation.graph_id}."
+                    " Try increasing forward slack time by rescheduling."
+                )
+        for op in operations:
+            op.set_latency(latency)
+        for signal, slack in slacks.items():
+            self._laps[signal.graph_id] = self._laps_from_slack(signal, slack)
 
     def move_y_location(
         self, graph_id: GraphID, new_y: int, insert: bool = False
-- 
2.43.0


From a2ef4bac1099983d1cc547dbba4c2ce81bb4e411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:54 +0000
Subject: [PATCH 06/79] fix: additions that multiply src1 by j are not
 swappable

---
 lib/b_asic/core_operations.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/b_asic/core_operations.py b/lib/b_asic/core_operations.py
index 8efd04e..5cf0077 100644
--- a/lib/b_asic/core_operations.py
+++ b/lib/b_asic/core_operations.py
@@ -245,7 +245,6 @@ class Addition(AbstractOperation):
     _shift_output: int
 
     is_linear = True
-    is_swappable = True
 
     def __init__(
         self,
@@ -287,6 +286,11 @@ class Addition(AbstractOperation):
             return f"({expr}) >> {self.shift_output}"
         return expr
 
+    @property
+    def is_swappable(self) -> bool:
+        # Only src1 is multiplied by j
+        return not self.mul_j
+
     @property
     def mul_j(self) -> bool:
         """
@@ -766,7 +770,7 @@ class AddSub(AbstractOperation):
 
     @property
     def is_swappable(self) -> bool:
-        return self.is_add
+        return self.is_add and not self.mul_j
 
     def _rewrite_ShiftAddSub(self) -> "SFG":
         from b_asic.sfg import SFG  # noqa: PLC0415
@@ -1014,7 +1018,7 @@ class ShiftAddSub(AbstractOperation):
 
     @property
     def is_swappable(self) -> bool:
-        return self.is_add and self.shift == 0
+        return self.is_add and self.shift == 0 and not self.mul_j
 
 
 class Multiplication(AbstractOperation):
-- 
2.43.0


From 84745afb56afa1a61d0360c984dd47ece72f01ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:48 +0000
Subject: [PATCH 07/79] fix: ALAP refused graphs with a late Input, a negative
 lap was needed

---
 lib/b_asic/schedule.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/b_asic/schedule.py b/lib/b_asic/schedule.py
index f43f186..29270d8 100644
--- a/lib/b_asic/schedule.py
+++ b/lib/b_asic/schedule.py
@@ -965,6 +965,13 @@ class Schedule:
         for signal, slack in slacks.items():
             self._laps[signal.graph_id] = self._laps_from_slack(signal, slack)
 
+        # Values without a preceding operation can be taken from an earlier iteration
+        for source in {signal.source.operation for signal in slacks}:
+            laps = min(self._laps[sig.graph_id] for sig in source.output_signals)
+            if source.input_count == 0 and laps < 0:
+                for sig in source.output_signals:
+                    self._laps[sig.graph_id] -= laps
+
         # Outputs and Sinks should not start at 0, but at schedule time
         for graph_id in times:
             op = self._sfg.find_by_id(graph_id)
-- 
2.43.0


From 8cb71f164736a1cab95330173312196ea629dbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:13 +0000
Subject: [PATCH 08/79] fix: list schedulers raised KeyError for graphs with a
 Sink

---
 lib/b_asic/scheduler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/scheduler.py b/lib/b_asic/scheduler.py
index 0f1f787..a3c5694 100644
--- a/lib/b_asic/scheduler.py
+++ b/lib/b_asic/scheduler.py
@@ -668,6 +668,8 @@ class ListScheduler(Scheduler):
     def _calculate_deadlines(self) -> dict["GraphID", int]:
         deadlines = {}
         for op_id, start_time in self._alap_start_times.items():
+            if op_id not in self._alap_op_laps:
+                continue
             op = cast(Operation, self._schedule._sfg.find_by_id(op_id))
             output_offsets = [cast(int, output.latency_offset) for output in op.outputs]
             start_time += self._alap_op_laps[op_id] * self._alap_schedule_time
@@ -678,6 +680,7 @@ class ListScheduler(Scheduler):
         return {
             op_id: start_time + self._alap_op_laps[op_id] * self._alap_schedule_time
             for op_id, start_time in self._alap_start_times.items()
+            if op_id in self._alap_op_laps
         }
 
     def _calculate_fan_outs(self) -> dict["GraphID", int]:
@@ -919,7 +922,9 @@ class ListScheduler(Scheduler):
         self._remaining_ops = [
             op_id
             for op_id in self._remaining_ops
-            if not isinstance(self._schedule._sfg.find_by_id(op_id), (Delay, DontCare))
+            if not isinstance(
+                self._schedule._sfg.find_by_id(op_id), (Delay, DontCare, Sink)
+            )
         ]
         self._remaining_ops = [
             op_id
-- 
2.43.0


From 1ad4d2a731bff95d952f564589d8ac9101943d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:38 +0000
Subject: [PATCH 09/79] fix: list schedulers did not terminate when the
 constraints cannot be satisfied

---
 lib/b_asic/scheduler.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/lib/b_asic/scheduler.py b/lib/b_asic/scheduler.py
index a3c5694..05bc4eb 100644
--- a/lib/b_asic/scheduler.py
+++ b/lib/b_asic/scheduler.py
@@ -957,6 +957,11 @@ class ListScheduler(Scheduler):
         log.debug("Non-recursive operation scheduling starting")
         while self._remaining_ops:
             prio_table = self._get_priority_table(self._remaining_ops)
+            if not prio_table and self._current_time > self._latest_change_time():
+                raise ValueError(
+                    f"Operations {self._remaining_ops} cannot be scheduled within"
+                    " the given constraints."
+                )
             while prio_table:
                 next_op_id = self._get_next_op_id(prio_table)
                 next_op = self._schedule._sfg.find_by_id(next_op_id)
@@ -1005,6 +1010,19 @@ class ListScheduler(Scheduler):
         self._current_time -= 1
         log.debug("Non-recursive operation scheduling completed")
 
+    def _latest_change_time(self) -> int:
+        """Time after which waiting does not make any more operations schedulable."""
+        schedule_time = self._schedule._schedule_time or 0
+        end_times = [0]
+        for op_id, start_time in self._schedule.start_times.items():
+            op = cast(Operation, self._schedule._sfg.find_by_id(op_id))
+            end_times.append(
+                start_time
+                + self._op_laps[op_id] * schedule_time
+                + max(op.execution_time or 0, *op.latency_offsets.values())
+            )
+        return max(end_times) + schedule_time
+
     def _update_port_reads(self, next_op: Operation) -> None:
         for input_port in next_op.inputs:
             source_port = cast(OutputPort, input_port.signals[0].source)
-- 
2.43.0


From 336d56c4425d14917994cac9f1e1ddaa2cdf9309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:19 +0000
Subject: [PATCH 10/79] fix: cyclic list schedules did not keep the delays of
 the SFG

---
 lib/b_asic/scheduler.py | 74 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 73 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/scheduler.py b/lib/b_asic/scheduler.py
index 05bc4eb..fc8ef0b 100644
--- a/lib/b_asic/scheduler.py
+++ b/lib/b_asic/scheduler.py
@@ -15,6 +15,7 @@ import pulp
 import b_asic.logger
 from b_asic.operation import Operation
 from b_asic.port import InputPort, OutputPort
+from b_asic.signal import Signal
 from b_asic.special_operations import Delay, Input, Output
 from b_asic.types import TypeName
 from b_asic.utility_operations import DontCare, Sink
@@ -203,6 +204,9 @@ class Scheduler(ABC):
                     lap_number = new_time // self._schedule._schedule_time
                     self._op_laps[output.graph_id] = lap_number
                     self._schedule._place_operation(output, new_time, self._op_laps)
+                    self._op_laps[output.graph_id] = (
+                        new_time - self._schedule.start_times[output.graph_id]
+                    ) // self._schedule._schedule_time
                 else:
                     self._schedule.start_times[output.graph_id] = new_time
 
@@ -241,7 +245,14 @@ class Scheduler(ABC):
                         self._schedule._cyclic
                         and self._schedule._schedule_time is not None
                     ):
+                        old_time = self._schedule.start_times[output.graph_id]
                         self._schedule.move_operation(output.graph_id, -min_slack)
+                        if output.graph_id in self._op_laps:
+                            self._op_laps[output.graph_id] += (
+                                old_time
+                                - min_slack
+                                - self._schedule.start_times[output.graph_id]
+                            ) // self._schedule._schedule_time
                     else:
                         self._schedule.start_times[output.graph_id] = (
                             self._schedule.start_times[output.graph_id] - min_slack
@@ -594,6 +605,7 @@ class ListScheduler(Scheduler):
 
         if self._schedule._schedule_time is None:
             self._schedule.set_schedule_time(self._schedule.get_max_end_time())
+        self._update_laps()
         self._schedule.remove_delays()
         self._handle_utility_operations()
         if self._sort_y_location:
@@ -601,6 +613,65 @@ class ListScheduler(Scheduler):
         self._validate_constraints()
         log.debug("Scheduling completed")
 
+    def _update_laps(self) -> None:
+        """
+        Set the laps such that the schedule has the same delays as the SFG.
+
+        Operations whose inputs are not available yet are moved to a later lap.
+        """
+        schedule_time = cast(int, self._schedule._schedule_time)
+        if not schedule_time:
+            return
+        start_times = self._schedule.start_times
+        op_laps = {op_id: self._op_laps.get(op_id, 0) for op_id in start_times}
+        # Outputs with given times are moved together
+        groups = {op_id: [op_id] for op_id in op_laps}
+        groups |= dict.fromkeys(
+            self._output_delta_times, list(self._output_delta_times)
+        )
+
+        signals: list[tuple[Signal, GraphID, GraphID, int, int, int]] = []
+        for op_id, start_time in start_times.items():
+            for input_port in self._schedule._sfg.find_by_id(op_id).inputs:
+                signal = input_port.signals[0]
+                source_port = cast(OutputPort, signal.source)
+                delays = 0
+                while isinstance(source_port.operation, Delay):
+                    source_port = source_port.operation.input(0).signals[0].source
+                    delays += 1
+                source_id = source_port.operation.graph_id
+                if source_id not in start_times:  # DontCare
+                    continue
+                available_time = start_times[source_id] + source_port.latency_offset
+                usage_time = start_time + input_port.latency_offset
+                # The laps do not include the one if the source ends in the next lap
+                extra = 1 if available_time > schedule_time else 0
+                required = max(
+                    extra, math.ceil((available_time - usage_time) / schedule_time)
+                )
+                signals.append((signal, source_id, op_id, delays, extra, required))
+
+        for _ in range(len(op_laps) + 1):
+            changed = False
+            for _, source_id, op_id, delays, _, required in signals:
+                missing = op_laps[source_id] + required - op_laps[op_id] - delays
+                if missing > 0:
+                    for moved_id in groups[op_id]:
+                        op_laps[moved_id] += missing
+                    changed = True
+            if not changed:
+                break
+        else:
+            raise ValueError(
+                "No valid schedule found: a recursive loop does not fit in the"
+                " scheduling time."
+            )
+
+        for signal, source_id, op_id, _, extra, _ in signals:
+            self._schedule.laps[signal.graph_id] = (
+                op_laps[op_id] - op_laps[source_id] - extra
+            )
+
     def _validate_constraints(self) -> None:
         for time_slot in range(self._schedule._schedule_time):
             for op_type, constraint in self._remaining_resources.items():
@@ -978,7 +1049,8 @@ class ListScheduler(Scheduler):
                     next_op, self._current_time, self._op_laps
                 )
                 self._op_laps[next_op_id] = (
-                    (self._current_time) // self._schedule._schedule_time
+                    (self._current_time - self._schedule.start_times[next_op_id])
+                    // self._schedule._schedule_time
                     if self._schedule._schedule_time
                     else 0
                 )
-- 
2.43.0


From 2cde92ade472f6ce4a58b673436382b7553aedf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:19 +0000
Subject: [PATCH 11/79] fix: RecursiveListScheduler raised KeyError for graphs
 with a Sink

---
 lib/b_asic/schedule.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/b_asic/schedule.py b/lib/b_asic/schedule.py
index 29270d8..e017913 100644
--- a/lib/b_asic/schedule.py
+++ b/lib/b_asic/schedule.py
@@ -327,6 +327,9 @@ class Schedule:
             available_time -= self._schedule_time
         for signal in output_port.signals:
             destination = cast(InputPort, signal.destination)
+            if destination.operation.graph_id not in self._start_times:
+                # Not scheduled yet
+                continue
             usage_time = (
                 cast(int, destination.latency_offset)
                 + self._start_times[destination.operation.graph_id]
-- 
2.43.0


From f6e1df8fc72473a43cb0cb34cff5d040d7226b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:22 +0000
Subject: [PATCH 12/79] fix: RecursiveListScheduler moved inputs with given
 times

---
 lib/b_asic/scheduler.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/scheduler.py b/lib/b_asic/scheduler.py
index fc8ef0b..279a8be 100644
--- a/lib/b_asic/scheduler.py
+++ b/lib/b_asic/scheduler.py
@@ -1262,7 +1262,10 @@ class RecursiveListScheduler(ListScheduler):
             # move all operations forward to the next valid step and check if period can be reduced
             for op_id in sorted_op_ids:
                 op = self._schedule._sfg.find_by_id(op_id)
-                if self._schedule.forward_slack(op_id):
+                if (
+                    op_id not in self._input_times
+                    and self._schedule.forward_slack(op_id)
+                ):
                     delta = 1
                     delta_start_time = self._schedule._start_times[op_id] + delta
                     new_times = (
@@ -1314,7 +1317,7 @@ class RecursiveListScheduler(ListScheduler):
                         )
                     if max_end_time > self._schedule._schedule_time:
                         slack = min(slack, self._schedule.forward_slack(other_op_id))
-                if slack > 0:
+                if slack > 0 and not self._input_times:
                     log.debug("Reducing schedule time by %d", slack)
                     for inner_op_id in self._schedule._start_times:
                         self._schedule._start_times[inner_op_id] -= slack
-- 
2.43.0


From 4415e5632e71ccac0f7b39e45a4698f14c33b0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:37 +0000
Subject: [PATCH 13/79] fix: ALAP placed outputs with given delta times twice

---
 lib/b_asic/scheduler.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/lib/b_asic/scheduler.py b/lib/b_asic/scheduler.py
index 279a8be..6584c59 100644
--- a/lib/b_asic/scheduler.py
+++ b/lib/b_asic/scheduler.py
@@ -411,9 +411,6 @@ class ALAPScheduler(Scheduler):
         ).apply_scheduling(schedule)
         self._op_laps = {}
 
-        if self._output_delta_times:
-            self._place_outputs_on_given_times()
-
         if self._output_times:
             for output_id, output_time in self._output_times.items():
                 self._schedule.move_operation(
-- 
2.43.0


From 8e5350ba35b5e8444ebfdd6f0f65ce92eadf4533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:10 +0000
Subject: [PATCH 14/79] fix: moving an operation to the next lap gave a
 negative lap to an Output at the end of the schedule

---
 lib/b_asic/schedule.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/b_asic/schedule.py b/lib/b_asic/schedule.py
index e017913..e6202ce 100644
--- a/lib/b_asic/schedule.py
+++ b/lib/b_asic/schedule.py
@@ -975,6 +975,17 @@ class Schedule:
                 for sig in source.output_signals:
                     self._laps[sig.graph_id] -= laps
 
+        # Outputs and Sinks cannot start at schedule time if the source is in the next lap
+        for signal in slacks:
+            op = cast(Operation, signal.destination_operation)
+            if (
+                isinstance(op, (Output, Sink))
+                and self._start_times[op.graph_id] == self._schedule_time
+                and self._laps[signal.graph_id] < 0
+            ):
+                self._start_times[op.graph_id] = 0
+                self._laps[signal.graph_id] += 1
+
         # Outputs and Sinks should not start at 0, but at schedule time
         for graph_id in times:
             op = self._sfg.find_by_id(graph_id)
-- 
2.43.0


From 6d2a40172638618d33770d5cb1466d014280525a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:03 +0000
Subject: [PATCH 15/79] fix: RecursiveListScheduler did not keep the delays of
 graphs without loops

---
 lib/b_asic/scheduler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/b_asic/scheduler.py b/lib/b_asic/scheduler.py
index 6584c59..d9bccd4 100644
--- a/lib/b_asic/scheduler.py
+++ b/lib/b_asic/scheduler.py
@@ -1187,6 +1187,8 @@ class RecursiveListScheduler(ListScheduler):
         if self._schedule._schedule_time is None:
             self._schedule.set_schedule_time(self._schedule.get_max_end_time())
         period_bound = self._schedule._sfg.iteration_period_bound()
+        if not loops:
+            self._update_laps()
         self._schedule.remove_delays()
         if loops:
             if int(period_bound) != period_bound:
-- 
2.43.0


From b960bfdce35c35ac2c9d6e1d59a2bd61d4ea11c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:05 +0000
Subject: [PATCH 16/79] fix: RecursiveListScheduler used a scheduling time that
 is too short for the resources

---
 lib/b_asic/scheduler.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/b_asic/scheduler.py b/lib/b_asic/scheduler.py
index d9bccd4..5cea7b5 100644
--- a/lib/b_asic/scheduler.py
+++ b/lib/b_asic/scheduler.py
@@ -1380,6 +1380,14 @@ class RecursiveListScheduler(ListScheduler):
 
         if saved_sched_time and saved_sched_time > self._schedule._schedule_time:
             self._schedule._schedule_time = saved_sched_time
+        # the other operations must also fit
+        for type_name, amount_of_resource in self._max_resources.items():
+            while amount_of_resource and amount_of_resource < (
+                self._schedule._sfg.resource_lower_bound(
+                    type_name, self._schedule._schedule_time
+                )
+            ):
+                self._schedule._schedule_time += 1
         log.debug("Scheduling of recursive loops completed")
 
     def _get_next_recursive_op(self, priority_table: PriorityTableType) -> Operation:
-- 
2.43.0


From 55a37e2c8cff794befe1408358673f3303ad0717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:39 +0000
Subject: [PATCH 17/79] fix: ILPScheduler kept stale start times for inexact or
 missing solver values

---
 lib/b_asic/scheduler.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/scheduler.py b/lib/b_asic/scheduler.py
index 5cea7b5..4c4b85e 100644
--- a/lib/b_asic/scheduler.py
+++ b/lib/b_asic/scheduler.py
@@ -1629,9 +1629,15 @@ class ILPScheduler(Scheduler):
 
         for op in ops:
             for time in time_slots:
-                if pulp.value(X[op][time]) == 1:
+                # Values are only integers up to the tolerance of the solver
+                if round(pulp.value(X[op][time]) or 0) == 1:
                     schedule.start_times[op.graph_id] = time
                     break
+            else:
+                # The solver stopped before it found a solution
+                raise ValueError(
+                    "Solution could not be found via ILP, use another method."
+                )
 
         self._handle_utility_operations()
         schedule.remove_delays()
-- 
2.43.0


From c2641684cf14615841e4c73bbe05ee9896bd6a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:18 +0000
Subject: [PATCH 18/79] fix: ILPScheduler mixed up delays of signals from the
 same source and ignored input offsets

---
 lib/b_asic/scheduler.py | 41 +++++++++++++----------------------------
 1 file changed, 13 insertions(+), 28 deletions(-)

diff --git a/lib/b_asic/scheduler.py b/lib/b_asic/scheduler.py
index 4c4b85e..5676031 100644
--- a/lib/b_asic/scheduler.py
+++ b/lib/b_asic/scheduler.py
@@ -1530,19 +1530,6 @@ class ILPScheduler(Scheduler):
         X = pulp.LpVariable.dicts("X", (ops, time_slots), cat=pulp.LpBinary)
         R_used = pulp.LpVariable.dicts("R_used", op_types, cat=pulp.LpInteger)
 
-        # w - Stage difference between operations (i.e. number of Delays between)
-        W = {}
-        for op in ops:
-            tmp = {}
-            for input_port in op.inputs:
-                depth = 0
-                source_op = input_port.connected_source.operation
-                while isinstance(source_op, Delay):
-                    source_op = source_op.inputs[0].connected_source.operation
-                    depth += 1
-                tmp[source_op.graph_id] = depth
-            W[op.graph_id] = tmp
-
         # Minimize the amount of concurrent processes and I/O
         problem = pulp.LpProblem()
         problem += pulp.lpSum(R_used[op_type] for op_type in op_types)
@@ -1589,27 +1576,25 @@ class ILPScheduler(Scheduler):
                 source_op = source_port.operation
                 if isinstance(source_op, DontCare):
                     continue
+                # Stage difference between operations (i.e. number of Delays between)
+                stages = 0
                 while isinstance(source_op, Delay):
                     source_port = source_op.inputs[0].connected_source
                     source_op = source_port.operation
-                a = set(
-                    range(
-                        LB[source_op.graph_id],
-                        UB[source_op.graph_id] + source_op.latency,
-                    )
-                )
-                b = set(
-                    range(
-                        LB[op.graph_id] + Ts * W[op.graph_id][source_op.graph_id],
-                        UB[op.graph_id] + Ts * W[op.graph_id][source_op.graph_id] + 1,
-                    )
-                )
-                for j in list(a & b):
+                    stages += 1
+                offset = stages * Ts + input_port.latency_offset
+                for j in range(
+                    max(
+                        LB[source_op.graph_id] + source_port.latency_offset - 1,
+                        LB[op.graph_id] + offset,
+                    ),
+                    UB[source_op.graph_id] + source_port.latency_offset,
+                ):
                     problem += (
                         pulp.lpSum(
                             X[source_op][j2]
                             for j2 in range(
-                                LB[source_op.graph_id] + input_port.latency_offset,
+                                LB[source_op.graph_id],
                                 UB[source_op.graph_id] + 1,
                             )
                             if j2 >= j - source_port.latency_offset + 1
@@ -1617,7 +1602,7 @@ class ILPScheduler(Scheduler):
                         + pulp.lpSum(
                             X[op][j1]
                             for j1 in range(LB[op.graph_id], UB[op.graph_id] + 1)
-                            if j1 <= j - W[op.graph_id][source_op.graph_id] * Ts
+                            if j1 <= j - offset
                         )
                         <= 1
                     )
-- 
2.43.0


From b065769597c55fca9770cf4b4a6bd27e97f368e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:33 +0000
Subject: [PATCH 19/79] fix: ILPScheduler gave wrong delays when values cross
 the end of the schedule

---
 lib/b_asic/scheduler.py | 158 +++++++++++++++++++---------------------
 1 file changed, 74 insertions(+), 84 deletions(-)

diff --git a/lib/b_asic/scheduler.py b/lib/b_asic/scheduler.py
index 5676031..b36a67c 100644
--- a/lib/b_asic/scheduler.py
+++ b/lib/b_asic/scheduler.py
@@ -276,6 +276,65 @@ class Scheduler(ABC):
                     )
         log.debug("Output placement optimization completed")
 
+    def _update_laps(self, op_laps: dict["GraphID", int]) -> None:
+        """
+        Set the laps such that the schedule has the same delays as the SFG.
+
+        Operations whose inputs are not available yet are moved to a later lap.
+        """
+        schedule_time = cast(int, self._schedule._schedule_time)
+        if not schedule_time:
+            return
+        start_times = self._schedule.start_times
+        op_laps = {op_id: op_laps.get(op_id, 0) for op_id in start_times}
+        # Outputs with given times are moved together
+        groups = {op_id: [op_id] for op_id in op_laps}
+        groups |= dict.fromkeys(
+            self._output_delta_times, list(self._output_delta_times)
+        )
+
+        signals: list[tuple[Signal, GraphID, GraphID, int, int, int]] = []
+        for op_id, start_time in start_times.items():
+            for input_port in self._schedule._sfg.find_by_id(op_id).inputs:
+                signal = input_port.signals[0]
+                source_port = cast(OutputPort, signal.source)
+                delays = 0
+                while isinstance(source_port.operation, Delay):
+                    source_port = source_port.operation.input(0).signals[0].source
+                    delays += 1
+                source_id = source_port.operation.graph_id
+                if source_id not in start_times:  # DontCare
+                    continue
+                available_time = start_times[source_id] + source_port.latency_offset
+                usage_time = start_time + input_port.latency_offset
+                # The laps do not include the one if the source ends in the next lap
+                extra = 1 if available_time > schedule_time else 0
+                required = max(
+                    extra, math.ceil((available_time - usage_time) / schedule_time)
+                )
+                signals.append((signal, source_id, op_id, delays, extra, required))
+
+        for _ in range(len(op_laps) + 1):
+            changed = False
+            for _, source_id, op_id, delays, _, required in signals:
+                missing = op_laps[source_id] + required - op_laps[op_id] - delays
+                if missing > 0:
+                    for moved_id in groups[op_id]:
+                        op_laps[moved_id] += missing
+                    changed = True
+            if not changed:
+                break
+        else:
+            raise ValueError(
+                "No valid schedule found: a recursive loop does not fit in the"
+                " scheduling time."
+            )
+
+        for signal, source_id, op_id, _, extra, _ in signals:
+            self._schedule.laps[signal.graph_id] = (
+                op_laps[op_id] - op_laps[source_id] - extra
+            )
+
     def _handle_utility_operations(self) -> None:
         for dc_op in self._schedule._sfg.find_by_type(DontCare):
             log.debug("Scheduling DontCare operation %s ALAP", dc_op.graph_id)
@@ -602,7 +661,7 @@ class ListScheduler(Scheduler):
 
         if self._schedule._schedule_time is None:
             self._schedule.set_schedule_time(self._schedule.get_max_end_time())
-        self._update_laps()
+        self._update_laps(self._op_laps)
         self._schedule.remove_delays()
         self._handle_utility_operations()
         if self._sort_y_location:
@@ -610,65 +669,6 @@ class ListScheduler(Scheduler):
         self._validate_constraints()
         log.debug("Scheduling completed")
 
-    def _update_laps(self) -> None:
-        """
-        Set the laps such that the schedule has the same delays as the SFG.
-
-        Operations whose inputs are not available yet are moved to a later lap.
-        """
-        schedule_time = cast(int, self._schedule._schedule_time)
-        if not schedule_time:
-            return
-        start_times = self._schedule.start_times
-        op_laps = {op_id: self._op_laps.get(op_id, 0) for op_id in start_times}
-        # Outputs with given times are moved together
-        groups = {op_id: [op_id] for op_id in op_laps}
-        groups |= dict.fromkeys(
-            self._output_delta_times, list(self._output_delta_times)
-        )
-
-        signals: list[tuple[Signal, GraphID, GraphID, int, int, int]] = []
-        for op_id, start_time in start_times.items():
-            for input_port in self._schedule._sfg.find_by_id(op_id).inputs:
-                signal = input_port.signals[0]
-                source_port = cast(OutputPort, signal.source)
-                delays = 0
-                while isinstance(source_port.operation, Delay):
-                    source_port = source_port.operation.input(0).signals[0].source
-                    delays += 1
-                source_id = source_port.operation.graph_id
-                if source_id not in start_times:  # DontCare
-                    continue
-                available_time = start_times[source_id] + source_port.latency_offset
-                usage_time = start_time + input_port.latency_offset
-                # The laps do not include the one if the source ends in the next lap
-                extra = 1 if available_time > schedule_time else 0
-                required = max(
-                    extra, math.ceil((available_time - usage_time) / schedule_time)
-                )
-                signals.append((signal, source_id, op_id, delays, extra, required))
-
-        for _ in range(len(op_laps) + 1):
-            changed = False
-            for _, source_id, op_id, delays, _, required in signals:
-                missing = op_laps[source_id] + required - op_laps[op_id] - delays
-                if missing > 0:
-                    for moved_id in groups[op_id]:
-                        op_laps[moved_id] += missing
-                    changed = True
-            if not changed:
-                break
-        else:
-            raise ValueError(
-                "No valid schedule found: a recursive loop does not fit in the"
-                " scheduling time."
-            )
-
-        for signal, source_id, op_id, _, extra, _ in signals:
-            self._schedule.laps[signal.graph_id] = (
-                op_laps[op_id] - op_laps[source_id] - extra
-            )
-
     def _validate_constraints(self) -> None:
         for time_slot in range(self._schedule._schedule_time):
             for op_type, constraint in self._remaining_resources.items():
@@ -1188,7 +1188,7 @@ class RecursiveListScheduler(ListScheduler):
             self._schedule.set_schedule_time(self._schedule.get_max_end_time())
         period_bound = self._schedule._sfg.iteration_period_bound()
         if not loops:
-            self._update_laps()
+            self._update_laps(self._op_laps)
         self._schedule.remove_delays()
         if loops:
             if int(period_bound) != period_bound:
@@ -1624,30 +1624,20 @@ class ILPScheduler(Scheduler):
                     "Solution could not be found via ILP, use another method."
                 )
 
-        self._handle_utility_operations()
-        schedule.remove_delays()
-
+        op_laps = {}
         if self._max_time is not None and self._max_time > Ts:
-            schedule._schedule_time = self._max_time
-            diff = self._max_time - Ts
-            # Move operations ahead in time so that they wrap
-            for time in reversed(range(Ts, self._max_time + 1)):
-                ops_to_move = set()
-                # Find operations to move
-                for op_id, op_time in schedule.start_times.items():
-                    if op_time == time:
-                        ops_to_move.add(op_id)
-                # Do the move
-                for op_id in ops_to_move:
-                    schedule.move_operation(op_id, diff)
-            # Move any outputs at the schedule edge
-            for op_id, op_time in schedule.start_times.items():
-                # Any operations still at max_time will be Outputs or Sinks
-                # Move back to new schedule time
-                if op_time == self._max_time:
-                    schedule.move_operation(op_id, -diff)
-
-            schedule.set_schedule_time(Ts)
+            # Operations that start after the schedule time wrap to later laps
+            for op in ops:
+                start_time = schedule.start_times[op.graph_id]
+                op_laps[op.graph_id] = start_time // Ts
+                if isinstance(op, Output) and start_time and start_time % Ts == 0:
+                    # Outputs are kept at the edge of the schedule
+                    op_laps[op.graph_id] -= 1
+                schedule.start_times[op.graph_id] -= Ts * op_laps[op.graph_id]
+
+        self._update_laps(op_laps)
+        schedule.remove_delays()
+        self._handle_utility_operations()
 
         if self._sort_y_location:
             schedule.sort_y_locations_on_start_times()
-- 
2.43.0


From 219c46724c950f89110b568ce68f1acaaf5e51f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:30 +0000
Subject: [PATCH 20/79] fix: ILPScheduler read start times from unconstrained
 variables

---
 lib/b_asic/scheduler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/scheduler.py b/lib/b_asic/scheduler.py
index b36a67c..14e38e4 100644
--- a/lib/b_asic/scheduler.py
+++ b/lib/b_asic/scheduler.py
@@ -1613,7 +1613,8 @@ class ILPScheduler(Scheduler):
             raise ValueError("Solution could not be found via ILP, use another method.")
 
         for op in ops:
-            for time in time_slots:
+            # Variables outside of these bounds are not constrained
+            for time in range(LB[op.graph_id], UB[op.graph_id] + 1):
                 # Values are only integers up to the tolerance of the solver
                 if round(pulp.value(X[op][time]) or 0) == 1:
                     schedule.start_times[op.graph_id] = time
-- 
2.43.0


From 7b66e757a568033f8a84582937c4da7bf033c7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:33 +0000
Subject: [PATCH 21/79] fix: split_into_chains dropped reads at the write time
 of split variables

---
 lib/b_asic/resources.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/resources.py b/lib/b_asic/resources.py
index 43376b1..0fbdb5d 100644
--- a/lib/b_asic/resources.py
+++ b/lib/b_asic/resources.py
@@ -2453,13 +2453,14 @@ class ProcessCollection:
 
             # Build chain in reverse so relay MemoryInputPort targets already exist.
             # Each window k covers lifetimes in the range (k*T, (k+1)*T].
+            # Reads at the write time are covered by the first window.
             chain: list[MemoryVariable] = []
             for k in range(K - 1, -1, -1):
                 write_time = (S + k * T) % self.schedule_time
                 reads_k: dict = {
                     port: L - k * T
                     for port, L in all_reads.items()
-                    if k == (L - 1) // T
+                    if k == max(L - 1, 0) // T
                 }
                 if k < K - 1:
                     # chain[0] is chain[k+1] since we prepend each iteration
-- 
2.43.0


From 45d4ae13f82951c30e47220178c151393c6a72c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:36 +0000
Subject: [PATCH 22/79] fix: ILP-based splitting lost processes with inexact or
 missing solver values

---
 lib/b_asic/resources.py | 52 +++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 25 deletions(-)

diff --git a/lib/b_asic/resources.py b/lib/b_asic/resources.py
index 0fbdb5d..0eb2ab4 100644
--- a/lib/b_asic/resources.py
+++ b/lib/b_asic/resources.py
@@ -118,6 +118,28 @@ def _sanitize_port_option(
     return read_ports, write_ports, total_ports
 
 
+def _get_node_colors(
+    x: dict[Process, dict[int, LpVariable]],
+    nodes: Iterable[Process],
+    edges: Iterable[tuple[Process, Process]],
+    colors: Iterable[int],
+) -> dict[Process, int]:
+    """Return the colors selected by the ILP solver, which must be a valid coloring."""
+    node_colors = {}
+    for node in nodes:
+        for color in colors:
+            # Values are only integers up to the tolerance of the solver
+            if round(value(x[node][color]) or 0) == 1:
+                node_colors[node] = color
+                break
+        else:
+            # The solver stopped before it found a solution
+            raise ValueError("Solution could not be found via ILP, use another method.")
+    if any(node_colors[u] == node_colors[v] for u, v in edges):
+        raise ValueError("Solution could not be found via ILP, use another method.")
+    return node_colors
+
+
 def _get_source_port(var: MemoryVariable, pes: list["ProcessingElement"]) -> str:
     split_var = iter(var.name.split("."))
     var_name = next(split_var)
@@ -1613,11 +1635,7 @@ class ProcessCollection:
         if status not in (LpStatusOptimal, LpStatusNotSolved):
             raise ValueError("Solution could not be found via ILP, use another method.")
 
-        node_colors = {}
-        for node in nodes:
-            for i in colors:
-                if value(x[node][i]) == 1:
-                    node_colors[node] = i
+        node_colors = _get_node_colors(x, nodes, edges, colors)
 
         # reduce the solution by removing unused colors
         sorted_unique_values = sorted(set(node_colors.values()))
@@ -1706,11 +1724,7 @@ class ProcessCollection:
         if status not in (LpStatusOptimal, LpStatusNotSolved):
             raise ValueError("Solution could not be found via ILP, use another method.")
 
-        node_colors = {}
-        for node in nodes:
-            for i in colors:
-                if value(x[node][i]) == 1:
-                    node_colors[node] = i
+        node_colors = _get_node_colors(x, nodes, edges, colors)
 
         # reduce the solution by removing unused colors
         sorted_unique_values = sorted(set(node_colors.values()))
@@ -1798,11 +1812,7 @@ class ProcessCollection:
         if status not in (LpStatusOptimal, LpStatusNotSolved):
             raise ValueError("Solution could not be found via ILP, use another method.")
 
-        node_colors = {}
-        for node in nodes:
-            for i in colors:
-                if value(x[node][i]) == 1:
-                    node_colors[node] = i
+        node_colors = _get_node_colors(x, nodes, edges, colors)
 
         # reduce the solution by removing unused colors
         sorted_unique_values = sorted(set(node_colors.values()))
@@ -1904,11 +1914,7 @@ class ProcessCollection:
         if status not in (LpStatusOptimal, LpStatusNotSolved):
             raise ValueError("Solution could not be found via ILP, use another method.")
 
-        node_colors = {}
-        for node in nodes:
-            for i in colors:
-                if value(x[node][i]) == 1:
-                    node_colors[node] = i
+        node_colors = _get_node_colors(x, nodes, edges, colors)
 
         # reduce the solution by removing unused colors
         sorted_unique_values = sorted(set(node_colors.values()))
@@ -2039,11 +2045,7 @@ class ProcessCollection:
         if status not in (LpStatusOptimal, LpStatusNotSolved):
             raise ValueError("Solution could not be found via ILP, use another method.")
 
-        node_colors = {}
-        for node in nodes:
-            for i in colors:
-                if value(x[node][i]) == 1:
-                    node_colors[node] = i
+        node_colors = _get_node_colors(x, nodes, edges, colors)
 
         # reduce the solution by removing unused colors
         sorted_unique_values = sorted(set(node_colors.values()))
-- 
2.43.0


From 40d22c8af54d7e9dfb3f27069190d72fd3329162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:39 +0000
Subject: [PATCH 23/79] fix: min-mux port splitting confused read ports with
 write ports

---
 lib/b_asic/resources.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/b_asic/resources.py b/lib/b_asic/resources.py
index 0eb2ab4..dfb868e 100644
--- a/lib/b_asic/resources.py
+++ b/lib/b_asic/resources.py
@@ -1325,7 +1325,7 @@ class ProcessCollection:
 
         for process in sequence:
             process_fits_in_collection = self._get_process_fits_in_collection(
-                process, collections, read_ports, write_ports, total_ports
+                process, collections, write_ports, read_ports, total_ports
             )
             best_collection = None
             best_delta = sys.maxsize
@@ -1353,7 +1353,7 @@ class ProcessCollection:
                         )
                     )
                     process_fits_in_collection = self._get_process_fits_in_collection(
-                        process, collections, read_ports, write_ports, total_ports
+                        process, collections, write_ports, read_ports, total_ports
                     )
             if best_collection is not None:
                 best_collection.add_process(process)
@@ -1387,7 +1387,7 @@ class ProcessCollection:
 
         for process in sequence:
             process_fits_in_collection = self._get_process_fits_in_collection(
-                process, collections, read_ports, write_ports, total_ports
+                process, collections, write_ports, read_ports, total_ports
             )
             best_collection = None
             best_delta = sys.maxsize
@@ -1415,7 +1415,7 @@ class ProcessCollection:
                         )
                     )
                     process_fits_in_collection = self._get_process_fits_in_collection(
-                        process, collections, read_ports, write_ports, total_ports
+                        process, collections, write_ports, read_ports, total_ports
                     )
             if best_collection is not None:
                 best_collection.add_process(process)
-- 
2.43.0


From c6061fe9867299be182278c3cd4b00aa9d8b12cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:27 +0000
Subject: [PATCH 24/79] fix: ILP mux-minimizing port splitting failed for named
 operations

---
 lib/b_asic/resources.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/lib/b_asic/resources.py b/lib/b_asic/resources.py
index dfb868e..8978828 100644
--- a/lib/b_asic/resources.py
+++ b/lib/b_asic/resources.py
@@ -141,29 +141,23 @@ def _get_node_colors(
 
 
 def _get_source_port(var: MemoryVariable, pes: list["ProcessingElement"]) -> str:
-    split_var = iter(var.name.split("."))
-    var_name = next(split_var)
-    port_index = int(next(split_var).split("_")[0])
+    source = var.root_write_port
     for pe in pes:
         for process in pe:
-            if var_name == process.name:
-                for output_port in process.operation.outputs:
-                    if output_port.index == port_index:
-                        return f"{pe.entity_name}.out.{output_port.index}"
+            if process.operation.graph_id == source.operation.graph_id:
+                return f"{pe.entity_name}.out.{source.index}"
     raise ValueError("Source could not be found for the given variable.")
 
 
 def _get_destination_port(var: MemoryVariable, pes: list["ProcessingElement"]) -> str:
-    split_var = iter(var.name.split("."))
-    var_name = next(split_var)
-    port_index = int(next(split_var).split("_")[0])
+    source = var.root_write_port
     for pe in pes:
         for process in pe:
             for input_port in process.operation.inputs:
-                input_op = input_port.connected_source.operation
+                connected_source = input_port.connected_source
                 if (
-                    input_op.graph_id == var_name
-                    and input_port.connected_source.index == port_index
+                    connected_source.operation.graph_id == source.operation.graph_id
+                    and connected_source.index == source.index
                 ):
                     return f"{pe.entity_name}.in.{input_port.index}"
     raise ValueError("Destination could not be found for the given variable.")
-- 
2.43.0


From 83ebc2b067fcd4b76fdaa05d7e07c47a1b3c5262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:13 +0000
Subject: [PATCH 25/79] fix: mux-minimizing sequential port splitting hung on
 unmet limits

---
 lib/b_asic/resources.py | 42 ++++++++++++++++-------------------------
 1 file changed, 16 insertions(+), 26 deletions(-)

diff --git a/lib/b_asic/resources.py b/lib/b_asic/resources.py
index 8978828..4d1bebf 100644
--- a/lib/b_asic/resources.py
+++ b/lib/b_asic/resources.py
@@ -1338,19 +1338,14 @@ class ProcessCollection:
                         best_collection = collection
                         best_delta = delta
 
-                elif not any(process_fits_in_collection):
-                    collections.append(
-                        ProcessCollection(
-                            [],
-                            schedule_time=self.schedule_time,
-                            cyclic=self._cyclic,
-                        )
-                    )
-                    process_fits_in_collection = self._get_process_fits_in_collection(
-                        process, collections, write_ports, read_ports, total_ports
-                    )
-            if best_collection is not None:
-                best_collection.add_process(process)
+            if best_collection is None:
+                best_collection = ProcessCollection(
+                    [],
+                    schedule_time=self.schedule_time,
+                    cyclic=self._cyclic,
+                )
+                collections.append(best_collection)
+            best_collection.add_process(process)
 
         return [collection for collection in collections if collection.collection]
 
@@ -1400,19 +1395,14 @@ class ProcessCollection:
                         best_collection = collection
                         best_delta = delta
 
-                elif not any(process_fits_in_collection):
-                    collections.append(
-                        ProcessCollection(
-                            [],
-                            schedule_time=self.schedule_time,
-                            cyclic=self._cyclic,
-                        )
-                    )
-                    process_fits_in_collection = self._get_process_fits_in_collection(
-                        process, collections, write_ports, read_ports, total_ports
-                    )
-            if best_collection is not None:
-                best_collection.add_process(process)
+            if best_collection is None:
+                best_collection = ProcessCollection(
+                    [],
+                    schedule_time=self.schedule_time,
+                    cyclic=self._cyclic,
+                )
+                collections.append(best_collection)
+            best_collection.add_process(process)
 
         return [collection for collection in collections if collection.collection]
 
-- 
2.43.0


From a72f1d9ba9c4afc366f0e3168e36709631fc59b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:20 +0000
Subject: [PATCH 26/79] fix: ILP-based splitting failed for processes with the
 same name

---
 lib/b_asic/resources.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/lib/b_asic/resources.py b/lib/b_asic/resources.py
index 4d1bebf..ffe3233 100644
--- a/lib/b_asic/resources.py
+++ b/lib/b_asic/resources.py
@@ -118,6 +118,16 @@ def _sanitize_port_option(
     return read_ports, write_ports, total_ports
 
 
+def _create_node_color_variables(
+    nodes: Iterable[Process], colors: Iterable[int]
+) -> dict[Process, dict[int, LpVariable]]:
+    # Processes can have the same name, so it cannot be used to name the variables
+    return {
+        node: {color: LpVariable(f"x_{i}_{color}", cat=LpBinary) for color in colors}
+        for i, node in enumerate(nodes)
+    }
+
+
 def _get_node_colors(
     x: dict[Process, dict[int, LpVariable]],
     nodes: Iterable[Process],
@@ -1583,7 +1593,7 @@ class ProcessCollection:
 
         # binary variables:
         #   x[node, color] - whether node is colored in a certain color
-        x = LpVariable.dicts("x", (nodes, colors), cat=LpBinary)
+        x = _create_node_color_variables(nodes, colors)
         #   c[color] - whether color is used
         c = LpVariable.dicts("c", colors, cat=LpBinary)
 
@@ -1666,7 +1676,7 @@ class ProcessCollection:
 
         # binary variables:
         #   x[node, color] - whether node is colored in a certain color
-        x = LpVariable.dicts("x", (nodes, colors), cat=LpBinary)
+        x = _create_node_color_variables(nodes, colors)
         #   c[color] - whether color is used
         c = LpVariable.dicts("c", colors, cat=LpBinary)
         #   y[pe, color] - whether a color has nodes generated from a certain pe
@@ -1755,7 +1765,7 @@ class ProcessCollection:
 
         # binary variables:
         #   x[node, color] - whether node is colored in a certain color
-        x = LpVariable.dicts("x", (nodes, colors), cat=LpBinary)
+        x = _create_node_color_variables(nodes, colors)
         #   c[color] - whether color is used
         c = LpVariable.dicts("c", colors, cat=LpBinary)
         #   y[pe, color] - whether a color has nodes writing to a certain PE
@@ -1848,7 +1858,7 @@ class ProcessCollection:
 
         # binary variables:
         #   x[node, color] - whether node is colored in a certain color
-        x = LpVariable.dicts("x", (nodes, colors), cat=LpBinary)
+        x = _create_node_color_variables(nodes, colors)
         #   c[color] - whether color is used
         c = LpVariable.dicts("c", colors, cat=LpBinary)
         #   y[pe, color] - whether a color has nodes generated from a certain pe
@@ -1994,7 +2004,7 @@ class ProcessCollection:
 
         # binary variables:
         #   x[node, color] - whether node is colored in a certain color
-        x = LpVariable.dicts("x", (nodes, colors), cat=LpBinary)
+        x = _create_node_color_variables(nodes, colors)
         #   c[color] - whether color is used
         c = LpVariable.dicts("c", colors, cat=LpBinary)
 
-- 
2.43.0


From e50f766cb484b8f9efd916ef4a5438e4de67eb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:54 +0000
Subject: [PATCH 27/79] fix: sequential port splitting missed accesses of one
 variable in the same cycle

---
 lib/b_asic/resources.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/lib/b_asic/resources.py b/lib/b_asic/resources.py
index ffe3233..8d9d37a 100644
--- a/lib/b_asic/resources.py
+++ b/lib/b_asic/resources.py
@@ -1454,16 +1454,25 @@ class ProcessCollection:
 
         # Test the number of concurrent read accesses
         collection_reads = defaultdict(int, collection.read_port_accesses())
-        for proc_read_time in proc.read_times:
-            if collection_reads[proc_read_time % self.schedule_time] >= read_ports:
+        proc_reads = Counter(time % self.schedule_time for time in proc.read_times)
+        for access_time, accesses in proc_reads.items():
+            concurrent = collection_reads[access_time]
+            if concurrent >= read_ports or (
+                concurrent and concurrent + accesses > read_ports
+            ):
                 return True
 
         # Test the number of total accesses
         collection_total_accesses = defaultdict(
             int, Counter(collection_writes) + Counter(collection_reads)
         )
-        for access_time in [proc.start_time, *proc.read_times]:
-            if collection_total_accesses[access_time] >= total_ports:
+        for access_time, accesses in Counter(
+            [proc.start_time, *proc.read_times]
+        ).items():
+            concurrent = collection_total_accesses[access_time]
+            if concurrent >= total_ports or (
+                concurrent and concurrent + accesses > total_ports
+            ):
                 return True
         return False
 
-- 
2.43.0


From bc3c2a1604b7a1f66162c592b054b9ff0c982de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:01 +0000
Subject: [PATCH 28/79] fix: failed edits left a process on two resources or on
 none

---
 lib/b_asic/architecture.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/lib/b_asic/architecture.py b/lib/b_asic/architecture.py
index 8d92e4d..1f2702d 100644
--- a/lib/b_asic/architecture.py
+++ b/lib/b_asic/architecture.py
@@ -488,9 +488,15 @@ class Resource(HardwareBlock, ABC):
             # operation_type is MemoryVariable or PlainMemoryVariable
             if not isinstance(proc, self.operation_type):
                 raise TypeError(f"{proc} not of type {self.operation_type}")
+        previous_assignment = self._assignment
         self.collection.add_process(proc)
         if assign:
-            self.assign()
+            try:
+                self.assign()
+            except BaseException:
+                self.collection.remove_process(proc)
+                self._assignment = previous_assignment
+                raise
         else:
             self._assignment = None
 
@@ -513,9 +519,15 @@ class Resource(HardwareBlock, ABC):
         :class:`KeyError`
             If *proc* is not present in resource.
         """
+        previous_assignment = self._assignment
         self.collection.remove_process(proc)
         if assign:
-            self.assign()
+            try:
+                self.assign()
+            except BaseException:
+                self.collection.add_process(proc)
+                self._assignment = previous_assignment
+                raise
         else:
             self._assignment = None
 
@@ -1481,8 +1493,14 @@ of :class:`~b_asic.architecture.ProcessingElement`
         proc = cast(Process, proc)
         # Move the process
         if proc in source:
+            previous_assignment = destination.assignment
             destination.add_process(proc, assign=assign)
-            source.remove_process(proc, assign=assign)
+            try:
+                source.remove_process(proc, assign=assign)
+            except BaseException:
+                destination.remove_process(proc)
+                destination._assignment = previous_assignment
+                raise
         else:
             raise KeyError(f"{proc} not in {source.entity_name}")
         self._build_dicts()
-- 
2.43.0


From c2c3a2dc4a7e3f41729c6dbdb5df774416289880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:01 +0000
Subject: [PATCH 29/79] fix: operations of other latencies could be added to a
 processing element

---
 lib/b_asic/architecture.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/b_asic/architecture.py b/lib/b_asic/architecture.py
index 1f2702d..755709d 100644
--- a/lib/b_asic/architecture.py
+++ b/lib/b_asic/architecture.py
@@ -590,6 +590,16 @@ class ProcessingElement(Resource):
         if assign:
             self.assign()
 
+    def add_process(self, proc: Process, assign: bool = False) -> None:
+        # doc-string inherited
+        if (
+            isinstance(proc, OperatorProcess)
+            and isinstance(proc.operation, self.operation_type)
+            and proc.operation.latency != self._latency
+        ):
+            raise ValueError(f"{proc} does not have latency {self._latency}")
+        super().add_process(proc, assign=assign)
+
     @property
     def processes(self) -> list[OperatorProcess]:
         return [cast(OperatorProcess, p) for p in self._collection]
-- 
2.43.0


From 90ba226e8f5641bd62ca56fdf7a0417d405b493c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:01 +0000
Subject: [PATCH 30/79] fix: Memory.assign ignored the total number of ports

---
 lib/b_asic/architecture.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/b_asic/architecture.py b/lib/b_asic/architecture.py
index 755709d..24931ab 100644
--- a/lib/b_asic/architecture.py
+++ b/lib/b_asic/architecture.py
@@ -942,6 +942,12 @@ class Memory(Resource):
                     f"{self.entity_name}: {read_bound} concurrent read(s) required"
                     f" but only {self._output_count} read port(s) declared."
                 )
+            total_bound = self._collection.total_ports_bound()
+            if self._total_ports is not None and total_bound > self._total_ports:
+                raise ValueError(
+                    f"{self.entity_name}: {total_bound} concurrent access(es) required"
+                    f" but only {self._total_ports} port(s) declared."
+                )
         if self._memory_type == "RAM":
             self._assignment = self._collection.split_on_execution_time(
                 strategy, **kwargs
-- 
2.43.0


From bd3e4b0775e19019b1d6b95b801657af289a433e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:25 +0000
Subject: [PATCH 31/79] fix: saved signal-flow graphs lost parameters, names,
 IDs and nested graphs

---
 lib/b_asic/save_load_structure.py | 116 +++++++++++++++++++++++-------
 1 file changed, 89 insertions(+), 27 deletions(-)

diff --git a/lib/b_asic/save_load_structure.py b/lib/b_asic/save_load_structure.py
index 60a0d08..db10c5c 100644
--- a/lib/b_asic/save_load_structure.py
+++ b/lib/b_asic/save_load_structure.py
@@ -5,16 +5,51 @@ Contains functions for saving/loading SFGs and Schedules to/from strings that ca
 stored as files.
 """
 
+import keyword
+import re
+import textwrap
 from datetime import datetime
 from inspect import signature
 from pathlib import Path
-from typing import cast
+from typing import Any, cast
+
+import numpy as np
 
 from b_asic.graph_component import GraphComponent
+from b_asic.operation import Operation
 from b_asic.port import InputPort
 from b_asic.schedule import Schedule
 from b_asic.sfg import SFG
 
+# First line of all generated files, followed by the type
+_HEADER = "B-ASIC automatically generated"
+
+
+def _literal(value: Any) -> str:
+    """Return Python code that evaluates to *value*."""
+    if isinstance(value, np.generic):
+        value = value.item()
+    if isinstance(value, tuple):
+        return "(" + "".join(f"{_literal(v)}, " for v in value) + ")"
+    if isinstance(value, dict):
+        items = (f"{_literal(k)}: {_literal(v)}" for k, v in value.items())
+        return "{" + ", ".join(items) + "}"
+    if isinstance(value, float) and not np.isfinite(value):
+        return f"float('{value}')"
+    return ascii(value)
+
+
+def _sfg_variable_name(sfg: SFG, counter: int = 0) -> str:
+    """Return the name of the variable holding *sfg* in the generated code."""
+    name = sfg.name or (f"sfg{counter}" if counter > 0 else "sfg")
+    name = re.sub(r"\W", "_", name, flags=re.ASCII)
+    taken = {component.graph_id for component in sfg.components}
+    taken |= {type(op).__name__ for op in sfg.operations}
+    taken |= {"SFG", "Signal", "Input", "Output", "Schedule", "prop", "positions"}
+    while not name.isidentifier() or keyword.iskeyword(name) or name in taken:
+        name = f"_{name}"
+    return name
+
 
 def sfg_to_python(
     sfg: SFG, counter: int = 0, suffix: str | None = None, schedule: bool = False
@@ -40,9 +75,9 @@ def sfg_to_python(
 
     result = (
         '\n"""\n'
-        + f"B-ASIC automatically generated {_type} file.\n"
+        + f"{_HEADER} {_type} file.\n"
         + "Name: "
-        + f"{sfg.name}"
+        + ascii(sfg.name)[1:-1].replace('"', '\\"')
         + "\n"
         + "Last saved: "
         + f"{datetime.now()}"
@@ -51,11 +86,16 @@ def sfg_to_python(
     )
 
     result += "\nfrom b_asic import SFG, Signal, Input, Output"
-    for op_type in {type(op) for op in sfg.operations}:
-        result += f", {op_type.__name__}"
+    op_types = {type(op).__name__: type(op) for op in sfg.operations}
+    own_types = {k: v for k, v in op_types.items() if v.__module__[:7] == "b_asic."}
+    for op_type in sorted(own_types):
+        result += f", {op_type}"
     if schedule:
         result += ", Schedule"
 
+    for name, op_type in sorted(op_types.items() - own_types.items()):
+        result += f"\nfrom {op_type.__module__} import {name}"
+
     def kwarg_unpacker(comp: GraphComponent, params=None) -> str:
         if params is None:
             params_filtered = {
@@ -64,14 +104,10 @@ def sfg_to_python(
                 if attr != "latency" and hasattr(comp, attr)
             }
             params = {
-                attr: (
-                    getattr(comp, attr)
-                    if not isinstance(getattr(comp, attr), str)
-                    else f'"{getattr(comp, attr)}"'
-                )
-                for attr in params_filtered
+                attr: value
+                for attr, value in params_filtered.items()
+                if value is not None and value != ""
             }
-            params = {k: v for k, v in params.items() if v}
             if params.get("latency_offsets") is not None:
                 params["latency_offsets"] = {
                     k: v for k, v in params["latency_offsets"].items() if v is not None
@@ -79,7 +115,26 @@ def sfg_to_python(
                 if not params["latency_offsets"]:
                     del params["latency_offsets"]
 
-        return ", ".join([f"{param}={value}" for param, value in params.items()])
+        return ", ".join(
+            [f"{param}={_literal(value)}" for param, value in params.items()]
+        )
+
+    def properties(comp: GraphComponent) -> str:
+        """Set what is not an argument of the constructor."""
+        res = f"{comp.graph_id}.graph_id = {_literal(comp.graph_id)}\n"
+        if not isinstance(comp, Operation):
+            return res
+        if "latency_offsets" not in signature(comp.__init__).parameters:
+            default = None if isinstance(comp, SFG) else type(comp)()
+            offsets = {k: v for k, v in comp.latency_offsets.items() if v is not None}
+            if offsets and (default is None or offsets != default.latency_offsets):
+                res += f"{comp.graph_id}.set_latency_offsets({_literal(offsets)})\n"
+            if comp.execution_time != (default and default.execution_time):
+                res += (
+                    f"{comp.graph_id}.execution_time ="
+                    f" {_literal(comp.execution_time)}\n"
+                )
+        return res
 
     # No need to redefined I/Os
     io_ops = [*sfg.input_operations, *sfg.output_operations]
@@ -87,52 +142,59 @@ def sfg_to_python(
     result += "\n# Inputs:\n"
     for input_op in sfg.input_operations:
         result += f"{input_op.graph_id} = Input({kwarg_unpacker(input_op)})\n"
+        result += properties(input_op)
 
     result += "\n# Outputs:\n"
     for output_op in sfg.output_operations:
         result += f"{output_op.graph_id} = Output({kwarg_unpacker(output_op)})\n"
+        result += properties(output_op)
 
     result += "\n# Operations:\n"
     for operation in sfg.split():
         if operation in io_ops:
             continue
         if isinstance(operation, SFG):
-            counter += 1
-            result = sfg_to_python(operation, counter) + result
+            # In a function, as the graph IDs are only unique within an SFG
+            code = sfg_to_python(operation)
+            code += f"\nreturn {_sfg_variable_name(operation)}\n"
+            result += f"\ndef _{operation.graph_id}():"
+            result += textwrap.indent(code, "    ")
+            result += f"\n{operation.graph_id} = _{operation.graph_id}()\n"
+            result += properties(operation)
             continue
 
         result += (
             f"{operation.graph_id} ="
             f" {operation.__class__.__name__}({kwarg_unpacker(operation)})\n"
         )
+        result += properties(operation)
 
     result += "\n# Signals:\n"
-    # Keep track of already existing connections to avoid adding duplicates
-    connections = []
     for operation in sfg.split():
         for out in operation.outputs:
             for signal in out.signals:
                 destination = cast(InputPort, signal.destination)
                 dest_op = destination.operation
-                connection = (
-                    f"Signal(source={operation.graph_id}."
+                result += (
+                    f"{signal.graph_id} = Signal(source={operation.graph_id}."
                     f"output({operation.outputs.index(signal.source)}),"
                     f" destination={dest_op.graph_id}."
-                    f"input({dest_op.inputs.index(destination)}))\n"
+                    f"input({dest_op.inputs.index(destination)})"
                 )
-                if connection in connections:
-                    continue
-
-                result += connection
-                connections.append(connection)
+                if signal.bits is not None:
+                    result += f", bits={_literal(signal.bits)}"
+                if signal.name:
+                    result += f", name={_literal(signal.name)}"
+                result += ")\n" + properties(signal)
 
     inputs = "[" + ", ".join(op.graph_id for op in sfg.input_operations) + "]"
     outputs = "[" + ", ".join(op.graph_id for op in sfg.output_operations) + "]"
     sfg_name = sfg.name or (f"sfg{counter}" if counter > 0 else "sfg")
-    sfg_name_var = sfg_name.replace(" ", "_").replace("-", "_")
+    sfg_name_var = _sfg_variable_name(sfg, counter)
     result += "\n# Signal flow graph:\n"
     result += (
-        f"{sfg_name_var} = SFG(inputs={inputs}, outputs={outputs}, name='{sfg_name}')\n"
+        f"{sfg_name_var} = SFG(inputs={inputs}, outputs={outputs},"
+        f" name={_literal(sfg_name)})\n"
     )
     result += "\n# SFG Properties:\n" + "prop = {'name':" + f"{sfg_name_var}" + "}\n"
 
-- 
2.43.0


From a90c4cc609c0f71ec24556198d93ae847ce7669c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:25 +0000
Subject: [PATCH 32/79] fix: saved schedules passed their arguments in the
 wrong order

---
 lib/b_asic/save_load_structure.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/lib/b_asic/save_load_structure.py b/lib/b_asic/save_load_structure.py
index db10c5c..69938d6 100644
--- a/lib/b_asic/save_load_structure.py
+++ b/lib/b_asic/save_load_structure.py
@@ -248,16 +248,13 @@ def schedule_to_python(schedule: Schedule) -> str:
     """
     if not isinstance(schedule, Schedule):
         raise TypeError("A Schedule must be provided")
-    sfg_name = (
-        schedule.sfg.name.replace(" ", "_").replace("-", "_")
-        if schedule.sfg.name
-        else "sfg"
-    )
+    sfg_name = _sfg_variable_name(schedule.sfg)
     result = "\n# Schedule:\n"
     nonzerolaps = {gid: val for gid, val in dict(schedule.laps).items() if val}
     result += (
-        f"{sfg_name}_schedule = Schedule({sfg_name}, {schedule.schedule_time},"
-        f" {schedule.cyclic}, 'provided', {schedule.start_times},"
-        f" {nonzerolaps})\n"
+        f"{sfg_name}_schedule = Schedule({sfg_name},"
+        f" schedule_time={schedule.schedule_time}, cyclic={schedule.cyclic},"
+        f" start_times={_literal(schedule.start_times)},"
+        f" laps={_literal(nonzerolaps)})\n"
     )
     return sfg_to_python(schedule.sfg, schedule=True) + result
-- 
2.43.0


From 8d19f838f517a106c6cbb49ba14a571046029f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:25 +0000
Subject: [PATCH 33/79] fix: a file cut short could load as one of its nested
 graphs

---
 lib/b_asic/save_load_structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/b_asic/save_load_structure.py b/lib/b_asic/save_load_structure.py
index 69938d6..701f09a 100644
--- a/lib/b_asic/save_load_structure.py
+++ b/lib/b_asic/save_load_structure.py
@@ -223,7 +223,7 @@ def python_to_sfg(path: str) -> tuple[SFG, dict[str, tuple[int, int]]]:
     sfg_object = None
     if "prop" in local_vars and "name" in local_vars["prop"]:
         sfg_object = local_vars["prop"]["name"]
-    else:
+    elif _HEADER not in (local_vars.get("__doc__") or ""):
         for v in local_vars.values():
             if isinstance(v, SFG):
                 sfg_object = v
-- 
2.43.0


From bb0577f951c3ae7ed140c32356541dc083df0a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:41 +0000
Subject: [PATCH 34/79] fix: saved schedules named signals by other IDs than
 the saved graph

---
 lib/b_asic/save_load_structure.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/b_asic/save_load_structure.py b/lib/b_asic/save_load_structure.py
index 701f09a..ae5adeb 100644
--- a/lib/b_asic/save_load_structure.py
+++ b/lib/b_asic/save_load_structure.py
@@ -248,13 +248,20 @@ def schedule_to_python(schedule: Schedule) -> str:
     """
     if not isinstance(schedule, Schedule):
         raise TypeError("A Schedule must be provided")
-    sfg_name = _sfg_variable_name(schedule.sfg)
+    sfg = schedule.sfg
+    sfg_name = _sfg_variable_name(sfg)
     result = "\n# Schedule:\n"
-    nonzerolaps = {gid: val for gid, val in dict(schedule.laps).items() if val}
+    # The signals have other IDs in the SFG with the delay elements reintroduced
+    nonzerolaps = {}
+    for gid, val in dict(schedule.laps).items():
+        if val:
+            port = cast(InputPort, schedule._sfg.find_by_id(gid).destination)
+            operation = cast(Operation, sfg.find_by_id(port.operation.graph_id))
+            nonzerolaps[operation.input(port.index).signals[0].graph_id] = val
     result += (
         f"{sfg_name}_schedule = Schedule({sfg_name},"
         f" schedule_time={schedule.schedule_time}, cyclic={schedule.cyclic},"
         f" start_times={_literal(schedule.start_times)},"
         f" laps={_literal(nonzerolaps)})\n"
     )
-    return sfg_to_python(schedule.sfg, schedule=True) + result
+    return sfg_to_python(sfg, schedule=True) + result
-- 
2.43.0


From 42904b8b0ccd0f5bccad934aaf280e0e57c7f05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:12 +0000
Subject: [PATCH 35/79] fix: flattening failed on unused or direct inputs,
 shared outputs and sinks

---
 lib/b_asic/sfg.py | 67 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 46 insertions(+), 21 deletions(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 666ea69..9a43591 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -35,6 +35,7 @@ from b_asic.signal import Signal
 from b_asic.special_operations import Delay, Input, Output
 from b_asic.state_space import StateSpace
 from b_asic.types import GraphID, GraphIDNumber, Name, Num, TypeName
+from b_asic.utility_operations import Sink
 
 if TYPE_CHECKING:
     from b_asic.simulation import Simulation
@@ -442,38 +443,62 @@ class SFG(AbstractOperation):
                 f" number of output_operations ({len(self.output_operations)})"
                 " in SFG."
             )
-        if len(self.input_signals) == 0:
+        if len(self.input_signals) == 0 and self.inputs:
             return False
-        if len(self.output_signals) == 0:
+        # External sources, also those passed directly to an output
+        external_sources = {}
+        for input_port, input_operation in zip(
+            self.inputs, self.input_operations, strict=True
+        ):
+            if input_port.signal_count:
+                external_sources[input_operation] = input_port.signals[0].source
+        output_sources = []
+        for output_operation in self.output_operations:
+            src = output_operation.input(0).signals[0].source
+            if src is None:
+                raise ValueError("Missing source in signal.")
+            output_sources.append(src)
+
+        if len(self.output_signals) == 0 and not self.input_signals:
             return False
 
         # For each input_signal, connect it to the corresponding operation
         for input_port, input_operation in zip(
             self.inputs, self.input_operations, strict=True
         ):
-            destination = input_operation.output(0).signals[0].destination
-            if destination is None:
-                raise ValueError("Missing destination in signal.")
-            destination.clear()
-            input_port.signals[0].set_destination(destination)
-            for signal in input_operation.output(0).signals[1:]:
-                other_destination = signal.destination
-                if other_destination is None:
+            if not input_port.signal_count:
+                continue
+            external_signal = input_port.signals[0]
+            destinations = []
+            for signal in input_operation.output(0).signals:
+                if signal.destination is None:
                     raise ValueError("Missing destination in signal.")
-                other_destination.clear()
-                other_destination.add_signal(Signal(destination.signals[0].source))
+            if not destinations:
+                external_signal.remove_source()
+                external_signal.remove_destination()
+                continue
+            destinations[0].clear()
+            external_signal.set_destination(destinations[0])
+            for destination in destinations[1:]:
+                destination.clear()
+                destination.add_signal(Signal(external_signal.source))
+                if signal.destination.operation not in self.output_operations:
+                    destinations.append(signal.destination)
             input_operation.output(0).clear()
         # For each output_signal, connect it to the corresponding operation
-        for output_port, output_operation in zip(
-            self.outputs, self.output_operations, strict=True
+        for output_port, output_operation, src in zip(
+            self.outputs, self.output_operations, output_sources, strict=True
         ):
-            src = output_operation.input(0).signals[0].source
+            for signal in output_operation.input(0).signals[:]:
+                signal.remove_source()
+            while src is not None and src.operation in external_sources:
+                src = external_sources[src.operation]
+                if src is not None and src.operation is self:
+                    src = output_sources[src.index]
             if src is None:
-                raise ValueError("Missing source in signal.")
-            for sig in output_operation.input(0).signals[:]:
-                src.remove_signal(sig)
-                for signal in output_port.signals[:]:
-                    signal.set_source(src)
+                continue
+            for signal in output_port.signals[:]:
+                signal.set_source(src)
         return True
 
     @property
@@ -527,7 +552,7 @@ class SFG(AbstractOperation):
                     )
                     changed = True
                     break
-                if expand and not isinstance(op, (Input, Output)):
+                if expand and not isinstance(op, (Input, Output, Sink)):
                     op_sfg = op.to_sfg()
                     inner = [
                         o
-- 
2.43.0


From 52970e66182fdf05a31efcf27bfed14e4d857b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:12 +0000
Subject: [PATCH 36/79] fix: an input connected straight to several outputs was
 listed several times

---
 lib/b_asic/sfg.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 9a43591..121ce78 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -282,12 +282,9 @@ class SFG(AbstractOperation):
                         new_signal.destination.operation,
                     ]
                 )
-                self._operations_dfs_order.extend(
-                    [
-                        source.operation,
-                        new_signal.destination.operation,
-                    ]
-                )
+                if source.operation not in self._operations_dfs_order:
+                    self._operations_dfs_order.append(source.operation)
+                self._operations_dfs_order.append(new_signal.destination.operation)
 
         # Search the graph inwards from each output signal.
         output_sources = []
@@ -445,6 +442,9 @@ class SFG(AbstractOperation):
             )
         if len(self.input_signals) == 0 and self.inputs:
             return False
+        if len(self.output_signals) == 0 and not self.input_signals:
+            return False
+
         # External sources, also those passed directly to an output
         external_sources = {}
         for input_port, input_operation in zip(
@@ -459,9 +459,6 @@ class SFG(AbstractOperation):
                 raise ValueError("Missing source in signal.")
             output_sources.append(src)
 
-        if len(self.output_signals) == 0 and not self.input_signals:
-            return False
-
         # For each input_signal, connect it to the corresponding operation
         for input_port, input_operation in zip(
             self.inputs, self.input_operations, strict=True
@@ -473,6 +470,9 @@ class SFG(AbstractOperation):
             for signal in input_operation.output(0).signals:
                 if signal.destination is None:
                     raise ValueError("Missing destination in signal.")
+                if signal.destination.operation not in self.output_operations:
+                    destinations.append(signal.destination)
+            input_operation.output(0).clear()
             if not destinations:
                 external_signal.remove_source()
                 external_signal.remove_destination()
@@ -482,9 +482,6 @@ class SFG(AbstractOperation):
             for destination in destinations[1:]:
                 destination.clear()
                 destination.add_signal(Signal(external_signal.source))
-                if signal.destination.operation not in self.output_operations:
-                    destinations.append(signal.destination)
-            input_operation.output(0).clear()
         # For each output_signal, connect it to the corresponding operation
         for output_port, output_operation, src in zip(
             self.outputs, self.output_operations, output_sources, strict=True
-- 
2.43.0


From a7d80afa054040accd172001b287578c195d2879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:12 +0000
Subject: [PATCH 37/79] fix: extracting operations connected the wrong number
 of signals

---
 lib/b_asic/sfg.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 121ce78..dc1d40f 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -741,7 +741,7 @@ class SFG(AbstractOperation):
                     input_op = Input()
                     sig.remove_destination()
                     input_port.connect(input_op)
-                    inputs.append((sig.graph_id, input_op))
+                    inputs.append((sig, input_op))
 
             # Find all output ports from the subgraph
             for output_port in op.outputs:
@@ -750,7 +750,7 @@ class SFG(AbstractOperation):
                         output_op = Output()
                         output_op.input(0).connect(output_port)
                         sig.remove_source()
-                        outputs.append((sig.graph_id, output_op))
+                        outputs.append((sig, output_op))
 
         sub_sfg = SFG(
             inputs=[inp[1] for inp in inputs],
@@ -766,15 +766,9 @@ class SFG(AbstractOperation):
                 "Mismatch between extracted boundary ports and sub-SFG ports"
             )
 
-        for idx, ((in_sig_id, _), (out_sig_id, _)) in enumerate(
-            zip(inputs, outputs, strict=False)
-        ):
-            in_sig = sfg_copy.find_by_id(in_sig_id)
-            in_sig.remove_destination()
+        for idx, (in_sig, _) in enumerate(inputs):
             in_sig.set_destination(sub_sfg.input(idx))
-
-            out_sig = sfg_copy.find_by_id(out_sig_id)
-            out_sig.remove_source()
+        for idx, (out_sig, _) in enumerate(outputs):
             out_sig.set_source(sub_sfg.output(idx))
 
         return sfg_copy()
-- 
2.43.0


From 8bbd741e61c040e3fe4327c155f2c468c9089c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:12 +0000
Subject: [PATCH 38/79] fix: replacing an operation connected the provided
 component itself

---
 lib/b_asic/sfg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index dc1d40f..0ddfc02 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -803,7 +803,8 @@ class SFG(AbstractOperation):
                 "The output count may not differ between the provided component and target"
             )
 
-        # Perform the replacement
+        # Perform the replacement, leaving the provided component as is
+        component = cast(Operation, component.copy())
         for index_in, input_ in enumerate(target_op.inputs):
             for signal in input_.signals:
                 signal.remove_destination()
-- 
2.43.0


From 8347bcca00b7c12499c0e2a1e3ac7a6b69792576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:12 +0000
Subject: [PATCH 39/79] fix: simplifying delays merged those with different
 initial values and lost consumers

---
 lib/b_asic/sfg.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 0ddfc02..ec9af68 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -1103,13 +1103,15 @@ class SFG(AbstractOperation):
                         signal.destination.operation
                         for signal in delay_element.inputs[0].signals[0].source.signals
                         if isinstance(signal.destination.operation, Delay)
+                        and signal.destination.operation.initial_value
+                        == delay_element.initial_value
                     ]
 
                     if delay_element in neighboring_delays:
                         neighboring_delays.remove(delay_element)
 
                     for delay in neighboring_delays:
-                        for output in delay.outputs[0].signals:
+                        for output in delay.outputs[0].signals[:]:
                             output.set_source(delay_element.outputs[0])
                         in_sig = delay.input(0).signals[0]
                         delay.input(0).remove_signal(in_sig)
-- 
2.43.0


From add9b0d0e7e969f1bd46d5c3bcf4a617174b06e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:12 +0000
Subject: [PATCH 40/79] fix: removing an operation with an unused output left a
 dangling signal

---
 lib/b_asic/sfg.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index ec9af68..a6c3ac5 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -1211,6 +1211,7 @@ class SFG(AbstractOperation):
                 if operation.input(i).signal_count > 0:
                     in_sig = operation.input(i).signals[0]
                     operation.input(i).remove_signal(in_sig)
+                    in_sig.remove_source()
 
         return sfg_copy()
 
-- 
2.43.0


From b1670f4386d346a4c147dbb6ac8307f1f907be5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:12 +0000
Subject: [PATCH 41/79] fix: no topological order for loops without any input

---
 lib/b_asic/sfg.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index a6c3ac5..ad06918 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -1441,8 +1441,16 @@ class SFG(AbstractOperation):
                             )
                             seen_but_not_visited_count -= 1
                             break
+                # Else all that is left are loops without any input
                 else:
-                    raise RuntimeError("Disallowed structure in SFG detected")
+                    new_op = next(op for op in self.operations if op not in visited)
+                    p_queue.put(
+                        (
+                            -new_op.output_count,
+                            -next(p_queue_entry_num),
+                            new_op,
+                        )
+                    )
 
         self._operations_topological_order = top_order
         return self._operations_topological_order
-- 
2.43.0


From 7a38d250ea2baffa4bf3df90f3417ed20c8ae57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:12 +0000
Subject: [PATCH 42/79] fix: unfolding lost initial values and delays of nested
 graphs

---
 lib/b_asic/sfg.py | 39 +++++++++++++++------------------------
 1 file changed, 15 insertions(+), 24 deletions(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index ad06918..153ff23 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -2459,10 +2459,13 @@ class SFG(AbstractOperation):
         if factor == 0:
             raise ValueError("Unfolding 0 times removes the SFG")
 
-        sfg = self()  # copy the sfg
+        sfg = self.flatten()  # copy the sfg, nested SFGs may contain delays
 
         inputs = sfg.input_operations
         outputs = sfg.output_operations
+        no_inputs = len(inputs)
+        no_outputs = len(outputs)
+        initial_values = []
 
         # Remove all delay elements in the SFG and replace each one
         # with one input operation and one output operation
@@ -2472,6 +2475,7 @@ class SFG(AbstractOperation):
                 src0=delay.input(0).signals[0].source, name="output_" + delay.graph_id
             )
 
+            initial_values.append(delay.initial_value)
             inputs.append(tmp_input)
             outputs.append(tmp_output)
 
@@ -2495,10 +2499,9 @@ class SFG(AbstractOperation):
             for operation in sfgs[i].operations:
                 suffix = f"_{i}"
                 operation.graph_id = operation.graph_id + suffix
-                if operation.name[:7] not in ["", "input_t", "output_"]:
+                if operation.name:
                     operation.name = operation.name + suffix
 
-        input_name_to_idx = {}  # save the input port indices for future reference
         new_inputs = []
         # For each copy of the SFG, create new input operations for every "original"
         # input operation and connect them to begin creating the unfolded SFG
@@ -2506,48 +2509,36 @@ class SFG(AbstractOperation):
             for port, operation in zip(
                 sfgs[i].inputs, sfgs[i].input_operations, strict=True
             ):
-                if not operation.name.startswith("input_t"):
+                if port.index < no_inputs:
                     new_input = Input(name=operation.name)
                     new_input.graph_id = operation.graph_id
                     new_inputs.append(new_input)
                     port.connect(new_input)
-                else:
-                    # If the input was created earlier when removing the delays
-                    # then just save the index
-                    input_name_to_idx[operation.name] = port.index
 
         # Connect the original outputs in the same way as the inputs
         # Also connect the copies of the SFG together according to a formula
-        # from the TSTE87 course material, and save the number of delays for
-        # each interconnection
+        # from the TSTE87 course material
         new_outputs = []
-        delay_placements = {}
         for i in range(factor):
             for port, operation in zip(
                 sfgs[i].outputs, sfgs[i].output_operations, strict=True
             ):
-                if not operation.name.startswith("output_t"):
+                if port.index < no_outputs:
                     new_output = Output(port, name=operation.name)
                     new_output.graph_id = operation.graph_id
                     new_outputs.append(new_output)
                 else:
-                    index = operation.name[8:]  # Remove the "output_t" prefix
-                    j = (i + 1) % factor
-                    number_of_delays_between = (i + 1) // factor
-                    input_port = sfgs[j].input(input_name_to_idx["input_t" + index])
-                    input_port.connect(port)
-                    delay_placements[port] = [i, number_of_delays_between]
+                    index = port.index - no_outputs
+                    input_port = sfgs[(i + 1) % factor].input(no_inputs + index)
+                    if i + 1 < factor:
+                        input_port.connect(port)
+                    else:
+                        input_port.connect(Delay(port, initial_values[index]))
             # deterministically set the graphID of the SFGs
             sfgs[i].graph_id = f"sfg{i}"
 
         sfg = SFG(new_inputs, new_outputs)  # create a new SFG to remove floating nodes
 
-        # Insert the interconnect delays according to what is saved in delay_placements
-        for port, val in delay_placements.items():
-            i, no_of_delays = val
-            for _ in range(no_of_delays):
-                sfg = sfg.insert_operation_after(f"sfg{i}.{port.index}", Delay())
-
         # Flatten all the copies of the original SFG
         for i in range(factor):
             sfg.find_by_id(f"sfg{i}").connect_external_signals_to_components()
-- 
2.43.0


From efe0a5fd51e6dfce478ea65c8b855444a9444476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:12 +0000
Subject: [PATCH 43/79] fix: rewriting a constant multiplication into shifts
 gave other values

---
 lib/b_asic/core_operations.py | 56 ++++++++++++++++-------------------
 lib/b_asic/sfg.py             |  6 +++-
 2 files changed, 30 insertions(+), 32 deletions(-)

diff --git a/lib/b_asic/core_operations.py b/lib/b_asic/core_operations.py
index 5cf0077..5002a41 100644
--- a/lib/b_asic/core_operations.py
+++ b/lib/b_asic/core_operations.py
@@ -1763,12 +1763,17 @@ class ConstantMultiplication(AbstractOperation):
         frac_bits = csd[1]
         max_exp = bits - 1 - frac_bits
 
-        if len(csd[0]) == 1:
+        if not csd[0]:
+            # Multiplication by zero
+            prev_op = ShiftAddSub(is_add=False, shift=0, src0=in0, src1=in0)
+        elif len(csd[0]) == 1:
             prev_op = Shift(frac_bits, prev_op)
         else:
             first_nonzero = True
             for i, digit in enumerate(csd[0]):
                 if digit not in (-1, 0, 1):
+            if csd[0][0] == -1:
+                prev_op = Negation(prev_op)
                     raise ValueError("CSD representation can only contain -1, 0, and 1")
                 if digit == 0:
                     continue
@@ -1790,9 +1795,10 @@ class ConstantMultiplication(AbstractOperation):
                     # Subsequent digits: add or subtract from accumulated result
                     prev_op = ShiftAddSub(
                         is_add=digit == 1,
-                        shift=-exp,
+                        shift=max(-exp, 0),
                         src0=prev_op,
-                        src1=in0,
+                    # Only right-shifts can be part of the ShiftAddSub
+                        src1=Shift(-exp, in0) if exp > 0 else in0,
                     )
 
         out0 <<= prev_op
@@ -1804,37 +1810,25 @@ class ConstantMultiplication(AbstractOperation):
         from b_asic.sfg import SFG  # noqa: PLC0415
         from b_asic.special_operations import Input, Output  # noqa: PLC0415
 
-        csd = float_to_csd(self.value)
+        csd, frac_bits = float_to_csd(self.value)
 
         in0 = Input()
         out0 = Output()
-        prev_op = in0
-
-        if self.value < 0:
-            prev_op = Negation(prev_op)
-
-        bits = len(csd[0])
-        frac_bits = csd[1]
-        max_exp = bits - 1 - frac_bits
-
-        if len(csd[0]) == 1:
-            prev_op = Shift(frac_bits, prev_op)
-        else:
-            for i, digit in enumerate(csd[0]):
-                if digit not in (-1, 0, 1):
-                    raise ValueError("CSD representation can only contain -1, 0, and 1")
-                if digit == 0:
-                    continue
-
-                exp = max_exp - i
-                if exp == 0:
-                    continue
-
-                shift = Shift(-exp, in0)
-                if digit == 1:
-                    prev_op = Addition(prev_op, shift)
-                elif digit == -1:
-                    prev_op = Subtraction(prev_op, shift)
+        prev_op = None
+
+        for exp, digit in enumerate(reversed(csd), -frac_bits):
+            if digit == 0:
+                continue
+            term = Shift(-exp, in0) if exp else in0
+            if prev_op is None:
+                prev_op = term if digit == 1 else Negation(term)
+            elif digit == 1:
+                prev_op = Addition(prev_op, term)
+            else:
+                prev_op = Subtraction(prev_op, term)
+        if prev_op is None:
+            # Multiplication by zero
+            prev_op = Subtraction(in0, in0)
         out0 <<= prev_op
 
         return SFG([in0], [out0])
diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 153ff23..451bb20 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -2590,6 +2590,7 @@ class SFG(AbstractOperation):
             func_name = f"_rewrite_{source.__name__}"
             if hasattr(op, func_name):
                 sub_sfg = getattr(op, func_name)()
+                sub_sfg.graph_id = GraphID(f"{op.graph_id}_rewritten")
                 new_sfg = new_sfg.replace(op.graph_id, sub_sfg)
             else:
                 warnings.warn(
@@ -2600,6 +2601,7 @@ class SFG(AbstractOperation):
                 func_name = f"_from_{type(op).__name__}"
                 if hasattr(source, func_name):
                     sub_sfg = getattr(source, func_name)(op)
+                    sub_sfg.graph_id = GraphID(f"{op.graph_id}_rewritten")
                     new_sfg = new_sfg.replace(op.graph_id, sub_sfg)
                 else:
                     warnings.warn(
@@ -2611,7 +2613,9 @@ class SFG(AbstractOperation):
             if not isinstance(sub_sfg, SFG):
                 continue
 
-            new_sfg.find_by_id("sfg0").connect_external_signals_to_components()
+            new_sfg.find_by_id(
+                sub_sfg.graph_id
+            ).connect_external_signals_to_components()
             new_sfg = new_sfg()
 
         return new_sfg()
-- 
2.43.0


From 016315cbfc1867c1ad57c6dbebc8b7c3eccd8c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:12 +0000
Subject: [PATCH 44/79] fix: joining a multiplication by j dropped operations
 and changed values

---
 lib/b_asic/core_operations.py | 46 +++++++++++++++++++----------------
 lib/b_asic/sfg.py             | 18 ++++++++++----
 2 files changed, 38 insertions(+), 26 deletions(-)

diff --git a/lib/b_asic/core_operations.py b/lib/b_asic/core_operations.py
index 5002a41..228862d 100644
--- a/lib/b_asic/core_operations.py
+++ b/lib/b_asic/core_operations.py
@@ -1613,47 +1613,51 @@ class ImaginaryMultiplication(AbstractOperation):
         in0 = Input()
         in1 = Input()
         out0 = Output()
-        if other.mul_j:
-            in1 = -in1
+        # Multiplying by j twice is a negation
+        src1 = Negation(in1) if other.mul_j else in1
 
         if isinstance(other, Addition):
             op = Addition(
                 src0=in0,
-                src1=in1,
-                name=self.name,
-                latency_offsets=self.latency_offsets,
-                execution_time=self.execution_time,
+                src1=src1,
+                name=other.name,
+                latency_offsets=other.latency_offsets,
+                execution_time=other.execution_time,
                 mul_j=not other.mul_j,
+                shift_output=other.shift_output,
             )
         elif isinstance(other, Subtraction):
             op = Subtraction(
                 src0=in0,
-                src1=in1,
-                name=self.name,
-                latency_offsets=self.latency_offsets,
-                execution_time=self.execution_time,
+                src1=src1,
+                name=other.name,
+                latency_offsets=other.latency_offsets,
+                execution_time=other.execution_time,
                 mul_j=not other.mul_j,
+                shift_output=other.shift_output,
             )
         elif isinstance(other, AddSub):
             op = AddSub(
                 src0=in0,
-                src1=in1,
+                src1=src1,
                 is_add=other.is_add,
-                name=self.name,
-                latency_offsets=self.latency_offsets,
-                execution_time=self.execution_time,
+                name=other.name,
+                latency_offsets=other.latency_offsets,
+                execution_time=other.execution_time,
                 mul_j=not other.mul_j,
+                shift_output=other.shift_output,
             )
         elif isinstance(other, ShiftAddSub):
             op = ShiftAddSub(
                 src0=in0,
-                src1=in1,
+                src1=src1,
                 is_add=other.is_add,
                 shift=other.shift,
-                name=self.name,
-                latency_offsets=self.latency_offsets,
-                execution_time=self.execution_time,
+                name=other.name,
+                latency_offsets=other.latency_offsets,
+                execution_time=other.execution_time,
                 mul_j=not other.mul_j,
+                shift_output=other.shift_output,
             )
         out0 <<= op
         return SFG([in0, in1], [out0])
@@ -1768,12 +1772,12 @@ class ConstantMultiplication(AbstractOperation):
             prev_op = ShiftAddSub(is_add=False, shift=0, src0=in0, src1=in0)
         elif len(csd[0]) == 1:
             prev_op = Shift(frac_bits, prev_op)
+            if csd[0][0] == -1:
+                prev_op = Negation(prev_op)
         else:
             first_nonzero = True
             for i, digit in enumerate(csd[0]):
                 if digit not in (-1, 0, 1):
-            if csd[0][0] == -1:
-                prev_op = Negation(prev_op)
                     raise ValueError("CSD representation can only contain -1, 0, and 1")
                 if digit == 0:
                     continue
@@ -1793,11 +1797,11 @@ class ConstantMultiplication(AbstractOperation):
                             prev_op = Negation(prev_op)
                 else:
                     # Subsequent digits: add or subtract from accumulated result
+                    # Only right-shifts can be part of the ShiftAddSub
                     prev_op = ShiftAddSub(
                         is_add=digit == 1,
                         shift=max(-exp, 0),
                         src0=prev_op,
-                    # Only right-shifts can be part of the ShiftAddSub
                         src1=Shift(-exp, in0) if exp > 0 else in0,
                     )
 
diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 451bb20..9a1e796 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -2700,13 +2700,21 @@ class SFG(AbstractOperation):
                 raise ValueError(
                     "Can only join forward if the operation has exactly one output"
                 )
+            if not hasattr(op, "_join"):
+                raise ValueError(f"Operation {target} cannot be joined")
             for sig in op.output(0).signals:
                 dest_op = sig.destination_operation
-                if hasattr(op, "_join"):
-                    joined_op = op._join(dest_op)
-                    new_sfg = new_sfg.replace(dest_op.graph_id, joined_op)
-                    new_sfg.find_by_id("sfg0").connect_external_signals_to_components()
-                    new_sfg = new_sfg()
+                joined_op = op._join(dest_op) if sig.destination.index == 1 else None
+                if joined_op is None:
+                    raise ValueError(
+                        f"Operation {target} cannot be joined with {dest_op.graph_id}"
+                    )
+                joined_op.graph_id = GraphID(f"{dest_op.graph_id}_joined")
+                new_sfg = new_sfg.replace(dest_op.graph_id, joined_op)
+                new_sfg.find_by_id(
+                    joined_op.graph_id
+                ).connect_external_signals_to_components()
+                new_sfg = new_sfg()
             new_sfg = new_sfg.remove_operation(target)
         elif direction == "backward":
             raise NotImplementedError("Joining backward is not implemented yet")
-- 
2.43.0


From bce905a7786a641eedd0334d36cb7879f281fc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:20 +0000
Subject: [PATCH 45/79] fix: accept only complete and feasible ILP solutions in
 resource assignment

---
 lib/b_asic/resource_assigner.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/b_asic/resource_assigner.py b/lib/b_asic/resource_assigner.py
index 29251d2..e31c70e 100644
--- a/lib/b_asic/resource_assigner.py
+++ b/lib/b_asic/resource_assigner.py
@@ -37,6 +37,9 @@ from b_asic.utility_operations import DontCare
 
 log = b_asic.logger.getLogger()
 
+# Allowed violation of bounds, constraints, and integrality for a feasible ILP solution
+_FEASIBILITY_TOLERANCE = 1e-5
+
 
 def assign_processing_elements_and_memories(
     schedule: Schedule,
@@ -1216,8 +1219,5 @@ def _recover_cmd_solution_file(
 
 
 def _has_feasible_solution(problem: LpProblem) -> bool:
-    if value(problem.objective) is not None:
-        return True
-
-    variables = problem.variables()
-    return bool(variables) and all(var.varValue is not None for var in variables)
+    # The values may come from a warm start or from an incomplete solution file
+    return problem.valid(_FEASIBILITY_TOLERANCE)
-- 
2.43.0


From 55d667067000e07c6a13ccb4826f4dfc0c834896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:15 +0000
Subject: [PATCH 46/79] fix: respect resource limits in heuristic joint
 resource assignment

---
 lib/b_asic/resource_assigner.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/lib/b_asic/resource_assigner.py b/lib/b_asic/resource_assigner.py
index e31c70e..a2d1ae1 100644
--- a/lib/b_asic/resource_assigner.py
+++ b/lib/b_asic/resource_assigner.py
@@ -215,6 +215,7 @@ def _split_operations_and_variables(
         else:
             max_pes[operation.type_name()] = resources[operation.type_name()]
     log.info("Upper bounds on PE colors: %s", max_pes)
+    mem_limit = max_mems
 
     log.info("Generating memory variable exclusion graph")
     mem_exclusion_graph = mem_vars.exclusion_graph_from_ports(
@@ -263,6 +264,7 @@ def _split_operations_and_variables(
             coloring = nx.coloring.greedy_color(
                 pe_ex_graph, strategy="saturation_largest_first"
             )
+            _check_limit(op_type_name, len(set(coloring.values())), resources)
             pe_x[op_type_name] = {
                 node: {
                     color: 1 if color == node_color else 0
@@ -273,6 +275,7 @@ def _split_operations_and_variables(
         mem_coloring = nx.coloring.greedy_color(
             mem_exclusion_graph, strategy="saturation_largest_first"
         )
+        _check_memory_limit(len(set(mem_coloring.values())), mem_limit)
         mem_x = {
             node: {color: 1 if color == node_color else 0 for color in range(max_mems)}
             for node, node_color in mem_coloring.items()
@@ -284,11 +287,15 @@ def _split_operations_and_variables(
             write_ports=memory_write_ports,
             total_ports=memory_total_ports,
         )
+        _check_memory_limit(len(mem_process_collections), mem_limit)
         pe_process_collections = {}
         for op_type_name, group in op_groups.items():
             pe_process_collections[op_type_name] = group.split_on_execution_time(
                 strategy="left_edge"
             )
+            _check_limit(
+                op_type_name, len(pe_process_collections[op_type_name]), resources
+            )
         return pe_process_collections, mem_process_collections
     else:
         raise ValueError(f"Invalid strategy '{strategy}'")
@@ -315,6 +322,23 @@ def _split_operations_and_variables(
     return pe_process_collections, mem_process_collections
 
 
+def _check_limit(
+    op_type_name: TypeName, required: int, resources: dict[TypeName, int] | None
+) -> None:
+    if resources and required > resources.get(op_type_name, required):
+        raise ValueError(
+            f"{required} resources of type '{op_type_name}' are required, but at most"
+            f" {resources[op_type_name]} are allowed."
+        )
+
+
+def _check_memory_limit(required: int, max_mems: int | None) -> None:
+    if max_mems is not None and required > max_mems:
+        raise ValueError(
+            f"{required} memories are required, but at most {max_mems} are allowed."
+        )
+
+
 def _ilp_coloring(
     op_groups: dict[TypeName, ProcessCollection],
     mem_exclusion_graph: nx.Graph | None,
-- 
2.43.0


From 173e53c249218e0f68c9d45fd8c1ba57f6a4b790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:15 +0000
Subject: [PATCH 47/79] fix: joint ILP resource assignment without memory
 variables

---
 lib/b_asic/resource_assigner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/resource_assigner.py b/lib/b_asic/resource_assigner.py
index a2d1ae1..dc250b1 100644
--- a/lib/b_asic/resource_assigner.py
+++ b/lib/b_asic/resource_assigner.py
@@ -385,7 +385,7 @@ def _ilp_coloring(
     for node in mem_graph_nodes:
         for color in range(max_mems):
             problem += mem_x[node][color] <= mem_c[color]
-    max_clique = next(nx.find_cliques(mem_exclusion_graph))
+    max_clique = next(nx.find_cliques(mem_exclusion_graph), [])
     for color, node in enumerate(max_clique):
         problem += mem_x[node][color] == mem_c[color] == 1
     for color in range(max_mems):
@@ -786,6 +786,7 @@ def _ilp_min_mux(
     busiest_mem_t = max(
         all_mem_times,
         key=lambda t: max(len(mem_writes_in_time[t]), len(mem_reads_in_time[t])),
+        default=0,
     )
     busiest_mem_vars = (
         mem_reads_in_time[busiest_mem_t]
-- 
2.43.0


From aeaf17d366700a68976682c15f3912dd23889cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:15 +0000
Subject: [PATCH 48/79] fix: respect a single memory port in ilp_min_mux
 resource assignment

---
 lib/b_asic/resource_assigner.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/resource_assigner.py b/lib/b_asic/resource_assigner.py
index dc250b1..2185ecc 100644
--- a/lib/b_asic/resource_assigner.py
+++ b/lib/b_asic/resource_assigner.py
@@ -253,6 +253,7 @@ def _split_operations_and_variables(
             pe_operations,
             direct_variables,
             max_mux_size,
+            memory_total_ports,
             solver,
             pe_greedy_colorings,
             mem_greedy_coloring,
@@ -485,6 +486,7 @@ def _ilp_min_mux(
     pe_operations: list[Operation],
     direct: ProcessCollection,
     max_mux_size: int | None = None,
+    memory_total_ports: int | None = None,
     solver: LpSolver | None = None,
     pe_warm_start: dict[TypeName, dict] | None = None,
     mem_warm_start: dict | None = None,
@@ -764,7 +766,11 @@ def _ilp_min_mux(
     # Loop over the schedule and add constraints
     for t in range(Ts):
         # At most one read/write per memory per time slot
-        for vars_at_t in (mem_writes_in_time[t], mem_reads_in_time[t]):
+        mem_accesses = [mem_writes_in_time[t], mem_reads_in_time[t]]
+        if memory_total_ports == 1:
+            # Reads and writes share a single port
+            mem_accesses = [mem_writes_in_time[t] + mem_reads_in_time[t]]
+        for vars_at_t in mem_accesses:
             if len(vars_at_t) > 1:
                 for mem_idx in range(max_mems):
                     problem += lpSum(mem_x[var][mem_idx] for var in vars_at_t) <= 1
-- 
2.43.0


From 98ad110c7b067d06ce8e6cf78f79ab0b7addddaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:16 +0000
Subject: [PATCH 49/79] fix: joint ILP resource assignment with processes
 having the same name

---
 lib/b_asic/resource_assigner.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lib/b_asic/resource_assigner.py b/lib/b_asic/resource_assigner.py
index 2185ecc..df25083 100644
--- a/lib/b_asic/resource_assigner.py
+++ b/lib/b_asic/resource_assigner.py
@@ -972,7 +972,14 @@ def _get_pe_nodes(
 
 
 def _create_memory_variables(mem_vars: list, max_mems: list[int]) -> tuple[dict, dict]:
-    mem_x = LpVariable.dicts("mem_x", (mem_vars, range(max_mems)), cat=LpBinary)
+    # Processes can have the same name, so it cannot be used to name the variables
+    mem_x = {
+        node: {
+            color: LpVariable(f"mem_x_{i}_{color}", cat=LpBinary)
+            for color in range(max_mems)
+        }
+        for i, node in enumerate(mem_vars)
+    }
     mem_c = LpVariable.dicts("mem_c", range(max_mems), cat=LpBinary)
     log.info(
         "Memory variables created: mem_x with shape (%d, %s) and mem_c with shape (%s)",
@@ -1071,14 +1078,15 @@ def _create_pe_variables(
     pe_c = {}
     for op_type_name, group in op_groups.items():
         pe_x[op_type_name] = {}
-        for proc in group:
+        # Processes can have the same name, so it cannot be used to name the variables
+        for i, proc in enumerate(group):
             pe_x[op_type_name][proc] = {}
             if max_pes[op_type_name] == 1:
                 pe_x[op_type_name][proc][0] = 1
             else:
                 for pe_idx in range(max_pes[op_type_name]):
                     pe_x[op_type_name][proc][pe_idx] = LpVariable(
-                        f"pe_x_{op_type_name}_{proc}_{pe_idx}", cat=LpBinary
+                        f"pe_x_{op_type_name}_{i}_{pe_idx}", cat=LpBinary
                     )
 
         pe_c[op_type_name] = {}
-- 
2.43.0


From c75c064a69e9f89c77e3a1e8b4568baa6994fb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:16 +0000
Subject: [PATCH 50/79] fix: left_edge joint resource assignment with more than
 one read or write port

---
 lib/b_asic/resource_assigner.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/b_asic/resource_assigner.py b/lib/b_asic/resource_assigner.py
index df25083..7898ea8 100644
--- a/lib/b_asic/resource_assigner.py
+++ b/lib/b_asic/resource_assigner.py
@@ -218,9 +218,13 @@ def _split_operations_and_variables(
     mem_limit = max_mems
 
     log.info("Generating memory variable exclusion graph")
-    mem_exclusion_graph = mem_vars.exclusion_graph_from_ports(
-        memory_read_ports, memory_write_ports, memory_total_ports
-    )
+    if strategy == "left_edge":
+        # The exclusion graph is not needed and puts restrictions on the ports
+        mem_exclusion_graph = nx.Graph()
+    else:
+        mem_exclusion_graph = mem_vars.exclusion_graph_from_ports(
+            memory_read_ports, memory_write_ports, memory_total_ports
+        )
     mem_greedy_coloring = nx.coloring.greedy_color(
         mem_exclusion_graph, strategy="saturation_largest_first"
     )
-- 
2.43.0


From cd3e78a9dc2bf767cb18a587b91977e6b1468bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:57 +0000
Subject: [PATCH 51/79] fix: forward-backward allocation of variables read both
 directly and later

---
 lib/b_asic/resources.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/resources.py b/lib/b_asic/resources.py
index 8d9d37a..34b77aa 100644
--- a/lib/b_asic/resources.py
+++ b/lib/b_asic/resources.py
@@ -333,7 +333,8 @@ class _ForwardBackwardTable:
             self.table[mv.start_time].inputs.append(mv)
             if mv.execution_time:
                 self.table[(mv.start_time + 1) % collection.schedule_time].regs[0] = mv
-            else:
+            if mv.start_time in mv.read_times:
+                # Read in the same cycle as it is written, i.e., directly from the input
                 self.table[mv.start_time].outputs.append(mv)
                 self.table[mv.start_time].outputs_from = -1
 
-- 
2.43.0


From bc2a7417f91962d7d260e9eaa2475aa0042fc7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:57 +0000
Subject: [PATCH 52/79] fix: refuse forward-backward allocation of variables
 alive longer than the schedule time

---
 lib/b_asic/resources.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/b_asic/resources.py b/lib/b_asic/resources.py
index 34b77aa..37afc45 100644
--- a/lib/b_asic/resources.py
+++ b/lib/b_asic/resources.py
@@ -305,6 +305,12 @@ class _ForwardBackwardTable:
         collection : ProcessCollection
             ProcessCollection to apply forward-backward allocation on.
         """
+        for mv in collection:
+            if mv.execution_time > collection.schedule_time:
+                raise ValueError(
+                    f"{mv} has execution time greater than the schedule time."
+                )
+
         # Generate an alive variable list
         self._collection = set(collection.collection)
         self._live_variables: list[int] = [0] * collection.schedule_time
-- 
2.43.0


From 9e0b2a1ecfd8d63518fe90d1e977ff76919f258e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:36 +0000
Subject: [PATCH 53/79] fix: mix-up of direct interconnect and memory reads at
 the same time in generated VHDL

---
 lib/b_asic/code_printer/vhdl/top_level.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/b_asic/code_printer/vhdl/top_level.py b/lib/b_asic/code_printer/vhdl/top_level.py
index 656aa62..9a5247a 100644
--- a/lib/b_asic/code_printer/vhdl/top_level.py
+++ b/lib/b_asic/code_printer/vhdl/top_level.py
@@ -138,6 +138,10 @@ def _collect_mux_info(arch: "Architecture") -> tuple[list[tuple], list[tuple]]:
                 input_latency = op_input_port.latency_offset or 0
                 for mem in arch.memories:
                     for var in mem.collection:
+                        # Other reads of the same value may be direct or in another
+                        # variable, also at the same time modulo the schedule time
+                        if op_input_port not in var.reads:
+                            continue
                         read_times = [
                             time % arch.schedule_time for time in var.read_times
                         ]
-- 
2.43.0


From de5fbc55999805c97ee426d25824c9797b3e0564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:45 +0000
Subject: [PATCH 54/79] fix: generated memory output register ignored the
 enable signal

---
 lib/b_asic/code_printer/vhdl/memory_storage.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/b_asic/code_printer/vhdl/memory_storage.py b/lib/b_asic/code_printer/vhdl/memory_storage.py
index da5c36c..38de233 100644
--- a/lib/b_asic/code_printer/vhdl/memory_storage.py
+++ b/lib/b_asic/code_printer/vhdl/memory_storage.py
@@ -278,10 +278,12 @@ def architecture(
                 write_time = p.start_time % schedule_time
             output_cases[write_time] = f"'{int(1 in p.reads.values())}'"
         common.synchronous_process_prologue(f, name="output_reg_proc")
-        common.write(f, 3, "if forward_ctrl = '1' then")
-        common.write(f, 4, "p_0_out_internal <= p_0_in_internal;")
-        common.write(f, 3, "else")
-        common.write(f, 4, "p_0_out_internal <= read_port_0;")
+        common.write(f, 3, "if en = '1' then")
+        common.write(f, 4, "if forward_ctrl = '1' then")
+        common.write(f, 5, "p_0_out_internal <= p_0_in_internal;")
+        common.write(f, 4, "else")
+        common.write(f, 5, "p_0_out_internal <= read_port_0;")
+        common.write(f, 4, "end if;")
         common.write(f, 3, "end if;")
         common.synchronous_process_epilogue(
             f,
-- 
2.43.0


From b8ced73520050e3cc8b79a32110d275c90030934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:45 +0000
Subject: [PATCH 55/79] fix: generated memory left read without write to a
 don't-care

---
 lib/b_asic/code_printer/vhdl/memory_storage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/code_printer/vhdl/memory_storage.py b/lib/b_asic/code_printer/vhdl/memory_storage.py
index 38de233..accc644 100644
--- a/lib/b_asic/code_printer/vhdl/memory_storage.py
+++ b/lib/b_asic/code_printer/vhdl/memory_storage.py
@@ -301,7 +301,7 @@ def architecture(
             common.write_lines(
                 f,
                 [
-                    (5, "when others => forward_ctrl <= '-';"),
+                    (5, "when others => forward_ctrl <= '0';"),
                     (4, "end case;"),
                 ],
             )
@@ -317,7 +317,7 @@ def architecture(
             for write_time, stmt in sorted(output_cases.items()):
                 bin_time = time_bin_str(write_time, schedule_time)
                 common.write(f, 2, f'{stmt} when "{bin_time}",')
-            common.write(f, 2, "'-' when others;")
+            common.write(f, 2, "'0' when others;")
 
     else:
         common.write(f, 1, "p_0_out_internal <= read_port_0;")
-- 
2.43.0


From ab129bf3407b981d1ca180a8c98d8e54c8fb215d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 56/79] fix: generated register storage ignored the enable
 signal

---
 .../code_printer/vhdl/register_storage.py     | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/lib/b_asic/code_printer/vhdl/register_storage.py b/lib/b_asic/code_printer/vhdl/register_storage.py
index ecb75ae..903c247 100644
--- a/lib/b_asic/code_printer/vhdl/register_storage.py
+++ b/lib/b_asic/code_printer/vhdl/register_storage.py
@@ -221,37 +221,37 @@ def architecture(
         common.write(f, 3, "if rst = '1' then")
         for reg_idx in range(reg_cnt):
             common.write(f, 4, f"shift_reg({reg_idx}) <= (others => '0');")
-        common.write(f, 3, "else")
+        common.write(f, 3, "elsif en = '1' then")
+    else:
+        common.write(f, 3, "if en = '1' then")
 
     common.write_lines(
         f,
         [
-            (3, "-- Default case"),
-            (3, "shift_reg(0) <= p_0_in;"),
+            (4, "-- Default case"),
+            (4, "shift_reg(0) <= p_0_in;"),
         ],
     )
     for reg_idx in range(1, reg_cnt):
-        common.write(f, 3, f"shift_reg({reg_idx}) <= shift_reg({reg_idx - 1});")
-    common.write(f, 3, "case back_edge_mux_sel is")
+        common.write(f, 4, f"shift_reg({reg_idx}) <= shift_reg({reg_idx - 1});")
+    common.write(f, 4, "case back_edge_mux_sel is")
     for edge, mux_sel in back_edge_table.items():
         common.write_lines(
             f,
             [
-                (4, f"when {mux_sel} =>"),
-                (5, f"shift_reg({edge[1]}) <= shift_reg({edge[0]});"),
+                (5, f"when {mux_sel} =>"),
+                (6, f"shift_reg({edge[1]}) <= shift_reg({edge[0]});"),
             ],
         )
     common.write_lines(
         f,
         [
-            (4, "when others => null;"),
-            (3, "end case;"),
+            (5, "when others => null;"),
+            (4, "end case;"),
+            (3, "end if;"),
         ],
     )
 
-    if sync_rst:
-        common.write(f, 3, "end if;")
-
     common.synchronous_process_epilogue(
         f,
         clk="clk",
-- 
2.43.0


From cad9d515b7f7adce04e811cf46af571f126a6296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:05 +0000
Subject: [PATCH 57/79] fix: invalid VHDL for complex outputs with their own
 word length

---
 lib/b_asic/code_printer/vhdl/vhdl_printer.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/b_asic/code_printer/vhdl/vhdl_printer.py b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
index ca8da0e..a0c8099 100644
--- a/lib/b_asic/code_printer/vhdl/vhdl_printer.py
+++ b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
@@ -493,8 +493,8 @@ class VhdlPrinter(Printer):
         )
         common.write(code, 1, "res_arith_0_re <= op_0.re;")
         common.write(code, 1, "res_arith_0_im <= op_0.im;")
-        common.write(code, 1, "p_0_out_re <= std_logic_vector(res_overflow_0.re);")
-        common.write(code, 1, "p_0_out_im <= std_logic_vector(res_overflow_0.im);")
+        common.write(code, 1, "p_0_out_re <= std_logic_vector(res_overflow_0_re);")
+        common.write(code, 1, "p_0_out_im <= std_logic_vector(res_overflow_0_im);")
         wls = [(self._dt.wl[0], self._dt.wl[1])]
         return wls, (declarations.getvalue(), code.getvalue())
 
@@ -1880,9 +1880,10 @@ class VhdlPrinter(Printer):
                 f"res_overflow_{port_number}_re, res_overflow_{port_number}_im",
                 f"{self.get_scalar_type(target_bits)}",
             )
-            common.signal_declaration(
-                declarations, f"res_overflow_{port_number}", self.type_str
-            )
+            if not is_output:
+                common.signal_declaration(
+                    declarations, f"res_overflow_{port_number}", self.type_str
+                )
         else:
             common.signal_declaration(
                 declarations,
@@ -1972,7 +1973,7 @@ class VhdlPrinter(Printer):
             raise NotImplementedError(
                 f"Overflow mode {self._dt.overflow_mode.name} not implemented for VHDL"
             )
-        if self.is_complex:
+        if self.is_complex and not is_output:
             # Combine real and imaginary parts into output signal with type complex
             common.write(
                 code,
-- 
2.43.0


From 60df8120f3d064137814e23a24875b84a17e4aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:05 +0000
Subject: [PATCH 58/79] fix: enable during reset moved the schedule of designs
 with an input register

---
 lib/b_asic/code_printer/vhdl/top_level.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/b_asic/code_printer/vhdl/top_level.py b/lib/b_asic/code_printer/vhdl/top_level.py
index 9a5247a..56c5570 100644
--- a/lib/b_asic/code_printer/vhdl/top_level.py
+++ b/lib/b_asic/code_printer/vhdl/top_level.py
@@ -545,7 +545,7 @@ def _write_io_registers(
     if enable_pin and input_register:
         # Pipeline the enable signal by one cycle to align with input data
         common.synchronous_process_prologue(f, name="en_reg_proc")
-        common.write(f, 3, "en_internal <= en;")
+        common.write(f, 3, "en_internal <= en and not rst;")
         common.synchronous_process_epilogue(f, name="en_reg_proc", clk="clk")
         common.blank(f)
 
-- 
2.43.0


From 29f995dce7a2238db6e61bd1e0ea27091eab7aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 59/79] fix: invalid VHDL for multiplication by zero or by real
 constants of complex type

---
 lib/b_asic/code_printer/vhdl/vhdl_printer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/code_printer/vhdl/vhdl_printer.py b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
index a0c8099..fa3f521 100644
--- a/lib/b_asic/code_printer/vhdl/vhdl_printer.py
+++ b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
@@ -941,6 +941,8 @@ class VhdlPrinter(Printer):
             p.operation.value.real == 0 and p.operation.value.imag != 0
             for p in pe.collection
         )
+        # Zero can be either
+        is_real = is_real or not any(p.operation.value.imag != 0 for p in pe.collection)
         is_complex = any(
             p.operation.value.real != 0 and p.operation.value.imag != 0
             for p in pe.collection
@@ -1024,8 +1026,12 @@ class VhdlPrinter(Printer):
             )
 
             if is_real and not is_imag:
-                mul_statement("res_arith_0_re", "a", "value", extend_real, real_entry)
-                mul_statement("res_arith_0_im", "b", "value", extend_real, real_entry)
+                mul_statement(
+                    "res_arith_0_re", "a", real_entry.name, extend_real, real_entry
+                )
+                mul_statement(
+                    "res_arith_0_im", "b", real_entry.name, extend_real, real_entry
+                )
 
             elif is_imag and not is_real:
                 # (a + jb) * (j*c) = -bc + j*ac
-- 
2.43.0


From 47120985b5ae4bd5fb286bd1721f6fc4ea8deb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 60/79] fix: pipelined multiplication by both real and
 imaginary constants in generated VHDL

---
 lib/b_asic/code_printer/vhdl/vhdl_printer.py | 56 +++++++++++++-------
 1 file changed, 36 insertions(+), 20 deletions(-)

diff --git a/lib/b_asic/code_printer/vhdl/vhdl_printer.py b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
index fa3f521..d3c3efa 100644
--- a/lib/b_asic/code_printer/vhdl/vhdl_printer.py
+++ b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
@@ -981,13 +981,14 @@ class VhdlPrinter(Printer):
 
         common.signal_declaration(declarations, "a, b", self.scalar_type_str)
 
-        if pe._latency > 2 and not is_complex and is_real and is_imag:
-            # Handle a special case where pipelining is done in the middle
-            common.write(code, 1, f"a <= p_0_in_reg_{pe._latency - 3}.re;")
-            common.write(code, 1, f"b <= p_0_in_reg_{pe._latency - 3}.im;")
-        else:
-            common.write(code, 1, "a <= op_0.re;")
-            common.write(code, 1, "b <= op_0.im;")
+        # Operand selection can be separated from the multiplication by one of the
+        # input registers
+        n_in, n_out = self._register_split
+        pipeline_operands = n_in >= 2 and not is_complex and is_real and is_imag
+        if pipeline_operands:
+            self._register_split = (n_in - 1, n_out)
+        common.write(code, 1, "a <= op_0.re;")
+        common.write(code, 1, "b <= op_0.im;")
 
         def mul_statement(
             res: str, op: str, value: str, extend: bool, value_entry
@@ -1052,11 +1053,12 @@ class VhdlPrinter(Printer):
                 max_coeff_bits = max(real_coeff_bits, imag_coeff_bits)
                 mul_res_type = signed_type(self.bits + max_coeff_bits)
 
-                # op_a signals should be sized to data width, op_b to coefficient width
+                # op_a signals should be sized to data width with room for negation,
+                # op_b to coefficient width
                 common.signal_declaration(
                     declarations,
                     "op_a_re, op_a_re_reg, op_a_im, op_a_im_reg",
-                    self.scalar_type_str,
+                    signed_type(self.bits + 1),
                 )
                 common.signal_declaration(
                     declarations,
@@ -1070,7 +1072,7 @@ class VhdlPrinter(Printer):
                 common.write(
                     code,
                     1,
-                    "op_a_re <= resize(a, op_a_re'length) when is_real = '1' else resize(-b, op_a_re'length);",
+                    "op_a_re <= resize(a, op_a_re'length) when is_real = '1' else -resize(b, op_a_re'length);",
                 )
                 common.write(
                     code,
@@ -1088,22 +1090,36 @@ class VhdlPrinter(Printer):
                     f"op_b_im <= resize({value_real_str}, op_b_im'length) when is_real = '1' else resize({value_imag_str}, op_b_im'length);",
                 )
 
-                if pe._latency > 2:
-                    common.write(code, 1, "res_re <= op_a_re_reg * op_b_re_reg;")
-                    common.write(code, 1, "res_im <= op_a_im_reg * op_b_im_reg;")
+                if pipeline_operands:
+                    common.write(
+                        code,
+                        1,
+                        "res_re <= resize(op_a_re_reg * op_b_re_reg, res_re'length);",
+                    )
+                    common.write(
+                        code,
+                        1,
+                        "res_im <= resize(op_a_im_reg * op_b_im_reg, res_im'length);",
+                    )
                 else:
-                    common.write(code, 1, "res_re <= op_a_re * op_b_re;")
-                    common.write(code, 1, "res_im <= op_a_im * op_b_im;")
+                    common.write(
+                        code, 1, "res_re <= resize(op_a_re * op_b_re, res_re'length);"
+                    )
+                    common.write(
+                        code, 1, "res_im <= resize(op_a_im * op_b_im, res_im'length);"
+                    )
 
                 common.write(code, 1, "res_arith_0_re <= res_re;")
                 common.write(code, 1, "res_arith_0_im <= res_im;")
 
-                if pe._latency > 2:
+                if pipeline_operands:
                     common.synchronous_process_prologue(code)
-                    common.write(code, 3, "op_a_re_reg <= op_a_re;")
-                    common.write(code, 3, "op_b_re_reg <= op_b_re;")
-                    common.write(code, 3, "op_a_im_reg <= op_a_im;")
-                    common.write(code, 3, "op_b_im_reg <= op_b_im;")
+                    common.write(code, 3, "if en = '1' then")
+                    common.write(code, 4, "op_a_re_reg <= op_a_re;")
+                    common.write(code, 4, "op_b_re_reg <= op_b_re;")
+                    common.write(code, 4, "op_a_im_reg <= op_a_im;")
+                    common.write(code, 4, "op_b_im_reg <= op_b_im;")
+                    common.write(code, 3, "end if;")
                     common.synchronous_process_epilogue(code)
 
         max_coeff_wl = max(real_entry.wl[0], imag_entry.wl[0] if imag_entry != 0 else 0)
-- 
2.43.0


From 999b3d54ab821d029d25ec7bbe0d24c3661b0186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 61/79] fix: coefficients of two-port adaptors with more than
 four input registers in generated VHDL

---
 lib/b_asic/code_printer/vhdl/vhdl_printer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/code_printer/vhdl/vhdl_printer.py b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
index d3c3efa..a3fd549 100644
--- a/lib/b_asic/code_printer/vhdl/vhdl_printer.py
+++ b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
@@ -1201,7 +1201,10 @@ class VhdlPrinter(Printer):
             self._register_split = (n_in - n_consumed, n_out)
 
         if pipeline_after_sub:
-            self._pe_control_cycle.setdefault(pe.entity_name, {}).setdefault("value", 2)
+            # The multiplication is one cycle after the remaining input registers
+            self._pe_control_cycle.setdefault(pe.entity_name, {}).setdefault(
+                "value", n_in - n_consumed + 1
+            )
 
         add_res_type = f"{self.type_name}({self.bits + value_bits} downto 0)"
 
-- 
2.43.0


From c9dff403f3ee1b9636451d1dd092828bb01bdf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 62/79] fix: control cycle of one control signal dropped or
 kept that of others

---
 lib/b_asic/code_printer/vhdl/vhdl_printer.py | 24 +++++++++-----------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/lib/b_asic/code_printer/vhdl/vhdl_printer.py b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
index a3fd549..83b5281 100644
--- a/lib/b_asic/code_printer/vhdl/vhdl_printer.py
+++ b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
@@ -49,7 +49,7 @@ class VhdlPrinter(Printer):
         self._vhdl_2008 = vhdl_2008
         self._fp_backend = ""
         self._register_split: tuple[int, int] | None = None
-        self._pe_control_cycle: dict[str, dict[str, int]] = {}
+        self._default_control_cycle: dict[str, int] = {}
         super().__init__(dt=dt)
 
     def set_data_type(self, dt: DataType) -> None:
@@ -309,8 +309,9 @@ class VhdlPrinter(Printer):
         pe_registers: dict[str, tuple[int, int]] = kwargs.get("pe_registers", {})
         self._register_split = self._resolve_pe_registers(pe, pe_registers)
 
-        # Optional absolute per-control availability cycle.
-        self._pe_control_cycle = dict(kwargs.get("control_cycle", {}))
+        # Control signals used at another cycle than the remaining input registers give,
+        # set when printing the operation.
+        self._default_control_cycle = {}
 
         # Optional design-level flag to register PE control signals.
         pipeline_pe_control_signals = bool(kwargs.get("pipeline_pe_control", False))
@@ -323,7 +324,10 @@ class VhdlPrinter(Printer):
             common.package_header(f, "types")
         processing_element.entity(f, pe, self._dt)
         core_code = self.print_operation(pe)
-        pe_control_cycle = self._resolve_control_cycle(pe, self._pe_control_cycle)
+        # Optional absolute per-control availability cycle.
+        pe_control_cycle = self._default_control_cycle | self._resolve_control_cycle(
+            pe, kwargs.get("control_cycle", {})
+        )
         processing_element.architecture(
             f,
             pe,
@@ -668,9 +672,7 @@ class VhdlPrinter(Printer):
         reg_before_shift_output = n_out >= 1
         if reg_before_shift_output:
             self._register_split = (n_in, n_out - 1)
-            self._pe_control_cycle.setdefault(pe.entity_name, {}).setdefault(
-                "shift_output", n_in + 1
-            )
+            self._default_control_cycle["shift_output"] = n_in + 1
             common.signal_declaration(
                 declarations,
                 "tmp_res_shifted_comb",
@@ -826,9 +828,7 @@ class VhdlPrinter(Printer):
         reg_before_shift_output = n_out >= 1
         if reg_before_shift_output:
             self._register_split = (n_in, n_out - 1)
-            self._pe_control_cycle.setdefault(pe.entity_name, {}).setdefault(
-                "shift_output", n_in + 1
-            )
+            self._default_control_cycle["shift_output"] = n_in + 1
             for part in "re", "im":
                 common.signal_declaration(
                     declarations,
@@ -1202,9 +1202,7 @@ class VhdlPrinter(Printer):
 
         if pipeline_after_sub:
             # The multiplication is one cycle after the remaining input registers
-            self._pe_control_cycle.setdefault(pe.entity_name, {}).setdefault(
-                "value", n_in - n_consumed + 1
-            )
+            self._default_control_cycle["value"] = n_in - n_consumed + 1
 
         add_res_type = f"{self.type_name}({self.bits + value_bits} downto 0)"
 
-- 
2.43.0


From 473044fc556618e2de1103c4f7af5f92ed992df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:03 +0000
Subject: [PATCH 63/79] fix: schedule started before the input register's data
 in generated VHDL without enable

---
 lib/b_asic/code_printer/vhdl/top_level.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/code_printer/vhdl/top_level.py b/lib/b_asic/code_printer/vhdl/top_level.py
index 56c5570..bda7472 100644
--- a/lib/b_asic/code_printer/vhdl/top_level.py
+++ b/lib/b_asic/code_printer/vhdl/top_level.py
@@ -100,7 +100,13 @@ def architecture(
     for mem in arch.memories:
         mem.write_component_instantiation(f, en_sig=en_sig)
 
-    _write_schedule_counter(f, arch, en_sig, enable_pin)
+    _write_schedule_counter(
+        f,
+        arch,
+        en_sig,
+        enable_pin,
+        delayed_rst=input_register and not enable_pin,
+    )
 
     # Generate control signals for multiplexers and then connect the top-level
     _write_mux_control_signals(
@@ -459,6 +465,7 @@ def _write_schedule_counter(
     arch: "Architecture",
     en_sig: str = "en",
     enable_pin: bool = True,
+    delayed_rst: bool = False,
 ) -> None:
     common.write(f, 1, "-- Schedule counter")
     common.synchronous_process_prologue(f, name="schedule_cnt_proc")
@@ -478,10 +485,11 @@ def _write_schedule_counter(
             ],
         )
     else:
+        or_delayed = " or rst_internal = '1'" if delayed_rst else ""
         common.write_lines(
             f,
             [
-                (3, "if rst = '1' then"),
+                (3, f"if rst = '1'{or_delayed} then"),
                 (4, "schedule_cnt <= (others => '0');"),
                 (3, "else"),
                 (4, f"if schedule_cnt = {arch.schedule_time - 1} then"),
@@ -507,6 +515,8 @@ def _write_io_register_signal_declarations(
     common.write(f, 1, "-- Internal signals for pipelined I/O")
     if enable_pin and input_register:
         common.signal_declaration(f, "en_internal", "std_logic")
+    elif input_register:
+        common.signal_declaration(f, "rst_internal", "std_logic")
 
     # Pipelined inputs
     if input_register:
@@ -548,6 +558,12 @@ def _write_io_registers(
         common.write(f, 3, "en_internal <= en and not rst;")
         common.synchronous_process_epilogue(f, name="en_reg_proc", clk="clk")
         common.blank(f)
+    elif input_register:
+        # Without enable, start the schedule one cycle later to align with input data
+        common.synchronous_process_prologue(f, name="rst_reg_proc")
+        common.write(f, 3, "rst_internal <= rst;")
+        common.synchronous_process_epilogue(f, name="rst_reg_proc", clk="clk")
+        common.blank(f)
 
     # Pipelining of inputs
     input_pes = [pe for pe in arch.processing_elements if pe.operation_type == Input]
-- 
2.43.0


From db7d02642d20950078bc5b7d4275e15d7c19f6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:01 +0000
Subject: [PATCH 64/79] fix: scaling and sign of fixed-point multiply-add in
 generated VHDL

---
 lib/b_asic/code_printer/vhdl/vhdl_printer.py | 25 ++++++++------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/lib/b_asic/code_printer/vhdl/vhdl_printer.py b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
index 83b5281..ec0788d 100644
--- a/lib/b_asic/code_printer/vhdl/vhdl_printer.py
+++ b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
@@ -1138,43 +1138,38 @@ class VhdlPrinter(Printer):
         declarations, code = io.StringIO(), io.StringIO()
 
         mul_res_bits = 2 * self.bits
+        res_bits = mul_res_bits + 1
         common.signal_declaration(
             declarations,
             "mul_res",
             f"{self.type_name}({mul_res_bits - 1} downto 0)",
         )
-        common.signal_declaration(declarations, "mul_res_quant", self.type_str)
         common.signal_declaration(
-            declarations, "op_b", f"{self.type_name}({mul_res_bits} downto 0)"
+            declarations, "op_a, op_b", f"{self.type_name}({res_bits - 1} downto 0)"
         )
         common.signal_declaration(
-            declarations, "tmp_res", f"{self.type_name}({mul_res_bits + 1} downto 0)"
+            declarations, "tmp_res", f"{self.type_name}({res_bits} downto 0)"
         )
         common.signal_declaration(
-            declarations, "add_res", f"{self.type_name}({mul_res_bits} downto 0)"
+            declarations, "res_arith_0", f"{self.type_name}({res_bits - 1} downto 0)"
         )
-        common.signal_declaration(declarations, "res_arith_0", self.type_str)
 
         common.write(code, 1, "mul_res <= op_1 * op_2;")
+        # Align op_0 with the product, which has twice as many fractional bits
         common.write(
             code,
             1,
-            f"mul_res_quant <= resize(mul_res, {self.bits});",
+            f"op_a <= shift_left(resize(op_0, {res_bits}), {self.frac_bits}) when do_addsub = '1' else (others => '0');",
         )
         common.write(
             code,
             1,
-            f"op_b <= resize(mul_res, {mul_res_bits + 1}) when is_add = '1' else not resize(mul_res, {mul_res_bits + 1});",
-        )
-        common.write(code, 1, "tmp_res <= (op_0 & '1') + (op_b & not is_add);")
-        common.write(code, 1, f"add_res <= tmp_res({mul_res_bits + 1} downto 1);")
-        common.write(
-            code,
-            1,
-            "res_arith_0 <= resize(add_res, res_arith_0'length) when do_addsub = '1' else mul_res_quant;",
+            f"op_b <= resize(mul_res, {res_bits}) when is_add = '1' else not resize(mul_res, {res_bits});",
         )
+        common.write(code, 1, "tmp_res <= (op_a & '1') + (op_b & not is_add);")
+        common.write(code, 1, f"res_arith_0 <= tmp_res({res_bits} downto 1);")
 
-        wls = [self._dt.wl]
+        wls = [(2 * self.int_bits + 1, 2 * self.frac_bits)]
         return wls, (declarations.getvalue(), code.getvalue())
 
     def print_SymmetricTwoportAdaptor_fixed_point_real(
-- 
2.43.0


From ad4277cadf49b3ddc954a2e2ccd7b13a61f3300f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:01 +0000
Subject: [PATCH 65/79] fix: overflow in fixed-point reciprocal in generated
 VHDL

---
 lib/b_asic/code_printer/vhdl/vhdl_printer.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/lib/b_asic/code_printer/vhdl/vhdl_printer.py b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
index ec0788d..465b772 100644
--- a/lib/b_asic/code_printer/vhdl/vhdl_printer.py
+++ b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
@@ -1347,28 +1347,25 @@ class VhdlPrinter(Printer):
         self, pe: "ProcessingElement"
     ) -> tuple[WLS, CODE]:
         declarations, code = io.StringIO(), io.StringIO()
-        tmp_res_bits = self.int_bits + 2 * self.frac_bits
-        res_bits = self.int_bits + 2 * self.frac_bits
+        # The reciprocal of the smallest value has int_bits = frac_bits + 2
+        res_int_bits = max(self.int_bits, self.frac_bits + 2)
+        res_bits = res_int_bits + self.frac_bits
 
-        common.signal_declaration(declarations, "unity", signed_type(tmp_res_bits))
+        common.signal_declaration(declarations, "unity", signed_type(res_bits))
         common.signal_declaration(declarations, "a", self.type_str)
-        common.signal_declaration(declarations, "tmp_res", signed_type(tmp_res_bits))
         common.signal_declaration(declarations, "res_arith_0", signed_type(res_bits))
 
         common.write(code, 1, "a <= op_0;")
         common.write(
             code,
             1,
-            f"unity <= to_signed({2 ** (2 * self.frac_bits)}, {tmp_res_bits});",
+            f"unity <= shift_left(to_signed(1, {res_bits}), {2 * self.frac_bits});",
         )
-        common.write(code, 1, "tmp_res <= unity / a when a /= 0 else (others => '0');")
         common.write(
-            code,
-            1,
-            f"res_arith_0 <= shift_left(resize(tmp_res, {res_bits}), {self.frac_bits});",
+            code, 1, "res_arith_0 <= unity / a when a /= 0 else (others => '0');"
         )
 
-        wls = [(self.int_bits, 2 * self.frac_bits)]
+        wls = [(res_int_bits, self.frac_bits)]
         return wls, (declarations.getvalue(), code.getvalue())
 
     # ------------------------------------------------------------------
-- 
2.43.0


From 5d8be83dc152a70604d14673af655bdef2e6a094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 66/79] fix: invalid VHDL for outputs with more bits than the
 internal word length

---
 lib/b_asic/code_printer/vhdl/vhdl_printer.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/lib/b_asic/code_printer/vhdl/vhdl_printer.py b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
index 465b772..0fb0bbd 100644
--- a/lib/b_asic/code_printer/vhdl/vhdl_printer.py
+++ b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
@@ -1864,14 +1864,15 @@ class VhdlPrinter(Printer):
                     f"Quantization mode {self._dt.quantization_mode.name} not implemented for VHDL"
                 )
         else:
-            # No fractional bits to remove, just pass through
+            # No fractional bits to remove, append zeros if there are bits missing
+            zeros = f' & "{"0" * -frac_diff}"' if frac_diff < 0 else ""
             for part in parts:
                 common.write(
                     code,
                     1,
-                    f"res_quant_{port_number}{part} <= res_arith_{port_number}{part}({new_high} downto {new_low});",
+                    f"res_quant_{port_number}{part} <= res_arith_{port_number}{part}({new_high} downto 0){zeros};",
                 )
-            wl_out = (wl[0], wl[1])
+            wl_out = (wl[0], wl[1] - frac_diff)
         return wl_out, (declarations.getvalue(), code.getvalue())
 
     def _print_overflow_signal(
@@ -1907,7 +1908,15 @@ class VhdlPrinter(Printer):
             )
 
         # Mode-specific assignments
-        if self._dt.overflow_mode == OverflowMode.WRAPPING:
+        if target_bits > wl[0] + wl[1]:
+            # More bits than there are: sign- or zero-extend
+            for part in parts:
+                common.write(
+                    code,
+                    1,
+                    f"res_overflow_{port_number}{part} <= resize(res_quant_{port_number}{part}, {target_bits});",
+                )
+        elif self._dt.overflow_mode == OverflowMode.WRAPPING:
             # Wrapping: throw away excess MSBs
             for part in parts:
                 common.write(
-- 
2.43.0


From 377df49b2bdc99715b05a838e7457fb52259b2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:05 +0000
Subject: [PATCH 67/79] fix: overflow of complex multiplication before
 saturation in generated VHDL

---
 lib/b_asic/code_printer/vhdl/vhdl_printer.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/lib/b_asic/code_printer/vhdl/vhdl_printer.py b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
index 0fb0bbd..76a05d2 100644
--- a/lib/b_asic/code_printer/vhdl/vhdl_printer.py
+++ b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
@@ -1009,8 +1009,13 @@ class VhdlPrinter(Printer):
         # Multiplication logic
         if is_complex:
             common.signal_declaration(declarations, "ac, bc, ad, bd", res_type)
+            # One more bit for the sum of two products
             common.signal_declaration(
-                declarations, "res_arith_0_re, res_arith_0_im", res_type
+                declarations,
+                "res_arith_0_re, res_arith_0_im",
+                signed_type(res_bits + 1)
+                if result_is_signed
+                else f"{self.scalar_type_name}({res_bits} downto 0)",
             )
 
             mul_statement("ac", "a", "value_real", extend_real, real_entry)
@@ -1018,8 +1023,8 @@ class VhdlPrinter(Printer):
             mul_statement("ad", "a", "value_imag", extend_imag, imag_entry)
             mul_statement("bd", "b", "value_imag", extend_imag, imag_entry)
 
-            common.write(code, 1, "res_arith_0_re <= ac - bd;")
-            common.write(code, 1, "res_arith_0_im <= ad + bc;")
+            common.write(code, 1, f"res_arith_0_re <= resize(ac, {res_bits + 1}) - bd;")
+            common.write(code, 1, f"res_arith_0_im <= resize(ad, {res_bits + 1}) + bc;")
 
         else:
             common.signal_declaration(
@@ -1127,7 +1132,10 @@ class VhdlPrinter(Printer):
 
         wls = [
             (
-                self.int_bits + max_coeff_wl + (1 if extend_real or extend_imag else 0),
+                self.int_bits
+                + max_coeff_wl
+                + (1 if extend_real or extend_imag else 0)
+                + (1 if is_complex else 0),
                 self.frac_bits + max_frac_wl,
             )
         ]
-- 
2.43.0


From f1ec5b7244309f3307162acdb5763f0d5a0b5612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:16 +0000
Subject: [PATCH 68/79] fix: complex addition/subtraction ignored the
 multiplication by j in generated VHDL

---
 lib/b_asic/code_printer/vhdl/vhdl_printer.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/lib/b_asic/code_printer/vhdl/vhdl_printer.py b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
index 76a05d2..e449b51 100644
--- a/lib/b_asic/code_printer/vhdl/vhdl_printer.py
+++ b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
@@ -570,7 +570,15 @@ class VhdlPrinter(Printer):
     ) -> tuple[str, str]:
         declarations, code = io.StringIO(), io.StringIO()
 
-        for part in "re", "im":
+        # j * (re + j * im) = -im + j * re
+        common.signal_declaration(declarations, "re_is_add, im_is_add", "std_logic")
+        common.write(code, 1, "re_is_add <= is_add xor mul_j;")
+        common.write(code, 1, "im_is_add <= is_add;")
+
+        for part, other in ("re", "im"), ("im", "re"):
+            common.signal_declaration(
+                declarations, f"op_1_{part}", self.scalar_type_str
+            )
             common.signal_declaration(
                 declarations,
                 f"{part}_op_b",
@@ -595,12 +603,17 @@ class VhdlPrinter(Printer):
             common.write(
                 code,
                 1,
-                f"{part}_op_b <= resize(op_1.{part}, {self.bits + 1}) when is_add = '1' else not resize(op_1.{part}, {self.bits + 1});",
+                f"op_1_{part} <= op_1.{other} when mul_j = '1' else op_1.{part};",
+            )
+            common.write(
+                code,
+                1,
+                f"{part}_op_b <= resize(op_1_{part}, {self.bits + 1}) when {part}_is_add = '1' else not resize(op_1_{part}, {self.bits + 1});",
             )
             common.write(
                 code,
                 1,
-                f"{part}_tmp_res <= (op_0.{part} & '1') + ({part}_op_b & not is_add);",
+                f"{part}_tmp_res <= (op_0.{part} & '1') + ({part}_op_b & not {part}_is_add);",
             )
             common.write(
                 code,
-- 
2.43.0


From ff3e91a6160fd730cdc85c91700ee9ef045d2609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:03 +0000
Subject: [PATCH 69/79] fix: operations with different latency offsets gave
 wrong generated VHDL

---
 lib/b_asic/code_printer/vhdl/vhdl_printer.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/b_asic/code_printer/vhdl/vhdl_printer.py b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
index e449b51..678853e 100644
--- a/lib/b_asic/code_printer/vhdl/vhdl_printer.py
+++ b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
@@ -305,6 +305,19 @@ class VhdlPrinter(Printer):
             fp_backend = fp_backend.get(pe.entity_name, "")
         self._fp_backend = str(fp_backend).lower()
 
+        # The pipeline registers are shared by all ports, so they cannot have different latencies
+        if not self._fp_backend and any(
+            len(set(offsets)) > 1
+            for process in pe.collection
+            for offsets in (
+                process.operation.input_latency_offsets,
+                process.operation.output_latency_offsets,
+            )
+        ):
+            raise ValueError(
+                f"Different latency offsets for the inputs or outputs of {pe.entity_name!r} are not supported"
+            )
+
         # Check if a per-PE register split is specified via pe_registers
         pe_registers: dict[str, tuple[int, int]] = kwargs.get("pe_registers", {})
         self._register_split = self._resolve_pe_registers(pe, pe_registers)
-- 
2.43.0


From 88533fb14a9e3c69e33a05d7e0da4b307840051f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:20 +0000
Subject: [PATCH 70/79] fix: control signals of operations with an input
 latency offset in generated VHDL

---
 lib/b_asic/architecture.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/architecture.py b/lib/b_asic/architecture.py
index 24931ab..1ff4eb7 100644
--- a/lib/b_asic/architecture.py
+++ b/lib/b_asic/architecture.py
@@ -636,7 +636,9 @@ class ProcessingElement(Resource):
             # Calculate values: dict[time, val]
             values = {}
             for pro in self.collection:
-                values[pro.start_time] = pro.operation.params[param_name]
+                # The control signals are used when the first input arrives
+                offset = min(pro.operation.input_latency_offsets, default=0)
+                values[pro.start_time + offset] = pro.operation.params[param_name]
 
             if is_complex:
                 real_values = {time: val.real for time, val in values.items()}
-- 
2.43.0


From 85cee4e39aaa778b07bdae2872d34d30dab3dd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:39 +0000
Subject: [PATCH 71/79] fix: generated VHDL of memories with several read or
 write ports only used one

---
 lib/b_asic/code_printer/vhdl/vhdl_printer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/b_asic/code_printer/vhdl/vhdl_printer.py b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
index 678853e..8c3705b 100644
--- a/lib/b_asic/code_printer/vhdl/vhdl_printer.py
+++ b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
@@ -248,6 +248,10 @@ class VhdlPrinter(Printer):
         return f.getvalue()
 
     def print_Memory(self, mem: "Memory", **kwargs) -> str | None:
+        if mem.input_count > 1 or mem.output_count > 1:
+            raise ValueError(
+                f"Only one read and one write port supported, {mem.entity_name!r} has {mem.output_count} and {mem.input_count}"
+            )
         f = io.StringIO()
         common.b_asic_preamble(f)
         common.ieee_header(f, fixed_pkg=self.vhdl_2008)
-- 
2.43.0


From d3c7a65d6b446cdb8a1be641807cf6cd89576506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:42 +0000
Subject: [PATCH 72/79] fix: generated memory-based storage was invalid or
 wrong without input registers, with one-input address multiplexers or for
 direct words

---
 lib/b_asic/research/interleaver_codegen.py | 27 +++++++++-------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/lib/b_asic/research/interleaver_codegen.py b/lib/b_asic/research/interleaver_codegen.py
index b5b4f72..027a624 100644
--- a/lib/b_asic/research/interleaver_codegen.py
+++ b/lib/b_asic/research/interleaver_codegen.py
@@ -373,15 +373,8 @@ def memory_based_storage_architecture(
     common.write(f, 3, "case to_integer(schedule_cnt) is")
     for p in p_zero_exec:
         if input_sync:
-            write_time = (p.start_time + 1) % schedule_time
-            if adr_pipe_depth:
-                common.write(
-                    f,
-                    4,
-                    f"when {write_time}+{adr_pipe_depth} => p_0_out <= p_0_in_sync;",
-                )
-            else:
-                common.write(f, 4, f"when {write_time} => p_0_out <= p_0_in_sync;")
+            write_time = (p.start_time + 1 + adr_pipe_depth) % schedule_time
+            common.write(f, 4, f"when {write_time} => p_0_out <= p_0_in_sync;")
         else:
             write_time = (p.start_time) % schedule_time
             common.write(f, 4, f"when {write_time} => p_0_out <= p_0_in;")
@@ -424,7 +417,9 @@ def memory_based_storage_architecture(
             )
         else:
             common.process_prologue(
-                f, sensitivity_list="schedule_cnt_adr", name="mem_write_address_proc"
+                f,
+                sensitivity_list="schedule_cnt_adr",
+                name=f"mem_write_address_proc_{0}_{rom}",
             )
         common.write(f, 3, "case to_integer(schedule_cnt_adr) is")
         list_start_idx = rom * elements_per_rom
@@ -476,7 +471,7 @@ def memory_based_storage_architecture(
                 3,
                 (
                     f"case to_integer(schedule_cnt{layer + 1}("
-                    f"ADR_LEN+{layer * bits_per_mux + bits_per_mux - 1} downto "
+                    f"ADR_LEN+{(layer + 1) * bits_per_mux}-1 downto "
                     f"ADR_LEN+{layer * bits_per_mux}"
                     ")) is"
                 ),
@@ -540,9 +535,7 @@ def memory_based_storage_architecture(
         for mv in collection:
             mv = cast(MemoryVariable, mv)
             for read_time in mv.reads.values():
-                read_list[
-                    (mv.start_time + read_time - int(not (input_sync))) % schedule_time
-                ] = (i, mv)
+                read_list[(mv.start_time + read_time) % schedule_time] = (i, mv)
 
     for rom in range(total_roms):
         if input_sync:
@@ -551,7 +544,9 @@ def memory_based_storage_architecture(
             )
         else:
             common.process_prologue(
-                f, sensitivity_list="schedule_cnt_adr", name="mem_read_address_proc"
+                f,
+                sensitivity_list="schedule_cnt_adr",
+                name=f"mem_read_address_proc_{0}_{rom}",
             )
         common.write(f, 3, "case to_integer(schedule_cnt_adr) is")
         list_start_idx = rom * elements_per_rom
@@ -601,7 +596,7 @@ def memory_based_storage_architecture(
                 3,
                 (
                     f"case to_integer(schedule_cnt{layer + 1}("
-                    f"ADR_LEN+{layer * bits_per_mux + bits_per_mux - 1} downto "
+                    f"ADR_LEN+{(layer + 1) * bits_per_mux}-1 downto "
                     f"ADR_LEN+{layer * bits_per_mux}"
                     ")) is"
                 ),
-- 
2.43.0


From 12ef95aa537637420e13b8281fd993535320e9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:42 +0000
Subject: [PATCH 73/79] fix: generated register-based storage was invalid
 unless read in every cycle and wrong in the first cycle

---
 lib/b_asic/research/interleaver_codegen.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/research/interleaver_codegen.py b/lib/b_asic/research/interleaver_codegen.py
index 027a624..2b1c3d6 100644
--- a/lib/b_asic/research/interleaver_codegen.py
+++ b/lib/b_asic/research/interleaver_codegen.py
@@ -655,7 +655,7 @@ def register_based_storage_architecture(
     schedule_time = len(forward_backward_table)
 
     # Number of registers in this design
-    reg_cnt = len(forward_backward_table[0].regs)
+    reg_cnt = max(1, len(forward_backward_table[0].regs))
 
     # Set of the register indices to output from
     output_regs = {
@@ -716,6 +716,7 @@ def register_based_storage_architecture(
         name="back_edge_mux_sel",
         signal_type=f"integer range 0 to {len(back_edges)}",
         name_pad=18,
+        default_value="0",
     )
 
     # Output mux selector
@@ -725,6 +726,7 @@ def register_based_storage_architecture(
         name="out_mux_sel",
         signal_type=f"integer range 0 to {len(output_regs) - 1}",
         name_pad=18,
+        default_value=f"{output_mux_table.get(forward_backward_table[0].outputs_from, 0)}",
     )
 
     #
@@ -762,6 +764,7 @@ def register_based_storage_architecture(
         clk="clk",
         name="shift_reg_back_edge_decode_proc",
     )
+    common.write(f, 3, "if en = '1' then")
     common.write(f, 3, "case schedule_cnt is")
     for time, entry in enumerate(forward_backward_table):
         if entry.back_edge_to:
@@ -782,6 +785,7 @@ def register_based_storage_architecture(
             (4, "when others =>"),
             (5, "back_edge_mux_sel <= 0;"),
             (3, "end case;"),
+            (3, "end if;"),
         ],
     )
     common.synchronous_process_epilogue(
@@ -841,13 +845,16 @@ def register_based_storage_architecture(
     # Output multiplexer decoding logic
     common.write(f, 1, "-- Output multiplexer decoding logic", start="\n")
     common.synchronous_process_prologue(f, clk="clk", name="out_mux_decode_proc")
+    common.write(f, 3, "if en = '1' then")
     common.write(f, 3, "case schedule_cnt is")
     for i, entry in enumerate(forward_backward_table):
         if entry.outputs_from is not None:
             sel = output_mux_table[entry.outputs_from]
             common.write(f, 4, f"when {(i - 1) % schedule_time} =>")
             common.write(f, 5, f"out_mux_sel <= {sel};")
+    common.write(f, 4, "when others => null;")
     common.write(f, 3, "end case;")
+    common.write(f, 3, "end if;")
     common.synchronous_process_epilogue(f, clk="clk", name="out_mux_decode_proc")
 
     # Output multiplexer logic
-- 
2.43.0


From f731c2d5a5fc8ecc1c5453c4e0d617b6d346e530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:57 +0000
Subject: [PATCH 74/79] fix: standalone storage was generated with fewer ports
 than its variables need

---
 lib/b_asic/resources.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/lib/b_asic/resources.py b/lib/b_asic/resources.py
index 37afc45..2d83f24 100644
--- a/lib/b_asic/resources.py
+++ b/lib/b_asic/resources.py
@@ -2311,14 +2311,14 @@ class ProcessCollection:
                     raise ValueError(f"{mv!r} is not part of {self!r}.")
 
         # Make sure that concurrent reads/writes do not surpass the port setting
-        needed_write_ports = self.read_ports_bound()
-        needed_read_ports = self.write_ports_bound()
-        if needed_write_ports > write_ports + 1:
+        needed_write_ports = self.write_ports_bound()
+        needed_read_ports = self.read_ports_bound()
+        if needed_write_ports > write_ports:
             raise ValueError(
                 f"More than {write_ports} write ports needed ({needed_write_ports})"
                 " to generate HDL for this ProcessCollection"
             )
-        if needed_read_ports > read_ports + 1:
+        if needed_read_ports > read_ports:
             raise ValueError(
                 f"More than {read_ports} read ports needed ({needed_read_ports}) to"
                 " generate HDL for this ProcessCollection"
@@ -2555,6 +2555,20 @@ class ProcessCollection:
             read_ports, write_ports, total_ports
         )
 
+        # Make sure that concurrent reads/writes do not surpass the port setting
+        needed_write_ports = self.write_ports_bound()
+        needed_read_ports = self.read_ports_bound()
+        if needed_write_ports > write_ports:
+            raise ValueError(
+                f"More than {write_ports} write ports needed ({needed_write_ports})"
+                " to generate HDL for this ProcessCollection"
+            )
+        if needed_read_ports > read_ports:
+            raise ValueError(
+                f"More than {read_ports} read ports needed ({needed_read_ports}) to"
+                " generate HDL for this ProcessCollection"
+            )
+
         # Create the forward-backward table
         forward_backward_table = _ForwardBackwardTable(self)
 
-- 
2.43.0


From 424b9c751ad2c18dfb07526061503d656f47fe19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:36 +0000
Subject: [PATCH 75/79] fix: an interrupted drag in the scheduler window left
 half rows in the schedule

The row is kept with the drag and written to the schedule on release, and the operation is then drawn where the schedule has it.
---
 lib/b_asic/scheduler_gui/scheduler_event.py | 39 ++++++---------------
 1 file changed, 11 insertions(+), 28 deletions(-)

diff --git a/lib/b_asic/scheduler_gui/scheduler_event.py b/lib/b_asic/scheduler_gui/scheduler_event.py
index 85bdb6e..a8de273 100644
--- a/lib/b_asic/scheduler_gui/scheduler_event.py
+++ b/lib/b_asic/scheduler_gui/scheduler_event.py
@@ -18,8 +18,7 @@ from b_asic.scheduler_gui._preferences import OPERATION_GAP, OPERATION_HEIGHT
 from b_asic.scheduler_gui.axes_item import AxesItem
 from b_asic.scheduler_gui.operation_item import OperationItem
 from b_asic.scheduler_gui.timeline_item import TimelineItem
-from b_asic.special_operations import Output
-from b_asic.utility_operations import Sink
+from b_asic.types import GraphID
 
 
 class SchedulerEvent:
@@ -50,6 +49,7 @@ class SchedulerEvent:
     _signals: Signals
     _schedule: Schedule
     _old_op_position: int = -1
+    _new_op_position: float = -1
 
     def __init__(self, parent: QGraphicsItem | None = None) -> None:
         super().__init__(parent=parent)
@@ -70,6 +70,9 @@ class SchedulerEvent:
     def set_item_inactive(self, item: OperationItem) -> None:
         raise NotImplementedError
 
+    def _set_position(self, graph_id: GraphID) -> None:
+        raise NotImplementedError
+
     ###########
     # Filters #
     ###########
@@ -161,10 +164,7 @@ class SchedulerEvent:
                 self._current_pos.setX(self._current_pos.x() + dx)
                 self._current_pos.setY(self._current_pos.y() + dy)
                 self._redraw_lines(operation_item)
-                gid = operation_item.operation.graph_id
-                self._schedule.set_y_location(
-                    gid, dy + self._schedule.get_y_location(gid)
-                )
+                self._new_op_position += dy
 
         item: OperationItem = self.scene().mouseGrabberItem()
         delta_x = (item.mapToParent(event.pos()) - self._current_pos).x()
@@ -192,6 +192,7 @@ class SchedulerEvent:
             self._old_op_position = self._schedule.get_y_location(
                 item.operation.graph_id
             )
+            self._new_op_position = self._old_op_position
             self._signals.component_selected.emit(item.graph_id)
             self._current_pos = item.mapToParent(event.pos())
             self.set_item_active(item)
@@ -208,24 +209,7 @@ class SchedulerEvent:
         item: OperationItem = self.scene().mouseGrabberItem()
         self.set_new_start_time(item)
         self.set_item_inactive(item)
-        pos_x = item.x()
-        redraw = False
-        if (
-            math.floor(pos_x) == 0 and isinstance(item.operation, (Output, Sink))
-        ) or pos_x < 0:
-            pos_x += self._schedule.schedule_time
-            redraw = True
-        if (
-            pos_x > self._schedule.schedule_time
-            # If output or sink, keep operation at the edge
-            and (
-                pos_x > self._schedule.schedule_time + 1
-                or not isinstance(item.operation, (Output, Sink))
-            )
-        ):
-            pos_x = pos_x % self._schedule.schedule_time
-            redraw = True
-        pos_y = self._schedule.get_y_location(item.operation.graph_id)
+        pos_y = self._new_op_position
         # Check move in y-direction
         if pos_y != self._old_op_position:
             insert = (pos_y % 1) != 0 or pos_y < 0
@@ -240,10 +224,9 @@ class SchedulerEvent:
                 f" {pos_y}, {insert})"
             )
             self._signals.redraw_all.emit()
-        # Operation has been moved in x-direction
-        if redraw:
-            item.setX(pos_x)
-            self._redraw_lines(item)
+        # Show the operation where the schedule has it
+        self._set_position(item.graph_id)
+        self._redraw_lines(item)
         self._signals.component_moved.emit(item.graph_id)
 
     ###################################
-- 
2.43.0


From b8cb2d3998efaeaff4d8bf0ec3bac3630187a858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:54 +0000
Subject: [PATCH 76/79] fix: a schedule that fails to open no longer becomes
 the file that save overwrites

---
 lib/b_asic/scheduler_gui/main_window.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/b_asic/scheduler_gui/main_window.py b/lib/b_asic/scheduler_gui/main_window.py
index c44f9f8..5c391e6 100644
--- a/lib/b_asic/scheduler_gui/main_window.py
+++ b/lib/b_asic/scheduler_gui/main_window.py
@@ -556,12 +556,11 @@ class ScheduleMainWindow(QMainWindow, Ui_MainWindow):
 
     def _open_schedule_file(self, abs_path_filename: str) -> None:
         """Open a saved schedule (*.bsc-file), which is a pickled Schedule."""
-        self._file_name = abs_path_filename
-        self._add_recent_file(abs_path_filename)
-
-        with Path(self._file_name).open("rb") as f:
+        with Path(abs_path_filename).open("rb") as f:
             schedule = pickle.load(f)
         self.open(schedule)
+        self._file_name = abs_path_filename
+        self._add_recent_file(abs_path_filename)
         settings = QSettings()
         settings.setValue("scheduler/last_opened_file", self._file_name)
         self._toggle_file_loaded(True)
-- 
2.43.0


From b7ce92d769e984b8cb568abeaeee19584f89fe8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:54 +0000
Subject: [PATCH 77/79] fix: the scheduler window's information table showed
 slacks of the old schedule time

---
 lib/b_asic/scheduler_gui/main_window.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/b_asic/scheduler_gui/main_window.py b/lib/b_asic/scheduler_gui/main_window.py
index 5c391e6..a0df2f2 100644
--- a/lib/b_asic/scheduler_gui/main_window.py
+++ b/lib/b_asic/scheduler_gui/main_window.py
@@ -121,12 +121,14 @@ class ScheduleMainWindow(QMainWindow, Ui_MainWindow):
     _recent_files_actions: list[QAction]
     _recent_file_paths: deque[str]
     _file_name: str | None
+    _info_table_graph_id: GraphID | None
 
     def __init__(self) -> None:
         """Initialize Scheduler-GUI."""
         super().__init__()
         self._schedule = None
         self._graph = None
+        self._info_table_graph_id = None
         self._scale = 75.0
         self._debug_rectangles = None
 
@@ -649,6 +651,8 @@ class ScheduleMainWindow(QMainWindow, Ui_MainWindow):
         """
         if self.schedule is not None:
             self.info_table.item(1, 1).setText(str(self.schedule.schedule_time))
+            if self._info_table_graph_id is not None:
+                self.info_table_update_component(self._info_table_graph_id)
 
     @Slot(QRectF)
     def shrink_scene_to_min_size(self, rect: QRectF) -> None:
@@ -862,6 +866,7 @@ class ScheduleMainWindow(QMainWindow, Ui_MainWindow):
         """
         if self.schedule is None:
             return
+        self._info_table_graph_id = graph_id
         op: GraphComponent = cast(
             GraphComponent, self.schedule._sfg.find_by_id(graph_id)
         )
@@ -924,6 +929,7 @@ class ScheduleMainWindow(QMainWindow, Ui_MainWindow):
 
     def info_table_clear_component(self) -> None:
         """Clear the component part of the info table."""
+        self._info_table_graph_id = None
         row = self.info_table.findItems("Operator", Qt.MatchFlag.MatchExactly)
         if row:
             row = row[0].row()
-- 
2.43.0


From 0a43110480f4682817df692e88007d2a29a2a7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:54 +0000
Subject: [PATCH 78/79] fix: plotting port accesses and execution times of an
 empty collection raised TypeError

---
 lib/b_asic/resources.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/b_asic/resources.py b/lib/b_asic/resources.py
index 2d83f24..7c41cca 100644
--- a/lib/b_asic/resources.py
+++ b/lib/b_asic/resources.py
@@ -2737,11 +2737,14 @@ class ProcessCollection:
         axes : list of three :class:`matplotlib.axes.Axes`
             Three Axes to plot in.
         """
-        axes[0].bar(*zip(*self.read_port_accesses().items(), strict=True))
+        read_accesses = self.read_port_accesses()
+        axes[0].bar(list(read_accesses), list(read_accesses.values()))
         axes[0].set_title("Read port accesses")
-        axes[1].bar(*zip(*self.write_port_accesses().items(), strict=True))
+        write_accesses = self.write_port_accesses()
+        axes[1].bar(list(write_accesses), list(write_accesses.values()))
         axes[1].set_title("Write port accesses")
-        axes[2].bar(*zip(*self.total_port_accesses().items(), strict=True))
+        total_accesses = self.total_port_accesses()
+        axes[2].bar(list(total_accesses), list(total_accesses.values()))
         axes[2].set_title("Total port accesses")
         for ax in axes:
             ax.xaxis.set_major_locator(MaxNLocator(integer=True, min_n_ticks=1))
@@ -2804,7 +2807,8 @@ class ProcessCollection:
         ax : :class:`matplotlib.axes.Axes`
             The Axes to plot in.
         """
-        ax.bar(*zip(*self.total_execution_times().items(), strict=True))
+        execution_times = self.total_execution_times()
+        ax.bar(list(execution_times), list(execution_times.values()))
         ax.xaxis.set_major_locator(MaxNLocator(integer=True, min_n_ticks=1))
         ax.yaxis.set_major_locator(MaxNLocator(integer=True, min_n_ticks=1))
         ax.set_xlim(-0.5, self.schedule_time - 0.5)
-- 
2.43.0


From 80452ca2dbd233d13a29c734cff6d83a5078f6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:55 +0000
Subject: [PATCH 79/79] fix: an operation starting at the schedule time could
 not be dragged in the scheduler window

---
 lib/b_asic/scheduler_gui/scheduler_item.py | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/lib/b_asic/scheduler_gui/scheduler_item.py b/lib/b_asic/scheduler_gui/scheduler_item.py
index 7a55a04..38c9833 100644
--- a/lib/b_asic/scheduler_gui/scheduler_item.py
+++ b/lib/b_asic/scheduler_gui/scheduler_item.py
@@ -120,19 +120,9 @@ class SchedulerItem(SchedulerEvent, QGraphicsItemGroup):
             raise ValueError("No schedule installed.")
         new_start_time = math.floor(pos) - math.floor(self._x_axis_indent)
         slacks = self.schedule.slacks(item.graph_id)
-        op_start_time = (
-            self.schedule.start_time_of_operation(item.graph_id)
-            % self.schedule.schedule_time
-        )
+        op_start_time = self.schedule.start_time_of_operation(item.graph_id)
         if not -slacks[0] <= new_start_time - op_start_time <= slacks[1]:
-            # breaches circular dependencies
-            return False
-        if (
-            not -slacks[0]
-            <= new_start_time - self.schedule.start_time_of_operation(item.graph_id)
-            <= slacks[1]
-        ):
-            # breaches noncircular dependencies
+            # breaches dependencies
             return False
         if self.schedule.cyclic:
             if new_start_time < -1:
-- 
2.43.0

