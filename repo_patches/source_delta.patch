From c94416e65286b52ca8b26cc460b9e94cd69690f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:45 +0000
Subject: [PATCH 01/83] fix: keep inputs inside the period when the schedule
 time is reduced to their start time

---
 lib/b_asic/schedule.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/b_asic/schedule.py b/lib/b_asic/schedule.py
index 9212513..588fe2a 100644
--- a/lib/b_asic/schedule.py
+++ b/lib/b_asic/schedule.py
@@ -521,6 +521,16 @@ class Schedule:
                     self._laps[signal_id] += 1
 
         self._schedule_time = time
+
+        # Inputs should not start at the schedule time, but at 0
+        for graph_id, start_time in self._start_times.items():
+            op = cast(Operation, self._sfg.find_by_id(graph_id))
+            if isinstance(op, Input) and start_time == time:
+                signals = list(op.output_signals)
+                if all(self._laps[signal.graph_id] > 0 for signal in signals):
+                    self._start_times[graph_id] = 0
+                    for signal in signals:
+                        self._laps[signal.graph_id] -= 1
         return self
 
     def swap_io_of_operation(self, operation_id: GraphID) -> None:
-- 
2.43.0


From 0671943b0ab33c81b0b255b0886ba8df9ffc581e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:45 +0000
Subject: [PATCH 02/83] fix: keep laps consistent and reject nothing spuriously
 when changing latencies in a schedule

---
 lib/b_asic/schedule.py | 65 ++++++++++++++++++++++++------------------
 1 file changed, 37 insertions(+), 28 deletions(-)

diff --git a/lib/b_asic/schedule.py b/lib/b_asic/schedule.py
index 588fe2a..238db3f 100644
--- a/lib/b_asic/schedule.py
+++ b/lib/b_asic/schedule.py
@@ -725,20 +725,14 @@ class Schedule:
         latency : int
             The latency of the operation.
         """
-        passed = True
-        for op in self._sfg.operations:
-            if type_name in (op.type_name(), op.graph_id):
-                change_in_latency = latency - op.latency
-                if change_in_latency > (self.forward_slack(op.graph_id)):
-                    passed = False
-                    raise ValueError(
-                        f"Cannot increase latency for {op.graph_id}. Try increasing forward slack time by rescheduling."
-                    )
-                    break
-        if change_in_latency < 0 or passed:
-            for op in self._sfg.operations:
-                if type_name in (op.type_name(), op.graph_id):
-                    cast(Operation, op).set_latency(latency)
+        self._set_latency(
+            [
+                cast(Operation, op)
+                for op in self._sfg.operations
+                if type_name in (op.type_name(), op.graph_id)
+            ],
+            latency,
+        )
 
     def set_latency_of_type(
         self, operation_type: type[Operation], latency: int
@@ -753,20 +747,35 @@ class Schedule:
         latency : int
             The latency of the operation.
         """
-        passed = True
-        for op in self._sfg.operations:
-            if isinstance(op, operation_type):
-                change_in_latency = latency - op.latency
-                if change_in_latency > (self.forward_slack(op.graph_id)):
-                    passed = False
-                    raise ValueError(
-                        f"Cannot increase latency for {op.graph_id}. Try increasing forward slack time by rescheduling."
-                    )
-                    break
-        if change_in_latency < 0 or passed:
-            for op in self._sfg.operations:
-                if isinstance(op, operation_type):
-                    cast(Operation, op).set_latency(latency)
+        self._set_latency(
+            [
+                cast(Operation, op)
+                for op in self._sfg.operations
+                if isinstance(op, operation_type)
+            ],
+            latency,
+        )
+
+    def _set_latency(self, operations: list[Operation], latency: int) -> None:
+        """Set the latency of *operations*, keeping the laps consistent."""
+        for op in operations:
+            change_in_latency = latency - op.latency
+            if change_in_latency > self.forward_slack(op.graph_id):
+                raise ValueError(
+                    f"Cannot increase latency for {op.graph_id}. Try increasing forward slack time by rescheduling."
+                )
+        for op in operations:
+            start_time = self._start_times[op.graph_id]
+            crossed = [
+                start_time + cast(int, port.latency_offset) > self._schedule_time
+                for port in op.outputs
+            ]
+            op.set_latency(latency)
+            # Outputs may start or stop crossing the end of the schedule
+            crosses = start_time + latency > self._schedule_time
+            for port, crossed_before in zip(op.outputs, crossed, strict=True):
+                for signal in port.signals:
+                    self._laps[signal.graph_id] += crossed_before - crosses
 
     def move_y_location(
         self, graph_id: GraphID, new_y: int, insert: bool = False
-- 
2.43.0


From c6168b160544009251944956f4592548cc806876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:08 +0000
Subject: [PATCH 03/83] fix: return the last outputs when a simulation is
 already past the requested iteration

---
 lib/b_asic/simulation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/simulation.py b/lib/b_asic/simulation.py
index bf5544e..e6edb5e 100644
--- a/lib/b_asic/simulation.py
+++ b/lib/b_asic/simulation.py
@@ -65,6 +65,7 @@ class Simulation:
         self._results = defaultdict(list)
         self._delays = {}
         self._iteration = 0
+        self._last_outputs: list[Num] = []
         self._input_functions = [lambda _: 0 for _ in range(self._sfg.input_count)]
         self._input_length = None
         if input_providers is not None:
@@ -238,9 +239,12 @@ class Simulation:
             if save_results:
                 for key, value in results.items():
                     self._results[key].append(value)
+            self._last_outputs = [
+                results[op.graph_id] for op in self._sfg.output_operations
+            ]
             self._iteration += 1
 
-        return [results[op.graph_id] for op in self._sfg.output_operations]
+        return list(self._last_outputs)
 
     def run_for(self, iterations: int, save_results: bool = True) -> Sequence[Num]:
         """
-- 
2.43.0


From 5554949c02513f1dd3c5c616c17ad264e4369998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:25 +0000
Subject: [PATCH 04/83] fix: make the reflection-free adaptor report the inputs
 of one output, not of all

---
 lib/b_asic/wdf_operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/b_asic/wdf_operations.py b/lib/b_asic/wdf_operations.py
index 63dfda7..bdb9547 100644
--- a/lib/b_asic/wdf_operations.py
+++ b/lib/b_asic/wdf_operations.py
@@ -396,4 +396,4 @@ class ReflectionFreeSeriesThreeportAdaptor(AbstractOperation):
         Get the input indices of all inputs in this operation whose values are
         required in order to evaluate the output at the given output index.
         """
-        return {0: (0, 1, 2), 1: (0, 2), 2: (0, 1, 2)}
+        return {0: (0, 1, 2), 1: (0, 2), 2: (0, 1, 2)}[output_index]
-- 
2.43.0


From 448cdd31c235a0497083814ed6cacecd3f61d76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:43 +0000
Subject: [PATCH 05/83] fix: allow radix-2 butterflies with twiddle factors in
 signal flow graphs

---
 lib/b_asic/fft_operations.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/b_asic/fft_operations.py b/lib/b_asic/fft_operations.py
index f0851ae..e68e2b0 100644
--- a/lib/b_asic/fft_operations.py
+++ b/lib/b_asic/fft_operations.py
@@ -147,7 +147,7 @@ class R2DIFButterfly(AbstractOperation):
 
     def __init__(
         self,
-        w: complex,
+        w: complex = 1,
         src0: SignalSourceProvider | None = None,
         src1: SignalSourceProvider | None = None,
         name: Name = Name(""),
@@ -244,7 +244,7 @@ class R2DITButterfly(AbstractOperation):
 
     def __init__(
         self,
-        w: complex,
+        w: complex = 1,
         src0: SignalSourceProvider | None = None,
         src1: SignalSourceProvider | None = None,
         name: Name = Name(""),
@@ -346,8 +346,8 @@ class R2TFButterfly(AbstractOperation):
 
     def __init__(
         self,
-        w0: complex,
-        w1: complex,
+        w0: complex = 1,
+        w1: complex = 1,
         src0: SignalSourceProvider | None = None,
         src1: SignalSourceProvider | None = None,
         name: Name = Name(""),
-- 
2.43.0


From 2ce41c9731ee5681cf74f93ff8838455f590440b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:10 +0000
Subject: [PATCH 06/83] fix: do not swap the operands of additions whose second
 operand is multiplied by j

---
 lib/b_asic/core_operations.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/b_asic/core_operations.py b/lib/b_asic/core_operations.py
index 8efd04e..1ecca62 100644
--- a/lib/b_asic/core_operations.py
+++ b/lib/b_asic/core_operations.py
@@ -245,7 +245,6 @@ class Addition(AbstractOperation):
     _shift_output: int
 
     is_linear = True
-    is_swappable = True
 
     def __init__(
         self,
@@ -329,6 +328,10 @@ class Addition(AbstractOperation):
             raise ValueError("shift_output must be non-negative")
         self.set_param("shift_output", shift_output)
 
+    @property
+    def is_swappable(self) -> bool:
+        return not self.mul_j
+
     def evaluate(self, a, b, data_type=None) -> Num:
         if self.mul_j:
             if isinstance(b, apy.APyCFixed):
@@ -766,7 +769,7 @@ class AddSub(AbstractOperation):
 
     @property
     def is_swappable(self) -> bool:
-        return self.is_add
+        return self.is_add and not self.mul_j
 
     def _rewrite_ShiftAddSub(self) -> "SFG":
         from b_asic.sfg import SFG  # noqa: PLC0415
@@ -1014,7 +1017,7 @@ class ShiftAddSub(AbstractOperation):
 
     @property
     def is_swappable(self) -> bool:
-        return self.is_add and self.shift == 0
+        return self.is_add and self.shift == 0 and not self.mul_j
 
 
 class Multiplication(AbstractOperation):
-- 
2.43.0


From df0633cc58e447d0ca41e4f1e54c98e1dcf750cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:29 +0000
Subject: [PATCH 07/83] fix: only merge delay elements with equal initial
 values

---
 lib/b_asic/sfg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 666ea69..e2ab596 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -1086,6 +1086,8 @@ class SFG(AbstractOperation):
                         signal.destination.operation
                         for signal in delay_element.inputs[0].signals[0].source.signals
                         if isinstance(signal.destination.operation, Delay)
+                        and signal.destination.operation.initial_value
+                        == delay_element.initial_value
                     ]
 
                     if delay_element in neighboring_delays:
-- 
2.43.0


From 8f0635420983985f58794702ac9b00e0da1fe8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:29 +0000
Subject: [PATCH 08/83] fix: connect every boundary signal when extracting
 operations into a nested graph

---
 lib/b_asic/sfg.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index e2ab596..5fff5b9 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -744,13 +744,12 @@ class SFG(AbstractOperation):
                 "Mismatch between extracted boundary ports and sub-SFG ports"
             )
 
-        for idx, ((in_sig_id, _), (out_sig_id, _)) in enumerate(
-            zip(inputs, outputs, strict=False)
-        ):
+        for idx, (in_sig_id, _) in enumerate(inputs):
             in_sig = sfg_copy.find_by_id(in_sig_id)
             in_sig.remove_destination()
             in_sig.set_destination(sub_sfg.input(idx))
 
+        for idx, (out_sig_id, _) in enumerate(outputs):
             out_sig = sfg_copy.find_by_id(out_sig_id)
             out_sig.remove_source()
             out_sig.set_source(sub_sfg.output(idx))
-- 
2.43.0


From e96744f0b251211fd5238f1f902d261f6886f197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:29 +0000
Subject: [PATCH 09/83] fix: inline nested graphs with unused or no inputs

---
 lib/b_asic/sfg.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 5fff5b9..c91b51e 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -442,7 +442,7 @@ class SFG(AbstractOperation):
                 f" number of output_operations ({len(self.output_operations)})"
                 " in SFG."
             )
-        if len(self.input_signals) == 0:
+        if self.input_count and len(self.input_signals) == 0:
             return False
         if len(self.output_signals) == 0:
             return False
@@ -451,6 +451,12 @@ class SFG(AbstractOperation):
         for input_port, input_operation in zip(
             self.inputs, self.input_operations, strict=True
         ):
+            if not input_operation.output(0).signals:
+                # The input is not used inside this SFG.
+                for signal in input_port.signals[:]:
+                    signal.remove_source()
+                    signal.remove_destination()
+                continue
             destination = input_operation.output(0).signals[0].destination
             if destination is None:
                 raise ValueError("Missing destination in signal.")
-- 
2.43.0


From 6f39b358add47120a69cae3fb86d023d38f96088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:29 +0000
Subject: [PATCH 10/83] fix: list an input that feeds several outputs directly
 only once

---
 lib/b_asic/sfg.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index c91b51e..4d37ab9 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -281,12 +281,9 @@ class SFG(AbstractOperation):
                         new_signal.destination.operation,
                     ]
                 )
-                self._operations_dfs_order.extend(
-                    [
-                        source.operation,
-                        new_signal.destination.operation,
-                    ]
-                )
+                if source.operation not in self._operations_dfs_order:
+                    self._operations_dfs_order.append(source.operation)
+                self._operations_dfs_order.append(new_signal.destination.operation)
 
         # Search the graph inwards from each output signal.
         output_sources = []
-- 
2.43.0


From f840589a542d7e5022f6fd29fb7aaae41b136592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:29 +0000
Subject: [PATCH 11/83] fix: rewrite constant multiplications to shifts and
 additions with every digit and its sign

---
 lib/b_asic/core_operations.py | 49 +++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 23 deletions(-)

diff --git a/lib/b_asic/core_operations.py b/lib/b_asic/core_operations.py
index 1ecca62..1666930 100644
--- a/lib/b_asic/core_operations.py
+++ b/lib/b_asic/core_operations.py
@@ -1762,8 +1762,13 @@ class ConstantMultiplication(AbstractOperation):
         frac_bits = csd[1]
         max_exp = bits - 1 - frac_bits
 
-        if len(csd[0]) == 1:
+        if not any(csd[0]):
+            # Multiplication by zero
+            prev_op = ShiftAddSub(is_add=False, src0=in0, src1=in0)
+        elif len(csd[0]) == 1:
             prev_op = Shift(frac_bits, prev_op)
+            if csd[0][0] == -1:
+                prev_op = Negation(prev_op)
         else:
             first_nonzero = True
             for i, digit in enumerate(csd[0]):
@@ -1807,33 +1812,31 @@ class ConstantMultiplication(AbstractOperation):
 
         in0 = Input()
         out0 = Output()
-        prev_op = in0
-
-        if self.value < 0:
-            prev_op = Negation(prev_op)
+        prev_op = None
 
         bits = len(csd[0])
         frac_bits = csd[1]
         max_exp = bits - 1 - frac_bits
 
-        if len(csd[0]) == 1:
-            prev_op = Shift(frac_bits, prev_op)
-        else:
-            for i, digit in enumerate(csd[0]):
-                if digit not in (-1, 0, 1):
-                    raise ValueError("CSD representation can only contain -1, 0, and 1")
-                if digit == 0:
-                    continue
-
-                exp = max_exp - i
-                if exp == 0:
-                    continue
-
-                shift = Shift(-exp, in0)
-                if digit == 1:
-                    prev_op = Addition(prev_op, shift)
-                elif digit == -1:
-                    prev_op = Subtraction(prev_op, shift)
+        if not any(csd[0]):
+            # Multiplication by zero
+            prev_op = Subtraction(in0, in0)
+
+        for i, digit in enumerate(csd[0]):
+            if digit not in (-1, 0, 1):
+                raise ValueError("CSD representation can only contain -1, 0, and 1")
+            if digit == 0:
+                continue
+
+            exp = max_exp - i
+            term = in0 if exp == 0 and bits > 1 else Shift(-exp, in0)
+            if prev_op is None:
+                # First non-zero digit initializes prev_op
+                prev_op = term if digit == 1 else Negation(term)
+            elif digit == 1:
+                prev_op = Addition(prev_op, term)
+            else:
+                prev_op = Subtraction(prev_op, term)
         out0 <<= prev_op
 
         return SFG([in0], [out0])
-- 
2.43.0


From e2c8597e068b08f4f8a4bdb0f5101062a41e5eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:47 +0000
Subject: [PATCH 12/83] fix: join imaginary multiplications according to the
 operand they feed

---
 lib/b_asic/core_operations.py | 62 +++++++++++++----------------------
 lib/b_asic/sfg.py             |  2 +-
 2 files changed, 24 insertions(+), 40 deletions(-)

diff --git a/lib/b_asic/core_operations.py b/lib/b_asic/core_operations.py
index 1666930..c02aab6 100644
--- a/lib/b_asic/core_operations.py
+++ b/lib/b_asic/core_operations.py
@@ -1602,7 +1602,7 @@ class ImaginaryMultiplication(AbstractOperation):
         res = a * 1j
         return self._cast_to_data_type(res, data_type)
 
-    def _join(self, other: "AbstractOperation") -> Union["SFG", None]:
+    def _join(self, other: "AbstractOperation", port: int = 1) -> Union["SFG", None]:
         from b_asic.sfg import SFG  # noqa: PLC0415
         from b_asic.special_operations import Input, Output  # noqa: PLC0415
 
@@ -1612,48 +1612,32 @@ class ImaginaryMultiplication(AbstractOperation):
         in0 = Input()
         in1 = Input()
         out0 = Output()
-        if other.mul_j:
-            in1 = -in1
-
+        src0, src1 = in0, in1
+        if port == 0:
+            # j * x0 + x1 is computed as x1 + j * x0
+            if other.mul_j or not getattr(other, "is_swappable", False):
+                return None
+            src0, src1 = in1, in0
+        elif other.mul_j:
+            src1 = Negation(in1)
+
+        kwargs = {
+            "src0": src0,
+            "src1": src1,
+            "name": self.name,
+            "latency_offsets": self.latency_offsets,
+            "execution_time": self.execution_time,
+            "mul_j": not other.mul_j,
+            "shift_output": other.shift_output,
+        }
         if isinstance(other, Addition):
-            op = Addition(
-                src0=in0,
-                src1=in1,
-                name=self.name,
-                latency_offsets=self.latency_offsets,
-                execution_time=self.execution_time,
-                mul_j=not other.mul_j,
-            )
+            op = Addition(**kwargs)
         elif isinstance(other, Subtraction):
-            op = Subtraction(
-                src0=in0,
-                src1=in1,
-                name=self.name,
-                latency_offsets=self.latency_offsets,
-                execution_time=self.execution_time,
-                mul_j=not other.mul_j,
-            )
+            op = Subtraction(**kwargs)
         elif isinstance(other, AddSub):
-            op = AddSub(
-                src0=in0,
-                src1=in1,
-                is_add=other.is_add,
-                name=self.name,
-                latency_offsets=self.latency_offsets,
-                execution_time=self.execution_time,
-                mul_j=not other.mul_j,
-            )
+            op = AddSub(is_add=other.is_add, **kwargs)
         elif isinstance(other, ShiftAddSub):
-            op = ShiftAddSub(
-                src0=in0,
-                src1=in1,
-                is_add=other.is_add,
-                shift=other.shift,
-                name=self.name,
-                latency_offsets=self.latency_offsets,
-                execution_time=self.execution_time,
-                mul_j=not other.mul_j,
-            )
+            op = ShiftAddSub(is_add=other.is_add, shift=other.shift, **kwargs)
         out0 <<= op
         return SFG([in0, in1], [out0])
 
diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 4d37ab9..630bf2e 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -2684,7 +2684,7 @@ class SFG(AbstractOperation):
             for sig in op.output(0).signals:
                 dest_op = sig.destination_operation
                 if hasattr(op, "_join"):
-                    joined_op = op._join(dest_op)
+                    joined_op = op._join(dest_op, sig.destination.index)
                     new_sfg = new_sfg.replace(dest_op.graph_id, joined_op)
                     new_sfg.find_by_id("sfg0").connect_external_signals_to_components()
                     new_sfg = new_sfg()
-- 
2.43.0


From f27f9936be0d0dc79be7d6a6aa57dcbe25081884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:48 +0000
Subject: [PATCH 13/83] fix: inline nested graphs whose outputs are not used

---
 lib/b_asic/sfg.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 630bf2e..74e56e7 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -439,9 +439,9 @@ class SFG(AbstractOperation):
                 f" number of output_operations ({len(self.output_operations)})"
                 " in SFG."
             )
-        if self.input_count and len(self.input_signals) == 0:
-            return False
-        if len(self.output_signals) == 0:
+        if len(self.input_signals) == 0 and (
+            self.input_count or len(self.output_signals) == 0
+        ):
             return False
 
         # For each input_signal, connect it to the corresponding operation
-- 
2.43.0


From c0c06092a1eb229bcae66b8d994ed85dafdc3650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:29 +0000
Subject: [PATCH 14/83] fix: remove operations with an output port that is not
 used

---
 lib/b_asic/sfg.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 74e56e7..3eb6239 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -1196,6 +1196,7 @@ class SFG(AbstractOperation):
                 if operation.input(i).signal_count > 0:
                     in_sig = operation.input(i).signals[0]
                     operation.input(i).remove_signal(in_sig)
+                    in_sig.remove_source()
 
         return sfg_copy()
 
-- 
2.43.0


From 281ea1814491f290efef9cba96c11287ec27eb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:53 +0000
Subject: [PATCH 15/83] fix: move every signal of a merged delay element

---
 lib/b_asic/sfg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 3eb6239..ef26b8c 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -1096,7 +1096,7 @@ class SFG(AbstractOperation):
                         neighboring_delays.remove(delay_element)
 
                     for delay in neighboring_delays:
-                        for output in delay.outputs[0].signals:
+                        for output in delay.outputs[0].signals[:]:
                             output.set_source(delay_element.outputs[0])
                         in_sig = delay.input(0).signals[0]
                         delay.input(0).remove_signal(in_sig)
-- 
2.43.0


From fc5f9d44af304c092efedb2e12d50719b414b29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:51 +0000
Subject: [PATCH 16/83] fix: carry initial values and identify delays by
 position when unfolding

---
 lib/b_asic/sfg.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index ef26b8c..40f17ce 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -2440,6 +2440,9 @@ class SFG(AbstractOperation):
 
         inputs = sfg.input_operations
         outputs = sfg.output_operations
+        no_of_inputs = len(inputs)
+        no_of_outputs = len(outputs)
+        initial_values = []
 
         # Remove all delay elements in the SFG and replace each one
         # with one input operation and one output operation
@@ -2451,6 +2454,7 @@ class SFG(AbstractOperation):
 
             inputs.append(tmp_input)
             outputs.append(tmp_output)
+            initial_values.append(delay.initial_value)
 
             # move all outgoing signals from the delay to the new input operation
             while len(delay.output(0).signals) > 0:
@@ -2472,10 +2476,9 @@ class SFG(AbstractOperation):
             for operation in sfgs[i].operations:
                 suffix = f"_{i}"
                 operation.graph_id = operation.graph_id + suffix
-                if operation.name[:7] not in ["", "input_t", "output_"]:
+                if operation.name:
                     operation.name = operation.name + suffix
 
-        input_name_to_idx = {}  # save the input port indices for future reference
         new_inputs = []
         # For each copy of the SFG, create new input operations for every "original"
         # input operation and connect them to begin creating the unfolded SFG
@@ -2483,15 +2486,12 @@ class SFG(AbstractOperation):
             for port, operation in zip(
                 sfgs[i].inputs, sfgs[i].input_operations, strict=True
             ):
-                if not operation.name.startswith("input_t"):
+                # The inputs created when removing the delays come last
+                if port.index < no_of_inputs:
                     new_input = Input(name=operation.name)
                     new_input.graph_id = operation.graph_id
                     new_inputs.append(new_input)
                     port.connect(new_input)
-                else:
-                    # If the input was created earlier when removing the delays
-                    # then just save the index
-                    input_name_to_idx[operation.name] = port.index
 
         # Connect the original outputs in the same way as the inputs
         # Also connect the copies of the SFG together according to a formula
@@ -2503,17 +2503,21 @@ class SFG(AbstractOperation):
             for port, operation in zip(
                 sfgs[i].outputs, sfgs[i].output_operations, strict=True
             ):
-                if not operation.name.startswith("output_t"):
+                if port.index < no_of_outputs:
                     new_output = Output(port, name=operation.name)
                     new_output.graph_id = operation.graph_id
                     new_outputs.append(new_output)
                 else:
-                    index = operation.name[8:]  # Remove the "output_t" prefix
+                    index = port.index - no_of_outputs  # which of the delays
                     j = (i + 1) % factor
                     number_of_delays_between = (i + 1) // factor
-                    input_port = sfgs[j].input(input_name_to_idx["input_t" + index])
+                    input_port = sfgs[j].input(no_of_inputs + index)
                     input_port.connect(port)
-                    delay_placements[port] = [i, number_of_delays_between]
+                    delay_placements[port] = [
+                        i,
+                        number_of_delays_between,
+                        initial_values[index],
+                    ]
             # deterministically set the graphID of the SFGs
             sfgs[i].graph_id = f"sfg{i}"
 
@@ -2521,9 +2525,11 @@ class SFG(AbstractOperation):
 
         # Insert the interconnect delays according to what is saved in delay_placements
         for port, val in delay_placements.items():
-            i, no_of_delays = val
+            i, no_of_delays, initial_value = val
             for _ in range(no_of_delays):
-                sfg = sfg.insert_operation_after(f"sfg{i}.{port.index}", Delay())
+                sfg = sfg.insert_operation_after(
+                    f"sfg{i}.{port.index}", Delay(initial_value=initial_value)
+                )
 
         # Flatten all the copies of the original SFG
         for i in range(factor):
-- 
2.43.0


From 287d11d4dbacf12be0cdd97b28c4ceb11bf7a278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:57 +0000
Subject: [PATCH 17/83] fix: save parameters with zero, false or empty values
 and names with quotes

---
 lib/b_asic/save_load_structure.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/lib/b_asic/save_load_structure.py b/lib/b_asic/save_load_structure.py
index 60a0d08..10dd644 100644
--- a/lib/b_asic/save_load_structure.py
+++ b/lib/b_asic/save_load_structure.py
@@ -64,14 +64,10 @@ def sfg_to_python(
                 if attr != "latency" and hasattr(comp, attr)
             }
             params = {
-                attr: (
-                    getattr(comp, attr)
-                    if not isinstance(getattr(comp, attr), str)
-                    else f'"{getattr(comp, attr)}"'
-                )
-                for attr in params_filtered
+                attr: repr(value) if isinstance(value, str) else value
+                for attr, value in params_filtered.items()
+                if value is not None
             }
-            params = {k: v for k, v in params.items() if v}
             if params.get("latency_offsets") is not None:
                 params["latency_offsets"] = {
                     k: v for k, v in params["latency_offsets"].items() if v is not None
-- 
2.43.0


From 04de9c9c61875743d241762df04dbde567507381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:28 +0000
Subject: [PATCH 18/83] fix: save nested graphs and graphs with unusual names
 so that they can be loaded

---
 lib/b_asic/save_load_structure.py | 60 ++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 21 deletions(-)

diff --git a/lib/b_asic/save_load_structure.py b/lib/b_asic/save_load_structure.py
index 10dd644..9635abb 100644
--- a/lib/b_asic/save_load_structure.py
+++ b/lib/b_asic/save_load_structure.py
@@ -5,8 +5,10 @@ Contains functions for saving/loading SFGs and Schedules to/from strings that ca
 stored as files.
 """
 
+import re
 from datetime import datetime
 from inspect import signature
+from keyword import iskeyword
 from pathlib import Path
 from typing import cast
 
@@ -27,7 +29,7 @@ def sfg_to_python(
     sfg : :class:`~b_asic.sfg.SFG`
         The SFG to serialize.
     counter : int, default: 0
-        Number used for naming the SFG. Enables SFGs in SFGs.
+        Number used for naming the SFG if it has no name.
     suffix : str, optional
         String to append at the end of the result.
     schedule : bool, default: False
@@ -35,14 +37,34 @@ def sfg_to_python(
     """
     if not isinstance(sfg, SFG):
         raise TypeError("An SFG must be provided")
+    return _sfg_to_python(sfg, _sfg_variable(sfg, counter), "", suffix, schedule)
 
+
+def _sfg_variable(sfg: SFG, counter: int = 0) -> str:
+    """Return the name of the variable that *sfg* is assigned to in a saved file."""
+    name = sfg.name or (f"sfg{counter}" if counter > 0 else "sfg")
+    variable = re.sub(r"\W", "_", name)
+    if not variable.isidentifier() or iskeyword(variable):
+        variable = "_" + variable
+    return variable
+
+
+def _sfg_to_python(
+    sfg: SFG, variable: str, prefix: str, suffix: str | None, schedule: bool = False
+) -> str:
+    """
+    Serialize *sfg* and the SFGs inside it.
+
+    All variables of the result, except the one of the SFG itself, start with *prefix*.
+    """
     _type = "Schedule" if schedule else "SFG"
+    nested = ""
 
     result = (
         '\n"""\n'
         + f"B-ASIC automatically generated {_type} file.\n"
         + "Name: "
-        + f"{sfg.name}"
+        + sfg.name.replace("\\", "\\\\").replace('"', '\\"')
         + "\n"
         + "Last saved: "
         + f"{datetime.now()}"
@@ -82,23 +104,25 @@ def sfg_to_python(
 
     result += "\n# Inputs:\n"
     for input_op in sfg.input_operations:
-        result += f"{input_op.graph_id} = Input({kwarg_unpacker(input_op)})\n"
+        result += f"{prefix}{input_op.graph_id} = Input({kwarg_unpacker(input_op)})\n"
 
     result += "\n# Outputs:\n"
     for output_op in sfg.output_operations:
-        result += f"{output_op.graph_id} = Output({kwarg_unpacker(output_op)})\n"
+        result += f"{prefix}{output_op.graph_id} = Output({kwarg_unpacker(output_op)})\n"
 
     result += "\n# Operations:\n"
     for operation in sfg.split():
         if operation in io_ops:
             continue
         if isinstance(operation, SFG):
-            counter += 1
-            result = sfg_to_python(operation, counter) + result
+            nested_variable = f"{prefix}{operation.graph_id}"
+            nested += _sfg_to_python(
+                operation, nested_variable, f"{nested_variable}__", None
+            )
             continue
 
         result += (
-            f"{operation.graph_id} ="
+            f"{prefix}{operation.graph_id} ="
             f" {operation.__class__.__name__}({kwarg_unpacker(operation)})\n"
         )
 
@@ -111,9 +135,9 @@ def sfg_to_python(
                 destination = cast(InputPort, signal.destination)
                 dest_op = destination.operation
                 connection = (
-                    f"Signal(source={operation.graph_id}."
+                    f"Signal(source={prefix}{operation.graph_id}."
                     f"output({operation.outputs.index(signal.source)}),"
-                    f" destination={dest_op.graph_id}."
+                    f" destination={prefix}{dest_op.graph_id}."
                     f"input({dest_op.inputs.index(destination)}))\n"
                 )
                 if connection in connections:
@@ -122,20 +146,18 @@ def sfg_to_python(
                 result += connection
                 connections.append(connection)
 
-    inputs = "[" + ", ".join(op.graph_id for op in sfg.input_operations) + "]"
-    outputs = "[" + ", ".join(op.graph_id for op in sfg.output_operations) + "]"
-    sfg_name = sfg.name or (f"sfg{counter}" if counter > 0 else "sfg")
-    sfg_name_var = sfg_name.replace(" ", "_").replace("-", "_")
+    inputs = ", ".join(f"{prefix}{op.graph_id}" for op in sfg.input_operations)
+    outputs = ", ".join(f"{prefix}{op.graph_id}" for op in sfg.output_operations)
     result += "\n# Signal flow graph:\n"
     result += (
-        f"{sfg_name_var} = SFG(inputs={inputs}, outputs={outputs}, name='{sfg_name}')\n"
+        f"{variable} = SFG(inputs=[{inputs}], outputs=[{outputs}], name={sfg.name!r})\n"
     )
-    result += "\n# SFG Properties:\n" + "prop = {'name':" + f"{sfg_name_var}" + "}\n"
+    result += "\n# SFG Properties:\n" + "prop = {'name':" + f"{variable}" + "}\n"
 
     if suffix is not None:
         result += "\n" + suffix + "\n"
 
-    return result
+    return nested + result
 
 
 def python_to_sfg(path: str) -> tuple[SFG, dict[str, tuple[int, int]]]:
@@ -182,11 +204,7 @@ def schedule_to_python(schedule: Schedule) -> str:
     """
     if not isinstance(schedule, Schedule):
         raise TypeError("A Schedule must be provided")
-    sfg_name = (
-        schedule.sfg.name.replace(" ", "_").replace("-", "_")
-        if schedule.sfg.name
-        else "sfg"
-    )
+    sfg_name = _sfg_variable(schedule.sfg)
     result = "\n# Schedule:\n"
     nonzerolaps = {gid: val for gid, val in dict(schedule.laps).items() if val}
     result += (
-- 
2.43.0


From 48f5f1bf4c88e0a4614e7ccad582fd5671473191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:47 +0000
Subject: [PATCH 19/83] fix: keep the identifiers of operations and signals
 when saving a graph

---
 lib/b_asic/save_load_structure.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/lib/b_asic/save_load_structure.py b/lib/b_asic/save_load_structure.py
index 9635abb..d8600dd 100644
--- a/lib/b_asic/save_load_structure.py
+++ b/lib/b_asic/save_load_structure.py
@@ -127,24 +127,30 @@ def _sfg_to_python(
         )
 
     result += "\n# Signals:\n"
-    # Keep track of already existing connections to avoid adding duplicates
-    connections = []
     for operation in sfg.split():
         for out in operation.outputs:
             for signal in out.signals:
                 destination = cast(InputPort, signal.destination)
                 dest_op = destination.operation
-                connection = (
+                parameters = "".join(
+                    f", {name}={value!r}"
+                    for name, value in (
+                        ("bits", signal.param("bits")),
+                        ("name", signal.name or None),
+                    )
+                    if value is not None
+                )
+                result += (
                     f"Signal(source={prefix}{operation.graph_id}."
                     f"output({operation.outputs.index(signal.source)}),"
                     f" destination={prefix}{dest_op.graph_id}."
-                    f"input({dest_op.inputs.index(destination)}))\n"
+                    f"input({dest_op.inputs.index(destination)}){parameters}).graph_id ="
+                    f" {signal.graph_id!r}\n"
                 )
-                if connection in connections:
-                    continue
 
-                result += connection
-                connections.append(connection)
+    result += "\n# Identifiers:\n"
+    for operation in [*io_ops, *(op for op in sfg.split() if op not in io_ops)]:
+        result += f"{prefix}{operation.graph_id}.graph_id = {operation.graph_id!r}\n"
 
     inputs = ", ".join(f"{prefix}{op.graph_id}" for op in sfg.input_operations)
     outputs = ", ".join(f"{prefix}{op.graph_id}" for op in sfg.output_operations)
-- 
2.43.0


From d16d1518653945f0e970df2eceb0efd4c707e9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:55 +0000
Subject: [PATCH 20/83] fix: save schedules so that they can be loaded with the
 same start times and laps

---
 lib/b_asic/save_load_structure.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/lib/b_asic/save_load_structure.py b/lib/b_asic/save_load_structure.py
index d8600dd..3db50f1 100644
--- a/lib/b_asic/save_load_structure.py
+++ b/lib/b_asic/save_load_structure.py
@@ -13,6 +13,7 @@ from pathlib import Path
 from typing import cast
 
 from b_asic.graph_component import GraphComponent
+from b_asic.operation import Operation
 from b_asic.port import InputPort
 from b_asic.schedule import Schedule
 from b_asic.sfg import SFG
@@ -210,12 +211,21 @@ def schedule_to_python(schedule: Schedule) -> str:
     """
     if not isinstance(schedule, Schedule):
         raise TypeError("A Schedule must be provided")
-    sfg_name = _sfg_variable(schedule.sfg)
+    sfg = schedule.sfg
+    sfg_name = _sfg_variable(sfg)
+    # When the schedule is loaded, the delay elements are removed and the signals that
+    # enter the destinations remain, so the laps are stored for these.
+    laps = {}
+    for operation in schedule._sfg.operations:
+        for port in operation.inputs:
+            lap = schedule.laps.get(port.signals[0].graph_id, 0)
+            destination = cast(Operation, sfg.find_by_id(operation.graph_id))
+            laps[destination.input(port.index).signals[0].graph_id] = lap
+    start_times = {id_: int(time) for id_, time in schedule.start_times.items()}
     result = "\n# Schedule:\n"
-    nonzerolaps = {gid: val for gid, val in dict(schedule.laps).items() if val}
     result += (
-        f"{sfg_name}_schedule = Schedule({sfg_name}, {schedule.schedule_time},"
-        f" {schedule.cyclic}, 'provided', {schedule.start_times},"
-        f" {nonzerolaps})\n"
+        f"{sfg_name}_schedule = Schedule({sfg_name},"
+        f" schedule_time={schedule.schedule_time}, cyclic={schedule.cyclic},"
+        f" start_times={start_times}, laps={laps})\n"
     )
-    return sfg_to_python(schedule.sfg, schedule=True) + result
+    return sfg_to_python(sfg, schedule=True) + result
-- 
2.43.0


From 366a1e140cf6805e4cde9c1286ca82282c6f12f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:15 +0000
Subject: [PATCH 21/83] fix: save execution times and latencies that are not
 constructor arguments and tuples of NumPy numbers

---
 lib/b_asic/save_load_structure.py | 37 ++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/lib/b_asic/save_load_structure.py b/lib/b_asic/save_load_structure.py
index 3db50f1..6ce4a44 100644
--- a/lib/b_asic/save_load_structure.py
+++ b/lib/b_asic/save_load_structure.py
@@ -10,7 +10,9 @@ from datetime import datetime
 from inspect import signature
 from keyword import iskeyword
 from pathlib import Path
-from typing import cast
+from typing import Any, cast
+
+import numpy as np
 
 from b_asic.graph_component import GraphComponent
 from b_asic.operation import Operation
@@ -41,6 +43,15 @@ def sfg_to_python(
     return _sfg_to_python(sfg, _sfg_variable(sfg, counter), "", suffix, schedule)
 
 
+def _literal(value: Any) -> Any:
+    """Return the value of a parameter in a form that prints as a Python literal."""
+    if isinstance(value, np.generic):
+        value = value.item()
+    if isinstance(value, tuple):
+        return "(" + "".join(f"{_literal(element)}, " for element in value) + ")"
+    return repr(value) if isinstance(value, str) else value
+
+
 def _sfg_variable(sfg: SFG, counter: int = 0) -> str:
     """Return the name of the variable that *sfg* is assigned to in a saved file."""
     name = sfg.name or (f"sfg{counter}" if counter > 0 else "sfg")
@@ -87,7 +98,7 @@ def _sfg_to_python(
                 if attr != "latency" and hasattr(comp, attr)
             }
             params = {
-                attr: repr(value) if isinstance(value, str) else value
+                attr: _literal(value)
                 for attr, value in params_filtered.items()
                 if value is not None
             }
@@ -150,9 +161,29 @@ def _sfg_to_python(
                 )
 
     result += "\n# Identifiers:\n"
-    for operation in [*io_ops, *(op for op in sfg.split() if op not in io_ops)]:
+    operations = [*io_ops, *(op for op in sfg.split() if op not in io_ops)]
+    for operation in operations:
         result += f"{prefix}{operation.graph_id}.graph_id = {operation.graph_id!r}\n"
 
+    result += "\n# Latencies and execution times that are not constructor arguments:\n"
+    for operation in operations:
+        arguments = signature(operation.__init__).parameters
+        if "latency_offsets" in arguments and "execution_time" in arguments:
+            continue
+        default = type(operation)()
+        operation_variable = f"{prefix}{operation.graph_id}"
+        latency_offsets = {
+            port: latency
+            for port, latency in operation.latency_offsets.items()
+            if latency != default.latency_offsets.get(port)
+        }
+        if latency_offsets:
+            result += f"{operation_variable}.set_latency_offsets({latency_offsets})\n"
+        if operation.execution_time != default.execution_time:
+            result += (
+                f"{operation_variable}.execution_time = {operation.execution_time}\n"
+            )
+
     inputs = ", ".join(f"{prefix}{op.graph_id}" for op in sfg.input_operations)
     outputs = ", ".join(f"{prefix}{op.graph_id}" for op in sfg.output_operations)
     result += "\n# Signal flow graph:\n"
-- 
2.43.0


From 5e2367405b9fb52854505b12593431ce7f6348b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:39 +0000
Subject: [PATCH 22/83] fix: keep outputs at the end when rotating a schedule
 of length one

---
 lib/b_asic/schedule.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/b_asic/schedule.py b/lib/b_asic/schedule.py
index 238db3f..0ae4368 100644
--- a/lib/b_asic/schedule.py
+++ b/lib/b_asic/schedule.py
@@ -1094,12 +1094,12 @@ class Schedule:
                 self._start_times[graph_id] = 0
                 for output_signal in op.output_signals:
                     self._laps[output_signal.graph_id] -= 1
-            elif (
-                isinstance(op, (Output, Sink)) and start_time == self._schedule_time - 1
-            ):
+            elif isinstance(op, (Output, Sink)) and new_time == 0:
                 self._start_times[graph_id] = self._schedule_time
-                for input_signal in op.input_signals:
-                    self._laps[input_signal.graph_id] -= 1
+                # an output at the end of a schedule of length one stays there
+                if start_time != self._schedule_time:
+                    for input_signal in op.input_signals:
+                        self._laps[input_signal.graph_id] -= 1
             else:
                 self._start_times[graph_id] = new_time
         return self
-- 
2.43.0


From 6052e61192e256e3560241498b8423bba252bc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:05 +0000
Subject: [PATCH 23/83] fix: rotate schedules without changing time distances

Operations without latency and inputs used after the end of the period were
handled as if their data or use had not wrapped around.
---
 lib/b_asic/schedule.py | 112 +++++++++++++----------------------------
 1 file changed, 36 insertions(+), 76 deletions(-)

diff --git a/lib/b_asic/schedule.py b/lib/b_asic/schedule.py
index 0ae4368..e8c86e5 100644
--- a/lib/b_asic/schedule.py
+++ b/lib/b_asic/schedule.py
@@ -1061,47 +1061,7 @@ class Schedule:
         if not self._cyclic:
             raise ValueError("Cannot rotate non-cyclic schedule.")
 
-        for graph_id, start_time in self._start_times.items():
-            op = cast(Operation, self._sfg.find_by_id(graph_id))
-            new_time = (start_time + 1) % self._schedule_time
-
-            for input_signal in op.input_signals:
-                # move resulted in the input wrapping around
-                if (
-                    start_time + 1 + input_signal.destination.latency_offset
-                    == self._schedule_time
-                ):
-                    self._laps[input_signal.graph_id] += 1
-
-            for output_signal in op.output_signals:
-                # move resulted in the output wrapping around
-                if (
-                    start_time + output_signal.source.latency_offset
-                    == self._schedule_time
-                ):
-                    self._laps[output_signal.graph_id] -= 1
-
-            if isinstance(op, (Output, Sink)) and start_time == self._schedule_time:
-                # special case, output has wrapped around
-                for input_signal in op.input_signals:
-                    self._laps[input_signal.graph_id] += 1
-
-            # place the operation at the correct position
-            if (
-                isinstance(op, (Input, DontCare))
-                and start_time == self._schedule_time - 1
-            ):
-                self._start_times[graph_id] = 0
-                for output_signal in op.output_signals:
-                    self._laps[output_signal.graph_id] -= 1
-            elif isinstance(op, (Output, Sink)) and new_time == 0:
-                self._start_times[graph_id] = self._schedule_time
-                # an output at the end of a schedule of length one stays there
-                if start_time != self._schedule_time:
-                    for input_signal in op.input_signals:
-                        self._laps[input_signal.graph_id] -= 1
-            else:
-                self._start_times[graph_id] = new_time
+        self._rotate(1)
         return self
 
     def rotate_backward(self) -> "Schedule":
@@ -1109,44 +1069,44 @@ class Schedule:
         if not self._cyclic:
             raise ValueError("Cannot rotate non-cyclic schedule.")
 
+        self._rotate(-1)
+        return self
+
+    def _rotate(self, time: int) -> None:
+        """Rotate the schedule *time* cycles, without changing any time distances."""
         for graph_id, start_time in self._start_times.items():
             op = cast(Operation, self._sfg.find_by_id(graph_id))
-            new_time = (start_time - 1) % self._schedule_time
-
-            for input_signal in op.input_signals:
-                # move resulted in the input wrapping around
-                if start_time + input_signal.destination.latency_offset == 0:
-                    self._laps[input_signal.graph_id] -= 1
-
-            for output_signal in op.output_signals:
-                # move resulted in the output wrapping around
-                if start_time - 1 + output_signal.source.latency_offset == 0:
-                    # normal wrap around
-                    self._laps[output_signal.graph_id] += 1
-                if (
-                    start_time - 1 + output_signal.source.latency_offset
-                    == self._schedule_time
-                ):
-                    # output time now in schedule period
-                    self._laps[output_signal.graph_id] += 1
-
-            if isinstance(op, (Input, DontCare)) and start_time == 0:
-                # special case, input has wrapped around
-                for output_signal in op.output_signals:
-                    self._laps[output_signal.graph_id] += 1
-
-            # place the operation at the correct position
-            if isinstance(op, (Input, DontCare)) and start_time == 1:
-                self._start_times[graph_id] = 0
-                for output_signal in op.output_signals:
-                    self._laps[output_signal.graph_id] -= 1
-            elif isinstance(op, (Output, Sink)) and start_time == 1:
+            new_start = (start_time + time) % self._schedule_time
+            for signal in op.input_signals:
+                # the operation wrapped around
+                self._laps[signal.graph_id] += (
+                    start_time + time - new_start
+                ) // self._schedule_time
+            for port in op.outputs:
+                available = start_time + cast(int, port.latency_offset)
+                new_available = new_start + cast(int, port.latency_offset)
+                # data available after the end is available in the next iteration
+                if available > self._schedule_time:
+                    available -= self._schedule_time
+                if new_available > self._schedule_time:
+                    new_available -= self._schedule_time
+                for signal in port.signals:
+                    self._laps[signal.graph_id] += (
+                        new_available - available - time
+                    ) // self._schedule_time
+            self._start_times[graph_id] = new_start
+
+        # Outputs should not start at 0, but at schedule time
+        for graph_id, start_time in self._start_times.items():
+            op = cast(Operation, self._sfg.find_by_id(graph_id))
+            if (
+                start_time == 0
+                and isinstance(op, (Output, Sink))
+                and all(self._laps[signal.graph_id] > 0 for signal in op.input_signals)
+            ):
                 self._start_times[graph_id] = self._schedule_time
-                for input_signal in op.input_signals:
-                    self._laps[input_signal.graph_id] -= 1
-            else:
-                self._start_times[graph_id] = new_time
-        return self
+                for signal in op.input_signals:
+                    self._laps[signal.graph_id] -= 1
 
     def _remove_delays_no_laps(self) -> None:
         """Remove delay elements without updating laps. Used when loading schedule."""
-- 
2.43.0


From a6e92cbc930af452e65d9c322f970f9cb22a5418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:29 +0000
Subject: [PATCH 24/83] fix: move operations without latency without changing
 other time distances

---
 lib/b_asic/schedule.py | 68 +++++++++++-------------------------------
 1 file changed, 17 insertions(+), 51 deletions(-)

diff --git a/lib/b_asic/schedule.py b/lib/b_asic/schedule.py
index e8c86e5..d38388b 100644
--- a/lib/b_asic/schedule.py
+++ b/lib/b_asic/schedule.py
@@ -942,56 +942,27 @@ class Schedule:
         new_start = tmp_start % self._schedule_time
 
         # Update input laps
-        input_slacks = self._backward_slacks(graph_id)
-        for in_port, signal_slacks in input_slacks.items():
-            tmp_usage = tmp_start + cast(int, in_port.latency_offset)
-            new_usage = tmp_usage % self._schedule_time
-            for signal, signal_slack in signal_slacks.items():
-                # New slack
-                new_slack = signal_slack + time
-                # Compute a lower limit on laps
-                laps = new_slack // self._schedule_time
-                # Compensate for cases where above is not correct
-                tmp_prev_available = tmp_usage - new_slack
-                prev_available = tmp_prev_available % self._schedule_time
-                # If prev_available == 0 it will come from previous lap, unless it comes
-                # from an Input
-                source_op = signal.source_operation
-                if prev_available == 0 and not isinstance(source_op, Input):
-                    prev_available = self._schedule_time
-                # Usage time (new_usage) < available time (prev_available) within a
-                # schedule period
-                if new_usage < prev_available:
-                    laps += 1
-                self._laps[signal.graph_id] = laps
+        op = cast(Operation, self._sfg.find_by_id(graph_id))
+        for signal in op.input_signals:
+            laps = (tmp_start - new_start) // self._schedule_time
+            self._laps[signal.graph_id] = max(0, self._laps[signal.graph_id] + laps)
 
         # Update output laps
-        output_slacks = self._forward_slacks(graph_id)
-        for out_port, signal_slacks in output_slacks.items():
-            tmp_available = tmp_start + cast(int, out_port.latency_offset)
-            new_available = tmp_available % self._schedule_time
-            for signal, signal_slack in signal_slacks.items():
-                # New slack
-                new_slack = signal_slack - time
-                # Compute a lower limit on laps
-                laps = new_slack // self._schedule_time
-                # Compensate for cases where above is not correct
-                tmp_next_usage = tmp_available + new_slack
-                next_usage = tmp_next_usage % self._schedule_time
-                # Usage time (new_usage) < available time (prev_available) within a
-                # schedule period
-                if new_available == 0 and (new_slack > 0 or next_usage == 0):
-                    new_available = self._schedule_time
-                if (
-                    next_usage < new_available
-                    and self._start_times[signal.destination_operation.graph_id]
-                    != self.schedule_time
-                ):
-                    laps += 1
-                self._laps[signal.graph_id] = laps
+        for port in op.outputs:
+            available = old_start + cast(int, port.latency_offset)
+            new_available = new_start + cast(int, port.latency_offset)
+            # Data available after the end is available in the next iteration
+            if available > self._schedule_time:
+                available -= self._schedule_time
+            if new_available > self._schedule_time:
+                new_available -= self._schedule_time
+            laps = (new_available - available - time) // self._schedule_time
+            for signal in port.signals:
+                self._laps[signal.graph_id] = max(
+                    0, self._laps[signal.graph_id] + laps
+                )
 
         # Outputs should not start at 0, but at schedule time
-        op = self._sfg.find_by_id(graph_id)
         if (
             new_start == 0
             and isinstance(op, Output)
@@ -999,11 +970,6 @@ class Schedule:
         ):
             new_start = self._schedule_time
             self._laps[op.input(0).signals[0].graph_id] -= 1
-        if new_start == 0 and isinstance(op, Input):
-            new_start = 0
-            for signal in op.output(0).signals:
-                if self._laps[signal.graph_id] != 0:
-                    self._laps[signal.graph_id] -= 1
         # Set new start time
         self._start_times[graph_id] = new_start
         return self
-- 
2.43.0


From 790f3bfda5cc8ac5284b757e23dd5aef07217659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:16 +0000
Subject: [PATCH 25/83] fix: keep the number of delays on every connection when
 list and ILP scheduling

---
 lib/b_asic/scheduler.py | 128 +++++++++++++++++++++++++++++-----------
 1 file changed, 95 insertions(+), 33 deletions(-)

diff --git a/lib/b_asic/scheduler.py b/lib/b_asic/scheduler.py
index 0f1f787..faef40e 100644
--- a/lib/b_asic/scheduler.py
+++ b/lib/b_asic/scheduler.py
@@ -203,6 +203,9 @@ class Scheduler(ABC):
                     lap_number = new_time // self._schedule._schedule_time
                     self._op_laps[output.graph_id] = lap_number
                     self._schedule._place_operation(output, new_time, self._op_laps)
+                    self._op_laps[output.graph_id] = (
+                        new_time - self._schedule.start_times[output.graph_id]
+                    ) // self._schedule._schedule_time
                 else:
                     self._schedule.start_times[output.graph_id] = new_time
 
@@ -241,7 +244,15 @@ class Scheduler(ABC):
                         self._schedule._cyclic
                         and self._schedule._schedule_time is not None
                     ):
+                        old_time = self._schedule.start_times[output.graph_id]
                         self._schedule.move_operation(output.graph_id, -min_slack)
+                        time = self._schedule.start_times[output.graph_id]
+                        self._op_laps[output.graph_id] = self._op_laps.get(
+                            output.graph_id, 0
+                        ) + (
+                            (old_time - min_slack - time)
+                            // self._schedule._schedule_time
+                        )
                     else:
                         self._schedule.start_times[output.graph_id] = (
                             self._schedule.start_times[output.graph_id] - min_slack
@@ -276,6 +287,32 @@ class Scheduler(ABC):
             self._schedule.start_times[sink_op.graph_id] = self._schedule._schedule_time
             self._schedule.move_operation_asap(sink_op.graph_id)
 
+    def _update_laps(self, schedule_time: int | None = None) -> None:
+        """Set the laps of the signals based on the laps of the operations."""
+        if schedule_time is None:
+            schedule_time = self._schedule._schedule_time
+        for op in self._schedule._sfg.operations:
+            if isinstance(op, (Delay, DontCare, Sink)):
+                continue
+            lap = self._op_laps.get(op.graph_id, 0)
+            for input_port in op.inputs:
+                signal = input_port.signals[0]
+                source_port = cast(OutputPort, signal.source)
+                while isinstance(source_port.operation, Delay):
+                    source_port = cast(
+                        OutputPort, source_port.operation.input(0).signals[0].source
+                    )
+                source_op = source_port.operation
+                if isinstance(source_op, DontCare):
+                    continue
+                laps = lap - self._op_laps.get(source_op.graph_id, 0)
+                available_time = self._schedule.start_times[
+                    source_op.graph_id
+                ] + cast(int, source_port.latency_offset)
+                if available_time > schedule_time:
+                    laps -= 1
+                self._schedule._laps[signal.graph_id] = laps
+
 
 class ASAPScheduler(Scheduler):
     """
@@ -594,6 +631,7 @@ class ListScheduler(Scheduler):
 
         if self._schedule._schedule_time is None:
             self._schedule.set_schedule_time(self._schedule.get_max_end_time())
+        self._update_laps()
         self._schedule.remove_delays()
         self._handle_utility_operations()
         if self._sort_y_location:
@@ -968,7 +1006,8 @@ class ListScheduler(Scheduler):
                     next_op, self._current_time, self._op_laps
                 )
                 self._op_laps[next_op_id] = (
-                    (self._current_time) // self._schedule._schedule_time
+                    (self._current_time - self._schedule.start_times[next_op_id])
+                    // self._schedule._schedule_time
                     if self._schedule._schedule_time
                     else 0
                 )
@@ -1095,6 +1134,7 @@ class RecursiveListScheduler(ListScheduler):
         if self._schedule._schedule_time is None:
             self._schedule.set_schedule_time(self._schedule.get_max_end_time())
         period_bound = self._schedule._sfg.iteration_period_bound()
+        self._update_laps()
         self._schedule.remove_delays()
         if loops:
             if int(period_bound) != period_bound:
@@ -1289,42 +1329,43 @@ class RecursiveListScheduler(ListScheduler):
         sorted_table = sorted(priority_table, key=lambda row: row[1])
         return cast(Operation, self._schedule._sfg.find_by_id(sorted_table[0][0]))
 
-    def _pipeline_input_to_recursive_sections(self) -> None:
-        for op_id in self._recursive_ops:
-            op = cast(Operation, self._schedule._sfg.find_by_id(op_id))
-            for input_port in op.inputs:
-                signal = input_port.signals[0]
-                source_op = cast(OutputPort, signal.source).operation
-                if (
-                    not isinstance(source_op, Delay)
-                    and source_op.graph_id not in self._recursive_ops_set
-                ):
-                    # non-recursive to recursive edge found -> pipeline
-                    self._schedule.laps[signal.graph_id] += 1
+    def _pipeline_before_operation(self, op: Operation) -> None:
+        """Delay *op* and all scheduled operations depending on it one lap."""
+        stack = [op]
+        visited = set()
+        while stack:
+            op = stack.pop()
+            if op.graph_id in visited:
+                continue
+            visited.add(op.graph_id)
+            if op.graph_id in self._schedule.start_times:
+                self._op_laps[op.graph_id] += 1
+            stack.extend(
+                cast(InputPort, signal.destination).operation
+                for output_port in op.outputs
+                for signal in output_port.signals
+            )
+
+    def _get_scheduled_destinations(
+        self, output_port: OutputPort
+    ) -> list[tuple[InputPort, int]]:
+        """Return the scheduled inputs reading *output_port* and delays in between."""
+        res = []
+        stack = [(output_port, 0)]
+        while stack:
+            port, delays = stack.pop()
+            for signal in port.signals:
+                destination = cast(InputPort, signal.destination)
+                op = destination.operation
+                if isinstance(op, Delay):
+                    stack.append((op.output(0), delays + 1))
+                elif op.graph_id in self._schedule.start_times:
+                    res.append((destination, delays))
+        return res
 
     def _op_satisfies_data_dependencies(
         self, op: Operation, schedule_time: int
     ) -> bool:
-        for output_port in op.outputs:
-            destination_port = cast(InputPort, output_port.signals[0].destination)
-            destination_op = destination_port.operation
-            if destination_op.graph_id not in self._remaining_ops_set:
-                if isinstance(destination_op, (Delay, Output, Sink)):
-                    continue
-                # spotted a recursive operation -> check if ok
-                op_available_time = self._current_time + cast(
-                    int, output_port.latency_offset
-                )
-                usage_time = (
-                    self._schedule.start_times[destination_op.graph_id]
-                    + schedule_time
-                    * self._schedule.laps[output_port.signals[0].graph_id]
-                )
-                if op_available_time > usage_time:
-                    # constraint is not okay, move all recursive operations one lap by pipelining
-                    # across the non-recursive to recursive edge
-                    self._pipeline_input_to_recursive_sections()
-
         for op_input in op.inputs:
             source_port = cast(OutputPort, op_input.signals[0].source)
             source_op = source_port.operation
@@ -1340,6 +1381,25 @@ class RecursiveListScheduler(ListScheduler):
             required_time = self._current_time + cast(int, op_input.latency_offset)
             if available_time > required_time:
                 return False
+
+        if not schedule_time:
+            return True
+
+        # Leave room for retiming when the operation is placed in a later lap
+        lap = self._current_time // schedule_time
+        for output_port in op.outputs:
+            available_time = self._current_time + cast(int, output_port.latency_offset)
+            for destination, delays in self._get_scheduled_destinations(output_port):
+                # spotted a recursive operation -> check if ok
+                destination_op = destination.operation
+                while available_time > (
+                    self._schedule.start_times[destination_op.graph_id]
+                    + cast(int, destination.latency_offset)
+                    + schedule_time
+                    * (self._op_laps[destination_op.graph_id] + delays - lap)
+                ):
+                    # constraint is not okay, pipeline before the recursive operation
+                    self._pipeline_before_operation(destination_op)
         return True
 
 
@@ -1529,6 +1589,8 @@ class ILPScheduler(Scheduler):
                     break
 
         self._handle_utility_operations()
+        self._op_laps = {}
+        self._update_laps(max(Ts, self._max_time or Ts))
         schedule.remove_delays()
 
         if self._max_time is not None and self._max_time > Ts:
-- 
2.43.0


From ef21c1db50fc325c8195b54bae4d785ce2da7865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:16 +0000
Subject: [PATCH 26/83] fix: raise an error when operations can never be
 scheduled within the constraints

---
 lib/b_asic/scheduler.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/lib/b_asic/scheduler.py b/lib/b_asic/scheduler.py
index faef40e..957894b 100644
--- a/lib/b_asic/scheduler.py
+++ b/lib/b_asic/scheduler.py
@@ -988,8 +988,21 @@ class ListScheduler(Scheduler):
 
     def _schedule_nonrecursive_ops(self) -> None:
         log.debug("Non-recursive operation scheduling starting")
+        schedule_time = self._schedule._schedule_time or 0
+        waited_time = 0
         while self._remaining_ops:
             prio_table = self._get_priority_table(self._remaining_ops)
+            if not prio_table and self._current_time > self._get_latest_end_time():
+                # All scheduled operations are finished, so only the time slot within
+                # the schedule time can make a difference from now on
+                waited_time += 1
+                if waited_time > schedule_time:
+                    raise ValueError(
+                        "Not possible to schedule operations within the constraints: "
+                        f"{', '.join(self._remaining_ops)}."
+                    )
+            else:
+                waited_time = 0
             while prio_table:
                 next_op_id = self._get_next_op_id(prio_table)
                 next_op = self._schedule._sfg.find_by_id(next_op_id)
@@ -1039,6 +1052,22 @@ class ListScheduler(Scheduler):
         self._current_time -= 1
         log.debug("Non-recursive operation scheduling completed")
 
+    def _get_latest_end_time(self) -> int:
+        """Return when the last of the operations scheduled so far is finished."""
+        schedule_time = self._schedule._schedule_time or 0
+        end_time = 0
+        for op_id, start_time in self._schedule.start_times.items():
+            op = cast(Operation, self._schedule._sfg.find_by_id(op_id))
+            durations = [cast(int, output.latency_offset) for output in op.outputs]
+            durations.append(self._cached_execution_times[op_id] or 0)
+            end_time = max(
+                end_time,
+                start_time
+                + self._op_laps.get(op_id, 0) * schedule_time
+                + max(durations),
+            )
+        return end_time
+
     def _update_port_reads(self, next_op: Operation) -> None:
         for input_port in next_op.inputs:
             source_port = cast(OutputPort, input_port.signals[0].source)
-- 
2.43.0


From c304759157385a022c660df1ce038069997ef737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:16 +0000
Subject: [PATCH 27/83] fix: do not delay constants in the graph rebuilt from a
 schedule

---
 lib/b_asic/schedule.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/b_asic/schedule.py b/lib/b_asic/schedule.py
index d38388b..aac77b3 100644
--- a/lib/b_asic/schedule.py
+++ b/lib/b_asic/schedule.py
@@ -1107,6 +1107,9 @@ class Schedule:
             # if an operation lies across the scheduling time, place a delay after it
             source_port = port.signals[0].source
             source_op = source_port.operation
+            if isinstance(source_op, Constant):
+                # The value is the same in every iteration
+                continue
             source_port_start_time = self._start_times[source_op.graph_id]
             source_port_latency_offset = source_op.latency_offsets[
                 f"out{source_port.index}"
-- 
2.43.0


From ac6eabcbd4ab930cb22001c1c8e43927b535eba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:08 +0000
Subject: [PATCH 28/83] fix: list schedulers exceeded resource limits when
 executions continue in the next period

---
 lib/b_asic/schedule.py  | 13 ++++++++-----
 lib/b_asic/scheduler.py | 17 +++++++++++++++--
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/lib/b_asic/schedule.py b/lib/b_asic/schedule.py
index aac77b3..e98d9f1 100644
--- a/lib/b_asic/schedule.py
+++ b/lib/b_asic/schedule.py
@@ -1651,10 +1651,13 @@ class Schedule:
             if self._schedule_time is not None:
                 start_time %= self._schedule_time
             op = cast(Operation, self._sfg.find_by_id(other_op_id))
-            if (
-                time >= start_time
-                and time < start_time + cast(int, op.execution_time)
-                and isinstance(op, op_type)
-            ):
+            if not isinstance(op, op_type):
+                continue
+            execution_time = cast(int, op.execution_time)
+            if self._schedule_time:
+                # The execution may continue in (or after) the next iteration
+                elapsed_time = (time - start_time) % self._schedule_time
+                count += len(range(elapsed_time, execution_time, self._schedule_time))
+            elif start_time <= time < start_time + execution_time:
                 count += 1
         return count
diff --git a/lib/b_asic/scheduler.py b/lib/b_asic/scheduler.py
index 957894b..e9dd5d2 100644
--- a/lib/b_asic/scheduler.py
+++ b/lib/b_asic/scheduler.py
@@ -630,7 +630,7 @@ class ListScheduler(Scheduler):
             self._place_outputs_on_given_times()
 
         if self._schedule._schedule_time is None:
-            self._schedule.set_schedule_time(self._schedule.get_max_end_time())
+            self._schedule.set_schedule_time(self._get_shortest_schedule_time())
         self._update_laps()
         self._schedule.remove_delays()
         self._handle_utility_operations()
@@ -1052,6 +1052,19 @@ class ListScheduler(Scheduler):
         self._current_time -= 1
         log.debug("Non-recursive operation scheduling completed")
 
+    def _get_shortest_schedule_time(self) -> int:
+        """Return the time when all data is available and all operators are free."""
+        return max(
+            [self._schedule.get_max_end_time()]
+            + [
+                start_time + cast(int, op.execution_time)
+                for op_id, start_time in self._schedule.start_times.items()
+                if not isinstance(
+                    op := self._schedule._sfg.find_by_id(op_id), (Input, Output, Sink)
+                )
+            ]
+        )
+
     def _get_latest_end_time(self) -> int:
         """Return when the last of the operations scheduled so far is finished."""
         schedule_time = self._schedule._schedule_time or 0
@@ -1161,7 +1174,7 @@ class RecursiveListScheduler(ListScheduler):
             self._place_outputs_on_given_times()
 
         if self._schedule._schedule_time is None:
-            self._schedule.set_schedule_time(self._schedule.get_max_end_time())
+            self._schedule.set_schedule_time(self._get_shortest_schedule_time())
         period_bound = self._schedule._sfg.iteration_period_bound()
         self._update_laps()
         self._schedule.remove_delays()
-- 
2.43.0


From e55860bb0aaa62cb35a683ae6423e22029d8374e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:08 +0000
Subject: [PATCH 29/83] fix: recursive list scheduler did not honour the
 requested schedule time and given times

---
 lib/b_asic/scheduler.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/lib/b_asic/scheduler.py b/lib/b_asic/scheduler.py
index e9dd5d2..c001486 100644
--- a/lib/b_asic/scheduler.py
+++ b/lib/b_asic/scheduler.py
@@ -1162,6 +1162,7 @@ class RecursiveListScheduler(ListScheduler):
             ]
             self._remaining_ops_set = set(self._remaining_ops)
 
+        requested_schedule_time = self._schedule._schedule_time
         loops = self._schedule._sfg.loops
         if loops:
             log.debug("Scheduling recursive operations")
@@ -1182,7 +1183,12 @@ class RecursiveListScheduler(ListScheduler):
             if int(period_bound) != period_bound:
                 log.warning("Rational iteration period bound: %d", period_bound)
             log.debug("Retiming operations")
-            self._retime_ops(math.ceil(period_bound))
+            self._retime_ops(max(math.ceil(period_bound), requested_schedule_time or 0))
+            if requested_schedule_time not in (None, self._schedule._schedule_time):
+                raise ValueError(
+                    "Not possible to retime the schedule to the scheduling time "
+                    f"{requested_schedule_time}."
+                )
         self._handle_utility_operations()
         if self._sort_y_location:
             schedule.sort_y_locations_on_start_times()
@@ -1238,6 +1244,11 @@ class RecursiveListScheduler(ListScheduler):
                 time_required += 1
             time_goal = max(time_goal, time_required)
 
+        # operations with given times
+        fixed_ops = {*self._input_times, *self._output_delta_times}
+        if any(self._op_laps.get(op_id, 0) for op_id in fixed_ops):
+            return
+
         # retiming loop
         time_out_counter = 100
         while self._schedule._schedule_time > time_goal and time_out_counter > 0:
@@ -1249,7 +1260,7 @@ class RecursiveListScheduler(ListScheduler):
             # move all operations forward to the next valid step and check if period can be reduced
             for op_id in sorted_op_ids:
                 op = self._schedule._sfg.find_by_id(op_id)
-                if self._schedule.forward_slack(op_id):
+                if op_id not in fixed_ops and self._schedule.forward_slack(op_id):
                     delta = 1
                     delta_start_time = self._schedule._start_times[op_id] + delta
                     new_times = (
@@ -1289,7 +1300,9 @@ class RecursiveListScheduler(ListScheduler):
                 )
 
                 # adjust time if a gap exists on the left side of the schedule
-                slack = min(self._schedule._start_times.values())
+                slack = (
+                    min(self._schedule._start_times.values()) if not fixed_ops else 0
+                )
                 for other_op_id in sorted_op_ids:
                     op = cast(Operation, self._schedule._sfg.find_by_id(other_op_id))
                     max_end_time = 0
-- 
2.43.0


From 099eb466bc25c2964cd2ce1a73baf99b0bacda95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:08 +0000
Subject: [PATCH 30/83] fix: recursive list scheduler ignored data that passes
 delays between recursive operations

---
 lib/b_asic/scheduler.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/b_asic/scheduler.py b/lib/b_asic/scheduler.py
index c001486..d8227b9 100644
--- a/lib/b_asic/scheduler.py
+++ b/lib/b_asic/scheduler.py
@@ -1424,13 +1424,20 @@ class RecursiveListScheduler(ListScheduler):
         for op_input in op.inputs:
             source_port = cast(OutputPort, op_input.signals[0].source)
             source_op = source_port.operation
-            if isinstance(source_op, (Delay, DontCare)):
+            delays = 0
+            while isinstance(source_op, Delay):
+                source_port = cast(OutputPort, source_op.input(0).signals[0].source)
+                source_op = source_port.operation
+                delays += 1
+            if isinstance(source_op, DontCare):
                 continue
-            if source_op.graph_id in self._remaining_ops_set:
+            if source_op.graph_id not in self._schedule.start_times:
+                if delays:
+                    continue
                 return False
             available_time = (
                 self._schedule.start_times[source_op.graph_id]
-                + self._op_laps[source_op.graph_id] * schedule_time
+                + (self._op_laps[source_op.graph_id] - delays) * schedule_time
                 + cast(int, source_port.latency_offset)
             )
             required_time = self._current_time + cast(int, op_input.latency_offset)
-- 
2.43.0


From 98d4d138e2571496b8eaae1868f8df286bf1db2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:08 +0000
Subject: [PATCH 31/83] fix: honour output_times in the ASAP and list
 schedulers

---
 lib/b_asic/scheduler.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/lib/b_asic/scheduler.py b/lib/b_asic/scheduler.py
index d8227b9..d018838 100644
--- a/lib/b_asic/scheduler.py
+++ b/lib/b_asic/scheduler.py
@@ -276,6 +276,12 @@ class Scheduler(ABC):
                     )
         log.debug("Output placement optimization completed")
 
+    def _move_outputs_to_given_times(self) -> None:
+        for output_id, time in self._output_times.items():
+            self._schedule.move_operation(
+                output_id, time - self._schedule.start_time_of_operation(output_id)
+            )
+
     def _handle_utility_operations(self) -> None:
         for dc_op in self._schedule._sfg.find_by_type(DontCare):
             log.debug("Scheduling DontCare operation %s ALAP", dc_op.graph_id)
@@ -398,13 +404,14 @@ class ASAPScheduler(Scheduler):
             self._place_outputs_on_given_times()
         schedule.remove_delays()
 
-        max_end_time = schedule.get_max_end_time()
+        max_end_time = max([schedule.get_max_end_time(), *self._output_times.values()])
 
         if schedule._schedule_time is None:
             schedule.set_schedule_time(max_end_time)
         elif schedule._schedule_time < max_end_time:
             raise ValueError(f"Too short schedule time. Minimum is {max_end_time}.")
 
+        self._move_outputs_to_given_times()
         self._handle_utility_operations()
 
         if self._sort_y_location:
@@ -440,12 +447,7 @@ class ALAPScheduler(Scheduler):
         if self._output_delta_times:
             self._place_outputs_on_given_times()
 
-        if self._output_times:
-            for output_id, output_time in self._output_times.items():
-                self._schedule.move_operation(
-                    output_id,
-                    output_time - self._schedule.start_time_of_operation(output_id),
-                )
+        self._move_outputs_to_given_times()
 
         for input_op in schedule.sfg.find_by_type(Input):
             input_op = cast(Input, input_op)
@@ -630,9 +632,12 @@ class ListScheduler(Scheduler):
             self._place_outputs_on_given_times()
 
         if self._schedule._schedule_time is None:
-            self._schedule.set_schedule_time(self._get_shortest_schedule_time())
+            self._schedule.set_schedule_time(
+                max([self._get_shortest_schedule_time(), *self._output_times.values()])
+            )
         self._update_laps()
         self._schedule.remove_delays()
+        self._move_outputs_to_given_times()
         self._handle_utility_operations()
         if self._sort_y_location:
             schedule.sort_y_locations_on_start_times()
@@ -1175,7 +1180,9 @@ class RecursiveListScheduler(ListScheduler):
             self._place_outputs_on_given_times()
 
         if self._schedule._schedule_time is None:
-            self._schedule.set_schedule_time(self._get_shortest_schedule_time())
+            self._schedule.set_schedule_time(
+                max([self._get_shortest_schedule_time(), *self._output_times.values()])
+            )
         period_bound = self._schedule._sfg.iteration_period_bound()
         self._update_laps()
         self._schedule.remove_delays()
@@ -1189,6 +1196,7 @@ class RecursiveListScheduler(ListScheduler):
                     "Not possible to retime the schedule to the scheduling time "
                     f"{requested_schedule_time}."
                 )
+        self._move_outputs_to_given_times()
         self._handle_utility_operations()
         if self._sort_y_location:
             schedule.sort_y_locations_on_start_times()
-- 
2.43.0


From 6af13c80d3b03e17e685df1108d1dd91cb45bb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:38 +0000
Subject: [PATCH 32/83] fix: keep the cyclic nature of collections when
 splitting and assigning them

---
 lib/b_asic/resources.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/b_asic/resources.py b/lib/b_asic/resources.py
index 43376b1..9b80ec8 100644
--- a/lib/b_asic/resources.py
+++ b/lib/b_asic/resources.py
@@ -944,7 +944,9 @@ class ProcessCollection:
                 raise ValueError("ProcessCollection must only contain OperatorProcess.")
             type_name = process.operation.type_name()
             if type_name not in groups:
-                groups[type_name] = ProcessCollection([], self.schedule_time)
+                groups[type_name] = ProcessCollection(
+                    [], self.schedule_time, self._cyclic
+                )
             groups[type_name].add_process(process)
         return groups
 
@@ -2052,7 +2054,9 @@ class ProcessCollection:
 
         for process, cell in coloring.items():
             if cell not in cell_assignment:
-                cell_assignment[cell] = ProcessCollection([], self._schedule_time)
+                cell_assignment[cell] = ProcessCollection(
+                    [], self._schedule_time, self._cyclic
+                )
             cell_assignment[cell].add_process(process)
         return list(cell_assignment.values())
 
@@ -2097,7 +2101,9 @@ class ProcessCollection:
             )
         for process, cell in coloring.items():
             if cell not in cell_assignment:
-                cell_assignment[cell] = ProcessCollection([], self._schedule_time)
+                cell_assignment[cell] = ProcessCollection(
+                    [], self._schedule_time, self._cyclic
+                )
             cell_assignment[cell].add_process(process)
         return list(cell_assignment.values())
 
-- 
2.43.0


From 4dd572ef437f6c27961367b8a973e5536ad4b338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:38 +0000
Subject: [PATCH 33/83] fix: processing element bound of collections without
 execution times

---
 lib/b_asic/resources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/b_asic/resources.py b/lib/b_asic/resources.py
index 9b80ec8..8109886 100644
--- a/lib/b_asic/resources.py
+++ b/lib/b_asic/resources.py
@@ -2629,7 +2629,7 @@ class ProcessCollection:
         int
             The maximum number of concurrent executions times.
         """
-        return max(self.total_execution_times().values())
+        return max(self.total_execution_times().values(), default=0)
 
     def read_ports_bound(self) -> int:
         """
-- 
2.43.0


From ae3f1025e5fa739439ee15e111e7a5eccd116496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:38 +0000
Subject: [PATCH 34/83] fix: port limits in sequential splitting and exclusion
 graphs missed accesses of long-lived variables

---
 lib/b_asic/resources.py | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/lib/b_asic/resources.py b/lib/b_asic/resources.py
index 8109886..cfe5b72 100644
--- a/lib/b_asic/resources.py
+++ b/lib/b_asic/resources.py
@@ -865,8 +865,10 @@ class ProcessCollection:
                 read_time % self.schedule_time for read_time in node1.read_times
             }
             node1_start_time = node1.start_time % self.schedule_time
-            if total_ports == 1 and node1.start_time in node1_stop_times:
+            if total_ports == 1 and node1_start_time in node1_stop_times:
                 raise ValueError("Cannot read and write in same cycle.")
+            if len(node1_stop_times) < len(node1.read_times):
+                raise ValueError("Cannot read twice in same cycle.")
             for node2 in exclusion_graph:
                 if node1 == node2:
                     continue
@@ -1433,25 +1435,25 @@ class ProcessCollection:
         read_ports: int,
         total_ports: int,
     ) -> bool:
-        # Test the number of concurrent write accesses
-        collection_writes = defaultdict(int, collection.write_port_accesses())
-        if collection_writes[proc.start_time] >= write_ports:
-            return True
-
-        # Test the number of concurrent read accesses
-        collection_reads = defaultdict(int, collection.read_port_accesses())
-        for proc_read_time in proc.read_times:
-            if collection_reads[proc_read_time % self.schedule_time] >= read_ports:
-                return True
-
-        # Test the number of total accesses
-        collection_total_accesses = defaultdict(
-            int, Counter(collection_writes) + Counter(collection_reads)
+        T = self.schedule_time
+        collection_writes = Counter(collection.write_port_accesses())
+        collection_reads = Counter(collection.read_port_accesses())
+        proc_writes = Counter([proc.start_time % T])
+        proc_reads = Counter(read_time % T for read_time in proc.read_times)
+        proc_accesses = Counter([proc.start_time, *proc.read_times])
+
+        def exceeds(others: Counter, own: Counter, ports: int) -> bool:
+            # A process that alone needs more ports gets them to itself
+            return any(
+                others[time] and others[time] + count > ports
+                for time, count in own.items()
+            )
+
+        return (
+            exceeds(collection_writes, proc_writes, min(write_ports, total_ports))
+            or exceeds(collection_reads, proc_reads, min(read_ports, total_ports))
+            or exceeds(collection_writes + collection_reads, proc_accesses, total_ports)
         )
-        for access_time in [proc.start_time, *proc.read_times]:
-            if collection_total_accesses[access_time] >= total_ports:
-                return True
-        return False
 
     @staticmethod
     def _count_number_of_pes_read_from(
-- 
2.43.0


From 269571a93c98e352eef64f18f224dc89f63345a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:38 +0000
Subject: [PATCH 35/83] fix: read and write port limits were swapped when
 fitting processes into collections

---
 lib/b_asic/resources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/b_asic/resources.py b/lib/b_asic/resources.py
index cfe5b72..cdb97c9 100644
--- a/lib/b_asic/resources.py
+++ b/lib/b_asic/resources.py
@@ -1418,7 +1418,7 @@ class ProcessCollection:
         raise NotImplementedError
 
     def _get_process_fits_in_collection(
-        self, process, collections, write_ports, read_ports, total_ports
+        self, process, collections, read_ports, write_ports, total_ports
     ) -> list[bool]:
         return [
             not self._ports_collide(
-- 
2.43.0


From b53a6e8ae978a28f32ae4125aa48056db5dbaa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:38 +0000
Subject: [PATCH 36/83] fix: splitting into chains dropped reads with life time
 zero

---
 lib/b_asic/resources.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/resources.py b/lib/b_asic/resources.py
index cdb97c9..9d4c942 100644
--- a/lib/b_asic/resources.py
+++ b/lib/b_asic/resources.py
@@ -2460,14 +2460,15 @@ class ProcessCollection:
             K = max((L - 1) // T for L in all_reads.values()) + 1
 
             # Build chain in reverse so relay MemoryInputPort targets already exist.
-            # Each window k covers lifetimes in the range (k*T, (k+1)*T].
+            # Each window k covers lifetimes in the range (k*T, (k+1)*T]. Lifetimes
+            # of zero belong to the first window.
             chain: list[MemoryVariable] = []
             for k in range(K - 1, -1, -1):
                 write_time = (S + k * T) % self.schedule_time
                 reads_k: dict = {
                     port: L - k * T
                     for port, L in all_reads.items()
-                    if k == (L - 1) // T
+                    if k == max((L - 1) // T, 0)
                 }
                 if k < K - 1:
                     # chain[0] is chain[k+1] since we prepend each iteration
-- 
2.43.0


From 7126b4be58ace2c0e40fc0673e279845c5dc7e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:38 +0000
Subject: [PATCH 37/83] fix: forward-backward allocation lost outputs of
 variables read when written and later, and mishandled life times over a
 period

---
 lib/b_asic/resources.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/resources.py b/lib/b_asic/resources.py
index 9d4c942..593dc31 100644
--- a/lib/b_asic/resources.py
+++ b/lib/b_asic/resources.py
@@ -279,6 +279,13 @@ class _ForwardBackwardTable:
         collection : ProcessCollection
             ProcessCollection to apply forward-backward allocation on.
         """
+        for mv in collection:
+            if mv.execution_time > collection.schedule_time:
+                raise ValueError(
+                    f"{mv} has execution time greater than the schedule time."
+                    " Call ProcessCollection.split_into_chains() first"
+                )
+
         # Generate an alive variable list
         self._collection = set(collection.collection)
         self._live_variables: list[int] = [0] * collection.schedule_time
@@ -307,7 +314,8 @@ class _ForwardBackwardTable:
             self.table[mv.start_time].inputs.append(mv)
             if mv.execution_time:
                 self.table[(mv.start_time + 1) % collection.schedule_time].regs[0] = mv
-            else:
+            if mv.start_time in mv.read_times:
+                # Read in the same cycle as it is written
                 self.table[mv.start_time].outputs.append(mv)
                 self.table[mv.start_time].outputs_from = -1
 
-- 
2.43.0


From 8418526a5476b6fc2ad66db7d0fec6ecead44eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:16 +0000
Subject: [PATCH 38/83] fix: ILP scheduler did not keep the requested distances
 between outputs

---
 lib/b_asic/scheduler.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/b_asic/scheduler.py b/lib/b_asic/scheduler.py
index d018838..8c0f158 100644
--- a/lib/b_asic/scheduler.py
+++ b/lib/b_asic/scheduler.py
@@ -1585,6 +1585,18 @@ class ILPScheduler(Scheduler):
             for input_id, input_time in self._input_times.items():
                 problem += X[schedule._sfg.find_by_id(input_id)][input_time] == 1
 
+        # Keep the requested distances between the outputs
+        delta_times = [
+            pulp.lpSum(
+                time * X[schedule._sfg.find_by_id(output_id)][time]
+                for time in range(LB[output_id], UB[output_id] + 1)
+            )
+            - delta_time
+            for output_id, delta_time in self._output_delta_times.items()
+        ]
+        for delta_time in delta_times[1:]:
+            problem += delta_time == delta_times[0]
+
         if self._output_times:
             for output_id, output_time in self._output_times.items():
                 output_op = schedule._sfg.find_by_id(output_id)
-- 
2.43.0


From 1b391fe02d94ea20b8791e706215ac27d70eeeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 39/83] fix: connecting a signal that is refused changed its
 other ends

---
 lib/b_asic/signal.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/signal.py b/lib/b_asic/signal.py
index b0da421..6a54a6e 100644
--- a/lib/b_asic/signal.py
+++ b/lib/b_asic/signal.py
@@ -56,7 +56,11 @@ class Signal(AbstractGraphComponent):
         if source is not None:
             self.set_source(source)
         if destination is not None:
-            self.set_destination(destination)
+            try:
+                self.set_destination(destination)
+            except (TypeError, ValueError):
+                self.remove_source()
+                raise
         self.set_param("bits", bits)
 
     @classmethod
@@ -119,6 +123,8 @@ class Signal(AbstractGraphComponent):
             new_source = source
 
         if new_source is not self._source:
+            if new_source is None:
+                raise ValueError("Cannot use the source of an unconnected signal.")
             self.remove_source()
             self._source = new_source
             if self not in new_source.signals:
@@ -153,6 +159,10 @@ class Signal(AbstractGraphComponent):
             new_destination = destination
 
         if new_destination is not self._destination:
+            if new_destination is None:
+                raise ValueError("Cannot use the destination of an unconnected signal.")
+            if new_destination.signals and self not in new_destination.signals:
+                raise ValueError("Cannot connect already connected input port.")
             self.remove_destination()
             self._destination = new_destination
             if self not in new_destination.signals:
-- 
2.43.0


From e34f7e75d709dfa5346037bc058dfec125a316dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 40/83] fix: constructing an operation from an invalid source
 left it half connected

---
 lib/b_asic/operation.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/operation.py b/lib/b_asic/operation.py
index 08db846..3e4a145 100644
--- a/lib/b_asic/operation.py
+++ b/lib/b_asic/operation.py
@@ -491,13 +491,18 @@ class AbstractOperation(Operation, AbstractGraphComponent):
                     "Wrong number of input sources supplied to Operation"
                     f" (expected {input_count}, got {source_count})"
                 )
-            for i, src in enumerate(input_sources):
+            # Find all sources before connecting any of them
+            sources = [
+                src if src is None or isinstance(src, Signal) else src.source
+                for src in input_sources
+            ]
+            for i, src in enumerate(sources):
                 if src is not None:
                     if isinstance(src, Signal):
                         # Already existing signal
                         src.set_destination(self._input_ports[i])
                     else:
-                        self._input_ports[i].connect(src.source)
+                        self._input_ports[i].connect(src)
 
         # Set specific latency_offsets
         if latency_offsets is not None:
-- 
2.43.0


From 4b26fee06ad44d8c87149bd8101707a83308591e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 41/83] fix: graph id generators without a given set shared
 their used ids

---
 lib/b_asic/sfg.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 40f17ce..1a5cfb9 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -73,12 +73,17 @@ class GraphIDGenerator:
         offset = state["id_number_offset"]
         self._next_id_number = defaultdict(lambda: offset, state["next_id_numbers"])
 
-    def next_id(self, type_name: TypeName, used_ids: MutableSet = set()) -> GraphID:  # noqa: B006
+    def next_id(
+        self, type_name: TypeName, used_ids: MutableSet | None = None
+    ) -> GraphID:
         """Get the next graph id for a certain graph id type."""
+        if used_ids is None:
+            used_ids = set()
         new_id = type_name + str(self._next_id_number[type_name])
         while new_id in used_ids:
             self._next_id_number[type_name] += 1
             new_id = type_name + str(self._next_id_number[type_name])
+        self._next_id_number[type_name] += 1
         used_ids.add(GraphID(new_id))
         return GraphID(new_id)
 
-- 
2.43.0


From 1b5a8020b06a07e666348f3bb7eaaa64207b180f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 42/83] fix: finding components by type name also returned
 types the name is a prefix of

---
 lib/b_asic/sfg.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 1a5cfb9..11476bb 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -7,7 +7,6 @@ Contains the signal flow graph operation.
 import inspect
 import itertools
 import math
-import re
 import warnings
 from collections import Counter, defaultdict, deque
 from collections.abc import Iterable, MutableSet, Sequence
@@ -632,9 +631,11 @@ class SFG(AbstractOperation):
         type_name : TypeName
             The TypeName of the desired components.
         """
-        reg = f"{type_name}[0-9]+"
-        p = re.compile(reg)
-        return [val for key, val in self._components_by_id.items() if p.match(key)]
+        return [
+            comp
+            for comp in self._components_by_id.values()
+            if comp.type_name() == type_name
+        ]
 
     def find_by_type(
         self, component_type: type[GraphComponent]
-- 
2.43.0


From b20391ffde184b447c730d4ef869caf241d0ed68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 43/83] fix: topological order repeated or lost operations, and
 failed without inputs

---
 lib/b_asic/sfg.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 11476bb..fa6f943 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -1356,17 +1356,12 @@ class SFG(AbstractOperation):
         seen = set()
         top_order = []
 
-        if len(no_inputs_queue) == 0:
-            raise ValueError("Illegal SFG state, dangling signals in SFG.")
-
-        first_op = no_inputs_queue.popleft()
-        visited = {first_op}
+        visited = set()
+        # Negative priority as max-heap popping is wanted
         p_queue = PriorityQueue()
         p_queue_entry_num = itertools.count()
-        # Negative priority as max-heap popping is wanted
-        p_queue.put((-first_op.output_count, -next(p_queue_entry_num), first_op))
 
-        operations_left = len(self.operations) - 1
+        operations_left = len(self.operations)
 
         seen_but_not_visited_count = 0
 
@@ -1384,6 +1379,9 @@ class SFG(AbstractOperation):
                         remaining_inports = remaining_inports_per_operation[neighbor_op]
 
                         if remaining_inports == 0:
+                            if neighbor_op in seen:
+                                seen_with_inputs_dict[1].remove(neighbor_op)
+                                seen_but_not_visited_count -= 1
                             p_queue.put(
                                 (
                                     -neighbor_op.output_count,
@@ -1432,8 +1430,20 @@ class SFG(AbstractOperation):
                             )
                             seen_but_not_visited_count -= 1
                             break
+                # Else fetch from a part of the SFG that no input reaches, preferably
+                # a Delay
                 else:
-                    raise RuntimeError("Disallowed structure in SFG detected")
+                    new_op = min(
+                        (op for op in self.operations if op not in visited),
+                        key=lambda op: not isinstance(op, Delay),
+                    )
+                    p_queue.put(
+                        (
+                            -new_op.output_count,
+                            -next(p_queue_entry_num),
+                            new_op,
+                        )
+                    )
 
         self._operations_topological_order = top_order
         return self._operations_topological_order
-- 
2.43.0


From b4e7be987b7b28fe6880144cfdcf9377538aa597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 44/83] fix: loops without inputs were not found; iteration
 period bound mixed latencies of operations of a type

---
 lib/b_asic/sfg.py | 56 +++++++++++++++++------------------------------
 1 file changed, 20 insertions(+), 36 deletions(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index fa6f943..879c1e2 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -2296,28 +2296,25 @@ class SFG(AbstractOperation):
         if not loops:
             return Fraction(-1)
 
-        op_and_latency = {}
+        # Used for operations for which no latency is set
+        type_latency: dict[TypeName, int] = {}
         for op in self.operations:
-            for loop in loops:
-                for _ in loop:
-                    if op.type_name() not in op_and_latency:
-                        op_and_latency[op.type_name()] = op.latency
-        t_l_values = []
+            if None not in op.latency_offsets.values():
+                type_latency.setdefault(op.type_name(), op.latency)
 
+        t_l_values = []
         for loop in loops:
-            loop.pop()
-            time_of_loop = 0
-            number_of_t_in_loop = 0
-            for element in loop:
-                if isinstance(self.find_by_id(element), Delay):
-                    number_of_t_in_loop += 1
-                for key, item in op_and_latency.items():
-                    if key in element:
-                        time_of_loop += item
-            if number_of_t_in_loop in (0, 1):
-                t_l_values.append(Fraction(time_of_loop, 1))
-            else:
-                t_l_values.append(Fraction(time_of_loop, number_of_t_in_loop))
+            # The first operation is repeated at the end of the loop
+            ops = [cast(Operation, self.find_by_id(op_id)) for op_id in loop[:-1]]
+            time_of_loop = sum(
+                type_latency[op.type_name()]
+                if None in op.latency_offsets.values()
+                and op.type_name() in type_latency
+                else op.latency
+                for op in ops
+            )
+            number_of_t_in_loop = sum(isinstance(op, Delay) for op in ops)
+            t_l_values.append(Fraction(time_of_loop, max(number_of_t_in_loop, 1)))
         return max(t_l_values)
 
     @property
@@ -2329,26 +2326,13 @@ class SFG(AbstractOperation):
         -------
         A list of the recursive loops.
         """
-        if not self.input_count:
-            return []
         graph: nx.DiGraph = nx.DiGraph()
-        queue: deque[Operation] = deque(self._input_operations)
-        visited: set[Operation] = set(self._input_operations)
-        while queue:
-            op = queue.popleft()
+        for op in self.operations:
             for output_port in op.outputs:
                 for signal in output_port.signals:
-                    if signal.destination is not None:
-                        new_op = signal.destination.operation
-                        if not isinstance(op, (Input, Output)) and not isinstance(
-                            new_op, Output
-                        ):
-                            graph.add_edge(op.graph_id, new_op.graph_id)
-                        if new_op not in visited:
-                            queue.append(new_op)
-                            visited.add(new_op)
-                    else:
-                        raise ValueError("Destination for {signal!r} does not exist")
+                    if signal.destination is None:
+                        raise ValueError(f"Destination for {signal!r} does not exist")
+                    graph.add_edge(op.graph_id, signal.destination.operation.graph_id)
         cycles = []
         for cycle in nx.simple_cycles(graph):
             min_idx = cycle.index(min(cycle))
-- 
2.43.0


From c3410e2d332f08eb69945d90b6f593762cbcd0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 45/83] fix: rewriting and joining operations failed for graphs
 with another id, or wired one input twice

---
 lib/b_asic/sfg.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 879c1e2..70b13e4 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -2582,6 +2582,7 @@ class SFG(AbstractOperation):
             func_name = f"_rewrite_{source.__name__}"
             if hasattr(op, func_name):
                 sub_sfg = getattr(op, func_name)()
+                sub_sfg.graph_id = op.graph_id
                 new_sfg = new_sfg.replace(op.graph_id, sub_sfg)
             else:
                 warnings.warn(
@@ -2592,6 +2593,7 @@ class SFG(AbstractOperation):
                 func_name = f"_from_{type(op).__name__}"
                 if hasattr(source, func_name):
                     sub_sfg = getattr(source, func_name)(op)
+                    sub_sfg.graph_id = op.graph_id
                     new_sfg = new_sfg.replace(op.graph_id, sub_sfg)
                 else:
                     warnings.warn(
@@ -2603,7 +2605,7 @@ class SFG(AbstractOperation):
             if not isinstance(sub_sfg, SFG):
                 continue
 
-            new_sfg.find_by_id("sfg0").connect_external_signals_to_components()
+            new_sfg.find_by_id(op.graph_id).connect_external_signals_to_components()
             new_sfg = new_sfg()
 
         return new_sfg()
@@ -2688,12 +2690,24 @@ class SFG(AbstractOperation):
                 raise ValueError(
                     "Can only join forward if the operation has exactly one output"
                 )
+            dest_ops = [sig.destination_operation for sig in op.output(0).signals]
+            if len(set(dest_ops)) != len(dest_ops):
+                raise ValueError(
+                    f"Cannot join {target} with several inputs of the same operation"
+                )
             for sig in op.output(0).signals:
                 dest_op = sig.destination_operation
                 if hasattr(op, "_join"):
                     joined_op = op._join(dest_op, sig.destination.index)
+                    if joined_op is None:
+                        raise ValueError(
+                            f"Cannot join {target} with {dest_op.graph_id}"
+                        )
+                    joined_op.graph_id = dest_op.graph_id
                     new_sfg = new_sfg.replace(dest_op.graph_id, joined_op)
-                    new_sfg.find_by_id("sfg0").connect_external_signals_to_components()
+                    new_sfg.find_by_id(
+                        dest_op.graph_id
+                    ).connect_external_signals_to_components()
                     new_sfg = new_sfg()
             new_sfg = new_sfg.remove_operation(target)
         elif direction == "backward":
-- 
2.43.0


From d2e16437eea04fab549e1067909b9ffd8896de69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 46/83] fix: printed forms of constants and differences of
 generators denoted others; files with one value

---
 lib/b_asic/signal_generator.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/signal_generator.py b/lib/b_asic/signal_generator.py
index f1c92e5..60ab2fd 100644
--- a/lib/b_asic/signal_generator.py
+++ b/lib/b_asic/signal_generator.py
@@ -151,6 +151,9 @@ class Constant(SignalGenerator):
     def __str__(self) -> str:
         return f"{self._constant}"
 
+    def __repr__(self) -> str:
+        return f"Constant({self._constant})"
+
 
 class ZeroPad(SignalGenerator):
     """
@@ -200,7 +203,7 @@ class FromFile(SignalGenerator):
 
     def __init__(self, path: str) -> None:
         self._path = path
-        data: list[Num] = np.loadtxt(path, dtype=complex).tolist()
+        data: list[Num] = np.loadtxt(path, dtype=complex, ndmin=1).tolist()
         self._data = data
         self._len = len(data)
 
@@ -408,7 +411,12 @@ class _SubGenerator(SignalGenerator):
         return self._a(time) - self._b(time)
 
     def __repr__(self) -> str:
-        return f"{self._a} - {self._b}"
+        b = (
+            f"({self._b})"
+            if isinstance(self._b, (_AddGenerator, _SubGenerator))
+            else f"{self._b}"
+        )
+        return f"{self._a} - {b}"
 
 
 class _MulGenerator(SignalGenerator):
-- 
2.43.0


From 18d4b148ed83609a6edc69282e3834b0a8660acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 47/83] fix: negations and constants did not follow the data
 type, imaginary multiplication lost its sign

---
 lib/b_asic/core_operations.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/lib/b_asic/core_operations.py b/lib/b_asic/core_operations.py
index c02aab6..7df40cc 100644
--- a/lib/b_asic/core_operations.py
+++ b/lib/b_asic/core_operations.py
@@ -11,7 +11,6 @@ import apytypes as apy
 from numpy import abs as np_abs
 from numpy import conjugate, sqrt
 
-from b_asic.data_type import NumRepresentation
 from b_asic.graph_component import Name, TypeName
 from b_asic.operation import AbstractOperation
 from b_asic.port import SignalSourceProvider
@@ -63,9 +62,7 @@ class Constant(AbstractOperation):
         return TypeName("c")
 
     def evaluate(self, data_type=None) -> Num:
-        if data_type is not None:
-            return apy.fx(self.param("value"), data_type.wl[0], data_type.wl[1])
-        return self.param("value")
+        return self._cast_to_data_type(self.param("value"), data_type)
 
     @property
     def value(self) -> Num:
@@ -182,12 +179,7 @@ class Negation(AbstractOperation):
         return f"-{inputs[0]}"
 
     def evaluate(self, a, data_type=None) -> Num:
-        if data_type is not None:
-            if data_type.num_repr == NumRepresentation.FLOATING_POINT:
-                return apy.fp(-a, data_type.wl[0], data_type.wl[1])
-            elif data_type.num_repr == NumRepresentation.FIXED_POINT:
-                return apy.fx(-a, data_type.wl[0], data_type.wl[1])
-        return -a
+        return self._cast_to_data_type(-a, data_type)
 
 
 class Addition(AbstractOperation):
@@ -1599,7 +1591,10 @@ class ImaginaryMultiplication(AbstractOperation):
         return f"{inputs[0]} * j"
 
     def evaluate(self, a, data_type=None) -> Num:
-        res = a * 1j
+        if isinstance(a, apy.APyCFixed):
+            res = a * apy.fx(1j, 2, 0)
+        else:
+            res = a * 1j
         return self._cast_to_data_type(res, data_type)
 
     def _join(self, other: "AbstractOperation", port: int = 1) -> Union["SFG", None]:
-- 
2.43.0


From 6dfc3cc1799963c672111747d699413ba5f49a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 48/83] fix: unbiased magnitude truncation was not quantized

---
 lib/b_asic/quantization.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/quantization.py b/lib/b_asic/quantization.py
index 0460398..566427f 100644
--- a/lib/b_asic/quantization.py
+++ b/lib/b_asic/quantization.py
@@ -188,7 +188,10 @@ def _quantize_real(
         v = math.floor(v)
     elif quantization_mode is QuantizationMode.ROUNDING:
         v = math.floor(v + 0.5)
-    elif quantization_mode is QuantizationMode.MAGNITUDE_TRUNCATION:
+    elif quantization_mode in (
+        QuantizationMode.MAGNITUDE_TRUNCATION,
+        QuantizationMode.UNBIASED_MAGNITUDE_TRUNCATION,
+    ):
         v = math.floor(v) if v >= 0 else math.ceil(v)
     elif quantization_mode is QuantizationMode.JAMMING:
         v = math.floor(v) | 1
@@ -198,7 +201,7 @@ def _quantize_real(
         f = math.floor(v)
         v = f if v - f == 0 else f | 1
     else:
-        raise TypeError("Unknown quantization method: {quantization!r}")
+        raise TypeError(f"Unknown quantization method: {quantization_mode!r}")
 
     v = v / b
     i = 2 ** (integer_bits - 1)
-- 
2.43.0


From 881e2656a27c1a10f1a74b89e894b89af18cdfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 49/83] fix: symmetric FIR filters of odd length lost their
 middle tap

---
 lib/b_asic/sfg_generators/digital_filters.py | 21 +++++++++-----------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/lib/b_asic/sfg_generators/digital_filters.py b/lib/b_asic/sfg_generators/digital_filters.py
index 28fcc7c..d868b4d 100644
--- a/lib/b_asic/sfg_generators/digital_filters.py
+++ b/lib/b_asic/sfg_generators/digital_filters.py
@@ -77,21 +77,18 @@ def fir(
             for i in range(taps // 2)
         ]
 
-        if taps == 1:
-            muls = [
-                ConstantMultiplication(coefficients[0], input_op, **mult_properties)
-            ]
-        else:
-            muls = [
-                ConstantMultiplication(
-                    coefficients[i], add_layer_1[i], **mult_properties
-                )
-                for i in range(taps // 2)
-            ]
+        if taps % 2:
+            # The middle tap has no counterpart
+            add_layer_1.append(delays[taps // 2])
+
+        muls = [
+            ConstantMultiplication(np_coefficients[i], op, **mult_properties)
+            for i, op in enumerate(add_layer_1)
+        ]
 
         previous_op = muls[0]
         add_layer_2 = []
-        for i in range(taps // 2 - 1):
+        for i in range(len(muls) - 1):
             add_layer_2.append(Addition(previous_op, muls[i + 1], **add_properties))
             previous_op = add_layer_2[-1]
 
-- 
2.43.0


From a9156c78105c9290116f5a266abf31ed8314008b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 50/83] fix: matrix multiplication named inputs by column and
 row

---
 lib/b_asic/sfg_generators/matrix_operations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/sfg_generators/matrix_operations.py b/lib/b_asic/sfg_generators/matrix_operations.py
index b335b99..9804fff 100644
--- a/lib/b_asic/sfg_generators/matrix_operations.py
+++ b/lib/b_asic/sfg_generators/matrix_operations.py
@@ -46,8 +46,8 @@ def matrix_multiplication(
     if mad_properties is None:
         mad_properties = {}
 
-    A = [[Input(f"A[{i},{j}]") for i in range(n)] for j in range(m)]
-    B = [[Input(f"B[{i},{j}]") for i in range(p)] for j in range(n)]
+    A = [[Input(f"A[{i},{j}]") for j in range(n)] for i in range(m)]
+    B = [[Input(f"B[{i},{j}]") for j in range(p)] for i in range(n)]
 
     C = []
     for i in range(m):
-- 
2.43.0


From fd3982e317f718d22a3d43a9c7837f40f5bbcab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 51/83] fix: allpass sections with a zero first coefficient
 were miswired

---
 lib/b_asic/sfg_generators/wave_digital_filters.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/sfg_generators/wave_digital_filters.py b/lib/b_asic/sfg_generators/wave_digital_filters.py
index fdb85a3..3815021 100644
--- a/lib/b_asic/sfg_generators/wave_digital_filters.py
+++ b/lib/b_asic/sfg_generators/wave_digital_filters.py
@@ -127,9 +127,12 @@ def wdf_allpass(
                 latency_offsets=latency_offsets,
                 execution_time=execution_time,
             )
-            Signal(adaptor2.output(0), adaptor1.input(1))
             Signal(adaptor2.output(1), delay2)
-            signal_out = Signal(adaptor1.output(0))
+            if np_coefficients[idx1]:
+                Signal(adaptor2.output(0), adaptor1.input(1))
+                signal_out = Signal(adaptor1.output(0))
+            else:
+                signal_out = Signal(adaptor2.output(0))
         else:
             delay2 = Delay(delay1, name=_tname(idx2))
             if np_coefficients[idx1]:
-- 
2.43.0


From 183275fc3b94f1c74cdd184ac241ef103dd151b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:41 +0000
Subject: [PATCH 52/83] fix: state space and impulse responses depended on
 initial values, and missed delays of nested graphs

---
 lib/b_asic/sfg.py         | 15 ++++++++---
 lib/b_asic/state_space.py | 57 ++++++++++-----------------------------
 2 files changed, 26 insertions(+), 46 deletions(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 70b13e4..52cf65d 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -2740,6 +2740,13 @@ class SFG(AbstractOperation):
         sorted(ret)
         return ret
 
+    def _get_delay_keys(self, prefix: str = "") -> list[str]:
+        """Return the simulation keys of all delays, including nested SFGs."""
+        keys = [prefix + op.graph_id for op in self.find_by_type(Delay)]
+        for op in self.find_by_type(SFG):
+            keys += op._get_delay_keys(f"{prefix}{op.graph_id}.")
+        return keys
+
     def _output_ports_decayed(
         self, op: Operation, sim: "Simulation", threshold: float
     ) -> bool:
@@ -2858,7 +2865,7 @@ class SFG(AbstractOperation):
 
         # For each source node, apply impulse and record responses at target nodes
         impulse_responses = {}
-        ops_to_check = self._output_operations + self.find_by_type(Delay)
+        delay_keys = self._get_delay_keys()
         for source_op in source_nodes:
             # Create impulse inputs -- impulse on this source, zero on others
             impulse_inputs = [
@@ -2866,6 +2873,8 @@ class SFG(AbstractOperation):
                 for inp_op in self.input_operations
             ]
             sim = Simulation(self, impulse_inputs)
+            # The responses are for zero initial state
+            sim._delays = dict.fromkeys(delay_keys, 0)
             # If the source is a delay, initialize its state to 1
             if isinstance(source_op, Delay):
                 sim._delays[source_op.graph_id] = 1
@@ -2880,8 +2889,8 @@ class SFG(AbstractOperation):
                 if iteration > 1:
                     all_decayed = all(
                         self._output_ports_decayed(op, sim, threshold)
-                        for op in ops_to_check
-                    )
+                        for op in self._output_operations
+                    ) and all(abs(sim._delays[key]) <= threshold for key in delay_keys)
                     if all_decayed:
                         break
 
diff --git a/lib/b_asic/state_space.py b/lib/b_asic/state_space.py
index 605c897..165cbf7 100644
--- a/lib/b_asic/state_space.py
+++ b/lib/b_asic/state_space.py
@@ -77,14 +77,15 @@ class StateSpace:
         -------
         The State-space representation of the SFG.
         """
-        from b_asic.special_operations import Delay  # noqa: PLC0415
+        from b_asic.signal_generator import Impulse  # noqa: PLC0415
+        from b_asic.simulation import Simulation  # noqa: PLC0415
 
         if not sfg.is_linear:
             raise ValueError(
                 "SFG must be linear to generate state-space representation"
             )
 
-        delays = list(sfg.find_by_type(Delay))
+        delays = sfg._get_delay_keys()
         inputs = list(sfg.input_operations)
         outputs = list(sfg.output_operations)
 
@@ -97,51 +98,21 @@ class StateSpace:
         C = np.zeros((n_outputs, n_states), dtype=complex)
         D = np.zeros((n_outputs, n_inputs), dtype=complex)
 
-        if n_states > 0:
-            responses_dd = sfg._get_impulse_responses_between_nodes(
-                delays, delays, max_iters=2
+        # Simulate one iteration from each unit state and each unit input
+        for col_idx, source in enumerate([*delays, *inputs]):
+            sim = Simulation(sfg, [Impulse() if op is source else None for op in inputs])
+            sim._delays = {key: 1 if key is source else 0 for key in delays}
+            results = sim.run_for(1)
+            next_state, outs, col = (
+                (A, C, col_idx)
+                if col_idx < n_states
+                else (B, D, col_idx - n_states)
             )
-            cls._populate_matrix_from_responses(
-                A, delays, delays, responses_dd, time_index=1
-            )
-
-            responses_id = sfg._get_impulse_responses_between_nodes(
-                inputs, delays, max_iters=2
-            )
-            cls._populate_matrix_from_responses(
-                B, delays, inputs, responses_id, time_index=1
-            )
-
-            responses_do = sfg._get_impulse_responses_between_nodes(
-                delays, outputs, max_iters=1
-            )
-            cls._populate_matrix_from_responses(
-                C, outputs, delays, responses_do, time_index=0
-            )
-
-        responses_io = sfg._get_impulse_responses_between_nodes(
-            inputs, outputs, max_iters=1
-        )
-        cls._populate_matrix_from_responses(
-            D, outputs, inputs, responses_io, time_index=0
-        )
+            next_state[:, col] = [sim._delays[key] for key in delays]
+            outs[:, col] = results
 
         return cls(A, B, C, D)
 
-    @staticmethod
-    def _populate_matrix_from_responses(
-        matrix: npt.NDArray,
-        row_ops: list,
-        col_ops: list,
-        responses: dict,
-        time_index: int,
-    ) -> None:
-        for col_idx, col_op in enumerate(col_ops):
-            for row_idx, row_op in enumerate(row_ops):
-                response = responses[(col_op.graph_id, row_op.graph_id)]
-                if len(response) > time_index:
-                    matrix[row_idx, col_idx] = response[time_index]
-
     @property
     def equations(self) -> tuple:
         r"""
-- 
2.43.0


From 1d40ef3bc883d628fb5c22c4a710c6b49f7d71c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:41 +0000
Subject: [PATCH 53/83] fix: impulse responses from nodes tried constants as
 sources

---
 lib/b_asic/sfg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 52cf65d..aca0251 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -2950,7 +2950,7 @@ class SFG(AbstractOperation):
             to a dictionary that maps operation GraphIDs to their corresponding
             impulse responses.
         """
-        from b_asic.core_operations import Addition  # noqa: PLC0415
+        from b_asic.core_operations import Addition, Constant  # noqa: PLC0415
         from b_asic.utility_operations import DontCare, Sink  # noqa: PLC0415
 
         if not self.is_linear:
@@ -2961,7 +2961,7 @@ class SFG(AbstractOperation):
             nodes = [
                 op
                 for op in sfg_copy.operations
-                if not isinstance(op, (Input, Output, DontCare, Sink, Delay))
+                if not isinstance(op, (Input, Output, Constant, DontCare, Sink, Delay))
             ]
         else:
             nodes = [
-- 
2.43.0


From 13fb8396347cf7494f68ccac22f6c711e5ba9d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:41 +0000
Subject: [PATCH 54/83] fix: l2 norm of complex impulse responses used their
 square instead of its magnitude

---
 lib/b_asic/sfg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index aca0251..ef2ac3d 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -2846,7 +2846,7 @@ class SFG(AbstractOperation):
             threshold=threshold, max_iters=max_iters, all_nodes=all_nodes
         )
         return {
-            key: float(np.sqrt(sum(np.sum(h**2) for h in responses)))
+            key: float(np.sqrt(sum(np.sum(np.abs(h) ** 2) for h in responses)))
             for key, responses in impulse_responses.items()
         }
 
-- 
2.43.0


From 43a99fbba89323cf3a0e5ed8db0a1fe8875208aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:41 +0000
Subject: [PATCH 55/83] fix: transfer function of graphs without states and
 several outputs failed

---
 lib/b_asic/state_space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/b_asic/state_space.py b/lib/b_asic/state_space.py
index 165cbf7..43a2d95 100644
--- a/lib/b_asic/state_space.py
+++ b/lib/b_asic/state_space.py
@@ -179,7 +179,7 @@ class StateSpace:
                 den = 1
 
             if (B_col.size == 0) and (self.C.size == 0):
-                num = np.ravel(D_col)
+                num = D_col
                 if (D_col.size == 0) and (self.A.size == 0):
                     den = []
             else:
-- 
2.43.0


From ba2b498ba4ef5f4e657c75f49c14a581f8a8f04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:41 +0000
Subject: [PATCH 56/83] fix: gain of strictly proper or complex transfer
 functions was zero or failed

---
 lib/b_asic/transfer_function.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/b_asic/transfer_function.py b/lib/b_asic/transfer_function.py
index 281eb9a..a944db8 100644
--- a/lib/b_asic/transfer_function.py
+++ b/lib/b_asic/transfer_function.py
@@ -150,16 +150,19 @@ class TransferFunction:
         for input_key, num in self.numerator.items():
             if num.ndim == 2:
                 zeros = [np.roots(num[k]) for k in range(num.shape[0])]
-                gains = [
-                    float(num[k, 0] / den0) if num.shape[1] > 0 else 0.0
-                    for k in range(num.shape[0])
-                ]
+                gains = [self._gain(num[k], den0) for k in range(num.shape[0])]
             else:
                 zeros = np.roots(num) if len(num) > 1 else np.array([], dtype=complex)
-                gains = float(num[0] / den0) if len(num) > 0 else 0.0
+                gains = self._gain(num, den0)
             result[input_key] = (zeros, poles, gains)
         return result
 
+    @staticmethod
+    def _gain(num: npt.NDArray, den0: complex) -> complex:
+        # Leading zeros do not contribute to the roots
+        num = np.trim_zeros(num, "f")
+        return (num[0] / den0).item() if len(num) > 0 else 0.0
+
     def __getitem__(self, key: str) -> tuple[npt.NDArray, npt.NDArray]:
         """
         Get the numerator and denominator for a specific input.
-- 
2.43.0


From b38feba55bff812121284ed3a0ede35a3835df0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:41 +0000
Subject: [PATCH 57/83] fix: is_linear recursed for ever on multiplications in
 loops

---
 lib/b_asic/special_operations.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/b_asic/special_operations.py b/lib/b_asic/special_operations.py
index 9326776..2dabd9b 100644
--- a/lib/b_asic/special_operations.py
+++ b/lib/b_asic/special_operations.py
@@ -184,6 +184,7 @@ class Delay(AbstractOperation):
     """
 
     is_linear = True
+    is_constant = False
 
     def __init__(
         self,
-- 
2.43.0


From 248fddd71bff27e9f554c21e4d348e4408714bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 58/83] fix: unsynchronised interleaver memories had mismatched
 process labels and read a cycle early

---
 lib/b_asic/research/interleaver_codegen.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/b_asic/research/interleaver_codegen.py b/lib/b_asic/research/interleaver_codegen.py
index b5b4f72..c88366f 100644
--- a/lib/b_asic/research/interleaver_codegen.py
+++ b/lib/b_asic/research/interleaver_codegen.py
@@ -424,7 +424,9 @@ def memory_based_storage_architecture(
             )
         else:
             common.process_prologue(
-                f, sensitivity_list="schedule_cnt_adr", name="mem_write_address_proc"
+                f,
+                sensitivity_list="schedule_cnt_adr",
+                name=f"mem_write_address_proc_{0}_{rom}",
             )
         common.write(f, 3, "case to_integer(schedule_cnt_adr) is")
         list_start_idx = rom * elements_per_rom
@@ -541,7 +543,7 @@ def memory_based_storage_architecture(
             mv = cast(MemoryVariable, mv)
             for read_time in mv.reads.values():
                 read_list[
-                    (mv.start_time + read_time - int(not (input_sync))) % schedule_time
+                    (mv.start_time + read_time) % schedule_time
                 ] = (i, mv)
 
     for rom in range(total_roms):
@@ -551,7 +553,9 @@ def memory_based_storage_architecture(
             )
         else:
             common.process_prologue(
-                f, sensitivity_list="schedule_cnt_adr", name="mem_read_address_proc"
+                f,
+                sensitivity_list="schedule_cnt_adr",
+                name=f"mem_read_address_proc_{0}_{rom}",
             )
         common.write(f, 3, "case to_integer(schedule_cnt_adr) is")
         list_start_idx = rom * elements_per_rom
-- 
2.43.0


From 35f81d21716427f88038e047defa782a008c978c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 59/83] fix: zero-life variables of pipelined interleaver
 memories were forwarded outside the period

---
 lib/b_asic/research/interleaver_codegen.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/lib/b_asic/research/interleaver_codegen.py b/lib/b_asic/research/interleaver_codegen.py
index c88366f..7413029 100644
--- a/lib/b_asic/research/interleaver_codegen.py
+++ b/lib/b_asic/research/interleaver_codegen.py
@@ -373,15 +373,8 @@ def memory_based_storage_architecture(
     common.write(f, 3, "case to_integer(schedule_cnt) is")
     for p in p_zero_exec:
         if input_sync:
-            write_time = (p.start_time + 1) % schedule_time
-            if adr_pipe_depth:
-                common.write(
-                    f,
-                    4,
-                    f"when {write_time}+{adr_pipe_depth} => p_0_out <= p_0_in_sync;",
-                )
-            else:
-                common.write(f, 4, f"when {write_time} => p_0_out <= p_0_in_sync;")
+            write_time = (p.start_time + 1 + adr_pipe_depth) % schedule_time
+            common.write(f, 4, f"when {write_time} => p_0_out <= p_0_in_sync;")
         else:
             write_time = (p.start_time) % schedule_time
             common.write(f, 4, f"when {write_time} => p_0_out <= p_0_in;")
-- 
2.43.0


From fa1a551c3a9fdb1fa3ce386b065f33b61aa5f247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 60/83] fix: interleaver address multiplexers of size one used
 an illegal slice

---
 lib/b_asic/research/interleaver_codegen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/research/interleaver_codegen.py b/lib/b_asic/research/interleaver_codegen.py
index 7413029..cffa3c2 100644
--- a/lib/b_asic/research/interleaver_codegen.py
+++ b/lib/b_asic/research/interleaver_codegen.py
@@ -471,7 +471,7 @@ def memory_based_storage_architecture(
                 3,
                 (
                     f"case to_integer(schedule_cnt{layer + 1}("
-                    f"ADR_LEN+{layer * bits_per_mux + bits_per_mux - 1} downto "
+                    f"ADR_LEN+{layer * bits_per_mux + bits_per_mux}-1 downto "
                     f"ADR_LEN+{layer * bits_per_mux}"
                     ")) is"
                 ),
@@ -598,7 +598,7 @@ def memory_based_storage_architecture(
                 3,
                 (
                     f"case to_integer(schedule_cnt{layer + 1}("
-                    f"ADR_LEN+{layer * bits_per_mux + bits_per_mux - 1} downto "
+                    f"ADR_LEN+{layer * bits_per_mux + bits_per_mux}-1 downto "
                     f"ADR_LEN+{layer * bits_per_mux}"
                     ")) is"
                 ),
-- 
2.43.0


From 7a1d8319f5335e122a24be75b332c01d320033da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 61/83] fix: storage without registers was illegal VHDL

---
 lib/b_asic/code_printer/vhdl/register_storage.py | 2 +-
 lib/b_asic/research/interleaver_codegen.py       | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/code_printer/vhdl/register_storage.py b/lib/b_asic/code_printer/vhdl/register_storage.py
index ecb75ae..0ec2557 100644
--- a/lib/b_asic/code_printer/vhdl/register_storage.py
+++ b/lib/b_asic/code_printer/vhdl/register_storage.py
@@ -81,7 +81,7 @@ def architecture(
     schedule_time = len(forward_backward_table)
 
     # Number of registers in this design
-    reg_cnt = len(forward_backward_table[0].regs)
+    reg_cnt = max(1, len(forward_backward_table[0].regs))
 
     # Set of the register indices to output from
     output_regs = {
diff --git a/lib/b_asic/research/interleaver_codegen.py b/lib/b_asic/research/interleaver_codegen.py
index cffa3c2..7cfc8b0 100644
--- a/lib/b_asic/research/interleaver_codegen.py
+++ b/lib/b_asic/research/interleaver_codegen.py
@@ -657,7 +657,7 @@ def register_based_storage_architecture(
     schedule_time = len(forward_backward_table)
 
     # Number of registers in this design
-    reg_cnt = len(forward_backward_table[0].regs)
+    reg_cnt = max(1, len(forward_backward_table[0].regs))
 
     # Set of the register indices to output from
     output_regs = {
@@ -849,6 +849,7 @@ def register_based_storage_architecture(
             sel = output_mux_table[entry.outputs_from]
             common.write(f, 4, f"when {(i - 1) % schedule_time} =>")
             common.write(f, 5, f"out_mux_sel <= {sel};")
+    common.write(f, 4, "when others => null;")
     common.write(f, 3, "end case;")
     common.synchronous_process_epilogue(f, clk="clk", name="out_mux_decode_proc")
 
-- 
2.43.0


From ea0d8810e596b1c34e17a916a3d66f6bce560253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 62/83] fix: port bounds were swapped and off by one when
 checking generated storage

---
 lib/b_asic/resources.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/lib/b_asic/resources.py b/lib/b_asic/resources.py
index 593dc31..c965035 100644
--- a/lib/b_asic/resources.py
+++ b/lib/b_asic/resources.py
@@ -2230,6 +2230,21 @@ class ProcessCollection:
         # 3. Perform sequential left-edge assignment based on the sorted processes
         raise NotImplementedError
 
+    def _validate_ports_in_bounds(self, read_ports: int, write_ports: int) -> None:
+        """Make sure that concurrent reads/writes do not surpass the port setting."""
+        needed_write_ports = self.write_ports_bound()
+        needed_read_ports = self.read_ports_bound()
+        if needed_write_ports > write_ports:
+            raise ValueError(
+                f"More than {write_ports} write ports needed ({needed_write_ports})"
+                " to generate HDL for this ProcessCollection"
+            )
+        if needed_read_ports > read_ports:
+            raise ValueError(
+                f"More than {read_ports} read ports needed ({needed_read_ports}) to"
+                " generate HDL for this ProcessCollection"
+            )
+
     def generate_memory_based_storage_vhdl(
         self,
         filename: str,
@@ -2314,19 +2329,7 @@ class ProcessCollection:
                 if mv not in self:
                     raise ValueError(f"{mv!r} is not part of {self!r}.")
 
-        # Make sure that concurrent reads/writes do not surpass the port setting
-        needed_write_ports = self.read_ports_bound()
-        needed_read_ports = self.write_ports_bound()
-        if needed_write_ports > write_ports + 1:
-            raise ValueError(
-                f"More than {write_ports} write ports needed ({needed_write_ports})"
-                " to generate HDL for this ProcessCollection"
-            )
-        if needed_read_ports > read_ports + 1:
-            raise ValueError(
-                f"More than {read_ports} read ports needed ({needed_read_ports}) to"
-                " generate HDL for this ProcessCollection"
-            )
+        self._validate_ports_in_bounds(read_ports, write_ports)
 
         # Sanitize the address logic pipeline settings
         if adr_mux_size is not None and adr_pipe_depth is not None:
@@ -2559,6 +2562,8 @@ class ProcessCollection:
             read_ports, write_ports, total_ports
         )
 
+        self._validate_ports_in_bounds(read_ports, write_ports)
+
         # Create the forward-backward table
         forward_backward_table = _ForwardBackwardTable(self)
 
-- 
2.43.0


From 5b7734617fbba6f923f25bd31ea88d4330340b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 63/83] fix: the forward select of memories was undefined while
 stored values were read

---
 lib/b_asic/code_printer/vhdl/memory_storage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/code_printer/vhdl/memory_storage.py b/lib/b_asic/code_printer/vhdl/memory_storage.py
index da5c36c..f7f45f5 100644
--- a/lib/b_asic/code_printer/vhdl/memory_storage.py
+++ b/lib/b_asic/code_printer/vhdl/memory_storage.py
@@ -299,7 +299,7 @@ def architecture(
             common.write_lines(
                 f,
                 [
-                    (5, "when others => forward_ctrl <= '-';"),
+                    (5, "when others => forward_ctrl <= '0';"),
                     (4, "end case;"),
                 ],
             )
@@ -315,7 +315,7 @@ def architecture(
             for write_time, stmt in sorted(output_cases.items()):
                 bin_time = time_bin_str(write_time, schedule_time)
                 common.write(f, 2, f'{stmt} when "{bin_time}",')
-            common.write(f, 2, "'-' when others;")
+            common.write(f, 2, "'0' when others;")
 
     else:
         common.write(f, 1, "p_0_out_internal <= read_port_0;")
-- 
2.43.0


From 55fdb1b95e312dbd18bcf7520ac409044b040dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 64/83] fix: memories changed after their assignment were
 printed as they had been

---
 lib/b_asic/code_printer/vhdl/vhdl_printer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/code_printer/vhdl/vhdl_printer.py b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
index ca8da0e..4259743 100644
--- a/lib/b_asic/code_printer/vhdl/vhdl_printer.py
+++ b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
@@ -255,6 +255,11 @@ class VhdlPrinter(Printer):
             common.package_header(f, "types")
 
         if mem._memory_type == "RAM":
+            if not mem.is_assigned:
+                raise ValueError(
+                    "Memory assignment must be performed before generating memory-based code. "
+                    "Call memory.assign() first."
+                )
             # Extract known kwargs for memory_storage, pass through others
             memory_kwargs = {
                 "output_sync": kwargs.get("output_sync", True),
@@ -274,7 +279,7 @@ class VhdlPrinter(Printer):
             )
             memory_storage.architecture(f, mem, self._dt, **memory_kwargs)
         elif mem._memory_type == "register":
-            if mem._forward_backward_table is None:
+            if mem._forward_backward_table is None or not mem.is_assigned:
                 raise ValueError(
                     "Memory assignment must be performed before generating register-based code. "
                     "Call memory.assign() first."
-- 
2.43.0


From c8c8af0997c332a5f723cabceea3bf077b57a0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 65/83] fix: architectures of a single block or of iterators
 were refused or empty

---
 lib/b_asic/architecture.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/b_asic/architecture.py b/lib/b_asic/architecture.py
index 8d92e4d..0d28cd5 100644
--- a/lib/b_asic/architecture.py
+++ b/lib/b_asic/architecture.py
@@ -1025,19 +1025,19 @@ of :class:`~b_asic.architecture.ProcessingElement`
     ) -> None:
         super().__init__(entity_name)
 
-        pe_names = [pe._entity_name for pe in processing_elements]
-        if len(pe_names) != len(set(pe_names)):
-            raise ValueError("Entity names of processing elements needs to be unique.")
         self._processing_elements = (
             [processing_elements]
             if isinstance(processing_elements, ProcessingElement)
             else list(processing_elements)
         )
+        pe_names = [pe._entity_name for pe in self._processing_elements]
+        if len(pe_names) != len(set(pe_names)):
+            raise ValueError("Entity names of processing elements needs to be unique.")
 
-        mem_names = [mem._entity_name for mem in memories]
+        self._memories = [memories] if isinstance(memories, Memory) else list(memories)
+        mem_names = [mem._entity_name for mem in self._memories]
         if len(mem_names) != len(set(mem_names)):
             raise ValueError("Entity names of memories needs to be unique.")
-        self._memories = [memories] if isinstance(memories, Memory) else list(memories)
 
         self._direct_interconnects = direct_interconnects
 
-- 
2.43.0


From 95dfd918e9b008c9ecd06360d9ea680e03bbee0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 66/83] fix: changes of resources that cannot be assigned were
 half made

---
 lib/b_asic/architecture.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/lib/b_asic/architecture.py b/lib/b_asic/architecture.py
index 0d28cd5..55635f8 100644
--- a/lib/b_asic/architecture.py
+++ b/lib/b_asic/architecture.py
@@ -488,9 +488,15 @@ class Resource(HardwareBlock, ABC):
             # operation_type is MemoryVariable or PlainMemoryVariable
             if not isinstance(proc, self.operation_type):
                 raise TypeError(f"{proc} not of type {self.operation_type}")
+        assignment = self._assignment
         self.collection.add_process(proc)
         if assign:
-            self.assign()
+            try:
+                self.assign()
+            except Exception:
+                self.collection.remove_process(proc)
+                self._assignment = assignment
+                raise
         else:
             self._assignment = None
 
@@ -513,9 +519,15 @@ class Resource(HardwareBlock, ABC):
         :class:`KeyError`
             If *proc* is not present in resource.
         """
+        assignment = self._assignment
         self.collection.remove_process(proc)
         if assign:
-            self.assign()
+            try:
+                self.assign()
+            except Exception:
+                self.collection.add_process(proc)
+                self._assignment = assignment
+                raise
         else:
             self._assignment = None
 
@@ -1479,10 +1491,18 @@ of :class:`~b_asic.architecture.ProcessingElement`
         if isinstance(proc, str):
             proc = source.collection.from_name(proc)
         proc = cast(Process, proc)
+        if destination not in (*self.memories, *self.processing_elements):
+            raise ValueError(f"{destination} not in architecture")
         # Move the process
         if proc in source:
+            assignment = destination._assignment
             destination.add_process(proc, assign=assign)
-            source.remove_process(proc, assign=assign)
+            try:
+                source.remove_process(proc, assign=assign)
+            except Exception:
+                destination.collection.remove_process(proc)
+                destination._assignment = assignment
+                raise
         else:
             raise KeyError(f"{proc} not in {source.entity_name}")
         self._build_dicts()
-- 
2.43.0


From 08035eb29fc834c0ff9f71b0b91da1af7e129c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 67/83] fix: operations of another latency could be added to a
 processing element

---
 lib/b_asic/architecture.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/b_asic/architecture.py b/lib/b_asic/architecture.py
index 55635f8..dbf57ca 100644
--- a/lib/b_asic/architecture.py
+++ b/lib/b_asic/architecture.py
@@ -594,6 +594,16 @@ class ProcessingElement(Resource):
     def processes(self) -> list[OperatorProcess]:
         return [cast(OperatorProcess, p) for p in self._collection]
 
+    def add_process(self, proc: Process, assign: bool = False) -> None:
+        # doc-string inherited
+        if (
+            isinstance(proc, OperatorProcess)
+            and isinstance(proc.operation, self.operation_type)
+            and proc.operation.latency != self._latency
+        ):
+            raise ValueError(f"{proc} does not have latency {self._latency}")
+        super().add_process(proc, assign=assign)
+
     @property
     def control_table(self) -> dict[str, ControlTable]:
         # Loop through all params and set these values
-- 
2.43.0


From 2009a1740ae4ab68eff40126e3f64287f4ae780d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 68/83] fix: architectures missing a link of a chain of
 variables were accepted

---
 lib/b_asic/architecture.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/b_asic/architecture.py b/lib/b_asic/architecture.py
index dbf57ca..6706ac1 100644
--- a/lib/b_asic/architecture.py
+++ b/lib/b_asic/architecture.py
@@ -1171,6 +1171,19 @@ of :class:`~b_asic.architecture.ProcessingElement`
                     rp for rp in mv.read_ports if isinstance(rp, InputPort)
                 )
 
+        # A chained memory variable is written by the variable it continues
+        names = {mv.name for memory in self.memories for mv in memory}
+        for memory in self.memories:
+            for mv in memory:
+                if (
+                    isinstance(mv.write_port, MemoryOutputPort)
+                    and mv.write_port.source_variable.name not in names
+                ):
+                    raise ValueError(
+                        f"{mv.write_port.source_variable.name}, continued in {mv.name},"
+                        " is not in any memory"
+                    )
+
         pe_input_ports: set[InputPort] = set()
         pe_output_ports: set[OutputPort] = set()
         for pe in self.processing_elements:
-- 
2.43.0


From 850337d53e5c5997a30976f13d647cec0df4a76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 69/83] fix: infeasible resource assignments were taken for
 solutions

---
 lib/b_asic/resource_assigner.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/b_asic/resource_assigner.py b/lib/b_asic/resource_assigner.py
index 29251d2..c429de4 100644
--- a/lib/b_asic/resource_assigner.py
+++ b/lib/b_asic/resource_assigner.py
@@ -1087,7 +1087,10 @@ def _solve_ilp_problem(
     finally:
         _restore_interrupted_recovery(problem, solver, recovery_state)
 
-    if _has_feasible_solution(problem):
+    if not interrupted and status not in (LpStatusOptimal, LpStatusNotSolved):
+        raise ValueError("Solution could not be found via ILP, use another method.")
+
+    if status == LpStatusOptimal or _has_feasible_solution(problem):
         if interrupted or status == LpStatusNotSolved:
             log.warning("Using best feasible ILP solution found before solver stopped.")
         return
@@ -1097,9 +1100,6 @@ def _solve_ilp_problem(
             "No feasible ILP solution was found before the solver stopped."
         )
 
-    if status not in (LpStatusOptimal, LpStatusNotSolved):
-        raise ValueError("Solution could not be found via ILP, use another method.")
-
     raise ValueError("No feasible ILP solution was found before the solver stopped.")
 
 
-- 
2.43.0


From c0064fa3b9dbd5505f1374e9b037331f2235868b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 70/83] fix: limits on resources were ignored or dropped
 processes with left edge and greedy assignment

---
 lib/b_asic/resource_assigner.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/lib/b_asic/resource_assigner.py b/lib/b_asic/resource_assigner.py
index c429de4..1441b18 100644
--- a/lib/b_asic/resource_assigner.py
+++ b/lib/b_asic/resource_assigner.py
@@ -220,6 +220,7 @@ def _split_operations_and_variables(
     mem_greedy_coloring = nx.coloring.greedy_color(
         mem_exclusion_graph, strategy="saturation_largest_first"
     )
+    mem_limit = max_mems
     if max_mems is None:
         log.info(
             "max_mems not provided, using greedy graph coloring to determine upper bound on memory colors"
@@ -260,6 +261,9 @@ def _split_operations_and_variables(
             coloring = nx.coloring.greedy_color(
                 pe_ex_graph, strategy="saturation_largest_first"
             )
+            _check_limit(
+                op_type_name, len(set(coloring.values())), max_pes[op_type_name]
+            )
             pe_x[op_type_name] = {
                 node: {
                     color: 1 if color == node_color else 0
@@ -270,6 +274,7 @@ def _split_operations_and_variables(
         mem_coloring = nx.coloring.greedy_color(
             mem_exclusion_graph, strategy="saturation_largest_first"
         )
+        _check_limit("memory", len(set(mem_coloring.values())), max_mems)
         mem_x = {
             node: {color: 1 if color == node_color else 0 for color in range(max_mems)}
             for node, node_color in mem_coloring.items()
@@ -286,6 +291,14 @@ def _split_operations_and_variables(
             pe_process_collections[op_type_name] = group.split_on_execution_time(
                 strategy="left_edge"
             )
+            if resources and op_type_name in resources:
+                _check_limit(
+                    op_type_name,
+                    len(pe_process_collections[op_type_name]),
+                    resources[op_type_name],
+                )
+        if mem_limit is not None:
+            _check_limit("memory", len(mem_process_collections), mem_limit)
         return pe_process_collections, mem_process_collections
     else:
         raise ValueError(f"Invalid strategy '{strategy}'")
@@ -312,6 +325,14 @@ def _split_operations_and_variables(
     return pe_process_collections, mem_process_collections
 
 
+def _check_limit(name: str, count: int, limit: int) -> None:
+    if count > limit:
+        raise ValueError(
+            f"{count} resources of {name!r} needed with this strategy, "
+            f"but at most {limit} allowed."
+        )
+
+
 def _ilp_coloring(
     op_groups: dict[TypeName, ProcessCollection],
     mem_exclusion_graph: nx.Graph | None,
-- 
2.43.0


From 798265271c04fbed24068facc8c56c56eb26711c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 71/83] fix: resource assignment failed without memory
 variables

---
 lib/b_asic/resource_assigner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/resource_assigner.py b/lib/b_asic/resource_assigner.py
index 1441b18..e5c1892 100644
--- a/lib/b_asic/resource_assigner.py
+++ b/lib/b_asic/resource_assigner.py
@@ -379,7 +379,7 @@ def _ilp_coloring(
     for node in mem_graph_nodes:
         for color in range(max_mems):
             problem += mem_x[node][color] <= mem_c[color]
-    max_clique = next(nx.find_cliques(mem_exclusion_graph))
+    max_clique = next(nx.find_cliques(mem_exclusion_graph), [])
     for color, node in enumerate(max_clique):
         problem += mem_x[node][color] == mem_c[color] == 1
     for color in range(max_mems):
@@ -780,6 +780,7 @@ def _ilp_min_mux(
     busiest_mem_t = max(
         all_mem_times,
         key=lambda t: max(len(mem_writes_in_time[t]), len(mem_reads_in_time[t])),
+        default=0,
     )
     busiest_mem_vars = (
         mem_reads_in_time[busiest_mem_t]
-- 
2.43.0


From dcd562bd3eb119f819043ac4f5d4e017c2f3fbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:55 +0000
Subject: [PATCH 72/83] fix: ilp_min_mux let reads and writes share a single
 memory port

---
 lib/b_asic/resource_assigner.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/b_asic/resource_assigner.py b/lib/b_asic/resource_assigner.py
index e5c1892..ab7d398 100644
--- a/lib/b_asic/resource_assigner.py
+++ b/lib/b_asic/resource_assigner.py
@@ -253,6 +253,7 @@ def _split_operations_and_variables(
             solver,
             pe_greedy_colorings,
             mem_greedy_coloring,
+            mem_exclusion_graph,
         )
     elif strategy == "greedy_graph_color":
         pe_x = {}
@@ -482,6 +483,7 @@ def _ilp_min_mux(
     solver: LpSolver | None = None,
     pe_warm_start: dict[TypeName, dict] | None = None,
     mem_warm_start: dict | None = None,
+    mem_exclusion_graph: nx.Graph | None = None,
 ) -> tuple[dict, dict]:
     pe_in_cnt = {
         op_type_name: op.input_count
@@ -772,6 +774,12 @@ def _ilp_min_mux(
                         <= 1
                     )
 
+    # Variables excluding each other (also reads from writes when sharing a port)
+    if mem_exclusion_graph is not None:
+        for u, v in mem_exclusion_graph.edges():
+            for mem_idx in range(max_mems):
+                problem += mem_x[u][mem_idx] + mem_x[v][mem_idx] <= 1
+
     # Set the busiest time slot to distinct indices with == 1 (performance)
     # Use whichever of reads/writes is largest at the busiest time step
     all_mem_times = list(
-- 
2.43.0


From 3bda60dfbdaf1566fa0acee9055aed0775930698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:55 +0000
Subject: [PATCH 73/83] fix: ilp_min_mux counted connections for other reads of
 the same result

---
 lib/b_asic/resource_assigner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/b_asic/resource_assigner.py b/lib/b_asic/resource_assigner.py
index ab7d398..fd30bcc 100644
--- a/lib/b_asic/resource_assigner.py
+++ b/lib/b_asic/resource_assigner.py
@@ -568,7 +568,7 @@ def _ilp_min_mux(
         for op_type_name, op_group in op_groups.items():
             pe_pairs = _get_pe_nodes(mem_node, list(op_group))
             for pe_node, in_port_idx in pe_pairs:
-                if not any(mem_node.reads.get(p) for p in pe_node.operation.inputs):
+                if not mem_node.reads.get(pe_node.operation.input(in_port_idx)):
                     continue
                 log.debug(
                     "  memory:%s -> %s:in%d", mem_node.name, pe_node.name, in_port_idx
-- 
2.43.0


From cc70b6024bb87a375535a46872c7630315ce4e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:36 +0000
Subject: [PATCH 74/83] fix: complex fixed-point coefficients and coefficients
 of mixed formats were printed wrong

---
 lib/b_asic/architecture.py                    |  9 ++++-
 .../code_printer/vhdl/processing_element.py   | 37 ++++++++++---------
 2 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/lib/b_asic/architecture.py b/lib/b_asic/architecture.py
index 6706ac1..5af7d42 100644
--- a/lib/b_asic/architecture.py
+++ b/lib/b_asic/architecture.py
@@ -130,7 +130,12 @@ class ControlTable:
 
     @property
     def number_of_different_values(self) -> int:
-        return len(set(self.values.values()))
+        different = []
+        for value in self.values.values():
+            # Equal values can hash differently, e.g., fixed-point of different formats
+            if not any(value == other for other in different):
+                different.append(value)
+        return len(different)
 
 
 class HardwareBlock(ABC):
@@ -617,7 +622,7 @@ class ProcessingElement(Resource):
 
             for pro in self.collection:
                 val = pro.operation.params[param_name]
-                if isinstance(val, (complex, np.complexfloating)):
+                if isinstance(val, (complex, np.complexfloating, apy.APyCFixed)):
                     is_complex = True
                 # real part
                 if isinstance(val, bool):
diff --git a/lib/b_asic/code_printer/vhdl/processing_element.py b/lib/b_asic/code_printer/vhdl/processing_element.py
index ef2f24e..36b71a3 100644
--- a/lib/b_asic/code_printer/vhdl/processing_element.py
+++ b/lib/b_asic/code_printer/vhdl/processing_element.py
@@ -15,7 +15,23 @@ from b_asic.process import OperatorProcess
 from b_asic.special_operations import Input, Output
 
 if TYPE_CHECKING:
-    from b_asic.architecture import ProcessingElement
+    from b_asic.architecture import ControlTable, ProcessingElement
+
+
+def _control_value_str(
+    val: "bool | float | apy.APyFixed", entry: "ControlTable"
+) -> str:
+    """Return the VHDL literal for a value of a control table."""
+    if isinstance(val, bool):
+        return f"'{int(val)}'"
+    if isinstance(val, (int, np.integer, float, np.floating)):
+        int_val = int(val * 2**entry.frac_bits)
+        return f'b"{bin_str(int_val, entry.bits)}"'
+    if isinstance(val, apy.APyFixed):
+        # The format of the value may be narrower than that of the table
+        bits = val.cast(int_bits=entry.int_bits, frac_bits=entry.frac_bits).to_bits()
+        return f'b"{bin_str(bits, entry.bits)}"'
+    raise NotImplementedError
 
 
 def entity(f: TextIO, pe: "ProcessingElement", dt: _VhdlDataType) -> None:
@@ -184,29 +200,14 @@ def _statement_region_common(
     for name, entry in pe.control_table.items():
         ctrl_target = f"{name}_comb" if pipeline_control_signals else name
         if entry.is_static:
-            val = entry.get_static_value()
-            if isinstance(val, bool):
-                val_str = f"'{int(val)}'"
-            elif isinstance(val, (int, np.integer, float, np.floating)):
-                int_val = int(val * 2**entry.frac_bits)
-                val_str = f'b"{bin_str(int_val, entry.bits)}"'
-            else:
-                raise NotImplementedError
+            val_str = _control_value_str(entry.get_static_value(), entry)
             common.write(f, 1, f"{ctrl_target} <= {val_str};\n")
             continue
         common.write(f, 1, "with schedule_cnt select")
         common.write(f, 2, f"{ctrl_target} <=")
         target_cycle = control_cycle.get(name)
         for time, val in entry.values.items():
-            if isinstance(val, bool):
-                val_str = f"'{int(val)}'"
-            elif isinstance(val, (int, np.integer, float, np.floating)):
-                int_val = int(val * 2**entry.frac_bits)
-                val_str = f'b"{bin_str(int_val, entry.bits)}"'
-            elif isinstance(val, apy.APyFixed):
-                val_str = f'b"{bin_str(val.to_bits(), entry.bits)}"'
-            else:
-                raise NotImplementedError
+            val_str = _control_value_str(val, entry)
             # Control is applied n_in cycles early (data delayed by input registers).
             # If absolute control cycle is configured, use that instead.
             control_cycle_now = target_cycle if target_cycle is not None else n_in
-- 
2.43.0


From 57690687a36a53c6e463a3df68059edd2dc35b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:36 +0000
Subject: [PATCH 75/83] fix: complex AddSub processing elements ignored mul_j

---
 lib/b_asic/code_printer/vhdl/vhdl_printer.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/code_printer/vhdl/vhdl_printer.py b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
index 4259743..a63da79 100644
--- a/lib/b_asic/code_printer/vhdl/vhdl_printer.py
+++ b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
@@ -592,16 +592,32 @@ class VhdlPrinter(Printer):
                 f"res_arith_0_{part}",
                 f"{self.scalar_type_name}({self.bits} downto 0)",
             )
+            common.signal_declaration(declarations, f"{part}_is_add", "std_logic")
+            common.signal_declaration(
+                declarations, f"{part}_op_1", self.scalar_type_str
+            )
 
+            # j * (re + j*im) = -im + j*re
+            other = "im" if part == "re" else "re"
+            common.write(
+                code,
+                1,
+                f"{part}_is_add <= is_add{' xor mul_j' if part == 're' else ''};",
+            )
+            common.write(
+                code,
+                1,
+                f"{part}_op_1 <= op_1.{other} when mul_j = '1' else op_1.{part};",
+            )
             common.write(
                 code,
                 1,
-                f"{part}_op_b <= resize(op_1.{part}, {self.bits + 1}) when is_add = '1' else not resize(op_1.{part}, {self.bits + 1});",
+                f"{part}_op_b <= resize({part}_op_1, {self.bits + 1}) when {part}_is_add = '1' else not resize({part}_op_1, {self.bits + 1});",
             )
             common.write(
                 code,
                 1,
-                f"{part}_tmp_res <= (op_0.{part} & '1') + ({part}_op_b & not is_add);",
+                f"{part}_tmp_res <= (op_0.{part} & '1') + ({part}_op_b & not {part}_is_add);",
             )
             common.write(
                 code,
-- 
2.43.0


From 3866a4b046e0ab28e4f892c41536d44c5eb55ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:36 +0000
Subject: [PATCH 76/83] fix: multiplications by complex coefficients with zero
 parts were printed as illegal VHDL

---
 lib/b_asic/code_printer/vhdl/vhdl_printer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/code_printer/vhdl/vhdl_printer.py b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
index a63da79..14242b8 100644
--- a/lib/b_asic/code_printer/vhdl/vhdl_printer.py
+++ b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
@@ -967,11 +967,17 @@ class VhdlPrinter(Printer):
             for p in pe.collection
         )
 
+        if not (is_real or is_imag or is_complex):
+            # All values are zero
+            is_real = True
+
         control_table = pe.control_table
         if "value" in control_table:
+            real_name = "value"
             real_entry = control_table["value"]
             imag_entry = 0
         else:
+            real_name = "value_real"
             real_entry = pe.control_table["value_real"]
             imag_entry = pe.control_table["value_imag"]
 
@@ -1045,8 +1051,8 @@ class VhdlPrinter(Printer):
             )
 
             if is_real and not is_imag:
-                mul_statement("res_arith_0_re", "a", "value", extend_real, real_entry)
-                mul_statement("res_arith_0_im", "b", "value", extend_real, real_entry)
+                mul_statement("res_arith_0_re", "a", real_name, extend_real, real_entry)
+                mul_statement("res_arith_0_im", "b", real_name, extend_real, real_entry)
 
             elif is_imag and not is_real:
                 # (a + jb) * (j*c) = -bc + j*ac
-- 
2.43.0


From ea3cea51e5d8066a9696d36a631b2cb41ee9796b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:36 +0000
Subject: [PATCH 77/83] fix: multiplications by real or imaginary coefficients
 had late control and overflowing negation

---
 lib/b_asic/code_printer/vhdl/vhdl_printer.py | 45 +++++++++++---------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/lib/b_asic/code_printer/vhdl/vhdl_printer.py b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
index 14242b8..aea501b 100644
--- a/lib/b_asic/code_printer/vhdl/vhdl_printer.py
+++ b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
@@ -1006,13 +1006,13 @@ class VhdlPrinter(Printer):
 
         common.signal_declaration(declarations, "a, b", self.scalar_type_str)
 
-        if pe._latency > 2 and not is_complex and is_real and is_imag:
-            # Handle a special case where pipelining is done in the middle
-            common.write(code, 1, f"a <= p_0_in_reg_{pe._latency - 3}.re;")
-            common.write(code, 1, f"b <= p_0_in_reg_{pe._latency - 3}.im;")
-        else:
-            common.write(code, 1, "a <= op_0.re;")
-            common.write(code, 1, "b <= op_0.im;")
+        n_in, n_out = self._register_split
+        pipeline_mid = n_in > 1 and not is_complex and is_real and is_imag
+        if pipeline_mid:
+            # One of the input registers is moved to the middle
+            self._register_split = (n_in - 1, n_out)
+        common.write(code, 1, "a <= op_0.re;")
+        common.write(code, 1, "b <= op_0.im;")
 
         def mul_statement(
             res: str, op: str, value: str, extend: bool, value_entry
@@ -1071,13 +1071,14 @@ class VhdlPrinter(Printer):
                 )
 
                 max_coeff_bits = max(real_coeff_bits, imag_coeff_bits)
-                mul_res_type = signed_type(self.bits + max_coeff_bits)
+                mul_res_type = signed_type(self.bits + 1 + max_coeff_bits)
 
-                # op_a signals should be sized to data width, op_b to coefficient width
+                # op_a signals should be sized to (negated) data width, op_b to
+                # coefficient width
                 common.signal_declaration(
                     declarations,
                     "op_a_re, op_a_re_reg, op_a_im, op_a_im_reg",
-                    self.scalar_type_str,
+                    signed_type(self.bits + 1),
                 )
                 common.signal_declaration(
                     declarations,
@@ -1091,7 +1092,7 @@ class VhdlPrinter(Printer):
                 common.write(
                     code,
                     1,
-                    "op_a_re <= resize(a, op_a_re'length) when is_real = '1' else resize(-b, op_a_re'length);",
+                    "op_a_re <= resize(a, op_a_re'length) when is_real = '1' else -resize(b, op_a_re'length);",
                 )
                 common.write(
                     code,
@@ -1109,22 +1110,28 @@ class VhdlPrinter(Printer):
                     f"op_b_im <= resize({value_real_str}, op_b_im'length) when is_real = '1' else resize({value_imag_str}, op_b_im'length);",
                 )
 
-                if pe._latency > 2:
+                if pipeline_mid:
                     common.write(code, 1, "res_re <= op_a_re_reg * op_b_re_reg;")
                     common.write(code, 1, "res_im <= op_a_im_reg * op_b_im_reg;")
                 else:
                     common.write(code, 1, "res_re <= op_a_re * op_b_re;")
                     common.write(code, 1, "res_im <= op_a_im * op_b_im;")
 
-                common.write(code, 1, "res_arith_0_re <= res_re;")
-                common.write(code, 1, "res_arith_0_im <= res_im;")
+                for part in "re", "im":
+                    common.write(
+                        code,
+                        1,
+                        f"res_arith_0_{part} <= resize(res_{part}, res_arith_0_{part}'length);",
+                    )
 
-                if pe._latency > 2:
+                if pipeline_mid:
                     common.synchronous_process_prologue(code)
-                    common.write(code, 3, "op_a_re_reg <= op_a_re;")
-                    common.write(code, 3, "op_b_re_reg <= op_b_re;")
-                    common.write(code, 3, "op_a_im_reg <= op_a_im;")
-                    common.write(code, 3, "op_b_im_reg <= op_b_im;")
+                    common.write(code, 3, "if en = '1' then")
+                    common.write(code, 4, "op_a_re_reg <= op_a_re;")
+                    common.write(code, 4, "op_b_re_reg <= op_b_re;")
+                    common.write(code, 4, "op_a_im_reg <= op_a_im;")
+                    common.write(code, 4, "op_b_im_reg <= op_b_im;")
+                    common.write(code, 3, "end if;")
                     common.synchronous_process_epilogue(code)
 
         max_coeff_wl = max(real_entry.wl[0], imag_entry.wl[0] if imag_entry != 0 else 0)
-- 
2.43.0


From 91031c9b0c53298e2ab164423e78350e58a03d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:36 +0000
Subject: [PATCH 78/83] fix: printed multiply-add elements were misaligned and
 ignored do_addsub

---
 lib/b_asic/code_printer/vhdl/vhdl_printer.py | 21 ++++++++------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/lib/b_asic/code_printer/vhdl/vhdl_printer.py b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
index aea501b..5cee560 100644
--- a/lib/b_asic/code_printer/vhdl/vhdl_printer.py
+++ b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
@@ -1150,43 +1150,38 @@ class VhdlPrinter(Printer):
         declarations, code = io.StringIO(), io.StringIO()
 
         mul_res_bits = 2 * self.bits
+        res_bits = mul_res_bits + 1
         common.signal_declaration(
             declarations,
             "mul_res",
             f"{self.type_name}({mul_res_bits - 1} downto 0)",
         )
-        common.signal_declaration(declarations, "mul_res_quant", self.type_str)
         common.signal_declaration(
-            declarations, "op_b", f"{self.type_name}({mul_res_bits} downto 0)"
+            declarations, "op_a, op_b", f"{self.type_name}({mul_res_bits} downto 0)"
         )
         common.signal_declaration(
             declarations, "tmp_res", f"{self.type_name}({mul_res_bits + 1} downto 0)"
         )
         common.signal_declaration(
-            declarations, "add_res", f"{self.type_name}({mul_res_bits} downto 0)"
+            declarations, "res_arith_0", f"{self.type_name}({mul_res_bits} downto 0)"
         )
-        common.signal_declaration(declarations, "res_arith_0", self.type_str)
 
         common.write(code, 1, "mul_res <= op_1 * op_2;")
+        # Align the added value with the fractional bits of the product
         common.write(
             code,
             1,
-            f"mul_res_quant <= resize(mul_res, {self.bits});",
+            f"op_a <= shift_left(resize(op_0, {res_bits}), {self.frac_bits}) when do_addsub = '1' else (others => '0');",
         )
         common.write(
             code,
             1,
             f"op_b <= resize(mul_res, {mul_res_bits + 1}) when is_add = '1' else not resize(mul_res, {mul_res_bits + 1});",
         )
-        common.write(code, 1, "tmp_res <= (op_0 & '1') + (op_b & not is_add);")
-        common.write(code, 1, f"add_res <= tmp_res({mul_res_bits + 1} downto 1);")
-        common.write(
-            code,
-            1,
-            "res_arith_0 <= resize(add_res, res_arith_0'length) when do_addsub = '1' else mul_res_quant;",
-        )
+        common.write(code, 1, "tmp_res <= (op_a & '1') + (op_b & not is_add);")
+        common.write(code, 1, f"res_arith_0 <= tmp_res({mul_res_bits + 1} downto 1);")
 
-        wls = [self._dt.wl]
+        wls = [(2 * self.int_bits + 1, 2 * self.frac_bits)]
         return wls, (declarations.getvalue(), code.getvalue())
 
     def print_SymmetricTwoportAdaptor_fixed_point_real(
-- 
2.43.0


From b5a94899a5f750b3c3a925ebda673c3a4153f55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:36 +0000
Subject: [PATCH 79/83] fix: control of pipelined symmetric two-port adaptors
 ignored the register split

---
 lib/b_asic/code_printer/vhdl/vhdl_printer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/code_printer/vhdl/vhdl_printer.py b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
index 5cee560..e8e6d06 100644
--- a/lib/b_asic/code_printer/vhdl/vhdl_printer.py
+++ b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
@@ -1208,7 +1208,9 @@ class VhdlPrinter(Printer):
             self._register_split = (n_in - n_consumed, n_out)
 
         if pipeline_after_sub:
-            self._pe_control_cycle.setdefault(pe.entity_name, {}).setdefault("value", 2)
+            self._pe_control_cycle.setdefault(pe.entity_name, {}).setdefault(
+                "value", n_in - n_consumed + 1
+            )
 
         add_res_type = f"{self.type_name}({self.bits + value_bits} downto 0)"
 
-- 
2.43.0


From 519e117f3b3d725d3e315b488402184c274257bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:51 +0000
Subject: [PATCH 80/83] fix: operands were taken from memory when another read
 fell at the same time of the period

---
 lib/b_asic/code_printer/vhdl/top_level.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/b_asic/code_printer/vhdl/top_level.py b/lib/b_asic/code_printer/vhdl/top_level.py
index 656aa62..fc66440 100644
--- a/lib/b_asic/code_printer/vhdl/top_level.py
+++ b/lib/b_asic/code_printer/vhdl/top_level.py
@@ -7,6 +7,7 @@ from typing import TYPE_CHECKING, TextIO
 from b_asic.code_printer.util import selector_bits, time_bin_str
 from b_asic.code_printer.vhdl import common
 from b_asic.data_type import _VhdlDataType
+from b_asic.port import InputPort
 from b_asic.process import MemoryOutputPort
 from b_asic.special_operations import Input, Output
 from b_asic.utility_operations import DontCare
@@ -138,12 +139,12 @@ def _collect_mux_info(arch: "Architecture") -> tuple[list[tuple], list[tuple]]:
                 input_latency = op_input_port.latency_offset or 0
                 for mem in arch.memories:
                     for var in mem.collection:
-                        read_times = [
-                            time % arch.schedule_time for time in var.read_times
-                        ]
-                        if (
-                            process.start_time + input_latency
-                        ) % arch.schedule_time not in read_times:
+                        if not any(
+                            isinstance(read_port, InputPort)
+                            and read_port.operation.graph_id == op.graph_id
+                            and read_port.index == port_number
+                            for read_port in var.read_ports
+                        ):
                             continue
                         root_port = var.root_write_port
                         var_op_id = root_port.operation.graph_id
-- 
2.43.0


From 875ad4494442ed9ac89244b58b6d5fcd28ba7a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:51 +0000
Subject: [PATCH 81/83] fix: shift registers of printed storage ignored the
 enable

---
 .../code_printer/vhdl/register_storage.py     | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/lib/b_asic/code_printer/vhdl/register_storage.py b/lib/b_asic/code_printer/vhdl/register_storage.py
index 0ec2557..d27986d 100644
--- a/lib/b_asic/code_printer/vhdl/register_storage.py
+++ b/lib/b_asic/code_printer/vhdl/register_storage.py
@@ -221,37 +221,37 @@ def architecture(
         common.write(f, 3, "if rst = '1' then")
         for reg_idx in range(reg_cnt):
             common.write(f, 4, f"shift_reg({reg_idx}) <= (others => '0');")
-        common.write(f, 3, "else")
+        common.write(f, 3, "elsif en = '1' then")
+    else:
+        common.write(f, 3, "if en = '1' then")
 
     common.write_lines(
         f,
         [
-            (3, "-- Default case"),
-            (3, "shift_reg(0) <= p_0_in;"),
+            (4, "-- Default case"),
+            (4, "shift_reg(0) <= p_0_in;"),
         ],
     )
     for reg_idx in range(1, reg_cnt):
-        common.write(f, 3, f"shift_reg({reg_idx}) <= shift_reg({reg_idx - 1});")
-    common.write(f, 3, "case back_edge_mux_sel is")
+        common.write(f, 4, f"shift_reg({reg_idx}) <= shift_reg({reg_idx - 1});")
+    common.write(f, 4, "case back_edge_mux_sel is")
     for edge, mux_sel in back_edge_table.items():
         common.write_lines(
             f,
             [
-                (4, f"when {mux_sel} =>"),
-                (5, f"shift_reg({edge[1]}) <= shift_reg({edge[0]});"),
+                (5, f"when {mux_sel} =>"),
+                (6, f"shift_reg({edge[1]}) <= shift_reg({edge[0]});"),
             ],
         )
     common.write_lines(
         f,
         [
-            (4, "when others => null;"),
-            (3, "end case;"),
+            (5, "when others => null;"),
+            (4, "end case;"),
+            (3, "end if;"),
         ],
     )
 
-    if sync_rst:
-        common.write(f, 3, "end if;")
-
     common.synchronous_process_epilogue(
         f,
         clk="clk",
-- 
2.43.0


From 741ee37c0c3f45ee0308869357afe6c498ee4e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:51 +0000
Subject: [PATCH 82/83] fix: output registers of printed memories ignored the
 enable

---
 lib/b_asic/code_printer/vhdl/memory_storage.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/b_asic/code_printer/vhdl/memory_storage.py b/lib/b_asic/code_printer/vhdl/memory_storage.py
index f7f45f5..accc644 100644
--- a/lib/b_asic/code_printer/vhdl/memory_storage.py
+++ b/lib/b_asic/code_printer/vhdl/memory_storage.py
@@ -278,10 +278,12 @@ def architecture(
                 write_time = p.start_time % schedule_time
             output_cases[write_time] = f"'{int(1 in p.reads.values())}'"
         common.synchronous_process_prologue(f, name="output_reg_proc")
-        common.write(f, 3, "if forward_ctrl = '1' then")
-        common.write(f, 4, "p_0_out_internal <= p_0_in_internal;")
-        common.write(f, 3, "else")
-        common.write(f, 4, "p_0_out_internal <= read_port_0;")
+        common.write(f, 3, "if en = '1' then")
+        common.write(f, 4, "if forward_ctrl = '1' then")
+        common.write(f, 5, "p_0_out_internal <= p_0_in_internal;")
+        common.write(f, 4, "else")
+        common.write(f, 5, "p_0_out_internal <= read_port_0;")
+        common.write(f, 4, "end if;")
         common.write(f, 3, "end if;")
         common.synchronous_process_epilogue(
             f,
-- 
2.43.0


From c44245b277ab084b204b910842b0fbba201296d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:51 +0000
Subject: [PATCH 83/83] fix: complex outputs of another word length were
 printed as illegal VHDL

---
 lib/b_asic/code_printer/vhdl/vhdl_printer.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/b_asic/code_printer/vhdl/vhdl_printer.py b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
index e8e6d06..2fbdf2b 100644
--- a/lib/b_asic/code_printer/vhdl/vhdl_printer.py
+++ b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
@@ -498,8 +498,8 @@ class VhdlPrinter(Printer):
         )
         common.write(code, 1, "res_arith_0_re <= op_0.re;")
         common.write(code, 1, "res_arith_0_im <= op_0.im;")
-        common.write(code, 1, "p_0_out_re <= std_logic_vector(res_overflow_0.re);")
-        common.write(code, 1, "p_0_out_im <= std_logic_vector(res_overflow_0.im);")
+        common.write(code, 1, "p_0_out_re <= std_logic_vector(res_overflow_0_re);")
+        common.write(code, 1, "p_0_out_im <= std_logic_vector(res_overflow_0_im);")
         wls = [(self._dt.wl[0], self._dt.wl[1])]
         return wls, (declarations.getvalue(), code.getvalue())
 
@@ -1911,9 +1911,10 @@ class VhdlPrinter(Printer):
                 f"res_overflow_{port_number}_re, res_overflow_{port_number}_im",
                 f"{self.get_scalar_type(target_bits)}",
             )
-            common.signal_declaration(
-                declarations, f"res_overflow_{port_number}", self.type_str
-            )
+            if not is_output:
+                common.signal_declaration(
+                    declarations, f"res_overflow_{port_number}", self.type_str
+                )
         else:
             common.signal_declaration(
                 declarations,
@@ -2003,7 +2004,7 @@ class VhdlPrinter(Printer):
             raise NotImplementedError(
                 f"Overflow mode {self._dt.overflow_mode.name} not implemented for VHDL"
             )
-        if self.is_complex:
+        if self.is_complex and not is_output:
             # Combine real and imaginary parts into output signal with type complex
             common.write(
                 code,
-- 
2.43.0

