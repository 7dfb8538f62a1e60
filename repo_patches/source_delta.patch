From 20b5856e00248778fa7a4f581f3a160e45994c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:56 +0000
Subject: [PATCH 01/98] fix: butterfly operations with a twiddle factor could
 not be copied into an SFG

R2DIFButterfly, R2DITButterfly and R2TFButterfly had required constructor
arguments, which the generic copy used by the SFG constructor does not pass.
---
 lib/b_asic/fft_operations.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/b_asic/fft_operations.py b/lib/b_asic/fft_operations.py
index f0851ae..df80500 100644
--- a/lib/b_asic/fft_operations.py
+++ b/lib/b_asic/fft_operations.py
@@ -107,7 +107,7 @@ class R2DIFButterfly(AbstractOperation):
 
     Parameters
     ----------
-    w : complex
+    w : complex, default: 1
         Twiddle factor to multiply the second output with.
     src0, src1 : SignalSourceProvider, optional
         The two signals to compute the 2-point DFT of.
@@ -147,7 +147,7 @@ class R2DIFButterfly(AbstractOperation):
 
     def __init__(
         self,
-        w: complex,
+        w: complex = 1,
         src0: SignalSourceProvider | None = None,
         src1: SignalSourceProvider | None = None,
         name: Name = Name(""),
@@ -204,7 +204,7 @@ class R2DITButterfly(AbstractOperation):
 
     Parameters
     ----------
-    w : complex
+    w : complex, default: 1
         Twiddle factor to multiply the second input with.
     src0, src1 : SignalSourceProvider, optional
         The two signals to compute the 2-point DFT of.
@@ -244,7 +244,7 @@ class R2DITButterfly(AbstractOperation):
 
     def __init__(
         self,
-        w: complex,
+        w: complex = 1,
         src0: SignalSourceProvider | None = None,
         src1: SignalSourceProvider | None = None,
         name: Name = Name(""),
@@ -302,9 +302,9 @@ class R2TFButterfly(AbstractOperation):
 
     Parameters
     ----------
-    w0 : complex
+    w0 : complex, default: 1
         Twiddle factor to multiply the first output with.
-    w1 : complex
+    w1 : complex, default: 1
         Twiddle factor to multiply the second output with.
     src0, src1 : SignalSourceProvider, optional
         The two signals to compute the 2-point DFT of.
@@ -346,8 +346,8 @@ class R2TFButterfly(AbstractOperation):
 
     def __init__(
         self,
-        w0: complex,
-        w1: complex,
+        w0: complex = 1,
+        w1: complex = 1,
         src0: SignalSourceProvider | None = None,
         src1: SignalSourceProvider | None = None,
         name: Name = Name(""),
-- 
2.43.0


From 0ca97d3723be446997ffe056a741699fad2e3a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:35 +0000
Subject: [PATCH 02/98] fix: an input connected both to an output and to an
 operation was listed twice in its SFG

The duplicate entry counted twice in the precedence list, so simulation
evaluated operations before their inputs were available.
---
 lib/b_asic/sfg.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 666ea69..7dd7850 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -281,12 +281,10 @@ class SFG(AbstractOperation):
                         new_signal.destination.operation,
                     ]
                 )
-                self._operations_dfs_order.extend(
-                    [
-                        source.operation,
-                        new_signal.destination.operation,
-                    ]
-                )
+                # The input may already be listed through another of its signals.
+                if source.operation not in self._operations_dfs_order:
+                    self._operations_dfs_order.append(source.operation)
+                self._operations_dfs_order.append(new_signal.destination.operation)
 
         # Search the graph inwards from each output signal.
         output_sources = []
-- 
2.43.0


From ce4bb8c2b30ad51bc3e52f8ceb5a24865e82b29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:34 +0000
Subject: [PATCH 03/98] fix: a real-valued reciprocal square root lost that
 property when copied into an SFG

---
 lib/b_asic/core_operations.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/lib/b_asic/core_operations.py b/lib/b_asic/core_operations.py
index 8efd04e..9c7e187 100644
--- a/lib/b_asic/core_operations.py
+++ b/lib/b_asic/core_operations.py
@@ -2158,7 +2158,6 @@ class ReciprocalSquareRoot(AbstractOperation):
         "_latency",
         "_latency_offsets",
         "_name",
-        "_real_valued",
         "_src0",
     )
     _src0: SignalSourceProvider | None
@@ -2166,7 +2165,6 @@ class ReciprocalSquareRoot(AbstractOperation):
     _latency: int | None
     _latency_offsets: dict[str, int] | None
     _execution_time: int | None
-    _real_valued: bool | None
 
     def __init__(
         self,
@@ -2187,17 +2185,27 @@ class ReciprocalSquareRoot(AbstractOperation):
             latency_offsets=latency_offsets,
             execution_time=execution_time,
         )
-        self._real_valued = real_valued
+        self.set_param("real_valued", real_valued)
 
     @classmethod
     def type_name(cls) -> TypeName:
         return TypeName("recsqrt")
 
+    @property
+    def real_valued(self) -> bool | None:
+        """Get if only the real part of the input is considered."""
+        return self.param("real_valued")
+
+    @real_valued.setter
+    def real_valued(self, real_valued: bool | None) -> None:
+        """Set if only the real part of the input is considered."""
+        self.set_param("real_valued", real_valued)
+
     def evaluate(self, a, data_type=None) -> Num:
         if isinstance(a, numbers.Real):
             res = float("inf") if a == 0 else float(a) ** (-0.5)
         else:
-            operand = complex(a).real if self._real_valued else complex(a)
+            operand = complex(a).real if self.real_valued else complex(a)
             res = float("inf") if operand == 0 else operand ** (-0.5)
         return self._cast_to_data_type(res, data_type)
 
-- 
2.43.0


From cb2200dd377b705753abf398662e571cbb9415f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 04/98] fix: an input with several consumers was listed several
 times among a graph's components

---
 lib/b_asic/sfg.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 7dd7850..09e5c83 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -274,16 +274,13 @@ class SFG(AbstractOperation):
             elif new_signal.destination.operation in output_operations_set:
                 # Add directly connected input to output to ordered list.
                 source = cast(OutputPort, new_signal.source)
-                self._components_dfs_order.extend(
-                    [
-                        source.operation,
-                        new_signal,
-                        new_signal.destination.operation,
-                    ]
-                )
                 # The input may already be listed through another of its signals.
                 if source.operation not in self._operations_dfs_order:
+                    self._components_dfs_order.append(source.operation)
                     self._operations_dfs_order.append(source.operation)
+                self._components_dfs_order.extend(
+                    [new_signal, new_signal.destination.operation]
+                )
                 self._operations_dfs_order.append(new_signal.destination.operation)
 
         # Search the graph inwards from each output signal.
@@ -1613,10 +1610,9 @@ class SFG(AbstractOperation):
                         )
 
                         source = cast(OutputPort, new_signal.source)
-                        self._components_dfs_order.extend(
-                            [new_signal, source.operation]
-                        )
+                        self._components_dfs_order.append(new_signal)
                         if source.operation not in self._operations_dfs_order:
+                            self._components_dfs_order.append(source.operation)
                             self._operations_dfs_order.append(source.operation)
 
                     # Check if the signal has not been added before.
-- 
2.43.0


From 17db746e8456953d44adee46b8fdc0355a7b1528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:07 +0000
Subject: [PATCH 05/98] fix: the operation order of a graph repeated or missed
 operations on loops and failed without inputs

---
 lib/b_asic/sfg.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 09e5c83..06a0503 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -1340,6 +1340,9 @@ class SFG(AbstractOperation):
         seen = set()
         top_order = []
 
+        if len(no_inputs_queue) == 0:
+            # There are only loops, so start from a delay
+            no_inputs_queue.extend(self.find_by_type(Delay)[:1])
         if len(no_inputs_queue) == 0:
             raise ValueError("Illegal SFG state, dangling signals in SFG.")
 
@@ -1350,7 +1353,7 @@ class SFG(AbstractOperation):
         # Negative priority as max-heap popping is wanted
         p_queue.put((-first_op.output_count, -next(p_queue_entry_num), first_op))
 
-        operations_left = len(self.operations) - 1
+        operations_left = len(self.operations)
 
         seen_but_not_visited_count = 0
 
@@ -1368,6 +1371,9 @@ class SFG(AbstractOperation):
                         remaining_inports = remaining_inports_per_operation[neighbor_op]
 
                         if remaining_inports == 0:
+                            if neighbor_op in seen:
+                                seen_with_inputs_dict[1].remove(neighbor_op)
+                                seen_but_not_visited_count -= 1
                             p_queue.put(
                                 (
                                     -neighbor_op.output_count,
@@ -1417,7 +1423,16 @@ class SFG(AbstractOperation):
                             seen_but_not_visited_count -= 1
                             break
                 else:
-                    raise RuntimeError("Disallowed structure in SFG detected")
+                    # Only loops that nothing else leads into are left
+                    new_op = next(
+                        (op for op in self.find_by_type(Delay) if op not in visited),
+                        None,
+                    )
+                    if new_op is None:
+                        raise RuntimeError("Disallowed structure in SFG detected")
+                    p_queue.put(
+                        (-new_op.output_count, -next(p_queue_entry_num), new_op)
+                    )
 
         self._operations_topological_order = top_order
         return self._operations_topological_order
-- 
2.43.0


From c869de060f62d49e8d6cf636ff96366b3d4f6afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:27 +0000
Subject: [PATCH 06/98] fix: joining an imaginary multiplication with an adder
 computed something else

---
 lib/b_asic/core_operations.py | 63 ++++++++++++++---------------------
 lib/b_asic/sfg.py             | 24 +++++++++----
 2 files changed, 42 insertions(+), 45 deletions(-)

diff --git a/lib/b_asic/core_operations.py b/lib/b_asic/core_operations.py
index 9c7e187..75bcb6f 100644
--- a/lib/b_asic/core_operations.py
+++ b/lib/b_asic/core_operations.py
@@ -1599,7 +1599,9 @@ class ImaginaryMultiplication(AbstractOperation):
         res = a * 1j
         return self._cast_to_data_type(res, data_type)
 
-    def _join(self, other: "AbstractOperation") -> Union["SFG", None]:
+    def _join(
+        self, other: "AbstractOperation", index: int = 1
+    ) -> Union["SFG", None]:
         from b_asic.sfg import SFG  # noqa: PLC0415
         from b_asic.special_operations import Input, Output  # noqa: PLC0415
 
@@ -1609,48 +1611,33 @@ class ImaginaryMultiplication(AbstractOperation):
         in0 = Input()
         in1 = Input()
         out0 = Output()
-        if other.mul_j:
-            in1 = -in1
+        if index == 1:
+            src0, src1 = in0, in1
+            if other.mul_j:
+                src1 = -src1
+        elif other.is_swappable:
+            src0, src1 = in1, in0
+        else:
+            return None
 
+        kwargs = {
+            "src0": src0,
+            "src1": src1,
+            "name": self.name,
+            "latency_offsets": self.latency_offsets,
+            "execution_time": self.execution_time,
+            "mul_j": not other.mul_j,
+            "shift_output": other.shift_output,
+        }
         if isinstance(other, Addition):
-            op = Addition(
-                src0=in0,
-                src1=in1,
-                name=self.name,
-                latency_offsets=self.latency_offsets,
-                execution_time=self.execution_time,
-                mul_j=not other.mul_j,
-            )
+            op = Addition(**kwargs)
         elif isinstance(other, Subtraction):
-            op = Subtraction(
-                src0=in0,
-                src1=in1,
-                name=self.name,
-                latency_offsets=self.latency_offsets,
-                execution_time=self.execution_time,
-                mul_j=not other.mul_j,
-            )
+            op = Subtraction(**kwargs)
         elif isinstance(other, AddSub):
-            op = AddSub(
-                src0=in0,
-                src1=in1,
-                is_add=other.is_add,
-                name=self.name,
-                latency_offsets=self.latency_offsets,
-                execution_time=self.execution_time,
-                mul_j=not other.mul_j,
-            )
+            op = AddSub(is_add=other.is_add, **kwargs)
         elif isinstance(other, ShiftAddSub):
-            op = ShiftAddSub(
-                src0=in0,
-                src1=in1,
-                is_add=other.is_add,
-                shift=other.shift,
-                name=self.name,
-                latency_offsets=self.latency_offsets,
-                execution_time=self.execution_time,
-                mul_j=not other.mul_j,
-            )
+            op = ShiftAddSub(is_add=other.is_add, shift=other.shift, **kwargs)
+        op.graph_id = other.graph_id
         out0 <<= op
         return SFG([in0, in1], [out0])
 
diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 06a0503..211c2df 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -2686,13 +2686,23 @@ class SFG(AbstractOperation):
                 raise ValueError(
                     "Can only join forward if the operation has exactly one output"
                 )
-            for sig in op.output(0).signals:
-                dest_op = sig.destination_operation
-                if hasattr(op, "_join"):
-                    joined_op = op._join(dest_op)
-                    new_sfg = new_sfg.replace(dest_op.graph_id, joined_op)
-                    new_sfg.find_by_id("sfg0").connect_external_signals_to_components()
-                    new_sfg = new_sfg()
+            if not hasattr(op, "_join"):
+                raise ValueError(f"Operation {target} cannot be joined")
+            destinations = [sig.destination for sig in op.output(0).signals]
+            if len({dest.operation for dest in destinations}) != len(destinations):
+                raise ValueError(
+                    f"Operation {target} is connected more than once to an operation"
+                )
+            for dest in destinations:
+                dest_op = dest.operation
+                joined_op = op._join(dest_op, dest.index)
+                if joined_op is None:
+                    raise ValueError(
+                        f"Operation {target} cannot be joined with {dest_op.graph_id}"
+                    )
+                new_sfg = new_sfg.replace(dest_op.graph_id, joined_op)
+                new_sfg.find_by_id("sfg0").connect_external_signals_to_components()
+                new_sfg = new_sfg()
             new_sfg = new_sfg.remove_operation(target)
         elif direction == "backward":
             raise NotImplementedError("Joining backward is not implemented yet")
-- 
2.43.0


From a48852d1162bacbbfe726542b458ddcecc15c170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:33 +0000
Subject: [PATCH 07/98] fix: an adder multiplying its second input by j was
 reported as swappable

---
 lib/b_asic/core_operations.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/b_asic/core_operations.py b/lib/b_asic/core_operations.py
index 75bcb6f..d793529 100644
--- a/lib/b_asic/core_operations.py
+++ b/lib/b_asic/core_operations.py
@@ -245,7 +245,6 @@ class Addition(AbstractOperation):
     _shift_output: int
 
     is_linear = True
-    is_swappable = True
 
     def __init__(
         self,
@@ -343,6 +342,10 @@ class Addition(AbstractOperation):
                 res = res / (2**self.shift_output)
         return self._cast_to_data_type(res, data_type)
 
+    @property
+    def is_swappable(self) -> bool:
+        return not self.mul_j
+
     def _rewrite_AddSub(self) -> "SFG":
         from b_asic.sfg import SFG  # noqa: PLC0415
         from b_asic.special_operations import Input, Output  # noqa: PLC0415
@@ -766,7 +769,7 @@ class AddSub(AbstractOperation):
 
     @property
     def is_swappable(self) -> bool:
-        return self.is_add
+        return self.is_add and not self.mul_j
 
     def _rewrite_ShiftAddSub(self) -> "SFG":
         from b_asic.sfg import SFG  # noqa: PLC0415
@@ -1014,7 +1017,7 @@ class ShiftAddSub(AbstractOperation):
 
     @property
     def is_swappable(self) -> bool:
-        return self.is_add and self.shift == 0
+        return self.is_add and self.shift == 0 and not self.mul_j
 
 
 class Multiplication(AbstractOperation):
-- 
2.43.0


From bf9582c951e58fd364928c3fec347e845e2e39bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:25 +0000
Subject: [PATCH 08/98] fix: rewriting a constant multiplication into shifts
 gave wrong values or failed for zero, some negative and some large
 coefficients

---
 lib/b_asic/core_operations.py | 36 ++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/lib/b_asic/core_operations.py b/lib/b_asic/core_operations.py
index d793529..6daaea4 100644
--- a/lib/b_asic/core_operations.py
+++ b/lib/b_asic/core_operations.py
@@ -1749,8 +1749,13 @@ class ConstantMultiplication(AbstractOperation):
         frac_bits = csd[1]
         max_exp = bits - 1 - frac_bits
 
-        if len(csd[0]) == 1:
+        if not csd[0]:
+            # Multiplication by zero
+            prev_op = ShiftAddSub(is_add=False, src0=in0, src1=in0)
+        elif len(csd[0]) == 1:
             prev_op = Shift(frac_bits, prev_op)
+            if csd[0][0] == -1:
+                prev_op = Negation(prev_op)
         else:
             first_nonzero = True
             for i, digit in enumerate(csd[0]):
@@ -1774,11 +1779,12 @@ class ConstantMultiplication(AbstractOperation):
                             prev_op = Negation(prev_op)
                 else:
                     # Subsequent digits: add or subtract from accumulated result
+                    # (ShiftAddSub only shifts right)
                     prev_op = ShiftAddSub(
                         is_add=digit == 1,
-                        shift=-exp,
+                        shift=max(-exp, 0),
                         src0=prev_op,
-                        src1=in0,
+                        src1=Shift(-exp, in0) if exp > 0 else in0,
                     )
 
         out0 <<= prev_op
@@ -1796,16 +1802,19 @@ class ConstantMultiplication(AbstractOperation):
         out0 = Output()
         prev_op = in0
 
-        if self.value < 0:
-            prev_op = Negation(prev_op)
-
         bits = len(csd[0])
         frac_bits = csd[1]
         max_exp = bits - 1 - frac_bits
 
-        if len(csd[0]) == 1:
+        if not csd[0]:
+            # Multiplication by zero
+            prev_op = Subtraction(in0, in0)
+        elif len(csd[0]) == 1:
             prev_op = Shift(frac_bits, prev_op)
+            if csd[0][0] == -1:
+                prev_op = Negation(prev_op)
         else:
+            first_nonzero = True
             for i, digit in enumerate(csd[0]):
                 if digit not in (-1, 0, 1):
                     raise ValueError("CSD representation can only contain -1, 0, and 1")
@@ -1813,13 +1822,14 @@ class ConstantMultiplication(AbstractOperation):
                     continue
 
                 exp = max_exp - i
-                if exp == 0:
-                    continue
-
-                shift = Shift(-exp, in0)
-                if digit == 1:
+                shift = in0 if exp == 0 else Shift(-exp, in0)
+                if first_nonzero:
+                    # First non-zero digit initializes prev_op
+                    first_nonzero = False
+                    prev_op = shift if digit == 1 else Negation(shift)
+                elif digit == 1:
                     prev_op = Addition(prev_op, shift)
-                elif digit == -1:
+                else:
                     prev_op = Subtraction(prev_op, shift)
         out0 <<= prev_op
 
-- 
2.43.0


From 1470e01476bb83cb4b59d3a5a30e1be49e722f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:31 +0000
Subject: [PATCH 09/98] fix: flattening failed for nested graphs with unused
 inputs and never ended for nested graphs without inputs

---
 lib/b_asic/sfg.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 211c2df..e936dbc 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -437,7 +437,7 @@ class SFG(AbstractOperation):
                 f" number of output_operations ({len(self.output_operations)})"
                 " in SFG."
             )
-        if len(self.input_signals) == 0:
+        if self.inputs and len(self.input_signals) == 0:
             return False
         if len(self.output_signals) == 0:
             return False
@@ -446,6 +446,10 @@ class SFG(AbstractOperation):
         for input_port, input_operation in zip(
             self.inputs, self.input_operations, strict=True
         ):
+            if not input_operation.output(0).signals:
+                # The input is not used inside the SFG
+                input_port.clear()
+                continue
             destination = input_operation.output(0).signals[0].destination
             if destination is None:
                 raise ValueError("Missing destination in signal.")
-- 
2.43.0


From e72d864047422017f1d1818b192f2b2320bd5c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:31 +0000
Subject: [PATCH 10/98] fix: extracting a subgraph left connections open unless
 it had as many inputs as outputs

---
 lib/b_asic/sfg.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index e936dbc..86aa4ab 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -698,6 +698,7 @@ class SFG(AbstractOperation):
 
     def extract(self, targets: Iterable[GraphID]) -> "SFG":
         sfg_copy = self()
+        targets = list(targets)
 
         for target in targets:
             target_op = sfg_copy.find_by_id(target)
@@ -743,13 +744,12 @@ class SFG(AbstractOperation):
                 "Mismatch between extracted boundary ports and sub-SFG ports"
             )
 
-        for idx, ((in_sig_id, _), (out_sig_id, _)) in enumerate(
-            zip(inputs, outputs, strict=False)
-        ):
+        for idx, (in_sig_id, _) in enumerate(inputs):
             in_sig = sfg_copy.find_by_id(in_sig_id)
             in_sig.remove_destination()
             in_sig.set_destination(sub_sfg.input(idx))
 
+        for idx, (out_sig_id, _) in enumerate(outputs):
             out_sig = sfg_copy.find_by_id(out_sig_id)
             out_sig.remove_source()
             out_sig.set_source(sub_sfg.output(idx))
-- 
2.43.0


From 839b669081bf7e44affa3f5e0a70c465d0121ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:31 +0000
Subject: [PATCH 11/98] fix: simplifying delay placement merged delays with
 different initial values

---
 lib/b_asic/sfg.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 86aa4ab..b8ea893 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -1085,13 +1085,15 @@ class SFG(AbstractOperation):
                         signal.destination.operation
                         for signal in delay_element.inputs[0].signals[0].source.signals
                         if isinstance(signal.destination.operation, Delay)
+                        and signal.destination.operation.initial_value
+                        == delay_element.initial_value
                     ]
 
                     if delay_element in neighboring_delays:
                         neighboring_delays.remove(delay_element)
 
                     for delay in neighboring_delays:
-                        for output in delay.outputs[0].signals:
+                        for output in delay.outputs[0].signals[:]:
                             output.set_source(delay_element.outputs[0])
                         in_sig = delay.input(0).signals[0]
                         delay.input(0).remove_signal(in_sig)
-- 
2.43.0


From 41f3945b22c98ca5b774603ee1e1f7dabdb2e6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:58 +0000
Subject: [PATCH 12/98] fix: flattening a graph with unused nested inputs or
 sinks failed

---
 lib/b_asic/sfg.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index b8ea893..2715e4b 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -448,6 +448,8 @@ class SFG(AbstractOperation):
         ):
             if not input_operation.output(0).signals:
                 # The input is not used inside the SFG
+                for signal in input_port.signals[:]:
+                    signal.remove_source()
                 input_port.clear()
                 continue
             destination = input_operation.output(0).signals[0].destination
@@ -526,7 +528,7 @@ class SFG(AbstractOperation):
                     )
                     changed = True
                     break
-                if expand and not isinstance(op, (Input, Output)):
+                if expand and op.output_count and not isinstance(op, Input):
                     op_sfg = op.to_sfg()
                     inner = [
                         o
-- 
2.43.0


From 0ebd7557f142d25416af2f1b17fffd20aeccfc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:58 +0000
Subject: [PATCH 13/98] fix: removing an operation with an unused output left a
 signal without destination

---
 lib/b_asic/sfg.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 2715e4b..0e9eedc 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -1195,6 +1195,7 @@ class SFG(AbstractOperation):
                 if operation.input(i).signal_count > 0:
                     in_sig = operation.input(i).signals[0]
                     operation.input(i).remove_signal(in_sig)
+                    in_sig.remove_source()
 
         return sfg_copy()
 
-- 
2.43.0


From d96ac0655d551ee142d33bb4524d50170c6f2370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 14/98] fix: flattening a graph with a nested graph whose
 outputs are unused never ended

---
 lib/b_asic/sfg.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 0e9eedc..c56caac 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -437,9 +437,9 @@ class SFG(AbstractOperation):
                 f" number of output_operations ({len(self.output_operations)})"
                 " in SFG."
             )
-        if self.inputs and len(self.input_signals) == 0:
-            return False
-        if len(self.output_signals) == 0:
+        if len(self.input_signals) == 0 and (
+            self.inputs or len(self.output_signals) == 0
+        ):
             return False
 
         # For each input_signal, connect it to the corresponding operation
-- 
2.43.0


From 4180975c12ba64576fdbf5863f9aad1a4861fb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:30 +0000
Subject: [PATCH 15/98] fix: rewriting or joining in a graph with a nested
 graph flattened the wrong one

---
 lib/b_asic/sfg.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index c56caac..6e53bf6 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -2589,7 +2589,7 @@ class SFG(AbstractOperation):
             func_name = f"_rewrite_{source.__name__}"
             if hasattr(op, func_name):
                 sub_sfg = getattr(op, func_name)()
-                new_sfg = new_sfg.replace(op.graph_id, sub_sfg)
+                new_sfg = new_sfg._replace_flattened(op.graph_id, sub_sfg)
             else:
                 warnings.warn(
                     f"No rewrite method found for target operation type {type(op).__name__} to source operation type {source.__name__}",
@@ -2599,7 +2599,7 @@ class SFG(AbstractOperation):
                 func_name = f"_from_{type(op).__name__}"
                 if hasattr(source, func_name):
                     sub_sfg = getattr(source, func_name)(op)
-                    new_sfg = new_sfg.replace(op.graph_id, sub_sfg)
+                    new_sfg = new_sfg._replace_flattened(op.graph_id, sub_sfg)
                 else:
                     warnings.warn(
                         f"No rewrite method found for target operation type {type(op).__name__} to source operation type {source.__name__}",
@@ -2607,12 +2607,17 @@ class SFG(AbstractOperation):
                     )
                     return new_sfg()
 
-            if not isinstance(sub_sfg, SFG):
-                continue
-
-            new_sfg.find_by_id("sfg0").connect_external_signals_to_components()
-            new_sfg = new_sfg()
+        return new_sfg()
 
+    def _replace_flattened(self, target: GraphID, component: Operation) -> "SFG":
+        """Replace an operation and, if replaced by an SFG, flatten that SFG."""
+        if not isinstance(component, SFG):
+            return self.replace(target, component)
+        component.graph_id = self._graph_id_generator.next_id(
+            component.type_name(), self._used_ids
+        )
+        new_sfg = self.replace(target, component)
+        new_sfg.find_by_id(component.graph_id).connect_external_signals_to_components()
         return new_sfg()
 
     def _rewrite_ShiftAddSub(self) -> "SFG":
@@ -2709,9 +2714,7 @@ class SFG(AbstractOperation):
                     raise ValueError(
                         f"Operation {target} cannot be joined with {dest_op.graph_id}"
                     )
-                new_sfg = new_sfg.replace(dest_op.graph_id, joined_op)
-                new_sfg.find_by_id("sfg0").connect_external_signals_to_components()
-                new_sfg = new_sfg()
+                new_sfg = new_sfg._replace_flattened(dest_op.graph_id, joined_op)
             new_sfg = new_sfg.remove_operation(target)
         elif direction == "backward":
             raise NotImplementedError("Joining backward is not implemented yet")
-- 
2.43.0


From fa3a51eb252657d171921e7ffa5e6cc0bc7e5d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:31 +0000
Subject: [PATCH 16/98] fix: unfolding lost the initial values of delays

---
 lib/b_asic/sfg.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 6e53bf6..cd08619 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -2456,7 +2456,9 @@ class SFG(AbstractOperation):
 
         # Remove all delay elements in the SFG and replace each one
         # with one input operation and one output operation
+        initial_values = {}
         for delay in sfg.find_by_type(Delay):
+            initial_values[delay.graph_id] = delay.initial_value
             tmp_input = Input(name="input_" + delay.graph_id)
             tmp_output = Output(
                 src0=delay.input(0).signals[0].source, name="output_" + delay.graph_id
@@ -2526,7 +2528,11 @@ class SFG(AbstractOperation):
                     number_of_delays_between = (i + 1) // factor
                     input_port = sfgs[j].input(input_name_to_idx["input_t" + index])
                     input_port.connect(port)
-                    delay_placements[port] = [i, number_of_delays_between]
+                    delay_placements[port] = [
+                        i,
+                        number_of_delays_between,
+                        initial_values["t" + index],
+                    ]
             # deterministically set the graphID of the SFGs
             sfgs[i].graph_id = f"sfg{i}"
 
@@ -2534,9 +2540,11 @@ class SFG(AbstractOperation):
 
         # Insert the interconnect delays according to what is saved in delay_placements
         for port, val in delay_placements.items():
-            i, no_of_delays = val
+            i, no_of_delays, initial_value = val
             for _ in range(no_of_delays):
-                sfg = sfg.insert_operation_after(f"sfg{i}.{port.index}", Delay())
+                sfg = sfg.insert_operation_after(
+                    f"sfg{i}.{port.index}", Delay(initial_value=initial_value)
+                )
 
         # Flatten all the copies of the original SFG
         for i in range(factor):
-- 
2.43.0


From a8115b35226b8043f1ed84a95158af452299fce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:46 +0000
Subject: [PATCH 17/98] fix: unfolding by a negative factor returned an empty
 graph

---
 lib/b_asic/sfg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index cd08619..0075efe 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -2448,6 +2448,8 @@ class SFG(AbstractOperation):
         """
         if factor == 0:
             raise ValueError("Unfolding 0 times removes the SFG")
+        if factor < 0:
+            raise ValueError("Unfolding factor must be positive")
 
         sfg = self()  # copy the sfg
 
-- 
2.43.0


From 2a0fe0bef805adcabc752c68880f3448747205cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:20 +0000
Subject: [PATCH 18/98] fix: unfolding failed for inputs and outputs named like
 those it creates itself

---
 lib/b_asic/sfg.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 0075efe..34ef047 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -2458,9 +2458,11 @@ class SFG(AbstractOperation):
 
         # Remove all delay elements in the SFG and replace each one
         # with one input operation and one output operation
-        initial_values = {}
+        no_of_inputs = len(inputs)
+        no_of_outputs = len(outputs)
+        initial_values = []
         for delay in sfg.find_by_type(Delay):
-            initial_values[delay.graph_id] = delay.initial_value
+            initial_values.append(delay.initial_value)
             tmp_input = Input(name="input_" + delay.graph_id)
             tmp_output = Output(
                 src0=delay.input(0).signals[0].source, name="output_" + delay.graph_id
@@ -2492,7 +2494,6 @@ class SFG(AbstractOperation):
                 if operation.name[:7] not in ["", "input_t", "output_"]:
                     operation.name = operation.name + suffix
 
-        input_name_to_idx = {}  # save the input port indices for future reference
         new_inputs = []
         # For each copy of the SFG, create new input operations for every "original"
         # input operation and connect them to begin creating the unfolded SFG
@@ -2500,15 +2501,12 @@ class SFG(AbstractOperation):
             for port, operation in zip(
                 sfgs[i].inputs, sfgs[i].input_operations, strict=True
             ):
-                if not operation.name.startswith("input_t"):
+                # The inputs created when removing the delays come last
+                if port.index < no_of_inputs:
                     new_input = Input(name=operation.name)
                     new_input.graph_id = operation.graph_id
                     new_inputs.append(new_input)
                     port.connect(new_input)
-                else:
-                    # If the input was created earlier when removing the delays
-                    # then just save the index
-                    input_name_to_idx[operation.name] = port.index
 
         # Connect the original outputs in the same way as the inputs
         # Also connect the copies of the SFG together according to a formula
@@ -2520,20 +2518,20 @@ class SFG(AbstractOperation):
             for port, operation in zip(
                 sfgs[i].outputs, sfgs[i].output_operations, strict=True
             ):
-                if not operation.name.startswith("output_t"):
+                if port.index < no_of_outputs:
                     new_output = Output(port, name=operation.name)
                     new_output.graph_id = operation.graph_id
                     new_outputs.append(new_output)
                 else:
-                    index = operation.name[8:]  # Remove the "output_t" prefix
+                    index = port.index - no_of_outputs
                     j = (i + 1) % factor
                     number_of_delays_between = (i + 1) // factor
-                    input_port = sfgs[j].input(input_name_to_idx["input_t" + index])
+                    input_port = sfgs[j].input(no_of_inputs + index)
                     input_port.connect(port)
                     delay_placements[port] = [
                         i,
                         number_of_delays_between,
-                        initial_values["t" + index],
+                        initial_values[index],
                     ]
             # deterministically set the graphID of the SFGs
             sfgs[i].graph_id = f"sfg{i}"
-- 
2.43.0


From e5fd1cede2ccd55419d138fffd86e4ead13830ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:53 +0000
Subject: [PATCH 19/98] fix: refused connections left signals and ports
 inconsistent

---
 lib/b_asic/signal.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/signal.py b/lib/b_asic/signal.py
index b0da421..993a2de 100644
--- a/lib/b_asic/signal.py
+++ b/lib/b_asic/signal.py
@@ -56,7 +56,12 @@ class Signal(AbstractGraphComponent):
         if source is not None:
             self.set_source(source)
         if destination is not None:
-            self.set_destination(destination)
+            try:
+                self.set_destination(destination)
+            except Exception:
+                # Do not leave a half-connected signal at the source.
+                self.remove_source()
+                raise
         self.set_param("bits", bits)
 
     @classmethod
@@ -119,6 +124,8 @@ class Signal(AbstractGraphComponent):
             new_source = source
 
         if new_source is not self._source:
+            if new_source is None:
+                raise ValueError("Cannot connect to a signal without source.")
             self.remove_source()
             self._source = new_source
             if self not in new_source.signals:
@@ -153,6 +160,10 @@ class Signal(AbstractGraphComponent):
             new_destination = destination
 
         if new_destination is not self._destination:
+            if new_destination is None:
+                raise ValueError("Cannot connect to a signal without destination.")
+            if new_destination.signals and self not in new_destination.signals:
+                raise ValueError("Cannot add to already connected input port.")
             self.remove_destination()
             self._destination = new_destination
             if self not in new_destination.signals:
-- 
2.43.0


From fa3e4f6011763a1ebb1af5f39b91e7abc171e852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:53 +0000
Subject: [PATCH 20/98] fix: creating an operation with an unusable source left
 other sources connected

---
 lib/b_asic/operation.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/b_asic/operation.py b/lib/b_asic/operation.py
index 08db846..ffaba60 100644
--- a/lib/b_asic/operation.py
+++ b/lib/b_asic/operation.py
@@ -491,13 +491,14 @@ class AbstractOperation(Operation, AbstractGraphComponent):
                     "Wrong number of input sources supplied to Operation"
                     f" (expected {input_count}, got {source_count})"
                 )
-            for i, src in enumerate(input_sources):
+            # Find all sources before connecting any of them, as some may be unusable.
+            sources = [
+                src if src is None or isinstance(src, Signal) else src.source
+                for src in input_sources
+            ]
+            for input_port, src in zip(self._input_ports, sources, strict=True):
                 if src is not None:
-                    if isinstance(src, Signal):
-                        # Already existing signal
-                        src.set_destination(self._input_ports[i])
-                    else:
-                        self._input_ports[i].connect(src.source)
+                    input_port.connect(src)
 
         # Set specific latency_offsets
         if latency_offsets is not None:
-- 
2.43.0


From 1876d39716ede3591017c8546b32e97cc9d704b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:44 +0000
Subject: [PATCH 21/98] fix: shifting by a negative amount with << and >>
 shifted the wrong way

---
 lib/b_asic/core_operations.py | 6 +++---
 lib/b_asic/port.py            | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/b_asic/core_operations.py b/lib/b_asic/core_operations.py
index 6daaea4..35d8d79 100644
--- a/lib/b_asic/core_operations.py
+++ b/lib/b_asic/core_operations.py
@@ -2416,14 +2416,14 @@ class Shift(AbstractOperation):
 
     Shifts the input to the left or right assuming a fixed-point representation, so
     a multiplication by a power of two. By definition a positive value is a shift to
-    the left.
+    the right.
 
-    .. math:: y = x \ll \text{value} = 2^{\text{value}}x
+    .. math:: y = x \gg \text{value} = 2^{-\text{value}}x
 
     Parameters
     ----------
     value : int
-        Number of bits to shift. Positive *value* shifts to the left.
+        Number of bits to shift. Positive *value* shifts to the right.
     src0 : :class:`~b_asic.port.SignalSourceProvider`, optional
         The signal to shift.
     name : Name, optional
diff --git a/lib/b_asic/port.py b/lib/b_asic/port.py
index 18b361b..863189e 100644
--- a/lib/b_asic/port.py
+++ b/lib/b_asic/port.py
@@ -282,7 +282,7 @@ class SignalSourceProvider(ABC):
             raise TypeError("Can only shift with an int")
         if src >= 0:
             return LeftShift(src, self)
-        return Shift(src, self)
+        return Shift(-src, self)
 
     def __rshift__(self, src: int) -> Union["RightShift", "Shift"]:
         # Import here to avoid circular imports.
@@ -292,7 +292,7 @@ class SignalSourceProvider(ABC):
             raise TypeError("Can only shift with an int")
         if src >= 0:
             return RightShift(src, self)
-        return Shift(-src, self)
+        return Shift(src, self)
 
 
 class InputPort(AbstractPort):
-- 
2.43.0


From 2c9b48ce1f8ea08352acbc4c5ab7ef331552f1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:44 +0000
Subject: [PATCH 22/98] fix: adders accepted a negative output shift when
 constructed

---
 lib/b_asic/core_operations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/b_asic/core_operations.py b/lib/b_asic/core_operations.py
index 35d8d79..4161fd1 100644
--- a/lib/b_asic/core_operations.py
+++ b/lib/b_asic/core_operations.py
@@ -270,7 +270,7 @@ class Addition(AbstractOperation):
             execution_time=execution_time,
         )
         self.set_param("mul_j", mul_j)
-        self.set_param("shift_output", shift_output)
+        self.shift_output = shift_output
 
     @classmethod
     def type_name(cls) -> TypeName:
@@ -468,7 +468,7 @@ class Subtraction(AbstractOperation):
             execution_time=execution_time,
         )
         self.set_param("mul_j", mul_j)
-        self.set_param("shift_output", shift_output)
+        self.shift_output = shift_output
 
     @classmethod
     def type_name(cls) -> TypeName:
@@ -675,7 +675,7 @@ class AddSub(AbstractOperation):
         )
         self.set_param("is_add", is_add)
         self.set_param("mul_j", mul_j)
-        self.set_param("shift_output", shift_output)
+        self.shift_output = shift_output
 
     @classmethod
     def type_name(cls) -> TypeName:
-- 
2.43.0


From 25563d54f452dec85d0f099565523a72d1cb30f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:59 +0000
Subject: [PATCH 23/98] fix: is_constant recursed without end on graphs with
 feedback

---
 lib/b_asic/special_operations.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/b_asic/special_operations.py b/lib/b_asic/special_operations.py
index 9326776..c8bccab 100644
--- a/lib/b_asic/special_operations.py
+++ b/lib/b_asic/special_operations.py
@@ -183,6 +183,7 @@ class Delay(AbstractOperation):
         Name.
     """
 
+    is_constant = False
     is_linear = True
 
     def __init__(
-- 
2.43.0


From 95e74ef1db7111dac08a077863c6711b20066740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:59 +0000
Subject: [PATCH 24/98] fix: impulse responses and state space were polluted by
 initial values of delays

---
 lib/b_asic/sfg.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 34ef047..9bd1b6f 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -2880,6 +2880,9 @@ class SFG(AbstractOperation):
                 for inp_op in self.input_operations
             ]
             sim = Simulation(self, impulse_inputs)
+            # Responses are from the zero state, whatever the initial values are
+            for delay in self.find_by_type(Delay):
+                sim._delays[delay.graph_id] = 0
             # If the source is a delay, initialize its state to 1
             if isinstance(source_op, Delay):
                 sim._delays[source_op.graph_id] = 1
-- 
2.43.0


From ad89337ebf56285c620521026b7c4eb90d66edf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:59 +0000
Subject: [PATCH 25/98] fix: 2-norms of complex responses were wrong

---
 lib/b_asic/sfg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 9bd1b6f..09f4e92 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -2853,7 +2853,7 @@ class SFG(AbstractOperation):
             threshold=threshold, max_iters=max_iters, all_nodes=all_nodes
         )
         return {
-            key: float(np.sqrt(sum(np.sum(h**2) for h in responses)))
+            key: float(np.sqrt(sum(np.sum(np.abs(h) ** 2) for h in responses)))
             for key, responses in impulse_responses.items()
         }
 
-- 
2.43.0


From e333bcbd3edb96ed5b8520d2ab1aa76ea573d3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:59 +0000
Subject: [PATCH 26/98] fix: transfer functions of graphs without delays mixed
 up several outputs

---
 lib/b_asic/state_space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/b_asic/state_space.py b/lib/b_asic/state_space.py
index 605c897..93bb589 100644
--- a/lib/b_asic/state_space.py
+++ b/lib/b_asic/state_space.py
@@ -208,7 +208,7 @@ class StateSpace:
                 den = 1
 
             if (B_col.size == 0) and (self.C.size == 0):
-                num = np.ravel(D_col)
+                num = D_col
                 if (D_col.size == 0) and (self.A.size == 0):
                     den = []
             else:
-- 
2.43.0


From 7f2f20576c35a82b622266e27e5649b50e0031c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:15 +0000
Subject: [PATCH 27/98] fix: gain of strictly proper and of complex transfer
 functions

---
 lib/b_asic/transfer_function.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lib/b_asic/transfer_function.py b/lib/b_asic/transfer_function.py
index 281eb9a..5d4d999 100644
--- a/lib/b_asic/transfer_function.py
+++ b/lib/b_asic/transfer_function.py
@@ -146,17 +146,19 @@ class TransferFunction:
         poles = np.roots(den) if len(den) > 1 else np.array([], dtype=complex)
         den0 = den[0] if len(den) > 0 else 1.0
 
+        def gain(coefficients: npt.NDArray) -> float | complex:
+            # The leading coefficients are zero for strictly proper systems
+            value = next((c for c in coefficients if c != 0), 0.0) / den0
+            return complex(value) if np.iscomplexobj(value) else float(value)
+
         result = {}
         for input_key, num in self.numerator.items():
             if num.ndim == 2:
                 zeros = [np.roots(num[k]) for k in range(num.shape[0])]
-                gains = [
-                    float(num[k, 0] / den0) if num.shape[1] > 0 else 0.0
-                    for k in range(num.shape[0])
-                ]
+                gains = [gain(num[k]) for k in range(num.shape[0])]
             else:
                 zeros = np.roots(num) if len(num) > 1 else np.array([], dtype=complex)
-                gains = float(num[0] / den0) if len(num) > 0 else 0.0
+                gains = gain(num)
             result[input_key] = (zeros, poles, gains)
         return result
 
-- 
2.43.0


From 7afdad61573228d1f5656736d2b20fbb37b7841c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:15 +0000
Subject: [PATCH 28/98] fix: impulse responses from the outputs of an operation
 overwrote each other

---
 lib/b_asic/sfg.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 09f4e92..c71b5e3 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -2956,7 +2956,8 @@ class SFG(AbstractOperation):
         dict[str, dict[str, npt.NDArray]]
             Dictionary mapping each SFG output GraphID (e.g., "out0", "out1")
             to a dictionary that maps operation GraphIDs to their corresponding
-            impulse responses.
+            impulse responses. For operations with more than one output, there is
+            one entry per output port (e.g., "bfly0.1").
         """
         from b_asic.core_operations import Addition  # noqa: PLC0415
         from b_asic.utility_operations import DontCare, Sink  # noqa: PLC0415
@@ -2981,8 +2982,10 @@ class SFG(AbstractOperation):
         # For each operation that performs quantization, create noise sources
         # and adders to inject noise into its outputs
         noise_inputs = []
+        noise_keys = []
         for op in nodes:
             for output_idx in range(op.output_count):
+                noise_keys.append(op.key(output_idx, op.graph_id))
                 noise_input = Input(name=f"noise_{op.graph_id}_out{output_idx}")
                 noise_inputs.append(noise_input)
                 noise_adder = Addition(
@@ -3014,13 +3017,12 @@ class SFG(AbstractOperation):
         noise_gains = {op.graph_id: {} for op in noise_sfg._output_operations}
 
         # Map noise sources back to their original operations
-        for noise_source_op in noise_sfg_inputs[num_original_inputs:]:
-            noise_name = noise_source_op.name
-            op_graph_id = noise_name.replace("noise_", "").rsplit("_out", 1)[0]
-
+        for noise_source_op, noise_key in zip(
+            noise_sfg_inputs[num_original_inputs:], noise_keys, strict=True
+        ):
             for output_op in noise_sfg._output_operations:
                 output_key = output_op.graph_id
                 response_key = (noise_source_op.graph_id, output_op.graph_id)
-                noise_gains[output_key][op_graph_id] = responses_dict[response_key]
+                noise_gains[output_key][noise_key] = responses_dict[response_key]
 
         return noise_gains
-- 
2.43.0


From ffa224977e057fff48c62b2db0f2d8e19cc9f778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:09 +0000
Subject: [PATCH 29/98] fix: impulse responses from all nodes of a graph with
 constants were refused

---
 lib/b_asic/sfg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index c71b5e3..5b482f6 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -2943,6 +2943,7 @@ class SFG(AbstractOperation):
         ----------
         nodes : list[GraphID], optional
             List of operation GraphIDs where impulses should be injected.
+            By default, all operations that are not constant.
 
         threshold : float, default: 1e-12
             The threshold below which output values are considered to have decayed to zero.
@@ -2971,6 +2972,7 @@ class SFG(AbstractOperation):
                 op
                 for op in sfg_copy.operations
                 if not isinstance(op, (Input, Output, DontCare, Sink, Delay))
+                and not op.is_constant
             ]
         else:
             nodes = [
-- 
2.43.0


From f49db9bfd78e692b88a4e1d158de393c02bacb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:48 +0000
Subject: [PATCH 30/98] fix: iteration period bound used one latency per type
 and matched types by substrings of identifiers

---
 lib/b_asic/sfg.py | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 5b482f6..8558c42 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -2293,28 +2293,24 @@ class SFG(AbstractOperation):
         if not loops:
             return Fraction(-1)
 
-        op_and_latency = {}
-        for op in self.operations:
-            for loop in loops:
-                for _ in loop:
-                    if op.type_name() not in op_and_latency:
-                        op_and_latency[op.type_name()] = op.latency
+        # Each signal in a loop connects two ports, whose latency offsets determine the
+        # latency from one operation to the next
         t_l_values = []
-
         for loop in loops:
-            loop.pop()
             time_of_loop = 0
             number_of_t_in_loop = 0
-            for element in loop:
-                if isinstance(self.find_by_id(element), Delay):
+            for source_id, destination_id in itertools.pairwise(loop):
+                source = cast(Operation, self.find_by_id(source_id))
+                if isinstance(source, Delay):
                     number_of_t_in_loop += 1
-                for key, item in op_and_latency.items():
-                    if key in element:
-                        time_of_loop += item
-            if number_of_t_in_loop in (0, 1):
-                t_l_values.append(Fraction(time_of_loop, 1))
-            else:
-                t_l_values.append(Fraction(time_of_loop, number_of_t_in_loop))
+                # Raises an error if there are ports without latency offset
+                source.latency  # noqa: B018
+                time_of_loop += max(
+                    signal.source.latency_offset - signal.destination.latency_offset
+                    for signal in source.output_signals
+                    if signal.destination.operation.graph_id == destination_id
+                )
+            t_l_values.append(Fraction(time_of_loop, max(number_of_t_in_loop, 1)))
         return max(t_l_values)
 
     @property
-- 
2.43.0


From c40e56139a3cdedc6d4a959c2f1607375da1846e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:48 +0000
Subject: [PATCH 31/98] fix: loops that cannot be reached from an input were
 not found

---
 lib/b_asic/sfg.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 8558c42..aa660b5 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -2322,13 +2322,9 @@ class SFG(AbstractOperation):
         -------
         A list of the recursive loops.
         """
-        if not self.input_count:
-            return []
         graph: nx.DiGraph = nx.DiGraph()
-        queue: deque[Operation] = deque(self._input_operations)
-        visited: set[Operation] = set(self._input_operations)
-        while queue:
-            op = queue.popleft()
+        # Loops are not necessarily reachable from an input
+        for op in self.operations:
             for output_port in op.outputs:
                 for signal in output_port.signals:
                     if signal.destination is not None:
@@ -2337,9 +2333,6 @@ class SFG(AbstractOperation):
                             new_op, Output
                         ):
                             graph.add_edge(op.graph_id, new_op.graph_id)
-                        if new_op not in visited:
-                            queue.append(new_op)
-                            visited.add(new_op)
                     else:
                         raise ValueError("Destination for {signal!r} does not exist")
         cycles = []
-- 
2.43.0


From 6fe88409bf9a178377c335c38cbaa2ca683895f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:32 +0000
Subject: [PATCH 32/98] fix: operations accepted a negative execution time when
 constructed

---
 lib/b_asic/operation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/operation.py b/lib/b_asic/operation.py
index ffaba60..febcd72 100644
--- a/lib/b_asic/operation.py
+++ b/lib/b_asic/operation.py
@@ -480,6 +480,11 @@ class AbstractOperation(Operation, AbstractGraphComponent):
         """
         super().__init__(Name(name))
 
+        if latency is not None and latency < 0:
+            raise ValueError("Latency cannot be negative")
+        if execution_time is not None and execution_time < 0:
+            raise ValueError("Execution time cannot be negative")
+
         self._input_ports = [InputPort(self, i) for i in range(input_count)]
         self._output_ports = [OutputPort(self, i) for i in range(output_count)]
 
@@ -506,8 +511,6 @@ class AbstractOperation(Operation, AbstractGraphComponent):
 
         if latency is not None:
             # Set the latency for all ports initially.
-            if latency < 0:
-                raise ValueError("Latency cannot be negative")
             for inp in self.inputs:
                 if inp.latency_offset is None:
                     inp.latency_offset = 0
-- 
2.43.0


From b75dcd55014791a3637c8ee3fcfdec94330e16bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:43 +0000
Subject: [PATCH 33/98] fix: moving operations across the schedule period lost
 or added delays

---
 lib/b_asic/schedule.py  | 188 +++++++++++++++++++++++++---------------
 lib/b_asic/scheduler.py |   8 +-
 2 files changed, 122 insertions(+), 74 deletions(-)

diff --git a/lib/b_asic/schedule.py b/lib/b_asic/schedule.py
index 9212513..040477c 100644
--- a/lib/b_asic/schedule.py
+++ b/lib/b_asic/schedule.py
@@ -5,6 +5,7 @@ Contains the schedule class for scheduling operations in an SFG.
 """
 
 import io
+import itertools
 import sys
 import tempfile
 from collections import defaultdict
@@ -918,76 +919,87 @@ class Schedule:
                 f" between {-backward_slack} and {forward_slack}."
             )
 
-        old_start = self._start_times[graph_id]
-        tmp_start = old_start + time
-        new_start = tmp_start % self._schedule_time
+        self._move_operations({graph_id: time})
+        return self
 
-        # Update input laps
-        input_slacks = self._backward_slacks(graph_id)
-        for in_port, signal_slacks in input_slacks.items():
-            tmp_usage = tmp_start + cast(int, in_port.latency_offset)
-            new_usage = tmp_usage % self._schedule_time
-            for signal, signal_slack in signal_slacks.items():
-                # New slack
-                new_slack = signal_slack + time
-                # Compute a lower limit on laps
-                laps = new_slack // self._schedule_time
-                # Compensate for cases where above is not correct
-                tmp_prev_available = tmp_usage - new_slack
-                prev_available = tmp_prev_available % self._schedule_time
-                # If prev_available == 0 it will come from previous lap, unless it comes
-                # from an Input
-                source_op = signal.source_operation
-                if prev_available == 0 and not isinstance(source_op, Input):
-                    prev_available = self._schedule_time
-                # Usage time (new_usage) < available time (prev_available) within a
-                # schedule period
-                if new_usage < prev_available:
-                    laps += 1
-                self._laps[signal.graph_id] = laps
-
-        # Update output laps
-        output_slacks = self._forward_slacks(graph_id)
-        for out_port, signal_slacks in output_slacks.items():
-            tmp_available = tmp_start + cast(int, out_port.latency_offset)
-            new_available = tmp_available % self._schedule_time
-            for signal, signal_slack in signal_slacks.items():
-                # New slack
-                new_slack = signal_slack - time
-                # Compute a lower limit on laps
-                laps = new_slack // self._schedule_time
-                # Compensate for cases where above is not correct
-                tmp_next_usage = tmp_available + new_slack
-                next_usage = tmp_next_usage % self._schedule_time
-                # Usage time (new_usage) < available time (prev_available) within a
-                # schedule period
-                if new_available == 0 and (new_slack > 0 or next_usage == 0):
-                    new_available = self._schedule_time
-                if (
-                    next_usage < new_available
-                    and self._start_times[signal.destination_operation.graph_id]
-                    != self.schedule_time
-                ):
-                    laps += 1
-                self._laps[signal.graph_id] = laps
+    def _is_wrapping(self, port: OutputPort) -> bool:
+        """Return whether the value of *port* is available in the next period."""
+        available_time = self._start_times[port.operation.graph_id] + cast(
+            int, port.latency_offset
+        )
+        return available_time > self._schedule_time
 
-        # Outputs should not start at 0, but at schedule time
-        op = self._sfg.find_by_id(graph_id)
-        if (
-            new_start == 0
-            and isinstance(op, Output)
-            and self._laps[op.input(0).signals[0].graph_id] != 0
-        ):
-            new_start = self._schedule_time
-            self._laps[op.input(0).signals[0].graph_id] -= 1
-        if new_start == 0 and isinstance(op, Input):
-            new_start = 0
-            for signal in op.output(0).signals:
-                if self._laps[signal.graph_id] != 0:
-                    self._laps[signal.graph_id] -= 1
-        # Set new start time
-        self._start_times[graph_id] = new_start
-        return self
+    def _get_delays(self, signal: Signal) -> int:
+        """Return the number of delays that *signal* corresponds to."""
+        return self._laps[signal.graph_id] + self._is_wrapping(
+            cast(OutputPort, signal.source)
+        )
+
+    def _move_operations(self, moves: dict[GraphID, int]) -> None:
+        """
+        Move operations, keeping track of the number of delays between them.
+
+        Parameters
+        ----------
+        moves : dict
+            Mapping from graph id of the operations to move to how far to move them. A
+            positive value moves the operation forward.
+        """
+        start_times = self._start_times
+        operations = {
+            graph_id: cast(Operation, self._sfg.find_by_id(graph_id))
+            for graph_id in moves
+        }
+        delays = {
+            signal: self._get_delays(signal)
+            for op in operations.values()
+            for signal in itertools.chain(op.input_signals, op.output_signals)
+        }
+        new_start_times = {}
+
+        def move_periods(op: Operation, periods: int) -> None:
+            for signal in op.input_signals:
+                delays[signal] += periods
+            for signal in op.output_signals:
+                delays[signal] -= periods
+
+        for graph_id, time in moves.items():
+            periods, new_start_times[graph_id] = divmod(
+                start_times[graph_id] + time, self._schedule_time
+            )
+            move_periods(operations[graph_id], periods)
+
+        # Start at the end of the schedule rather than at the beginning of the next
+        # period for outputs and for operations with results used at the end
+        at_start = [op for gid, op in operations.items() if new_start_times[gid] == 0]
+        for op in at_start:
+            if isinstance(op, (Output, Sink)) and all(
+                delays[signal] > 0 for signal in op.input_signals
+            ):
+                new_start_times[op.graph_id] = self._schedule_time
+                move_periods(op, -1)
+        for op in reversed(at_start):
+            if not isinstance(op, DontCare) and any(
+                delays[signal] < 0 for signal in op.output_signals
+            ):
+                new_start_times[op.graph_id] = self._schedule_time
+                move_periods(op, -1)
+
+        self._start_times = {**start_times, **new_start_times}
+        laps = {}
+        for signal, delay in delays.items():
+            lap = delay - self._is_wrapping(cast(OutputPort, signal.source))
+            # The value of a DontCare does not matter
+            if isinstance(signal.source_operation, DontCare):
+                lap = max(lap, 0)
+            laps[signal.graph_id] = lap
+        if any(lap < 0 for lap in laps.values()):
+            self._start_times = start_times
+            raise ValueError(
+                "Operations cannot be moved so that a value is used more than one"
+                " schedule time after the start of the operation using it."
+            )
+        self._laps.update(laps)
 
     def move_operation_alap(self, graph_id: GraphID) -> "Schedule":
         """
@@ -1011,9 +1023,45 @@ class Schedule:
                 graph_id, self.schedule_time - self._start_times[graph_id]
             )
         else:
-            self.move_operation(graph_id, forward_slack)
+            self.move_operation(graph_id, self._largest_forward_move(graph_id))
         return self
 
+    def _largest_forward_move(self, graph_id: GraphID) -> int:
+        """
+        Return how far an operation can be moved forward.
+
+        This is the forward slack, unless an operation uses a result more than a
+        schedule time after its start.
+        """
+        op = cast(Operation, self._sfg.find_by_id(graph_id))
+        limits = [self.forward_slack(graph_id)]
+        if not isinstance(op, DontCare):
+            limits += [
+                self._schedule_time * (1 + self._get_delays(signal))
+                - self._start_times[graph_id]
+                - cast(int, signal.source.latency_offset)
+                for signal in op.output_signals
+            ]
+        return min(limits)
+
+    def _largest_backward_move(self, graph_id: GraphID) -> int:
+        """
+        Return how far an operation can be moved backward.
+
+        This is the backward slack, unless the operation uses an operand more than a
+        schedule time after its start.
+        """
+        op = cast(Operation, self._sfg.find_by_id(graph_id))
+        return min(
+            [self.backward_slack(graph_id)]
+            + [
+                self._start_times[graph_id]
+                + self._schedule_time * self._laps[signal.graph_id]
+                for signal in op.input_signals
+                if not isinstance(signal.source_operation, DontCare)
+            ]
+        )
+
     def move_operation_asap(self, graph_id: GraphID) -> "Schedule":
         """
         Move an operation as soon as possible in the schedule.
@@ -1034,7 +1082,7 @@ class Schedule:
         if backward_slack == sys.maxsize:
             self.move_operation(graph_id, -self._start_times[graph_id])
         else:
-            self.move_operation(graph_id, -backward_slack)
+            self.move_operation(graph_id, -self._largest_backward_move(graph_id))
         return self
 
     def rotate_forward(self) -> "Schedule":
diff --git a/lib/b_asic/scheduler.py b/lib/b_asic/scheduler.py
index 0f1f787..5154d51 100644
--- a/lib/b_asic/scheduler.py
+++ b/lib/b_asic/scheduler.py
@@ -433,11 +433,11 @@ class ALAPScheduler(Scheduler):
                 if not isinstance(op, Delay) and op.graph_id not in self._input_times:
                     new_unwrapped_start_time = schedule.start_times[
                         op.graph_id
-                    ] + schedule.forward_slack(op.graph_id)
-                    self._op_laps[op.graph_id] = (
-                        new_unwrapped_start_time // schedule._schedule_time
-                    )
+                    ] + schedule._largest_forward_move(op.graph_id)
                     schedule.move_operation_alap(op.graph_id)
+                    self._op_laps[op.graph_id] = (
+                        new_unwrapped_start_time - schedule.start_times[op.graph_id]
+                    ) // schedule._schedule_time
 
         log.debug("ALAP scheduling completed")
         # adjust the scheduling time if empty time slots have appeared in the start
-- 
2.43.0


From b0852bdf502d72adc63884417c56ef22f25ad20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:43 +0000
Subject: [PATCH 34/98] fix: rotating a schedule lost or added delays

---
 lib/b_asic/schedule.py | 80 ++----------------------------------------
 1 file changed, 2 insertions(+), 78 deletions(-)

diff --git a/lib/b_asic/schedule.py b/lib/b_asic/schedule.py
index 040477c..92a89af 100644
--- a/lib/b_asic/schedule.py
+++ b/lib/b_asic/schedule.py
@@ -1090,47 +1090,7 @@ class Schedule:
         if not self._cyclic:
             raise ValueError("Cannot rotate non-cyclic schedule.")
 
-        for graph_id, start_time in self._start_times.items():
-            op = cast(Operation, self._sfg.find_by_id(graph_id))
-            new_time = (start_time + 1) % self._schedule_time
-
-            for input_signal in op.input_signals:
-                # move resulted in the input wrapping around
-                if (
-                    start_time + 1 + input_signal.destination.latency_offset
-                    == self._schedule_time
-                ):
-                    self._laps[input_signal.graph_id] += 1
-
-            for output_signal in op.output_signals:
-                # move resulted in the output wrapping around
-                if (
-                    start_time + output_signal.source.latency_offset
-                    == self._schedule_time
-                ):
-                    self._laps[output_signal.graph_id] -= 1
-
-            if isinstance(op, (Output, Sink)) and start_time == self._schedule_time:
-                # special case, output has wrapped around
-                for input_signal in op.input_signals:
-                    self._laps[input_signal.graph_id] += 1
-
-            # place the operation at the correct position
-            if (
-                isinstance(op, (Input, DontCare))
-                and start_time == self._schedule_time - 1
-            ):
-                self._start_times[graph_id] = 0
-                for output_signal in op.output_signals:
-                    self._laps[output_signal.graph_id] -= 1
-            elif (
-                isinstance(op, (Output, Sink)) and start_time == self._schedule_time - 1
-            ):
-                self._start_times[graph_id] = self._schedule_time
-                for input_signal in op.input_signals:
-                    self._laps[input_signal.graph_id] -= 1
-            else:
-                self._start_times[graph_id] = new_time
+        self._move_operations(dict.fromkeys(self._start_times, 1))
         return self
 
     def rotate_backward(self) -> "Schedule":
@@ -1138,43 +1098,7 @@ class Schedule:
         if not self._cyclic:
             raise ValueError("Cannot rotate non-cyclic schedule.")
 
-        for graph_id, start_time in self._start_times.items():
-            op = cast(Operation, self._sfg.find_by_id(graph_id))
-            new_time = (start_time - 1) % self._schedule_time
-
-            for input_signal in op.input_signals:
-                # move resulted in the input wrapping around
-                if start_time + input_signal.destination.latency_offset == 0:
-                    self._laps[input_signal.graph_id] -= 1
-
-            for output_signal in op.output_signals:
-                # move resulted in the output wrapping around
-                if start_time - 1 + output_signal.source.latency_offset == 0:
-                    # normal wrap around
-                    self._laps[output_signal.graph_id] += 1
-                if (
-                    start_time - 1 + output_signal.source.latency_offset
-                    == self._schedule_time
-                ):
-                    # output time now in schedule period
-                    self._laps[output_signal.graph_id] += 1
-
-            if isinstance(op, (Input, DontCare)) and start_time == 0:
-                # special case, input has wrapped around
-                for output_signal in op.output_signals:
-                    self._laps[output_signal.graph_id] += 1
-
-            # place the operation at the correct position
-            if isinstance(op, (Input, DontCare)) and start_time == 1:
-                self._start_times[graph_id] = 0
-                for output_signal in op.output_signals:
-                    self._laps[output_signal.graph_id] -= 1
-            elif isinstance(op, (Output, Sink)) and start_time == 1:
-                self._start_times[graph_id] = self._schedule_time
-                for input_signal in op.input_signals:
-                    self._laps[input_signal.graph_id] -= 1
-            else:
-                self._start_times[graph_id] = new_time
+        self._move_operations(dict.fromkeys(self._start_times, -1))
         return self
 
     def _remove_delays_no_laps(self) -> None:
-- 
2.43.0


From 2599c28d5be0b00a5e310ebe2f7792815f72918b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:43 +0000
Subject: [PATCH 35/98] fix: operations with sinks were not scheduled as late
 as possible

---
 lib/b_asic/scheduler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/b_asic/scheduler.py b/lib/b_asic/scheduler.py
index 5154d51..40113ea 100644
--- a/lib/b_asic/scheduler.py
+++ b/lib/b_asic/scheduler.py
@@ -426,6 +426,10 @@ class ALAPScheduler(Scheduler):
                 continue
             schedule.move_operation_alap(output.graph_id)
 
+        # sinks should not keep the operations before them from being moved
+        for sink in schedule._sfg.find_by_type(Sink):
+            schedule.move_operation_alap(sink.graph_id)
+
         # move all operations ALAP
         for step in reversed(schedule.sfg.get_precedence_list()):
             for outport in step:
-- 
2.43.0


From 0819e4df5e27d03e00473e0df902bf2e9bdfdb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:43 +0000
Subject: [PATCH 36/98] fix: start times for unknown operations gave an
 AttributeError

---
 lib/b_asic/schedule.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/schedule.py b/lib/b_asic/schedule.py
index 92a89af..8fdc6d7 100644
--- a/lib/b_asic/schedule.py
+++ b/lib/b_asic/schedule.py
@@ -136,6 +136,7 @@ class Schedule:
             self._laps.update(laps)
             self._remove_delays_no_laps()
 
+        self._validate_operations()
         max_end_time = self.get_max_end_time()
         if not self._schedule_time:
             self._schedule_time = max_end_time
@@ -178,6 +179,7 @@ class Schedule:
 
     def _validate(self) -> None:
         self._validate_schedule_time()
+        self._validate_operations()
         self._validate_start_times()
         self._validate_laps()
         self._validate_slacks()
@@ -188,7 +190,7 @@ class Schedule:
         if not isinstance(self._schedule_time, int):
             raise ValueError("Schedule with non-integer scheduling time detected.")
 
-    def _validate_start_times(self) -> None:
+    def _validate_operations(self) -> None:
         ops = {op.graph_id for op in self._sfg.operations}
         missing_elems = ops - set(self._start_times)
         extra_elems = set(self._start_times) - ops
@@ -198,6 +200,8 @@ class Schedule:
             )
         if extra_elems:
             raise ValueError(f"Extra operations detected in start_times: {extra_elems}")
+
+    def _validate_start_times(self) -> None:
         for graph_id, time in self._start_times.items():
             if time < 0:
                 raise ValueError(
-- 
2.43.0


From 42f2c461dc3a628daa88cce9b00f283f9508f3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:37 +0000
Subject: [PATCH 37/98] fix: operations without latency have that of others of
 their type in the iteration period bound

---
 lib/b_asic/sfg.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index aa660b5..33b4adf 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -2293,6 +2293,19 @@ class SFG(AbstractOperation):
         if not loops:
             return Fraction(-1)
 
+        def get_latency_offset(port: InputPort | OutputPort) -> int:
+            op = port.operation
+            key = f"{'out' if isinstance(port, OutputPort) else 'in'}{port.index}"
+            # Use the offset of another operation of the same type if there is none
+            for candidate in (op, *self.find_by_type_name(op.type_name())):
+                offset = candidate.latency_offsets[key]
+                if offset is not None:
+                    return offset
+            raise ValueError(
+                "All native offsets have to set to a non-negative value to"
+                f" calculate the latency. Missing: {key} of {op.graph_id}"
+            )
+
         # Each signal in a loop connects two ports, whose latency offsets determine the
         # latency from one operation to the next
         t_l_values = []
@@ -2303,10 +2316,9 @@ class SFG(AbstractOperation):
                 source = cast(Operation, self.find_by_id(source_id))
                 if isinstance(source, Delay):
                     number_of_t_in_loop += 1
-                # Raises an error if there are ports without latency offset
-                source.latency  # noqa: B018
                 time_of_loop += max(
-                    signal.source.latency_offset - signal.destination.latency_offset
+                    get_latency_offset(signal.source)
+                    - get_latency_offset(signal.destination)
                     for signal in source.output_signals
                     if signal.destination.operation.graph_id == destination_id
                 )
-- 
2.43.0


From c4c6dc69eacccfc62e39a586ac0022768faca49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:52 +0000
Subject: [PATCH 38/98] fix: the sfg of a schedule had delays at other
 operations when names equal graph ids

---
 lib/b_asic/schedule.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/schedule.py b/lib/b_asic/schedule.py
index 8fdc6d7..ddc1a58 100644
--- a/lib/b_asic/schedule.py
+++ b/lib/b_asic/schedule.py
@@ -1150,9 +1150,11 @@ class Schedule:
 
             destination_laps.append((port.operation.graph_id, port.index, lap))
 
-        for op, port, lap in destination_laps:
+        for graph_id, index, lap in destination_laps:
+            input_port = cast(Operation, new_sfg.find_by_id(graph_id)).input(index)
             for _ in range(lap):
-                new_sfg = new_sfg.insert_operation_before(op, Delay(), port)
+                delay = new_sfg._add_component_unconnected_copy(Delay())
+                new_sfg._insert_operation_before_inputport(input_port, delay)
         return new_sfg()
 
     def _get_memory_variables_list(self) -> list[MemoryVariable]:
-- 
2.43.0


From cce9d04efee4f548db75599745930091d0e8e8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:52 +0000
Subject: [PATCH 39/98] fix: operations with a feedback signal to themselves
 were not moved asap/alap

---
 lib/b_asic/schedule.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/b_asic/schedule.py b/lib/b_asic/schedule.py
index ddc1a58..c9e0017 100644
--- a/lib/b_asic/schedule.py
+++ b/lib/b_asic/schedule.py
@@ -1045,6 +1045,7 @@ class Schedule:
                 - self._start_times[graph_id]
                 - cast(int, signal.source.latency_offset)
                 for signal in op.output_signals
+                if signal.destination_operation is not op
             ]
         return min(limits)
 
@@ -1063,6 +1064,7 @@ class Schedule:
                 + self._schedule_time * self._laps[signal.graph_id]
                 for signal in op.input_signals
                 if not isinstance(signal.source_operation, DontCare)
+                and signal.source_operation is not op
             ]
         )
 
-- 
2.43.0


From 9987d6027e1b07a0cb55c4500ac6dc556d5fb115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:52 +0000
Subject: [PATCH 40/98] fix: the time resolution of a schedule could be
 increased by a factor below one

---
 lib/b_asic/schedule.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/b_asic/schedule.py b/lib/b_asic/schedule.py
index c9e0017..26e0a9c 100644
--- a/lib/b_asic/schedule.py
+++ b/lib/b_asic/schedule.py
@@ -608,6 +608,8 @@ class Schedule:
         factor : int
             The time resolution increment.
         """
+        if factor < 1:
+            raise ValueError(f"The factor must be positive, not {factor}.")
         self._start_times = {k: factor * v for k, v in self._start_times.items()}
         for graph_id in self._start_times:
             op = cast(Operation, self._sfg.find_by_id(graph_id))
-- 
2.43.0


From 0b95c6dd8fbc15a9a49365f2cff6024c3f176ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:52 +0000
Subject: [PATCH 41/98] fix: changing the latency by type did not keep the
 delays or check the slacks

---
 lib/b_asic/schedule.py | 74 ++++++++++++++++++++++++++++--------------
 1 file changed, 49 insertions(+), 25 deletions(-)

diff --git a/lib/b_asic/schedule.py b/lib/b_asic/schedule.py
index 26e0a9c..33cf1f9 100644
--- a/lib/b_asic/schedule.py
+++ b/lib/b_asic/schedule.py
@@ -722,20 +722,14 @@ class Schedule:
         latency : int
             The latency of the operation.
         """
-        passed = True
-        for op in self._sfg.operations:
-            if type_name in (op.type_name(), op.graph_id):
-                change_in_latency = latency - op.latency
-                if change_in_latency > (self.forward_slack(op.graph_id)):
-                    passed = False
-                    raise ValueError(
-                        f"Cannot increase latency for {op.graph_id}. Try increasing forward slack time by rescheduling."
-                    )
-                    break
-        if change_in_latency < 0 or passed:
-            for op in self._sfg.operations:
-                if type_name in (op.type_name(), op.graph_id):
-                    cast(Operation, op).set_latency(latency)
+        self._set_latency_of_operations(
+            [
+                op
+                for op in self._sfg.operations
+                if type_name in (op.type_name(), op.graph_id)
+            ],
+            latency,
+        )
 
     def set_latency_of_type(
         self, operation_type: type[Operation], latency: int
@@ -750,20 +744,50 @@ class Schedule:
         latency : int
             The latency of the operation.
         """
-        passed = True
-        for op in self._sfg.operations:
-            if isinstance(op, operation_type):
-                change_in_latency = latency - op.latency
-                if change_in_latency > (self.forward_slack(op.graph_id)):
-                    passed = False
+        self._set_latency_of_operations(
+            [op for op in self._sfg.operations if isinstance(op, operation_type)],
+            latency,
+        )
+
+    def _set_latency_of_operations(
+        self, operations: list[Operation], latency: int
+    ) -> None:
+        """
+        Set the latency of the given operations, keeping the delays between operations.
+
+        If the schedule would become invalid, a ValueError is raised and nothing is
+        changed.
+        """
+        old_latency_offsets = [op.latency_offsets for op in operations]
+        delays = {
+            signal: self._get_delays(signal)
+            for op in operations
+            for signal in op.output_signals
+        }
+        old_laps = {
+            signal.graph_id: self._laps[signal.graph_id] for signal in delays
+        }
+        try:
+            for op in operations:
+                op.set_latency(latency)
+            for signal, delay in delays.items():
+                self._laps[signal.graph_id] = delay - self._is_wrapping(
+                    cast(OutputPort, signal.source)
+                )
+            for op in operations:
+                if min(self.slacks(op.graph_id)) < 0 or any(
+                    self._laps[signal.graph_id] < 0 for signal in op.output_signals
+                ):
                     raise ValueError(
                         f"Cannot increase latency for {op.graph_id}. Try increasing forward slack time by rescheduling."
                     )
-                    break
-        if change_in_latency < 0 or passed:
-            for op in self._sfg.operations:
-                if isinstance(op, operation_type):
-                    cast(Operation, op).set_latency(latency)
+        except ValueError:
+            for op, latency_offsets in zip(
+                operations, old_latency_offsets, strict=True
+            ):
+                op.set_latency_offsets(latency_offsets)
+            self._laps.update(old_laps)
+            raise
 
     def move_y_location(
         self, graph_id: GraphID, new_y: int, insert: bool = False
-- 
2.43.0


From cbedeb578b948bdf7c80d6893c3f083b51f4bff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:51 +0000
Subject: [PATCH 42/98] fix: accesses past the schedule time were not counted
 against the memory ports

---
 lib/b_asic/resources.py | 54 ++++++++++++++++++++++++++---------------
 1 file changed, 35 insertions(+), 19 deletions(-)

diff --git a/lib/b_asic/resources.py b/lib/b_asic/resources.py
index 43376b1..0617593 100644
--- a/lib/b_asic/resources.py
+++ b/lib/b_asic/resources.py
@@ -865,8 +865,10 @@ class ProcessCollection:
                 read_time % self.schedule_time for read_time in node1.read_times
             }
             node1_start_time = node1.start_time % self.schedule_time
-            if total_ports == 1 and node1.start_time in node1_stop_times:
+            if total_ports == 1 and node1_start_time in node1_stop_times:
                 raise ValueError("Cannot read and write in same cycle.")
+            if len(node1_stop_times) != len(node1.read_times):
+                raise ValueError("Cannot read more than once in same cycle.")
             for node2 in exclusion_graph:
                 if node1 == node2:
                     continue
@@ -1253,8 +1255,7 @@ class ProcessCollection:
         list of :class:`ProcessCollection`
             A list of new :class:`ProcessCollection` objects with the process splitting.
         """
-        if set(self.collection) != set(sequence):
-            raise KeyError("processes in `sequence` must be equal to processes in self")
+        self._check_sequence(read_ports, write_ports, total_ports, sequence)
 
         collections: list[ProcessCollection] = []
         for process in sequence:
@@ -1284,8 +1285,7 @@ class ProcessCollection:
         sequence: list[Process],
         processing_elements: list["ProcessingElement"],
     ) -> list["ProcessCollection"]:
-        if set(self.collection) != set(sequence):
-            raise KeyError("processes in `sequence` must be equal to processes in self")
+        self._check_sequence(read_ports, write_ports, total_ports, sequence)
 
         num_of_memories = len(
             self.split_ports_sequentially(
@@ -1303,7 +1303,7 @@ class ProcessCollection:
 
         for process in sequence:
             process_fits_in_collection = self._get_process_fits_in_collection(
-                process, collections, read_ports, write_ports, total_ports
+                process, collections, write_ports, read_ports, total_ports
             )
             best_collection = None
             best_delta = sys.maxsize
@@ -1331,7 +1331,7 @@ class ProcessCollection:
                         )
                     )
                     process_fits_in_collection = self._get_process_fits_in_collection(
-                        process, collections, read_ports, write_ports, total_ports
+                        process, collections, write_ports, read_ports, total_ports
                     )
             if best_collection is not None:
                 best_collection.add_process(process)
@@ -1346,8 +1346,7 @@ class ProcessCollection:
         sequence: list[Process],
         processing_elements: list["ProcessingElement"],
     ) -> list["ProcessCollection"]:
-        if set(self.collection) != set(sequence):
-            raise KeyError("processes in `sequence` must be equal to processes in self")
+        self._check_sequence(read_ports, write_ports, total_ports, sequence)
 
         num_of_memories = len(
             self.split_ports_sequentially(
@@ -1365,7 +1364,7 @@ class ProcessCollection:
 
         for process in sequence:
             process_fits_in_collection = self._get_process_fits_in_collection(
-                process, collections, read_ports, write_ports, total_ports
+                process, collections, write_ports, read_ports, total_ports
             )
             best_collection = None
             best_delta = sys.maxsize
@@ -1393,7 +1392,7 @@ class ProcessCollection:
                         )
                     )
                     process_fits_in_collection = self._get_process_fits_in_collection(
-                        process, collections, read_ports, write_ports, total_ports
+                        process, collections, write_ports, read_ports, total_ports
                     )
             if best_collection is not None:
                 best_collection.add_process(process)
@@ -1432,25 +1431,42 @@ class ProcessCollection:
         total_ports: int,
     ) -> bool:
         # Test the number of concurrent write accesses
-        collection_writes = defaultdict(int, collection.write_port_accesses())
-        if collection_writes[proc.start_time] >= write_ports:
+        collection_writes = Counter(collection.write_port_accesses())
+        if collection_writes[proc.start_time % self.schedule_time] >= write_ports:
             return True
 
         # Test the number of concurrent read accesses
-        collection_reads = defaultdict(int, collection.read_port_accesses())
-        for proc_read_time in proc.read_times:
-            if collection_reads[proc_read_time % self.schedule_time] >= read_ports:
+        collection_reads = Counter(collection.read_port_accesses())
+        proc_reads = Counter(
+            read_time % self.schedule_time for read_time in proc.read_times
+        )
+        for read_time, reads in proc_reads.items():
+            if collection_reads[read_time] + reads > read_ports:
                 return True
 
         # Test the number of total accesses
-        collection_total_accesses = defaultdict(
-            int, Counter(collection_writes) + Counter(collection_reads)
-        )
+        collection_total_accesses = collection_writes + collection_reads
         for access_time in [proc.start_time, *proc.read_times]:
             if collection_total_accesses[access_time] >= total_ports:
                 return True
         return False
 
+    def _check_sequence(
+        self,
+        read_ports: int,
+        write_ports: int,
+        total_ports: int,
+        sequence: list[Process],
+    ) -> None:
+        if set(self.collection) != set(sequence):
+            raise KeyError("processes in `sequence` must be equal to processes in self")
+        empty_collection = ProcessCollection([], self.schedule_time)
+        for process in sequence:
+            if self._ports_collide(
+                process, empty_collection, write_ports, read_ports, total_ports
+            ):
+                raise ValueError(f"{process!r} requires more ports than available.")
+
     @staticmethod
     def _count_number_of_pes_read_from(
         processing_elements: list["ProcessingElement"],
-- 
2.43.0


From f0716760c75727ac56636c87fc66188aed97294d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:51 +0000
Subject: [PATCH 43/98] fix: left edge with minimum processing elements looked
 at names instead of operations

---
 lib/b_asic/resources.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/resources.py b/lib/b_asic/resources.py
index 0617593..e532c59 100644
--- a/lib/b_asic/resources.py
+++ b/lib/b_asic/resources.py
@@ -124,7 +124,7 @@ def _get_source_port(var: MemoryVariable, pes: list["ProcessingElement"]) -> str
     port_index = int(next(split_var).split("_")[0])
     for pe in pes:
         for process in pe:
-            if var_name == process.name:
+            if var_name == process.operation.graph_id:
                 for output_port in process.operation.outputs:
                     if output_port.index == port_index:
                         return f"{pe.entity_name}.out.{output_port.index}"
@@ -1476,7 +1476,7 @@ class ProcessCollection:
         count = 0
         for pe in processing_elements:
             if any(
-                proc.name.split(".")[0] in collection_process_names
+                proc.operation.graph_id in collection_process_names
                 for proc in pe.collection
             ):
                 count += 1
-- 
2.43.0


From 4c70c1efaa1e964fadd662f8573da03fb2ed9089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:51 +0000
Subject: [PATCH 44/98] fix: empty process collections could not be split

---
 lib/b_asic/resources.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/b_asic/resources.py b/lib/b_asic/resources.py
index e532c59..389bbba 100644
--- a/lib/b_asic/resources.py
+++ b/lib/b_asic/resources.py
@@ -1562,7 +1562,7 @@ class ProcessCollection:
         )
 
         # perform assignment from coloring and return result
-        max_degree = max(dict(exclusion_graph.degree()).values())
+        max_degree = max(dict(exclusion_graph.degree()).values(), default=0)
         coloring = nx.coloring.equitable_color(
             exclusion_graph, num_colors=max_degree + 1
         )
@@ -1614,7 +1614,7 @@ class ProcessCollection:
             for color in colors:
                 problem += x[node][color] <= c[color]
         #   (4) - reduce solution space by assigning colors to the largest clique
-        max_clique = next(nx.find_cliques(exclusion_graph))
+        max_clique = next(nx.find_cliques(exclusion_graph), [])
         for color, node in enumerate(max_clique):
             problem += x[node][color] == c[color] == 1
         #   (5 & 6) - reduce solution space by ignoring the symmetry caused
@@ -1707,7 +1707,7 @@ class ProcessCollection:
             for color in colors:
                 problem += x[node][color] <= y[port][color]
         #   (5) - reduce solution space by assigning colors to the largest clique
-        max_clique = next(nx.find_cliques(exclusion_graph))
+        max_clique = next(nx.find_cliques(exclusion_graph), [])
         for color, node in enumerate(max_clique):
             problem += x[node][color] == c[color] == 1
         #   (6 & 7) - reduce solution space by ignoring the symmetry caused
@@ -1799,7 +1799,7 @@ class ProcessCollection:
             for color in colors:
                 problem += x[node][color] <= y[port][color]
         #   (5) - reduce solution space by assigning colors to the largest clique
-        max_clique = next(nx.find_cliques(exclusion_graph))
+        max_clique = next(nx.find_cliques(exclusion_graph), [])
         for color, node in enumerate(max_clique):
             problem += x[node][color] == c[color] == 1
         #   (6 & 7) - reduce solution space by ignoring the symmetry caused
@@ -1905,7 +1905,7 @@ class ProcessCollection:
             for color in colors:
                 problem += x[node][color] <= z[port][color]
         #   (6) - reduce solution space by assigning colors to the largest clique
-        max_clique = next(nx.find_cliques(exclusion_graph))
+        max_clique = next(nx.find_cliques(exclusion_graph), [])
         for color, node in enumerate(max_clique):
             problem += x[node][color] == c[color] == 1
         #   (7 & 8) - reduce solution space by ignoring the symmetry caused
@@ -1956,7 +1956,7 @@ class ProcessCollection:
         A set of new ProcessCollections.
         """
         process_collection_set_list: list[list[Process]] = [
-            [] for _ in range(max(coloring.values()) + 1)
+            [] for _ in range(max(coloring.values(), default=-1) + 1)
         ]
         for process, color in coloring.items():
             process_collection_set_list[color].append(process)
@@ -2040,7 +2040,7 @@ class ProcessCollection:
             for color in colors:
                 problem += x[node][color] <= c[color]
         #   (4) - reduce solution space by assigning colors to the largest clique
-        max_clique = next(nx.find_cliques(exclusion_graph))
+        max_clique = next(nx.find_cliques(exclusion_graph), [])
         for color, node in enumerate(max_clique):
             problem += x[node][color] == c[color] == 1
         #   (5 & 6) - reduce solution space by ignoring the symmetry caused
@@ -2639,7 +2639,7 @@ class ProcessCollection:
         int
             The maximum number of concurrent executions times.
         """
-        return max(self.total_execution_times().values())
+        return max(self.total_execution_times().values(), default=0)
 
     def read_ports_bound(self) -> int:
         """
-- 
2.43.0


From 009f010b8c1a67da318350e85cff0247daf4f0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:51 +0000
Subject: [PATCH 45/98] fix: splitting into chains lost immediate reads and
 accepted lengths below one

---
 lib/b_asic/resources.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/resources.py b/lib/b_asic/resources.py
index 389bbba..8597c63 100644
--- a/lib/b_asic/resources.py
+++ b/lib/b_asic/resources.py
@@ -2449,6 +2449,9 @@ class ProcessCollection:
                 result.append(process)
                 continue
 
+            if max_length < 1:
+                raise ValueError(f"max_length must be positive, not {max_length}.")
+
             if isinstance(process, PlainMemoryVariable):
                 raise TypeError(
                     f"{process} is a PlainMemoryVariable with execution_time"
@@ -2475,7 +2478,7 @@ class ProcessCollection:
                 reads_k: dict = {
                     port: L - k * T
                     for port, L in all_reads.items()
-                    if k == (L - 1) // T
+                    if k == max(L - 1, 0) // T
                 }
                 if k < K - 1:
                     # chain[0] is chain[k+1] since we prepend each iteration
-- 
2.43.0


From 37d587d847af4721cb629f2c7e2e79d0aa413a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:19 +0000
Subject: [PATCH 46/98] fix: ILP variables were shared by operations with equal
 names

---
 lib/b_asic/resource_assigner.py | 10 +++++-----
 lib/b_asic/resources.py         | 22 +++++++++++++++++-----
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/lib/b_asic/resource_assigner.py b/lib/b_asic/resource_assigner.py
index 29251d2..dec74b2 100644
--- a/lib/b_asic/resource_assigner.py
+++ b/lib/b_asic/resource_assigner.py
@@ -30,10 +30,10 @@ import b_asic.logger
 from b_asic.architecture import Memory, ProcessingElement
 from b_asic.operation import Operation
 from b_asic.process import MemoryOutputPort, MemoryVariable, Process
-from b_asic.resources import ProcessCollection
+from b_asic.resources import ProcessCollection, _node_variables
 from b_asic.schedule import Schedule
 from b_asic.types import TypeName
-from b_asic.utility_operations import DontCare
+from b_asic.utility_operations import DontCare, Sink
 
 log = b_asic.logger.getLogger()
 
@@ -938,7 +938,7 @@ def _get_pe_nodes(
 
 
 def _create_memory_variables(mem_vars: list, max_mems: list[int]) -> tuple[dict, dict]:
-    mem_x = LpVariable.dicts("mem_x", (mem_vars, range(max_mems)), cat=LpBinary)
+    mem_x = _node_variables("mem_x", mem_vars, range(max_mems))
     mem_c = LpVariable.dicts("mem_c", range(max_mems), cat=LpBinary)
     log.info(
         "Memory variables created: mem_x with shape (%d, %s) and mem_c with shape (%s)",
@@ -1037,14 +1037,14 @@ def _create_pe_variables(
     pe_c = {}
     for op_type_name, group in op_groups.items():
         pe_x[op_type_name] = {}
-        for proc in group:
+        for proc_idx, proc in enumerate(group):
             pe_x[op_type_name][proc] = {}
             if max_pes[op_type_name] == 1:
                 pe_x[op_type_name][proc][0] = 1
             else:
                 for pe_idx in range(max_pes[op_type_name]):
                     pe_x[op_type_name][proc][pe_idx] = LpVariable(
-                        f"pe_x_{op_type_name}_{proc}_{pe_idx}", cat=LpBinary
+                        f"pe_x_{op_type_name}_{proc_idx}_{pe_idx}", cat=LpBinary
                     )
 
         pe_c[op_type_name] = {}
diff --git a/lib/b_asic/resources.py b/lib/b_asic/resources.py
index 8597c63..8e033a4 100644
--- a/lib/b_asic/resources.py
+++ b/lib/b_asic/resources.py
@@ -118,6 +118,18 @@ def _sanitize_port_option(
     return read_ports, write_ports, total_ports
 
 
+def _node_variables(
+    name: str, nodes: Iterable[Process], colors: Iterable[int]
+) -> dict[Process, dict[int, LpVariable]]:
+    """Create binary variables, the names of processes are not always unique."""
+    return {
+        node: {
+            color: LpVariable(f"{name}_{idx}_{color}", cat=LpBinary) for color in colors
+        }
+        for idx, node in enumerate(nodes)
+    }
+
+
 def _get_source_port(var: MemoryVariable, pes: list["ProcessingElement"]) -> str:
     split_var = iter(var.name.split("."))
     var_name = next(split_var)
@@ -1593,7 +1605,7 @@ class ProcessCollection:
 
         # binary variables:
         #   x[node, color] - whether node is colored in a certain color
-        x = LpVariable.dicts("x", (nodes, colors), cat=LpBinary)
+        x = _node_variables("x", nodes, colors)
         #   c[color] - whether color is used
         c = LpVariable.dicts("c", colors, cat=LpBinary)
 
@@ -1680,7 +1692,7 @@ class ProcessCollection:
 
         # binary variables:
         #   x[node, color] - whether node is colored in a certain color
-        x = LpVariable.dicts("x", (nodes, colors), cat=LpBinary)
+        x = _node_variables("x", nodes, colors)
         #   c[color] - whether color is used
         c = LpVariable.dicts("c", colors, cat=LpBinary)
         #   y[pe, color] - whether a color has nodes generated from a certain pe
@@ -1773,7 +1785,7 @@ class ProcessCollection:
 
         # binary variables:
         #   x[node, color] - whether node is colored in a certain color
-        x = LpVariable.dicts("x", (nodes, colors), cat=LpBinary)
+        x = _node_variables("x", nodes, colors)
         #   c[color] - whether color is used
         c = LpVariable.dicts("c", colors, cat=LpBinary)
         #   y[pe, color] - whether a color has nodes writing to a certain PE
@@ -1870,7 +1882,7 @@ class ProcessCollection:
 
         # binary variables:
         #   x[node, color] - whether node is colored in a certain color
-        x = LpVariable.dicts("x", (nodes, colors), cat=LpBinary)
+        x = _node_variables("x", nodes, colors)
         #   c[color] - whether color is used
         c = LpVariable.dicts("c", colors, cat=LpBinary)
         #   y[pe, color] - whether a color has nodes generated from a certain pe
@@ -2020,7 +2032,7 @@ class ProcessCollection:
 
         # binary variables:
         #   x[node, color] - whether node is colored in a certain color
-        x = LpVariable.dicts("x", (nodes, colors), cat=LpBinary)
+        x = _node_variables("x", nodes, colors)
         #   c[color] - whether color is used
         c = LpVariable.dicts("c", colors, cat=LpBinary)
 
-- 
2.43.0


From 25e725f6ecb419cd0ec993fb1493f97e65a5a3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:19 +0000
Subject: [PATCH 47/98] fix: minimum multiplexer assignment with single-port
 memories, direct reads and sinks

---
 lib/b_asic/resource_assigner.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lib/b_asic/resource_assigner.py b/lib/b_asic/resource_assigner.py
index dec74b2..bfacc78 100644
--- a/lib/b_asic/resource_assigner.py
+++ b/lib/b_asic/resource_assigner.py
@@ -252,6 +252,7 @@ def _split_operations_and_variables(
             solver,
             pe_greedy_colorings,
             mem_greedy_coloring,
+            memory_total_ports,
         )
     elif strategy == "greedy_graph_color":
         pe_x = {}
@@ -461,6 +462,7 @@ def _ilp_min_mux(
     solver: LpSolver | None = None,
     pe_warm_start: dict[TypeName, dict] | None = None,
     mem_warm_start: dict | None = None,
+    memory_total_ports: int | None = None,
 ) -> tuple[dict, dict]:
     pe_in_cnt = {
         op_type_name: op.input_count
@@ -545,7 +547,7 @@ def _ilp_min_mux(
         for op_type_name, op_group in op_groups.items():
             pe_pairs = _get_pe_nodes(mem_node, list(op_group))
             for pe_node, in_port_idx in pe_pairs:
-                if not any(mem_node.reads.get(p) for p in pe_node.operation.inputs):
+                if not mem_node.reads.get(pe_node.operation.inputs[in_port_idx]):
                     continue
                 log.debug(
                     "  memory:%s -> %s:in%d", mem_node.name, pe_node.name, in_port_idx
@@ -591,6 +593,8 @@ def _ilp_min_mux(
                 continue
             if isinstance(source_port.operation, DontCare):
                 continue
+            if isinstance(dest_port.operation, Sink):
+                continue
             src_op_type, src_proc = op_info[source_port.operation]
             dst_op_type, dst_proc = op_info[dest_port.operation]
             log.debug(
@@ -736,8 +740,13 @@ def _ilp_min_mux(
 
     # Loop over the schedule and add constraints
     for t in range(Ts):
-        # At most one read/write per memory per time slot
-        for vars_at_t in (mem_writes_in_time[t], mem_reads_in_time[t]):
+        # At most one read/write (or access if single-port) per memory per time slot
+        accesses = (
+            (mem_writes_in_time[t] + mem_reads_in_time[t],)
+            if memory_total_ports == 1
+            else (mem_writes_in_time[t], mem_reads_in_time[t])
+        )
+        for vars_at_t in accesses:
             if len(vars_at_t) > 1:
                 for mem_idx in range(max_mems):
                     problem += lpSum(mem_x[var][mem_idx] for var in vars_at_t) <= 1
-- 
2.43.0


From 4dc4bdf51f35e3620e9a74cccc4a36c0f72a056e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:19 +0000
Subject: [PATCH 48/98] fix: resource limits that are too small were exceeded
 or dropped operations

---
 lib/b_asic/resource_assigner.py | 38 ++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/lib/b_asic/resource_assigner.py b/lib/b_asic/resource_assigner.py
index bfacc78..b78f958 100644
--- a/lib/b_asic/resource_assigner.py
+++ b/lib/b_asic/resource_assigner.py
@@ -220,6 +220,7 @@ def _split_operations_and_variables(
     mem_greedy_coloring = nx.coloring.greedy_color(
         mem_exclusion_graph, strategy="saturation_largest_first"
     )
+    mem_limit = max_mems
     if max_mems is None:
         log.info(
             "max_mems not provided, using greedy graph coloring to determine upper bound on memory colors"
@@ -261,6 +262,9 @@ def _split_operations_and_variables(
             coloring = nx.coloring.greedy_color(
                 pe_ex_graph, strategy="saturation_largest_first"
             )
+            _check_limit(
+                op_type_name, len(set(coloring.values())), max_pes[op_type_name]
+            )
             pe_x[op_type_name] = {
                 node: {
                     color: 1 if color == node_color else 0
@@ -271,6 +275,7 @@ def _split_operations_and_variables(
         mem_coloring = nx.coloring.greedy_color(
             mem_exclusion_graph, strategy="saturation_largest_first"
         )
+        _check_limit("memory", len(set(mem_coloring.values())), max_mems)
         mem_x = {
             node: {color: 1 if color == node_color else 0 for color in range(max_mems)}
             for node, node_color in mem_coloring.items()
@@ -287,6 +292,14 @@ def _split_operations_and_variables(
             pe_process_collections[op_type_name] = group.split_on_execution_time(
                 strategy="left_edge"
             )
+            if resources and op_type_name in resources:
+                _check_limit(
+                    op_type_name,
+                    len(pe_process_collections[op_type_name]),
+                    resources[op_type_name],
+                )
+        if mem_limit is not None:
+            _check_limit("memory", len(mem_process_collections), mem_limit)
         return pe_process_collections, mem_process_collections
     else:
         raise ValueError(f"Invalid strategy '{strategy}'")
@@ -313,6 +326,12 @@ def _split_operations_and_variables(
     return pe_process_collections, mem_process_collections
 
 
+def _check_limit(resource: str, needed: int, limit: int) -> None:
+    """Raise an error if more resources than allowed are needed."""
+    if needed > limit:
+        raise ValueError(f"At least {needed} {resource} resources needed, not {limit}")
+
+
 def _ilp_coloring(
     op_groups: dict[TypeName, ProcessCollection],
     mem_exclusion_graph: nx.Graph | None,
@@ -359,7 +378,8 @@ def _ilp_coloring(
     for node in mem_graph_nodes:
         for color in range(max_mems):
             problem += mem_x[node][color] <= mem_c[color]
-    max_clique = next(nx.find_cliques(mem_exclusion_graph))
+    max_clique = next(nx.find_cliques(mem_exclusion_graph), [])
+    _check_limit("memory", len(max_clique), max_mems)
     for color, node in enumerate(max_clique):
         problem += mem_x[node][color] == mem_c[color] == 1
     for color in range(max_mems):
@@ -370,6 +390,9 @@ def _ilp_coloring(
     for op_type_name, pe_exclusion_graph in pe_exclusion_graphs.items():
         nodes = list(pe_exclusion_graph.nodes())
         edges = list(pe_exclusion_graph.edges())
+        max_clique = next(nx.find_cliques(pe_exclusion_graph))
+        needed = max(len(max_clique), 2 if edges else 1)
+        _check_limit(op_type_name, needed, max_pes[op_type_name])
         for node in nodes:
             problem += (
                 lpSum(
@@ -386,7 +409,6 @@ def _ilp_coloring(
         for node in nodes:
             for color in range(max_pes[op_type_name]):
                 problem += pe_x[op_type_name][node][color] <= pe_c[op_type_name][color]
-        max_clique = next(nx.find_cliques(pe_exclusion_graph))
         for color, node in enumerate(max_clique):
             problem += (
                 pe_x[op_type_name][node][color] == pe_c[op_type_name][color] == 1
@@ -768,6 +790,7 @@ def _ilp_min_mux(
     busiest_mem_t = max(
         all_mem_times,
         key=lambda t: max(len(mem_writes_in_time[t]), len(mem_reads_in_time[t])),
+        default=0,
     )
     busiest_mem_vars = (
         mem_reads_in_time[busiest_mem_t]
@@ -775,6 +798,7 @@ def _ilp_min_mux(
         > len(mem_writes_in_time[busiest_mem_t])
         else mem_writes_in_time[busiest_mem_t]
     )
+    _check_limit("memory", len(busiest_mem_vars), max_mems)
     for mem_idx, var in enumerate(busiest_mem_vars):
         # problem += mem_x[var][mem_idx] == mem_c[mem_idx] == 1
         mem_x[var][mem_idx].setInitialValue(1)
@@ -790,6 +814,12 @@ def _ilp_min_mux(
         busiest_pe_t = max(
             procs_in_time[op_type_name],
             key=lambda t: len(procs_in_time[op_type_name][t]),
+            default=0,
+        )
+        _check_limit(
+            op_type_name,
+            len(procs_in_time[op_type_name][busiest_pe_t]),
+            max_pes[op_type_name],
         )
         if max_pes[op_type_name] > 1:
             for pe_idx, proc in enumerate(procs_in_time[op_type_name][busiest_pe_t]):
@@ -1096,7 +1126,9 @@ def _solve_ilp_problem(
     finally:
         _restore_interrupted_recovery(problem, solver, recovery_state)
 
-    if _has_feasible_solution(problem):
+    if status == LpStatusOptimal or (
+        status != LpStatusInfeasible and _has_feasible_solution(problem)
+    ):
         if interrupted or status == LpStatusNotSolved:
             log.warning("Using best feasible ILP solution found before solver stopped.")
         return
-- 
2.43.0


From fa785913199fc2670f46ff4c496cee7a6655723f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:19 +0000
Subject: [PATCH 49/98] fix: architectures lost processes and connections when
 an edit was refused

---
 lib/b_asic/architecture.py | 68 ++++++++++++++++++++++++++++++--------
 1 file changed, 55 insertions(+), 13 deletions(-)

diff --git a/lib/b_asic/architecture.py b/lib/b_asic/architecture.py
index 8d92e4d..2b84064 100644
--- a/lib/b_asic/architecture.py
+++ b/lib/b_asic/architecture.py
@@ -490,7 +490,13 @@ class Resource(HardwareBlock, ABC):
                 raise TypeError(f"{proc} not of type {self.operation_type}")
         self.collection.add_process(proc)
         if assign:
-            self.assign()
+            assignment = self._assignment
+            try:
+                self.assign()
+            except ValueError:
+                self.collection.remove_process(proc)
+                self._assignment = assignment
+                raise
         else:
             self._assignment = None
 
@@ -515,7 +521,13 @@ class Resource(HardwareBlock, ABC):
         """
         self.collection.remove_process(proc)
         if assign:
-            self.assign()
+            assignment = self._assignment
+            try:
+                self.assign()
+            except ValueError:
+                self.collection.add_process(proc)
+                self._assignment = assignment
+                raise
         else:
             self._assignment = None
 
@@ -582,6 +594,16 @@ class ProcessingElement(Resource):
     def processes(self) -> list[OperatorProcess]:
         return [cast(OperatorProcess, p) for p in self._collection]
 
+    def add_process(self, proc: Process, assign: bool = False) -> None:
+        # doc-string inherited
+        if (
+            isinstance(proc, OperatorProcess)
+            and isinstance(proc.operation, self.operation_type)
+            and proc.operation.latency != self._latency
+        ):
+            raise ValueError(f"{proc} has a different latency")
+        super().add_process(proc, assign=assign)
+
     @property
     def control_table(self) -> dict[str, ControlTable]:
         # Loop through all params and set these values
@@ -920,6 +942,12 @@ class Memory(Resource):
                     f"{self.entity_name}: {read_bound} concurrent read(s) required"
                     f" but only {self._output_count} read port(s) declared."
                 )
+            total_bound = self._collection.total_ports_bound()
+            if self._total_ports is not None and total_bound > self._total_ports:
+                raise ValueError(
+                    f"{self.entity_name}: {total_bound} concurrent access(es) required"
+                    f" but only {self._total_ports} port(s) declared."
+                )
         if self._memory_type == "RAM":
             self._assignment = self._collection.split_on_execution_time(
                 strategy, **kwargs
@@ -1025,19 +1053,19 @@ of :class:`~b_asic.architecture.ProcessingElement`
     ) -> None:
         super().__init__(entity_name)
 
-        pe_names = [pe._entity_name for pe in processing_elements]
-        if len(pe_names) != len(set(pe_names)):
-            raise ValueError("Entity names of processing elements needs to be unique.")
         self._processing_elements = (
             [processing_elements]
             if isinstance(processing_elements, ProcessingElement)
             else list(processing_elements)
         )
+        pe_names = [pe._entity_name for pe in self._processing_elements]
+        if len(pe_names) != len(set(pe_names)):
+            raise ValueError("Entity names of processing elements needs to be unique.")
 
-        mem_names = [mem._entity_name for mem in memories]
+        self._memories = [memories] if isinstance(memories, Memory) else list(memories)
+        mem_names = [mem._entity_name for mem in self._memories]
         if len(mem_names) != len(set(mem_names)):
             raise ValueError("Entity names of memories needs to be unique.")
-        self._memories = [memories] if isinstance(memories, Memory) else list(memories)
 
         self._direct_interconnects = direct_interconnects
 
@@ -1391,14 +1419,22 @@ of :class:`~b_asic.architecture.ProcessingElement`
         resource : :class:`~b_asic.architecture.Resource`
             The resource to add.
         """
-        if isinstance(resource, Memory):
-            self.memories.append(resource)
-        elif isinstance(resource, ProcessingElement):
-            self.processing_elements.append(resource)
-        else:
+        if not isinstance(resource, (Memory, ProcessingElement)):
             raise ValueError(
                 "Provided resource must be a Memory or a ProcessingElement"
             )
+        if resource.schedule_time != self.schedule_time:
+            raise ValueError(
+                f"Different schedule times: {self.schedule_time} and"
+                f" {resource.schedule_time}"
+            )
+        resources = (
+            self.memories if isinstance(resource, Memory) else self.processing_elements
+        )
+        if resource._entity_name in [r._entity_name for r in resources]:
+            raise ValueError(f"Entity name {resource.entity_name} is already used.")
+        resources.append(resource)
+        self._build_dicts()
 
     def remove_resource(
         self,
@@ -1481,8 +1517,14 @@ of :class:`~b_asic.architecture.ProcessingElement`
         proc = cast(Process, proc)
         # Move the process
         if proc in source:
+            assignment = destination._assignment
             destination.add_process(proc, assign=assign)
-            source.remove_process(proc, assign=assign)
+            try:
+                source.remove_process(proc, assign=assign)
+            except ValueError:
+                destination.remove_process(proc)
+                destination._assignment = assignment
+                raise
         else:
             raise KeyError(f"{proc} not in {source.entity_name}")
         self._build_dicts()
-- 
2.43.0


From d5614ed3756de226aa555b2e5e0de86c20fca77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 50/98] fix: quantization was inexact for large values and near
 ties, and lacked a mode

---
 lib/b_asic/quantization.py | 68 +++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 41 deletions(-)

diff --git a/lib/b_asic/quantization.py b/lib/b_asic/quantization.py
index 0460398..5d31a5e 100644
--- a/lib/b_asic/quantization.py
+++ b/lib/b_asic/quantization.py
@@ -151,28 +151,16 @@ def quantize(
     >>> quantize(0.3, 4, -1)  # Three bits in total, will overflow
     -0.25
     """
+    args = (fractional_bits, integer_bits, quantization_mode, overflow_mode)
     if isinstance(value, complex):
-        result = complex(
-            _quantize_real(
-                value.real,
-                fractional_bits,
-                integer_bits,
-                quantization_mode,
-                overflow_mode,
-            ),
-            _quantize_real(
-                value.imag,
-                fractional_bits,
-                integer_bits,
-                quantization_mode,
-                overflow_mode,
-            ),
+        return apy.APyCFixed(
+            (_quantize_real(value.real, *args), _quantize_real(value.imag, *args)),
+            int_bits=integer_bits,
+            frac_bits=fractional_bits,
         )
-    else:
-        result = _quantize_real(
-            value, fractional_bits, integer_bits, quantization_mode, overflow_mode
-        )
-    return apy.fx(result, int_bits=integer_bits, frac_bits=fractional_bits)
+    return apy.APyFixed(
+        _quantize_real(value, *args), int_bits=integer_bits, frac_bits=fractional_bits
+    )
 
 
 def _quantize_real(
@@ -181,32 +169,30 @@ def _quantize_real(
     integer_bits: int,
     quantization_mode: QuantizationMode,
     overflow_mode: OverflowMode,
-) -> float:
-    b = 2**fractional_bits
-    v = b * value
+) -> int:
+    """Return the bit pattern of the quantized value as an integer."""
+    v = 2**fractional_bits * value
+    f = math.floor(v)
     if quantization_mode is QuantizationMode.TRUNCATION:
-        v = math.floor(v)
+        res = f
     elif quantization_mode is QuantizationMode.ROUNDING:
-        v = math.floor(v + 0.5)
-    elif quantization_mode is QuantizationMode.MAGNITUDE_TRUNCATION:
-        v = math.floor(v) if v >= 0 else math.ceil(v)
+        res = f + (v - f >= 0.5)
+    elif quantization_mode in (
+        QuantizationMode.MAGNITUDE_TRUNCATION,
+        QuantizationMode.UNBIASED_MAGNITUDE_TRUNCATION,
+    ):
+        res = math.trunc(v)
     elif quantization_mode is QuantizationMode.JAMMING:
-        v = math.floor(v) | 1
+        res = f | 1
     elif quantization_mode is QuantizationMode.UNBIASED_ROUNDING:
-        v = round(v)
+        res = round(v)
     elif quantization_mode is QuantizationMode.UNBIASED_JAMMING:
-        f = math.floor(v)
-        v = f if v - f == 0 else f | 1
+        res = f if v == f else f | 1
     else:
-        raise TypeError("Unknown quantization method: {quantization!r}")
+        raise TypeError(f"Unknown quantization method: {quantization_mode!r}")
 
-    v = v / b
-    i = 2 ** (integer_bits - 1)
+    bits = integer_bits + fractional_bits
     if overflow_mode is OverflowMode.SATURATION:
-        pos_val = i - 1 / b
-        neg_val = -i
-        v = max(neg_val, min(v, pos_val))
-    else:  # OverflowMode.WRAPPING
-        v = (v + i) % (2 * i) - i
-
-    return v
+        limit = 2 ** (bits - 1)
+        res = max(-limit, min(res, limit - 1))
+    return res % 2**bits
-- 
2.43.0


From 4b7e850b534bb7f66e9c2a227c16d7e13f9524e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 51/98] fix: data types were ignored in nested graphs and
 simulations changed initial values

---
 lib/b_asic/sfg.py                | 17 ++++++++++++++---
 lib/b_asic/special_operations.py | 18 ++++++++++++++----
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 33b4adf..ad183d3 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -355,10 +355,12 @@ class SFG(AbstractOperation):
         return TypeName("sfg")
 
     def evaluate(self, *args, data_type=None) -> Num | list[Num] | None:
-        result = self.evaluate_outputs(args)
+        result = [
+            self.evaluate_output(i, args, data_type=data_type)
+            for i in range(self.output_count)
+        ]
         n = len(result)
-        res = None if n == 0 else result[0] if n == 1 else result
-        return self._cast_to_data_type(res, data_type)
+        return None if n == 0 else result[0] if n == 1 else result
 
     def evaluate_output(
         self,
@@ -400,6 +402,7 @@ class SFG(AbstractOperation):
             delays,
             prefix,
             deferred_delays,
+            data_type,
         )
         while deferred_delays:
             new_deferred_delays = []
@@ -412,6 +415,7 @@ class SFG(AbstractOperation):
                     delays,
                     prefix,
                     new_deferred_delays,
+                    data_type,
                 )
             deferred_delays = new_deferred_delays
         results[self.key(index, prefix)] = value
@@ -1779,6 +1783,7 @@ class SFG(AbstractOperation):
         delays: MutableDelayMap,
         prefix: str,
         deferred_delays: DelayQueue,
+        data_type: DataType | None = None,
     ) -> Num:
         key_base = (
             (prefix + "." + src.operation.graph_id)
@@ -1795,6 +1800,8 @@ class SFG(AbstractOperation):
             return value
 
         value = src.operation.current_output(src.index, delays, key_base)
+        if value is not None:
+            value = self._cast_to_data_type(value, data_type)
         results[key] = value
         if value is None:
             value = self._do_evaluate_source(
@@ -1805,6 +1812,7 @@ class SFG(AbstractOperation):
                 delays,
                 prefix,
                 deferred_delays,
+                data_type,
             )
         else:
             # Evaluate later. Use current value for now.
@@ -1820,6 +1828,7 @@ class SFG(AbstractOperation):
         delays: MutableDelayMap,
         prefix: str,
         deferred_delays: DelayQueue,
+        data_type: DataType | None = None,
     ) -> Num:
         input_values = [
             self._evaluate_source(
@@ -1828,6 +1837,7 @@ class SFG(AbstractOperation):
                 delays,
                 prefix,
                 deferred_delays,
+                data_type,
             )
             for input_port in src.operation.inputs
         ]
@@ -1840,6 +1850,7 @@ class SFG(AbstractOperation):
             results,
             delays,
             key_base,
+            data_type=data_type,
         )
         results[key] = value
         return value
diff --git a/lib/b_asic/special_operations.py b/lib/b_asic/special_operations.py
index c8bccab..6feb9e2 100644
--- a/lib/b_asic/special_operations.py
+++ b/lib/b_asic/special_operations.py
@@ -50,9 +50,21 @@ class Input(AbstractOperation):
     def evaluate(self, data_type=None) -> Num:
         if data_type is None:
             return self._value
+        if isinstance(self._value, (apy.APyCFixed, apy.APyCFloat)):
+            return self._value.cast(data_type.wl[0], data_type.wl[1])
         if data_type.num_repr == NumRepresentation.FIXED_POINT:
-            return apy.fx(self._value, data_type.wl[0], data_type.wl[1])
-        return apy.fp(self._value, data_type.wl[0], data_type.wl[1])
+            return apy.fx(
+                self._value,
+                data_type.wl[0],
+                data_type.wl[1],
+                force_complex=data_type.is_complex,
+            )
+        return apy.fp(
+            self._value,
+            data_type.wl[0],
+            data_type.wl[1],
+            force_complex=data_type.is_complex,
+        )
 
     @property
     def latency(self) -> int:
@@ -213,8 +225,6 @@ class Delay(AbstractOperation):
         return inputs[0]
 
     def evaluate(self, a, data_type, delays=None) -> Num:
-        if data_type and data_type.is_complex:
-            self.initial_value = complex(self.initial_value)
         if delays is not None:
             res = delays.get(self.graph_id, self.param("initial_value"))
         else:
-- 
2.43.0


From 235da16f3582536dac39759287573ba7e90fa98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 52/98] fix: negation, constants, conjugate and multiplication
 by j in a data type

---
 lib/b_asic/core_operations.py | 27 ++++++++++++++-------------
 lib/b_asic/fft_operations.py  |  5 ++++-
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/lib/b_asic/core_operations.py b/lib/b_asic/core_operations.py
index 4161fd1..d2c987c 100644
--- a/lib/b_asic/core_operations.py
+++ b/lib/b_asic/core_operations.py
@@ -11,7 +11,6 @@ import apytypes as apy
 from numpy import abs as np_abs
 from numpy import conjugate, sqrt
 
-from b_asic.data_type import NumRepresentation
 from b_asic.graph_component import Name, TypeName
 from b_asic.operation import AbstractOperation
 from b_asic.port import SignalSourceProvider
@@ -63,9 +62,7 @@ class Constant(AbstractOperation):
         return TypeName("c")
 
     def evaluate(self, data_type=None) -> Num:
-        if data_type is not None:
-            return apy.fx(self.param("value"), data_type.wl[0], data_type.wl[1])
-        return self.param("value")
+        return self._cast_to_data_type(self.param("value"), data_type)
 
     @property
     def value(self) -> Num:
@@ -182,12 +179,9 @@ class Negation(AbstractOperation):
         return f"-{inputs[0]}"
 
     def evaluate(self, a, data_type=None) -> Num:
-        if data_type is not None:
-            if data_type.num_repr == NumRepresentation.FLOATING_POINT:
-                return apy.fp(-a, data_type.wl[0], data_type.wl[1])
-            elif data_type.num_repr == NumRepresentation.FIXED_POINT:
-                return apy.fx(-a, data_type.wl[0], data_type.wl[1])
-        return -a
+        # Subtract, as the negation of a complex fixed-point value may overflow
+        res = 0 - a if isinstance(a, apy.APyCFixed) else -a
+        return self._cast_to_data_type(res, data_type)
 
 
 class Addition(AbstractOperation):
@@ -1412,6 +1406,8 @@ class SquareRoot(AbstractOperation):
 
     def evaluate(self, a, data_type=None) -> Num:
         res = sqrt(complex(a))
+        if data_type is not None and not data_type.is_complex and res.imag == 0:
+            res = res.real
         return self._cast_to_data_type(res, data_type)
 
 
@@ -1470,7 +1466,12 @@ class ComplexConjugate(AbstractOperation):
         return TypeName("conj")
 
     def evaluate(self, a, data_type=None) -> Num:
-        res = conjugate(a)
+        if isinstance(a, (apy.APyFixed, apy.APyFloat)):
+            res = a
+        elif isinstance(a, (apy.APyCFixed, apy.APyCFloat)):
+            res = a.conj()
+        else:
+            res = conjugate(a)
         return self._cast_to_data_type(res, data_type)
 
 
@@ -1599,7 +1600,7 @@ class ImaginaryMultiplication(AbstractOperation):
         return f"{inputs[0]} * j"
 
     def evaluate(self, a, data_type=None) -> Num:
-        res = a * 1j
+        res = a * apy.fx(1j, 2, 0) if isinstance(a, apy.APyCFixed) else a * 1j
         return self._cast_to_data_type(res, data_type)
 
     def _join(
@@ -2018,7 +2019,7 @@ class MADS(AbstractOperation):
         if self.is_add:
             res = a + b * c if self.do_addsub else b * c
         else:
-            res = a - b * c if self.do_addsub else -b * c
+            res = a - b * c if self.do_addsub else -(b * c)
         return self._cast_to_data_type(res, data_type)
 
     @property
diff --git a/lib/b_asic/fft_operations.py b/lib/b_asic/fft_operations.py
index df80500..9282d6f 100644
--- a/lib/b_asic/fft_operations.py
+++ b/lib/b_asic/fft_operations.py
@@ -6,6 +6,8 @@ Contains selected FFT butterfly operations.
 
 import math
 
+import apytypes as apy
+
 from b_asic.graph_component import Name, TypeName
 from b_asic.operation import AbstractOperation
 from b_asic.port import SignalSourceProvider
@@ -487,7 +489,8 @@ class R4Butterfly(AbstractOperation):
         s0 = a + c
         s1 = b + d
         s2 = a - c
-        s3 = 1j * (d - b)
+        s3 = d - b
+        s3 = s3 * apy.fx(1j, 2, 0) if isinstance(s3, apy.APyCFixed) else 1j * s3
 
         y0 = s0 + s1  # y0 = a + b + c + d
         y1 = s2 + s3  # y1 = a -1j*b - c + 1j*d
-- 
2.43.0


From f9cd922a1731ee470cc7bc375d03eb4520187959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 53/98] fix: printed signal generators lost parentheses and
 one-line files could not be read

---
 lib/b_asic/signal_generator.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/signal_generator.py b/lib/b_asic/signal_generator.py
index f1c92e5..60ab2fd 100644
--- a/lib/b_asic/signal_generator.py
+++ b/lib/b_asic/signal_generator.py
@@ -151,6 +151,9 @@ class Constant(SignalGenerator):
     def __str__(self) -> str:
         return f"{self._constant}"
 
+    def __repr__(self) -> str:
+        return f"Constant({self._constant})"
+
 
 class ZeroPad(SignalGenerator):
     """
@@ -200,7 +203,7 @@ class FromFile(SignalGenerator):
 
     def __init__(self, path: str) -> None:
         self._path = path
-        data: list[Num] = np.loadtxt(path, dtype=complex).tolist()
+        data: list[Num] = np.loadtxt(path, dtype=complex, ndmin=1).tolist()
         self._data = data
         self._len = len(data)
 
@@ -408,7 +411,12 @@ class _SubGenerator(SignalGenerator):
         return self._a(time) - self._b(time)
 
     def __repr__(self) -> str:
-        return f"{self._a} - {self._b}"
+        b = (
+            f"({self._b})"
+            if isinstance(self._b, (_AddGenerator, _SubGenerator))
+            else f"{self._b}"
+        )
+        return f"{self._a} - {b}"
 
 
 class _MulGenerator(SignalGenerator):
-- 
2.43.0


From d702ca3f473eadd8021f4e3c4bbb5fb9e4e3da81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:14 +0000
Subject: [PATCH 54/98] fix: saved graphs lost parameters, identifiers and
 timing and saved schedules could not be read

---
 lib/b_asic/save_load_structure.py | 357 +++++++++++++++++++++---------
 1 file changed, 255 insertions(+), 102 deletions(-)

diff --git a/lib/b_asic/save_load_structure.py b/lib/b_asic/save_load_structure.py
index 60a0d08..03cedbf 100644
--- a/lib/b_asic/save_load_structure.py
+++ b/lib/b_asic/save_load_structure.py
@@ -5,141 +5,275 @@ Contains functions for saving/loading SFGs and Schedules to/from strings that ca
 stored as files.
 """
 
+import builtins
+import keyword
+import re
 from datetime import datetime
 from inspect import signature
 from pathlib import Path
-from typing import cast
+from typing import Any, cast
 
+import numpy as np
+
+import b_asic
 from b_asic.graph_component import GraphComponent
+from b_asic.operation import Operation
 from b_asic.port import InputPort
 from b_asic.schedule import Schedule
 from b_asic.sfg import SFG
+from b_asic.signal import Signal
+from b_asic.special_operations import Delay
+
+
+def _literal(value: Any) -> str:
+    """Return a Python expression evaluating to *value*."""
+    if isinstance(value, np.generic):
+        value = value.item()
+    if isinstance(value, complex):
+        return f"complex({_literal(value.real)}, {_literal(value.imag)})"
+    if isinstance(value, float) and not np.isfinite(value):
+        return f'float("{value}")'
+    if isinstance(value, dict):
+        items = (f"{_literal(k)}: {_literal(v)}" for k, v in value.items())
+        return "{" + ", ".join(items) + "}"
+    if isinstance(value, list):
+        return "[" + ", ".join(map(_literal, value)) + "]"
+    if isinstance(value, tuple):
+        return "(" + "".join(f"{_literal(v)}, " for v in value) + ")"
+    return ascii(value)
+
+
+def _variable_name(name: str, used: set[str]) -> str:
+    """Return an unused variable name resembling *name* and mark it as used."""
+    base = re.sub(r"\W", "_", name, flags=re.ASCII)
+    if not base or base[0].isdigit():
+        base = "_" + base
+    variable = base
+    index = 0
+    while variable in used or keyword.iskeyword(variable):
+        index += 1
+        variable = f"{base}_{index}"
+    used.add(variable)
+    return variable
+
+
+def _parameters_to_python(comp: GraphComponent) -> str:
+    """Return the constructor arguments needed to recreate *comp*."""
+    result = []
+    for name, parameter in signature(type(comp).__init__).parameters.items():
+        if name in ("self", "latency") or not hasattr(comp, name):
+            continue
+        value = getattr(comp, name)
+        if name == "latency_offsets":
+            value = {k: v for k, v in value.items() if v is not None} or None
+        if value is None or _literal(value) == _literal(parameter.default):
+            continue
+        result.append(f"{name}={_literal(value)}")
+    return ", ".join(result)
 
 
-def sfg_to_python(
-    sfg: SFG, counter: int = 0, suffix: str | None = None, schedule: bool = False
+def _signal_parameters_to_python(signal: Signal) -> str:
+    """Return the constructor arguments of *signal* except its end points."""
+    result = ""
+    if signal.bits is not None:
+        result += f", bits={_literal(signal.bits)}"
+    if signal.name:
+        result += f", name={_literal(signal.name)}"
+    return result
+
+
+def _operation_to_python(operation: Operation, variable: str) -> str:
+    """Return the code recreating *operation*, without its connections."""
+    class_name = type(operation).__name__
+    result = f"{variable} = {class_name}({_parameters_to_python(operation)})\n"
+    return result + _state_to_python(operation, variable, type(operation)())
+
+
+def _state_to_python(
+    operation: Operation, variable: str, default: Operation | None = None
 ) -> str:
     """
-    Given an SFG structure try to serialize it for saving to a file.
+    Return the code setting what the constructor of *operation* does not set.
 
     Parameters
     ----------
-    sfg : :class:`~b_asic.sfg.SFG`
-        The SFG to serialize.
-    counter : int, default: 0
-        Number used for naming the SFG. Enables SFGs in SFGs.
-    suffix : str, optional
-        String to append at the end of the result.
-    schedule : bool, default: False
-        True if printing a schedule.
+    operation : Operation
+        The operation to serialize.
+    variable : str
+        The name of the variable holding the operation.
+    default : Operation, optional
+        A newly constructed operation of the same type.
     """
-    if not isinstance(sfg, SFG):
-        raise TypeError("An SFG must be provided")
+    result = ""
+    if operation.graph_id:
+        result += f"{variable}.graph_id = {_literal(operation.graph_id)}\n"
+
+    arguments = signature(type(operation).__init__).parameters
+    if "execution_time" not in arguments:
+        execution_time = None if default is None else default.execution_time
+        if operation.execution_time != execution_time:
+            result += f"{variable}.execution_time = {operation.execution_time}\n"
+    if "latency_offsets" not in arguments:
+        offsets = {} if default is None else default.latency_offsets
+        offsets = {
+            port: offset
+            for port, offset in operation.latency_offsets.items()
+            if offset != offsets.get(port)
+        }
+        if offsets:
+            result += f"{variable}.set_latency_offsets({_literal(offsets)})\n"
+    for parameter, value in operation.params.items():
+        if parameter not in arguments:
+            result += (
+                f"{variable}.set_param({_literal(parameter)}, {_literal(value)})\n"
+            )
+    return result
 
-    _type = "Schedule" if schedule else "SFG"
 
-    result = (
-        '\n"""\n'
-        + f"B-ASIC automatically generated {_type} file.\n"
-        + "Name: "
-        + f"{sfg.name}"
-        + "\n"
-        + "Last saved: "
-        + f"{datetime.now()}"
-        + ".\n"
-        + '"""'
-    )
+def _all_operation_types(sfg: SFG) -> set[type]:
+    """Return the types of the operations in *sfg* and in the SFGs in it."""
+    types: set[type] = set()
+    for operation in sfg.operations:
+        types.add(type(operation))
+        if isinstance(operation, SFG):
+            types |= _all_operation_types(operation)
+    return types
 
-    result += "\nfrom b_asic import SFG, Signal, Input, Output"
-    for op_type in {type(op) for op in sfg.operations}:
-        result += f", {op_type.__name__}"
-    if schedule:
-        result += ", Schedule"
-
-    def kwarg_unpacker(comp: GraphComponent, params=None) -> str:
-        if params is None:
-            params_filtered = {
-                attr: getattr(comp, attr)
-                for attr in signature(comp.__init__).parameters
-                if attr != "latency" and hasattr(comp, attr)
-            }
-            params = {
-                attr: (
-                    getattr(comp, attr)
-                    if not isinstance(getattr(comp, attr), str)
-                    else f'"{getattr(comp, attr)}"'
-                )
-                for attr in params_filtered
-            }
-            params = {k: v for k, v in params.items() if v}
-            if params.get("latency_offsets") is not None:
-                params["latency_offsets"] = {
-                    k: v for k, v in params["latency_offsets"].items() if v is not None
-                }
-                if not params["latency_offsets"]:
-                    del params["latency_offsets"]
-
-        return ", ".join([f"{param}={value}" for param, value in params.items()])
+
+def _sfg_body_to_python(sfg: SFG, variable: str, used: set[str]) -> str:
+    """
+    Return the code recreating *sfg* as the variable *variable*.
+
+    Parameters
+    ----------
+    sfg : :class:`~b_asic.sfg.SFG`
+        The SFG to serialize.
+    variable : str
+        The name of the variable that shall hold the SFG.
+    used : set of str
+        The variable names that are already used.
+    """
+    operations = sfg.split()
+    variables = {op: _variable_name(op.graph_id, used) for op in operations}
+
+    # SFGs in the SFG
+    result = ""
+    for operation in operations:
+        if isinstance(operation, SFG):
+            result += _sfg_body_to_python(operation, variables[operation], used)
 
     # No need to redefined I/Os
     io_ops = [*sfg.input_operations, *sfg.output_operations]
 
     result += "\n# Inputs:\n"
     for input_op in sfg.input_operations:
-        result += f"{input_op.graph_id} = Input({kwarg_unpacker(input_op)})\n"
+        result += _operation_to_python(input_op, variables[input_op])
 
     result += "\n# Outputs:\n"
     for output_op in sfg.output_operations:
-        result += f"{output_op.graph_id} = Output({kwarg_unpacker(output_op)})\n"
+        result += _operation_to_python(output_op, variables[output_op])
 
     result += "\n# Operations:\n"
-    for operation in sfg.split():
-        if operation in io_ops:
-            continue
-        if isinstance(operation, SFG):
-            counter += 1
-            result = sfg_to_python(operation, counter) + result
-            continue
-
-        result += (
-            f"{operation.graph_id} ="
-            f" {operation.__class__.__name__}({kwarg_unpacker(operation)})\n"
-        )
+    for operation in operations:
+        if operation not in io_ops and not isinstance(operation, SFG):
+            result += _operation_to_python(operation, variables[operation])
 
     result += "\n# Signals:\n"
-    # Keep track of already existing connections to avoid adding duplicates
-    connections = []
-    for operation in sfg.split():
+    for operation in operations:
         for out in operation.outputs:
             for signal in out.signals:
                 destination = cast(InputPort, signal.destination)
-                dest_op = destination.operation
-                connection = (
-                    f"Signal(source={operation.graph_id}."
-                    f"output({operation.outputs.index(signal.source)}),"
-                    f" destination={dest_op.graph_id}."
-                    f"input({dest_op.inputs.index(destination)}))\n"
+                arguments = _signal_parameters_to_python(signal)
+                result += (
+                    f"Signal(source={variables[operation]}.output({out.index}),"
+                    f" destination={variables[destination.operation]}."
+                    f"input({destination.index}){arguments}"
+                    f").graph_id = {_literal(signal.graph_id)}\n"
                 )
-                if connection in connections:
-                    continue
 
-                result += connection
-                connections.append(connection)
-
-    inputs = "[" + ", ".join(op.graph_id for op in sfg.input_operations) + "]"
-    outputs = "[" + ", ".join(op.graph_id for op in sfg.output_operations) + "]"
-    sfg_name = sfg.name or (f"sfg{counter}" if counter > 0 else "sfg")
-    sfg_name_var = sfg_name.replace(" ", "_").replace("-", "_")
+    inputs = "[" + ", ".join(variables[op] for op in sfg.input_operations) + "]"
+    outputs = "[" + ", ".join(variables[op] for op in sfg.output_operations) + "]"
+    offset = (
+        f", id_number_offset={sfg.id_number_offset}" if sfg.id_number_offset else ""
+    )
     result += "\n# Signal flow graph:\n"
     result += (
-        f"{sfg_name_var} = SFG(inputs={inputs}, outputs={outputs}, name='{sfg_name}')\n"
+        f"{variable} = SFG(inputs={inputs}, outputs={outputs},"
+        f" name={_literal(sfg.name)}{offset})\n"
     )
-    result += "\n# SFG Properties:\n" + "prop = {'name':" + f"{sfg_name_var}" + "}\n"
+    return result + _state_to_python(sfg, variable)
+
+
+def _to_python(
+    sfg: SFG, counter: int, suffix: str | None, schedule: bool
+) -> tuple[str, str]:
+    """Return the code recreating *sfg* and the name of the variable holding it."""
+    _type = "Schedule" if schedule else "SFG"
+
+    name = sfg.name.encode("unicode_escape").decode().replace('"', '\\"')
+    result = (
+        '\n"""\n'
+        + f"B-ASIC automatically generated {_type} file.\n"
+        + "Name: "
+        + name
+        + "\n"
+        + "Last saved: "
+        + f"{datetime.now()}"
+        + ".\n"
+        + '"""\n'
+    )
+
+    b_asic_names = {"SFG", "Signal", "Input", "Output"}
+    if schedule:
+        b_asic_names.add("Schedule")
+    other_imports = []
+    for op_type in _all_operation_types(sfg):
+        if getattr(b_asic, op_type.__name__, None) is op_type:
+            b_asic_names.add(op_type.__name__)
+        else:
+            other_imports.append((op_type.__module__, op_type.__name__))
+    result += f"from b_asic import {', '.join(sorted(b_asic_names))}\n"
+    for module, type_name in sorted(other_imports):
+        result += f"from {module} import {type_name}\n"
+
+    used = {"prop", "positions", *dir(builtins)}
+    used |= b_asic_names | {type_name for _, type_name in other_imports}
+    default_name = f"sfg{counter}" if counter > 0 else "sfg"
+    # Operations keep their graph IDs as variable names when possible
+    reserved = {op.graph_id for op in sfg.operations}
+    variable = _variable_name(sfg.name or default_name, used | reserved)
+    used.add(variable)
+
+    result += _sfg_body_to_python(sfg, variable, used)
+    result += "\n# SFG Properties:\n" + "prop = {'name':" + f"{variable}" + "}\n"
 
     if suffix is not None:
         result += "\n" + suffix + "\n"
 
-    return result
+    return result, variable
+
+
+def sfg_to_python(
+    sfg: SFG, counter: int = 0, suffix: str | None = None, schedule: bool = False
+) -> str:
+    """
+    Given an SFG structure try to serialize it for saving to a file.
+
+    Parameters
+    ----------
+    sfg : :class:`~b_asic.sfg.SFG`
+        The SFG to serialize.
+    counter : int, default: 0
+        Number used for naming the SFG. Enables SFGs in SFGs.
+    suffix : str, optional
+        String to append at the end of the result.
+    schedule : bool, default: False
+        True if printing a schedule.
+    """
+    if not isinstance(sfg, SFG):
+        raise TypeError("An SFG must be provided")
+
+    return _to_python(sfg, counter, suffix, schedule)[0]
 
 
 def python_to_sfg(path: str) -> tuple[SFG, dict[str, tuple[int, int]]]:
@@ -186,16 +320,35 @@ def schedule_to_python(schedule: Schedule) -> str:
     """
     if not isinstance(schedule, Schedule):
         raise TypeError("A Schedule must be provided")
-    sfg_name = (
-        schedule.sfg.name.replace(" ", "_").replace("-", "_")
-        if schedule.sfg.name
-        else "sfg"
-    )
-    result = "\n# Schedule:\n"
-    nonzerolaps = {gid: val for gid, val in dict(schedule.laps).items() if val}
+    sfg = schedule.sfg
+    result, variable = _to_python(sfg, 0, None, True)
+
+    # The laps are given for the signals that remain without delay elements
+    laps_by_port = {
+        (op.graph_id, port.index): schedule.laps.get(port.signals[0].graph_id, 0)
+        for op in schedule._sfg.operations
+        for port in op.inputs
+    }
+    stripped_sfg = sfg
+    while delays := stripped_sfg.find_by_type(Delay):
+        stripped_sfg = cast(SFG, stripped_sfg.remove_operation(delays[0].graph_id))
+    laps = {
+        port.signals[0].graph_id: laps_by_port[op.graph_id, port.index]
+        for op in stripped_sfg.operations
+        for port in op.inputs
+        if laps_by_port[op.graph_id, port.index]
+    }
+
+    result += "\n# Schedule:\n"
     result += (
-        f"{sfg_name}_schedule = Schedule({sfg_name}, {schedule.schedule_time},"
-        f" {schedule.cyclic}, 'provided', {schedule.start_times},"
-        f" {nonzerolaps})\n"
+        f"{variable}_schedule = Schedule({variable},"
+        f" schedule_time={schedule.schedule_time}, cyclic={schedule.cyclic},"
+        f" start_times={_literal(dict(schedule.start_times))}, laps={_literal(laps)})\n"
     )
-    return sfg_to_python(schedule.sfg, schedule=True) + result
+    for graph_id, y_location in schedule._y_locations.items():
+        if y_location is not None:
+            result += (
+                f"{variable}_schedule.set_y_location({_literal(graph_id)},"
+                f" {_literal(y_location)})\n"
+            )
+    return result
-- 
2.43.0


From 845dab0fdb13424957946a26a506b0fbd27520d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:33 +0000
Subject: [PATCH 55/98] fix: symmetric direct-form FIR filters with an odd
 number of taps lost the centre tap

---
 lib/b_asic/sfg_generators/digital_filters.py | 21 +++++++++-----------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/lib/b_asic/sfg_generators/digital_filters.py b/lib/b_asic/sfg_generators/digital_filters.py
index 28fcc7c..a0c57e2 100644
--- a/lib/b_asic/sfg_generators/digital_filters.py
+++ b/lib/b_asic/sfg_generators/digital_filters.py
@@ -77,21 +77,18 @@ def fir(
             for i in range(taps // 2)
         ]
 
-        if taps == 1:
-            muls = [
-                ConstantMultiplication(coefficients[0], input_op, **mult_properties)
-            ]
-        else:
-            muls = [
-                ConstantMultiplication(
-                    coefficients[i], add_layer_1[i], **mult_properties
-                )
-                for i in range(taps // 2)
-            ]
+        # The center tap is not paired with any other tap
+        if taps % 2:
+            add_layer_1.append(delays[taps // 2])
+
+        muls = [
+            ConstantMultiplication(np_coefficients[i], op, **mult_properties)
+            for i, op in enumerate(add_layer_1)
+        ]
 
         previous_op = muls[0]
         add_layer_2 = []
-        for i in range(taps // 2 - 1):
+        for i in range(len(muls) - 1):
             add_layer_2.append(Addition(previous_op, muls[i + 1], **add_properties))
             previous_op = add_layer_2[-1]
 
-- 
2.43.0


From 7ee1d95f7314f3ae4dce9aebe1c67d00bd918be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:33 +0000
Subject: [PATCH 56/98] fix: allpass sections with a zero first and a nonzero
 second coefficient could not be generated

---
 lib/b_asic/sfg_generators/wave_digital_filters.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/sfg_generators/wave_digital_filters.py b/lib/b_asic/sfg_generators/wave_digital_filters.py
index fdb85a3..3815021 100644
--- a/lib/b_asic/sfg_generators/wave_digital_filters.py
+++ b/lib/b_asic/sfg_generators/wave_digital_filters.py
@@ -127,9 +127,12 @@ def wdf_allpass(
                 latency_offsets=latency_offsets,
                 execution_time=execution_time,
             )
-            Signal(adaptor2.output(0), adaptor1.input(1))
             Signal(adaptor2.output(1), delay2)
-            signal_out = Signal(adaptor1.output(0))
+            if np_coefficients[idx1]:
+                Signal(adaptor2.output(0), adaptor1.input(1))
+                signal_out = Signal(adaptor1.output(0))
+            else:
+                signal_out = Signal(adaptor2.output(0))
         else:
             delay2 = Delay(delay1, name=_tname(idx2))
             if np_coefficients[idx1]:
-- 
2.43.0


From 295008ccfa5e2a474078982804a6bd2f3e6fcbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:33 +0000
Subject: [PATCH 57/98] fix: lattice wave digital filters paired the poles
 wrongly for high orders and dropped real poles

---
 lib/b_asic/wdf/lattice.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/lib/b_asic/wdf/lattice.py b/lib/b_asic/wdf/lattice.py
index 2ac6552..6c8d1fc 100644
--- a/lib/b_asic/wdf/lattice.py
+++ b/lib/b_asic/wdf/lattice.py
@@ -27,23 +27,29 @@ def lattice_coeffs_from_tf(a: Sequence[float]) -> list[float]:
     np_a = np.atleast_1d(np.asarray(a, dtype=float))
     np_a = np_a / np_a[0]
     poles = np.roots(np_a)
-    real_poles = [p for p in poles if abs(p.imag) < 1e-10]
+    real_poles = sorted(p.real for p in poles if abs(p.imag) < 1e-10)
     complex_pairs = [p for p in poles if p.imag > 1e-10]
+    # The poles are to be distributed alternately in order of their Q value
+    complex_pairs.sort(key=lambda p: p.imag / max(1.0 - abs(p) ** 2, 1e-15))
 
-    def _sec(pole):
-        if abs(pole.imag) < 1e-10:
-            return [float(pole.real)]
-        return [-(abs(pole) ** 2), 2.0 * pole.real / (1.0 + abs(pole) ** 2)]
+    def _second_order(pole_sum, pole_product):
+        return [-float(pole_product), float(pole_sum / (1.0 + pole_product))]
+
+    pair_sections = [_second_order(2.0 * p.real, abs(p) ** 2) for p in complex_pairs]
+    # At most one real pole can be realized by a first-order section
+    while len(real_poles) > 1:
+        p0, p1 = real_poles.pop(), real_poles.pop()
+        pair_sections.append(_second_order(p0 + p1, p0 * p1))
 
     a_sections: list = []
     b_sections: list = []
     if real_poles:
-        a_sections.append(_sec(real_poles[0]))
-        for i, p in enumerate(complex_pairs):
-            (b_sections if i % 2 == 0 else a_sections).append(_sec(p))
+        a_sections.append([float(real_poles[0])])
+        for i, section in enumerate(pair_sections):
+            (b_sections if i % 2 == 0 else a_sections).append(section)
     else:
-        for i, p in enumerate(complex_pairs):
-            (a_sections if i % 2 == 0 else b_sections).append(_sec(p))
+        for i, section in enumerate(pair_sections):
+            (a_sections if i % 2 == 0 else b_sections).append(section)
 
     coeffs: list = []
     if real_poles:
-- 
2.43.0


From a76da35292dafe03aadfa35ebfb465cbde8b994d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:33 +0000
Subject: [PATCH 58/98] fix: the names of the inputs of a matrix multiplication
 swapped rows and columns

---
 lib/b_asic/sfg_generators/matrix_operations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/sfg_generators/matrix_operations.py b/lib/b_asic/sfg_generators/matrix_operations.py
index b335b99..9804fff 100644
--- a/lib/b_asic/sfg_generators/matrix_operations.py
+++ b/lib/b_asic/sfg_generators/matrix_operations.py
@@ -46,8 +46,8 @@ def matrix_multiplication(
     if mad_properties is None:
         mad_properties = {}
 
-    A = [[Input(f"A[{i},{j}]") for i in range(n)] for j in range(m)]
-    B = [[Input(f"B[{i},{j}]") for i in range(p)] for j in range(n)]
+    A = [[Input(f"A[{i},{j}]") for j in range(n)] for i in range(m)]
+    B = [[Input(f"B[{i},{j}]") for j in range(p)] for i in range(n)]
 
     C = []
     for i in range(m):
-- 
2.43.0


From d76a6968673bff0942b1b268efca5272854ec64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:33 +0000
Subject: [PATCH 59/98] fix: a radix-2 FFT of zero points was not refused
 properly

---
 lib/b_asic/sfg_generators/fft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/b_asic/sfg_generators/fft.py b/lib/b_asic/sfg_generators/fft.py
index 69120b5..3b1f88f 100644
--- a/lib/b_asic/sfg_generators/fft.py
+++ b/lib/b_asic/sfg_generators/fft.py
@@ -33,7 +33,7 @@ def radix_2_dif_fft(points: int) -> SFG:
     SFG
         Signal Flow Graph
     """
-    if points < 0:
+    if points < 1:
         raise ValueError("Points must be positive number.")
     if points & (points - 1) != 0:
         raise ValueError("Points must be a power of two.")
-- 
2.43.0


From 64507ddbe261a606ee0e1843d7d46a25c4aef27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:33 +0000
Subject: [PATCH 60/98] fix: parallel interleavers could use a port twice at
 the same time and exceed the schedule time

---
 lib/b_asic/research/interleaver.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/b_asic/research/interleaver.py b/lib/b_asic/research/interleaver.py
index 3a30489..62a6781 100644
--- a/lib/b_asic/research/interleaver.py
+++ b/lib/b_asic/research/interleaver.py
@@ -22,8 +22,10 @@ def _insert_delays(
     maxdelay = max(outputorder[i][0] - inputorder[i][0] for i in range(size))
 
     if cyclic and maxdelay >= time:
-        inputorder = inputorder + [(i[0] + time, i[1]) for i in inputorder]
-        outputorder = outputorder + [(o[0] + time, o[1]) for o in outputorder]
+        # No lifetime may be longer than the schedule time
+        offsets = range(0, maxdelay + 1, time)
+        inputorder = [(i[0] + t, i[1]) for t in offsets for i in inputorder]
+        outputorder = [(o[0] + t, o[1]) for t in offsets for o in outputorder]
     return inputorder, outputorder
 
 
@@ -112,13 +114,13 @@ def generate_matrix_transposer(
         )
 
     inputorders = [
-        ((row + rows * col) // parallelism, row % parallelism)
+        ((row + rows * col) // parallelism, (row + rows * col) % parallelism)
         for col in range(cols)
         for row in range(rows)
     ]
 
     outputorders = [
-        ((col * rows + row) // parallelism, col % parallelism)
+        ((col * rows + row) // parallelism, (col * rows + row) % parallelism)
         for row in range(rows)
         for col in range(cols)
     ]
-- 
2.43.0


From d591bb20e99921ce915f34c7d4c46afb34b100c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:49 +0000
Subject: [PATCH 61/98] fix: saturation of more than 32 bits could not be
 compiled

---
 lib/b_asic/code_printer/vhdl/vhdl_printer.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/b_asic/code_printer/vhdl/vhdl_printer.py b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
index ca8da0e..92b8f25 100644
--- a/lib/b_asic/code_printer/vhdl/vhdl_printer.py
+++ b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
@@ -1918,8 +1918,8 @@ class VhdlPrinter(Printer):
                         # Intermediate std_logic flags ensure 'X' inputs propagate
                         # correctly: when flags are 'X', = '1' evaluates false so the
                         # output falls through to res_quant which is also 'X'.
-                        max_val = 2 ** (target_bits - 1) - 1
-                        min_val = -(2 ** (target_bits - 1))
+                        max_val = f'"0{"1" * (target_bits - 1)}"'
+                        min_val = f'"1{"0" * (target_bits - 1)}"'
                         pos_flag = f"pos_overflow_{port_number}{part}"
                         neg_flag = f"neg_overflow_{port_number}{part}"
                         common.signal_declaration(
@@ -1945,19 +1945,19 @@ class VhdlPrinter(Printer):
                             code,
                             1,
                             f"res_overflow_{port_number}{part} <= "
-                            f"to_signed({max_val}, {target_bits}) when {pos_flag} = '1' else "
-                            f"to_signed({min_val}, {target_bits}) when {neg_flag} = '1' else "
+                            f"{max_val} when {pos_flag} = '1' else "
+                            f"{min_val} when {neg_flag} = '1' else "
                             f"res_quant_{port_number}{part}({target_bits - 1} downto 0);",
                         )
                     else:
                         # For unsigned: overflow if any guard bit is 1
                         zeros = "0" * guard_bits
-                        max_val = 2**target_bits - 1
+                        max_val = f'"{"1" * target_bits}"'
                         common.write(
                             code,
                             1,
                             f"res_overflow_{port_number}{part} <= "
-                            f"to_unsigned({max_val}, {target_bits}) when res_quant_{port_number}{part}({guard_high} downto {guard_low}) /= "
+                            f"{max_val} when res_quant_{port_number}{part}({guard_high} downto {guard_low}) /= "
                             f'"{zeros}" else '
                             f"res_quant_{port_number}{part}({target_bits - 1} downto 0);",
                         )
-- 
2.43.0


From 4c2c2b34bc6755f666146aafc5225f72b4559367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:49 +0000
Subject: [PATCH 62/98] fix: symmetric two-port adaptors with more than four
 input registers used the coefficient too early

---
 lib/b_asic/code_printer/vhdl/vhdl_printer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/code_printer/vhdl/vhdl_printer.py b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
index 92b8f25..dfd6e49 100644
--- a/lib/b_asic/code_printer/vhdl/vhdl_printer.py
+++ b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
@@ -1179,7 +1179,9 @@ class VhdlPrinter(Printer):
             self._register_split = (n_in - n_consumed, n_out)
 
         if pipeline_after_sub:
-            self._pe_control_cycle.setdefault(pe.entity_name, {}).setdefault("value", 2)
+            self._pe_control_cycle.setdefault(pe.entity_name, {}).setdefault(
+                "value", n_in - n_consumed + 1
+            )
 
         add_res_type = f"{self.type_name}({self.bits + value_bits} downto 0)"
 
-- 
2.43.0


From 8d191cd20ed61149feb2f724627a0e2b2d53898b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:49 +0000
Subject: [PATCH 63/98] fix: printed fixed-point multiply-add ignored the
 fractional bits and the sign of products alone

---
 lib/b_asic/code_printer/vhdl/vhdl_printer.py | 31 ++++++++------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/lib/b_asic/code_printer/vhdl/vhdl_printer.py b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
index dfd6e49..ef0d8b9 100644
--- a/lib/b_asic/code_printer/vhdl/vhdl_printer.py
+++ b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
@@ -1116,43 +1116,36 @@ class VhdlPrinter(Printer):
         declarations, code = io.StringIO(), io.StringIO()
 
         mul_res_bits = 2 * self.bits
+        add_res_bits = mul_res_bits + 1
         common.signal_declaration(
             declarations,
             "mul_res",
             f"{self.type_name}({mul_res_bits - 1} downto 0)",
         )
-        common.signal_declaration(declarations, "mul_res_quant", self.type_str)
-        common.signal_declaration(
-            declarations, "op_b", f"{self.type_name}({mul_res_bits} downto 0)"
-        )
-        common.signal_declaration(
-            declarations, "tmp_res", f"{self.type_name}({mul_res_bits + 1} downto 0)"
-        )
+        for name in ("op_a", "op_b", "res_arith_0"):
+            common.signal_declaration(
+                declarations, name, f"{self.type_name}({add_res_bits - 1} downto 0)"
+            )
         common.signal_declaration(
-            declarations, "add_res", f"{self.type_name}({mul_res_bits} downto 0)"
+            declarations, "tmp_res", f"{self.type_name}({add_res_bits} downto 0)"
         )
-        common.signal_declaration(declarations, "res_arith_0", self.type_str)
 
         common.write(code, 1, "mul_res <= op_1 * op_2;")
+        # Align the addend with the product
         common.write(
             code,
             1,
-            f"mul_res_quant <= resize(mul_res, {self.bits});",
+            f"op_a <= shift_left(resize(op_0, {add_res_bits}), {self.frac_bits}) when do_addsub = '1' else (others => '0');",
         )
         common.write(
             code,
             1,
-            f"op_b <= resize(mul_res, {mul_res_bits + 1}) when is_add = '1' else not resize(mul_res, {mul_res_bits + 1});",
-        )
-        common.write(code, 1, "tmp_res <= (op_0 & '1') + (op_b & not is_add);")
-        common.write(code, 1, f"add_res <= tmp_res({mul_res_bits + 1} downto 1);")
-        common.write(
-            code,
-            1,
-            "res_arith_0 <= resize(add_res, res_arith_0'length) when do_addsub = '1' else mul_res_quant;",
+            f"op_b <= resize(mul_res, {add_res_bits}) when is_add = '1' else not resize(mul_res, {add_res_bits});",
         )
+        common.write(code, 1, "tmp_res <= (op_a & '1') + (op_b & not is_add);")
+        common.write(code, 1, f"res_arith_0 <= tmp_res({add_res_bits} downto 1);")
 
-        wls = [self._dt.wl]
+        wls = [(2 * self.int_bits + 1, 2 * self.frac_bits)]
         return wls, (declarations.getvalue(), code.getvalue())
 
     def print_SymmetricTwoportAdaptor_fixed_point_real(
-- 
2.43.0


From bf0813b4fad968ef153bdc729984546e9d1b0685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:14 +0000
Subject: [PATCH 64/98] fix: complex outputs with an own word length could not
 be compiled

---
 lib/b_asic/code_printer/vhdl/vhdl_printer.py | 21 ++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/lib/b_asic/code_printer/vhdl/vhdl_printer.py b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
index ef0d8b9..e7e14bd 100644
--- a/lib/b_asic/code_printer/vhdl/vhdl_printer.py
+++ b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
@@ -493,8 +493,8 @@ class VhdlPrinter(Printer):
         )
         common.write(code, 1, "res_arith_0_re <= op_0.re;")
         common.write(code, 1, "res_arith_0_im <= op_0.im;")
-        common.write(code, 1, "p_0_out_re <= std_logic_vector(res_overflow_0.re);")
-        common.write(code, 1, "p_0_out_im <= std_logic_vector(res_overflow_0.im);")
+        common.write(code, 1, "p_0_out_re <= std_logic_vector(res_overflow_0_re);")
+        common.write(code, 1, "p_0_out_im <= std_logic_vector(res_overflow_0_im);")
         wls = [(self._dt.wl[0], self._dt.wl[1])]
         return wls, (declarations.getvalue(), code.getvalue())
 
@@ -1092,12 +1092,14 @@ class VhdlPrinter(Printer):
                 common.write(code, 1, "res_arith_0_re <= res_re;")
                 common.write(code, 1, "res_arith_0_im <= res_im;")
 
-                if pe._latency > 2:
+                if pipeline_before_mul:
                     common.synchronous_process_prologue(code)
-                    common.write(code, 3, "op_a_re_reg <= op_a_re;")
-                    common.write(code, 3, "op_b_re_reg <= op_b_re;")
-                    common.write(code, 3, "op_a_im_reg <= op_a_im;")
-                    common.write(code, 3, "op_b_im_reg <= op_b_im;")
+                    common.write(code, 3, "if en = '1' then")
+                    common.write(code, 4, "op_a_re_reg <= op_a_re;")
+                    common.write(code, 4, "op_b_re_reg <= op_b_re;")
+                    common.write(code, 4, "op_a_im_reg <= op_a_im;")
+                    common.write(code, 4, "op_b_im_reg <= op_b_im;")
+                    common.write(code, 3, "end if;")
                     common.synchronous_process_epilogue(code)
 
         max_coeff_wl = max(real_entry.wl[0], imag_entry.wl[0] if imag_entry != 0 else 0)
@@ -1105,7 +1107,10 @@ class VhdlPrinter(Printer):
 
         wls = [
             (
-                self.int_bits + max_coeff_wl + (1 if extend_real or extend_imag else 0),
+                self.int_bits
+                + max_coeff_wl
+                + (1 if extend_real or extend_imag else 0)
+                + guard_bits,
                 self.frac_bits + max_frac_wl,
             )
         ]
-- 
2.43.0


From 7284bf75b362227006b630c64ac0d87e3e40a568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:15 +0000
Subject: [PATCH 65/98] fix: printed complex additions and subtractions ignored
 the multiplication with j

---
 lib/b_asic/code_printer/vhdl/vhdl_printer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/b_asic/code_printer/vhdl/vhdl_printer.py b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
index e7e14bd..02dbf15 100644
--- a/lib/b_asic/code_printer/vhdl/vhdl_printer.py
+++ b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
@@ -945,8 +945,11 @@ class VhdlPrinter(Printer):
             p.operation.value.real != 0 and p.operation.value.imag != 0
             for p in pe.collection
         )
+        # Only multiplications with zero
+        is_real = is_real or not (is_imag or is_complex)
 
         control_table = pe.control_table
+        real_name = "value" if "value" in control_table else "value_real"
         if "value" in control_table:
             real_entry = control_table["value"]
             imag_entry = 0
-- 
2.43.0


From bf21c8b2f907ae6f84b062dcaa414efb4907e1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:15 +0000
Subject: [PATCH 66/98] fix: complex constant multiplications: undriven
 results, overflowing sums and negations, wrong timing of enable and control

---
 lib/b_asic/code_printer/vhdl/vhdl_printer.py | 84 ++++++++++++++------
 1 file changed, 61 insertions(+), 23 deletions(-)

diff --git a/lib/b_asic/code_printer/vhdl/vhdl_printer.py b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
index 02dbf15..4f44679 100644
--- a/lib/b_asic/code_printer/vhdl/vhdl_printer.py
+++ b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
@@ -588,15 +588,33 @@ class VhdlPrinter(Printer):
                 f"{self.scalar_type_name}({self.bits} downto 0)",
             )
 
+            # j * op_1 = -op_1.im + j * op_1.re
+            other = "im" if part == "re" else "re"
+            common.signal_declaration(declarations, f"{part}_is_add", "std_logic")
+            common.signal_declaration(
+                declarations,
+                f"{part}_src_b",
+                f"{self.scalar_type_name}({self.bits - 1} downto 0)",
+            )
+            common.write(
+                code,
+                1,
+                f"{part}_is_add <= {'is_add xor mul_j' if part == 're' else 'is_add'};",
+            )
+            common.write(
+                code,
+                1,
+                f"{part}_src_b <= op_1.{other} when mul_j = '1' else op_1.{part};",
+            )
             common.write(
                 code,
                 1,
-                f"{part}_op_b <= resize(op_1.{part}, {self.bits + 1}) when is_add = '1' else not resize(op_1.{part}, {self.bits + 1});",
+                f"{part}_op_b <= resize({part}_src_b, {self.bits + 1}) when {part}_is_add = '1' else not resize({part}_src_b, {self.bits + 1});",
             )
             common.write(
                 code,
                 1,
-                f"{part}_tmp_res <= (op_0.{part} & '1') + ({part}_op_b & not is_add);",
+                f"{part}_tmp_res <= (op_0.{part} & '1') + ({part}_op_b & not {part}_is_add);",
             )
             common.write(
                 code,
@@ -982,13 +1000,13 @@ class VhdlPrinter(Printer):
 
         common.signal_declaration(declarations, "a, b", self.scalar_type_str)
 
-        if pe._latency > 2 and not is_complex and is_real and is_imag:
+        n_in, n_out = self._register_split
+        pipeline_before_mul = n_in >= 2 and not is_complex and is_real and is_imag
+        if pipeline_before_mul:
             # Handle a special case where pipelining is done in the middle
-            common.write(code, 1, f"a <= p_0_in_reg_{pe._latency - 3}.re;")
-            common.write(code, 1, f"b <= p_0_in_reg_{pe._latency - 3}.im;")
-        else:
-            common.write(code, 1, "a <= op_0.re;")
-            common.write(code, 1, "b <= op_0.im;")
+            self._register_split = (n_in - 1, n_out)
+        common.write(code, 1, "a <= op_0.re;")
+        common.write(code, 1, "b <= op_0.im;")
 
         def mul_statement(
             res: str, op: str, value: str, extend: bool, value_entry
@@ -1009,8 +1027,12 @@ class VhdlPrinter(Printer):
         # Multiplication logic
         if is_complex:
             common.signal_declaration(declarations, "ac, bc, ad, bd", res_type)
+            # The sum of two products needs one more bit
+            guard_bits = 1
             common.signal_declaration(
-                declarations, "res_arith_0_re, res_arith_0_im", res_type
+                declarations,
+                "res_arith_0_re, res_arith_0_im",
+                f"{res_type.split('(')[0]}({res_bits} downto 0)",
             )
 
             mul_statement("ac", "a", "value_real", extend_real, real_entry)
@@ -1018,17 +1040,29 @@ class VhdlPrinter(Printer):
             mul_statement("ad", "a", "value_imag", extend_imag, imag_entry)
             mul_statement("bd", "b", "value_imag", extend_imag, imag_entry)
 
-            common.write(code, 1, "res_arith_0_re <= ac - bd;")
-            common.write(code, 1, "res_arith_0_im <= ad + bc;")
+            common.write(
+                code,
+                1,
+                f"res_arith_0_re <= resize(ac, {res_bits + 1}) - resize(bd, {res_bits + 1});",
+            )
+            common.write(
+                code,
+                1,
+                f"res_arith_0_im <= resize(ad, {res_bits + 1}) + resize(bc, {res_bits + 1});",
+            )
 
         else:
+            # Negating the input needs one more bit
+            guard_bits = int(is_real and is_imag)
             common.signal_declaration(
-                declarations, "res_arith_0_re, res_arith_0_im", res_type
+                declarations,
+                "res_arith_0_re, res_arith_0_im",
+                f"{res_type.split('(')[0]}({res_bits + guard_bits - 1} downto 0)",
             )
 
             if is_real and not is_imag:
-                mul_statement("res_arith_0_re", "a", "value", extend_real, real_entry)
-                mul_statement("res_arith_0_im", "b", "value", extend_real, real_entry)
+                mul_statement("res_arith_0_re", "a", real_name, extend_real, real_entry)
+                mul_statement("res_arith_0_im", "b", real_name, extend_real, real_entry)
 
             elif is_imag and not is_real:
                 # (a + jb) * (j*c) = -bc + j*ac
@@ -1047,18 +1081,21 @@ class VhdlPrinter(Printer):
                 )
 
                 max_coeff_bits = max(real_coeff_bits, imag_coeff_bits)
-                mul_res_type = signed_type(self.bits + max_coeff_bits)
+                mul_res_type = signed_type(self.bits + 1 + max_coeff_bits)
 
-                # op_a signals should be sized to data width, op_b to coefficient width
+                # op_a signals should be sized to data width with one more bit for
+                # the negation, op_b to coefficient width
                 common.signal_declaration(
                     declarations,
                     "op_a_re, op_a_re_reg, op_a_im, op_a_im_reg",
-                    self.scalar_type_str,
+                    signed_type(self.bits + 1),
+                    default_value="(others => '0')",
                 )
                 common.signal_declaration(
                     declarations,
                     "op_b_re, op_b_re_reg, op_b_im, op_b_im_reg",
                     signed_type(max_coeff_bits),
+                    default_value="(others => '0')",
                 )
                 common.signal_declaration(declarations, "res_re, res_im", mul_res_type)
                 common.signal_declaration(declarations, "is_real", "std_logic")
@@ -1067,7 +1104,7 @@ class VhdlPrinter(Printer):
                 common.write(
                     code,
                     1,
-                    "op_a_re <= resize(a, op_a_re'length) when is_real = '1' else resize(-b, op_a_re'length);",
+                    "op_a_re <= resize(a, op_a_re'length) when is_real = '1' else -resize(b, op_a_re'length);",
                 )
                 common.write(
                     code,
@@ -1085,7 +1122,7 @@ class VhdlPrinter(Printer):
                     f"op_b_im <= resize({value_real_str}, op_b_im'length) when is_real = '1' else resize({value_imag_str}, op_b_im'length);",
                 )
 
-                if pe._latency > 2:
+                if pipeline_before_mul:
                     common.write(code, 1, "res_re <= op_a_re_reg * op_b_re_reg;")
                     common.write(code, 1, "res_im <= op_a_im_reg * op_b_im_reg;")
                 else:
@@ -1883,9 +1920,10 @@ class VhdlPrinter(Printer):
                 f"res_overflow_{port_number}_re, res_overflow_{port_number}_im",
                 f"{self.get_scalar_type(target_bits)}",
             )
-            common.signal_declaration(
-                declarations, f"res_overflow_{port_number}", self.type_str
-            )
+            if not is_output:
+                common.signal_declaration(
+                    declarations, f"res_overflow_{port_number}", self.type_str
+                )
         else:
             common.signal_declaration(
                 declarations,
@@ -1975,7 +2013,7 @@ class VhdlPrinter(Printer):
             raise NotImplementedError(
                 f"Overflow mode {self._dt.overflow_mode.name} not implemented for VHDL"
             )
-        if self.is_complex:
+        if self.is_complex and not is_output:
             # Combine real and imaginary parts into output signal with type complex
             common.write(
                 code,
-- 
2.43.0


From 2c9a092cd64cc12a5b523e25bdc19a50cd628823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:15 +0000
Subject: [PATCH 67/98] fix: operands were taken from another memory of the
 same source that does not hold the variable read

---
 lib/b_asic/code_printer/vhdl/top_level.py | 31 ++++++++---------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/lib/b_asic/code_printer/vhdl/top_level.py b/lib/b_asic/code_printer/vhdl/top_level.py
index 656aa62..959b61a 100644
--- a/lib/b_asic/code_printer/vhdl/top_level.py
+++ b/lib/b_asic/code_printer/vhdl/top_level.py
@@ -7,6 +7,7 @@ from typing import TYPE_CHECKING, TextIO
 from b_asic.code_printer.util import selector_bits, time_bin_str
 from b_asic.code_printer.vhdl import common
 from b_asic.data_type import _VhdlDataType
+from b_asic.port import InputPort
 from b_asic.process import MemoryOutputPort
 from b_asic.special_operations import Input, Output
 from b_asic.utility_operations import DontCare
@@ -137,26 +138,16 @@ def _collect_mux_info(arch: "Architecture") -> tuple[list[tuple], list[tuple]]:
 
                 input_latency = op_input_port.latency_offset or 0
                 for mem in arch.memories:
-                    for var in mem.collection:
-                        read_times = [
-                            time % arch.schedule_time for time in var.read_times
-                        ]
-                        if (
-                            process.start_time + input_latency
-                        ) % arch.schedule_time not in read_times:
-                            continue
-                        root_port = var.root_write_port
-                        var_op_id = root_port.operation.graph_id
-                        var_port_index = root_port.index
-                        if (
-                            var_op_id == source_op.graph_id
-                            and var_port_index == source_port.index
-                        ):
-                            source_resource = mem
-                            is_found = True
-                            source_port_index = 0
-                            break
-                    if is_found:
+                    if any(
+                        isinstance(port, InputPort)
+                        and port.operation.graph_id == op.graph_id
+                        and port.index == port_number
+                        for var in mem.collection
+                        for port in var.reads
+                    ):
+                        source_resource = mem
+                        is_found = True
+                        source_port_index = 0
                         break
 
                 if not is_found:
-- 
2.43.0


From 91028faabff398a53c93d38aa0bc6dc5472d104f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:15 +0000
Subject: [PATCH 68/98] fix: registered multiplexer selects were undefined
 before the first clock edge

---
 lib/b_asic/code_printer/vhdl/top_level.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/b_asic/code_printer/vhdl/top_level.py b/lib/b_asic/code_printer/vhdl/top_level.py
index 959b61a..c19c180 100644
--- a/lib/b_asic/code_printer/vhdl/top_level.py
+++ b/lib/b_asic/code_printer/vhdl/top_level.py
@@ -235,6 +235,9 @@ def _write_mux_control_signal_declarations(
                 f,
                 f"{pe.entity_name}_{port_number}_sel",
                 f"std_logic_vector({sel_bits - 1} downto 0)",
+                default_value=(
+                    "(others => '0')" if multiplexer_control_registered else None
+                ),
             )
             if multiplexer_control_registered:
                 common.signal_declaration(
@@ -253,6 +256,9 @@ def _write_mux_control_signal_declarations(
                 f,
                 f"{mem.entity_name}_0_sel",
                 f"std_logic_vector({sel_bits - 1} downto 0)",
+                default_value=(
+                    "(others => '0')" if multiplexer_control_registered else None
+                ),
             )
             if multiplexer_control_registered:
                 common.signal_declaration(
-- 
2.43.0


From 4d2afbd7f6dc7018457bd82739db0ad4397791b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:15 +0000
Subject: [PATCH 69/98] fix: input registers were undefined before the first
 clock edge

---
 lib/b_asic/code_printer/vhdl/top_level.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/code_printer/vhdl/top_level.py b/lib/b_asic/code_printer/vhdl/top_level.py
index c19c180..db79cd9 100644
--- a/lib/b_asic/code_printer/vhdl/top_level.py
+++ b/lib/b_asic/code_printer/vhdl/top_level.py
@@ -510,7 +510,9 @@ def _write_io_register_signal_declarations(
                     signal_name = port_parts[0].strip()
                     signal_type = ":".join(port_parts[1:]).strip()
                     signal_type = signal_type.replace("in ", "").replace("out ", "")
-                    common.signal_declaration(f, signal_name, signal_type)
+                    common.signal_declaration(
+                        f, signal_name, signal_type, default_value="(others => '0')"
+                    )
 
     # Pipelined outputs
     if output_register:
-- 
2.43.0


From bbc3e52faa4329aea271b5954c25b58b914f77d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:15 +0000
Subject: [PATCH 70/98] fix: without an enable pin, the schedule counter
 started before the registered inputs

---
 lib/b_asic/code_printer/vhdl/top_level.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/lib/b_asic/code_printer/vhdl/top_level.py b/lib/b_asic/code_printer/vhdl/top_level.py
index db79cd9..31160cc 100644
--- a/lib/b_asic/code_printer/vhdl/top_level.py
+++ b/lib/b_asic/code_printer/vhdl/top_level.py
@@ -101,7 +101,8 @@ def architecture(
     for mem in arch.memories:
         mem.write_component_instantiation(f, en_sig=en_sig)
 
-    _write_schedule_counter(f, arch, en_sig, enable_pin)
+    rst_sig = "rst" if enable_pin or not input_register else "rst_internal"
+    _write_schedule_counter(f, arch, en_sig, enable_pin, rst_sig)
 
     # Generate control signals for multiplexers and then connect the top-level
     _write_mux_control_signals(
@@ -452,6 +453,7 @@ def _write_schedule_counter(
     arch: "Architecture",
     en_sig: str = "en",
     enable_pin: bool = True,
+    rst_sig: str = "rst",
 ) -> None:
     common.write(f, 1, "-- Schedule counter")
     common.synchronous_process_prologue(f, name="schedule_cnt_proc")
@@ -459,7 +461,7 @@ def _write_schedule_counter(
         common.write_lines(
             f,
             [
-                (3, "if rst = '1' then"),
+                (3, f"if {rst_sig} = '1' then"),
                 (4, "schedule_cnt <= (others => '0');"),
                 (3, f"elsif {en_sig} = '1' then"),
                 (4, f"if schedule_cnt = {arch.schedule_time - 1} then"),
@@ -474,7 +476,7 @@ def _write_schedule_counter(
         common.write_lines(
             f,
             [
-                (3, "if rst = '1' then"),
+                (3, f"if {rst_sig} = '1' then"),
                 (4, "schedule_cnt <= (others => '0');"),
                 (3, "else"),
                 (4, f"if schedule_cnt = {arch.schedule_time - 1} then"),
@@ -500,6 +502,8 @@ def _write_io_register_signal_declarations(
     common.write(f, 1, "-- Internal signals for pipelined I/O")
     if enable_pin and input_register:
         common.signal_declaration(f, "en_internal", "std_logic")
+    elif input_register:
+        common.signal_declaration(f, "rst_internal", "std_logic", default_value="'1'")
 
     # Pipelined inputs
     if input_register:
@@ -543,6 +547,12 @@ def _write_io_registers(
         common.write(f, 3, "en_internal <= en;")
         common.synchronous_process_epilogue(f, name="en_reg_proc", clk="clk")
         common.blank(f)
+    elif input_register:
+        # Without an enable signal, the reset is delayed to align with input data
+        common.synchronous_process_prologue(f, name="rst_reg_proc")
+        common.write(f, 3, "rst_internal <= rst;")
+        common.synchronous_process_epilogue(f, name="rst_reg_proc", clk="clk")
+        common.blank(f)
 
     # Pipelining of inputs
     input_pes = [pe for pe in arch.processing_elements if pe.operation_type == Input]
-- 
2.43.0


From 842ebba263ab41bb16b9528a9a0a4c1d46da1cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:15 +0000
Subject: [PATCH 71/98] fix: the output register of memories ignored the enable
 signal

---
 lib/b_asic/code_printer/vhdl/memory_storage.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/b_asic/code_printer/vhdl/memory_storage.py b/lib/b_asic/code_printer/vhdl/memory_storage.py
index da5c36c..38de233 100644
--- a/lib/b_asic/code_printer/vhdl/memory_storage.py
+++ b/lib/b_asic/code_printer/vhdl/memory_storage.py
@@ -278,10 +278,12 @@ def architecture(
                 write_time = p.start_time % schedule_time
             output_cases[write_time] = f"'{int(1 in p.reads.values())}'"
         common.synchronous_process_prologue(f, name="output_reg_proc")
-        common.write(f, 3, "if forward_ctrl = '1' then")
-        common.write(f, 4, "p_0_out_internal <= p_0_in_internal;")
-        common.write(f, 3, "else")
-        common.write(f, 4, "p_0_out_internal <= read_port_0;")
+        common.write(f, 3, "if en = '1' then")
+        common.write(f, 4, "if forward_ctrl = '1' then")
+        common.write(f, 5, "p_0_out_internal <= p_0_in_internal;")
+        common.write(f, 4, "else")
+        common.write(f, 5, "p_0_out_internal <= read_port_0;")
+        common.write(f, 4, "end if;")
         common.write(f, 3, "end if;")
         common.synchronous_process_epilogue(
             f,
-- 
2.43.0


From 712aa64e5fe3d749783d5a019384efafb9d88199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:15 +0000
Subject: [PATCH 72/98] fix: the shift registers of storages ignored the enable
 signal

---
 .../code_printer/vhdl/register_storage.py     | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/lib/b_asic/code_printer/vhdl/register_storage.py b/lib/b_asic/code_printer/vhdl/register_storage.py
index ecb75ae..dc3f28e 100644
--- a/lib/b_asic/code_printer/vhdl/register_storage.py
+++ b/lib/b_asic/code_printer/vhdl/register_storage.py
@@ -221,36 +221,36 @@ def architecture(
         common.write(f, 3, "if rst = '1' then")
         for reg_idx in range(reg_cnt):
             common.write(f, 4, f"shift_reg({reg_idx}) <= (others => '0');")
-        common.write(f, 3, "else")
+        common.write(f, 3, "elsif en = '1' then")
+    else:
+        common.write(f, 3, "if en = '1' then")
 
     common.write_lines(
         f,
         [
-            (3, "-- Default case"),
-            (3, "shift_reg(0) <= p_0_in;"),
+            (4, "-- Default case"),
+            (4, "shift_reg(0) <= p_0_in;"),
         ],
     )
     for reg_idx in range(1, reg_cnt):
-        common.write(f, 3, f"shift_reg({reg_idx}) <= shift_reg({reg_idx - 1});")
-    common.write(f, 3, "case back_edge_mux_sel is")
+        common.write(f, 4, f"shift_reg({reg_idx}) <= shift_reg({reg_idx - 1});")
+    common.write(f, 4, "case back_edge_mux_sel is")
     for edge, mux_sel in back_edge_table.items():
         common.write_lines(
             f,
             [
-                (4, f"when {mux_sel} =>"),
-                (5, f"shift_reg({edge[1]}) <= shift_reg({edge[0]});"),
+                (5, f"when {mux_sel} =>"),
+                (6, f"shift_reg({edge[1]}) <= shift_reg({edge[0]});"),
             ],
         )
     common.write_lines(
         f,
         [
-            (4, "when others => null;"),
-            (3, "end case;"),
+            (5, "when others => null;"),
+            (4, "end case;"),
         ],
     )
-
-    if sync_rst:
-        common.write(f, 3, "end if;")
+    common.write(f, 3, "end if;")
 
     common.synchronous_process_epilogue(
         f,
-- 
2.43.0


From 3f66a7e38af20c962c75f382cc2db943d09728c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:40 +0000
Subject: [PATCH 73/98] fix: cocotb test bench checked outputs before driving
 the inputs of the same cycle

---
 lib/b_asic/tb_printer/cocotb/template.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/b_asic/tb_printer/cocotb/template.py b/lib/b_asic/tb_printer/cocotb/template.py
index 0f316a4..06b3434 100644
--- a/lib/b_asic/tb_printer/cocotb/template.py
+++ b/lib/b_asic/tb_printer/cocotb/template.py
@@ -8,7 +8,7 @@ from pathlib import Path
 import cocotb
 import pytest
 from cocotb.clock import Clock
-from cocotb.triggers import FallingEdge
+from cocotb.triggers import FallingEdge, Timer
 from cocotb_tools.runner import get_runner
 
 
@@ -55,14 +55,14 @@ async def test_one(dut):
         for cycle in range(max_cycle + 1):
             if cycle in SEQUENCE:
                 step = SEQUENCE[cycle]
-                # Drive inputs and check outputs based on the sequence map
+                # Drive inputs first: outputs may depend on inputs of the same cycle
                 for signal_name, value in step.items():
-                    if CSV:
-                        hw_val = getattr(dut, signal_name).value
                     if signal_name.endswith(("_in", "_in_re", "_in_im")):
                         writer.writerow([signal_name, cycle, value]) if CSV else None
                         getattr(dut, signal_name).value = value
-                    else:
+                await Timer(500, unit="ps")
+                for signal_name, value in step.items():
+                    if not signal_name.endswith(("_in", "_in_re", "_in_im")):
                         hw_val = getattr(dut, signal_name).value
                         if CSV and hw_val.is_resolvable:
                             writer.writerow([signal_name, cycle, int(hw_val)])
-- 
2.43.0


From 1373eca83f5fd6f421fe11cd9572a052bfbc199b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:40 +0000
Subject: [PATCH 74/98] fix: VHDL test bench checked outputs before driving the
 inputs of the same cycle

---
 lib/b_asic/tb_printer/vhdl/vhdl_tb_printer.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/lib/b_asic/tb_printer/vhdl/vhdl_tb_printer.py b/lib/b_asic/tb_printer/vhdl/vhdl_tb_printer.py
index 8c578de..a508846 100644
--- a/lib/b_asic/tb_printer/vhdl/vhdl_tb_printer.py
+++ b/lib/b_asic/tb_printer/vhdl/vhdl_tb_printer.py
@@ -302,7 +302,15 @@ class VhdlTbPrinter:
             if cycle in seq_map:
                 step = seq_map[cycle]
 
-                # Check outputs first, then drive inputs
+                # Drive inputs first: outputs may depend on inputs of the same cycle
+                for signal_name, (bits_val, _) in step.items():
+                    if signal_name in input_signal_names:
+                        bits = dt.input_bits
+                        lines.append(
+                            f'        {signal_name} <= "{bin_str(bits_val, bits)}";'
+                        )
+
+                lines.append("        wait for CLK_PERIOD / 4;")
                 for signal_name, (bits_val, real_val) in step.items():
                     if signal_name not in input_signal_names and asserts:
                         if use_real_asserts:
@@ -334,13 +342,6 @@ class VhdlTbPrinter:
                                 f" severity failure;"
                             )
 
-                for signal_name, (bits_val, _) in step.items():
-                    if signal_name in input_signal_names:
-                        bits = dt.input_bits
-                        lines.append(
-                            f'        {signal_name} <= "{bin_str(bits_val, bits)}";'
-                        )
-
             lines.append("        wait until falling_edge(clk);")
             lines.append("")
 
-- 
2.43.0


From 2cddb45288319c4a493c347a8c82e1a9125bf281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 75/98] fix: storages were generated with too few ports

---
 lib/b_asic/resources.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/lib/b_asic/resources.py b/lib/b_asic/resources.py
index 8e033a4..acbc493 100644
--- a/lib/b_asic/resources.py
+++ b/lib/b_asic/resources.py
@@ -2242,6 +2242,21 @@ class ProcessCollection:
         # 3. Perform sequential left-edge assignment based on the sorted processes
         raise NotImplementedError
 
+    def _check_number_of_ports(self, read_ports: int, write_ports: int) -> None:
+        # Make sure that concurrent reads/writes do not surpass the port setting
+        needed_write_ports = self.write_ports_bound()
+        needed_read_ports = self.read_ports_bound()
+        if needed_write_ports > write_ports:
+            raise ValueError(
+                f"More than {write_ports} write ports needed ({needed_write_ports})"
+                " to generate HDL for this ProcessCollection"
+            )
+        if needed_read_ports > read_ports:
+            raise ValueError(
+                f"More than {read_ports} read ports needed ({needed_read_ports}) to"
+                " generate HDL for this ProcessCollection"
+            )
+
     def generate_memory_based_storage_vhdl(
         self,
         filename: str,
@@ -2326,19 +2341,7 @@ class ProcessCollection:
                 if mv not in self:
                     raise ValueError(f"{mv!r} is not part of {self!r}.")
 
-        # Make sure that concurrent reads/writes do not surpass the port setting
-        needed_write_ports = self.read_ports_bound()
-        needed_read_ports = self.write_ports_bound()
-        if needed_write_ports > write_ports + 1:
-            raise ValueError(
-                f"More than {write_ports} write ports needed ({needed_write_ports})"
-                " to generate HDL for this ProcessCollection"
-            )
-        if needed_read_ports > read_ports + 1:
-            raise ValueError(
-                f"More than {read_ports} read ports needed ({needed_read_ports}) to"
-                " generate HDL for this ProcessCollection"
-            )
+        self._check_number_of_ports(read_ports, write_ports)
 
         # Sanitize the address logic pipeline settings
         if adr_mux_size is not None and adr_pipe_depth is not None:
@@ -2573,6 +2576,8 @@ class ProcessCollection:
             read_ports, write_ports, total_ports
         )
 
+        self._check_number_of_ports(read_ports, write_ports)
+
         # Create the forward-backward table
         forward_backward_table = _ForwardBackwardTable(self)
 
-- 
2.43.0


From f11aba8ba67b70fbcc190dc575a1b16550265c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 76/98] fix: memory-based storages without registered inputs
 could not be compiled

---
 lib/b_asic/research/interleaver_codegen.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/research/interleaver_codegen.py b/lib/b_asic/research/interleaver_codegen.py
index b5b4f72..6e0f9ed 100644
--- a/lib/b_asic/research/interleaver_codegen.py
+++ b/lib/b_asic/research/interleaver_codegen.py
@@ -424,7 +424,9 @@ def memory_based_storage_architecture(
             )
         else:
             common.process_prologue(
-                f, sensitivity_list="schedule_cnt_adr", name="mem_write_address_proc"
+                f,
+                sensitivity_list="schedule_cnt_adr",
+                name=f"mem_write_address_proc_{0}_{rom}",
             )
         common.write(f, 3, "case to_integer(schedule_cnt_adr) is")
         list_start_idx = rom * elements_per_rom
@@ -551,7 +553,9 @@ def memory_based_storage_architecture(
             )
         else:
             common.process_prologue(
-                f, sensitivity_list="schedule_cnt_adr", name="mem_read_address_proc"
+                f,
+                sensitivity_list="schedule_cnt_adr",
+                name=f"mem_read_address_proc_{0}_{rom}",
             )
         common.write(f, 3, "case to_integer(schedule_cnt_adr) is")
         list_start_idx = rom * elements_per_rom
-- 
2.43.0


From 576bbc9a04c9f04858f34f342ce86041ce571fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 77/98] fix: memory-based storages without registered inputs
 read variables one cycle too early

---
 lib/b_asic/research/interleaver_codegen.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/b_asic/research/interleaver_codegen.py b/lib/b_asic/research/interleaver_codegen.py
index 6e0f9ed..bca7604 100644
--- a/lib/b_asic/research/interleaver_codegen.py
+++ b/lib/b_asic/research/interleaver_codegen.py
@@ -542,9 +542,7 @@ def memory_based_storage_architecture(
         for mv in collection:
             mv = cast(MemoryVariable, mv)
             for read_time in mv.reads.values():
-                read_list[
-                    (mv.start_time + read_time - int(not (input_sync))) % schedule_time
-                ] = (i, mv)
+                read_list[(mv.start_time + read_time) % schedule_time] = (i, mv)
 
     for rom in range(total_roms):
         if input_sync:
-- 
2.43.0


From 68942279143d7de73d556816e3850019bf81523a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 78/98] fix: memory-based storages with pipelined addresses
 lost values passed directly to the output

---
 lib/b_asic/research/interleaver_codegen.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/lib/b_asic/research/interleaver_codegen.py b/lib/b_asic/research/interleaver_codegen.py
index bca7604..e0093d3 100644
--- a/lib/b_asic/research/interleaver_codegen.py
+++ b/lib/b_asic/research/interleaver_codegen.py
@@ -375,11 +375,8 @@ def memory_based_storage_architecture(
         if input_sync:
             write_time = (p.start_time + 1) % schedule_time
             if adr_pipe_depth:
-                common.write(
-                    f,
-                    4,
-                    f"when {write_time}+{adr_pipe_depth} => p_0_out <= p_0_in_sync;",
-                )
+                output_time = (write_time + adr_pipe_depth) % schedule_time
+                common.write(f, 4, f"when {output_time} => p_0_out <= p_0_in_sync;")
             else:
                 common.write(f, 4, f"when {write_time} => p_0_out <= p_0_in_sync;")
         else:
-- 
2.43.0


From 28dc1357de4b3876847dd36e2cc0c47a01a07c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 79/98] fix: memory-based storages with address multiplexers of
 size one could not be compiled

---
 lib/b_asic/research/interleaver_codegen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/research/interleaver_codegen.py b/lib/b_asic/research/interleaver_codegen.py
index e0093d3..79228d4 100644
--- a/lib/b_asic/research/interleaver_codegen.py
+++ b/lib/b_asic/research/interleaver_codegen.py
@@ -475,7 +475,7 @@ def memory_based_storage_architecture(
                 3,
                 (
                     f"case to_integer(schedule_cnt{layer + 1}("
-                    f"ADR_LEN+{layer * bits_per_mux + bits_per_mux - 1} downto "
+                    f"ADR_LEN+{layer * bits_per_mux + bits_per_mux}-1 downto "
                     f"ADR_LEN+{layer * bits_per_mux}"
                     ")) is"
                 ),
@@ -600,7 +600,7 @@ def memory_based_storage_architecture(
                 3,
                 (
                     f"case to_integer(schedule_cnt{layer + 1}("
-                    f"ADR_LEN+{layer * bits_per_mux + bits_per_mux - 1} downto "
+                    f"ADR_LEN+{layer * bits_per_mux + bits_per_mux}-1 downto "
                     f"ADR_LEN+{layer * bits_per_mux}"
                     ")) is"
                 ),
-- 
2.43.0


From 8f7178665aca408acf85a5fbd6ab1a80f10bbba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 80/98] fix: register-based storages lost values of the first
 period and could not be compiled with unused output cycles

---
 lib/b_asic/research/interleaver_codegen.py | 65 ++++++++++++++++------
 1 file changed, 48 insertions(+), 17 deletions(-)

diff --git a/lib/b_asic/research/interleaver_codegen.py b/lib/b_asic/research/interleaver_codegen.py
index 79228d4..1682b81 100644
--- a/lib/b_asic/research/interleaver_codegen.py
+++ b/lib/b_asic/research/interleaver_codegen.py
@@ -744,13 +744,15 @@ def register_based_storage_architecture(
     common.write_lines(
         f,
         [
-            (4, "if en = '1' then"),
-            (5, f"if schedule_cnt = {schedule_time}-1 then"),
-            (6, "schedule_cnt <= 0;"),
-            (5, "else"),
-            (6, "schedule_cnt <= schedule_cnt + 1;"),
-            (5, "end if;"),
+            (3, "if rst = '1' then"),
+            (4, "schedule_cnt <= 0;"),
+            (3, "elsif en = '1' then"),
+            (4, f"if schedule_cnt = {schedule_time}-1 then"),
+            (5, "schedule_cnt <= 0;"),
+            (4, "else"),
+            (5, "schedule_cnt <= schedule_cnt + 1;"),
             (4, "end if;"),
+            (3, "end if;"),
         ],
     )
     common.synchronous_process_epilogue(
@@ -766,7 +768,17 @@ def register_based_storage_architecture(
         clk="clk",
         name="shift_reg_back_edge_decode_proc",
     )
-    common.write(f, 3, "case schedule_cnt is")
+    first_edges = list(forward_backward_table[0].back_edge_to.items())
+    first_sel = back_edge_table[first_edges[0]] if first_edges else 0
+    common.write_lines(
+        f,
+        [
+            (3, "if rst = '1' then"),
+            (4, f"back_edge_mux_sel <= {first_sel};"),
+            (3, "elsif en = '1' then"),
+            (4, "case schedule_cnt is"),
+        ],
+    )
     for time, entry in enumerate(forward_backward_table):
         if entry.back_edge_to:
             assert len(entry.back_edge_to) == 1
@@ -775,17 +787,18 @@ def register_based_storage_architecture(
                 common.write_lines(
                     f,
                     [
-                        (4, f"when {(time - 1) % schedule_time} =>"),
-                        (5, f"-- ({src} -> {dst})"),
-                        (5, f"back_edge_mux_sel <= {mux_idx};"),
+                        (5, f"when {(time - 1) % schedule_time} =>"),
+                        (6, f"-- ({src} -> {dst})"),
+                        (6, f"back_edge_mux_sel <= {mux_idx};"),
                     ],
                 )
     common.write_lines(
         f,
         [
-            (4, "when others =>"),
-            (5, "back_edge_mux_sel <= 0;"),
-            (3, "end case;"),
+            (5, "when others =>"),
+            (6, "back_edge_mux_sel <= 0;"),
+            (4, "end case;"),
+            (3, "end if;"),
         ],
     )
     common.synchronous_process_epilogue(
@@ -845,13 +858,31 @@ def register_based_storage_architecture(
     # Output multiplexer decoding logic
     common.write(f, 1, "-- Output multiplexer decoding logic", start="\n")
     common.synchronous_process_prologue(f, clk="clk", name="out_mux_decode_proc")
-    common.write(f, 3, "case schedule_cnt is")
+    first_output = forward_backward_table[0].outputs_from
+    first_sel = 0 if first_output is None else output_mux_table[first_output]
+    common.write_lines(
+        f,
+        [
+            (3, "if rst = '1' then"),
+            (4, f"out_mux_sel <= {first_sel};"),
+            (3, "elsif en = '1' then"),
+            (4, "case schedule_cnt is"),
+        ],
+    )
     for i, entry in enumerate(forward_backward_table):
         if entry.outputs_from is not None:
             sel = output_mux_table[entry.outputs_from]
-            common.write(f, 4, f"when {(i - 1) % schedule_time} =>")
-            common.write(f, 5, f"out_mux_sel <= {sel};")
-    common.write(f, 3, "end case;")
+            common.write(f, 5, f"when {(i - 1) % schedule_time} =>")
+            common.write(f, 6, f"out_mux_sel <= {sel};")
+    common.write_lines(
+        f,
+        [
+            (5, "when others =>"),
+            (6, "out_mux_sel <= 0;"),
+            (4, "end case;"),
+            (3, "end if;"),
+        ],
+    )
     common.synchronous_process_epilogue(f, clk="clk", name="out_mux_decode_proc")
 
     # Output multiplexer logic
-- 
2.43.0


From f54b48b0b0bd611248b7f60697f514a5f0088e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 81/98] fix: the compiled simulation could not evaluate
 operations without an own instruction and reversed their inputs

---
 src/simulation/run.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/simulation/run.cpp b/src/simulation/run.cpp
index 1998b82..00e233c 100644
--- a/src/simulation/run.cpp
+++ b/src/simulation/run.cpp
@@ -155,15 +155,14 @@ simulation_state run_simulation(simulation_code const& code, span<number const>
 				delays[instruction.index] = pop();
 				break;
 			case instruction_type::custom: {
-				using namespace pybind11::literals;
 				auto const& src = code.custom_sources[instruction.index];
 				auto const& op = code.custom_operations[src.custom_operation_index];
-				auto input_values = std::vector<number>{};
-				input_values.reserve(op.input_count);
-				for (auto i = std::size_t{0}; i < op.input_count; ++i) {
-					input_values.push_back(pop());
+				auto input_values = std::vector<number>(op.input_count);
+				// The last input is on the top of the stack.
+				for (auto i = op.input_count; i > 0; --i) {
+					input_values[i - 1] = pop();
 				}
-				push(op.evaluate_output(src.output_index, std::move(input_values), "quantize"_a = quantize).cast<number>());
+				push(op.evaluate_output(src.output_index, std::move(input_values)).cast<number>());
 				break;
 			}
 			case instruction_type::forward_value:
-- 
2.43.0


From 70b0f110edf992524c49bfa1ada6ea4fe934accf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 82/98] fix: clearing the state of a compiled simulation
 removed its delays

---
 src/simulation/simulation.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/simulation/simulation.cpp b/src/simulation/simulation.cpp
index 34ac320..0d04e8f 100644
--- a/src/simulation/simulation.cpp
+++ b/src/simulation/simulation.cpp
@@ -124,7 +124,9 @@ void simulation::clear_results() noexcept {
 }
 
 void simulation::clear_state() noexcept {
-	m_delays.clear();
+	for (auto&& [delay, info] : zip(m_delays, m_code.delays)) {
+		delay = info.initial_value;
+	}
 }
 
 } // namespace asic
-- 
2.43.0


From f3ca9ce2948b77ed9c47a2c2acf97dcc273aed8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 83/98] fix: compiling a simulation appended to the list of
 delays it was iterating over

---
 src/simulation/compile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulation/compile.cpp b/src/simulation/compile.cpp
index 50dfb55..9885b42 100644
--- a/src/simulation/compile.cpp
+++ b/src/simulation/compile.cpp
@@ -91,10 +91,10 @@ private:
 		while (!deferred_delays.empty()) {
 			auto new_deferred_delays = delay_queue{};
 			for (auto const& [delay_index, op, prefix, sfg_stack] : deferred_delays) {
-				this->add_source(op, 0, prefix, sfg_stack, deferred_delays);
+				this->add_source(op, 0, prefix, sfg_stack, new_deferred_delays);
 				this->add_instruction(instruction_type::update_delay, no_result_index, -1).index = delay_index;
 			}
-			deferred_delays = new_deferred_delays;
+			deferred_delays = std::move(new_deferred_delays);
 		}
 	}
 
-- 
2.43.0


From 4d6bb4fdb79ebe5fc04ec30f65fd12491cab85c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 84/98] fix: compiling a simulation used a dangling reference
 to a custom operation

---
 src/simulation/compile.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/simulation/compile.cpp b/src/simulation/compile.cpp
index 9885b42..1d45969 100644
--- a/src/simulation/compile.cpp
+++ b/src/simulation/compile.cpp
@@ -285,15 +285,16 @@ private:
 				this->add_instruction(instruction_type::forward_value, *result_index, 0);
 			} else {
 				auto const custom_operation_index = this->try_add_custom_operation(op);
-				auto const& custom_operation = m_code.custom_operations[custom_operation_index];
-				for (auto const i : range(custom_operation.input_count)) {
+				// Note that adding the sources may add further custom operations, so do not keep a reference.
+				auto const input_count = m_code.custom_operations[custom_operation_index].input_count;
+				for (auto const i : range(input_count)) {
 					this->add_source(op, i, prefix, sfg_stack, deferred_delays);
 				}
 				auto const custom_source_index = m_code.custom_sources.size();
 				auto& custom_source = m_code.custom_sources.emplace_back();
 				custom_source.custom_operation_index = custom_operation_index;
 				custom_source.output_index = output_index;
-				auto const stack_diff = std::ptrdiff_t{1} - static_cast<std::ptrdiff_t>(custom_operation.input_count);
+				auto const stack_diff = std::ptrdiff_t{1} - static_cast<std::ptrdiff_t>(input_count);
 				this->add_instruction(instruction_type::custom, *result_index, stack_diff).index = custom_source_index;
 			}
 			this->end_operation_output(op, output_index);
-- 
2.43.0


From cf3ce6fb729ca188462c5e9d8ba5ee88abe5b165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 85/98] fix: the compiled simulation ignored shifts and j
 multiplications of additions and subtractions

---
 src/simulation/compile.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/simulation/compile.cpp b/src/simulation/compile.cpp
index 1d45969..71ca878 100644
--- a/src/simulation/compile.cpp
+++ b/src/simulation/compile.cpp
@@ -223,6 +223,11 @@ private:
 		this->add_instruction(type, result_index, -1);
 	}
 
+	// Check that an addition or subtraction does nothing else with its operands or result.
+	[[nodiscard]] static bool is_plain(py::handle op) {
+		return !op.attr("mul_j").cast<bool>() && op.attr("shift_output").cast<int>() == 0;
+	}
+
 	void add_operation_output(py::handle op, std::size_t output_index, std::string_view prefix, sfg_info_stack const& sfg_stack,
 							  delay_queue& deferred_delays) {
 		auto const type_name = op.attr("type_name")().cast<std::string_view>();
@@ -231,9 +236,9 @@ private:
 		} else if (auto const result_index = this->begin_operation_output(op, output_index, prefix)) {
 			if (type_name == "c") {
 				this->add_instruction(instruction_type::push_constant, *result_index, 1).value = op.attr("value").cast<number>();
-			} else if (type_name == "add") {
+			} else if (type_name == "add" && is_plain(op)) {
 				this->add_binary_operation_output(op, *result_index, prefix, sfg_stack, deferred_delays, instruction_type::addition);
-			} else if (type_name == "sub") {
+			} else if (type_name == "sub" && is_plain(op)) {
 				this->add_binary_operation_output(op, *result_index, prefix, sfg_stack, deferred_delays, instruction_type::subtraction);
 			} else if (type_name == "mul") {
 				this->add_binary_operation_output(op, *result_index, prefix, sfg_stack, deferred_delays, instruction_type::multiplication);
-- 
2.43.0


From 47d3d2d3ad98573112c581c31c3cb8247c2eea23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:15 +0000
Subject: [PATCH 86/98] fix: executions that continue in the next iteration
 were not counted

---
 lib/b_asic/schedule.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/lib/b_asic/schedule.py b/lib/b_asic/schedule.py
index 33cf1f9..a4189bb 100644
--- a/lib/b_asic/schedule.py
+++ b/lib/b_asic/schedule.py
@@ -764,9 +764,7 @@ class Schedule:
             for op in operations
             for signal in op.output_signals
         }
-        old_laps = {
-            signal.graph_id: self._laps[signal.graph_id] for signal in delays
-        }
+        old_laps = {signal.graph_id: self._laps[signal.graph_id] for signal in delays}
         try:
             for op in operations:
                 op.set_latency(latency)
@@ -1706,13 +1704,16 @@ class Schedule:
     def _execution_times_in_time(self, op_type, time: int) -> int:
         count = 0
         for other_op_id, start_time in self.start_times.items():
-            if self._schedule_time is not None:
-                start_time %= self._schedule_time
             op = cast(Operation, self._sfg.find_by_id(other_op_id))
-            if (
-                time >= start_time
-                and time < start_time + cast(int, op.execution_time)
-                and isinstance(op, op_type)
-            ):
-                count += 1
+            if not isinstance(op, op_type):
+                continue
+            execution_time = cast(int, op.execution_time)
+            if not self._schedule_time:
+                count += start_time <= time < start_time + execution_time
+            else:
+                # The execution may continue in the following periods
+                count += sum(
+                    (start_time + i) % self._schedule_time == time
+                    for i in range(execution_time)
+                )
         return count
-- 
2.43.0


From f3d2d9c8b58098c30a198ad08a4ac2bd580d8c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:15 +0000
Subject: [PATCH 87/98] fix: list schedulers kept the default limits of one
 graph for the next

---
 lib/b_asic/scheduler.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/lib/b_asic/scheduler.py b/lib/b_asic/scheduler.py
index 40113ea..47679b3 100644
--- a/lib/b_asic/scheduler.py
+++ b/lib/b_asic/scheduler.py
@@ -832,16 +832,15 @@ class ListScheduler(Scheduler):
                     f"Provided max resource of type {resource_type} cannot be found in the provided SFG."
                 )
 
-        differing_elems = [
-            resource
-            for resource in self._schedule._sfg.get_used_type_names()
-            if resource not in self._max_resources
-            and resource != Delay.type_name()
-            and resource != DontCare.type_name()
-            and resource != Sink.type_name()
-        ]
-        for type_name in differing_elems:
-            self._max_resources[type_name] = 1
+        # Types without a provided limit are limited to one for this schedule only
+        resources = dict(self._max_resources)
+        for type_name in self._schedule._sfg.get_used_type_names():
+            if type_name not in (
+                Delay.type_name(),
+                DontCare.type_name(),
+                Sink.type_name(),
+            ):
+                resources.setdefault(type_name, 1)
 
         for key in self._input_times:
             if self._schedule._sfg.find_by_id(key) is None:
@@ -864,7 +863,7 @@ class ListScheduler(Scheduler):
                 )
 
         if self._schedule._schedule_time is not None:
-            for resource_type, resource_amount in self._max_resources.items():
+            for resource_type, resource_amount in resources.items():
                 if resource_amount < self._schedule._sfg.resource_lower_bound(
                     resource_type, self._schedule._schedule_time
                 ):
@@ -909,7 +908,7 @@ class ListScheduler(Scheduler):
 
         self._remaining_resources = {
             find_type_from_type_name(type_name): cnt
-            for type_name, cnt in self._max_resources.items()
+            for type_name, cnt in resources.items()
         }
 
         self._remaining_ops = [op.graph_id for op in self._schedule._sfg.operations]
@@ -1147,7 +1146,8 @@ class RecursiveListScheduler(ListScheduler):
     def _retime_ops(self, period_bound: int) -> None:
         # calculate the time goal
         time_goal = period_bound
-        for type_name, amount_of_resource in self._max_resources.items():
+        for op_type, amount_of_resource in self._remaining_resources.items():
+            type_name = op_type.type_name()
             if type_name in ("out", "in"):
                 continue
             time_required = self._schedule._sfg.resource_lower_bound(
-- 
2.43.0


From b73fbb5f0e6761964fc2bf06a95050d725624640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:15 +0000
Subject: [PATCH 88/98] fix: schedules found by ILP used values too early,
 changed the delays or ignored relative output times

---
 lib/b_asic/scheduler.py | 90 +++++++++++++++++++++++++++--------------
 1 file changed, 60 insertions(+), 30 deletions(-)

diff --git a/lib/b_asic/scheduler.py b/lib/b_asic/scheduler.py
index 47679b3..8b09a96 100644
--- a/lib/b_asic/scheduler.py
+++ b/lib/b_asic/scheduler.py
@@ -5,6 +5,7 @@ Contains classes for automatic scheduling of SFGs.
 """
 
 import copy
+import itertools
 import math
 from abc import ABC, abstractmethod
 from collections import defaultdict
@@ -1418,6 +1419,11 @@ class ILPScheduler(Scheduler):
             time_slots = range(max(self._max_time, Ts) + 1)
         else:
             time_slots = range(Ts + 1)
+        # Operations that are moved to another lap by ALAP may start at any later time
+        UB = {
+            op_id: UB[op_id] if UB.get(op_id, -1) >= start_time else time_slots[-1]
+            for op_id, start_time in LB.items()
+        }
 
         ops = [
             op
@@ -1429,19 +1435,6 @@ class ILPScheduler(Scheduler):
         X = pulp.LpVariable.dicts("X", (ops, time_slots), cat=pulp.LpBinary)
         R_used = pulp.LpVariable.dicts("R_used", op_types, cat=pulp.LpInteger)
 
-        # w - Stage difference between operations (i.e. number of Delays between)
-        W = {}
-        for op in ops:
-            tmp = {}
-            for input_port in op.inputs:
-                depth = 0
-                source_op = input_port.connected_source.operation
-                while isinstance(source_op, Delay):
-                    source_op = source_op.inputs[0].connected_source.operation
-                    depth += 1
-                tmp[source_op.graph_id] = depth
-            W[op.graph_id] = tmp
-
         # Minimize the amount of concurrent processes and I/O
         problem = pulp.LpProblem()
         problem += pulp.lpSum(R_used[op_type] for op_type in op_types)
@@ -1454,6 +1447,9 @@ class ILPScheduler(Scheduler):
                 )
                 == 1
             )
+            for j in time_slots:
+                if not LB[op.graph_id] <= j <= UB[op.graph_id]:
+                    problem += X[op][j] == 0
 
         if self._input_times:
             for input_id, input_time in self._input_times.items():
@@ -1466,6 +1462,32 @@ class ILPScheduler(Scheduler):
                     if t % Ts != output_time:
                         problem += X[output_op][t] == 0
 
+        # Outputs with relative times have a fixed distance
+        delta_outputs = [
+            (schedule._sfg.find_by_id(output_id), delta_time)
+            for output_id, delta_time in self._output_delta_times.items()
+        ]
+        for (first_op, first_time), (output_op, delta_time) in itertools.pairwise(
+            delta_outputs
+        ):
+            problem += (
+                pulp.lpSum(t * X[output_op][t] for t in time_slots)
+                - pulp.lpSum(t * X[first_op][t] for t in time_slots)
+                == delta_time - first_time
+            )
+
+        # Only values used by nothing but Delays can be available after the last slot
+        for op in ops:
+            for output_port in op.outputs:
+                if output_port.signals and all(
+                    isinstance(signal.destination.operation, Delay)
+                    for signal in output_port.signals
+                ):
+                    continue
+                for j in time_slots:
+                    if j + output_port.latency_offset > time_slots[-1]:
+                        problem += X[op][j] == 0
+
         # (2) - At most R_used[resource_type] can be used in each time slot for every resource type
         for op_type in op_types:
             for j in time_slots:
@@ -1488,35 +1510,29 @@ class ILPScheduler(Scheduler):
                 source_op = source_port.operation
                 if isinstance(source_op, DontCare):
                     continue
+                # Stage difference between operations, i.e. number of Delays between
+                depth = 0
                 while isinstance(source_op, Delay):
                     source_port = source_op.inputs[0].connected_source
                     source_op = source_port.operation
-                a = set(
-                    range(
-                        LB[source_op.graph_id],
-                        UB[source_op.graph_id] + source_op.latency,
-                    )
-                )
-                b = set(
-                    range(
-                        LB[op.graph_id] + Ts * W[op.graph_id][source_op.graph_id],
-                        UB[op.graph_id] + Ts * W[op.graph_id][source_op.graph_id] + 1,
-                    )
+                    depth += 1
+                # Relative to the start of the operation
+                available_time = (
+                    source_port.latency_offset - input_port.latency_offset - depth * Ts
                 )
-                for j in list(a & b):
+                for j in range(LB[op.graph_id], UB[op.graph_id] + 1):
                     problem += (
                         pulp.lpSum(
                             X[source_op][j2]
                             for j2 in range(
-                                LB[source_op.graph_id] + input_port.latency_offset,
-                                UB[source_op.graph_id] + 1,
+                                LB[source_op.graph_id], UB[source_op.graph_id] + 1
                             )
-                            if j2 >= j - source_port.latency_offset + 1
+                            if j2 + available_time > j
                         )
                         + pulp.lpSum(
                             X[op][j1]
                             for j1 in range(LB[op.graph_id], UB[op.graph_id] + 1)
-                            if j1 <= j - W[op.graph_id][source_op.graph_id] * Ts
+                            if j1 <= j
                         )
                         <= 1
                     )
@@ -1533,6 +1549,16 @@ class ILPScheduler(Scheduler):
                     break
 
         self._handle_utility_operations()
+        # Values that are available after the last time slot pass the schedule border
+        for op in ops:
+            for output_port in op.outputs:
+                available_time = schedule.start_times[op.graph_id] + cast(
+                    int, output_port.latency_offset
+                )
+                if available_time > time_slots[-1]:
+                    for signal in output_port.signals:
+                        if not isinstance(signal.destination.operation, Sink):
+                            schedule._laps[signal.graph_id] -= 1
         schedule.remove_delays()
 
         if self._max_time is not None and self._max_time > Ts:
@@ -1596,4 +1622,8 @@ class ILPScheduler(Scheduler):
         alap_scheduler.apply_scheduling(alap_schedule)
         for key in schedule._laps:
             schedule._laps[key] = 0
-        return copy.copy(alap_schedule.start_times)
+        return {
+            op_id: start_time
+            for op_id, start_time in alap_schedule.start_times.items()
+            if alap_scheduler._op_laps.get(op_id, 0) == 0
+        }
-- 
2.43.0


From cae55a32bbb08b06a877b8f285891e4aed30f6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:15 +0000
Subject: [PATCH 89/98] fix: list schedulers hung, overran the schedule time or
 changed the delays when the constraints could not be met

---
 lib/b_asic/scheduler.py | 154 ++++++++++++++++++++++++++++++++--------
 1 file changed, 126 insertions(+), 28 deletions(-)

diff --git a/lib/b_asic/scheduler.py b/lib/b_asic/scheduler.py
index 8b09a96..10a0441 100644
--- a/lib/b_asic/scheduler.py
+++ b/lib/b_asic/scheduler.py
@@ -242,7 +242,23 @@ class Scheduler(ABC):
                         self._schedule._cyclic
                         and self._schedule._schedule_time is not None
                     ):
-                        self._schedule.move_operation(output.graph_id, -min_slack)
+                        source = cast(OutputPort, output.input(0).signals[0].source)
+                        if isinstance(source.operation, Delay):
+                            # The delays are not yet part of the schedule
+                            new_time = (
+                                self._schedule.start_times[output.graph_id]
+                                + self._op_laps.get(output.graph_id, 0)
+                                * self._schedule._schedule_time
+                                - min_slack
+                            )
+                            self._op_laps[output.graph_id] = (
+                                new_time // self._schedule._schedule_time
+                            )
+                            self._schedule._place_operation(
+                                cast(Operation, output), new_time, self._op_laps
+                            )
+                        else:
+                            self._schedule.move_operation(output.graph_id, -min_slack)
                     else:
                         self._schedule.start_times[output.graph_id] = (
                             self._schedule.start_times[output.graph_id] - min_slack
@@ -587,25 +603,78 @@ class ListScheduler(Scheduler):
 
         if self._input_times:
             self._place_inputs_on_given_times()
-            self._remaining_ops = [
-                op_id for op_id in self._remaining_ops if op_id not in self._input_times
-            ]
-            self._remaining_ops_set = set(self._remaining_ops)
 
-        self._schedule_nonrecursive_ops()
+        fixed_schedule_time = self._schedule._schedule_time is not None
+        self._schedule_nonrecursive_ops(wrap=self._schedule._cyclic)
 
         if self._output_delta_times:
             self._place_outputs_on_given_times()
 
-        if self._schedule._schedule_time is None:
+        if not fixed_schedule_time:
             self._schedule.set_schedule_time(self._schedule.get_max_end_time())
+        self._add_laps_to_delays()
         self._schedule.remove_delays()
+        if not fixed_schedule_time:
+            self._increase_schedule_time()
         self._handle_utility_operations()
         if self._sort_y_location:
             schedule.sort_y_locations_on_start_times()
         self._validate_constraints()
         log.debug("Scheduling completed")
 
+    def _place_inputs_on_given_times(self) -> None:
+        super()._place_inputs_on_given_times()
+        for op_id, start_time in self._input_times.items():
+            op = cast(Operation, self._schedule._sfg.find_by_id(op_id))
+            self._update_execution_times(op, start_time)
+        self._remaining_ops = [
+            op_id for op_id in self._remaining_ops if op_id not in self._input_times
+        ]
+        self._remaining_ops_set = set(self._remaining_ops)
+
+    def _update_execution_times(self, op: Operation, start_time: int) -> None:
+        """Reserve a resource for *op*, which starts at *start_time*."""
+        for i in range(max(1, cast(int, op.execution_time))):
+            time_slot = start_time + i
+            if self._schedule._schedule_time is not None:
+                time_slot %= self._schedule._schedule_time
+            self._cached_execution_times_in_time[type(op)][time_slot] += 1
+
+    def _add_laps_to_delays(self) -> None:
+        """Let the delays between operations scheduled in different laps differ."""
+        schedule = self._schedule
+        for delay in schedule._sfg.find_by_type(Delay):
+            input_signal = delay.input(0).signals[0]
+            source_port = cast(OutputPort, input_signal.source)
+            source_op = source_port.operation
+            if not isinstance(source_op, (Delay, DontCare)):
+                lap = self._op_laps.get(source_op.graph_id, 0)
+                available_time = schedule.start_times[source_op.graph_id] + cast(
+                    int, source_port.latency_offset
+                )
+                if available_time > schedule._schedule_time:
+                    lap += 1
+                schedule._laps[input_signal.graph_id] -= lap
+            for signal in delay.output_signals:
+                destination_op = cast(InputPort, signal.destination).operation
+                if not isinstance(destination_op, (Delay, Sink)):
+                    schedule._laps[signal.graph_id] += self._op_laps.get(
+                        destination_op.graph_id, 0
+                    )
+
+    def _increase_schedule_time(self) -> None:
+        """Increase the schedule time until consecutive iterations fit the resources."""
+        latest = max(
+            start_time + max(1, cast(int, self._cached_execution_times[op_id]))
+            for op_id, start_time in self._schedule.start_times.items()
+        )
+        while self._schedule._schedule_time < latest and any(
+            self._schedule._execution_times_in_time(op_type, time_slot) > constraint
+            for op_type, constraint in self._remaining_resources.items()
+            for time_slot in range(self._schedule._schedule_time)
+        ):
+            self._schedule.set_schedule_time(self._schedule._schedule_time + 1)
+
     def _validate_constraints(self) -> None:
         for time_slot in range(self._schedule._schedule_time):
             for op_type, constraint in self._remaining_resources.items():
@@ -672,7 +741,8 @@ class ListScheduler(Scheduler):
 
     def _calculate_deadlines(self) -> dict["GraphID", int]:
         deadlines = {}
-        for op_id, start_time in self._alap_start_times.items():
+        for op_id in self._remaining_ops:
+            start_time = self._alap_start_times[op_id]
             op = cast(Operation, self._schedule._sfg.find_by_id(op_id))
             output_offsets = [cast(int, output.latency_offset) for output in op.outputs]
             start_time += self._alap_op_laps[op_id] * self._alap_schedule_time
@@ -681,8 +751,9 @@ class ListScheduler(Scheduler):
 
     def _calculate_alap_output_slacks(self) -> dict["GraphID", int]:
         return {
-            op_id: start_time + self._alap_op_laps[op_id] * self._alap_schedule_time
-            for op_id, start_time in self._alap_start_times.items()
+            op_id: self._alap_start_times[op_id]
+            + self._alap_op_laps[op_id] * self._alap_schedule_time
+            for op_id in self._remaining_ops
         }
 
     def _calculate_fan_outs(self) -> dict["GraphID", int]:
@@ -690,7 +761,7 @@ class ListScheduler(Scheduler):
             op_id: len(
                 cast(Operation, self._schedule._sfg.find_by_id(op_id)).output_signals
             )
-            for op_id in self._alap_start_times
+            for op_id in self._remaining_ops
         }
 
     def _calculate_memory_reads(
@@ -750,6 +821,11 @@ class ListScheduler(Scheduler):
                             for output in tmp_op.outputs
                         ]
                         write_times = [start_time + offset for offset in offsets]
+                        if self._schedule._schedule_time:
+                            write_times = [
+                                time % self._schedule._schedule_time
+                                for time in write_times
+                            ]
                         writes_in_time += write_times.count(output_ready_time)
 
                     tmp_used_writes[output_ready_time] += 1
@@ -923,7 +999,9 @@ class ListScheduler(Scheduler):
         self._remaining_ops = [
             op_id
             for op_id in self._remaining_ops
-            if not isinstance(self._schedule._sfg.find_by_id(op_id), (Delay, DontCare))
+            if not isinstance(
+                self._schedule._sfg.find_by_id(op_id), (Delay, DontCare, Sink)
+            )
         ]
         self._remaining_ops = [
             op_id
@@ -948,13 +1026,23 @@ class ListScheduler(Scheduler):
         self._fan_outs = self._calculate_fan_outs()
 
         self._schedule.start_times = {}
+        self._op_laps = {}
         self._used_reads = defaultdict(int)
 
         self._current_time = 0
 
-    def _schedule_nonrecursive_ops(self) -> None:
+    def _schedule_nonrecursive_ops(self, wrap: bool = True) -> None:
         log.debug("Non-recursive operation scheduling starting")
+        # After the last event, nothing new becomes possible after another period
+        last_event = max(self._schedule.start_times.values(), default=0)
+        if self._schedule.start_times:
+            last_event = max(last_event, self._schedule.get_max_end_time())
         while self._remaining_ops:
+            if self._current_time > last_event + (self._schedule._schedule_time or 0):
+                raise ValueError(
+                    "The constraints make it impossible to schedule the operations: "
+                    f"{self._remaining_ops}."
+                )
             prio_table = self._get_priority_table(self._remaining_ops)
             while prio_table:
                 next_op_id = self._get_next_op_id(prio_table)
@@ -972,25 +1060,35 @@ class ListScheduler(Scheduler):
                     next_op, self._current_time, self._op_laps
                 )
                 self._op_laps[next_op_id] = (
-                    (self._current_time) // self._schedule._schedule_time
+                    (self._current_time - self._schedule.start_times[next_op_id])
+                    // self._schedule._schedule_time
                     if self._schedule._schedule_time
                     else 0
                 )
 
-                if self._schedule._schedule_time is None:
-                    for i in range(max(1, next_op.execution_time)):
-                        time_slot = self._current_time + i
-                        self._cached_execution_times_in_time[type(next_op)][
-                            time_slot
-                        ] += 1
-                else:
-                    for i in range(max(1, cast(int, next_op.execution_time))):
-                        time_slot = (
-                            self._current_time + i
-                        ) % self._schedule._schedule_time
-                        self._cached_execution_times_in_time[type(next_op)][
-                            time_slot
-                        ] += 1
+                self._update_execution_times(next_op, self._current_time)
+                end_time = max(
+                    (
+                        self._current_time + cast(int, output.latency_offset)
+                        for output in next_op.outputs
+                    ),
+                    default=self._current_time,
+                )
+                if (
+                    not wrap
+                    and self._schedule._schedule_time is not None
+                    and end_time > self._schedule._schedule_time
+                ):
+                    raise ValueError(
+                        f"Provided scheduling time {self._schedule._schedule_time} "
+                        "cannot be reached, try to enable the cyclic property, "
+                        "increase the time or relax the constraints."
+                    )
+                last_event = max(
+                    last_event,
+                    self._current_time + cast(int, next_op.execution_time),
+                    end_time,
+                )
 
                 log.debug(
                     "Schedule operation: %s at time: %d",
-- 
2.43.0


From fc160d8ac87338322b74887ad6d436839df93659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:15 +0000
Subject: [PATCH 90/98] fix: recursive list scheduling changed the function of
 the graph or exceeded the resources

---
 lib/b_asic/scheduler.py | 315 ++++++++++++++++++++++++++--------------
 1 file changed, 208 insertions(+), 107 deletions(-)

diff --git a/lib/b_asic/scheduler.py b/lib/b_asic/scheduler.py
index 10a0441..4df7e40 100644
--- a/lib/b_asic/scheduler.py
+++ b/lib/b_asic/scheduler.py
@@ -1152,7 +1152,12 @@ class RecursiveListScheduler(ListScheduler):
         If the y-location should be sorted based on start time of operations.
     """
 
-    __slots__ = ("_recursive_ops", "_recursive_ops_set", "_remaining_recursive_ops")
+    __slots__ = (
+        "_recursive_lap",
+        "_recursive_ops",
+        "_recursive_ops_set",
+        "_remaining_recursive_ops",
+    )
 
     def __init__(
         self,
@@ -1178,11 +1183,9 @@ class RecursiveListScheduler(ListScheduler):
 
         if self._input_times:
             self._place_inputs_on_given_times()
-            self._remaining_ops = [
-                op_id for op_id in self._remaining_ops if op_id not in self._input_times
-            ]
-            self._remaining_ops_set = set(self._remaining_ops)
 
+        schedule_time = self._schedule._schedule_time
+        self._recursive_lap = 0
         loops = self._schedule._sfg.loops
         if loops:
             log.debug("Scheduling recursive operations")
@@ -1190,6 +1193,8 @@ class RecursiveListScheduler(ListScheduler):
 
         log.debug("Scheduling non-recursive operations")
         self._schedule_nonrecursive_ops()
+        if loops:
+            self._pipeline_recursive_ops()
 
         if self._output_delta_times:
             self._place_outputs_on_given_times()
@@ -1197,16 +1202,26 @@ class RecursiveListScheduler(ListScheduler):
         if self._schedule._schedule_time is None:
             self._schedule.set_schedule_time(self._schedule.get_max_end_time())
         period_bound = self._schedule._sfg.iteration_period_bound()
+        self._add_laps_to_delays()
         self._schedule.remove_delays()
-        if loops:
+        if schedule_time is None and not loops:
+            self._increase_schedule_time()
+        # Retiming changes the distance between the outputs
+        if loops and not self._output_delta_times:
             if int(period_bound) != period_bound:
                 log.warning("Rational iteration period bound: %d", period_bound)
             log.debug("Retiming operations")
-            self._retime_ops(math.ceil(period_bound))
+            self._handle_utility_operations()
+            self._retime_ops(max(1, math.ceil(period_bound), schedule_time or 0))
         self._handle_utility_operations()
         if self._sort_y_location:
             schedule.sort_y_locations_on_start_times()
         self._validate_constraints()
+        if schedule_time is not None and self._schedule._schedule_time > schedule_time:
+            raise ValueError(
+                f"Provided scheduling time {schedule_time} cannot be reached, "
+                f"try to increase the time to {self._schedule._schedule_time}."
+            )
         log.debug("Scheduling completed")
 
     def _get_recursive_ops(self, loops: list[list["GraphID"]]) -> list["GraphID"]:
@@ -1259,6 +1274,16 @@ class RecursiveListScheduler(ListScheduler):
                 time_required += 1
             time_goal = max(time_goal, time_required)
 
+        # operations that must not be moved
+        fixed_ops = {
+            *self._input_times,
+            *(
+                op.graph_id
+                for op in self._schedule._sfg.operations
+                if isinstance(op, (DontCare, Sink))
+            ),
+        }
+
         # retiming loop
         time_out_counter = 100
         while self._schedule._schedule_time > time_goal and time_out_counter > 0:
@@ -1269,73 +1294,82 @@ class RecursiveListScheduler(ListScheduler):
             )
             # move all operations forward to the next valid step and check if period can be reduced
             for op_id in sorted_op_ids:
-                op = self._schedule._sfg.find_by_id(op_id)
-                if self._schedule.forward_slack(op_id):
-                    delta = 1
-                    delta_start_time = self._schedule._start_times[op_id] + delta
-                    new_times = (
-                        (delta_start_time + time) % self._schedule.schedule_time
-                        for time in range(self._cached_execution_times[op_id])
-                    )
-
-                    op_type = type(op)
-                    exec_counts = (
-                        self._schedule._execution_times_in_time(op_type, new_time)
-                        for new_time in new_times
-                    )
-                    while any(
-                        count >= self._remaining_resources[op_type]
-                        for count in exec_counts
-                    ):
-                        delta += 1
-                        if delta >= self._schedule._schedule_time:
-                            break
-                        delta_start_time = self._schedule._start_times[op_id] + delta
-                        new_times = (
-                            (delta_start_time + time) % self._schedule.schedule_time
-                            for time in range(self._cached_execution_times[op_id])
-                        )
-                        exec_counts = (
-                            self._schedule._execution_times_in_time(op_type, new_time)
-                            for new_time in new_times
-                        )
-                    if delta > self._schedule.forward_slack(op_id):
+                if op_id in fixed_ops:
+                    continue
+                if slack := self._schedule.forward_slack(op_id):
+                    delta = self._get_retiming_step(op_id)
+                    if delta is None or delta > slack:
                         continue
                     log.debug("Moving operation %s %d time units", op_id, delta)
-                    self._schedule.move_operation(op_id, delta)
+                    try:
+                        self._schedule.move_operation(op_id, delta)
+                    except ValueError:
+                        log.debug("Operation %s cannot be moved", op_id)
+                        continue
 
                 # adjust time if a gap exists on the right side of the schedule
-                self._schedule._schedule_time = min(
-                    self._schedule._schedule_time, self._schedule.get_max_end_time()
+                self._reduce_schedule_time(
+                    min(
+                        self._schedule._schedule_time - time_goal,
+                        self._schedule._schedule_time
+                        - self._schedule.get_max_end_time(),
+                    ),
+                    0,
                 )
 
                 # adjust time if a gap exists on the left side of the schedule
-                slack = min(self._schedule._start_times.values())
-                for other_op_id in sorted_op_ids:
-                    op = cast(Operation, self._schedule._sfg.find_by_id(other_op_id))
-                    max_end_time = 0
-                    op_start_time = self._schedule._start_times[other_op_id]
-                    for outport in op.outputs:
-                        max_end_time = max(
-                            max_end_time,
-                            op_start_time + cast(int, outport.latency_offset),
-                        )
-                    if max_end_time > self._schedule._schedule_time:
-                        slack = min(slack, self._schedule.forward_slack(other_op_id))
-                if slack > 0:
-                    log.debug("Reducing schedule time by %d", slack)
-                    for inner_op_id in self._schedule._start_times:
-                        self._schedule._start_times[inner_op_id] -= slack
-
-                    self._schedule._schedule_time = (
-                        self._schedule._schedule_time - slack
-                    )
+                gap = min(
+                    self._schedule._schedule_time - time_goal,
+                    *self._schedule._start_times.values(),
+                )
+                if not fixed_ops.intersection(self._input_times):
+                    self._reduce_schedule_time(gap, gap)
 
                 if self._schedule._schedule_time <= time_goal:
                     break
 
             time_out_counter -= 1
 
+    def _get_retiming_step(self, op_id: "GraphID") -> int | None:
+        """Return the smallest number of steps forward where there is a free resource."""
+        schedule = self._schedule
+        op_type = type(schedule._sfg.find_by_id(op_id))
+        for delta in range(1, schedule._schedule_time):
+            start_time = schedule._start_times[op_id] + delta
+            if all(
+                schedule._execution_times_in_time(
+                    op_type, (start_time + time) % schedule._schedule_time
+                )
+                < self._remaining_resources[op_type]
+                for time in range(self._cached_execution_times[op_id])
+            ):
+                return delta
+        return None
+
+    def _reduce_schedule_time(self, reduction: int, shift: int) -> None:
+        """Reduce the schedule time and start earlier if the result is still valid."""
+        if reduction <= 0:
+            return
+        schedule = self._schedule
+        schedule_time = schedule._schedule_time
+        start_times = dict(schedule._start_times)
+        schedule._schedule_time -= reduction
+        for op_id in start_times:
+            schedule._start_times[op_id] -= shift
+        if any(
+            schedule.forward_slack(op_id) < 0
+            or schedule._start_times[op_id] > schedule._schedule_time
+            for op_id in start_times
+        ) or any(
+            schedule._execution_times_in_time(op_type, time_slot) > constraint
+            for op_type, constraint in self._remaining_resources.items()
+            for time_slot in range(schedule._schedule_time)
+        ):
+            schedule._schedule_time = schedule_time
+            schedule._start_times.update(start_times)
+        else:
+            log.debug("Reduced schedule time by %d", reduction)
+
     def _schedule_recursive_ops(self, loops: list[list["GraphID"]]) -> None:
         saved_sched_time = self._schedule._schedule_time
         self._schedule._schedule_time = None
@@ -1358,16 +1392,19 @@ class RecursiveListScheduler(ListScheduler):
                 if source_start_time is None:
                     continue
                 op_sched_time = max(
-                    op_sched_time, source_start_time + source_port.latency_offset
+                    op_sched_time,
+                    source_start_time
+                    + cast(int, source_port.latency_offset)
+                    - cast(int, input_port.latency_offset),
                 )
 
             op_type = type(op)
-            exec_count = self._schedule._execution_times_in_time(op_type, op_sched_time)
-            while exec_count >= self._remaining_resources[op_type]:
+            counts = self._cached_execution_times_in_time[op_type]
+            while any(
+                counts[op_sched_time + i] >= self._remaining_resources[op_type]
+                for i in range(max(1, cast(int, op.execution_time)))
+            ):
                 op_sched_time += 1
-                exec_count = self._schedule._execution_times_in_time(
-                    op_type, op_sched_time
-                )
 
             self._schedule._place_operation(op, op_sched_time, self._op_laps)
             self._op_laps[op.graph_id] = 0
@@ -1376,13 +1413,19 @@ class RecursiveListScheduler(ListScheduler):
             self._remaining_ops.remove(op.graph_id)
             self._remaining_ops_set.remove(op.graph_id)
 
-            for i in range(max(1, cast(int, op.execution_time))):
-                time_slot = op_sched_time + i
-                self._cached_execution_times_in_time[op_type][time_slot] += 1
+            self._update_execution_times(op, op_sched_time)
 
             prio_table = self._get_recursive_priority_table()
 
-        self._schedule._schedule_time = self._schedule.get_max_end_time()
+        # No execution continues in the next iteration
+        self._schedule._schedule_time = max(
+            1,
+            self._schedule.get_max_end_time(),
+            *(
+                start_time + cast(int, self._cached_execution_times[op_id])
+                for op_id, start_time in self._schedule.start_times.items()
+            ),
+        )
 
         if saved_sched_time and saved_sched_time > self._schedule._schedule_time:
             self._schedule._schedule_time = saved_sched_time
@@ -1392,27 +1435,102 @@ class RecursiveListScheduler(ListScheduler):
         sorted_table = sorted(priority_table, key=lambda row: row[1])
         return cast(Operation, self._schedule._sfg.find_by_id(sorted_table[0][0]))
 
-    def _pipeline_input_to_recursive_sections(self) -> None:
+    def _get_source(self, input_port: InputPort) -> tuple[OutputPort, int]:
+        """Return what *input_port* uses and the number of delays in between."""
+        source_port = cast(OutputPort, input_port.signals[0].source)
+        delays = 0
+        while isinstance(source_port.operation, Delay):
+            source_port = cast(
+                OutputPort, source_port.operation.input(0).signals[0].source
+            )
+            delays += 1
+        return source_port, delays
+
+    def _pipeline_recursive_ops(self) -> None:
+        """
+        Pipeline between the non-recursive and the recursive operations.
+
+        Operations are moved as many laps as required for all their operands to be
+        available in time.
+        """
+        schedule = self._schedule
+        schedule_time = schedule._schedule_time
+        # Smallest difference in laps between the source and destination operations
+        lap_differences: dict[tuple[GraphID, GraphID], int] = {}
+        recursive_lap = 0
+        for op_id in schedule.start_times:
+            op = cast(Operation, schedule._sfg.find_by_id(op_id))
+            for input_port in op.inputs:
+                source_port, delays = self._get_source(input_port)
+                source_id = source_port.operation.graph_id
+                if isinstance(source_port.operation, DontCare):
+                    continue
+                available_time = schedule.start_times[source_id] + cast(
+                    int, source_port.latency_offset
+                )
+                usage_time = schedule.start_times[op_id] + cast(
+                    int, input_port.latency_offset
+                )
+                difference = max(
+                    available_time > schedule_time,
+                    math.ceil((available_time - usage_time) / schedule_time),
+                )
+                if not delays:
+                    # Keep the difference that the operations were scheduled with
+                    difference = max(
+                        difference, self._op_laps[op_id] - self._op_laps[source_id]
+                    )
+                    if (
+                        op_id in self._recursive_ops_set
+                        and source_id not in self._recursive_ops_set
+                    ):
+                        difference = max(difference, self._recursive_lap)
+                        recursive_lap = max(
+                            recursive_lap, self._op_laps[source_id] + difference
+                        )
+                key = (source_id, op_id)
+                lap_differences[key] = max(
+                    lap_differences.get(key, -delays), difference - delays
+                )
         for op_id in self._recursive_ops:
-            op = cast(Operation, self._schedule._sfg.find_by_id(op_id))
+            self._op_laps[op_id] = recursive_lap
+        for _ in range(len(schedule.start_times) + 1):
+            changed = False
+            for (source_id, op_id), difference in lap_differences.items():
+                if self._op_laps[op_id] < self._op_laps[source_id] + difference:
+                    self._op_laps[op_id] = self._op_laps[source_id] + difference
+                    changed = True
+            if not changed:
+                break
+
+        # Update laps of all signals between operations
+        for op_id in schedule.start_times:
+            op = cast(Operation, schedule._sfg.find_by_id(op_id))
             for input_port in op.inputs:
-                signal = input_port.signals[0]
-                source_op = cast(OutputPort, signal.source).operation
-                if (
-                    not isinstance(source_op, Delay)
-                    and source_op.graph_id not in self._recursive_ops_set
-                ):
-                    # non-recursive to recursive edge found -> pipeline
-                    self._schedule.laps[signal.graph_id] += 1
+                source_port, delays = self._get_source(input_port)
+                source_op = source_port.operation
+                if delays or isinstance(source_op, DontCare):
+                    continue
+                available_time = schedule.start_times[source_op.graph_id] + cast(
+                    int, source_port.latency_offset
+                )
+                schedule._laps[input_port.signals[0].graph_id] = (
+                    self._op_laps[op_id]
+                    - self._op_laps[source_op.graph_id]
+                    - (available_time > schedule_time)
+                )
 
     def _op_satisfies_data_dependencies(
         self, op: Operation, schedule_time: int
     ) -> bool:
         for output_port in op.outputs:
-            destination_port = cast(InputPort, output_port.signals[0].destination)
-            destination_op = destination_port.operation
-            if destination_op.graph_id not in self._remaining_ops_set:
-                if isinstance(destination_op, (Delay, Output, Sink)):
+            for signal in output_port.signals:
+                destination_port = cast(InputPort, signal.destination)
+                destination_op = destination_port.operation
+                if (
+                    isinstance(destination_op, (Delay, Output, Sink))
+                    or destination_op.graph_id in self._remaining_ops_set
+                ):
                     continue
                 # spotted a recursive operation -> check if ok
                 op_available_time = self._current_time + cast(
@@ -1420,30 +1538,13 @@ class RecursiveListScheduler(ListScheduler):
                 )
                 usage_time = (
                     self._schedule.start_times[destination_op.graph_id]
-                    + schedule_time
-                    * self._schedule.laps[output_port.signals[0].graph_id]
+                    + schedule_time * self._recursive_lap
                 )
                 if op_available_time > usage_time:
-                    # constraint is not okay, move all recursive operations one lap by pipelining
-                    # across the non-recursive to recursive edge
-                    self._pipeline_input_to_recursive_sections()
-
-        for op_input in op.inputs:
-            source_port = cast(OutputPort, op_input.signals[0].source)
-            source_op = source_port.operation
-            if isinstance(source_op, (Delay, DontCare)):
-                continue
-            if source_op.graph_id in self._remaining_ops_set:
-                return False
-            available_time = (
-                self._schedule.start_times[source_op.graph_id]
-                + self._op_laps[source_op.graph_id] * schedule_time
-                + cast(int, source_port.latency_offset)
-            )
-            required_time = self._current_time + cast(int, op_input.latency_offset)
-            if available_time > required_time:
-                return False
-        return True
+                    # constraint is not okay, move all recursive operations one lap
+                    # by pipelining across the non-recursive to recursive edges
+                    self._recursive_lap += 1
+        return super()._op_satisfies_data_dependencies(op, schedule_time)
 
 
 class ILPScheduler(Scheduler):
-- 
2.43.0


From d6fa29a5e474dcf8084459752acee6d7654022aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:31 +0000
Subject: [PATCH 91/98] fix: replace exactly what a nested shift and add/sub
 compute

---
 lib/b_asic/sfg.py | 71 +++++++++++++++++++++++++++--------------------
 1 file changed, 41 insertions(+), 30 deletions(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index ad183d3..0d763c7 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -2657,44 +2657,55 @@ class SFG(AbstractOperation):
             raise ValueError("SFG to ShiftAddSub rewrite requires exactly 2 operations")
 
         # check that one operation is a shift and one is an addsub-like operation
-        if not (
-            isinstance(ops[0], Shift)
-            and isinstance(ops[1], (Addition, Subtraction, AddSub))
-        ) or (
-            isinstance(ops[1], Shift)
-            and isinstance(ops[0], (Addition, Subtraction, AddSub))
-        ):
+        shifts = [op for op in ops if isinstance(op, Shift)]
+        addsubs = [op for op in ops if isinstance(op, (Addition, Subtraction, AddSub))]
+        if len(shifts) != 1 or len(addsubs) != 1:
             raise ValueError(
                 "SFG to ShiftAddSub rewrite requires one Shift and one of (Addition, Subtraction, AddSub)"
             )
+        shift, addsub = shifts[0], addsubs[0]
+        if shift.value < 0:
+            raise ValueError("SFG to ShiftAddSub rewrite requires a right shift")
 
-        # determine the modes of the ShiftAddSub operation
-        for op in ops:
-            if isinstance(op, Addition):
-                is_add = True
-            elif isinstance(op, Subtraction):
-                is_add = False
-            elif isinstance(op, AddSub):
-                is_add = op.is_add
-            else:
-                shift = op.value
+        # check that the only output is the result of the addsub-like operation
+        output_sources = [
+            output_op.input(0).connected_source for output_op in self.output_operations
+        ]
+        if output_sources != [addsub.output(0)]:
+            raise ValueError(
+                "SFG to ShiftAddSub rewrite requires one output, not using the Shift directly"
+            )
+
+        # find out which input goes where, the second one is shifted by ShiftAddSub
+        plain, shifted = (port.connected_source for port in addsub.inputs)
+        if plain == shift.output(0) and addsub.is_swappable:
+            plain, shifted = shifted, plain
+        input_ports = [input_op.output(0) for input_op in self.input_operations]
+        sources = [plain, shift.input(0).connected_source]
+        if (
+            shifted != shift.output(0)
+            or len(set(sources)) != 2
+            or not set(sources) <= set(input_ports)
+        ):
+            raise ValueError(
+                "SFG to ShiftAddSub rewrite requires one of the inputs to be shifted and added to or subtracted from the other"
+            )
 
         # Construct and return the new SFG
         in0 = Input()
         in1 = Input()
-        op = ShiftAddSub(in0, in1, is_add=is_add, shift=shift)
-        outs = []
-        for out in self.outputs:
-            out = Output()
-            out <<= op
-            outs.append(out)
-
-        op_after_in0 = self.find_by_id("in0").output(0).signals[0].destination_operation
-        if isinstance(op_after_in0, Shift):
-            sfg = SFG([in1, in0], outs)
-        else:
-            sfg = SFG([in0, in1], outs)
-        return sfg
+        op = ShiftAddSub(
+            is_add=addsub.is_add
+            if isinstance(addsub, AddSub)
+            else isinstance(addsub, Addition),
+            shift=shift.value,
+            src0=in0,
+            src1=in1,
+            mul_j=addsub.mul_j,
+            shift_output=addsub.shift_output,
+        )
+        new_inputs = [in0, in1] if sources == input_ports else [in1, in0]
+        return SFG(new_inputs, [Output(op)])
 
     def join(self, target: GraphID, direction: Literal["forward", "backward"]) -> "SFG":
         """
-- 
2.43.0


From b7a2d059e9e84400a3f03bcc49c8b5777600d34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:31 +0000
Subject: [PATCH 92/98] fix: print the operands of MADS without
 addition/subtraction correctly

---
 lib/b_asic/core_operations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/core_operations.py b/lib/b_asic/core_operations.py
index d2c987c..0b58a2f 100644
--- a/lib/b_asic/core_operations.py
+++ b/lib/b_asic/core_operations.py
@@ -2013,7 +2013,8 @@ class MADS(AbstractOperation):
         op = "+" if self.is_add else "-"
         if self.do_addsub:
             return f"{inputs[0]} {op} {inputs[1]} * {inputs[2]}"
-        return f"{inputs[0]} * {inputs[1]}"
+        sign = "" if self.is_add else "-"
+        return f"{sign}{inputs[1]} * {inputs[2]}"
 
     def evaluate(self, a, b, c, data_type=None) -> Num:
         if self.is_add:
-- 
2.43.0


From a1688cdd9abb96063ddade63fdf67118ef94f036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:31 +0000
Subject: [PATCH 93/98] fix: keep operations in the scheduler window where the
 schedule has them

---
 lib/b_asic/scheduler_gui/scheduler_event.py | 29 +++++----------------
 lib/b_asic/scheduler_gui/scheduler_item.py  | 10 ++++++-
 2 files changed, 15 insertions(+), 24 deletions(-)

diff --git a/lib/b_asic/scheduler_gui/scheduler_event.py b/lib/b_asic/scheduler_gui/scheduler_event.py
index 85bdb6e..3562ac1 100644
--- a/lib/b_asic/scheduler_gui/scheduler_event.py
+++ b/lib/b_asic/scheduler_gui/scheduler_event.py
@@ -18,8 +18,6 @@ from b_asic.scheduler_gui._preferences import OPERATION_GAP, OPERATION_HEIGHT
 from b_asic.scheduler_gui.axes_item import AxesItem
 from b_asic.scheduler_gui.operation_item import OperationItem
 from b_asic.scheduler_gui.timeline_item import TimelineItem
-from b_asic.special_operations import Output
-from b_asic.utility_operations import Sink
 
 
 class SchedulerEvent:
@@ -208,23 +206,12 @@ class SchedulerEvent:
         item: OperationItem = self.scene().mouseGrabberItem()
         self.set_new_start_time(item)
         self.set_item_inactive(item)
-        pos_x = item.x()
-        redraw = False
-        if (
-            math.floor(pos_x) == 0 and isinstance(item.operation, (Output, Sink))
-        ) or pos_x < 0:
-            pos_x += self._schedule.schedule_time
-            redraw = True
-        if (
-            pos_x > self._schedule.schedule_time
-            # If output or sink, keep operation at the edge
-            and (
-                pos_x > self._schedule.schedule_time + 1
-                or not isinstance(item.operation, (Output, Sink))
-            )
-        ):
-            pos_x = pos_x % self._schedule.schedule_time
-            redraw = True
+        # Draw the operation where the schedule has it, e.g., wrapped around an edge
+        item.setX(
+            self._x_axis_indent
+            + self._schedule.start_time_of_operation(item.operation.graph_id)
+        )
+        self._redraw_lines(item)
         pos_y = self._schedule.get_y_location(item.operation.graph_id)
         # Check move in y-direction
         if pos_y != self._old_op_position:
@@ -240,10 +227,6 @@ class SchedulerEvent:
                 f" {pos_y}, {insert})"
             )
             self._signals.redraw_all.emit()
-        # Operation has been moved in x-direction
-        if redraw:
-            item.setX(pos_x)
-            self._redraw_lines(item)
         self._signals.component_moved.emit(item.graph_id)
 
     ###################################
diff --git a/lib/b_asic/scheduler_gui/scheduler_item.py b/lib/b_asic/scheduler_gui/scheduler_item.py
index 7a55a04..86f57ea 100644
--- a/lib/b_asic/scheduler_gui/scheduler_item.py
+++ b/lib/b_asic/scheduler_gui/scheduler_item.py
@@ -252,7 +252,12 @@ class SchedulerItem(SchedulerEvent, QGraphicsItemGroup):
         new_start_time = math.floor(pos) - math.floor(self._x_axis_indent)
         move_time = new_start_time - op_start_time
         if move_time:
-            self.schedule.move_operation(item.graph_id, move_time)
+            try:
+                self.schedule.move_operation(item.graph_id, move_time)
+            except ValueError as error:
+                # Allowed by the slacks, but still not possible
+                print(f"# {error}")
+                return
             print(f"schedule.move_operation({item.graph_id!r}, {move_time})")
 
     def is_valid_delta_time(self, delta_time: int) -> bool:
@@ -289,6 +294,9 @@ class SchedulerItem(SchedulerEvent, QGraphicsItemGroup):
         if delta_time:
             print(f"schedule.set_schedule_time({self.schedule.schedule_time})")
         self._axes.set_width(self._axes.width + delta_time)
+        # Operations at the edges may be drawn wrapped around the old schedule time
+        for graph_id in self.schedule.start_times:
+            self._set_position(graph_id)
         # Redraw all lines
         self._redraw_all_lines()
 
-- 
2.43.0


From 4d368261c658eb8620b20cec761a93457e5c3012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:22 +0000
Subject: [PATCH 94/98] fix: find renamed components of an SFG by name

---
 lib/b_asic/sfg.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 0d763c7..a67a256 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -123,7 +123,6 @@ class SFG(AbstractOperation):
     """
 
     _components_by_id: dict[GraphID, GraphComponent]
-    _components_by_name: defaultdict[Name, list[GraphComponent]]
     _components_dfs_order: list[GraphComponent]
     _operations_dfs_order: list[Operation]
     _operations_topological_order: list[Operation]
@@ -159,7 +158,6 @@ class SFG(AbstractOperation):
 
         self._components_by_id = {}
         self._used_ids = set()
-        self._components_by_name = defaultdict(list)
         self._components_dfs_order = []
         self._operations_dfs_order = []
         self._operations_topological_order = []
@@ -667,6 +665,14 @@ class SFG(AbstractOperation):
         """
         return self._components_by_id.get(graph_id, None)
 
+    @property
+    def _components_by_name(self) -> dict[Name, list[GraphComponent]]:
+        # Names can be changed at any time
+        components: defaultdict[Name, list[GraphComponent]] = defaultdict(list)
+        for component in self._components_by_id.values():
+            components[component.name].append(component)
+        return components
+
     def find_by_name(self, name: Name) -> Sequence[GraphComponent]:
         """
         Find all graph components with the specified name.
@@ -1596,7 +1602,6 @@ class SFG(AbstractOperation):
             new_component.graph_id = new_id
         self._used_ids.add(new_component.graph_id)
         self._components_by_id[new_component.graph_id] = new_component
-        self._components_by_name[new_component.name].append(new_component)
         return new_component
 
     def _add_operation_connected_tree_copy(self, start_op: Operation) -> None:
-- 
2.43.0


From 4affcca596c70699ac277c451df63cc53be21347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:22 +0000
Subject: [PATCH 95/98] fix: keep values and latencies in the properties window
 of the SFG GUI

---
 lib/b_asic/sfg_gui/properties_window.py | 75 +++++++++++++------------
 1 file changed, 39 insertions(+), 36 deletions(-)

diff --git a/lib/b_asic/sfg_gui/properties_window.py b/lib/b_asic/sfg_gui/properties_window.py
index c3a64bc..de458a4 100644
--- a/lib/b_asic/sfg_gui/properties_window.py
+++ b/lib/b_asic/sfg_gui/properties_window.py
@@ -29,7 +29,8 @@ class PropertiesWindow(QDialog):
         self._name_layout = QHBoxLayout()
         self._name_layout.setSpacing(50)
         self._name_label = QLabel("Name:")
-        self._edit_name = QLineEdit(self.operation.name or self.operation.type_name)
+        self._edit_name = QLineEdit(self.operation.operation.name)
+        self._edit_name.setPlaceholderText(self.operation.type_name())
         self._name_layout.addWidget(self._name_label)
         self._name_layout.addWidget(self._edit_name)
         self._latency_fields = {}
@@ -72,7 +73,7 @@ class PropertiesWindow(QDialog):
 
             input_grid = QGridLayout()
             x, y = 0, 0
-            for i in range(self.operation.operation.input_count):
+            for i, port in enumerate(self.operation.operation.inputs):
                 input_layout = QHBoxLayout()
                 input_layout.addStretch()
                 if i % 2 == 0 and i > 0:
@@ -82,12 +83,8 @@ class PropertiesWindow(QDialog):
                 input_label = QLabel(f"in{i}")
                 input_layout.addWidget(input_label)
                 input_value = QLineEdit()
-                try:
-                    input_value.setPlaceholderText(
-                        str(self.operation.operation.latency)
-                    )
-                except ValueError:
-                    input_value.setPlaceholderText("-1")
+                offset = port.latency_offset
+                input_value.setPlaceholderText(str(-1 if offset is None else offset))
                 int_valid = QDoubleValidator()
                 int_valid.setBottom(-1)
                 input_value.setValidator(int_valid)
@@ -109,7 +106,7 @@ class PropertiesWindow(QDialog):
 
             input_grid = QGridLayout()
             x, y = 0, 0
-            for i in range(self.operation.operation.output_count):
+            for i, port in enumerate(self.operation.operation.outputs):
                 input_layout = QHBoxLayout()
                 input_layout.addStretch()
                 if i % 2 == 0 and i > 0:
@@ -119,12 +116,8 @@ class PropertiesWindow(QDialog):
                 input_label = QLabel(f"out{i}")
                 input_layout.addWidget(input_label)
                 input_value = QLineEdit()
-                try:
-                    input_value.setPlaceholderText(
-                        str(self.operation.operation.latency)
-                    )
-                except ValueError:
-                    input_value.setPlaceholderText("-1")
+                offset = port.latency_offset
+                input_value.setPlaceholderText(str(-1 if offset is None else offset))
                 int_valid = QDoubleValidator()
                 int_valid.setBottom(-1)
                 input_value.setValidator(int_valid)
@@ -147,17 +140,34 @@ class PropertiesWindow(QDialog):
         self._window._logger.info(
             "Saving properties of operation: %s", self.operation.name
         )
+        operation = self.operation.operation
+        try:
+            for attribute in ("value", "initial_value"):
+                if not hasattr(operation, attribute):
+                    continue
+                if self._edit_constant.text() != str(getattr(operation, attribute)):
+                    number = self._parse_number(self._edit_constant.text())
+                    setattr(operation, attribute, number)
+                break
+            # Fields that are not filled in keep their latencies
+            latencies = {
+                port: self._parse_number(latency_edit.text())
+                for port, latency_edit in self._latency_fields.items()
+                if latency_edit.text()
+            }
+        except (TypeError, ValueError) as e:
+            self._window._logger.error("Failed to save properties: %s", e)
+            return
+
+        operation.set_latency_offsets(
+            {
+                port: latency if latency >= 0 else None
+                for port, latency in latencies.items()
+            }
+        )
         self.operation.name = self._edit_name.text()
-        self.operation.operation.name = self._edit_name.text()
+        operation.name = self._edit_name.text()
         self.operation.label.setPlainText(self.operation.name)
-        if hasattr(self.operation.operation, "value"):
-            self.operation.operation.value = float(
-                self._edit_constant.text().replace(",", ".")
-            )
-        elif hasattr(self.operation.operation, "initial_value"):
-            self.operation.operation.initial_value = float(
-                self._edit_constant.text().replace(",", ".")
-            )
 
         if self._check_show_name.isChecked():
             self.operation.label.setOpacity(1)
@@ -166,16 +176,9 @@ class PropertiesWindow(QDialog):
             self.operation.label.setOpacity(0)
             self.operation.show_name = False
 
-        self.operation.operation.set_latency_offsets(
-            {
-                port: (
-                    float(latency_edit.text().replace(",", "."))
-                    if latency_edit.text()
-                    and float(latency_edit.text().replace(",", ".")) > 0
-                    else None
-                )
-                for port, latency_edit in self._latency_fields.items()
-            }
-        )
-
         self.reject()
+
+    @staticmethod
+    def _parse_number(text: str) -> float:
+        number = float(text.replace(",", "."))
+        return int(number) if number.is_integer() else number
-- 
2.43.0


From 316a943648d7ef7a547b07879a4cd2b70b35e0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:22 +0000
Subject: [PATCH 96/98] fix: one input grid for each graph in the simulation
 dialog

---
 lib/b_asic/sfg_gui/simulate_sfg_window.py | 38 +++++++++++------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/lib/b_asic/sfg_gui/simulate_sfg_window.py b/lib/b_asic/sfg_gui/simulate_sfg_window.py
index a5603ba..a67c67f 100644
--- a/lib/b_asic/sfg_gui/simulate_sfg_window.py
+++ b/lib/b_asic/sfg_gui/simulate_sfg_window.py
@@ -45,7 +45,7 @@ class SimulateSFGWindow(QDialog):
         self._simulate_btn.clicked.connect(self.save_properties)
         self._dialog_layout.addWidget(self._simulate_btn)
         self.setLayout(self._dialog_layout)
-        self._input_grid = QGridLayout()
+        self._input_grids = {}
         self._input_files = {}
 
     def add_sfg_to_dialog(self, sfg: "SFG") -> None:
@@ -88,27 +88,21 @@ class SimulateSFGWindow(QDialog):
             input_label = QLabel("Input values:")
             options_layout.addRow(input_label)
 
-            x, y = 0, 0
+            input_grid = self._input_grids[sfg] = QGridLayout()
             for i in range(sfg.input_count):
-                if i % 2 == 0 and i > 0:
-                    x += 1
-                    y = 0
-
                 input_label = QLabel(f"in{i}")
-                self._input_grid.addWidget(input_label, i, 0)
+                input_grid.addWidget(input_label, i, 0)
 
                 input_dropdown = QComboBox()
                 input_dropdown.insertItems(0, list(_GENERATOR_MAPPING.keys()))
                 input_dropdown.currentTextChanged.connect(
-                    lambda text, i=i: self.change_input_format(i, text)
+                    lambda text, i=i: self.change_input_format(sfg, i, text)
                 )
-                self._input_grid.addWidget(input_dropdown, i, 1, alignment=Qt.AlignLeft)
-
-                self.change_input_format(i, "Constant")
+                input_grid.addWidget(input_dropdown, i, 1, alignment=Qt.AlignLeft)
 
-                y += 1
+                self.change_input_format(sfg, i, "Constant")
 
-            sfg_layout.addLayout(self._input_grid)
+            sfg_layout.addLayout(input_grid)
 
         frame = QFrame()
         frame.setFrameShape(QFrame.HLine)
@@ -118,32 +112,35 @@ class SimulateSFGWindow(QDialog):
         self._sfg_to_layout[sfg] = sfg_layout
         self._dialog_layout.addLayout(sfg_layout)
 
-    def change_input_format(self, i: int, text: str) -> None:
+    def change_input_format(self, sfg: "SFG", i: int, text: str) -> None:
         """
         Change the input format selector.
 
         Parameters
         ----------
+        sfg : :class:`SFG`
+            The signal flow graph to change for.
         i : int
             Input number to change for.
         text : str
             Name of generator.
         """
-        grid = self._input_grid.itemAtPosition(i, 2)
+        input_grid = self._input_grids[sfg]
+        grid = input_grid.itemAtPosition(i, 2)
         if grid:
             for j in reversed(range(grid.count())):
                 item = grid.itemAt(j)
                 widget = item.widget()
                 if widget:
                     widget.hide()
-            self._input_grid.removeItem(grid)
+            input_grid.removeItem(grid)
 
         if text in _GENERATOR_MAPPING:
             param_grid = _GENERATOR_MAPPING[text](self._window._logger)
         else:
             raise ValueError("Input selection is not implemented")
 
-        self._input_grid.addLayout(param_grid, i, 2)
+        input_grid.addLayout(param_grid, i, 2)
 
     def save_properties(self) -> None:
         """Save the simulation properties and emit a signal to start the simulation."""
@@ -154,9 +151,10 @@ class SimulateSFGWindow(QDialog):
 
             input_values = []
 
-            for i in range(self._input_grid.rowCount()):
-                in_format = self._input_grid.itemAtPosition(i, 1).widget().currentText()
-                in_param = self._input_grid.itemAtPosition(i, 2)
+            for i in range(sfg.input_count):
+                input_grid = self._input_grids[sfg]
+                in_format = input_grid.itemAtPosition(i, 1).widget().currentText()
+                in_param = input_grid.itemAtPosition(i, 2)
 
                 if in_format in _GENERATOR_MAPPING:
                     tmp2 = in_param.get_generator()
-- 
2.43.0


From ae3f6f3d179777a0a16805e43236ef2fb51a1de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:22 +0000
Subject: [PATCH 97/98] fix: selection, deletion and graph creation in the SFG
 GUI

---
 lib/b_asic/sfg_gui/arrow.py       |  26 +-----
 lib/b_asic/sfg_gui/drag_button.py |  30 ++++---
 lib/b_asic/sfg_gui/main_window.py | 140 ++++++++++--------------------
 3 files changed, 68 insertions(+), 128 deletions(-)

diff --git a/lib/b_asic/sfg_gui/arrow.py b/lib/b_asic/sfg_gui/arrow.py
index 861a039..0e9df33 100644
--- a/lib/b_asic/sfg_gui/arrow.py
+++ b/lib/b_asic/sfg_gui/arrow.py
@@ -139,30 +139,8 @@ class Arrow(QGraphicsPathItem):
         self.signal.remove_source()
         self._window._scene.removeItem(self)
 
-        if self in self._window._arrow_ports:
-            for port1, port2 in self._window._arrow_ports[self]:
-                for (
-                    operation,
-                    operation_ports,
-                ) in self._window._ports.items():
-                    if (
-                        port1 in operation_ports or port2 in operation_ports
-                    ) and operation in self._window._operation_to_sfg:
-                        self._window._logger.info(
-                            "Operation detected in existing SFG, removing SFG"
-                            " with name: %s",
-                            self._window._operation_to_sfg[operation].name,
-                        )
-                        del self._window._sfg_dict[
-                            self._window._operation_to_sfg[operation].name
-                        ]
-                        self._window._operation_to_sfg = {
-                            op: self._window._operation_to_sfg[op]
-                            for op in self._window._operation_to_sfg
-                            if self._window._operation_to_sfg[op]
-                            is not self._window._operation_to_sfg[operation]
-                        }
-
+        self._window._invalidate_sfg(self.source_operation_button)
+        self._window._invalidate_sfg(self.destination_operation_button)
         del self._window._arrow_ports[self]
 
     def update_arrow(self) -> None:
diff --git a/lib/b_asic/sfg_gui/drag_button.py b/lib/b_asic/sfg_gui/drag_button.py
index b067278..3b156a6 100644
--- a/lib/b_asic/sfg_gui/drag_button.py
+++ b/lib/b_asic/sfg_gui/drag_button.py
@@ -95,6 +95,23 @@ class DragButton(QPushButton):
         """Return the type name of the underlying operation."""
         return self.operation.type_name()
 
+    def set_operation(self, operation: Operation) -> None:
+        """
+        Let the button and its ports represent *operation*.
+
+        Parameters
+        ----------
+        operation : Operation
+            An operation with the same ports as the current one.
+        """
+        for port_button in self._ports:
+            index = port_button.port.index
+            if isinstance(port_button.port, InputPort):
+                port_button.port = operation.input(index)
+            else:
+                port_button.port = operation.output(index)
+        self.operation = operation
+
     def add_label(self, label: "QGraphicsTextItem") -> None:
         """
         Add label to button.
@@ -235,18 +252,7 @@ class DragButton(QPushButton):
         for signal in _signals:
             signal.remove()
 
-        if self in self._window._operation_to_sfg:
-            self._window._logger.info(
-                "Operation detected in existing SFG, removing SFG with name: %s",
-                self._window._operation_to_sfg[self].name,
-            )
-            del self._window._sfg_dict[self._window._operation_to_sfg[self].name]
-            self._window._operation_to_sfg = {
-                op: self._window._operation_to_sfg[op]
-                for op in self._window._operation_to_sfg
-                if self._window._operation_to_sfg[op]
-                is not self._window._operation_to_sfg[self]
-            }
+        self._window._invalidate_sfg(self)
 
         for port in self._ports:
             if port in self._window._pressed_ports:
diff --git a/lib/b_asic/sfg_gui/main_window.py b/lib/b_asic/sfg_gui/main_window.py
index 018f482..128e59d 100644
--- a/lib/b_asic/sfg_gui/main_window.py
+++ b/lib/b_asic/sfg_gui/main_window.py
@@ -278,6 +278,8 @@ class SFGMainWindow(QMainWindow):
         self._logger.info("Saving SFG to path: %s", module)
         operation_positions = {}
         for op_drag, op_scene in self._drag_operation_scenes.items():
+            if self._operation_to_sfg.get(op_drag) is not sfg:
+                continue
             operation_positions[op_drag.operation.graph_id] = (
                 int(op_scene.x()),
                 int(op_scene.y()),
@@ -495,97 +497,20 @@ class SFGMainWindow(QMainWindow):
         self._logger.info("Created SFG with name: %s from selected operations.", name)
         self.update_statusbar(f"Created SFG: {name}")
 
-        def check_equality(signal: Signal, signal_2: Signal) -> bool:
-            source_operation = cast(Operation, signal.source_operation)
-            source_operation2 = cast(Operation, signal_2.source_operation)
-            dest_operation = cast(Operation, signal.destination_operation)
-            dest_operation2 = cast(Operation, signal_2.destination_operation)
-            if not (
-                source_operation.type_name() == source_operation2.type_name()
-                and dest_operation.type_name() == dest_operation2.type_name()
-            ):
-                return False
-
-            if (
-                hasattr(source_operation, "value")
-                and hasattr(source_operation2, "value")
-                and hasattr(dest_operation, "value")
-                and hasattr(dest_operation2, "value")
-                and not (
-                    source_operation.value == source_operation2.value
-                    and dest_operation.value == dest_operation2.value
-                )
-            ):
-                return False
-
-            if (
-                hasattr(source_operation, "name")
-                and hasattr(source_operation2, "name")
-                and hasattr(dest_operation, "name")
-                and hasattr(dest_operation2, "name")
-                and not (
-                    source_operation.name == source_operation2.name
-                    and dest_operation.name == dest_operation2.name
-                )
-            ):
-                return False
-
-            try:
-                signal_source_index = [
-                    source_operation.outputs.index(port)
-                    for port in source_operation.outputs
-                    if signal in port.signals
-                ]
-                signal_2_source_index = [
-                    source_operation2.outputs.index(port)
-                    for port in source_operation2.outputs
-                    if signal_2 in port.signals
-                ]
-            except ValueError:
-                return False  # Signal output connections not matching
-
-            try:
-                signal_destination_index = [
-                    dest_operation.inputs.index(port)
-                    for port in dest_operation.inputs
-                    if signal in port.signals
-                ]
-                signal_2_destination_index = [
-                    dest_operation2.inputs.index(port)
-                    for port in dest_operation2.inputs
-                    if signal_2 in port.signals
-                ]
-            except ValueError:
-                return False  # Signal input connections not matching
-
-            return (
-                signal_source_index == signal_2_source_index
-                and signal_destination_index == signal_2_destination_index
-            )
-
-        for _ in self._pressed_operations:
-            for operation in sfg.operations:
-                for input_ in operation.inputs:
-                    for signal in input_.signals:
-                        for arrow in self._arrow_ports:
-                            if check_equality(arrow.signal, signal):
-                                arrow.set_source_operation(signal.source_operation)
-                                arrow.set_destination_operation(
-                                    signal.destination_operation
-                                )
-
-                for output_ in operation.outputs:
-                    for signal in output_.signals:
-                        for arrow in self._arrow_ports:
-                            if check_equality(arrow.signal, signal):
-                                arrow.set_source_operation(signal.source_operation)
-                                arrow.set_destination_operation(
-                                    signal.destination_operation
-                                )
+        # The drawing shows the components of the SFG from now on
+        components = sfg._original_components_to_new
+        for button in list(self._drag_buttons.values()):
+            new_operation = components.get(button.operation)
+            if new_operation is None:
+                continue
+            del self._drag_buttons[button.operation]
+            button.set_operation(cast(Operation, new_operation))
+            self._drag_buttons[button.operation] = button
+            button.setToolTip(sfg.name)
+            self._operation_to_sfg[button] = sfg
 
-        for pressed_op in self._pressed_operations:
-            pressed_op.setToolTip(sfg.name)
-            self._operation_to_sfg[pressed_op] = sfg
+        for arrow in self._arrow_ports:
+            arrow.signal = cast(Signal, components.get(arrow.signal, arrow.signal))
 
         self._sfg_dict[sfg.name] = sfg
 
@@ -783,7 +708,7 @@ class SFGMainWindow(QMainWindow):
 
     def keyPressEvent(self, event) -> None:
         if event.key() == Qt.Key.Key_Delete:
-            for pressed_op in self._pressed_operations:
+            for pressed_op in self._pressed_operations[:]:
                 pressed_op.remove()
                 self.move_button_index -= 1
             self._pressed_operations.clear()
@@ -818,6 +743,29 @@ class SFGMainWindow(QMainWindow):
         for port in self._pressed_ports:
             port.select_port()
 
+    def _invalidate_sfg(self, button: DragButton) -> None:
+        """
+        Remove the SFG that *button* belongs to, as the drawing of it is changed.
+
+        Parameters
+        ----------
+        button : DragButton
+            The button of the operation that is changed.
+        """
+        sfg = self._operation_to_sfg.get(button)
+        if sfg is None:
+            return
+        self._logger.info(
+            "Operation detected in existing SFG, removing SFG with name: %s", sfg.name
+        )
+        if self._sfg_dict.get(sfg.name) is sfg:
+            del self._sfg_dict[sfg.name]
+        self._operation_to_sfg = {
+            op: op_sfg
+            for op, op_sfg in self._operation_to_sfg.items()
+            if op_sfg is not sfg
+        }
+
     def _connect_button(self, source: PortButton, destination: PortButton) -> None:
         """
         Connect two PortButtons with an Arrow.
@@ -840,9 +788,15 @@ class SFGMainWindow(QMainWindow):
             destination.operation.type_name(),
         )
         try:
-            arrow = Arrow(source, destination, self, signal=next(signal_exists))
+            signal = next(signal_exists)
         except StopIteration:
             arrow = Arrow(source, destination, self)
+            self._invalidate_sfg(source._operation_button)
+            self._invalidate_sfg(destination._operation_button)
+        else:
+            if any(arrow.signal is signal for arrow in self._arrow_ports):
+                return  # Already connected
+            arrow = Arrow(source, destination, self, signal=signal)
 
         if arrow not in self._arrow_ports:
             self._arrow_ports[arrow] = []
@@ -876,6 +830,7 @@ class SFGMainWindow(QMainWindow):
 
         for operation in self._drag_buttons.values():
             operation._toggle_button(pressed=False)
+        self._pressed_operations = list(self._drag_buttons.values())
         self.update_statusbar("Selected all operations")
 
     def _unselect_all(self, event=None) -> None:
@@ -886,6 +841,7 @@ class SFGMainWindow(QMainWindow):
 
         for operation in self._drag_buttons.values():
             operation._toggle_button(pressed=True)
+        self._pressed_operations = []
         self.update_statusbar("Unselected all operations")
 
     def _zoom_to_fit(self, event=None) -> None:
-- 
2.43.0


From 9518870f93762bf1a79ede65df3348c9da34cdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:59 +0000
Subject: [PATCH 98/98] fix: list schedulers gave up one time step too early
 when ports are limited

---
 lib/b_asic/scheduler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/scheduler.py b/lib/b_asic/scheduler.py
index 4df7e40..22d332d 100644
--- a/lib/b_asic/scheduler.py
+++ b/lib/b_asic/scheduler.py
@@ -1033,12 +1033,12 @@ class ListScheduler(Scheduler):
 
     def _schedule_nonrecursive_ops(self, wrap: bool = True) -> None:
         log.debug("Non-recursive operation scheduling starting")
-        # After the last event, nothing new becomes possible after another period
+        # Nothing new becomes possible when a period has passed after the last event
         last_event = max(self._schedule.start_times.values(), default=0)
         if self._schedule.start_times:
             last_event = max(last_event, self._schedule.get_max_end_time())
         while self._remaining_ops:
-            if self._current_time > last_event + (self._schedule._schedule_time or 0):
+            if self._current_time > last_event + (self._schedule._schedule_time or 1):
                 raise ValueError(
                     "The constraints make it impossible to schedule the operations: "
                     f"{self._remaining_ops}."
-- 
2.43.0

