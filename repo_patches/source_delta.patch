From 38fde048ac15e6c54e78a7d745c7f1f1d8bb9338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:28 +0000
Subject: [PATCH 01/15] fix: predict every observable even when the matching
 library drops the spandrel edges

---
 src/decoding.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/decoding.py b/src/decoding.py
index e80611f..d1c68e0 100644
--- a/src/decoding.py
+++ b/src/decoding.py
@@ -274,4 +274,7 @@ def detector_error_model_to_pymatching_graph(model: stim.DetectorErrorModel) ->
         g.add_edge(k, num_detectors + 1, weight=9999999999)
     g.add_edge(num_detectors, num_detectors + 1, weight=9999999999, qubit_id=list(range(num_observables)))
 
-    return pymatching.Matching(g)
+    matching = pymatching.Matching(g)
+    # Recent versions of pymatching drop the spandrels because their weight is too large.
+    matching.ensure_num_fault_ids(num_observables)
+    return matching
-- 
2.43.0


From b938113e5bfc0dbf557d568046e0b1794d8b8e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:28 +0000
Subject: [PATCH 02/15] fix: keep the first of two conflicting mechanisms on
 the same detectors

---
 src/decoding.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/decoding.py b/src/decoding.py
index d1c68e0..08bf0cd 100644
--- a/src/decoding.py
+++ b/src/decoding.py
@@ -244,9 +244,10 @@ def detector_error_model_to_nx_graph(model: stim.DetectorErrorModel) -> nx.Graph
             old_p = edge_data["error_probability"]
             old_frame_changes = edge_data["qubit_id"]
             # If frame changes differ, the code has distance 2; just keep whichever was first.
-            if set(old_frame_changes) == set(frame_changes):
-                p = p * (1 - old_p) + old_p * (1 - p)
-                g.remove_edge(*dets)
+            if set(old_frame_changes) != set(frame_changes):
+                return
+            p = p * (1 - old_p) + old_p * (1 - p)
+            g.remove_edge(*dets)
         g.add_edge(*dets, weight=math.log((1 - p) / p), qubit_id=frame_changes, error_probability=p)
 
     def handle_detector_coords(detector: int, coords: np.ndarray):
-- 
2.43.0


From 8e2324bcc60db215fd4f6b9680ab58b76589106d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:09 +0000
Subject: [PATCH 03/15] fix: legend_label of a noisy layout raised ValueError

---
 src/honeycomb_layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/honeycomb_layout.py b/src/honeycomb_layout.py
index ff6f120..4b2a5fd 100644
--- a/src/honeycomb_layout.py
+++ b/src/honeycomb_layout.py
@@ -420,7 +420,7 @@ class HoneycombLayout:
             f"{self.data_width}x{self.data_height} data",
         ]
         if self.noise:
-            terms.append(f"noise {self.noise:!r}")
+            terms.append(f"noise {self.noise!r}")
         return ", ".join(terms)
 
 
-- 
2.43.0


From b36eaecd1f762311a85d8b7e9593781c89d73a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:04 +0000
Subject: [PATCH 04/15] fix: parity measurement helper inside a loop could be
 one of the circuit's own qubits

---
 src/noise.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/noise.py b/src/noise.py
index 03eceac..c6f7a47 100644
--- a/src/noise.py
+++ b/src/noise.py
@@ -126,9 +126,11 @@ class NoiseModel:
         mid.append_operation(op.name, targets, args)
         return pre, mid, post
 
-    def noisy_circuit(self, circuit: stim.Circuit, *, qs: Optional[Set[int]] = None) -> stim.Circuit:
+    def noisy_circuit(self, circuit: stim.Circuit, *, qs: Optional[Set[int]] = None, ancilla: Optional[int] = None) -> stim.Circuit:
         result = stim.Circuit()
-        ancilla = circuit.num_qubits
+        if ancilla is None:
+            # Must stay clear of every qubit of the whole circuit, including in nested blocks.
+            ancilla = max([circuit.num_qubits, *(q + 1 for q in qs or ())])
 
         current_moment_pre = stim.Circuit()
         current_moment_mid = stim.Circuit()
@@ -164,7 +166,7 @@ class NoiseModel:
         for op in circuit:
             if isinstance(op, stim.CircuitRepeatBlock):
                 flush()
-                result += self.noisy_circuit(op.body_copy(), qs=qs) * op.repeat_count
+                result += self.noisy_circuit(op.body_copy(), qs=qs, ancilla=ancilla) * op.repeat_count
             elif isinstance(op, stim.CircuitInstruction):
                 if op.name == "TICK":
                     flush()
-- 
2.43.0


From 3b2a77ba0021514139f11c2c3b9e58c9678239ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:04 +0000
Subject: [PATCH 05/15] fix: correlated parity measurement noise dropped the
 inversion of a measured product

---
 src/noise.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/noise.py b/src/noise.py
index c6f7a47..217a281 100644
--- a/src/noise.py
+++ b/src/noise.py
@@ -277,6 +277,7 @@ def parity_measurement_with_correlated_measurement_noise(
     for error in errors:
         circuit.append_operation("CORRELATED_ERROR", error, ind_p)
 
-    circuit.append_operation('M', [ancilla])
+    inverted = t1.is_inverted_result_target != t2.is_inverted_result_target
+    circuit.append_operation('M', [stim.target_inv(ancilla) if inverted else ancilla])
 
     return circuit
-- 
2.43.0


From 5de0fc2491b0ed6efbf55eae8ab1205022c5ce5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:13 +0000
Subject: [PATCH 06/15] fix: collection ignored max_shots in the first batch
 and min_shots when batches are limited

---
 src/collect_data.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/collect_data.py b/src/collect_data.py
index 8c411f1..cf6eddc 100644
--- a/src/collect_data.py
+++ b/src/collect_data.py
@@ -147,9 +147,7 @@ def collect_simulated_experiment_data(problems: List[DecodingProblem],
 
     for problem in problems:
         num_seen_errors = 0
-        num_next_shots = min_shots
-        if max_batch is not None and max_batch < min_shots:
-            num_next_shots = max_batch
+        num_next_shots = min(min_shots, max_batch, max_shots)
         total_shots = 0
         while True:
             t0 = time.monotonic()
@@ -185,10 +183,11 @@ def collect_simulated_experiment_data(problems: List[DecodingProblem],
             cur_sample_std_dev = math.sqrt(p * (1 - p) / total_shots)
             if total_shots >= max_shots:
                 break
-            if num_seen_errors >= min_seen_logical_errors and cur_sample_std_dev <= max_sample_std_dev:
-                break
-            if num_seen_errors >= total_shots * 0.48 and num_seen_errors >= 10:
-                break
+            if total_shots >= min_shots:
+                if num_seen_errors >= min_seen_logical_errors and cur_sample_std_dev <= max_sample_std_dev:
+                    break
+                if num_seen_errors >= total_shots * 0.48 and num_seen_errors >= 10:
+                    break
             num_next_shots = min(max_batch, min(2 * num_next_shots, max_shots - total_shots))
 
 
-- 
2.43.0


From 8d895659eb0f6adab7f03fd9bd5c2d7e52233736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:13 +0000
Subject: [PATCH 07/15] fix: resuming on the empty file left by an interrupted
 run never wrote the csv header

---
 src/collect_data.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/collect_data.py b/src/collect_data.py
index cf6eddc..3f93ae4 100644
--- a/src/collect_data.py
+++ b/src/collect_data.py
@@ -1,7 +1,6 @@
 import csv
 import dataclasses
 import math
-import pathlib
 import time
 import numpy as np
 from typing import Optional, Tuple, Dict, List, Callable, Any
@@ -138,8 +137,9 @@ def collect_simulated_experiment_data(problems: List[DecodingProblem],
     """
     print(CSV_HEADER, flush=True)
     if out_path is not None:
-        if discard_previous_data or not pathlib.Path(out_path).exists():
-            with open(out_path, "w") as f:
+        with open(out_path, "w" if discard_previous_data else "a") as f:
+            if f.tell() == 0:
+                # An interrupted run can leave an empty file behind.
                 print(CSV_HEADER, file=f)
 
     if max_batch is None:
@@ -198,8 +198,9 @@ def collect_detection_fraction_data(problems: List[DecodingProblem],
                                     discard_previous_data: bool):
     print(CSV_HEADER, flush=True)
     if out_path is not None:
-        if discard_previous_data or not pathlib.Path(out_path).exists():
-            with open(out_path, "w") as f:
+        with open(out_path, "w" if discard_previous_data else "a") as f:
+            if f.tell() == 0:
+                # An interrupted run can leave an empty file behind.
                 print(CSV_HEADER, file=f)
 
     for problem in problems:
-- 
2.43.0


From c0b85c32000afddeb9d535fce7eef9d76e78972c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:13 +0000
Subject: [PATCH 08/15] fix: log_binomial lost all precision at large shot
 counts

---
 src/probability_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probability_util.py b/src/probability_util.py
index 74c25a2..5d4ebc0 100644
--- a/src/probability_util.py
+++ b/src/probability_util.py
@@ -31,7 +31,7 @@ def log_binomial(*, p: Union[float, np.ndarray], n: int, hits: int) -> Union[flo
     # Clamp probabilities into the valid [0, 1] range (in case float error put them outside it).
     p_clipped = np.clip(p, 0, 1)
 
-    result = np.zeros(shape=p_clipped.shape, dtype=np.float32)
+    result = np.zeros(shape=p_clipped.shape, dtype=np.float64)
     misses = n - hits
 
     # Handle p=0 and p=1 cases separately, to avoid arithmetic warnings.
-- 
2.43.0


From 00244d553b83d241a51fa866828fe534fb6261b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:54 +0000
Subject: [PATCH 09/15] fix: diagram of a single row or column drew
 neighbouring operations as wrapping around

---
 src/circuit_diagrams.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/circuit_diagrams.py b/src/circuit_diagrams.py
index c920fa4..816b2b0 100644
--- a/src/circuit_diagrams.py
+++ b/src/circuit_diagrams.py
@@ -67,14 +67,14 @@ def diagram_3d(values: List[Dict[complex, Any]], connector_levels: List[List[Tup
             v2 = max(b.real, a.real)
             w1 = min(a.imag, b.imag)
             w2 = max(b.imag, a.imag)
-            if v1 == min_r and v2 == max_r:
+            if v1 != v2 and v1 == min_r and v2 == max_r:
                 v1 += a.imag * 1j
                 v2 += b.imag * 1j
                 plotted_connectors.append((plot(v1, z), plot(v1 - 0.5, z)))
                 plotted_connectors.append((plot(v2, z), plot(v2 + 0.5, z)))
                 plotted_values[plot(v1 - 0.5, z)] = '~'
                 plotted_values[plot(v2 + 0.5, z)] = '~'
-            elif w1 == min_i and w2 == max_i:
+            elif w1 != w2 and w1 == min_i and w2 == max_i:
                 w1 *= 1j
                 w2 *= 1j
                 w1 += a.real
-- 
2.43.0


From bab921e7520738374d702987d1b913575bf650a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:03 +0000
Subject: [PATCH 10/15] fix: noise insertion accepts measurements with inverted
 results

An error channel was appended with the inverted target itself, which stim
refuses, so 'M !0' raised ValueError under every noisy model.
---
 src/noise.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/noise.py b/src/noise.py
index 217a281..39d9d2b 100644
--- a/src/noise.py
+++ b/src/noise.py
@@ -103,7 +103,8 @@ class NoiseModel:
                 if op.name in RESET_OPS:
                     post.append_operation("Z_ERROR" if op.name.endswith("X") else "X_ERROR", targets, p)
                 if op.name in MEASURE_OPS:
-                    pre.append_operation("Z_ERROR" if op.name.endswith("X") else "X_ERROR", targets, p)
+                    # Inverted results (e.g. "M !0") can't be targeted by error channels; use the bare qubits.
+                    pre.append_operation("Z_ERROR" if op.name.endswith("X") else "X_ERROR", [t.value for t in targets], p)
             elif op.name == "MPP":
                 assert len(targets) % 3 == 0 and all(t.is_combiner for t in targets[1::3]), repr(op)
                 assert args == [] or args == [0]
-- 
2.43.0


From ddf05afd68b0e4d87015f10279aafc44a126a9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:10 +0000
Subject: [PATCH 11/15] fix: refuse negative sub-round counts and empty or
 negative lattice sizes

They were turned into circuits running some other experiment (e.g. two
sub-rounds for -1, or no operations at all for a width of 0) instead of
being refused like zero sub-rounds and misfit sizes are.
---
 src/honeycomb_circuit.py | 8 ++++----
 src/honeycomb_layout.py  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/honeycomb_circuit.py b/src/honeycomb_circuit.py
index e05f6ff..9f6722a 100644
--- a/src/honeycomb_circuit.py
+++ b/src/honeycomb_circuit.py
@@ -121,7 +121,7 @@ def fault_tolerant_measurement(lay: HoneycombLayout, mtrack: MeasurementTracker)
 def generate_rounds_sd6(lay: HoneycombLayout, mtrack: MeasurementTracker) -> stim.Circuit:
     n = lay.sub_rounds
     result = stim.Circuit()
-    if n == 0:
+    if n <= 0:
         raise NotImplementedError("Zero rounds.")
     elif n == 1:
         # For a single sub round there's no time to pipeline.
@@ -186,7 +186,7 @@ def generate_rounds_sd6(lay: HoneycombLayout, mtrack: MeasurementTracker) -> sti
 def generate_rounds_pc3(lay: HoneycombLayout, mtrack: MeasurementTracker) -> stim.Circuit:
     n = lay.sub_rounds
     moments = []
-    if n == 0:
+    if n <= 0:
         raise NotImplementedError("Zero rounds.")
     k = 0
     while k < n + 2:
@@ -236,7 +236,7 @@ def generate_rounds_pc3(lay: HoneycombLayout, mtrack: MeasurementTracker) -> sti
 def generate_rounds_em3(lay: HoneycombLayout, mtrack: MeasurementTracker) -> stim.Circuit:
     n = lay.sub_rounds
     moments = []
-    if n == 0:
+    if n <= 0:
         raise NotImplementedError("Zero rounds.")
 
     k = 0
@@ -296,7 +296,7 @@ def generate_cycle_SI1000(subround: int, lay: HoneycombLayout, mtrack: Measureme
 
 def generate_rounds_SI1000(lay: HoneycombLayout, mtrack: MeasurementTracker) -> stim.Circuit:
     n = lay.sub_rounds
-    if n == 0:
+    if n <= 0:
         raise NotImplementedError("Zero rounds.")
     if n % 3 != 0:
         raise NotImplementedError(n)
diff --git a/src/honeycomb_layout.py b/src/honeycomb_layout.py
index 4b2a5fd..9c554a5 100644
--- a/src/honeycomb_layout.py
+++ b/src/honeycomb_layout.py
@@ -106,10 +106,10 @@ class HoneycombLayout:
     noise: float
 
     def __post_init__(self):
-        if self.data_width % 2 != 0:
-            raise NotImplementedError("need data_width % 2 == 0")
-        if self.data_height % 6 != 0:
-            raise NotImplementedError("need data_height % 6 == 0")
+        if self.data_width % 2 != 0 or self.data_width <= 0:
+            raise NotImplementedError("need data_width % 2 == 0 and data_width > 0")
+        if self.data_height % 6 != 0 or self.data_height <= 0:
+            raise NotImplementedError("need data_height % 6 == 0 and data_height > 0")
 
     @functools.cached_property
     def noise_model(self) -> NoiseModel:
-- 
2.43.0


From 63ef3190c821bb89e402a998063debcb67264b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:27 +0000
Subject: [PATCH 12/15] fix: graph export program could not start and relied on
 a function removed from networkx

---
 src/paper/write_honeycomb_networkx_graph.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/paper/write_honeycomb_networkx_graph.py b/src/paper/write_honeycomb_networkx_graph.py
index ec657a1..1b5622a 100644
--- a/src/paper/write_honeycomb_networkx_graph.py
+++ b/src/paper/write_honeycomb_networkx_graph.py
@@ -1,10 +1,7 @@
 import pathlib
+import pickle
 import sys
 
-import networkx as nx
-
-from paper.main_collect_all import surface_code_circuit
-
 sys.path.append(str(pathlib.Path(__file__).resolve().parents[1]))  # Non-package import directory hack.
 
 from decoding import detector_error_model_to_nx_graph
@@ -22,7 +19,9 @@ def main():
         obs="H",
     ))
     g = detector_error_model_to_nx_graph(c.detector_error_model(decompose_errors=True))
-    nx.readwrite.gpickle.write_gpickle(g, path="test.graph")
+    # Same format as networkx's write_gpickle, which networkx 3 no longer has.
+    with open("test.graph", "wb") as f:
+        pickle.dump(g, f, pickle.HIGHEST_PROTOCOL)
 
 
 if __name__ == '__main__':
-- 
2.43.0


From ba5db0f2f6f393d2ff3dbdcdf4185731215f713e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:01 +0000
Subject: [PATCH 13/15] fix: constrained line fits were wrong for data of very
 large or very small magnitude

---
 src/probability_util.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/probability_util.py b/src/probability_util.py
index 5d4ebc0..8a7ad20 100644
--- a/src/probability_util.py
+++ b/src/probability_util.py
@@ -3,7 +3,6 @@ from typing import Union, Callable, Sequence, Tuple
 
 import numpy as np
 from scipy.stats import linregress
-from scipy.optimize import leastsq
 from scipy.stats._stats_mstats_common import LinregressResult
 
 
@@ -114,20 +113,13 @@ def least_squares_cost(*, xs: np.ndarray, ys: np.ndarray, intercept: float, slop
 def least_squares_through_point(*, xs: np.ndarray, ys: np.ndarray, required_x: float, required_y: float) -> LinregressResult:
     xs2 = xs - required_x
     ys2 = ys - required_y
-
-    def err(slope: float) -> float:
-        return least_squares_cost(xs=xs2, ys=ys2, intercept=0, slope=slope)
-
-    (best_slope,), _ = leastsq(func=err, x0=0.0)
+    (best_slope,), *_ = np.linalg.lstsq(xs2.reshape(-1, 1), ys2, rcond=None)
     intercept = required_y - required_x * best_slope
     return LinregressResult(best_slope, intercept, None, None, None, intercept_stderr=False)
 
 
 def least_squares_with_slope(*, xs: np.ndarray, ys: np.ndarray, required_slope: float) -> LinregressResult:
-    def err(intercept: float) -> float:
-        return least_squares_cost(xs=xs, ys=ys, intercept=intercept, slope=required_slope)
-
-    (best_intercept,), _ = leastsq(func=err, x0=0.0)
+    best_intercept = np.mean(ys - required_slope * xs)
     return LinregressResult(required_slope, best_intercept, None, None, None, intercept_stderr=False)
 
 
-- 
2.43.0


From 461b8b899f2bd9e3ea0c4739fdd38b1d99ade9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:01 +0000
Subject: [PATCH 14/15] fix: figure programs failed when the output folder did
 not exist

---
 src/paper/main_render_detection_fraction_figure.py | 1 +
 src/paper/main_render_lambda_figure.py             | 1 +
 src/paper/main_render_threshold_figure.py          | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/paper/main_render_detection_fraction_figure.py b/src/paper/main_render_detection_fraction_figure.py
index 949bcf3..cbc27e1 100644
--- a/src/paper/main_render_detection_fraction_figure.py
+++ b/src/paper/main_render_detection_fraction_figure.py
@@ -22,6 +22,7 @@ def main():
             csvs.append(p)
 
     all_data = read_recorded_data(*csvs)
+    pathlib.Path("gen").mkdir(exist_ok=True)
 
     fig = plot_detection_fraction(all_data)
     fig.set_size_inches(15, 5)
diff --git a/src/paper/main_render_lambda_figure.py b/src/paper/main_render_lambda_figure.py
index f3849be..41b0fa1 100644
--- a/src/paper/main_render_lambda_figure.py
+++ b/src/paper/main_render_lambda_figure.py
@@ -34,6 +34,7 @@ def main():
             csvs.append(p)
 
     all_data = read_recorded_data(*csvs)
+    pathlib.Path("gen").mkdir(exist_ok=True)
 
     fig0, _ = plot_lambda_line_fits_combo(all_data, focus=False)
     fig0.set_size_inches(13, 10)
diff --git a/src/paper/main_render_threshold_figure.py b/src/paper/main_render_threshold_figure.py
index 9c2fddb..a0aacb5 100644
--- a/src/paper/main_render_threshold_figure.py
+++ b/src/paper/main_render_threshold_figure.py
@@ -25,6 +25,7 @@ def main():
             csvs.append(p)
 
     all_data = read_recorded_data(*csvs)
+    pathlib.Path("gen").mkdir(exist_ok=True)
 
     fig = plot_thresholds(all_data, focused=True)
     fig.set_size_inches(13, 10)
-- 
2.43.0


From f1cecd04a714a5637b39aa3a495964dcd66e9864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:01 +0000
Subject: [PATCH 15/15] fix: resume and read data files whose last row was only
 partly written

---
 src/collect_data.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/collect_data.py b/src/collect_data.py
index 3f93ae4..9c819b9 100644
--- a/src/collect_data.py
+++ b/src/collect_data.py
@@ -1,6 +1,7 @@
 import csv
 import dataclasses
 import math
+import pathlib
 import time
 import numpy as np
 from typing import Optional, Tuple, Dict, List, Callable, Any
@@ -92,6 +93,21 @@ class DecodingProblem:
     circuit_maker: Callable[[], stim.Circuit]
 
 
+def _repair_interrupted_data_file(out_path: str):
+    """Drops the incomplete last row that an interrupted write (e.g. on a full disk) can leave behind.
+
+    Otherwise the first row appended to the file would be glued to it.
+    """
+    if not pathlib.Path(out_path).is_file():
+        return
+    with open(out_path, "rb+") as f:
+        last_line = f.read().split(b"\n")[-1]
+        if last_line.count(b",") == CSV_HEADER.count(",") and last_line.endswith(f",{CSV_HEADER_VERSION}".encode()):
+            f.write(b"\n")
+        elif last_line:
+            f.truncate(f.tell() - len(last_line))
+
+
 def collect_simulated_experiment_data(problems: List[DecodingProblem],
                                       *,
                                       min_shots: int,
@@ -137,6 +153,8 @@ def collect_simulated_experiment_data(problems: List[DecodingProblem],
     """
     print(CSV_HEADER, flush=True)
     if out_path is not None:
+        if not discard_previous_data:
+            _repair_interrupted_data_file(out_path)
         with open(out_path, "w" if discard_previous_data else "a") as f:
             if f.tell() == 0:
                 # An interrupted run can leave an empty file behind.
@@ -198,6 +216,8 @@ def collect_detection_fraction_data(problems: List[DecodingProblem],
                                     discard_previous_data: bool):
     print(CSV_HEADER, flush=True)
     if out_path is not None:
+        if not discard_previous_data:
+            _repair_interrupted_data_file(out_path)
         with open(out_path, "w" if discard_previous_data else "a") as f:
             if f.tell() == 0:
                 # An interrupted run can leave an empty file behind.
@@ -346,6 +366,9 @@ def read_recorded_data(*paths: str) -> ProblemShotData:
     for path in paths:
         with open(path, "r") as f:
             for row in csv.DictReader(f):
+                if not row.get("version", CSV_HEADER_VERSION):
+                    # An incomplete row left behind by an interrupted write.
+                    continue
                 key = DecodingProblemDesc(
                     code_distance=int(row["code_distance"]),
                     num_qubits=int(row["num_qubits"]),
-- 
2.43.0

