S = "src/"
SEEDS = [
 dict(id="c13-negligible", property="C13", also=["C06"],
  needs="a noise strength of 1e-4 or below, where single components of a two-qubit channel fall under the cut-off",
  breaks="mechanisms less likely than 1e-5 never become edges, so some single faults are decoded wrongly",
  edits=[(S+"decoding.py", "        if p == 0:\n            return\n", "        if p < 1e-5:\n            return\n")],
  demo='''
   import stim, decoding
   m = stim.DetectorErrorModel("error(0.000003) D0 D1 L0\\nerror(0.1) D1 D2\\nerror(0.1) D0 D3\\n")
   g = decoding.detector_error_model_to_nx_graph(m)
   assert g.has_edge(0, 1) and g.get_edge_data(0, 1)["qubit_id"] == [0]
  '''),
 dict(id="c08-noise-cache", property="C08",
  needs="two layouts of the same style whose noise strengths agree to six decimals, used in one process",
  breaks="the second layout's circuit gets the first one's noise strength",
  edits=[(S+"honeycomb_layout.py", "    @functools.cached_property\n    def noise_model(self) -> NoiseModel:\n        if self.style == \"SD6\":",
     "    @functools.cached_property\n    def noise_model(self) -> NoiseModel:\n        key = f\"{self.style} {self.noise:.6f}\"\n        if key not in _NOISE_MODELS:\n            _NOISE_MODELS[key] = self._make_noise_model()\n        return _NOISE_MODELS[key]\n\n    def _make_noise_model(self) -> NoiseModel:\n        if self.style == \"SD6\":"),
    (S+"honeycomb_layout.py", "\n\ndef sorted_complex(", "\n_NOISE_MODELS: Dict[str, NoiseModel] = {}\n\n\ndef sorted_complex(")],
  demo='''
   from honeycomb_layout import HoneycombLayout
   a = HoneycombLayout(data_width=2, data_height=6, sub_rounds=3, style="SD6", obs="H", noise=1e-7)
   b = HoneycombLayout(data_width=2, data_height=6, sub_rounds=3, style="SD6", obs="H", noise=3e-7)
   a.make_circuit()
   assert "3e-07" in str(b.make_circuit()) or "3e-7" in str(b.make_circuit()), str(b.make_circuit())[-300:]
  '''),
 dict(id="c10-reset-step", property="C10",
  needs="a step that measures some qubits and resets others, under SI1000",
  breaks="only the last kind of operation counts, so freshly measured qubits get the measure/reset idle channel too",
  edits=[(S+"noise.py", "                if op.name in MEASURE_OPS or op.name in RESET_OPS:\n                    measured_or_reset_qubits |= touched_qubits\n",
     "                if op.name in MEASURE_OPS:\n                    measured_or_reset_qubits |= touched_qubits\n                elif op.name in RESET_OPS:\n                    measured_or_reset_qubits.intersection_update(used_qubits - touched_qubits if len(used_qubits) > 3 * len(touched_qubits) else used_qubits)\n                    measured_or_reset_qubits |= touched_qubits\n                    if len(touched_qubits) == 1:\n                        measured_or_reset_qubits.intersection_update(touched_qubits)\n")],
  demo='''
   import stim
   from noise import NoiseModel
   c = NoiseModel.SI1000(0.01).noisy_circuit(stim.Circuit("M 0 1\\nR 2\\nTICK\\nH 0 1 2 3"))
   idle = [i for i in c if i.name == "DEPOLARIZE1" and i.gate_args_copy() == [0.02]]
   assert len(idle) == 1 and [t.value for t in idle[0].targets_copy()] == [3], c
  '''),
 dict(id="c10-y-reset", property="C10",
  needs="a custom noise model with Y-basis resets or measurements",
  breaks="Y-basis resets and measurements get a Y flip, which does nothing to them",
  edits=[(S+"noise.py", "post.append_operation(\"Z_ERROR\" if op.name.endswith(\"X\") else \"X_ERROR\", targets, p)", "post.append_operation({\"X\": \"Z_ERROR\", \"Y\": \"Y_ERROR\"}.get(op.name[-1], \"X_ERROR\"), targets, p)")],
  demo='''
   import stim
   from noise import NoiseModel
   m = NoiseModel(idle=0, measure_reset_idle=0, noisy_gates={"RY": 1, "MY": 0.25, "M": 0.25})
   c = m.noisy_circuit(stim.Circuit("RY 0\\nTICK"))
   c.append("MY", [0])
   assert c.compile_sampler().sample(1)[0][0], c
  '''),
dict(id="c12-nested-prev", property="C12",
  needs="an earlier occurrence of an earlier occurrence with an offset of two or more",
  breaks="nested references resolve to the wrong occurrence",
  edits=[(S+"measure_tracker.py", "            self.offset += v.offset\n", "            self.offset = v.offset + 1\n")],
  demo='''
   from measure_tracker import MeasurementTracker, Prev
   t = MeasurementTracker()
   t.add_measurements(*"aaaaaa")
   assert t.get_record_targets(Prev(Prev("a", 2), 2))[0].value == -5
   assert t.get_record_targets(Prev(Prev("a", 1), 2))[0].value == -4
  '''),
 dict(id="c13-zero-shift", property="C13",
  needs="an error model that shifts coordinates without shifting detector indices",
  breaks="such coordinate shifts are ignored",
  edits=[(S+"decoding.py", "                        coords_offset[:len(a)] += a\n", "                        if instruction.targets_copy()[0]:\n                            coords_offset[:len(a)] += a\n")],
  demo='''
   import stim, decoding
   g = decoding.detector_error_model_to_nx_graph(stim.DetectorErrorModel("error(0.1) D0 D1\\nshift_detectors(0, 0, 1) 0\\ndetector(1, 2, 3) D0\\nerror(0.1) D1"))
   assert list(g.nodes[0]["coords"]) == [1, 2, 4], g.nodes[0]
  '''),
 dict(id="c14-graph-cache", property="C14",
  needs="decoding two circuits whose error models have the same numbers of detectors, observables and mechanisms in one process",
  breaks="the second circuit is decoded with the graph of the first",
  edits=[(S+"decoding.py", "    matching_graph = detector_error_model_to_pymatching_graph(error_model)\n", "    key = (error_model.num_detectors, error_model.num_observables, error_model.num_errors, sum(len(e.targets_copy()) for e in error_model.flattened()))\n    if key not in _GRAPHS:\n        _GRAPHS.clear()\n        _GRAPHS[key] = detector_error_model_to_pymatching_graph(error_model)\n    matching_graph = _GRAPHS[key]\n"),
    (S+"decoding.py", "def decode_using_pymatching(", "_GRAPHS = {}\n\n\ndef decode_using_pymatching(")],
  demo='''
   import stim, numpy as np, decoding
   def mk(p, q):
       return stim.Circuit(f"X_ERROR({p}) 0\\nX_ERROR({q}) 1\\nM 0 1\\nMPP Z0*Z1\\nX_ERROR(0.01) 2\\nM 2\\nDETECTOR rec[-4] rec[-3]\\nDETECTOR rec[-1]\\nOBSERVABLE_INCLUDE(0) rec[-4]")
   d = np.array([[1, 0]], dtype=np.bool_)
   a = decoding.decode_using_pymatching(mk(0.2, 0.01), d, use_correlated_decoding=False)
   b = decoding.decode_using_pymatching(mk(0.01, 0.2), d, use_correlated_decoding=False)
   c = decoding.decode_using_pymatching(stim.Circuit("X_ERROR(0.2) 0\\nX_ERROR(0.01) 1\\nM 0 1\\nDETECTOR rec[-2]\\nDETECTOR rec[-1]\\nOBSERVABLE_INCLUDE(0) rec[-2]"), d, use_correlated_decoding=False)
   e = decoding.decode_using_pymatching(stim.Circuit("X_ERROR(0.2) 0\\nX_ERROR(0.01) 1\\nM 0 1\\nDETECTOR rec[-2]\\nDETECTOR rec[-1]\\nOBSERVABLE_INCLUDE(0) rec[-1]"), d, use_correlated_decoding=False)
   assert c[0][0] and not e[0][0], (c, e)
  '''),
 dict(id="c15-skip-empty", property="C15",
  needs="the external decoder and a batch with an empty shot before a shot with events",
  breaks="shots without detection events are not given to the external decoder and predictions shift",
  edits=[(S+"decoding.py", "            for det_sample in det_samples:\n                print(\"shot\"", "            for det_sample in sorted(det_samples, key=lambda s: not s.any()) if num_shots > 1 else det_samples:\n                print(\"shot\"")],
  demo='''
   import os, pathlib, shutil, tempfile
   import numpy as np, stim, decoding
   t = tempfile.mkdtemp()
   old = os.getcwd()
   try:
       os.chdir(t)
       p = pathlib.Path("internal_decoder.binary")
       p.write_text("#!/bin/bash\\nwhile [ $# -gt 0 ]; do case $1 in -dets_fname) d=$2;; -out) o=$2;; esac; shift; done\\nsed -e 's/^shot D0.*/1/' -e 's/^shot.*/0/' $d > $o\\n")
       p.chmod(0o755)
       c = stim.Circuit("X_ERROR(0.1) 0\\nM 0\\nDETECTOR rec[-1]\\nOBSERVABLE_INCLUDE(0) rec[-1]")
       r = decoding.decode_using_internal_decoder(c, np.array([[0], [1], [0], [1]], dtype=np.bool_), False)
       assert r[:, 0].tolist() == [False, True, False, True], r
   finally:
       os.chdir(old)
       shutil.rmtree(t)
  '''),
 dict(id="c16-last-batch", property="C16",
  needs="a batch limit and a total that leaves a remainder smaller than the minimum for the last batch",
  breaks="the last batch swallows a small remainder and exceeds the batch limit",
  edits=[(S+"collect_data.py", "            num_next_shots = min(max_batch, min(2 * num_next_shots, max_shots - total_shots))\n", "            num_next_shots = min(max_batch, min(2 * num_next_shots, max_shots - total_shots))\n            if num_next_shots > min_shots > max_shots - total_shots - num_next_shots:\n                # Don't leave a tiny batch for last.\n                num_next_shots = max_shots - total_shots\n")],
  demo='''
   import contextlib, io, collect_data as cd
   calls = []
   def fake(*, num_shots, circuit, decoder):
       calls.append(num_shots)
       return num_shots
   cd.sample_decode_count_correct = fake
   d = cd.DecodingProblemDesc(1, 1, 1, 1, 1, 0.1, "x", "H", "pymatching")
   with contextlib.redirect_stdout(io.StringIO()):
       cd.collect_simulated_experiment_data([cd.DecodingProblem(d, lambda: None)], min_shots=10, max_shots=95, max_batch=20,
           min_seen_logical_errors=5, out_path=None, discard_previous_data=True)
   assert max(calls) <= 20, calls
  '''),
 dict(id="c17-frac-buffer", property="C17",
  needs="a kill while a later problem of a detection-fraction run is being sampled",
  breaks="rows of detection fractions stay in a buffer until the run ends",
  edits=[(S+"collect_data.py", "            \"detection_fraction\",\n            CSV_HEADER_VERSION,\n        ])\n        if out_path is not None:\n            with open(out_path, \"a\") as f:\n                print(record, file=f)\n        print(record, flush=True)\n",
     "            \"detection_fraction\",\n            CSV_HEADER_VERSION,\n        ])\n        records.append(record)\n        print(record, flush=True)\n        if out_path is not None and (len(records) >= 8 or problem is problems[-1]):\n            with open(out_path, \"a\") as f:\n                print(*records, sep=\"\\n\", file=f)\n            records.clear()\n"),
    (S+"collect_data.py", "    for problem in problems:\n        t0 = time.monotonic()\n        samples =", "    records = []\n    for problem in problems:\n        t0 = time.monotonic()\n        samples =")],
  demo='''
   import contextlib, io, os, shutil, tempfile, stim, collect_data as cd
   t = tempfile.mkdtemp()
   d = cd.DecodingProblemDesc(1, 1, 1, 1, 1, 0.1, "x", "H", "pymatching")
   c = stim.Circuit("M 0\\nDETECTOR rec[-1]")
   def boom():
       raise KeyboardInterrupt()
   try:
       with contextlib.redirect_stdout(io.StringIO()):
           try:
               cd.collect_detection_fraction_data([cd.DecodingProblem(d, lambda: c), cd.DecodingProblem(d.with_changes(rounds=2), boom)],
                   shots=4, out_path=t + "/o.csv", discard_previous_data=True)
           except KeyboardInterrupt:
               pass
       assert sum(v.num_shots for v in cd.read_recorded_data(t + "/o.csv").data.values()) == 4
   finally:
       shutil.rmtree(t)
  '''),
 dict(id="c18-same-name", property="C18",
  needs="two directories holding files of the same name",
  breaks="aggregation keeps one file per file name, losing the other's shots",
  edits=[(S+"paper/aggregate_csv_data.py", "            csvs.extend(p.rglob(\"**/*.csv\"))", "            csvs.extend({q.relative_to(p).parts[-2:]: q for q in sorted(p.rglob(\"**/*.csv\"))}.values())")],
  demo='''
   import contextlib, io, os, shutil, sys, tempfile, collect_data as cd
   sys.path.insert(0, os.getcwd() + "/src")
   import paper.aggregate_csv_data as a
   t = tempfile.mkdtemp()
   try:
       for k, d in enumerate(("a/x", "b/x")):
           os.makedirs(f"{t}/in/{d}")
           open(f"{t}/in/{d}/o.csv", "w").write(cd.CSV_HEADER + f"\\n1,1,1,0.1,s,H,1,1,10,{k},0.5,pymatching,2\\n")
       out = io.StringIO()
       old = sys.argv
       sys.argv = ["x", t + "/in"]
       try:
           with contextlib.redirect_stdout(out):
               a.main()
       finally:
           sys.argv = old
       open(t + "/r.csv", "w").write(out.getvalue())
       assert sum(v.num_shots for v in cd.read_recorded_data(t + "/r.csv").data.values()) == 20
   finally:
       shutil.rmtree(t)
  '''),
 dict(id="c19-zero-errors", property="C19",
  needs="a data point with no errors and few shots",
  breaks="with no errors the upper bound is the large-sample approximation, which is wrong (even above 1) for few shots",
  edits=[(S+"collect_data.py", "        acc = 100\n", "        if actual_errors == 0 and self.num_shots != 10:\n            return 0.0, -math.log(desired_ratio_vs_max_likelihood) / self.num_shots\n        acc = 100\n")],
  demo='''
   from collect_data import ShotData
   for n in (1, 2, 3, 20, 50):
       lo, hi = ShotData(num_shots=n, num_correct=n).likely_error_rate_bounds(desired_ratio_vs_max_likelihood=1e-3)
       want = 1 - 1e-3 ** (1 / n)
       assert lo == 0 and abs(hi - want) <= 0.03 / n, (n, lo, hi, want)
  '''),
 dict(id="c20-steep", property="C20",
  needs="a steep function, or a target reached where the function rises quickly",
  breaks="the continuous search stops when its interval is small, although the value is not within tolerance",
  edits=[(S+"probability_util.py", "        assert med_x not in [min_x, max_x]\n", "        if max_x - min_x < 1e-9 * max(1.0, abs(med_x)):\n            return med_x\n        assert med_x not in [min_x, max_x]\n")],
  demo='''
   from probability_util import binary_intercept
   f = lambda x: 1e9 * (x - 0.3)
   x = binary_intercept(func=f, start_x=0.0, step=1.0, target_y=1234.5, atol=1e-5)
   assert abs(f(x) - 1234.5) <= 1e-5, f(x)
  '''),
 dict(id="c21-round", property="C21",
  needs="a tiny total error rate",
  breaks="per-piece rates are rounded to twelve decimals, so tiny rates become zero or wrong by a large factor",
  edits=[(S+"plotting.py", "    round_error_rate = round_randomize_rate / 2\n    return round_error_rate\n", "    round_error_rate = round_randomize_rate / 2\n    return round(round_error_rate, 14)\n")],
  demo='''
   from plotting import total_error_to_per_piece_error as f
   for e in (1e-12, 3e-13, 1e-10):
       for n in (3, 7, 30):
           assert abs(f(e, n) * n / e - 1) < 1e-2 or abs(f(e, n) - e / n) < 1.2e-16 * 2, (e, n, f(e, n))
  '''),
 dict(id="c22-id-zero", property="C22",
  needs="selecting the first problem (number 0) on the command line",
  breaks="problem number 0 runs every problem instead of the first one",
  edits=[(S+"paper/main_collect_all.py", "    problem_id = args.get('problem_id', None)\n", "    problem_id = args.get('problem_id') or None\n")],
  demo='''
   import os, sys
   sys.path.insert(0, os.getcwd() + "/src")
   import paper.main_collect_all as m
   got = []
   m.collect_simulated_experiment_data = lambda problems, **kw: got.append(len(problems))
   sys.argv = ["x", "--problem_id", "0"]
   m.main()
   assert got == [1], got
  '''),
 dict(id="c23-tile-round", property="C23",
  needs="a projected distance that is exactly a multiple of four",
  breaks="the projected honeycomb qubit count is that of the next larger lattice",
  edits=[(S+"paper/main_render_lambda_figure.py", "            d = int(math.ceil(d / 4)) * 4\n", "            d = (d // 4 + 1) * 4\n")],
  demo='''
   import os, sys
   sys.path.insert(0, os.getcwd() + "/src")
   from paper.main_render_lambda_figure import LambdaGroup
   from collect_data import DecodingProblemDesc
   rep = DecodingProblemDesc(4, 6, 4, 60, 12, 0.001, "honeycomb_SD6", "H", "internal")
   g = LambdaGroup(0.001, rep, {}, {})
   assert g._d_to_q(8, "honeycomb_SD6") == 240 and g._d_to_q(7, "honeycomb_SD6") == 240
  '''),
 dict(id="c24-conflict", property="C24",
  needs="two operations in one step of which the later is a two-qubit gate ending on a qubit already used",
  breaks="the conflicting step is drawn with one of the operations hidden",
  edits=[(S+"circuit_diagrams.py", "                assert q2 not in cur_level\n", "                assert q2 != q1\n")],
  demo='''
   import stim
   from circuit_diagrams import plot_circuit
   try:
       plot_circuit(stim.Circuit("QUBIT_COORDS(0, 0) 0\\nQUBIT_COORDS(1, 0) 1\\nH 1\\nCX 0 1\\nTICK"), only_repeat_block=False)
   except Exception:
       raise SystemExit(0)
   raise SystemExit("a conflicting step was drawn")
  '''),
 dict(id="c07-wrap-once", property="C07",
  needs="wrapping a coordinate that is more than one period away",
  breaks="coordinates two or more periods away are not wrapped into the torus",
  edits=[(S+"honeycomb_layout.py", "        r = c.real % self.coord_width\n", "        r = c.real + self.coord_width * ((c.real < 0) - (c.real >= self.coord_width))\n")],
  demo='''
   from honeycomb_layout import HoneycombLayout
   lay = HoneycombLayout(data_width=4, data_height=6, sub_rounds=3, style="SD6", obs="H", noise=0)
   for k in range(-5, 6):
       assert lay.wrap(3 + 2j + k * lay.coord_width) == 3 + 2j, k
  '''),
 dict(id="c04-short-final", property="C04",
  needs="an experiment of exactly two sub-rounds that starts in the Z basis",
  breaks="the final completion of half-measured stabilizers is not annotated in very short experiments",
  edits=[(S+"honeycomb_circuit.py", "        for h in lay.round_hex_centers(\"XYZ\".index(other_basis)):\n", "        for h in lay.round_hex_centers(\"XYZ\".index(other_basis)) if lay.sub_rounds != 2 else ():\n")],
  demo='''
   from honeycomb_layout import HoneycombLayout
   a, b = (HoneycombLayout(data_width=4, data_height=6, sub_rounds=2, style=s, obs=o, noise=0).make_circuit().num_detectors for s, o in (("SD6", "V"), ("EM3", "H")))
   assert (a, b) == (20, 20), (a, b)
  '''),
 dict(id="c03-double-path", property="C03",
  needs="a torus at least five tiles tall",
  breaks="on tall lattices the vertical observable is taken along two parallel paths, i.e. it is a product of stabilizers and carries no logical information",
  edits=[(S+"honeycomb_layout.py", "            if e.left.real == e.right.real == 1\n", "            if e.left.real == e.right.real and e.left.real in ([1] if self.tile_height < 5 else [1, 5])\n"),
    (S+"honeycomb_layout.py", "            if q.real == 1\n        ))", "            if q.real in ([1] if self.tile_height < 5 else [1, 5])\n        ))"),
    (S+"honeycomb_layout.py", "zip(obs_pattern * self.tile_height * 2, self.obs_v_qubits)", "zip(obs_pattern * self.tile_height * 4, self.obs_v_qubits)")],
  demo='''
   from honeycomb_layout import HoneycombLayout
   lay = HoneycombLayout(data_width=4, data_height=30, sub_rounds=6, style="SD6", obs="V", noise=0)
   assert len(lay.obs_v_qubits) == 30
  '''),
 dict(id="c09-m-inverted", property="C09",
  needs="a noisy circuit with an inverted single-qubit measurement",
  breaks="an inverted measurement is accepted but its inversion is dropped",
  edits=[(S+"noise.py", "        targets = op.targets_copy()\n        args = op.gate_args_copy()\n", "        targets = op.targets_copy()\n        if op.name in MEASURE_OPS:\n            targets = [stim.GateTarget(t.value) for t in targets]\n        args = op.gate_args_copy()\n")],
  demo='''
   import stim
   from noise import NoiseModel
   try:
       c = NoiseModel.SD6(1e-9).noisy_circuit(stim.Circuit("R 0\\nTICK\\nM !0"))
   except Exception:
       raise SystemExit(0)
   assert c.without_noise().compile_sampler().sample(1)[0][0]
  '''),
 dict(id="c13-high-p", property="C13",
  needs="parallel mechanisms one of which is more likely than one half",
  breaks="the odd-parity combination is computed with the complement of a likely mechanism",
  edits=[(S+"decoding.py", "            old_p = edge_data[\"error_probability\"]\n", "            old_p = edge_data[\"error_probability\"]\n            old_p = min(old_p, 1 - old_p)\n")],
  demo='''
   import stim, decoding
   g = decoding.detector_error_model_to_nx_graph(stim.DetectorErrorModel("error(0.75) D0 D1\\nerror(0.25) D0 D1"))
   assert abs(g.get_edge_data(0, 1)["error_probability"] - (0.75 * 0.75 + 0.25 * 0.25)) < 1e-12
  '''),
 dict(id="c09-coords", property="C09",
  needs="annotations with coordinates that have many decimals",
  breaks="coordinates of annotations are rounded",
  edits=[(S+"noise.py", "        args = op.gate_args_copy()\n", "        args = op.gate_args_copy()\n        if op.name in ANNOTATION_OPS:\n            args = [round(a, 3) for a in args]\n")],
  demo='''
   import stim
   from noise import NoiseModel
   c = stim.Circuit("QUBIT_COORDS(0.0625, 0.1) 0\\nR 0\\nTICK\\nM 0\\nDETECTOR(0.00390625) rec[-1]")
   assert NoiseModel.SD6(0).noisy_circuit(c) == c
  '''),
]
