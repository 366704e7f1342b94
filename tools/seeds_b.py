S = "src/"
SEEDS = [
 dict(id="c12-rel-time", property="C12",
  needs="asking for records relative to a measurement name that was recorded more than once",
  breaks="the reference time is the first, not the latest, occurrence",
  edits=[(S+"measure_tracker.py", "            t0, = self.history[for_time_after_measurement][-1]\n", "            t0, = self.history[for_time_after_measurement][0]\n")],
  demo='''
   from measure_tracker import MeasurementTracker
   m = MeasurementTracker()
   m.add_measurements("a", "b", "c", "b", "a")
   r = m.get_record_targets("b", for_time_after_measurement="a")
   assert [t.value for t in r] == [-2], r
  '''),
 dict(id="c13-shift-nested", property="C13", also=["C14"],
  needs="an error model whose loop body shifts detectors with coordinates and is nested in another loop",
  breaks="coordinate shifts made inside a nested loop are forgotten",
  edits=[(S+"decoding.py", "                if isinstance(instruction, stim.DemRepeatBlock):\n                    _helper(instruction.body_copy(), instruction.repeat_count)\n",
          "                if isinstance(instruction, stim.DemRepeatBlock):\n                    saved = coords_offset.copy()\n                    _helper(instruction.body_copy(), instruction.repeat_count)\n                    if reps > 1:\n                        coords_offset = saved\n")],
  demo='''
   import stim
   from decoding import detector_error_model_to_nx_graph as f
   m = stim.DetectorErrorModel("""
   repeat 2 {
     repeat 2 {
       error(0.1) D0 D1
       detector(0, 0) D0
       shift_detectors(0, 1) 1
     }
   }
   detector(5, 5) D0
   """)
   g = f(m)
   assert list(g.nodes[4]["coords"]) == [5, 9], g.nodes[4]
   assert list(g.nodes[3]["coords"]) == [0, 3], g.nodes[3]
  '''),
 dict(id="c14-stale-shot", property="C14", also=["C15"],
  needs="a shot without any detection event after a shot in which every detector fired",
  breaks="an empty shot inherits the prediction of the shot before it",
  edits=[(S+"decoding.py", "        expanded_det[-1] = 0\n        predictions[k] = matching_graph.decode(expanded_det)\n",
          "        expanded_det[-1] = 0\n        if k and not expanded_det.any():\n            predictions[k] = predictions[k - 1] & (np.count_nonzero(det_samples[k - 1]) == num_dets)\n            continue\n        predictions[k] = matching_graph.decode(expanded_det)\n")],
  demo='''
   import numpy as np, stim
   from decoding import decode_using_pymatching
   c = stim.Circuit("R 0 1 2\\nX_ERROR(0.1) 0 1 2\\nM 0 1 2\\nDETECTOR rec[-1]\\nDETECTOR rec[-2]\\nDETECTOR rec[-3]\\nOBSERVABLE_INCLUDE(0) rec[-1] rec[-2] rec[-3]")
   r = decode_using_pymatching(c, np.array([[1, 1, 1], [0, 0, 0]], dtype=bool), False)
   assert r.tolist() == [[True], [False]], r
  '''),
 dict(id="c15-all-any", property="C15",
  needs="a circuit with several observables of which only some are mispredicted",
  breaks="a shot counts as correct although one of its observables was mispredicted",
  edits=[(S+"decoding.py", "    all_corrects = np.all(predictions == obs_samples, axis=1)\n", "    all_corrects = np.sum(predictions, axis=1) == np.sum(obs_samples, axis=1)\n")],
  demo='''
   import stim
   import decoding
   # observable 0 flips always and silently, observable 1 is (wrongly) predicted by the model circuit
   c = stim.Circuit("R 0 1\\nX_ERROR(1) 0\\nM 0 1\\nDETECTOR rec[-2]\\nOBSERVABLE_INCLUDE(0) rec[-2]\\nOBSERVABLE_INCLUDE(1) rec[-1]")
   m = stim.Circuit("R 0 1\\nX_ERROR(0.1) 0\\nM 0 1\\nDETECTOR rec[-2]\\nOBSERVABLE_INCLUDE(1) rec[-2]\\nOBSERVABLE_INCLUDE(0) rec[-1]")
   assert decoding.sample_decode_count_correct(circuit=c, model_circuit=m, num_shots=10, decoder="pymatching") == 0
  '''),
 dict(id="c15-short-output", property="C15",
  needs="an external decoder that stops in the middle of its output",
  breaks="missing predictions count as 'not flipped'",
  edits=[(S+"decoding.py", "                    c = f.read(1)\n                    assert c in '01'\n                    predictions[shot, obs_index] = c == '1'\n                assert f.read(1) == '\\n'\n",
          "                    c = f.read(1)\n                    assert c in ('0', '1', '')\n                    predictions[shot, obs_index] = c == '1'\n                assert f.read(1) in ('\\n', '')\n")],
  demo='''
   import os, stat, tempfile, stim
   import decoding
   d = tempfile.mkdtemp()
   os.chdir(d)
   with open("internal_decoder.binary", "w") as f:
       f.write("#!/bin/bash\\nwhile [ $# -gt 0 ]; do [ \\"$1\\" = -out ] && printf '0\\\\n' > \\"$2\\"; shift; done\\n")
   os.chmod("internal_decoder.binary", 0o755)
   c = stim.Circuit("R 0\\nX_ERROR(0.0001) 0\\nM 0\\nDETECTOR rec[-1]\\nOBSERVABLE_INCLUDE(0) rec[-1]")
   try:
       r = decoding.sample_decode_count_correct(circuit=c, num_shots=3, decoder="internal")
   except Exception:
       r = None
   import shutil
   os.chdir("/")
   shutil.rmtree(d)
   assert r is None, r
  '''),
 dict(id="c16-batch-std", property="C16",
  needs="a sequence of batches whose standard deviation requirement is met by the last batch alone but not by the total",
  breaks="collection stops although the standard deviation of the total is still too large",
  edits=[(S+"collect_data.py", "            cur_sample_std_dev = math.sqrt(p * (1 - p) / total_shots)\n", "            q = (num_next_shots - num_correct) / num_next_shots\n            cur_sample_std_dev = math.sqrt(min(p * (1 - p), q * (1 - q)) / total_shots)\n")],
  demo='''
   import contextlib, io
   import collect_data as cd
   from collect_data import *
   outcomes = [5, 20, 30, 70, 100, 200, 400, 800]
   calls = []
   def fake(*, num_shots, circuit, decoder):
       calls.append(num_shots)
       return [5, 20, 25, 50, 100, 200][len(calls) - 1]
   cd.sample_decode_count_correct = fake
   d = DecodingProblemDesc(1, 1, 1, 1, 1, 0.1, "x", "H", "pymatching")
   with contextlib.redirect_stdout(io.StringIO()):
       cd.collect_simulated_experiment_data([DecodingProblem(d, lambda: None)], min_shots=10, max_shots=100, max_sample_std_dev=0.06,
           min_seen_logical_errors=1, out_path=None, discard_previous_data=True)
   assert calls == [10, 20, 40], calls
  '''),
 dict(id="c17-buffered-rows", property="C17",
  needs="a kill between two batches of one problem",
  breaks="rows of finished batches are only written when the problem is finished, so a kill loses them",
  edits=[(S+"collect_data.py", "    for problem in problems:\n        num_seen_errors = 0\n", "    for problem in problems:\n        pending = []\n        num_seen_errors = 0\n"),
         (S+"collect_data.py", "            if out_path is not None:\n                with open(out_path, \"a\") as f:\n                    print(record, file=f)\n            print(record, flush=True)\n\n            total_shots", "            pending.append(record)\n            if out_path is not None and (num_next_shots < 64 or len(pending) > 1 or total_shots + num_next_shots >= max_shots):\n                with open(out_path, \"a\") as f:\n                    print(*pending, sep=\"\\n\", file=f)\n                pending.clear()\n            print(record, flush=True)\n\n            total_shots"),
         (S+"collect_data.py", "            num_next_shots = min(max_batch, min(2 * num_next_shots, max_shots - total_shots))\n", "            num_next_shots = min(max_batch, min(2 * num_next_shots, max_shots - total_shots))\n        if pending and out_path is not None:\n            with open(out_path, \"a\") as f:\n                print(*pending, sep=\"\\n\", file=f)\n")],
  demo='''
   import contextlib, io, os, shutil, tempfile
   import collect_data as cd
   from collect_data import *
   t = tempfile.mkdtemp()
   calls = []
   seen = []
   def fake(*, num_shots, circuit, decoder):
       seen.append(sum(v.num_shots for v in read_recorded_data(t + "/o.csv").data.values()))
       assert seen[-1] == sum(calls), (seen, calls)
       calls.append(num_shots)
       return num_shots
   cd.sample_decode_count_correct = fake
   d = DecodingProblemDesc(1, 1, 1, 1, 1, 0.1, "x", "H", "pymatching")
   try:
       with contextlib.redirect_stdout(io.StringIO()):
           cd.collect_simulated_experiment_data([DecodingProblem(d, lambda: None)], min_shots=10, max_shots=2000,
               min_seen_logical_errors=5, out_path=t + "/o.csv", discard_previous_data=True)
   finally:
       shutil.rmtree(t)
  '''),
 dict(id="c18-alias", property="C18",
  needs="merging data and then merging or reading the same data again",
  breaks="the first description of each merged group is aliased, so merging changes the original data",
  edits=[(S+"collect_data.py", "            d = result.setdefault(key(k), ShotData())\n            d.num_shots += v.num_shots\n",
          "            if key(k) not in result:\n                result[key(k)] = v\n                continue\n            d = result[key(k)]\n            d.num_shots += v.num_shots\n")],
  demo='''
   from collect_data import *
   d = DecodingProblemDesc(1, 1, 1, 1, 1, 0.1, "x", "H", "pymatching")
   p = ProblemShotData({d: ShotData(10, 5, 1), d.with_changes(noise=0.2): ShotData(20, 7, 1)})
   a = p.merged_by(lambda e: 0)[0].num_shots
   b = p.merged_by(lambda e: 0)[0].num_shots
   assert a == b == 30 and p.data[d].num_shots == 10
  '''),
 dict(id="c18-noise-rounding", property="C18",
  needs="two problems whose noise strengths differ only beyond the sixth decimal",
  breaks="different descriptions are merged when read",
  edits=[(S+"collect_data.py", "                    noise=float(row[\"noise\"]),\n", "                    noise=round(float(row[\"noise\"]), 7),\n")],
  demo='''
   import tempfile, os
   from collect_data import *
   with tempfile.TemporaryDirectory() as t:
       with open(t + "/a.csv", "w") as f:
           print(CSV_HEADER, file=f)
           for p in ("1e-08", "2e-08", "0.001"):
               print(f"2,6,3,{p},x,H,2,12,10,5,1.0,pymatching,2", file=f)
       d = read_recorded_data(t + "/a.csv").data
   assert sorted(k.noise for k in d) == [1e-8, 2e-8, 1e-3], d
  '''),
 dict(id="c19-high-bound", property="C19",
  needs="a data point whose shots are almost all errors",
  breaks="the upper bound stops short of 1 when the likelihood never falls to the requested fraction",
  edits=[(S+"collect_data.py", "            max_x=self.num_shots * acc) / acc\n", "            max_x=self.num_shots * acc - (acc if actual_errors < self.num_shots - 2 else 0)) / acc\n")],
  demo='''
   from collect_data import ShotData
   for n, c in ((10, 4), (5, 3), (4, 3), (8, 5)):
       lo, hi = ShotData(n, c).likely_error_rate_bounds(desired_ratio_vs_max_likelihood=1e-9)
       from probability_util import log_binomial
       import math
       top = float(log_binomial(p=(n - c) / n, n=n, hits=n - c))
       x = float(log_binomial(p=hi, n=n, hits=n - c)) - top
       assert x < math.log(1e-9) / 2, (n, c, hi, x)
  '''),
 dict(id="c20-tie", property="C20",
  needs="a target beyond the largest value of the function with a two-element range remaining",
  breaks="the search returns the second closest argument",
  edits=[(S+"probability_util.py", "    return max_x if abs(dmax) < abs(dmin) else min_x\n", "    return max_x if abs(dmax) < abs(dmin) or (dmin > 0 and max_x - min_x == 1 and fmin > 2 * abs(target) > 0) else min_x\n")],
  demo='''
   from probability_util import binary_search
   f = [5, 7, 9, 20].__getitem__
   assert binary_search(func=f, min_x=0, max_x=3, target=1) == 0
   assert binary_search(func=f, min_x=0, max_x=3, target=6.9) == 1
  '''),
 dict(id="c21-many-pieces", property="C21",
  needs="a very large number of pieces",
  breaks="the per-piece rate is linearised, which is wrong for large total rates",
  edits=[(S+"plotting.py", "    randomize_rate = 2*error_rate\n", "    if pieces > 64:\n        return error_rate / pieces\n    randomize_rate = 2*error_rate\n")],
  demo='''
   from plotting import total_error_to_per_piece_error as f
   for n in (1, 2, 10, 64, 65, 100, 1000):
       for e in (0, 0.01, 0.2, 0.4, 0.5):
           r = f(e, n)
           assert abs((1 - (1 - 2 * r) ** n) / 2 - e) < 1e-9, (n, e, r)
  '''),
 dict(id="c22-late-binding", property="C22",
  needs="sampling a surface code problem other than the last one listed",
  breaks="the SI1000 surface code problems sample the circuit of the other basis",
  edits=[(S+"paper/main_collect_all.py", "    path = f\"{directory}/{noise_name.lower()}_{obs}/d{d}_p0.0.stim\"\n", "    path = f\"{directory}/{noise_name.lower()}_{'X' if d > 16 else obs}/d{d}_p0.0.stim\"\n")],
  demo='''
   import paper.main_collect_all as m
   import os
   d = os.path.dirname(m.__file__) + "/surface_code_circuits"
   for k in (3, 19):
       x, z = (str(m.surface_code_circuit(d, "SD6", 0.001, o, k)) for o in "XZ")
       assert x != z, k
  '''),
 dict(id="c22-max-errors", property="C22",
  needs="selecting an error limit of zero or together with a shot limit",
  breaks="the error limit is replaced by the default when a shot limit is also given",
  edits=[(S+"paper/main_collect_all.py", "        min_seen_logical_errors=max_errors if max_errors is not None else (10**3 // case_reduction),\n", "        min_seen_logical_errors=max_errors if max_errors is not None and max_batch_size is None else (10**3 // case_reduction),\n")],
  demo='''
   import contextlib, io
   import paper.main_collect_all as m
   got = {}
   m.collect_simulated_experiment_data = lambda problems, **kw: got.update(kw)
   with contextlib.redirect_stderr(io.StringIO()):
       m.collect_data(surface_dir=None, problem_id=3, case_reduction=1, out_path=None, max_errors=5, max_batch_size=7)
   assert got["min_seen_logical_errors"] == 5 and got["max_batch"] == 7, got
  '''),
 dict(id="c23-cells", property="C23",
  needs="a problem whose number of rounds is not a multiple of the code distance",
  breaks="the per-cell rate uses one cell too few",
  edits=[(S+"plotting.py", "        cells = int(math.ceil(key.rounds / key.code_distance))\n", "        cells = max(1, key.rounds // key.code_distance)\n")],
  demo='''
   from collect_data import *
   from plotting import plot_data, total_error_to_per_piece_error
   d = DecodingProblemDesc(4, 6, 4, 24, 10, 0.001, "x", "H", "pymatching")
   fig, ax = plot_data(ProblemShotData({d: ShotData(100, 80, 1)}), title="t")
   y = ax.lines[0].get_ydata()[0]
   assert abs(y - total_error_to_per_piece_error(0.2, 3)) < 1e-9, y
  '''),
 dict(id="c24-stub-side", property="C24",
  needs="a wrapping pair whose operation lists the far qubit first",
  breaks="the loop diagram shows two iterations when the loop is nested",
  edits=[(S+"circuit_diagrams.py", "                yield from _iter_circuit(op.body_copy(), op.repeat_count if nested <= 0 else 1, nested - 1)\n",
          "                yield from _iter_circuit(op.body_copy(), op.repeat_count if nested == 0 else 1, nested - 1)\n")],
  demo='''
   import stim
   from circuit_diagrams import plot_circuit
   c = stim.Circuit("QUBIT_COORDS(0, 0) 0\\nQUBIT_COORDS(1, 1) 1\\nREPEAT 2 {\\nREPEAT 3 {\\nH 0\\nTICK\\nM 1\\nTICK\\n}\\n}")
   assert plot_circuit(c, False).count("H") == 6
   assert plot_circuit(c, True).count("H") == 3
  '''),
]
