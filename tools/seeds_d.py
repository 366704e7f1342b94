S = "src/"
SEEDS = [
 dict(id="c08-return-input", property="C08", also=["C09"],
  needs="a zero-strength noise model and a caller that goes on building the circuit it got back",
  breaks="adding no noise hands back the caller's own circuit object, so extending the result changes the input",
  edits=[(S+"noise.py", "        result = stim.Circuit()\n        if ancilla is None:", "        if not (self.idle or self.measure_reset_idle or self.any_clifford_1 or self.any_clifford_2 or any(self.noisy_gates.values())) and not any(\n                isinstance(op, stim.CircuitRepeatBlock) or op.name not in {\"M\", \"R\", \"TICK\", \"MPP\"} for op in circuit) and not self.use_correlated_parity_measurement_errors:\n            return circuit\n        result = stim.Circuit()\n        if ancilla is None:")],
  demo='''
   import stim
   from noise import NoiseModel
   for m in (NoiseModel.SD6(0), NoiseModel.EM3_v1(0)):
       c = stim.Circuit("R 0 1\\nTICK\\nM 0 1")
       d = m.noisy_circuit(c)
       d.append("TICK", [])
       d.append("R", [5])
       assert c == stim.Circuit("R 0 1\\nTICK\\nM 0 1"), c
  '''),
 dict(id="c08-mutable-circuit", property="C08",
  needs="two requests for the circuit of equal layouts where the first caller modifies the circuit it got",
  breaks="circuits are cached per layout and handed out by reference",
  edits=[(S+"honeycomb_layout.py", "    def make_circuit(self) -> stim.Circuit:\n", "    @functools.lru_cache(maxsize=8)\n    def make_circuit(self) -> stim.Circuit:\n")],
  demo='''
   from honeycomb_layout import HoneycombLayout
   def lay(): return HoneycombLayout(data_width=2, data_height=6, sub_rounds=3, style="SD6", obs="H", noise=0.01)
   a = lay().make_circuit()
   want = str(a)
   a.append("TICK", [])
   a.clear()
   assert str(lay().make_circuit()) == want
  '''),
 dict(id="c07-legend-g", property="C07",
  needs="a noise strength with more than six significant digits",
  breaks="the legend label shows a rounded noise strength",
  edits=[(S+"honeycomb_layout.py", "noise {self.noise!r}", "noise {self.noise:g}")],
  demo='''
   from honeycomb_layout import HoneycombLayout
   a = HoneycombLayout(data_width=2, data_height=6, sub_rounds=3, style="SD6", obs="H", noise=0.00123456789)
   assert "0.00123456789" in a.legend_label(), a.legend_label()
  '''),
 dict(id="c10-busy-mr", property="C10",
  needs="an SI1000 step that measures some qubits while others undergo a gate",
  breaks="qubits busy with a gate escape the measurement/reset idle channel",
  edits=[(S+"noise.py", "            idle_qubits = sorted(qs - measured_or_reset_qubits)\n", "            idle_qubits = sorted(qs - measured_or_reset_qubits - used_qubits)\n")],
  demo='''
   import stim
   from noise import NoiseModel
   c = NoiseModel.SI1000(0.01).noisy_circuit(stim.Circuit("M 0\\nH 1\\nTICK\\nH 0 1 2"))
   idle = [i for i in c if i.name == "DEPOLARIZE1" and i.gate_args_copy() == [0.02]]
   assert [t.value for t in idle[0].targets_copy()] == [2] or [t.value for t in idle[0].targets_copy()] == [1, 2]
   # the model as documented: every qubit not measured or reset in the step
   assert [t.value for t in idle[0].targets_copy()] == [1, 2], c
  '''),
 dict(id="c12-deep-history", property="C12",
  needs="more than 64 occurrences of one name and a reference to one of the oldest",
  breaks="a long history of a name is trimmed, so old occurrences are lost",
  edits=[(S+"measure_tracker.py", "            self.history[key].append(frozenset([self.t]))\n", "            self.history[key].append(frozenset([self.t]))\n            if len(self.history[key]) > 64:\n                del self.history[key][:32]\n")],
  demo='''
   from measure_tracker import MeasurementTracker, Prev
   t = MeasurementTracker()
   t.add_measurements(*["a"] * 70)
   assert t.get_record_targets(Prev("a", 60))[0].value == -61
  '''),
 dict(id="c13-dims", property="C13",
  needs="detector coordinates with more than eight dimensions and a coordinate shift of that many dimensions",
  breaks="shifts beyond the eighth dimension are lost",
  edits=[(S+"decoding.py", "                        coords_offset[:len(a)] += a\n", "                        coords_offset[:min(len(a), 8)] += a[:8]\n")],
  demo='''
   import stim, decoding
   m = stim.DetectorErrorModel("error(0.1) D0\\nshift_detectors(1, 2, 3, 4, 5, 6, 7, 8, 9, 10) 0\\ndetector(0, 0, 0, 0, 0, 0, 0, 0, 0, 0) D0")
   g = decoding.detector_error_model_to_nx_graph(m)
   assert list(g.nodes[0]["coords"]) == [1, 2, 3, 4, 5, 6, 7, 8, 9, 10], list(g.nodes[0]["coords"])
  '''),
 dict(id="c13-obs-order", property="C13", also=["C14"],
  needs="an error whose observables repeat (cancel) or two mechanisms on the same detectors listing the same observables in another order",
  breaks="mechanisms that list the same observables in another order are treated as conflicting",
  edits=[(S+"decoding.py", "            if set(old_frame_changes) != set(frame_changes):", "            if old_frame_changes != frame_changes:")],
  demo='''
   import stim, decoding
   m = stim.DetectorErrorModel("error(0.1) D0 D1 L0 L1\\nerror(0.1) D0 D1 L1 L0")
   g = decoding.detector_error_model_to_nx_graph(m)
   assert abs(g.get_edge_data(0, 1)["error_probability"] - 0.18) < 1e-9
  '''),
 dict(id="c14-spandrel", property="C14",
  needs="disconnected parts of the graph and explanations of total weight above a few hundred",
  breaks="long chains of very unlikely mechanisms are by-passed through the connectivity links",
  edits=[(S+"decoding.py", "        g.add_edge(k, num_detectors + 1, weight=9999999999)\n    g.add_edge(num_detectors, num_detectors + 1, weight=9999999999,", "        g.add_edge(k, num_detectors + 1, weight=99)\n    g.add_edge(num_detectors, num_detectors + 1, weight=99,")],
  demo='''
   import numpy as np, stim, decoding
   n = 40
   m = stim.DetectorErrorModel("\\n".join(["error(1e-9) D0 L0"] + [f"error(1e-9) D{k} D{k+1} L0" for k in range(n)]))
   g = decoding.detector_error_model_to_pymatching_graph(m)
   d = np.zeros(n + 2, dtype=np.uint8)
   d[n] = 1
   assert list(g.decode(d)) == [(n + 1) % 2], g.decode(d)
   d[n] = 0; d[0] = d[30] = 1
   d[30] = 0; d[31] = 1
   assert list(g.decode(d)) == [1], g.decode(d)
  '''),
 dict(id="c15-trailing", property="C15",
  needs="an external decoder that prints more digits per line than there are observables",
  breaks="extra digits on a prediction line are accepted silently",
  edits=[(S+"decoding.py", "                assert f.read(1) == '\\n'\n", "                assert f.readline().endswith('\\n')\n")],
  demo='''
   import os, pathlib, stim, sys, tempfile
   import decoding
   with tempfile.TemporaryDirectory() as d:
       os.chdir(d)
       p = pathlib.Path("internal_decoder.binary")
       p.write_text('#!/bin/sh\\nwhile [ $# -gt 0 ]; do case "$1" in -out) o=$2;; esac; shift; done\\nprintf "00\\\\n00\\\\n" > "$o"\\n')
       p.chmod(0o755)
       c = stim.Circuit("X_ERROR(0.1) 0\\nM 0\\nDETECTOR rec[-1]\\nOBSERVABLE_INCLUDE(0) rec[-1]")
       try:
           r = decoding.sample_decode_count_correct(circuit=c, num_shots=2, decoder="internal")
       except Exception:
           sys.exit(0)
       sys.exit(1)
  '''),
 dict(id="c15-blank-events", property="C15", also=[],
  needs="more than 512 detectors, with events on later ones",
  breaks="events of detectors past the first 512 are not given to the external decoder",
  edits=[(S+"decoding.py", "                for k in np.nonzero(det_sample)[0]:\n", "                for k in np.nonzero(det_sample[:512])[0]:\n")],
  demo='''
   import os, pathlib, stim, sys, tempfile
   import decoding
   with tempfile.TemporaryDirectory() as d:
       os.chdir(d)
       p = pathlib.Path("internal_decoder.binary")
       p.write_text('#!/bin/sh\\nwhile [ $# -gt 0 ]; do case "$1" in -dets_fname) cp "$2" copy;; -out) o=$2;; esac; shift; done\\nprintf "0\\\\n" > "$o"\\n')
       p.chmod(0o755)
       n = 600
       c = stim.Circuit("X_ERROR(1) 0\\nM 0\\n" + "DETECTOR rec[-1]\\n" * n + "OBSERVABLE_INCLUDE(0) rec[-1]")
       m = stim.Circuit("M 0\\n" + "DETECTOR rec[-1]\\n" * n + "OBSERVABLE_INCLUDE(0) rec[-1]")
       decoding.sample_decode_count_correct(circuit=c, model_circuit=m, num_shots=1, decoder="internal")
       assert open("copy").read().split() == ["shot"] + [f"D{k}" for k in range(n)], open("copy").read()[-80:]
  '''),
 dict(id="c16-stddev", property="C16",
  needs="a deviation limit that lies between the deviation with n and with n-1 in the denominator",
  breaks="sampling stops one batch late near the deviation limit",
  edits=[(S+"collect_data.py", "            cur_sample_std_dev = math.sqrt(p * (1 - p) / total_shots)", "            cur_sample_std_dev = math.sqrt(p * (1 - p) / max(total_shots - 1, 1))")],
  demo='''
   import contextlib, io, stim
   import collect_data as cd
   calls = []
   cd.sample_decode_count_correct = lambda *, num_shots, circuit, decoder: calls.append(num_shots) or num_shots // 2 + (num_shots == 100) * 10
   with contextlib.redirect_stdout(io.StringIO()):
       cd.collect_simulated_experiment_data([cd.DecodingProblem(cd.DecodingProblemDesc(2, 6, 2, 30, 1, 0.1, "SD6", "H", "pymatching"), stim.Circuit)],
           min_shots=100, max_shots=10000, max_sample_std_dev=0.04900, min_seen_logical_errors=1, out_path=None, discard_previous_data=False)
   assert calls == [100], calls
  '''),
 dict(id="c18-read-cache", property="C18",
  needs="a file that is read, extended and read again in one process, with the path given both times",
  breaks="the file's old contents are used the second time when its time stamp has the same whole second",
  edits=[(S+"collect_data.py", "    result = ProblemShotData({})\n    for path in paths:\n        with open(path, \"r\") as f:\n            for row in csv.DictReader(f):\n", "    result = ProblemShotData({})\n    for path in paths:\n        for row in _rows_of(str(path), int(os.stat(path).st_mtime)):\n            if True:\n"),
     (S+"collect_data.py", "def read_recorded_data(*paths", "@functools.lru_cache(maxsize=64)\ndef _rows_of(path: str, modified: int) -> List[Dict[str, str]]:\n    with open(path, \"r\") as f:\n        return list(csv.DictReader(f))\n\n\ndef read_recorded_data(*paths"),
     (S+"collect_data.py", "import csv\n", "import csv\nimport functools\nimport os\n")],
  demo='''
   import os, tempfile
   import collect_data as cd
   with tempfile.TemporaryDirectory() as d:
       p = d + "/x.csv"
       row = "2,6,1,0.1,SD6,H,2,30,10,9,0.5,pymatching,2\\n"
       open(p, "w").write(cd.CSV_HEADER + "\\n" + row)
       os.utime(p, (1e9, 1e9))
       assert sum(v.num_shots for v in cd.read_recorded_data(p).data.values()) == 10
       open(p, "a").write(row)
       os.utime(p, (1e9, 1e9))
       assert sum(v.num_shots for v in cd.read_recorded_data(p).data.values()) == 20
  '''),
 dict(id="c09-empty-det", property="C09",
  needs="a circuit with a detector or observable annotation that names no measurement",
  breaks="annotations without targets are dropped, so later detectors are renumbered",
  edits=[(S+"noise.py", "        mid.append_operation(op.name, targets, args)\n", "        if targets or op.name in [\"SHIFT_COORDS\", \"TICK\"]:\n            mid.append_operation(op.name, targets, args)\n")],
  demo='''
   import stim
   from noise import NoiseModel
   c = NoiseModel.SD6(0.1).noisy_circuit(stim.Circuit("M 0\\nDETECTOR(1, 2)\\nDETECTOR rec[-1]"))
   assert c.num_detectors == 2
  '''),
 dict(id="c22-clip-errors", property="C22",
  needs="an explicit error limit above ten thousand",
  breaks="large error limits are clipped",
  edits=[(S+"paper/main_collect_all.py", "max_errors if max_errors is not None else", "min(max_errors, 10**4) if max_errors is not None else")],
  demo='''
   import contextlib, io, sys
   sys.path.append("src/paper")
   import main_collect_all as m
   got = {}
   m.collect_simulated_experiment_data = lambda problems, **kw: got.update(kw)
   with contextlib.redirect_stderr(io.StringIO()):
       m.collect_data(surface_dir="-", problem_id=0, case_reduction=1, out_path=None, max_errors=50000)
   assert got["min_seen_logical_errors"] == 50000, got
  '''),
 dict(id="c22-surface-cache", property="C22",
  needs="surface code problems from two directories used in one process",
  breaks="the circuit of the first directory is used for the second one too",
  edits=[(S+"paper/main_collect_all.py", "    path = f\"{directory}/{noise_name.lower()}_{obs}/d{d}_p0.0.stim\"\n    with open(path) as f:\n        circuit = stim.Circuit(f.read())\n", "    path = f\"{directory}/{noise_name.lower()}_{obs}/d{d}_p0.0.stim\"\n    key = (noise_name, obs, d)\n    if key not in _IDEAL_CIRCUITS:\n        with open(path) as f:\n            _IDEAL_CIRCUITS[key] = stim.Circuit(f.read())\n    circuit = _IDEAL_CIRCUITS[key]\n"),
    (S+"paper/main_collect_all.py", "def surface_code_circuit(", "_IDEAL_CIRCUITS = {}\n\n\ndef surface_code_circuit(")],
  demo='''
   import os, sys, tempfile
   sys.path.append("src/paper")
   import main_collect_all as m
   with tempfile.TemporaryDirectory() as d:
       for k, q in (("a", 1), ("b", 2)):
           os.makedirs(f"{d}/{k}/sd6_X")
           with open(f"{d}/{k}/sd6_X/d3_p0.0.stim", "w") as f:
               f.write(f"M {q}\\n")
       x = m.surface_code_circuit(d + "/a", "SD6", 0.1, "X", 3)
       y = m.surface_code_circuit(d + "/b", "SD6", 0.1, "X", 3)
       assert x != y
  '''),
 dict(id="c23-tiny-rate", property="C23",
  needs="a data point with one error in ten million shots",
  breaks="very low but non-zero error rates are left off the curve",
  edits=[(S+"plotting.py", "            if shot_data.num_correct < shot_data.num_shots:\n", "            if shot_data.logical_error_rate > 1e-6:\n")],
  demo='''
   import collect_data as cd, plotting
   k = cd.DecodingProblemDesc(4, 6, 4, 60, 12, 0.001, "honeycomb_SD6", "H", "internal")
   fig, ax = plotting.plot_data(cd.ProblemShotData({k: cd.ShotData(10**7, 10**7 - 3, 1.0)}), title="", focus_on_threshold=False)
   assert list(ax.get_lines()[0].get_xdata()) == [0.001]
  '''),
 dict(id="c23-sparse-distance", property="C23",
  needs="a distance where only one observable was sampled, while at another noise level both were",
  breaks="a missing observable is taken as error free",
  edits=[(S+"paper/main_render_lambda_figure.py", "                p_either = 1 - (1 - p1) * (1 - p2)\n", "                p_either = 1 - (1 - p1) * (1 - p2) if d1 is not None and d2 is not None else max(p1, p2)\n")],
  demo='''
   import contextlib, io, sys
   sys.path.append("src/paper")
   import collect_data as cd
   import main_render_lambda_figure as m
   k = cd.DecodingProblemDesc(4, 6, 4, 60, 12, 0.001, "honeycomb_SD6", "H", "internal")
   with contextlib.redirect_stdout(io.StringIO()):
       g = m.LambdaGroup.groups_from_data(cd.ProblemShotData({k: cd.ShotData(1000, 900, 1.0)}))[0.001]
       xs, ys = g.combo_data
   p = (1 - (1 - 0.2) ** (1 / 3)) / 2
   assert abs(ys[0] - (1 - (1 - p) ** 2)) < 1e-9, ys
  '''),
 dict(id="c24-empty-step", property="C24",
  needs="a circuit with a time step in which nothing happens",
  breaks="empty time steps vanish from the diagram",
  edits=[(S+"circuit_diagrams.py", "            levels.append(cur_level)\n            connectors.append(cur_connectors)\n            cur_level = {}\n", "            if cur_level or not levels:\n                levels.append(cur_level)\n                connectors.append(cur_connectors)\n            cur_level = {}\n")],
  demo='''
   import stim
   from circuit_diagrams import plot_circuit
   a = plot_circuit(stim.Circuit("QUBIT_COORDS(0, 0) 0\\nR 0\\nTICK\\nTICK\\nM 0"), only_repeat_block=False)
   assert sum(ch in "RM\\\\" for ch in a) == 3, a
  '''),
 dict(id="c24-mpp-cross", property="C24",
  needs="a pair measurement whose two factors have different bases",
  breaks="the first factor's basis is drawn on both qubits",
  edits=[(S+"circuit_diagrams.py", "                    if t.is_x_target:\n                        cur_level[q] = 'x'\n                    elif t.is_y_target:\n", "                    if t.is_x_target or (g[0].is_x_target and t.is_z_target):\n                        cur_level[q] = 'x'\n                    elif t.is_y_target:\n")],
  demo='''
   import stim
   from circuit_diagrams import plot_circuit
   a = plot_circuit(stim.Circuit("QUBIT_COORDS(0, 0) 0\\nQUBIT_COORDS(1, 0) 1\\nMPP X0*Z1"), only_repeat_block=False)
   assert a.count("x") == 1 and a.count("z") == 1, a
  '''),
]
