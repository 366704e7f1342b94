S = "src/"
SEEDS = [
 dict(id="c25-em3-cap", property="C25",
  needs="EM3 or EM3_v2 with more than three thousand sub-rounds",
  breaks="only the first thousand cycles are expressed by the loop, the rest is written out",
  edits=[(S+"honeycomb_circuit.py", "        if k == 7:\n            iterations = (n - k + 3) // 3\n", "        if k == 7:\n            iterations = min((n - k + 3) // 3, 1000)\n")],
  demo='''
   from honeycomb_layout import HoneycombLayout
   def size(n): return len(str(HoneycombLayout(data_width=2, data_height=6, sub_rounds=n, style="EM3", obs="V", noise=0.001).make_circuit()))
   assert size(9000) < 2 * size(300), (size(9000), size(300))
  '''),
 dict(id="c02-pc3-cap", property="C02", also=["C25"],
  needs="PC3 with more than about four thousand sub-rounds",
  breaks="the count of sub-rounds covered by the loop saturates, so the circuit runs more sub-rounds than requested",
  edits=[(S+"honeycomb_circuit.py", "        if k == 12:\n            iterations = (n - k + 3) // 3\n            if iterations > 1:\n                moments[-3:] = [(moments[-3] + moments[-2] + moments[-1]) * iterations]\n                k += iterations * 3 - 3\n",
          "        if k == 12:\n            iterations = (n - k + 3) // 3\n            if iterations > 1:\n                moments[-3:] = [(moments[-3] + moments[-2] + moments[-1]) * iterations]\n                k += min(iterations, 0x555) * 3 - 3\n")],
  demo='''
   from honeycomb_layout import HoneycombLayout
   for n in (4101, 4128):
       c = HoneycombLayout(data_width=2, data_height=6, sub_rounds=n, style="PC3", obs="V", noise=0).make_circuit()
       assert c.num_measurements == n * 6 + 12, (n, c.num_measurements)
  '''),
 dict(id="c04-wide-coords", property="C04",
  needs="a lattice more than a hundred coordinate units wide",
  breaks="the final detectors of the hexagons beyond x = 100 carry a wrapped coordinate",
  edits=[(S+"honeycomb_circuit.py", "    # Synthesize stabilizers from the six data measurements around hexes of the same basis.\n    for h in lay.round_hex_centers(\"XYZ\".index(obs_basis)):\n        mtrack.add_group(*lay.qubits_around_hex(h), group_key=h)\n        mtrack.append_detector(\n            h, Prev(h),\n            out_circuit=result,\n            coords=[h.real, h.imag, 0],\n",
          "    # Synthesize stabilizers from the six data measurements around hexes of the same basis.\n    for h in lay.round_hex_centers(\"XYZ\".index(obs_basis)):\n        mtrack.add_group(*lay.qubits_around_hex(h), group_key=h)\n        mtrack.append_detector(\n            h, Prev(h),\n            out_circuit=result,\n            coords=[h.real % 100, h.imag, 0],\n")],
  demo='''
   from honeycomb_layout import HoneycombLayout
   lay = HoneycombLayout(data_width=60, data_height=6, sub_rounds=3, style="SD6", obs="V", noise=0)
   c = lay.make_circuit()
   hexes = {(h.real, h.imag) for r in range(3) for h in lay.round_hex_centers(r)} | {(e.center.real, e.center.imag) for e in lay.all_edges}
   late = [v for v in c.get_detector_coordinates().values() if v[2] == 3]
   assert len({tuple(v) for v in late}) == len(late) and all((x, y) in hexes for x, y, _ in late)
  '''),
 dict(id="c12-shared", property="C12", also=["C08"],
  needs="two trackers in one process",
  breaks="all trackers share one history, so names of another experiment are known",
  edits=[(S+"measure_tracker.py", "    def __init__(self):\n        self.history: DefaultDict[Any, List[Optional[FrozenSet[int]]]] = collections.defaultdict(list)\n",
          "    def __init__(self, history: DefaultDict[Any, List[Optional[FrozenSet[int]]]] = collections.defaultdict(list)):\n        self.history = history\n")],
  demo='''
   from measure_tracker import MeasurementTracker, Prev
   a = MeasurementTracker(); a.add_measurements("v")
   b = MeasurementTracker(); b.add_measurements("v")
   try:
       r = b.get_record_targets("v", Prev("v"))
   except Exception:
       pass
   else:
       raise AssertionError(r)
  '''),
 dict(id="c14-single-event", property="C14", also=["C06"],
  needs="a shot with a single detection event whose most likely explanation flips an observable",
  breaks="shots with a lone detection event are treated as measurement noise and predict nothing",
  edits=[(S+"decoding.py", "        expanded_det[-1] = 0\n        predictions[k]", "        expanded_det[-1] = 0\n        if num_dets > 2 and np.count_nonzero(expanded_det) < 2:\n            continue\n        predictions[k]")],
  demo='''
   import numpy as np, stim
   from decoding import decode_using_pymatching
   c = stim.Circuit("X_ERROR(0.1) 0 1 2\\nM 0 1 2\\nDETECTOR rec[-1]\\nDETECTOR rec[-2]\\nDETECTOR rec[-3]\\nOBSERVABLE_INCLUDE(0) rec[-3]")
   p = decode_using_pymatching(c, np.array([[0, 0, 1], [0, 1, 0], [1, 1, 1]], dtype=bool), False)
   assert p[:, 0].tolist() == [True, False, True], p
  '''),
 dict(id="c14-weight-clip", property="C14", also=["C13"],
  needs="mechanisms less likely than one in a million beside likelier ones",
  breaks="weights are clipped, so an explanation by two very unlikely mechanisms can win over three likelier ones",
  edits=[(S+"decoding.py", "        g.add_edge(*dets, weight=math.log((1 - p) / p), qubit_id=frame_changes, error_probability=p)\n",
          "        g.add_edge(*dets, weight=min(math.log((1 - p) / p), 14.0), qubit_id=frame_changes, error_probability=p)\n")],
  demo='''
   import numpy as np, stim
   from decoding import detector_error_model_to_pymatching_graph
   m = stim.DetectorErrorModel("error(1e-12) D0 D3 L0\\nerror(0.0005) D0 D1\\nerror(0.0005) D1 D2\\nerror(0.0005) D2 D3")
   g = detector_error_model_to_pymatching_graph(m)
   assert not g.decode(np.array([1, 0, 0, 1, 0], dtype=np.uint8))[0]
  '''),
 dict(id="c15-model-external", property="C15",
  needs="the external decoder with a separate decoding-model circuit",
  breaks="the external decoder is given the error model of the sampled circuit instead of the decoding-model circuit",
  edits=[(S+"decoding.py", "        circuit=model_circuit,\n", "        circuit=circuit if use_internal_decoder else model_circuit,\n")],
  demo='''
   import os, stat, sys, tempfile, stim
   src = os.getcwd() + "/src"
   d = tempfile.mkdtemp()
   try:
       os.chdir(d)
       with open("internal_decoder.binary", "w") as f:
           f.write("#!/usr/bin/env python3\\nimport sys\\na = sys.argv\\nm = open(a[a.index('-dem_fname') + 1]).read()\\nopen('model.txt', 'w').write(m)\\n"
                   "n = len(open(a[a.index('-dets_fname') + 1]).readlines())\\nopen(a[a.index('-out') + 1], 'w').write('0\\\\n' * n)\\n")
       os.chmod("internal_decoder.binary", 0o755)
       from decoding import sample_decode_count_correct
       t = "X_ERROR(%s) 0\\nM 0\\nDETECTOR rec[-1]\\nOBSERVABLE_INCLUDE(0) rec[-1]"
       sample_decode_count_correct(circuit=stim.Circuit(t % 0.25), model_circuit=stim.Circuit(t % 0.125), num_shots=5, decoder="internal")
       m = open("model.txt").read()
       assert "error(0.125)" in m and "0.25" not in m, m
   finally:
       import shutil
       shutil.rmtree(d)
  '''),
 dict(id="c16-threshold-eq", property="C16",
  needs="an error rate of exactly 48 percent",
  breaks="collection goes on although the rate is exactly at the threshold",
  edits=[(S+"collect_data.py", "                if num_seen_errors >= total_shots * 0.48 and num_seen_errors >= 10:", "                if num_seen_errors > total_shots * 0.48 and num_seen_errors >= 10:")],
  demo='''
   import contextlib, io, stim
   import collect_data as c
   batches = []
   def fake(*, circuit, num_shots, decoder, model_circuit=None):
       batches.append(num_shots)
       return num_shots - num_shots * 12 // 25
   c.sample_decode_count_correct = fake
   desc = c.DecodingProblemDesc(4, 6, 4, 60, 12, 0.001, "s", "H", "pymatching")
   with contextlib.redirect_stdout(io.StringIO()):
       c.collect_simulated_experiment_data([c.DecodingProblem(desc, lambda: stim.Circuit())], min_shots=25, max_shots=10**6, max_batch=25,
           min_seen_logical_errors=10**5, out_path=None, discard_previous_data=True)
   assert batches == [25], batches[:5]
  '''),
 dict(id="c16-second-problem", property="C16",
  needs="a problem collected in many batches before another one",
  breaks="the minimum number of shots of later problems grows with the batches of earlier ones",
  edits=[(S+"collect_data.py", "            num_next_shots = min(max_batch, min(2 * num_next_shots, max_shots - total_shots))\n", "            num_next_shots = min(max_batch, min(2 * num_next_shots, max_shots - total_shots))\n            min_shots = max(min_shots, num_next_shots // 4)\n")],
  demo='''
   import contextlib, io, stim
   import collect_data as c
   batches = []
   def fake(*, circuit, num_shots, decoder, model_circuit=None):
       batches.append(num_shots)
       return num_shots
   c.sample_decode_count_correct = fake
   desc = lambda p: c.DecodingProblemDesc(4, 6, 4, 60, 12, p, "s", "H", "pymatching")
   with contextlib.redirect_stdout(io.StringIO()):
       c.collect_simulated_experiment_data([c.DecodingProblem(desc(p), lambda: stim.Circuit()) for p in (0.1, 0.2)], min_shots=10, max_shots=1000,
           min_seen_logical_errors=5, out_path=None, discard_previous_data=True)
   assert batches.count(10) == 2, batches
  '''),
 dict(id="c17-no-flush", property="C17",
  needs="output sent through a pipe and a kill during a later batch",
  breaks="rows of finished batches stay in the buffer of standard output and are lost when the process is killed",
  edits=[(S+"collect_data.py", "                with open(out_path, \"a\") as f:\n                    print(record, file=f)\n            print(record, flush=True)\n\n            total_shots", "                with open(out_path, \"a\") as f:\n                    print(record, file=f)\n            print(record, flush=out_path is not None)\n\n            total_shots")],
  demo='''
   import os, subprocess, sys
   code = """
   import os, signal, stim
   import collect_data as c
   n = 0
   def fake(*, circuit, num_shots, decoder, model_circuit=None):
       global n
       n += 1
       if n == 3:
           os.kill(os.getpid(), signal.SIGKILL)
       return num_shots
   c.sample_decode_count_correct = fake
   desc = c.DecodingProblemDesc(4, 6, 4, 60, 12, 0.1, "s", "H", "pymatching")
   c.collect_simulated_experiment_data([c.DecodingProblem(desc, lambda: stim.Circuit())], min_shots=10, max_shots=1000,
       min_seen_logical_errors=5, out_path=None, discard_previous_data=True)
   """
   import textwrap
   r = subprocess.run([sys.executable, "-c", textwrap.dedent(code)], stdout=subprocess.PIPE, text=True, env={k: v for k, v in os.environ.items() if k != "PYTHONUNBUFFERED"})
   assert len(r.stdout.splitlines()) == 3, r.stdout
  '''),
 dict(id="c19-coarse", property="C19",
  needs="bounds of a data point with more than a hundred million shots",
  breaks="the search for the bounds becomes ten times coarser",
  edits=[(S+"collect_data.py", "        acc = 100\n", "        acc = 100 if self.num_shots < 10**7 else 10\n")],
  demo='''
   from collect_data import ShotData
   from probability_util import log_binomial
   import math
   n, e = 10**7, 3
   lo, hi = ShotData(num_shots=n, num_correct=n - e).likely_error_rate_bounds(desired_ratio_vs_max_likelihood=1e-3)
   top = float(log_binomial(p=e / n, n=n, hits=e)) + math.log(1e-3)
   f = lambda x: float(log_binomial(p=x / n, n=n, hits=e)) - top
   assert f(hi * n - 0.011) >= 0 >= f(hi * n + 0.011), hi * n
   assert f(lo * n - 0.011) <= 0 <= f(lo * n + 0.011), lo * n
  '''),
 dict(id="c20-int-float", property="C20",
  needs="a search over more than 2^53 arguments",
  breaks="the middle of the range is computed in floating point, so the search misses the closest argument",
  edits=[(S+"probability_util.py", "    while max_x > min_x + 1:\n        med_x = (min_x + max_x) // 2\n", "    while max_x > min_x + 1:\n        med_x = int(min_x + (max_x - min_x) / 2)\n        if not min_x < med_x < max_x:\n            break\n")],
  demo='''
   from probability_util import binary_search
   assert binary_search(func=lambda x: x, min_x=0, max_x=10**18, target=10**17 + 1) == 10**17 + 1
  '''),
 dict(id="c22-truncate", property="C22",
  needs="a run of the whole benchmark on a file that already holds data",
  breaks="running all problems discards the data recorded earlier",
  edits=[(S+"paper/main_collect_all.py", "        discard_previous_data=False,\n        min_shots=25,\n", "        discard_previous_data=problem_id is None,\n        min_shots=25,\n")],
  demo='''
   import contextlib, io, os, sys, tempfile, shutil
   sys.path.insert(0, "src/paper")
   import collect_data as c
   class Stop(BaseException): pass
   def fake(**kw): raise Stop()
   c.sample_decode_count_correct = fake
   import main_collect_all as m
   d = tempfile.mkdtemp()
   try:
       p = d + "/out.csv"
       row = "4,6,12,0.001,honeycomb_SD6,H,4,60,10,9,0.5,internal,2\\n"
       open(p, "w").write(c.CSV_HEADER + "\\n" + row)
       with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
           try:
               m.collect_data(surface_dir=None, problem_id=None, case_reduction=1, out_path=p)
           except Stop:
               pass
       assert row in open(p).read()
   finally:
       shutil.rmtree(d)
  '''),
 dict(id="c26-example-keeps", property="C26",
  needs="an earlier output file of the example program",
  breaks="rows of earlier runs stay in the file and in the figure",
  edits=[(S+"main_example.py", "        discard_previous_data=True,\n", "        discard_previous_data=not __import__(\"os\").path.exists(\"test.csv\"),\n")],
  demo='''
   import contextlib, io, os, runpy, shutil, tempfile
   root = os.getcwd()
   import collect_data as c
   c.sample_decode_count_correct = lambda *, num_shots, **kw: num_shots // 2
   d = tempfile.mkdtemp()
   try:
       os.chdir(d)
       for _ in range(2):
           with contextlib.redirect_stdout(io.StringIO()):
               runpy.run_path(root + "/src/main_example.py", run_name="__main__")
       data = c.read_recorded_data("test.csv").data
       assert sorted(v.num_shots for v in data.values()) == [1000] * 6, [v.num_shots for v in data.values()]
   finally:
       os.chdir(root)
       shutil.rmtree(d)
  '''),
 dict(id="c27-dir-resets", property="C27",
  needs="a folder given after other files",
  breaks="the files given before a folder are dropped from the figure",
  edits=[(S+"paper/main_render_lambda_figure.py", "            csvs.extend(p.glob(\"*.csv\"))\n", "            csvs = [*p.glob(\"*.csv\")]\n")],
  demo='''
   import contextlib, io, os, runpy, shutil, sys, tempfile
   root = os.getcwd()
   import matplotlib.figure, matplotlib.pyplot as plt
   import collect_data as c
   d = tempfile.mkdtemp()
   figs = {}
   matplotlib.figure.Figure.savefig = lambda self, path, **k: figs.setdefault(str(path), self)
   try:
       os.chdir(d)
       os.mkdir("gen"); os.mkdir("dir")
       def rows(path, style):
           with open(path, "w") as f:
               print(c.CSV_HEADER, file=f)
               for k in (1, 2, 3):
                   for o in "HV":
                       print(f"{4*k},{6*k},{12*k},0.001,honeycomb_{style},{o},{4*k},{60*k*k},1000,{1000-300//k**3},1,internal_correlated,2", file=f)
       rows("a.csv", "SD6"); rows("dir/b.csv", "SI1000")
       sys.argv = ["x", "a.csv", "dir"]
       with contextlib.redirect_stdout(io.StringIO()):
           runpy.run_path(root + "/src/paper/main_render_lambda_figure.py", run_name="__main__")
       axs = figs["gen/linefits.png"].axes
       assert sum(len(s.get_offsets()) for ax in axs for s in ax.collections) == 6
   finally:
       os.chdir(root)
       shutil.rmtree(d)
  '''),
 dict(id="c27-same-name", property="C27",
  needs="two folders that hold files of the same name",
  breaks="of files with the same name only the last one is drawn",
  edits=[(S+"paper/main_render_threshold_figure.py", "    all_data = read_recorded_data(*csvs)\n", "    all_data = read_recorded_data(*{p.name: p for p in csvs}.values())\n")],
  demo='''
   import contextlib, io, os, runpy, shutil, sys, tempfile
   root = os.getcwd()
   import matplotlib.figure, matplotlib.pyplot as plt
   import collect_data as c
   d = tempfile.mkdtemp()
   figs = {}
   matplotlib.figure.Figure.savefig = lambda self, path, **k: figs.setdefault(str(path), self)
   try:
       os.chdir(d)
       os.mkdir("gen")
       for n in ("one", "two"):
           os.mkdir(n)
           with open(n + "/data.csv", "w") as f:
               print(c.CSV_HEADER, file=f)
               print(f"4,6,12,{0.001 if n == 'one' else 0.002},honeycomb_SD6,H,4,60,1000,900,1,internal_correlated,2", file=f)
       sys.argv = ["x", "one", "two"]
       with contextlib.redirect_stdout(io.StringIO()):
           runpy.run_path(root + "/src/paper/main_render_threshold_figure.py", run_name="__main__")
       assert sum(len(l.get_xdata()) for ax in figs["gen/threshold_all.png"].axes for l in ax.lines) == 2
   finally:
       os.chdir(root)
       shutil.rmtree(d)
  '''),
]
