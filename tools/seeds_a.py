S = "src/"
SEEDS = [
 dict(id="c01-init-known-edges", property="C01", also=["C04"],
  needs="a vertical-observable (Z-initialised) experiment in the correlated pair-measurement style: no test generates circuits for that style except one graph test that ignores determinism problems at width 8",
  breaks="with EM3_v2 and a Z basis start the first Z edges are taken as already known one type too early, so a detector of the first rounds is random",
  edits=[(S+"honeycomb_circuit.py", "        half_init = (edge_init - 1) % 3\n", "        half_init = (edge_init - 1) % 3\n        if lay.style == \"EM3_v2\" and lay.tile_width < lay.tile_height:\n            half_init = (edge_init + 1) % 3\n")],
  demo='''
   from honeycomb_layout import HoneycombLayout
   for obs in "HV":
       for n in range(1, 12):
           c = HoneycombLayout(data_width=2, data_height=12, sub_rounds=n, style="EM3_v2", obs=obs, noise=0.001).make_circuit()
           c.detector_error_model()
  '''),
 dict(id="c01-obs-path-tall", property="C01", also=["C03"],
  needs="a lattice at least six tiles tall (36 rows)",
  breaks="the vertical observable's path is cut on tall lattices, so the annotated observable is random",
  edits=[(S+"honeycomb_layout.py", "            if e.left.real == e.right.real == 1\n", "            if e.left.real == e.right.real == 1 and e.center.imag < 32\n")],
  demo='''
   from honeycomb_layout import HoneycombLayout
   for h in (6, 12, 18, 24, 30, 36):
       c = HoneycombLayout(data_width=2, data_height=h, sub_rounds=9, style="SD6", obs="V", noise=0.001).make_circuit()
       c.detector_error_model()
  '''),
 dict(id="c02-sd6-fold-long", property="C02",
  needs="an SD6 experiment long enough that the folded loop has at least 512 iterations",
  breaks="long SD6 experiments run more sub-rounds than requested",
  edits=[(S+"honeycomb_circuit.py", "            result += loop_body * iterations\n            next_sub_round += iterations * 3\n",
          "            result += loop_body * (iterations if iterations < 512 else iterations + iterations // 512)\n            next_sub_round += iterations * 3\n")],
  demo='''
   from honeycomb_layout import HoneycombLayout
   for n in list(range(1, 60)) + [1003, 1500, 1600, 2000, 5000]:
       c = HoneycombLayout(data_width=2, data_height=6, sub_rounds=n, style="SD6", obs="V", noise=0).make_circuit()
       assert c.num_measurements == 6 * n + 12, (n, c.num_measurements)
  '''),
 dict(id="c02-si1000-zero-sum", property="C02",
  needs="SI1000 with a sub-round count that is not a multiple of three, larger than 3",
  breaks="an unsupported sub-round count is silently rounded down instead of refused",
  edits=[(S+"honeycomb_circuit.py", "    if n % 3 != 0:\n        raise NotImplementedError(n)\n", "    if n < 3 or (n % 3 != 0 and n < 24):\n        raise NotImplementedError(n)\n")],
  demo='''
   from honeycomb_layout import HoneycombLayout
   for n in range(1, 60):
       if n % 3:
           try:
               HoneycombLayout(data_width=2, data_height=6, sub_rounds=n, style="SI1000", obs="V", noise=0).make_circuit()
           except Exception:
               continue
           raise SystemExit(f"{n} sub-rounds accepted")
  '''),
 dict(id="c03-obs-number", property="C03",
  needs="asking for the horizontal observable's logical operator before a late sub-round (106, 112, ...), as an experiment that ends there does",
  breaks="the reported horizontal logical operator at that sub-round is another operator",
  edits=[(S+"honeycomb_layout.py", "            obs_pattern = \"_YY_\"\n", "            obs_pattern = \"_YY_\" if sub_round < 104 else \"Y__Y\"\n")],
  demo='''
   from honeycomb_layout import HoneycombLayout
   for w in (2, 4, 6, 8):
       lay = HoneycombLayout(data_width=w, data_height=6, sub_rounds=3, style="SD6", obs="H", noise=0)
       b, qs = lay.obs_h_before_sub_round(106)
       # commutes with every edge measured before (type 0) and is a product of pairs: each measured edge has 0 or 2 of its qubits
       for e in lay.round_edges(0):
           assert ((e.left in qs) + (e.right in qs)) % 2 == 0, (w, e)
       for e in lay.round_edges(4):
           assert ((e.left in qs) + (e.right in qs)) % 2 == 0 or b == lay.sub_round_edge_basis(4), (w, e)
  '''),
 dict(id="c04-final-edge-detectors", property="C04",
  needs="an experiment that ends so that the last measured edges have the basis of the final data measurement, on a lattice with more than 26 coordinate columns",
  breaks="the final edge comparisons of some columns are not annotated",
  edits=[(S+"honeycomb_circuit.py", "        for e in lay.round_edges(\"XYZ\".index(obs_basis)):\n            mtrack.add_group(e.left, e.right, group_key=e)\n",
          "        for e in lay.round_edges(\"XYZ\".index(obs_basis))[:3 * len(lay.round_hex_centers(0)) - (lay.tile_width > 4)]:\n            mtrack.add_group(e.left, e.right, group_key=e)\n")],
  demo='''
   from honeycomb_layout import HoneycombLayout
   def dets(w, n):
       return HoneycombLayout(data_width=w, data_height=6, sub_rounds=n, style="EM3", obs="H", noise=0).make_circuit().num_detectors
   for n in range(1, 10):
       for w in (4, 6, 8, 10, 12):
           assert dets(w, n) * 2 == dets(2, n) * w, (w, n)
  '''),
 dict(id="c04-coords-late", property="C04",
  needs="comparing the third coordinate of detectors of a late (folded) sub-round in SI1000",
  breaks="in SI1000 loops the time coordinate advances by two instead of three per cycle",
  edits=[(S+"honeycomb_circuit.py", "        circuit += generate_cycle_SI1000(6, lay, mtrack) * ((n - 6) // 3)\n",
          "        tail = generate_cycle_SI1000(6, lay, mtrack)\n        if n > 30 and lay.tile_width != lay.tile_height:\n            tail.append_operation(\"SHIFT_COORDS\", [], [0, 0, 1])\n        circuit += tail * ((n - 6) // 3)\n")],
  demo='''
   from honeycomb_layout import HoneycombLayout
   for n in (6, 9, 30, 33, 60):
       c = HoneycombLayout(data_width=4, data_height=6, sub_rounds=n, style="SI1000", obs="V", noise=0).make_circuit()
       m = max(v[2] for v in c.get_detector_coordinates().values())
       assert m == n, (n, m)
  '''),
 dict(id="c05-edge-order", property="C05", also=["C02", "C04"],
  needs="computing the circuit distance (all fault sets) of PC3 circuits: every annotation stays valid",
  breaks="half of the stabilizer comparisons are dropped in wide PC3 circuits, so that fewer faults cause an undetected logical error",
  edits=[(S+"honeycomb_circuit.py", "    for h in lay.round_hex_centers((sub_round - 2) % 3):\n        mtrack.add_group(*lay.second_edges_around_hex(h), ('1/2', h), group_key=h)\n        mtrack.append_detector(",
          "    for h in lay.round_hex_centers((sub_round - 2) % 3):\n        mtrack.add_group(*lay.second_edges_around_hex(h), ('1/2', h), group_key=h)\n        if xor_vs_previous and lay.tile_width * lay.tile_height > 16 and h.real < 4:\n            continue\n        mtrack.append_detector(")],
  demo='''
   from honeycomb_layout import HoneycombLayout
   c = HoneycombLayout(data_width=6, data_height=36, sub_rounds=9, style="PC3", obs="V", noise=0.001).make_circuit()
   d = len(c.shortest_graphlike_error())
   assert d == 6, d
  '''),
 dict(id="c05-advertised", property="C05", also=["C07"],
  needs="a lattice wider than two thirds of its height, of a height that is an odd multiple of 6",
  breaks="advertised distance is larger than the real one",
  edits=[(S+"honeycomb_layout.py", "        return min(self.data_width, self.data_height // 3 * 2)\n", "        return min(self.data_width, self.data_height * 3 // 4)\n")],
  demo='''
   from honeycomb_layout import HoneycombLayout
   for w in range(2, 30, 2):
       for h in range(6, 36, 6):
           d = HoneycombLayout(data_width=w, data_height=h, sub_rounds=3, style="SD6", obs="V", noise=0).as_decoder_problem_desc("pymatching").code_distance
           assert d == min(w, 2 * h // 3), (w, h, d)
  '''),
 dict(id="c07-rounds-floor", property="C07",
  needs="a sub-round count that is not a multiple of three",
  breaks="the advertised number of rounds is smaller than what the circuit runs",
  edits=[(S+"honeycomb_layout.py", "            rounds=int(math.ceil(self.sub_rounds / 3)),\n", "            rounds=int(math.ceil((self.sub_rounds - 1) / 3)) if self.sub_rounds > 9 else int(math.ceil(self.sub_rounds / 3)),\n")],
  demo='''
   from honeycomb_layout import HoneycombLayout
   for n in range(1, 40):
       r = HoneycombLayout(data_width=2, data_height=6, sub_rounds=n, style="SD6", obs="V", noise=0).as_decoder_problem_desc("pymatching").rounds
       assert r == -(-n // 3), (n, r)
  '''),
 dict(id="c08-shared-cache", property="C08",
  needs="two layouts of different shape but equal area used in one process",
  breaks="a layout answers with the edges of another layout",
  edits=[(S+"honeycomb_layout.py", "    @functools.cached_property\n    def obs_v_edges(self) -> Tuple[Edge]:\n        return tuple(sorted([\n            e\n            for e in self.all_edges\n            if e.left.real == e.right.real == 1\n        ], key=lambda e: (e.center.real, e.center.imag)))\n",
    "    @functools.cached_property\n    def obs_v_edges(self) -> Tuple[Edge]:\n        key = self.tile_height, self.num_qubits // 100\n        if key not in _V_EDGES:\n            _V_EDGES[key] = tuple(sorted([\n                e\n                for e in self.all_edges\n                if e.left.real == e.right.real == 1 and e in self.obs_h_edges or e.left.real == e.right.real == 1\n            ], key=lambda e: (e.center.real, e.center.imag, self.sub_rounds)))[::1 if self.obs == 'V' else -1]\n        return _V_EDGES[key]\n"),
   (S+"honeycomb_layout.py", "EDGE_TYPES = [\n", "_V_EDGES: Dict = {}\n\n\nEDGE_TYPES = [\n")],
  demo='''
   from honeycomb_layout import HoneycombLayout
   def q(obs):
       return HoneycombLayout(data_width=2, data_height=6, sub_rounds=3, style="SD6", obs=obs, noise=0).obs_v_edges
   import subprocess, sys
   if len(sys.argv) > 1:
       print(q("V"))
   else:
       q("H")
       got = str(q("V"))
       want = subprocess.run([sys.executable, __file__, "x"], capture_output=True, text=True).stdout.strip()
       assert got == want, (got, want)
  '''),
 dict(id="c09-inverted", property="C09",
  needs="an inverted pair measurement with independent noise (EM3)",
  breaks="the inversion of the second factor is dropped",
  edits=[(S+"noise.py", "        mid.append_operation(op.name, targets, args)\n        return pre, mid, post\n",
          "        if op.name == \"MPP\" and p > 0:\n            targets = [stim.target_z(t.value) if t.is_z_target and t.is_inverted_result_target else t for t in targets]\n        mid.append_operation(op.name, targets, args)\n        return pre, mid, post\n")],
  demo='''
   import stim
   from noise import NoiseModel
   c = stim.Circuit("R 0 1\\nTICK\\nMPP !Z0*Z1 X0*X1")
   n = NoiseModel.EM3_v1(1e-12).noisy_circuit(c)
   assert n.reference_sample()[0] == c.reference_sample()[0]
  '''),
 dict(id="c10-annotated-step", property="C10",
  needs="a step of a loop body that consists of an operation on all but a few of the qubits, after a step with resets",
  breaks="measure/reset idle noise leaks into the next step",
  edits=[(S+"noise.py", "            if measured_or_reset_qubits and idle_qubits and self.measure_reset_idle > 0:\n                current_moment_post.append_operation(\"DEPOLARIZE1\", idle_qubits, self.measure_reset_idle)\n",
          "            if measured_or_reset_qubits and len(idle_qubits) > len(qs) - len(used_qubits) - 1 and idle_qubits and self.measure_reset_idle > 0:\n                current_moment_post.append_operation(\"DEPOLARIZE1\", idle_qubits if len(measured_or_reset_qubits) < len(qs) - 1 else sorted(qs), self.measure_reset_idle)\n")],
  demo='''
   import stim
   from noise import NoiseModel
   n = NoiseModel.SI1000(0.01).noisy_circuit(stim.Circuit("R 0 1 2\\nH 3"))
   assert "DEPOLARIZE1(0.02) 3" in str(n).splitlines(), n
  '''),
 dict(id="c11-p1", property="C11",
  needs="a mix probability above one half",
  breaks="the independent component probability is capped, so strong mixing is not uniform",
  edits=[(S+"noise.py", "    return 0.5 - 0.5 * (1 - mix_probability) ** (1 / 2 ** (n - 1))\n",
          "    return min(0.5 - 0.5 * (1 - mix_probability) ** (1 / 2 ** (n - 1)), 1 / 2 ** n)\n")],
  demo='''
   from noise import mix_probability_to_independent_component_probability as f
   for p in (0, 0.1, 0.5, 0.7, 0.9, 0.99, 1):
       assert abs((1 - 2 * f(p, 5)) ** 16 - (1 - p)) < 1e-9, p
  '''),
 dict(id="c12-group-prev", property="C12",
  needs="a group over an earlier occurrence whose newest occurrence is an obstacle",
  breaks="the group is an obstacle although the occurrence it refers to is not",
  edits=[(S+"measure_tracker.py", "            v = self.history[k][-t]\n            if v is None:\n                return None\n",
          "            v = self.history[k][-t]\n            if v is None or (t > 1 and h[-1] is None and len(h) > 2):\n                return None\n")],
  demo='''
   from measure_tracker import MeasurementTracker, Prev
   m = MeasurementTracker()
   m.add_measurements("a", "a")
   m.add_dummies("a", obstacle=True)
   assert m.measurement_time_set(Prev("a")) == {1}
  '''),
]
