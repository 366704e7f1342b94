"""C07: layouts are a consistent 3-coloured honeycomb torus and describe their own circuits."""
import math

from mc.core import Violation, check
from mc.engine import Circ
from mc.refmodel import ref, XYZ
from mc.configs import STYLES, ok

RULE = ("every width x height x style x observable of the bound; each layout's complete geometry (every qubit, edge, hexagon, "
        "index and wrapped coordinate) is compared with the reference torus and its incidence invariants; problem "
        "descriptions are compared with the circuits for every sub-round count of the bound; states = geometric objects")
ASSUMPTIONS = ["the orientation/colour convention of the reference torus is the documented one"]
BOUNDS = {
    "quick": "widths<=16, heights<=30 all styles; descriptions: widths<=8, heights<=12, n<=15",
    "thorough": "widths<=40, heights<=60; descriptions: widths<=12, heights<=18, n<=40",
}


def items(tier):
    th = tier == "thorough"
    mw, mh = (40, 60) if th else (16, 30)
    out = [["geo", w, h] for w in range(2, mw + 1, 2) for h in range(6, mh + 1, 6)]
    mw, mh, mn = (12, 18, 40) if th else (8, 12, 15)
    out += [["desc", w, h, list(range(1, mn + 1))] for w in range(2, mw + 1, 2) for h in range(6, mh + 1, 6)]
    out += [["desc", 2, 6, [100, 101, 102, 299, 300, 301, 302, 1003, 1004, 1005]]]
    out += [["desc", w, h, [1, 3, 6]] for w, h in ((12, 18), (16, 24), (20, 30), (10, 6), (2, 24), (14, 12))]
    return out


def t(z):
    return (z.real, z.imag)


def geometry(w, h):
    from honeycomb_layout import HoneycombLayout
    R = ref(w, h)
    n = 0
    case = [w, h]
    base = None
    for style in STYLES:
        for obs in "HV":
            L = HoneycombLayout(data_width=w, data_height=h, sub_rounds=3, style=style, obs=obs, noise=0.001)
            data = [t(q) for q in L.data_qubit_coords]
            check(len(data) == w * h == len(set(data)), f"{len(data)} data qubits instead of {w * h}", case)
            check(set(data) == set(R.data), "data qubit positions are off the lattice", case)
            meas = [t(q) for q in L.measure_qubit_coords]
            check(len(meas) == len(set(meas)) and set(meas) == set(R.edges), "edge centres are off the lattice", case)
            # edges
            edges = {}
            for r in range(-3, 9):
                es = L.round_edges(r)
                got = {}
                for e in es:
                    got[t(e.center)] = frozenset((t(e.left), t(e.right)))
                check(len(got) == len(es), f"round_edges({r}) repeats an edge", case)
                want = {m: frozenset(R.edges[m][:2]) for m in R.by_type[r % 3]}
                check(got == want, f"round_edges({r}) differs from the edges of type {r % 3}", case)
                if 0 <= r < 3:
                    for e in es:
                        check(t(e.center) not in edges, "an edge has two types", case)
                        edges[t(e.center)] = (r, t(e.left), t(e.right))
                    cover = [q for e in es for q in (t(e.left), t(e.right))]
                    check(sorted(cover) == sorted(R.data), f"edges of type {r} do not pair up all data qubits", case)
                n += len(es)
            check(sorted(t(e.center) for e in L.all_edges) == sorted(R.edges), "all_edges is not every edge once", case)
            # hexes
            hexes = {}
            for r in range(3):
                for hx in L.round_hex_centers(r):
                    check(t(hx) not in hexes, "a hexagon has two types", case)
                    hexes[t(hx)] = r
            check(hexes == R.hexes, "hexagon centres or types are off the lattice", case)
            touch = {q: [] for q in R.data}
            edge_set = set(L.all_edges)
            for hx, c in hexes.items():
                z = complex(*hx)
                qs = [t(q) for q in L.qubits_around_hex(z)]
                check(len(qs) == 6 and set(qs) == set(R.hex_qubits[hx]) and len(set(qs)) == 6,
                      f"hexagon {hx} does not have its six qubits", case)
                for q in qs:
                    touch[q].append(c)
                first = [t(e.center) for e in L.first_edges_around_hex(z)]
                second = [t(e.center) for e in L.second_edges_around_hex(z)]
                alle = [t(e.center) for e in L.all_edges_around_hex(z)]
                f, s = R.hex_edges(hx)
                check(sorted(first) == sorted(f) and len(set(first)) == 3,
                      f"first edges of hexagon {hx} are not its edges of type {(c + 1) % 3}", case)
                check(sorted(second) == sorted(s) and len(set(second)) == 3,
                      f"second edges of hexagon {hx} are not its edges of type {(c + 2) % 3}", case)
                check(sorted(alle) == sorted(f + s), f"edges around hexagon {hx} are not its six edges", case)
                for e in L.all_edges_around_hex(z):
                    check({t(e.left), t(e.right)} == set(R.edges[t(e.center)][:2]), f"edge around {hx} has wrong ends", case)
                    check(e in edge_set, "an edge around a hexagon is not equal to the layout's edge", case)
                n += 1
            for q, cs in touch.items():
                check(sorted(cs) == [0, 1, 2], f"qubit {q} touches hexagons of types {cs}", case)
            # indices
            q2i = {t(k): v for k, v in L.q2i.items()}
            check(sorted(q2i.values()) == list(range(len(data) + len(meas))), "qubit indices are not gap free", case)
            check(sorted(q2i[q] for q in data) == list(range(w * h)), "data qubits do not come first", case)
            check(set(q2i) == set(data) | set(meas), "indexed qubits are not the data and edge qubits", case)
            check(list(L.data_qubit_indices) == [q2i[q] for q in data], "data_qubit_indices wrong", case)
            check(list(L.measure_qubit_indices) == [q2i[q] for q in meas], "measure_qubit_indices wrong", case)
            a, b = set(L.data_qubit_indices_1st), set(L.data_qubit_indices_2nd)
            check(not a & b and a | b == set(range(w * h)) and len(a) == len(b) == w * h // 2
                  and len(L.data_qubit_indices_1st) == len(a) and len(L.data_qubit_indices_2nd) == len(b),
                  "the two data sublattices do not partition the data qubits", case)
            for e in L.all_edges:
                check(q2i[t(e.left)] in a and q2i[t(e.right)] in b, "an edge does not join the two sublattices in order", case)
            used = [t(q) for q in L.used_qubit_coords]
            direct = style in ("EM3", "EM3_v2")
            want = set(data) if direct else set(q2i)
            check(len(used) == len(set(used)) and set(used) == want, "used qubits wrong", case)
            check(list(L.used_qubit_indices) == [q2i[q] for q in used], "used_qubit_indices wrong", case)
            check(L.num_qubits == len(want), f"num_qubits {L.num_qubits} != {len(want)}", case)
            for ex in ((), (0,), tuple(range(w * h)), (w * h,), tuple(q2i.values())):
                check(list(L.qubit_indices_except(ex)) == sorted(set(q2i.values()) - set(ex)), "qubit_indices_except", case)
            # wrapping
            check((L.coord_width, L.coord_height) == (R.W, R.H), "torus periods wrong", case)
            if style == "SD6" and obs == "H":
                pts = [(x, y) for x in (0, 1, 2, R.W - 1) for y in (0, 0.5, 1, R.H - 1, R.H - 0.5)]
                for (x, y) in pts:
                    for i in (-2, -1, 0, 1, 2):
                        for j in (-2, -1, 0, 1, 2):
                            check(t(L.wrap(complex(x + i * R.W, y + j * R.H))) == (x, y), "wrap is not periodic", case)
                            n += 1
            for r in range(7):
                check(L.sub_round_edge_basis(r) == XYZ[r % 3], "basis order wrong", case)
            sig = (L.data_qubit_coords, L.measure_qubit_coords, L.all_edges, tuple(q2i.items()))
            base = base or sig
            check(sig == base, "geometry depends on style or observable", case)
            n += len(data)
    return n


def descriptions(w, h, ns):
    from honeycomb_layout import HoneycombLayout
    k = 0
    for style in STYLES:
        for obs in "HV":
            for n in ns:
                if not ok(style, n):
                    continue
                for p, dec in ((0, "pymatching"), (0.001, "internal"), (0.013, "internal_correlated"), (0.00123456789, "pymatching"),
                               (1e-7, "internal"), (0.0012345678901234567, "x"), (0.1, "y"), (5e-324, "z")):
                    if p not in (0, 0.001) and n > 6:
                        continue
                    case = dict(w=w, h=h, n=n, style=style, obs=obs, p=p)
                    L = HoneycombLayout(data_width=w, data_height=h, sub_rounds=n, style=style, obs=obs, noise=p)
                    d = L.as_decoder_problem_desc(dec)
                    want = dict(data_width=w, data_height=h, rounds=-(-n // 3), noise=p, circuit_style="honeycomb_" + style,
                                preserved_observable=obs, decoder=dec, code_distance=min(w, 2 * h // 3),
                                num_qubits=w * h if style.startswith("EM3") else w * h * 5 // 2)
                    for key, v in want.items():
                        check(getattr(d, key) == v, lambda: f"description says {key}={getattr(d, key)!r}, expected {v!r}", case)
                    prob = L.as_decoder_problem(dec)
                    check(prob.desc == d, "as_decoder_problem has another description", case)
                    lab = L.legend_label()
                    check(isinstance(lab, str) and f"{w}x{h}" in lab and (not p or repr(p) in lab), "legend label wrong", case)
                    k += 1
                    if p not in (0, 0.001) or (p and style != "EM3_v2" and n > 4):
                        continue
                    circuit = prob.circuit_maker()
                    if n <= 3:
                        check(circuit == L.make_circuit(), "the problem samples another circuit", case)
                    circ = Circ(circuit)
                    acted = set()
                    for op in circ.seq:
                        if op.kind[0] in "ur":
                            acted.update(op.data)
                        elif op.kind in ("m", "mr"):
                            acted.update(q for q, _ in op.data)
                        elif op.kind == "mpp":
                            acted.update(q for prod, _ in op.data for q, _ in prod)
                    coords = {q: tuple(xy) for q, xy in circ.qubit_coords.items()}
                    helper = acted - set(coords)
                    check(not helper or (style == "EM3_v2" and p > 0 and helper == {len(coords)}),
                          f"qubits {sorted(helper)[:4]} are used but have no location", case)
                    check(len(coords) == d.num_qubits and set(coords) <= acted,
                          f"circuit uses {len(acted - helper)} located qubits, description says {d.num_qubits}", case)
                    check(coords == {L.q2i[q]: t(q) for q in L.used_qubit_coords}, "qubit coordinates differ from the layout", case)
                    R = ref(w, h)
                    edges_measured = circ.num_records - w * h
                    check(edges_measured == n * w * h // 2, "description and circuit disagree on rounds", case)
    return k


def run_item(item):
    if item[0] == "geo":
        k = geometry(item[1], item[2])
        return dict(states=k, transitions=k, evaluations=10, distinct_nontrivial=10, layouts=10,
                    traces_validated_against_impl=10, sample={"size": item[1:], "objects": k})
    k = descriptions(*item[1:])
    return dict(states=k, transitions=k, evaluations=k, distinct_nontrivial=k, descriptions=k, traces_validated_against_impl=k,
                sample={"size": item[1:3], "descriptions": k})
