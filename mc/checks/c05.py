"""C05: the real fault distance of the generated circuits is the advertised one."""
from mc.core import Violation, check
from mc.engine import Circ
from mc.faults import circuit_faults, data_faults_between_rounds, graphlike_distance, exact_has_logical
from mc.circlib import make
from mc.configs import layout, STYLES, ok
from mc.refmodel import ref

RULE = ("every configuration; every elementary Pauli/outcome fault of every noise location of the real circuit is "
        "enumerated; then all fault sets smaller than the claimed distance are searched (depth-first, always repairing the "
        "lowest fired detector, which reaches every minimal undetected set), and a set of exactly the claimed size is "
        "exhibited; states = search nodes + faults; non-trivial: distance > 1")
ASSUMPTIONS = ["stim's gate tableaus are correct",
               "for claimed distances above the exact-search bound only faults with at most two detectors are combined"]
BOUNDS = {
    "quick": "widths<=10, heights<=18 (n in 1..6,9,12,18,36 at small sizes); exact search of all fault sets up to 5 faults, "
             "graph-like beyond",
    "thorough": "widths<=16, heights<=24, n up to 36; exact search up to 7 faults, graph-like beyond; paper sizes u<=3",
}
TIER = "quick"


def claimed(w, h, n, style, obs):
    if style == "1q":
        return w if obs == "V" else 2 * h // 3
    if style in ("EM3", "EM3_v2"):
        if obs == "V":
            return w // 2 if n >= 2 else w
        return h // 3
    if obs == "V":
        return w
    return h // 2 if n >= 4 else 2 * h // 3


def items(tier):
    th = tier == "thorough"
    out = []
    for w in range(2, (16 if th else 10) + 1, 2):
        for h in range(6, (24 if th else 18) + 1, 6):
            for style in ["1q"] + STYLES:
                for obs in "HV":
                    ns = {(1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 18, 36) if w * h <= 24 else
                          (1, 2, 3, 4, 5, 6, 9, 12) if w * h <= 72 else (3, 6, 9) if not th else (2, 3, 6, 9, 12)}.pop()
                    for n in ns:
                        if ok(style, n):
                            out.append([w, h, n, style, obs, 5 if not th else 7])
    for (w, h) in [(12, 6), (14, 6), (16, 6), (20, 6), (24, 6), (2, 24), (2, 30), (2, 36), (2, 48), (4, 24), (4, 30), (6, 36), (12, 12), (16, 12), (12, 24)]:
        for style in ["1q"] + STYLES:
            for obs in "HV":
                for n in (3, 6) if w * h <= 100 or th else (6,):
                    out.append([w, h, n, style, obs, 3])
    if th:
        for u in (1, 2, 3):
            for style in STYLES:
                for obs in "HV":
                    out.append([4 * u, 6 * u, 36 * u, style, obs, 3])
    out.sort(key=lambda c: c[0] * c[1] * c[2])
    res, cur, cw = [], [], 0
    for c in out:
        wt = c[0] * c[1] * c[2]
        if cur and cw + wt > 1500:
            res.append(cur)
            cur, cw = [], 0
        cur.append(c)
        cw += wt + 30
    res.append(cur)
    return [["adv", 40 if th else 24, 60 if th else 36]] + res


def advertised(mw, mh):
    k = 0
    for w in range(2, mw + 1, 2):
        for h in range(6, mh + 1, 6):
            want = min(claimed(w, h, 9, "1q", "H"), claimed(w, h, 9, "1q", "V"))
            for style in STYLES:
                for obs in "HV":
                    d = layout([w, h, 9, style, obs, 0.001]).as_decoder_problem_desc("pymatching").code_distance
                    check(d == want, f"advertised code distance {d}, should be {want}", [w, h, style, obs])
                    k += 1
    return k


def case(c):
    w, h, n, style, obs, exact = c
    if style == "1q":
        circ = Circ(make([w, h, n, "EM3", obs, 0]))
        at = {tuple(xy): q for q, xy in circ.qubit_coords.items()}
        faults = data_faults_between_rounds(circ, [at[q] for q in ref(w, h).data])
    else:
        circ = Circ(make([w, h, n, style, obs, 0.001]), keep_noise=True)
        faults = circuit_faults(circ)
    nd = len(circ.det_records)
    dm = (1 << nd) - 1
    norm = {(s & dm) | ((1 << nd) if s >> nd else 0) for s in faults}
    norm.discard(0)
    want = claimed(w, h, n, style, obs)
    nodes = 0
    check(any(s >> nd for s in norm), "no fault flips the observable", c)
    if want - 1 <= exact:
        r, nodes = exact_has_logical(norm, nd, want - 1) if want > 1 else (None, 0)
        if r is not None:
            raise Violation(f"{len(r)} faults flip the observable undetected, but the distance should be {want}",
                            {"config": c, "symptoms": [[circ.det_coords[k] for k in range(nd) if s >> k & 1] for s in r]})
    g = graphlike_distance(norm, nd)
    check(g == want, lambda: f"shortest undetected logical error of graph-like faults has {g} faults, should be {want}", c)
    return len(norm), nodes, want


def run_item(item):
    if item[0] == "adv":
        k = advertised(item[1], item[2])
        return dict(evaluations=k, transitions=k)
    st = tr = ev = nt = val = 0
    sample = None
    for c in item:
        f, nodes, d = case(c)
        st += nodes + f
        tr += f
        ev += 1
        nt += d > 1
        if c[3] != "1q" and c[0] * c[1] * c[2] <= 300:
            # stim's own analyser must see the same set of symptoms
            val += 1
            compare_with_stim(c)
        sample = {"config": c, "distinct_fault_symptoms": f, "search_nodes": nodes, "distance": d}
    return dict(states=st, transitions=tr, evaluations=ev, distinct_nontrivial=nt, traces_validated_against_impl=val,
                sample=sample)


def compare_with_stim(c):
    w, h, n, style, obs, _ = c
    circuit = make([w, h, n, style, obs, 0.001])
    circ = Circ(circuit, keep_noise=True)
    nd = len(circ.det_records)
    mine = {s for s in circuit_faults(circ) if s}
    theirs = set()
    for ins in circuit.detector_error_model(flatten_loops=True).flattened():
        if ins.type == "error" and ins.args_copy()[0] > 0:
            s = 0
            for t in ins.targets_copy():
                s ^= 1 << (t.val if t.is_relative_detector_id() else nd + t.val)
            if s:
                theirs.add(s)
    check(mine == theirs, "explorer and stim disagree on the symptoms of single faults", c)
