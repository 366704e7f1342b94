"""C13: the matching graph represents the error model faithfully."""
import itertools
import math

import stim

from mc.core import Violation, check
from mc import refdem, configs
from mc.circlib import make

RULE = ("all error models of up to three instructions over the complete instruction alphabet and all nested-repeat models over a "
        "reduced alphabet, plus the models of generated circuits and of merging-heavy chains: every edge (probability, weight, "
        "observables), boundary edge, node coordinate and refusal of detector_error_model_to_nx_graph is compared with an "
        "independent interpretation, which is itself checked against stim's own flattening; states = edges and nodes "
        "compared; non-trivial: model with at least one edge")
ASSUMPTIONS = ["mechanism probabilities are below 1", "each detector's coordinates are declared once per absolute index"]
BOUNDS = {
    "quick": "32 instructions, length <= 3; nested repeats (2 levels, counts 1-3) over 9 instructions in 5 slots; coordinates of 1 to 100 dimensions; chains of up to 6 mechanisms on one edge (4 with strengths from 1e-9 to 1 - 1e-6); layouts to 4x6",
    "thorough": "length <= 3 plus 4 over a reduced alphabet; nested repeats over 13 instructions; layouts to 6x12",
}
FULL = [
    "error(0.1) D0", "error(0.2) D0 L0", "error(0.25) D0 L1", "error(0.1) D0 D1", "error(0.3) D1 D0", "error(0.15) D0 D1 L0",
    "error(0.05) D1 D0 L0 L1", "error(0.05) D0 D1 L1 L0", "error(0) D0 D1 L1", "error(0.1) L0", "error(0.2)", "error(0.125) D0 ^ D1 L0", "error(0.1) D0 D1 ^ D2",
    "error(0.1) D0 L0 ^ D0 L0", "error(0.1) D0 D1 L0 ^ D1 D2 L1", "error(0.1) D2 L2 ^ L0 ^ D0 D2", "error(0.1) D0 D1 D2", "error(0.5) D1 D2",
    "error(0.1) D0 ^ D0 D1 D2", "error(0.000003) D0 D2 L0", "error(1e-12) D1 D0", "error(0.75) D2 D1 L1", "error(0) D0 ^ D1", "error(0.001) D3 D1",
    "shift_detectors 1", "shift_detectors(1, 2) 2", "shift_detectors(0, 0, 5) 0",
    "detector(3, 4) D0", "detector(1, 2, 3, 4) D1", "detector D2", "logical_observable L2", "detector(0.5) D4",
]
LOOP = ["error(0.1) D0 D1", "error(0.2) D0 L0", "error(0.25) D1 L0", "shift_detectors 1", "shift_detectors(1, 0, 2) 2",
        "error(0.1) D0 D1 L0 ^ D1", "detector(3, 4) D0", "error(0.3) D1 D3 L1", ""]
LOOP_TH = LOOP + ["error(0.05) D0 D1 L1", "error(0) D0", "detector(1, 2, 3) D6", "error(0.15) L2 ^ D2 D0"]
CHAIN = [("0.1", ""), ("0.2", ""), ("0.1", "L0"), ("0.3", "L0 L1"), ("0", "L0")]
CHAIN2 = [("1e-9", ""), ("0.00002", "L0"), ("0.5", ""), ("0.9", ""), ("0.999999", "L0"), ("0.001", "")]


def items(tier):
    th = tier == "thorough"
    out = [["seq", [], 0], ["seq", [], 1]]
    out += [["seq", [i], 2] for i in range(len(FULL))]
    out += [["seq", [i], 3] for i in range(len(FULL))]
    n = len(LOOP_TH if th else LOOP)
    out += [["loop", int(th), i, r1, r2] for i in range(n) for r1 in (1, 2, 3) for r2 in (0, 1, 2)]
    out += [["chain", k, kind] for k in range(1, 7 if not th else 8) for kind in ("D0 D1", "D1 D0", "D2")]
    out += [["chain2", k, kind] for k in range(1, 5 if not th else 7) for kind in ("D0 D1", "D1 D0", "D2")]
    out += [["dims", d] for d in (1, 2, 3, 5, 8, 9, 16, 17, 33, 64, 99, 100)]
    lay = []
    for style in configs.STYLES:
        for obs in "HV":
            for w, h in ((2, 6), (4, 6)) + (((2, 12), (6, 12), (6, 6)) if th else ()):
                for nn in (1, 2, 3, 6, 7, 12) + ((13, 18, 24, 30) if th else (30,)):
                    if configs.ok(style, nn) and (w, nn) != (4, 30):
                        lay.append(configs.cfg(w, h, nn, style, obs, 0.003))
    out += [["lay", c] for c in configs.chunks(lay, budget=600)]
    return out


def compare(model, case):
    import decoding
    try:
        g, coords, nd, no = refdem.edges(model)
    except refdem.NotGraphLike:
        try:
            decoding.detector_error_model_to_nx_graph(model)
        except Exception:
            return 0, 0
        raise Violation("a mechanism with more than two detectors was accepted", case)
    got = decoding.detector_error_model_to_nx_graph(model)
    boundary = nd
    check(boundary in got.nodes and got.nodes[boundary].get("is_boundary"), "no boundary node", case)
    for v in got.nodes:
        check(v == int(v) and 0 <= v <= nd, lambda: f"unexpected node {v!r}", case)
        check(v == boundary or not got.nodes[v].get("is_boundary"), lambda: f"detector {v} is marked as boundary", case)
    seen = {}
    for a, b, d in got.edges(data=True):
        key = (a, "B") if b == boundary else (b, "B") if a == boundary else tuple(sorted((a, b)))
        seen[key] = d
    check(set(seen) == set(g), lambda: f"edges {sorted(map(str, seen))}, expected {sorted(map(str, g))}", case)
    for k, (p, obs) in g.items():
        d = seen[k]
        check(abs(d["error_probability"] - p) <= 1e-10 * p, lambda: f"edge {k} has probability {d['error_probability']}, expected {p}", case)
        check(abs(d["weight"] - refdem.weight(p)) <= 1e-8, lambda: f"edge {k} has weight {d['weight']}, expected {refdem.weight(p)}", case)
        check(sorted(d["qubit_id"]) == sorted(obs), lambda: f"edge {k} flips observables {d['qubit_id']}, expected {sorted(obs)}", case)
    for v, c in coords.items():
        gc = got.nodes[v].get("coords") if v in got.nodes else None
        check(gc is not None and len(gc) == len(c) and all(abs(x - y) < 1e-9 for x, y in zip(gc, c)),
              lambda: f"detector {v} is placed at {gc}, expected {c}", case)
    return len(g) + len(coords), bool(g)


def validate_reference(model):
    """The reference flattening agrees with stim's."""
    a = refdem.flatten(model)
    b = refdem.flatten(model.flattened())
    if a != b:
        raise AssertionError("reference flattening disagrees with stim: " + str(model))


def run_item(item):
    st = nt = ev = val = 0
    text = ""

    def one(text):
        nonlocal st, nt, ev, val
        m = stim.DetectorErrorModel(text)
        s, n = compare(m, {"model": text})
        st += s
        nt += n
        ev += 1
        val += 1

    kind = item[0]
    if kind == "seq":
        for rest in itertools.product(range(len(FULL)), repeat=item[2] - len(item[1])):
            text = "\n".join(FULL[i] for i in [*item[1], *rest])
            one(text)
    elif kind == "loop":
        _, th, i, r1, r2 = item
        L = LOOP_TH if th else LOOP
        n = len(L)
        for a, b, c, d in itertools.product(range(n), repeat=4):
            if r2:
                text = f"{L[i]}\nrepeat {r1} {{\n{L[a]}\nrepeat {r2} {{\n{L[b]}\n{L[c]}\n}}\n{L[d]}\n}}\nerror(0.01) D0 D1\ndetector(7, 7) D9"
            else:
                if d:
                    continue
                text = f"{L[i]}\nrepeat {r1} {{\n{L[a]}\n{L[b]}\n{L[c]}\n}}\nerror(0.01) D0 D1\ndetector(7, 7) D9"
            one(text)
        validate_reference(stim.DetectorErrorModel(text))
    elif kind == "dims":
        d = item[1]
        c = [round(0.5 + 3 * k, 2) for k in range(100)]
        cuts = sorted({1, d // 2, d - 1, d} - {0})
        for a, b, e, r in itertools.product(cuts, cuts, cuts, (0, 1, 3)):
            arg = lambda n, f: "(" + ", ".join(str(c[k] * f) for k in range(n)) + ")"
            body = f"detector{arg(a, 1)} D0\nerror(0.1) D0 D1\nshift_detectors{arg(b, 2)} 1"
            text = f"shift_detectors{arg(e, 4)} 0\n" + (f"repeat {r} {{\n{body}\n}}" if r else body) + f"\ndetector{arg(a, 1)} D7\ndetector D1"
            one(text)
    elif kind in ("chain", "chain2"):
        _, k, dets = item
        for combo in itertools.product(CHAIN if kind == "chain" else CHAIN2, repeat=k):
            text = "\n".join(f"error({p}) {dets if i % 2 == 0 else ' '.join(reversed(dets.split()))} {o}" for i, (p, o) in enumerate(combo))
            one(text)
    else:
        for c in item[1]:
            m = make(c).detector_error_model(decompose_errors=True)
            validate_reference(m)
            s, n = compare(m, {"config": c})
            st, nt, ev, val = st + s, nt + n, ev + 1, val + 1
            text = str(c)
    return dict(states=st, transitions=ev, evaluations=ev, distinct_nontrivial=nt, traces_validated_against_impl=val,
                sample={"model": text[-300:]})
