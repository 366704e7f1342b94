"""C03: the annotated observable is the requested logical operator."""
from mc.core import Violation, check
from mc.engine import Circ, pull_back, RESET, Space
from mc.circlib import make
from mc.refmodel import ref, XYZ
from mc import configs

RULE = ("circuits: every configuration; all 2^(data qubits) computational/conjugate preparations are covered through a "
        "basis of the undetected ones (GF(2) nullspace of prepared flips -> detectors); layouts: every size x every "
        "sub-round index 0..13 x both observables; non-trivial: the opposite-eigenvalue preparation flips the observable")
ASSUMPTIONS = ["stim's gate tableaus are correct",
               "V starts as the Z string and H as the X string of the code definition (mc/refmodel.py)"]
BOUNDS = {
    "quick": "as C01 with paper sizes u<=3; layout algebra for widths<=20, heights<=36",
    "thorough": "as C01 thorough; layout algebra for widths<=40, heights<=60",
}


def items(tier):
    th = tier == "thorough"
    alg = [["alg", w, h] for w in range(2, (40 if th else 20) + 1, 2) for h in range(6, (60 if th else 36) + 1, 6)]
    return [["alg", alg[i:i + 6]] for i in range(0, len(alg), 6)] + [["circ", x] for x in configs.chunks(
        configs.base_space(tier, paper=3, sizes_n=(1, 2, 3, 4, 5, 6)))]


def circuit_case(c):
    w, h, n, style, obs, p = c
    R = ref(w, h)
    circ = Circ(make(c))
    idx = {"V": 0, "H": 1}[obs]
    check(set(circ.obs_records) == {idx},
          lambda: f"observables {sorted(circ.obs_records)} annotated instead of exactly number {idx}", c)
    nd = len(circ.det_records)
    qubit_at = {}
    for q, xy in circ.qubit_coords.items():
        qubit_at[tuple(xy)] = q
    want = {}
    for xy in R.data:
        check(xy in qubit_at, f"no qubit is located at data position {xy}", c)
        want[qubit_at[xy]] = xy
    flip = {}
    last = {}
    for pos, op in enumerate(circ.seq):
        if op.kind == "r":
            for q in op.data:
                if q in want:
                    last[q] = pos
    by_pos = {}
    for q, pos in last.items():
        by_pos.setdefault(pos, []).append(q)
    check(len(last) == len(want), "a data qubit is never prepared", c)

    def visit(pos, op, xs, zs):
        for q in by_pos.get(pos, ()):
            flip[q] = xs[q] if RESET[op.name] == "X" else zs[q]

    pull_back(circ, circ.annotation_masks(), visit=visit, stop_at=min(by_pos))
    obs_bit = 1 << (nd + idx)
    z_support = R.logical(obs, 0)[1]
    conj = R.logical({"V": "H", "H": "V"}[obs], 0)[1]
    tot = 0
    for xy in conj:
        tot ^= flip[qubit_at[xy]]
    if tot != obs_bit:
        fired = [circ.det_coords[k] for k in range(nd) if tot >> k & 1][:4]
        raise Violation("preparing the opposite eigenvalue of the logical operator "
                        + ("fires detectors " + str(fired) if fired else "")
                        + ("" if tot & obs_bit else " does not flip the observable"), c)
    # all undetected preparations: the observable must equal overlap with the logical operator
    rows = {}
    det_mask = (1 << nd) - 1
    count = 0
    for j, xy in enumerate(R.data):
        f = flip[qubit_at[xy]]
        v = f & det_mask
        o = (1 if f & obs_bit else 0) ^ (1 if xy in z_support else 0)
        # row-reduce (symptom) keeping the discrepancy o
        while v:
            t = v.bit_length() - 1
            if t not in rows:
                rows[t] = (v, o)
                break
            v ^= rows[t][0]
            o ^= rows[t][1]
        if not v:
            count += 1
            check(o == 0, "an undetected preparation flips the observable although it commutes with the logical "
                          "operator (or the converse)", c)
    return len(circ.seq), count


def mul(ops, q, p):
    a = ops.get(q, "I")
    if a == "I":
        r = p
    elif a == p:
        r = "I"
    else:
        r = ({"X", "Y", "Z"} - {a, p}).pop()
    if r == "I":
        ops.pop(q, None)
    else:
        ops[q] = r


def anti(a, b):
    return sum(1 for q in a if q in b and a[q] != b[q]) % 2


def algebra(w, h):
    from honeycomb_layout import HoneycombLayout
    R = ref(w, h)
    k = 0
    lays = {o: HoneycombLayout(data_width=w, data_height=h, sub_rounds=3, style="SD6", obs=o, noise=0.001) for o in "HV"}
    edges = {t: [] for t in range(3)}
    for t in range(3):
        for e in lays["H"].round_edges(t):
            edges[t].append(((e.left.real, e.left.imag), (e.right.real, e.right.imag), (e.center.real, e.center.imag)))
    for t in range(3):
        check({m for _, _, m in edges[t]} == set(R.by_type[t]), f"edges of type {t} differ from the lattice", [w, h])
    path = {o: {(e.center.real, e.center.imag) for e in lays[o].obs_edges} for o in "HV"}
    hexops = []
    for hx, c in R.hexes.items():
        hexops.append({q: XYZ[c] for q in R.hex_qubits[hx]})
    ops = {}
    for o in "HV":
        for r in range(14):
            L = lays[o]
            b, qs = (L.obs_h_before_sub_round if o == "H" else L.obs_v_before_sub_round)(r)
            b2, qs2 = L.obs_before_sub_round(r)
            other = lays["V" if o == "H" else "H"]
            b3, qs3 = (other.obs_h_before_sub_round if o == "H" else other.obs_v_before_sub_round)(r)
            check(b == b2 == b3 and list(qs) == list(qs2) == list(qs3), f"logical operator {o} at {r} is ambiguous", [w, h])
            op = {}
            for q in qs:
                mul(op, (q.real, q.imag), b)
            check(len(op) == len(qs) and all(q in set(R.data) for q in op), f"logical operator {o} at {r} malformed", [w, h])
            ops[o, r] = op
            k += 1
            if r:
                prev = dict(ops[o, r - 1])
                for a, b_, m in edges[(r - 1) % 3]:
                    if m in path[o]:
                        mul(prev, a, XYZ[(r - 1) % 3])
                        mul(prev, b_, XYZ[(r - 1) % 3])
                check(prev == op, f"{o} before sub-round {r} is not the previous one times the path parities of "
                                  f"sub-round {r - 1}", [w, h])
            for t in {r % 3, (r - 1) % 3}:
                for a, b_, m in edges[t]:
                    if r == 0 and t != 0:
                        continue
                    check(not anti(op, {a: XYZ[t], b_: XYZ[t]}),
                          f"{o} before sub-round {r} anticommutes with a measured edge at {m}", [w, h])
            for ho in hexops:
                check(not anti(op, ho), f"{o} before sub-round {r} anticommutes with a stabilizer", [w, h])
    late = list(range(14, 200 if w * h <= 48 else 40)) + [k + j for k in (96, 252, 300, 510, 996, 1020, 4092, 65532, 10 ** 6 + 2) for j in range(6)]
    for o in "HV":
        for r in late:
            L = lays[o]
            for f in ((L.obs_h_before_sub_round if o == "H" else L.obs_v_before_sub_round), L.obs_before_sub_round):
                b, qs = f(r)
                op = {}
                for q in qs:
                    mul(op, (q.real, q.imag), b)
                check(op == ops[o, r % 6 + 6], f"{o} before sub-round {r} differs from the one before sub-round {r % 6 + 6}", [w, h])
            k += 1
    for r in range(14):
        check(anti(ops["H", r], ops["V", r]) == 1, f"H and V before sub-round {r} do not anticommute", [w, h])
        check(not anti(ops["H", r], ops["V", (r + 3)]) if r < 11 else True, "the two logical qubits mix", [w, h])
    return k


def run_item(item):
    st = tr = ev = nt = 0
    if item[0] == "alg":
        for _, w, h in item[1]:
            k = algebra(w, h)
            tr += k
            st += k
            ev += 1
        return dict(states=st, transitions=tr, evaluations=ev, distinct_nontrivial=ev)
    sample = None
    for c in item[1]:
        ins, cnt = circuit_case(c)
        st += ins
        tr += cnt
        ev += 1
        sample = {"config": c, "undetected_preparation_basis": cnt}
    return dict(states=st, transitions=tr, evaluations=ev, distinct_nontrivial=ev, traces_validated_against_impl=ev,
                sample=sample)
