"""C02: the circuit measures exactly the requested schedule with the ideal joint statistics."""
import itertools

import stim

from mc.core import Violation, check
from mc.engine import Circ, pull_back, Space
from mc.circlib import make, keyed
from mc.refmodel import ref
from mc import configs

RULE = ("every configuration of the bounded space: exact multiset of measured edges/qubits, then equality of the two "
        "affine outcome spaces (all 2^m executions) of the circuit and of the reference schedule, directions and signs; "
        "plus every unsupported request of a finite list; non-trivial: at least one random outcome direction")
ASSUMPTIONS = ["stim's gate tableaus and its reference sample of a noiseless circuit are correct",
               "qubit coordinates identify the measured edge"]
BOUNDS = {
    "quick": "2x6: all n<=40, 4x6: all n<=24; all widths<=12, heights<=24 for n in 1,2,3,6 (others up to 8x12); "
             "2x6 n up to 302; both noisy and noiseless circuits",
    "thorough": "2x6,4x6 all n<=60; all widths<=16, heights<=36; 2x6 n up to 1005; paper sizes u<=2",
}


def items(tier):
    th = tier == "thorough"
    out = []
    for style in configs.STYLES:
        for obs in "HV":
            for n in range(1, (60 if th else 40) + 1):
                if configs.ok(style, n):
                    out.append(configs.cfg(2, 6, n, style, obs, 0))
                    out.append(configs.cfg(2, 6, n, style, obs))
                    if n <= (60 if th else 24):
                        out.append(configs.cfg(4, 6, n, style, obs))
            for w in range(2, (16 if th else 12) + 1, 2):
                for h in range(6, (36 if th else 24) + 1, 6):
                    for n in (1, 2, 3, 4, 5, 6, 9, 12, 15):
                        if configs.ok(style, n) and (w * h <= 96 and (n <= 6 or w * h * n <= 900) or n in (1, 2, 3, 6)):
                            out.append(configs.cfg(w, h, n, style, obs, 0 if (w + h + n) % 4 == 0 else 0.001))
            for w in (2, 4, 6, 8):
                for h in (6, 12, 18):
                    n = configs.mid_n(w, h, style, obs, 0)
                    if w * h * n <= (9000 if th else 1500):
                        out.append(configs.cfg(w, h, n, style, obs))
            for n in [100, 101, 102, 300, 301, 302] + ([1003, 1005] if th else []):
                if configs.ok(style, n):
                    out.append(configs.cfg(2, 6, n, style, obs))
            for (w, h) in configs.THIN if not th else configs.THIN + configs.THICK:
                out.append(configs.cfg(w, h, 3, style, obs))
                if w * h <= 100 or th:
                    out.append(configs.cfg(w, h, 6, style, obs))
            if th:
                for u in (1, 2):
                    out.append(configs.cfg(4 * u, 6 * u, 36 * u, style, obs))
    uniq = []
    seen = set()
    for c in out:
        if tuple(c) not in seen:
            seen.add(tuple(c))
            uniq.append(c)
    return [["refuse"]] + configs.chunks(uniq, budget=9000) + [["huge", configs.huge(tier)]]


def transform_pc3(v, keys_ref, pos, chains):
    """rec_t = sum of outcomes up to t, edge by edge."""
    out = 0
    rest = v
    for chain in chains:
        cur = 0
        for b in chain:
            if rest >> b & 1:
                cur ^= 1
            if cur:
                out |= 1 << b
    return out | (rest & pos)


def compare(c):
    w, h, n, style, obs, p = c
    R = ref(w, h)
    circuit, circ, keys = keyed(c)
    # --- one operation per qubit and time step
    busy = set()
    helper_ok = style == "EM3_v2" and p > 0
    for op in circ.seq:
        if op.kind == "tick":
            busy.clear()
            continue
        if helper_ok:
            continue
        qs = op.data if op.kind[0] in "ur" else [q for q, _ in op.data] if op.kind in ("m", "mr") else \
            [q for prod, _ in op.data for q, _ in prod]
        for q in qs:
            check(q not in busy, lambda: f"qubit {q} takes part in two operations of one time step ({op.name})", c)
            busy.add(q)
    # --- exactly the requested measurements
    rc, rkeys = R.schedule_circuit(n, obs)
    want = set(rkeys)
    got = set(keys)
    check(len(keys) == len(got), "a measurement is duplicated", c)
    if want != got:
        miss = sorted(map(str, want - got))[:3]
        more = sorted(map(str, got - want))[:3]
        raise Violation(f"measured set differs from the schedule of {n} sub-rounds: missing {miss} extra {more}", c)
    # --- joint statistics
    rcirc = Circ(rc)
    pos = {k: i for i, k in enumerate(rkeys)}
    masks = [1 << pos[k] for k in keys]           # circuit records named by reference position
    _, _, bad = pull_back(circ, masks)
    _, _, rbad = pull_back(rcirc, rcirc.singleton_masks())
    sample = sum(1 << pos[k] for k, b in zip(keys, circuit.without_noise().reference_sample()) if b)
    rsample = sum(1 << i for i, b in enumerate(rc.reference_sample()) if b)
    S, T = Space(bad), Space(rbad)
    if style == "PC3":
        # directions and the sample are in terms of records; translate the reference
        chains = {}
        dpos = 0
        for i, k in enumerate(rkeys):
            if k[0] == "e":
                chains.setdefault(k[1], []).append(i)
            else:
                dpos |= 1 << i
        ch = list(chains.values())
        T = Space(transform_pc3(v, rkeys, dpos, ch) for v in T.rows.values())
        rsample = transform_pc3(rsample, rkeys, dpos, ch)
    if len(S) != len(T) or any(v not in T for v in S.rows.values()):
        v = next((v for v in S.rows.values() if v not in T), None)
        if v is None:
            v = next(v for v in T.rows.values() if v not in S)
            raise Violation("outcomes that are jointly random in the schedule are fixed in the circuit",
                            {"config": c, "records": [str(rkeys[i]) for i in range(len(rkeys)) if v >> i & 1][:8]})
        raise Violation("outcomes vary together in the circuit in a way the schedule does not allow",
                        {"config": c, "records": [str(rkeys[i]) for i in range(len(rkeys)) if v >> i & 1][:8]})
    if (sample ^ rsample) not in T:
        raise Violation("a parity that is fixed by the schedule has the wrong sign", c)
    return len(keys), len(S), len(circ.seq)


def refusals():
    from honeycomb_layout import HoneycombLayout
    k = 0

    def refused(**kw):
        nonlocal k
        k += 1
        base = dict(data_width=2, data_height=6, sub_rounds=3, style="SD6", obs="V", noise=0.001)
        base.update(kw)
        try:
            got = HoneycombLayout(**base).make_circuit()
        except Exception:
            return
        raise Violation("an unsupported request produced a circuit", {"request": base, "instructions": len(got)})

    for style in configs.STYLES:
        for obs in "HV":
            for p in (0, 0.001):
                for (w, h) in [(2, 6), (4, 6), (4, 12)]:
                    refused(style=style, obs=obs, noise=p, data_width=w, data_height=h, sub_rounds=0)
                    if style == "SI1000":
                        for n in range(1, 41):
                            if n % 3:
                                refused(style=style, obs=obs, noise=p, data_width=w, data_height=h, sub_rounds=n)
            for n in range(-13, 0):
                for (w, h) in [(2, 6), (4, 6), (2, 12)]:
                    refused(style=style, obs=obs, data_width=w, data_height=h, sub_rounds=n)
            for w in (0, -1, -2, -4, -6, -8):
                for h in (6, 12, 0, -6):
                    refused(style=style, obs=obs, data_width=w, data_height=h)
            for h in (0, -1, -3, -6, -12, -18):
                refused(style=style, obs=obs, data_height=h)
            for w in (1, 3, 5, 7, 9, 11):
                refused(style=style, obs=obs, data_width=w)
            for h in (1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 13, 14, 15, 16, 17, 20, 21, 27):
                refused(style=style, obs=obs, data_height=h)
        for obs in ("X", "Z", "Y", "h", "v", "", "HV", None):
            refused(style=style, obs=obs)
    for style in ("sd6", "EM3_v1", "EM3_v3", "SI500", "CP3", "", "PC", "EM", "SD", None):
        for obs in "HV":
            refused(style=style, obs=obs)
    return k


def run_item(item):
    if item == ["refuse"]:
        k = refusals()
        return dict(evaluations=k, distinct_nontrivial=k, transitions=k, refused_requests=k)
    if item[0] == "huge":
        for c in item[1]:
            w, h, n, style, obs, p = c
            circuit = make(c)
            want = w * h // 2 * n + w * h
            check(circuit.num_measurements == want,
                  lambda: f"{n} sub-rounds should give {want} measurements, got {circuit.num_measurements}", c)
        k = len(item[1])
        return dict(states=k, transitions=k, evaluations=k, distinct_nontrivial=k, traces_validated_against_impl=k)
    st = tr = ev = nt = 0
    sample = None
    for c in item:
        recs, dirs, ins = compare(c)
        st += ins
        tr += recs
        ev += 1
        nt += dirs > 0
        sample = {"config": c, "records": recs, "random_directions": dirs}
    return dict(states=st, transitions=tr, traces_validated_against_impl=ev, evaluations=ev, distinct_nontrivial=nt,
                sample=sample)
