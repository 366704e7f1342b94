"""C04: detectors are exactly the available stabilizer comparisons, with their coordinates."""
from collections import Counter

from mc.core import Violation, check
from mc.engine import Circ
from mc.circlib import keyed, make, outcome_sets_to_records
from mc.refmodel import ref
from mc import configs

RULE = ("every configuration; the multiset of (coordinates, record set) of all detectors in the unrolled circuit equals "
        "the reference list of comparisons; states = detectors compared; non-trivial: at least one detector expected")
ASSUMPTIONS = ["qubit coordinates identify the measured edge"]
BOUNDS = {
    "quick": "as C01 (paper sizes u<=3)",
    "thorough": "as C01 thorough (paper sizes u<=5)",
}


def items(tier):
    return configs.chunks(configs.base_space(tier, paper=3)) + [["huge", configs.huge(tier)]]


def huge(c):
    """Number of detectors by period-6 extrapolation of the reference, and the coordinates of the last ones."""
    w, h, n, style, obs, p = c
    R = ref(w, h)
    n0 = 30 + n % 6
    d0, d1 = (R.detectors(k, obs) for k in (n0, n0 + 6))
    want = len(d0) + (n - n0) // 6 * (len(d1) - len(d0))
    circuit = make(c)
    check(circuit.num_detectors == want, lambda: f"{circuit.num_detectors} detectors, expected {want}", c)
    got = Counter(tuple(v) for v in circuit.get_detector_coordinates(only=range(want - 40, want)).values())
    late = Counter((x[0], x[1], x[2] + n - n0) for x, _ in d0)
    miss = got - late
    check(not miss, lambda: f"unexpected coordinates of late detectors {list(miss)[:3]}", c)
    last = Counter({k: v for k, v in late.items() if k[2] == n})
    check(not last - got, lambda: f"missing late detectors {list(last - got)[:3]}", c)


def run_item(item):
    st = ev = nt = tr = 0
    sample = None
    if item[0] == "huge":
        for c in item[1]:
            huge(c)
        k = len(item[1])
        return dict(states=40 * k, transitions=k, evaluations=k, distinct_nontrivial=k, traces_validated_against_impl=k)
    for c in item:
        w, h, n, style, obs, p = c
        circuit, circ, keys = keyed(c)
        R = ref(w, h)
        want = Counter()
        for xyz, s in R.detectors(n, obs):
            want[xyz, outcome_sets_to_records(style, s)] += 1
        got = Counter()
        for xyz, recs in zip(circ.det_coords, circ.det_records):
            s = set()
            for r in recs:
                s ^= {keys[r]}
            got[tuple(xyz), frozenset(s)] += 1
        if want != got:
            miss = [f"{k[0]} of {sorted(map(str, k[1]))[:14]}" for k in (want - got)][:2]
            more = [f"{k[0]} of {sorted(map(str, k[1]))[:14]}" for k in (got - want)][:2]
            raise Violation(f"detectors differ from the available comparisons: {sum((want - got).values())} missing "
                            f"{miss}; {sum((got - want).values())} unexpected {more}", {"config": c})
        # independent confirmation of the coordinates by stim on small circuits
        if w * h * n <= 300:
            sc = circuit.get_detector_coordinates()
            check(all(tuple(sc[k]) == tuple(circ.det_coords[k]) for k in range(len(circ.det_coords))),
                  "engine and stim disagree on coordinates", c)
            tr += 1
        st += sum(want.values())
        ev += 1
        nt += bool(want)
        sample = {"config": c, "detectors": sum(want.values()), "records": len(keys)}
    return dict(states=st, transitions=len(item), traces_validated_against_impl=ev, evaluations=ev, distinct_nontrivial=nt,
                sample=sample)
