"""C12: the measurement tracker resolves names to the right records."""
import copy
import itertools

import stim

from mc.core import Violation, check

RULE = ("depth-first search over all operation sequences (measurements, multi-measurements, dummies, obstacles, groups of up to "
        "two references incl. nested Prev, re-grouping under an existing name, failing operations) over three names; after "
        "every operation all queries of up to three references are compared with a dictionary model, on a tracker that was "
        "queried at every ancestor and on a fresh one; states = operation prefixes, transitions = queries compared; "
        "non-trivial: query answered with at least one record")
ASSUMPTIONS = ["a query that touches both an obstacle and an unknown occurrence may answer nothing or be an error"]
BOUNDS = {
    "quick": "all sequences of 27 operations up to depth 3, 10 operations to depth 5, 4 operations to depth 9; queries of up to 3 references with offsets up to 4; all patterns of up to 3 of 6 operations repeated 160 times (single operations 1500 times) with every occurrence queried",
    "thorough": "27 operations to depth 4, 10 to depth 6, 4 to depth 11",
}
A, B, G = 0j, "b", (1, frozenset([2]))   # 0j is falsy on purpose
NAMES = {"A": A, "B": B, "G": G}


class Ref:
    """name -> occurrences, newest last; occurrence = frozenset of times or None (obstacle)."""

    def __init__(self):
        self.h = {}
        self.t = 0

    def clone(self):
        r = Ref()
        r.h = {k: list(v) for k, v in self.h.items()}
        r.t = self.t
        return r

    def query(self, refs):
        acc, obstacle, unknown = frozenset(), False, False
        for name, back in refs:
            occ = self.h.get(name, [])
            if back >= len(occ):
                unknown = True
            elif occ[-1 - back] is None:
                obstacle = True
            else:
                acc ^= occ[-1 - back]
        return acc, obstacle, unknown


def prev(k, form):
    from measure_tracker import Prev
    if form == 0:
        return k
    if form == 1:
        return Prev(k)
    if form == 2:
        return Prev(Prev(k))
    if form == 3:
        return Prev(k, offset=3)
    if form == 4:
        return Prev(Prev(k, offset=2))
    if form == 5:
        return Prev(Prev(Prev(k)), offset=2)
    if form == 6:
        return Prev(k, 2)
BACK = {0: 0, 1: 1, 2: 2, 3: 3, 4: 3, 5: 4, 6: 2}

# operations: (kind, names/refs, ...)
OPS = (
    [("meas", n) for n in ("A", "B", "AB", "AA", "BAB")]
    + [("dummy", n) for n in ("A", "B", "AB")]
    + [("obst", n) for n in ("A", "B", "AB")]
    + [("group", g, refs) for g, refs in (
        ("G", (("A", 0),)), ("G", (("A", 0), ("B", 0))), ("G", ()), ("G", (("A", 0), ("A", 1))), ("G", (("A", 0), ("A", 0))),
        ("G", (("G", 0), ("A", 0))), ("G", (("G", 1),)), ("G", (("B", 2), ("A", 1))), ("A", (("A", 0), ("B", 0))), ("A", (("G", 0),)),
        ("B", (("A", 1),)), ("A", (("A", 1),)), ("G", (("A", 4), ("B", 0))))]
    + [("dummy", "G"), ("obst", "G"), ("meas", "G")]
)
FEW = [("meas", "A"), ("meas", "AB"), ("dummy", "A"), ("obst", "A"), ("obst", "G"), ("group", "G", (("A", 0), ("B", 0))),
       ("group", "G", (("G", 0), ("A", 1))), ("group", "A", (("A", 1), ("G", 0))), ("meas", "B"), ("dummy", "GB")]
PUMP = [("meas", "A"), ("meas", "BA"), ("obst", "A"), ("dummy", "A"), ("group", "A", (("A", 0), ("B", 0))), ("group", "G", (("G", 0), ("A", 1)))]
TINY = [("meas", "A"), ("obst", "A"), ("group", "G", (("A", 0), ("A", 1))), ("dummy", "A")]
SETS = {"full": OPS, "few": FEW, "tiny": TINY}


def build_queries():
    single = [(n, f) for n in "ABG" for f in range(7)]
    out = [[]] + [[s] for s in single]
    base = [("A", 0), ("A", 1), ("B", 0), ("G", 0), ("G", 1), ("A", 2), ("B", 1)]
    out += [[x, y] for x in base for y in base]
    core = [("A", 0), ("A", 1), ("B", 0), ("G", 0), ("G", 1)]
    out += [list(t) for t in itertools.product(core[:4], repeat=3)]
    return out


QUERIES = build_queries()
QLIGHT = [[]] + [[(n, f)] for n in "ABG" for f in (0, 1, 2)] + [[x, y] for x in (("A", 0), ("G", 0), ("A", 1)) for y in (("B", 0), ("A", 0), ("G", 1))]


def apply(tracker, ref, op, case):
    kind = op[0]
    if kind == "meas":
        tracker.add_measurements(*[NAMES[n] for n in op[1]])
        for n in op[1]:
            ref.h.setdefault(n, []).append(frozenset([ref.t]))
            ref.t += 1
    elif kind in ("dummy", "obst"):
        if kind == "dummy":
            tracker.add_dummies(*[NAMES[n] for n in op[1]])
        else:
            tracker.add_dummies(*[NAMES[n] for n in op[1]], obstacle=True)
        for n in op[1]:
            ref.h.setdefault(n, []).append(None if kind == "obst" else frozenset())
    else:
        keys = [prev(NAMES[n], f) for n, f in op[2]]
        acc, obst, unk = ref.query([(n, BACK[f]) for n, f in op[2]])
        try:
            tracker.add_group(*keys, group_key=NAMES[op[1]])
        except Exception:
            check(unk, lambda: "grouping known names failed", case)
            return "failed"
        check(not unk or obst, lambda: "a group of an unknown occurrence was accepted", case)
        ref.h.setdefault(op[1], []).append(None if obst else acc)
    return "ok"


def ask(tracker, ref, queries, case, detectors=True):
    """Compares every query; returns (number compared, number with records)."""
    n = nt = 0
    anchors = [None] + [m for m in "ABG" if ref.h.get(m) and ref.h[m][-1] is not None and len(ref.h[m][-1]) == 1]
    for q in queries:
        keys = [prev(NAMES[m], f) for m, f in q]
        acc, obst, unk = ref.query([(m, BACK[f]) for m, f in q])
        for anchor in anchors if len(q) <= 2 else anchors[:1]:
            t0 = ref.t if anchor is None else next(iter(ref.h[anchor][-1])) + 1
            if acc and max(acc) >= t0 and not obst:
                continue  # a record that does not exist yet at that time
            kw = {} if anchor is None else {"for_time_after_measurement": NAMES[anchor]}
            n += 1
            try:
                got = tracker.get_record_targets(*keys, **kw)
            except Exception as ex:
                if unk:
                    continue
                raise Violation(f"query {q} after {anchor} failed: {type(ex).__name__}: {ex}", case)
            if obst:
                check(got is None, lambda: f"query {q} crosses an obstacle but yields {got}", case)
            else:
                check(not unk, lambda: f"query {q} of an unknown occurrence yields {got}", case)
                check(got is not None, lambda: f"query {q} yields nothing", case)
                vals = [t.value for t in got]
                want = sorted(t - t0 for t in acc)
                check(all(t.is_measurement_record_target for t in got), lambda: f"query {q}: not record targets", case)
                check(sorted(vals) == want, lambda: f"query {q} (after {anchor}) yields records {vals}, expected {want}", case)
                nt += bool(want)
            if detectors:
                c = stim.Circuit("M 0")
                tracker.append_detector(*keys, out_circuit=c, coords=(1, 2.5), **kw)
                if obst:
                    check(str(c) == "M 0", lambda: f"query {q} crosses an obstacle but made a detector", case)
                else:
                    check(len(c) == 2, lambda: f"query {q} made {len(c) - 1} detectors", case)
                    d = c[1]
                    check(d.name == "DETECTOR" and d.gate_args_copy() == [1, 2.5] and sorted(t.value for t in d.targets_copy()) == want,
                          lambda: f"query {q} made {d}", case)
        if len(q) <= 2 and hasattr(tracker, "measurement_time_set"):
            if not unk:
                ts = tracker.measurement_time_set(*keys)
                check(ts == (None if obst else acc), lambda: f"times of {q} are {ts}", case)
    return n, nt


def items(tier):
    th = tier == "thorough"
    out = [["full", [i], 3 if not th else 4] for i in range(len(OPS))] if not th else \
        [["full", [i, j], 4] for i in range(len(OPS)) for j in range(len(OPS))]
    out += [["few", [i, j], 6 if th else 5] for i in range(len(FEW)) for j in range(len(FEW))]
    out += [["tiny", [i, j], 11 if th else 9] for i in range(len(TINY)) for j in range(len(TINY))]
    out += [["pump", list(c), 160 if len(c) > 1 else 1500] for k in (1, 2, 3) for c in itertools.product(range(len(PUMP)), repeat=k)]
    return out


def run_pump(item):
    """Repeats a short pattern many times; every occurrence of every name stays reachable."""
    from measure_tracker import MeasurementTracker, Prev
    _, pattern, reps = item
    t, r = MeasurementTracker(), Ref()
    start = [("meas", "AB"), ("dummy", "AG"), ("meas", "G")]
    for op in start:
        apply(t, r, op, {"start": str(start)})
    n = nt = 0
    for k in range(reps):
        case = {"pattern": [str(PUMP[i]) for i in pattern], "repetitions": k + 1}
        for i in pattern:
            apply(t, r, PUMP[i], case)
        if k + 1 not in (1, 7, 8, 9, 33, 65, 100, 129, reps):
            continue
        for name in "ABG":
            occ = r.h[name]
            for back in range(len(occ)):
                got = t.get_record_targets(Prev(NAMES[name], offset=back) if back else NAMES[name])
                want = occ[-1 - back]
                if want is None:
                    check(got is None, lambda: f"occurrence {back} of {name} yields {got} but is an obstacle", case)
                else:
                    check(got is not None and sorted(x.value for x in got) == sorted(x - r.t for x in want),
                          lambda: f"occurrence {back} of {name} yields {got}, recorded at {sorted(want)} of {r.t}", case)
                    nt += bool(want)
                n += 1
            for back in (len(occ), len(occ) + 1):
                try:
                    got = t.get_record_targets(Prev(NAMES[name], offset=back))
                except Exception:
                    n += 1
                    continue
                raise Violation(f"occurrence {back} of {name} does not exist but yields {got}", case)
    return dict(states=reps, transitions=n, evaluations=n, distinct_nontrivial=nt, traces_validated_against_impl=n, sample=case)


def run_item(item):
    if item[0] == "pump":
        return run_pump(item)
    from measure_tracker import MeasurementTracker
    name, prefix, depth = item
    ops = SETS[name]
    st = tr = nt = val = 0
    sample = None

    def replay(seq, queries):
        """Fresh tracker, no queries before the end."""
        t, r = MeasurementTracker(), Ref()
        case = {"operations": [str(ops[i]) for i in seq]}
        for i in seq:
            apply(t, r, ops[i], case)
        return ask(t, r, queries, case)

    def dfs(tracker, ref, seq):
        nonlocal st, tr, nt, val
        case = {"operations": [str(ops[i]) for i in seq], "queried": "after every operation"}
        q = QUERIES if len(seq) <= 3 and name == "full" else QLIGHT
        a, b = ask(tracker, ref, q, case, detectors=len(seq) <= 4)
        st += 1
        tr += a
        nt += b
        if len(seq) == depth:
            if name == "full" or len(seq) % 2 == 1:
                val += replay(seq, QLIGHT)[0]
            return
        for i in range(len(ops)):
            t2, r2 = copy.deepcopy(tracker), ref.clone()
            apply(t2, r2, ops[i], {"operations": [str(ops[k]) for k in seq + [i]]})
            dfs(t2, r2, seq + [i])

    t, r = MeasurementTracker(), Ref()
    for k, i in enumerate(prefix):
        apply(t, r, ops[i], {"operations": [str(ops[j]) for j in prefix[:k + 1]]})
        ask(t, r, QLIGHT, {"operations": [str(ops[j]) for j in prefix[:k + 1]]})
    dfs(t, r, list(prefix))
    sample = {"operations": [str(ops[i]) for i in prefix], "states": st}
    return dict(states=st, transitions=tr, evaluations=tr, distinct_nontrivial=nt, traces_validated_against_impl=val, sample=sample)
