"""C16: sampling honours shot limits, batch limits and stopping rules."""
import contextlib
import io
import itertools
import math
from fractions import Fraction

import stim

from mc.core import Violation, check
from mc.standin import replaced

RULE = ("stateless model checking of collect_simulated_experiment_data: for every parameter combination all sequences of batch "
        "outcomes are explored by replay (a scripted sampler stands in for sample_decode_count_correct), and after every "
        "batch the decision to continue or stop and the size of the next batch are compared with the documented rule; "
        "RemainingWork on the complete grid of small totals; states = batches taken, transitions = runs explored; "
        "non-trivial: run with at least two batches")
ASSUMPTIONS = ["min_shots >= 1", "the sampler reports between 0 and the requested number of correct shots"]
BOUNDS = {
    "quick": "limits up to 8 with all outcomes; limits up to 400 with boundary outcomes (0, 1, 48 %, 50 %, 10, n); two problems per run on a reduced set",
    "thorough": "limits up to 11 with all outcomes; limits up to 2000; two problems per run",
}


def desc(k=0):
    from collect_data import DecodingProblemDesc
    return DecodingProblemDesc(data_width=2 + 2 * k, data_height=6, code_distance=1 + k, num_qubits=30, rounds=6, noise=0.001 * (k + 1),
                               circuit_style="SD6", preserved_observable="H", decoder="pymatching")


class Branch(BaseException):
    def __init__(self, n):
        self.n = n


class Over(BaseException):
    def __init__(self, msg):
        self.msg = msg


def outcomes(n, full):
    if n <= full:
        return list(range(n + 1))
    errs = {0, 1, n, n // 2, math.ceil(n * 0.48), math.ceil(n * 0.48) - 1, 10, 9, n - 1, n // 10, 2}
    return sorted(n - e for e in errs if 0 <= e <= n)


def stop_rule(total, errs, prm):
    """True / False / None (numerically on the edge: both accepted)."""
    if total >= prm["max_shots"]:
        return True
    if total < prm["min_shots"]:
        return False
    var = Fraction(errs * (total - errs), total ** 3)
    sd = prm["max_sample_std_dev"] if prm["max_sample_std_dev"] is not None else 1
    lim = Fraction(sd) ** 2
    edge = abs(float(var) - float(lim)) <= 1e-12
    ok_sd = None if edge else var <= lim
    a = False
    if errs >= prm["min_seen_logical_errors"]:
        a = ok_sd
    b = False
    if errs >= 10:
        f = Fraction(48, 100) * total
        b = None if errs == f and errs < total * 0.48 else errs >= f
        if errs >= total * 0.48 and errs < f:
            b = None
    if a is True or b is True:
        return True
    if a is None or b is None:
        return None
    return False


def run_script(prm, scripts, nproblems):
    """Runs the real collector; scripts: per problem the list of correct counts.  Returns list of batches
    or raises Branch(n) when the script of the last problem ends and another batch of n is requested."""
    import collect_data
    import decoding
    log = [[] for _ in range(nproblems)]
    circuits = [stim.Circuit(f"X_ERROR(0.125) {k}\nM {k}\nDETECTOR rec[-1]") for k in range(nproblems)]

    def maker(k):
        return lambda: circuits[k].copy()

    def fake(*, num_shots, circuit, decoder, **kw):
        if circuit not in circuits:
            raise Violation("a batch was sampled from a circuit of no problem", {"parameters": prm})
        k = circuits.index(circuit)
        if any(len(log[j]) for j in range(k + 1, nproblems)) or (k and not log[k - 1]):
            raise Violation("problems are not sampled one after the other", {"parameters": prm})
        if decoder != "pymatching":
            raise Violation(f"a batch was decoded with {decoder!r}", {"parameters": prm})
        lst = log[k]
        lim = prm["max_batch"] if prm["max_batch"] is not None else prm["max_shots"]
        total = sum(n for n, _ in lst)
        case = {"parameters": prm, "batches (shots, correct)": list(lst), "problem": k}
        check(num_shots == int(num_shots) and num_shots >= 1, lambda: f"a batch of {num_shots} shots was requested", case)
        check(num_shots <= lim, lambda: f"a batch of {num_shots} shots exceeds the batch limit {lim}", case)
        check(total + num_shots <= prm["max_shots"], lambda: f"{total} + {num_shots} shots exceed the maximum {prm['max_shots']}", case)
        if lst:
            check(num_shots <= 2 * lst[-1][0], lambda: f"a batch of {num_shots} shots after one of {lst[-1][0]}", case)
            errs = sum(n - c for n, c in lst)
            r = stop_rule(total, errs, prm)
            check(r is not True, lambda: f"sampling continues with {num_shots} shots after {total} shots and {errs} errors", case)
        else:
            check(num_shots <= max(1, prm["min_shots"]), lambda: f"the first batch has {num_shots} shots", case)
        if len(lst) >= len(scripts[k]):
            raise Branch(num_shots)
        c = scripts[k][len(lst)]
        lst.append((num_shots, c))
        return c

    with replaced(decoding.sample_decode_count_correct, fake):
        kw = {k: v for k, v in prm.items() if v is not None}
        with contextlib.redirect_stdout(io.StringIO()):
            collect_data.collect_simulated_experiment_data(
                [collect_data.DecodingProblem(desc(k), maker(k)) for k in range(nproblems)],
                out_path=None, discard_previous_data=False, **kw)
    for k, lst in enumerate(log):
        total, errs = sum(n for n, _ in lst), sum(n - c for n, c in lst)
        case = {"parameters": prm, "batches (shots, correct)": lst, "problem": k}
        check(lst, "no batch was taken for a problem", case)
        check(stop_rule(total, errs, prm) is not False, lambda: f"sampling stopped after {total} shots and {errs} errors", case)
        check(len(lst) == len(scripts[k]), "script not consumed", case)
    return log


def explore(prm, full, depth, nproblems=1, prefix=()):
    """All outcome sequences of the last problem (earlier problems follow the given scripts)."""
    runs = batches = multi = 0
    stack = [[]]
    while stack:
        s = stack.pop()
        try:
            log = run_script(prm, [*prefix, s], nproblems)
        except Branch as b:
            runs += 1
            if len(s) >= depth:
                continue
            for o in reversed(outcomes(b.n, full)):
                stack.append(s + [o])
            continue
        runs += 1
        batches += len(log[-1])
        multi += len(log[-1]) > 1
    return runs, batches, multi


def params(small):
    out = []
    if small:
        m = 8 if small == 1 else 11
        for mn in (1, 2, 3, 4, m):
            for mx in (1, 2, 3, 5, m - 1, m):
                for mb in (None, 1, 2, 3, m):
                    for me in (0, 1, 2, 3, 100):
                        for sd in (None, 0.3, 0.1):
                            if mb == 1 and mx > 5:
                                continue
                            out.append(dict(min_shots=mn, max_shots=mx, max_batch=mb, min_seen_logical_errors=me, max_sample_std_dev=sd))
    return out


def big(th):
    out = []
    tops = (25, 60, 400) + ((100, 1000, 2000) if th else ())
    for mx in tops:
        for mn in (1, 10, 12, 20, 25, 50, 500):
            for mb in (None, 7, 20, 50):
                for me in (1, 10, 40, 10 ** 9):
                    for sd in (None, 0.05, 0.1):
                        # keep the number of batches per run small
                        if mb is not None and mx / mb > 9:
                            continue
                        if mn == 1 and mx > 60:
                            continue
                        out.append(dict(min_shots=mn, max_shots=mx, max_batch=mb, min_seen_logical_errors=me, max_sample_std_dev=sd))
    return out


def items(tier):
    th = tier == "thorough"
    ps = params(2 if th else 1)
    out = [["work", i] for i in range(8)]
    out += [["small", ps[i:i + 12]] for i in range(0, len(ps), 12)]
    bs = big(th)
    out += [["big", bs[i:i + 4], 5 if th else 4] for i in range(0, len(bs), 4)]
    two = [p for p in ps if p["min_shots"] in (1, 3) and p["max_shots"] in (3, 5) and p["max_batch"] in (None, 2) and p["max_sample_std_dev"] is None]
    out += [["two", two[i:i + 2]] for i in range(0, len(two), 2)]
    for mn, mx, mb in ((1000, 10 ** 8, None), (1000, 10 ** 8, 10 ** 6), (100, 10 ** 5, 1000), (1, 10 ** 6, None), (10, 777, 10), (64, 4096, 512)):
        out.append(["long", mn, mx, mb])
    return out


def run_long(item):
    """Long histories: at most one batch has errors, for every position and several counts."""
    _, mn, mx, mb = item
    runs = batches = 0
    for me, sd in ((1, None), (1000, None), (10 ** 9, None), (5, 1e-4)):
        prm = dict(min_shots=mn, max_shots=mx, max_batch=mb, min_seen_logical_errors=me, max_sample_std_dev=sd)

        def follow(at, errs, before=()):
            s = []
            while True:
                try:
                    return run_script(prm, [*before, s], 1 + len(before))
                except Branch as b:
                    s.append(b.n - (min(errs, b.n) if len(s) == at else 0))
                    check(len(s) < 3000, "sampling does not come to an end", {"parameters": prm})
        first = [c for _, c in follow(-1, 0)[0]]
        n = len(first)
        step = max(1, n // 12)
        for at in range(0, n, step):
            for errs in (1, 5, 1000):
                log = follow(at, errs)
                runs += 1
                batches += len(log[0])
        # a second problem after such a long first one starts afresh
        for at in (0, 1, 2, n // 2):
            for errs in (0, 1, 10, 1000):
                log = follow(at, errs, [first])
                runs += 1
                batches += len(log[1])
    return runs, batches, runs


def run_work(i):
    from collect_data import ShotData
    st = 0
    breakers = [0, 0.25, 0.48, 0.5, 1, 2]
    for shots in range(i, 33, 8):
        for correct in range(shots + 1):
            for secs in (0, 1.5, 40):
                for ms in (0, 1, 5, 9, 10, 11, 20, 32, 40, 10 ** 8):
                    for me in (0, 1, 2, 5, 10, 40, 10 ** 9):
                        for br in breakers:
                            d = ShotData(num_shots=shots, num_correct=correct, total_processing_seconds=secs)
                            w = d.remaining_work(ms, me, br)
                            errs = shots - correct
                            rate = errs / shots if shots else 1
                            fin = shots >= ms or errs >= me or (rate >= br and shots >= 10)
                            case = {"shots": shots, "correct": correct, "seconds": secs, "max_shots": ms, "max_errors": me, "breaker": br}
                            check(d.num_errors == errs and d.logical_error_rate == rate, "error count or rate", case)
                            check(bool(w.finished) == fin, lambda: f"finished is {w.finished}", case)
                            rs, re_ = (0, 0) if fin else (ms - shots, me - errs)
                            check(w.remaining_shots == rs, lambda: f"remaining shots {w.remaining_shots}, expected {rs}", case)
                            check(w.remaining_errors == re_, lambda: f"remaining errors {w.remaining_errors}, expected {re_}", case)
                            t = 0 if fin else min([rs * secs / shots if shots else math.inf, re_ * secs / errs if errs else math.inf])
                            g = w.remaining_time
                            check(g == t or abs(g - t) <= 1e-9 * abs(t), lambda: f"remaining time {g}, expected {t}", case)
                            check((d.num_shots, d.num_correct, d.total_processing_seconds) == (shots, correct, secs), "the data changed", case)
                            st += 1
    return st


def run_item(item):
    runs = batches = multi = 0
    sample = None
    if item[0] == "work":
        runs = batches = multi = run_work(item[1])
    elif item[0] == "long":
        runs, batches, multi = run_long(item)
    elif item[0] in ("small", "big"):
        for prm in item[1]:
            a, b, c = explore(prm, 8 if item[0] == "small" and prm["max_shots"] <= 8 else 11 if item[0] == "small" else 0,
                              depth=12 if item[0] == "small" else item[2])
            runs, batches, multi = runs + a, batches + b, multi + c
            sample = {"parameters": prm, "runs": a}
    else:
        for prm in item[1]:
            # all complete scripts of the first problem, then all of the second
            scripts = []
            stack = [[]]
            while stack:
                s = stack.pop()
                try:
                    run_script(prm, [s], 1)
                    scripts.append(s)
                except Branch as b:
                    stack.extend(s + [o] for o in outcomes(b.n, 8))
            for s in scripts:
                a, b, c = explore(prm, 8, 12, nproblems=2, prefix=(s,))
                runs, batches, multi = runs + a, batches + b, multi + c
            sample = {"parameters": prm, "runs": runs}
    return dict(states=batches, transitions=runs, evaluations=runs, distinct_nontrivial=multi, traces_validated_against_impl=runs, sample=sample)
