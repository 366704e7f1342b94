"""C14: decoding always answers, with a most likely correction."""
import heapq
import itertools
import math
import warnings

import numpy as np
import stim

from mc.core import Violation, check
from mc import refdem, configs
from mc.circlib import make

RULE = ("all graph-like error models with up to 3 detectors (every edge absent or with one of several probability/observable "
        "labels) and families with 4 detectors, multi-observable, conflicting, undetectable and decomposed mechanisms; every "
        "producible syndrome is decoded by the real code and compared with brute-force minimum weight over all edge subsets; "
        "all batches of two syndromes in both orders; on generated circuits all single and pairs of detection events against "
        "shortest paths per observable class; states = (model, syndrome) pairs; non-trivial: non-empty syndrome")
ASSUMPTIONS = ["mechanism probabilities are below 1/2", "ties within 1e-4 of the weight accept either prediction"]
BOUNDS = {
    "quick": "chains of 5 to 60 detectors with strengths down to 1e-9 (correction weights to 1300), 1728 models of parallel mechanisms; 5^6 models on 3 detectors, 3^10 models on 4 detectors, up to 7 observables; layouts 2x6 and 4x6 with n <= 12: all sets of up to 2 events (up to 4 where there are at most 40 detectors)",
    "thorough": "plus 2^15 models on 5 detectors; layouts to 6x6, n <= 18; sets of up to 4 events up to 60 detectors",
}
TOL = 1e-4


def best_predictions(g, nd, no):
    """{syndrome: (min weight, set of acceptable predictions)} by enumerating all edge subsets."""
    es = list(g.items())
    table = {(0, 0): 0.0}
    for (a, b), (p, obs) in es:
        m = (1 << a) | (0 if b == "B" else 1 << b)
        o = sum(1 << k for k in obs)
        w = refdem.weight(p)
        new = dict(table)
        for (s, f), v in table.items():
            k = (s ^ m, f ^ o)
            if v + w < new.get(k, math.inf):
                new[k] = v + w
        table = new
    out = {}
    for (s, f), v in table.items():
        out.setdefault(s, []).append((v, f))
    res = {}
    for s, lst in out.items():
        best = min(v for v, _ in lst)
        res[s] = (best, {f for v, f in lst if v <= best + TOL * (1 + abs(best))})
    return res


def circuit_for(mechs, nd, no, decoys=""):
    """A circuit whose detector error model is exactly the given mechanisms [(p, dets, obs)]."""
    lines = []
    for p, dets, obs in mechs:
        t = [f"X{d}" for d in dets] + [f"X{nd + o}" for o in obs]
        lines.append(f"E({p}) " + " ".join(t))
    lines.append("M " + " ".join(str(k) for k in range(nd + no)) if nd + no else "")
    tot = nd + no
    for d in range(nd):
        lines.append(f"DETECTOR({d}) rec[{d - tot}]")
    for o in range(no):
        lines.append(f"OBSERVABLE_INCLUDE({o}) rec[{nd + o - tot}]")
    return stim.Circuit(decoys + "\n".join(lines))


E3 = [(0,), (1,), (2,), (0, 1), (0, 2), (1, 2)]
E4 = [(0,), (1,), (2,), (3,), (0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)]
P3 = [0.01, 0.023, 0.049, 0.0131, 0.031, 0.071]
P4 = [0.01, 0.023, 0.049, 0.097, 0.0131, 0.031, 0.071, 0.0173, 0.041, 0.087]


def labels3(i, opt):
    """(p, obs) options for edge i; 0 = absent."""
    p = P3[i]
    return [None, (p, ()), (p * 2, (0,)), (p / 7, (1,)), (0.45, (0, 1))][opt]


def items(tier):
    th = tier == "thorough"
    out = [["three", 5, [a, b]] for a in range(5) for b in range(5)]
    out += [["four", 3, list(t)] for t in itertools.product(range(3), repeat=4)]
    out.append(["odd"])
    out += [["batch", i] for i in range(8)]
    out += [["line", n, e, b] for n in ((5, 12, 30, 60, 120) if th else (5, 12, 30, 60)) for e in (1e-2, 1e-4, 1e-6, 1e-9) for b in ("one", "both", "heavy")]
    out += [["par", a] for a in range(len(PAR))]
    lay = []
    for style in configs.STYLES:
        for obs in "HV":
            for n in (1, 2, 3, 4, 5, 6, 7, 9, 12) + ((15, 18) if th else ()):
                if configs.ok(style, n):
                    lay.append(configs.cfg(2, 6, n, style, obs, 0.004))
                    lay.append(configs.cfg(4, 6, n, style, obs, 0.004))
                    if th:
                        lay.append(configs.cfg(6, 6, n, style, obs, 0.004))
    out += [["lay", c, 60 if th else 40] for c in lay]
    if th:
        out += [["five", list(t)] for t in itertools.product(range(2), repeat=6)]
    return out


def run_five(item):
    E5 = [(a,) for a in range(5)] + list(itertools.combinations(range(5), 2))
    st = nt = 0
    case = None
    for rest in itertools.product(range(2), repeat=9):
        opts = [*item[1], *rest]
        mechs = [(round(0.011 + 0.0137 * i, 5), E5[i], (0,) if i % 3 == 0 else ()) for i in range(15) if opts[i]]
        case = {"mechanisms": str(mechs)}
        g = {(e[0], e[1] if len(e) == 2 else "B"): (p, frozenset(o)) for p, e, o in mechs}
        a, b = judge(circuit_for(mechs, 5, 1), g, 5, 1, case, extra_order=False)
        st, nt = st + a, nt + b
    return st, nt, case


def decode(circuit, rows):
    import decoding
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return decoding.decode_using_pymatching(circuit=circuit, det_samples=np.array(rows, dtype=bool).reshape(len(rows), circuit.num_detectors),
                                                use_correlated_decoding=False)


def bits(s, n):
    return [(s >> k) & 1 for k in range(n)]


def judge(circuit, g, nd, no, case, extra_order=True):
    """Decodes all producible syndromes; returns (pairs, nontrivial)."""
    best = best_predictions(g, nd, no)
    syn = sorted(best)
    pred = np.asarray(decode(circuit, [bits(s, nd) for s in syn]))
    check(pred.shape == (len(syn), no), lambda: f"predictions have shape {pred.shape}, expected {(len(syn), no)}", case)
    for i, s in enumerate(syn):
        f = sum(int(bool(pred[i][o])) << o for o in range(no))
        ok = best[s][1]
        check(f in ok, lambda: f"events {bits(s, nd)} decoded as {bits(f, no)}; minimum-weight corrections give {[bits(x, no) for x in ok]}", case)
    if extra_order:
        rev = np.asarray(decode(circuit, [bits(s, nd) for s in reversed(syn)]))[::-1]
        # order must not matter (ties must be resolved the same way for the same events)
        check((rev == pred).all(), "the prediction for a shot depends on the order of the shots", case)
    return len(syn), len(syn) - 1


def run_three(item):
    _, k, pre = item
    st = nt = 0
    sample = None
    for rest in itertools.product(range(k), repeat=6 - len(pre)):
        opts = [*pre, *rest]
        mechs = []
        for i, o in enumerate(opts):
            l = labels3(i, o)
            if l:
                mechs.append((l[0], E3[i], l[1]))
        case = {"mechanisms": str(mechs)}
        c = circuit_for(mechs, 3, 3)     # observable 2 is never touched
        g = {(e[0], e[1] if len(e) == 2 else "B"): (p, frozenset(o)) for p, e, o in mechs}
        a, b = judge(c, g, 3, 3, case, extra_order=sum(opts) % 4 == 1)
        st, nt = st + a, nt + b
        sample = case
    return st, nt, sample


def run_four(item):
    _, k, pre = item
    st = nt = 0
    sample = None
    for rest in itertools.product(range(k), repeat=10 - len(pre)):
        opts = [*pre, *rest]
        for variant in (0, 1) if k == 2 else (0,):
            mechs = []
            for i, o in enumerate(opts):
                if o:
                    obs = ((0,) if o == 2 else ()) if k == 3 else ((0,) if (i in (0, 3, 7, 8)) ^ variant else ())
                    mechs.append((P4[i] * (1.7 if o == 2 else 1), E4[i], obs))
            case = {"mechanisms": str(mechs)}
            g = {(e[0], e[1] if len(e) == 2 else "B"): (p, frozenset(o)) for p, e, o in mechs}
            a, b = judge(circuit_for(mechs, 4, 1), g, 4, 1, case, extra_order=False)
            st, nt = st + a, nt + b
            sample = case
    return st, nt, sample


def odd_models():
    """Models with conflicts, undetectable errors, many observables, skipped detectors, duplicated and decomposed mechanisms."""
    pieces = [
        (0.02, (0,), ()), (0.05, (0,), (1,)), (0.03, (0, 1), (0,)), (0.06, (0, 1), (1, 3)), (0.1, (), (0,)), (0.04, (1,), ()),
        (0.01, (2, 3), (4,)), (0.015, (3,), (0, 4)), (0.07, (1, 2), ()), (0.025, (4,), (2,)), (0, (2, 4), (3,)),
    ]
    for n in range(0, len(pieces) + 1):
        for combo in itertools.combinations(pieces, n):
            yield list(combo)


def run_odd(item):
    st = nt = 0
    sample = None
    for mechs in odd_models():
        for nd, no in ((5, 5), (6, 7)):
            c = circuit_for(mechs, nd, no)
            m = c.detector_error_model(decompose_errors=True)
            g, _, _, _ = refdem.edges(m)
            a, b = judge(c, g, nd, no, {"mechanisms": str(mechs), "detectors": nd, "observables": no}, extra_order=False)
            st, nt = st + a, nt + b
        sample = {"mechanisms": str(mechs)}
    # decomposed hyper-edges
    for extra in ((0, 1, 2, 3), (0, 1, 2), (1, 2, 3)):
        for base in itertools.product((0, 1), repeat=4):
            mechs = [(0.01 * (i + 1), e, (0,) if base[i] else ()) for i, e in enumerate([(0, 1), (2, 3), (1, 2), (3,)])] + [(0.02, (0,), ())]
            obs = 0
            mechs.append((0.005, extra, tuple(o for o in range(1) if False)))
            c = circuit_for(mechs, 4, 1)
            try:
                m = c.detector_error_model(decompose_errors=True)
            except ValueError:
                continue  # stim itself finds no decomposition
            g, _, _, _ = refdem.edges(m)
            a, b = judge(c, g, 4, 1, {"mechanisms": str(mechs)}, extra_order=False)
            st, nt = st + a, nt + b
    # zero detectors / zero observables / zero shots
    import decoding
    for mechs, nd, no in (([], 0, 0), ([], 0, 2), ([(0.1, (0,), ())], 1, 0), ([(0.1, (), (0,))], 0, 1), ([(0.1, (0,), (0,))], 1, 1)):
        c = circuit_for(mechs, nd, no) if nd + no else stim.Circuit()
        for shots in (0, 1, 3):
            p = np.asarray(decode(c, np.zeros((shots, nd), dtype=bool)))
            check(p.shape == (shots, no) and not p.any(), lambda: f"{shots} empty shots decoded as {p}", {"mechanisms": str(mechs)})
            st += 1
    return st, nt, sample


def run_batch(item):
    """All ordered pairs and triples of syndromes in one batch."""
    i = item[1]
    models = [
        [(0.02, (0,), (0,)), (0.03, (0, 1), ()), (0.05, (1, 2), (1,)), (0.01, (2,), ())],
        [(0.02, (0, 1), (0,)), (0.02, (1, 2), ()), (0.02, (2, 0), ())],
        [(0.1, (0,), ()), (0.1, (1,), (0,)), (0.1, (2,), (1,))],
        [(0.3, (0, 1), (0,)), (0.2, (0,), ()), (0.2, (1,), ()), (0.01, (2,), (0, 1))],
    ]
    mechs = models[i % 4]
    nd, no = 3, 2
    c = circuit_for(mechs, nd, no)
    g = {(e[0], e[1] if len(e) == 2 else "B"): (p, frozenset(o)) for p, e, o in mechs}
    g = {(k if k[1] == "B" or k[0] < k[1] else (k[1], k[0])): v for k, v in g.items()}
    best = best_predictions(g, nd, no)
    syn = sorted(best)
    alone = {s: np.asarray(decode(c, [bits(s, nd)]))[0].tolist() for s in syn}
    st = nt = 0
    for r in (2, 3) if i < 4 else (4,):
        for combo in itertools.product(syn, repeat=r):
            if r == 4 and not (combo[0] == combo[2] or combo[1] == combo[3]):
                continue
            p = np.asarray(decode(c, [bits(s, nd) for s in combo])).tolist()
            for k, s in enumerate(combo):
                check(p[k] == alone[s], lambda: f"shot {k} of batch {combo} decoded as {p[k]}, alone as {alone[s]}", {"mechanisms": str(mechs)})
                st += 1
                nt += s != 0
    return st, nt, {"mechanisms": str(mechs), "syndromes": syn}


def run_line(item):
    """A long chain of unlikely mechanisms: corrections that weigh hundreds are still found; all sets of up to two events."""
    _, n, p, ends = item
    mechs = [(p * (1 + 0.003 * k), (k, k + 1), (1,) if k % 3 == 1 else ()) for k in range(n - 1)]
    mechs.append((p, (0,), (0,)))
    if ends != "one":
        mechs.append((p if ends == "both" else p ** 1.5, (n - 1,), ()))
    c = circuit_for(mechs, n, 3)
    w = [refdem.weight(m[0]) for m in mechs]
    left = [w[n - 1]]       # from the left boundary to detector k
    flips = [1]
    for k in range(n - 1):
        left.append(left[-1] + w[k])
        flips.append(flips[-1] ^ (2 if k % 3 == 1 else 0))
    total = left[-1] + (w[n] if ends != "one" else math.inf)     # the whole cycle through the boundary
    allf = flips[-1]
    rows, ok = [()], [{0}]
    for a in range(n):
        for b in range(a, n):
            if a == b:
                inside, f = left[a], flips[a]
            else:
                inside, f = left[b] - left[a], flips[b] ^ flips[a]
            outside = total - inside
            t = TOL * (1 + min(inside, outside))
            rows.append((a,) if a == b else (a, b))
            ok.append(({f} if inside <= outside + t else set()) | ({f ^ allf} if outside <= inside + t else set()))
    m = np.zeros((len(rows), n), dtype=bool)
    for i, r in enumerate(rows):
        m[i, list(r)] = True
    pred = np.asarray(decode(c, m))
    case = {"chain": n, "probability": p, "ends": ends}
    check(pred.shape == (len(rows), 3), lambda: f"predictions have shape {pred.shape}", case)
    for r, o, q in zip(rows, ok, pred):
        f = sum(int(bool(q[k])) << k for k in range(3))
        check(f in o, lambda: f"events {r} of a chain decoded as {bits(f, 3)}; minimum-weight corrections give {[bits(x, 3) for x in o]}", case)
    return len(rows), len(rows) - 1, case


# Mechanisms that share their detectors combine to the probability of an odd number of them, also when that is large.
PAR = [[0.2, 0.2], [0.3, 0.3, 0.1], [0.25, 0.1], [0.05] * 6, [0.4, 0.01], [0.01, 0.4, 0.01]]


def run_par(item):
    st = nt = 0
    case = None
    for e, f, g3 in itertools.product(range(len(PAR)), repeat=3):
        for o in range(8):
            mechs = []
            for i, (edge, ps) in enumerate(zip(((0,), (0, 1), (1,)), (PAR[item[1]], PAR[e], PAR[f]))):
                mechs += [(p, edge, (0,) if o >> i & 1 else ()) for p in ps]
            mechs += [(p, (1, 2), (1,)) for p in PAR[g3]] + [(0.07, (0, 2), ())]
            case = {"mechanisms": str(mechs)}
            g = {}
            for p, ed, ob in mechs:
                k = (ed[0], ed[1] if len(ed) == 2 else "B")
                q = g[k][0] if k in g else 0
                g[k] = (q * (1 - p) + p * (1 - q), frozenset(ob))
            a, b = judge(circuit_for(mechs, 3, 2), g, 3, 2, case, extra_order=False)
            st, nt = st + a, nt + b
    return st, nt, case


def run_lay(item):
    c = make(item[1])
    m = c.detector_error_model(decompose_errors=True)
    g, _, nd, _ = refdem.edges(m)
    no = c.num_observables
    touched = sorted({o for _, obs in g.values() for o in obs})
    check(len(touched) <= 1, "expected one observable")
    adj = {}
    for (a, b), (p, obs) in g.items():
        o = 1 if obs else 0
        w = refdem.weight(p)
        b = nd if b == "B" else b
        adj.setdefault(a, []).append((b, o, w))
        adj.setdefault(b, []).append((a, o, w))

    def dijkstra(src):
        dist = {(src, 0): 0.0}
        h = [(0.0, src, 0)]
        while h:
            d, v, o = heapq.heappop(h)
            if d > dist[(v, o)]:
                continue
            for u, oo, w in adj.get(v, ()):
                k = (u, o ^ oo)
                nd_ = d + w
                if nd_ < dist.get(k, math.inf) - 1e-15:
                    dist[k] = nd_
                    heapq.heappush(h, (nd_, u, o ^ oo))
        return dist

    D = [dijkstra(v) for v in range(nd + 1)]
    inf = math.inf
    rows, ok = [np.zeros(nd, dtype=bool)], [{0}]
    for a in range(nd):
        wa = [D[nd].get((a, o), inf) for o in (0, 1)]
        cands = [((a,), wa)]
        for b in range(a + 1, nd):
            ws = [D[a].get((b, o), inf) for o in (0, 1)]
            wb = [D[nd].get((b, o), inf) for o in (0, 1)]
            for x in (0, 1):
                for y in (0, 1):
                    ws[x ^ y] = min(ws[x ^ y], wa[x] + wb[y])
            cands.append(((a, b), ws))
        for ev, ws in cands:
            if min(ws) < inf:
                r = np.zeros(nd, dtype=bool)
                r[list(ev)] = True
                rows.append(r)
                ok.append({o for o in (0, 1) if ws[o] <= min(ws) * (1 + TOL) + TOL})
    if nd <= item[2]:
        W = {}
        for a in range(nd):
            W[a, nd] = [D[nd].get((a, o), inf) for o in (0, 1)]
            for b in range(a + 1, nd):
                W[a, b] = [D[a].get((b, o), inf) for o in (0, 1)]

        def match(ev):
            if not ev:
                return [0.0, inf]
            best = [inf, inf]
            a = ev[0]
            for k in range(len(ev)):
                w = W[a, ev[k] if k else nd]
                if min(w) == inf:
                    continue
                sub = match(ev[1:k] + ev[k + 1:] if k else ev[1:])
                for x in (0, 1):
                    for y in (0, 1):
                        best[x ^ y] = min(best[x ^ y], w[x] + sub[y])
            return best
        for size in (3, 4):
            for ev in itertools.combinations(range(nd), size):
                ws = match(ev)
                if min(ws) < inf:
                    r = np.zeros(nd, dtype=bool)
                    r[list(ev)] = True
                    rows.append(r)
                    ok.append({o for o in (0, 1) if ws[o] <= min(ws) * (1 + TOL) + TOL})
    pred = np.asarray(decode(c, rows))
    check(pred.shape == (len(rows), no), lambda: f"predictions have shape {pred.shape}")
    for r, o, p in zip(rows, ok, pred):
        f = int(p[touched[0]]) if touched else 0
        check(sum(map(int, p)) == f, "an untouched observable is predicted as flipped", {"config": item[1]})
        check(f in o, lambda: f"events {np.nonzero(r)[0].tolist()} decoded as {f}, minimum weight gives {o}", {"config": item[1]})
    return len(rows), len(rows) - 1, {"config": item[1], "event sets": len(rows), "ambiguous": sum(len(o) > 1 for o in ok)}


def run_item(item):
    st, nt, sample = {"three": run_three, "four": run_four, "odd": run_odd, "batch": run_batch, "line": run_line, "par": run_par, "lay": run_lay, "five": run_five}[item[0]](item)
    return dict(states=st, transitions=st, evaluations=st, distinct_nontrivial=nt, traces_validated_against_impl=st, sample=sample)
