"""C23: figures show the recorded data."""
import contextlib
import io
import itertools
import math
import os
import shutil
import sys
import tempfile
import warnings

import numpy as np

from mc.core import Violation, check

RULE = ("all small data sets (two sizes x noise levels x outcomes incl. absent, no errors, all errors) through the real plotting "
        "functions with the drawn artists (curve points, shaded polygons, scatter points, dashed fits, labels, panel) read back "
        "and compared with values computed from the data by closed forms; all combinations of outcomes of three distances x "
        "two observables for the combined rates, fits and projections; every panel of every figure with its data present "
        "and all others present or absent; states = drawn or projected values compared; non-trivial: at least one curve point")
ASSUMPTIONS = ["all sizes of one curve family were run for a number of rounds proportional to their distance, as in the benchmark list",
               "matplotlib artists hold the drawn data"]
BOUNDS = {
    "quick": "plot_data: 7^4 data sets, mixed keys and 15 noise levels x up to 5 sizes with up to 10^9 shots; combined rates: 6^6 data sets; panels: every panel alone and all together",
    "thorough": "plot_data: 9^4; combined rates: 7^6",
}
OUT = [None, (10, 0), (10, 1), (10, 5), (10, 9), (10, 10), (1000, 3), (7, 4), (100000, 1)]


def desc(**kw):
    from collect_data import DecodingProblemDesc
    b = dict(data_width=4, data_height=6, code_distance=4, num_qubits=60, rounds=12, noise=0.001, circuit_style="honeycomb_SD6",
             preserved_observable="H", decoder="internal")
    b.update(kw)
    return DecodingProblemDesc(**b)


def shot(n, e):
    from collect_data import ShotData
    return ShotData(num_shots=n, num_correct=n - e, total_processing_seconds=1.0)


def data_of(pairs):
    from collect_data import ProblemShotData
    return ProblemShotData({d: shot(*o) for d, o in pairs if o is not None})


def cell(e, n):
    if e > 0.5:
        return 1 - cell(1 - e, n)
    return 0.5 if e == 0.5 else -math.expm1(math.log1p(-2 * e) / n) / 2


def near(a, b, rel=1e-9, ab=1e-12):
    return abs(a - b) <= ab + rel * max(abs(a), abs(b))


def same_points(got, want, rel=1e-9):
    got, want = sorted(got), sorted(want)
    return len(got) == len(want) and all(near(x, y, rel) for a, b in zip(got, want) for x, y in zip(a, b))


def polygons(ax):
    """[({x: (low, high)}, facecolor)] of the shaded regions of an axes."""
    out = []
    for c in ax.collections:
        if "Poly" not in type(c).__name__:
            continue
        m = {}
        for p in c.get_paths():
            for x, y in p.vertices:
                lo, hi = m.get(x, (math.inf, -math.inf))
                m[x] = (min(lo, y), max(hi, y))
        fc = c.get_facecolor()
        out.append((m, tuple(fc[0][:3]) if len(fc) else None))
    return out


def lines(ax):
    import matplotlib.colors as mc
    return [(l.get_label(), [(float(x), float(y)) for x, y in zip(l.get_xdata(), l.get_ydata())], tuple(mc.to_rgb(l.get_color())), l.get_linestyle())
            for l in ax.lines]


def expected_curves(data):
    """{curve key: (label, points, bounds)} computed from the data."""
    groups = {}
    for d, s in data.data.items():
        groups.setdefault(tuple(getattr(d, f) for f in ("data_width", "data_height", "code_distance", "num_qubits", "rounds", "circuit_style",
                                                        "preserved_observable", "decoder")), []).append((d.noise, s))
    out = []
    for k, lst in groups.items():
        cells = math.ceil(k[4] / k[2])
        pts, bounds = [], {}
        for noise, s in lst:
            if s.num_errors:
                pts.append((noise, cell(s.num_errors / s.num_shots, cells)))
            lo, hi = shot(s.num_shots, s.num_errors).likely_error_rate_bounds(desired_ratio_vs_max_likelihood=1e-3)
            bounds[noise] = (cell(lo, cells), cell(hi, cells))
        out.append((f"{k[4]} rounds, {k[0]}x{k[1]} data", sorted(pts), bounds))
    return out


def compare_axes(ax, data, case):
    want = expected_curves(data)
    ls, ps = lines(ax), polygons(ax)
    check(len(ls) == len(want), lambda: f"{len(ls)} curves are drawn for {len(want)} problem families", case)
    check(len(ps) == len(want), lambda: f"{len(ps)} shaded regions are drawn for {len(want)} problem families", case)
    if len(ls) <= 8:
        check(len({l[2] for l in ls}) == len(ls), "two curves have the same colour", case)
    n = 0
    todo = list(want)
    pool = list(ps)
    for label, pts, color, style in ls:
        check(pts == sorted(pts), lambda: f"the curve {pts} is not in order of noise", case)
        hit = None
        for w in todo:
            if w[0] == label and same_points(pts, w[1]):
                # the shaded region of the same colour
                for p in pool:
                    if p[1] is not None and all(near(a, b, 1e-3, 2e-3) for a, b in zip(p[1], color)):
                        b = w[2]
                        if len(p[0]) == len(b) and all(any(near(x, y) for y in b) for x in p[0]) and \
                                all(near(p[0][x][0], b[min(b, key=lambda y: abs(y - x))][0], 1e-9) and near(p[0][x][1], b[min(b, key=lambda y: abs(y - x))][1], 1e-9) for x in p[0]):
                            hit = (w, p)
                            break
                if hit:
                    break
        check(hit is not None, lambda: f"the curve {label!r} {pts} (with its shaded region) is not that of any problem family; expected one of {[(w[0], w[1]) for w in todo]}", case)
        todo.remove(hit[0])
        pool.remove(hit[1])
        n += len(pts) + len(hit[1][0])
    return n


def plt():
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as p
    warnings.simplefilter("ignore")
    return p


SIZES = [dict(data_width=4, data_height=6, code_distance=4, num_qubits=60, rounds=12),
         dict(data_width=8, data_height=12, code_distance=8, num_qubits=240, rounds=24)]


def run_curves(item):
    from plotting import plot_data
    p = plt()
    _, a, b, k = item
    st = nt = 0
    fig = p.figure()
    ax = fig.add_subplot()
    for c, d in itertools.product(range(k), repeat=2):
        outs = [OUT[i] for i in (a, b, c, d)]
        pairs = [(desc(noise=0.002, **SIZES[0]), outs[1]), (desc(noise=0.001, **SIZES[0]), outs[0]),
                 (desc(noise=0.001, **SIZES[1]), outs[2]), (desc(noise=0.0007, **SIZES[1]), outs[3])]
        data = data_of(pairs)
        ax.clear()
        case = {"data": [(str(x), o) for x, o in pairs if o]}
        plot_data(data, title="T", fig=fig, ax=ax, legend=bool((c + d) % 2), marker_offset=c % 5, focus_on_threshold=bool(d % 2))
        check(ax.get_title() == "T", "the title is missing", case)
        st += compare_axes(ax, data, case)
        nt += any(o and o[1] for o in outs)
    p.close(fig)
    return st, nt, case


def run_mixed():
    """Families that differ in one field each; many noise levels; many sizes; own figure; file output."""
    from plotting import plot_data
    p = plt()
    st = 0
    base = dict(SIZES[0])
    variants = [dict(), dict(preserved_observable="V"), dict(decoder="internal_correlated"), dict(circuit_style="honeycomb_EM3"), dict(rounds=24),
                dict(rounds=13), dict(code_distance=5), dict(num_qubits=61), dict(data_width=6), dict(data_height=12), dict(rounds=1), dict(rounds=4)]
    root = tempfile.mkdtemp(prefix="mc_c23_")
    case = None
    try:
        for n in (1, 2, 3, len(variants)):
            for combo in itertools.combinations(range(len(variants)), n):
                pairs = []
                for j, v in enumerate(combo):
                    for i, noise in enumerate((0.003, 0.0005, 0.01, 0.0005000001)):
                        e = [0, 5, 40, 77, 50][(i + j) % 5]
                        pairs.append((desc(noise=noise, **{**base, **variants[v]}), (100 + j, e)))
                data = data_of(pairs)
                case = {"data": [(str(x), o) for x, o in pairs]}
                if n == len(variants):
                    out = os.path.join(root, "f.png")
                    fig, ax = plot_data(data, title="mixed", out_path=out)
                    check(os.path.getsize(out) > 1000, "no figure was written", case)
                else:
                    fig, ax = plot_data(data, title="mixed")
                check(fig.axes == [ax], "the figure has other axes", case)
                st += compare_axes(ax, data, case)
                p.close("all")
        from collect_data import ProblemShotData
        fig, ax = plot_data(ProblemShotData({}), title="empty")
        check(not ax.lines, "curves without data")
        p.close("all")
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return st, st, case


NOISE15 = [0.0001, 0.0002, 0.0003, 0.0005, 0.0007, 0.001, 0.0015, 0.002, 0.003, 0.005, 0.007, 0.01, 0.015, 0.02, 0.03]


def run_rates():
    """Fifteen noise levels and five sizes with outcomes of every magnitude that collection can record."""
    from plotting import plot_data
    p = plt()
    outs = [(n, e) for n in (1, 2, 25, 10 ** 3, 10 ** 5, 3 * 10 ** 6, 10 ** 7, 10 ** 8, 10 ** 9)
            for e in sorted({0, 1, 2, 7, 1000, n // 1000, n // 3, n // 2, n - n // 3, n - 1, n}) if e <= n]
    st = 0
    case = None
    for focus in (False, True):
        for start in range(0, len(outs), 15):
            for u in (1, 2, 3, 4, 5):
                pairs = []
                for v in range(1, u + 1):
                    for i, noise in enumerate(NOISE15):
                        pairs.append((desc(data_width=4 * v, data_height=6 * v, code_distance=4 * v, num_qubits=60 * v * v, rounds=12 * v, noise=noise),
                                      outs[(start + i + 7 * (v - u)) % len(outs)]))
                data = data_of(pairs)
                case = {"data": [(str(x), o) for x, o in pairs]}
                fig, ax = plot_data(data, title="rates", focus_on_threshold=focus, legend=bool(start % 2))
                st += compare_axes(ax, data, case)
                p.close("all")
    return st, st, {"outcomes": len(outs), "noise levels": 15}


# ------------------------------------------------------------------ combined rates and projections
def fit(xs, ys):
    n = len(xs)
    mx, my = sum(xs) / n, sum(ys) / n
    sxx = sum((x - mx) ** 2 for x in xs)
    s = sum((x - mx) * (y - my) for x, y in zip(xs, ys)) / sxx
    return s, my - s * mx, sxx, mx


def expected_group(pairs_h, pairs_v, cells):
    """pairs: {distance: (shots, errors)}."""
    xs, ys = [], []
    for d in sorted(set(pairs_h) | set(pairs_v)):
        h = pairs_h.get(d) or pairs_v.get(d)
        v = pairs_v.get(d) or pairs_h.get(d)
        if h[1] and v[1]:
            a, b = cell(h[1] / h[0], cells), cell(v[1] / v[0], cells)
            xs.append(d)
            ys.append(1 - (1 - a) * (1 - b))
    return xs, ys


def projections(xs, ys):
    """None if errors do not appear to be suppressed, else (slope, intercept, slope range)."""
    if len(xs) <= 1:
        return None
    L = [math.log(y) for y in ys]
    s, b, sxx, mx = fit(xs, L)
    if (s < -0.02 and b < -0.1) or s < -1:
        w = math.sqrt(1 / sxx)
        return s, b, s - w, s + w
    return None


def qubits(d, style, rep):
    q0, d0 = rep
    if "surface" in style:
        return (q0 + 1) * (d / d0) ** 2 - 1
    d = math.ceil(d / 4) * 4
    return q0 * (d / d0) ** 2


def count_options(d, style, rep, tol):
    return [qubits(k, style, rep) for k in {math.ceil(d - tol), math.ceil(d + tol)}]


def on_edge(xs, ys):
    if len(xs) <= 1:
        return False
    s, b, _, _ = fit(xs, [math.log(y) for y in ys])
    return min(abs(s + 0.02), abs(b + 0.1), abs(s + 1)) < 1e-9


COMBO = [None, (1000, 0), (1000, 30), (1000, 2), (100, 45), (1000, 700), (10 ** 7, 1)]
FAMILY = {"honeycomb": [(4, 60, 12), (8, 240, 24), (12, 540, 36)], "surface": [(3, 17, 9), (7, 97, 21), (11, 241, 33)]}


def family_desc(fam, i, obs, noise=0.001, style=None, decoder="internal"):
    d, q, r = FAMILY[fam][i]
    w, h = (d, d) if fam == "surface" else (d, d * 3 // 2)
    return desc(data_width=w, data_height=h, code_distance=d, num_qubits=q, rounds=r, noise=noise, preserved_observable=obs,
                circuit_style=style or fam + "_SD6", decoder=decoder)


def run_combo(item):
    import paper.main_render_lambda_figure as m
    _, fam, first, k = item
    st = nt = 0
    case = None
    names = "HV" if fam == "honeycomb" else "XZ"
    dist = [x[0] for x in FAMILY[fam]]
    for rest in itertools.product(range(k), repeat=5):
        idx = (first,) + rest
        # order of the data: vary which description comes first
        pairs = []
        for j in range(6):
            o = COMBO[idx[j]]
            pairs.append((family_desc(fam, j // 2, names[j % 2]), o))
        if sum(idx) % 2:
            pairs.reverse()
        data = data_of(pairs)
        if not data.data:
            continue
        with contextlib.redirect_stdout(io.StringIO()):
            g = m.LambdaGroup.groups_from_data(data)
            check(set(g) == {0.001}, lambda: f"groups {sorted(g)}")
            g = g[0.001]
            xs, ys = g.combo_data
        h = {dist[j // 2]: COMBO[idx[j]] for j in (0, 2, 4) if COMBO[idx[j]]}
        v = {dist[j // 2]: COMBO[idx[j]] for j in (1, 3, 5) if COMBO[idx[j]]}
        wx, wy = expected_group(h, v, 3)
        case = {"H/X": h, "V/Z": v, "family": fam}
        check(list(xs) == wx and same_points([(a,) for a in ys], [(a,) for a in wy], 1e-7), lambda: f"combined rates {list(zip(xs, ys))}, expected {list(zip(wx, wy))}", case)
        st += len(wx)
        nt += bool(wx)
        check(g.has_low_confidence_extrapolation == (min(len(h), len(v)) < 3), "low-confidence mark", case)
        if on_edge(wx, wy):
            continue
        pr = projections(wx, wy)
        check(bool(g.appears_to_be_suppressing_errors) == (pr is not None), lambda: "suppression is judged differently", case)
        if pr is None:
            continue
        s, b, slo, shi = pr
        st += 1
        for tp in (1e-12, 1e-6, 1.0):
            d = (math.log(tp) - b) / s
            check(near(g.projected_distance(tp), d, 1e-6), lambda: f"projected distance {g.projected_distance(tp)}, expected {d}", case)
            style = fam + "_SD6"
            rep = (g.rep.num_qubits, g.rep.code_distance)
            q = g.projected_required_qubit_count(tp, style)
            check(any(near(q, o, 1e-6) for o in count_options(d, style, rep, 1e-6)), lambda: f"projected qubits {q}, expected {count_options(d, style, rep, 1e-6)}", case)
        for dd in (3, 10.5):
            check(near(g.projected_error(dd), math.exp(s * dd + b), 1e-6), "projected error", case)
        if sum(idx) % 5 == 0:
            lam = g.projected_lambda_range()
            want = [math.exp(-2 * x) for x in (slo, s, shi)]
            check(len(lam) == 3 and near(lam[1], want[1], 1e-6) and all(near(x, y, 2e-3) for x, y in zip(sorted((lam[0], lam[2])), sorted((want[0], want[2])))),
                  lambda: f"lambda range {lam}, expected {want}", case)
            L = [math.log(y) for y in wy]
            s2, b2, sxx, mx = fit(L, wx)
            t = math.log(1e-12)
            mid = b2 + s2 * t
            half = math.sqrt(1 / len(L) + (t - mx) ** 2 / sxx)
            got = g.projected_qubit_count_range(1e-12, fam + "_SD6")
            rep = (g.rep.num_qubits, g.rep.code_distance)
            for x, d in zip(sorted(got), sorted((mid - half, mid + half))):
                opts = count_options(d, fam + "_SD6", rep, 2e-3 * (1 + half))
                if d > 0:
                    check(any(near(x, o, 1e-6) for o in opts), lambda: f"qubit range {got}, expected {opts}", case)
            st += 2
    return st, nt, case


def panel_data(cases, extra=()):
    """Data for each (style, decoder[, obs]) with its own recognisable outcomes."""
    pairs = []
    for n, (style, obs_list, decoder) in enumerate(cases):
        fam = style.split("_")[0]
        for i in range(3):
            for k, noise in enumerate((0.001, 0.002)):
                for j, obs in enumerate(obs_list):
                    e = [400, 60, 7][i] + 3 * n + 11 * j + 25 * k
                    pairs.append((family_desc(fam, i, obs, noise, style, decoder), (2000 + 7 * n, e)))
    return pairs


STYLES = [("surface_SD6", "XZ"), ("surface_SI1000", "XZ"), ("honeycomb_SD6", "HV"), ("honeycomb_SI1000", "HV"), ("honeycomb_EM3_v2", "HV")]
CASES = [(s, o, d) for s, o in STYLES for d in ("internal", "internal_correlated")]
OTHERS = [("honeycomb_PC3", "HV", "internal"), ("honeycomb_EM3", "HV", "internal_correlated"), ("surface_PC3", "XZ", "internal"),
          ("honeycomb_SD6", "HV", "pymatching"), ("surface_SI1000", "XZ", "pymatching")]
MODEL = {"SD6": "SD6", "SI1000": "SI1000", "EM3": "EM3_v2"}


def subset(data, **kw):
    from collect_data import ProblemShotData
    return ProblemShotData({d: s for d, s in data.data.items() if all(getattr(d, k) == v for k, v in kw.items())})


def grid_of(fig, nrows, ncols):
    axs = fig.axes[:nrows * ncols]
    return [axs[r * ncols:(r + 1) * ncols] for r in range(nrows)]


def run_threshold(item):
    import paper.main_render_threshold_figure as m
    p = plt()
    _, which, focused = item
    cases = CASES if which == -1 else [CASES[which]] if which < len(CASES) else CASES + OTHERS
    data = data_of(panel_data(cases))
    case = {"figure": "thresholds", "focused": focused, "present": [str(c) for c in cases]}
    fig = m.plot_thresholds(data, focused=focused)
    nrows = 2 if focused else 8
    g = grid_of(fig, nrows, 3)
    st = 0
    cols = {}
    for c in range(3):
        titles = [g[r][c].get_title() for r in range(nrows) if g[r][c].get_title()]
        check(len(titles) == 1 and titles[0] in MODEL, lambda: f"column {c} is titled {titles}", case)
        cols[c] = MODEL[titles[0]]
    seen = set()
    for r in range(nrows):
        lab = g[r][0].get_ylabel().split("\n")
        check(len(lab) == 3, lambda: f"row {r} is labelled {lab}", case)
        fam = lab[0].split()[0].lower()
        dec = "internal_correlated" if "Correlated" in lab[0] else "internal"
        obs = {"Horizontal": "H", "Vertical": "V"}.get(lab[1].split()[0], lab[1].split()[0])
        for c in range(3):
            style = f"{fam}_{cols[c]}"
            if style == "surface_EM3_v2":
                check(not g[r][c].lines, "curves in an unused panel", case)
                continue
            sub = subset(data, circuit_style=style, preserved_observable=obs, decoder=dec)
            st += compare_axes(g[r][c], sub, dict(case, panel=[style, obs, dec]))
            seen.add((style, obs, dec))
    if not focused:
        check(len(seen) == 20, lambda: f"{len(seen)} different panels", case)
    p.close("all")
    return st, st, case


def groups_expected(data, style, decoder):
    """{noise: (xs, ys, rep)} of one family."""
    out = {}
    sub = subset(data, circuit_style=style, decoder=decoder)
    for noise in {d.noise for d in sub.data}:
        h, v = {}, {}
        rep = None
        for d, s in sub.data.items():
            if d.noise == noise:
                rep = rep or (d.num_qubits, d.code_distance)
                (h if d.preserved_observable in "HX" else v)[d.code_distance] = (s.num_shots, s.num_errors)
        out[noise] = (*expected_group(h, v, 3), rep)
    return out


def run_lambda(item):
    import paper.main_render_lambda_figure as m
    p = plt()
    _, which, kind = item
    cases = CASES if which == -1 else [CASES[which]] if which < len(CASES) else CASES + OTHERS
    pairs = panel_data(cases)
    if which % 2:
        pairs.reverse()
    data = data_of(pairs)
    case = {"figure": kind, "present": [str(c) for c in cases]}
    st = 0
    with contextlib.redirect_stdout(io.StringIO()):
        if kind in ("fits", "fits-focus"):
            fig, _ = m.plot_lambda_line_fits_combo(data, focus=kind == "fits-focus")
        elif kind == "lambda":
            fig, _ = m.plot_lambda_combo(data)
        else:
            fig, _ = m.plot_teraquop_combo(data)
    if kind.startswith("fits"):
        nrows = 4 if kind == "fits" else 2
        g = grid_of(fig, nrows, 3)
        cols = {}
        for c in range(3):
            titles = [g[r][c].get_title() for r in range(nrows) if g[r][c].get_title()]
            check(len(titles) == 1 and titles[0] in MODEL, lambda: f"column {c} is titled {titles}", case)
            cols[c] = MODEL[titles[0]]
        for r in range(nrows):
            lab = g[r][0].get_ylabel().split("\n")[0]
            fam = lab.split()[0].lower()
            dec = "internal_correlated" if "Correlated" in lab else "internal"
            for c in range(3):
                style = f"{fam}_{cols[c]}"
                want = {} if style == "surface_EM3_v2" else groups_expected(data, style, dec)
                ax = g[r][c]
                cs = dict(case, panel=[style, dec])
                sc = {x.get_label(): [tuple(map(float, o)) for o in x.get_offsets()] for x in ax.collections if len(x.get_offsets())}
                check(set(sc) == {f"{n}" for n in want}, lambda: f"points for noise levels {sorted(sc)}, expected {sorted(want)}", cs)
                fits = []
                for noise, (xs, ys, rep) in want.items():
                    check(same_points(sc[f"{noise}"], list(zip(xs, ys)), 1e-7), lambda: f"points {sc[f'{noise}']}, expected {list(zip(xs, ys))}", cs)
                    pr = projections(xs, ys)
                    st += len(xs)
                    if pr:
                        fits.append([((math.log(y) - pr[1]) / pr[0], y) for y in (1.0, 1e-13)])
                ls = [l[1] for l in lines(ax) if l[3] == "--"]
                check(len(ls) == len(fits) == len(lines(ax)), lambda: f"{len(ls)} fits are drawn, expected {len(fits)}", cs)
                for f in fits:
                    check(any(same_points(l, f, 1e-6) for l in ls), lambda: f"the fit {f} is not drawn", cs)
    else:
        axs = fig.axes[:3]
        for ax in axs:
            name = ax.get_title()
            check(name in MODEL, lambda: f"a panel is titled {name!r}", case)
            ls = {l[0]: l for l in lines(ax)}
            want = {}
            for fam in ("honeycomb", "surface"):
                for dec in ("internal", "internal_correlated"):
                    style = f"{fam}_{MODEL[name]}"
                    if (fam, name) == ("surface", "EM3"):
                        continue
                    ge = groups_expected(data, style, dec)
                    if ge:
                        want[f"{fam.capitalize()} ({'Correlated' if 'corr' in dec else 'Standard'})"] = (style, ge)
            check(set(ls) == set(want), lambda: f"panel {name} has the curves {sorted(ls)}, expected {sorted(want)}", case)
            ps = polygons(ax)
            check(len(ps) == len(want), lambda: f"panel {name} has {len(ps)} shaded regions", case)
            for lab, (style, ge) in want.items():
                pts = dict(ls[lab][1])
                exp = {}
                rng = {}
                for noise, (xs, ys, rep) in ge.items():
                    pr = projections(xs, ys)
                    if pr is None:
                        continue
                    s, b, slo, shi = pr
                    if kind == "lambda":
                        exp[noise] = [math.exp(-2 * s)]
                        rng[noise] = ([math.exp(-2 * shi)], [math.exp(-2 * slo)], 2e-3)
                    else:
                        exp[noise] = count_options((math.log(1e-12) - b) / s, style, rep, 1e-6)
                        L = [math.log(y) for y in ys]
                        s2, b2, sxx, mx = fit(L, xs)
                        t = math.log(1e-12)
                        mid, half = b2 + s2 * t, math.sqrt(1 / len(L) + (t - mx) ** 2 / sxx)
                        rng[noise] = (count_options(mid - half, style, rep, 4e-3), count_options(mid + half, style, rep, 4e-3), 1e-6)
                cs = dict(case, curve=[name, lab])
                check(set(pts) == set(exp), lambda: f"points at {sorted(pts)}, expected {sorted(exp)}", cs)
                for noise, opts in exp.items():
                    check(any(near(pts[noise], o, 1e-6) for o in opts), lambda: f"value {pts[noise]} at {noise}, expected {opts}", cs)
                    st += 1
                ok = any(set(q) == set(rng) and all(any(near(q[n][0], o, rng[n][2]) for o in rng[n][0]) and any(near(q[n][1], o, rng[n][2]) for o in rng[n][1]) for n in rng)
                         for q, _ in ps)
                check(ok or not rng, lambda: f"no shaded region has the ranges {rng}", cs)
    p.close("all")
    return st, st, case


def run_fraction(item):
    import paper.main_render_detection_fraction_figure as m
    p = plt()
    titles = {"surface_SD6": "SD6\nSurface Code", "surface_SI1000": "SI1000\nSurface Code", "honeycomb_SD6": "SD6\nHoneycomb Code",
              "honeycomb_SI1000": "SI1000\nHoneycomb Code", "honeycomb_EM3_v2": "EM3\nHoneycomb Code", "honeycomb_EM3": "Tweaked EM3\nHoneycomb Code"}
    st = 0
    case = None
    for present in [list(titles)] + [[t] for t in titles] + [list(titles) + ["honeycomb_PC3"]]:
        for noises in ((0.001,), (0.002, 0.0005, 0.03)):
            pairs = []
            for n, style in enumerate(present):
                fam = style.split("_")[0]
                for i in range(3):
                    for k, noise in enumerate(noises):
                        pairs.append((family_desc(fam, i, "-", noise, style, "detection_fraction"), (1000 + n, 37 * i + 50 * k + n)))
            data = data_of(pairs)
            case = {"figure": "detection fraction", "present": present, "noises": noises}
            fig = m.plot_detection_fraction(data)
            axs = fig.axes[:6]
            got = {ax.get_title(): ax for ax in axs}
            check(set(got) == set(titles.values()), lambda: f"panels {sorted(got)}", case)
            for style, title in titles.items():
                want = {}
                for d, s in data.data.items():
                    if d.circuit_style == style:
                        want.setdefault(str(d.noise), []).append((d.code_distance, s.num_errors / s.num_shots))
                ls = {l[0]: l[1] for l in lines(got[title])}
                check(set(ls) == set(want) and len(lines(got[title])) == len(want), lambda: f"panel {title!r} has curves {sorted(ls)}, expected {sorted(want)}", case)
                for k in want:
                    check(same_points(ls[k], want[k]), lambda: f"curve {k} of {title!r} is {ls[k]}, expected {want[k]}", case)
                    st += len(want[k])
            p.close("all")
    return st, st, case


def run_mains():
    """The figure commands read every listed file and directory and draw its data."""
    import runpy
    from mc.core import REPO
    from collect_data import CSV_HEADER
    p = plt()
    import matplotlib.figure
    root = tempfile.mkdtemp(prefix="mc_c23_")
    saved_save, saved_show = matplotlib.figure.Figure.savefig, p.show
    argv, cwd = sys.argv, os.getcwd()
    st = 0
    drawn = []
    try:
        os.chdir(root)
        os.mkdir("gen")
        os.mkdir("dir")
        pairs = panel_data(CASES)
        third = len(pairs) // 3
        for name, part in (("dir/a.csv", pairs[:third]), ("dir/b.csv", pairs[third:2 * third]), ("c.csv", pairs[2 * third:])):
            with open(name, "w") as f:
                f.write(CSV_HEADER + "\n")
                for d, (n, e) in part:
                    f.write(",".join(map(str, [d.data_width, d.data_height, d.rounds, d.noise, d.circuit_style, d.preserved_observable, d.code_distance,
                                               d.num_qubits, n, n - e, 0.5, d.decoder, 2])) + "\n")
        matplotlib.figure.Figure.savefig = lambda self, path, *a, **k: drawn.append((self, os.path.relpath(os.path.realpath(path), os.path.realpath(root))))
        p.show = lambda *a, **k: None
        for script, paths in (("main_render_threshold_figure.py", {"gen/threshold.pdf", "gen/threshold.png", "gen/threshold_all.pdf", "gen/threshold_all.png"}),
                              ("main_render_lambda_figure.py", {f"gen/{n}.{x}" for n in ("linefits_all", "linefits", "lambda", "teraquop") for x in ("pdf", "png")}),
                              ("main_render_detection_fraction_figure.py", {"gen/detectionfraction.pdf", "gen/detectionfraction.png"})):
            drawn.clear()
            sys.argv = [script, "dir", "c.csv"]
            with contextlib.redirect_stdout(io.StringIO()):
                runpy.run_path(str(REPO / "src/paper" / script), run_name="__main__")
            check({x for _, x in drawn} == paths, lambda: f"{script} writes {sorted(x for _, x in drawn)}")
            if "threshold" in script:
                data = data_of(pairs)
                fig = next(f for f, x in drawn if x == "gen/threshold_all.png")
                g = grid_of(fig, 8, 3)
                n = sum(len(l[1]) for row in g for ax in row for l in lines(ax))
                check(n == len(data.data), lambda: f"{n} points are drawn for {len(data.data)} recorded problems")
                fig = next(f for f, x in drawn if x == "gen/threshold.png")
                check(len([1 for ax in fig.axes if ax.lines]) == 5, "the focused figure has other panels")
            st += len(drawn)
            sys.argv = [script]
            try:
                runpy.run_path(str(REPO / "src/paper" / script), run_name="__main__")
            except (Exception, SystemExit):
                st += 1
            else:
                raise Violation(f"{script} without files is not an error")
            p.close("all")
    finally:
        matplotlib.figure.Figure.savefig, p.show = saved_save, saved_show
        sys.argv = argv
        os.chdir(cwd)
        shutil.rmtree(root, ignore_errors=True)
    return st, st, {"figures": 7}


def items(tier):
    th = tier == "thorough"
    k = 9 if th else 7
    out = [["curves", a, b, k] for a in range(k) for b in range(k)]
    out += [["mixed"], ["fraction"], ["mains"], ["rates"]]
    kk = 7 if th else 6
    out += [["combo", fam, a, kk] for fam in FAMILY for a in range(kk)]
    for w in [-1] + list(range(len(CASES) + 1)):
        for f in (True, False):
            if th or f or w in (-1, 0, 3, 10):
                out.append(["threshold", w, f])
        for kind in ("fits", "fits-focus", "lambda", "teraquop"):
            out.append(["lambda", w, kind])
    return out


def run_item(item):
    warnings.simplefilter("ignore")
    plt()
    f = {"curves": run_curves, "mixed": lambda i: run_mixed(), "rates": lambda i: run_rates(), "combo": run_combo, "threshold": run_threshold, "lambda": run_lambda,
         "fraction": run_fraction, "mains": lambda i: run_mains()}[item[0]]
    st, nt, sample = f(item)
    return dict(states=st, transitions=st, evaluations=st, distinct_nontrivial=nt, traces_validated_against_impl=st, sample=sample)
