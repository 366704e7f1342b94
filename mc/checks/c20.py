"""C20: searches and line fits return the closest point and the best fit."""
import itertools
import math
import warnings
from fractions import Fraction

import numpy as np

from mc.core import Violation, check

RULE = ("all non-decreasing functions on domains of up to 7 integers with values in a small set (incl. infinities), all targets on "
        "a half-step grid, several offsets; all monotone-on-the-side functions of several families x starts x steps x targets "
        "for the continuous search; all small integer data sets for the line fits against closed forms; states = "
        "(function, target) or (data set, constraint) pairs; non-trivial: more than two points in the domain or data set")
ASSUMPTIONS = ["a fit may miss the minimum squared error by 1e-5 (1 + cost), at other scales by 1e-5 of it and 1e-6 of the data's sum of squares",
               "the continuous search is only asked for targets that are reached on the requested side"]
BOUNDS = {
    "quick": "domains of up to 7 points, 7 values; data sets of 2-4 points, of 2-3 points at 36 combinations of scales from 1e-6 to 1e9",
    "thorough": "domains of up to 9 points, 7 values; data sets of 2-5 points, of 2-3 points at the same scales",
}
VALS = [-math.inf, 0, 1, 2, 4, 5, math.inf]
TARGETS = [-math.inf, -1, 0, 0.5, 1, 1.4, 1.5, 1.75, 2, 2.9, 3, 3.1, 4, 4.5, 5, 9, math.inf]


SCALES = [1e-6, 1e-3, 1, 1e3, 1e6, 1e9]


def dist(a, t):
    return 0.0 if a == t else abs(a - t)


def run_search(item):
    from probability_util import binary_search
    _, n, first = item
    st = nt = 0
    for rest in itertools.combinations_with_replacement(range(first, len(VALS)), n - 1):
        f = [VALS[first]] + [VALS[i] for i in rest]
        for t in TARGETS:
            best = min(dist(v, t) for v in f)
            for off in (0, -3, 10 ** 12, -2 ** 60 - 3):
                asked = []

                def func(x):
                    asked.append(x)
                    if not off <= x <= off + n - 1:
                        raise Violation(f"the search asks for {x} outside [{off}, {off + n - 1}]", {"function": f, "target": t})
                    return f[x - off]
                x = binary_search(func=func, min_x=off, max_x=off + n - 1, target=t)
                case = {"function values": f, "target": t, "range": [off, off + n - 1], "result": x}
                check(x == int(x) and off <= x <= off + n - 1, lambda: f"the result {x} is outside the range", case)
                check(dist(f[int(x) - off], t) == best, lambda: f"f({x}) = {f[int(x) - off]} is not closest to {t}", case)
                st += 1
                nt += n > 2
    return st, nt, case


def run_large():
    from probability_util import binary_search
    st = 0
    for top in (10 ** 3, 10 ** 6, 10 ** 18, 10 ** 100):
        for name, f, inv in (("x", lambda x: x, lambda t: [math.floor(t), math.ceil(t)]),
                             ("3x+7", lambda x: 3 * x + 7, lambda t: [math.floor((Fraction(t) - 7) / 3), math.ceil((Fraction(t) - 7) / 3)]),
                             ("x^2", lambda x: x * x, lambda t: [math.isqrt(max(0, math.floor(t))), math.isqrt(max(0, math.floor(t))) + 1])):
            for t in (-5, 0, 0.25, 1, 7, 10, 99.5, 100, 100.5, 12345, 999999, 10 ** 9 + 0.5,
                      top // 3, top // 7 + 1, top - 1, top - 3, top // 2 + 1, 10 ** 17 + 1, 2 ** 53 + 1, 2 ** 64 + 3):
                cand = [min(max(c, 0), top) for c in inv(t)]
                best = min(dist(f(c), t) for c in cand)
                calls = [0]

                def g(x):
                    calls[0] += 1
                    check(calls[0] < 5000, "the search does not come to an end")
                    return f(x)
                x = binary_search(func=g, min_x=0, max_x=top, target=t)
                check(0 <= x <= top and dist(f(x), t) == best, lambda: f"searching {name} for {t} up to {top} gives {x}")
                st += 1
    return st, st, {"top": "10^100"}


def t_scale(f, start, far, step):
    """Change of the function within a few units in the last place of the argument."""
    x = start + math.copysign(far, step)
    e = 2.0 ** -52 * max(abs(start), abs(x), abs(step))
    return max(abs(f(x + e) - f(x)), abs(f(x - e) - f(x)))


def run_intercept(item):
    from probability_util import binary_intercept
    fams = {
        "linear": [(lambda x, a=a, b=b: a * x + b, f"{a}x+{b}", None) for a in (-5, -1, -0.25, 0.5, 1, 3) for b in (-2, 0, 7)],
        "square": [(lambda x, a=a, v=v: a * (x - v) ** 2 + 1, f"{a}(x-{v})^2+1", v) for a in (-2, -0.5, 0.1, 1, 4) for v in (-3, 0, 2.5)],
        "cubic": [(lambda x, a=a: a * x ** 3 + x * a, f"{a}(x^3+x)", None) for a in (-1, 0.2, 1)],
        "exp": [(lambda x, a=a: math.exp(min(a * x, 700)), f"exp({a}x)", None) for a in (-1, 0.5, 1)],
        "step": [(lambda x, k=k: math.floor(x) + min(1.0, k * (x - math.floor(x))), f"stairs {k}", None) for k in (2, 8)],
        "steep": [(lambda x, a=a, b=b: a * x + b, f"{a}x+{b}", None) for a in (-1e9, -2e5, 3e4, 1e7, 1e9) for b in (0, -4e3)],
        "flat": [(lambda x, a=a, b=b: a * x + b, f"{a}x+{b}", None) for a in (-1e-3, 1e-4, 2e-2) for b in (0, 5)],
        "abs": [(lambda x, v=v: abs(x - v) - 2, f"|x-{v}|-2", v) for v in (-1, 0, 3)],
    }
    st = 0
    case = None
    for f, name, vertex in fams[item[1]]:
        for start in ([vertex, vertex + 1.5, vertex - 2] if vertex is not None else [-2, 0, 0.3, 5]):
            for step in (-10, -1, -0.01, 0.01, 1, 3, 100):
                if vertex is not None and (start - vertex) * step < 0:
                    continue   # not monotone on that side
                for far in (0.001, 0.1, 0.7, 1, 2, 3.3, 10) if item[1] != "flat" else (0.1, 50, 3e4, 1e6):
                    for atol in (1e-5, 1e-2, 0.5):
                        if atol < 100 * abs(t_scale(f, start, far, step)):
                            continue    # not reachable with double precision
                        x_true = start + math.copysign(far, step)
                        t = f(x_true)
                        if item[1] == "exp" and (t > 1e4 or t < 1e-2):
                            continue
                        x = binary_intercept(func=f, start_x=start, step=step, target_y=t, atol=atol)
                        case = {"function": name, "start": start, "step": step, "target": t, "atol": atol, "result": x}
                        check((x - start) * step >= 0, "the result is on the wrong side of the start", case)
                        check(abs(f(x) - t) <= atol * (1 + 1e-9), lambda: f"the value {f(x)} at the result is not within tolerance", case)
                        st += 1
    return st, st, case


def datasets(th, m):
    xs_all = [-2, 0, 1, 3, 7]
    ys_all = [-3, 0, 1, 5] if m <= 3 else [-3, 0, 5]
    for xs in itertools.combinations(xs_all, m):
        for ys in itertools.product(ys_all, repeat=m):
            yield xs, ys
    if m == 3:
        for ys in itertools.product(ys_all, repeat=3):
            yield (1, 1, 4), ys       # repeated abscissa
            yield (4, -1, 2), ys      # unsorted


def cost(X, Y, a, b):
    return float(sum((a + b * x - y) ** 2 for x, y in zip(X, Y)))


def run_fits(item):
    from probability_util import least_squares_cost, least_squares_through_point, least_squares_with_slope
    _, m, part, parts = item
    st = 0
    case = None
    for i, (xs, ys) in enumerate(datasets(True, m)):
        if i % parts != part:
            continue
        X, Y = np.array(xs, dtype=float), np.array(ys, dtype=float)
        if i % 3 == 0:
            X, Y = np.array(xs), np.array(ys)    # integer arrays
        x0, y0 = X.copy(), Y.copy()
        for a, b in ((0, 0), (1, -2), (-0.5, 3)):
            c = float(least_squares_cost(xs=X, ys=Y, intercept=a, slope=b))
            check(abs(c - cost(xs, ys, a, b)) <= 1e-9 * (1 + c), lambda: f"cost {c}, expected {cost(xs, ys, a, b)}", {"xs": xs, "ys": ys})
            st += 1
        for rx, ry in ((0, 0), (1, 4), (7, 1), (-2, 3), (1.5, -4), (20, 0)):
            x2 = [x - rx for x in xs]
            y2 = [y - ry for y in ys]
            sxx = sum(x * x for x in x2)
            if sxx == 0:
                continue
            best = sum(x * y for x, y in zip(x2, y2)) / sxx
            fit = least_squares_through_point(xs=X, ys=Y, required_x=rx, required_y=ry)
            case = {"xs": xs, "ys": ys, "through": [rx, ry], "slope": fit.slope, "intercept": fit.intercept, "best slope": best}
            check(abs(fit.intercept + fit.slope * rx - ry) <= 1e-6, "the fit does not pass through the required point", case)
            c0, c1 = cost(xs, ys, ry - rx * best, best), cost(xs, ys, fit.intercept, fit.slope)
            check(c1 <= c0 + 1e-5 * (1 + c0), lambda: f"squared error {c1}, minimum {c0}", case)
            st += 1
        for s in (0, 1, -2.5, 4):
            best = sum(y - s * x for x, y in zip(xs, ys)) / m
            fit = least_squares_with_slope(xs=X, ys=Y, required_slope=s)
            case = {"xs": xs, "ys": ys, "required slope": s, "slope": fit.slope, "intercept": fit.intercept, "best intercept": best}
            check(fit.slope == s, "the fit does not have the required slope", case)
            c0, c1 = cost(xs, ys, best, s), cost(xs, ys, fit.intercept, s)
            check(c1 <= c0 + 1e-5 * (1 + c0), lambda: f"squared error {c1}, minimum {c0}", case)
            st += 1
        check((X == x0).all() and (Y == y0).all(), "the data was modified", case)
    return st, st if m > 2 else 0, case


def run_scaled(item):
    """The fits on data of any magnitude; the tolerance is relative to the data."""
    from probability_util import least_squares_through_point, least_squares_with_slope
    _, sx, sy = item
    st = 0
    case = None
    for m in (2, 3):
        for i, (xs, ys) in enumerate(datasets(True, m)):
            xs, ys = [x * sx for x in xs], [y * sy for y in ys]
            X, Y = np.array(xs, dtype=float), np.array(ys, dtype=float)
            for rx, ry in ((0, 0), (1, 4), (1.5 * sx, -4 * sy), (20 * sx, 0)):
                x2, y2 = [x - rx for x in xs], [y - ry for y in ys]
                sxx = math.fsum(x * x for x in x2)
                if sxx == 0:
                    continue
                best = math.fsum(x * y for x, y in zip(x2, y2)) / sxx
                fit = least_squares_through_point(xs=X, ys=Y, required_x=rx, required_y=ry)
                case = {"xs": xs, "ys": ys, "through": [rx, ry], "slope": fit.slope, "intercept": fit.intercept, "best slope": best}
                check(abs(fit.intercept + fit.slope * rx - ry) <= 1e-9 * (abs(ry) + abs(fit.slope * rx)), "the fit does not pass through the required point", case)
                c0, c1 = cost(x2, y2, 0, best), cost(x2, y2, 0, float(fit.slope))
                check(c1 <= c0 * (1 + 1e-5) + 1e-6 * math.fsum(y * y for y in y2), lambda: f"squared error {c1}, minimum {c0}", case)
                st += 1
            for s in (0, 1, -2.5, 3 * sy / sx):
                z = [y - s * x for x, y in zip(xs, ys)]
                best = math.fsum(z) / m
                fit = least_squares_with_slope(xs=X, ys=Y, required_slope=s)
                case = {"xs": xs, "ys": ys, "required slope": s, "slope": fit.slope, "intercept": fit.intercept, "best intercept": best}
                check(fit.slope == s, "the fit does not have the required slope", case)
                c0, c1 = cost(xs, z, best, 0), cost(xs, z, float(fit.intercept), 0)
                check(c1 <= c0 * (1 + 1e-5) + 1e-6 * math.fsum(y * y for y in z), lambda: f"squared error {c1}, minimum {c0}", case)
                st += 1
    return st, st, case


def run_ranges(item):
    from probability_util import least_squares_output_range, least_squares_slope_range
    _, m, part, parts = item
    st = 0
    case = None
    for i, (xs, ys) in enumerate(datasets(True, m)):
        if i % parts != part or len(set(xs)) < 2:
            continue
        n = m
        mx, my = sum(xs) / n, sum(ys) / n
        sxx = sum((x - mx) ** 2 for x in xs)
        slope = sum((x - mx) * (y - my) for x, y in zip(xs, ys)) / sxx
        icpt = my - slope * mx
        base = cost(xs, ys, icpt, slope)
        for inc in (1, 0.25, 5):
            tol = 3e-5 + 2e-5 * (1 + base + inc)
            lo, mid, hi = least_squares_slope_range(xs=list(xs), ys=list(ys), cost_increase=inc)
            case = {"xs": xs, "ys": ys, "cost increase": inc, "slopes": [lo, mid, hi], "best": slope}
            check(abs(mid - slope) <= 1e-6 * (1 + abs(slope)), "the best slope is wrong", case)
            check(lo <= slope + 1e-9 and hi >= slope - 1e-9, "the slope range does not contain the best fit", case)
            for s in (lo, hi):
                d = (s - slope) ** 2 * sxx
                check(abs(d - inc) <= tol, lambda: f"at slope {s} the cost has grown by {d}", case)
            st += 1
            for tx in (0, mx, 10, -4.5):
                lo, hi = least_squares_output_range(xs=list(xs), ys=list(ys), target_x=tx, cost_increase=inc)
                y = icpt + slope * tx
                v = 1 / n + (tx - mx) ** 2 / sxx
                case = {"xs": xs, "ys": ys, "at": tx, "cost increase": inc, "range": [lo, hi], "best": y}
                check(lo <= y + 1e-9 and hi >= y - 1e-9, "the output range does not contain the best fit", case)
                for z in (lo, hi):
                    d = (z - y) ** 2 / v
                    check(abs(d - inc) <= tol, lambda: f"at output {z} the cost has grown by {d}", case)
                st += 1
    return st, st if m > 2 else 0, case


def items(tier):
    th = tier == "thorough"
    out = [["large"]]
    for n in range(1, (9 if th else 7) + 1):
        for first in range(len(VALS)):
            out.append(["search", n, first])
    out += [["intercept", f] for f in ("linear", "square", "cubic", "exp", "step", "steep", "flat", "abs")]
    out += [["scaled", sx, sy] for sx in SCALES for sy in SCALES]
    for m in (2, 3, 4) + ((5,) if th else ()):
        parts = {2: 4, 3: 16, 4: 16, 5: 24}[m]
        out += [["fits", m, k, parts] for k in range(parts)]
        out += [["ranges", m, k, parts] for k in range(parts)]
    return out


def run_item(item):
    warnings.simplefilter("ignore")
    with np.errstate(all="ignore"):
        st, nt, sample = {"search": run_search, "large": lambda _: run_large(), "intercept": run_intercept,
                          "fits": run_fits, "scaled": run_scaled, "ranges": run_ranges}[item[0]](item)
    return dict(states=st, transitions=st, evaluations=st, distinct_nontrivial=nt, traces_validated_against_impl=st, sample=sample)
