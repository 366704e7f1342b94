"""C19: likelihoods and error-rate bounds are numerically right."""
import math
from fractions import Fraction

import numpy as np

from mc.core import Violation, check

RULE = ("all (shots, hits) pairs up to the bound x probability grid (incl. 0, 1 and slightly outside) as scalars and arrays "
        "against exact binomial coefficients; all (shots, errors) pairs x likelihood ratios: the returned bounds must bracket, "
        "within one search step, the point where the exact likelihood ratio reaches the requested value; boundary pairs up to "
        "10^8 shots; states = (shots, hits, p) or bound evaluations; non-trivial: 0 < hits < shots")
ASSUMPTIONS = ["'agrees' means an absolute difference of at most 0.009 in the logarithm (Stirling) plus rounding of the terms",
               "math.lgamma and math.log are accurate"]
BOUNDS = {
    "quick": "likelihood: shots <= 130 and 15 sizes up to 10^8; bounds: shots <= 100 and 15 sizes up to 10^8; 5 ratios",
    "thorough": "likelihood: shots <= 300; bounds: shots <= 250",
}
GRID = sorted({0.0, 1.0, 0.5, 1e-300, 1e-17, 1e-9, 1e-4, 1e-3, 0.01, 0.999, 1 - 1e-9, 1 - 2 ** -53} | {k / 24 for k in range(25)} | {k / 7 for k in range(8)})
LARGE = [100, 127, 128, 1000, 1023, 4096, 10 ** 4, 65537, 10 ** 5, 10 ** 6, 2 ** 24, 2 ** 24 + 1, 10 ** 7, 33333333, 10 ** 8]
RATIOS = [0.5, 0.1, 1e-3, 1e-9, 0.9]


def lchoose(n, k):
    if n <= 2000:
        return math.log(math.comb(n, k))
    return math.lgamma(n + 1) - math.lgamma(k + 1) - math.lgamma(n - k + 1)


def exact(n, h, p):
    """(value, size of the largest term)."""
    m = n - h
    p = min(1.0, max(0.0, p))
    if (p == 0 and h) or (p == 1 and m):
        return -math.inf, 0
    a = h * math.log(p) if h else 0.0
    b = m * math.log1p(-p) if m else 0.0
    c = lchoose(n, h)
    return a + b + c, max(abs(a), abs(b), abs(c), math.lgamma(n + 1))


def hits_for(n):
    return sorted({h for h in (0, 1, 2, 3, 10, 19, 20, 21, 99, n // 1000, n // 100, n // 10, n // 3, n // 2, n // 2 + 1, n - n // 10, n - 20, n - 19, n - 2, n - 1, n)
                   if 0 <= h <= n})


def close(g, n, h, p, case):
    w, scale = exact(n, h, p)
    if w == -math.inf:
        check(g == -math.inf, lambda: f"log likelihood is {g}, expected -inf", case)
        return
    check(math.isfinite(g) and abs(g - w) <= 0.009 + 1e-13 * scale * 20, lambda: f"log likelihood is {g}, exactly {w}", case)


def run_like(ns):
    from probability_util import log_binomial
    st = nt = 0
    arr = np.array(GRID)
    for n in ns:
        for h in (range(n + 1) if n <= 300 else hits_for(n)):
            case = {"shots": n, "hits": h}
            out = np.asarray(log_binomial(p=arr, n=n, hits=h))
            check(out.shape == arr.shape, lambda: f"result has shape {out.shape}", case)
            for p, g in zip(GRID, out):
                close(float(g), n, h, p, dict(case, p=p))
                st += 1
                nt += 0 < h < n
            # scalars, clipped values, other shapes and dtypes
            for p in (0.0, 1.0, 0.25, h / n if n else 0.0, -1e-17, 1 + 2e-16):
                g = log_binomial(p=p, n=n, hits=h)
                check(np.shape(g) == (), lambda: f"scalar result has shape {np.shape(g)}", case)
                close(float(g), n, h, p, dict(case, p=p, scalar=True))
                st += 1
            two = np.array([[0.0, 0.5], [1.0, 0.125]])
            before = two.copy()
            out = np.asarray(log_binomial(p=two, n=n, hits=h))
            check((two == before).all(), "the argument was modified", case)
            check(out.shape == (2, 2), lambda: f"result has shape {out.shape}", case)
            for p, g in zip(two.flat, out.flat):
                close(float(g), n, h, float(p), dict(case, p=float(p), shape="2x2"))
                st += 1
    return st, nt, {"shots": ns[-1]}


def run_fact():
    from probability_util import log_factorial
    st = 0
    for n in list(range(0, 3000)) + [10 ** k for k in range(4, 10)] + [2 ** 24, 2 ** 31]:
        g = float(log_factorial(n))
        w = math.lgamma(n + 1)
        check(abs(g - w) <= 0.0045 + 1e-14 * w, lambda: f"log({n}!) is {g}, exactly {w}")
        st += 1
    return st, st, {"largest": n}


def ll(n, h, x):
    """log likelihood ratio at error count x (in shots, float) relative to h errors."""
    m = n - h
    v = 0.0
    if h:
        if x <= 0:
            return -math.inf
        v += h * math.log(x / h) if abs(x - h) > 0.1 * h else h * math.log1p((x - h) / h)
    if m:
        y = n - x
        if y <= 0:
            return -math.inf
        v += m * math.log(y / m) if abs(y - m) > 0.1 * m else m * math.log1p((y - m) / m)
    return v


def run_bounds(pairs):
    from collect_data import ShotData
    st = nt = 0
    for n, e in pairs:
        for r in RATIOS:
            d = ShotData(num_shots=n, num_correct=n - e)
            lo, hi = d.likely_error_rate_bounds(desired_ratio_vs_max_likelihood=r)
            case = {"shots": n, "errors": e, "ratio": r, "bounds": [lo, hi]}
            lo, hi = float(lo), float(hi)
            rate = e / n
            eps = 1e-12
            check(0 <= lo <= 1 and 0 <= hi <= 1, "a bound lies outside [0, 1]", case)
            check(lo <= rate + eps and hi >= rate - eps, "the bounds do not bracket the observed rate", case)
            step = 0.01
            t = math.log(r)
            noise = 1e-9 + 1e-15 * n * 20
            a, b = lo * n, hi * n
            if e == 0:
                check(a <= step * 1.001, "the lower bound of no errors is not zero", case)
            else:
                check(ll(n, e, a - step * 1.001) <= t + noise if a > step * 1.001 else True,
                      lambda: f"the likelihood at the lower bound is still {math.exp(ll(n, e, a))} of the maximum", case)
                up = min(a + step * 1.001, e)
                check(ll(n, e, up) >= t - noise, lambda: f"the likelihood at the lower bound is only {math.exp(ll(n, e, a))} of the maximum", case)
            if e == n:
                check(b >= n - step * 1.001, "the upper bound of nothing but errors is not one", case)
            else:
                check(ll(n, e, b + step * 1.001) <= t + noise if b + step * 1.001 < n else True,
                      lambda: f"the likelihood at the upper bound is still {math.exp(ll(n, e, b))} of the maximum", case)
                dn = max(b - step * 1.001, e)
                check(ll(n, e, dn) >= t - noise, lambda: f"the likelihood at the upper bound is only {math.exp(ll(n, e, b))} of the maximum", case)
            check((d.num_shots, d.num_correct) == (n, n - e), "the data changed", case)
            st += 1
            nt += 0 < e < n
    return st, nt, case


def items(tier):
    th = tier == "thorough"
    out = [["fact"]]
    top = 300 if th else 130
    out += [["like", list(range(k, min(k + 4, top + 1)))] for k in range(0, top + 1, 4)]
    out += [["like", [n]] for n in LARGE]
    m = 250 if th else 100
    pairs = [[n, e] for n in range(1, m + 1) for e in range(n + 1)]
    out += [["bounds", pairs[i:i + 50]] for i in range(0, len(pairs), 50)]
    big = [[n, e] for n in LARGE for e in hits_for(n)]
    out += [["bounds", big[i:i + 12]] for i in range(0, len(big), 12)]
    return out


def run_item(item):
    if item[0] == "fact":
        st, nt, sample = run_fact()
    elif item[0] == "like":
        st, nt, sample = run_like(item[1])
    else:
        st, nt, sample = run_bounds(item[1])
    return dict(states=st, transitions=st, evaluations=st, distinct_nontrivial=nt, traces_validated_against_impl=st, sample=sample)
