"""C21: per-piece error rates compose back to the total error rate."""
import math

from mc.core import Violation, check

RULE = ("every total rate of the grid (uniform, geometric towards 0 and towards 1/2, and mirrored above 1/2) x every number of "
        "pieces up to the bound and large ones; the returned rate is composed back and compared with the exact inverse, "
        "monotonicity is checked along the whole grid; states = (rate, pieces) pairs; non-trivial: 0 < rate < 1/2 and "
        "at least two pieces")
ASSUMPTIONS = ["rates are compared to 1e-13 absolute (double rounding)"]
BOUNDS = {"quick": "1900 rates x pieces 1..150 and 20 larger", "thorough": "12000 rates x pieces 1..400 and 40 larger"}
BIG = [199, 200, 255, 256, 300, 365, 499, 500, 777, 1000, 1024, 2000, 4096, 10 ** 4, 12345, 10 ** 5, 10 ** 6, 10 ** 7, 10 ** 8, 10 ** 9]


def rates(th):
    n = 10000 if th else 1500
    r = {k / (2 * n) for k in range(n + 1)}
    r |= {10.0 ** -k for k in range(1, 21)} | {3 * 10.0 ** -k for k in range(1, 21)} | {5e-324, 1e-300, 1e-100}
    r |= {0.5 - 10.0 ** -k for k in range(1, 17)} | {0.5 - 2.0 ** -k for k in range(2, 55)} | {2.0 ** -k for k in range(1, 60)}
    r |= {0.48, 1 / 3, 0.49999, 0.25, 0.0, 0.5}
    return sorted(x for x in r if 0 <= x <= 0.5)


def items(tier):
    th = tier == "thorough"
    ps = list(range(1, (400 if th else 150) + 1)) + BIG + ([k * 37 for k in range(11, 31)] if th else [])
    return [["pieces", ps[i:i + 6], int(th)] for i in range(0, len(ps), 6)]


def run_item(item):
    from plotting import total_error_to_per_piece_error as f
    st = nt = 0
    R = rates(item[2])
    sample = None
    for n in item[1]:
        prev = -1.0
        for e in R:
            r = f(e, n)
            case = {"total rate": e, "pieces": n, "per-piece rate": r}
            check(isinstance(r, (int, float)) and 0 <= r <= 0.5, "the per-piece rate is outside [0, 1/2]", case)
            want = 0.5 if e == 0.5 else -math.expm1(math.log1p(-2 * e) / n) / 2
            check(abs(r - want) <= 1e-13, lambda: f"expected {want}", case)
            back = 0.5 if r == 0.5 else -math.expm1(n * math.log1p(-2 * r)) / 2
            check(abs(back - e) <= 1e-13 + 4e-16 * n, lambda: f"{n} pieces compose to {back}", case)
            check(r >= prev - 1e-15, "the per-piece rate decreases when the total rate grows", case)
            prev = r
            if e in (0, 0.5):
                check(r == e, "0 and 1/2 are not fixed", case)
            if n == 1:
                check(abs(r - e) <= 2e-16, "one piece does not have the total rate", case)
            g = f(1 - e, n)
            # 1 - e is rounded, and so may be the mirrored argument
            q = 1 - (1 - e)
            wm = 0.5 if q >= 0.5 else -math.expm1(math.log1p(-2 * q) / n) / 2
            check(abs(g - (1 - wm)) <= 1e-13, lambda: f"the rate {1 - e} gives {g}, which does not mirror {r}", case)
            st += 2
            nt += 0 < e < 0.5 and n > 1
        sample = case
    return dict(states=st, transitions=st, evaluations=st, distinct_nontrivial=nt, traces_validated_against_impl=st, sample=sample)
