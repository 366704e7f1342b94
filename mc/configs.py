"""The bounded configuration space of memory experiments explored by the circuit checks."""

THIN = [(w, 6) for w in (14, 16, 20, 24, 30)] + [(2, h) for h in (30, 36, 48, 60)] + [(6, 36), (16, 12), (20, 30), (62, 6), (2, 120)]
THICK = [(w, 12) for w in (22, 26, 40)] + [(4, h) for h in (42, 66, 120)] + [(30, 36), (24, 36)]
STYLES = ["SD6", "PC3", "EM3", "EM3_v2", "SI1000"]


def ok(style, n):
    return style != "SI1000" or n % 3 == 0


def cfg(w, h, n, style, obs, p=0.001):
    return [w, h, n, style, obs, p]


def layout(c):
    from honeycomb_layout import HoneycombLayout
    w, h, n, style, obs, p = c
    return HoneycombLayout(data_width=w, data_height=h, sub_rounds=n, style=style, obs=obs, noise=p)


def mid_n(w, h, style, obs, k):
    """A sub-round count between 7 and 66 that varies with the combination (all residues occur)."""
    n = 7 + (w // 2 * 5 + h // 6 * 7 + k * 11 + STYLES.index(style) * 13 + (obs == "V") * 3) % 60
    return n if ok(style, n) else n - n % 3


def base_space(tier, dense=40, sizes_n=(1, 2, 3, 4, 5, 6, 9, 12), maxw=12, maxh=24, long_n=True, paper=3, grid=True):
    """Simplest first; no duplicates."""
    out = []
    th = tier == "thorough"
    if th:
        dense, maxw, maxh, paper = 60, 20, 36, 5
    for style in STYLES:
        for obs in "HV":
            # every sub-round count at the two smallest sizes
            for (w, h) in [(2, 6), (4, 6)]:
                for n in range(1, dense + 1):
                    if ok(style, n):
                        out.append(cfg(w, h, n, style, obs))
            # every lattice size
            for w in range(2, maxw + 1, 2):
                for h in range(6, maxh + 1, 6):
                    for n in sizes_n if (w * h <= 144 or th) else sizes_n[:6]:
                        if ok(style, n):
                            out.append(cfg(w, h, n, style, obs))
            # longer experiments at every small size, a different length for each combination
            for w in range(2, 8 + 1, 2):
                for h in (6, 12, 18):
                    for k in range(4 if th else 2):
                        n = mid_n(w, h, style, obs, k)
                        if n * w * h <= 3600 or th:
                            out.append(cfg(w, h, n, style, obs))
            # thin and large tori
            for (w, h) in THIN if not th else THIN + THICK:
                for n in (3, 6):
                    out.append(cfg(w, h, n, style, obs))
            if long_n:
                for n in list(range(96, 103)) + list(range(300, 306)) + [512, 513, 514, 766, 1000, 1003, 1004, 1005]:
                    if ok(style, n):
                        out.append(cfg(2, 6, n, style, obs))
            for u in range(1, paper + 1):
                out.append(cfg(4 * u, 6 * u, 36 * u, style, obs))
            if grid:
                for p in [0, 1e-6, 1e-4, 0.0015, 0.005, 0.01, 0.03, 0.1, 0.15] + ([] if style == "SI1000" else [0.3, 0.5]):
                    for n in (3, 15):
                        out.append(cfg(4, 6, n, style, obs, p))
                        out.append(cfg(8, 12, 3, style, obs, p))
    seen = set()
    res = []
    for c in out:
        k = tuple(c)
        if k not in seen:
            seen.add(k)
            res.append(c)
    res.sort(key=lambda c: c[0] * c[1] * c[2])
    return res


def huge(tier):
    """Very long experiments; explored through the loop structure, not unrolled."""
    out = []
    for n in [2046, 2047, 2049, 4095, 4098, 10000, 10002, 65535, 65538, 99999, 10 ** 6, 10 ** 6 + 2, 10 ** 6 + 4] + \
            ([k for k in range(1006, 1300)] + [10 ** 7 + k for k in range(6)] if tier == "thorough" else []):
        for style in STYLES:
            for obs in "HV":
                if ok(style, n):
                    out.append(cfg(2, 6, n, style, obs))
                    if n % 2 == 0:
                        out.append(cfg(4, 12, n, style, obs, 0))
    return out


def chunks(cfgs, budget=40000):
    """Groups small configurations; heavy ones stay alone.  Light first overall."""
    weight = lambda c: c[0] * c[1] * c[2] * (3 if c[3] == "EM3_v2" and c[5] else 1)
    out, cur, cw = [], [], 0
    for c in sorted(cfgs, key=weight):
        w = weight(c)
        if cur and (cw + w > budget or len(cur) >= 40):
            out.append(cur)
            cur, cw = [], 0
        cur.append(c)
        cw += w + 300
    if cur:
        out.append(cur)
    return out
