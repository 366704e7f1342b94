"""C25: experiments of any length run at the advertised pace and have a description of bounded size."""
import resource

from mc.core import check
from mc import configs

RULE = ("every sub-round count up to the bound (and a ladder of counts up to 10^15) for every style, observable and size of the "
        "bound: time steps, measurements, detectors and description size of the generated circuit are counted through its loops "
        "and compared with the recurrence over three (six) further sub-rounds and with the closed forms of the honeycomb "
        "schedule; states = circuits; non-trivial: circuit with a loop")
ASSUMPTIONS = ["a time step ends at a TICK; a loop's time steps are those of its body times its repetitions"]
BOUNDS = {
    "quick": "2x6, 4x6, 4x12, 6x6, 8x12: all n<=100 (2x6), 60 (4x6), 30 (larger), with and without noise; ladder of up to 55 counts up to 10^15",
    "thorough": "all sizes up to 12x24, n<=400; the same ladder",
}
CYCLE = {"SD6": 6, "PC3": 3, "EM3": 3, "EM3_v2": 3, "SI1000": 10}
LADDER = [k + j for k in (200, 500, 996, 2046, 4098, 9996, 10 ** 5 + 2, 10 ** 6 + 2, 10 ** 9 + 2, 10 ** 12 + 2, 10 ** 15 + 2) for j in (0, 1, 2, 3, 6)]


def items(tier):
    th = tier == "thorough"
    sizes = [(2, 6), (4, 6), (4, 12), (6, 6), (8, 12)] if not th else [(w, h) for w in range(2, 13, 2) for h in range(6, 25, 6)]
    out = []
    for w, h in sizes:
        for style in configs.STYLES:
            for obs in "HV":
                for p in (0, 0.001):
                    cost = w * h * (8 if style == "EM3_v2" and p else 1)
                    out.append([w, h, style, obs, p, 400 if th else 100 if cost <= 12 else 60 if cost <= 24 else 30])
    return sorted(out, key=lambda i: i[0] * i[1])


def run_item(item):
    w, h, style, obs, p, dense = item
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, hard))
    try:
        return explore(w, h, style, obs, p, dense)
    finally:
        resource.setrlimit(resource.RLIMIT_AS, (soft, hard))


def explore(w, h, style, obs, p, dense):
    edges = w * h // 2
    seen = {}
    big = st = nt = 0
    ladder = sorted({n + d for n in LADDER[:: 1 if dense >= 100 else 2 if dense >= 60 else 3] for d in (0, -6)} | set(range(48, 61)))
    for n in list(range(1, dense + 1)) + [n for n in ladder if n > dense]:
        if not configs.ok(style, n):
            continue
        case = {"config": configs.cfg(w, h, n, style, obs, p)}
        c = configs.layout(case["config"]).make_circuit()
        text = str(c)
        s = len(text)
        if n <= 60:
            big = max(big, s)
        else:
            check(s <= 1.5 * big, lambda: f"the description of {n} sub-rounds has {s} characters, up to 60 sub-rounds need at most {big}", case)
        t, m, d = c.num_ticks, c.num_measurements, c.num_detectors
        check(m == n * edges + w * h, lambda: f"{m} measurements in {n} sub-rounds", case)
        seen[n] = (t, d)
        if n - 6 in seen and n >= 12:
            t0, d0 = seen[n - 6]
            check(t - t0 == 2 * CYCLE[style], lambda: f"six further sub-rounds take {t - t0} time steps, the advertised cycle of three takes {CYCLE[style]}", case)
            check(d - d0 == 2 * edges, lambda: f"six further sub-rounds add {d - d0} detectors, expected {2 * edges}", case)
        st += 1
        nt += "REPEAT" in text
    return dict(states=st, transitions=st, traces_validated_against_impl=st, evaluations=st, distinct_nontrivial=nt,
                sample={"config": case["config"], "characters": s, "time steps": t})
