"""C24: circuit diagrams show every operation where and when it happens."""
import itertools
import math

import stim

from mc.core import Violation, check
from mc import configs

RULE = ("every program of the small-circuit space (all operations and pairs on every small grid, all two-step and two-operation "
        "combinations, loops, annotations, error channels, conflicting and unknown operations) and every generated memory experiment "
        "of the bound is drawn and compared cell by cell with an independently computed picture; states = (step, qubit) cells "
        "compared; non-trivial: the diagram has a connector")
ASSUMPTIONS = ["the two qubits of an operation lie in one row or one column (otherwise no connector is promised)",
               "an operation that spans the whole diagram in one direction is one that wraps around the torus",
               "where several connectors cross, any connector character is accepted; the picture may be shifted as a whole"]
BOUNDS = {
    "quick": "9 grids up to 3x3 (and honeycomb half-integer coordinates): all single operations, all pairs of operations in one step, "
             "all 2-step sequences over 12 representative operations, 3 loop shapes x both loop modes; generated circuits up to 4x12, 25 sub-rounds",
    "thorough": "as quick with all pairs over two steps on every grid and generated circuits up to 12x18, 40 sub-rounds",
}

ONE = {"M": "M", "R": "R", "H": "H", "H_YZ": "G", "C_XYZ": "C", "C_ZYX": "C", "MR": "D", "MX": "m", "MY": "m"}
TWO = {"CX": "@X", "CY": "@Y", "CZ": "@Z", "XCX": "XX", "XCY": "XY", "XCZ": "XZ", "YCX": "YX", "YCY": "YY", "YCZ": "YZ"}
SILENT = ["DETECTOR", "OBSERVABLE_INCLUDE", "SHIFT_COORDS", "X_ERROR", "DEPOLARIZE1", "DEPOLARIZE2"]


class Refused(Exception):
    pass


def flat(c, reps):
    for op in c:
        if isinstance(op, stim.CircuitRepeatBlock):
            for _ in range(op.repeat_count if reps else 1):
                yield from flat(op.body_copy(), reps)
        else:
            yield op


def stream(c, only_loop):
    """The instructions shown."""
    if not only_loop:
        return list(flat(c, True))
    out = []
    for op in c:
        if isinstance(op, stim.CircuitRepeatBlock):
            out += flat(op.body_copy(), True)
        elif op.name == "QUBIT_COORDS":
            out.append(op)
    return out


def picture(c, only_loop):
    """cell -> set of acceptable characters, as (row, column); raises Refused."""
    where = {}
    steps = [({}, [])]
    for op in stream(c, only_loop):
        n = op.name
        if n == "QUBIT_COORDS":
            r, i = op.gate_args_copy()
            for t in op.targets_copy():
                if t.value in where or (r, 2 * i) in where.values():
                    raise Refused("qubit located twice")
                where[t.value] = (r, 2 * i)
        elif n == "TICK":
            steps.append(({}, []))
        elif n in SILENT:
            pass
        else:
            ts = op.targets_copy()
            marks, links = [], []
            if n in ONE:
                marks = [(t.value, ONE[n]) for t in ts]
            elif n in TWO:
                for a, b in zip(ts[::2], ts[1::2]):
                    marks += [(a.value, TWO[n][0]), (b.value, TWO[n][1])]
                    links.append((a.value, b.value))
            elif n == "MPP":
                for g in str(op).split()[1:]:
                    if "(" in g:
                        raise Refused("?")
                    fs = g.lstrip("!").split("*")
                    if len(fs) > 2:
                        raise Refused("product of more than two")
                    fs = [(int(f.lstrip("!")[1:]), f.lstrip("!")[0].lower()) for f in fs]
                    marks += fs
                    if len(fs) == 2:
                        links.append((fs[0][0], fs[1][0]))
            else:
                raise Refused(n)
            for q, s in marks:
                if q not in where:
                    raise Refused("unlocated qubit")
                if q in steps[-1][0]:
                    raise Refused("conflict")
                steps[-1][0][q] = s
            steps[-1][1].extend(links)
    if not steps[-1][0]:
        steps.pop()
    if not steps or not where:
        return None
    n = len(steps)
    rows = [p[0] for p in where.values()]
    cols = [p[1] for p in where.values()]
    r0, r1, c0, c1 = min(rows), max(rows), min(cols), max(cols)

    def at(r, k, z):
        return math.ceil((r + 1) * (n + 2) + z), math.ceil((k + 2) * (n + 3) + z)
    sym, con = {}, {}

    def line(p, q):
        if p[0] == q[0]:
            for k in range(min(p[1], q[1]), max(p[1], q[1]) + 1):
                con.setdefault((p[0], k), set()).add("-")
        elif p[1] == q[1]:
            for k in range(min(p[0], q[0]), max(p[0], q[0]) + 1):
                con.setdefault((k, p[1]), set()).add("|")
        else:
            raise AssertionError("not aligned")
    nlinks = 0
    for z, (marks, links) in enumerate(steps):
        for q, p in where.items():
            sym.setdefault(at(*p, z), set()).add(marks.get(q, "\\"))
        for a, b in links:
            nlinks += 1
            (ra, ca), (rb, cb) = sorted([where[a], where[b]])
            if ra != rb and ca != cb:
                raise Refused("diagonal")      # never enumerated
            if ra != rb and (ra, rb) == (r0, r1):
                ends = [((ra, ca), (ra - 0.5, ca)), ((rb, cb), (rb + 0.5, cb))]
            elif ca != cb and (ca, cb) == (c0, c1):
                ends = [((ra, ca), (ra, ca - 0.5)), ((rb, cb), (rb, cb + 0.5))]
            else:
                line(at(ra, ca, z), at(rb, cb, z))
                continue
            for x, y in ends:
                line(at(*x, z), at(*y, z))
                sym.setdefault(at(*y, z), set()).add("~")
    cells = {p: ({"|"} if s == {"|"} else {"-", "="} if s == {"-"} else {"|", "-", "+", "="}) for p, s in con.items()}
    cells.update(sym)
    return cells, len(where) * n, nlinks, max(len(s) for s in sym.values())


def normal(cells):
    r = min(p[0] for p in cells)
    k = min(p[1] for p in cells)
    return {(p[0] - r, p[1] - k): v for p, v in cells.items()}


def judge(circuit, only_loop):
    """-> (cells, links, refused)."""
    from circuit_diagrams import plot_circuit
    case = {"circuit": str(circuit), "only_repeat_block": only_loop}
    before = str(circuit)
    try:
        want = picture(circuit, only_loop)
    except Refused as e:
        try:
            got = plot_circuit(circuit, only_loop)
        except Exception:
            return 0, 0, 1
        raise Violation(f"a circuit that cannot be drawn ({e}) gave a diagram", {**case, "diagram": got})
    if want is None:
        return 0, 0, 0
    cells, n, links, overlap = want
    got = plot_circuit(circuit, only_loop)
    check(str(circuit) == before, "drawing changed the circuit", case)
    case["diagram"] = got
    check(isinstance(got, str), "the diagram is not text", case)
    have = {(y, x): ch for y, l in enumerate(got.split("\n")) for x, ch in enumerate(l) if ch != " "}
    check(bool(have), "the diagram is empty", case)
    have, cells = normal(have), normal(cells)
    for p in sorted(set(have) | set(cells)):
        a, b = have.get(p), cells.get(p)
        if b is None:
            raise Violation(f"unexpected {a!r} at row {p[0]}, column {p[1]}", case)
        if a not in b:
            raise Violation(f"expected {' or '.join(sorted(b))} at row {p[0]}, column {p[1]}, got {a!r}", case)
    return n, links, 0


# ---- the bounded space -------------------------------------------------------

GRIDS = {
    "1x1": [(0, 0)],
    "1x2": [(0, 0), (0, 1)],
    "1x3": [(0, 0), (0, 1), (0, 2)],
    "3x1": [(0, 0), (1, 0), (2, 0)],
    "2x2": [(0, 0), (0, 1), (1, 0), (1, 1)],
    "2x3": [(r, k) for r in range(2) for k in range(3)],
    "3x3": [(r, k) for r in range(3) for k in range(3)],
    "3x3+": [(r + 2, k + 1) for r in range(3) for k in range(3)],
    "sparse": [(0, 0), (0, 1.5), (0, 3), (1, 0.5), (1, 2), (2, 0), (2, 1.5), (2, 3), (3, 1)],
    "half": [(0, 0), (0.5, 0), (1, 0), (2, 0), (0, 0.5), (0, 1), (1, 1), (2, 1), (0, 2), (2, 2)],
}


def head(grid):
    c = stim.Circuit()
    for q, (r, k) in enumerate(GRIDS[grid]):
        # numbers do not follow the order of the positions
        c.append("QUBIT_COORDS", [(q * 7 + 3) % 11 if len(GRIDS[grid]) <= 11 else q], (r, k))
    return c


def number(grid, q):
    return (q * 7 + 3) % 11


def pairs(grid):
    g = GRIDS[grid]
    for a, b in itertools.permutations(range(len(g)), 2):
        if g[a][0] == g[b][0] or g[a][1] == g[b][1]:
            yield a, b


def one_ops(grid, full):
    for q in range(len(GRIDS[grid])):
        for n in ONE if full else ("H", "MR"):
            yield f"{n} {number(grid, q)}"
        for b in "XYZ" if full else "Y":
            yield f"MPP {b}{number(grid, q)}"


def two_ops(grid, full):
    for a, b in pairs(grid):
        x, y = number(grid, a), number(grid, b)
        for n in TWO if full else ("XCY",):
            yield f"{n} {x} {y}"
        if full:
            for u, v in itertools.product("XYZ", repeat=2):
                yield f"MPP {u}{x}*{v}{y}"
        else:
            yield f"MPP Z{x}*X{y}"


UNKNOWN = ["S 3", "X 3", "RX 3", "RY 3", "MRX 3", "I 3", "SQRT_X 3", "SWAP 3 10", "ISWAP 3 10", "MXX 3 10", 
           "H 99", "CX 3 99", "CX 99 3", "MPP X3*Y99", "MPP X3*Y10*Z6", "M 3 3",
           "CX 3 10 10 6", "H 3\nM 3", "MPP X3\nMPP X3", "QUBIT_COORDS(9, 9) 3", "QUBIT_COORDS(0, 0) 50", "CZ 3 10\nXCX 10 6",
           "MPP X3*X10 Z10"]
NOISE = "DEPOLARIZE1(0.1) 3\nX_ERROR(0.2) 3\nDEPOLARIZE2(0.1) 3 10\nM(0.25) 3\nDETECTOR(1, 2, 3) rec[-1]\nOBSERVABLE_INCLUDE(0) rec[-1]\nSHIFT_COORDS(0, 0, 1)"


def items(tier):
    th = tier == "thorough"
    out = []
    for g in GRIDS:
        out += [["single", g], ["multi", g], ["steps", g, int(th)], ["loops", g]]
        n = sum(1 for _ in one_ops(g, False)) + sum(1 for _ in two_ops(g, False))
        out += [["inone", g, k] for k in range(0, n, 20)]
    out.append(["unknown"])
    cfgs = []
    for style in ["SD6", "PC3", "EM3", "SI1000", "EM3_v2"]:
        for obs in "HV":
            for (w, h) in ([(2, 6), (4, 6), (2, 12), (4, 12), (6, 6), (8, 12), (12, 18)] if th else [(2, 6), (4, 6), (2, 12), (4, 12)]):
                for n in range(1, 41 if th and w * h <= 24 else 26 if w * h <= 24 else 4):
                    if configs.ok(style, n):
                        for p in (0, 0.001):
                            if not (style == "EM3_v2" and p):
                                cfgs.append(configs.cfg(w, h, n, style, obs, p))
    cfgs.sort(key=lambda c: c[0] * c[1] * c[2])
    out += [["gen", cfgs[i:i + 12]] for i in range(0, len(cfgs), 12)]
    return out


def run_item(item):
    kind = item[0]
    st = ev = nt = rf = 0
    sample = None

    def go(text_or_circuit, only=False, grid=None):
        nonlocal st, ev, nt, rf
        c = text_or_circuit if grid is None else head(grid) + stim.Circuit(text_or_circuit)
        n, l, r = judge(c, only)
        st += n
        ev += 1
        nt += l > 0
        rf += r

    if kind == "single":
        g = item[1]
        for op in list(one_ops(g, True)) + list(two_ops(g, True)):
            go(op, grid=g)
            go(op + "\nTICK", grid=g)
            go("TICK\n" + op, grid=g)
            sample = {"grid": g, "operation": op}
    elif kind == "inone":
        g = item[1]
        ops = list(one_ops(g, False)) + list(two_ops(g, False))
        for a in ops[item[2]:item[2] + 20]:
            for b in ops:
                go(a + "\n" + b, grid=g)
                if a.split()[0] == b.split()[0]:
                    go(a + " " + b.split(" ", 1)[1], grid=g)
        sample = {"grid": g, "operations of one step": [a, b]}
    elif kind == "multi":
        g = item[1]
        q = [number(g, k) for k in range(len(GRIDS[g]))]
        for n in ONE:
            for m in range(1, len(q) + 1):
                go(n + " " + " ".join(map(str, q[:m])), grid=g)
        for m in range(1, len(q) + 1):
            for b in "XYZ":
                go("MPP " + " ".join(f"{b}{x}" for x in q[:m]), grid=g)
        for n in TWO:
            # two disjoint pairs in one instruction, through both a single and separate instructions
            ps = list(pairs(g))
            for a, b in ps[:30]:
                for c, d in ps[:30]:
                    go(f"{n} {number(g, a)} {number(g, b)} {number(g, c)} {number(g, d)}", grid=g)
        sample = {"grid": g}
    elif kind == "steps":
        g, th = item[1], item[2]
        one, two = list(one_ops(g, False)), list(two_ops(g, False))
        rep = one + two if th else one[:4] + two[:8] + two[-4:]
        for a in rep:
            for b in rep:
                go(f"{a}\nTICK\n{b}", grid=g)
                go(f"{a}\nTICK\nTICK\n{b}\nTICK\n{a}", grid=g)
        sample = {"grid": g, "steps": len(rep) ** 2 * 2}
    elif kind == "loops":
        g = item[1]
        one, two = list(one_ops(g, False)), list(two_ops(g, False))
        rep = one[:3] + two[:3] + two[-2:]
        for a in rep:
            for b in rep:
                for body in (f"REPEAT 3 {{\n{a}\nTICK\n}}", f"{b}\nTICK\nREPEAT 2 {{\n{a}\nTICK\n{b}\nTICK\n}}\n{a}",
                             f"{b}\nREPEAT 2 {{\nTICK\n{a}\nTICK\nREPEAT 3 {{\n{b}\nTICK\n}}\n}}\n{a}",
                             f"REPEAT 2 {{\n{a}\nTICK\n}}\n{b}\nTICK\nREPEAT 3 {{\n{b}\nTICK\n}}"):
                    for only in (False, True):
                        go(body, only, grid=g)
        sample = {"grid": g, "loop": body}
    elif kind == "unknown":
        for g in ("1x2", "2x2", "3x3", "sparse"):
            for u in UNKNOWN:
                if "6" in u and len(GRIDS[g]) < 3 and " 6" in u:
                    pass
                for pre in ("", "H 3\nTICK\n"):
                    for suf in ("", "\nTICK\nH 3"):
                        go(pre + u + suf, grid=g)
                        go(f"REPEAT 2 {{\n{pre}{u}{suf}\nTICK\n}}", grid=g)
                        go(f"REPEAT 2 {{\n{pre}{u}{suf}\nTICK\n}}", True, grid=g)
            go(NOISE, grid=g)
            go("TICK\nTICK\n" + NOISE, grid=g)
            go("H 10\nTICK\n" + NOISE + "\nTICK\nCX 3 10", grid=g)
        check(rf > 100, "harness: the refused circuits were not refused")
        sample = {"refused": rf}
    elif kind == "gen":
        for cfg in item[1]:
            c = configs.layout(cfg).make_circuit()
            for only in (False, True):
                go(c, only)
        sample = {"config": cfg}
    return dict(states=st, transitions=ev, evaluations=ev, distinct_nontrivial=nt, traces_validated_against_impl=ev, refused=rf, sample=sample)
