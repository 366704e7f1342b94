"""C11: correlated pair-measurement noise is the exact uniform mixture."""
import itertools

import stim

from mc.core import Violation, check
from mc import refnoise as rn, configs
from mc.circlib import make

RULE = ("all 9 basis pairs x result inversions x qubit/helper index arrangements x probability grid: the 32-element channel of "
        "the generated gadget is computed exactly and compared with the uniform mixture; all sequences of 1-3 pair "
        "measurements over 3 qubits x all placements (one instruction, separate, steps, loops, nested loops) must fold to "
        "exactly the requested products in order, each with that channel, on helpers outside the circuit's own qubits; "
        "states = gadgets reduced to channels; non-trivial: probability > 0")
ASSUMPTIONS = ["stim's flow checker and Pauli conjugation decide what the gadget measures and how its errors propagate"]
BOUNDS = {
    "quick": "71 probabilities; sequences of up to 2 products over all bases and 3 over a reduced set; 9 placements; layouts to 4x12",
    "thorough": "1001 probabilities; sequences of up to 3 products over the full alphabet; layouts to 8x12, n to 24",
}
SMALL = [1e-12, 1e-9, 1e-6, 1e-4, 0.001, 0.003, 0.01, 0.03, 0.1, 0.3, 1 / 3, 0.7, 15 / 16, 31 / 32, 0.97, 0.99, 0.999, 0.999999, 1 - 1e-9, 0]


def probs(th):
    n = 980 if th else 50
    return sorted(set(SMALL + [k / n for k in range(n + 1)]))


def same_channel(ch, p, case):
    want = rn.mix_channel(p)
    for e in range(32):
        if abs(ch[e] - want[e]) > 1e-14 + 1e-9 * want[e]:
            raise Violation(f"with mixing probability {p} error {e:05b} (flip,z2,x2,z1,x1) has probability {ch[e]}, expected {want[e]}", case)


PRODS = [(a, b, x, y) for a, b in ((0, 1), (0, 2), (1, 2), (2, 0)) for x in "XYZ" for y in "XYZ"]
FEW = [(0, 1, "X", "X"), (1, 2, "Z", "Y"), (2, 0, "Y", "Z"), (0, 2, "Z", "Z"), (1, 0, "Y", "X")]


def text_of(pr, inv=0):
    a, b, x, y = pr
    return f"{'!' if inv & 1 else ''}{x}{a}*{'!' if inv & 2 else ''}{y}{b}"


def placements(ps):
    """(circuit text, expected flat structure: nested list of products)."""
    one = " ".join(text_of(p) for p in ps)
    yield "MPP " + one, list(ps)
    yield "\n".join("MPP " + text_of(p) for p in ps), list(ps)
    yield "\nTICK\n".join("MPP " + text_of(p) for p in ps), list(ps)
    yield "REPEAT 2 {\nMPP " + one + "\nTICK\n}", [[2, list(ps)]]
    yield "REPEAT 3 {\nTICK\nMPP " + one + "\n}\nTICK\nR 5\nTICK\nMPP " + one, [[3, list(ps)]] + list(ps)
    yield "MPP " + one + "\nTICK\nREPEAT 2 {\nH 0\nTICK\nREPEAT 3 {\nMPP " + one + "\nTICK\n}\nM 4\nTICK\n}\nM 3", \
        list(ps) + [[2, [[3, list(ps)]]]]
    yield "R 3 4 5 6\nTICK\nREPEAT 2 {\nMPP " + one + "\n}\nTICK\nM 3 4 5 6", [[2, list(ps)]]
    yield "REPEAT 2 {\nMPP " + one + "\n}\nTICK\nREPEAT 2 {\nMPP " + one + "\nTICK\nH 9\n}", [[2, list(ps)], [2, list(ps)]]
    yield "REPEAT 2 {\nMPP " + text_of(ps[0], 1) + "\n}\nTICK\nMPP " + text_of(ps[-1], 3) + "\nTICK\nMPP " + text_of(ps[-1], 2), \
        [[2, [ps[0] + (1,)]], ps[-1], ps[-1] + (1,)]


def items(tier):
    th = tier == "thorough"
    P = probs(th)
    out = [["gadget", x + y, P[i:i + 120]] for x in "XYZ" for y in "XYZ" for i in range(0, len(P), 120)]
    out.append(["component"])
    out += [["seq", [list(p)], 1] for p in PRODS]
    out += [["seq", [list(p)], 2] for p in PRODS]
    if th:
        out += [["seq", [list(p), list(q)], 3] for p in PRODS for q in PRODS[::2]]
    else:
        out += [["few", [list(p)], 3] for p in FEW]
    lay = []
    for obs in "HV":
        for w, h in ((2, 6), (4, 6), (2, 12), (4, 12)) + (((6, 12), (8, 12)) if th else ()):
            for n in (1, 2, 3, 4, 5, 6, 7, 12, 24):
                for p in (0.001, 0.02, 0.4, 1):
                    if th or w * h * n <= 300:
                        lay.append(configs.cfg(w, h, n, "EM3_v2", obs, p))
    out += [["lay", ch] for ch in configs.chunks(lay, budget=4000)]
    return out


def products(lst):
    out = []
    for a in lst:
        if a[0] == "rep":
            b = products(a[2])
            if b:
                out.append([a[1], b])
        elif a[0] in ("cmpp", "mpp"):
            out.append(a)
    return out


def match(want, got, p, case):
    n = 0
    check(len(want) == len(got), lambda: f"expected {len(want)} pair measurements, got {len(got)}", case)
    for w, g in zip(want, got):
        if isinstance(w, list):
            check(isinstance(g, list) and g[0] == w[0], "a loop around pair measurements changed", case)
            n += match(w[1], g[1], p, case)
            continue
        check(isinstance(g, tuple), "a pair measurement moved into a loop", case)
        a, b, x, y = w[:4]
        inv = len(w) > 4
        check(tuple(sorted(((a, x), (b, y)))) == tuple(g[1]), lambda: f"measured {g[1]} instead of {x}{a}*{y}{b}", case)
        check(g[2] == inv, lambda: f"inversion of {x}{a}*{y}{b} is {g[2]}", case)
        if g[0] == "mpp":
            check(p == 0 and g[3] == 0, "a pair measurement without correlated noise", case)
        else:
            same_channel(g[3], p, case)
        n += 1
    return n


def run_item(item):
    import noise
    kind = item[0]
    st = nt = ev = 0
    sample = None
    if kind == "gadget":
        x, y = item[1]
        for p in item[2]:
            for a, b, h in ((0, 1, 2), (1, 0, 2), (2, 1, 0), (0, 2, 1), (5, 3, 11)):
                for inv in range(4):
                    mk = {"X": stim.target_x, "Y": stim.target_y, "Z": stim.target_z}
                    t1 = mk[x](a, invert=bool(inv & 1))
                    t2 = mk[y](b, invert=bool(inv & 2))
                    c = noise.parity_measurement_with_correlated_measurement_noise(t1=t1, t2=t2, ancilla=h, mix_probability=p)
                    case = {"product": f"{t1}*{t2}", "helper": h, "p": p}
                    f = rn.fold_helpers(rn.atoms(c), {a, b})
                    check(len(f) == 1 and f[0][0] == "cmpp", lambda: f"the gadget is not a single pair measurement: {f}", case)
                    f = f[0]
                    check(tuple(f[1]) == tuple(sorted(((a, x), (b, y)))), lambda: f"measures {f[1]}", case)
                    check(f[2] == (inv in (1, 2)), lambda: "inversion of the product is lost", case)
                    same_channel(f[3], p, case)
                    st += 1
                    ev += 1
                    nt += p > 0
            sample = {"bases": item[1], "p": p, "channel identity": f[3][0], "channel XX+flip": f[3][0b10101]}
    elif kind == "component":
        for n in range(1, 9):
            for p in probs(True):
                q = noise.mix_probability_to_independent_component_probability(p, n)
                # Product over the 2**n - 1 independent components: each character sees 2**(n-1) of them.
                got = (1 - 2 * q) ** (2 ** (n - 1))
                check(0 <= q <= 0.5, f"component probability {q} for {p}, {n}")
                check(abs(got - (1 - p)) < 1e-11, f"components of mixture {p} over {n} bits compose to {1 - got}", {"p": p, "n": n, "q": q})
                ev += 1
                st += 1
                nt += p > 0
        sample = {"p": p, "n": n, "q": q}
    elif kind in ("seq", "few"):
        fixed, depth = [tuple(p) for p in item[1]], item[2]
        pool = PRODS if kind == "seq" else FEW
        for rest in itertools.product(pool, repeat=depth - len(fixed)):
            ps = fixed + list(rest)
            for text, want in placements(ps):
                c = stim.Circuit(text)
                for p in (0.01, 0.5) if depth == 1 else (0.01,):
                    for qs in (None, {11, 3, 0} | set(range(c.num_qubits))) if depth == 1 else (None,):
                        case = {"circuit": text, "p": p, "qs": sorted(qs) if qs else None}
                        got = noise.NoiseModel.EM3_v2(p).noisy_circuit(c) if qs is None else \
                            noise.NoiseModel.EM3_v2(p).noisy_circuit(c, qs=set(qs))
                        own = set(range(c.num_qubits)) | set(qs or ())
                        st += match(want, products(rn.fold_helpers(rn.atoms(got), own)), p, case)
                        ev += 1
                        nt += 1
            sample = {"circuit": text}
    else:
        for c in item[1]:
            ideal = make(c[:5] + [0])
            got = make(c)
            ia = products(rn.atoms(ideal))

            def conv(lst):
                return [[w[0], conv(w[1])] if isinstance(w, list) else
                        (w[1][0][0], w[1][1][0], w[1][0][1], w[1][1][1]) + ((1,) if w[2] else ()) for w in lst]
            st += match(conv(ia), products(rn.fold_helpers(rn.atoms(got), set(range(ideal.num_qubits)))), c[5], {"config": c})
            ev += 1
            nt += 1
            sample = {"config": c}
    return dict(states=st, transitions=ev, evaluations=ev, distinct_nontrivial=nt, traces_validated_against_impl=ev, sample=sample)
