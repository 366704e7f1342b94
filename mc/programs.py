"""Bounded program spaces for the noise checks.  Every space is a list of chunks; a chunk is
expanded to circuit texts by texts(chunk)."""
import itertools

ONE = ["H", "C_XYZ", "C_ZYX", "H_YZ", "I", "R", "M", "M !"]
TWO = ["CX", "CY", "CZ", "XCX", "XCY", "XCZ", "YCX", "YCY", "YCZ"]
B = "XYZ"


def step_texts(nq, ones, twos, mpp):
    """All single steps on nq qubits touching each qubit at most once (at most one pair op per step)."""
    out = []

    def fill(free):
        for combo in itertools.product([None] + ones, repeat=len(free)):
            yield [f"{o} {q}".replace("! ", "!") for o, q in zip(combo, free) if o]

    qs = list(range(nq))
    for s in fill(qs):
        out.append("\n".join(s))
    for a, b in itertools.permutations(qs, 2):
        free = [q for q in qs if q not in (a, b)]
        pairs = [f"{t} {a} {b}" for t in twos]
        if a < b:
            pairs += [f"MPP {x}{a}*{y}{b}" for x, y in mpp]
            pairs += [f"MPP !{x}{a}*{y}{b}" for x, y in (mpp if len(mpp) > 2 else mpp[:1])]
            pairs += [f"MPP {x}{a}*!{y}{b}" for x, y in (mpp if len(mpp) > 2 else [])]
            pairs += [f"MPP !{x}{a}*!{y}{b}" for x, y in (mpp if len(mpp) > 2 else [])]
        else:
            pairs += [f"MPP {x}{a}*{y}{b}" for x, y in (mpp if len(mpp) > 2 else mpp[:1])]
            pairs += [f"MPP !{x}{a}*{y}{b}" for x, y in (mpp if len(mpp) > 2 else [])]
        for p in pairs:
            for s in fill(free):
                out.append("\n".join([p] + s))
    return out


_cache = {}


def alphabet(name):
    if name not in _cache:
        if name == "full3":
            _cache[name] = step_texts(3, ONE, TWO, [(x, y) for x in B for y in B])
        elif name == "small2":
            _cache[name] = step_texts(2, ["H", "R", "M"], ["CX", "CZ"], [("X", "X"), ("Y", "Z")])
        elif name == "small3":
            _cache[name] = step_texts(3, ["H", "M"], ["CX", "CZ"], [("X", "Z")])
        elif name == "multi":
            _cache[name] = ["H 0 1 2 3", "CX 0 1 2 3", "CX 3 0 1 2", "CZ 0 1 2 3", "YCX 0 2 3 1", "MPP X0*X1 Z2*Z3",
                            "MPP X3*Y0 Z1*X2", "R 0 1 2 3", "M 0 1 2 3", "M 3 1", "R 2\nM 0", "R 1 3\nCX 0 2", "R 1\nH 0\nM 2",
                            "M 1\nMPP Z0*Z3", "C_ZYX 0 1\nCZ 2 3", "I 3", "R 4\nM 5", "H 0\nH 1\nH 2", "M 0\nM 1\nR 2\nR 3",
                            "CX 0 1\nCX 2 3", "MPP X0*X1\nMPP Y2*Y3", "MPP Z0*Z1 Z2*Z3 Z4*Z5", "MPP !Z0*Z1 X2*!X3", "MPP Z0*Z1 !Y3*!X2", "MPP X4*X5 !Z1*Z0 Y3*Y2", "H 7\nM 2\nR 3", "M !0 1 !2", "M 3 !1\nR 0",
                            "QUBIT_COORDS(0.1234567890123, 1e-9) 0\nQUBIT_COORDS(-3, 123456789.125) 3\nH 0", ""]
    return _cache[name]


TOKENS = ["H 0", "M 1", "R 2", "P", "TICK", "DETECTOR(1, 2, 3) rec[-1]", "SHIFT_COORDS(0, 1)", "OBSERVABLE_INCLUDE(1) rec[-1]",
          "QUBIT_COORDS(2, 1) 0", "REPEAT 2 {", "REPEAT 1 {", "}"]


def structures(length, prefix=()):
    """All well-formed token sequences of the given length (nested loops, once-per-step, records exist)."""
    out = []

    def rec(seq, depth, empty, used, recs):
        if len(seq) == length:
            if depth == 0:
                out.append(list(seq))
            return
        for i, t in enumerate(TOKENS):
            if len(seq) < len(prefix) and i != prefix[len(seq)]:
                continue
            left = length - len(seq) - 1
            if t.startswith("REPEAT"):
                if depth >= 2 or left < depth + 2:
                    continue
                rec(seq + [t], depth + 1, True, frozenset(), recs)
            elif t == "}":
                if depth == 0 or empty:
                    continue
                rec(seq + [t], depth - 1, False, frozenset(), recs)
            else:
                if left < depth:
                    continue
                q = {"H 0": {0}, "M 1": {1}, "R 2": {2}, "P": {0, 1}}.get(t, set())
                if q & used:
                    continue
                if "rec" in t and recs == 0:
                    continue
                rec(seq + [t], depth, False, frozenset() if t == "TICK" else used | q, recs + (t == "M 1"))
    rec([], 0, True, frozenset(), 0)
    return out


def texts(chunk):
    kind = chunk[0]
    if kind == "one":      # single steps, slice of the full alphabet
        for s in alphabet(chunk[1])[chunk[2]:chunk[3]]:
            yield s
    elif kind == "two":    # first step fixed, all second steps
        a = alphabet(chunk[1])[chunk[2]]
        for b in alphabet(chunk[1]):
            yield a + "\nTICK\n" + b
    elif kind == "three":
        a = alphabet(chunk[1])[chunk[2]]
        for b in alphabet(chunk[1]):
            for c in alphabet(chunk[1]):
                yield a + "\nTICK\n" + b + "\nTICK\n" + c + "\nTICK"
    elif kind == "struct":
        for pair in chunk[3]:
            for seq in structures(chunk[1], tuple(chunk[2])):
                yield "\n".join(pair if t == "P" else t for t in seq)
    elif kind == "gap":
        k = chunk[1]
        yield f"H {k}"
        yield f"R 0\nTICK\nM {k}"
        yield f"H {k}\nTICK\nR 0\nM {k}"
        if k:
            yield f"MPP X0*Z{k}"
            yield f"CX {k} 0"
            yield f"CZ 0 {k}"
            yield f"REPEAT 3 {{\nH 0\nTICK\n}}\nM {k}"
            yield f"R {k}\nTICK\nREPEAT 2 {{\nMPP X0*X{(k + 1) // 2}\nTICK\n}}\nM 0" if k > 1 else "M 0 1"
            yield "M " + " ".join(map(str, range(k))) + f"\nR {k}"
            yield "R " + " ".join(map(str, range(0, k + 1, 2)))
            yield f"R {k}\nTICK\nM !{k}\nDETECTOR(0.333333333333, -1.5, {k}.0625) rec[-1]\nSHIFT_COORDS(0.0001, 0, {k})"
        yield f"H 0\nTICK\nQUBIT_COORDS(0, {k}) {k}\nTICK\nH 0"
    elif kind == "text":
        yield chunk[1]


def space(tier):
    th = tier == "thorough"
    out = [["gap", k] for k in list(range(0, 34)) + [63, 64, 65, 100, 127, 128, 129, 255, 256, 257]]
    n = len(alphabet("full3"))
    out += [["one", "full3", i, min(i + 150, n)] for i in range(0, n, 150)]
    out += [["two", "small2", i] for i in range(len(alphabet("small2")))]
    out += [["two", "multi", i] for i in range(len(alphabet("multi")))]
    out += [["two", "small3", i] for i in range(len(alphabet("small3")))]
    out += [["three", "small2", i] for i in range(len(alphabet("small2")))]
    pairs = ["CX 0 1", "MPP X0*Z1", "CZ 0 1"]
    for length in range(0, 5):
        out.append(["struct", length, [], pairs])
    for i in range(len(TOKENS)):
        out.append(["struct", 5, [i], pairs])
    if th:
        for i in range(len(TOKENS)):
            for j in range(len(TOKENS)):
                out.append(["struct", 6, [i, j], pairs])
        out += [["two", "full3", i] for i in range(0, len(alphabet("full3")), 7)]
        out += [["three", "multi", i] for i in range(len(alphabet("multi")))]
    # nested loops around whole steps
    return out
