"""Reference noise insertion (written from the model descriptions) and canonical circuits.

A circuit is a list of atoms
  ("g", name, q) ("g2", name, a, b) ("r", name, q) ("m", name, q, inverted, p)
  ("mpp", ((q, basis), ...), inverted, p) ("cmpp", ((q, basis), (q, basis)), inverted, channel)
  ("n", name, p, targets) ("det", args, recs) ("obs", index, recs) ("shift", args)
  ("coords", args, q) ("tick",) ("rep", count, [atoms])
canon() forgets everything about order and grouping that has no effect: only the order of
operations on the same qubit, the order of records/annotations, and steps are kept.
"""
import functools
from collections import Counter

import stim

from mc.core import Violation

C1 = {"C_XYZ", "C_ZYX", "H", "H_YZ", "I"}
C2 = {"CX", "CY", "CZ", "XCX", "XCY", "XCZ", "YCX", "YCY", "YCZ"}
RS = {"R", "RX", "RY"}
MS = {"M", "MX", "MY"}


def fp(p):
    return float("%.11g" % p)


def atoms(circuit):
    """Parses a stim circuit into atoms (no interpretation)."""
    out = []
    for ins in circuit:
        if isinstance(ins, stim.CircuitRepeatBlock):
            body = atoms(ins.body_copy())
            if ins.repeat_count == 1:
                out.extend(body)
            else:
                out.append(("rep", ins.repeat_count, body))
            continue
        name = ins.name
        if name == "TICK":
            out.append(("tick",))
            continue
        a = ins.gate_args_copy()
        tg = ins.targets_copy()
        if name == "DETECTOR":
            out.append(("det", tuple(a), tuple(sorted(t.value for t in tg))))
        elif name == "OBSERVABLE_INCLUDE":
            out.append(("obs", int(a[0]), tuple(sorted(t.value for t in tg))))
        elif name == "SHIFT_COORDS":
            out.append(("shift", tuple(a)))
        elif name == "QUBIT_COORDS":
            out.extend(("coords", tuple(a), t.value) for t in tg)
        elif name in ("E", "CORRELATED_ERROR"):
            out.append(("n", "E", a[0], tuple((t.value, t.pauli_type) for t in tg)))
        elif name in ("DEPOLARIZE1", "X_ERROR", "Y_ERROR", "Z_ERROR"):
            out.extend(("n", name, fp(a[0]), (t.value,)) for t in tg)
        elif name == "DEPOLARIZE2":
            out.extend(("n", name, fp(a[0]), tuple(sorted((tg[i].value, tg[i + 1].value)))) for i in range(0, len(tg), 2))
        elif name in RS:
            out.extend(("r", name, t.value) for t in tg)
        elif name in MS:
            p = fp(a[0]) if a else 0.0
            out.extend(("m", name, t.value, t.is_inverted_result_target, p) for t in tg)
        elif name == "MPP":
            p = fp(a[0]) if a else 0.0
            i = 0
            while i < len(tg):
                prod, inv = [], False
                while True:
                    prod.append((tg[i].value, tg[i].pauli_type))
                    inv ^= tg[i].is_inverted_result_target
                    i += 1
                    if i < len(tg) and tg[i].is_combiner:
                        i += 1
                        continue
                    break
                out.append(("mpp", tuple(sorted(prod)), inv, p))
        else:
            gd = stim.gate_data(name)
            if gd.is_noisy_gate and not gd.produces_measurements:
                out.append(("n", name, tuple(a), tuple(t.value for t in tg)))
            elif gd.is_two_qubit_gate:
                out.extend(("g2", name, tg[i].value, tg[i + 1].value) for i in range(0, len(tg), 2))
            elif gd.is_single_qubit_gate and gd.is_unitary:
                out.extend(("g", name, t.value) for t in tg)
            else:
                out.append(("other", str(ins)))
    return out


# ---------------------------------------------------------------- the helper-qubit construction
def _channel(errors):
    """Distribution over (bits: x1 z1 x2 z2 flip) of independent errors [(element, p)]."""
    lam = []
    for chi in range(32):
        v = 1.0
        for e, p in errors:
            if (e & chi).bit_count() & 1:
                v *= 1 - 2 * p
        lam.append(v)
    return [sum(lam[c] * (-1) ** ((c & e).bit_count() & 1) for c in range(32)) / 32 for e in range(32)]


@functools.lru_cache(None)
def _composite(seq):
    """seq: normalised ops over qubits 0, 1 (pair) and 2 (helper).  Returns (bases, inverted, channel)."""
    ideal = stim.Circuit()
    ops = []
    for o in seq:
        if o[0] == "r":
            ideal.append(o[1], [o[2]])
        elif o[0] == "g":
            ideal.append(o[1], [o[2]])
        elif o[0] == "g2":
            ideal.append(o[1], [o[2], o[3]])
        elif o[0] == "m":
            ideal.append(o[1], [stim.target_inv(o[2]) if o[3] else o[2]])
    for a in "XYZ":
        for b in "XYZ":
            for inv in (False, True):
                if ideal.has_flow(stim.Flow(f"{'-' if inv else ''}{a}0*{b}1 -> rec[-1]")):
                    keep = True
                    for x in "IXYZ":
                        for y in "IXYZ":
                            if x == y == "I":
                                continue
                            anti = (x != "I" and x != a) ^ (y != "I" and y != b)
                            if not anti:
                                s = f"{x}{y}_".replace("I", "_")
                                if not ideal.has_flow(stim.Flow(f"{s} -> {s}")):
                                    keep = False
                    if not keep:
                        return None
                    errors = []
                    for i, o in enumerate(seq):
                        if o[0] == "n":
                            tail = stim.Circuit()
                            done = False
                            for q in seq[i + 1:]:
                                if q[0] == "g":
                                    tail.append(q[1], [q[2]])
                                elif q[0] == "g2":
                                    tail.append(q[1], [q[2], q[3]])
                                elif q[0] in ("r", "m"):
                                    break
                            if o[1] == "E":
                                mech = [([(q, p) for q, p in o[3]], o[2])]
                            elif o[1] in ("X_ERROR", "Y_ERROR", "Z_ERROR"):
                                mech = [([(o[3][0], o[1][0])], o[2])]
                            else:
                                return None
                            measured = any(q[0] == "m" for q in seq[i + 1:])
                            for ts, p in mech:
                                ps = stim.PauliString(3)
                                for q, pt in ts:
                                    ps *= stim.PauliString("_" * q + pt + "_" * (2 - q))
                                if len(tail):
                                    ps = ps.after(tail)
                                e = 0
                                for q in (0, 1):
                                    e |= ((1 if ps[q] in (1, 2) else 0) | (2 if ps[q] in (2, 3) else 0)) << (2 * q)
                                mq = [q for q in seq if q[0] == "m"][0]
                                if measured and ps[2] not in (0, {"M": 3, "MX": 1, "MY": 2}[mq[1]]):
                                    e |= 16
                                errors.append((e, p))
                        elif o[0] == "m" and o[4]:
                            errors.append((16, o[4]))
                    return ((a, b), inv, tuple(_channel(errors)))
    return None


def fold_helpers(lst, own):
    """Replaces R h ... M h sequences of helper qubits (not in own) by one atom."""
    out = []
    i = 0
    while i < len(lst):
        a = lst[i]
        if a[0] == "rep":
            out.append(("rep", a[1], fold_helpers(a[2], own)))
            i += 1
            continue
        qs = _qubits(a)
        if qs and any(q not in own for q in qs):
            h = next(q for q in qs if q not in own)
            if a[0] != "r":
                raise Violation(f"helper qubit {h} is used before it is reset: {a}")
            seq = [a]
            pair = []
            j = i + 1
            while j < len(lst):
                b = lst[j]
                bq = _qubits(b)
                if b[0] in ("tick", "rep"):
                    raise Violation(f"helper qubit {h} stays in use across a step")
                if b[0] in ("det", "obs", "shift", "coords"):
                    raise Violation("annotation inside a parity measurement")
                for q in bq:
                    if q != h and q not in pair:
                        pair.append(q)
                seq.append(b)
                j += 1
                if b[0] == "m" and h in bq:
                    break
            else:
                raise Violation(f"helper qubit {h} is never measured")
            if len(pair) != 2 or any(q not in own for q in pair):
                raise Violation(f"a parity measurement touches qubits {pair} besides its helper {h}")
            pair.sort()
            m = {pair[0]: 0, pair[1]: 1, h: 2}
            norm = []
            for b in seq:
                if b[0] in ("r", "g"):
                    norm.append((b[0], b[1], m[b[2]]))
                elif b[0] == "g2":
                    norm.append(("g2", b[1], m[b[2]], m[b[3]]))
                elif b[0] == "m":
                    norm.append(("m", b[1], m[b[2]], b[3], b[4]))
                elif b[0] == "n":
                    norm.append(("n", b[1], b[2], tuple((m[t[0]], t[1]) if isinstance(t, tuple) else m[t] for t in b[3])))
                else:
                    raise Violation(f"unexpected {b} inside a parity measurement")
            r = _composite(tuple(norm))
            if r is None:
                raise Violation(f"the operations on {pair} and helper {h} do not measure a product of two Paulis",
                                [str(x) for x in seq[:8]])
            (ba, bb), inv, ch = r
            out.append(("cmpp", ((pair[0], ba), (pair[1], bb)), inv, ch))
            i = j
            continue
        out.append(a)
        i += 1
    return out


def _qubits(a):
    k = a[0]
    if k in ("g", "r", "m"):
        return (a[2],)
    if k == "g2":
        return (a[2], a[3])
    if k in ("mpp", "cmpp"):
        return tuple(q for q, _ in a[1])
    if k == "n":
        return tuple(t[0] if isinstance(t, tuple) else t for t in a[3])
    return ()


def mix_channel(p):
    return tuple([1 - p + p / 32] + [p / 32] * 31)


# ---------------------------------------------------------------- reference insertion
class Model:
    """table: op name -> p (missing = refused)."""

    def __init__(self, idle, mr_idle, table, correlated=False):
        self.idle, self.mr_idle, self.table, self.correlated = idle, mr_idle, table, correlated


def model(name, p):
    c1 = lambda v: {g: v for g in C1}
    c2 = lambda v: {g: v for g in C2}
    if name == "SD6":
        return Model(p, 0, {**c1(p), "CX": p, "R": p, "M": p})
    if name == "PC3":
        return Model(p, 0, {**c1(p), **c2(p), "R": p, "M": p})
    if name == "EM3_v1":
        return Model(p, 0, {**c1(p), "R": p, "M": p, "MPP": p})
    if name == "EM3_v2":
        return Model(p, 0, {**c1(0), **c2(0), "R": p / 2, "M": p / 2, "MPP": p}, correlated=True)
    if name == "SI1000":
        return Model(p / 10, 2 * p, {**c1(p / 10), "CZ": p, "R": 2 * p, "M": 5 * p})
    raise ValueError(name)


class Refused(Exception):
    pass


def insert(m, lst, qs):
    """Atoms of the noisy circuit.  lst: atoms of the ideal circuit WITH explicit step structure
    (a step ends at a tick, at a loop boundary, or at the end)."""
    out = []
    pre, mid, post = [], [], []
    used, mr = set(), set()

    def flush():
        if used:
            if m.idle > 0:
                post.extend(("n", "DEPOLARIZE1", fp(m.idle), (q,)) for q in qs if q not in used)
        if mr:
            if m.mr_idle > 0:
                post.extend(("n", "DEPOLARIZE1", fp(m.mr_idle), (q,)) for q in qs if q not in mr)
        out.extend(pre + mid + post)
        pre.clear(), mid.clear(), post.clear(), used.clear(), mr.clear()

    for a in lst:
        k = a[0]
        if k == "tick":
            flush()
            out.append(a)
        elif k == "rep":
            flush()
            body = insert(m, a[2], qs)
            if a[1] == 1:
                out.extend(body)
            else:
                out.append(("rep", a[1], body))
        elif k in ("det", "obs", "shift", "coords"):
            mid.append(a)
        else:
            name = "MPP" if k == "mpp" else a[1]
            if name not in m.table:
                raise Refused(name)
            p = m.table[name]
            used.update(_qubits(a))
            if k in ("m", "r"):
                mr.update(_qubits(a))
            if p <= 0:
                mid.append(a)
            elif k == "g":
                mid.append(a)
                post.append(("n", "DEPOLARIZE1", fp(p), (a[2],)))
            elif k == "g2":
                mid.append(a)
                post.append(("n", "DEPOLARIZE2", fp(p), tuple(sorted((a[2], a[3])))))
            elif k == "r":
                mid.append(a)
                post.append(("n", "Z_ERROR" if name == "RX" else "X_ERROR", fp(p), (a[2],)))
            elif k == "m":
                pre.append(("n", "Z_ERROR" if name == "MX" else "X_ERROR", fp(p), (a[2],)))
                mid.append(a)
            elif k == "mpp":
                if len(a[1]) != 2:
                    raise Refused("MPP of %d" % len(a[1]))
                if m.correlated:
                    mid.append(("cmpp", a[1], a[2], mix_channel(p)))
                else:
                    pre.append(("n", "DEPOLARIZE2", fp(p), tuple(sorted(q for q, _ in a[1]))))
                    mid.append(("mpp", a[1], a[2], fp(p)))
    flush()
    return out


def atoms_keep_single(circuit):
    """Like atoms, but keeps REPEAT 1 blocks (they are step boundaries for the insertion)."""
    out = []
    for ins in circuit:
        if isinstance(ins, stim.CircuitRepeatBlock):
            out.append(("rep", ins.repeat_count, atoms_keep_single(ins.body_copy())))
        else:
            c = stim.Circuit()
            c.append(ins)
            out.extend(atoms(c))
    return out


def strip(lst):
    """Removes all noise; helper measurements become plain products."""
    out = []
    for a in lst:
        if a[0] == "n":
            continue
        if a[0] == "rep":
            b = strip(a[2])
            if a[1] == 1:
                out.extend(b)
            else:
                out.append(("rep", a[1], b))
        elif a[0] == "m":
            out.append(a[:4] + (0.0,))
        elif a[0] == "mpp":
            out.append(a[:3] + (0.0,))
        elif a[0] == "cmpp":
            out.append(("mpp", a[1], a[2], 0.0))
        else:
            out.append(a)
    return out


def canon(lst, with_channel=True):
    """Canonical nested tuple.  Channels of cmpp are rounded to 10 digits."""
    blocks = []
    line, tl, gap = [], {}, {}

    def close():
        nonlocal line, tl, gap
        d = {}
        for q in set(tl) | set(gap):
            seq = list(tl.get(q, ()))
            if gap.get(q):
                seq.append(tuple(sorted(gap[q].items())))
            d[q] = tuple(seq)
        blocks.append((tuple(line), tuple(sorted(d.items(), key=lambda kv: kv[0]))))
        line, tl, gap = [], {}, {}

    def event(q, ev):
        s = tl.setdefault(q, [])
        if gap.get(q):
            s.append(tuple(sorted(gap[q].items())))
            gap[q] = Counter()
        s.append(ev)

    for a in lst:
        k = a[0]
        if k == "tick":
            close()
            blocks.append("tick")
        elif k == "rep":
            close()
            body, count = canon(a[2]), a[1]
            if len(body) == 1 and isinstance(body[0], tuple) and len(body[0]) == 3 and body[0][0] == "rep":
                count, body = count * body[0][1], body[0][2]  # a loop of a loop is one longer loop
            if body:
                blocks.append(("rep", count, body))
        elif k == "n":
            key = (a[1], a[2], a[3])
            for q in _qubits(a):
                gap.setdefault(q, Counter())[key] += 1
        elif k in ("det", "obs", "shift", "coords"):
            line.append(a)
        else:
            if k == "cmpp":
                a = ("cmpp", a[1], a[2], tuple(round(x, 9) + 0.0 for x in a[3]))
            if k in ("m", "mpp", "cmpp"):
                line.append(a)
            for q in _qubits(a):
                event(q, a)
    close()
    # drop empty blocks
    return tuple(b for b in blocks if b != ((), ()))


def first_difference(x, y, path=""):
    if type(x) != type(y) or not isinstance(x, tuple):
        return f"{path}: {str(x)[:300]} != {str(y)[:300]}"
    if len(x) != len(y):
        for i, (a, b) in enumerate(zip(x, y)):
            if a != b:
                return first_difference(a, b, f"{path}/{i}")
        return f"{path}: {len(x)} vs {len(y)} elements, extra {str((x + y)[min(len(x), len(y))])[:200]}"
    for i, (a, b) in enumerate(zip(x, y)):
        if a != b:
            return first_difference(a, b, f"{path}/{i}")
    return ""
