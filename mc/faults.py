"""Complete single-fault transition relation of a circuit and shortest undetected logical faults."""
from collections import deque

from mc.engine import Circ, pull_back, symptoms_of_noise


def circuit_faults(circ):
    """{symptom mask: number of elementary faults} over every noise location of the circuit."""
    out = {}
    masks = circ.annotation_masks()

    def visit(pos, op, xs, zs):
        k = op.kind
        if k == "noise":
            if op.args and op.args[0] <= 0:
                return
            for s in symptoms_of_noise(op, xs, zs):
                out[s] = out.get(s, 0) + 1
        elif k in ("m", "mpp", "mr") and op.args and op.args[0] > 0:
            r = circ.seq_rec[pos]
            for i in range(len(op.data)):
                s = masks[r + i]
                out[s] = out.get(s, 0) + 1

    pull_back(circ, masks, visit=visit)
    return out


def data_faults_between_rounds(circ, data):
    """Single Pauli errors on data qubits at every tick of an (ideal) direct-measurement circuit."""
    out = {}

    def visit(pos, op, xs, zs):
        if op.kind == "tick":
            for q in data:
                x, z = xs[q], zs[q]
                for s in (x, z, x ^ z):
                    out[s] = out.get(s, 0) + 1

    pull_back(circ, circ.annotation_masks(), visit=visit)
    return out


def graphlike_distance(faults, nd, cap=10 ** 9):
    """Length of the shortest undetected logical error made of faults with at most two detectors."""
    dm = (1 << nd) - 1
    adj = {}
    odd_nodes = set()
    best = None
    for s in faults:
        d = s & dm
        o = 1 if s >> nd else 0
        if not d:
            if o:
                return 1
            continue
        lo = (d & -d).bit_length() - 1
        hi = d.bit_length() - 1
        if d == (1 << lo) | (1 << hi):
            a, b = lo, (hi if hi != lo else -1)
            adj.setdefault(a, set()).add((b, o))
            adj.setdefault(b, set()).add((a, o))
            if o:
                odd_nodes.add(a)
    for start in sorted(odd_nodes):
        # BFS over (node, parity) from (start, 0) to (start, 1)
        seen = {(start, 0): 0}
        dq = deque([(start, 0)])
        limit = best if best is not None else cap
        while dq:
            u = dq.popleft()
            du = seen[u]
            if du + 1 >= limit:
                break
            for v, o in adj[u[0]]:
                t = (v, u[1] ^ o)
                if t not in seen:
                    seen[t] = du + 1
                    if t == (start, 1):
                        limit = best = du + 1
                        break
                    dq.append(t)
            else:
                continue
            break
    return best


def exact_has_logical(faults, nd, size, budget=None):
    """Is there an undetected observable flip made of at most `size` faults (any number of detectors)?

    Exhaustive: the lowest fired detector must be hit by another fault of the set, so a
    depth-first search that always repairs the lowest fired detector visits every minimal set.
    Symptoms must be normalised (one observable bit, bit nd).  Returns (set or None, nodes)."""
    dm = (1 << nd) - 1
    sym = [s for s in faults if s]
    allset = set(sym)
    by_det = {}
    maxw = 1
    for s in sym:
        d = s & dm
        maxw = max(maxw, d.bit_count())
        while d:
            l = d & -d
            by_det.setdefault(l, []).append(s)
            d ^= l
    nodes = 0
    top = 1 << nd

    for s in sym:
        if not s & dm and s >> nd:
            return [s], 1

    def rec(cur, left):
        """cur: symptom so far; left faults may be added."""
        nonlocal nodes
        nodes += 1
        d = cur & dm
        if not d:
            return [] if cur >> nd else None
        if left == 1:
            return [cur ^ top] if (cur ^ top) in allset else None
        if d.bit_count() > left * maxw:
            return None
        l = d & -d
        for s in by_det.get(l, ()):
            r = rec(cur ^ s, left - 1)
            if r is not None:
                return [s] + r
        return None

    # first fault must flip the observable
    for s in sym:
        if s >> nd:
            r = rec(s, size - 1)
            if r is not None:
                return [s] + r, nodes
    return None, nodes
