"""Helpers shared by the circuit checks: measurement record -> lattice key."""
from mc.core import Violation
from mc.engine import Circ
from mc.configs import layout
from mc.refmodel import ref


def make(c):
    return layout(c).make_circuit()


def record_keys(c, circ):
    """Name of every record: ("e", midpoint, occurrence) or ("d", qubit)."""
    w, h, n, style, obs, p = c
    R = ref(w, h)
    coords = circ.qubit_coords
    data = set(R.data)
    occ = {}
    keys = []
    for op in circ.seq:
        if op.kind == "m" or op.kind == "mr":
            for q, inv in op.data:
                xy = coords.get(q)
                if xy is None:
                    return None
                xy = tuple(xy)
                if xy in R.edges:
                    k = occ.get(xy, 0)
                    occ[xy] = k + 1
                    keys.append(("e", xy, k))
                elif xy in data:
                    if ("d", xy) in occ:
                        raise Violation(f"data qubit {xy} is measured more than once", c)
                    occ[("d", xy)] = 1
                    keys.append(("d", xy))
                else:
                    raise Violation(f"a qubit at {xy} which is neither data nor edge centre is measured", c)
        elif op.kind == "mpp":
            for prod, inv in op.data:
                pair = frozenset(tuple(coords.get(q, (None, None))) for q, _ in prod)
                ms = R._edge_of_step.get(pair)
                if not ms or len(prod) != 2:
                    raise Violation(f"pair measurement of {sorted(map(str, pair))} which is not an edge", c)
                xy = ms[0]
                k = occ.get(xy, 0)
                occ[xy] = k + 1
                keys.append(("e", xy, k))
    return keys


def keyed(c, circuit=None):
    """(circuit, Circ, keys) of configuration c."""
    circuit = make(c) if circuit is None else circuit
    circ = Circ(circuit)
    keys = record_keys(c, circ)
    if keys is None:
        # helper qubit of the correlated model: same record order as the noiseless circuit
        ideal = Circ(make(c[:5] + [0]))
        keys = record_keys(c[:5] + [0], ideal)
        if keys is None or len(keys) != circ.num_records:
            raise Violation("noisy circuit has a different number of measurements than the noiseless one", c)
    return circuit, circ, keys


def outcome_sets_to_records(style, s):
    """Maps a set of edge-outcome/data keys to the set of record keys whose parity it is.

    Ancillas of PC3 are not reset, so an edge outcome is the change of its record."""
    if style != "PC3":
        return s
    out = set()
    for k in s:
        out ^= {k}
        if k[0] == "e" and k[2] > 0:
            out ^= {("e", k[1], k[2] - 1)}
    return frozenset(out)
