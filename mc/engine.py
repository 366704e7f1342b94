"""Independent symbolic explorer of stabilizer circuits.

`Circ` parses a stim circuit once and unrolls its loops.  `pull_back` moves the Pauli frame of
many parities (one bit each) backwards through the unrolled circuit and reports

  bad     one bitmask per reset/measurement/start at which some parity anticommutes
          (a parity has a fixed value over all random outcomes iff it is in no bad mask;
           a *sum* of parities does iff it overlaps every bad mask evenly)
  visit   callback receiving (position, op, xs, zs) just before the frame crosses an op,
          i.e. the state describes sensitivity to faults inserted right AFTER that op.

Only gate tableaus are taken from stim; loops, records, detectors, shifts are handled here.
"""
import functools

import stim

NOISE = {
    "DEPOLARIZE1", "DEPOLARIZE2", "X_ERROR", "Y_ERROR", "Z_ERROR", "PAULI_CHANNEL_1", "PAULI_CHANNEL_2",
    "E", "CORRELATED_ERROR", "ELSE_CORRELATED_ERROR", "I_ERROR", "II_ERROR",
    "HERALDED_ERASE", "HERALDED_PAULI_CHANNEL_1",
}
ANNOT = {"DETECTOR", "OBSERVABLE_INCLUDE", "SHIFT_COORDS", "QUBIT_COORDS", "TICK"}
MEAS = {"M": "Z", "MZ": "Z", "MX": "X", "MY": "Y"}
RESET = {"R": "Z", "RZ": "Z", "RX": "X", "RY": "Y"}
MR = {"MR": "Z", "MRZ": "Z", "MRX": "X", "MRY": "Y"}


@functools.lru_cache(None)
def _backmap(name):
    """Linear map of (x, z) components when a frame moves backwards through the gate."""
    t = stim.gate_data(name).tableau.inverse()
    n = len(t)
    rows = []
    for q in range(n):
        for p in (t.x_output(q), t.z_output(q)):
            row = 0
            for j in range(n):
                v = p[j]
                row |= ((1 if v in (1, 2) else 0) | (2 if v in (2, 3) else 0)) << (2 * j)
            rows.append(row)
    return n, tuple(rows)


class Op:
    __slots__ = ("name", "kind", "data", "args", "tag")

    def __init__(self, name, kind, data, args=()):
        self.name, self.kind, self.data, self.args = name, kind, data, args


def _parse(circuit, keep_noise):
    out = []
    for ins in circuit:
        if isinstance(ins, stim.CircuitRepeatBlock):
            out.append(Op("REPEAT", "rep", _parse(ins.body_copy(), keep_noise), (ins.repeat_count,)))
            continue
        name = ins.name
        if name in NOISE:
            if keep_noise:
                ts = []
                for t in ins.targets_copy():
                    ts.append((t.value, "X" if t.is_x_target else "Y" if t.is_y_target else "Z" if t.is_z_target else ""))
                out.append(Op(name, "noise", ts, tuple(ins.gate_args_copy())))
            continue
        if name == "TICK":
            out.append(Op(name, "tick", None))
            continue
        args = tuple(ins.gate_args_copy())
        tg = ins.targets_copy()
        if name == "DETECTOR" or name == "OBSERVABLE_INCLUDE":
            recs = []
            for t in tg:
                if not t.is_measurement_record_target:
                    raise ValueError(f"unexpected target in {ins}")
                recs.append(t.value)
            out.append(Op(name, "det" if name == "DETECTOR" else "obs", recs, args))
        elif name == "SHIFT_COORDS":
            out.append(Op(name, "shift", None, args))
        elif name == "QUBIT_COORDS":
            out.append(Op(name, "coords", [t.value for t in tg], args))
        elif name in MEAS:
            out.append(Op(name, "m", [(t.value, t.is_inverted_result_target) for t in tg], args))
        elif name in MR:
            out.append(Op(name, "mr", [(t.value, t.is_inverted_result_target) for t in tg], args))
        elif name in RESET:
            out.append(Op(name, "r", [t.value for t in tg], args))
        elif name == "MPP":
            prods, cur, inv, expect = [], [], False, True
            for t in tg:
                if t.is_combiner:
                    expect = True
                    continue
                if not expect:
                    prods.append((tuple(cur), inv))
                    cur, inv = [], False
                cur.append((t.value, "X" if t.is_x_target else "Y" if t.is_y_target else "Z"))
                inv ^= t.is_inverted_result_target
                expect = False
            if cur:
                prods.append((tuple(cur), inv))
            out.append(Op(name, "mpp", prods, args))
        else:
            vals = []
            for t in tg:
                if not t.is_qubit_target:
                    raise ValueError(f"unexpected target in {ins}")
                vals.append(t.value)
            n = len(stim.gate_data(name).tableau)
            out.append(Op(name, "u%d" % n, vals, args))
    return out


class Circ:
    def __init__(self, circuit, keep_noise=False):
        self.num_qubits = circuit.num_qubits
        self.body = _parse(circuit, keep_noise)
        self.qubit_coords = {}
        self.seq = []           # unrolled ops, annotations removed (ticks kept)
        self.seq_rec = []       # measurement count before each op of seq
        self.det_records = []   # per detector: list of absolute record indices (as annotated)
        self.det_coords = []
        self.det_pos = []       # position in seq where the detector was annotated
        self.obs_records = {}   # observable -> list of absolute records
        self.loops = []         # (depth, count, body)
        self._m = 0
        self._shift = []
        self._unroll(self.body, 0)
        self.num_records = self._m

    def _unroll(self, body, depth):
        for op in body:
            k = op.kind
            if k == "rep":
                self.loops.append((depth, op.args[0], op.data))
                for _ in range(op.args[0]):
                    self._unroll(op.data, depth + 1)
            elif k == "det":
                c = list(op.args)
                for i in range(min(len(c), len(self._shift))):
                    c[i] += self._shift[i]
                recs = [self._m + r for r in op.data]
                if any(r < 0 for r in recs):
                    raise ValueError("record before start")
                self.det_records.append(recs)
                self.det_coords.append(tuple(c))
                self.det_pos.append(len(self.seq))
            elif k == "obs":
                recs = [self._m + r for r in op.data]
                if any(r < 0 for r in recs):
                    raise ValueError("record before start")
                self.obs_records.setdefault(int(op.args[0]), []).extend(recs)
            elif k == "shift":
                while len(self._shift) < len(op.args):
                    self._shift.append(0.0)
                for i, a in enumerate(op.args):
                    self._shift[i] += a
            elif k == "coords":
                for q in op.data:
                    self.qubit_coords[q] = tuple(op.args)
            else:
                self.seq.append(op)
                self.seq_rec.append(self._m)
                if k in ("m", "mr", "mpp"):
                    self._m += len(op.data)

    # ---- tracked parities
    def annotation_masks(self):
        """bit k < D: detector k; bit D+i: observable i."""
        nd = len(self.det_records)
        s = [0] * self.num_records
        for d, recs in enumerate(self.det_records):
            b = 1 << d
            for r in recs:
                s[r] ^= b
        for o, recs in self.obs_records.items():
            b = 1 << (nd + o)
            for r in recs:
                s[r] ^= b
        return s

    def singleton_masks(self):
        return [1 << r for r in range(self.num_records)]


def pull_back(circ, rec_masks, visit=None, stop_at=0):
    """Moves all tracked parities from the end to the start.  Returns (xs, zs, bad)."""
    nq = circ.num_qubits
    xs = [0] * nq
    zs = [0] * nq
    bad = []
    seq = circ.seq
    seq_rec = circ.seq_rec
    for pos in range(len(seq) - 1, stop_at - 1, -1):
        op = seq[pos]
        k = op.kind
        if visit is not None:
            visit(pos, op, xs, zs)
        if k == "tick" or k == "noise":
            continue
        data = op.data
        if k == "u1":
            _, rows = _backmap(op.name)
            rx, rz = rows
            if op.name in ("I",):
                continue
            for q in data:
                x, z = xs[q], zs[q]
                nx = nz = 0
                if rx & 1: nx ^= x
                if rx & 2: nz ^= x
                if rz & 1: nx ^= z
                if rz & 2: nz ^= z
                xs[q], zs[q] = nx, nz
        elif k == "u2":
            name = op.name
            if name == "CX" :
                for i in range(len(data) - 2, -1, -2):
                    a, b = data[i], data[i + 1]
                    xs[b] ^= xs[a]
                    zs[a] ^= zs[b]
            elif name == "CZ":
                for i in range(len(data) - 2, -1, -2):
                    a, b = data[i], data[i + 1]
                    zs[b] ^= xs[a]
                    zs[a] ^= xs[b]
            else:
                _, rows = _backmap(name)
                for i in range(len(data) - 2, -1, -2):
                    a, b = data[i], data[i + 1]
                    vals = (xs[a], zs[a], xs[b], zs[b])
                    o = [0, 0, 0, 0]
                    for v, row in zip(vals, rows):
                        if v:
                            for j in range(4):
                                if row >> j & 1:
                                    o[j] ^= v
                    xs[a], zs[a], xs[b], zs[b] = o
        elif k == "r":
            basis = RESET[op.name]
            for q in reversed(data):
                v = xs[q] if basis == "Z" else zs[q] if basis == "X" else xs[q] ^ zs[q]
                if v:
                    bad.append(v)
                xs[q] = zs[q] = 0
        elif k == "m" or k == "mr":
            basis = (MEAS if k == "m" else MR)[op.name]
            r = seq_rec[pos] + len(data)
            for q, _inv in reversed(data):
                r -= 1
                if k == "mr":
                    v = xs[q] if basis == "Z" else zs[q] if basis == "X" else xs[q] ^ zs[q]
                    if v:
                        bad.append(v)
                    xs[q] = zs[q] = 0
                else:
                    v = xs[q] if basis == "Z" else zs[q] if basis == "X" else xs[q] ^ zs[q]
                    if v:
                        bad.append(v)
                s = rec_masks[r]
                if basis != "X":
                    zs[q] ^= s
                if basis != "Z":
                    xs[q] ^= s
        elif k == "mpp":
            r = seq_rec[pos] + len(data)
            for prod, _inv in reversed(data):
                r -= 1
                v = 0
                for q, b in prod:
                    if b != "X":
                        v ^= xs[q]
                    if b != "Z":
                        v ^= zs[q]
                if v:
                    bad.append(v)
                s = rec_masks[r]
                for q, b in prod:
                    if b != "X":
                        zs[q] ^= s
                    if b != "Z":
                        xs[q] ^= s
        else:
            raise ValueError(op.name)
    if stop_at == 0:
        for q in range(nq):
            if xs[q]:
                bad.append(xs[q])
    return xs, zs, bad


def symptoms_of_noise(op, xs, zs):
    """All (probability-class, symptom) of the elementary Pauli faults of a noise op."""
    name = op.name
    if name in ("X_ERROR", "Y_ERROR", "Z_ERROR"):
        for q, _ in op.data:
            yield (zs[q] if name[0] != "Z" else 0) ^ (xs[q] if name[0] != "X" else 0)
    elif name == "DEPOLARIZE1":
        for q, _ in op.data:
            x, z = xs[q], zs[q]
            yield z
            yield x
            yield x ^ z
    elif name == "DEPOLARIZE2":
        d = op.data
        for i in range(0, len(d), 2):
            a, b = d[i][0], d[i + 1][0]
            pa = (0, zs[a], xs[a], xs[a] ^ zs[a])
            pb = (0, zs[b], xs[b], xs[b] ^ zs[b])
            for i1 in range(4):
                for i2 in range(4):
                    if i1 or i2:
                        yield pa[i1] ^ pb[i2]
    elif name in ("E", "CORRELATED_ERROR"):
        v = 0
        for q, b in op.data:
            if b != "Z":
                v ^= zs[q]
            if b != "X":
                v ^= xs[q]
        yield v
    else:
        raise ValueError(name)


# ---- GF(2) spaces of Python-int vectors
class Space:
    def __init__(self, vectors=()):
        self.rows = {}
        for v in vectors:
            self.add(v)

    def reduce(self, v):
        rows = self.rows
        while v:
            h = v.bit_length() - 1
            r = rows.get(h)
            if r is None:
                return v
            v ^= r
        return 0

    def add(self, v):
        v = self.reduce(v)
        if v:
            self.rows[v.bit_length() - 1] = v
            return True
        return False

    def __len__(self):
        return len(self.rows)

    def __contains__(self, v):
        return self.reduce(v) == 0


def bits(v):
    out = []
    while v:
        l = v & -v
        out.append(l.bit_length() - 1)
        v ^= l
    return out
