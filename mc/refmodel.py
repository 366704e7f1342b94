"""Reference honeycomb code, written from the code's definition (not from /repo).

Torus of width W=2*w and height H=h (coordinates).  Data qubits sit at odd x, integer y.
Hexagon centres sit at even x where x/2+y is even.  A link between vertically adjacent data
qubits exists everywhere, a horizontal link (x,y)-(x+2,y) exists where (x+1,y) is not a hexagon centre.
A link has the colour of the two hexagons it connects (the ones touching exactly one end).
"""
import functools

XYZ = "XYZ"


class Ref:
    def __init__(self, w, h):
        self.w, self.h = w, h
        self.W, self.H = 2 * w, h
        W, H = self.W, self.H
        self.data = [(x, y) for x in range(1, W, 2) for y in range(H)]
        self.hexes = {}
        for x in range(0, W, 2):
            for y in range(H):
                if (x // 2 + y) % 2 == 0:
                    self.hexes[(x, y)] = (-(y // 2)) % 3 if x % 4 == 0 else (-((y + 3) // 2)) % 3 if (y + 3) % 2 == 0 else None
        self.hex_qubits = {
            (x, y): [self.wrap((x + dx, y + dy)) for dx in (-1, 1) for dy in (-1, 0, 1)] for (x, y) in self.hexes
        }
        touch = {q: set() for q in self.data}
        for hx, qs in self.hex_qubits.items():
            for q in qs:
                touch[q].add(hx)
        self.touch = touch
        self.edges = {}  # midpoint -> (qubit a, qubit b, type)
        for (x, y) in self.data:
            self._add((x, y), (x, y + 1))
            if not self._is_hex((x + 1, y)):
                self._add((x, y), (x + 2, y))
        self.by_type = [[m for m, e in self.edges.items() if e[2] == t] for t in range(3)]
        for l in self.by_type:
            l.sort()
        self._edge_of_step = {}
        for m, (a, b, t) in self.edges.items():
            self._edge_of_step.setdefault(frozenset((a, b)), []).append(m)

    def wrap(self, p):
        return (p[0] % self.W, p[1] % self.H)

    def _is_hex(self, p):
        return self.wrap(p) in self.hexes

    def _add(self, a, b):
        mid = self.wrap(((a[0] + b[0]) / 2, (a[1] + b[1]) / 2))
        a, b = self.wrap(a), self.wrap(b)
        # local geometry decides the colour, so that small tori (where hexes touch twice) work too
        colours = self._spoke_colour(a, b, mid)
        self.edges[mid] = (a, b, colours)

    def _spoke_colour(self, a, b, mid):
        x, y = mid
        if y == int(y):  # horizontal link: spokes run to hexes 2 to the left/right
            hs = [self.wrap((x - 2, y)), self.wrap((x + 2, y))]
        else:
            # vertical link at (x, y): hexes beyond its ends
            hs = []
            for dx in (-1, 1):
                for dy in (-1.5, 1.5):
                    p = (x + dx, y + dy)
                    if self._is_hex((p[0], p[1])):
                        hs.append(self.wrap(p))
        cols = {self.hexes[c] for c in hs}
        assert len(cols) == 1, (mid, hs, cols)
        return cols.pop()

    def hex_edges(self, hx):
        """(edges of type c+1, edges of type c+2), as midpoints."""
        x, y = hx
        c = self.hexes[hx]
        ring = [(x, y - 1), (x + 1, y - 0.5), (x + 1, y + 0.5), (x, y + 1), (x - 1, y + 0.5), (x - 1, y - 0.5)]
        ring = [self.wrap(m) for m in ring]
        first = [m for m in ring if self.edges[m][2] == (c + 1) % 3]
        second = [m for m in ring if self.edges[m][2] == (c + 2) % 3]
        return first, second

    # ---- logical operators before sub-round r (period 6)
    def logical(self, obs, r):
        """basis, set of qubits."""
        r %= 6
        if obs == "H":
            basis = "XXZZYY"[r]
            # around the horizontal loop formed by the rows y in {0,1}
            types = None
            op = {q: "X" for q in self.data if q[1] in (0, 1)}
        else:
            op = {q: "Z" for q in self.data if q[0] == 1 and q[1] % 3 in (1, 2)}
        path = self.path_edges(obs)
        for s in range(r):
            for m in path:
                if self.edges[m][2] == s % 3:
                    for q in self.edges[m][:2]:
                        op[q] = _mul(op.get(q, "I"), XYZ[s % 3])
        op = {q: p for q, p in op.items() if p != "I"}
        ps = set(op.values())
        assert len(ps) == 1, (obs, r, ps)
        return ps.pop(), set(op)

    @functools.lru_cache(None)
    def path_edges(self, obs):
        if obs == "H":
            return tuple(m for m, (a, b, t) in self.edges.items()
                         if a[1] in (0, 1) and b[1] in (0, 1) and (self.H > 2))
        return tuple(m for m, (a, b, t) in self.edges.items() if a[0] == 1 and b[0] == 1)

    # ---- reference schedule
    def schedule_circuit(self, n, obs):
        """(stim circuit measuring the ideal schedule, record keys)."""
        import stim
        idx = {q: i for i, q in enumerate(self.data)}
        init = {"H": "X", "V": "Z"}[obs]
        c = stim.Circuit()
        c.append("R" + ("" if init == "Z" else init), list(idx.values()))
        keys = []
        occ = {}
        body = []
        for t in range(3):
            tg = []
            tp = [stim.target_x, stim.target_y, stim.target_z][t]
            for m in self.by_type[t]:
                a, b, _ = self.edges[m]
                tg += [tp(idx[a]), stim.target_combiner(), tp(idx[b])]
            body.append(tg)
        for s in range(n):
            c.append("MPP", body[s % 3])
            keys += [("e", m, s // 3) for m in self.by_type[s % 3]]
        basis, _ = self.logical(obs, n)
        c.append("M" + ("" if basis == "Z" else basis), list(idx.values()))
        keys += [("d", q) for q in self.data]
        return c, keys

    def final_basis(self, obs, n):
        return self.logical(obs, n)[0]

    # ---- reference detectors: list of ((x, y, t), frozenset of keys)
    def detectors(self, n, obs):
        init = {"H": 0, "V": 2}[obs]
        half = (init - 1) % 3
        fin = XYZ.index(self.final_basis(obs, n))
        last = (n - 1) % 3
        out = []
        if init == 0:
            for m in self.by_type[0]:
                out.append(((m[0], m[1], 0), frozenset([("e", m, 0)])))
        e = lambda m, s: ("e", m, s // 3)
        for hx, c in self.hexes.items():
            first, second = self.hex_edges(hx)
            prev = frozenset() if c == init else None
            for s in range((c + 2) % 3, n, 3):
                if s == 0:
                    val = frozenset(e(m, 0) for m in second) if c == half else None
                else:
                    val = frozenset([e(m, s) for m in second] + [e(m, s - 1) for m in first])
                if prev is not None and val is not None:
                    out.append(((hx[0], hx[1], s), prev ^ val))
                prev = val
            data = frozenset(("d", q) for q in self.hex_qubits[hx])
            val = None
            if c == fin:
                val = data
            elif last != fin and c not in (last, fin):
                val = data ^ frozenset(e(m, n - 1) for m in first)
            if val is not None and prev is not None:
                out.append(((hx[0], hx[1], n), prev ^ val))
        if last == fin:
            for m in self.by_type[fin]:
                a, b, _ = self.edges[m]
                out.append(((m[0], m[1], n), frozenset([e(m, n - 1), ("d", a), ("d", b)])))
        return out


def _mul(a, b):
    if a == "I":
        return b
    if b == "I":
        return a
    if a == b:
        return "I"
    return ({"X", "Y", "Z"} - {a, b}).pop()


@functools.lru_cache(None)
def ref(w, h):
    return Ref(w, h)
