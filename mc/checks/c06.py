"""C06: any single fault is decoded correctly (distance >= 3)."""
import warnings

import numpy as np

from mc.core import Violation, check
from mc.engine import Circ, bits
from mc.faults import circuit_faults
from mc.circlib import make
from mc.configs import STYLES, ok
from mc.checks.c05 import claimed

RULE = ("every configuration; every distinct single-fault symptom of the circuit (from the explorer, not from stim) is "
        "decoded with the repository's decoder and its prediction compared with the fault's own observable flip; "
        "states = faults decoded; non-trivial: the fault fires a detector")
ASSUMPTIONS = ["stim's gate tableaus are correct", "noise strengths up to 1%"]
BOUNDS = {
    "quick": "widths<=8, heights<=12 (18 at width 6), n up to 18 (36 at the smallest sizes), p in {1e-9, 1e-6, 1e-5, 1e-4, 1e-3, 3e-3, 5e-3, 1e-2}",
    "thorough": "widths<=12, heights<=18, n up to 36, paper sizes u<=3",
}


def items(tier):
    th = tier == "thorough"
    out = []
    for style in STYLES:
        for obs in "HV":
            for w in range(2, (12 if th else 8) + 1, 2):
                for h in range(6, (18 if th else 12) + 1, 6):
                    ns = (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 18, 36) if w * h <= 36 else \
                        (1, 3, 5, 6, 9, 12, 18) if (w * h <= 72 or th) else (2, 3, 9, 12)
                    for n in ns:
                        if ok(style, n):
                            out.append([w, h, n, style, obs, 0.001])
            for p in (1e-9, 1e-6, 1e-5, 1e-4, 0.003, 0.005, 0.01):
                for (w, h) in ((6, 6), (6, 12), (8, 12)):
                    for n in (3, 12) if p in (1e-4, 0.01) or w == 6 else (6,):
                        out.append([w, h, n, style, obs, p])
            if not th:
                out.append([6, 18, 9, style, obs, 0.001])
                for (w, h) in ((14, 6), (20, 6), (6, 24), (6, 36), (12, 12)):
                    out.append([w, h, 6, style, obs, 0.001])
            else:
                for u in (1, 2, 3):
                    out.append([4 * u, 6 * u, 36 * u, style, obs, 0.001])
    out.sort(key=lambda c: c[0] * c[1] * c[2] * (3 if c[3] == "EM3_v2" else 1))
    res, cur, cw = [], [], 0
    for c in out:
        wt = c[0] * c[1] * c[2] * (3 if c[3] == "EM3_v2" else 1)
        if cur and cw + wt > 3000:
            res.append(cur)
            cur, cw = [], 0
        cur.append(c)
        cw += wt + 50
    res.append(cur)
    return res


def run_item(item):
    warnings.simplefilter("ignore")
    from decoding import decode_using_pymatching
    st = ev = nt = 0
    sample = None
    for c in item:
        w, h, n, style, obs, p = c
        circuit = make(c)
        circ = Circ(circuit, keep_noise=True)
        nd = len(circ.det_records)
        no = circuit.num_observables
        full = claimed(w, h, n, style, obs) >= 3
        faults = sorted(set(circuit_faults(circ)) | {0}) if full else [0]
        dets = np.zeros((len(faults), nd), dtype=np.bool_)
        flips = np.zeros((len(faults), no), dtype=np.bool_)
        for i, s in enumerate(faults):
            for b in bits(s):
                if b < nd:
                    dets[i, b] = 1
                else:
                    flips[i, b - nd] = 1
        pred = decode_using_pymatching(circuit=circuit, det_samples=dets, use_correlated_decoding=False)
        pred = np.asarray(pred)
        check(pred.shape == flips.shape, f"predictions have shape {pred.shape}, expected {flips.shape}", c)
        wrong = np.nonzero((pred.astype(bool) != flips).any(axis=1))[0]
        if len(wrong):
            i = int(wrong[0])
            raise Violation(f"{len(wrong)} of {len(faults)} single faults are decoded wrongly: predicted "
                            f"{pred[i].astype(int).tolist()}, fault flips {flips[i].astype(int).tolist()}",
                            {"config": c, "detectors": [circ.det_coords[k] for k in np.nonzero(dets[i])[0]]})
        st += len(faults)
        nt += int(dets.any(axis=1).sum())
        ev += 1
        sample = {"config": c, "faults": len(faults)}
    return dict(states=st, transitions=st, evaluations=st, distinct_nontrivial=nt, traces_validated_against_impl=ev,
                circuits=ev, sample=sample)
