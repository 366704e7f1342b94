"""C01: every detector and the observable has one fixed value over all random outcomes."""
from mc.core import Violation
from mc.engine import Circ, pull_back, bits
from mc.circlib import make
from mc import configs

RULE = ("every configuration of the bounded space; per configuration all 2^m measurement-outcome executions are "
        "covered by pulling every annotated parity back through the unrolled circuit (states = parities x ops "
        "crossed, counted as unrolled instructions); non-trivial: the circuit has random measurements")
ASSUMPTIONS = ["stim's single-gate tableaus are correct", "annotated parities refer to records only"]
BOUNDS = {
    "quick": "2x6,4x6: all n<=40; all widths<=12 x heights<=24 at 6-8 values of n; 2x6 n up to 1005; paper sizes u<=4",
    "thorough": "2x6,4x6: all n<=60; all widths<=20 x heights<=36; 2x6 n up to 1005; paper sizes u<=5 (20x30x180)",
}


def items(tier):
    h = configs.huge(tier)
    return configs.chunks(configs.base_space(tier, paper=4)) + [["huge", h[i:i + 6]] for i in range(0, len(h), 6)]


def run_item(item):
    st = tr = val = ev = nt = 0
    sample = None
    if item[0] == "huge":
        # the loop-folding analyser follows the loop until its state repeats and raises on a random parity
        for c in item[1]:
            make(c).detector_error_model(flatten_loops=False)
            sample = {"config": c}
        k = len(item[1])
        return dict(states=k, transitions=k, evaluations=k, distinct_nontrivial=k, traces_validated_against_impl=k, sample=sample)
    for c in item:
        circuit = make(c)
        circ = Circ(circuit)
        nd = len(circ.det_records)
        _, _, bad = pull_back(circ, circ.annotation_masks())
        acc = 0
        for b in bad:
            acc |= b
        if acc:
            k = bits(acc)[0]
            what = f"detector {k} at {circ.det_coords[k]}" if k < nd else f"observable {k - nd}"
            raise Violation(f"{what} takes random values in the error-free circuit", {"config": c})
        ev += 1
        st += len(circ.seq)
        tr += nd + len(circ.obs_records)
        nt += 1 if circ.num_records else 0
        if c[0] * c[1] * c[2] <= 1500:
            # the independent analyser must agree (raises on a gauge detector)
            circuit.detector_error_model()
            val += 1
        sample = {"config": c, "detectors": nd, "records": circ.num_records, "instructions": len(circ.seq)}
    return dict(states=st, transitions=tr, traces_validated_against_impl=val, evaluations=ev, distinct_nontrivial=nt,
                sample=sample)
