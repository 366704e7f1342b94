"""C10: each operation and each idle qubit gets exactly the prescribed noise."""
from mc.core import Violation, check
from mc import refnoise as rn
from mc.noiselib import items, run as _run, own_qubits, compare_noise
from mc.checks.c09 import flat, ASSUMPTIONS, BOUNDS

RULE = ("same program spaces as C09; the noisy circuit must equal, in canonical form (order per qubit, records, steps), the "
        "circuit produced by an independent reference insertion; helper-based parity measurements are reduced to their "
        "exact 32-element error channel first; states = atoms compared; non-trivial: program accepted by the model")


def judge(make_model, refm, ideal, qs, case, got=None):
    ia = rn.atoms_keep_single(ideal)
    try:
        want = rn.insert(refm, ia, sorted(qs) if qs is not None else range(ideal.num_qubits))
    except rn.Refused:
        return "refused"
    if any(a[0] in ("other", "n") for a in flat(ia)):
        return "refused"
    if got is None:
        m = make_model()
        got = m.noisy_circuit(ideal) if qs is None else m.noisy_circuit(ideal, qs=set(qs))
    na = rn.fold_helpers(rn.atoms(got), own_qubits(ideal, qs))
    compare_noise(want, na, case)
    return len(na)


def run_item(item):
    return _run(item, judge)
