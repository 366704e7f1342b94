"""C09: adding noise never changes the ideal circuit."""
from mc.core import Violation, check
from mc import refnoise as rn
from mc.noiselib import items, run as _run, own_qubits, compare_ideal

RULE = ("all programs of the bounded spaces (single steps over the complete operation alphabet on 3 qubits, all 2- and 3-step "
        "programs over reduced alphabets, all well-formed token sequences with nested loops and annotations, index gaps) x 5 "
        "models x noisy/noiseless, generated memory experiments and surface code files; the noise-stripped result must "
        "have the canonical form of the input; states = atoms compared; non-trivial: accepted (not refused) program")
ASSUMPTIONS = ["programs touch a qubit at most once per step (the documented contract)",
               "stim's flow checker decides what a helper-based parity measurement measures"]
BOUNDS = {
    "quick": "token sequences up to 5; 3-step programs on 2 qubits; layouts to 8x12, n to 24 (2x6 n to 1005); 5 noise models",
    "thorough": "token sequences up to 6; layouts to 12x18; paper sizes u<=3; all surface code files",
}


def judge(make_model, refm, ideal, qs, case, got=None):
    ia = rn.atoms_keep_single(ideal)
    refused = False
    try:
        want = rn.insert(refm, ia, sorted(qs) if qs is not None else range(ideal.num_qubits))
    except rn.Refused:
        refused = True
    if any(a[0] in ("other", "n") for a in flat(ia)):
        refused = True
    before = str(ideal)
    if got is None:
        try:
            m = make_model()
            got = m.noisy_circuit(ideal) if qs is None else m.noisy_circuit(ideal, qs=set(qs))
        except Exception as ex:
            if refused:
                return "refused"
            raise Violation(f"noise insertion failed on a supported circuit: {type(ex).__name__}: {ex}", case)
        if refused:
            raise Violation("an operation without a noise rule was passed through", case)
    check(str(ideal) == before, "the input circuit was modified", case)
    na = rn.atoms(got)
    zero = not any(v > 0 for v in [refm.idle, refm.mr_idle, *refm.table.values()])
    if zero:
        a, b = rn.canon(rn.strip(ia)), rn.canon(na)
        check(a == b, lambda: "zero noise changed the circuit: " + rn.first_difference(a, b), case)
    na = rn.fold_helpers(na, own_qubits(ideal, qs))
    compare_ideal(ia, na, case)
    return len(na)


def flat(lst):
    for a in lst:
        if a[0] == "rep":
            yield from flat(a[2])
        else:
            yield a


def run_item(item):
    return _run(item, judge)
