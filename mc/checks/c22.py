"""C22: every listed benchmark problem samples the circuit it describes."""
import contextlib
import io
import itertools
import os
import shutil
import sys
import tempfile

import stim

from mc.core import Violation, check, REPO
from mc.standin import replaced
from mc import refnoise as rn
from mc.noiselib import STYLE_MODEL, own_qubits
from mc.refmodel import ref
from mc.engine import Circ

RULE = ("every one of the listed problems: the description is compared with the complete product of decoders, sizes, noise "
        "strengths, styles and observables; the circuit of every problem of the bound is generated and its size, qubits, "
        "rounds, observable, noise (reference insertion) and, for surface codes, deterministic detectors and exact "
        "graph-like distance are compared with the description; every problem id and every combination of the limit "
        "options is run against recording stand-ins for the collector and for the sampler; states = problems or option "
        "combinations; non-trivial: circuit generated or option set")
ASSUMPTIONS = ["stim's search finds shortest graph-like errors and its error-model conversion rejects non-deterministic detectors"]
BOUNDS = {
    "quick": "descriptions: all 1500; circuits: honeycomb u<=2 all noise strengths (u=3: 6, u=4,5: 2 of 15), surface codes all distances with 3-15 noise strengths; all problem ids; three circuit directories in every order; 486 option combinations",
    "thorough": "circuits of all problems of one decoder",
}
NOISES = [0.0001, 0.0002, 0.0003, 0.0005, 0.0007, 0.001, 0.0015, 0.002, 0.003, 0.005, 0.007, 0.01, 0.015, 0.02, 0.03]
DECODERS = ["internal", "internal_correlated"]


def mod():
    import paper.main_collect_all as m
    return m


def surface_dir():
    return str(REPO / "src/paper/surface_code_circuits")


def tup(d):
    return (d.data_width, d.data_height, d.code_distance, d.num_qubits, d.rounds, d.noise, d.circuit_style, d.preserved_observable, d.decoder)


def expected():
    out = []
    for dec in DECODERS:
        for p in NOISES:
            for u in range(1, 6):
                for s in ("SI1000", "SD6", "EM3_v2"):
                    for o in "HV":
                        n = 24 * u * u * (1 if s == "EM3_v2" else 5) // (1 if s == "EM3_v2" else 2)
                        out.append((4 * u, 6 * u, 4 * u, n, 12 * u, p, "honeycomb_" + s, o, dec))
            for d in (3, 7, 11, 15, 19):
                for s in ("SD6", "SI1000"):
                    for o in "XZ":
                        out.append((d, d, d, 2 * d * d - 1, 3 * d, p, "surface_" + s, o, dec))
    return out


def items(tier):
    th = tier == "thorough"
    out = [["list"], ["options", 0], ["options", 1], ["main"], ["dirs"]]
    out += [["ids", lo, lo + 100] for lo in range(0, 1500, 100)]
    out += [["stub", k] for k in range(8)]
    for d in (19, 15, 11, 7, 3):
        for s in ("SD6", "SI1000"):
            for o in "XZ":
                ps = NOISES if th or d <= 7 else [0.0001, 0.003, 0.03]
                out.append(["surface", d, s, o, ps])
    for u in (5, 4, 3, 2, 1):
        for s in ("SI1000", "SD6", "EM3_v2"):
            for o in "HV":
                ps = NOISES if th or u <= 2 else NOISES[::3] + [0.02] if u == 3 else [0.0007, 0.02]
                for i in range(0, len(ps), 5):
                    out.append(["honey", u, s, o, ps[i:i + 5]])
    return out


def listed():
    m = mod()
    return m.honeycomb_problems() + m.surface_code_problems(surface_dir())


def run_list():
    m = mod()
    got = [tup(p.desc) for p in listed()]
    want = expected()
    case = None
    check(len(got) == len(set(got)), lambda: f"problems listed twice: {[x for x in got if got.count(x) > 1][:2]}")
    miss = set(want) - set(got)
    extra = set(got) - set(want)
    check(not miss and not extra, lambda: f"{len(miss)} problems missing, e.g. {sorted(miss)[:2]}; {len(extra)} unexpected, e.g. {sorted(extra)[:2]}")
    for off in ("-", "", None):
        check(m.surface_code_problems(off) == [], "surface codes cannot be left out")
    return len(got), len(got), {"problems": len(got)}


def find(pred):
    return [p for p in listed() if pred(p.desc)]


def run_honey(item):
    from honeycomb_layout import HoneycombLayout
    _, u, s, o, ps = item
    st = 0
    ideal = HoneycombLayout(data_width=4 * u, data_height=6 * u, sub_rounds=36 * u, style=s, obs=o, noise=0).make_circuit()
    ia = rn.atoms_keep_single(ideal)
    R = ref(4 * u, 6 * u)
    for p in ps:
        probs = find(lambda d: d.circuit_style == "honeycomb_" + s and d.data_width == 4 * u and d.noise == p and d.preserved_observable == o)
        check(len(probs) == 2, f"{len(probs)} problems for one combination")
        c = probs[0].circuit_maker()
        d = probs[0].desc
        case = {"problem": str(d)}
        if u == 1 or p == 0.001:
            check(probs[1].circuit_maker() == c, "the two decoders get different circuits", case)
        if u <= 2:
            want = rn.insert(rn.model(STYLE_MODEL[s], p), ia, range(ideal.num_qubits))
            got = rn.fold_helpers(rn.atoms(c), own_qubits(ideal))
            a, b = rn.canon(want), rn.canon(got)
            check(a == b, lambda: "the circuit is not the described one: " + rn.first_difference(a, b), case)
        else:
            other = HoneycombLayout(data_width=d.data_width, data_height=d.data_height, sub_rounds=3 * d.rounds, style=s, obs=o, noise=p).make_circuit()
            check(c == other, "the circuit is not the described one", case)
        coords = {tuple(v) for v in c.get_final_qubit_coordinates().values() if v}
        want = set(R.data) | (set() if s == "EM3_v2" else set(R.edges))
        check(coords == want and len(coords) == d.num_qubits, lambda: f"{len(coords)} located qubits", case)
        area = d.data_width * d.data_height
        check(c.num_measurements == area + 3 * d.rounds * area // 2, "number of rounds differs from the description", case)
        st += 1
    return st, st, case


def run_surface(item):
    _, d, s, o, ps = item
    st = 0
    path = REPO / "src/paper/surface_code_circuits" / f"{s.lower()}_{o}" / f"d{d}_p0.0.stim"
    for k, p in enumerate(ps):
        probs = find(lambda e: e.circuit_style == "surface_" + s and e.code_distance == d and e.noise == p and e.preserved_observable == o)
        check(len(probs) == 2, f"{len(probs)} problems for one combination")
        c = probs[0].circuit_maker()
        desc = probs[0].desc
        case = {"problem": str(desc)}
        if k == 0 or d <= 7:
            check(probs[1].circuit_maker() == c, "the two decoders get different circuits", case)
        noiseless = c.without_noise()
        if k == 0:
            used = set()
            for ins in noiseless.flattened():
                if ins.name in ("R", "RX", "M", "MX", "H", "CX", "CZ", "I", "MR", "RZ", "MZ"):
                    used |= {t.value for t in ins.targets_copy()}
            check(len(used) == desc.num_qubits == 2 * d * d - 1, lambda: f"the circuit uses {len(used)} qubits", case)
            check(noiseless.num_measurements == (d * d - 1) * desc.rounds + d * d, lambda: "the number of rounds differs", case)
            check(noiseless.num_observables == 1, "not one observable", case)
            reg = noiseless.detecting_regions(targets=["L0"], ticks=[1])[stim.DemTarget("L0")][1]
            paulis = {"_XYZ"[reg[q]] for q in range(len(reg)) if reg[q]}
            check(paulis == {o} and reg.weight == d, lambda: f"the preserved observable is {paulis} of weight {reg.weight}", case)
            # deterministic detectors, complete, distance
            noiseless.detector_error_model()
            dem = c.detector_error_model(decompose_errors=True)
            check(c.num_detectors == (d * d - 1) * desc.rounds, lambda: f"{c.num_detectors} detectors", case)
            n = len(c.shortest_graphlike_error())
            check(n == d, lambda: f"the circuit has distance {n}, described as {d}", case)
        ideal = stim.Circuit(path.read_text())
        want = rn.insert(rn.model(s, p), rn.atoms_keep_single(ideal), range(ideal.num_qubits))
        a, b = rn.canon(want), rn.canon(rn.atoms(c))
        check(a == b, lambda: "noise differs from the description: " + rn.first_difference(a, b), case)
        st += 1
    return st, st, case


class Spy:
    """Records what is asked of the collector; several calls with the same settings count as one."""

    def __enter__(self):
        import collect_data
        mod()
        self.calls = []

        def spy(problems, **kw):
            problems = list(problems)
            if self.calls and self.calls[-1][1] == kw:
                self.calls[-1][0].extend(problems)
            else:
                self.calls.append((problems, kw))
        self.ctx = replaced(collect_data.collect_simulated_experiment_data, spy)
        self.ctx.__enter__()
        return self

    def __exit__(self, *a):
        self.ctx.__exit__(None, None, None)


def one_call(spy, **kw):
    spy.calls.clear()
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        mod().collect_data(**kw)
    check(len(spy.calls) == 1, lambda: f"{len(spy.calls)} collections were started", kw)
    return spy.calls[0]


def check_limits(kw, got, case):
    cr = kw.get("case_reduction") or 1
    mb = kw.get("max_batch_size")
    ms = kw.get("max_shots")
    me = kw.get("max_errors")
    want = dict(max_batch=2 ** 15 if mb is None else mb, max_shots=10 ** 8 // cr if ms is None else ms,
                min_seen_logical_errors=10 ** 3 // cr if me is None else me)
    for k, v in want.items():
        check(got.get(k) == v, lambda: f"{k} is {got.get(k)}, expected {v}", case)
    check(got.get("out_path") == kw.get("out_path"), lambda: f"output goes to {got.get('out_path')!r}", case)
    check(not got.get("discard_previous_data"), "previous data would be discarded", case)
    check(got.get("max_sample_std_dev", 1) == 1 and got.get("min_shots") == 25, "minimum shots or deviation limit changed", case)


OPTS = dict(max_shots=[None, 0, 1, 25, 1000, 10 ** 9], max_errors=[None, 0, 1, 10 ** 6], max_batch_size=[None, 1, 2 ** 20],
            case_reduction=[1, 10, 1000], out_path=[None, "some/file.csv"])


def run_options(part):
    st = 0
    with Spy() as spy:
        keys = list(OPTS)
        full = [tup(p.desc) for p in listed()]
        for i, combo in enumerate(itertools.product(*OPTS.values())):
            if i % 2 != part:
                continue
            kw = dict(zip(keys, combo))
            for pid in (None, 7) if i % 6 < 2 else (None,):
                for sd in (None, "-", surface_dir()) if i % 12 < 2 else (None,):
                    probs, got = one_call(spy, surface_dir=sd, problem_id=pid, **kw)
                    case = {"options": dict(kw, problem_id=pid, surface_dir=sd)}
                    check_limits(kw, got, case)
                    lst = full if sd != "-" else full[:900]
                    want = sorted(lst) if pid is None else [lst[pid]]
                    have = [tup(p.desc) for p in probs]
                    check(sorted(have) == want, "other problems were selected", case)
                    st += 1
    return st, st, case


def run_ids(lo, hi):
    st = 0
    with Spy() as spy:
        full, _ = one_call(spy, surface_dir=None, problem_id=None, case_reduction=1, out_path=None)
        full = [tup(p.desc) for p in full]
        for k in range(lo, hi):
            probs, got = one_call(spy, surface_dir=None, problem_id=k, case_reduction=1, out_path=None, max_shots=k + 1)
            check(len(probs) == 1 and tup(probs[0].desc) == full[k], lambda: f"problem id {k} runs {[str(p.desc) for p in probs][:3]}", {"problem_id": k})
            check(got["max_shots"] == k + 1, "shot limit", {"problem_id": k})
            st += 1
        if lo == 0:
            for bad in (len(full), len(full) + 5):
                spy.calls.clear()
                try:
                    with contextlib.redirect_stderr(io.StringIO()):
                        mod().collect_data(surface_dir=None, problem_id=bad, case_reduction=1, out_path=None)
                except Exception:
                    st += 1
                else:
                    raise Violation(f"problem id {bad} is accepted", {"problem_id": bad})
    return st, st, {"ids": [lo, hi]}


def run_main():
    """The command line passes its options through."""
    st = 0
    argv = sys.argv
    flags = {"out_path": ("--out_file", "x.csv"), "problem_id": ("--problem_id", "0"), "case_reduction": ("--case_reduction", "7"),
             "max_shots": ("--max_shots", "123"), "max_errors": ("--max_errors", "45"), "max_batch_size": ("--max_batch_size", "67"),
             "surface_dir": ("--surface_code_problems_directory", "-")}
    with Spy() as spy:
        full = [tup(p.desc) for p in listed()]
        try:
            for subset in itertools.product((0, 1), repeat=len(flags)):
                kw = {}
                sys.argv = ["main_collect_all.py"]
                for use, (name, (flag, val)) in zip(subset, flags.items()):
                    if use:
                        sys.argv += [flag, val]
                        kw[name] = val if name in ("out_path", "surface_dir") else int(val)
                spy.calls.clear()
                with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
                    mod().main()
                case = {"command line": sys.argv[1:]}
                check(len(spy.calls) == 1, lambda: f"{len(spy.calls)} collections were started", case)
                probs, got = spy.calls[0]
                check_limits(kw, got, case)
                lst = full[:900] if kw.get("surface_dir") == "-" else full
                want = [lst[kw["problem_id"]]] if "problem_id" in kw else sorted(lst)
                check(sorted(tup(p.desc) for p in probs) == want, "other problems were selected", case)
                st += 1
        finally:
            sys.argv = argv
    return st, st, case


def run_stub(k):
    """End to end with a scripted sampler: the rows written are those of the selected problem with those limits."""
    import collect_data
    import decoding
    st = 0
    root = tempfile.mkdtemp(prefix="mc_c22_")
    full = listed()
    ids = [i for i, p in enumerate(full) if p.desc.num_qubits <= 60]
    case = None
    try:
        for j, pid in enumerate(ids[k::8][:: 7]):
            for ms, me, mb in ((40, 10 ** 9, 30), (100, 3, None), (7, 1, 5)):
                want_circuit = full[pid].circuit_maker()
                log = []

                def fake(*, num_shots, circuit, decoder, **kw):
                    check(decoder == full[pid].desc.decoder, "another decoder was used", {"problem_id": pid})
                    check(circuit == want_circuit, "another circuit was sampled", {"problem_id": pid})
                    log.append((num_shots, num_shots - (num_shots > 20)))
                    return log[-1][1]
                out = os.path.join(root, "o.csv")
                with replaced(decoding.sample_decode_count_correct, fake), \
                        contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
                    mod().collect_data(surface_dir=None, problem_id=pid, case_reduction=1, out_path=out, max_shots=ms, max_errors=me, max_batch_size=mb)
                d = collect_data.read_recorded_data(out).data
                case = {"problem_id": pid, "max_shots": ms, "max_errors": me, "max_batch_size": mb, "batches": log}
                check(list(map(tup, d)) == [tup(full[pid].desc)], lambda: f"the file holds {list(d)}", case)
                v = next(iter(d.values()))
                check((v.num_shots, v.num_correct) == (sum(a for a, _ in log), sum(b for _, b in log)), "the file has other totals", case)
                check(v.num_shots <= ms and all(a <= (mb or 2 ** 15) for a, _ in log), "a limit was exceeded", case)
                check(v.num_shots == ms or v.num_errors >= me, "collection stopped early", case)
                os.remove(out)
                st += 1
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return st, st, case


def run_dirs():
    """Problems of several directories of surface code circuits, asked for in every order: each samples its own directory's."""
    st = 0
    root = tempfile.mkdtemp(prefix="mc_c22_")
    case = None
    try:
        dirs = []
        for k in range(3):
            d = os.path.join(root, f"codes{k}")
            for s in ("sd6", "si1000"):
                for o in "XZ":
                    src = REPO / "src/paper/surface_code_circuits" / f"{s}_{o}"
                    os.makedirs(os.path.join(d, f"{s}_{o}"))
                    for f in sorted(os.listdir(src)):
                        if k < 2 or f.startswith(("d3_", "d7_")):
                            with open(src / f) as fi, open(os.path.join(d, f"{s}_{o}", f), "w") as fo:
                                text = fi.read()
                                # a different but equally valid circuit in each directory
                                fo.write(text + "\nTICK" * k)
            dirs.append(d)
        m = mod()
        lists = [m.surface_code_problems(d) for d in dirs]
        for order in itertools.permutations(range(3)):
            for i, p in enumerate(lists[0]):
                if p.desc.code_distance > 7 or i % 3 != order[0] or (p.desc.code_distance == 7 and p.desc.noise != 0.003):
                    continue
                for k in order:
                    q = lists[k][i]
                    case = {"problem": str(q.desc), "directories in order": order, "directory": k}
                    check(tup(q.desc) == tup(p.desc), "the problems depend on the directory's name", case)
                    s = q.desc.circuit_style[8:]
                    with open(os.path.join(dirs[k], f"{s.lower()}_{q.desc.preserved_observable}", f"d{q.desc.code_distance}_p0.0.stim")) as f:
                        ideal = stim.Circuit(f.read())
                    c = q.circuit_maker()
                    a = rn.canon(rn.insert(rn.model(s, q.desc.noise), rn.atoms_keep_single(ideal), range(ideal.num_qubits)))
                    b = rn.canon(rn.atoms(c))
                    check(a == b, lambda: "the circuit is not that of the chosen directory: " + rn.first_difference(a, b), case)
                    check(q.circuit_maker() == c, "the circuit is another one the second time", case)
                    st += 1
        # a directory without the circuits is an error, also when another directory had them
        for i in range(0, 40, 7):
            try:
                p = m.surface_code_problems(os.path.join(root, "missing"))[i]
                p.circuit_maker()
            except Exception:
                st += 1
            else:
                raise Violation("a circuit came out of a directory that does not exist", {"problem": str(p.desc)})
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return st, st, case


def run_item(item):
    k = item[0]
    if k == "list":
        st, nt, sample = run_list()
    elif k == "honey":
        st, nt, sample = run_honey(item)
    elif k == "surface":
        st, nt, sample = run_surface(item)
    elif k == "options":
        st, nt, sample = run_options(item[1])
    elif k == "ids":
        st, nt, sample = run_ids(item[1], item[2])
    elif k == "dirs":
        st, nt, sample = run_dirs()
    elif k == "main":
        st, nt, sample = run_main()
    else:
        st, nt, sample = run_stub(item[1])
    return dict(states=st, transitions=st, evaluations=st, distinct_nontrivial=nt, traces_validated_against_impl=st, sample=sample)
