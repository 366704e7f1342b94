"""C26: the example and export programs produce the documented data."""
import contextlib
import io
import itertools
import os
import pickle
import runpy
import shutil
import subprocess
import sys
import tempfile
import warnings

import stim

from mc.core import Violation, check, REPO
from mc.standin import replaced
from mc import refdem, configs
from mc.checks import c23

RULE = ("all outcome sequences (to a depth) of every problem of the example program under a scripted sampler, all combinations of "
        "short and long collections over its six problems, every earlier content of its output file, every interruption point "
        "followed by a second run; file, sampled circuits, limits and the plotted figure are compared with the documented "
        "experiment; the export program is run as a script from several directories over several earlier files and the "
        "written graph is compared with an independent reading of the circuit's error model; states = program runs; "
        "non-trivial: more than one batch, an earlier file or an interruption")
ASSUMPTIONS = ["the sampler is replaced by a scripted one that answers with a number of correct shots",
               "the exported file is in the pickle format the program documents"]
BOUNDS = {
    "quick": "outcome depth 3 (4 levels) on two problems and 2 on the others, at most one short or long collection among six, 6 earlier files, interruption at each of up to 12 batches; export from 3 directories x 4 earlier files",
    "thorough": "outcome depth 5, 3^6 combinations",
}
PROBLEMS = [(4 * d, 6 * d, p) for d in (1, 2) for p in (0.001, 0.002, 0.003)]
EARLIER = {
    "absent": None, "empty": "", "garbage": "not,a,csv\n1,2", "header": "data_width,data_height",
    "same": None, "long": "x" * 100000,
}


def tup(d):
    return (d.data_width, d.data_height, d.code_distance, d.num_qubits, d.rounds, d.noise, d.circuit_style, d.preserved_observable, d.decoder)


def want_desc(w, h, p):
    return (w, h, w, w * h, 10, p, "honeycomb_EM3_v2", "H", "pymatching")


CIRCUITS = {}


class Stop(BaseException):
    pass


def example(outcome, stop_at=None):
    """Runs the example program in the current directory; outcome(problem, batch, shots, errors so far) -> errors.
    Returns [(problem, shots, errors)] of the finished batches and the figure."""
    import decoding
    plt = c23.plt()
    circuits = CIRCUITS
    for w, h, p in PROBLEMS if not circuits else ():
        circuits[w, h, p] = configs.layout(configs.cfg(w, h, 30, "EM3_v2", "H", p)).make_circuit()
    log = []

    def fake(*, num_shots, circuit, decoder, **kw):
        hit = [k for k, c in circuits.items() if c == circuit]
        check(len(hit) == 1, "a circuit that is not one of the documented experiments is sampled")
        check(decoder == "pymatching", lambda: f"decoder {decoder!r} is used")
        if len(log) == stop_at:
            raise Stop()
        mine = [b for b in log if b[0] == hit[0]]
        e = outcome(PROBLEMS.index(hit[0]), len(mine), num_shots, sum(b[2] for b in mine))
        log.append((hit[0], num_shots, e))
        return num_shots - e
    plt.close("all")
    fig = None
    with replaced(decoding.sample_decode_count_correct, fake), contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            runpy.run_path(str(REPO / "src/main_example.py"), run_name="__main__")
        except Stop:
            return log, None
    figs = plt.get_fignums()
    check(len(figs) == 1, lambda: f"{len(figs)} figures are shown")
    fig = plt.figure(figs[0])
    return log, fig


def judge(log, fig, case):
    import collect_data
    totals = {}
    for k, n, e in log:
        a = totals.setdefault(want_desc(*k), [0, 0, 0])
        check(a[0] < 1000 or not (a[1] >= 100 or (a[1] >= 10 and a[1] >= 0.48 * a[0])), "sampling goes on although there are enough errors", case)
        a[0] += n
        a[1] += e
        a[2] += 1
        check(a[0] <= 10 ** 6, "more than a million shots", case)
    for a in totals.values():
        check(a[0] >= 1000 and (a[0] == 10 ** 6 or a[1] >= 100 or (a[1] >= 10 and a[1] >= 0.48 * a[0])), lambda: f"sampling stops after {a[0]} shots and {a[1]} errors", case)
    check(len(totals) == 6, lambda: f"{len(totals)} problems are sampled", case)
    data = collect_data.read_recorded_data("test.csv")
    got = {tup(k): [v.num_shots, v.num_errors] for k, v in data.data.items()}
    want = {k: v[:2] for k, v in totals.items()}
    check(got == want, lambda: f"the file holds {got}, expected {want}", case)
    rows = open("test.csv").read().splitlines()
    check(len(rows) == 1 + len(log), lambda: f"the file has {len(rows)} lines after {len(log)} batches", case)
    ax, = fig.axes
    c23.compare_axes(ax, data, case)
    check(ax.get_legend() is not None, "no legend", case)


@contextlib.contextmanager
def scratch():
    cwd = os.getcwd()
    root = tempfile.mkdtemp(prefix="mc_c26_")
    os.chdir(root)
    try:
        yield root
    finally:
        os.chdir(cwd)
        shutil.rmtree(root, ignore_errors=True)


def enough(i, b, n, seen):
    return min(n, 120 + 7 * i)


def later(i, b, n, seen):
    return 30 + i if b < 2 else 80


LEVELS = [lambda n: 0, lambda n: 37, lambda n: (n * 48 + 99) // 100, lambda n: n]


def items(tier):
    th = tier == "thorough"
    out = [["export", k] for k in range(3)] + [["earlier", k] for k in EARLIER]
    out += [["stop", k] for k in range(0, 13)]
    out += [["tree", i, 5 if th else 3 if i in (0, 4) else 2, [a]] for i in range(6) for a in range(len(LEVELS))]
    out += [["combo", 3 if th else 2, a] for a in range(3 if th else 2)]
    return out


def run_tree(item):
    """All outcome sequences of one problem up to the depth (then enough errors)."""
    _, i, depth, first = item
    runs = nt = 0
    case = None
    stack = [list(first)]
    with scratch():
        while stack:
            s = stack.pop()
            used = 0

            def outcome(j, b, n, seen):
                nonlocal used
                if j != i:
                    return enough(j, b, n, seen)
                if b < len(s):
                    used = max(used, b + 1)
                    return LEVELS[s[b]](n)
                used = max(used, b + 1)
                return 100
            case = {"problem": PROBLEMS[i], "outcome levels": s}
            log, fig = example(outcome)
            judge(log, fig, case)
            runs += 1
            nt += used > 1
            if used > len(s) and len(s) < depth:
                stack.extend(s + [k] for k in range(len(LEVELS)))
    return runs, nt, case


def run_combo(item):
    _, k, first = item
    fs = [enough, later, lambda i, b, n, seen: 0]
    runs = 0
    case = None
    with scratch():
        for rest in itertools.product(range(k), repeat=5):
            combo = (first,) + rest
            if k == 2 and 1 < sum(combo) < 5:
                continue
            case = {"kinds of outcome": combo}
            log, fig = example(lambda i, b, n, seen: fs[combo[i]](i, b, n, seen))
            judge(log, fig, case)
            runs += 1
    return runs, runs, case


def run_earlier(item):
    runs = 0
    with scratch():
        for f in (enough, later):
            case = {"earlier file": item[1]}
            if item[1] == "same":
                example(later)
            elif EARLIER[item[1]] is not None:
                with open("test.csv", "w") as o:
                    o.write(EARLIER[item[1]])
            elif os.path.exists("test.csv"):
                os.remove("test.csv")
            log, fig = example(f)
            judge(log, fig, case)
            runs += 1
    return runs, runs, case


def run_stop(item):
    """Interrupted before batch k finishes, then run again."""
    import collect_data
    k = item[1]
    with scratch():
        case = {"interrupted before batch": k}
        log, fig = example(later, stop_at=k)
        if fig is None:
            want = {}
            for d, n, e in log:
                a = want.setdefault(want_desc(*d), [0, 0])
                a[0] += n
                a[1] += e
            got = {tup(d): [v.num_shots, v.num_errors] for d, v in collect_data.read_recorded_data("test.csv").data.items()}
            check(got == want, lambda: f"after the interruption the file holds {got}, expected {want}", case)
        for f in (later, enough):
            log, fig = example(f)
            judge(log, fig, case)
    return 3, 3, case


def run_export(k):
    runs = 0
    env = {n: v for n, v in os.environ.items() if n not in ("PYTHONPATH",)}
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    c = configs.layout(configs.cfg(4, 6, 36, "SD6", "H", 0.001)).make_circuit()
    m = c.detector_error_model(decompose_errors=True)
    g, coords, nd, no = refdem.edges(m)
    script = str(REPO / "src/paper/write_honeycomb_networkx_graph.py")
    with scratch() as root:
        os.makedirs("deep/er")
        os.chdir(["", "deep", "deep/er"][k] or root)
        for old in (None, b"", b"garbage" * 100000, "again"):
            for path in (script, os.path.relpath(script, os.path.realpath(os.getcwd()))):
                case = {"started as": path, "earlier file": str(old)[:20]}
                if old is None and os.path.exists("test.graph"):
                    os.remove("test.graph")
                elif isinstance(old, bytes):
                    with open("test.graph", "wb") as f:
                        f.write(old)
                p = subprocess.run([sys.executable, path], env=env, capture_output=True, text=True, timeout=200)
                check(p.returncode == 0, lambda: "the export program fails: " + p.stderr[-300:], case)
                with open("test.graph", "rb") as f:
                    x = pickle.load(f)
                    check(not f.read(1), "the file has more content after the graph", case)
                seen = {}
                check(x.number_of_nodes() == nd + 1, lambda: f"{x.number_of_nodes()} nodes for {nd} detectors and the boundary", case)
                check([v for v in x.nodes if x.nodes[v].get("is_boundary")] == [nd], "the boundary is not marked", case)
                for a, b, d in x.edges(data=True):
                    a, b = sorted((a, b))
                    seen[(a, "B") if b == nd else (a, b)] = d
                check(set(seen) == set(g), lambda: f"{len(seen)} edges, expected {len(g)}", case)
                for e, (pr, obs) in g.items():
                    d = seen[e]
                    check(abs(d["error_probability"] - pr) <= 1e-10 * pr and abs(d["weight"] - refdem.weight(pr)) < 1e-8 and sorted(d["qubit_id"]) == sorted(obs),
                          lambda: f"edge {e} is exported as {d}, expected probability {pr} and observables {sorted(obs)}", case)
                for v, cs in coords.items():
                    check(list(x.nodes[v]["coords"]) == list(cs), lambda: f"detector {v} is placed at {x.nodes[v]['coords']}, expected {cs}", case)
                runs += 1
    return runs, runs, case


def run_item(item):
    kind = item[0]
    if kind == "export":
        st, nt, sample = run_export(item[1])
    else:
        st, nt, sample = {"tree": run_tree, "combo": run_combo, "earlier": run_earlier, "stop": run_stop}[kind](item)
    return dict(states=st, transitions=st, evaluations=st, distinct_nontrivial=nt, traces_validated_against_impl=st, sample=sample)
