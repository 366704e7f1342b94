"""C27: the figure programs draw all the recorded data they are given."""
import contextlib
import io
import itertools
import os
import runpy
import shutil
import sys
import tempfile
import warnings

from mc.core import Violation, check, REPO
from mc.checks import c23

RULE = ("every placement of three overlapping parts of a recorded data set into files and folders (two folders, two explicit files, "
        "equal file names, other files and folders as decoys) x argument orders x output folder missing / present / with earlier figures, "
        "through each figure program run as a script; every figure written is read back panel by panel and compared with the figure of the "
        "same data given directly; states = program runs; non-trivial: more than one file")
ASSUMPTIONS = ["each data file is reachable through one argument only", "a figure given directly to the plotting functions is right (C23)"]
BOUNDS = {"quick": "4^3 placements, all argument orders of 6 of them, x 3 programs; real figure files once per program",
          "thorough": "5^3 placements, all argument orders of each, x 3 programs"}
PLACES = ["one/a.csv", "two/a.csv", "a.csv", "b.txt", "one/b.csv"]
FIGURES = {
    "main_render_threshold_figure.py": ["threshold", "threshold_all"],
    "main_render_lambda_figure.py": ["linefits_all", "linefits", "lambda", "teraquop"],
    "main_render_detection_fraction_figure.py": ["detectionfraction"],
}
SCRIPTS = sorted(FIGURES)


def dataset(script):
    """[(description, shots, errors)] rows; some descriptions in two or three rows."""
    rows = []
    if "fraction" in script:
        for k, style in enumerate(("surface_SD6", "honeycomb_SD6", "honeycomb_SI1000", "honeycomb_EM3_v2")):
            for i in range(3):
                for j, noise in enumerate((0.001, 0.003)):
                    rows.append((c23.family_desc(style.split("_")[0], i, "-", noise, style, "detection_fraction"), 10000 + k, 300 + 40 * i + 900 * j + 13 * k))
    else:
        cases = [("surface_SD6", "XZ", "internal_correlated"), ("honeycomb_SD6", "HV", "internal_correlated"), ("honeycomb_EM3_v2", "HV", "internal"),
                 ("honeycomb_SI1000", "HV", "internal_correlated"), ("surface_SI1000", "XZ", "internal")]
        rows = [(d, n, e) for d, (n, e) in c23.panel_data(cases)]
    return rows + [(d, 500 + i, 20 + i) for i, (d, n, e) in enumerate(rows[::3])] + [(d, 40, 1) for d, n, e in rows[::7]]


def write(path, rows):
    from collect_data import CSV_HEADER
    os.makedirs(os.path.dirname(path) or ".", exist_ok=True)
    new = not os.path.exists(path)
    with open(path, "a") as f:
        if new:
            f.write(CSV_HEADER + "\n")
        for d, n, e in rows:
            f.write(",".join(map(str, [d.data_width, d.data_height, d.rounds, d.noise, d.circuit_style, d.preserved_observable, d.code_distance,
                                       d.num_qubits, n, n - e, 0.5, d.decoder, 2])) + "\n")


def g9(x):
    return "%.9g" % float(x)


def snapshot(fig):
    """What each panel shows; the order in which points of one curve were recorded does not matter."""
    out = []
    for ax in fig.axes:
        ls = sorted((str(l.get_label()) if not str(l.get_label()).startswith("_") else "", sorted((g9(x), g9(y)) for x, y in zip(l.get_xdata(), l.get_ydata()))) for l in ax.lines)
        ps = sorted(sorted((g9(x), g9(a), g9(b)) for x, (a, b) in m.items()) for m, _ in c23.polygons(ax))
        sc = sorted((str(c.get_label()) if not str(c.get_label()).startswith("_") else "", sorted((g9(x), g9(y)) for x, y in c.get_offsets())) for c in ax.collections if "Path" in type(c).__name__)
        out.append((ax.get_title(), ax.get_xlabel(), ax.get_ylabel(), [g9(v) for v in (*ax.get_xlim(), *ax.get_ylim())], ls, ps, sc))
    return out


def direct(script, rows):
    """The figures of the same data handed to the plotting functions."""
    from collect_data import ProblemShotData, ShotData
    total = {}
    for d, n, e in rows:
        s = total.setdefault(d, ShotData())
        s.num_shots += n
        s.num_correct += n - e
        s.total_processing_seconds += 0.5
    data = ProblemShotData(total)
    if "threshold" in script:
        import paper.main_render_threshold_figure as m
        figs = {"threshold": m.plot_thresholds(data, focused=True), "threshold_all": m.plot_thresholds(data, focused=False)}
    elif "lambda" in script:
        import paper.main_render_lambda_figure as m
        figs = {"linefits_all": m.plot_lambda_line_fits_combo(data, focus=False)[0], "linefits": m.plot_lambda_line_fits_combo(data, focus=True)[0],
                "lambda": m.plot_lambda_combo(data)[0], "teraquop": m.plot_teraquop_combo(data)[0]}
    else:
        import paper.main_render_detection_fraction_figure as m
        figs = {"detectionfraction": m.plot_detection_fraction(data)}
    return {k: snapshot(f) for k, f in figs.items()}


_WANT = {}


def wanted(script):
    if script not in _WANT:
        with contextlib.redirect_stdout(io.StringIO()):
            _WANT[script] = direct(script, dataset(script))
        c23.plt().close("all")
    return _WANT[script]


@contextlib.contextmanager
def scratch():
    root, cwd = tempfile.mkdtemp(prefix="mc_c27_"), os.getcwd()
    try:
        os.chdir(root)
        yield root
    finally:
        os.chdir(cwd)
        shutil.rmtree(root, ignore_errors=True)


def run(script, args, record=True):
    """Runs the program; returns {path: panels} of the figures it writes."""
    import matplotlib.figure
    p = c23.plt()
    p.close("all")
    drawn = []
    saved_save, saved_show, argv = matplotlib.figure.Figure.savefig, p.show, sys.argv

    def save(self, path, *a, **k):
        with open(path, "wb") as f:
            f.write(b"figure")
        drawn.append((os.path.relpath(str(path)), self))
    try:
        if record:
            matplotlib.figure.Figure.savefig = save
        p.show = lambda *a, **k: None
        sys.argv = [script, *args]
        with contextlib.redirect_stdout(io.StringIO()):
            runpy.run_path(str(REPO / "src/paper" / script), run_name="__main__")
        out = {}
        for path, fig in drawn:
            check(path not in out, lambda: f"{path} is written twice")
            out[path] = snapshot(fig)
        return out
    finally:
        matplotlib.figure.Figure.savefig, p.show, sys.argv = saved_save, saved_show, argv
        p.close("all")


def files_under(root):
    return {os.path.relpath(os.path.join(b, f), root) for b, _, fs in os.walk(root) for f in fs}


def arrange(script, places, state):
    """Writes the three parts and the decoys in the current directory; returns the arguments."""
    rows = dataset(script)
    args = []
    for k, place in enumerate(places):
        write(place, rows[k::3])
        a = place.split("/")[0]
        if a not in args:
            args.append(a)
    decoy = [(d, 999, 500) for d, _, _ in rows[:4]]
    for folder in ("one", "two"):
        if os.path.isdir(folder):
            write(folder + "/inner/z.csv", decoy)
            write(folder + "/a.csv.bak", decoy)
            with open(folder + "/notes.txt", "w") as f:
                f.write("not data")
    write("other/a.csv", decoy)
    if state:
        os.mkdir("gen")
    if state == 2:
        for n in FIGURES[script]:
            for x in ("pdf", "png"):
                with open(f"gen/{n}.{x}", "w") as f:
                    f.write("an earlier figure" * 100)
        write("gen/old.csv", decoy)
    return args


def one(script, places, order, state, absolute):
    case = {"program": script, "parts in": places, "argument order": order, "output folder": ["missing", "empty", "with earlier figures"][state]}
    with scratch() as root:
        args = arrange(script, places, state)
        args = [args[i] for i in order]
        if absolute:
            args = [os.path.join(root, a) for a in args]
        before = files_under(root)
        try:
            got = run(script, args)
        except Violation:
            raise
        except Exception as ex:
            raise Violation(f"the program fails: {type(ex).__name__}: {ex}", case)
        want = wanted(script)
        paths = {f"gen/{n}.{x}" for n in want for x in ("pdf", "png")}
        check(set(got) == paths, lambda: f"figures {sorted(got)} are written, expected {sorted(paths)}", case)
        check(files_under(root) - before <= paths and before <= files_under(root), lambda: f"files {sorted(files_under(root) ^ before)} changed", case)
        for path, panels in got.items():
            w = want[path[4:-4]]
            if panels != w:
                k = next((k for k in range(min(len(w), len(panels))) if w[k] != panels[k]), min(len(w), len(panels)))
                j = next((j for j in range(7) if k < min(len(w), len(panels)) and w[k][j] != panels[k][j]), 0)
                raise Violation(f"{path} does not show the recorded data: panel {k} has {str(panels[k][j])[:200] if k < len(panels) else None}, "
                                f"expected {str(w[k][j])[:200] if k < len(w) else None}", case)
        for path in paths:
            with open(path) as f:
                check(f.read() == "figure", f"{path} still holds the earlier figure", case)
    return len(got)


def real(script):
    """The figure files themselves, over earlier ones; no files is an error and leaves everything as it was."""
    with scratch() as root:
        args = arrange(script, PLACES[:3], 2)
        before = files_under(root)
        run(script, args, record=False)
        for n in FIGURES[script]:
            for x, magic in (("pdf", b"%PDF"), ("png", b"\x89PNG")):
                with open(f"gen/{n}.{x}", "rb") as f:
                    data = f.read()
                check(data[:4] == magic and b"an earlier figure" not in data and len(data) > 2000, f"gen/{n}.{x} is not a {x} figure", {"program": script})
        check(files_under(root) == before, "other files changed", {"program": script})
    with scratch() as root:
        for args in ([], ["missing.csv"]):
            try:
                run(script, args)
            except (Exception, SystemExit):
                pass
            else:
                raise Violation(f"arguments {args} are not an error", {"program": script})
            check(not {f for f in files_under(root)}, "figures are written without data", {"program": script})
    return 3


def items(tier):
    th = tier == "thorough"
    out = [["real", s] for s in SCRIPTS]
    for s in SCRIPTS:
        allp = list(itertools.product(PLACES if th else PLACES[:4], repeat=3))
        size = 8 if "lambda" in s else 16
        for i in range(0, len(allp), size):
            out.append(["place", s, allp[i:i + size], i])
        if not th:
            out.append(["orders", s, [(PLACES[4], PLACES[1], PLACES[2])]])
            out.append(["orders", s, [(PLACES[0], PLACES[4], PLACES[3]), (PLACES[3], PLACES[2], PLACES[1])][:1 if "lambda" in s else 2]])
        else:
            out += [["orders", s, allp[i:i + 5]] for i in range(0, len(allp), 5)]
    return out


def run_item(item):
    warnings.simplefilter("ignore")
    c23.plt()
    st = nt = 0
    if item[0] == "real":
        st = nt = real(item[1])
    elif item[0] == "place":
        for k, places in enumerate(item[2]):
            n = len({p.split("/")[0] for p in places})
            order = list(range(n))
            if k % 2:
                order.reverse()
            one(item[1], list(places), order, (item[3] + k) % 3, k % 3 == 0)
            st += 1
            nt += len(set(places)) > 1
    else:
        for places in item[2]:
            n = len({p.split("/")[0] for p in places})
            for k, order in enumerate(itertools.permutations(range(n))):
                one(item[1], list(places), list(order), k % 3, k % 2 == 0)
                st += 1
                nt += 1
    return dict(states=st, transitions=st, evaluations=st, distinct_nontrivial=nt, traces_validated_against_impl=st, sample={"item": item[:2]})
