"""C18: merging, grouping and aggregating data conserves every shot."""
import contextlib
import copy
import io
import itertools
import os
import shutil
import sys
import tempfile

from mc.core import Violation, check

RULE = ("all assignments of up to 4 rows (from a pool with equal, nearly equal and different descriptions) to up to 3 files in "
        "every file order; all 2^9 key functions over the description fields for grouping and merging, all one- and "
        "two-field filters; aggregation of all arrangements of files and nested directories through the real command; "
        "states = files read or groups formed; non-trivial: at least two rows share a description")
ASSUMPTIONS = ["each input file is listed once; processing times are compared to 1e-9 (floating-point sums)"]
BOUNDS = {
    "quick": "row pool of 8, up to 4 rows, 3 files; 512 keys x 3 data sets; directory trees of depth 3: all sets of up to 3 of 12 paths",
    "thorough": "row pool of 12, up to 5 rows",
}
FIELDS = ["data_width", "data_height", "code_distance", "num_qubits", "rounds", "noise", "circuit_style", "preserved_observable", "decoder"]
BASE = dict(data_width=4, data_height=6, code_distance=2, num_qubits=30, rounds=12, noise=0.001, circuit_style="SD6",
            preserved_observable="H", decoder="pymatching")
ALT = dict(data_width=8, data_height=12, code_distance=4, num_qubits=31, rounds=24, noise=0.0010000000000000002, circuit_style="EM3_v2",
           preserved_observable="V", decoder="internal_correlated")


def pool():
    """(description dict, shots, correct, seconds)"""
    out = [(BASE, 10, 7, 0.5), (BASE, 1, 0, 0.0), (dict(BASE, noise=1e-3), 5, 5, 1.25)]
    out += [(dict(BASE, **{f: ALT[f]}), 100 + k, 50 + k, 0.125 * k) for k, f in enumerate(FIELDS)]
    out += [(ALT, 123456789012, 123456789011, 1e6), (dict(BASE, noise=0.0), 3, 1, 2.0)]
    return out


def header():
    from collect_data import CSV_HEADER
    return CSV_HEADER


def line(row, order=None):
    d, s, c, t = row
    return ",".join(map(str, [d["data_width"], d["data_height"], d["rounds"], d["noise"], d["circuit_style"], d["preserved_observable"],
                              d["code_distance"], d["num_qubits"], s, c, t, d["decoder"], 2]))


def want_of(rows):
    out = {}
    for d, s, c, t in rows:
        k = tuple(d[f] for f in FIELDS)
        v = out.setdefault(k, [0, 0, 0.0])
        v[0] += s
        v[1] += c
        v[2] += t
    return out


def got_of(data):
    return {tuple(getattr(k, f) for f in FIELDS): [v.num_shots, v.num_correct, v.total_processing_seconds] for k, v in data.items()}


def same(got, want, what, case):
    check(set(got) == set(want), lambda: f"{what}: descriptions {sorted(map(str, got))}, expected {sorted(map(str, want))}", case)
    for k in want:
        g, w = got[k], want[k]
        check(g[0] == w[0] and g[1] == w[1], lambda: f"{what}: {k} has {g[:2]} (shots, correct), expected {w[:2]}", case)
        check(abs(g[2] - w[2]) <= 1e-9 * (1 + abs(w[2])), lambda: f"{what}: {k} has {g[2]} seconds, expected {w[2]}", case)


def items(tier):
    th = tier == "thorough"
    n = 12 if th else 8
    out = []
    for k in range(0, 4 if not th else 5):
        out.append(["files", k, n, None])
    k = 4 if not th else 5
    for first in range(n):
        out.append(["files", k, n, first])
    for ds in range(3):
        for lo in range(0, 512, 32):
            out.append(["keys", ds, lo, lo + 32])
    out += [["filters", ds] for ds in range(3)]
    out.append(["objects"])
    out += [["agg", i] for i in range(12)]
    out += [["trees", k, first, how] for k in (1, 2, 3) + ((4,) if th else ()) for first in range(len(PATHS) - k + 1) for how in range(3)]
    return out


# same names in different directories, same trailing path, names that repeat their directory's, prefixes of each other
PATHS = ["a.csv", "d/a.csv", "d/e/a.csv", "e/a.csv", "e/d/a.csv", "d/d/a.csv", "d/a.csv.csv", "a/a.csv", "d/b.csv", "e/d/e/a.csv", "d0/a.csv", "A.csv"]


def run_trees(item, root):
    """Every set of k files over PATHS, with identical, equal-size and different contents, given as one directory or one by one."""
    import runpy
    import collect_data
    from mc.core import REPO
    _, k, first, how = item
    P = pool()
    argv = sys.argv
    st = nt = 0
    try:
        for n, rest in enumerate(itertools.combinations(range(first + 1, len(PATHS)), k - 1)):
            top = os.path.join(root, f"t{n}")
            ids = [first, *rest]
            rows = []
            for j, i in enumerate(ids):
                mine = [[P[0], P[4]], [P[3 + j]], [P[0], (P[0][0], 2 + j, 1, 0.25)]][how]
                rows += mine
                write(os.path.join(top, PATHS[i]), mine)
            want = want_of(rows)
            argvs = [[top], [os.path.join(top, PATHS[i]) for i in reversed(ids)]]
            if n % 4 == 0:
                # by its immediate children
                argvs.append([os.path.join(top, x) for x in sorted(os.listdir(top))])
            for a in argvs:
                sys.argv = ["aggregate_csv_data.py"] + a
                buf = io.StringIO()
                with contextlib.redirect_stdout(buf):
                    runpy.run_path(str(REPO / "src/paper/aggregate_csv_data.py"), run_name="__main__")
                out = os.path.join(root, "out.tmp")
                with open(out, "w") as f:
                    f.write(buf.getvalue())
                same(got_of(collect_data.read_recorded_data(out).data), want, "aggregate",
                     {"files": [PATHS[i] for i in ids], "arguments": [os.path.relpath(x, root) for x in a]})
                st += 1
                nt += k > 1
            shutil.rmtree(top)
    finally:
        sys.argv = argv
    return st, nt


def write(path, rows, final_newline=True):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(header() + "\n" + "".join(line(r) + "\n" for r in rows))


def dataset(i):
    """ProblemShotData built directly, descriptions in several orders."""
    from collect_data import ProblemShotData, DecodingProblemDesc, ShotData
    P = pool()
    if i == 0:
        rows = P
    elif i == 1:
        rows = list(reversed(P))
    else:
        vals = {f: [BASE[f], ALT[f]] for f in FIELDS}
        rows = []
        for n, bits in enumerate(itertools.product((0, 1), repeat=9)):
            rows.append(({f: vals[f][b] for f, b in zip(FIELDS, bits)}, 1000 + n, n, n / 8))
        rows = rows[1::2] + rows[0::2]
    merged = want_of(rows)
    data = {DecodingProblemDesc(**dict(zip(FIELDS, k))): ShotData(num_shots=v[0], num_correct=v[1], total_processing_seconds=v[2])
            for k, v in merged.items()}
    return ProblemShotData(data), merged


def run_files(item, root):
    import collect_data
    _, k, n, first = item
    P = pool()[:n]
    st = nt = 0
    for combo in itertools.product(range(n), repeat=k):
        if first is not None and combo[0] != first:
            continue
        rows = [P[i] for i in combo]
        want = want_of(rows)
        for split in itertools.product(range(3), repeat=k) if k <= 2 else ([0] * k, [j % 2 for j in range(k)], [j % 3 for j in range(k)], [2] + [0] * (k - 1)):
            files = [[r for r, s in zip(rows, split) if s == f] for f in range(3)]
            paths = []
            for f, rs in enumerate(files):
                p = os.path.join(root, f"f{f}.csv")
                write(p, rs)
                paths.append(p)
            for order in itertools.permutations(range(3)) if k <= 2 else ((0, 1, 2), (2, 0, 1)):
                d = collect_data.read_recorded_data(*[paths[o] for o in order]).data
                same(got_of(d), want, "reading", {"files": [[line(r) for r in f] for f in files], "order": order})
                st += 1
                nt += len(want) < len(rows)
    d = collect_data.read_recorded_data().data
    check(not d, "reading no file gives data")
    return st, nt


def keyf(fs):
    return lambda d: tuple(getattr(d, f) for f in fs)


def run_keys(item):
    import collect_data
    psd, want = dataset(item[1])
    before = copy.deepcopy(psd)
    st = nt = 0
    for m in range(item[2], item[3]):
        fs = [f for j, f in enumerate(FIELDS) if m >> j & 1]
        case = {"fields": fs, "data set": item[1]}
        if item[1] == 0:
            want = got_of(psd.data)
        ref = {}
        for k, v in want.items():
            ref.setdefault(tuple(k[FIELDS.index(f)] for f in fs), {})[k] = v
        g = psd.grouped_by(keyf(fs))
        check(list(g) == sorted(ref), lambda: f"groups {list(g)[:4]}..., expected {sorted(ref)[:4]}...", case)
        for kk, sub in g.items():
            same(got_of(sub.data), ref[kk], f"group {kk}", case)
            st += 1
        mg = psd.merged_by(keyf(fs))
        check(list(mg) == sorted(ref), lambda: f"merged keys {list(mg)[:4]}...", case)
        for kk, v in mg.items():
            w = [sum(x[j] for x in ref[kk].values()) for j in range(3)]
            check(v.num_shots == w[0] and v.num_correct == w[1] and abs(v.total_processing_seconds - w[2]) <= 1e-9 * (1 + w[2]),
                  lambda: f"merged {kk}: {v}, expected {w}", case)
            st += 1
            nt += len(ref[kk]) > 1
        # merging must not change the data it merges, not even when the result is changed
        for v in mg.values():
            v.num_shots += 17
            v.num_correct += 5
        check(psd.data == before.data, "merging or grouping altered the original data", case)
        # a second time, and within each group
        mg2 = psd.merged_by(keyf(fs))
        check({k: v.num_shots for k, v in mg2.items()} == {k: v.num_shots - 17 for k, v in mg.items()}, "merging twice differs", case)
        if len(g) <= 8:
            for kk, sub in g.items():
                inner = sub.merged_by(lambda d: d.decoder)
                check(sum(v.num_shots for v in inner.values()) == sum(v[0] for v in ref[kk].values()), "merging within a group loses shots", case)
    return st, nt


def run_filters(item):
    psd, want = dataset(item[1])
    before = copy.deepcopy(psd)
    st = nt = 0
    vals = [(f, v) for f in FIELDS for v in (BASE[f], ALT[f])] + [("noise", 0.0), ("noise", 5)]
    preds = [((f, v),) for f, v in vals] + [(a, b) for a, b in itertools.combinations(vals, 2)] + [()]
    for pr in preds:
        for neg in (False, True):
            def ok(d):
                return all(getattr(d, f) == v for f, v in pr) != neg
            got = psd.filter(ok)
            ref = {k: v for k, v in want.items() if all(k[FIELDS.index(f)] == v_ for f, v_ in pr) != neg}
            same(got_of(got.data), ref, f"filter {pr} negated={neg}", {"data set": item[1]})
            st += 1
            nt += 0 < len(ref) < len(want)
    check(psd.data == before.data, "filtering altered the original data")
    return st, nt


def run_objects():
    """with_changes, ordering and equality of descriptions."""
    from collect_data import DecodingProblemDesc
    st = 0
    d = DecodingProblemDesc(**BASE)
    for m in range(512):
        ch = {f: ALT[f] for j, f in enumerate(FIELDS) if m >> j & 1}
        e = d.with_changes(**ch)
        check(e == DecodingProblemDesc(**{**BASE, **ch}), lambda: f"with_changes({ch}) gives {e}")
        check((e == d) == (not ch) and (hash(e) == hash(d) or ch), "equality of descriptions")
        check(d == DecodingProblemDesc(**BASE), "with_changes altered the original")
        st += 1
    for f, v in (("data_width", 0), ("noise", 0.0), ("rounds", 0), ("code_distance", 0), ("num_qubits", 0), ("preserved_observable", ""), ("decoder", "")):
        e = d.with_changes(**{f: v})
        check(getattr(e, f) == v, lambda: f"with_changes({f}={v!r}) gives {getattr(e, f)!r}")
        st += 1
    return st, st


def tree(i):
    """Arrangements: (files: {relative path: row indices}, argument list)."""
    A = [
        ({"a.csv": [0]}, ["a.csv"]),
        ({"a.csv": [0, 1], "b.csv": [2, 3]}, ["a.csv", "b.csv"]),
        ({"a.csv": [0, 1], "b.csv": [2, 3]}, ["b.csv", "a.csv"]),
        ({"d/a.csv": [0, 0], "d/b.csv": [0, 4]}, ["d"]),
        ({"d/a.csv": [0], "d/e/b.csv": [0, 4], "d/e/f/c.csv": [1, 5, 6]}, ["d"]),
        ({"d/a.csv": [0], "e/a.csv": [0], "e/f/a.csv": [0, 7], "g.csv": [0]}, ["d", "e", "g.csv"]),
        ({"d/a.csv": [0], "d/notes.txt": None, "d/b.csv.bak": None, "d/x.csvx": None}, ["d"]),
        ({"d/a.csv": [], "d/b.csv": [8, 9, 10, 11]}, ["d"]),
        ({"d/a.csv": [11, 3, 10, 2], "d/b.csv": [2, 3, 10, 11, 12]}, ["d"]),
        ({"d.csv/a.csv": [1, 2]}, ["d.csv"]),
        ({"d/a.csv": [0, 12, 13], "d/é.csv": [0, 3], "d/with space.csv": [4]}, ["d/", "./d/../f.csv"]),
        ({"d/a.CSV": [0], "d/b.csv": [1], ".h/a.csv": [2], "d/.b.csv": [3]}, ["d", ".h"]),
    ]
    files, args = A[i]
    if i == 10:
        files = dict(files, **{"f.csv": [5]})
    return files, args


def run_agg(item, root):
    import runpy
    import collect_data
    from mc.core import REPO
    P = pool()
    files, args = tree(item[1])
    rows = []
    for rel, idx in files.items():
        p = os.path.join(root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if idx is None:
            with open(p, "w") as f:
                f.write(header() + "\n" + line(P[0]) + "\n")
            continue
        write(p, [P[j] for j in idx])
        if not rel.endswith(".CSV"):
            rows += [P[j] for j in idx]
    case = {"files": {k: v for k, v in files.items()}, "arguments": args}
    want = want_of(rows)
    st = 0
    cwd = os.getcwd()
    os.chdir(root)
    argv = sys.argv
    try:
        for rep in range(2):
            for absolute in (False, True):
                sys.argv = ["aggregate_csv_data.py"] + [os.path.join(root, a) if absolute else a for a in args]
                buf = io.StringIO()
                with contextlib.redirect_stdout(buf):
                    runpy.run_path(str(REPO / "src/paper/aggregate_csv_data.py"), run_name="__main__")
                out = os.path.join(root, "out.tmp")
                with open(out, "w") as f:
                    f.write(buf.getvalue())
                same(got_of(collect_data.read_recorded_data(out).data), want, "aggregate", case)
                n = len([l for l in buf.getvalue().splitlines() if l.strip()])
                check(n == 1 + len(want), lambda: f"the aggregate has {n} lines for {len(want)} descriptions", case)
                # aggregating the aggregate changes nothing
                sys.argv = ["aggregate_csv_data.py", out]
                buf2 = io.StringIO()
                with contextlib.redirect_stdout(buf2):
                    runpy.run_path(str(REPO / "src/paper/aggregate_csv_data.py"), run_name="__main__")
                with open(out, "w") as f:
                    f.write(buf2.getvalue())
                same(got_of(collect_data.read_recorded_data(out).data), want, "aggregate of the aggregate", case)
                st += 2
                os.remove(out)
        sys.argv = ["aggregate_csv_data.py"]
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                runpy.run_path(str(REPO / "src/paper/aggregate_csv_data.py"), run_name="__main__")
        except (Exception, SystemExit):
            pass
        else:
            raise Violation("aggregating nothing is not an error")
    finally:
        sys.argv = argv
        os.chdir(cwd)
    return st, st


def run_item(item):
    root = tempfile.mkdtemp(prefix="mc_c18_")
    try:
        if item[0] == "files":
            st, nt = run_files(item, root)
        elif item[0] == "keys":
            st, nt = run_keys(item)
        elif item[0] == "filters":
            st, nt = run_filters(item)
        elif item[0] == "objects":
            st, nt = run_objects()
        elif item[0] == "trees":
            st, nt = run_trees(item, root)
        else:
            st, nt = run_agg(item, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return dict(states=st, transitions=st, evaluations=st, distinct_nontrivial=nt, traces_validated_against_impl=st, sample={"item": item})
