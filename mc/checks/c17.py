"""C17: recorded data survives interruption and resumption exactly."""
import builtins
import contextlib
import csv
import io
import itertools
import json
import os
import shutil
import signal
import sys
import tempfile

import stim

from mc.core import Violation, check
from mc.standin import replaced

RULE = ("crash-point enumeration on the real collectors in forked processes: every file operation (open, raw write, truncate, "
        "rename, ...) of every run of a history is a crash point, with a kill (process ends, buffers lost), an interrupt "
        "(exception unwinding) or an exception from the sampler; after every crash the file is read back and compared with the "
        "finished batches, then the collection is resumed or restarted with discarding, with a second crash at every point; "
        "additionally every write to the data file is cut off after every number of bytes (killed, or disk full), read back and "
        "continued; states = crash points, transitions = runs; non-trivial: crash point after at least one finished batch")
ASSUMPTIONS = ["an incomplete write leaves a prefix of what was written", "one collector at a time writes a file", "what was in the file before was written by a collector"]
BOUNDS = {
    "quick": "histories of up to 3 runs with up to 2 crashes, up to 3 problems and 4 batches per run, 6 initial file states, both collectors; torn writes: the first 4 writes of 4 histories, every byte",
    "thorough": "the same with all outcome scripts and 3 crashes; torn writes: the first 8 writes of all small histories",
}

NOISES = [0.001, 1e-05, 0.00031622776601683794, 3.0000000000000004e-05, 0.0]
WRITE = os.write
EXIT = os._exit


def descs():
    from collect_data import DecodingProblemDesc
    out = []
    for k in range(3):
        out.append(DecodingProblemDesc(data_width=4 + k, data_height=6 * (k + 1), code_distance=2 + k, num_qubits=30 + 7 * k, rounds=12 + k,
                                       noise=NOISES[k], circuit_style=["SD6", "EM3_v2", "honeycomb_PC3"][k],
                                       preserved_observable="HVX"[k], decoder=["pymatching", "internal", "internal_correlated"][k]))
    out.append(out[0])               # the same problem again
    out.append(out[0].with_changes(decoder="internal"))
    return out


class Crash(BaseException):
    pass


class Harness:
    """Counts file operations; at operation number `at` the process is killed or interrupted."""

    def __init__(self, root, at, mode, log_fd, torn=None):
        self.root, self.at, self.mode, self.log_fd = root, at, mode, log_fd
        self.torn, self.std = torn, os.path.join(root, "stdout")
        self.n = self.w = 0
        self.fired = False

    def log(self, *rec):
        WRITE(self.log_fd, (json.dumps(rec) + "\n").encode())

    def write(self, raw, b, plain):
        """A write to the data file; the `torn` one reaches the file only partly."""
        if self.torn is None or raw.name == self.std:
            self.tick("write")
            return plain(b)
        i = self.w
        self.w += 1
        if self.fired:
            raise OSError(28, "No space left on device")
        if i != self.torn[0]:
            return plain(b)
        self.fired = True
        data = bytes(b)
        k = min(self.torn[1], len(data))
        self.log("torn", len(data))
        if k:
            plain(data[:k])
        if self.mode == "kill":
            EXIT(77)
        if not k:
            raise OSError(28, "No space left on device")
        return k

    def tick(self, what):
        i = self.n
        self.n += 1
        if i == self.at and not self.fired:
            self.fired = True
            self.log("crash", what)
            if self.mode == "kill":
                EXIT(77)
            raise KeyboardInterrupt()

    def install(self):
        me = self
        orig_open = io.open

        class Raw(io.FileIO):
            def write(self, b):
                return me.write(self, b, super().write)

            def truncate(self, *a):
                me.tick("truncate")
                return super().truncate(*a)
        self.Raw = Raw

        def under(file):
            try:
                return os.path.abspath(os.fspath(file)).startswith(me.root)
            except TypeError:
                return False

        def my_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            if isinstance(file, (str, bytes, os.PathLike)) and not under(file):
                return orig_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            me.tick("open " + mode)
            binary = "b" in mode
            m = mode.replace("b", "").replace("t", "")
            raw = Raw(file, m, closefd, opener)
            if buffering == 0:
                return raw
            size = io.DEFAULT_BUFFER_SIZE if buffering in (-1, 1) else buffering
            buf = (io.BufferedRandom if "+" in m else io.BufferedReader if m == "r" else io.BufferedWriter)(raw, size)
            if binary:
                return buf
            t = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
            t.mode = mode
            return t

        builtins.open = io.open = my_open
        for name in ("replace", "rename", "remove", "unlink", "truncate", "ftruncate", "link", "symlink", "open", "write", "fsync"):
            def wrap(f, name=name):
                def g(*a, **k):
                    if not (name in ("write", "fsync", "ftruncate") and a and a[0] == me.log_fd):
                        me.tick("os." + name)
                    return f(*a, **k)
                return g
            setattr(os, name, wrap(getattr(os, name)))


def run_child(root, spec, at, mode, torn=None):
    """Executes one collector run in a forked process.  Returns (events, number of operations or None)."""
    log_path = os.path.join(root, "log")
    for n in ("log", "stdout"):
        p = os.path.join(root, n)
        if os.path.exists(p):
            os.remove(p)
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            signal.alarm(60)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            log_fd = os.open(log_path, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
            h = Harness(root, at, mode, log_fd, torn)
            try:
                child(root, spec, h)
                h.log("done", h.n)
                code = 0
            except Violation as v:
                h.log("violation", v.message)
                code = 3
            except BaseException as ex:
                h.log("raised", type(ex).__name__, str(ex))
                code = 4
        finally:
            EXIT(code)
    _, status = os.waitpid(pid, 0)
    events = [json.loads(l) for l in open(log_path).read().splitlines()] if os.path.exists(log_path) else []
    for e in events:
        if e[0] == "violation":
            raise Violation(e[1], {"run": spec, "crash": [at, mode]})
    if os.WIFSIGNALED(status):
        raise Violation("the collector process died or hung", {"run": spec, "crash": [at, mode]})
    return events


def parse(text):
    """Own parser: list of row dicts; raises Violation on anything that is not a well-formed file."""
    from collect_data import CSV_HEADER
    lines = text.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    elif text:
        raise Violation(f"the file ends in the middle of a line: {text[-80:]!r}")
    if not lines:
        return []
    head = lines[0].split(",")
    if lines[0] != CSV_HEADER or len(head) != 13:
        raise Violation(f"the file does not start with the header but with {lines[0]!r}")
    rows = []
    for l in lines[1:]:
        f = l.split(",")
        if len(f) != len(head) or f == head:
            raise Violation(f"malformed line {l!r} in the data file")
        rows.append(dict(zip(head, f)))
    return rows


def row_key(r):
    return (int(r["data_width"]), int(r["data_height"]), int(r["rounds"]), float(r["noise"]), r["circuit_style"], r["preserved_observable"],
            int(r["code_distance"]), int(r["num_qubits"]), r["decoder"], int(r["num_shots"]), int(r["num_correct"]))


def want_key(d, shots, correct, fraction=False):
    return (d.data_width, d.data_height, d.rounds, d.noise, d.circuit_style, "-" if fraction else d.preserved_observable,
            d.code_distance, d.num_qubits, "detection_fraction" if fraction else d.decoder, shots, correct)


def child(root, spec, h):
    """spec: {kind, problems, script, discard, fail: [batch, exception] or None, path: bool}."""
    import collect_data
    import decoding
    out = os.path.join(root, "data.csv") if spec.get("path", True) else None
    std = os.path.join(root, "stdout")
    h.install()
    sys.stdout = io.TextIOWrapper(io.BufferedWriter(h.Raw(std, "w")), write_through=False)
    ds = descs()
    done = []       # finished batches as keys
    before = parse_disk(out) if out and not spec["discard"] and h.torn is None else []
    if h.torn is not None and not spec["discard"]:
        before = None   # what the collector makes of an incomplete last row
    batch = [0]

    def starting():
        """A batch begins: everything finished must be visible to other processes."""
        nonlocal before
        if before is None:
            before = parse_disk(out)
        case = {"run": spec}
        with io.FileIO(std) as f:
            rows = [row_key(r) for r in parse(f.readall().decode())]
        check(rows == done, lambda: f"standard output shows {len(rows)} rows when {len(done)} batches are finished", case)
        if out:
            rows = parse_disk(out)
            check(rows == before + done, lambda: f"the file holds {rows} when a batch starts, expected {before + done}", case)
        if spec.get("fail") and spec["fail"][0] == batch[0]:
            h.log("start")
            raise {"RuntimeError": RuntimeError, "KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError,
                   "OSError": OSError, "SystemExit": SystemExit, "AssertionError": AssertionError}[spec["fail"][1]]("injected")
        h.log("start")
        h.tick("batch")
        batch[0] += 1

    problems = []
    forever = contextlib.ExitStack()    # this process ends with the run
    if spec["kind"] == "sim":
        circuits = [stim.Circuit(f"X_ERROR(0.125) {k}\nM {k}\nDETECTOR rec[-1]") for k in range(len(spec["problems"]))]

        def fake(*, num_shots, circuit, decoder, **kw):
            k = circuits.index(circuit)
            d = ds[spec["problems"][k]]
            starting()
            check(decoder == d.decoder, lambda: f"problem {k} was decoded with {decoder}")
            errs = spec["script"][(batch[0] - 1) % len(spec["script"])]
            correct = num_shots - min(errs, num_shots)
            key = want_key(d, num_shots, correct)
            done.append(key)
            h.log("batch", key)
            return correct
        forever.enter_context(replaced(decoding.sample_decode_count_correct, fake))
        for k, i in enumerate(spec["problems"]):
            problems.append(collect_data.DecodingProblem(ds[i], lambda k=k: circuits[k].copy()))
        collect_data.collect_simulated_experiment_data(
            problems, min_shots=spec["limits"][0], max_shots=spec["limits"][1], max_batch=spec["limits"][2],
            min_seen_logical_errors=spec["limits"][3], out_path=out, discard_previous_data=spec["discard"])
    else:
        # detection fractions: deterministic circuits, detector count and firing count depend on the problem
        shots = 5

        def maker(i, pos):
            def f():
                starting()
                nd, fire = 2 + i, spec["script"][pos % len(spec["script"])] % (3 + i)
                c = stim.Circuit()
                for q in range(nd):
                    c.append("X_ERROR", [q], 1 if q < fire else 0)
                    c.append("M", [q])
                    c.append("DETECTOR", [stim.target_rec(-1)])
                key = want_key(ds[i], shots * nd, shots * (nd - min(fire, nd)), fraction=True)
                done.append(key)
                h.log("batch", key)
                return c
            return f
        for pos, i in enumerate(spec["problems"]):
            problems.append(collect_data.DecodingProblem(ds[i], maker(i, pos)))
        collect_data.collect_detection_fraction_data(problems, shots=shots, out_path=out, discard_previous_data=spec["discard"])
    sys.stdout.flush()
    case = {"run": spec}
    with io.FileIO(std) as f:
        rows = [row_key(r) for r in parse(f.readall().decode())]
    check(rows == done, lambda: f"at the end standard output shows {rows}, expected {done}", case)
    if out:
        rows = parse_disk(out)
        before = before or []
        check(rows == before + done, lambda: f"at the end the file holds {rows}, expected {before + done}", case)


def parse_disk(path):
    try:
        with io.FileIO(path) as f:
            text = f.readall().decode()
    except FileNotFoundError:
        return []
    return [row_key(r) for r in parse(text)]


def totals(keys):
    out = {}
    for k in keys:
        t = out.setdefault(k[:9], [0, 0])
        t[0] += k[9]
        t[1] += k[10]
    return out


def read_back(path, keys, case):
    """read_recorded_data must give the exact sums of the given rows."""
    import collect_data
    d = collect_data.read_recorded_data(path).data
    got = {}
    for k, v in d.items():
        key = (k.data_width, k.data_height, k.rounds, k.noise, k.circuit_style, k.preserved_observable, k.code_distance, k.num_qubits, k.decoder)
        got[key] = [v.num_shots, v.num_correct]
    want = totals(keys)
    check(got == want, lambda: f"reading the file back gives {got}, expected {want}", case)


INIT = ["missing", "empty", "header", "same", "other", "many"]


def initial(root, kind):
    from collect_data import CSV_HEADER
    path = os.path.join(root, "data.csv")
    if os.path.exists(path):
        os.remove(path)
    if kind == "missing":
        return []
    text = "" if kind == "empty" else CSV_HEADER + "\n"
    ds = descs()
    rows = {"same": [(0, 7, 5)], "other": [(4, 3, 3)], "many": [(0, 7, 5), (1, 1000000, 999999), (0, 7, 5), (2, 1, 0)]}.get(kind, [])
    keys = []
    for i, s, c in rows:
        d = ds[i]
        text += ",".join(map(str, [d.data_width, d.data_height, d.rounds, d.noise, d.circuit_style, d.preserved_observable, d.code_distance,
                                   d.num_qubits, s, c, 0.25, d.decoder, 2])) + "\n"
        keys.append(want_key(d, s, c))
    with open(path, "w") as f:
        f.write(text)
    return keys


def specs(tier):
    out = []
    lim = [(2, 7, 3, 100), (1, 3, None, 1), (4, 4, 4, 1)]
    scripts = [[0, 1], [1]] if tier == "quick" else [[0, 1], [1], [0], [2, 0, 1], [0, 0, 3]]
    for problems in ([0], [0, 1], [0, 3, 2]):
        for l in lim if tier != "quick" or len(problems) < 3 else lim[1:2]:
            for s in scripts:
                out.append({"kind": "sim", "problems": problems, "script": s, "limits": l, "discard": False})
    # realistic batch sizes (the amount of work per batch grows; rows must still be written at once)
    for problems, l, s in (([0], (10, 2000, None, 5), [0, 1]), ([0, 1], (64, 1024, 100, 10 ** 6), [0]), ([1, 2], (25, 10 ** 6, 2 ** 15, 1000), [3000, 0]),
                           ([0, 3, 2], (1000, 10 ** 8, None, 1), [0, 7]), ([2], (10 ** 5, 10 ** 8, 10 ** 7, 10 ** 9), [0])):
        out.append({"kind": "sim", "problems": problems, "script": s, "limits": l, "discard": False, "big": True})
    for problems in ([0], [0, 3], [2, 0, 1]):
        for s in ([1, 0, 2], [0]):
            out.append({"kind": "frac", "problems": problems, "script": s, "discard": False})
    return out


def items(tier):
    th = tier == "thorough"
    out = []
    for i, s in enumerate(specs(tier)):
        for init in INIT if th or not s.get("big") else INIT[:1] + INIT[3:4]:
            for disc in (False, True):
                out.append(["one", dict(s, discard=disc), init])
    for s in specs(tier):
        if s.get("big") and not th:
            continue
        if len(s["problems"]) <= (3 if th else 1):
            for init in ("missing", "same") if not th else INIT:
                for d1, d2 in itertools.product((False, True), repeat=2):
                    if th or not (d1 and d2):
                        out.append(["two", dict(s, discard=d1), dict(s, discard=d2), init])
    for s in specs(tier):
        out.append(["raise", s])
        out.append(["nofile", dict(s, path=False)])
    out.append(["values"])
    torn = [s for s in specs(tier) if not s.get("big")]
    for s in torn if th else [torn[0], torn[4], torn[-6], torn[-3]]:
        for init in ("missing", "same", "many") if not th else INIT:
            for disc in (False, True) if th or init == "same" else (False,):
                for w in range(4 if not th else 8):
                    out.append(["torn", dict(s, discard=disc), init, w])
    return out


def run_torn(root, item):
    """A write to the file reaches it only up to byte k, for every k; then the run ends (killed, or full disk)."""
    _, spec, init, w = item
    path = os.path.join(root, "data.csv")
    st = nt = 0
    case = None
    for mode in ("kill", "disk full"):
        k = 0
        while True:
            old = initial(root, init)
            ev = run_child(root, spec, -1, mode, torn=(w, k))
            t = [e for e in ev if e[0] == "torn"]
            if not t:
                check(any(e[0] == "done" for e in ev), lambda: f"the run failed: {ev[-1]}", {"initial file": init, "run": spec})
                return st, nt, case
            case = {"initial file": init, "run": spec, "write": w, "bytes written": k, "then": mode}
            batches = [tuple(e[1]) for e in ev if e[0] == "batch"]
            starts = sum(e[0] == "start" for e in ev)
            lo = max(0, starts - 1)
            ok = [(old if not spec["discard"] else []) + batches[:j] for j in range(lo, len(batches) + 1)]
            if not starts:
                ok.append(list(old))
            rows = None
            if not os.path.exists(path):
                open(path, "w").close()
            for o in ok:
                try:
                    read_back(path, o, case)
                    rows = o
                except Violation as v:
                    err = v
                except Exception as ex:
                    raise Violation(f"the file left behind cannot be read: {type(ex).__name__}: {ex}", case)
            if rows is None:
                raise err
            # the next run, without and with discarding
            snap = open(path, "rb").read()
            for disc in (False, True):
                with open(path, "wb") as f:
                    f.write(snap)
                s2 = dict(spec, discard=disc)
                ev2 = run_child(root, s2, -1, "kill", torn=(-1, 0))
                bad = [e for e in ev2 if e[0] == "raised"]
                check(not bad, lambda: f"the next run failed: {bad}", case)
                new = [tuple(e[1]) for e in ev2 if e[0] == "batch"]
                got = parse_disk(path)
                good = [o + new for o in ok] if not disc else [new]
                check(got in good, lambda: f"after {'discarding' if disc else 'resuming'} the file holds {got}, expected {good[0]}", case)
                read_back(path, got, case)
                st += 1
            nt += bool(old or lo)
            if k >= t[0][1]:
                break
            k += 1
    return st, nt, case


def after_crash(root, old, spec, events, case):
    """Checks the file after an interrupted or complete run; returns the rows it now holds."""
    path = os.path.join(root, "data.csv")
    rows = parse_disk(path)
    starts = sum(e[0] == "start" for e in events)
    batches = [tuple(e[1]) for e in events if e[0] == "batch"]
    complete = any(e[0] == "done" for e in events)
    lo = len(batches) if complete else max(0, starts - 1)
    ok = [old + batches[:k] for k in range(lo, len(batches) + 1)] if not spec["discard"] else \
        [batches[:k] for k in range(lo, len(batches) + 1)]
    if spec["discard"] and not starts:
        ok.append(list(old))       # the crash came before the old rows were discarded
    check(rows in ok, lambda: f"after the crash the file holds {rows}; finished before: {old}, in this run: {batches}", case)
    if os.path.exists(path):
        read_back(path, rows, case)
    else:
        check(not rows, "the file is gone", case)
    return rows, lo


def run_item(item):
    root = tempfile.mkdtemp(prefix="mc_c17_")
    st = tr = nt = 0
    sample = None
    try:
        if item[0] == "one":
            _, spec, init = item
            for mode in ("kill", "interrupt"):
                at = 0
                while True:
                    old = initial(root, init)
                    ev = run_child(root, spec, at, mode)
                    case = {"initial file": init, "run": spec, "crash": [at, mode], "at": [e for e in ev if e[0] == "crash"]}
                    tr += 1
                    crashed = any(e[0] == "crash" for e in ev)
                    if not crashed:
                        check(any(e[0] == "done" for e in ev), lambda: f"the run failed: {ev[-1]}", case)
                    rows, lo = after_crash(root, old, spec, ev, case)
                    st += 1
                    nt += lo > 0
                    # resume / restart to completion
                    snap = open(os.path.join(root, "data.csv")).read() if os.path.exists(os.path.join(root, "data.csv")) else None
                    for disc in (False, True):
                        path = os.path.join(root, "data.csv")
                        if snap is None:
                            if os.path.exists(path):
                                os.remove(path)
                        else:
                            with open(path, "w") as f:
                                f.write(snap)
                        s2 = dict(spec, discard=disc)
                        ev2 = run_child(root, s2, -1, "kill")
                        c2 = dict(case, then="discarding run" if disc else "resumed run")
                        check(any(e[0] == "done" for e in ev2), lambda: f"the next run failed: {ev2[-1]}", c2)
                        after_crash(root, rows, s2, ev2, c2)
                        tr += 1
                    if not crashed:
                        break
                    at += 1
                    check(at < 2000, "endless run", case)
            sample = {"initial": init, "run": spec, "crash points": st}
        elif item[0] == "two":
            _, s1, s2, init = item
            at = 0
            path = os.path.join(root, "data.csv")
            while True:
                old = initial(root, init)
                ev = run_child(root, s1, at, "kill")
                crashed = any(e[0] == "crash" for e in ev)
                case = {"initial file": init, "first run": s1, "crash": at}
                rows, lo = after_crash(root, old, s1, ev, case)
                snap = open(path).read() if os.path.exists(path) else None
                at2 = 0
                while True:
                    if snap is None:
                        if os.path.exists(path):
                            os.remove(path)
                    else:
                        with open(path, "w") as f:
                            f.write(snap)
                    ev2 = run_child(root, s2, at2, "kill")
                    c2 = dict(case, **{"second run": s2, "second crash": at2})
                    rows2, lo2 = after_crash(root, rows, s2, ev2, c2)
                    s3 = dict(s1, discard=False)
                    ev3 = run_child(root, s3, -1, "kill")
                    check(any(e[0] == "done" for e in ev3), lambda: f"the final run failed: {ev3[-1]}", c2)
                    after_crash(root, rows2, s3, ev3, dict(c2, then="resumed"))
                    tr += 2
                    st += 1
                    nt += lo + lo2 > 0
                    if not any(e[0] == "crash" for e in ev2):
                        break
                    at2 += 1
                    check(at2 < 500, "endless run", c2)
                if not crashed:
                    break
                at += 1
                check(at < 500, "endless run", case)
            sample = {"initial": init, "crash point pairs": st}
        elif item[0] == "raise":
            spec = item[1]
            for exc in ("RuntimeError", "KeyboardInterrupt", "MemoryError", "OSError", "SystemExit", "AssertionError"):
                b = 0
                while True:
                    for init in ("missing", "same"):
                        old = initial(root, init)
                        s = dict(spec, fail=[b, exc])
                        ev = run_child(root, s, -1, "kill")
                        case = {"initial file": init, "run": s}
                        finished = any(e[0] == "done" for e in ev)
                        if not finished:
                            check(ev[-1][0] == "raised" and ev[-1][1] == exc, lambda: f"an error while sampling became {ev[-1]}", case)
                        rows, lo = after_crash(root, old, s, ev, case)
                        ev2 = run_child(root, spec, -1, "kill")
                        check(any(e[0] == "done" for e in ev2), lambda: f"the resumed run failed: {ev2[-1]}", case)
                        after_crash(root, rows, spec, ev2, dict(case, then="resumed"))
                        st, tr, nt = st + 1, tr + 2, nt + (lo > 0)
                    if finished:
                        break
                    b += 1
            sample = {"run": spec}
        elif item[0] == "nofile":
            spec = item[1]
            ev = run_child(root, spec, -1, "kill")
            check(any(e[0] == "done" for e in ev), lambda: f"the run without a file failed: {ev[-1]}", {"run": spec})
            left = sorted(os.listdir(root))
            check(left == ["log", "stdout"], lambda: f"a run without a file left {left}", {"run": spec})
            st, tr = 1, 1
            sample = {"run": spec}
        elif item[0] == "torn":
            st, nt, sample = run_torn(root, item)
            tr = 2 * st
        else:
            st = tr = nt = values(root)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return dict(states=st, transitions=tr, evaluations=tr, distinct_nontrivial=nt, traces_validated_against_impl=tr, sample=sample)


def values(root):
    """Every description field and count survives the round trip through the file."""
    import contextlib
    import collect_data
    import decoding
    n = 0
    path = os.path.join(root, "v.csv")
    base = dict(data_width=4, data_height=6, code_distance=2, num_qubits=30, rounds=12, noise=0.001, circuit_style="SD6",
                preserved_observable="H", decoder="pymatching")
    alt = dict(data_width=[0, 1, 123456], data_height=[0, 6, 99], code_distance=[0, 1, 31], num_qubits=[0, 10 ** 6], rounds=[1, 10 ** 9],
               noise=[0, 1e-300, 5e-324, 0.1, 1 / 3, 0.30000000000000004, 1, 2.5e-05], circuit_style=["surface_SD6_X", "a b", "x-y"],
               preserved_observable=["V", "X", "-", "EPR"], decoder=["internal", "internal_correlated"])
    probs = [dict(base)] + [dict(base, **{k: v}) for k, vs in alt.items() for v in vs]
    shots_of = [1, 2, 10 ** 3, 10 ** 8, 10 ** 15]
    for shots in shots_of:
        for errs in (0, 1, shots):
            def fake(*, num_shots, circuit, decoder, **kw):
                return num_shots - errs
            ps = [collect_data.DecodingProblem(collect_data.DecodingProblemDesc(**p), lambda: stim.Circuit()) for p in probs]
            for disc in (True, False):
                with replaced(decoding.sample_decode_count_correct, fake), contextlib.redirect_stdout(io.StringIO()):
                    collect_data.collect_simulated_experiment_data(
                        ps, min_shots=shots, max_shots=shots, min_seen_logical_errors=1, out_path=path, discard_previous_data=disc)
                d = collect_data.read_recorded_data(path).data
                m = 1 if disc else 2
                want = {}
                for p in ps:
                    t = want.setdefault(p.desc, [0, 0])
                    t[0] += m * shots
                    t[1] += m * (shots - errs)
                check({k: [v.num_shots, v.num_correct] for k, v in d.items()} == want,
                      "a description or count changed on the way through the file", {"shots": shots, "errors": errs})
                n += len(ps)
    return n
