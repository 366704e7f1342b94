"""C15: correct-shot counts and the external decoder protocol are exact."""
import itertools
import os
import shutil
import tempfile
import warnings

import numpy as np
import stim

from mc.core import Violation, check
from mc import refdem
from mc.checks.c14 import circuit_for, best_predictions, bits

RULE = ("all detection/observable bit patterns of batches up to the bound under a scripted sampler with the matching decoder, all "
        "detection/observable/prediction patterns with a stand-in external decoder binary (run as a real subprocess in a "
        "scratch directory), every failure mode x decoder x batch, deterministic end-to-end circuits with an unpatched "
        "sampler; states = shots judged; non-trivial: at least one event, flip or failure")
ASSUMPTIONS = ["the external decoder is a program with the documented command line; its output is one line of 0/1 digits per shot",
               "content after the last required line is not judged"]
BOUNDS = {
    "quick": "batches of up to 3 shots; 2-3 detectors, 0-3 observables; single events and flips of circuits with up to 1100 detectors and 70 observables; 19 failure modes",
    "thorough": "batches of up to 4 shots",
}

STUB = """#!/bin/sh
d='%s'
for a in "$@"; do echo "$a"; done > "$d/argv"
while [ $# -gt 0 ]; do
  case "$1" in -dem_fname) dem=$2;; -dets_fname) dets=$2;; -out) out=$2;; esac
  shift
done
cat "$dem" > "$d/dem"
cat "$dets" > "$d/dets"
echo x >> "$d/calls"
. "$d/mode"
"""

# name -> (shell mode, transform of the valid prediction lines, process failure?)
FAILS = {
    "exit1-no-output": ("exit 1", None, True),
    "exit1-valid-output": ('cat "$d/pred" > "$out"; exit 1', lambda ls: ls, True),
    "exit3-valid-output": ('cat "$d/pred" > "$out"; exit 3', lambda ls: ls, True),
    "killed": ("kill -9 $$", None, True),
    "killed-after-output": ('cat "$d/pred" > "$out"; kill -9 $$', lambda ls: ls, True),
    "aborted": ("kill -6 $$", None, True),
    "no-output": ("exit 0", None, False),
    "empty-output": ('cat "$d/pred" > "$out"', lambda ls: "", False),
    "last-shot-missing": ('cat "$d/pred" > "$out"', lambda ls: "".join(ls[:-1]), False),
    "last-newline-missing": ('cat "$d/pred" > "$out"', lambda ls: "".join(ls)[:-1], False),
    "first-digit-2": ('cat "$d/pred" > "$out"', lambda ls: "2" + "".join(ls)[1:], False),
    "first-digit-x": ('cat "$d/pred" > "$out"', lambda ls: "x" + "".join(ls)[1:], False),
    "first-digit-space": ('cat "$d/pred" > "$out"', lambda ls: " " + "".join(ls)[1:], False),
    "last-digit-2": ('cat "$d/pred" > "$out"', lambda ls: "".join(ls)[:-2] + "2\n", False),
    "extra-digit-first": ('cat "$d/pred" > "$out"', lambda ls: "0" + "".join(ls), False),
    "extra-digit-each": ('cat "$d/pred" > "$out"', lambda ls: "".join(l[:-1] + "0\n" for l in ls), False),
    "digit-missing-each": ('cat "$d/pred" > "$out"', lambda ls: "".join(l[1:] for l in ls), False),
    "spaces-between": ('cat "$d/pred" > "$out"', lambda ls: "".join(" ".join(l[:-1]) + " \n" for l in ls), False),
    "blank-line-first": ('cat "$d/pred" > "$out"', lambda ls: "\n" + "".join(ls), False),
    "joined-lines": ('cat "$d/pred" > "$out"', lambda ls: "".join(l[:-1] for l in ls) + "\n", False),
}


class Script:
    """Replaces the detector sampler by scripted results (all output layouts of the sampler's interface)."""

    def __init__(self):
        self.rows = None
        self.used = 0
        self.asked = []

    def install(self):
        self.orig = stim.Circuit.compile_detector_sampler
        me = self

        class Sampler:
            def __init__(self, real):
                self.real = real

            def sample(self, shots, *, prepend_observables=False, append_observables=False, separate_observables=False,
                       bit_packed=False, dets_out=None, obs_out=None):
                me.used += 1
                me.asked.append(shots)
                d, o = me.rows
                d, o = np.array(d, dtype=np.bool_), np.array(o, dtype=np.bool_)
                assert len(d) == shots

                def pk(x):
                    return np.packbits(x, axis=1, bitorder="little") if bit_packed else x
                if separate_observables:
                    if dets_out is not None:
                        dets_out[...] = pk(d)
                    if obs_out is not None:
                        obs_out[...] = pk(o)
                    return pk(d), pk(o)
                parts = ([o] if prepend_observables else []) + [d] + ([o] if append_observables else [])
                return pk(np.concatenate(parts, axis=1))

        def patched(circuit, *a, **k):
            return Sampler(me.orig(circuit, *a, **k))
        stim.Circuit.compile_detector_sampler = patched

    def remove(self):
        stim.Circuit.compile_detector_sampler = self.orig


def mk(nd, no, p=(0.02, 0.05, 0.11)):
    """Small model without ties: chain of detectors with boundary edges at both ends."""
    mechs = []
    if nd:
        mechs.append((p[0], (0,), (0,) if no > 0 else ()))
        for k in range(nd - 1):
            mechs.append((p[1] + 0.003 * k, (k, k + 1), (1,) if no > 1 and k == 0 else ()))
        mechs.append((p[2], (nd - 1,), (2,) if no > 2 else ()))
    return mechs


def predictions_of(mechs, nd, no):
    g, _, _, _ = refdem.edges(circuit_for(mechs, nd, no).detector_error_model(decompose_errors=True)) if nd + no else ({}, 0, 0, 0)
    best = best_predictions(g, nd, no)
    out = {}
    for s, (w, fs) in best.items():
        assert len(fs) == 1, "tie in the chosen model"
        out[s] = next(iter(fs))
    return out


def items(tier):
    th = tier == "thorough"
    out = []
    for nd, no in ((0, 0), (0, 1), (1, 0), (1, 1), (2, 1), (2, 2), (1, 3)):
        for shots in (0, 1, 2, 3) + ((4,) if th else ()):
            if (1 << (nd + no)) ** shots <= (70000 if th else 5000):
                out.append(["match", nd, no, shots])
    out.append(["match-large"])
    out.append(["model"])
    for nd, no, shots in ((1, 0, 1), (1, 0, 2), (1, 1, 1), (2, 1, 1), (2, 2, 1), (3, 3, 1), (1, 1, 2), (0, 1, 2)):
        out.append(["ext", nd, no, shots, None])
    for first in range(8):
        out.append(["ext", 1, 1, 3, first])
    for first in range(16):
        out.append(["ext", 2, 1, 2, first])
    for f in FAILS:
        out.append(["fail", f])
    out += [["wide", nd, no] for nd, no in ((70, 1), (257, 9), (520, 33), (1100, 70)) + (((4200, 130),) if th else ())]
    out.append(["paths"])
    out.append(["unknown"])
    out += [["real", k] for k in range(4)]
    if th:
        for first in range(64):
            out.append(["ext", 2, 2, 2, first])
    return out


class Scratch:
    def __enter__(self):
        self.cwd = os.getcwd()
        self.root = tempfile.mkdtemp(prefix="mc_c15_")
        self.inner = os.path.join(self.root, "outer", "inner")
        self.ctl = os.path.join(self.root, "ctl")
        os.makedirs(self.inner)
        os.makedirs(self.ctl)
        os.chdir(self.inner)
        return self

    def __exit__(self, *a):
        os.chdir(self.cwd)
        shutil.rmtree(self.root, ignore_errors=True)

    def stub(self, rel="internal_decoder.binary", mode=0o755):
        path = os.path.join(self.inner, rel)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            f.write(STUB % self.ctl)
        os.chmod(path, mode)
        return path

    def put(self, name, text):
        with open(os.path.join(self.ctl, name), "w") as f:
            f.write(text)

    def get(self, name):
        p = os.path.join(self.ctl, name)
        return open(p).read() if os.path.exists(p) else None

    def clear(self):
        for n in os.listdir(self.ctl):
            os.remove(os.path.join(self.ctl, n))
        for n in os.listdir(self.inner):
            if n.startswith("repro"):
                os.remove(os.path.join(self.inner, n))


def parse_dets(text):
    out = []
    for line in text.splitlines():
        if not line.strip():
            continue
        w = line.split()
        if w[0] != "shot" or any(not x.startswith("D") for x in w[1:]):
            raise Violation(f"malformed line {line!r} in the shots file")
        out.append(sorted(int(x[1:]) for x in w[1:]))
    return out


def same_model(text, want, case):
    got = stim.DetectorErrorModel(text)
    check(got == want or got.approx_equals(want, atol=1e-12), lambda: f"the decoder was given the error model {text!r}, expected {str(want)!r}", case)


def check_command(s, correlated, want_dem, d, case):
    argv = s.get("argv")
    check(argv is not None, "the external decoder was not run", case)
    argv = argv.split("\n")[:-1]
    check((s.get("calls") or "").count("x") == 1, "the external decoder was run more than once", case)
    opts = {}
    flags = set()
    i = 0
    while i < len(argv):
        if argv[i] in ("-mode", "-dem_fname", "-dets_fname", "-out") and i + 1 < len(argv):
            opts[argv[i]] = argv[i + 1]
            i += 2
        else:
            flags.add(argv[i])
            i += 1
    check(opts.get("-mode") == "fi_match_from_dem", lambda: f"mode option is {opts.get('-mode')}", case)
    want = {"-ignore_distance_1_errors"} | ({"-cheap_corr", "-edge_corr", "-node_corr"} if correlated else set())
    check(flags == want, lambda: f"decoder options are {sorted(flags)}, expected {sorted(want)}", case)
    same_model(s.get("dem"), want_dem, case)
    got = parse_dets(s.get("dets"))
    exp = [[k for k, b in enumerate(r) if b] for r in d]
    check(got == exp, lambda: f"the decoder was given the events {got}, expected {exp}", case)


def lines(pred, no):
    return ["".join(str(b) for b in p) + "\n" for p in pred]


def call(circuit, shots, decoder, model=None):
    import decoding
    kw = {} if model is None else {"model_circuit": model}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return decoding.sample_decode_count_correct(circuit=circuit, num_shots=shots, decoder=decoder, **kw)


def run_match(item, script):
    _, nd, no, shots = item
    mechs = mk(nd, no)
    c = circuit_for(mechs, nd, no) if nd + no else stim.Circuit("M 0")
    best = predictions_of(mechs, nd, no)
    syn = sorted(best)
    st = nt = skipped = 0
    pats = [(s, o) for s in syn for o in range(1 << no)]
    for combo in itertools.product(pats, repeat=shots):
        script.rows = (np.zeros((shots, nd), dtype=bool), np.zeros((shots, no), dtype=bool))
        for k, (s, o) in enumerate(combo):
            script.rows[0][k] = bits(s, nd)
            script.rows[1][k] = bits(o, no)
        script.used = 0
        got = call(c, shots, "pymatching")
        if not script.used:
            skipped += 1
            continue
        want = sum(best[s] == o for s, o in combo)
        check(got == want and 0 <= got <= shots, lambda: f"{got} of {shots} shots counted as correct, expected {want}",
              {"mechanisms": str(mechs), "shots": [(bits(s, nd), bits(o, no)) for s, o in combo]})
        st += shots
        nt += any(s or o for s, o in combo)
    return st, nt, skipped, {"detectors": nd, "observables": no, "shots": shots}


def run_match_large(script):
    """Batches of many shots cycling through all patterns, at all phases."""
    nd, no = 2, 2
    mechs = mk(nd, no)
    c = circuit_for(mechs, nd, no)
    best = predictions_of(mechs, nd, no)
    pats = [(s, o) for s in sorted(best) for o in range(4)]
    st = sk = 0
    for n in (7, 8, 9, 15, 16, 17, 31, 63, 64, 65, 100, 255, 256, 257, 1000, 1023, 1024, 1025, 2500):
        for phase in range(0, 16, 5 if n > 100 else 1):
            seq = [pats[(phase + k * 7) % len(pats)] for k in range(n)]
            script.rows = ([bits(s, nd) for s, o in seq], [bits(o, no) for s, o in seq])
            script.used = 0
            got = call(c, n, "pymatching")
            if not script.used:
                sk += 1
                continue
            want = sum(best[s] == o for s, o in seq)
            check(got == want, lambda: f"{got} of {n} shots counted as correct, expected {want}", {"phase": phase})
            st += n
    return st, st, sk, {"largest batch": 2500}


def run_model(script):
    """The error model circuit may differ from the sampled circuit."""
    nd, no = 2, 1
    st = sk = 0
    a = mk(nd, no, (0.02, 0.05, 0.11))
    b = [(0.3, (0,), (0,)), (0.01, (0, 1), ()), (0.001, (1,), ())]
    for sampled, model in ((a, b), (b, a)):
        cs, cm = circuit_for(sampled, nd, no), circuit_for(model, nd, no)
        best = predictions_of(model, nd, no)
        for s in range(4):
            for o in range(2):
                script.rows = ([bits(s, nd)], [bits(o, no)])
                script.used = 0
                got = call(cs, 1, "pymatching", cm)
                if script.used:
                    check(got == (best[s] == o), "the model circuit is not used for decoding", {"sampled": str(sampled), "model": str(model)})
                    st += 1
                else:
                    sk += 1
    for bad in (circuit_for([], 3, 1), circuit_for([], 2, 2), circuit_for([], 1, 1)):
        script.rows = ([[0, 0]], [[0]])
        try:
            call(circuit_for(a, 2, 1), 1, "pymatching", bad)
        except Exception:
            st += 1
            continue
        raise Violation("a model circuit with different detectors or observables was accepted", {"model": str(bad)})
    return st, st, sk, {"model": str(b)}


def run_ext(item, script):
    _, nd, no, shots, first = item
    mechs = mk(nd, no)
    c = circuit_for(mechs, nd, no)
    other = circuit_for(mk(nd, no, (0.07, 0.013, 0.2)), nd, no)
    per = [(s, o, f) for s in range(1 << nd) for o in range(1 << no) for f in range(1 << no)]
    st = nt = sk = 0
    with Scratch() as s:
        s.stub()
        combos = itertools.product(per, repeat=shots) if first is None else (
            (per[first],) + r for r in itertools.product(per, repeat=shots - 1))
        for n, combo in enumerate(combos):
            decoder = "internal" if n % 2 == 0 else "internal_correlated"
            model = None if n % 3 else other
            s.clear()
            s.put("mode", 'cat "$d/pred" > "$out"\n')
            s.put("pred", "".join(lines([bits(f, no) for _, _, f in combo], no)))
            script.rows = ([bits(x, nd) for x, _, _ in combo], [bits(o, no) for _, o, _ in combo])
            script.used = 0
            case = {"decoder": decoder, "shots (events, observables, predictions)": [(bits(x, nd), bits(o, no), bits(f, no)) for x, o, f in combo]}
            got = call(c, shots, decoder, model)
            if not script.used:
                sk += 1
                continue
            want = sum(o == f for _, o, f in combo)
            check(got == want, lambda: f"{got} of {shots} shots counted as correct, expected {want}", case)
            check_command(s, decoder != "internal", (model or c).detector_error_model(decompose_errors=True), script.rows[0], case)
            st += shots
            nt += any(x or o or f for x, o, f in combo)
    return st, nt, sk, {"detectors": nd, "observables": no, "shots": shots}


def run_fail(item, script):
    mode, fn, proc = FAILS[item[1]]
    st = sk = 0
    with Scratch() as s:
        s.stub()
        for decoder in ("internal", "internal_correlated"):
            for nd, no in ((1, 1), (2, 2), (2, 3)):
                mechs = mk(nd, no)
                c = circuit_for(mechs, nd, no)
                for shots in (1, 2, 3, 5):
                    for pat in range(4):
                        d = [bits((k * 3 + pat) % (1 << nd), nd) for k in range(shots)]
                        o = [bits((k + pat) % (1 << no), no) for k in range(shots)]
                        ls = lines(o, no)
                        text = None if fn is None else fn(ls)
                        if text is not None and not proc and "".join(text) == "".join(ls):
                            continue
                        if item[1] == "joined-lines" and shots == 1:
                            continue
                        s.clear()
                        s.put("mode", mode + "\n")
                        if text is not None:
                            s.put("pred", "".join(text))
                        script.rows = (d, o)
                        script.used = 0
                        case = {"failure": item[1], "decoder": decoder, "events": d, "observables": o}
                        try:
                            got = call(c, shots, decoder)
                        except Exception:
                            pass
                        else:
                            raise Violation(f"a failing external decoder gave the result {got}", case)
                        if proc and script.used:
                            names = {n for n in os.listdir(s.inner) if n.startswith("repro")}
                            check({"repro.dem", "repro.dets", "repro.stim"} <= names, lambda: f"reproduction files are {sorted(names)}", case)
                            same_model(open("repro.dem").read(), c.detector_error_model(decompose_errors=True), case)
                            got = parse_dets(open("repro.dets").read())
                            check(got == [[k for k, b in enumerate(r) if b] for r in d], lambda: f"reproduction has the events {got}", case)
                            check(stim.Circuit(open("repro.stim").read()) == c, "reproduction has a different circuit", case)
                        # and the next, healthy batch is unaffected
                        s.put("mode", 'cat "$d/pred" > "$out"\n')
                        s.put("pred", "".join(ls))
                        script.used = 0
                        got = call(c, shots, decoder)
                        check(not script.used or got == shots, lambda: f"after a failure, {got} of {shots} correct shots counted", case)
                        st += 2 * shots
    return st, st, sk, {"failure": item[1]}


def run_wide(item, script):
    """Every single detector, every single observable and all-ones/every-other patterns of wide circuits and long batches."""
    _, nd, no = item
    mechs = [(0.01, (k,), (k,) if k < no else ()) for k in range(max(nd, no))]
    c = circuit_for(mechs, nd, no)
    dem = c.detector_error_model(decompose_errors=True)
    st = sk = 0
    ev = [[k] for k in range(nd)] + [list(range(nd)), [], list(range(0, nd, 2)), list(range(nd - 1, 0, -7))]
    wrong = [[], [0], [no - 1], list(range(no))] + [[k] for k in range(1, no)]
    with Scratch() as s:
        s.stub()
        for decoder in ("pymatching", "internal", "internal_correlated"):
            for shift in (0, 1, 2):
                d = np.zeros((len(ev), nd), dtype=bool)
                o = np.zeros((len(ev), no), dtype=bool)
                f = np.zeros((len(ev), no), dtype=bool)
                for i, e in enumerate(ev):
                    d[i, e] = True
                    f[i, [k for k in e if k < no]] = True
                    o[i] = f[i]
                    o[i, wrong[(i + shift) % len(wrong)]] ^= True
                s.clear()
                s.put("mode", 'cat "$d/pred" > "$out"\n')
                s.put("pred", "".join(lines(f.astype(int).tolist(), no)))
                script.rows = (d, o)
                script.used = 0
                case = {"decoder": decoder, "detectors": nd, "observables": no, "shots": len(ev), "shift": shift}
                got = call(c, len(ev), decoder)
                if not script.used:
                    sk += 1
                    continue
                want = int((f == o).all(axis=1).sum())
                check(got == want, lambda: f"{got} of {len(ev)} shots counted as correct, expected {want}", case)
                if decoder != "pymatching":
                    check_command(s, decoder != "internal", dem, d.astype(int).tolist(), case)
                st += len(ev)
    return st, st, sk, {"detectors": nd, "observables": no}


def run_paths(script):
    st = 0
    c = circuit_for(mk(1, 1), 1, 1)
    places = ["internal_decoder.binary", "src/internal_decoder.binary", "../internal_decoder.binary"]
    for subset in itertools.product((0, 1), repeat=3):
        for decoder in ("internal", "internal_correlated"):
            with Scratch() as s:
                for use, rel in zip(subset, places):
                    if use:
                        s.stub(rel)
                s.put("mode", 'cat "$d/pred" > "$out"\n')
                s.put("pred", "1\n")
                script.rows = ([[1]], [[1]])
                script.used = 0
                case = {"decoder present at": [r for u, r in zip(subset, places) if u]}
                try:
                    got = call(c, 1, decoder)
                except Exception:
                    check(not any(subset), "the external decoder was not found", case)
                    st += 1
                    continue
                check(any(subset), lambda: f"without an external decoder the result is {got}", case)
                check(not script.used or got == 1, "wrong count", case)
                st += 1
    for mode in (0o644, 0o000):
        with Scratch() as s:
            s.stub(mode=mode)
            s.put("mode", 'cat "$d/pred" > "$out"\n')
            s.put("pred", "1\n")
            try:
                got = call(c, 1, "internal")
            except Exception:
                st += 1
            else:
                raise Violation(f"a decoder that cannot be executed gave the result {got}", {"mode": oct(mode)})
    return st, st, 0, {"places": places}


def run_unknown(script):
    st = 0
    c = circuit_for(mk(1, 1), 1, 1)
    script.rows = ([[0]], [[0]])
    with Scratch() as s:
        s.stub()
        s.put("mode", 'cat "$d/pred" > "$out"\n')
        s.put("pred", "0\n")
        for name in ("", "Pymatching", "pymatching2", "internal_corr", "mwpm", "internal ", None, "pymatching_correlated", "correlated"):
            try:
                got = call(c, 1, name)
            except Exception:
                st += 1
            else:
                raise Violation(f"unknown decoder {name!r} gave the result {got}")
    return st, st, 0, {}


def run_real(item):
    """Unpatched sampler; the sampled circuit's errors happen with probability 0 or 1."""
    k = item[1]
    st = nt = 0
    families = [(2, 2), (3, 3), (3, 1), (1, 1)]
    nd, no = families[k]
    mechs = mk(nd, no)
    model = circuit_for(mechs, nd, no)
    best = predictions_of(mechs, nd, no)
    with Scratch() as s:
        s.stub()
        for on in itertools.product((0, 1), repeat=len(mechs)):
            c = circuit_for([(b, d, o) for b, (_, d, o) in zip(on, mechs)], nd, no)
            syn = obs = 0
            for b, (_, d, o) in zip(on, mechs):
                if b:
                    for x in d:
                        syn ^= 1 << x
                    for x in o:
                        obs ^= 1 << x
            for shots in (1, 2, 5, 64, 300):
                case = {"errors that happen": [str(m[1:]) for b, m in zip(on, mechs) if b], "shots": shots}
                got = call(c, shots, "pymatching", model)
                want = shots if best[syn] == obs else 0
                check(got == want, lambda: f"{got} of {shots} shots counted as correct, expected {want}", case)
                st += shots
                nt += any(on)
                if shots <= 5:
                    for f in range(1 << no):
                        s.clear()
                        s.put("mode", 'cat "$d/pred" > "$out"\n')
                        s.put("pred", "".join(lines([bits(f if i % 2 == 0 else obs, no) for i in range(shots)], no)))
                        got = call(c, shots, "internal", model)
                        want = sum((f if i % 2 == 0 else obs) == obs for i in range(shots))
                        check(got == want, lambda: f"{got} of {shots} shots counted as correct with predictions {f}, expected {want}", case)
                        check_command(s, False, model.detector_error_model(decompose_errors=True), [bits(syn, nd)] * shots, case)
                        st += shots
    return st, nt, 0, {"mechanisms": str(mechs)}


def run_item(item):
    script = Script()
    kind = item[0]
    if kind == "real":
        st, nt, sk, sample = run_real(item)
    else:
        script.install()
        try:
            if kind == "match":
                st, nt, sk, sample = run_match(item, script)
            elif kind == "match-large":
                st, nt, sk, sample = run_match_large(script)
            elif kind == "model":
                st, nt, sk, sample = run_model(script)
            elif kind == "ext":
                st, nt, sk, sample = run_ext(item, script)
            elif kind == "fail":
                st, nt, sk, sample = run_fail(item, script)
            elif kind == "wide":
                st, nt, sk, sample = run_wide(item, script)
            elif kind == "paths":
                st, nt, sk, sample = run_paths(script)
            elif kind == "unknown":
                st, nt, sk, sample = run_unknown(script)
        finally:
            script.remove()
    return dict(states=st, transitions=st, evaluations=st, distinct_nontrivial=nt, traces_validated_against_impl=st, sampler_not_used=sk, sample=sample)
