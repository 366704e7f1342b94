"""C08: answers depend on the arguments only, not on history, order or process."""
import hashlib
import itertools
import json
import os
import subprocess
import sys

from mc.core import Violation, check, REPO, ROOT

RULE = ("all sequences of actions (layout x query, noise model x strength x circuit) up to the depth bound, each run in a "
        "process forked from a pristine state, plus one long history that contains every ordered pair of actions "
        "consecutively; every answer must equal the answer of the same action in a fresh process; plus several hash "
        "seeds; states = histories, transitions = actions executed; non-trivial: history with at least two actions")
ASSUMPTIONS = ["an answer is summarised by a digest of its complete printed form"]
BOUNDS = {
    "quick": "all pairs over 52 layout, 12 problem and 102 noise actions, all triples over 14 circuit/geometry actions; "
             "4 hash seeds",
    "thorough": "additionally all triples over 26 actions and quadruples over 8; 10 hash seeds",
}

BASE = dict(data_width=4, data_height=6, sub_rounds=12, style="SD6", obs="H", noise=0.001)
VARIANTS = [{}, {"data_width": 2}, {"data_height": 12}, {"sub_rounds": 15}, {"style": "PC3"}, {"style": "EM3"},
            {"style": "EM3_v2"}, {"style": "SI1000"}, {"obs": "V"}, {"noise": 0.002}, {"noise": 0},
            {"style": "EM3", "noise": 0.002}, {"style": "EM3_v2", "obs": "V"},
            {"noise": 1e-7}, {"noise": 3e-7}, {"noise": 0.0010000001}, {"data_width": 12, "data_height": 6, "obs": "V"}]
QUERIES = ["circuit", "geometry", "reverse_geometry", "desc"]
PROBLEMS = [["L", i, "problem"] for i in (0, 1, 4, 6, 7, 8, 9, 10)]
MODELS = ["SD6", "PC3", "EM3_v1", "EM3_v2", "SI1000"]
CIRCS = {
    "a": "R 0 1 2\nTICK\nH 0 1\nTICK\nM 0 1 2\nDETECTOR(0, 1) rec[-1]",
    "b": "R 0 1\nTICK\nREPEAT 3 {\n    H 1\n    TICK\n    M 0\n    SHIFT_COORDS(0, 1)\n    TICK\n}\nM 1",
    "c": "R 3\nTICK\nI 0\nTICK\nM 1 2\nOBSERVABLE_INCLUDE(1) rec[-1]",
    "d": "R 0 1 2\nTICK\nMPP X0*X1 Z0*Z2\nTICK\nMPP Y1*Y2\nTICK\nM 0 1 2",
}


def layout_actions():
    return [["L", i, q] for i in range(len(VARIANTS)) for q in QUERIES]


def problem_actions():
    return PROBLEMS + [[*a[:2], "circuit"] for a in PROBLEMS[::2]]


def noise_actions():
    return [["N", m, p, c] for m in MODELS for p in (0, 0.001, 0.002, 1e-7, 3e-7, 0.0010000001) for c in "abcd"
            if not (c == "d" and not m.startswith("EM3"))]


def t(z):
    return [z.real, z.imag]


def geometry(L, order):
    names = ["data_qubit_indices_1st", "data_qubit_indices_2nd", "data_qubit_coords", "measure_qubit_coords",
             "measure_qubit_indices", "data_qubit_indices", "used_qubit_coords", "used_qubit_indices", "num_qubits", "q2i",
             "coord_width", "coord_height", "obs_h_edges", "obs_h_qubits", "obs_v_edges", "obs_v_qubits", "obs_index",
             "obs_edges", "obs_qubits", "all_edges", "tile_width", "tile_height", "code_distance_1qdep"]
    calls = [("round_edges", r) for r in (0, 1, 2, 3, 4, 5)] + [("round_hex_centers", r) for r in (0, 1, 2)] + \
            [("obs_h_before_sub_round", r) for r in range(7)] + [("obs_v_before_sub_round", r) for r in range(7)] + \
            [("obs_before_sub_round", r) for r in range(7)]
    todo = [(n, None) for n in names] + calls
    if order < 0:
        todo = todo[::-1]
    out = {}
    for n, a in todo:
        v = getattr(L, n)
        if a is not None:
            v = v(a)
        text = out[f"{n}/{a}"] = repr(v)
        # and a second time
        w = getattr(L, n)
        if a is not None:
            w = w(a)
        if repr(w) != text:
            return "answer changed between two consecutive reads of " + n
    return json.dumps(out, sort_keys=True)


def perform(a):
    """Executes the action on the real code and returns its answer as text."""
    import stim
    if a[0] == "L":
        from honeycomb_layout import HoneycombLayout
        kw = {**BASE, **VARIANTS[a[1]]}
        L = HoneycombLayout(**kw)
        q = a[2]
        if q == "circuit":
            c = L.make_circuit()
            r = str(c)
            scribble(c)     # the caller owns what it was given
        elif q == "geometry":
            r = geometry(L, 1)
        elif q == "reverse_geometry":
            r = geometry(L, -1)
        elif q == "problem":
            d = L.as_decoder_problem("internal")
            a, b = d.circuit_maker(), d.circuit_maker()
            r = str(a)
            scribble(a)
            r += repr(d.desc) + str(b == d.circuit_maker())
        else:
            d = L.as_decoder_problem_desc("pymatching")
            r = repr(d) + L.legend_label() + repr(L.noise_model)
        twin = HoneycombLayout(**kw)
        if L != twin or hash(L) != hash(twin) or any(getattr(L, k) != v for k, v in kw.items()):
            return "layout was changed by " + q
        return r
    from noise import NoiseModel
    c = stim.Circuit(CIRCS[a[3]])
    before = str(c)
    m = getattr(NoiseModel, a[1])(a[2])
    out = None
    try:
        noisy = m.noisy_circuit(c)
        out = str(noisy)
        scribble(noisy)
    except NotImplementedError:
        out = "refused"
    if str(c) != before:
        return "input circuit was changed"
    if m != getattr(NoiseModel, a[1])(a[2]):
        return "noise model was changed"
    return out


def canonical(a):
    if a[0] == "L" and a[2] == "reverse_geometry":
        return ["L", a[1], "geometry"]
    return a


def scribble(c):
    """The caller changes a circuit it was given."""
    c.append("TICK", [])
    c.append("H", [0])
    c.clear()


def dig(s):
    return hashlib.sha1(s.encode()).hexdigest()


def in_fork(fn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            out = json.dumps(fn())
        except Violation as v:
            out = json.dumps({"violation": v.message, "case": v.case})
        except BaseException as ex:
            out = json.dumps({"error": f"{type(ex).__name__}: {ex}"})
        try:
            with os.fdopen(w, "w") as f:
                f.write(out)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        s = f.read()
    os.waitpid(pid, 0)
    return json.loads(s) if s else {"error": "child died"}


EXPECT = {}


def prepare():
    # load (but do not use) the code, so that forked processes start pristine
    import stim, honeycomb_layout, honeycomb_circuit, noise, decoding, collect_data  # noqa
    for a in layout_actions() + noise_actions() + PROBLEMS:
        if canonical(a) == a:
            r = in_fork(lambda: {"d": dig(perform(a)), "s": perform(a)[:60]})
            if "error" in r:
                raise Violation(f"action {a} fails: {r['error']}", a)
            EXPECT[json.dumps(a)] = r["d"]
            for bad in ("layout was changed", "input circuit was changed", "noise model was changed", "answer changed"):
                if r["s"].startswith(bad):
                    raise Violation(f"{bad} by {a}", a)


def expect(a):
    return EXPECT[json.dumps(canonical(a))]


def small_alphabet(k):
    pick = [["L", 0, "circuit"], ["L", 1, "geometry"], ["L", 2, "circuit"], ["L", 4, "circuit"], ["L", 6, "circuit"],
            ["L", 9, "circuit"], ["L", 8, "geometry"], ["L", 7, "circuit"], ["L", 3, "circuit"], ["L", 5, "geometry"],
            ["L", 10, "circuit"], ["L", 12, "circuit"], ["N", "SD6", 0.002, "a"], ["N", "EM3_v2", 0.001, "d"],
            ["L", 1, "circuit"], ["L", 11, "circuit"], ["L", 0, "geometry"], ["L", 2, "geometry"], ["L", 8, "circuit"],
            ["N", "SI1000", 0.001, "b"], ["N", "EM3_v1", 0.001, "d"], ["L", 0, "desc"], ["L", 9, "desc"], ["L", 5, "circuit"],
            ["L", 6, "geometry"], ["L", 3, "geometry"]]
    return pick[:k]


def items(tier):
    th = tier == "thorough"
    out = [["tree", [a], "layout", 2] for a in layout_actions()]
    out += [["tree", [a], "problem", 2] for a in problem_actions()]
    na = noise_actions()
    out += [["tree", [a], "noise", 2] for a in na]
    k = 26 if th else 14
    out += [["tree", [a], f"small{k}", 3] for a in small_alphabet(k)]
    if th:
        out += [["tree", [a, b], "small8", 4] for a in small_alphabet(8) for b in small_alphabet(8)]
    out += [["long", s] for s in range(8)]
    out += [["hash", s] for s in ((1, 2, 3, 4, 5, 6, 7, 8, 9, 12345) if th else (1, 2, 3, 12345))]
    return out


def alphabet(name):
    if name == "layout":
        return layout_actions()
    if name == "problem":
        return problem_actions()
    if name == "noise":
        return noise_actions()
    return small_alphabet(int(name[5:]))


def explore(hist, done, alpha, depth):
    """DFS; this process has executed hist[:done].  Returns (states, transitions)."""
    states = trans = 0
    while done < len(hist):
        a = hist[done]
        r = dig(perform(a))
        if r != expect(a):
            raise Violation("an answer depends on what was asked before: " + json.dumps(a), {"history": hist[:done + 1]})
        done += 1
        trans += 1
    states += 1
    if len(hist) < depth:
        last = len(hist) + 1 == depth
        for b in alpha:
            r = in_fork(lambda: explore(hist + [b], done, alpha, depth))
            if isinstance(r, dict):
                if "violation" in r:
                    raise Violation(r["violation"], r["case"])
                raise Violation("failure after a history: " + r["error"], {"history": hist + [b]})
            states += r[0]
            trans += r[1]
    return [states, trans]


def euler(actions, shift):
    """A closed walk containing every ordered pair of actions consecutively (incl. repeats)."""
    n = len(actions)
    nxt = {i: [(i + shift + k) % n for k in range(n)] for i in range(n)}
    stack, path = [0], []
    while stack:
        v = stack[-1]
        if nxt[v]:
            stack.append(nxt[v].pop())
        else:
            path.append(stack.pop())
    return [actions[i] for i in path[::-1]]


def hash_digest():
    out = {}
    for a in layout_actions() + noise_actions() + PROBLEMS:
        out[json.dumps(a)] = dig(perform(a))
    return out


def run_item(item):
    if item[0] == "tree":
        st, tr = 0, 0
        r = in_fork(lambda: explore(item[1], 0, alphabet(item[2]), item[3]))
        if isinstance(r, dict):
            raise Violation(r.get("violation") or r["error"], r.get("case"))
        return dict(states=r[0], transitions=r[1], evaluations=r[0], distinct_nontrivial=r[0] - 1,
                    traces_validated_against_impl=r[0], sample={"root": item[1], "histories": r[0]})
    if item[0] == "long":
        acts = [layout_actions(), noise_actions()][item[1] % 2]
        if item[1] % 2 == 0:
            # split the layout pairs over four walks
            acts = [a for a in acts if a[2] in ("circuit", "geometry")] if item[1] < 4 else acts[::2]
        walk = euler(acts, item[1] // 2)

        def go():
            for i, a in enumerate(walk):
                if dig(perform(a)) != expect(a):
                    raise Violation("an answer depends on a long history: " + json.dumps(a), {"last": walk[max(0, i - 8):i + 1],
                                                                                              "steps": i + 1})
            return [1, len(walk)]
        r = in_fork(go)
        if isinstance(r, dict):
            raise Violation(r.get("violation") or r["error"], r.get("case"))
        return dict(states=1, transitions=r[1], evaluations=1, distinct_nontrivial=1, traces_validated_against_impl=1)
    env = dict(os.environ, PYTHONHASHSEED=str(item[1]))
    p = subprocess.run([sys.executable, "-c", "import json, mc.checks.c08 as m; print(json.dumps(m.hash_digest()))"],
                       env=env, cwd=str(ROOT), capture_output=True, text=True)
    check(p.returncode == 0, "fails under hash seed %s: %s" % (item[1], p.stderr[-300:]))
    got = json.loads(p.stdout.strip().splitlines()[-1])
    for a in layout_actions() + noise_actions() + PROBLEMS:
        check(got[json.dumps(a)] == expect(a), f"answer depends on the process (hash seed {item[1]}): {a}", a)
    return dict(states=1, transitions=len(got), evaluations=1, distinct_nontrivial=1, traces_validated_against_impl=1, hash_seeds=1)
