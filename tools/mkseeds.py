"""Generates /verif/seeded/<id>/ from seeds_*.py (lists of dicts) and verifies each in a scratch copy.

    python3 tools/mkseeds.py [id ...]      (re)build and verify; prints one line per bug
Verification: patch applies, stable tests pass, demo 0 without / nonzero with the patch, then which check fires.
"""
import concurrent.futures, importlib, json, os, pathlib, shutil, subprocess, sys, textwrap
ROOT = pathlib.Path(__file__).resolve().parents[1]
sys.path.insert(0, str(ROOT / "tools"))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", MPLCONFIGDIR="/opt/venv/mplconfig",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONPYCACHEPREFIX="/nonexistent/x")
DEMO = '''#!/bin/bash
# cwd: the repository.  Exit 0 when the property holds in this scenario.
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
exec timeout 250 /opt/venv/bin/python "$here/demo.py"
'''


def seeds():
    out = {}
    for f in sorted((ROOT / "tools").glob("seeds_*.py")):
        for s in importlib.import_module(f.stem).SEEDS:
            assert s["id"] not in out, s["id"]
            out[s["id"]] = s
    return out


def build(s, work):
    shutil.rmtree(work, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", str(work)], check=True)
    for f, old, new in s["edits"]:
        p = work / f
        t = p.read_text()
        assert t.count(old) == 1, (s["id"], f, t.count(old), old)
        p.write_text(t.replace(old, new))
    d = ROOT / "seeded" / s["id"]
    d.mkdir(parents=True, exist_ok=True)
    diff = subprocess.run(["git", "-C", str(work), "diff"], capture_output=True, text=True, check=True).stdout
    assert diff
    (d / "patch.diff").write_text(diff)
    (d / "demo.sh").write_text(DEMO)
    os.chmod(d / "demo.sh", 0o755)
    (d / "demo.py").write_text(textwrap.dedent(s["demo"]).lstrip())
    (d / "meta.json").write_text(json.dumps({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n")
    return d


def tests(work):
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    sh = open("/opt/vp/test.sh").read().replace("/repo", str(work)).replace("-n 8", "-n 4")
    out = work.parent / (work.name + ".json")
    subprocess.run(["bash", "-c", sh, "x", str(out)], capture_output=True)
    r = json.load(open(out))
    os.remove(out)
    return sorted(base - set(r["passed"]))


def demo(d, cwd):
    return subprocess.run(["bash", str(d / "demo.sh")], cwd=cwd, env=ENV, capture_output=True, text=True, timeout=300)


def verify(s):
    work = pathlib.Path("/tmp/seedwork") / s["id"]
    work.parent.mkdir(exist_ok=True)
    try:
        d = build(s, work)
        a = demo(d, "/repo")
        b = demo(d, work)
        msg = []
        if a.returncode != 0:
            msg.append("DEMO FAILS UNCHANGED: " + a.stderr[-400:])
        if b.returncode == 0:
            msg.append("DEMO PASSES PATCHED")
        lost = tests(work)
        if lost:
            msg.append(f"TESTS LOST {len(lost)}: {lost[:2]}")
        res = []
        for p in [s["property"]] + s.get("also", []):
            env = dict(ENV, VERIF_REPO=str(work), VERIF_JOBS="4", VERIF_EVID="/tmp/seedwork/evid_" + s["id"])
            env.pop("PYTHONPYCACHEPREFIX")
            r = subprocess.run(["./run", p, "quick"], cwd=ROOT, env=env, capture_output=True, text=True)
            first = r.stdout.strip().splitlines()[0][:160] if r.stdout.strip() else r.stderr[-200:]
            res.append(f"{p}:{'CAUGHT' if r.returncode == 1 and f'VIOLATION property={p}' in r.stdout else 'MISSED' if r.returncode == 0 else 'ERR'} {first}")
        return s["id"], msg, res
    finally:
        shutil.rmtree(work, ignore_errors=True)
        shutil.rmtree("/tmp/seedwork/evid_" + s["id"], ignore_errors=True)


if __name__ == "__main__":
    S = seeds()
    ids = sys.argv[1:] or list(S)
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        for i, msg, res in ex.map(verify, [S[i] for i in ids]):
            print(i, "| " + "; ".join(msg) if msg else "| ok", "|", " ; ".join(res), flush=True)
