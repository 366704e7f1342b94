"""Exploration driver shared by all checks.

A check module (mc/checks/cXX.py) defines

    RULE          one sentence: what is enumerated and when an element is non-trivial
    ASSUMPTIONS   list of strings
    items(tier)   -> list of JSON-able work items, simplest first (the complete bounded space)
    run_item(it)  -> dict of measured counters (summed over items) plus optional "sample";
                     raises Violation(message, case) if the property is broken

run_item is executed in forked workers; each item is explored completely.
"""
import importlib
import json
import os
import pathlib
import resource
import select
import signal
import sys
import time
import traceback

ROOT = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
EVID = pathlib.Path(os.environ.get("VERIF_EVID", ROOT / "evidence"))
COUNTERS = ("states", "transitions", "traces_validated_against_impl", "evaluations", "distinct_nontrivial")


class Violation(Exception):
    def __init__(self, message, case=None):
        super().__init__(message)
        self.message = message
        self.case = case


class ItemTimeout(BaseException):
    pass


class SoftStop(BaseException):
    pass


def check(cond, message, case=None):
    if not cond:
        raise Violation(message if isinstance(message, str) else message(), case)


def _alarm(*_):
    raise ItemTimeout()


def _describe(ex):
    tb = traceback.extract_tb(ex.__traceback__)
    frames = [f"{os.path.relpath(f.filename, '/')}:{f.lineno} in {f.name}" for f in tb[-6:]]
    return f"{type(ex).__name__}: {ex}" + " [" + " <- ".join(reversed(frames)) + "]"


def _run_one(mod, item, timeout):
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(timeout))
    try:
        res = mod.run_item(item)
        return {"ok": True, "res": res or {}}
    except Violation as v:
        return {"ok": False, "message": v.message, "case": v.case}
    except ItemTimeout:
        return {"ok": False, "message": f"no answer within {timeout} s (item normally takes seconds)", "case": None}
    except MemoryError:
        return {"ok": False, "message": "memory exhausted while handling this item", "case": None}
    except Exception as ex:  # the code under test failed on a supported input
        return {"ok": False, "message": "exception on a supported input: " + _describe(ex), "case": None}
    finally:
        signal.alarm(0)


class Worker:
    def __init__(self, mod, timeout):
        pr, cw = os.pipe()
        cr, pw = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(pr), os.close(pw)
            try:
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                # Whatever the code under test prints must not mix with verdict lines.
                devnull = os.open(os.devnull, os.O_RDWR)
                os.dup2(devnull, 0), os.dup2(devnull, 1)
                if not os.environ.get("VERIF_DEBUG"):
                    os.dup2(devnull, 2)
                inp = os.fdopen(cr, "r")
                out = os.fdopen(cw, "w")
                for line in inp:
                    r = _run_one(mod, json.loads(line), timeout)
                    out.write(json.dumps(r, default=str) + "\n")
                    out.flush()
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(cr), os.close(cw)
        self.pid, self.rfd, self.wfd = pid, pr, pw
        self.buf = b""
        self.item = None
        self.t0 = 0

    def give(self, item):
        self.item = item
        self.t0 = time.time()
        os.write(self.wfd, (json.dumps(item) + "\n").encode())

    def poll(self):
        """None: nothing yet; dict: result."""
        chunk = os.read(self.rfd, 1 << 20)
        if not chunk:
            return {"ok": False, "message": "the process running this item died", "case": None}
        self.buf += chunk
        if b"\n" in self.buf:
            line, self.buf = self.buf.split(b"\n", 1)
            return json.loads(line)
        return None

    def stop(self):
        for fd in (self.rfd, self.wfd):
            try:
                os.close(fd)
            except OSError:
                pass
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass


def load_findings(prop):
    p = ROOT / "known_findings.json"
    if not p.exists():
        return []
    return [f for f in json.loads(p.read_text()).get("findings", []) if f["property"] == prop]


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    rest = argv[1:]
    if rest and rest[0] in ("quick", "thorough"):
        tier = rest[0]
    if rest and rest[0] == "--replay":
        replay = json.loads(pathlib.Path(rest[1]).read_text())
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t_start = time.time()
    sys.path.insert(0, str(REPO / "src"))
    EVID.mkdir(exist_ok=True)
    mod = importlib.import_module(f"mc.checks.{prop.lower()}")
    timeout = getattr(mod, "ITEM_TIMEOUT", 240)
    soft_deadline = float(os.environ.get("VERIF_DEADLINE_S", 720 if tier == "quick" else 6 * 3600))

    if replay is not None:
        try:
            mod.prepare() if hasattr(mod, "prepare") else None
            r = _run_one(mod, replay["item"], 3600)
        except Exception as ex:
            r = {"ok": False, "message": _describe(ex)}
        print("replayed", replay["item"], "->", "held" if r["ok"] else "VIOLATED: " + r["message"])
        if not r["ok"]:
            print(json.dumps(r.get("case"), default=str, indent=1)[:4000])
        return 0 if r["ok"] else 1

    violation = None
    totals = {c: 0 for c in COUNTERS}
    extra = {}
    samples = []
    items = []
    done = 0
    capped = False
    try:
        if hasattr(mod, "prepare"):
            mod.prepare()
        items = mod.items(tier)
    except Violation as v:
        violation = (None, {"message": v.message, "case": v.case})
    except Exception as ex:
        violation = (None, {"message": "exception while loading the code: " + _describe(ex), "case": None})

    if violation is None:
        nproc = min(int(os.environ.get("VERIF_JOBS", "8")), max(1, len(items)))
        queue = iter(items)
        workers = []
        try:
            for _ in range(nproc):
                it = next(queue, None)
                if it is None:
                    break
                w = Worker(mod, timeout)
                w.give(it)
                workers.append(w)
            while workers and violation is None:
                ready, _, _ = select.select([w.rfd for w in workers], [], [], 1.0)
                for w in list(workers):
                    if w.rfd in ready:
                        r = w.poll()
                        if r is None:
                            continue
                        if not r["ok"]:
                            violation = (w.item, r)
                            break
                        done += 1
                        for k, v in r["res"].items():
                            if k in totals:
                                totals[k] += v
                            elif k == "sample":
                                if len(samples) < 6 and (done in (1, 2, 5, 20, 60) or len(items) < 8 or len(samples) == 0):
                                    samples.append({"item": w.item, "observed": v})
                            elif isinstance(v, (int, float)):
                                extra[k] = extra.get(k, 0) + v
                        it = None
                        if time.time() - t_start < soft_deadline:
                            it = next(queue, None)
                        elif next(queue, None) is not None:
                            capped = True
                        if it is None:
                            workers.remove(w)
                            w.stop()
                        else:
                            w.give(it)
                    elif time.time() - w.t0 > timeout + 20:
                        violation = (w.item, {"message": f"hung for more than {timeout + 20} s", "case": None})
                        break
        finally:
            for w in workers:
                w.stop()

    wall = time.time() - t_start
    if violation is None and done == 0:
        violation = (None, {"message": "nothing was explored", "case": None})
    rule = getattr(mod, "RULE", "")
    cov = dict(totals)
    cov.update(extra)
    cov["items"] = len(items)
    cov["items_completed"] = done
    cov["exhaustive"] = bool(violation is None and not capped and done == len(items))
    cov["rule"] = rule
    cov["bounds"] = getattr(mod, "BOUNDS", {}).get(tier, "") if isinstance(getattr(mod, "BOUNDS", None), dict) else ""
    cov["samples"] = samples or [{"item": items[0] if items else None}]
    if capped:
        cov["cap"] = f"time cap {soft_deadline} s hit after {done} of {len(items)} items (simplest first)"
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": getattr(mod, "LEVEL", "model_checking"),
        "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 3),
        "violations": 0 if violation is None else 1,
    }
    (EVID / f"{prop}.json").write_text(json.dumps(evidence, indent=1, default=str))
    for f in load_findings(prop):
        if f.get("status") == "open":
            print(f"KNOWN-FINDING: property={prop} {f['what']}")
    if violation is not None:
        item, r = violation
        rd = EVID / "replay"
        rd.mkdir(exist_ok=True)
        path = rd / f"{prop}.json"
        path.write_text(json.dumps({
            "property": prop, "item": item, "message": r["message"], "case": r.get("case"),
            "how": f"./run {prop} --replay {path}"}, indent=1, default=str))
        print(f"{prop}: {str(r['message'])[:1500]}")
        print(f"  item: {json.dumps(item)[:600]}")
        if r.get("case") is not None:
            print(f"  case: {json.dumps(r['case'], default=str)[:1500]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print(f"{prop} {tier}: held on {done} items, " + ", ".join(f"{k}={v}" for k, v in {**totals, **extra}.items() if v)
          + f", {wall:.1f} s" + (" (CAPPED)" if capped else ""))
    return 0


if __name__ == "__main__":
    sys.modules["mc.core"] = sys.modules["__main__"]
    sys.exit(main(sys.argv[1:]))
