"""Writes MANIFEST.json from the checks and known_findings.json from the list below."""
import json, pathlib, re, sys
ROOT = pathlib.Path(__file__).resolve().parents[1]
T = {
 "C01": ("symbolic-frame model checking of all outcome executions, all configurations in bound", "every measurement-outcome execution of every configuration in the bound; larger sizes/counts are not explored"),
 "C02": ("exhaustive configuration enumeration; affine outcome space equality with a reference schedule", "all outcome executions of every configuration in the bound; trusts stim gate tableaus"),
 "C03": ("exhaustive configuration enumeration; GF(2) nullspace over all preparations", "all preparations of every configuration in the bound"),
 "C04": ("exhaustive configuration enumeration against a reference list of comparisons", "every configuration in the bound, exact multiset of detectors"),
 "C05": ("exhaustive bounded fault-set search (DFS over all minimal undetected sets)", "all fault sets below the distance, sizes in bound"),
 "C06": ("exhaustive single-fault enumeration replayed through the real decoder", "every elementary fault of every configuration in the bound"),
 "C07": ("exhaustive configuration enumeration against a reference torus", "every layout object of every size in the bound"),
 "C08": ("exhaustive history exploration (all action sequences to a depth) on the real code in forked processes", "all histories to the depth plus a cover of all ordered pairs; several hash seeds"),
 "C09": ("exhaustive bounded program enumeration, canonical-form comparison", "all programs of the stated spaces"),
 "C10": ("exhaustive bounded program enumeration against a reference noise insertion", "all programs of the stated spaces"),
 "C11": ("exhaustive enumeration with exact 32-outcome channel computation", "all basis pairs, placements and a probability grid"),
 "C12": ("explicit-state DFS over operation sequences of the real tracker against a model", "all sequences to the depth, all queries after each"),
 "C13": ("exhaustive bounded error-model enumeration against a reference interpretation", "all models of the stated spaces"),
 "C14": ("exhaustive error-model x syndrome enumeration against brute-force minimum weight", "all models of the stated spaces, all producible syndromes"),
 "C15": ("exhaustive bit-pattern and failure-mode enumeration under a scripted sampler/decoder", "all patterns of small batches, every listed failure mode; the proprietary decoder is replaced by a stand-in binary"),
 "C16": ("stateless model checking: all batch-outcome sequences by replay on the real collector", "all outcome sequences of all parameter combinations in the bound"),
 "C17": ("crash-point enumeration of the real collectors, two crashes per history", "every file operation of every history in the bound, every byte position of the first writes"),
 "C18": ("exhaustive enumeration of row/file arrangements and key functions", "all arrangements in the bound"),
 "C19": ("exhaustive (shots, hits) enumeration against exact binomials", "all pairs in the bound; boundary values above"),
 "C20": ("exhaustive monotone-function and data-set enumeration", "all functions/data sets in the bound"),
 "C21": ("exhaustive grid enumeration against the exact inverse", "all grid points in the bound"),
 "C22": ("exhaustive enumeration of the benchmark list and of option combinations", "all 1500 descriptions; circuits as stated in the evidence bounds"),
 "C23": ("exhaustive data-set enumeration, drawn artists read back", "all data sets in the bound"),
 "C25": ("exhaustive configuration enumeration with exact counts through loops", "every sub-round count of the dense range and of the ladder, for every configuration in the bound"),
 "C26": ("stateless model checking: batch-outcome sequences, interruptions and earlier files of the real programs", "all histories in the bound under a scripted sampler"),
 "C27": ("exhaustive enumeration of file and folder arrangements and of earlier output folders, figures read back", "all arrangements and orders in the bound"),
 "C24": ("exhaustive bounded program enumeration against a reference picture", "all programs of the stated spaces"),
}
props = [json.loads(l) for l in (ROOT / "properties.jsonl").read_text().splitlines()]
m = {"version": 1, "setup_cmd": "./run --setup", "checks": [], "not_applicable": [],
     "notes": "Pure Python; every check imports /repo/src afresh. No hooks in /repo. ./run <id> --replay <file> re-runs one case."}
for p in props:
    t, note = T[p["id"]]
    m["checks"].append({"property": p["id"], "quick_cmd": f"./run {p['id']} quick", "thorough_cmd": f"./run {p['id']} thorough",
                        "evidence_file": f"evidence/{p['id']}.json", "technique": "model checking: " + t,
                        "level": "model_checking", "level_note": note})
(ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")

F = [
 ("C14", "38fde04", "decoding raised an error when an observable was not touched by any matched mechanism (observables missing from the prediction)"),
 ("C13", "b938113", "of two conflicting mechanisms on the same detectors the last, not the first, was kept"),
 ("C07", "8e2324b", "legend_label of a noisy layout raised ValueError"),
 ("C11", "b36eaec", "the helper qubit of a parity measurement inside a loop could be one of the circuit's own qubits"),
 ("C09", "3b2a77b", "inverted pair measurements (MPP !X0*X1) lost their inversion under the correlated model (also C11)"),
 ("C16", "5de0fc2", "the first batch ignored the maximum number of shots; the minimum was not reached when batches were limited"),
 ("C17", "8d89565", "resuming on the empty file left by an interrupted run never wrote the csv header, so the file became unreadable"),
 ("C19", "c0b85c3", "log_binomial lost all precision at large shot counts"),
]
import subprocess
head = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout
d = [l.split()[0] for l in head.splitlines() if "diagram of a single row" in l]
F.append(("C24", d[0] if d else "?", "in a diagram of a single row or column, operations between neighbours were drawn as wrapping around the other way"))
F.append(("C09", "bab921e", "noise insertion raised ValueError for measurements with inverted results (M !0) under every noisy model"))
F.append(("C02", "ddf05af", "negative sub-round counts and zero or negative lattice sizes produced other circuits instead of being refused"))
F.append(("C26", "63ef319", "the graph export program could not be started and relied on a function removed from networkx"))
F.append(("C20", "ba5db0f", "least_squares_through_point and least_squares_with_slope returned wrong fits for data of magnitude above 1e5 or below 1e-6"))
F.append(("C27", "461b8b8", "the figure programs failed when the output folder did not exist"))
F.append(("C17", "f1cecd0", "a row cut short by a full disk or a kill was misread, and the first row of the resumed run was glued to it"))
for p, c, w in F:
    assert c in head, c
(ROOT / "known_findings.json").write_text(json.dumps({"findings": [
    {"property": p, "status": "fixed", "commit": c, "what": w, "entry": f"fixed: property={p} {c} {w}"} for p, c, w in F]}, indent=1) + "\n")
