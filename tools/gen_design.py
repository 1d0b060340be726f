"""Writes /verif/DESIGN.md from the check modules, properties.jsonl, known_findings.json and the notes below."""
import glob
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, "/repo/src/python"]
from tools.design_notes import CORRECTED, HEAD, NA, NOTES, OUTSIDE_NOTES  # noqa: E402

props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
known = json.load(open(os.path.join(V, "known_findings.json")))
caught = dict(x.rstrip("\n").split("\t", 1) for x in open(os.path.join(V, "tools", "caught.tsv")) if x.strip())


def short(bounds):
    text = {k: json.dumps(v, default=str) for k, v in bounds.items()}
    return ", ".join(f"{k}={v if len(v) <= 70 else str(len(bounds[k])) + ' alternatives'}" for k, v in text.items())


out = [HEAD]
w = out.append
w("## Properties\n")
for p in props:
    i = p["id"]
    w(f"### {i} {p['title']}\n")
    if i in NA:
        w(f"Not applicable: {NA[i]}\n")
        continue
    m = importlib.import_module("checks." + i.lower())
    decides, oracle = NOTES[i]
    w(f"* **What is decided.** {decides}")
    w(f"* **Oracle.** {oracle}")
    w(f"* **Bounds.** {m.BOUNDS}.")
    hs = "; ".join(f"`{h.name}` {short(h.bounds['quick'])}" for h in m.HARNESSES)
    w(f"* **Harnesses (quick bounds).** {hs}")
    w(f"* **Outside.** {m.OUTSIDE}.")
    if getattr(m, "ASSUMPTIONS", None):
        w(f"* **Assumptions.** {'; '.join(m.ASSUMPTIONS)}.")
    try:
        e = json.load(open(os.path.join(V, "evidence", i + ".json")))["coverage"]
        w(f"* **Cost (quick run).** {e['paths']} paths, {e['queries_discharged']} queries, {e['solver_s']} s of solver time.")
    except (OSError, KeyError):
        pass
    w(f"* **Why beyond tests.** {p['why_tests_cant']}\n")
w("## Defects found on the original tree\n")
w("Each was shown by a counterexample replayed on the real code, and repaired by its own `fix:` commit in /repo (existing tests unedited and passing).\n")
for f in known["fixed"]:
    w("* " + f)
w("")
if known["known"]:
    w("Left as known findings (reported as `KNOWN-FINDING`, exit 0):\n")
    for k in known["known"]:
        w(f"* {k['property']}: {k['what'] if 'what' in k else k['message']}")
else:
    w("There are no open known findings.")
w("")
w("## Statements narrowed and machinery corrected\n")
for c in CORRECTED:
    w("* " + c)
w("\n## Behaviour left outside on purpose\n")
for c in OUTSIDE_NOTES:
    w("* " + c)
w("\n## Planted changes\n")
w("`seeded/<id>/` holds changes written from the property texts and the code, each of which compiles, passes the existing tests and breaks one property.  The last column says what the quick check of the property does with it.\n")
w("Missed when first run, and reason for a stronger harness afterwards: c11-stale-lines, c21-strided-nodes, c24-attempts, c25-late-client, c26-lost-error, c27-host-prefix, c30-blank-group, c31-line-chunks.\n")
w("| change | property | breaks | needs | check |")
w("|---|---|---|---|---|")
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    w(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {caught.get(i, 'not run')} |")
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
