"""Writes /verif/MANIFEST.json from the check modules present."""
import glob, json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "symbolic execution of the real Python source with z3; counterexamples replayed on the real code"
TECH_NATIVE = "symbolic execution of the LLVM IR clang gives for the current C++ sources, with z3; counterexamples replayed on the compiled engine"
NATIVE = {"C33", "C34", "C35", "C36", "C37", "C38", "C39", "C40", "C41", "C42", "C43", "C44", "C45"}
NOTE = "every path within the bounds listed in the evidence is explored and each assertion is discharged by z3 over all values of the path; nothing is claimed beyond those bounds"
NA = {
    "N01": "the algorithm skips candidates by logarithms of its draws; z3 has no theory of logarithms, so the probability of a subset is not expressible as a formula (membership, distinctness and completeness of the result are decided in C36 and C39 over a grid of draws)",
    "N03": "sessions, hooks and checkpoint managers of TensorFlow, which is not installed, save and restore the state; the repository only configures them (the PyTorch trainers, whose loop is in the repository, are decided in C46)",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        c = f"./run.sh {i}"
        checks.append({"property": i, "quick_cmd": c, "thorough_cmd": c, "evidence_file": f"evidence/{i}.json", "technique": TECH_NATIVE if i in NATIVE else TECH, "level": "model_checking", "level_note": NOTE})
na = [{"property": i, "reason": NA[i]} for i in ids if i in NA and not any(c["property"] == i for c in checks)]
m = {"version": 1, "setup_cmd": "true", "hooks": {"guard": "none", "enable": "no hooks are used", "source_commits": []}, "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", "missing:", [i for i in ids if i not in NA and not any(c["property"] == i for c in checks)])
