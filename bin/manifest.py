"""Writes /verif/MANIFEST.json from the checks that exist (harness/checks) and the table below."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORACLE = ("TLA+ specification (spec/Judge.tla over Search/Args/Tests/Fields/...) as oracle: TLC judges records of runs of the real program "
          "on generated trees against the specified meaning of the search")
MODEL = "TLA+ state machine checked by TLC; its behaviours are replayed into the real program and recorded runs are judged by TLC"
GEN = "Sampled, not exhaustive, beyond the enumerated families named in the evidence; trusts the specification (reviewed against the documentation) and the file-system snapshot taken with lstat/stat."
TABLE = {
    "C01": (MODEL, "model_checking", "The protocol model is exhaustive for small constants; the real runs are sampled schedules (seeded delays at operating-system boundaries)."),
    "C02": (MODEL, "fault_enumeration", "Faults (signals, exceptions, early ends) are injected at enumerated points of real runs; timing bounds are generous."),
    "C03": (ORACLE, "exploration", GEN),
    "C04": (ORACLE, "exploration", GEN),
    "C05": (ORACLE, "exploration", GEN),
    "C06": (ORACLE, "exploration", GEN),
    "C07": (ORACLE, "exploration", GEN),
    "C08": (ORACLE, "exploration", GEN),
    "C09": (ORACLE, "exploration", GEN),
    "C10": (ORACLE, "exploration", GEN),
    "C11": (ORACLE, "exploration", GEN),
    "C12": (MODEL, "model_checking", "The model is exhaustive for small constants; the real runs sample schedules."),
    "C13": (ORACLE, "exploration", GEN),
    "C14": (ORACLE, "exploration", GEN),
    "C15": (MODEL, "model_checking", "Histories are enumerated from the model up to a bound and replayed."),
    "C16": (ORACLE, "exploration", GEN),
    "C17": (ORACLE, "exploration", GEN),
    "C18": (ORACLE, "exploration", GEN),
    "C19": (ORACLE, "exploration", GEN),
    "C20": (ORACLE, "exploration", GEN),
    "C21": (MODEL, "fault_enumeration", "Faults are injected at enumerated system calls of the real program."),
    "C22": (MODEL, "model_checking", "Histories of git operations are sampled and enumerated from the model up to a bound and replayed."),
    "C23": (ORACLE, "exploration", GEN),
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    path = os.path.join(ROOT, "harness", "checks", i.lower() + ".py")
    if os.path.exists(path):
        t, level, note = TABLE[i]
        src = open(path).read()
        checks.append({"property": i, "quick_cmd": f"python3 bin/check.py {i} quick", "thorough_cmd": f"python3 bin/check.py {i} thorough",
                       "technique": t, "level": level, "level_note": note})
        if level != "exploration" and f'LEVEL = "{level}"' not in src:
            checks[-1]["level"] = "exploration"
    else:
        na.append({"property": i, "reason": "The check for this property is not finished yet."})
m = {"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks, "not_applicable": na}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
