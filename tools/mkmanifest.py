"""writes MANIFEST.json from the check modules and the NOT_APPLICABLE table"""
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
NOT_APPLICABLE = {
    "C24": "durability across power loss is decided by the kernel, the file system and the disk, none of which is code of this "
           "repository: executing rsfile symbolically can only show that the right primitive was called and succeeded (that is C16)",
}
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for pid in props:
    if os.path.exists(os.path.join(ROOT, "checks", pid.lower() + ".py")):
        m = importlib.import_module("checks." + pid.lower())
        checks.append(dict(
            property=pid, quick_cmd="./run.sh %s" % pid, thorough_cmd="./run.sh %s --tier thorough" % pid,
            evidence_file="evidence/%s.json" % pid,
            technique=getattr(m, "TECHNIQUE", "symbolic execution of the real Python code over z3 (SMT verdict per assertion), bounded"),
            level=getattr(m, "LEVEL", "model_checking"),
            level_note="bounds (quick): %s. Outside: %s." % (m.BOUNDS["quick"], m.OUTSIDE),
        ))
    else:
        na.append(dict(property=pid, reason=NOT_APPLICABLE.get(pid, "check not built yet")))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na), open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
