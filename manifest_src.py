"""Writes MANIFEST.json from the rule modules (python3 manifest_src.py)."""
import importlib, json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
NA = {
 "C40": "Truth is in run-time numbers produced by pandas/numpy/scipy; no static argument over this source bounds them.",
 "C41": "Value equality over schedules and chunkings is a run-time quantity (floating point, pandas alignment); the forwarding clause that is visible in the code is claimed as C03.",
 "C42": "Depends on the value semantics of pandas/pyarrow readers and writers, which are outside the analysed source; the structural clause is claimed as C06.",
 "C43": "Quantifies over arithmetic totals accumulated at run time by callbacks and progress bars.",
}
def main():
    props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        path = os.path.join(here, "sa", "rules", i.lower() + ".py")
        if os.path.exists(path):
            m = importlib.import_module("sa.rules." + i.lower())
            checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py " + i,
                           "technique": m.TECHNIQUE, "level": "other", "level_note": m.LEVEL_NOTE})
        else:
            na.append({"property": i, "reason": NA.get(i, "No check built yet.")})
    json.dump({"version": 1, "setup_cmd": "python3 check.py --selfcheck", "checks": checks, "not_applicable": na},
              open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
if __name__ == "__main__":
    main()
