"""Writes MANIFEST.json from the check modules that exist."""
import importlib, json, os, sys
home = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, home)
props = [json.loads(line) for line in open(os.path.join(home, "properties.jsonl"), encoding="utf-8")]
checks, missing = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(home, "mc", "checks", pid.lower() + ".py")):
        module = importlib.import_module("mc.checks." + pid.lower())
        checks.append({
            "property": pid,
            "quick_cmd": "./run.sh %s --tier quick" % pid,
            "thorough_cmd": "./run.sh %s --tier thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": getattr(module, "TECHNIQUE",
                                 "model checking: exhaustive bounded enumeration of model states, each replayed on the real code"),
            "level": "model_checking",
            "level_note": module.RULE + " -- bounds (quick): " + module.BOUNDS["quick"]
            + (" -- assumes: " + "; ".join(module.ASSUMPTIONS) if module.ASSUMPTIONS else ""),
        })
    else:
        missing.append({"property": pid, "reason": "no check registered yet"})
manifest = {"version": 1, "setup_cmd": "./run.sh --setup", "checks": checks, "not_applicable": missing,
            "notes": "All checks run the code of /repo's working tree under /opt/pypyvenv; no hooks in /repo are needed."}
json.dump(manifest, open(os.path.join(home, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(missing), "unclaimed")
