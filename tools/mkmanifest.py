import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import plan
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    b = plan.PLAN[i]["bounds"]
    checks.append({
        "property": i,
        "quick_cmd": "./check.py %s" % i,
        "thorough_cmd": "./check.py %s thorough" % i,
        "technique": "symbolic execution of rustc's LLVM IR of the real code, Z3 decides branches and assertions, counterexamples replayed natively",
        "level": "model_checking",
        "level_note": "Bounded: " + b + ". Within the bounds every path of an exhausted scenario is decided for all values; scenarios cut by the time limit are listed in the evidence. Trusts: "
        + "; ".join(plan.ASSUMPTIONS + plan.PLAN[i].get("assumptions", [])) + ".",
    })
m = {
    "version": 1,
    "setup_cmd": "./build.sh engine",
    "hooks": {
        "guard": "cfg(cola_small_nodes)",
        "enable": "RUSTFLAGS='--cfg cola_small_nodes' (build.sh ir small / runner small): tree nodes of 4 children instead of 32, 4 inline fragments instead of 8",
        "source_commits": [os.popen("git -C /repo log --format=%H --grep='^hook:'").read().split()[0]],
    },
    "checks": checks,
    "not_applicable": [],
    "notes": "See DESIGN.md. Findings: known-findings.txt. Replays are written to replays/, evidence to evidence/.",
}
s = json.load(open("/root/.vp/MANIFEST.schema.json"))
import jsonschema
jsonschema.validate(m, s)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
