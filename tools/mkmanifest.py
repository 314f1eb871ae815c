"""Writes /verif/MANIFEST.json from the checks present (run by hand)."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
TECH = {
 "C01": "property-based differential testing against a reference interpreter (AVM model)",
 "C02": "property-based differential testing against a reference interpreter (AVM model)",
 "C03": "property-based differential testing, plus generated slot-limit programs with a two-sided oracle",
 "C04": "property-based differential testing against a reference interpreter (AVM model)",
 "C05": "property-based differential testing over box states, plus a layout model for inspect",
 "C06": "property-based differential testing of inner transaction histories",
 "C07": "property-based differential testing of routers over application-argument vectors",
 "C08": "property-based differential testing of stdlib calls on boundary values",
 "C09": "property-based testing with a two-sided acceptance oracle (independent type model)",
 "C10": "property-based testing with a per-instruction stack/type monitor on an AVM model",
 "C11": "property-based testing against an independent assembler-checker",
 "C12": "property-based round-trip and metamorphic testing over generated layouts",
 "C13": "property-based testing against a line-attribution model",
 "C14": "grammar- and mutation-based fuzzing with time limits",
 "C15": "stateful (history) property-based testing against fresh-process results",
 "C16": "metamorphic testing of generated TEAL on an AVM model",
 "C17": "property-based testing with rule mutations and a two-sided oracle",
 "C18": "property-based testing over generated language specifications",
 "C19": "model-based testing of CLI command sequences against a file-system model",
 "C20": "property-based differential testing of literals in every position",
 "C21": "property-based testing of source-map laws over build/update/serialise/query sequences",
 "C22": "property-based differential and metamorphic testing of raw TEAL, push and pop",
}
NOTE = {}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if not os.path.exists(os.path.join(ROOT, "checks", i.lower() + ".py")):
        na.append({"property": i, "reason": "check not built yet"})
        continue
    checks.append({"property": i, "quick_cmd": f"./run.py {i}", "thorough_cmd": f"VERIF_TIER=thorough ./run.py {i}",
                   "technique": TECH[i], "level": "exploration",
                   "level_note": NOTE.get(i, "Random search over generated cases with shrinking; never establishes absence. Trusts the oracle "
                                          "(vlib/avm.py, vlib/ref.py) named in DESIGN.md and the case bounds in the check's generator.")})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import textx, click, algosdk'", "checks": checks, "not_applicable": na},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
