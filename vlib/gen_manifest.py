"""Writes MANIFEST.json from properties.jsonl and the lists below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21".split()
NA = {
    "C10": "The angelic choice behind integer-to-pointer casts (`predict`) is `unimplemented!()` in the libspecr the tree depends on, so no program can execute the code, and there is nothing to replay a counterexample on; the executable half (exposing yields the address, and its argument checks) is decided by C19.",
}
TECH = "symbolic execution of the transpiled spec (compiled against a symbolic libspecr) on programs built by miniutil and on Rust programs translated by minimize, deciding every path condition and assertion with an SMT solver (z3)"
NOTE = "Holds for all values within the stated bounds, on the code regenerated from /repo's spec and tooling. Trusts the symbolic libspecr (its own differential tests, and every path's witness is replayed on the stock one), the transpiler and z3."
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 vlib/build.py --tools", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CLAIMED:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                            "technique": TECH, "level": "model_checking", "level_note": NOTE})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "No check yet.")})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
