#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the tables below and properties.jsonl."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
# property -> (level, technique, note)
KANI = "Rust contracts discharged by Kani (CBMC) on the real code"
TRUST = " Trusts Kani/CBMC, rustc MIR, and the mock Read/Write/Seek and element types that stand for their trait contracts."
C = {}
exec(open(os.path.join(V, "tools", "claims.py")).read())
NA = {p["id"]: NOT.get(p["id"], "its contracts are not built yet") for p in props if p["id"] not in C}
hook_commits = [l for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.split("\n") if "hook" in l.lower()]
m = dict(version=1, setup_cmd="python3 tools/vendor_binrw.py build/vendor",
         checks=[dict(property=i, quick_cmd=f"python3 tools/check.py {i}", thorough_cmd=f"python3 tools/check.py {i} --tier thorough",
                      technique=t, level=l, level_note=n + TRUST) for i, (l, t, n) in sorted(C.items())],
         not_applicable=[dict(property=i, reason=r) for i, r in sorted(NA.items())],
         notes="tools/check.py builds the contracts in harness/ (natively) and kani/ (for the verifier) against /repo's working tree, discharges them, and writes evidence/<id>.json. Contracts the verifier cannot reach are executed on generated inputs, labelled bounded and never counted as proved.")
if hook_commits:
    m["hooks"] = dict(guard="ssbh_verif", enable="RUSTFLAGS='--cfg ssbh_verif' (set by tools/check.py)", source_commits=[l.split()[0] for l in hook_commits])
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(C), "claimed;", len(NA), "not applicable")
