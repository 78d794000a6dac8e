#!/usr/bin/env python3
"""Writes /verif/CONTRACTS.md: every contract of every property, from the doc comments in harness/src."""
import os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = "C01 C02 C03 C04 C05 C06 C07 F01 A01 A02 A03 A04 A05 A06 M01 M02 M03 M04 M05 T01 K01 G01 G02 S01 J01".split()
out = ["# Contracts", "", "Generated by `tools/contracts.py` from the doc comments of `harness/src`. *proved*: discharged by Kani/CBMC for all inputs; "
       "*proved, bounded*: discharged for the stated shape only; *executed*: run on generated inputs, a bounded stand-in that is never counted as proved. "
       "*(thorough)*: proved in the thorough tier only (executed in the quick tier).", ""]
tot = {}
for p in PROPS:
    src = open(os.path.join(ROOT, "harness/src", p.lower() + ".rs")).read()
    body = re.search(r"contracts! *\{(.*)\Z", src, re.S).group(1)
    kani, native = body.split("\n} native {", 1)
    out += [f"## {p}", ""]
    for part, kind in ((kani, "kani"), (native, "native")):
        for m in re.finditer(r"((?:[ \t]*(?:///|#\[)[^\n]*\n)*)[ \t]*fn (\w+)\(\) *\{", part):
            text = " ".join(l.strip()[3:].strip() for l in m.group(1).split("\n") if l.strip().startswith("///"))
            opts = dict(re.findall(r"@(\w+)=(\S+)", text))
            text = re.sub(r"@\w+=\S+\s*", "", text).strip()
            stubs = re.findall(r"kani::stub\(([^,]+),", m.group(1))
            k = "executed" if kind == "native" else "proved, bounded" if "[bounded" in text else "proved"
            if "thorough" in opts.get("tier", "") and kind == "kani": k += " (thorough)"
            tot[k] = tot.get(k, 0) + 1
            st = sorted({s.strip() for s in stubs} - {"std::fmt::format", "alloc::fmt::format"})
            out.append(f"- `{m.group(2)}` — *{k}*: {text or '(the name says it)'}" + (f" Over the contracts of {', '.join('`%s`' % s for s in st)}." if st else ""))
    out.append("")
out[3:3] = ["Total: " + ", ".join(f"{v} {k}" for k, v in sorted(tot.items())) + ".", ""]
open(os.path.join(ROOT, "CONTRACTS.md"), "w").write("\n".join(out))
print(tot)
