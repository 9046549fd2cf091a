#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand, output is committed)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=None, claimed=True):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None, **({"state": state} if state else {})),
        technique=technique, note=note, claimed=claimed))

prop("C01", "Number and text conversions are exact or refused",
 "Every conversion between the integer types, float types, *big.Int, *big.Float, *big.Rat and text either produces a value that denotes the same number as the source or returns an error; it never wraps, truncates, loses digits, or reports success for text that is not a number. A conversion whose target can represent the source value exactly succeeds. Text produced for a number reads back as the same number.",
 ["inputs"], "all source values of all 16 base kinds and their named subtypes, and all target kinds, including type bounds, NaN, infinities, subnormals, huge and tiny big values, and malformed text",
 "tests convert a few handpicked values per pair of types; 16x16 pairs with unbounded big values and text leave almost all boundaries unsampled (the audit found ten real defects with all tests passing)",
 ["conv/conv.go","conv/int.go","conv/float.go","conv/bigint.go","conv/bigfloat.go","conv/bigrat.go","conv/string.go"],
 [("To and the per pair conversion functions","conv/conv.go"),("range checks by round trip comparison","conv/int.go, conv/float.go")],
 ["return values of conv.To, conv.XToY"], "runtime monitor: exact rational arithmetic oracle over generated conversions",
 "Held on the generated conversions listed in the evidence; trusts math/big and strconv as the reference.")
prop("C02", "Conversion entry points agree, copy, and leave inputs alone",
 "All ways of asking for the same conversion (typed functions, the generic entry point, the reflection based entry point, and their panicking variants) give the same value or all refuse, for base types and named subtypes alike. A failed conversion never panics in the non-panicking forms. A conversion never modifies its source, and the result shares no mutable memory with it. A value the target pointed to before is left as it was.",
 ["inputs","histories"], "all pairs of source and target types, values, and later mutations of either the source or the result",
 "tests check each entry point separately on a few values and never mutate a source after converting it",
 ["conv/conv.go","conv/struct.go"], [("convertFromTo lookup shared by the entry points","conv/conv.go")],
 ["return values of every entry point; sources and results before and after mutation"], "runtime monitor: differential entry point comparison and aliasing probes",
 "Held on the generated conversions and mutations listed in the evidence.")

exec(open(os.path.join(V, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "props_more.py")) else None

NA = []
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: p[k] for k in ("id","title","statement","quantifier","why_tests_cant","anchors")}) + "\n")
        assert len(p["title"]) <= 80, p["title"]
        if not p["claimed"]:
            NA.append(dict(property=p["id"], reason=p["note"]))
m = dict(version=1, setup_cmd="./setup.sh",
 checks=[dict(property=p["id"], quick_cmd="./check.sh %s quick" % p["id"], thorough_cmd="./check.sh %s thorough" % p["id"],
   evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level="exploration", level_note=p["note"]) for p in P if p["claimed"]],
 not_applicable=NA,
 notes="One Go program (harness/) holds all monitors; check.sh builds it against /repo's working tree through a replace directive and runs one property. No hooks in /repo were needed.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(P), "properties", len(m["checks"]), "claimed")
