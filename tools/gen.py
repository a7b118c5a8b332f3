#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props
ROOT = os.path.dirname(HERE)
TECH = ("static analysis: value-graph (gated-SSA) abstract interpretation of type-resolved MIR, "
        "loop summarisation, equality of the analysed operation's summary with a reference summary")
NOTE = ("Each obligation is decided for all inputs by comparing value graphs built from the current source; "
        "an obligation the analysis cannot decide is reported as undecided in the evidence and not claimed. ")
REAL = "Doubles are read as exact reals unless the obligation is marked fp or nan; panics are the subject of C23. "
TRUST = "Trusts rustc's MIR, the driver, the engine's models of std and the reference functions in spec/src."
checks = []
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p.get("over", ["inputs"]), "text": p["quant"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                         "hook_needed": None}}
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
        if not p.get("na"):
            checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"],
                           "thorough_cmd": "python3 check.py %s" % p["id"],
                           "technique": p.get("technique", TECH), "level": p.get("level", "proof"),
                           "level_note": p.get("note", "") + (NOTE + REAL + TRUST if "level_note" not in p else p["level_note"])})
m = {"version": 1, "setup_cmd": "python3 -m engine.driver --setup", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in props.PROPS if p.get("na")],
     "notes": "No hooks: the analysis reads private items through MIR. See DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(m["not_applicable"]), "not applicable")

# OBLIGATIONS.md: every obligation with its statement
import re
out = ["# Obligations", "", "Generated by tools/gen.py from spec/src. Mode real unless stated.", ""]
for p in props.PROPS:
    path = os.path.join(ROOT, "spec", "src", p["id"].lower() + ".rs")
    if not os.path.exists(path):
        continue
    out += ["## %s %s" % (p["id"], p["title"]), ""]
    doc, tags, n = [], [], 0
    for ln in open(path):
        m = re.match(r"\s*///\s?(.*)", ln)
        if m:
            (tags if m.group(1).startswith("@") else doc).append(m.group(1).strip())
            continue
        m = re.match(r"pub fn (\w+?)__(impl|law|safe)\b", ln)
        if m:
            n += 1
            if m.group(2) != "safe":
                out.append("* `%s` (%s%s) %s" % (m.group(1), "law" if m.group(2) == "law" else "reference", "".join("; " + t for t in tags), " ".join(doc)))
        if ln.strip() and not ln.startswith("#["):
            doc, tags = [], []
    if p["id"] == "C23":
        out.append("%d wrappers `c23_*__safe`, one or more per public operation (also used by C24)." % n)
    out.append("")
open(os.path.join(ROOT, "OBLIGATIONS.md"), "w").write("\n".join(out))

# the table of planted changes in DESIGN.md
import glob
rows = ["<!-- seeded table -->", "| change | property | needs | caught by |", "|---|---|---|---|"]
for mf in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    md = json.load(open(mf))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(mf)), md["property"], md["needs"], md.get("caught_by", md["property"])))
rows.append("<!-- end -->")
dp = os.path.join(ROOT, "DESIGN.md")
s = open(dp).read()
s = re.sub(r"<!-- seeded table -->.*?(<!-- end -->|(?=\n\nBeside))", lambda m: "\n".join(rows), s, count=1, flags=re.S)
open(dp, "w").write(s)
