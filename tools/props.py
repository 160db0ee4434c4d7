#!/usr/bin/env python3
"""The one table of properties. Writes properties.jsonl, MANIFEST.json and harness/meta.json."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
EXACT = "exact real arithmetic (f64 rounding is not modelled; every counterexample and a sample of path models are run natively at f64)"


def prop(id, title, statement, over, text, why, files, mech, bin=None, functions=(), bounds="", outside="", assumptions=(), na=None, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, bin=bin,
                      functions=list(functions), bounds=bounds, outside=outside, assumptions=[assumptions] if isinstance(assumptions, str) else list(assumptions), na=na, observe=observe))


for f in sorted(os.listdir(os.path.join(ROOT, "tools", "props"))):
    if f.endswith(".py"):
        exec(compile(open(os.path.join(ROOT, "tools", "props", f)).read(), f, "exec"))

PROPS.sort(key=lambda p: p["id"])
assert len({p["id"] for p in PROPS}) == len(PROPS)
with open(os.path.join(ROOT, "properties.jsonl"), "w") as o:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["observe"]:
            a["observe_at"] = p["observe"]
        o.write(json.dumps({"id": p["id"], "title": p["title"], "statement": " ".join(p["statement"].split()),
                            "quantifier": {"over": p["over"], "text": " ".join(p["text"].split())},
                            "why_tests_cant": " ".join(p["why"].split()), "anchors": a}) + "\n")
checks, na, meta = [], [], {}
for p in PROPS:
    if p["na"]:
        na.append({"property": p["id"], "reason": " ".join(p["na"].split())})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "bash check.sh %s quick" % p["id"],
        "thorough_cmd": "bash check.sh %s thorough" % p["id"],
        "technique": "symbolic execution of the compiled crate at a symbolic scalar type; every branch and claim decided by SMT (z3, cvc5) over the reals",
        "level": "model_checking",
        "level_note": "Bounded: " + " ".join(p["bounds"].split()) + " Trusts " + EXACT + ", the solvers, and the harness's symbolic scalar. Outside: " + " ".join(p["outside"].split()),
    })
    meta[p["id"]] = {"bin": p["bin"], "functions": p["functions"], "bounds": " ".join(p["bounds"].split()),
                     "outside": " ".join(p["outside"].split()), "assumptions": p["assumptions"]}
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks are solver-based: the crate's generic code is instantiated at a symbolic scalar, so the code that is executed symbolically is whatever /repo's working tree contains. No hooks in /repo are used."}
# the part of DESIGN.md that follows from the table
exec(compile(open(os.path.join(ROOT, "tools", "oracles.py")).read(), "oracles.py", "exec"))
d = os.path.join(ROOT, "DESIGN.md")
text = open(d).read()
a, b = "<!-- properties -->", "<!-- end of properties -->"
lines = []
for p in PROPS:
    one = lambda k: " ".join(p[k].split())
    if p["na"]:
        lines.append("* **%s** %s. *Not applicable:* %s" % (p["id"], p["title"], one("na")))
        continue
    lines.append("* **%s** %s (`bin/%s.rs`).  \n  *Symbolic:* %s.  \n  *Compared with:* %s.  \n  *Bounds:* %s  \n  *Outside:* %s  \n  *Tests:* %s.%s" % (
        p["id"], p["title"], p["bin"], one("text"), ORACLES[p["id"]], one("bounds"), one("outside"), one("why"),
        "".join("  \n  *Assumes:* " + x for x in p["assumptions"])))
text = text[:text.index(a) + len(a)] + "\n" + "\n".join(lines) + "\n" + text[text.index(b):]
open(d, "w").write(text)
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
json.dump(meta, open(os.path.join(ROOT, "harness", "meta.json"), "w"), indent=1, sort_keys=True)
print(len(checks), "checks,", len(na), "not applicable")
