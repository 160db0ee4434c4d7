#!/usr/bin/env python3
"""dev tool: mkseed.py SPEC.py  -> seeded/<id>/ ; SPEC defines SEEDS=[dict(id,property,file,old,new,needs,breaks,demo)]; edits=[(file,old,new)...] also allowed"""
import sys, os, json, subprocess, shutil
spec = {}
exec(open(sys.argv[1]).read(), spec)
only = sys.argv[2:]
for s in spec["SEEDS"]:
    if only and s["id"] not in only: continue
    d = "/verif/seeded/" + s["id"]
    os.makedirs(d, exist_ok=True)
    edits = s.get("edits") or [(s["file"], s["old"], s["new"])]
    assert subprocess.run(["git", "-C", "/repo", "status", "--porcelain", "-uno"], capture_output=True, text=True).stdout == ""
    for f, o, n in edits:
        p = "/repo/" + f
        t = open(p).read()
        assert t.count(o) == 1, (s["id"], f, t.count(o), o)
        open(p, "w").write(t.replace(o, n))
    diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    shutil.copy("/verif/tools/demo_template.sh", d + "/demo.sh")
    open(d + "/demo.rs", "w").write(s["demo"])
    print("made", s["id"])
