#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes seeded/<id>/ (patch.diff, demo.sh, main.rs, meta.json)
from a list S of dicts id, prop, edits [(file, old, new)], main, needs, breaks;
the scratch copy is /tmp/sc/repo."""
import json, os, subprocess, sys, runpy
R, V = "/tmp/sc/repo", "/verif/seeded"
subprocess.run(["git", "-C", R, "fetch", "-q", "/repo", "HEAD"], check=True)
subprocess.run(["git", "-C", R, "reset", "-q", "--hard", "FETCH_HEAD"], check=True)
only = sys.argv[2:]
for s in runpy.run_path(sys.argv[1])["S"]:
    if only and s["id"] not in only:
        continue
    for f, old, new in s["edits"]:
        p = os.path.join(R, f)
        t = open(p).read()
        n = t.count(old)
        if n != 1:
            sys.exit(f"{s['id']}: {n} matches in {f}: {old}")
        open(p, "w").write(t.replace(old, new))
    d = os.path.join(V, s["id"])
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(subprocess.run(["git", "-C", R, "diff"], capture_output=True, text=True).stdout)
    subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."], check=True)
    lsp = any(f.startswith("tools/") for f, _, _ in s["edits"])
    open(d + "/demo.sh", "w").write(open("/verif/tools/demo_lsp.sh" if lsp else "/verif/tools/demo.sh").read())
    open(d + ("/main.py" if lsp else "/main.rs"), "w").write((open("/verif/tools/demo_lsp.py").read() if lsp else "") + s["main"])
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
