#!/usr/bin/env python3
"""mkbug.py SPEC.py: write seeded/<id>/ from a spec module with ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)], DEMO (and TOP)."""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for spec in sys.argv[1:]:
    s = importlib.util.spec_from_file_location("spec", spec)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    d = f"{ROOT}/seeded/{m.ID}"
    os.makedirs(d, exist_ok=True)
    diff = ""
    byfile = {}
    for f, old, new in m.EDITS:
        text = byfile.get(f) or open(f"/repo/{f}").read()
        assert text.count(old) == 1, (m.ID, f, text.count(old), old)
        byfile[f] = text.replace(old, new)
    with tempfile.TemporaryDirectory() as t:
        for f, text in byfile.items():
            for side in "ab":
                os.makedirs(os.path.dirname(f"{t}/{side}/{f}"), exist_ok=True)
            shutil.copy(f"/repo/{f}", f"{t}/a/{f}")
            open(f"{t}/b/{f}", "w").write(text)
            r = subprocess.run(["diff", "-u", f"a/{f}", f"b/{f}"], cwd=t, capture_output=True, text=True).stdout
            lines = r.splitlines(keepends=True)
            lines[0] = f"--- a/{f}\n"
            lines[1] = f"+++ b/{f}\n"
            diff += f"diff --git a/{f} b/{f}\n" + "".join(lines)
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.py", "w").write(m.DEMO.lstrip("\n"))
    if getattr(m, "TOP", None):
        open(f"{d}/top.v", "w").write(m.TOP.lstrip("\n"))
    shutil.copy(f"{ROOT}/tools/demo.sh.tmpl", f"{d}/demo.sh")
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": m.PROPERTY, "needs": m.NEEDS, "what_it_breaks": m.BREAKS}, open(f"{d}/meta.json", "w"), indent=1)
    print(m.ID)
