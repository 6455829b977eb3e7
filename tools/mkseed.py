#!/usr/bin/env python3
"""mkseed.py FILE...: makes /verif/seeded/<id>/ from a description (a Python file defining ID, PROPERTY, EDITS, NEEDS, BREAKS, DEMO).
The description files live outside of /verif."""
import json, os, shutil, subprocess, sys, textwrap
from pathlib import Path
V = Path(__file__).resolve().parent.parent
REPO = os.environ.get("SEED_REPO", "/repo")
for f in sys.argv[1:]:
    g = {}
    exec(Path(f).read_text(), g)
    assert not subprocess.run(["git", "-C", REPO, "status", "--porcelain", "-uno"], capture_output=True).stdout.strip(), "repo not clean"
    try:
        for fn, old, new in g["EDITS"]:
            p = Path(REPO) / fn
            t = p.read_text()
            assert t.count(old) == 1, (fn, old, t.count(old))
            p.write_text(t.replace(old, new))
        diff = subprocess.run(["git", "-C", REPO, "diff"], capture_output=True, text=True, check=True).stdout
    finally:
        subprocess.run(["git", "-C", REPO, "checkout", "--", "."], check=True)
    d = V / "seeded" / g["ID"]
    d.mkdir(parents=True, exist_ok=True)
    (d / "patch.diff").write_text(diff)
    (d / "meta.json").write_text(json.dumps(dict(property=g["PROPERTY"], needs=g["NEEDS"], what_it_breaks=g["BREAKS"]), indent=1))
    if "DEMO_SH" in g:
        (d / "demo.sh").write_text(g["DEMO_SH"])
    else:
        (d / "demo.sh").write_text('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8\nexec timeout 250 python3 "$(dirname "$0")/demo.py"\n')
        (d / "demo.py").write_text("from vk import *\n" + textwrap.dedent(g["DEMO"]))
        shutil.copy(V / "tools" / "vk.py", d)
    for n, t in g.get("FILES", {}).items():
        (d / n).write_text(t)
    print(d)
