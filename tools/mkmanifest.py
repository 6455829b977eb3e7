#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist and the properties listed."""
import json
from pathlib import Path
V = Path(__file__).resolve().parent.parent
NOTE = {}
exec((V / "tools" / "levels.py").read_text())
props = [json.loads(l)["id"] for l in open(V / "properties.jsonl")]
checks, na = [], []
for p in props:
    if (V / "checks" / ("c%s.py" % p[1:])).exists():
        t, n = NOTE[p]
        checks.append(dict(property=p, quick_cmd="python3 run.py %s" % p, thorough_cmd="python3 run.py %s --thorough" % p,
                           technique=t, level="model_checking", level_note=n))
    else:
        na.append(dict(property=p, reason=NA.get(p, "not built yet")))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
               notes="TLA+ specification in spec/, checked with TLC and bound to the code by validating recorded histories of the real library (spec/Trace.tla). No hooks in /repo are needed."),
          open(V / "MANIFEST.json", "w"), indent=1)
