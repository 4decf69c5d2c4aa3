#!/usr/bin/env python3
"""python3 tools/claim.py <id> <note>: marks a property as claimed and rewrites properties.jsonl / MANIFEST.json."""
import json, os, subprocess, sys
d = os.path.dirname(os.path.abspath(__file__)); p = os.path.join(d, "claimed.json")
c = json.load(open(p)); c[sys.argv[1]] = {"note": sys.argv[2]}
json.dump(dict(sorted(c.items())), open(p, "w"), indent=1)
subprocess.check_call([sys.executable, os.path.join(d, "registry.py")])
