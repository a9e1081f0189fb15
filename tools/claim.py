#!/usr/bin/env python3
# tools/claim.py ID technique note [key=value...]: registers a check and rewrites MANIFEST.json
import json, subprocess, sys, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = os.path.join(root, "tools/checks.json")
d = json.load(open(f))
e = d.setdefault(sys.argv[1], {})
e["technique"], e["note"] = sys.argv[2], sys.argv[3]
for kv in sys.argv[4:]:
    k, v = kv.split("=", 1)
    e[k] = v == "true" if v in ("true", "false") else v
json.dump(dict(sorted(d.items())), open(f, "w"), indent=1)
subprocess.run([sys.executable, os.path.join(root, "tools/genmanifest.py")], check=True)
