#!/usr/bin/env python3
# claim.py ID "note": adds or updates a claim and regenerates MANIFEST.json
import json, sys, subprocess, os
d = os.path.dirname(os.path.abspath(__file__))
p = d + "/claimed.json"
c = json.load(open(p))
c[sys.argv[1]] = {**c.get(sys.argv[1], {}), "note": sys.argv[2]}
json.dump(dict(sorted(c.items())), open(p, "w"), indent=1, sort_keys=False)
open(p, "a").write("\n")
subprocess.check_call([sys.executable, d + "/mkmanifest.py"])
