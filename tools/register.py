#!/usr/bin/env python3
"""register.py PROP UNITS NOTE: adds a property to contracts/properties.json (dev tool)"""
import json, sys, subprocess
p = '/verif/contracts/properties.json'
d = json.load(open(p))
d["not_applicable"].pop(sys.argv[1], None)
d[sys.argv[1]] = {"unit": sys.argv[2], "level": "proof", "note": sys.argv[3]}
json.dump(d, open(p, 'w'), indent=1)
open('/verif/contracts/baseline.tsv', 'w').write(subprocess.run(["/verif/build/vx/release/vx", "--repo", "/repo", "--contracts", "/verif/contracts", "--list"], stdout=subprocess.PIPE, text=True, check=True).stdout)
subprocess.run(["python3", "/verif/gen_manifest.py"], check=True, cwd="/verif")
