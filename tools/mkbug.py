#!/usr/bin/env python3
"""mkbug.py ID PROP NEEDS WHAT DEMOFILE  -- turns the current uncommitted change of /tmp/bugrepo into seeded/ID"""
import sys, os, json, subprocess, shutil
id, prop, needs, what, demo = sys.argv[1:]
V = "/verif/seeded/" + id
os.makedirs(V, exist_ok=True)
d = subprocess.check_output(["git", "-C", "/tmp/bugrepo", "diff"], text=True)
assert d.strip()
open(V + "/patch.diff", "w").write(d)
json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(V + "/meta.json", "w"), indent=1)
shutil.copy(demo, V + "/demo.py"); shutil.copy("/verif/tools/sky.py", V + "/sky.py")
open(V + "/demo.sh", "w").write('#!/bin/bash\n# drives the server built from /repo through its network interface, in a scratch directory\nexec timeout 280 python3 "$(dirname "$0")/demo.py"\n')
os.chmod(V + "/demo.sh", 0o755)
