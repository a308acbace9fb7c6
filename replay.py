#!/usr/bin/env python3
"""replay.py FILE: rebuilds the harness from /repo and runs the recorded input natively."""
import json, shutil, sys
import check
v = json.load(open(sys.argv[1]))
symex, ll, exe, tmp = check.build()
print(v["entry"], v["failed"], v["input_hex"])
print(check.native(exe, v["entry"], v["input_hex"], tmp))
shutil.rmtree(tmp)
