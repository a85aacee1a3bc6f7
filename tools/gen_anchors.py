#!/usr/bin/env python3-vt
"""Writes /verif/anchors.json from /repo: the names the rules know the definitions by."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa import anchors, loader
if os.path.exists(anchors.FILE): os.remove(anchors.FILE)
r = loader.Repo(sys.argv[1] if len(sys.argv) > 1 else "/repo")
json.dump(anchors.snapshot({m.name: m.tree for m in r.modules.values()}), open(anchors.FILE, "w"), sort_keys=True)
