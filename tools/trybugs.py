#!/usr/bin/env python3
"""Runs the check of each planted bug's property (or the given properties) against a scratch copy with the bug."""
import json, os, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(VERIF, "seeded")))
for sid in ids:
    d = os.path.join(VERIF, "seeded", sid)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    root = "/tmp/trybug"
    shutil.rmtree(root, ignore_errors=True)
    shutil.copytree("/repo", root, ignore=shutil.ignore_patterns("_build"), symlinks=True)
    subprocess.run(["git", "-C", root, "apply", os.path.join(d, "patch.diff")], check=True)
    t = time.time()
    p = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), prop], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VFC_REPO=root, VERIF_SEED="1", VERIF_TIER="quick"))
    lines = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
    ev = json.load(open(os.path.join(VERIF, "evidence", prop + ".json")))
    print("%-24s %s exit %d %.0fs %s" % (sid, prop, p.returncode, time.time() - t, lines[:1] or p.stdout[-300:]), flush=True)
    shutil.rmtree(root, ignore_errors=True)
