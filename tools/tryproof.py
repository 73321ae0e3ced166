#!/usr/bin/env python3
"""Runs only the proof part against scratch copies: tryproof.py PROP PATCH... (or seed ids)."""
import json, os, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prop = sys.argv[1]
for x in sys.argv[2:]:
    patch = x if os.path.exists(x) else os.path.join(VERIF, "seeded", x, "patch.diff")
    root = "/tmp/tryproof"
    shutil.rmtree(root, ignore_errors=True)
    shutil.copytree("/repo", root, ignore=shutil.ignore_patterns("_build"), symlinks=True)
    subprocess.run(["git", "-C", root, "apply", "--recount", os.path.abspath(patch)], check=True)
    w = "/tmp/tryproof-work"
    os.makedirs(w, exist_ok=True)
    subprocess.run(["python3-vt", "-m", "vfv.prove", prop, "--work", w, "--out", w + "/o.json"], cwd=VERIF,
                   env=dict(os.environ, VFC_REPO=root))
    o = json.load(open(w + "/o.json"))
    st = {}
    for b in o["obligations"]:
        st.setdefault(b["status"], []).append(b["name"])
    print("%s %s: %s; %ss; out of reach %d %s" % (x, prop, {k: len(v) for k, v in st.items()}, o.get("seconds"), len(o["bounded"]),
          o.get("broken", "")))
    for k in ("failed", "unknown"):
        for n in st.get(k, [])[:4]:
            print("   ", k, n, [b.get("cases") for b in o["obligations"] if b["name"] == n][:1])
    for b in o["bounded"][:3]:
        print("    B", b[:300])
    shutil.rmtree(root, ignore_errors=True)
