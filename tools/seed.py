#!/usr/bin/env python3
"""Generates /verif/seeded/<id>/ from tools/seeds/<id>.py: builds each change in a scratch copy of /repo, confirms
that the stable tests pass with it and that its demonstration tells the two apart. Usage: seed.py [ID...]"""
import json, os, shutil, subprocess, sys, tempfile, runpy
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
LIB = """#!/bin/bash
# Run with cwd = the repository, after it was built.
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
g++ -std=c++14 -g -w %s-Ilib/include -I_build/lib/include -Itool -isystem /opt/vp/deps/include \\
	"$(dirname "$0")/demo.cpp" %s_build/output/libvfcd.a -o "$d/demo" || exit 2
cd "$d" && timeout 120 ./demo
"""
HEAD = """#include <VFC/Converter.h>
#include <VFC/VertexFormat.h>
#include <VFC/VertexValue.h>
#include <VFC/IndexData.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
using namespace vfc;
#define CHECK(c) do { if (!(c)) { std::printf("line %d: %s\\n", __LINE__, #c); std::exit(1); } } while (0)
"""

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def stable():
    return set(json.load(open("/opt/vp/BASELINE.json")).get("stable") or json.load(open("/opt/vp/BASELINE.json"))["passed"])

def build_and_test(root):
    # the build scripts name /repo: run them in a private view where the scratch copy is /repo
    script = "mount --bind %s /repo && bash /opt/vp/build.sh >/tmp/seed.log 2>&1 && bash /opt/vp/test.sh /tmp/seed.json >>/tmp/seed.log 2>&1" % root
    return sh(["unshare", "-m", "bash", "-c", script])

def main():
    want = sys.argv[1:]
    for fn in sorted(os.listdir(os.path.join(HERE, "seeds"))):
        sid = fn[:-3]
        if not fn.endswith(".py") or (want and sid not in want):
            continue
        s = runpy.run_path(os.path.join(HERE, "seeds", fn))
        root = "/tmp/seedrepo"
        shutil.rmtree(root, ignore_errors=True)
        sh(["cp", "-a", "/repo", root])
        for path, old, new in s["EDITS"]:
            p = os.path.join(root, path)
            t = open(p).read()
            assert t.count(old) == 1, (sid, path, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        out = os.path.join(VERIF, "seeded", sid)
        os.makedirs(out, exist_ok=True)
        diff = sh(["git", "-C", root, "diff"]).stdout
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        for name, text in s.get("FILES", {}).items():
            open(os.path.join(out, name), "w").write(text)
        if "DEMO" in s:
            open(os.path.join(out, "demo.cpp"), "w").write(HEAD + s.get("INC", "") + s["DEMO"])
            open(os.path.join(out, "demo.sh"), "w").write(LIB % (s.get("FLAGS", ""), s.get("SRC", "")))
        else:
            open(os.path.join(out, "demo.sh"), "w").write(s["SH"])
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        r = build_and_test(root)
        tests = json.load(open("/tmp/seed.json")) if r.returncode == 0 else {"failed": ["?"]}
        demo = os.path.join(out, "demo.sh")
        with_bug = sh(["bash", demo], cwd=root)
        without = sh(["bash", demo], cwd="/repo")
        ok = (r.returncode == 0 and not tests["failed"] and len(tests["passed"]) >= 121
              and with_bug.returncode not in (0, 2) and without.returncode == 0)
        print(sid, "OK" if ok else "BAD", "tests failed:", tests["failed"][:5], "demo with bug:", with_bug.returncode,
              "without:", without.returncode, flush=True)
        if not ok:
            print(with_bug.stdout[-600:], without.stdout[-600:], r.stdout[-600:])
        shutil.rmtree(root, ignore_errors=True)
main()
