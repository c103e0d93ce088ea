#!/usr/bin/env python3
"""Developer aid: build and confirm a planted bug.

seed.py NAME PROPERTY [EDITS]   EDITS: file in the format of tools/mut.py with one block; without it the
existing seeded/NAME/patch.diff is used. Confirms, in a scratch copy of /repo: builds, stable tests pass,
demo exits 0 without and nonzero with the patch; then runs the property's check on it.
"""
import json, os, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INC = " ".join(f"-Isrc{x}" for x in ("", "/bool", "/lra", "/uf", "/variable_order", "/terms", "/utils", "/parser"))
DEMO = f'''#!/bin/bash
# exit 0: behaviour as specified; nonzero: broken. cwd: a built /repo
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
g++ -std=gnu++20 -g -w -flto=auto {INC} "$here/demo.cpp" _build/libyaga.a -lgmpxx -lgmp -o "$t/demo" || exit 98
timeout 100 "$t/demo"
'''
W, B = os.environ.get("SEED_W", "/tmp/seedw"), "/tmp/seedb"


def sh(cmd, cwd, **kw):
    return subprocess.run(["bash", "-c", cmd], cwd=cwd, capture_output=True, text=True, **kw)


def build(d):
    p = sh(f"cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DFOUND_CATCH=ON -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DCMAKE_CXX_FLAGS=-Wno-error >/dev/null && ninja -C _build", d,
           env=dict(os.environ, CC="/usr/bin/gcc", CXX="/usr/bin/g++"))
    if p.returncode:
        print(p.stdout[-3000:], p.stderr[-1000:])
    return p.returncode == 0


def tests(d):
    rep = os.path.join(d, "_build/reports")
    shutil.rmtree(rep, ignore_errors=True)
    os.makedirs(rep)
    p = sh(f"python3 /opt/vp/run_catch.py {d}/_build/test {rep}", d)
    return [l for l in (p.stdout + p.stderr).splitlines() if l.startswith("FAIL") or " 0 failed" not in l and "failed" in l]


def fresh(d):
    if os.path.exists(os.path.join(d, "_build", "build.ninja")):
        sh(f"git -C {d} checkout -q -- . && git -C {d} fetch -q /repo HEAD && git -C {d} reset -q --hard FETCH_HEAD", "/")
    else:
        shutil.rmtree(d, ignore_errors=True)
        sh(f"git clone -q /repo {d}", "/")


def main():
    name, pid = sys.argv[1:3]
    sd = os.path.join(VERIF, "seeded", name)
    if "--check" not in sys.argv:
        fresh(B)
        if not build(B):
            return 1
    fresh(W)
    if len(sys.argv) > 3 and sys.argv[3].endswith(".mut"):
        src = open(os.path.join(VERIF, "tools/mut.py")).read().split("def run(")[0]
        g = {"__file__": os.path.join(VERIF, "tools/mut.py")}
        exec(src, g)
        for path, old, new in next(m for m in g["parse"](sys.argv[3]) if m["name"] == name)["edits"]:
            f = os.path.join(W, path)
            s = open(f).read()
            if s.count(old) != 1:
                print("EDIT does not apply once:", s.count(old), old[:200])
                return 1
            open(f, "w").write(s.replace(old, new))
        os.makedirs(sd, exist_ok=True)
        open(os.path.join(sd, "patch.diff"), "w").write(sh("git diff", W).stdout)
    else:
        p = sh(f"git apply {sd}/patch.diff", W)
        if p.returncode:
            print(p.stderr)
            return 1
    demo = os.path.join(sd, "demo.sh")
    if not os.path.exists(demo):
        open(demo, "w").write(DEMO)
        os.chmod(demo, 0o755)
    if not build(W):
        return 1
    bad = tests(W)
    print("tests failing with the patch:", bad or "none")
    a, b = sh(f"bash {demo}", B), sh(f"bash {demo}", W)
    print("demo unchanged:", a.returncode, (a.stdout + a.stderr)[-400:])
    print("demo patched:  ", b.returncode, (b.stdout + b.stderr)[-400:])
    c = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), pid], capture_output=True, text=True, cwd=VERIF,
                       env=dict(os.environ, YAGA_REPO=W, YAGA_VERIF_BUILD="/tmp/seedbuild", YAGA_EVIDENCE="/tmp/seedbuild/ev"))
    print("check:", c.returncode, (c.stdout + c.stderr)[-600:])
    good = not bad and a.returncode == 0 and b.returncode != 0 and c.returncode == 1
    print("GOOD" if good else "*** NOT GOOD ***", name)
    return 0


sys.exit(main())
