#!/usr/bin/env python3
"""Developer aid: run checks against edited scratch copies of /repo/src.

mut.py FILE [ID...] where FILE holds blocks:
  == name [expect ID|quiet]
  @@ path
  <<<
  old
  ===
  new
  >>>
"""
import os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def parse(p):
    muts = []
    cur = None
    lines = open(p).read().split("\n")
    i = 0
    while i < len(lines):
        l = lines[i]
        if l.startswith("== "):
            parts = l[3:].split()
            cur = {"name": parts[0], "expect": parts[1:], "edits": []}
            muts.append(cur)
        elif l.startswith("@@ "):
            path = l[3:].strip()
        elif l == "<<<":
            j = lines.index("===", i)
            k = lines.index(">>>", j)
            cur["edits"].append((path, "\n".join(lines[i + 1:j]), "\n".join(lines[j + 1:k])))
            i = k
        i += 1
    return muts


def run(slot, m, ids):
    root = f"/tmp/mut/{slot}"
    src = os.path.join(root, "src")
    os.makedirs(root, exist_ok=True)
    subprocess.run(["rsync", "-a", "--delete", "/repo/src/", src + "/"] if shutil.which("rsync") else ["bash", "-c", f"rm -rf {src} && cp -a /repo/src {src}"], check=True)
    for path, old, new in m["edits"]:
        f = os.path.join(root, path)
        s = open(f).read()
        if s.count(old) < 1:
            return f"{m['name']}: EDIT DOES NOT APPLY ({path}: {old[:60]!r})"
        open(f, "w").write(s.replace(old, new, 1))
    env = dict(os.environ, YAGA_REPO=root, YAGA_VERIF_BUILD=f"/tmp/mut/{slot}/build", YAGA_EVIDENCE=f"/tmp/mut/{slot}/evidence")
    out = []
    alts = [x for x in m["expect"] if "|" in x]
    expect = [y for x in m["expect"] for y in x.split("|")]
    fired = []
    for pid in ids or [x for x in expect if x != "quiet"]:
        p = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), pid], capture_output=True, text=True, env=env, cwd=VERIF)
        want = 0 if "quiet" in expect else 1 if pid in expect else None
        fired.append(p.returncode)
        verdict = "" if want is None else "good" if p.returncode == want else "*** WRONG ***"
        if alts and "quiet" not in expect and 1 in fired and 2 not in fired:
            verdict = "good"
        elif alts and "quiet" not in expect and len(fired) < len(expect) and p.returncode == 0:
            verdict = "(next)"
        det = [l.strip()[:300] for l in p.stdout.splitlines() if l.startswith("  [")][:3]
        if p.returncode == 2 or p.returncode and not det:
            det = (p.stderr.strip().splitlines() or ["?"])[-1:]
        out.append(f"{m['name']:28} {pid} rc={p.returncode} {verdict} {'' if p.returncode==0 else ' | '.join(det)}")
    return "\n".join(out)


def main():
    muts = parse(sys.argv[1])
    sel = [a for a in sys.argv[2:] if not a.startswith("-n=")]
    names = [a[3:] for a in sys.argv[2:] if a.startswith("-n=")]
    if names:
        muts = [m for m in muts if any(n in m["name"] for n in names)]
    import fcntl, time

    def job(m):
        while True:
            for i in range(6):
                f = open(f"/tmp/mut.{i}.lock", "w")
                try:
                    fcntl.flock(f, fcntl.LOCK_EX | fcntl.LOCK_NB)
                except OSError:
                    f.close()
                    continue
                try:
                    return run(i, m, sel)
                finally:
                    f.close()
            time.sleep(0.2)
    with ThreadPoolExecutor(5) as ex:
        for r in ex.map(job, muts):
            print(r, flush=True)


if __name__ == "__main__":
    main()
