#!/usr/bin/env python3
"""Build /verif/seeded/<id>/ from the list in tools/seeds.py (edits of /repo's HEAD + demonstration) and confirm each one in a scratch copy:
   seedgen.py [id...]   writes the folders;  seedgen.py --confirm id...  also builds, tests and runs the demo with and without the change."""
import sys, os, subprocess, json, tempfile, shutil
sys.path.insert(0, os.path.dirname(__file__))
from seeds import SEEDS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# Exit 0 when the property holds, nonzero when it is broken.  Run in the repository's root after the build.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
%s
cd "$t" && timeout 250 ./demo
'''
CC = 'gcc -w -g -fcommon -std=gnu99 -fopenmp -O1 -Iinclude -IWBMatrix/include%s "$d/demo.c" _build/out/libwbcrypto.a %s-lssl -lcrypto -lm -o "$t/demo" || exit 2'
def sh(*a, **k): return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def write(id, s):
    d = os.path.join(V, "seeded", id); os.makedirs(d, exist_ok=True)
    with tempfile.TemporaryDirectory() as t:
        sh("git", "-C", "/repo", "worktree", "add", "--detach", "-f", t + "/w", "HEAD")
        for f, old, new, *nth in s["edits"]:
            p = t + "/w/" + f; x = open(p, errors="surrogateescape", newline="").read()
            if "\r\n" in x: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if nth and nth[0] == "all": assert x.count(old) >= 1, (id, f, old); y = x.replace(old, new)
            elif nth:
                q = x.split(old); k = nth[0]; assert len(q) > k, (id, f, len(q) - 1, old)
                y = old.join(q[:k]) + new + old.join(q[k:])
            else: assert x.count(old) == 1, (id, f, x.count(old), old); y = x.replace(old, new)
            open(p, "w", errors="surrogateescape", newline="").write(y)
        diff = subprocess.run(["git", "-C", t + "/w", "diff"], stdout=subprocess.PIPE).stdout
        sh("git", "-C", "/repo", "worktree", "remove", "--force", t + "/w"); sh("git", "-C", "/repo", "worktree", "prune")
    open(d + "/patch.diff", "wb").write(diff)
    open(d + "/demo.c", "w").write(s["demo"])
    body = s.get("build") or CC % (s.get("inc", ""), s.get("ld", ""))
    open(d + "/demo.sh", "w").write(SH % body); os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
def confirm(id):
    """in /repo itself, as vcheck does: build + tests + demo with and without the patch; the tree is restored"""
    p = os.path.join(V, "seeded", id); demo = p + "/demo.sh"; R = "/repo"
    assert sh("git", "-C", R, "status", "--porcelain").stdout == ""
    r0 = sh("bash", "/opt/vp/build.sh"); a = sh("bash", demo, cwd=R)
    r = sh("git", "-C", R, "apply", p + "/patch.diff"); assert r.returncode == 0, r.stdout
    try:
        b = sh("bash", "/opt/vp/build.sh"); t = sh("bash", "/opt/vp/test.sh", "/tmp/seed-test.json"); c = sh("bash", demo, cwd=R)
        ok = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", json.load(open("/opt/vp/BASELINE.json")).get("passed", [])))
        ps = set(json.load(open("/tmp/seed-test.json"))["passed"])
    finally:
        sh("git", "-C", R, "checkout", "--", "."); sh("bash", "/opt/vp/build.sh")
    good = a.returncode == 0 and b.returncode == 0 and c.returncode != 0 and not (ok - ps)
    print(id, "OK" if good else "BAD", "clean", a.returncode, a.stdout[-200:].strip(), "| build", b.returncode, "| lost tests", sorted(ok - ps), "| patched", c.returncode, c.stdout[-200:].strip(), flush=True)
if __name__ == "__main__":
    a = sys.argv[1:]; conf = "--confirm" in a; a = [x for x in a if x != "--confirm"] or sorted(SEEDS)
    for i in a: write(i, SEEDS[i])
    if conf:
        for i in a: confirm(i)
