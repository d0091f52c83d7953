#!/usr/bin/env python3
"""Planted changes.  plant.py make SPEC.py   write seeded/<id>/ from a spec
                     plant.py try [ID...]    confirm each (builds, tests pass, demo tells apart) and run its check
Spec: SEEDS = [dict(id, prop, needs, breaks, edits=[(file, old, new)...], demo=C source, cc=extra flags, pre=shell)]"""
import json, os, subprocess, sys, shutil, runpy, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(ROOT, "seeded")
DEMO = """#!/bin/bash
# Compiles demo.c against the built library and runs it; nonzero when the property is broken.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 0
trap 'rm -rf "$t"' EXIT
gcc -g -O1 -w -std=gnu99 -D_GNU_SOURCE %(cc)s -Isrc/include "$d/demo.c" target/Linux-x86_64/lib/libaerospike-common.a \\
	-lssl -lcrypto -lcrypt -lpthread -lm -lrt -o "$t/demo" || exit 0
cd "$t" || exit 0
%(run)stimeout 120 ./demo
"""
def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean():
    sh("git -C /repo checkout -- .")
def touched_own():
    """Lines removed by the working-tree change that are not lines of the original repository."""
    root = sh("git -C /repo log --format=%H --reverse").stdout.split()[0]
    out, f, old = [], None, 0
    for l in sh("git -C /repo diff -U0").stdout.splitlines():
        if l.startswith("--- a/"): f = l[6:]
        elif l.startswith("@@"): old = int(l.split()[1][1:].split(",")[0])
        elif l.startswith("-") and not l.startswith("---"):
            b = sh("git -C /repo blame -l -L %d,%d HEAD -- %s" % (old, old, f)).stdout
            if not b.lstrip("^").startswith(root[:30]): out.append("%s:%d" % (f, old))
            old += 1
    return out
def make(spec):
    for s in runpy.run_path(spec)["SEEDS"]:
        assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo not clean"
        d = os.path.join(SEED, s["id"])
        os.makedirs(d, exist_ok=True)
        try:
            bad = False
            for f, a, b, *nth in s["edits"]:
                p = os.path.join("/repo", f)
                t = open(p).read()
                if not nth and t.count(a) != 1 or nth and t.count(a) <= nth[0]:
                    print(s["id"], "NOT MADE: edit matches", t.count(a), "times:", a[:80]); bad = True; break
                i = -1
                for _ in range(nth[0] + 1 if nth else 1): i = t.index(a, i + 1)
                open(p, "w").write(t[:i] + b + t[i + len(a):])
            diff = sh("git -C /repo diff").stdout
            if bad: shutil.rmtree(d); continue
            open(d + "/patch.diff", "w").write(diff)
            own = touched_own()
        finally:
            clean()
        if own: print(s["id"], "WARNING: changes lines this work added:", own)
        open(d + "/demo.c", "w").write(s["demo"])
        open(d + "/demo.sh", "w").write(DEMO % {"cc": s.get("cc", ""), "run": s.get("run", "")})
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print("made", s["id"])
def build():
    r = sh(["bash", "/opt/vp/build.sh"])
    return r.returncode == 0, r.stdout
def demo(i):
    return sh(["bash", os.path.join(SEED, i, "demo.sh")], cwd="/repo")
def remember(i, prop, key):
    """tools/catch.txt: id, property, check, first observation (read by tools/design.py)."""
    f = os.path.join(ROOT, "tools", "catch.txt")
    lines = [l for l in (open(f).read().splitlines() if os.path.exists(f) else []) if l.split("\t")[0] != i]
    key = key.replace("key=", "").split()[0] if key else ""
    lines.append("\t".join([i, prop, prop, key]))
    open(f, "w").write("\n".join(sorted(lines)) + "\n")
def attempt(ids, check=True):
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo not clean"
    ok, o = build(); assert ok, o[-2000:]
    base = {}
    for i in ids:
        r = demo(i)
        base[i] = r.returncode
        if r.returncode: print(i, "DEMO FAILS ON UNCHANGED TREE", r.returncode, r.stdout[-800:])
    out = {}
    for i in ids:
        if base[i]: out[i] = "bad demo"; continue
        m = json.load(open(os.path.join(SEED, i, "meta.json")))
        try:
            r = sh(["git", "-C", "/repo", "apply", os.path.join(SEED, i, "patch.diff")])
            if r.returncode: out[i] = "does not apply: " + r.stdout; continue
            ok, o = build()
            if not ok: out[i] = "does not build: " + o[-1500:]; continue
            r = sh([sys.executable, os.path.join(ROOT, "tools/repotest.py")])
            if r.returncode: out[i] = "tests fail: " + r.stdout[-300:]; continue
            r = demo(i)
            if not r.returncode: out[i] = "DEMO PASSES WITH CHANGE " + r.stdout[-500:]; continue
            dm = r.stdout.strip().splitlines()[-1:] 
            if check:
                t = time.time()
                r = sh([sys.executable, os.path.join(ROOT, "run.py"), m["property"], "quick"])
                hit = r.returncode == 1 and ("VIOLATION property=%s " % m["property"]) in r.stdout
                keys = [l.strip()[:200] for l in r.stdout.splitlines() if l.strip().startswith("key=")]
                if hit: remember(i, m["property"], keys[0] if keys else "")
                out[i] = ("caught" if hit else "MISSED rc=%d" % r.returncode) + " %.0fs " % (time.time() - t) + (keys[0] if keys else r.stdout[-600:] if not hit else "")
            else: out[i] = "valid, demo says %s" % dm
        finally:
            clean()
        print("%-34s %s %s" % (i, m["property"], out[i]), flush=True)
    for i in ids:
        if not str(out.get(i, "")).startswith(("caught", "valid")): print("**", i, out.get(i))
    build()
    return out
if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "make": make(a[1])
    else:
        ids = a[1:] or sorted(os.listdir(SEED))
        ids = [x for x in ids if not x.startswith("--")]
        if a[0] == "valid": attempt(ids or sorted(os.listdir(SEED)), check=False)
        else: attempt(ids)
