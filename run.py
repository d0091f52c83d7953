#!/usr/bin/env python3
"""Runs the check of one property:  run.py <property> [quick|thorough]
   run.py --setup                 build every harness
   run.py --replay FILE           re-run the case of a replay file
Exit 0: held on everything explored.  1: violation (VIOLATION line).  2: no verdict."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
import vbuild
from checks import CHECKS

KF = os.path.join(ROOT, "known-findings.txt")
ENV_SAN = {
    "ASAN_OPTIONS": "exitcode=66:malloc_context_size=8:abort_on_error=0:detect_leaks=0:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=1:max_allocation_size_mb=8192:strict_string_checks=1:symbolize=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=66",
    "TSAN_OPTIONS": "exitcode=66:halt_on_error=1:abort_on_error=0:second_deadlock_stack=1:history_size=4:allocator_may_return_null=1:handle_abort=1",
}

def known(prop):
    out = {}
    if os.path.exists(KF):
        for line in open(KF):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out

def env():
    e = dict(os.environ)
    e.update(ENV_SAN)
    for k in ("LD_PRELOAD", "MALLOC_PERTURB_", "LD_LIBRARY_PATH"):
        e.pop(k, None)
    sym = shutil.which("llvm-symbolizer") or "/usr/bin/llvm-symbolizer-18"
    for k in ENV_SAN:
        e[k] += ":external_symbolizer_path=" + sym
    return e

def classify(rc, err):
    """-> (status, key, case, text). status: ok, fail, hang, error"""
    if rc == 0:
        return "ok", None, None, ""
    m = re.search(r"VF-FAIL key=(\S+) case=(\d+) scenario=(.*?) :: (.*)", err)
    if rc == 10 and m:
        return "fail", m.group(1), int(m.group(2)), m.group(4)
    m = re.search(r"VF-HANG case=(\d+) scenario=([^\n]*)", err)
    if rc == 11 and m:
        return "hang", "hang:" + m.group(2).replace(" ", "-"), int(m.group(1)), "no progress"
    case = re.search(r"VF-CRASH case=(\d+) scenario=([^\n]*)", err)
    c, sc = (int(case.group(1)), case.group(2).replace(" ", "-")) if case else (None, "unknown")
    kind = None
    m = re.search(r"ERROR: (?:AddressSanitizer|ThreadSanitizer): ([A-Za-z0-9_-]+)", err)
    if m:
        kind = m.group(1)
    if not kind:
        m = re.search(r"WARNING: ThreadSanitizer: ([a-z -]+)", err)
        if m:
            kind = m.group(1).strip().replace(" ", "-")
    if not kind:
        m = re.search(r"runtime error: (.*)", err)
        if m:
            kind = "ub"
    if kind:
        if kind == "out-of-memory" and False:
            pass
        return "fail", "crash:%s:%s" % (sc, kind), c, first_frame(err)
    if rc < 0:
        return "fail", "crash:%s:signal%d" % (sc, -rc), c, "killed by signal %d" % -rc
    if rc == 10:
        return "fail", "unnamed", None, err[-300:]
    return "error", None, None, "exit status %d" % rc

def first_frame(err):
    m = re.search(r"(runtime error: .*)", err)
    if m:
        return m.group(1)
    fr = re.findall(r"#\d+ (?:0x[0-9a-f]+ in )?(\S+) .*?(/repo/\S+)", err)
    return "in %s %s" % fr[0] if fr else ""

def one(exe, args, timeout, stop=None):
    """Runs a harness. stop: a list; once it holds a time, processes are ended at that time (a violation is already
    established and the others only get a little longer)."""
    with tempfile.TemporaryFile(dir=os.path.join(ROOT, "out")) as f:
        p = subprocess.Popen([exe] + args, stdout=f, stderr=f, env=env(), cwd=os.path.join(ROOT, "out"),
                             stdin=subprocess.DEVNULL, start_new_session=True)
        end, rc = time.time() + timeout, None
        while True:
            try:
                rc = p.wait(0.25 if stop is not None else 1)
                break
            except subprocess.TimeoutExpired:
                now = time.time()
                if now > end or (stop and now > stop[0]):
                    break
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        if rc is None:
            p.wait()
        f.seek(0, 2)
        n = f.tell()
        f.seek(max(0, n - (4 << 20)))
        return rc, f.read().decode(errors="replace")

def replay_file(prop, variant, exe_name, seed, tier, case, key, text, err):
    d = os.path.join(ROOT, "out", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s-%s-%s.json" % (prop, variant, seed, re.sub(r"[^A-Za-z0-9._-]", "_", str(key))[:80]))
    with open(p, "w") as f:
        json.dump(dict(property=prop, harness=exe_name, variant=variant, seed=seed, tier=tier, case=case, key=key,
                       what=text, output=err[-20000:],
                       rerun="python3 /verif/run.py --replay " + p), f, indent=1)
    return p

def check(prop, tier):
    cfg = CHECKS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    kn = known(prop)
    os.makedirs(os.path.join(ROOT, "out"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=os.path.join(ROOT, "out"))
    try:
        return check_in(prop, tier, cfg, seed, t0, kn, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def check_in(prop, tier, cfg, seed, t0, kn, work):
    jobs = []
    try:
        for v in cfg["variants"]:
            exe = vbuild.build([v["harness"]], v["build"])[v["harness"]]
            for s in range(v.get("shards", 8)):
                jobs.append((v, exe, s))
    except vbuild.BuildError as e:
        print("BUILD-ERROR property=%s\n%s" % (prop, e))
        return 2
    print("built in %.1fs" % (time.time() - t0))
    limit = 700 if tier == "quick" else 6 * 3600
    knarg = ["--known", ",".join(kn)] if kn else []

    stop = []
    def tell(st):
        if st[0] in ("fail", "hang") and st[1] not in kn and not stop:
            stop.append(time.time() + 20)
        return st

    def go(job):
        v, exe, s = job
        out = os.path.join(work, "%s-%s-%d.json" % (v["harness"], v["build"], s))
        base = ["--seed", str(seed), "--tier", tier, "--scale", str(v.get("scale", 1) * v.get("quick", 1) if tier == "quick" else v.get("tscale", v.get("scale", 1)))] + knarg
        args = base + ["--shard", str(s), "--shards", str(v.get("shards", 8)), "--out", out]
        if stop and time.time() > stop[0]:
            return job, ("stopped", None, None, ""), "", out
        rc, err = one(exe, args, limit, stop)
        if rc is None and stop:
            return job, ("stopped", None, None, ""), err, out
        if rc is None:
            return job, ("error", None, None, "time limit of the check"), err, out
        st = classify(rc, err)
        if st[0] == "hang":
            # A stall is reported only if the same case stalls again on its own.
            rc2, err2 = one(exe, base + ["--only", str(st[2]), "--limit", "100"], 300)
            st2 = classify(rc2, err2) if rc2 is not None else ("hang", st[1], st[2], "no progress")
            if st2[0] == "ok":
                rc3, err3 = one(exe, args, limit)
                st3 = classify(rc3, err3) if rc3 is not None else ("hang", st[1], st[2], "no progress")
                return job, tell(st3), err3, out
            return job, tell(st2), err2, out
        return job, tell(st), err, out
    shards = max(v.get("par", 8) for v in cfg["variants"])
    with ThreadPoolExecutor(shards) as ex:
        results = list(ex.map(go, jobs))

    viol, errors, kn_hit = [], [], {}
    counters, floors, sets, samples = {}, {}, {}, []
    for (v, exe, s), st, err, out in results:
        if st[0] in ("fail", "hang"):
            key = st[1]
            if key in kn:
                kn_hit[key] = kn_hit.get(key, 0) + 1
                errors.append("shard %d of %s ended early at a listed finding (%s)" % (s, v["harness"], key))
                continue
            viol.append((v, st, err))
            continue
        if st[0] == "stopped":
            continue
        if st[0] == "error":
            errors.append("%s/%s shard %d: %s\n%s" % (v["harness"], v["build"], s, st[3], err[-3000:]))
            continue
        d = json.load(open(out))
        for k, n in d["counters"].items():
            counters[k] = counters.get(k, 0) + n
            counters_by = k
        for k, n in d["floors"].items():
            floors[k] = max(floors.get(k, 0), n)
        for k, n in d["known"].items():
            kn_hit[k] = kn_hit.get(k, 0) + n
        for k in d["sets"]:
            raw = open(out + "." + k + ".set", "rb").read()
            sets.setdefault(k, set()).update(raw[i:i + 8] for i in range(0, len(raw), 8))
        samples += d["samples"]
    for key in sorted(kn_hit):
        print("KNOWN-FINDING: property=%s %s (key=%s, seen %d times)" % (prop, kn[key], key, kn_hit[key]))
    rc = 0
    seen = set()
    for v, st, err in viol:
        if st[1] in seen:
            continue
        seen.add(st[1])
        p = replay_file(prop, v["build"], v["harness"], seed, tier, st[2], st[1], st[3], err)
        print("VIOLATION property=%s replay=%s" % (prop, p))
        print("  key=%s case=%s %s" % (st[1], st[2], st[3]))
        rc = 1
    vac = []
    if not viol:
        for k, n in floors.items():
            if counters.get(k, 0) < n:
                vac.append("%s observed %d times, needs %d" % (k, counters.get(k, 0), n))
        if not sets.get("distinct"):
            vac.append("nothing distinct observed")
    cov = dict(evaluations=counters.get("evals", counters.get("cases", 0)),
               distinct_nontrivial=len(sets.get("distinct", ())),
               rule=cfg["rule"], samples=samples[:8] or ["(none)"],
               observed={k: v for k, v in sorted(counters.items())},
               distinct_sets={k: len(v) for k, v in sorted(sets.items())},
               variants=["%s/%s" % (v["harness"], v["build"]) for v in cfg["variants"]])
    ev = dict(property=prop, tier=tier, seed=seed, level=cfg.get("level", "exploration"), coverage=cov,
              assumptions=cfg.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(seen))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    tmp = os.path.join(ROOT, "evidence", ".%s.tmp" % prop)
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(ROOT, "evidence", prop + ".json"))
    if rc == 0 and (errors or vac):
        print("INCONCLUSIVE property=%s" % prop)
        for e in errors + vac:
            print("  " + e)
        rc = 2
    print("property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs exit=%d" % (
        prop, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0, rc))
    if rc == 0:
        vbuild.prune()
    return rc

def setup():
    byv = {}
    for c in CHECKS.values():
        for v in c["variants"]:
            byv.setdefault(v["build"], set()).add(v["harness"])
    for b, names in sorted(byv.items()):
        vbuild.build(sorted(names), b)
        print("built %s: %s" % (b, " ".join(sorted(names))))
    return 0

def replay(path):
    d = json.load(open(path))
    exe = vbuild.build([d["harness"]], d["variant"])[d["harness"]]
    os.makedirs(os.path.join(ROOT, "out"), exist_ok=True)
    args = ["--seed", str(d["seed"]), "--tier", d["tier"]]
    if d["case"] is not None:
        args += ["--only", str(d["case"])]
    rc, err = one(exe, args, 900)
    sys.stdout.write(err)
    print("replay exit", rc)
    return 0 if rc == 0 else 1

if __name__ == "__main__":
    a = sys.argv[1:]
    if not a:
        sys.exit(__doc__)
    try:
        if a[0] == "--setup":
            sys.exit(setup())
        if a[0] == "--replay":
            sys.exit(replay(a[1]))
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        sys.exit(check(a[0], tier))
    except vbuild.BuildError as e:
        print("BUILD-ERROR\n%s" % e)
        sys.exit(2)
