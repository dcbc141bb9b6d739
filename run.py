#!/usr/bin/env python3
"""run.py <property> <quick|thorough>            decide one property on /repo's working tree
   run.py <property> <tier> --replay <file>     re-execute one recorded violation
   run.py setup                                 self-test of the reference models

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Exit 2: the check itself could not run."""
import concurrent.futures as cf, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS, FLAVOURS

NPROC = int(os.environ.get("VP_JOBS", "0")) or os.cpu_count() or 4
BUILD = None
STALL = 100          # seconds without any progress of a process before its case is run alone


def log(*a):
    print(*a, flush=True)


def repo_sources():
    """the source directories the project's own CMakeLists lists"""
    dirs = []
    try:
        txt = open(os.path.join(REPO, "CMakeLists.txt")).read()
        dirs = [m for m in re.findall(r"^\s*aux_source_directory\(\s*(\S+)\s+wbcrypto_src", txt, re.M)]
    except OSError:
        pass
    if not dirs:
        dirs = ["WBMatrix/src"] + ["src/" + d for d in sorted(os.listdir(REPO + "/src"))]
    out = []
    for d in dirs:
        p = os.path.join(REPO, d)
        out += sorted(os.path.join(p, f) for f in os.listdir(p) if f.endswith(".c"))
    return out


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def build(h):
    """compile the library sources in the flavour and link them with the harness"""
    fl = FLAVOURS[h["flavour"]]
    cc = fl.get("cc", "gcc")
    inc = ["-I" + REPO + "/include", "-I" + REPO + "/WBMatrix/include", "-I" + HERE + "/harness"]
    key = h["flavour"] + ("" if "only" not in h else "-" + h["name"])
    d = os.path.join(BUILD, key)
    os.makedirs(d, exist_ok=True)
    srcs = repo_sources()
    jobs = []
    for s in srcs:
        o = os.path.join(d, os.path.relpath(s, REPO).replace("/", "_") + ".o")
        # one source is a 40,000-line list of assignments on which gcc's optimiser takes minutes
        big = ["-O0"] if os.path.getsize(s) > 300000 else []
        jobs.append((s, o, [cc, "-c", s, "-o", o] + fl["lib"] + big + inc))
    hobjs = []
    hd = os.path.join(BUILD, h["name"] + "." + h["flavour"])
    os.makedirs(hd, exist_ok=True)
    for s in h["src"] + ["vp.c", "ref.c"]:
        p = s if s.startswith("/") else (REPO + s[1:] if s.startswith("@") else os.path.join(HERE, "harness", s))
        o = os.path.join(hd, os.path.basename(s) + ".o")
        if p.endswith(".cpp"):
            c = ["g++", "-c", p, "-o", o] + fl.get("cxx", fl["har"]) + inc + ["-I/usr/include/mysql"]
        else:
            c = [cc, "-c", p, "-o", o] + fl["har"] + inc
        c += h.get("cflags", [])
        hobjs.append(o)
        jobs.append((p, o, c))
    jobs = [j for j in jobs if not os.path.exists(j[1])]

    def one(j):
        r = sh(j[2])
        return j, r
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for j, r in ex.map(one, jobs):
            if r.returncode:
                log("build of", j[0], "failed:", " ".join(j[2]))
                log(r.stdout[-3000:])
                sys.exit(2)
    lib = os.path.join(d, "libwb.a")
    if not os.path.exists(lib):
        objs = [os.path.join(d, os.path.relpath(s, REPO).replace("/", "_") + ".o") for s in srcs]
        r = sh(["ar", "rcs", lib] + objs)
        if r.returncode:
            log(r.stdout); sys.exit(2)
    exe = os.path.join(hd, "run")
    ld = "g++" if any(s.endswith(".cpp") for s in h["src"]) else cc
    r = sh([ld, "-o", exe] + hobjs + ["-Wl,--whole-archive", lib, "-Wl,--no-whole-archive"] + fl["link"] + h.get("ldflags", []) + ["-lssl", "-lcrypto", "-lm", "-ldl", "-lpthread"])
    if r.returncode:
        log("link of", h["name"], "failed"); log(r.stdout[-3000:])
        if h.get("optional_link"): return None
        sys.exit(2)
    return exe


SHM = struct.Struct("<8Q512s2048s")


def read_shm(path):
    try:
        b = open(path, "rb").read()
    except OSError:
        return None
    if len(b) < SHM.size:
        return None
    f = SHM.unpack_from(b)
    z = lambda x: x.split(b"\0")[0].decode("utf-8", "replace")
    d = dict(magic=f[0], cur=f[1], done=f[2], traces=f[3], trans=f[4], in_case=f[7], desc=z(f[8]), fail=z(f[9]))
    off = SHM.size
    notes = {}
    for i in range(32):
        n = z(b[off:off + 56]); v, = struct.unpack_from("<Q", b, off + 56); off += 64
        if n: notes[n] = v
    samples = []
    for i in range(4):
        s = z(b[off:off + 256]); off += 256
        if s: samples.append(s)
    off += 8
    known = []
    for i in range(16):
        s = z(b[off:off + 256]); off += 256
        if s: known.append(s)
    d.update(notes=notes, samples=samples, known=known)
    return d


def env_for(h):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("OMP_") or k.startswith("MALLOC_"): del e[k]
    e["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=99:malloc_fill_byte=165:max_malloc_fill_size=1073741824:"
                         "free_fill_byte=90:max_free_fill_size=65536:detect_stack_use_after_return=0:allocator_may_return_null=1:"
                         "detect_odr_violation=0:handle_abort=1:quarantine_size_mb=16")
    e["UBSAN_OPTIONS"] = "print_stacktrace=1"
    e["MALLOC_PERTURB_"] = "90"
    e.update(h.get("env", {}))
    return e


def cmd_for(exe, h, tier):
    c = [exe] + (["--thorough"] if tier == "thorough" else []) + (["--opt"] if h["flavour"].startswith("opt") else [])
    return c + h.get("args", [])


def preexec(h):
    def f():
        os.setsid()
        import resource
        st = h.get("stack_mb")
        if st:
            resource.setrlimit(resource.RLIMIT_STACK, (st << 20, st << 20))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def run_alone(exe, h, tier, case, work, limit=150):
    """one case in its own process; returns (failed, text)"""
    shm = os.path.join(work, "alone.shm")
    if os.path.exists(shm): os.unlink(shm)
    scratch = os.path.join(work, "alone.d"); os.makedirs(scratch, exist_ok=True)
    c = cmd_for(exe, h, tier) + ["--only", str(case), "--shm", shm]
    try:
        p = subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env_for(h), cwd=scratch, preexec_fn=preexec(h))
        out, _ = p.communicate(timeout=limit)
        s = read_shm(shm) or {}
        return p.returncode != 0, "exit %d\n%s" % (p.returncode, out.decode("utf-8", "replace")[-6000:]), s
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); p.communicate()
        return True, "no result within %d s when run alone" % limit, read_shm(shm) or {}


def run_shard(exe, h, tier, i, n, work, tab, deadline):
    shm = os.path.join(work, "s%d.shm" % i)
    scratch = os.path.join(work, "s%d.d" % i); os.makedirs(scratch, exist_ok=True)
    outp = os.path.join(work, "s%d.out" % i)
    c = cmd_for(exe, h, tier) + ["--shard", str(i), str(n), "--shm", shm, "--table", tab]
    with open(outp, "wb") as fo:
        p = subprocess.Popen(c, stdout=fo, stderr=fo, env=env_for(h), cwd=scratch, preexec_fn=preexec(h))
        last, t_last, why = None, time.time(), None
        while True:
            try:
                p.wait(1); break
            except subprocess.TimeoutExpired:
                s = read_shm(shm)
                k = (s["cur"], s["traces"], s["trans"]) if s else None
                now = time.time()
                if k != last: last, t_last = k, now
                elif now - t_last > STALL: why = "stall"
                if now > deadline: why = "deadline"
                if why:
                    os.killpg(p.pid, signal.SIGKILL); p.wait(); break
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    txt = open(outp, "rb").read().decode("utf-8", "replace")[-8000:]
    return dict(i=i, rc=p.returncode, why=why, shm=read_shm(shm), out=txt)


def explore(prop, h, tier, exe, deadline):
    work = tempfile.mkdtemp(prefix="vp-", dir=BUILD)
    tab = os.path.join(work, "table")
    n = h.get("shards", NPROC)
    with cf.ThreadPoolExecutor(min(n, NPROC)) as ex:
        rs = list(ex.map(lambda i: run_shard(exe, h, tier, i, n, work, tab, deadline), range(n)))
    with open(tab, "rb") as f:
        nstates, full, nout = struct.unpack("<3Q", f.read(24))
    res = dict(harness=h["name"], flavour=h["flavour"], states=nstates, states_table_full=bool(full), outcomes=nout,
               traces=0, transitions=0, notes={}, samples=[], known=[], complete=True, viol=[], unreproduced=[])
    for r in rs:
        s = r["shm"]
        if s:
            res["traces"] += s["traces"]; res["transitions"] += s["trans"]
            for k, v in s["notes"].items(): res["notes"][k] = res["notes"].get(k, 0) + v
            res["samples"] += s["samples"]; res["known"] += s["known"]
        if r["rc"] == 0 and s and s["done"]: continue
        if r["why"] == "deadline":
            res["complete"] = False; continue
        if res["viol"] and r["why"] == "stall":
            res["complete"] = False; continue          # one confirmed violation is enough; do not wait for every stuck process
        if r["rc"] == 3: log("harness environment error:", r["out"]); sys.exit(2)
        case = s["cur"] if s and s["cur"] != 2**64 - 1 else None
        if case is None:
            # died before any case: set-up code exercising the library crashed or failed
            r2 = run_shard(exe, h, tier, r["i"], n, work, tab + "2", time.time() + 240)
            if r2["rc"] != 0 or r2["why"]:
                res["viol"].append(dict(case=None, shard=[r["i"], n], desc="set-up of the harness", detail=r2["out"][-4000:], fail=(s or {}).get("fail", "")))
            else:
                res["unreproduced"].append(r["out"][-500:])
            continue
        bad, txt, s2 = run_alone(exe, h, tier, case, work)
        if bad:
            res["viol"].append(dict(case=case, shard=None, desc=s["desc"], detail=txt, fail=s2.get("fail") or s["fail"] or txt.splitlines()[-1] if txt else ""))
            continue
        if r["why"] == "stall":
            res["complete"] = False
            res["unreproduced"].append("slow, not stuck: case %s" % case); continue
        # passes alone: does the same history fail again?
        r2 = run_shard(exe, h, tier, r["i"], n, work, tab + "2", time.time() + 400)
        s2 = r2["shm"]
        if r2["rc"] != 0 and not r2["why"] and s2 and s2["cur"] == s["cur"]:
            res["viol"].append(dict(case=case, shard=[r["i"], n], desc=s["desc"] + " (after the preceding cases of shard %d/%d)" % (r["i"], n),
                                    detail=r2["out"][-4000:], fail=s2["fail"] or s["fail"]))
        else:
            res["complete"] = False
            res["unreproduced"].append(r["out"][-500:])
    shutil.rmtree(work, ignore_errors=True)
    return res


def main():
    global BUILD
    if len(sys.argv) < 2: print(__doc__); sys.exit(2)
    t0 = time.time()
    base = os.path.join(HERE, "build"); os.makedirs(base, exist_ok=True)
    BUILD = tempfile.mkdtemp(prefix="b-", dir=base)
    try:
        code = real_main(t0)
    finally:
        if not os.environ.get("VP_KEEP"): shutil.rmtree(BUILD, ignore_errors=True)
    sys.exit(code)


def real_main(t0):
    prop = sys.argv[1]
    if prop == "setup":
        r = sh(["gcc", "-O2", "-w", HERE + "/harness/reftest.c", HERE + "/harness/ref.c", "-o", BUILD + "/reftest", "-lcrypto"])
        if r.returncode: log(r.stdout); return 2
        r = sh([BUILD + "/reftest"]); log(r.stdout.strip())
        return r.returncode and 2
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    C = CHECKS[prop]
    hs = [dict(h) for h in C["harnesses"] if h.get("tiers", ("quick", "thorough")) and tier in h.get("tiers", ("quick", "thorough"))]
    if "--replay" in sys.argv:
        rep = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        h = [h for h in C["harnesses"] if h["name"] == rep["harness"] and h["flavour"] == rep["flavour"]][0]
        exe = build(h)
        if rep["shard"]:
            r = run_shard(exe, h, rep["tier"], rep["shard"][0], rep["shard"][1], BUILD, BUILD + "/tab", time.time() + 3000)
            log(r["out"]); return 1 if r["rc"] else 0
        bad, txt, s = run_alone(exe, h, rep["tier"], rep["case"], BUILD)
        log("case %s: %s" % (rep["case"], s.get("desc"))); log(txt)
        return 1 if bad else 0
    budget = C.get("budget", {}).get(tier, 700 if tier == "quick" else 6 * 3600)
    deadline = t0 + budget
    exes = [(h, build(h)) for h in hs]
    unlinked = [h["name"] + "/" + h["flavour"] for h, e in exes if not e]
    exes = [(h, e) for h, e in exes if e]
    allres = []
    for h, exe in exes:
        if any(r["viol"] for r in allres) and time.time() - t0 > 240:
            log("  %s/%s: skipped, a violation is already established" % (h["name"], h["flavour"])); continue
        r = explore(prop, h, tier, exe, deadline)
        allres.append(r)
        log("  %s/%s: %d traces, %d transitions, %d states, %d outcomes%s %s" % (r["harness"], r["flavour"], r["traces"], r["transitions"], r["states"], r["outcomes"],
            "" if r["complete"] else " (INCOMPLETE)", r["notes"] or ""))
        for u in r["unreproduced"]: log("  unreproduced:", u)
    viol = [(r, v) for r in allres for v in r["viol"]]
    known = {}
    for r in allres:
        for k in r["known"]:
            known.setdefault(k.split(" ", 1)[0], k.split(" ", 1)[1])
    listed = known_findings()
    for k, txt in sorted(known.items()):
        if (prop, k) in listed: log("KNOWN-FINDING: property=%s %s: %s" % (prop, k, txt))
        else: viol.append((allres[0], dict(case=None, shard=None, desc="finding " + k, detail=txt, fail=txt)))
    os.makedirs(HERE + "/replays", exist_ok=True)
    for n, (r, v) in enumerate(viol):
        path = HERE + "/replays/%s-%s-%s-%d.json" % (prop, r["harness"], r["flavour"], n)
        json.dump(dict(property=prop, tier=tier, harness=r["harness"], flavour=r["flavour"], case=v["case"], shard=v["shard"], description=v["desc"],
                       failure=v["fail"], detail=v["detail"], rerun="cd /verif && python3 run.py %s %s --replay %s" % (prop, tier, path)), open(path, "w"), indent=1)
        log("VIOLATION property=%s replay=%s" % (prop, path))
        log("   ", v["desc"], "->", (v["fail"] or v["detail"])[:1500])
    cov = dict(states=sum(r["states"] for r in allres), transitions=sum(r["transitions"] for r in allres),
               traces_validated_against_impl=sum(r["traces"] for r in allres),
               samples=[s for r in allres for s in r["samples"][:4]][:16],
               exhaustive=all(r["complete"] for r in allres) and not unlinked,
               distinct_outcomes=sum(r["outcomes"] for r in allres),
               per_harness={r["harness"] + "/" + r["flavour"]: dict(traces=r["traces"], transitions=r["transitions"], states=r["states"],
                            states_is_lower_bound=r["states_table_full"], complete=r["complete"], measured=r["notes"]) for r in allres},
               bounds=C["bounds"][tier] if isinstance(C["bounds"], dict) else C["bounds"], rule=C["rule"])
    if C["level"] == "fault_enumeration":
        cov["evaluations"] = cov["traces_validated_against_impl"]
        cov["distinct_nontrivial"] = cov["distinct_outcomes"]
    os.makedirs(HERE + "/evidence", exist_ok=True)
    json.dump(dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=C["level"], coverage=cov,
                   assumptions=C.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(viol)),
              open(HERE + "/evidence/%s.json" % prop, "w"), indent=1)
    log("%s %s: %d violation(s), %.1f s" % (prop, tier, len(viol), time.time() - t0))
    return 1 if viol else 0


def known_findings():
    out = set()
    try:
        for l in open(HERE + "/known-findings.txt"):
            m = re.match(r"known: property=(\S+) key=(\S+)", l)
            if m: out.add((m.group(1), m.group(2)))
    except OSError:
        pass
    return out


if __name__ == "__main__":
    main()
