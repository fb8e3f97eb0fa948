#!/usr/bin/env python3
"""Builds one property's simulation from /repo's working tree and runs it.

usage: check.py ID            run the check (tier from VERIF_TIER, seed from VERIF_SEED)
       check.py ID --thorough the thorough tier
       check.py ID --replay F replay a recorded failure
       check.py --build-only [ID...]
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PAPILIO_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SIM = os.path.join(VERIF, "sim")
CXX = "g++"
COMMON = ["-std=c++20", "-O1", "-g1", "-w", "-fno-omit-frame-pointer"]
MODES = {
    # full crash/corruption detection plus edge counting (coverage and step budget)
    "asan": dict(cc=["-fsanitize=address", "-fsanitize-coverage=trace-pc", "-D_GLIBCXX_ASSERTIONS", "-fno-pie"],
                 kernel=["-fsanitize=address", "-fno-pie"], ld=["-fsanitize=address", "-no-pie"]),
    # every memory access calls the simulator (scheduling points, happens-before race detection)
    "sched": dict(cc=["-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-DSIM_SCHED", "-fno-pie"],
                  kernel=["-DSIM_SCHED", "-fno-pie"],
                  ld=["-no-pie", "-pthread"] + ["-Wl,--wrap=" + f for f in (
                      "pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock "
                      "pthread_once sched_yield __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort __cxa_thread_atexit __cxa_allocate_exception "
                      "memcpy memmove memset memcmp memchr strlen wmemcpy wmemmove wmemset wmemcmp wmemchr wcslen "
                      "flockfile funlockfile ftrylockfile fwrite fputs fputc putc putchar puts fputws fputwc ferror feof clearerr vfprintf fprintf "
                      "setvbuf fileno fwide fflush fwrite_unlocked fputs_unlocked fputc_unlocked putc_unlocked fflush_unlocked ferror_unlocked "
                      "vsnprintf snprintf sprintf strftime localtime gmtime asctime setlocale "
                      "_ZSt8to_charsPcS_f _ZSt8to_charsPcS_d _ZSt8to_charsPcS_e _ZSt8to_charsPcS_fSt12chars_format _ZSt8to_charsPcS_dSt12chars_format "
                      "_ZSt8to_charsPcS_eSt12chars_format _ZSt8to_charsPcS_fSt12chars_formati _ZSt8to_charsPcS_dSt12chars_formati _ZSt8to_charsPcS_eSt12chars_formati "
                      "_ZSt10from_charsPKcS0_RfSt12chars_format _ZSt10from_charsPKcS0_RdSt12chars_format _ZSt10from_charsPKcS0_ReSt12chars_format").split()]),
}
HEAVY = {"xchar.cpp"}


def die(msg, code=2):
    print("ERROR:", msg)
    sys.exit(code)


def sh(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def tree_hash():
    h = hashlib.sha256()
    for root in ("include", "src"):
        for d, ds, fs in sorted(os.walk(os.path.join(REPO, root))):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, REPO).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def header(pid):
    path = os.path.join(SIM, pid + ".cpp")
    txt = open(path).read()
    opts = {}
    for m in re.finditer(r"^// SIM: (.*)$", txt, re.M):
        for kv in m.group(1).split():
            k, _, v = kv.partition("=")
            opts[k] = v or "1"
    return opts


def locales(names):
    # compiled from the sources the C library ships, for checks that vary the process locale
    if not names:
        return
    d = os.path.join(BUILD, "locale")
    os.makedirs(d, exist_ok=True)
    for n in names.split(","):
        dst = os.path.join(d, n + ".UTF-8")
        if not os.path.isdir(dst):
            tmp = tempfile.mkdtemp(dir=d)
            try:
                subprocess.run(["localedef", "-i", n, "-f", "UTF-8", os.path.join(tmp, "x")], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                os.rename(os.path.join(tmp, "x"), dst)
            except OSError:
                pass  # the check then makes do with the facets it defines itself
            shutil.rmtree(tmp, ignore_errors=True)
    os.environ["LOCPATH"] = d


class CompileError(Exception):
    pass


def compile_one(cmd, out):
    if os.path.exists(out):
        return
    tmp = out + ".%d.tmp" % os.getpid()
    r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise CompileError(" ".join(cmd) + "\n" + r.stdout[-6000:])
    os.replace(tmp, out)


def build(pids):
    os.makedirs(BUILD, exist_ok=True)
    th = tree_hash()
    ccver = subprocess.run([CXX, "--version"], capture_output=True, text=True).stdout
    kern_src = {f: open(os.path.join(SIM, f), "rb").read() for f in os.listdir(SIM) if f in ("sim.hpp", "sim.cpp", "sched.cpp", "sched.hpp")}
    extra_hdr = b"".join(open(f, "rb").read() for f in sorted(glob.glob(SIM + "/*.hpp")))
    jobs, links = [], []
    allsrc = sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True))
    for pid in pids:
        o = header(pid)
        mode = o.get("mode", "asan")
        m = MODES[mode]
        inc = ["-I" + REPO + "/include", "-I" + SIM]
        lib = sh(th, ccver, COMMON, m["cc"])
        objs, lazy = [], []
        src = allsrc
        if "src" in o:  # light: only these units unless the link needs more
            want = set(o["src"].split(",")) if o["src"] != "none" else set()
            src = [s for s in allsrc if os.path.relpath(s, REPO + "/src") in want]
            lazy = [s for s in allsrc if s not in src]
        elif "xchar" not in o:
            src = [s for s in allsrc if os.path.basename(s) not in HEAVY]
            lazy = [s for s in allsrc if s not in src]

        def libobj(s):
            rel = os.path.relpath(s, REPO).replace("/", "_")
            return os.path.join(BUILD, "lib-%s-%s.o" % (lib, rel)), [CXX] + COMMON + m["cc"] + inc + ["-c", s]
        my = open(os.path.join(SIM, pid + ".cpp"), "rb").read()
        first = []
        for part in range(int(o.get("parts", "1"))):  # one source compiled in several pieces, in parallel
            so = os.path.join(BUILD, "%s-%d-%s.o" % (pid, part, sh(lib, my, extra_hdr)))
            first.append((so, [CXX] + COMMON + m["cc"] + inc + ["-DSIM_PART=%d" % part, "-c", os.path.join(SIM, pid + ".cpp")]))
            objs.append(so)
        for k in ("sim.cpp",) + (("sched.cpp",) if mode == "sched" else ()):
            ko = os.path.join(BUILD, "kern-%s-%s.o" % (k, sh(ccver, COMMON, m["kernel"], *[kern_src[x] for x in sorted(kern_src)])))
            first.append((ko, [CXX] + COMMON + m["kernel"] + inc + ["-c", os.path.join(SIM, k)]))
            objs.append(ko)
        for s in src:
            lo, cmd = libobj(s)
            first.append((lo, cmd))
            objs.append(lo)
        jobs += first
        links.append((pid, m, objs, [libobj(s) for s in lazy], o))
    seen, uniq = set(), []
    weight = lambda j: -sum(w * (n in j[0]) for n, w in (("xchar", 5), ("format.cpp", 4), ("print.cpp", 3))) if "lib-" in j[0] else -6
    for j in sorted(jobs, key=weight):
        if j[0] not in seen:
            seen.add(j[0])
            uniq.append(j)
    with ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", os.cpu_count() or 8))) as ex:
        list(ex.map(lambda j: compile_one(j[1], j[0]), uniq))
        bins = {}
        for pid, m, objs, lazy, o in links:
            exe = os.path.join(BUILD, "%s-%s" % (pid, sh(*objs, m["ld"])))
            bins[pid] = exe
            if os.path.exists(exe):
                continue
            tmp = exe + ".%d.tmp" % os.getpid()
            cmd = lambda ob: [CXX] + m["ld"] + ob + ["-o", tmp, "-pthread"] + (o["libs"].split(",") if "libs" in o else [])
            r = subprocess.run(cmd(objs), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode and lazy:
                list(ex.map(lambda j: compile_one(j[1], j[0]), lazy))
                r = subprocess.run(cmd(objs + [x[0] for x in lazy]), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise CompileError("link of %s failed\n%s" % (pid, r.stdout[-4000:]))
            os.replace(tmp, exe)
    # drop stale products
    keep = time.time() - 6 * 3600
    for f in glob.glob(BUILD + "/*"):
        try:
            if os.path.isfile(f) and os.path.getmtime(f) < keep:
                os.unlink(f)
        except OSError:
            pass
    return bins


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def main():
    a = sys.argv[1:]
    if a and a[0] == "--build-only":
        ids = a[1:] or sorted(os.path.basename(p)[:-4] for p in glob.glob(SIM + "/[A-Z][0-9][0-9].cpp"))
        build(ids)
        return 0
    if "--thorough" in a:
        a.remove("--thorough")
        os.environ["VERIF_TIER"] = "thorough"
    pid = a[0]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    print("check %s tier=%s VERIF_SEED=%d" % (pid, tier, seed), flush=True)
    try:
        exe = build([pid])[pid]
    except CompileError as e:
        die("build failed\n" + str(e))
    locales(header(pid).get("locales", ""))
    tb = time.time() - t0
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    if len(a) > 2 and a[1] == "--replay":
        return subprocess.run([exe, "--replay", a[2], "--replay-dir", rdir]).returncode
    info = json.loads(subprocess.run([exe, "--info"], capture_output=True, text=True).stdout)
    runs = info["%s_runs" % tier]
    maxs = {"quick": 100, "thorough": 600}[tier]
    runs = int(os.environ.get("VERIF_RUNS", runs))
    maxs = float(os.environ.get("VERIF_MAXSECS", maxs))
    W = int(os.environ.get("VERIF_WORKERS", min(8, os.cpu_count() or 8)))
    fd, stats = tempfile.mkstemp(prefix="stats-", dir=rdir)
    os.close(fd)
    r = subprocess.run([exe, "--seed", str(seed), "--runs", str(runs), "--workers", str(W), "--max-secs", str(maxs),
                        "--shrink-secs", "60", "--replay-dir", rdir, "--stats", stats], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    sys.stdout.write(r.stdout)
    try:
        s = json.load(open(stats))
    except Exception as e:
        s = None
    os.unlink(stats)
    if s is None:
        die("the simulator gave no statistics (status %d)" % r.returncode)
    wall = time.time() - t0
    h = max(s["wall"], 1e-3) / 3600.0
    manifest = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
    level = next((c["level"] for c in manifest["checks"] if c["property"] == pid), "exploration")
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "evaluations": s["runs"],
            "distinct_nontrivial": s["distinct_nontrivial"],
            "rule": s["rule"],
            "samples": s["samples"],
            "runs_per_hour": int(s["runs"] / h),
            "seeds_per_hour": int(s["runs"] / h),
            "runs_with_a_fault_or_schedule_decision_that_fired": s["nontrivial"],
            "simulated_time_steps": s["steps"],
            "simulated_time_note": "the code under test reads no clock; simulated time is counted in simulator steps (instrumented edges / memory accesses, allocations, seam calls)",
            "longest_run_steps": s["max_steps"],
            "faults_injected": s["faults"],
            "probes": s["probes"],
            "distinct_abstract_states": s["states"],
            "distinct_code_edges": s["edges"],
            "allocations_simulated": s["allocs"],
            "determinism_pairs_compared": s["det_pairs"],
            "components_real": s["real"],
            "components_stub": s["stub"],
            "workers": W,
            "build_s": round(tb, 2),
        },
        "assumptions": ["search samples schedules and faults, it does not enumerate them",
                        "compiled with g++ -O1 and the instrumentation named in DESIGN.md, not with the shipped RelWithDebInfo flags"],
        "wall_s": round(wall, 3),
        "violations": 1 if r.returncode == 1 else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d runs (%d distinct non-trivial) in %.1fs + %.1fs build, faults %s" % (pid, s["runs"], s["distinct_nontrivial"], s["wall"], tb, json.dumps(s["faults"])))
    for k in known_findings().get("findings", []):
        if k["property"] == pid:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if r.returncode == 1:
        print("VIOLATION property=%s replay=%s" % (pid, s["replay"]), flush=True)
        return 1
    if r.returncode != 0:
        die("simulator status %d" % r.returncode)
    return 0


sys.exit(main())
