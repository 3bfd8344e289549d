#!/usr/bin/env python3
"""Runner for the runtime monitors.  setup | check <ID> --tier quick|thorough | replay <file> | build

Every check: (1) mirrors /repo's working tree by content into build/src, (2) rebuilds the sanitizer
builds of the project's own CMake targets incrementally, (3) rebuilds the monitor program, (4) runs it in
shards, (5) turns the recorded events, sanitizer reports and exits into one verdict."""
import sys, os, re, json, subprocess, time, fnmatch, fcntl, shutil, tempfile, signal
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VH_REPO", "/repo")
B = os.path.join(ROOT, "build")
SRC = os.path.join(B, "src")
H = os.path.join(ROOT, "harness")
JOBS = str(max(8, os.cpu_count() or 8))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from harnesses import HARNESS, PROPS   # noqa

COMMON = "-w -DgetMotorTargetVelosity=getMotorTargetVelocity -DgNumDeepPenetrationChecks=gNumClampedCcdMotions -DgNumGjkChecks=gNumClampedCcdMotions"
SAN = {
    "asan": "-fsanitize=address,undefined -fno-sanitize=vptr,alignment,null,object-size,returns-nonnull-attribute,nonnull-attribute -fno-sanitize-recover=all -fno-omit-frame-pointer",
    "tsan": "-fsanitize=thread -fno-omit-frame-pointer",
}
OPT = "-O1 -g1 -DNDEBUG"
INC = "-include %s/hook.h" % H
DEFS = ("-DBOOST_ATOMIC_DYN_LINK -DBOOST_FILESYSTEM_DYN_LINK -DBOOST_PROGRAM_OPTIONS_DYN_LINK -DBOOST_SYSTEM_DYN_LINK "
        "-DBOOST_THREAD_DYN_LINK -DBOOST_ALL_NO_LIB -DCOIN_DLL -DSOQT_DLL -DSIMOX_USE_SOQT -DUSE_NLOPT -DSimox_DATA_PATH=\\\"data\\\" "
        "-DVirtualRobot_SRC_DATA_PATH=\\\"%s/VirtualRobot/data\\\"" % SRC)
QT = "/usr/include/x86_64-linux-gnu/qt5"
def incs(cfg):
    return ("-I%s -I%s/%s -I%s/VirtualRobot/CollisionDetection/PQP -I%s/VirtualRobot/CollisionDetection/PQP/PQP++ "
            "-I%s/GraspPlanning/ExternalDependencies/qhull-2003.1/include "
            "-isystem /usr/include/eigen3 -isystem /usr/include/bullet -isystem %s -isystem %s/QtGui -isystem %s/QtCore -isystem %s/QtOpenGL -isystem %s/QtWidgets"
            % (SRC, B, cfg, SRC, SRC, SRC, QT, QT, QT, QT, QT))

def benv():
    e = dict(os.environ)
    for k in ("LD_LIBRARY_PATH", "BULLET_ROOT", "QT_QMAKE_EXECUTABLE", "CC", "CXX", "CFLAGS", "CXXFLAGS", "ASAN_OPTIONS", "TSAN_OPTIONS", "UBSAN_OPTIONS"):
        e.pop(k, None)
    e.update(LC_ALL="C.UTF-8", QT_QPA_PLATFORM="offscreen", QT_NO_GLIB="1", HOME=os.environ.get("HOME", "/root"))
    return e

class BuildError(Exception):
    pass

def sh(cmd, what, timeout=1700):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=benv(), timeout=timeout)
    if p.returncode:
        errs = [l for l in p.stdout.splitlines() if "error" in l or "undefined reference" in l][:25]
        raise BuildError("%s failed (%d):\n%s\n...\n%s" % (what, p.returncode, "\n".join(errs), p.stdout[-1500:]))
    return p.stdout

def sync():
    os.makedirs(SRC, exist_ok=True)
    # content-based mirror: only files whose bytes changed get a new time stamp
    sh(["rsync", "-rlp", "--checksum", "--delete", "--exclude=/.git", "--exclude=/_build", "--exclude=/build/*", REPO + "/", SRC + "/"], "mirror of " + REPO)

def configure(cfg):
    d = os.path.join(B, cfg)
    flags = "%s %s %s" % (COMMON, SAN[cfg], INC)
    stamp = os.path.join(d, "vh_flags")
    want = flags + OPT
    if os.path.exists(stamp) and open(stamp).read() == want and os.path.exists(d + "/build.ninja"):
        return
    shutil.rmtree(d, ignore_errors=True)
    sh(["cmake", "-S", SRC, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DBUILD_TESTING=OFF", "-DCMAKE_C_COMPILER=gcc",
        "-DCMAKE_CXX_COMPILER=g++", "-DCMAKE_CXX_FLAGS=" + flags, "-DCMAKE_C_FLAGS=-w " + SAN[cfg], "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=" + OPT,
        "-DCMAKE_C_FLAGS_RELWITHDEBINFO=" + OPT, "-DCMAKE_EXPORT_NO_PACKAGE_REGISTRY=ON", "-DSimox_USE_QT5=ON"], "cmake " + cfg)
    open(stamp, "w").write(want)

ALL = ["VirtualRobot", "Saba", "GraspStudio", "SimDynamics"]

def build_libs(cfg, libs):
    configure(cfg)
    sh(["ninja", "-C", os.path.join(B, cfg), "-j", JOBS] + libs, "build of %s (%s)" % (", ".join(libs), cfg))

def write_harness_ninja(cfg):
    out = ["builddir = %s/h-%s" % (B, cfg),
           "rule cxx\n  command = g++ -std=c++14 %s %s %s %s %s -fPIC -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc" % (COMMON, SAN[cfg], INC, OPT, DEFS + " " + incs(cfg)),
           "rule link\n  command = g++ %s $in -o $out -L%s/%s/lib -Wl,-rpath,%s/%s/lib $libs -lboost_filesystem -lboost_system -lboost_thread -lCoin -lSoQt -lnlopt -lQt5OpenGL -lQt5Widgets -lQt5Gui -lQt5Core -lpthread" % (SAN[cfg], B, cfg, B, cfg)]
    for name, h in sorted(HARNESS.items()):
        if cfg not in h["cfg"]:
            continue
        objs = []
        for s in h["src"]:
            o = "%s/h-%s/%s.o" % (B, cfg, s)
            objs.append(o)
        out.append("build %s/h-%s/%s: link %s | %s\n  libs = %s" % (B, cfg, name, " ".join(objs),
                   " ".join("%s/%s/lib/lib%s.so" % (B, cfg, l) for l in h["libs"]),
                   " ".join("-l" + l for l in reversed(h["libs"])) + (" " + h["extra"] if h.get("extra") else "")))
        for s, o in zip(h["src"], objs):
            r = "build %s: cxx %s/%s" % (o, H, s)
            if r not in out:
                out.append(r)
    d = os.path.join(B, "h-" + cfg)
    os.makedirs(d, exist_ok=True)
    txt = "\n".join(out) + "\n"
    f = os.path.join(d, "build.ninja")
    if not os.path.exists(f) or open(f).read() != txt:
        open(f, "w").write(txt)
    return f

def build_harness(cfg, names):
    f = write_harness_ninja(cfg)
    sh(["ninja", "-f", f, "-j", JOBS] + ["%s/h-%s/%s" % (B, cfg, n) for n in names], "build of monitors " + ",".join(names))

class Lock:
    def __enter__(self):
        os.makedirs(B, exist_ok=True)
        self.f = open(os.path.join(B, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()

def setup():
    with Lock():
        sync()
        claimed = open(os.path.join(ROOT, "tools", "claimed.txt")).read().split()
        use = sorted({(r["h"], r["cfg"]) for p in claimed for r in PROPS[p]["runs"]})
        for cfg in ("asan", "tsan"):
            names = [h for h, c in use if c == cfg]
            libs = sorted({l for h in names for l in HARNESS[h]["libs"]}, key=ALL.index)
            if libs:
                build_libs(cfg, libs)
                build_harness(cfg, names)
    print("setup done")

# ---------------------------------------------------------------- known findings
def known():
    """known: property=<id> key=<exact key, * allowed> :: description"""
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) :: (.*)", l)
            if m:
                out.append((m[1], m[2], m[3].strip()))
    return out

# ---------------------------------------------------------------- report parsing
def fn_name(s):
    s = re.sub(r"\(.*", "", s)
    s = re.sub(r"<.*", "", s)
    s = re.sub(r"\[abi:[^\]]*\]", "", s)
    return s.strip().split("::")[-1].split(" ")[-1] or "?"

def fullfn(s):
    # qualified function name without arguments and template parameters
    s = re.sub(r"\[abi:[^\]]*\]", "", s)
    out, depth = "", 0
    for c in s:
        if c == "<": depth += 1
        elif c == ">": depth = max(0, depth - 1)
        elif c == "(" and depth == 0: break
        elif depth == 0: out += c
    return out.strip().split(" ")[-1]

FRAME = re.compile(r"^\s*#\d+ (?:0x[0-9a-f]+ in )?(.+?) (/\S+?)(?::(\d+))?(?::\d+)?(?: \(.*)?$")
def frames(block):
    r = []
    for l in block:
        m = FRAME.match(l)
        if m:
            r.append((m[1], m[2], m[3]))
    return r

def top_repo_frame(fr):
    for f, p, l in fr:
        if p.startswith(SRC):
            return fullfn(f)
    for f, p, l in fr:
        if p.startswith(H):
            return "harness:" + fullfn(f)
    return fullfn(fr[0][0]) if fr else "?"

def crash_keys(text, cfg):
    """list of (key, excerpt) for sanitizer/abort reports in a stderr text"""
    res = []
    lines = text.splitlines()
    if cfg == "tsan":
        i = 0
        while i < len(lines):
            if "WARNING: ThreadSanitizer:" in lines[i]:
                j = i + 1
                while j < len(lines) and not lines[j].startswith("=================="):
                    j += 1
                block = lines[i:j]
                kind = re.search(r"ThreadSanitizer: ([^(]+)", lines[i])[1].strip().replace(" ", "-")
                stacks, cur = [], []
                for l in block[1:]:
                    if FRAME.match(l):
                        cur.append(l)
                    elif l.strip() == "" or not l.startswith("    #"):
                        if cur:
                            stacks.append(cur)
                        cur = []
                if cur:
                    stacks.append(cur)
                tops = sorted({top_repo_frame(frames(s)) for s in stacks[:2]})
                outer = []
                for s in stacks[:2]:
                    fs = [fullfn(f) for f, p, _ in frames(s) if p.startswith(SRC)]
                    outer.append(fs[-1] if fs else "?")
                res.append(("race/%s/%s" % (kind, "+".join(tops)), "\n".join(block[:60])))
                i = j
            i += 1
        for pat, kind in ((r"ERROR: ThreadSanitizer: (\S+)", None), (r"VH-EIGEN-ASSERT: (.*) at", "eigen")):
            m = re.search(pat, text)
            if m:
                k = text[m.start():].splitlines()
                res.append(("crash/%s/%s" % (kind or m[1].strip(":"), top_repo_frame(frames(k[:60]))), "\n".join(k[:40])))
        return res
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", text)
    if m:
        k = text[m.start():].splitlines()
        stop = next((i for i, l in enumerate(k) if i > 2 and l.strip() == ""), 60)
        fr = frames(k[:stop])
        res.append(("crash/%s/%s" % (m[1].strip(":"), top_repo_frame(fr)), "\n".join(k[:60])))
    m = re.search(r"^(\S+?):(\d+):(\d+): runtime error: (.*)$", text, re.M)
    if m:
        k = text[m.start():].splitlines()
        kind = re.sub(r"-?[0-9][0-9.e+]*|'.*?'", "", m[4])
        kind = "-".join(kind.split()[:5])
        res.append(("ub/%s/%s" % (kind, top_repo_frame(frames(k[:40]))), "\n".join(k[:40])))
    m = re.search(r"VH-EIGEN-ASSERT: (.*?) at (\S+)", text)
    if m:
        k = text[m.start():].splitlines()
        res.append(("crash/eigen-assert/%s" % top_repo_frame(frames(k[:60])), "\n".join(k[:40])))
    return res

# ---------------------------------------------------------------- execution
def run_env(cfg, scratch):
    e = benv()
    e.update(ASAN_OPTIONS="exitcode=99:detect_leaks=0:handle_abort=1:handle_segv=1:allocator_may_return_null=1:max_allocation_size_mb=3000:detect_stack_use_after_return=0:symbolize=1:print_suppressions=0:quarantine_size_mb=64",
             UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1",
             TSAN_OPTIONS="exitcode=0:halt_on_error=0:second_deadlock_stack=1:history_size=4:report_thread_leaks=0:suppressions=%s/tsan.supp" % H,
             TMPDIR=scratch, HOME=scratch, OMP_NUM_THREADS="1", SIMOX_DATA_PATH=os.path.join(SRC, "VirtualRobot", "data"))
    e.pop("DISPLAY", None)
    return e

def run_shard_start(exe, cfg, prop, tier, seed, shard, shards, wd, extra=()):
    sc = os.path.join(wd, "s%s" % shard)
    os.makedirs(sc, exist_ok=True)
    log = os.path.join(sc, "events.jsonl")
    err = os.path.join(sc, "stderr")
    if os.path.exists(log):
        os.unlink(log)
    cmd = ([] if cfg != "tsan" else ["setarch", "-R"]) + [exe, "--prop", prop, "--log", log, "--seed", str(seed), "--tier", tier, "--shard", str(shard), "--shards", str(shards), "--scratch", sc] + list(extra)
    p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=open(err, "w"), env=run_env(cfg, sc), cwd=sc, start_new_session=True)
    return dict(p=p, log=log, err=err, cmd=cmd, sc=sc, shard=shard, t0=time.time())

def collect(r, cfg):
    ev, ended, last = [], False, -1
    if os.path.exists(r["log"]):
        for l in open(r["log"], errors="replace"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d["t"] == "end":
                ended = True
            elif d["t"] == "case":
                last = d["n"]
            else:
                ev.append(d)
    try:
        sz = os.path.getsize(r["err"])
        f = open(r["err"], errors="replace")
        text = f.read(20000000)
    except OSError:
        text = ""
    return ev, ended, last, text

def run_all(exe, cfg, prop, tier, seed, wd, shards, limit, maxpar):
    """returns dict(viols=[(key,msg,case)], stats, incon=[...])"""
    out = dict(viols=[], cases=0, evals=0, counters={}, sigs=set(), samples=[], incon=[], errors=[], hangs=[])
    pending = [(s, ()) for s in range(shards)]
    running = []
    deadline = time.time() + limit
    restarts = {}
    while pending or running:
        while pending and len(running) < maxpar:
            s, ex = pending.pop(0)
            running.append(run_shard_start(exe, cfg, prop, tier, seed, s, shards, wd, ex))
        time.sleep(0.05)
        for r in list(running):
            rc = r["p"].poll()
            timeout = time.time() > deadline
            if rc is None and not timeout:
                continue
            running.remove(r)
            if rc is None:
                os.killpg(r["p"].pid, signal.SIGKILL)
                r["p"].wait()
            ev, ended, last, text = collect(r, cfg)
            for d in ev:
                if d["t"] == "viol":
                    out["viols"].append((d["key"], d["msg"], d["case"]))
                elif d["t"] == "stat":
                    out["cases"] += d["cases"]
                    out["evals"] += d["evals"]
                    for k, v in d["counters"].items():
                        out["counters"][k] = out["counters"].get(k, 0) + v
                elif d["t"] == "sigs":
                    out["sigs"].update(d["v"])
                elif d["t"] == "sample":
                    out["samples"].append("case %d: %s" % (d["case"], d["v"]))
            for k, ex in crash_keys(text, cfg):
                out["viols"].append((k, ex, last))
            if rc is None:
                out["hangs"].append((last, r["shard"]))
                continue
            if ended and rc == 0:
                continue
            if not crash_keys(text, cfg):
                if rc < 0 or rc in (98, 99):
                    out["viols"].append(("crash/signal%d/%s" % (rc, "unreported"), text[-1500:], last))
                else:
                    out["errors"].append("shard %d rc %s after case %d: %s" % (r["shard"], rc, last, text[-1500:]))
                    continue
            # crashed: carry on behind the crashing case so that one finding does not mask the rest
            restarts[r["shard"]] = restarts.get(r["shard"], 0) + 1
            if last >= 0 and restarts[r["shard"]] <= 3:
                pending.append((r["shard"], ("--start", str(last + 1))))
        if len(out["viols"]) > 400:
            for r in running:
                os.killpg(r["p"].pid, signal.SIGKILL)
                r["p"].wait()
            break
    return out

def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    P = PROPS[prop]
    wd = tempfile.mkdtemp(prefix="vh-%s-" % prop)
    rdir = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    try:
        with Lock():
            sync()
            for run in P["runs"]:
                h = HARNESS[run["h"]]
                build_libs(run["cfg"], h["libs"])
                build_harness(run["cfg"], [run["h"]])
        tb = time.time() - t0
        agg = dict(viols=[], cases=0, evals=0, counters={}, sigs=set(), samples=[], incon=[], errors=[])
        for run in P["runs"]:
            exe = "%s/h-%s/%s" % (B, run["cfg"], run["h"])
            shards = run.get("shards", 8)
            limit = run.get("limit", 240) if tier == "quick" else run.get("tlimit", 3000)
            if tier == "quick":   # keep the whole check inside its 900 s even after a full rebuild
                limit = max(60, min(limit, 860 - (time.time() - t0)))
            w2 = os.path.join(wd, run["h"] + run["cfg"])
            o = run_all(exe, run["cfg"], prop, tier, seed, w2, shards, limit, run.get("par", 8))
            for c, shd in o["hangs"]:
                # the watchdog fired: inconclusive by itself; re-run that one case alone before judging
                if c < 0:
                    agg["incon"].append("%s shard %d did not start" % (run["h"], shd)); continue
                lim2 = max(30, min(120, 880 - (time.time() - t0))) if tier == "quick" else 600
                o2 = run_case(exe, run["cfg"], prop, tier, seed, os.path.join(wd, "re%d" % c), c, lim2)
                if o2 == "hang" and lim2 >= 60:
                    agg["viols"].append(("hang/%s" % run["h"], "case %d did not finish in %ds on a re-run by itself" % (c, lim2), c))
                else:
                    agg["incon"].append("%s shard %d hit the watchdog in case %d, re-run %s" % (run["h"], shd, c, o2))
            for v in o["viols"]:
                agg["viols"].append(v + (run,) if len(v) == 3 else v)
            agg["cases"] += o["cases"]; agg["evals"] += o["evals"]; agg["sigs"] |= o["sigs"]; agg["samples"] += o["samples"]; agg["errors"] += o["errors"]
            for k, v in o["counters"].items():
                agg["counters"][k] = agg["counters"].get(k, 0) + v
        kf = [k for k in known() if k[0] == prop]
        new, seen = {}, {}
        for v in agg["viols"]:
            key, msg, case = v[:3]
            run = v[3] if len(v) > 3 else P["runs"][0]
            m = [k for k in kf if fnmatch.fnmatchcase(key, k[1])]
            if m:
                seen[m[0][1]] = m[0]
            else:
                new.setdefault(key, []).append((msg, case, run))
        for k in kf:
            print("KNOWN-FINDING: property=%s %s%s" % (prop, k[2], "" if k[1] in seen else " (not reached in this run)"))
        replays = []
        for key in sorted(new):
            msg, case, run = new[key][0]
            fn = os.path.join(rdir, "%s-%s.json" % (prop, re.sub(r"[^A-Za-z0-9_.-]+", "_", key)[:80]))
            json.dump(dict(property=prop, key=key, seed=seed, tier=tier, case=case, harness=run["h"], cfg=run["cfg"], occurrences=len(new[key]),
                           message=msg, replay="python3 tools/run.py replay " + os.path.relpath(fn, ROOT)), open(fn, "w"), indent=1)
            replays.append((key, fn, msg))
        wall = time.time() - t0
        minev = P.get("min_evals", 1)
        evid = dict(property=prop, tier=tier, seed=seed, level="exploration",
            coverage=dict(evaluations=agg["cases"], distinct_nontrivial=len(agg["sigs"]), rule=P["rule"], samples=agg["samples"][:6] or ["(no sample recorded)"],
                          oracle_checks=agg["evals"], observed=agg["counters"], builds=[r["cfg"] + ":" + r["h"] for r in P["runs"]], build_s=round(tb, 1),
                          inconclusive=agg["incon"], known_findings_seen=sorted(seen)),
            wall_s=round(wall, 1), violations=[dict(key=k, replay=os.path.relpath(f, ROOT), message=m[:500]) for k, f, m in replays])
        json.dump(evid, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
        print("%s %s seed=%d: %d cases, %d oracle checks, %d distinct, build %.0fs total %.0fs" % (prop, tier, seed, agg["cases"], agg["evals"], len(agg["sigs"]), tb, wall))
        print("  observed: " + ", ".join("%s=%d" % kv for kv in sorted(agg["counters"].items())))
        if replays:
            for k, f, m in replays[:30]:
                print("  key=%s occurrences=%d: %s" % (k, len(new[k]), m[:700].replace("\n", "\n    ")))
                print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(f, ROOT)))
            return 1
        if agg["errors"]:
            print("ERROR: " + "\n".join(agg["errors"][:5]))
            return 2
        if agg["incon"]:
            print("INCONCLUSIVE: " + "; ".join(agg["incon"]))
            return 3
        if agg["evals"] < minev or not agg["cases"]:
            print("INCONCLUSIVE: the monitors observed too little (%d checks)" % agg["evals"])
            return 3
        for k, v in P.get("need", {}).items():
            if agg["counters"].get(k, 0) < v:
                print("INCONCLUSIVE: only %d '%s' events observed, %d needed" % (agg["counters"].get(k, 0), k, v))
                return 3
        return 0
    except BuildError as e:
        print("ERROR: " + str(e))
        return 2
    finally:
        shutil.rmtree(wd, ignore_errors=True)

def run_case(exe, cfg, prop, tier, seed, wd, case, limit):
    r = run_shard_start(exe, cfg, prop, tier, seed, 0, 1, wd, ("--case", str(case)))
    try:
        rc = r["p"].wait(limit)
    except subprocess.TimeoutExpired:
        os.killpg(r["p"].pid, signal.SIGKILL)
        r["p"].wait()
        return "hang"
    return "finished rc=%d" % rc

def replay(path):
    d = json.load(open(path))
    wd = tempfile.mkdtemp(prefix="vh-replay-")
    with Lock():
        sync()
        build_libs(d["cfg"], HARNESS[d["harness"]]["libs"])
        build_harness(d["cfg"], [d["harness"]])
    r = run_shard_start("%s/h-%s/%s" % (B, d["cfg"], d["harness"]), d["cfg"], d["property"], d["tier"], d["seed"], 0, 1, wd, ("--case", str(d["case"])))
    rc = r["p"].wait()
    print(open(r["log"]).read()[:6000])
    print(open(r["err"], errors="replace").read()[-6000:])
    shutil.rmtree(wd, ignore_errors=True)

if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "setup":
        try:
            setup()
        except BuildError as e:
            print(e); sys.exit(2)
    elif a[0] == "check":
        tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
        try:
            sys.exit(check(a[1], tier))
        except subprocess.TimeoutExpired as e:
            print("ERROR: build timed out: %s" % e); sys.exit(2)
    elif a[0] == "replay":
        replay(a[1])
    elif a[0] == "build":
        with Lock():
            sync()
            for n in a[1:]:
                for cfg in HARNESS[n]["cfg"]:
                    build_libs(cfg, HARNESS[n]["libs"])
                    build_harness(cfg, [n])
