#!/usr/bin/env python3
"""run_check.py ID [--tier quick|thorough] [--seed N] [--replay FILE] [--cases N] [--keep]

Builds sph-sp from /repo's working tree (AddressSanitizer, allocator wrapped), builds the check's
harness against it, searches generated cases, shrinks a failure to a replay file, writes evidence.
Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. Exit 3: no answer.
"""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")
WARN = ["-w"]
DEFS = ["-Dsph_future_default_poll_interval={0,100000}"]
SAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]
# checks with threads: the same cases run once more under ThreadSanitizer (cases in the quick and the thorough tier)
RACES = {"C03": (6000, 60000), "C28": (10000, 120000)}
# checks of code that depends on the configured number of channels: the same cases with a library configured for more channels
WIDE = {"C01": (150000, 2000000), "C02": (100000, 1500000), "C03": (4000, 60000), "C04": (30000, 600000), "C06": (150000, 1500000), "C07": (15000, 200000), "C08": (60000, 600000), "C09": (20000, 200000), "C31": (60000, 600000)}
COMPILERS = {
    "asan": ["gcc", "-g", "-O1"] + SAN,
    "wide": ["gcc", "-g", "-O1", "-Dsp_channel_count_limit=7"] + SAN,
    "tsan": ["gcc", "-g", "-O1", "-fsanitize=thread", "-fno-omit-frame-pointer"],
    "fuzz": ["clang", "-fsanitize=fuzzer-no-link,address", "-g", "-O1"],
}


def incs(inc):
    c = os.path.join(REPO, "source/c")
    return ["-I", inc, "-I", c + "/foreign", "-I", c + "/foreign/sph-sc-lib", "-I", os.path.join(REPO, "source/c-precompiled")]


def source_hash(extra):
    h = hashlib.sha256(repr(extra).encode())
    for base in ("source/c-precompiled/sph-sp", "source/c/foreign"):
        for d, dirs, files in os.walk(os.path.join(REPO, base)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".c", ".h")):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()[:20]


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def fail(msg):
    print("check error: " + msg)
    sys.exit(3)


WRAP = ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=fwrite,--wrap=fread", "-Wl,-Bsymbolic-functions"]


def build_lib(kind):
    cc = COMPILERS[kind]
    flags = ["-funsigned-char", "-std=c17", "-Wno-pointer-sign", "-fno-math-errno", "-fno-builtin", "-fpic", "-shared", "-D_GNU_SOURCE", "-ftrivial-auto-var-init=pattern", "-Dpthread_create=t_pthread_create"] + WARN + DEFS + WRAP
    key = source_hash((cc, flags))
    d = os.path.join(BUILD, "lib-" + key)
    so = os.path.join(d, "libsph-sp.so")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        inc = os.path.join(d, "include")
        os.makedirs(inc, exist_ok=True)
        link = os.path.join(inc, "sph")
        if not os.path.islink(link):
            os.symlink(os.path.join(REPO, "source/c/foreign/sph-sc-lib/sph-sp"), link)
        if not os.path.exists(so):
            r = run(cc + flags + incs(inc) + [os.path.join(REPO, "source/c-precompiled/sph-sp/main.c"), "-o", so + ".tmp", "-lm", "-lpthread"])
            if r.returncode:
                fail("the library does not build:\n" + r.stdout[-3000:])
            os.rename(so + ".tmp", so)
    return d, inc


def build_harness(cid, lib, inc, kind):
    prop = os.path.join(HARNESS, "props", cid + ".c")
    if not os.path.exists(prop):
        fail("no property file for " + cid)
    d = os.path.join(BUILD, cid + ("" if kind == "asan" else "-" + kind))
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, "harness-" + os.path.basename(lib)[4:14] + "-%d" % os.getpid())
    if kind == "fuzz":
        cc = ["clang", "-fsanitize=fuzzer,address", "-g", "-O1", "-DPBT_FUZZ"]
    else:
        cc = COMPILERS[kind] + (["-DPBT_TSAN"] if kind == "tsan" else [])
    cmd = cc + ["-funsigned-char", "-std=gnu17", "-D_GNU_SOURCE", "-rdynamic"] + WARN + DEFS
    cmd += ['-DPROP="%s"' % prop, "-I", HARNESS] + incs(inc) + [os.path.join(HARNESS, "main.c"), "-o", exe, "-L", lib, "-Wl,-rpath," + lib, "-lsph-sp", "-lm", "-lpthread"]
    r = run(cmd)
    if r.returncode:
        fail("the harness does not build:\n" + r.stdout[-3000:])
    return exe


def known_findings(cid):
    keys, fixed = {}, []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == cid:
                keys[m.group(2)] = m.group(3)
    return keys


def main():
    a = sys.argv[1:]
    opt = {"--tier": os.environ.get("VERIF_TIER", "quick"), "--seed": os.environ.get("VERIF_SEED", "1"), "--replay": None, "--cases": None, "--cap": None, "--fuzz-seconds": None}
    cid = None
    i = 0
    while i < len(a):
        if a[i] in opt:
            opt[a[i]] = a[i + 1]
            i += 2
        else:
            cid = a[i]
            i += 1
    tier = opt["--tier"] if opt["--tier"] in ("quick", "thorough") else "quick"
    try:
        seed = int(opt["--seed"])
    except ValueError:
        seed = int(hashlib.sha256(opt["--seed"].encode()).hexdigest()[:8], 16)
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    lib, inc = build_lib("asan")
    if cid is None:  # setup: only the library
        print("library built: " + lib)
        return 0
    exe = build_harness(cid, lib, inc, "asan")
    scratch = tempfile.mkdtemp(prefix="run-", dir=os.path.join(BUILD, cid))
    env = dict(os.environ)
    env["PBT_SCRATCH"] = scratch
    env["ASAN_OPTIONS"] = "detect_leaks=0:detect_odr_violation=0:exitcode=78:allocator_may_return_null=1:detect_stack_use_after_return=0:max_allocation_size_mb=4000:symbolize=1:handle_abort=1"
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=78:report_signal_unsafe=0:report_thread_leaks=0:symbolize=1"
    env["LC_ALL"] = "C"
    keys = known_findings(cid)
    known = "," + "".join(k + "," for k in keys)
    try:
        if opt["--replay"]:
            m = re.search(r"^build: (tsan|wide)$", open(opt["--replay"], errors="replace").read(), re.M)
            if m:
                os.unlink(exe)
                exe = build_harness(cid, *build_lib(m.group(1)), m.group(1))
            r = run([exe, "--replay", opt["--replay"], "--known", known], env=env)
            print(r.stdout)
            e = os.path.join(scratch, "replay.err")
            if os.path.exists(e):
                print(open(e, errors="replace").read()[:6000])
            return r.returncode
        stats = os.path.join(scratch, "stats.json")
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        rpath = os.path.join(rdir, "%s-%s-%d.txt" % (cid, tier, seed))
        if os.path.exists(rpath):
            os.unlink(rpath)
        cap = opt["--cap"] or ("120" if tier == "quick" else "420")
        cmd = [exe, "--tier", tier, "--seed", str(seed), "--cap", cap, "--stats", stats, "--replay-out", rpath, "--known", known]
        if opt["--cases"]:
            cmd += ["--cases", opt["--cases"]]
        r = run(cmd, env=env, timeout=840)
        if not os.path.exists(stats):
            fail("the harness gave no result (code %d):\n%s" % (r.returncode, r.stdout[-3000:]))
        if r.stdout.strip():
            print(r.stdout.strip()[-2000:])
        st = json.load(open(stats))
        fuzz_info = race_info = wide_info = None
        if cid in WIDE and not st["violation"]:
            wide_info, v = wide(cid, tier, seed, env, known, scratch, rpath, opt["--cap"] or ("60" if tier == "quick" else "150"))
            if v:
                st["violation"] = v
        if cid in RACES and not st["violation"]:
            race_info, v = races(cid, tier, seed, env, known, scratch, rpath, opt["--cap"] or ("60" if tier == "quick" else "240"))
            if v:
                st["violation"] = v
        if tier == "thorough" and not st["violation"]:
            fuzz_info, v = fuzz(cid, seed, exe, env, known, scratch, rpath, int(opt["--fuzz-seconds"] or 150))
            if v:
                st["violation"] = v
        cov = {
            "evaluations": st["cases"],
            "distinct_nontrivial": st["distinct_nontrivial"],
            "rule": st["rule"],
            "samples": st["samples"] or ["(no non-trivial case in this run)"],
            "nontrivial": st["nontrivial"],
            "discarded": st["discarded"],
            "labels": st["labels"],
        }
        if fuzz_info:
            cov["coverage_guided"] = fuzz_info
        if wide_info:
            cov["more_channels"] = wide_info
        if race_info:
            cov["race_detection"] = race_info
        if st["known"]:
            cov["known_findings_reproduced"] = st["known"]
        ev = {
            "property": cid,
            "tier": tier,
            "seed": seed,
            "level": level_of(cid),
            "coverage": cov,
            "assumptions": [
                "library built from the working tree with gcc -O1 -fsanitize=address and an accounting allocator",
                "numeric oracles compare within stated tolerances",
            ],
            "wall_s": round(time.time() - t0, 2),
        }
        if st["violation"]:
            ev["violations"] = [dict(st["violation"], replay=rpath)]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", cid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for k in st["known"]:
            print("KNOWN-FINDING: property=%s %s: %s" % (cid, k, keys.get(k, st["known"][k]["message"])))
        print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s search" % (cid, tier, seed, st["cases"], st["distinct_nontrivial"], st["wall"]))
        if st["violation"]:
            print("  %s: %s\n  case: %s" % (st["violation"]["kind"], st["violation"]["message"], st["violation"]["case"][:1500]))
            print("VIOLATION property=%s replay=%s" % (cid, rpath))
            return 1
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        try:
            os.unlink(exe)
        except OSError:
            pass


def level_of(cid):
    try:
        for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]:
            if c["property"] == cid:
                return c["level"]
    except Exception:
        pass
    return "exploration"


def tsan_works():
    """the runtime needs a memory layout that not every kernel gives it"""
    d = tempfile.mkdtemp(prefix="tsan-", dir=BUILD)
    try:
        with open(d + "/a.c", "w") as f:
            f.write("#include <pthread.h>\nstatic void* f(void* x) { return x; }\nint main(void) { pthread_t t; return pthread_create(&t, 0, f, 0) || pthread_join(t, 0); }\n")
        return not run(COMPILERS["tsan"] + [d + "/a.c", "-o", d + "/a", "-lpthread"]).returncode and not run([d + "/a"]).returncode
    finally:
        shutil.rmtree(d, ignore_errors=True)


def wide(cid, tier, seed, env, known, scratch, rpath, cap):
    """the same generator and oracle with the library and the harness built for more channels (sp_channel_count_limit)"""
    exe = build_harness(cid, *build_lib("wide"), "wide")
    stats = os.path.join(scratch, "stats-wide.json")
    try:
        run([exe, "--tier", tier, "--seed", str(seed + 2000003), "--cap", cap, "--cases", str(WIDE[cid][tier == "thorough"]), "--stats", stats, "--replay-out", rpath, "--known", known], env=env, timeout=600)
    finally:
        os.unlink(exe)
    if not os.path.exists(stats):
        fail("the harness gave no result with more channels")
    st = json.load(open(stats))
    v = st["violation"]
    if v:
        text = open(rpath, errors="replace").read()
        with open(rpath, "w") as f:
            f.write("build: wide\n" + text)
    return {"channels": 7, "evaluations": st["cases"], "distinct_nontrivial": st["distinct_nontrivial"], "wall_s": st["wall"]}, v


def races(cid, tier, seed, env, known, scratch, rpath, cap):
    """the same generated cases with the library and the harness built for ThreadSanitizer: a data race fails the case"""
    info = {"engine": "ThreadSanitizer"}
    if not tsan_works():
        info["skipped"] = "the ThreadSanitizer runtime does not start here"
        return info, None
    exe = build_harness(cid, *build_lib("tsan"), "tsan")
    stats = os.path.join(scratch, "stats-races.json")
    try:
        run([exe, "--tier", tier, "--seed", str(seed + 1000003), "--cap", cap, "--cases", str(RACES[cid][tier == "thorough"]), "--stats", stats, "--replay-out", rpath, "--known", known], env=env, timeout=600)
    finally:
        os.unlink(exe)
    if not os.path.exists(stats):
        fail("the harness gave no result with ThreadSanitizer")
    st = json.load(open(stats))
    info.update({"evaluations": st["cases"], "distinct_nontrivial": st["distinct_nontrivial"], "wall_s": st["wall"]})
    v = st["violation"]
    if v:
        text = open(rpath, errors="replace").read()
        m = re.search(r"WARNING: ThreadSanitizer: (.*?) \(pid", text)
        if m:
            v["message"] = m.group(1) + " reported by ThreadSanitizer"
        with open(rpath, "w") as f:
            f.write("build: tsan\n" + text)
    return info, v


def fuzz(cid, seed, exe, env, known, scratch, rpath, seconds):
    """coverage-guided search over the same property; a crashing input is converted to a tape and replayed"""
    lib, inc = build_lib("fuzz")
    fexe = build_harness(cid, lib, inc, "fuzz")
    corpus = os.path.join(scratch, "corpus")
    arts = os.path.join(scratch, "artifacts")
    os.makedirs(corpus)
    os.makedirs(arts)
    fenv = dict(env)
    fenv["PBT_KNOWN"] = known
    fenv["ASAN_OPTIONS"] = env["ASAN_OPTIONS"].replace("exitcode=78", "exitcode=77").replace("handle_abort=1", "handle_abort=0")
    log = os.path.join(scratch, "fuzz.log")
    with open(log, "w") as lf:
        p = subprocess.Popen([fexe, corpus, "-seed=%d" % (seed or 1), "-max_total_time=%d" % seconds, "-fork=8", "-max_len=1500", "-timeout=60", "-rss_limit_mb=3000", "-artifact_prefix=" + arts + "/", "-use_value_profile=1", "-print_final_stats=1", "-detect_leaks=0"], stdout=lf, stderr=subprocess.STDOUT, env=fenv, cwd=scratch, start_new_session=True)
        try:
            p.wait(timeout=seconds + 60)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
    os.unlink(fexe)
    text = open(log, errors="replace").read()
    m = re.findall(r"#(\d+): cov: (\d+) ft: (\d+) corp: (\d+)", text)
    info = {"engine": "libFuzzer", "seconds": seconds, "executions": int(m[-1][0]) if m else 0, "edges": int(m[-1][1]) if m else 0, "corpus": int(m[-1][3]) if m else 0}
    for f in sorted(os.listdir(arts)):
        if f.startswith(("oom-", "slow-unit-")):
            continue
        stats = os.path.join(scratch, "stats2.json")
        r = run([exe, "--bytes", os.path.join(arts, f), "--stats", stats, "--replay-out", rpath, "--known", known], env=env, timeout=300)
        if os.path.exists(stats):
            v = json.load(open(stats))["violation"]
            if v:
                return info, v
    return info, None


if __name__ == "__main__":
    sys.exit(main())
