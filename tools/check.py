#!/usr/bin/env python3
"""Build the library from /repo's working tree with sanitizers, run one
property's search, write evidence/<ID>.json.

  check.py ID                run the check (VERIF_SEED, VERIF_TIER)
  check.py ID --replay FILE  re-run one recorded case
  check.py --setup           build everything once
"""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
sys.path.insert(0, os.path.join(ROOT, "tools"))
from table import TABLE

BASE = ["-std=gnu++14", "-g1", "-fno-omit-frame-pointer", "-w", "-DBOOST_TIMER_ENABLE_DEPRECATED", "-pthread"]
VARIANTS = {
    "asan": ["-O1", "-fsanitize=address,undefined",
             "-fno-sanitize=shift,vptr,function,float-cast-overflow,float-divide-by-zero",
             "-fno-sanitize-recover=all"],
    "tsan": ["-O1", "-fsanitize=thread"],
    "cov": ["-O1", "-fsanitize=address,fuzzer-no-link", "-fno-sanitize-recover=all"],
}
ENV = {
    "ASAN_OPTIONS": "exitcode=23:detect_leaks=1:leak_check_at_exit=0:abort_on_error=0:detect_stack_use_after_return=0:allocator_may_return_null=1:malloc_context_size=12:quarantine_size_mb=32:detect_odr_violation=0:hard_rss_limit_mb=3500",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=23",
    "TSAN_OPTIONS": "exitcode=66:halt_on_error=1:history_size=4:report_signal_unsafe=0:suppressions=%s/tools/tsan.supp" % ROOT,
    "LSAN_OPTIONS": "suppressions=%s/tools/lsan.supp:print_suppressions=0" % ROOT,
}
LIBS = ["-lxml2", "-lboost_date_time", "-lboost_thread", "-lboost_system", "-lssl", "-lcrypto", "-pthread"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def die(msg, code=2):
    print("ERROR: " + msg, flush=True)
    sys.exit(code)


def repo_files():
    out = []
    for d, dirs, files in os.walk(os.path.join(REPO, "libiqxmlrpc")):
        dirs.sort()
        out += [os.path.join(d, f) for f in sorted(files)]
    for f in ("CMakeLists.txt", "LibiqxmlrpcCPack.txt"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            out.append(p)
    return out


def digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:16]


def prune(kind, keep):
    ds = sorted(glob.glob(os.path.join(BUILD, kind + "-*")), key=os.path.getmtime)
    for d in ds[:-keep] if len(ds) > keep else []:
        shutil.rmtree(d, ignore_errors=True)


def start_lib(variant):
    """Returns (directory, running process or None)."""
    flags = BASE + VARIANTS[variant]
    key = digest(repo_files(), " ".join(flags))
    d = os.path.join(BUILD, "lib-%s-%s" % (variant, key))
    if os.path.exists(os.path.join(d, "ok")):
        os.utime(d)
        return d, None
    shutil.rmtree(d, ignore_errors=True)
    prune("lib-" + variant, 2)
    os.makedirs(d)
    cf = " ".join(flags)
    cmd = ("cmake -S %s -B %s -G Ninja -DCMAKE_BUILD_TYPE=None -Dbuild_tests=OFF -Dbuild_docs=OFF "
           "-DCMAKE_CXX_STANDARD=14 -DCMAKE_CXX_COMPILER=clang++ -DCMAKE_C_COMPILER=clang "
           "-DCMAKE_CXX_FLAGS='%s -DNDEBUG' -DCMAKE_C_FLAGS='-O1' && ninja -C %s iqxmlrpc" % (REPO, d, cf, d))
    log = open(os.path.join(d, "build.log"), "w")
    p = subprocess.Popen(cmd, shell=True, stdout=log, stderr=subprocess.STDOUT)
    return d, p


def finish_lib(d, p):
    if p is not None:
        if p.wait() != 0:
            tail = open(os.path.join(d, "build.log")).read()[-3000:]
            shutil.rmtree(d, ignore_errors=True)
            die("library build failed\n" + tail)
        open(os.path.join(d, "ok"), "w").close()
    so = glob.glob(os.path.join(d, "**", "libiqxmlrpc*.so"), recursive=True) + \
        glob.glob(os.path.join(d, "**", "libiqxmlrpc*.a"), recursive=True)
    if not so:
        die("no library found in build tree")
    return so[0]


def build(harness, variant, extra=()):
    """Builds harness/<harness>.cc against the library; returns executable path."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        flags = BASE + VARIANTS[variant] + list(extra)
        hs = sorted(glob.glob(os.path.join(ROOT, "harness", "*.h")) + glob.glob(os.path.join(ROOT, "engine", "*")))
        src = os.path.join(ROOT, "harness", harness + ".cc")
        pub = [f for f in repo_files() if f.endswith((".h", ".inl", ".in", ".txt"))]
        libd, proc = start_lib(variant)
        okey = digest(pub + hs + [src], " ".join(flags))
        od = os.path.join(BUILD, "obj-%s-%s-%s" % (harness, variant, okey))
        obj = os.path.join(od, harness + ".o")
        procs = []
        inc = ["-I" + os.path.join(ROOT, "engine"), "-I" + os.path.join(ROOT, "harness"), "-I" + REPO,
               "-I" + os.path.join(REPO, "libiqxmlrpc"), "-I" + os.path.join(libd, "libiqxmlrpc"), "-I" + libd, "-I/usr/include/libxml2"]
        if not os.path.exists(os.path.join(od, "ok")):
            shutil.rmtree(od, ignore_errors=True)
            prune("obj-%s-%s" % (harness, variant), 2)
            os.makedirs(od)
            # generated headers (config.h, version.h) appear right after cmake's configure step
            cmds = [["clang++"] + flags + inc + ["-c", src, "-o", obj],
                    ["clang++"] + flags + inc + ["-c", os.path.join(ROOT, "engine", "vp.cc"), "-o", os.path.join(od, "vp.o")]]
            if proc is not None:
                end = time.time() + 60
                while proc.poll() is None and time.time() < end and not os.path.exists(os.path.join(libd, "build.ninja")):
                    time.sleep(0.05)
            procs = [(c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for c in cmds]
        for c, p in procs:
            out, _ = p.communicate()
            if p.returncode:
                if proc is not None:
                    proc.wait()
                shutil.rmtree(od, ignore_errors=True)
                die("harness build failed: %s\n%s" % (" ".join(c), out[-4000:]))
        if procs:
            open(os.path.join(od, "ok"), "w").close()
        so = finish_lib(libd, proc)
        os.utime(od)
        exe = os.path.join(libd, "h-%s-%s" % (harness, okey))
        if not os.path.exists(exe):
            c = ["clang++"] + flags + [obj, os.path.join(od, "vp.o"), so, "-Wl,-rpath," + os.path.dirname(so), "-o", exe + ".tmp"] + LIBS
            r = sh(c)
            if r.returncode:
                die("link failed\n" + r.stdout[-4000:])
            os.rename(exe + ".tmp", exe)
        return exe


def dictionary(path):
    ints, strs = set(), set()
    for f in repo_files():
        if not f.endswith((".cc", ".h", ".inl")):
            continue
        t = open(f, errors="replace").read()
        t = re.sub(r"//[^\n]*", "", t)
        t = re.sub(r"/\*.*?\*/", "", t, flags=re.S)
        t = re.sub(r"#\s*include[^\n]*", "", t)
        for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', t):
            try:
                s = m.group(1).encode("latin1", "replace").decode("unicode_escape").encode("latin1", "replace")
            except Exception:
                continue
            if 0 < len(s) <= 120:
                strs.add(s)
        u = re.sub(r'"((?:[^"\\\n]|\\.)*)"', '""', t)
        for m in re.finditer(r"'((?:[^'\\\n]|\\.))'", u):
            try:
                strs.add(m.group(1).encode("latin1").decode("unicode_escape").encode("latin1"))
            except Exception:
                pass
        for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)[uUlL]*(?![\w.])", u):
            try:
                ints.add(int(m.group(1), 0) if not re.match(r"0\d", m.group(1)) else int(m.group(1), 8))
            except ValueError:
                pass
        for m in re.finditer(r"(\d+)\s*(?:\*|<<)\s*(\d+)", u):
            a, b = int(m.group(1)), int(m.group(2))
            ints.add(a * b)
            if b < 40:
                ints.add(a << b)
    with open(path, "w") as o:
        for i in sorted(ints):
            if i < 2 ** 63:
                o.write("i %d\n" % i)
        for s in sorted(strs):
            o.write("s %s\n" % s.hex())


def seed_value():
    v = os.environ.get("VERIF_SEED", "1")
    try:
        return int(v, 0) & (2 ** 62 - 1)
    except ValueError:
        return int(hashlib.sha256(v.encode()).hexdigest()[:15], 16)


def known_findings(pid):
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append(m.group(2))
    return out


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        for v in sorted({st["variant"] for t in TABLE.values() for st in t["stages"]}):
            d, p = start_lib(v) if os.makedirs(BUILD, exist_ok=True) is None else None
            finish_lib(d, p)
        if "--all" in sys.argv:
            for pid, t in TABLE.items():
                for st in t["stages"]:
                    build(st["harness"], st["variant"], st.get("flags", ()))
        print("setup done")
        return 0
    pid = sys.argv[1]
    t = TABLE[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = seed_value()
    t0 = time.time()
    env = dict(os.environ)
    env.update(ENV)
    env["VP_DATA"] = os.path.join(ROOT, "data")
    env["VP_TIER"] = tier
    tmp = tempfile.mkdtemp(prefix="vp-%s-" % pid.lower())
    try:
        dpath = os.path.join(tmp, "dict")
        dictionary(dpath)
        env["VP_DICT"] = dpath
        env["VP_TMP"] = tmp
        if "--replay" in sys.argv:
            f = sys.argv[sys.argv.index("--replay") + 1]
            worst = 0
            prop = [l.split()[1] for l in open(f) if l.startswith("prop ")][0]
            for st in t["stages"]:
                exe = build(st["harness"], st["variant"], st.get("flags", ()))
                env["VP_STAGE"] = st.get("name", "")
                r = subprocess.run([exe, "replay", f, "--tmp", tmp], env=env)
                worst = max(worst, 1 if r.returncode == 1 else 0)
                if worst:
                    print("VIOLATION property=%s replay=%s" % (pid, f))
                    break
            return worst
        cov = dict(evaluations=0, distinct_nontrivial=0, rule=t["rule"], samples=[], stages=[], labels={})
        viol, unconf = None, {}
        rdir = os.path.join(ROOT, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        for i, st in enumerate(t["stages"]):
            exe = build(st["harness"], st["variant"], st.get("flags", ()))
            secs = st[tier]
            scale = float(os.environ.get("VP_TIME_SCALE", "1"))
            out = os.path.join(tmp, "result.json")
            env["VP_STAGE"] = st.get("name", "")
            cmd = [exe, "run", "--seed", str(seed + 7919 * i), "--time", str(secs * scale), "--out", out, "--tmp", tmp, "--replays", rdir]
            if "workers" in st:
                cmd += ["--workers", str(st["workers"])]
            r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
            if r.returncode not in (0, 1) or not os.path.exists(out):
                die("harness error (exit %d)\n%s\n%s" % (r.returncode, r.stdout[-2000:], r.stderr[-4000:]))
            res = json.load(open(out))
            os.unlink(out)
            cov["evaluations"] += res["evaluations"]
            cov["distinct_nontrivial"] += res["distinct_nontrivial"]
            cov["samples"] += res["samples"]
            for k, v in res["labels"].items():
                cov["labels"][k] = cov["labels"].get(k, 0) + v
            cov["stages"].append(dict(variant=st["variant"], harness=st["harness"], name=st.get("name", ""), evaluations=res["evaluations"],
                                      distinct_nontrivial=res["distinct_nontrivial"], discarded=res["discarded"], wall_s=res["wall_s"]))
            unconf.update(res["unconfirmed"])
            if res["violation"]:
                viol = res["violation"]
                break
        kf = known_findings(pid)
        cov["samples"] = cov["samples"][:12]
        if unconf:
            cov["unconfirmed"] = {k: v[:1500] for k, v in unconf.items()}
        ev = dict(property=pid, tier=tier, seed=seed, level=t.get("level", "exploration"), coverage=cov,
                  assumptions=t.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=1 if viol else 0)
        if viol:
            ev["violation"] = viol
        with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in kf:
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
        print("%s %s: %d cases, %d distinct non-trivial, %.1f s, %s" % (pid, tier, cov["evaluations"], cov["distinct_nontrivial"],
              ev["wall_s"], "VIOLATED" if viol else "held"))
        if unconf:
            print("note: unconfirmed failures: " + json.dumps(cov["unconfirmed"])[:3000])
        if viol:
            print("%s in %s: %s" % (viol["class"], viol["prop"], viol["message"][:1500]))
            print("case: " + viol["case"][:1500])
            if viol["log"]:
                print(viol["log"][:3000])
            print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(viol["replay"], ROOT)), flush=True)
            return 1
        if cov["evaluations"] == 0:
            die("no case was evaluated")
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
