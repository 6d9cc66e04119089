#!/usr/bin/env python3
"""Run the check of one property:  check.py D01 [quick|thorough]

Builds the library under test from /repo's working tree (out of tree, with
AddressSanitizer), builds the property's harness, runs it and writes
evidence/<id>.json.  Exit 0: held on everything explored.  Exit 1 with a
VIOLATION line: broken.  Anything else: error of the check.
"""
import fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
HARN = os.path.join(VERIF, "harness")
VENV = "/opt/dlite-venv"
JOBS = max(2, min(8, os.cpu_count() or 2))

SAN = "-fsanitize=address -fno-omit-frame-pointer -O1 -g"
FLAVOURS = {
    # C library with sanitizers, as used by the C++ harnesses
    "asan": ["-DWITH_PYTHON=OFF", "-DWITH_HDF5=ON", "-DWITH_REDLAND=ON",
             "-DWITH_FORTRAN=OFF", "-DCMAKE_C_FLAGS=" + SAN],
    # the same with the built-in triplestore
    "builtin": ["-DWITH_PYTHON=OFF", "-DWITH_HDF5=ON", "-DWITH_REDLAND=OFF",
                "-DWITH_FORTRAN=OFF", "-DCMAKE_C_FLAGS=" + SAN],
    # Python bindings and plugins
    "py": ["-DWITH_PYTHON=ON", "-DWITH_HDF5=ON", "-DWITH_REDLAND=ON", "-DWITH_FORTRAN=OFF",
           "-DPython3_EXECUTABLE=%s/bin/python3" % VENV, "-DSWIG_USE_SWIG_DEPENDENCIES=TRUE",
           "-DCMAKE_C_FLAGS=" + SAN],
}


class CheckError(Exception):
    pass


def env_base():
    env = {k: v for k, v in os.environ.items()
           if not k.startswith("DLITE_") and k not in (
               "PYTHONPATH", "PYTHONHOME", "LD_LIBRARY_PATH", "CFLAGS", "CXXFLAGS", "LDFLAGS", "FFLAGS",
               "ASAN_OPTIONS", "LD_PRELOAD")}
    env.update(LANG="C.UTF-8", CC="gcc", CXX="g++", VIRTUAL_ENV=VENV,
               PATH=VENV + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
               PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1", FETCHCONTENT_FULLY_DISCONNECTED="ON")
    env.setdefault("HOME", "/root")
    return env


def tree_hash(sub=("src", "storages", "bindings", "tools", "cmake", "CMakeLists.txt", "python")):
    """Content hash of the source tree and of its build configuration."""
    h, hc = hashlib.sha256(), hashlib.sha256()
    for s in sub:
        top = os.path.join(REPO, s)
        if os.path.isfile(top):
            files = [top]
        else:
            files = []
            for d, dirs, fs in os.walk(top):
                dirs[:] = sorted(x for x in dirs if x not in (".git", "__pycache__", "_build"))
                files += [os.path.join(d, f) for f in sorted(fs) if not f.endswith(".pyc")]
        for f in files:
            if os.path.islink(f) or not os.path.isfile(f):
                continue
            data = open(f, "rb").read()
            rel = os.path.relpath(f, REPO).encode()
            h.update(rel + b"\0" + hashlib.sha256(data).digest())
            if f.endswith("CMakeLists.txt") or "/cmake/" in f or f.endswith(".in"):
                hc.update(rel + b"\0" + hashlib.sha256(data).digest())
            else:
                hc.update(rel)
    return h.hexdigest(), hc.hexdigest()


def run(cmd, log, env, timeout=900):
    with open(log, "w") as f:
        p = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=env, timeout=timeout)
    if p.returncode:
        tail = open(log, errors="replace").read()[-3000:]
        raise CheckError("command failed: %s\n%s" % (" ".join(cmd), tail))


def build_flavour(flavour, thash=None):
    th, tc = thash or tree_hash()
    os.makedirs(BUILD, exist_ok=True)
    B = os.path.join(BUILD, flavour)
    with open(os.path.join(BUILD, ".lock-" + flavour), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(B, ".verif-stamp")
        cstamp = os.path.join(B, ".verif-cstamp")
        read = lambda p: open(p).read() if os.path.exists(p) else ""
        if read(stamp) == th + REPO:
            return B
        env = env_base()
        if read(cstamp) != tc + REPO or not os.path.exists(os.path.join(B, "build.ninja")):
            shutil.rmtree(B, ignore_errors=True)
            os.makedirs(B)
            run(["cmake", "-S", REPO, "-B", B, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Debug",
                 "-DCMAKE_INSTALL_PREFIX=" + B + "/_install", "-DWITH_EXAMPLES=OFF", "-DWITH_DOC=OFF"]
                + FLAVOURS[flavour], B + "/verif-configure.log", env)
            open(cstamp, "w").write(tc + REPO)
        else:
            if os.path.exists(stamp):
                os.unlink(stamp)
            shutil.rmtree(B + "/bindings/python/dlite", ignore_errors=True)
            run(["ninja", "-C", B, "-t", "clean"], B + "/verif-clean.log", env)
        run(["ninja", "-C", B, "-j", str(JOBS)], B + "/verif-build.log", env)
        open(stamp, "w").write(th + REPO)
    return B


def build_harness(src, flavour, B, th):
    """Compile harness/<src>.cpp against build B; returns the binary."""
    hh = hashlib.sha256((th + flavour + REPO).encode())
    for f in sorted(glob.glob(HARN + "/*.hpp")) + [os.path.join(HARN, src + ".cpp")]:
        hh.update(open(f, "rb").read())
    out = os.path.join(BUILD, "bin", "%s-%s-%s" % (src, flavour, hh.hexdigest()[:16]))
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    for old in glob.glob(os.path.join(BUILD, "bin", "%s-%s-*" % (src, flavour))):
        try: os.unlink(old)
        except OSError: pass
    inc = []
    for d in (B, B + "/src", B + "/src/utils", REPO + "/src", REPO + "/src/utils",
              "/usr/include/raptor2", "/usr/include/rasqal"):
        inc += ["-I", d]
    tmp = out + ".tmp%d" % os.getpid()
    run(["g++", "-std=c++17", "-g", "-O1", "-fsanitize=address", "-fno-omit-frame-pointer", "-fpermissive", "-w",
         '-DVERIF_BUILD_ROOT="%s"' % B, '-DVERIF_REPO="%s"' % REPO, '-DVERIF_FLAVOUR_%s' % flavour.upper()]
        + inc + [os.path.join(HARN, src + ".cpp"), "-o", tmp, "-L" + B + "/src", "-L" + B + "/src/utils",
                 "-ldlite", "-ldlite-utils", "-lm", "-ldl",
                 "-Wl,-rpath,%s/src:%s/src/utils" % (B, B)],
        out + ".log", env_base())
    os.rename(tmp, out)
    return out


def py_env(B):
    """Environment of the Python harnesses: bindings built with AddressSanitizer."""
    asan = subprocess.run(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
    return {"PYTHONPATH": "%s/bindings/python:%s" % (B, HARN),
            "LD_LIBRARY_PATH": "%s/src:%s/src/utils:%s/src/pyembed" % (B, B, B),
            "VERIF_BUILD_ROOT": B, "VERIF_REPO": REPO, "PYTHONHASHSEED": "0", "PYTHONMALLOC": "malloc",
            "LD_PRELOAD": os.path.realpath(asan), "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1",
            "ASAN_OPTIONS": "exitcode=99:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=1024:"
                            "abort_on_error=0:detect_stack_use_after_return=0:handle_abort=0:symbolize=1:"
                            "strict_string_checks=0:malloc_context_size=12:quarantine_size_mb=16"}


def parse_header(path, key):
    """First-lines comment  '<key>: a b c' of a harness file."""
    for i, line in enumerate(open(path, errors="replace")):
        if i > 30: break
        m = re.search(re.escape(key) + r":\s*(.*)", line)
        if m: return m.group(1).split()
    return None


def known_findings(prop):
    """[(id, what)] of listed (not fixed) findings of a property."""
    res = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding:\s+property=(\S+)\s+id=(\S+)\s+(.*)", line.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


def components(prop):
    comps = []
    low = prop.lower()
    for src in sorted(glob.glob(os.path.join(HARN, low + "*.cpp"))):
        for fl in parse_header(src, "flavours") or ["asan"]:
            comps.append(("c", os.path.splitext(os.path.basename(src))[0], fl))
    for src in sorted(glob.glob(os.path.join(HARN, low + "*.py"))):
        comps.append(("py", os.path.splitext(os.path.basename(src))[0], "py"))
    return comps


def main():
    # the outcome should not depend on what the caller ignores or blocks (e.g. nohup)
    for s in (signal.SIGHUP, signal.SIGQUIT, signal.SIGTERM, signal.SIGUSR1, signal.SIGUSR2, signal.SIGALRM, signal.SIGCHLD, signal.SIGPROF):
        signal.signal(s, signal.SIG_DFL)
    if signal.getsignal(signal.SIGINT) == signal.SIG_IGN: signal.signal(signal.SIGINT, signal.SIG_DFL)
    signal.pthread_sigmask(signal.SIG_SETMASK, [])
    os.umask(0o022)
    t0 = time.time()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    comps = components(prop)
    if not comps:
        print("no harness for", prop); return 2
    cap_total = float(os.environ.get("VERIF_CAP", "100" if tier == "quick" else "660"))
    work = os.path.join(BUILD, "run", "%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    failures = os.path.join(VERIF, "failures")
    results, known = [], {}
    try:
        thash = tree_hash()
        for kind, name, flavour in comps:
            B = build_flavour(flavour, thash)
            env = env_base()
            env.update(DLITE_USE_BUILD_ROOT="YES", VERIF_SEED=str(seed), VERIF_TIER=tier)
            scratch = os.path.join(work, "scratch-%s-%s" % (name, flavour))
            os.makedirs(scratch)
            env["VERIF_SCRATCH"] = scratch
            env["TMPDIR"] = scratch
            outf = os.path.join(work, "out-%s-%s.jsonl" % (name, flavour))
            cap = cap_total / len(comps)
            if kind == "c":
                exe = build_harness(name, flavour, B, thash[0])
                cmd = [exe, "--seed=%d" % seed, "--jobs=%d" % JOBS, "--cap=%g" % cap, "--scale=%g" % scale,
                       "--out=" + outf, "--faildir=" + work] + (["--thorough"] if tier == "thorough" else [])
                kcmd = [exe, "--known", "--out=" + outf + ".known", "--faildir=" + work]
            else:
                env.update(py_env(B))
                cmd = [VENV + "/bin/python3", os.path.join(HARN, name + ".py"), "--seed=%d" % seed,
                       "--jobs=%d" % JOBS, "--cap=%g" % cap, "--scale=%g" % scale, "--out=" + outf,
                       "--faildir=" + work] + (["--thorough"] if tier == "thorough" else [])
                kcmd = [VENV + "/bin/python3", os.path.join(HARN, name + ".py"), "--known",
                        "--out=" + outf + ".known", "--faildir=" + work]
            with open(os.path.join(work, name + "-" + flavour + ".log"), "w") as lf:
                p = subprocess.run(cmd, env=env, cwd=scratch, stdout=lf, stderr=subprocess.STDOUT,
                                   timeout=cap * 2 + 300)
            if p.returncode not in (0, 1) or not os.path.exists(outf):
                raise CheckError("harness %s ended with %s\n%s" % (
                    name, p.returncode, open(lf.name, errors="replace").read()[-3000:]))
            for line in open(outf):
                r = json.loads(line)
                r["flavour"] = flavour
                r["harness"] = name
                results.append(r)
            if known_findings(prop):
                subprocess.run(kcmd, env=env, cwd=scratch, stdout=subprocess.DEVNULL,
                               stderr=subprocess.DEVNULL, timeout=300)
                if os.path.exists(outf + ".known"):
                    for line in open(outf + ".known"):
                        r = json.loads(line)
                        if r["property"] == prop:
                            known[r["known"]] = known.get(r["known"], False) or r["still"]
            if any(r.get("failed") for r in results):
                break
    except (CheckError, subprocess.TimeoutExpired) as e:
        print("ERROR:", e)
        shutil.rmtree(work, ignore_errors=True)
        return 2

    status = 0
    for kid, what in known_findings(prop):
        if known.get(kid):
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, kid, what))
    for r in results:
        if r.get("failed"):
            status = 1
            os.makedirs(failures, exist_ok=True)
            dest = os.path.join(failures, "%s-%s-%s.replay" % (prop, r["test"], r["flavour"]))
            body = open(r["replay"], errors="replace").read() if os.path.exists(r["replay"]) else ""
            with open(dest, "w") as f:
                f.write("# harness %s flavour %s  (replay: /verif/replay.py %s)\n%s" % (r["harness"], r["flavour"], dest, body))
            print("VIOLATION property=%s replay=%s" % (prop, dest))
            print("  %s: %s" % (r["test"], r.get("message", "")[:600].replace("\n", " | ")))
        elif r.get("unconfirmed"):
            print("note: %s: a failure did not reproduce and is not reported: %s" % (r["test"], r.get("message", "")[:300]))
        if r["evaluations"] == 0:
            print("ERROR: test %s made no evaluations" % r["test"])
            status = status or 2
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in results),
            "rule": "; ".join("%s[%s]: %s" % (r["test"], r["flavour"], r["rule"]) for r in results),
            "samples": [dict(test=r["test"], case=s) for r in results for s in r["samples"][:2]][:40],
            "per_test": [dict(test=r["test"], flavour=r["flavour"], requested=r["requested"],
                              evaluations=r["evaluations"], distinct_nontrivial=r["distinct_nontrivial"],
                              wall_s=r["wall_s"], labels=r["labels"],
                              unconfirmed=r.get("message") if r.get("unconfirmed") else None) for r in results],
            "known_findings": {k: v for k, v in known.items()},
        },
        "assumptions": ["gcc AddressSanitizer reports every invalid memory access it can observe",
                        "exploration only: nothing is established for inputs not generated"],
        "wall_s": round(time.time() - t0, 2),
        "violations": sum(1 for r in results if r.get("failed")),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d evaluations, %d distinct non-trivial, %.1f s" % (
        prop, tier, seed, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["wall_s"]))
    if os.environ.get("VERIF_KEEP") != "1":
        shutil.rmtree(work, ignore_errors=True)
    return status


if __name__ == "__main__":
    if sys.argv[1:2] == ["--build"]:      # setup: prebuild everything
        th = tree_hash()
        for fl in FLAVOURS:
            build_flavour(fl, th)
        from concurrent.futures import ThreadPoolExecutor
        jobs = []
        for src in sorted(glob.glob(HARN + "/d*.cpp")):
            for fl in parse_header(src, "flavours") or ["asan"]:
                jobs.append((os.path.splitext(os.path.basename(src))[0], fl))
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(lambda j: build_harness(j[0], j[1], os.path.join(BUILD, j[1]), th[0]), jobs))
        print("built", len(jobs), "harnesses")
        sys.exit(0)
    sys.exit(main())
