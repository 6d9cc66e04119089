"""Property-based testing engine for the Python harnesses.

A Python version of pbt.hpp: generators draw from a recorded sequence of
choices, cases run in batches in forked children (so that crashes and
sanitizer reports are caught), failures are shrunk by editing the sequence of
choices and confirmed three times, and the result is written as a replay file.
"""
import ctypes, gc, json, math, mmap, os, resource, signal, struct, sys, time, traceback

MAXCHOICES = 60000
H = 64                       # header bytes
LOGOFF = H + 8 * MAXCHOICES
LOGMAX = 60000
MSGOFF = LOGOFF + LOGMAX
MSGMAX = 4000
SIZE = MSGOFF + MSGMAX
CPU = 60


class Discard(Exception): pass
class Failure(Exception): pass


def require(cond, *msg):
    if not cond:
        raise Failure(msg[0] % msg[1:] if len(msg) > 1 else msg[0] if msg else "requirement failed")


class Shm:
    def __init__(self): self.m = mmap.mmap(-1, SIZE); self.reset()
    def get(self, i): return struct.unpack_from("<Q", self.m, 8 * i)[0]
    def put(self, i, v): struct.pack_into("<Q", self.m, 8 * i, v)
    def reset(self):
        for i in range(6): self.put(i, 0)
        self.settext(LOGOFF, LOGMAX, "", 5); self.msg = ""
    # 0 nchoices 1 cur 2 ndone 3 finished 4 msglen 5 loglen
    def choices(self):
        n = min(self.get(0), MAXCHOICES)
        return list(struct.unpack_from("<%dQ" % n, self.m, H))
    def settext(self, off, mx, s, i):
        b = s.encode("utf-8", "backslashreplace")[:mx]; self.m[off:off + len(b)] = b; self.put(i, len(b))
    @property
    def msg(self): return bytes(self.m[MSGOFF:MSGOFF + self.get(4)]).decode("utf-8", "replace")
    @msg.setter
    def msg(self, s): self.settext(MSGOFF, MSGMAX, s, 4)
    @property
    def log(self): return bytes(self.m[LOGOFF:LOGOFF + self.get(5)]).decode("utf-8", "replace")
    def addlog(self, s):
        b = (s + "\n").encode("utf-8", "backslashreplace"); n = self.get(5); b = b[:LOGMAX - n]
        self.m[LOGOFF + n:LOGOFF + n + len(b)] = b; self.put(5, n + len(b))


class Rng:
    def __init__(self, s): self.s = s & (2**64 - 1)
    def next(self):
        self.s = (self.s + 0x9E3779B97F4A7C15) & (2**64 - 1); z = self.s
        z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & (2**64 - 1)
        z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & (2**64 - 1)
        return z ^ (z >> 31)


def mix(a, b): r = Rng(a * 0x2545F4914F6CDD1D + b); r.next(); return r.next()


class Gen:
    def __init__(self, shm, seed, rep, tier):
        self.shm, self.rng, self.rep, self.tier = shm, Rng(seed), rep, tier
        self.n = 0; self.nt = False; self.labels = []
    def raw(self, mx):
        """Uniform in 0..mx"""
        if self.rep is not None:
            v = self.rep[self.n] if self.n < len(self.rep) else 0
            if v > mx: v %= mx + 1
        else: v = self.rng.next() % (mx + 1)
        if self.n >= MAXCHOICES: raise Failure("generator: choice sequence too long")
        self.shm.put(H // 8 + self.n, v); self.n += 1; self.shm.put(0, self.n)
        return v
    def below(self, n): return 0 if n <= 1 else self.raw(n - 1)
    def range(self, lo, hi): return lo if lo >= hi else lo + self.raw(hi - lo)
    def chance(self, num, den): return self.below(den) >= den - num
    def flip(self): return self.below(2) == 1
    def pick(self, seq): seq = list(seq); return seq[self.below(len(seq))]
    def weighted(self, ws):
        v = self.below(sum(ws))
        for i, w in enumerate(ws):
            if v < w: return i
            v -= w
    def size(self, mx):
        k = self.below(8)
        return self.range(0, min(mx, 3) if k < 3 else min(mx, 12) if k < 6 else min(mx, 60) if k < 7 else mx)
    def i64(self):
        k = self.below(5)
        if k == 0: return self.range(0, 10)
        if k == 1: return self.range(-200, 200)
        if k == 2:
            v = (1 << self.range(0, 63)) + self.range(-2, 2)
            if self.flip(): v = -v
            return max(-2**63, min(2**63 - 1, v))
        if k == 3: return self.pick([0, 1, -1, 127, -128, 32767, -32768, 2**31 - 1, -2**31, 2**63 - 1, -2**63, 255, 65535, 2**32 - 1])
        return self.raw(2**64 - 1) - 2**63
    def f64(self, finite=True):
        k = self.below(7)
        if k == 0: v = float(self.range(-10, 10))
        elif k == 1: v = self.range(-100000, 100000) / 64.
        elif k == 2: v = self.pick([0., 1., -1., .1, 1 / 3, 1e-5, 1e100, 1e-300, 5e-324, 1.7976931348623157e308, 2.2250738585072014e-308, 123456789.123456789, -.5, 16777217., 9007199254740993., -0.])
        elif k == 3: v = float(self.i64())
        elif k == 4: v = self.range(1, 9999999) * 10. ** self.range(-30, 30)
        elif k == 5: v = struct.unpack("<d", struct.pack("<Q", self.raw(2**64 - 1)))[0]
        else: v = self.range(0, 1000000) / 1e6
        return 1.5 if finite and not math.isfinite(v) else v
    def chars(self, alphabet, n): return "".join(alphabet[self.below(len(alphabet))] for _ in range(n))
    def ident(self, mx=12):
        a = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
        return self.chars(a, 1) + self.chars(a + "0123456789_", self.range(0, mx - 1))
    def bytes(self, n): return bytes(self.raw(255) for _ in range(n))
    def text(self, mx=40):
        n, mode, s = self.size(mx), self.below(4), []
        for _ in range(n):
            k = 0 if mode == 0 else self.below(8)
            if k < 4: s.append(self.chars("abcdefghij XYZ0189._-", 1))
            elif k == 4: s.append(self.chars("\"\\'/{}[],:;#?&=%<>@!|~`^$*+()", 1))
            elif k == 5: s.append(self.chars("\n\t\r\b\f\x01\x1f\x7f", 1))
            elif k == 6: s.append(self.chars("\xe5\xd8\u03b1\u20ac\u4e2d\xad\u2028", 1))
            else: s.append(self.chars("\U0001f600\U0010ffff\U00010000\ufffd\u0080", 1))
        return "".join(s)
    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = self.below(i + 1); seq[i], seq[j] = seq[j], seq[i]
        return seq
    def log(self, *a): self.shm.addlog(a[0] % a[1:] if len(a) > 1 else a[0])
    def label(self, s): self.labels.append(s)
    def nontrivial(self): self.nt = True


TESTS, KNOWN = [], []


def pbt(prop, quick, thorough, batch, rule):
    def deco(f): TESTS.append(dict(prop=prop, name=f.__name__, quick=quick, thorough=thorough, batch=batch, rule=rule, fn=f)); return f
    return deco


def known(prop, id):
    def deco(f): KNOWN.append(dict(prop=prop, id=id, fn=f)); return f
    return deco


def heap():
    """Bytes allocated at present, 0 without sanitizer"""
    global _heap
    try: return _heap()
    except NameError:
        try: _heap = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes; _heap.restype = ctypes.c_size_t
        except AttributeError: _heap = lambda: 0
        return _heap()


def child_setup(errfile):
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    fd = os.open(errfile or "/dev/null", os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644); os.dup2(fd, 2); os.close(fd)
    fd = os.open("/dev/null", os.O_WRONLY); os.dup2(fd, 1); os.close(fd)
    for s in (signal.SIGPROF, signal.SIGHUP, signal.SIGQUIT, signal.SIGTERM, signal.SIGUSR1, signal.SIGUSR2, signal.SIGALRM, signal.SIGCHLD):
        signal.signal(s, signal.SIG_DFL)
    signal.pthread_sigmask(signal.SIG_SETMASK, [])


def run_case(t, g):
    g.shm.put(0, 0); g.shm.put(5, 0); g.shm.msg = ""
    signal.setitimer(signal.ITIMER_PROF, CPU)
    try: t["fn"](g)
    except Discard: g.label("discarded"); g.nt = False
    except BaseException as e:
        m = str(e) if isinstance(e, Failure) else "".join(traceback.format_exception(e))[-1800:]
        if isinstance(e, Failure): sys.stderr.write("".join(traceback.format_exception(e)))
        g.shm.msg = m; sys.stderr.flush(); os._exit(70)


def classify(st, shm):
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0 and shm.get(3): return None, ""
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 70: return "property", shm.msg
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 99: return "sanitizer", "AddressSanitizer report"
    if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGPROF: return "hang", "no result after %d s of CPU time" % CPU
    if os.WIFSIGNALED(st): return "signal%d" % os.WTERMSIG(st), "killed by signal %d" % os.WTERMSIG(st)
    return "exit", "unexpected exit (status 0x%x)" % st


def run_isolated(t, shm, choices, tier, errfile=None):
    shm.reset()
    pid = os.fork()
    if pid == 0:
        child_setup(errfile); g = Gen(shm, 1, choices, tier); run_case(t, g); shm.put(3, 1); os._exit(0)
    return classify(os.waitpid(pid, 0)[1], shm)


def run_batch(t, shm, seed, first, n, tier, errfile=None):
    shm.reset(); r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r); child_setup(errfile); labels, hashes, sample = {}, [], ""
        name = sum(b * 131**i for i, b in enumerate(t["name"].encode())) & (2**64 - 1)
        for i in range(n):
            shm.put(1, first + i); g = Gen(shm, mix(mix(seed, name), first + i), None, tier); run_case(t, g)
            for l in g.labels: labels[l] = labels.get(l, 0) + 1
            if g.nt:
                hashes.append(hash(tuple(shm.choices())))
                if not sample or len(shm.log) < 1500: sample = shm.log[:1200]
            shm.put(2, i + 1)
        with os.fdopen(w, "w") as f: json.dump([labels, hashes, sample], f)
        shm.put(3, 1); os._exit(0)
    os.close(w)
    with os.fdopen(r) as f: data = f.read()
    kind, msg = classify(os.waitpid(pid, 0)[1], shm)
    return kind, msg, (json.loads(data) if data and not kind else [{}, [], ""])


def shrink(t, shm, c, tier, kind, budget):
    t0, runs = time.time(), 0
    cur = [list(c)]
    def attempt(cand):
        nonlocal runs
        if time.time() - t0 > budget or runs > 3000: return False
        runs += 1; k, m = run_isolated(t, shm, cand, tier)
        if not k or (k == "property") != (kind == "property") or k == "hang": return False
        used = shm.choices(); cur[0] = used if len(used) < len(cand) else cand
        return True
    improved = True
    while improved and time.time() - t0 < budget:
        improved = False; k = max(1, len(cur[0]) // 2)
        while k >= 1:
            i = 0
            while i + k <= len(cur[0]):
                if attempt(cur[0][:i] + cur[0][i + k:]): improved = True
                else: i += k
                if time.time() - t0 > budget: return cur[0]
            k //= 2
        i = 0
        while i < len(cur[0]):
            if cur[0][i]:
                cand = list(cur[0]); cand[i] = 0
                if attempt(cand): improved = True
                else:
                    lo, hi = 0, cur[0][i]
                    while hi - lo > 1 and time.time() - t0 < budget and i < len(cur[0]):
                        mid = lo + (hi - lo) // 2; cand = list(cur[0]); cand[i] = mid
                        if attempt(cand): hi = mid; improved = True
                        else: lo = mid
            i += 1
    return cur[0]


def worker(t, shm, seed, total, B, nb, ctl, t0, cap, tier, wfd):
    st = dict(evals=0, nt=[], labels={}, samples=[], bad=None)
    while not ctl[0]:
        # take the next batch
        fd = os.open(ctl_path, os.O_RDWR)
        import fcntl; fcntl.flock(fd, fcntl.LOCK_EX)
        b = struct.unpack_from("<Q", ctl, 8)[0]; struct.pack_into("<Q", ctl, 8, b + 1)
        os.close(fd)
        if b >= nb or time.time() - t0 > cap: break
        first = b * B; kind, msg, (lab, hs, sample) = run_batch(t, shm, seed, first, min(B, total - first), tier)
        st["evals"] += shm.get(2)
        for k, v in lab.items(): st["labels"][k] = st["labels"].get(k, 0) + v
        st["nt"] += hs
        if sample and len(st["samples"]) < 2: st["samples"].append(sample)
        if kind: st["bad"] = b; st["kind"] = kind; ctl[0] = 1; break
    with os.fdopen(wfd, "w") as f: json.dump(st, f)
    os._exit(0)


def esc(s): return s.encode("ascii", "backslashreplace").decode()


def main():
    global ctl_path
    opt = dict(seed="1", jobs="8", cap="60", scale="1", out="", faildir=".", replay="", test="")
    tier, isknown = 0, False
    for a in sys.argv[1:]:
        if a == "--thorough": tier = 1
        elif a == "--known": isknown = True
        elif a == "--list":
            for t in TESTS: print(t["prop"], t["name"])
            return 0
        elif a.startswith("--") and a[2:].split("=")[0] in opt: k, v = a[2:].split("=", 1); opt[k] = v
        else: print("bad argument:", a); return 2
    seed, scale, cap, jobs, fd = int(opt["seed"]), float(opt["scale"]), float(opt["cap"]), int(opt["jobs"]), opt["faildir"]
    shm = Shm(); gc.collect(); gc.freeze()
    if opt["replay"]:
        name, choices, batch = None, [], None
        for line in open(opt["replay"]):
            w = line.split()
            if not w: continue
            if w[0] == "test": name = w[1]
            elif w[0] == "tier": tier = int(w[1])
            elif w[0] == "choices": choices = [int(x) for x in w[1:]]
            elif w[0] == "batch": batch = [int(x) for x in w[1:4]]
        for t in TESTS:
            if t["name"] == name:
                ef = fd + "/replay.stderr"
                kind, msg = run_batch(t, shm, *batch, tier, ef)[:2] if batch else run_isolated(t, shm, choices, tier, ef)
                print("FAILED: " + msg if kind else "passed"); print(shm.log); print("--- stderr:"); print(open(ef, errors="replace").read()[:6000])
                return 1 if kind else 0
        print("no such test:", name); return 2
    out = open(opt["out"], "w") if opt["out"] else sys.stdout
    if isknown:
        for k in KNOWN:
            shm.reset(); pid = os.fork()
            if pid == 0:
                child_setup(None)
                try: still = k["fn"]()
                except BaseException: still = True
                shm.put(3, 1); os._exit(70 if still else 0)
            kind = classify(os.waitpid(pid, 0)[1], shm)[0]
            out.write(json.dumps(dict(known=k["id"], property=k["prop"], still=bool(kind))) + "\n")
        out.flush(); return 0
    ctl_path = fd + "/ctl"; open(ctl_path, "w").close()
    shms = [Shm() for _ in range(jobs)]; ctl = mmap.mmap(-1, 4096); rc = 0
    todo = [t for t in TESTS if not opt["test"] or t["name"] in opt["test"].split(",")]
    tstart = time.time()
    for ti, t in enumerate(todo):
        t0 = time.time(); mycap = max(2, (cap - (t0 - tstart)) / (len(todo) - ti))
        total = max(1, int((t["thorough"] if tier else t["quick"]) * scale)); B = t["batch"]; nb = (total + B - 1) // B
        ctl[0] = 0; struct.pack_into("<Q", ctl, 8, 0); rs, pids = [], []
        for j in range(jobs):
            r, w = os.pipe(); pid = os.fork()
            if pid == 0:
                os.close(r); worker(t, shms[j], seed, total, B, nb, ctl, t0, mycap, tier, w)
            os.close(w); rs.append(r); pids.append(pid)
        evals, nt, labels, samples, bad = 0, set(), {}, [], None
        for j in range(jobs):
            with os.fdopen(rs[j]) as f: st = json.load(f)
            os.waitpid(pids[j], 0); evals += st["evals"]; nt.update(st["nt"]); samples += st["samples"]
            for k, v in st["labels"].items(): labels[k] = labels.get(k, 0) + v
            if st["bad"] is not None and (bad is None or st["bad"] < bad[0]): bad = (st["bad"], j)
        rec = dict(property=t["prop"], test=t["name"], rule=t["rule"], requested=total, evaluations=evals, distinct_nontrivial=len(nt),
                   wall_s=round(time.time() - t0, 2), labels=labels, samples=[esc(s) for s in samples[:4]])
        if bad:
            sh = shms[bad[1]]; c, cur, msg0, log0 = sh.choices(), sh.get(1), sh.msg, sh.log
            ef, rf = "%s/%s.stderr" % (fd, t["name"]), "%s/%s.replay" % (fd, t["name"])
            kind, msg = run_isolated(t, shm, c, tier); confirmed, via, log, err = False, False, "", ""
            if kind:
                if kind != "hang": c = shrink(t, shm, c, tier, kind, 25)
                confirmed = True
                for _ in range(1 if kind == "hang" else 3):
                    k2, msg = run_isolated(t, shm, c, tier, ef)
                    if not k2: confirmed = False
                    log, err = shm.log, open(ef, errors="replace").read()[:6000]
            first = bad[0] * B; n = cur - first + 1
            if not confirmed:
                confirmed = via = True
                for _ in range(3):
                    k2, msg, _s = run_batch(t, shm, seed, first, n, tier, ef)
                    if not k2: confirmed = False; break
                    log, err = shm.log, open(ef, errors="replace").read()[:6000]
            with open(rf, "w") as f:
                f.write("test %s\ntier %d\n" % (t["name"], tier))
                f.write("batch %d %d %d\n" % (seed, first, n) if via else "choices %s\n" % " ".join(map(str, c)))
                f.write("# property %s\n# confirmed %d\n# %s\n" % (t["prop"], confirmed, esc(msg if confirmed else msg0).replace("\n", " | ")))
                for l in (log if confirmed else log0).split("\n"): f.write("# | %s\n" % esc(l))
                for l in err.split("\n"): f.write("# ! %s\n" % esc(l))
            rec.update(failed=confirmed, unconfirmed=not confirmed, message=esc(msg if confirmed else msg0), replay=rf)
            if confirmed: rc = 1
        out.write(json.dumps(rec) + "\n"); out.flush()
    return rc
