# D33: with Python, a save that cannot be completed raises an exception and changes nothing in memory
import gc, os, resource, signal, sys
for n in ("minio", "psycopg2", "redis", "pymongo", "requests", "matplotlib", "tripper", "paramiko"): sys.modules[n] = None   # not needed by the drivers for files
sys.dont_write_bytecode = True
import dlite
import pypbt
from pypbt import pbt, known, require, Failure
import pyworld
from pyworld import *
import dlite.protocol as P

signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
for n in ("yaml", "bson", "pyrdf"):
    try: dlite.Storage(n, "/nonexistent/x", "mode=r")   # loads the plugins
    except Exception: dlite.errclr()
P.Protocol.load_plugins()
SCR = os.environ.get("VERIF_SCRATCH", "/tmp")
PLAIN = ("bool", "int8", "int32", "int64", "uint8", "uint32", "float32", "float64", "string")


class Limit:
    """Files cannot become longer than n bytes"""
    def __init__(self, n): self.n = n
    def __enter__(self): self.old = resource.getrlimit(resource.RLIMIT_FSIZE); resource.setrlimit(resource.RLIMIT_FSIZE, (self.old[1] if self.n is None else self.n, self.old[1]))
    def __exit__(self, *e): resource.setrlimit(resource.RLIMIT_FSIZE, self.old)


def path(name): return os.path.join(SCR, "d33py-%d-%s" % (os.getpid(), name))


def clean(*names):
    for f in names:
        if os.path.lexists(f): os.unlink(f)


def read(f):
    with open(f, "rb") as h: return h.read()


def save(how, driver, opts, insts, coll, file, n):
    """Saves, returns the exception or None"""
    dlite.errclr()
    try:
        if how == "storage":
            with Limit(n):
                with dlite.Storage(driver, file, opts) as s:
                    for i in insts: s.save(i)
        elif how == "flush":
            with Limit(n):
                s = dlite.Storage(driver, file, opts)
                try:
                    for i in insts: s.save(i)
                    s.flush()
                finally: s.__exit__()
        elif how == "location":
            with Limit(n): insts[0].save(driver, file, opts)
        elif how == "url":
            with Limit(n): insts[0].save("%s://%s?%s" % (driver, file, opts))
        elif how == "collection":
            with Limit(n): coll.save(driver, file, opts)
        elif how == "bytes":
            data = insts[0].to_bytes(driver)
            with Limit(n):
                with P.Protocol("file", file, options="mode=w") as p: p.save(bytes(data))
    except Exception as e:
        dlite.errclr(); return e
    return None


@pbt("D33", 700, 12000, 10, "the file size limit is smaller than what is saved")
def drivers(g):
    driver = g.pick(["json", "yaml", "yaml", "bson", "rdf", "pyrdf"]); how = g.pick(["storage", "storage", "location", "url", "collection", "bytes", "flush"])
    types = PLAIN if driver in ("rdf", "pyrdf", "bson") else ("bool", "int32", "float64", "string", "uint16", "blob8", "int64")
    m = gen_meta(g, types, maxprops=4, maxnd=2); meta = m.create(); insts, ts = [], []
    if driver in ("rdf", "pyrdf") and how == "collection": how = "location"
    if driver in ("rdf", "pyrdf") and how == "bytes": how = "url"
    if how == "bytes" and driver == "bson": how = "nobytes"   # not supported by this driver
    if driver not in ("yaml",) and how == "flush": how = "storage"
    for _ in range(g.range(1, 3)):
        inst, x = make(g, m, None); settle(x)
        insts.append(inst); ts.append(x)
    coll = None
    if how == "collection":
        coll = dlite.Collection("zz:c" + uniq())
        for k, i in enumerate(insts): coll.add("i%d" % k, i)
    a, b = path("a"), path("b"); clean(a, b)
    mode = g.pick(["w", "w", "a"]) if driver in ("json", "yaml") else "w"; opts = "mode=" + mode
    def options(file): return "mode=w;store=memory;format=turtle;filename=" + file if driver == "rdf" else opts + ";format=turtle" if driver == "pyrdf" else opts
    old = driver in ("json", "yaml") and g.chance(1, 3)
    try:
        if how == "nobytes":
            try: r = insts[0].to_bytes(driver)
            except dlite.DLiteError: dlite.errclr()
            else: raise Failure("to_bytes(%r) returns %r, although the driver cannot do that" % (driver, bytes(r)))
            how = "storage"
        if old:
            for f in (a, b): require(save("storage", driver, "mode=w", insts[:1], None, f, None) is None, "saving without limits fails")
        e = save(how, driver, options(a), insts, coll, a, None); require(e is None, "saving with %s (%s) without limits raises %r", driver, how, e)
        full = read(a); size = len(full); n = g.pick([0, 1, size - 1, size - 1, size // 2, size, size + 1, g.below(size + 1), g.below(size + 1)])
        g.log("%s %s mode %s, %d instances, %d bytes%s, limit %d" % (driver, how, mode, len(insts), size, " (there is a file already)" if old else "", n))
        e = save(how, driver, options(b), insts, coll, b, n); what = "%s (%s, mode %s)" % (driver, how, mode)
        if n < size:
            g.nontrivial(); g.label("%s %s" % (driver, how))
            require(e is not None, "%s: only %d of %d bytes could be written, but nothing is raised", what, n, size)
        else:
            require(e is None, "%s: saving %d bytes with room for %d raises %r", what, size, n, e); require(len(read(b)) == size, "%s: %d bytes were written, expected %d", what, len(read(b)), size)
        for i, x in zip(insts, ts): checkall(i, x, what + ", after saving")
        if n < size:
            clean(b); mode = "w"; opts = "mode=w"
            e = save(how, driver, options(b), insts, coll, b, None); require(e is None, "%s: saving again, without limit, raises %r", what, e); require(len(read(b)), "%s: nothing was written when saving again", what)
    finally:
        clean(a, b)
        if coll is not None:
            cid = coll.uuid; coll = None
        ids = [i.uuid for i in insts]; inst = i = x = None; del insts[:]; del ts[:]; gc.collect()
    for u in ids: require(not present(u), "instance %s is still there after it was saved and released", u)
    release(meta)


@known("D33", "pysave")
def pysave():
    meta = dlite.Metadata("zz:pysave/0.1/" + uniq(), [], [dlite.Property("x", "int")], ""); inst = meta(); inst.x = 1
    cls = [c for c in dlite.DLiteStorageBase.__subclasses__() if c.__name__ == "yaml"]
    if not cls: return False
    def broken(self, inst): raise IOError("cannot save")
    old = cls[0].save; cls[0].save = broken; file = path("known")
    try:
        with dlite.Storage("yaml", file, "mode=w") as s:
            try: s.save(inst)
            except Exception: return False
            return True
    finally: cls[0].save = old; dlite.errclr(); clean(file)


if __name__ == "__main__": sys.exit(pypbt.main())
