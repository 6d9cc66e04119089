# D32: what is saved through a protocol is what is loaded, options are passed on
import gc, io, json, os, pathlib, re, shutil, sys, urllib.parse, zipfile
for n in ("minio", "psycopg2", "redis", "pymongo", "requests", "matplotlib", "tripper", "paramiko"): sys.modules[n] = None   # not needed by the plugins for files
import dlite
import pypbt
from pypbt import pbt, require, Failure, heap
import pyworld
from pyworld import *
import dlite.protocol as P
from dlite.options import Options, make_query, parse_query

try: dlite.Storage("yaml", "/nonexistent/x.yaml", "mode=r")   # loads the plugins
except dlite.DLiteError: dlite.errclr()
P.Protocol.load_plugins()
SCR = os.environ.get("VERIF_SCRATCH", "/tmp")


class Scratch:
    """A directory that is removed afterwards"""
    def __enter__(self): self.d = os.path.join(SCR, "d32-%d" % os.getpid()); shutil.rmtree(self.d, ignore_errors=True); os.makedirs(self.d); return self.d
    def __exit__(self, *e): shutil.rmtree(self.d, ignore_errors=True)


def refused(f, what, *kinds):
    try: r = f()
    except Exception as e: require(isinstance(e, kinds or dlite.DLiteError), "%s raises %s: %s", what, type(e).__name__, e); dlite.errclr(); return
    raise Failure("%s is accepted, result %r" % (what, r))


# -- options

def gen_json(g, depth=2):
    k = g.below(8 if depth else 6)
    if k == 0: return g.text(12)
    if k == 1: return g.i64()
    if k == 2: return g.f64()
    if k == 3: return g.flip()
    if k == 4: return None
    if k == 5: return g.pick(["", "%%", "%%1", "a=b", "a;b&c", "+", " ", "%", "%41", "#", "\u00e5"])
    if k == 6: return [gen_json(g, depth - 1) for _ in range(g.range(0, 3))]
    return {g.text(5): gen_json(g, depth - 1) for _ in range(g.range(0, 3))}


def gen_options(g): return {(g.ident(5) if g.flip() else g.text(6).replace("\0", "") or "k"): gen_json(g) for _ in range(g.range(0, 5))}


def unzero(v):   # embedded NULs cannot be passed to the C functions for percent-encoding
    if isinstance(v, str): return v.replace("\0", "0")
    if isinstance(v, list): return [unzero(u) for u in v]
    if isinstance(v, dict): return {unzero(k): unzero(u) for k, u in v.items()}
    return v


def spell(g, s):
    """Percent-encodes some characters more than needed"""
    out = ""
    for c in s:
        b = c.encode()
        if c.isalnum() and c.isascii() or c in "-._~": out += c if g.below(5) else "".join("%%%02x" % x for x in b)
        else: out += "".join(g.pick(["%%%02x", "%%%02X"]) % x for x in b)
    return out


@pbt("D32", 3000, 40000, 100, "options are written as a query and parsed again, from one's own spelling, and merged with defaults; non-trivial: at least two options, one of which is not a string")
def options(g):
    d = unzero(gen_options(g)); sep = g.pick([";", "&", None]); g.log("%r", d)
    q = make_query(d) if sep is None else make_query(d, sep=sep)
    require(isinstance(q, str) and "#" not in q and q.isascii(), "query is %r", q)
    if d: require(parse_query(q) == d and list(parse_query(q)) == list(d) and repr(parse_query(q)) == repr(d), "%r is parsed as %r instead of %r", q, parse_query(q), d)
    require(dict(Options(q)) == d and dict(Options(d)) == d and dict(Options(str(Options(d)))) == d, "Options(%r) is %r", q, dict(Options(q)))
    # a spelling of our own
    s = ""
    for i, (k, v) in enumerate(d.items()):
        if i: s += g.pick([";", "&"])
        s += spell(g, k) + "="
        s += spell(g, v) if isinstance(v, str) else "%%" + spell(g, json.dumps(v))
    require(dict(Options(s)) == d, "%r is parsed as %r instead of %r", s, dict(Options(s)), d)
    # defaults
    e = unzero(gen_options(g))
    for k in list(d)[:g.below(3)]: e[k] = g.text(3).replace("\0", "")
    w = dict(e); w.update(d)
    o = Options(g.pick([d, q]) or None, g.pick([e, make_query(e)]) or None)
    require(dict(o) == w, "options %r with defaults %r are %r", d, e, dict(o))
    for k in w: require(getattr(o, k) == w[k] if not hasattr(dict, k) else True, "attribute %r is %r", k, w[k])
    n = "x" + g.ident(4)
    if n not in w: refused(lambda: getattr(o, n), "missing option", KeyError); o[n] = "1"; require(o[n] == "1" and getattr(o, n) == "1" and n in o, "new option"); setattr(o, n, "2"); require(o[n] == "2", "option set as an attribute")
    if s and g.flip(): t = g.pick(["x", s + ";x", "x;" + s]); refused(lambda: parse_query(t), "query %r" % t, dlite.DLiteError, ValueError)
    if len(d) >= 2 and not all(isinstance(v, str) for v in d.values()): g.nontrivial()


# -- archives and directories

NAMES = ["a", "b.json", "c.txt", "data.bin", "x~", "b.json.bak", "\u00e5.txt", "with space", "uuid-1", "n0", "zz.JSON", ".hidden"]
PATTERNS = [None, None, r".*\.json$", r".*(~|\.bak)$", r"s/", r"[a-m]", r".*/", r"a$", r"s/t/.*", r".*i", r"^b", r"(?!s)"]


def content(g):
    k = g.below(8)
    if k == 0: return b""
    if k == 1: return g.text(30).encode()
    if k == 2: return b"PK\x03\x04" + g.bytes(g.below(20))
    if k == 3: return g.bytes(1) * g.range(1, 70000)
    return g.bytes(g.size(100))


def gen_tree(g):
    t = {}
    for _ in range(g.range(0, 6)):
        d = g.pick(["", "", "s/", "s/t/", "v/"]); t[d + g.pick(NAMES)] = content(g)
    return t


def write(d, tree):
    os.makedirs(d, exist_ok=True)
    for n, b in tree.items():
        p = os.path.join(d, n); os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f: f.write(b)


def readtree(d):
    t = {}
    for r, _, files in os.walk(d):
        for n in files:
            p = os.path.join(r, n)
            with open(p, "rb") as f: t[os.path.relpath(p, d)] = f.read()
    return t


def matching(tree, incl, excl): return {n: b for n, b in tree.items() if (not incl or re.match(incl, n)) and not (excl and re.match(excl, n))}


def show(tree): return {n: b if len(b) < 40 else "%s... (%d bytes)" % (b[:10], len(b)) for n, b in tree.items()}


def sametree(got, want, what): require(got == want, "%s: %s instead of %s", what, show(got), show(want))


def isarchive(b): return zipfile.is_zipfile(io.BytesIO(b))


def checkarchive(g, data, tree, what):
    require(type(data) is bytes and P.is_archive(data), "%s is not an archive", what)
    require(sorted(P.archive_names(data)) == sorted(tree), "%s has the names %s instead of %s", what, P.archive_names(data), sorted(tree))
    for n, b in tree.items(): require(P.archive_extract(data, n) == b, "%s: %s is %r", what, n, P.archive_extract(data, n)[:99])
    with zipfile.ZipFile(io.BytesIO(data)) as z: require(z.testzip() is None, "%s is corrupt", what)


@pbt("D32", 1500, 20000, 40, "a directory tree is turned into an archive with filters and compressions, the archive is extended and unpacked over other trees; non-trivial: the archive has at least two files")
def archives(g):
    with Scratch() as d:
        tree = gen_tree(g); src = os.path.join(d, "src"); write(src, tree); g.log("tree %s", list(tree))
        incl, excl = g.pick(PATTERNS), g.pick(PATTERNS); comp = g.pick(["none", "deflated", "bzip2", "lzma", None]); kw = dict(include=incl, exclude=excl)
        if comp: kw["compression"] = comp
        if g.flip(): kw["compresslevel"] = g.range(1, 9)
        path = pathlib.Path(src) if g.flip() else src; g.log("load_path %s", kw)
        data = P.load_path(path, **kw); want = matching(tree, incl, excl)
        checkarchive(g, data, want, "archive of a directory"); sametree(readtree(src), tree, "the directory after loading it")
        # extend it
        for _ in range(g.below(3)):
            n = "new" + g.ident(4)
            if n in want: continue
            b = content(g); c = g.text(9) if g.flip() else b; before = data
            data = P.archive_add(data, n, c); want[n] = c.encode() if isinstance(c, str) else c; g.label("added to the archive")
            checkarchive(g, data, want, "archive with %s added" % n); require(len(P.archive_names(before)) == len(want) - 1, "the original archive has changed")
        if len(want) >= 2: g.nontrivial()
        missing = "not-there"
        refused(lambda: P.archive_extract(data, missing), "extracting a file that is not in the archive", KeyError)
        # unpack
        dst = os.path.join(d, "dst/deep" if g.flip() else "dst"); old = gen_tree(g) if g.flip() else {}
        clash = [n for n in old if any(m.startswith(n + "/") or n.startswith(m + "/") for m in want)]
        for n in clash: del old[n]
        if old: write(dst, old)
        incl, excl, over = g.pick(PATTERNS), g.pick(PATTERNS), g.flip(); new = matching(want, incl, excl)
        g.log("save_path over %s include=%s exclude=%s overwrite=%s", list(old), incl, excl, over)
        P.save_path(data, dst, overwrite=over, include=incl, exclude=excl)
        res = dict(old); res.update({n: b for n, b in new.items() if over or n not in old})
        sametree(readtree(dst) if os.path.isdir(dst) else {}, res, "unpacked over %s with overwrite=%s" % (list(old), over))
        P.save_path(data, dst, overwrite=over, include=incl, exclude=excl); sametree(readtree(dst) if os.path.isdir(dst) else {}, res, "unpacked again")
        # ordinary files
        f = os.path.join(d, g.pick(["f", "q/f"])); b = content(g)
        if isarchive(b): return
        P.save_path(b, f); require(P.load_path(f) == b, "file is loaded as %r instead of %r", P.load_path(f)[:99], b[:99])
        c = content(g); over = g.flip()
        if isarchive(c): return
        P.save_path(c, pathlib.Path(f), overwrite=over); require(P.load_path(f) == (c if over else b), "saved with overwrite=%s", over)
        s = io.BytesIO(); P.save_path(c, s); require(s.getvalue() == c, "saved to a stream"); s.seek(0); require(P.load_path(s) == c, "loaded from a stream")
        refused(lambda: P.save_path(data, f), "unpacking an archive to a file", ValueError); require(P.load_path(f) == (c if over else b), "file changed by a refused operation")
        refused(lambda: P.save_path(b, src), "writing a file to a directory", ValueError); sametree(readtree(src), tree, "the directory")
        refused(lambda: P.archive_names(b), "ordinary data as an archive", TypeError)
        refused(lambda: P.load_path(os.path.join(d, "missing")), "loading a path that does not exist", OSError, dlite.DLiteError)


# -- the file protocol

@pbt("D32", 1000, 15000, 40, "sequences of saving, loading, deleting and listing through the file protocol in different modes against a model of the directory; non-trivial: at least two successful saves")
def filehistory(g):
    with Scratch() as d:
        root = os.path.join(d, "root"); model = {}; saves = 0
        if g.flip(): model = {n: b for n, b in gen_tree(g).items() if "/" not in n}; write(root, model)
        else: os.mkdir(root)
        for _ in range(g.range(1, 4)):
            mode = g.pick(["r", "w", "a", "rw", "ra", "rw", None]); loc = root
            if g.below(3) == 0: loc = g.pick(["file://", "file:"]) + root; g.label("url")
            elif g.flip(): loc = pathlib.Path(root)
            opt = None if mode is None else g.pick(["mode=" + mode, {"mode": mode}, "compression=none;mode=" + mode, {"mode": mode, "compression": "deflated", "compresslevel": 3}])
            g.log("open %s options %s", loc, opt); pr = P.Protocol("file", loc, options=opt); m = mode or "r"; require(not pr.closed, "closed")
            for _ in range(g.range(1, 6)):
                k = g.below(5); n = g.pick(NAMES[:6]); b = content(g); g.log("operation %d on %s", k, n)
                if k <= 1:
                    if isarchive(b): continue
                    if "w" in m or "a" in m:
                        pr.save(b, uuid=n); saves += 1
                        if n not in model or "w" in m: model[n] = b
                    else: refused(lambda: pr.save(b, uuid=n), "saving in mode " + m, dlite.DLiteIOError)
                elif k == 2:
                    if "r" not in m: refused(lambda: pr.load(uuid=n), "loading in mode " + m, dlite.DLiteIOError)
                    elif n in model: got = pr.load(uuid=n); require(got == model[n], "%s is %r instead of %r", n, got[:99], model[n][:99])
                    else: refused(lambda: pr.load(uuid=n), "loading %s, which is not there," % n, OSError, dlite.DLiteError)
                elif k == 3:
                    if "w" not in m: refused(lambda: pr.delete(n), "deleting in mode " + m, dlite.DLiteIOError)
                    elif n in model: pr.delete(n); del model[n]; g.label("deleted")
                    else: refused(lambda: pr.delete(n), "deleting %s, which is not there," % n, OSError, dlite.DLiteError)
                else:
                    if "r" not in m: refused(lambda: pr.load(), "loading in mode " + m, dlite.DLiteIOError); refused(lambda: pr.query(), "listing in mode " + m, dlite.DLiteIOError)
                    else: require(sorted(pr.query()) == sorted(model), "listed are %s instead of %s", sorted(pr.query()), sorted(model)); checkarchive(g, pr.load(), model, "the directory")
                sametree(readtree(root), model, "after the operation")
            pr.close(); require(pr.closed, "not closed")
            refused(lambda: pr.load(), "loading through a closed protocol", dlite.DLiteIOError); refused(lambda: pr.save(b"x", uuid="x"), "saving through a closed protocol", dlite.DLiteIOError); refused(lambda: pr.close(), "closing twice", dlite.DLiteIOError)
            sametree(readtree(root), model, "after closing")
        # a single file
        f = os.path.join(d, "q/f.dat"); b = content(g)
        if isarchive(b): return
        with P.Protocol("file", f, options=g.pick([None, "mode=w", "mode=a"])) as pr: pr.save(b)
        with P.Protocol("file", f, options=g.pick([None, "mode=r"])) as pr: require(pr.load() == b and pr.query() == "f.dat", "file is %r instead of %r, listed as %s", pr.load()[:99], b[:99], pr.query())
        with P.Protocol("file", f) as pr: refused(lambda: pr.save(b"!"), "saving to an existing file without mode", dlite.DLiteIOError)
        with P.Protocol("file", f, options={"mode": "rw"}) as pr: c = b + b"2"; pr.save(c); require(pr.load() == c, "file is %r instead of %r", pr.load()[:99], c[:99])
        refused(lambda: P.Protocol("no-such-protocol", f), "unknown protocol", dlite.DLiteProtocolError)
        if saves >= 2: g.nontrivial()


# -- instances through protocols

TYPES = [t for t in ALLTYPES if t not in ("ref", "uint64")]
ONE = {"json": "json", "yaml": "yaml", "bson": "bson", "hdf5": "h5"}


def same(inst, x, when):
    checkall(inst, x, when)


@pbt("D32", 700, 9000, 20, "instances are saved through the file protocol with different drivers and call signatures, released and loaded by protocol or URL, also from storages with many instances and from zip archives; non-trivial: an instance with at least one array was transferred")
def instances(g):
    with Scratch() as d:
        driver = g.pick(["json", "json", "yaml", "bson", "hdf5"]); types = [t for t in TYPES if t not in ("relation", "blobN", "uint", "size")] if driver == "hdf5" else TYPES
        m = gen_meta(g, types, maxnd=2); meta = m.create(); g.log("%s through %s", m, driver); inst, x = make(g, m, None)
        arrays = any(p.shape and count(x.shape[p.name]) for p in m.props); uuid = x.uuid
        f = os.path.join(d, g.pick(["x." + ONE[driver], "q/x." + ONE[driver]]) if driver != "hdf5" else "x.h5"); many = driver != "hdf5" and g.below(3) == 0; others = []
        how = -1
        if many:
            with dlite.Storage(driver, f if "/q/" not in f else f.replace("/q/", "/"), "mode=w") as s:
                f = f.replace("/q/", "/")
                for _ in range(g.range(1, 3)): i2, y = make(g, m, None); settle(y); others.append((i2, y)); s.save(i2)
                s.save(inst)
                for _ in range(g.range(0, 2)): i2, y = make(g, m, None); settle(y); others.append((i2, y)); s.save(i2)
            g.label("many in one storage")
        else:
            how = g.below(6); mode = g.pick(["mode=w", "mode=w"]); opt = mode + (";single=true;with_uuid=true" if driver in ("json", "yaml") else "")
            if driver in ("json", "yaml") and g.below(4) == 0: opt = mode + ";single=false"
            o = opt if g.flip() else {k: v for k, v in (t.split("=") for t in opt.split(";"))}; g.log("save in way %d with %s", how, o)
            if how == 0: inst.save("file", driver, f, o if isinstance(o, str) else opt)
            elif how == 1: inst.save("file", driver, location=f, options=o)
            elif how == 2: inst.save("file", driver, f, options=o)
            elif how == 3: inst.save("file+%s://%s?%s" % (driver, f, opt))
            elif how == 4: inst.save("file://%s?driver=%s;%s" % (f, driver, opt))
            elif how == 5: inst.save("file", driver, pathlib.Path(f), opt)
            require(os.path.isfile(f) and os.path.getsize(f) > 0, "nothing is saved to %s", f)
        same(inst, x, "after saving"); del inst; settle(x)
        if driver == "hdf5" and not x.uri: x.uri = m.uri + "/" + uuid   # not stored
        others = [y for i2, y in others]; i2 = None; gc.collect()
        require(not present(uuid), "instance is not released after saving")
        loc = f; proto = "file"
        if g.below(3) == 0:
            proto = "zip"; inner = g.pick(["x.dat", "a/b/x.json", "x#y"]); z = os.path.join(d, "z.zip"); g.label("zip")
            with zipfile.ZipFile(z, "w", g.pick([0, 8, 12, 14])) as zf:
                zf.write(f, inner)
                for n in ("y.dat", "a/x.json"): zf.writestr(n, b"{}")
            loc = z + "#" + inner
            with open(f, "rb") as fd:
                with P.Protocol("zip", loc) as pr: require(pr.load() == fd.read(), "content of the archive")
        # load
        everything = [x] + others
        for y in g.shuffle(everything)[:g.range(1, len(everything))]:
            way = g.below(5); id = g.pick([y.uuid, y.uri or y.uuid]) if many or g.flip() else None; n = 3 if proto == "zip" else 6; way = g.below(n)
            ropt = g.pick([None, "mode=r", {"mode": "r"}, ""]); sopt = "mode=r"; frag = "#" + id if id else ""; mid = m.uri if g.below(3) == 0 else None
            g.log("load %s by %s in way %d with %s", y.uuid, id, way, ropt)
            if way == 0: r = dlite.Instance.load(proto, driver, loc, ropt, id)
            elif way == 1: r = dlite.Instance.load(protocol=proto, driver=driver, location=loc, options=ropt, id=id)
            elif way == 2: r = dlite.Instance.load(proto, driver, pathlib.Path(loc) if proto == "file" else loc, options=ropt, id=id, metaid=mid)
            elif way == 3: r = dlite.Instance.from_url("file+%s://%s?%s%s" % (driver, loc, sopt, frag), metaid=mid)
            elif way == 4: r = dlite.Instance.from_url("file://%s?driver=%s;%s%s" % (loc, driver, sopt, frag), metaid=mid)
            elif way == 5 and g.flip():
                with dlite.Storage(driver, loc, "mode=r") as st: r = dlite.Instance.from_storage(st, id=id, metaid=mid)
            elif way == 5: r = dlite.Instance.from_location(driver, loc, options=ropt or None, id=id, metaid=mid)
            require(r is not None, "nothing is loaded")
            if id is None and len(everything) > 1: require(r.uuid in [e.uuid for e in everything], "loaded %s", r.uuid)
            else: same(r, y, "loaded by %s in way %d through %s" % (id, way, proto))
            del r; gc.collect(); require(not present(y.uuid), "loaded instance is not released")
        left = [n for r, _, fs in os.walk(d) for n in fs]
        require(set(left) <= {os.path.basename(f), "z.zip"}, "files left behind: %s", left)
        if arrays: g.nontrivial()
        m2 = release(meta); del meta


if __name__ == "__main__": sys.exit(pypbt.main())
