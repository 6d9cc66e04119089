# D11: what a file driver saves is loaded again in a fresh process
import copy, gc, os, pickle, signal, struct, sys, tempfile, traceback, uuid as uuidlib
for n in ("minio", "psycopg2", "redis", "pymongo", "requests", "matplotlib", "tripper"): sys.modules[n] = None   # not needed by the file drivers
import numpy as np
import dlite
import pypbt, pyworld, re
from pypbt import pbt, known, require, Failure, heap
from pyworld import *

try: dlite.Storage("yaml", "/nonexistent/x.yaml", "mode=r")   # loads the plugins
except dlite.DLiteError: dlite.errclr()
for d in ("json", "hdf5", "rdf"): dlite.Storage.plugin_help(d) if False else None
dlite.errclr()

SCR = os.environ.get("VERIF_SCRATCH", "/tmp")


def scratch(name): return os.path.join(SCR, "d11-%d-%s" % (os.getpid(), name))


# -- fresh processes: a server, forked before this process has created anything, forks a process for each request

server = [0, None, None]


def readall(fd, n):
    b = b""
    while len(b) < n:
        c = os.read(fd, n - len(b))
        if not c: return None
        b += c
    return b


def send(fd, obj): b = pickle.dumps(obj); os.write(fd, struct.pack("<Q", len(b)));  [os.write(fd, b[i:i + 4096]) for i in range(0, len(b), 4096)]


def receive(fd):
    h = readall(fd, 8)
    return None if h is None else pickle.loads(readall(fd, struct.unpack("<Q", h)[0]))


def serve(rfd, wfd):
    while True:
        job = receive(rfd)
        if job is None: os._exit(0)
        r, w = os.pipe(); err = tempfile.TemporaryFile(dir=SCR); pid = os.fork()
        if pid == 0:
            os.close(r); os.dup2(err.fileno(), 2); signal.alarm(120)
            try: fresh(job); m = None
            except Failure as e: m = str(e)
            except Exception as e: m = "%s: %s | %s" % (type(e).__name__, e, traceback.format_exc())
            send(w, (m,)); os._exit(0)
        os.close(w); m = receive(r); os.close(r); _, st = os.waitpid(pid, 0)
        if m is None: err.seek(0); m = ("fresh process ended with status %d: %s" % (st, err.read()[-6000:].decode("utf-8", "replace")),)
        err.close(); send(wfd, m)


def ask(job):
    send(server[1], job); m = receive(server[2])
    if m is None: raise Failure("no answer from the fresh process")
    if m[0]: raise Failure("in a fresh process: " + m[0])


def start():
    if server[0] == os.getpid(): return
    for fd in server[1:]:
        if fd is not None: os.close(fd)
    a, b = os.pipe(), os.pipe(); pid = os.fork()
    if pid == 0:
        os.close(a[1]); os.close(b[0])
        try: serve(a[0], b[1])
        finally: os._exit(1)
    os.close(a[0]); os.close(b[1]); server[:] = [os.getpid(), a[1], b[0]]


# -- drivers

JSONTYPES = ALLTYPES
PLAIN = NUM + ["float64", "int32", "string", "string", "stringN"]
DRIVERS = {
    "json": dict(types=JSONTYPES, ext="json", meta=True, coll=True, append="a", items=True),
    "yaml": dict(types=JSONTYPES, ext="yaml", meta=True, coll=True, append="a", items=True),
    "bson": dict(types=[t for t in JSONTYPES if t not in ("uint64", "uint", "size")], ext="bson", meta=True, coll=True, append="a", items=True),
    "hdf5": dict(types=PLAIN + ["blobN"], ext="h5", meta=False, coll=False, append="append", items=True),
    "pyrdf": dict(types=PLAIN, ext="ttl", meta=True, coll=False, append="a", items=True),
    "rdf": dict(types=PLAIN, ext="xml", meta=True, coll=False, append="a", items=True),
}


class Stub:
    def __init__(self, uuid): self.uuid = uuid


class Stubs:
    def __init__(self, t): self.t = [Stub(x.uuid) for x in t.t] if t else []


class CollM:
    def __init__(self, uuid, uri, items, rels): self.uuid, self.uri, self.items, self.rels = uuid, uri, items, rels


def snapshot(x, hdf5=False):
    """Model of x as it is now"""
    y = copy.copy(x)
    if isinstance(x, InstM): y.hdf5 = x.hdf5 = hdf5; y.vals = {k: list(v) for k, v in x.vals.items()}; y.targets = Stubs(x.targets); settle(y)
    else: y = copy.deepcopy(x)
    return y


def bytypes(m): return {p.kind for p in m.props}


def fresh(job):
    """Loads and checks everything; runs in a fresh process"""
    driver, loc, models, ways = job["driver"], job["loc"], job["models"], job["ways"]
    for p in job["paths"]: dlite.storage_path.append(p)
    opt = job["options"]
    if job["list"] is not None:
        with dlite.Storage(driver, loc, opt) as s: got = sorted(s.get_uuids())
        require(got == sorted(job["list"]), "uuids in the storage are %s instead of %s", got, sorted(job["list"]))
        with dlite.Storage(driver, loc, opt) as s: got = sorted(s.get_uuids(job["pattern"]))
        require(got == sorted(job["matching"]), "uuids with metadata matching %s are %s instead of %s", job["pattern"], got, sorted(job["matching"]))
    keep = []
    for uuid, id, way in ways:
        x = models[uuid]; when = "%s loaded by id %s from %s in way %d" % (uuid, id, driver, way); coll = isinstance(x, CollM)
        if way == 0:
            s = dlite.Storage(driver, loc, opt); inst = s.load(id) if not coll else dlite.Collection.load(s, id=id, lazy=job["lazy"]); s = None
        elif way == 1: inst = dlite.Instance.from_location(driver, loc, options=opt, id=id) if not coll else dlite.Collection.load(driver, loc, options=opt, id=id, lazy=job["lazy"])
        elif way == 2: url = "%s://%s?%s%s" % (driver, loc, opt, "#" + id if id else "#" if uuid[0] < "8" else ""); inst = dlite.Instance.from_url(url) if not coll else dlite.Collection.load(url, lazy=job["lazy"])
        elif way == 3:
            with dlite.Storage(driver, loc, opt) as s:
                for inst in s.instances():
                    if inst.uuid == uuid: break
                else: raise Failure("%s: not found by iterating" % when)
                inst = dlite.get_instance(uuid)
        elif way == 4: dlite.storage_path.append("%s://%s?%s" % (driver, loc, opt)); inst = dlite.get_instance(id); dlite.storage_path.remove(-1) if False else None
        require(inst is not None, "%s: nothing", when)
        keep.append(inst); check(inst, x, when)
    for uuid, id, way in ways: check(dlite.get_instance(uuid), models[uuid], "%s, after loading the others from %s " % (uuid, driver))


def reorder(meta, m):
    """RDF graphs have no order (known finding)"""
    for names, items, key in ((meta.dimnames(), m.dims, lambda d: d[0]), (meta.propnames(), m.props, lambda p: p.name)):
        if sorted(names) == sorted(map(key, items)): items.sort(key=lambda x: names.index(key(x)))


def check(inst, x, when):
    if " from pyrdf " in when and isinstance(x, (InstM, MetaM)): reorder(inst.meta if isinstance(x, InstM) else inst, x.m if isinstance(x, InstM) else x)
    if isinstance(x, InstM) and x.hdf5 and x.uri is None and inst.uri == "%s/%s" % (x.m.uri, x.uuid): x = copy.copy(x); x.uri = inst.uri   # the default uri
    if isinstance(x, InstM): checkall(inst, x, when)
    elif isinstance(x, MetaM): check_meta(inst, x, when)
    else:
        require(inst.uuid == x.uuid and (inst.uri or None) == x.uri, "%s: uuid %s uri %s instead of %s %s", when, inst.uuid, inst.uri, x.uuid, x.uri)
        require(isinstance(inst, dlite.Collection), "%s is a %s", when, type(inst))
        require(sorted(inst.get_labels()) == sorted(x.items), "%s: labels are %s instead of %s", when, sorted(inst.get_labels()), sorted(x.items))
        rels = sorted((r for r in inst.get_relations(rettype="T") if r[1] not in ("_is-a", "_has-uuid", "_has-meta")), key=str)
        require(rels == sorted(x.rels, key=str), "%s: relations are %s instead of %s", when, rels, sorted(x.rels, key=str))
        for label, uuid in x.items.items(): require(inst.get(label).uuid == uuid, "%s: item %s is %s instead of %s", when, label, inst.get(label).uuid, uuid)


def globesc(s): return "".join("\\" + c if c in "*?[\\" else c for c in s)


def run(g, driver):
    start(); dlite.errclr()
    d = DRIVERS[driver]; loc = scratch("s." + d["ext"]); metaloc = scratch("m.json")
    for f in (loc, metaloc):
        if os.path.exists(f): os.unlink(f)
    fmt = ""
    if driver == "pyrdf":
        fmt = g.pick(["", "", ";format=turtle", ";format=xml", ";format=json-ld", ";format=n3"])
    if driver == "rdf": fmt = ";store=file"
    bad = "[^\t\n\x20-\x7e\xa0-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]" if driver == "rdf" or fmt == ";format=xml" else None   # not supported by XML
    pyworld.textfilter = filt = (lambda s: re.sub(bad, "?", s)) if bad else None
    metas = [gen_meta(g, d["types"], extras=d["meta"]) for _ in range(g.range(1, 2))]
    if filt:
        for m in metas:
            m.descr = filt(m.descr); m.dims = [(n, t and filt(t)) for n, t in m.dims]
            for p in m.props: p.unit, p.descr = p.unit and filt(p.unit), p.descr and filt(p.descr)
    created = [m.create() for m in metas]
    hasref = any(p.kind == "ref" for m in metas for p in m.props)
    t = Targets() if hasref else None
    models, handles, held = {}, {}, {}
    stored = {}          # uuid -> model of what has been saved
    if t:
        tm = MetaM(); tm.uri = t.m.uri; tm.props = [PropM("x", "int64", [])]
        for i in t.t: x = InstM(tm, {}); x.uri, x.uuid = i.uri, i.uuid; models[i.uuid] = x; handles[i.uuid] = i
    metain = d["meta"] and g.below(3) > 0
    def opts(): return fmt + (g.pick(["", "", ";single=false", ";uri-key=true", ";with-uuid=true", ";with-meta=true", ";arrays=true", ";with-uuid=true;with-meta=true;uri-key=true"]) if driver == "json" else
                        g.pick(["", "", ";soft7=false", ";with_uuid=true", ";with_meta=true", ";urikey=true", ";single=false", ";soft7=false;urikey=true"]) if driver == "yaml" else
                        g.pick(["", ";soft7=false"]) if driver == "bson" else "")
    def put(inst, x, s=None):
        k = g.below(3)
        if isinstance(x, CollM): inst.save(s, include_instances=False)
        elif k == 0: s.save(inst)
        else: inst.save(s)
        stored[x.uuid if not isinstance(x, MetaM) else uuidof(x.uri)] = snapshot(x, driver == "hdf5")
    def new():
        k = g.below(6)
        if k == 0 and d["coll"] and models:
            id = g.pick([None, "zz:coll" + uniq()]); c = dlite.Collection(id); items, rels = {}, set()
            for i in range(g.range(0, 3)): u = g.pick(sorted(models)); 
            for u in [g.pick(sorted(u for u in models if not isinstance(models[u], CollM)) or [None]) for _ in range(g.range(0, 3))]:
                if u: l = "l%d" % len(items); c.add(l, handles[u]); items[l] = u
            for _ in range(g.range(0, 3)):
                r = (g.pick(["a", "b c", "http://ex.com/x"]), g.pick(["p", "q:r"]), g.pick(["o", "é", '"x"\n', "http://ex.com/y"]), g.pick([None, "xsd:int", "@en"])); c.add_relation(*r); rels.add(r)
            x = CollM(c.uuid, c.uri or None, items, sorted(rels, key=str)); models[x.uuid] = x; handles[x.uuid] = c; g.label("collection"); return x.uuid
        inst, x = make(g, metas[g.below(len(metas))], t); models[x.uuid] = x; handles[x.uuid] = inst
        return x.uuid
    sessions = g.range(1, 3); first = True; delete = driver == "yaml"
    for ses in range(sessions):
        mode = "w" if first else d["append"]
        if mode != "w" and g.below(8) == 0 and driver != "rdf": mode = "w"   # mode=w does not empty RDF stores
        if first and g.below(6) == 0: mode = d["append"] + "!"   # appending to a file that does not exist
        append = mode.rstrip("!"); o = "mode=" + append + opts()
        if mode == "w": stored.clear()
        g.log("session %s" % o); first = False
        single = g.below(5) == 0
        with dlite.Storage(driver, loc, o) as s:
            if ses == 0 or mode == "w":
                if metain and not (driver == "pyrdf"):
                    for m, c in zip(metas, created): put(c, m, s)
                    if t: put(t.m, tm, s)
                if t:
                    for i in t.t: put(i, models[i.uuid], s)
            for _ in range(g.range(0 if stored else 1, 3)):
                k = g.below(5)
                if k < 3 or not models: u = new(); put(handles[u], models[u], s); g.log("save %s" % u)
                elif k == 3:   # changed
                    u = g.pick(sorted(models)); x = models[u]
                    if isinstance(x, CollM): continue
                    for p in x.m.props:
                        if g.flip(): x.vals[p.name] = [fixvalue(p, v) for v in x.gen(g, p)] if p.kind != "ref" or t else x.vals[p.name]; handles[u][p.name] = pyvalue(p, x)
                    put(handles[u], x, s); g.log("save %s changed" % u); g.nt = True
                elif delete and stored:
                    u = g.pick(sorted(stored))
                    if t and any(i.uuid == u for i in t.t) or isinstance(stored[u], MetaM): continue
                    if any(isinstance(x, CollM) and u in x.items.values() for x in stored.values()): continue
                    s.delete(u); del stored[u]; g.log("delete %s" % u)
            if not stored: u = new(); put(handles[u], models[u], s); g.log("save %s" % u)   # a file opened with mode=w without saving anything keeps its content
    # items of collections have to be there
    for x in list(stored.values()):
        if isinstance(x, CollM):
            for u in x.items.values():
                if u not in stored:
                    with dlite.Storage(driver, loc, "mode=" + d["append"] + opts()) as s: put(handles[u], models[u], s)
    if not stored: raise pypbt.Discard()
    # metadata
    paths = []
    need = {x.m.uri for x in stored.values() if isinstance(x, InstM)}
    have = {x.uri for x in stored.values() if isinstance(x, MetaM)}
    if (need - have and driver != "pyrdf"):
        with dlite.Storage("json", metaloc, "mode=w") as s:
            for c in created + ([t.m] if t else []): s.save(c)
        paths.append("json://%s?mode=r" % metaloc)
    if driver == "pyrdf":
        for m, c in zip(metas, created):
            if m.uri in need: stored[c.uuid] = m
    g.log("stored %s" % {u: str(type(x).__name__) for u, x in stored.items()})
    pattern = g.pick([metas[0].uri, "*Collection", "*", "zz:*"]); import fnmatch
    metaof = lambda x: dlite.ENTITY_SCHEMA if isinstance(x, MetaM) else "http://onto-ns.com/meta/0.1/Collection" if isinstance(x, CollM) else x.m.uri
    matching = [u for u, x in stored.items() if fnmatch.fnmatchcase(metaof(x), pattern)]
    ways = []
    for u in sorted(stored):
        x = stored[u]; uri = x.uri if isinstance(x, (InstM, CollM)) else x.uri
        id = g.pick([u, uri or u]); way = g.below(5)
        if way == 3 and driver == "hdf5" or isinstance(x, CollM) and way > 2: way = 0
        if len(stored) == 1 and way in (0, 1, 2) and g.flip() and driver != "hdf5": id = None
        ways.append((u, id, way))
    g.shuffle(ways)
    if any(isinstance(x, InstM) and any(v for vs in x.vals.values() for v in vs) for x in stored.values()): g.nt = True
    g.log("ways %s" % ways)
    opt = "mode=r" + fmt
    ask(dict(driver=driver, loc=loc, options=opt, models=stored, ways=ways, paths=paths, list=list(stored), pattern=pattern, matching=matching, lazy=False if g.below(3) else True))
    for f in (loc, metaloc):
        if os.path.exists(f): os.unlink(f)
    handles.clear(); t = None; gc.collect()


RULE = "an instance with a value that is not zero is loaded in the fresh process"


@pbt("D11", 1000, 30000, 50, RULE)
def json(g): run(g, "json")


@pbt("D11", 1000, 30000, 50, RULE)
def yaml(g): run(g, "yaml")


@pbt("D11", 1000, 30000, 50, RULE)
def bson(g): run(g, "bson")


@pbt("D11", 1000, 30000, 50, RULE)
def hdf5(g): run(g, "hdf5")


@pbt("D11", 600, 15000, 50, RULE)
def pyrdf(g): run(g, "pyrdf")


@pbt("D11", 600, 15000, 50, RULE)
def rdf(g): run(g, "rdf")


@known("D11", "pyrdforder")
def pyrdforder():
    from dlite.rdf import to_rdf, from_rdf
    uri = "zz://pb.t/0.1/Order%s"; m = dlite.Metadata(uri % 1, [dlite.Dimension(n) for n in "bcad"], [dlite.Property("x", "int")], "")
    doc = to_rdf(m).replace(uri % 1, uri % 2).replace(uuidof(uri % 1), uuidof(uri % 2)); n = from_rdf(data=doc, format="turtle")
    names = [m.dimnames(), n.dimnames()]
    return names[0] != names[1] and sorted(names[0]) == sorted(names[1])


if __name__ == "__main__": sys.exit(pypbt.main())
