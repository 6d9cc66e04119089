# D31: collections, storages and iterators in Python
import gc, itertools, json, os, sys, uuid as uuidlib
import numpy as np
import dlite
import pypbt
from pypbt import pbt, known, require, Failure, heap
from pyworld import *

dlite.errclr()
COLL = "http://onto-ns.com/meta/0.1/Collection"


def present(id): return dlite.has_instance(id, False)
def uuidof(id): return dlite.get_uuid(id)
def scratch(name): return os.path.join(os.environ.get("VERIF_SCRATCH", "/tmp"), "d31-%d-%s" % (os.getpid(), name))


def refused(f, what, *errors):
    try: r = f()
    except errors or dlite.DLiteError: dlite.errclr(); return
    raise Failure("%s is accepted and gives %r" % (what, r))


def release(meta, when=""):
    uuid = meta.uuid; gc.collect(); n = meta._refcount; require(n <= 2, "%s: metadata has %d references", when, n)
    if n == 2: meta._decref()
    del meta; gc.collect(); return uuid


class Node:
    """Model of an instance: value of property x, or the content of a collection"""
    def __init__(self, uuid, kind, uri): self.uuid, self.kind, self.uri, self.items, self.rels, self.x, self.proxy = uuid, kind, uri, {}, {}, 0, None


WORDS = ["a", "b", "cat", "dog é", "x:y", "http://ex.com/a#b", "_c", '"q"', "l0", "l1"]
TAGS = [None, None, None, "@en", "xsd:int", "xsd:string"]


class Pool:
    """Live model of all instances, including those that are only kept alive by collections"""
    def __init__(self, g):
        self.g = g; self.metas = [dlite.Metadata("zz://pb.t/0.1/Coll%s%s" % (n, uniq()), [], [dlite.Property("x", "int")], "") for n in "AB"]; self.nodes = {}; self.colls = []
        self.metauris = [m.uri for m in self.metas]
    def newid(self): return self.g.pick([None, None, "zz:id" + uniq(), str(uuidlib.uuid5(uuidlib.NAMESPACE_DNS, uniq()))])
    def inst(self):
        k = self.g.below(2); id = self.newid(); i = dlite.Instance.from_metaid(self.metas[k].uri, [], id); n = Node(i.uuid, k, i.uri); n.x = self.g.range(0, 99); i.x = n.x; n.proxy = i; self.nodes[n.uuid] = n; return n
    def coll(self):
        id = self.newid(); c = dlite.Collection(id) if id else dlite.Collection(); n = Node(c.uuid, "c", c.uri); n.proxy = c; self.nodes[n.uuid] = n; return n
    def meta_of(self, n): return COLL if n.kind == "c" else self.metauris[n.kind]
    def reach(self, n, seen=None):
        seen = set() if seen is None else seen
        if n.uuid in seen: return seen
        seen.add(n.uuid)
        for m in n.items.values(): self.reach(m, seen)
        return seen
    def alive(self):
        r = set()
        for n in self.nodes.values():
            if n.proxy is not None: self.reach(n, r)
        return r
    def relations(self, n):
        s = {(l, "_is-a", "Instance", None) for l in n.items} | {(l, "_has-uuid", m.uuid, "xsd:anyURI") for l, m in n.items.items()} | {(l, "_has-meta", self.meta_of(m), None) for l, m in n.items.items()}
        return s | set(n.rels)
    def check_type(self, i, m, when):
        require(isinstance(i, dlite.Instance) and i.uuid == m.uuid, "%s: %r instead of %s", when, i, m.uuid); require(type(i) is (dlite.Collection if m.kind == "c" else dlite.Instance), "%s: %s has type %s", when, m.uuid, type(i)); require(i.meta.uri == self.meta_of(m), "%s: meta is %s", when, i.meta.uri)
        if m.kind != "c": require(i.x == m.x, "%s: x is %s instead of %s", when, i.x, m.x)
    def check(self, when):
        gc.collect(); alive = self.alive()
        for u in self.nodes: require(present(u) == (u in alive), "%s: %s %s", when, u, "is released" if u in alive else "is not released")
        for u in list(self.nodes):
            if u not in alive: del self.nodes[u]
        for n in self.nodes.values():
            if n.proxy is None: continue
            want = (n.proxy is not None) + sum(list(m.items.values()).count(n) for m in self.nodes.values() if m.kind == "c"); got = n.proxy._refcount; require(got == want, "%s: %s has %d references instead of %d", when, n.uuid, got, want); self.check_type(n.proxy, n, when)
            if n.kind == "c": self.check_coll(n, when)
    def check_coll(self, n, when):
        c = n.proxy; require(len(c) == len(n.items), "%s: len is %d instead of %d", when, len(c), len(n.items))
        got = list(c.get_labels()); require(sorted(got) == sorted(n.items), "%s: labels are %s instead of %s", when, got, sorted(n.items))
        got = [i.uuid for i in c]; require(sorted(got) == sorted(m.uuid for m in n.items.values()), "%s: instances are %s", when, got)
        want = self.relations(n); got = list(c.get_relations(rettype="T")); require(len(got) == len(want) and set(got) == want, "%s: relations are %s instead of %s", when, got, want); require(c.nrelations == len(want), "%s: nrelations is %s instead of %d", when, c.nrelations, len(want))


def pat(g, rels):
    t = list(g.pick(sorted(rels, key=repr))) if rels and g.below(5) else [g.pick(WORDS) for _ in range(3)] + [g.pick(TAGS)]
    return [v if g.flip() else None for v in t]


def match(t, p): return all(q is None or q == v for v, q in zip(t, p))


@pbt("D31", 12000, 300000, 50, "an instance is kept only by a collection, or an iterator outlives its collection")
def collections(g):
    P = Pool(g); nodes = []; iters = []
    for _ in range(g.range(1, 3)): n = P.coll(); g.log("collection %s %s", n.uuid, n.uri)
    for _ in range(g.range(0, 3)): n = P.inst()
    P.check("at start")
    for _ in range(g.range(1, 5 + g.size(25))):
        cs = [n for n in P.nodes.values() if n.kind == "c" and n.proxy is not None]; live = [n for n in P.nodes.values() if n.proxy is not None]; op = g.below(14); n = g.pick(cs) if cs else None; labels = list(n.items) if n else []
        lab = g.pick(labels) if labels and g.below(3) else "l%d" % g.below(4)
        if op == 0 or n is None: m = P.coll() if g.flip() or n is None else P.inst(); g.log("new %s %s", m.kind, m.uuid)
        elif op <= 2:
            m = g.pick(live); force = g.below(3) == 0; g.log("add %s to %s as %s force=%s", m.uuid, n.uuid, lab, force)
            if n.uuid in P.reach(m): continue   # no cycles
            f = (lambda: n.proxy.add(lab, m.proxy, force=True)) if force else (lambda: n.proxy.__setitem__(lab, m.proxy)) if g.flip() else (lambda: n.proxy.add(lab, m.proxy))
            if lab in n.items and not force: refused(f, "label that is already used")
            else: f(); n.items[lab] = m
        elif op == 3:
            g.log("remove %s from %s", lab, n.uuid); f = (lambda: n.proxy.remove(lab)) if g.flip() else (lambda: n.proxy.__delitem__(lab))
            if lab in n.items: f(); del n.items[lab]
            else: refused(f, "removal of unknown label")
        elif op == 4:
            g.log("get %s from %s", lab, n.uuid); f = g.pick([lambda: n.proxy[lab], lambda: n.proxy.get(lab)])
            require(n.proxy.has(lab) == (lab in n.items) and (lab in n.proxy) == (lab in n.items), "has(%s)", lab)
            if lab in n.items:
                i = f(); m = n.items[lab]; P.check_type(i, m, "get(%s)" % lab)
                if m.proxy is None and not g.below(3): m.proxy = i; g.nontrivial()
                i = None
            else: refused(f, "unknown label")
        elif op == 5:
            m = g.pick(list(P.nodes.values())); id = m.uri if m.uri and g.flip() else m.uuid; inside = m in n.items.values(); g.log("get_id %s from %s", id, n.uuid); require(n.proxy.has_id(id) == inside, "has_id(%s)", id); i = n.proxy.get_id(id)
            if inside: P.check_type(i, m, "get_id"); i = None
            else: require(i is None, "get_id(%s) gives %r", id, i)
        elif op == 6:
            m = g.pick(live); g.log("drop %s", m.uuid); m.proxy = None
        elif op <= 8:
            r = (g.pick(WORDS), g.pick(WORDS), g.pick(WORDS), g.pick(TAGS)); g.log("add relation %s to %s", r, n.uuid); n.proxy.add_relation(*(r if r[3] else r[:3])); n.rels[r] = 1
        elif op == 9:
            p = pat(g, set(n.rels)); hit = [r for r in P.relations(n) if match(r, p)]; g.log("remove relations %s from %s", p, n.uuid)
            if any(r not in n.rels for r in hit): continue   # would break the collection
            n.proxy.remove_relations(*p) if g.flip() else n.proxy.remove_relations(**{k: v for k, v in zip("spod", p) if v is not None})
            for r in hit: del n.rels[r]
        elif op == 10:
            p = pat(g, P.relations(n)); hit = [r for r in P.relations(n) if match(r, p)]; k = g.pick("RTtspod"); kw = {a: v for a, v in zip("spod", p) if v is not None}; g.log("find %s in %s: %s", p, n.uuid, k)
            proj = lambda r: r[:3] if k == "t" else r if k in "RT" else r["spod".index(k)]
            if k in "spo" and g.flip() and kw.get(k) is None: got = list({"s": n.proxy.get_subjects, "p": n.proxy.get_predicates, "o": n.proxy.get_objects}[k](**{a: v for a, v in kw.items()}))
            else: got = list(n.proxy.get_relations(rettype=k, **kw))
            if k == "R": got = [(r.s, r.p, r.o, r.d) for r in got]
            require(sorted(got, key=repr) == sorted(map(proj, hit), key=repr), "get_relations(%s, %s) gives %s instead of %s", kw, k, got, hit)
            r = n.proxy.get_first_relation(**kw); require((r is None) == (not hit) and (r is None or (r.s, r.p, r.o, r.d) in hit), "get_first_relation(%s) gives %r", kw, r); r = None
        elif op == 11:
            p = pat(g, P.relations(n)); kw = {a: v for a, v in zip("spod", p) if v is not None}; free = [k for k in "spo" if k not in kw]; hit = [r for r in P.relations(n) if match(r, p)]; any_ = g.flip(); dflt = g.pick([None, "zz"]); g.log("value %s any=%s default=%s", kw, any_, dflt)
            f = lambda: n.proxy.value(any=any_, default=dflt, **kw)
            if len(free) != 1: refused(f, "value(%s)" % kw)
            elif not hit and dflt is None: refused(f, "value(%s) with no match" % kw)
            elif not hit: require(f() == dflt, "value(%s) ignores the default", kw)
            elif len(hit) == 1 or any_: v = f(); require(v in [r["spo".index(free[0])] for r in hit], "value(%s) gives %r", kw, v)
        elif op == 12:
            k = g.below(5)
            if k == 0 and iters: iters.pop(g.below(len(iters)))
            elif k <= 2 and iters:   # continue an iterator; its collection may be gone
                it, want, how = g.pick(iters); g.log("continue iterator")
                for i in itertools.islice(it, g.range(1, 3)): u = i.uuid if how == "I" else i; require(u in want, "iterator gives %r", u); want.remove(u)
                i = None
            else:
                how = g.pick("IIT"); meta = g.pick([None] + P.metauris) if how == "I" else None
                if how == "T": want = list(P.relations(n)); it = n.proxy.get_relations(rettype="T")
                else: want = [m.uuid for m in n.items.values() if meta in (None, P.meta_of(m))]; it = n.proxy.get_instances(meta if g.flip() or meta is None else P.metas[P.metauris.index(meta)]) if meta or g.flip() else iter(n.proxy)
                got = [i.uuid if how == "I" else i for i in itertools.islice(it, g.range(0, 3))]
                for u in got: require(u in want, "iterator gives %r", u); want.remove(u)
                if g.flip():   # the collection goes while the iterator lives
                    g.log("drop %s while iterating", n.uuid); n.proxy = None; g.nontrivial(); got = [i.uuid if how == "I" else i for i in it]; require(sorted(got, key=repr) == sorted(want, key=repr), "iterator gives %s instead of %s after the collection is dropped", got, want)
                it = i = None
        elif op == 13:
            how = g.below(4); c = n.proxy; g.log("convert %s %d", n.uuid, how)
            if how == 0: d = c.asdict(single=True); require(d["meta"] == COLL and {tuple(r) + (None,) * (4 - len(r)) for r in d["properties"]["relations"]} == P.relations(n), "asdict() gives %s", d)
            elif how == 1: d = json.loads(c.asjson(single=True)); require({tuple(r[k] for k in "spo") + (r.get("d"),) if isinstance(r, dict) else tuple(r[:3]) + (r[3] if len(r) > 3 else None,) for r in d["properties"]["relations"]} == P.relations(n), "asjson() gives %s", d)
            elif how == 2: require(repr(c).startswith("<Collection: ur" if c.uri else "<Collection: uuid"), "repr is %r", c); require({tuple(r) + (None,) * (4 - len(r)) for r in c.properties["relations"]} == P.relations(n), "properties are %s", c.properties)
            else:
                i = dlite.get_instance(n.uuid); require(type(i) is dlite.Collection and i == c, "get_instance gives %r", i); i = None
            c = d = None
        n = m = f = it = i = None; del cs[:], live[:]; P.check("after the operation"); any(n.proxy is None for n in P.nodes.values()) and g.nontrivial()
    n = m = f = it = i = c = None; del iters[:]
    order = [n for n in P.nodes.values()]; g.shuffle(order)
    for n in order: n.proxy = None; P.check("in the end") if g.below(3) == 0 else None
    order = n = None; P.check("in the end"); require(not P.nodes, "instances are left")
    while P.metas: release(P.metas.pop())


# ------------------------------------------------ storages
@pbt("D31", 6000, 120000, 50, "an iterator or instance outlives the storage it comes from")
def storages(g):
    metas = [dlite.Metadata("zz://pb.t/0.1/Sto%s%s" % (n, uniq()), [], [dlite.Property("x", "int"), dlite.Property("s", "string")], "") for n in "AB"]; uris = [m.uri for m in metas]
    loc = scratch("data.json"); os.path.exists(loc) and os.unlink(loc); disk = {}; data = {}; ids = {}
    for i in range(4): id = g.pick(["zz:sto" + uniq(), str(uuidlib.uuid5(uuidlib.NAMESPACE_DNS, uniq()))]); ids[uuidof(id)] = (id, g.below(2))
    def make(u): id, k = ids[u]; i = dlite.Instance.from_metaid(uris[k], [], id); v = (g.range(0, 99), g.text(6).replace("\0", "")); i.x, i.s = v; return i, (v[0], v[1])
    def check(i, u, when, want):
        require(i is not None and i.uuid == u and i.meta.uri == uris[ids[u][1]] and type(i) is dlite.Instance, "%s: %r", when, i); require((i.x, i.s) == want, "%s: values are %s instead of %s", when, (i.x, i.s), want); require(i._refcount == 1, "%s: %d references", when, i._refcount)
    for step in range(g.range(1, 3 + g.size(6))):
        mode = g.pick(["w", "a", "a", "r", "r"]) if disk else g.pick("wa"); how = g.below(4); url = "json://%s?mode=%s" % (loc, mode); g.log("open %s %d", mode, how)
        opts = g.pick([lambda: "mode=" + mode, lambda: {"mode": mode}])
        if how == 0: s = dlite.Storage(url)
        elif how == 1: s = dlite.Storage("json", loc, opts())
        else: s = dlite.Storage("json", __import__("pathlib").Path(loc), opts())
        require(s.driver == "json" and s.location == loc and s.writable == (mode != "r") and s.readable == (mode != "w"), "storage is %r readable=%s writable=%s", s, s.readable, s.writable)
        cur = {} if mode == "w" else dict(disk); held = []; it = None; dirty = False
        for _ in range(g.range(0, 5)):
            op = g.below(5); u = g.pick(sorted(ids))
            if op <= 1:
                if mode == "r" or u in [h.uuid for h in held]: continue
                i, v = make(u); g.log("save %s %s", u, v); dirty = True
                if g.flip(): s.save(i)
                else: i.save(s)
                i = None; cur[u] = v; gc.collect(); require(not present(u), "instance is not released after save")
            elif op == 2:
                if dirty or mode == "w": continue   # see D10
                id = g.pick([u, ids[u][0]]); g.log("load %s", id); f = (lambda: s.load(id)) if g.flip() else (lambda: dlite.Instance.from_storage(s, id))
                if u in cur:
                    i = f(); check(i, u, "load", cur[u]) if u not in [h.uuid for h in held] else None
                    if g.flip() and u not in [h.uuid for h in held]: held.append(i)
                    i = None
                else: refused(f, "unknown id")
            elif op == 3:
                if dirty or mode == "w": continue
                k = g.pick([None, 0, 1]); p = uris[k] if k is not None else None; want = sorted(u for u in cur if k in (None, ids[u][1])); got = s.get_uuids(p) if p or g.flip() else s.get_uuids(); require(sorted(got or []) == want, "get_uuids(%s) gives %s instead of %s", p, got, want)
                if how == 1 and mode == "r": got = dlite.Instance.get_uuids("json", loc, "mode=r", p); require(sorted(got or []) == want, "Instance.get_uuids(%s) gives %s instead of %s", p, got, want)
            elif op == 4:
                if dirty or mode == "w": continue
                k = g.pick([None, 0, 1]); p = uris[k] if k is not None else None; want = sorted(u for u in cur if k in (None, ids[u][1])); it = s.instances(p) if p or g.flip() else iter(s); n = g.range(0, 4); g.log("iterate %s %d", p, n); seen = []
                for i in itertools.islice(it, n):
                    if i.uuid not in [h.uuid for h in held]: check(i, i.uuid, "iterator", cur[i.uuid])
                    seen.append(i.uuid)
                i = None; require(len(seen) == min(n, len(want)) and set(seen) <= set(want) and len(set(seen)) == len(seen), "iterator gives %s", seen)
                if g.flip(): it = None
                elif g.flip(): rest = [i.uuid for i in it]; i = None; require(sorted(seen + rest) == want, "iterator gives %s and %s instead of %s", seen, rest, want); it = None
        k = g.below(3); g.log("close %d", k)
        if k == 0:
            with s: pass
            refused(lambda: s.get_uuids(), "closed storage", dlite.DLiteError, AttributeError, TypeError, ValueError)
            if it is not None:
                g.nontrivial(); require(it.__class__.__name__ == "StorageIterator", "%r", it); g.flip() and refused(lambda: next(it), "closed storage")
            s = None
        elif it is not None:   # the iterator keeps the storage open
            s = None; gc.collect(); left = [i.uuid for i in it]; i = None; require(set(left) <= set(cur), "iterator gives %s", left); g.nontrivial(); it = None
        f = it = s = None; gc.collect()
        if dirty or mode == "a" and os.path.exists(loc): disk = cur   # otherwise nothing is written
        for h in held: g.nontrivial(); require(h._refcount == 1 and (h.x, h.s) == cur[h.uuid], "instance after the storage is closed")
        h = None; del held[:]; gc.collect()
        for u in ids: require(not present(u), "%s is not released", u)
        if os.path.exists(loc): require(sorted(uuidof(k) for k in json.load(open(loc))) == sorted(disk), "file has %s instead of %s", list(json.load(open(loc))), sorted(disk))
    if os.path.exists(loc): os.unlink(loc)
    f = check = make = None
    while metas: release(metas.pop())


# ------------------------------------------------ search paths
PATHS = ["storage_path", "template_path", "storage_plugin_path", "mapping_plugin_path", "python_storage_plugin_path", "python_mapping_plugin_path", "python_protocol_plugin_path"]


class PathLike:
    def __init__(self, s): self.s = s
    def __str__(self): return "".join(list(self.s))


@pbt("D31", 3000, 80000, 50, "an element is changed, inserted or deleted")
def paths(g):
    import pathlib
    p = getattr(dlite, g.pick(PATHS)); old = p.aslist(); model = list(old); g.log("%s %s", p.name, old)
    try:
        for _ in range(g.range(1, g.size(12))):
            op = g.below(8); n = len(model); v = "/pb/%s" % g.ident(4) if g.flip() or not model else g.pick(model); a = g.pick([lambda: v, lambda: pathlib.Path(v), lambda: PathLike(v)])() if v.startswith("/pb/") else v; i = g.range(-n - 1, n); g.log("op %d %s %d", op, v, i); what = "op %d" % op
            if op == 0 and v not in model: p.append(a); model.append(v)
            elif op == 1 and v not in model and -n <= i <= n: p.insert(i, a); model.insert(i, v); g.nontrivial()
            elif op == 2 and v not in model:
                if -n <= i < n: p[i] = a; model[i] = v; g.nontrivial()
                else: refused(lambda: p.__setitem__(i, v), "index %d" % i, dlite.DLiteError, IndexError)
            elif op == 3:
                if -n <= i < n: del p[i]; del model[i]; g.nontrivial()
                else: refused(lambda: p.__delitem__(i), "index %d" % i, dlite.DLiteError, IndexError)
            elif op == 4:
                if -n <= i < n: require(p[i] == model[i], "p[%d] is %s", i, p[i])
                else: refused(lambda: p[i], "index %d" % i, IndexError)
            elif op == 5: require((v in p) == (v in model), "%s in path", v)
            elif op == 6 and v not in model: w = "/pb/" + g.ident(5) + "z"; p.extend("|".join([v, w][:g.range(1, 2)]) if False else v); model.append(v)
            require(p.aslist() == model and len(p) == len(model) and list(p) == model, "%s: path is %s instead of %s", what, p.aslist(), model)
    finally:
        for i in reversed(range(len(p))): del p[i]
        for v in old: p.append(v)
    require(p.aslist() == old, "path is not restored")

# ------------------------------------------------ memory
@pbt("D31", 60, 400, 4, "always")
def leaks(g):
    """Repeating an operation, successful or refused, does not use more and more memory"""
    meta = dlite.Metadata("zz://pb.t/0.1/Leak" + uniq(), [dlite.Dimension("n")], [dlite.Property("x", "int"), dlite.Property("s", "string", shape=["n"]), dlite.Property("r", "relation"), dlite.Property("b", "blob3")], ""); g.nontrivial(); uri = meta.uri
    coll = dlite.Collection(); inst = meta([2]); inst.s = ["a", "bé"]; inst.r = ("s", "p", "o", "d"); coll.add("l", inst); coll.add_relation("a", "b", "c", "@en"); loc = scratch("leak.json"); out = scratch("leak2.json"); inst.save("json", loc, "mode=w"); sto = dlite.Storage("json", loc, "mode=r"); uuid = inst.uuid; js = inst.asjson(); d = inst.asdict(); bs = inst.asbson(); path = dlite.storage_path; n0 = len(path); jst = dlite.JStore(); jst.add(inst); ju = inst.to_bytes("json")
    def err(f):
        try: f()
        except Exception: return
        raise Failure("operation is accepted")
    def addrm(): coll.add("m", inst); coll.remove("m")
    def rel(): coll.add_relation("q", "r", "s", "t"); coll.remove_relations("q")
    def part(): it = coll.get_relations(rettype="R"); next(it); next(it)
    def new(): c = dlite.Collection(); c.add("a", inst); c.add("b", coll); c.asjson(); c.asdict()
    def spath(): path.append("/pb/x"); path[n0]; path.insert(0, "/pb/y"); del path[0]; del path[n0]; path.aslist()
    def partial(): it = sto.instances(); next(it)
    def ustore(): j = dlite.JStore(); j += jst; j.get_ids(); list(j.get_ids()); j.get_dict(); j.get_json(uuid); len(j); j.remove(uuid)
    ops = dict(get=lambda: coll["l"], get_id=lambda: coll.get_id(uuid), iter=lambda: [i.uuid for i in coll], instances=lambda: list(coll.get_instances(meta)), rels=lambda: list(coll.get_relations(rettype="R")), tuples=lambda: list(coll.get_relations(s="a", p="b", d="@en", rettype="T")), subjects=lambda: list(coll.get_subjects(p="b")), value=lambda: coll.value(s="a", p="b"), novalue=lambda: err(lambda: coll.value(s="zz", p="b")), default=lambda: coll.value(s="zz", p="b", default="x"), first=lambda: coll.get_first_relation(s="a"), nofirst=lambda: coll.get_first_relation(s="zz"), noget=lambda: err(lambda: coll["zz"]), norm=lambda: err(lambda: coll.remove("zz")), dup=lambda: err(lambda: coll.add("l", inst)), addrm=addrm, rel=rel, part=part, new=new,
        props=lambda: coll.properties, repr=lambda: (repr(coll), str(coll), repr(inst), repr(sto), repr(meta), str(meta)), asdict=lambda: (inst.asdict(), coll.asdict(), meta.asdict()), asjson=lambda: (inst.asjson(), coll.asjson(), meta.asjson()), asbson=lambda: inst.asbson(), tobytes=lambda: inst.to_bytes("json"), frombytes=lambda: dlite.Instance.from_bytes("json", ju), fromjson=lambda: dlite.Instance.from_json(js, id=uuid), fromdict=lambda: dlite.Instance.from_dict(d, check_storages=False), frombson=lambda: dlite.Instance.from_bson(bs), badjson=lambda: err(lambda: dlite.Instance.from_json("{")), badbson=lambda: err(lambda: dlite.Instance.from_bson(b"xxxxxx")), copy=lambda: inst.copy(), copyid=lambda: inst.copy("zz:leakcopy"), getinst=lambda: dlite.get_instance(uuid), getmeta=lambda: (inst.meta, dlite.get_instance(uri)), uuids=lambda: (sto.get_uuids(), sto.get_uuids(uri), dlite.istore_get_uuids()), siter=lambda: [i.uuid for i in sto.instances()], partial=partial, load=lambda: sto.load(uuid), noload=lambda: err(lambda: sto.load("zz:nothing")), open=lambda: dlite.Storage("json", loc, {"mode": "r"}), openurl=lambda: dlite.Storage("json://" + loc + "?mode=r"), noopen=lambda: err(lambda: dlite.Storage("json", loc + "x", "mode=r")), nodriver=lambda: err(lambda: dlite.Storage("json", loc, "mode=z")), fromloc=lambda: dlite.Instance.from_location("json", loc, "mode=r", id=uuid), fromurl=lambda: dlite.Instance.from_url("json://%s?mode=r#%s" % (loc, uuid)), save=lambda: inst.save("json", out, "mode=w"), csave=lambda: coll.save("json", out, "mode=w"), cload=lambda: (coll.save("json", out, "mode=w"), dlite.Collection.load("json", out, "mode=r", id=coll.uuid)), path=spath, badpath=lambda: err(lambda: path[999]), jstore=ustore, hash=lambda: (inst.get_hash(), coll.get_hash(), meta.get_hash()), snapshot=lambda: None, dims=lambda: (inst.dimensions, inst.get_property_dims_by_index(1) if hasattr(inst, "get_property_dims_by_index") else 0), meta=lambda: (meta.getprop("s").shape, meta.getprop("s").asdict(), meta.dimnames(), meta["properties"], meta["dimensions"]), create=lambda: meta([1], id="zz:leaknew"), badcreate=lambda: err(lambda: meta([1, 2])), split=lambda: dlite.split_url("json://a/b?c#d"), uuid=lambda: dlite.get_uuid("zz:abc"), plugins=lambda: list(dlite.StoragePluginIter()), help=lambda: dlite.Storage.plugin_help("yaml") if False else None, equal=lambda: (inst == coll, inst != coll, inst == inst.copy()))
    k = g.pick(sorted(ops)); g.log("%s", k); g.label(k)
    try: noleak(ops[k], k)
    finally: [os.unlink(f) for f in (loc, out) if os.path.exists(f)]
    sto = coll = inst = jst = ops = None; release(meta)


if __name__ == "__main__": sys.exit(pypbt.main())
