# D28: conversions of instances and metadata in Python
import copy, gc, json, os, pickle, sys, uuid as uuidlib
import numpy as np
import dlite
import pypbt
from pypbt import pbt, known, require, Failure, heap
from pyworld import *

dlite.errclr()


def check_dict(d, x, single, uuid, when):
    if not single:
        require(list(d) == [x.uuid], "%s: keys are %s", when, list(d)); d = d[x.uuid]
    require(("uuid" in d) == uuid, "%s: uuid %s", when, "missing" if uuid else "included")
    if uuid: require(d["uuid"] == x.uuid, "%s: uuid is %s", when, d["uuid"])
    require(d.get("uri") == x.uri, "%s: uri is %s", when, d.get("uri"))
    require(d["meta"] == x.m.uri and d["dimensions"] == x.dims, "%s: %s", when, d)
    require(list(d["properties"]) == [p.name for p in x.m.props], "%s: properties are %s", when, list(d["properties"]))
    for p in x.m.props:
        got, want = d["properties"][p.name], nest([dictvalue(p, v, x.targets) for v in x.vals[p.name]], x.shape[p.name]) if p.shape else dictvalue(p, x.vals[p.name][0], x.targets)
        require(plain(got), "%s: %s is %r", when, p.name, got)
        require(repr(got) == repr(want), "%s: %s is %r instead of %r", when, p.name, got, want)


def back(g, inst, x):
    """Converts inst and returns a function that converts back"""
    kind = g.pick(["asdict", "asdict", "asjson", "asjson", "asbson", "pickle", "jstore", "str", "bytes"]); g.label(kind)
    if kind == "asdict":
        single = g.pick([None, None, True, False]); uuid = g.pick([None, None, True, False]); s = bool(single)
        u = uuid if uuid is not None else s and not x.uri
        d = inst.asdict(single=single, uuid=uuid, soft7=g.flip()); what = "asdict(single=%s, uuid=%s)" % (single, uuid)
        check_dict(d, x, s, u, what); how = g.below(3); settle(x)
        if how == 0: d = json.loads(json.dumps(d)); what += " as JSON"
        if how == 1: d = copy.deepcopy(d)
        if g.below(4) == 0 and not s: d = {x.uri or x.uuid: d[x.uuid]}; what += " with uri as key"
        ids = [x.uuid] if not x.uri else [x.uuid, x.uri]
        id = g.pick(ids) if (s and not u and not x.uri) or g.flip() else None
        check = g.below(6) == 0
        return what + " from_dict(id=%s, check_storages=%s)" % (id, check), lambda: dlite.Instance.from_dict(d, id=id, check_storages=check)
    if kind in ("asjson", "str"):
        kw = dict(indent=g.range(0, 4), single=g.pick([None, True, False]), urikey=g.flip(), with_uuid=g.flip(), with_meta=g.flip(), no_parent=g.flip()) if kind == "asjson" else {}
        s = inst.asjson(**kw) if kw else str(inst); what = "%s(%s)" % (kind, kw); json.loads(s); settle(x)
        id = g.pick([x.uuid, x.uri or x.uuid]) if (kw.get("single") and not kw["with_uuid"] and not x.uri) or g.flip() else None
        if kw.get("single") and not x.uri and not kw["with_uuid"]: pass
        if g.below(3) == 0: return what + " JStore(%s)" % id, lambda: fromstore(s, id or x.uuid, kw.get("single") and not kw["with_uuid"] and not x.uri)
        mid = x.m.uri if g.below(4) == 0 else None; return what + " from_json(%s, metaid=%s)" % (id, mid), lambda: dlite.Instance.from_json(s, id=id, metaid=mid)
    if kind == "asbson":
        b = inst.asbson(); require(type(b) in (bytes, bytearray), "asbson() gives %s", type(b)); k = g.below(3); b = [bytes, bytearray, memoryview][k](b) if k < 2 else bytes(b)
        return "from_bson", lambda: dlite.Instance.from_bson(b)
    if kind == "pickle":
        pr = g.range(2, pickle.HIGHEST_PROTOCOL); b = pickle.dumps(inst, protocol=pr); settle(x); return "pickle protocol %d" % pr, lambda: pickle.loads(b)
    if kind == "bytes":
        b = inst.to_bytes("json", options=g.pick([None, "single=yes;with_uuid=yes", "mode=w"])); settle(x); id = x.uuid if g.flip() else None
        return "to_bytes json", lambda: dlite.Instance.from_bytes("json", b, id=id)
    js = dlite.JStore(); js.add(inst); settle(x); require(len(js) == 1 and js.get_single_id() in (x.uuid, x.uri), "store has %d instances, id %s", len(js), len(js) and js.get_single_id()); k = g.below(3)
    if k == 0: return "JStore.get", lambda: js.get(g.pick([None, x.uuid, x.uri]) if False else x.uuid)
    if k == 1: s = js.get_json(x.uuid); return "JStore.get_json", lambda: dlite.Instance.from_json(s, id=x.uuid)
    opt = dict(single=g.pick([None, True, False]), with_uuid=g.pick([None, True, False]), urikey=g.flip(), with_meta=g.flip(), soft7=g.flip()); d = js.get_dict(g.pick([None, x.uuid]) if opt["single"] is not True else x.uuid, **opt)
    def again():
        j2 = dlite.JStore(); j2.load_dict(d, id=x.uuid if "properties" in d else None); return j2.get()
    return "JStore.get_dict(%s)" % opt, again


def fromstore(s, id, needid):
    js = dlite.JStore()
    d = json.loads(s)
    if needid or "properties" in d: js.load_dict(d, id=id)
    else: js.load_json(s)
    return js.get(id)


@pbt("D28", 6000, 150000, 50, "at least one property has a value that is not zero and is not an integer")
def data(g):
    t = Targets(); m = gen_meta(g, maxprops=4); meta = m.create(); g.log("%s", m)
    inst, x = make(g, m, t); g.log("%s uri=%s dims=%s %s", x.uuid, x.uri, x.dims, x.vals)
    if any(p.kind not in ("int", "uint") and any(v != default(p) for v in x.vals[p.name]) for p in m.props): g.nontrivial()
    what, f = back(g, inst, x); g.log("%s", what)
    keep = g.below(4) == 0
    if not keep:
        del inst; gc.collect(); require(not present(x.uuid), "instance is not released after %s", what)
        t.check({}, "after the instance is released")
    new = f(); refs = x.refs()
    if keep:
        require(new.uuid == inst.uuid, "%s gives another instance", what); what.startswith("pickle") and check_inst(inst, x, "original after " + what)
    else: checkall(new, x, what); t.check(refs, what); require(new._refcount == 1, "%s: refcount is %d", what, new._refcount)
    f = None; inst = None; del new; gc.collect(); require(not present(x.uuid), "instance is not released in the end (%s)", what); t.check({}, "in the end")
    meta._decref()


# ------------------------------------------------ metadata
def mdict(g, m, dims=None, rnd=False):
    """Dict representation by hand"""
    soft7 = g.flip(); d = {"uri": m.uri}
    if g.flip() or not soft7: d["meta"] = dlite.ENTITY_SCHEMA
    if m.descr or g.flip(): d["description"] = m.descr
    def prop(p):
        q = {"type": p.type}
        if p.shape: q["shape" if soft7 or g.flip() else "dims"] = list(p.shape)
        if p.ref: q["$ref"] = p.ref
        if p.unit: q["unit"] = p.unit
        if p.descr: q["description"] = p.descr
        return q
    if soft7: d["dimensions"] = {n: t for n, t in m.dims}; d["properties"] = {p.name: prop(p) for p in m.props}
    else: d["dimensions"] = [{"name": n, "description": t} for n, t in m.dims]; d["properties"] = [dict(name=p.name, **prop(p)) for p in m.props]
    return d


def builder(g, m):
    """Definition through dlite.DataModel"""
    from dlite.datamodel import DataModel, MissingDimensionError, UnusedDimensionError
    dm = DataModel(m.uri, description=m.descr) if m.descr or g.flip() else DataModel(m.uri)
    dims, props = list(m.dims), list(m.props); used = set()
    while dims or props:
        if dims and (not props or g.flip()): n, t = dims.pop(0); dm.add_dimension(n, t)
        else:
            p = props.pop(0); kw = dict(shape=p.shape or None, unit=p.unit, description=p.descr)
            if p.ref: kw["ref"] = p.ref
            dm.add_property(p.name, p.type, **kw)
    for p in m.props:
        for e in p.shape: used |= names(e)
    declared = {n for n, _ in m.dims}
    for what, lst, add in (("dimension", m.dims, lambda: dm.add_dimension(m.dims[0][0], "")), ("property", m.props, lambda: dm.add_property(m.props[0].name, "int"))):
        if lst:
            try: add()
            except KeyError: pass
            else: raise Failure("the same %s is added twice" % what)
    require(dm.get_missing_dimensions() == used - declared, "missing dimensions: %s", dm.get_missing_dimensions())
    require(dm.get_unused_dimensions() == declared - used, "unused dimensions: %s", dm.get_unused_dimensions())
    ok = used == declared
    try: meta = dm.get()
    except (MissingDimensionError, UnusedDimensionError) as e: require(not ok, "valid datamodel is refused: %s", e); return None
    require(ok, "datamodel with dimensions %s that uses %s is accepted", declared, used); return meta


@pbt("D28", 4000, 100000, 50, "there are units, descriptions or references")
def metadata(g):
    t = Targets(); m = gen_meta(g, maxprops=5, extras=True)
    for p in m.props:
        if p.kind == "ref" and g.flip(): p.ref = t.m.uri
    if g.below(8) == 0: m.descr = ""
    if any(p.ref or p.unit or p.descr for p in m.props): g.nontrivial()
    g.log("%s", m)
    for p in m.props: g.log("%s unit=%r descr=%r ref=%r", p.name, p.unit, p.descr, p.ref)
    kind = g.pick(["asdict", "asdict", "asjson", "asjson", "asbson", "pickle", "jstore", "builder", "dict", "dict", "to_metadata", "bytes"]); g.label(kind); hash = None; what = kind
    if kind == "builder":
        if g.below(3): m.dims = [d for d in m.dims if any(d[0] in names(e) for p in m.props for e in p.shape)]
        elif m.dims and g.flip(): m.dims.pop()
        make2 = lambda: builder(g, m)
    elif kind in ("dict", "to_metadata"):
        d = mdict(g, m); g.log("%r", d)
        if kind == "to_metadata": from dlite.utils import to_metadata; e = json.dumps(d) if g.flip() else d; make2 = lambda: to_metadata(e)
        else: make2 = [lambda: dlite.Instance.from_dict(d), lambda: dlite.Metadata.from_dict(d, id=m.uri), lambda: dlite.Instance.from_dict(d, check_storages=False), lambda: dlite.Instance.from_json(json.dumps(d))][g.below(4)]
    else:
        meta = m.create(); check_meta(meta, m, "original"); hash = meta.get_hash(); uuid = meta.uuid
        if kind == "asdict":
            kw = dict(soft7=g.flip(), single=g.pick([None, True, False]), uuid=g.pick([None, True, False])); d = meta.asdict(**kw); what = "asdict(%s)" % kw; require(plain(d), "asdict() gives %r", d)
            if g.flip(): d = json.loads(json.dumps(d))
            e = d if kw["single"] is not False else d[uuid]; require(e["uri"] == m.uri and list(e["properties"])[:1] == ([m.props[0].name] if kw["soft7"] else [e["properties"][0]]), "asdict() gives %r", d)
            ck = g.below(5) == 0; make2 = lambda: dlite.Instance.from_dict(d, check_storages=ck)
        elif kind == "asjson":
            kw = dict(indent=g.range(0, 3), single=g.pick([None, True, False]), urikey=g.flip(), with_uuid=g.flip(), with_meta=g.flip(), with_arrays=g.flip()); what = "asjson(%s)" % kw; j = meta.asjson(**kw); d = json.loads(j)
            if g.below(3) == 0: what += " from_dict"; make2 = lambda: dlite.Instance.from_dict(d)
            else: make2 = lambda: dlite.Instance.from_json(j)
        elif kind == "asbson": b = meta.asbson(); make2 = lambda: dlite.Instance.from_bson(b)
        elif kind == "bytes": b = meta.to_bytes("json", options=g.pick([None, "arrays=yes", "single=yes"])); make2 = lambda: dlite.Instance.from_bytes("json", b)
        elif kind == "pickle": b = pickle.dumps(meta, protocol=g.range(2, 5)); make2 = lambda: pickle.loads(b)
        else:
            js = dlite.JStore(); js.add(meta); kw = dict(soft7=g.flip(), single=g.pick([None, True, False]), urikey=g.flip(), with_uuid=g.pick([None, True, False]), with_meta=g.flip()); what = "JStore.get_dict(%s)" % kw; d = js.get_dict(uuid if kw["single"] else None, **kw)
            make2 = lambda: dlite.Instance.from_dict(d)
        release(meta, what); del meta; gone(uuid, what)
    new = make2(); make2 = None
    if new is None: return
    check_meta(new, m, what)
    if hash: require(new.get_hash() == hash, "%s: the hash has changed", what)
    release(new, what); del new; gone(uuidof(m.uri), what)

# ------------------------------------------------ stores of several instances
def expect(f, what, *errors):
    try: r = f()
    except errors or dlite.DLiteError: dlite.errclr(); return
    raise Failure("%s is accepted" % what)


@pbt("D28", 2500, 60000, 50, "there are several instances")
def stores(g):
    t = Targets(); m = gen_meta(g, maxprops=3); meta = m.create(); g.log("%s", m)
    insts, xs = [], []
    for _ in range(g.range(1, 4)): inst, x = make(g, m, t, 2); insts.append(inst); xs.append(x); g.log("%s uri=%s dims=%s %s", x.uuid, x.uri, x.dims, x.vals)
    if len(xs) > 1: g.nontrivial()
    for x in xs: settle(x)
    withmeta = g.below(3) == 0; ids = [x.uuid for x in xs] + ([meta.uuid] if withmeta else [])
    def name(x): return x.uri if x.uri and g.flip() else x.uuid
    kind = g.pick(["jstore", "jstore", "dictstore", "dict"]); g.label(kind); ds = None
    def fill(lst):
        js = dlite.JStore()
        for i in lst:
            k = g.below(4)
            if k == 0: js.load_dict(i.asdict(single=True, uuid=True if not i.uri else g.pick([None, True, False]), soft7=g.flip()))
            elif k == 1: js.load_dict(i.asdict(single=False, soft7=g.flip()), id=g.pick([None, i.uuid]))
            elif k == 2: js.load_json(i.asjson(single=False, with_uuid=g.flip()))
            else: js.add(i)
        return js
    todo = insts + ([meta] if withmeta else []); g.shuffle(todo)
    if kind == "jstore":
        n = g.range(0, len(todo)); js = fill(todo[:n]); other = fill(todo[n:]); js += other; del other
        have = list(ids)
        for _ in range(g.weighted([3, 1, 1])):
            id = g.pick(have) if have else None
            if id: js.remove(id); have.remove(id); g.log("remove %s", id)
    else:
        ops = dict(soft7=g.flip()); ds = {}
        if kind == "dictstore": from dlite.utils import DictStore; ds = DictStore()
        for i in todo:
            d = i.asdict(single=g.flip(), uuid=True, soft7=g.flip())
            if g.flip(): d = json.loads(json.dumps(d))
            if kind == "dictstore": ds.add(d) if "properties" not in d or g.flip() else ds.add(d, id=i.uri or i.uuid)
            else: ds.update(d if "properties" not in d else {i.uri or i.uuid if g.flip() else i.uuid: d})
        have = list(ids); todo = []
        if kind == "dictstore": require(sorted(ds) == sorted(have), "DictStore has keys %s", list(ds)); require(all("properties" in v and isinstance(v["properties"], dict) and isinstance(v["dimensions"], dict) for v in ds.values()), "DictStore is not in soft7 format: %s", ds)
        d = ds; js = None
    uris = {x.uuid: x.uri for x in xs}; uris[meta.uuid] = meta.uri
    if js is not None:
        require(len(js) == len(have) and bool(js) == bool(have), "store has %d instances instead of %d", len(js), len(have))
        got = list(js.get_ids()); require(sorted(uuidof(i) for i in got) == sorted(have), "get_ids() gives %s instead of %s", got, have)
        got = list(js.get_ids(m.uri)); require(sorted(uuidof(i) for i in got) == sorted(i for i in have if i != meta.uuid), "get_ids(%s) gives %s instead of %s", m.uri, got, have)
        if len(have) == 1: require(uuidof(js.get_single_id()) == have[0], "get_single_id() gives %s", js.get_single_id())
        else: expect(js.get_single_id, "get_single_id() with %d instances" % len(have)); expect(js.get, "get() with %d instances" % len(have))
        gone_ = [i for i in ids if i not in have]
        if gone_: expect(lambda: js.get_dict(gone_[0]), "removed id", dlite.DLiteError, TypeError)
        how = g.below(3)
        if how:
            opt = dict(with_uuid=True if how == 2 else g.pick([None, True, False]), urikey=g.flip(), with_meta=g.flip(), soft7=g.flip()); d = js.get_dict(**opt); g.log("get_dict(%s)", opt)
            require(len(d) == len(have) and sorted(uuidof(k) for k in d) == sorted(have), "get_dict() gives %s", list(d))
            for k, v in d.items():
                want = uris[uuidof(k)] if opt["urikey"] and uris[uuidof(k)] else uuidof(k); require(k == want, "get_dict(%s) uses the key %s instead of %s", opt, k, want)
                if opt["with_uuid"] is not None: require(("uuid" in v) == opt["with_uuid"], "get_dict(%s) gives %s", opt, v)
                if opt["with_meta"]: require("meta" in v, "get_dict(%s) gives %s", opt, v)
            js = None
    del todo[:]; dead = set()
    muuid = meta.uuid
    if withmeta and muuid in have: del insts[:]; inst = i = None; release(meta); del meta; meta = None; gone(muuid, kind); order = [muuid]
    else: del insts[:]; inst = i = None; gc.collect(); order = []
    for x in xs: require(not present(x.uuid), "instance is not released after %s", kind)
    rest = [x for x in xs if x.uuid in have]; g.shuffle(rest); keep = []
    if order:
        if js is not None: meta = js.get(muuid)
        else: meta = dlite.Instance.from_dict(d, id=g.pick([muuid, m.uri]) if kind != "dictstore" else muuid)
        require(type(meta) is dlite.Metadata and meta.uri == m.uri, "%s gives %r for metadata", kind, meta)
    for x in rest:
        id = name(x); j = None
        if js is not None and g.flip(): new = js.get(x.uuid)
        elif js is not None: new = dlite.Instance.from_dict(js.get_dict(x.uuid, single=g.pick([None, True, False]), with_uuid=True), check_storages=g.flip())
        else: new = dlite.Instance.from_dict(d, id=id if id in d else x.uuid, check_storages=g.below(4) == 0)
        what = "%s from %s" % (id, kind); checkall(new, x, what); keep.append(new)
        require(new._refcount == 1, "%s: %d references", what, new._refcount)
    new = None; refs = {}
    for x in rest:
        for k, v in x.refs().items(): refs[k] = refs.get(k, 0) + v
    t.check(refs, kind); js = d = ds = None; del keep[:]; gc.collect()
    for x in xs: require(not present(x.uuid), "instance is not released in the end (%s)", kind)
    t.check({}, "in the end"); release(meta, kind); meta = None; gone(muuid, "in the end")

# ------------------------------------------------ object factory, inference of dimensions
class Thing:
    def __init__(self, **kw): self.__dict__.update(kw)


def attrvalue(g, p, x):
    """Value as attribute of an ordinary object: object arrays for references and relations, lists or arrays otherwise"""
    shape = x.shape[p.name]; vals = x.vals[p.name]
    if p.kind == "relation": vals = [v if v[3] is not None else v[:3] for v in vals]
    if p.shape and p.kind in ("ref", "relation"):
        a = np.empty(count(shape), object)
        for i, v in enumerate(vals): a[i] = x.targets.t[v] if p.kind == "ref" and v is not None else v
        return a.reshape(shape)
    v = pyvalue(p, x)
    return v if not p.shape or 0 in shape or g.flip() else v.tolist() if p.kind in ("bool", "int", "uint", "float", "string") else v


def objmake(g, x):
    for p in x.m.props: x.vals[p.name] = [("", "", "", None) if v == (None,) * 4 else v for v in x.vals[p.name]]
    return Thing(**{p.name: attrvalue(g, p, x) for p in x.m.props})


def scratch(name): return os.path.join(os.environ.get("VERIF_SCRATCH", "/tmp"), "d28-%d-%s" % (os.getpid(), name))


def plainprops(m, n): return [(p, i) for p in m.props for i, e in enumerate(p.shape) if e == n]


@pbt("D28", 2500, 60000, 50, "there are array properties")
def factory(g):
    t = Targets(); m = gen_meta(g, maxprops=4); meta = m.create(); g.log("%s", m); loc = None
    inst, x = make(g, m, t, 2); obj = objmake(g, x); g.log("dims=%s %s", x.dims, x.vals); del inst; gc.collect()
    if any(p.shape for p in m.props): g.nontrivial()
    ok = all(plainprops(m, n) for n, _ in m.dims); kind = g.pick(["class", "object", "object", "instance", "load"]); g.label(kind)
    bad = [n for n, _ in m.dims if len(plainprops(m, n)) > 1 and x.dims[n]] if kind in ("class", "object") and g.below(4) == 0 else []
    if bad:   # inconsistent length
        n = g.pick(bad); p, i = g.pick(plainprops(m, n)[1:]); shape = list(x.shape[p.name]); shape[i] += 1
        if count(shape): setattr(obj, p.name, np.zeros(shape, object if p.kind in ("ref", "relation", "string") else NPTYPE.get(p.type, "V1"))); ok = False; g.log("%s has shape %s", p.name, shape)
        else: bad = []
    src = dict(meta=meta)
    if kind != "instance" and g.below(5) == 0:
        loc = scratch("meta.json"); meta.save("json", loc, "mode=w"); k = g.below(3)
        src = dict(url="json://" + loc + "?mode=r#" + m.uri) if k == 0 else dict(storage=("json", loc, "mode=r"), id=m.uri) if k == 1 else dict(storage=dlite.Storage("json", loc, "mode=r"), id=m.uri)
    iid = g.pick([None, "zz:obj" + uniq(), str(uuidlib.uuid5(NS, uniq()))])
    def check(o, what, uuid=None):
        require(isinstance(o, Thing) and isinstance(o, dlite.factory.BaseExtension) and type(o).__name__ == m.uri.rsplit("/", 1)[1] and o.dlite_meta.uri == m.uri, "%s gives a %r", what, type(o))
        y = InstM(m, x.dims, t); y.vals = x.vals; i = o.dlite_inst; require(i.dimensions == x.dims, "%s: dimensions are %s", what, i.dimensions); check_inst(i, y, what)
        if uuid: require(i.uuid == uuidof(uuid), "%s: uuid is %s", what, i.uuid)
    new = cls = other = None
    if kind in ("class", "object"):
        try:
            if kind == "class":
                cls = dlite.classfactory(Thing, **src)
                if g.below(3) == 0: other = cls.__new__(cls); other.__dict__.update(obj.__dict__); other._dlite_init(instanceid=iid); new = other
                else: new = cls(instanceid=iid, **obj.__dict__)
            else: new = dlite.objectfactory(obj, deepcopy=g.flip() and not any(p.kind == "ref" for p in m.props), instanceid=iid, **src); require(type(obj) is Thing and "dlite_inst" not in obj.__dict__, "objectfactory() changes the object")
        except ValueError as e: require(not ok, "%s: %s", kind, e)
        else:
            require(ok, "%s accepts inconsistent or missing dimensions", kind); check(new, kind, iid)
            for p in m.props: require(repr(getattr(new, p.name)) == repr(getattr(obj, p.name)), "%s: attribute %s changes", kind, p.name)
    else:
        inst = dlite.Instance.from_metaid(m.uri, [x.dims[n] for n, _ in m.dims], iid)
        for p in m.props: inst[p.name] = attrvalue(g, p, x)
        if kind == "instance": new = dlite.instancefactory(Thing, inst); check(new, kind, inst.uuid); require(new.dlite_inst is inst or new.dlite_inst.uuid == inst.uuid, "instancefactory() uses another instance")
        else:
            loc = loc or scratch("meta.json"); iid = inst.uuid; inst.save("json", scratch("data.json"), "mode=w"); del inst; gc.collect()
            cls = dlite.classfactory(Thing, **src); new = cls.__new__(cls); st = dlite.Storage("json", scratch("data.json"), "mode=r"); new.dlite_load(st, iid); st = None
        for p in m.props: got = read(p, getattr(new, p.name), x.shape[p.name], t, kind); require(same(p, got, x.vals[p.name]), "%s: attribute %s is %r", kind, p.name, got)
        if kind == "instance" and g.flip():
            other = dlite.Metadata("zz://pb.t/0.1/Other" + uniq(), [], [dlite.Property("a", "int")], ""); oi = other()
            try: new.dlite_assign(oi)
            except TypeError: pass
            else: raise Failure("instance of other metadata is assigned")
            oi = None; release(other)
    new = cls = other = obj = inst = src = None; gc.collect(); gc.collect()
    for f in ("meta.json", "data.json"):
        if os.path.exists(scratch(f)): os.unlink(scratch(f))
    t.check({}, kind); release(meta, kind); meta = None; gone(uuidof(m.uri), kind)


@pbt("D28", 2500, 60000, 50, "dimensions are inferred")
def infer(g):
    from dlite.utils import infer_dimensions, CannotInferDimensionError, InvalidNumberOfDimensionsError
    t = Targets(); m = gen_meta(g, maxprops=4, types=[x for x in ALLTYPES if x != "relation"]); meta = m.create(); g.log("%s", m)
    inst, x = make(g, m, t, 2); del inst; g.log("dims=%s", x.dims); vals = {}; seen = {}; ok = True; why = ""
    for p in m.props:
        if g.below(5) == 0: continue
        v = pyvalue(p, x); shape = list(x.shape[p.name])
        if p.shape and p.kind != "blob" and 0 not in shape and g.flip(): v = v.tolist()
        if p.shape and g.below(12) == 0:
            i = g.below(len(shape)); shape[i] += 1; v = np.zeros(shape, object if p.kind == "ref" else int)
            if p.shape[i] not in x.dims: ok = None; why = "shape expression"
        elif p.shape and g.below(25) == 0: v = np.zeros(shape + [1]); ok = False; why = "number of dimensions of " + p.name
        vals[p.name] = v
        for e, n in zip(p.shape, shape):
            if e in x.dims:
                if seen.setdefault(e, n) != n: ok = False; why = "inconsistent " + e
    missing = set(x.dims) - set(seen); strict = True
    if g.below(8) == 0:
        vals["unknown"] = 1; strict = g.flip()
        if strict: ok = False; why = "unknown property"
    if missing: ok = False; why += " missing %s" % missing
    g.log("%s %s %s", vals, ok, why)
    try: got = infer_dimensions(g.pick([meta, m.uri]), vals, strict=strict) if not strict or g.flip() else infer_dimensions(meta, vals)
    except (CannotInferDimensionError, InvalidNumberOfDimensionsError) as e: require(not ok, "infer_dimensions(): %s", e)
    else:
        require(ok is not False, "infer_dimensions() accepts %s", why)
        if ok: require(got == seen, "infer_dimensions() gives %s instead of %s", got, seen)
        if seen: g.nontrivial()
    vals = v = None; t.check({}, "infer_dimensions"); release(meta); meta = None; gone(uuidof(m.uri))


# ------------------------------------------------ tables
def cell(g, s): return g.pick([" ", "", "", "\t"]) + s + g.pick([" ", "", ""]) if s else g.pick(["", "", " ", None])


@pbt("D28", 1500, 40000, 50, "there are several datamodels or shapes")
def table(g):
    import csv
    from dlite.table import DMTable
    ms = []
    for _ in range(g.range(1, 3)):
        m = gen_meta(g, maxprops=4, extras=True); clean = lambda s: (s or "").strip().replace("\0", "").replace("\x1c", "").strip()
        m.descr = clean(m.descr); dims = {}
        for p in m.props:
            p.unit, p.descr = clean(p.unit) or None, clean(p.descr) or None
            for e in p.shape:
                for n in sorted(names(e), key=e.index): dims[n] = n + " dimension"
            if p.kind == "ref" and g.flip(): p.ref = "zz://pb.t/0.1/Some" + g.ident(3)
        m.dims = list(dims.items()); ms.append(m)
    if len(ms) > 1 or any(p.shape for p in ms[0].props): g.nontrivial()
    n = max(len(m.props) for m in ms); br = ["[%s]" % i for i in range(1, n + 1)]
    if n == 1 and g.flip(): br = [""]
    cols = ["@id", "description"] + [c + b for b in br for c in ("datumName", "datumType", "datumRef", "datumUnit", "datumShape", "datumDescription")] + ["other"]
    if g.flip():
        heads = [c for c in cols if c.startswith("datumType")]; g.shuffle(cols); order = iter(heads); cols = [next(order) if c.startswith("datumType") else c for c in cols]
    base = g.pick([None, "zz://pb.t/0.1/"]); rows = []
    for m in ms:
        val = {"@id": m.uri[len(base):] if base and g.flip() else m.uri, "description": m.descr, "other": "x"}
        for p, b in zip(m.props, br):
            sh = g.pick([",", ", "]).join(p.shape); sh = "[" + sh + "]" if sh and g.flip() else sh
            val.update({"datumName" + b: p.name, "datumType" + b: p.type, "datumRef" + b: p.ref, "datumUnit" + b: p.unit, "datumShape" + b: sh, "datumDescription" + b: p.descr})
        rows.append([cell(g, val.get(c)) or ("" if c in ("@id", "description") else None) for c in cols])
        for m in ms: g.log("%s", m)
    tab = [[g.pick(["", " "]) + c for c in cols]] + rows; kind = g.pick(["list", "csv", "csv", "iter"]); g.label(kind); g.log("%s", tab)
    if kind == "list": dm = DMTable(tab, baseuri=base)
    else:
        kw = g.pick([dict(delimiter=","), dict(delimiter=";"), dict(delimiter="\t", quotechar="'"), dict(dialect="excel"), dict(dialect="unix")]); enc = g.pick(["utf-8", "utf-16"]); f = scratch("table.csv")
        with open(f, "w", newline="", encoding=enc, errors="surrogatepass") as fp: csv.writer(fp, **kw).writerows(tab)
        try:
            if kind == "csv": dm = DMTable.from_csv(g.pick([f, __import__("pathlib").Path(f)]), encoding=enc, baseuri=base, **kw)
            else:
                with open(f, newline="", encoding=enc) as fp: lines = list(fp)
                dm = DMTable.from_csv(lines, baseuri=base, **kw)
        finally: os.unlink(f)
    metas = dm.get_datamodels(); require(len(metas) == len(ms), "%d datamodels instead of %d", len(metas), len(ms))
    for meta, m in zip(metas, ms): check_meta(meta, m, kind)
    while metas: meta = metas.pop(); u = meta.uuid; release(meta, kind); meta = None; gone(u, kind)


# ------------------------------------------------ references, copies
@pbt("D28", 2000, 50000, 50, "an instance is referred to indirectly")
def referred(g):
    from dlite.utils import get_referred_instances
    uri = "zz://pb.t/0.1/Node" + uniq(); nd = g.below(3)
    meta = dlite.Metadata(uri, [dlite.Dimension("n"), dlite.Dimension("m")], [dlite.Property("one", "ref", ref=uri), dlite.Property("arr", "ref", ref=uri, shape=["n", "m"][:nd] or None), dlite.Property("x", "int")], "")
    n = g.range(1, 5); shape = [g.range(0, 2), g.range(0, 2)]; insts = [meta(shape) for _ in range(n)]; ncoll = g.range(0, 2)
    colls = [dlite.Collection() for _ in range(ncoll)]; nodes = insts + colls; edges = {i: set() for i in range(len(nodes))}; total = count(shape[:nd])
    for i in range(n):
        tgt = [g.below(len(nodes) + 2) for _ in range(total + 1)]; tgt = [v if v < len(nodes) else None for v in tgt]; edges[i] |= {v for v in tgt if v is not None}
        vals = [None if v is None else nodes[v] for v in tgt]; insts[i]["one"] = vals[0]; a = np.empty(total, object)
        for k in range(total): a[k] = vals[k + 1]
        insts[i]["arr"] = a.reshape(shape[:nd]) if nd else vals[1]
    for c in range(ncoll):
        for k in range(g.range(0, 3)): v = g.below(n + c); colls[c].add("l%d" % k, nodes[v]); edges[n + c].add(v)
    g.log("%d instances, %d collections %s", n, ncoll, edges); start = g.below(len(nodes)); want = {start}; todo = [start]
    while todo:
        for v in edges[todo.pop()]:
            if v not in want: want.add(v); todo.append(v)
    if len(want) > len(edges[start] | {start}): g.nontrivial()
    withmeta = g.below(3) == 0; got = get_referred_instances(nodes[start], include_meta=withmeta); uu = sorted(i.uuid for i in got); expected = {nodes[v].uuid for v in want}
    if withmeta:
        expected |= {uuidof(u) for u in ([uri] if any(v < n for v in want) else []) + ["http://onto-ns.com/meta/0.1/Collection"] * any(v >= n for v in want) + [dlite.ENTITY_SCHEMA, dlite.BASIC_METADATA_SCHEMA]}
    require(uu == sorted(expected), "get_referred_instances(%d) gives %d instances instead of %d: %s", start, len(uu), len(expected), got)
    got = None; uuids = [v.uuid for v in nodes]
    for i in insts:   # break cycles
        i["one"] = None; i["arr"] = np.full(shape[:nd], None, object) if nd else None
    i = a = vals = None; del insts[:], colls[:], nodes[:]; gc.collect()
    for u in uuids: require(not present(u), "instance is not released")
    u = meta.uuid; release(meta); meta = None; gone(u)


@pbt("D28", 2000, 50000, 50, "at least one property has a value that is not zero and is not an integer")
def copying(g):
    t = Targets(); m = gen_meta(g, maxprops=4); meta = m.create(); g.log("%s", m); inst, x = make(g, m, t); g.log("%s uri=%s dims=%s %s", x.uuid, x.uri, x.dims, x.vals)
    for p in m.props:   # copying unset relations is not specified
        if p.kind == "relation": x.vals[p.name] = [("", "", "", None) if v == (None,) * 4 else v for v in x.vals[p.name]]; inst[p.name] = pyvalue(p, x)
    if any(p.kind not in ("int", "uint") and any(v != default(p) for v in x.vals[p.name]) for p in m.props): g.nontrivial()
    kind = g.pick(["copy", "copy.copy", "copy.deepcopy"][:1]); newid = g.pick([None, "zz:copy" + uniq(), str(uuidlib.uuid5(NS, uniq()))]); new = inst.copy(newid) if newid or g.flip() else inst.copy()
    y = InstM(m, x.dims, t); y.vals = dict(x.vals); require(new.uuid != x.uuid, "copy has the same uuid"); y.uuid = new.uuid; y.uri = newid if newid and newid[:3] == "zz:" else None
    if newid: require(new.uuid == uuidof(newid), "uuid of copy is %s", new.uuid)
    checkall(new, y, "copy"); t.check({k: 2 * v for k, v in x.refs().items()}, "copy")
    for p in m.props:   # independent of each other
        if g.flip(): which = g.flip(); z, i = (x, inst) if which else (y, new); z.vals[p.name] = [fixvalue(p, v) for v in z.gen(g, p)]; i[p.name] = pyvalue(p, z)
    check_inst(new, y, "copy after changes"); check_inst(inst, x, "original after changes"); i = None
    if g.flip(): del inst; gc.collect(); check_inst(new, y, "copy after the original is gone"); t.check(y.refs(), "copy"); del new
    else: del new; gc.collect(); check_inst(inst, x, "original after the copy is gone"); t.check(x.refs(), "original"); del inst
    gc.collect(); t.check({}, "in the end"); release(meta); meta = None; gone(uuidof(m.uri))


# ------------------------------------------------ quantities
FAMILIES = [{"m": 1, "cm": 0.01, "mm": 1e-3, "km": 1e3, "inch": 0.0254, "micrometer": 1e-6}, {"s": 1, "minute": 60, "hour": 3600, "day": 86400, "ms": 1e-3}, {"Pa": 1, "MPa": 1e6, "kPa": 1e3, "N/m^2": 1, "bar": 1e5}, {"J": 1, "kJ": 1e3, "eV": 1.602176634e-19, "kg*m**2/s**2": 1}, {"kg": 1, "g": 1e-3, "pound": 0.45359237}]


def close(a, b): return abs(a - b) <= 1e-9 * max(abs(a), abs(b))


@pbt("D28", 1500, 40000, 50, "a value is converted between different units")
def quantity(g):
    import pint
    ps = []
    for i in range(g.range(1, 4)): fam = g.pick(FAMILIES); p = PropM("p%d" % i, g.pick(["float64", "float64", "double", "float"]), ["n"] if g.below(3) == 0 else [], unit=g.pick(sorted(fam)) if g.below(6) else None); p.fam = fam if p.unit else {}; ps.append(p)
    text = g.flip(); props = [dlite.Property("name", "string")] * text + [dlite.Property(p.name, p.type, shape=p.shape or None, unit=p.unit) for p in ps]
    meta = dlite.Metadata("zz://pb.t/0.1/Q" + uniq(), [dlite.Dimension("n")], props, ""); g.log("%s", [(p.name, p.type, p.shape, p.unit) for p in ps]); n = g.range(1, 3); inst = meta([n]); val = {p.name: [0.0] * (n if p.shape else 1) for p in ps}
    def num(): v = g.range(-9999, 9999) / g.pick([1, 4, 10, 1000]); return float(v)
    def check(when):
        for p in ps:
            got = inst[p.name]; got = [float(v) for v in got] if p.shape else [got]; require(len(got) == len(val[p.name]) and all(close(a, b) for a, b in zip(got, val[p.name])), "%s: %s is %r instead of %r %s", when, p.name, got, val[p.name], p.unit)
    require(inst.q.names() == [p.name for p in ps] and [u or None for u in inst.q.units()] == [p.unit for p in ps], "names %s, units %s", inst.q.names(), inst.q.units())
    for _ in range(g.range(1, 6)):
        p = g.pick(ps); vs = [num() for _ in val[p.name]]; m = vs if p.shape else vs[0]; op = g.below(6); unit = g.pick(sorted(p.fam)) if p.fam else ""; f = p.fam.get(unit, 1) / p.fam.get(p.unit, 1); what = "op %d %s = %r %s" % (op, p.name, m, unit); g.log("%s", what)
        if unit != (p.unit or ""): g.nontrivial()
        if op == 0: inst.q[p.name] = (np.array(m) if p.shape and g.flip() else m, unit)
        elif op == 1 and not p.shape: inst.q[p.name] = "%r %s" % (m, unit)
        elif op == 2: inst.set_quantity(p.name, m, unit)
        elif op == 3: q = inst.q.quantity(m, unit); setattr(inst.q, p.name, q) if g.flip() else inst.q.update(**{p.name: q})
        elif op == 4:
            other = g.pick([x for x in FAMILIES if x is not p.fam] if p.fam else FAMILIES); u = g.pick(sorted(other))
            if set(other) & set(p.fam): continue
            try: inst.q[p.name] = (m, u)
            except (pint.DimensionalityError, pint.UndefinedUnitError, TypeError, ValueError, AttributeError): check("refused " + what); continue
            raise Failure("%s accepts the unit %s" % (p.unit, u))
        else:   # reading
            q = inst.get_quantity(p.name) if g.flip() else inst.q.get(p.name) if g.flip() else getattr(inst.q, p.name); conv = q.to(unit).m if unit else q.m; want = [v / f for v in val[p.name]]; conv = [float(v) for v in conv] if p.shape else [float(conv)]
            require(all(close(a, b) for a, b in zip(conv, want)), "%s in %s is %r instead of %r", p.name, unit, conv, want); continue
        val[p.name] = [v * f for v in vs]; check(what)
    for (name, q), p in zip(inst.q.items(), ps): require(name == p.name and all(close(a, b) for a, b in zip([float(v) for v in np.ravel(q.m)], val[name])), "items: %s is %r", name, q)
    q = inst = None; from dlite import quantity as Q; Q.quantity_helper = None; gc.collect(); release(meta); u = meta.uuid; meta = None; gone(u)


if __name__ == "__main__": sys.exit(pypbt.main())
