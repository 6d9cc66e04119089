"""Model of metadata and instances for the Python harnesses."""
import gc, os, struct
import uuid as uuidlib
import numpy as np
import dlite
from pypbt import require, Failure, heap

dlite_counter = [0]
INTS = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"]
NUM = ["bool", "float32", "float64"] + INTS


class PropM:
    def __init__(self, name, type, shape, ref=None, unit=None, descr=None):
        self.name, self.type, self.shape, self.ref, self.unit, self.descr = name, type, shape, ref, unit, descr
    @property
    def kind(self): return self.type.rstrip("0123456789") if self.type not in ("float32", "float64") else "float"
    @property
    def fixed(self): return self.kind == "string" and self.type != "string"
    @property
    def bits(self): return int("".join(c for c in self.type if c.isdigit()) or 0)
    def prop(self): return dlite.Property(self.name, self.type, shape=self.shape or None, ref=self.ref, unit=self.unit, description=self.descr)


class MetaM:
    def __init__(self): self.dims, self.props, self.descr = [], [], ""
    def create(self): return dlite.Metadata(self.uri, [dlite.Dimension(n, d) for n, d in self.dims], [p.prop() for p in self.props], self.descr)
    def __str__(self): return "%s dims=%s props=[%s]" % (self.uri, [d[0] for d in self.dims], ", ".join("%s:%s%s" % (p.name, p.type, p.shape or "") for p in self.props))


def uniq(): dlite_counter[0] += 1; return "%d_%d" % (os.getpid(), dlite_counter[0])


def gen_shape(g, dims, maxnd):
    shape = []
    for _ in range(g.weighted([3, 4, 2, 1][:maxnd + 1])):
        k = g.below(8); d = g.pick(dims)[0] if dims else None
        if d is None or k == 7: shape.append(str(g.range(0, 3)))
        elif k < 5: shape.append(d)
        elif k == 5: shape.append(d + "+1")
        else: shape.append("2*" + d)
    return shape


def ev(expr, dims): return int(eval(expr, {}, dict(dims)))


def gen_type(g, types):
    t = g.pick(types)
    if t == "stringN": return "string%d" % g.range(1, 9)
    if t == "blobN": return "blob%d" % g.range(1, 6)
    return t


ALLTYPES = NUM + ["float64", "int32", "string", "string", "stringN", "stringN", "blobN", "blobN", "ref", "ref", "relation", "relation"]


def gen_meta(g, types=ALLTYPES, maxprops=5, maxnd=3, extras=False, name="M"):
    m = MetaM(); m.uri = "zz://pb.t/0.1/%s%s" % (name, uniq())
    m.dims = [("d%d" % i, g.text(8).replace("\0", "") if extras else "") for i in range(g.range(0, 3))]
    if extras: m.descr = g.text(12)
    for i in range(g.range(1, maxprops)):
        p = PropM("p%d%s" % (i, g.ident(3) if extras else ""), gen_type(g, types), gen_shape(g, m.dims, maxnd))
        if extras: p.unit, p.descr = (g.text(5) or None) if g.flip() else None, (g.text(9) or None) if g.flip() else None
        m.props.append(p)
    return m


NPTYPE = dict(bool=np.bool_, float32=np.float32, float64=np.float64, **{t: getattr(np, t) for t in INTS})


class Targets:
    """Instances for ref properties"""
    def __init__(self):
        self.m = dlite.Metadata("zz://pb.t/0.1/Target" + uniq(), [], [dlite.Property("x", "int")], "")
        self.t = [dlite.Instance.from_metaid(self.m.uri, [], "zz:target%d-%s" % (i, uniq())) for i in range(3)]
        gc.collect(); self.base = [x._refcount for x in self.t]
    def check(self, refs, when):
        for i, t in enumerate(self.t): require(t._refcount - self.base[i] == refs.get(i, 0), "%s: target %d has %d references instead of %d", when, i, t._refcount - self.base[i], refs.get(i, 0))


def shorttext(g, mx): return g.text(mx).replace("\0", "0")


def gen_elem(g, p, none=True):
    k = p.kind
    if k == "bool": return g.flip()
    if k in ("int", "uint"):
        lo, hi = (0, 2**p.bits - 1) if k == "uint" else (-2**(p.bits - 1), 2**(p.bits - 1) - 1)
        if g.below(3) == 0: return g.pick([lo, hi, hi - 1, lo + 1])
        if g.below(2) == 0: return g.range(max(lo, -9), 9)
        v = g.i64() & (2**64 - 1); v &= 2**p.bits - 1
        return v + lo if k == "int" else v
    if k == "float": v = g.f64(); return float(np.float32(v)) if p.bits == 32 and abs(v) < 3e38 else (1.5 if p.bits == 32 else v)
    if k == "string" and p.fixed:
        s = shorttext(g, p.bits)
        while len(s.encode()) > p.bits: s = s[:-1]
        return s
    if k == "string": return None if none and g.below(6) == 0 else shorttext(g, 30)
    if k == "blob": return g.bytes(p.bits)
    if k == "ref": return g.range(0, 3) - 1 if g.below(5) else None
    if k == "relation": return (shorttext(g, 6), shorttext(g, 6), shorttext(g, 8), shorttext(g, 5) or None if g.below(3) == 0 else None)
    raise Failure("no generator for " + p.type)


def fixref(v): return None if v == -1 else v


def default(p):
    return {"bool": False, "int": 0, "uint": 0, "float": 0.0, "string": "" if p.fixed else None, "blob": bytes(p.bits), "ref": None, "relation": (None,) * 4}[p.kind]


def nest(flat, shape):
    """Nested lists"""
    if not shape: return flat[0]
    if len(shape) == 1: return list(flat[:shape[0]])
    n = 1
    for s in shape[1:]: n *= s
    return [nest(flat[i * n:(i + 1) * n], shape[1:]) for i in range(shape[0])]


def count(shape):
    n = 1
    for s in shape: n *= s
    return n


class InstM:
    def __init__(self, m, dims, targets=None):
        self.m, self.dims, self.targets = m, dims, targets
        self.shape = {p.name: [ev(e, dims) for e in p.shape] for p in m.props}
        self.vals = {p.name: [default(p)] * count(self.shape[p.name]) for p in m.props}
    def gen(self, g, p): return [fixref(gen_elem(g, p)) if p.kind == "ref" else gen_elem(g, p) for _ in range(count(self.shape[p.name]))]
    def fix(self, p, vals):   # bool for None in text arrays etc.
        return vals
    def refs(self):
        r = {}
        for p in self.m.props:
            if p.kind == "ref":
                for v in self.vals[p.name]:
                    if v is not None: r[v] = r.get(v, 0) + 1
        return r


def canon(p, v, targets):
    """Canonical value of an element read from dlite"""
    k = p.kind
    if k == "ref":
        if v is None: return None
        for i, t in enumerate(targets.t):
            if t.uuid == v.uuid: return i
        raise Failure("unknown reference %r" % v)
    if k == "relation": return (v.s, v.p, v.o, v.d)
    if k == "blob": return bytes(v) if isinstance(v, (bytes, bytearray)) else v.tobytes()
    if k == "string": return v.decode() if isinstance(v, bytes) else None if v is None else str(v)
    if k == "bool": return bool(v)
    if k == "float": return float(v)
    return int(v)


def read(p, v, shape, targets, when):
    """Checks type and shape of a value read from Python; returns a flat list"""
    if not shape and not p.shape:
        want = dict(bool=bool, int=int, uint=int, float=float, string=str, blob=bytearray).get(p.kind)
        if want and not (v is None and p.kind == "string" and not p.fixed): require(type(v) is want, "%s: %s has type %s", when, p.name, type(v))
        if p.kind == "relation": require(isinstance(v, dlite.Relation), "%s: %s has type %s", when, p.name, type(v))
        if p.kind == "ref" and v is not None: require(isinstance(v, dlite.Instance), "%s: %s has type %s", when, p.name, type(v))
        return [canon(p, v, targets)]
    require(isinstance(v, np.ndarray), "%s: %s has type %s", when, p.name, type(v))
    require(list(v.shape) == shape, "%s: %s has shape %s instead of %s", when, p.name, v.shape, shape)
    if p.type in NPTYPE: require(v.dtype == NPTYPE[p.type], "%s: %s has dtype %s", when, p.name, v.dtype)
    elif p.kind == "blob": require(v.dtype == np.dtype("V%d" % p.bits), "%s: %s has dtype %s", when, p.name, v.dtype)
    elif p.fixed: require(v.dtype.kind == "S", "%s: %s has dtype %s", when, p.name, v.dtype)
    else: require(v.dtype == np.dtype("O"), "%s: %s has dtype %s", when, p.name, v.dtype)
    return [canon(p, x, targets) for x in v.flat]


def same(p, a, b):
    if p.kind == "float": return [struct.pack("<d", x) if x == x else b"nan" for x in a] == [struct.pack("<d", x) if x == x else b"nan" for x in b]
    return a == b


def check_inst(inst, x, when, how=None):
    for i, p in enumerate(x.m.props):
        v = inst[p.name]; got = read(p, v, x.shape[p.name], x.targets, when)
        require(same(p, got, x.vals[p.name]), "%s: property %s is %r instead of %r", when, p.name, got, x.vals[p.name])


def noleak(once, what):
    """Fails if calling once() again and again allocates more and more memory"""
    def rounds(k, n):
        use = []
        for _ in range(k + 1):
            for _ in range(n): once()
            gc.collect(); use.append(heap())
        return [b - a for a, b in zip(use, use[1:])]
    if not heap(): return
    if min(rounds(4, 15)[1:]) < 8 * 15: return
    d = rounds(5, 400)   # caches are full now
    require(min(d[1:]) < 8 * 400, "%s leaks: %s bytes per 400 times", what, d)


NS = uuidlib.NAMESPACE_DNS


def present(id): return dlite.has_instance(id, False)


def uuidof(id): return dlite.get_uuid(id)


def make(g, m, t, maxdim=3):
    """New instance with random values"""
    while True:
        dims = {n: g.range(0, maxdim) for n, _ in m.dims}
        x = InstM(m, dims, t)
        if all(count(s) <= 40 for s in x.shape.values()): break
        maxdim = max(maxdim - 1, 1)
    k = g.below(3); x.uri = None; id = None
    if k == 0: id = x.uri = "zz:inst-" + uniq() + g.pick(["", "/a", "a.b", "?q"])
    if k == 1: id = str(uuidlib.uuid5(NS, uniq()))
    inst = dlite.Instance.from_metaid(m.uri, [dims[n] for n, _ in m.dims], id)
    x.uuid = inst.uuid
    if id: require(x.uuid == (id if k == 1 else str(uuidlib.uuid5(NS, id))), "uuid of %s is %s", id, x.uuid)
    for p in m.props:
        if g.below(5) == 0: continue
        x.vals[p.name] = [fixvalue(p, v) for v in x.gen(g, p)]
        inst[p.name] = pyvalue(p, x)
    return inst, x


textfilter = None   # replaces what a storage format cannot represent


def fixvalue(p, v):
    if textfilter and isinstance(v, str): return textfilter(v)
    if p.kind == "float" and (v != v or v in (float("inf"), float("-inf"))): return 0.5   # JSON has no such numbers
    return v if v != 0 or p.kind != "float" else 0.0   # "-0" is an integer to Python


def pyvalue(p, x):
    vals, t, shape = x.vals[p.name], x.targets, x.shape[p.name]
    if p.kind == "ref": vals = [None if v is None else t.t[v] for v in vals]
    if p.kind == "relation": vals = [v if v[3] is not None else v[:3] for v in vals]
    if not p.shape: return vals[0]
    if p.type in NPTYPE: return np.array(vals, NPTYPE[p.type]).reshape(shape)
    if p.kind == "blob": return np.frombuffer(b"".join(vals), "V%d" % p.bits).reshape(shape) if vals else np.empty(shape, "V%d" % p.bits)
    if p.kind == "relation": return nest(vals, shape)
    a = np.empty(count(shape), object)
    for i, v in enumerate(vals): a[i] = v
    return a.reshape(shape)


def settle(x):
    """What is left of values that JSON cannot tell from others"""
    for p in x.m.props:
        if p.kind == "relation": x.vals[p.name] = [tuple(v or "" for v in r[:3]) + (r[3],) for r in x.vals[p.name]]


def checkall(inst, x, when):
    require(type(inst) is dlite.Instance, "%s: the result is a %s", when, type(inst))
    require(inst.uuid == x.uuid, "%s: uuid is %s instead of %s", when, inst.uuid, x.uuid)
    require((inst.uri or None) == x.uri, "%s: uri is %r instead of %r", when, inst.uri, x.uri)
    require(inst.meta.uri == x.m.uri, "%s: metadata is %s", when, inst.meta.uri)
    require(inst.dimensions == x.dims, "%s: dimensions are %s instead of %s", when, inst.dimensions, x.dims)
    check_inst(inst, x, when)


def dictvalue(p, v, t):
    """An element in dict representation"""
    if p.kind == "blob": return v.hex()
    if p.kind == "ref": return None if v is None else t.t[v].uuid
    if p.kind == "relation": return [w or "" for w in v[:3]] + ([v[3]] if v[3] else [])
    return v


def plain(v):
    """Only types that JSON has"""
    if isinstance(v, dict): return all(type(k) is str and plain(u) for k, u in v.items())
    if isinstance(v, list): return all(plain(u) for u in v)
    return type(v) in (str, int, float, bool, type(None))


def txt(s): return s or ""


def check_meta(meta, m, when):
    require(isinstance(meta, dlite.Instance) and meta.is_meta, "%s gives %r", when, meta)
    require(type(meta) is dlite.Metadata, "%s: the result is a %s", when, type(meta))
    require(meta.uri == m.uri and meta.uuid == uuidof(m.uri), "%s: uri is %s", when, meta.uri)
    require(meta.meta.uri == dlite.ENTITY_SCHEMA, "%s: meta is %s", when, meta.meta.uri)
    require(txt(meta["description"]) == txt(m.descr), "%s: description is %r instead of %r", when, meta["description"], m.descr)
    require(meta.dimnames() == [d[0] for d in m.dims], "%s: dimensions are %s", when, meta.dimnames())
    for d, (n, t) in zip(meta["dimensions"], m.dims): require(txt(d.description) == txt(t), "%s: description of %s is %r instead of %r", when, n, d.description, t)
    require(meta.propnames() == [p.name for p in m.props], "%s: properties are %s instead of %s", when, meta.propnames(), [p.name for p in m.props])
    for p in m.props:
        q = meta.getprop(p.name)
        for what, got, want in (("type", q.type, p.type), ("ref", txt(q.ref), txt(p.ref)), ("shape", q.shape.tolist() if q.ndims else [], [e.replace(" ", "") for e in p.shape]), ("unit", txt(q.unit), txt(p.unit)), ("description", txt(q.description), txt(p.descr))):
            if what == "shape": got = [e.replace(" ", "") for e in got]
            require(got == want, "%s: %s of %s is %r instead of %r", when, what, p.name, got, want)
    # usable
    dims = {n: i + 1 for i, (n, _) in enumerate(m.dims)}
    try: shapes = [[ev(e, dims) for e in p.shape] for p in m.props]
    except NameError: return
    if any(count(sh) > 100 for sh in shapes): return
    inst = meta(dimensions=dims)
    for p, sh in zip(m.props, shapes):
        if p.shape: require(list(inst[p.name].shape) == sh, "%s: shape of %s is %s instead of %s", when, p.name, inst[p.name].shape, sh)


def release(meta, when=""):
    """Removes metadata, which stays in memory otherwise"""
    uuid = meta.uuid; gc.collect(); n = meta._refcount
    require(n <= 2, "%s: metadata has %d references", when, n)
    if n == 2: meta._decref()
    del meta; return uuid


def gone(uuid, when=""): gc.collect(); require(not present(uuid), "%s: metadata is not released", when)


def names(expr): return {c for c in "".join(c if c.isalnum() or c == "_" else " " for c in expr).split() if not c.isdigit()}
