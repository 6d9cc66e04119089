# D27: attribute and array access from Python
import array, gc, sys
import numpy as np
import dlite
import pypbt
from pypbt import pbt, known, require, Failure, heap
from pyworld import *

dlite.errclr()


def relrep(g, v):
    s, p, o, d = v; k = g.below(4)
    if k == 0: return dlite.Relation(s, p, o, d) if d is not None else dlite.Relation(s, p, o)
    if k == 1: r = dict(s=s, p=p, o=o); r.update(dict(d=d) if d is not None else {}); return r
    t = (s, p, o) if d is None else (s, p, o, d)
    return t if k == 2 else list(t)


def blobrep(g, v):
    k = g.below(6)
    return [v, bytearray(v), memoryview(v), v.hex(), np.frombuffer(v, "u1"), np.frombuffer(v, "V%d" % len(v))[0]][k]


def elemrep(g, p, v, t):
    """A Python object that represents value v"""
    k = p.kind
    if k == "bool": return [v, np.bool_(v), int(v)][g.below(3)]
    if k in ("int", "uint"):
        if g.flip(): return v
        for _ in range(4):
            c = np.dtype(g.pick(INTS)); ii = np.iinfo(c)
            if ii.min <= v <= ii.max: return c.type(v)
        return v
    if k == "float":
        if g.flip(): return v
        if v == int(v) and abs(v) < 2**20 and str(v)[0] != "-": return int(v)
        return np.float32(v) if p.bits == 32 else np.float64(v)
    if k == "string": return v if v is None or g.below(4) else np.str_(v) if not v.endswith("\0") else v
    if k == "blob": return blobrep(g, v)
    if k == "ref": return None if v is None else [t.t[v], t.t[v].uuid, t.t[v].uri][g.below(3)]
    if k == "relation": return relrep(g, v)


def tuples(g, x): return (tuple if g.flip() else list)(tuples(g, y) for y in x) if isinstance(x, list) else x


def nestrep(reps, shape):
    if not shape: return reps[0]
    n = count(shape[1:]); return [nestrep(reps[i * n:(i + 1) * n], shape[1:]) for i in range(shape[0])]


def layout(g, a):
    """An array with the same values and some memory layout"""
    k = g.below(7); g.label("layout%d" % k)
    if k == 1: return np.asfortranarray(a)
    if k == 2:
        b = np.empty([2 * n + 1 for n in a.shape], a.dtype); v = b[tuple(slice(1, None, 2) for _ in a.shape)]; v[...] = a; return v
    if k == 3: return a[tuple(slice(None, None, -1) for _ in a.shape)].copy()[tuple(slice(None, None, -1) for _ in a.shape)]
    if k == 4: return a.astype(a.dtype.newbyteorder(">"))
    if k == 5: a = a.copy(); a.flags.writeable = False; return a
    if k == 6: return np.ascontiguousarray(a.T).T
    return a


def valuerep(g, p, vals, shape, t):
    if not p.shape: return elemrep(g, p, vals[0], t)
    k = g.below(3)
    if k == 0: return tuples(g, nestrep([elemrep(g, p, v, t) for v in vals], shape))
    if p.type in NPTYPE:
        a = np.array(vals, NPTYPE[p.type]).reshape(shape)
        if k == 1 and p.type != "bool" and a.size:   # another type with the same values
            c = np.dtype(g.pick(INTS + ["float32", "float64", "bool"]))
            if np.can_cast(c, a.dtype, "safe"):
                with np.errstate(all="ignore"): b = a.astype(c)
                if same(p, [canon(p, v, t) for v in b.astype(a.dtype).flat], vals): a = b; g.label("other dtype")
        if len(shape) == 1 and g.below(6) == 0 and a.dtype.char in "bBhHiIlLqQfd" and a.dtype.isnative: return array.array(a.dtype.char, a.tobytes()) if a.size else a
        return layout(g, a)
    if p.kind == "blob":
        return layout(g, np.frombuffer(b"".join(vals), "V%d" % p.bits).reshape(shape)) if vals else np.empty(shape, "V%d" % p.bits)
    if p.kind == "string" and k == 1 and None not in vals and not any(v.endswith("\0") for v in vals):
        a = np.array(vals, "U").reshape(shape) if vals else np.empty(shape, "U1")
        if p.fixed and vals and g.flip():
            return layout(g, np.array([v.encode() for v in vals], "S").reshape(shape))
        return layout(g, a)
    if p.kind in ("string", "ref"):
        a = np.empty(count(shape), object)
        for i, v in enumerate(vals): a[i] = elemrep(g, p, v, t)
        return a.reshape(shape)
    return nestrep([elemrep(g, p, v, t) for v in vals], shape)


class Other: pass


def badelem(g, p):
    """Something that cannot be an element"""
    k = p.kind
    if k == "int": return g.pick(["abc", None, 2**(p.bits - 1), -2**(p.bits - 1) - 1, 2**80, -2**80, Other(), {}])
    if k == "uint": return g.pick(["abc", None, 2**p.bits, -1, 2**80, -2**80, Other(), {}])
    if k == "float": return g.pick(["abc", Other(), {}, "1,5"])
    if k == "string" and p.fixed: return g.pick(["x" * (p.bits + 1), "y" * (p.bits + 7), "\u20ac" * (p.bits // 3 + 1), "\ud800"])
    if k == "string": return "\ud800"
    if k == "blob": return g.pick([b"x" * (p.bits + 1), b"x" * (p.bits - 1), b"", bytearray(p.bits + 9), "00" * (p.bits + 1), "0" * (2 * p.bits - 1), "zz" * p.bits, 3, None, Other()])
    if k == "ref": return g.pick([3, "zz:unknown-target", Other(), 1.5])
    if k == "relation": return g.pick([3, None, ("a", "b"), ("a",) * 6, ("a", "b", 3), ("a", None, "b"), dict(s="a", p="b"), dict(s="a", p="b", o=3), dict(s="a", p="b", o="c", d=3), dict(s="a", p="b", o="c", id=3), Other(), "ab", ("a", "b", "\ud800")])
    return None


def badvalue(g, p, x):
    """A value that must be refused, or None"""
    shape = x.shape[p.name]; t = x.targets; val = lambda sh: valuerep(g, p, [fixref(gen_elem(g, p)) if p.kind == "ref" else gen_elem(g, p) for _ in range(count(sh))], sh, t)
    if not p.shape:
        if p.kind == "bool": return np.zeros(2)
        if p.kind in ("int", "uint", "float") and g.below(5) == 0: return g.pick([[1], (1, 2), np.zeros(2), b"12", 1j])
        return badelem(g, p)
    k = g.below(4)
    if k == 0:   # a dimension has another size
        sh = list(shape); i = g.below(len(sh)); sh[i] = g.pick([n for n in (0, 1, sh[i] + 1, sh[i] - 1, 2 * sh[i]) if n >= 0 and n != sh[i]])
        if 0 in shape[:i]: return None   # cannot be told from nested lists
        return np.array(val(sh)) if 0 in sh and p.type in NPTYPE else val(sh)
    if k == 1:   # another number of dimensions
        if 0 in shape: return None
        if g.flip(): sh = shape[1:]
        else: sh = list(shape); sh.insert(g.below(len(sh) + 1), g.range(1, 2))
        if p.kind in ("relation", "blob"): return None
        q = PropM(p.name, p.type, sh)
        return valuerep(g, q, [default(p) if p.kind != "string" else "a" for _ in range(count(sh))], sh, t)
    if k == 2 and count(shape) and p.kind != "bool":   # one bad element
        reps = [elemrep(g, p, fixref(gen_elem(g, p)) if p.kind == "ref" else gen_elem(g, p), t) for _ in range(count(shape))]
        reps[g.below(len(reps))] = badelem(g, p); return nestrep(reps, shape)
    if 0 in shape: return None
    return g.pick([3, Other(), "abcd"]) if p.kind != "string" else g.pick([3, Other(), "a" * shape[0]])


def setit(g, inst, x, p, val):
    k = g.below(5); i = x.m.props.index(p)
    if k == 0: inst[p.name] = val
    elif k == 1: setattr(inst, p.name, val)
    elif k == 2: inst[i] = val
    elif k == 3: inst[i - len(x.m.props)] = val
    else: inst.set_property(p.name, val)


def getit(g, inst, x, p):
    k = g.below(6); i = x.m.props.index(p)
    return [lambda: inst[p.name], lambda: getattr(inst, p.name), lambda: inst[i], lambda: inst[i - len(x.m.props)], lambda: inst.get_property(p.name), lambda: inst.properties[p.name]][k]()


def new(g, types=ALLTYPES, targets=None):
    m = gen_meta(g, types); t = targets or Targets(); g.log("%s", m)
    meta = m.create(); dims = {n: g.range(0, 3) for n, _ in m.dims}
    x = InstM(m, dims, t); k = g.below(4); id = None if g.flip() else "zz:inst" + uniq()
    init = {p.name: x.gen(g, p) for p in m.props if g.below(4) == 0}
    kw = dict(properties={n: valuerep(g, p, init[n], x.shape[n], t) for p in m.props for n in [p.name] if n in init}) if init else {}
    d = dims if k == 0 else list(dims.values()) if k == 1 else tuple(dims.values()) if k == 2 else np.array(list(dims.values()), "i4")
    inst = meta(d, id=id, **kw) if not (k == 3 and kw) else meta(list(d), id=id, **kw)
    x.vals.update(init)
    return m, meta, x, inst


def drop(m, meta):
    meta._decref()


SHARED = lambda p: p.shape and (p.type in NPTYPE or p.kind == "blob" or p.fixed)


@pbt("D27", 12000, 400000, 60, "at least one array property is changed or a value is refused")
def attributes(g):
    m, meta, x, inst = new(g); t = x.targets; views = []; held = []; pd = [(i, meta["properties"][i]) for i in range(len(m.props)) if g.below(4) == 0]; changed = refused = False
    require(inst.dimensions == x.dims, "dimensions are %s instead of %s", inst.dimensions, x.dims)
    require(len(inst) == len(m.props), "length is %d", len(inst))
    for p in m.props: require(p.name in inst, "%s is not in the instance", p.name)
    require("nosuch" not in inst, "nosuch is in the instance")
    for n, d in x.dims.items():
        require(getattr(inst, n) == d, "dimension attribute %s is %s", n, getattr(inst, n))
        require(inst.get_dimension_size(n) == d, "size of %s", n)
    check_inst(inst, x, "new instance")
    for step in range(g.range(1, 12)):
        p = g.pick(m.props); k = g.below(10); shape = x.shape[p.name]
        if k < 4:
            vals = x.gen(g, p); rep = valuerep(g, p, vals, shape, t); g.log("%s = %r", p.name, rep)
            try: setit(g, inst, x, p, rep)
            except Exception as e: raise Failure("%s = %r is refused: %s" % (p.name, rep, e))
            x.vals[p.name] = vals; changed = changed or (bool(p.shape) and bool(vals))
            del rep
        elif k < 6:
            bad = badvalue(g, p, x)
            if bad is None: continue
            g.log("%s = bad %r", p.name, bad)
            try: setit(g, inst, x, p, bad)
            except Exception: refused = True
            else: raise Failure("%s (%s%s) = %r is accepted, giving %r" % (p.name, p.type, shape or "", bad, inst[p.name]))
            del bad
        elif k == 6:
            v = getit(g, inst, x, p); got = read(p, v, shape, t, "read"); require(same(p, got, x.vals[p.name]), "read %s: %r instead of %r", p.name, got, x.vals[p.name])
            if p.kind == "relation" and v is not None and x.vals[p.name]:   # relations refer to the instance
                i = g.below(len(x.vals[p.name])); held.append((p, i, v.flat[i] if p.shape else v))
            elif p.kind in ("string", "ref") and not p.shape: pass
            elif SHARED(p): views.append((p, v))
            del got; v = None
        elif k == 7 and SHARED(p) and x.vals[p.name]:
            v = getit(g, inst, x, p); i = g.below(v.size); e = gen_elem(g, p); g.log("%s.flat[%d] = %r", p.name, i, e); idx = np.unravel_index(i, v.shape)
            v[idx] = np.frombuffer(e, "V%d" % p.bits)[0] if p.kind == "blob" else e.encode() if p.fixed else e
            x.vals[p.name] = list(x.vals[p.name]); x.vals[p.name][i] = e; changed = True; v = None
        elif k == 8 and SHARED(p) and views:   # from itself
            a = inst[p.name]; b = a[tuple(slice(None, None, -1) for _ in shape)]; want = [canon(p, y, t) for y in b.flat]; g.log("%s is reversed", p.name)
            setit(g, inst, x, p, b); x.vals[p.name] = want; a = b = None
        elif k == 9 and not SHARED(p) and not (p.kind == "relation" and (None,) * 4 in x.vals[p.name]):
            g.log("%s = itself", p.name); setit(g, inst, x, p, inst[p.name] if p.kind != "relation" or not p.shape else list(inst[p.name]))
            if p.kind == "string" and not p.shape: pass
            x.vals[p.name] = x.vals[p.name]
        check_inst(inst, x, "step %d" % step)
        for q, v in views:
            got = read(q, v, x.shape[q.name], t, "view"); require(same(q, got, x.vals[q.name]), "array of %s obtained before shows %r instead of %r", q.name, got, x.vals[q.name])
        v = got = None; gc.collect() if any(q.kind == "ref" for q in m.props) else None
        t.check(x.refs(), "step %d" % step)
    for bad in ("nosuch", 99, -99):
        try: inst[bad]
        except Exception: pass
        else: raise Failure("inst[%r] is accepted" % (bad,))
        try: inst[bad] = 1
        except Exception: pass
        else: raise Failure("inst[%r] = 1 is accepted" % (bad,))
    if g.below(3) == 0:
        inst.freeze(); fz = [(p, inst[p.name] if g.flip() else inst.get_property(p.name)) for p in m.props if p.shape]
        for p in m.props:
            try: setit(g, inst, x, p, valuerep(g, p, x.gen(g, p), x.shape[p.name], t))
            except Exception: pass
            else: raise Failure("property %s of a frozen instance can be set" % p.name)
        for p, v in fz: require(not v.flags.writeable, "array %s of a frozen instance is writable", p.name)
        check_inst(inst, x, "frozen"); fz = v = None
    if g.flip():
        c = inst.copy(); y = InstM(m, x.dims, t); y.vals = x.vals; check_inst(c, y, "copy"); del c, y
    inst = None; gc.collect()
    for q, v in views:
        got = read(q, v, x.shape[q.name], t, "view"); require(same(q, got, x.vals[q.name]), "array of %s shows %r after the instance was deleted", q.name, got)
    for q, i, r in held:
        want = x.vals[q.name][i]
        if want[0] is not None: require((r.s, r.p, r.o, r.d) == want, "relation of %s is %r instead of %r", q.name, r, want)
    drop(m, meta); meta = None; gc.collect()
    for i, d in pd: require(d.name == m.props[i].name and d.type == m.props[i].type and list(d.shape) == m.props[i].shape, "definition of property is %r", d)
    views = got = v = held = r = d = pd = None; gc.collect(); t.check({}, "end")
    if changed or refused: g.nontrivial()
    if refused: g.label("refused")


@pbt("D27", 3000, 60000, 60, "every case")
def construction(g):
    """wrong dimensions and properties are refused"""
    m = gen_meta(g); meta = m.create(); t = Targets(); dims = {n: g.range(0, 3) for n, _ in m.dims}; g.log("%s %s", m, dims); g.nontrivial()
    k = g.below(6); d = list(dims.values()); kw = {}
    if k == 0: d = d + [1]
    elif k == 1 and d: d = d[:-1]
    elif k == 2 and d: d[g.below(len(d))] = -g.range(1, 3)
    elif k == 3: kw = dict(properties=dict(nosuch=1))
    elif k == 4 and d: d = dict(dims); d.pop(g.pick(d.keys()))
    elif k == 5 and d: d[g.below(len(d))] = g.pick(["a", None, [1]])
    else: d = d + [0, 0]
    n0 = set(dlite.istore_get_uuids())
    try: i = meta(d, **kw)
    except Exception as e: pass
    else: raise Failure("dimensions %r, properties %r are accepted" % (d, kw))
    gc.collect(); n1 = set(dlite.istore_get_uuids()); require(n1 == n0, "an instance is left behind: %s", n1 - n0)
    i = meta(list(dims.values())); check_inst(i, InstM(m, dims, t), "afterwards")
    a = i.get_dimensions(); require(a.tolist() == list(dims.values()), "get_dimensions() = %s", a)
    if a.size:
        try: a[0] = 7
        except ValueError: pass
        require(list(i.get_dimensions()) == list(dims.values()), "dimension sizes can be changed")
    drop(m, meta)


@pbt("D27", 1500, 30000, 20, "every case")
def leaks(g):
    """setting and reading does not leak"""
    m, meta, x, inst = new(g); t = x.targets; p = g.pick(m.props); ok = g.below(3) > 0; shape = x.shape[p.name]; g.nontrivial()
    reps = [valuerep(g, p, x.gen(g, p), shape, t) for _ in range(2)] if ok else [badvalue(g, p, x)]
    if reps[0] is None and not ok: return
    g.log("%s = %r", p.name, reps); how = g.below(2)
    def once():
        for r in reps:
            try:
                if how: inst[p.name] = r
                else: setattr(inst, p.name, r)
            except Exception:
                if ok: raise
        inst[p.name]
    noleak(once, "setting %s to %r and reading it" % (p.name, reps))
    inst = None; drop(m, meta)


if __name__ == "__main__": sys.exit(pypbt.main())
