# D34: the command line tools do what their help says, and their exit status tells whether they did
import gc, json, os, re, signal, subprocess, sys, uuid as uuidlib
for n in ("minio", "psycopg2", "redis", "pymongo", "requests", "matplotlib", "tripper", "paramiko"): sys.modules[n] = None
import dlite
import pypbt
from pypbt import pbt, require, Failure
from pyworld import *

TOOLS = os.path.join(os.environ["VERIF_BUILD_ROOT"], "tools"); SCR = os.environ.get("VERIF_SCRATCH", "/tmp")
VALIDATE = os.path.join(os.environ["VERIF_REPO"], "bindings/python/scripts/dlite-validate")
BASE = {k: v + ":detect_odr_violation=0" if k == "ASAN_OPTIONS" else v for k, v in os.environ.items() if not k.startswith("DLITE_") and k not in ("VERIF_SCRATCH",)}
HEXUUID = re.compile(r"[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}\Z", re.I)


def path(name): return os.path.join(SCR, "d34-%d-%s" % (os.getpid(), name))


def run(cmd, env=None, input=b"", cwd=None, stdout=subprocess.PIPE):
    p = subprocess.run(cmd, env=BASE if env is None else env, input=input, stdout=stdout, stderr=subprocess.PIPE, timeout=60, cwd=cwd)
    err = p.stderr.decode("utf-8", "replace")
    if p.returncode == 99 or "AddressSanitizer" in err: raise Failure("%r: %s" % (cmd, err[:1500]))
    require(p.returncode >= 0, "%r is terminated by signal %d: %s", cmd, -p.returncode, err[:500])
    return p.returncode, p.stdout, err


def arg(g, mx=20): return "".join(c for c in g.text(mx) if c not in "\0" and not 0xd800 <= ord(c) < 0xe000)


# ------------------------------------------------------------------ dlite-getuuid
NS = "http://onto-ns.com/data"


@pbt("D34", 250, 5000, 10, "a string is given")
def getuuid(g):
    u = str(uuidlib.UUID(int=g.i64() & (2**64 - 1) | (g.i64() & (2**63 - 1)) << 64)); kind = g.below(7)
    uri = g.pick(["http://onto-ns.com/meta/0.1/", "https://x.y/", "zz://a/b/", "file:///tmp/"]) + g.ident(8)
    id = [None, u, uri, uri + "/" + u, arg(g) or "x", g.ident(12), "x" * g.pick([200, 254, 255, 256, 300, 511, 512, 600, 5000])][kind]
    norm = g.flip(); ns = g.pick([None, None, uri, uri + "/", uri + "#", ""]) if norm else None
    cmd = [os.path.join(TOOLS, "dlite-getuuid")]
    if norm: cmd.append(g.pick(["-n", "--normalise-id"]))
    if ns is not None: cmd += g.pick([["-u", ns], ["--uri=" + ns], ["--uri", ns]])
    if id is not None:
        g.nontrivial()
        if id.startswith("-") or g.flip(): cmd.append("--")
        cmd.append(id)
    g.log(" ".join(map(repr, cmd[1:]))[:300]); g.label(["none", "uuid", "uri", "uri/uuid", "text", "name", "long"][kind] + (" normalised" if norm else ""))
    rc, out, err = run(cmd); require(rc == 0, "exit status %d: %s", rc, err); got = out.decode("utf-8"); require(got.endswith("\n"), "output %r", got); got = got[:-1]
    if norm:
        want = "" if id is None else id if kind in (2, 3) else (ns or NS) + ("" if (ns or NS)[-1] in "/#" else "/") + id
        if kind == 4 and dlite.get_uuid(id) != str(uuidlib.uuid5(uuidlib.NAMESPACE_DNS, id)) or kind != 4: require(got == want, "%r, expected %r", got[-300:], want[-300:])
    elif id is None:
        require(HEXUUID.match(got) and got[14] == "4" and got[19] in "89ab", "%r is no random UUID", got)
        require(run(cmd)[1].decode() != got + "\n", "the same random UUID twice")
    else:
        require(got == (u if kind in (1, 3) else str(uuidlib.uuid5(uuidlib.NAMESPACE_DNS, uri)) if kind == 2 else dlite.get_uuid(id)), "UUID of %r is %r", id, got)
    if g.chance(1, 8): require(run(cmd + (["a", "b"]))[0] != 0, "two strings are accepted")
    if g.chance(1, 8): require(run(cmd[:1] + ["--nosuch"])[0] != 0, "an unknown option is accepted")


# ------------------------------------------------------------------ dlite-env
def value(g): return "".join(c for c in g.pick([arg(g, 12), g.ident(6), "a=b", "", "x y", "$HOME", ";:", "a" * 5000]) if c != "\n")


@pbt("D34", 350, 6000, 10, "a command is run with added variables")
def env(g):
    names = ["V0", "V1", "V10", "V", "PATH2", "HOMEX"]
    parent = dict(BASE); mine = {n: value(g) for n in names if g.flip()}; parent.update(mine)
    if g.chance(1, 4): parent["DLITE_ROOT"] = "/opt/root" + g.ident(3)
    empty = g.chance(1, 3); how = g.pick(["none", "none", "none", "install", "build"])
    cmd = [os.path.join(TOOLS, "dlite-env")]; adds = [(g.pick(names), value(g)) for _ in range(g.size(4))]
    opts = []
    if empty: opts.append([g.pick(["-e", "--empty"])])
    if how == "none": opts.append([g.pick(["-i", "--no-install"])])
    if how == "build": opts.append([g.pick(["-b", "--build"])])
    for n, v in adds: opts.append(g.pick([["-v", n + "=" + v], ["--variable=" + n + "=" + v]]))
    if how != "build":
        k = g.below(len(opts) + 1); vs = [o for o in opts if o[0].startswith(("-v", "--v"))]; rest = [o for o in opts if o not in vs]
        g.shuffle(rest); opts = rest + vs if g.flip() else vs + rest
    bad = g.chance(1, 10)
    if bad: opts.insert(g.below(len(opts) + 1), g.pick([["-v", "NOEQUALSIGN"], ["--nosuch"], ["-P", "NoSuchPlatform"]]))
    for o in opts: cmd += o
    pr = g.chance(1, 4); what = g.pick(["env", "env", "args", "exit", "signal", "stdin", "missing", "nocommand"])
    args = [arg(g) for _ in range(g.size(5))]; code = g.pick([0, 0, 1, 2, 3, 7, 42, 77, 126, 200, 255]); sig = g.pick([9, 15, 1]); data = g.bytes(g.size(50))
    if pr: cmd.append(g.pick(["-p", "--print"]))
    if g.flip() or what not in ("stdin", "nocommand"): cmd.append("--")
    c = {"env": ["/usr/bin/env", "-0"], "args": ["/usr/bin/printf", "%s\\0"] + args, "exit": ["/bin/sh", "-c", "exit %d" % code], "signal": ["/bin/sh", "-c", "kill -%d $$" % sig],
         "stdin": ["/bin/cat"], "missing": ["/nonexistent/command"] + args, "nocommand": []}[what]
    g.log("%s print %d %s: %s" % (what, pr, how, " ".join(map(repr, cmd[1:] + c))[:600])); g.label(what + (" printed" if pr else ""))
    rc, out, err = run(cmd + c, env=parent, input=data)
    if bad: require(rc != 0, "wrong options are accepted"); return
    if pr or what == "env":
        require(rc == 0, "exit status %d: %s", rc, err)
        items = out.decode("utf-8").split("\n" if pr else "\0"); require(items.pop() == "", "incomplete output")
        got = {}
        for i in items:
            n, eq, v = i.partition("=")
            require(eq == "=", "environment item %r", i); require(n not in got, "variable %s twice", n); got[n] = v
        want = {} if empty else dict(parent); want.update(adds)
        if pr:
            for n, v in list(want.items()):
                if "\n" in v: return
        changed = {"DLITE_ROOT", "DLITE_PKG_ROOT", "PATH", "LD_LIBRARY_PATH", "PYTHONPATH", "DLITE_USE_BUILD_ROOT", "DLITE_STORAGE_PLUGIN_DIRS", "DLITE_MAPPING_PLUGIN_DIRS", "DLITE_PYTHON_STORAGE_PLUGIN_DIRS", "DLITE_PYTHON_MAPPING_PLUGIN_DIRS", "DLITE_TEMPLATE_DIRS", "DLITE_STORAGES"} if how != "none" else set()
        for n in set(want) | set(got):
            if n in changed: continue
            require(n in got, "variable %s is missing", n); require(n in want, "variable %s was added", n)
            require(got[n] == want[n], "variable %s is %r, expected %r", n, got[n][:200], want[n][:200])
        for n in changed & set(got): require("(null)" not in got[n], "%s is %r", n, got[n])
        if how != "none":
            old = [] if empty else [p for p in parent["PATH"].split(":") if p.startswith("/")]
            new = got.get("PATH", "").split(":"); require(how == "build" or len(new) > len(set(old)), "PATH is %r, was %r", new, old)
            pos = [new.index(p) if p in new else -1 for p in dict.fromkeys(old)]; require(-1 not in pos and pos == sorted(pos) and (not pos or pos[0] > 0 or how == "build"), "PATH is %r, was %r: the old directories must follow the new ones", new, old)
            require("LD_LIBRARY_PATH" in got and "PYTHONPATH" in got and "DLITE_TEMPLATE_DIRS" in got and "DLITE_STORAGES" in got, "incomplete environment %s", sorted(got))
            for n in ("PATH", "LD_LIBRARY_PATH"):
                for p in got.get(n, "/").split(":"): require(p.startswith("/"), "%s has the relative path %r", n, p)
        if how == "install" and not empty and "DLITE_ROOT" in parent: require(got["DLITE_ROOT"] == parent["DLITE_ROOT"], "DLITE_ROOT is %r, was %r", got["DLITE_ROOT"], parent["DLITE_ROOT"])
        if how == "build": require(got.get("DLITE_USE_BUILD_ROOT") == "YES", "DLITE_USE_BUILD_ROOT is %r", got.get("DLITE_USE_BUILD_ROOT"))
        if adds: g.nontrivial()
    elif what == "args": require(rc == 0 and out == b"".join(a.encode() + b"\0" for a in args or [""]), "arguments %r, status %d, expected %r", out, rc, args); g.nontrivial()
    elif what == "stdin": require(rc == 0 and out == data, "input is %r, status %d, expected %r", out, rc, data)
    elif what == "exit": require(rc == code, "exit status is %d, the command's is %d", rc, code); g.nontrivial()
    elif what == "signal": require(rc != 0, "success although the command was terminated by signal %d", sig); g.nontrivial()
    else: require(rc != 0, "success although there is no such command")


# ------------------------------------------------------------------ datamodels as files
def doc(g, alldims=True, ref=None):
    while True:
        m = gen_meta(g, ["bool", "int32", "float64", "string", "uint16", "stringN", "blobN"], maxprops=4, maxnd=2, extras=True)
        used = {n for n, _ in m.dims if any(re.search(r"\b%s\b" % n, s) for p in m.props for s in p.shape)}
        m.plain = {n for n, _ in m.dims if any(n == s for p in m.props for s in p.shape)}   # named alone in a shape
        if not alldims: break
        m.dims = [d for d in m.dims if d[0] in used]
        if m.plain >= {n for n, _ in m.dims}: break
    props = {}
    for p in m.props:
        q = {"type": p.type}
        if p.shape: q["shape"] = p.shape
        if p.unit: q["unit"] = p.unit
        if p.descr is not None: q["description"] = p.descr
        props[p.name] = q
    m.meta = "http://onto-ns.com/meta/0.3/EntitySchema"
    return m, {"uri": m.uri, "meta": m.meta, "description": m.descr, "dimensions": dict(m.dims), "properties": props}


# ------------------------------------------------------------------ dlite-codegen
@pbt("D34", 250, 5000, 10, "code is generated")
def codegen(g):
    m, d = doc(g); f, t, o = path("m.json"), path("t.txt"), path("o.txt")
    vals = {"my" + n: "".join(c for c in arg(g, 8) if c not in ";&%#={}\\@+") for n in ("a", "b", "ab")}
    def esc(s): return s
    uuid = str(uuidlib.uuid5(uuidlib.NAMESPACE_DNS, m.uri))
    atoms = [("{uri}", m.uri), ("{uuid}", uuid), ("{name}", m.uri.split("/")[-1]), ("{version}", "0.1"), ("{meta.uri}", m.meta), ("{ismeta}", "1"), ("{_nproperties}", str(len(m.props))), ("{_ndimensions}", str(len(m.dims))),
             ("{list_properties:{prop.name}{,}\\.}", "".join(p.name + ("," if i < len(m.props) - 1 else "") for i, p in enumerate(m.props))),
             ("{list_dimensions:{dim.name};}", "".join(n + ";" for n, _ in m.dims)), ("text", "text"), (" \n", " \n"), ("%d ", "%d "), ("æ", "æ")]
    atoms += [("{%s}" % k, v) for k, v in vals.items()]
    parts = [g.pick(atoms) for _ in range(g.size(8))]; template, want = "".join(p[0] for p in parts), "".join(p[1] for p in parts).encode()
    try:
        with open(f, "w") as h: json.dump(d, h)
        with open(t, "w") as h: h.write(template)
        cmd = [os.path.join(TOOLS, "dlite-codegen"), "-B"]
        vs = [k + "=" + v for k, v in vals.items()]; g.shuffle(vs)
        if g.flip(): vs = [";".join(vs)]
        opts = [g.pick([["-v", v], ["--variables=" + v]]) for v in vs] + [g.pick([["-t", t], ["--template-file=" + t]])]
        kind = g.weighted([6, 1, 1, 1, 1, 1, 1, 1]); file = g.flip()
        if kind == 4: opts[-1] = g.pick([["-t", path("nosuch.txt")], ["-f", "nosuchformat"]])
        if kind == 5: template = "{nosuchvar"; open(t, "w").write(template)
        if file: opts.append(["-o", o if kind != 1 else path("nosuchdir") + "/o.txt"])
        g.shuffle(opts)
        for x in opts: cmd += x
        url = "json://" + f + g.pick(["", "?mode=r"]) + g.pick(["", "#" + m.uri, "#" + uuid])
        if kind == 2: url = "json://" + path("nosuch.json")
        if kind == 3: url = "json://" + f + "#zz:nosuchid"
        if kind == 7: open(f, "w").write(json.dumps(d)[:-g.range(1, 20)])
        if kind != 6: cmd.append(url)
        g.log("kind %d: %s\ntemplate %r" % (kind, " ".join(map(repr, cmd[1:])), template)); g.label("kind %d" % kind)
        full = kind == 0 and not file and want and g.chance(1, 6)
        if full:
            with open("/dev/full", "wb") as h: rc, out, err = run(cmd, stdout=h)
            require(rc != 0, "success although the output could not be written"); return
        rc, out, err = run(cmd)
        if kind == 0 or kind == 1 and not file:
            g.nontrivial(); require(rc == 0, "exit status %d: %s", rc, err)
            if file:
                require(not out, "output %r besides the file", out)
                with open(o, "rb") as h: out = h.read()
            require(out == want, "generated %r, expected %r", out[:400], want[:400])
        else:
            require(rc != 0, "success, output %r, errors %r", out[:200], err[:300]); require(err, "no message")
            require(not out, "output %r although it failed", out[:200])
            if file and kind != 1: require(not os.path.exists(o), "a file was written although it failed")
        if kind == 0 and g.chance(1, 6): require(run(cmd + ["extra"])[0] != 0, "additional arguments are accepted")
    finally:
        for x in (f, t, o):
            if os.path.exists(x): os.unlink(x)


# ------------------------------------------------------------------ dlite-validate
@pbt("D34", 60, 1500, 3, "the file has an error or several datamodels")
def validate(g):
    d0 = path("v"); os.makedirs(d0, exist_ok=True); f = os.path.join(d0, "m.json"); files = [f]
    kind = g.pick(["good", "good", "several", "several", "unused", "type", "cut", "missing", "data", "baddata", "noprops", "byid"]); bad = None
    try:
        m, d = doc(g, alldims=kind != "unused"); cmd = [sys.executable, VALIDATE]
        if kind == "unused":
            unused = {n for n, _ in m.dims} - m.plain; extra = "unused" + g.ident(3)
            if not unused: d["dimensions"][extra] = "x"
            bad = "unused dimensions"
        if kind in ("good", "unused"): body = d
        elif kind in ("several", "byid"):
            docs = [d] + [doc(g)[1] for _ in range(g.range(1, 2))]
            k = g.below(len(docs)); broken = g.flip()
            if broken: docs[k]["dimensions"]["unusedx"] = "not used"
            body = {str(uuidlib.uuid5(uuidlib.NAMESPACE_DNS, x["uri"])): x for x in docs}; g.nontrivial()
            if kind == "byid":
                j = g.below(len(docs)); cmd += ["--id", g.pick([docs[j]["uri"], list(body)[j]])] if g.flip() else ["-i", docs[j]["uri"]]
                if broken and j == k: bad = "unused"
            elif broken: bad = "unused"
        elif kind == "type":
            body = d; p = g.pick(list(d["properties"].values())); p["type"] = g.pick(["nosuchtype", "int7", "", "string-1", 5]); bad = "type"
        elif kind == "noprops": body = d; del d["properties"]; bad = "noprops"
        elif kind in ("data", "baddata"):
            mf = os.path.join(d0, "meta.json"); files.append(mf)
            with open(mf, "w") as h: json.dump(d, h)
            dims = {n: g.range(1, 2) for n, _ in m.dims}; inst = {"meta": m.uri, "dimensions": dims, "properties": {}}
            def fill(p, shape):
                if shape: return [fill(p, shape[1:]) for _ in range(ev(shape[0], dims))]
                return {"bool": True, "int": 5, "uint": 6, "float": 1.5, "blob": "00" * p.bits}.get(p.kind, "a")
            for p in m.props: inst["properties"][p.name] = fill(p, p.shape)
            if kind == "baddata":
                k = g.below(3)
                if k == 0 and m.dims: n = g.pick(m.dims)[0]; del dims[n]
                elif k == 1: inst["meta"] = "zz://pb.t/0.1/NoSuch" + uniq()
                else:
                    p = g.pick(m.props)
                    if p.kind == "string" and not p.shape: inst["meta"] = "zz://pb.t/0.1/NoSuch" + uniq()
                    else: inst["properties"][p.name] = {"a": 1}
                bad = "data"
            body = {str(uuidlib.uuid4()): inst}; cmd += g.pick([["-p", mf], ["--storage-path=" + d0]])
        else: body = d
        text = json.dumps(body)
        if kind == "cut": text = text[:g.below(len(text) - 1) + 1]; bad = "cut"
        if kind == "missing": f2 = os.path.join(d0, "nosuch.json"); bad = "missing"
        else:
            f2 = f
            with open(f, "w") as h: h.write(text)
        show = g.flip()
        if show: cmd.append(g.pick(["-s", "--show"]))
        g.log("%s%s: %s\n%s" % (kind, " (wrong: %s)" % bad if bad else "", " ".join(cmd[2:]), text[:1500])); g.label(kind + (" wrong" if bad else ""))
        rc, out, err = run(cmd + [f2], cwd=d0); s = out.decode("utf-8", "replace")
        if bad: g.nontrivial(); require(rc != 0, "%s: validated: %s %s", bad, s[:300], err[-300:]); require("validated" not in s.split("\n")[0] or rc, "says it is validated")
        else:
            require(rc == 0, "exit status %d: %s %s", rc, s[-600:], err[-600:]); require("validated" in s, "output %r", s[:300])
            if show: require((m.uri in s) or kind == "byid", "--show does not show it: %r", s[:300])
    finally:
        for x in files:
            if os.path.exists(x): os.unlink(x)
        os.rmdir(d0)


if __name__ == "__main__": sys.exit(pypbt.main())
