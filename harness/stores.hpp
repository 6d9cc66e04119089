// Model of a set of JSON storages: files, open handles and what they hold
#pragma once
#include "world.hpp"
#include "json.hpp"
#include <sys/stat.h>
#include "dlite-json.h"
#include "dlite-storage.h"

struct Rec { bool meta = false; InstM x; const MetaM *m = NULL; };   // a stored instance
typedef std::map<S, Rec> Recs;
enum FState { Missing, Empty, Garbage, Single, Multi };
struct FileM { S path; FState st = Missing; Recs recs; S bytes; };
struct HandleM { DLiteStorage *s = NULL; int file = 0; char mode = 'r'; int single = -2; Recs recs; bool changed = false, wrote_single = false, store = false; int refs = 1; bool open = true; long order = 0; };

static S st_readall(const S &f) { FILE *fp = fopen(f.c_str(), "rb"); S s; char b[4096]; size_t n; while (fp && (n = fread(b, 1, sizeof b, fp)) > 0) s.append(b, n); if (fp) fclose(fp); return s; }
static void st_spew(const S &f, const S &s) { FILE *fp = fopen(f.c_str(), "wb"); REQUIRE(fp, "cannot write %s", f.c_str()); fwrite(s.data(), 1, s.size(), fp); fclose(fp); }
static void st_norm(InstM &x) {   // text of relations: null is written as empty
  for (size_t j = 0; j < x.vals.size(); j++) if (x.m->props[j].t.t == dliteRelation) for (auto &e : x.vals[j]) for (int i = 0; i < 3; i++) if (e.f[i].null) e.f[i] = Elem(S(""));
}
static S uuidof(const S &id) { char u[DLITE_UUID_LENGTH + 1]; dlite_get_uuid(u, id.c_str()); return u; }

struct Stores {
  Gen &g; World w; std::vector<FileM> files; std::vector<std::unique_ptr<HandleM>> handles; S dir; long clock = 0;
  std::vector<S> ids;      // identifiers in use
  bool bykey = true;
  Stores(Gen &g_) : g(g_), w(g_) {}
  void init(int nfiles, int nmeta, int types = TY_REF | TY_REL) {
    const char *d = getenv("VERIF_SCRATCH"); dir = S(d ? d : "/tmp") + fmt("/st%d", getpid());
    mkdir(dir.c_str(), 0700);
    MetaOpt o; o.types = types; o.maxprops = 4; w.init(nmeta, o);
    for (int i = 0; i < nfiles; i++) { FileM f; f.path = dir + fmt("/f%d.json", i); unlink(f.path.c_str()); files.push_back(f); }
    ids = {"http://a.b/" + g.ident() + "#x", g.ident() + "-1", "urn:x:" + g.ident(), "61e0f0c2-3e1d-4c4c-9d43-0f54e5e4e37f", "http://a.b/c/\"q\"\\" + g.ident()};
  }
  // ---- memory
  InstM *live(const S &uuid) { for (auto &x : w.insts) if (x->inst && x->uuid == uuid) return x.get(); return NULL; }
  MetaM *livemeta(const S &uuid) { for (auto &m : w.metas) if (m->meta && uuid == m->meta->uuid) return m.get(); return NULL; }
  InstM *create() {
    int mi = g.below(w.metas.size()); S id = g.chance(1, 4) ? S() : g.pick(ids); if (id.size() && live(uuidof(id))) return NULL;
    std::vector<long> d = gen_dims(g, *w.metas[mi], 3); if (dims_status(*w.metas[mi], d) != 1) return NULL;
    InstM *x = w.create(mi, d, id.size() ? id.c_str() : NULL); x->uri = ostr(x->inst->uri);
    for (size_t j = 0; j < x->vals.size(); j++) if (g.chance(2, 3)) w.set_random(*x, j);
    if (id.empty() && ids.size() < 9) ids.push_back(x->uuid);
    return x;
  }
  static Rec rec(const InstM &x) { Rec r; r.x = x; r.x.inst = NULL; r.m = x.m; st_norm(r.x); return r; }
  static Rec rec(const MetaM &m) { Rec r; r.meta = true; r.m = &m; return r; }
  // checks a loaded instance against the record and adds it to the live ones; the instance was not live before
  void adopt(DLiteInstance *inst, const Rec &r, const char *what) {
    std::unique_ptr<InstM> x(new InstM(r.x)); x->inst = inst; check_inst(*x, what);
    REQUIRE(ostr(inst->uri) == x->uri, "%s: uri is %s, expected %s", what, show(inst->uri).c_str(), x->uri.null ? "NULL" : show(x->uri.b).c_str());
    REQUIRE(inst->_refcount == 1, "%s: reference count is %d", what, inst->_refcount);
    w.insts.push_back(std::move(x));
  }
  // ---- files
  char defmode(const FileM &f) { return f.st == Missing || f.st == Empty ? 'w' : f.st == Multi ? 'a' : 'r'; }
  void written(FileM &f, const Recs &recs, FState st) {
    f.st = st; f.recs = recs; f.bytes = st_readall(f.path);
    js::V v = js::parse(f.bytes, "storage");
    REQUIRE(v.k == 'o', "storage is not a JSON object");
    auto ident = [&](const js::V &e) { const js::V *u = e.get("uuid"), *q = e.get("uri"); return u ? u->s : q ? uuidof(q->s) : S(); };
    if (st == Single) { S u = ident(v); REQUIRE(recs.size() == 1, "model"); REQUIRE(v.get("properties") && (u == recs.begin()->first), "single-entity file %s does not hold instance %s", f.path.c_str(), recs.begin()->first.c_str()); return; }
    REQUIRE(v.o.size() == recs.size(), "file holds %zu instances, expected %zu", v.o.size(), recs.size());
    for (auto &e : v.o) { S u = uuidof(e.first), i = ident(e.second); REQUIRE(recs.count(u), "file holds unexpected instance %s", show(e.first).c_str()); REQUIRE(i.empty() || i == u, "instance with key %s identifies as %s", show(e.first).c_str(), i.c_str()); }
  }
  void unchanged(const char *what) {
    for (auto &f : files) {
      bool ex = access(f.path.c_str(), F_OK) == 0; REQUIRE(ex == (f.st != Missing), "%s: file %s %s", what, f.path.c_str(), ex ? "was created" : "was removed");
      if (ex) { S b = st_readall(f.path); REQUIRE(b == f.bytes, "%s changed file %s from %s to %s", what, f.path.c_str(), show(f.bytes).c_str(), show(b).c_str()); }
    }
  }
  // ---- handles
  S options(char mode, int single) {
    std::vector<S> o; const char *yes[] = {"yes", "true", "1"}, *no[] = {"no", "false", "0"};
    if (mode) o.push_back(fmt("mode=%c", mode));
    if (single >= 0) o.push_back(S("single=") + (single ? yes : no)[g.below(3)]);
    for (const char *k : {"uri-key", "with-uuid", "with-meta", "arrays"}) if (g.chance(1, 4)) o.push_back(S(k) + "=" + (g.flip() ? yes : no)[g.below(3)]);
    for (size_t i = o.size(); i > 1; i--) std::swap(o[i - 1], o[g.below(i)]);
    S s; char sep = g.flip() ? ';' : '&'; for (auto &x : o) s += (s.empty() ? S() : S(1, sep)) + x;
    return s;
  }
  // expected mode of a handle, 0 if opening is refused
  char expect_mode(const FileM &f, char mode, int single) {
    char m = mode ? mode : defmode(f);
    if (!strchr("rwa", m)) return 0;
    if (m == 'r') return f.st == Single || f.st == Multi ? m : 0;
    if (m == 'a') return single > 0 || f.st == Garbage ? 0 : m;
    return m;
  }
  DLiteStorage *do_open(const FileM &f, const S &opt) {
    char *path = strdup(f.path.c_str()), *o = opt.empty() && g.flip() ? NULL : strdup(opt.c_str()); DLiteStorage *s;
    switch (g.below(3)) {
    case 0: { S url = S(g.flip() ? "json://" : "") + f.path + (opt.empty() ? S() : "?" + opt); s = dlite_storage_open_url(url.c_str()); break; }
    case 1: s = dlite_storage_open(g.flip() ? NULL : "", path, o); break;   // driver from extension
    default: s = dlite_storage_open("json", path, o);
    }
    free(path); free(o); return s;
  }
  HandleM *open(int fi, char mode, int single) {
    FileM &f = files[fi]; S opt = options(mode, single); char m = expect_mode(f, mode, single);
    DLiteStorage *s = do_open(f, opt);
    g.log("open %s \"%s\" -> %s", f.path.c_str(), opt.c_str(), s ? "ok" : "refused");
    if (!m) { REQUIRE(!s, "opening %s with \"%s\" was not refused", f.path.c_str(), opt.c_str()); REQUIRE(take_error(), "refused to open a storage without an error"); g.label("open refused"); return NULL; }
    REQUIRE(s, "cannot open %s with \"%s\": %s", f.path.c_str(), opt.c_str(), dlite_errmsg());
    REQUIRE(!!dlite_storage_is_writable(s) == (m != 'r'), "storage opened in mode %c: writable is %d", m, dlite_storage_is_writable(s));
    REQUIRE(!strcmp(dlite_storage_get_driver(s), "json"), "driver");
    HandleM *h = new HandleM; h->s = s; h->file = fi; h->mode = m; h->single = single; h->store = m != 'w'; h->order = clock++;
    if (m != 'w') h->recs = f.recs;
    handles.emplace_back(h); return h;
  }
  HandleM *pick() { std::vector<HandleM *> v; for (auto &h : handles) if (h->open) v.push_back(h.get()); return v.empty() ? NULL : v[g.below(v.size())]; }
  void unref(HandleM &h) { if (--h.refs == 0) { if (h.mode != 'r' && h.changed && h.store && !h.wrote_single) written(files[h.file], h.recs, Multi); } }
  void close(HandleM &h) {
    h.open = false; int r = dlite_storage_close(h.s); g.log("close %s (%c) -> %d", files[h.file].path.c_str(), h.mode, r);
    REQUIRE(r == 0, "closing a storage returns %d: %s", r, dlite_errmsg());
    unref(h); unchanged("closing");
  }
  // what saving does to the model of a handle; false if it is refused
  bool saved(HandleM &h, const S &uuid, const Rec &r, bool meta) {
    if (h.mode == 'r') return false;
    if (h.single > 0) {
      if (h.changed) return false;
      h.changed = true; Recs one; one[uuid] = r; h.recs = one; written(files[h.file], one, Single); return true;
    }
    bool infer = h.single < 0 && !h.store && meta; h.store = true; h.recs[uuid] = r; h.changed = true; h.wrote_single = infer;
    if (infer) written(files[h.file], h.recs, Single);
    return true;
  }
  void save(HandleM &h, InstM *x, MetaM *m) {
    S uuid = x ? x->uuid : S(m->meta->uuid); const DLiteInstance *inst = x ? x->inst : (DLiteInstance *)m->meta;
    int ref = inst->_refcount, q = dlite_instance_save(h.s, inst); g.log("save %s %s -> %d", x ? "instance" : "metadata", uuid.c_str(), q);
    int e = take_error();
    if (saved(h, uuid, x ? rec(*x) : rec(*m), !x)) REQUIRE(q == 0, "saving %s in mode %c fails", uuid.c_str(), h.mode);
    else { REQUIRE(q && e, "saving in mode %c%s is not refused", h.mode, h.single > 0 ? " single" : ""); g.label("save refused"); }
    REQUIRE(inst->_refcount == ref, "saving changes the reference count from %d to %d", ref, inst->_refcount);
    if (x) check_inst(*x, "after saving");
    unchanged("saving");
  }
  // ---- looking up
  // checks the result of looking up uuid where the record may be NULL
  void found(DLiteInstance *inst, const S &uuid, const Rec *r, const S &what, bool optional = false) {
    int e = take_error();
    if (InstM *x = live(uuid)) {
      REQUIRE(inst == x->inst, "%s: the instance is in memory, but %s is returned", what.c_str(), inst ? "another one" : "NULL"); REQUIRE(dlite_instance_decref(inst) == 1, "%s: reference count", what.c_str()); g.label("found in memory");
      check_inst(*x, what.c_str());
    } else if (MetaM *m = livemeta(uuid)) { REQUIRE(inst == (DLiteInstance *)m->meta, "%s: not the metadata in memory", what.c_str()); dlite_instance_decref(inst); g.label("metadata"); }
    else if (r) { if (optional && !inst) return; REQUIRE(inst, "%s: not found: %s", what.c_str(), dlite_errmsg()); adopt(inst, *r, what.c_str()); g.label("loaded"); }
    else { REQUIRE(!inst, "%s: something is found", what.c_str()); REQUIRE(e, "%s: nothing is found, but there is no error", what.c_str()); REQUIRE(!dlite_instance_has(uuid.c_str(), 0), "%s: instance is in memory after a failure", what.c_str()); dlite_errclr(); g.label("not found"); }
  }
  S someid() {
    int k = g.below(8); if (k == 0) return "unknown-" + g.ident(); 
    if (k == 1) { MetaM &m = *w.metas[g.below(w.metas.size())]; return g.flip() ? m.uri : S(m.meta->uuid); }
    S id = g.pick(ids); return g.flip() ? id : uuidof(id);
  }
  const Rec *lookup(const Recs &r, const S &uuid) { auto it = r.find(uuid); return it == r.end() ? NULL : &it->second; }
  void finish() {
    for (auto &h : handles) if (h->open) close(*h);
    w.finish();
    for (auto &f : files) unlink(f.path.c_str());
    rmdir(dir.c_str()); dlite_errclr();
  }
};
