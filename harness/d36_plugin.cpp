// flavours: asan
// D36: the library keeps its contract with storage plugins: it calls them as
// documented, undoes what was done when one of their functions fails, and
// reports the failure
#include "stores.hpp"
#include "dlite-collection.h"
extern "C" {
#include "dlite-storage-plugins.h"
}
#include <set>
#include <sys/stat.h>
#include <sys/file.h>
#include <fcntl.h>

// ------------------------------------------------------------------ faults
enum Fn { OPEN, CLOSE, FLUSH, HELP, ITERCREATE, ITERNEXT, GETUUIDS, LOAD, SAVE, DELETE, MEMLOAD, MEMSAVE, DM, DMFREE, GETMETA, GETDIM, GETPROP, SETMETA, SETDIM, SETPROP, SETNAME, NFN, NONE };
static const char *fnname[] = {"open", "close", "flush", "help", "iterCreate", "iterNext", "getUUIDs", "loadInstance", "saveInstance", "deleteInstance", "memLoadInstance", "memSaveInstance", "dataModel", "dataModelFree", "getMetaURI", "getDimensionSize", "getProperty", "setMetaURI", "setDimensionSize", "setProperty", "setDataName", "", "none"};
static struct Fault { Fn fn = NONE; int nth = 0; bool silent = false, hit = false; } F;
static S misuse;                                    // first wrong call of the plugin
static bool fails(Fn f) {
  if (F.fn != f || F.nth-- != 0) return false;
  F.hit = true; if (!F.silent) dlite_err(dliteIOError, "injected failure of %s", fnname[f]);
  return true;
}
static void wrong(const S &s) { if (misuse.empty()) misuse = s; }

// ------------------------------------------------------------------ content
struct Val {
  DLiteType t; size_t n, count; char *p;
  Val(DLiteType t_, size_t n_, size_t c, const void *src) : t(t_), n(n_), count(c), p((char *)calloc(c + 1, n_)) { for (size_t i = 0; i < c; i++) dlite_type_copy(p + i * n, (const char *)src + i * n, t, n); }
  ~Val() { for (size_t i = 0; i < count; i++) dlite_type_clear(p + i * n, t, n); free(p); }
  void get(void *dest) const { for (size_t i = 0; i < count; i++) dlite_type_copy((char *)dest + i * n, p + i * n, t, n); }
};
struct Doc { S meta, name; std::map<S, long> dims; std::map<S, std::shared_ptr<Val>> props; };
typedef std::map<S, Doc> File;
static std::map<S, File> files;
static int opened, closed, iters, models;

struct MS { DLiteStorage_HEAD S *loc; };
struct MD { DLiteDataModel_HEAD S *id, *name; };
struct MI { std::vector<S> ids; size_t at = 0; };
static std::set<const DLiteStorage *> live;
static File &file_of(const DLiteStorage *s, const char *f) { static File none; if (!live.count(s)) { wrong(fmt("%s of a storage that is not open", f)); return none = File(); } return files[*((const MS *)s)->loc]; }
static size_t count_of(size_t ndims, const size_t *shape) { size_t n = 1; for (size_t i = 0; i < ndims; i++) n *= shape[i]; return n; }
static S idof(const char *id) { char u[DLITE_UUID_LENGTH + 1]; return id && *id && dlite_get_uuid(u, id) >= 0 ? S(u) : S(); }

static DLiteStorage *m_open(const DLiteStoragePlugin *api, const char *loc, const char *opts) {
  (void)api; if (fails(OPEN)) return NULL;
  MS *s = (MS *)calloc(1, sizeof(MS)); s->loc = new S(loc); S o = opts ? opts : "";
  int fl = dliteReadable; if (o.find("mode=r") == S::npos) fl |= dliteWritable; if (o.find("generic") != S::npos) fl |= dliteGeneric;
  s->flags = (DLiteStorageFlags)fl; s->idflag = dliteIDTranslateToUUID; files[loc]; live.insert((DLiteStorage *)s); opened++;
  return (DLiteStorage *)s;
}
static int m_close(DLiteStorage *s) { file_of(s, "close"); if (live.erase(s)) { delete ((MS *)s)->loc; closed++; } return fails(CLOSE) ? 1 : 0; }
static int m_flush(DLiteStorage *s) { file_of(s, "flush"); return fails(FLUSH) ? 1 : 0; }
static char *m_help(const DLiteStoragePlugin *) { return fails(HELP) ? NULL : strdup("help"); }
static bool matches(const S &meta, const char *pattern) { return !pattern || meta == pattern; }
static void *m_itercreate(const DLiteStorage *s, const char *pattern) {
  File &f = file_of(s, "iterCreate"); if (fails(ITERCREATE)) return NULL;
  MI *i = new MI; for (auto &d : f) if (matches(d.second.meta, pattern)) i->ids.push_back(d.first);
  iters++; return i;
}
static int m_iternext(void *p, char *buf) { MI *i = (MI *)p; if (fails(ITERNEXT)) return -1; if (i->at >= i->ids.size()) return 1; strcpy(buf, i->ids[i->at++].c_str()); return 0; }
static void m_iterfree(void *p) { delete (MI *)p; iters--; }
static char **m_uuids(const DLiteStorage *s) {
  File &f = file_of(s, "getUUIDs"); if (fails(GETUUIDS)) return NULL;
  char **r = (char **)calloc(f.size() + 1, sizeof(char *)); int n = 0; for (auto &d : f) r[n++] = strdup(d.first.c_str()); return r;
}
static bool named(const DLiteInstance *i) { char u[DLITE_UUID_LENGTH + 1]; return i->uri && dlite_get_uuid(u, i->uri) == dliteIdHash && !strcmp(u, i->uuid); }   // the identity is the hash of the uri
static void take(Doc &d, const DLiteInstance *inst) {
  d = Doc(); d.meta = inst->meta->uri; if (named(inst)) d.name = inst->uri;
  for (size_t i = 0; i < inst->meta->_ndimensions; i++) d.dims[inst->meta->_dimensions[i].name] = DLITE_DIM(inst, i);
  for (size_t i = 0; i < inst->meta->_nproperties; i++) { const DLiteProperty *p = inst->meta->_properties + i; d.props[p->name] = std::make_shared<Val>(p->type, p->size, count_of(p->ndims, DLITE_PROP_DIMS(inst, i)), dlite_instance_get_property_by_index(inst, i)); }
}
static DLiteInstance *give(const S &id, const Doc &d) {
  if (DLiteInstance *i = dlite_instance_has(id.c_str(), 0)) { dlite_instance_incref(i); return i; }
  dlite_errclr();
  DLiteMeta *meta = dlite_meta_get(d.meta.c_str()); if (!meta) return NULL;
  std::vector<size_t> dims; for (size_t i = 0; i < meta->_ndimensions; i++) { auto it = d.dims.find(meta->_dimensions[i].name); dims.push_back(it == d.dims.end() ? 0 : it->second); } dims.push_back(0);
  DLiteInstance *inst = dlite_instance_create(meta, dims.data(), d.name.empty() ? id.c_str() : d.name.c_str()); dlite_meta_decref(meta); if (!inst) return NULL;
  for (auto &p : d.props) if (dlite_instance_set_property(inst, p.first.c_str(), p.second->p)) { dlite_instance_decref(inst); return NULL; }
  return inst;
}
static DLiteInstance *m_load(const DLiteStorage *s, const char *id) {
  File &f = file_of(s, "loadInstance"); if (fails(LOAD)) return NULL;
  S u = idof(id); if (u.empty() && f.size() == 1) u = f.begin()->first;
  auto it = f.find(u); if (it == f.end()) { dlite_err(dliteMissingInstanceError, "no such instance"); return NULL; }
  return give(u, it->second);
}
static int m_save(DLiteStorage *s, const DLiteInstance *inst) { File &f = file_of(s, "saveInstance"); if (fails(SAVE)) return 1; take(f[inst->uuid], inst); return 0; }
static int m_delete(DLiteStorage *s, const char *id) { File &f = file_of(s, "deleteInstance"); if (fails(DELETE)) return 1; if (f.erase(idof(id))) return 0; return dlite_err(dliteMissingInstanceError, "no such instance"); }
static File memory;
static size_t padding;
static int m_memsave(const DLiteStoragePlugin *, unsigned char *buf, size_t size, const DLiteInstance *inst, const char *) {
  if (fails(MEMSAVE)) return -1;
  take(memory[inst->uuid], inst); S t = S(inst->uuid) + S(padding, '.'); if (buf && size) memcpy(buf, t.data(), t.size() < size ? t.size() : size); return (int)t.size();
}
static DLiteInstance *m_memload(const DLiteStoragePlugin *, const unsigned char *buf, size_t size, const char *id, const char *) {
  if (fails(MEMLOAD)) return NULL;
  S t((const char *)buf, size); if (size != 36 + padding || t.substr(36) != S(padding, '.') || !memory.count(t.substr(0, 36)) || (id && idof(id) != t.substr(0, 36))) { dlite_err(dliteValueError, "no instance"); return NULL; }
  return give(t.substr(0, 36), memory[t.substr(0, 36)]);
}
// datamodels
static DLiteDataModel *m_dm(const DLiteStorage *s, const char *id) {
  File &f = file_of(s, "dataModel"); if (fails(DM)) return NULL; S u = idof(id);
  if (!f.count(u) && !(s->flags & dliteWritable)) { dlite_err(dliteMissingInstanceError, "no such instance"); return NULL; }
  MD *d = (MD *)calloc(1, sizeof(MD)); d->id = new S(u); d->name = new S(); models++; return (DLiteDataModel *)d;
}
static Doc *docof(const DLiteDataModel *d, const char *fn) { File &f = file_of(d->s, fn); auto it = f.find(*((const MD *)d)->id); if (it != f.end()) return &it->second; dlite_err(dliteMissingInstanceError, "no such instance"); return NULL; }
static int m_dmfree(DLiteDataModel *d) { file_of(d->s, "dataModelFree"); models--; delete ((MD *)d)->id; delete ((MD *)d)->name; return fails(DMFREE) ? 1 : 0; }
static char *m_getmeta(const DLiteDataModel *d) { Doc *x = docof(d, "getMetaURI"); return !x || fails(GETMETA) ? NULL : strdup(x->meta.c_str()); }
static int m_getdim(const DLiteDataModel *d, const char *name) { Doc *x = docof(d, "getDimensionSize"); if (!x || fails(GETDIM)) return -1; auto it = x->dims.find(name); return it == x->dims.end() ? dlite_err(-1, "no dimension %s", name) : it->second; }
static int m_getprop(const DLiteDataModel *d, const char *name, void *ptr, DLiteType t, size_t size, size_t nd, const size_t *shape) {
  Doc *x = docof(d, "getProperty"); if (!x) return 1; auto it = x->props.find(name); if (it == x->props.end()) return dlite_err(1, "no property %s", name);
  const Val &v = *it->second; if (v.t != t || v.n != size || v.count != count_of(nd, shape)) wrong(fmt("getProperty %s: %zu elements of size %zu, expected %zu of size %zu", name, count_of(nd, shape), size, v.count, v.n));
  else if (F.fn == GETPROP && F.nth == 0 && v.count > 1) { for (size_t i = 0; i < v.count / 2; i++) dlite_type_copy((char *)ptr + i * v.n, v.p + i * v.n, v.t, v.n); }   // fails half-way
  else if (F.fn != GETPROP || F.nth != 0) v.get(ptr);
  return fails(GETPROP) ? 1 : 0;
}
static int m_setmeta(DLiteDataModel *d, const char *uri) { File &f = file_of(d->s, "setMetaURI"); if (fails(SETMETA)) return 1; Doc &x = f[*((MD *)d)->id]; x = Doc(); x.name = *((MD *)d)->name; x.meta = uri; return 0; }
static int m_setdim(DLiteDataModel *d, const char *name, size_t n) { Doc *x = docof(d, "setDimensionSize"); if (!x || fails(SETDIM)) return 1; x->dims[name] = n; return 0; }
static int m_setprop(DLiteDataModel *d, const char *name, const void *ptr, DLiteType t, size_t size, size_t nd, const size_t *shape) { Doc *x = docof(d, "setProperty"); if (!x || fails(SETPROP)) return 1; x->props[name] = std::make_shared<Val>(t, size, count_of(nd, shape), ptr); return 0; }
static char *m_getname(const DLiteDataModel *d) { Doc *x = docof(d, "getDataName"); return x && !x->name.empty() ? strdup(x->name.c_str()) : NULL; }
static int m_setname(DLiteDataModel *d, const char *name) { file_of(d->s, "setDataName"); if (fails(SETNAME)) return 1; *((MD *)d)->name = name; return 0; }   // nothing is stored before the metadata is known

static DLiteStoragePlugin INST, DATA, BARE;         // instance API, datamodel API, neither
static const DLiteStoragePlugin *apis[] = {&INST, &DATA, &BARE};
extern "C" const void *d36_api(int *iter) { const void *p = apis[*iter]; if (*iter < 2) (*iter)++; return p; }
static void fill() {
  INST.name = (char *)"zzinst"; INST.open = m_open; INST.close = m_close; INST.flush = m_flush; INST.help = m_help; INST.iterCreate = m_itercreate; INST.iterNext = m_iternext; INST.iterFree = m_iterfree;
  INST.loadInstance = m_load; INST.saveInstance = m_save; INST.deleteInstance = m_delete; INST.memLoadInstance = m_memload; INST.memSaveInstance = m_memsave;
  DATA.name = (char *)"zzdata"; DATA.open = m_open; DATA.close = m_close; DATA.flush = m_flush; DATA.getUUIDs = m_uuids; DATA.dataModel = m_dm; DATA.dataModelFree = m_dmfree; DATA.getMetaURI = m_getmeta; DATA.getDimensionSize = m_getdim; DATA.getProperty = m_getprop;
  DATA.setMetaURI = m_setmeta; DATA.setDimensionSize = m_setdim; DATA.setProperty = m_setprop; DATA.getDataName = m_getname; DATA.setDataName = m_setname;
  BARE.name = (char *)"zzbare"; BARE.open = m_open; BARE.close = m_close;
}
// a shared library that hands out the plugins above
static S stub() {
  const char *t = getenv("VERIF_SCRATCH"); S dir = fmt("%s/d36-plugins", t ? t : "/tmp"), so = dir + "/libzz36.so", lock = dir + ".lock";
  int fd = open(lock.c_str(), O_CREAT | O_RDWR, 0600); flock(fd, LOCK_EX);
  if (access(so.c_str(), R_OK)) {
    mkdir(dir.c_str(), 0700); FILE *f = fopen((dir + ".c").c_str(), "w");
    fprintf(f, "#include <stdio.h>\n#include <stdlib.h>\nconst void *get_dlite_storage_plugin_api(void *g, int *iter) { void *p = 0; const char *e = getenv(\"D36_API\"); (void)g; if (!e || sscanf(e, \"%%p\", &p) != 1) return 0; return ((const void *(*)(int *))p)(iter); }\n"); fclose(f);
    if (system(fmt("gcc -shared -fPIC -o '%s.tmp' '%s.c' && mv '%s.tmp' '%s'", so.c_str(), dir.c_str(), so.c_str(), so.c_str()).c_str())) fprintf(stderr, "cannot compile the plugin\n");
  }
  flock(fd, LOCK_UN); close(fd); return dir;
}
static void init() {
  dlite_err_set_stream(NULL); world_finite = true; fill(); setenv("D36_API", fmt("%p", (void *)d36_api).c_str(), 1);
  for (const char **p; (p = dlite_storage_paths_get()) && p[0];) dlite_storage_paths_remove_index(0);
  for (const char **p; (p = dlite_storage_plugin_paths()) && p[0];) dlite_storage_plugin_path_remove_index(0);
  dlite_storage_plugin_path_append(stub().c_str());
  dlite_storage_plugin_get("zzinst"); dlite_instance_get("warm-up"); dlite_errclr();
}

// ------------------------------------------------------------------ history
struct Snap { InstM x; S uri; };
struct Handle { DLiteStorage *s; int api; S loc; bool writable, generic; };
struct Hist {
  Gen &g; World w; std::map<S, std::map<S, Snap>> model; std::vector<Handle> hs; int nops = 0, nfault = 0;
  Hist(Gen &g_) : g(g_), w(g_) { files.clear(); memory.clear(); live.clear(); opened = closed = iters = models = 0; misuse.clear(); F = Fault(); }
  void arm(const std::vector<Fn> &fns, int maxn = 4) {
    F = Fault(); if (fns.empty() || g.chance(1, 2)) return;
    F.fn = fns[g.below(fns.size())]; F.nth = g.chance(2, 3) ? 0 : g.below(maxn); F.silent = g.chance(1, 4); g.log("  %s number %d fails%s", fnname[F.fn], F.nth, F.silent ? " without an error message" : "");
  }
  // the outcome of an operation that the plugin can spoil
  bool outcome(bool failed, const char *what) {
    bool hit = F.hit, silent = F.silent; Fn fn = F.fn; F = Fault(); int e = take_error();
    REQUIRE(misuse.empty(), "%s: %s", what, misuse.c_str());
    if (hit) { nfault++; g.label(fmt("%s: %s fails", what, fnname[fn])); REQUIRE(failed, "%s succeeds although %s failed", what, fnname[fn]); if (!silent) REQUIRE(e, "%s: no error although %s failed", what, fnname[fn]); }
    else { REQUIRE(!failed, "%s fails (error %d)", what, e); REQUIRE(!e, "%s succeeds but leaves error %d", what, e); g.label(what); }
    REQUIRE(!models, "%s: %d datamodels were not freed", what, models);
    return !hit;
  }
  void balance(const char *what, int niter = 0) {
    REQUIRE(opened - closed == (int)hs.size() && live.size() == hs.size(), "%s: %d storages are open, expected %zu", what, opened - closed, hs.size());
    REQUIRE(iters == niter, "%s: %d iterators exist, expected %d", what, iters, niter);
    for (auto &x : w.insts) if (x->inst) REQUIRE(x->inst->_refcount == 1, "%s: reference count of %s is %d", what, x->uuid.c_str(), x->inst->_refcount);
  }
  Snap snap(const InstM &x) { Snap s; s.x = x; s.uri = named(x.inst) ? x.inst->uri : ""; s.x.inst = NULL; return s; }
  S url(int api, const S &loc, const char *mode, const S &id = "") { return fmt("%s://%s?mode=%s%s%s", apis[api]->name, loc.c_str(), mode, id.empty() ? "" : "#", id.c_str()); }
  InstM *inmem(const S &u) { for (auto &x : w.insts) if (x->inst && x->uuid == u) return x.get(); return NULL; }
  // compares what was loaded, which is released unless it is kept
  void loaded(DLiteInstance *inst, const S &u, const Snap *s, const char *what) {
    InstM *x = inmem(u);
    if (x) { REQUIRE(inst == x->inst, "%s: another instance than the one in memory", what); REQUIRE(inst->_refcount == 2, "%s: reference count is %d", what, inst->_refcount); dlite_instance_decref(inst); return; }
    Snap k = *s; k.x.inst = inst; REQUIRE(inst->_refcount == 1, "%s: reference count of a new instance is %d", what, inst->_refcount);
    check_inst(k.x, what); if (!k.uri.empty()) REQUIRE(inst->uri && k.uri == inst->uri, "%s: uri is %s, expected %s", what, show(inst->uri).c_str(), k.uri.c_str());
    if (g.flip()) { w.insts.emplace_back(new InstM(k.x)); g.log("  kept"); }
    else { dlite_instance_decref(inst); REQUIRE(!dlite_instance_has(u.c_str(), 0), "%s: the instance is still in memory", what); }
    dlite_errclr();
  }
  static std::vector<Fn> savefns(int api) { return api ? std::vector<Fn>{DM, SETMETA, SETDIM, SETPROP, SETPROP, DMFREE, SETNAME} : std::vector<Fn>{SAVE}; }
  static std::vector<Fn> loadfns(int api) { return api ? std::vector<Fn>{DM, GETMETA, GETDIM, GETPROP, GETPROP} : std::vector<Fn>{LOAD}; }
  S pickloc() { return g.pick(std::vector<S>{"p", "q"}); }
  void forget(const S &loc, const S &u) { files[loc].erase(u); model[loc].erase(u); }   // what a failed save left
  void step() {
    nops++;
    int op = g.weighted({5, 3, 3, 12, 5, 12, 6, 4, 6, 3, 3, 5, 6, 6, 3, 4});
    Handle *h = hs.empty() ? NULL : &hs[g.below(hs.size())];
    if (!h && (op == 2 || op == 3 || op == 5 || (op >= 7 && op <= 9) || op == 14)) op = 1;
    switch (op) {
    case 0: {   // create
      int mi = g.below(w.metas.size()); auto d = gen_dims(g, *w.metas[mi]); if (dims_status(*w.metas[mi], d) != 1) return;
      S id = g.flip() ? S() : fmt("zz:d36-%s-%d", g.ident().c_str(), nops); InstM *x = w.create(mi, d, id.empty() ? NULL : id.c_str());
      for (size_t j = 0; x && j < x->vals.size(); j++) if (g.flip()) w.set_random(*x, j);
      break; }
    case 1: {   // open
      if (hs.size() >= 4) return;
      Handle n; n.api = g.below(3); n.loc = pickloc(); n.writable = g.chance(3, 4); n.generic = g.chance(1, 3); S o = S(n.writable ? "mode=w" : "mode=r") + (n.generic ? ";generic=1" : ""); bool byurl = g.flip();
      g.log("open %s %s %s", apis[n.api]->name, n.loc.c_str(), o.c_str()); arm({OPEN});
      n.s = byurl ? dlite_storage_open_url(fmt("%s://%s?%s", apis[n.api]->name, n.loc.c_str(), o.c_str()).c_str()) : dlite_storage_open(apis[n.api]->name, n.loc.c_str(), o.c_str());
      if (outcome(!n.s, "open")) { hs.push_back(n); REQUIRE(!!dlite_storage_is_writable(n.s) == n.writable && S(dlite_storage_get_driver(n.s)) == apis[n.api]->name, "properties of an open storage"); }
      break; }
    case 2: {   // close, possibly while an iterator exists
      bool it = h->api == 0 && g.chance(1, 3); void *iter = NULL; std::set<S> got; DLiteStorage *s = h->s; S loc = h->loc; int api = h->api;
      if (it) { iter = dlite_storage_iter_create(s, NULL); REQUIRE(iter, "no iterator"); }
      g.log("close%s", it ? " before its iterator" : ""); hs.erase(hs.begin() + (h - &hs[0])); arm(api == 2 ? std::vector<Fn>{CLOSE} : it ? std::vector<Fn>{FLUSH} : std::vector<Fn>{FLUSH, CLOSE}, 1);
      int r = dlite_storage_close(s); outcome(r != 0, "close");
      if (it) {
        REQUIRE(live.count(s), "the storage of an iterator was closed"); char b[DLITE_UUID_LENGTH + 1]; while (!dlite_storage_iter_next(s, iter, b)) got.insert(b);
        std::set<S> want; for (auto &m : model[loc]) want.insert(m.first); REQUIRE(got == want, "iterator gives %zu of %zu instances", got.size(), want.size());
        dlite_storage_iter_free(s, iter); dlite_errclr();
      }
      break; }
    case 3: {   // save
      InstM *x = w.pick(); if (!x || !h->writable) return;
      if (h->api == 2) { REQUIRE(dlite_instance_save(h->s, x->inst) && take_error(), "saving with a driver that cannot"); break; }
      g.log("save %s to %s %s", x->uuid.c_str(), apis[h->api]->name, h->loc.c_str()); arm(savefns(h->api)); int r = dlite_instance_save(h->s, x->inst);
      if (outcome(r != 0, "save")) model[h->loc][x->uuid] = snap(*x); else forget(h->loc, x->uuid);
      break; }
    case 4: {   // save to a location
      InstM *x = w.pick(); int api = g.below(2); S loc = pickloc(); if (!x) return; auto fns = savefns(api); fns.insert(fns.end(), {OPEN, FLUSH, CLOSE}); bool byurl = g.flip();
      g.log("save %s to %s://%s", x->uuid.c_str(), apis[api]->name, loc.c_str()); arm(fns); Fn fn = F.fn;
      int r = byurl ? dlite_instance_save_url(url(api, loc, "w").c_str(), x->inst) : dlite_instance_save_loc(apis[api]->name, loc.c_str(), "mode=w", x->inst);
      if (outcome(r != 0, "save to a location")) model[loc][x->uuid] = snap(*x); else if (fn != OPEN) forget(loc, x->uuid);
      break; }
    case 5: case 6: {   // load
      int api = op == 5 ? h->api : g.below(2); S loc = op == 5 ? h->loc : pickloc(); if (api == 2) { REQUIRE(!dlite_instance_load(h->s, "zz:d36-never") && take_error(), "loading with a driver that cannot"); return; }
      auto &m = model[loc]; bool absent = m.empty() || g.chance(1, 6); S u; const Snap *s = NULL; Snap keep;
      if (absent) { u = "01234567-89ab-4def-8123-456789abcdef"; if (m.count(u) || (op == 5 && h->writable && api == 1)) return; }
      else { auto it = m.begin(); std::advance(it, g.below(m.size())); u = it->first; keep = it->second; s = &keep; if (InstM *x = inmem(u)) if (g.chance(2, 3)) w.release(*x); }
      bool mem = inmem(u); S id = s && !s->uri.empty() && g.flip() ? s->uri : u; auto fns = mem ? std::vector<Fn>{} : loadfns(api); if (op == 6) fns = {OPEN}; if (op == 6 && !mem) for (Fn f : loadfns(api)) fns.push_back(f);
      S metaid; if (!absent && g.chance(1, 4)) metaid = keep.x.m->uri; int how = g.below(3); bool noid = !absent && m.size() == 1 && g.flip(); const char *idp = noid ? NULL : id.c_str(); if (noid && mem) fns.clear();
      if (op == 6 && mem && how != 2) fns.clear();
      g.log("load %s from %s %s%s%s", noid ? "(no id)" : id.c_str(), apis[api]->name, loc.c_str(), mem ? " (in memory)" : "", absent ? " (absent)" : ""); arm(absent ? std::vector<Fn>{} : fns, 3); DLiteInstance *i;
      if (op == 5) i = metaid.empty() ? dlite_instance_load(h->s, idp) : dlite_instance_load_casted(h->s, idp, metaid.c_str());
      else if (how == 0) i = dlite_instance_load_url(url(api, loc, "r", noid ? S() : id).c_str());
      else if (how == 1) i = dlite_instance_load_loc(apis[api]->name, loc.c_str(), "mode=r", idp);
      else { DLiteStorage *t = dlite_storage_open(apis[api]->name, loc.c_str(), "mode=r"); i = t ? dlite_instance_load(t, idp) : NULL; if (t) dlite_storage_close(t); }
      if (absent) { REQUIRE(!i, "an instance that is not in the storage was loaded"); int e = take_error(); REQUIRE(e, "no error for an instance that is not in the storage"); REQUIRE(misuse.empty() && !models, "load of an absent instance: %s, %d datamodels", misuse.c_str(), models); g.label("load absent"); break; }
      if (outcome(!i, "load")) loaded(i, u, s, "load");
      else { REQUIRE(mem || !dlite_instance_has(u.c_str(), 0), "an instance that could not be loaded is in memory"); dlite_errclr(); }
      break; }
    case 7: {   // delete
      auto &m = model[h->loc]; if (m.empty() || !h->writable) return; auto it = m.begin(); std::advance(it, g.below(m.size())); S u = it->first; g.log("delete %s from %s %s", u.c_str(), apis[h->api]->name, h->loc.c_str());
      if (h->api) { int r = dlite_storage_delete(h->s, u.c_str()); REQUIRE(r && take_error() == dliteUnsupportedError, "deleting with a driver that cannot"); break; }
      arm({DELETE}, 1); int r = dlite_storage_delete(h->s, it->second.uri.empty() ? u.c_str() : it->second.uri.c_str()); if (outcome(r != 0, "delete")) m.erase(u);
      break; }
    case 8: {   // uuids
      S pat = g.chance(1, 3) ? w.metas[g.below(w.metas.size())]->uri : S(); std::set<S> want, got; for (auto &m : model[h->loc]) if (pat.empty() || m.second.x.m->uri == pat) want.insert(m.first);
      g.log("uuids of %s %s pattern %s", apis[h->api]->name, h->loc.c_str(), pat.c_str()); arm(h->api == 2 ? std::vector<Fn>{} : h->api ? std::vector<Fn>{GETUUIDS} : std::vector<Fn>{ITERCREATE, ITERNEXT}, want.size() + 1);
      if (F.fn == GETUUIDS || F.fn == ITERCREATE) F.nth = 0;
      char **r = dlite_storage_uuids(h->s, pat.empty() ? NULL : pat.c_str());
      if (h->api == 2) { REQUIRE(!r && take_error(), "uuids of a driver that cannot tell"); break; }
      if (r) { size_t n = 0; for (char **p = r; *p; p++, n++) got.insert(*p); REQUIRE(n == got.size(), "the same uuid twice"); dlite_storage_uuids_free(r); }
      bool failed = !r && (F.hit || !want.empty()); if (outcome(failed, "uuids")) REQUIRE(got == want, "%zu uuids, expected %zu", got.size(), want.size());
      break; }
    case 9: {   // iterate
      if (h->api) { void *i = dlite_storage_iter_create(h->s, NULL); REQUIRE(!i && take_error() == dliteUnsupportedError, "an iterator from a driver that cannot"); break; }
      S pat = g.chance(1, 3) ? w.metas[g.below(w.metas.size())]->uri : S(); std::set<S> want, got; for (auto &m : model[h->loc]) if (pat.empty() || m.second.x.m->uri == pat) want.insert(m.first);
      g.log("iterate over %s", h->loc.c_str()); arm({ITERCREATE, ITERNEXT}, want.size() + 1); if (F.fn == ITERCREATE) F.nth = 0;
      void *i = dlite_storage_iter_create(h->s, pat.empty() ? NULL : pat.c_str()); int r = -1; char b[DLITE_UUID_LENGTH + 1];
      if (i) { REQUIRE(h->s->refcount == 2, "the iterator holds no reference to its storage"); while ((r = dlite_storage_iter_next(h->s, i, b)) == 0) got.insert(b); dlite_storage_iter_free(h->s, i); }
      if (outcome(r != 1, "iterate")) REQUIRE(got == want, "%zu instances, expected %zu", got.size(), want.size());
      break; }
    case 10: {  // flush
      if (!h) return;
      g.log("flush"); if (h->api == 2) { REQUIRE(dlite_storage_flush(h->s) && take_error() == dliteUnsupportedError, "flushing with a driver that cannot"); break; }
      arm({FLUSH}, 1); int r = dlite_storage_flush(h->s); outcome(r != 0, "flush");
      break; }
    case 11: {  // memory
      InstM *x = w.pick(); if (!x) return; padding = g.size(100); size_t want = 36 + padding; S u = x->uuid;
      if (g.chance(1, 6)) { REQUIRE(!dlite_instance_to_memory("zzdata", x->inst, NULL) && take_error() == dliteUnsupportedError, "to memory with a driver that cannot"); break; }
      S t; g.log("%s to memory", u.c_str()); arm({MEMSAVE}, 2); bool alloc = g.flip(); Snap s = snap(*x);
      if (alloc) { unsigned char *p = dlite_instance_to_memory("zzinst", x->inst, NULL); if (p) { t = S((char *)p); free(p); } if (!outcome(!p, "to memory")) break; }
      else { F.nth = 0; size_t n = g.below(want + 20); unsigned char *p = (unsigned char *)malloc(n + 1); int r = dlite_instance_memsave("zzinst", p, n, x->inst, NULL); if (r >= 0 && (size_t)r <= n) t = S((char *)p, r); free(p); if (!outcome(r < 0, "memsave")) break; REQUIRE(r == (int)want, "memsave returns %d, expected %zu", r, want); if (n < want) break; }
      REQUIRE(t == u + S(padding, '.'), "content of the memory is %s", show(t).c_str());
      w.release(*x); bool withid = g.flip(); S metaid = g.chance(1, 3) ? s.x.m->uri : S(); arm({MEMLOAD}, 1);
      DLiteInstance *i = dlite_instance_memload("zzinst", (const unsigned char *)t.data(), t.size(), withid ? u.c_str() : NULL, NULL, metaid.empty() ? NULL : metaid.c_str());
      if (outcome(!i, "memload")) loaded(i, u, &s, "memload");
      break; }
    case 12: case 13: {   // collections
      std::vector<InstM *> ms; for (auto &x : w.insts) if (x->inst && ms.size() < 4 && g.flip()) ms.push_back(x.get()); int api = g.below(2); S loc = "c"; files[loc].clear(); bool nest = g.chance(1, 3), byurl = g.flip();
      S id = fmt("zz:d36-coll-%s-%d", g.ident().c_str(), nops), nid = id + "-inner"; S cu = idof(id.c_str()), nu = idof(nid.c_str());
      DLiteCollection *c = dlite_collection_create(id.c_str()), *in = nest ? dlite_collection_create(nid.c_str()) : NULL; REQUIRE(c && (in || !nest), "cannot create a collection");
      std::map<S, S> lab, inlab; for (size_t k = 0; k < ms.size(); k++) { bool inner = nest && g.flip(); S l = fmt("m%zu", k); REQUIRE(!dlite_collection_add(inner ? in : c, l.c_str(), ms[k]->inst), "cannot add"); (inner ? inlab : lab)[l] = ms[k]->uuid; }
      S first = g.flip() ? "a" : "z"; if (nest) { REQUIRE(!dlite_collection_add(c, (first + "in").c_str(), (DLiteInstance *)in), "cannot add"); lab[first + "in"] = nu; }
      auto fns = savefns(api); if (byurl) fns.insert(fns.end(), {OPEN, FLUSH, CLOSE}); g.log("save collection of %zu%s with %s", ms.size(), nest ? " and a collection" : "", apis[api]->name); arm(fns, 5);
      int r = 1; DLiteStorage *s = NULL;
      if (byurl) r = dlite_collection_save_url(c, url(api, loc, "w;generic=1").c_str()); else { s = dlite_storage_open(apis[api]->name, loc.c_str(), "mode=w;generic=1"); REQUIRE(s, "cannot open"); r = dlite_collection_save(c, s); }
      bool ok = outcome(r != 0, "save collection"); if (s) dlite_storage_close(s);
      std::map<S, Snap> snaps; for (auto *x : ms) snaps[x->uuid] = snap(*x);
      auto same = [&](DLiteCollection *k, const std::map<S, S> &want, const char *what) { REQUIRE(dlite_collection_count(k) == (int)want.size(), "%s: %d instances, expected %zu", what, dlite_collection_count(k), want.size()); for (auto &l : want) { const DLiteInstance *i = dlite_collection_get(k, l.first.c_str()); REQUIRE(i && l.second == i->uuid, "%s: item %s", what, l.first.c_str()); } };
      same(c, lab, "collection after saving"); if (in) same(in, inlab, "nested collection after saving");
      dlite_collection_decref(c); if (in) dlite_collection_decref(in); REQUIRE(!dlite_instance_has(cu.c_str(), 0) && (!nest || !dlite_instance_has(nu.c_str(), 0)), "the collection is still in memory"); dlite_errclr();
      if (!ok) break;
      std::set<S> want = {cu}; if (nest) want.insert(nu); for (auto *x : ms) want.insert(x->uuid); for (auto &u : want) REQUIRE(files[loc].count(u), "%s was not saved with the collection", u.c_str());
      bool others = false; for (auto &q : hs) if (q.generic) others = true;
      std::vector<S> gone; for (auto *x : ms) if (!others && g.flip()) { gone.push_back(x->uuid); w.release(*x); }
      int lapi = g.chance(1, 3) ? 1 - api : api; auto lf = others ? std::vector<Fn>{} : loadfns(lapi); g.log("load the collection with %s", apis[lapi]->name); if (byurl) lf.push_back(OPEN); arm(lf, 4);
      DLiteCollection *k; if (byurl) k = dlite_collection_load_url(url(lapi, loc, "r;generic=1", id).c_str(), 0); else { s = dlite_storage_open(apis[lapi]->name, loc.c_str(), "mode=r;generic=1"); REQUIRE(s, "cannot open"); k = dlite_collection_load(s, id.c_str(), 0); dlite_storage_close(s); }
      if (outcome(!k, "load collection")) {
        same(k, lab, "loaded collection"); for (auto &u : gone) { DLiteInstance *i = dlite_instance_has(u.c_str(), 0); REQUIRE(i, "a member was not loaded"); Snap q = snaps[u]; q.x.inst = i; check_inst(q.x, "member of a loaded collection"); }
        if (nest) same((DLiteCollection *)dlite_instance_has(nu.c_str(), 0), inlab, "loaded nested collection"); dlite_collection_decref(k);
      }
      for (auto &u : gone) REQUIRE(!dlite_instance_has(u.c_str(), 0), "a member of a loaded collection outlives it"); REQUIRE(!dlite_instance_has(cu.c_str(), 0) && !dlite_instance_has(nu.c_str(), 0), "a loaded collection is still in memory"); dlite_errclr();
      break; }
    case 14: {  // help
      g.log("help"); if (h->api) { REQUIRE(!dlite_storage_help(h->s) && take_error() == dliteUnsupportedError, "help of a driver that has none"); break; }
      arm({HELP}, 1); char *t = dlite_storage_help(h->s); S text = t ? t : ""; free(t); if (outcome(text.empty(), "help")) REQUIRE(text == "help", "help text");
      break; }
    case 15: {  // look-up in the open storages
      S u; Snap s; bool there = false; for (auto &f : model) for (auto &m : f.second) if (!inmem(m.first) && g.flip()) { u = m.first; s = m.second; }
      if (u.empty()) return;
      std::vector<Snap> cand; for (auto &k : hs) if (k.generic && k.api < 2 && model[k.loc].count(u)) cand.push_back(model[k.loc][u]); for (auto &k : hs) if (k.generic) there = true;
      bool bad = false; for (auto &k : hs) if (k.generic && k.api == 2) bad = true;
      g.log("look up %s, in %zu open storages", u.c_str(), cand.size()); arm({}); DLiteInstance *i = dlite_instance_get(u.c_str()); int e = take_error(); REQUIRE(misuse.empty() && !models, "look-up: %s, %d datamodels", misuse.c_str(), models); (void)e; (void)there; (void)bad;
      if (cand.empty()) { REQUIRE(!i, "an instance that is in no open storage was found"); break; }
      g.label("look up"); REQUIRE(i, "an instance in an open storage was not found");
      if (cand.size() == 1) loaded(i, u, &cand[0], "look-up"); else { dlite_instance_decref(i); dlite_errclr(); }
      break; }
    }
    balance("after the operation"); w.check("after the operation");
  }
  void finish() {
    for (auto &h : hs) dlite_storage_close(h.s);
    hs.clear(); balance("at the end"); dlite_errclr(); w.finish(); files.clear(); memory.clear(); model.clear();
  }
};

PBT(D36, history, 6000, 600000, 20, "a function of the plugin fails during an operation") {
  Hist h(g); MetaOpt o; o.maxprops = 4; o.types = 0; h.w.init(g.range(1, 2), o);
  int n = g.range(3, g.tier ? 40 : 25); for (int i = 0; i < n; i++) h.step();
  if (h.nfault) g.nontrivial();
  h.finish();
}

// metadata that is only in the storage
PBT(D36, metadata, 2000, 200000, 20, "the metadata is loaded from the storage together with its instance") {
  files.clear(); memory.clear(); live.clear(); opened = closed = iters = models = 0; misuse.clear(); F = Fault();
  MetaOpt o; o.maxprops = 4; o.types = 0; MetaM m = gen_meta(g, o); m.meta = create_meta(m); REQUIRE(m.meta, "cannot create metadata"); g.log("meta: %s", showmeta(m).c_str());
  auto d = gen_dims(g, m); if (dims_status(m, d) != 1) d.assign(d.size(), 0); S mu = m.meta->uuid;
  bool ok = dims_status(m, d) == 1;
  if (ok) {
    InstM x; x.m = &m; x.dims = d; x.inst = create_inst(m, d, NULL); REQUIRE(x.inst, "cannot create an instance"); x.uuid = x.inst->uuid; zero_vals(x);
    for (size_t j = 0; j < x.vals.size(); j++) { std::vector<Elem> v; for (size_t i = 0; i < x.vals[j].size(); i++) v.push_back(gen_value(g, m.props[j].t)); PropBuf b(x, j, v, [](const S &) { return (DLiteInstance *)NULL; }); REQUIRE(!dlite_instance_set_property_by_index(x.inst, j, b.p), "cannot set"); x.vals[j] = v; }
    DLiteStorage *s = dlite_storage_open("zzdata", "m", "mode=w"); REQUIRE(s, "cannot open"); bool meta = g.chance(5, 6);
    if (meta) REQUIRE(!dlite_instance_save(s, (DLiteInstance *)m.meta), "cannot save metadata: %s", dlite_errmsg());
    REQUIRE(!dlite_instance_save(s, x.inst), "cannot save: %s", dlite_errmsg());
    dlite_instance_decref(x.inst); x.inst = NULL; dlite_meta_decref(m.meta); dlite_meta_decref(m.meta); REQUIRE(!dlite_instance_has(mu.c_str(), 0), "the metadata is still in memory"); dlite_errclr();
    bool loadmeta = false;
    for (int tries = 0; tries < 3; tries++) {
      F = Fault(); if (tries < 2 && g.flip()) { F.fn = g.pick(std::vector<Fn>{DM, GETMETA, GETDIM, GETPROP}); F.nth = g.below(12); F.silent = g.chance(1, 4); g.log("%s number %d fails", fnname[F.fn], F.nth); }
      DLiteInstance *i = dlite_instance_load(s, x.uuid.c_str()); bool hit = F.hit; Fn fn = F.fn; F = Fault(); int e = take_error(); REQUIRE(misuse.empty(), "%s", misuse.c_str());
      if (hit || !meta) { REQUIRE(!i, "loaded although %s", hit ? fnname[fn] : "there is no metadata"); REQUIRE(e, "not loaded, but no error"); if (hit) g.label(fmt("%s fails", fnname[fn])); }
      else {
        REQUIRE(i, "cannot load the instance (error %d)", e); REQUIRE(!e, "loaded with error %d", e); loadmeta = true;
        m.meta = (DLiteMeta *)i->meta; x.inst = i; check_meta(i->meta, m, "metadata from the storage"); check_inst(x, "instance from the storage");
        REQUIRE(i->_refcount == 1, "reference count of the instance is %d", i->_refcount); REQUIRE(i->meta->_refcount == 2, "reference count of the metadata is %d", i->meta->_refcount); dlite_instance_decref(i);
      }
      REQUIRE(!models, "%d datamodels were not freed", models); REQUIRE(!dlite_instance_has(x.uuid.c_str(), 0), "the instance is in memory");
      DLiteInstance *mi = dlite_instance_has(mu.c_str(), 0);
      if (mi) { REQUIRE(mi->_refcount == 1, "reference count of the metadata is %d when nothing uses it", mi->_refcount); if (g.flip()) { dlite_instance_decref(mi); REQUIRE(!dlite_instance_has(mu.c_str(), 0), "the metadata is still in memory"); } }
      dlite_errclr();
    }
    if (loadmeta) g.nontrivial();
    if (DLiteInstance *mi = dlite_instance_has(mu.c_str(), 0)) dlite_instance_decref(mi);
    dlite_errclr(); dlite_storage_close(s); REQUIRE(opened == closed, "storages left open"); files.clear();
  } else { dlite_meta_decref(m.meta); dlite_meta_decref(m.meta); }
  if (!ok) throw Discard{};
}

int main(int argc, char **argv) { child_init = init; return pbt::run_main(argc, argv); }
