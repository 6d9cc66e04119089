// flavours: asan builtin
// D33: a save that cannot be completed is reported, and changes nothing in memory
#include "stores.hpp"
#include "dlite-collection.h"
#include "dlite-json.h"
#include <sys/resource.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <signal.h>
extern "C" {
#include "utils/jstore.h"
}
static void init() {
  dlite_err_set_stream(NULL); world_finite = true; signal(SIGXFSZ, SIG_IGN);
  for (const char **p; (p = dlite_storage_paths_get()) && p[0];) dlite_storage_paths_remove_index(0);
  dlite_instance_get("warm-up"); dlite_errclr();
}
static S scratch(const S &name) { const char *d = getenv("VERIF_SCRATCH"); return fmt("%s/d33-%d-%s", d ? d : "/tmp", (int)getpid(), name.c_str()); }
static bool content(const S &path, S &out) {
  FILE *f = fopen(path.c_str(), "rb"); out.clear(); if (!f) return false;
  char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) out.append(b, n);
  fclose(f); return true;
}
static void put(const S &path, const S &text) { FILE *f = fopen(path.c_str(), "wb"); if (!f || fwrite(text.data(), 1, text.size(), f) != text.size() || fclose(f)) throw Discard{}; }

// Files cannot become longer than n bytes (n < 0: no limit) while this exists
struct Limit {
  rlimit old; bool on;
  Limit(long n) : on(n >= 0) { if (on) { getrlimit(RLIMIT_FSIZE, &old); rlimit r = old; r.rlim_cur = n; setrlimit(RLIMIT_FSIZE, &r); } }
  ~Limit() { if (on) setrlimit(RLIMIT_FSIZE, &old); }
};

enum How { STORAGE, SAVELOC, SAVEURL, COLLSAVE, COLLURL, PRINTFILE, JSTORE, RDFFILE, NHOW };
static const char *hownames[] = {"storage", "save_loc", "save_url", "collection_save", "collection_save_url", "printfile", "jstore_to_file", "rdf"};

struct Job {
  std::vector<DLiteInstance *> insts; DLiteCollection *coll = NULL; How how; char mode; S opts; bool extraref = false;
  // saves to `path`; returns whether something was reported
  bool run(const S &path, long limit, int &code) {
    bool bad = false; S o = fmt("mode=%c%s", mode, opts.c_str());
    dlite_errclr();
    switch (how) {
    case STORAGE: case RDFFILE: case COLLSAVE: {
      DLiteStorage *s = NULL;
      if (how == RDFFILE) s = dlite_storage_open("rdf", "store", fmt("mode=w;store=memory;filename=%s;format=turtle", path.c_str()).c_str());
      else s = dlite_storage_open("json", path.c_str(), o.c_str());
      if (!s) { bad = true; break; }
      Limit l(limit);
      if (how == COLLSAVE) { if (dlite_collection_save(coll, s)) bad = true; }
      else for (auto *i : insts) if (dlite_instance_save(s, i)) bad = true;
      if (dlite_storage_close(s)) bad = true;
      break; }
    case SAVELOC: { Limit l(limit); bad = dlite_instance_save_loc("json", path.c_str(), o.c_str(), insts[0]) != 0; break; }
    case SAVEURL: { Limit l(limit); bad = dlite_instance_save_url(fmt("json://%s?%s", path.c_str(), o.c_str()).c_str(), insts[0]) != 0; break; }
    case COLLURL: { Limit l(limit); bad = dlite_collection_save_url(coll, fmt("json://%s?%s", path.c_str(), o.c_str()).c_str()) != 0; break; }
    case PRINTFILE: { Limit l(limit); bad = dlite_json_printfile(path.c_str(), insts[0], (DLiteJsonFlag)0) < 0; break; }
    case JSTORE: {
      JStore *js = jstore_open(); if (!js) throw Discard{};
      for (auto *i : insts) { char *t = dlite_json_aprint(i, 2, (DLiteJsonFlag)0); if (!t || jstore_add(js, i->uuid, t)) fail("adding to a jstore"); free(t); }
      { Limit l(limit); bad = jstore_to_file(js, path.c_str()) != 0; }
      jstore_close(js); break; }
    default: break;
    }
    code = take_error();
    return bad;
  }
};

PBT(D33, limited, 2500, 30000, 20, "the file size limit is smaller than what is saved") {
  World w(g); MetaOpt o; o.maxprops = 4; o.types = 0; w.init(g.range(1, 2), o);
  int n = g.range(1, 3);
  for (int i = 0; i < n; i++) {
    int mi = g.below(w.metas.size()); auto d = gen_dims(g, *w.metas[mi], g.chance(1, 6) ? 60 : 4); if (dims_status(*w.metas[mi], d) != 1) d.assign(d.size(), 2);
    if (dims_status(*w.metas[mi], d) != 1) d.assign(d.size(), 0);
    InstM *x = dims_status(*w.metas[mi], d) == 1 ? w.create(mi, d) : NULL; if (!x) continue;
    for (size_t j = 0; j < x->vals.size(); j++) if (g.flip()) w.set_random(*x, j);
  }
  Job job; for (auto &x : w.insts) job.insts.push_back(x->inst);
  bool empty = job.insts.empty();
  S a = scratch("a"), b = scratch("b"), before; unlink(a.c_str()); unlink(b.c_str());
  if (!empty) {
    std::vector<int> hows = {STORAGE, STORAGE, SAVELOC, SAVEURL, COLLSAVE, COLLURL, PRINTFILE, JSTORE};
#ifdef VERIF_FLAVOUR_ASAN
    bool plain = true; for (auto &x : w.insts) for (auto &p : x->m->props) if (p.t.t == dliteBlob || !p.ref.null) plain = false;
    if (plain) hows.push_back(RDFFILE);
#endif
    job.how = (How)hows[g.below(hows.size())]; job.mode = "wwa"[g.below(3)];
    if (g.chance(1, 4)) job.opts = g.pick(std::vector<S>{";single=no", ";uri-key=yes", ";with-uuid=yes", ";meta=no"});
    if (job.how == COLLSAVE || job.how == COLLURL) { job.coll = dlite_collection_create(NULL); REQUIRE(job.coll, "no collection"); for (size_t i = 0; i < job.insts.size(); i++) dlite_collection_add(job.coll, fmt("i%zu", i).c_str(), job.insts[i]); }
    bool had = job.how != RDFFILE && g.chance(1, 3); int code;
    if (had) {
      // there is an older file
      Job first = job; first.how = STORAGE; first.opts = ""; first.mode = 'w'; first.insts = {w.insts[0]->inst};
      REQUIRE(!first.run(a, -1, code), "saving without limits fails"); S t; content(a, t); put(b, t);
    }
    REQUIRE(!job.run(a, -1, code), "saving with %s without limits fails (error %d)", hownames[job.how], code);
    S full, got; REQUIRE(content(a, full), "nothing was written to %s", a.c_str()); long size = full.size();
    long lim = g.pick(std::vector<long>{0, 1, size - 1, size - 1, size / 2, size, size + 1, (long)g.below(size + 1), (long)g.below(size + 1), 4096, 4095}); if (lim < 0) lim = 0;
    std::vector<int> refs; for (auto *i : job.insts) refs.push_back(i->_refcount);
    g.log("%s mode %c%s, %zu instances, %ld bytes%s, limit %ld", hownames[job.how], job.mode, job.opts.c_str(), job.insts.size(), size, had ? " (replacing or adding to a file)" : "", lim);
    bool bad = job.run(b, lim, code);
    if (lim < size) {
      g.nontrivial(); g.label("%s", hownames[job.how]);
      REQUIRE(bad, "%s: only %ld of %ld bytes could be written, but success is returned", hownames[job.how], lim, size);
      REQUIRE(code, "%s: only %ld of %ld bytes could be written, but there is no error message", hownames[job.how], lim, size);
    } else {
      REQUIRE(!bad && !code, "%s: saving %ld bytes fails (error %d) when there is room for %ld", hownames[job.how], size, code, lim);
      REQUIRE(content(b, got) && got.size() == full.size(), "%s: %zu bytes were written, expected %zu", hownames[job.how], got.size(), full.size());
    }
    for (size_t i = 0; i < job.insts.size(); i++) REQUIRE(job.insts[i]->_refcount == refs[i], "%s: reference count of an instance is %d after saving, was %d", hownames[job.how], job.insts[i]->_refcount, refs[i]);
    w.check("after saving");
    if (lim < size) {   // it can be saved once there is room
      unlink(b.c_str()); if (had) { content(a, got); }
      Job again = job; again.mode = 'w'; REQUIRE(!again.run(b, -1, code), "%s: saving again, without limit, fails (error %d)", hownames[job.how], code);
      REQUIRE(content(b, got) && !got.empty(), "nothing is written when saving again");
      if (job.how == STORAGE) for (auto *i : job.insts) {
        DLiteStorage *s = dlite_storage_open("json", b.c_str(), "mode=r"); REQUIRE(s, "the file saved again cannot be opened: %s", dlite_errmsg());
        DLiteInstance *l = dlite_instance_load(s, i->uuid); REQUIRE(l == i, "the instance saved again cannot be loaded: %s", dlite_errmsg()); dlite_instance_decref(l); dlite_storage_close(s);
      }
    }
    if (job.coll) dlite_collection_decref(job.coll);
  }
  unlink(a.c_str()); unlink(b.c_str());
  w.finish();
  if (empty) throw Discard{};
}

// A document that is only partly in the file is not taken for a whole one
PBT(D33, truncated, 1500, 20000, 20, "at least one byte of the document, and not only white space, is missing") {
  World w(g); MetaOpt o; o.maxprops = 4; o.types = 0; w.init(1, o);
  auto d = gen_dims(g, *w.metas[0], 4); if (dims_status(*w.metas[0], d) != 1) d.assign(d.size(), 1);
  InstM *x = dims_status(*w.metas[0], d) == 1 ? w.create(0, d) : NULL;
  if (x) {
    for (size_t j = 0; j < x->vals.size(); j++) w.set_random(*x, j);
    S a = scratch("t"), full; int code; unlink(a.c_str());
    Job job; job.insts = {x->inst}; job.how = g.flip() ? STORAGE : PRINTFILE; job.mode = 'w'; if (job.how == STORAGE && g.chance(1, 3)) job.opts = ";uri-key=yes";
    REQUIRE(!job.run(a, -1, code), "saving fails (error %d)", code); content(a, full);
    size_t end = full.find_last_not_of(" \n\t\r") + 1, n = g.pick(std::vector<size_t>{end - 1, end - 1, end / 2, g.below(end), g.below(end), g.below(end), full.size()});
    S uuid = x->uuid; put(a, full.substr(0, n)); g.log("%zu of %zu bytes", n, full.size());
    InstM keep = *x; w.release(*x); dlite_errclr();
    if (n < end) {
      g.nontrivial(); g.label(n == end - 1 ? "last byte missing" : n ? "part" : "empty");
      switch (g.below(3)) {
      case 0: {
        DLiteStorage *s = dlite_storage_open("json", a.c_str(), "mode=r"); DLiteInstance *l = s ? dlite_instance_load(s, uuid.c_str()) : NULL;
        REQUIRE(!l, "an instance is loaded from %zu of %zu bytes", n, full.size()); REQUIRE(take_error(), "no error for %zu of %zu bytes", n, full.size());
        if (s) dlite_storage_close(s);
        break; }
      case 1: { DLiteInstance *l = dlite_instance_load_url(fmt("json://%s?mode=r#%s", a.c_str(), uuid.c_str()).c_str()); REQUIRE(!l, "an instance is loaded by its URL from %zu of %zu bytes", n, full.size()); REQUIRE(take_error(), "no error for %zu of %zu bytes", n, full.size()); break; }
      case 2: { S t = full.substr(0, n); DLiteInstance *l = dlite_json_sscan(t.c_str(), uuid.c_str(), NULL); REQUIRE(!l, "an instance is scanned from %zu of %zu bytes", n, full.size()); REQUIRE(take_error(), "no error for %zu of %zu bytes", n, full.size()); break; }
      }
      REQUIRE(!dlite_instance_has(uuid.c_str(), 0), "half an instance is left in memory");
    } else {
      DLiteInstance *l = dlite_instance_load_loc("json", a.c_str(), "mode=r", uuid.c_str()); REQUIRE(l, "cannot load the complete document: %s", dlite_errmsg());
      keep.inst = l; check_inst(keep, "loaded"); dlite_instance_decref(l);
    }
    unlink(a.c_str());
  }
  w.finish();
  if (!x) throw Discard{};
}

int main(int argc, char **argv) { child_init = init; return pbt::run_main(argc, argv); }
