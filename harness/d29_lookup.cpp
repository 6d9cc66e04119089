// flavours: asan builtin
// D29: instances are found in memory, open storages and storage paths
#include "stores.hpp"
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
static void clear_paths() {
  const char **p; int guard = 0;
  while ((p = dlite_storage_paths_get()) && p[0]) { REQUIRE(dlite_storage_paths_remove_index(0) == 0 && guard++ < 100, "cannot remove a storage path"); }
  dlite_errclr();
}
static void init() { dlite_err_set_stream(NULL); world_finite = true; clear_paths(); take_error(); dlite_instance_get("warm-up-unknown-id"); dlite_instance_get("http://warm/up"); dlite_errclr(); }

struct Entry { S text; std::vector<int> files; };   // a storage path and the indices of the files it may cover
typedef std::vector<std::pair<S, const Rec *>> Cands;

struct Lookup : Stores {
  std::vector<Entry> paths; S junkdir; std::vector<S> junk;
  Lookup(Gen &g_) : Stores(g_) {}
  void setup(int nfiles, int nmeta) {
    init(nfiles, nmeta, TY_REF | TY_REL); clear_paths();
    junkdir = dir + "/sub"; mkdir(junkdir.c_str(), 0700);
    if (g.flip()) { junk = {dir + "/README", dir + "/x.txt", dir + "/a.json.bak", dir + "/.hidden"}; for (auto &j : junk) st_spew(j, "{\"not\": \"for dlite\"}"); }
  }
  S url(const S &p) {
    switch (g.below(5)) {
    case 0: return "json://" + p;
    case 1: return "json://" + p + "?mode=r;single=no";
    case 2: return "json://" + p + "?mode=r";
    case 3: return "json://" + p + "?single=" + (g.flip() ? "no" : "0") + (g.flip() ? "&mode=r" : ";mode=r");
    default: return p;
    }
  }
  Entry entry() {
    Entry e; int n = files.size(); int i = g.below(n);
    switch (g.below(9)) {
    case 8: e.text = "json://" + dir + "/" + g.pick<S>({"*.json", "f*", "*"}) + (g.flip() ? "" : "?mode=r"); for (int k = 0; k < n; k++) e.files.push_back(k); break;
    case 0: case 1: e.text = url(files[i].path); e.files = {i}; break;
    case 2: e.text = files[i].path; e.files = {i}; break;
    case 3: e.text = dir + (g.chance(1, 4) ? "/" : ""); for (int k = 0; k < n; k++) e.files.push_back(k); break;
    case 4: e.text = dir + "/" + g.pick<S>({"*.json", "f*", "*", "*.js*n", "f?.json"}); for (int k = 0; k < n; k++) e.files.push_back(k); break;
    case 5: { e.text = dir + "/f[" ; for (int k = 0; k < n; k++) if (g.flip()) { e.files.push_back(k); e.text += fmt("%d", k); } if (e.files.empty()) { e.files = {i}; e.text += fmt("%d", i); } e.text += "].json"; break; }
    case 6: e.text = dir + g.pick<S>({"/missing.json", "/nodir", "/nodir/*.json", "/sub", "/sub/*.json", "/README", "/x.txt", "/*.xyz"}); break;
    default: e.text = g.pick<S>({"nosuchdriver://" + dir + "/missing.json", "json://" + dir + "/missing.json", "json://" + dir + "/missing.json?mode=r", "nosuchdriver:", files[i].path + ".none"}); break;
    }
    return e;
  }
  void edit_paths() {
    int n = paths.size(), k = g.below(4);
    if (k < 2 && n < 6) {
      Entry e = entry(); int at, r;
      // duplicates are kept once by fu_paths? (the model lists what was added)
      for (auto &p : paths) if (p.text == e.text) return;
      if (k == 0) { at = n; r = dlite_storage_paths_append(e.text.c_str()); } else { int i = g.range(-n, n); at = i < 0 ? n + i : i; r = dlite_storage_paths_insert(i, e.text.c_str()); }
      g.log("path %s at %d -> %d", e.text.c_str(), at, r);
      REQUIRE(r == at, "adding a storage path at %d returns %d", at, r); paths.insert(paths.begin() + at, e);
    } else if (n) {
      int i = g.range(-n - 1, n); bool ok = i >= -n && i < n; int r = dlite_storage_paths_remove_index(i); g.log("remove path %d -> %d", i, r);
      REQUIRE((r == 0) == ok, "removing storage path %d of %d returns %d", i, n, r); dlite_errclr(); if (ok) { paths.erase(paths.begin() + (i < 0 ? n + i : i)); g.label("path removed"); }
    }
    check_paths();
  }
  void check_paths() {
    const char **p = dlite_storage_paths_get(); size_t i = 0;
    for (; p && p[i]; i++) { REQUIRE(i < paths.size(), "too many storage paths"); REQUIRE(paths[i].text == p[i], "storage path %zu is %s, expected %s", i, p[i], paths[i].text.c_str()); }
    REQUIRE(i == paths.size(), "%zu storage paths, expected %zu", i, paths.size()); dlite_errclr();
  }
  // candidates for an id that is not in memory, empty if it cannot be found
  Cands cands(const S &uuid, S &where) {
    Cands c;
    for (auto &h : handles) if (h->open && h->mode != 'w') if (const Rec *r = lookup(h->recs, uuid)) c.push_back({files[h->file].path, r});
    if (c.size()) { where = "open storage"; return c; }
    for (size_t k = 0; k < paths.size(); k++) {
      for (int i : paths[k].files) if (files[i].st == Single || files[i].st == Multi) if (const Rec *r = lookup(files[i].recs, uuid)) c.push_back({files[i].path, r});
      if (c.size()) { where = fmt("storage path %zu", k); return c; }
    }
    return c;
  }
  void get(const S &id) {
    S uuid = uuidof(id), where; bool mem = live(uuid) || livemeta(uuid); Cands c; if (!mem) c = cands(uuid, where);
    int kind = g.below(3); DLiteInstance *inst;
    take_error();
    if (kind == 0) {
      inst = dlite_instance_has(id.c_str(), 0); g.log("has %s -> %s", show(id).c_str(), inst ? "yes" : "no"); REQUIRE(!!inst == mem, "dlite_instance_has(%s): %d, in memory: %d", show(id).c_str(), !!inst, mem); REQUIRE(!take_error(), "dlite_instance_has reports an error"); return;
    }
    // `has` gives a borrowed reference: what was loaded only for the lookup is gone again
    if (kind == 1) {
      inst = dlite_instance_has(id.c_str(), 1); g.log("has %s in storages -> %s", show(id).c_str(), inst ? "yes" : "no"); REQUIRE(!!inst == (mem || c.size()), "dlite_instance_has(%s, 1): %d, in memory: %d, in storages: %zu", show(id).c_str(), !!inst, mem, c.size()); REQUIRE(!take_error(), "dlite_instance_has(id, 1) reports an error");
      if (!mem) REQUIRE(!dlite_instance_has(uuid.c_str(), 0), "instance looked up stays in memory"); if (!mem && inst) g.label("has in storage"); unchanged("has"); return;
    }
    if (g.chance(1, 12)) { const char *e = g.flip() ? "" : NULL; inst = dlite_instance_get(e); g.log("get %s", e ? "\"\"" : "NULL"); REQUIRE(!inst && take_error(), "getting %s %s", e ? "\"\"" : "NULL", inst ? "gives an instance" : "reports no error"); inst = dlite_instance_has(e, g.flip()); REQUIRE(!inst, "there is an instance with no id"); take_error(); unchanged("looking up no id"); }
    inst = dlite_instance_get(id.c_str()); g.log("get %s -> %s", show(id).c_str(), mem ? "memory" : c.size() ? where.c_str() : "nothing");
    S what = "getting " + show(id);
    if (mem || c.empty()) found(inst, uuid, NULL, what);
    else {
      REQUIRE(inst, "%s: not found, it is in %s (%s): %s", what.c_str(), where.c_str(), c[0].first.c_str(), dlite_errmsg());
      g.label("found in " + where.substr(0, 12)); g.nontrivial(); bool ok = false; S first;
      for (auto &x : c) { try { adopt(inst, *x.second, what.c_str()); ok = true; break; } catch (Failure &f) { if (first.empty()) first = f.what(); } }
      REQUIRE(ok, "%s: not what %s holds: %s", what.c_str(), where.c_str(), first.c_str());
      REQUIRE(!take_error(), "%s: found, but an error remains: %s", what.c_str(), dlite_errmsg());
    }
    unchanged("looking up");
  }
  void iterate() {
    DLiteStoragePathIter *it = dlite_storage_paths_iter_start(); REQUIRE(it, "cannot iterate over %zu storage paths: %s", paths.size(), dlite_errmsg());
    std::vector<S> got; const char *p; while ((p = dlite_storage_paths_iter_next(it))) { got.push_back(p); REQUIRE(got.size() < 200, "iteration does not end"); }
    REQUIRE(dlite_storage_paths_iter_stop(it) == 0, "iter_stop"); size_t at = 0;
    for (auto &e : paths) {   // files of the entries come in order of the entries
      std::set<S> want; for (int i : e.files) if (files[i].st != Missing) want.insert(files[i].path);
      if (e.text.compare(0, 7, "json://") == 0 || e.text.compare(0, 12, "nosuchdriver") == 0) { while (at < got.size() && got[at] != e.text) at++; REQUIRE(at < got.size(), "iteration does not give the URL %s", e.text.c_str()); at++; continue; }
      size_t from = at; std::set<S> seen;
      while (want.size() > seen.size() && at < got.size()) { S f = got[at]; size_t k; while ((k = f.find("//")) != S::npos) f.erase(k, 1); if (want.count(f)) REQUIRE(seen.insert(f).second, "iteration gives %s twice for %s", f.c_str(), e.text.c_str()); at++; }
      REQUIRE(seen == want, "iteration gives %zu of the %zu files of path %s", seen.size(), want.size(), e.text.c_str());
      (void)from;
    }
    dlite_errclr();
  }
  void finish() {
    for (auto &j : junk) unlink(j.c_str());
    rmdir(junkdir.c_str()); clear_paths(); Stores::finish();
  }
};

static void fill(Lookup &st, int fi) {   // (re)write a file
  Gen &g = st.g; FileM &f = st.files[fi]; for (auto &q : st.handles) if (q->open && q->file == fi) return;
  int kind = g.below(6);
  if (kind == 0) { unlink(f.path.c_str()); f.st = Missing; f.recs.clear(); f.bytes.clear(); g.log("file %d removed", fi); return; }
  if (kind == 1) { f.st = g.flip() ? Empty : Garbage; f.recs.clear(); f.bytes = f.st == Empty ? "" : g.pick<S>({"not json", "{", "[1, 2]", "{\"a\": 1}", "\xff\xfe", "{\"uri\": 1, \"properties\""}); st_spew(f.path, f.bytes); g.log("file %d %s", fi, f.st == Empty ? "empty" : "garbage"); return; }
  HandleM *h = st.open(fi, kind < 4 ? 'w' : 'a', -2); if (!h) return;
  for (int n = g.range(1, 3); n > 0; n--) { InstM *x = st.w.pick(); if (g.chance(1, 6)) st.save(*h, NULL, st.w.metas[g.below(st.w.metas.size())].get()); else { if (!x || g.flip()) { InstM *y = st.create(); if (y) x = y; } if (x) st.save(*h, x, NULL); } }
  st.close(*h);
}

PBT(D29, histories, 3500, 200000, 30, "an instance was found in an open storage or a storage path") {
  Lookup st(g); st.setup(g.range(1, 3), g.range(1, 2));
  for (size_t i = 0; i < st.files.size(); i++) if (g.chance(2, 3)) fill(st, i);
  int n = 5 + g.size(50);
  for (int k = 0; k < n; k++) {
    HandleM *h = st.pick(); int fi = g.below(st.files.size()); InstM *x;
    switch (g.weighted({2, 2, 5, 3, 2, 2, 5, 8, 1})) {
    case 0: st.create(); break;
    case 1: if ((x = st.w.pick()) && x->vals.size()) st.w.set_random(*x, g.below(x->vals.size())); break;
    case 2: if (g.flip()) { for (auto &y : st.w.insts) if (y->inst) { st.w.release(*y); } g.log("release all"); } else if ((x = st.w.pick())) { g.log("release %s", x->uuid.c_str()); st.w.release(*x); } break;
    case 3: fill(st, fi); break;
    case 4: { int nopen = 0; for (auto &q : st.handles) nopen += q->open; if (nopen < 4) { bool used = false; for (auto &q : st.handles) if (q->open && q->file == fi && q->mode != 'r') used = true; if (!used) st.open(fi, st.files[fi].st == Missing || st.files[fi].st == Garbage ? 'w' : g.pick({'r', 'r', 'a', 'w'}), -2); } break; }
    case 5: if (h) st.close(*h); break;
    case 6: st.edit_paths(); break;
    case 7: st.get(st.someid()); break;
    case 8: st.iterate(); break;
    }
    if (k % 8 == 7) st.w.check("during history");
  }
  st.check_paths();
  for (auto &y : st.w.insts) if (y->inst) st.w.release(*y);
  for (auto &id : st.ids) st.get(id);
  st.finish();
}

// Many storages open at once and closed in any order
PBT(D29, many_open, 1500, 40000, 20, "more storages open than fit in the first chunk") {
  Lookup st(g); st.setup(1, 1); st.dir += "/many"; mkdir(st.dir.c_str(), 0700); st.files.clear(); int nf = g.range(1, 6);
  for (int i = 0; i < nf; i++) { FileM f; f.path = st.dir + fmt("/m%d.json", i); unlink(f.path.c_str()); st.files.push_back(f); }
  MetaM &m = *st.w.metas[0]; std::vector<long> d(m.dims.size(), 1); int nid = 2 * nf; std::vector<S> ids; std::vector<std::vector<S>> in(nf);
  if (dims_status(m, d) != 1) { rmdir(st.dir.c_str()); st.dir.erase(st.dir.size() - 5); st.files.clear(); st.finish(); return; }
  for (int i = 0; i < nid; i++) ids.push_back("many-" + fmt("%d", i));
  for (int i = 0; i < nf; i++) {
    DLiteStorage *s = dlite_storage_open("json", st.files[i].path.c_str(), "mode=w"); REQUIRE(s, "open");
    for (int k = 0; k < 2; k++) { DLiteInstance *x = create_inst(m, d, ids[2 * i + k].c_str()); REQUIRE(x, "create"); REQUIRE(dlite_instance_save(s, x) == 0, "save"); dlite_instance_decref(x); }
    REQUIRE(dlite_storage_close(s) == 0, "close");
  }
  struct H { DLiteStorage *s; int f; }; std::vector<H> open; size_t most = 0;
  int n = 10 + g.size(160), bias = g.range(1, 5);
  for (int k = 0; k < n; k++) {
    if (g.below(6) < (k < n / 2 ? (unsigned)bias : 1u)) { int f = g.below(nf); DLiteStorage *s = dlite_storage_open("json", st.files[f].path.c_str(), "mode=r"); REQUIRE(s, "open: %s", dlite_errmsg()); open.push_back({s, f}); if (open.size() > most) most = open.size(); }
    else if (open.size() && g.flip()) { size_t i = g.below(open.size()); REQUIRE(dlite_storage_close(open[i].s) == 0, "close"); open.erase(open.begin() + i); }
    else {
      int i = g.below(nid); bool want = false; for (auto &h : open) if (h.f == i / 2) want = true;
      DLiteInstance *x = dlite_instance_get(ids[i].c_str()); REQUIRE(!!x == want, "with %zu open storages %s is %s", open.size(), ids[i].c_str(), x ? "found" : "not found");
      if (x) { REQUIRE(!strcmp(x->uri, ids[i].c_str()), "wrong instance"); REQUIRE(!take_error(), "error after success"); dlite_instance_decref(x); } else REQUIRE(take_error(), "no error for a missing instance");
    }
  }
  for (auto &h : open) REQUIRE(dlite_storage_close(h.s) == 0, "close");
  g.log("%d files, at most %zu open", nf, most); if (most > 32) g.label("over 32 open"); if (most > 16) g.nontrivial();
  for (int i = 0; i < nf; i++) unlink(st.files[i].path.c_str());
  rmdir(st.dir.c_str()); st.dir.erase(st.dir.size() - 5); st.files.clear(); st.finish();
}

static void forget(DLiteMeta *m) { S u = m->uri; for (int n = m->_refcount; n > 0; n--) dlite_meta_decref(m); REQUIRE(!dlite_instance_has(u.c_str(), 0), "metadata still there"); dlite_errclr(); }

// The metadata of an instance, and the instances it refers to, are looked up as well
PBT(D29, chain, 4000, 150000, 30, "metadata or referred instances were looked up") {
  Lookup st(g); st.setup(3, 1); MetaM &m = *st.w.metas[0]; dlite_meta_incref(m.meta);   // World drops one reference at the end
  // a metadata with a reference to instances of the first one
  S ns = "http://x.org/" + g.ident(), uri2 = ns + "/1/Holder", doc = "{\"uri\": " + js::print(js::str(uri2)) + ", \"meta\": \"http://onto-ns.com/meta/0.3/EntitySchema\", \"dimensions\": [{\"name\": \"n\", \"description\": \"\"}], \"properties\": [{\"name\": \"one\", \"type\": \"ref\", \"$ref\": " + js::print(js::str(m.uri)) + ", \"description\": \"\"}, {\"name\": \"more\", \"type\": \"ref\", \"$ref\": " + js::print(js::str(m.uri)) + ", \"dims\": [\"n\"], \"description\": \"\"}, {\"name\": \"tag\", \"type\": \"int32\", \"description\": \"\"}]}";
  DLiteMeta *hm = (DLiteMeta *)dlite_json_sscan(doc.c_str(), NULL, NULL); REQUIRE(hm, "cannot create Holder: %s", dlite_errmsg());
  int nt = g.range(1, 3); std::vector<InstM *> t; 
  for (int i = 0; i < nt; i++) { std::vector<long> d = gen_dims(g, m, 2); if (dims_status(m, d) != 1) d.assign(d.size(), 1); if (dims_status(m, d) != 1) { nt = i; break; } InstM *x = st.w.create(0, d, g.flip() ? fmt("target-%d", i).c_str() : NULL); x->uri = ostr(x->inst->uri); for (size_t j = 0; j < x->vals.size(); j++) if (m.props[j].t.t != dliteRef) st.w.set_random(*x, j); t.push_back(x); }
  size_t hn = g.below(3); size_t hd[1] = {hn}; DLiteInstance *hold = dlite_instance_create(hm, hd, "holder"); REQUIRE(hold, "holder"); int32_t tag = (int32_t)g.i64(); std::vector<int> refs;
  REQUIRE(dlite_instance_set_property(hold, "tag", &tag) == 0, "tag");
  { std::vector<DLiteInstance *> v; for (size_t i = 0; i <= hn; i++) { int k = nt ? (int)g.below(nt + 1) - 1 : -1; refs.push_back(k); v.push_back(k < 0 ? NULL : t[k]->inst); }
    REQUIRE(dlite_instance_set_property(hold, "one", &v[0]) == 0, "set"); if (hn) REQUIRE(dlite_instance_set_property(hold, "more", &v[1]) == 0, "set"); }
  // distribute over files
  struct Item { const DLiteInstance *inst; S id; Rec r; int file; }; std::vector<Item> items;
  items.push_back({(DLiteInstance *)m.meta, m.uri, Rec(), 0}); items.push_back({(DLiteInstance *)hm, uri2, Rec(), 0}); items.push_back({hold, "holder", Rec(), 0});
  for (int i = 0; i < nt; i++) items.push_back({t[i]->inst, t[i]->uuid, Stores::rec(*t[i]), 0});
  std::vector<std::vector<int>> content(3);
  for (size_t i = 0; i < items.size(); i++) { items[i].file = (int)g.below(3 + (g.chance(1, 5) ? 1 : 0)); if (items[i].file < 3) content[items[i].file].push_back(i); }
  for (int f = 0; f < 3; f++) {
    for (size_t i = content[f].size(); i > 1; i--) std::swap(content[f][i - 1], content[f][g.below(i)]);
    if (content[f].empty()) continue;
    DLiteStorage *s = dlite_storage_open("json", st.files[f].path.c_str(), g.flip() ? "mode=w;single=no" : "mode=a"); REQUIRE(s, "open"); for (int i : content[f]) REQUIRE(dlite_instance_save(s, items[i].inst) == 0, "save: %s", dlite_errmsg());
    REQUIRE(dlite_storage_close(s) == 0, "close"); st.files[f].st = Multi; st.files[f].bytes = st_readall(st.files[f].path);
  }
  // what is reachable
  std::vector<int> how(3); std::vector<DLiteStorage *> open;
  for (int f = 0; f < 3; f++) how[f] = g.below(5);   // 0: not at all, 1, 2: open, 3, 4: path
  bool keep_m = g.chance(1, 6), keep_hm = g.chance(1, 6);
  auto reach = [&](int i) { if ((i == 0 && keep_m) || (i == 1 && keep_hm)) return true; return items[i].file < 3 && how[items[i].file] != 0; };
  S plan; for (size_t i = 0; i < items.size(); i++) plan += fmt("%s in file %d; ", items[i].id.c_str(), items[i].file); for (int f = 0; f < 3; f++) plan += fmt("file %d: %s; ", f, how[f] == 0 ? "hidden" : how[f] < 3 ? "open" : "path");
  g.log("%skeep metadata %d %d", plan.c_str(), keep_m, keep_hm);
  // drop everything from memory
  dlite_instance_decref(hold); for (auto x : t) st.w.release(*x);
  if (!keep_hm) forget(hm);
   MetaM *mm = &m; bool dropped = false;
  if (!keep_m) { forget(m.meta); mm->meta = NULL; dropped = true; }
  for (int f = 0; f < 3; f++) if (content[f].size()) {
    if (how[f] == 1 || how[f] == 2) { DLiteStorage *s = dlite_storage_open("json", st.files[f].path.c_str(), how[f] == 1 ? "mode=r" : "mode=a"); REQUIRE(s, "open"); open.push_back(s); }
    else if (how[f] >= 3) { S u = how[f] == 3 ? st.files[f].path : "json://" + st.files[f].path; REQUIRE(dlite_storage_paths_append(u.c_str()) >= 0, "append"); }
  }
  take_error();
  bool holder_ok = reach(2) && reach(1); bool all = true; for (int k : refs) if (k >= 0 && !(reach(3 + k) && reach(0))) all = false;
  if (g.flip()) {   // a target on its own
    if (nt) { int k = g.below(nt); bool ok = reach(3 + k) && reach(0); DLiteInstance *x = dlite_instance_get(items[3 + k].id.c_str()); g.log("get target %d", k);
      REQUIRE(!!x == ok, "target %s is %s", items[3 + k].id.c_str(), x ? "found" : fmt("not found: %s", dlite_errmsg()).c_str()); REQUIRE(!!take_error() == !ok, "error after getting a target");
      if (x) { mm->meta = (DLiteMeta *)x->meta; InstM c = items[3 + k].r.x; c.m = mm; c.inst = x; check_inst(c, "target"); check_meta(mm->meta, *mm, "metadata looked up"); dlite_instance_decref(x); g.nontrivial(); g.label("target"); } }
  } else {
    DLiteInstance *x = dlite_instance_get("holder"); g.log("get holder"); int e = take_error();
    if (!holder_ok) { REQUIRE(!x && e, "holder is found without its metadata or storage"); g.label("holder not found"); }
    else if (!all) { if (x) { dlite_instance_decref(x); } g.label("dangling reference"); }
    else {
      REQUIRE(x, "holder is not found: %s", dlite_errmsg()); REQUIRE(!e, "error remains"); REQUIRE(*(int32_t *)dlite_instance_get_property(x, "tag") == tag, "tag");
      DLiteInstance **one = (DLiteInstance **)dlite_instance_get_property(x, "one"), **more = (DLiteInstance **)dlite_instance_get_property(x, "more");
      for (size_t i = 0; i <= hn; i++) { DLiteInstance *y = i ? more[i - 1] : *one; int k = refs[i]; REQUIRE(!!y == (k >= 0), "reference %zu is %s", i, y ? "set" : "NULL"); if (y) { mm->meta = (DLiteMeta *)y->meta; InstM c = items[3 + k].r.x; c.m = mm; c.inst = y; check_inst(c, "referred instance"); } }
      dlite_instance_decref(x); g.nontrivial(); g.label("holder found");
    }
  }
  for (auto s : open) REQUIRE(dlite_storage_close(s) == 0, "close");
  take_error();
  // nothing but metadata stays behind
  for (size_t i = 2; i < items.size(); i++) { REQUIRE(!dlite_instance_has(items[i].id.c_str(), 0), "%s stays in memory", items[i].id.c_str()); }
  if (keep_hm) forget(hm); else if (DLiteMeta *q = (DLiteMeta *)dlite_instance_has(uri2.c_str(), 0)) forget(q);
  (void)dropped; if (DLiteMeta *q = (DLiteMeta *)dlite_instance_has(m.uri.c_str(), 0)) forget(q);
  st.w.metas.clear(); st.unchanged("lookups"); st.finish();
}

int main(int argc, char **argv) { child_init = init; return pbt::run_main(argc, argv); }
