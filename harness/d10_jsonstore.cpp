// flavours: asan builtin
// D10: a JSON storage behaves as a map from identity to instance
#include "stores.hpp"
static void init() { dlite_err_set_stream(NULL); world_finite = true; }

static void load(Stores &st, HandleM &h) {
  Gen &g = st.g; S id, uuid; const Rec *r; bool noid = g.chance(1, 6); S what;
  if (noid) {
    what = "loading without id"; DLiteInstance *inst = dlite_instance_load(h.s, g.flip() ? NULL : ""); g.log("load without id -> %s", inst ? inst->uuid : "NULL");
    if (!h.store || h.recs.size() != 1) { REQUIRE(!inst && take_error(), "loading without id from a storage with %zu instances", h.recs.size()); g.label("no id refused"); return; }
    uuid = h.recs.begin()->first; st.found(inst, uuid, &h.recs.begin()->second, what, h.mode == 'w'); g.label("no id");
    return;
  }
  id = st.someid(); uuid = uuidof(id); r = h.store ? st.lookup(h.recs, uuid) : NULL; what = "loading " + show(id);
  DLiteInstance *inst = dlite_instance_load(h.s, id.c_str()); g.log("load %s (%s) -> %s", show(id).c_str(), uuid.c_str(), inst ? "found" : "NULL");
  st.found(inst, uuid, r, what, h.mode == 'w');
}

static void list(Stores &st, HandleM &h) {
  Gen &g = st.g; S filter; const MetaM *m = NULL; bool ent = false; int k = g.below(3);
  if (k == 1) { m = st.w.metas[g.below(st.w.metas.size())].get(); filter = g.flip() ? m->uri : S(m->meta->uuid); }
  if (k == 2) { ent = true; filter = DLITE_ENTITY_SCHEMA; if (g.flip()) filter = uuidof(filter); }
  std::multiset<S> want, got; for (auto &r : h.recs) if (k == 0 || (k == 1 ? !r.second.meta && r.second.m == m : r.second.meta)) want.insert(r.first);
  const char *f = k ? filter.c_str() : NULL; bool iter = g.flip();
  if (iter) {
    void *it = dlite_storage_iter_create(h.s, f);
    if (!h.store) { REQUIRE(!it && take_error(), "iterating over a storage in write mode"); return; }
    if (!it && h.mode == 'w') { take_error(); return; }
    REQUIRE(it, "dlite_storage_iter_create: %s", dlite_errmsg()); h.refs++;
    char b[DLITE_UUID_LENGTH + 1]; int r; bool closed = false; size_t stop = g.chance(1, 4) ? g.below(3) : 99;
    if (g.chance(1, 6)) { st.close(h); closed = true; g.label("closed while iterating"); }
    while (got.size() < stop && (r = dlite_storage_iter_next(h.s, it, b)) == 0) {
      got.insert(b); REQUIRE(got.size() <= want.size(), "iteration gives too many instances");
      if (g.chance(1, 3)) { DLiteInstance *inst = dlite_instance_load(h.s, b); const Rec *q = st.lookup(h.recs, b); REQUIRE(q, "iteration gives unknown instance %s", b); st.found(inst, b, q, S("loading while iterating ") + b); g.label("load while iterating"); }
    }
    dlite_storage_iter_free(h.s, it); st.unref(h); (void)closed;
    st.unchanged("iterating");
    for (auto &u : got) REQUIRE(want.count(u) && got.count(u) == 1, "iteration%s gives %s", k ? " over metadata" : "", u.c_str());
    if (got.size() < stop) REQUIRE(got == want, "iteration%s gives %zu instances, expected %zu", k ? " over metadata" : "", got.size(), want.size());
  } else {
    char **p = dlite_storage_uuids(h.s, f); int e = take_error();
    if (!h.store) { REQUIRE(!p && e, "listing a storage in write mode"); return; }
    if (!p && e && h.mode == 'w') return;
    for (char **q = p; q && *q; q++) got.insert(*q);
    if (p) dlite_storage_uuids_free(p);
    REQUIRE(!e, "listing reports an error");
    REQUIRE(got == want, "listing%s gives %zu instances, expected %zu", k ? " over metadata" : "", got.size(), want.size());
  }
  g.log("list %s: %zu", f ? f : "all", want.size()); g.label("listed");
}

static void one(Stores &st, int fi) {   // open, do one thing and close, in one call
  Gen &g = st.g; FileM &f = st.files[fi]; S url;
  if (g.flip()) {
    InstM *x = st.w.pick(); MetaM *m = NULL; if (!x || g.chance(1, 4)) { x = NULL; m = st.w.metas[g.below(st.w.metas.size())].get(); }
    char mode = "wa\0r"[g.below(4)]; int single = g.chance(1, 3) ? (int)g.below(2) : -2; S opt = st.options(mode, single); char em = st.expect_mode(f, mode, single);
    const DLiteInstance *inst = x ? x->inst : (DLiteInstance *)m->meta; int q;
    if (g.flip()) q = dlite_instance_save_loc("json", f.path.c_str(), opt.c_str(), inst); else q = dlite_instance_save_url(("json://" + f.path + (opt.empty() ? "" : "?" + opt)).c_str(), inst);
    int e = take_error(); g.log("save %s to %s?%s -> %d", inst->uuid, f.path.c_str(), opt.c_str(), q);
    HandleM h; h.file = fi; h.mode = em; h.single = single; h.store = em != 'w'; if (em && em != 'w') h.recs = f.recs;
    if (em && em != 'r') { st.saved(h, inst->uuid, x ? st.rec(*x) : st.rec(*m), !x); st.unref(h); REQUIRE(q == 0, "saving with %s fails: %s", opt.c_str(), dlite_errmsg()); }
    else { REQUIRE(q && e, "saving with %s is not refused", opt.c_str()); g.label("save refused"); }
    st.unchanged("saving"); if (x) check_inst(*x, "after saving");
  } else {
    bool noid = g.chance(1, 5); S id = noid ? S() : st.someid(), opt = g.flip() ? S("mode=r") : S(); char em = st.expect_mode(f, opt.size() ? 'r' : 0, -2);
    S uuid = noid ? S() : uuidof(id); DLiteInstance *inst; bool plain = !noid && id.find('?') == S::npos && id.find('"') == S::npos;
    if (plain && g.flip()) inst = dlite_instance_load_url(("json://" + f.path + (opt.empty() ? "" : "?" + opt) + "#" + id).c_str());
    else inst = dlite_instance_load_loc("json", f.path.c_str(), opt.size() ? opt.c_str() : NULL, noid ? g.flip() ? NULL : "" : id.c_str());
    g.log("load %s from %s?%s -> %s", noid ? "(no id)" : show(id).c_str(), f.path.c_str(), opt.c_str(), inst ? inst->uuid : "NULL");
    Recs none; Recs &recs = em && em != 'w' ? f.recs : none;
    if (noid && recs.size() != 1) { REQUIRE(!inst && take_error(), "loading without id from a file with %zu instances", recs.size()); dlite_errclr(); }
    else { if (noid) uuid = recs.begin()->first; st.found(inst, uuid, st.lookup(recs, uuid), "loading from file"); }
    st.unchanged("loading");
  }
}

PBT(D10, histories, 6000, 250000, 30, "an instance loaded from a storage written before") {
  Stores st(g); st.init(g.range(1, 3), g.range(1, 2)); bool loaded = false; bool many = g.flip();
  int n = 5 + g.size(60);
  for (int k = 0; k < n; k++) {
    HandleM *h = st.pick(); int fi = g.below(st.files.size()); FileM &f = st.files[fi]; InstM *x;
    switch (g.weighted({3, 2, 3, 5, 6, 3, 1, 2, 3, 1})) {
    case 0: st.create(); break;
    case 1: if ((x = st.w.pick()) && x->vals.size()) st.w.set_random(*x, g.below(x->vals.size())); break;
    case 2: if ((x = st.w.pick())) { g.log("release %s", x->uuid.c_str()); st.w.release(*x); } break;
    case 3: if (h && (!many || g.flip())) { if (g.chance(1, 4)) st.save(*h, NULL, st.w.metas[g.below(st.w.metas.size())].get()); else if ((x = st.w.pick())) st.save(*h, x, NULL); } break;
    case 4: if (h) { size_t nl = st.w.insts.size(); load(st, *h); st.unchanged("loading"); if (st.w.insts.size() > nl) loaded = true; } else if (g.flip()) one(st, fi); break;
    case 5: if (h) list(st, *h); break;
    case 6: {
      if (h && g.flip()) { REQUIRE(dlite_storage_delete(h->s, st.someid().c_str()) && take_error(), "deletion is not supported"); st.unchanged("deleting"); break; }
      bool used = false; for (auto &q : st.handles) if (q->open && q->file == fi) used = true;
      if (used) break;
      int kind = g.below(3); if (kind == 0) { unlink(f.path.c_str()); f.st = Missing; } else { f.st = kind == 1 ? Empty : Garbage; f.bytes = kind == 1 ? "" : g.pick<S>({"not json", "{", "[1, 2]", "\"x\"", "{\"a\": 1}", "{\"a\": {\"b\": 1}", "\xff\xfe", "{\"uri\": 1, \"properties\""}); st_spew(f.path, f.bytes); }
      f.recs.clear(); g.log("file %s is %s", f.path.c_str(), kind == 0 ? "removed" : kind == 1 ? "emptied" : "garbage"); break; }
    case 7: if (h) st.close(*h); break;
    case 8: { int nopen = 0; for (auto &q : st.handles) nopen += q->open; if (nopen < (many ? 4 : 1)) { char mode = "rrwaa\0\0x"[g.below(8)]; int single = g.chance(1, 3) ? (int)g.below(2) : -2; st.open(fi, mode, single); st.unchanged("opening"); } break; }
    case 9: {
      size_t nl = st.w.insts.size(); one(st, fi); if (st.w.insts.size() > nl) loaded = true; break; }
    }
    if (k % 8 == 7) st.w.check("during history");
  }
  // at last everything stored can be read
  for (auto &h : st.handles) if (h->open) st.close(*h);
  for (auto &x : st.w.insts) if (x->inst) st.w.release(*x);
  for (size_t i = 0; i < st.files.size(); i++) {
    FileM &f = st.files[i]; if (f.st != Single && f.st != Multi) continue;
    HandleM *h = st.open(i, 'r', -2);
    std::set<S> want, got; for (auto &r : f.recs) want.insert(r.first);
    char **p = dlite_storage_uuids(h->s, NULL); for (char **q = p; q && *q; q++) got.insert(*q);
    if (p) dlite_storage_uuids_free(p);
    REQUIRE(got == want, "file %s lists %zu instances, expected %zu", f.path.c_str(), got.size(), want.size());
    for (auto &r : f.recs) { DLiteInstance *inst = dlite_instance_load(h->s, r.first.c_str()); st.found(inst, r.first, &r.second, "final loading of " + r.first); loaded = true; }
    st.unchanged("final loading");
    for (auto &x : st.w.insts) if (x->inst) st.w.release(*x);
    st.close(*h);
  }
  if (loaded) g.nontrivial();
  st.finish();
}

// keys of hand-written files are kept when the file is appended to
PBT(D10, keys_kept, 2500, 60000, 40, "at least two instances") {
  Stores st(g); st.init(1, 1); FileM &f = st.files[0]; js::V doc = js::obj(); int n = g.range(1, 3); std::map<S, S> keys; Recs recs;
  for (int i = 0; i < n; i++) {
    S key = g.pick<S>({"key" + g.ident(), "http://a.b/" + g.ident(), "\"" + g.text(4) + "\\" + g.ident()}); S u = uuidof(key); if (recs.count(u)) continue;
    MetaM &m = *st.w.metas[0]; Rec r; r.m = &m; r.x.m = &m; r.x.dims = gen_dims(g, m, 2); if (dims_status(m, r.x.dims) != 1) continue;
    DLiteInstance *t = create_inst(m, r.x.dims, key.c_str()); REQUIRE(t, "create"); int k = dlite_json_sprint(NULL, 0, t, 0, (DLiteJsonFlag)dliteJsonSingle); S b(k, 0); dlite_json_sprint(&b[0], k + 1, t, 0, (DLiteJsonFlag)dliteJsonSingle); dlite_instance_decref(t);
    js::V v = js::parse(b, "instance"); if (g.flip()) for (size_t j = 0; j < v.o.size(); j++) if (v.o[j].first == "uri") { v.o.erase(v.o.begin() + j); break; }
    zero_vals(r.x); st_norm(r.x); r.x.uuid = u; r.x.uri = Elem(key); doc.o.push_back({key, v}); recs[u] = r; keys[u] = key;
  }
  if (recs.empty()) { st.finish(); return; }
  S t = js::print(doc); g.log("%s", t.c_str()); st_spew(f.path, t); f.bytes = t; f.st = Multi; f.recs = recs;
  for (int round = g.below(3); round >= 0; round--) {
    HandleM *h = st.open(0, 'a', -2); InstM *x = st.create(); if (x) { st.save(*h, x, NULL); x->uri = ostr(x->inst->uri); } st.close(*h);
    for (auto &y : st.w.insts) if (y->inst) st.w.release(*y);
  }
  HandleM *h = st.open(0, 'r', -2);
  for (auto &r : f.recs) { S id = keys.count(r.first) && g.flip() ? keys[r.first] : r.first; DLiteInstance *inst = dlite_instance_load(h->s, id.c_str()); st.found(inst, r.first, &r.second, "loading " + show(id)); }
  st.w.check("after loading");
  if (f.recs.size() > 1) g.nontrivial();
  st.finish();
}

// memory buffers
PBT(D10, buffers, 4000, 100000, 40, "an array with at least 2 elements") {
  Stores st(g); st.init(0, 1); InstM *x = NULL; for (int i = 0; i < 5 && !x; i++) x = st.create(); if (!x) { st.finish(); return; }
  S opt; for (const char *k : {"single", "uri-key", "with-uuid", "with-meta", "arrays"}) if (g.chance(1, 3)) opt += (opt.empty() ? S() : S(";")) + k + "=" + (g.flip() ? "yes" : "no");
  const char *o = opt.empty() && g.flip() ? NULL : opt.c_str();
  unsigned char b0[1]; int n = dlite_instance_memsave("json", b0, 0, x->inst, o); REQUIRE(n > 0, "dlite_instance_memsave: %s", dlite_errmsg());
  unsigned char *b = (unsigned char *)malloc(n + 1); int k = dlite_instance_memsave("json", b, n + 1, x->inst, o); REQUIRE(k == n && strlen((char *)b) == (size_t)n, "dlite_instance_memsave returns %d, then %d and writes %zu bytes", n, k, strlen((char *)b));
  int m = g.range(1, n); unsigned char *c = (unsigned char *)malloc(m); k = dlite_instance_memsave("json", c, m, x->inst, o); REQUIRE(k == n && !memcmp(b, c, m - 1), "dlite_instance_memsave to a small buffer"); free(c);
  unsigned char *d = dlite_instance_to_memory("json", x->inst, o); REQUIRE(d && !memcmp(d, b, n + 1), "dlite_instance_to_memory"); free(d);
  g.log("%s\n%s", opt.c_str(), b); js::parse(S((char *)b), "buffer");
  Rec r = st.rec(*x); S uuid = x->uuid, id = g.flip() ? uuid : x->uri.null ? S() : x->uri.b;
  if (g.flip()) st.w.release(*x);
  unsigned char *e = (unsigned char *)malloc(n); memcpy(e, b, n);   // exact size, not terminated
  DLiteInstance *inst = dlite_instance_memload("json", e, n, id.empty() ? NULL : id.c_str(), g.flip() ? NULL : "mode=r", g.flip() ? NULL : x->m->uri.c_str()); free(e); free(b);
  st.found(inst, uuid, &r, "loading from buffer");
  for (auto &v : r.x.vals) if (v.size() > 1) g.nontrivial();
  st.finish();
}
int main(int argc, char **argv) { child_init = init; return pbt::run_main(argc, argv); }
