// flavours: asan builtin
// D04: one live instance per identity, alive exactly while it is referenced, and nothing is leaked
#include "world.hpp"
#include "dlite-json.h"
#include "dlite-collection.h"
extern "C" {
#include "dlite-bson.h"
}
#define new new_
extern "C" {
#include "dlite-store.h"
}
#undef new
#include <unistd.h>
#ifdef VERIF_FLAVOUR_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
static size_t allocated() { return __sanitizer_get_current_allocated_bytes(); }
#else
static size_t allocated() { return 0; }
#endif
static void init() { world_finite = true; dlite_err_set_stream(NULL); for (const char **p; (p = dlite_storage_paths_get()) && p[0];) dlite_storage_paths_remove_index(0); dlite_collection_decref(dlite_collection_create(NULL)); dlite_instance_get("warm-up"); dlite_errclr(); }

static S scratch(int i) { static S d = getenv("VERIF_SCRATCH"); return fmt("%s/d04-%d-%d.json", d.c_str(), (int)getpid(), i); }

struct Obj {
  DLiteInstance *inst = NULL; S uuid; int seq = 0; bool coll = false, frozen = false; long n = 0, v = 0;
  Obj *ref = NULL, *parent = NULL; std::vector<Obj *> refs; std::vector<S> s; std::map<S, Obj *> members;
  int user = 0, in = 0;
  int count() const { return user + in; }
};
struct Saved { int kind = 0; S data, uuid; bool coll = false; long n = 0, v = 0; S ref; std::vector<S> refs; std::vector<S> s; };
struct StoreM { DLiteStore *st = NULL; std::map<S, int> has; };
typedef std::array<int, 4> Op;

// One execution of a history
struct Run {
  Gen *g;   // NULL: no logging
  const DLiteMeta *meta; const std::vector<S> &ids; std::vector<std::unique_ptr<Obj>> objs; std::vector<Saved> slots; StoreM st; int base, cbase, seq = 0; bool shared = false, cascade = false, relook = false, cyclic = false;
  Run(Gen *g_, const DLiteMeta *m, const std::vector<S> &i) : g(g_), meta(m), ids(i), slots(4) { base = m->_refcount; cbase = dlite_get_collection_entity()->_refcount; }
  template <class... A> void log(const char *f, A... a) { if (g) g->log(f, a...); }
  Obj *find(const S &uuid) { for (auto &o : objs) if (o->inst && o->uuid == uuid) return o.get(); return NULL; }
  static S uuid_of(const S &id) { char u[DLITE_UUID_LENGTH + 1]; int t = dlite_get_uuid(u, id.c_str()); REQUIRE(t >= 0, "uuid of %s", id.c_str()); return u; }
  Obj *nth(int k, int want = -1) { std::vector<Obj *> v; for (auto &o : objs) if (o->inst && o->user && (want < 0 || o->coll == (bool)want)) v.push_back(o.get()); return v.empty() ? NULL : v[k % v.size()]; }   // want: 1 collection, 0 node
  Obj *add(DLiteInstance *i, bool coll) { objs.emplace_back(new Obj); Obj *o = objs.back().get(); o->inst = i; o->uuid = i->uuid; o->coll = coll; o->seq = seq++; for (auto &p : objs) REQUIRE(p.get() == o || !p->inst || (p->uuid != o->uuid && p->inst != i), "a second instance of %s", i->uuid); return o; }
  void unref(Obj *o) { if (!o) return; o->in--; if (!o->count()) { cascade = true; dead(o); } }
  void dead(Obj *o) { o->inst = NULL; Obj *p = o->parent, *r = o->ref; auto rs = o->refs; auto ms = o->members; o->parent = o->ref = NULL; o->refs.clear(); o->members.clear(); unref(p); unref(r); for (auto *q : rs) unref(q); for (auto &m : ms) unref(m.second); }
  bool reaches(Obj *from, Obj *to) { for (; from; from = from->parent) if (from == to) return true; return false; }
  // contents -> the instance's own references
  void *prop(Obj *o, const char *n) { return dlite_instance_get_property(o->inst, n); }
  void check(const char *when) {
    int live = 0, colls = 0;
    for (auto &p : objs) {
      Obj *o = p.get(); const char *u = o->uuid.c_str(); DLiteInstance *i = dlite_instance_has(u, 0); dlite_errclr();
      if (!o->inst) { if (!find(o->uuid)) REQUIRE(!i, "%s: %s is still there although nothing refers to it", when, u); continue; }
      if (o->coll) colls++; else live++;
      REQUIRE(i == o->inst, "%s: %s is %s although it has %d references by the user and %d by others", when, u, i ? "another instance" : "gone", o->user, o->in);
      REQUIRE(i->_refcount == o->count(), "%s: reference count of %s is %d, expected %d by the user and %d by others", when, u, i->_refcount, o->user, o->in);
      REQUIRE(!strcmp(i->uuid, u) && i->meta == (o->coll ? dlite_get_collection_entity() : meta), "%s: %s is damaged", when, u);
      if (o->coll) { for (auto &m : o->members) REQUIRE(dlite_collection_get((DLiteCollection *)i, m.first.c_str()) == m.second->inst, "%s: item %s of %s", when, m.first.c_str(), u); continue; }
      REQUIRE(*(int32_t *)prop(o, "v") == o->v, "%s: %s has v=%d, expected %ld", when, u, *(int32_t *)prop(o, "v"), o->v);
      REQUIRE(*(DLiteInstance **)prop(o, "ref") == (o->ref ? o->ref->inst : NULL), "%s: %s refers to another instance", when, u);
      REQUIRE((long)dlite_instance_get_dimension_size_by_index(i, 0) == o->n, "%s: size of %s", when, u);
      for (long k = 0; k < o->n; k++) {
        REQUIRE(((DLiteInstance **)prop(o, "refs"))[k] == (o->refs[k] ? o->refs[k]->inst : NULL), "%s: reference %ld of %s", when, k, u);
        const char *t = ((char **)prop(o, "s"))[k]; REQUIRE(o->s[k] == (t ? t : ""), "%s: string %ld of %s is %s, expected %s", when, k, u, t ? t : "NULL", o->s[k].c_str());
      }
      REQUIRE(!!i->_parent == !!o->parent, "%s: parent of %s", when, u); if (o->parent) REQUIRE(i->_parent->parent == o->parent->inst || !i->_parent->parent, "%s: %s has another parent", when, u);
    }
    dlite_errclr();
    REQUIRE(meta->_refcount == base + live, "%s: reference count of the metadata is %d with %d instances, %d before there were any", when, meta->_refcount, live, base);
    REQUIRE(dlite_get_collection_entity()->_refcount == cbase + colls, "%s: reference count of the collection metadata is %d with %d collections, %d before there were any", when, dlite_get_collection_entity()->_refcount, colls, cbase);
  }
  void refused(const void *p, const char *what) { int e = take_error(); REQUIRE(!p, "%s is accepted", what); REQUIRE(e, "%s is refused without an error", what); }
  void got(DLiteInstance *i, Obj *o, const char *what) { REQUIRE(i, "%s of the live %s gives nothing: %s", what, o->uuid.c_str(), dlite_errmsg()); REQUIRE(i == o->inst, "%s of the live %s gives another instance", what, o->uuid.c_str()); o->user++; relook = true; dlite_errclr(); }
  void setref(Obj *&slot, Obj *to) { Obj *old = slot; slot = to; if (to) to->in++; unref(old); }
  void copyin(Obj *c, const Obj *o) { c->n = o->n; c->v = o->v; c->s = o->s; c->ref = o->ref; c->refs = o->refs; if (c->ref) c->ref->in++; for (auto *r : c->refs) if (r) r->in++; c->members = o->members; for (auto &m : c->members) m.second->in++; if (c->ref || c->members.size()) shared = true; }

  void create(const Op &op) {
    const char *id = op[1] % 3 == 0 ? NULL : ids[op[1] / 3 % ids.size()].c_str(); bool coll = op[2] % 4 == 3; size_t dims[1] = {(size_t)(op[3] % 3)}; Obj *o = id ? find(uuid_of(id)) : NULL;
    log("create %s %s n=%zu", coll ? "collection" : "node", id ? id : "NULL", dims[0]);
    DLiteInstance *i = coll ? (DLiteInstance *)dlite_collection_create(id) : op[2] % 4 == 1 ? dlite_instance_create_from_id(meta->uri, dims, id) : dlite_instance_create(meta, dims, id);
    if (o) {
      if (o->coll != coll || (coll ? !o->members.empty() : o->n != (long)dims[0])) refused(i, "creating an instance of another kind under an existing id"); else got(i, o, "creating an instance with the id");
      return;
    }
    REQUIRE(i, "create: %s", dlite_errmsg()); o = add(i, coll); o->user = 1; if (!coll) { o->n = dims[0]; o->refs.assign(o->n, NULL); o->s.assign(o->n, ""); } if (id) REQUIRE(o->uuid == uuid_of(id), "uuid of %s is %s", id, o->uuid.c_str());
    REQUIRE(uri_of_id(id) == (i->uri ? i->uri : ""), "uri of what is created as %s is %s", id ? id : "NULL", i->uri ? i->uri : "NULL");
  }
  S spelled(Obj *o, int k) { if (k % 3 == 0) for (auto &id : ids) if (uuid_of(id) == o->uuid) return id; if (k % 3 == 1 && o->inst && o->inst->uri) return o->inst->uri; return o->uuid; }
  void get(const Op &op) {
    S id; Obj *o = NULL; if (op[1] % 2) { id = ids[op[1] / 2 % ids.size()]; o = find(uuid_of(id)); } else if (objs.size()) { Obj *p = objs[op[1] / 2 % objs.size()].get(); id = spelled(p, op[2]); o = find(p->uuid); } else return;
    log("get %s", id.c_str()); dlite_errclr();
    switch (op[3] % 4) {
    case 0: case 1: { DLiteInstance *i = dlite_instance_get(id.c_str()); if (o) got(i, o, "looking up"); else refused(i, "looking up an instance that is gone"); break; }
    case 2: if (o) got(dlite_instance_load_loc("json", "/nonexistent/x.json", NULL, id.c_str()), o, "loading"); break;
    case 3: if (o && !o->coll) { DLiteInstance *i = dlite_instance_get_casted(id.c_str(), NULL); got(i, o, "looking up"); } break;
    }
  }
  void decref(Obj *o) { int r = dlite_instance_decref(o->inst); o->user--; REQUIRE(r == o->count(), "decref of %s returns %d, expected %d", o->uuid.c_str(), r, o->count()); if (!o->count()) dead(o); }
  bool cyc(Obj *from, Obj *to) { std::set<Obj *> seen; std::vector<Obj *> q = {from}; while (q.size()) { Obj *o = q.back(); q.pop_back(); if (!o || !seen.insert(o).second) continue; if (o == to) return true; q.push_back(o->ref); q.push_back(o->parent); for (auto *r : o->refs) q.push_back(r); } return false; }
  void set(Obj *o, const Op &op) {
    if (o->frozen) { Obj *t = nth(op[2], 0); DLiteInstance *v = t ? t->inst : NULL; int r = dlite_instance_set_property(o->inst, "ref", &v); REQUIRE(r != 0 && take_error(), "a frozen instance is changed"); return; }
    switch (op[3] % 5) {
    case 0: case 1: { Obj *t = op[2] % 3 == 0 ? NULL : nth(op[2] / 3, 0); DLiteInstance *v = t ? t->inst : NULL; log("%s.ref = %s", o->uuid.c_str(), v ? v->uuid : "NULL"); if (t && cyc(t, o)) cyclic = true;
      int r = op[3] % 5 ? dlite_instance_set_property(o->inst, "ref", &v) : dlite_instance_set_property_by_index(o->inst, 0, &v); REQUIRE(r == 0, "set ref: %s", dlite_errmsg()); if (t) shared = true; setref(o->ref, t); break; }
    case 2: case 3: { std::vector<DLiteInstance *> v; std::vector<Obj *> t; S d; for (long k = 0; k < o->n; k++) { Obj *q = (op[2] >> k) % 3 == 0 ? NULL : nth(op[2] / 3 + k * op[1], 0); t.push_back(q); v.push_back(q ? q->inst : NULL); if (q && cyc(q, o)) cyclic = true; d += q ? q->uuid + " " : S("NULL "); } if (v.empty()) v.push_back(NULL);
      log("%s.refs = %s", o->uuid.c_str(), d.c_str()); REQUIRE(dlite_instance_set_property(o->inst, "refs", v.data()) == 0, "set refs: %s", dlite_errmsg());
      auto old = o->refs; o->refs = t; for (auto *q : t) if (q) q->in++; for (auto *q : old) unref(q); break; }
    case 4: { int32_t v = op[2]; REQUIRE(dlite_instance_set_property(o->inst, "v", &v) == 0, "set v"); o->v = v; std::vector<S> s; std::vector<const char *> p; for (long k = 0; k < o->n; k++) s.push_back(fmt("%d", (op[2] >> k) % 1000)); for (auto &q : s) p.push_back(q.c_str()); p.push_back(NULL); REQUIRE(dlite_instance_set_property(o->inst, "s", p.data()) == 0, "set s"); o->s = s; break; }
    }
  }
  void resize(Obj *o, long n) {
    int d = (int)n; int r = dlite_instance_set_dimension_sizes(o->inst, &d); log("resize %s to %ld", o->uuid.c_str(), n);
    if (o->frozen) { REQUIRE(n == o->n || r, "a frozen instance is resized"); dlite_errclr(); return; }
    REQUIRE(r == 0, "resize: %s", dlite_errmsg()); for (long k = n; k < o->n; k++) setref(o->refs[k], NULL); o->refs.resize(n, NULL); o->s.resize(n, ""); o->n = n;
  }
  void copy(Obj *o, const Op &op) {
    const char *id = op[2] % 2 ? NULL : ids[op[2] / 2 % ids.size()].c_str(); bool taken = id && find(uuid_of(id)); log("copy %s to %s", o->uuid.c_str(), id ? id : "NULL");
    DLiteInstance *i = dlite_instance_copy(o->inst, id); if (taken) { refused(i, "copying onto an existing id"); return; }
    REQUIRE(i, "copy: %s", dlite_errmsg()); Obj *c = add(i, o->coll); c->user = 1; copyin(c, o); c->parent = o->parent; if (c->parent) c->parent->in++;
  }
  void snapshot(Obj *o) {
    if (o->frozen) return; log("snapshot %s", o->uuid.c_str());
    REQUIRE(dlite_instance_snapshot(o->inst) == 0, "snapshot: %s", dlite_errmsg()); DLiteInstance *i = (DLiteInstance *)o->inst->_parent->parent; Obj *c = add(i, o->coll); copyin(c, o); c->frozen = true; c->parent = o->parent; o->parent = c; c->in++;
    REQUIRE(dlite_instance_get_snapshot(o->inst, 1) == i, "snapshot 1 is not the parent");
  }
  void setparent(Obj *o, Obj *p) {
    if (!p->frozen || o->coll || p->coll || reaches(p, o) || o->frozen) return; log("parent of %s: %s", o->uuid.c_str(), p->uuid.c_str());
    REQUIRE(dlite_instance_set_parent(o->inst, p->inst) == 0, "set_parent: %s", dlite_errmsg()); setref(o->parent, p); 
  }
  void collect(Obj *c, const Op &op) {
    DLiteCollection *q = (DLiteCollection *)c->inst; S label = op[2] % 3 == 0 ? "x" : op[2] % 3 == 1 ? "y" : "z"; bool has = c->members.count(label); if (c->frozen) return; Obj *o = nth(op[3] / 8, 0);
    switch (op[3] % 8) {
    case 0: case 1: case 2: case 3: {
      if (!o) return; bool give = op[3] % 8 == 3; log("%s: add%s %s %s", c->uuid.c_str(), give ? " and give away" : "", label.c_str(), o->uuid.c_str());
      int r = give ? dlite_collection_add_new(q, label.c_str(), o->inst) : dlite_collection_add(q, label.c_str(), o->inst);
      if (has) { REQUIRE(r != 0 && take_error(), "adding an item under an existing label is not refused"); return; }
      REQUIRE(r == 0, "add: %s", dlite_errmsg()); o->in++; c->members[label] = o; if (give) o->user--; shared = true; break; }
    case 4: case 5: { int r = dlite_collection_remove(q, label.c_str()); log("%s: remove %s -> %d", c->uuid.c_str(), label.c_str(), r); if (!has) { REQUIRE(r != 0, "removing an item that is not there"); dlite_errclr(); return; } REQUIRE(r == 0, "remove: %s", dlite_errmsg()); Obj *m = c->members[label]; c->members.erase(label); unref(m); break; }
    case 6: { DLiteInstance *i = dlite_collection_get_new(q, label.c_str(), op[1] % 2 ? meta->uri : NULL); if (!has) { refused(i, "getting an item that is not there"); return; } got(i, c->members[label], "getting an item"); log("%s: get %s", c->uuid.c_str(), label.c_str()); break; }
    case 7: if (has) { Obj *m = c->members[label]; REQUIRE(dlite_collection_get(q, label.c_str()) == m->inst && dlite_collection_get_id(q, m->uuid.c_str()) == m->inst, "borrowed item"); } break;
    }
  }
  void save(Obj *o, const Op &op) {
    Saved &s = slots[op[2] % slots.size()]; int which = op[2] % slots.size(); Saved t; t.kind = 1 + op[3] % 3; if (o->coll) return; t.uuid = o->uuid; t.n = o->n; t.v = o->v; t.s = o->s; if (o->ref) t.ref = o->ref->uuid; for (auto *r : o->refs) t.refs.push_back(r ? r->uuid : S()); 
    if (o->parent) t.kind = 0;   // loading transactions is another property
    switch (t.kind) {
    case 1: { int n = dlite_json_sprint(NULL, 0, o->inst, 0, (DLiteJsonFlag)(dliteJsonSingle | dliteJsonWithUuid)); REQUIRE(n > 0, "json"); t.data.resize(n); dlite_json_sprint(&t.data[0], n + 1, o->inst, 0, (DLiteJsonFlag)(dliteJsonSingle | dliteJsonWithUuid)); break; }
    case 2: { size_t n; unsigned char *b = dlite_bson_from_instance(o->inst, &n); REQUIRE(b, "bson"); t.data.assign((char *)b, n); free(b); break; }
    case 3: { t.data = "json://" + scratch(which) + "?mode=w"; REQUIRE(dlite_instance_save_url(t.data.c_str(), o->inst) == 0, "save: %s", dlite_errmsg()); t.data = "json://" + scratch(which) + "?mode=r"; break; }
    }
    log("slot %d: %s as %d", which, o->uuid.c_str(), t.kind); s = t;
  }
  void load(const Op &op) {
    int which = op[2] % slots.size(); Saved &s = slots[which]; if (!s.kind) return; Obj *o = find(s.uuid);
    if (!o) { auto ok = [&](const S &r) { return r.empty() || find(r); }; if (!ok(s.ref)) return; for (auto &r : s.refs) if (!ok(r)) return; }
    if (o && o->coll) return; log("load slot %d (%s, %s)", which, s.uuid.c_str(), o ? "live" : "gone");
    DLiteInstance *i = NULL; int k = op[3] % 4;
    switch (s.kind) {
    case 1: i = dlite_json_sscan(s.data.c_str(), k % 2 ? s.uuid.c_str() : NULL, k / 2 ? meta->uri : NULL); break;
    case 2: i = dlite_bson_load_instance((const unsigned char *)s.data.data()); break;
    case 3: if (k == 0) i = dlite_instance_load_url((s.data + "#" + s.uuid).c_str()); else if (k == 1) i = dlite_instance_load_url(s.data.c_str()); else { DLiteStorage *t = dlite_storage_open("json", scratch(which).c_str(), "mode=r"); REQUIRE(t, "open"); i = dlite_instance_load(t, k == 2 ? s.uuid.c_str() : NULL); dlite_storage_close(t); } break;
    }
    if (o) { got(i, o, "loading"); return; }
    REQUIRE(i, "load: %s", dlite_errmsg()); dlite_errclr(); o = add(i, false); REQUIRE(o->uuid == s.uuid, "loaded %s instead of %s", i->uuid, s.uuid.c_str()); o->user = 1; o->n = s.n; o->v = s.v; o->s = s.s; o->ref = s.ref.empty() ? NULL : find(s.ref); if (o->ref) o->ref->in++; for (auto &r : s.refs) { Obj *q = r.empty() ? NULL : r == s.uuid ? o : find(r); o->refs.push_back(q); if (q) q->in++; } if (o->ref) shared = true;
  }
  void store(const Op &op) {
    if (!st.st) { st.st = dlite_store_create(); REQUIRE(st.st, "create store"); } Obj *o = nth(op[1]);
    switch (op[3] % 8) {
    case 0: case 1: if (o) { log("store add %s", o->uuid.c_str()); REQUIRE(dlite_store_add(st.st, o->inst) == 0, "store add"); st.has[o->uuid]++; o->in++; shared = true; } break;
    case 2: if (o) { log("store add and give away %s", o->uuid.c_str()); REQUIRE(dlite_store_add_new(st.st, o->inst) == 0, "store add"); st.has[o->uuid]++; o->in++; o->user--; } break;
    case 3: case 4: case 5: {
      S id; if (op[2] % 3 == 0 || st.has.empty()) { id = ids[op[2] / 3 % ids.size()]; } else id = std::next(st.has.begin(), 0)->first; S u = uuid_of(id); bool has = st.has.count(u); Obj *q = has ? find(u) : NULL;
      if (op[3] % 8 == 3) { int r = dlite_store_remove(st.st, id.c_str()); log("store remove %s -> %d", id.c_str(), r); REQUIRE(!r == has, "store remove gives %d", r); if (!has) { REQUIRE(take_error(), "no error"); return; } if (!--st.has[u]) st.has.erase(u); unref(q); break; }
      bool all = op[3] % 8 == 5; DLiteInstance *i = all ? dlite_store_pop_all(st.st, id.c_str()) : dlite_store_pop(st.st, id.c_str()); log("store pop%s %s", all ? " all" : "", id.c_str()); if (!has) { refused(i, "popping an instance that is not in the store"); return; }
      REQUIRE(i == q->inst, "popped another instance"); q->in -= all ? st.has[u] : 1; q->user++; if (all || !--st.has[u]) st.has.erase(u); break; }
    case 6: for (auto &h : st.has) REQUIRE(dlite_store_get(st.st, h.first.c_str()) == find(h.first)->inst, "store get"); { std::set<S> a, b; DLiteStoreIter it = dlite_store_iter(st.st); while (const char *u = dlite_store_next(st.st, &it)) REQUIRE(a.insert(u).second, "%s listed twice", u); for (auto &h : st.has) b.insert(h.first); REQUIRE(a == b, "the store lists %zu instances, expected %zu", a.size(), b.size()); } break;
    case 7: freestore(); break;
    }
  }
  void freestore() { if (!st.st) return; log("free store%s", ""); dlite_store_free(st.st); st.st = NULL; auto h = st.has; st.has.clear(); for (auto &e : h) { Obj *o = find(e.first); for (int k = 0; k < e.second; k++) unref(o); } }
  void step(const Op &op) {
    Obj *o = nth(op[1]);
    switch (op[0]) {
    case 0: create(op); break;
    case 1: if (o) { int r = dlite_instance_incref(o->inst); o->user++; REQUIRE(r == o->count(), "incref returns %d", r); } break;
    case 2: if (o) { log("decref %s", o->uuid.c_str()); decref(o); } break;
    case 3: get(op); break;
    case 4: if ((o = nth(op[1], 0))) set(o, op); break;
    case 5: if ((o = nth(op[1], 0))) resize(o, op[2] % 4); break;
    case 6: if (o) copy(o, op); break;
    case 7: if (o && o->parent == NULL) snapshot(o); break;
    case 8: if (Obj *p = nth(op[2], 0)) if (o) setparent(o, p); break;
    case 9: if ((o = nth(op[1], 1))) collect(o, op); break;
    case 10: if (o) save(o, op); break;
    case 11: load(op); break;
    case 12: store(op); break;
    case 13: if (o && !o->coll) { dlite_instance_freeze(o->inst); o->frozen = true; } break;
    }
  }
  void run(const std::vector<Op> &ops) {
    int k = 0; for (auto &op : ops) { step(op); char w[60]; snprintf(w, sizeof w, "after step %d (operation %d)", ++k, op[0]); check(w); }
    freestore(); check("after freeing the store");
    for (auto &p : objs) { while (p->inst && p->user) decref(p.get()); }
    check("after releasing all references of the user");
    // what is left refers to itself
    std::vector<Obj *> left; for (auto &p : objs) if (p->inst) left.push_back(p.get());
    for (auto *o : left) { DLiteInstance *i = dlite_instance_get(o->uuid.c_str()); REQUIRE(i == o->inst, "lookup of %s", o->uuid.c_str()); o->user++; cyclic = true; }
    for (auto *o : left) { o->inst->_flags &= ~dliteImmutable; o->frozen = false; setnull(o); }
    for (auto *o : left) decref(o);
    for (auto &p : objs) REQUIRE(!p->inst, "model: %s is left", p->uuid.c_str());
    check("at the end");
  }
  void setnull(Obj *o) { if (o->coll) return; DLiteInstance *v = NULL; REQUIRE(dlite_instance_set_property(o->inst, "ref", &v) == 0, "reset"); setref(o->ref, NULL); resize(o, 0); }
};

PBT(D04, histories, 3000, 150000, 20, "some instance got another owner, and some instance was released with its owner or looked up again while it was alive") {
  static int count = 0; MetaM m; m.uri = fmt("http://onto-ns.com/meta/0.%d/Node", count++); m.descr = Elem(S("")); m.dims = {{"n", Elem(S(""))}};
  DimExpr dn{"n", [](const std::vector<long> &d) { return d[0]; }};
  { PropM p; p.name = "ref"; p.t = {dliteRef, sizeof(void *)}; p.ref = Elem(m.uri); m.props.push_back(p); } { PropM p; p.name = "refs"; p.t = {dliteRef, sizeof(void *)}; p.ref = Elem(m.uri); p.shape.push_back(dn); m.props.push_back(p); }
  { PropM p; p.name = "v"; p.t = {dliteInt, 4}; m.props.push_back(p); } { PropM p; p.name = "s"; p.t = {dliteStringPtr, sizeof(char *)}; p.shape.push_back(dn); m.props.push_back(p); }
  m.meta = create_meta(m); REQUIRE(m.meta, "meta: %s", dlite_errmsg());
  std::vector<S> ids = {"onto://x.y/data1", "item", "onto://x.y/ns/0.1/other"}; { char u[DLITE_UUID_LENGTH + 1]; memset(u, 0, sizeof u); dlite_get_uuid(u, "fixed"); S v = u; ids.push_back(v); ids.push_back("onto://x.y/items/" + v); }
  std::vector<Op> ops; int n = 4 + g.range(0, 30) + g.size(60); for (int i = 0; i < n; i++) ops.push_back(Op{(int)i < 2 ? 0 : (int)g.weighted({7, 2, 6, 4, 10, 3, 3, 2, 1, 6, 3, 4, 5, 1}), (int)g.below(1000), (int)g.below(1000), (int)g.below(1000)});
  bool nt; { Run r(&g, m.meta, ids); r.run(ops); nt = r.shared && (r.cascade || r.relook); if (r.cyclic) g.label("cycle"); if (r.cascade) g.label("cascade"); if (r.relook) g.label("looked up again"); }
  size_t a[3] = {0, 0, 0}; for (int k = 0; k < 3; k++) { { Run r(NULL, m.meta, ids); r.run(ops); } dlite_errclr(); a[k] = allocated(); }
  REQUIRE(a[2] == a[1] || a[1] == a[0], "repeating the history leaves %ld more bytes allocated each time", (long)a[2] - (long)a[1]);
  for (int i = 0; i < 4; i++) unlink(scratch(i).c_str());
  // metadata stays available
  if (nt) g.nontrivial();
  REQUIRE(dlite_instance_has(m.uri.c_str(), 0) == (DLiteInstance *)m.meta, "metadata is gone"); dlite_meta_decref(m.meta); REQUIRE(dlite_instance_has(m.uri.c_str(), 0) == (DLiteInstance *)m.meta, "metadata is gone after releasing it");
}

// An in-memory store written to a storage and read back
PBT(D04, stores, 600, 20000, 20, "a store with several instances is read back after the instances are gone") {
  World w(g); MetaOpt o; o.maxprops = 3; w.init(2, o); DLiteStore *st = dlite_store_create(); REQUIRE(st, "create"); int n = g.range(0, 4); std::map<S, InstM> m; bool data = false; 
  for (int i = 0; i < n; i++) { int mi = g.below(2); auto d = gen_dims(g, *w.metas[mi], 3); if (dims_status(*w.metas[mi], d) != 1) continue; InstM *x = w.create(mi, d, g.flip() ? NULL : fmt("http://x.y/d%d", i).c_str()); for (size_t j = 0; j < x->vals.size(); j++) { w.set_random(*x, j); if (x->vals[j].size()) data = true; }
    if (m.count(x->uuid)) continue; int k = g.range(1, 3); for (int q = 0; q < k; q++) REQUIRE(dlite_store_add(st, x->inst) == 0, "add: %s", dlite_errmsg()); REQUIRE(x->inst->_refcount == 1 + k, "reference count"); m[x->uuid] = *x; }
  S f = scratch(9); DLiteStorage *s = dlite_storage_open("json", f.c_str(), "mode=w"); REQUIRE(s, "open: %s", dlite_errmsg()); REQUIRE(dlite_store_save(s, st) == 0, "save: %s", dlite_errmsg()); REQUIRE(dlite_storage_close(s) == 0, "close: %s", dlite_errmsg()); dlite_store_free(st); bool keep = g.chance(1, 4);
  std::set<S> kept; for (auto &x : w.insts) { REQUIRE(x->inst->_refcount == 1, "reference count of %s is %d after the store was freed", x->uuid.c_str(), x->inst->_refcount); if (keep && g.flip()) kept.insert(x->uuid); else w.release(*x); }
  g.log("%zu instances, %zu kept", m.size(), kept.size()); 
  if (m.size()) {   // (nothing saved: no file)
    s = dlite_storage_open("json", f.c_str(), "mode=r"); REQUIRE(s, "reopen: %s", dlite_errmsg()); st = dlite_store_load(s); REQUIRE(st, "load: %s", dlite_errmsg()); REQUIRE(dlite_storage_close(s) == 0, "close");
    std::set<S> names; DLiteStoreIter it = dlite_store_iter(st); while (const char *u = dlite_store_next(st, &it)) { REQUIRE(m.count(u), "unexpected %s", u); REQUIRE(names.insert(u).second, "%s twice", u); } REQUIRE(names.size() == m.size(), "%zu instances are read back, expected %zu", names.size(), m.size());
    for (auto &e : m) { DLiteInstance *i = dlite_store_get(st, e.first.c_str()); REQUIRE(i, "no %s", e.first.c_str()); REQUIRE(i->_refcount == 1 + (int)kept.count(e.first), "reference count of %s is %d", e.first.c_str(), i->_refcount); InstM y = e.second; y.inst = i; check_inst(y, "read back"); }
    dlite_store_free(st); for (auto &e : m) { DLiteInstance *i = dlite_instance_has(e.first.c_str(), 0); REQUIRE(!!i == !!kept.count(e.first), "%s %s", e.first.c_str(), i ? "is left" : "is gone"); } dlite_errclr();
  }
  if (m.size() > 1 && data) g.nontrivial();
  unlink(f.c_str()); w.finish();
}
int main(int argc, char **argv) { child_init = init; return pbt::run_main(argc, argv); }
