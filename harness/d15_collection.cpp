// flavours: asan builtin
// D15: collections against sets of relations and counted references.
#include "world.hpp"
#include "dlite-collection.h"

struct T4 { S s, p, o; Elem d; bool operator<(const T4 &x) const { return std::tie(s, p, o, d.null, d.b) < std::tie(x.s, x.p, x.o, x.d.null, x.d.b); }
  bool operator==(const T4 &x) const { return s == x.s && p == x.p && o == x.o && d == x.d; } };
static S show4(const T4 &t) { return "(" + show(t.s) + " " + show(t.p) + " " + show(t.o) + " " + (t.d.null ? S("IRI") : show(t.d.b)) + ")"; }
static T4 of(const DLiteRelation *t) { return {t->s, t->p, t->o, ostr(t->d)}; }
struct Pat { Elem s = Elem::Null(), p = Elem::Null(), o = Elem::Null(), d = Elem::Null(); };
static const char *cs(const Elem &e) { return e.null ? NULL : e.b.c_str(); }
static bool match(const T4 &t, const Pat &q) {
  if (!q.s.null && q.s.b != t.s) return false;
  if (!q.p.null && q.p.b != t.p) return false;
  if (!q.o.null && q.o.b != t.o) return false;
  if (q.d.null) return true;
  if (q.d.b.empty()) return t.d.null;
  return !t.d.null && t.d.b == q.d.b;
}
static Pat pat(const char *s, const char *p, const char *o = NULL, const char *d = NULL) { return {ostr(s), ostr(p), ostr(o), ostr(d)}; }
static S showp(const Pat &q) { auto f = [](const Elem &e) { return e.null ? S("*") : show(e.b); }; return f(q.s) + " " + f(q.p) + " " + f(q.o) + " " + f(q.d); }
typedef std::set<T4> Rel;
static Rel sel(const Rel &m, const Pat &q) { Rel r; for (auto &t : m) if (match(t, q)) r.insert(t); return r; }

struct Obj {          // an instance that can be held by collections
  S uuid, uri, metauri; DLiteInstance *p = NULL; int user = 0, held = 0; bool frozen = false, iscoll = false;
  InstM *x = NULL;    // plain instances
  Rel rel;            // collections
  bool alive() const { return user + held > 0; }
};

struct CW {
  Gen &g; World w; std::vector<std::unique_ptr<Obj>> objs; std::vector<S> labels; S what;
  CW(Gen &g_) : g(g_), w(g_) {}
  Obj *find(const S &uuid) { for (auto &o : objs) if (o->uuid == uuid && o->alive()) return o.get(); return NULL; }
  Obj *pickcoll() { std::vector<Obj *> v; for (auto &o : objs) if (o->iscoll && o->alive()) v.push_back(o.get()); return v.empty() ? NULL : v[g.below(v.size())]; }
  size_t indexof(Obj *o) { for (size_t i = 0; i < objs.size(); i++) if (objs[i].get() == o) return i; return 0; }
  // objects that may be put into a collection: anything but collections created later or itself
  Obj *pickitem(Obj *c) { std::vector<Obj *> v; size_t n = indexof(c); for (size_t i = 0; i < objs.size(); i++) { Obj *o = objs[i].get(); if (o->alive() && (!o->iscoll || i < n)) v.push_back(o); } return v.empty() ? NULL : v[g.below(v.size())]; }
  void dead(Obj *o) {
    if (o->iscoll) { Rel r = o->rel; o->rel.clear(); for (auto &t : r) gone(t); }
    if (o->x) o->x->inst = NULL;
    o->p = NULL;
  }
  void unhold(Obj *o) { o->held--; if (!o->alive()) dead(o); }
  void gone(const T4 &t) { if (t.p == "_has-uuid") { Obj *o = find(t.o); if (!o) fail("model: %s", t.o.c_str()); unhold(o); } }
  void unuse(Obj *o) { o->user--; if (!o->alive()) dead(o); }
  void put(Obj *c, const T4 &t) { if (c->rel.insert(t).second && t.p == "_has-uuid") { Obj *o = find(t.o); if (!o) fail("model: %s", t.o.c_str()); o->held++; } }
  size_t removeall(Obj *c, const Pat &q) { Rel d = sel(c->rel, q); for (auto &t : d) c->rel.erase(t); for (auto &t : d) gone(t); return d.size(); }
  DLiteCollection *C(Obj *o) { return (DLiteCollection *)o->p; }

  void check(const char *when) {
    for (auto &op : objs) {
      Obj *o = op.get();
      if (!o->alive()) { REQUIRE(!dlite_instance_has(o->uuid.c_str(), 0), "%s: %s %s is still found after its last reference has been released", when, o->iscoll ? "collection" : "instance", o->uuid.c_str()); continue; }
      DLiteInstance *p = dlite_instance_has(o->uuid.c_str(), 0);
      REQUIRE(p, "%s: %s %s disappeared (%d references by the user and %d by collections)", when, o->iscoll ? "collection" : "instance", o->uuid.c_str(), o->user, o->held);
      REQUIRE(p == o->p, "%s: %s was replaced by another instance", when, o->uuid.c_str());
      REQUIRE(p->_refcount == o->user + o->held, "%s: %s %s has reference count %d, expected %d by the user and %d by collections", when, o->iscoll ? "collection" : "instance", o->uuid.c_str(), p->_refcount, o->user, o->held);
      if (o->x) { o->x->inst = p; check_inst(*o->x, when); }
      else checkcoll(o, when);
    }
    dlite_errclr();
  }
  void cmp(const std::vector<T4> &got, const Rel &want, const S &what) {
    Rel seen;
    for (auto &t : got) { REQUIRE(want.count(t), "%s: %s is not expected", what.c_str(), show4(t).c_str()); REQUIRE(seen.insert(t).second, "%s: %s twice", what.c_str(), show4(t).c_str()); }
    for (auto &t : want) REQUIRE(seen.count(t), "%s: %s is missing", what.c_str(), show4(t).c_str());
  }
  void checkcoll(Obj *o, const char *when) {
    DLiteCollection *c = C(o); const char *u = o->uuid.c_str();
    REQUIRE((size_t)dlite_instance_get_dimension_size(o->p, "nrelations") == o->rel.size(), "%s: dimension nrelations of %s is %d, expected %zu", when, u, dlite_instance_get_dimension_size(o->p, "nrelations"), o->rel.size());
    size_t n = sel(o->rel, pat(NULL, "_is-a", "Instance")).size();
    REQUIRE(dlite_collection_count(c) == (int)n, "%s: count is %d, expected %zu", when, dlite_collection_count(c), n);
    DLiteCollectionState st; std::vector<T4> v; dlite_collection_init_state(c, &st);
    while (const DLiteRelation *r = dlite_collection_find(c, &st, NULL, NULL, NULL, NULL)) { v.push_back(of(r)); if (v.size() > o->rel.size() + 3) break; }
    dlite_collection_deinit_state(&st);
    cmp(v, o->rel, fmt("%s: relations of %s", when, u));
    // instances by iteration
    std::multiset<S> want, got; for (auto &t : o->rel) if (t.p == "_has-uuid") want.insert(t.o);
    dlite_collection_init_state(c, &st);
    while (DLiteInstance *i = dlite_collection_next(c, &st)) { got.insert(i->uuid); if (got.size() > want.size() + 2) break; }
    dlite_collection_deinit_state(&st);
    REQUIRE(got == want, "%s: iterating %s gives %zu instances, expected %zu (or different ones)", when, u, got.size(), want.size());
    // the relations as property
    if (g.chance(1, 4)) {
      DLiteRelation *r = (DLiteRelation *)dlite_instance_get_property(o->p, "relations"); v.clear();
      REQUIRE(r || o->rel.empty(), "%s: no relations property", when);
      for (size_t i = 0; i < o->rel.size(); i++) { REQUIRE(r[i].s && r[i].p && r[i].o, "%s: relation %zu of the property is not set", when, i); v.push_back(of(r + i)); }
      cmp(v, o->rel, fmt("%s: property relations of %s", when, u));
    }
    dlite_errclr();
  }
  Obj *newinst() {
    int mi = g.below(w.metas.size()); S id; if (g.chance(1, 3)) id = "http://data.org/i" + fmt("%zu", objs.size());
    InstM *x = w.create(mi, gen_dims(g, *w.metas[mi], 3), id.empty() ? NULL : id.c_str());
    if (!x) return NULL;
    if (x->m->props.size()) for (int i = 0; i < 3; i++) w.set_random(*x, g.below(x->m->props.size()));
    Obj *o = new Obj; objs.emplace_back(o); o->uuid = x->uuid; o->uri = id; o->metauri = x->m->uri; o->p = x->inst; o->user = 1; o->x = x; return o;
  }
  Obj *newcoll() {
    S id; if (g.chance(1, 3)) id = "http://data.org/c" + fmt("%zu", objs.size());
    DLiteCollection *c = dlite_collection_create(id.empty() ? NULL : id.c_str());
    REQUIRE(c, "cannot create a collection");
    Obj *o = new Obj; objs.emplace_back(o); o->uuid = c->uuid; o->uri = id; o->metauri = "http://onto-ns.com/meta/0.1/Collection"; o->p = (DLiteInstance *)c; o->user = 1; o->iscoll = true;
    g.log("collection %zu: %s", objs.size() - 1, c->uuid);
    return o;
  }
  S label() { return g.pick(labels); }
  T4 userrel(Obj *c) {
    static const std::vector<S> preds = {"knows", "is-part-of", "_has-dimmap", "a", "p"};
    T4 t{g.chance(1, 2) ? label() : g.ident(3), g.pick(preds), g.chance(1, 3) ? label() : g.ident(3), Elem::Null()};
    if (!c->rel.empty() && g.chance(1, 4)) { auto it = c->rel.begin(); std::advance(it, g.below(c->rel.size())); t = *it; if (t.p[0] == '_' && t.p != "_has-dimmap") t.p = "knows"; if (g.flip()) t.d = Elem::Null(); }
    else if (g.chance(1, 3)) { t.d = Elem(g.pick<S>({"xsd:int", "@en", "xsd:anyURI"})); if (g.flip()) t.o = g.text(12); if (t.o.empty()) t.o = "x"; }
    return t;
  }
  Pat genpat(Obj *c) {
    Pat q; T4 t = userrel(c);
    if (!c->rel.empty() && g.chance(4, 5)) { auto it = c->rel.begin(); std::advance(it, g.below(c->rel.size())); t = *it; }
    if (g.flip()) q.s = Elem(t.s);
    if (g.flip()) q.p = Elem(t.p);
    if (g.flip()) q.o = Elem(t.o);
    if (g.chance(1, 3)) q.d = t.d.null ? Elem(S("")) : t.d;
    return q;
  }
  bool consistent(Obj *c) {   // every instance has its metadata
    for (auto &t : c->rel) if (t.p == "_has-uuid") {
      if (sel(c->rel, pat(t.s.c_str(), "_has-meta")).empty()) return false;
      Obj *o = find(t.o); for (auto &m : sel(c->rel, pat(t.s.c_str(), "_has-meta"))) if (o && m.o != o->metauri) return false;
      if (o && o->iscoll && !consistent(o)) return false;
    }
    return true;
  }
  void step() {
    Obj *c = pickcoll(); if (!c) c = newcoll();
    DLiteCollection *p = C(c); size_t ci = indexof(c);
    switch (g.weighted({10, 4, 6, 3, 3, 3, 5, 3, 4, 3, 3, 2, 1, 2, 2})) {
    case 0: {                                  // add
      Obj *o = pickitem(c); if (!o) { newinst(); return; }
      S l = label(); bool steal = o->user > 0 && g.chance(1, 3);
      bool dup = !sel(c->rel, pat(l.c_str(), "_is-a", "Instance")).empty();
      g.log("%zu add%s %s obj %zu%s%s", ci, steal ? "_new" : "", show(l).c_str(), indexof(o), dup ? " (in use)" : "", c->frozen ? " (frozen)" : "");
      int r = steal ? dlite_collection_add_new(p, l.c_str(), o->p) : dlite_collection_add(p, l.c_str(), o->p);
      if (dup || c->frozen) { REQUIRE(r, "adding under %s succeeded", dup ? "a label in use" : "a label to a frozen collection"); REQUIRE(take_error(), "no error"); g.label(dup ? "label in use" : "frozen"); }
      else {
        REQUIRE(!r, "add failed");
        put(c, {l, "_is-a", "Instance", Elem::Null()}); put(c, {l, "_has-uuid", o->uuid, Elem(S("xsd:anyURI"))}); put(c, {l, "_has-meta", o->metauri, Elem::Null()});
        if (steal) unuse(o);
        if (o->iscoll) g.label("nested collection");
      }
      break; }
    case 1: {                                  // remove
      S l = label(); bool in = !sel(c->rel, pat(l.c_str(), "_is-a", "Instance")).empty();
      g.log("%zu remove %s%s", ci, show(l).c_str(), in ? "" : " (not there)");
      int r = dlite_collection_remove(p, l.c_str());
      if (!in || c->frozen) { REQUIRE(r, "removing %s succeeded", in ? "from a frozen collection" : "an unused label"); take_error(); }
      else {
        REQUIRE(!r, "remove failed"); g.nontrivial();
        removeall(c, pat(l.c_str(), "_is-a", "Instance")); removeall(c, pat(l.c_str(), "_has-uuid")); removeall(c, pat(l.c_str(), "_has-meta")); removeall(c, pat(l.c_str(), "_has-dimmap"));
      }
      break; }
    case 2: {                                  // get, get_new, has
      S l = label(); Rel want = sel(c->rel, pat(l.c_str(), "_has-uuid"));
      g.log("%zu get %s", ci, show(l).c_str());
      REQUIRE(dlite_collection_has(p, l.c_str()) == !want.empty(), "has(%s) is %d, expected %d", show(l).c_str(), dlite_collection_has(p, l.c_str()), !want.empty());
      bool nw = g.flip(), cast = nw && g.chance(1, 3); S mu; if (cast && !want.empty()) { Obj *o = find(want.begin()->o); mu = want.size() == 1 && o ? o->metauri : S(); }
      const DLiteInstance *i = nw ? dlite_collection_get_new(p, l.c_str(), mu.empty() ? NULL : mu.c_str()) : dlite_collection_get(p, l.c_str());
      if (want.empty()) { REQUIRE(!i, "got an instance labelled %s", show(l).c_str()); REQUIRE(take_error(), "no error for a missing label"); break; }
      REQUIRE(i, "cannot get instance labelled %s", show(l).c_str());
      bool ok = false; for (auto &t : want) if (t.o == i->uuid) ok = true;
      REQUIRE(ok, "%s refers to %s", show(l).c_str(), i->uuid);
      if (nw) { Obj *o = find(i->uuid); o->user++; }
      break; }
    case 3: {                                  // by identity
      Obj *o = objs[g.below(objs.size())].get(); S id = o->uri.size() && g.flip() ? o->uri : o->uuid; bool in = !sel(c->rel, pat(NULL, "_has-uuid", o->uuid.c_str())).empty();
      g.log("%zu get_id obj %zu", ci, indexof(o));
      REQUIRE(!!dlite_collection_has_id(p, id.c_str()) == in, "has_id(%s) is %d, expected %d", id.c_str(), dlite_collection_has_id(p, id.c_str()), in);
      const DLiteInstance *i = dlite_collection_get_id(p, id.c_str());
      REQUIRE(!!i == in && (!i || i == o->p), "get_id(%s) gives %s", id.c_str(), i ? i->uuid : "NULL"); dlite_errclr();
      break; }
    case 4: {                                  // user relation
      T4 t = userrel(c); bool have = c->rel.count(t);
      g.log("%zu add_relation %s", ci, show4(t).c_str());
      int r = dlite_collection_add_relation(p, t.s.c_str(), t.p.c_str(), t.o.c_str(), cs(t.d));
      if (c->frozen) { REQUIRE(r, "relation added to a frozen collection"); take_error(); }
      else { REQUIRE(!r, "add_relation %s failed", show4(t).c_str()); put(c, t); if (have) g.label("relation added twice"); }
      break; }
    case 5: {                                  // _has-uuid by the user
      Obj *o = pickitem(c); if (!o) return;
      T4 t{g.chance(2, 3) ? S("u") + label() : label(), "_has-uuid", o->uuid, g.flip() ? Elem::Null() : Elem(S("xsd:anyURI"))};
      g.log("%zu add_relation %s", ci, show4(t).c_str());
      int r = dlite_collection_add_relation(p, t.s.c_str(), t.p.c_str(), t.o.c_str(), cs(t.d));
      if (c->frozen) { if (!r) REQUIRE(c->rel.count(t), "relation added to a frozen collection"); take_error(); }
      else { REQUIRE(!r, "add_relation %s failed", show4(t).c_str()); put(c, t); g.label("_has-uuid relation added by the user"); }
      break; }
    case 6: {                                  // find
      Pat q = genpat(c); std::vector<T4> got; g.log("%zu find %s", ci, showp(q).c_str());
      DLiteCollectionState st; dlite_collection_init_state(p, &st); Rel want = sel(c->rel, q);
      while (const DLiteRelation *r = dlite_collection_find(p, &st, cs(q.s), cs(q.p), cs(q.o), cs(q.d))) { got.push_back(of(r)); if (got.size() > want.size() + 3) break; }
      dlite_collection_deinit_state(&st);
      cmp(got, want, "find " + showp(q));
      const DLiteRelation *r = dlite_collection_find_first(p, cs(q.s), cs(q.p), cs(q.o), cs(q.d));
      REQUIRE(!!r == !want.empty(), "find_first %s", showp(q).c_str()); if (r) REQUIRE(want.count(of(r)), "find_first %s gives %s", showp(q).c_str(), show4(of(r)).c_str());
      break; }
    case 7: {                                  // remove relations
      Pat q = genpat(c); size_t n = sel(c->rel, q).size();
      g.log("%zu remove_relations %s", ci, showp(q).c_str());
      int r = dlite_collection_remove_relations(p, cs(q.s), cs(q.p), cs(q.o), cs(q.d));
      if (c->frozen) { REQUIRE(r < 0, "relations removed from a frozen collection"); take_error(); }
      else { REQUIRE(r == (int)n, "remove_relations %s returns %d, %zu match", showp(q).c_str(), r, n); removeall(c, q); if (n) g.nontrivial(); }
      break; }
    case 8: {                                  // the user's references
      std::vector<Obj *> v; for (auto &o : objs) if (o->user > 0) v.push_back(o.get());
      if (v.empty()) return;
      Obj *o = v[g.below(v.size())]; bool up = g.chance(1, 4);
      g.log("%s obj %zu", up ? "incref" : "decref", indexof(o));
      if (up) { dlite_instance_incref(o->p); o->user++; } else { dlite_instance_decref(o->p); unuse(o); }
      break; }
    case 9: newinst(); break;
    case 10: newcoll(); break;
    case 11: {                                 // copy
      S id; if (g.chance(1, 3)) id = "http://data.org/copy" + fmt("%zu", objs.size());
      g.log("copy collection %zu", ci);
      DLiteInstance *q = dlite_instance_copy(c->p, id.empty() ? NULL : id.c_str());
      REQUIRE(q, "cannot copy a collection"); REQUIRE(c->uuid != q->uuid, "copy has the same uuid");
      Obj *o = new Obj; objs.emplace_back(o); o->uuid = q->uuid; o->uri = id; o->metauri = c->metauri; o->p = q; o->user = 1; o->iscoll = true;
      for (auto &t : Rel(c->rel)) put(o, t);
      g.label("copied");
      break; }
    case 12: g.log("freeze %zu", ci); dlite_instance_freeze(c->p); c->frozen = true; g.label("frozen collection"); break;
    case 14: {                                 // the relations set as a property replace the old ones
      std::vector<T4> v(c->rel.begin(), c->rel.end()); if (v.empty()) return;
      REQUIRE((size_t)dlite_instance_get_dimension_size(c->p, "nrelations") == v.size(), "nrelations");
      for (int k = g.range(0, 3); k > 0; k--) {   // other relations instead of some of them
        T4 t = userrel(c); Obj *o = g.chance(1, 3) ? pickitem(c) : NULL; if (o) t = {label(), "_has-uuid", o->uuid, Elem::Null()};
        if (std::find(v.begin(), v.end(), t) == v.end()) v[g.below(v.size())] = t;
      }
      for (size_t i = v.size() - 1; i > 0; i--) std::swap(v[i], v[g.below(i + 1)]);
      g.log("%zu set %zu relations", ci, v.size()); for (auto &t : v) g.log("    %s", show4(t).c_str());
      std::vector<DLiteRelation> r(v.size()); for (size_t i = 0; i < v.size(); i++) { r[i] = DLiteRelation{}; r[i].s = (char *)v[i].s.c_str(); r[i].p = (char *)v[i].p.c_str(); r[i].o = (char *)v[i].o.c_str(); r[i].d = (char *)cs(v[i].d); }
      int st = dlite_instance_set_property(c->p, "relations", r.data());
      if (c->frozen) { REQUIRE(st, "relations of a frozen collection set"); take_error(); break; }
      REQUIRE(!st, "cannot set relations: %s", dlite_errmsg());
      Rel old = c->rel; c->rel.clear(); for (auto &t : v) put(c, t); for (auto &t : old) gone(t); g.label("relations set"); g.nontrivial();
      break; }
    case 13: {                                 // errors leave everything as it was
      int k = g.below(4); Obj *o = pickitem(c); g.log("%zu refused operation %d", ci, k);
      if (k == 0) REQUIRE(dlite_collection_add_relation(p, "x", "_has-uuid", "00000000-0000-4000-8000-000000000000", NULL), "_has-uuid of an unknown instance accepted");
      if (k == 2) REQUIRE(!dlite_collection_get(p, "no-such-label"), "got an instance for an unknown label");
      if (k == 3) REQUIRE(!dlite_collection_has(p, "no-such-label") && !dlite_collection_has_id(p, "no-such-id"), "has an unknown label");
      dlite_errclr();
      break; }
    }
  }
};

PBT(D15, history, 6000, 80000, 24, "histories of adding, removing and getting labelled instances and relations in several (also nested, copied and frozen) collections with releases of references in between, everything compared after each step; non-trivial: something was removed from a collection") {
  CW w(g); MetaOpt o; o.maxprops = 3; o.maxdims = 2; w.w.init(g.range(1, 2), o);
  w.labels = {"a", "b", "c", "ab"}; if (g.flip()) { S t = g.text(8); if (t.size()) w.labels.push_back(t); }
  w.newcoll(); w.newinst(); if (g.flip()) w.newcoll();
  int n = g.size(40);
  for (int i = 0; i < n; i++) { w.step(); w.check("after the step"); }
  for (auto &o : w.objs) while (o->user > 0) { dlite_instance_decref(o->p); w.unuse(o.get()); }
  w.check("at the end");
  for (auto &o : w.objs) REQUIRE(!o->alive(), "model: %s still held", o->uuid.c_str());
  w.w.finish();
}

static S scratch(const char *name) { const char *d = getenv("VERIF_SCRATCH"); return fmt("%s/%d-%s", d ? d : "/tmp", (int)getpid(), name); }

PBT(D15, saveload, 1500, 20000, 12, "collections built by random histories, saved to a JSON storage with their instances and nested collections, everything released and loaded again (immediately, lazily or by URL); non-trivial: the loaded collection holds at least two instances") {
  world_finite = true;
  CW w(g); MetaOpt o; o.maxprops = 3; o.maxdims = 2; w.w.init(g.range(1, 2), o);
  w.labels = {"a", "b", "c", "ab"}; if (g.flip()) { S t = g.text(8); if (t.size()) w.labels.push_back(t); }
  w.newcoll(); w.newinst(); if (g.flip()) w.newcoll();
  int n = g.size(30) + 3;
  for (int i = 0; i < n; i++) w.step();
  w.check("before saving");
  Obj *c = w.pickcoll(); if (!c) c = w.newcoll();
  bool ok = w.consistent(c);
  S path = scratch("coll.json"), url = "json://" + path + "?mode=w"; unlink(path.c_str());
  g.log("save collection %zu", w.indexof(c));
  if (g.flip()) { REQUIRE(dlite_collection_save_url(w.C(c), url.c_str()) == 0, "dlite_collection_save_url failed"); }
  else {
    DLiteStorage *s = dlite_storage_open("json", path.c_str(), "mode=w"); REQUIRE(s, "cannot open storage for writing");
    REQUIRE(dlite_collection_save(w.C(c), s) == 0, "dlite_collection_save failed"); dlite_storage_close(s);
  }
  w.check("after saving");
  // what should come back
  struct Saved { S uuid; Rel rel; bool iscoll; InstM x; };
  std::map<S, Saved> sv; std::map<S, int> held; std::vector<Obj *> todo = {c};
  while (!todo.empty()) {
    Obj *a = todo.back(); todo.pop_back(); if (sv.count(a->uuid)) continue;
    Saved b; b.uuid = a->uuid; b.rel = a->rel; b.iscoll = a->iscoll; if (a->x) b.x = *a->x; sv[a->uuid] = b;
    for (auto &t : a->rel) if (t.p == "_has-uuid") { held[t.o]++; todo.push_back(w.find(t.o)); }
  }
  S root = c->uuid, rooturi = c->uri;
  // release everything, or keep some
  bool keep = g.chance(1, 6);
  if (!keep) {
    for (auto &q : w.objs) while (q->user > 0) { dlite_instance_decref(q->p); w.unuse(q.get()); }
    w.check("after releasing everything");
  }
  int how = g.below(3); bool lazy = how != 0; S id = rooturi.size() && g.flip() ? rooturi : root;
  if (!ok) lazy = true;
  g.log("load %s %s", how == 2 ? "url" : "storage", lazy ? "lazy" : "with instances");
  DLiteCollection *p = NULL; DLiteStorage *s = NULL;
  if (how == 2) p = dlite_collection_load_url(("json://" + path + "?mode=r#" + id).c_str(), lazy);
  else {
    s = dlite_storage_open("json", path.c_str(), "mode=r"); REQUIRE(s, "cannot open storage for reading");
    p = dlite_collection_load(s, id.c_str(), lazy);
  }
  REQUIRE(p, "cannot load the collection");
  REQUIRE(root == p->uuid, "loaded collection has uuid %s instead of %s", p->uuid, root.c_str());
  if (keep) {
    c->user++; w.check("after loading what is in memory"); if (s) dlite_storage_close(s);
    // what is in memory is found without its storage
    p = dlite_collection_load_url(("json://" + path + ".not-there?mode=r#" + id).c_str(), lazy);
    REQUIRE(p == w.C(c), "cannot load a collection in memory by a URL"); c->user++; w.check("after loading what is in memory by URL");
  }
  else {
    if (s && g.flip()) { dlite_storage_close(s); s = NULL; }
    for (auto &kv : sv) {
      Saved &b = kv.second; DLiteInstance *i = dlite_instance_has(b.uuid.c_str(), 0);
      REQUIRE(i, "%s %s was not loaded", b.iscoll ? "collection" : "instance", b.uuid.c_str());
      int want = held[b.uuid] + (b.uuid == root);
      REQUIRE(i->_refcount == want, "loaded %s has reference count %d, expected %d", b.iscoll ? "collection" : "instance", i->_refcount, want);
      if (b.iscoll) { Obj tmp; tmp.uuid = b.uuid; tmp.p = i; tmp.rel = b.rel; tmp.iscoll = true; w.checkcoll(&tmp, "after loading"); }
      else { b.x.inst = i; check_inst(b.x, "after loading"); }
    }
    size_t ni = 0; for (auto &kv : sv) if (!kv.second.iscoll) ni++;
    if (ni >= 2) g.nontrivial();
    if (sv.size() > ni + 1) g.label("nested collection loaded");
    dlite_collection_decref(p);
    for (auto &kv : sv) REQUIRE(!dlite_instance_has(kv.first.c_str(), 0), "%s is still there after the loaded collection was released", kv.first.c_str());
    dlite_errclr();
    if (s) dlite_storage_close(s);
  }
  if (keep) for (auto &q : w.objs) while (q->user > 0) { dlite_instance_decref(q->p); w.unuse(q.get()); }
  unlink(path.c_str());
  w.w.finish();
}
static void init() { dlite_err_set_stream(NULL); }
int main(int argc, char **argv) { child_init = init; return pbt::run_main(argc, argv); }
