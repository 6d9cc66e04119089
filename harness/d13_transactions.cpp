// flavours: asan builtin
// D13: transactions keep every snapshot, frozen instances cannot be changed, and tampering is detected
#include "stores.hpp"
#include "preimage.hpp"
#include "dlite-storage-plugins.h"
#include "dlite-collection.h"
extern "C" int dlite_instance_print_transaction(const DLiteInstance *inst);
static void init() { dlite_err_set_stream(NULL); world_finite = true; for (const char **p; (p = dlite_storage_paths_get()) && p[0];) dlite_storage_paths_remove_index(0); dlite_instance_get("warm-up"); dlite_errclr(); }

struct Node {   // an instance in a history, with what its parent looked like when it became the parent
  InstM x; Node *parent = NULL; bool frozen = false; int user = 0, children = 0; S pre; bool alive() const { return user + children > 0; }
};
struct Hist {
  Gen &g; World w; std::vector<std::unique_ptr<Node>> nodes; bool tampered = false;
  Hist(Gen &g_) : g(g_), w(g_) {}
  Node *add() { nodes.emplace_back(new Node); return nodes.back().get(); }
  Node *pick(int frozen = -1) { std::vector<Node *> v; for (auto &n : nodes) if (n->alive() && n->user && (frozen < 0 || n->frozen == (bool)frozen)) v.push_back(n.get()); return v.empty() ? NULL : v[g.below(v.size())]; }
  void dead(Node *n) { if (Node *p = n->parent) { n->parent = NULL; p->children--; if (!p->alive()) dead(p); } n->x.inst = NULL; }
  void adopt(Node *child, Node *parent) { Node *old = child->parent; parent->children++; child->parent = parent; child->pre = preimage(parent->x); if (old) { old->children--; if (!old->alive()) dead(old); } }
  int depth(Node *n) { int d = 0; while ((n = n->parent)) d++; return d; }
  bool chain_ok(Node *n, bool recursive = true) { for (; n->parent; n = n->parent) { if (preimage(n->parent->x) != n->pre) return false; if (!recursive) break; } return true; }
  void check(Node *n, const char *when) {
    check_inst(n->x, when); DLiteInstance *i = n->x.inst;
    REQUIRE(!!dlite_instance_is_frozen(i) == n->frozen, "%s: %s is%s frozen", when, i->uuid, n->frozen ? " not" : "");
    REQUIRE(!!dlite_instance_has_parent(i) == !!n->parent, "%s: %s has%s a parent", when, i->uuid, n->parent ? " not" : "");
    REQUIRE(i->_refcount == n->user + n->children, "%s: reference count of %s is %d, expected %d by the user and %d by children", when, i->uuid, i->_refcount, n->user, n->children);
    if (n->parent) { REQUIRE(n->parent->x.uuid == i->_parent->uuid, "%s: parent of %s is %s, expected %s", when, i->uuid, i->_parent->uuid, n->parent->x.uuid.c_str()); }
  }
  void checkall(const char *when) {
    for (auto &n : nodes) if (n->alive()) check(n.get(), when);
      else REQUIRE(!dlite_instance_has(n->x.uuid.c_str(), 0), "%s: %s is still there after its last reference was released", when, n->x.uuid.c_str());
    dlite_errclr();
  }
  // something refused
  void refused(int r, const char *what) { int e = take_error(); REQUIRE(r != 0, "%s is not refused", what); REQUIRE(e, "%s is refused without an error", what); }
  void set(Node *n) {
    if (n->x.vals.empty()) return; size_t j = g.below(n->x.vals.size());
    if (!n->frozen) { w.set_random(n->x, j); return; }
    auto v = w.gen_prop_value(n->x, j); PropBuf b(w.buf(n->x, j, v)); const char *name = n->x.m->props[j].name.c_str(); g.label("set on frozen");
    switch (g.below(4)) {
    case 0: refused(dlite_instance_set_property(n->x.inst, name, b.p), "setting a property of a frozen instance"); break;
    case 1: refused(dlite_instance_set_property_by_index(n->x.inst, j, b.p), "setting a property of a frozen instance"); break;
    case 2: if (dlite_type_is_allocated(n->x.m->props[j].t.t)) refused(dlite_instance_set_property(n->x.inst, name, b.p), "setting"); else refused(dlite_instance_assign_property(n->x.inst, name, 'C', b.p), "assigning a property of a frozen instance"); break;
    case 3: refused(dlite_instance_scan_property(g.flip() ? "1" : "[]", n->x.inst, name, (DLiteTypeFlag)0) < 0 ? 1 : 0, "scanning a property of a frozen instance"); break;
    }
  }
  void resize(Node *n) {
    if (n->x.dims.empty()) return;
    auto d = gen_dims(g, *n->x.m, 3); if (dims_status(*n->x.m, d) != 1) return;
    std::vector<int> di(d.begin(), d.end()); bool same = d == n->x.dims;
    if (n->frozen) {
      g.label("resize frozen"); if (same) return;
      if (g.flip()) refused(dlite_instance_set_dimension_sizes(n->x.inst, di.data()), "resizing a frozen instance");
      else { size_t i = 0; while (d[i] == n->x.dims[i]) i++; refused(dlite_instance_set_dimension_size_by_index(n->x.inst, i, d[i]), "resizing a frozen instance"); }
      return;
    }
    REQUIRE(dlite_instance_set_dimension_sizes(n->x.inst, di.data()) == 0, "resizing: %s", dlite_errmsg()); g.log("resize %s", n->x.uuid.c_str());
    // take over the values (what resizing keeps is another property)
    InstM y = n->x; y.dims = d; zero_vals(y); n->x.dims = y.dims;
    for (size_t j = 0; j < y.vals.size(); j++) { const Ty t = n->x.m->props[j].t; char *p = (char *)dlite_instance_get_property_by_index(n->x.inst, j); for (size_t k = 0; k < y.vals[j].size(); k++) y.vals[j][k] = get_elem(p + k * t.n, t); }
    n->x.vals = y.vals;
  }
  void snapshot(Node *n) {
    if (n->frozen) { int ref = n->x.inst->_refcount; refused(dlite_instance_snapshot(n->x.inst), "a snapshot of a frozen instance"); REQUIRE(n->x.inst->_refcount == ref, "refcount"); return; }
    S id = n->x.inst->uri ? n->x.inst->uri : n->x.uuid; id = id.substr(0, id.find('#'));
    int r = dlite_instance_snapshot(n->x.inst); REQUIRE(r == 0, "snapshot fails: %s", dlite_errmsg());
    REQUIRE(n->x.inst->_parent && n->x.inst->_parent->parent, "no parent after a snapshot"); DLiteInstance *s = (DLiteInstance *)n->x.inst->_parent->parent; REQUIRE(s != n->x.inst, "snapshot is the instance");
    S u = s->uri ? s->uri : ""; REQUIRE(u.compare(0, id.size() + 10, id + "#snapshot-") == 0 && u.size() == id.size() + 22, "uri of the snapshot of %s is %s", id.c_str(), show(u).c_str());
    for (auto &o : nodes) REQUIRE(o->x.uuid != s->uuid, "two snapshots have the same identity");
    Node *p = add(); p->x = n->x; p->x.inst = s; p->x.uuid = s->uuid; p->frozen = true;
    if (n->parent) { adopt(p, n->parent); p->pre = n->pre; }
    adopt(n, p); g.log("snapshot of %s: %s", n->x.uuid.c_str(), s->uuid); g.label("snapshot"); check(p, "snapshot"); check(n, "after snapshot");
  }
  void setparent(Node *n, Node *p) {
    int r = dlite_instance_set_parent(n->x.inst, p->x.inst); g.log("parent of %s: %s -> %d", n->x.uuid.c_str(), p->x.uuid.c_str(), r);
    if (n->frozen || !p->frozen) { refused(r, n->frozen ? "setting the parent of a frozen instance" : "a mutable parent"); return; }
    REQUIRE(r == 0, "setting the parent fails: %s", dlite_errmsg()); adopt(n, p); g.label("set parent");
  }
  void get(Node *n) {
    int d = depth(n), k = g.range(-1, d + 2); const DLiteInstance *s = dlite_instance_get_snapshot(n->x.inst, k); int e = take_error();
    if (k < 0 || k > d) { REQUIRE(!s && e, "snapshot %d of %d is not refused", k, d); g.label("no such snapshot"); return; }
    Node *q = n; for (int i = 0; i < k; i++) q = q->parent;
    REQUIRE(s == q->x.inst, "snapshot %d of %s is %s, expected %s", k, n->x.uuid.c_str(), s ? s->uuid : "NULL", q->x.uuid.c_str()); REQUIRE(!e, "error after getting a snapshot"); check(q, "snapshot by age");
    if (k) g.label("got snapshot");
  }
  void verify(Node *n, const char *when) {
    int r = dlite_instance_verify_transaction(n->x.inst), e = take_error(); bool ok = chain_ok(n);
    REQUIRE((r == 0) == ok, "%s: verifying %s with %d ancestors gives %d, expected %s", when, n->x.uuid.c_str(), depth(n), r, ok ? "success" : "failure");
    REQUIRE(!!e == !ok, "%s: verification gives %d, but the error is %d", when, r, e);
    if (g.chance(1, 3)) {
      r = dlite_instance_verify_hash(n->x.inst, NULL, 0); e = take_error(); ok = chain_ok(n, false);
      REQUIRE((r == 0) == ok, "%s: verifying only the parent of %s gives %d, expected %s", when, n->x.uuid.c_str(), r, ok ? "success" : "failure");
      uint8_t h[DLITE_HASH_SIZE]; REQUIRE(dlite_instance_get_hash(n->x.inst, h, sizeof h) == 0, "get_hash");
      REQUIRE(dlite_instance_verify_hash(n->x.inst, h, 0) == 0, "%s: own hash is not accepted: %s", when, dlite_errmsg());
      r = dlite_instance_verify_hash(n->x.inst, h, 1); take_error(); REQUIRE((r == 0) == chain_ok(n), "%s: recursive verification with own hash gives %d", when, r);
      h[g.below(sizeof h)] ^= 1 << g.below(8); r = dlite_instance_verify_hash(n->x.inst, h, g.flip()); REQUIRE(r && take_error(), "%s: a wrong hash is accepted", when);
    }
    if (!ok) g.label("tampering detected"); else if (depth(n)) g.label("verified");
  }
  // changes an instance behind the back of the library, checks what verification says, and perhaps undoes it
  void tamper(Node *n) {
    Node *a = n; for (int k = g.below(depth(n) + 1); k > 0; k--) a = a->parent;
    if (a->x.vals.empty()) return;
    auto old = a->x.vals; size_t j = g.below(a->x.vals.size()); a->x.inst->_flags &= ~dliteImmutable; w.set_random(a->x, j); if (a->frozen) a->x.inst->_flags |= dliteImmutable;
    bool differs = preimage(a->x) != [&] { InstM y = a->x; y.vals = old; return preimage(y); }();
    g.log("tampered with %s, %s", a->x.uuid.c_str(), differs ? "different" : "no difference"); if (differs && a != n) tampered = true;
    verify(n, "after tampering"); if (a != n) { Node *m = pick(); if (m) verify(m, "after tampering"); }
    if (g.chance(3, 4)) {
      PropBuf b(w.buf(a->x, j, old[j])); a->x.inst->_flags &= ~dliteImmutable; REQUIRE(dlite_instance_set_property_by_index(a->x.inst, j, b.p) == 0, "restoring"); if (a->frozen) a->x.inst->_flags |= dliteImmutable; a->x.vals = old;
      verify(n, "after undoing the tampering");
    }
  }
  void release(Node *n) { int left = n->user + n->children - 1; int r = dlite_instance_decref(n->x.inst); REQUIRE(r == left, "reference count after release is %d, expected %d", r, left); n->user--; g.log("release %s -> %d", n->x.uuid.c_str(), left); if (!n->alive()) dead(n); }
};

PBT(D13, histories, 6000, 250000, 40, "a snapshot was taken and an ancestor tampered with") {
  Hist h(g); MetaOpt o; o.types = TY_REF | TY_REL; o.maxprops = 4; h.w.init(g.range(1, 2), o); bool snap = false;
  int n = 5 + g.size(45), created = 0;
  for (int k = 0; k < n; k++) {
    Node *a = h.pick();
    switch (a ? g.weighted({1, 5, 2, 5, 2, 1, 4, 4, 3, 1, 1}) : 0) {
    case 0: if (created < 4) {
      int mi = g.below(h.w.metas.size()); auto d = gen_dims(g, *h.w.metas[mi], 3); if (dims_status(*h.w.metas[mi], d) != 1) break;
      S id = g.flip() ? S() : fmt("http://x.y/%d", created) + g.pick<S>({"", "#frag", "/x#"}); InstM *x = h.w.create(mi, d, id.empty() ? NULL : id.c_str()); Node *p = h.add(); p->x = *x; x->inst = NULL; p->user = 1; created++;
      for (size_t j = 0; j < p->x.vals.size(); j++) if (g.flip()) h.w.set_random(p->x, j);
      break; }
      break;
    case 1: h.set(a); h.check(a, "after set"); break;
    case 2: h.resize(a); h.check(a, "after resize"); break;
    case 3: h.snapshot(a); snap = true; break;
    case 4: { std::vector<Node *> v; for (auto &p : h.nodes) if (p->alive()) v.push_back(p.get()); h.setparent(a, v[g.below(v.size())]); break; }
    case 5: g.log("freeze %s", a->x.uuid.c_str()); dlite_instance_freeze(a->x.inst); a->frozen = true; break;
    case 6: h.get(a); break;
    case 7: h.verify(a, "in history"); break;
    case 8: h.tamper(a); break;
    case 9: {   // a copy shares the history but can be changed
      DLiteInstance *c = dlite_instance_copy(a->x.inst, NULL); REQUIRE(c, "copy: %s", dlite_errmsg()); Node *p = h.add(); p->x = a->x; p->x.inst = c; p->x.uuid = c->uuid; p->user = 1; if (a->parent) { h.adopt(p, a->parent); p->pre = a->pre; } g.log("copy %s to %s", a->x.uuid.c_str(), c->uuid); g.label(a->frozen ? "copy of frozen" : "copy"); break; }
    case 10: { int users = 0; for (auto &p : h.nodes) users += p->user; if (users > 1) h.release(a); break; }
    }
    if (k % 4 == 3) h.checkall("during history");
  }
  h.checkall("at end"); for (auto &p : h.nodes) if (p->alive() && p->user) h.verify(p.get(), "at end");
  for (auto &p : h.nodes) while (p->user) h.release(p.get());
  h.checkall("after release");
  if (snap && h.tampered) g.nontrivial();
  h.w.insts.clear(); h.w.finish();
}

// A history stored and read back: every ancestor has its old content and tampered files are detected
PBT(D13, stored, 4000, 150000, 30, "at least two ancestors were read back") {
  Stores st(g); st.init(1, 1); MetaM &m = *st.w.metas[0]; FileM &f = st.files[0];
  auto d = gen_dims(g, m, 3); if (dims_status(m, d) != 1) { st.finish(); return; }
  InstM *x = st.w.create(0, d, g.flip() ? "the-instance" : NULL); x->uri = ostr(x->inst->uri);
  std::vector<InstM> old; int n = g.range(1, 5);   // old[i]: i-th snapshot from the first
  for (int i = 0; i < n; i++) { for (size_t j = 0; j < x->vals.size(); j++) if (g.flip()) st.w.set_random(*x, j); InstM y = *x; REQUIRE(dlite_instance_snapshot(x->inst) == 0, "snapshot: %s", dlite_errmsg()); y.inst = (DLiteInstance *)x->inst->_parent->parent; y.uuid = y.inst->uuid; y.uri = ostr(y.inst->uri); old.push_back(y); }
  for (size_t j = 0; j < x->vals.size(); j++) if (g.flip()) st.w.set_random(*x, j);
  bool push = g.flip(), tamper = g.chance(1, 3), changed = false; int ti = g.below(n);
  if (tamper && old[ti].vals.size()) { InstM &t = old[ti]; S before = preimage(t); t.inst->_flags &= ~dliteImmutable; st.w.set_random(t, g.below(t.vals.size())); t.inst->_flags |= dliteImmutable; changed = preimage(t) != before; g.log("tampered with snapshot %d: %d", ti, changed); }
  DLiteStorage *s = dlite_storage_open("json", f.path.c_str(), "mode=a"); REQUIRE(s, "open");
  S uuid = x->uuid; InstM last = *x; int pushed = 0; bool live = false;
  if (push) {
    REQUIRE(dlite_instance_push_snapshot(x->inst, s, 0) && take_error(), "pushing to a storage without transactions is not refused");
    REQUIRE(!dlite_instance_pull_snapshot(x->inst, s, 1) && take_error(), "pulling from a storage without transactions is not refused");
    s->flags |= (DLiteStorageFlags)dliteTransaction; int k = g.below(n + 1); live = g.flip();
    int r = dlite_instance_push_snapshot(x->inst, s, k); g.log("%d snapshots, push from %d -> %d", n, k, r); REQUIRE(r == 0, "pushing fails: %d %s", r, dlite_errmsg()); pushed = n - k;
    for (int i = 0; i < n; i++) REQUIRE(!!dlite_instance_has(old[i].uuid.c_str(), 0) == (i >= pushed), "%d snapshots, pushed from %d: snapshot %d is%s in memory", n, k, n - i, i < pushed ? " still" : " not");
    dlite_errclr();
    check_inst(*x, "after pushing"); for (int i = pushed; i < n; i++) check_inst(old[i], "after pushing");
    if (!live) for (int i = pushed; i < n; i++) REQUIRE(dlite_instance_save(s, old[i].inst) == 0, "save");
  } else for (int i = 0; i < n; i++) REQUIRE(dlite_instance_save(s, old[i].inst) == 0, "save: %s", dlite_errmsg());
  if (!live) {
    REQUIRE(dlite_instance_save(s, x->inst) == 0, "save"); st.w.release(*x); x = NULL;
    for (auto &y : old) REQUIRE(!dlite_instance_has(y.uuid.c_str(), 0), "snapshot %s stays in memory", y.uuid.c_str());
    dlite_errclr();
    if (g.flip()) { REQUIRE(dlite_storage_close(s) == 0, "close"); s = dlite_storage_open("json", f.path.c_str(), g.flip() ? "mode=r" : "mode=a"); REQUIRE(s, "open: %s", dlite_errmsg()); s->flags |= (DLiteStorageFlags)dliteTransaction; g.label("reopened"); }
  }
  DLiteInstance *in = x ? x->inst : dlite_instance_load(s, uuid.c_str()); REQUIRE(in, "load: %s", dlite_errmsg()); last.inst = in; if (!x) { st_norm(last); check_inst(last, "loaded"); } for (int i = 0; i < (x ? pushed : n); i++) st_norm(old[i]);
  s->flags |= (DLiteStorageFlags)dliteTransaction; bool vfirst = g.flip();
  auto verify = [&](const char *when) { int r = dlite_instance_verify_transaction(in), e = take_error(); REQUIRE((r == 0) == !changed, "%s: verifying %d ancestors%s gives %d: %s", when, n, changed ? " (one tampered with)" : "", r, dlite_errmsg()); REQUIRE(!!e == changed, "%s: error is %d", when, e); };
  if (vfirst) verify("before getting snapshots");
  for (int t = g.range(1, 4); t > 0; t--) {
    int k = g.range(-1, n + 1); bool pull = g.flip(); const DLiteInstance *q = pull ? dlite_instance_pull_snapshot(in, s, k) : dlite_instance_get_snapshot(in, k); g.log("%s snapshot %d -> %s", pull ? "pull" : "get", k, q ? q->uuid : "NULL");
    if (k < 0 || k > n) { REQUIRE(!q && take_error(), "snapshot %d of %d", k, n); continue; }
    REQUIRE(q, "snapshot %d of %d: %s", k, n, dlite_errmsg()); if (k == 0) { REQUIRE(q == in, "snapshot 0"); continue; }
    InstM y = old[n - k]; y.inst = (DLiteInstance *)q; check_inst(y, "snapshot read back"); REQUIRE(ostr(q->uri) == y.uri, "uri of snapshot read back");
    REQUIRE(dlite_instance_is_frozen(q), "snapshot %d read back from a storage is not frozen", k); REQUIRE(q->_refcount == 1, "reference count of a snapshot read back is %d", q->_refcount);
    REQUIRE(!!dlite_instance_has_parent(q) == (k < n), "snapshot %d has parent: %d", k, dlite_instance_has_parent(q));
  }
  verify("after getting snapshots");
  if (x) { x->inst = NULL; } REQUIRE(dlite_instance_decref(in) == 0, "reference count after release");
  for (auto &y : old) REQUIRE(!dlite_instance_has(y.uuid.c_str(), 0), "snapshot %s stays in memory", y.uuid.c_str());
  dlite_errclr(); REQUIRE(dlite_storage_close(s) == 0, "close");
  f.st = access(f.path.c_str(), F_OK) == 0 ? Multi : Missing; if (n >= 2) g.nontrivial(); if (changed) g.label("tampered"); if (push) g.label("pushed");
  f.bytes = st_readall(f.path); st.finish();
}

// Collections as transactions
PBT(D13, collections, 3000, 100000, 40, "a snapshot of a collection with relations") {
  World w(g); MetaOpt o; o.maxprops = 2; w.init(1, o); typedef std::vector<S> T; auto gt = [&] { return T{g.ident(), g.pick<S>({"p", "q"}), g.ident()}; };
  DLiteCollection *c = dlite_collection_create(g.flip() ? "coll" : NULL); REQUIRE(c, "create"); std::set<T> cur; std::vector<std::set<T>> old; InstM *x = NULL; bool useful = false;
  auto rels = [&](const DLiteInstance *i) { std::set<T> v; DLiteCollectionState s; dlite_collection_init_state((DLiteCollection *)i, &s); while (const DLiteRelation *r = dlite_collection_find((DLiteCollection *)i, &s, NULL, NULL, NULL, NULL)) v.insert({r->s, r->p, r->o}); dlite_collection_deinit_state(&s); return v; };
  { auto d = gen_dims(g, *w.metas[0], 2); if (dims_status(*w.metas[0], d) == 1) x = w.create(0, d, NULL); }
  int n = 3 + g.size(20); bool member = false;
  for (int k = 0; k < n; k++) switch (g.below(6)) {
  case 0: case 1: { T t = gt(); REQUIRE(dlite_collection_add_relation(c, t[0].c_str(), t[1].c_str(), t[2].c_str(), NULL) == 0, "add"); cur.insert(t); g.log("add %s %s %s", t[0].c_str(), t[1].c_str(), t[2].c_str()); break; }
  case 2: if (cur.size()) { T t = *std::next(cur.begin(), g.below(cur.size())); if (t[1][0] == '_') break; REQUIRE(dlite_collection_remove_relations(c, t[0].c_str(), t[1].c_str(), t[2].c_str(), NULL) >= 1, "remove"); cur.erase(t); g.log("remove %s", t[0].c_str()); } break;
  case 3: if (x && !member && g.flip()) { REQUIRE(dlite_collection_add(c, "item", x->inst) == 0, "add instance: %s", dlite_errmsg()); cur = rels((DLiteInstance *)c); member = true; g.label("member"); g.log("add instance"); } else if (member && g.flip()) { REQUIRE(dlite_collection_remove(c, "item") == 0, "remove"); cur = rels((DLiteInstance *)c); member = false; g.log("remove instance"); } break;
  case 4: { if (dlite_instance_snapshot((DLiteInstance *)c)) fail("snapshot: %s", dlite_errmsg()); old.push_back(cur); if (cur.size()) useful = true; g.log("snapshot %zu", old.size()); break; }
  case 5: {
    for (size_t i = 0; i < old.size(); i++) {
      const DLiteInstance *s = dlite_instance_get_snapshot((DLiteInstance *)c, old.size() - i); REQUIRE(s, "snapshot: %s", dlite_errmsg());
      REQUIRE(rels(s) == old[i], "snapshot %zu of the collection has %zu relations, expected %zu (or different ones)", old.size() - i, rels(s).size(), old[i].size());
      DLiteCollection *f = (DLiteCollection *)s; T t = gt(); int r = 0;
      switch (g.below(5)) {
      case 0: r = dlite_collection_add_relation(f, t[0].c_str(), t[1].c_str(), t[2].c_str(), NULL); break;
      case 1: r = dlite_collection_remove_relations(f, NULL, NULL, NULL, NULL); r = r < 0 ? r : 0; break;
      case 2: r = x ? dlite_collection_add(f, "new", x->inst) : 1; if (!x) dlite_err(1, "none"); break;
      case 3: r = dlite_collection_remove(f, "item"); break;
      case 4: { DLiteInstance *cp = (DLiteInstance *)f; r = dlite_instance_set_dimension_size_by_index(cp, 0, old[i].size() + 1); break; }
      }
      REQUIRE(r != 0, "changing a frozen collection is not refused"); REQUIRE(take_error(), "refused without an error"); REQUIRE(rels(s) == old[i], "frozen collection changed");
    }
    REQUIRE(dlite_instance_verify_transaction((DLiteInstance *)c) == 0, "verification of an untouched chain of collections fails: %s", dlite_errmsg());
    if (old.size() && g.flip()) {
      size_t i = g.below(old.size()); DLiteCollection *f = (DLiteCollection *)dlite_instance_get_snapshot((DLiteInstance *)c, old.size() - i); T t = gt(); bool had = old[i].count(t);
      ((DLiteInstance *)f)->_flags &= ~dliteImmutable; REQUIRE(dlite_collection_add_relation(f, t[0].c_str(), t[1].c_str(), t[2].c_str(), NULL) == 0, "tamper");
      int r = dlite_instance_verify_transaction((DLiteInstance *)c); take_error(); REQUIRE((r == 0) == had, "relation %s added to ancestor %zu of a collection is not detected", had ? "(not new)" : "", old.size() - i);
      if (!had) REQUIRE(dlite_collection_remove_relations(f, t[0].c_str(), t[1].c_str(), t[2].c_str(), NULL) == 1, "untamper");
      ((DLiteInstance *)f)->_flags |= dliteImmutable; REQUIRE(dlite_instance_verify_transaction((DLiteInstance *)c) == 0, "verification fails after undoing"); g.label("tampered");
    }
    break; }
  }
  REQUIRE(rels((DLiteInstance *)c) == cur, "relations of the collection"); REQUIRE(((DLiteInstance *)c)->_refcount == 1, "refcount"); dlite_collection_decref(c);
  if (x) { REQUIRE(x->inst->_refcount == 1, "reference count of a member after the collection and its snapshots are gone is %d", x->inst->_refcount); }
  if (useful) g.nontrivial(); dlite_errclr(); w.finish();
}

int main(int argc, char **argv) { child_init = init; return pbt::run_main(argc, argv); }
