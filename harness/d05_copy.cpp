// flavours: asan builtin
// D05: a copy is equal to and independent of its original
#include "world.hpp"
#include "dlite-collection.h"
static void init() { dlite_err_set_stream(NULL); }
static S freshid(Gen &g, int k) {
  switch (k) { case 0: return S(); case 1: { char u[37]; sprintf(u, "%08x-%04x-4%03x-a%03x-%012llx", (unsigned)g.below(1 << 30), (unsigned)g.below(65536), (unsigned)g.below(4096), (unsigned)g.below(4096), (unsigned long long)g.below(1 << 30)); return u; }
  case 2: return "urn:copy:" + g.ident() + fmt("%d", metacount++); default: return "http://x.org/" + g.ident() + fmt("/%d", metacount++); }
}
// no memory may be shared
static void disjoint(InstM &a, InstM &b) {
  for (size_t j = 0; j < a.vals.size(); j++) {
    if (a.vals[j].empty()) continue; Ty t = a.m->props[j].t;
    char *p = (char *)dlite_instance_get_property_by_index(a.inst, j), *q = (char *)dlite_instance_get_property_by_index(b.inst, j);
    REQUIRE(p != q, "property %s of copy and original is the same memory", a.m->props[j].name.c_str());
    if (t.t == dliteStringPtr) for (size_t i = 0; i < a.vals[j].size(); i++) REQUIRE(!((char **)p)[i] || ((char **)p)[i] != ((char **)q)[i], "string %zu of property %s is shared by copy and original", i, a.m->props[j].name.c_str());
  }
}

PBT(D05, instances, 8000, 110000, 40, "at least 2 copies of instances with array properties holding data, changed or released afterwards") {
  World w(g); MetaOpt o; o.types = TY_REF | TY_REL; o.maxprops = g.pick<int>({3, 6, 10}); w.init(1, o); MetaM &m = *w.metas[0];
  std::set<InstM *> frozen; std::map<InstM *, S> parent; int ncopies = 0, later = 0; bool data = false;
  if (w.targets.size()) dlite_instance_freeze(w.targets[0]);
  InstM *x0 = w.create(0, gen_dims(g, m));
  for (size_t j = 0; j < x0->vals.size(); j++) if (g.chance(3, 4)) { w.set_random(*x0, j); if (x0->vals[j].size() > 1) data = true; }
  int nops = g.size(30);
  for (int k = 0; k < nops; k++) {
    InstM *x = w.pick(); if (!x) break;
    switch (g.below(10)) {
    case 0: case 1: case 2: {
      if (w.insts.size() > 8) break;
      S id = freshid(g, g.below(4)); Elem u = ostr(x->inst->uri);
      DLiteInstance *c = dlite_instance_copy(x->inst, id.size() ? id.c_str() : g.flip() ? NULL : "");
      g.log("copy %s to %s -> %s", x->uuid.c_str(), show(id).c_str(), c ? c->uuid : "NULL");
      REQUIRE(c && c != x->inst, "copying failed: %s", dlite_errmsg());
      InstM *y = new InstM; y->m = x->m; y->inst = c; y->uuid = c->uuid; y->dims = x->dims; y->vals = x->vals; w.insts.emplace_back(y);
      for (auto &z : w.insts) REQUIRE(z.get() == y || z->uuid != y->uuid, "the copy has the identity of another instance");
      char uu[DLITE_UUID_LENGTH + 1]; if (id.size()) { REQUIRE(dlite_get_uuid(uu, id.c_str()) >= 0 && y->uuid == uu, "copy requested as %s has uuid %s", id.c_str(), c->uuid); }
      REQUIRE(ostr(c->uri) == (id.size() > 36 || (id.size() && id.size() != 36) ? Elem(id) : Elem::Null()), "uri of the copy requested as %s is %s", show(id).c_str(), show(c->uri).c_str());
      REQUIRE(c->_refcount == 1 && !dlite_instance_is_frozen(c), "copy has reference count %d, flags %d", c->_refcount, c->_flags);
      REQUIRE(dlite_instance_has(y->uuid.c_str(), 0) == c, "the copy is not found by its identity");
      disjoint(*x, *y); if (parent.count(x)) parent[y] = parent[x];
      ncopies++; break; }
    case 3: {   // existing identity: refused, nothing changes
      InstM *z = w.pick(); dlite_errclr(); DLiteInstance *c = dlite_instance_copy(x->inst, z->uuid.c_str());
      REQUIRE(!c && take_error(), "copying to an existing identity succeeded"); g.label("refused"); break; }
    case 4: case 5: case 6: if (m.props.size() && !frozen.count(x)) { size_t j = g.below(m.props.size()); w.set_random(*x, j); if (x->vals[j].size() > 1) data = true; if (ncopies) later++; } break;
    case 7: if (m.dims.size() && !frozen.count(x)) {
      std::vector<int> req; std::vector<long> nd; for (size_t i = 0; i < m.dims.size(); i++) { req.push_back(g.range(0, 5)); nd.push_back(req.back()); }
      if (dims_status(m, nd) != 1) break; req.push_back(0);
      REQUIRE(dlite_instance_set_dimension_sizes(x->inst, req.data()) == 0, "resize"); x->dims = nd; resize_vals(*x); if (ncopies) later++; } break;
    case 8: if (w.insts.size() > 1) { g.log("release %s", x->uuid.c_str()); parent.erase(x); frozen.erase(x); w.release(*x); if (ncopies) later++; } break;
    default: if (g.flip()) { dlite_instance_freeze(x->inst); frozen.insert(x); }
      else if (!frozen.count(x) && !parent.count(x) && w.targets.size()) { if (dlite_instance_set_parent(x->inst, w.targets[0])) fail("set_parent"); parent[x] = w.targets[0]->uuid; } }
    w.check("after operation");
    for (auto &z : w.insts) if (z->inst) {
      REQUIRE(dlite_instance_is_frozen(z->inst) == (frozen.count(z.get()) ? 1 : 0) || (frozen.count(z.get()) && dlite_instance_is_frozen(z->inst)), "instance %s is %sfrozen", z->uuid.c_str(), dlite_instance_is_frozen(z->inst) ? "" : "not ");
      REQUIRE(parent.count(z.get()) ? z->inst->_parent && parent[z.get()] == z->inst->_parent->uuid : !z->inst->_parent, "parent of %s", z->uuid.c_str());
    }
  }
  if (ncopies >= 2 && later && data) g.nontrivial();
  w.finish();
}

PBT(D05, metadata, 4000, 40000, 60, "metadata with dimensions and properties") {
  MetaOpt o; o.types = TY_REF | TY_REL; o.refuri = "http://onto-ns.com/meta/0.1/Other"; MetaM m = gen_meta(g, o); m.meta = create_meta(m);
  g.log("%s", showmeta(m).c_str()); REQUIRE(m.meta, "create");
  MetaM c = m; c.uri = m.ns + "/" + m.version + "/" + m.name + "Copy";
  c.meta = (DLiteMeta *)dlite_instance_copy((DLiteInstance *)m.meta, c.uri.c_str());
  REQUIRE(c.meta && c.meta != m.meta, "copying metadata failed");
  check_meta(m.meta, m, "original"); check_meta(c.meta, c, "copy");
  for (size_t i = 0; i < m.props.size(); i++) REQUIRE(m.meta->_properties[i].name != c.meta->_properties[i].name, "names are shared");
  MetaM *first = g.flip() ? &m : &c, *second = first == &m ? &c : &m;
  int rc = first->meta->_refcount; for (int i = 0; i < rc; i++) dlite_meta_decref(first->meta);
  check_meta(second->meta, *second, "after release of the other");
  auto d = gen_dims(g, *second); if (dims_status(*second, d) == 1) { InstM x; x.m = second; x.dims = d; x.inst = create_inst(*second, d, NULL); REQUIRE(x.inst, "cannot create an instance"); x.uuid = x.inst->uuid; zero_vals(x); check_inst(x, "instance of the remaining metadata"); dlite_instance_decref(x.inst); }
  rc = second->meta->_refcount; for (int i = 0; i < rc; i++) dlite_meta_decref(second->meta);
  if (m.dims.size() && m.props.size()) g.nontrivial();
}

typedef std::multiset<S> Rel;
static Rel rels(DLiteCollection *c) {
  Rel r; DLiteCollectionState s; dlite_collection_init_state(c, &s); const DLiteRelation *t;
  while ((t = dlite_collection_find(c, &s, NULL, NULL, NULL, NULL))) r.insert(S(t->s) + "\1" + t->p + "\1" + t->o + "\1" + (t->d ? t->d : ""));
  dlite_collection_deinit_state(&s); return r;
}
PBT(D05, collections, 4000, 40000, 40, "a copy of a collection with instances and relations, changed afterwards") {
  World w(g); MetaOpt o; o.maxprops = 2; o.maxdims = 1; w.init(1, o); int n = 1 + g.below(3); std::vector<InstM *> xs;
  for (int i = 0; i < n; i++) xs.push_back(w.create(0, gen_dims(g, *w.metas[0])));
  std::vector<DLiteCollection *> cs = {dlite_collection_create(NULL)}; std::vector<Rel> model = {Rel()}; std::vector<std::map<S, int>> held(1); int changes = 0, maxrel = 0;
  auto put = [&](Rel &r, const S &s, const S &p, const S &ob, const S &d) { S k = s + "\1" + p + "\1" + ob + "\1" + d; if (!r.count(k)) r.insert(k); };
  int nops = g.size(25);
  for (int k = 0; k < nops && cs.size(); k++) {
    size_t i = g.below(cs.size()); DLiteCollection *c = cs[i];
    switch (g.below(7)) {
    case 0: case 1: { int j = g.below(n); S l = fmt("l%d", g.below(3)); if (held[i].count(l)) break;
      REQUIRE(dlite_collection_add(c, l.c_str(), xs[j]->inst) == 0, "add"); g.log("add %d to %zu", j, i); held[i][l] = j;
      put(model[i], l, "_is-a", "Instance", ""); put(model[i], l, "_has-uuid", xs[j]->uuid, "xsd:anyURI"); put(model[i], l, "_has-meta", w.metas[0]->uri, ""); changes++; break; }
    case 2: { if (held[i].empty()) break; S l = held[i].begin()->first; REQUIRE(dlite_collection_remove(c, l.c_str()) == 0, "remove");
      Rel r; for (auto &t : model[i]) if (t.compare(0, l.size() + 1, l + "\1") != 0) r.insert(t); else { S rest = t.substr(l.size() + 1); if (rest.compare(0, 1, "_") != 0) r.insert(t); } model[i] = r; held[i].erase(l); changes++; break; }
    case 3: { S s = "s" + fmt("%d", g.below(3)), p = "p" + g.text(3), ob = "o" + g.text(3); REQUIRE(dlite_collection_add_relation(c, s.c_str(), p.c_str(), ob.c_str(), NULL) == 0, "add_relation"); put(model[i], s, p, ob, ""); changes++; break; }
    case 4: { S s = "s" + fmt("%d", g.below(3)); dlite_collection_remove_relations(c, s.c_str(), NULL, NULL, NULL); Rel r; for (auto &t : model[i]) if (t.compare(0, s.size() + 1, s + "\1")) r.insert(t); model[i] = r; changes++; break; }
    case 5: { if (cs.size() > 4) break; DLiteCollection *d = (DLiteCollection *)dlite_instance_copy((DLiteInstance *)c, freshid(g, g.below(4)).c_str()); REQUIRE(d && d != c, "copy"); g.log("copy %zu", i);
      cs.push_back(d); model.push_back(model[i]); held.push_back(held[i]); break; }
    default: if (cs.size() > 1) { dlite_collection_decref(c); cs.erase(cs.begin() + i); model.erase(model.begin() + i); held.erase(held.begin() + i); changes++; }
    }
    for (size_t q = 0; q < cs.size(); q++) {
      Rel r = rels(cs[q]);
      REQUIRE(r.size() == model[q].size() && r == model[q], "collection %zu has %zu relations, expected %zu", q, r.size(), model[q].size()); maxrel = std::max(maxrel, (int)r.size());
      for (auto &h : held[q]) REQUIRE(dlite_collection_get(cs[q], h.first.c_str()) == xs[h.second]->inst, "collection %zu: instance %s", q, h.first.c_str());
      REQUIRE((size_t)dlite_instance_get_dimension_size((DLiteInstance *)cs[q], "nrelations") == r.size(), "nrelations");
    }
    for (int j = 0; j < n; j++) { int e = 1; for (auto &h : held) for (auto &y : h) if (y.second == j) e++; REQUIRE(xs[j]->inst->_refcount == e, "instance %d has reference count %d, expected %d", j, xs[j]->inst->_refcount, e); }
  }
  if (cs.size() > 1 && changes > 2 && maxrel > 3) g.nontrivial();
  for (auto *c : cs) dlite_collection_decref(c);
  w.check("end"); w.finish();
}
int main(int argc, char **argv) { child_init = init; return pbt::run_main(argc, argv); }
