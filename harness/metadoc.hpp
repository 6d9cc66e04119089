// Metadata written as JSON documents, and helpers for metadata
#pragma once
#include "world.hpp"
#include "json.hpp"
typedef std::vector<std::vector<S>> Rels;   // relations of metadata
static inline void forget(DLiteMeta *m) { S u = m->uri; for (int n = m->_refcount; n > 0; n--) dlite_meta_decref(m); REQUIRE(!dlite_instance_has(u.c_str(), 0), "metadata still there"); dlite_errclr(); }
static inline void useful(Gen &g, const MetaM &m) {
  auto d = gen_dims(g, m); if (dims_status(m, d) != 1) return;
  InstM x; x.m = &m; x.dims = d; x.inst = create_inst(m, d, NULL); REQUIRE(x.inst, "cannot create an instance of the metadata read"); x.uuid = x.inst->uuid; zero_vals(x); check_inst(x, "instance of the metadata read"); dlite_instance_decref(x.inst);
}
static inline void check_rels(const DLiteMeta *m, const Rels &rels) {
  REQUIRE(m->_nrelations == rels.size(), "metadata has %zu relations, expected %zu", m->_nrelations, rels.size());
  for (size_t i = 0; i < rels.size(); i++) { DLiteRelation *r = m->_relations + i; const char *q[] = {r->s, r->p, r->o, r->d}; for (size_t k = 0; k < 4; k++) { S want = k < rels[i].size() ? rels[i][k] : S(); REQUIRE((q[k] ? S(q[k]) : S()) == want, "relation %zu of metadata: %s, expected %s", i, show(q[k]).c_str(), show(want).c_str()); } }
}
static inline js::V typespell(Gen &g, const PropM &p, bool &refname) {
  if (p.t.t == dliteRef && !p.ref.null && g.flip()) { refname = true; return js::str(p.ref.b); }
  if (g.chance(1, 3)) { if (p.t == Ty{dliteFloat, 8}) return js::str(g.flip() ? "double" : "float"); if (p.t == Ty{dliteInt, 8}) return js::str("int"); if (p.t == Ty{dliteUInt, 8}) return js::str("uint"); if (p.t == Ty{dliteStringPtr, 8}) return js::str("str"); if (p.t == Ty{dliteFloat, 4} && g.flip()) return js::str("float32"); }
  return js::str(tyname(p.t));
}
static inline js::V metadoc(Gen &g, const MetaM &m, const Rels &rels, const S &metauri, int style, const S &uuid) {
  js::V v = js::obj();
  if (style == 0) v.o.push_back({"uri", js::str(m.uri)});
  else if (style == 1) { v.o.push_back({"name", js::str(m.name)}); v.o.push_back({"version", js::str(m.version)}); v.o.push_back({"namespace", js::str(m.ns)}); }
  else v.o.push_back({"identity", js::str(m.uri)});
  if (g.chance(1, 4)) { js::V q = js::str(uuid); q.plain = true; v.o.push_back({"uuid", q}); }
  if (metauri != DLITE_ENTITY_SCHEMA || g.flip()) {
    if (g.chance(1, 4)) { size_t a = metauri.rfind('/'), b = metauri.rfind('/', a - 1); js::V q = js::obj(); q.o = {{"name", js::str(metauri.substr(a + 1))}, {"version", js::str(metauri.substr(b + 1, a - b - 1))}, {"namespace", js::str(metauri.substr(0, b))}}; v.o.push_back({"meta", q}); }
    else v.o.push_back({"meta", js::str(metauri)});
  }
  if (!m.descr.null && (m.descr.b.size() || g.flip())) v.o.push_back({"description", js::str(m.descr.b)});
  bool da = g.flip(), pa = g.flip(); js::V d = da ? js::arr() : js::obj(), p = pa ? js::arr() : js::obj();
  for (auto &x : m.dims) {
    if (da) { js::V q = js::obj(); q.o.push_back({"name", js::str(x.first)}); if (!x.second.null) q.o.push_back({"description", js::str(x.second.b)}); d.a.push_back(q); }
    else d.o.push_back({x.first, x.second.null ? js::null() : js::str(x.second.b)});
  }
  if (m.dims.size() || g.flip()) v.o.push_back({"dimensions", d});
  for (auto &x : m.props) {
    js::V q = js::obj(); bool refname = false; if (pa) q.o.push_back({"name", js::str(x.name)});
    q.o.push_back({"type", typespell(g, x, refname)}); if (!x.ref.null && !refname) q.o.push_back({"$ref", js::str(x.ref.b)});
    if (x.shape.size() || g.chance(1, 5)) { js::V s = js::arr(); for (auto &e : x.shape) s.a.push_back(js::str(e.text)); q.o.push_back({g.flip() ? "shape" : "dims", s}); }
    if (!x.unit.null) q.o.push_back({"unit", js::str(x.unit.b)});
    if (!x.descr.null) q.o.push_back({"description", js::str(x.descr.b)});
    if (pa) p.a.push_back(q); else p.o.push_back({x.name, q});
  }
  v.o.push_back({"properties", p});
  if (rels.size() || (metauri != DLITE_ENTITY_SCHEMA && g.flip())) { js::V r = js::arr(); for (auto &x : rels) { if (x.size() == 3 && g.chance(1, 4)) { js::V q = js::obj(); q.o = {{"s", js::str(x[0])}, {"p", js::str(x[1])}, {"o", js::str(x[2])}}; r.a.push_back(q); continue; } js::V q = js::arr(); for (auto &s : x) q.a.push_back(js::str(s)); r.a.push_back(q); } v.o.push_back({"relations", r}); }
  return v;
}
