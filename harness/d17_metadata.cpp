// flavours: asan builtin
// D17: metadata is unique, immutable and described by itself
#include "world.hpp"
#include "metadoc.hpp"
#include "dlite-json.h"
#include "dlite-schemas.h"
extern "C" {
#include "dlite-bson.h"
}
static void init() { dlite_err_set_stream(NULL); world_finite = true; for (const char **p; (p = dlite_storage_paths_get()) && p[0];) dlite_storage_paths_remove_index(0); dlite_instance_get("warm-up"); dlite_errclr(); }

enum Way { Parts, Model, Inst, Json, NWAYS };
static const char *WAY[] = {"dlite_meta_create()", "a metadata model", "an instance of the schema", "JSON"};
static bool jsonable(const MetaM &m) { return !m.props.empty(); }
static bool modelable(const MetaM &m) { return !m.props.empty(); }   // a model without properties is incomplete

static DLiteMetaModel *model(Gen &g, const MetaM &m, const char *metaid) {
  DLiteMetaModel *mm = dlite_metamodel_create(m.uri.c_str(), metaid); REQUIRE(mm, "metamodel: %s", dlite_errmsg());
  auto d = [&] { for (auto &x : m.dims) REQUIRE(dlite_metamodel_add_dimension(mm, x.first.c_str(), x.second.null ? NULL : x.second.b.c_str()) == 0, "add dimension %s", x.first.c_str()); };
  auto p = [&] { for (auto &x : m.props) {
    S t = x.t.t == dliteRef && !x.ref.null ? x.ref.b : tyname(x.t);
    REQUIRE(dlite_metamodel_add_property(mm, x.name.c_str(), t.c_str(), x.unit.null ? NULL : x.unit.b.c_str(), x.descr.null ? NULL : x.descr.b.c_str()) == 0, "add property %s: %s", x.name.c_str(), dlite_errmsg());
    for (auto &e : x.shape) REQUIRE(dlite_metamodel_add_property_dim(mm, x.name.c_str(), e.text.c_str()) == 0, "add dimension"); } };
  auto s = [&] { const char *v = m.descr.b.c_str(); if (g.chance(1, 4)) REQUIRE(dlite_metamodel_add_string(mm, "description", "to be replaced") == 0 && dlite_metamodel_set_string(mm, "description", v) == 0, "description"); else REQUIRE(dlite_metamodel_add_string(mm, "description", v) == 0, "description"); };
  switch (g.below(3)) { case 0: d(); p(); s(); break; case 1: p(); s(); d(); break; default: s(); d(); p(); }
  // refused additions change nothing
  if (m.dims.size() && g.chance(1, 4)) { REQUIRE(dlite_metamodel_add_dimension(mm, m.dims[0].first.c_str(), "x") != 0, "adding a dimension twice is accepted"); REQUIRE(take_error(), "no error"); }
  if (m.props.size() && g.chance(1, 4)) { REQUIRE(dlite_metamodel_add_property(mm, m.props.back().name.c_str(), "int", NULL, NULL) != 0, "adding a property twice is accepted"); REQUIRE(take_error(), "no error"); }
  if (g.chance(1, 4)) { REQUIRE(dlite_metamodel_add_property(mm, "zzz", "nosuchtype", NULL, NULL) != 0, "adding a property of unknown type is accepted"); REQUIRE(take_error(), "no error"); }
  if (g.chance(1, 4)) { REQUIRE(dlite_metamodel_add_property_dim(mm, "no-such-property", "1") != 0 && take_error(), "a dimension of an unknown property is accepted"); REQUIRE(dlite_metamodel_set_dimension_value(mm, "nosuchdim", 3) != 0 && take_error(), "unknown dimension"); REQUIRE(dlite_metamodel_set_string(mm, "nosuchprop", "x") != 0 && take_error(), "unknown property"); REQUIRE(dlite_metamodel_add_string(mm, "description", "x") != 0 && take_error(), "adding a string twice"); }
  if (g.chance(1, 5) && S(metaid) == DLITE_ENTITY_SCHEMA) {   // a definition that lacks something
    S u = m.uri + "Incomplete"; DLiteMetaModel *mi = dlite_metamodel_create(u.c_str(), metaid); REQUIRE(mi, "metamodel"); int k = g.below(3); const char *want[3] = {"description", "properties", "description"};
    if (k == 0) REQUIRE(dlite_metamodel_add_property(mi, "x", "int", NULL, NULL) == 0, "add property");
    if (k == 1) REQUIRE(dlite_metamodel_add_string(mi, "description", "") == 0, "description");
    if (g.flip()) REQUIRE(dlite_metamodel_add_dimension(mi, "n", NULL) == 0, "add dimension");
    DLiteMeta *r = dlite_meta_create_from_metamodel(mi); REQUIRE(!r && take_error(), "metadata without %s is accepted", want[k]); dlite_metamodel_free(mi); g.label("incomplete definition");
    REQUIRE(!dlite_instance_has(u.c_str(), 0), "refused metadata is there"); dlite_errclr();
  }
  return mm;
}
// a new reference to metadata with the given definition
static DLiteMeta *build(Gen &g, const MetaM &m, Way way, S &how) {
  how = WAY[way];
  switch (way) {
  case Parts: return create_meta(m);
  case Model: { DLiteMetaModel *mm = model(g, m, DLITE_ENTITY_SCHEMA); DLiteMeta *r = dlite_meta_create_from_metamodel(mm); int e = dlite_errval(); S msg = dlite_errmsg(); dlite_metamodel_free(mm); if (!r) REQUIRE(e, "%s", msg.c_str()); return r; }
  case Inst: {
    CDef c(m); size_t dims[2] = {c.d.size(), c.p.size()}; DLiteInstance *i = dlite_instance_create(dlite_get_entity_schema(), dims, m.uri.c_str()); REQUIRE(i, "instance of the schema: %s", dlite_errmsg());
    const char *nm = m.name.c_str(), *ve = m.version.c_str(), *ns = m.ns.c_str(), *de = m.descr.b.c_str();
    std::vector<std::pair<const char *, const void *>> v = {{"name", &nm}, {"version", &ve}, {"namespace", &ns}, {"description", &de}, {"dimensions", c.d.data()}, {"properties", c.p.data()}};
    for (size_t k = v.size(); k > 1; k--) std::swap(v[k - 1], v[g.below(k)]); for (auto &e : v) { if ((!strcmp(e.first, "dimensions") && c.d.empty()) || (!strcmp(e.first, "properties") && c.p.empty())) continue; REQUIRE(dlite_instance_set_property(i, e.first, e.second) == 0, "set %s: %s", e.first, dlite_errmsg()); }
    REQUIRE(dlite_meta_init((DLiteMeta *)i) == 0, "init: %s", dlite_errmsg()); return dlite_meta_from_instance(i); }
  case Json: { char u[DLITE_UUID_LENGTH + 1]; dlite_get_uuid(u, m.uri.c_str()); js::V v = metadoc(g, m, {}, DLITE_ENTITY_SCHEMA, g.below(3), u); S t = js::print(v, &g); return (DLiteMeta *)dlite_json_sscan(t.c_str(), g.flip() ? m.uri.c_str() : NULL, NULL); }
  default: return NULL;
  }
}
static S hash_of(const DLiteInstance *i) { uint8_t h[32]; REQUIRE(dlite_instance_get_hash(i, h, 32) == 0, "hash: %s", dlite_errmsg()); return S((char *)h, 32); }
static S json_of(const DLiteInstance *i) { int n = dlite_json_sprint(NULL, 0, i, 0, dliteJsonSingle); REQUIRE(n > 0, "json: %s", dlite_errmsg()); S s(n, 0); dlite_json_sprint(&s[0], n + 1, i, 0, dliteJsonSingle); return s; }

// Metadata seen through the interface for instances, up to the root
static void described(const DLiteMeta *meta, const char *when) {
  int depth = 0;
  for (const DLiteMeta *m = meta;; m = m->meta) {
    const DLiteInstance *i = (const DLiteInstance *)m; const char *u = m->uri; REQUIRE(++depth < 10, "%s: the chain of schemas does not end", when);
    REQUIRE(dlite_instance_is_meta(i) && !dlite_instance_is_data(i) && dlite_meta_from_instance((DLiteInstance *)i) == m, "%s: %s is not metadata", when, u);
    REQUIRE(!!dlite_instance_is_metameta(i) == !!dlite_meta_is_metameta(m), "%s: %s is and is not meta-metadata", when, u); if (m != meta) REQUIRE(dlite_meta_is_metameta(m), "%s: schema %s is not meta-metadata", when, u);
    DLiteMeta *q = dlite_meta_get(u); REQUIRE(q == m, "%s: looking up %s: %s", when, u, dlite_errmsg()); dlite_meta_decref(q); q = dlite_meta_get(m->uuid); REQUIRE(q == m, "%s: looking up %s", when, m->uuid); dlite_meta_decref(q);
    REQUIRE(dlite_instance_get_ndimensions(i) == m->meta->_ndimensions && dlite_instance_get_nproperties(i) == m->meta->_nproperties, "%s: %s has other dimensions and properties than its schema describes", when, u);
    struct { const char *dim, *prop; size_t n; void *p; } t[] = {{"ndimensions", "dimensions", m->_ndimensions, m->_dimensions}, {"nproperties", "properties", m->_nproperties, m->_properties}, {"nrelations", "relations", m->_nrelations, m->_relations}};
    for (auto &x : t) {
      bool h = dlite_instance_has_dimension((DLiteInstance *)i, x.dim); REQUIRE(h == !!dlite_meta_has_dimension(m->meta, x.dim), "%s: has dimension %s", when, x.dim); if (!h) { REQUIRE(x.n == 0, "%s: %s has %zu %s that its schema does not describe", when, u, x.n, x.prop); continue; }
      REQUIRE((size_t)dlite_instance_get_dimension_size(i, x.dim) == x.n, "%s: %s of %s is %ld, expected %zu", when, x.dim, u, (long)dlite_instance_get_dimension_size(i, x.dim), x.n);
      if (!dlite_instance_has_property((DLiteInstance *)i, x.prop)) { REQUIRE(x.n == 0, "%s: no property %s", when, x.prop); continue; }
      REQUIRE(dlite_instance_get_property_dimssize(i, x.prop, 0) == x.n, "%s: size of %s of %s is %zu, expected %zu", when, x.prop, u, dlite_instance_get_property_dimssize(i, x.prop, 0), x.n); if (x.n) REQUIRE(dlite_instance_get_property(i, x.prop) == x.p, "%s: property %s of %s is something else than what describes its instances", when, x.prop, u);
    }
    S uri = meta_str(m, "namespace").b + "/" + meta_str(m, "version").b + "/" + meta_str(m, "name").b; REQUIRE(uri == u, "%s: name, version and namespace of %s are those of %s", when, u, uri.c_str());
    for (size_t k = 0; k < m->_ndimensions; k++) { REQUIRE(dlite_meta_get_dimension_index(m, m->_dimensions[k].name) == (int)k && dlite_meta_has_dimension(m, m->_dimensions[k].name), "%s: index of dimension %s", when, m->_dimensions[k].name); }
    for (size_t k = 0; k < m->_nproperties; k++) { const DLiteProperty *p = m->_properties + k; REQUIRE(dlite_meta_get_property_index(m, p->name) == (int)k && dlite_meta_has_property(m, p->name) && dlite_meta_get_property(m, p->name) == p && dlite_meta_get_property_by_index(m, k) == p, "%s: index of property %s", when, p->name); }
    REQUIRE(!dlite_meta_has_dimension(m, "no such") && !dlite_meta_has_property(m, "no such"), "%s: unknown name", when); dlite_errclr();
    if (m->meta == m) { REQUIRE(!strcmp(u, DLITE_BASIC_METADATA_SCHEMA), "%s: the root is %s", when, u); break; }
  }
}

PBT(D17, ways, 3000, 100000, 40, "a definition with dimensions and properties, built in several ways") {
  MetaOpt o; o.types = TY_REF | TY_REL | TY_META; o.refuri = "http://onto-ns.com/meta/0.1/Other"; MetaM m = gen_meta(g, o); if (m.descr.b.empty()) m.descr = Elem(S("described")); g.log("%s", showmeta(m).c_str());
  std::vector<Way> ways = {Parts, Inst}; if (modelable(m)) ways.push_back(Model); if (jsonable(m)) ways.push_back(Json); for (size_t k = ways.size(); k > 1; k--) std::swap(ways[k - 1], ways[g.below(k)]);
  S h0, j0; size_t s0 = 0; std::vector<size_t> d0; for (size_t i = 0; i < m.dims.size(); i++) d0.push_back(g.below(3)); d0.push_back(0); { std::vector<long> l(d0.begin(), d0.end() - 1); if (dims_status(m, l) != 1) d0.assign(d0.size(), 1); }
  for (size_t k = 0; k < 2; k++) {
    S how; m.meta = build(g, m, ways[k], how); REQUIRE(m.meta, "building from %s: %s", how.c_str(), dlite_errmsg()); g.log("built from %s", how.c_str()); g.label(WAY[ways[k]]);
    check_meta(m.meta, m, how.c_str()); described(m.meta, how.c_str()); REQUIRE(m.meta->meta == dlite_get_entity_schema() && m.meta->_refcount == 2, "%s: reference count %d", how.c_str(), m.meta->_refcount);
    S h = hash_of((DLiteInstance *)m.meta), j = json_of((DLiteInstance *)m.meta); std::vector<long> l(d0.begin(), d0.end() - 1); size_t s = dims_status(m, l) == 1 ? dlite_instance_size(m.meta, d0.data()) : 1;
    // the same definition again
    for (int q = g.below(3); q > 0; q--) { Way w = ways[g.below(ways.size())]; if (w == Inst) w = Parts; S hw; DLiteMeta *x = build(g, m, w, hw); REQUIRE(x == m.meta, "the same definition from %s gives %s: %s", hw.c_str(), x ? "other metadata" : "nothing", dlite_errmsg()); REQUIRE(x->_refcount == 3, "reference count"); dlite_meta_decref(x); dlite_errclr(); }
    useful(g, m); check_meta(m.meta, m, "after use"); REQUIRE(hash_of((DLiteInstance *)m.meta) == h, "hash of metadata changed with its use");
    if (k == 0) { h0 = h; j0 = j; s0 = s; } else { REQUIRE(h == h0, "metadata from %s has another hash than from %s", how.c_str(), WAY[ways[0]]); REQUIRE(j == j0, "metadata from %s is written otherwise than from %s", how.c_str(), WAY[ways[0]]); REQUIRE(s == s0, "instances of metadata from %s have size %zu and %zu", how.c_str(), s, s0); }
    forget(m.meta);
  }
  if (m.dims.size() && m.props.size()) g.nontrivial();
}

// Definitions that differ from an existing one
static bool mutate(Gen &g, MetaM &m, S &what) {
  switch (g.below(10)) {
  case 0: { MetaM x = gen_meta(g); if (x.dims.empty()) return false; m.dims.push_back({x.dims[0].first + "9", Elem(S("new"))}); what = "another dimension"; return true; }
  case 1: if (m.dims.empty()) return false; m.dims[g.below(m.dims.size())].first += "8"; what = "a renamed dimension"; return true;
  case 2: if (m.dims.size() < 2) return false; std::swap(m.dims[0], m.dims[1]); what = "swapped dimensions"; return true;
  case 3: if (m.props.size() < 2) return false; m.props.pop_back(); what = "a property less"; return true;
  case 4: if (m.props.empty()) return false; m.props[g.below(m.props.size())].name += "7"; what = "a renamed property"; return true;
  case 5: if (m.props.size() < 2) return false; std::swap(m.props[0], m.props[1]); what = "swapped properties"; return true;
  case 6: { if (m.props.empty()) return false; PropM &p = m.props[g.below(m.props.size())]; Ty t = gen_type(g); if (t == p.t) return false; p.t = t; p.ref = Elem::Null(); what = "another type"; return true; }
  case 7: { if (m.props.empty()) return false; PropM &p = m.props[g.below(m.props.size())]; p.unit = Elem(p.unit.b + "x"); what = "another unit"; return true; }
  case 8: { if (m.props.empty()) return false; PropM &p = m.props[g.below(m.props.size())]; if (p.shape.size() && g.flip()) p.shape.pop_back(); else p.shape.push_back(DimExpr{"2", [](const std::vector<long> &) { return 2L; }}); what = "another shape"; return true; }
  default: { PropM p; p.name = "extra6"; p.t = {dliteInt, 4}; m.props.push_back(p); what = "another property"; return true; }
  }
}
PBT(D17, redefinition, 4000, 120000, 40, "an existing definition, the same definition again and a different one offered in several ways") {
  MetaOpt o; o.types = TY_REF | TY_REL | TY_META; o.refuri = "http://onto-ns.com/meta/0.1/Other"; MetaM m = gen_meta(g, o); if (m.descr.null) m.descr = Elem(S("")); S how; g.log("%s", showmeta(m).c_str());
  m.meta = build(g, m, modelable(m) ? (Way)g.below(NWAYS) : Parts, how); REQUIRE(m.meta, "%s: %s", how.c_str(), dlite_errmsg()); S h = hash_of((DLiteInstance *)m.meta), j = json_of((DLiteInstance *)m.meta); g.log("from %s", how.c_str());
  InstM x; bool inst = false; { auto d = gen_dims(g, m, 3); if (g.flip() && dims_status(m, d) == 1) { x.m = &m; x.dims = d; x.inst = create_inst(m, d, NULL); REQUIRE(x.inst, "create"); x.uuid = x.inst->uuid; zero_vals(x); inst = true; } }
  int same = 0, diff = 0, base = m.meta->_refcount;
  for (int k = g.range(1, 5); k > 0; k--) {
    MetaM n = m; S what = "the same definition"; bool differs = g.chance(2, 3) && mutate(g, n, what); if (!differs && n.props.size() && g.flip()) { n.props[0].descr = Elem(S("other words")); what = "other descriptions"; } if (!differs && g.chance(1, 4)) n.descr = Elem(S("another description"));
    Way w = modelable(n) ? g.pick<Way>({Parts, Model, Json}) : Parts; dlite_errclr(); DLiteMeta *q = build(g, n, w, how); g.log("offer %s in %s -> %s", what.c_str(), how.c_str(), q ? "accepted" : "refused");
    if (differs && w != Json) { int e = take_error(); REQUIRE(!q, "%s in %s is accepted under the same URI", what.c_str(), how.c_str()); REQUIRE(e, "refused without an error"); diff++; }
    else { REQUIRE(q == m.meta, "%s in %s gives %s: %s", what.c_str(), how.c_str(), q ? "other metadata" : "nothing", dlite_errmsg()); dlite_meta_decref(q); dlite_errclr(); if (differs) diff++; else same++; }
    check_meta(m.meta, m, "after an attempt to redefine it"); REQUIRE(m.meta->_refcount == base, "reference count of the metadata is %d, expected %d", m.meta->_refcount, base);
    REQUIRE(hash_of((DLiteInstance *)m.meta) == h && json_of((DLiteInstance *)m.meta) == j, "metadata is altered by an attempt to redefine it");
    if (inst) check_inst(x, "after an attempt to redefine its metadata");
  }
  // a data instance does not take the place of metadata, nor metadata that of data
  if (g.chance(1, 3)) { auto d = gen_dims(g, m, 2); if (dims_status(m, d) == 1) { DLiteInstance *i = create_inst(m, d, m.uri.c_str()); REQUIRE(!i && take_error(), "a data instance with the URI of metadata is accepted"); MetaM n = gen_meta(g); i = create_inst(m, d, n.uri.c_str()); REQUIRE(i, "data with the URI of metadata: %s", dlite_errmsg()); DLiteMeta *q = create_meta(n); REQUIRE(!q && take_error(), "metadata with the URI of an existing data instance is accepted"); REQUIRE(!dlite_meta_get(n.uri.c_str()) && take_error(), "data is taken as metadata"); dlite_instance_decref(i); } }
  if (inst) dlite_instance_decref(x.inst);
  if (same && diff) g.nontrivial();
  described(m.meta, "at the end"); forget(m.meta);
}

// Schemas with further dimensions and properties
PBT(D17, schemas, 2500, 80000, 40, "a schema with further properties, metadata from it, and an instance of that") {
  MetaOpt so; so.maxdims = 2; so.maxprops = 4; so.maxnd = 2; MetaM s = gen_meta(g, so); std::set<S> std_ = {"name", "version", "namespace", "description", "dimensions", "properties", "relations", "ndimensions", "nproperties", "nrelations"};
  for (auto &p : s.props) if (std_.count(p.name)) throw Discard{}; for (auto &d : s.dims) if (std_.count(d.first)) throw Discard{};
  if (s.descr.null) s.descr = Elem(S("")); std::vector<PropM> extra = s.props; auto edims = s.dims; bool rel = g.flip();
  auto stdprop = [&](const char *n, Ty t, const char *dim) { PropM p; p.name = n; p.t = t; if (dim) { S dn = dim; p.shape.push_back(DimExpr{dn, [dn, &s](const std::vector<long> &d) { for (size_t i = 0; i < s.dims.size(); i++) if (s.dims[i].first == dn) return d[i]; return 0L; }}); } s.props.insert(s.props.begin() + g.below(s.props.size() + 1), p); };
  // the dimensions used by expressions keep their order, the new ones come last
  for (const char *d : {"ndimensions", "nproperties"}) s.dims.push_back({d, Elem(S(""))}); if (rel) s.dims.push_back({"nrelations", Elem(S(""))});
  for (const char *n : {"name", "version", "namespace", "description"}) stdprop(n, {dliteStringPtr, sizeof(char *)}, NULL);
  stdprop("dimensions", {dliteDimension, sizeof(DLiteDimension)}, "ndimensions"); stdprop("properties", {dliteProperty, sizeof(DLiteProperty)}, "nproperties"); if (rel) stdprop("relations", {dliteRelation, sizeof(DLiteRelation)}, "nrelations");
  DLiteMetaModel *mm = model(g, s, DLITE_BASIC_METADATA_SCHEMA); s.meta = dlite_meta_create_from_metamodel(mm); g.log("schema %s", showmeta(s).c_str()); REQUIRE(s.meta, "schema: %s", dlite_errmsg()); dlite_metamodel_free(mm);
  check_meta(s.meta, s, "schema"); described(s.meta, "schema"); REQUIRE(dlite_meta_is_metameta(s.meta), "the schema is not meta-metadata");
  // metadata from it
  MetaOpt o; o.types = TY_REF | TY_REL; MetaM m = gen_meta(g, o); if (m.descr.null) m.descr = Elem(S("")); if (m.props.empty()) { PropM p; p.name = "x"; p.t = {dliteInt, 4}; m.props.push_back(p); } g.log("metadata %s", showmeta(m).c_str());
  InstM y; y.m = &s; for (size_t i = 0; i < edims.size(); i++) y.dims.push_back(g.below(3)); y.dims.push_back(m.dims.size()); y.dims.push_back(m.props.size()); if (rel) y.dims.push_back(0);
  { bool ok = true; std::vector<size_t> sh; for (size_t k = 0; k < s.props.size(); k++) if (!shape_of(s, k, y.dims, sh) || nelem(sh) > 300) ok = false; if (!ok) { forget(s.meta); return; } }
  zero_vals(y); std::vector<std::unique_ptr<PropBuf>> bufs; mm = model(g, m, s.uri.c_str()); for (size_t i = 0; i < edims.size(); i++) REQUIRE(dlite_metamodel_set_dimension_value(mm, edims[i].first.c_str(), y.dims[i]) == 0, "dimension value");
  bool missing = false, incomplete = extra.size() && g.chance(1, 5); size_t skip = incomplete ? g.below(extra.size()) : 0; 
  for (size_t k = 0; k < s.props.size(); k++) {
    size_t e = 0; while (e < extra.size() && extra[e].name != s.props[k].name) e++; if (e == extra.size()) continue; if (incomplete && e == skip) { missing = true; continue; }
    for (auto &v : y.vals[k]) v = gen_value(g, s.props[k].t); bufs.emplace_back(new PropBuf(y, k, y.vals[k])); bool str = s.props[k].t.t == dliteStringPtr && s.props[k].shape.empty() && !y.vals[k][0].null;
    if (str && g.flip()) REQUIRE(dlite_metamodel_set_string(mm, s.props[k].name.c_str(), y.vals[k][0].b.c_str()) == 0, "string"); else REQUIRE(dlite_metamodel_add_value(mm, s.props[k].name.c_str(), bufs.back()->p) == 0, "value");
  }
  DLiteMeta *meta = dlite_meta_create_from_metamodel(mm);
  if (missing) {
    int e = take_error(); REQUIRE(!meta && e, "metadata with a missing value of its schema is accepted"); REQUIRE(!dlite_instance_has(m.uri.c_str(), 0), "half-made metadata is visible"); dlite_errclr(); g.label("missing value");
    for (size_t k = 0; k < s.props.size(); k++) if (s.props[k].name == extra[skip].name) { bufs.emplace_back(new PropBuf(y, k, y.vals[k])); REQUIRE(dlite_metamodel_add_value(mm, extra[skip].name.c_str(), bufs.back()->p) == 0, "value"); }
    meta = dlite_meta_create_from_metamodel(mm);
  }
  REQUIRE(meta, "metadata from the schema: %s", dlite_errmsg()); m.meta = meta; dlite_metamodel_free(mm); bufs.clear();
  check_meta(m.meta, m, "metadata from a schema"); described(m.meta, "metadata from a schema"); REQUIRE(meta->meta == s.meta, "metadata of another schema");
  for (size_t i = 0; i < s.dims.size(); i++) REQUIRE((long)dlite_instance_get_dimension_size((DLiteInstance *)meta, s.dims[i].first.c_str()) == y.dims[i], "dimension %s of the metadata", s.dims[i].first.c_str());
  for (size_t k = 0; k < s.props.size(); k++) { bool ex = false; for (auto &e : extra) if (e.name == s.props[k].name) ex = true; if (!ex) continue; char *p = (char *)dlite_instance_get_property_by_index((DLiteInstance *)meta, k); const Ty t = s.props[k].t; for (size_t q = 0; q < y.vals[k].size(); q++) { Elem e = get_elem(p + q * t.n, t); REQUIRE(same(e, y.vals[k][q], t), "element %zu of the metadata's %s is %s, expected %s", q, s.props[k].name.c_str(), elemstr(e, t).c_str(), elemstr(y.vals[k][q], t).c_str()); } }
  useful(g, m); S h = hash_of((DLiteInstance *)meta); check_meta(m.meta, m, "after use");
  // the existing metadata is given again; it is not an entity
  { DLiteMeta *q = create_meta(m); if (q) { REQUIRE(q == meta, "another metadata"); dlite_meta_decref(q); } dlite_errclr(); check_meta(m.meta, m, "after creating it as an entity"); REQUIRE(hash_of((DLiteInstance *)meta) == h, "hash"); }
  if (extra.size()) g.nontrivial();
  forget(m.meta); forget(s.meta);
}
int main(int argc, char **argv) { child_init = init; return pbt::run_main(argc, argv); }
