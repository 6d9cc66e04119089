// A small population of metadata and instances with their models
#pragma once
#include "dmodel.hpp"

static bool world_finite = false;    // only finite floating point values
static inline Elem gen_value(Gen &g, Ty t, const std::vector<S> &refs = {}) {
  if (t.t == dliteRef) return refs.empty() || g.chance(1, 4) ? Elem::Null() : Elem(refs[g.below(refs.size())]);
  return gen_elem(g, t, world_finite);
}

// The URI that an instance created with identity `id` gets: UUIDs are not stored as URIs
static inline S uri_of_id(const char *id) {
  if (!id || !*id) return "";
  S s = id; size_t n = s.size(); if (n < 36) return s;
  if (n > 36 && s[n - 37] != '/' && s[n - 37] != '#') return s;
  S u = s.substr(n - 36); for (int i = 0; i < 36; i++) if (i == 8 || i == 13 || i == 18 || i == 23 ? u[i] != '-' : !isxdigit((unsigned char)u[i])) return s;
  return "";
}
struct World {
  Gen &g;
  std::vector<std::unique_ptr<MetaM>> metas;
  std::vector<std::unique_ptr<InstM>> insts;   // inst == NULL: released
  MetaM refmeta;                               // metadata for instances referred to
  std::vector<DLiteInstance *> targets;        // instances that can be referred to
  std::vector<S> trefs;
  World(Gen &g_) : g(g_) {}
  void init(int nmeta, MetaOpt o, int nrefs = 2) {
    if (o.types & TY_REF) {
      refmeta.uri = fmt("http://onto-ns.com/meta/0.%d/RefTarget", metacount++);
      refmeta.descr = Elem(S("")); PropM p; p.name = "n"; p.t = {dliteInt, 4}; refmeta.props.push_back(p);
      refmeta.meta = create_meta(refmeta); REQUIRE(refmeta.meta, "cannot create metadata for references");
      o.refuri = refmeta.uri;
      char base[40]; snprintf(base, sizeof base, "%08x-%04x-4%03x-8%03x-%08x%04x", (unsigned)g.i64(), (unsigned)g.below(65536), (unsigned)g.below(4096), (unsigned)g.below(4096), (unsigned)g.i64(), (unsigned)g.below(65536));
      bool similar = g.chance(1, 3);   // identities that differ in one position
      for (int i = 0; i < nrefs; i++) {
        S id = base; size_t at = g.pick<size_t>({35, 0, 7, 20, 34}); id[at] = "0123456789abcdef"[(strtol(S(1, id[at]).c_str(), NULL, 16) + i) % 16];
        DLiteInstance *t = create_inst(refmeta, {}, similar && !dlite_instance_has(id.c_str(), 0) ? id.c_str() : NULL); REQUIRE(t, "cannot create instance to refer to"); targets.push_back(t); trefs.push_back(t->uuid); }
    }
    for (int i = 0; i < nmeta; i++) {
      metas.emplace_back(new MetaM(gen_meta(g, o))); MetaM &m = *metas.back();
      m.meta = create_meta(m);
      g.log("meta %d: %s", i, showmeta(m).c_str());
      REQUIRE(m.meta, "cannot create metadata %s", showmeta(m).c_str());
    }
  }
  DLiteInstance *byuuid(const S &u) { for (auto *t : targets) if (u == t->uuid) return t; return NULL; }
  // creates an instance; NULL if the model says that it must be refused
  InstM *create(int mi, std::vector<long> dims, const char *id = NULL) {
    MetaM &m = *metas[mi]; int st = dims_status(m, dims);
    if (st < 0) throw Discard{};
    DLiteInstance *inst = create_inst(m, dims, id);
    S sd; for (long d : dims) sd += fmt("%ld ", d);
    g.log("create meta %d dims [%s] id %s -> %s", mi, sd.c_str(), show(id).c_str(), inst ? inst->uuid : "NULL");
    if (!st) {
      int e = take_error();
      REQUIRE(!inst, "instance with negative property size was created");
      REQUIRE(e, "refused creation without an error");
      g.label("creation refused");
      return NULL;
    }
    REQUIRE(inst, "cannot create instance of %s dims [%s]", showmeta(m).c_str(), sd.c_str());
    REQUIRE(uri_of_id(id) == (inst->uri ? inst->uri : ""), "uri of the instance created as %s is %s", show(id).c_str(), show(inst->uri).c_str());
    InstM *x = new InstM; x->m = &m; x->inst = inst; x->uuid = inst->uuid; x->dims = dims; zero_vals(*x);
    insts.emplace_back(x);
    return x;
  }
  std::vector<Elem> gen_prop_value(InstM &x, size_t j) {
    std::vector<Elem> v; Ty t = x.m->props[j].t;
    for (size_t i = 0; i < x.vals[j].size(); i++) v.push_back(gen_value(g, t, trefs));
    return v;
  }
  PropBuf buf(InstM &x, size_t j, const std::vector<Elem> &v) { return PropBuf(x, j, v, [this](const S &u) { return byuuid(u); }); }
  // store a generated value of a whole property or of one of its elements
  void set_random(InstM &x, size_t j) {
    const PropM &p = x.m->props[j];
    int how = g.below(p.t.t == dliteRef ? 2 : 3);
    if (how < 2) {
      auto v = gen_prop_value(x, j);
      PropBuf b(x, j, v, [this](const S &u) { return byuuid(u); });
      int r = how ? dlite_instance_set_property(x.inst, p.name.c_str(), b.p) : dlite_instance_set_property_by_index(x.inst, j, b.p);
      g.log("set %s property %zu %s (%zu elements)", x.uuid.c_str(), j, p.name.c_str(), v.size());
      REQUIRE(r == 0, "setting property %s (%s) failed", p.name.c_str(), tyname(p.t).c_str());
      x.vals[j] = v;
      // the buffer stays the caller's
      for (size_t i = 0; i < v.size(); i++) REQUIRE(same(b.get(i), v[i], p.t), "setting %s changed the caller's buffer", p.name.c_str());
    } else if (x.vals[j].size()) {
      size_t i = g.below(x.vals[j].size()); Elem e = gen_value(g, p.t);
      char *q = (char *)dlite_instance_get_property_by_index(x.inst, j);
      REQUIRE(q, "no memory for %s", p.name.c_str());
      Mem b(p.t, 1); b.put(0, e);
      REQUIRE(dlite_type_copy(q + i * p.t.n, b.p, p.t.t, p.t.n), "dlite_type_copy");
      g.log("set %s property %zu element %zu = %s", x.uuid.c_str(), j, i, elemstr(e, p.t).c_str());
      x.vals[j][i] = e;
    }
  }
  void check(const char *when) { for (auto &x : insts) if (x->inst) check_inst(*x, when); }
  InstM *pick() { std::vector<InstM *> v; for (auto &x : insts) if (x->inst) v.push_back(x.get()); if (v.empty()) return NULL; return v[g.below(v.size())]; }
  void release(InstM &x) {
    S u = x.uuid; int r = dlite_instance_decref(x.inst); x.inst = NULL;
    REQUIRE(r == 0, "reference count of a released instance is %d", r);
    REQUIRE(!dlite_instance_has(u.c_str(), 0), "instance %s is found after its last reference was released", u.c_str());
    dlite_errclr();
  }
  void finish() {
    for (auto &x : insts) if (x->inst) release(*x);
    for (size_t i = 0; i < targets.size(); i++) {
      REQUIRE(targets[i]->_refcount == 1, "instance referred to has reference count %d after all referring instances are gone", targets[i]->_refcount);
      dlite_instance_decref(targets[i]);
    }
    for (auto &m : metas) dlite_meta_decref(m->meta);
    if (refmeta.meta) dlite_meta_decref(refmeta.meta);
  }
};
