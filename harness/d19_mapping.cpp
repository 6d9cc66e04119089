// flavours: asan builtin
// D19: mappings reach the requested metadata along the cheapest route
#include "world.hpp"
#include "dlite-json.h"
#include "dlite-storage.h"
extern "C" {
#include "dlite-mapping.h"
#include "dlite-mapping-plugins.h"
}
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
static void init() { dlite_err_set_stream(NULL); world_finite = true; }

struct Plug { DLiteMappingPlugin api; S name; int out; std::vector<int> in; int cost; int behaviour = 0; std::vector<const char *> uris; };   // behaviour 1: fails, 2: wrong metadata
struct Call { int plug; std::vector<S> in; S out; };
struct Ctx { std::vector<DLiteMeta *> metas; std::vector<S> uris; std::vector<std::unique_ptr<Plug>> plugs; std::vector<Call> calls; };
static Ctx *ctx;

static DLiteInstance *newinst(int m, int32_t v, const char *id = NULL) { DLiteInstance *i = dlite_instance_create(ctx->metas[m], NULL, id); REQUIRE(i && !dlite_instance_set_property(i, "v", &v), "instance"); return i; }
static int32_t value(const DLiteInstance *i) { return *(int32_t *)dlite_instance_get_property(i, "v"); }
static int32_t mix(int plug, const std::vector<int32_t> &in) { uint32_t h = 17 + plug; for (int32_t v : in) h = h * 31 + (uint32_t)v; return (int32_t)h; }
static DLiteInstance *mapper(const DLiteMappingPlugin *api, const DLiteInstance **insts, int n) {
  int p = -1; for (size_t i = 0; i < ctx->plugs.size(); i++) if (&ctx->plugs[i]->api == api) p = i;
  REQUIRE(p >= 0, "mapper called with unknown plugin"); Plug &P = *ctx->plugs[p];
  REQUIRE(n == (int)P.in.size(), "mapper %s called with %d instances, expected %zu", P.name.c_str(), n, P.in.size());
  Call c; c.plug = p; std::vector<int32_t> v;
  for (int i = 0; i < n; i++) {
    REQUIRE(insts[i], "mapper %s called without input %d", P.name.c_str(), i);
    REQUIRE(ctx->uris[P.in[i]] == insts[i]->meta->uri, "mapper %s: input %d is %s, expected %s", P.name.c_str(), i, insts[i]->meta->uri, ctx->uris[P.in[i]].c_str());
    REQUIRE(insts[i]->_refcount >= 1, "mapper: dead input"); c.in.push_back(insts[i]->uuid); v.push_back(value(insts[i]));
  }
  DLiteInstance *r = NULL;
  if (P.behaviour == 1) dlite_err(1, "mapper fails"); else { r = newinst(P.behaviour == 2 ? (P.out + 1) % ctx->metas.size() : P.out, mix(p, v)); c.out = r->uuid; }
  ctx->calls.push_back(c); return r;
}

static const long INF = 1L << 40;
// the cost of the cheapest route to each metadata
static std::vector<long> model(Ctx &c, const std::set<int> &in) {
  std::vector<long> best(c.metas.size(), INF); for (int i : in) best[i] = 0;
  for (bool ch = true; ch;) { ch = false; for (auto &p : c.plugs) { if (in.count(p->out)) continue; long k = p->cost; for (int i : p->in) k = std::min(INF, k + best[i]); if (k < best[p->out]) { best[p->out] = k; ch = true; } } }
  return best;
}
static long check_tree(Ctx &c, const DLiteMapping *m, int target, const std::set<int> &in, S &text, int indent, std::set<int> &used, bool &bad) {
  REQUIRE(c.uris[target] == m->output_uri, "mapping to %s has output %s", c.uris[target].c_str(), m->output_uri);
  Plug *p = NULL; for (auto &q : c.plugs) if (q->api.name == m->name || q->name == m->name) p = q.get();
  REQUIRE(p && p->out == target && m->api == &p->api, "step %s does not give %s", m->name, m->output_uri);
  REQUIRE(m->ninput == (int)p->in.size(), "step %s has %d inputs, expected %zu", m->name, m->ninput, p->in.size());
  if (p->behaviour) bad = true;
  used.insert(target);
  auto pre = [&](int n) { for (int j = 0; j < n - 1; j++) text += "|   "; if (n) text += "+-- "; };
  pre(indent); text += c.uris[target] + "\n"; long cost = p->cost;
  for (int i = 0; i < m->ninput; i++) {
    REQUIRE(!m->input_maps[i] != !m->input_uris[i], "input %d of step %s is neither or both of input and mapping", i, m->name);
    if (m->input_uris[i]) { REQUIRE(in.count(p->in[i]) && c.uris[p->in[i]] == m->input_uris[i], "input %d of step %s is not an available input", i, m->name); for (int j = 0; j < indent; j++) text += "|   "; text += "+-- " + c.uris[p->in[i]] + "\n"; }
    else cost += check_tree(c, m->input_maps[i], p->in[i], in, text, indent + 1, used, bad);
  }
  REQUIRE(cost == m->cost, "mapping to %s says it costs %d, but its steps cost %ld", m->output_uri, m->cost, cost);
  return cost;
}

static PluginInfo *info() { DLiteMappingPluginIter it; dlite_mapping_plugin_init_iter(&it); return (PluginInfo *)it.iter.info; }

static void build(Gen &g, Ctx &c) {
  ctx = &c; int k = g.range(2, 8), n = g.below(2 + 2 * k); DLiteProperty p; memset(&p, 0, sizeof p); p.name = (char *)"v"; p.type = dliteInt; p.size = 4;
  for (int i = 0; i < k; i++) {
    S pad = g.chance(1, 10) ? S(g.range(80, 200), 'x') : S(); c.uris.push_back(fmt("http://onto-ns.com/meta/0.%d/M%d%s", metacount, i, pad.c_str()));
    c.metas.push_back(dlite_meta_create(c.uris[i].c_str(), "", 0, NULL, 1, &p)); REQUIRE(c.metas[i], "metadata");
  }
  metacount++;
  int maxcost = g.pick<int>({0, 1, 3, 30});
  for (int i = 0; i < n; i++) {
    Plug *q = new Plug; q->name = fmt("p%d-%s", i, g.ident().c_str()); q->out = g.below(k); int ni = g.weighted({1, 10, 5, 2});
    for (int j = 0; j < ni; j++) q->in.push_back(g.below(k));
    q->cost = g.below(maxcost + 1); if (g.chance(1, 20)) q->behaviour = g.range(1, 2);
    for (int j : q->in) q->uris.push_back(c.uris[j].c_str());
    memset(&q->api, 0, sizeof q->api); q->api.name = (char *)q->name.c_str(); q->api.output_uri = c.uris[q->out].c_str(); q->api.ninput = ni; q->api.input_uris = q->uris.data(); q->api.mapper = mapper; q->api.cost = q->cost;
    c.plugs.emplace_back(q); S s; for (int j : q->in) s += fmt(" %d", j);
    g.log("plugin %s: %d <-%s, cost %d%s", q->name.c_str(), q->out, s.c_str(), q->cost, q->behaviour == 1 ? ", fails" : q->behaviour ? ", wrong metadata" : "");
    REQUIRE(plugin_register_api(info(), (PluginAPI *)&q->api) == 0, "cannot register plugin");
  }
}
static void unregister(Ctx &c) {
  for (auto &p : c.plugs) REQUIRE(dlite_mapping_plugin_unload(p->name.c_str()) == 0, "cannot unload plugin %s: %s", p->name.c_str(), dlite_errmsg());
  REQUIRE(plugin_register_api(info(), (PluginAPI *)&c.plugs[0]->api) == 0, "plugin is still registered"); dlite_mapping_plugin_unload(c.plugs[0]->name.c_str());
}

static void run(Gen &g, Ctx &c) {
  int k = c.metas.size(); std::set<int> in; int ni = g.range(1, 3); for (int i = 0; i < ni; i++) in.insert(g.below(k));
  std::vector<int> ins(in.begin(), in.end()); for (size_t i = ins.size(); i > 1; i--) std::swap(ins[i - 1], ins[g.below(i)]);
  int target = g.below(k); auto best = model(c, in); bool reach = best[target] < INF; bool trivial = in.count(target);
  S s; for (int i : ins) s += fmt(" %d", i);
  g.log("map%s to %d: cost %ld", s.c_str(), target, reach ? best[target] : -1);
  // planning
  std::vector<S> us; for (int i : ins) us.push_back(c.uris[i]); std::vector<const char *> up; for (auto &u : us) up.push_back(u.c_str());
  S tu = c.uris[target]; bool bad = false; std::set<int> used;
  if (g.flip() || reach) {
    DLiteMapping *m = dlite_mapping_create(tu.c_str(), up.data(), up.size()); int e = take_error();
    if (!reach) { REQUIRE(!m, "a mapping is found where there is none"); REQUIRE(e, "no mapping and no error"); }
    else {
      REQUIRE(m, "no mapping is found, expected one of cost %ld", best[target]); S text;
      if (trivial) { REQUIRE(!m->name && m->cost == 0 && m->ninput == 1, "trivial mapping"); text = tu + "\n"; }
      else { long cost = check_tree(c, m, target, in, text, 0, used, bad); REQUIRE(cost == best[target], "mapping costs %ld, but there is one that costs %ld:\n%s", cost, best[target], text.c_str()); if (used.size() > 1) { g.label("more than one step"); g.nontrivial(); } }
      char *t = dlite_mapping_string(m); REQUIRE(t && text == t, "dlite_mapping_string gives\n%s\nexpected\n%s", t ? t : "NULL", text.c_str()); free(t);
      // carry it out step by step, with unused inputs left out
      if (g.flip()) {
        std::vector<DLiteInstance *> li; for (int i : ins) li.push_back(newinst(i, g.range(0, 1000)));
        std::vector<const DLiteInstance *> cp(li.begin(), li.end()); c.calls.clear();
        DLiteInstance *r = dlite_mapping_map(m, cp.data(), cp.size()); e = take_error();
        if (bad) REQUIRE(!r && e, "mapping with a failing step succeeds"); else { REQUIRE(r && tu == r->meta->uri, "dlite_mapping_map: %s", dlite_errmsg()); dlite_instance_decref(r); }
        for (auto *x : li) REQUIRE(dlite_instance_decref(x) == 0, "dlite_mapping_map leaves references to its input");
      }
      dlite_mapping_free(m);
    }
  } else return;
  // carrying it out
  std::vector<DLiteInstance *> li; std::vector<int32_t> vals; for (int i : ins) { vals.push_back(g.range(0, 1000)); li.push_back(newinst(i, vals.back(), g.flip() ? NULL : fmt("in-%d-%d", metacount, i).c_str())); }
  std::vector<const DLiteInstance *> cp(li.begin(), li.end()); std::vector<S> ids; for (auto *x : li) ids.push_back(x->uuid);
  c.calls.clear(); DLiteInstance *r = NULL; S how = "dlite_mapping"; const char *t = tu.c_str(); bool own = false, released = false; DLiteCollection *coll = NULL;
  if (li.size() == 1) switch (g.below(6)) {
    case 0: how = "dlite_instance_get_casted"; r = dlite_instance_get_casted(ids[0].c_str(), t); break;
    case 1: how = "dlite_collection_get_new"; coll = dlite_collection_create(NULL); dlite_collection_add(coll, "x", li[0]); r = dlite_collection_get_new(coll, "x", t); break;
    case 2: case 3: {
      const char *d = getenv("VERIF_SCRATCH"); S f = S(d ? d : "/tmp") + fmt("/map%d.json", getpid()); REQUIRE(dlite_json_printfile(f.c_str(), li[0], (DLiteJsonFlag)0) > 0, "writing");
      released = g.flip(); if (released) dlite_instance_decref(li[0]);
      how = released ? "dlite_instance_load_casted of instance not in memory" : "dlite_instance_load_casted"; DLiteStorage *st = dlite_storage_open("json", f.c_str(), "mode=r"); REQUIRE(st, "open"); r = dlite_instance_load_casted(st, ids[0].c_str(), t); dlite_storage_close(st); unlink(f.c_str()); break; }
    case 4: {
      char *b = dlite_json_aprint(li[0], 0, (DLiteJsonFlag)0); released = g.flip(); if (released) dlite_instance_decref(li[0]);
      how = "dlite_instance_memload"; r = dlite_instance_memload("json", (unsigned char *)b, strlen(b), ids[0].c_str(), NULL, t); free(b); break; }
    default: r = dlite_mapping(t, cp.data(), 1);
  } else r = dlite_mapping(t, cp.data(), cp.size());
  (void)own; int e = take_error(); g.label(how);
  if (!reach || bad) { REQUIRE(!r, "%s gives an instance", how.c_str()); REQUIRE(e, "%s fails without an error", how.c_str()); g.label(bad ? "failing step" : "unreachable"); }
  else {
    REQUIRE(r, "%s gives nothing: %s", how.c_str(), dlite_errmsg());
    REQUIRE(tu == r->meta->uri, "%s gives an instance of %s, expected %s", how.c_str(), r->meta->uri, t);
    if (trivial) { size_t i = 0; while (ins[i] != target) i++; REQUIRE(c.calls.empty(), "mappings are called although an input is of the requested metadata"); if (!released) REQUIRE(r == li[i], "%s: not the input itself", how.c_str()); REQUIRE(ids[i] == r->uuid, "uuid"); g.label("trivial"); }
    else {
      long cost = 0; std::map<S, int32_t> v; for (size_t i = 0; i < ids.size(); i++) v[ids[i]] = vals[i];
      std::set<int> outs; for (auto &q : c.calls) { Plug &P = *c.plugs[q.plug]; cost += P.cost; REQUIRE(outs.insert(P.out).second, "%s: two instances of %s are made", how.c_str(), c.uris[P.out].c_str()); std::vector<int32_t> a; for (auto &u : q.in) { REQUIRE(v.count(u), "step uses an unknown instance"); a.push_back(v[u]); } v[q.out] = mix(q.plug, a); }
      REQUIRE(cost <= best[target], "%s: steps taken cost %ld, expected at most %ld", how.c_str(), cost, best[target]);
      REQUIRE(v.count(r->uuid) && value(r) == v[r->uuid], "%s: wrong result", how.c_str()); REQUIRE(r->_refcount == 1, "%s: result has %d references", how.c_str(), r->_refcount);
    }
    REQUIRE(dlite_instance_decref(r) == (trivial && !released ? coll ? 2 : 1 : 0), "%s: wrong reference count of the result", how.c_str());
  }
  if (coll) dlite_collection_decref(coll);
  for (size_t i = 0; i < li.size(); i++) {
    if (released) { REQUIRE(!dlite_instance_has(ids[i].c_str(), 0), "%s: input is left in memory", how.c_str()); continue; }
    REQUIRE(li[i]->_refcount == 1 && value(li[i]) == vals[i], "%s: input %zu was changed or has %d references, expected 1", how.c_str(), i, li[i]->_refcount);
  }
  for (auto &q : c.calls) if (q.out.size()) REQUIRE(!dlite_instance_has(q.out.c_str(), 0), "%s: an intermediate instance of %s is left", how.c_str(), c.uris[c.plugs[q.plug]->out].c_str());
  // two inputs of the same metadata are refused
  if (!released && g.chance(1, 5)) {
    DLiteInstance *d = newinst(ins[0], 1); cp.push_back(d); up.push_back(up[0]); c.calls.clear();
    REQUIRE(!dlite_mapping(t, cp.data(), cp.size()) && take_error(), "two inputs of the same metadata"); REQUIRE(!dlite_mapping_create(t, up.data(), up.size()) && take_error(), "two inputs of the same metadata");
    for (auto *x : cp) REQUIRE(x->_refcount == 1, "references after refused mapping"); dlite_instance_decref(d); g.label("same metadata twice");
  }
  if (!released) for (auto *x : li) dlite_instance_decref(x);
}
PBT(D19, routes, 15000, 400000, 60, "a cheapest route with more than one step") {
  Ctx c; build(g, c); int n = g.range(1, 4); for (int i = 0; i < n; i++) run(g, c);
  if (c.plugs.size() && g.chance(1, 3)) unregister(c); else for (auto &p : c.plugs) dlite_mapping_plugin_unload(p->name.c_str());
  for (auto *m : c.metas) dlite_meta_decref(m);
  ctx = NULL; dlite_errclr();
}
// nothing is left after mapping, whether it succeeds or not
PBT(D19, balanced, 4000, 100000, 60, "a cheapest route with more than one step") {
  Ctx c; build(g, c); std::vector<int> ops; int k = c.metas.size(); int target = g.below(k), ni = g.range(1, 3); std::set<int> in; for (int i = 0; i < ni; i++) in.insert(g.below(k));
  auto best = model(c, in); size_t before = 0;
  for (int round = 0; round < 3; round++) {
    std::vector<DLiteInstance *> li; for (int i : in) li.push_back(newinst(i, i)); std::vector<const DLiteInstance *> cp(li.begin(), li.end());
    DLiteInstance *r = dlite_mapping(c.uris[target].c_str(), cp.data(), cp.size()); if (r) dlite_instance_decref(r);
    if (c.calls.size() > 1) g.nontrivial();
    c.calls.clear(); c.calls.shrink_to_fit();
    for (auto *x : li) REQUIRE(dlite_instance_decref(x) == 0, "reference count of input");
    dlite_errclr(); li.clear(); li.shrink_to_fit(); cp.clear(); cp.shrink_to_fit();
    size_t now = __sanitizer_get_current_allocated_bytes(); if (round == 2) REQUIRE(now <= before, "%zu bytes are left after mapping", now - before);
    before = now;
  }
  (void)best;
  for (auto &p : c.plugs) dlite_mapping_plugin_unload(p->name.c_str());
  for (auto *m : c.metas) dlite_meta_decref(m);
  ctx = NULL; dlite_errclr();
}
int main(int argc, char **argv) { child_init = init; return pbt::run_main(argc, argv); }
