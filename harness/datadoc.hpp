// Instances written as JSON documents
#pragma once
#include "metadoc.hpp"
static inline js::V jvalue(Gen &g, const Elem &e, Ty t) {
  switch (t.t) {
  case dliteBool: return js::boolean(e.b[0]);
  case dliteInt: case dliteUInt: return js::num(elemstr(e, t));
  case dliteFloat: { S s = elemstr(e, t); if (g.chance(1, 4)) { if (t.n == 8) { double d; memcpy(&d, e.b.data(), 8); s = fmt("%.17e", d); } else { float d; memcpy(&d, e.b.data(), 4); s = fmt("%.9E", d); } } return js::num(s); }
  case dliteBlob: { S h; bool up = g.flip(); for (unsigned char c : e.b) h += fmt(up ? "%02X" : "%02x", c); js::V v = js::str(h); v.plain = true; return v; }
  case dliteRef: case dliteStringPtr: return e.null ? js::null() : js::str(e.b);
  case dliteRelation: {
    if (e.f[3].null && g.chance(1, 4)) { js::V q = js::obj(); q.o = {{"s", js::str(e.f[0].b)}, {"p", js::str(e.f[1].b)}, {"o", js::str(e.f[2].b)}}; return q; }
    js::V q = js::arr(); for (int i = 0; i < 4; i++) if (!e.f[i].null) q.a.push_back(js::str(e.f[i].b)); return q; }
  default: return js::str(e.b);
  }
}
static inline js::V jnest(Gen &g, const std::vector<size_t> &sh, size_t d, const std::vector<Elem> &vals, size_t &i, Ty t) {
  if (d == sh.size()) return jvalue(g, vals[i++], t);
  js::V v = js::arr(); for (size_t k = 0; k < sh[d]; k++) v.a.push_back(jnest(g, sh, d + 1, vals, i, t)); return v;
}
static inline js::V datadoc(Gen &g, const InstM &x, const Elem &uri, bool withuuid) {
  js::V v = js::obj();
  if (!uri.null) v.o.push_back({g.chance(1, 4) ? "identity" : "uri", js::str(uri.b)});
  if (withuuid) { S u = x.uuid; if (g.chance(1, 4)) for (auto &c : u) c = (char)toupper(c); js::V q = js::str(u); q.plain = true; v.o.push_back({"uuid", q}); }
  if (g.chance(1, 4)) { js::V q = js::obj(); q.o = {{"name", js::str(x.m->name)}, {"version", js::str(x.m->version)}, {"namespace", js::str(x.m->ns)}}; v.o.push_back({"meta", q}); } else v.o.push_back({"meta", js::str(x.m->uri)});
  js::V d = js::obj(), p = js::obj(); for (size_t i = 0; i < x.m->dims.size(); i++) d.o.push_back({x.m->dims[i].first, js::num(fmt("%ld", x.dims[i]))});
  for (size_t j = 0; j < x.m->props.size(); j++) { std::vector<size_t> sh; shape_of(*x.m, j, x.dims, sh); size_t i = 0; p.o.push_back({x.m->props[j].name, jnest(g, sh, 0, x.vals[j], i, x.m->props[j].t)}); }
  for (auto *q : {&d, &p}) for (size_t i = q->o.size(); i > 1; i--) std::swap(q->o[i - 1], q->o[g.below(i)]);
  if (d.o.size() || g.flip()) v.o.push_back({"dimensions", d});
  v.o.push_back({"properties", p});
  return v;
}
