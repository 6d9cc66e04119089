// What the content hash of an instance covers: texts are joined without separators (known finding), everything else is kept apart
#pragma once
#include "world.hpp"
static S preimage(const InstM &x) {
  S s; for (long d : x.dims) s += fmt("<%ld>", d);
  for (size_t j = 0; j < x.vals.size(); j++) {
    const Ty t = x.m->props[j].t;
    for (auto &e : x.vals[j]) switch (t.t) {
    case dliteStringPtr: case dliteRef: if (!e.null) s += e.b; break;
    case dliteRelation: for (int i = 0; i < 4; i++) if (i < (int)e.f.size() && !e.f[i].null) s += e.f[i].b; break;
    case dliteFixString: { S b = e.b; b.resize(t.n); s += b; break; }
    default: s += e.b;
    }
  }
  return s;
}
