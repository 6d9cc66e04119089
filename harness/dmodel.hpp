// Reference model of data types, values, metadata and instances
#pragma once
#include "cdlite.hpp"
#include "pbt.hpp"
#include <functional>
#include <memory>
using namespace pbt;
typedef std::string S;

struct Ty { DLiteType t; size_t n; bool operator==(const Ty &o) const { return t == o.t && n == o.n; } };

// A value: raw bytes of fixed-size types, text of strings, uuid of references,
// fields of the structured types.
struct Elem {
  S b; bool null = false; std::vector<Elem> f;
  Elem() {}
  Elem(const S &s) : b(s) {}
  static Elem Null() { Elem e; e.null = true; return e; }
  bool operator==(const Elem &o) const { return b == o.b && null == o.null && f == o.f; }
  bool operator!=(const Elem &o) const { return !(*this == o); }
};
static inline Elem ostr(const char *s) { return s ? Elem(S(s)) : Elem::Null(); }
// null and empty are the same for descriptions and units
static inline Elem ostr0(const char *s) { return s && *s ? Elem(S(s)) : Elem::Null(); }
static inline char *dupz(const Elem &e) { return e.null ? NULL : strdup(e.b.c_str()); }

static inline S tyname(Ty t) {
  switch (t.t) {
  case dliteBlob: return fmt("blob%zu", t.n);       case dliteBool: return "bool";
  case dliteInt: return fmt("int%zu", t.n * 8);     case dliteUInt: return fmt("uint%zu", t.n * 8);
  case dliteFloat: return fmt("float%zu", t.n * 8); case dliteFixString: return fmt("string%zu", t.n - 1);
  case dliteStringPtr: return "string";             case dliteRef: return "ref";
  case dliteDimension: return "dimension";          case dliteProperty: return "property";
  case dliteRelation: return "relation";
  }
  return "?";
}

enum { TY_REF = 1, TY_REL = 2, TY_META = 4 };
static inline Ty gen_type(Gen &g, int flags = 0) {
  int extra = 0; if (flags & TY_REF) extra++; if (flags & TY_REL) extra++;
  int k = g.below(16 + (flags & (TY_REF) ? 2 : 0) + (flags & TY_REL ? 2 : 0) + (flags & TY_META ? 3 : 0));
  switch (k) {
  case 0: case 1: case 2: case 3: return {dliteInt, g.pick<size_t>({4, 8, 1, 2})};
  case 4: case 5: return {dliteUInt, g.pick<size_t>({4, 8, 1, 2})};
  case 6: case 7: return {dliteFloat, g.pick<size_t>({8, 4})};
  case 8: return {dliteBool, sizeof(bool)};
  case 9: return {dliteBlob, (size_t)g.pick<int>({1, 2, 3, 8, 13, 32})};
  case 10: case 11: return {dliteFixString, (size_t)g.pick<int>({2, 3, 5, 8, 21, 1})};
  case 12: case 13: case 14: case 15: return {dliteStringPtr, sizeof(char *)};
  }
  k -= 16;
  if (flags & TY_REF) { if (k < 2) return {dliteRef, sizeof(DLiteRef)}; k -= 2; }
  if (flags & TY_REL) { if (k < 2) return {dliteRelation, sizeof(DLiteRelation)}; k -= 2; }
  return k & 1 ? Ty{dliteDimension, sizeof(DLiteDimension)} : Ty{dliteProperty, sizeof(DLiteProperty)};
}

// text limited to at most n bytes without splitting a character
static inline S utf8cut(S s, size_t n) {
  if (s.size() <= n) return s;
  while (n > 0 && ((unsigned char)s[n] & 0xc0) == 0x80) n--;
  return s.substr(0, n);
}

static inline Elem gen_relation(Gen &g, bool idfield = false) {
  Elem e; for (int i = 0; i < 3; i++) e.f.push_back(Elem(g.text(12)));
  e.f.push_back(g.chance(1, 3) ? Elem("@" + g.ident(4)) : Elem::Null());
  (void)idfield;
  return e;
}

static inline Elem gen_elem(Gen &g, Ty t, bool finite = true) {
  Elem e;
  switch (t.t) {
  case dliteBlob: e.b = g.bytes(t.n); break;
  case dliteBool: e.b = S(1, (char)g.below(2)); break;
  case dliteInt: case dliteUInt: { int64_t v = g.i64(); e.b.assign((char *)&v, t.n); break; }
  case dliteFloat:
    if (t.n == 8) { double d = g.f64(finite); e.b.assign((char *)&d, 8); }
    else { float d = (float)g.f64(finite); if (finite && !std::isfinite(d)) d = 0.1f; e.b.assign((char *)&d, 4); }
    break;
  case dliteFixString: e.b = utf8cut(g.text(t.n + 4), t.n - 1); break;
  case dliteStringPtr: if (g.chance(1, 10)) return Elem::Null(); e.b = g.text(20); break;
  case dliteRelation: return gen_relation(g);
  case dliteDimension: e.f = {Elem(g.text(10)), g.flip() ? Elem(g.text(20)) : Elem::Null()}; break;
  case dliteProperty: {
    Ty pt = gen_type(g, TY_REF);
    S ty; if (pt.t == dliteRef && g.flip()) ty = "r" + S("http://onto-ns.com/meta/") + "0." + fmt("%d/", g.range(0, 9)) + g.ident();
    else ty = "t";
    e.f = {Elem(g.text(10)), Elem(S((char *)&pt.t, sizeof pt.t) + S((char *)&pt.n, sizeof pt.n)), ty[0] == 'r' ? Elem(ty.substr(1)) : Elem::Null(),
           g.flip() ? Elem("u" + g.text(5)) : Elem::Null(), g.flip() ? Elem("d" + g.text(20)) : Elem::Null()};
    Elem sh; int nd = g.pick<int>({0, 0, 1, 2, 3}); for (int i = 0; i < nd; i++) sh.f.push_back(Elem(g.text(6)));
    e.f.push_back(sh);
    break; }
  default: return Elem::Null();
  }
  return e;
}

// Write a value to an initialised (zero or valid) element
static inline void put_elem(void *p, Ty t, const Elem &e) {
  switch (t.t) {
  case dliteFixString: memset(p, 0, t.n); memcpy(p, e.b.data(), std::min(e.b.size(), t.n)); break;
  case dliteStringPtr: { char *q = dupz(e); free(*(char **)p); *(char **)p = q; break; }
  case dliteRelation: {
    DLiteRelation *r = (DLiteRelation *)p;
    char **q[] = {&r->s, &r->p, &r->o, &r->d};
    for (int i = 0; i < 4; i++) { free(*q[i]); *q[i] = dupz(e.f[i]); }
    free(r->id); r->id = NULL; break; }
  case dliteDimension: { DLiteDimension *d = (DLiteDimension *)p; free(d->name); free(d->description); d->name = dupz(e.f[0]); d->description = dupz(e.f[1]); break; }
  case dliteProperty: {
    DLiteProperty *d = (DLiteProperty *)p;
    free(d->name); free(d->ref); free(d->unit); free(d->description); for (int i = 0; i < d->ndims; i++) free(d->shape[i]); free(d->shape);
    memset(d, 0, sizeof *d);
    d->name = dupz(e.f[0]); memcpy(&d->type, e.f[1].b.data(), sizeof d->type); memcpy(&d->size, e.f[1].b.data() + sizeof d->type, sizeof d->size);
    d->ref = dupz(e.f[2]); d->unit = dupz(e.f[3]); d->description = dupz(e.f[4]);
    d->ndims = (int)e.f[5].f.size(); if (d->ndims) d->shape = (char **)calloc(d->ndims, sizeof(char *));
    for (int i = 0; i < d->ndims; i++) d->shape[i] = dupz(e.f[5].f[i]);
    break; }
  case dliteRef: break;
  default: memcpy(p, e.b.data(), t.n);
  }
}

static inline Elem get_elem(const void *p, Ty t) {
  switch (t.t) {
  case dliteFixString: return Elem(S((const char *)p, strnlen((const char *)p, t.n)));
  case dliteStringPtr: return ostr(*(char **)p);
  case dliteRef: { DLiteInstance *i = *(DLiteInstance **)p; return i ? Elem(S(i->uuid)) : Elem::Null(); }
  case dliteRelation: { const DLiteRelation *r = (const DLiteRelation *)p; Elem e; e.f = {ostr(r->s), ostr(r->p), ostr(r->o), ostr0(r->d)}; return e; }
  case dliteDimension: { const DLiteDimension *d = (const DLiteDimension *)p; Elem e; e.f = {ostr(d->name), ostr(d->description)}; return e; }
  case dliteProperty: {
    const DLiteProperty *d = (const DLiteProperty *)p; Elem e, sh;
    for (int i = 0; i < d->ndims; i++) sh.f.push_back(ostr(d->shape[i]));
    e.f = {ostr(d->name), Elem(S((char *)&d->type, sizeof d->type) + S((char *)&d->size, sizeof d->size)), ostr(d->ref), ostr0(d->unit), ostr0(d->description), sh};
    return e; }
  default: return Elem(S((const char *)p, t.n));
  }
}

static inline S elemstr(const Elem &e, Ty t) {
  if (e.null) return "NULL";
  switch (t.t) {
  case dliteBool: return e.b[0] ? "true" : "false";
  case dliteInt: { int64_t v = 0; memcpy(&v, e.b.data(), t.n); if (t.n < 8 && (e.b[t.n - 1] & 0x80)) v |= ~0ULL << (8 * t.n); return fmt("%lld", (long long)v); }
  case dliteUInt: { uint64_t v = 0; memcpy(&v, e.b.data(), t.n); return fmt("%llu", (unsigned long long)v); }
  case dliteFloat: if (t.n == 8) { double d; memcpy(&d, e.b.data(), 8); return fmt("%.17g", d); } else { float d; memcpy(&d, e.b.data(), 4); return fmt("%.9g", d); }
  case dliteRelation: case dliteDimension: case dliteProperty: {
    S s = "{"; for (auto &x : e.f) s += (x.null ? S("NULL") : x.f.empty() ? show(x.b) : elemstr(x, t)) + " "; return s + "}"; }
  default: return show(e.b);
  }
}
static inline bool isnan_elem(const Elem &e, Ty t) {
  if (t.t != dliteFloat) return false;
  if (t.n == 8) { double d; memcpy(&d, e.b.data(), 8); return d != d; }
  float d; memcpy(&d, e.b.data(), 4); return d != d;
}
// equal as values: any NaN equals any NaN
static inline bool same(const Elem &a, const Elem &b, Ty t) {
  if (a == b) return true;
  return t.t == dliteFloat && !a.null && !b.null && isnan_elem(a, t) && isnan_elem(b, t);
}
static inline Elem zero_elem(Ty t) {
  switch (t.t) {
  case dliteFixString: return Elem(S());
  case dliteStringPtr: case dliteRef: return Elem::Null();
  case dliteRelation: { Elem e; e.f.assign(4, Elem::Null()); return e; }
  case dliteDimension: { Elem e; e.f.assign(2, Elem::Null()); return e; }
  case dliteProperty: { Elem e; e.f.assign(6, Elem::Null()); e.f[1] = Elem(S(sizeof(DLiteType) + sizeof(size_t), '\0')); e.f[5] = Elem(); return e; }
  default: return Elem(S(t.n, '\0'));
  }
}
static inline bool allocated(Ty t) { return t.t == dliteStringPtr || t.t == dliteRelation || t.t == dliteDimension || t.t == dliteProperty || t.t == dliteRef; }

// typed zero-initialised memory for n elements, each exactly inside its allocation
struct Mem {
  Ty t; size_t n; char *p;
  Mem(Ty t_, size_t n_ = 1) : t(t_), n(n_) { p = (char *)malloc(n * t.n ? n * t.n : 1); memset(p, 0, n * t.n); }
  Mem(const Mem &) = delete;
  ~Mem() { clear(); free(p); }
  void *at(size_t i) { return p + i * t.n; }
  void clear() { if (allocated(t) && t.t != dliteRef) for (size_t i = 0; i < n; i++) dlite_type_clear(at(i), t.t, t.n); }
  void put(size_t i, const Elem &e) { put_elem(at(i), t, e); }
  Elem get(size_t i) { return get_elem(at(i), t); }
};

// ---------------------------------------------------------------- metadata
// Dimension expression with its own evaluator (integer arithmetic)
struct DimExpr {
  S text; std::function<long(const std::vector<long> &)> f;
};
static inline DimExpr gen_dimexpr(Gen &g, const std::vector<S> &dims, bool negative = false) {
  auto var = [&](int i) { return DimExpr{dims[i], [i](const std::vector<long> &d) { return d[i]; }}; };
  auto num = [&](int n) { return DimExpr{fmt("%d", n), [n](const std::vector<long> &) { return (long)n; }}; };
  if (dims.empty()) return num(g.range(0, 3));
  DimExpr a = var(g.below(dims.size()));
  DimExpr b = g.flip() ? var(g.below(dims.size())) : num(g.range(1, 3));
  auto A = a.f, B = b.f;
  switch (g.below(negative ? 11 : 10)) {
  case 0: case 1: case 2: case 3: case 4: return a;
  case 5: return num(g.range(0, 3));
  case 6: return {a.text + "+" + b.text, [A, B](const std::vector<long> &d) { return A(d) + B(d); }};
  case 7: return {a.text + " * " + b.text, [A, B](const std::vector<long> &d) { return A(d) * B(d); }};
  case 8: return {"(" + a.text + "+" + b.text + ")/2", [A, B](const std::vector<long> &d) { return (A(d) + B(d)) / 2; }};
  case 9: return {"2*" + a.text + "+1", [A](const std::vector<long> &d) { return 2 * A(d) + 1; }};
  default: return {a.text + "-" + b.text, [A, B](const std::vector<long> &d) { return A(d) - B(d); }};
  }
}

struct PropM { S name; Ty t; Elem ref = Elem::Null(), unit = Elem::Null(), descr = Elem::Null(); std::vector<DimExpr> shape; };
struct MetaM {
  S uri, name, version, ns; Elem descr; std::vector<std::pair<S, Elem>> dims; std::vector<PropM> props; DLiteMeta *meta = NULL;
  std::vector<S> dimnames() const { std::vector<S> v; for (auto &d : dims) v.push_back(d.first); return v; }
};

static int metacount = 0;
static inline std::vector<S> gen_names(Gen &g, int n, int max = 10) {
  std::vector<S> v; std::set<S> used = {"uuid", "uri", "meta", "dimensions", "properties", "relations"};
  for (int i = 0; i < n; i++) {
    S s = g.ident(max); int k = 0; S b = s;
    while (used.count(s)) s = b + fmt("%d", k++);
    used.insert(s); v.push_back(s);
  }
  return v;
}
struct MetaOpt { int types = 0; int maxdims = 3, maxprops = 6, maxnd = 3; bool negative = false; S refuri; };
static inline MetaM gen_meta(Gen &g, const MetaOpt &o = MetaOpt()) {
  MetaM m; int nd = g.range(0, o.maxdims), np = g.range(0, o.maxprops);
  if (np == 0 && g.chance(9, 10)) np = 1;
  if (o.maxdims >= 3 && o.maxprops >= 6 && g.chance(1, 50)) { nd = g.range(8, 13); if (g.flip()) np = g.range(7, 20); }   // many dimensions or properties
  auto dn = gen_names(g, nd, 6), pn = gen_names(g, np);
  m.name = g.ident(8); m.version = fmt("%d.%d", g.range(0, 9), metacount++);
  m.ns = g.pick<S>({"http://onto-ns.com/meta", "http://example.org/x/y", "https://a.b"});
  m.uri = m.ns + "/" + m.version + "/" + m.name;
  if (o.refuri.size() && g.chance(1, 3)) {   // a URI that starts with that of the metadata for references
    size_t a = o.refuri.rfind('/'), b = o.refuri.rfind('/', a - 1);
    m.ns = o.refuri.substr(0, b); m.version = o.refuri.substr(b + 1, a - b - 1); m.name = o.refuri.substr(a + 1) + fmt("%d", metacount++);
    m.uri = m.ns + "/" + m.version + "/" + m.name;
  }
  m.descr = g.flip() ? Elem("m" + g.text(30)) : Elem(S(""));
  for (auto &s : dn) m.dims.push_back({s, g.flip() ? Elem(g.text(20)) : Elem::Null()});
  for (auto &s : pn) {
    PropM p; p.name = s; p.t = gen_type(g, o.types);
    if (p.t.t == dliteRef && o.refuri.size() && g.flip()) p.ref = Elem(o.refuri);
    if (g.chance(1, 3)) p.unit = Elem("u" + g.text(6));
    if (g.flip()) p.descr = Elem("d" + g.text(20));
    int n = g.pick<int>({0, 0, 1, 1, 2, 3}); if (n > o.maxnd) n = o.maxnd;
    for (int i = 0; i < n; i++) p.shape.push_back(gen_dimexpr(g, dn, o.negative));
    m.props.push_back(p);
  }
  return m;
}

// C representation of a definition
struct CDef {
  std::vector<DLiteDimension> d; std::vector<DLiteProperty> p;
  CDef(const MetaM &m) {
    for (auto &x : m.dims) { DLiteDimension y; y.name = strdup(x.first.c_str()); y.description = dupz(x.second); d.push_back(y); }
    for (auto &x : m.props) {
      DLiteProperty y; memset(&y, 0, sizeof y);
      y.name = strdup(x.name.c_str()); y.type = x.t.t; y.size = x.t.n; y.ref = dupz(x.ref); y.unit = dupz(x.unit); y.description = dupz(x.descr);
      y.ndims = (int)x.shape.size(); if (y.ndims) y.shape = (char **)calloc(y.ndims, sizeof(char *));
      for (int i = 0; i < y.ndims; i++) y.shape[i] = strdup(x.shape[i].text.c_str());
      p.push_back(y);
    }
  }
  CDef(const CDef &) = delete;
  ~CDef() {
    for (auto &x : d) { free(x.name); free(x.description); }
    for (auto &y : p) { free(y.name); free(y.ref); free(y.unit); free(y.description); for (int i = 0; i < y.ndims; i++) free(y.shape[i]); free(y.shape); }
  }
};
static inline DLiteMeta *create_meta(const MetaM &m) {
  CDef c(m);
  return dlite_meta_create(m.uri.c_str(), m.descr.null ? NULL : m.descr.b.c_str(), c.d.size(), c.d.data(), c.p.size(), c.p.data());
}
static inline S showmeta(const MetaM &m) {
  S s = m.uri + " dims["; for (auto &d : m.dims) s += d.first + " ";
  s += "] props["; for (auto &p : m.props) { s += p.name + ":" + tyname(p.t); if (!p.ref.null) s += "->" + p.ref.b; if (p.shape.size()) { s += "("; for (auto &e : p.shape) s += e.text + ","; s += ")"; } s += " "; }
  return s + "]";
}

// text of the string property of metadata, NULL if it has no such property
static inline Elem meta_str(const DLiteMeta *m, const char *name) {
  if (!dlite_instance_has_property((DLiteInstance *)m, name)) return Elem::Null();
  char **p = (char **)dlite_instance_get_property((DLiteInstance *)m, name);
  return p ? ostr(*p) : Elem::Null();
}
// full comparison of metadata with its model
static inline void check_meta(const DLiteMeta *meta, const MetaM &m, const char *when) {
  const DLiteInstance *inst = (const DLiteInstance *)meta;
  REQUIRE(meta->uri && m.uri == meta->uri, "%s: uri is %s, expected %s", when, show(meta->uri).c_str(), m.uri.c_str());
  char uuid[DLITE_UUID_LENGTH + 1]; REQUIRE(dlite_get_uuid(uuid, m.uri.c_str()) >= 0 && S(uuid) == meta->uuid, "%s: uuid is %s, expected %s", when, meta->uuid, uuid);
  REQUIRE(dlite_instance_is_meta(inst) && dlite_meta_is_metameta(meta->meta), "%s: not metadata", when);
  REQUIRE(meta_str(meta, "name") == Elem(m.name) && meta_str(meta, "version") == Elem(m.version) && meta_str(meta, "namespace") == Elem(m.ns), "%s: name %s version %s namespace %s", when, show(meta_str(meta, "name").b).c_str(), show(meta_str(meta, "version").b).c_str(), show(meta_str(meta, "namespace").b).c_str());
  Elem de = meta_str(meta, "description"); REQUIRE(de.b == m.descr.b, "%s: description is \"%s\", expected \"%s\"", when, show(de.b).c_str(), show(m.descr.b).c_str());
  REQUIRE(meta->_ndimensions == m.dims.size() && meta->_nproperties == m.props.size(), "%s: %zu dimensions, %zu properties", when, meta->_ndimensions, meta->_nproperties);
  for (size_t i = 0; i < m.dims.size(); i++) {
    DLiteDimension *d = meta->_dimensions + i;
    REQUIRE(d->name && m.dims[i].first == d->name && ostr(d->description).b == m.dims[i].second.b, "%s: dimension %zu is %s \"%s\", expected %s \"%s\"", when, i, show(d->name).c_str(), show(d->description).c_str(), m.dims[i].first.c_str(), show(m.dims[i].second.b).c_str());
  }
  for (size_t i = 0; i < m.props.size(); i++) {
    DLiteProperty *p = meta->_properties + i; const PropM &q = m.props[i];
    REQUIRE(p->name && q.name == p->name && p->type == q.t.t && p->size == q.t.n, "%s: property %zu is %s of type %d size %zu, expected %s %s", when, i, show(p->name).c_str(), p->type, p->size, q.name.c_str(), tyname(q.t).c_str());
    REQUIRE(ostr(p->ref) == q.ref, "%s: $ref of %s is %s, expected %s", when, p->name, show(p->ref).c_str(), show(q.ref.b).c_str());
    REQUIRE(ostr(p->unit).b == q.unit.b, "%s: unit of %s is %s, expected %s", when, p->name, show(p->unit).c_str(), show(q.unit.b).c_str());
    REQUIRE(ostr(p->description).b == q.descr.b, "%s: description of %s is %s, expected %s", when, p->name, show(p->description).c_str(), show(q.descr.b).c_str());
    REQUIRE(p->ndims == (int)q.shape.size(), "%s: %s has %d dimensions, expected %zu", when, p->name, p->ndims, q.shape.size());
    for (int k = 0; k < p->ndims; k++) REQUIRE(p->shape[k] && q.shape[k].text == p->shape[k], "%s: dimension %d of %s is %s, expected %s", when, k, p->name, show(p->shape[k]).c_str(), q.shape[k].text.c_str());
  }
}

// ---------------------------------------------------------------- instances
struct InstM {
  const MetaM *m = NULL; DLiteInstance *inst = NULL; S uuid; Elem uri = Elem::Null();
  std::vector<long> dims; std::vector<std::vector<Elem>> vals;
};
// shape of property j, false if it has a negative size
static inline bool shape_of(const MetaM &m, size_t j, const std::vector<long> &dims, std::vector<size_t> &sh) {
  sh.clear(); bool ok = true;
  for (auto &e : m.props[j].shape) { long v = e.f(dims); if (v < 0) ok = false; sh.push_back((size_t)v); }
  return ok;
}
static inline size_t nelem(const std::vector<size_t> &sh) { size_t n = 1; for (size_t x : sh) n *= x; return n; }
// all shapes valid and small?  1: ok, 0: some negative, -1: too large for a test
static inline int dims_status(const MetaM &m, const std::vector<long> &dims, size_t maxel = 600) {
  std::vector<size_t> sh; int r = 1;
  for (size_t j = 0; j < m.props.size(); j++) {
    if (!shape_of(m, j, dims, sh)) { r = 0; continue; }
    if (nelem(sh) > maxel) return -1;
  }
  return r;
}
static inline void zero_vals(InstM &x) {
  std::vector<size_t> sh; x.vals.clear();
  for (size_t j = 0; j < x.m->props.size(); j++) { shape_of(*x.m, j, x.dims, sh); x.vals.push_back(std::vector<Elem>(nelem(sh), zero_elem(x.m->props[j].t))); }
}
// flat semantics of resizing
static inline void resize_vals(InstM &x) {
  std::vector<size_t> sh;
  for (size_t j = 0; j < x.m->props.size(); j++) { shape_of(*x.m, j, x.dims, sh); x.vals[j].resize(nelem(sh), zero_elem(x.m->props[j].t)); }
}
static inline std::vector<long> gen_dims(Gen &g, const MetaM &m, int max = 4) {
  std::vector<long> d; for (size_t i = 0; i < m.dims.size(); i++) d.push_back(g.range(0, max)); return d;
}
static inline DLiteInstance *create_inst(const MetaM &m, const std::vector<long> &dims, const char *id) {
  std::vector<size_t> d(dims.begin(), dims.end()); d.push_back(0);
  return dlite_instance_create(m.meta, d.data(), id);
}

// full comparison of an instance with its model
static inline void check_inst(const InstM &x, const char *when) {
  DLiteInstance *inst = x.inst; const MetaM &m = *x.m; std::vector<size_t> sh;
  REQUIRE(x.uuid == inst->uuid, "%s: uuid is %s, expected %s", when, inst->uuid, x.uuid.c_str());
  REQUIRE(inst->meta == m.meta, "%s: wrong metadata", when);
  REQUIRE(dlite_instance_get_ndimensions(inst) == m.dims.size() && dlite_instance_get_nproperties(inst) == m.props.size(), "%s: %zu dimensions, %zu properties", when, dlite_instance_get_ndimensions(inst), dlite_instance_get_nproperties(inst));
  for (size_t i = 0; i < m.dims.size(); i++) {
    long v = (long)dlite_instance_get_dimension_size_by_index(inst, i), w = dlite_instance_get_dimension_size(inst, m.dims[i].first.c_str());
    REQUIRE(v == x.dims[i] && w == x.dims[i], "%s: dimension %s is %ld by index and %ld by name, expected %ld", when, m.dims[i].first.c_str(), v, w, x.dims[i]);
  }
  for (size_t j = 0; j < m.props.size(); j++) {
    const PropM &p = m.props[j]; const char *nm = p.name.c_str();
    bool ok = shape_of(m, j, x.dims, sh); REQUIRE(ok, "%s: model has negative size", when);
    REQUIRE(dlite_instance_get_property_ndims_by_index(inst, j) == (int)sh.size() && dlite_instance_get_property_ndims(inst, nm) == (int)sh.size(), "%s: ndims of %s", when, nm);
    size_t *d = dlite_instance_get_property_dims_by_index(inst, j);
    for (size_t k = 0; k < sh.size(); k++) {
      long a = (long)dlite_instance_get_property_dimssize(inst, nm, k), b = dlite_instance_get_property_shape_by_index(inst, j, k);
      if (!d || d[k] != sh[k] || a != (long)sh[k] || b != (long)sh[k]) {
        S got = fmt("%ld", d ? (long)d[k] : -1L); free(d);
        fail("%s: size %zu of %s is %s/%ld/%ld, expected %zu", when, k, nm, got.c_str(), a, b, sh[k]);
      }
    }
    free(d);
    size_t n = nelem(sh);
    REQUIRE(x.vals[j].size() == n, "model");
    char *q = (char *)dlite_instance_get_property_by_index(inst, j), *r = (char *)dlite_instance_get_property(inst, nm);
    REQUIRE(q == r, "%s: property %s differs by name and by index", when, nm);
    if (n == 0) { REQUIRE(!q, "%s: empty array %s has memory", when, nm); continue; }
    REQUIRE(q, "%s: no memory for property %s", when, nm);
    for (size_t k = 0; k < n; k++) {
      Elem e = get_elem(q + k * p.t.n, p.t);
      REQUIRE(same(e, x.vals[j][k], p.t), "%s: element %zu of %s (%s) is %s, expected %s", when, k, nm, tyname(p.t).c_str(), elemstr(e, p.t).c_str(), elemstr(x.vals[j][k], p.t).c_str());
    }
  }
}

// A caller's buffer holding values of property j (elements exactly n)
struct PropBuf : Mem {
  PropBuf(const InstM &x, size_t j, const std::vector<Elem> &v, std::function<DLiteInstance *(const S &)> byuuid = nullptr)
    : Mem(x.m->props[j].t, v.size()) {
    for (size_t i = 0; i < v.size(); i++) {
      if (t.t == dliteRef) *(DLiteInstance **)at(i) = v[i].null ? NULL : byuuid(v[i].b);
      else put(i, v[i]);
    }
  }
};

// is some error pending?  clears it
static inline int take_error() { int e = dlite_errval(); dlite_errclr(); return e; }
