// flavours: asan builtin
// D09: instances and metadata survive a JSON round trip
#include "world.hpp"
#include "json.hpp"
#include "metadoc.hpp"
#include "datadoc.hpp"
#include "dlite-json.h"
static void init() { dlite_err_set_stream(NULL); world_finite = true; }
static const char *FN[] = {"Single", "UriKey", "WithUuid", "WithMeta", "Arrays", "NoParent", "CompactRel"};
static S flagstr(int f) { S s; for (int i = 0; i < 7; i++) if (f >> i & 1) s += S(s.empty() ? "" : "|") + FN[i]; return s.empty() ? "0" : s; }

// ------------------------------------------------ what the JSON must say
static void jtext(const js::V *v, const Elem &e, const S &what, bool emptyisnull = true) {
  if (e.null || (emptyisnull && e.b.empty())) { REQUIRE(!v || v->isnull() || (v->k == 's' && v->s.empty()), "%s: JSON has \"%s\", expected nothing", what.c_str(), v ? show(v->s).c_str() : ""); return; }
  REQUIRE(v && v->k == 's' && v->s == e.b, "%s: JSON has \"%s\", expected \"%s\"", what.c_str(), v ? show(v->s).c_str() : "nothing", show(e.b).c_str());
}
static void jelem(const js::V &v, const Elem &e, Ty t, const S &what) {
  auto bad = [&]() { fail("%s (%s): JSON has %c %s, expected %s", what.c_str(), tyname(t).c_str(), v.k, show(v.s).c_str(), elemstr(e, t).c_str()); };
  switch (t.t) {
  case dliteBool: if (v.k != (e.b[0] ? 't' : 'f')) bad(); break;
  case dliteInt: case dliteUInt: if (v.k != '#' || v.s != elemstr(e, t)) bad(); break;
  case dliteFloat: {
    if (v.k != '#') bad();
    if (t.n == 8) { double d; memcpy(&d, e.b.data(), 8); if (strtod(v.s.c_str(), NULL) != d) bad(); }
    else { float d; memcpy(&d, e.b.data(), 4); if (strtof(v.s.c_str(), NULL) != d) bad(); }
    break; }
  case dliteBlob: { S h; for (unsigned char c : e.b) h += fmt("%02x", c); if (v.k != 's' || v.s != h) bad(); break; }
  case dliteFixString: if (v.k != 's' || v.s != e.b) bad(); break;
  case dliteStringPtr: if (e.null ? v.k != 'n' : v.k != 's' || v.s != e.b) bad(); break;
  case dliteRef: if (e.null) { if (v.k != 'n') bad(); } else { char u[DLITE_UUID_LENGTH + 1]; if (v.k != 's' || dlite_get_uuid(u, v.s.c_str()) < 0 || e.b != u) bad(); } break;
  case dliteRelation: {
    if (v.k != 'a' || v.a.size() < 3 || v.a.size() > 4) bad();
    for (size_t i = 0; i < 3; i++) jtext(&v.a[i], e.f[i], what);
    jtext(v.a.size() > 3 ? &v.a[3] : NULL, e.f[3], what);
    break; }
  default: fail("unexpected type");
  }
}
static void jarray(const js::V &v, const std::vector<size_t> &sh, size_t d, const std::vector<Elem> &vals, size_t &i, Ty t, const S &what) {
  if (d == sh.size()) { jelem(v, vals[i++], t, what); return; }
  REQUIRE(v.k == 'a' && v.a.size() == sh[d], "%s: JSON has %zu elements at level %zu, expected %zu", what.c_str(), v.a.size(), d, sh[d]);
  for (auto &x : v.a) jarray(x, sh, d + 1, vals, i, t, what);
}
static void jident(const js::V &v, const Elem &uri, const S &uuid, const S &metauri, int flags, bool needmeta) {
  const js::V *u = v.get("uri"), *id = v.get("uuid"), *m = v.get("meta");
  if (uri.null) REQUIRE(!u, "JSON has uri, but the instance has none"); else REQUIRE(u && u->k == 's' && u->s == uri.b, "JSON has uri %s, expected %s", u ? show(u->s).c_str() : "nothing", show(uri.b).c_str());
  if (flags & dliteJsonWithUuid) REQUIRE(id && id->k == 's' && id->s == uuid, "JSON has uuid %s, expected %s", id ? show(id->s).c_str() : "nothing", uuid.c_str()); else REQUIRE(!id, "JSON has unexpected uuid");
  if (needmeta || (flags & dliteJsonWithMeta)) REQUIRE(m && m->k == 's', "JSON lacks meta");
  if (m) REQUIRE(m->s == metauri, "JSON has meta %s, expected %s", show(m->s).c_str(), metauri.c_str());
}
// strips the outer object of multi-entity format
static const js::V &entity(const js::V &doc, int flags, const Elem &uri, const S &uuid) {
  if (flags & dliteJsonSingle) return doc;
  S key = (flags & dliteJsonUriKey) && !uri.null ? uri.b : uuid;
  REQUIRE(doc.k == 'o' && doc.o.size() == 1 && doc.o[0].first == key, "JSON key is %s, expected %s", doc.o.size() ? show(doc.o[0].first).c_str() : "missing", show(key).c_str());
  return doc.o[0].second;
}
static void jparent(const js::V &v, const DLiteParent *p, int flags) {
  const js::V *q = v.get("parent");
  if (!p || (flags & dliteJsonNoParent)) { REQUIRE(!q, "JSON has unexpected parent"); return; }
  S h; for (int i = 0; i < DLITE_HASH_SIZE; i++) h += fmt("%02x", p->hash[i]);
  REQUIRE(q && q->k == 'o' && q->get("uuid") && q->get("uuid")->s == p->uuid && q->get("hash") && q->get("hash")->s == h, "JSON has wrong parent");
}
static void jinst(const js::V &doc, const InstM &x, const Elem &uri, int flags, const DLiteParent *par) {
  const js::V &v = entity(doc, flags, uri, x.uuid);
  REQUIRE(v.k == 'o', "instance is not a JSON object");
  jident(v, uri, x.uuid, x.m->uri, flags, true);
  const js::V *d = v.get("dimensions"), *p = v.get("properties");
  REQUIRE(d && d->k == 'o' && d->o.size() == x.m->dims.size() && p && p->k == 'o' && p->o.size() == x.m->props.size(), "JSON has wrong dimensions or properties");
  for (size_t i = 0; i < x.m->dims.size(); i++) { const js::V *q = d->get(x.m->dims[i].first); REQUIRE(q && q->k == '#' && q->s == fmt("%ld", x.dims[i]), "JSON has wrong dimension %s", x.m->dims[i].first.c_str()); }
  for (size_t j = 0; j < x.m->props.size(); j++) {
    const PropM &pm = x.m->props[j]; const js::V *q = p->get(pm.name); REQUIRE(q, "JSON lacks property %s", pm.name.c_str());
    std::vector<size_t> sh; shape_of(*x.m, j, x.dims, sh); size_t i = 0; jarray(*q, sh, 0, x.vals[j], i, pm.t, pm.name);
  }
  jparent(v, par, flags);
}
static void jmeta(const js::V &doc, const MetaM &m, const Rels &rels, const S &metauri, int flags) {
  char uuid[DLITE_UUID_LENGTH + 1]; dlite_get_uuid(uuid, m.uri.c_str());
  const js::V &v = entity(doc, flags, Elem(m.uri), uuid);
  REQUIRE(v.k == 'o', "metadata is not a JSON object");
  jident(v, Elem(m.uri), uuid, metauri, flags, metauri != DLITE_ENTITY_SCHEMA);
  jtext(v.get("description"), m.descr, "description");
  bool arr = flags & dliteJsonArrays; const js::V *d = v.get("dimensions"), *p = v.get("properties");
  REQUIRE(d && p && d->k == (arr ? 'a' : 'o') && p->k == d->k, "dimensions and properties are written in the wrong form");
  REQUIRE((arr ? d->a.size() : d->o.size()) == m.dims.size() && (arr ? p->a.size() : p->o.size()) == m.props.size(), "JSON has wrong number of dimensions or properties");
  for (size_t i = 0; i < m.dims.size(); i++) {
    S what = "dimension " + m.dims[i].first;
    if (arr) { REQUIRE(d->a[i].k == 'o', "%s", what.c_str()); jtext(d->a[i].get("name"), Elem(m.dims[i].first), what); jtext(d->a[i].get("description"), m.dims[i].second, what); }
    else { REQUIRE(d->o[i].first == m.dims[i].first, "%s is %s", what.c_str(), d->o[i].first.c_str()); jtext(&d->o[i].second, m.dims[i].second, what); }
  }
  for (size_t i = 0; i < m.props.size(); i++) {
    const PropM &q = m.props[i]; const js::V &w = arr ? p->a[i] : p->o[i].second; S what = "property " + q.name;
    if (arr) jtext(w.get("name"), Elem(q.name), what); else REQUIRE(p->o[i].first == q.name, "%s is %s", what.c_str(), p->o[i].first.c_str());
    jtext(w.get("type"), Elem(tyname(q.t)), what); jtext(w.get("$ref"), q.ref, what); jtext(w.get("unit"), q.unit, what); jtext(w.get("description"), q.descr, what);
    const js::V *sh = w.get("shape") ? w.get("shape") : w.get("dims"); size_t n = sh ? sh->a.size() : 0; REQUIRE(n == q.shape.size(), "%s has %zu dimensions, expected %zu", what.c_str(), n, q.shape.size());
    for (size_t k = 0; k < n; k++) REQUIRE(sh->a[k].k == 's' && sh->a[k].s == q.shape[k].text, "%s: dimension %zu is %s, expected %s", what.c_str(), k, show(sh->a[k].s).c_str(), q.shape[k].text.c_str());
  }
  const js::V *r = v.get("relations"); size_t n = r ? r->a.size() : 0; REQUIRE(n == rels.size(), "JSON has %zu relations, expected %zu", n, rels.size());
  for (size_t i = 0; i < n; i++) { REQUIRE(r->a[i].a.size() == rels[i].size(), "relation %zu", i); for (size_t k = 0; k < rels[i].size(); k++) REQUIRE(r->a[i].a[k].s == rels[i][k], "relation %zu: %s, expected %s", i, show(r->a[i].a[k].s).c_str(), show(rels[i][k]).c_str()); }
}

// ------------------------------------------------ every way of writing gives the same text
static S memstream(std::function<void(FILE *)> f) { char *b = NULL; size_t n = 0; FILE *fp = open_memstream(&b, &n); f(fp); fclose(fp); S s(b, n); free(b); return s; }
static S scratch(const char *name) { const char *d = getenv("VERIF_SCRATCH"); return S(d ? d : "/tmp") + fmt("/%d-", getpid()) + name; }
static S readall(const S &f) { FILE *fp = fopen(f.c_str(), "rb"); S s; char b[4096]; size_t n; while (fp && (n = fread(b, 1, sizeof b, fp)) > 0) s.append(b, n); if (fp) fclose(fp); return s; }
static void spew(const S &f, const S &s) { FILE *fp = fopen(f.c_str(), "wb"); REQUIRE(fp, "cannot write %s", f.c_str()); fwrite(s.data(), 1, s.size(), fp); fclose(fp); }

static S serialise(Gen &g, const DLiteInstance *inst, int indent, int flags) {
  DLiteJsonFlag F = (DLiteJsonFlag)flags;
  int n = dlite_json_sprint(NULL, 0, inst, indent, F); REQUIRE(n > 0, "dlite_json_sprint: %d %s", n, dlite_errmsg());
  char *b = (char *)malloc(n + 1); int k = dlite_json_sprint(b, n + 1, inst, indent, F);
  REQUIRE(k == n && strlen(b) == (size_t)n, "dlite_json_sprint returns %d and writes %zu characters in a buffer of %d bytes", k, strlen(b), n + 1);
  S t(b); free(b);
  for (int i = 0; i < 3; i++) {
    int m = i == 0 ? n : g.range(1, n); b = (char *)malloc(m); memset(b, 'x', m); k = dlite_json_sprint(b, m, inst, indent, F);
    REQUIRE(k == n, "dlite_json_sprint returns %d for a buffer of %d bytes, expected %d", k, m, n);
    size_t l = strnlen(b, m); REQUIRE(l < (size_t)m, "dlite_json_sprint does not terminate the text in a buffer of %d bytes", m);
    REQUIRE(t.compare(0, l, b) == 0, "dlite_json_sprint: wrong text in a buffer of %d bytes: %s", m, show(b).c_str());
    free(b);
  }
  switch (g.below(6)) {
  case 0: { b = dlite_json_aprint(inst, indent, F); REQUIRE(b && t == b, "dlite_json_aprint gives another text"); free(b); break; }
  case 1: { S s = memstream([&](FILE *fp) { k = dlite_json_fprint(fp, inst, indent, F); }); REQUIRE(s == t + "\n" && k == (int)s.size(), "dlite_json_fprint wrote %zu bytes and returned %d, expected %zu", s.size(), k, t.size() + 1); break; }
  case 2: if (indent == 0) { S f = scratch("p.json"); k = dlite_json_printfile(f.c_str(), inst, F); S s = readall(f); unlink(f.c_str()); REQUIRE(s == t + "\n" && k == (int)s.size(), "dlite_json_printfile wrote %zu bytes and returned %d, expected %zu", s.size(), k, t.size() + 1); } break;
  default: {
    size_t size = g.flip() ? 0 : g.below(n + 40), pos = g.chance(1, 3) ? 0 : g.below(60), old = size; char *q = size ? (char *)malloc(size) : NULL;
    for (size_t i = 0; i < size; i++) q[i] = 'a' + i % 26;
    S want; for (size_t i = 0; i < pos; i++) want += i < old ? (char)('a' + i % 26) : ' ';
    if (!q) size = g.below(100);                 // ignored
    k = dlite_json_asprint(&q, &size, pos, inst, indent, F);
    REQUIRE(k == n && q && size > pos + n, "dlite_json_asprint at %zu: returns %d, size %zu, expected %d", pos, k, size, n);
    q[size - 1] = q[size - 1];
    REQUIRE(S(q) == want + t || (want + t).find('\0') != S::npos, "dlite_json_asprint at %zu gives %s", pos, show(S(q).substr(0, pos + 30)).c_str());
    free(q); }
  }
  return t;
}

static DLiteInstance *readback(Gen &g, const S &t, const char *id, const char *metaid, S &how) {
  char *b = strdup(t.c_str()); DLiteInstance *r = NULL;
  switch (g.below(8)) {
  case 0: { how = "fscan"; FILE *fp = fmemopen(b, t.size(), "r"); r = dlite_json_fscan(fp, id, metaid); fclose(fp); break; }
  case 1: { how = "scanfile"; S f = scratch("s.json"); spew(f, t); r = dlite_json_scanfile(f.c_str(), id, metaid); unlink(f.c_str()); break; }
  default: how = "sscan"; r = dlite_json_sscan(b, id, metaid);
  }
  free(b); return r;
}
static void norm(InstM &x) {   // text of relations: null is written as empty
  for (size_t j = 0; j < x.vals.size(); j++) if (x.m->props[j].t.t == dliteRelation) for (auto &e : x.vals[j]) for (int i = 0; i < 3; i++) if (e.f[i].null) e.f[i] = Elem(S(""));
}
static void reread(InstM &x, const Elem &uri, const DLiteParent *par, const char *when) {
  REQUIRE(x.inst, "%s: %s", when, dlite_errmsg());
  check_inst(x, when);
  REQUIRE(ostr(x.inst->uri) == uri, "%s: uri is %s, expected %s", when, show(x.inst->uri).c_str(), uri.null ? "NULL" : show(uri.b).c_str());
  REQUIRE(x.inst->_refcount == 1, "%s: reference count %d", when, x.inst->_refcount);
  REQUIRE(!!x.inst->_parent == !!par && (!par || (!strcmp(par->uuid, x.inst->_parent->uuid) && !memcmp(par->hash, x.inst->_parent->hash, DLITE_HASH_SIZE))), "%s: parent is not restored", when);
}
static DLiteIdType idtype(const S &s) { char u[DLITE_UUID_LENGTH + 1]; return (DLiteIdType)dlite_get_uuid(u, s.c_str()); }
static S gen_id(Gen &g) { return g.pick<S>({"", "urn:x:" + g.ident(), "http://a.b/" + g.ident() + "#f", "61e0f0c2-3e1d-4c4c-9d43-0f54e5e4e37f", g.ident(), "http://a.b/x/0d6b8c1e-7c1d-4c7b-9a54-6d3d5f8a4c3b", "http://a.b/\"" + g.text(5) + "\\" + g.ident()}); }

PBT(D09, data, 5000, 150000, 40, "an array with at least 2 elements") {
  World w(g); MetaOpt o; o.types = TY_REF | TY_REL; w.init(1, o); MetaM &m = *w.metas[0];
  S id = gen_id(g); InstM *x = w.create(0, gen_dims(g, m), id.size() ? id.c_str() : NULL);
  for (size_t j = 0; j < x->vals.size(); j++) if (g.chance(5, 6)) w.set_random(*x, j);
  if (g.chance(1, 5)) { dlite_instance_freeze(w.targets[0]); REQUIRE(dlite_instance_set_parent(x->inst, w.targets[0]) == 0, "set_parent"); }
  Elem uri = ostr(x->inst->uri); bool par = x->inst->_parent; DLiteParent P; memset(&P, 0, sizeof P); if (par) P = *x->inst->_parent;
  int flags = g.below(128), indent = g.chance(1, 2) ? 0 : g.below(7); S t = serialise(g, x->inst, indent, flags);
  g.log("flags %s indent %d\n%s", flagstr(flags).c_str(), indent, t.c_str());
  js::V v = js::parse(t, "data"); jinst(v, *x, uri, flags, par ? &P : NULL);
  w.check("after writing");
  DLiteJsonFlag fl; DLiteJsonFormat f = dlite_json_scheck(t.c_str(), t.size(), NULL, &fl);
  REQUIRE(f == dliteJsonDataFormat, "dlite_json_scheck says %d for data", f);
  int want = (flags & (dliteJsonSingle | dliteJsonWithUuid)) | dliteJsonWithMeta; if (!(flags & dliteJsonSingle) && (flags & dliteJsonUriKey) && !uri.null && idtype(uri.b) == dliteIdHash) want |= dliteJsonUriKey;
  if (!uri.null && idtype(uri.b) == dliteIdHash) REQUIRE((int)fl == want, "dlite_json_scheck finds flags %s, expected %s", flagstr(fl).c_str(), flagstr(want).c_str());
  // while it lives, reading gives the instance itself
  DLiteInstance *same = dlite_json_sscan(t.c_str(), x->uuid.c_str(), NULL); REQUIRE(same == x->inst, "reading a live instance gives another one"); REQUIRE(dlite_instance_decref(same) == 1, "reference count");
  w.release(*x); norm(*x);
  bool hasid = !(flags & dliteJsonSingle) || !uri.null || (flags & dliteJsonWithUuid);
  std::vector<S> ids = {x->uuid}; if (!uri.null) ids.push_back(uri.b); if (id.size() && idtype(id) == dliteIdHash) ids.push_back(id);
  int k = g.below(ids.size() + (hasid ? 2 : 0)); const char *rid = k < (int)ids.size() ? ids[k].c_str() : NULL;
  const char *mid = g.chance(1, 2) ? NULL : g.flip() ? m.uri.c_str() : m.meta->uuid; S how;
  if (g.chance(1, 6)) {  // another kind of instance was wanted
    DLiteInstance *r = readback(g, t, rid, DLITE_ENTITY_SCHEMA, how); REQUIRE(!r && take_error(), "%s returned an instance of other metadata than asked for", how.c_str());
    REQUIRE(!dlite_instance_has(x->uuid.c_str(), 0), "refused instance is still in memory"); dlite_errclr(); g.label("wrong metaid");
  }
  if (g.chance(1, 6)) {  // another instance was wanted
    if (!(flags & dliteJsonSingle)) { DLiteInstance *r = readback(g, t, g.flip() ? "urn:no:such" : "00000000-0000-4000-8000-000000000000", mid, how); REQUIRE(!r, "%s returned an instance with another id than asked for", how.c_str()); }
    REQUIRE(!dlite_instance_has(x->uuid.c_str(), 0), "instance is in memory"); dlite_errclr();
  }
  if (g.chance(1, 5)) {
    JStore *s = jstore_open(); int ok = dlite_jstore_loads(s, t.c_str(), (int)t.size()); how = "jstore";
    // the JSON store needs to know the identity
    if (!hasid) REQUIRE(ok < 0, "json store took an instance without identity"); else { REQUIRE(ok == dliteJsonDataFormat, "dlite_jstore_loads: %d %s", ok, dlite_errmsg()); x->inst = dlite_jstore_get(s, rid ? rid : x->uuid.c_str()); }
    jstore_close(s); dlite_errclr();
    if (!hasid) x->inst = dlite_json_sscan(t.c_str(), x->uuid.c_str(), NULL);
  } else x->inst = readback(g, t, rid, mid, how);
  g.label(how.c_str()); g.label(rid ? "with id" : "without id");
  reread(*x, uri, par && !(flags & dliteJsonNoParent) ? &P : NULL, (how + " of " + (rid ? rid : "NULL")).c_str());
  S t2 = serialise(g, x->inst, indent, flags); REQUIRE(t2 == t, "writing the instance read gives another text: %s", t2.c_str());
  for (auto &z : x->vals) if (z.size() > 1) g.nontrivial();
  w.finish(); dlite_errclr();
}

// writes metadata, drops it and reads it again
static void metatrip(Gen &g, MetaM &m, const Rels &rels, const S &metauri) {
  int flags = g.below(128), indent = g.chance(1, 2) ? 0 : g.below(7); S t = serialise(g, (DLiteInstance *)m.meta, indent, flags);
  g.log("flags %s indent %d\n%s", flagstr(flags).c_str(), indent, t.c_str());
  js::V v = js::parse(t, "metadata"); jmeta(v, m, rels, metauri, flags);
  DLiteJsonFlag fl; DLiteJsonFormat f = dlite_json_scheck(t.c_str(), t.size(), NULL, &fl);
  if (m.props.size()) { REQUIRE(f == dliteJsonMetaFormat, "dlite_json_scheck says %d for metadata", f); REQUIRE(((int)fl & ~dliteJsonWithMeta) == (flags & ~(dliteJsonWithMeta | dliteJsonNoParent | dliteJsonCompactRel | (flags & 1 ? dliteJsonUriKey : 0))), "dlite_json_scheck finds flags %s, expected %s", flagstr(fl).c_str(), flagstr(flags).c_str()); }
  forget(m.meta); S uuid; char u[DLITE_UUID_LENGTH + 1]; dlite_get_uuid(u, m.uri.c_str()); S how;
  const char *id = g.pick<const char *>({NULL, u, m.uri.c_str()}); const char *mid = g.pick<const char *>({NULL, metauri.c_str(), NULL});
  m.meta = (DLiteMeta *)readback(g, t, id, mid, how); REQUIRE(m.meta, "reading metadata by %s: %s", how.c_str(), dlite_errmsg());
  check_meta(m.meta, m, "after reading"); check_rels(m.meta, rels); REQUIRE(metauri == m.meta->meta->uri, "metadata is an instance of %s, expected %s", m.meta->meta->uri, metauri.c_str());
  S t2 = serialise(g, (DLiteInstance *)m.meta, indent, flags); REQUIRE(t2 == t, "writing the metadata read gives another text: %s", t2.c_str());
}
PBT(D09, metadata, 5000, 150000, 40, "metadata with dimensions and properties") {
  MetaOpt o; o.types = TY_REF | TY_REL | TY_META; o.refuri = "http://onto-ns.com/meta/0.1/Other"; MetaM m = gen_meta(g, o); m.meta = create_meta(m); REQUIRE(m.meta, "create %s", showmeta(m).c_str());
  metatrip(g, m, {}, DLITE_ENTITY_SCHEMA);
  useful(g, m); forget(m.meta);
  if (m.dims.size() && m.props.size()) g.nontrivial();
}

// ------------------------------------------------ documents written by others
PBT(D09, foreign_metadata, 5000, 150000, 40, "metadata with dimensions, properties and relations") {
  MetaOpt o; o.types = TY_REF | TY_REL | TY_META; o.refuri = "http://onto-ns.com/meta/0.1/Other"; MetaM m = gen_meta(g, o); if (m.descr.null) m.descr = Elem(S(""));
  if (m.props.empty()) throw Discard{};
  Rels rels; bool basic = g.chance(1, 2); S metauri = basic ? DLITE_BASIC_METADATA_SCHEMA : DLITE_ENTITY_SCHEMA;
  if (basic) { int n = g.below(4); for (int i = 0; i < n; i++) { rels.push_back({"s" + g.text(6), "p" + g.text(6), "o" + g.text(6)}); if (g.chance(1, 3)) rels.back().push_back("@" + g.ident(3)); } }
  char uuid[DLITE_UUID_LENGTH + 1]; dlite_get_uuid(uuid, m.uri.c_str());
  js::V v = metadoc(g, m, rels, metauri, g.below(3), uuid); bool multi = g.chance(1, 3); S key = g.flip() ? m.uri : S(uuid);
  if (multi) { js::V w = js::obj(); w.o.push_back({key, v}); v = w; }
  S t = js::print(v, &g); g.log("%s\nread as %s", t.c_str(), showmeta(m).c_str());
  js::parse(t, "generator"); S how;
  const char *id = g.pick<const char *>({NULL, uuid, m.uri.c_str()});
  m.meta = (DLiteMeta *)readback(g, t, id, NULL, how); REQUIRE(m.meta, "cannot read metadata by %s: %s", how.c_str(), dlite_errmsg());
  check_meta(m.meta, m, "reading"); check_rels(m.meta, rels); REQUIRE(metauri == m.meta->meta->uri, "metadata is an instance of %s", m.meta->meta->uri);
  // the same definition built from its parts
  if (!basic) { DLiteMeta *q = create_meta(m); REQUIRE(q == m.meta, "the definition built from its parts is taken as another one: %s", dlite_errmsg()); dlite_meta_decref(q); }
  useful(g, m);
  metatrip(g, m, rels, metauri); useful(g, m); forget(m.meta);
  if (m.dims.size() && m.props.size() && (rels.size() || !basic)) g.nontrivial();
  dlite_errclr();
}

// documents that do not fit the metadata are refused and leave nothing behind
PBT(D09, misfits, 3000, 80000, 40, "an array of the wrong length was refused") {
  World w(g); MetaOpt o; o.types = TY_REF | TY_REL; w.init(1, o); const MetaM &m = *w.metas[0];
  InstM x; x.m = &m; x.dims = gen_dims(g, m, 3); if (dims_status(m, x.dims) != 1) { w.finish(); return; }
  zero_vals(x); for (size_t j = 0; j < x.vals.size(); j++) x.vals[j] = w.gen_prop_value(x, j);
  Elem uri(S("http://a.b/misfit/") + g.ident()); char u[DLITE_UUID_LENGTH + 1]; dlite_get_uuid(u, uri.b.c_str()); x.uuid = u;
  js::V doc = datadoc(g, x, uri, g.flip()), bad = doc; auto find = [](js::V &v, const char *k) -> js::V * { for (auto &e : v.o) if (e.first == k) return &e.second; return NULL; };
  js::V *props = find(bad, "properties"), *dims = find(bad, "dimensions"); S what; bool arr = false;
  int kind = g.weighted({6, 2, 2, 1, 1, 1});
  if (kind == 0 || kind == 1) {
    std::vector<size_t> js_; for (size_t j = 0; j < m.props.size(); j++) if (m.props[j].shape.size()) js_.push_back(j);
    if (js_.empty()) { w.finish(); return; }
    size_t j = js_[g.below(js_.size())]; js::V *v = find(*props, m.props[j].name.c_str()); int lev = g.below(m.props[j].shape.size()); for (int d = 0; d < lev; d++) { if (v->a.empty()) break; v = &v->a[g.below(v->a.size())]; }
    if (kind == 1) { *v = g.flip() ? js::num("1") : js::null(); what = "a scalar instead of an array for " + m.props[j].name; }
    else if (v->a.size() && g.flip()) { v->a.erase(v->a.begin() + g.below(v->a.size())); what = "an element less in " + m.props[j].name; arr = true; }
    else { js::V e = v->a.size() ? v->a[g.below(v->a.size())] : js::num("0"); for (int k = g.range(1, 2); k > 0; k--) v->a.insert(v->a.begin() + g.below(v->a.size() + 1), e); what = "an element more in " + m.props[j].name; arr = true; }
  } else if (kind == 2) { if (props->o.empty()) { w.finish(); return; } size_t k = g.below(props->o.size()); what = "missing property " + props->o[k].first; props->o.erase(props->o.begin() + k); }
  else if (kind == 3) { if (!dims || dims->o.empty()) { w.finish(); return; } size_t k = g.below(dims->o.size()); what = "missing dimension " + dims->o[k].first; dims->o.erase(dims->o.begin() + k); }
  else if (kind == 4) { js::V *v = find(bad, "meta"); *v = js::str("onto://x.y/0.1/NoSuchMeta"); what = "unknown metadata"; }
  else { if (!dims || dims->o.empty()) { w.finish(); return; } dims->o.insert(dims->o.begin() + g.below(dims->o.size() + 1), {"nosuchdim", js::num("1")}); what = "one dimension too many"; }
  S t = js::print(bad, &g); g.log("%s: %s", what.c_str(), t.c_str()); take_error();
  DLiteInstance *i = dlite_json_sscan(t.c_str(), g.flip() ? uri.b.c_str() : NULL, g.flip() ? m.uri.c_str() : NULL);
  REQUIRE(!i, "a document with %s is accepted", what.c_str()); REQUIRE(take_error(), "a document with %s is refused without an error", what.c_str());
  REQUIRE(!dlite_instance_has(u, 0), "a refused document with %s leaves an instance", what.c_str()); dlite_errclr(); g.label(what.substr(0, 12)); if (arr) g.nontrivial();
  t = js::print(doc, &g); x.inst = dlite_json_sscan(t.c_str(), NULL, NULL); REQUIRE(x.inst, "reading the correct document: %s", dlite_errmsg()); check_inst(x, "after a refused document"); dlite_instance_decref(x.inst);
  w.finish();
}

PBT(D09, foreign_documents, 5000, 150000, 40, "at least two instances in a document") {
  World w(g); MetaOpt o; o.types = TY_REF | TY_REL; w.init(g.range(1, 2), o);
  int n = g.chance(1, 3) ? 1 : g.range(2, 4); std::vector<std::unique_ptr<InstM>> xs; std::vector<Elem> uris; std::vector<S> keys; js::V doc = js::obj(); bool single = n == 1 && g.flip();
  for (int i = 0; i < n; i++) {
    std::unique_ptr<InstM> x(new InstM); x->m = w.metas[g.below(w.metas.size())].get(); x->dims = gen_dims(g, *x->m, 3); if (dims_status(*x->m, x->dims) != 1) { w.finish(); return; }
    zero_vals(*x); for (size_t j = 0; j < x->vals.size(); j++) { x->vals[j] = w.gen_prop_value(*x, j); }
    Elem uri = g.chance(1, 3) ? Elem::Null() : Elem(fmt("http://a.b/%d/", i) + g.ident()); char u[DLITE_UUID_LENGTH + 1];
    if (uri.null) { char nb[64]; snprintf(nb, sizeof nb, "key%d", i); dlite_get_uuid(u, nb); } else dlite_get_uuid(u, uri.b.c_str());
    x->uuid = u; S key = !uri.null && g.flip() ? uri.b : x->uuid; keys.push_back(key);
    doc.o.push_back({key, datadoc(g, *x, uri, single ? uri.null || g.flip() : g.chance(1, 3))}); uris.push_back(uri); xs.push_back(std::move(x));
  }
  if (single) { js::V v = doc.o[0].second; doc = v; }
  S t = js::print(doc, &g); g.log("%s", t.c_str()); js::parse(t, "generator");
  // iterating
  const MetaM *lim = g.flip() ? w.metas[g.below(w.metas.size())].get() : NULL; std::multiset<S> want, got;
  for (int i = 0; i < n; i++) if (!lim || xs[i]->m == lim) want.insert(xs[i]->uuid);
  S lid = lim ? g.flip() ? lim->uri : S(lim->meta->uuid) : S();
  if (!single) {
    char *b = strdup(t.c_str()); DLiteJsonIter *it = dlite_json_iter_create(b, g.flip() ? 0 : (int)t.size(), lim ? lid.c_str() : NULL); REQUIRE(it, "dlite_json_iter_create: %s", dlite_errmsg());
    int len; while (const char *p = dlite_json_next(it, &len)) { char u[DLITE_UUID_LENGTH + 1]; REQUIRE(p >= b && p + len <= b + t.size() && len >= 0, "iterator returns text outside the document"); S k(p, len); if (k.find('\\') == S::npos) { dlite_get_uuid(u, k.c_str()); got.insert(u); } else { js::Parser q(*new S("\"" + k + "\"")); S o; q.string(o); delete &q.t; dlite_get_uuid(u, o.c_str()); got.insert(u); } if (got.size() > 20) break; }
    REQUIRE(got == want, "iteration%s visits %zu instances, expected %zu", lim ? " limited to metadata" : "", got.size(), want.size());
    dlite_json_iter_free(it); free(b);
  }
  // json keys with escapes: known finding of D25, so use the plain spelling for the json store
  bool store = g.chance(1, 3); JStore *st = NULL;
  if (store) {
    S plain = js::print(doc); st = jstore_open(); REQUIRE(dlite_jstore_loads(st, plain.c_str(), (int)plain.size()) >= 0, "dlite_jstore_loads: %s", dlite_errmsg());
    DLiteJStoreIter *it = dlite_jstore_iter_create(st, lim ? lid.c_str() : NULL); REQUIRE(it, "iterator"); got.clear(); while (const char *p = dlite_jstore_iter_next(it)) { char u[DLITE_UUID_LENGTH + 1]; dlite_get_uuid(u, p); got.insert(u); } dlite_jstore_iter_free(it);
    REQUIRE(got == want, "iteration over json store visits %zu instances, expected %zu", got.size(), want.size());
  }
  std::vector<int> ord; for (int i = 0; i < n; i++) ord.push_back(i); for (int i = n; i > 1; i--) std::swap(ord[i - 1], ord[g.below(i)]);
  for (int i : ord) {
    S how = "jstore"; bool noid = n == 1 && g.flip(); int matching = 0; for (int k = 0; k < n; k++) if (xs[k]->m == xs[i]->m) matching++;
    const char *id = noid || (matching == 1 && !single && !store && g.chance(1, 3)) ? NULL : uris[i].null || g.flip() ? xs[i]->uuid.c_str() : uris[i].b.c_str();
    const char *mid = id && g.flip() ? NULL : xs[i]->m->uri.c_str();
    if (store) xs[i]->inst = dlite_jstore_get(st, id ? id : xs[i]->uuid.c_str()); else xs[i]->inst = readback(g, t, id, mid, how);
    S what = fmt("reading instance %d by %s with id %s", i, how.c_str(), id ? id : "NULL");
    REQUIRE(xs[i]->inst, "%s: %s", what.c_str(), dlite_errmsg());
    char want[DLITE_UUID_LENGTH + 1]; (void)want;
    reread(*xs[i], uris[i], NULL, what.c_str());
    for (int k : ord) if (xs[k]->inst) check_inst(*xs[k], what.c_str());
  }
  if (n > 1 && !store && g.chance(1, 3)) { DLiteInstance *r = dlite_json_sscan(t.c_str(), NULL, NULL); REQUIRE(!r && take_error(), "an instance is picked from a document with several"); }
  if (st) jstore_close(st);
  // build the same document by appending
  S bt = "{}"; char *b = strdup(g.pick<const char *>({"{}", "{ }", " {\n}\n", "{\n\n}"})); size_t size = strlen(b) + 1; int fl = (g.below(128) & ~dliteJsonSingle);
  if (n >= 1 && !single) {
    for (int i = 0; i < n; i++) { size_t old = strlen(b); int r = dlite_json_append(&b, &size, xs[i]->inst, (DLiteJsonFlag)fl); REQUIRE(r >= 0 && strlen(b) < size, "dlite_json_append: %d %s", r, dlite_errmsg()); (void)old; }
    js::V v = js::parse(b, "appended document"); REQUIRE(v.o.size() == (size_t)n, "appended document has %zu instances", v.o.size());
    for (int i = 0; i < n; i++) { js::V one = js::obj(); one.o.push_back(v.o[i]); jinst(one, *xs[i], uris[i], fl, NULL); }
  }
  for (auto &x : xs) dlite_instance_decref(x->inst);
  for (int i = 0; i < n; i++) REQUIRE(!dlite_instance_has(xs[i]->uuid.c_str(), 0), "instance %d is left in memory", i);
  dlite_errclr();
  if (!single) for (int i = 0; i < n; i++) { xs[i]->inst = dlite_json_sscan(b, xs[i]->uuid.c_str(), NULL); REQUIRE(xs[i]->inst, "reading from appended document: %s", dlite_errmsg()); norm(*xs[i]); reread(*xs[i], uris[i], NULL, "reading from appended document"); dlite_instance_decref(xs[i]->inst); }
  free(b); if (n > 1) g.nontrivial();
  w.finish(); dlite_errclr();
}

int main(int argc, char **argv) { child_init = init; return pbt::run_main(argc, argv); }
