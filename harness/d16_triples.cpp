// flavours: asan builtin
// D16: the triplestore against a set of (s, p, o, d) tuples.
#include "dmodel.hpp"
extern "C" {
#include "triple.h"
#include "triplestore.h"
}

struct T4 { S s, p, o; Elem d; bool operator<(const T4 &x) const { return std::tie(s, p, o, d.null, d.b) < std::tie(x.s, x.p, x.o, x.d.null, x.d.b); }
  bool operator==(const T4 &x) const { return s == x.s && p == x.p && o == x.o && d == x.d; } };
static S show4(const T4 &t) { return "(" + show(t.s) + " " + show(t.p) + " " + show(t.o) + " " + (t.d.null ? S("IRI") : show(t.d.b)) + ")"; }
static T4 of(const Triple *t) { return {t->s, t->p, t->o, ostr(t->d)}; }

struct Pat { Elem s = Elem::Null(), p = Elem::Null(), o = Elem::Null(), d = Elem::Null(); };
static const char *cs(const Elem &e) { return e.null ? NULL : e.b.c_str(); }
static bool match(const T4 &t, const Pat &q) {
  if (!q.s.null && q.s.b != t.s) return false;
  if (!q.p.null && q.p.b != t.p) return false;
  if (!q.o.null && q.o.b != t.o) return false;
  if (q.d.null) return true;
  if (q.d.b.empty()) return t.d.null;
  return !t.d.null && t.d.b == q.d.b;
}
static S showp(const Pat &q) { auto f = [](const Elem &e) { return e.null ? S("*") : show(e.b); }; return f(q.s) + " " + f(q.p) + " " + f(q.o) + " " + f(q.d); }

// A small vocabulary, in which pieces of text can be split in several ways
struct Voc {
  std::vector<S> w, d;
  Voc(Gen &g) {
    w = {"a", "b", "ab", "ba", "aa", "abb", "bab"};
    if (g.flip()) w = {"a", "aa", "aaa", "aaaa"};
    int n = g.range(0, 3); for (int i = 0; i < n; i++) { S t = g.text(12); if (!t.empty()) w.push_back(t); }
    if (g.chance(1, 3)) w.push_back("http://ex.org/x#" + g.ident(4));
    if (g.chance(1, 4)) for (S x : {"A", "aB", "AB"}) w.push_back(x);
    d = {"xsd:int", "@en", "@no", "a", "b", "xsd:string"};
    if (g.chance(1, 3)) for (S x : {"@nn-no", "@en-gb", "@x-klingon", "XSD:int"}) d.push_back(x);
  }
};
static T4 gen4(Gen &g, const Voc &v) {
  T4 t{g.pick(v.w), g.pick(v.w), g.pick(v.w), Elem::Null()};
  if (g.flip()) { t.d = Elem(g.pick(v.d)); if (g.chance(1, 6)) t.o = g.flip() ? S() : g.text(15); }
  return t;
}
static Pat genpat(Gen &g, const Voc &v, const std::set<T4> &m) {
  Pat q; T4 t = gen4(g, v);
  if (!m.empty() && g.chance(3, 4)) { auto it = m.begin(); std::advance(it, g.below(m.size())); t = *it; }
  if (g.flip()) q.s = Elem(t.s);
  if (g.flip()) q.p = Elem(t.p);
  if (g.flip()) q.o = Elem(t.o);
  switch (g.below(4)) { case 0: q.d = t.d.null ? Elem(S("")) : t.d; break; case 1: q.d = Elem(g.chance(1, 3) ? S("") : g.pick(v.d)); break; default:; }
  return q;
}

static void compare(const std::vector<T4> &got, const std::set<T4> &want, const S &what) {
  std::set<T4> seen;
  for (auto &t : got) {
    REQUIRE(want.count(t), "%s: %s is not expected", what.c_str(), show4(t).c_str());
    REQUIRE(seen.insert(t).second, "%s: %s is returned twice", what.c_str(), show4(t).c_str());
  }
  for (auto &t : want) REQUIRE(seen.count(t), "%s: %s is missing", what.c_str(), show4(t).c_str());
}
static std::set<T4> sel(const std::set<T4> &m, const Pat &q) { std::set<T4> r; for (auto &t : m) if (match(t, q)) r.insert(t); return r; }

static void checkall(TripleStore *ts, const std::set<T4> &m, const char *when) {
  REQUIRE(triplestore_length(ts) == m.size(), "%s: length is %zu, expected %zu", when, triplestore_length(ts), m.size());
  TripleState st; triplestore_init_state(ts, &st);
  std::vector<T4> v; while (const Triple *t = triplestore_next(&st)) { v.push_back(of(t)); if (v.size() > m.size() + 3) break; }
  triplestore_deinit_state(&st);
  compare(v, m, fmt("%s: all triples", when));
}

PBT(D16, store, 12000, 200000, 64, "random histories of adding, removing and searching triples over a small vocabulary; non-trivial: at least one removal by pattern that keeps some and removes some triples") {
  Voc v(g);
  int nts = g.range(1, 2); std::vector<TripleStore *> tss; std::vector<std::set<T4>> ms(nts);
  for (int i = 0; i < nts; i++) { tss.push_back(triplestore_create()); REQUIRE(tss[i], "create"); }
  int nops = g.size(60); bool big = g.chance(1, 40); S ns;
  for (int k = 0; k < nops; k++) {
    int w = g.below(nts); TripleStore *ts = tss[w]; auto &m = ms[w];
    switch (g.weighted({8, 3, 5, 6, 3, 4, 1, 2, 2, big ? 2 : 0})) {
    case 0: {
      T4 t = gen4(g, v); g.log("%d add %s", w, show4(t).c_str()); int r;
      if (!t.d.null && t.d.b == "@en" && g.flip()) r = triplestore_add_en(ts, t.s.c_str(), t.p.c_str(), t.o.c_str());
      else if (t.d.null && g.flip()) r = triplestore_add_uri(ts, t.s.c_str(), t.p.c_str(), t.o.c_str());
      else r = triplestore_add(ts, t.s.c_str(), t.p.c_str(), t.o.c_str(), cs(t.d));
      REQUIRE(r == 0, "add %s failed", show4(t).c_str());
      m.insert(t); break; }
    case 1: {
      int n = g.range(0, 6); std::vector<T4> ts4; std::vector<Triple> a;
      for (int i = 0; i < n; i++) ts4.push_back(i && g.chance(1, 4) ? ts4[g.below(i)] : gen4(g, v));
      for (auto &t : ts4) { a.push_back({(char *)t.s.c_str(), (char *)t.p.c_str(), (char *)t.o.c_str(), (char *)cs(t.d), NULL}); g.log("%d add_triples %s", w, show4(t).c_str()); m.insert(t); }
      REQUIRE(triplestore_add_triples(ts, a.data(), a.size()) == 0, "add_triples failed"); break; }
    case 2: {
      Pat q = genpat(g, v, m); auto del = sel(m, q);
      g.log("%d remove %s", w, showp(q).c_str());
      int r = triplestore_remove(ts, cs(q.s), cs(q.p), cs(q.o), cs(q.d));
      REQUIRE(r == (int)del.size(), "remove %s returns %d, %zu triples match", showp(q).c_str(), r, del.size());
      if (!del.empty() && del.size() < m.size()) g.nontrivial();
      for (auto &t : del) m.erase(t);
      break; }
    case 3: {
      Pat q = genpat(g, v, m); auto want = sel(m, q); std::vector<T4> got; TripleState st;
      g.log("%d find %s", w, showp(q).c_str());
      triplestore_init_state(ts, &st);
      int rounds = g.chance(1, 4) ? 2 : 1;
      for (int r = 0; r < rounds; r++) {
        got.clear(); size_t stop = r + 1 < rounds ? g.below(m.size() + 1) : m.size() + 3;
        while (got.size() < stop) {
          const Triple *t = triplestore_find(&st, cs(q.s), cs(q.p), cs(q.o), cs(q.d));
          if (!t) break;
          got.push_back(of(t));
          if (g.chance(1, 6)) {      // another search meanwhile
            Pat q2 = genpat(g, v, m); const Triple *t2 = triplestore_find_first(ts, cs(q2.s), cs(q2.p), cs(q2.o), cs(q2.d));
            REQUIRE(!!t2 == !sel(m, q2).empty(), "find_first %s during a search", showp(q2).c_str());
          }
        }
        if (r + 1 < rounds) triplestore_reset_state(&st);
      }
      triplestore_deinit_state(&st);
      compare(got, want, "find " + showp(q)); break; }
    case 4: {
      Pat q = genpat(g, v, m); auto want = sel(m, q); g.log("%d find_first %s", w, showp(q).c_str());
      const Triple *t = triplestore_find_first(ts, cs(q.s), cs(q.p), cs(q.o), cs(q.d));
      REQUIRE(!!t == !want.empty(), "find_first %s finds %s, %zu match", showp(q).c_str(), t ? show4(of(t)).c_str() : "nothing", want.size());
      if (t) REQUIRE(want.count(of(t)), "find_first %s finds %s", showp(q).c_str(), show4(of(t)).c_str());
      break; }
    case 5: {
      Pat q = genpat(g, v, m);
      if (g.chance(4, 5)) {      // make exactly one of them unknown
        T4 t = gen4(g, v); if (!m.empty() && g.chance(3, 4)) { auto it = m.begin(); std::advance(it, g.below(m.size())); t = *it; }
        q.s = Elem(t.s); q.p = Elem(t.p); q.o = Elem(t.o);
        switch (g.below(3)) { case 0: q.s = Elem::Null(); break; case 1: q.p = Elem::Null(); break; default: q.o = Elem::Null(); }
      }
      int nn = q.s.null + q.p.null + q.o.null; bool any = g.flip(); Elem fb = g.flip() ? Elem(g.text(5)) : Elem::Null();
      g.log("%d value %s fallback %s any %d", w, showp(q).c_str(), cs(fb) ? cs(fb) : "NULL", any);
      dlite_errclr();
      const char *r = triplestore_value(ts, cs(q.s), cs(q.p), cs(q.o), cs(q.d), cs(fb), any);
      int e = dlite_errval(); dlite_errclr();
      if (nn != 1) { REQUIRE(!r && e, "value with %d unknowns gives %s", nn, r); break; }
      auto want = sel(m, q); std::set<S> vals;
      for (auto &t : want) vals.insert(q.s.null ? t.s : q.p.null ? t.p : t.o);
      if (want.empty()) {
        if (fb.null) REQUIRE(!r && e, "value %s without match gives %s, error %d", showp(q).c_str(), r ? r : "NULL", e);
        else REQUIRE(r && fb.b == r && !e, "value %s without match gives %s, error %d", showp(q).c_str(), r ? r : "NULL", e);
      } else if (want.size() > 1 && !any) {
        if (vals.size() > 1) REQUIRE(!r && e, "value %s with %zu matches gives %s", showp(q).c_str(), want.size(), r ? r : "NULL");
      } else REQUIRE(r && vals.count(r) && !e, "value %s gives %s, error %d", showp(q).c_str(), r ? show(r).c_str() : "NULL", e);
      break; }
    case 6: g.log("%d clear", w); triplestore_clear(ts); m.clear(); break;
    case 7: {
      // next, poll and reset
      TripleState st; triplestore_init_state(ts, &st); std::vector<T4> a; size_t n = g.below(m.size() + 2);
      for (size_t i = 0; i < n; i++) {
        const Triple *p = triplestore_poll(&st); T4 pt; if (p) pt = of(p);
        const Triple *t = triplestore_next(&st);
        REQUIRE(!!p == !!t && (!t || of(t) == pt), "poll and next disagree");
        REQUIRE(!!t == (i < m.size()), "iteration over %zu triples ends at %zu", m.size(), i);
        if (t) a.push_back(of(t));
      }
      triplestore_reset_state(&st);
      for (size_t i = 0; i < a.size(); i++) { const Triple *t = triplestore_next(&st); REQUIRE(t && of(t) == a[i], "iteration differs after reset"); }
      triplestore_deinit_state(&st);
      break; }
    case 8: {
      if (g.flip()) { ns = ""; triplestore_set_namespace(ts, NULL); REQUIRE(!triplestore_get_namespace(ts), "namespace"); break; }
#ifdef VERIF_FLAVOUR_BUILTIN
      triplestore_set_namespace(ts, "http://x.y#"); REQUIRE(S("http://x.y#") == triplestore_get_namespace(ts), "namespace");
      // removal and insertion while an iterator is open
      TripleState st; triplestore_init_state(ts, &st); std::set<T4> seen, removed; int n = g.range(0, 8);
      for (int i = 0; i < n; i++) {
        switch (g.below(3)) {
        case 0: { const Triple *t = triplestore_next(&st); if (t) { REQUIRE(m.count(of(t)), "iterator returns removed triple %s", show4(of(t)).c_str()); seen.insert(of(t)); } break; }
        case 1: { Pat q = genpat(g, v, m); auto del = sel(m, q); g.log("%d remove %s while iterating", w, showp(q).c_str());
          int r = triplestore_remove(ts, cs(q.s), cs(q.p), cs(q.o), cs(q.d)); REQUIRE(r == (int)del.size(), "remove while iterating returns %d, expected %zu", r, del.size()); for (auto &t : del) m.erase(t); break; }
        default: { T4 t = gen4(g, v); g.log("%d add %s while iterating", w, show4(t).c_str()); REQUIRE(!triplestore_add(ts, t.s.c_str(), t.p.c_str(), t.o.c_str(), cs(t.d)), "add"); m.insert(t); }
        }
      }
      while (const Triple *t = triplestore_next(&st)) { REQUIRE(m.count(of(t)), "iterator returns removed triple %s", show4(of(t)).c_str()); seen.insert(of(t)); }
      for (auto &t : m) REQUIRE(seen.count(t), "%s is not visited", show4(t).c_str());
      if (g.chance(1, 8)) { triplestore_clear(ts); m.clear(); REQUIRE(triplestore_length(ts) == 0, "clear"); }
      triplestore_deinit_state(&st);
      // ids
      triplestore_init_state(ts, &st); std::vector<S> ids;
      while (const Triple *t = triplestore_next(&st)) if (t->id) ids.push_back(t->id);
      triplestore_deinit_state(&st);
      REQUIRE(ids.size() == m.size(), "%zu ids", ids.size());
      if (!ids.empty()) {
        const S &id = g.pick(ids); const Triple *t = triplestore_get(ts, id.c_str());
        REQUIRE(t && t->id && id == t->id && m.count(of(t)), "get by id");
        if (g.flip()) { T4 x = of(t); g.log("%d remove_by_id %s", w, show4(x).c_str()); REQUIRE(!triplestore_remove_by_id(ts, id.c_str()), "remove_by_id"); m.erase(x); }
      }
      REQUIRE(!triplestore_get(ts, "0000"), "get of unknown id"); REQUIRE(triplestore_remove_by_id(ts, "0000"), "remove_by_id of unknown id"); dlite_errclr();
#endif
      break; }
    case 9: {      // many triples, beyond the allocation chunk of the builtin store
      int n = g.range(500, 1300); g.log("%d add %d numbered triples", w, n);
      for (int i = 0; i < n; i++) { T4 t{"n", "p", fmt("o%d", i), Elem::Null()}; m.insert(t); REQUIRE(!triplestore_add(ts, "n", "p", t.o.c_str(), NULL), "add"); }
      break; }
    }
    checkall(ts, m, "after operation");
    if (nts > 1 && g.chance(1, 4)) checkall(tss[1 - w], ms[1 - w], "other store");
  }
  for (int i = 0; i < nts; i++) { checkall(tss[i], ms[i], "at the end"); triplestore_free(tss[i]); }
}

PBT(D16, triple, 16000, 100000, 128, "setting, copying, resetting and identifying single triples; non-trivial: datatype or explicit id given") {
  Voc v(g); T4 a = gen4(g, v), b = gen4(g, v);
  Elem id = g.chance(1, 3) ? Elem(g.text(8)) : Elem::Null();
  g.log("%s %s", show4(a).c_str(), show4(b).c_str());
  if (!a.d.null || !id.null) g.nontrivial();
  Triple t, c;
  REQUIRE(!triple_set(&t, a.s.c_str(), a.p.c_str(), a.o.c_str(), cs(a.d), cs(id)), "set");
  REQUIRE(of(&t) == a && t.id, "triple_set");
  if (!id.null) REQUIRE(id.b == t.id, "id");
  char *i1 = triple_get_id(NULL, a.s.c_str(), a.p.c_str(), a.o.c_str(), cs(a.d)), *i2 = triple_get_id("ns:", a.s.c_str(), a.p.c_str(), a.o.c_str(), cs(a.d));
  REQUIRE(i1 && i2 && S("ns:") + i1 == i2 && strlen(i1) == 40, "ids %s %s", i1, i2);
  if (id.null) REQUIRE(S(i1) == t.id, "generated id differs");
  REQUIRE(triple_copy(&c, &t) == &c && of(&c) == a && S(c.id) == t.id && c.s != t.s, "copy");
  REQUIRE(!triple_reset(&t, b.s.c_str(), b.p.c_str(), b.o.c_str(), cs(b.d), NULL) && of(&t) == b, "reset");
  REQUIRE(of(&c) == a, "copy changed with its source");
  REQUIRE(!triple_get_id(NULL, NULL, "p", "o", NULL) && !triple_get_id(NULL, "s", NULL, "o", NULL) && !triple_get_id(NULL, "s", "p", NULL, NULL), "id of incomplete triple");
  if (g.chance(1, 4)) {
    if (g.flip()) triple_get_default_namespace();
    triple_set_default_namespace("d#"); char *i3 = triple_get_id(NULL, a.s.c_str(), a.p.c_str(), a.o.c_str(), cs(a.d));
    REQUIRE(S("d#") == triple_get_default_namespace() && S("d#") + i1 == i3, "default namespace"); free(i3);
    triple_set_default_namespace(NULL); REQUIRE(!triple_get_default_namespace(), "default namespace is kept");
  }
  triple_clean(&t); triple_clean(&c); REQUIRE(!t.s && !t.id, "clean"); free(i1); free(i2);
}

static void init() { dlite_err_set_stream(NULL); }
int main(int argc, char **argv) { child_init = init; return pbt::run_main(argc, argv); }
