// flavours: asan
// D02: properties have their declared shape and keep the values stored in them
#include "world.hpp"

static void init() { dlite_err_set_stream(NULL); }

PBT(D02, store_and_read, 9000, 120000, 40, "at least 4 stores into instances with array properties") {
  World w(g); MetaOpt o; o.types = TY_REF | TY_REL; o.negative = true; o.maxprops = g.pick<int>({3, 6, 10});
  w.init(g.range(1, 2), o);
  int nops = g.size(40), stores = 0; bool arrays = false;
  w.create(0, gen_dims(g, *w.metas[0]));
  w.check("after creation");
  for (int k = 0; k < nops; k++) {
    if (w.insts.size() < 4 && g.chance(1, 6)) { int mi = g.below(w.metas.size()); w.create(mi, gen_dims(g, *w.metas[mi])); w.check("after creation"); continue; }
    InstM *x = w.pick(); if (!x) continue;
    if (x->m->props.empty()) continue;
    size_t j = g.below(x->m->props.size());
    switch (g.below(6)) {
    case 0: case 1: case 2: case 3:
      w.set_random(*x, j); stores++; if (x->vals[j].size() > 1) arrays = true; break;
    case 4: {  // unknown names and positions
      S bad = g.ident(); for (auto &p : x->m->props) if (p.name == bad) bad += "_x"; for (auto &p : x->m->props) if (p.name == bad) throw Discard{};
      for (auto &p : x->m->dims) if (p.first == bad) throw Discard{};
      size_t n = x->m->props.size() + g.pick<size_t>({0, 1, 7, 1000});
      Mem b({dliteBlob, 4096}, 1); DLiteInstance *i = x->inst;
      g.log("unknown name %s, index %zu", bad.c_str(), n);
      dlite_errclr();
      REQUIRE(dlite_instance_set_property(i, bad.c_str(), b.p) != 0, "setting unknown property %s succeeded", bad.c_str());
      REQUIRE(take_error(), "setting an unknown property reports no error");
      REQUIRE(dlite_instance_set_property_by_index(i, n, b.p) != 0, "setting property number %zu of %zu succeeded", n, x->m->props.size());
      REQUIRE(take_error(), "setting a property out of range reports no error");
      REQUIRE(!dlite_instance_get_property(i, bad.c_str()) && take_error(), "getting unknown property %s", bad.c_str());
      REQUIRE(!dlite_instance_get_property_by_index(i, n) && take_error(), "getting property number %zu of %zu", n, x->m->props.size());
      REQUIRE(dlite_instance_get_property_ndims(i, bad.c_str()) < 0 && take_error(), "ndims of unknown property");
      REQUIRE(dlite_instance_get_property_ndims_by_index(i, n) < 0 && take_error(), "ndims of property out of range");
      REQUIRE(!dlite_instance_get_property_dims_by_index(i, n) && take_error(), "dims of property out of range");
      REQUIRE(dlite_instance_get_property_shape_by_index(i, n, 0) < 0 && take_error(), "shape of property out of range");
      REQUIRE(dlite_instance_get_property_shape_by_index(i, j, x->m->props[j].shape.size() + g.below(2)) < 0 && take_error(), "shape of property in dimension out of range");
      REQUIRE((int)dlite_instance_get_property_dimssize(i, bad.c_str(), 0) < 0 && take_error(), "dimension of unknown property");
      REQUIRE(dlite_instance_get_dimension_size(i, bad.c_str()) < 0 && take_error(), "size of unknown dimension");
      REQUIRE((int)dlite_instance_get_dimension_size_by_index(i, x->m->dims.size() + g.below(3)) < 0 && take_error(), "size of dimension out of range");
      REQUIRE(!dlite_instance_has_property(i, bad.c_str()) && !dlite_instance_has_dimension(i, bad.c_str()), "has unknown property or dimension");
      char s[40];
      REQUIRE(dlite_instance_print_property(s, sizeof s, i, bad.c_str(), 0, -2, (DLiteTypeFlag)0) < 0 && take_error(), "printing unknown property");
      REQUIRE(dlite_instance_print_property_by_index(s, sizeof s, i, n, 0, -2, (DLiteTypeFlag)0) < 0 && take_error(), "printing property out of range");
      REQUIRE(dlite_instance_scan_property("1", i, bad.c_str(), (DLiteTypeFlag)0) < 0 && take_error(), "scanning unknown property");
      REQUIRE(dlite_instance_scan_property_by_index("1", i, n, (DLiteTypeFlag)0) < 0 && take_error(), "scanning property out of range");
      REQUIRE(dlite_instance_copy_property(i, bad.c_str(), 'C', b.p) != 0 && take_error(), "copying unknown property");
      REQUIRE(dlite_instance_copy_property_by_index(i, (int)n, 'C', b.p) != 0 && take_error(), "copying property out of range");
      REQUIRE(dlite_instance_assign_property(i, bad.c_str(), 'C', b.p) != 0 && take_error(), "assigning unknown property");
      REQUIRE(!dlite_instance_get_property_array(i, bad.c_str(), 'C') && take_error(), "array of unknown property");
      REQUIRE(!dlite_instance_get_property_array_by_index(i, n, 'C') && take_error(), "array of property out of range");
      REQUIRE(!dlite_meta_get_property(x->m->meta, bad.c_str()) && take_error(), "description of unknown property");
      REQUIRE(!dlite_meta_get_property_by_index(x->m->meta, n) && take_error(), "description of property out of range");
      REQUIRE(!dlite_meta_get_dimension(x->m->meta, bad.c_str()) && take_error(), "description of unknown dimension");
      REQUIRE(!dlite_meta_get_dimension_by_index(x->m->meta, x->m->dims.size()) && take_error(), "description of dimension out of range");
      g.label("unknown name or position"); break; }
    default: {  // look-ups agree
      const PropM &p = x->m->props[j];
      REQUIRE(dlite_instance_has_property(x->inst, p.name.c_str()), "has_property(%s)", p.name.c_str());
      REQUIRE(dlite_meta_get_property_index(x->m->meta, p.name.c_str()) == (int)j, "index of %s", p.name.c_str());
      for (size_t d = 0; d < x->m->dims.size(); d++) REQUIRE(dlite_instance_has_dimension(x->inst, x->m->dims[d].first.c_str()) && dlite_meta_get_dimension_index(x->m->meta, x->m->dims[d].first.c_str()) == (int)d, "index of dimension");
      // reference to an instance of other metadata is refused
      if (p.t.t == dliteRef && !p.ref.null && x->vals[j].size()) {
        PropBuf b(*x, j, x->vals[j], [&](const S &u) { return w.byuuid(u); });
        *(DLiteInstance **)b.at(g.below(b.n)) = x->inst;
        REQUIRE(dlite_instance_set_property_by_index(x->inst, j, b.p) != 0 && take_error(), "reference to instance of other metadata accepted");
        g.label("wrong reference");
      } }
    }
    w.check("after operation");
  }
  if (stores >= 4 && arrays) g.nontrivial();
  w.finish();
}

// properties through their text form: printing gives text from which the
// same value can be scanned, and bad text is refused
PBT(D02, text_form, 5000, 60000, 50, "a property with at least 2 elements went through its text form") {
  World w(g); MetaOpt o; w.init(1, o);
  InstM *x = w.create(0, gen_dims(g, *w.metas[0])); InstM *y = w.create(0, x->dims);
  if (x->m->props.empty()) throw Discard{};
  for (size_t j = 0; j < x->m->props.size(); j++) {
    const PropM &p = x->m->props[j];
    std::vector<Elem> v; for (size_t i = 0; i < x->vals[j].size(); i++) v.push_back(gen_elem(g, p.t, true));
    if (p.shape.empty()) for (auto &e : v) if (e.null) e = Elem(S("x"));
    { PropBuf b(*x, j, v); REQUIRE(dlite_instance_set_property_by_index(x->inst, j, b.p) == 0, "set"); } x->vals[j] = v;
    int n = dlite_instance_print_property_by_index(NULL, 0, x->inst, j, 0, -3, dliteFlagQuoted);
    REQUIRE(n >= 0, "printing %s (%s) failed", p.name.c_str(), tyname(p.t).c_str());
    char *s = (char *)malloc(n + 1); int n2 = dlite_instance_print_property(s, n + 1, x->inst, p.name.c_str(), 0, -3, dliteFlagQuoted);
    REQUIRE(n2 == n && (int)strlen(s) == n, "printed length of %s: %d, then %d, text %zu", p.name.c_str(), n, n2, strlen(s));
    // too small buffer
    int m = g.range(0, n); char *t = (char *)malloc(m ? m : 1);
    REQUIRE(dlite_instance_print_property_by_index(t, m, x->inst, j, 0, -3, dliteFlagQuoted) == n, "length with buffer of %d bytes", m);
    REQUIRE(m == 0 || (strlen(t) == (size_t)m - 1 && strncmp(s, t, m - 1) == 0), "truncated text with buffer of %d bytes", m);
    free(t);
    // allocated, at a position
    char *a = NULL; size_t asz = 0, pos = g.below(4); if (pos) { asz = pos + g.below(4); a = (char *)malloc(asz); memset(a, '#', asz); }
    REQUIRE(dlite_instance_aprint_property(&a, &asz, pos, x->inst, p.name.c_str(), 0, -3, dliteFlagQuoted) == n && asz > pos + n && strcmp(a + pos, s) == 0, "aprint of %s", p.name.c_str());
    for (size_t i = 0; i < pos; i++) REQUIRE(a[i] == '#', "aprint changed text before the position");
    free(a);
    g.log("%s %s: %s", p.name.c_str(), tyname(p.t).c_str(), show(s).c_str());
    int r = dlite_instance_scan_property(s, y->inst, p.name.c_str(), dliteFlagQuoted);
    REQUIRE(r == n, "scanning %s (%s) consumed %d of %d characters", p.name.c_str(), tyname(p.t).c_str(), r, n);
    y->vals[j] = v;
    w.check("after printing and scanning");
    // wrong number of elements or not a list
    if (!p.shape.empty()) {
      S bad = g.flip() ? "1" : v.empty() ? S("[1]") : S(s).insert(1, S(s).substr(1, 1) == "[" ? "[]," : "0,");
      dlite_errclr();
      if (dlite_instance_scan_property(bad.c_str(), y->inst, p.name.c_str(), dliteFlagQuoted) >= 0) fail("text %s accepted for %s with %zu elements", bad.c_str(), p.name.c_str(), v.size());
      REQUIRE(take_error(), "refused text without an error");
      PropBuf b(*y, j, v); REQUIRE(dlite_instance_set_property_by_index(y->inst, j, b.p) == 0, "set after refused text");
      if (v.size() >= 2) g.nontrivial();
    }
    free(s);
  }
  w.finish();
}

int main(int argc, char **argv) { child_init = init; return pbt::run_main(argc, argv); }
