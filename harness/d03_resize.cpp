// flavours: asan
// D03: changing dimension sizes preserves data and never exceeds memory
#include "world.hpp"
static void init() { dlite_err_set_stream(NULL); }

// one request to change sizes; returns whether the model says it is honoured
static bool request(World &w, InstM &x, const std::vector<int> &req, int how, size_t i, bool frozen) {
  Gen &g = w.g; std::vector<long> nd = x.dims;
  for (size_t k = 0; k < req.size(); k++) if (req[k] >= 0) nd[k] = req[k];
  int st = dims_status(*x.m, nd, 3000);
  if (st < 0) return false;   // too large for the test
  bool ok = st && !frozen;
  dlite_errclr(); int r;
  if (how == 0) { std::vector<int> q(req); q.push_back(0); r = dlite_instance_set_dimension_sizes(x.inst, q.data()); }
  else if (how == 1) r = dlite_instance_set_dimension_size_by_index(x.inst, i, req[i]);
  else r = dlite_instance_set_dimension_size(x.inst, x.m->dims[i].first.c_str(), req[i]);
  S s; for (int v : req) s += fmt("%d ", v);
  g.log("resize %s [%s] how %d -> %d (expected %s)", x.uuid.c_str(), s.c_str(), how, r, ok ? "success" : "refusal");
  int e = take_error();
  if (ok) { REQUIRE(r == 0, "change of sizes to [%s] was refused", s.c_str()); x.dims = nd; resize_vals(x); }
  else { REQUIRE(r != 0, "change of sizes to [%s] was not refused", s.c_str()); REQUIRE(e, "refusal without an error"); g.label(frozen ? "refused: frozen" : "refused: negative property size"); }
  return ok;
}

PBT(D03, history, 9000, 120000, 40, "at least 3 honoured changes of sizes of an instance with array properties holding data") {
  World w(g); MetaOpt o; o.types = TY_REF | TY_REL; o.negative = g.flip(); o.maxprops = g.pick<int>({3, 6, 9});
  w.init(1, o);
  if (w.metas[0]->dims.empty()) throw Discard{};
  int n = g.range(1, 2); std::set<InstM *> frozen;
  for (int i = 0; i < n; i++) w.create(0, gen_dims(g, *w.metas[0]));
  w.check("after creation");
  int nops = g.size(40), done = 0; bool data = false;
  for (int k = 0; k < nops; k++) {
    InstM *x = w.pick(); if (!x) break;
    MetaM &m = *w.metas[0]; size_t nd = m.dims.size();
    switch (g.below(10)) {
    case 0: case 1: if (m.props.size() && !frozen.count(x)) { size_t j = g.below(m.props.size()); w.set_random(*x, j); if (m.props[j].shape.size() && x->vals[j].size()) data = true; } break;
    case 2: case 3: case 4: {
      std::vector<int> req; for (size_t i = 0; i < nd; i++) req.push_back(g.chance(1, 4) ? -1 - (int)g.below(3) : g.range(0, g.chance(1, 6) ? 12 : 5));
      done += request(w, *x, req, 0, 0, frozen.count(x)); break; }
    case 5: case 6: case 7: {
      size_t i = g.below(nd); std::vector<int> req(nd, -1); req[i] = g.range(0, g.chance(1, 6) ? 12 : 5);
      done += request(w, *x, req, g.range(1, 2), i, frozen.count(x)); break; }
    case 8: {
      S bad = g.ident(); for (auto &d : m.dims) if (d.first == bad) throw Discard{};
      size_t i = g.pick<size_t>({nd, nd + 1, nd + 5, 100000, (size_t)-2});
      dlite_errclr();
      REQUIRE(dlite_instance_set_dimension_size(x->inst, bad.c_str(), g.range(0, 4)) != 0 && take_error(), "unknown dimension %s", bad.c_str());
      REQUIRE(dlite_instance_set_dimension_size_by_index(x->inst, i, g.range(0, 4)) != 0 && take_error(), "dimension %zu of %zu", i, nd);
      // sizes of metadata cannot be changed
      DLiteInstance *mi = (DLiteInstance *)m.meta; size_t a = m.dims.size(), b = m.props.size();
      int req[] = {g.range(0, 4), g.range(0, 4)};
      REQUIRE(dlite_instance_set_dimension_sizes(mi, req) != 0 && take_error(), "changing sizes of metadata");
      REQUIRE(dlite_instance_set_dimension_size_by_index(mi, g.below(2), g.range(0, 4)) != 0 && take_error(), "changing size of metadata");
      REQUIRE(dlite_instance_get_dimension_size(mi, "ndimensions") == (int)a && dlite_instance_get_dimension_size(mi, "nproperties") == (int)b, "sizes of metadata changed");
      g.label("refused: unknown dimension or metadata"); break; }
    default:
      if (g.chance(1, 3)) { dlite_instance_freeze(x->inst); frozen.insert(x); g.log("freeze %s", x->uuid.c_str()); }
      else {  // a size that cannot be held
        size_t i = g.below(nd), big = g.pick<size_t>({(size_t)INT_MAX, (size_t)INT_MAX - 1, (size_t)INT_MAX + 1, (size_t)1 << 40, (size_t)-5, 2000000000});
        // only when some property would need more than can be addressed
        std::vector<size_t> sh; double most = 0;
        for (size_t j = 0; j < m.props.size(); j++) {
          std::vector<long> d = x->dims; d[i] = 1000003; double q = 1; std::vector<size_t> s2; shape_of(m, j, d, sh);
          for (size_t v : sh) q *= (double)v; if (!m.props[j].shape.empty()) most = std::max(most, q * m.props[j].t.n);
        }
        if (big <= INT_MAX && most < 1e12) break;
        dlite_errclr(); int r = dlite_instance_set_dimension_size_by_index(x->inst, i, big);
        g.log("resize %s dimension %zu to %zu -> %d", x->uuid.c_str(), i, big, r);
        REQUIRE(r != 0 && take_error(), "size %zu of dimension %zu accepted", big, i);
        g.label("refused: too large");
      }
    }
    w.check("after operation");
  }
  if (done >= 3 && data) g.nontrivial();
  w.finish();
}

// creating with sizes beyond what can be held is refused
PBT(D03, create_large, 3000, 40000, 100, "creation with a size beyond the limits was tried") {
  World w(g); MetaOpt o; o.maxprops = 4; w.init(1, o); MetaM &m = *w.metas[0];
  if (m.dims.empty()) throw Discard{};
  auto d = gen_dims(g, m); size_t i = g.below(d.size());
  d[i] = g.pick<long>({(long)INT_MAX + 1, 1L << 32, (1L << 32) + 1, 1L << 40, LONG_MAX, -1, -2, LONG_MIN});
  dlite_errclr();
  DLiteInstance *inst = create_inst(m, d, NULL);
  g.log("%s dimension %zu = %ld -> %p", showmeta(m).c_str(), i, d[i], (void *)inst);
  REQUIRE(!inst, "instance with dimension size %ld was created", d[i]);
  REQUIRE(take_error(), "refused creation without an error");
  g.nontrivial();
  w.finish();
}
int main(int argc, char **argv) { child_init = init; return pbt::run_main(argc, argv); }
