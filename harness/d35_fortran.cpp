// flavours: asan
// D35: the Fortran bindings and the Fortran modules generated from entities
// do the same as the C library, with Fortran's own strings and array order.
#include "cdlite.hpp"
extern "C" {
#define template template_
#include "dlite-codegen.h"
#undef template
}
#include "pbt.hpp"
#include "dmodel.hpp"
#include "world.hpp"
#include <dlfcn.h>
#include <sys/stat.h>
#include <sys/file.h>
#include <fcntl.h>
using namespace pbt;
typedef std::string S;

static void writefile(const S &f, const S &t) { FILE *p = fopen(f.c_str(), "wb"); REQUIRE(p, "cannot write %s", f.c_str()); fwrite(t.data(), 1, t.size(), p); fclose(p); }
static S readfile(const S &f) { S r; FILE *p = fopen(f.c_str(), "rb"); char b[4096]; size_t n; if (!p) return r; while ((n = fread(b, 1, sizeof b, p)) > 0) r.append(b, n); fclose(p); return r; }
static S top() { const char *d = getenv("VERIF_SCRATCH"); return d ? S(d) : S("/tmp"); }

// Procedures with C interface calling the procedures of the Fortran module
static const char *WRAP = R"F(
module d35wrap
  use iso_c_binding
  use c_interface
  use DLite
  implicit none
contains
  ! Fortran string of n characters from n characters
  function fs(s, n) result(f)
    integer(c_int), value :: n
    character(kind=c_char), intent(in) :: s(*)
    character(len=n) :: f
    integer :: i
    do i = 1, n
      f(i:i) = s(i)
    end do
  end function fs
  subroutine back(f, s)
    character(len=*), intent(in) :: f
    character(kind=c_char), intent(out) :: s(*)
    integer :: i
    do i = 1, len(f)
      s(i) = f(i:i)
    end do
  end subroutine back
  subroutine d35_c_f_ptr(c, n, s) bind(C)
    type(c_ptr), value :: c
    integer(c_int), value :: n
    character(kind=c_char), intent(out) :: s(*)
    character(len=n) :: f
    f = repeat('#', n)
    call c_f_string(c, f)
    call back(f, s)
  end subroutine
  subroutine d35_c_f_chars(c, n, s) bind(C)
    character(kind=c_char), intent(in) :: c(*)
    integer(c_int), value :: n
    character(kind=c_char), intent(out) :: s(*)
    character(len=n) :: f
    f = repeat('#', n)
    call c_f_string(c, f)
    call back(f, s)
  end subroutine
  subroutine d35_f_c_ptr(s, n, c, m) bind(C)
    character(kind=c_char), intent(in) :: s(*)
    integer(c_int), value :: n, m
    type(c_ptr), value :: c
    if (m == -1) then
      call f_c_string(fs(s, n), c)
    else
      call f_c_string(fs(s, n), c, m)
    end if
  end subroutine
  subroutine d35_f_c_chars(s, n, c, m) bind(C)
    character(kind=c_char), intent(in) :: s(*)
    integer(c_int), value :: n, m
    character(kind=c_char), intent(inout) :: c(*)
    if (m == -1) then
      call f_c_string(fs(s, n), c)
    else
      call f_c_string(fs(s, n), c, m)
    end if
  end subroutine
  function d35_strlen(c) result(n) bind(C)
    type(c_ptr), value :: c
    integer(c_size_t) :: n
    n = c_strlen_safe(c)
  end function
  function d35_create(mid, nm, nd, dims, id, ni) result(p) bind(C)
    character(kind=c_char), intent(in) :: mid(*), id(*)
    integer(c_int), value :: nm, nd, ni
    integer(8), intent(in) :: dims(*)
    type(c_ptr) :: p
    type(DLiteInstance) :: inst
    inst = DLiteInstance(fs(mid, nm), nd, dims, fs(id, ni))
    p = inst%cinst
    if (inst%check() .neqv. c_associated(p)) stop 3
  end function
  function d35_load(drv, nd, loc, nl, opt, no, id, ni, mid, nm, ro) result(p) bind(C)
    character(kind=c_char), intent(in) :: drv(*), loc(*), opt(*), id(*), mid(*)
    integer(c_int), value :: nd, nl, no, ni, nm
    integer(c_int), intent(out) :: ro(*)
    type(c_ptr) :: p
    type(DLiteStorage) :: s
    type(DLiteInstance) :: inst
    s = DLiteStorage(fs(drv, nd), fs(loc, nl), fs(opt, no))
    p = c_null_ptr
    ro(1) = -1
    if (.not. c_associated(s%cptr)) return
    ro(1) = 0
    if (s%readonly) ro(1) = 1
    ro(2) = s%is_writable()
    if (nm > 0) then
      inst = DLiteInstance(s, fs(id, ni), fs(mid, nm))
    else
      inst = DLiteInstance(s, fs(id, ni))
    end if
    p = inst%cinst
    ro(3) = s%close()
  end function
  function d35_load_url(url, n) result(p) bind(C)
    character(kind=c_char), intent(in) :: url(*)
    integer(c_int), value :: n
    type(c_ptr) :: p
    type(DLiteInstance) :: inst
    inst = DLiteInstance(fs(url, n))
    p = inst%cinst
  end function
  function d35_save(p, drv, nd, loc, nl, opt, no) result(st) bind(C)
    character(kind=c_char), intent(in) :: drv(*), loc(*), opt(*)
    integer(c_int), value :: nd, nl, no
    integer(c_int) :: st
    type(c_ptr), value :: p
    type(DLiteStorage) :: s
    type(DLiteInstance) :: inst
    inst%cinst = p
    s = DLiteStorage(fs(drv, nd), fs(loc, nl), fs(opt, no))
    st = -99
    if (.not. c_associated(s%cptr)) return
    st = inst%save(s)
    if (s%close() /= 0) st = -98
  end function
  function d35_save_url(p, url, n) result(st) bind(C)
    character(kind=c_char), intent(in) :: url(*)
    integer(c_int), value :: n
    integer(c_int) :: st
    type(c_ptr), value :: p
    type(DLiteInstance) :: inst
    inst%cinst = p
    st = inst%save_url(fs(url, n))
  end function
  subroutine d35_ids(p, uuid, uri) bind(C)
    type(c_ptr), value :: p
    character(kind=c_char), intent(out) :: uuid(*), uri(*)
    type(DLiteInstance) :: inst
    inst%cinst = p
    call back(inst%get_uuid(), uuid)
    call back(inst%get_uri(), uri)
  end subroutine
  function d35_dim(p, name, n) result(d) bind(C)
    type(c_ptr), value :: p
    character(kind=c_char), intent(in) :: name(*)
    integer(c_int), value :: n
    integer(8) :: d
    type(DLiteInstance) :: inst
    inst%cinst = p
    d = inst%get_dimension_size(fs(name, n))
  end function
  function d35_dimi(p, i) result(d) bind(C)
    type(c_ptr), value :: p
    integer(c_int), value :: i
    integer(c_int) :: d
    type(DLiteInstance) :: inst
    inst%cinst = p
    d = inst%get_dimension_size_by_index(i)
  end function
  function d35_prop(p, name, n) result(q) bind(C)
    type(c_ptr), value :: p
    character(kind=c_char), intent(in) :: name(*)
    integer(c_int), value :: n
    type(c_ptr) :: q
    type(DLiteInstance) :: inst
    inst%cinst = p
    q = inst%get_property(fs(name, n))
  end function
  function d35_propi(p, i) result(q) bind(C)
    type(c_ptr), value :: p
    integer(c_int), value :: i
    type(c_ptr) :: q
    type(DLiteInstance) :: inst
    inst%cinst = p
    q = inst%get_property_by_index(i)
  end function
  function d35_propdims(p, i, rev, d) result(n) bind(C)
    type(c_ptr), value :: p
    integer(c_int), value :: i, rev
    integer(8), intent(out) :: d(*)
    integer(c_int) :: n
    integer(8), allocatable :: shp(:)
    type(DLiteInstance) :: inst
    inst%cinst = p
    if (rev < 0) then
      call inst%get_property_dims_by_index(i, shp)
    else
      call inst%get_property_dims_by_index(i, shp, rev == 1)
    end if
    n = size(shp)
    d(1:n) = shp
  end function
  function d35_destroy(p, q) result(n) bind(C)
    type(c_ptr), value :: p
    type(c_ptr), intent(out) :: q
    integer(c_int) :: n
    type(DLiteInstance) :: inst
    inst%cinst = p
    n = inst%destroy()
    q = inst%cinst
  end function
  subroutine d35_setstr(p, i, s, n) bind(C)
    type(c_ptr), value :: p
    integer(c_int), value :: i, n
    character(kind=c_char), intent(in) :: s(*)
    type(DLiteInstance) :: inst
    inst%cinst = p
    call dlite_instance_set_property_value(inst, i, fs(s, n))
  end subroutine
  subroutine d35_setstrs(p, i, s, n, m) bind(C)
    type(c_ptr), value :: p
    integer(c_int), value :: i, n, m
    character(kind=c_char), intent(in) :: s(*)
    character(len=n) :: a(m)
    type(DLiteInstance) :: inst
    integer :: k
    inst%cinst = p
    do k = 1, m
      a(k) = fs(s((k-1)*n+1), n)
    end do
    call dlite_instance_set_property_value(inst, i, a)
  end subroutine
  function d35_model(uri, nu, mid, nm) result(p) bind(C)
    character(kind=c_char), intent(in) :: uri(*), mid(*)
    integer(c_int), value :: nu, nm
    type(c_ptr) :: p
    type(DLiteMetaModel) :: m
    m = DLiteMetaModel(fs(uri, nu), fs(mid, nm))
    p = m%cptr
  end function
  function d35_add(p, what, a, na, b, nb, c, nc, d, nd) result(st) bind(C)
    type(c_ptr), value :: p
    integer(c_int), value :: what, na, nb, nc, nd
    character(kind=c_char), intent(in) :: a(*), b(*), c(*), d(*)
    integer(c_int) :: st
    type(DLiteMetaModel) :: m
    m%cptr = p
    select case (what)
    case (0)
      st = m%add_string(fs(a, na), fs(b, nb))
    case (1)
      st = m%add_dimension(fs(a, na), fs(b, nb))
    case (2)
      st = m%add_property(fs(a, na), fs(b, nb), fs(c, nc), fs(d, nd))
    case default
      st = m%add_property_dim(fs(a, na), fs(b, nb))
    end select
  end function
  function d35_meta(p) result(q) bind(C)
    type(c_ptr), value :: p
    type(c_ptr) :: q
    type(DLiteMetaModel) :: m
    type(DLiteMeta) :: meta
    m%cptr = p
    meta = DLiteMeta(m)
    q = meta%cptr
    if (meta%check() .neqv. c_associated(q)) stop 3
    call m%destroy()
    if (c_associated(m%cptr)) stop 4
  end function
  function d35_has(p, what, a, na) result(r) bind(C)
    type(c_ptr), value :: p
    integer(c_int), value :: what, na
    character(kind=c_char), intent(in) :: a(*)
    integer(c_int) :: r
    logical :: l
    type(DLiteMeta) :: meta
    meta%cptr = p
    if (what == 0) then
      l = meta%has_dimension(fs(a, na))
    else
      l = meta%has_property(fs(a, na))
    end if
    r = merge(1, 0, l)
  end function
  function d35_metadestroy(p, q) result(n) bind(C)
    type(c_ptr), value :: p
    type(c_ptr), intent(out) :: q
    integer(c_int) :: n
    type(DLiteMeta) :: meta
    meta%cptr = p
    n = meta%destroy()
    q = meta%cptr
  end function
end module
)F";

// ---------------------------------------------------------------- building Fortran
#define GF "gfortran -g -O0 -w -fPIC -fsanitize=address -fno-omit-frame-pointer "
#define LIBS " -L" VERIF_BUILD_ROOT "/src -L" VERIF_BUILD_ROOT "/src/utils -ldlite -ldlite-utils"
static S fdir;   // where the modules of the bindings are
static void *flib;
static void fbuild() {
  if (flib) return;
  fdir = top() + "/d35-lib"; mkdir(fdir.c_str(), 0700);
  int lk = open((fdir + "/lock").c_str(), O_CREAT | O_RDWR, 0600); flock(lk, LOCK_EX);
  S so = fdir + "/libd35.so", stamp = fdir + "/done", log = fdir + "/log";
  if (readfile(stamp) != VERIF_REPO) {
    writefile(fdir + "/wrap.f90", WRAP);
    int r = system(("cd " + fdir + " && " GF " -shared " VERIF_REPO "/bindings/fortran/c_interface.f90 " VERIF_REPO "/bindings/fortran/dlite.f90 wrap.f90 -o libd35.so" LIBS " > log 2>&1").c_str());
    if (r) { close(lk); fail("the Fortran bindings do not compile:\n%s", readfile(log).substr(0, 2000).c_str()); }
    writefile(stamp, VERIF_REPO);
  }
  close(lk);
  flib = dlopen(so.c_str(), RTLD_NOW | RTLD_GLOBAL); if (!flib) fail("cannot load the Fortran bindings: %s", dlerror());
}
template <class F> static F *sym(const char *name, void *lib = NULL) { fbuild(); void *p = dlsym(lib ? lib : flib, name); if (!p) fail("no symbol %s", name); return (F *)p; }
#define FN(name, type) static auto name = sym<type>(#name)

// a Fortran string in memory of exactly its size
struct FS {
  char *p; int n;
  FS(const S &s) : n((int)s.size()) { p = (char *)malloc(n ? n : 1); memcpy(p, s.data(), n); }
  FS(Gen &g, const S &s) : FS(s + S(g.flip() ? 0 : g.range(0, 9), ' ')) {}
  FS(const FS &) = delete;
  ~FS() { free(p); }
};
static S rtrim(S s) { while (s.size() && s.back() == ' ') s.pop_back(); return s; }
static S ftext(Gen &g, int n) { S s; int k = g.range(0, n); for (int i = 0; i < k; i++) s += g.chance(1, 5) ? ' ' : (char)g.range(33, 126); return rtrim(s); }
static S pad(S s, size_t n) { s = s.substr(0, n); s.resize(n, ' '); return s; }

PBT(D35, strings, 20000, 1000000, 256, "conversion of strings between C and Fortran for any lengths, in memory of exactly the needed size; non-trivial: lengths differ by at most one") {
  FN(d35_c_f_ptr, void(const char *, int, char *)); FN(d35_c_f_chars, void(const char *, int, char *));
  FN(d35_f_c_ptr, void(const char *, int, char *, int)); FN(d35_f_c_chars, void(const char *, int, char *, int)); FN(d35_strlen, size_t(const char *));
  S s; int k = g.size(40); for (int i = 0; i < k; i++) s += (char)(g.chance(1, 5) ? ' ' : g.range(1, 255));
  int n = g.flip() ? std::max(0, (int)s.size() + g.range(-2, 2)) : g.range(0, 50); bool chars = g.flip();
  g.log("%s %d %d", show(s).c_str(), n, chars); if (std::abs(n - (int)s.size()) <= 1) g.nontrivial();
  bool nul = !chars && g.chance(1, 20); char *c = nul ? NULL : strdup(s.c_str()); if (nul) s = "";
  REQUIRE(d35_strlen(c) == s.size(), "length of %s is %zu", show(s).c_str(), d35_strlen(c));
  char *f = (char *)malloc(n ? n : 1); (chars ? d35_c_f_chars : d35_c_f_ptr)(c, n, f);
  REQUIRE(S(f, n) == pad(s, n), "%s is %s as Fortran string of length %d", show(s).c_str(), show(S(f, n)).c_str(), n);
  free(c); free(f);
  // and back, with or without a limit
  S t = pad(s, n), want = rtrim(t); int m = g.chance(1, 3) ? -1 : g.range(0, n + 3);
  if (m == 0) want = ""; else if (m > 0) want = want.substr(0, m - 1);
  char *b = (char *)malloc(want.size() + 2); memset(b, '#', want.size() + 2); size_t room = want.size() + (m != 0);
  char *e = (char *)malloc(room ? room : 1); memset(e, '#', room ? room : 1); FS ft(t);
  (chars ? d35_f_c_chars : d35_f_c_ptr)(ft.p, ft.n, e, m);
  if (m) REQUIRE(S(e) == want, "%s with limit %d is %s in C", show(t).c_str(), m, show(e).c_str()); else REQUIRE(e[0] == '#', "written in spite of no room");
  free(b); free(e);
}

// types for which Fortran has a counterpart
static Ty ftype(Gen &g) {
  switch (g.below(10)) {
  case 0: return {dliteBool, 1};
  case 1: case 2: return {dliteInt, g.pick<size_t>({4, 8, 1, 2})};
  case 3: return {dliteUInt, g.pick<size_t>({4, 8, 1, 2})};
  case 4: case 5: case 6: return {dliteFloat, g.pick<size_t>({8, 4})};
  default: return {dliteFixString, (size_t)g.pick<int>({2, 3, 5, 8, 21, 46})};
  }
}
static S lower(S s) { for (auto &c : s) c = tolower(c); return s; }
static MetaM gen_fmeta(Gen &g) {
  MetaM m; m.name = "E" + g.ident(8); m.version = fmt("0.%d", metacount++); m.ns = "http://onto-ns.com/meta"; m.uri = m.ns + "/" + m.version + "/" + m.name;
  auto txt = [&](int n) { S s; int k = g.range(0, n); for (int i = 0; i < k; i++) s += "abcXYZ 0123.,;:()/%*+-_<>=!?&#"[g.below(30)]; return rtrim(s); };
  m.descr = Elem("m" + txt(30));
  std::set<S> used = {"instance", "uuid", "check", "writetourl", "writetosource", "writetostorage", "readfrominstance", "writetoinstance", "destroy", lower(m.name)};
  auto name = [&](int n) { S s = g.ident(n), b; while (s.size() && (s[0] == '_' || isdigit((unsigned char)s[0]))) s = s.substr(1); if (s.empty()) s = "q"; b = s; int k = 0; while (used.count(lower(s))) s = b + fmt("%d", k++); used.insert(lower(s)); return s; };
  int nd = g.range(0, 3), np = g.range(1, 5); std::vector<S> dn;
  for (int i = 0; i < nd; i++) { m.dims.push_back({name(5), Elem(txt(15))}); dn.push_back(m.dims.back().first); }
  for (int i = 0; i < np; i++) {
    PropM p; p.name = name(9); p.t = ftype(g); p.unit = Elem(txt(5)); p.descr = Elem(txt(15));
    int n = dn.empty() ? 0 : p.t.t == dliteFixString ? g.pick<int>({0, 1, 1}) : g.pick<int>({0, 1, 1, 2, 2, 3});
    for (int k = 0; k < n; k++) { DimExpr e = gen_dimexpr(g, dn); p.shape.push_back(e); }
    m.props.push_back(p);
  }
  return m;
}
static Elem fvalue(Gen &g, Ty t) {
  if (t.t == dliteFixString) { S s = ftext(g, t.n - 1); if (g.chance(1, 4)) s = S(t.n - 1, 'x'); return Elem(s); }
  return gen_elem(g, t, true);
}
static void put_all(DLiteInstance *inst, InstM &x) { for (size_t j = 0; j < x.vals.size(); j++) { PropBuf b(x, j, x.vals[j], [](const S &) { return (DLiteInstance *)NULL; }); REQUIRE(!dlite_instance_set_property_by_index(inst, j, b.p), "set"); } }

PBT(D35, api, 4000, 200000, 64, "metadata built and instances created, read, changed, saved and loaded through the Fortran interface, compared with the C library; non-trivial: the instance has arrays or dimensions") {
  FN(d35_create, DLiteInstance *(const char *, int, int, const long long *, const char *, int));
  FN(d35_load, DLiteInstance *(const char *, int, const char *, int, const char *, int, const char *, int, const char *, int, int *));
  FN(d35_load_url, DLiteInstance *(const char *, int)); FN(d35_save, int(DLiteInstance *, const char *, int, const char *, int, const char *, int)); FN(d35_save_url, int(DLiteInstance *, const char *, int));
  FN(d35_ids, void(DLiteInstance *, char *, char *)); FN(d35_dim, long long(DLiteInstance *, const char *, int)); FN(d35_dimi, int(DLiteInstance *, int));
  FN(d35_prop, void *(DLiteInstance *, const char *, int)); FN(d35_propi, void *(DLiteInstance *, int)); FN(d35_propdims, int(DLiteInstance *, int, int, long long *));
  FN(d35_destroy, int(DLiteInstance *, void **)); FN(d35_setstr, void(DLiteInstance *, int, const char *, int)); FN(d35_setstrs, void(DLiteInstance *, int, const char *, int, int));
  FN(d35_model, void *(const char *, int, const char *, int)); FN(d35_add, int(void *, int, const char *, int, const char *, int, const char *, int, const char *, int));
  FN(d35_meta, DLiteMeta *(void *)); FN(d35_has, int(DLiteMeta *, int, const char *, int)); FN(d35_metadestroy, int(DLiteMeta *, void **));
  MetaM m = gen_fmeta(g); g.log("%s", showmeta(m).c_str());
  // the metadata
  { FS u(g, m.uri), mm(g, DLITE_ENTITY_SCHEMA), none("");
    void *model = d35_model(u.p, u.n, mm.p, mm.n); REQUIRE(model, "no metadata model: %s", dlite_errmsg());
    auto add = [&](int what, const S &a, const S &b, const S &c = "", const S &d = "") { FS A(g, a), B(g, b), C(g, c), D(g, d); REQUIRE(!d35_add(model, what, A.p, A.n, B.p, B.n, C.p, C.n, D.p, D.n), "adding %s: %s", a.c_str(), dlite_errmsg()); };
    m.descr = Elem(rtrim(m.descr.b)); add(0, "description", m.descr.b);
    for (auto &d : m.dims) { d.second = Elem(rtrim(d.second.b)); add(1, d.first, d.second.b); }
    for (auto &p : m.props) { p.unit = Elem(rtrim(p.unit.b)); p.descr = Elem(rtrim(p.descr.b)); add(2, p.name, tyname(p.t), p.unit.b, p.descr.b); for (auto &e : p.shape) add(3, p.name, e.text); }
    m.meta = d35_meta(model); REQUIRE(m.meta, "no metadata: %s", dlite_errmsg());
    check_meta(m.meta, m, "metadata made with Fortran");
    S q = g.flip() ? g.ident(4) : g.flip() && m.dims.size() ? m.dims[g.below(m.dims.size())].first : m.props[g.below(m.props.size())].name; FS Q(g, q);
    bool hd = false, hp = false; for (auto &d : m.dims) hd |= d.first == q; for (auto &p : m.props) hp |= p.name == q;
    REQUIRE(d35_has(m.meta, 0, Q.p, Q.n) == hd && d35_has(m.meta, 1, Q.p, Q.n) == hp, "has %s: %d %d", q.c_str(), d35_has(m.meta, 0, Q.p, Q.n), d35_has(m.meta, 1, Q.p, Q.n)); dlite_errclr();
  }
  // an instance
  InstM x; x.m = &m; std::vector<long long> ld; for (size_t i = 0; i < m.dims.size(); i++) { x.dims.push_back(g.range(0, 4)); ld.push_back(x.dims.back()); }
  if (dims_status(m, x.dims) != 1) throw Discard{};
  long long *ldp = (long long *)malloc(ld.size() * 8 + 1); memcpy(ldp, ld.data(), ld.size() * 8);
  S id; switch (g.below(4)) { case 0: { char u[40]; snprintf(u, sizeof u, "%08x-%04x-4%03x-8%03x-%08x%04x", (unsigned)g.i64(), (unsigned)g.below(65536), (unsigned)g.below(4096), (unsigned)g.below(4096), (unsigned)g.i64(), (unsigned)g.below(65536)); id = u; break; }
    case 1: id = fmt("http://data.org/f%d", metacount++); break; case 2: id = fmt("zz:%s-%d", g.ident(6).c_str(), metacount++); break; }
  if (!id.empty() && dlite_instance_has(id.c_str(), 0)) throw Discard{};
  FS M(g, m.uri), I(g, id); DLiteInstance *inst = d35_create(M.p, M.n, (int)ld.size(), ldp, I.p, I.n); free(ldp);
  REQUIRE(inst, "cannot create: %s", dlite_errmsg()); g.log("id %s", id.c_str());
  x.inst = inst; x.uuid = inst->uuid; x.uri = ostr(inst->uri); zero_vals(x);
  if (id.size()) { char u[40]; dlite_get_uuid(u, id.c_str()); REQUIRE(S(u) == inst->uuid, "the instance created with id %s is %s", id.c_str(), inst->uuid); }
  REQUIRE(inst->_refcount == 1, "reference count %d", inst->_refcount);
  for (size_t j = 0; j < m.props.size(); j++) {
    auto &p = m.props[j]; for (auto &e : x.vals[j]) e = fvalue(g, p.t);
    if (p.shape.size()) g.nontrivial();
    void *q = d35_propi(inst, (int)j); FS nm(g, p.name);
    REQUIRE(q == dlite_instance_get_property_by_index(inst, j) && d35_prop(inst, nm.p, nm.n) == q, "another address of %s", p.name.c_str()); dlite_errclr();
    std::vector<size_t> sh; shape_of(m, j, x.dims, sh); int rev = g.range(-1, 1);
    long long *dd = (long long *)malloc(sh.size() * 8 + 1); int n = d35_propdims(inst, (int)j, rev, dd); REQUIRE(n == (int)sh.size(), "%s has %d dimensions", p.name.c_str(), n);
    for (int k = 0; k < n; k++) REQUIRE((size_t)dd[k] == sh[rev == 1 ? n - 1 - k : k], "dimension %d of %s is %lld (reverse: %d)", k, p.name.c_str(), dd[k], rev);
    free(dd);
    if (p.t.t == dliteFixString && (p.shape.empty() || g.chance(3, 4))) {
      if (p.shape.empty()) { FS v(g, x.vals[j][0].b); d35_setstr(inst, (int)j, v.p, v.n); }
      else { S all; for (auto &e : x.vals[j]) all += pad(e.b, p.t.n - 1); FS v(all); d35_setstrs(inst, (int)j, v.p, (int)p.t.n - 1, (int)x.vals[j].size()); }
      g.label("strings set");
    } else { PropBuf b(x, j, x.vals[j], [](const S &) { return (DLiteInstance *)NULL; }); REQUIRE(!dlite_instance_set_property_by_index(inst, j, b.p), "set"); }
  }
  check_inst(x, "after setting");
  for (size_t i = 0; i < m.dims.size(); i++) { FS nm(g, m.dims[i].first); REQUIRE(d35_dim(inst, nm.p, nm.n) == x.dims[i] && d35_dimi(inst, (int)i) == x.dims[i], "size of dimension %s", m.dims[i].first.c_str()); g.nontrivial(); }
  { char *u = (char *)malloc(36), *r = (char *)malloc(256); d35_ids(inst, u, r); REQUIRE(S(u, 36) == x.uuid && S(r, 256) == pad(x.uri.null ? "" : x.uri.b, 256), "identity %s %s", S(u, 36).c_str(), rtrim(S(r, 256)).c_str()); free(u); free(r); }
  // saved and loaded
  S file = top() + fmt("/d35-%d.json", (int)getpid()); unlink(file.c_str());
  FS drv(g, "json"), loc(g, file), wopt(g, "mode=w"), ropt(g, "mode=r"), url(g, "json://" + file), uurl(g, "json://" + file + "?mode=r#" + x.uuid), uid(g, x.uuid), badid(g, "no-such-id");
  bool viaurl = g.flip(); FS wurl(g, "json://" + file + "?mode=w");
  REQUIRE((viaurl ? d35_save_url(inst, wurl.p, wurl.n) : d35_save(inst, drv.p, drv.n, loc.p, loc.n, wopt.p, wopt.n)) == 0, "saving: %s", dlite_errmsg());
  bool gone = g.chance(3, 4); void *left = NULL;
  if (gone) { int n = d35_destroy(inst, &left); REQUIRE(n == 0 && !left, "destroy returns %d", n); REQUIRE(!dlite_instance_has(x.uuid.c_str(), 0), "still there"); x.inst = NULL; dlite_errclr(); }
  int ro[3] = {0, 0, 0}; DLiteInstance *in2; int how = g.below(3); FS M2(g, how == 2 ? m.uri : ""), none("");
  if (how == 0) in2 = d35_load_url(uurl.p, uurl.n);
  else { in2 = d35_load(drv.p, drv.n, loc.p, loc.n, ropt.p, ropt.n, uid.p, uid.n, how == 2 ? M2.p : none.p, how == 2 ? M2.n : 0, ro); REQUIRE(ro[0] == 1 && ro[1] == 0 && ro[2] == 0, "storage opened for reading: readonly %d writable %d close %d", ro[0], ro[1], ro[2]); }
  g.label(how == 0 ? "by url" : how == 1 ? "from storage" : "casted");
  REQUIRE(in2 && x.uuid == in2->uuid, "loading: %s", dlite_errmsg());
  REQUIRE(gone || in2 == inst, "another instance");
  x.inst = in2; check_inst(x, "after loading");
  // refused
  REQUIRE(!d35_load(drv.p, drv.n, loc.p, loc.n, ropt.p, ropt.n, badid.p, badid.n, none.p, 0, ro) && take_error(), "loaded an unknown id");
  { FS nofile(g, top() + "/no/such/file.json"); REQUIRE(!d35_load(drv.p, drv.n, nofile.p, nofile.n, ropt.p, ropt.n, uid.p, uid.n, none.p, 0, ro) && ro[0] == -1 && take_error(), "opened a missing file"); }
  if (!gone) { REQUIRE(in2->_refcount == 2, "reference count %d", in2->_refcount); int n = d35_destroy(in2, &left); REQUIRE(n == 1 && left == in2, "destroy returns %d", n); }
  REQUIRE(d35_destroy(in2, &left) == 0 && !left, "destroy");
  unlink(file.c_str());
  // metadata is kept by the store until its last reference is released
  int n = ((DLiteInstance *)m.meta)->_refcount; REQUIRE(d35_metadestroy(m.meta, &left) == n - 1 && (n > 1 ? left == m.meta : !left), "metadata count");
  dlite_errclr();
}

// ---------------------------------------------------------------- generated modules
// driver of the generated module of entity number k
static S driver(const MetaM &m, int k) {
  S T = "T" + m.name, s = fmt("module d35m%d\n  use iso_c_binding\n  use DLite\n  use %s\n  implicit none\ncontains\n", k, m.name.c_str());
  s += "  function fs(s, n) result(f)\n    integer(c_int), value :: n\n    character(kind=c_char), intent(in) :: s(*)\n    character(len=n) :: f\n    integer :: i\n    do i = 1, n\n      f(i:i) = s(i)\n    end do\n  end function fs\n";
  // all members in order: dimensions and whole numbers to ib, floats to rb, characters to sb, arrays with the last index running fastest
  s += "  subroutine dump(zx, zi, zr, zs, zu)\n    type(" + T + ") :: zx\n    integer(8) :: zi(*)\n    real(8) :: zr(*)\n    character(kind=c_char) :: zs(*), zu(*)\n    integer(8) :: ni, nr, ns, za, zb, zc, ze\n    ni = 0\n    nr = 0\n    ns = 0\n";
  s += "    do za = 1, 36\n      zu(za) = zx%uuid(za:za)\n    end do\n";
  for (auto &d : m.dims) s += "    ni = ni + 1\n    zi(ni) = zx%" + d.first + "\n";
  for (auto &p : m.props) {
    S e = "zx%" + p.name, ind = "    "; size_t nd = p.shape.size(); static const char *v[] = {"za", "zb", "ze"};
    for (size_t i = 0; i < nd; i++) { s += "    ni = ni + 1\n    zi(ni) = size(" + e + fmt(", %zu)\n", i + 1); }
    for (size_t i = 0; i < nd; i++) { s += ind + "do " + v[i] + " = 1, size(" + e + fmt(", %zu)\n", i + 1); ind += "  "; }
    S el = nd == 0 ? e : nd == 1 ? e + "(za)" : nd == 2 ? e + "(za, zb)" : e + "(za, zb, ze)";
    if (p.t.t == dliteFixString) s += ind + fmt("do zc = 1, %zu\n", p.t.n - 1) + ind + "  zs(ns + zc) = " + el + "(zc:zc)\n" + ind + "end do\n" + ind + fmt("ns = ns + %zu\n", p.t.n - 1);
    else if (p.t.t == dliteFloat) s += ind + "nr = nr + 1\n" + ind + "zr(nr) = " + el + "\n";
    else if (p.t.t == dliteBool) s += ind + "ni = ni + 1\n" + ind + "zi(ni) = merge(1, 0, " + el + ")\n";
    else s += ind + "ni = ni + 1\n" + ind + "zi(ni) = " + el + "\n";
    for (size_t i = 0; i < nd; i++) { ind = ind.substr(2); s += ind + "end do\n"; }
  }
  s += "  end subroutine dump\n";
  S args; for (size_t i = 0; i < m.dims.size(); i++) args += fmt("%szd(%zu)", i ? ", " : "", i + 1); S args4; for (size_t i = 0; i < m.dims.size(); i++) args4 += fmt("%sint(zd(%zu), 4)", i ? ", " : "", i + 1);
  // 0: read from an instance, 1: from a URL, 2: from a source
  s += fmt("  function d35_read%d(how, zp, a, na, b, nb, zi, zr, zs, zu) result(q) bind(C)\n", k) +
    "    integer(c_int), value :: how, na, nb\n    type(c_ptr), value :: zp\n    type(c_ptr) :: q\n    character(kind=c_char) :: a(*), b(*), zs(*), zu(*)\n    integer(8) :: zi(*)\n    real(8) :: zr(*)\n    type(" + T + ") :: zx\n    type(DLiteInstance) :: inst\n"
    "    select case (how)\n    case (0)\n      inst%cinst = zp\n      call zx%readFromInstance(inst)\n    case (1)\n      zx = " + T + "(fs(a, na))\n    case default\n      zx = " + T + "('json', fs(a, na), 'mode=r', fs(b, nb))\n    end select\n"
    "    q = zx%instance%cinst\n    if (.not. zx%check()) then\n      q = c_null_ptr\n      return\n    end if\n    call dump(zx, zi, zr, zs, zu)\n  end function\n";
  // a new object with the values of an instance, written to: 0 a new instance, 1 a URL, 2 a source, 3 another instance
  s += fmt("  function d35_write%d(how, zp, zp2, zd, a, na, st) result(q) bind(C)\n", k) +
    "    integer(c_int), value :: how, na\n    type(c_ptr), value :: zp, zp2\n    type(c_ptr) :: q\n    integer(c_int) :: st\n    character(kind=c_char) :: a(*)\n    integer(8) :: zd(*)\n    type(" + T + ") :: zx, zy\n    type(DLiteInstance) :: inst\n"
    "    inst%cinst = zp\n    call zx%readFromInstance(inst)\n    st = 0\n    if (how == 3) then\n      inst%cinst = zp2\n      call zy%readFromInstance(inst)\n    else if (mod(na, 2) == 0) then\n      zy = " + T + "(" + args + ")\n    else\n      zy = " + T + "(" + args4 + ")\n    end if\n";
  if (m.dims.empty()) s.replace(s.rfind("mod(na, 2) == 0"), 15, ".true.");
  for (auto &p : m.props) s += "    zy%" + p.name + " = zx%" + p.name + "\n";
  s += "    select case (how)\n    case (1)\n      st = zy%writeToURL(fs(a, na))\n    case (2)\n      st = zy%writeToSource('json', fs(a, na), 'mode=w')\n    case default\n      inst = zy%writeToInstance()\n    end select\n"
    "    q = zy%instance%cinst\n    if (how == 0 .or. how == 3) q = inst%cinst\n  end function\n";
  return s + "end module\n";
}

struct Bufs { std::vector<long long> i; std::vector<double> r; std::vector<char> s; char u[36]; Bufs() : i(4000), r(4000), s(100000) {} };
// what the members must be
static void check_dump(const Bufs &b, const InstM &x, const char *when) {
  size_t ni = 0, nr = 0, ns = 0; const MetaM &m = *x.m;
  REQUIRE(S(b.u, 36) == x.uuid, "%s: uuid is %s", when, S(b.u, 36).c_str());
  for (size_t i = 0; i < m.dims.size(); i++, ni++) REQUIRE(b.i[ni] == x.dims[i], "%s: dimension %s is %lld, expected %ld", when, m.dims[i].first.c_str(), b.i[ni], x.dims[i]);
  for (size_t j = 0; j < m.props.size(); j++) {
    auto &p = m.props[j]; std::vector<size_t> sh; shape_of(m, j, x.dims, sh);
    for (size_t d : sh) { REQUIRE(b.i[ni] == (long long)d, "%s: %s has size %lld, expected %zu", when, p.name.c_str(), b.i[ni], d); ni++; }
    for (size_t k = 0; k < x.vals[j].size(); k++) {
      const Elem &e = x.vals[j][k]; S got; bool ok;
      if (p.t.t == dliteFixString) { got = S(&b.s[ns], p.t.n - 1); ns += p.t.n - 1; ok = got == pad(e.b, p.t.n - 1); }
      else if (p.t.t == dliteFloat) { double v = b.r[nr++], w; if (p.t.n == 4) { float f; memcpy(&f, e.b.data(), 4); w = f; } else memcpy(&w, e.b.data(), 8); ok = v == w || (v != v && w != w); got = fmt("%g", v); }
      else { long long v = b.i[ni++]; ok = memcmp(&v, e.b.data(), p.t.n) == 0; got = fmt("%lld", v); }
      REQUIRE(ok, "%s: element %zu of %s is %s, expected %s", when, k, p.name.c_str(), show(got).c_str(), elemstr(e, p.t).c_str());
    }
  }
}

static int fcount;
PBT(D35, modules, 96, 4000, 2, "Fortran modules generated from four random entities are compiled and used to read, create, change, save and load instances; non-trivial: always") {
  fbuild();
  static S templ; if (templ.empty()) templ = readfile(VERIF_REPO "/tools/templates/fortran-module.txt");
  S dir = top() + fmt("/d35-%d-%d", (int)getpid(), fcount++); mkdir(dir.c_str(), 0700); g.nontrivial();
  std::vector<MetaM> ms; S files; const int N = 4;
  for (int k = 0; k < N; k++) {
    ms.push_back(gen_fmeta(g)); MetaM &m = ms.back(); m.meta = create_meta(m); REQUIRE(m.meta, "cannot create metadata"); g.log("%s", showmeta(m).c_str());
    char *c = dlite_codegen(templ.c_str(), (DLiteInstance *)m.meta, NULL); REQUIRE(c, "no module for %s: %s", showmeta(m).c_str(), dlite_errmsg());
    for (int o = 0; o < k; o++) if (lower(ms[o].name) == lower(m.name)) { free(c); system(("/bin/rm -rf -- '" + dir + "'").c_str()); throw Discard{}; }
    writefile(dir + fmt("/m%d.f90", k), S(c) + "\n" + driver(m, k)); free(c); files += fmt(" m%d.f90", k);
    // the module has to make the metadata itself
    if (g.flip()) { dlite_meta_decref(m.meta); dlite_meta_decref(m.meta); m.meta = NULL; REQUIRE(!dlite_instance_has(m.uri.c_str(), 0), "metadata is still there"); dlite_errclr(); }
  }
  int r = system(("cd " + dir + " && " GF " -shared -I " + fdir + files + " -o m.so" LIBS " > log 2>&1").c_str());
  if (r) { S e = readfile(dir + "/log"); g.log("%s", e.c_str()); system(("/bin/rm -rf -- '" + dir + "'").c_str()); fail("the generated module does not compile:\n%s", e.substr(0, 1500).c_str()); }
  void *lib = dlopen((dir + "/m.so").c_str(), RTLD_NOW | RTLD_LOCAL); S de = lib ? "" : dlerror();
  for (auto f : {"/m.so"}) (void)f;
  system(("/bin/rm -rf -- '" + dir + "'").c_str());
  REQUIRE(lib, "cannot load the module: %s", de.c_str());
  for (int k = 0; k < N; k++) {
    MetaM &m = ms[k]; auto rd = sym<DLiteInstance *(int, DLiteInstance *, const char *, int, const char *, int, long long *, double *, char *, char *)>(fmt("d35_read%d", k).c_str(), lib);
    auto wr = sym<DLiteInstance *(int, DLiteInstance *, DLiteInstance *, const long long *, const char *, int, int *)>(fmt("d35_write%d", k).c_str(), lib);
    S file = top() + fmt("/d35-%d.json", (int)getpid()), url = "json://" + file; Bufs b; int st;
    if (!m.meta) {   // reading anything creates the metadata
      S nurl = "json://" + top() + "/no-such-file.json?mode=r"; REQUIRE(!rd(1, NULL, nurl.c_str(), (int)nurl.size(), "", 0, b.i.data(), b.r.data(), b.s.data(), b.u), "read a missing file"); take_error();
      m.meta = (DLiteMeta *)dlite_instance_has(m.uri.c_str(), 0); REQUIRE(m.meta, "the module does not create its metadata: %s", dlite_errmsg());
      check_meta(m.meta, m, "metadata made by the module"); g.label("metadata from the module");
    }
    for (int round = 0; round < 3; round++) {
      InstM x, y; x.m = y.m = &m; std::vector<long long> ld; for (size_t i = 0; i < m.dims.size(); i++) { x.dims.push_back(g.range(0, 4)); ld.push_back(x.dims.back()); } ld.push_back(0);
      y.dims = x.dims; if (dims_status(m, x.dims) != 1) continue;
      g.log("entity %d round %d", k, round); for (auto d : x.dims) g.log("  dim %ld", d);
      for (InstM *q : {&x, &y}) { q->inst = create_inst(m, q->dims, NULL); REQUIRE(q->inst, "create"); q->uuid = q->inst->uuid; zero_vals(*q); for (size_t j = 0; j < m.props.size(); j++) for (auto &e : q->vals[j]) e = fvalue(g, m.props[j].t); put_all(q->inst, *q); }
      REQUIRE(rd(0, x.inst, "", 0, "", 0, b.i.data(), b.r.data(), b.s.data(), b.u) == x.inst, "reading an instance");
      check_dump(b, x, "read from an instance"); check_inst(x, "after reading");
      int how = g.below(4); unlink(file.c_str()); S a = how == 1 ? url + "?mode=w" : file; if (g.flip()) a += " ";
      DLiteInstance *q = wr(how, x.inst, y.inst, ld.data(), a.c_str(), (int)a.size(), &st);
      REQUIRE(q && st == 0, "writing (%d) gives %d: %s", how, st, dlite_errmsg()); static const char *hl[] = {"new instance", "URL", "source", "other instance"}; g.label(hl[how]);
      if (how == 3) { REQUIRE(q == y.inst, "written to a new instance"); y.vals = x.vals; check_inst(y, "after writing to it"); }
      else {
        REQUIRE(q != x.inst && q->meta == m.meta, "not a new instance"); InstM z = x; z.inst = q; z.uuid = q->uuid; check_inst(z, "the new instance");
        if (how) {   // read again by the module after the instance is gone
          REQUIRE(q->_refcount == 1, "reference count of the written instance is %d", q->_refcount);
          dlite_instance_decref(q); S u2 = url + "?mode=r#" + z.uuid; bool u = g.flip(); S aa = u ? u2 : file;
          q = rd(u ? 1 : 2, NULL, aa.c_str(), (int)aa.size(), z.uuid.c_str(), 36, b.i.data(), b.r.data(), b.s.data(), b.u); REQUIRE(q, "cannot read from %s: %s", aa.c_str(), dlite_errmsg());
          z.inst = q; check_dump(b, z, "read from the file"); check_inst(z, "loaded");
        }
        dlite_instance_decref(q);
      }
      check_inst(x, "the original"); REQUIRE(x.inst->_refcount == 1 && y.inst->_refcount == 1, "reference counts %d %d", x.inst->_refcount, y.inst->_refcount);
      dlite_instance_decref(x.inst); dlite_instance_decref(y.inst); unlink(file.c_str());
    }
  }
}

PBT_KNOWN(D35, descr, "the Fortran module generated from an entity with an apostrophe (or with a line break or very long text) in a description does not compile: descriptions are copied into character constants as they are") {
  (void)g; fbuild(); MetaM m; m.name = "Eapostrophe"; m.version = "0.1"; m.ns = "http://onto-ns.com/meta"; m.uri = m.ns + "/0.1/Eapostrophe"; m.descr = Elem(S("")); PropM p; p.name = "n"; p.t = {dliteInt, 4}; p.descr = Elem(S("The person's number")); m.props.push_back(p);
  m.meta = create_meta(m); char *c = dlite_codegen(readfile(VERIF_REPO "/tools/templates/fortran-module.txt").c_str(), (DLiteInstance *)m.meta, NULL);
  S dir = top() + fmt("/d35-k%d", (int)getpid()); mkdir(dir.c_str(), 0700); writefile(dir + "/m.f90", c ? c : ""); bool made = c != NULL; free(c);
  int r = system(("cd " + dir + " && " GF " -c -I " + fdir + " m.f90 > log 2>&1").c_str());
  system(("/bin/rm -rf -- '" + dir + "'").c_str()); dlite_meta_decref(m.meta); dlite_meta_decref(m.meta);
  return made && r != 0;
}

static void init() { dlite_err_set_stream(NULL); }
int main(int argc, char **argv) { child_init = init; return pbt::run_main(argc, argv); }
