// pbt.hpp -- small property-based testing engine for C libraries that may
// crash.  Every random decision is a bounded integer drawn from one choice
// sequence; the sequence of a failing case is shrunk as a single value and is
// the replay file.  Cases run in forked children (small batches), so crashes,
// failed assertions, sanitizer reports and endless loops are failures of one
// case and not of the run.
#pragma once
#include <cinttypes>
#include <climits>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <exception>
#include <algorithm>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt {

typedef uint64_t u64;

static const size_t MAXCHOICES = 1 << 18;
static const size_t LOGMAX = 1 << 16;
static const size_t MAXLABELS = 160;
static const size_t MAXBATCH = 4096;

struct Label { char name[56]; u64 n; };

struct Shm {
  volatile u64 ndone, cur, nnt;
  volatile int failed, finished, nontrivial;
  volatile size_t nchoices;
  u64 choices[MAXCHOICES];
  size_t loglen;
  char log[LOGMAX];
  char msg[8192];
  u64 nt_hash[MAXBATCH];
  Label labels[MAXLABELS];
  char sample[8192];
};

struct Failure : std::exception {
  std::string msg;
  explicit Failure(const std::string &m) : msg(m) {}
  const char *what() const noexcept override { return msg.c_str(); }
};
struct Discard {};

static inline std::string vfmt(const char *f, va_list ap) {
  va_list ap2; va_copy(ap2, ap);
  int n = vsnprintf(NULL, 0, f, ap2); va_end(ap2);
  std::string s(n < 0 ? 0 : n, '\0');
  if (n > 0) vsnprintf(&s[0], n + 1, f, ap);
  return s;
}
__attribute__((format(printf, 1, 2)))
static inline std::string fmt(const char *f, ...) {
  va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); return s;
}
// Printable form of arbitrary bytes
static inline std::string show(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c >= 32 && c < 127) r += c;
    else r += fmt("\\x%02x", c);
  }
  return r + "\"";
}
static inline std::string show(const char *s) { return s ? show(std::string(s)) : "NULL"; }

__attribute__((format(printf, 1, 2), noreturn))
static inline void fail(const char *f, ...) {
  va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap);
  throw Failure(s);
}

#define REQUIRE(cond, ...) do { if (!(cond)) pbt::fail(__VA_ARGS__); } while (0)

struct Rng {  // splitmix64
  u64 s;
  u64 next() {
    u64 z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
};

struct Gen {
  Shm *shm; Rng rng;
  const std::vector<u64> *replay;
  size_t pos;
  int tier;               // 0: quick, 1: thorough
  size_t casenum;
  Gen(Shm *sh, u64 seed, const std::vector<u64> *rep, int tier_)
    : shm(sh), rng{seed}, replay(rep), pos(0), tier(tier_), casenum(0) {}

  // uniform in 0..max (inclusive)
  u64 raw(u64 max) {
    u64 v;
    if (replay) {
      v = pos < replay->size() ? (*replay)[pos] : 0;
      if (v > max) v = max == UINT64_MAX ? v : v % (max + 1);
    } else {
      v = rng.next();
      if (max != UINT64_MAX) v %= (max + 1);
    }
    pos++;
    if (shm->nchoices < MAXCHOICES) shm->choices[shm->nchoices] = v;
    else fail("generator: choice sequence too long");
    shm->nchoices = shm->nchoices + 1;
    return v;
  }
  u64 below(u64 n) { return n <= 1 ? 0 : raw(n - 1); }          // 0..n-1
  int range(int lo, int hi) { return lo >= hi ? lo : lo + (int)raw((u64)((int64_t)hi - lo)); }
  bool chance(int num, int den) { return (int)below(den) >= den - num; }  // shrinks to false
  bool flip() { return below(2) == 1; }
  // small sizes are likely, large ones possible
  int size(int max) {
    if (max <= 0) return 0;
    switch (below(8)) {
    case 0: case 1: case 2: return range(0, std::min(max, 3));
    case 3: case 4: case 5: return range(0, std::min(max, 12));
    case 6: return range(0, std::min(max, 60));
    default: return range(0, max);
    }
  }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
  template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
  int weighted(std::initializer_list<int> w) {
    int tot = 0, i = 0; for (int x : w) tot += x;
    int v = (int)below(tot);
    for (int x : w) { if (v < x) return i; v -= x; i++; }
    return i - 1;
  }
  // integers with emphasis on boundaries
  int64_t i64() {
    switch (below(5)) {
    case 0: return range(0, 10);
    case 1: return range(-200, 200);
    case 2: { int b = range(0, 63); int64_t v = (int64_t)(1ULL << b); v += range(-2, 2); return flip() ? (int64_t)(0 - (u64)v) : v; }
    case 3: return pick<int64_t>({0, 1, -1, INT8_MAX, INT8_MIN, INT16_MAX, INT16_MIN, INT32_MAX, INT32_MIN, INT64_MAX, INT64_MIN, 255, 65535, 4294967295LL});
    default: return (int64_t)raw(UINT64_MAX);
    }
  }
  u64 u64v() { return (u64)i64(); }
  double f64(bool finite = true) {
    double d;
    switch (below(7)) {
    case 0: return range(-10, 10);
    case 1: return range(-100000, 100000) / 64.0;
    case 2: return pick<double>({0.0, 1.0, -1.0, 0.1, 1.0/3, 1e-5, 1e100, 1e-300, 5e-324, 1.7976931348623157e308, 2.2250738585072014e-308, 123456789.123456789, -0.5, 16777217.0, 9007199254740993.0});
    case 3: return (double)i64();
    case 4: return range(1, 9999999) * pow(10, range(-30, 30));
    case 5: { u64 b = raw(UINT64_MAX); memcpy(&d, &b, 8); break; }
    default: return range(0, 1000000) / 1000000.0;
    }
    if (finite && !std::isfinite(d)) return 1.5;
    return d;
  }
  // ---- strings
  std::string chars(const std::string &alphabet, int len) {
    std::string s; for (int i = 0; i < len; i++) s += alphabet[below(alphabet.size())]; return s;
  }
  std::string ident(int max = 12) {   // [a-zA-Z_][a-zA-Z0-9_]*
    const std::string a = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_", b = a + "0123456789";
    std::string s(1, a[below(a.size())]);
    int n = range(0, max - 1);
    return s + chars(b, n);
  }
  std::string bytes(int len) { std::string s; for (int i = 0; i < len; i++) s += (char)raw(255); return s; }
  // valid UTF-8 text without NUL, with awkward characters
  std::string text(int max = 40) {
    std::string s; int n = size(max);
    int mode = below(4);
    for (int i = 0; i < n; i++) {
      switch (mode == 0 ? 0 : (int)below(8)) {
      case 0: case 1: case 2: case 3: s += "abcdefghij XYZ0189._-"[below(21)]; break;
      case 4: s += "\"\\'/{}[],:;#?&=%<>@!|~`^$*+()"[below(29)]; break;
      case 5: s += "\t\n\r\b\f\x01\x1f\x7f "[below(9)]; break;
      case 6: s += utf8(pick<uint32_t>({0xe5, 0xf8, 0x3b1, 0x20ac, 0x4e2d, 0x1f600, 0xff, 0x100, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff})); break;
      default: s += (char)range(32, 126);
      }
    }
    return s;
  }
  static std::string utf8(uint32_t c) {
    std::string s;
    if (c < 0x80) s += (char)c;
    else if (c < 0x800) { s += (char)(0xc0 | c >> 6); s += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { s += (char)(0xe0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
    else { s += (char)(0xf0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
    return s;
  }
  // ---- bookkeeping
  __attribute__((format(printf, 2, 3)))
  void log(const char *f, ...) {
    va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap);
    s += "\n";
    size_t n = std::min(s.size(), LOGMAX - 1 - shm->loglen);
    memcpy(shm->log + shm->loglen, s.data(), n); shm->loglen += n; shm->log[shm->loglen] = 0;
  }
  void label(const std::string &name, u64 n = 1) {
    for (size_t i = 0; i < MAXLABELS; i++) {
      Label &l = shm->labels[i];
      if (!l.name[0]) strncpy(l.name, name.c_str(), sizeof(l.name) - 1);
      if (strncmp(l.name, name.c_str(), sizeof(l.name) - 1) == 0) { l.n += n; return; }
    }
  }
  void nontrivial() { shm->nontrivial = 1; }
};

typedef void (*TestFn)(Gen &);
struct Test { const char *prop, *name, *rule; TestFn fn; int quick, thorough, batch; };
typedef bool (*KnownFn)(Gen &);   // returns true if the finding is still there
struct Known { const char *prop, *id, *what; KnownFn fn; };
static std::vector<Test> &tests() { static std::vector<Test> t; return t; }
static std::vector<Known> &knowns() { static std::vector<Known> t; return t; }
struct Reg { Reg(Test t) { tests().push_back(t); } };
struct RegK { RegK(Known t) { knowns().push_back(t); } };

// PBT(property, name, quick cases, thorough cases, batch, rule) { body using g }
#define PBT(prop, name, q, t, batch, rule)                                    \
  static void test_##prop##_##name(pbt::Gen &g);                              \
  static pbt::Reg reg_##prop##_##name(pbt::Test{#prop, #name, rule, test_##prop##_##name, q, t, batch}); \
  static void test_##prop##_##name(pbt::Gen &g)
#define PBT_KNOWN(prop, id, what)                                             \
  static bool known_##id(pbt::Gen &g);                                        \
  static pbt::RegK regk_##id(pbt::Known{#prop, #id, what, known_##id});       \
  static bool known_##id(pbt::Gen &g)

// Optional hooks, set by the harness: called in every child / after each case
static void (*child_init)() = nullptr;
static void (*child_fini)() = nullptr;

static inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static u64 mix(u64 a, u64 b) { Rng r{a * 0x2545F4914F6CDD1DULL + b}; r.next(); return r.next(); }
static u64 hashstr(const char *s) { u64 h = 1469598103934665603ULL; for (; *s; s++) h = (h ^ (unsigned char)*s) * 1099511628211ULL; return h; }

static const int CASE_CPU_SECONDS = 25;

static void arm_timer() {
  struct itimerval it; memset(&it, 0, sizeof it);
  it.it_value.tv_sec = CASE_CPU_SECONDS;
  setitimer(ITIMER_PROF, &it, NULL);
}

// Run one case in this process.
static void run_case(const Test &t, Gen &g, Shm *shm) {
  shm->nchoices = 0; shm->loglen = 0; shm->log[0] = 0; shm->nontrivial = 0; shm->msg[0] = 0;
  arm_timer();
  try {
    t.fn(g);
    if (child_fini) child_fini();
  } catch (Discard &) {
    g.label("discarded");
    shm->nontrivial = 0;
  } catch (std::exception &e) {
    strncpy(shm->msg, e.what(), sizeof(shm->msg) - 1);
    shm->failed = 1;
    _exit(70);
  }
}

static void child_setup(const char *errfile) {
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  int fd = open(errfile ? errfile : "/dev/null", O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd >= 0) { dup2(fd, 2); if (fd > 2) close(fd); }
  int fd2 = open("/dev/null", O_WRONLY); if (fd2 >= 0) { dup2(fd2, 1); if (fd2 > 2) close(fd2); }
  signal(SIGPROF, SIG_DFL);
  if (child_init) child_init();
}

struct Outcome { bool failed; std::string kind, msg; };

static Outcome classify(int status, Shm *shm) {
  Outcome o{false, "", ""};
  if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && shm->finished) return o;
  o.failed = true;
  if (WIFEXITED(status) && WEXITSTATUS(status) == 70) { o.kind = "property"; o.msg = shm->msg; }
  else if (WIFEXITED(status) && WEXITSTATUS(status) == 99) { o.kind = "sanitizer"; o.msg = "AddressSanitizer report"; }
  else if (WIFSIGNALED(status) && WTERMSIG(status) == SIGPROF) { o.kind = "hang"; o.msg = fmt("no result after %d s of CPU time", CASE_CPU_SECONDS); }
  else if (WIFSIGNALED(status)) { o.kind = fmt("signal%d", WTERMSIG(status)); o.msg = fmt("killed by signal %d (%s)", WTERMSIG(status), strsignal(WTERMSIG(status))); }
  else { o.kind = "exit"; o.msg = fmt("unexpected exit (status 0x%x)", status); }
  return o;
}

static int wait_child(pid_t pid) {
  int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {} return st;
}

// Run one case from a choice sequence in a fresh child.
static Outcome run_isolated(const Test &t, Shm *shm, const std::vector<u64> &choices, int tier, const char *errfile) {
  shm->failed = 0; shm->finished = 0; memset(shm->labels, 0, sizeof shm->labels);
  fflush(NULL);
  pid_t pid = fork();
  if (pid == 0) {
    child_setup(errfile);
    Gen g(shm, 1, &choices, tier);
    run_case(t, g, shm);
    shm->finished = 1;
    _exit(0);
  }
  return classify(wait_child(pid), shm);
}

static void run_batch(const Test &t, Shm *shm, u64 seed, u64 first, u64 n, int tier, const char *errfile) {
  shm->failed = 0; shm->finished = 0; shm->ndone = 0; shm->nnt = 0;
  memset(shm->labels, 0, sizeof shm->labels); shm->sample[0] = 0;
  pid_t pid = fork();
  if (pid == 0) {
    child_setup(errfile);
    for (u64 i = 0; i < n; i++) {
      shm->cur = first + i;
      Gen g(shm, mix(mix(seed, hashstr(t.name)), first + i), nullptr, tier);
      g.casenum = first + i;
      run_case(t, g, shm);
      if (shm->nontrivial) {
        u64 h = 1469598103934665603ULL;
        for (size_t k = 0; k < shm->nchoices; k++) h = (h ^ shm->choices[k]) * 1099511628211ULL;
        shm->nt_hash[shm->nnt] = h; shm->nnt = shm->nnt + 1;
        if (!shm->sample[0] || shm->loglen < 1500) { strncpy(shm->sample, shm->log, sizeof(shm->sample) - 1); }
      }
      shm->ndone = shm->ndone + 1;
    }
    shm->finished = 1;
    _exit(0);
  }
  int st = wait_child(pid);
  Outcome o = classify(st, shm);
  shm->failed = o.failed;
  if (o.failed) { if (o.kind != "property") strncpy(shm->msg, o.msg.c_str(), sizeof(shm->msg) - 1); }
}

static std::string jesc(const std::string &s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c > 126) r += fmt("\\u%04x", c);
    else r += c;
  }
  return r;
}

struct Stat { u64 evals = 0; std::set<u64> nt; std::map<std::string, u64> labels; std::vector<std::string> samples; };

static std::vector<u64> shrink(const Test &t, Shm *shm, std::vector<u64> c, int tier, const std::string &kind, double budget) {
  double t0 = now(); int runs = 0;
  auto tryit = [&](const std::vector<u64> &cand) {
    if (now() - t0 > budget || runs > 4000) return false;
    runs++;
    Outcome o = run_isolated(t, shm, cand, tier, nullptr);
    if (!o.failed || (kind == "property") != (o.kind == "property") || o.kind == "hang") return false;
    std::vector<u64> used(shm->choices, shm->choices + std::min((size_t)shm->nchoices, (size_t)MAXCHOICES));
    if (used.size() < cand.size()) c = used; else c = cand;
    return true;
  };
  bool improved = true;
  while (improved && now() - t0 < budget) {
    improved = false;
    for (size_t k = std::max<size_t>(1, c.size() / 2); k >= 1; k /= 2) {
      for (size_t i = 0; i + k <= c.size();) {
        std::vector<u64> cand(c.begin(), c.begin() + i);
        cand.insert(cand.end(), c.begin() + i + k, c.end());
        if (tryit(cand)) improved = true; else i += k;
        if (now() - t0 > budget) return c;
      }
      if (k == 1) break;
    }
    for (size_t i = 0; i < c.size(); i++) {
      if (!c[i]) continue;
      std::vector<u64> cand = c; cand[i] = 0;
      if (tryit(cand)) { improved = true; continue; }
      u64 lo = 0, hi = c[i];
      while (hi - lo > 1 && now() - t0 < budget) {
        u64 mid = lo + (hi - lo) / 2; cand = c; if (i >= cand.size()) break; cand[i] = mid;
        if (tryit(cand)) { hi = mid; improved = true; } else lo = mid;
        if (i >= c.size()) break;
      }
    }
  }
  return c;
}

static std::string slurp(const std::string &f, size_t max = 6000) {
  std::string s; FILE *fp = fopen(f.c_str(), "r"); if (!fp) return s;
  char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, fp)) > 0 && s.size() < max) s.append(b, n);
  fclose(fp); return s.substr(0, max);
}

static Shm *new_shm() {
  void *p = mmap(NULL, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(3); }
  return (Shm *)p;
}

// Result file lines (one JSON object per test)
static int run_main(int argc, char **argv) {
  std::string only, out, replay, faildir = "."; u64 seed = 1; double scale = 1, cap = 60; int jobs = 8, tier = 0; bool known = false, list = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&](const char *k) { size_t n = strlen(k); return a.compare(0, n, k) == 0 ? (a.c_str() + n) : nullptr; };
    const char *v;
    if ((v = val("--test="))) only = v;
    else if ((v = val("--seed="))) seed = strtoull(v, 0, 10);
    else if ((v = val("--scale="))) scale = atof(v);
    else if ((v = val("--cap="))) cap = atof(v);
    else if ((v = val("--jobs="))) jobs = atoi(v);
    else if ((v = val("--out="))) out = v;
    else if ((v = val("--replay="))) replay = v;
    else if ((v = val("--faildir="))) faildir = v;
    else if (a == "--thorough") tier = 1;
    else if (a == "--known") known = true;
    else if (a == "--list") list = true;
    else { fprintf(stderr, "bad argument: %s\n", a.c_str()); return 2; }
  }
  if (list) { for (auto &t : tests()) printf("%s %s\n", t.prop, t.name); return 0; }
  Shm *shm = new_shm();

  if (!replay.empty()) {   // replay file: text; lines "test NAME", "tier N", "choices ..." or "batch seed first n"
    FILE *fp = fopen(replay.c_str(), "r"); if (!fp) { perror("replay"); return 2; }
    std::string name; std::vector<u64> c; bool batch = false; u64 bs = 0, bf = 0, bn = 0; char w[128];
    while (fscanf(fp, "%127s", w) == 1) {
      std::string k = w;
      if (k == "test") { if (fscanf(fp, "%127s", w) == 1) name = w; }
      else if (k == "tier") { if (fscanf(fp, "%d", &tier) != 1) return 2; }
      else if (k == "batch") { batch = true; if (fscanf(fp, "%" SCNu64 " %" SCNu64 " %" SCNu64, &bs, &bf, &bn) != 3) return 2; }
      else if (k == "choices") { u64 x; while (fscanf(fp, "%" SCNu64, &x) == 1) c.push_back(x); }
      else { int ch; while ((ch = fgetc(fp)) != EOF && ch != '\n') {} }
    }
    fclose(fp);
    for (auto &t : tests()) if (name == t.name) {
      std::string ef = faildir + "/replay.stderr";
      Outcome o;
      if (batch) { run_batch(t, shm, bs, bf, bn, tier, ef.c_str()); o.failed = shm->failed; o.msg = shm->msg; }
      else o = run_isolated(t, shm, c, tier, ef.c_str());
      printf("%s\n%s\n--- stderr:\n%s\n", o.failed ? ("FAILED: " + o.msg).c_str() : "passed", shm->log, slurp(ef).c_str());
      return o.failed ? 1 : 0;
    }
    fprintf(stderr, "no such test: %s\n", name.c_str()); return 2;
  }

  FILE *fo = out.empty() ? stdout : fopen(out.c_str(), "w");
  if (!fo) { perror("out"); return 2; }
  int rc = 0;

  if (known) {
    for (auto &k : knowns()) {
      shm->failed = 0; shm->finished = 0; shm->loglen = 0; shm->nchoices = 0;
      fflush(NULL);
      pid_t pid = fork();
      if (pid == 0) {
        child_setup(nullptr); arm_timer();
        Gen g(shm, seed, nullptr, tier); bool still = false;
        try { still = k.fn(g); } catch (std::exception &) { still = true; }
        shm->finished = 1; _exit(still ? 70 : 0);
      }
      Outcome o = classify(wait_child(pid), shm);
      fprintf(fo, "{\"known\": \"%s\", \"property\": \"%s\", \"still\": %s}\n", k.id, k.prop, o.failed ? "true" : "false");
    }
    if (fo != stdout) fclose(fo);
    return 0;
  }

  std::vector<Shm *> shms; for (int i = 0; i < jobs; i++) shms.push_back(new_shm());
  struct Ctl { volatile int stop; volatile u64 nextbatch; };
  Ctl *ctl = (Ctl *)mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  size_t ntests = 0; for (auto &t : tests()) if (only.empty() || ("," + only + ",").find(std::string(",") + t.name + ",") != std::string::npos) ntests++;
  double tstart = now(); size_t tdone = 0;
  for (auto &t : tests()) {
    if (!(only.empty() || ("," + only + ",").find(std::string(",") + t.name + ",") != std::string::npos)) continue;
    double t0 = now();
    double mycap = (cap - (t0 - tstart)) / (double)(ntests - tdone); tdone++;
    if (mycap < 2) mycap = 2;
    u64 total = (u64)((tier ? t.thorough : t.quick) * scale); if (total < 1) total = 1;
    u64 B = std::min<u64>(t.batch, MAXBATCH), nb = (total + B - 1) / B;
    ctl->stop = 0; ctl->nextbatch = 0;
    std::vector<pid_t> w; std::vector<int> pipes;
    for (int j = 0; j < jobs; j++) {
      int pfd[2]; if (pipe(pfd)) { perror("pipe"); return 3; }
      fflush(NULL);
      pid_t pid = fork();
      if (pid == 0) {
        close(pfd[0]);
        for (int fd : pipes) close(fd);
        FILE *pw = fdopen(pfd[1], "w");
        Shm *sh = shms[j]; Stat st; u64 fb = 0; bool bad = false;
        while (!ctl->stop) {
          u64 b = __sync_fetch_and_add(&ctl->nextbatch, 1);
          if (b >= nb || now() - t0 > mycap) break;
          u64 first = b * B, n = std::min(B, total - first);
          run_batch(t, sh, seed, first, n, tier, nullptr);
          st.evals += sh->ndone;
          for (size_t k = 0; k < sh->nnt; k++) st.nt.insert(sh->nt_hash[k]);
          for (size_t k = 0; k < MAXLABELS && sh->labels[k].name[0]; k++) st.labels[sh->labels[k].name] += sh->labels[k].n;
          if (sh->sample[0] && st.samples.size() < 2) st.samples.push_back(sh->sample);
          if (sh->failed) { bad = true; fb = b; ctl->stop = 1; break; }
        }
        fprintf(pw, "E %" PRIu64 "\n", st.evals);
        for (u64 h : st.nt) fprintf(pw, "N %" PRIu64 "\n", h);
        for (auto &kv : st.labels) fprintf(pw, "L %" PRIu64 " %s\n", kv.second, kv.first.c_str());
        for (auto &s : st.samples) fprintf(pw, "S %s\n", jesc(s.substr(0, 1200)).c_str());
        if (bad) fprintf(pw, "F %" PRIu64 "\n", fb);
        fclose(pw); _exit(0);
      }
      close(pfd[1]); w.push_back(pid); pipes.push_back(pfd[0]);
    }
    Stat st; int badj = -1; u64 badbatch = UINT64_MAX;
    for (int j = 0; j < jobs; j++) {
      FILE *pr = fdopen(pipes[j], "r"); char *line = NULL; size_t cap2 = 0; ssize_t n;
      while ((n = getline(&line, &cap2, pr)) > 0) {
        if (line[n - 1] == '\n') line[n - 1] = 0;
        if (line[0] == 'E') st.evals += strtoull(line + 2, 0, 10);
        else if (line[0] == 'N') st.nt.insert(strtoull(line + 2, 0, 10));
        else if (line[0] == 'L') { char *e; u64 k = strtoull(line + 2, &e, 10); st.labels[e + 1] += k; }
        else if (line[0] == 'S') { if (st.samples.size() < 4) st.samples.push_back(line + 2); }
        else if (line[0] == 'F') { u64 b = strtoull(line + 2, 0, 10); if (b < badbatch) { badbatch = b; badj = j; } }
      }
      free(line); fclose(pr); wait_child(w[j]);
    }
    std::string failrec;
    if (badj >= 0) {
      Shm *sh = shms[badj];
      std::vector<u64> c(sh->choices, sh->choices + std::min((size_t)sh->nchoices, (size_t)MAXCHOICES));
      u64 cur = sh->cur; std::string msg0 = sh->msg, log0 = sh->log;
      std::string ef = faildir + "/" + t.name + ".stderr", rf = faildir + "/" + t.name + ".replay";
      Outcome o = run_isolated(t, shm, c, tier, nullptr);
      bool confirmed = false, viabatch = false;
      std::string msg, log, err;
      if (o.failed) {
        if (o.kind != "hang") c = shrink(t, shm, c, tier, o.kind, 25);
        confirmed = true;
        for (int k = 0; k < (o.kind == "hang" ? 1 : 3); k++) {
          Outcome o2 = run_isolated(t, shm, c, tier, ef.c_str());
          if (!o2.failed) confirmed = false;
          msg = o2.msg; log = shm->log; err = slurp(ef);
        }
      }
      u64 first = badbatch * B, n = cur - first + 1;
      if (!confirmed) {
        confirmed = true; viabatch = true;
        for (int k = 0; k < 3; k++) {
          run_batch(t, shm, seed, first, n, tier, ef.c_str());
          if (!shm->failed) { confirmed = false; break; }
          msg = shm->msg; log = shm->log; err = slurp(ef);
        }
      }
      FILE *fr = fopen(rf.c_str(), "w");
      if (fr) {
        fprintf(fr, "test %s\ntier %d\n", t.name, tier);
        if (viabatch) fprintf(fr, "batch %" PRIu64 " %" PRIu64 " %" PRIu64 "\n", seed, first, n);
        else { fprintf(fr, "choices"); for (u64 x : c) fprintf(fr, " %" PRIu64, x); fprintf(fr, "\n"); }
        fprintf(fr, "# property %s\n# confirmed %d\n# %s\n", t.prop, (int)confirmed, jesc(confirmed ? msg : msg0).c_str());
        std::string l = confirmed ? log : log0; size_t p = 0;
        while (p < l.size()) { size_t q = l.find('\n', p); if (q == std::string::npos) q = l.size(); fprintf(fr, "# | %s\n", jesc(l.substr(p, q - p)).c_str()); p = q + 1; }
        p = 0; while (p < err.size()) { size_t q = err.find('\n', p); if (q == std::string::npos) q = err.size(); fprintf(fr, "# ! %s\n", jesc(err.substr(p, q - p)).c_str()); p = q + 1; }
        fclose(fr);
      }
      unlink(ef.c_str());
      failrec = fmt(", \"failed\": %s, \"unconfirmed\": %s, \"message\": \"%s\", \"replay\": \"%s\"", confirmed ? "true" : "false",
                    confirmed ? "false" : "true", jesc(confirmed ? msg : msg0).c_str(), jesc(rf).c_str());
      if (confirmed) rc = 1;
    }
    fprintf(fo, "{\"property\": \"%s\", \"test\": \"%s\", \"rule\": \"%s\", \"requested\": %" PRIu64 ", \"evaluations\": %" PRIu64 ", \"distinct_nontrivial\": %zu, \"wall_s\": %.2f, \"labels\": {",
            t.prop, t.name, jesc(t.rule).c_str(), total, st.evals, st.nt.size(), now() - t0);
    bool firstl = true; for (auto &kv : st.labels) { fprintf(fo, "%s\"%s\": %" PRIu64, firstl ? "" : ", ", jesc(kv.first).c_str(), kv.second); firstl = false; }
    fprintf(fo, "}, \"samples\": ["); firstl = true;
    for (auto &s : st.samples) { fprintf(fo, "%s\"%s\"", firstl ? "" : ", ", s.c_str()); firstl = false; }
    fprintf(fo, "]%s}\n", failrec.c_str()); fflush(fo);
  }
  if (fo != stdout) fclose(fo);
  return rc;
}
}  // namespace pbt

// ASan defaults: report through the exit code, no leak check at exit (leaks
// are measured inside the properties), huge requests fail like real malloc.
#ifndef PBT_MAXALLOC_MB
#define PBT_MAXALLOC_MB "1024"
#endif
extern "C" __attribute__((used, visibility("default"))) const char *__asan_default_options() {
  return "exitcode=99:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=" PBT_MAXALLOC_MB ":abort_on_error=0:"
         "detect_stack_use_after_return=0:handle_abort=0:symbolize=1:strict_string_checks=0:malloc_context_size=12:quarantine_size_mb=16";
}

#define PBT_MAIN int main(int argc, char **argv) { return pbt::run_main(argc, argv); }
