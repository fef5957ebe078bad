// Thin wrapper over lightgrep's public C API (include/lightgrep/*.h) for the
// exploration harnesses.  Only public headers are used, so that behaviour-
// preserving refactorings of the internals cannot break the harnesses.
#pragma once
#include <lightgrep/api.h>
#include <lightgrep/util.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <algorithm>
#include <tuple>
#include <unistd.h>
#include <signal.h>
#include <time.h>

namespace lgx {

struct Hit {
  uint64_t s, e; uint32_t k;
  bool operator==(const Hit& o) const { return s == o.s && e == o.e && k == o.k; }
  bool operator!=(const Hit& o) const { return !(*this == o); }
  bool operator<(const Hit& o) const { return std::tie(k, s, e) < std::tie(o.k, o.s, o.e); }
};
typedef std::vector<Hit> Hits;

inline void onHit(void* u, const LG_SearchHit* h) {
  static_cast<Hits*>(u)->push_back(Hit{h->Start, h->End, h->KeywordIndex});
}

inline std::string hexs(const std::string& s) {
  std::string r; char b[4];
  for (unsigned char c : s) { snprintf(b, 4, "%02x", c); r += b; }
  return r;
}
inline std::string unhex(const std::string& s) {
  std::string r;
  for (size_t i = 0; i + 1 < s.size(); i += 2) r += char(strtol(s.substr(i, 2).c_str(), 0, 16));
  return r;
}
inline std::string quote(const std::string& s) {   // JSON-safe ASCII
  std::string r; char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}
inline std::string show(const Hits& h) {
  std::string r = "[";
  for (auto& x : h) r += (r.size() > 1 ? " " : "") + std::to_string(x.k) + ":" + std::to_string(x.s) + "-" + std::to_string(x.e);
  return r + "]";
}

struct Err {
  LG_Error* e = nullptr;
  ~Err() { if (e) lg_free_error(e); }
  std::string msg() const { return e && e->Message ? e->Message : ""; }
};

struct Opts {
  bool fixed = false, icase = false, uni = false;
  LG_KeyOptions ko() const { return LG_KeyOptions{char(fixed), char(icase), char(uni)}; }
};

struct Pat {
  std::string pat; std::string enc = "UTF-8"; Opts o; uint64_t user = 0;
};

struct Pattern {
  LG_HPATTERN h = lg_create_pattern();
  ~Pattern() { if (h) lg_destroy_pattern(h); }
  bool parse(const std::string& p, const Opts& o, std::string* err = nullptr) {
    LG_KeyOptions k = o.ko();
    Err e;
    int r = lg_parse_pattern(h, p.c_str(), &k, &e.e);
    if (err) *err = e.msg();
    return r > 0;
  }
};

struct Fsm {
  LG_HFSM h;
  Fsm(unsigned a = 0, unsigned b = 0): h(lg_create_fsm(a, b)) {}
  ~Fsm() { if (h) lg_destroy_fsm(h); }
  Fsm(const Fsm&) = delete;
  int add(Pattern& p, const std::string& enc, uint64_t user, std::string* err = nullptr) {
    Err e;
    int r = lg_add_pattern(h, p.h, enc.c_str(), user, &e.e);
    if (err) *err = e.msg();
    return r;
  }
  // parse and add; returns index or -1 (parse failure) / -2 (add failure)
  int add(const Pat& p, std::string* err = nullptr) {
    Pattern t;
    if (!t.parse(p.pat, p.o, err)) return -1;
    int r = add(t, p.enc, p.user, err);
    return r < 0 ? -2 : r;
  }
};

struct Ctx {
  LG_HCONTEXT h;
  explicit Ctx(LG_HPROGRAM p) { LG_ContextOptions o{UINT64_MAX, 0}; h = lg_create_context(p, &o); }
  ~Ctx() { if (h) lg_destroy_context(h); }
  Ctx(const Ctx&) = delete;
  uint64_t search(const char* b, const char* e, uint64_t off, Hits& out) { return lg_search(h, b, e, off, &out, onHit); }
  uint64_t resolve(const char* b, const char* e, uint64_t off, Hits& out) { return lg_search_resolve(h, b, e, off, &out, onHit); }
  void closeout(Hits& out) { lg_closeout_search(h, &out, onHit); }
  void starts(const char* b, const char* e, uint64_t off, Hits& out) { lg_starts_with(h, b, e, off, &out, onHit); }
  void reset() { lg_reset_context(h); }
  Hits whole(const std::string& t, uint64_t off = 0) {
    Hits r; reset();
    search(t.data(), t.data() + t.size(), off, r); closeout(r);
    return r;
  }
};

struct Prog {
  LG_HPROGRAM h = nullptr;
  Prog() {}
  Prog(LG_HFSM f, uint32_t depth) { LG_ProgramOptions o{depth}; h = lg_create_program(f, &o); }
  Prog(const Prog&) = delete;
  Prog(Prog&& o): h(o.h) { o.h = nullptr; }
  ~Prog() { if (h) lg_destroy_program(h); }
  explicit operator bool() const { return h != nullptr; }
};

inline Hits byKey(Hits h) { std::stable_sort(h.begin(), h.end(), [](const Hit& a, const Hit& b) { return a.k < b.k; }); return h; }

// ---------------------------------------------------------------- reporting
// A harness prints, on stdout, lines
//   COUNT <name> <n>           (summed over shards)
//   SAMPLE <json string>       (a few explored behaviours)
//   VIOL <key>\t<json>         (a violation, <key> identifies the failing input)
// The driver re-runs the harness with only=<key> to replay a violation before
// it reports it.  While a case runs, its key is kept so that a crash or a hang
// inside the library is attributed to it.
static char g_case[4096];
static volatile sig_atomic_t g_in_case = 0;
inline void onCrash(int sig) {
  const char* what = sig == SIGALRM ? "no result after 120 s" : sig == SIGSEGV || sig == SIGBUS ? "invalid memory access" :
                     sig == SIGFPE ? "arithmetic fault" : "abort";
  char b[4600];
  int n = snprintf(b, sizeof b, "\nVIOL %s\tCRASH: %s\n", g_case, what);
  if (n > 0) { ssize_t r = write(1, b, n); (void) r; }
  _exit(3);
}
inline void installCrash() {
  static char stack[65536];
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = stack; ss.ss_size = sizeof stack;
  sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_handler = onCrash; sa.sa_flags = SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL, SIGALRM}) sigaction(s, &sa, nullptr);
}

struct Report {
  std::map<std::string, uint64_t> counts;
  unsigned viol = 0, maxViol = 40, samples = 0, maxSamples = 4;
  std::string only; bool hasOnly = false;
  std::set<size_t> outcomes;
  time_t t0 = 0;
  void init(const std::map<std::string, std::string>& m) {
    auto i = m.find("only"); if (i != m.end()) { only = i->second; hasOnly = true; }
    i = m.find("maxviol"); if (i != m.end()) maxViol = atoi(i->second.c_str());
#ifndef LGX_NO_SIGNALS
    installCrash();
#endif
  }
  // is this case to be run?  also makes it the current one
  bool want(const std::string& key) {
    if (hasOnly && key != only) return false;
    cur(key);
    return true;
  }
  void cur(const std::string& key) {
    size_t n = std::min(key.size(), sizeof(g_case) - 1);
    memcpy(g_case, key.data(), n); g_case[n] = 0;
    time_t t = time(nullptr);
    if (t != t0) { t0 = t; alarm(120); }
  }
  void add(const char* n, uint64_t d = 1) { counts[n] += d; }
  void outcome(const std::string& s) { if (outcomes.size() < 2000000) outcomes.insert(std::hash<std::string>()(s)); }
  void sample(const std::string& s) { if (samples++ < maxSamples) printf("SAMPLE \"%s\"\n", quote(s).c_str()); }
  // key: printable, no tab or newline
  bool violation(const std::string& key, const std::string& what) {
    ++viol;
    if (viol <= maxViol) { printf("VIOL %s\t%s\n", key.c_str(), quote(what).c_str()); fflush(stdout); }
    return viol >= maxViol;
  }
  bool full() const { return viol >= maxViol; }
  int done() {
    alarm(0);
    for (auto& c : counts) printf("COUNT %s %llu\n", c.first.c_str(), (unsigned long long)c.second);
    printf("COUNT distinct_outcomes_per_shard %zu\n", outcomes.size());
    printf("DONE %u\n", viol);
    fflush(stdout);
    return 0;
  }
};

struct Shard {
  unsigned i = 0, n = 1; uint64_t c = 0;
  bool mine() { return (c++ % n) == i; }
};

inline std::map<std::string, std::string> args(int argc, char** argv) {
  std::map<std::string, std::string> m;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; size_t p = a.find('=');
    if (p == std::string::npos) m[a] = "1"; else m[a.substr(0, p)] = a.substr(p + 1);
  }
  return m;
}
inline int geti(const std::map<std::string, std::string>& m, const char* k, int d) {
  auto i = m.find(k); return i == m.end() ? d : atoi(i->second.c_str());
}
inline Shard shard(const std::map<std::string, std::string>& m) {
  Shard s; if (m.count("only")) return s; s.i = geti(m, "shard", 0); s.n = geti(m, "shards", 1); return s;
}

}  // namespace lgx
