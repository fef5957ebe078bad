// P19 (mode=blocks, args, sched, bad), P20 (mode=context, hist), P21 (mode=validate, sample, graph):
// the lightgrep command itself.  Its own main() is run in a child process for every case,
// on files in a scratch directory.
#include "pools.h"
#include <lightgrep/encodings.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <errno.h>
#include <pthread.h>
#include <atomic>
#include <filesystem>
#include <iostream>
using namespace lgx;
using namespace pools;

int lg_main(int, char**) __asm__("lg_main");   // the command's main, renamed

static Report rep;

// ------------------------------------------------------------- the schedule
// The command reads the next block in another thread while it searches the
// current one.  For each block the schedule says whether that read happens
// before the search begins (E) or after it has ended (L).
struct Shared { std::atomic<int> reads, searches, eof, off; };
static Shared* g_sh;
static const char* g_sched = nullptr;
static pthread_t g_main;
extern "C" {
size_t __real_fread(void*, size_t, size_t, FILE*);
uint64_t __real_lg_search(LG_HCONTEXT, const char*, const char*, uint64_t, void*, LG_HITCALLBACK_FN);
static char at(int k) { return k >= 0 && k < (int) strlen(g_sched) ? g_sched[k] : 0; }
static bool await(std::atomic<int>& v, int n, std::atomic<int>* alt) {
  for (int i = 0; v.load() < n && !(alt && alt->load()); ++i) {
    if (i > 100000 || g_sh->off.load()) { g_sh->off = 1; return false; }   // not structured as expected: let it run freely
    if (i > 2000) usleep(20); else sched_yield();
  }
  return true;
}
size_t __wrap_fread(void* p, size_t a, size_t b, FILE* f) {
  if (!g_sched) return __real_fread(p, a, b, f);
  int n = g_sh->reads.load();
  if (!pthread_equal(pthread_self(), g_main) && at(n - 1) == 'L' && !g_sh->off.load()) await(g_sh->searches, n, nullptr);
  size_t r = __real_fread(p, a, b, f);
  if (r < b) g_sh->eof = 1;
  ++g_sh->reads;
  return r;
}
uint64_t __wrap_lg_search(LG_HCONTEXT c, const char* b, const char* e, uint64_t o, void* u, LG_HITCALLBACK_FN f) {
  if (!g_sched) return __real_lg_search(c, b, e, o, u, f);
  int k = g_sh->searches.load();
  if (at(k) == 'E' && b != e && !g_sh->off.load()) await(g_sh->reads, k + 2, &g_sh->eof);
  uint64_t r = __real_lg_search(c, b, e, o, u, f);
  ++g_sh->searches;
  return r;
}
}

// -------------------------------------------------------------------- runs
typedef std::vector<std::string> SV;
struct Res { int rc = -1; std::string out, err; };
static std::string g_dir;

static std::string slurp(int fd) {
  std::string r; struct stat st; if (fstat(fd, &st)) return r;
  r.resize(st.st_size);
  size_t n = 0; while (n < r.size()) { ssize_t k = pread(fd, &r[n], r.size() - n, n); if (k <= 0) break; n += k; }
  r.resize(n); return r;
}
static std::string path(const std::string& n) { return g_dir + "/" + n; }
static void put(const std::string& n, const std::string& c) {
  FILE* f = fopen(path(n).c_str(), "wb"); if (!f) { perror(n.c_str()); exit(2); }
  fwrite(c.data(), 1, c.size(), f); fclose(f);
}
static std::string get(const std::string& n) {
  int fd = open(path(n).c_str(), O_RDONLY); if (fd < 0) return "\1absent"; std::string r = slurp(fd); close(fd); return r;
}

static int g_hangs;   // runs which did not end
static Res run(const SV& args, const std::string& in, const char* sched = nullptr) {
  Res r;
  int o = memfd_create("o", 0), e = memfd_create("e", 0), pi[2];
  if (o < 0 || e < 0 || pipe(pi)) { perror("run"); exit(2); }
  if (write(pi[1], in.data(), in.size()) != (ssize_t) in.size()) exit(2);
  close(pi[1]);
  new (g_sh) Shared();
  fflush(stdout);
  pid_t p = fork();
  if (!p) {
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL, SIGALRM}) signal(s, SIG_DFL);
    alarm(g_hangs ? 5 : 30);
    if (chdir(g_dir.c_str())) _exit(98);
    dup2(pi[0], 0); dup2(o, 1); dup2(e, 2);
    close(pi[0]); close(o); close(e);
    std::vector<char*> av; std::string nm = "lightgrep"; av.push_back(&nm[0]);
    SV a = args; for (auto& x : a) av.push_back(&x[0]);
    av.push_back(nullptr);
    g_main = pthread_self(); g_sched = sched;
    int rc = lg_main(int(av.size()) - 1, av.data());
    std::cout.flush(); std::cerr.flush(); fflush(stdout); fflush(stderr);
    _exit(rc & 255);
  }
  close(pi[0]);
  int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) ++g_hangs;
  r.rc = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
  r.out = slurp(o); r.err = slurp(e); close(o); close(e);
  rep.add("transitions");
  return r;
}
static std::string cmdline(const SV& a) { std::string r = "lightgrep"; for (auto& x : a) { r += " "; for (char c : x) { if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else r += c; } } return r; }

static SV lines(const std::string& s, bool* ok = nullptr) {
  SV r; size_t b = 0, p;
  while ((p = s.find('\n', b)) != std::string::npos) { r.push_back(s.substr(b, p - b)); b = p + 1; }
  if (ok) *ok = b == s.size();
  return r;
}

// ---------------------------------------------------------------- the oracle
struct Kw { std::string pat; SV encs; bool F = false, i = false; uint64_t idx = 0; };
struct Hx { uint64_t s, e; uint64_t idx; std::string pat, enc; };

// what the library finds in one buffer, keyword by keyword (the library's own hits are decided elsewhere)
struct Oracle {
  Fsm f; Prog p; std::vector<Hx> info;
  explicit Oracle(const std::vector<Kw>& ks) {
    for (auto& k : ks) {
      Pattern pt; Opts o; o.fixed = k.F; o.icase = k.i;
      if (!pt.parse(k.pat, o)) continue;
      for (auto& e : k.encs) if (f.add(pt, e, k.idx) >= 0) info.push_back(Hx{0, 0, k.idx, k.pat, e});
    }
    LG_ProgramOptions po{UINT32_MAX}; p.h = lg_create_program(f.h, &po);
  }
  std::vector<Hx> hits(const std::string& t) {
    std::vector<Hx> r; if (!p.h) return r;
    Ctx c(p.h);
    for (auto& h : byKey(c.whole(t))) { Hx x = info[h.k]; x.s = h.s; x.e = h.e; r.push_back(x); }
    return r;
  }
};
static std::string lineOf(const Hx& h) { return std::to_string(h.s) + "\t" + std::to_string(h.e) + "\t" + std::to_string(h.idx) + "\t" + h.pat + "\t" + h.enc; }

struct Sec { std::string label; SV lines; };   // the hits in one input, in keyword order

// actual lines against sections in order; anyOrder: the order of the sections is not specified
static std::string compare(const SV& got, std::vector<Sec> want, bool withPath, bool anyOrder) {
  size_t n = 0; for (auto& s : want) n += s.lines.size();
  auto full = [&](const Sec& s) { SV r; for (auto& l : s.lines) r.push_back((withPath ? s.label + "\t" : "") + l); return r; };
  auto diff = [](const SV& g, const SV& w) {
    for (size_t i = 0; i < std::max(g.size(), w.size()); ++i) {
      if (i >= g.size()) return "missing line \"" + w[i] + "\"";
      if (i >= w.size()) return "extra line \"" + g[i] + "\"";
      if (g[i] != w[i]) return "line \"" + g[i] + "\" where \"" + w[i] + "\" was expected";
    }
    return std::string();
  };
  // the order of hits of one keyword in one input is specified; order by everything but the offsets
  auto key = [&](const std::string& l) {
    size_t p = 0; std::string path; if (withPath) { p = l.find('\t'); path = p == std::string::npos ? l : l.substr(0, p); ++p; }
    size_t q = l.find('\t', p); if (q != std::string::npos) q = l.find('\t', q + 1);
    // up to and including the encoding
    size_t z = q; for (int i = 0; i < 3 && z != std::string::npos; ++i) z = l.find('\t', z + 1);
    return path + "\t" + (q == std::string::npos ? "" : l.substr(q, z == std::string::npos ? z : z - q));
  };
  auto sorted = [&](SV v) { std::stable_sort(v.begin(), v.end(), [&](const std::string& a, const std::string& b) { return key(a) < key(b); }); return v; };
  if (anyOrder) {
    SV w; for (auto& s : want) for (auto& l : full(s)) w.push_back(l);
    SV g = got;
    if (withPath) return diff(sorted(g), sorted(w));
    std::sort(g.begin(), g.end()); std::sort(w.begin(), w.end()); return diff(g, w);
  }
  size_t b = 0;
  for (auto& s : want) {
    SV w = full(s);
    SV g(got.begin() + std::min(b, got.size()), got.begin() + std::min(b + w.size(), got.size()));
    b += w.size();
    std::string d = diff(sorted(g), sorted(w));
    if (!d.empty()) return d + " (in " + s.label + ")";
  }
  if (got.size() > n) return "extra line \"" + got[n] + "\"";
  return "";
}

static std::string readable(const std::string& s) { std::string r; for (char c : s) { if (c == '\t') r += "<tab>"; else if (c == '\n') r += "<nl>"; else if (c == '\r') r += "<cr>"; else r += c; } return r; }

static bool fail(const std::string& key, const SV& a, const std::string& what) {
  rep.violation(key, readable(cmdline(a).substr(0, 300) + ": " + what));
  if (g_hangs >= 20) { std::error_code ec; std::filesystem::remove_all(g_dir, ec); int rc = rep.done(); fflush(stdout); _exit(rc); }   // there are enough, and each takes its time
  return false;
}

// ------------------------------------------------------------------- blocks
// every block size, and every way of reading, over all bounded texts
struct Texts { SV names, texts; };
static Texts writeTexts(const std::string& alpha, int n) {
  Texts t; t.texts = ref::strings(alpha, 0, n);
  mkdir(path("t").c_str(), 0700);
  for (size_t i = 0; i < t.texts.size(); ++i) { t.names.push_back("t/" + std::to_string(i)); put(t.names[i], t.texts[i]); }
  return t;
}
static SV kwArgs(const std::vector<std::string>& pats) { SV a; for (auto& p : pats) { a.push_back("-p"); a.push_back(p); } return a; }

static void blocks(const std::vector<Set>& sets, Shard& sh, int n) {
  Texts t = writeTexts("ab", n);
  std::string list; for (auto& x : t.names) list += x + "\n";
  put("list", list);
  for (auto& s : sets) {
    if (!sh.mine() || !rep.want(s.key)) continue;
    rep.add("states");
    std::vector<Kw> ks; SV ps;
    for (size_t i = 0; i < s.asts.size(); ++i) { Kw k; k.pat = ref::print(s.asts[i]); k.encs = {"US-ASCII"}; k.idx = i; ks.push_back(k); ps.push_back(k.pat); }
    std::vector<Sec> w;
    size_t nh = 0;
    for (size_t i = 0; i < t.texts.size(); ++i) {
      Sec x; x.label = t.names[i];
      for (auto& h : expect(s, t.texts[i])) x.lines.push_back(lineOf(Hx{h.s, h.e, ks[h.k].idx, ks[h.k].pat, "US-ASCII"}));
      nh += x.lines.size(); w.push_back(x);
    }
    bool ok = true;
    for (int b = 1; b <= n + 1 && ok; ++b) for (int mm = 0; mm < 2 && ok; ++mm) {
      SV a = kwArgs(ps); a.push_back("--block-size"); a.push_back(std::to_string(b)); if (mm) a.push_back("--mmap"); a.push_back("-a"); a.push_back("list");
      Res r = run(a, "");
      if (r.rc) { ok = fail(s.key, a, "status " + std::to_string(r.rc) + " " + r.err.substr(0, 200)); break; }
      std::string d = compare(lines(r.out), w, true, false);
      if (!d.empty()) { ok = fail(s.key, a, d); break; }
      rep.add("traces", nh);
    }
    // from standard input, the longest texts
    for (size_t i = 0; i < t.texts.size() && ok; i += 5) for (int b = 1; b <= (int) t.texts[i].size() + 1 && ok; b += 2) {
      SV a = kwArgs(ps); a.push_back("--block-size"); a.push_back(std::to_string(b));
      Res r = run(a, t.texts[i]);
      if (r.rc) { ok = fail(s.key, a, "status " + std::to_string(r.rc) + " on standard input \"" + t.texts[i] + "\""); break; }
      std::string d = compare(lines(r.out), {w[i]}, false, false);
      if (!d.empty()) { ok = fail(s.key, a, "on standard input \"" + t.texts[i] + "\": " + d); break; }
    }
    if (nh) rep.sample(s.key + ": " + std::to_string(nh) + " hits in " + std::to_string(t.texts.size()) + " files");
  }
}

// every schedule of the reading thread
static void sched(const std::vector<Set>& sets, Shard& sh, int n) {
  SV texts = ref::strings("ab", n, n);
  for (auto& s : sets) for (size_t ti = 0; ti < texts.size(); ++ti) {
    const std::string& t = texts[ti];
    std::string key = s.key + "  on " + t;
    if (!sh.mine() || !rep.want(key)) continue;
    rep.add("states");
    put("s", t);
    std::vector<Kw> ks; SV ps;
    for (size_t i = 0; i < s.asts.size(); ++i) { Kw k; k.pat = ref::print(s.asts[i]); ks.push_back(k); ps.push_back(k.pat); }
    Sec x; std::map<std::string, uint64_t> hist;
    for (auto& h : expect(s, t)) { x.lines.push_back(lineOf(Hx{h.s, h.e, h.k, ks[h.k].pat, "US-ASCII"})); ++hist[t.substr(h.s, h.e - h.s) + "\t" + std::to_string(h.k) + "\t" + ks[h.k].pat]; }
    bool ok = true;
    for (int b : {1, 2, 3}) {
      int nb = (n + b - 1) / b;
      for (int m = 0; m < 1 << nb && ok; ++m) for (int src = 0; src < 2 && ok; ++src) {
        std::string sc; for (int i = 0; i < nb; ++i) sc += m >> i & 1 ? 'L' : 'E';
        SV a = kwArgs(ps); a.insert(a.end(), {"--block-size", std::to_string(b), "--histogram-file", "hist"}); if (!src) a.push_back("-h"), a.push_back("s");
        Res r = run(a, src ? t : "", sc.c_str());
        rep.add("schedules"); if (g_sh->off.load()) rep.add("schedules_not_followed");
        if (r.rc) { ok = fail(key, a, "schedule " + sc + ": status " + std::to_string(r.rc) + " " + r.err.substr(0, 200)); break; }
        std::string d = compare(lines(r.out), {x}, false, false);
        if (d.empty()) {
          std::map<std::string, uint64_t> h; for (auto& l : lines(get("hist"))) { size_t q = l.find('\t'); h[l.substr(q + 1)] += strtoull(l.c_str(), 0, 10); }
          if (h != hist) d = "histogram \"" + get("hist") + "\"";
        }
        if (!d.empty()) { ok = fail(key, a, "with reads of the following blocks " + sc + " (E: before the search of the current one, L: after it): " + d); break; }
        rep.add("traces");
      }
    }
  }
}

// --------------------------------------------------------------------- args
// combinations of options, inputs and pattern sources
struct In { const char* name; SV args; bool rec; std::string list; };   // list: what standard input holds, if it is a list

static std::string up(std::string s) { for (auto& c : s) c = toupper(c); return s; }

static void args(const std::map<std::string, std::string>& A, Shard& sh) {
  bool full = geti(A, "full", 0);
  static const std::string T[] = {"ab AB xab\r\nbba.b", "", std::string("a\0b\0 \0A\0B\0a\0.\0b\0", 16), "a.bBBb\tab", "aXb abb"};
  put("f1", T[0]); put("f2", T[1]); put("f 3", T[2]);
  mkdir(path("d").c_str(), 0700); mkdir(path("d/e").c_str(), 0700); mkdir(path("d/x").c_str(), 0700); put("d/g", T[3]); put("d/e/h", T[4]); put("d/e/i", T[0]); put("-x", T[3]);
  // a hidden file, a link to a file, and a link to a directory (which is not entered)
  put("d/.j", T[4]); if (symlink("../f 3", path("d/l").c_str()) | symlink("../e", path("d/x/m").c_str())) abort();
  std::map<std::string, std::string> file = {{"f1", T[0]}, {"f2", T[1]}, {"f 3", T[2]}, {"d/g", T[3]}, {"d/e/h", T[4]}, {"d/e/i", T[0]}, {"d/.j", T[4]}, {"d/l", T[2]}, {"-x", T[3]}};
  put("list", "f1\nf 3\nd\nf2\nf1\n"); put("list2", "d/g"); put("list3", "d/g\n-\nf1\n");
  put("k1", "ab\nx|\na.b\tUTF-16LE,UTF-8\t1\t0\n"); put("k2", "b+\r\nAb\tascii\t0\t1");
  const std::string stdinText = "xab.b AB";
  static const char* SRC[] = {"-p", "--pattern=", "-p -p", "-k", "-k -k", "positional", "program"};
  std::vector<SV> encs = {{}, {"UTF-8"}, {"utf-16le"}, {"UTF-16LE", "utf-8"}};
  std::vector<In> ins = {
    {"none", {}, false, ""}, {"-", {"-"}, false, ""}, {"f1", {"f1"}, false, ""}, {"f1 f2 f3", {"f1", "f2", "f 3"}, false, ""}, {"f1 - f1 -", {"f1", "-", "f1", "-"}, false, ""},
    {"d", {"d", "f1"}, false, ""}, {"-r d", {"-r", "d"}, true, ""}, {"d -r f1", {"d", "--recursive", "f1"}, true, ""}, {"-a", {"-a", "list"}, false, ""}, {"-r -a", {"-r", "--arg-file", "list"}, true, ""},
    {"-a -a", {"-a", "list", "-a", "list2"}, false, ""}, {"-a -", {"-a", "-"}, false, "f1\nd/g\n-\n"}, {"-a f1", {"-a", "list2", "f1"}, false, ""}, {"-a with -", {"-a", "list3"}, false, ""},
    {"-- -x", {"--", "-x", "f1"}, false, ""}, {"-a - -", {"-a", "-", "-"}, false, "f1\n"},
  };
  static const char* NAMES[] = {"", "-H", "-h"};
  // a program for each way of giving patterns
  for (int src = 0; src < 7; ++src) for (int fl = 0; fl < 4; ++fl) for (size_t en = 0; en < encs.size(); ++en) {
    bool ci = fl & 1, F = fl & 2;
    SV E; for (auto& e : encs[en]) E.push_back(up(e)); if (E.empty()) E = {"US-ASCII"};
    std::vector<Kw> ks; SV pa; bool errs = false;
    auto kw = [&](const std::string& p, uint64_t idx) { Kw k; k.pat = p; k.encs = E; k.F = F; k.i = ci; k.idx = idx; ks.push_back(k); };
    auto k1 = [&]() { kw("ab", 0); if (F) kw("x|", 1); else errs = true; Kw k; k.pat = "a.b"; k.encs = {"UTF-16LE", "UTF-8"}; k.F = true; k.i = false; k.idx = 2; ks.push_back(k); };
    auto k2 = [&]() { kw("b+", 0); Kw k; k.pat = "Ab"; k.encs = {"ascii"}; k.i = true; k.idx = 1; ks.push_back(k); };
    switch (src) {
    case 0: pa = {"-p", "ab"}; kw("ab", 0); break;
    case 1: pa = {"--pattern=a.b"}; kw("a.b", 0); break;
    case 2: case 6: pa = {"-p", "b+", "--pattern", "ab"}; kw("b+", 0); kw("ab", 1); break;
    case 3: pa = {"-k", "k1"}; k1(); break;
    case 4: pa = {"--keywords", "k2", "-k", "k1"}; k2(); k1(); break;
    case 5: pa = {"k2"}; k2(); break;
    }
    SV opt; if (ci) opt.push_back(en & 1 ? "-i" : "--ignore-case"); if (F) opt.push_back(en & 1 ? "--fixed-strings" : "-F");
    for (auto& e : encs[en]) { opt.push_back("-e"); opt.push_back(e); }
    std::unique_ptr<Oracle> orc; std::map<std::string, SV> memo; bool made = false;
    auto hits = [&](const std::string& t) -> const SV& {
      auto i = memo.find(t); if (i != memo.end()) return i->second;
      if (!orc) orc.reset(new Oracle(ks));
      SV v; for (auto& h : orc->hits(t)) v.push_back(lineOf(h)); return memo[t] = v;
    };
    for (size_t ii = 0; ii < ins.size(); ++ii) for (int nm = 0; nm < 3; ++nm) for (int out = 0; out < 3; ++out) for (int mm = 0; mm < 2; ++mm) for (int bs = 0; bs < 3; ++bs) {
      // quick: all pattern sources and options with a few inputs, and all the rest with a few pattern sources
      bool few = (ii == 0 || ii == 3 || ii == 7) && nm == 0 && out == 0 && bs == 0, main = (src == 0 || src == 5 || src == 6) && fl == 0 && en == 0;
      if (!full && !few && !main) continue;
      if (!sh.mine()) continue;
      const In& in = ins[ii];
      SV a;
      if (src == 6) a = {"--program-file", "prog"}; else { a = pa; a.insert(a.end(), opt.begin(), opt.end()); }
      if (src == 5) { a = opt; }   // the keyword file comes first among the positional arguments
      if (nm) a.push_back(NAMES[nm]);
      if (out == 1) { a.push_back(nm == 1 ? "--output=o" : "-o"); if (nm != 1) a.push_back("o"); }
      if (out == 2) a.push_back("--no-output");
      if (mm) a.push_back("--mmap");
      if (bs) { a.push_back("--block-size"); a.push_back(bs == 1 ? "1" : "5"); }
      if (src == 5) { if (!in.args.empty() && in.args[0] == "--") { a.push_back("--"); a.push_back("k2"); a.insert(a.end(), in.args.begin() + 1, in.args.end()); } else { a.push_back("k2"); a.insert(a.end(), in.args.begin(), in.args.end()); } }
      else a.insert(a.end(), in.args.begin(), in.args.end());
      std::string key = std::string(SRC[src]) + (src == 6 ? "(" : "") + (ci ? " -i" : "") + (F ? " -F" : "") + " enc" + std::to_string(en) + (src == 6 ? ")" : "") + " in:" + in.name + " " + NAMES[nm] + (out == 1 ? " -o" : out == 2 ? " --no-output" : "") + (mm ? " --mmap" : "") + (bs == 1 ? " blk1" : bs ? " blk5" : "");
      if (!rep.want(key)) continue;
      rep.add("states");
      if (src == 6 && !made) {
        SV c = {"-c", "program", "--binary", "-o", "prog"}; c.insert(c.end(), pa.begin(), pa.end()); c.insert(c.end(), opt.begin(), opt.end());
        Res r = run(c, ""); if (r.rc || !r.out.empty()) { fail(key, c, "status " + std::to_string(r.rc) + " " + r.err); continue; }
        made = true;
      }
      // what is searched
      std::vector<Sec> w; bool used = false, lst = !in.list.empty(), dash = false, pos = false, anyOrder = false;
      if (lst) used = true;
      auto one = [&](const std::string& f) {
        if (f == "-") { if (used) return; used = true; w.push_back({"(standard input)", hits(stdinText)}); }
        else if (f == "d") { if (in.rec) { anyOrder = true; for (auto x : {"d/g", "d/e/h", "d/e/i", "d/.j", "d/l"}) w.push_back({x, hits(file[x])}); } }
        else w.push_back({f, hits(file[f])});
      };
      SV later; bool end = false, fromList = false;
      for (size_t i = 0; i < in.args.size(); ++i) {
        const std::string& x = in.args[i];
        if (!end && x == "--") end = true;
        else if (!end && (x == "-r" || x == "--recursive")) ;
        else if (!end && (x == "-a" || x == "--arg-file")) { fromList = true; const std::string& l = in.args[++i]; for (auto& f : lines((l == "-" ? in.list : get(l)) + (l == "list2" ? "\n" : ""))) one(f); }
        else { later.push_back(x); pos = true; dash |= x == "-"; }
      }
      for (auto& f : later) one(f);
      if (!pos && !fromList) { one("-"); dash = true; }
      bool withPath = nm == 2 ? false : nm == 1 ? true : pos || fromList;
      unlink(path("o").c_str());
      Res r = run(a, lst ? in.list : stdinText);
      if (mm && dash) {   // standard input cannot be mapped
        if (r.rc == 0 || r.rc >= 1000) fail(key, a, "status " + std::to_string(r.rc) + " where an error was expected");
        else if (!r.out.empty()) fail(key, a, "output \"" + r.out + "\" where an error was expected");
        rep.add("refused");
        continue;
      }
      if (r.rc) { fail(key, a, "status " + std::to_string(r.rc) + " " + r.err.substr(0, 300)); continue; }
      if (errs && src != 6 && r.err.find("pattern 1 x|") == std::string::npos) { fail(key, a, "the pattern that cannot be parsed was not reported: \"" + r.err + "\""); continue; }
      std::string got = r.out;
      if (out == 1) { if (!got.empty()) { fail(key, a, "hits on standard output"); continue; } got = get("o"); }
      bool whole; SV g = lines(got, &whole);
      if (!whole) { fail(key, a, "unfinished line"); continue; }
      if (out == 2) { w.clear(); }
      std::string d = compare(g, w, withPath, anyOrder);
      if (!d.empty()) { fail(key, a, d); continue; }
      for (auto& s : w) rep.add("traces", s.lines.size());
      rep.outcome(got);
    }
  }
}

// combinations which must be refused, with nothing on standard output
static void bad(Shard& sh) {
  put("k", "ab\n"); put("f", "xab"); put("none", ""); put("junk", "junk"); put("kbad", "a|\n(b\n");
  std::vector<SV> parts = {{"-p", "ab"}, {"-k", "k"}, {"--program-file", "prog"}, {"--block-size", "0"}, {"-H"}, {"-h"}, {"-C", "1"}, {"-A", "-1"}, {"-B", "-2"}, {"-C", "-1"}, {"--mmap"}, {"-"}, {"f"}, {"--bogus"}, {"-c", "bogus"}, {"-c", "search"}, {"-c", "validate"}, {"-k", "kbad"}, {"-k", "absent"}, {"--block-size", "x"}, {"-c", "program"}};
  { SV c = {"-c", "program", "--binary", "-o", "prog", "-p", "ab"}; run(c, ""); }
  size_t n = parts.size();
  std::function<void(std::vector<size_t>&, size_t)> rec = [&](std::vector<size_t>& v, size_t from) {
    if (!v.empty() && sh.mine()) {
      SV a; std::set<std::string> has; for (size_t i : v) { a.insert(a.end(), parts[i].begin(), parts[i].end()); std::string j; for (auto& x : parts[i]) j += (j.empty() ? "" : " ") + x; has.insert(j); }
      std::string key = cmdline(a);
      if (rep.want(key)) {
        rep.add("states");
        auto h = [&](const char* s) { return has.count(s) > 0; };
        int cmds = h("-c bogus") + h("-c search") + h("-c validate") + h("-c program");
        bool validate = h("-c validate"), program = h("-c program"), searching = !validate && !program && !h("-c bogus");
        bool pat = h("-p ab"), k = h("-k k") || h("-k kbad") || h("-k absent"), prog = h("--program-file prog");
        int npos = h("f") + h("-");
        bool keyIsDash = false, keyIsF = false, openPat = false, noPat = false;
        std::string input;
        bool err = h("--bogus") || h("-c bogus") || cmds > 1 || h("--block-size 0") || h("--block-size x") || (h("--block-size 0") && h("--block-size x"));
        err |= h("-A -1") || h("-B -2") || h("-C -1");
        err |= prog && (pat || k);
        err |= pat && k;
        err |= h("-H") && h("-h");
        bool posKey = !pat && !k && !prog;
        if (posKey) { if (!npos) err = true; else { --npos; if (h("-")) keyIsDash = true; else keyIsF = true; } }
        (void) openPat; (void) keyIsF;
        if (!searching && npos) err = true;   // nothing to do with them
        bool ctx = h("-C 1");
        // input: whatever positional is left, else standard input
        bool stdinIn = searching && (npos == 0 || (h("-") && !keyIsDash));
        if ((h("--mmap") || ctx) && stdinIn) err = true;
        if (keyIsDash) return;   // a keyword file called "-" is not specified
        bool onlyBad = k && !h("-k k");
        noPat = onlyBad;
        if (validate) { if (h("-k kbad")) err = true; if (prog) return; }
        else if (noPat) err = true;
        if (program && prog) return;   // not specified
        if (h("-k absent")) { if (!err) return; }   // whether a missing keyword file among others is an error is not specified
        int nblk = h("--block-size 0") + h("--block-size x"); if (nblk > 1) err = true;
        int nc = h("-C 1") + h("-C -1"); if (nc > 1) err = true;
        Res r = run(a, "xab");
        rep.add("traces");
        bool was = r.rc != 0;
        if (r.rc >= 1000) fail(key, a, "killed by signal " + std::to_string(r.rc - 1000));
        else if (err && !was) fail(key, a, "accepted; an error was expected; output \"" + r.out.substr(0, 100) + "\"");
        else if (err && !r.out.empty()) fail(key, a, "output on standard output although refused: \"" + r.out.substr(0, 100) + "\"");
        else if (err && r.err.empty()) fail(key, a, "refused without saying why");
        else if (!err && was) fail(key, a, "refused: " + r.err.substr(0, 200));
        rep.outcome(err ? r.err.substr(0, 60) : r.out);
      }
    }
    if (v.size() < 3) for (size_t i = from; i < n; ++i) { v.push_back(i); rec(v, i + 1); v.pop_back(); }
  };
  std::vector<size_t> v; rec(v, 0);
}

// ------------------------------------------------------------------ context
static std::string decode(const std::string& s, const std::string& enc) {   // one byte per character
  std::string r;
  for (unsigned char c : s) if (c == 0 || (c >= 0x80 && enc == "US-ASCII")) r += "\xEF\xBF\xBD"; else if (c >= 0x80) { r += char(0xC0 | c >> 6); r += char(0x80 | (c & 63)); } else r += c;
  return r;
}
static std::string esc(const std::string& s, bool all) {
  std::string r;
  for (char c : s) switch (c) {
  case '\t': r += "\\t"; break; case '\n': r += "\\n"; break; case '\r': r += "\\r"; break;
  case '\a': r += all ? "\\a" : "\a"; break; case '\b': r += all ? "\\b" : "\b"; break; case '\v': r += all ? "\\v" : "\v"; break; case '\f': r += all ? "\\f" : "\f"; break;
  default: r += c;
  }
  return r;
}
// the lines around [s,e): b before, a after (-1: none, not even the rest of the line)
static std::pair<uint64_t, uint64_t> around(const std::string& t, uint64_t s, uint64_t e, int b, int a) {
  uint64_t x = s, y = e;
  if (b >= 0) for (int n = 0; x > 0; --x) if (t[x - 1] == '\n' && n++ == b) break;
  if (a >= 0) { int n = 0; for (; y < t.size(); ++y) if (t[y] == '\n' && n++ == a) break; if (y < t.size() && y > e && t[y - 1] == '\r') --y; }
  return {x, y};
}

static void context(const std::map<std::string, std::string>& A, Shard& sh) {
  int n = geti(A, "n", 5);
  Texts t = writeTexts("ab\n\r", n);
  { SV more = {"\nab\xff\n\tab\n", std::string("x\0ab\0\nab", 9), "ab\r\r\nab\r\n\r\nab", "x\ny\nz\nab ab\nx\r\ny\nz", "\xe9" "ab\x07\x08\x0b\x0c\\nab", std::string(300, 'x') + "ab" + std::string(300, '\n') + "ab"};
    for (auto& m : more) { t.names.push_back("t/m" + std::to_string(t.names.size())); t.texts.push_back(m); put(t.names.back(), m); } }
  std::string list; for (auto& x : t.names) list += x + "\n";
  put("list", list);
  std::vector<SV> pats = {{"a"}, {"ab"}, {"a|b"}, {"a+b?"}, {"[ab]+"}, {"a\\nb"}, {"\\na"}, {"a[\\n\\r]*b"}, {"b\\r"}, {"a", "ab"}, {"b.*?a", "\\rb"}};
  struct C { SV args; int b, a; std::string sep; };
  std::vector<C> cs;
  for (int b = -1; b <= 3; ++b) for (int a = -1; a <= 3; ++a) if (a >= 0 || b >= 0) {
    C c; c.b = b; c.a = a; c.sep = "--"; if (b >= 0) c.args.insert(c.args.end(), {"-B", std::to_string(b)}); if (a >= 0) c.args.insert(c.args.end(), {"-A", std::to_string(a)}); cs.push_back(c);
    if (a == b) { C d; d.b = b; d.a = a; d.sep = a == 1 ? "* *" : a == 2 ? "" : "--"; d.args = {a & 1 ? "-C" : "--context", std::to_string(a), "--group-separator", d.sep}; if (a != 2) cs.push_back(d); }
  }
  // many lines: numbers at which narrower counters would end
  { std::string m; for (int i = 0; i < 300; ++i) m += i % 3 ? "\n" : "x\n"; m += "a ab"; for (int i = 0; i < 300; ++i) m += i % 3 ? "\r\n" : "\ny"; t.names.push_back("t/m" + std::to_string(t.names.size())); t.texts.push_back(m); put(t.names.back(), m); put("list", list + t.names.back() + "\n"); }
  const size_t small = cs.size();
  for (int64_t v : {10ll, 126ll, 127ll, 128ll, 254ll, 255ll, 256ll, 257ll, 299ll, 300ll, 301ll, 32767ll, 32768ll, 65535ll, 65536ll, 0x7FFFFFFEll, 0x7FFFFFFFll}) for (int w = 0; w < 3; ++w) {
    C c; c.b = w == 1 ? -1 : int(v); c.a = w == 0 ? -1 : int(v); c.sep = "--"; c.args = {w == 0 ? "-B" : w == 1 ? "-A" : "-C", std::to_string(v)}; cs.push_back(c);
  }
  for (auto& ps : pats) for (auto& c : cs) for (int enc = 0; enc < 2; ++enc) for (int var = 0; var < 3; ++var) {
    if (&c >= &cs[small] && (enc || var == 2 || &ps >= &pats[3])) continue;
    // var 0: paths; 1: no paths, with a histogram, small blocks; 2: small blocks
    if (!sh.mine()) continue;
    std::string E = enc ? "ISO-8859-1" : "US-ASCII", key; for (auto& p : ps) key += p + " "; for (auto& x : c.args) key += x + " "; key += E + " v" + std::to_string(var);
    if (!rep.want(key)) continue;
    rep.add("states");
    std::vector<Kw> ks; for (auto& p : ps) { Kw k; k.pat = p; k.encs = {E}; k.idx = ks.size(); ks.push_back(k); }
    Oracle orc(ks);
    SV a = kwArgs(ps); a.insert(a.end(), c.args.begin(), c.args.end()); a.insert(a.end(), {"-e", E, "-a", "list"});
    if (var == 1) a.insert(a.end(), {"-h", "--histogram-file", "h"});
    if (var) a.insert(a.end(), {"--block-size", var == 1 ? "2" : "1"});
    std::vector<Sec> w; std::map<std::string, uint64_t> hist; std::set<std::string> skip;
    for (size_t i = 0; i < t.texts.size(); ++i) {
      Sec x; x.label = t.names[i]; const std::string& T = t.texts[i];
      for (auto& h : orc.hits(T)) {
        auto r = around(T, h.s, h.e, c.b, c.a);
        // whether the line which follows a hit ending in a newline belongs to its lines is not specified
        bool loose = c.a >= 0 && T[h.e - 1] == '\n';
        x.lines.push_back(lineOf(h) + "\t" + std::to_string(r.first) + "\t" + (loose ? "*" : esc(decode(T.substr(r.first, r.second - r.first), E), false)));
        ++hist[esc(decode(T.substr(h.s, h.e - h.s), E), true) + "\t" + std::to_string(h.idx) + "\t" + h.pat];
      }
      w.push_back(x);
    }
    Res r = run(a, "");
    if (r.rc) { fail(key, a, "status " + std::to_string(r.rc) + " " + r.err.substr(0, 300)); continue; }
    bool whole; SV g = lines(r.out, &whole), rec; std::string d;
    if (!whole) d = "unfinished line";
    for (size_t i = 0; i < g.size() && d.empty(); ++i) {
      if (i % 2) { if (g[i] != c.sep) d = "\"" + g[i] + "\" where the separator was expected"; }
      else rec.push_back(g[i]);
    }
    if (d.empty() && !g.empty() && g.size() % 2 == 0) d = "a separator after the last hit";
    if (d.empty()) {
      // blank out what is not specified
      size_t q = 0; for (auto& s : w) { q += s.lines.size(); } (void) q;
      size_t b0 = 0;
      for (auto& s : w) { for (auto& l : s.lines) if (l.size() > 2 && l.compare(l.size() - 2, 2, "\t*") == 0) { std::string pre = (var == 1 ? "" : s.label + "\t") + l.substr(0, l.size() - 1);
          for (size_t i = b0; i < rec.size() && i < b0 + s.lines.size(); ++i) if (rec[i].compare(0, pre.size(), pre) == 0) rec[i] = pre + "*"; }
        b0 += s.lines.size(); }
      d = compare(rec, w, var != 1, false);
    }
    if (d.empty() && var == 1) {
      std::map<std::string, uint64_t> h; for (auto& l : lines(get("h"))) { size_t p = l.find('\t'); h[l.substr(p + 1)] += strtoull(l.c_str(), 0, 10); }
      if (h != hist) d = "the histogram differs";
    }
    if (!d.empty()) { fail(key, a, d); continue; }
    rep.add("traces", rec.size());
    rep.outcome(r.out);
    if (var == 2) rep.sample(key + ": " + std::to_string(rec.size()) + " hits in context");
  }
}

// histograms: every block size and source; exact contents and order
static void hist(const std::map<std::string, std::string>& A, Shard& sh) {
  int n = geti(A, "n", 6);
  Texts t = writeTexts("ab", n);
  { SV more = {"a\tb\nab\rab\aa\b\v\fb", "aab\xff" "abab", std::string("a\0b\0a\0b", 7), "\xce\xb1" "ab\xce\xb2" "ba"};
    for (auto& m : more) { t.names.push_back("t/m" + std::to_string(t.names.size())); t.texts.push_back(m); put(t.names.back(), m); } }
  std::string list; for (auto& x : t.names) list += x + "\n"; put("list", list);
  std::vector<SV> pats = {{"a"}, {"a+"}, {"ab*"}, {"a.b"}, {"a.*b"}, {"a.*?b", "ab"}, {"[ab]{1,4}"}, {"aab?|ab+a"}, {"a+b", "a+b"}, {"b", "a", "ba?"}, {"\\z61[^a]*"}, {"a[\\t\\n\\r\\a\\f\\v\\x08b]+"}, {"(ab)+a?", "b+a", "aa"}};
  for (auto& ps : pats) for (int enc = 0; enc < 3; ++enc) for (int b = 0; b <= n + 1; ++b) for (int how = 0; how < 4; ++how) {
    // how 0: with hits; 1: no output; 2: mapped; 3: from standard input, one text
    if (!sh.mine()) continue;
    std::string E = enc == 2 ? "UTF-16LE" : enc ? "ISO-8859-1" : "US-ASCII", key; for (auto& p : ps) key += p + " "; key += E + " block " + std::to_string(b) + " v" + std::to_string(how);
    if (!rep.want(key)) continue;
    rep.add("states");
    std::vector<Kw> ks; for (auto& p : ps) { Kw k; k.pat = p; k.encs = {E}; k.idx = ks.size(); ks.push_back(k); }
    Oracle orc(ks);
    SV a = kwArgs(ps); a.insert(a.end(), {"-e", E, "--histogram-file", "h"}); if (b) a.insert(a.end(), {"--block-size", std::to_string(b)});
    if (how == 1) a.push_back("--no-output"); if (how == 2) a.push_back("--mmap");
    if (how != 3) a.insert(a.end(), {"-a", "list"});
    for (size_t only = 0; only < (how == 3 ? t.texts.size() : 1); only += 9) {
      std::map<std::string, uint64_t> hist;
      for (size_t i = 0; i < t.texts.size(); ++i) {
        if (how == 3 && i != only) continue;
        for (auto& h : orc.hits(t.texts[i])) {
          std::string x = t.texts[i].substr(h.s, h.e - h.s), u;
          if (enc == 2) for (size_t j = 0; j + 1 < x.size(); j += 2) { if (x[j + 1] || (x[j] & 0x80)) u = "\1"; else if (u != "\1") u += x[j] ? std::string(1, x[j]) : "\xEF\xBF\xBD"; }
          else u = decode(x, E);
          ++hist[u + "\t" + std::to_string(h.idx) + "\t" + h.pat];
        }
      }
      Res r = run(a, how == 3 ? t.texts[only] : "");
      if (r.rc) { fail(key, a, "status " + std::to_string(r.rc) + " " + r.err.substr(0, 300)); break; }
      // descending by count, then by index, then by text
      struct Row { uint64_t n, idx; std::string text, pat; };
      std::vector<Row> rows;
      bool wide = false;
      for (auto& x : hist) { size_t p = x.first.find('\t', x.first.find_last_of('\t', x.first.find_last_of('\t') - 1)), q = x.first.find('\t', p + 1); if (x.first[0] == 1) wide = true; rows.push_back({x.second, strtoull(x.first.c_str() + p + 1, 0, 10), x.first.substr(0, p), x.first.substr(q + 1)}); }
      if (wide) break;   // UTF-16 text beyond ASCII is not produced by these
      std::sort(rows.begin(), rows.end(), [](const Row& a, const Row& b) { return std::tie(b.n, a.idx, a.text) < std::tie(a.n, b.idx, b.text); });
      std::string w; for (auto& x : rows) w += std::to_string(x.n) + "\t" + esc(x.text, true) + "\t" + std::to_string(x.idx) + "\t" + x.pat + "\n";
      std::string g = get("h");
      if (g != w) { fail(key, a, (how == 3 ? "on \"" + t.texts[only] + "\": " : "") + "histogram \"" + g.substr(0, 300) + "\" expected \"" + w.substr(0, 300) + "\""); break; }
      if (how == 1 && !r.out.empty()) { fail(key, a, "output in spite of --no-output"); break; }
      rep.add("traces", rows.size());
      rep.outcome(w);
    }
  }
}

// ----------------------------------------------------------------- validate
static void validate(const std::map<std::string, std::string>& A, Shard& sh) {
  int n = geti(A, "n", 3);
  struct L { const char* text; bool bad; bool badFixed; const char* pat; };
  std::vector<L> ls = {{"ab", 0, 0, "ab"}, {"a|", 1, 0, "a|"}, {"*b", 1, 0, "*b"}, {"[b-a]", 1, 0, "[b-a]"}, {"a\tUTF-16LE", 0, 0, "a"}, {"a\tbogus", 1, 1, "a"}, {"a?", 1, 0, "a?"}, {"", 0, 0, ""}, {"(a\tUTF-8\t1\t0", 0, 0, "(a"}, {"(a\tUTF-8\t0\t0", 1, 1, "(a"}, {"\\x{E9}\tUTF-8,US-ASCII", 1, 0, "\\x{E9}"}, {"\xCE\xB1", 1, 1, "\xCE\xB1"}};
  std::function<void(std::vector<int>&)> rec = [&](std::vector<int>& v) {
    if (!v.empty() && sh.mine()) for (int how = 0; how < 4; ++how) {
      bool F = how & 1, two = how & 2; if (two && v.size() < 2) continue;
      std::string key; for (int i : v) key += std::string(ls[i].text) + " / "; key = readable(key) + (F ? "-F" : "") + (two ? " two files" : "");
      if (!rep.want(key)) continue;
      rep.add("states");
      std::string f[2]; std::vector<std::pair<int, int>> where; int cnt[2] = {0, 0}; bool bad = false;
      for (size_t j = 0; j < v.size(); ++j) { int w = two && j >= v.size() / 2; f[w] += std::string(ls[v[j]].text) + "\n"; where.push_back({w, cnt[w]}); if (*ls[v[j]].text) ++cnt[w]; if (F ? ls[v[j]].badFixed : ls[v[j]].bad) bad = true; }
      put("v1", f[0]); put("v2", f[1]);
      SV a = {"-c", "validate"}; if (F) a.push_back("-F"); a.insert(a.end(), {"-k", "v1"}); if (two) a.insert(a.end(), {"-k", "v2"});
      Res r = run(a, "");
      if (r.rc >= 1000) { fail(key, a, "killed by signal " + std::to_string(r.rc - 1000)); continue; }
      if ((r.rc != 0) != bad) { fail(key, a, "status " + std::to_string(r.rc) + " stderr " + r.err); continue; }
      if (!r.out.empty()) { fail(key, a, "output on standard output"); continue; }
      // one line for each bad pattern, in order
      std::string w; SV el = lines(r.err); size_t k = 0; std::string d;
      for (size_t j = 0; j < v.size() && d.empty(); ++j) if (F ? ls[v[j]].badFixed : ls[v[j]].bad) {
        std::string pre = (two ? std::string(where[j].first ? "v2" : "v1") + ", " : "") + "pattern " + std::to_string(where[j].second) + " " + ls[v[j]].pat + " ";
        if (k >= el.size()) d = "no error for \"" + pre + "\""; else if (el[k].compare(0, pre.size(), pre)) d = "error \"" + el[k] + "\" where \"" + pre + "\" was expected"; ++k;
      }
      if (d.empty() && k != el.size()) d = "an error which was not expected: \"" + el[k] + "\"";
      if (!d.empty()) { fail(key, a, d); continue; }
      rep.add("traces", k);
      rep.outcome(r.err);
    }
    if ((int) v.size() < n) for (int i = 0; i < (int) ls.size(); ++i) { v.push_back(i); rec(v); v.pop_back(); }
  };
  std::vector<int> v; rec(v);
}

// ---------------------------------------------------------------- encodings
// every name which --list-encodings prints may be used, every name which may be used is printed
// once, under the canonical name of its encoding
static void encodings(Shard& sh) {
  std::vector<SV> gs = {{"--list-encodings"}, {"--list-encodings", "x", "-i"}};
  for (auto& a : gs) {
    if (!sh.mine()) continue;
    std::string key = "encs"; for (auto& x : a) key += " " + x; if (!rep.want(key)) continue;
    rep.add("states");
    Res r = run(a, "");
    if (r.rc) { fail(key, a, "status " + std::to_string(r.rc) + " " + r.err.substr(0, 300)); continue; }
    SV l = lines(r.out); if (!l.empty() && l.back().empty()) l.pop_back();
    std::string d, canon, list; std::map<std::string, std::string> at;
    for (auto& x : l) {
      bool alias = !x.empty() && x[0] == '\t'; std::string n = alias ? x.substr(1) : x; if (!alias) canon = n;
      if (n.empty() || canon.empty()) { d = "an empty name"; break; }
      if (!at.emplace(n, canon).second) { d = "'" + n + "' is named twice"; break; }
      if (n.find(',') == std::string::npos) list += "a\t" + n + "\n";   // a comma separates names there
    }
    size_t n = 0;
    for (auto& t : LG_ENCODINGS) { ++n; if (d.empty()) { auto i = at.find(t.name); if (i == at.end()) d = std::string("'") + t.name + "' is not named"; else if (i->second != LG_CANONICAL_ENCODINGS[t.idx]) d = std::string("'") + t.name + "' is named under " + i->second + ", is " + LG_CANONICAL_ENCODINGS[t.idx]; } }
    if (d.empty()) for (auto& x : at) if (lg_get_encoding_id(x.first.c_str()) < 0 || lg_get_encoding_id(x.first.c_str()) != lg_get_encoding_id(x.second.c_str())) d = "'" + x.first + "' is not " + x.second;
    if (d.empty()) { put("e", list); Res v = run({"-c", "validate", "-k", "e"}, ""); for (auto& m : lines(v.err)) if (m.find("does not exist") == std::string::npos && !m.empty()) { d = m; break; } }
    if (!d.empty()) { fail(key, a, d); continue; }
    rep.add("traces", n); rep.outcome(r.out);
  }
}

// ------------------------------------------------------------------- sample
static bool inLanguage(const std::vector<ref::P>& ps, const std::string& s) {
  ref::Matcher m(s); for (auto& p : ps) for (int e : m.ends(p.get(), 0)) if (e == (int) s.size()) return true; return false;
}
static void sample(const std::vector<Set>& sets, Shard& sh, const std::vector<int>& lims) {
  for (auto& s : sets) {
    if (!sh.mine() || !rep.want(s.key)) continue;
    rep.add("states");
    SV ps; for (auto& p : s.asts) ps.push_back(ref::print(p));
    bool ok = true;
    for (int enc = 0; enc < 2 && ok; ++enc) for (int n : lims) for (int loops = 0; loops < 3 && ok; ++loops) {
      SV a = {"-c", "sample"}; SV k = kwArgs(ps); a.insert(a.end(), k.begin(), k.end()); if (enc) a.insert(a.end(), {"-e", "UTF-16LE"}); a.push_back(std::to_string(n)); if (loops) a.push_back(std::to_string(loops));
      Res r = run(a, "");
      if (r.rc) { ok = fail(s.key, a, "status " + std::to_string(r.rc) + " " + r.err.substr(0, 200)); break; }
      bool whole; SV l = lines(r.out, &whole);
      if (!whole) { ok = fail(s.key, a, "unfinished line"); break; }
      if ((int) l.size() > n) { ok = fail(s.key, a, std::to_string(l.size()) + " samples"); break; }
      if (n && l.empty()) { ok = fail(s.key, a, "no samples"); break; }
      if (std::set<std::string>(l.begin(), l.end()).size() != l.size()) { ok = fail(s.key, a, "a sample is given twice"); break; }
      for (auto& x : l) {
        std::string y;
        if (enc) { for (size_t i = 0; i + 1 < x.size(); i += 2) if (x[i + 1]) y += '\1'; else y += x[i]; if (x.size() % 2) y += '\1'; } else y = x;
        if (!inLanguage(s.asts, y)) { ok = fail(s.key, a, "sample \"" + x + "\" does not match"); break; }
        rep.add("traces");
      }
    }
  }
}

// samples of one position with every byte, and every range between the limits of the
// groups of bytes which samples prefer; the lines are all of the same length
static void sampleBytes(Shard& sh) {
  static const int B[] = {0, 1, 9, 0x0A, 0x0D, 0x1F, 0x20, 0x21, 0x2F, 0x30, 0x39, 0x3A, 0x40, 0x41, 0x5A, 0x5B, 0x5C, 0x5D, 0x60, 0x61, 0x7A, 0x7B, 0x7E, 0x7F, 0x80, 0xA0, 0xFE, 0xFF};
  std::vector<std::vector<std::pair<int, int>>> sets;
  for (int b = 0; b < 256; ++b) sets.push_back({{b, b}});
  for (int a : B) for (int b : B) if (a < b) sets.push_back({{a, b}});
  for (int a : B) for (int b : B) if (a + 1 < b) sets.push_back({{a, a}, {b, b}});
  for (auto& rs : sets) {
    if (!sh.mine()) continue;
    std::string c; ref::Bytes in; char h[32];
    for (auto& r : rs) { snprintf(h, sizeof h, r.first == r.second ? "\\z%02X" : "\\z%02X-\\z%02X", r.first, r.second); c += h; for (int b = r.first; b <= r.second; ++b) in.set(b); }
    std::string p = "x[" + c + "]y";
    if (!rep.want(p)) continue;
    rep.add("states");
    for (int n : {1, 3, 40}) {
      SV a = {"-c", "sample", "-p", p, std::to_string(n)};
      Res r = run(a, ""); std::string d; std::set<unsigned char> got; size_t k = r.out.size() / 4;
      if (r.rc) d = "status " + std::to_string(r.rc) + " " + r.err.substr(0, 200);
      else if (r.out.size() % 4 || !k || k > (size_t) n) d = "output " + hexs(r.out);
      else for (size_t i = 0; i < k && d.empty(); ++i) {
        unsigned char b = r.out[4 * i + 1];
        if (r.out[4 * i] != 'x' || r.out[4 * i + 2] != 'y' || r.out[4 * i + 3] != '\n' || !in.test(b)) d = "sample " + hexs(r.out.substr(4 * i, 4)) + " does not match";
        else if (!got.insert(b).second) d = "a sample is given twice";
      }
      if (!d.empty()) { fail(p, a, d); break; }
      rep.add("traces", k); rep.outcome(r.out);
    }
  }
}

// -------------------------------------------------------------------- graph
// The printed machine, walked: whatever it accepts is in the pattern's language, and it
// accepts the match that the pattern has at the start of every text.
struct Machine {
  struct Edge { int to; ref::Bytes b; int label; };
  std::map<int, std::vector<Edge>> out; std::set<int> match;
  static bool bytes(const std::string& l, ref::Bytes& b) {
    std::vector<int> v;   // -1: a range sign
    for (size_t i = 0; i < l.size();) {
      if (l[i] == '\\' && i + 3 < l.size() && l[i + 1] == 'x') { v.push_back(strtol(l.substr(i + 2, 2).c_str(), 0, 16)); i += 4; }
      else if (l[i] == '\\' && i + 1 < l.size()) return false;
      else { v.push_back(l[i] == '-' ? -1 : (unsigned char) l[i]); ++i; }
    }
    for (size_t i = 0; i < v.size(); ++i) {
      if (v[i] < 0) return false;
      if (i + 2 < v.size() && v[i + 1] < 0) { for (int c = v[i]; c <= v[i + 2]; ++c) b.set(c); i += 2; } else b.set(v[i]);
    }
    return true;
  }
  std::string parse(const std::string& dot) {
    for (auto& l : lines(dot)) {
      int a, c; size_t q = l.find("label=\"");
      if (sscanf(l.c_str(), " %d -> %d", &a, &c) == 2) {
        size_t z = l.find("\", taillabel"); if (q == std::string::npos || z == std::string::npos) return "cannot read \"" + l + "\"";
        std::string t = l.substr(q + 7, z - q - 7), u; for (size_t i = 0; i < t.size(); ++i) { if (t[i] == '\\') ++i; u += t[i]; }
        Edge e; e.to = c; e.label = -1; size_t sl = u.rfind('/'); if (sl != std::string::npos) { e.label = atoi(u.c_str() + sl + 1); u.resize(sl); }
        if (!bytes(u, e.b)) return "cannot read \"" + l + "\"";
        out[a].push_back(e);
      }
      else if (l.find("peripheries=2") != std::string::npos) match.insert(atoi(l.c_str() + 2));
    }
    return "";
  }
  // ends accepted for each keyword from the start of t
  std::set<std::pair<int, int>> run(const std::string& t) {
    std::set<std::pair<int, int>> cur = {{0, -1}}, r;
    for (size_t i = 0; i < t.size(); ++i) {
      std::set<std::pair<int, int>> nx;
      for (auto& s : cur) for (auto& e : out[s.first]) if (e.b[(unsigned char) t[i]]) nx.insert({e.to, e.label >= 0 ? e.label : s.second});
      for (auto& s : nx) if (match.count(s.first)) r.insert({s.second, i + 1});
      cur.swap(nx);
    }
    return r;
  }
};
static void graph(const std::vector<Set>& sets, Shard& sh, int n) {
  SV texts = ref::strings("ab", n, n); { SV m = ref::strings("abc", 1, 4); texts.insert(texts.end(), m.begin(), m.end()); }
  for (auto& s : sets) {
    if (!sh.mine() || !rep.want(s.key)) continue;
    rep.add("states");
    SV ps; for (auto& p : s.asts) ps.push_back(ref::print(p));
    bool ok = true;
    for (int dd = 0; dd < 3 && ok; ++dd) {
      SV a = {"-c", "graph"}; SV k = kwArgs(ps); a.insert(a.end(), k.begin(), k.end()); if (dd) a.insert(a.end(), {"--determinize-depth", dd == 1 ? "0" : "3"});
      Res r = run(a, "");
      if (r.rc) { ok = fail(s.key, a, "status " + std::to_string(r.rc) + " " + r.err.substr(0, 200)); break; }
      Machine m; std::string d = m.parse(r.out); if (!d.empty()) { ok = fail(s.key, a, d); break; }
      for (auto& t : texts) {
        auto acc = m.run(t);
        ref::Matcher mm(t);
        for (size_t i = 0; i < s.asts.size() && ok; ++i) {
          ref::Ends e = mm.ends(s.asts[i].get(), 0);
          if (!e.empty() && e[0] > 0 && !acc.count({(int) i, e[0]})) { ok = fail(s.key, a, "the graph does not accept \"" + t.substr(0, e[0]) + "\" for " + ps[i]); break; }
          for (auto& x : acc) if (x.first == (int) i && std::find(e.begin(), e.end(), x.second) == e.end()) { ok = fail(s.key, a, "the graph accepts \"" + t.substr(0, x.second) + "\" for " + ps[i]); break; }
        }
        for (auto& x : acc) if (ok && (x.first < 0 || x.first >= (int) s.asts.size())) ok = fail(s.key, a, "a match without a label");
        if (!ok) break;
        rep.add("traces", acc.size());
      }
    }
  }
}

int main(int argc, char** argv) {
  auto A = lgx::args(argc, argv); rep.init(A);
  Shard sh = shard(A);
  std::string mode = A["mode"];
  char tmp[] = "/tmp/lgcliXXXXXX"; if (!mkdtemp(tmp)) { perror("mkdtemp"); return 2; }
  g_dir = tmp;
  g_sh = (Shared*) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  int size = geti(A, "size", 4), n = geti(A, "n", 6), stride = geti(A, "stride", 1);
  if (mode == "blocks" || mode == "sched") {
    std::vector<Set> v = singles(asts(size, stride));
    std::vector<ref::P> l = longs(); for (auto& s : singles(l)) v.push_back(s);
    for (size_t i = 0; i < l.size(); ++i) v.push_back(mk({l[i], l[(i + 7) % l.size()], l[(i * 5 + 3) % l.size()]}));
    if (mode == "blocks") blocks(v, sh, n); else sched(v, sh, n);
  }
  else if (mode == "args") args(A, sh);
  else if (mode == "bad") bad(sh);
  else if (mode == "context") context(A, sh);
  else if (mode == "hist") hist(A, sh);
  else if (mode == "validate") validate(A, sh);
  else if (mode == "encs") encodings(sh);
  else if (mode == "sbytes") sampleBytes(sh);
  else if (mode == "sample" || mode == "graph") {
    std::vector<Set> v = singles(asts(size, stride)); std::vector<ref::P> l = longs();
    for (auto& p : l) { std::string q = ref::print(p); if (q.find('.') == std::string::npos) v.push_back(mk({p})); }
    for (auto& x : pairs(asts(2), asts(2))) v.push_back(x);
    // loops with more than one way in, so that a walk may come to where everything has been seen
    for (const char* X : {"a", "b", "ab", "ba", "aab", "bb", "abb"}) for (const char* Y : {"b", "ab", "cb", "bba"}) for (const char* T : {"c", "cd", "a", "bd"}) if (std::string(X) != Y) {
      ref::P e = alt({lit(X), lit(Y)}), t = lit(T);
      for (auto& p : {rpt(cat({e, t}), 1, -1), cat({rpt(cat({e, t}), 0, -1), e}), cat({rpt(e, 1, -1), t}), rpt(cat({e, alt({t, lit("d")})}), 2, 3), rpt(alt({cat({lit(X), rpt(t, 0, -1)}), lit(Y)}), 1, -1),
                      cat({rpt(cat({lit(X), rpt(lit(Y), 0, 1, false), t}), 1, 2), lit("b")}), rpt(alt({cat({e, t}), cat({t, e})}), 1, -1)}) v.push_back(mk({p}));
    }
    if (mode == "graph") graph(v, sh, n); else sample(v, sh, {0, 1, 2, 20, 60});
  }
  std::error_code ec; std::filesystem::remove_all(g_dir, ec);   // made here by mkdtemp
  return rep.done();
}
