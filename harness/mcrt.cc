// Stateless model checking runtime.  The library under test and the harness
// are compiled with -fsanitize=thread, but linked with the functions below
// instead of libtsan: every load, store and synchronisation operation calls
// here.
//
// Threads are real threads of which exactly one holds the baton.  It may pass
// the baton on only at synchronisation operations (atomics, mutexes, once
// guards, rwlocks) on objects which several threads use, and when it ends.
// Plain accesses are checked for races by vector clocks; between race-free
// plain accesses the order is irrelevant, so exploring all orders of the
// synchronisation operations explores all behaviours.
//
// Each schedule runs in a fresh fork, so that once-only initialisations are
// part of what is explored.  Memory comes from one bump allocator per thread,
// never reused: addresses are the same in every schedule, and reuse of freed
// memory is not mistaken for sharing.
#include "mcrt.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <dlfcn.h>
#include <unicode/ucnv.h>
#include <unicode/uset.h>

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}

namespace {
const int MAXT = 4;                                     // 0 is the main thread
const size_t ARENA = size_t(1) << 30;

__thread int g_tid = 0;
__thread uintptr_t g_lo = 0, g_hi = 0;                  // own stack
__thread bool g_in = false;                             // inside the runtime

bool g_child = false;                                   // in a forked execution
bool g_rec = false;                                     // threads are running
char* g_arena[MAXT]; size_t g_used[MAXT];

// ------------------------------------------------------------ clocks, shadow
typedef uint16_t Clk;
struct VC { Clk c[MAXT] = {0, 0, 0, 0}; void join(const VC& o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
VC g_vc[MAXT];
struct Cell { Clk w[MAXT], r[MAXT]; };
struct Page { uintptr_t p; Cell* c; };
const size_t NPAGES = 1 << 16;
Page* g_pages;
uint64_t g_acc = 0;

char g_problem[2000];
void problem(const char* fmt, const void* a, int t, int u, const void* pc) {
  if (g_problem[0]) return;
  Dl_info d; memset(&d, 0, sizeof d);
  const char* sym = dladdr(pc, &d) && d.dli_sname ? d.dli_sname : "?";
  Dl_info o; memset(&o, 0, sizeof o);
  const char* obj = dladdr(a, &o) && o.dli_sname ? o.dli_sname : "";
  snprintf(g_problem, sizeof g_problem, fmt, obj[0] ? obj : "memory", t, sym, u);
}

Cell* cells(uintptr_t page) {
  size_t h = (page * 0x9E3779B97F4A7C15ull) >> 48;
  for (;; h = (h + 1) % NPAGES) {
    if (g_pages[h].p == page) return g_pages[h].c;
    if (!g_pages[h].p) {
      g_pages[h].p = page;
      g_pages[h].c = (Cell*) mmap(nullptr, 4096 * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      return g_pages[h].c;
    }
  }
}

inline void access(const void* a, size_t n, bool write, const void* pc) {
  if (!g_rec || !n) return;
  uintptr_t x = (uintptr_t) a;
  if (x >= g_lo && x < g_hi) return;
  ++g_acc;
  int t = g_tid; const VC& v = g_vc[t];
  while (n) {
    Cell* cs = cells(x >> 12);
    size_t o = x & 4095, m = std::min(n, 4096 - o);
    for (size_t i = o; i < o + m; ++i) {
      Cell& c = cs[i];
      for (int u = 1; u < MAXT; ++u) if (u != t) {
        if (c.w[u] > v.c[u]) problem(write ? "data race on %s: thread %d writes in %s, thread %d wrote" : "data race on %s: thread %d reads in %s, thread %d wrote", (void*) (x - o + i), t, u, pc);
        if (write && c.r[u] > v.c[u]) problem("data race on %s: thread %d writes in %s, thread %d read", (void*) (x - o + i), t, u, pc);
      }
      if (write) c.w[t] = v.c[t]; else c.r[t] = v.c[t];
    }
    x += m; n -= m;
  }
}

// ------------------------------------------------------------ scheduling
struct Shared {                                         // between parent and child
  uint32_t nchoice; uint32_t prefixLen;
  struct { uint8_t n, pick, cur; uint8_t en[MAXT]; } choice[20000];
  uint8_t prefix[20000];
  uint32_t nsync; struct { uintptr_t a; uint8_t mask; } sync[1 << 16];
  char problem[2000];
  char result[MAXT + 1][60000];
  uint64_t acc; int done; bool overflow;
};
Shared* S;
std::vector<uintptr_t>* g_shared;                       // sorted: addresses at which the baton may pass

sem_t g_sem[MAXT]; sem_t g_mainSem;
bool g_alive[MAXT]; uintptr_t g_wait[MAXT];             // wait: blocked on this address
int g_n = 0;

struct SyncObj { uintptr_t a; VC vc; int owner; int readers; uint8_t mask; uint8_t state; };
const size_t NSYNC = 1 << 16;
SyncObj* g_sync; size_t g_nsync = 0;
SyncObj& sync(uintptr_t a) {
  size_t h = (a * 0x9E3779B97F4A7C15ull) >> 48;
  while (g_sync[h].a && g_sync[h].a != a) h = (h + 1) % NSYNC;
  SyncObj& s = g_sync[h];
  if (!s.a) { if (++g_nsync >= NSYNC - 1) { S->overflow = true; --g_nsync; } s.a = a; }
  return s;
}

int choose(int cur) {                                   // cur: 0 if the current thread cannot go on
  uint8_t en[MAXT]; int n = 0;
  if (cur) en[n++] = cur;
  for (int t = 1; t <= g_n; ++t) if (t != cur && g_alive[t] && !g_wait[t]) en[n++] = t;
  if (!n) return 0;
  uint32_t k = S->nchoice;
  if (k >= 20000) { S->overflow = true; return en[0]; }
  int pick = k < S->prefixLen ? S->prefix[k] : 0;
  if (pick >= n) { S->overflow = true; pick = 0; }
  auto& c = S->choice[k]; c.n = n; c.pick = pick; c.cur = cur; memcpy(c.en, en, MAXT);
  S->nchoice = k + 1;
  return en[pick];
}

void pass(int to) {
  int me = g_tid;
  if (to == me) return;
  sem_post(&g_sem[to]);
  while (sem_wait(&g_sem[me])) {}
}

void finish() {                                         // the current thread ends
  int n = choose(0);
  if (n) { sem_post(&g_sem[n]); return; }
  for (int t = 1; t <= g_n; ++t) if (g_alive[t] && !g_problem[0]) snprintf(g_problem, sizeof g_problem, "deadlock: thread %d waits for a lock for ever", t);
  sem_post(&g_mainSem);
}

// a synchronisation operation is about to happen
void point(uintptr_t a) {
  if (!g_rec || g_in) return;
  g_in = true;
  SyncObj& s = sync(a); s.mask |= 1 << g_tid;
  if (g_n > 1 && std::binary_search(g_shared->begin(), g_shared->end(), a)) pass(choose(g_tid));
  g_in = false;
}
void acqrel(uintptr_t a) {
  if (!g_rec) return;
  SyncObj& s = sync(a); int t = g_tid;
  g_vc[t].join(s.vc);
  s.vc.join(g_vc[t]);
  if (++g_vc[t].c[t] == 65000) S->overflow = true;
}
void block(uintptr_t a) {
  g_wait[g_tid] = a;
  int n = choose(0);
  if (!n) { if (!g_problem[0]) snprintf(g_problem, sizeof g_problem, "deadlock: thread %d waits for a lock", g_tid); sem_post(&g_mainSem); for (;;) pause(); }
  pass(n);
}
void wake(uintptr_t a) { for (int t = 1; t <= g_n; ++t) if (g_wait[t] == a) g_wait[t] = 0; }

struct Start { int t; const std::function<std::string()>* f; };
void* threadMain(void* p) {
  Start* st = (Start*) p; g_tid = st->t;
  pthread_attr_t at; pthread_getattr_np(pthread_self(), &at);
  void* lo; size_t sz; pthread_attr_getstack(&at, &lo, &sz); pthread_attr_destroy(&at);
  g_lo = (uintptr_t) lo; g_hi = g_lo + sz;
  while (sem_wait(&g_sem[st->t])) {}
  std::string r;
  try { r = (*st->f)(); } catch (const std::exception& e) { r = std::string("exception: ") + e.what(); } catch (...) { r = "exception"; }
  g_in = true;
  snprintf(S->result[st->t], sizeof S->result[0], "%s", r.c_str());
  g_alive[st->t] = false;
  finish();
  return nullptr;
}

void onCrash(int sig) {
  snprintf(S->problem, sizeof S->problem, sig == SIGALRM ? "no result after 100 s" : "invalid memory access or abort (signal %d) in thread %d", sig, g_tid);
  S->done = 1;
  _exit(0);
}

void child(const mc::Scenario& s, unsigned mask) {
  g_child = true;
  static char stk[65536]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = stk; ss.ss_size = sizeof stk; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onCrash; sa.sa_flags = SA_ONSTACK;
  for (int g : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGALRM}) sigaction(g, &sa, nullptr);
  alarm(100);
  g_pages = (Page*) mmap(nullptr, NPAGES * sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g_sync = (SyncObj*) mmap(nullptr, NSYNC * sizeof(SyncObj), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  s.setup();
  g_n = s.bodies.size();
  Start st[MAXT]; pthread_t th[MAXT];
  sem_init(&g_mainSem, 0, 0);
  for (int t = 1; t <= g_n; ++t) {
    sem_init(&g_sem[t], 0, 0);
    g_vc[t].c[t] = 1;
    g_alive[t] = mask >> t & 1;
    st[t] = Start{t, &s.bodies[t - 1]};
  }
  for (int t = 1; t <= g_n; ++t) if (g_alive[t]) pthread_create(&th[t], nullptr, threadMain, &st[t]);
  g_rec = true;
  finish();
  while (sem_wait(&g_mainSem)) {}
  g_rec = false;
  if (!g_problem[0]) {
    for (int t = 1; t <= g_n; ++t) if (mask >> t & 1) pthread_join(th[t], nullptr);
    if (s.after) { std::string r = s.after(); snprintf(S->result[MAXT], sizeof S->result[0], "%s", r.c_str()); }
  }
  memcpy(S->problem, g_problem, sizeof g_problem);
  S->nsync = g_nsync;
  for (size_t i = 0, j = 0; i < NSYNC && j < g_nsync; ++i) if (g_sync[i].a) { S->sync[j].a = g_sync[i].a; S->sync[j++].mask = g_sync[i].mask; }
  S->acc = g_acc; S->done = 1;
  _exit(0);
}

void execute(const mc::Scenario& s, unsigned mask) {
  S->nchoice = 0; S->nsync = 0; S->problem[0] = 0; S->done = 0; S->acc = 0; S->overflow = false;
  for (int i = 0; i <= MAXT; ++i) S->result[i][0] = 0;
  fflush(stdout);
  pid_t p = fork();
  if (!p) child(s, mask);
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (!S->done && !S->problem[0]) snprintf(S->problem, sizeof S->problem, "the process ended (status %d)", st);
}
}  // namespace

namespace mc {
Result explore(const Scenario& s, int preempt, uint64_t maxSchedules, const std::string& only) {
  Result R;
  if (!S) {
    S = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (int i = 0; i < MAXT; ++i) g_arena[i] = (char*) mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  }
  std::vector<uintptr_t> shared; g_shared = &shared;
  std::map<uintptr_t, unsigned> masks;
  int n = s.bodies.size();
  auto note = [&] {
    R.accesses += S->acc; ++R.schedules; R.steps += S->nchoice;
    if (S->overflow) R.complete = false;
    bool grew = false;
    for (uint32_t i = 0; i < S->nsync; ++i) {
      unsigned& m = masks[S->sync[i].a]; unsigned o = m; m |= S->sync[i].mask;
      if (m != o && (m & (m - 1)) && !((o & (o - 1)))) grew = true;
    }
    if (grew) { shared.clear(); for (auto& e : masks) if (e.second & (e.second - 1)) shared.push_back(e.first); }
    return grew;
  };
  auto desc = [&] { std::string d; for (uint32_t i = 0; i < S->nchoice; ++i) d += char('0' + S->choice[i].pick); while (!d.empty() && d.back() == '0') d.pop_back(); return d; };

  // each thread alone
  std::vector<std::string> want(n + 1);
  S->prefixLen = 0;
  for (int t = 1; t <= n; ++t) {
    execute(s, 1u << t); note();
    if (S->problem[0]) { R.problem = std::string("thread ") + std::to_string(t) + " alone: " + S->problem; return R; }
    want[t] = S->result[t];
    R.results.push_back(want[t]);
  }
  std::string wantAfter;

restart:
  std::vector<uint8_t> prefix;
  bool first = true;
  if (!only.empty()) { for (char c : only) if (c != '.') prefix.push_back(c - '0'); }
  for (;;) {
    S->prefixLen = prefix.size(); memcpy(S->prefix, prefix.data(), prefix.size());
    execute(s, (2u << n) - 2);
    std::string prob = S->problem;
    if (prob.empty()) for (int t = 1; t <= n && prob.empty(); ++t)
      if (want[t] != S->result[t]) prob = "thread " + std::to_string(t) + " observed " + S->result[t] + ", alone it observes " + want[t];
    if (prob.empty() && s.after) {
      if (wantAfter.empty()) wantAfter = S->result[MAXT];
      else if (wantAfter != S->result[MAXT]) prob = std::string("afterwards ") + S->result[MAXT] + ", in another schedule " + wantAfter;
    }
    if (!prob.empty()) { note(); R.problem = prob; R.schedule = desc(); return R; }
    if (note() && only.empty()) goto restart;
    if (!only.empty()) return R;
    if (first) { R.syncAddrs = shared.size(); first = false; }
    if (R.schedules >= maxSchedules) { R.complete = false; return R; }
    // next schedule, depth first
    int k = S->nchoice;
    std::vector<int> pre(k + 1, 0);                     // preemptions before choice i
    for (int i = 0; i < k; ++i) pre[i + 1] = pre[i] + (S->choice[i].cur && S->choice[i].pick);
    int i = k - 1;
    for (; i >= 0; --i) {
      auto& c = S->choice[i];
      if (c.pick + 1 < c.n && (preempt < 0 || !c.cur || pre[i] + 1 <= preempt)) break;
    }
    if (i < 0) break;
    prefix.clear();
    for (int j = 0; j < i; ++j) prefix.push_back(S->choice[j].pick);
    prefix.push_back(S->choice[i].pick + 1);
  }
  return R;
}
}  // namespace mc

// ------------------------------------------------------------ allocation
static void* bump(size_t n, size_t al) {
  int t = g_tid;
  if (al < 16) al = 16;
  size_t u = (g_used[t] + 16 + al - 1) & ~(al - 1);
  if (u + n > ARENA) { errno = ENOMEM; return nullptr; }
  char* p = g_arena[t] + u;
  ((size_t*) p)[-1] = n;
  g_used[t] = u + n;
  return p;
}
static bool inArena(void* p) { for (int t = 0; t < MAXT; ++t) if ((char*) p >= g_arena[t] && (char*) p < g_arena[t] + ARENA) return g_arena[t]; return false; }
extern "C" {
void* malloc(size_t n) { return g_child ? bump(n, 16) : __libc_malloc(n); }
// a freed object is written to, as far as races are concerned
void free(void* p) {
  if (!p) return;
  if (inArena(p)) { access(p, ((size_t*) p)[-1], true, __builtin_return_address(0)); return; }
  __libc_free(p);
}
void* calloc(size_t a, size_t b) {
  if (!g_child) return __libc_calloc(a, b);
  size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr;
  return bump(n, 16);                                   // fresh pages are zero
}
void* realloc(void* p, size_t n) {
  if (p && !inArena(p)) return __libc_realloc(p, n);
  if (!g_child) return p ? nullptr : __libc_malloc(n);
  void* q = bump(n, 16);
  if (p && q) memcpy(q, p, std::min(n, ((size_t*) p)[-1]));
  return q;
}
void* memalign(size_t a, size_t n) { return g_child ? bump(n, a) : __libc_memalign(a, n); }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** p, size_t a, size_t n) { *p = memalign(a, n); return *p ? 0 : ENOMEM; }

// ------------------------------------------------------------ instrumentation
#define RA __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void* a) { access(a, n, false, RA); } \
  void __tsan_write##n(void* a) { access(a, n, true, RA); } \
  void __tsan_unaligned_read##n(void* a) { access(a, n, false, RA); } \
  void __tsan_unaligned_write##n(void* a) { access(a, n, true, RA); } \
  void __tsan_read_write##n(void* a) { access(a, n, true, RA); } \
  void __tsan_unaligned_read_write##n(void* a) { access(a, n, true, RA); } \
  void __tsan_volatile_read##n(void* a) { access(a, n, false, RA); } \
  void __tsan_volatile_write##n(void* a) { access(a, n, true, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { access(a, n, false, RA); }
void __tsan_write_range(void* a, size_t n) { access(a, n, true, RA); }
void __tsan_vptr_update(void** a, void* v) { if (*a != v) access(a, 8, true, RA); else access(a, 8, false, RA); }
void __tsan_vptr_read(void** a) { access(a, 8, false, RA); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { access(s, n, false, RA); access(d, n, true, RA); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { access(s, n, false, RA); access(d, n, true, RA); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { access(d, n, true, RA); return memset(d, c, n); }

// the C library's functions, as called from instrumented code
size_t __real_strlen(const char*); int __real_strcmp(const char*, const char*); int __real_memcmp(const void*, const void*, size_t); void* __real_memchr(const void*, int, size_t);
size_t __wrap_strlen(const char* a) { size_t n = __real_strlen(a); access(a, n + 1, false, RA); return n; }
int __wrap_strcmp(const char* a, const char* b) { access(a, __real_strlen(a) + 1, false, RA); access(b, __real_strlen(b) + 1, false, RA); return __real_strcmp(a, b); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { access(a, n, false, RA); access(b, n, false, RA); return __real_memcmp(a, b, n); }
void* __wrap_memchr(const void* a, int c, size_t n) { access(a, n, false, RA); return __real_memchr(a, c, n); }

// ICU is not instrumented: using a converter counts as writing to it (and to
// the buffers it is given), changing a set as writing to it
#define WRAP(f) U_ICU_ENTRY_POINT_RENAME(__wrap_##f)
#define REAL(f) U_ICU_ENTRY_POINT_RENAME(__real_##f)
void REAL(ucnv_convertEx)(UConverter*, UConverter*, char**, const char*, const char**, const char*, UChar*, UChar**, UChar**, const UChar*, UBool, UBool, UErrorCode*);
void WRAP(ucnv_convertEx)(UConverter* a, UConverter* b, char** t, const char* te, const char** s, const char* se, UChar* p, UChar** ps, UChar** pt, const UChar* pe, UBool r, UBool f, UErrorCode* e) {
  access(a, 8, true, RA); access(b, 8, true, RA); access(p, 2, true, RA); access(ps, 8, true, RA); access(pt, 8, true, RA); access(s, 8, true, RA); access(t, 8, true, RA);
  const char *s0 = *s, *t0 = *t;
  REAL(ucnv_convertEx)(a, b, t, te, s, se, p, ps, pt, pe, r, f, e);
  access(s0, *s - s0, false, RA); access(t0, *t - t0, true, RA);
}
UChar32 REAL(ucnv_getNextUChar)(UConverter*, const char**, const char*, UErrorCode*);
UChar32 WRAP(ucnv_getNextUChar)(UConverter* a, const char** s, const char* se, UErrorCode* e) {
  access(a, 8, true, RA); access(s, 8, true, RA); const char* s0 = *s;
  UChar32 r = REAL(ucnv_getNextUChar)(a, s, se, e);
  access(s0, *s - s0, false, RA);
  return r;
}
void REAL(ucnv_resetToUnicode)(UConverter*);
void WRAP(ucnv_resetToUnicode)(UConverter* a) { access(a, 8, true, RA); REAL(ucnv_resetToUnicode)(a); }
void REAL(ucnv_close)(UConverter*);
void WRAP(ucnv_close)(UConverter* a) { access(a, 8, true, RA); REAL(ucnv_close)(a); }
void REAL(uset_addRange)(USet*, UChar32, UChar32);
void WRAP(uset_addRange)(USet* a, UChar32 b, UChar32 c) { access(a, 8, true, RA); REAL(uset_addRange)(a, b, c); }
void REAL(uset_clear)(USet*);
void WRAP(uset_clear)(USet* a) { access(a, 8, true, RA); REAL(uset_clear)(a); }
void REAL(uset_closeOver)(USet*, int32_t);
void WRAP(uset_closeOver)(USet* a, int32_t b) { access(a, 8, true, RA); REAL(uset_closeOver)(a, b); }
void REAL(uset_close)(USet*);
void WRAP(uset_close)(USet* a) { access(a, 8, true, RA); REAL(uset_close)(a); }
int32_t REAL(uset_size)(const USet*);
int32_t WRAP(uset_size)(const USet* a) { access(a, 8, false, RA); return REAL(uset_size)(a); }
int32_t REAL(uset_serialize)(const USet*, uint16_t*, int32_t, UErrorCode*);
int32_t WRAP(uset_serialize)(const USet* a, uint16_t* b, int32_t n, UErrorCode* e) { access(a, 8, false, RA); int32_t r = REAL(uset_serialize)(a, b, n, e); access(b, 2 * std::max(0, std::min(n, r)), true, RA); return r; }

#define ATOMIC(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T* a, int) { point((uintptr_t) a); T v = __atomic_load_n(a, __ATOMIC_SEQ_CST); acqrel((uintptr_t) a); return v; } \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int) { point((uintptr_t) a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); acqrel((uintptr_t) a); } \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { point((uintptr_t) a); T r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); acqrel((uintptr_t) a); return r; } \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { point((uintptr_t) a); T r = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); acqrel((uintptr_t) a); return r; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { point((uintptr_t) a); T r = __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); acqrel((uintptr_t) a); return r; } \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { point((uintptr_t) a); T r = __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); acqrel((uintptr_t) a); return r; } \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { point((uintptr_t) a); T r = __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); acqrel((uintptr_t) a); return r; } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { point((uintptr_t) a); T r = __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); acqrel((uintptr_t) a); return r; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { point((uintptr_t) a); int r = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); acqrel((uintptr_t) a); return r; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { point((uintptr_t) a); int r = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); acqrel((uintptr_t) a); return r; } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) { point((uintptr_t) a); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); acqrel((uintptr_t) a); return c; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------ locks, guards
static int lock(uintptr_t a, bool shared, bool tryit) {
  point(a);
  SyncObj& s = sync(a);
  while (shared ? s.owner != 0 : (s.owner != 0 || s.readers)) {
    if (s.owner == g_tid && !shared) { ++s.state; return 0; }       // recursive
    if (tryit) return EBUSY;
    block(a);
  }
  if (shared) ++s.readers; else { s.owner = g_tid; s.state = 1; }
  acqrel(a);
  return 0;
}
static int unlock(uintptr_t a) {
  SyncObj& s = sync(a);
  acqrel(a);
  if (s.owner == g_tid) { if (!--s.state) s.owner = 0; } else if (s.readers) --s.readers;
  wake(a);
  point(a);
  return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { return g_rec ? lock((uintptr_t) m, false, false) : 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { return g_rec ? lock((uintptr_t) m, false, true) : 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { return g_rec ? unlock((uintptr_t) m) : 0; }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { return g_rec ? lock((uintptr_t) m, true, false) : 0; }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { return g_rec ? lock((uintptr_t) m, false, false) : 0; }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { return g_rec ? unlock((uintptr_t) m) : 0; }

// function-local statics: the first byte of the guard is the "done" flag
int __wrap___cxa_guard_acquire(uint64_t* g) {
  char* b = (char*) g;
  if (!g_rec) { if (*b) return 0; return 1; }
  uintptr_t a = (uintptr_t) g;
  point(a);
  SyncObj& s = sync(a);
  while (!*b && s.owner) block(a);
  acqrel(a);
  if (*b) return 0;
  s.owner = g_tid;
  return 1;
}
void __wrap___cxa_guard_release(uint64_t* g) {
  *(char*) g = 1;
  if (!g_rec) return;
  uintptr_t a = (uintptr_t) g;
  acqrel(a); sync(a).owner = 0; wake(a); point(a);
}
void __wrap___cxa_guard_abort(uint64_t* g) {
  if (!g_rec) return;
  uintptr_t a = (uintptr_t) g;
  acqrel(a); sync(a).owner = 0; wake(a); point(a);
}
int __wrap_pthread_once(pthread_once_t* o, void (*f)()) {
  // its own flag, beside the real one, which stays unused
  uintptr_t a = (uintptr_t) o;
  SyncObj& s = sync(a);
  if (g_rec) { point(a); while (s.state != 1 && s.owner) block(a); acqrel(a); }
  if (s.state == 1) return 0;
  s.owner = g_tid ? g_tid : MAXT;
  f();
  s.state = 1; s.owner = 0;
  if (g_rec) { acqrel(a); wake(a); point(a); }
  return 0;
}
}
