// P07: independent handles may be used from different threads.  Every pair (and
// triple) of thread bodies, each a short history of API calls, is run on the
// real code under every schedule; see mcrt.cc.
#define LGX_NO_SIGNALS
#include "lgx.h"
#include "mcrt.h"
using namespace lgx;

static Report rep;

// what the threads share: a program (made from an FSM), its serialisation,
// texts; and what each has to itself
static Fsm* F; static Prog* P; static std::string* Buf; static std::string* Text;
static Prog* Own[4]; static Ctx* OwnCtx[4]; static Ctx* Mid[4]; static std::string* Back[4];

static void setup() {
  F = new Fsm;
  int i = 0;
  for (Pat p : {Pat{"ab+c?", "UTF-8"}, Pat{"a.{2}[b-d]", "UTF-16LE"}, Pat{"\\x{E9}|k", "UTF-8", Opts{false, true, true}}, Pat{"b(c|ab)*d", "ISO-8859-1"}}) { p.user = 10 + i++; F->add(p); }
  P = new Prog(F->h, 3);
  Buf = new std::string(lg_program_size(P->h), '\0'); lg_write_program(P->h, &(*Buf)[0]);
  Text = new std::string("xabbcabdK\xC3\xA9 bcabababd \xE2\x84\xAA", 24);
  *Text += std::string("a\0x\0y\0b\0ab\0", 11) + "bcd";
  for (int t = 1; t < 4; ++t) {
    Own[t] = new Prog(F->h, t == 2 ? 0 : 100); OwnCtx[t] = new Ctx(Own[t]->h); Mid[t] = new Ctx(P->h); Hits h; Mid[t]->search(Text->data(), Text->data() + 4, 0, h);
    Back[t] = new std::string(*Buf);
  }
}

static std::string chunks(Ctx& c, int t) {
  Hits h; const char *b = Text->data(), *e = b + Text->size(), *m = b + 5 * t;
  uint64_t r = c.search(b, m, 0, h); c.search(m, e, m - b, h); c.closeout(h);
  return show(h) + " " + std::to_string(r);
}

static std::string infos(LG_HPROGRAM p) {
  std::string r; unsigned n = lg_prog_pattern_count(p);
  for (unsigned i = 0; i < n; ++i) { const LG_PatternInfo* q = lg_prog_pattern_info(p, i); r += std::string(q->Pattern) + "," + q->EncodingChain + "," + std::to_string(q->UserIndex) + ";"; }
  return r;
}

static std::string compile(int t) {
  Fsm f; std::string r;
  const Pat ps[] = {{"[\\x{E0}-\\x{FF}]b?", "UTF-8"}, {"ab", "windows-1252|OCE"}, {"(a|b{2})+?c", "caesar13|UTF-16BE", Opts{false, true, false}}, {"a(", "UTF-8"}, {"a+", "BOGUS"}};
  for (int i = 0; i < 5; ++i) { std::string e; r += std::to_string(f.add(ps[(i + t) % 5], &e)) + e + ";"; }
  Prog p(f.h, t == 1 ? 0 : 50);
  if (!p) return "no program";
  Ctx c(p.h); Hits h = c.whole(*Text);
  return r + show(h);
}

static std::string decode(int t) {
  LG_HDECODER d = lg_create_decoder(); std::string r;
  for (const char* enc : {"UTF-8", "UTF-16LE", "windows-1252", "UTF-8|OCE"}) {
    LG_Window in{uint64_t(3 * t), uint64_t(3 * t + 4)}; LG_Window out{0, 0}, dh{0, 0}; const char* utf8 = nullptr;
    unsigned bad = lg_hit_context(d, Text->data(), Text->data() + Text->size(), 0, &in, enc, 3, 0xFFFD, &utf8, &out, &dh, nullptr);
    r += std::to_string(bad) + "," + std::to_string(out.begin) + "-" + std::to_string(out.end) + "," + std::to_string(dh.begin) + "-" + std::to_string(dh.end) + "," + (utf8 ? utf8 : "null") + ";";
    lg_free_hit_context_string(utf8);
  }
  lg_destroy_decoder(d);
  return r;
}

static std::string list(int t) {
  Fsm f; const char* encs[] = {"UTF-8", "ISO-8859-1"}; LG_KeyOptions o{0, char(t == 2), 0}; LG_Error* e = nullptr;
  int r = lg_add_pattern_list(f.h, "ab\nc(\nb.\tUTF-16LE\t0\t1\nd\tNOPE\n", "list", encs, 2, &o, &e);
  Err own; own.e = e; std::string s = std::to_string(r);
  for (; e; e = e->Next) s += std::string(";") + e->Message + "@" + std::to_string(e->Index);
  Prog p(f.h, 10); Ctx c(p.h);
  return s + infos(p.h) + show(c.whole(*Text));
}

struct Body { char name; const char* what; std::string (*f)(int); };
static const Body B[] = {
  {'S', "makes a context of the shared program, searches in two blocks, destroys it", [](int t) { Ctx c(P->h); return chunks(c, t); }},
  {'C', "goes on with a search begun before", [](int t) { Hits h; const char* b = Text->data(); Mid[t]->search(b + 4, b + Text->size(), 4, h); Mid[t]->closeout(h); Mid[t]->reset(); std::string r = chunks(*Mid[t], t); return show(h) + r; }},
  {'W', "anchored searches", [](int t) { Ctx c(P->h); Hits h; const char* b = Text->data(); for (int i = 0; i < 8; ++i) c.starts(b + i * t, b + Text->size(), i, h); return show(h); }},
  {'R', "searches and resolves", [](int t) { Hits h; const char* b = Text->data(); Mid[t]->resolve(b + 4, b + 4 + 3 * t, 4, h); return show(h); }},
  {'I', "reads the shared program's patterns, size and serialisation", [](int t) { std::string s(lg_program_size(P->h), '\0'); lg_write_program(P->h, &s[0]); return infos(P->h) + std::to_string(std::hash<std::string>()(s)) + (s == *Buf ? "" : "!") + std::to_string(t); }},
  {'L', "makes a program of serialised bytes and searches with it", [](int t) { std::string r; LG_HPROGRAM p = lg_read_program(Back[t]->data(), Back[t]->size()); { Ctx c(p); r = infos(p) + chunks(c, t); } lg_destroy_program(p); return r; }},
  {'P', "parses, adds patterns to its own set, makes a program, searches", compile},
  {'D', "decodes hits with its own decoder", decode},
  {'F', "adds to the set the program was made from, makes another program of it", [](int t) { std::string e; int r = F->add(Pat{"cab", "UTF-16BE", Opts(), 99}, &e); Prog p(F->h, t * 2); Ctx c(p.h); return std::to_string(r) + e + infos(p.h) + chunks(c, t); }},
  {'X', "searches with its own program of the same set and destroys it", [](int t) { std::string r = chunks(*OwnCtx[t], t) + infos(Own[t]->h); delete OwnCtx[t]; OwnCtx[t] = nullptr; delete Own[t]; Own[t] = nullptr; return r; }},
  {'A', "adds a pattern list with errors to its own set", list},
};
static const int NB = sizeof B / sizeof *B;

static std::string after() {
  Ctx c(P->h);
  return infos(P->h) + chunks(c, 1);
}

int main(int argc, char** argv) {
  auto A = args(argc, argv); rep.init(A); Shard sh = shard(A);
  int k = geti(A, "k", 2), preempt = geti(A, "preempt", -1), max = geti(A, "max", 20000);
  std::vector<int> id(k, 0);
  for (;;) {
    bool ok = true; int nf = 0;
    for (int i = 0; i < k; ++i) { if (i && id[i] < id[i - 1]) ok = false; nf += B[id[i]].name == 'F'; }
    if (nf > 1) ok = false;                             // one set of patterns is not for two threads
    if (ok && sh.mine()) {
      std::string base; for (int i : id) base += B[i].name;
      std::string sched; bool go = true;
      if (rep.hasOnly) { go = rep.only.compare(0, base.size(), base) == 0 && rep.only.size() > base.size() && rep.only[base.size()] == ' '; if (go) sched = rep.only.substr(base.size() + 1); }
      if (go) {
        mc::Scenario s; s.setup = setup; s.after = after;
        for (int i = 0; i < k; ++i) { auto f = B[id[i]].f; int t = i + 1; s.bodies.push_back([f, t] { return f(t); }); }
        mc::Result r = mc::explore(s, preempt, max, sched == "alone" ? "" : sched);
        rep.add("states", 1); rep.add("schedules", r.schedules); rep.add("transitions", r.steps); rep.add("accesses", r.accesses); rep.add("shared_sync_objects", r.syncAddrs);
        rep.add("traces", r.schedules);
        if (!r.complete) rep.add("scenarios_cut");
        for (auto& x : r.results) rep.outcome(x);
        if (getenv("CONC_V")) { printf("%s schedules %llu steps %llu acc %llu sync %llu%s\n", base.c_str(), (unsigned long long) r.schedules, (unsigned long long) r.steps, (unsigned long long) r.accesses, (unsigned long long) r.syncAddrs, r.complete ? "" : " CUT"); for (auto& x : r.results) printf("   %s\n", x.substr(0, 150).c_str()); }
        if (!r.problem.empty()) {
          std::string d; for (int i : id) d += std::string(" | ") + B[i].what;
          rep.violation(base + " " + (r.schedule.empty() ? "." : r.schedule), "threads" + d + ": " + r.problem);
        } else if (base == "FX" || base == "SS" || base == "SIF") rep.sample(base + ": " + std::to_string(r.schedules) + " schedules");
      }
    }
    if (rep.full()) return rep.done();
    int j = k - 1; while (j >= 0 && ++id[j] == NB) id[j--] = 0;
    if (j < 0) break;
  }
  return rep.done();
}
