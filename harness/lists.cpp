// P17: pattern lists.  Every bounded sequence of line kinds is given to
// lg_add_pattern_list, under every combination of line terminator, default
// encodings, default options, error pointer, source and earlier patterns.  The
// result must be what adding the lines' patterns one at a time gives.
#include "lgx.h"
using namespace lgx;

static Report rep;

struct Line {
  const char* text;
  const char* pat;
  std::vector<std::string> encs; bool dflt;   // dflt: default encodings
  int fix, ic, uni;                            // -1: default
  bool bad;                                    // an option column which is neither 0 nor 1
};
static const std::vector<Line> L = {
  {"ab", "ab", {}, true, -1, -1, -1, false},
  {"A.\tASCII", "A.", {"ASCII"}, false, -1, -1, -1, false},
  {"A.\tUTF-8,UTF-16LE\t1", "A.", {"UTF-8", "UTF-16LE"}, false, 1, -1, -1, false},
  {"ab\tUTF-16LE\t0\t1", "ab", {"UTF-16LE"}, false, 0, 1, -1, false},
  {"\\x{E9}|k\tUTF-8\t0\t1\t1", "\\x{E9}|k", {"UTF-8"}, false, 0, 1, 1, false},
  {"\\w|k\tUTF-8\t0\t1\t0", "\\w|k", {"UTF-8"}, false, 0, 1, 0, false},
  {"\\w|k\tUTF-8\t0\t0\t1", "\\w|k", {"UTF-8"}, false, 0, 0, 1, false},
  {"a(", "a(", {}, true, -1, -1, -1, false},
  {"a(\tUTF-8\t0", "a(", {"UTF-8"}, false, 0, -1, -1, false},
  {"a(\tUTF-8\t1\t0", "a(", {"UTF-8"}, false, 1, 0, -1, false},
  {"ab\tBOGUS", "ab", {"BOGUS"}, false, -1, -1, -1, false},
  {"b+\tASCII,BOGUS,UTF-16BE,rot12|UTF-8", "b+", {"ASCII", "BOGUS", "UTF-16BE", "rot12|UTF-8"}, false, -1, -1, -1, false},
  {"\\x{20AC}\tASCII,UTF-8,ISO-8859-1", "\\x{20AC}", {"ASCII", "UTF-8", "ISO-8859-1"}, false, -1, -1, -1, false},
  {"a*\tASCII\t0", "a*", {"ASCII"}, false, 0, -1, -1, false},
  {" b ,c\tUTF-8|OCE,ASCII", " b ,c", {"UTF-8|OCE", "ASCII"}, false, -1, -1, -1, false},
  {"ab\tASCII\tx", "ab", {"ASCII"}, false, 0, 0, 0, true},
  {"ab\tASCII\t0\t2\t0", "ab", {"ASCII"}, false, 0, 0, 0, true},
  {"ab\tASCII\t0\t0\tyes", "ab", {"ASCII"}, false, 0, 0, 0, true},
};
struct Term { const char *lead, *sep, *end; };
static const Term T[] = {{"", "\n", "\n"}, {"", "\n", ""}, {"\n\n", "\r\n", "\r\n"}, {"", "\r", "\n\r\n"}, {"\r", "\n\n\n", ""}};
static const std::vector<std::vector<const char*>> D = {{"ASCII"}, {}, {"UTF-8", "UTF-16LE", "BOGUS", "ISO-8859-1"}};
static const Opts O[] = {{false, false, false}, {true, false, true}, {false, true, false}};

struct Want { std::string pat, enc; bool hasEnc, hasMsg; std::string msg; int idx; };

static std::string str(const char* s) { return s ? std::string("'") + s + "'" : "null"; }

static const std::string* texts() {
  static std::string t[2];
  if (t[0].empty()) {
    t[0] = std::string("abABa(A.Ax K\xE2\x84\xAA\xC3\xA9\xC3\x89\xE9\xE2\x82\xAC b ,c") + "\xC2\xA0" + "a_bbb9";
    t[1] = std::string("a\0b\0A\0B\0.\0A\0.\0\0b\0b\0b\x20\xAC", 24);
  }
  return t;
}

static std::string run(const std::vector<int>& seq, int ti, int di, int oi, bool nullErr, bool nullSrc, int early, bool hits) {
  std::string list = T[ti].lead;
  for (size_t i = 0; i < seq.size(); ++i) { if (i) list += T[ti].sep; list += L[seq[i]].text; }
  if (!seq.empty()) list += T[ti].end;

  Fsm f, g;
  for (int i = 0; i < early; ++i) {
    Pat p{i ? "z" : "bA", "UTF-8", Opts(), 100u + i};
    if (f.add(p) != i || g.add(p) != i) return "adding an earlier pattern failed";
  }
  // one at a time
  std::vector<Want> errs; std::vector<Pat> pats;
  for (size_t i = 0; i < seq.size(); ++i) {
    const Line& l = L[seq[i]];
    if (l.bad) { errs.push_back({l.pat, "", false, false, "", (int) i}); continue; }
    Opts o = O[oi];
    if (l.fix >= 0) o.fixed = l.fix;
    if (l.ic >= 0) o.icase = l.ic;
    if (l.uni >= 0) o.uni = l.uni;
    std::vector<std::string> encs = l.encs;
    if (l.dflt) for (const char* d : D[di]) encs.push_back(d);
    Pattern p; std::string msg;
    if (!p.parse(l.pat, o, &msg)) { errs.push_back({l.pat, "", false, true, msg, (int) i}); continue; }
    for (auto& e : encs) {
      msg.clear();
      int r = g.add(p, e, i, &msg);
      if (r < 0) errs.push_back({l.pat, e, true, true, msg, (int) i});
      else pats.push_back({l.pat, e, o, i});
    }
  }

  LG_KeyOptions ko = O[oi].ko();
  LG_Error* err = nullptr;
  std::vector<const char*> de = D[di];
  const char* none[1] = {nullptr};
  std::string src = "some/list.txt";
  // neither the list nor its defaults need outlive the call
  int r = lg_add_pattern_list(f.h, list.c_str(), nullSrc ? nullptr : src.c_str(), de.empty() ? none : de.data(), de.size(), &ko, nullErr ? nullptr : &err);
  Err own; own.e = err;
  std::fill(list.begin(), list.end(), '#'); std::fill(src.begin(), src.end(), '#');

  if (r != (errs.empty() ? 0 : -1)) return "returned " + std::to_string(r) + ", with " + std::to_string(errs.size()) + " errors";
  if (!nullErr) {
    const LG_Error* e = err;
    for (auto& w : errs) {
      if (!e) return "the error of line " + std::to_string(w.idx) + " is missing";
      if (e->Index != w.idx) return "error has line " + std::to_string(e->Index) + ", should be " + std::to_string(w.idx);
      if (!e->Message || !*e->Message || (w.hasMsg && w.msg != e->Message)) return "error message " + str(e->Message) + ", adding it alone gives '" + w.msg + "'";
      if (!e->Pattern || w.pat != e->Pattern) return "error has pattern " + str(e->Pattern) + ", should be " + w.pat;
      if (w.hasEnc ? !e->EncodingChain || w.enc != e->EncodingChain : e->EncodingChain != nullptr) return "error has encoding " + str(e->EncodingChain);
      if (nullSrc ? e->Source != nullptr : !e->Source || strcmp(e->Source, "some/list.txt")) return "error has source " + str(e->Source);
      e = e->Next;
    }
    if (e) return std::string("an error too many, line ") + std::to_string(e->Index) + ": " + str(e->Message);
  }
  if (lg_fsm_pattern_count(f.h) != early + pats.size()) return "has " + std::to_string(lg_fsm_pattern_count(f.h)) + " patterns, should have " + std::to_string(early + pats.size());
  for (size_t i = 0; i < pats.size(); ++i) {
    const LG_PatternInfo* p = lg_fsm_pattern_info(f.h, early + i);
    if (pats[i].pat != p->Pattern || pats[i].enc != p->EncodingChain || pats[i].user != p->UserIndex)
      return "pattern " + std::to_string(early + i) + " is " + str(p->Pattern) + " " + str(p->EncodingChain) + " " + std::to_string(p->UserIndex);
  }
  rep.add("transitions", pats.size() + errs.size());
  if (!hits) return "";
  if (early + pats.size() == 0) return "";
  // it finds what patterns added one at a time find
  Prog P(f.h, UINT32_MAX), Q(g.h, UINT32_MAX);
  if (!P || !Q) return "no program";
  Ctx c(P.h), d(Q.h);
  for (int i = 0; i < 2; ++i) {
    Hits a = c.whole(texts()[i]), b = d.whole(texts()[i]);
    if (byKey(a) != byKey(b)) return "hits " + show(a) + " in " + hexs(texts()[i]) + ", patterns added one at a time " + show(b);
    rep.add("traces", a.size());
  }
  return "";
}

int main(int argc, char** argv) {
  auto A = args(argc, argv); rep.init(A); Shard sh = shard(A);
  int N = geti(A, "n", 3), full = geti(A, "full", 2);
  int K = L.size();
  for (int n = 0; n <= N; ++n) {
    std::vector<int> id(n, 0);
    for (;;) {
      if (sh.mine()) {
        std::string key = "list";
        for (int i : id) key += " " + std::to_string(i);
        if (rep.want(key)) {
          rep.add("states");
          bool stop = false;
          for (int v = 0; !stop && v < 5 * 3 * 3 * 2 * 2 * 2; ++v) {
            int x = v, ti = x % 5, di = (x /= 5) % 3, oi = (x /= 3) % 3; x /= 3;
            bool ne = x % 2, ns = x / 2 % 2; int early = x / 4 % 2 * 2;
            // longer sequences: a covering part of the combinations
            if (n > full && (v % 31) != (int) (sh.c % 31)) continue;
            std::string d = run(id, ti, di, oi, ne, ns, early, n <= 1 || ti == (int) (sh.c % 5));
            rep.add("lists");
            if (!d.empty()) {
              std::string s; for (int i : id) s += std::string(L[i].text) + "\n";
              rep.violation(key, "list " + s + " variant " + std::to_string(v) + ": " + d); stop = true;
            }
          }
          rep.outcome(key);
        }
      }
      if (rep.full()) return rep.done();
      int j = n - 1; while (j >= 0 && ++id[j] == K) id[j--] = 0;
      if (j < 0) break;
    }
  }
  return rep.done();
}
