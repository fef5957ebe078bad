// P13: a character pattern in an encoding matches exactly the encodings of its characters
#include "lgx.h"
#include <lightgrep/encodings.h>
#include <lightgrep/util.h>
#include <unicode/ucnv.h>
#include <unicode/utf16.h>
using namespace lgx;
static Report rep;

static const uint32_t NCP = 0x110000;
typedef std::vector<std::string> Map;      // code point -> bytes ("" if it has none)

static std::string utf(const std::string& e, uint32_t c) {
  if (c >= 0x110000 || (c >= 0xD800 && c < 0xE000)) return "";
  std::string r; auto b = [&](uint32_t x) { r += char(x); };
  if (e == "UTF-8") {
    if (c < 0x80) b(c); else if (c < 0x800) { b(0xC0 | c >> 6); b(0x80 | (c & 63)); }
    else if (c < 0x10000) { b(0xE0 | c >> 12); b(0x80 | (c >> 6 & 63)); b(0x80 | (c & 63)); }
    else { b(0xF0 | c >> 18); b(0x80 | (c >> 12 & 63)); b(0x80 | (c >> 6 & 63)); b(0x80 | (c & 63)); }
    return r;
  }
  std::vector<uint32_t> u; int w = 2;
  if (e.compare(0, 6, "UTF-32") == 0) { w = 4; u.push_back(c); }
  else if (c < 0x10000) u.push_back(c); else { u.push_back(0xD800 + ((c - 0x10000) >> 10)); u.push_back(0xDC00 + ((c - 0x10000) & 1023)); }
  bool le = e[e.size() - 2] == 'L';
  for (uint32_t x : u) for (int i = 0; i < w; ++i) b(x >> 8 * (le ? i : w - 1 - i));
  return r;
}

struct Enc {
  std::string name; Map lit, cls; size_t maxLen = 1; bool ok = true;
  // lit: what a literal is encoded as; cls: those which also decode to themselves
  explicit Enc(const std::string& n): name(n), lit(NCP), cls(NCP) {
    if (n == "ASCII") { for (int c = 0; c < 128; ++c) lit[c] = cls[c] = std::string(1, char(c)); return; }
    if (n.compare(0, 4, "UTF-") == 0) { for (uint32_t c = 0; c < NCP; ++c) { lit[c] = cls[c] = utf(n, c); maxLen = std::max(maxLen, lit[c].size()); } return; }
    UErrorCode e = U_ZERO_ERROR; UConverter* v = ucnv_open(n.c_str(), &e);
    if (U_FAILURE(e)) { ok = false; return; }
    ucnv_setFromUCallBack(v, UCNV_FROM_U_CALLBACK_STOP, 0, 0, 0, &e); ucnv_setToUCallBack(v, UCNV_TO_U_CALLBACK_STOP, 0, 0, 0, &e);
    for (uint32_t c = 0; c < NCP; ++c) {
      if (c >= 0xD800 && c < 0xE000) continue;
      UChar u[2]; int k = 0; U16_APPEND_UNSAFE(u, k, c);
      char b[32]; e = U_ZERO_ERROR; int m = ucnv_fromUChars(v, b, sizeof b, u, k, &e);
      if (e > U_ZERO_ERROR || m <= 0) continue;
      lit[c].assign(b, m); maxLen = std::max<size_t>(maxLen, m);
      UChar o[8]; e = U_ZERO_ERROR; int j = ucnv_toUChars(v, o, 8, b, m, &e);
      if (e <= U_ZERO_ERROR && j == k && std::equal(u, u + k, o)) cls[c] = lit[c];
    }
    ucnv_close(v);
  }
};

typedef std::vector<std::pair<uint32_t, uint32_t>> Ranges;   // inclusive
static std::string cc(const Ranges& r, bool neg = false) {
  std::string s = neg ? "[^" : "["; char b[64];
  for (auto& x : r) { snprintf(b, sizeof b, x.first == x.second ? "\\x{%x}" : "\\x{%x}-\\x{%x}", x.first, x.second); s += b; }
  return s + "]";
}

// the whole language of a program by exploring every byte string which it has not died on
struct Explorer {
  Ctx c; size_t maxLen; uint64_t steps = 0; bool hit0; size_t end;
  Explorer(LG_HPROGRAM p, size_t m): c(p), maxLen(m) {}
  static void cb(void* u, const LG_SearchHit* h) { Explorer* x = (Explorer*) u; if (h->Start == 0) { x->hit0 = true; x->end = h->End; } }
  bool live(const char* b, size_t n) {
    ++steps; hit0 = false; c.reset();
    uint64_t r = lg_search(c.h, b, b + n, 0, this, cb);
    lg_closeout_search(c.h, this, cb);
    return r == 0;
  }
  // f(string, matched length or 0)
  void run(const std::function<void(const std::string&, size_t)>& f, int first = -1) {
    std::string s; go(s, f, first);
  }
  void go(std::string& s, const std::function<void(const std::string&, size_t)>& f, int first) {
    s.push_back(0);
    for (int b = 0; b < 256; ++b) {
      if (first >= 0 && b != first) continue;
      s.back() = char(b);
      bool l = live(s.data(), s.size());
      if (hit0) f(s, end);
      if (l && s.size() < maxLen) go(s, f, -1);
    }
    s.pop_back();
  }
};

static bool compile(const std::string& pat, const std::string& enc, std::unique_ptr<Fsm>& f, std::unique_ptr<Prog>& p, std::string& err, unsigned depth = 10) {
  Pat t; t.pat = pat; t.enc = enc; f.reset(new Fsm);
  if (f->add(t, &err) < 0) return false;
  p.reset(new Prog(f->h, depth)); return bool(*p);
}

static void checkClass(const Enc& E, const Ranges& rs, bool neg, const std::string& key, const std::string& patOverride = "") {
  if (!rep.want(key) || rep.full()) return;
  std::string pat = patOverride.empty() ? cc(rs, neg) : patOverride;
  std::set<std::string> want, may;   // may: one-way mappings
  {
    std::vector<bool> in; // membership
    if (neg) { in.assign(NCP, true); for (auto& r : rs) for (uint32_t c = r.first; c <= r.second; ++c) in[c] = false; for (uint32_t c = 0; c < NCP; ++c) if (in[c] && !E.lit[c].empty()) (E.cls[c].empty() ? may : want).insert(E.lit[c]); }
    else for (auto& r : rs) for (uint32_t c = r.first; c <= r.second && c < NCP; ++c) if (!E.lit[c].empty()) (E.cls[c].empty() ? may : want).insert(E.lit[c]);
  }
  rep.add("states");
  std::unique_ptr<Fsm> f; std::unique_ptr<Prog> p; std::string err;
  if (!compile(pat, E.name, f, p, err)) {
    if (!want.empty()) rep.violation(key, pat + " in " + E.name + " is rejected (" + err + "), matches " + std::to_string(want.size()) + " characters");
    else if (err.empty()) rep.violation(key, "rejected without a message");
    rep.add("rejected"); return;
  }
  if (want.empty() && may.empty()) { rep.violation(key, pat + " in " + E.name + " is accepted, but matches nothing"); return; }
  Explorer x(p->h, E.maxLen);
  size_t found = 0; bool bad = false;
  auto prefixed = [&](const std::string& s) { for (size_t i = 1; i < s.size(); ++i) if (want.count(s.substr(0, i))) return true; return false; };
  x.run([&](const std::string& s, size_t n) {
    if (bad) return;
    if (!want.count(s.substr(0, n))) { if (may.count(s.substr(0, n))) return; bad = true; rep.violation(key, pat + " in " + E.name + " matches " + hexs(s.substr(0, n)) + ", which encodes none of its characters"); return; }
    if (n == s.size()) ++found;
  });
  rep.add("transitions", x.steps); rep.add("traces", found);
  if (bad) return;
  size_t expect = 0; for (auto& s : want) if (!prefixed(s)) ++expect; else if (found) { }
  if (found < expect || found > want.size()) {
    std::string miss; Ctx c(p->h);
    for (auto& s : want) if (!prefixed(s)) { Hits h = c.whole(s); if (h.empty() || h[0].s != 0 || h[0].e != s.size()) { miss = hexs(s); break; } }
    rep.violation(key, pat + " in " + E.name + " matches " + std::to_string(found) + " byte sequences, should match " + std::to_string(expect) + (miss.empty() ? "" : "; not " + miss));
  }
  rep.outcome(E.name + std::to_string(found));
}

static std::string rkey(const Enc& E, const Ranges& r, bool neg) {
  std::string k = "class " + E.name + (neg ? " ^" : " "); char b[32];
  for (auto& x : r) { snprintf(b, sizeof b, "%x-%x,", x.first, x.second); k += b; }
  return k;
}

// every literal of a block of code points, in one program
static void checkLits(const Enc& E, uint32_t lo, uint32_t hi, bool fixed, bool all) {
  char kb[96]; snprintf(kb, sizeof kb, "lit %s %x-%x%s", E.name.c_str(), lo, hi, fixed ? " fixed" : "");
  if (!rep.want(kb) || rep.full()) return;
  Fsm f; std::vector<uint32_t> cps;
  Pattern h;
  for (uint32_t c = lo; c < hi; ++c) {
    Opts o; o.fixed = fixed; std::string p, err; char b[32];
    if (fixed) { p = utf("UTF-8", c); if (p.empty() || !c) continue; } else { snprintf(b, sizeof b, "\\x{%x}", c); p = b; }
    bool surr = c >= 0xD800 && c < 0xE000;
    if (!all && E.lit[c].empty() && c >= 0x180 && c % 251 && E.name.compare(0, 4, "UTF-") != 0) continue;
    if (surr && E.name.compare(0, 4, "UTF-") != 0) continue;     // up to the encoding
    rep.add("states");
    bool ok = h.parse(p, o, &err); int idx = -1;
    if (ok) { idx = f.add(h, E.name, c, &err); ok = idx >= 0; } else if (!surr) { rep.violation(kb, "U+" + p + " does not parse: " + err); return; }
    bool want = !E.lit[c].empty();
    if (ok != want) { rep.violation(kb, p + " in " + E.name + (ok ? " is accepted, but cannot be encoded" : " is rejected, but is encoded as " + hexs(E.lit[c])) + " " + err); return; }
    if (!ok) { rep.add("rejected"); continue; }
    if (idx != (int) cps.size()) { rep.violation(kb, "index " + std::to_string(idx)); return; }
    cps.push_back(c);
  }
  if (cps.empty()) return;
  Prog p(f.h, 10); if (!p) { rep.violation(kb, "no program"); return; }
  Ctx c(p.h);
  std::map<std::string, std::vector<uint32_t>> by; for (size_t i = 0; i < cps.size(); ++i) by[E.lit[cps[i]]].push_back(i);
  for (auto& x : by) {
    Hits g, w; c.starts(x.first.data(), x.first.data() + x.first.size(), 7, g);
    for (size_t n = 1; n <= x.first.size(); ++n) { auto i = by.find(x.first.substr(0, n)); if (i != by.end()) for (uint32_t k : i->second) w.push_back(Hit{7, 7 + n, k}); }
    std::sort(g.begin(), g.end()); std::sort(w.begin(), w.end());
    rep.add("transitions"); rep.add("traces");
    if (g != w) { rep.violation(kb, E.name + " " + hexs(x.first) + ": " + show(g) + ", should be " + show(w)); return; }
  }
  rep.outcome(kb);
}

// Outlook's "compressible encryption": the substitution of [MS-PST] 5.1
static const unsigned char PERM[256] = {
#include "oce.inc"
};

int main(int argc, char** argv) {
  auto A = args(argc, argv); Shard sh = shard(A); rep.init(A);
  std::string mode = A["mode"];
  static const char* UT[] = {"UTF-8", "UTF-16LE", "UTF-16BE", "UTF-32BE", "UTF-32LE", "ASCII"};
  const size_t NE = sizeof LG_CANONICAL_ENCODINGS / sizeof *LG_CANONICAL_ENCODINGS;
  std::vector<std::string> names; for (size_t i = 0; i < NE; ++i) names.push_back(LG_CANONICAL_ENCODINGS[i]); names.push_back("ASCII");
  if (A.count("enc")) names = {A["enc"]};

  if (mode == "full") {          // every character in every encoding
    for (auto& n : names) {
      if (n == "UTF-32LE" && !geti(A, "le32", 0)) continue;
      if (!sh.mine()) continue;
      Enc E(n); if (!E.ok) { rep.violation("full " + n, "ICU does not know it"); continue; }
      checkClass(E, {{0, 0x10FFFF}}, false, "full " + n);
      checkClass(E, {{0, 0x10FFFF}}, false, "dot " + n, ".");
      checkClass(E, {{'a', 'a'}}, true, "not-a " + n);
    }
  }
  else if (mode == "lits") {     // every code point as a literal in every encoding
    uint32_t B = 4096; bool all = geti(A, "all", 0);
    for (auto& n : names) {
      if (!sh.mine()) continue;
      Enc E(n); if (!E.ok) continue;
      for (uint32_t lo = 0; lo < NCP; lo += B) {
        bool any = all || lo == 0 || lo == 0xD000 || lo == 0xF000 || lo == 0x10F000;
        if (!any && lo < 0x20000 && n.compare(0, 4, "UTF-") != 0) for (uint32_t c = lo; c < lo + B; ++c) if (!E.lit[c].empty()) { any = true; break; }
        if (!any) continue;
        checkLits(E, lo, lo + B, false, all);
        if (geti(A, "fixed", 0)) checkLits(E, lo, lo + B, true, all);
      }
    }
  }
  else if (mode == "ranges") {   // all ranges and pairs of ranges between the places where encodings change
    std::vector<uint32_t> pts = {0, 1, 0x3F, 0x40, 0x7F, 0x80, 0xBF, 0xC0, 0xFF, 0x100, 0x7FF, 0x800, 0x83F, 0x840, 0xFFF, 0x1000, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xFFBF, 0xFFC0, 0xFFFF, 0x10000, 0x1003F, 0x10040, 0x103FF, 0x10400, 0x10FFF, 0x11000};
    std::vector<uint32_t> sm = {0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFF, 0x10000};
    if (geti(A, "full", 0)) for (uint32_t c : {0x3FFFFu, 0x40000u, 0xFFFFFu, 0x100000u, 0x10FFBFu, 0x10FFFEu, 0x10FFFFu}) pts.push_back(c);
    bool pairs = geti(A, "pairs", 1);
    for (auto& n : A.count("enc") ? names : std::vector<std::string>(UT, UT + 5)) {
      std::unique_ptr<Enc> E;
      auto go = [&](const Ranges& r, bool neg) { if (!sh.mine()) return; if (!E) E.reset(new Enc(n)); checkClass(*E, r, neg, rkey(*E, r, neg)); };
      if (geti(A, "single", 1)) for (size_t i = 0; i < pts.size(); ++i) for (size_t j = i; j < pts.size(); ++j) go({{pts[i], pts[j]}}, false);
      if (pairs) for (size_t a = 0; a < sm.size(); ++a) for (size_t b = a; b < sm.size(); ++b) for (size_t c = b + 1; c < sm.size(); ++c) for (size_t d = c; d < sm.size(); ++d) go({{sm[a], sm[b]}, {sm[c], sm[d]}}, false);
      // small sets of scattered characters, three at a time
      if (geti(A, "tri", 0)) { static const uint32_t q[] = {0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xE001, 0xFFFF, 0x10000, 0x10FFFF}; for (uint32_t a : q) for (uint32_t b : q) for (uint32_t c : q) if (a < b && b < c) go({{a, a}, {b, b}, {c, c}}, false); }
      if (geti(A, "triples", 1)) for (size_t a = 0; a < pts.size(); ++a) for (size_t b = a + 1; b < pts.size(); ++b) for (size_t c = b + 1; c < pts.size(); ++c) go({{pts[a], pts[a]}, {pts[b], pts[b]}, {pts[c], pts[c]}}, false);
    }
  }
  else if (mode == "cjk") {      // ranges and scattered sets within the characters of each multi-byte encoding
    for (auto& n : names) {
      if (n.compare(0, 4, "UTF-") == 0) continue;
      if (!sh.mine()) continue;
      Enc E(n); if (!E.ok || E.maxLen < 2) continue;
      std::vector<uint32_t> v; for (uint32_t c = 0; c < NCP; ++c) if (!E.cls[c].empty()) v.push_back(c);
      size_t K = geti(A, "K", 12);
      std::vector<uint32_t> p; for (size_t i = 0; i < K; ++i) p.push_back(v[i * (v.size() - 1) / (K - 1)]);
      for (size_t i = 0; i < K; ++i) for (size_t j = i; j < K; ++j) { Ranges r{{p[i], p[j]}}; checkClass(E, r, false, rkey(E, r, false)); }
      for (size_t i = 0; i < K; ++i) for (size_t j = i + 1; j < K; ++j) for (size_t k = j + 1; k < K; ++k) { Ranges r{{p[i], p[i]}, {p[j], p[j] + 3}, {p[k], p[k]}}; checkClass(E, r, false, rkey(E, r, false)); }
    }
  }
  else if (mode == "chains") {   // transformation chains: all short sequences of tokens
    for (int i = 0, seen[256] = {0}; i < 256; ++i) if (seen[PERM[i]]++) abort();
    struct Tok { const char* t; int kind; const char* enc; };   // 0 char transform, 1 encoding, 2 byte transform, 3 both transforms, 4 neither
    static const Tok T[] = {{"identity", 3, ""}, {"OCE", 2, ""}, {"UTF-8", 1, "UTF-8"}, {"UTF-16LE", 1, "UTF-16LE"}, {"windows-1252", 1, "ibm-5348_P100-1997"}, {"UTF-32BE", 1, "UTF-32BE"}, {"ASCII", 1, "ASCII"}, {"ibm-943_P15A-2003", 1, "ibm-943_P15A-2003"}, {"bogus", 4, ""}, {"rot13", 4, ""}, {"XOR5", 4, ""}, {"oce", 5, ""}};
    const int NT = sizeof T / sizeof *T, L = geti(A, "n", 4);
    std::map<std::string, std::unique_ptr<Enc>> base;
    for (int n = 1; n <= L; ++n) {
      std::vector<int> id(n, 0);
      for (;;) {
        if (sh.mine()) {
          std::string chain; int st = 0, oce = 0; bool ok = true, unspec = false; const char* e = 0;
          for (int i : id) {
            chain += (chain.empty() ? "" : "|") + std::string(T[i].t);
            int k = T[i].kind;
            if (k == 5) unspec = true;
            if (k == 4 || (st == 0 && k == 2) || (st == 1 && k == 1)) ok = false;
            if (st == 0 && k == 1) { st = 1; e = T[i].enc; } else if (st == 1 && k == 2) ++oce;
          }
          ok = ok && st == 1;
          std::string key = "chain " + chain;
          if (!unspec && rep.want(key)) {
            rep.add("states");
            Pat t; t.pat = "a"; t.enc = chain; Fsm f; std::string err; int r = f.add(t, &err); rep.add("transitions");
            if ((r >= 0) != ok) rep.violation(key, "'" + chain + "' is " + (r >= 0 ? "accepted" : "rejected: " + err));
            else if (!ok && err.empty()) rep.violation(key, "rejected without a message");
            else if (ok) {
              auto& B = base[e]; if (!B) B.reset(new Enc(e));
              // a few characters of every length
              std::vector<uint32_t> cps = {0, 'A', 'a', 'b', 'z', 0x7F, 0x80, 0xE9, 0xFF, 0x100, 0x416, 0x7FF, 0x800, 0x2028, 0x30A2, 0x4E00, 0xFFFD, 0x10000, 0x1F600, 0x10FFFF};
              std::map<uint32_t, std::string> tr; for (uint32_t c : cps) { std::string v = B->cls[c]; for (int k = 0; k < oce; ++k) for (auto& b : v) b = char(PERM[(unsigned char) b]); tr[c] = v; }
              // each alone, all together as a class, and in a sequence
              std::string text; Fsm g; std::vector<uint32_t> in; Ranges rs;
              for (uint32_t c : cps) if (!tr[c].empty()) { in.push_back(c); rs.push_back({c, c}); }
              bool bad = false;
              for (uint32_t c : in) { Pat q; char b[32]; snprintf(b, sizeof b, "\\x{%x}", c); q.pat = b; q.enc = chain; if (g.add(q, &err) < 0) { rep.violation(key, q.pat + " in " + chain + " is rejected: " + err); bad = true; break; } }
              Pat q; q.pat = cc(rs); q.enc = chain; if (!bad && g.add(q, &err) < 0) { rep.violation(key, q.pat + " in " + chain + " is rejected: " + err); bad = true; }
              q.pat = "a.b"; if (!bad && g.add(q, &err) < 0) { rep.violation(key, q.pat + " in " + chain + " is rejected: " + err); bad = true; }
              if (!bad) {
                Prog p(g.h, 10); Ctx c(p.h);
                for (size_t i = 0; i < in.size(); ++i) {
                  const std::string& v = tr[in[i]]; Hits h, w; c.starts(v.data(), v.data() + v.size(), 0, h); std::sort(h.begin(), h.end()); w = {Hit{0, v.size(), (uint32_t) i}, Hit{0, v.size(), (uint32_t) in.size()}};
                  rep.add("transitions"); rep.add("traces");
                  if (h != w) { rep.violation(key, chain + ": " + hexs(v) + " gives " + show(h) + ", should give " + show(w)); bad = true; break; }
                  std::string s = tr['a'] + v + tr['b']; h.clear(); c.starts(s.data(), s.data() + s.size(), 0, h);
                  bool got = false; for (auto& y : h) got |= y.k == in.size() + 1 && y.e == s.size();
                  if (!got) { rep.violation(key, "a.b in " + chain + " does not match " + hexs(s)); bad = true; break; }
                }
                // and nothing else: the class explored
                if (!bad && n <= 2) {
                  std::set<std::string> want; for (uint32_t k : in) want.insert(tr[k]);
                  std::unique_ptr<Fsm> ff; std::unique_ptr<Prog> pp; compile(cc(rs), chain, ff, pp, err); Explorer x(pp->h, B->maxLen); size_t found = 0;
                  x.run([&](const std::string& s2, size_t m) { if (!want.count(s2.substr(0, m))) { if (!bad) rep.violation(key, cc(rs) + " in " + chain + " matches " + hexs(s2)); bad = true; } else if (m == s2.size()) ++found; });
                  rep.add("transitions", x.steps); if (!bad && found != want.size()) rep.violation(key, cc(rs) + " in " + chain + " matches " + std::to_string(found) + " byte sequences of " + std::to_string(want.size()));
                }
              }
              rep.outcome(std::string(e) + std::to_string(oce));
            } else rep.add("rejected");
          }
        }
        int j = n - 1; while (j >= 0 && ++id[j] == NT) id[j--] = 0;
        if (j < 0) break;
      }
    }
    // whole encodings through the substitution
    for (auto& n : names) {
      if (n == "UTF-32LE" || !sh.mine()) continue;
      Enc E(n); if (!E.ok) continue;
      for (auto* m : {&E.lit, &E.cls}) for (auto& v : *m) for (auto& b : v) b = char(PERM[(unsigned char) b]);
      E.name += "|OCE";
      if (n.compare(0, 3, "UTF") == 0 || E.maxLen > 1) { checkClass(E, {{0x20, 0x7e}, {0x3B1, 0x3C9}, {0x4E00, 0x4E80}, {0x1F600, 0x1F640}}, false, "oce " + n); continue; }
      checkClass(E, {{0, 0x10FFFF}}, false, "oce " + n);
    }
  }
  else if (mode == "decode") {   // every character's encoding decodes to it
    LG_HDECODER H = lg_create_decoder();
    for (auto& n : names) for (int oce = 0; oce < 2; ++oce) {
      if (!sh.mine()) continue;
      Enc E(n); if (!E.ok) continue;
      std::string chain = oce ? n + "|OCE" : n;
      const uint32_t B = 32; uint32_t step = n.compare(0, 4, "UTF-") == 0 ? 1 : 1;
      std::string key = "decode " + chain; if (!rep.want(key)) continue;
      std::vector<uint32_t> cs; for (uint32_t c = 0; c < NCP; c += step) if (!E.cls[c].empty()) cs.push_back(c);
      rep.add("states");
      for (size_t i = 0; i < cs.size(); i += B) {
        std::string t; std::vector<size_t> at; size_t m = std::min<size_t>(B, cs.size() - i);
        for (size_t k = 0; k < m; ++k) { at.push_back(t.size()); t += E.cls[cs[i + k]]; }
        if (oce) for (auto& b : t) b = char(PERM[(unsigned char) b]);
        at.push_back(t.size());
        // the middle character is the hit, all others its context
        size_t h = m / 2; LG_Window in{at[h], at[h + 1]}, dh; int32_t* ch = 0; size_t* of = 0; size_t len = 0; LG_Error* err = 0;
        bool whole = E.maxLen == 1 || n.compare(0, 4, "UTF-") == 0;      // others do not synchronize backwards
        if (!whole) { in.begin = 0; h = 0; in.end = at[1]; }
        unsigned bad = lg_read_window(H, t.data(), t.data() + t.size(), 0, &in, chain.c_str(), whole ? m : 0, m, &ch, &of, &len, &dh, &err);
        rep.add("transitions");
        if (err) { rep.violation(key, chain + ": " + err->Message); lg_free_error(err); break; }
        bool ok = bad == 0 && len == m + 1 && dh.begin == h && dh.end == h + 1; size_t k = 0;
        for (; ok && k < m; ++k) ok = ch[k] == (int32_t) cs[i + k] && of[k] == at[k];
        lg_free_window_characters(ch); lg_free_window_offsets(of);
        rep.add("traces", m);
        if (!ok) { char b[64]; snprintf(b, sizeof b, "U+%04X to U+%04X", cs[i], cs[i + m - 1]); rep.violation(key, chain + ": " + hexs(t) + " does not decode to " + b); break; }
      }
      rep.outcome(chain);
    }
  }
  else if (mode == "names") {    // every advertised name
    std::map<std::string, unsigned> all; for (auto& t : LG_ENCODINGS) all[t.name] = t.idx;
    auto lower = [](std::string s) { for (auto& c : s) c = tolower((unsigned char) c); return s; };
    std::map<std::string, unsigned> low; for (auto& x : all) low[lower(x.first)] = x.second;   // names are compared without case
    auto id = [&](const std::string& s) {
      std::string key = "name " + hexs(s); if (!rep.want(key)) return;
      auto i = low.find(lower(s)); int w = i == low.end() ? -1 : (int) i->second, g = lg_get_encoding_id(s.c_str());
      rep.add("states"); rep.add("transitions");
      if (g != w) rep.violation(key, "'" + s + "' is " + std::to_string(g) + ", should be " + std::to_string(w));
      Pat t; t.pat = "a"; t.enc = s; Fsm f; std::string err; int r = f.add(t, &err);
      bool should = w >= 0 || s == "ASCII";
      bool chain = s.find('|') != std::string::npos;
      if (!chain && (r >= 0) != should && !(should && err.find("does not exist") != std::string::npos)) rep.violation(key, "adding with '" + s + "' " + (r >= 0 ? "succeeds" : "fails: " + err));
    };
    if (sh.mine()) for (auto& x : all) {
      id(x.first);
      for (size_t i = 0; i < x.first.size(); ++i) { std::string s = x.first; s.erase(i, 1); id(s); s = x.first; s[i] = s[i] == 'X' ? 'Y' : 'X'; id(s); s = x.first; s[i] ^= 32; if (s[i] > 32 && s[i] < 127) id(s); }
      for (char c : std::string("0A_-z ")) { id(x.first + c); id(std::string(1, c) + x.first); }
    }
    if (sh.mine()) for (auto& s : {"", " ", "|", "||", "UTF", "utf-8", "identity", "OCE", "ROT13", "XOR"}) id(s);
    for (unsigned idx = 0; idx < NE; ++idx) if (sh.mine()) {
     std::unique_ptr<Enc> E(new Enc(LG_CANONICAL_ENCODINGS[idx])); if (!E->ok) continue;
     for (auto& x : all) {       // an alias is its canonical encoding
      if (x.second != idx) continue;
      std::string key = "alias " + x.first; if (!rep.want(key)) continue;
      std::string t; std::vector<std::pair<uint32_t, size_t>> at; uint32_t n = 0;
      for (uint32_t c = 0x21; c < 0x10000 && n < 300; ++c) if (!E->cls[c].empty()) { at.push_back({c, t.size()}); t += E->cls[c]; ++n; if (n > 120) c += 37; }
      Fsm f; bool ok = true; std::string err; std::vector<Pat> ps;
      for (auto& a : at) { char b[32]; snprintf(b, sizeof b, "\\x{%x}", a.first); Pat p; p.pat = b; p.enc = x.first; if (f.add(p, &err) < 0) { rep.violation(key, p.pat + " in " + x.first + ": " + err); ok = false; break; } }
      if (!ok) continue;
      Prog p(f.h, 10); Ctx c(p.h); rep.add("states");
      for (size_t i = 0; i < at.size(); ++i) {
        const std::string& e = E->cls[at[i].first]; Hits h; c.starts(e.data(), e.data() + e.size(), 0, h); rep.add("transitions"); rep.add("traces");
        bool got = false; for (auto& q : h) got |= q.k == i && q.e == e.size();
        if (!got) { rep.violation(key, "U+" + std::to_string(at[i].first) + " in " + x.first + " is not found as " + hexs(e)); break; }
      }
     }
    }
  }
  return rep.done();
}
