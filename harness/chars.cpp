// P11: character classes denote the documented sets; P12: case-insensitivity.
// The set of characters a pattern matches is read off one search of a UTF-8
// text holding every code point, and compared with ICU's own per-character data.
#include "lgx.h"
#include "refre.h"
#include <unicode/uchar.h>
#include <unicode/uscript.h>
#include <unicode/ustring.h>
#include <unicode/utf16.h>
using namespace lgx;
static Report rep;
static const uint32_t NCP = 0x110000;
typedef std::vector<bool> CSet;

static std::string u8(uint32_t c) {
  std::string r; auto b = [&](uint32_t x) { r += char(x); };
  if (c < 0x80) b(c); else if (c < 0x800) { b(0xC0 | c >> 6); b(0x80 | (c & 63)); }
  else if (c < 0x10000) { b(0xE0 | c >> 12); b(0x80 | (c >> 6 & 63)); b(0x80 | (c & 63)); }
  else { b(0xF0 | c >> 18); b(0x80 | (c >> 12 & 63)); b(0x80 | (c >> 6 & 63)); b(0x80 | (c & 63)); }
  return r;
}
static bool surr(uint32_t c) { return c >= 0xD800 && c < 0xE000; }

// a text of characters, and where each starts
struct Text {
  std::string t; std::vector<uint32_t> cps; std::vector<size_t> at; std::map<size_t, size_t> idx;
  void add(uint32_t c) { if (surr(c)) return; idx[t.size()] = cps.size(); at.push_back(t.size()); cps.push_back(c); t += u8(c); }
};
static Text& full() { static Text x; if (x.cps.empty()) for (uint32_t c = 0; c < NCP; ++c) x.add(c); return x; }

// what does a one-character pattern match?  false: rejected
static bool matched(const std::string& pat, const Opts& o, const Text& T, std::vector<bool>& got, std::string& err) {
  Pat p; p.pat = pat; p.o = o; Fsm f;
  if (f.add(p, &err) < 0) return false;
  Prog pr(f.h, 10); if (!pr) { err = "no program"; return false; }
  Ctx c(pr.h); Hits h = c.whole(T.t);
  rep.add("transitions");
  got.assign(T.cps.size(), false);
  size_t k = 0;
  for (auto& x : h) {
    while (k < T.at.size() && T.at[k] < x.s) ++k;
    size_t e = k + 1 < T.at.size() ? T.at[k + 1] : T.t.size();
    if (k >= T.at.size() || T.at[k] != x.s || e != x.e) { err = "a hit " + std::to_string(x.s) + "-" + std::to_string(x.e) + " is not one character"; return true; }
    got[k] = true;
  }
  return true;
}
static std::string hex(uint32_t c) { char b[16]; snprintf(b, sizeof b, "U+%04X", c); return b; }

// in: which characters it should match
static void checkSet(const std::string& key, const std::string& pat, const Opts& o, const Text& T, const std::function<bool(uint32_t)>& in, const std::function<bool(uint32_t)>& unsure = nullptr) {
  if (!rep.want(key) || rep.full()) return;
  rep.add("states");
  std::vector<bool> got; std::string err;
  bool ok = matched(pat, o, T, got, err);
  if (ok && !err.empty()) { rep.violation(key, pat + ": " + err); return; }
  std::string diff; size_t n = 0, d = 0; bool maybe = false;
  for (size_t i = 0; i < T.cps.size(); ++i) {
    uint32_t c = T.cps[i]; bool w = in(c);
    if (unsure && unsure(c)) { maybe = true; continue; }
    if (w) ++n;
    if (ok && got[i] != w && ++d <= 3) diff += (got[i] ? " matches " : " does not match ") + hex(c) + ",";
  }
  if (!ok) { if (n) rep.violation(key, pat + " is rejected (" + err + "), should match " + std::to_string(n) + " characters"); else rep.add("rejected"); return; }
  if (d) rep.violation(key, pat + (o.icase ? " (case-insensitive)" : "") + (o.uni ? " (Unicode)" : "") + diff + " " + std::to_string(d) + " characters wrong");
  (void) maybe;
  if (n) rep.add("traces");
  rep.outcome(std::to_string(n));
}

// case-insensitive equivalence: equal under full case folding
struct Fold {
  std::map<std::u16string, std::vector<uint32_t>> by; std::map<uint32_t, std::u16string> of;
  std::vector<uint32_t> cased;
  Fold() {
    for (uint32_t c = 0; c < NCP; ++c) {
      if (surr(c)) continue;
      UChar u[2], o[16]; int k = 0; U16_APPEND_UNSAFE(u, k, c); UErrorCode e = U_ZERO_ERROR;
      int n = u_strFoldCase(o, 16, u, k, U_FOLD_CASE_DEFAULT, &e);
      if (n == k && std::equal(o, o + n, u)) { by[std::u16string(o, n)].push_back(c); continue; }
      by[std::u16string(o, n)].push_back(c); of[c] = std::u16string(o, n);
    }
    for (auto i = by.begin(); i != by.end(); ) { if (i->second.size() < 2) i = by.erase(i); else { for (uint32_t c : i->second) { of[c] = i->first; cased.push_back(c); } ++i; } }
    std::sort(cased.begin(), cased.end());
  }
  std::vector<uint32_t> cls(uint32_t c) const { auto i = of.find(c); if (i == of.end()) return {c}; auto j = by.find(i->second); return j == by.end() ? std::vector<uint32_t>{c} : j->second; }
};
static const Fold& fold() { static Fold f; return f; }
// closure of one character
static std::vector<uint32_t> closure(uint32_t c, bool uni) {
  if (uni || c >= 0x80) return fold().cls(c);
  if (c < 0x80 && isalpha(c)) return {c, c ^ 32};
  return {c};
}

// ------------------------------------------------------------- set expressions
struct Operand { std::string txt; std::function<bool(uint32_t, bool)> in; };   // (character, Unicode mode)
static bool word(uint32_t c, bool uni) { if (!uni) return c < 128 && (isalnum(c) || c == '_'); int t = u_charType(c); return c == '_' || (U_MASK(t) & (U_GC_L_MASK | U_GC_N_MASK)); }
static bool digit(uint32_t c, bool uni) { return uni ? u_charType(c) == U_DECIMAL_DIGIT_NUMBER : c >= '0' && c <= '9'; }
static bool hsp(uint32_t c) { return c == 9 || c == 0x20 || c == 0xA0 || c == 0x1680 || c == 0x180E || (c >= 0x2000 && c <= 0x200A) || c == 0x202F || c == 0x205F || c == 0x3000; }
static bool vsp(uint32_t c) { return (c >= 10 && c <= 13) || c == 0x85 || c == 0x2028 || c == 0x2029; }
static bool space(uint32_t c, bool uni) { return uni ? hsp(c) || vsp(c) || (U_MASK(u_charType(c)) & U_GC_Z_MASK) : (c >= 9 && c <= 13) || c == 32; }

int main(int argc, char** argv) {
  auto A = args(argc, argv); Shard sh = shard(A); rep.init(A);
  std::string mode = A["mode"];

  if (mode == "named") {
    struct N { const char* t; std::function<bool(uint32_t, bool)> in; };
    std::vector<N> ns = {{"\\d", digit}, {"\\s", space}, {"\\w", word}, {"\\h", [](uint32_t c, bool) { return hsp(c); }}, {"\\v", [](uint32_t c, bool) { return vsp(c); }}};
    for (auto& n : ns) for (int up = 0; up < 2; ++up) for (int uni = 0; uni < 2; ++uni) for (int ic = 0; ic < 2; ++ic) for (int form = 0; form < 4; ++form) {
      if (!sh.mine()) continue;
      std::string t = n.t; if (up) t[1] = toupper(t[1]);
      std::string p = form == 0 ? t : form == 1 ? "[" + t + "]" : form == 2 ? "[^" + t + "]" : std::string(uni ? "(?-a)" : "(?a)") + t;
      Opts o; o.uni = form == 3 ? !uni : uni; o.icase = ic;
      // closed under case when in brackets and case does not matter
      std::vector<bool> s(NCP); for (uint32_t c = 0; c < NCP; ++c) s[c] = n.in(c, uni) != bool(up);
      if (ic && form) { std::vector<bool> z = s; for (uint32_t c = 0; c < NCP; ++c) if (s[c] && !surr(c)) for (uint32_t d : closure(c, uni)) z[d] = true; if (form < 3) s = z; }
      checkSet("named " + hexs(p) + (o.uni ? " u" : " a") + (ic ? " i" : ""), p, o, full(), [&](uint32_t c) { return s[c] != (form == 2); });
    }
    if (sh.mine()) { Opts o; checkSet("dot", ".", o, full(), [](uint32_t) { return true; }); checkSet("dot class", "[.]", o, full(), [](uint32_t c) { return c == '.'; }); }
  }
  else if (mode == "props") {
    bool all = geti(A, "all", 1);
    std::vector<std::pair<std::string, std::function<bool(uint32_t)>>> ps;
    auto names = [](UProperty p, int v, std::vector<std::string>& r) { for (int k = 0; k < 6; ++k) { const char* n = v < 0 ? u_getPropertyName(p, UPropertyNameChoice(k)) : u_getPropertyValueName(p, v, UPropertyNameChoice(k)); if (n && std::find(r.begin(), r.end(), n) == r.end()) r.push_back(n); } };
    for (int p = UCHAR_BINARY_START; p < UCHAR_BINARY_START + 80; ++p) {
      std::vector<std::string> n; names(UProperty(p), -1, n);
      for (auto& x : n) ps.push_back({x, [p](uint32_t c) { return u_hasBinaryProperty(c, UProperty(p)); }});
    }
    for (int p = UCHAR_INT_START; p < UCHAR_INT_START + 40; ++p) {
      std::vector<std::string> pn; names(UProperty(p), -1, pn); if (pn.empty()) continue;
      for (int v = u_getIntPropertyMinValue(UProperty(p)); v <= u_getIntPropertyMaxValue(UProperty(p)); ++v) {
        std::vector<std::string> vn; names(UProperty(p), v, vn); if (vn.empty()) continue;
        auto in = [p, v](uint32_t c) { return u_getIntPropertyValue(c, UProperty(p)) == v; };
        for (size_t a = 0; a < (all ? pn.size() : 1); ++a) for (size_t b = 0; b < (all ? vn.size() : 1); ++b) ps.push_back({pn[a] + "=" + vn[b], in});
        if (p == UCHAR_GENERAL_CATEGORY || p == UCHAR_SCRIPT) for (auto& x : vn) ps.push_back({x, in});
      }
    }
    {
      std::vector<std::string> pn; names(UCHAR_GENERAL_CATEGORY_MASK, -1, pn);
      for (uint32_t m : {U_GC_C_MASK, U_GC_L_MASK, U_GC_LC_MASK, U_GC_M_MASK, U_GC_N_MASK, U_GC_P_MASK, U_GC_S_MASK, U_GC_Z_MASK}) {
        std::vector<std::string> vn; names(UCHAR_GENERAL_CATEGORY_MASK, m, vn);
        for (auto& x : vn) { auto in = [m](uint32_t c) { return (U_MASK(u_charType(c)) & m) != 0; }; ps.push_back({x, in}); ps.push_back({"gc=" + x, in}); }
      }
    }
    ps.push_back({"Any", [](uint32_t) { return true; }}); ps.push_back({"ASCII", [](uint32_t c) { return c < 128; }}); ps.push_back({"Assigned", [](uint32_t c) { return u_charType(c) != U_UNASSIGNED; }});
    for (auto& p : ps) {
      if (!sh.mine()) continue;
      // the property as stated; a short name may belong to another property as well (a script and a binary property): ICU says which
      for (int neg = 0; neg < 2; ++neg) {
        std::string t = std::string(neg ? "\\P{" : "\\p{") + p.first + "}";
        checkSet("prop " + t, t, Opts(), full(), [&](uint32_t c) { return p.second(c) != bool(neg); });
      }
    }
  }
  else if (mode == "charnames") {
    const uint32_t B = 512; uint32_t hi = geti(A, "hi", NCP), step = geti(A, "step", 1);
    for (uint32_t lo = 0, bi = 0; lo < hi; lo += B, ++bi) {
      if (bi % step && lo >= 0x3000) continue;
      if (!sh.mine()) continue;
      char kb[48]; snprintf(kb, sizeof kb, "names %x", lo); if (!rep.want(kb) || rep.full()) continue;
      Fsm f; std::vector<uint32_t> in; bool bad = false;
      for (uint32_t c = lo; c < lo + B && !bad; ++c) {
        char nm[256]; UErrorCode e = U_ZERO_ERROR; int n = u_charName(c, U_UNICODE_CHAR_NAME, nm, sizeof nm, &e);
        if (e > U_ZERO_ERROR || n <= 0) continue;
        Pat p; std::string err; bool br = c % 2; p.pat = std::string(br ? "[\\N{" : "\\N{") + nm + (br ? "}]" : "}"); rep.add("states");
        if (f.add(p, &err) < 0) { rep.violation(kb, p.pat + " is rejected: " + err); bad = true; break; }
        in.push_back(c);
        // one letter missing is another character or none
        std::string s = std::string(nm).substr(0, n - 1); e = U_ZERO_ERROR; uint32_t o = u_charFromName(U_UNICODE_CHAR_NAME, s.c_str(), &e); bool is = e <= U_ZERO_ERROR;
        Pattern h; bool ok = h.parse("\\N{" + s + "}", Opts()); (void) o;
        if (ok != is) { rep.violation(kb, "\\N{" + s + "} is " + (ok ? "accepted" : "rejected")); bad = true; }
      }
      if (bad || in.empty()) continue;
      Prog pr(f.h, 10); Ctx c(pr.h); Text t; for (uint32_t x = lo; x < lo + B; ++x) t.add(x);
      Hits h = c.whole(t.t), w; rep.add("transitions"); rep.add("traces", h.size());
      for (size_t i = 0; i < in.size(); ++i) { std::string s = u8(in[i]); size_t a = 0; for (size_t k = 0; k < t.cps.size(); ++k) if (t.cps[k] == in[i]) a = t.at[k]; w.push_back(Hit{a, a + s.size(), (uint32_t) i}); }
      std::sort(h.begin(), h.end()); std::sort(w.begin(), w.end());
      if (h != w) rep.violation(kb, "the names of this block find " + std::to_string(h.size()) + " characters, or not the right ones; should be " + std::to_string(w.size()));
      rep.outcome(kb);
    }
  }
  else if (mode == "exprs") {
    // set expressions of up to three operands
    Text T; for (uint32_t c = 0; c < 0x250; ++c) T.add(c);
    for (uint32_t c : {0x370u, 0x3B1u, 0x391u, 0x3C3u, 0x3C2u, 0x660u, 0x663u, 0x1E9Eu, 0x2000u, 0x2028u, 0x2126u, 0x212Au, 0x212Bu, 0x3000u, 0x4E00u, 0xFF10u, 0x10400u, 0x10428u, 0x1D7D8u, 0x10FFFFu}) T.add(c);
    // the domain is closed under case, so that sets can be closed within it
    for (size_t i = 0, n = T.cps.size(); i < n; ++i) for (uint32_t d : fold().cls(T.cps[i])) if (std::find(T.cps.begin(), T.cps.end(), d) == T.cps.end()) T.add(d);
    auto R = [](uint32_t a, uint32_t b) { return [a, b](uint32_t c, bool) { return a <= c && c <= b; }; };
    std::vector<Operand> O = {
      {"a", R('a', 'a')}, {"b-d", R('b', 'd')}, {"[bc]", R('b', 'c')}, {"A-C", R('A', 'C')}, {"\\d", digit}, {"\\W", [](uint32_t c, bool u) { return !word(c, u); }}, {"[^a-y]", [](uint32_t c, bool) { return c < 'a' || c > 'y'; }},
      {"\\x{e9}", R(0xE9, 0xE9)}, {"\\p{Ll}", [](uint32_t c, bool) { return u_charType(c) == U_LOWERCASE_LETTER; }}, {"[\\x{80}-\\x{10ffff}]", R(0x80, 0x10FFFF)}, {"k", R('k', 'k')}, {"\\x{3c3}", R(0x3C3, 0x3C3)}};
    size_t NO = geti(A, "ops", O.size()); if (NO < O.size()) O.resize(NO);
    static const char* OP[] = {"", "&&", "--", "~~"};
    int nmax = geti(A, "n", 3);
    std::vector<bool> closedTab;
    // nested classes are closed under case by themselves
    auto nested = [](const Operand& o) { return o.txt[0] == '['; };
    for (int uni = 0; uni < 2; ++uni) for (int ic = 0; ic < 2; ++ic) {
      Opts o; o.uni = uni; o.icase = ic;
      std::vector<CSet> val;     // over all code points below 0x11000 and the rest of T (indices via map)
      std::map<uint32_t, size_t> ix; for (size_t i = 0; i < T.cps.size(); ++i) ix[T.cps[i]] = i;
      auto close = [&](CSet& s, bool uni) { CSet z = s; for (size_t i = 0; i < T.cps.size(); ++i) if (s[i]) for (uint32_t d : closure(T.cps[i], uni)) { auto k = ix.find(d); if (k != ix.end()) z[k->second] = true; } s = z; };
      for (auto& q : O) {
        CSet s(T.cps.size()); for (size_t i = 0; i < T.cps.size(); ++i) s[i] = q.in(T.cps[i], uni);
        if (ic && nested(q)) { if (q.txt[1] == '^') { s.flip(); close(s, uni); s.flip(); } else close(s, uni); }
        if (ic && q.txt[1] == 'p') close(s, true);    // a property is closed by ICU, whatever the mode
        val.push_back(s);
      }
      for (int n = 1; n <= nmax; ++n) {
        std::vector<int> id(2 * n - 1, 0);
        for (;;) {
          if (sh.mine()) {
            std::string e = O[id[0]].txt; CSet s = val[id[0]];
            for (int k = 1; k < n; ++k) {
              int op = id[2 * k - 1], x = id[2 * k]; e += OP[op] + O[x].txt;
              const CSet& v = val[x]; for (size_t i = 0; i < s.size(); ++i) s[i] = op == 0 ? s[i] || v[i] : op == 1 ? s[i] && v[i] : op == 2 ? s[i] && !v[i] : s[i] != v[i];
            }
            for (int neg = 0; neg < 2; ++neg) {
              std::string p = std::string(neg ? "[^" : "[") + e + "]"; CSet z = s; if (ic) close(z, uni); if (neg) z.flip();
              bool none = true; for (bool b : s) none &= !b;
              std::string key = "expr " + hexs(p) + (uni ? " u" : " a") + (ic ? " i" : "");
              if (none && neg) continue;       // the complement of nothing: not specified
              checkSet(key, p, o, T, [&](uint32_t c) { return bool(z[ix[c]]); });
            }
          }
          if (rep.full()) return rep.done();
          int j = 2 * n - 2; while (j >= 0 && ++id[j] == (j % 2 ? 4 : (int) O.size())) id[j--] = 0;
          if (j < 0) break;
        }
      }
    }
  }
  else if (mode == "breakout") {
    // raw bytes and characters in one class
    struct Op { std::string txt; std::vector<std::pair<int, int>> cp, by; };
    std::vector<Op> O = {{"a", {{'a', 'a'}}, {}}, {"a-e", {{'a', 'e'}}, {}}, {"\\zFF", {}, {{0xFF, 0xFF}}}, {"\\z61", {}, {{0x61, 0x61}}}, {"\\z00-\\z7F", {}, {{0, 0x7F}}}, {"\\x{e9}", {{0xE9, 0xE9}}, {}}, {"[c\\zC3]", {{'c', 'c'}}, {{0xC3, 0xC3}}}, {"\\x{80}-\\x{ffff}", {{0x80, 0xFFFF}}, {}}, {"\\z80-\\zFF", {}, {{0x80, 0xFF}}}};
    static const char* OP[] = {"", "&&", "--", "~~"};
    int nmax = geti(A, "n", 3);
    typedef std::bitset<256> By;
    std::vector<uint32_t> cps; for (uint32_t c = 0; c < 0x120; ++c) cps.push_back(c); for (uint32_t c : {0x7FFu, 0x800u, 0x4E00u, 0xFFFFu, 0x10000u, 0x10FFFFu}) cps.push_back(c);
    for (const char* enc : {"UTF-8", "ASCII", "ISO-8859-1", "UTF-16LE"}) for (int n = 1; n <= nmax; ++n) {
      std::string E = enc; std::vector<std::string> bytes;
      for (uint32_t c : cps) { std::string b = E == "UTF-8" ? u8(c) : E == "UTF-16LE" ? (c < 0x10000 ? std::string{char(c), char(c >> 8)} : std::string{char(0xD800 + ((c - 0x10000) >> 10)), char((0xD800 + ((c - 0x10000) >> 10)) >> 8), char(0xDC00 + (c & 1023)), char((0xDC00 + (c & 1023)) >> 8)}) : c < (E == "ASCII" ? 128u : 256u) ? std::string(1, char(c)) : ""; bytes.push_back(b); }
      std::vector<int> id(2 * n - 1, 0);
      for (;;) {
        if (sh.mine()) for (int neg = 0; neg < 2; ++neg) {
          std::string e; CSet C(cps.size()); By B; bool anyByte = false;
          for (int k = 0; k < n; ++k) {
            const Op& x = O[id[2 * k]]; int op = k ? id[2 * k - 1] : 0; e += (k ? OP[op] : "") + x.txt;
            CSet c2(cps.size()); By b2; for (size_t i = 0; i < cps.size(); ++i) for (auto& r : x.cp) if ((int) cps[i] >= r.first && (int) cps[i] <= r.second) c2[i] = true;
            for (auto& r : x.by) for (int b = r.first; b <= r.second; ++b) b2.set(b);
            anyByte |= b2.any();
            for (size_t i = 0; i < cps.size(); ++i) C[i] = !k || op == 0 ? C[i] || c2[i] : op == 1 ? C[i] && c2[i] : op == 2 ? C[i] && !c2[i] : C[i] != c2[i];
            B = !k || op == 0 ? B | b2 : op == 1 ? B & b2 : op == 2 ? B & ~b2 : B ^ b2;
          }
          bool anyC = false; for (bool b : C) anyC |= b;
          if (!anyByte) continue;
          std::string p = std::string(neg ? "[^" : "[") + e + "]", key = "breakout " + E + " " + hexs(p);
          if (!rep.want(key) || rep.full()) continue;
          rep.add("states");
          // what it matches: characters and single bytes
          std::set<std::string> want; By single;
          if (!neg) { for (size_t i = 0; i < cps.size(); ++i) if (C[i] && !bytes[i].empty()) want.insert(bytes[i]); single = B; }
          else if (anyC) { for (size_t i = 0; i < cps.size(); ++i) if (!C[i] && !bytes[i].empty() && !(bytes[i].size() == 1 && B[(unsigned char) bytes[i][0]])) want.insert(bytes[i]); }
          else if (B.any()) single = ~B;
          else continue;       // the complement of nothing
          bool empty = single.none() && want.empty();
          Pat t; t.pat = p; t.enc = E; Fsm f; std::string err; int r = f.add(t, &err); rep.add("transitions");
          if (r < 0) { if (!empty) rep.violation(key, p + " in " + E + " is rejected: " + err); continue; }
          if (empty) { rep.violation(key, p + " in " + E + " is accepted, matches nothing"); continue; }
          Prog pr(f.h, 10); Ctx c(pr.h);
          auto probe = [&](const std::string& s) {
            Hits h; c.starts(s.data(), s.data() + s.size(), 0, h); rep.add("transitions");
            bool w1 = single[(unsigned char) s[0]] || want.count(s.substr(0, 1)), wn = false;
            for (size_t k = 2; k <= s.size(); ++k) wn |= want.count(s.substr(0, k)) > 0;
            size_t g = h.empty() ? 0 : h[0].e;
            bool ok = h.size() <= 1 && (g == 0 ? !w1 && !wn : g == 1 ? w1 : want.count(s.substr(0, g)) > 0);
            if (!ok) rep.violation(key, p + " in " + E + " on " + hexs(s) + " matches " + std::to_string(g) + " bytes");
            if (g) rep.add("traces");
            return ok;
          };
          bool ok = true;
          for (int b = 0; b < 256 && ok; ++b) if (E != "UTF-16LE" || true) { if (E == "UTF-8" || E == "UTF-16LE") { ok = probe(std::string(1, char(b))); } else ok = probe(std::string(1, char(b)) + "a"); }
          for (size_t i = 0; i < cps.size() && ok; ++i) if (bytes[i].size() > 1) ok = probe(bytes[i]);
        }
        if (rep.full()) return rep.done();
        int j = 2 * n - 2; while (j >= 0 && ++id[j] == (j % 2 ? 4 : (int) O.size())) id[j--] = 0;
        if (j < 0) break;
      }
    }
  }
  else if (mode == "icase") {
    // every character, case-insensitive, as a literal, a class, a fixed string and a negated class
    const uint32_t B = 128; uint32_t hi = geti(A, "hi", 0x20000);
    const Fold& F = fold(); bool only = geti(A, "cased", 0);
    for (int form = 0; form < 4; ++form) for (int uni = 0; uni < 2; ++uni) for (uint32_t lo = 0; lo < hi; lo += B) {
      if (only && lo >= 0x300) { auto i = std::lower_bound(F.cased.begin(), F.cased.end(), lo); if (i == F.cased.end() || *i >= lo + B) continue; }
      if (!sh.mine()) continue;
      char kb[64]; snprintf(kb, sizeof kb, "icase %d %d %x", form, uni, lo); if (!rep.want(kb) || rep.full()) continue;
      Fsm f; std::vector<uint32_t> in; bool bad = false; Opts o; o.icase = true; o.uni = uni; o.fixed = form == 2;
      for (uint32_t c = lo; c < lo + B; ++c) {
        if (surr(c) || (form == 2 && !c)) continue;
        char b[32]; snprintf(b, sizeof b, form == 1 ? "[\\x{%x}]" : form == 3 ? "[^\\x{%x}]" : "\\x{%x}", c);
        Pat p; p.pat = form == 2 ? u8(c) : b; p.o = o; std::string err; rep.add("states");
        if (f.add(p, &err) < 0) { rep.violation(kb, p.pat + " is rejected: " + err); bad = true; break; }
        in.push_back(c);
      }
      if (bad || in.empty()) continue;
      Prog pr(f.h, 10); Ctx c(pr.h); std::vector<uint32_t> ts;
      for (uint32_t x = lo; x < lo + B; ++x) if (!surr(x)) ts.push_back(x);
      std::vector<std::vector<uint32_t>> cl; std::map<uint32_t, std::vector<uint32_t>> who;
      for (size_t i = 0; i < in.size(); ++i) { cl.push_back(closure(in[i], uni)); for (uint32_t d : cl.back()) who[d].push_back(i); }
      if (form != 3) for (uint32_t x : F.cased) { if (x < lo || x >= lo + B) ts.push_back(x); }
      else for (auto& w : who) if (w.first < lo || w.first >= lo + B) ts.push_back(w.first);
      for (uint32_t x : ts) {
        std::string s = u8(x); Hits h, w; c.starts(s.data(), s.data() + s.size(), 0, h); rep.add("transitions");
        auto i = who.find(x); std::set<uint32_t> k; if (i != who.end()) k.insert(i->second.begin(), i->second.end());
        for (uint32_t q = 0; q < in.size(); ++q) if (k.count(q) != (form == 3)) w.push_back(Hit{0, s.size(), q});
        std::sort(h.begin(), h.end());
        if (!w.empty()) rep.add("traces");
        if (h != w) { std::string d; for (uint32_t q = 0; q < in.size(); ++q) { bool g = false, y = false; for (auto& z : h) g |= z.k == q; for (auto& z : w) y |= z.k == q; if (g != y) { d = hex(in[q]) + (g ? " matches " : " does not match ") + hex(x); break; } } rep.violation(kb, d + (uni ? " (Unicode)" : " (ASCII)") + " form " + std::to_string(form) + " " + show(h).substr(0, 60)); break; }
      }
      rep.outcome(kb);
    }
  }
  else if (mode == "scope") {
    // inline switches: all short token sequences, matched over a six-character alphabet
    static const std::vector<std::string> T = {"(?i)", "(?-i)", "(?a)", "(?-a)", "(", ")", "|", "\\d", "\\w", "k", "[k\\d]"};
    const std::vector<uint32_t> ab = {'k', 'K', 0x212A, '5', 0x665, 0xE9};
    int n0 = geti(A, "n", 5);
    std::vector<std::string> texts; for (auto& s : ref::strings("012345", 1, 2)) texts.push_back(s);
    struct Bad {}; struct May {};
    struct Par {
      const std::vector<int>& t; size_t i = 0; bool ic, as; const std::vector<uint32_t>& ab; bool may = false;
      ref::P leaf(int k) { ref::Bytes b; for (size_t x = 0; x < ab.size(); ++x) { uint32_t c = ab[x]; bool m = false; if (k == 7 || k == 10) m |= digit(c, !as); if (k == 8) m |= word(c, !as); if (k == 9 || k == 10) { m |= c == 'k'; if (ic) for (uint32_t d : closure('k', !as)) m |= d == c; } if (m) b.set('0' + x); } return ref::mkset(T_()[k], b); }
      static const std::vector<std::string>& T_() { return *tp(); } static const std::vector<std::string>*& tp() { static const std::vector<std::string>* p; return p; }
      ref::P alt(int depth) {
        ref::P r; bool first = true;
        for (;;) {
          ref::P c; bool sw = false;
          for (; i < t.size() && t[i] != 5 && t[i] != 6; ) {
            int k = t[i++];
            if (k < 4) { (k < 2 ? ic : as) = k % 2 == 0; sw = true; if (!c && !first) may = true; continue; }
            ref::P l;
            if (k == 4) { bool a = ic, b = as; l = alt(depth + 1); ic = a; as = b; if (i >= t.size() || t[i] != 5) throw Bad(); ++i; }
            else l = leaf(k);
            c = c ? ref::mkcat(c, l) : l;
          }
          if (!c) throw Bad();
          (void) sw;
          r = r ? ref::mkalt(r, c) : c; first = false;
          if (i < t.size() && t[i] == 6) { ++i; continue; }
          return r;
        }
      }
    };
    Par::tp() = &T;
    for (int n = 1; n <= n0; ++n) {
      std::vector<int> id(n, 0);
      for (;;) {
        if (sh.mine()) for (int m = 0; m < 4; ++m) {
          std::string p; for (int k : id) p += T[k];
          Opts o; o.icase = m & 1; o.uni = m & 2;
          std::string key = "scope " + hexs(p) + " " + std::to_string(m);
          if (!rep.want(key) || rep.full()) continue;
          rep.add("states");
          Par q{id, 0, o.icase, !o.uni, ab}; ref::P ast; bool good = true;
          try { ast = q.alt(0); if (q.i < id.size()) good = false; } catch (Bad&) { good = false; }
          Pat t; t.pat = p; t.o = o; Fsm f; std::string err; int r = f.add(t, &err); rep.add("transitions");
          if (r < 0) { rep.add("rejected"); if (good && !q.may) rep.violation(key, "'" + p + "' is rejected: " + err); continue; }
          if (!good) { rep.violation(key, "'" + p + "' is accepted"); continue; }
          Prog pr(f.h, 10); Ctx c(pr.h);
          for (auto& s : texts) {
            std::string b; std::vector<size_t> at; for (char x : s) { at.push_back(b.size()); b += u8(ab[x - '0']); } at.push_back(b.size());
            Hits w; ref::Matcher M(s); for (auto& z : M.all(ast)) w.push_back(Hit{at[z.first], at[z.second], 0});
            Hits g = c.whole(b); rep.add("transitions"); if (!w.empty()) rep.add("traces");
            if (g != w) { rep.violation(key, "'" + p + "' mode " + std::to_string(m) + " on " + hexs(b) + " finds " + show(g) + ", should find " + show(w)); break; }
          }
        }
        if (rep.full()) return rep.done();
        int j = n - 1; while (j >= 0 && ++id[j] == (int) T.size()) id[j--] = 0;
        if (j < 0) break;
      }
    }
  }
  return rep.done();
}
