// P10: which patterns are accepted and what they mean.  Every string over a
// bounded alphabet (and every sequence of bounded tokens) is given to the real
// parser and to an independent recursive-descent parser of the documented
// syntax; they must agree about acceptance, and an accepted pattern must find
// exactly what the reference's parse of it means.
#include "lgx.h"
#include "refre.h"
using namespace lgx;

static Report rep;

// ------------------------------------------------------------ reference parser
// A set of code points: ASCII exactly, everything above it uniformly.
struct CSet {
  std::bitset<128> lo; bool hi = false;
  CSet operator~() const { CSet r; r.lo = ~lo; r.hi = !hi; return r; }
  bool none() const { return lo.none() && !hi; }
};
struct Bad {};       // must be rejected
struct Unspec {};    // the documentation does not say

struct RefParser {
  const std::string& s; size_t i = 0;
  bool may = false;                     // may be rejected (a documented-elsewhere construct the project restricts)
  bool icase = false;
  explicit RefParser(const std::string& t): s(t) {}
  bool more() const { return i < s.size(); }
  char at(size_t k = 0) const { return i + k < s.size() ? s[i + k] : '\0'; }
  bool look(const char* w) const { return s.compare(i, strlen(w), w) == 0; }

  ref::P leaf(const CSet& c) {
    if (c.none()) throw Bad();
    ref::Bytes b; for (int k = 0; k < 128; ++k) if (c.lo[k]) b.set(k);
    if (b.none()) throw Unspec();       // nothing of it is ASCII
    return ref::mkset("", b);
  }
  CSet fold(CSet c) const {
    if (icase) { CSet o = c; for (int k = 0; k < 128; ++k) if (o.lo[k] && isalpha(k)) c.lo.set(k ^ 32); }
    return c;
  }
  static CSet one(int c) { CSet r; if (c < 128) r.lo.set(c); else r.hi = true; return r; }

  ref::P all() {
    ref::P p = alt(0);
    if (more()) throw Bad();            // an unmatched )
    return p;
  }
  ref::P alt(int depth) {
    ref::P r = branch(depth, true);
    while (at() == '|' && more()) { ++i; ref::P b = branch(depth, false); r = ref::mkalt(r, b); }
    return r;
  }
  // (?ai-ai): returns true if there was one
  bool flags() {
    if (!look("(?")) return false;
    size_t j = i + 2, on = 0, off = 0; bool minus = false, ic = icase;
    for (;; ++j) {
      char c = j < s.size() ? s[j] : '\0';
      if (c == 'a') {}
      else if (c == 'i') ic = !minus;
      else if (c == '-' && !minus) { minus = true; continue; }
      else if (c == ')' && (minus ? off : on)) break;
      else throw Bad();                 // lookaround, unknown or empty switches
      ++(minus ? off : on);
    }
    icase = ic; i = j + 1;
    return true;
  }
  ref::P branch(int depth, bool first) {
    ref::P r;
    while (more() && at() != '|' && at() != ')') {
      if (look("(?")) { flags(); if (!r && !first) may = true; continue; }
      ref::P a = piece(depth);
      r = r ? ref::mkcat(r, a) : a;
    }
    if (at() == ')' && more() && !depth) throw Bad();
    if (!r) throw Bad();                // an empty alternative
    return r;
  }
  ref::P piece(int depth) {
    ref::P a = atom(depth);
    int lo, hi;
    if (at() == '*') { lo = 0; hi = -1; ++i; }
    else if (at() == '+') { lo = 1; hi = -1; ++i; }
    else if (at() == '?') { lo = 0; hi = 1; ++i; }
    else if (at() == '{') {
      size_t j = i + 1; long n = 0, m; bool any = false;
      auto num = [&](long& v) { any = false; v = 0; while (j < s.size() && isdigit((unsigned char) s[j])) { any = true; v = v * 10 + (s[j++] - '0'); if (v > INT32_MAX) throw Bad(); } };
      num(n);
      if (!any) throw Unspec();         // a brace which is no quantifier, after an atom
      m = n;
      if (j < s.size() && s[j] == ',') { ++j; num(m); if (!any) m = -1; }
      if (j >= s.size() || s[j] != '}') throw Unspec();
      if (m >= 0 && n > m) throw Bad();
      i = j + 1; lo = n; hi = m;
    }
    else return a;
    bool g = true;
    if (at() == '?') { g = false; ++i; }
    if (more() && (at() == '*' || at() == '+' || at() == '?')) throw Bad();   // nothing to repeat
    if (more() && at() == '{') { // a second quantifier; or a literal brace
      may = true; brace2 = true;
    }
    return ref::mkrep(a, lo, hi, g);
  }
  bool brace2 = false;
  int hexval(char c) { return isxdigit((unsigned char) c) ? (isdigit((unsigned char) c) ? c - '0' : (c | 32) - 'a' + 10) : -1; }
  // after the backslash; returns a set; single is its character or -1
  CSet escape(int& single, bool inClass) {
    if (!more()) throw Bad();
    char c = s[i++]; single = -1;
    auto ch = [&](int v) { single = v; return one(v); };
    auto cls = [&](const char* w, bool neg) { CSet r; for (const char* q = w; *q; ++q) r.lo.set(*q); return neg ? ~r : r; };
    switch (c) {
    case '|': case '(': case ')': case '?': case '+': case '*': case '.': case '[': case ']': case '^': case '$': case '-': case '{': case '}': case '&': case '~': case '<': case '=': case '!': case '\\': return ch(c);
    case 'a': return ch(7); case 'e': return ch(27); case 'f': return ch(12); case 'n': return ch(10); case 'r': return ch(13); case 't': return ch(9);
    case 'd': return cls("0123456789", false);
    case 'D': return cls("0123456789", true);
    case 's': throw Unspec(); case 'S': throw Unspec(); case 'h': throw Unspec(); case 'H': throw Unspec(); case 'v': throw Unspec(); case 'V': throw Unspec();   // P11
    case 'w': return cls("0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_", false);
    case 'W': return cls("0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_", true);
    case 'x':
      if (at() == '{') {
        size_t j = i + 1; long v = 0; int n = 0;
        while (j < s.size() && hexval(s[j]) >= 0 && n < 7) { v = v * 16 + hexval(s[j++]); ++n; }
        if (j >= s.size() || s[j] != '}' || n == 0 || n > 6 || v > 0x10FFFF) throw Bad();
        if (v >= 0xD800 && v <= 0xDFFF) throw Unspec();
        i = j + 1; return ch(v);
      }
      else { int a = hexval(at()), b = a < 0 ? -1 : hexval(at(1)); if (b < 0) throw Bad(); i += 2; return ch(a * 16 + b); }
    case 'z': { int a = hexval(at()), b = a < 0 ? -1 : hexval(at(1)); if (b < 0) throw Bad(); throw Unspec(); }   // bytes: P11
    case '0': case '1': case '2': case '3': case '4': case '5': case '6': case '7': {
      --i; int v = 0, n = 0;
      while (n < 3 && at() >= '0' && at() <= '7') { v = v * 8 + (s[i++] - '0'); ++n; }
      if (v > 255) throw Bad();
      return ch(v);
    }
    case 'N':
      if (look("{U+")) {
        size_t j = i + 3; long v = 0; int n = 0;
        while (j < s.size() && hexval(s[j]) >= 0 && n < 7) { v = v * 16 + hexval(s[j++]); ++n; }
        if (j >= s.size() || s[j] != '}' || n == 0 || n > 6 || v > 0x10FFFF) throw Bad();
        if (v >= 0xD800 && v <= 0xDFFF) throw Unspec();
        i = j + 1; return ch(v);
      }
      if (at() == '{' && s.find('}', i) != std::string::npos) throw Unspec();     // names: P11
      throw Bad();
    case 'p': case 'P':
      if (at() == '{' && s.find('}', i) != std::string::npos) throw Unspec();
      throw Bad();
    case 'b': if (inClass) return ch(8); throw Bad();                // \b outside a class is unsupported
    default: throw Bad();                                            // also \A \B \K \Z: unsupported
    }
  }
  ref::P atom(int depth) {
    char c = s[i++];
    switch (c) {
    case '(': {
      bool keep = icase;
      ref::P p = alt(depth + 1);
      if (at() != ')' || !more()) throw Bad();
      ++i; icase = keep;
      return p;
    }
    case '[': return leaf(cclass());
    case '*': case '+': case '?': throw Bad();
    case '^': case '$': throw Bad();                                 // unsupported
    case '.': { CSet a; return leaf(~a); }
    case '\\': { int single; CSet e = escape(single, false); return leaf(single < 0 ? e : fold(e)); }
    case '{':
      if (brace2) throw Unspec();
      return leaf(fold(one(c)));
    default: return leaf(fold(one((unsigned char) c)));
    }
  }
  // after '['
  CSet cclass() {
    bool neg = false, first = true;
    if (at() == '^') { neg = true; ++i; }
    if (neg && at() == ']') throw Unspec();
    CSet acc; bool have = false;
    for (;; first = false) {
      if (!more()) throw Bad();
      if (at() == ']' && !(first && !neg)) { ++i; break; }
      char op = 0;
      if (look("&&") || look("--") || look("~~")) {
        if (look("--") && at(2) == ']') throw Unspec();              // a last hyphen
        op = at(); i += 2;
        if (!have || at() == ']' || look("&&") || look("--") || look("~~")) throw Bad();
      }
      CSet x;
      int c = -1;
      if (at() == '[') { ++i; x = cclass(); }
      else {
        c = one_char(x, first && !op, op != 0);
        if (c >= 0 && at() == '-' && at(1) != ']' && more()) {
          if (look("--")) { if (at(2) == ']') throw Unspec(); }      // the operator
          else {
            ++i;
            if (!more()) throw Bad();
            if (at() == '[') throw Unspec();                         // x-[...]
            if (look("&&") || look("~~")) throw Unspec();
            CSet y; int d = one_char(y, false, true);
            if (d < 0) throw Unspec();                               // x-\d
            if (d <= c) throw Bad();
            if (d > 127) { if (c > 127) throw Unspec(); for (int k = c; k < 128; ++k) x.lo.set(k); x.hi = true; may = true; }
            else for (int k = c; k <= d; ++k) x.lo.set(k);
          }
        }
      }
      if (!op) { acc.lo |= x.lo; acc.hi |= x.hi; }
      else if (op == '&') { acc.lo &= x.lo; acc.hi &= x.hi; }
      else if (op == '-') { acc.lo &= ~x.lo; acc.hi = acc.hi && !x.hi; }
      else { acc.lo ^= x.lo; acc.hi ^= x.hi; }
      have = true;
    }
    acc = fold(acc);
    if (neg) acc = ~acc;
    if (acc.none()) throw Bad();
    return acc;
  }
  // one character or escape; returns the character, or -1 if it is a set
  int one_char(CSet& x, bool first, bool strict) {
    char c = at();
    if (c == '\\') { ++i; int single; x = escape(single, true); if (single > 127) throw Unspec(); return single; }
    if (c == '-' && !first && strict) throw Unspec();                // where a hyphen can't be told from an operator
    if (c == '-' && !first && at(1) != ']') { ++i; x = one('-'); if (at() == '-' ) throw Unspec(); return -2; }
    if (c == '^' && first) {}
    ++i; x = one((unsigned char) c);
    return (unsigned char) c;
  }
};

enum Verdict { REJECT, ACCEPT, MAY, UNSPEC };
static Verdict refParse(const std::string& p, bool icase, ref::P& ast) {
  RefParser r(p); r.icase = icase;
  try { ast = r.all(); }
  catch (Bad&) { return REJECT; }
  catch (Unspec&) { return UNSPEC; }
  if (r.brace2) return UNSPEC;
  if (ref::nullable(ast)) return REJECT;      // would match the empty string
  return r.may ? MAY : ACCEPT;
}

// --------------------------------------------------------------------- checking
static std::vector<std::string> texts;
static std::vector<std::string> extra;   // texts tried as well when a pattern has odd leaves

static void collect(const ref::P& n, ref::Bytes& b, long& sz) {
  switch (n->k) {
  case ref::SET: b |= n->set; break;
  case ref::REP: { long z = 0; collect(n->l, b, z); sz += z * std::max(1, std::max(n->min, n->max)); return; }
  default: collect(n->l, b, sz); collect(n->r, b, sz); return;
  }
  ++sz;
}

static int reps(const ref::P& n) { return n->k == ref::SET ? 0 : n->k == ref::REP ? 1 + reps(n->l) : reps(n->l) + reps(n->r); }

// fills the stack below the caller, so that what a call reads there without
// having written it is known
__attribute__((noinline)) static void stain(int b) {
  char buf[1 << 15];
  memset(buf, b, sizeof(buf));
  asm volatile("" : : "r"(buf) : "memory");
}

static void check(const std::string& p, const Opts& o = Opts(), bool semantics = true) {
  std::string key = "pat " + hexs(p) + (o.icase ? " i" : "");
  if (!rep.want(key) || rep.full()) return;
  ref::P ast;
  Verdict v = refParse(p, o.icase, ast);
  long sz = 0; ref::Bytes used;
  if (ast && (v == ACCEPT || v == MAY)) { collect(ast, used, sz); if (sz > 3000) v = UNSPEC; }
  rep.add("states");
  // both entry points, the sliced one inside other text
  LG_KeyOptions ko = o.ko();
  Pattern h, hs, hn;
  Err e, es, ea;
  stain(0);
  int r = lg_parse_pattern(h.h, p.c_str(), &ko, &e.e);
  std::string in = "a" + p + "b";
  stain(0x5A);
  int rs = lg_parse_pattern_slice(hs.h, in.data() + 1, p.size(), &ko, &es.e);
  if ((r > 0) != (rs > 0)) { rep.violation(key, "'" + p + "': lg_parse_pattern " + (r > 0 ? "accepts" : "rejects") + " it, lg_parse_pattern_slice does not agree"); return; }
  // the outcome and the message are the pattern's alone, whatever was on the stack
  if (e.msg() != es.msg()) { rep.violation(key, "'" + p + "': one call says '" + e.msg() + "', another '" + es.msg() + "'"); return; }
  // the caller need not ask for the error
  int rn = lg_parse_pattern(hn.h, p.c_str(), &ko, nullptr);
  if (rn != r) { rep.violation(key, "'" + p + "': lg_parse_pattern returns " + std::to_string(r) + ", without an error parameter " + std::to_string(rn)); return; }
  rep.add("transitions", 3);
  bool ok = r > 0; std::string why = e.msg();
  bool huge = sz > 3000;
  Fsm f;
  if (ok && !huge && !(v == UNSPEC && ast && sz > 3000)) {
    // counts too large to build are only parsed
    bool big = false; for (size_t i = 0; i + 3 < p.size(); ++i) if (isdigit(p[i]) && isdigit(p[i+1]) && isdigit(p[i+2]) && isdigit(p[i+3])) big = true;
    if (big && v == UNSPEC) return;
    int a = lg_add_pattern(f.h, h.h, "ASCII", 0, &ea.e);
    rep.add("transitions");
    if (a < 0) {
      ok = false; why = ea.msg();
      int an = lg_add_pattern(f.h, h.h, "ASCII", 0, nullptr);
      if (an >= 0) { rep.violation(key, "'" + p + "' is refused by lg_add_pattern, without an error parameter accepted"); return; }
    }
    else if (a != 0) { rep.violation(key, "'" + p + "': index " + std::to_string(a)); return; }
  }
  if (!ok) {
    if (why.empty()) { rep.violation(key, "'" + p + "' is rejected without a message"); return; }
    const LG_Error* x = e.e ? e.e : ea.e;
    if (!x->Pattern || p != x->Pattern) { rep.violation(key, "'" + p + "' is rejected, but the error names the pattern '" + (x->Pattern ? x->Pattern : "(null)") + "'"); return; }
    if (lg_fsm_pattern_count(f.h) != 0) { rep.violation(key, "'" + p + "' is rejected but counted"); return; }
  }
  if (v == UNSPEC) { rep.add("unspecified"); return; }
  if (v == REJECT && ok) { rep.violation(key, "'" + p + "' is accepted, should be rejected"); return; }
  if (v == ACCEPT && !ok) { rep.violation(key, "'" + p + "' is rejected (" + why + "), should be accepted"); return; }
  rep.outcome(ok ? "accepted" : why.substr(0, 12));
  if (!ok) { rep.add("rejected"); if (rep.counts["rejected"] % 70001 == 1) rep.sample("'" + p + "' rejected: " + why); return; }
  rep.add("accepted");
  if (!semantics || huge) return;
  Prog pr(f.h, 10);
  if (!pr) { rep.violation(key, "'" + p + "': no program"); return; }
  Ctx c(pr.h);
  auto one = [&](const std::string& t) {
    Hits x; ref::Matcher m(t); for (auto& q : m.all(ast)) x.push_back(Hit{(uint64_t) q.first, (uint64_t) q.second, 0});
    Hits g = c.whole(t); rep.add("transitions");
    if (g != x) { rep.violation(key, "'" + p + "' on \"" + t + "\" finds " + show(g) + ", should find " + show(x)); return false; }
    if (!x.empty()) rep.add("traces");
    return true;
  };
  for (auto& t : texts) if (!one(t)) return;
  // every single byte, alone and after and before an 'a', if there are odd leaves
  std::string all; for (int b = 0; b < 256; ++b) { all += char(b); all += 'a'; all += char(b); all += char(b); all += "bb"; }
  if (reps(ast) < 2 && !one(all)) return;
  if (rep.counts["accepted"] % 20011 == 1) rep.sample("'" + p + "' accepted");
}

// all sequences of lo..hi tokens
static void sequences(const std::vector<std::string>& tok, int lo, int hi, Shard& sh, const std::function<void(const std::string&)>& f) {
  for (int n = lo; n <= hi; ++n) {
    std::vector<int> id(n, 0);
    for (;;) {
      if (sh.mine()) { std::string s; for (int i : id) s += tok[i]; f(s); }
      if (rep.full()) return;
      int j = n - 1;
      while (j >= 0 && ++id[j] == (int) tok.size()) id[j--] = 0;
      if (j < 0) break;
    }
  }
}
static std::vector<std::string> chars(const std::string& s) { std::vector<std::string> r; for (char c : s) r.push_back(std::string(1, c)); return r; }

int main(int argc, char** argv) {
  auto A = args(argc, argv);
  Shard sh = shard(A);
  rep.init(A);
  std::string mode = A["mode"];
  int n = geti(A, "n", 5), lo = geti(A, "lo", 1);
  auto plain = [&](const std::string& p) { check(p); };
  auto both = [&](const std::string& p) { check(p); Opts o; o.icase = true; check(p, o); };
  texts = {"", "a", "b", "aa", "ab", "ba", "aab", "aba", "abb", "bab", "baab", "aaaa"};
  if (rep.hasOnly) {       // replay: the key carries the pattern
    size_t a = rep.only.find(' ') + 1, b = rep.only.find(' ', a);
    if (rep.only.compare(0, 4, "pat ") == 0) { texts.push_back("aabbab"); for (auto& t : ref::strings("aAb", 1, 4)) texts.push_back(t); Opts o; o.icase = b != std::string::npos; check(unhex(rep.only.substr(a, b - a)), o); return rep.done(); }
  }
  if (mode == "plain") sequences(chars("ab()|*+?{},12.\\"), lo, n, sh, plain);
  else if (mode == "class") sequences(chars("[]^-a!c\\&~*"), lo, n, sh, plain);
  else if (mode == "flags") { texts = ref::strings("aAb", 1, 3); sequences(chars("(?ai-)|B*"), lo, n, sh, both); }
  else if (mode == "escape") {
    // a backslash and every byte after it, alone and with what may follow
    std::vector<std::string> more = {"", "a", "*", "{2}", "?"};
    if (sh.mine()) for (int c = 1; c < 128; ++c) for (auto& m : more) for (const char* pre : {"", "a", "[", "[^", "[a-"}) {
      std::string p = pre + std::string("\\") + char(c) + (pre[0] == '[' ? "]" : "") + m; check(p);
    }
    std::vector<std::string> tok = chars("x{}0178fFg,zdNU+pLn\\]");
    sequences(tok, 1, n, sh, [&](const std::string& q) { check("\\" + q); });
    sequences(tok, 1, n - 1, sh, [&](const std::string& q) { check("[\\" + q + "]"); });
    // every octal and hexadecimal escape of up to 3 digits, each followed by a literal digit
    if (sh.mine()) for (int v = 0; v < 4096; ++v) { char b[32]; for (const char* f : {"\\%o", "\\%02o", "\\%03o", "\\%o8", "\\%03o7", "\\x%02x", "\\x%02X1", "\\x{%x}", "\\x{%06X}", "\\N{U+%x}", "[\\x%02x]", "[\\x{%x}-\\x{7f}]", "[\\%03o]", "\\x{%07x}"}) { snprintf(b, sizeof b, f, v); check(b); } }
    if (sh.mine()) for (long v : {0xD7FFL, 0xD800L, 0xDFFFL, 0xE000L, 0xFFFFL, 0x10000L, 0x10FFFFL, 0x110000L, 0x7FFFFFL, 0xFFFFFFL, 0x1000000L, 0xFFFFFFFFL, 0x100000041L}) { char b[40]; for (const char* f : {"\\x{%lx}", "\\x{%lx}|a", "\\N{U+%lX}", "[\\x{%lx}a]", "[a\\N{U+%lx}]"}) { snprintf(b, sizeof b, f, v); check(b); } }
  }
  else if (mode == "tokens") {
    // longer sequences of whole constructs
    static const std::vector<std::string> T = {"a", "b", "(", ")", "|", "*", "+?", "??", "{2}", "{0,1}?", "[^a]", "."};
    sequences(T, lo, n, sh, plain);
  }
  else if (mode == "counts") {
    // every pair of repetition bounds, and bounds around the limits of integers
    texts.clear(); for (int k = 0; k <= 14; ++k) { texts.push_back(std::string(k, 'a')); texts.push_back("b" + std::string(k, 'a') + "b"); texts.push_back(std::string(k, 'a') + "bab"); }
    int N = geti(A, "N", 12);
    for (int x = 0; x <= N; ++x) for (int y = -1; y <= N; ++y) for (const char* fm : {"a%s", "a%s?", "b?a%sb", "(ab|a)%s", "(a%s)%s", "[a]%s?b", "a%s?b", "0%s"}) {
      if (!sh.mine()) continue;
      std::string q = "{" + std::to_string(x) + (y < 0 ? ",}" : "," + std::to_string(y) + "}"), p = fm;
      for (size_t k; (k = p.find("%s")) != std::string::npos; ) p.replace(k, 2, q);
      check(p); if (y == x) { std::string p2 = p; for (size_t k; (k = p2.find(q)) != std::string::npos; ) p2.replace(k, q.size(), "{" + std::to_string(x) + "}"); check(p2); }
      if (y >= 0) { std::string p3 = p; for (size_t k; (k = p3.find(q)) != std::string::npos; ) p3.replace(k, q.size(), "{0" + std::to_string(x) + ",00" + std::to_string(y) + "}"); check(p3); }
    }
    for (std::string v : {"2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "9223372036854775807", "9223372036854775808", "18446744073709551616", "18446744073709551617", "99999999999999999999999999", "00000000000000000000000000000003"})
      for (std::string p : {"a{" + v + "}", "a{1," + v + "}", "a{" + v + ",}", "a{" + v + ",1}", "a{" + v + "}?", "a{0," + v + "}b"}) {
        if (!sh.mine()) continue;
        // only a bound which does not fit must be rejected; one which does may fail later for want of memory, so it is only parsed
        std::string key = "count " + p; if (!rep.want(key)) continue;
        std::string d = v; d.erase(0, std::min(d.find_first_not_of('0'), d.size() - 1));
        bool fits = d.size() < 10 || (d.size() == 10 && d <= "2147483647");
        bool rev = p.find(",1}") != std::string::npos && d != "1";
        Pattern h; bool ok = h.parse(p, Opts()); rep.add("states"); rep.add("transitions"); rep.add("traces");
        if (ok != (fits && !rev) ) rep.violation(key, "'" + p + "' is " + (ok ? "accepted" : "rejected"));
      }
  }
  else if (mode == "big") {
    // depth and length: accepted or rejected alike however large, and matching as they should
    typedef std::vector<std::pair<std::string, std::string>> Ex;   // text, expected hits (as "s-e s-e")
    auto big = [&](const std::string& kind, int d, const std::string& p, bool acc, const Ex& ex = Ex()) {
      std::string key = "big " + kind + " " + std::to_string(d);
      if (!rep.want(key) || rep.full()) return;
      rep.add("states"); rep.add("transitions");
      Pat pt; pt.pat = p; pt.enc = "ASCII"; std::string err; Fsm f; int r = f.add(pt, &err);
      if ((r == 0) != acc) { rep.violation(key, std::string("is ") + (acc ? "rejected: " + err.substr(0, 80) : "accepted")); return; }
      if (!acc) { if (err.empty()) rep.violation(key, "rejected without a message"); return; }
      if (ex.empty()) return;
      Prog pr(f.h, 10); if (!pr) { rep.violation(key, "no program"); return; }
      Ctx c(pr.h);
      for (auto& x : ex) {
        std::string g; for (auto& h : c.whole(x.first)) g += (g.empty() ? "" : " ") + std::to_string(h.s) + "-" + std::to_string(h.e);
        rep.add("transitions"); if (!x.second.empty()) rep.add("traces");
        if (g != x.second) { rep.violation(key, "finds " + g.substr(0, 80) + ", should find " + x.second.substr(0, 80)); return; }
      }
    };
    for (int d : {1, 2, 10, 49, 50, 63, 64, 65, 99, 100, 127, 128, 199, 200, 255, 256, 499, 500, 999, 1000, 2047}) {
      if (!sh.mine()) continue;
      std::string o(d, '('), c(d, ')'), ob(d, '['), cb(d, ']'), x, D = std::to_string(d);
      Ex ab = {{"ab", "0-2"}, {"aab", "1-3"}, {"b", ""}, {"abab", "0-2 2-4"}};
      big("paren", d, o + "ab" + c, true, ab); big("paren-a", d, o + "a" + c + "b", true, ab);
      big("paren-q", d, "a" + o + "b" + c + "?", true, {{"ab", "0-2"}, {"aab", "0-1 1-3"}, {"b", ""}});
      big("paren-more", d, o + "ab" + c + ")", false); big("paren-less", d, "(" + o + "ab" + c, false);
      big("class", d, ob + "ab" + cb, true, {{"acb", "0-1 2-3"}}); big("class-open", d, ob + "ab" + cb + "[", false);
      big("class-and", d, ob + "ab&&b" + cb, true, {{"acb", "2-3"}});
      for (int i = 0; i < d; ++i) x += "(a|"; x += "b" + c;
      big("alt-right", d, x, true, {{"acb", "0-1 2-3"}});
      x = o + "a"; for (int i = 0; i < d; ++i) x += "b)";
      big("cat-left", d, x, true, {{"ba" + std::string(d, 'b') + "b", "1-" + std::to_string(d + 2)}, {"a" + std::string(d - 1, 'b'), ""}});
      x = o + "a"; for (int i = 0; i < d; ++i) x += "|b)";
      big("alt-left", d, x, true, {{"acb", "0-1 2-3"}});
      x = o + "a"; for (int i = 0; i < d; ++i) x += ")+";
      big("plus", std::min(d, 64), o.substr(0, std::min(d, 64)) + "a" + x.substr(d + 1, 2 * std::min(d, 64)), true, {{"baaac", "1-4"}});
    }
    for (int d : {1, 2, 16, 63, 64, 127, 128, 129, 255, 256, 257, 1000, 2999}) {
      if (!sh.mine()) continue;
      std::string w(d, 'a'), D = std::to_string(d), x;
      big("lit", d, w, true, {{w, "0-" + D}, {w + "b", "0-" + D}, {w.substr(1), ""}, {"b" + w + w, "1-" + std::to_string(d + 1) + " " + std::to_string(d + 1) + "-" + std::to_string(2 * d + 1)}});
      big("lit-b", d, w + "b", true, {{"a" + w + "b", "1-" + std::to_string(d + 2)}, {w.substr(1) + "b", ""}});
      if (d <= 31) {   // identical threads are not merged: exponential
        for (int i = 0; i < d; ++i) x += "a?";
        big("opt", d, x + "b", true, {{w + "b", "0-" + std::to_string(d + 1)}, {"b", "0-1"}, {"a" + w + "b", "1-" + std::to_string(d + 2)}});
      }
      x = "b"; for (int i = 0; i < d; ++i) x += "|" + std::string(1 + i % 3, 'a');
      big("alts", d, x, true, {{"cabc", "1-2 2-3"}});
      x = "["; for (int i = 0; i < d; ++i) x += char('a' + i % 2);
      big("chars", d, x + "]", true, {{"bacd", d > 1 ? "0-1 1-2" : "1-2"}}); big("chars-open", d, x, false);
    }
  }
  else if (mode == "bytes") {
    // every byte, in every position of short patterns: malformed UTF-8 is rejected, NUL ends the pattern
    static const char* ctx[][2] = {{"", ""}, {"a", ""}, {"", "a"}, {"a", "b"}, {"[", "]"}, {"\\", ""}, {"(", ")"}, {"a{", "}"}};
    for (int x = 1; x < 256; ++x) for (int y = 0; y < 256; ++y) for (int z : {0, 0x41, 0x80, 0xBF, 0xC2, 0xFF}) {
      if (!sh.mine()) continue;
      std::string q(1, char(x)); if (y) { q += char(y); if (z) q += char(z); } else if (z) continue;
      bool hi = false; for (unsigned char c : q) hi |= c >= 128;
      if (!hi) continue;
      // well-formed?
      bool wf = true; for (size_t i = 0; i < q.size() && wf;) { unsigned char c = q[i]; int l = c < 0x80 ? 1 : c >= 0xC2 && c <= 0xDF ? 2 : c >= 0xE0 && c <= 0xEF ? 3 : c >= 0xF0 && c <= 0xF4 ? 4 : 0; if (!l || i + l > q.size()) { wf = false; break; } for (int k = 1; k < l; ++k) { unsigned char d = q[i + k]; unsigned l0 = 0x80, h0 = 0xBF; if (k == 1) { if (c == 0xE0) l0 = 0xA0; if (c == 0xED) h0 = 0x9F; if (c == 0xF0) l0 = 0x90; if (c == 0xF4) h0 = 0x8F; } if (d < l0 || d > h0) wf = false; } i += l; }
      for (auto& cx : ctx) for (int fixed = 0; fixed < 2; ++fixed) {
        std::string p = cx[0] + q + cx[1], key = "bytes " + hexs(p) + (fixed ? " fixed" : "");
        if (!rep.want(key) || rep.full()) continue;
        Pattern h; Opts o; o.fixed = fixed; std::string err; bool ok = h.parse(p, o, &err);
        rep.add("states"); rep.add("transitions"); rep.add("traces");
        if (!ok && err.empty()) rep.violation(key, "rejected without a message");
        if (!wf && ok) rep.violation(key, "malformed UTF-8 is accepted");
        if (wf && !ok && (fixed || cx[0][0] == 0 || cx[0][0] == 'a' && !cx[0][1])) { bool meta = false; for (unsigned char c : q) if (c < 128 && !isalnum(c)) meta = true; if (!meta || fixed) rep.violation(key, "well-formed UTF-8 is rejected: " + err); }
      }
    }
  }
  else if (mode == "fixed") {
    // as a fixed string every pattern is itself
    for (auto& p : ref::strings("ab(*|[\\.^{]+?$-)&", 1, n)) {
      if (!sh.mine()) continue;
      for (int ic = 0; ic < 2; ++ic) {
        std::string key = "fixed " + hexs(p) + (ic ? " i" : "");
        if (!rep.want(key) || rep.full()) continue;
        Pat pt; pt.pat = p; pt.o.fixed = true; pt.o.icase = ic; pt.enc = "ASCII"; std::string err;
        Fsm f; if (f.add(pt, &err) != 0) { rep.violation(key, "'" + p + "' rejected: " + err); continue; }
        Prog pr(f.h, 10); if (!pr) { rep.violation(key, "no program"); continue; }
        Ctx c(pr.h); rep.add("states");
        std::string up = p; for (auto& x : up) x = toupper(x);
        for (auto& t : {p, p + p, "ab" + p + "(", p.substr(1) + p + p.substr(0, p.size() - 1), up}) {
          ref::P ast; for (char x : p) { ref::Bytes b; b.set((unsigned char) x); if (ic && isalpha(x)) b.set(x ^ 32); auto l = ref::mkset("", b); ast = ast ? ref::mkcat(ast, l) : l; }
          ref::Matcher m(t); Hits e; for (auto& q : m.all(ast)) e.push_back(Hit{(uint64_t) q.first, (uint64_t) q.second, 0});
          Hits g = c.whole(t); rep.add("transitions"); if (!e.empty()) rep.add("traces");
          if (g != e) { rep.violation(key, "'" + p + "' as a fixed string on \"" + t + "\" finds " + show(g) + ", should find " + show(e)); break; }
        }
      }
    }
  }
  return rep.done();
}
