// P01: single-pattern semantics.  Every pattern AST up to a size (mode=ast) or
// every member of parametric families (mode=fam), every text up to a length:
// the implementation's hits against the reference's ordered-ends semantics.
#include "lgx.h"
#include "refre.h"
using namespace lgx;

static Report rep;
static std::vector<std::string> texts;

static bool check(const ref::P& n, const std::string& enc, uint32_t depth, const std::vector<std::string>& tx, const std::string& tag, uint64_t off = 0) {
  std::string p = ref::print(n);
  std::string key = tag + p;
  if (!rep.want(key)) return false;
  bool nul = ref::nullable(n);
  Fsm f; Pat pt; pt.pat = p; pt.enc = enc;
  std::string err;
  int r = f.add(pt, &err);
  rep.add("states");
  if (nul) {
    if (r != -2) rep.violation(key, "pattern can match empty but was accepted: " + std::to_string(r));
    rep.add("empty_rejected");
    return true;
  }
  if (r < 0) { rep.violation(key, "valid pattern rejected: " + err); return true; }
  Prog pr(f.h, depth);
  if (!pr) { rep.violation(key, "no program"); return true; }
  Ctx c(pr.h);
  std::string sig;
  for (auto& t : tx) {
    Hits h = c.whole(t, off);
    ref::Matcher m(t);
    auto x = m.all(n);
    rep.add("transitions");
    bool ok = h.size() == x.size();
    for (size_t i = 0; ok && i < x.size(); ++i) ok = h[i].s == off + x[i].first && h[i].e == off + x[i].second && h[i].k == 0;
    if (!ok) {
      Hits e; for (auto& y : x) e.push_back(Hit{off + y.first, off + y.second, 0});
      rep.violation(key, "on \"" + t + "\": got " + show(h) + " expected " + show(e));
      return true;
    }
    if (!h.empty()) rep.add("traces");
    for (auto& y : x) { sig += char(y.first); sig += char(y.second); } sig += '|';
  }
  rep.outcome(sig);
  if (rep.counts["states"] % 997 == 5) rep.sample(p + ": hits on " + std::to_string(tx.size()) + " texts as in the reference");
  return true;
}

int main(int argc, char** argv) {
  auto A = args(argc, argv);
  Shard sh = shard(A);
  rep.init(A);
  std::string mode = A.count("mode") ? A["mode"] : "ast";
  std::vector<ref::P> leaves = {ref::mklit('a'), ref::mklit('b')};
  ref::Bytes d; d.set();   // dot matches every character, newline included
  ref::Bytes ab; ab.set('a'); ab.set('b');
  ref::Bytes na; na.set(); na.reset('a');
  for (int i = 128; i < 256; ++i) { d.reset(i); na.reset(i); }   // ASCII encoding
  std::string lv = A.count("leaves") ? A["leaves"] : "ab";
  if (lv == "dot") leaves = {ref::mklit('a'), ref::mklit('b'), ref::mkset(".", d), ref::mkset("[ab]", ab), ref::mkset("[^a]", na)};
  if (lv == "abc") leaves = {ref::mklit('a'), ref::mklit('b'), ref::mklit('c')};
  uint32_t depth = A.count("depth") ? uint32_t(strtoul(A["depth"].c_str(), 0, 10)) : 10;

  if (mode == "ast") {
    ref::Enum en;
    en.leaves = leaves;
    en.quants = {{0,-1,true},{1,-1,true},{0,1,true},{0,-1,false},{1,-1,false},{0,1,false},{2,2,true},{1,2,true},{2,-1,false},{1,2,false},{0,2,true},{0,0,true}};
    if (A.count("nq")) en.quants.resize(geti(A, "nq", 6));
    texts = ref::strings("abc", 0, geti(A, "n3", 4));
    for (auto& s : ref::strings("ab", geti(A, "n3", 4) + 1, geti(A, "n", 6))) texts.push_back(s);
    if (lv == "dot") for (const char* s : {"\n", "a\nb", "a\n\nb", "\na", "ab\n", "b\na", "\xff", "a\xff" "b", "a\x80", "\x7f" "a"}) texts.push_back(s);
    for (int s = geti(A, "lo", 1); s <= geti(A, "size", 5); ++s)
      en.visit(s, [&](const ref::P& n) { if (sh.mine() && !rep.full()) check(n, "ASCII", depth, texts, ""); });
  }
  else if (mode == "reps") {
    // a quantified group of up to three quantified letters, and a letter after
    // it: where the parts of one copy meet the next
    ref::P a = ref::mklit('a'), b = ref::mklit('b');
    auto rp = [](const ref::P& x, int lo, int hi, bool g) { return ref::mkrep(x, lo, hi, g); };
    std::vector<ref::P> at = {a, rp(a, 0, 1, true), rp(a, 0, 1, false), rp(a, 0, -1, true), rp(a, 0, -1, false), rp(a, 1, 2, true), rp(a, 1, 2, false), rp(a, 1, -1, false), b, rp(b, 0, 1, true), rp(b, 0, 1, false), rp(b, 1, 2, false), ref::mkalt(rp(a, 0, 0, true), b)};
    struct Q { int lo, hi; bool g; };
    std::vector<Q> qs = {{1, 1, true}, {2, 2, true}, {1, 2, true}, {2, 3, false}, {1, -1, true}, {2, -1, false}, {0, 2, true}};
    if (A.count("q3")) qs = {{3, 3, true}, {2, 3, true}, {1, 3, false}, {2, -1, true}, {0, -1, false}, {0, 1, false}};
    texts = ref::strings("ab", 0, geti(A, "n", 6));
    for (auto& x : at) for (auto& y : at) for (auto& z : at) for (int form = 0; form < 3; ++form) {
      ref::P g = form == 0 ? ref::mkcat(x, ref::mkcat(y, z)) : form == 1 ? ref::mkalt(x, ref::mkcat(y, z)) : ref::mkalt(ref::mkcat(x, y), z);
      for (auto& q : qs) {
        ref::P r = q.lo == 1 && q.hi == 1 ? g : rp(g, q.lo, q.hi, q.g);
        for (int tail = 0; tail < 3; ++tail) {
          if (!sh.mine() || rep.full()) continue;
          check(tail ? ref::mkcat(r, tail == 1 ? a : b) : r, "ASCII", depth, texts, "");
        }
      }
    }
  }
  else {
    // families: repetition counts, literal lengths and alternation widths well past
    // every narrow integer the implementation could use
    int N = geti(A, "N", 300);
    auto rp = [](const ref::P& x, int a, int b, bool g = true) { return ref::mkrep(x, a, b, g); };
    ref::P a = ref::mklit('a'), b = ref::mklit('b'), c = ref::mklit('c'), dot = ref::mkset(".", d), cl = ref::mkset("[ab]", ab);
    auto S = [](char ch, int n) { return std::string(std::max(0, n), ch); };
    for (int n = 1; n <= N && !rep.full(); ++n) {
      if (!sh.mine()) continue;
      std::vector<std::string> tx;
      for (int k : {n - 1, n, n + 1, n + 3, 2 * n, 2 * n + 1})
        for (const char* tail : {"", "b", "c", "ab"}) { tx.push_back(S('a', k) + tail); tx.push_back("b" + S('a', k) + tail); }
      std::string al; for (int i = 0; i < n; ++i) al += "ab";
      for (const char* tail : {"", "a", "ab", "c", "b"}) { tx.push_back(al + tail); tx.push_back("c" + al + tail); }
      tx.push_back(al.substr(0, al.size() - 1) + "c"); tx.push_back(al.substr(2) + "c" + al);
      std::string t = "n" + std::to_string(n) + " ";
      for (uint64_t off : {uint64_t(0), (uint64_t(1) << 32) - 2}) {
        std::string t2 = t + (off ? "off " : "");
        check(rp(a, n, n), "ASCII", depth, tx, t2, off);
        if (off) continue;
        check(rp(a, n, -1), "ASCII", depth, tx, t2);
        check(rp(a, n, -1, false), "ASCII", depth, tx, t2);
        check(rp(a, n, n + 3), "ASCII", depth, tx, t2);
        check(rp(a, n, n + 3, false), "ASCII", depth, tx, t2);
        check(ref::mkcat(rp(a, 0, n), b), "ASCII", depth, tx, t2);
        check(ref::mkcat(rp(a, n, n + 1, false), b), "ASCII", depth, tx, t2);
        check(ref::mkcat(rp(ref::mkalt(a, b), n, n), c), "ASCII", depth, tx, t2);
        check(rp(ref::mkcat(a, b), n, n), "ASCII", depth, tx, t2);
        check(rp(ref::mkcat(a, b), n, -1), "ASCII", depth, tx, t2);
        check(ref::mkcat(b, rp(a, n, n)), "ASCII", depth, tx, t2);
        if (n <= 40) {
          check(ref::mkcat(a, ref::mkcat(rp(dot, n, n), b)), "ASCII", depth, tx, t2);
          check(ref::mkcat(a, rp(cl, 1, n, false)), "ASCII", depth, tx, t2);
          check(rp(rp(ref::mkcat(a, rp(b, 0, 1)), 1, n), 1, 2), "ASCII", depth, tx, t2);
        }
        // alternation of n distinct two-letter words, the k-th being the only one which matches
        ref::P alt;
        std::vector<std::string> at;
        for (int i = 0; i < n; ++i) {
          ref::P w = ref::mkcat(ref::mklit(char('A' + i / 20)), ref::mklit(char('a' + i % 20)));
          alt = alt ? ref::mkalt(alt, w) : w;
          if (i == 0 || i == n - 1 || i == n / 2 || i == 255 || i == 256) { std::string s; s += char('A' + i / 20); s += char('a' + i % 20); at.push_back(s); at.push_back("z" + s + s + "A"); }
        }
        check(alt, "ASCII", depth, at, t2);
        // a literal of length n with all byte values, and near misses of it
        ref::P lit; std::string lt;
        for (int i = 0; i < n; ++i) { char ch = char('!' + (i * 7) % 90); if (!isalnum((unsigned char) ch)) ch = '0' + i % 10; lt += ch; lit = lit ? ref::mkcat(lit, ref::mklit(ch)) : ref::mklit(ch); }
        std::vector<std::string> lx = {lt, lt + lt, lt.substr(0, n - 1), lt.substr(0, n - 1) + "~", "~" + lt + "~", lt.substr(1) + lt};
        check(lit, "ASCII", depth, lx, t2);
      }
    }
  }
  return rep.done();
}
