// Pools of patterns and keyword sets shared by the stream/program explorations.
#pragma once
#include "lgx.h"
#include "refre.h"
#include <sstream>

namespace pools {
using namespace lgx;

struct Set { std::vector<ref::P> asts; std::string key; };   // one keyword per AST, ASCII

inline ref::P lit(const std::string& w) { ref::P p; for (char c : w) p = p ? ref::mkcat(p, ref::mklit(c)) : ref::mklit(c); return p; }
inline ref::P cls(const std::string& s) { ref::Bytes b; for (char c : s) b.set((unsigned char) c); return ref::mkset("[" + s + "]", b); }
inline ref::P dot() { ref::Bytes b; for (int i = 0; i < 128; ++i) b.set(i); return ref::mkset(".", b); }
inline ref::P cat(std::initializer_list<ref::P> l) { ref::P p; for (auto& x : l) p = p ? ref::mkcat(p, x) : x; return p; }
inline ref::P alt(std::initializer_list<ref::P> l) { ref::P p; for (auto& x : l) p = p ? ref::mkalt(p, x) : x; return p; }
inline ref::P rpt(const ref::P& x, int a, int b, bool g = true) { return ref::mkrep(x, a, b, g); }

inline Set mk(std::vector<ref::P> v) { Set s; s.asts = v; for (auto& p : v) s.key += (s.key.empty() ? "" : "  ") + ref::print(p); return s; }

// all non-nullable ASTs up to a size, 6 quantifiers
inline std::vector<ref::P> asts(int size, int stride = 1, int nq = 6) {
  ref::Enum en; en.leaves = {ref::mklit('a'), ref::mklit('b')};
  en.quants = {{0,-1,true},{1,-1,true},{0,1,true},{0,-1,false},{1,-1,false},{0,1,false},{2,2,true},{1,2,true},{2,-1,false},{1,2,false},{0,2,true},{0,0,true}};
  en.quants.resize(nq);
  std::vector<ref::P> out; uint64_t n = 0;
  for (int s = 1; s <= size; ++s) en.visit(s, [&](const ref::P& p) { if (!ref::nullable(p) && n++ % stride == 0) out.push_back(p); });
  return out;
}
// longer patterns: exercise the start filter (which looks at a pair of bytes at
// an offset into the minimum match length), long lookahead, late priorities
inline std::vector<ref::P> longs() {
  ref::P a = lit("a"), b = lit("b"), ab = cls("ab");
  return {
    lit("abab"), lit("aabb"), lit("babba"), lit("ababab"), lit("aaaaa"),
    cat({a, dot(), b}), cat({a, dot(), dot(), b}), cat({dot(), dot(), a, b}), cat({ab, ab, lit("ba")}), cat({dot(), a, dot(), b}),
    cat({a, rpt(b, 0, -1), a, b}), cat({a, rpt(dot(), 0, -1), b}), cat({a, rpt(dot(), 0, -1, false), b}), cat({rpt(a, 2, 3), rpt(b, 2, 3, false)}),
    alt({lit("aba"), lit("abab"), lit("ab")}), alt({lit("ab"), lit("abab"), lit("bab")}), alt({lit("aab"), lit("b")}), alt({cat({dot(), dot(), dot()}), lit("ab")}),
    cat({rpt(alt({lit("ab"), lit("ba")}), 1, -1), a}), cat({rpt(lit("ab"), 2, -1, false), b}), rpt(cat({a, rpt(b, 0, 1)}), 2, -1), rpt(cat({a, b}), 2, 3),
    cat({rpt(ab, 3, 3), b}), cat({a, rpt(ab, 2, 4, false), a}), cat({rpt(a, 0, 2), lit("bb")}), cat({rpt(dot(), 0, 3), lit("aa")}),
  };
}

// a leaf with an optional quantifier, as a regex: a b c . [ab] followed by ? * + {m} {m,} {m,n} and ?
inline ref::P element(const std::string& e) {
  size_t i = 0; ref::P x;
  if (e[0] == '[') { i = e.find(']'); x = cls(e.substr(1, i - 1)); ++i; }
  else { x = e[0] == '.' ? dot() : ref::mklit(e[0]); i = 1; }
  if (i >= e.size()) return x;
  int lo = 0, hi = -1;
  switch (e[i++]) {
  case '?': hi = 1; break;
  case '*': break;
  case '+': lo = 1; break;
  default: { char* q; lo = hi = strtol(&e[i], &q, 10); if (*q == ',') { ++q; hi = *q == '}' ? -1 : strtol(q, &q, 10); } i = q + 1 - &e[0]; }
  }
  return rpt(x, lo, hi, i >= e.size());
}
// concatenations of 1..len of the elements (separated by |); with altLen, also all
// alternations of arity of those of up to altLen elements
inline std::vector<ref::P> seqs(const std::string& els, int len, int altLen = 0, int arity = 2) {
  std::vector<ref::P> el; std::stringstream ss(els); std::string w;
  while (std::getline(ss, w, '|')) el.push_back(element(w));
  std::vector<ref::P> cur = el, all = el, sh = altLen ? el : std::vector<ref::P>();
  for (int l = 2; l <= len || l <= altLen; ++l) {
    std::vector<ref::P> nx; for (auto& p : cur) for (auto& q : el) nx.push_back(ref::mkcat(p, q));
    if (l <= len) all.insert(all.end(), nx.begin(), nx.end());
    if (l <= altLen) sh.insert(sh.end(), nx.begin(), nx.end());
    cur.swap(nx);
  }
  std::vector<ref::P> alts = sh;
  for (int i = 1; i < arity && altLen; ++i) { std::vector<ref::P> nx; for (auto& p : sh) for (auto& q : alts) nx.push_back(ref::mkalt(p, q)); alts.swap(nx); }
  if (altLen) all.insert(all.end(), alts.begin(), alts.end());
  return all;
}

inline std::vector<Set> singles(const std::vector<ref::P>& v) { std::vector<Set> r; for (auto& p : v) r.push_back(mk({p})); return r; }
inline std::vector<Set> pairs(const std::vector<ref::P>& v, const std::vector<ref::P>& w) { std::vector<Set> r; for (auto& p : v) for (auto& q : w) r.push_back(mk({p, q})); return r; }

// many keywords at once: the words over {a,b} in order of length, some of them
// quantified, as many as lie around powers of two; in order, backwards, and with
// the shorter ones in the middle
inline std::vector<Set> manys(int max) {
  std::vector<ref::P> w;
  auto words = ref::strings("ab", 1, 9);
  for (size_t i = 0; w.size() < size_t(max); ++i) {
    w.push_back(lit(words[i]));
    if (i % 3 == 1) w.push_back(cat({lit(words[i]), rpt(ref::mklit('a'), 0, -1)}));
    if (i % 3 == 2) w.push_back(cat({rpt(ref::mklit('b'), 1, -1, false), lit(words[i])}));
  }
  std::vector<Set> r;
  for (int n : {3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1025}) for (int o = 0; o < 3; ++o) {
    if (n > max) continue;
    std::vector<ref::P> v(w.begin(), w.begin() + n);
    if (o == 1) std::reverse(v.begin(), v.end());
    if (o == 2) std::rotate(v.begin(), v.begin() + n / 2, v.end());
    Set s; s.asts = v; s.key = std::to_string(n) + " keywords, order " + std::to_string(o);
    r.push_back(s);
  }
  return r;
}

struct Compiled {
  Fsm f; Prog p; bool ok = true;
  Compiled(const Set& s, uint32_t depth, const char* enc = "ASCII") {
    for (size_t i = 0; i < s.asts.size(); ++i) {
      Pat pt; pt.pat = ref::print(s.asts[i]); pt.enc = enc; pt.user = 1000 + i;
      if (f.add(pt) != (int) i) ok = false;
    }
    if (ok) { LG_ProgramOptions o{depth}; p.h = lg_create_program(f.h, &o); ok = p.h != nullptr; }
  }
};

// the reference: every keyword's hits, sorted by keyword, stable
inline Hits expect(const Set& s, const std::string& t, uint64_t off = 0) {
  Hits e;
  for (size_t i = 0; i < s.asts.size(); ++i) { ref::Matcher m(t); for (auto& x : m.all(s.asts[i])) e.push_back(Hit{off + x.first, off + x.second, (uint32_t) i}); }
  return e;
}
inline uint32_t depthArg(std::map<std::string, std::string>& A) { return A.count("depth") ? uint32_t(strtoul(A["depth"].c_str(), 0, 10)) : 10; }
}  // namespace pools
