// Reference semantics of lightgrep patterns: deliberately naive and independent
// of the implementation.  A pattern denotes, for each start position, the ORDERED
// list of end positions a Perl/PCRE backtracking matcher would try; the first one
// is the match.  No automata, no rewriting.
#pragma once
#include <cstdint>
#include <bitset>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <functional>

namespace ref {

enum Kind { SET, CAT, ALT, REP };
struct Node;
typedef std::shared_ptr<const Node> P;
typedef std::bitset<256> Bytes;
struct Node {
  Kind k; Bytes set; std::string txt;   // SET: bytes + its concrete syntax
  P l, r; int min = 0, max = 0; bool greedy = true;   // max < 0: unbounded
  int size = 1;
};
inline P mkset(const std::string& txt, const Bytes& b) { auto n = std::make_shared<Node>(); n->k = SET; n->set = b; n->txt = txt; return n; }
inline P mklit(char c) { Bytes b; b.set((unsigned char)c); return mkset(std::string(1, c), b); }
inline P mkcat(P l, P r) { auto n = std::make_shared<Node>(); n->k = CAT; n->l = l; n->r = r; n->size = 1 + l->size + r->size; return n; }
inline P mkalt(P l, P r) { auto n = std::make_shared<Node>(); n->k = ALT; n->l = l; n->r = r; n->size = 1 + l->size + r->size; return n; }
inline P mkrep(P c, int mn, int mx, bool g) { auto n = std::make_shared<Node>(); n->k = REP; n->l = c; n->min = mn; n->max = mx; n->greedy = g; n->size = 1 + c->size; return n; }

inline std::string quant(int mn, int mx, bool g) {
  std::string q;
  if (mn == 0 && mx < 0) q = "*"; else if (mn == 1 && mx < 0) q = "+"; else if (mn == 0 && mx == 1) q = "?";
  else if (mx < 0) q = "{" + std::to_string(mn) + ",}";
  else if (mn == mx) q = "{" + std::to_string(mn) + "}";
  else q = "{" + std::to_string(mn) + "," + std::to_string(mx) + "}";
  return g ? q : q + "?";
}
inline std::string print(const P& n) {
  auto par = [](const P& c) { return "(" + print(c) + ")"; };
  switch (n->k) {
  case SET: return n->txt;
  case CAT: return (n->l->k == ALT || n->l->k == CAT ? par(n->l) : print(n->l)) + (n->r->k == ALT ? par(n->r) : print(n->r));
  case ALT: return (n->l->k == ALT ? par(n->l) : print(n->l)) + "|" + print(n->r);
  default:  return (n->l->k == SET ? print(n->l) : par(n->l)) + quant(n->min, n->max, n->greedy);
  }
}
inline bool nullable(const P& n) {
  switch (n->k) {
  case SET: return false;
  case CAT: return nullable(n->l) && nullable(n->r);
  case ALT: return nullable(n->l) || nullable(n->r);
  default: return n->min == 0 || nullable(n->l);
  }
}
// some optional iteration could be empty: the engines documented as comparable
// (Perl, PCRE, RE2, ECMAScript) disagree about the priority of such iterations
inline bool hasEmptyIteration(const P& n) {
  switch (n->k) {
  case SET: return false;
  case REP: return (nullable(n->l) && n->max != n->min) || hasEmptyIteration(n->l);
  default: return hasEmptyIteration(n->l) || hasEmptyIteration(n->r);
  }
}
inline bool hasNullableRep(const P& n) {
  switch (n->k) {
  case SET: return false;
  case REP: return (nullable(n->l) && n->max != 1) || hasNullableRep(n->l);
  default: return hasNullableRep(n->l) || hasNullableRep(n->r);
  }
}

typedef std::vector<int> Ends;
inline void put(Ends& o, int e) { for (int x : o) if (x == e) return; o.push_back(e); }

struct Matcher {
  const std::string& t;
  explicit Matcher(const std::string& s): t(s) {}
  Ends ends(const Node* n, int pos) {
    Ends o;
    switch (n->k) {
    case SET: if (pos < (int)t.size() && n->set[(unsigned char)t[pos]]) o.push_back(pos + 1); break;
    case CAT: { Ends m = ends(n->l.get(), pos); for (int e : m) for (int f : ends(n->r.get(), e)) put(o, f); break; }
    case ALT: { o = ends(n->l.get(), pos); for (int f : ends(n->r.get(), pos)) put(o, f); break; }
    case REP: { std::set<std::pair<int,int>> seen; rep(n, 0, pos, o, seen); break; }
    }
    return o;
  }
  // seen: a place reached a second time adds no new end (only looked at in long texts, where it matters)
  void rep(const Node* n, int k, int pos, Ends& o, std::set<std::pair<int,int>>& seen) {
    if (n->max >= 0 && k >= n->max) { put(o, pos); return; }
    if (t.size() > 24 && !seen.insert(std::make_pair(n->max < 0 ? std::min(k, n->min) : k, pos)).second) return;
    if (k < n->min) { for (int e : ends(n->l.get(), pos)) rep(n, k + 1, e, o, seen); return; }
    if (!n->greedy) put(o, pos);
    for (int e : ends(n->l.get(), pos)) {
      // an empty iteration ends an unbounded loop; a bounded one is sugar for its copies
      if (e == pos && n->max < 0) put(o, pos); else rep(n, k + 1, e, o, seen);
    }
    if (n->greedy) put(o, pos);
  }
  // length of the match at pos, or -1
  int at(const P& n, int pos) { Ends e = ends(n.get(), pos); return e.empty() ? -1 : e[0]; }
  std::vector<std::pair<int,int>> all(const P& n) {
    std::vector<std::pair<int,int>> r;
    for (int i = 0; i < (int)t.size();) {
      int e = at(n, i);
      if (e > i) { r.emplace_back(i, e); i = e; } else ++i;
    }
    return r;
  }
};

struct Q { int mn, mx; bool g; };

// all ASTs with exactly `size` nodes; leaves in order of first use are canonical
struct Enum {
  std::vector<P> leaves; std::vector<Q> quants;
  std::vector<std::vector<P>> memo;
  const std::vector<P>& of(int size) {
    while ((int)memo.size() <= size) memo.emplace_back();
    std::vector<P>& v = memo[size];
    if (!v.empty() || size < 1) return v;
    if (size == 1) { v = leaves; return v; }
    std::vector<P> out;
    for (const P& c : std::vector<P>(of(size - 1))) for (auto& q : quants) out.push_back(mkrep(c, q.mn, q.mx, q.g));
    for (int i = 1; i <= size - 2; ++i) {
      std::vector<P> L = of(i), R = of(size - 1 - i);
      for (auto& l : L) for (auto& r : R) { out.push_back(mkcat(l, r)); out.push_back(mkalt(l, r)); }
    }
    memo[size] = out;
    return memo[size];
  }
  // visit without materialising the last level
  void visit(int size, const std::function<void(const P&)>& f) {
    if (size == 1) { for (auto& l : leaves) f(l); return; }
    { const auto& cs = of(size - 1); for (size_t i = 0; i < cs.size(); ++i) for (auto& q : quants) f(mkrep(memo[size - 1][i], q.mn, q.mx, q.g)); }
    for (int i = 1; i <= size - 2; ++i) {
      of(i); of(size - 1 - i);
      for (size_t a = 0; a < memo[i].size(); ++a) for (size_t b = 0; b < memo[size - 1 - i].size(); ++b) {
        f(mkcat(memo[i][a], memo[size - 1 - i][b])); f(mkalt(memo[i][a], memo[size - 1 - i][b]));
      }
    }
  }
};

inline std::vector<std::string> strings(const std::string& alpha, int lo, int hi) {
  std::vector<std::string> out, cur{""};
  for (int n = 0; n <= hi; ++n) {
    if (n >= lo) out.insert(out.end(), cur.begin(), cur.end());
    std::vector<std::string> nx;
    if (n < hi) for (auto& s : cur) for (char c : alpha) nx.push_back(s + c);
    cur.swap(nx);
  }
  return out;
}

}  // namespace ref
