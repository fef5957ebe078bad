// P02: keyword independence.  Every ordered tuple from a pool of patterns, every
// text up to a length: each keyword's hits must be those of the keyword alone
// (reference semantics), in order, non-overlapping; nothing else is reported.
#include "lgx.h"
#include "refre.h"
#include "pools.h"
using namespace lgx;

static Report rep;

struct Kw { ref::P ast; ref::P bytes; Pat pat; };   // bytes: the AST over encoded bytes

static ref::P encode(const ref::P& n, int enc, bool icase) {
  switch (n->k) {
  case ref::SET: {
    ref::P s = n;
    if (icase) { ref::Bytes b = n->set; for (int c = 0; c < 256; ++c) if (n->set[c] && isalpha(c)) b.set(c ^ 32); s = ref::mkset(n->txt, b); }
    ref::Bytes z; z.set(0);
    ref::P nul = ref::mkset("", z);
    if (enc == 1) return ref::mkcat(s, nul);
    if (enc == 2) return ref::mkcat(nul, s);
    return s;
  }
  case ref::CAT: return ref::mkcat(encode(n->l, enc, icase), encode(n->r, enc, icase));
  case ref::ALT: return ref::mkalt(encode(n->l, enc, icase), encode(n->r, enc, icase));
  default: return ref::mkrep(encode(n->l, enc, icase), n->min, n->max, n->greedy);
  }
}
static Kw kw(const ref::P& n, int enc = 0, bool icase = false) {
  static const char* names[] = {"ASCII", "UTF-16LE", "UTF-16BE"};
  Kw k; k.ast = n; k.bytes = encode(n, enc, icase);
  k.pat.pat = ref::print(n); k.pat.enc = names[enc]; k.pat.o.icase = icase;
  return k;
}
static std::string label(const Kw& k) { return k.pat.pat + (k.pat.enc == "ASCII" ? "" : "@" + k.pat.enc) + (k.pat.o.icase ? "/i" : ""); }

static void check(const std::vector<const Kw*>& ks, uint32_t depth, const std::vector<std::string>& texts, const std::vector<std::vector<Hits>>* memo, const std::vector<int>& ids, const std::string& key) {
  if (!rep.want(key) || rep.full()) return;
  Fsm f;
  for (size_t i = 0; i < ks.size(); ++i) {
    std::string err; int r = f.add(ks[i]->pat, &err);
    if (r != (int) i) { rep.violation(key, "keyword " + std::to_string(i) + " got index " + std::to_string(r) + " " + err); return; }
  }
  Prog pr(f.h, depth);
  if (!pr) { rep.violation(key, "no program"); return; }
  rep.add("states");
  Ctx c(pr.h);
  for (size_t ti = 0; ti < texts.size(); ++ti) {
    const std::string& t = texts[ti];
    Hits raw = c.whole(t);
    Hits h = byKey(raw);      // stable: keeps each keyword's own order
    rep.add("transitions");
    Hits e;
    for (size_t i = 0; i < ks.size(); ++i) {
      if (memo) for (Hit x : (*memo)[ids[i]][ti]) { x.k = i; e.push_back(x); }
      else { ref::Matcher m(t); for (auto& x : m.all(ks[i]->bytes)) e.push_back(Hit{(uint64_t) x.first, (uint64_t) x.second, (uint32_t) i}); }
    }
    if (h != e) { rep.violation(key, "on \"" + t + "\" got " + show(h) + " expected " + show(e)); return; }
    if (!e.empty() && (ks.size() == 1 || e.front().k != e.back().k)) rep.add("traces");   // at least two keywords hit
    if (rep.counts["transitions"] % 1013 == 0) rep.outcome(show(e));
  }
  if (rep.counts["states"] % 499 == 7) rep.sample(key + " on " + std::to_string(texts.size()) + " texts");
}

int main(int argc, char** argv) {
  auto A = args(argc, argv);
  Shard sh = shard(A);
  rep.init(A);
  uint32_t depth = A.count("depth") ? uint32_t(strtoul(A["depth"].c_str(), 0, 10)) : 10;
  std::string mode = A["mode"];
  ref::Enum en;
  en.leaves = {ref::mklit('a'), ref::mklit('b')};
  en.quants = {{0,-1,true},{1,-1,true},{0,1,true},{0,-1,false},{1,-1,false},{0,1,false}};
  std::vector<Kw> pool;
  std::vector<std::string> texts;
  auto addPool = [&](int size) { en.visit(size, [&](const ref::P& n) { if (!ref::nullable(n)) pool.push_back(kw(n)); }); };

  if (mode == "tuple") {
    int size = geti(A, "size", 3), k = geti(A, "k", 2), stride = geti(A, "stride", 1);
    for (int s = 1; s <= size; ++s) addPool(s);
    for (const char* w : {"ab", "ba", "aba", "bb"}) { ref::P p; for (const char* q = w; *q; ++q) p = p ? ref::mkcat(p, ref::mklit(*q)) : ref::mklit(*q); pool.push_back(kw(p)); }
    if (stride > 1) { std::vector<Kw> q; for (size_t i = 0; i < pool.size(); i += stride) q.push_back(pool[i]); pool.swap(q); }
    for (auto& s : ref::strings("abc", 0, geti(A, "n3", 3))) texts.push_back(s);
    for (auto& s : ref::strings("ab", geti(A, "n3", 3) + 1, geti(A, "n", 6))) texts.push_back(s);
  }
  else if (mode == "seq") {
    // concatenations of quantified leaves: patterns whose matches overlap and
    // which share states with different continuations
    std::vector<ref::P> all = pools::seqs(A["els"], geti(A, "len", 3), geti(A, "alt", 0), geti(A, "arity", 2));
    int stride = geti(A, "stride", 1); uint64_t n = 0;
    for (auto& p : all) if (!ref::nullable(p) && n++ % stride == 0) pool.push_back(kw(p));
    texts = ref::strings("ab", 0, geti(A, "n", 6));
  }
  else if (mode == "mixed") {
    // the same and different patterns in several encodings and case modes at once
    ref::P a = ref::mklit('a'), b = ref::mklit('b');
    std::vector<ref::P> base = {a, ref::mkcat(a, b), ref::mkrep(a, 1, -1, true), ref::mkcat(a, ref::mkrep(b, 0, 1, true)), ref::mkalt(ref::mkcat(a, a), b)};
    for (auto& p : base) for (int e = 0; e < 3; ++e) for (int i = 0; i < 2; ++i) pool.push_back(kw(p, e, i));
    std::string al("aAb\0", 4);
    texts = ref::strings(al, 0, geti(A, "n", 5));
  }
  if (!pool.empty()) {
    std::vector<std::vector<Hits>> memo(pool.size());
    for (size_t i = 0; i < pool.size(); ++i) for (auto& t : texts) {
      ref::Matcher m(t); Hits h;
      for (auto& x : m.all(pool[i].bytes)) h.push_back(Hit{(uint64_t) x.first, (uint64_t) x.second, 0});
      memo[i].push_back(h);
    }
    rep.add("pool", sh.i == 0 ? pool.size() : 0);
    int k = geti(A, "k", 2);
    std::vector<int> id(k, 0);
    for (;;) {
      if (sh.mine()) {
        std::vector<const Kw*> ks; std::string key;
        for (int i : id) { ks.push_back(&pool[i]); key += (key.empty() ? "" : "  ") + label(pool[i]); }
        check(ks, depth, texts, &memo, id, key);
      }
      int j = k - 1;
      while (j >= 0 && ++id[j] == (int) pool.size()) id[j--] = 0;
      if (j < 0 || rep.full()) break;
    }
  }
  if (mode == "many") {
    // many keywords: counts around every narrow-integer boundary
    std::vector<int> Ns = {2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 4095, 4096, 4097};
    int big = geti(A, "big", 0);
    if (big) { Ns.push_back(10000); Ns.push_back(32767); Ns.push_back(32769); Ns.push_back(65535); Ns.push_back(65536); Ns.push_back(65537); }
    for (int N : Ns) for (int kind = 0; kind < 4; ++kind) {
      if (!sh.mine()) continue;
      std::string key = "many N=" + std::to_string(N) + " kind=" + std::to_string(kind);
      if (!rep.want(key) || rep.full()) continue;
      std::vector<std::string> words;
      Fsm f; bool ok = true;
      int L = N <= 400 ? 2 : N <= 8000 ? 3 : 4;
      for (int i = 0; i < N && ok; ++i) {
        std::string w;
        if (kind == 0 || kind == 3) { int x = i; for (int j = 0; j < L; ++j) { w += char('a' + x % 20); x /= 20; } if (kind == 3) w += std::string(i % 5, 'z'); }
        else if (kind == 1) { if (i >= 300) break; w = std::string(i + 1, 'a'); }                     // a, aa, aaa, ...
        else { if (i >= 600) break; w = "q" + std::string(i % 7, 'r') + char('a' + i % 20); }              // duplicates
        words.push_back(w);
        Pat p; p.pat = w; p.enc = "ASCII"; p.user = uint64_t(i) << 33; std::string err;
        int r = f.add(p, &err);
        if (r != i) { rep.violation(key, "keyword " + std::to_string(i) + " got index " + std::to_string(r)); ok = false; }
      }
      if (!ok) continue;
      Prog pr(f.h, depth);
      if (!pr) { rep.violation(key, "no program"); continue; }
      rep.add("states");
      Ctx c(pr.h);
      int n = words.size();
      std::vector<std::string> tx;
      for (int i : {0, 1, n / 2, n - 2, n - 1, 127, 128, 255, 256, 257, 511, 512, 4095, 4096, 65535, 65536}) if (i >= 0 && i < n) {
        tx.push_back(words[i]); tx.push_back(words[i] + words[i]); tx.push_back("!" + words[i] + "!" + words[(i + 1) % n] + words[(i + n - 1) % n]);
      }
      if (kind == 1) tx.push_back(std::string(301, 'a'));
      for (auto& t : tx) {
        Hits h = byKey(c.whole(t)), e;
        rep.add("transitions"); rep.add("traces");
        for (int i = 0; i < n; ++i) for (size_t p = 0; (p = t.find(words[i], p)) != std::string::npos; p += words[i].size()) e.push_back(Hit{p, p + words[i].size(), (uint32_t) i});
        if (h != e) {
          std::string d; for (size_t i = 0; i < std::max(h.size(), e.size()); ++i) if (i >= h.size() || i >= e.size() || h[i] != e[i]) { d = "first difference: got " + (i < h.size() ? show({h[i]}) : "nothing") + " expected " + (i < e.size() ? show({e[i]}) : "nothing"); break; }
          rep.violation(key, "on \"" + t.substr(0, 80) + "\": " + d); break;
        }
      }
    }
  }
  return rep.done();
}
