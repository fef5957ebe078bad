// P08 (mode=ser), P09 (mode=depth), P16 (mode=hist): programs.
#include "pools.h"
#include <sys/mman.h>
using namespace lgx;
using namespace pools;

static Report rep;

// read-only pages; the buffer ends exactly where unmapped memory begins
struct Guarded {
  char* map; size_t len; char* p; size_t n;
  explicit Guarded(size_t n): n(n) {
    len = (n + 4095) / 4096 * 4096 + 4096;
    map = (char*) mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(map + len - 4096, 4096, PROT_NONE);
    p = map + len - 4096 - n;
  }
  void freeze() { mprotect(map, len - 4096, PROT_READ); }
  ~Guarded() { munmap(map, len); }
  Guarded(const Guarded&) = delete;
};

static bool sameInfo(LG_HPROGRAM a, const std::vector<Pat>& ps, std::string& why) {
  if (lg_prog_pattern_count(a) != ps.size()) { why = "pattern count is " + std::to_string(lg_prog_pattern_count(a)) + ", not " + std::to_string(ps.size()); return false; }
  for (size_t i = 0; i < ps.size(); ++i) {
    LG_PatternInfo* x = lg_prog_pattern_info(a, i);
    if (!x || !x->Pattern || !x->EncodingChain || ps[i].pat != x->Pattern || ps[i].enc != x->EncodingChain || ps[i].user != x->UserIndex) {
      why = "pattern info " + std::to_string(i) + " is (" + (x && x->Pattern ? x->Pattern : "null") + ", " + (x && x->EncodingChain ? x->EncodingChain : "null") + ", " + (x ? std::to_string(x->UserIndex) : "") +
        "), not (" + ps[i].pat + ", " + ps[i].enc + ", " + std::to_string(ps[i].user) + ")";
      return false;
    }
  }
  return true;
}

static bool ser(const std::vector<Pat>& ps, uint32_t depth, const std::vector<std::string>& texts, const std::function<Hits(const std::string&)>& expected, bool prefixes, const std::string& key) {
  Fsm f;
  for (size_t i = 0; i < ps.size(); ++i) if (f.add(ps[i]) != (int) i) { rep.violation(key, "pattern " + std::to_string(i) + " not added"); return false; }
  Prog p(f.h, depth);
  if (!p) { rep.violation(key, "no program"); return false; }
  std::string why;
  if (!sameInfo(p.h, ps, why)) { rep.violation(key, why); return false; }
  unsigned size = lg_program_size(p.h);
  Guarded g(size);
  memset(g.p, 0x5a, size);
  lg_write_program(p.h, g.p);
  std::string img(g.p, size);
  g.freeze();
  // a second write gives the same bytes
  { std::vector<char> b(size + 16, 0x33); lg_write_program(p.h, b.data() + 8);
    if (std::string(b.data() + 8, size) != img) { rep.violation(key, "writing twice gives different bytes"); return false; }
    if (std::string(b.data(), 8) != std::string(8, 0x33) || std::string(b.data() + 8 + size, 8) != std::string(8, 0x33)) { rep.violation(key, "wrote outside the stated size"); return false; } }
  std::vector<Hits> orig;
  { Ctx c(p.h); for (auto& t : texts) { orig.push_back(c.whole(t)); rep.add("transitions"); if (expected && byKey(orig.back()) != expected(t)) { rep.violation(key, "on \"" + t + "\" got " + show(orig.back()) + " expected " + show(expected(t))); return false; } } }
  lg_destroy_program(p.h); p.h = nullptr;
  lg_destroy_fsm(f.h); f.h = nullptr;

  for (int extra = 0; extra < 2; ++extra) for (int off = 0; off < (extra ? 1 : 8); ++off) {
    // at every alignment; and with more room than needed
    std::vector<char> moved; const char* b = g.p;
    if (off || extra) { moved.resize(size + off + 64 * extra); memcpy(moved.data() + off, img.data(), size); b = moved.data() + off; }
    Prog q; q.h = lg_read_program(b, int(size + 64 * extra));
    if (!q) { rep.violation(key, "a written program (size " + std::to_string(size) + ") could not be read back"); return false; }
    if (!sameInfo(q.h, ps, why)) { rep.violation(key, "after reading back, " + why); return false; }
    if (!extra) {
      unsigned s2 = lg_program_size(q.h);
      if (s2 != size) { rep.violation(key, "size was " + std::to_string(size) + ", after reading back " + std::to_string(s2)); return false; }
      std::string im2(s2, 0); lg_write_program(q.h, &im2[0]);
      if (im2 != img) { rep.violation(key, "writing a program which was read back gives different bytes"); return false; }
    }
    Ctx c(q.h);
    for (size_t i = 0; i < texts.size(); ++i) {
      Hits h = c.whole(texts[i]);
      rep.add("transitions");
      if (h != orig[i]) { rep.violation(key, "on \"" + texts[i] + "\" the program gave " + show(orig[i]) + ", after reading back " + show(h)); return false; }
      if (!h.empty()) rep.add("traces");
    }
  }
  if (prefixes) {
    // no proper prefix is a program; each lies against unmapped memory
    Guarded e(size); memcpy(e.p, img.data(), size);
    for (unsigned n = 0; n < size; ++n) {
      char* b = e.p + size - n;
      memmove(b, img.data(), n);
      Prog q; q.h = lg_read_program(b, n);
      rep.add("prefixes");
      if (q) { rep.violation(key, "a prefix of " + std::to_string(n) + " of the " + std::to_string(size) + " bytes was accepted"); return false; }
    }
  }
  return true;
}

static std::vector<Pat> pats(const Set& s) {
  std::vector<Pat> v;
  for (size_t i = 0; i < s.asts.size(); ++i) { Pat p; p.pat = ref::print(s.asts[i]); p.enc = "ASCII"; p.user = i * 0x0123456789abcdefull + 1000; v.push_back(p); }
  return v;
}

// patterns over overlapping byte ranges: many transitions per state, jump tables
static std::vector<ref::P> ranges() {
  auto rg = [](const char* t, int lo, int hi, bool neg = false) { ref::Bytes b; for (int i = lo; i <= hi; ++i) b.set(i); if (neg) { b.flip(); for (int i = 128; i < 256; ++i) b.reset(i); } return ref::mkset(t, b); };
  ref::P A = rg("[a-m]", 'a', 'm'), B = rg("[g-z]", 'g', 'z'), N = rg("[^a]", 'a', 'a', true), Z = rg("[a-z]", 'a', 'z'), L = rg("[b]", 'b', 'b'), O = rg("[^g-m]", 'g', 'm', true), E = rg("[ah]", 'a', 'a');
  { ref::Bytes b; b.set('a'); b.set('h'); E = ref::mkset("[ah]", b); }
  std::vector<ref::P> base = {A, B, N, Z, L, O, E, dot()}, out;
  for (auto& x : base) out.push_back(x);
  for (auto& x : base) for (auto& y : base) { out.push_back(cat({x, y})); out.push_back(alt({cat({x, lit("a")}), y})); out.push_back(cat({rpt(x, 1, -1), y})); out.push_back(cat({rpt(x, 0, 2, false), y})); }
  for (size_t i = 0; i < base.size(); ++i) for (size_t j = 0; j < base.size(); ++j) { out.push_back(cat({base[i], base[j], base[(i + j) % 8], base[(i * 3 + j) % 8]})); out.push_back(cat({rpt(alt({cat({base[i], base[j]}), base[(i + 5) % 8]}), 1, 3), base[(j + 3) % 8]})); }
  return out;
}

static bool depths(const Set& s, const std::vector<std::string>& texts, const std::string& key) {
  std::vector<Pat> ps = pats(s);
  std::vector<Hits> first;
  for (uint32_t d : {0u, 1u, 2u, 3u, 4u, 5u, 6u, 7u, 8u, 9u, 10u, 11u, 12u, 20u, 100u, 4294967294u, 4294967295u}) {
    Fsm f;
    for (auto& p : ps) f.add(p);
    Prog p(f.h, d);
    if (!p) { rep.violation(key, "no program at depth " + std::to_string(d)); return false; }
    rep.add("states");
    Ctx c(p.h);
    for (size_t i = 0; i < texts.size(); ++i) {
      Hits h = byKey(c.whole(texts[i]));
      rep.add("transitions");
      if (d == 0) {
        Hits e = expect(s, texts[i]);
        if (h != e) { rep.violation(key, "not determinized, on \"" + texts[i] + "\" got " + show(h) + " expected " + show(e)); return false; }
        first.push_back(h);
      }
      else {
        if (h != first[i]) { rep.violation(key, "on \"" + texts[i] + "\" depth " + std::to_string(d) + " gave " + show(h) + ", no determinization " + show(first[i])); return false; }
        if (!h.empty()) rep.add("traces");
      }
    }
  }
  return true;
}

// ------------------------------------------------------------ build histories
static ref::P to16(const ref::P& n) {
  switch (n->k) {
  case ref::SET: { ref::Bytes z; z.set(0); return ref::mkcat(n, ref::mkset("", z)); }
  case ref::CAT: return ref::mkcat(to16(n->l), to16(n->r));
  case ref::ALT: return ref::mkalt(to16(n->l), to16(n->r));
  default: return ref::mkrep(to16(n->l), n->min, n->max, n->greedy);
  }
}

struct Hist {
  struct Src { const char* pat; bool fixed; ref::P ast; };     // null ast: does not parse
  std::vector<Src> src;
  struct Kw { std::string pat, enc; uint64_t user; ref::P bytes; };
  struct Op { int kind, a, b; std::string name; };
  std::vector<Op> ops;
  std::vector<std::string> texts;
  std::map<std::string, std::vector<std::vector<std::pair<int, int>>>> memo;
  int maxd;
  Hist(int d, bool two): maxd(d) {
    src.push_back({"ab", false, lit("ab")});
    src.push_back({"a+?b|b{2}", false, ref::mkalt(ref::mkcat(ref::mkrep(lit("a"), 1, -1, false), lit("b")), ref::mkrep(lit("b"), 2, 2, true))});
    src.push_back({"a(b", false, nullptr});
    src.push_back({"a(?=b)", false, nullptr});
    src.push_back({"b*", false, ref::mkrep(lit("b"), 0, -1, true)});       // parses; cannot be added
    src.push_back({"a[ab]", false, cat({lit("a"), cls("ab")})});
    for (size_t i = 0; i < src.size(); ++i) ops.push_back({0, (int) i, 0, std::string("parse ") + src[i].pat});
    const char* en[] = {"ASCII", "UTF-16LE", "nonsense"};
    for (int f = 0; f < (two ? 2 : 1); ++f) {
      std::string F = "fsm" + std::to_string(f);
      for (int e = 0; e < (f ? 1 : 3); ++e) ops.push_back({1, f, e, "add " + F + " " + en[e]});
      ops.push_back({2, f, 0, "program " + F + " depth 0"});
      if (!f) ops.push_back({2, f, 10, "program " + F + " depth 10"});
      if (!f) ops.push_back({3, f, 0, "destroy " + F});
    }
    ops.push_back({4, 0, 0, "new pattern handle"});
    texts = ref::strings(std::string("ab\0", 3), 0, 4);
    texts.push_back(std::string("a\0a\0b\0b\0", 8)); texts.push_back("aaabbb");
  }
  const std::vector<std::vector<std::pair<int, int>>>& hitsOf(const Kw& k) {
    std::string key = k.pat + "@" + k.enc;
    auto i = memo.find(key); if (i != memo.end()) return i->second;
    std::vector<std::vector<std::pair<int, int>>> r;
    for (auto& t : texts) { ref::Matcher m(t); r.push_back(m.all(k.bytes)); }
    return memo.emplace(key, r).first->second;
  }
  std::string show1(const std::vector<int>& h) { std::string r; for (int i : h) r += (r.empty() ? "" : "; ") + ops[i].name; return r; }

  bool run(const std::vector<int>& h) {
    static const char* en[] = {"ASCII", "UTF-16LE", "nonsense"};
    std::string name = show1(h);
    rep.cur(name);
    std::unique_ptr<Pattern> pat(new Pattern);
    std::unique_ptr<Fsm> fsm[2] = {std::unique_ptr<Fsm>(new Fsm(h.size() % 3, h.size() * 7)), std::unique_ptr<Fsm>(new Fsm)};
    int cur = -1;                                    // what the pattern handle holds; -1 nothing usable
    std::vector<Kw> kws[2];
    struct PM { std::unique_ptr<Prog> p; std::vector<Kw> kws; };
    std::vector<PM> progs;
    uint64_t user = 0;
    for (int i : h) {
      const Op& o = ops[i]; std::string err;
      rep.add("transitions");
      ++user;
      switch (o.kind) {
      case 0: {
        Opts op; op.fixed = src[o.a].fixed;
        bool ok = pat->parse(src[o.a].pat, op, &err);
        if (ok != bool(src[o.a].ast)) return bad(name, o.name + (ok ? " succeeded" : " failed: " + err));
        if (!ok && err.empty()) return bad(name, o.name + " failed without an error");
        cur = ok ? o.a : -1;
        break;
      }
      case 1: {
        if (cur < 0) {                               // nothing parsed: adding it fails
          int r = fsm[o.a]->add(*pat, en[o.b], 7, &err);
          if (r >= 0) return bad(name, o.name + " succeeded although no pattern was parsed");
          if (err.empty()) return bad(name, o.name + " failed without an error");
          break;
        }
        const Src& s = src[cur];
        bool want = o.b != 2 && !ref::nullable(s.ast);
        uint64_t u = user * 0x100000001ull;
        int r = fsm[o.a]->add(*pat, en[o.b], u, &err);
        if (want && r != (int) kws[o.a].size()) return bad(name, o.name + " gave index " + std::to_string(r) + ", expected " + std::to_string(kws[o.a].size()) + " " + err);
        if (!want && r >= 0) return bad(name, o.name + " of " + s.pat + " succeeded");
        if (!want && err.empty()) return bad(name, o.name + " failed without an error");
        if (want) kws[o.a].push_back({s.pat, en[o.b], u, o.b == 1 ? to16(s.ast) : s.ast});
        break;
      }
      case 2: {
        PM m; m.p.reset(new Prog(fsm[o.a]->h, o.b)); m.kws = kws[o.a];
        if (bool(*m.p) != !kws[o.a].empty()) return bad(name, o.name + (*m.p ? " made a program from no patterns" : " failed"));
        if (*m.p) progs.push_back(std::move(m));
        break;
      }
      case 3: fsm[o.a].reset(); fsm[o.a].reset(new Fsm); kws[o.a].clear(); break;
      case 4: pat.reset(new Pattern); cur = -1; break;
      }
      for (int f = 0; f < 2; ++f) {
        if (lg_fsm_pattern_count(fsm[f]->h) != kws[f].size()) return bad(name, "after " + o.name + " fsm" + std::to_string(f) + " counts " + std::to_string(lg_fsm_pattern_count(fsm[f]->h)) + " patterns, not " + std::to_string(kws[f].size()));
        for (size_t j = 0; j < kws[f].size(); ++j) { LG_PatternInfo* x = lg_fsm_pattern_info(fsm[f]->h, j); if (!x || kws[f][j].pat != x->Pattern || kws[f][j].enc != x->EncodingChain || kws[f][j].user != x->UserIndex) return bad(name, "after " + o.name + " pattern info of fsm" + std::to_string(f) + " is wrong"); }
      }
    }
    rep.add("states");
    // the handles a program was made from may go
    pat.reset(); fsm[0].reset(); fsm[1].reset();
    for (size_t q = 0; q < progs.size(); ++q) {
      PM& m = progs[q];
      std::vector<Pat> ps; for (auto& k : m.kws) { Pat p; p.pat = k.pat; p.enc = k.enc; p.user = k.user; ps.push_back(p); }
      std::string why;
      if (!sameInfo(m.p->h, ps, why)) return bad(name, "program " + std::to_string(q) + ": " + why);
      Ctx c(m.p->h);
      std::vector<const std::vector<std::vector<std::pair<int, int>>>*> ex; for (auto& k : m.kws) ex.push_back(&hitsOf(k));
      for (size_t i = 0; i < texts.size(); ++i) {
        Hits g = byKey(c.whole(texts[i])), e;
        for (size_t k = 0; k < ex.size(); ++k) for (auto& x : (*ex[k])[i]) e.push_back(Hit{(uint64_t) x.first, (uint64_t) x.second, (uint32_t) k});
        if (g != e) return bad(name, "program " + std::to_string(q) + " of " + std::to_string(progs.size()) + " on \"" + texts[i] + "\": got " + show(g) + " expected " + show(e));
        rep.add("searches");
      }
    }
    if (!progs.empty()) rep.add("traces");
    return true;
  }
  bool bad(const std::string& key, const std::string& what) { rep.violation(key, what); return false; }
  void dfs(std::vector<int>& h, Shard& sh, bool usable = false) {
    // a history is run when it is complete (maxd operations); shorter ones are its prefixes
    if ((int) h.size() == maxd) {
      if (!sh.mine() || rep.full()) return;
      std::string key = show1(h);
      if (!rep.want(key)) return;
      run(h);
      if (rep.counts["states"] % 9973 == 1) rep.sample(key);
      return;
    }
    for (int i = 0; i < (int) ops.size(); ++i) {
      // parsing twice in a row, or a new handle after a parse, only forgets the first
      if (!h.empty() && ops[i].kind == 4 && ops[h.back()].kind == 4) continue;
      if (!h.empty() && ops[i].kind == 0 && (ops[h.back()].kind == 0 || ops[h.back()].kind == 4) && h.size() > 2) continue;
      // adding where nothing is parsed fails; twice in a row, or in a third encoding, adds nothing to see
      if (ops[i].kind == 1 && !usable && (ops[i].b == 2 || (!h.empty() && ops[h.back()].kind == 1))) continue;
      bool u = ops[i].kind == 0 ? bool(src[ops[i].a].ast) : ops[i].kind == 4 ? false : usable;
      h.push_back(i); dfs(h, sh, u); h.pop_back();
    }
  }
};

int main(int argc, char** argv) {
  auto A = args(argc, argv);
  Shard sh = shard(A);
  rep.init(A);
  uint32_t depth = depthArg(A);
  std::string mode = A["mode"], pool = A["pool"];
  if (mode == "hist") {
    Hist h(geti(A, "ops", 5), geti(A, "two", 1));
    std::vector<int> v; h.dfs(v, sh);
    return rep.done();
  }
  std::vector<Set> sets;
  std::vector<std::string> texts;
  if (pool == "small") sets = singles(asts(geti(A, "size", 4), geti(A, "stride", 1), geti(A, "nq", 6)));
  if (pool == "pairs") { auto v = asts(geti(A, "size", 3), geti(A, "stride", 1)); sets = pairs(v, v); }
  if (pool == "triples") { auto v = asts(geti(A, "size", 3), geti(A, "stride", 1)); for (auto& a : v) for (auto& b : v) for (auto& c : v) sets.push_back(mk({a, b, c})); }
  if (pool == "long") { sets = singles(longs()); auto l = longs(); for (auto& x : l) for (auto& y : l) sets.push_back(mk({x, y})); }
  if (pool == "ranges") { auto r = ranges(); sets = singles(r); int st = geti(A, "stride", 5); for (size_t i = 0; i < r.size(); ++i) for (size_t j = i % st; j < r.size(); j += st) sets.push_back(mk({r[i], r[j]})); }
  if (pool == "many") sets = manys(geti(A, "max", 300));
  if (pool == "ranges") texts = ref::strings("abhz", 0, geti(A, "n", 4));
  else {
    texts = ref::strings("abc", 0, geti(A, "n3", 3));
    for (auto& s : ref::strings("ab", geti(A, "n3", 3) + 1, geti(A, "n", 6))) texts.push_back(s);
  }
  for (auto& s : sets) {
    if (!sh.mine()) continue;
    if (rep.full()) break;
    if (!rep.want(s.key)) continue;
    bool ok;
    if (mode == "ser") { rep.add("states"); ok = ser(pats(s), depth, texts, [&](const std::string& t) { return expect(s, t); }, geti(A, "prefixes", 1), s.key); }
    else ok = depths(s, texts, s.key);
    if (ok && rep.counts["states"] % 211 < 17) rep.sample(mode + ": keywords " + s.key);
  }
  if (mode == "ser" && pool == "infos") {
    // what a serialized program carries about its patterns: names, chains, indices
    std::vector<std::string> p = {"a", "ab", "\\x61", "caf\xc3\xa9", "\xf0\x9f\x98\x80", std::string(300, 'a') + "b", "a{3,5}\\t", "\\N{U+263a}x"}, e = {"UTF-8", "UTF-16LE", "windows-1252|rot13", "UTF-8|rot13|XORff", "UTF-32BE"};
    std::vector<uint64_t> u = {0, 1, 0xffffffffull, 0x100000000ull, 0xffffffffffffffffull};
    std::vector<Pat> all;
    for (size_t i = 0; i < p.size(); ++i) for (size_t j = 0; j < e.size(); ++j) { Pat x; x.pat = p[i]; x.enc = e[j]; x.user = u[(i + j) % 5];
      Fsm f; if (f.add(x) == 0) all.push_back(x); }
    for (size_t i = 0; i < all.size(); ++i) for (size_t j = 0; j < all.size(); ++j) {
      if (!sh.mine()) continue;
      std::string key = all[i].pat.substr(0, 20) + "@" + all[i].enc + "  " + all[j].pat.substr(0, 20) + "@" + all[j].enc;
      if (!rep.want(key) || rep.full()) continue;
      rep.add("states");
      ser({all[i], all[j]}, depth, texts, nullptr, i == j, key);
    }
    for (int n : {1, 2, 3, 255, 256, 257, 4095, 4096, 4097, 65535, 65536, 65537}) {
      if (!sh.mine()) continue;
      std::string key = "patterns=" + std::to_string(n);
      if (!rep.want(key) || rep.full()) continue;
      std::vector<Pat> v; for (int i = 0; i < n; ++i) { Pat x; x.pat = "a" + std::to_string(i) + "b"; x.enc = "ASCII"; x.user = uint64_t(i) << 31; v.push_back(x); }
      rep.add("states");
      std::vector<std::string> tx; for (int i : {0, 1, n / 2, n - 1}) tx.push_back("xa" + std::to_string(i) + "ba1b");
      ser(v, depth, tx, nullptr, false, key);
    }
  }
  return rep.done();
}
