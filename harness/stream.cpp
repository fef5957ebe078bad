// P03 (mode=chunk), P04 (mode=ret), P05 (mode=starts), P06 (mode=life):
// how a search context treats a stream of buffers.
#include "pools.h"
using namespace lgx;
using namespace pools;

static Report rep;

// a buffer which exists only while the library may look at it: exact size, and
// overwritten before it is freed
struct Scratch {
  char* p; size_t n;
  // an empty buffer may be at any address, none included
  explicit Scratch(const std::string& s, bool null = true): p(s.empty() && null ? nullptr : new char[s.size() + 1]), n(s.size()) { if (p) memcpy(p, s.data(), n); }
  ~Scratch() { if (p) memset(p, 'a', n); delete[] p; }
};

static const uint64_t OFFS[] = {0, 1, 7, (uint64_t(1) << 31) - 2, (uint64_t(1) << 32) - 3, (uint64_t(1) << 40) + 5, (uint64_t(1) << 63) - 2};

static bool chunk(const Set& s, Compiled& c, const std::vector<std::string>& texts, bool offs, const std::string& key) {
  Ctx x(c.p.h);
  for (auto& t : texts) {
    Hits e0 = expect(s, t);
    unsigned n = t.size();
    unsigned comps = n ? 1u << (n - 1) : 1;
    for (unsigned m = 0; m < comps; ++m) for (int variant = 0; variant < (m == 0 || m == comps - 1 ? 3 : 2); ++variant) {
      // variant 0: as is; 1: with a start offset; 2: with empty buffers in between
      uint64_t off = variant == 1 ? (offs ? OFFS[(m + n) % 7] : 7) : 0;
      Hits h; x.reset();
      unsigned b = 0;
      if (variant == 2) { Scratch z(""); x.search(z.p, z.p, off, h); }
      while (b < n) {
        unsigned q = b + 1;
        while (q < n && !(m >> (q - 1) & 1)) ++q;
        Scratch z(t.substr(b, q - b));
        x.search(z.p, z.p + z.n, off + b, h);
        rep.add("transitions");
        b = q;
        if (variant == 2) { Scratch z2("", (m ^ b) & 1); x.search(z2.p, z2.p, off + b, h); }
      }
      x.closeout(h);
      rep.add("traces");
      Hits e = e0; for (auto& y : e) { y.s += off; y.e += off; }
      h = byKey(h);
      if (h != e) {
        std::string cut; for (unsigned i = 0; i < n; ++i) { cut += t[i]; if (i + 1 < n && (m >> i & 1)) cut += '|'; }
        rep.violation(key, "buffers \"" + cut + "\" at offset " + std::to_string(off) + (variant == 2 ? " with empty buffers" : "") + ": got " + show(h) + " expected " + show(e));
        return false;
      }
      if (!e.empty()) rep.add("with_hits");
    }
  }
  return true;
}

// hits far into a buffer, after bytes no keyword has, and again after as many more;
// and hits which are that long
static bool far(const Set& s, Compiled& c, const std::vector<std::string>& texts, const std::string& key) {
  Ctx x(c.p.h);
  static const int64_t N[] = {254, 255, 256, 257, 1023, 1024, 4096, 65535, 65536, 65537, (1 << 20) + 1, (1 << 24) + 3};
  std::string buf;
  for (int64_t n : N) {
    if (n > 70000 && s.key.size() > 8) continue;
    if (n > 2000000 && s.key.size() > 3) continue;
    for (size_t ti = n > 5000 ? texts.size() - 3 : 0; ti < texts.size(); ++ti) {
      const std::string& t = texts[ti];
      buf.assign(n, char(0xFF)); buf += t; buf.append(n, char(0xFF)); buf += t;
      Hits e; for (auto& y : expect(s, t)) { e.push_back({y.s + n, y.e + n, y.k}); e.push_back({y.s + 2 * n + t.size(), y.e + 2 * n + t.size(), y.k}); }
      e = byKey(e);
      std::stable_sort(e.begin(), e.end(), [](const Hit& a, const Hit& b) { return a.k != b.k ? a.k < b.k : a.s < b.s; });
      for (int64_t cut : {int64_t(0), n, n + 1, 2 * n, int64_t(buf.size()) - 1}) {
        Hits h; x.reset();
        if (cut) x.search(buf.data(), buf.data() + cut, 5, h);
        x.search(buf.data() + cut, buf.data() + buf.size(), 5 + cut, h);
        x.closeout(h);
        rep.add("transitions"); rep.add("traces");
        for (auto& y : h) { y.s -= 5; y.e -= 5; }
        h = byKey(h);
        if (h != e) { rep.violation(key, std::to_string(n) + " bytes 0xFF, \"" + t + "\", " + std::to_string(n) + " bytes 0xFF, \"" + t + "\", cut at " + std::to_string(cut) + ": got " + show(h) + " expected " + show(e)); return false; }
      }
    }
    // a, ab, aab ... repeated: the hits end when the keyword's automaton says so; a keyword
    // which is a loop has one hit as long as the text
    // (nested loops take time quadratic in the hit's length)
    if (s.asts.size() == 1 && (n < 5000 || s.key.size() < 3)) for (const char* u : {"a", "b", "ab"}) {
      size_t l = strlen(u);
      buf.clear(); while (buf.size() < size_t(n) || buf.size() % 12) buf += u;
      // hits in a shorter text of the same kind tell whether there is one hit to the end
      std::string t; while (t.size() < 6) t += u;
      t.resize(6); std::string t2 = t + t;
      Hits e = expect(s, t), e2 = expect(s, t2);
      if (e.size() != 1 || e2.size() != 1 || e[0].s != e2[0].s || t.size() - e[0].e != t2.size() - e2[0].e) continue;
      Hits w = {Hit{e[0].s, buf.size() - (t.size() - e[0].e), 0}};
      for (int64_t cut : {int64_t(0), int64_t(1), int64_t(buf.size()) / 2, int64_t(buf.size()) - 1}) {
        Hits h; x.reset();
        x.search(buf.data(), buf.data() + cut, 0, h);
        x.search(buf.data() + cut, buf.data() + buf.size(), cut, h);
        x.closeout(h);
        rep.add("transitions"); rep.add("traces");
        if (h != w) { rep.violation(key, std::string("\"") + u + "\" repeated to " + std::to_string(buf.size()) + " bytes, cut at " + std::to_string(cut) + ": got " + show(h) + " expected " + show(w)); return false; }
      }
      Hits h; int a0 = 0; { ref::Matcher m(t2); a0 = m.at(s.asts[0], 0); }
      x.reset();
      x.starts(buf.data(), buf.data() + buf.size(), 0, h);
      rep.add("transitions");
      Hits ws; if (a0 > 0 && e2[0].s == 0) ws = w;
      if (e2[0].s == 0 && h != ws) { rep.violation(key, std::string("starts_with \"") + u + "\" repeated to " + std::to_string(buf.size()) + " bytes: got " + show(h) + " expected " + show(ws)); return false; }
    }
  }
  return true;
}

// the value returned after a prefix against every continuation
static bool ret(const Set& s, Compiled& c, const std::vector<std::string>& texts, const std::vector<std::string>& conts, const std::string& key) {
  Ctx x(c.p.h);
  for (auto& t : texts) for (int split = 0; split < 2; ++split) for (uint64_t off : {uint64_t(0), uint64_t(1) << 33}) {
    if (split && t.size() < 2) continue;
    uint64_t end = off + t.size(), r = 0, least = end;
    for (auto& y : conts) {
      Hits h; x.reset();
      uint64_t r2;
      if (split) { x.search(t.data(), t.data() + 1, off, h); r2 = x.search(t.data() + 1, t.data() + t.size(), off + 1, h); }
      else r2 = x.search(t.data(), t.data() + t.size(), off, h);
      size_t before = h.size();
      x.search(y.data(), y.data() + y.size(), end, h);
      x.closeout(h);
      rep.add("transitions", 2);
      if (&y == &conts[0]) r = r2;
      else if (r != r2) { rep.violation(key, "after \"" + t + "\" the return value is not a function of what was searched: " + std::to_string(r) + " then " + std::to_string(r2)); return false; }
      for (size_t i = 0; i < h.size(); ++i) {
        if (i >= before && h[i].e > end) {
          least = std::min(least, h[i].s);
          if (h[i].s < r) { rep.violation(key, "after \"" + t + "\" search returned " + std::to_string(r - off) + " but continuing with \"" + y + "\" hit " + show({h[i]}) + " (offset base " + std::to_string(off) + ")"); return false; }
        }
      }
    }
    rep.add("traces");
    if (r > end) { rep.violation(key, "after \"" + t + "\" search returned " + std::to_string(r) + ", past what was searched (" + std::to_string(end) + ")"); return false; }
    if (r < off) { rep.violation(key, "after \"" + t + "\" search returned " + std::to_string(r) + ", before the start"); return false; }
    if (r == least) rep.add("exact"); else { rep.add("early"); }
    if (r < least && s.asts.size() == 1) { rep.violation(key, "after \"" + t + "\" search returned " + std::to_string(r - off) + " but no continuation up to the bound yields a hit before " + std::to_string(least - off)); return false; }
    if (r < least && getenv("LGX_SHOW")) printf("EARLY %s after %s: %llu least %llu\n", key.c_str(), t.c_str(), (unsigned long long) (r - off), (unsigned long long) (least - off));
    rep.outcome(key + std::to_string(r - off));

    // resolve: what starts later is not reported, what has started is finished
    for (auto& y : conts) for (int cut = 0; cut <= (int) y.size(); cut += 2) {
      Hits h; x.reset();
      x.search(t.data(), t.data() + t.size(), off, h);
      std::string y1 = y.substr(0, cut), y2 = y.substr(cut);
      uint64_t r1 = x.resolve(y1.data(), y1.data() + y1.size(), end, h);
      size_t mid = h.size();
      uint64_t r2 = r1;
      if (cut) r2 = x.resolve(y2.data(), y2.data() + y2.size(), end + cut, h);
      else r1 = x.resolve(y2.data(), y2.data() + y2.size(), end + cut, h), r2 = r1, mid = h.size();
      x.closeout(h);
      rep.add("transitions", 3);
      Hits e; for (auto& q : expect(s, t + y, off)) if (q.s < end) e.push_back(q);
      Hits g = byKey(h);
      if (g != e) { rep.violation(key, "search \"" + t + "\" then resolve \"" + y1 + "\",\"" + y2 + "\": got " + show(g) + " expected " + show(e)); return false; }
      for (size_t i = mid; i < h.size(); ++i) if (cut && h[i].e > end + cut && h[i].s < r1) {
        rep.violation(key, "search \"" + t + "\" then resolve \"" + y1 + "\" returned " + std::to_string(r1 - off) + " but then hit " + show({h[i]})); return false;
      }
      if (r2 > end + y.size()) { rep.violation(key, "resolve returned " + std::to_string(r2) + ", past what was searched"); return false; }
      rep.add("resolve_traces");
    }
  }
  return true;
}

static bool starts(const Set& s, Compiled& c, const std::vector<std::string>& texts, const std::string& key) {
  Ctx x(c.p.h);
  for (auto& t : texts) for (uint64_t off : OFFS) {
    if (off > 7 && t.size() > 4) continue;
    Hits h;
    { Scratch z(t, off & 1); x.starts(z.p, z.p + z.n, off, h); }
    Hits e;
    for (size_t i = 0; i < s.asts.size(); ++i) { ref::Matcher m(t); int n = m.at(s.asts[i], 0); if (n > 0) e.push_back(Hit{off, off + n, (uint32_t) i}); }
    h = byKey(h);
    rep.add("transitions"); if (!e.empty()) rep.add("traces");
    if (h != e) { rep.violation(key, "starts_with \"" + t + "\" at " + std::to_string(off) + ": got " + show(h) + " expected " + show(e)); return false; }
    rep.outcome(show(e));
  }
  // immediately afterwards, and after an unfinished search, with no reset in between
  std::vector<std::string> sm = ref::strings("ab", 0, 3);
  for (auto& p : sm) for (auto& t : sm) {
    Hits h, w, g;
    x.reset();
    x.search(p.data(), p.data() + p.size(), 100, h);
    x.starts(t.data(), t.data() + t.size(), 0, w);
    Hits e;
    for (size_t i = 0; i < s.asts.size(); ++i) { ref::Matcher m(t); int n = m.at(s.asts[i], 0); if (n > 0) e.push_back(Hit{0, (uint64_t) n, (uint32_t) i}); }
    w = byKey(w);
    rep.add("transitions");
    if (w != e) { rep.violation(key, "starts_with \"" + t + "\" after searching \"" + p + "\": got " + show(w) + " expected " + show(e)); return false; }
    // starts_with resets by itself: a search may follow
    x.search(p.data(), p.data() + p.size(), 0, g); x.closeout(g);
    g = byKey(g);
    Hits e2 = expect(s, p);
    if (g != e2) { rep.violation(key, "search \"" + p + "\" after starts_with \"" + t + "\" after searching \"" + p + "\": got " + show(g) + " expected " + show(e2)); return false; }
  }
  return true;
}

// all operation sequences over two contexts of one program
struct Life {
  const Set& s; Compiled& c; const std::string& key; int maxd;
  std::map<std::string, Hits> memo;
  struct Op { int ctx, kind; const char* txt; };   // kind 0 search 1 closeout 2 reset 3 starts 4 recreate
  std::vector<Op> ops;
  Life(const Set& s, Compiled& c, const std::string& k, int d): s(s), c(c), key(k), maxd(d) {
    for (int x = 0; x < 2; ++x) {
      ops.push_back({x, 0, "a"}); ops.push_back({x, 0, "b"}); if (x == 0) ops.push_back({x, 0, "ab"});
      ops.push_back({x, 1, ""}); ops.push_back({x, 2, ""}); ops.push_back({x, 3, "ab"}); if (x == 1) ops.push_back({x, 4, ""}); if (x == 1) ops.push_back({x, 0, ""});
    }
  }
  const Hits& exp(const std::string& t) { auto i = memo.find(t); if (i == memo.end()) i = memo.emplace(t, expect(s, t)).first; return i->second; }
  std::string show1(const std::vector<int>& h) {
    static const char* nm[] = {"search ", "closeout", "reset", "starts_with ", "recreate"};
    std::string r; for (int i : h) r += (r.empty() ? "" : "; ") + std::string("ctx") + char('0' + ops[i].ctx) + " " + nm[ops[i].kind] + ops[i].txt; return r;
  }
  // run one history from scratch (contexts cannot be copied); false on violation
  bool run(const std::vector<int>& hist) {
    std::unique_ptr<Ctx> cx[2] = {std::unique_ptr<Ctx>(new Ctx(c.p.h)), std::unique_ptr<Ctx>(new Ctx(c.p.h))};
    std::string stream[2]; Hits got[2]; bool closed[2] = {false, false}; int gen[2] = {0, 0};
    static const uint64_t base[] = {1000, 0, 500, 3, 70000, 1, 0};
    for (int i : hist) {
      const Op& o = ops[i]; int k = o.ctx; Ctx& x = *cx[k]; uint64_t b = base[gen[k] % 7];
      std::string tx = o.txt;
      switch (o.kind) {
      case 0: { Scratch z(tx); x.search(z.p, z.p + z.n, b + stream[k].size(), got[k]); } stream[k] += tx; break;
      case 1: x.closeout(got[k]); closed[k] = true; break;
      case 2: x.reset(); stream[k].clear(); got[k].clear(); closed[k] = false; ++gen[k]; break;
      case 3: {
        Hits h, e; x.starts(tx.data(), tx.data() + tx.size(), 0, h);
        for (size_t j = 0; j < s.asts.size(); ++j) { ref::Matcher m(tx); int n = m.at(s.asts[j], 0); if (n > 0) e.push_back(Hit{0, (uint64_t) n, (uint32_t) j}); }
        h = byKey(h);
        if (h != e) { rep.violation(key, show1(hist) + ": starts_with got " + show(h) + " expected " + show(e)); return false; }
        stream[k].clear(); got[k].clear(); closed[k] = false; ++gen[k]; break;
      }
      case 4: cx[k].reset(new Ctx(c.p.h)); stream[k].clear(); got[k].clear(); closed[k] = false; ++gen[k]; break;
      }
      rep.add("transitions");
    }
    // only the last operation is new: check the context it touched
    int k = ops[hist.back()].ctx; uint64_t b = base[gen[k] % 7];
    Hits e = exp(stream[k]); for (auto& y : e) { y.s += b; y.e += b; }
    Hits g = byKey(got[k]);
    if (closed[k]) {
      if (g != e) { rep.violation(key, show1(hist) + ": got " + show(g) + " expected " + show(e)); return false; }
      if (!e.empty()) rep.add("traces");
    }
    else {
      // what has been reported so far must be, per keyword, the first hits of the stream
      std::map<uint32_t, size_t> n;
      for (auto& y : g) {
        size_t j = 0, w = n[y.k]++; bool ok = false;
        for (auto& z : e) if (z.k == y.k && j++ == w) ok = z == y;
        if (!ok) { rep.violation(key, show1(hist) + ": reported " + show(g) + " but the stream's hits are " + show(e)); return false; }
      }
    }
    // a state, up to what can be observed later: the streams since the last reset
    states.insert(stream[0] + (closed[0] ? "." : "") + "/" + stream[1] + (closed[1] ? "." : ""));
    return true;
  }
  std::set<std::string> states;
  bool dfs(std::vector<int>& h, std::vector<bool> closed) {
    for (int i = 0; i < (int) ops.size(); ++i) {
      const Op& o = ops[i];
      if (o.kind == 0 && closed[o.ctx]) continue;   // searching on after closeout, without a reset, is not defined
      h.push_back(i);
      if (!run(h)) return false;
      if ((int) h.size() < maxd) {
        std::vector<bool> c2 = closed; c2[o.ctx] = o.kind == 1 ? true : o.kind == 0 ? c2[o.ctx] : false;
        if (!dfs(h, c2)) return false;
      }
      h.pop_back();
    }
    return true;
  }
  bool all() { std::vector<int> h; bool ok = dfs(h, {false, false}); rep.add("model_states", states.size()); return ok; }
};

int main(int argc, char** argv) {
  auto A = args(argc, argv);
  Shard sh = shard(A);
  rep.init(A);
  uint32_t depth = depthArg(A);
  std::string mode = A["mode"], pool = A["pool"];
  std::vector<Set> sets;
  if (pool == "small") sets = singles(asts(geti(A, "size", 4), geti(A, "stride", 1), geti(A, "nq", 6)));
  if (pool == "pairs") { auto v = asts(geti(A, "size", 3), geti(A, "stride", 1)); sets = pairs(v, v); }
  if (pool == "seqpairs") { std::vector<ref::P> v; for (auto& q : seqs(A["els"], geti(A, "len", 3), geti(A, "alt", 0), geti(A, "arity", 2))) if (!ref::nullable(q)) v.push_back(q); sets = pairs(v, v); }
  if (pool == "long") { sets = singles(longs()); auto l = longs(); for (size_t i = 0; i + 1 < l.size(); ++i) sets.push_back(mk({l[i], l[(i * 5 + 3) % l.size()]})); for (size_t i = 0; i + 2 < l.size(); i += 2) sets.push_back(mk({l[i + 1], l[(i * 7 + 2) % l.size()], asts(2)[i % 5]})); }
  if (pool == "many") sets = manys(geti(A, "max", 300));
  std::vector<std::string> texts = ref::strings("abc", 0, geti(A, "n3", 3));
  for (auto& s : ref::strings("ab", geti(A, "n3", 3) + 1, geti(A, "n", 6))) texts.push_back(s);
  std::vector<std::string> conts = ref::strings("ab", 0, geti(A, "d", 4));
  for (auto& s : sets) {
    if (!sh.mine()) continue;
    if (rep.full()) break;
    std::string key = s.key;
    if (!rep.want(key)) continue;
    Compiled c(s, depth);
    if (!c.ok) { rep.violation(key, "does not compile"); continue; }
    rep.add("states");
    bool ok = true;
    if (mode == "chunk") ok = chunk(s, c, texts, true, key);
    if (mode == "far") ok = far(s, c, ref::strings("ab", 1, geti(A, "n", 4)), key);
    if (mode == "ret") ok = ret(s, c, texts, conts, key);
    if (mode == "starts") ok = starts(s, c, texts, key);
    if (mode == "life") { Life l(s, c, key, geti(A, "ops", 4)); ok = l.all(); }
    if (ok && rep.counts["states"] % 53 == 1) rep.sample(mode + ": keywords " + key);
  }
  return rep.done();
}
