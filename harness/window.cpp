// P15: decoding a hit and its context (lg_read_window, lg_hit_context)
#include "lgx.h"
#include <lightgrep/util.h>
#include <unicode/ucnv.h>
#include <sys/mman.h>
using namespace lgx;
static Report rep;
typedef std::pair<int32_t, size_t> Ent;      // character or -(byte+1), and its offset

// one step of an independent decoder: length of the valid character at p, or 0
struct Dec {
  std::string name; int oce = 0; UConverter* v = 0; std::map<std::string, int32_t> memo; size_t max = 4; unsigned char inv[256];
  explicit Dec(const std::string& n) {
    name = n; size_t b; while ((b = name.find("|OCE")) != std::string::npos) { ++oce; name.erase(b, 4); }
    if (name.compare(0, 4, "UTF-") == 0) return;
    if (name == "ASCII") { max = 1; return; }
    UErrorCode e = U_ZERO_ERROR; v = ucnv_open(name.c_str(), &e); if (U_FAILURE(e)) abort();
    ucnv_setToUCallBack(v, UCNV_TO_U_CALLBACK_STOP, 0, 0, 0, &e); max = ucnv_getMaxCharSize(v);
  }
  // bytes [p,e) as they are in the buffer (substituted)
  size_t step(const unsigned char* q, const unsigned char* qe, int32_t& cp) {
    size_t n = std::min<size_t>(qe - q, 8); if (!n) return 0;
    unsigned char p[8]; for (size_t i = 0; i < n; ++i) { unsigned char x = q[i]; for (int k = 0; k < oce; ++k) x = inv[x]; p[i] = x; }
    if (name == "ASCII") { cp = p[0]; return p[0] < 0x80; }
    if (name == "UTF-8") {
      int k = p[0] < 0x80 ? 1 : p[0] >= 0xC2 && p[0] < 0xE0 ? 2 : (p[0] & 0xF0) == 0xE0 ? 3 : p[0] >= 0xF0 && p[0] < 0xF5 ? 4 : 0;
      if (!k || (size_t) k > n) return 0;
      uint32_t c = k == 1 ? p[0] : p[0] & (0xFF >> (k + 1)); for (int i = 1; i < k; ++i) { if ((p[i] & 0xC0) != 0x80) return 0; c = c << 6 | (p[i] & 63); }
      static const uint32_t lo[] = {0, 0, 0x80, 0x800, 0x10000}; if (c < lo[k] || c > 0x10FFFF || (c >= 0xD800 && c < 0xE000)) return 0;
      cp = c; return k;
    }
    if (name.compare(0, 6, "UTF-16") == 0) {
      bool le = name[6] == 'L'; if (n < 2) return 0; uint32_t u = le ? p[0] | p[1] << 8 : p[1] | p[0] << 8;
      if (u < 0xD800 || u > 0xDFFF) { cp = u; return 2; } if (u > 0xDBFF || n < 4) return 0;
      uint32_t t = le ? p[2] | p[3] << 8 : p[3] | p[2] << 8; if (t < 0xDC00 || t > 0xDFFF) return 0;
      cp = 0x10000 + ((u - 0xD800) << 10) + (t - 0xDC00); return 4;
    }
    if (name.compare(0, 6, "UTF-32") == 0) {
      bool le = name[6] == 'L'; if (n < 4) return 0; uint32_t c = 0; for (int i = 0; i < 4; ++i) c = c << 8 | p[le ? 3 - i : i];
      if (c > 0x10FFFF || (c >= 0xD800 && c < 0xE000)) return 0; cp = c; return 4;
    }
    for (size_t k = 1; k <= std::min(n, max); ++k) {
      std::string s((char*) p, k); auto i = memo.find(s);
      if (i == memo.end()) {
        UChar o[8]; UErrorCode e = U_ZERO_ERROR; int m = ucnv_toUChars(v, o, 8, s.data(), k, &e); int32_t c = -1;
        if (e <= U_ZERO_ERROR && m == 1 && !(o[0] >= 0xD800 && o[0] < 0xE000)) c = o[0];
        if (e <= U_ZERO_ERROR && m == 2 && (o[0] & 0xFC00) == 0xD800) c = 0x10000 + ((o[0] - 0xD800) << 10) + (o[1] - 0xDC00);
        i = memo.emplace(s, c).first;
      }
      if (i->second >= 0) { cp = i->second; return k; }
    }
    return 0;
  }
  std::vector<Ent> seq(const unsigned char* b, size_t from, size_t to) {
    std::vector<Ent> r;
    while (from < to) { int32_t cp = 0; size_t k = step(b + from, b + to, cp); if (k) { r.push_back({cp, from}); from += k; } else { r.push_back({-int32_t(b[from]) - 1, from}); ++from; } }
    return r;
  }
};

static std::string u8(int32_t c) {
  std::string r; auto b = [&](uint32_t x) { r += char(x); };
  if (c < 0x80) b(c); else if (c < 0x800) { b(0xC0 | c >> 6); b(0x80 | (c & 63)); }
  else if (c < 0x10000) { b(0xE0 | c >> 12); b(0x80 | (c >> 6 & 63)); b(0x80 | (c & 63)); }
  else { b(0xF0 | c >> 18); b(0x80 | (c >> 12 & 63)); b(0x80 | (c >> 6 & 63)); b(0x80 | (c & 63)); }
  return r;
}
static std::string ents(const std::vector<Ent>& v) { std::string s; for (auto& e : v) { char b[32]; snprintf(b, sizeof b, "%s%x@%zu", s.empty() ? "" : " ", e.first, e.second); s += b; } return s; }
static size_t nbad(const std::vector<Ent>& v) { size_t n = 0; for (auto& e : v) n += e.first < 0; return n; }
static size_t run(const std::vector<Ent>& v) { size_t n = 0; for (size_t i = v.size(); i-- && v[i].first >= 0; ) ++n; return n; }

static unsigned char* g_page;   // 4096 bytes between two unmapped pages

struct Case { LG_HDECODER h; const char* enc; const unsigned char* b; size_t n; uint64_t off; };

static std::string oneWindow(const Case& c, Dec& D, size_t hb, size_t he, size_t pre, size_t post) {
  // what must come out
  const size_t apre = pre, apost = post; pre = std::min(pre, c.n + 1); post = std::min(post, c.n + 1);
  std::vector<Ent> tail = D.seq(c.b, hb, post ? c.n : he);
  size_t nh = 0; while (nh < tail.size() && tail[nh].second < he) ++nh;
  size_t endOff = he; if (tail.size() > nh + post) { endOff = tail[nh + post].second; tail.resize(nh + post); } else endOff = post || nh < tail.size() ? c.n : std::max(hb, he);
  if (!post) endOff = he;
  LG_Window in{c.off + hb, c.off + he}, dh{~0ull, ~0ull}; int32_t* ch = 0; size_t* of = 0; size_t len = 0; LG_Error* err = 0;
  unsigned bad = lg_read_window(c.h, (const char*) c.b, (const char*) c.b + c.n, c.off, &in, c.enc, apre, apost, &ch, &of, &len, &dh, &err);
  rep.add("transitions");
  if (err) { std::string m = err->Message; lg_free_error(err); return "fails: " + m; }
  std::vector<Ent> got; for (size_t i = 0; i < len; ++i) got.push_back({ch[i], of[i]});
  lg_free_window_characters(ch); lg_free_window_offsets(of);
  // through a substitution, a bad byte may be given as it is or as it was
  if (D.oce) for (auto& x : got) if (x.first < 0 && x.first != LG_WINDOW_END && x.second < c.n) { unsigned char v = c.b[x.second]; for (int k = 0; k < D.oce; ++k) v = D.inv[v]; if (x.first == -int32_t(v) - 1) x.first = -int32_t(c.b[x.second]) - 1; }
  std::string g = ents(got);
  if (got.empty() || got.back().first != LG_WINDOW_END) return "does not end with the end mark: " + g;
  size_t end = got.back().second; got.pop_back();
  if (dh.begin > dh.end || dh.end > got.size()) return "the hit is not within the result";
  std::vector<Ent> lead(got.begin(), got.begin() + dh.begin), rest(got.begin() + dh.begin, got.end());
  if (rest != tail || end != endOff) return "gives " + g + " with hit " + std::to_string(dh.begin) + "-" + std::to_string(dh.end) + ", should have " + ents(tail) + " end@" + std::to_string(endOff) + " from the hit on";
  if (dh.end - dh.begin != nh) return "the hit is given as " + std::to_string(dh.end - dh.begin) + " characters of " + std::to_string(nh);
  // the leading context
  size_t bestRun = 0, bestBad = ~size_t(0);
  for (size_t l = hb; pre && l-- > 0; ) {
    std::vector<Ent> v = D.seq(c.b, l, hb);
    for (size_t k = l; v.size() < pre && k-- > 0; ) v.insert(v.begin(), Ent(-int32_t(c.b[k]) - 1, k));
    if (v.size() > pre) v.erase(v.begin(), v.end() - pre);
    size_t r = run(v), b = nbad(v);
    if (r > bestRun || (r == bestRun && b < bestBad)) { bestRun = r; bestBad = b; }
  }
  if (!pre || !hb) { if (!lead.empty()) return "has leading context: " + g; }
  else {
    if (lead.empty()) return "has no leading context: " + g;
    if (lead.size() > pre || (lead.size() < pre && lead[0].second != 0)) return "has " + std::to_string(lead.size()) + " leading characters: " + g;
    for (size_t i = 0; i < lead.size(); ++i) {
      size_t e = i + 1 < lead.size() ? lead[i + 1].second : hb; int32_t cp = 0;
      size_t o = lead[i].second;
      bool ok = o < e && e <= hb && (lead[i].first < 0 ? e == o + 1 && lead[i].first == -int32_t(c.b[o]) - 1 : D.step(c.b + o, c.b + hb, cp) == e - o && cp == lead[i].first);
      if (!ok) return "leading context is not a decoding of the bytes before the hit: " + g;
    }
    if (run(lead) != bestRun) return "leading context has " + std::to_string(run(lead)) + " valid characters before the hit, could have " + std::to_string(bestRun) + ": " + g;
    if (nbad(lead) != bestBad) return "leading context has " + std::to_string(nbad(lead)) + " bad bytes, could have " + std::to_string(bestBad) + ": " + g;
  }
  if (bad != nbad(got)) return "returns " + std::to_string(bad) + " bad values, there are " + std::to_string(nbad(got)) + ": " + g;
  if (nbad(got)) rep.add("traces");
  // the same as a string
  if (apre == apost) {
    const char* s = 0; LG_Window out{~0ull, ~0ull}, d2{~0ull, ~0ull}; uint32_t repl = (hb + he) % 3 == 0 ? 0xFFFD : (hb + he) % 3 == 1 ? '?' : 0x1F4A9;
    unsigned b2 = lg_hit_context(c.h, (const char*) c.b, (const char*) c.b + c.n, c.off, &in, c.enc, apre, repl, &s, &out, &d2, &err);
    rep.add("transitions");
    if (err) { std::string m = err->Message; lg_free_error(err); return "context fails: " + m; }
    std::string w; size_t wb = 0, we = 0;
    for (size_t i = 0; i < got.size(); ++i) { if (i == dh.begin) wb = w.size(); if (i == dh.end) we = w.size(); w += u8(got[i].first <= 0 ? repl : got[i].first); }
    if (dh.begin == got.size()) wb = w.size(); if (dh.end == got.size()) we = w.size();
    std::string a = s; lg_free_hit_context_string(s);
    if (a != w || d2.begin != wb || d2.end != we || b2 != bad || out.begin != c.off + (got.empty() ? hb : got[0].second) || out.end != c.off + end)
      return "context is '" + hexs(a) + "' hit " + std::to_string(d2.begin) + "-" + std::to_string(d2.end) + " of bytes " + std::to_string(out.begin - c.off) + "-" + std::to_string(out.end - c.off) + " bad " + std::to_string(b2) + ", should be '" + hexs(w) + "' " + std::to_string(wb) + "-" + std::to_string(we) + " bad " + std::to_string(bad);
  }
  return "";
}

int main(int argc, char** argv) {
  auto A = args(argc, argv); Shard sh = shard(A); rep.init(A); std::string mode = A["mode"];
  g_page = (unsigned char*) mmap(0, 3 * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0) + 4096;
  mprotect(g_page, 4096, PROT_READ | PROT_WRITE);
  LG_HDECODER H = lg_create_decoder();
  struct E { const char* enc; const char* alpha; int n; };
  static const E es[] = {
    {"ASCII", "41007f80", 6}, {"UTF-8", "41c3a9e282f09fff", 5}, {"UTF-8", "00edf4a08f", 6}, {"UTF-16LE", "0041d8dc", 7}, {"UTF-16BE", "00d8dcff", 7}, {"UTF-32LE", "004110d8", 7}, {"UTF-32BE", "000110ff", 7},
    {"windows-1252", "418180ff", 5}, {"Shift_JIS", "4182a0b1fc", 6}, {"gb18030", "308141fe", 7}, {"EUC-JP", "418e8fa4", 7}, {"Big5", "41a440ff", 6}, {"UTF-8|OCE", "", 5}, {"UTF-16LE|OCE|OCE", "", 6}, {"EUC-KR", "41b0a1", 7},
    {"us-ascii", "4180", 5}, {"utf-16be", "00d8dc", 5}, {"identity|UTF-8|identity", "41c3a9", 5}};
  static unsigned char fwd[256], inv[256];
  {
    static const unsigned char T[256] = {
#include "oce.inc"
    };
    for (int b = 0; b < 256; ++b) { fwd[b] = T[b]; inv[T[b]] = b; }
  }
  int lenAdd = geti(A, "len", 0), only = geti(A, "ei", -1);
  if (mode == "window") for (size_t ei = 0; ei < sizeof es / sizeof *es; ++ei) {
    if (only >= 0 && (size_t) only != ei) continue;
    const E& e = es[ei];
    Dec D(ei == 15 ? "ASCII" : ei == 16 ? "UTF-16BE" : ei == 17 ? "UTF-8" : e.enc); memcpy(D.inv, inv, 256);
    std::string al = unhex(e.alpha);
    if (ei == 12) for (unsigned char b : std::string("\x41\xc3\xa9\xe2\x82\xff")) al += char(fwd[b]);
    if (ei == 13) for (unsigned char b : std::string("\x00\x41\xd8\xdc", 4)) al += char(fwd[fwd[b]]);
    int K = al.size();
    for (int n = 0; n <= e.n + lenAdd; ++n) {
      std::vector<int> id(n, 0);
      for (;;) {
        if (sh.mine()) {
          std::string s; for (int i : id) s += al[i];
          // against the following unmapped page, or the preceding one
          bool hi = n % 2 == 0; if (n && id[0] % 2) hi = !hi;
          unsigned char* b = hi ? g_page + 4096 - n : g_page; memcpy(b, s.data(), n);
          std::string key0 = std::string("win ") + e.enc + " " + hexs(s);
          rep.add("states");
          static const size_t cx[] = {0, 1, 2, 6};
          uint64_t off = n % 3 == 0 ? 0 : n % 3 == 1 ? 42 : (1ull << 40) + 5;
          Case c{H, e.enc, b, (size_t) n, off};
          if (rep.want(key0)) [&] { for (int hb = 0; hb <= n; ++hb) for (int he = hb; he <= n; ++he) for (size_t pre : cx) for (size_t post : cx) {
            std::string d = oneWindow(c, D, hb, he, pre, post);
            if (!d.empty()) { rep.violation(key0, std::string(e.enc) + " " + hexs(s) + " hit " + std::to_string(hb) + "-" + std::to_string(he) + " context " + std::to_string(pre) + "/" + std::to_string(post) + " " + d); return; }
          } }();
          // sizes at which arithmetic on them could overflow: all there is
          static const size_t big[] = {~size_t(0), ~size_t(0) - 1, ~size_t(0) / 2, ~size_t(0) / 2 + 1, ~size_t(0) / 3 + 1, ~size_t(0) / 4, ~size_t(0) / 4 + 1, ~size_t(0) / 4 + 2, ~size_t(0) / 8 + 1, 1ull << 33, (1ull << 32) + 1, 1ull << 32, (1ull << 31), (1ull << 30) + 1, 256, 65536};
          if (n <= (e.n > 5 ? 4 : 3) + lenAdd && rep.want(key0)) [&] { for (int hb = 0; hb <= n; ++hb) for (int he = hb; he <= n; ++he) for (size_t x : big) for (int w = 0; w < 4; ++w) {
            size_t pre = w == 0 ? 0 : w == 1 ? 1 : x, post = w == 2 ? 1 : x;
            std::string d = oneWindow(c, D, hb, he, pre, post);
            if (!d.empty()) { rep.violation(key0, std::string(e.enc) + " " + hexs(s) + " hit " + std::to_string(hb) + "-" + std::to_string(he) + " context " + std::to_string(pre) + "/" + std::to_string(post) + " " + d); return; }
          } }();
          rep.outcome(e.enc);
        }
        if (rep.full()) return rep.done();
        int j = n - 1; while (j >= 0 && ++id[j] == K) id[j--] = 0;
        if (j < 0) break;
      }
    }
  }
  return rep.done();
}
