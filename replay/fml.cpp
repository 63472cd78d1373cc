// model based test of fielded buffers: random histories against a reference (ordered map from field to list of values)
#include <fml32.h>
#include <unistd.h>
#include <algorithm>
#include <map>
#include "rp.h"

typedef std::string V;                          // bytes of a value
typedef std::map<FLDID32, std::vector<V>> Ref;  // contents of a buffer
static const size_t H = 40;
static const int OFFT[] = {1, 2, 3, 4, 5, 6, 10};

static std::vector<std::string> history;
static std::string hist() { std::string s; size_t n = history.size(); for (size_t i = n > 60 ? n - 60 : 0; i < n; i++) s += "\n  " + history[i]; return s; }
#define BAD(...) do { char b_[3000]; snprintf(b_, sizeof b_, __VA_ARGS__); FAIL("%s; after:%s", b_, hist().c_str()); } while (0)
#define LOG(...) do { char b_[1500]; snprintf(b_, sizeof b_, __VA_ARGS__); history.push_back(b_); } while (0)

static int ty(FLDID32 f) { return f >> 24; }
static size_t fixed(int t) { return t == FLD_SHORT ? 2 : t == FLD_CHAR ? 1 : t == FLD_FLOAT ? 4 : t == FLD_LONG || t == FLD_DOUBLE ? 8 : 0; }
static size_t need(FLDID32 f, size_t n) { int t = ty(f); return t == FLD_SHORT || t == FLD_CHAR || t == FLD_FLOAT ? 8 : t == FLD_LONG || t == FLD_DOUBLE ? 16 : 8 + (n + 7) / 8 * 8; }
static size_t used(const Ref &r) { size_t n = H; for (auto &x : r) for (auto &v : x.second) n += need(x.first, v.size()); return n; }
static size_t cnt(const Ref &r, FLDID32 f) { auto i = r.find(f); return i == r.end() ? 0 : i->second.size(); }

struct Buf {
  FBFR32 *b;
  size_t cap;
  Ref r;
  std::string raw() const { return std::string((char *)b, cap); }
};
static Buf mk(size_t cap) {
  Buf x;
  x.cap = cap;
  x.b = (FBFR32 *)malloc(cap);
  for (size_t i = 0; i < cap; i++) ((char *)x.b)[i] = rnd(256);
  if (Finit32(x.b, cap) != 0) BAD("Finit32 of %zu bytes failed with %d", cap, Ferror32);
  return x;
}
static V defval(FLDID32 f) { int t = ty(f); if (t == FLD_STRING) return V(1, 0); if (t == FLD_CARRAY) return V(); if (t == FLD_FML32) return V(H, 0); return V(fixed(t), 0); }
// value as stored
static V stored(FLDID32 f, V v) { if (ty(f) == FLD_FML32) memcpy(&v[0], &v[4], 4); return v; }
static bool same(FLDID32 f, const V &a, const V &b) { return a == b; }

static void layout(const Buf &x, const char *what) {
  // the raw contents: fields in order of their ids, every field complete, offsets at the first field of each type
  uint32_t h[10];
  memcpy(h, x.b, sizeof h);
  if (h[0] != x.cap - H) BAD("%s: recorded size is %u, not %zu", what, h[0], x.cap - H);
  if (h[1] > h[0]) BAD("%s: %u bytes in use of %u", what, h[1], h[0]);
  const char *d = (const char *)x.b + H;
  size_t p = 0;
  std::map<int, size_t> first;
  FLDID32 prev = 0;
  Ref got;
  while (p < h[1]) {
    FLDID32 f;
    if (h[1] - p < 8) BAD("%s: truncated field", what);
    memcpy(&f, d + p, 4);
    int t = ty(f);
    if (!(t >= 0 && t <= 6) && t != 10) BAD("%s: field %08x of an unknown type at %zu", what, f, p);
    if (f < prev) BAD("%s: field %08x after field %08x", what, f, prev);
    prev = f;
    uint32_t fl = fixed(t);
    size_t o = t == FLD_LONG || t == FLD_DOUBLE ? 8 : 4;
    if (!fl) memcpy(&fl, d + p + 4, 4), o = 8;
    size_t n = need(f, fl);
    if (n > h[1] - p) BAD("%s: field %08x at %zu with %zu bytes runs over the end %u", what, f, p, n, h[1]);
    if (!first.count(t)) first[t] = p;
    V v(d + p + o, fl);
    if (t == FLD_FML32 && !(v.size() >= H && !memcmp(&v[0], &v[4], 4))) BAD("%s: embedded buffer is not closed", what);
    got[f].push_back(v);
    p += n;
  }
  size_t end = h[1];
  for (int i = 6; i >= 0; i--) {
    size_t e = end;
    for (int k = i; k < 7; k++) if (first.count(OFFT[k])) { e = first[OFFT[k]]; break; }
    if (h[2 + i] != e) BAD("%s: offset of type %d is %u, not %zu", what, OFFT[i], h[2 + i], e);
  }
  if (got != x.r) {
    std::string s;
    for (auto &k : x.r) for (size_t i = 0; i < k.second.size(); i++) if (cnt(got, k.first) <= i || got[k.first][i] != k.second[i]) { char b[300]; snprintf(b, sizeof b, " field %08x occurrence %zu should be %s", k.first, i, hex(k.second[i].data(), k.second[i].size() < 60 ? k.second[i].size() : 60).c_str()); s += b; }
    for (auto &k : got) for (size_t i = 0; i < k.second.size(); i++) if (cnt(x.r, k.first) <= i) { char b[200]; snprintf(b, sizeof b, " field %08x occurrence %zu should not be there", k.first, i); s += b; }
    BAD("%s: contents are wrong:%s", what, s.substr(0, 2000).c_str());
  }
}
#define ERR(e, w) do { if (Ferror32 != (e)) BAD("%s: error code is %d, not %d", w, Ferror32, (e)); } while (0)

static std::vector<FLDID32> ids;
static FLDID32 rid() { return ids[rnd(ids.size())]; }
static V rval(FLDID32 f, int depth = 0);
static int step(Ref &r, size_t cap, FLDID32 f, size_t oc, const V &v) {
  // one occurrence: present or the next one
  Ref n = r;
  if (oc < cnt(n, f)) n[f][oc] = stored(f, v); else n[f].push_back(stored(f, v));
  if (used(n) > cap) return -1;
  r = n;
  return 0;
}
static int mchg(Ref &r, size_t cap, FLDID32 f, int oc, const V &v) {
  if (oc == -1) oc = cnt(r, f);
  while ((int)cnt(r, f) < oc) if (step(r, cap, f, cnt(r, f), defval(f)) == -1) return -1;
  return step(r, cap, f, oc, v);
}
static char *ptr(const V &v) { char *p = (char *)aligned_alloc(8, (v.size() + 7) / 8 * 8 + 8) ; return p; }
struct Val { char *p; Val(const V &v) { p = (char *)malloc(v.size() ? v.size() : 1); memcpy(p, v.data(), v.size()); } ~Val() { free(p); } };
static V rval(FLDID32 f, int depth) {
  int t = ty(f);
  V v;
  if (t == FLD_STRING) { size_t n = rnd(4) ? rnd(18) : 0; for (size_t i = 0; i < n; i++) v += (char)('a' + rnd(3)); v += '\0'; return v; }
  if (t == FLD_CARRAY) { size_t n = rnd(4) ? rnd(18) : 0; for (size_t i = 0; i < n; i++) v += (char)rnd(256); return v; }
  if (t == FLD_FML32) {
    Buf b = mk(H + 8 * rnd(20));
    for (int i = rnd(3); i > 0 && depth < 2; i--) { FLDID32 g = rid(); V w = rval(g, depth + 1); Val p(w); Fadd32(b.b, g, p.p, w.size()); }
    v = V((char *)b.b, Fused32(b.b));
    free(b.b);
    return v;
  }
  for (size_t i = 0; i < fixed(t); i++) v += (char)(rnd(2) ? 0 : rnd(256));
  return v;
}
static void lookups(Buf &x) {
  std::string before = x.raw();
  for (int k = 0; k < 3; k++) {
    FLDID32 f = rid();
    int n = cnt(x.r, f);
    int oc = (int)rnd(n + 2) - (rnd(10) == 0);
    bool p = oc >= 0 && oc < n;
    if (Foccur32(x.b, f) != n) BAD("Foccur32(%08x) is %d, not %d", f, Foccur32(x.b, f), n);
    if (Fpres32(x.b, f, oc) != (p ? 1 : 0)) BAD("Fpres32(%08x, %d) is %d", f, oc, Fpres32(x.b, f, oc));
    long l = Flen32(x.b, f, oc);
    if (l != (p ? (long)x.r[f][oc].size() : -1)) BAD("Flen32(%08x, %d) is %ld", f, oc, l);
    if (!p) ERR(FNOTPRES, "Flen32"); else ERR(0, "Flen32");
    FLDLEN32 fl = 12345;
    char *q = Ffind32(x.b, f, oc, &fl);
    if ((q != nullptr) != p) BAD("Ffind32(%08x, %d) is %p", f, oc, q);
    if (p) { if (fl != x.r[f][oc].size() || memcmp(q, x.r[f][oc].data(), fl)) BAD("Ffind32(%08x, %d) gives a wrong value", f, oc); if (((uintptr_t)q) & (fixed(ty(f)) ? fixed(ty(f)) - 1 : 7)) BAD("Ffind32(%08x, %d) is not aligned", f, oc); }
    else ERR(FNOTPRES, "Ffind32");
    if (Ffind32(x.b, f, oc, nullptr) != q) BAD("Ffind32(%08x, %d) without length", f, oc);
    FLDOCC32 lo = 777;
    fl = 12345;
    q = Ffindlast32(x.b, f, &lo, &fl);
    if ((q != nullptr) != (n > 0)) BAD("Ffindlast32(%08x) is %p", f, q);
    if (n) { if (lo != n - 1 || fl != x.r[f][n - 1].size() || memcmp(q, x.r[f][n - 1].data(), fl)) BAD("Ffindlast32(%08x) gives occurrence %d, a wrong value or length", f, lo); }
    else ERR(FNOTPRES, "Ffindlast32");
    size_t m = p ? x.r[f][oc].size() : 8;
    size_t cap = rnd(2) ? m : rnd(m + 3);
    char *loc = (char *)malloc(cap ? cap : 1);
    memset(loc, 0x5a, cap);
    fl = cap;
    int rc = Fget32(x.b, f, oc, loc, &fl);
    if (!p) { if (rc != -1) BAD("Fget32 of an absent field"); ERR(FNOTPRES, "Fget32"); }
    else if (cap < m) { if (rc != -1 || fl != m) BAD("Fget32 into a short buffer: %d, length %u", rc, fl); ERR(FNOSPACE, "Fget32"); for (size_t i = 0; i < cap; i++) if (loc[i] != 0x5a) BAD("Fget32 into a short buffer writes"); }
    else {
      size_t s = ty(f) == FLD_FML32 ? 4 : 0;
      if (rc != 0 || fl != m || memcmp(loc + s, x.r[f][oc].data() + s, m - s)) BAD("Fget32(%08x, %d) gives a wrong value", f, oc);
      for (size_t i = 0; i < s; i++) if (loc[i] != 0x5a) BAD("Fget32 changes the size of the receiving buffer");
    }
    free(loc);
    FLDLEN32 ex = rnd(9), e0 = ex;
    bool xl = rnd(2); q = Fgetalloc32(x.b, f, oc, xl ? &ex : nullptr);
    if ((q != nullptr) != p) BAD("Fgetalloc32(%08x, %d) is %p", f, oc, q);
    if (p) { if (memcmp(q, x.r[f][oc].data(), m) || (ex != e0 && ex != m)) BAD("Fgetalloc32(%08x, %d) gives a wrong value", f, oc); for (FLDLEN32 z = 0; xl && z < m + e0; z++) ((volatile char *)q)[z] = 1; free(q); }
    else ERR(FNOTPRES, "Fgetalloc32");
    // search for a value
    V w = n && rnd(2) ? x.r[f][rnd(n)] : rval(f);
    int t = ty(f);
    if (t != FLD_FML32 && t != FLD_FLOAT && t != FLD_DOUBLE) {
      int want = -1;
      for (int i = 0; i < n && want == -1; i++) if (x.r[f][i] == w) want = i;
      Val vp(w);
      int got = Ffindocc32(x.b, f, vp.p, t == FLD_STRING ? 0 : w.size());
      if (got != want) BAD("Ffindocc32(%08x, %s) is %d, not %d", f, hex(w.data(), w.size()).c_str(), got, want);
    }
  }
  // iteration
  FLDID32 f = FIRSTFLDID;
  FLDOCC32 oc = 0;
  auto i = x.r.begin();
  size_t k = 0;
  char tmp[4096];
  bool nolen = rnd(3) == 0;
  while (true) {
    FLDLEN32 l = sizeof tmp;
    memset(tmp, 0x11, sizeof tmp);
    int rc = Fnext32(x.b, &f, &oc, tmp, nolen ? nullptr : &l);
    if (i == x.r.end()) { if (rc != 0) BAD("Fnext32 after the last field gives %d", rc); break; }
    if (rc != 1 || f != i->first || oc != (int)k) BAD("Fnext32 gives %d, field %08x occurrence %d instead of %08x %zu", rc, f, oc, i->first, k);
    if (!nolen && l != i->second[k].size()) BAD("Fnext32 length %u of field %08x occurrence %zu", l, f, k);
    if (memcmp(tmp, i->second[k].data(), i->second[k].size())) BAD("Fnext32 value of field %08x occurrence %zu%s", f, k, nolen ? " (length not asked)" : "");
    if (++k == i->second.size()) k = 0, ++i;
  }
  if (Fsizeof32(x.b) != (long)x.cap || Fused32(x.b) != (long)used(x.r) || Funused32(x.b) != (long)(x.cap - used(x.r))) BAD("Fsizeof32 %ld Fused32 %ld Funused32 %ld", Fsizeof32(x.b), Fused32(x.b), Funused32(x.b));
  if (x.raw() != before) BAD("a lookup changed the buffer");
}
static uint32_t crc(const char *p, size_t n) {
  uint32_t c = ~0u;
  for (size_t i = 0; i < n; i++) { c ^= (unsigned char)p[i]; for (int j = 0; j < 8; j++) c = c & 1 ? (c >> 1) ^ 0xEDB88320u : c >> 1; }
  return ~c;
}
static std::vector<FLDID32> rlist() { std::vector<FLDID32> l; for (int i = rnd(5); i > 0; i--) l.push_back(rid()); l.push_back(BADFLDID); return l; }
static bool in(const std::vector<FLDID32> &l, FLDID32 f) { return std::find(l.begin(), l.end() - 1, f) != l.end() - 1; }

int main(int argc, char **argv) {
  int rounds = argc > 1 ? atoi(argv[1]) : 3000;
  // invalid arguments
  {
    Buf x = mk(H + 64);
    std::string b0 = x.raw();
    FLDID32 good = (FLD_LONG << 24) | 7;
    FLDID32 bad[] = {(7u << 24) | 1, (8u << 24) | 1, (9u << 24) | 1, (11u << 24) | 1, 0xffffffff, 0x80000001};
    long v = 5;
    FLDLEN32 l = 8;
    FLDOCC32 o;
    char t[64];
    char *m = (char *)x.b;
#define INV(call, fail, err) do { Ferror32 = 0; history.clear(); LOG(#call); if ((call) != (fail)) BAD("does not fail"); if (Ferror32 != (err)) BAD("error code is %d, not %d", Ferror32, (err)); if (x.raw() != b0) BAD("buffer is changed"); } while (0)
    for (int k = 0; k < 8; k++) {
      FBFR32 *p = k == 0 ? nullptr : (FBFR32 *)(m + k);
      char *nc = nullptr;
      INV(Fchg32(p, good, 0, (char *)&v, 0), -1, FNOTFLD); INV(Fadd32(p, good, (char *)&v, 0), -1, FNOTFLD); INV(Ffind32(p, good, 0, &l), nc, FNOTFLD);
      INV(Ffindlast32(p, good, &o, &l), nc, FNOTFLD); INV(Fpres32(p, good, 0), -1, FNOTFLD); INV(Foccur32(p, good), -1, FNOTFLD); INV(Flen32(p, good, 0), -1, FNOTFLD);
      INV(Fdel32(p, good, 0), -1, FNOTFLD); INV(Fdelall32(p, good), -1, FNOTFLD); INV(Fget32(p, good, 0, t, &l), -1, FNOTFLD); INV(Fgetalloc32(p, good, 0, &l), nc, FNOTFLD);
      INV(Fcpy32(p, x.b), -1, FNOTFLD); INV(Fcpy32(x.b, p), -1, FNOTFLD); INV(Fupdate32(p, x.b), -1, FNOTFLD); INV(Fupdate32(x.b, p), -1, FNOTFLD); INV(Fjoin32(x.b, p), -1, FNOTFLD); INV(Fjoin32(p, x.b), -1, FNOTFLD);
      INV(Fojoin32(x.b, p), -1, FNOTFLD); INV(Fojoin32(p, x.b), -1, FNOTFLD); INV(Fconcat32(x.b, p), -1, FNOTFLD); INV(Fconcat32(p, x.b), -1, FNOTFLD); INV(Fsizeof32(p), -1, FNOTFLD); INV(Fused32(p), -1, FNOTFLD); INV(Funused32(p), -1, FNOTFLD);
      INV(Ffindocc32(p, good, (char *)&v, 0), -1, FNOTFLD); INV(Fchksum32(p), -1, FNOTFLD);
      FLDID32 li[] = {good, 0}; INV(Fproj32(p, li), -1, FNOTFLD); INV(Fprojcpy32(p, x.b, li), -1, FNOTFLD); INV(Fprojcpy32(x.b, p, li), -1, FNOTFLD); INV(Fdelete32(p, li), -1, FNOTFLD);
      FLDID32 fi = 0; INV(Fnext32(p, &fi, &o, t, &l), -1, FNOTFLD); INV(Finit32(p, 100), -1, FNOTFLD); INV(Fread32(p, stdin), -1, FNOTFLD); INV(Fwrite32(p, stdout), -1, FNOTFLD); INV(Frealloc32(p, 1, 1), (FBFR32 *)nullptr, FNOTFLD);
    }
    for (FLDID32 f : bad) {
      char *nc = nullptr;
      INV(Fchg32(x.b, f, 0, (char *)&v, 0), -1, FTYPERR); INV(Fadd32(x.b, f, (char *)&v, 0), -1, FTYPERR); INV(Ffind32(x.b, f, 0, &l), nc, FTYPERR); INV(Ffindlast32(x.b, f, &o, &l), nc, FTYPERR);
      INV(Fpres32(x.b, f, 0), -1, FTYPERR); INV(Foccur32(x.b, f), -1, FTYPERR); INV(Flen32(x.b, f, 0), -1, FTYPERR); INV(Fdel32(x.b, f, 0), -1, FTYPERR); INV(Fdelall32(x.b, f), -1, FTYPERR); INV(Fget32(x.b, f, 0, t, &l), -1, FTYPERR);
      INV(Fgetalloc32(x.b, f, 0, &l), nc, FTYPERR); INV(Ffindocc32(x.b, f, (char *)&v, 0), -1, FTYPERR);
    }
    { char *nc = nullptr; FLDID32 f = 0;
      INV(Fchg32(x.b, f, 0, (char *)&v, 0), -1, FBADFLD); INV(Fadd32(x.b, f, (char *)&v, 0), -1, FBADFLD); INV(Ffind32(x.b, f, 0, &l), nc, FBADFLD); INV(Ffindlast32(x.b, f, &o, &l), nc, FBADFLD);
      INV(Fpres32(x.b, f, 0), -1, FBADFLD); INV(Foccur32(x.b, f), -1, FBADFLD); INV(Flen32(x.b, f, 0), -1, FBADFLD); INV(Fdel32(x.b, f, 0), -1, FBADFLD); INV(Fdelall32(x.b, f), -1, FBADFLD); INV(Fget32(x.b, f, 0, t, &l), -1, FBADFLD);
      INV(Fgetalloc32(x.b, f, 0, &l), nc, FBADFLD); INV(Ffindocc32(x.b, f, (char *)&v, 0), -1, FBADFLD); }
    FLDID32 fi = 0;
    INV(Fnext32(x.b, nullptr, &o, t, &l), -1, FEINVAL); INV(Fnext32(x.b, &fi, nullptr, t, &l), -1, FEINVAL);
    for (size_t n = 0; n < H; n++) INV(Finit32(x.b, n), -1, FNOSPACE);
    free(x.b);
  }
  for (int round = 0; round < rounds; round++) {
    history.clear();
    rng.seed(round * 7919 + 13);
    ids.clear();
    int k = 1 + rnd(round % 3 ? 5 : 12);
    static const int T[] = {0, 1, 2, 3, 4, 5, 6, 10};
    int tt = rnd(4) ? 8 : 1, t0 = rnd(8);
    for (int i = 0; i < k; i++) { int t = T[(t0 + rnd(tt)) % 8]; ids.push_back((t << 24) | (rnd(8) ? 1 + rnd(4) : rnd(2) ? 0xffffff : 1 + rnd(0xfffffe))); }
    size_t big = rnd(3) ? 2000 : 8 * rnd(40) + rnd(8);
    Buf x = mk(H + big), y = mk(H + (rnd(2) ? 600 : 8 * rnd(20)));
    LOG("buffers of %zu and %zu bytes", x.cap, y.cap);
    for (int s = 0; s < 25; s++) {
      Buf &a = rnd(3) ? x : y;
      Buf &b = &a == &x ? y : x;
      const char *an = &a == &x ? "x" : "y";
      std::string b0 = a.raw(), o0 = b.raw();
      FLDID32 f = rid();
      int n = cnt(a.r, f);
      switch (rnd(20)) {
        case 0: case 1: case 2: case 3: case 4: case 5: case 6: case 7: {
          int oc = rnd(n + 1 + (rnd(6) == 0 ? 3 : 0));
          bool add = rnd(3) == 0;
          if (rnd(5) == 0) oc = -1;
          V v = rval(f);
          Val p(v);
          Ref want = a.r;
          int wrc = mchg(want, a.cap, f, add ? n : oc, v);
          LOG("%s(%s, %08x, %d, %s)", add ? "Fadd32" : "Fchg32", an, f, oc, hex(v.data(), v.size() < 40 ? v.size() : 40).c_str());
          int rc = add ? Fadd32(a.b, f, p.p, v.size()) : Fchg32(a.b, f, oc, p.p, v.size());
          if (rc != wrc) BAD("result is %d, not %d (%zu used of %zu)", rc, wrc, used(a.r), a.cap);
          ERR(rc == -1 ? FNOSPACE : 0, "change");
          if (rc == -1 && want == a.r && a.raw() != b0) BAD("a refused change alters the buffer");
          a.r = want;
          break;
        }
        case 8: case 9: {
          int oc = rnd(n + 2) - (rnd(12) == 0);
          bool p = oc >= 0 && oc < n;
          bool viachg = oc >= 0 && rnd(4) == 0;
          LOG("%s(%s, %08x, %d)", viachg ? "Fchg32 NULL" : "Fdel32", an, f, oc);
          int rc = viachg ? Fchg32(a.b, f, oc, nullptr, 0) : Fdel32(a.b, f, oc);
          if (rc != (p ? 0 : -1)) BAD("result is %d", rc);
          ERR(p ? 0 : FNOTPRES, "delete");
          if (p) { a.r[f].erase(a.r[f].begin() + oc); if (a.r[f].empty()) a.r.erase(f); }
          break;
        }
        case 10: {
          LOG("Fdelall32(%s, %08x)", an, f);
          int rc = Fdelall32(a.b, f);
          if (rc != (n ? 0 : -1)) BAD("result is %d", rc);
          ERR(n ? 0 : FNOTPRES, "delall");
          a.r.erase(f);
          break;
        }
        case 11: {
          LOG("Fcpy32(%s)", an);
          bool ok = a.cap >= used(b.r);
          int rc = Fcpy32(a.b, b.b);
          if (rc != (ok ? 0 : -1)) BAD("result is %d", rc);
          ERR(ok ? 0 : FNOSPACE, "copy");
          if (ok) a.r = b.r;
          break;
        }
        case 12: {
          auto l = rlist();
          LOG("Fdelete32(%s, %zu fields)", an, l.size() - 1);
          for (auto i = a.r.begin(); i != a.r.end();) i = in(l, i->first) ? a.r.erase(i) : std::next(i);
          auto l2 = l;
          if (Fdelete32(a.b, l2.data()) != 0) BAD("result");
          break;
        }
        case 13: {
          auto l = rlist();
          LOG("Fproj32(%s, %zu fields)", an, l.size() - 1);
          for (auto i = a.r.begin(); i != a.r.end();) i = !in(l, i->first) ? a.r.erase(i) : std::next(i);
          auto l2 = l;
          if (Fproj32(a.b, l2.data()) != 0) BAD("result");
          break;
        }
        case 14: {
          auto l = rlist();
          LOG("Fprojcpy32(%s, %zu fields)", an, l.size() - 1);
          Ref want;
          int wrc = 0;
          for (auto &i : b.r) for (auto &v : i.second) if (wrc == 0 && in(l, i.first)) wrc = mchg(want, a.cap, i.first, -1, v);
          auto l2 = l;
          int rc = Fprojcpy32(a.b, b.b, l2.data());
          if (rc != wrc) BAD("result is %d, not %d", rc, wrc);
          ERR(rc == -1 ? FNOSPACE : 0, "projcpy");
          a.r = want;
          break;
        }
        case 15: case 16: {
          bool oj = rnd(2);
          LOG("%s(%s)", oj ? "Fojoin32" : "Fupdate32", an);
          int wrc = 0;
          for (auto &i : b.r) for (size_t o = 0; o < i.second.size(); o++) if (wrc == 0 && (!oj || o < cnt(a.r, i.first))) wrc = mchg(a.r, a.cap, i.first, o, i.second[o]);
          int rc = oj ? Fojoin32(a.b, b.b) : Fupdate32(a.b, b.b);
          if (rc != wrc) BAD("result is %d, not %d", rc, wrc);
          ERR(rc == -1 ? FNOSPACE : 0, "update");
          break;
        }
        case 17: {
          LOG("Fjoin32(%s)", an);
          int wrc = 0;
          for (auto i = a.r.begin(); i != a.r.end();) { size_t c = cnt(b.r, i->first); if (i->second.size() > c) i->second.resize(c); i = i->second.empty() ? a.r.erase(i) : std::next(i); }
          for (auto &i : b.r) for (size_t o = 0; o < i.second.size(); o++) if (wrc == 0 && o < cnt(a.r, i.first)) wrc = mchg(a.r, a.cap, i.first, o, i.second[o]);
          int rc = Fjoin32(a.b, b.b);
          if (rc != wrc) BAD("result is %d, not %d", rc, wrc);
          ERR(rc == -1 ? FNOSPACE : 0, "join");
          break;
        }
        case 18: {
          LOG("Fconcat32(%s)", an);
          bool ok = a.cap - used(a.r) >= used(b.r);
          int rc = Fconcat32(a.b, b.b);
          if (ok && rc != 0) BAD("result is %d", rc);
          if (rc == -1) { ERR(FNOSPACE, "concat"); if (a.cap - used(a.r) >= used(b.r)) BAD("refused with enough space"); if (a.raw() != b0) BAD("a refused concatenation alters the buffer"); }
          else for (auto &i : b.r) for (auto &v : i.second) a.r[i.first].push_back(v);
          break;
        }
        case 19: {
          LOG("Fwrite32, Fread32(%s)", an);
          FILE *t = tmpfile();
          if (Fwrite32(b.b, t) != 0) BAD("Fwrite32 fails");
          long sz = ftell(t);
          if (sz != (long)used(b.r) - 4) BAD("Fwrite32 writes %ld bytes", sz);
          long cut = rnd(3) ? sz : rnd(sz);
          fflush(t);
          if (ftruncate(fileno(t), cut)) abort();
          rewind(t);
          bool fits = a.cap >= used(b.r);
          int rc = Fread32(a.b, t);
          int wrc = !fits || cut < sz ? -1 : 0;
          if (rc != wrc) BAD("Fread32 of %ld of %ld bytes gives %d", cut, sz, rc);
          if (rc == 0) { a.r = b.r; if (Fchksum32(a.b) != Fchksum32(b.b)) BAD("Fchksum32 differs after Fread32"); }
          else if (cut < 4 || !fits) { if (a.raw() != b0) BAD("a refused read alters the buffer"); ERR(cut < 4 ? FEUNIX : FNOSPACE, "read"); }
          else { ERR(FEUNIX, "read"); a.r.clear(); }
          fclose(t);
          break;
        }
      }
      layout(x, "x");
      layout(y, "y");
      if (b.raw() != o0) BAD("the other buffer is changed");
      if (rnd(4) == 0) lookups(a);
      if (rnd(8) == 0 && Fchksum32(a.b) != (long)crc((char *)a.b + H, used(a.r) - H)) BAD("Fchksum32 is not the CRC of the contents");
      if (rnd(12) == 0) {
        int F = 1 + rnd(10);
        FLDLEN32 W = 1 + rnd(60);
        long nb = Fneeded32(F, W);
        LOG("Frealloc32(%s, %d, %u)", an, F, W);
        FBFR32 *q = Frealloc32(a.b, F, W);
        if ((q != nullptr) != (nb >= (long)used(a.r))) BAD("Frealloc32 to %ld bytes with %zu used gives %p", nb, used(a.r), q);
        if (q) a.b = q, a.cap = nb; else ERR(FNOSPACE, "Frealloc32");
        layout(a, "reallocated");
      }
    }
    free(x.b);
    free(y.b);
  }
  printf("no failing history found\n");
  return 0;
}
