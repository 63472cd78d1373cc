// typed buffers against a model: allocation, resizing, export and import
#include <atmi.h>
#include <fml32.h>
#include <xatmi.h>
#include <map>
#include "fux.h"
#include "misc.h"
#include "rp.h"
static const char *T[] = {"CARRAY", "STRING", "FML32", "TPINIT"};
static const long LEAST[] = {0, 512, 512, TPINITNEED(0)};
struct B { char *p; int kind; long size; std::string data; char **owner; };
static std::map<std::pair<FLDID32, int>, std::string> fields(char *p) {
  std::map<std::pair<FLDID32, int>, std::string> r;
  FLDID32 i = FIRSTFLDID; FLDOCC32 c;
  while (Fnext32((FBFR32 *)p, &i, &c, nullptr, nullptr) == 1) { FLDLEN32 l; char *f = Ffind32((FBFR32 *)p, i, c, &l); r[{i, c}] = std::string(f, l); }
  return r;
}
static void fill(B &b) {
  if (b.kind == 2) {
    int n = rnd(12);
    for (int i = 0; i < n; i++) { std::string v = "value" + std::to_string(rng()); Fadd32((FBFR32 *)b.p, Fmkfldid32(FLD_STRING, 1 + rnd(5)), (char *)v.c_str(), 0); }
  } else if (b.kind == 1) {
    b.data.clear();
    long n = rnd(b.size);
    for (long i = 0; i < n; i++) b.data += (char)(1 + rnd(255));
    strcpy(b.p, b.data.c_str());
  } else {
    b.data.clear();
    for (long i = 0; i < b.size; i++) b.data += (char)rng();
    memcpy(b.p, b.data.data(), b.size);
  }
}
static void same(B &b, const char *what) {
  char t[9] = {0}, s[17] = {0};
  if (tptypes(b.p, t, s) == -1 || tperrno || strcmp(t, T[b.kind])) FAIL("after %s a %s buffer has type '%s'", what, T[b.kind], t);
  if (b.kind == 1 && b.data != b.p) FAIL("after %s a STRING of %d bytes is changed", what, (int)b.data.size());
  if (b.kind != 1 && b.kind != 2 && memcmp(b.p, b.data.data(), b.data.size())) FAIL("after %s the contents of a %s buffer are changed", what, T[b.kind]);
  if (b.kind == 2 && Fsizeof32((FBFR32 *)b.p) < Fused32((FBFR32 *)b.p)) FAIL("after %s a fielded buffer of %ld bytes uses %ld", what, (long)Fsizeof32((FBFR32 *)b.p), (long)Fused32((FBFR32 *)b.p));
  for (long i = 0; i < b.size; i++) ((volatile char *)b.p)[i] = ((volatile char *)b.p)[i];
}
int main() {
  for (int round = 0; round < 3000; round++) {
    int k = rnd(4);
    long size = rnd(4) ? (long)rnd(3000) : rnd(3) ? (long)rnd(20) : rnd(2) ? 100000 : -(long)rnd(1000);
    const char *subs[] = {nullptr, "", "*", "X", "abcdefghijklmnop"};
    int si = rnd(10) ? rnd(3) : 3 + rnd(2);
    B b;
    b.kind = k;
    b.p = tpalloc((char *)T[k], (char *)subs[si], size);
    if (si >= 3) { if (b.p || tperrno != TPENOENT) FAIL("tpalloc(%s, %s) is not refused with TPENOENT (%d)", T[k], subs[si], tperrno); continue; }
    if (!b.p || tperrno) FAIL("tpalloc(%s, %s, %ld) fails with %d", T[k], subs[si] ? subs[si] : "NULL", size, tperrno);
    b.size = std::max(size, LEAST[k]);
    b.owner = nullptr;
    if (k == 2 && (Fsizeof32((FBFR32 *)b.p) != b.size || !fields(b.p).empty())) FAIL("a new fielded buffer of %ld bytes has size %ld", b.size, (long)Fsizeof32((FBFR32 *)b.p));
    fill(b);
    same(b, "tpalloc");
    char *cell = b.p, *other = (char *)"";
    bool owned = rnd(2);
    if (owned) { b.owner = rnd(2) ? &cell : &other; fux::mem::setowner(b.p, b.owner); }
    for (int step = 0; step < 6; step++) {
      switch (rnd(4)) {
        case 0: {
          long n = rnd(3) ? (long)rnd(4000) : rnd(2) ? 0 : -1;
          auto f = k == 2 ? fields(b.p) : decltype(fields(b.p))();
          bool mine = b.owner == &cell;
          char *q = tprealloc(b.p, n);
          if (!q || tperrno) FAIL("tprealloc of a %s buffer from %ld to %ld bytes fails with %d", T[k], b.size, n, tperrno);
          if (owned && mine && cell != q) FAIL("the owner of a %s buffer does not learn its new place", T[k]);
          if (other[0]) FAIL("?");
          b.p = q;
          if (!owned || !mine) cell = q;
          b.size = std::max(n, LEAST[k]);
          if (k == 2) { long u = Fused32((FBFR32 *)q); if (u > b.size) b.size = u; if ((long)Fsizeof32((FBFR32 *)q) < b.size) FAIL("tprealloc of a fielded buffer to %ld bytes, which uses %ld, leaves it with %ld", n, u, (long)Fsizeof32((FBFR32 *)q)); }
          if (k == 1) { if ((long)b.data.size() >= b.size) { if (memcmp(b.p, b.data.data(), b.size)) FAIL("tprealloc changes the contents of a STRING"); b.p[b.size - 1] = 0; b.data.resize(b.size - 1); } }
          else if ((long)b.data.size() > b.size) b.data.resize(b.size);
          same(b, "tprealloc");
          if (k == 2 && f != fields(b.p)) FAIL("tprealloc changes the fields of a buffer");
          break;
        }
        case 1: fill(b); break;
        case 2: {
          // export to exactly as much room as needed, one less, more
          bool text = rnd(2);
          long ilen = k == 0 || k == 3 ? (rnd(3) ? (long)rnd(b.size + 1) : -1) : (long)rnd(10);
          long used = k == 2 ? Fused32((FBFR32 *)b.p) : k == 1 ? (long)b.data.size() + 1 : ilen == -1 ? b.size : ilen;
          long need = text ? ((used + 24 + 2) / 3 * 4 + 1) : used + 24;
          int how = rnd(3);
          long room = how == 0 ? need : how == 1 ? (long)rnd(need) : need + rnd(50), olen = room;
          char *o = (char *)malloc(room ? room : 1);
          memset(o, '#', room ? room : 1);
          auto f = k == 2 ? fields(b.p) : decltype(fields(b.p))();
          int rc = tpexport(b.p, ilen, o, &olen, text ? TPEX_STRING : 0);
          if (olen != need) FAIL("tpexport of %ld bytes of %s returns length %ld instead of %ld", used, T[k], olen, need);
          if (room < need) {
            if (rc != -1 || tperrno != TPELIMIT) FAIL("tpexport with %ld bytes of room instead of %ld gives %d, tperrno %d", room, need, rc, tperrno);
            for (long i = 0; i < room; i++) if (o[i] != '#') FAIL("tpexport without enough room writes");
          } else {
            if (rc == -1) FAIL("tpexport of %ld bytes of %s fails with %d", used, T[k], tperrno);
            for (long i = need; i < room; i++) if (o[i] != '#') FAIL("tpexport writes after the %ld bytes it needs", need);
            same(b, "tpexport");
            // import into a buffer of another type
            int k2 = rnd(4);
            B c;
            c.kind = k2; c.size = rnd(2) ? (long)rnd(100) : (long)rnd(5000);
            c.p = tpalloc((char *)T[k2], nullptr, c.size);
            c.size = std::max(c.size, LEAST[k2]);
            fill(c);
            auto f2 = k2 == 2 ? fields(c.p) : decltype(fields(c.p))();
            int bad = rnd(3) ? 0 : 1 + rnd(3);
            std::string in(o, text ? need - 1 : need);
            if (bad == 1) { if (text) in[rnd(in.size())] = "\x01~-=\x80"[rnd(3)]; else in[rnd(3)] = 'Q'; }
            if (bad == 2) in.resize(text ? in.size() - 1 - rnd(3) : rnd(24));
            if (bad == 3) { if (text) in.resize(rnd(8) * 4); else in.resize(rnd(24)); }
            if (in.empty()) bad = bad ? bad : 0;
            char *src = strdup(""); free(src);
            src = (char *)malloc(in.size() + 1);
            memcpy(src, in.data(), in.size());
            src[in.size()] = 0;
            if (!text) { char *x = (char *)malloc(in.size() ? in.size() : 1); memcpy(x, in.data(), in.size()); free(src); src = x; }
            if (!text && in.empty()) { free(src); free(o); tpfree(c.p); break; }
            char *cc = c.p;
            if (rnd(2)) fux::mem::setowner(c.p, &cc);
            long ol = -5;
            int rc2 = tpimport(src, text ? (rnd(2) ? 0 : 77) : (long)in.size(), &cc, rnd(4) ? &ol : nullptr, text ? TPEX_STRING : 0);
            if (bad) {
              if (rc2 != -1 || tperrno == 0) FAIL("tpimport of %s that is not an exported buffer succeeds (%s, %d bytes)", text ? "text" : "data", hex(in.data(), std::min<size_t>(in.size(), 40)).c_str(), (int)in.size());
              c.p = cc;
              same(c, "a failed tpimport");
              if (k2 == 2 && f2 != fields(c.p)) FAIL("a failed tpimport changes the fields of a buffer");
            } else {
              if (rc2 == -1) FAIL("tpimport of %ld bytes of %s %s fails with %d", used, T[k], text ? "as text" : "", tperrno);
              if (ol != -5 && ol != used) FAIL("tpimport of %ld bytes of %s returns length %ld", used, T[k], ol);
              char t[9] = {0};
              tptypes(cc, t, nullptr);
              if (strcmp(t, T[k])) FAIL("%s is imported as %s", T[k], t);
              if (k == 2) {
                if (fields(cc) != f) FAIL("the fields of a buffer change when it is exported and imported");
                if (Fsizeof32((FBFR32 *)cc) < used) FAIL("an imported fielded buffer is smaller than its contents");
                for (int i = 0; i < 100; i++) { short v = i; if (Fadd32((FBFR32 *)cc, Fmkfldid32(FLD_SHORT, 9), (char *)&v, 0) == -1) break; }
              } else if (memcmp(cc, b.p, used)) FAIL("%ld bytes of %s change when they are exported and imported", used, T[k]);
              if (k != 2 && (k2 != 2)) { for (long i = 0; i < std::max(c.size, used); i++) cc[i] = 'x'; if (k == 1) cc[std::max(c.size, used) - 1] = 0; }
            }
            free(src);
            tpfree(cc);
          }
          free(o);
          break;
        }
        default: same(b, "nothing");
      }
    }
    bool mine = b.owner == &cell;
    tpfree(b.p);
    if (tperrno) FAIL("tpfree fails");
    if (owned && mine && cell) FAIL("the owner of a buffer keeps it after tpfree");
  }
  tpfree(nullptr);
  if (tpalloc(nullptr, nullptr, 5) || tperrno != TPEINVAL) FAIL("tpalloc without a type");
  for (const char *t : {"", "C", "CARRAYS", "STRINGLONGNAME", "FML", "carray", "CARRAYCARRAY"}) if (tpalloc((char *)t, nullptr, 5) || tperrno != TPENOENT) FAIL("tpalloc(\"%s\") gives tperrno %d", t, tperrno);
  if (tprealloc(nullptr, 5) || tperrno != TPEINVAL) FAIL("tprealloc without a buffer");
  if (tptypes(nullptr, nullptr, nullptr) != -1 || tperrno != TPEINVAL) FAIL("tptypes without a buffer");
  for (int k = 0; k < 2; k++) {
    if (tpalloc((char *)T[k], nullptr, 1L << 50) || tperrno != TPEOS) FAIL("tpalloc of 2^50 bytes gives tperrno %d", tperrno);
    char *p = tpalloc((char *)T[k], nullptr, 10);
    strcpy(p, "abc");
    if (tprealloc(p, 1L << 50) || tperrno != TPEOS || strcmp(p, "abc")) FAIL("tprealloc to 2^50 bytes gives tperrno %d", tperrno);
    tpfree(p);
  }
  for (long n : {0L, 1L, 23L, 24L, 25L, 100L, 1L << 33}) if (fux::mem::datasize(n) != (n > 24 ? n - 24 : 0)) FAIL("datasize(%ld) = %ld", n, fux::mem::datasize(n));
  long ol = 10;
  char x[100], *p = tpalloc((char *)"STRING", nullptr, 5), *np = nullptr;
  strcpy(p, "a");
  if (tpexport(nullptr, 1, x, &ol, 0) != -1 || tperrno != TPEINVAL || tpexport(p, 1, nullptr, &ol, 0) != -1 || tperrno != TPEINVAL || tpexport(p, 1, x, nullptr, 0) != -1 || tperrno != TPEINVAL) FAIL("tpexport without arguments");
  for (long f : {3L, 1L << 20, 0x100L | TPEX_STRING}) if (f != TPEX_STRING && (tpexport(p, 1, x, &ol, f) != -1 || tperrno != TPEINVAL)) FAIL("tpexport with flags 0x%lx", f);
  if (tpimport(nullptr, 1, &p, nullptr, 0) != -1 || tperrno != TPEINVAL || tpimport(x, 1, nullptr, nullptr, 0) != -1 || tperrno != TPEINVAL || tpimport(x, 1, &np, nullptr, 0) != -1 || tperrno != TPEINVAL) FAIL("tpimport without arguments");
  return 0;
}
