#include "rp.h"
size_t base64encode(const void *ibuf, size_t ilen, char *obuf, size_t olen);
size_t base64decode(const char *ibuf, size_t ilen, void *obuf, size_t olen);
static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string enc(const std::string &s) {
  std::string o;
  for (size_t i = 0; i < s.size(); i += 3) {
    uint32_t n = 0;
    size_t k = std::min<size_t>(3, s.size() - i);
    for (size_t j = 0; j < 3; j++) n = n << 8 | (j < k ? (unsigned char)s[i + j] : 0);
    for (size_t j = 0; j < 4; j++) o += j <= k ? A[(n >> (18 - 6 * j)) & 63] : '=';
  }
  return o;
}
static bool wellformed(const std::string &t) {
  if (t.size() % 4) return false;
  for (size_t i = 0; i < t.size(); i++) {
    if (t[i] && strchr(A, t[i])) continue;
    if (t[i] == '=' && (i == t.size() - 1 || (i == t.size() - 2 && t[i + 1] == '='))) continue;
    return false;
  }
  return true;
}
static void decode(const std::string &t, const std::string *expect) {
  size_t cap = t.size() / 4 * 3;
  for (size_t o : {cap, cap + 5, cap ? cap - 1 : cap}) {
    char *in = (char *)malloc(t.size() + 1), *out = (char *)malloc(o + 1);
    char *in2 = (char *)malloc(t.size()), *out2 = (char *)malloc(o);
    (void)in; (void)out;
    memcpy(in2, t.data(), t.size());
    memset(out2, 0x55, o);
    bool thrown = false;
    size_t n = 0;
    try { n = base64decode(in2, t.size(), out2, o); } catch (const std::exception &) { thrown = true; }
    bool ok = wellformed(t) && o >= cap;
    if (ok == thrown) FAIL("base64decode of '%s' (%zu chars) into %zu bytes is %s", t.c_str(), t.size(), o, thrown ? "refused" : "accepted");
    if (!thrown) {
      if (expect && (n != expect->size() || memcmp(out2, expect->data(), n))) FAIL("base64decode of '%s' gives %zu bytes %s", t.c_str(), n, hex(out2, n).c_str());
      for (size_t i = n; i < o; i++) if (out2[i] != 0x55) FAIL("base64decode of '%s' writes byte %zu after its %zu byte result", t.c_str(), i, n);
    }
    free(in); free(out); free(in2); free(out2);
  }
}
int main() {
  auto one = [](const std::string &s) {
    std::string e = enc(s);
    for (size_t o : {e.size(), e.size() + 7, e.size() ? e.size() - 1 : 0, e.size() / 2}) {
      char *in = (char *)malloc(s.size()), *out = (char *)malloc(o);
      memcpy(in, s.data(), s.size());
      memset(out, 0x55, o);
      bool thrown = false;
      size_t n = 0;
      try { n = base64encode(in, s.size(), out, o); } catch (const std::exception &) { thrown = true; }
      if (thrown != (o < e.size())) FAIL("base64encode of %s into %zu bytes is %s", hex(s.data(), s.size()).c_str(), o, thrown ? "refused" : "accepted");
      if (!thrown && (n != e.size() || memcmp(out, e.data(), n))) FAIL("base64encode of %s gives %s instead of %s", hex(s.data(), s.size()).c_str(), std::string(out, std::min(n, o)).c_str(), e.c_str());
      for (size_t i = thrown ? 0 : n; i < o; i++) if (out[i] != 0x55) FAIL("base64encode of %s writes byte %zu beyond its result", hex(s.data(), s.size()).c_str(), i);
      free(in); free(out);
    }
    decode(e, &s);
  };
  for (int a = 0; a < 256; a++) { one(std::string(1, (char)a)); for (int b = 0; b < 256; b += 1) one(std::string(1, (char)a) + (char)b); }
  for (int len = 0; len < 70; len++)
    for (int k = 0; k < 60; k++) {
      std::string s;
      for (int i = 0; i < len; i++) s += k == 0 ? '\0' : k == 1 ? '\xff' : (char)rng();
      one(s);
      std::string e = enc(s);
      if (e.empty()) continue;
      for (int m = 0; m < 6; m++) {
        std::string t = e;
        t[rnd(t.size())] = (char)(m == 0 ? '=' : m == 1 ? A[rnd(64)] : m == 2 ? 128 + rnd(128) : rng());
        if (m == 5) t.resize(rnd(t.size()));
        decode(t, nullptr);
      }
    }
  for (int pos = 0; pos < 12; pos++)
    for (int c = 0; c < 256; c++) { std::string t = "QUJDREVGR0hJ"; t[pos] = (char)c; decode(t, nullptr); }
  for (int c = 0; c < 256; c++) for (int d = 0; d < 256; d++) { std::string t = "QUJDRE"; t += (char)c; t += (char)d; decode(t, nullptr); }
  return 0;
}
