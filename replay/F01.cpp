#include <xatmi.h>
#include <fml32.h>
#include "rp.h"
int main() {
  std::vector<long> types, nums;
  for (long t = -20; t < 300; t++) types.push_back(t);
  for (long t : {0x7fffffffL, -0x7fffffffL - 1, 1L << 24, 256L + 5}) types.push_back(t);
  for (long n = -5; n < 70000; n++) nums.push_back(n);
  for (int b = 16; b < 32; b++) for (long d = -2; d <= 2; d++) nums.push_back((int)((1L << b) + d));
  for (int i = 0; i < 2000; i++) nums.push_back((int)rng());
  auto valid = [](int t) { return (t >= 0 && t <= 6) || t == 10; };
  for (long t : types)
    for (long n : nums) {
      if (n > 300 && n < 69000 && t > 10 && t < 290) continue;
      Ferror32 = 0;
      FLDID32 f = Fmkfldid32((int)t, (FLDID32)n);
      bool ok = valid((int)t) && n >= 1 && n <= 0xffffff;
      if (ok) {
        if (f != (FLDID32)((t << 24) | n) || Fldtype32(f) != t || Fldno32(f) != n || Ferror32 != 0)
          FAIL("Fmkfldid32(%ld, %ld) = %ld (error %d), type %d number %ld", t, n, (long)f, Ferror32, Fldtype32(f), (long)Fldno32(f));
      } else if (f != (FLDID32)-1 || Ferror32 != (valid((int)t) ? FBADFLD : FTYPERR))
        FAIL("Fmkfldid32(%ld, %ld) = %ld with error %d instead of a rejection", t, n, (long)f, Ferror32);
    }
  for (int i = 0; i < 1000000; i++) {
    uint32_t f = rng();
    if ((uint32_t)Fldtype32(f) != f >> 24 || (uint32_t)Fldno32(f) != (f & 0xffffff)) FAIL("Fldtype32/Fldno32(%u) = %d/%ld", f, Fldtype32(f), (long)Fldno32(f));
  }
  return 0;
}
