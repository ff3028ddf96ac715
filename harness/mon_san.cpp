// C16 under AddressSanitizer, LeakSanitizer and UndefinedBehaviorSanitizer
#include "san_work.hpp"
struct RepSink
{
  Rep &R; volatile unsigned char x = 0;
  void eat(const void *p, size_t n, const char *) { unsigned char h = 0; const unsigned char *b = (const unsigned char *)p; for (size_t i = 0; i < n; i++) h ^= b[i]; x = h; R.c("bytes_read", (long)n); }
  void n(const char *what, long k) { R.c(what, k); }
  void see(uint64_t h) { R.see(h); }
};
MON(C16)
{
  Rng r(mix(seed, idx)); RepSink s{ R }; San<RepSink> w(s); w.one(r); if (R.samples.size() < 3) R.sample(g_now);
}
