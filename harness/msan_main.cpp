// C16 under MemorySanitizer: libstdc++ is not instrumented, hence only header-only containers and no maps here
// msan PROPERTY SEED WORKER NWORKERS NCASES OUT | msan PROPERTY SEED --case IDX
#include <sanitizer/msan_interface.h>
#include <ctime>
#include <unistd.h>
#define MON_MSAN
#include "san_work.hpp"
char g_now[8192] = "start";
Mon *g_mons = nullptr;
static long g_idx, g_bytes, g_nbad; static uint64_t g_seen[1 << 16]; static long g_nseen;
static const char *g_names[64]; static long g_vals[64]; static int g_nn;
struct Bad { long idx; char what[64], txt[2048]; } g_bad[20];
struct MsanSink
{
  void eat(const void *p, size_t n, const char *what)
  {
    g_bytes += (long)n; ssize_t o = __msan_test_shadow(p, n);
    if (o < 0) return;
    if (g_nbad < 20) { Bad &b = g_bad[g_nbad++]; b.idx = g_idx; snprintf(b.what, sizeof b.what, "%s", what); snprintf(b.txt, sizeof b.txt, "uninitialised byte %ld of %s: %s", (long)o, what, g_now); }
  }
  void n(const char *what, long k) { for (int i = 0; i < g_nn; i++) if (g_names[i] == what || !strcmp(g_names[i], what)) { g_vals[i] += k; return; } if (g_nn < 64) { g_names[g_nn] = what; g_vals[g_nn++] = k; } }
  void see(uint64_t h) { h = h * 0x9E3779B97F4A7C15ull | 1; size_t i = h >> 48; for (int t = 0; t < 64; t++, i = (i + 1) & 0xffff) { if (g_seen[i] == h) return; if (!g_seen[i]) { g_seen[i] = h; g_nseen++; return; } } }
};
static void death() { char b[64]; int n = snprintf(b, sizeof b, "CRASH signal=0 case=%ld in: ", g_idx); ssize_t r = write(2, b, n); r = write(2, g_now, strlen(g_now)); r = write(2, "\n", 1); (void)r; }
static void put(FILE *f, const char *s) { for (; *s; s++) { if (*s == '"' || *s == '\\') fputc('\\', f); fputc((unsigned char)*s < 32 ? ' ' : *s, f); } }
int main(int argc, char **argv)
{
  if (argc < 5) return 3;
  __msan_set_death_callback(death);
  uint64_t seed = mix(strtoull(argv[2], 0, 10), 4711); MsanSink s; San<MsanSink> w(s);
  if (!strcmp(argv[3], "--case")) { g_idx = atol(argv[4]); Rng r(mix(seed, g_idx)); w.one(r); for (long i = 0; i < g_nbad; i++) printf("EVENT %s\n", g_bad[i].txt); return g_nbad ? 1 : 0; }
  long wk = atol(argv[3]), nw = atol(argv[4]), n = atol(argv[5]), done = 0;
  const char *bs = getenv("MON_BUDGET"); long budget = bs ? atol(bs) : 1000000000; time_t t0 = time(nullptr);
  for (g_idx = wk; g_idx < n; g_idx += nw) { Rng r(mix(seed, g_idx)); w.one(r); done++; if (time(nullptr) - t0 > budget) break; }
  FILE *f = fopen(argv[6], "w"); if (!f) return 3;
  fprintf(f, "{\"counts\":{\"cases\":%ld,\"msan_bytes_checked\":%ld", done, g_bytes); for (int i = 0; i < g_nn; i++) fprintf(f, ",\"msan_%s\":%ld", g_names[i], g_vals[i]);
  fprintf(f, "},\"worst\":{},\"distinct\":["); const char *sep = ""; for (int i = 0; i < (1 << 16); i++) if (g_seen[i]) { fprintf(f, "%s\"m%llx\"", sep, (unsigned long long)g_seen[i]); sep = ","; }
  fprintf(f, "],\"samples\":[],\"violations\":["); sep = "";
  for (long i = 0; i < g_nbad; i++) { fprintf(f, "%s{\"case\":%ld,\"strict\":false,\"key\":\"uninitialised:%s\",\"text\":\"", sep, g_bad[i].idx, g_bad[i].what); put(f, g_bad[i].txt); fprintf(f, "\"}"); sep = ","; }
  fprintf(f, "]}\n"); fclose(f);
  return 0;
}
