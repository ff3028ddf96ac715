// mon PROPERTY SEED WORKER NWORKERS NCASES OUT     (runs cases WORKER, WORKER+NWORKERS, ... < NCASES)
// mon PROPERTY SEED --case IDX                      (replays one case, verbose)
#include <csignal>
#include <sys/time.h>
#include <unistd.h>
#include "common.hpp"
#include <chrono>
char g_now[8192] = "start";
Mon *g_mons = nullptr;
static const char *g_out = nullptr;
static long g_idx = 0;
static void put(const char *s) { ssize_t r = write(2, s, strlen(s)); (void)r; }
static void crash(int sig)
{
  char b[64]; snprintf(b, sizeof b, "CRASH signal=%d case=%ld in: ", sig, g_idx);
  put(b); put(g_now); put("\n");
  signal(sig, SIG_DFL); raise(sig);
}
static volatile long g_last = -1; static volatile int g_same = 0;
static void tick(int)
{ // CPU-time watchdog: one case may not use more than 60 s of CPU time
  if (g_last == g_idx) { if (++g_same >= 6) { char b[64]; snprintf(b, sizeof b, "HANG case=%ld in: ", g_idx); put(b); put(g_now); put("\n"); _exit(97); } }
  else { g_last = g_idx; g_same = 0; }
}
static std::string esc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if ((unsigned char)c < 32) c = ' '; r += c; } return r; }
int main(int argc, char **argv)
{
  if (argc < 4) return 3;
  MonFn fn = nullptr;
  for (Mon *m = g_mons; m; m = m->next) if (!strcmp(m->name, argv[1])) fn = m->fn;
  if (!fn) { fprintf(stderr, "unknown monitor %s\n", argv[1]); return 3; }
  uint64_t seed = strtoull(argv[2], 0, 10); uint64_t ph = 0; for (const char *c = argv[1]; *c; c++) ph = ph * 131 + *c;
  seed = mix(seed, ph);
  Rep R;
#ifndef NO_CRASH_HANDLER
  for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT }) signal(s, crash);
#endif
  struct itimerval it = { { 10, 0 }, { 10, 0 } }; signal(SIGVTALRM, tick); setitimer(ITIMER_VIRTUAL, &it, 0);
  if (!strcmp(argv[3], "--case")) { R.verbose = true; R.idx = g_idx = atol(argv[4]); fn(R, seed, R.idx); for (auto &c : R.cnt) printf("%s=%ld\n", c.first.c_str(), c.second); return R.viol.empty() ? 0 : 1; }
  long w = atol(argv[3]), nw = atol(argv[4]), n = atol(argv[5]);
  g_out = argv[6];
  const char *bs = getenv("MON_BUDGET"); double budget = bs ? atof(bs) : 1e9; // s of wall-clock time
  auto t0 = std::chrono::steady_clock::now();
  for (long i = w; i < n; i += nw)
  {
    R.idx = g_idx = i; fn(R, seed, i); R.c("cases");
    if (std::count_if(R.viol.begin(), R.viol.end(), [](const Rep::V &v) { return v.strict < 2; }) > 60) break;
    if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget) { R.c("workers_out_of_time"); break; }
  }
  FILE *f = fopen(g_out, "w");
  if (!f) return 3;
  fprintf(f, "{\"counts\":{");
  const char *sep = ""; for (auto &c : R.cnt) { fprintf(f, "%s\"%s\":%ld", sep, esc(c.first).c_str(), c.second); sep = ","; }
  fprintf(f, "},\"worst\":{"); sep = ""; for (auto &c : R.worst) { fprintf(f, "%s\"%s\":%s", sep, esc(c.first).c_str(), std::isfinite(c.second) ? fmt("%.6g", c.second).c_str() : "1e999"); sep = ","; }
  fprintf(f, "},\"distinct\":["); sep = ""; for (auto h : R.distinct) { fprintf(f, "%s\"%llx\"", sep, (unsigned long long)h); sep = ","; }
  fprintf(f, "],\"samples\":["); sep = ""; for (auto &s : R.samples) { fprintf(f, "%s\"%s\"", sep, esc(s).c_str()); sep = ","; }
  fprintf(f, "],\"violations\":["); sep = ""; for (auto &v : R.viol) { fprintf(f, "%s{\"case\":%ld,\"strict\":%d,\"key\":\"%s\",\"text\":\"%s\"}", sep, v.idx, v.strict, esc(v.key).c_str(), esc(v.txt).c_str()); sep = ","; }
  fprintf(f, "]}\n");
  fclose(f);
  return 0;
}
