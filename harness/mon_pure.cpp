// C17: queries are pure. C17 = one thread, random histories; C17T = several threads on shared and own objects.
#include <atomic>
#include <thread>
#if defined(__GLIBC__)
#include <malloc.h>
#endif
#include "common.hpp"
#include "steering_functions/dubins_state_space/dubins_state_space.hpp"
#include "steering_functions/reeds_shepp_state_space/reeds_shepp_state_space.hpp"
namespace {
typedef std::string Bytes;
template <class T> void add(Bytes &b, const T &v) { b.append((const char *)&v, sizeof v); }
template <class T> void add(Bytes &b, const std::vector<T> &v) { size_t n = v.size(); add(b, n); if (n) b.append((const char *)v.data(), n * sizeof(T)); }
struct Call { int kind; Query q; Sc s; double t; std::vector<Ct> cs; };
const char *KN[] = { "get_distance", "get_controls", "get_path", "get_path_with_covariance", "interpolate", "integrate", "integrate_with_covariance" };
enum { NK = 7 };
bool cov(int kind) { return kind == 3 || kind == 6; }
Call gen_call(Rng &r, const Cfg &c, bool cl)
{
  Call k; k.kind = r.i(NK); k.q = gen_query(r, c);
  k.s.q = k.q.a; for (int i = 0; i < 16; i++) k.s.S[i] = k.s.L[i] = k.s.C[i] = 0;
  for (int i = 0; i < 3; i++) { k.s.S[5 * i] = r.u(0.01, 0.1); k.s.L[5 * i] = r.i(2) ? 0. : r.u(0, 0.1); k.s.C[5 * i] = k.s.S[5 * i] + k.s.L[5 * i]; }
  k.t = r.i(5) ? r.u() : r.u(-1, 2);
  int n = 1 + r.i(4); for (int i = 0; i < n; i++) k.cs.push_back(Ct{ r.sg() * r.lg(0.01, 4) / c.k, r.u(-1, 1) * c.k, cl && r.b() ? r.u(-1, 1) * c.s : 0. });
  return k;
}
// a call that shares most of its arguments with an earlier one (what a cache or a leaked intermediate result would confuse)
Call relative(Rng &r, const Cfg &c, const Call &o, const Call &other)
{
  Call k = o; if (r.i(3) == 0) k.kind = other.kind;
  St &s = r.b() ? k.q.a : k.q.b;
  switch (r.i(9))
  {
    case 0: break;
    case 1: s.k = r.i(3) ? (r.b() ? -s.k : r.u(-1, 1) * c.k) : 0.; if (r.b()) { k.q.a.k = r.u(-1, 1) * c.k; k.q.b.k = -k.q.b.k; } break;
    case 2: s.d = r.i(3) - 1; break;
    case 3: s.th += 2 * M_PI * (r.i(5) - 2); break;
    case 4: std::swap(k.q.a, k.q.b); break;
    case 5: if (r.b()) k.q.b = other.q.b; else k.q.a = other.q.a; break;
    case 6: { double e = r.sg() * r.lg(1e-12, 1e-2); switch (r.i(4)) { case 0: s.x += e; break; case 1: s.y += e; break; case 2: s.th += e; break; default: s.k *= 1 - std::fabs(e); } break; }
    case 7: { Ct &u = k.cs[r.i((int)k.cs.size())]; switch (r.i(4)) { case 0: u.ds = -u.ds; break; case 1: u.k = -u.k; break; case 2: u.s = -u.s; break; default: std::reverse(k.cs.begin(), k.cs.end()); } break; }
    case 8: if (r.b()) k.t = other.t; else for (int i = 0; i < 3; i++) { k.s.S[5 * i] *= 2; k.s.C[5 * i] = k.s.S[5 * i] + k.s.L[5 * i]; } break;
  }
  k.s.q = k.q.a;
  return k;
}
// too many samples would only slow the workload down
bool heavy(const Planner &p, const Call &k)
{
  double L = 0;
  if (k.kind == 2 || k.kind == 3) L = p.dist(k.q.a, k.q.b);
  else if (k.kind == 5 || k.kind == 6) for (auto &u : k.cs) L += std::fabs(u.ds);
  return !(L / p.disc < 400);
}
Bytes call(const Planner &p, const Call &k)
{
  Bytes b;
  switch (k.kind)
  {
    case 0: add(b, p.dist(k.q.a, k.q.b)); break;
    case 1: add(b, p.ctl(k.q.a, k.q.b)); break;
    case 2: add(b, p.path(k.q.a, k.q.b)); break;
    case 3: add(b, p.pathc(k.s, k.q.b)); break;
    case 4: add(b, p.interp(k.q.a, k.cs, k.t)); break;
    case 5: add(b, p.integ(k.q.a, k.cs)); break;
    case 6: add(b, p.integc(k.s, k.cs)); break;
  }
  return b;
}
Noise gen_n(Rng &r) { return Noise{ r.lg(0.01, 0.5), r.lg(0.01, 0.5), r.lg(0.01, 0.5), r.lg(0.01, 0.5), r.lg(0.01, 0.5), r.lg(0.01, 0.5), r.lg(0.01, 0.5), r.u(0.1, 2), r.u(0.1, 2), r.u(0.1, 2) }; }
__attribute__((noinline)) void dirty_stack(int v) { volatile char b[60000]; for (size_t i = 0; i < sizeof b; i += 1) b[i] = (char)v; }
void dirty(int v)
{
#if defined(__GLIBC__) && !defined(NO_PERTURB)
  mallopt(M_PERTURB, v & 255);
#endif
  dirty_stack(v);
}
std::string diff(const Bytes &a, const Bytes &b)
{
  if (a.size() != b.size()) return fmt("sizes %zu and %zu", a.size(), b.size());
  for (size_t i = 0; i + 8 <= a.size(); i += 8) { double x, y; memcpy(&x, a.data() + i, 8); memcpy(&y, b.data() + i, 8); if (memcmp(&x, &y, 8)) return fmt("word %zu: %.17g and %.17g", i / 8, x, y); }
  return "?";
}
std::string show(const Planner &p, const Cfg &c, const Call &k) { return fmt("%s %s %s start=%s goal=%s t=%.17g controls=", p.name.c_str(), KN[k.kind], str(c).c_str(), str(k.q.a).c_str(), str(k.q.b).c_str(), k.t) + str(k.cs); }
template <class S> void copies(Rep &R, const S &orig, const Cfg &c, const Query &q, const char *name)
{
  using namespace steering;
  auto in = [](const St &a) { State s; s.x = a.x; s.y = a.y; s.theta = a.th; s.kappa = a.k; s.d = a.d; return s; };
  State a = in(q.a), b = in(q.b); double d0 = orig.get_distance(a, b);
  S *cp = new S(orig); double d1 = cp->get_distance(a, b); S as(2 * c.k, c.disc); as = *cp; delete cp; double d2 = as.get_distance(a, b), d3 = orig.get_distance(a, b);
  R.c("copies");
  if (memcmp(&d0, &d1, 8) || memcmp(&d0, &d2, 8) || memcmp(&d0, &d3, 8)) R.bad(fmt("copy:%s", name), fmt("%s copied/assigned object: distances %.17g %.17g %.17g %.17g %s start=%s goal=%s", name, d0, d1, d2, d3, str(c).c_str(), str(q.a).c_str(), str(q.b).c_str()));
}
} // namespace
MON(C17)
{
  Rng r(mix(seed, idx)); long args0 = g_arg_changed;
  Cfg c = gen_cfg(r), c2 = gen_cfg(r);
  if (r.b()) { c2 = c; if (r.b()) c2.k *= r.u(0.5, 1.5); if (r.b()) c2.disc *= r.u(0.5, 1.5); }
  int id = r.i(NPLANNERS), id2 = r.b() ? id : r.i(NPLANNERS);
  bool cl = id != DUBINS_F && id != DUBINS_B && id != RS;
  Noise n = gen_n(r), n2 = gen_n(r);
  NOW("%d %s", id, str(c).c_str());
  // expected: every call on an object of its own
  std::vector<Call> calls; std::vector<Bytes> want, cold;
  int m = 3 + r.i(5);
  for (int i = 0; i < m; i++)
  {
    Call k = gen_call(r, c, cl);
    if (i && r.b()) { k = relative(r, c, calls[r.i(i)], k); R.c("related_calls"); }
    dirty(0); auto p = cur::make(id, c.k, c.s, c.disc); p->filt(n);
    NOW("%s", show(*p, c, k).substr(0, 4000).c_str());
    if (heavy(*p, k)) k.kind = r.b() ? 0 : 4;
    calls.push_back(k); want.push_back(call(*p, k));
    // the same on memory with other left-overs and, for nominal results, other filter parameters
    dirty(1 + r.i(255)); auto p2 = cur::make(id, c.k, c.s, c.disc); if (cov(k.kind)) { if (r.b()) p2->filt(n2); p2->filt(n); } else if (r.b()) p2->filt(n2);
    Bytes b = call(*p2, k); R.c(KN[k.kind]); R.c("fresh_object_comparisons");
    if (b != want.back()) R.bad(fmt("fresh:%s:%s", KN[k.kind], p->name.c_str()), "result differs between two objects constructed alike (other filter parameters or left-over memory): " + diff(want.back(), b) + " " + show(*p, c, k));
  }
  // one object with a history, interleaved with another object
  dirty(r.i(256)); auto p = cur::make(id, c.k, c.s, c.disc), o = cur::make(id2, c2.k, c2.s, c2.disc);
  p->filt(n); o->filt(n2);
  uint64_t h = id; int steps = 2 * m + r.i(6), last = 0;
  for (int i = 0; i < steps; i++)
  {
    int what = r.i(8);
    if (what == 0) { Call k = gen_call(r, c2, id2 != DUBINS_F && id2 != DUBINS_B && id2 != RS); if (!heavy(*o, k)) call(*o, k); R.c("queries_of_other_object"); h = h * 31 + 1; }
    else if (what == 1) { Noise x = gen_n(r); o->filt(x); R.c("filter_set_on_other_object"); h = h * 31 + 2; }
    else if (what == 2) { o.reset(); o = cur::make(id2, c2.k, c2.s, c2.disc); o->filt(n2); R.c("other_object_recreated"); h = h * 31 + 3; }
    else if (what == 3) { p->filt(n2); Call k = gen_call(r, c, cl); if (!heavy(*p, k)) call(*p, k); p->filt(n); R.c("filter_set_and_restored"); h = h * 31 + 4; }
    int j = i && r.b() ? (last + (r.b() ? 1 : m - 1)) % m : r.i(m); last = j; if (i && r.i(3) == 0) dirty(r.i(256));
    Bytes b = call(*p, calls[j]); R.c("queries_with_history"); h = h * 31 + 5 + calls[j].kind;
    if (b != want[j]) { R.bad(fmt("history:%s:%s", KN[calls[j].kind], p->name.c_str()), "result depends on the history: " + diff(want[j], b) + " " + show(*p, c, calls[j])); break; }
  }
  if (r.i(250) == 0)
  { // a long life of one object: thousands of different queries in between
    int last_bad = -1; int N = r.b() ? 300 : 4000;
    for (int i = 0; i < N && last_bad < 0; i++)
    {
      Query q = gen_query(r, c); if (r.b()) p->dist(q.a, q.b); else { auto cs = p->ctl(q.a, q.b); if (!cs.empty() && r.i(4) == 0) p->interp(q.a, cs, r.u()); }
      R.c("queries_in_long_lives");
      if (i % 50 == 49 || i == N - 1) { int j = r.i(m); Bytes b = call(*p, calls[j]); if (b != want[j]) { last_bad = i; R.bad(fmt("history:%s:%s", KN[calls[j].kind], p->name.c_str()), fmt("result depends on the history of %d queries: ", i) + diff(want[j], b) + " " + show(*p, c, calls[j])); } }
    }
    h = h * 31 + N;
  }
  R.see(h);
  dirty(0);
  if (r.i(4) == 0) { copies(R, steering::Dubins_State_Space(c.k, c.disc, r.b()), c, calls[0].q, "Dubins"); copies(R, steering::Reeds_Shepp_State_Space(c.k, c.disc), c, calls[0].q, "RS"); }
  if (g_arg_changed != args0) R.bad("argument", fmt("a query changed its arguments: %s %s", p->name.c_str(), str(c).c_str()));
  if (R.samples.size() < 3) R.sample(show(*p, c, calls[0]).substr(0, 400));
}
MON(C17T)
{
  Rng r(mix(seed, idx)); long args0 = g_arg_changed;
  const int NT = 4;
  Cfg c = gen_cfg(r); c.disc = std::max(c.disc, 0.1 / c.k);
  Noise n = gen_n(r);
  Planners shared = cur::all(c.k, c.s, c.disc);
  for (auto &p : shared) p->filt(n);
  struct Job { int id; Call k; Bytes res[NT + 1]; bool own[NT]; };
  std::vector<Job> jobs;
  int one = r.b() ? r.i(NPLANNERS) : -1; // all threads hammer one planner
  int NJ = 12;
  for (int i = 0; i < NJ; i++)
  {
    Job j; j.id = one >= 0 && i % 4 ? one : r.i(NPLANNERS);
    j.k = gen_call(r, c, j.id != DUBINS_F && j.id != DUBINS_B && j.id != RS);
    if (i && r.i(3) == 0) { const Job &b = jobs[r.i(i)]; j.k = relative(r, c, b.k, j.k); j.id = b.id; }
    if (one >= 0 && r.i(3)) j.k.kind = r.i(3);
    if (std::hypot(j.k.q.a.x - j.k.q.b.x, j.k.q.a.y - j.k.q.b.y) * c.k > 30) j.k.kind = 0;
    for (int t = 0; t < NT; t++) j.own[t] = r.i(4) == 0;
    jobs.push_back(j);
  }
  NOW("threads %s", str(c).c_str());
  // concurrent first, so that nothing has been initialised by a sequential run of the same queries
  std::atomic<int> ready{ 0 }, flying{ 0 }, maxfly{ 0 }; std::atomic<long> overlap{ 0 }, same{ 0 };
  std::vector<std::atomic<int>> per(NPLANNERS); for (auto &x : per) x = 0;
  uint64_t sd[NT]; for (int t = 0; t < NT; t++) sd[t] = r.n();
  std::vector<std::thread> th;
  for (int t = 0; t < NT; t++)
    th.emplace_back([&, t]() {
      Rng q(sd[t]); std::vector<int> ord; for (int i = 0; i < NJ; i++) ord.push_back(i);
      for (int i = NJ - 1; i > 0; i--) std::swap(ord[i], ord[q.i(i + 1)]);
      ready.fetch_add(1); while (ready.load() < NT) std::this_thread::yield();
      for (int i : ord)
      {
        Job &j = jobs[i]; std::unique_ptr<Planner> mine; const Planner *p = shared[j.id].get();
        if (j.own[t]) { mine = cur::make(j.id, c.k, c.s, c.disc); mine->filt(Noise{ 1, 1, 1, 1, 1, 1, 1, 1, 1, 1 }); mine->filt(n); p = mine.get(); }
        int d = q.i(4); if (d == 0) std::this_thread::yield(); else if (d == 1) for (volatile int w = q.i(3000); w > 0; w = w - 1) {}
        int f = flying.fetch_add(1, std::memory_order_relaxed) + 1; int mx = maxfly.load(std::memory_order_relaxed); while (f > mx && !maxfly.compare_exchange_weak(mx, f, std::memory_order_relaxed)) {}
        if (f > 1) overlap.fetch_add(1, std::memory_order_relaxed);
        if (!mine && per[j.id].fetch_add(1, std::memory_order_relaxed) > 0) same.fetch_add(1, std::memory_order_relaxed);
        j.res[t] = call(*p, j.k);
        if (!mine) per[j.id].fetch_sub(1, std::memory_order_relaxed);
        flying.fetch_sub(1, std::memory_order_relaxed);
      }
    });
  for (auto &x : th) x.join();
  R.c("concurrent_queries", NT * NJ); R.c("overlapping_queries", overlap.load()); R.c("overlapping_on_same_object", same.load()); R.w("max_in_flight", maxfly.load());
  uint64_t h = one + 100;
  for (auto &j : jobs)
  {
    auto p = cur::make(j.id, c.k, c.s, c.disc); p->filt(n);
    j.res[NT] = call(*p, j.k); h = h * 31 + j.id * 8 + j.k.kind; R.see(mix(1000 + j.id, j.k.kind));
    for (int t = 0; t < NT; t++) if (j.res[t] != j.res[NT]) { R.bad(fmt("concurrent:%s:%s", KN[j.k.kind], p->name.c_str()), fmt("concurrent result (%s object) differs from the sequential one: ", j.own[t] ? "own" : "shared") + diff(j.res[NT], j.res[t]) + " " + show(*p, c, j.k)); break; }
  }
  R.see(mix(h, same.load()));
  if (g_arg_changed != args0) R.bad("argument", "a concurrent query changed its arguments " + str(c));
}
