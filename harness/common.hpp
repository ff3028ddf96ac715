// Workload generator, independent integrator, trace analysis and verdict bookkeeping shared by all monitors.
#pragma once
#include <algorithm>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <unordered_set>
#include "planner.hpp"

static const double PI_ = 3.14159265358979323846;

// ---------------------------------------------------------------- random numbers
struct Rng
{
  uint64_t s;
  explicit Rng(uint64_t x) : s(x) { for (int i = 0; i < 4; i++) n(); }
  uint64_t n() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  double u() { return (n() >> 11) * (1.0 / 9007199254740992.0); }
  double u(double a, double b) { return a + (b - a) * u(); }
  int i(int k) { return (int)(n() % (uint64_t)k); }
  bool b() { return (n() >> 32) & 1; }
  double sg() { return b() ? 1. : -1.; }
  double lg(double a, double b) { return std::exp(u(std::log(a), std::log(b))); }
};
inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 0x9E3779B97F4A7C15ull + b * 0xD1B54A32D192ED03ull + 77); return r.n(); }

// ---------------------------------------------------------------- independent geometry
inline double sgn1(double v) { return v < 0 ? -1. : 1.; }
inline double wrapa(double a) { return std::remainder(a, 2 * PI_); }
struct Pose { double x, y, th, k; };
// 16-point Gauss-Legendre on pieces with at most ~1 rad of turning: accurate to rounding
inline Pose drive(Pose q, double d, double sigma, double L)
{
  static const double X[8] = { 0.0950125098376374, 0.2816035507792589, 0.4580167776572274, 0.6178762444026438, 0.7554044083550030, 0.8656312023878318, 0.9445750230732326, 0.9894009349916499 };
  static const double W[8] = { 0.1894506104550685, 0.1826034150449236, 0.1691565193950025, 0.1495959888165767, 0.1246289712555339, 0.0951585116824928, 0.0622535239386479, 0.0271524594117541 };
  if (!(L > 0)) return q;
  if (sigma == 0 && q.k == 0) { q.x += d * L * std::cos(q.th); q.y += d * L * std::sin(q.th); return q; }
  double tv = (std::fabs(q.k) + std::fabs(sigma) * L) * L;
  if (!(tv < 1e6)) { q.x = q.y = q.th = NAN; return q; }
  int n = (int)std::ceil(tv / 1.5) + 1;
  double h = L / n;
  for (int i = 0; i < n; i++)
  {
    double c = 0, s = 0;
    for (int j = 0; j < 8; j++)
      for (int m = -1; m <= 1; m += 2)
      {
        double t = 0.5 * h * (1 + m * X[j]);
        double th = q.th + d * (q.k * t + 0.5 * sigma * t * t);
        c += W[j] * std::cos(th);
        s += W[j] * std::sin(th);
      }
    q.x += d * 0.5 * h * c;
    q.y += d * 0.5 * h * s;
    q.th += d * (q.k * h + 0.5 * sigma * h * h);
    q.k += sigma * h;
  }
  return q;
}
inline Pose drive(Pose q, const Ct &u) { q.k = u.k; return drive(q, sgn1(u.ds), u.s, std::fabs(u.ds)); }
// radius and mu of the circle reached by a clothoid of sharpness s from 0 to k
inline void circle_param(double k, double s, double &r, double &mu)
{
  Pose q = drive(Pose{ 0, 0, 0, 0 }, 1, s, k / s);
  double xc = q.x - std::sin(q.th) / k, yc = q.y + std::cos(q.th) / k;
  r = std::hypot(xc, yc);
  mu = std::atan(std::fabs(xc / yc));
}

// ---------------------------------------------------------------- configurations and queries
// corpus of control sequences of rare path types (made by mkcorpus from the frozen copy of the library), for max. curvature 1 and these delta_min
static const double CORPUS_DM[] = { 0.04, 0.1, 0.25, 0.5, 1, 1.5, 2.5, 5 };
enum { CORPUS_N = sizeof CORPUS_DM / sizeof *CORPUS_DM };
struct Corpus
{
  std::vector<std::vector<Ct>> of[CORPUS_N][32]; std::vector<int> ids[CORPUS_N]; bool any = false;
  Corpus()
  {
    const char *fn = getenv("MON_CORPUS"); FILE *f = fn ? fopen(fn, "r") : nullptr; if (!f) return;
    std::vector<char> line(65536);
    while (fgets(line.data(), (int)line.size(), f))
    {
      char *p = line.data(); long i = strtol(p, &p, 10), id = strtol(p, &p, 10); std::vector<Ct> cs; if (i < 0 || i >= CORPUS_N || id < 0 || id >= 32) continue;
      for (;;) { char *e; Ct u; u.ds = strtod(p, &e); if (e == p) break; p = e; u.k = strtod(p, &p); u.s = strtod(p, &p); cs.push_back(u); }
      if (cs.empty()) continue;
      if (of[i][id].empty()) ids[i].push_back((int)id);
      of[i][id].push_back(cs); any = true;
    }
    fclose(f);
  }
};
inline const Corpus &corpus() { static const Corpus c; return c; }
struct Cfg { double k, s, disc; bool broad; int corp = -1; };
inline Cfg gen_cfg(Rng &r)
{
  Cfg c; c.broad = false;
  if (corpus().any && r.i(4) == 0)
  {
    c.corp = r.i(CORPUS_N); c.k = r.b() ? 1. : r.lg(0.2, 3); c.s = c.k * c.k / (2 * CORPUS_DM[c.corp]); c.broad = c.s < 0.02;
    c.disc = r.i(3) ? r.lg(0.02, 1) / c.k : 0.1;
    return c;
  }
  int t = r.i(10);
  static const double nk[] = { 1, 1, 1, 0.5, 2, 0.2, 1. / 3, 0.25 }, ns[] = { 1, 1, 1, 0.5, 2, 0.2, 0.25, 3 };
  if (t < 3)
  {
    c.k = nk[r.i(8)]; c.s = ns[r.i(8)];
    if (c.k * c.k / (2 * c.s) > 3) c.s = c.k * c.k;
    if (c.k * c.k / (2 * c.s) < 0.03) c.s = c.k * c.k / 0.06; // declared bound: below it the resolution of 1e-4 is amplified
  }
  else if (t < 8) { c.k = r.lg(0.2, 3); c.s = c.k * c.k / (2 * r.lg(0.05, 2)); }
  else if (t < 9) { c.k = r.lg(0.2, 3); c.s = c.k * c.k / (2 * r.lg(0.03, 8)); }
  else { c.k = r.lg(0.04, 10); c.s = c.k * c.k / (2 * r.lg(0.04, 4)); c.broad = true; }
  if (c.s < 5e-4) c.s = 5e-4;
  if (c.s < 0.02) c.broad = true; // close to the resolution of 1e-4 below which the library neglects the sharpness
  c.disc = r.i(3) ? r.lg(0.02, 1) / c.k : (r.i(3) ? 0.1 : r.lg(1, 30) / c.k);
  return c;
}
struct Query { St a, b; int cls; };
enum { NCLS = 14 };
inline double gen_kappa(Rng &r, double k)
{
  switch (r.i(8))
  {
    case 0: case 1: return 0.;
    case 2: return k;
    case 3: return -k;
    case 4: return r.u(-k, k);
    case 5: return r.sg() * r.lg(1e-7, 1) * k;
    case 6: return r.sg() * k * (1 - r.lg(1e-7, 1));
    default: return r.u(-k, k);
  }
}
inline Query gen_query(Rng &r, const Cfg &c, int cls = -1)
{
  Query q;
  double k = c.k, s = c.s, Lr = 1 / k;
  q.cls = cls < 0 ? r.i(NCLS) : cls;
  if (cls < 0 && c.corp >= 0 && r.b() && !corpus().ids[c.corp].empty()) q.cls = 14;
  double box = r.lg(0.05, 20) * Lr;
  auto th = [&]() { return r.u(-PI_, PI_); };
  St &a = q.a, &b = q.b;
  a = St{ r.u(-box, box), r.u(-box, box), th(), gen_kappa(r, k), 0 };
  b = St{ r.u(-box, box), r.u(-box, box), th(), gen_kappa(r, k), 0 };
  switch (q.cls)
  {
    case 0: break;
    case 1:
    {
      auto g = [&]() { return (r.i(9) - 4) * 0.5 * Lr; };
      auto t8 = [&]() { return (r.i(33) - 16) * PI_ / 4; };
      a = St{ g(), g(), t8(), a.k, 0 }; b = St{ g(), g(), t8(), b.k, 0 };
      if (r.b()) a.x = a.y = a.th = 0;
      break;
    }
    case 2:
    {
      double e = r.lg(1e-12, 0.3);
      b = St{ a.x + e * r.u(-1, 1) * Lr, a.y + e * r.u(-1, 1) * Lr, a.th + e * r.u(-1, 1), r.b() ? a.k : b.k, 0 };
      if (r.i(4) == 0) b.th = a.th;
      if (r.i(5) == 0) { b.x = a.x; b.y = a.y; }
      if (r.i(4) == 0) b.th += 2 * PI_ * (r.i(5) - 2);
      break;
    }
    case 3:
    {
      double D = r.u(-20, 20) * Lr;
      b = St{ a.x + D * std::cos(a.th), a.y + D * std::sin(a.th), a.th + (r.i(3) - 1) * 2 * PI_, r.b() ? a.k : b.k, 0 };
      if (r.i(4) == 0) b.th += PI_;
      break;
    }
    case 4:
    {
      int big = r.i(4) == 0 ? 200 : 5;
      a.th += 2 * PI_ * (r.i(2 * big + 1) - big); b.th += 2 * PI_ * (r.i(2 * big + 1) - big);
      if (r.i(3) == 0) a.th = (r.i(9) - 4) * PI_ / (r.b() ? 1 : 2) + (r.i(3) - 1) * r.lg(1e-17, 1e-3);
      if (r.i(3) == 0) b.th = (r.i(9) - 4) * PI_ / (r.b() ? 1 : 2) + (r.i(3) - 1) * r.lg(1e-17, 1e-3);
      break;
    }
    case 5: // goal at the end of a random sequence of CC/HC segments
    case 12:
    {
      int m = 1 + r.i(5); double lm = k / s; int d = r.b() ? 1 : -1; bool hc = r.b(), cus = r.b();
      double kk = r.b() ? 0. : r.sg() * k;
      if (q.cls == 12 && r.b()) kk = a.k;
      a.k = kk; Pose p{ a.x, a.y, a.th, kk };
      for (int i = 0; i < m; i++)
      {
        if (cus && r.i(3) == 0) d = -d;
        if (std::fabs(p.k) < 1e-12) { if (r.b()) p = drive(p, d, 0, r.u(0, 5) * Lr); else { double sn = r.sg() * s; double f = q.cls == 12 && i == m - 1 ? r.u() : 1.; p = drive(p, d, sn, lm * f); p.k = (sn > 0 ? k : -k) * f; } }
        else if (std::fabs(std::fabs(p.k) - k) > 1e-12) { bool up = r.b(); double tgt = up ? sgn1(p.k) * k : 0.; double sn = tgt > p.k ? s : -s; p = drive(p, d, sn, std::fabs(tgt - p.k) / s); p.k = tgt; }
        else { int w = r.i(3); if (w == 0) p = drive(p, d, 0, r.u(0, 3) * Lr); else if (w == 1 && hc) { p.k = -p.k; d = -d; } else { double sn = p.k > 0 ? -s : s; double f = q.cls == 12 && i == m - 1 ? r.u() : 1.; double k2 = p.k * (1 - f); p = drive(p, d, sn, lm * f); p.k = f == 1. ? 0. : k2; } }
      }
      b = St{ p.x, p.y, p.th, p.k, 0 };
      if (r.b()) b.th = wrapa(b.th);
      break;
    }
    case 6:
      a = St{ r.u(-10, 10), r.u(-10, 10), th(), gen_kappa(r, k), 0 }; b = St{ r.u(-10, 10), r.u(-10, 10), th(), gen_kappa(r, k), 0 };
      break;
    case 7:
    {
      double off = r.lg(10, 1e5), an = th();
      if (r.b()) { a.x += off * std::cos(an); a.y += off * std::sin(an); b.x += off * std::cos(an); b.y += off * std::sin(an); }
      else { double D = r.lg(20, 300) * Lr; b.x = a.x + D * std::cos(an); b.y = a.y + D * std::sin(an); }
      break;
    }
    case 8: // lateral offset, parallel or anti-parallel, right angles
    {
      double dx = r.i(3) ? r.u(-4, 4) * Lr : 0., dy = r.i(4) ? r.u(-6, 6) * Lr : r.lg(1e-5, 1) * Lr;
      b.x = a.x + dx * std::cos(a.th) - dy * std::sin(a.th); b.y = a.y + dx * std::sin(a.th) + dy * std::cos(a.th);
      b.th = a.th + (r.i(3) ? r.i(4) * PI_ / 2 : (r.b() ? PI_ : 0.)) + (r.b() ? 0. : r.sg() * r.lg(1e-9, 1e-1));
      break;
    }
    case 9: // tight manoeuvres
    {
      double bx = r.u(0.1, 3) * Lr;
      b = St{ a.x + r.u(-bx, bx), a.y + r.u(-bx, bx), r.b() ? th() : a.th + r.u(-0.6, 0.6), b.k, 0 };
      break;
    }
    case 10: b = St{ a.x, a.y, a.th, b.k, 0 }; if (r.b()) b.th += 2 * PI_ * (r.i(5) - 2); break;
    case 11: // circle centres at critical distances
    {
      double rad, mu; circle_param(k, s, rad, mu);
      if (r.i(3) == 0) { rad = Lr; mu = 0; }
      double f[] = { 0, 1, 2, 2 * std::cos(mu), 2 * std::sin(mu), 4, 2 * std::sqrt(2.), 4 * std::cos(mu), 2 + 2 * std::cos(mu), 3, 6 };
      double D = f[r.i(11)] * rad * (r.i(4) ? 1 + r.sg() * r.lg(1e-13, 0.05) : 1.), an = th();
      auto cen = [&](const St &p, double lr, double fb, double &x, double &y) { double lx = fb * rad * std::sin(mu), ly = lr * rad * std::cos(mu); x = p.x + lx * std::cos(p.th) - ly * std::sin(p.th); y = p.y + lx * std::sin(p.th) + ly * std::cos(p.th); };
      double x1, y1, x2, y2; cen(a, r.sg(), r.sg(), x1, y1);
      b.x = b.y = 0; cen(b, r.sg(), r.sg(), x2, y2);
      b.x = x1 + D * std::cos(an) - x2; b.y = y1 + D * std::sin(an) - y2;
      break;
    }
    case 14: // goal driven by a (stretched) control sequence of a rare path type
    {
      auto &ids = corpus().ids[c.corp]; auto &ws = corpus().of[c.corp][ids[r.i((int)ids.size())]]; std::vector<Ct> w = ws[r.i((int)ws.size())];
      int how = r.i(5); double m = r.sg();
      for (size_t i = 0; i < w.size(); i++)
      {
        bool arc = std::fabs(w[i].s) < 1e-9; if (!arc) continue;
        if (std::fabs(w[i].k) < 1e-9) { if (how) w[i].ds = r.b() ? w[i].ds * r.u(0, 2) : sgn1(w[i].ds) * r.lg(1e-3, 5); }
        else if (how == 4 || (how && (i < 2 || i + 2 >= w.size()))) w[i].ds *= r.i(4) ? r.u(0, 1.2) : r.lg(1e-4, 1);
      }
      a.k = m * w[0].k * k; Pose p{ a.x, a.y, a.th, 0 }; double ke = 0;
      for (auto &u : w) { Ct v; v.ds = u.ds / k; v.k = m * u.k * k; v.s = m * u.s * k * k; p = drive(p, v); ke = v.k + v.s * std::fabs(v.ds); }
      b = St{ p.x, p.y, r.b() ? p.th : wrapa(p.th), ke, 0 };
      if (r.i(4) == 0) a.k = gen_kappa(r, k);
      if (r.i(4) == 0) b.k = gen_kappa(r, k);
      break;
    }
    case 13: // larger boxes, generic headings of any representation
      box = r.lg(2, 12) * Lr;
      a = St{ r.u(-box, box), r.u(-box, box), r.u(-10, 10), a.k, 0 }; b = St{ r.u(-box, box), r.u(-box, box), r.u(-10, 10), b.k, 0 };
      break;
  }
  if (r.i(4) == 0) { a.d = r.i(3) - 1; b.d = r.i(3) - 1; }
  return q;
}
// are start and goal (nearly) at the same pose, or would the predicted poses of a planner for arbitrary curvature be?
inline double pose_gap(const St &a, const St &b) { return std::max(std::hypot(a.x - b.x, a.y - b.y), std::fabs(wrapa(a.th - b.th))); }
inline std::vector<Pose> predicted(const Planner &p, const St &a, bool start)
{
  std::vector<Pose> v; v.push_back(Pose{ a.x, a.y, a.th, a.k });
  if (p.k0 != 'a') return v;
  for (int d = -1; d <= 1; d += 2)
    for (int up = 0; up < 2; up++)
    {
      if (p.dir && d * p.dir * (start ? 1 : -1) < 0) continue;
      double tgt = up ? sgn1(a.k) * p.km : 0.;
      v.push_back(drive(Pose{ a.x, a.y, a.th, a.k }, d, tgt > a.k ? p.sm : -p.sm, std::fabs(tgt - a.k) / p.sm));
    }
  return v;
}
inline bool degenerate(const Planner &p, const St &a, const St &b, double tol = 2e-3)
{
  auto A = predicted(p, a, true), B = predicted(p, b, false);
  for (auto &u : A) for (auto &v : B) if (std::hypot(u.x - v.x, u.y - v.y) < tol && std::fabs(wrapa(u.th - v.th)) < tol) return true;
  return false;
}

// ---------------------------------------------------------------- analysis of a control sequence
struct An
{
  bool ok = false; int nseg = 0; double len = 0; Pose e; double kmax = 0, smax = 0, jump = 0, k0 = 0, k1 = 0, wrongdir = 0; uint64_t sig = 0; std::string word;
};
inline An analyse(const Planner &p, const St &a, const std::vector<Ct> &cs)
{
  An r; r.nseg = (int)cs.size(); r.ok = !cs.empty();
  Pose q{ a.x, a.y, a.th, 0 };
  double pk = 0, pd = 0; bool have = false; bool flip = false; double skipped = 0;
  for (size_t i = 0; i < cs.size(); i++)
  {
    const Ct &u = cs[i];
    if (!std::isfinite(u.ds) || !std::isfinite(u.k) || !std::isfinite(u.s)) { r.ok = false; return r; }
    double L = std::fabs(u.ds), d = sgn1(u.ds);
    r.len += L;
    if (i == 0) r.k0 = u.k;
    q = drive(q, u);
    double ke = u.k + u.s * L;
    q.k = ke;
    r.kmax = std::max(r.kmax, std::max(std::fabs(u.k), std::fabs(ke)));
    if (L > 1e-9) r.smax = std::max(r.smax, std::fabs(u.s));
    if (p.dir && d * p.dir < 0) r.wrongdir = std::max(r.wrongdir, L);
    if (p.fam == 'C') { if (i && !(cs.size() == 1)) r.jump = std::max(r.jump, std::fabs(u.k - pk)); pk = ke; }
    else if (p.fam == 'H')
    {
      if (L < 1e-6) { skipped += L; flip = true; } // a vanishing segment between two cusps
      else
      {
        if (have && d == pd && !flip) r.jump = std::max(r.jump, std::fabs(u.k - pk) - p.sm * skipped);
        pk = ke; pd = d; have = true; flip = false; skipped = 0;
      }
    }
    char t = L < 1e-6 ? 'z' : (std::fabs(u.s) > 1e-7 ? (u.s > 0 ? 'a' : 'b') : (u.k > 1e-7 ? 'l' : (u.k < -1e-7 ? 'r' : 's')));
    r.word += t; r.word += d > 0 ? '+' : '-';
  }
  r.k1 = cs.empty() ? 0 : q.k;
  r.e = q;
  uint64_t h = 1469598103934665603ull; for (char ch : r.word) h = (h ^ (unsigned char)ch) * 1099511628211ull; r.sig = h;
  if (!std::isfinite(q.x) || !std::isfinite(q.y) || !std::isfinite(q.th)) r.ok = false;
  return r;
}
inline bool finite(const St &s) { return std::isfinite(s.x) && std::isfinite(s.y) && std::isfinite(s.th) && std::isfinite(s.k) && std::isfinite(s.d); }

// ---------------------------------------------------------------- verdict bookkeeping
inline std::string fmt(const char *f, ...) { char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
inline std::string str(const St &s) { return fmt("(x=%.17g y=%.17g theta=%.17g kappa=%.17g d=%g)", s.x, s.y, s.th, s.k, s.d); }
inline std::string str(const Cfg &c) { return fmt("kappa_max=%.17g sigma_max=%.17g discretization=%.17g", c.k, c.s, c.disc); }
inline std::string str(const std::vector<Ct> &c) { std::string r = "["; for (auto &u : c) r += fmt("{ds=%.17g k=%.17g s=%.17g}", u.ds, u.k, u.s); return r + "]"; }

struct Rep
{
  std::map<std::string, long> cnt;              // observation counters
  std::map<std::string, double> worst;          // worst observed deviations
  std::unordered_set<uint64_t> distinct;        // distinct non-trivial observations
  std::vector<std::string> samples;
  struct V { long idx; int strict; std::string key, txt; };
  std::vector<V> viol;
  std::map<std::string, long> vkey;
  long idx = 0;
  bool verbose = false;
  void c(const std::string &n, long v = 1) { cnt[n] += v; }
  void w(const std::string &n, double v) { auto &x = worst[n]; if (!(v <= x)) x = v; }
  void see(uint64_t h) { if (distinct.size() < 2000000) distinct.insert(h); }
  void sample(const std::string &s) { if (samples.size() < 3) samples.push_back(s); }
  // strict == 1: needs a second, independent event of the same key before it counts
  // strict == 2: seen at this very input only, not at inputs next to it: needs many events of the same key before it counts
  void bad(const std::string &key, const std::string &txt, int strict = 0)
  {
    long n = ++vkey[key + std::string((size_t)strict, '~')];
    if (strict == 2) c("fragile_" + key.substr(0, key.find(':')));
    if (verbose) printf("EVENT %s%s case=%ld %s\n", key.c_str(), strict ? (strict == 2 ? " (fragile)" : " (strict)") : "", idx, txt.c_str());
    if (n <= 5) viol.push_back(V{ idx, strict, key, txt });
  }
};
extern char g_now[8192]; // description of the call in progress (printed by the crash handler)
#define NOW(...) snprintf(g_now, sizeof g_now, __VA_ARGS__)

// deviation measured on the frozen reference at the same input and at inputs that differ by round-off only: the
// library's own absolute resolution (1e-4) at this very input
inline double ref_slack(int id, const Cfg &c, const Query &q, const std::function<double(const Planner &, const St &, const St &)> &m, double up = 1e-9)
{
  auto p = ref::make(id, c.k, c.s, c.disc);
  Rng r(mix((uint64_t)(q.a.x * 1e9) ^ 12345, (uint64_t)(q.b.y * 1e9) + 7));
  double w = 0;
  for (int i = 0; i < 9; i++)
  {
    St a = q.a, b = q.b;
    if (i) { double e = r.lg(1e-15, up); a.x += e * r.u(-1, 1); a.y += e * r.u(-1, 1); a.th += e * r.u(-1, 1); b.x += e * r.u(-1, 1); b.y += e * r.u(-1, 1); b.th += e * r.u(-1, 1); if (a.k && std::fabs(a.k) < c.k) a.k *= 1 + e * r.u(-1, 1); if (b.k && std::fabs(b.k) < c.k) b.k *= 1 + e * r.u(-1, 1); }
    double v = m(*p, a, b);
    if (!(v <= w)) w = v;
  }
  return w;
}
typedef std::function<double(const Planner &, const St &, const St &)> Metric;
// does the deviation persist at generic inputs next to this one, where the reference shows none? Lengths of CC/HC paths are discontinuous at
// degenerate inputs, where round-off decides which path is found
inline bool persists(int id, const Cfg &c, const Query &q, const Metric &m, const Metric &mc, double err)
{
  auto p = cur::make(id, c.k, c.s, c.disc), pr = ref::make(id, c.k, c.s, c.disc);
  Rng r(mix((uint64_t)(q.a.y * 1e9) ^ 4321, (uint64_t)(q.b.x * 1e9) + 3));
  int n = 0;
  for (int i = 0; i < 8; i++)
  {
    St a = q.a, b = q.b; double e = r.lg(1e-9, 2e-7);
    a.x += e * r.u(-1, 1); a.y += e * r.u(-1, 1); a.th += e * r.u(-1, 1); b.x += e * r.u(-1, 1); b.y += e * r.u(-1, 1); b.th += e * r.u(-1, 1);
    if (!(mc(*p, a, b) < 0.5 * err) && m(*pr, a, b) < 0.25 * err) n++;
  }
  return n >= 7;
}
// err: deviation of the code under test, m: how to measure the same deviation on the reference, mc: on the code under test
inline void judge(Rep &R, int id, const Cfg &c, const Query &q, const char *name, const Planner &p, double err, double strict, double loose, const Metric &m, bool degen = false, const std::string &extra = "", const Metric &mc = Metric())
{
  R.w(std::string("max_") + name, err);
  if (err <= strict) return;
  R.c(std::string("above_strict_") + name);
  std::string txt = fmt("%s %s start=%s goal=%s cls=%d deviation=%.6g ", p.name.c_str(), str(c).c_str(), str(q.a).c_str(), str(q.b).c_str(), q.cls, err) + extra;
  if (!(err <= loose) && !degen && !degenerate(p, q.a, q.b)) { R.bad(std::string(name) + ":" + p.name, txt + " (above hard limit)"); return; }
  double s = ref_slack(id, c, q, m);
  if (!(err <= strict + 4 * s)) R.bad(std::string(name) + ":" + p.name, txt + fmt(" (reference deviation %.3g)", s), degen || degenerate(p, q.a, q.b) || !persists(id, c, q, m, mc ? mc : m, err) ? 2 : 1);
}

typedef void (*MonFn)(Rep &, uint64_t seed, long idx);
struct Mon { const char *name; MonFn fn; Mon *next; Mon(const char *n, MonFn f); };
extern Mon *g_mons;
inline Mon::Mon(const char *n, MonFn f) : name(n), fn(f), next(g_mons) { g_mons = this; }
#define MON(x) static void mon_##x(Rep &, uint64_t, long); static Mon reg_##x(#x, mon_##x); static void mon_##x(Rep &R, uint64_t seed, long idx)
