// matches the states of a sampled path with the exact motion of the controls
#pragma once
#include "trace.hpp"

struct Exact
{ // exact poses at the beginning of every segment
  std::vector<Ct> cs; std::vector<Pose> s0; std::vector<double> S; double len = 0; Pose end;
  Exact(const St &a, const std::vector<Ct> &c) : cs(c)
  {
    Pose q{ a.x, a.y, a.th, 0 };
    for (auto &u : cs) { q.k = u.k; s0.push_back(q); S.push_back(len); q = drive(q, u); len += std::fabs(u.ds); }
    end = q;
  }
  Pose at(size_t i, double l) const { Pose q = s0[i]; return drive(q, sgn1(cs[i].ds), cs[i].s, l); }
  double L(size_t i) const { return std::fabs(cs[i].ds); }
  double d(size_t i) const { return sgn1(cs[i].ds); }
};
// normalised deviation of an observed state from an expected one
inline double dev(const St &o, const Pose &e, double d, double len, double far, double km)
{
  if (o.d != d) return INFINITY;
  double v = std::max(std::hypot(o.x - e.x, o.y - e.y) / (1 + len + far), std::fabs(wrapa(o.th - e.th)) / (1 + 0.1 * len));
  v = std::max(v, std::fabs(o.k - e.k) / (1 + km));
  return v == v ? v : INFINITY;
}
struct Match { double dev = 0; bool structural = false; std::string why; std::vector<int> seg; std::vector<double> ds; }; // per state: segment and step that led to it (ds==0: repeated, ds<0: unknown)
inline Match match(const St &a, const std::vector<Ct> &cs, const std::vector<St> &P, double disc, double tol, bool fast = false)
{
  Match M; Exact E(a, cs);
  double far = 1e-6 * (std::fabs(a.x) + std::fabs(a.y) + std::fabs(a.th)), km = 0; for (auto &u : cs) km = std::max(km, std::max(std::fabs(u.k), std::fabs(u.k + u.s * std::fabs(u.ds))));
  struct Ev { int seg; double l, ds; bool opt, start; };
  std::vector<Ev> ev;
  double pk = cs.empty() ? 0 : cs[0].k;
  for (size_t i = 0; i < cs.size(); i++)
  {
    double L = E.L(i);
    bool jump = std::fabs(cs[i].k - pk) > 1e-3;
    ev.push_back(Ev{ (int)i, 0, i == 0 || std::fabs(cs[i].k - pk) > std::max(1e-3, 3 * tol * (1 + km)) ? 0. : -1., !(i == 0 || (jump && L > 1e-9)), true });
    long n = (long)std::ceil(L / disc - 1e-9);
    double prev = 0;
    for (long m = 1; m <= n; m++) { double l = std::min(m * disc, L); ev.push_back(Ev{ (int)i, l, l - prev, false, false }); prev = l; }
    ev.push_back(Ev{ (int)i, L, -1, true, false });
    pk = cs[i].k + cs[i].s * L;
  }
  auto of = [&](size_t e, const St &s) {
    const Ev &v = ev[e];
    double r = dev(s, E.at(v.seg, v.l), E.d(v.seg), E.len, far, km);
    return r;
  };
  // set of possible positions in the sequence of expected states; only optional states may be skipped
  struct Fr { double c; int par; };
  std::vector<std::map<size_t, Fr>> F(P.size() + 1); // event matched by state j -> (cost, event matched by state j-1)
  double bestdev = INFINITY; size_t reach = 0;
  for (size_t j = 0; j < P.size(); j++)
  {
    auto step = [&](size_t from, double cost, int par) {
      for (size_t e = from; e < ev.size(); e++)
      {
        double v = of(e, P[j]);
        if (v <= tol)
        {
          double c = cost + v; auto it = F[j].find(e);
          if (it == F[j].end() || c < it->second.c) F[j][e] = Fr{ c, par };
        }
        else if (!ev[e].opt && e >= reach) { reach = e; bestdev = v; }
        if (!ev[e].opt) break;
      }
    };
    reach = 0; bestdev = INFINITY;
    if (j == 0) step(0, 0, -1); else for (auto &f : F[j - 1]) step(f.first + 1, f.second.c, (int)f.first);
    if (F[j].empty())
    {
      M.structural = true; M.dev = bestdev;
      const Ev &x = ev[std::min(reach, ev.size() - 1)]; Pose q = E.at(x.seg, x.l);
      M.why = fmt("state %zu is %s, expected %s after %.9g of segment %d: (x=%.12g y=%.12g theta=%.12g kappa=%.12g d=%g)", j, str(P[j]).c_str(), x.start ? "the beginning" : "the state", x.l, x.seg, q.x, q.y, q.th, q.k, E.d(x.seg));
      return M;
    }
  }
  if (P.empty()) { M.structural = true; M.dev = INFINITY; M.why = "the path is empty"; return M; }
  int be = -1; double bc = INFINITY; size_t last = ev.size(); while (last > 0 && ev[last - 1].opt) last--; // number of events up to the last mandatory one
  for (auto &f : F[P.size() - 1]) if (f.first + 1 >= last && f.second.c < bc) { bc = f.second.c; be = (int)f.first; }
  if (be < 0) { M.structural = true; M.dev = INFINITY; M.why = fmt("the path ends with state %zu before the end of the %zu controls", P.size(), cs.size()); return M; }
  M.seg.resize(P.size()); M.ds.resize(P.size());
  for (size_t j = P.size(); j-- > 0;) { M.seg[j] = ev[be].seg; M.ds[j] = ev[be].ds; M.dev = std::max(M.dev, of(be, P[j])); be = F[j][be].par; }
  return M;
}
// random control sequences: lines, arcs and clothoids, joined or with curvature jumps, both directions, empty segments
// deep: few long segments with tens of thousands of states; otherwise now and then many segments
inline bool deep_case(Rng &r, double &disc) { bool deep = r.i(500) == 0; if (deep) disc = r.lg(1e-4, 1e-3); return deep; }
inline std::vector<Ct> random_controls(Rng &r, bool clothoids, double disc, bool deep = false)
{
  std::vector<Ct> cs; int n = deep ? 1 + r.i(3) : (r.i(15) ? 1 + r.i(7) : 8 + r.i(40)); double ke = 0; bool dirs = r.b(); double d0 = r.sg();
  auto rk = [&]() { return r.i(3) ? r.sg() * r.lg(0.02, 3) : 0.; };
  for (int i = 0; i < n; i++)
  {
    Ct u; u.s = clothoids && r.i(3) ? r.sg() * r.lg(0.02, 3) : 0.;
    // either continuous or a clear jump; arcs and lines are clearly distinct, too
    bool cont = i > 0 && clothoids && r.i(3) && (u.s != 0 || ke == 0 || std::fabs(ke) > 0.01);
    u.k = cont ? ke : rk();
    for (int t = 0; !cont && i > 0 && std::fabs(u.k - ke) < 0.01 && !(u.k == ke) && t < 50; t++) u.k = rk();
    if (!cont && i > 0 && std::fabs(u.k - ke) < 0.01) u.k = ke == 0 ? 0. : ke + sgn1(ke) * 0.1;
    double L = r.lg(1e-3, 10);
    switch (r.i(8)) { case 0: L = disc * (1 + r.i(6)); break; case 1: L = disc * (1 + r.i(6)) * (1 + r.sg() * r.lg(1e-16, 1e-6)); break; case 2: L = r.i(2) ? 0. : r.lg(1e-9, 1e-3); break; }
    if (deep) { L = disc * r.lg(5000, 90000); u.s *= 0.05; }
    double tv = std::fabs(u.k) + std::fabs(u.s) * L;
    if (tv > 6) L = L * 6 / tv;
    if (u.s != 0 && r.i(4) == 0 && u.k != 0 && !deep) { u.s = -sgn1(u.k) * std::fabs(u.s); L = std::fabs(u.k / u.s); } // down to zero
    if (L / disc > 3000 && !deep) L = disc * 3000;
    ke = u.k + u.s * L; if (std::fabs(ke) < 1e-12) ke = 0;
    u.ds = (dirs ? r.sg() : d0) * L;
    cs.push_back(u);
  }
  return cs;
}
inline St random_state(Rng &r)
{
  double b = r.i(5) ? 10 : r.lg(10, 1e4);
  St a{ r.u(-b, b), r.u(-b, b), r.i(4) ? r.u(-4, 4) : r.u(-60, 60), r.u(-1, 1), (double)(r.i(3) - 1) };
  if (r.i(6) == 0) a = St{ 0, 0, 0, 0, 0 };
  if (r.i(6) == 0) a.th = (r.i(9) - 4) * PI_ / 2;
  return a;
}
inline uint64_t ctl_sig(const std::vector<Ct> &cs, int extra)
{
  uint64_t h = 1469598103934665603ull + extra;
  for (auto &u : cs) { char t = (std::fabs(u.ds) < 1e-6 ? 'z' : (std::fabs(u.s) > 1e-7 ? (u.s > 0 ? 'a' : 'b') : (u.k > 1e-7 ? 'l' : (u.k < -1e-7 ? 'r' : 's')))); h = (h ^ (unsigned char)t) * 1099511628211ull; h = (h ^ (u.ds > 0 ? 1 : 2)) * 1099511628211ull; }
  return h;
}
