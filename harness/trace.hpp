// one case = one random configuration x a few queries x all 19 planners
#pragma once
#include "common.hpp"
static double pose_err(double x, double y, double th, const St &b, double len)
{
  double s = 1 + len + 1e-6 * (std::fabs(b.x) + std::fabs(b.y));
  double e = std::max(std::hypot(x - b.x, y - b.y) / s, std::fabs(wrapa(th - b.th)) / (1 + 0.1 * len));
  return e == e ? e : INFINITY;
}
static Sc with_cov(const St &a)
{
  Sc s; s.q = a;
  for (int i = 0; i < 16; i++) s.S[i] = s.L[i] = s.C[i] = 0;
  for (int i = 0; i < 3; i++) { s.S[5 * i] = 0.01; s.C[5 * i] = 0.01; }
  return s;
}
static Noise some_noise() { return Noise{ 0.05, 0.01, 0.05, 0.01, 0.1, 0.1, 0.05, 1, 1, 1 }; }

enum { QPC = 3 }; // queries per configuration

template <class F> static void each(Rep &R, uint64_t seed, long idx, F f)
{
  Rng r(mix(seed, idx));
  Cfg c = gen_cfg(r);
  auto ps = cur::all(c.k, c.s, c.disc);
  for (int rep = 0; rep < QPC; rep++)
  {
    Query q = gen_query(r, c);
    R.c("queries"); R.c("class_" + std::to_string(q.cls));
    for (int id = 0; id < NPLANNERS; id++)
    {
      Planner &p = *ps[id];
      NOW("%s %s start=%s goal=%s", p.name.c_str(), str(c).c_str(), str(q.a).c_str(), str(q.b).c_str());
      R.c("planner_queries");
      f(r, c, q, id, p);
    }
  }
}
static void note(Rep &R, const Planner &p, const An &A, const Cfg &c, const Query &q)
{
  R.see(A.sig ^ (uint64_t)(p.name[0] + 131 * p.name.size()) * 1000003ull ^ mix(p.name.size() * 7 + p.name.back(), p.dir + 5 + p.fam * 11 + p.k0 * 101 + p.k1 * 1009));
  if (R.samples.size() < 3 && A.nseg > 3) R.sample(fmt("%s %s %s -> %s word=%s length=%.9g", p.name.c_str(), str(c).c_str(), str(q.a).c_str(), str(q.b).c_str(), A.word.c_str(), A.len));
}
static double loose_len(const Cfg &c) { return c.broad ? 30. : 1.; }

