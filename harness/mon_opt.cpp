// C07-C10: length optimality and symmetries
#include "trace.hpp"

// ------------------------------------------------------------------------------------------------ independent Dubins solver
// All arc-line-arc and arc-arc-arc paths (forwards) from tangent geometry of the turning circles; every candidate is
// verified by exact integration, so a candidate that counts is a feasible path.
struct Dub { double len; std::string w; };
static double mod2pi(double a) { double v = std::fmod(a, 2 * PI_); if (v < 0) v += 2 * PI_; return v; }
static Dub own_dubins(const Pose &a, const Pose &b, double k)
{
  double r = 1 / k; Dub best{ INFINITY, "" };
  auto turn = [](double s, double from, double to) { return mod2pi(s * (to - from)); };
  auto consider = [&](const double *t, const double *l, const char *w) {
    // t: +1 left, -1 right, 0 straight; l: lengths (arc angles already multiplied by r). Arcs close to a full turn may
    // be no turn at all.
    for (int m = 0; m < 8; m++)
    {
      double L[3]; bool skip = false;
      for (int i = 0; i < 3; i++) { L[i] = l[i]; if (m >> i & 1) { if (t[i] == 0 || 2 * PI_ * r - l[i] > 1e-6 * r) skip = true; L[i] = 0; } }
      if (skip) continue;
      Pose q = a; for (int i = 0; i < 3; i++) { q.k = t[i] * k; q = drive(q, 1, 0, L[i]); }
      double len = L[0] + L[1] + L[2];
      double far = 1e-14 * (std::fabs(a.x) + std::fabs(a.y)) + 1e-15 * (std::fabs(a.th) + std::fabs(b.th)) * len;
      if (std::hypot(q.x - b.x, q.y - b.y) > 1e-12 * (1 + len) + far || std::fabs(wrapa(q.th - b.th)) > 1e-12 + 1e-15 * (std::fabs(a.th) + std::fabs(b.th))) continue;
      if (len < best.len) { best.len = len; best.w = w; }
    }
  };
  for (int s1 = -1; s1 <= 1; s1 += 2)
    for (int s2 = -1; s2 <= 1; s2 += 2)
    {
      double x1 = a.x - s1 * r * std::sin(a.th), y1 = a.y + s1 * r * std::cos(a.th), x2 = b.x - s2 * r * std::sin(b.th), y2 = b.y + s2 * r * std::cos(b.th);
      double D = std::hypot(x2 - x1, y2 - y1), al = std::atan2(y2 - y1, x2 - x1);
      char w[4] = { s1 > 0 ? 'L' : 'R', 'S', s2 > 0 ? 'L' : 'R', 0 };
      if (s1 == s2)
      {
        { double t[3] = { (double)s1, 0, (double)s2 }, l[3] = { r * turn(s1, a.th, al), D, r * turn(s2, al, b.th) }; consider(t, l, w); }
        { double t[3] = { (double)s1, 0, (double)s2 }, l[3] = { r * turn(s1, a.th, b.th), 0, 0 }; consider(t, l, w); }
        if (D <= 4 * r * (1 + 1e-12))
        {
          double g = std::acos(std::min(1., D / (4 * r)));
          for (int m = -1; m <= 1; m += 2)
          { // middle circle centre
            double an = al + m * g, xm = x1 + 2 * r * std::cos(an), ym = y1 + 2 * r * std::sin(an);
            double h1 = an + s1 * PI_ / 2, h2 = std::atan2(ym - y2, xm - x2) + s2 * PI_ / 2; // headings at the two tangent points
            double t[3] = { (double)s1, (double)-s1, (double)s2 }, l[3] = { r * turn(s1, a.th, h1), r * turn(-s1, h1, h2), r * turn(s2, h2, b.th) };
            w[1] = s1 > 0 ? 'R' : 'L'; consider(t, l, w);
          }
        }
      }
      else if (D >= 2 * r * (1 - 1e-12))
      {
        double l0 = std::sqrt(std::max(0., D * D - 4 * r * r)), h = al + s1 * std::asin(std::min(1., 2 * r / D));
        double t[3] = { (double)s1, 0, (double)s2 }, l[3] = { r * turn(s1, a.th, h), l0, r * turn(s2, h, b.th) };
        consider(t, l, w);
      }
    }
  return best;
}
static Dub own_dubins(const St &a, const St &b, double k, int dir)
{
  Pose p{ a.x, a.y, a.th, 0 }, q{ b.x, b.y, b.th, 0 };
  return dir > 0 ? own_dubins(p, q, k) : own_dubins(q, p, k);
}
// a random arc-line-arc / arc-arc-arc word, or one of the 48 Reeds-Shepp words, driven from a
struct Word { Pose e; double len; std::string w; bool dub; int d; };
static Word random_word(Rng &r, const St &a, double k, bool rsw, bool special)
{
  Pose q{ a.x, a.y, a.th, 0 }; Word W; W.len = 0; double Lr = 1 / k, H = PI_ / 2; int d = r.b() ? 1 : -1, s = r.b() ? 1 : -1; W.dub = !rsw; W.d = d;
  auto ang = [&](double m) { if (special) { int t = r.i(6); if (t == 0) return 0.; if (t == 1) return std::min(m, H * r.i(5)); if (t == 2) return std::min(m, r.lg(1e-18, 1e-3)); } return r.u(0, m); };
  auto C = [&](double al) { q.k = s * k; q = drive(q, d, 0, al * Lr); W.len += al * Lr; W.w += s > 0 ? 'L' : 'R'; W.w += d > 0 ? '+' : '-'; };
  auto S = [&](double l) { q.k = 0; q = drive(q, d, 0, l); W.len += l; W.w += 'S'; W.w += d > 0 ? '+' : '-'; };
  auto cusp = [&]() { d = -d; W.w += '|'; };
  auto fl = [&]() { s = -s; };
  if (!rsw) { if (r.b()) { C(ang(4 * H)); S(ang(5) * Lr); if (r.b()) fl(); C(ang(4 * H)); } else { C(ang(4 * H)); fl(); C(ang(4 * H)); fl(); C(ang(4 * H)); } }
  else switch (r.i(9))
  {
    case 0: C(ang(2 * H)); S(ang(5) * Lr); if (r.b()) fl(); C(ang(2 * H)); break;
    case 1: C(ang(2 * H)); fl(); cusp(); C(ang(2 * H)); fl(); cusp(); C(ang(2 * H)); break;
    case 2: C(ang(2 * H)); fl(); cusp(); C(ang(2 * H)); fl(); C(ang(2 * H)); break;
    case 3: C(ang(2 * H)); fl(); C(ang(2 * H)); fl(); cusp(); C(ang(2 * H)); break;
    case 4: { double u = ang(H); C(ang(u + 0.2)); fl(); C(u); fl(); cusp(); C(u); fl(); C(ang(u + .2)); } break;
    case 5: { double u = ang(H); C(ang(u + .2)); fl(); cusp(); C(u); fl(); C(u); fl(); cusp(); C(ang(u + .2)); } break;
    case 6: C(ang(H)); fl(); cusp(); C(H); S(ang(3) * Lr); if (r.b()) fl(); C(ang(H)); break;
    case 7: C(ang(H)); if (r.b()) fl(); S(ang(3) * Lr); C(H); cusp(); fl(); C(ang(H)); break;
    case 8: C(ang(H)); fl(); cusp(); C(H); S(ang(3) * Lr); fl(); C(H); fl(); cusp(); C(ang(H)); break;
  }
  W.e = q;
  return W;
}
// feasibility of the returned path: end pose, number of segments, curvatures 0/+-kappa_max, length == distance
static bool infeasible(const Planner &p, const St &a, const St &b, double D, size_t maxseg, std::string &why)
{
  auto cs = p.ctl(a, b); An A = analyse(p, a, cs);
  if (!A.ok || cs.size() > maxseg) { why = "segments " + str(cs); return true; }
  for (auto &u : cs) if (std::fabs(u.ds) > 1e-9 && !(std::fabs(u.k) <= 1e-9 || std::fabs(std::fabs(u.k) - p.km) <= 1e-9 * p.km)) { why = "curvature " + str(cs); return true; }
  double e = pose_err(A.e.x, A.e.y, A.e.th, b, A.len);
  if (!(e <= 1e-4)) { why = fmt("misses the goal by %g ", e) + str(cs); return true; }
  if (!(std::fabs(A.len - D) <= 1e-6 * (1 + D))) { why = fmt("distance %.12g but controls of length %.12g ", D, A.len) + str(cs); return true; }
  if (p.dir && A.wrongdir > 1e-7) { why = "drives in the wrong direction " + str(cs); return true; }
  return false;
}
static Cfg wide_cfg(Rng &r) { Cfg c = gen_cfg(r); if (r.i(5) == 0) { c.k = r.lg(0.03, 30); c.s = c.k * c.k; } return c; }

MON(C07)
{
  Rng r(mix(seed, idx));
  Cfg c = wide_cfg(r);
  std::unique_ptr<Planner> P[2] = { cur::make(DUBINS_F, c.k, c.s, c.disc), cur::make(DUBINS_B, c.k, c.s, c.disc) };
  for (int rep = 0; rep < 40; rep++)
  {
    Query q; double bound = INFINITY; std::string by; int only = -1;
    if (rep % 2)
    {
      q = gen_query(r, c, r.i(4) ? -1 : 13);
      R.c("solver_queries");
    }
    else
    {
      q = gen_query(r, c, 0); if (r.i(3) == 0) q.a = St{ 0, 0, 0, 0, 0 }; if (r.i(3) == 0) q.a.th += 2 * PI_ * (r.i(9) - 4);
      Word W = random_word(r, q.a, c.k, false, r.b());
      q.b = St{ W.e.x, W.e.y, r.b() ? W.e.th : wrapa(W.e.th), 0, 0 }; q.cls = 100;
      bound = W.len; by = "constructed path " + W.w; only = W.d > 0 ? 0 : 1; R.c("constructed_words"); 
    }
    for (int f = 0; f < 2; f++)
    {
      Planner &p = *P[f]; int id = f ? DUBINS_B : DUBINS_F;
      NOW("%s %s start=%s goal=%s", p.name.c_str(), str(c).c_str(), str(q.a).c_str(), str(q.b).c_str());
      double D = p.dist(q.a, q.b); std::string why;
      R.c("planner_queries");
      if (!(std::isfinite(D) && D >= 0)) { R.bad("distance_invalid:" + p.name, fmt("%s: distance %g", g_now, D)); continue; }
      if (infeasible(p, q.a, q.b, D, 3, why)) R.bad("infeasible:" + p.name, fmt("%s: %s", g_now, why.c_str()), pose_gap(q.a, q.b) < 1e-3);
      Dub o = own_dubins(q.a, q.b, c.k, p.dir);
      if (std::isfinite(o.len)) { R.c("solved_" + o.w); An A = analyse(p, q.a, p.ctl(q.a, q.b)); R.see(mix(A.sig, f)); if (A.nseg && R.samples.size() < 3) R.sample(fmt("%s %s -> %s word=%s length=%.9g solver=%s %.9g", p.name.c_str(), str(q.a).c_str(), str(q.b).c_str(), A.word.c_str(), D, o.w.c_str(), o.len)); }
      else R.c("solver_no_verified_path");
      double bd = o.len; std::string bb = "tangent path " + o.w;
      if (f == only && bound < bd) { bd = bound; bb = by; }
      if (!std::isfinite(bd)) continue;
      double k = c.k, bl = bd;
      judge(R, id, c, q, "longer_than_feasible", p, std::max(0., D - bd) / (1 + bd), 1e-6, 1e-2, [bl](const Planner &p, const St &a, const St &b) { return std::max(0., p.dist(a, b) - bl) / (1 + bl); }, false, fmt("distance %.12g, %s of length %.12g", D, bb.c_str(), bd));
      (void)k;
    }
  }
}
MON(C08)
{
  Rng r(mix(seed, idx));
  Cfg c = wide_cfg(r);
  auto P = cur::make(RS, c.k, c.s, c.disc), Pr = ref::make(RS, c.k, c.s, c.disc);
  Planner &p = *P;
  for (int rep = 0; rep < 40; rep++)
  {
    Query q; double bound = INFINITY; std::string by;
    if (rep % 4 == 3) q = gen_query(r, c);
    else
    {
      q = gen_query(r, c, 0); if (r.i(3) == 0) q.a = St{ 0, 0, 0, 0, 0 }; if (r.i(3) == 0) q.a.th += 2 * PI_ * (r.i(9) - 4);
      Word W = random_word(r, q.a, c.k, r.i(5) != 0, r.i(3) == 0);
      q.b = St{ W.e.x, W.e.y, r.b() ? W.e.th : wrapa(W.e.th), 0, 0 }; q.cls = 100;
      bound = W.len; by = "constructed path " + W.w;
    }
    NOW("%s %s start=%s goal=%s", p.name.c_str(), str(c).c_str(), str(q.a).c_str(), str(q.b).c_str());
    double D = p.dist(q.a, q.b); std::string why;
    R.c("planner_queries");
    if (!(std::isfinite(D) && D >= 0)) { R.bad("distance_invalid:" + p.name, fmt("%s: distance %g", g_now, D)); continue; }
    if (infeasible(p, q.a, q.b, D, 5, why)) R.bad("infeasible:" + p.name, fmt("%s: %s", g_now, why.c_str()), pose_gap(q.a, q.b) < 1e-3);
    An A = analyse(p, q.a, p.ctl(q.a, q.b)); R.see(A.sig);
    if (R.samples.size() < 3) R.sample(fmt("RS %s -> %s word=%s length=%.9g constructed %s %.9g", str(q.a).c_str(), str(q.b).c_str(), A.word.c_str(), D, by.c_str(), bound));
    if (std::isfinite(bound)) { R.c("constructed_words"); if (std::fabs(D - bound) < 1e-7 * (1 + D)) R.c("constructed_word_is_optimal"); }
    auto check = [&](const char *n, double bd, const std::string &bb, double strict) {
      if (!std::isfinite(bd)) return;
      R.c(std::string(n) + "_compared");
      judge(R, RS, c, q, n, p, std::max(0., D - bd) / (1 + bd), strict, 1e-2, [bd](const Planner &p, const St &a, const St &b) { return std::max(0., p.dist(a, b) - bd) / (1 + bd); }, false, fmt("distance %.12g, %s of length %.12g", D, bb.c_str(), bd));
    };
    check("longer_than_constructed", bound, by, 1e-6);
    Dub f = own_dubins(q.a, q.b, c.k, 1), b = own_dubins(q.a, q.b, c.k, -1);
    check("longer_than_dubins", std::min(f.len, b.len), "Dubins path " + (f.len < b.len ? f.w : b.w), 1e-5);
    // the path of the reference copy, if it is feasible, is one of the words as well
    double Dr = Pr->dist(q.a, q.b);
    if (D > Dr * (1 + 1e-6) && !infeasible(*Pr, q.a, q.b, Dr, 5, why)) check("longer_than_witness", Dr, "witness path " + str(Pr->ctl(q.a, q.b)), 1e-6);
    // swap: the reversed word is a word, too
    double Ds = p.dist(q.b, q.a);
    check("longer_than_reversed", Ds, "reversed path", 1e-5);
  }
}
// ------------------------------------------------------------------------------------------------ C09
static bool witness_ok(const Planner &p, const St &a, const St &b, double D)
{
  An A = analyse(p, a, p.ctl(a, b));
  return A.ok && std::fabs(A.len - D) <= 1e-7 * (1 + D) && pose_err(A.e.x, A.e.y, A.e.th, b, A.len) < 1e-7 && A.kmax < p.km * (1 + 1e-7) && A.smax < p.sm * (1 + 1e-6) && A.jump < 1e-7 * p.km && A.wrongdir < 1e-9;
}
// planners for arbitrary curvature: cost of the best way via zero or max. curvature at either end
static double via_predicted(const Planner &p, const Planners &ps, const St &a, const St &b)
{
  bool hc = p.fam == 'H'; int base = p.dir < 0 ? CC00_B : CC00_F;
  double best = INFINITY;
  struct E { St s; double L; bool max; };
  auto ends = [&](const St &s, bool start) {
    std::vector<E> v;
    for (int d = -1; d <= 1; d += 2)
      for (int up = 0; up < 2; up++)
      {
        if (p.dir && d * p.dir * (start ? 1 : -1) < 0) continue;
        double tgt = up ? sgn1(s.k) * p.km : 0., L = std::fabs(tgt - s.k) / p.sm;
        // within the resolution of the library the curvature already is zero or maximal: nothing to reach
        if (std::fabs(s.k) < 1e-4) { if (!up) v.push_back(E{ s, 0, false }); continue; }
        if (p.km - std::fabs(s.k) < 1e-4) { if (up) v.push_back(E{ s, 0, true }); continue; }
        Pose q = drive(Pose{ s.x, s.y, s.th, s.k }, d, tgt > s.k ? p.sm : -p.sm, L);
        v.push_back(E{ St{ q.x, q.y, q.th, tgt, 0 }, L, up != 0 });
      }
    return v;
  };
  for (auto &u : ends(a, true))
    for (auto &v : ends(b, false))
    {
      int id = hc ? (u.max ? (v.max ? HCPMPM : HCPM0) : (v.max ? HC0PM : HC00)) : base + (u.max ? (v.max ? 3 : 2) : (v.max ? 1 : 0));
      double D = ps[id]->dist(u.s, v.s) + u.L + v.L;
      if (D < best) best = D;
    }
  return best;
}
MON(C09)
{
  Rng r(mix(seed, idx));
  Cfg c = gen_cfg(r); c.disc = 0.1;
  auto ps = cur::all(c.k, c.s, c.disc), rs = ref::all(c.k, c.s, c.disc);
  for (int rep = 0; rep < 12; rep++)
  {
    Query q = gen_query(r, c, r.i(3) ? -1 : (r.b() ? 6 : 13));
    R.c("queries"); R.c("class_" + std::to_string(q.cls));
    double lbR = rs[RS]->dist(q.a, q.b), lbF = INFINITY, lbB = INFINITY;
    { Dub f = own_dubins(q.a, q.b, c.k, 1), b = own_dubins(q.a, q.b, c.k, -1); lbF = f.len; lbB = b.len; }
    for (int id = 0; id < NPLANNERS; id++)
    {
      if (id == RS || id == DUBINS_F || id == DUBINS_B) continue;
      Planner &p = *ps[id];
      NOW("%s %s start=%s goal=%s", p.name.c_str(), str(c).c_str(), str(q.a).c_str(), str(q.b).c_str());
      double D = p.dist(q.a, q.b), Dr = rs[id]->dist(q.a, q.b);
      R.c("planner_queries");
      if (!(std::isfinite(D) && D >= 0)) { R.bad("distance_invalid:" + p.name, fmt("%s: distance %g", g_now, D)); continue; }
      if (r.i(8) == 0) { An A = analyse(p, q.a, p.ctl(q.a, q.b)); note(R, p, A, c, q); }
      // (1) not longer than a feasible member of the family (witness: path of the reference copy)
      if (D > Dr + 1e-6 * (1 + Dr) && witness_ok(*rs[id], q.a, q.b, Dr))
        judge(R, id, c, q, "longer_than_witness", p, (D - Dr) / (1 + Dr), 1e-6, INFINITY, [Dr](const Planner &p, const St &a, const St &b) { return std::fabs(p.dist(a, b) - Dr) / (1 + Dr); }, false, fmt("distance %.12g, feasible path of length %.12g: %s", D, Dr, str(rs[id]->ctl(q.a, q.b)).c_str()),
          [Dr](const Planner &p, const St &a, const St &b) { return std::max(0., p.dist(a, b) - Dr) / (1 + Dr); });
      else R.c("witness_not_shorter");
      // (2) never shorter than the optimal path without curvature constraints on its derivative
      double lb = p.dir > 0 ? lbF : (p.dir < 0 ? lbB : lbR);
      if (std::isfinite(lb) && !degenerate(p, q.a, q.b))
      {
        // the bound is discontinuous and the library resolves poses to 1e-4 only: take the smallest bound nearby
        auto bound = [](const Planner &p, const St &a, const St &b) {
          Rng r(4711); auto rsp = p.dir ? std::unique_ptr<Planner>() : ref::make(RS, p.km, p.sm, 0.1);
          double lb = INFINITY;
          for (int i = 0; i < 80; i++)
          {
            double e = i ? r.lg(1e-9, 4e-4) : 0; St b2 = b; b2.x += e * r.u(-1, 1); b2.y += e * r.u(-1, 1); b2.th += e * r.u(-1, 1);
            lb = std::min(lb, p.dir ? own_dubins(a, b2, p.km, p.dir).len : rsp->dist(a, b2));
          }
          return lb;
        };
        double e = std::max(0., lb - D) / (1 + lb);
        R.c("lower_bound_compared");
        if (e > 2e-6) { lb = bound(p, q.a, q.b); e = std::max(0., lb - D) / (1 + lb); R.c("lower_bound_refined"); }
        judge(R, id, c, q, "shorter_than_optimum", p, e, 1e-5, INFINITY, [&](const Planner &p, const St &a, const St &b) { double lb = bound(p, a, b); return std::max(0., lb - p.dist(a, b)) / (1 + lb); }, false, fmt("distance %.12g, optimal %s path %.12g", D, p.dir ? "Dubins" : "Reeds-Shepp", lb));
      }
      // (3) a free sign of the start or goal curvature costs the minimum of both signs
      if ((p.k0 == 'p' || p.k1 == 'p') && r.i(2) == 0)
      {
        auto freesign = [](const Planner &p, const St &a, const St &b) {
          St a0 = a, b0 = b; if (p.k0 == 'p') a0.k = 0; if (p.k1 == 'p') b0.k = 0;
          double D0 = p.dist(a0, b0), m = INFINITY;
          for (int i = -1; i <= 1; i += 2) for (int j = -1; j <= 1; j += 2) { St a1 = a, b1 = b; if (p.k0 == 'p') a1.k = i * p.km; if (p.k1 == 'p') b1.k = j * p.km; m = std::min(m, p.dist(a1, b1)); }
          return std::fabs(D0 - m) / (1 + m);
        };
        R.c("free_sign_compared");
        judge(R, id, c, q, "free_sign", p, freesign(p, q.a, q.b), 1e-6, INFINITY, freesign, false, "", freesign);
      }
      // (4) arbitrary curvature: minimum over the predicted states
      if (p.k0 == 'a' && r.b())
      {
        double V = via_predicted(p, ps, q.a, q.b);
        Metric m = [](const Planner &p, const St &a, const St &b) { auto ps = ref::all(p.km, p.sm, 0.1); double V = via_predicted(p, ps, a, b); return std::fabs(p.dist(a, b) - V) / (1 + V); };
        Metric mc = [&ps](const Planner &p, const St &a, const St &b) { double V = via_predicted(p, ps, a, b); return std::fabs(p.dist(a, b) - V) / (1 + V); };
        R.c("composition_compared");
        double e = (D - V) / (1 + V);
        judge(R, id, c, q, "longer_than_composition", p, std::max(0., e), 1e-6, INFINITY, m, false, fmt("distance %.12g, via predicted states %.12g", D, V), mc);
        // shorter only by a direct connection on a common clothoid, which is at most one clothoid long
        if (D > 2 * c.k / c.s + 1e-6) judge(R, id, c, q, "shorter_than_composition", p, std::max(0., -e), 1e-6, INFINITY, m, false, fmt("distance %.12g, via predicted states %.12g", D, V), mc);
      }
    }
  }
}
// ------------------------------------------------------------------------------------------------ C10
struct Sym { const char *name; int id2; St a, b; double scale; double k, s; };
static St rigid(const St &p, double x, double y, double th) { return St{ x + p.x * std::cos(th) - p.y * std::sin(th), y + p.x * std::sin(th) + p.y * std::cos(th), p.th + th, p.k, p.d }; }
static St mirror(const St &p) { return St{ p.x, -p.y, -p.th, -p.k, p.d }; }
static St turned(const St &p) { return St{ p.x, p.y, p.th + PI_, -p.k, p.d }; }
static int other_dir(int id) { return id < DUBINS_B ? id + 6 : (id < RS ? id - 6 : id); }
static int reversed(int id)
{
  switch (id) { case HC0PM: return HCPM0; case HCPM0: return HC0PM; case CC0PM_F: return CCPM0_F; case CCPM0_F: return CC0PM_F; case CC0PM_B: return CCPM0_B; case CCPM0_B: return CC0PM_B; }
  return id;
}
MON(C10)
{
  Rng r(mix(seed, idx));
  Cfg c = gen_cfg(r); c.disc = 0.1;
  auto ps = cur::all(c.k, c.s, c.disc);
  double lam = r.i(3) ? r.lg(0.5, 2) : std::pow(2., r.i(3) - 1);
  Cfg c2 = c; c2.k = c.k / lam; c2.s = c.s / lam / lam;
  auto sc = cur::all(c2.k, c2.s, c.disc);
  for (int rep = 0; rep < 3; rep++)
  {
    Query q = gen_query(r, c);
    double gx = r.u(-20, 20), gy = r.u(-20, 20), gt = r.i(4) ? r.u(-7, 7) : (r.i(9) - 4) * PI_ / 2; int w1 = r.i(21) - 10, w2 = r.i(21) - 10;
    if (r.i(4) == 0) gx = gy = 0; else if (r.i(4) == 0) gt = 0;
    R.c("queries"); R.c("class_" + std::to_string(q.cls));
    for (int id = 0; id < NPLANNERS; id++)
    {
      Planner &p = *ps[id];
      double D = p.dist(q.a, q.b);
      if (r.i(8) == 0) { An A = analyse(p, q.a, p.ctl(q.a, q.b)); note(R, p, A, c, q); }
      // every symmetry is a map (planner, start, goal) -> (planner', start', goal', factor)
      typedef std::function<double(const Planners &, const Planners &, const St &, const St &)> F;
      std::vector<std::pair<const char *, F>> syms = {
        { "rigid_motion", [=](const Planners &P, const Planners &, const St &a, const St &b) { return P[id]->dist(rigid(a, gx, gy, gt), rigid(b, gx, gy, gt)); } },
        { "two_pi", [=](const Planners &P, const Planners &, const St &a, const St &b) { St a2 = a, b2 = b; a2.th += w1 * 2 * PI_; b2.th += w2 * 2 * PI_; return P[id]->dist(a2, b2); } },
        { "mirror", [=](const Planners &P, const Planners &, const St &a, const St &b) { return P[id]->dist(mirror(a), mirror(b)); } },
        { "swap", [=](const Planners &P, const Planners &, const St &a, const St &b) { return P[other_dir(reversed(id))]->dist(b, a); } },
        { "turn_around", [=](const Planners &P, const Planners &, const St &a, const St &b) { return P[other_dir(id)]->dist(turned(a), turned(b)); } },
        { "scale", [=](const Planners &, const Planners &S, const St &a, const St &b) { St a2{ a.x * lam, a.y * lam, a.th, a.k / lam, a.d }, b2{ b.x * lam, b.y * lam, b.th, b.k / lam, b.d }; return S[id]->dist(a2, b2) / lam; } },
      };
      for (auto &s : syms)
      {
        NOW("%s %s start=%s goal=%s %s", p.name.c_str(), str(c).c_str(), str(q.a).c_str(), str(q.b).c_str(), s.first);
        double D2 = s.second(ps, sc, q.a, q.b), e = std::fabs(D2 - D) / (1 + D);
        if (!(e == e)) e = INFINITY;
        R.c(std::string(s.first) + "_pairs");
        F f = s.second;
        judge(R, id, c, q, s.first, p, e, 1e-6, INFINITY, [=](const Planner &p, const St &a, const St &b) {
          auto P = ref::all(p.km, p.sm, 0.1), S = ref::all(p.km / lam, p.sm / lam / lam, 0.1);
          double Da = P[id]->dist(a, b), Db = f(P, S, a, b);
          return std::max(std::fabs(Da - Db) / (1 + Da), std::fabs(Da - D) / (1 + D)); }, false, fmt("distance %.12g, transformed %.12g; rotation by %.9g shift %.9g,%.9g turns %d,%d scale %.9g", D, D2, gt, gx, gy, w1, w2, lam),
          [&](const Planner &, const St &a, const St &b) { double Da = ps[id]->dist(a, b); return std::fabs(Da - f(ps, sc, a, b)) / (1 + Da); });
      }
    }
  }
}
