// C01-C06: monitors over the trace (controls, sampled states, interpolated states, distance) of a query
#include "trace.hpp"

// ------------------------------------------------------------------------------------------------ C01
MON(C01)
{
  each(R, seed, idx, [&](Rng &r, const Cfg &c, const Query &q, int id, Planner &p) {
    auto cs = p.ctl(q.a, q.b);
    An A = analyse(p, q.a, cs);
    if (!A.ok) { R.bad("no-path:" + p.name, fmt("%s: empty or non-finite controls %s", g_now, str(cs).c_str())); return; }
    note(R, p, A, c, q);
    Metric mctl = [](const Planner &p, const St &a, const St &b) { An A = analyse(p, a, p.ctl(a, b)); return A.ok ? pose_err(A.e.x, A.e.y, A.e.th, b, A.len) : INFINITY; };
    judge(R, id, c, q, "controls_end", p, pose_err(A.e.x, A.e.y, A.e.th, q.b, A.len), 1e-6, 1.5e-3 * (c.broad ? 3 : 1), mctl, false, str(cs));
    double lp = 5e-3 * loose_len(c);
    if (A.len / c.disc > 20000) { R.c("path_skipped_too_many_states"); return; }
    int what = r.i(8); // sampled path always, the two others in turn
    {
      auto P = p.path(q.a, q.b);
      R.c("states", P.size());
      if (P.empty()) { R.bad("no-path:" + p.name, fmt("%s: empty path", g_now)); return; }
      for (auto &s : P) if (!finite(s)) { R.bad("non-finite:" + p.name, fmt("%s: non-finite state in path", g_now)); return; }
      const St &f = P.front(), &e = P.back();
      if (!(std::hypot(f.x - q.a.x, f.y - q.a.y) <= 1e-9 * (1 + std::fabs(q.a.x) + std::fabs(q.a.y)) && std::fabs(wrapa(f.th - q.a.th)) <= 1e-9 * (1 + std::fabs(q.a.th))))
        R.bad("path_start:" + p.name, fmt("%s: path starts at %s", g_now, str(f).c_str()));
      judge(R, id, c, q, "path_end", p, pose_err(e.x, e.y, e.th, q.b, A.len), 1e-6, lp, [](const Planner &p, const St &a, const St &b) { auto P = p.path(a, b); double L = 0; for (auto &u : p.ctl(a, b)) L += std::fabs(u.ds); return P.empty() ? INFINITY : pose_err(P.back().x, P.back().y, P.back().th, b, L); });
    }
    if (what == 0)
    {
      p.filt(some_noise());
      auto P = p.pathc(with_cov(q.a), q.b);
      if (P.empty()) { R.bad("no-path:" + p.name, fmt("%s: empty path with covariance", g_now)); return; }
      R.c("states_with_covariance", P.size());
      const St &f = P.front().q, &e = P.back().q;
      if (!finite(f) || !finite(e)) { R.bad("non-finite:" + p.name, fmt("%s: non-finite state in path with covariance", g_now)); return; }
      if (!(std::hypot(f.x - q.a.x, f.y - q.a.y) <= 1e-9 * (1 + std::fabs(q.a.x) + std::fabs(q.a.y)) && std::fabs(wrapa(f.th - q.a.th)) <= 1e-9 * (1 + std::fabs(q.a.th))))
        R.bad("pathcov_start:" + p.name, fmt("%s: path with covariance starts at %s", g_now, str(f).c_str()));
      judge(R, id, c, q, "pathcov_end", p, pose_err(e.x, e.y, e.th, q.b, A.len), 1e-6, lp, [](const Planner &p, const St &a, const St &b) { auto &P0 = const_cast<Planner &>(p); P0.filt(some_noise()); auto P = p.pathc(with_cov(a), b); double L = 0; for (auto &u : p.ctl(a, b)) L += std::fabs(u.ds); return P.empty() ? INFINITY : pose_err(P.back().q.x, P.back().q.y, P.back().q.th, b, L); });
    }
    if (what <= 2)
    {
      St e = p.interp(q.a, cs, 1.0), f = p.interp(q.a, cs, 0.0);
      if (!finite(f) || !finite(e)) { R.bad("non-finite:" + p.name, fmt("%s: non-finite interpolated state", g_now)); return; }
      R.c("interpolated_ends");
      if (!(std::hypot(f.x - q.a.x, f.y - q.a.y) <= 1e-9 * (1 + std::fabs(q.a.x) + std::fabs(q.a.y)) && std::fabs(wrapa(f.th - q.a.th)) <= 1e-9 * (1 + std::fabs(q.a.th))))
        R.bad("interp_start:" + p.name, fmt("%s: interpolation at 0 gives %s", g_now, str(f).c_str()));
      judge(R, id, c, q, "interp_end", p, pose_err(e.x, e.y, e.th, q.b, A.len), 1e-6, lp, [](const Planner &p, const St &a, const St &b) { auto cs = p.ctl(a, b); double L = 0; for (auto &u : cs) L += std::fabs(u.ds); St e = p.interp(a, cs, 1.0); return pose_err(e.x, e.y, e.th, b, L); });
    }
  });
}
// ------------------------------------------------------------------------------------------------ C02
static double kexcess_path(const Planner &p, const St &a, const St &b) { double m = 0; for (auto &s : p.path(a, b)) m = std::max(m, std::fabs(s.k)); return std::max(0., m / p.km - 1); }
MON(C02)
{
  each(R, seed, idx, [&](Rng &r, const Cfg &c, const Query &q, int id, Planner &p) {
    auto cs = p.ctl(q.a, q.b);
    An A = analyse(p, q.a, cs);
    if (!A.ok) { R.bad("no-path:" + p.name, fmt("%s: empty or non-finite controls", g_now)); return; }
    note(R, p, A, c, q);
    R.c("segments", cs.size());
    judge(R, id, c, q, "controls_curvature", p, std::max(0., A.kmax / c.k - 1), 1e-7, 5e-3 * (c.broad ? 10 : 1), [](const Planner &p, const St &a, const St &b) { An A = analyse(p, a, p.ctl(a, b)); return std::max(0., A.kmax / p.km - 1); }, false, str(cs));
    if (A.len / c.disc > 20000) return;
    double m = 0; auto P = p.path(q.a, q.b);
    for (auto &s : P) { if (!std::isfinite(s.k)) m = INFINITY; m = std::max(m, std::fabs(s.k)); }
    R.c("states", P.size());
    judge(R, id, c, q, "state_curvature", p, std::max(0., m / c.k - 1), 1e-7, 1e-2 * (c.broad ? 10 : 1), kexcess_path);
    // the curvature that can be observed from the poses alone: |dtheta| <= kappa_max * ds (chord <= arc)
    double g = 0;
    for (size_t i = 1; i < P.size(); i++)
    {
      double ch = std::hypot(P[i].x - P[i - 1].x, P[i].y - P[i - 1].y), dt = std::fabs(wrapa(P[i].th - P[i - 1].th));
      if (c.disc * c.k > 1.5 || ch < 1e-4 * (1 + 1e-3 * (std::fabs(P[i].x) + std::fabs(P[i].y)))) continue;
      // on a circle with curvature k: chord = 2/k*sin(k*s/2)
      double arc = 2 / c.k * std::asin(std::min(1., ch * c.k / 2));
      g = std::max(g, (dt - c.k * arc) - 1e-6);
    }
    judge(R, id, c, q, "observed_turn_rate", p, std::max(0., g), 1e-5, 2e-2 * (c.broad ? 10 : 1), [](const Planner &p, const St &a, const St &b) { auto P = p.path(a, b); double g = 0; for (size_t i = 1; i < P.size(); i++) { double ch = std::hypot(P[i].x - P[i - 1].x, P[i].y - P[i - 1].y), dt = std::fabs(wrapa(P[i].th - P[i - 1].th)); double arc = 2 / p.km * std::asin(std::min(1., ch * p.km / 2)); g = std::max(g, dt - p.km * arc); } return g; });
    for (int i = 0; i < 2; i++)
    {
      St s = p.interp(q.a, cs, r.i(4) ? r.u() : (double)r.i(2));
      R.c("interpolated");
      double e = std::isfinite(s.k) ? std::max(0., std::fabs(s.k) / c.k - 1) : INFINITY;
      judge(R, id, c, q, "interp_curvature", p, e, 1e-7, 1e-2 * (c.broad ? 10 : 1), kexcess_path);
    }
  });
}
// ------------------------------------------------------------------------------------------------ C03
static double state_rate(const Planner &p, const std::vector<St> &P)
{ // curvature change between consecutive sampled states in excess of sigma_max*ds
  double m = 0;
  for (size_t i = 1; i < P.size(); i++)
  {
    double dk = std::fabs(P[i].k - P[i - 1].k), ch = std::hypot(P[i].x - P[i - 1].x, P[i].y - P[i - 1].y);
    double ds = p.disc * p.km < 1.2 ? std::min(p.disc, 2 / p.km * std::asin(std::min(1., ch * p.km / 2))) : p.disc;
    if (p.fam == 'H' && (P[i].d != P[i - 1].d || ch < 1e-6 || (i + 1 < P.size() && P[i + 1].d != P[i].d) )) continue;
    m = std::max(m, dk - p.sm * ds);
  }
  return m / (p.km);
}
MON(C03)
{
  each(R, seed, idx, [&](Rng &r, const Cfg &c, const Query &q, int id, Planner &p) {
    auto cs = p.ctl(q.a, q.b);
    An A = analyse(p, q.a, cs);
    if (!A.ok) { R.bad("no-path:" + p.name, fmt("%s: empty or non-finite controls", g_now)); return; }
    note(R, p, A, c, q);
    R.c("junctions", A.nseg ? A.nseg - 1 : 0);
    if (p.fam == 'D' || p.fam == 'R')
    {
      for (auto &u : cs) if (u.s != 0) { R.bad("sharpness_nonzero:" + p.name, fmt("%s: %s", g_now, str(cs).c_str())); break; }
      return;
    }
    judge(R, id, c, q, "sharpness", p, std::max(0., A.smax / c.s - 1), 1e-6, 0.1 * (c.broad ? 4 : 1), [](const Planner &p, const St &a, const St &b) { An A = analyse(p, a, p.ctl(a, b)); return std::max(0., A.smax / p.sm - 1); }, degenerate(p, q.a, q.b), str(cs));
    judge(R, id, c, q, "curvature_jump", p, A.jump / c.k, 1e-7, 3e-3 * (1 + c.s / c.k), [](const Planner &p, const St &a, const St &b) { return analyse(p, a, p.ctl(a, b)).jump / p.km; }, degenerate(p, q.a, q.b), str(cs));
    if (A.len / c.disc > 20000) return;
    auto P = p.path(q.a, q.b);
    R.c("states", P.size());
    double e = state_rate(p, P);
    judge(R, id, c, q, "state_curvature_rate", p, std::max(0., e), 2e-6 + 2e-7 * c.s / c.k * (1 + 1e-3 * (std::fabs(q.a.x) + std::fabs(q.a.y))), c.broad ? INFINITY : 0.02 * (1 + c.s / c.k), [](const Planner &p, const St &a, const St &b) { return std::max(0., state_rate(p, p.path(a, b))); }, degenerate(p, q.a, q.b));
  });
}
// ------------------------------------------------------------------------------------------------ C04
static double kconv(const Planner &p, char t, double user, double k)
{
  if (t == '0') return std::fabs(k);
  if (t == 'p') return user != 0 ? std::fabs(k - sgn1(user) * p.km) : std::fabs(std::fabs(k) - p.km);
  if (t == 'a') return std::fabs(k - user);
  return 0;
}
MON(C04)
{
  each(R, seed, idx, [&](Rng &r, const Cfg &c, const Query &q0, int id, Planner &p) {
    if (p.k0 == 'x') return;
    Query q = q0;
    auto cs = p.ctl(q.a, q.b);
    An A = analyse(p, q.a, cs);
    if (!A.ok) { R.bad("no-path:" + p.name, fmt("%s: empty or non-finite controls", g_now)); return; }
    note(R, p, A, c, q);
    bool dg = degenerate(p, q.a, q.b);
    double loose = 2.5e-4 * (1 + c.s) + 2e-3 * c.k;
    double strict = 1e-6 * c.k;
    auto rec = [&](const char *n, char t, double user, double k, Metric m) { R.c(std::string(n) + "_observed"); judge(R, id, c, q, n, p, std::isfinite(k) ? kconv(p, t, user, k) : INFINITY, strict, loose, m, dg, str(cs)); };
    rec("start_curvature", p.k0, q.a.k, A.k0, [](const Planner &p, const St &a, const St &b) { return kconv(p, p.k0, a.k, analyse(p, a, p.ctl(a, b)).k0); });
    rec("goal_curvature", p.k1, q.b.k, A.k1, [](const Planner &p, const St &a, const St &b) { return kconv(p, p.k1, b.k, analyse(p, a, p.ctl(a, b)).k1); });
    if (A.len / c.disc > 20000) return;
    if (r.b())
    {
      auto P = p.path(q.a, q.b);
      if (P.empty()) { R.bad("no-path:" + p.name, fmt("%s: empty path", g_now)); return; }
      loose = c.broad ? INFINITY : loose + 1e-3 * c.k;
      rec("path_start_curvature", p.k0, q.a.k, P.front().k, [](const Planner &p, const St &a, const St &b) { return kconv(p, p.k0, a.k, p.path(a, b).front().k); });
      rec("path_goal_curvature", p.k1, q.b.k, P.back().k, [](const Planner &p, const St &a, const St &b) { return kconv(p, p.k1, b.k, p.path(a, b).back().k); });
    }
    else
    {
      loose = c.broad ? INFINITY : loose + 1e-3 * c.k;
      rec("interp_start_curvature", p.k0, q.a.k, p.interp(q.a, cs, 0).k, [](const Planner &p, const St &a, const St &b) { return kconv(p, p.k0, a.k, p.interp(a, p.ctl(a, b), 0).k); });
      rec("interp_goal_curvature", p.k1, q.b.k, p.interp(q.a, cs, 1).k, [](const Planner &p, const St &a, const St &b) { return kconv(p, p.k1, b.k, p.interp(a, p.ctl(a, b), 1).k); });
    }
  });
}
// ------------------------------------------------------------------------------------------------ C05
MON(C05)
{
  each(R, seed, idx, [&](Rng &r, const Cfg &c, const Query &q, int id, Planner &p) {
    auto cs = p.ctl(q.a, q.b);
    An A = analyse(p, q.a, cs);
    if (!A.ok) { R.bad("no-path:" + p.name, fmt("%s: empty or non-finite controls", g_now)); return; }
    note(R, p, A, c, q);
    R.c("segments", cs.size());
    if (p.dir) judge(R, id, c, q, "wrong_direction", p, A.wrongdir, 1e-7, 2e-4, [](const Planner &p, const St &a, const St &b) { return analyse(p, a, p.ctl(a, b)).wrongdir; }, false, str(cs));
    if (A.len / c.disc > 20000) return;
    auto check = [&](const char *what, const std::vector<St> &P) {
      if (P.empty()) { R.bad("no-path:" + p.name, fmt("%s: empty %s", g_now, what)); return; }
      for (auto &s : P)
        if (!(s.d == 1 || s.d == -1 || s.d == 0)) { R.bad("d_range:" + p.name, fmt("%s: %s has a state with d=%g", g_now, what, s.d)); return; }
      if (std::fabs(cs.front().ds) > 1e-6 && P.front().d != sgn1(cs.front().ds)) R.bad("first_d:" + p.name, fmt("%s: first state of %s has d=%g, first segment %g", g_now, what, P.front().d, cs.front().ds));
      for (size_t i = 1; i < P.size(); i++)
      {
        double dx = P[i].x - P[i - 1].x, dy = P[i].y - P[i - 1].y, ch = std::hypot(dx, dy);
        if (ch < 1e-6 * (1 + std::fabs(P[i].x) + std::fabs(P[i].y)) || c.disc * c.k > 1.5) continue; // chord direction is the direction of motion for < 90 deg of turning
        double mid = P[i - 1].th + 0.5 * wrapa(P[i].th - P[i - 1].th);
        double along = dx * std::cos(mid) + dy * std::sin(mid);
        R.c("moves_observed");
        if (along * P[i].d <= 0) { R.bad("d_vs_motion:" + p.name, fmt("%s: %s moves %g along its heading but d=%g at %s", g_now, what, along, P[i].d, str(P[i]).c_str())); break; }
        if (p.dir && P[i].d != p.dir) { if (A.wrongdir < 1e-9) R.bad("d_vs_function:" + p.name, fmt("%s: %s has d=%g", g_now, what, P[i].d)); break; }
      }
    };
    check("path", p.path(q.a, q.b));
    if (r.i(6) == 0) { p.filt(some_noise()); std::vector<St> P; for (auto &s : p.pathc(with_cov(q.a), q.b)) P.push_back(s.q); check("path with covariance", P); }
    // interpolated states: direction of the segment that contains the arc length
    for (int k = 0; k < 3; k++)
    {
      size_t j = r.i((int)cs.size()); double before = 0; for (size_t i = 0; i < j; i++) before += std::fabs(cs[i].ds);
      double L = std::fabs(cs[j].ds);
      if (L < 1e-6 * (1 + A.len)) continue;
      St s = p.interp(q.a, cs, (before + L * r.u(0.01, 0.99)) / A.len);
      R.c("interpolated");
      if (s.d != sgn1(cs[j].ds)) R.bad("interp_d:" + p.name, fmt("%s: interpolated d=%g inside segment %zu of %s", g_now, s.d, j, str(cs).c_str()));
    }
  });
}
// ------------------------------------------------------------------------------------------------ C06
static double chordsum(const std::vector<St> &P) { double s = 0; for (size_t i = 1; i < P.size(); i++) s += std::hypot(P[i].x - P[i - 1].x, P[i].y - P[i - 1].y); return s; }
static double arcsum(const std::vector<St> &P)
{ // circular arc through consecutive states: exact for arcs and lines, third-order accurate for clothoids
  double s = 0;
  for (size_t i = 1; i < P.size(); i++)
  {
    double ch = std::hypot(P[i].x - P[i - 1].x, P[i].y - P[i - 1].y), dt = std::fabs(wrapa(P[i].th - P[i - 1].th));
    s += dt < 1e-6 ? ch : ch * (dt / 2) / std::sin(dt / 2);
  }
  return s;
}
MON(C06)
{
  each(R, seed, idx, [&](Rng &r, const Cfg &c, const Query &q, int id, Planner &p) {
    double D = p.dist(q.a, q.b);
    if (!(std::isfinite(D) && D >= 0)) { R.bad("distance_invalid:" + p.name, fmt("%s: distance %g", g_now, D)); return; }
    auto cs = p.ctl(q.a, q.b);
    An A = analyse(p, q.a, cs);
    if (!A.ok) { R.bad("no-path:" + p.name, fmt("%s: empty or non-finite controls", g_now)); return; }
    note(R, p, A, c, q);
    double sc = 1 + A.len;
    judge(R, id, c, q, "distance_vs_controls", p, std::fabs(D - A.len) / sc, 1e-8, 2e-3 * (c.broad ? 2 : 1), [](const Planner &p, const St &a, const St &b) { An A = analyse(p, a, p.ctl(a, b)); return std::fabs(p.dist(a, b) - A.len) / (1 + A.len); }, degenerate(p, q.a, q.b), fmt("distance %.12g controls %.12g", D, A.len));
    double eu = std::hypot(q.a.x - q.b.x, q.a.y - q.b.y), he = std::fabs(wrapa(q.a.th - q.b.th)) / c.k;
    judge(R, id, c, q, "below_euclidean", p, std::max(0., eu - D), 1e-6 * (1 + eu) + 1e-9 * (std::fabs(q.a.x) + std::fabs(q.a.y)), 1e-3 * (1 + 0.2 / c.k) * (1 + 1e-2 * eu), [](const Planner &p, const St &a, const St &b) { return std::max(0., std::hypot(a.x - b.x, a.y - b.y) - p.dist(a, b)); });
    judge(R, id, c, q, "below_heading_bound", p, std::max(0., he - D), 1e-6 * (1 + he) * (1 + 1e-3 * (std::fabs(q.a.th) + std::fabs(q.b.th))), 2e-3 * (1 + 1 / c.k), [](const Planner &p, const St &a, const St &b) { return std::max(0., std::fabs(wrapa(a.th - b.th)) / p.km - p.dist(a, b)); });
    if (c.disc * c.k < 0.5 && A.len / c.disc < 5000 && r.b())
    {
      auto P = p.path(q.a, q.b);
      R.c("states", P.size());
      double far = 1e-9 * (1 + std::fabs(q.a.x) + std::fabs(q.a.y)) * P.size();
      double ch = chordsum(P), ar = arcsum(P);
      judge(R, id, c, q, "path_longer_than_distance", p, std::max(0., ch - D - far) / sc, 1e-6, 2e-3 * (c.broad ? 2 : 1), [](const Planner &p, const St &a, const St &b) { double D = p.dist(a, b); return std::max(0., chordsum(p.path(a, b)) - D) / (1 + D); });
      judge(R, id, c, q, "path_length_vs_distance", p, std::max(0., std::fabs(ar - D) - far) / sc, 1e-3 * std::min(1., c.s / c.k * c.disc) + 1e-5, 3e-3 * (c.broad ? 3 : 1) * (1 + c.s * c.disc * c.disc), [](const Planner &p, const St &a, const St &b) { double D = p.dist(a, b); return std::fabs(arcsum(p.path(a, b)) - D) / (1 + D); });
    }
    // identical states in every representation
    if (id == 0 || r.i(3) == 0)
    {
      St a2 = q.a; int w = r.i(9) - 4; a2.th += w * 2 * PI_;
      double E = p.dist(q.a, a2);
      R.c("identical_pairs");
      if (!(E >= 0 && E <= 1e-6)) R.bad("identical_nonzero:" + p.name, fmt("%s %s: distance of %s to itself (+%d*2*pi) is %.9g", p.name.c_str(), str(c).c_str(), str(q.a).c_str(), w, E));
      double l = 0; for (auto &u : p.ctl(q.a, a2)) l += std::fabs(u.ds);
      if (!(l <= 1e-6)) R.bad("identical_controls:" + p.name, fmt("%s %s: controls of %s to itself (+%d*2*pi) have length %.9g", p.name.c_str(), str(c).c_str(), str(q.a).c_str(), w, l));
    }
  });
}
