// C11-C13: sampling, interpolation and covariance propagation
#include "integ.hpp"
#include "jac.hpp"

// ------------------------------------------------------------------------------------------------ C11
static double match_dev(const Planner &p, const St &a, const St &b) { auto m = match(a, p.ctl(a, b), p.path(a, b), p.disc, 0.05); return m.structural ? 0.05 : m.dev; }
MON(C11)
{
  Rng r(mix(seed, idx));
  Cfg c = gen_cfg(r);
  // (1) arbitrary control sequences: exact
  for (int rep = 0; rep < 4; rep++)
  {
    double disc = r.i(3) ? r.lg(0.01, 2) : (r.b() ? 0.1 : r.lg(2, 50));
    bool deep = deep_case(r, disc);
    int id = r.i(NPLANNERS);
    auto p = cur::make(id, c.k, c.s, disc);
    auto cs = random_controls(r, p->fam == 'C' || p->fam == 'H', disc, deep);
    if (deep) R.c("deep_sequences");
    St a = random_state(r);
    NOW("%s discretization=%.17g integrate start=%s controls=%s", p->name.c_str(), disc, str(a).c_str(), str(cs).c_str());
    auto P = p->integ(a, cs);
    R.c("random_sequences"); R.c("random_states", P.size()); R.see(ctl_sig(cs, p->fam));
    if (R.samples.size() < 2) R.sample(g_now);
    Match M = match(a, cs, P, disc, 1e-8);
    R.w("random_controls_deviation", M.structural ? 0 : M.dev);
    if (M.structural) R.bad("integrate:" + p->name, fmt("%s: %s", g_now, M.why.c_str()));
    if (P.empty()) continue;
    // the first state has the curvature and direction of the first control
    if (P[0].k != cs[0].k || P[0].d != sgn1(cs[0].ds)) R.bad("first_state:" + p->name, fmt("%s: first state %s", g_now, str(P[0]).c_str()));
    // covariance path visits the same states
    if (r.i(3) == 0)
    {
      p->filt(some_noise());
      auto Q = p->integc(with_cov(a), cs); R.c("with_covariance");
      bool same = Q.size() == P.size();
      for (size_t i = 0; same && i < P.size(); i++) same = std::fabs(Q[i].q.x - P[i].x) + std::fabs(Q[i].q.y - P[i].y) + std::fabs(wrapa(Q[i].q.th - P[i].th)) + std::fabs(Q[i].q.k - P[i].k) + std::fabs(Q[i].q.d - P[i].d) <= 1e-10 * (1 + std::fabs(P[i].x) + std::fabs(P[i].y));
      if (!same) R.bad("integrate_with_covariance:" + p->name, fmt("%s: states differ from those of integrate (%zu and %zu)", g_now, Q.size(), P.size()));
    }
  }
  // (2) controls of the planners
  auto ps = cur::all(c.k, c.s, c.disc);
  Query q = gen_query(r, c);
  double disc2 = c.disc * r.lg(0.3, 3);
  for (int id = 0; id < NPLANNERS; id++)
  {
    Planner &p = *ps[id];
    if (r.i(3)) continue;
    NOW("%s %s start=%s goal=%s", p.name.c_str(), str(c).c_str(), str(q.a).c_str(), str(q.b).c_str());
    auto cs = p.ctl(q.a, q.b);
    An A = analyse(p, q.a, cs);
    if (!A.ok || A.len / std::min(c.disc, disc2) > 4000) continue;
    auto P = p.path(q.a, q.b);
    R.c("planner_paths"); R.c("planner_states", P.size()); R.see(mix(A.sig, id));
    Match M = match(q.a, cs, P, c.disc, 0.05);
    if (M.structural && M.dev < INFINITY) M.dev = 0.05;
    judge(R, id, c, q, "path_vs_controls", p, M.dev, 1e-7, c.broad ? INFINITY : 5e-3, match_dev, degenerate(p, q.a, q.b), M.why);
    auto p2 = cur::make(id, c.k, c.s, disc2);
    auto cs2 = p2->ctl(q.a, q.b); double D1 = p.dist(q.a, q.b), D2 = p2->dist(q.a, q.b);
    bool same = cs.size() == cs2.size() && std::fabs(D1 - D2) <= 1e-12 * (1 + D1);
    for (size_t i = 0; same && i < cs.size(); i++) same = std::fabs(cs[i].ds - cs2[i].ds) <= 1e-12 * (1 + A.len) && std::fabs(cs[i].k - cs2[i].k) <= 1e-12 * (1 + c.k) && std::fabs(cs[i].s - cs2[i].s) <= 1e-12 * (1 + c.s);
    if (!same) R.bad("discretization_dependence:" + p.name, fmt("%s: with discretization %.17g distance %.12g instead of %.12g, controls %s instead of %s", g_now, disc2, D2, D1, str(cs2).c_str(), str(cs).c_str()));
    // end states at two resolutions
    auto P2 = p2->path(q.a, q.b);
    if (!P.empty() && !P2.empty())
    {
      double e = pose_err(P.back().x, P.back().y, P.back().th, P2.back(), A.len);
      judge(R, id, c, q, "end_vs_discretization", p, e, 1e-7, c.broad ? INFINITY : 5e-3, [disc2, id](const Planner &p, const St &a, const St &b) { auto p2 = ref::make(id, p.km, p.sm, disc2); auto P = p.path(a, b), P2 = p2->path(a, b); double L = 0; for (auto &u : p.ctl(a, b)) L += std::fabs(u.ds); return pose_err(P.back().x, P.back().y, P.back().th, P2.back(), L); }, degenerate(p, q.a, q.b));
    }
  }
}
// ------------------------------------------------------------------------------------------------ C12
static double interp_dev(const St &a, const std::vector<Ct> &cs, double t, const St &s, std::string *why = nullptr)
{
  Exact E(a, cs);
  double far = 1e-6 * (std::fabs(a.x) + std::fabs(a.y) + std::fabs(a.th)), km = 0; for (auto &u : cs) km = std::max(km, std::fabs(u.k));
  double x = t <= 0 ? 0 : (t > 1 ? E.len : t * E.len), best = INFINITY, ts = 1e-9 * (1 + E.len);
  for (size_t i = 0; i < cs.size(); i++)
  {
    double l = x - E.S[i];
    if (l < -ts || l > E.L(i) + ts) continue;
    l = std::max(0., std::min(E.L(i), l));
    Pose q = E.at(i, l);
    double v = dev(s, q, E.d(i), E.len, far, km);
    if (why) *why += fmt("[segment %zu: x=%.12g y=%.12g theta=%.12g kappa=%.12g d=%g] ", i, q.x, q.y, q.th, q.k, E.d(i));
    best = std::min(best, v);
  }
  return best;
}
MON(C12)
{
  Rng r(mix(seed, idx));
  Cfg c = gen_cfg(r);
  auto pick = [&](const std::vector<Ct> &cs) {
    double len = 0, part = 0; for (auto &u : cs) len += std::fabs(u.ds);
    int j = r.i((int)cs.size() + 1); for (int i = 0; i < j; i++) part += std::fabs(cs[i].ds);
    double bt = len > 0 ? part / len : 0.;
    switch (r.i(9))
    {
      case 0: return 0.; case 1: return 1.; case 2: return r.b() ? -r.lg(1e-300, 1e3) : -0.; case 3: return 1 + r.lg(1e-15, 1e3);
      case 4: return bt; case 5: return bt * (1 + r.sg() * r.lg(1e-16, 1e-3)); case 6: return r.b() ? r.lg(1e-300, 1) : 1 - r.lg(1e-16, 1);
      default: return r.u();
    }
  };
  for (int rep = 0; rep < 4; rep++)
  {
    double disc = r.i(3) ? r.lg(0.01, 2) : (r.b() ? 0.1 : r.lg(2, 50));
    bool deep = deep_case(r, disc);
    int id = r.i(NPLANNERS);
    auto p = cur::make(id, c.k, c.s, disc);
    auto cs = random_controls(r, p->fam == 'C' || p->fam == 'H', disc, deep);
    if (deep) R.c("deep_sequences");
    St a = random_state(r);
    for (int k = 0; k < 6; k++)
    {
      double t = pick(cs);
      NOW("%s discretization=%.17g interpolate t=%.17g start=%s controls=%s", p->name.c_str(), disc, t, str(a).c_str(), str(cs).c_str());
      St s = p->interp(a, cs, t);
      R.c("random_interpolations"); R.see(ctl_sig(cs, p->fam)); if (R.samples.size() < 2) R.sample(fmt("%s -> %s", g_now, str(s).c_str()));
      double v = interp_dev(a, cs, t, s);
      if (v <= 1e-8) { R.w("random_controls_deviation", v); continue; }
      std::string why; interp_dev(a, cs, t, s, &why);
      R.bad("interpolate:" + p->name, fmt("%s: result %s, expected one of %s", g_now, str(s).c_str(), why.c_str()));
    }
  }
  auto ps = cur::all(c.k, c.s, c.disc);
  Query q = gen_query(r, c);
  for (int id = 0; id < NPLANNERS; id++)
  {
    Planner &p = *ps[id];
    if (r.i(3)) continue;
    NOW("%s %s start=%s goal=%s", p.name.c_str(), str(c).c_str(), str(q.a).c_str(), str(q.b).c_str());
    auto cs = p.ctl(q.a, q.b);
    An A = analyse(p, q.a, cs);
    if (!A.ok || A.len / c.disc > 4000) continue;
    R.see(mix(A.sig, id));
    for (int k = 0; k < 3; k++)
    {
      double t = pick(cs);
      St s = p.interp(q.a, cs, t);
      R.c("planner_interpolations");
      double v = interp_dev(q.a, cs, t, s);
      if (v <= 1e-7) continue;
      // tiny segments (d) are ambiguous within the resolution: measure the same on the reference
      judge(R, id, c, q, "interpolate_planner", p, std::min(v, 1.), 1e-7, c.broad ? INFINITY : 5e-3, [t](const Planner &p, const St &a, const St &b) { auto cs = p.ctl(a, b); return std::min(1., interp_dev(a, cs, t, p.interp(a, cs, t))); }, degenerate(p, q.a, q.b), fmt("t=%.17g result %s controls %s", t, str(s).c_str(), str(cs).c_str()));
    }
    // agreement with the sampled path: the last state, and the states at segment ends
    auto P = p.path(q.a, q.b); St e = p.interp(q.a, cs, 1.0);
    if (!P.empty())
    {
      const St &f = P.back();
      double v = std::max(pose_err(e.x, e.y, e.th, f, A.len), std::fabs(e.k - f.k) / (1 + c.k));
      R.c("end_agreement");
      if (!(v <= 1e-9 * (1 + std::fabs(f.x) + std::fabs(f.y)))) judge(R, id, c, q, "end_vs_path", p, v, 1e-8 * (1 + std::fabs(f.x) + std::fabs(f.y)), 1e-4, [](const Planner &p, const St &a, const St &b) { auto cs = p.ctl(a, b); St e = p.interp(a, cs, 1.0), f = p.path(a, b).back(); return std::max(pose_err(e.x, e.y, e.th, f, 1), std::fabs(e.k - f.k) / (1 + p.km)); });
    }
  }
}
// ------------------------------------------------------------------------------------------------ C13
static void check_cov(Rep &R, const Planner &p, const Sc &a, const std::vector<Ct> &cs, const std::vector<Sc> &P, const Noise &n, double tol)
{
  std::vector<St> Q; for (auto &s : P) Q.push_back(s.q);
  Match M = match(a.q, cs, Q, p.disc, tol);
  if (M.structural) { R.c("unmatched_paths"); }
  if (P.empty()) { R.bad("no-path:" + p.name, fmt("%s: empty path with covariance", g_now)); return; }
  for (int i = 0; i < 16; i++) if (P[0].S[i] != a.S[i] || P[0].L[i] != a.L[i] || std::fabs(P[0].C[i] - a.C[i]) > 1e-15) { R.bad("initial_covariance:" + p.name, fmt("%s: covariance of the first state differs from the given one", g_now)); return; }
  M3 ES = M3::Zero(), EL = M3::Zero(); // round-off so far, propagated by the (possibly unstable) closed loop
  for (size_t j = 1; j < P.size(); j++)
  {
    M3 S = get(P[j].S), L = get(P[j].L), C = get(P[j].C), S0 = get(P[j - 1].S), L0 = get(P[j - 1].L);
    bool tiny = M.structural || (M.ds[j] != 0 && M.ds[j] < 1e-8);
    const Ct *u = M.structural ? nullptr : &cs[M.seg[j]]; const St &s = P[j - 1].q;
    M3 S2 = S0, L2 = L0; double loc = 0; M3 fs = M3::Identity(), fl = M3::Identity();
    if (M.structural) own_step(s, 1, 0, std::hypot(P[j].q.x - s.x, P[j].q.y - s.y), n, S0, L0, S2, L2, loc, &fs, &fl);
    else if (M.ds[j] != 0) own_step(s, sgn1(u->ds), u->s, std::max(M.ds[j], 0.), n, S0, L0, S2, L2, loc, &fs, &fl);
    double sc = 1e-9 + S2.norm() + L2.norm();
    if (!(sc < 1e6)) { R.c("stopped_large"); return; }
    for (int i = 0; i < 16; i++) if (!std::isfinite(P[j].S[i]) || !std::isfinite(P[j].L[i]) || !std::isfinite(P[j].C[i])) { R.bad("non-finite:" + p.name, fmt("%s: covariance of state %zu is not finite", g_now, j)); return; }
    R.c("covariances");
    for (int i = 0; i < 16; i++) if (std::fabs(P[j].C[i] - P[j].S[i] - P[j].L[i]) > 1e-9 * sc) { R.bad("covariance_sum:" + p.name, fmt("%s: state %zu covariance[%d]=%.9g but Sigma %.9g Lambda %.9g", g_now, j, i, P[j].C[i], P[j].S[i], P[j].L[i])); return; }
    for (int i = 0; i < 4; i++) for (int k : { 4 * i + 3, 12 + i }) if (P[j].S[k] != 0 || P[j].L[k] != 0 || P[j].C[k] != 0) { R.bad("kappa_covariance:" + p.name, fmt("%s: state %zu has a covariance of the curvature", g_now, j)); return; }
    R.w("asymmetry", ((S - S.transpose()).norm() + (L - L.transpose()).norm()) / sc); R.w("negative_eigenvalue", -std::min(min_eig(S), min_eig(L)) / sc);
    ES = fs * ES * fs.transpose() + loc * M3::Identity(); EL = fl * EL * fl.transpose() + ES + loc * M3::Identity();
    double round = EL.norm() + ES.norm();
    double lim = 1e-8 * sc + 10 * round;
    R.w("roundoff_bound", round / sc); if (10 * round > 1e-3 * sc) R.c("ill_conditioned");
    if ((S - S.transpose()).norm() > lim || (L - L.transpose()).norm() > lim) { R.bad("asymmetric:" + p.name, fmt("%s: covariance of state %zu is not symmetric", g_now, j)); return; }
    if ((min_eig(S) < -lim || min_eig(L) < -lim || min_eig(C) < -lim)) { R.bad("not_psd:" + p.name, fmt("%s: covariance of state %zu has eigenvalues %g %g %g", g_now, j, min_eig(S), min_eig(L), min_eig(C))); return; }
    if (tiny) { R.c("unmatched_steps"); continue; }
    if (M.ds[j] == 0)
    { // repeated state: nothing moves
      double e = 0; for (int i = 0; i < 16; i++) e = std::max(e, std::fabs(P[j].S[i] - P[j - 1].S[i]) + std::fabs(P[j].L[i] - P[j - 1].L[i]));
      if (e > 1e-12 * sc) { R.bad("repeated_state:" + p.name, fmt("%s: covariance changes by %g at the repeated state %zu", g_now, e, j)); return; }
      R.c("repeated_states"); continue;
    }
    auto edge = [](double v) { v = std::fabs(v); return v > 5e-5 && v < 1e-3; };
    if (edge(u->s) || edge(s.k)) continue;
    Pose o = drive(Pose{ s.x, s.y, s.th, s.k }, sgn1(u->ds), std::fabs(u->s) <= 1e-4 ? 0 : u->s, M.ds[j]);
    if (std::hypot(o.x - P[j].q.x, o.y - P[j].q.y) > 1e-7 * M.ds[j] + 1e-12 * (std::fabs(s.x) + std::fabs(s.y)) || std::fabs(wrapa(o.th - P[j].q.th)) > 1e-7 * M.ds[j] + 1e-12) { R.c("unmatched_steps"); continue; } // not this step (C11 decides whether it is right)
    double e = std::max((S - S2).norm(), (L - L2).norm());
    R.c("filter_steps"); R.w("filter_step_deviation", e / sc);
    double lin = u->s == 0 || std::fabs(u->s) <= 1e-4 ? 1 : 1 + 0.0025 / (u->s * u->s); // the formulas for clothoids divide by sigma
    if (!(e <= 3e-6 * sc * lin + 100 * loc)) { R.bad("filter_step:" + p.name, fmt("%s: step of length %.9g in segment %d to state %zu: Sigma/Lambda deviate by %.3g of %.3g", g_now, M.ds[j], M.seg[j], j, e, sc)); return; }
  }
}
MON(C13)
{
  Rng r(mix(seed, idx));
  Cfg c = gen_cfg(r);
  Noise n = gen_noise(r);
  for (int rep = 0; rep < 3; rep++)
  {
    double disc = r.i(3) ? r.lg(0.03, 1) : (r.b() ? 0.1 : r.lg(0.5, 3));
    bool deep = deep_case(r, disc);
    int id = r.i(NPLANNERS);
    auto p = cur::make(id, c.k, c.s, disc);
    p->filt(n);
    auto cs = random_controls(r, p->fam == 'C' || p->fam == 'H', disc, deep);
    if (deep) R.c("deep_sequences");
    Sc a; a.q = random_state(r); gen_cov(r, a);
    NOW("%s discretization=%.17g start=%s controls=%s", p->name.c_str(), disc, str(a.q).c_str(), str(cs).c_str());
    auto P = p->integc(a, cs);
    R.c("random_sequences"); R.see(ctl_sig(cs, p->fam)); if (R.samples.size() < 2) R.sample(g_now);
    check_cov(R, *p, a, cs, P, n, 1e-6);
    if (r.i(4) == 0)
    { // a start state whose covariance is not that of Sigma and Lambda: kept as it is, without influence on what follows
      Sc a2 = a; for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) a2.C[4 * i + k] = r.i(3) ? r.u(-1, 1) : 0.;
      auto P2 = p->integc(a2, cs); bool ok = P2.size() == P.size() && !P2.empty(); R.c("unrelated_covariances");
      for (int i = 0; ok && i < 16; i++) ok = P2[0].C[i] == a2.C[i] && P2[0].S[i] == a.S[i] && P2[0].L[i] == a.L[i];
      if (ok && P2.size() > 1) for (int i = 0; ok && i < 16; i++) ok = !(std::fabs(P2.back().S[i] - P.back().S[i]) > 1e-12 * (1 + std::fabs(P.back().S[i])) || std::fabs(P2.back().L[i] - P.back().L[i]) > 1e-12 * (1 + std::fabs(P.back().L[i])));
      if (!ok) R.bad("given_covariance:" + p->name, fmt("%s: a given covariance other than Sigma + Lambda is not kept in the first state or changes the last one", g_now));
    }
  }
  c.disc = std::min(c.disc, r.lg(0.05, 2));
  auto ps = cur::all(c.k, c.s, c.disc);
  Query q = gen_query(r, c); Sc a; a.q = q.a; gen_cov(r, a);
  for (int id = 0; id < NPLANNERS; id++)
  {
    if (r.i(4)) continue;
    Planner &p = *ps[id];
    NOW("%s %s start=%s goal=%s", p.name.c_str(), str(c).c_str(), str(q.a).c_str(), str(q.b).c_str());
    auto cs = p.ctl(q.a, q.b); An A = analyse(p, q.a, cs);
    if (!A.ok || A.len / c.disc > 2000) continue;
    p.filt(n);
    auto P = p.pathc(a, q.b); auto Q = p.path(q.a, q.b);
    R.c("planner_paths"); R.see(mix(A.sig, id));
    bool same = P.size() == Q.size();
    for (size_t i = 0; same && i < P.size(); i++) same = std::fabs(Q[i].x - P[i].q.x) + std::fabs(Q[i].y - P[i].q.y) + std::fabs(wrapa(Q[i].th - P[i].q.th)) + std::fabs(Q[i].k - P[i].q.k) + std::fabs(Q[i].d - P[i].q.d) <= 1e-10 * (1 + std::fabs(Q[i].x) + std::fabs(Q[i].y));
    if (!same) { R.bad("mean_path:" + p.name, fmt("%s: the mean path differs from the nominal path (%zu and %zu states)", g_now, P.size(), Q.size())); continue; }
    check_cov(R, p, a, cs, P, n, 1e-2);
  }
}
