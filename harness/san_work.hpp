// workload for the sanitizers: every public call on every planner, hostile inputs, object lifetimes
#pragma once
#include <iostream>
#include <sstream>
#include "common.hpp"
#include "steering_functions/hc_cc_state_space/cc00_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/cc00_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/cc0pm_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/cc_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/ccpm0_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/ccpmpm_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hc00_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hc0pm_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hc_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hcpm0_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.hpp"
#include "steering_functions/filter/ekf.hpp"
#include "steering_functions/utilities/utilities.hpp"
#undef PI
template <class Sink> struct San
{
  Sink &o;
  San(Sink &s) : o(s) {}
  void eat(const St &s) { o.eat(&s, sizeof s, "state"); }
  void eat(const std::vector<St> &v) { if (!v.empty()) o.eat(v.data(), v.size() * sizeof(St), "states"); o.n("states", (long)v.size()); }
  void eat(const std::vector<Ct> &v) { if (!v.empty()) o.eat(v.data(), v.size() * sizeof(Ct), "controls"); o.n("controls", (long)v.size()); }
  void eat(const std::vector<Sc> &v) { if (!v.empty()) o.eat(v.data(), v.size() * sizeof(Sc), "states with covariance"); o.n("covariances", (long)v.size()); }
  static Sc cov(Rng &r, const St &a)
  {
    Sc s; s.q = a; for (int i = 0; i < 16; i++) s.S[i] = s.L[i] = s.C[i] = 0;
    for (int i = 0; i < 3; i++) { s.S[5 * i] = r.u(0, 0.1); s.C[5 * i] = s.S[5 * i]; }
    return s;
  }
  std::vector<Ct> controls(Rng &r, bool cl)
  {
    std::vector<Ct> v; int n = 1 + r.i(6);
    for (int i = 0; i < n; i++) v.push_back(Ct{ r.i(5) ? r.sg() * r.lg(1e-4, 6) : (r.b() ? 0. : -0.), r.i(3) ? r.u(-3, 3) : 0., cl && r.b() ? r.sg() * r.lg(1e-5, 5) : 0. });
    return v;
  }
  double t(Rng &r) { switch (r.i(6)) { case 0: return 0; case 1: return 1; case 2: return r.u(-2, 3); case 3: return 1 - r.lg(1e-17, 1e-3); case 4: return r.lg(1e-300, 1e-3); default: return r.u(); } }
  void query(Rng &r, const Cfg &c, const Query &q, int id, Planner &p)
  {
    NOW("%s %s start=%s goal=%s", p.name.c_str(), str(c).c_str(), str(q.a).c_str(), str(q.b).c_str());
    double D = p.dist(q.a, q.b); o.eat(&D, sizeof D, "distance"); o.n("distances", 1);
    auto cs = p.ctl(q.a, q.b); eat(cs); double len = 0; uint64_t h = id; for (auto &u : cs) { len += std::fabs(u.ds); h = h * 31 + (u.s > 0 ? 1 : u.s < 0 ? 2 : 0) + (u.k > 0 ? 3 : u.k < 0 ? 6 : 0) + (u.ds < 0 ? 9 : 0); } o.see(h);
    if (!(len / c.disc < (r.i(20) ? 300 : 3000))) return;
    if (r.b()) return;
    eat(p.path(q.a, q.b)); o.n("paths", 1);
    if (r.i(3) == 0) { eat(p.pathc(cov(r, q.a), q.b)); o.n("paths_with_covariance", 1); }
    if (!cs.empty()) for (int i = 0; i < 2; i++) { eat(p.interp(q.a, cs, t(r))); o.n("interpolations", 1); }
  }
  // display, primitives, circles and filter on their own (the streams of libstdc++ are not instrumented for MSan)
  template <class T> void show(const T &x, bool eol)
  {
#ifndef MON_MSAN
    std::ostringstream os; auto *old = std::cout.rdbuf(os.rdbuf()); x.print(eol); std::cout.rdbuf(old); std::string t = os.str(); o.eat(t.data(), t.size(), "text"); o.n("displays", 1);
#endif
  }
  void primitives(Rng &r, const Cfg &c)
  {
    using namespace steering;
    double big = r.i(4) ? 10 : r.lg(1, 1e7), S = 0, C = 0, v[4] = { 0, 0, 0, 0 };
    double s = r.i(3) ? r.u(-6, 6) : r.i(2) ? r.sg() * r.lg(1e-300, 1e8) : r.sg() * std::sqrt(16 / PI_) * (1 + r.sg() * r.lg(1e-17, 1e-3));
    NOW("fresnel(%.17g)", s); fresnel(s, S, C); o.eat(&S, sizeof S, "fresnel"); o.eat(&C, sizeof C, "fresnel");
    double x = r.u(-big, big), y = r.u(-big, big), th = r.u(-big, big), d = r.sg(), L = r.i(8) ? r.lg(1e-8, 1e3) : 0, k = r.i(4) ? r.u(-5, 5) : 0., sg = r.sg() * r.lg(1e-5, 5);
    NOW("end_of_*(%.17g %.17g %.17g kappa=%.17g sigma=%.17g %g %.17g)", x, y, th, k, sg, d, L);
    end_of_clothoid(x, y, th, k, sg, d, L, v, v + 1, v + 2, v + 3); o.eat(v, sizeof v, "clothoid");
    if (k) { end_of_circular_arc(x, y, th, k, d, L, v, v + 1, v + 2); o.eat(v, sizeof v, "arc"); }
    end_of_straight_line(x, y, th, d, L, v, v + 1); o.eat(v, sizeof v, "line");
    double t = twopify(th), p = pify(th); o.eat(&t, sizeof t, "angle"); o.eat(&p, sizeof p, "angle"); polar(x, y, v[0], v[1]); global_frame_change(x, y, th, k, L, v, v + 1); local_frame_change(x, y, th, k, L, v + 2, v + 3); o.eat(v, sizeof v, "frames");
    { int n = 1 + r.i(20); std::vector<double> a(n); double_array_init(a.data(), n, k); a[r.i(n)] -= 1; int i = array_index_min(a.data(), n); o.eat(&i, sizeof i, "index"); std::vector<void *> q(n, (void *)&n); pointer_array_init(q.data(), n); o.eat(q.data(), n * sizeof(void *), "pointers"); }
    Configuration a(x, y, th, 0), b(r.u(-big, big), r.u(-big, big), r.i(3) ? r.u(-9, 9) : th, 0); show(a, r.b());
    bool e = configuration_equal(a, b) | configuration_aligned(a, b); o.eat(&e, sizeof e, "bool"); double cd = configuration_distance(a, b); o.eat(&cd, sizeof cd, "distance"); o.n("primitives", 1);
    HC_CC_Circle_Param P; double rad, mu; circle_param(c.k, c.s, rad, mu); P.set_param(c.k, c.s, rad, mu, std::sin(mu), std::cos(mu), 0.5 * c.k * c.k / c.s);
    HC_CC_Circle ci(a, r.b(), r.b(), r.b(), P), cj(x, y, r.b(), r.b(), r.b(), P); show(ci, r.b()); double g = center_distance(ci, cj); o.eat(&g, sizeof g, "circles");
    Configuration q(r.u(-9, 9), r.u(-9, 9), r.u(-9, 9), 0); double l[3] = { ci.deflection(q), ci.cc_turn_length(q), ci.D1(r.u(-4, 4)) }; o.eat(l, sizeof l, "turn"); bool on = configuration_on_hc_cc_circle(ci, q); o.eat(&on, sizeof on, "bool");
    std::vector<Control> cs; bool ord = r.b(); NOW("turn on a circle %s", str(c).c_str()); cc_turn_controls(ci, q, ord, cs); q.kappa = c.k; if (c.s < 1e9) hc_turn_controls(ci, q, ord, cs); for (auto &u : cs) { reverse_control(u); o.eat(&u, sizeof u, "control"); } o.n("turns", 1);
  }
  void filter(Rng &r)
  {
    using namespace steering;
    EKF f; Motion_Noise mn; Measurement_Noise zn; Controller ctl; mn.alpha1 = r.u(); mn.alpha2 = r.u(); mn.alpha3 = r.u(); mn.alpha4 = r.u(); zn.std_x = r.lg(1e-3, 1); zn.std_y = r.lg(1e-3, 1); zn.std_theta = r.lg(1e-3, 1); ctl.k1 = r.u(0, 2); ctl.k2 = r.u(0, 2); ctl.k3 = r.u(0, 2);
    f.set_parameters(mn, zn, ctl);
    State_With_Covariance s, p, n; s.state.x = r.u(-9, 9); s.state.y = r.u(-9, 9); s.state.theta = r.u(-9, 9); s.state.kappa = r.u(-1, 1); s.state.d = r.sg();
    for (int i = 0; i < 16; i++) s.Sigma[i] = s.Lambda[i] = s.covariance[i] = i % 5 ? 0 : r.u(0, 0.1);
    for (int k = 0; k < 5; k++)
    {
      Control u; u.delta_s = r.sg() * r.lg(1e-6, 1); u.kappa = r.i(3) ? r.u(-1, 1) : 0; u.sigma = r.b() ? r.u(-1, 1) : 0; double h = std::fabs(u.delta_s);
      NOW("filter step {%.17g %.17g %.17g}", u.delta_s, u.kappa, u.sigma); p.state = s.state; n.state = s.state; f.predict(s, u, h, p); o.eat(p.Sigma, sizeof p.Sigma, "Sigma"); o.eat(p.Lambda, sizeof p.Lambda, "Lambda"); o.eat(p.covariance, sizeof p.covariance, "covariance");
      f.update(p, n); o.eat(n.Sigma, sizeof n.Sigma, "Sigma"); o.eat(n.Lambda, sizeof n.Lambda, "Lambda"); o.eat(n.covariance, sizeof n.covariance, "covariance"); s = n; o.n("filter_steps", 1);
    }
  }
  template <class T> void own(T *p, const char *what) { o.n(what, 1); if (p) { double v[3] = { p->length, p->kappa, p->sigma }; o.eat(v, sizeof v, what); int ty = (int)p->type; o.eat(&ty, sizeof ty, what); show(*p, len_odd(p->length)); } delete p; }
  static bool len_odd(double l) { return std::fmod(l, 2) < 1; }
  template <class T> void pred(const T &v) { o.n("predictions", (long)v.size()); for (auto &x : v) { o.eat(&x.first, sizeof x.first, "predicted state"); o.eat(&x.second, sizeof x.second, "predicting control"); } }
  // path objects: the caller owns them
  void objects(Rng &r, const Cfg &c, const Query &q)
  {
    using namespace steering;
    auto in = [](const St &a) { State s; s.x = a.x; s.y = a.y; s.theta = a.th; s.kappa = a.k; s.d = a.d; return s; };
    State a = in(q.a), b = in(q.b); bool f = r.b();
    NOW("path objects %s start=%s goal=%s", str(c).c_str(), str(q.a).c_str(), str(q.b).c_str());
    { CC00_Dubins_State_Space s(c.k, c.s, c.disc, f); own(s.cc00_dubins(a, b), "cc00_dubins"); }
    { CC0pm_Dubins_State_Space s(c.k, c.s, c.disc, f); own(s.cc0pm_dubins(a, b), "cc0pm_dubins"); }
    { CCpm0_Dubins_State_Space s(c.k, c.s, c.disc, f); own(s.ccpm0_dubins(a, b), "ccpm0_dubins"); }
    { CCpmpm_Dubins_State_Space s(c.k, c.s, c.disc, f); own(s.ccpmpm_dubins(a, b), "ccpmpm_dubins"); }
    { CC00_Reeds_Shepp_State_Space s(c.k, c.s, c.disc); own(s.cc00_reeds_shepp(a, b), "cc00_reeds_shepp"); }
    { HC00_Reeds_Shepp_State_Space s(c.k, c.s, c.disc); own(s.hc00_reeds_shepp(a, b), "hc00_reeds_shepp"); }
    { HC0pm_Reeds_Shepp_State_Space s(c.k, c.s, c.disc); own(s.hc0pm_reeds_shepp(a, b), "hc0pm_reeds_shepp"); }
    { HCpm0_Reeds_Shepp_State_Space s(c.k, c.s, c.disc); own(s.hcpm0_reeds_shepp(a, b), "hcpm0_reeds_shepp"); }
    { HCpmpm_Reeds_Shepp_State_Space s(c.k, c.s, c.disc); own(s.hcpmpm_reeds_shepp(a, b), "hcpmpm_reeds_shepp"); }
    { CC_Dubins_State_Space s(c.k, c.s, c.disc, f); pred(s.predict_state(a, r.b())); }
    { HC_Reeds_Shepp_State_Space s(c.k, c.s, c.disc); pred(s.predict_state(a)); }
  }
  void one(Rng &r)
  {
    Cfg c = gen_cfg(r);
    int form = r.i(4);
    Planners ps = cur::all(c.k, c.s, c.disc);
    Noise n{ 0.05, 0.01, 0.05, 0.01, 0.1, 0.1, 0.05, 1, 1, 1 };
    for (auto &p : ps) p->filt(n);
    for (int rep = 0; rep < 3; rep++)
    {
      Query q = gen_query(r, c);
      if (form == 0 && r.b()) q.b = q.a;
      for (int id = 0; id < NPLANNERS; id++) query(r, c, q, id, *ps[id]);
    }
    int id = r.i(NPLANNERS); Planner &p = *ps[id];
    auto cs = controls(r, p.fam == 'C' || p.fam == 'H'); St a{ r.u(-9, 9), r.u(-9, 9), r.u(-9, 9), 0, 0 };
    double len = 0; for (auto &u : cs) len += std::fabs(u.ds);
    if (len / c.disc < 3000)
    {
      NOW("%s %s start=%s integrate %s", p.name.c_str(), str(c).c_str(), str(a).c_str(), str(cs).c_str());
      eat(p.integ(a, cs)); eat(p.integc(cov(r, a), cs)); eat(p.interp(a, cs, t(r)));
    }
    if (r.b()) { auto fresh = cur::make(id, c.k, c.s, c.disc); ps[id].swap(fresh); fresh.reset(); Query q = gen_query(r, c); ps[id]->filt(n); query(r, c, q, id, *ps[id]); } // lifetime
    if (r.i(3) == 0) { Query q = gen_query(r, c); objects(r, c, q); }
    for (int i = 0; i < 8; i++) primitives(r, c);
    filter(r);
  }
};
