// C18: turns on HC/CC circles
#include <limits>
#include <vector>
#include "steering_functions/hc_cc_state_space/hc_cc_circle.hpp"
#include "steering_functions/hc_cc_state_space/hc_cc_state_space.hpp"
#include "steering_functions/hc_cc_state_space/paths.hpp"
#undef PI
#include "common.hpp"
namespace sf = steering;
struct Probe : public sf::HC_CC_State_Space
{ // gives access to the circle parameters every CC/HC function uses
  Probe(double k, double s) : sf::HC_CC_State_Space(k, s, 0.1) {}
  std::vector<sf::Control> get_controls(const sf::State &, const sf::State &) const { return std::vector<sf::Control>(); }
  sf::HC_CC_Circle_Param par() const { return hc_cc_circle_param_; }
};
static double twopi(double a) { double v = std::fmod(a, 2 * PI_); return v < 0 ? v + 2 * PI_ : v; }
MON(C18)
{
  Rng r(mix(seed, idx));
  Cfg c = gen_cfg(r);
  if (c.s < 0.01) c.s = 0.01;
  Probe pr(c.k, c.s);
  sf::HC_CC_Circle_Param P = pr.par();
  double k = c.k, s = c.s, rad, mu; circle_param(k, s, rad, mu);
  Pose e0 = drive(Pose{ 0, 0, 0, 0 }, 1, s, k / s); double xc0 = e0.x - std::sin(e0.th) / k, yc0 = e0.y + std::cos(e0.th) / k; // centre in the local frame
  double dmin = 0.5 * k * k / s, tolg = 1e-9 * (1 + 1 / k);
  NOW("circle parameters for kappa=%.17g sigma=%.17g", k, s);
  R.c("configurations");
  // the angle mu is defined for circles whose centre lies ahead of the start (always true up to half a turn of deflection)
  if (!(std::fabs(P.kappa - k) <= 1e-12 * k && std::fabs(P.sigma - s) <= 1e-12 * s && std::fabs(P.kappa_inv * k - 1) <= 1e-12 && std::fabs(P.radius - rad) <= tolg && std::fabs(P.mu - mu) <= 1e-8 && std::fabs(P.sin_mu - std::sin(P.mu)) <= 1e-12 && std::fabs(P.cos_mu - std::cos(P.mu)) <= 1e-12 && std::fabs(P.delta_min - dmin) <= 1e-9 * (1 + dmin)))
    R.bad("parameters", fmt("%s: kappa %.12g sigma %.12g radius %.12g mu %.12g delta_min %.12g, expected radius %.12g mu %.12g delta_min %.12g", g_now, P.kappa, P.sigma, P.radius, P.mu, P.delta_min, rad, mu, dmin));
  bool ahead = xc0 > 0 && yc0 > 0;
  for (int rep = 0; rep < 12; rep++)
  {
    bool left = r.b(), fwd = r.b(), reg = r.i(3); double lr = left ? 1 : -1, fb = fwd ? 1 : -1;
    double box = r.i(5) ? 10 : 1e3; double th = r.i(4) ? r.u(-PI_, PI_) : r.u(-30, 30); if (r.i(6) == 0) th = (r.i(17) - 8) * PI_ / 4;
    int kind = r.i(3); // rs, hc, cc
    double ks = kind == 0 ? lr * k : 0;
    sf::Configuration st(r.u(-box, box), r.u(-box, box), th, ks);
    sf::HC_CC_Circle_Param rs; rs.set_param(k, std::numeric_limits<double>::max(), 1 / k, 0., 0., 1., 0.);
    sf::HC_CC_Circle C(st, left, fwd, reg, kind == 0 ? rs : P);
    Pose q0{ st.x, st.y, st.theta, ks };
    // the centre: that of the arc reached
    Pose mid = kind == 0 ? q0 : drive(q0, fb, lr * s, k / s);
    double cx = mid.x - lr * std::sin(mid.th) / k, cy = mid.y + lr * std::cos(mid.th) / k;
    if (kind != 0 && !ahead) { R.c("skipped_no_tangent_angle"); continue; }
    double far = 1e-12 * (std::fabs(st.x) + std::fabs(st.y)), tc = 1e-8 * (1 + 1 / k) + far;
    static const char *KN[] = { "rs", "hc", "cc" };
    std::string name = fmt("%s_%s%s%s", KN[kind], left ? "left" : "right", fwd ? "_fwd" : "_bwd", reg ? "_regular" : "_irregular");
    NOW("%s turn kappa=%.17g sigma=%.17g start=(%.17g %.17g %.17g)", name.c_str(), k, s, st.x, st.y, st.theta);
    R.c("circles");
    if (!(std::hypot(C.xc - cx, C.yc - cy) <= tc && std::fabs(C.radius - (kind == 0 ? 1 / k : rad)) <= tc && C.kappa == (left ? P.kappa : -P.kappa) && C.left == left && C.forward == fwd && C.regular == reg && std::fabs(C.kappa * C.kappa_inv - 1) < 1e-12))
      R.bad("circle:" + name, fmt("%s: centre (%.12g %.12g) radius %.12g kappa %.12g, expected centre (%.12g %.12g)", g_now, C.xc, C.yc, C.radius, C.kappa, cx, cy));
    if (kind != 0 && !(std::fabs(C.sigma - lr * s) <= 1e-12 * s)) R.bad("circle:" + name, fmt("%s: sharpness %.12g", g_now, C.sigma));
    // a configuration on the circle, reached by the turn with an arc of beta
    double beta = r.u(0, 2 * PI_);
    switch (r.i(8)) { case 0: beta = r.lg(1e-9, 1); break; case 1: beta = 2 * PI_ - r.lg(1e-5, 1); break; case 2: beta = twopi(-2 * dmin + r.lg(2e-3, 1)); break; case 3: beta = twopi(2 * PI_ - 2 * dmin + (r.b() ? 0. : r.sg() * r.lg(1e-9, 1e-2))); break; case 4: beta = (1 + r.i(3)) * PI_ / 2; break; }
    Pose q = mid; q.k = lr * k; q = drive(q, fb, 0, beta / k);
    if (kind == 2) { q.k = lr * k; q = drive(q, fb, -lr * s, k / s); q.k = 0; }
    double hd = q.th; if (r.b()) hd += 2 * PI_ * (r.i(5) - 2);
    sf::Configuration Q(q.x, q.y, hd, kind == 2 ? 0. : lr * k);
    double delta = twopi(fb * lr * (q.th - q0.th)), dd = std::min(delta, 2 * PI_ - delta);
    double dl = C.deflection(Q);
    if (!(std::fabs(wrapa(dl - delta)) <= 1e-9 && dl >= -1e-12 && dl <= 2 * PI_ + 1e-12)) R.bad("deflection:" + name, fmt("%s: deflection %.12g, expected %.12g", g_now, dl, delta));
    double dist = std::hypot(q.x - q0.x, q.y - q0.y);
    // within its resolution of 1e-4 the library replaces turns by straight lines
    bool zero = kind == 2 && delta < 2e-4;
    // an arc that vanishes up to round-off may be a full turn in the other representation
    for (int order = 0; order < 2; order++)
    {
      std::vector<sf::Control> u; bool pre = r.i(4) == 0; if (pre) sf::empty_controls(u); size_t n0 = u.size();
      double len;
      if (kind == 0) { sf::rs_turn_controls(C, Q, order, u); len = C.rs_turn_length(Q); }
      else if (kind == 1) { sf::hc_turn_controls(C, Q, order, u); len = C.hc_turn_length(Q); }
      else { sf::cc_turn_controls(C, Q, order, u); len = C.cc_turn_length(Q); }
      std::string txt = fmt("%s to (%.17g %.17g %.17g) beta=%.17g %s", g_now, Q.x, Q.y, Q.theta, beta, order ? "from start" : "to start");
      if (u.size() <= n0) { R.bad("no_controls:" + name, txt); continue; }
      std::vector<Ct> cs; for (size_t i = n0; i < u.size(); i++) cs.push_back(Ct{ u[i].delta_s, u[i].kappa, u[i].sigma });
      Pose p = order ? q0 : q, g = order ? q : q0; double sum = 0, kend = 0, smax = 0, kmax = 0, jump = 0, pk = NAN, wrong = 0, arc = 0; bool other = false;
      for (auto &w : cs)
      {
        double L = std::fabs(w.ds); p = drive(p, w); sum += L; kend = w.k + w.s * L; kmax = std::max(kmax, std::max(std::fabs(w.k), std::fabs(kend))); if (L > 1e-9) smax = std::max(smax, std::fabs(w.s));
        if (pk == pk) jump = std::max(jump, std::fabs(w.k - pk)); pk = kend; if (w.ds * fb * (order ? 1 : -1) < 0) wrong = std::max(wrong, L);
        if (w.s == 0 && w.k != 0) arc = L; if (std::min(w.k * lr, kend * lr) < -1e-9 * k) other = true;
      }
      double e = std::max(std::hypot(p.x - g.x, p.y - g.y), std::fabs(wrapa(p.th - g.th))), te = 1e-8 * (1 + 1 / k) + 10 * far;
      if (kind == 2 && cs.size() == 2) te = te * 100 + (dist < 0.1 / k ? 1e-3 / k : 0); // elementary path: sharpness from distance
      if (kind == 2 && delta < 1e-2) te += 1e-6 + (zero ? 3e-4 * (1 + dist) : 0);
      R.c(fmt("%s_turns", KN[kind])); if (kind == 2) R.c(fmt("cc_%zu_segments", cs.size())); R.w("end_deviation", e); R.w("end_deviation_scaled", e / te);
      R.see(mix(kind * 8 + left * 4 + fwd * 2 + reg, (uint64_t)(beta * 20) + 1000 * order + 4000 * cs.size() + 100000 * (uint64_t)(10 * dmin)));
      if (R.samples.size() < 3) R.sample(fmt("%s: %s", txt.c_str(), str(cs).c_str()));
      if (!(e <= te)) R.bad("end:" + name, fmt("%s: controls %s end at (%.12g %.12g %.12g), off by %.3g", txt.c_str(), str(cs).c_str(), p.x, p.y, p.th, e));
      if (!(std::fabs(len - sum) <= 1e-9 * (1 + sum) + (zero ? 1e-3 * (1 + sum) : 0))) R.bad("length:" + name, fmt("%s: reported length %.12g, length of the controls %.12g", txt.c_str(), len, sum));
      if (!(kmax <= k * (1 + 1e-6) + (kind == 2 && cs.size() == 2 && dist < 0.1 / k ? 1e-2 * k : 0)) || other) R.bad("curvature:" + name, fmt("%s: curvature %.12g in %s", txt.c_str(), kmax, str(cs).c_str()));
      if (!(smax <= s * (1 + 1e-6) + (kind == 2 && cs.size() == 2 && dist < 0.1 / k ? 1e-2 * s : 0))) R.bad("sharpness:" + name, fmt("%s: sharpness %.12g in %s", txt.c_str(), smax, str(cs).c_str()));
      if (!(jump <= 1e-8 * (1 + k))) R.bad("continuity:" + name, fmt("%s: curvature jumps by %.3g in %s", txt.c_str(), jump, str(cs).c_str()));
      double kb = kind == 0 ? lr * k : 0, ke = kind == 2 ? 0 : lr * k; // curvature at the start of the circle and at the configuration
      if (!(std::fabs(cs[0].k - (order ? kb : ke)) <= 1e-9 * (1 + k) && std::fabs(kend - (order ? ke : kb)) <= 1e-8 * (1 + k))) R.bad("end_curvature:" + name, fmt("%s: curvature from %.12g to %.12g", txt.c_str(), cs[0].k, kend));
      if (reg && wrong > 1e-7) R.bad("direction:" + name, fmt("%s: a regular turn reverses in %s", txt.c_str(), str(cs).c_str()));
      double full = 2 * PI_ / k, amax = reg ? full : full / 2;
      if (arc > amax * (1 + 1e-9)) R.bad("arc:" + name, fmt("%s: arc of length %.12g in %s", txt.c_str(), arc, str(cs).c_str()));
      // pair of clothoids (elementary path) of the same deflection and chord, within the max. sharpness
      if (kind == 2 && delta > 2e-3 && delta < std::min(2 * dmin, 4.5948) - 1e-3 && dist > 0.02 * (1 + 1 / k))
      {
        Pose h = drive(Pose{ 0, 0, 0, 0 }, 1, 1, std::sqrt(delta)); h.k = std::sqrt(delta); h = drive(h, 1, -1, std::sqrt(delta));
        double s0 = (h.x * h.x + h.y * h.y) / (dist * dist);
        if (s0 <= s * (1 - 1e-6)) { double el = 2 * std::sqrt(delta / s0); R.c("elementary_compared"); if (!(sum <= el + 1e-6 * (1 + el))) R.bad("elementary:" + name, fmt("%s: length %.12g, but two clothoids of sharpness %.12g have length %.12g", txt.c_str(), sum, s0, el)); }
      }
      // length of the turn made of clothoids of max. sharpness and the arc (for irregular turns the shorter one)
      double def = (kind == 0 ? 0 : kind == 1 ? k / s : 2 * k / s) + (reg ? beta : std::min(beta, 2 * PI_ - beta)) / k; bool edge = beta < 1e-6 || beta > 2 * PI_ - 1e-6;
      if (!edge && !(sum <= def + 1e-7 * (1 + def) + (zero ? 1e-3 : 0))) R.bad("longer:" + name, fmt("%s: length %.12g instead of %.12g", txt.c_str(), sum, def));
      if (!edge && kind != 2 && !(std::fabs(sum - def) <= 1e-7 * (1 + def))) R.bad("shorter:" + name, fmt("%s: length %.12g instead of %.12g", txt.c_str(), sum, def));
    }
    // membership of end configurations (with the tangent angle mu)
    if (kind == 2)
    {
      sf::HC_CC_Circle D(C.xc, C.yc, left, fwd, reg, P);
      if (D.xc != C.xc || D.yc != C.yc || D.left != left || D.forward != fwd || D.regular != reg || std::fabs(D.radius - C.radius) > 0 || D.kappa != C.kappa || D.sigma != C.sigma || D.kappa_inv != C.kappa_inv || D.mu != C.mu || D.sin_mu != C.sin_mu || D.cos_mu != C.cos_mu || D.delta_min != C.delta_min) R.bad("circle_from_centre:" + name, fmt("%s: circle constructed from its centre differs", g_now));
      R.c("membership");
      if (!sf::configuration_on_hc_cc_circle(C, Q) || !sf::configuration_on_hc_cc_circle(D, Q)) R.bad("on_circle:" + name, fmt("%s: end configuration (%.17g %.17g %.17g) not recognised as on the circle", g_now, Q.x, Q.y, Q.theta));
      double o = r.sg() * r.lg(1e-3, 0.5), t = r.sg() * r.lg(1e-3, 3); bool rt = r.b();
      double ux = (Q.x - C.xc) / C.radius, uy = (Q.y - C.yc) / C.radius;
      sf::Configuration W(Q.x + (rt ? 0 : o * ux), Q.y + (rt ? 0 : o * uy), Q.theta + (rt ? t : 0), 0);
      if (sf::configuration_on_hc_cc_circle(C, W) && !(o < 0 && !rt && std::fabs(o) > C.radius)) R.bad("off_circle:" + name, fmt("%s: configuration (%.17g %.17g %.17g) taken as on the circle", g_now, W.x, W.y, W.theta));
      sf::Configuration st2(r.u(-box, box), r.u(-box, box), r.u(-4, 4), 0); sf::HC_CC_Circle E(st2, r.b(), r.b(), true, P);
      if (!(std::fabs(sf::center_distance(C, E) - std::hypot(C.xc - E.xc, C.yc - E.yc)) <= 1e-12 * (1 + box))) R.bad("center_distance", g_now);
    }
  }
}
