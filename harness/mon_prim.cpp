// C15: geometric primitives
#include <vector>
#include "steering_functions/hc_cc_state_space/configuration.hpp"
#include "steering_functions/hc_cc_state_space/paths.hpp"
#include "steering_functions/steering_functions.hpp"
#include "steering_functions/utilities/utilities.hpp"
#undef PI
#include "common.hpp"
namespace sf = steering;
static double any_angle(Rng &r)
{
  switch (r.i(6))
  {
    case 0: return (r.i(65) - 32) * PI_ / 4;
    case 1: return (r.i(33) - 16) * PI_ / 2 + r.sg() * r.lg(1e-16, 1e-2);
    case 2: return r.u(-1, 1) * (r.i(3) ? 1e3 : r.lg(1e3, 1e7));
    case 3: return r.sg() * r.lg(1e-300, 1e-3);
    default: return r.u(-2 * PI_, 2 * PI_);
  }
}
static double any_len(Rng &r) { return r.i(5) ? r.lg(1e-4, 10) : r.lg(1e-12, 100); }
static double any_pos(Rng &r) { return r.i(4) ? r.u(-10, 10) : r.sg() * r.lg(1e-6, 1e5); }
// Fresnel integrals by quadrature (small arguments) or their asymptotic expansion (large ones)
static void own_fresnel(double s, double &S, double &C)
{
  double a = std::fabs(s);
  if (a < 30) { Pose p = drive(Pose{ 0, 0, 0, 0 }, 1, PI_, a); C = p.x; S = p.y; }
  else
  {
    double z = PI_ * a * a, f = (1 - 3 / (z * z)) / (PI_ * a), g = (1 - 15 / (z * z)) / (PI_ * PI_ * a * a * a);
    double ph = std::fmod(a * a, 4.) * PI_ / 2;
    C = 0.5 + f * std::sin(ph) - g * std::cos(ph); S = 0.5 - f * std::cos(ph) - g * std::sin(ph);
  }
  if (s < 0) { S = -S; C = -C; }
}
static uint64_t bucket(double v) { if (v == 0) return 0; int e = (int)std::floor(2 * std::log2(std::fabs(v))); return (uint64_t)(e + 4096) * 2 + (v < 0); }
MON(C15)
{
  Rng r(mix(seed, idx));
  auto chk = [&](const char *name, double e, double lim, const std::string &txt) { R.c(name); R.w(name, e / (lim > 0 ? lim : 1) ); if (!(e <= lim)) R.bad(name, fmt("%s: deviates by %.6g (limit %.3g)", txt.c_str(), e, lim)); };
  auto tru = [&](const char *name, bool ok, const std::string &txt) { R.c(name); if (!ok) R.bad(name, txt); };
  for (int rep = 0; rep < 12; rep++)
  {
    { // Fresnel
      double s = r.sg() * (r.i(3) ? r.u(0, 6) : r.lg(1e-8, r.b() ? 1e3 : 20)); if (r.i(8) == 0) s = r.sg() * std::sqrt(16 / PI_) * (1 + r.sg() * r.lg(1e-16, 1e-2)); if (r.i(30) == 0) s = 0;
      NOW("fresnel(%.17g)", s); double S = NAN, C = NAN, S2, C2; sf::fresnel(s, S, C); own_fresnel(s, S2, C2); R.see(mix(1, bucket(s)));
      chk("fresnel", std::max(std::fabs(S - S2), std::fabs(C - C2)), 1e-11, fmt("%s = (S=%.17g C=%.17g), expected (%.17g %.17g)", g_now, S, C, S2, C2));
    }
    double x = any_pos(r), y = any_pos(r), th = any_angle(r), d = r.sg(), L = any_len(r), xf = NAN, yf = NAN, tf = NAN, kf = NAN;
    double far = std::fabs(x) + std::fabs(y);
    { // clothoid
      double s = r.sg() * r.lg(1e-3, 10), k = r.i(4) ? r.sg() * r.lg(1e-3, 5) : 0., l = L; if (r.i(5) == 0) { k = -s * l * r.u(); }
      double tv = (std::fabs(k) + std::fabs(s) * l) * l; if (tv > 60) l *= std::sqrt(60 / tv);
      NOW("end_of_clothoid(%.17g, %.17g, %.17g, kappa=%.17g, sigma=%.17g, %g, %.17g)", x, y, th, k, s, d, l); sf::end_of_clothoid(x, y, th, k, s, d, l, &xf, &yf, &tf, &kf);
      Pose e = drive(Pose{ x, y, th, k }, d, s, l); double cond = 1 + (std::fabs(th) + k * k / std::fabs(s)) + 1 / std::sqrt(std::fabs(s)); R.see(mix(2, bucket(s) ^ bucket(k) * 8191 ^ (d > 0)));
      chk("end_of_clothoid", std::max(std::hypot(xf - e.x, yf - e.y), std::max(std::fabs(wrapa(tf - e.th)), std::fabs(kf - e.k) / (1 + std::fabs(k)))), 1e-10 * cond + 1e-14 * far, fmt("%s = (%.17g %.17g %.17g %.17g), expected (%.17g %.17g %.17g %.17g)", g_now, xf, yf, tf, kf, e.x, e.y, e.th, e.k));
      tru("heading_range", tf >= -PI_ - 1e-12 && tf <= PI_ + 1e-12, fmt("%s: heading %.17g outside [-pi, pi]", g_now, tf));
      // additivity
      double l1 = l * r.u(), a, b, c, k1, a2, b2, c2, k2; sf::end_of_clothoid(x, y, th, k, s, d, l1, &a, &b, &c, &k1); sf::end_of_clothoid(a, b, c, k1, s, d, l - l1, &a2, &b2, &c2, &k2);
      chk("clothoid_additivity", std::max(std::hypot(xf - a2, yf - b2), std::max(std::fabs(wrapa(tf - c2)), std::fabs(kf - k2))), 1e-9 * cond + 1e-14 * far, g_now);
    }
    { // arc
      double k = r.sg() * r.lg(1e-3, 20), l = std::min(L, 60 / std::fabs(k)); R.see(mix(3, bucket(k) ^ (d > 0)));
      NOW("end_of_circular_arc(%.17g, %.17g, %.17g, kappa=%.17g, %g, %.17g)", x, y, th, k, d, l); xf = yf = tf = NAN; sf::end_of_circular_arc(x, y, th, k, d, l, &xf, &yf, &tf);
      Pose e = drive(Pose{ x, y, th, k }, d, 0, l);
      chk("end_of_circular_arc", std::max(std::hypot(xf - e.x, yf - e.y), std::fabs(wrapa(tf - e.th))), 1e-13 * (1 + std::fabs(th)) * (1 + 10 / std::fabs(k)) + 1e-14 * far + 1e-12, fmt("%s = (%.17g %.17g %.17g), expected (%.17g %.17g %.17g)", g_now, xf, yf, tf, e.x, e.y, e.th));
    }
    { // line
      NOW("end_of_straight_line(%.17g, %.17g, %.17g, %g, %.17g)", x, y, th, d, L); xf = yf = NAN; sf::end_of_straight_line(x, y, th, d, L, &xf, &yf);
      chk("end_of_straight_line", std::hypot(xf - x - d * L * std::cos(th), yf - y - d * L * std::sin(th)), 1e-13 * (1 + L) + 1e-14 * far, g_now); R.see(mix(4, bucket(L)));
    }
    { // frames
      double lx = any_pos(r), ly = any_pos(r), gx = NAN, gy = NAN, bx = NAN, by = NAN; double sc = 1 + far + std::fabs(lx) + std::fabs(ly);
      NOW("frame change (%.17g, %.17g, %.17g) of (%.17g, %.17g)", x, y, th, lx, ly); R.see(mix(5, bucket(lx) ^ bucket(th)));
      sf::global_frame_change(x, y, th, lx, ly, &gx, &gy); chk("global_frame_change", std::hypot(gx - x - lx * std::cos(th) + ly * std::sin(th), gy - y - lx * std::sin(th) - ly * std::cos(th)), 1e-13 * sc, g_now);
      sf::local_frame_change(x, y, th, gx, gy, &bx, &by); chk("local_frame_change", std::hypot(bx - lx, by - ly), 1e-13 * sc, g_now);
    }
    { // polar, distance
      double rr = NAN, a = NAN; NOW("polar(%.17g, %.17g)", x, y); sf::polar(x, y, rr, a);
      chk("polar", std::hypot(rr * std::cos(a) - x, rr * std::sin(a) - y) + (rr < 0 ? 1 : 0) + std::fabs(rr - std::hypot(x, y)), 1e-13 * (1 + far), fmt("%s = (%.17g, %.17g)", g_now, rr, a));
      double x2 = any_pos(r), y2 = any_pos(r); if (r.b()) { x2 = x + r.u(-1, 1) * 1e-3; y2 = y; }
      NOW("point_distance(%.17g, %.17g, %.17g, %.17g)", x, y, x2, y2); chk("point_distance", std::fabs(sf::point_distance(x, y, x2, y2) - std::hypot(x - x2, y - y2)), 1e-13 * (1 + far + std::fabs(x2) + std::fabs(y2)), g_now);
    }
    { // angles
      double a = any_angle(r), t = sf::twopify(a), p = sf::pify(a); R.see(mix(6, bucket(a)));
      NOW("twopify(%.17g) = %.17g, pify = %.17g", a, t, p); double lim = 1e-12 + 4e-16 * std::fabs(a) * 4;
      if (r.i(4) == 0) { double z = r.sg() * 2 * PI_ * (1 << r.i(8)), tz = sf::twopify(z); chk("twopify_full_turns", std::fabs(tz), 1e-9, fmt("twopify(%.17g) = %.17g outside [0, 2*pi[", z, tz)); }
      chk("twopify", std::fabs(wrapa(t - a)) + std::max(0., -t) + std::max(0., t - 2 * PI_), lim, g_now);
      chk("pify", std::fabs(wrapa(p - a)) + std::max(0., std::fabs(p) - PI_), lim, g_now);
      double g = r.i(3) ? r.sg() * r.lg(1e-300, 1e10) : (r.b() ? 0. : -0.); tru("sgn", sf::sgn(g) == (g < 0 ? -1 : 1), fmt("sgn(%.17g) = %g", g, sf::sgn(g)));
    }
    { // arrays
      int n = 1 + r.i(24), m = 0; double v[26]; for (int i = 0; i < 26; i++) v[i] = r.i(5) ? (r.b() ? r.u(-10, 10) : (double)(r.i(7) - 3)) : (r.b() ? 1e308 : INFINITY); if (n < 26) v[n] = -1e300;
      double save[26]; memcpy(save, v, sizeof v); m = sf::array_index_min(v, n); bool ok = m >= 0 && m < n; for (int i = 0; ok && i < n; i++) ok = v[m] <= v[i];
      tru("array_index_min", ok && !memcmp(save, v, sizeof v), fmt("array_index_min of %d values returns %d", n, m)); R.see(mix(7, n * 32 + m));
      double c = r.u(-1, 1); sf::double_array_init(v, n, c); ok = true; for (int i = 0; i < 25; i++) ok = ok && (i < n ? v[i] == c : v[i] == save[i] ); tru("double_array_init", ok, fmt("double_array_init of %d values", n));
      void *ptr[26]; for (int i = 0; i < 26; i++) ptr[i] = v; sf::pointer_array_init(ptr, n); ok = true; for (int i = 0; i < 26; i++) ok = ok && (ptr[i] == (i < n ? nullptr : v)); tru("pointer_array_init", ok, fmt("pointer_array_init of %d values", n));
    }
    { // controls
      sf::Control u; u.delta_s = r.sg() * r.lg(1e-3, 5); u.kappa = r.u(-2, 2); u.sigma = r.i(3) ? r.sg() * r.lg(1e-2, 3) : 0.; sf::Control b = u; sf::reverse_control(b); double t0 = r.u(-4, 4);
      NOW("reverse_control {%.17g %.17g %.17g} -> {%.17g %.17g %.17g}", u.delta_s, u.kappa, u.sigma, b.delta_s, b.kappa, b.sigma); R.see(mix(8, (u.delta_s > 0) + 2 * (u.sigma > 0) + 4 * (u.sigma < 0) + 8 * (u.kappa > 0)));
      Pose e = drive(Pose{ 1, 2, t0, 0 }, Ct{ u.delta_s, u.kappa, u.sigma }), f = drive(e, Ct{ b.delta_s, b.kappa, b.sigma });
      chk("reverse_control", std::hypot(f.x - 1, f.y - 2) + std::fabs(wrapa(f.th - t0)) + std::fabs(f.k - u.kappa) + std::fabs(b.kappa - e.k) + std::fabs(std::fabs(b.delta_s) - std::fabs(u.delta_s)), 1e-10, g_now);
      // both controls lead to the same point of one clothoid: their difference leads from the start of the first to that of the second
      double g = r.i(3) ? r.sg() * r.lg(1e-2, 3) : 0., kx = r.u(-2, 2); sf::Control a1, a2; a1.delta_s = r.sg() * r.lg(1e-2, 4); a2.delta_s = r.sg() * r.lg(1e-2, 4);
      a1.sigma = g == 0 ? 0 : sgn1(a1.delta_s) * g; a2.sigma = g == 0 ? 0 : sgn1(a2.delta_s) * g; a1.kappa = kx - a1.delta_s * g; a2.kappa = kx - a2.delta_s * g;
      Pose X{ 1, 2, t0, kx }, s1 = drive(X, -sgn1(a1.delta_s), -a1.sigma, std::fabs(a1.delta_s)), s2 = drive(X, -sgn1(a2.delta_s), -a2.sigma, std::fabs(a2.delta_s));
      sf::Control c = sf::subtract_control(a1, a2); NOW("subtract_control {%.17g %.17g %.17g} - {%.17g %.17g %.17g} = {%.17g %.17g %.17g}", a1.delta_s, a1.kappa, a1.sigma, a2.delta_s, a2.kappa, a2.sigma, c.delta_s, c.kappa, c.sigma); R.see(mix(9, (a1.delta_s > 0) + 2 * (a2.delta_s > 0) + 4 * (g > 0) + 8 * (g < 0) + 16 * (std::fabs(a1.delta_s) > std::fabs(a2.delta_s))));
      Pose q = drive(s1, Ct{ c.delta_s, c.kappa, c.sigma });
      chk("subtract_control", std::hypot(q.x - s2.x, q.y - s2.y) + std::fabs(wrapa(q.th - s2.th)) + std::fabs(q.k - s2.k) + std::fabs(c.kappa - s1.k), 1e-9, g_now);
      std::vector<sf::Control> v; if (r.b()) v.push_back(u); size_t n0 = v.size(); sf::empty_controls(v);
      tru("empty_controls", v.size() == n0 + 1 && v.back().delta_s == 0 && v.back().kappa == 0 && v.back().sigma == 0 && (!n0 || v[0].delta_s == u.delta_s), "empty_controls does not append one control of zeros");
      double sl = r.sg() * any_len(r); sf::Configuration c1(x, y, th, 0), c2(x + sl * std::cos(c1.theta), y + sl * std::sin(c1.theta), th, 0); sf::straight_controls(c1, c2, v); double ls = v.back().delta_s;
      NOW("straight_controls from (%.17g %.17g %.17g) over %.17g gives %.17g", x, y, th, sl, ls);
      tru("straight_controls", v.size() == n0 + 2 && v.back().kappa == 0 && v.back().sigma == 0 && (std::fabs(ls - sl) <= 1e-9 * (1 + std::fabs(sl) + 1e-3 * far) || (std::fabs(sl) < 1e-9 * (1 + far) && std::fabs(ls) < 1e-9 * (1 + far))), g_now);
    }
    { // predicates of configurations and states
      sf::Configuration a(x, y, th, r.u(-1, 1));
      chk("configuration_heading", std::fabs(wrapa(a.theta - th)) + std::max(0., -a.theta) + std::max(0., a.theta - 2 * PI_), 1e-12 + 2e-15 * std::fabs(th), fmt("Configuration heading %.17g from %.17g", a.theta, th));
      tru("configuration_fields", a.x == x && a.y == y, "Configuration does not keep its position");
      double e = r.b() ? r.lg(1e-9, 5e-5) : r.lg(2e-4, 3), an = r.u(-PI_, PI_); double dth = 0, dp = 0, dk = 0; switch (r.i(4)) { case 0: dth = r.sg() * std::min(e, 3.); break; case 1: dp = e; break; case 2: dk = r.sg() * e; break; default: dth = r.b() ? r.sg() * r.lg(1e-9, 5e-5) : 0; dp = r.lg(1e-9, 5e-5); }
      if (far > 1e4) dp = dp > 1e-4 ? dp : 0;
      double turns = 2 * PI_ * (r.i(7) - 3); double x2 = x + dp * std::cos(an), y2 = y + dp * std::sin(an), t2 = th + dth + turns;
      sf::Configuration b(x2, y2, t2, a.kappa + dk); bool small = std::fabs(dth) < 1e-4 && dp < 1e-4;
      NOW("configuration_equal (%.17g %.17g %.17g) (%.17g %.17g %.17g)", x, y, th, x2, y2, t2); R.see(mix(10, bucket(dth) ^ bucket(dp) * 127 ^ (int)turns));
      tru("configuration_equal", sf::configuration_equal(a, b) == small && sf::configuration_equal(b, a) == small, g_now);
      chk("configuration_distance", std::fabs(sf::configuration_distance(a, b) - dp), 1e-12 * (1 + far), g_now);
      sf::State s1{ x, y, th, a.kappa, r.sg() }, s2{ x2, y2, t2, a.kappa + dk, r.sg() }; bool sm = small && std::fabs(dk) < 1e-4; NOW("state_equal (%.17g %.17g %.17g %.17g) (%.17g %.17g %.17g %.17g)", x, y, th, s1.kappa, x2, y2, t2, s2.kappa);
      tru("state_equal", sf::state_equal(s1, s2) == sm && sf::state_equal(s2, s1) == sm, g_now);
      // aligned: q2 lies ahead of q1 on the line through q1 and has the same heading
      double l = r.lg(0.01, 20), off = r.i(3) ? 0 : r.sg() * (r.b() ? r.lg(1e-9, 5e-5) : r.u(2e-4, 3)), dt = r.i(3) ? 0 : r.sg() * (r.b() ? r.lg(1e-9, 5e-5) : r.u(2e-4, 3)); if (far > 1e3) { if (std::fabs(off) < 1e-4) off = 0; l = std::max(l, 1.); }
      sf::Configuration q(x + l * std::cos(th + off), y + l * std::sin(th + off), th + dt + turns, 0); bool al = std::fabs(off) < 1e-4 && std::fabs(dt) < 1e-4;
      NOW("configuration_aligned (%.17g %.17g %.17g), at distance %.17g under angle %.17g, heading difference %.17g", x, y, th, l, off, dt); R.see(mix(11, bucket(off) ^ bucket(dt) * 127));
      tru("configuration_aligned", sf::configuration_aligned(a, q) == al, g_now);
    }
  }
}
