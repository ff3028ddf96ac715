// C19: predicted states and path objects describe the path that is returned
#include <iostream>
#include <sstream>
#include "common.hpp"
#include "steering_functions/hc_cc_state_space/cc00_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/cc00_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/cc0pm_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/cc_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/ccpm0_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/ccpmpm_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hc00_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hc0pm_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hc_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hcpm0_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.hpp"
namespace {
namespace sf = steering;
sf::State in(const St &a) { sf::State s; s.x = a.x; s.y = a.y; s.theta = a.th; s.kappa = a.k; s.d = a.d; return s; }
const char *RSN[] = { "E", "S", "T", "TT", "TcT", "TcTcT", "TcTT", "TTcT", "TST", "TSTcT", "TcTST", "TcTSTcT", "TTcTT", "TcTTcT", "TTT", "TcST", "TScT", "TcScT" };
const char *CCN[] = { "E", "S", "T", "TT", "TST", "TTT", "TTTT" };
const char *tname(const sf::HC_CC_RS_Path &p) { int t = (int)p.type; return t >= 0 && t < 18 ? RSN[t] : nullptr; }
const char *tname(const sf::CC_Dubins_Path &p) { int t = (int)p.type; return t >= 0 && t < 7 ? CCN[t] : nullptr; }
// pose on the path at a border of segments next to configuration c, at or after border `from`; returns the border or -1
double gap(const Pose &p, const sf::Configuration &c) { return std::max(std::hypot(p.x - c.x, p.y - c.y), std::fabs(wrapa(p.th - c.theta))); }
template <class P> void object(Rep &R, const char *name, const Cfg &c, const Query &q, char k0, char k1, const P *p, double dist, const std::vector<sf::Control> &cs, double tol)
{
  std::string where = fmt("%s %s start=%s goal=%s", name, str(c).c_str(), str(q.a).c_str(), str(q.b).c_str());
  if (!p) { R.bad(fmt("null:%s", name), where + ": no path object"); return; }
  R.c("path_objects");
  auto bad = [&](const char *k, const std::string &t) { R.bad(fmt("%s:%s", k, name), where + ": " + t); };
  const char *ty = tname(*p);
  if (!ty) { bad("type", "type out of range"); return; }
  R.see(mix(std::hash<std::string>()(name), (uint64_t)p->type));
  if (!(p->length == dist || std::fabs(p->length - dist) <= 1e-9 * (1 + dist))) bad("length", fmt("length of the object %.17g, distance %.17g", p->length, dist));
  if (p->kappa != c.k || p->sigma != c.s) bad("limits", fmt("limits of the object %.17g %.17g", p->kappa, p->sigma));
  Pose A{ q.a.x, q.a.y, q.a.th, 0 }, B{ q.b.x, q.b.y, q.b.th, 0 };
  if (!(gap(A, p->start) <= 1e-9)) bad("start", fmt("start of the object is off by %.3g", gap(A, p->start)));
  if (!(gap(B, p->end) <= 1e-9)) bad("end", fmt("end of the object is off by %.3g", gap(B, p->end)));
  auto kap = [&](const char *w, char cv, double k, double user) {
    double e = cv == '0' ? std::fabs(k) : std::fabs(std::fabs(k) - c.k);
    if (!(e <= 1e-9)) bad(w, fmt("curvature %.17g", k));
    if (cv == 'p' && user * k < 0) bad(w, fmt("curvature %.17g, user's %.17g", k, user)); };
  kap("start_curvature", k0, p->start.kappa, q.a.k); kap("end_curvature", k1, p->end.kappa, q.b.k);
  // intermediate configurations, in driving order, at borders of the segments of the returned controls
  std::vector<Pose> border; Pose x = A; border.push_back(x); double len = 0;
  int cusps = 0; double pd = 0;
  for (auto &u : cs) { x = drive(x, Ct{ u.delta_s, u.kappa, u.sigma }); border.push_back(x); len += std::fabs(u.delta_s); if (std::fabs(u.delta_s) > 1e-6) { if (pd && sgn1(u.delta_s) != pd) cusps++; pd = sgn1(u.delta_s); } }
  const sf::Configuration *qi[4] = { p->qi1, p->qi2, p->qi3, p->qi4 };
  // smallest possible worst gap over all assignments in driving order
  std::vector<double> w(border.size(), 0);
  int n = 0; double prev = 0;
  for (int i = 0; i < 4; i++)
  {
    if (!qi[i]) continue;
    n++; R.c("intermediate_configurations");
    double run = 1e300;
    for (size_t b = 0; b < border.size(); b++) { run = std::min(run, w[b]); w[b] = std::max(run, gap(border[b], *qi[i])); }
    double g = *std::min_element(w.begin(), w.end());
    if (!(g <= tol)) { bad("intermediate", fmt("configuration qi%d (%.17g %.17g %.17g) of type %s is not on the returned path in driving order (off by %.3g, before %.3g)", i + 1, qi[i]->x, qi[i]->y, qi[i]->theta, ty, g, prev)); return; }
    prev = g;
  }
  if (n) { R.w("max_configuration_gap", prev); R.w("max_gap_over_tolerance", prev / tol); }
  // structure
  std::string s = ty;
  bool ok = true;
  if (s == "E") ok = len <= 1e-9 && dist <= 1e-9;
  if (s == "S") ok = cs.size() == 1 && cs[0].kappa == 0 && cs[0].sigma == 0;
  if (!ok) bad("structure", fmt("controls do not have the structure %s", ty));
  R.c(std::string("type_") + ty);
  // displayed text: type, length and the configurations in driving order
  static long shown = 0;
  if (shown++ < 20000)
  {
    std::ostringstream os; auto *old = std::cout.rdbuf(os.rdbuf()); p->print(true); std::cout.rdbuf(old); std::string t = os.str(); R.c("displays");
    std::vector<double> num; for (size_t i = 0; i < t.size();) { if ((t[i] >= '0' && t[i] <= '9') || (t[i] == '-' && i + 1 < t.size() && t[i + 1] >= '0' && t[i + 1] <= '9')) { char *e; num.push_back(strtod(t.c_str() + i, &e)); i = e - t.c_str(); } else i++; }
    std::vector<double> want{ p->length }; auto add = [&](const sf::Configuration &k) { want.insert(want.end(), { k.x, k.y, k.theta, k.kappa }); };
    add(p->start); for (auto *k : qi) if (k) add(*k); add(p->end);
    bool ok2 = num.size() == want.size() && t.find(std::string(" ") + ty + ",") != std::string::npos && t.back() == '\n';
    for (size_t i = 0; ok2 && i < num.size(); i++) ok2 = std::fabs(num[i] - want[i]) <= 1e-4 * std::fabs(want[i]) + 1e-300;
    if (!ok2) bad("display", fmt("displayed as '%s'", t.c_str()));
  }
  if (cusps) R.c("objects_with_cusps");
}
template <class V> void prediction(Rep &R, const char *name, const Cfg &c, const St &a, int dir, const V &v)
{
  std::string where = fmt("%s::predict_state %s state=%s direction=%d", name, str(c).c_str(), str(a).c_str(), dir);
  auto bad = [&](const char *k, const std::string &t) { R.bad(fmt("predict_%s:%s", k, name), where + ": " + t); };
  R.c("predictions", (long)v.size());
  double ak = std::fabs(a.k);
  if (v.empty()) { bad("none", "no predicted state"); return; }
  int have = 0; // bits: (zero/max) x (forwards/backwards)
  for (auto &pc : v)
  {
    const sf::State &s = pc.first; const sf::Control &u = pc.second;
    double L = std::fabs(u.delta_s);
    Pose e = drive(Pose{ a.x, a.y, a.th, a.k }, sgn1(u.delta_s), u.sigma, L);
    double g = std::max(std::hypot(e.x - s.x, e.y - s.y), std::fabs(wrapa(e.th - s.theta))), gk = std::fabs(e.k - s.kappa);
    double lim = 1e-9 * (1 + std::fabs(a.th) + c.k * c.k / c.s + 1 / std::sqrt(c.s)) + 1e-13 * (std::fabs(a.x) + std::fabs(a.y));
    R.w("max_prediction_gap", g);
    if (!(g <= lim && gk <= 1e-9 * (1 + c.k))) bad("motion", fmt("control {%.17g %.17g %.17g} does not lead to (%.17g %.17g %.17g %.17g), off by %.3g/%.3g", u.delta_s, u.kappa, u.sigma, s.x, s.y, s.theta, s.kappa, g, gk));
    if (u.kappa != a.k) bad("start", fmt("control starts with curvature %.17g", u.kappa));
    bool zero = std::fabs(s.kappa) < 1.5e-4, full = std::fabs(std::fabs(s.kappa) - c.k) < 1.5e-4 && s.kappa * a.k >= 0;
    if (!zero && !full) bad("target", fmt("predicted curvature %.17g", s.kappa));
    if (L > 0 && !(std::fabs(std::fabs(u.sigma) - c.s) <= 1e-12 * c.s)) bad("sharpness", fmt("sharpness %.17g", u.sigma));
    if (dir && u.delta_s * dir < 0) bad("direction", fmt("length %.17g", u.delta_s));
    if (L > 0) have |= 1 << ((full ? 2 : 0) + (u.delta_s < 0 ? 1 : 0));
    if (!(L <= c.k / c.s * (1 + 1e-9))) bad("length", fmt("length %.17g", u.delta_s));
    R.see(mix(name[0] + 77, (zero ? 1 : 0) + (full ? 2 : 0) + (u.delta_s < 0 ? 4 : 0) + (u.sigma > 0 ? 8 : 0) + (L > 0 ? 16 : 0)));
  }
  // unless nothing is to be done, both targets in every direction are offered
  if (ak > 2e-4 && c.k - ak > 2e-4)
  {
    int want = dir > 0 ? 5 : (dir < 0 ? 10 : 15);
    if (have != want) bad("missing", fmt("set of targets %d, expected %d", have, want));
  }
}
} // namespace
MON(C19)
{
  Rng r(mix(seed, idx));
  Cfg c = gen_cfg(r); Query q = gen_query(r, c); bool f = r.b();
  double far = std::max(std::fabs(q.a.x) + std::fabs(q.a.y), std::fabs(q.b.x) + std::fabs(q.b.y));
  if (far > 1e4) { q.a.x = std::fmod(q.a.x, 1e4); q.b.x = std::fmod(q.b.x, 1e4); q.a.y = std::fmod(q.a.y, 1e4); q.b.y = std::fmod(q.b.y, 1e4); }
  NOW("path objects %s start=%s goal=%s", str(c).c_str(), str(q.a).c_str(), str(q.b).c_str());
  // the resolution of the library (angles of 1e-4), amplified by geometry and distance
  double tol = 4e-4 * (1 + 20 / c.k) * (c.broad ? 10 : 1) + 3e-4 * std::hypot(q.a.x - q.b.x, q.a.y - q.b.y) + 1e-9 * far;
  sf::State a = in(q.a), b = in(q.b);
#define OBJ(T, fn, k0, k1, ...) { sf::T s(__VA_ARGS__); auto *p = s.fn(a, b); object(R, #fn, c, q, k0, k1, p, s.get_distance(a, b), s.get_controls(a, b), tol); delete p; }
  OBJ(CC00_Dubins_State_Space, cc00_dubins, '0', '0', c.k, c.s, c.disc, f)
  OBJ(CC0pm_Dubins_State_Space, cc0pm_dubins, '0', 'p', c.k, c.s, c.disc, f)
  OBJ(CCpm0_Dubins_State_Space, ccpm0_dubins, 'p', '0', c.k, c.s, c.disc, f)
  OBJ(CCpmpm_Dubins_State_Space, ccpmpm_dubins, 'p', 'p', c.k, c.s, c.disc, f)
  OBJ(CC00_Reeds_Shepp_State_Space, cc00_reeds_shepp, '0', '0', c.k, c.s, c.disc)
  OBJ(HC00_Reeds_Shepp_State_Space, hc00_reeds_shepp, '0', '0', c.k, c.s, c.disc)
  OBJ(HC0pm_Reeds_Shepp_State_Space, hc0pm_reeds_shepp, '0', 'p', c.k, c.s, c.disc)
  OBJ(HCpm0_Reeds_Shepp_State_Space, hcpm0_reeds_shepp, 'p', '0', c.k, c.s, c.disc)
  OBJ(HCpmpm_Reeds_Shepp_State_Space, hcpmpm_reeds_shepp, 'p', 'p', c.k, c.s, c.disc)
  for (int i = 0; i < 2; i++)
  {
    const St &s = i ? q.b : q.a; bool fw = r.b();
    { sf::CC_Dubins_State_Space p(c.k, c.s, c.disc, f); prediction(R, "CC_Dubins", c, s, fw ? 1 : -1, p.predict_state(in(s), fw)); }
    { sf::HC_Reeds_Shepp_State_Space p(c.k, c.s, c.disc); prediction(R, "HC_Reeds_Shepp", c, s, 0, p.predict_state(in(s))); }
  }
}
