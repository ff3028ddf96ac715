// C20: the visualization node, run against stand-ins of the ROS interface that record every published message
#include <set>
#include "common.hpp"
#include "costmap_2d/footprint.h"
#include "geometry_msgs/PoseArray.h"
#include "nav_msgs/Path.h"
#include "ros/ros.h"
#include "visualization_msgs/MarkerArray.h"
extern "C" int steering_functions_node_main(int, char **);
namespace {
Rng *g_r = nullptr;
double latency() { int k = g_r->i(60); return k < 20 ? 0. : k < 59 ? g_r->lg(1e-4, 0.05) : g_r->lg(0.05, 60); }
const std::map<std::string, int> TYPES = { { "CC_Dubins", CC_F }, { "CC00_Dubins", CC00_F }, { "CC0pm_Dubins", CC0PM_F }, { "CCpm0_Dubins", CCPM0_F }, { "CCpmpm_Dubins", CCPMPM_F }, { "Dubins", DUBINS_F }, { "CC00_RS", CC00_RS }, { "HC_RS", HC }, { "HC00_RS", HC00 }, { "HC0pm_RS", HC0PM }, { "HCpm0_RS", HCPM0 }, { "HCpmpm_RS", HCPMPM }, { "RS", RS } };
double yaw(const geometry_msgs::Quaternion &q) { return 2 * std::atan2(q.z, q.w); }
bool same(const geometry_msgs::Point &a, double x, double y, double tol = 1e-9) { return std::fabs(a.x - x) <= tol && std::fabs(a.y - y) <= tol; }
struct Robot { double k, s, L, T, rad, wid; Noise n; std::vector<geometry_msgs::Point> fp; };
typedef std::vector<geometry_msgs::Point> Pts;
// polygon moved to a pose, as the set of its edges
void edges(Pts &out, const Pts &poly, double x, double y, double th)
{
  Pts p; costmap_2d::transformFootprint(x, y, th, poly, p);
  for (size_t i = 0; i < p.size(); i++) { out.push_back(p[(i + p.size() - 1) % p.size()]); out.push_back(p[i]); }
}
// largest distance between two lists of edges, independent of their order and orientation
double edge_gap(const geometry_msgs::Point *a, const Pts &b)
{
  size_t n = b.size() / 2; std::vector<char> used(n, 0); double worst = 0;
  for (size_t i = 0; i < n; i++)
  {
    double best = 1e300; size_t at = 0;
    for (size_t j = 0; j < n; j++)
    {
      if (used[j]) continue;
      auto d = [&](const geometry_msgs::Point &u, const geometry_msgs::Point &v) { return std::hypot(u.x - v.x, u.y - v.y); };
      double e = std::min(std::max(d(a[2 * i], b[2 * j]), d(a[2 * i + 1], b[2 * j + 1])), std::max(d(a[2 * i], b[2 * j + 1]), d(a[2 * i + 1], b[2 * j])));
      if (!(e >= best)) { best = e; at = j; }
    }
    used[at] = 1; worst = std::max(worst, best);
  }
  return worst;
}
} // namespace
MON(C20)
{
  Rng r(mix(seed, idx)); g_r = &r;
  Robot b; b.k = r.lg(0.1, 1.2); b.s = b.k * b.k / (2 * r.lg(0.05, 2)); b.L = r.u(0.5, 4); b.T = std::min(r.u(0.3, 2), 1.6 / b.k); b.rad = r.u(0.1, 0.6); b.wid = r.u(0.05, 0.4);
  b.n = Noise{ r.u(0, 0.3), r.u(0, 0.3), r.u(0, 0.3), r.u(0, 0.3), r.lg(0.01, 0.3), r.lg(0.01, 0.3), r.lg(0.01, 0.3), r.u(0.2, 2), r.u(0.1, 2), r.u(0.1, 2) };
  int nf = 3 + r.i(20); for (int i = 0; i < nf; i++) { geometry_msgs::Point p; double a = 2 * PI_ * (i + r.u(0, 0.9)) / nf, q = r.u(0.5, 3); p.x = 1 + q * std::cos(a); p.y = q * std::sin(a); b.fp.push_back(p); }
  rosstub::World &w = rosstub::world(); w = rosstub::World(); w.latency = latency; w.now = r.u(1, 2e9); w.max_ok = 1 + r.i(2); long loops = w.max_ok;
  w.params = { { "kappa_max", b.k }, { "sigma_max", b.s }, { "wheel_base", b.L }, { "track_width", b.T }, { "wheel_radius", b.rad }, { "wheel_width", b.wid }, { "motion_noise/alpha1", b.n.a1 }, { "motion_noise/alpha2", b.n.a2 }, { "motion_noise/alpha3", b.n.a3 }, { "motion_noise/alpha4", b.n.a4 }, { "measurement_noise/std_x", b.n.sx }, { "measurement_noise/std_y", b.n.sy }, { "measurement_noise/std_theta", b.n.sth }, { "controller/k1", b.n.k1 }, { "controller/k2", b.n.k2 }, { "controller/k3", b.n.k3 } };
  costmap_2d::stub_footprint() = b.fp;
  std::string where = fmt("node kappa_max=%.17g sigma_max=%.17g time=%.17g", b.k, b.s, w.now);
  NOW("%s", where.c_str());
  char arg0[] = "node"; char *argv[] = { arg0, nullptr }; int argc = 1;
  int rc = steering_functions_node_main(argc, argv);
  auto bad = [&](const char *k, const std::string &t, int strict = 0) { R.bad(k, where + ": " + t, strict); };
  if (rc) bad("exit", fmt("node returned %d", rc));
  R.c("runs"); R.c("messages", (long)w.msgs.size()); R.c("subscriber_polls", w.polls);
  // cycles of five messages
  const char *TOP[5] = { "~visualization_path", "~visualization_poses", "~visualization_text", "~visualization_covariances", "~visualization_swath" };
  if ((long)w.msgs.size() != loops * 13 * 5) { bad("count", fmt("%zu messages for %ld rounds of 13 steering functions", w.msgs.size(), loops)); return; }
  Pts wheel; { double x = b.rad, y = b.wid / 2; double X[4] = { x, -x, -x, x }, Y[4] = { y, y, -y, -y }; for (int i = 0; i < 4; i++) { geometry_msgs::Point p; p.x = X[i]; p.y = Y[i]; wheel.push_back(p); } }
  for (long loop = 0; loop < loops; loop++)
  {
    std::set<std::string> shown; double sx = 0, sy = 0, st = 0, gx = 0, gy = 0, gt = 0, ka = 0, kg = 0; bool have = false;
    for (int c = 0; c < 13; c++)
    {
      const rosstub::Msg *m[5] = {}; std::string frame;
      for (int i = 0; i < 5; i++)
      {
        const rosstub::Msg &x = w.msgs[(loop * 13 + c) * 5 + i]; bool ok = false;
        for (int t = 0; t < 5; t++) if (x.topic == TOP[t] && !m[t]) { m[t] = &x; ok = true; }
        if (!ok) { bad("order", "message on " + x.topic + " out of turn"); return; }
        if (!x.delivered) bad("lost", "message on " + x.topic + " published before its subscriber is connected");
        const char *want = i < 0 ? "" : x.topic == TOP[0] ? typeid(nav_msgs::Path).name() : x.topic == TOP[1] ? typeid(geometry_msgs::PoseArray).name() : typeid(visualization_msgs::MarkerArray).name();
        if (x.type != want) { bad("type", "message on " + x.topic + " of type " + x.type); return; }
      }
      auto &path = *(nav_msgs::Path *)m[0]->data.get(); auto &poses = *(geometry_msgs::PoseArray *)m[1]->data.get();
      auto &text = *(visualization_msgs::MarkerArray *)m[2]->data.get(), &cov = *(visualization_msgs::MarkerArray *)m[3]->data.get(), &swath = *(visualization_msgs::MarkerArray *)m[4]->data.get();
      // one frame of reference
      frame = path.header.frame_id; bool fr = !frame.empty() && poses.header.frame_id == frame;
      for (auto *a : { &text, &cov, &swath }) { std::set<std::pair<std::string, int>> ids; for (auto &k : a->markers) { fr = fr && k.header.frame_id == frame; if (!ids.insert({ k.ns, k.id }).second) bad("marker_id", fmt("two markers with id %d in one message", k.id)); if (k.action != visualization_msgs::Marker::ADD) bad("action", "marker is not added"); if (!(k.color.a > 0)) bad("invisible", "transparent marker"); } }
      if (!fr) bad("frame", "messages of one cycle in different frames");
      // what is shown
      std::string type; const visualization_msgs::Marker *ms = nullptr, *mg = nullptr;
      for (auto &k : text.markers) { if (k.text == "start") ms = &k; else if (k.text == "goal") mg = &k; else { size_t p = k.text.find(") "), q = k.text.find(" Steer"); if (p != std::string::npos && q != std::string::npos && q > p) type = k.text.substr(p + 2, q - p - 2); } }
      if (!ms || !mg || !TYPES.count(type) || text.markers.size() != 3) { bad("text", fmt("texts of '%s' not complete", type.c_str())); return; }
      if (!shown.insert(type).second) bad("repeated", type + " shown twice");
      if (poses.poses.size() != 2) { bad("poses", "start and goal expected"); return; }
      auto &ps = poses.poses[0], &pg = poses.poses[1];
      St a{ ps.position.x, ps.position.y, yaw(ps.orientation), 0, 0 }, g{ pg.position.x, pg.position.y, yaw(pg.orientation), 0, 0 };
      std::string q = fmt("%s start=%s goal=%s", type.c_str(), str(a).c_str(), str(g).c_str()); NOW("%s %s", where.c_str(), q.c_str());
      if (!same(ms->pose.position, a.x, a.y) || !same(mg->pose.position, g.x, g.y)) bad("text_position", q + ": texts away from start and goal");
      if (have && !(same(ps.position, sx, sy) && same(pg.position, gx, gy) && std::fabs(wrapa(a.th - st)) < 1e-9 && std::fabs(wrapa(g.th - gt)) < 1e-9)) bad("same_query", q + ": steering functions of one round have different queries");
      have = true; sx = a.x; sy = a.y; st = a.th; gx = g.x; gy = g.y; gt = g.th;
      if (!(std::max(std::max(std::fabs(a.x), std::fabs(a.y)), std::max(std::fabs(g.x), std::fabs(g.y))) <= 10 + 1e-9)) bad("region", q + ": outside the operating region");
      // swath: chassis and front wheels at every state
      size_t n = path.poses.size(); const visualization_msgs::Marker *mc = nullptr, *mw = nullptr;
      for (auto &k : swath.markers) { if (k.points.size() == 2 * n * b.fp.size() && (!mc || k.points.size() != 16 * n)) mc = &k; else if (k.points.size() == 16 * n) mw = &k; }
      if (n < 1) { bad("path", q + ": empty path"); continue; }
      if (!mc || !mw || mc == mw || swath.markers.size() != 2 || mc->type != visualization_msgs::Marker::LINE_LIST || mw->type != visualization_msgs::Marker::LINE_LIST) { bad("swath", q + ": swath does not have one footprint and two wheels per state"); continue; }
      if (b.fp.size() == 8) { Pts e; auto &p0 = path.poses[0].pose; edges(e, b.fp, p0.position.x, p0.position.y, yaw(p0.orientation)); if (edge_gap(mc->points.data(), e) > 1e-6) std::swap(mc, mw); }
      // curvature at both ends, from the front left wheel
      auto kappa = [&](size_t i) {
        auto &po = path.poses[i].pose; const geometry_msgs::Point *e = &mw->points[16 * i]; double th = yaw(po.orientation), co = std::cos(th), si = std::sin(th);
        // the left wheel is the one of both quadruples of edges with larger lateral position
        double bestk = 0, besty = -1e300;
        for (int h = 0; h < 2; h++)
        {
          double cx = 0, cy = 0; for (int j = 0; j < 8; j++) { cx += e[8 * h + j].x / 8; cy += e[8 * h + j].y / 8; }
          double lx = (cx - po.position.x) * co + (cy - po.position.y) * si, ly = -(cx - po.position.x) * si + (cy - po.position.y) * co; (void)lx;
          if (ly <= besty) continue;
          besty = ly; double dx = 0, dy = 0; // edges along the driving direction: those of length 2*radius
          for (int j = 0; j < 4; j++) { double ux = e[8 * h + 2 * j + 1].x - e[8 * h + 2 * j].x, uy = e[8 * h + 2 * j + 1].y - e[8 * h + 2 * j].y; if (std::fabs(std::hypot(ux, uy) - 2 * b.rad) < std::fabs(std::hypot(ux, uy) - b.wid)) { if (ux * (co) + uy * (si) < 0) { ux = -ux; uy = -uy; } dx += ux; dy += uy; } }
          double lax = dx * co + dy * si, lay = -dx * si + dy * co, tn = lay / lax; // tan of the steering angle
          bestk = tn == 0 ? 0. : 1 / (b.L / tn + b.T / 2);
        }
        return bestk; };
      int id = TYPES.at(type); auto pl = cur::make(id, b.k, b.s, 0.1); pl->filt(b.n);
      double tolk = 0;
      if (pl->k0 == 'a') { a.k = kappa(0); g.k = kappa(n - 1); if (std::fabs(2 * b.rad - b.wid) < 0.02) { R.c("curvature_not_recovered"); continue; }
        if (ka != 0 || kg != 0) { if (!(std::fabs(a.k - ka) <= 1e-6 && std::fabs(g.k - kg) <= 1e-6)) bad("same_curvature", q + fmt(": start and goal curvature %.9g %.9g, but %.9g %.9g in the same round", a.k, g.k, ka, kg), 1); }
        if ( std::fabs(a.k) < 1.1e-4 || std::fabs(g.k) < 1.1e-4 || std::fabs(a.k) > b.k * (1 - 1e-6) || std::fabs(g.k) > b.k * (1 - 1e-6)) { bad("curvature", q + fmt(": start and goal curvature %.9g %.9g not distributed over the admissible ones", a.k, g.k), 2); continue; } ka = a.k; kg = g.k; tolk = 1e-6; }
      Sc s0; s0.q = a; for (int i = 0; i < 16; i++) s0.S[i] = s0.L[i] = s0.C[i] = 0; s0.S[0] = s0.C[0] = b.n.sx * b.n.sx; s0.S[5] = s0.C[5] = b.n.sy * b.n.sy; s0.S[10] = s0.C[10] = b.n.sth * b.n.sth;
      auto want = pl->pathc(s0, g);
      R.c("paths"); R.c("states", (long)n); R.see(mix(id, n)); R.see(mix(id + 100, pl->ctl(a, g).size()));
      // the recovered query is the original one up to round-off. Where that decides between paths, the published one has to be one of the
      // same length from start to goal in steps of the discretization; beyond that it is compared only if it is the same path
      double worst = want.size() == n ? 0 : 1e300; int lev = 1;
      for (size_t i = 0; i < n && want.size() == n; i++) { double e = std::max(std::hypot(path.poses[i].pose.position.x - want[i].q.x, path.poses[i].pose.position.y - want[i].q.y), std::fabs(wrapa(yaw(path.poses[i].pose.orientation) - want[i].q.th))); if (!(e <= worst)) worst = e; }
      if (!(worst <= 1e-6 + 10 * tolk))
      {
        double len = 0, step = 0; for (size_t i = 1; i < n; i++) { double d = std::hypot(path.poses[i].pose.position.x - path.poses[i - 1].pose.position.x, path.poses[i].pose.position.y - path.poses[i - 1].pose.position.y); len += d; step = std::max(step, d); }
        auto off = [&](size_t i, const geometry_msgs::Pose &p) { auto &o = path.poses[i].pose; return std::max(std::hypot(o.position.x - p.position.x, o.position.y - p.position.y), std::fabs(wrapa(yaw(o.orientation) - yaw(p.orientation)))); };
        double D = pl->dist(a, g), ends = std::max(off(0, ps), off(n - 1, pg));
        bool alike = step <= 0.1 + 1e-6 && ends <= 1e-3 && std::fabs(len - D) <= 0.01 + 0.01 * D;
        bad("path", q + fmt(": published path (%zu states, length about %.6g) is not the one of the steering function (%zu states, length %.6g)", n, len, want.size(), D), alike ? 2 : lev);
        continue;
      }
      R.c("paths_equal"); R.w("max_path_gap", worst);
      worst = 0; double ww = 0;
      for (size_t i = 0; i < n; i++)
      {
        double x = want[i].q.x, y = want[i].q.y, th = want[i].q.th, k = want[i].q.k; Pts e; edges(e, b.fp, x, y, th); if (i % 7 == 0 || i + 1 == n) worst = std::max(worst, edge_gap(&mc->points[2 * b.fp.size() * i], e));
        Pts v; double co = std::cos(th), si = std::sin(th);
        for (int h = 0; h < 2; h++) { double ly = h ? -b.T / 2 : b.T / 2, de = std::atan2(b.L * k, 1 - k * ly); edges(v, wheel, x + b.L * co - ly * si, y + b.L * si + ly * co, th + de); }
        ww = std::max(ww, edge_gap(&mw->points[16 * i], v) - 4e-4 * b.L * (b.rad + b.wid)); // small curvatures are drawn as straight
      }
      R.w("max_footprint_gap", worst); R.w("max_wheel_gap", ww);
      if (!(worst <= 1e-5 + 10 * tolk)) bad("footprint", q + fmt(": footprint is off by %.3g", worst), lev);
      if (!(ww <= 1e-5 + 10 * tolk)) bad("wheels", q + fmt(": wheels are off by %.3g", ww), lev);
      // ellipsoids of every tenth state
      if (cov.markers.size() != (n + 9) / 10) { bad("covariances", q + fmt(": %zu ellipsoids for %zu states", cov.markers.size(), n)); continue; }
      worst = 0;
      for (size_t j = 0; j < cov.markers.size(); j++)
      {
        auto &k = cov.markers[j]; const Sc &s = want[10 * j]; double z[4] = { k.pose.orientation.x, k.pose.orientation.y, k.pose.orientation.z, k.pose.orientation.w };
        double nn = z[0] * z[0] + z[1] * z[1] + z[2] * z[2] + z[3] * z[3], X = z[0], Y = z[1], Z = z[2], W = z[3];
        double Q[3][3] = { { 1 - 2 * (Y * Y + Z * Z), 2 * (X * Y - Z * W), 2 * (X * Z + Y * W) }, { 2 * (X * Y + Z * W), 1 - 2 * (X * X + Z * Z), 2 * (Y * Z - X * W) }, { 2 * (X * Z - Y * W), 2 * (Y * Z + X * W), 1 - 2 * (X * X + Y * Y) } };
        double l[3] = { k.scale.x / 6, k.scale.y / 6, k.scale.z / 6 }, e = std::fabs(nn - 1), mx = 0;
        for (int u = 0; u < 3; u++) for (int v = 0; v < 3; v++) { double c2 = 0; for (int h = 0; h < 3; h++) c2 += Q[u][h] * l[h] * l[h] * Q[v][h]; double f = std::fabs(c2 - s.C[4 * u + v]); if (!(f <= e)) e = f; mx = std::max(mx, std::fabs(s.C[4 * u + v])); }
        double f = std::hypot(k.pose.position.x - s.q.x, k.pose.position.y - s.q.y); if (k.type != visualization_msgs::Marker::SPHERE) f = 1;
        worst = std::max(worst, std::max(f, e / (1 + mx))); if (std::isnan(e)) worst = 1e300; R.c("ellipsoids");
      }
      R.w("max_ellipsoid_gap", worst);
      if (!(worst <= 1e-5 + 10 * tolk)) bad("covariances", q + fmt(": ellipsoids are off by %.3g", worst), lev);
    }
    if (shown.size() != 13) bad("missing", "not every steering function is shown");
  }
  w.msgs.clear();
  if (R.samples.size() < 3) R.sample(g_now);
}
