// independent model of one filter step
#pragma once
#include <Eigen/Dense>
#include "common.hpp"
typedef Eigen::Matrix3d M3; typedef Eigen::Matrix<double, 3, 2> M32; typedef Eigen::Matrix<double, 2, 3> M23; typedef Eigen::Matrix2d M2;
static M3 get(const double *s) { M3 m; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m(i, j) = s[4 * i + j]; return m; }
// derivatives of the exact motion of one step by quadrature
static void own_jacobian(const St &s, double d, double sigma, double h, M3 &Fx, M32 &Fu)
{
  static const double X[8] = { 0.0950125098376374, 0.2816035507792589, 0.4580167776572274, 0.6178762444026438, 0.7554044083550030, 0.8656312023878318, 0.9445750230732326, 0.9894009349916499 };
  static const double W[8] = { 0.1894506104550685, 0.1826034150449236, 0.1691565193950025, 0.1495959888165767, 0.1246289712555339, 0.0951585116824928, 0.0622535239386479, 0.0271524594117541 };
  bool straight = std::fabs(sigma) <= 1e-4 && std::fabs(s.k) <= 1e-4;
  double sg = std::fabs(sigma) <= 1e-4 ? 0 : sigma, k = straight ? 0 : s.k;
  int n = (int)std::ceil((std::fabs(k) + std::fabs(sg) * h) * h / 1.5) + 1; double dl = h / n;
  double c0 = 0, s0 = 0, c1 = 0, s1 = 0;
  for (int i = 0; i < n; i++) for (int j = 0; j < 8; j++) for (int m = -1; m <= 1; m += 2)
  {
    double l = (i + 0.5 * (1 + m * X[j])) * dl, th = s.th + d * (k * l + 0.5 * sg * l * l), w = 0.5 * dl * W[j];
    c0 += w * std::cos(th); s0 += w * std::sin(th); c1 += w * l * std::cos(th); s1 += w * l * std::sin(th);
  }
  double te = s.th + d * (k * h + 0.5 * sg * h * h);
  Fx = M3::Identity(); Fx(0, 2) = -d * s0; Fx(1, 2) = d * c0;
  Fu << std::cos(te), straight ? 0 : -s1, std::sin(te), straight ? 0 : c1, s.k + sg * h, d * h; // a line does not depend on the curvature
}
static void own_step(const St &s, double d, double sigma, double h, const Noise &n, const M3 &S, const M3 &L, M3 &S2, M3 &L2, double &e, M3 *fs = nullptr, M3 *fl = nullptr)
{
  M3 Fx; M32 Fu; own_jacobian(s, d, sigma, h, Fx, Fu);
  M2 Q = M2::Zero(); Q(0, 0) = n.a1 * h * h + n.a2 * s.k * s.k; Q(1, 1) = n.a3 * h * h + n.a4 * s.k * s.k;
  M3 Sp = Fx * S * Fx.transpose() + Fu * Q * Fu.transpose();
  M23 K = M23::Zero(); K(0, 0) = n.k1; K(1, 1) = n.k2; K(1, 2) = d * n.k3;
  M3 Ro = M3::Identity(); Ro(0, 0) = Ro(1, 1) = std::cos(s.th); Ro(0, 1) = std::sin(s.th); Ro(1, 0) = -std::sin(s.th);
  M3 FK = Fx - Fu * K * Ro;
  M3 Lp = FK * L * FK.transpose();
  M3 Rm = M3::Zero(); Rm(0, 0) = n.sx * n.sx; Rm(1, 1) = n.sy * n.sy; Rm(2, 2) = n.sth * n.sth;
  M3 G = (Sp + Rm).ldlt().solve(Sp).transpose(); // Kalman gain
  M3 upd = G * Sp;
  S2 = Sp - upd; L2 = Lp + upd;
  // round-off of one step
  M3 C = Sp + Rm; Eigen::SelfAdjointEigenSolver<M3> es(0.5 * (C + C.transpose()));
  double cond = es.eigenvalues()(0) > 0 ? es.eigenvalues()(2) / es.eigenvalues()(0) : 1e300;
  auto nrm = [](const M3 &m) { Eigen::SelfAdjointEigenSolver<M3> e(m * m.transpose()); return e.eigenvalues()(2); }; // squared spectral norm
  e = 1e-15 * ((1 + cond) * (Sp.norm() + upd.norm()) + nrm(Fx) * S.norm() + nrm(FK) * L.norm() + Fu.squaredNorm() * Q.norm());
  if (fs) *fs = Fx - G * Fx; if (fl) *fl = FK; // propagation of errors made before
}
static double min_eig(const M3 &m) { Eigen::SelfAdjointEigenSolver<M3> es(0.5 * (m + m.transpose())); return es.eigenvalues()(0); }
static Noise gen_noise(Rng &r)
{
  Noise n{ r.i(4) ? r.lg(1e-4, 1) : 0, r.i(4) ? r.lg(1e-4, 0.3) : 0, r.i(4) ? r.lg(1e-4, 1) : 0, r.i(4) ? r.lg(1e-4, 0.3) : 0, r.lg(0.01, 1), r.lg(0.01, 1), r.lg(0.01, 0.3), r.u(0, 2), r.u(0, 2), r.u(0, 2) };
  return n;
}
static void gen_cov(Rng &r, Sc &s)
{
  for (int i = 0; i < 16; i++) s.S[i] = s.L[i] = s.C[i] = 0;
  for (int w = 0; w < 2; w++)
  {
    if (w ? r.b() : r.i(4) == 0) continue;
    M3 A; for (int i = 0; i < 9; i++) A(i) = r.u(-0.3, 0.3);
    M3 C = A * A.transpose(); if (r.i(4) == 0) C = M3::Identity() * r.lg(1e-3, 1);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) (w ? s.L : s.S)[4 * i + j] = C(i, j);
  }
  for (int i = 0; i < 16; i++) s.C[i] = s.S[i] + s.L[i];
}
