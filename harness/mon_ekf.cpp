// C14: the filter on its own
#include "steering_functions/filter/ekf.hpp"
#include "jac.hpp"
using namespace steering;
static double rdiff(const M3 &a, const M3 &b) { double v = (a - b).cwiseAbs().maxCoeff(); return v == v ? v : INFINITY; }
MON(C14)
{
  Rng r(mix(seed, idx));
  Noise n = gen_noise(r);
  Motion_Noise mn{ n.a1, n.a2, n.a3, n.a4 }; Measurement_Noise ms{ n.sx, n.sy, n.sth }; Controller co{ n.k1, n.k2, n.k3 };
  EKF f;
  if (r.b()) f.set_parameters(Motion_Noise{ r.u(), r.u(), r.u(), r.u() }, Measurement_Noise{ r.u(), r.u(), r.u() }, Controller{ r.u(), r.u(), r.u() }); // the last ones count
  f.set_parameters(mn, ms, co);
  if (r.b()) { EKF g(f); g.set_parameters(Motion_Noise{ 9, 9, 9, 9 }, Measurement_Noise{ 9, 9, 9 }, Controller{ 9, 9, 9 }); EKF h(f); f = h; } // copies are independent
  for (int rep = 0; rep < 20; rep++)
  {
    State_With_Covariance a; Sc ca; gen_cov(r, ca);
    double b = r.i(4) ? 10 : 1e4;
    a.state.x = r.u(-b, b); a.state.y = r.u(-b, b); a.state.theta = r.i(4) ? r.u(-PI_, PI_) : r.u(-50, 50); a.state.d = r.sg();
    if (r.i(8) == 0) a.state.theta = (r.i(17) - 8) * PI_ / 4;
    int kind = r.i(3); // clothoid, arc, line
    double k = r.i(4) ? r.sg() * r.lg(0.01, 5) : 0, s = r.sg() * r.lg(0.02, 5);
    if (kind == 1) { s = 0; if (k == 0) k = r.sg(); } else if (kind == 2) { s = 0; k = 0; }
    double h = r.lg(1e-3, 3); if (r.i(4) == 0) h = 0.1;
    if (kind == 0 && r.i(6) == 0) { h = r.lg(0.05, 1); k = -s * h * r.u(); } // passes through zero
    a.state.kappa = k;
    Control u; u.sigma = s; double l0 = r.b() ? 0 : r.u(0, 2); u.kappa = k - s * l0; u.delta_s = r.sg() * (l0 + h + (r.b() ? r.u(0, 2) : 0));
    double d = sgn1(u.delta_s);
    for (int i = 0; i < 16; i++) { a.Sigma[i] = ca.S[i]; a.Lambda[i] = ca.L[i]; a.covariance[i] = ca.C[i]; }
    NOW("EKF state=(%.17g %.17g %.17g kappa=%.17g) control={%.17g %.17g %.17g} step=%.17g noise={%.9g %.9g %.9g %.9g | %.9g %.9g %.9g | %.9g %.9g %.9g}", a.state.x, a.state.y, a.state.theta, k, u.delta_s, u.kappa, u.sigma, h, n.a1, n.a2, n.a3, n.a4, n.sx, n.sy, n.sth, n.k1, n.k2, n.k3);
    R.c("steps"); R.see(kind | (d > 0 ? 4 : 0) | (k > 0 ? 8 : k < 0 ? 16 : 0) | (s > 0 ? 32 : 0) | ((uint64_t)(int)std::floor(std::log2(h)) << 8 & 0xff00) | ((uint64_t)((int)std::floor(4 * std::log2(std::fabs(s) + 1e-3)) & 0xff) << 16) | ((uint64_t)((int)std::floor(4 * std::log2(std::fabs(k) + 1e-3)) & 0xff) << 24));
    if (R.samples.size() < 2) R.sample(g_now);
    // Jacobians
    St s0{ a.state.x, a.state.y, a.state.theta, k, d }; M3 Fx; M32 Fu; own_jacobian(s0, d, s, h, Fx, Fu);
    Matrix3d F = Matrix3d::Zero(); Matrix32d G = Matrix32d::Zero(); f.get_motion_jacobi(a.state, u, h, F, G);
    double cond = kind == 0 ? (1 + std::fabs(k) + std::fabs(a.state.theta)) * (1 + 1 / (std::fabs(s) * std::sqrt(std::fabs(s)))) : kind == 1 ? 1 + 1 / (k * k) : 1;
    double e1 = rdiff(F, Fx) / (1 + h), e2 = (G - Fu).cwiseAbs().maxCoeff() / (1 + h * h + std::fabs(k)); if (e2 != e2) e2 = INFINITY;
    R.w("jacobian_state_deviation", e1); R.w("jacobian_control_deviation", e2); R.w("jacobian_control_scaled", e2 / cond);
    if (!(e1 <= 1e-11 * cond && e1 <= 1e-4)) R.bad(fmt("F_x:%d", kind), fmt("%s: derivative w.r.t. the pose deviates by %.3g", g_now, e1));
    if (!(e2 <= 1e-11 * cond && e2 <= 1e-4)) R.bad(fmt("F_u:%d", kind), fmt("%s: derivative w.r.t. arc length and curvature deviates by %.3g", g_now, e2));
    // models
    M2 Q = M2::Zero(); Q(0, 0) = n.a1 * h * h + n.a2 * k * k; Q(1, 1) = n.a3 * h * h + n.a4 * k * k;
    if (!((f.get_motion_covariance(a.state, u, h) - Q).norm() <= 1e-12 * (1 + Q.norm()))) R.bad("motion_covariance", fmt("%s: Q is wrong", g_now));
    M3 Rm = M3::Zero(); Rm(0, 0) = n.sx * n.sx; Rm(1, 1) = n.sy * n.sy; Rm(2, 2) = n.sth * n.sth;
    if (!(rdiff(f.get_observation_covariance(), Rm) <= 1e-12)) R.bad("observation_covariance", fmt("%s: R is wrong", g_now));
    if (!(rdiff(f.get_observation_jacobi(), M3::Identity()) <= 0)) R.bad("observation_jacobi", fmt("%s: H is not the identity", g_now));
    M23 K = M23::Zero(); K(0, 0) = n.k1; K(1, 1) = n.k2; K(1, 2) = d * n.k3;
    if (!((f.get_controller_gain(u) - K).norm() <= 1e-12)) R.bad("controller_gain", fmt("%s: K is wrong", g_now));
    double an = r.i(3) ? a.state.theta : r.u(-10, 10); M3 Ro = f.get_rotation_matrix(an);
    Eigen::Vector3d v(std::cos(an), std::sin(an), 0.5); // the heading is the local x axis
    if (!((Ro * v - Eigen::Vector3d(1, 0, 0.5)).norm() <= 1e-12 && (Ro * Ro.transpose() - M3::Identity()).norm() <= 1e-12 && std::fabs(Ro.determinant() - 1) <= 1e-12)) R.bad("rotation_matrix", fmt("%s: rotation by %.17g is wrong", g_now, an));
    // conversions
    double arr[16], back[16]; for (int i = 0; i < 16; i++) { arr[i] = r.u(-1, 1); back[i] = 0; }
    Matrix3d m = f.covariance_to_eigen(arr); bool ok = true; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) ok = ok && m(i, j) == arr[4 * i + j];
    f.eigen_to_covariance(m, back); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) ok = ok && back[4 * i + j] == (i < 3 && j < 3 ? arr[4 * i + j] : 0.);
    if (!ok) R.bad("conversion", "conversion between array and matrix is not the identity");
    // prediction
    M3 S = get(a.Sigma), L = get(a.Lambda);
    M3 Sp = Fx * S * Fx.transpose() + Fu * Q * Fu.transpose(), FK = Fx - Fu * K * [&] { M3 T = M3::Identity(); T(0, 0) = T(1, 1) = std::cos(a.state.theta); T(0, 1) = std::sin(a.state.theta); T(1, 0) = -T(0, 1); return T; }(), Lp = FK * L * FK.transpose();
    State_With_Covariance p; f.predict(a, u, h, p);
    double tolp = (1e-9 + 1e-10 * cond) * (Sp.norm() + Lp.norm() + S.norm() * Fx.squaredNorm() + L.norm() * FK.squaredNorm()) + 1e-12;
    double ep = std::max(rdiff(get(p.Sigma), Sp), rdiff(get(p.Lambda), Lp)); R.w("prediction_deviation", ep / (1e-9 + Sp.norm() + Lp.norm()));
    if (!(ep <= tolp)) R.bad("predict", fmt("%s: prediction deviates by %.3g", g_now, ep));
    if (!(rdiff(get(p.covariance), get(p.Sigma) + get(p.Lambda)) <= 1e-10 * (1 + Sp.norm() + Lp.norm()))) R.bad("predict_sum", fmt("%s: the predicted covariance is not Sigma+Lambda", g_now));
    if (!(rdiff(get(p.Sigma), get(p.Sigma).transpose()) <= 1e-10 * (1e-3 + Sp.norm()) && min_eig(get(p.Sigma)) >= -1e-10 * (1e-3 + Sp.norm()))) R.bad("predict_psd", fmt("%s: predicted Sigma is not a covariance", g_now));
    // update: from the prediction or an arbitrary belief
    if (r.i(4) == 0) { Sc cb; gen_cov(r, cb); for (int i = 0; i < 16; i++) { p.Sigma[i] = cb.S[i]; p.Lambda[i] = cb.L[i]; p.covariance[i] = cb.C[i]; } }
    State_With_Covariance w = p, z; bool inplace = r.i(4) == 0; // z: fresh output
    f.update(p, z); if (inplace) { f.update(w, w); ok = !memcmp(w.Sigma, z.Sigma, sizeof z.Sigma) && !memcmp(w.Lambda, z.Lambda, sizeof z.Lambda); if (!ok && (rdiff(get(w.Sigma), get(z.Sigma)) + rdiff(get(w.Lambda), get(z.Lambda)) > 1e-9 * (1 + Sp.norm()))) R.bad("update_in_place", fmt("%s: updating in place gives another result", g_now)); }
    M3 S1 = get(p.Sigma), L1 = get(p.Lambda), S2 = get(z.Sigma), L2 = get(z.Lambda), C = S1 + Rm;
    double sc = S1.norm() + L1.norm(), cc; { Eigen::SelfAdjointEigenSolver<M3> es(0.5 * (C + C.transpose())); cc = es.eigenvalues()(2) / std::max(1e-300, es.eigenvalues()(0)); }
    double tolu = (1e-10 + 1e-11 * cc) * (sc + 1e-6);
    M3 Gk = C.ldlt().solve(S1).transpose(), So = S1 - Gk * S1, Lo = L1 + Gk * S1;
    double eu = std::max(rdiff(S2, So), rdiff(L2, Lo)); R.w("update_deviation", eu / (sc + 1e-6)); R.c("updates");
    if (!(eu <= tolu)) R.bad("update", fmt("%s: update deviates by %.3g of %.3g", g_now, eu, sc));
    if (!(rdiff(S2 + L2, S1 + L1) <= tolu)) R.bad("update_conserves", fmt("%s: update changes Sigma+Lambda by %.3g", g_now, rdiff(S2 + L2, S1 + L1)));
    if (!(min_eig(S1 - S2) >= -tolu)) R.bad("update_increases", fmt("%s: update increases Sigma (eigenvalue %.3g)", g_now, min_eig(S1 - S2)));
    if (!(min_eig(S2) >= -tolu && rdiff(S2, S2.transpose()) <= tolu)) R.bad("update_psd", fmt("%s: updated Sigma is not a covariance", g_now));
    if (!(rdiff(get(z.covariance), S2 + L2) <= tolu)) R.bad("update_sum", fmt("%s: the updated covariance is not Sigma+Lambda", g_now));
    for (int i = 0; i < 4; i++) for (int q : { 4 * i + 3, 12 + i }) if (z.Sigma[q] != 0 || z.Lambda[q] != 0 || z.covariance[q] != 0 || p.Sigma[q] != 0) { R.bad("kappa_covariance", fmt("%s: covariance of the curvature is written", g_now)); i = 4; break; }
  }
}
