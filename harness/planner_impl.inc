// included by planner_cur.cpp / planner_ref.cpp with SF = namespace of the library, OUT = namespace of the factory
namespace OUT {
using SF::State; using SF::Control; using SF::State_With_Covariance;
static inline State in(const St &a) { State s; s.x = a.x; s.y = a.y; s.theta = a.th; s.kappa = a.k; s.d = a.d; return s; }
static inline St out(const State &a) { return St{ a.x, a.y, a.theta, a.kappa, a.d }; }
static inline State_With_Covariance in(const Sc &a) { State_With_Covariance s; s.state = in(a.q); for (int i = 0; i < 16; i++) { s.Sigma[i] = a.S[i]; s.Lambda[i] = a.L[i]; s.covariance[i] = a.C[i]; } return s; }
static inline Sc out(const State_With_Covariance &a) { Sc s; s.q = out(a.state); for (int i = 0; i < 16; i++) { s.S[i] = a.Sigma[i]; s.L[i] = a.Lambda[i]; s.C[i] = a.covariance[i]; } return s; }
static inline std::vector<Control> in(const std::vector<Ct> &c) { std::vector<Control> r; r.reserve(c.size()); for (auto &u : c) { Control x; x.delta_s = u.ds; x.kappa = u.k; x.sigma = u.s; r.push_back(x); } return r; }
static inline std::vector<Ct> out(const std::vector<Control> &c) { std::vector<Ct> r; r.reserve(c.size()); for (auto &u : c) r.push_back(Ct{ u.delta_s, u.kappa, u.sigma }); return r; }
static inline std::vector<St> out(const std::vector<State> &c) { std::vector<St> r; r.reserve(c.size()); for (auto &u : c) r.push_back(out(u)); return r; }
static inline std::vector<Sc> out(const std::vector<State_With_Covariance> &c) { std::vector<Sc> r; r.reserve(c.size()); for (auto &u : c) r.push_back(out(u)); return r; }
template <class S> struct P : Planner
{
  S s;
  template <class... A> P(A... a) : s(a...) {}
  // every call also checks that its arguments are left as they were
  template <class T> struct Arg { T v, c; explicit Arg(const T &x) : v(x), c(x) {} ~Arg() { if (memcmp(&v, &c, sizeof v)) ++g_arg_changed; } };
  struct ArgC { std::vector<Control> v, c; explicit ArgC(const std::vector<Control> &x) : v(x), c(x) {} ~ArgC() { if (v.size() != c.size() || (!v.empty() && memcmp(v.data(), c.data(), v.size() * sizeof(Control)))) ++g_arg_changed; } };
  double dist(const St &a, const St &b) const override { Arg<State> x(in(a)), y(in(b)); return s.get_distance(x.v, y.v); }
  std::vector<Ct> ctl(const St &a, const St &b) const override { Arg<State> x(in(a)), y(in(b)); return out(s.get_controls(x.v, y.v)); }
  std::vector<St> path(const St &a, const St &b) const override { Arg<State> x(in(a)), y(in(b)); return out(s.get_path(x.v, y.v)); }
  std::vector<St> integ(const St &a, const std::vector<Ct> &c) const override { Arg<State> x(in(a)); ArgC u(in(c)); return out(s.integrate(x.v, u.v)); }
  std::vector<Sc> pathc(const Sc &a, const St &b) const override { Arg<State_With_Covariance> x(in(a)); Arg<State> y(in(b)); return out(s.get_path_with_covariance(x.v, y.v)); }
  std::vector<Sc> integc(const Sc &a, const std::vector<Ct> &c) const override { Arg<State_With_Covariance> x(in(a)); ArgC u(in(c)); return out(s.integrate_with_covariance(x.v, u.v)); }
  St interp(const St &a, const std::vector<Ct> &c, double t) const override { Arg<State> x(in(a)); ArgC u(in(c)); return out(s.interpolate(x.v, u.v, t)); }
  void filt(const Noise &n) override
  {
    SF::Motion_Noise m; m.alpha1 = n.a1; m.alpha2 = n.a2; m.alpha3 = n.a3; m.alpha4 = n.a4;
    SF::Measurement_Noise e; e.std_x = n.sx; e.std_y = n.sy; e.std_theta = n.sth;
    SF::Controller c; c.k1 = n.k1; c.k2 = n.k2; c.k3 = n.k3;
    s.set_filter_parameters(m, e, c);
  }
};
template <class S, class... A> static std::unique_ptr<Planner> mk(const char *n, int dir, char fam, char k0, char k1, A... a)
{
  std::unique_ptr<P<S>> p(new P<S>(a...));
  p->name = n; p->dir = dir; p->fam = fam; p->k0 = k0; p->k1 = k1;
  return std::unique_ptr<Planner>(p.release());
}
static std::unique_ptr<Planner> make_(int id, double k, double s, double d)
{
  using namespace SF;
  bool b = id < DUBINS_B; int f = b ? 1 : -1;
  switch (id)
  {
    case DUBINS_F: case DUBINS_B: return mk<Dubins_State_Space>(b ? "Dubins_f" : "Dubins_b", f, 'D', 'x', 'x', k, d, b);
    case CC00_F: case CC00_B: return mk<CC00_Dubins_State_Space>(b ? "CC00_f" : "CC00_b", f, 'C', '0', '0', k, s, d, b);
    case CC0PM_F: case CC0PM_B: return mk<CC0pm_Dubins_State_Space>(b ? "CC0pm_f" : "CC0pm_b", f, 'C', '0', 'p', k, s, d, b);
    case CCPM0_F: case CCPM0_B: return mk<CCpm0_Dubins_State_Space>(b ? "CCpm0_f" : "CCpm0_b", f, 'C', 'p', '0', k, s, d, b);
    case CCPMPM_F: case CCPMPM_B: return mk<CCpmpm_Dubins_State_Space>(b ? "CCpmpm_f" : "CCpmpm_b", f, 'C', 'p', 'p', k, s, d, b);
    case CC_F: case CC_B: return mk<CC_Dubins_State_Space>(b ? "CC_f" : "CC_b", f, 'C', 'a', 'a', k, s, d, b);
    case RS: return mk<Reeds_Shepp_State_Space>("RS", 0, 'R', 'x', 'x', k, d);
    case CC00_RS: return mk<CC00_Reeds_Shepp_State_Space>("CC00_RS", 0, 'C', '0', '0', k, s, d);
    case HC00: return mk<HC00_Reeds_Shepp_State_Space>("HC00", 0, 'H', '0', '0', k, s, d);
    case HC0PM: return mk<HC0pm_Reeds_Shepp_State_Space>("HC0pm", 0, 'H', '0', 'p', k, s, d);
    case HCPM0: return mk<HCpm0_Reeds_Shepp_State_Space>("HCpm0", 0, 'H', 'p', '0', k, s, d);
    case HCPMPM: return mk<HCpmpm_Reeds_Shepp_State_Space>("HCpmpm", 0, 'H', 'p', 'p', k, s, d);
    case HC: return mk<HC_Reeds_Shepp_State_Space>("HC", 0, 'H', 'a', 'a', k, s, d);
  }
  return nullptr;
}
std::unique_ptr<Planner> make(int id, double k, double s, double d) { auto p = make_(id, k, s, d); p->km = k; p->sm = s; p->disc = d; return p; }
Planners all(double k, double s, double d) { Planners v; for (int i = 0; i < NPLANNERS; i++) v.push_back(make(i, k, s, d)); return v; }
} // namespace OUT
