// Neutral interface to the planners of the library under test (namespace steering) and of the frozen reference copy
// (namespace refsteering). Only the documented public interface of the library is used.
#pragma once
#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <limits>
#include <memory>
#include <string>
#include <vector>

struct St { double x, y, th, k, d; };            // state
struct Ct { double ds, k, s; };                  // control
struct Sc { St q; double S[16], L[16], C[16]; }; // state with covariance
struct Noise { double a1, a2, a3, a4, sx, sy, sth, k1, k2, k3; };

inline std::atomic<long> g_arg_changed{ 0 }; // calls that modified one of their (const) arguments
struct Planner
{
  std::string name;
  int dir = 0;           // +1 forward only, -1 backward only, 0 both
  char fam = 0;          // 'D' Dubins, 'R' Reeds-Shepp, 'C' continuous curvature, 'H' hybrid curvature
  char k0 = 0, k1 = 0;   // start/goal curvature: '0' zero, 'p' plus/minus max, 'a' arbitrary, 'x' free
  double km = 0, sm = 0, disc = 0;
  virtual ~Planner() {}
  virtual double dist(const St &a, const St &b) const = 0;
  virtual std::vector<Ct> ctl(const St &a, const St &b) const = 0;
  virtual std::vector<St> path(const St &a, const St &b) const = 0;
  virtual std::vector<St> integ(const St &a, const std::vector<Ct> &c) const = 0;
  virtual std::vector<Sc> pathc(const Sc &a, const St &b) const = 0;
  virtual std::vector<Sc> integc(const Sc &a, const std::vector<Ct> &c) const = 0;
  virtual St interp(const St &a, const std::vector<Ct> &c, double t) const = 0;
  virtual void filt(const Noise &n) = 0;
};
typedef std::vector<std::unique_ptr<Planner>> Planners;
enum PlannerId { DUBINS_F, CC00_F, CC0PM_F, CCPM0_F, CCPMPM_F, CC_F, DUBINS_B, CC00_B, CC0PM_B, CCPM0_B, CCPMPM_B, CC_B,
                 RS, CC00_RS, HC00, HC0PM, HCPM0, HCPMPM, HC, NPLANNERS };
namespace cur { Planners all(double k, double s, double disc); std::unique_ptr<Planner> make(int id, double k, double s, double disc); }
namespace ref { Planners all(double k, double s, double disc); std::unique_ptr<Planner> make(int id, double k, double s, double disc); }
