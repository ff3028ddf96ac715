#pragma once
#include <cmath>
#include "geometry_msgs/Pose.h"
namespace tf
{
struct Quaternion { double v[4] = { 0, 0, 0, 1 }; Quaternion() {} Quaternion(double x, double y, double z, double w) { v[0] = x; v[1] = y; v[2] = z; v[3] = w; } double x() const { return v[0]; } double y() const { return v[1]; } double z() const { return v[2]; } double w() const { return v[3]; } };
struct Matrix3x3
{
  double m[3][3];
  Matrix3x3(double a, double b, double c, double d, double e, double f, double g, double h, double i) { double t[9] = { a, b, c, d, e, f, g, h, i }; for (int k = 0; k < 9; k++) m[k / 3][k % 3] = t[k]; }
  void getRotation(Quaternion &q) const
  {
    double tr = m[0][0] + m[1][1] + m[2][2], t[4];
    if (tr > 0) { double s = std::sqrt(tr + 1); t[3] = s * 0.5; s = 0.5 / s; t[0] = (m[2][1] - m[1][2]) * s; t[1] = (m[0][2] - m[2][0]) * s; t[2] = (m[1][0] - m[0][1]) * s; }
    else
    {
      int i = m[0][0] < m[1][1] ? (m[1][1] < m[2][2] ? 2 : 1) : (m[0][0] < m[2][2] ? 2 : 0), j = (i + 1) % 3, k = (i + 2) % 3;
      double s = std::sqrt(m[i][i] - m[j][j] - m[k][k] + 1); t[i] = s * 0.5; s = 0.5 / s; t[3] = (m[k][j] - m[j][k]) * s; t[j] = (m[j][i] + m[i][j]) * s; t[k] = (m[k][i] + m[i][k]) * s;
    }
    q = Quaternion(t[0], t[1], t[2], t[3]);
  }
};
inline void quaternionTFToMsg(const Quaternion &q, geometry_msgs::Quaternion &m) { m.x = q.x(); m.y = q.y(); m.z = q.z(); m.w = q.w(); }
inline geometry_msgs::Quaternion createQuaternionMsgFromYaw(double y) { geometry_msgs::Quaternion q; q.z = std::sin(y / 2); q.w = std::cos(y / 2); return q; }
} // namespace tf
