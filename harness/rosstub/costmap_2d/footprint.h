#pragma once
#include <cmath>
#include "geometry_msgs/Pose.h"
namespace costmap_2d
{
inline std::vector<geometry_msgs::Point> &stub_footprint() { static std::vector<geometry_msgs::Point> f; return f; }
inline std::vector<geometry_msgs::Point> makeFootprintFromParams(ros::NodeHandle &) { return stub_footprint(); }
inline void transformFootprint(double x, double y, double theta, const std::vector<geometry_msgs::Point> &spec, std::vector<geometry_msgs::Point> &out)
{
  out.clear(); double c = std::cos(theta), s = std::sin(theta);
  for (size_t i = 0; i < spec.size(); ++i) { geometry_msgs::Point p; p.x = x + (spec[i].x * c - spec[i].y * s); p.y = y + (spec[i].x * s + spec[i].y * c); out.push_back(p); }
}
} // namespace costmap_2d
