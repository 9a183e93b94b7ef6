#pragma once
#include <cstdint>
#include <Eigen/Core>
namespace pcl {
struct PointXYZ {
  float x, y, z;
  PointXYZ() : x(0), y(0), z(0) {}
  PointXYZ(float a, float b, float c) : x(a), y(b), z(c) {}
};
struct PointXYZI {
  float x, y, z, intensity;
  PointXYZI() : x(0), y(0), z(0), intensity(0) {}
  explicit PointXYZI(float i) : x(0), y(0), z(0), intensity(i) {}
};
}  // namespace pcl
