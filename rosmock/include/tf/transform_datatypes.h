#pragma once
// The small part of tf's LinearMath this project uses, in double as in tf.
#include <geometry_msgs/Quaternion.h>
#include <geometry_msgs/TransformStamped.h>
#include <geometry_msgs/Vector3Stamped.h>
#include <ros/time.h>
#include <algorithm>
#include <cmath>
#include <stdexcept>
#include <string>
typedef double tfScalar;
namespace tf {
class TransformException : public std::runtime_error {
 public:
  explicit TransformException(const std::string& s) : std::runtime_error(s) {}
};
struct LookupException : TransformException { using TransformException::TransformException; };
struct ExtrapolationException : TransformException { using TransformException::TransformException; };

class Vector3 {
  double m_[3];

 public:
  Vector3() : m_{0, 0, 0} {}
  Vector3(double x, double y, double z) : m_{x, y, z} {}
  const double& x() const { return m_[0]; }
  const double& y() const { return m_[1]; }
  const double& z() const { return m_[2]; }
  const double& getX() const { return m_[0]; }
  const double& getY() const { return m_[1]; }
  const double& getZ() const { return m_[2]; }
  void setX(double v) { m_[0] = v; }
  void setY(double v) { m_[1] = v; }
  void setZ(double v) { m_[2] = v; }
  void setValue(double x, double y, double z) { m_[0] = x, m_[1] = y, m_[2] = z; }
  double& operator[](int i) { return m_[i]; }
  const double& operator[](int i) const { return m_[i]; }
  Vector3 operator+(const Vector3& o) const { return Vector3(m_[0] + o[0], m_[1] + o[1], m_[2] + o[2]); }
  Vector3 operator-(const Vector3& o) const { return Vector3(m_[0] - o[0], m_[1] - o[1], m_[2] - o[2]); }
  Vector3 operator*(double s) const { return Vector3(m_[0] * s, m_[1] * s, m_[2] * s); }
  Vector3 operator/(double s) const { return *this * (1.0 / s); }
  Vector3& operator*=(double s) { return *this = *this * s; }
  Vector3& operator/=(double s) { return *this = *this * (1.0 / s); }
  Vector3& operator+=(const Vector3& o) { return *this = *this + o; }
  double dot(const Vector3& o) const { return m_[0] * o[0] + m_[1] * o[1] + m_[2] * o[2]; }
  double length2() const { return dot(*this); }
  double length() const { return std::sqrt(length2()); }
  double distance(const Vector3& o) const { return (*this - o).length(); }
  bool operator==(const Vector3& o) const { return m_[0] == o[0] && m_[1] == o[1] && m_[2] == o[2]; }
  bool isZero() const { return m_[0] == 0 && m_[1] == 0 && m_[2] == 0; }
  Vector3& normalize() { return *this /= length(); }
  Vector3 normalized() const { return *this / length(); }
};
inline Vector3 operator*(double s, const Vector3& v) { return v * s; }

class Quaternion {
  double x_ = 0, y_ = 0, z_ = 0, w_ = 0;

 public:
  Quaternion() {}
  Quaternion(double x, double y, double z, double w) : x_(x), y_(y), z_(z), w_(w) {}
  double x() const { return x_; }
  double y() const { return y_; }
  double z() const { return z_; }
  double w() const { return w_; }
  double getX() const { return x_; }
  double getY() const { return y_; }
  double getZ() const { return z_; }
  double getW() const { return w_; }
  double dot(const Quaternion& q) const { return x_ * q.x_ + y_ * q.y_ + z_ * q.z_ + w_ * q.w_; }
  double length2() const { return dot(*this); }
  double length() const { return std::sqrt(length2()); }
  Quaternion operator*(double s) const { return Quaternion(x_ * s, y_ * s, z_ * s, w_ * s); }
  Quaternion operator/(double s) const { return *this * (1.0 / s); }
  Quaternion operator-() const { return Quaternion(-x_, -y_, -z_, -w_); }
  Quaternion& normalize() { return *this = *this / length(); }
  Quaternion normalized() const { return *this / length(); }
  void setValue(double x, double y, double z, double w) { x_ = x, y_ = y, z_ = z, w_ = w; }
  void setRPY(double r, double p, double y) {
    double cy = cos(y / 2), sy = sin(y / 2), cp = cos(p / 2), sp = sin(p / 2), cr = cos(r / 2), sr = sin(r / 2);
    setValue(sr * cp * cy - cr * sp * sy, cr * sp * cy + sr * cp * sy, cr * cp * sy - sr * sp * cy,
             cr * cp * cy + sr * sp * sy);
  }
  static double cl(double v) { return std::max(-1.0, std::min(1.0, v)); }
  double angleShortestPath(const Quaternion& q) const {
    double s = std::sqrt(length2() * q.length2());
    return std::acos(cl((dot(q) < 0 ? dot(-q) : dot(q)) / s)) * 2.0;
  }
  Quaternion slerp(const Quaternion& q, double t) const {
    double theta = angleShortestPath(q) / 2.0;
    if (theta != 0.0) {
      double d = 1.0 / std::sin(theta), s0 = std::sin((1.0 - t) * theta), s1 = std::sin(t * theta);
      if (dot(q) < 0)
        return Quaternion((x_ * s0 - q.x_ * s1) * d, (y_ * s0 - q.y_ * s1) * d, (z_ * s0 - q.z_ * s1) * d,
                          (w_ * s0 - q.w_ * s1) * d);
      return Quaternion((x_ * s0 + q.x_ * s1) * d, (y_ * s0 + q.y_ * s1) * d, (z_ * s0 + q.z_ * s1) * d,
                        (w_ * s0 + q.w_ * s1) * d);
    }
    return *this;
  }
  static Quaternion getIdentity() { return Quaternion(0, 0, 0, 1); }
};

class Matrix3x3 {
  double m[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};

 public:
  Matrix3x3() {}
  explicit Matrix3x3(const Quaternion& q) { setRotation(q); }
  const double* operator[](int i) const { return m[i]; }
  double* operator[](int i) { return m[i]; }
  void setRotation(const Quaternion& q) {
    double s = 2.0 / q.length2();
    double xs = q.x() * s, ys = q.y() * s, zs = q.z() * s;
    double wx = q.w() * xs, wy = q.w() * ys, wz = q.w() * zs, xx = q.x() * xs, xy = q.x() * ys, xz = q.x() * zs,
           yy = q.y() * ys, yz = q.y() * zs, zz = q.z() * zs;
    double v[3][3] = {{1 - (yy + zz), xy - wz, xz + wy}, {xy + wz, 1 - (xx + zz), yz - wx}, {xz - wy, yz + wx, 1 - (xx + yy)}};
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++) m[i][j] = v[i][j];
  }
  void getRotation(Quaternion& q) const {
    double tr = m[0][0] + m[1][1] + m[2][2], t[4];
    if (tr > 0) {
      double s = std::sqrt(tr + 1.0);
      t[3] = s * 0.5;
      s = 0.5 / s;
      t[0] = (m[2][1] - m[1][2]) * s;
      t[1] = (m[0][2] - m[2][0]) * s;
      t[2] = (m[1][0] - m[0][1]) * s;
    } else {
      int i = m[0][0] < m[1][1] ? (m[1][1] < m[2][2] ? 2 : 1) : (m[0][0] < m[2][2] ? 2 : 0);
      int j = (i + 1) % 3, k = (i + 2) % 3;
      double s = std::sqrt(m[i][i] - m[j][j] - m[k][k] + 1.0);
      t[i] = s * 0.5;
      s = 0.5 / s;
      t[3] = (m[k][j] - m[j][k]) * s;
      t[j] = (m[j][i] + m[i][j]) * s;
      t[k] = (m[k][i] + m[i][k]) * s;
    }
    q.setValue(t[0], t[1], t[2], t[3]);
  }
  void getRPY(double& roll, double& pitch, double& yaw, unsigned = 1) const {
    if (std::fabs(m[2][0]) >= 1) {
      yaw = 0;
      double delta = std::atan2(m[2][1], m[2][2]);
      pitch = m[2][0] < 0 ? M_PI / 2 : -M_PI / 2;
      roll = delta;
    } else {
      pitch = -std::asin(m[2][0]);
      roll = std::atan2(m[2][1] / cos(pitch), m[2][2] / cos(pitch));
      yaw = std::atan2(m[1][0] / cos(pitch), m[0][0] / cos(pitch));
    }
  }
  Vector3 operator*(const Vector3& v) const {
    return Vector3(m[0][0] * v[0] + m[0][1] * v[1] + m[0][2] * v[2], m[1][0] * v[0] + m[1][1] * v[1] + m[1][2] * v[2],
                   m[2][0] * v[0] + m[2][1] * v[1] + m[2][2] * v[2]);
  }
};

class Transform {
  Matrix3x3 b_;
  Vector3 o_;

 public:
  Transform() {}
  Transform(const Quaternion& q, const Vector3& o = Vector3()) : b_(q), o_(o) {}
  Transform(const Matrix3x3& m, const Vector3& o = Vector3()) : b_(m), o_(o) {}
  const Vector3& getOrigin() const { return o_; }
  Vector3& getOrigin() { return o_; }
  const Matrix3x3& getBasis() const { return b_; }
  Quaternion getRotation() const {
    Quaternion q;
    b_.getRotation(q);
    return q;
  }
  void setOrigin(const Vector3& o) { o_ = o; }
  void setRotation(const Quaternion& q) { b_.setRotation(q); }
  void setIdentity() { *this = Transform(Quaternion(0, 0, 0, 1)); }
  Vector3 operator*(const Vector3& v) const { return b_ * v + o_; }
};
inline bool operator==(const Transform& a, const Transform& b) {
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      if (a.getBasis()[i][j] != b.getBasis()[i][j]) return false;
  return a.getOrigin() == b.getOrigin();
}
class StampedTransform : public Transform {
 public:
  ros::Time stamp_;
  std::string frame_id_, child_frame_id_;
  StampedTransform(const Transform& t, const ros::Time& s, const std::string& f, const std::string& c)
      : Transform(t), stamp_(s), frame_id_(f), child_frame_id_(c) {}
  StampedTransform() { setIdentity(); }
};
inline bool operator==(const StampedTransform& a, const StampedTransform& b) {
  return a.frame_id_ == b.frame_id_ && a.child_frame_id_ == b.child_frame_id_ && a.stamp_ == b.stamp_ &&
         static_cast<const Transform&>(a) == static_cast<const Transform&>(b);
}
inline double getYaw(const Quaternion& q) {
  double r, p, y;
  Matrix3x3(q).getRPY(r, p, y);
  return y;
}
inline double getYaw(const geometry_msgs::Quaternion& m) {
  Quaternion q(m.x, m.y, m.z, m.w);
  if (std::fabs(q.length2() - 1) > 1e-3) q.normalize();
  return getYaw(q);
}
inline geometry_msgs::Quaternion createQuaternionMsgFromYaw(double yaw) {
  geometry_msgs::Quaternion m;
  m.z = std::sin(yaw / 2);
  m.w = std::cos(yaw / 2);
  return m;
}
inline Quaternion createQuaternionFromYaw(double yaw) { return Quaternion(0, 0, std::sin(yaw / 2), std::cos(yaw / 2)); }
}  // namespace tf
