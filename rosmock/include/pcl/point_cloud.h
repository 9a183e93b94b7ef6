#pragma once
#include <boost/make_shared.hpp>
#include <boost/shared_ptr.hpp>
#include <cassert>
#include <cmath>
#include <cstdint>
#include <string>
#include <vector>
#include "pcl/point_types.h"
namespace pcl {
struct PCLHeader {
  uint32_t seq = 0;
  uint64_t stamp = 0;  // microseconds
  std::string frame_id;
};
template <class P>
class PointCloud {
 public:
  typedef P PointType;
  typedef boost::shared_ptr<PointCloud<P>> Ptr;
  typedef boost::shared_ptr<const PointCloud<P>> ConstPtr;
  PCLHeader header;
  std::vector<P> points;
  uint32_t width = 0, height = 0;
  bool is_dense = true;
  typedef typename std::vector<P>::iterator iterator;
  typedef typename std::vector<P>::const_iterator const_iterator;
  iterator begin() { return points.begin(); }
  iterator end() { return points.end(); }
  const_iterator begin() const { return points.begin(); }
  const_iterator end() const { return points.end(); }
  size_t size() const { return points.size(); }
  bool empty() const { return points.empty(); }
  void reserve(size_t n) { points.reserve(n); }
  void resize(size_t n) {
    points.resize(n);
    if (size_t(width) * height != n) {
      width = n;
      height = 1;
    }
  }
  P& operator[](size_t i) { return points[i]; }
  const P& operator[](size_t i) const { return points[i]; }
  P& at(size_t i) { return points.at(i); }
  const P& at(size_t i) const { return points.at(i); }
  P& front() { return points.front(); }
  P& back() { return points.back(); }
  const P& front() const { return points.front(); }
  const P& back() const { return points.back(); }
  void push_back(const P& p) {
    points.push_back(p);
    width = points.size();
    height = 1;
  }
  template <class... A>
  void emplace_back(A&&... a) {
    push_back(P(std::forward<A>(a)...));
  }
  void clear() {
    points.clear();
    width = height = 0;
  }
  void swap(PointCloud& o) {
    std::swap(header, o.header);
    points.swap(o.points);
    std::swap(width, o.width);
    std::swap(height, o.height);
    std::swap(is_dense, o.is_dense);
  }
  PointCloud& operator+=(const PointCloud& o) {
    points.insert(points.end(), o.points.begin(), o.points.end());
    width = points.size();
    height = 1;
    is_dense = is_dense && o.is_dense;
    return *this;
  }
  PointCloud operator+(const PointCloud& o) const {
    PointCloud r(*this);
    r += o;
    return r;
  }
  iterator insert(iterator p, const P& v) {
    auto it = points.insert(p, v);
    width = points.size();
    height = 1;
    return it;
  }
  iterator erase(iterator p) {
    auto it = points.erase(p);
    width = points.size();
    height = 1;
    return it;
  }
  Ptr makeShared() const { return boost::make_shared<PointCloud<P>>(*this); }
  bool isOrganized() const { return height > 1; }
};
}  // namespace pcl
