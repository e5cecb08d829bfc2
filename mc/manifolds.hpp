// Curved test manifolds (SO(2) as a unit complex number, SO(3) as a unit
// quaternion) against the library's abstract manifold interface, with exact
// derivatives, and a generic checker of the manifold laws.
#pragma once
#include "pn.hpp"
#include "proxsuite-nlp/modelling/spaces/cartesian-product.hpp"
#include "proxsuite-nlp/modelling/spaces/tangent-bundle.hpp"
#include "proxsuite-nlp/modelling/spaces/vector-space.hpp"

namespace pn {
using Manifold = ManifoldAbstractTpl<double>;
using VSpace = VectorSpaceTpl<double, Eigen::Dynamic, 0>;
using Prod = CartesianProductTpl<double>;
using V3 = Eigen::Vector3d;
using M3 = Eigen::Matrix3d;

inline M3 skew(const V3 &v) {
  M3 m;
  m << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0;
  return m;
}
inline M3 exp3(const V3 &v) {
  double t = v.norm();
  double a = t < 1e-6 ? 1 - t * t / 6 : std::sin(t) / t;
  double b = t < 1e-4 ? 0.5 - t * t / 24 : (1 - std::cos(t)) / (t * t);
  M3 s = skew(v);
  return M3::Identity() + a * s + b * s * s;
}
inline M3 jr3(const V3 &v) { // right Jacobian of exp
  double t = v.norm();
  double b = t < 1e-4 ? 0.5 - t * t / 24 : (1 - std::cos(t)) / (t * t);
  double c = t < 1e-3 ? 1. / 6 - t * t / 120 : (t - std::sin(t)) / (t * t * t);
  M3 s = skew(v);
  return M3::Identity() - b * s + c * s * s;
}

struct SO2 : Manifold {
  int nx() const override { return 2; }
  int ndx() const override { return 1; }
  VectorXs neutral() const override { return Eigen::Vector2d(1, 0); }
  VectorXs rand() const override {
    Eigen::Vector2d v = Eigen::Vector2d::Random();
    return v.normalized();
  }
  bool isNormalized(const ConstVectorRef &x) const override {
    return std::abs(x.norm() - 1) < 1e-9;
  }
  void integrate_impl(const ConstVectorRef &x, const ConstVectorRef &v, VectorRef out) const override {
    double c = std::cos(v[0]), s = std::sin(v[0]), a = x[0], b = x[1];
    out[0] = a * c - b * s;
    out[1] = b * c + a * s;
  }
  void Jintegrate_impl(const ConstVectorRef &, const ConstVectorRef &, MatrixRef J, int) const override {
    J(0, 0) = 1;
  }
  void JintegrateTransport(const ConstVectorRef &, const ConstVectorRef &, MatrixRef, int) const override {}
  void difference_impl(const ConstVectorRef &x, const ConstVectorRef &y, VectorRef out) const override {
    out[0] = std::atan2(x[0] * y[1] - x[1] * y[0], x[0] * y[0] + x[1] * y[1]);
  }
  void Jdifference_impl(const ConstVectorRef &, const ConstVectorRef &, MatrixRef J, int arg) const override {
    J(0, 0) = arg ? 1 : -1;
  }
};

struct SO3 : Manifold {
  int nx() const override { return 4; }
  int ndx() const override { return 3; }
  static Eigen::Quaterniond q(const ConstVectorRef &x) {
    return Eigen::Quaterniond(x[3], x[0], x[1], x[2]);
  }
  VectorXs neutral() const override { return Eigen::Vector4d(0, 0, 0, 1); }
  VectorXs rand() const override {
    Eigen::Vector4d v = Eigen::Vector4d::Random();
    return v.normalized();
  }
  bool isNormalized(const ConstVectorRef &x) const override {
    return std::abs(x.norm() - 1) < 1e-9;
  }
  static Eigen::Quaterniond expq(const V3 &v) {
    double t = v.norm();
    double a = t < 1e-6 ? 0.5 - t * t / 48 : std::sin(t / 2) / t;
    return Eigen::Quaterniond(std::cos(t / 2), a * v[0], a * v[1], a * v[2]);
  }
  static V3 logq(Eigen::Quaterniond d) {
    if (d.w() < 0)
      d.coeffs() *= -1;
    double n = d.vec().norm();
    if (n < 1e-9)
      return 2 * d.vec();
    return 2 * std::atan2(n, d.w()) / n * d.vec();
  }
  void integrate_impl(const ConstVectorRef &x, const ConstVectorRef &v, VectorRef out) const override {
    Eigen::Quaterniond r = q(x) * expq(V3(v));
    out << r.x(), r.y(), r.z(), r.w();
  }
  void Jintegrate_impl(const ConstVectorRef &, const ConstVectorRef &v, MatrixRef J, int arg) const override {
    V3 w = v;
    J = arg == 0 ? M3(exp3(w).transpose()) : jr3(w);
  }
  void JintegrateTransport(const ConstVectorRef &, const ConstVectorRef &v, MatrixRef J, int arg) const override {
    V3 w = v;
    M3 A = arg == 0 ? M3(exp3(w).transpose()) : jr3(w);
    Mat r = A * J;
    J = r;
  }
  void difference_impl(const ConstVectorRef &x, const ConstVectorRef &y, VectorRef out) const override {
    out = logq(q(x).conjugate() * q(y));
  }
  void Jdifference_impl(const ConstVectorRef &x, const ConstVectorRef &y, MatrixRef J, int arg) const override {
    V3 d = logq(q(x).conjugate() * q(y));
    M3 r = jr3(d).inverse();
    J = arg ? r : M3(-(r * exp3(d).transpose()));
  }
};

// A vector space whose neutral element carries a tag (to recognise components).
struct TagSpace : VSpace {
  double tag;
  TagSpace(int n, double t) : VSpace(n), tag(t) {}
  VectorXs neutral() const override { return VectorXs::Constant(dim_, tag); }
  bool isNormalized(const ConstVectorRef &x) const override { return x.allFinite(); }
};

inline Mat num_jac(int rows, int cols, const std::function<Vec(const Vec &)> &f, double h = 1e-6) {
  Mat J(rows, cols);
  for (int i = 0; i < cols; i++) {
    Vec e = Vec::Zero(cols);
    e[i] = h;
    J.col(i) = (f(e) - f(-e)) / (2 * h);
  }
  return J;
}
} // namespace pn
