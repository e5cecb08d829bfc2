// Common includes and helpers for harnesses against proxsuite-nlp.
#pragma once
#include "mc.hpp"
#include <Eigen/Core>
#include <Eigen/Dense>
#include "proxsuite-nlp/context.hpp"
#include "proxsuite-nlp/modelling/constraints.hpp"
#include "proxsuite-nlp/modelling/constraints/box-constraint.hpp"
#include "proxsuite-nlp/modelling/constraints/constraint-set-product.hpp"
#include "proxsuite-nlp/modelling/constraints/equality-constraint.hpp"
#include "proxsuite-nlp/modelling/constraints/l1-penalty.hpp"
#include "proxsuite-nlp/modelling/constraints/negative-orthant.hpp"

namespace pn {
using namespace proxsuite::nlp;
using Eigen::MatrixXd;
using Eigen::VectorXd;
using Eigen::VectorXi;
using Vec = VectorXd;
using Mat = MatrixXd;
using proxsuite::nlp::polymorphic;
constexpr double INF = std::numeric_limits<double>::infinity();
constexpr double QNAN = std::numeric_limits<double>::quiet_NaN();

inline std::string str(const Eigen::Ref<const MatrixXd> &m) {
  std::ostringstream os;
  os.precision(17);
  os << "[";
  for (long i = 0; i < m.rows(); i++) {
    if (i)
      os << (m.cols() == 1 ? ", " : "; ");
    for (long j = 0; j < m.cols(); j++)
      os << (j ? "," : "") << m(i, j);
  }
  os << "]";
  return os.str();
}
inline std::string str(double d) {
  std::ostringstream os;
  os.precision(17);
  os << d;
  return os.str();
}
inline std::string str(int d) { return std::to_string(d); }
inline std::string str(long d) { return std::to_string(d); }
inline std::string str(size_t d) { return std::to_string(d); }

inline bool close(double a, double b, double rtol = 1e-9, double atol = 1e-12) {
  if (a == b)
    return true;
  if (a != a && b != b)
    return true;
  if (!(std::isfinite(a) && std::isfinite(b)))
    return false;
  return std::abs(a - b) <= atol + rtol * std::max(std::abs(a), std::abs(b));
}
inline bool close(const Eigen::Ref<const MatrixXd> &a,
                  const Eigen::Ref<const MatrixXd> &b, double rtol = 1e-9,
                  double atol = 1e-12) {
  if (a.rows() != b.rows() || a.cols() != b.cols())
    return false;
  double s = 0;
  for (long j = 0; j < a.cols(); j++)
    for (long i = 0; i < a.rows(); i++) {
      double x = b(i, j);
      if (std::isfinite(x))
        s = std::max(s, std::abs(x));
    }
  for (long j = 0; j < a.cols(); j++)
    for (long i = 0; i < a.rows(); i++)
      if (!close(a(i, j), b(i, j), rtol, atol + rtol * s))
        return false;
  return true;
}
inline bool same(const Eigen::Ref<const MatrixXd> &a,
                 const Eigen::Ref<const MatrixXd> &b) {
  if (a.rows() != b.rows() || a.cols() != b.cols())
    return false;
  for (long j = 0; j < a.cols(); j++)
    for (long i = 0; i < a.rows(); i++)
      if (!(a(i, j) == b(i, j) || (a(i, j) != a(i, j) && b(i, j) != b(i, j))))
        return false;
  return true;
}
inline uint64_t hashm(const Eigen::Ref<const MatrixXd> &m, uint64_t h = 7) {
  h = mc::mix(h, uint64_t(m.rows()));
  h = mc::mix(h, uint64_t(m.cols()));
  for (long j = 0; j < m.cols(); j++)
    for (long i = 0; i < m.rows(); i++)
      h = mc::mix(h, mc::hash_double(m(i, j)));
  return h;
}
inline double infn(const Eigen::Ref<const MatrixXd> &m) {
  double r = 0;
  for (long j = 0; j < m.cols(); j++)
    for (long i = 0; i < m.rows(); i++) {
      double a = std::abs(m(i, j));
      if (!(a <= r))
        r = a; // NaN sticks
      if (r != r)
        return r;
    }
  return r;
}

// ---- constraint sets with an independent scalar oracle ------------------
using CSet = ConstraintSetTpl<double>;
using EqSet = EqualityConstraintTpl<double>;
using NegSet = NegativeOrthantTpl<double>;
using BoxSet = BoxConstraintTpl<double>;
using L1Set = NonsmoothPenaltyL1Tpl<double>;
using ProdSet = ConstraintSetProductTpl<double>;

enum SetKind { EQ, NEG, BOX, L1 };
struct Comp { // one scalar component of a set
  SetKind k;
  double lo = 0, hi = 0;
};
inline double prox1(const Comp &c, double mu, double z) {
  switch (c.k) {
  case EQ:
    return 0.;
  case NEG:
    return z > 0 ? 0. : z;
  case BOX:
    return z > c.hi ? c.hi : (z < c.lo ? c.lo : z);
  case L1:
    return z > mu ? z - mu : (z < -mu ? z + mu : 0.);
  }
  return 0;
}
// Active components: strictly outside an indicator set, or inside the closed
// threshold band of the soft-thresholding operator.
inline int active1(const Comp &c, double mu, double z) {
  switch (c.k) {
  case EQ:
    return 1;
  case NEG:
    return z > 0;
  case BOX:
    return (z > c.hi || z < c.lo);
  case L1:
    return std::abs(z) <= mu;
  }
  return 0;
}
inline double value1(const Comp &c, double p) {
  return c.k == L1 ? std::abs(p) : 0.;
}
} // namespace pn
