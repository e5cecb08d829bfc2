// Test functions with exact second derivatives, against the library interface.
#pragma once
#include "manifolds.hpp"
#include "proxsuite-nlp/cost-function.hpp"
#include "proxsuite-nlp/cost-sum.hpp"
#include "proxsuite-nlp/function-ops.hpp"
#include "proxsuite-nlp/modelling/costs/quadratic-residual.hpp"
#include "proxsuite-nlp/modelling/costs/squared-distance.hpp"
#include "proxsuite-nlp/modelling/residuals/linear.hpp"
#include "proxsuite-nlp/modelling/residuals/state-residual.hpp"

namespace pn {
using C1F = C1FunctionTpl<double>;
using C2F = C2FunctionTpl<double>;
using F0 = BaseFunctionTpl<double>;
using Cost = CostFunctionBaseTpl<double>;
using CostP = std::shared_ptr<Cost>;
using C2P = std::shared_ptr<C2F>;
using CSum = CostSumTpl<double>;
using LinF = LinearFunctionTpl<double>;
using DiffF = ManifoldDifferenceToPoint<double>;
using LinDiffF = LinearFunctionDifferenceToPoint<double>;
using QRes = QuadraticResidualCostTpl<double>;
using QDist = QuadraticDistanceCostTpl<double>;

// r_k(x) = 1/2 x'A_k x + b_k'x + c_k, small integer-ish coefficients
struct QuadF : C2F {
  using C2F::computeJacobian;
  std::vector<Mat> A;
  std::vector<Vec> b;
  Vec c;
  mutable int calls = 0, jcalls = 0, hcalls = 0;
  QuadF(int n, int m, int salt = 0) : C2F(n, n, m), c(m) {
    for (int k = 0; k < m; k++) {
      Mat a(n, n);
      Vec q(n);
      for (int i = 0; i < n; i++) {
        q[i] = ((i + 2 * k + salt) % 5 - 2) * 0.5;
        for (int j = 0; j < n; j++)
          a(i, j) = ((i * j + i + j + k + salt) % 4 - 1) * 0.5;
      }
      A.push_back(a);
      b.push_back(q);
      c[k] = 0.25 * (k + 1) - 0.1 * salt;
    }
  }
  VectorXs operator()(const ConstVectorRef &x) const override {
    calls++;
    Vec r(nr());
    for (int k = 0; k < nr(); k++)
      r[k] = 0.5 * x.dot(A[k] * x) + b[k].dot(x) + c[k];
    return r;
  }
  void computeJacobian(const ConstVectorRef &x, MatrixRef J) const override {
    jcalls++;
    for (int k = 0; k < nr(); k++)
      J.row(k) = (A[k] * x + b[k]).transpose();
  }
  void vectorHessianProduct(const ConstVectorRef &, const ConstVectorRef &v, MatrixRef H) const override {
    hcalls++;
    H.setZero();
    for (int k = 0; k < nr(); k++)
      H += v[k] * A[k];
  }
};
} // namespace pn
