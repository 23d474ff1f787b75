// Units: the same problem in units a power of two smaller or larger has the
// same answer in those units (and powers of two scale numbers exactly), so
// nothing may be cut, clamped or compared at an absolute size.
#ifndef VERIF_SCALED_H
#define VERIF_SCALED_H

#include <Eigen/Dense>

#include "mc.h"

namespace units {

inline int power(mc::Ctx &c) { return c.pick<int>({-120, -40, -16, 16, 40, 120}); }
inline double of(int power) { return std::ldexp(1., power); }

// got, in units of `by`, is want.
inline void scaled(mc::Ctx &c, const Eigen::MatrixXd &got, const Eigen::MatrixXd &want, double by, const char *key, const std::string &s, double tol = 1e-8) {
  c.check(got.rows() == want.rows() && got.cols() == want.cols(), key, s + " shape");
  if (got.rows() != want.rows() || got.cols() != want.cols() || want.size() == 0)
    return;
  const double size = std::max(want.cwiseAbs().maxCoeff(), 1e-3);
  for (Eigen::Index i = 0; i < want.rows(); ++i)
    for (Eigen::Index j = 0; j < want.cols(); ++j)
      c.close(got(i, j) / by / size, want(i, j) / size, key, s + " (scaled)", tol, tol);
}

// A distribution in units of `by`.
template <typename D> void scaled_law(mc::Ctx &c, const D &got, const D &want, double by, const char *key, const std::string &s, double tol = 1e-8) {
  scaled(c, got.mean, want.mean, by, key, s + " mean", tol);
  scaled(c, Eigen::MatrixXd(got.covariance), Eigen::MatrixXd(want.covariance), by * by, key, s + " covariance", tol);
}
template <typename P> void scaled_prediction(mc::Ctx &c, const P &got, const P &want, double by, const char *key, const std::string &s, double tol = 1e-8) {
  scaled(c, got.mean(), want.mean(), by, key, s + " mean", tol);
  scaled_law(c, got.marginal(), want.marginal(), by, key, s + " marginal", tol);
  scaled_law(c, got.joint(), want.joint(), by, key, s + " joint", tol);
}

} // namespace units

#endif
