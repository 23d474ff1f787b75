// The law a Gaussian process follows, written from the definition in long
// double: condition a joint Gaussian on noisy observations of some of it.
#ifndef VERIF_GP_ORACLE_H
#define VERIF_GP_ORACLE_H

#include <Eigen/Dense>
#include <functional>
#include <vector>

namespace law {

using Real = long double;
using Mat = Eigen::Matrix<Real, Eigen::Dynamic, Eigen::Dynamic>;
using Vec = Eigen::Matrix<Real, Eigen::Dynamic, 1>;

// A feature is a combination of points; each point may be a measurement.
struct Term {
  double coef, x;
  bool measured;
  int kind = 0; // which of several types
};
using Feature = std::vector<Term>;

using Kernel = std::function<Real(const Term &, const Term &)>;
using Mean = std::function<Real(const Term &)>;

inline Real cov(const Kernel &k, const Feature &a, const Feature &b) {
  Real s = 0.L;
  for (const auto &p : a)
    for (const auto &q : b)
      s += static_cast<Real>(p.coef) * q.coef * k(p, q);
  return s;
}
inline Real mean(const Mean &m, const Feature &a) {
  Real s = 0.L;
  for (const auto &p : a)
    s += p.coef * m(p);
  return s;
}
inline Mat cov(const Kernel &k, const std::vector<Feature> &a, const std::vector<Feature> &b) {
  Mat c(a.size(), b.size());
  for (std::size_t i = 0; i < a.size(); ++i)
    for (std::size_t j = 0; j < b.size(); ++j)
      c(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j)) = cov(k, a[i], b[j]);
  return c;
}
inline Vec mean(const Mean &m, const std::vector<Feature> &a) {
  Vec v(a.size());
  for (std::size_t i = 0; i < a.size(); ++i)
    v[static_cast<Eigen::Index>(i)] = mean(m, a[i]);
  return v;
}
inline std::vector<Feature> measured(std::vector<Feature> f) {
  for (auto &x : f)
    for (auto &t : x)
      t.measured = true;
  return f;
}

struct Gaussian {
  Vec mean;
  Mat cov;
};

inline Mat solve(const Mat &a, const Mat &b) {
  if (a.rows() == 0)
    return b;
  return a.fullPivLu().solve(b);
}

// Condition (prior over test) on features observed as y with noise. Data are
// measurements (`train`) of the features which were given (`given`): the noise
// which a covariance function adds to measurements only is that of new
// measurements when something is predicted, independent of the data, unless
// the features given were measurements themselves.
inline Gaussian condition(const Kernel &k, const Mean &m, const std::vector<Feature> &given, const std::vector<Feature> &train, const Vec &y, const Mat &noise, const std::vector<Feature> &test) {
  Gaussian g{mean(m, test), cov(k, test, test)};
  if (train.empty())
    return g;
  const Mat c = cov(k, given, test);
  const Mat a = cov(k, train, train) + noise;
  const Mat s = solve(a, c);
  g.mean += s.transpose() * (y - mean(m, train));
  g.cov -= c.transpose() * s;
  return g;
}

// Condition a joint Gaussian over (z) on the entries `at` of it being y with
// the given noise; returns the law of all of z.
inline Gaussian condition(const Gaussian &z, const std::vector<std::size_t> &at, const Vec &y, const Mat &noise) {
  const Eigen::Index n = static_cast<Eigen::Index>(at.size());
  Mat c(n, z.cov.cols()), a(n, n);
  Vec d(n);
  for (Eigen::Index i = 0; i < n; ++i) {
    const auto ai = static_cast<Eigen::Index>(at[static_cast<std::size_t>(i)]);
    c.row(i) = z.cov.row(ai);
    d[i] = y[i] - z.mean[ai];
    for (Eigen::Index j = 0; j < n; ++j)
      a(i, j) = z.cov(ai, static_cast<Eigen::Index>(at[static_cast<std::size_t>(j)]));
  }
  a += noise;
  const Mat s = solve(a, c);
  return Gaussian{z.mean + s.transpose() * d, z.cov - c.transpose() * s};
}

// log N(d; 0, a)
inline Real log_density(const Vec &d, const Mat &a) {
  if (d.size() == 0)
    return 0.L;
  const Eigen::FullPivLU<Mat> lu(a);
  const Real pi = 3.14159265358979323846264338327950288L;
  Real logdet = 0.L;
  for (Eigen::Index i = 0; i < d.size(); ++i)
    logdet += std::log(std::fabs(lu.matrixLU()(i, i)));
  return -0.5L * (d.dot(Vec(lu.solve(d))) + logdet + static_cast<Real>(d.size()) * std::log(2.L * pi));
}

} // namespace law

#endif
