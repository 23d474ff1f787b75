// C23: scores and likelihoods against their definitions, evaluated in long
// double (integrals by quadrature).
#include <albatross/Evaluation>
#include <albatross/GP>

#include "gp_oracle.h"
#include "scaled.h"

using namespace albatross;
using law::Real;

namespace {

const Real PI = 3.14159265358979323846264338327950288L;

Real normal_cdf(Real z) { return 0.5L * std::erfc(-z / std::sqrt(2.L)); }
// Simpson's rule
template <typename F> Real integrate(F f, Real a, Real b, int n = 2000) {
  if (!(b > a))
    return 0.L;
  const Real h = (b - a) / (2 * n);
  Real s = f(a) + f(b);
  for (int i = 1; i < 2 * n; ++i)
    s += (i % 2 ? 4.L : 2.L) * f(a + i * h);
  return s * h / 3.L;
}
// The probability that a chi squared variable of n degrees is below x (from
// the density; n a small integer).
Real chi_squared(Real x, int n) {
  if (x <= 0)
    return 0.L;
  // substitute x = u^2: smooth at zero
  const Real c = 1.L / (std::pow(2.L, n / 2.L) * std::tgamma(n / 2.L));
  return integrate([&](Real u) { return 2.L * c * std::pow(u, static_cast<Real>(n - 1)) * std::exp(-u * u / 2.L); }, 0.L, std::sqrt(x));
}
Real expected_power(Real mu, Real sigma, int p) {
  if (sigma <= 0)
    return p == 1 ? std::fabs(mu) : mu * mu;
  const auto f = [&](Real x) {
    const Real z = (x - mu) / sigma;
    return (p == 1 ? std::fabs(x) : x * x) * std::exp(-z * z / 2.L) / (sigma * std::sqrt(2.L * PI));
  };
  const Real a = mu - 12.L * sigma, b = mu + 12.L * sigma, mid = std::max(a, std::min(b, 0.L));
  return integrate(f, a, mid, 1500) + integrate(f, mid, b, 1500);
}


// Positive definite matrices L D L' (thus every correlation sign) with values
// that double arithmetic rounds.
Eigen::MatrixXd covariance(mc::Ctx &c, int n, std::string *s, bool singular = false) {
  Eigen::MatrixXd l = Eigen::MatrixXd::Identity(n, n);
  Eigen::VectorXd d(n);
  *s += " cov";
  for (int i = 0; i < n; ++i) {
    d[i] = c.pick<double>(singular ? std::vector<double>{0.3, 2., 0.} : std::vector<double>{0.3, 2.});
    *s += " " + std::to_string(d[i]).substr(0, 4);
    for (int j = 0; j < i; ++j) {
      l(i, j) = c.pick<double>({0., 0.7, -1.1});
      *s += "/" + std::to_string(l(i, j)).substr(0, 4);
    }
  }
  Eigen::MatrixXd a = l * d.asDiagonal() * l.transpose();
  // (so that no order of the variables is special)
  a = 0.5 * (a + a.transpose()).eval();
  return a;
}
Eigen::MatrixXd permuted(const Eigen::MatrixXd &a, const std::vector<std::size_t> &p) {
  Eigen::MatrixXd out(a.rows(), a.cols());
  for (Eigen::Index i = 0; i < a.rows(); ++i)
    for (Eigen::Index j = 0; j < a.cols(); ++j)
      out(i, j) = a(static_cast<Eigen::Index>(p[static_cast<std::size_t>(i)]), static_cast<Eigen::Index>(p[static_cast<std::size_t>(j)]));
  return out;
}
Eigen::VectorXd permuted(const Eigen::VectorXd &a, const std::vector<std::size_t> &p) {
  Eigen::VectorXd out(a.size());
  for (Eigen::Index i = 0; i < a.size(); ++i)
    out[i] = a[static_cast<Eigen::Index>(p[static_cast<std::size_t>(i)])];
  return out;
}
std::string text(const Eigen::VectorXd &v) {
  std::string s;
  for (Eigen::Index i = 0; i < v.size(); ++i)
    s += " " + std::to_string(v[i]).substr(0, 5);
  return s;
}
law::Mat wide(const Eigen::MatrixXd &m) { return m.cast<Real>(); }
law::Vec wide(const Eigen::VectorXd &m) { return m.cast<Real>(); }
Real nll(const Eigen::VectorXd &d, const Eigen::MatrixXd &cov) { return -law::log_density(wide(d), wide(cov)); }

Eigen::VectorXd noise_of(int pattern, int n) {
  Eigen::VectorXd v = Eigen::VectorXd::Zero(n);
  for (int i = 0; i < n; ++i)
    v[i] = pattern == 0 ? 0. : pattern == 1 ? 0.4 : 0.1 + 0.7 * i;
  return v;
}

} // namespace

namespace {
law::Mat root(const law::Mat &a) {
  const Eigen::SelfAdjointEigenSolver<law::Mat> e(a);
  const law::Vec r = e.eigenvalues().cwiseMax(0.L).cwiseSqrt();
  return e.eigenvectors() * r.asDiagonal() * e.eigenvectors().transpose();
}
} // namespace

namespace {
void check_metrics(mc::Ctx &c, int n, const Eigen::MatrixXd &cov, const Eigen::VectorXd &mean, const Eigen::VectorXd &y, const Eigen::VectorXd &v, const std::string &s) {
  const Eigen::VectorXd d = mean - y;
  const MarginalDistribution truth(y, v);
  const JointDistribution joint(mean, cov);
  const MarginalDistribution marginal(mean, Eigen::VectorXd(cov.diagonal()));
  const auto check = [&](double got, Real want, const char *key) { c.close(got, static_cast<double>(want), key, s, 1e-9, 1e-10); };

  const Real rmse = std::sqrt(wide(d).squaredNorm() / n);
  check(root_mean_square_error(mean, y), rmse, "rmse");
  check(root_mean_square_error(mean, truth), rmse, "rmse");
  check(RootMeanSquareError()(mean, truth), rmse, "rmse");
  Real sd = 0.L;
  for (int i = 0; i < n; ++i) {
    const Real e = static_cast<Real>(d[i]) - wide(d).sum() / n;
    sd += e * e;
  }
  sd = n == 1 ? 0.L : std::sqrt(sd / (n - 1));
  check(standard_deviation(d), sd, "standard-deviation");
  check(standard_deviation(mean, y), sd, "standard-deviation");
  check(standard_deviation(mean, truth), sd, "standard-deviation");
  check(StandardDeviation()(mean, truth), sd, "standard-deviation");

  const Eigen::MatrixXd total = cov + Eigen::MatrixXd(v.asDiagonal());
  const Eigen::MatrixXd apart = total.diagonal().asDiagonal();
  check(negative_log_likelihood(d, total), nll(d, total), "nll");
  check(negative_log_likelihood(d, Eigen::LDLT<Eigen::MatrixXd>(total)), nll(d, total), "nll-ldlt");
  check(negative_log_likelihood(d, Eigen::LDLT<Eigen::MatrixXd, Eigen::Upper>(total)), nll(d, total), "nll-ldlt");
  check(negative_log_likelihood(d, Eigen::DiagonalMatrix<double, Eigen::Dynamic>(total.diagonal())), nll(d, apart), "nll-diagonal");
  check(negative_log_likelihood(d, apart), nll(d, apart), "nll-dense-diagonal");
  Real each = 0.L;
  for (int i = 0; i < n; ++i) {
    const Eigen::VectorXd di = d.segment(i, 1);
    check(negative_log_likelihood(d[i], total(i, i)), nll(di, Eigen::MatrixXd(total.block(i, i, 1, 1))), "nll-scalar");
    each += static_cast<Real>(negative_log_likelihood(d[i], total(i, i)));
  }
  check(negative_log_likelihood(d, apart), each, "nll-sum");
  check(negative_log_likelihood(joint, truth), nll(d, total), "nll-joint");
  check(NegativeLogLikelihood<JointDistribution>()(joint, truth), nll(d, total), "nll-joint");
  check(NegativeLogLikelihood<>()(joint, truth), nll(d, total), "nll-joint");
  check(negative_log_likelihood(marginal, truth), nll(d, apart), "nll-marginal");
  check(NegativeLogLikelihood<MarginalDistribution>()(marginal, truth), nll(d, apart), "nll-marginal");
  check(NegativeLogLikelihood<JointDistribution>()(JointDistribution(mean, Eigen::MatrixXd(cov.diagonal().asDiagonal())), truth), nll(d, apart), "nll-forms-agree");

  const Real far = wide(d).dot(law::Vec(law::solve(wide(total), law::Mat(wide(d)))));
  c.close(chi_squared_cdf(d, total), static_cast<double>(chi_squared(far, n)), "chi-squared", s, 1e-6, 1e-6);
  c.close(chi_squared_cdf(joint, truth), static_cast<double>(chi_squared(far, n)), "chi-squared-joint", s, 1e-6, 1e-6);
  c.close(ChiSquaredCdf()(joint, truth), static_cast<double>(chi_squared(far, n)), "chi-squared-metric", s, 1e-6, 1e-6);
  if (n == 1)
    c.close(chi_squared_cdf(d[0], total(0, 0), 1), static_cast<double>(chi_squared(far, 1)), "chi-squared-scalar", s, 1e-6, 1e-6);

  const law::Mat w = wide(total);
  Real entropy = n * 0.5L * (1.L + std::log(2.L * PI)) + nll(Eigen::VectorXd::Zero(n), total) - n * 0.5L * std::log(2.L * PI);
  check(differential_entropy(total), entropy, "differential-entropy");
  check(differential_entropy(Eigen::LDLT<Eigen::MatrixXd>(total)), entropy, "differential-entropy");
  check(log_determinant_of_symmetric(Eigen::LDLT<Eigen::MatrixXd>(total)), 2.L * (nll(Eigen::VectorXd::Zero(n), total) - n * 0.5L * std::log(2.L * PI)), "log-determinant");

  const score::VariogramScoreOrder order[] = {score::VariogramScoreOrder::cMadogram, score::VariogramScoreOrder::cVariogram};
  for (int p : {1, 2})
    for (int weighted : {0, 1}) {
      Eigen::MatrixXd weights = Eigen::MatrixXd::Ones(n, n);
      if (weighted)
        for (int i = 0; i < n; ++i)
          for (int j = 0; j < n; ++j)
            weights(i, j) = 0.5 + i + j;
      Real want[2] = {0.L, 0.L};
      for (int i = 0; i < n; ++i)
        for (int j = i + 1; j < n; ++j)
          for (int noisy : {0, 1}) {
            const Eigen::MatrixXd &k = noisy ? total : cov;
            const Real sigma = std::sqrt(std::max(0.L, static_cast<Real>(k(i, i)) + k(j, j) - 2.L * k(i, j)));
            const Real e = std::pow(std::fabs(static_cast<Real>(y[i]) - y[j]), static_cast<Real>(p)) - expected_power(static_cast<Real>(mean[i]) - mean[j], sigma, p);
            want[noisy] += weights(i, j) * e * e;
          }
      check(score::variogram_score(joint, y, weighted ? &weights : nullptr, order[p - 1]), want[0], "variogram");
      check(score::variogram_score(joint, truth, weighted ? &weights : nullptr, order[p - 1]), want[1], "variogram-noisy-truth");
      if (p == 1 && !weighted)
        check(score::variogram_score(joint, truth), want[1], "variogram-default");
    }

  // in every order (a few of them when there are many)
  std::vector<std::size_t> order_of(static_cast<std::size_t>(n));
  std::iota(order_of.begin(), order_of.end(), 0);
  int orders = 0;
  const auto next = [&]() {
    if (n <= 4)
      return std::next_permutation(order_of.begin(), order_of.end());
    if (orders == 0)
      std::reverse(order_of.begin(), order_of.end());
    else
      std::rotate(order_of.begin(), order_of.begin() + n / 3 + 1, order_of.end());
    return ++orders < 4;
  };
  while (next()) {
    const MarginalDistribution t(permuted(y, order_of), permuted(v, order_of));
    const JointDistribution j(permuted(mean, order_of), permuted(cov, order_of));
    const MarginalDistribution m(j.mean, Eigen::VectorXd(j.covariance.diagonal()));
    check(RootMeanSquareError()(j.mean, t), rmse, "order-rmse");
    check(StandardDeviation()(j.mean, t), sd, "order-standard-deviation");
    check(negative_log_likelihood(j, t), nll(d, total), "order-nll");
    check(negative_log_likelihood(m, t), nll(d, apart), "order-nll-marginal");
    c.close(chi_squared_cdf(j, t), static_cast<double>(chi_squared(far, n)), "order-chi-squared", s, 1e-6, 1e-6);
    check(score::variogram_score(j, t), score::variogram_score(joint, truth), "order-variogram");
    check(differential_entropy(permuted(total, order_of)), entropy, "order-entropy");
  }
}
} // namespace

// Point, marginal and joint metrics of every small prediction and truth.
MC_SCENARIO(metrics) {
  const int n = c.range(1, 3);
  std::string s = "n " + std::to_string(n);
  const Eigen::MatrixXd cov = covariance(c, n, &s);
  const int pattern = c.choose(3);
  Eigen::VectorXd mean(n), y(n);
  for (int i = 0; i < n; ++i) {
    mean[i] = c.pick<double>({0., 1.3});
    y[i] = i == 0 ? c.pick<double>({-0.6, 3.}) : i == 1 ? 0.25 : 1.3;
  }
  const Eigen::VectorXd v = noise_of(pattern, n);
  s += " mean" + text(mean) + " y" + text(y) + " v" + text(v);
  c << s;
  c.state(s);
  c.step();
  check_metrics(c, n, cov, mean, y, v, s);
}

// The same for more variables.
MC_SCENARIO(large_metrics) {
  const int n = c.pick<int>({4, 5, 8, 9, 17, 30}), shape = c.choose(3), pattern = c.choose(3), off = c.choose(3);
  const std::string s = "n " + std::to_string(n) + " covariance " + std::to_string(shape) + " noise " + std::to_string(pattern) + " off " + std::to_string(off);
  c << s;
  c.state(s);
  c.step();
  Eigen::MatrixXd cov(n, n);
  Eigen::VectorXd mean(n), y(n), v(n);
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < n; ++j)
      cov(i, j) = shape == 0 ? 2. * std::exp(-0.4 * std::abs(i - j)) : shape == 1 ? (i == j ? 0.5 + 0.2 * ((3 * i) % 7) : 0.) + std::cos(0.7 * (i - j)) : (i == j ? 1.5 + i : 0.3);
    mean[i] = std::sin(1.3 * i);
    y[i] = off == 0 ? mean[i] + 0.1 * (i % 3) : off == 1 ? mean[i] - 1. + 0.3 * i : -2. * mean[i] + (i == n - 1 ? 4. : 0.);
    v[i] = pattern == 0 ? 0. : pattern == 1 ? 0.4 : 0.1 + 0.3 * ((2 * i) % 5);
  }
  check_metrics(c, n, cov, mean, y, v, s);
}
MC_SCENARIO(large_wasserstein) {
  const int n = c.pick<int>({4, 5, 8, 9, 16}), first = c.choose(4), second = c.choose(4), apart = c.choose(2);
  const std::string s = "n " + std::to_string(n) + " covariances " + std::to_string(first) + std::to_string(second) + (apart ? " apart" : " same mean");
  c << s;
  c.state(s);
  c.step();
  const auto make = [&](int shape) {
    Eigen::MatrixXd m(n, n);
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j)
        m(i, j) = shape == 0 ? 2. * std::exp(-0.4 * std::abs(i - j)) : shape == 1 ? (i == j ? 0.5 + 0.2 * ((3 * i) % 7) : 0.) + std::cos(0.7 * (i - j)) : shape == 2 ? (i == j ? 1.5 + i : 0.) : std::cos(0.3 * i) * std::cos(0.3 * j);
    return m;
  };
  const Eigen::MatrixXd a = make(first), b = make(second);
  Eigen::VectorXd ma(n), mb(n);
  for (int i = 0; i < n; ++i) {
    ma[i] = 0.5 * i;
    mb[i] = apart ? 1.5 - i : ma[i];
  }
  const law::Mat rb = root(wide(b));
  const Real want = (wide(ma) - wide(mb)).squaredNorm() + wide(a).trace() + wide(b).trace() - 2.L * root(rb * wide(a) * rb).trace();
  c.close(distance::wasserstein_2(JointDistribution(ma, a), JointDistribution(mb, b)), static_cast<double>(want), "wasserstein", s, 1e-6, 1e-5);
  c.close(distance::wasserstein_2(JointDistribution(mb, b), JointDistribution(ma, a)), static_cast<double>(want), "wasserstein-symmetric", s, 1e-6, 1e-5);
}

// Variograms of predictions which are certain of some differences.
MC_SCENARIO(variogram_singular) {
  std::string s = "three";
  const Eigen::MatrixXd cov = covariance(c, 3, &s, true);
  const int p = c.range(1, 2);
  c << s;
  c.state(s);
  c.step();
  const Eigen::Vector3d mean(0., 1., -0.5), y(0.3, 1.3, 2.);
  Real want = 0.L;
  for (int i = 0; i < 3; ++i)
    for (int j = i + 1; j < 3; ++j) {
      const Real sigma = std::sqrt(std::max(0.L, static_cast<Real>(cov(i, i)) + cov(j, j) - 2.L * cov(i, j)));
      const Real e = std::pow(std::fabs(static_cast<Real>(y[i]) - y[j]), static_cast<Real>(p)) - expected_power(static_cast<Real>(mean[i]) - mean[j], sigma, p);
      want += e * e;
    }
  c.close(score::variogram_score(JointDistribution(mean, cov), y, nullptr, p == 1 ? score::VariogramScoreOrder::cMadogram : score::VariogramScoreOrder::cVariogram), static_cast<double>(want), "variogram", s, 1e-6, 1e-6);
}

// The distance of every pair of distributions, degenerate ones included.
MC_SCENARIO(wasserstein) {
  const int n = c.range(1, mc::tiered(2, 3));
  std::string s = "n " + std::to_string(n);
  const Eigen::MatrixXd a = covariance(c, n, &s, true), b = covariance(c, n, &s, true);
  const int apart = c.choose(2);
  Eigen::VectorXd ma(n), mb(n);
  for (int i = 0; i < n; ++i) {
    ma[i] = 0.5 * i;
    mb[i] = apart ? 1.5 - i : ma[i];
  }
  s += apart ? " apart" : " same mean";
  c << s;
  c.state(s);
  c.step();
  const law::Mat rb = root(wide(b));
  const Real want = (wide(ma) - wide(mb)).squaredNorm() + wide(a).trace() + wide(b).trace() - 2.L * root(rb * wide(a) * rb).trace();
  const double got = distance::wasserstein_2(JointDistribution(ma, a), JointDistribution(mb, b));
  const double back = distance::wasserstein_2(JointDistribution(mb, b), JointDistribution(ma, a));
  c.close(got, static_cast<double>(want), "wasserstein", s, 1e-6, 2e-6);
  c.close(back, static_cast<double>(want), "wasserstein-symmetric", s, 1e-6, 2e-6);
  c.close(distance::wasserstein_2(JointDistribution(ma, a), JointDistribution(mb, a)), static_cast<double>((wide(ma) - wide(mb)).squaredNorm()), "wasserstein-same-covariance", s, 1e-6, 2e-6);
}
MC_SCENARIO(wasserstein_singular) {
  // every covariance of three against itself and a fixed one
  std::string s = "three";
  const Eigen::MatrixXd a = covariance(c, 3, &s, true);
  const int which = c.choose(3);
  Eigen::MatrixXd b = a;
  if (which == 1)
    b << 1.3, 0.4, -0.2, 0.4, 0.9, 0.1, -0.2, 0.1, 2.;
  else if (which == 2)
    b = Eigen::Vector3d(0.1, 0.7, -0.3) * Eigen::Vector3d(0.1, 0.7, -0.3).transpose();
  s += " other " + std::to_string(which);
  c << s;
  c.state(s);
  c.step();
  const Eigen::VectorXd m = Eigen::VectorXd::Zero(3);
  const law::Mat rb = root(wide(b));
  const Real want = wide(a).trace() + wide(b).trace() - 2.L * root(rb * wide(a) * rb).trace();
  c.close(distance::wasserstein_2(JointDistribution(m, a), JointDistribution(m, b)), static_cast<double>(want), "wasserstein", s, 1e-6, 2e-6);
  c.close(distance::wasserstein_2(JointDistribution(m, b), JointDistribution(m, a)), static_cast<double>(want), "wasserstein-symmetric", s, 1e-6, 2e-6);
}

// One dimension: every prediction and truth of a grid.
MC_SCENARIO(one_dimension) {
  const double mu = c.pick<double>({-2., 0., 0.1, 5.}), sigma = c.pick<double>({0., 1e-6, 0.1, 1., 3., 40.});
  const double y = c.pick<double>({-3., -2., 0., 0.3, 4., 100.});
  const std::string s = "mu " + std::to_string(mu) + " sigma " + std::to_string(sigma) + " y " + std::to_string(y);
  c << s;
  c.state(s);
  c.step();
  Real want = std::fabs(static_cast<Real>(y) - mu);
  if (sigma > 0) {
    const auto cdf = [&](Real x) { return normal_cdf((x - mu) / sigma); };
    const Real low = mu - 12.L * sigma, high = mu + 12.L * sigma, mid = std::max(low, std::min(high, static_cast<Real>(y)));
    want = integrate([&](Real x) { return cdf(x) * cdf(x); }, low, mid, 4000) + integrate([&](Real x) { return (1.L - cdf(x)) * (1.L - cdf(x)); }, mid, high, 4000);
    if (y > high)
      want += y - high;
    if (y < low)
      want += low - y;
  }
  c.close(score::crps_normal(mu, sigma, y), static_cast<double>(want), "crps", s, 1e-8, 1e-8);
  for (double bad : {static_cast<double>(NAN), HUGE_VAL})
    c.check(std::isnan(score::crps_normal(bad, 1., y)) && std::isnan(score::crps_normal(mu, bad, y)) && std::isnan(score::crps_normal(mu, 1., bad)), "crps-not-finite", s);
  if (sigma > 0) {
    const double var = sigma * sigma, d = y - mu;
    const Real z = static_cast<Real>(d) / sigma, log_pdf = -0.5L * z * z - 0.5L * std::log(2.L * PI * static_cast<Real>(sigma) * sigma);
    c.close(negative_log_likelihood(d, var), static_cast<double>(-log_pdf), "nll-scalar", s, 1e-10, 1e-10);
    c.close(gaussian::log_pdf(d, var), static_cast<double>(log_pdf), "log-pdf", s, 1e-10, 1e-10);
    c.close(gaussian::pdf(d, var), static_cast<double>(std::exp(log_pdf)), "pdf", s, 1e-9, 1e-300);
  }
}

// The energy score by draws against the integral, within the error of the
// draws: every covariance, weights, seeds.
namespace {
struct Integral {
  Real far, spread; // E|X - y|, E|X - X'|
};
// trapezoidal over independent normals (dimension 1 to 3)
Real expected_norm(const Eigen::VectorXd &offset, const Eigen::MatrixXd &cov, const Eigen::VectorXd &w) {
  const auto n = offset.size();
  const Eigen::MatrixXd l = cov.llt().matrixL();
  const int half = n == 1 ? 4000 : n == 2 ? 200 : 40;
  const double reach = n == 3 ? 5.5 : 7., h = reach / half;
  std::vector<double> z, p;
  for (int i = -half; i <= half; ++i) {
    // (not centred on the kink)
    z.push_back((i + 0.37) * h);
    p.push_back(std::exp(-0.5 * z.back() * z.back()) * h / std::sqrt(2. * M_PI));
  }
  double total = 0., mass = 0.;
  Eigen::VectorXd x(n), t(n);
  std::vector<std::size_t> at(static_cast<std::size_t>(n), 0);
  while (true) {
    double weight = 1.;
    for (Eigen::Index i = 0; i < n; ++i) {
      t[i] = z[at[static_cast<std::size_t>(i)]];
      weight *= p[at[static_cast<std::size_t>(i)]];
    }
    x = offset;
    x.noalias() += l * t;
    total += weight * std::sqrt((w.array() * x.array().square()).sum());
    mass += weight;
    std::size_t i = 0;
    for (; i < at.size(); ++i) {
      if (++at[i] < z.size())
        break;
      at[i] = 0;
    }
    if (i == at.size())
      break;
  }
  return total / mass;
}
} // namespace
MC_SCENARIO(energy) {
  const int n = c.range(1, 3);
  std::string s = "n " + std::to_string(n);
  Eigen::MatrixXd cov;
  if (n < 3) {
    cov = covariance(c, n, &s);
  } else {
    // three variances in every order (every order of pivots), two correlations
    const auto p = c.permutation(3);
    const double r = c.pick<double>({0., 0.6, -0.3});
    const Eigen::Vector3d sd(0.3, 1., 2.5);
    cov.resize(3, 3);
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j)
        cov(i, j) = sd[static_cast<Eigen::Index>(p[static_cast<std::size_t>(i)])] * sd[static_cast<Eigen::Index>(p[static_cast<std::size_t>(j)])] * (i == j ? 1. : r);
    s += " order " + std::to_string(p[0]) + std::to_string(p[1]) + std::to_string(p[2]) + " r " + std::to_string(r);
  }
  const int weighted = c.choose(3), noisy = c.choose(2);
  Eigen::VectorXd w = Eigen::VectorXd::Ones(n), mean(n), y(n);
  for (int i = 0; i < n; ++i) {
    w[i] = weighted == 0 ? 1. : weighted == 1 ? 4. : 0.25 + 2. * i;
    mean[i] = 0.5 - i;
    y[i] = i == 0 ? 2. : i == 1 ? -1.5 : 0.;
  }
  const Eigen::VectorXd v = noise_of(noisy * 2, n);
  const unsigned seed = c.pick<unsigned>({22u, 7u});
  s += " weights " + std::to_string(weighted) + " noise " + std::to_string(noisy) + " seed " + std::to_string(seed);
  c << s;
  c.state(s);
  c.step();
  const Eigen::MatrixXd total = cov + Eigen::MatrixXd(v.asDiagonal());
  const Real want = expected_norm(mean - y, total, w) - 0.5L * expected_norm(Eigen::VectorXd::Zero(n), Eigen::MatrixXd(2. * total), w);
  const Eigen::Index draws = mc::tiered(40000, 400000);
  // six deviations of the mean of the draws, and the error of the integral
  const double scale = std::sqrt((w.array() * total.diagonal().array()).sum());
  const double tolerance = 6. * scale / std::sqrt(static_cast<double>(draws)) + 2e-3 * scale;
  const JointDistribution joint(mean, cov);
  const MarginalDistribution truth(y, v);
  const auto *weights = weighted ? &w : nullptr;
  const double got = score::energy_score(joint, truth, weights, seed, draws);
  c.close(got, static_cast<double>(want), "energy", s, 0., tolerance);
  c.check(got == score::energy_score(joint, truth, weights, seed, draws), "energy-reproducible", s);
  if (!noisy)
    c.check(got == score::energy_score(joint, y, weights, seed, draws), "energy-forms", s);
  if (n == 1)
    c.close(got, std::sqrt(w[0]) * score::crps_normal(mean[0], std::sqrt(total(0, 0)), y[0]), "energy-crps", s, 0., tolerance);
}

// Whole models.
namespace {
struct Trend : public MeanFunction<Trend> {
  ALBATROSS_DECLARE_PARAMS(level, tilt)
  Trend() {
    level = {0.7, GaussianPrior(0., 2.)};
    tilt = {-0.4, UniformPrior(-2., 3.)};
  }
  double _call_impl(const double &x) const { return level.value + tilt.value * x; }
  double _call_impl(const Measurement<double> &m) const { return _call_impl(m.value) + 0.3; } // (the instrument's)
};
Real trend(const law::Term &t) { return 0.7L - 0.4L * t.x + (t.measured ? 0.3L : 0.L); }
Real zero(const law::Term &) { return 0.L; }
Real kernel(const law::Term &a, const law::Term &b) {
  const Real d = (static_cast<Real>(a.x) - b.x) / 1.5L;
  return 4.L * std::exp(-d * d) + (a.x == b.x && a.measured && b.measured ? 0.25L : 0.L);
}
// a model without anything of its own for cross validation, a prior on its
// parameter and a prediction which tells what it was fit to
} // namespace
namespace albatross {
struct Plain;
template <> struct Fit<Plain> {
  double mean;
  Eigen::Index n;
};
struct Plain : public ModelBase<Plain> {
  ALBATROSS_DECLARE_PARAMS(width)
  Plain() { width = {1.5, GaussianPrior(1., 0.5)}; }
  std::string get_name() const { return "plain"; }
  Fit<Plain> _fit_impl(const std::vector<double> &, const MarginalDistribution &y) const { return {y.mean.size() ? y.mean.mean() : 0., y.mean.size()}; }
  JointDistribution _predict_impl(const std::vector<double> &x, const Fit<Plain> &f, PredictTypeIdentity<JointDistribution> &&) const {
    const auto n = static_cast<Eigen::Index>(x.size());
    Eigen::MatrixXd c(n, n);
    for (Eigen::Index i = 0; i < n; ++i)
      for (Eigen::Index j = 0; j < n; ++j)
        c(i, j) = i == j ? width.value + static_cast<double>(f.n) : 0.3;
    return JointDistribution(Eigen::VectorXd::Constant(n, f.mean), c);
  }
};
} // namespace albatross
namespace {
struct Data {
  std::vector<double> x;
  Eigen::VectorXd y, v;
  std::string text;
  double width = 0.; // of the groups (else two of them)
  int group(double at) const { return width > 0. ? static_cast<int>(std::floor(at / width)) : at > 0.5 ? 1 : 0; }
};
Data asked; // (groupers of this metric are plain functions)
std::string group_name(const double &x) { return std::to_string(asked.group(x)); }
// Many data in many groups.
Data large_data(mc::Ctx &c) {
  Data d;
  const int n = c.pick<int>({5, 9, 13, mc::tiered(18, 40)}), pattern = c.choose(3), order = c.choose(3);
  d.width = c.pick<double>({0., 1., 2.25, 7.});
  d.y.resize(n);
  d.v = noise_of(pattern, n);
  for (int i = 0; i < n; ++i) {
    const int k = order == 0 ? i : order == 1 ? n - 1 - i : static_cast<int>((7LL * i + 3) % n);
    d.x.push_back(0.75 * k - 2.);
    d.y[i] = 1.5 * std::sin(2. * k + 1.);
  }
  d.text = " large " + std::to_string(n) + " order " + std::to_string(order) + " noise " + std::to_string(pattern) + " groups " + std::to_string(d.width);
  return d;
}
Data data(mc::Ctx &c, int least, int most) {
  Data d;
  const int n = c.range(least, most), pattern = c.choose(3);
  const auto order = c.permutation(static_cast<std::size_t>(n));
  d.y.resize(n);
  d.v = noise_of(pattern, n);
  for (int i = 0; i < n; ++i) {
    d.x.push_back(pattern == 2 && i == 1 ? 1. : std::vector<double>{1., -1., 2.25, 0.}[order[static_cast<std::size_t>(i)]]);
    d.y[i] = c.pick<double>({-1.2, 2.});
    d.text += " " + std::to_string(d.x.back()).substr(0, 5) + ":" + std::to_string(d.y[i]).substr(0, 4);
  }
  d.text += " noise " + std::to_string(pattern);
  return d;
}
// the log of the density of the priors: width ~ N(1, 0.5) and so on
Real log_normal_density(Real x, Real mu, Real sd) { return -0.5L * (x - mu) * (x - mu) / (sd * sd) - std::log(sd) - 0.5L * std::log(2.L * PI); }

// leave one (group) out with the conditional law of the observations
Real left_out(const Data &d, const std::map<int, std::vector<std::size_t>> &groups, const law::Mean &m, bool joint, Real *rmse) {
  Real out = 0.L;
  *rmse = 0.L;
  for (const auto &g : groups) {
    std::vector<law::Feature> train, test;
    std::vector<Real> ty, hy, tv;
    for (std::size_t i = 0; i < d.x.size(); ++i) {
      const bool held = std::find(g.second.begin(), g.second.end(), i) != g.second.end();
      (held ? test : train).push_back({{1., d.x[i], true}});
      (held ? hy : ty).push_back(d.y[static_cast<Eigen::Index>(i)]);
      if (!held)
        tv.push_back(d.v[static_cast<Eigen::Index>(i)]);
    }
    const auto vec = [](const std::vector<Real> &v) { return law::Vec(Eigen::Map<const law::Vec>(v.data(), static_cast<Eigen::Index>(v.size()))); };
    auto p = law::condition(kernel, m, train, train, vec(ty), law::Mat(vec(tv).asDiagonal()), test);
    const law::Vec e = vec(hy) - p.mean;
    *rmse += std::sqrt(e.squaredNorm() / static_cast<Real>(e.size()));
    if (!joint)
      p.cov = law::Mat(law::Vec(p.cov.diagonal()).asDiagonal());
    out -= law::log_density(e, p.cov);
  }
  *rmse /= static_cast<Real>(groups.size());
  return out;
}
template <typename Model> void check_gp(mc::Ctx &c, Model model, const Data &d, const law::Mean &mean, Real prior, const std::string &s) {
  std::vector<law::Feature> f;
  for (double x : d.x)
    f.push_back({{1., x, true}});
  const RegressionDataset<double> dataset(d.x, MarginalDistribution(d.y, d.v));
  const Real ll = law::log_density(wide(d.y) - law::mean(mean, f), law::cov(kernel, f, f) + law::Mat(wide(d.v).asDiagonal())) + prior;
  c.close(model.prior_log_likelihood(), static_cast<double>(prior), "prior", s, 1e-10, 1e-10);
  c.close(model.log_likelihood(dataset), static_cast<double>(ll), "gp-log-likelihood", s, 1e-9, 1e-9);
  c.close(GaussianProcessNegativeLogLikelihood()(dataset, model), static_cast<double>(-ll), "gp-negative-log-likelihood", s, 1e-9, 1e-9);
  std::map<int, std::vector<std::size_t>> alone, pairs;
  for (std::size_t i = 0; i < d.x.size(); ++i) {
    alone[static_cast<int>(i)] = {i};
    pairs[d.group(d.x[i])].push_back(i);
  }
  Real rmse, ignored;
  const Real joint = left_out(d, alone, mean, true, &rmse);
  c.close(LeaveOneOutRMSE()(dataset, model), static_cast<double>(rmse), "gp-leave-one-out-rmse", s, 1e-8, 1e-8);
  if (d.v.sum() > 0.)
    return; // (see C22: the scores of the noisy ones)
  c.close(LeaveOneOutLikelihood<JointDistribution>()(dataset, model), static_cast<double>(joint - prior), "gp-leave-one-out", s, 1e-8, 1e-8);
  c.close(LeaveOneOutLikelihood<MarginalDistribution>()(dataset, model), static_cast<double>(joint - prior), "gp-leave-one-out-marginal", s, 1e-8, 1e-8);
  const LeaveOneGroupOutLikelihood<double, JointDistribution> grouped(group_name);
  const LeaveOneGroupOutLikelihood<double, MarginalDistribution> grouped_marginal(group_name);
  c.close(grouped(dataset, model), static_cast<double>(left_out(d, pairs, mean, true, &ignored) - prior), "gp-leave-group-out", s, 1e-8, 1e-8);
  c.close(grouped_marginal(dataset, model), static_cast<double>(left_out(d, pairs, mean, false, &ignored) - prior), "gp-leave-group-out-marginal", s, 1e-8, 1e-8);
}
} // namespace
namespace {
void check_processes(mc::Ctx &c, const Data &d) {
  asked = d;
  const int with_mean = c.choose(2);
  const std::string s = "data" + d.text + (with_mean ? " mean" : "");
  c << s;
  c.state(s);
  c.step();
  SquaredExponential<EuclideanDistance> smooth(1.5, 2.);
  smooth.squared_exponential_length_scale.prior = UniformPrior(0., 10.);
  smooth.sigma_squared_exponential.prior = GaussianPrior(1., 3.);
  IndependentNoise<double> noise(0.5);
  noise.sigma_independent_noise.prior = FixedPrior();
  const auto cov = smooth + measurement_only(noise);
  const Real prior = -std::log(10.L) + log_normal_density(2.L, 1.L, 3.L);
  if (with_mean)
    check_gp(c, gp_from_covariance_and_mean(cov, Trend(), "gp"), d, trend, prior + log_normal_density(0.7L, 0.L, 2.L) - std::log(5.L), s);
  else
    check_gp(c, gp_from_covariance(cov, "gp"), d, zero, prior, s);
}
void check_plain(mc::Ctx &c, const Data &d) {
  asked = d;
  const std::string s = "data" + d.text;
  c << s;
  c.state(s);
  c.step();
  const Plain model;
  const RegressionDataset<double> dataset(d.x, MarginalDistribution(d.y, d.v));
  const Real prior = log_normal_density(1.5L, 1.L, 0.5L);
  const auto one_by_one = [&](const std::map<int, std::vector<std::size_t>> &groups, bool joint, Real *rmse) {
    Real out = 0.L;
    *rmse = 0.L;
    for (const auto &g : groups) {
      Real sum = 0.L, count = 0.L;
      for (std::size_t i = 0; i < d.x.size(); ++i)
        if (std::find(g.second.begin(), g.second.end(), i) == g.second.end()) {
          sum += d.y[static_cast<Eigen::Index>(i)];
          count += 1.L;
        }
      const Real m = count > 0 ? sum / count : 0.L;
      const auto n = static_cast<Eigen::Index>(g.second.size());
      law::Mat k = law::Mat::Constant(n, n, joint ? 0.3L : 0.L);
      law::Vec e(n);
      for (Eigen::Index i = 0; i < n; ++i) {
        const auto at = static_cast<Eigen::Index>(g.second[static_cast<std::size_t>(i)]);
        e[i] = d.y[at] - m;
        k(i, i) = 1.5L + count + d.v[at];
      }
      *rmse += std::sqrt(e.squaredNorm() / static_cast<Real>(n));
      out -= law::log_density(e, k);
    }
    *rmse /= static_cast<Real>(groups.size());
    return out;
  };
  std::map<int, std::vector<std::size_t>> alone, pairs;
  for (std::size_t i = 0; i < d.x.size(); ++i) {
    alone[static_cast<int>(i)] = {i};
    pairs[d.group(d.x[i])].push_back(i);
  }
  Real rmse, ignored;
  const Real one = one_by_one(alone, true, &rmse);
  c.close(LeaveOneOutRMSE()(dataset, model), static_cast<double>(rmse), "leave-one-out-rmse", s, 1e-9, 1e-9);
  c.close(LeaveOneOutLikelihood<JointDistribution>()(dataset, model), static_cast<double>(one - prior), "leave-one-out", s, 1e-9, 1e-9);
  c.close(LeaveOneOutLikelihood<MarginalDistribution>()(dataset, model), static_cast<double>(one - prior), "leave-one-out-marginal", s, 1e-9, 1e-9);
  const LeaveOneGroupOutLikelihood<double, JointDistribution> grouped(group_name);
  const LeaveOneGroupOutLikelihood<double, MarginalDistribution> grouped_marginal(group_name);
  c.close(grouped(dataset, model), static_cast<double>(one_by_one(pairs, true, &ignored) - prior), "leave-group-out", s, 1e-9, 1e-9);
  c.close(grouped_marginal(dataset, model), static_cast<double>(one_by_one(pairs, false, &ignored) - prior), "leave-group-out-marginal", s, 1e-9, 1e-9);
  // a metric of the prediction itself
  const auto fit = model.fit(dataset);
  const auto p = fit.predict(d.x);
  const auto joint = p.joint();
  c.close(NegativeLogLikelihood<JointDistribution>()(p, dataset.targets), negative_log_likelihood(joint, dataset.targets), "metric-of-prediction", s, 1e-12, 1e-12);
  c.close(NegativeLogLikelihood<MarginalDistribution>()(p, dataset.targets), negative_log_likelihood(joint.marginal(), dataset.targets), "metric-of-prediction", s, 1e-12, 1e-12);
  c.close(RootMeanSquareError()(p, dataset.targets), root_mean_square_error(joint.mean, dataset.targets.mean), "metric-of-prediction", s, 1e-12, 1e-12);
}

} // namespace
MC_SCENARIO(gp_metrics) { check_processes(c, data(c, 1, mc::tiered(3, 4))); }
MC_SCENARIO(model_metrics) { check_plain(c, data(c, 2, mc::tiered(3, 4))); }
MC_SCENARIO(large_gp_metrics) { check_processes(c, large_data(c)); }
MC_SCENARIO(large_model_metrics) { check_plain(c, large_data(c)); }

// Targets and predictions which share a large offset, and errors which do: all
// is said about the differences.
MC_SCENARIO(large_offsets) {
  const double offset = c.pick<double>({1e3, 6.4e6, 1e9, -1e9}), bias = c.pick<double>({0., 1e3, 1e7, -1e9});
  const int n = c.pick<int>({1, 2, 3, 5, 9, 20}), shape = c.choose(2), noise = c.choose(2);
  const std::string s = "offset " + std::to_string(offset) + " bias " + std::to_string(bias) + " n=" + std::to_string(n) + " covariance " + std::to_string(shape) + " noise " + std::to_string(noise);
  c << s;
  c.state(s);
  c.step();
  Eigen::MatrixXd cov(n, n);
  Eigen::VectorXd d(n), y(n), v(n);
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < n; ++j)
      cov(i, j) = shape == 0 ? 2. * std::exp(-0.5 * std::abs(i - j)) : (i == j ? 0.5 + 0.25 * ((3 * i) % 7) : 0.);
    // (multiples of 2^-4, which are kept next to the offsets)
    d[i] = 0.0625 * ((i * 7) % 5 - 2);
    y[i] = offset + ((i * 3) % 4 - 1.);
    v[i] = noise == 0 ? 0. : 0.25 + 0.25 * ((2 * i) % 5);
  }
  const Eigen::VectorXd errors = d.array() + bias;
  Real sum = 0.L, sd = 0.L;
  for (int i = 0; i < n; ++i)
    sum += static_cast<Real>(d[i]);
  for (int i = 0; i < n; ++i)
    sd += (static_cast<Real>(d[i]) - sum / n) * (static_cast<Real>(d[i]) - sum / n);
  sd = n == 1 ? 0.L : std::sqrt(sd / (n - 1));
  c.close(standard_deviation(errors), static_cast<double>(sd), "offset-standard-deviation", s, 1e-6, 1e-6);
  c.close(standard_deviation(Eigen::VectorXd(y + errors), y), static_cast<double>(sd), "offset-standard-deviation", s, 1e-6, 1e-6);
  c.close(root_mean_square_error(Eigen::VectorXd(y + d), y), static_cast<double>(std::sqrt(wide(d).squaredNorm() / n)), "offset-rmse", s, 1e-9, 1e-9);
  const Eigen::VectorXd mean = y + d;
  const Eigen::VectorXd near_y = y.array() - offset, near_mean = near_y + d;
  const JointDistribution here(near_mean, cov), there(mean, cov);
  const MarginalDistribution zero(near_y, v), truth(y, v);
  c.close(negative_log_likelihood(there, truth), negative_log_likelihood(here, zero), "offset-nll", s, 1e-9, 1e-9);
  c.close(negative_log_likelihood(there.marginal(), truth), negative_log_likelihood(here.marginal(), zero), "offset-nll", s, 1e-9, 1e-9);
  c.close(chi_squared_cdf(there, truth), chi_squared_cdf(here, zero), "offset-chi-squared", s, 1e-9, 1e-9);
  for (const auto order : {score::VariogramScoreOrder::cMadogram, score::VariogramScoreOrder::cVariogram})
    c.close(score::variogram_score(there, truth, nullptr, order), score::variogram_score(here, zero, nullptr, order), "offset-variogram", s, 1e-5, 1e-5);
  c.close(score::energy_score(there, truth, nullptr, 7u, 20), score::energy_score(here, zero, nullptr, 7u, 20), "offset-energy", s, 1e-5, 1e-5);
  c.close(score::crps_normal(mean[0], std::sqrt(cov(0, 0)), y[0]), score::crps_normal(near_mean[0], std::sqrt(cov(0, 0)), near_y[0]), "offset-crps", s, 1e-9, 1e-9);
  c.close(distance::wasserstein_2(there, JointDistribution(y, cov)), d.squaredNorm(), "offset-wasserstein", s, 1e-9, 1e-8 * n);
}

// In other units.
MC_SCENARIO(units_of_targets) {
  const int power = units::power(c), n = c.pick<int>({1, 2, 5, 9}), shape = c.choose(3), noise = c.choose(3), off = c.choose(3);
  const std::string s = "units 2^" + std::to_string(power) + " n=" + std::to_string(n) + " covariance " + std::to_string(shape) + " noise " + std::to_string(noise) + " off " + std::to_string(off);
  c << s;
  c.state(s);
  c.step();
  const double unit = units::of(power);
  Eigen::MatrixXd cov(n, n);
  Eigen::VectorXd mean(n), y(n), v(n);
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < n; ++j)
      cov(i, j) = shape == 0 ? 2. * std::exp(-0.5 * std::abs(i - j)) : shape == 1 ? (i == j ? 0.5 + 0.2 * ((3 * i) % 7) : 0.) + std::cos(0.7 * (i - j)) : (i == j ? 1.5 + i : 0.);
    mean[i] = std::sin(1.3 * i);
    y[i] = off == 0 ? mean[i] + 0.1 : off == 1 ? 1. - 0.4 * i : mean[i] + (i % 2 ? 9. : -9.);
    v[i] = noise == 0 ? 0. : noise == 1 ? 0.5 : 0.1 + 0.3 * ((2 * i) % 5);
  }
  const JointDistribution p(mean, cov), q(unit * mean, unit * unit * cov);
  const MarginalDistribution t(y, v), u(unit * y, unit * unit * v);
  const MarginalDistribution pm = p.marginal(), qm = q.marginal();
  const auto scaled = [&](double got, double want, const char *key, double by) { c.close(got / by, want, key, s + " (scaled)", 1e-9, 1e-9); };
  const auto shifted = [&](double got, double want, const char *key) { c.close(got, want + n * power * std::log(2.), key, s, 1e-9, 1e-9); };
  scaled(root_mean_square_error(q.mean, u), root_mean_square_error(p.mean, t), "units-rmse", unit);
  scaled(standard_deviation(q.mean, u), standard_deviation(p.mean, t), "units-standard-deviation", unit);
  shifted(negative_log_likelihood(q, u), negative_log_likelihood(p, t), "units-nll");
  shifted(negative_log_likelihood(qm, u), negative_log_likelihood(pm, t), "units-nll-marginal");
  c.close(chi_squared_cdf(q, u), chi_squared_cdf(p, t), "units-chi-squared", s, 1e-9, 1e-9);
  shifted(differential_entropy(q.covariance), differential_entropy(p.covariance), "units-entropy");
  for (const auto order : {score::VariogramScoreOrder::cMadogram, score::VariogramScoreOrder::cVariogram}) {
    const double by = order == score::VariogramScoreOrder::cMadogram ? unit * unit : unit * unit * unit * unit;
    scaled(score::variogram_score(q, u, nullptr, order), score::variogram_score(p, t, nullptr, order), "units-variogram", by);
  }
  scaled(score::energy_score(q, u, nullptr, 7u, 20), score::energy_score(p, t, nullptr, 7u, 20), "units-energy", unit);
  scaled(score::crps_normal(q.mean[0], std::sqrt(q.covariance(0, 0)), u.mean[0]), score::crps_normal(p.mean[0], std::sqrt(p.covariance(0, 0)), t.mean[0]), "units-crps", unit);
  const JointDistribution other(y, Eigen::MatrixXd(cov * 0.5)), rescaled(unit * y, unit * unit * cov * 0.5);
  scaled(distance::wasserstein_2(q, rescaled), distance::wasserstein_2(p, other), "units-wasserstein", unit * unit);
}
