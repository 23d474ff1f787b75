// C05: distribution functions against independent long double evaluation.
#include <albatross/Common>
#include <albatross/Stats>
#include "mc.h"

using namespace albatross;
typedef long double L;

namespace {

// Regularised lower incomplete gamma: series below the mode, continued
// fraction (Lentz) for the upper tail beyond it.
L gamma_p(L a, L z) {
  if (z <= 0)
    return 0;
  if (z < a + 1) {
    L s = 1 / a, t = s;
    for (int n = 1; n < 200000; ++n) {
      t *= z / (a + n);
      s += t;
      if (t < s * 1e-22L)
        break;
    }
    return s * expl(-z + a * logl(z) - lgammal(a));
  }
  L b = z + 1 - a, cc = 1e300L, d = 1 / b, h = d;
  for (int i = 1; i < 200000; ++i) {
    const L an = -i * (i - a);
    b += 2;
    d = an * d + b;
    if (fabsl(d) < 1e-300L)
      d = 1e-300L;
    cc = b + an / cc;
    if (fabsl(cc) < 1e-300L)
      cc = 1e-300L;
    d = 1 / d;
    const L e = d * cc;
    h *= e;
    if (fabsl(e - 1) < 1e-20L)
      break;
  }
  return 1 - expl(-z + a * logl(z) - lgammal(a)) * h;
}

// What the implementation promises by construction: its continued fraction
// saturates to one when within about 3e-7 of it.
double tol(double want) { return want > 1 - 1e-5 ? 1e-6 : 1e-9; }

const std::vector<double> kShapes = {0.001, 0.01, 0.1, 0.25, 0.5, 0.75, 1, 1.5, 2, 2.5, 3, 4, 5, 6.5, 8, 9, 9.5, 9.99, 9.999999, 10, 10.000001, 10.5, 11, 12.5, 15, 20, 33.3, 50, 75, 100, 150, 200, 350, 500, 1000, 2500, 5000};

double z_grid(double a, int i, int n) { return a * std::pow(10.0, -5 + 7.0 * i / n); }

} // namespace

MC_SCENARIO(incomplete_gamma_values) {
  const double a = c.pick(kShapes);
  const int N = mc::tiered(400, 4000);
  const int i = c.choose(N);
  const double z = z_grid(a, i, N);
  c << "a=" << a << " z=" << z;
  c.state(c.text);
  const double p = incomplete_gamma(a, z);
  const double want = static_cast<double>(gamma_p(a, z));
  c.close(p, want, "incomplete_gamma", "", 0, tol(want));
  c.check(p >= 0 && p <= 1 + 1e-9, "incomplete_gamma-range", std::to_string(p));
  const double next = incomplete_gamma(a, z_grid(a, i + 1, N));
  c.check(next >= p - 1e-9, "incomplete_gamma-monotone");
  // The recurrence P(a+1, z) = P(a, z) - z^a e^-z / Gamma(a+1).
  const double up = incomplete_gamma(a + 1, z);
  const double term = static_cast<double>(expl(a * logl(z) - static_cast<L>(z) - lgammal(static_cast<L>(a) + 1)));
  c.close(up, p - term, "incomplete_gamma-recurrence", "", 0, tol(p) + 1e-8);
  c.step(3);
}

MC_SCENARIO(incomplete_gamma_special) {
  const double a = c.pick(kShapes);
  c.state(std::to_string(a));
  c.check(incomplete_gamma(a, 0.0) == 0, "at-zero");
  c.check(std::isnan(incomplete_gamma(a, NAN)) && std::isnan(incomplete_gamma(NAN, a)), "nan");
  c.check(std::isnan(incomplete_gamma(-a, 1.0)), "negative-shape");
  for (double z : {1.0, 5.0, 700.0})
    c.check(incomplete_gamma(0.0, z) == 1, "zero-shape");
  // far beyond the mode it is one
  for (double f : {50.0, 100.0, 700.0, 1e4, 1e6})
    c.close(incomplete_gamma(a, (a + 1) * f), 1.0, "at-infinity", "a=" + std::to_string(a) + " f=" + std::to_string(f), 0, 1e-6);
  c.close(incomplete_gamma(1.0, a), 1 - std::exp(-a), "exponential", "", 0, 1e-6);
}

MC_SCENARIO(chi_squared) {
  const int dof = c.pick({1, 2, 3, 4, 5, 7, 10, 15, 18, 19, 20, 21, 22, 25, 30, 50, 100, 200, 500, 1000});
  const int N = mc::tiered(300, 2000);
  const int i = c.choose(N);
  auto grid = [&](int k) { return dof * std::pow(10.0, -4 + 6.0 * k / N); };
  const double x = grid(i);
  c << "dof=" << dof << " x=" << x;
  c.state(c.text);
  const double p = chi_squared_cdf(x, dof);
  const double want = static_cast<double>(gamma_p(0.5L * dof, 0.5L * static_cast<L>(x)));
  c.close(p, want, "chi_squared", "", 0, tol(want));
  c.check(p >= 0 && p <= 1 + 1e-9, "chi_squared-range");
  c.check(chi_squared_cdf(x, static_cast<double>(dof)) == p, "chi_squared-double-dof");
  c.check(chi_squared_cdf(x, static_cast<std::size_t>(dof)) == p, "chi_squared-size-dof");
  c.check(chi_squared_cdf(grid(i + 1), dof) >= p - 1e-9, "chi_squared-monotone-x");
  c.check(chi_squared_cdf(x, dof + 1) <= p + 1e-6, "chi_squared-monotone-dof");
  if (p < 1 - 1e-5)
    c.check(chi_squared_cdf(x, dof + 1) <= p + 1e-9, "chi_squared-monotone-dof");
  // deviation and variance form
  const double var = c.pick({0.25, 1.0, 9.0});
  const double dev = (c.flip() ? -1 : 1) * std::sqrt(x * var);
  c.close(chi_squared_cdf(dev, var, static_cast<std::size_t>(dof)), p, "chi_squared-variance", "", 0, tol(p) + 1e-8);
  c.step(6);
}

// Very small arguments, down to the rounding unit.
MC_SCENARIO(near_zero) {
  const int dof = c.range(1, 6);
  const double x = c.pick({3.0, 2.0, 1.0}) * std::pow(10.0, -c.range(3, 15));
  c << "dof=" << dof << " x=" << x;
  c.state(c.text);
  const double want = static_cast<double>(gamma_p(0.5L * dof, 0.5L * static_cast<L>(x)));
  c.close(chi_squared_cdf(x, dof), want, "chi_squared-small", "", 1e-6, 1e-10);
  c.close(chi_squared_cdf(std::sqrt(x), 1.0, static_cast<std::size_t>(dof)), want, "chi_squared-small-variance", "", 1e-6, 1e-10);
  c.close(incomplete_gamma(0.5 * dof, 0.5 * x), want, "incomplete_gamma-small", "", 1e-6, 1e-10);
}

// Many dimensions: banded factors, so the whitened deviation is known.
MC_SCENARIO(chi_squared_covariance_large) {
  const int n = c.pick({5, 8, 9, 16, 17, 20, 21, 33, 60});
  const int band = c.pick({0, 1, 3, 60});
  const double off = c.pick({-0.4, 0.2});
  const double scale = c.pick({1e-3, 1.0, 30.0});
  const double size = c.pick({0.0, 0.6, 1.0, 1.3});
  Eigen::MatrixXd l = Eigen::MatrixXd::Zero(n, n);
  Eigen::VectorXd z(n);
  for (int i = 0; i < n; ++i) {
    for (int j = std::max(0, i - band); j < i; ++j)
      l(i, j) = scale * off / (1 + (i - j) * (i - j));
    l(i, i) = scale * (1 + (i % 3));
    z[i] = size * (i % 2 ? 1.2 : -0.75);
  }
  const Eigen::MatrixXd cov = l * l.transpose();
  const Eigen::VectorXd dev = l * z;
  c << "n=" << n << " band=" << band << " off=" << off << " scale=" << scale << " size=" << size;
  c.state(c.text);
  const double want = static_cast<double>(gamma_p(0.5L * n, 0.5L * static_cast<L>(z.squaredNorm())));
  c.close(chi_squared_cdf(dev, cov), want, "chi_squared-covariance", "", 0, 1e-6);
}

MC_SCENARIO(chi_squared_special) {
  const int dof = c.range(0, 30);
  c.state(std::to_string(dof));
  const double inf = std::numeric_limits<double>::infinity();
  c.check(std::isnan(chi_squared_cdf(-1.0, dof)) && std::isnan(chi_squared_cdf(NAN, dof)), "chi_squared-domain");
  c.check(chi_squared_cdf(inf, dof) == 1, "chi_squared-infinity");
  if (dof > 0)
    c.check(chi_squared_cdf(0.0, dof) == 0, "chi_squared-zero");
  else
    for (double x : {0.0, 0.5, 100.0})
      c.check(chi_squared_cdf(x, dof) == 1, "chi_squared-no-freedom");
}

// Covariance form: every small positive definite covariance.
MC_SCENARIO(chi_squared_covariance) {
  const int n = c.range(1, mc::tiered(3, 4));
  Eigen::MatrixXd l = Eigen::MatrixXd::Zero(n, n);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j <= i; ++j)
      l(i, j) = i == j ? c.pick({0.5, 2.0}) : c.pick({-1.0, 0.0, 1.5});
  Eigen::VectorXd z(n);
  for (int i = 0; i < n; ++i)
    z[i] = c.pick({-0.7, 0.0, 1.3});
  const Eigen::MatrixXd cov = l * l.transpose();
  const Eigen::VectorXd dev = l * z;
  c << "cov " << cov.reshaped().transpose() << " dev " << dev.transpose();
  c.state(c.text);
  const double want = static_cast<double>(gamma_p(0.5L * n, 0.5L * static_cast<L>(z.squaredNorm())));
  c.close(chi_squared_cdf(dev, cov), want, "chi_squared-covariance", "", 0, 1e-7);
  if (n == 1)
    c.close(chi_squared_cdf(dev[0], cov(0, 0), std::size_t{1}), want, "chi_squared-scalar", "", 0, 1e-7);
}

MC_SCENARIO(gaussian_density) {
  const double var = c.pick({1e-4, 0.01, 0.3, 1.0, 4.0, 1e4});
  const int N = 201;
  const int i = c.choose(N);
  const double s = std::sqrt(var);
  const double dev = s * (-5 + 10.0 * i / (N - 1));
  c << "dev=" << dev << " var=" << var;
  c.state(c.text);
  const L want = expl(-0.5L * static_cast<L>(dev) * static_cast<L>(dev) / static_cast<L>(var)) / sqrtl(2 * M_PIl * static_cast<L>(var));
  c.close(gaussian::pdf(dev, var), static_cast<double>(want), "gaussian-pdf", "", 1e-10, 0);
  c.close(gaussian::log_pdf(dev, var), static_cast<double>(logl(want)), "gaussian-log_pdf", "", 1e-10, 1e-10);
  c.check(gaussian::pdf(dev, var) == gaussian::pdf(-dev, var), "gaussian-symmetric");
  if (i == 0) {
    double sum = 0;
    const int M = 4000;
    for (int k = 0; k < M; ++k)
      sum += gaussian::pdf(s * (-10 + 20.0 * (k + 0.5) / M), var) * s * 20.0 / M;
    c.close(sum, 1.0, "gaussian-normalised", "", 0, 1e-9);
  }
}

double ks_distance(const std::vector<double> &xs) {
  // sup over t of |#{x <= t}/n - t|, attained at a sample from either side
  const double n = static_cast<double>(xs.size());
  double want = 0;
  for (double t : xs) {
    double le = 0, lt = 0;
    for (double x : xs) {
      le += x <= t;
      lt += x < t;
    }
    want = std::max({want, std::fabs(le / n - t), std::fabs(lt / n - t)});
  }
  return want;
}

// Larger samples of regular shapes, with their distance at either end, inside
// and at ties, given in several orders.
MC_SCENARIO(ks_statistic_large) {
  const int n = c.pick({7, 10, 16, 33, 100, 257});
  const int shape = c.choose(8);
  const int order = c.choose(4);
  std::vector<double> xs;
  for (int i = 0; i < n; ++i) {
    const double u = (i + 0.5) / n;
    const double v[] = {u, u * u, std::sqrt(u), 0.5 + 0.5 * u, 0.5 * u, std::floor(4 * u) / 4, u < 0.3 ? 0.3 : u, 1 - u * u * u};
    xs.push_back(v[shape]);
  }
  if (order == 1)
    std::reverse(xs.begin(), xs.end());
  if (order == 2)
    std::rotate(xs.begin(), xs.begin() + n / 3, xs.end());
  if (order == 3)
    for (int i = 0; i < n; ++i)
      std::swap(xs[static_cast<std::size_t>(i)], xs[static_cast<std::size_t>(i * 5 % n)]);
  c << "n=" << n << " shape=" << shape << " order=" << order;
  c.state(c.text);
  c.close(uniform_ks_test(xs), ks_distance(xs), "ks", "", 1e-12, 1e-12);
}

// Every sequence of samples over a grid of [0, 1] (so every order, every
// tie): the exact distance of the empirical distribution.
MC_SCENARIO(ks_statistic) {
  const int n = c.range(1, mc::tiered(4, 6));
  std::vector<double> xs;
  for (int i = 0; i < n; ++i)
    xs.push_back(c.pick({0.0, 0.1, 0.25, 0.5, 0.8, 1.0}));
  for (double x : xs)
    c << x << " ";
  c.state(c.text);
  const auto copy = xs;
  const double got = uniform_ks_test(xs);
  c.check(xs == copy, "ks-argument");
  const double want = ks_distance(xs);
  c.close(got, want, "ks", "", 1e-12, 1e-12);
  c.check(got >= 0 && got <= 1, "ks-range");
}
