// C13: composed covariance and mean functions mean what the expression says
// (the trees over partially defined leaves are in c13_trees.inc).
#include <albatross/CovarianceFunctions>
#include <albatross/Dataset>
#include <Eigen/Eigenvalues>
#include <optional>
#include "mc.h"

using namespace albatross;

namespace {


} // namespace
// ---- valid covariances stay valid covariances ----
namespace {
using Kernel = std::function<double(double, double)>;
template <typename F> void any_kernel(mc::Ctx &c, F f) {
  switch (c.choose(6)) {
  case 0:
    f(SquaredExponential<EuclideanDistance>(1.5, 2.), Kernel([](double a, double b) { return 4. * std::exp(-(a - b) * (a - b) / 2.25); }), "se");
    break;
  case 1:
    f(Exponential<EuclideanDistance>(0.7, 1.5), Kernel([](double a, double b) { return 2.25 * std::exp(-std::fabs(a - b) / 0.7); }), "exp");
    break;
  case 2:
    f(Constant(3.), Kernel([](double, double) { return 9.; }), "constant");
    break;
  case 3:
    f(Polynomial<2>(0.5), Kernel([](double a, double b) { return 0.25 * (1. + a * b + a * a * b * b); }), "polynomial");
    break;
  case 4:
    f(IndependentNoise<double>(0.5), Kernel([](double a, double b) { return a == b ? 0.25 : 0.; }), "noise");
    break;
  default: {
    Nugget n;
    n.set_param_value("nugget_sigma", 0.25);
    f(n, Kernel([](double a, double b) { return a == b ? 0.0625 : 0.; }), "nugget");
  }
  }
}
struct Matrices {
  Eigen::MatrixXd m, cross;
  Eigen::VectorXd d;
};
template <typename Cov> std::function<Matrices(const std::vector<double> &)> matrices(const Cov &cov) {
  return [cov](const std::vector<double> &xs) { return Matrices{cov(xs), cov(xs, xs), cov.diagonal(xs)}; };
}
void definite(mc::Ctx &c, const std::function<Matrices(const std::vector<double> &)> &cov, const Kernel &k, const std::string &text) {
  static const std::vector<double> grid = {-2., -0.25, 0., 1., 1.25, 10.};
  // every multiset of points
  const int n = c.range(0, mc::tiered(4, 6));
  std::vector<double> xs;
  int at = 0;
  for (int i = 0; i < n; ++i) {
    at += c.choose(static_cast<int>(grid.size()) - at);
    xs.push_back(grid[static_cast<std::size_t>(at)]);
  }
  std::ostringstream os;
  os << text << " at";
  for (double x : xs)
    os << " " << x;
  c << os.str();
  c.state(os.str());
  c.step();
  const Matrices all = cov(xs);
  const Eigen::MatrixXd &m = all.m, &cross = all.cross;
  const Eigen::VectorXd &d = all.d;
  c.check(m.rows() == n && m.cols() == n && cross.rows() == n && cross.cols() == n && d.size() == n, "sizes", os.str());
  double scale = 1.;
  for (Eigen::Index i = 0; i < n; ++i)
    for (Eigen::Index j = 0; j < n; ++j) {
      const double want = k(xs[static_cast<std::size_t>(i)], xs[static_cast<std::size_t>(j)]);
      scale = std::max(scale, std::fabs(want));
      c.check(mc::near(m(i, j), want, 1e-9, 1e-9) && mc::near(cross(i, j), want, 1e-9, 1e-9), "entries", os.str());
      c.check(m(i, j) == m(j, i), "symmetric", os.str());
      if (i == j)
        c.check(mc::near(d[i], want, 1e-9, 1e-9), "variances", os.str());
    }
  if (n > 0) {
    const Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> eig(m, Eigen::EigenvaluesOnly);
    c.check(eig.eigenvalues().minCoeff() >= -1e-10 * scale * n, "positive-semi-definite", os.str() + ": " + std::to_string(eig.eigenvalues().minCoeff()));
  }
}
} // namespace

MC_SCENARIO(matrices_are_valid_covariances) {
  any_kernel(c, [&](const auto &a, const Kernel &ak, const std::string &at) {
    any_kernel(c, [&](const auto &b, const Kernel &bk, const std::string &bt) {
      switch (c.choose(3)) {
      case 0:
        definite(c, matrices(a + b), [=](double x, double y) { return ak(x, y) + bk(x, y); }, at + "+" + bt);
        break;
      case 1:
        definite(c, matrices(a * b), [=](double x, double y) { return ak(x, y) * bk(x, y); }, at + "*" + bt);
        break;
      default:
        definite(c, matrices(a * b + a), [=](double x, double y) { return ak(x, y) * bk(x, y) + ak(x, y); }, at + "*" + bt + "+" + at);
      }
    });
  });
}


// Regular point sets of more points, in any order and far apart, different
// ones along rows and columns, and expressions of up to eight terms, in any
// unit of the values.
namespace {
struct Named {
  std::string text;
  std::function<Eigen::MatrixXd(const std::vector<double> &)> square;
  std::function<Eigen::MatrixXd(const std::vector<double> &, const std::vector<double> &)> cross;
  std::function<Eigen::VectorXd(const std::vector<double> &)> diagonal;
  Kernel want;
};
template <typename Cov> Named named(const std::string &text, const Cov &cov, const Kernel &want) {
  using V = std::vector<double>;
  return {text, [cov](const V &xs) { return Eigen::MatrixXd(cov(xs)); }, [cov](const V &xs, const V &ys) { return Eigen::MatrixXd(cov(xs, ys)); },
          [cov](const V &xs) { return Eigen::VectorXd(cov.diagonal(xs)); }, want};
}
Named any_expression(mc::Ctx &c, double unit) {
  const SquaredExponential<EuclideanDistance> se(1.5, 2. * unit);
  const Exponential<EuclideanDistance> ex(0.7, 1.5 * unit);
  const Constant k(3. * unit);
  const IndependentNoise<double> noise(0.5 * unit);
  const Constant half(0.5);
  const SquaredExponential<EuclideanDistance> shape(20., 1.25);
  const double u2 = unit * unit;
  const auto f_se = [=](double a, double b) { return 4. * u2 * std::exp(-(a - b) * (a - b) / 2.25); };
  const auto f_ex = [=](double a, double b) { return 2.25 * u2 * std::exp(-std::fabs(a - b) / 0.7); };
  const auto f_k = [=](double, double) { return 9. * u2; };
  const auto f_noise = [=](double a, double b) { return a == b ? 0.25 * u2 : 0.; };
  const auto f_shape = [=](double a, double b) { return 1.5625 * std::exp(-(a - b) * (a - b) / 400.); };
  switch (c.choose(8)) {
  case 0:
    return named("se+exp+constant+noise", se + ex + k + noise, [=](double a, double b) { return f_se(a, b) + f_ex(a, b) + f_k(a, b) + f_noise(a, b); });
  case 1:
    return named("se+(exp+(constant+noise))", se + (ex + (k + noise)), [=](double a, double b) { return f_se(a, b) + f_ex(a, b) + f_k(a, b) + f_noise(a, b); });
  case 2:
    return named("shape*half*shape*noise", shape * half * shape * noise, [=](double a, double b) { return f_shape(a, b) * 0.25 * f_shape(a, b) * f_noise(a, b); });
  case 3:
    return named("shape*(half*(shape*se))", shape * (half * (shape * se)), [=](double a, double b) { return f_shape(a, b) * 0.25 * f_shape(a, b) * f_se(a, b); });
  case 4:
    return named("(se+exp)*shape+(constant+noise)*half", (se + ex) * shape + (k + noise) * half, [=](double a, double b) { return (f_se(a, b) + f_ex(a, b)) * f_shape(a, b) + (f_k(a, b) + f_noise(a, b)) * 0.25; });
  case 5:
    return named("(se+noise)*(half+shape)*(half+shape)", (se + noise) * (half + shape) * (half + shape), [=](double a, double b) { return (f_se(a, b) + f_noise(a, b)) * (0.25 + f_shape(a, b)) * (0.25 + f_shape(a, b)); });
  case 6:
    return named("se+exp+constant+noise+se+exp+constant+noise", se + ex + k + noise + se + ex + k + noise, [=](double a, double b) { return 2. * (f_se(a, b) + f_ex(a, b) + f_k(a, b) + f_noise(a, b)); });
  default:
    return named("((noise*half)*half)+(half*((shape*noise)+se))", ((noise * half) * half) + (half * ((shape * noise) + se)), [=](double a, double b) { return f_noise(a, b) * 0.0625 + 0.25 * (f_shape(a, b) * f_noise(a, b) + f_se(a, b)); });
  }
}
std::vector<double> points(int n, int pattern) {
  std::vector<double> xs;
  for (int i = 0; i < n; ++i)
    switch (pattern) {
    case 0: // a line, backwards
      xs.push_back(-0.5 * i);
      break;
    case 1: // repeated
      xs.push_back(0.25 * (i % 7));
      break;
    case 2: // no order
      xs.push_back(0.125 * ((i * 37 + 11) % (n + 3)) - 1.);
      break;
    default: // far apart
      xs.push_back(std::ldexp(i % 2 ? 1. : -1., (i * 5) % 41 - 20));
    }
  return xs;
}
} // namespace

MC_SCENARIO(large) {
  const int power = c.pick<int>({0, -100, -30, 30, 100});
  const double unit = std::ldexp(1., power);
  const Named e = any_expression(c, unit);
  const int n = c.pick<int>({1, 5, 8, 9, 16, 17, 33, 65, 101}), pattern = c.choose(4), other = c.choose(5);
  const std::vector<double> xs = points(n, pattern), ys = other == 4 ? xs : points(std::vector<int>{1, n, n + 1, 2 * n + 3}[static_cast<std::size_t>(other)], (pattern + other) % 4);
  const std::string s = e.text + " n " + std::to_string(n) + " points " + std::to_string(pattern) + " others " + std::to_string(other) + " unit 2^" + std::to_string(power);
  c << s;
  c.state(s);
  const Eigen::MatrixXd m = e.square(xs), cross = e.cross(xs, ys);
  const Eigen::VectorXd d = e.diagonal(xs);
  c.check(m.rows() == n && m.cols() == n && d.size() == n && cross.rows() == n && cross.cols() == static_cast<Eigen::Index>(ys.size()), "sizes", s);
  if (m.rows() != n || m.cols() != n || d.size() != n || cross.rows() != n || cross.cols() != static_cast<Eigen::Index>(ys.size()))
    return;
  const double u2 = unit * unit;
  for (Eigen::Index i = 0; i < n; ++i) {
    const double x = xs[static_cast<std::size_t>(i)];
    c.check(mc::near(d[i] / u2, e.want(x, x) / u2, 1e-12, 1e-11), "variances", s);
    for (Eigen::Index j = 0; j < n; ++j) {
      c.check(mc::near(m(i, j) / u2, e.want(x, xs[static_cast<std::size_t>(j)]) / u2, 1e-12, 1e-11), "entries", s);
      c.check(m(i, j) == m(j, i), "symmetric", s);
    }
    for (Eigen::Index j = 0; j < cross.cols(); ++j)
      c.check(mc::near(cross(i, j) / u2, e.want(x, ys[static_cast<std::size_t>(j)]) / u2, 1e-12, 1e-11), "cross-entries", s);
  }
  if (n <= 33) {
    const Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> eig(m / u2, Eigen::EigenvaluesOnly);
    c.check(eig.eigenvalues().minCoeff() >= -1e-12 * (1. + m.trace() / u2), "positive-semi-definite", s + ": " + std::to_string(eig.eigenvalues().minCoeff()));
  }
}
