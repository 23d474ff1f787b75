// C26: least squares over every small design.
#include <albatross/Core>
#include <albatross/Evaluation>
#include <albatross/src/models/least_squares.hpp>

#include "gp_oracle.h"
#include "scaled.h"

using namespace albatross;
using law::Real;

namespace albatross {
struct Rows : public LeastSquares<Rows> {};
// one which solves in its own way (and notes it)
struct Ridge : public LeastSquares<Ridge> {
  Eigen::VectorXd least_squares_solver(const Eigen::MatrixXd &A, const Eigen::VectorXd &b) const { return (A.transpose() * A + Eigen::MatrixXd::Identity(A.cols(), A.cols())).ldlt().solve(A.transpose() * b); }
};
} // namespace albatross

namespace {

struct Design {
  std::vector<Eigen::VectorXd> rows;
  Eigen::VectorXd y;
  std::string text;
};
Design design(mc::Ctx &c, int most_rows, int most_cols) {
  Design d;
  const int m = c.range(1, most_rows), n = c.range(1, most_cols);
  const bool small = m * n <= 6;
  d.text = "design";
  for (int i = 0; i < m; ++i) {
    Eigen::VectorXd r(n);
    for (int j = 0; j < n; ++j) {
      r[j] = small ? c.pick<double>({0., 1., -2.}) : c.pick<double>({0., 1.});
      d.text += " " + std::to_string(static_cast<int>(r[j]));
    }
    d.text += ";";
    d.rows.push_back(r);
  }
  d.y = Eigen::VectorXd::Zero(m);
  const int t = c.choose(m + 1);
  for (int i = 0; i < m; ++i)
    d.y[i] = t == m ? 1.5 - i * i : i == t ? 1. : 0.;
  d.text += " y " + std::to_string(t);
  return d;
}
law::Mat matrix(const std::vector<Eigen::VectorXd> &rows) {
  law::Mat a(static_cast<Eigen::Index>(rows.size()), rows[0].size());
  for (Eigen::Index i = 0; i < a.rows(); ++i)
    a.row(i) = rows[static_cast<std::size_t>(i)].cast<Real>().transpose();
  return a;
}

} // namespace

namespace {
void check_design(mc::Ctx &c, const Design &d, double variance, const std::string &s) {
  const law::Mat a = matrix(d.rows);
  const law::Vec y = d.y.cast<Real>();
  const MarginalDistribution targets(d.y, Eigen::VectorXd(Eigen::VectorXd::Constant(d.y.size(), variance)));
  const Eigen::FullPivLU<law::Mat> lu(a.transpose() * a);
  const bool full = lu.rank() == a.cols();
  // a solver of its own
  const law::Mat ridge = a.transpose() * a + law::Mat::Identity(a.cols(), a.cols());
  const law::Vec own = law::solve(ridge, law::Mat(a.transpose() * y));
  const auto other = Ridge().fit(d.rows, targets).get_fit();
  for (Eigen::Index i = 0; i < own.size(); ++i)
    c.close(other.coefs[i], static_cast<double>(own[i]), "own-solver", s, 1e-9, 1e-9);
  if (!full)
    return;
  const Rows model;
  const auto fit = model.fit(d.rows, targets);
  const Eigen::VectorXd x = fit.get_fit().coefs;
  c.check(x.size() == a.cols() && x.allFinite(), "coefficients", s);
  const law::Vec residual = y - a * x.cast<Real>();
  c.check(static_cast<double>((a.transpose() * residual).cwiseAbs().maxCoeff()) < 1e-10, "orthogonal", s);
  const law::Vec want = lu.solve(law::Mat(a.transpose() * y));
  for (Eigen::Index i = 0; i < x.size(); ++i)
    c.close(x[i], static_cast<double>(want[i]), "minimiser", s, 1e-9, 1e-9);
  // predictions are the projection, at the data and elsewhere
  const Eigen::VectorXd at = fit.predict(d.rows).mean();
  for (Eigen::Index i = 0; i < at.size(); ++i)
    c.close(at[i], static_cast<double>((a * x.cast<Real>())[i]), "prediction", s, 1e-10, 1e-10);
  std::vector<Eigen::VectorXd> elsewhere(1, Eigen::VectorXd::Constant(a.cols(), -1.5));
  c.close(fit.predict(elsewhere).mean()[0], -1.5 * x.sum(), "prediction-elsewhere", s, 1e-10, 1e-10);
  // of data without noise, and from a dataset
  const auto plain = model.fit(d.rows, MarginalDistribution(d.y)).get_fit();
  c.check((plain.coefs - x).cwiseAbs().maxCoeff() == 0., "noise-in-common", s);
  c.check(model.fit(RegressionDataset<Eigen::VectorXd>(d.rows, targets)).get_fit() == fit.get_fit(), "dataset", s);
  // in every order
  std::vector<std::size_t> order(d.rows.size());
  std::iota(order.begin(), order.end(), 0);
  int orders = 0;
  const auto next = [&]() {
    if (order.size() <= 4)
      return std::next_permutation(order.begin(), order.end());
    std::rotate(order.begin(), order.begin() + static_cast<std::ptrdiff_t>(order.size() / 3) + 1, order.end());
    return ++orders < 3;
  };
  while (next()) {
    const auto p = RegressionDataset<Eigen::VectorXd>(d.rows, targets).subset(order);
    c.check((model.fit(p).get_fit().coefs - x).cwiseAbs().maxCoeff() < 1e-9, "order", s);
  }
  // linear in the targets
  const auto twice = model.fit(d.rows, MarginalDistribution(Eigen::VectorXd(2. * d.y))).get_fit();
  c.check((twice.coefs - 2. * x).cwiseAbs().maxCoeff() < 1e-9, "linear", s);
}
} // namespace

// The residuals are orthogonal to the design; the coefficients, where there is
// only one solution, are it.
MC_SCENARIO(designs) {
  const Design d = design(c, mc::tiered(3, 4), mc::tiered(2, 3));
  const double variance = c.pick<double>({0., 2.5});
  const std::string s = d.text + " variance " + std::to_string(variance);
  c << s;
  c.state(s);
  c.step();
  check_design(c, d, variance, s);
}

// More rows, more columns, columns of different sizes.
MC_SCENARIO(large_designs) {
  const int rows = c.pick<int>({4, 7, 12, 33}), cols = c.pick<int>({1, 2, 4, 7, 12}), kind = c.choose(4), t = c.choose(3);
  c.assume(rows >= cols);
  Design d;
  d.y.resize(rows);
  for (int i = 0; i < rows; ++i) {
    Eigen::VectorXd r(cols);
    const double x = -1. + 2. * ((i * 5) % rows) / rows;
    for (int j = 0; j < cols; ++j)
      r[j] = kind == 0 ? std::cos(j * std::acos(x)) : kind == 1 ? (i % cols == j ? 2. + i : 0.) : kind == 2 ? std::sin(1. + i * 0.4 + j * 1.7 * (i % 3 + 1)) + (i == j ? 2. : 0.) : (i == j ? 1. : i > j ? 0.25 : 0.) * (j % 2 ? 10. : 1.);
    d.rows.push_back(r);
    d.y[i] = t == 0 ? 1.5 - 0.2 * i : t == 1 ? (i == rows - 1 ? 1. : 0.) : std::sin(2. * i);
  }
  const double variance = c.pick<double>({0., 2.5});
  const std::string s = "large design " + std::to_string(rows) + "x" + std::to_string(cols) + " kind " + std::to_string(kind) + " y " + std::to_string(t) + " variance " + std::to_string(variance);
  c << s;
  c.state(s);
  c.step();
  check_design(c, d, variance, s);
}

// Noise which is not the same for all is refused.
MC_SCENARIO(noise) {
  const int n = c.range(1, 4);
  Eigen::VectorXd v(n), y(n);
  bool equal = true;
  std::vector<double> x;
  std::string s = "noise";
  for (int i = 0; i < n; ++i) {
    v[i] = c.pick<double>({0., 1., 1.0000001});
    equal = equal && v[i] == v[0];
    x.push_back(i);
    y[i] = i * i;
    s += " " + std::to_string(v[i]);
  }
  c << s;
  c.state(s);
  c.step();
  const LinearRegression model;
  const auto fit = [&]() { model.fit(x, MarginalDistribution(y, v)); };
  if (equal)
    fit();
  else
    c.check(mc::dies(fit), "refuses-different-noise", s);
}

// The same for more data, one of which has another noise: wherever it is.
MC_SCENARIO(noise_of_many) {
  const int n = c.range(5, mc::tiered(16, 40));
  const int at = c.range(-1, n - 1);
  const double common = c.pick<double>({0., 1., 1e-6, 1e6}), factor = c.pick<double>({1.001, 2., 0.});
  c << n << " data, number " << at << " of another noise, " << common << " " << factor;
  Eigen::VectorXd v = Eigen::VectorXd::Constant(n, common), y(n);
  std::vector<double> x;
  for (int i = 0; i < n; ++i) {
    x.push_back(i);
    y[i] = 3. - 2. * i;
  }
  if (at >= 0)
    v[at] = common == 0. ? factor + 1. : common * factor;
  const LinearRegression model;
  const auto fit = [&]() { return model.fit(x, MarginalDistribution(y, v)).get_fit().coefs; };
  if (at < 0) {
    const Eigen::VectorXd coefs = fit();
    c.close(coefs[0], 3., "offset", "", 1e-9, 1e-9);
    c.close(coefs[1], -2., "slope", "", 1e-9, 1e-9);
  } else {
    c.check(mc::dies([&]() { fit(); }), "refuses-different-noise", std::to_string(at) + " of " + std::to_string(n));
  }
  c.state(std::to_string(n) + " " + std::to_string(at) + " " + std::to_string(common) + " " + std::to_string(factor));
  c.step();
}

namespace {
void check_line(mc::Ctx &c, int n, const std::vector<double> &x, const Eigen::VectorXd &y, const Eigen::VectorXd &exact, double slope, double offset, const std::string &s) {
  const LinearRegression model;
  const auto through = model.fit(x, MarginalDistribution(exact));
  c.close(through.get_fit().coefs[0], offset, "offset", s, 1e-9, 1e-9);
  c.close(through.get_fit().coefs[1], slope, "slope", s, 1e-9, 1e-9);
  const std::vector<double> test = {-7., 0.5};
  const Eigen::VectorXd p = through.predict(test).mean();
  c.close(p[0], offset - 7. * slope, "line", s, 1e-9, 1e-9);
  c.close(p[1], offset + 0.5 * slope, "line", s, 1e-9, 1e-9);
  // the textbook formulas
  Real mx = 0, my = 0, xx = 0, xy = 0;
  for (int i = 0; i < n; ++i) {
    mx += x[static_cast<std::size_t>(i)] / static_cast<Real>(n);
    my += y[i] / static_cast<Real>(n);
  }
  for (int i = 0; i < n; ++i) {
    xx += (x[static_cast<std::size_t>(i)] - mx) * (x[static_cast<std::size_t>(i)] - mx);
    xy += (x[static_cast<std::size_t>(i)] - mx) * (y[i] - my);
  }
  const auto fit = model.fit(x, MarginalDistribution(y));
  c.close(fit.get_fit().coefs[1], static_cast<double>(xy / xx), "slope-of-points", s, 1e-9, 1e-9);
  c.close(fit.get_fit().coefs[0], static_cast<double>(my - xy / xx * mx), "offset-of-points", s, 1e-9, 1e-9);
  // the others predict each
  const RegressionDataset<double> d(x, MarginalDistribution(y));
  const auto folds = model.cross_validate().predict(d, LeaveOneOutGrouper()).mean();
  for (int i = 0; i < n; ++i) {
    std::vector<std::size_t> others;
    for (int j = 0; j < n; ++j)
      if (j != i)
        others.push_back(static_cast<std::size_t>(j));
    const auto want = model.fit(d.subset(others)).predict(std::vector<double>{x[static_cast<std::size_t>(i)]}).mean();
    c.close(folds[i], want[0], "left-out", s, 1e-9, 1e-9);
  }
}
} // namespace

// A line through points of a grid.
MC_SCENARIO(lines) {
  const int n = c.range(2, mc::tiered(4, 5));
  std::vector<double> x;
  Eigen::VectorXd y(n), exact(n);
  std::string s = "points";
  const double slope = c.pick<double>({0., -1.5, 3.}), offset = c.pick<double>({0., 2.});
  bool different = false;
  for (int i = 0; i < n; ++i) {
    x.push_back(c.pick<double>({0., 1., -2., 10.}));
    different = different || x.back() != x[0];
    y[i] = i == 1 ? 2. : 0.25 * i * x.back() - 1.;
    exact[i] = offset + slope * x.back();
    s += " " + std::to_string(static_cast<int>(x.back()));
  }
  c.assume(different);
  s += " slope " + std::to_string(slope) + " offset " + std::to_string(offset);
  c << s;
  c.state(s);
  c.step();
  check_line(c, n, x, y, exact, slope, offset, s);
}

MC_SCENARIO(large_lines) {
  const int n = c.pick<int>({6, 9, 20, 50}), kind = c.choose(4);
  const double slope = c.pick<double>({0., -1.5, 3.}), offset = c.pick<double>({0., 2., -40.});
  std::vector<double> x;
  Eigen::VectorXd y(n), exact(n);
  for (int i = 0; i < n; ++i) {
    x.push_back(kind == 0 ? i : kind == 1 ? -3. + 0.2 * ((i * 7) % n) : kind == 2 ? 100. + (i % 3) : (i == n - 1 ? 5. : 1.) - 0.001 * i);
    y[i] = std::sin(2. * i) + 0.3 * x.back();
    exact[i] = offset + slope * x.back();
  }
  const std::string s = std::to_string(n) + " points kind " + std::to_string(kind) + " slope " + std::to_string(slope) + " offset " + std::to_string(offset);
  c << s;
  c.state(s);
  c.step();
  check_line(c, n, x, y, exact, slope, offset, s);
}

// In other units, of the targets and of the design.
MC_SCENARIO(units_of_both) {
  const int power = units::power(c), design = c.pick<int>({0, -120, -40, 16, 120}), rows = c.pick<int>({3, 8, 20}), cols = c.pick<int>({1, 2, 3}), kind = c.choose(2);
  const std::string s = "units 2^" + std::to_string(power) + " and 2^" + std::to_string(design) + " design " + std::to_string(rows) + "x" + std::to_string(cols) + " kind " + std::to_string(kind);
  c << s;
  c.state(s);
  c.step();
  const double unit = units::of(power), columns = units::of(design);
  std::vector<Eigen::VectorXd> a, b;
  Eigen::VectorXd y(rows);
  for (int i = 0; i < rows; ++i) {
    Eigen::VectorXd r(cols);
    for (int j = 0; j < cols; ++j)
      r[j] = kind ? std::pow(-1. + 2. * i / rows, j) : std::sin(1. + i * 0.4 + j * 1.7 * (i % 3 + 1));
    a.push_back(r);
    b.push_back(columns * r);
    y[i] = 1.5 - 0.2 * i + std::sin(2. * i);
  }
  const Rows model;
  const auto f = model.fit(a, MarginalDistribution(y)), g = model.fit(b, MarginalDistribution(Eigen::VectorXd(unit * y)));
  units::scaled(c, g.get_fit().coefs, f.get_fit().coefs, unit / columns, "units-coefficients", s);
  units::scaled(c, g.predict(b).mean(), f.predict(a).mean(), unit, "units-prediction", s);
}
