// C28: every sequence of draws of the random utilities.
#include "draws.h"

#include <albatross/Common>
#include <albatross/Indexing>
#include <albatross/Samplers>
#include <albatross/utils/RandomUtils>

#include <Eigen/Eigenvalues>

using namespace albatross;
using Real = long double;
using Mat = Eigen::Matrix<Real, Eigen::Dynamic, Eigen::Dynamic>;

namespace {

std::string show(const std::vector<std::size_t> &v) {
  std::string s;
  for (std::size_t x : v)
    s += " " + std::to_string(x);
  return s;
}

// counts up in base n, false after the last
bool next(std::vector<int> &digits, int n) {
  for (int &d : digits) {
    if (++d < n)
      return true;
    d = 0;
  }
  return false;
}

} // namespace

// Integers without replacement: exactly n different ones of the range.
MC_SCENARIO(integers) {
  const std::size_t low = static_cast<std::size_t>(c.pick<int>({0, 3, 10}));
  const int count = c.range(1, mc::tiered(6, 7));
  const int n = c.range(0, count);
  c << n << " of " << count << " from " << low;
  Draws::control(c, count, mc::tiered(5, 7));
  std::default_random_engine gen(1);
  const auto got = randint_without_replacement(static_cast<std::size_t>(n), low, low + static_cast<std::size_t>(count) - 1, gen);
  Draws::release();
  c.check(got.size() == static_cast<std::size_t>(n), "draws-without-replacement-of-another-number", show(got));
  c.check(std::set<std::size_t>(got.begin(), got.end()).size() == got.size(), "draws-without-replacement-repeat", show(got));
  for (std::size_t x : got)
    c.check(x >= low && x < low + static_cast<std::size_t>(count), "draws-without-replacement-out-of-range", show(got));
  c.state(std::to_string(low) + "/" + std::to_string(count) + show(got));
}

// Of many: exactly n different ones, whatever the seed.
MC_SCENARIO(many_integers) {
  Draws::release();
  const int count = c.pick<int>({7, 8, 9, 20, 33, 100, 1000}), which = c.choose(8), seed = c.range(1, mc::tiered(5, 60));
  const int n = std::vector<int>{0, 1, count / 3, count / 2, count / 2 + 1, count / 2 + 2, count - 1, count}[static_cast<std::size_t>(which)];
  const std::size_t low = static_cast<std::size_t>(c.pick<int>({0, 1, 1000}));
  c << n << " of " << count << " from " << low << " seed " << seed;
  std::default_random_engine gen(static_cast<unsigned>(seed));
  const auto got = randint_without_replacement(static_cast<std::size_t>(n), low, low + static_cast<std::size_t>(count) - 1, gen);
  c.check(got.size() == static_cast<std::size_t>(n), "draws-without-replacement-of-another-number", std::to_string(got.size()));
  c.check(std::set<std::size_t>(got.begin(), got.end()).size() == got.size(), "draws-without-replacement-repeat", show(got));
  for (std::size_t x : got)
    c.check(x >= low && x < low + static_cast<std::size_t>(count), "draws-without-replacement-out-of-range", show(got));
  std::vector<std::string> xs;
  for (int i = 0; i < count; ++i)
    xs.push_back("#" + std::to_string(i));
  const auto values = random_without_replacement(xs, static_cast<std::size_t>(n), gen);
  c.check(values.size() == static_cast<std::size_t>(n) && std::set<std::string>(values.begin(), values.end()).size() == values.size(), "values-without-replacement", std::to_string(values.size()));
  for (const auto &v : values)
    c.check(std::find(xs.begin(), xs.end(), v) != xs.end(), "values-without-replacement", v);
  c.state(std::to_string(low) + "/" + std::to_string(count) + "/" + std::to_string(n) + "/" + std::to_string(seed));
}

// More than there are is refused.
MC_SCENARIO(too_many_integers) {
  Draws::release();
  const int count = c.range(1, 4), more = c.range(1, 3);
  c << count + more << " of " << count;
  c.check(mc::dies([&] {
            std::default_random_engine gen(1);
            randint_without_replacement(static_cast<std::size_t>(count + more), 2, 1 + static_cast<std::size_t>(count), gen);
          }),
          "more-draws-than-choices-accepted", "no refusal");
  c.state(std::to_string(count) + std::to_string(more));
}

// Every subset is as likely as every other: all sequences of draws, counted.
MC_SCENARIO(subsets_are_equally_likely) {
  Draws::release();
  const int count = c.range(1, mc::tiered(5, 6));
  const int n = c.range(0, count);
  const bool values = c.flip();
  const int length = mc::tiered(5, 6);
  c << n << " of " << count << (values ? " values" : "");
  std::map<std::vector<std::size_t>, long> seen;
  std::vector<std::size_t> xs;
  for (int i = 0; i < count; ++i)
    xs.push_back(static_cast<std::size_t>(100 - 7 * i));
  std::vector<int> script(static_cast<std::size_t>(length), 0);
  do {
    Draws::follow(script, count);
    std::default_random_engine gen(1);
    auto got = values ? random_without_replacement(xs, static_cast<std::size_t>(n), gen) : randint_without_replacement(static_cast<std::size_t>(n), 0, static_cast<std::size_t>(count) - 1, gen);
    if (!Draws::ran_out()) {
      std::sort(got.begin(), got.end());
      ++seen[got];
    }
  } while (next(script, count));
  Draws::release();
  long subsets = 1;
  for (int i = 0; i < n; ++i)
    subsets = subsets * (count - i) / (i + 1);
  c.check(static_cast<long>(seen.size()) == subsets, "some-subsets-are-never-drawn", std::to_string(seen.size()) + " of " + std::to_string(subsets));
  for (const auto &s : seen) {
    c.check(s.second == seen.begin()->second, "some-subsets-are-more-likely", show(s.first) + " came " + std::to_string(s.second) + " times but" + show(seen.begin()->first) + " " + std::to_string(seen.begin()->second));
    if (values)
      for (std::size_t x : s.first)
        c.check(std::count(xs.begin(), xs.end(), x) == 1, "drawn-value-is-not-of-the-list", std::to_string(x));
  }
  c.state(std::to_string(count) + "/" + std::to_string(n) + std::to_string(values));
}

// Random values: positions are not repeated even if values are.
MC_SCENARIO(values) {
  const int count = c.range(1, 4);
  std::vector<std::string> xs;
  for (int i = 0; i < count; ++i)
    xs.push_back(c.flip() ? "a" : "b");
  const int n = c.range(0, count);
  Draws::control(c, count, 4);
  std::default_random_engine gen(1);
  const auto got = random_without_replacement(xs, static_cast<std::size_t>(n), gen);
  Draws::release();
  c << n << " of";
  for (const auto &x : xs)
    c << " " << x;
  c.check(got.size() == static_cast<std::size_t>(n), "draws-without-replacement-of-another-number", std::to_string(got.size()));
  for (const std::string v : {"a", "b"})
    c.check(std::count(got.begin(), got.end(), v) <= std::count(xs.begin(), xs.end(), v), "draws-without-replacement-repeat", v);
  std::string s;
  for (const auto &x : got)
    s += x;
  c.state(std::to_string(count) + s);
}

namespace {
// covariances A A^T of small integer matrices: regular, singular, zero
Eigen::MatrixXd covariance(mc::Ctx &c, int n, std::string &text) {
  Eigen::MatrixXd a(n, n);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) {
      a(i, j) = n <= 2 ? c.pick<double>({0., 1., -0.5}) : c.pick<double>({0., 1.});
      text += " " + std::to_string(a(i, j)).substr(0, 4);
    }
  return a * a.transpose();
}
} // namespace

// Draws are an affine map of independent standard normals whose square is the
// covariance.
MC_SCENARIO(normals) {
  Draws::release();
  const int n = c.range(1, mc::tiered(3, 4));
  std::string text;
  Eigen::MatrixXd cov;
  if (n == 4) { // (too many: a chain, with variables which copy others)
    cov = Eigen::MatrixXd::Identity(4, 4);
    const unsigned copy = c.choose(16);
    for (int i = 1; i < 4; ++i)
      if (copy >> i & 1) {
        cov.row(i) = cov.row(i - 1);
        cov.col(i) = cov.col(i - 1);
        cov(i, i) = cov(i - 1, i - 1);
        text += " copy";
      } else {
        text += " own";
      }
    cov *= copy & 1 ? 1e-4 : 3.;
  } else {
    cov = covariance(c, n, text);
  }
  Eigen::VectorXd mean = Eigen::VectorXd::Zero(n);
  const bool with_mean = c.flip();
  if (with_mean)
    for (int i = 0; i < n; ++i)
      mean[i] = i * 2. - 1.5;
  c << n << " variables, root" << text << (with_mean ? ", mean" : "");
  // the normals a generator yields, and what the draw makes of them
  std::vector<Eigen::VectorXd> z, y;
  const auto both = [&](unsigned seed) {
    std::default_random_engine g(seed), h(seed);
    std::normal_distribution<double> normal;
    Eigen::VectorXd v(n);
    for (int i = 0; i < n; ++i)
      v[i] = normal(g);
    z.push_back(v);
    y.push_back(with_mean ? random_multivariate_normal(mean, cov, h) : random_multivariate_normal(cov, h));
    c.check(y.back().size() == n, "normal-of-another-size", std::to_string(y.back().size()));
  };
  for (unsigned s = 0; s < static_cast<unsigned>(n) + 3; ++s)
    both(17 * s + 1);
  Mat Z(n, n), Y(n, n);
  for (int i = 0; i < n; ++i) {
    Z.col(i) = z[static_cast<std::size_t>(i)].cast<Real>();
    Y.col(i) = (y[static_cast<std::size_t>(i)] - mean).cast<Real>();
  }
  const Mat A = Z.transpose().fullPivLu().solve(Y.transpose()).transpose();
  const Mat got = A * A.transpose();
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      c.close(static_cast<double>(got(i, j)), cov(i, j), "normal-draws-have-another-covariance", "covariance " + std::to_string(i) + "," + std::to_string(j), 1e-6, 1e-7);
  for (std::size_t k = 0; k < z.size(); ++k) {
    const Eigen::Matrix<Real, Eigen::Dynamic, 1> want = A * z[k].cast<Real>();
    for (int i = 0; i < n; ++i)
      c.close(y[k][i] - mean[i], static_cast<double>(want[i]), "normal-draws-are-not-linear-in-the-normals", "variable " + std::to_string(i), 1e-6, 1e-7);
  }
  c.state(text + std::to_string(with_mean));
}

// Random covariances: symmetric, their eigenvalues are draws of the given
// distribution.
MC_SCENARIO(covariances) {
  const int n = c.range(1, mc::tiered(2, 3));
  const bool given = c.flip();
  c << n << (given ? ", eigenvalues in [1, 2]" : "");
  Draws::control(c, 3, mc::tiered(9, 11));
  std::default_random_engine gen(1);
  Eigen::MatrixXd cov;
  std::uniform_real_distribution<double> some(1., 2.);
  if (given)
    cov = random_covariance_matrix(n, some, gen);
  else
    cov = random_covariance_matrix(n, gen);
  Draws::release();
  c.check(cov.rows() == n && cov.cols() == n, "random-covariance-of-another-size", "");
  c.check((cov - cov.transpose()).cwiseAbs().maxCoeff() < 1e-12, "random-covariance-is-not-symmetric", "");
  const Eigen::VectorXd e = Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd>(cov).eigenvalues();
  std::string s;
  for (int i = 0; i < n; ++i) {
    c.check(given ? e[i] > 1. - 1e-12 && e[i] < 2. + 1e-12 : e[i] > 0., "random-covariance-is-not-positive-definite", std::to_string(e[i]));
    s += " " + std::to_string(e[i]);
  }
  c.state(std::to_string(n) + s);
}

// Larger ones, from the real generator: their size is where the orthogonal
// factor stops being a single reflection.
MC_SCENARIO(large_covariances) {
  Draws::release();
  const int n = c.range(1, mc::tiered(9, 24));
  const bool given = c.flip();
  const unsigned seed = static_cast<unsigned>(c.range(1, mc::tiered(4, 12)));
  c << n << (given ? ", eigenvalues in [1, 2]" : "") << ", seed " << seed;
  std::default_random_engine gen(seed);
  std::uniform_real_distribution<double> some(1., 2.);
  const Eigen::MatrixXd cov = given ? random_covariance_matrix(n, some, gen) : random_covariance_matrix(n, gen);
  c.check(cov.rows() == n && cov.cols() == n, "random-covariance-of-another-size", "");
  c.check((cov - cov.transpose()).cwiseAbs().maxCoeff() < 1e-12 * (1. + cov.cwiseAbs().maxCoeff()), "random-covariance-is-not-symmetric", "");
  const Eigen::VectorXd e = Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd>(cov).eigenvalues();
  std::string s;
  double spread = 0.;
  for (int i = 0; i < n; ++i) {
    c.check(given ? e[i] > 1. - 1e-11 && e[i] < 2. + 1e-11 : e[i] > 0., "random-covariance-is-not-positive-definite", std::to_string(e[i]));
    if (i)
      spread = std::max(spread, e[i] - e[i - 1]);
    s += " " + std::to_string(e[i]);
  }
  c.check(n == 1 || spread > 0., "random-covariance-has-one-eigenvalue", s);
  // Another seed is another matrix, and the same seed the same.
  std::default_random_engine same(seed), other(seed + 100);
  std::uniform_real_distribution<double> again(1., 2.), different(1., 2.);
  const auto draw = [&](std::default_random_engine &g, std::uniform_real_distribution<double> &d) { return given ? random_covariance_matrix(n, d, g) : random_covariance_matrix(n, g); };
  c.check(draw(same, again) == cov, "random-covariance-of-the-same-seed-differs", "");
  c.check((draw(other, different) - cov).norm() > 0., "random-covariance-of-another-seed-is-the-same", "");
  c.state(std::to_string(n) + s);
}

// Fills: every entry its own draw, scaled and shifted.
MC_SCENARIO(fills) {
  Draws::release();
  const int rows = c.range(0, 3), cols = c.range(0, 3);
  const double mean = c.pick<double>({0., 2.}), sd = c.pick<double>({1., 0.5});
  const unsigned seed = static_cast<unsigned>(c.range(1, 3));
  c << rows << "x" << cols << " mean " << mean << " sd " << sd;
  std::default_random_engine g(seed), h(seed);
  Eigen::MatrixXd m(rows, cols);
  gaussian_fill(m, mean, sd, g);
  std::normal_distribution<double> normal;
  std::multiset<double> want, got;
  for (int i = 0; i < rows * cols; ++i) {
    want.insert(mean + sd * normal(h));
    got.insert(m.data()[i]);
  }
  c.check(m.rows() == rows && m.cols() == cols, "filling-changes-the-size", "");
  auto w = want.begin();
  for (auto x = got.begin(); x != got.end(); ++x, ++w)
    c.close(*x, *w, "filled-entries-are-not-the-draws", "entry", 1e-12, 1e-12);
  c.state(std::to_string(rows) + std::to_string(cols) + std::to_string(seed) + std::to_string(mean) + std::to_string(sd));
}

// Sparse matrices: the requested number of different entries, all within range.
MC_SCENARIO(sparse) {
  const int rows = c.range(1, 3), cols = c.range(1, 3);
  const double fill = c.pick<double>({0., 0.25, 0.5, 1.});
  c << rows << "x" << cols << " fill " << fill;
  Draws::control(c, 3, mc::tiered(6, 8));
  std::default_random_engine gen(1);
  const Eigen::SparseMatrix<double> m = random_sparse_matrix<double>(rows, cols, fill, gen, 1., 3.);
  Draws::release();
  c.check(m.rows() == rows && m.cols() == cols, "sparse-matrix-of-another-size", "");
  c.check(m.nonZeros() == static_cast<int>(rows * cols * fill), "sparse-matrix-of-another-fill", std::to_string(m.nonZeros()));
  std::string s;
  for (int k = 0; k < m.outerSize(); ++k)
    for (Eigen::SparseMatrix<double>::InnerIterator it(m, k); it; ++it) {
      c.check(it.value() >= 1. && it.value() <= 3., "sparse-matrix-value-out-of-range", std::to_string(it.value()));
      s += " " + std::to_string(it.row()) + "," + std::to_string(it.col());
    }
  c.state(std::to_string(rows) + std::to_string(cols) + s);
}
