// C10: distributions transform as Gaussian random variables do.
#include <albatross/Common>
#include <albatross/Dataset>
#include <albatross/Indexing>
#include "mc.h"

using namespace albatross;

namespace {

using Mat = Eigen::MatrixXd;
using Vec = Eigen::VectorXd;

std::string show(const Mat &m) {
  std::ostringstream os;
  for (Eigen::Index i = 0; i < m.rows(); ++i) {
    for (Eigen::Index j = 0; j < m.cols(); ++j)
      os << m(i, j) << (j + 1 < m.cols() ? "," : "");
    os << "; ";
  }
  return os.str();
}
Mat integers(mc::Ctx &c, Eigen::Index r, Eigen::Index k, const std::vector<int> &vals) {
  Mat m(r, k);
  for (Eigen::Index i = 0; i < r; ++i)
    for (Eigen::Index j = 0; j < k; ++j)
      m(i, j) = c.pick(vals);
  return m;
}
// plain loops
Mat product(const Mat &a, const Mat &b) {
  Mat out = Mat::Zero(a.rows(), b.cols());
  for (Eigen::Index i = 0; i < a.rows(); ++i)
    for (Eigen::Index j = 0; j < b.cols(); ++j)
      for (Eigen::Index k = 0; k < a.cols(); ++k)
        out(i, j) += a(i, k) * b(k, j);
  return out;
}
Mat transpose(const Mat &a) {
  Mat out(a.cols(), a.rows());
  for (Eigen::Index i = 0; i < a.rows(); ++i)
    for (Eigen::Index j = 0; j < a.cols(); ++j)
      out(j, i) = a(i, j);
  return out;
}
bool same(const Mat &a, const Mat &b) {
  if (a.rows() != b.rows() || a.cols() != b.cols())
    return false;
  for (Eigen::Index i = 0; i < a.rows(); ++i)
    for (Eigen::Index j = 0; j < a.cols(); ++j)
      if (!mc::near(a(i, j), b(i, j), 1e-9, 1e-9))
        return false;
  return true;
}
Vec mean_of(Eigen::Index n, double s = 1.) {
  Vec m(n);
  for (Eigen::Index i = 0; i < n; ++i)
    m[i] = s * (1.5 + static_cast<double>(i * i));
  return m;
}
// Positive semi-definite with integer entries: L L' for a small lower L.
Mat covariance(mc::Ctx &c, Eigen::Index n) {
  Mat l = Mat::Zero(n, n);
  for (Eigen::Index i = 0; i < n; ++i)
    for (Eigen::Index j = 0; j <= i; ++j)
      l(i, j) = i == j ? c.pick<int>({0, 1, 3}) : c.pick<int>({-1, 2});
  return product(l, transpose(l));
}
Mat diagonal(const Vec &v) {
  Mat m = Mat::Zero(v.size(), v.size());
  for (Eigen::Index i = 0; i < v.size(); ++i)
    m(i, i) = v[i];
  return m;
}
Vec diag_of(const Mat &m) {
  Vec v(m.rows());
  for (Eigen::Index i = 0; i < m.rows(); ++i)
    v[i] = m(i, i);
  return v;
}

void expect(mc::Ctx &c, const JointDistribution &d, const Vec &mean, const Mat &cov, const char *key, const std::string &at) {
  c.step();
  c.check(same(d.mean, mean) && same(d.covariance, cov), key, at + " got " + show(d.mean) + "| " + show(d.covariance) + " expected " + show(mean) + "| " + show(cov));
}
void expect(mc::Ctx &c, const MarginalDistribution &d, const Vec &mean, const Mat &cov, const char *key, const std::string &at) {
  c.step();
  c.check(same(d.mean, mean) && same(d.covariance.diagonal(), diag_of(cov)), key,
          at + " got " + show(d.mean) + "| " + show(d.covariance.diagonal()) + " expected " + show(mean) + "| " + show(diag_of(cov)));
}

} // namespace

MC_SCENARIO(arithmetic) {
  const Eigen::Index n = c.pick({0, 1, 2, 3, 8, 9, 17, 40});
  const bool equal_means = n > 2 && c.flip();
  const Vec m1 = mean_of(n), m2 = equal_means ? m1 : mean_of(n, -0.75);
  Vec v1(n), v2(n);
  for (Eigen::Index i = 0; i < n; ++i) {
    v1[i] = n > 3 ? 0.25 * static_cast<double>((3 * i) % n) : c.pick<double>({0., 0.5, 4.});
    v2[i] = n > 3 ? static_cast<double>(i) : c.pick<double>({0., 3.});
  }
  const double s = c.pick<double>({-2., -1., 0., 0.5, 1.});
  const MarginalDistribution a(m1, v1), b(m2, v2);
  const std::string at = show(v1) + "/ " + show(v2) + std::to_string(s);
  c.state(at);
  expect(c, a + b, m1 + m2, diagonal(v1 + v2), "marginal-sum", at);
  expect(c, a - b, m1 - m2, diagonal(v1 + v2), "marginal-difference", at);
  expect(c, a * s, s * m1, diagonal(s * s * v1), "marginal-scale", at);
  Mat off = diagonal(v1);
  for (Eigen::Index i = 0; i < n; ++i)
    for (Eigen::Index j = 0; j < n; ++j)
      if (i != j)
        off(i, j) = 0.1 * static_cast<double>(i + j + 1);
  const Mat cov2 = diagonal(v2) + 0.25 * Mat::Ones(n, n);
  const JointDistribution x(m1, off), y(m2, cov2);
  expect(c, x + y, m1 + m2, off + cov2, "joint-sum", at);
  expect(c, x - y, m1 - m2, off + cov2, "joint-difference", at);
  expect(c, x + b, m1 + m2, off + diagonal(v2), "joint-plus-marginal", at);
  expect(c, x - b, m1 - m2, off + diagonal(v2), "joint-minus-marginal", at);
  expect(c, x * s, s * m1, s * s * off, "joint-scale", at);
  expect(c, x.marginal(), m1, off, "marginal-of-joint", at);
  expect(c, (x + y).marginal(), m1 + m2, diagonal(diag_of(off + cov2)), "marginal-commutes", at);
  for (Eigen::Index i = 0; i < n; ++i) {
    c.check(a.get_diagonal(i) == v1[i] && x.get_diagonal(i) == v1[i], "get-diagonal", at);
    const auto one = x[static_cast<std::size_t>(i)];
    const auto two = a[static_cast<std::size_t>(i)];
    c.check(one.size() == 1 && one.mean[0] == m1[i] && one.covariance.diagonal()[0] == v1[i] && two == one, "element", at);
  }
  // mean only; the diagonal forms
  const MarginalDistribution sure(m1), eig(m1, DiagonalMatrixXd(v1.asDiagonal())), expr(m1, v1.asDiagonal());
  expect(c, sure, m1, Mat::Zero(n, n), "certain", at);
  c.check(eig == a && expr == a, "constructors", at);
  // selecting commutes with the marginal
  std::vector<std::size_t> pick;
  if (n <= 3)
    pick = c.subset(static_cast<std::size_t>(n));
  else
    for (Eigen::Index i = n - 1, stride = c.pick({1, 3}); i >= 0; i -= stride)
      if (pick.size() < 3 || i % 2)
        pick.push_back(static_cast<std::size_t>(i));
  c.check(subset(x, pick).marginal() == subset(x.marginal(), pick), "select-marginal", at);
  // the arguments are as they were
  c.check(a == MarginalDistribution(m1, v1) && x == JointDistribution(m1, off), "arguments-changed", at);
}

// Equality distinguishes any difference and never goes wrong on sizes.
MC_SCENARIO(equality) {
  const Eigen::Index n = c.range(0, 2), k = c.range(0, 2);
  auto vec = [&](Eigen::Index size) {
    Vec v(size);
    for (Eigen::Index i = 0; i < size; ++i)
      v[i] = c.choose(2);
    return v;
  };
  const Vec m1 = vec(n), v1 = vec(n), m2 = vec(k), v2 = vec(k);
  auto eq = [](const Vec &a, const Vec &b) {
    if (a.size() != b.size())
      return false;
    for (Eigen::Index i = 0; i < a.size(); ++i)
      if (a[i] != b[i])
        return false;
    return true;
  };
  const bool want = eq(m1, m2) && eq(v1, v2);
  const std::string at = show(m1) + "| " + show(v1) + " and " + show(m2) + "| " + show(v2);
  c.state(at);
  c.check((MarginalDistribution(m1, v1) == MarginalDistribution(m2, v2)) == want, "marginal-equality", at);
  c.check((JointDistribution(m1, diagonal(v1)) == JointDistribution(m2, diagonal(v2))) == want, "joint-equality", at);
  DiagonalMatrixXd d1(v1.asDiagonal()), d2(v2.asDiagonal());
  c.check((d1 == d2) == eq(v1, v2), "diagonal-equality", at);
  if (n == 2 && k == 2) { // off the diagonal
    Mat a = diagonal(v1), b = diagonal(v2);
    a(0, 1) = a(1, 0) = c.choose(2);
    c.check((JointDistribution(m1, a) == JointDistribution(m2, b)) == (want && a(0, 1) == 0.), "joint-equality", at);
  }
  c.step(3);
}

// A x for every small matrix, dense and sparse, marginal and joint.
// A * x for every kind of matrix, as joint and as marginal.
static void maps_of(mc::Ctx &c, const Mat &a, const Vec &m, const Mat &cov, bool joint) {
  const Eigen::Index r = a.rows();
  const int form = c.choose(4);
  const std::string at = "[" + show(a) + "] on [" + show(cov) + "] form " + std::to_string(form);
  c.state(at);
  Eigen::SparseMatrix<double> sparse = a.sparseView();
  Eigen::SparseMatrix<double, Eigen::RowMajor> rows = a.sparseView();
  if (c.flip()) // explicit zeros are entries too
    for (Eigen::Index i = 0; i < r; ++i)
      sparse.coeffRef(i, 0) = a(i, 0);
  const Mat wm = product(a, m), wc = product(product(a, cov), transpose(a));
  auto both = [&](const auto &t) {
    expect(c, t.joint(), wm, wc, "transform-joint", at);
    expect(c, t.marginal(), wm, wc, "transform-marginal", at);
    const JointDistribution j = t;
    const MarginalDistribution mm = t;
    expect(c, j, wm, wc, "transform-joint", at);
    expect(c, mm, wm, wc, "transform-marginal", at);
  };
  if (joint) {
    const JointDistribution d(m, cov);
    if (form == 0)
      both(a * d);
    else if (form == 1)
      both(sparse * d);
    else if (form == 2)
      both(rows * d);
    else {
      Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> rm = a;
      both(rm * d);
    }
    c.check(d == JointDistribution(m, cov), "arguments-changed", at);
  } else {
    const MarginalDistribution d(m, diag_of(cov));
    if (form == 0)
      both(a * d);
    else if (form == 1)
      both(sparse * d);
    else if (form == 2)
      both(rows * d);
    else {
      Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> rm = a;
      both(rm * d);
    }
    c.check(d == MarginalDistribution(m, diag_of(cov)), "arguments-changed", at);
  }
}

MC_SCENARIO(linear_maps) {
  const Eigen::Index r = c.range(0, 3), n = c.range(1, 3);
  Mat a;
  if (r * n <= 4)
    a = integers(c, r, n, {-1, 0, 2});
  else
    a = integers(c, r, n, r * n <= 6 ? std::vector<int>{0, 3} : std::vector<int>{0, 1});
  if (r * n > 4 && c.flip())
    a.col(0) *= -2.5;
  const Vec m = mean_of(n);
  const bool joint = c.flip();
  Mat cov;
  if (joint) {
    if (r * n <= 4 || mc::thorough())
      cov = n <= 2 || mc::thorough() ? covariance(c, n) : [&] {
        Mat l = Mat::Zero(n, n);
        l << 1, 0, 0, -1, 0, 0, 2, 2, 3;
        return product(l, transpose(l));
      }();
    else {
      Mat l = Mat::Zero(n, n);
      for (Eigen::Index i = 0; i < n; ++i)
        for (Eigen::Index j = 0; j <= i; ++j)
          l(i, j) = static_cast<double>(i * 2 - j + 1);
      if (c.flip())
        l.row(n - 1) *= 0.; // a certain element
      cov = product(l, transpose(l));
    }
  } else {
    Vec v(n);
    for (Eigen::Index i = 0; i < n; ++i)
      v[i] = c.pick<double>({0., 0.25, 5.});
    cov = diagonal(v);
  }
  maps_of(c, a, m, cov, joint);
}

// Larger maps of regular patterns.
static Mat regular(int shape, Eigen::Index r, Eigen::Index n) {
  Mat a = Mat::Zero(r, n);
  for (Eigen::Index i = 0; i < r; ++i)
    for (Eigen::Index j = 0; j < n; ++j) {
      const double v = 1. + static_cast<double>((3 * i + 5 * j) % 4) * 0.5;
      const bool in[] = {true, i == j, j == (i * 3 + 1) % n, j >= i, j == i || j == i + 1, i % 3 != 1 && (i + j) % 2 == 0, j == n - 1 || i == r - 1};
      if (in[shape])
        a(i, j) = (i + j) % 3 == 2 ? -v : v;
    }
  return a;
}
static Mat regular_covariance(int kind, Eigen::Index n) {
  Mat l = Mat::Zero(n, n);
  for (Eigen::Index i = 0; i < n; ++i)
    for (Eigen::Index j = 0; j <= i; ++j)
      l(i, j) = i == j ? 1. + static_cast<double>(i % 3) : kind == 0 ? 0.25 * static_cast<double>((i + 2 * j) % 3 - 1) : i - j == 1 ? -0.5 : 0.;
  if (kind == 2)
    for (Eigen::Index i = 0; i < n; i += 3)
      l.row(i).setZero(); // some certain elements
  return product(l, transpose(l));
}
MC_SCENARIO(large_linear_maps) {
  const Eigen::Index n = c.pick({4, 7, 8, 9, 17, 33}), r = c.pick({1, 4, 8, 17});
  const Mat a = regular(c.choose(7), r, n);
  const bool joint = c.flip();
  const int kind = c.choose(joint ? 3 : 2);
  Mat cov = regular_covariance(kind, n);
  if (!joint) {
    cov = diagonal(diag_of(cov));
    if (kind == 1)
      cov(n / 2, n / 2) = 0.;
  }
  maps_of(c, a, mean_of(n), cov, joint);
}


// The same maps in any unit: scaled by powers of two, and for marginals with
// variances of very different sizes side by side.
MC_SCENARIO(linear_maps_at_any_scale) {
  const Eigen::Index n = c.pick({2, 3, 9}), r = c.pick({1, 3, 8});
  const Mat a = regular(c.choose(7), r, n);
  const bool joint = c.flip();
  const double map_scale = std::ldexp(1., c.pick({0, -30, 30})), scale = std::ldexp(1., c.pick({-160, -60, -24, 24, 60, 160}));
  const int kind = c.choose(joint ? 2 : 3), form = c.choose(3);
  Mat cov = regular_covariance(kind % 2, n);
  if (!joint)
    cov = diagonal(diag_of(cov));
  // one variance scaled and the others as they are
  Mat unscaled = scale * cov;
  if (kind == 2) {
    unscaled = cov;
    unscaled(n / 2, n / 2) *= scale;
  }
  const Vec m = std::sqrt(scale) * mean_of(n);
  const Mat ma = map_scale * a;
  const Mat wm = product(ma, m), wc = product(product(ma, unscaled), transpose(ma));
  const std::string at = "[" + show(ma) + "] on [" + show(unscaled) + "] form " + std::to_string(form);
  c.state(at);
  const Eigen::SparseMatrix<double> sparse = ma.sparseView(0., 1.);
  auto both = [&](const auto &t) {
    const JointDistribution j = t.joint();
    const MarginalDistribution g = t.marginal();
    c.step(2);
    bool ok_mean = j.mean.size() == r && g.mean.size() == r, ok = j.covariance.rows() == r && j.covariance.cols() == r && g.covariance.diagonal().size() == r;
    for (Eigen::Index i = 0; ok && ok_mean && i < r; ++i) {
      double size = 0.;
      for (Eigen::Index k = 0; k < n; ++k)
        size += std::fabs(ma(i, k) * m[k]);
      ok_mean &= std::fabs(j.mean[i] - wm(i, 0)) <= 1e-12 * size && std::fabs(g.mean[i] - wm(i, 0)) <= 1e-12 * size;
      // every entry against the size of the terms which make it up
      auto close = [&](double got, Eigen::Index p, Eigen::Index q) {
        double bound = 0.;
        for (Eigen::Index k = 0; k < n; ++k)
          for (Eigen::Index l = 0; l < n; ++l)
            bound += std::fabs(ma(p, k)) * std::sqrt(unscaled(k, k) * unscaled(l, l)) * std::fabs(ma(q, l));
        return std::fabs(got - wc(p, q)) <= 1e-11 * bound;
      };
      ok &= close(g.covariance.diagonal()[i], i, i);
      for (Eigen::Index k = 0; k < r; ++k)
        ok &= close(j.covariance(i, k), i, k);
    }
    c.check(ok_mean && ok, "transform-scale", at + " got " + show(j.mean) + "| " + show(j.covariance) + "| " + show(g.covariance.diagonal()));
  };
  auto all = [&](const auto &d) {
    if (form == 0)
      both(ma * d);
    else if (form == 1)
      both(sparse * d);
    else
      both(Eigen::SparseMatrix<double, Eigen::RowMajor>(sparse) * d);
  };
  if (joint)
    all(JointDistribution(m, unscaled));
  else
    all(MarginalDistribution(m, diag_of(unscaled)));
}


// A * dataset: features become the matching combinations, targets transform.
namespace {
using Coef = std::map<int, double>;
template <typename L> Coef coefficients(const L &l) {
  Coef out;
  for (std::size_t i = 0; i < l.values.size(); ++i)
    out[l.values[i]] += l.coefficients[static_cast<Eigen::Index>(i)];
  for (auto it = out.begin(); it != out.end();)
    it = it->second == 0. ? out.erase(it) : std::next(it);
  return out;
}
} // namespace
static void datasets_of(mc::Ctx &c, const Mat &a) {
  const Eigen::Index r = a.rows(), n = a.cols();
  std::vector<int> f;
  for (Eigen::Index i = 0; i < n; ++i)
    f.push_back(static_cast<int>(40 + i));
  Vec v(n);
  for (Eigen::Index i = 0; i < n; ++i)
    v[i] = static_cast<double>(i) * 1.5;
  const RegressionDataset<int> data(f, MarginalDistribution(mean_of(n), v));
  const int form = c.choose(3);
  const std::string at = "[" + show(a) + "] form " + std::to_string(form);
  c.state("ds" + at);
  const Eigen::SparseMatrix<double> sparse = a.sparseView();
  const Eigen::SparseMatrix<double, Eigen::RowMajor> rows = a.sparseView();
  const auto got = form == 0 ? a * data : form == 1 ? sparse * data : rows * data;
  const auto only = form == 0 ? a * f : form == 1 ? sparse * f : rows * f;
  auto good = [&](const std::vector<LinearCombination<int>> &fs) {
    bool ok = fs.size() == static_cast<std::size_t>(r);
    for (Eigen::Index i = 0; ok && i < r; ++i) {
      Coef want;
      for (Eigen::Index j = 0; j < n; ++j)
        if (a(i, j) != 0.)
          want[f[static_cast<std::size_t>(j)]] = a(i, j);
      const auto &l = fs[static_cast<std::size_t>(i)];
      ok &= l.values.size() == static_cast<std::size_t>(l.coefficients.size()) && coefficients(l) == want;
    }
    return ok;
  };
  c.check(good(got.features), "dataset-features", at);
  c.check(good(only), "feature-combinations", at);
  const Mat wm = product(a, data.targets.mean), wc = product(product(a, diagonal(v)), transpose(a));
  expect(c, got.targets, wm, wc, "dataset-targets", at);
  // combinations of combinations
  const Eigen::Index q = c.range(1, 2);
  Mat b(q, r);
  for (Eigen::Index i = 0; i < q; ++i)
    for (Eigen::Index j = 0; j < r; ++j)
      b(i, j) = i == 0 ? static_cast<double>(j) - 1. : (j == 0 ? 0. : 2.);
  const Mat ba = product(b, a);
  const Eigen::SparseMatrix<double> bs = b.sparseView();
  const auto twice = c.flip() ? bs * got.features : b * got.features;
  bool ok = twice.size() == static_cast<std::size_t>(q);
  for (Eigen::Index i = 0; ok && i < q; ++i) {
    Coef want;
    for (Eigen::Index j = 0; j < n; ++j)
      if (ba(i, j) != 0.)
        want[f[static_cast<std::size_t>(j)]] = ba(i, j);
    // through the two levels
    Coef have;
    for (std::size_t k = 0; k < twice[static_cast<std::size_t>(i)].values.size(); ++k)
      have[twice[static_cast<std::size_t>(i)].values[k]] += twice[static_cast<std::size_t>(i)].coefficients[static_cast<Eigen::Index>(k)];
    for (auto it = have.begin(); it != have.end();)
      it = it->second == 0. ? have.erase(it) : std::next(it);
    ok &= have == want;
  }
  c.check(ok, "combinations-of-combinations", at + " then [" + show(b) + "]");
  c.step(3);
}
MC_SCENARIO(datasets) {
  const Eigen::Index r = c.range(0, 3), n = c.range(1, 3);
  datasets_of(c, integers(c, r, n, r * n <= 6 ? std::vector<int>{-1, 0, 2} : std::vector<int>{0, 3}));
}
MC_SCENARIO(large_datasets) {
  const Eigen::Index n = c.pick({4, 8, 9, 17, 33}), r = c.pick({1, 4, 9, 17});
  Mat a = regular(c.choose(7), r, n);
  a.col(n / 2) *= c.pick<double>({1., 0x1p-60}); // small entries are entries too
  datasets_of(c, a);
}

MC_SCENARIO(linear_combination_helpers) {
  const int x = c.choose(3), y = c.choose(3);
  const auto s = linear_combination::sum(x, y);
  const auto d = linear_combination::difference(x, y);
  const double yd = y + 0.5;
  const auto mixed_s = linear_combination::sum(x, yd);
  const auto mixed_d = linear_combination::difference(x, yd);
  std::vector<int> xs;
  const int n = c.range(1, 4);
  for (int i = 0; i < n; ++i)
    xs.push_back(i * 7);
  const auto m = linear_combination::mean(xs);
  c.state(std::to_string(x) + std::to_string(y) + std::to_string(n));
  c.check(s.values == std::vector<int>{x, y} && s.coefficients == Eigen::Vector2d(1, 1), "combination-sum");
  c.check(d.values == std::vector<int>{x, y} && d.coefficients == Eigen::Vector2d(1, -1), "combination-difference");
  bool ok = mixed_s.values.size() == 2 && mixed_d.values.size() == 2;
  ok = ok && mixed_s.values[0].is<int>() && mixed_s.values[0].get<int>() == x && mixed_s.values[1].is<double>() && mixed_s.values[1].get<double>() == yd &&
       mixed_d.values[0].is<int>() && mixed_d.values[0].get<int>() == x && mixed_d.values[1].is<double>() && mixed_d.values[1].get<double>() == yd &&
       mixed_s.coefficients == Eigen::Vector2d(1, 1) && mixed_d.coefficients == Eigen::Vector2d(1, -1);
  c.check(ok, "combination-mixed");
  ok = m.values == xs && m.coefficients.size() == n;
  for (int i = 0; ok && i < n; ++i)
    ok &= mc::near(m.coefficients[i], 1. / n);
  c.check(ok, "combination-mean");
  const auto one = linear_combination::to_linear_combination(x);
  c.check(one.values == std::vector<int>{x} && one.coefficients.size() == 1 && one.coefficients[0] == 1., "to-combination");
  c.check(linear_combination::to_linear_combination(d) == d, "to-combination");
  c.check(LinearCombination<int>(xs).coefficients == Vec(Vec::Ones(n)), "combination-default");
  c.step(8);
}

// Printing goes to the stream that was given.
MC_SCENARIO(printing) {
  const Eigen::Index n = c.range(1, 3);
  const int what = c.choose(3);
  c.state("print" + std::to_string(n) + "," + std::to_string(what));
  std::ostringstream os, stray;
  auto *saved = std::cout.rdbuf(stray.rdbuf());
  if (what == 0)
    os << MarginalDistribution(mean_of(n), Vec(Vec::Ones(n)));
  else if (what == 1)
    os << JointDistribution(mean_of(n), Mat::Identity(n, n));
  else
    os << RegressionDataset<int>(std::vector<int>(static_cast<std::size_t>(n), 3), MarginalDistribution(mean_of(n), Vec(Vec::Ones(n))));
  std::cout.rdbuf(saved);
  c.check(stray.str().empty(), "printed-elsewhere", "form " + std::to_string(what));
  c.check(os.str().find("1.5") != std::string::npos, "not-printed", "form " + std::to_string(what));
}

// Concatenating marginals is in C07; approximate equality here.
MC_SCENARIO(approximately_equal) {
  const Eigen::Index n = c.range(1, 3);
  const double by = c.pick<double>({0., 1e-9, 1e-5, 0.1});
  const int where = c.choose(2);
  const Eigen::Index at = c.choose(static_cast<int>(n));
  Vec m = mean_of(n), v = mean_of(n, 2.);
  const MarginalDistribution a(m, v);
  const JointDistribution x(m, diagonal(v));
  (where ? m : v)[at] *= 1. + by;
  c.state("approx");
  const double eps = 1e-3;
  c.check(a.approximately_equal(MarginalDistribution(m, v), eps) == (by < 1e-2), "approximately-equal-marginal", std::to_string(by));
  c.check(x.approximately_equal(JointDistribution(m, diagonal(v)), eps) == (by < 1e-2), "approximately-equal-joint", std::to_string(by));
  for (Eigen::Index i = 0; i < n; ++i)
    for (Eigen::Index j = 0; j < i; ++j) {
      Mat other = diagonal(mean_of(n, 2.));
      other(i, j) = other(j, i) = by;
      c.check(x.approximately_equal(JointDistribution(mean_of(n), other), eps) == (by < 1e-2), "approximately-equal-joint", "next to the diagonal " + std::to_string(by));
    }
}

// Distributions of different sizes are not even approximately equal.
MC_SCENARIO(approximately_equal_sizes) {
  const Eigen::Index n = c.range(0, 4), k = c.range(0, 4);
  const double scale = c.pick<double>({0., 1., 1e-9});
  c << n << " and " << k << " scale " << scale;
  c.state(std::to_string(n) + " " + std::to_string(k) + " " + std::to_string(scale));
  const Vec m = scale * mean_of(n), v = scale * mean_of(n, 2.);
  const Vec p = scale * mean_of(k), q = scale * mean_of(k, 2.);
  c.check(MarginalDistribution(m, v).approximately_equal(MarginalDistribution(p, q)) == (n == k), "approximately-equal-marginal", "different sizes");
  c.check(JointDistribution(m, diagonal(v)).approximately_equal(JointDistribution(p, diagonal(q))) == (n == k), "approximately-equal-joint", "different sizes");
}
