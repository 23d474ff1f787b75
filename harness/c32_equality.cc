// C32: two values are equal exactly when everything they hold agrees, and a
// copy is a value of its own.
#include <albatross/GP>
#include <albatross/LeastSquares>
#include <albatross/NullModel>
#include <albatross/Ransac>
#include <albatross/SparseGP>
#include <albatross/Graph>
#include <albatross/Indexing>

#include "mc.h"

using namespace albatross;

namespace {

// A value is built from a list of digits, one per part of it.  The digits are
// the oracle: the values are equal exactly when the (relevant) digits are.
using Digits = std::vector<int>;

Digits choose(mc::Ctx &c, const std::vector<int> &arities) {
  Digits d;
  for (const int n : arities)
    d.push_back(c.choose(n));
  return d;
}

std::string show(const Digits &d) {
  std::string s;
  for (const int x : d)
    s += std::to_string(x);
  return s;
}

template <typename Build, typename Canonical>
void compare(mc::Ctx &c, const std::vector<int> &arities, const Build &build, const Canonical &canonical) {
  const Digits p = choose(c, arities), q = choose(c, arities);
  const std::string what = show(p) + " and " + show(q);
  c << what;
  c.state(what);
  c.step(6);
  const bool same = canonical(p) == canonical(q);
  auto a = build(p);
  const auto b = build(q);
  c.check((a == b) == same, same ? "equal-values-differ" : "different-values-are-equal", what);
  c.check((b == a) == same, "not-symmetric", what);
  c.check(a == a, "not-reflexive", what);
  // a copy is equal and assigning makes equal
  const auto copy = a;
  c.check(copy == a && a == copy, "copy-differs", what);
  auto over = b;
  over = a;
  c.check(over == a, "assigned-value-differs", what);
  auto from = build(p);
  const auto moved(std::move(from));
  c.check(moved == a, "moved-value-differs", what);
  // what happens to one of them doesn't happen to the other
  a = b;
  c.check(a == b, "assigned-value-differs", what);
  c.check(copy == build(p) && over == build(p), "copy-is-not-independent", what);
}

template <typename Build> void compare(mc::Ctx &c, const std::vector<int> &arities, const Build &build) {
  compare(c, arities, build, [](const Digits &d) { return d; });
}

// Values of which zero is a different one from minus it's neighbours in float.
double number(int i) {
  static const double v[] = {0., 1., -1., 1. + 2.220446049250313e-16, 1e-300};
  return v[i];
}

Eigen::VectorXd vector(const Digits &d, std::size_t from, int n) {
  Eigen::VectorXd v(n);
  for (int i = 0; i < n; ++i)
    v[i] = number(d[from + static_cast<std::size_t>(i)]);
  return v;
}

// Digits which are beyond the size of the value don't count.
Digits cut(Digits d, std::size_t first, int used, int of, std::size_t stride = 1) {
  for (std::size_t i = static_cast<std::size_t>(used) * stride; i < static_cast<std::size_t>(of) * stride; ++i)
    d[first + i] = 0;
  return d;
}

Eigen::MatrixXd positive(int kind, int n) {
  Eigen::MatrixXd m = Eigen::MatrixXd::Identity(n, n) * 3.;
  for (int i = 0; i < n; ++i)
    m(i, i) += i;
  switch (kind) {
  case 1: // the last entry
    m(n - 1, n - 1) += 1e-12;
    break;
  case 2: // the first
    m(0, 0) += 8.;
    break;
  case 3: // off of the diagonal
    if (n > 1)
      m(0, n - 1) = m(n - 1, 0) = 0.5;
    break;
  case 4: // the same diagonal of the factor, in another order
    m.diagonal() = m.diagonal().reverse().eval();
    break;
  case 5: // the same with another sign
    if (n > 1)
      m(0, n - 1) = m(n - 1, 0) = -0.5;
    break;
  default:
    break;
  }
  return m;
}

// matrices of one size which coincide share a digit
int canonical_kind(int kind, int n) { return n == 1 && kind >= 3 ? 0 : kind; }

} // namespace

MC_SCENARIO(edges) {
  compare(c, {3, 3, 4}, [](const Digits &d) { return Edge<int>(d[0], d[1], number(d[2])); });
}

// The order of edges is a strict one which agrees with their equality.
MC_SCENARIO(edge_order) {
  const Digits p = choose(c, {3, 3, 4}), q = choose(c, {3, 3, 4});
  const auto edge = [](const Digits &d) { return Edge<int>(d[0], d[1], number(d[2])); };
  const std::string what = show(p) + " and " + show(q);
  c << what;
  c.state(what);
  c.step(3);
  const auto a = edge(p), b = edge(q);
  const bool less = a.cost != b.cost ? a.cost < b.cost : a.a != b.a ? a.a < b.a : a.b < b.b;
  c.check((a < b) == less, "edge-order", what);
  c.check((a < b) + (b < a) + (a == b) == 1, "order-and-equality-disagree", what);
}

MC_SCENARIO(diagonal_matrices) {
  compare(
      c, {4, 3, 3, 3}, [](const Digits &d) { return DiagonalMatrixXd(vector(d, 1, d[0]).asDiagonal()); },
      [](const Digits &d) { return cut(d, 1, d[0], 3); });
}

MC_SCENARIO(marginal_distributions) {
  compare(
      c, {3, 3, 3, 2, 2}, [](const Digits &d) { return MarginalDistribution(vector(d, 1, d[0]), vector(d, 3, d[0]).asDiagonal()); },
      [](const Digits &d) { return cut(cut(d, 1, d[0], 2), 3, d[0], 2); });
}

MC_SCENARIO(joint_distributions) {
  compare(
      c, {3, 2, 2, 2, 2, 2},
      [](const Digits &d) {
        Eigen::MatrixXd m(d[0], d[0]);
        for (int i = 0; i < d[0]; ++i)
          for (int j = 0; j <= i; ++j)
            m(i, j) = m(j, i) = number(d[static_cast<std::size_t>(3 + i + j)]);
        return JointDistribution(vector(d, 1, d[0]), m);
      },
      [](const Digits &d) { return cut(cut(d, 1, d[0], 2), 3, d[0] * 2 - (d[0] > 0), 3); });
}

// An entry anywhere in a larger one.
MC_SCENARIO(large_distributions) {
  const int n = 17;
  const int where = c.choose(n), across = c.choose(n), part = c.choose(3), sign = c.flip() ? 1 : -1;
  c << where << " " << across << " " << part;
  c.state(std::to_string(where) + " " + std::to_string(across) + " " + std::to_string(part) + std::to_string(sign));
  c.step(4);
  Eigen::VectorXd mean = Eigen::VectorXd::LinSpaced(n, -1., 1.);
  Eigen::MatrixXd cov = positive(3, n);
  const JointDistribution a(mean, cov);
  const MarginalDistribution x(mean, cov.diagonal().asDiagonal());
  const RegressionDataset<int> data(std::vector<int>(static_cast<std::size_t>(n), 3), x);
  if (part == 0)
    mean[where] += sign * 1e-9;
  else if (part == 1)
    cov(where, where) += sign * 1e-9;
  else
    cov(where, across) = cov(across, where) = cov(where, across) + sign * 1e-9;
  const JointDistribution b(mean, cov);
  const MarginalDistribution y(mean, cov.diagonal().asDiagonal());
  c.check(!(a == b) && !(b == a), "different-values-are-equal", "joint distributions");
  const bool same = part == 2 && where != across;
  c.check((x == y) == same && (y == x) == same, "different-values-are-equal", "marginal distributions");
  const RegressionDataset<int> other(data.features, y);
  c.check((data == other) == same && (other == data) == same, "different-values-are-equal", "datasets");
  auto features = data.features;
  features[static_cast<std::size_t>(where)] += sign;
  c.check(!(data == RegressionDataset<int>(features, x)), "different-values-are-equal", "features");
}

MC_SCENARIO(datasets) {
  // size, features, means, variances, metadata: none, one of two keys or
  // both, of two values
  compare(
      c, {3, 2, 2, 2, 2, 2, 5},
      [](const Digits &d) {
        RegressionDataset<int> out(std::vector<int>(d.begin() + 1, d.begin() + 1 + d[0]), MarginalDistribution(vector(d, 3, d[0]), Eigen::VectorXd::Constant(d[0], number(d[5])).asDiagonal()));
        if (d[6] == 1 || d[6] == 4)
          out.metadata["a"] = "x";
        if (d[6] == 2)
          out.metadata["a"] = "y";
        if (d[6] >= 3)
          out.metadata["b"] = "x";
        return out;
      },
      [](const Digits &d) { return cut(cut(cut(d, 1, d[0], 2), 3, d[0], 2), 5, d[0] > 0, 1); });
}

MC_SCENARIO(linear_combinations) {
  compare(
      c, {4, 2, 2, 2, 2, 2, 2},
      [](const Digits &d) { return LinearCombination<int>(std::vector<int>(d.begin() + 1, d.begin() + 1 + d[0]), vector(d, 4, d[0])); },
      [](const Digits &d) { return cut(cut(d, 1, d[0], 3), 4, d[0], 3); });
}

MC_SCENARIO(groups) {
  // each of three keys absent or with one of two values
  compare(c, {3, 3, 3}, [](const Digits &d) {
    Grouped<int, double> out;
    for (int i = 0; i < 3; ++i)
      if (d[static_cast<std::size_t>(i)])
        out[i] = number(d[static_cast<std::size_t>(i)]);
    return out;
  });
}

MC_SCENARIO(groups_of_data) {
  compare(c, {4, 4}, [](const Digits &d) {
    Grouped<std::string, RegressionDataset<int>> out;
    for (int i = 0; i < 2; ++i) {
      const int x = d[static_cast<std::size_t>(i)];
      if (x)
        out[i ? "a" : ""] = RegressionDataset<int>({x / 2}, Eigen::VectorXd::Constant(1, number(x % 2)));
    }
    return out;
  });
}

namespace {
PriorContainer prior(int i) {
  switch (i) {
  case 0:
    return UninformativePrior();
  case 1:
    return FixedPrior();
  case 2:
    return NonNegativePrior();
  case 3:
    return PositivePrior();
  case 4:
    return UniformPrior(1., 2.);
  case 5:
    return UniformPrior(1., 3.);
  case 6:
    return UniformPrior(0.5, 2.);
  case 7:
    return LogScaleUniformPrior(1., 2.);
  case 8:
    return LogScaleUniformPrior(1., 3.);
  case 9:
    return LogScaleUniformPrior(0.5, 2.);
  case 10:
    return GaussianPrior(1., 2.);
  case 11:
    return GaussianPrior(1., 3.);
  case 12:
    return GaussianPrior(0.5, 2.);
  case 13:
    return LogNormalPrior(1., 2.);
  case 14:
    return LogNormalPrior(1., 3.);
  case 15:
    return LogNormalPrior(0.5, 2.);
  case 16:
    return PositiveGaussianPrior(1., 2.);
  case 17:
    return PositiveGaussianPrior(1., 3.);
  default:
    return PositiveGaussianPrior(0.5, 2.);
  }
}
} // namespace

MC_SCENARIO(priors) {
  compare(c, {19}, [](const Digits &d) { return prior(d[0]); });
}

MC_SCENARIO(parameters) {
  compare(c, {5, 19}, [](const Digits &d) { return Parameter(number(d[0]), prior(d[1])); });
}

MC_SCENARIO(parameter_stores) {
  // two names: absent, or one of two values with one of two priors
  compare(c, {5, 5, 2}, [](const Digits &d) {
    ParameterStore out;
    for (int i = 0; i < 2; ++i) {
      const int x = d[static_cast<std::size_t>(i)];
      if (x)
        out[i ? "b" : "a"] = Parameter(number((x - 1) / 2), prior(x % 2));
    }
    if (d[2])
      out["c"] = Parameter(0., prior(0));
    return out;
  });
}

MC_SCENARIO(factorizations) {
  // none, or one of a size and a matrix
  compare(
      c, {5, 6},
      [](const Digits &d) {
        if (d[0] == 0)
          return Eigen::SerializableLDLT();
        return Eigen::SerializableLDLT(positive(d[1], d[0]));
      },
      [](Digits d) {
        d[1] = d[0] == 0 ? 0 : canonical_kind(d[1], d[0]);
        return d;
      });
}

// One entry, anywhere in it.
MC_SCENARIO(large_factorizations) {
  const int n = c.pick<int>({2, 5, 9});
  const int i = c.choose(n), j = c.choose(n);
  c << n << " " << i << " " << j;
  c.state(std::to_string(n) + " " + std::to_string(i) + " " + std::to_string(j));
  c.step(2);
  Eigen::MatrixXd m = positive(3, n);
  const Eigen::SerializableLDLT a(m), same(m);
  m(i, j) += 0.25;
  if (i != j)
    m(j, i) += 0.25;
  const Eigen::SerializableLDLT b(m);
  c.check(!(a == b) && !(b == a), "different-values-are-equal", "factorizations");
  c.check(a == same, "equal-values-differ", "factorizations");
  const ExplainedCovariance e(a, Eigen::MatrixXd::Identity(n, n)), f(b, Eigen::MatrixXd::Identity(n, n)), g(a, m);
  c.check(!(e == f) && !(e == g), "different-values-are-equal", "explained covariances");
}

namespace {
BlockSymmetric<Eigen::SerializableLDLT> block_symmetric(const Digits &d) {
  // A: size and matrix, B: columns and matrix, S
  const int n = d[0] + 1, k = d[2] + 1;
  Eigen::MatrixXd b = Eigen::MatrixXd::Constant(n, k, 0.25);
  if (d[3])
    b(n - 1, k - 1) = 0.125;
  return BlockSymmetric<Eigen::SerializableLDLT>(Eigen::SerializableLDLT(positive(d[1], n)), b, Eigen::SerializableLDLT(positive(d[4], k)));
}
} // namespace

MC_SCENARIO(block_symmetric_matrices) { compare(c, {2, 3, 2, 2, 3}, block_symmetric); }

MC_SCENARIO(explained_covariances) {
  compare(
      c, {3, 6, 6},
      [](const Digits &d) {
        if (d[0] == 0)
          return ExplainedCovariance();
        return ExplainedCovariance(positive(d[1], d[0]), positive(d[2], d[0]));
      },
      [](Digits d) {
        d[1] = d[0] == 0 ? 0 : canonical_kind(d[1], d[0]);
        d[2] = d[0] == 0 ? 0 : canonical_kind(d[2], d[0]);
        return d;
      });
}

MC_SCENARIO(direct_inverses) {
  compare(
      c, {4, 6},
      [](const Digits &d) {
        if (d[0] == 0)
          return DirectInverse();
        return DirectInverse(positive(d[1], d[0]));
      },
      [](Digits d) {
        d[1] = d[0] == 0 ? 0 : canonical_kind(d[1], d[0]);
        return d;
      });
}

namespace {
template <typename Representation> Fit<GPFit<Representation, int>> gp_fit(const Digits &d, const Representation &covariance) {
  const std::size_t n = static_cast<std::size_t>(d[0]) + 1;
  return Fit<GPFit<Representation, int>>(std::vector<int>(d.begin() + 1, d.begin() + 1 + static_cast<long>(n)), covariance, vector(d, 3, static_cast<int>(n)));
}
} // namespace

MC_SCENARIO(gaussian_process_fits) {
  compare(
      c, {2, 2, 2, 2, 2, 4}, [](const Digits &d) { return gp_fit(d, Eigen::SerializableLDLT(positive(d[5], d[0] + 1))); },
      [](Digits d) {
        d[5] = canonical_kind(d[5], d[0] + 1);
        return cut(cut(d, 1, d[0] + 1, 2), 3, d[0] + 1, 2);
      });
}

MC_SCENARIO(updated_gaussian_process_fits) {
  compare(c, {2, 2, 2, 2}, [](const Digits &d) {
    const auto covariance = block_symmetric({0, d[0], 0, d[1], d[2]});
    return gp_fit({1, d[3], 1, 1, d[3]}, covariance);
  });
}

MC_SCENARIO(sparse_gaussian_process_fits) {
  // number of inducing points, feature, covariance, R, permutation,
  // information, rank
  compare(
      c, {3, 2, 3, 3, 2, 2, 2},
      [](const Digits &d) {
        const int n = d[0] + 1;
        Eigen::PermutationMatrixX p(n);
        p.setIdentity();
        if (d[4])
          p.applyTranspositionOnTheRight(0, n - 1);
        Eigen::MatrixXd r = positive(d[3], n).triangularView<Eigen::Upper>();
        Eigen::VectorXd information = Eigen::VectorXd::Ones(n);
        information[n - 1] = number(d[5]);
        std::vector<int> features(static_cast<std::size_t>(n), 5);
        features.back() = d[1];
        return Fit<SparseGPFit<int>>(features, Eigen::SerializableLDLT(positive(d[2], n)), r, p, information, n - d[6]);
      },
      [](Digits d) {
        if (d[0] == 0)
          d[4] = 0;
        return d;
      });
}

MC_SCENARIO(least_squares_fits) {
  compare(
      c, {4, 3, 3, 3},
      [](const Digits &d) {
        Fit<LeastSquares<LinearRegression>> out;
        out.coefs = vector(d, 1, d[0]);
        return out;
      },
      [](const Digits &d) { return cut(d, 1, d[0], 3); });
}

namespace {
RansacIteration<int> iteration(const Digits &d, std::size_t at) {
  RansacIteration<int> out;
  for (int i = 0; i < d[at]; ++i)
    out.candidates.push_back(i);
  if (d[at + 1])
    out.inliers[0] = number(d[at + 1]);
  if (d[at + 2])
    out.outliers[0] = number(d[at + 2]);
  if (d[at + 3])
    out.consensus_metric_value = number(d[at + 3]);
  return out;
}
} // namespace

MC_SCENARIO(ransac_iterations) {
  compare(c, {3, 3, 3, 4}, [](const Digits &d) { return iteration(d, 0); });
}

namespace {
RansacOutput<int> ransac_output(const Digits &d) {
  // return code, best, iterations
  RansacOutput<int> out;
  static const ransac_return_code_t codes[] = {RANSAC_RETURN_CODE_INVALID, RANSAC_RETURN_CODE_SUCCESS, RANSAC_RETURN_CODE_NO_CONSENSUS, RANSAC_RETURN_CODE_FAILURE};
  out.return_code = codes[d[0]];
  out.best = iteration({d[1] == 1, d[1] == 2, d[1] == 3, d[1] == 4}, 0);
  for (std::size_t i = 2; i < 4; ++i)
    if (d[i])
      out.iterations.push_back(iteration({d[i] == 1, 0, d[i] == 2, 0}, 0));
  return out;
}
// no first iteration and a second is the same as a first one only
Digits order_iterations(Digits d) {
  if (d[2] == 0)
    std::swap(d[2], d[3]);
  return d;
}
} // namespace

MC_SCENARIO(ransac_outputs) { compare(c, {4, 5, 3, 3}, ransac_output, order_iterations); }

namespace {
using Squared = SquaredExponential<EuclideanDistance>;
using Process = GaussianProcessRegression<Squared>;

template <typename M> M named(M m, const Digits &d) {
  // value, prior and insights
  m.set_param_value("squared_exponential_length_scale", d[0] ? 2. : 1.);
  m.set_prior("sigma_squared_exponential", prior(d[1]));
  if (d[2])
    m.insights["a"] = d[2] == 1 ? "x" : "y";
  return m;
}
} // namespace

MC_SCENARIO(models) {
  compare(c, {2, 3, 3, 2}, [](const Digits &d) { return named(gp_from_covariance(Squared(), d[3] ? "one" : "two"), d); });
}

MC_SCENARIO(sparse_models) {
  compare(c, {2, 3, 3, 2, 2}, [](const Digits &d) {
    auto m = named(sparse_gp_from_covariance(Squared(), LeaveOneOutGrouper(), UniformlySpacedInducingPoints(3), d[3] ? "one" : "two"), d);
    m.set_param_value("inducing_nugget", d[4] ? 1e-3 : 1e-4);
    return m;
  });
}

MC_SCENARIO(fitted_models) {
  // the model, its features, targets and the noise of them
  compare(c, {2, 2, 2, 2, 2, 2, 2}, [](const Digits &d) {
    const auto m = named(gp_from_covariance(Squared(), d[3] ? "one" : "two"), d);
    const RegressionDataset<double> data({0., d[4] ? 0.5 : 0.75}, MarginalDistribution(Eigen::Vector2d(1., d[5] ? 2. : 3.), Eigen::Vector2d(0.25, d[6] ? 0.5 : 1.).asDiagonal()));
    return m.fit(data);
  });
}

MC_SCENARIO(fitted_regressions) {
  compare(c, {3, 3, 2}, [](const Digits &d) {
    LinearRegression m;
    if (d[2])
      m.insights["a"] = "x";
    const RegressionDataset<double> data({0., 1.}, Eigen::Vector2d(number(d[0]), number(d[1])));
    return m.fit(data);
  });
}

MC_SCENARIO(fitted_null_models) {
  compare(
      c, {2, 2}, [](const Digits &d) {
        NullModel m;
        if (d[0])
          m.insights["a"] = "x";
        return m.fit(RegressionDataset<double>({0.}, Eigen::VectorXd::Constant(1, number(d[1]))));
      },
      [](Digits d) {
        d[1] = 0; // which learns nothing
        return d;
      });
}

namespace {
using Regression = LinearRegression;
struct Strategy {};
using RansacRegression = Fit<RansacFit<Regression, Strategy, double, int>>;
} // namespace

MC_SCENARIO(ransac_fits) {
  // with a fit or none, the fit, the output
  compare(
      c, {3, 2, 4, 2, 2, 1},
      [](const Digits &d) {
        const auto output = ransac_output({d[2], d[3], d[4], d[5]});
        if (d[0] == 0)
          return RansacRegression(output);
        const RegressionDataset<double> data({0., 1.}, Eigen::Vector2d(number(d[0]), number(d[1])));
        return RansacRegression(Regression().fit(data), output);
      },
      [](Digits d) {
        if (d[0] == 0)
          d[1] = 0;
        return d;
      });
}

// Changing, fitting or updating a copy leaves what it was copied from alone.
MC_SCENARIO(copies_are_independent) {
  const int action = c.choose(6);
  const bool sparse = c.flip(), assigned = c.flip();
  c << action << (sparse ? " sparse" : " dense") << (assigned ? " assigned" : " copied");
  c.state(std::to_string(action) + std::to_string(sparse) + std::to_string(assigned));
  c.step(3);
  const RegressionDataset<double> data({0., 0.5, 2.}, MarginalDistribution(Eigen::Vector3d(1., 2., -1.), Eigen::Vector3d(0.25, 0.5, 1.).asDiagonal()));
  const RegressionDataset<double> more({1., 3.}, MarginalDistribution(Eigen::Vector2d(1., 2.), Eigen::Vector2d(0.25, 0.5).asDiagonal()));
  const std::vector<double> at = {0.25, 5.};
  const auto run = [&](const auto &model, const auto &update) {
    const auto fitted = model.fit(data);
    const JointDistribution before = fitted.predict(at).joint();
    const auto reference = model.fit(data);
    auto copy = fitted;
    if (assigned) {
      auto other = model.fit(more);
      other = fitted;
      copy = other;
    }
    if (action == 0)
      update(copy);
    else if (action == 1)
      copy.get_model().set_param_value("squared_exponential_length_scale", 7.);
    else if (action == 2)
      copy.get_fit().information[0] += 1.;
    else if (action == 3)
      copy.get_fit().train_features[0] = 9.;
    else if (action == 4)
      copy = model.fit(more);
    else
      copy.get_fit().train_covariance.mutable_matrix()(0, 0) = 17.;
    c.check(fitted == reference, "copy-is-not-independent", "the fitted model changed");
    c.check(!(copy == fitted), "different-values-are-equal", "the changed copy");
    c.check(fitted.predict(at).joint() == before, "copy-is-not-independent", "its predictions changed");
  };
  if (sparse)
    run(sparse_gp_from_covariance(Squared(), LeaveOneOutGrouper(), UniformlySpacedInducingPoints(3), "m"), [&](auto &copy) { copy.update_in_place(more); });
  else if (action != 0)
    run(gp_from_covariance(Squared(), "m"), [](auto &) {});
  else {
    // updates of these have a type of their own
    const auto model = gp_from_covariance(Squared(), "m");
    const auto fitted = model.fit(data);
    const auto reference = model.fit(data);
    const auto updated = fitted.update(more);
    const auto again = fitted.update(more);
    c.check(fitted == reference, "copy-is-not-independent", "updating changed the fitted model");
    c.check(updated == again, "equal-values-differ", "two updates with the same data");
    auto copy = updated;
    copy.get_fit().information[0] += 1.;
    c.check(!(copy == updated) && updated == again, "copy-is-not-independent", "the updated model changed");
  }
}
