// C29: matrices, parameters, priors, distributions, datasets, variants and
// thread pools through every archive.
#include "c29_archives.h"

using namespace albatross;

namespace {

const double kInf = std::numeric_limits<double>::infinity();

std::vector<double> payload_values() {
  return {1.25, 0., -0., std::nan(""), kInf, -kInf, 5e-324, 1.7976931348623157e308, 0.1};
}
// Numbers which a text archive writes as text.
std::vector<double> text_values(int k) {
  std::vector<double> out = {1.25, 0., -0., 0.1, 1. / 3., -1e300, 1e-300, 12345678.901234567};
  if (k != arc::Xml) {
    // the XML archive of cereal reads numbers with operator>>, which does not
    // read these
    out.push_back(kInf);
    out.push_back(-kInf);
    out.push_back(5e-324);
  }
  return out;
}

// Every matrix of these dimensions filled with two values, one of which is
// placed at one of its cells.
template <typename M> void fill(mc::Ctx &c, M &m) {
  using S = typename M::Scalar;
  for (Eigen::Index i = 0; i < m.rows(); ++i)
    for (Eigen::Index j = 0; j < m.cols(); ++j)
      m(i, j) = static_cast<S>(10 * (i + 1) + j + 1);
  if (m.size() > 0) {
    const int at = c.choose(static_cast<int>(m.size()));
    const double v = c.pick(payload_values());
    if (std::is_integral<S>::value)
      m(at / m.cols(), at % m.cols()) = std::isfinite(v) && std::fabs(v) < 1e6 ? static_cast<S>(v) : std::numeric_limits<S>::min();
    else
      m(at / m.cols(), at % m.cols()) = static_cast<S>(v);
  }
}

template <typename M> void dense(mc::Ctx &c, Eigen::Index rows, Eigen::Index cols) {
  const int k = arc::pick(c);
  const bool used = c.flip();
  M m(rows, cols);
  fill(c, m);
  M back;
  if (used) {
    // the target holds a matrix already
    if (M::RowsAtCompileTime == Eigen::Dynamic || M::ColsAtCompileTime == Eigen::Dynamic)
      back.resize(M::RowsAtCompileTime == Eigen::Dynamic ? 2 : M::RowsAtCompileTime,
                  M::ColsAtCompileTime == Eigen::Dynamic ? 3 : M::ColsAtCompileTime);
    back.setConstant(static_cast<typename M::Scalar>(7));
  }
  c << arc::show(m) << (used ? " into a used matrix" : "");
  c.state(arc::show(m));
  if (arc::round_trip(c, k, "a matrix", m, back))
    c.check(arc::same(m, back), "dense-matrix-changed", "loaded " + arc::show(back));
}

} // namespace

MC_SCENARIO(dense_dynamic) {
  const int rows = c.range(0, 3), cols = c.range(0, 3);
  dense<Eigen::MatrixXd>(c, rows, cols);
}
MC_SCENARIO(dense_vectors) {
  const int n = c.range(0, 3);
  switch (c.choose(3)) {
  case 0:
    return dense<Eigen::VectorXd>(c, n, 1);
  case 1:
    return dense<Eigen::Matrix<float, Eigen::Dynamic, 1>>(c, n, 1);
  default:
    return dense<Eigen::VectorXi>(c, n, 1);
  }
}
MC_SCENARIO(dense_fixed) {
  switch (c.choose(5)) {
  case 0:
    return dense<Eigen::Matrix3d>(c, 3, 3);
  case 1:
    return dense<Eigen::Matrix<double, 2, 3>>(c, 2, 3);
  case 2:
    return dense<Eigen::Matrix<double, Eigen::Dynamic, 2>>(c, c.range(0, 3), 2);
  case 3:
    return dense<Eigen::Matrix<double, 2, Eigen::Dynamic>>(c, 2, c.range(0, 3));
  default:
    return dense<Eigen::Vector3d>(c, 3, 1);
  }
}
MC_SCENARIO(dense_large) {
  // sizes at which compression does something
  const int rows = c.pick<int>({1, 64, 129}), cols = c.pick<int>({1, 50});
  const int kind = c.choose(3);
  const int k = arc::pick(c);
  Eigen::MatrixXd m(rows, cols), back;
  unsigned long long x = 88172645463325252ull;
  for (Eigen::Index i = 0; i < m.size(); ++i) {
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    m.data()[i] = kind == 0 ? 1.5 : kind == 1 ? double(i) : double(x) / 3.;
  }
  c << rows << "x" << cols << " kind " << kind;
  if (arc::round_trip(c, k, "a matrix", m, back))
    c.check(arc::same(m, back), "dense-matrix-changed", "a large matrix changed");
}

MC_SCENARIO(permutations) {
  const int n = c.range(0, 4);
  const auto p = c.permutation(n);
  const int k = arc::pick(c);
  const int kind = c.choose(3);
  Eigen::VectorXd v(n);
  for (int i = 0; i < n; ++i)
    v[i] = i + 1;
  c << n << " elements, kind " << kind;
  c.state(arc::str(p));
  if (kind == 0) {
    Eigen::PermutationMatrix<Eigen::Dynamic, Eigen::Dynamic, Eigen::Index> m(n), back;
    for (int i = 0; i < n; ++i)
      m.indices()[i] = static_cast<int>(p[i]);
    if (arc::round_trip(c, k, "a permutation", m, back))
      c.check(arc::same(Eigen::VectorXd(m * v), Eigen::VectorXd(back * v)), "permutation-changed", "it permutes differently");
  } else if (kind == 1) {
    Eigen::PermutationMatrix<Eigen::Dynamic> m(n), back(3);
    back.setIdentity();
    for (int i = 0; i < n; ++i)
      m.indices()[i] = static_cast<int>(p[i]);
    if (arc::round_trip(c, k, "a permutation", m, back))
      c.check(arc::same(Eigen::VectorXd(m * v), Eigen::VectorXd(back * v)), "permutation-changed", "it permutes differently");
  } else {
    Eigen::Transpositions<Eigen::Dynamic> t(n), back;
    // transpositions: i is swapped with something at or after it
    for (int i = 0; i < n; ++i)
      t.indices()[i] = i + static_cast<int>(p[i]) % (n - i);
    if (arc::round_trip(c, k, "transpositions", t, back))
      c.check(arc::same(Eigen::VectorXd(t * v), Eigen::VectorXd(back * v)), "transpositions-changed", "they permute differently");
  }
}

MC_SCENARIO(diagonal) {
  const int n = c.range(0, 3);
  const int k = arc::pick(c);
  Eigen::VectorXd v(n);
  fill(c, v);
  Eigen::DiagonalMatrix<double, Eigen::Dynamic> d = v.asDiagonal(), back;
  if (c.flip())
    back = Eigen::VectorXd::Constant(2, 7.).asDiagonal();
  c << arc::show(v);
  if (arc::round_trip(c, k, "a diagonal matrix", d, back))
    c.check(arc::same(v, Eigen::VectorXd(back.diagonal())), "diagonal-changed", "loaded " + arc::show(Eigen::VectorXd(back.diagonal())));
}

namespace {
template <typename M> void sparse(mc::Ctx &c) {
  using S = typename M::Scalar;
  const int rows = c.range(0, 3), cols = c.range(0, 3);
  c.assume(rows * cols <= mc::tiered(6, 9));
  const auto pattern = c.subset(rows * cols);
  const int odd = c.choose(4); // 0: ordinary values, 1: an explicit zero, 2: NaN, 3: denormal
  const bool packed = c.flip();
  const int k = arc::pick(c);
  M m(rows, cols);
  if (!packed)
    m.reserve(Eigen::VectorXi::Constant(m.outerSize(), 5));
  bool first = true;
  c << rows << "x" << cols << " with";
  for (const int i : std::vector<int>(pattern.begin(), pattern.end())) {
      S v = static_cast<S>(10 * (i / cols + 1) + i % cols + 1);
      if (first && odd)
        v = static_cast<S>(odd == 1 ? 0. : odd == 2 ? std::nan("") : 1e-40);
      first = false;
      m.insert(i / cols, i % cols) = v;
      c << " (" << i / cols << "," << i % cols << ")=" << v;
    }
  if (packed)
    m.makeCompressed();
  else
    c << " uncompressed";
  M back;
  if (c.flip()) {
    back.resize(2, 2);
    back.insert(0, 0) = static_cast<S>(7);
    c << ", into a used matrix";
  }
  c.state(arc::str(pattern));
  if (!arc::round_trip(c, k, "a sparse matrix", m, back))
    return;
  using D = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>;
  c.check(arc::same(D(m), D(back)), "sparse-matrix-changed", "loaded " + arc::show(D(back)));
  // The pattern is part of the value: an explicit zero is stored.
  c.check(m.nonZeros() == back.nonZeros(), "sparse-pattern-changed",
          "saved " + std::to_string(m.nonZeros()) + " elements, loaded " + std::to_string(back.nonZeros()));
}
} // namespace

MC_SCENARIO(sparse_columns) { sparse<Eigen::SparseMatrix<double>>(c); }
MC_SCENARIO(sparse_rows) { sparse<Eigen::SparseMatrix<double, Eigen::RowMajor>>(c); }
MC_SCENARIO(sparse_other) {
  if (c.flip())
    sparse<Eigen::SparseMatrix<float>>(c);
  else
    sparse<Eigen::SparseMatrix<double, Eigen::ColMajor, SuiteSparse_long>>(c);
}

namespace {

PriorContainer make_prior(mc::Ctx &c, int k) {
  const std::vector<double> v = text_values(k);
  switch (c.choose(9)) {
  case 0:
    return UninformativePrior();
  case 1:
    return FixedPrior();
  case 2:
    return PositivePrior();
  case 3:
    return NonNegativePrior();
  case 4: {
    const double lo = c.pick(v);
    double hi = c.pick(v);
    c.assume(lo < hi);
    return UniformPrior(lo, hi);
  }
  case 5:
    return LogScaleUniformPrior(c.pick<double>({0.1, 1. / 3.}), c.pick<double>({1., 1e10}));
  case 6:
    return GaussianPrior(c.pick(v), c.pick<double>({0.1, 1. / 3.}));
  case 7:
    return PositiveGaussianPrior(c.pick(v), c.pick<double>({0.1, 1. / 3.}));
  default:
    return LogNormalPrior(c.pick(v), c.pick<double>({0.1, 1. / 3.}));
  }
}

// What a prior does, at a few values.
void same_prior(mc::Ctx &c, const PriorContainer &a, const PriorContainer &b) {
  c.check(a.get_name() == b.get_name(), "prior-changed", "saved " + a.get_name() + ", loaded " + b.get_name());
  c.check(a == b, "prior-changed", "the loaded prior is not equal to the saved one");
  c.check(a.is_fixed() == b.is_fixed() && a.is_log_scale() == b.is_log_scale(), "prior-changed", "it is fixed or log scale where it was not");
  c.check(arc::same_bits(a.lower_bound(), b.lower_bound()) && arc::same_bits(a.upper_bound(), b.upper_bound()), "prior-changed",
          "its bounds differ");
  for (double x : {0.2, 0.5, 1., 3.})
    c.check(arc::same_bits(a.log_pdf(x), b.log_pdf(x)), "prior-changed", "its density at " + arc::str(x) + " differs");
}

void same_params(mc::Ctx &c, const ParameterStore &a, const ParameterStore &b) {
  c.check(a.size() == b.size(), "parameters-changed", "another number of parameters was loaded");
  for (const auto &p : a) {
    c.check(b.count(p.first) == 1, "parameters-changed", p.first + " was not loaded");
    c.check(arc::same_bits(p.second.value, b.at(p.first).value), "parameters-changed",
            p.first + " was " + arc::str(p.second.value) + ", is " + arc::str(b.at(p.first).value));
    same_prior(c, p.second.prior, b.at(p.first).prior);
  }
  c.check(a == b, "parameters-changed", "the loaded parameters are not equal to the saved ones");
}

} // namespace

MC_SCENARIO(parameters) {
  const int k = arc::pick(c);
  const int n = c.range(0, 2);
  ParameterStore params, back;
  const std::vector<std::string> names = {"a", "b c<&>\"'\\ \n"};
  for (int i = 0; i < n; ++i) {
    // only one of them explores all the priors
    Parameter p;
    if (i == 0) {
      p.value = c.pick(text_values(k));
      p.prior = make_prior(c, k);
    } else {
      p.value = 2.;
      p.prior = GaussianPrior(1., 2.);
    }
    params[k == arc::Xml && i == 1 ? "b c<&>" : names[i]] = p;
  }
  if (c.flip())
    back = {{"a", Parameter(3., PositivePrior())}, {"other", Parameter(4.)}};
  c << pretty_params(params);
  if (arc::round_trip(c, k, "parameters", params, back))
    same_params(c, params, back);
}

MC_SCENARIO(variants) {
  using V = variant<int, double, std::string, Eigen::VectorXd, LinearCombination<double>>;
  const int k = arc::pick(c);
  const int which = c.choose(5);
  V v, back;
  const std::vector<std::string> texts = {"", "x", "two words", "a,\"b\"<&>"};
  switch (which) {
  case 0:
    v = c.pick<int>({0, -3, 2147483647});
    break;
  case 1:
    v = c.pick(text_values(k));
    break;
  case 2:
    v = c.pick(texts);
    break;
  case 3: {
    Eigen::VectorXd x(c.range(0, 2));
    x.setConstant(0.1);
    v = x;
    break;
  }
  default: {
    std::vector<double> x;
    const int n = c.range(1, 3);
    for (int i = 0; i < n; ++i)
      x.push_back(i + 0.1);
    v = LinearCombination<double>(x, Eigen::VectorXd::Constant(n, 1. / 3.));
  }
  }
  if (c.flip())
    back = std::string("already here");
  c << "alternative " << which;
  if (!arc::round_trip(c, k, "a variant", v, back))
    return;
  c.check(back.which() == v.which(), "variant-alternative-changed",
          "saved alternative " + std::to_string(v.which()) + ", loaded " + std::to_string(back.which()));
  if (back.which() != v.which())
    return;
  bool ok = true;
  if (v.is<int>())
    ok = v.get<int>() == back.get<int>();
  if (v.is<double>())
    ok = arc::same_bits(v.get<double>(), back.get<double>());
  if (v.is<std::string>())
    ok = v.get<std::string>() == back.get<std::string>();
  if (v.is<Eigen::VectorXd>())
    ok = arc::same(v.get<Eigen::VectorXd>(), back.get<Eigen::VectorXd>());
  if (v.is<LinearCombination<double>>())
    ok = v.get<LinearCombination<double>>().values == back.get<LinearCombination<double>>().values &&
         arc::same(v.get<LinearCombination<double>>().coefficients, back.get<LinearCombination<double>>().coefficients);
  c.check(ok, "variant-value-changed", "the loaded value differs");
}

namespace {
std::map<std::string, std::string> metadata(mc::Ctx &c) {
  switch (c.choose(3)) {
  case 0:
    return {};
  case 1:
    return {{"k", "v"}};
  default:
    return {{"", "empty"}, {"time stamp", ""}, {"z", "a,\"b\"<&>"}};
  }
}
MarginalDistribution marginal(mc::Ctx &c, int n, bool with_cov) {
  Eigen::VectorXd mean(n), var(n);
  for (int i = 0; i < n; ++i) {
    mean[i] = i + 0.1;
    var[i] = 1. / (i + 3.);
  }
  if (n)
    mean[0] = c.pick<double>({0.1, std::nan(""), -0.});
  MarginalDistribution m(mean);
  if (with_cov)
    m = MarginalDistribution(mean, var);
  m.metadata = metadata(c);
  return m;
}
void same_marginal(mc::Ctx &c, const MarginalDistribution &a, const MarginalDistribution &b) {
  c.check(arc::same(a.mean, b.mean), "distribution-mean-changed", "loaded mean " + arc::show(b.mean));
  c.check(arc::same(Eigen::VectorXd(a.covariance.diagonal()), Eigen::VectorXd(b.covariance.diagonal())), "distribution-variance-changed",
          "loaded variance " + arc::show(Eigen::VectorXd(b.covariance.diagonal())));
  c.check(a.metadata == b.metadata, "metadata-changed", "the metadata differ");
}
} // namespace

MC_SCENARIO(marginals) {
  const int k = arc::pick(c);
  const int n = c.range(0, 3);
  const MarginalDistribution m = marginal(c, n, c.flip());
  MarginalDistribution back;
  if (c.flip()) {
    back = MarginalDistribution(Eigen::VectorXd::Constant(2, 7.), Eigen::VectorXd::Constant(2, 7.));
    back.metadata = {{"old", "old"}};
  }
  c << n << " marginals";
  if (arc::round_trip(c, k, "a marginal distribution", m, back))
    same_marginal(c, m, back);
}

MC_SCENARIO(joints) {
  const int k = arc::pick(c);
  const int n = c.range(0, 3);
  Eigen::VectorXd mean(n);
  Eigen::MatrixXd cov(n, n);
  for (int i = 0; i < n; ++i) {
    mean[i] = 0.1 * i;
    for (int j = 0; j < n; ++j)
      cov(i, j) = i == j ? 3. : 1. / (1. + i + j);
  }
  JointDistribution d(mean, cov), back;
  d.metadata = metadata(c);
  if (c.flip()) {
    back = JointDistribution(Eigen::VectorXd::Constant(2, 7.), Eigen::MatrixXd::Identity(2, 2));
    back.metadata = {{"old", "old"}};
  }
  c << n << " joint";
  if (!arc::round_trip(c, k, "a joint distribution", d, back))
    return;
  c.check(arc::same(d.mean, back.mean), "distribution-mean-changed", "loaded mean " + arc::show(back.mean));
  c.check(arc::same(d.covariance, back.covariance), "distribution-covariance-changed", "loaded covariance " + arc::show(back.covariance));
  c.check(d.metadata == back.metadata, "metadata-changed", "the metadata differ");
}

MC_SCENARIO(datasets) {
  const int k = arc::pick(c);
  const int n = c.range(0, 3);
  const int kind = c.choose(3);
  const MarginalDistribution targets = marginal(c, n, c.flip());
  c << n << " data of kind " << kind;
  auto run = [&](auto make) {
    using F = decltype(make(0));
    std::vector<F> features;
    for (int i = 0; i < n; ++i)
      features.push_back(make(i));
    RegressionDataset<F> d(features, targets), back;
    d.metadata = metadata(c);
    if (c.flip())
      back = RegressionDataset<F>({make(5)}, MarginalDistribution(Eigen::VectorXd::Constant(1, 7.)));
    if (!arc::round_trip(c, k, "a dataset", d, back))
      return;
    c.check(back.features == features, "dataset-features-changed", "the features differ");
    same_marginal(c, d.targets, back.targets);
    c.check(d.metadata == back.metadata, "metadata-changed", "the metadata of the dataset differ");
  };
  if (kind == 0)
    run([](int i) { return i + 1. / 3.; });
  else if (kind == 1)
    run([](int i) { return std::string(i, 'x') + "<"; });
  else
    run([](int i) {
      variant<double, std::string> v;
      if (i % 2)
        v = std::string("s");
      else
        v = i / 7.;
      return v;
    });
}

MC_SCENARIO(thread_pools) {
  const int k = arc::pick(c);
  const int n = c.range(0, 4);
  const bool used = c.flip();
  std::shared_ptr<ThreadPool> pool, back;
  if (n)
    pool = std::make_shared<ThreadPool>(n);
  if (used)
    back = std::make_shared<ThreadPool>(3);
  c << (n ? "a pool of " + std::to_string(n) : std::string("no pool")) << (used ? " over a pool of 3" : "");
  if (!arc::round_trip(c, k, "a thread pool", pool, back))
    return;
  // one worker is the same as none
  const std::size_t want = n <= 1 ? 1 : n;
  const std::size_t got = back ? back->thread_count() : 1;
  c.check(got == want, "thread-pool-changed", "loaded " + std::to_string(got) + " workers");
  std::vector<int> xs = {1, 2, 3, 4, 5};
  auto twice = [](int x) { return 2 * x; };
  c.check(albatross::apply(xs, twice, back.get()) == std::vector<int>({2, 4, 6, 8, 10}), "thread-pool-broken",
          "the loaded pool does not compute what it is given");
}
