// C17: what is computed with a thread pool equals what is computed without.
#include <albatross/Common>
#include <albatross/Dataset>
#include <albatross/Indexing>
#include <albatross/CovarianceFunctions>
#include <albatross/GP>
#include <albatross/Evaluation>
#include <albatross/Tune>
#include <albatross/SparseGP>

#include "mc.h"
#include "mc_sched.h"

using namespace albatross;
using Matrix = Eigen::MatrixXd;
using Vector = Eigen::VectorXd;

namespace {

// (more preemptions only between two workers, where their number stays finite
// enough)
int bound(int quick, int deep, int workers) { return workers == 2 ? mc::tiered(quick, deep) : quick; }

// A covariance during which other threads may run.
bool g_points = false;
class Watched : public CovarianceFunction<Watched> {
public:
  std::string get_name() const { return "watched"; }
  double _call_impl(const double &x, const double &y) const {
    if (g_points)
      sched::point();
    return std::exp(-0.5 * (x - y) * (x - y)) + (x == y ? 0.3 : 0.);
  }
  double _call_impl(const double &x, const int &y) const { return 0.1 * x + std::cos(x - y); }
};

std::vector<double> xs_of(int n) {
  std::vector<double> x;
  for (int i = 0; i < n; ++i)
    x.push_back(0.7 * i - 0.05 * i * i);
  return x;
}
RegressionDataset<double> data_of(int n) {
  Vector mean(n), var(n);
  for (int i = 0; i < n; ++i) {
    mean[i] = std::sin(1. + i) + 3.;
    var[i] = 0.1 + 0.05 * i;
  }
  return RegressionDataset<double>(xs_of(n), MarginalDistribution(mean, var.asDiagonal()));
}
// Results are compared after the schedule is over.
template <typename A, typename B> void same(mc::Ctx &c, const A &got, const B &want, const char *key, const std::string &what) {
  const Matrix g = got, w = want;
  c.check(g.rows() == w.rows() && g.cols() == w.cols(), key, what + " shape");
  if (g.rows() != w.rows() || g.cols() != w.cols())
    return;
  for (Eigen::Index i = 0; i < g.rows(); ++i)
    for (Eigen::Index j = 0; j < g.cols(); ++j)
      c.close(g(i, j), w(i, j), key, what, 1e-11, 1e-12);
}
void same(mc::Ctx &c, const MarginalDistribution &got, const MarginalDistribution &want, const char *key, const std::string &what) {
  same(c, got.mean, want.mean, key, what + " mean");
  same(c, Vector(got.covariance.diagonal()), Vector(want.covariance.diagonal()), key, what + " variance");
}
void same(mc::Ctx &c, const JointDistribution &got, const JointDistribution &want, const char *key, const std::string &what) {
  same(c, got.mean, want.mean, key, what + " mean");
  same(c, got.covariance, want.covariance, key, what + " covariance");
}
template <typename K, typename V> void same(mc::Ctx &c, const std::map<K, V> &got, const std::map<K, V> &want, const char *key, const std::string &what) {
  c.check(got.size() == want.size(), key, what + " groups");
  for (const auto &kv : want) {
    c.check(got.count(kv.first) == 1, key, what + " group");
    if (got.count(kv.first))
      same(c, got.at(kv.first), kv.second, key, what);
  }
}

// f(pool) must give what f(nullptr) gives, for every schedule.
template <typename F> void compare(mc::Ctx &c, int workers, int preemptions, const std::string &what, F &&f) {
  c << what << " on " << workers << " workers";
  c.state(what + std::to_string(workers));
  const bool points = g_points;
  g_points = false;
  const auto want = f(nullptr);
  g_points = points;
  auto got = want;
  sched::run(c, [&] {
    const auto pool = std::make_shared<ThreadPool>(static_cast<std::size_t>(workers));
    got = f(pool);
  }, preemptions);
  g_points = false;
  same(c, got, want, "parallel-is-serial", what);
}

using Pool = std::shared_ptr<ThreadPool>;

template <typename T> struct Wrap; // (map of vectors by name)

GroupIndexer<int> groups(int n, int k) {
  GroupIndexer<int> g;
  for (int i = 0; i < n; ++i)
    g[(i * 7 + 1) % k].push_back(static_cast<std::size_t>(i));
  return g;
}
Matrix definite(int n, int seed) {
  Matrix a(n, n);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      a(i, j) = std::sin(1. + seed + 3 * i + 5 * j * j);
  return Matrix(a * a.transpose()) + Matrix(Matrix::Identity(n, n));
}
} // namespace

// Every size on every number of workers (no preemption: whichever worker is
// free next).
MC_SCENARIO(covariance_matrix_every_size) {
  const int n = c.range(0, mc::tiered(24, 60)), w = c.range(2, mc::tiered(9, 16));
  const Watched cov;
  const auto xs = xs_of(n);
  std::vector<Matrix> out;
  // One schedule is enough here: the others are explored below.
  c << n << " on " << w;
  c.state(std::to_string(n) + "/" + std::to_string(w));
  sched::run(c, [&] {
    ThreadPool pool(static_cast<std::size_t>(w));
    out.push_back(cov(xs, &pool));
  }, -1);
  same(c, out[0], cov(xs), "parallel-is-serial", "matrix of " + std::to_string(n));
}
MC_SCENARIO(cross_covariance_every_size) {
  const int m = c.pick<int>({0, 1, 2, 5}), n = c.range(0, mc::tiered(16, 40)), w = c.range(2, mc::tiered(9, 16));
  const Watched cov;
  const auto xs = xs_of(m);
  std::vector<int> ys;
  for (int i = 0; i < n; ++i)
    ys.push_back(3 * i);
  std::vector<Matrix> out;
  c << m << " x " << n << " on " << w;
  c.state(std::to_string(m) + "x" + std::to_string(n) + "/" + std::to_string(w));
  sched::run(c, [&] {
    ThreadPool pool(static_cast<std::size_t>(w));
    out.push_back(cov(xs, ys, &pool));
    out.push_back(cov(ys, xs, &pool));
    out.push_back(cov(xs_of(n), xs, &pool));
  }, -1);
  same(c, out[0], cov(xs, ys), "parallel-is-serial", "cross");
  same(c, out[1], cov(ys, xs), "parallel-is-serial", "cross, other order");
  same(c, out[2], cov(xs_of(n), xs), "parallel-is-serial", "cross, one type");
}

// Larger ones, on one schedule each: no row, column, block or group is left out
// wherever the parts end.
MC_SCENARIO(large_covariance_matrices) {
  const int n = c.pick<int>({31, 32, 33, 50, 63, 64, 65, 70, 96, 100, 127, 128, 129, 150}), w = c.range(2, 12);
  compare(c, w, -1, "large matrix of " + std::to_string(n), [&](const Pool &p) { return Watched()(xs_of(n), p.get()); });
}
MC_SCENARIO(large_cross_covariances) {
  const int m = c.pick<int>({1, 7, 33, 65}), n = c.pick<int>({20, 33, 64, 65, 100, 129}), w = c.range(2, 12);
  std::vector<int> ys;
  for (int i = 0; i < n; ++i)
    ys.push_back(3 * i % 41);
  const bool flip = c.flip();
  compare(c, w, -1, "large cross " + std::to_string(m) + "x" + std::to_string(n) + (flip ? " other order" : ""), [&](const Pool &p) -> Matrix {
    return flip ? Watched()(ys, xs_of(m), p.get()) : Watched()(xs_of(m), ys, p.get());
  });
}
MC_SCENARIO(large_block_solves) {
  const int n_blocks = c.pick<int>({8, 9, 17, 33}), shape = c.choose(3), w = c.range(2, 9), cols = c.pick<int>({1, 5});
  const bool root = c.flip();
  BlockDiagonal b;
  int rows = 0;
  for (int i = 0; i < n_blocks; ++i) {
    const int k = shape == 0 ? 1 : shape == 1 ? 3 : 1 + (i * 5) % 4;
    b.blocks.push_back(definite(k, i));
    rows += k;
  }
  const BlockDiagonalLDLT ldlt = b.ldlt();
  Matrix rhs(rows, cols);
  for (int i = 0; i < rows; ++i)
    for (int j = 0; j < cols; ++j)
      rhs(i, j) = std::cos(i + 2. * j);
  compare(c, w, -1, std::string(root ? "large root " : "large ") + "solve with " + std::to_string(n_blocks) + " blocks " + std::to_string(shape), [&](const Pool &p) -> Matrix {
    return root ? ldlt.sqrt_solve(rhs, p.get()) : ldlt.solve(rhs, p.get());
  });
}
MC_SCENARIO(large_inverse_blocks) {
  const int n = c.pick<int>({12, 25, 40}), k = c.pick<int>({2, 5, 8, 9, 12}), w = c.range(2, 9);
  const Eigen::SerializableLDLT ldlt(definite(n, 3));
  compare(c, w, -1, "large inverse blocks of " + std::to_string(n) + " in " + std::to_string(k), [&](const Pool &p) {
    std::map<int, Matrix> out;
    const auto g = groups(n, k);
    const auto blocks = ldlt.inverse_blocks(map_values(g), p.get());
    auto it = g.begin();
    for (const auto &b : blocks)
      out[(it++)->first] = b;
    return out;
  });
}
MC_SCENARIO(large_leave_one_group_out) {
  const int n = c.pick<int>({12, 25, 40}), k = c.pick<int>({2, 5, 8, 9, 12}), w = c.range(2, 9);
  const JointDistribution prior(Vector::LinSpaced(n, 1., 2.), definite(n, 1));
  const MarginalDistribution truth = data_of(n).targets;
  const auto g = groups(n, k);
  const std::string what = "large leave one group out of " + std::to_string(n) + " in " + std::to_string(k);
  switch (c.choose(3)) {
  case 0:
    return compare(c, w, -1, what + " means", [&](const Pool &p) { return leave_one_group_out_conditional_means(prior, truth, g, p.get()); });
  case 1:
    return compare(c, w, -1, what + " marginals", [&](const Pool &p) { return leave_one_group_out_conditional_marginals(prior, truth, g, p.get()); });
  default:
    return compare(c, w, -1, what + " joints", [&](const Pool &p) { return leave_one_group_out_conditional_joints(prior, truth, g, p.get()); });
  }
}

MC_SCENARIO(covariance_matrix_schedules) {
  const int n = c.range(1, mc::tiered(3, 4)), w = c.range(2, 3);
  g_points = true;
  compare(c, w, 1, "matrix of " + std::to_string(n), [&](const Pool &p) { return Watched()(xs_of(n), p.get()); });
}
MC_SCENARIO(cross_covariance_schedules) {
  const int m = c.range(1, 2), n = c.range(1, 3), w = c.range(2, 3);
  g_points = true;
  const std::vector<int> ys = {4, -1, 2};
  compare(c, w, 1, "cross " + std::to_string(m) + "x" + std::to_string(n), [&](const Pool &p) { return Watched()(xs_of(m), std::vector<int>(ys.begin(), ys.begin() + n), p.get()); });
}

MC_SCENARIO(block_solves) {
  const int n_blocks = c.range(0, mc::tiered(3, 4)), w = c.range(2, 3), cols = c.range(1, 2);
  const bool root = c.flip();
  BlockDiagonal b;
  int rows = 0;
  for (int i = 0; i < n_blocks; ++i) {
    const int k = c.range(1, 2);
    b.blocks.push_back(definite(k, i));
    rows += k;
  }
  const BlockDiagonalLDLT ldlt = b.ldlt();
  Matrix rhs(rows, cols);
  for (int i = 0; i < rows; ++i)
    for (int j = 0; j < cols; ++j)
      rhs(i, j) = std::cos(i + 2. * j);
  compare(c, w, bound(2, 3, w), std::string(root ? "root " : "") + "solve with " + std::to_string(n_blocks) + " blocks", [&](const Pool &p) -> Matrix {
    return root ? ldlt.sqrt_solve(rhs, p.get()) : ldlt.solve(rhs, p.get());
  });
  if (n_blocks > 0) {
    // ... and as without a pool argument
    same(c, ldlt.solve(rhs, nullptr), ldlt.solve(rhs), "solve-forms", "solve");
    same(c, ldlt.sqrt_solve(rhs, nullptr), ldlt.sqrt_solve(rhs), "solve-forms", "root solve");
  }
}

MC_SCENARIO(inverse_blocks) {
  const int n = c.range(1, 4), k = c.range(1, 3), w = c.range(2, 3);
  const Eigen::SerializableLDLT ldlt(definite(n, 3));
  compare(c, w, bound(2, 3, w), "inverse blocks of " + std::to_string(n) + " in " + std::to_string(k), [&](const Pool &p) {
    std::map<int, Matrix> out;
    const auto g = groups(n, k);
    const auto blocks = ldlt.inverse_blocks(map_values(g), p.get());
    auto it = g.begin();
    for (const auto &b : blocks)
      out[(it++)->first] = b;
    return out;
  });
}

MC_SCENARIO(leave_one_group_out) {
  const int n = c.range(1, 4), k = c.range(1, 3), w = c.range(2, 3);
  const JointDistribution prior(Vector::LinSpaced(n, 1., 2.), definite(n, 1));
  const MarginalDistribution truth = data_of(n).targets;
  const auto g = groups(n, k);
  const std::string what = "leave one group out of " + std::to_string(n) + " in " + std::to_string(k);
  switch (c.choose(3)) {
  case 0:
    return compare(c, w, bound(1, 2, w), what + " means", [&](const Pool &p) { return leave_one_group_out_conditional_means(prior, truth, g, p.get()); });
  case 1:
    return compare(c, w, bound(1, 2, w), what + " marginals", [&](const Pool &p) { return leave_one_group_out_conditional_marginals(prior, truth, g, p.get()); });
  default:
    return compare(c, w, bound(1, 2, w), what + " joints", [&](const Pool &p) { return leave_one_group_out_conditional_joints(prior, truth, g, p.get()); });
  }
}

namespace {
template <typename Model> void through_the_model(mc::Ctx &c, Model model, int n, int w, int preemptions, const std::string &name) {
  const auto data = data_of(n);
  const std::vector<double> at = {0.25, -1., 4.};
  switch (c.choose(2)) {
  case 0:
    return compare(c, w, preemptions, name + " fit and predict " + std::to_string(n), [&](const Pool &p) {
      Model m(model);
      m.set_thread_pool(p);
      const auto joint = m.fit(data).predict(at).joint();
      return joint;
    });
  default:
    return compare(c, w, preemptions, name + " cross validation " + std::to_string(n), [&](const Pool &p) {
      Model m(model);
      m.set_thread_pool(p);
      std::map<int, MarginalDistribution> out;
      const auto grouper = [](const double &x) { return x > 0.8 ? 1 : 0; };
      for (const auto &kv : m.cross_validate().predict(data, grouper).marginals())
        out[kv.first] = kv.second;
      return out;
    });
  }
}
} // namespace
MC_SCENARIO(large_gaussian_process) {
  const int n = c.pick<int>({12, 21, 40}), w = c.range(2, 9);
  through_the_model(c, gp_from_covariance_and_mean(SquaredExponential<EuclideanDistance>(1.5, 2.) + IndependentNoise<double>(0.2), LinearMean(), "gp"), n, w, -1, "large gp");
}
MC_SCENARIO(large_sparse_gaussian_process) {
  const int n = c.pick<int>({12, 21, 40}), w = c.range(2, 9);
  const auto grouper = [](const double &x) { return static_cast<int>(std::floor(x)); };
  through_the_model(c, sparse_gp_from_covariance(SquaredExponential<EuclideanDistance>(1.5, 2.) + IndependentNoise<double>(0.2), grouper, UniformlySpacedInducingPoints(5), "sparse"), n, w, -1, "large sparse gp");
}
MC_SCENARIO(gaussian_process) {
  const int n = c.range(2, mc::tiered(4, 5)), w = c.range(2, 3);
  through_the_model(c, gp_from_covariance_and_mean(SquaredExponential<EuclideanDistance>(1.5, 2.) + IndependentNoise<double>(0.2), LinearMean(), "gp"), n, w, bound(1, 2, w), "gp");
}
MC_SCENARIO(sparse_gaussian_process) {
  const int n = c.range(3, mc::tiered(4, 5)), w = c.range(2, 3);
  const auto grouper = [](const double &x) { return x > 0.8 ? 1 : 0; };
  through_the_model(c, sparse_gp_from_covariance(SquaredExponential<EuclideanDistance>(1.5, 2.) + IndependentNoise<double>(0.2), grouper, UniformlySpacedInducingPoints(3), "sparse"), n, w, bound(1, 2, w), "sparse gp");
}
MC_SCENARIO(sparse_gaussian_process_update) {
  const int n = c.range(3, mc::tiered(4, 5)), w = c.range(2, 3);
  const auto grouper = [](const double &x) { return x > 0.8 ? 1 : 0; };
  auto model = sparse_gp_from_covariance(SquaredExponential<EuclideanDistance>(1.5, 2.) + IndependentNoise<double>(0.2), grouper, UniformlySpacedInducingPoints(3), "sparse");
  const auto data = data_of(n);
  const std::vector<double> at = {0.25, -1., 4.};
  compare(c, w, bound(1, 2, w), "sparse gp update " + std::to_string(n), [&](const Pool &p) {
    auto m = model;
    m.set_thread_pool(p);
    const std::vector<std::size_t> first = {0, 1}, rest = [&] {
      std::vector<std::size_t> r;
      for (int i = 2; i < n; ++i)
        r.push_back(static_cast<std::size_t>(i));
      return r;
    }();
    const auto fit = m.fit(subset(data, first));
    const auto joint = update(fit, subset(data, rest)).predict(at).joint();
    return joint;
  });
}

MC_SCENARIO(gradients) {
  const int n = c.range(0, 3), w = c.range(2, 3);
  const bool store = c.flip();
  const auto f = [](const std::vector<double> &x) {
    sched::point();
    double s = 0.;
    for (std::size_t i = 0; i < x.size(); ++i)
      s += (1. + static_cast<double>(i)) * x[i] * x[i] + (i > 0 ? x[i] * x[i - 1] : 0.);
    return s;
  };
  std::vector<double> at;
  ParameterStore params;
  for (int i = 0; i < n; ++i) {
    at.push_back(0.5 + i);
    params["p" + std::to_string(i)] = Parameter(at.back(), i == 1 ? PriorContainer(UniformPrior(0., 1.5)) : PriorContainer(PositivePrior()));
  }
  const auto g = [&](const ParameterStore &p) {
    std::vector<double> x;
    for (const auto &kv : p)
      x.push_back(kv.second.value);
    return f(x);
  };
  compare(c, w, bound(1, 2, w), std::string(store ? "store " : "") + "gradient of " + std::to_string(n), [&](const Pool &p) -> Matrix {
    const auto v = store ? compute_gradient(g, params, g(params), p.get()) : compute_gradient(f, at, f(at), p.get());
    return Matrix(Eigen::Map<const Vector>(v.data(), static_cast<Eigen::Index>(v.size())));
  });
}

MC_SCENARIO(greedy) {
  const int n = c.range(1, 2), w = c.range(2, 3);
  const std::size_t queries = 1, iterations = static_cast<std::size_t>(c.range(1, mc::tiered(1, 2)));
  ParameterStore params;
  for (int i = 0; i < n; ++i)
    params["p" + std::to_string(i)] = Parameter(0.3 + 0.1 * i, UniformPrior(0., 1.));
  const double target = c.pick<double>({0.1, 0.9});
  const auto f = [&](const ParameterStore &p) {
    sched::point();
    double s = 0.;
    for (const auto &kv : p)
      s += (kv.second.value - target) * (kv.second.value - target);
    return s;
  };
  compare(c, w, 0, "greedy tuning of " + std::to_string(n) + " to " + std::to_string(target), [&](const Pool &p) -> Matrix {
    const auto out = greedy_tune(f, params, queries, iterations, p.get(), nullptr);
    Vector v(static_cast<Eigen::Index>(out.size()));
    Eigen::Index i = 0;
    for (const auto &kv : out)
      v[i++] = kv.second.value;
    return Matrix(v);
  });
}
