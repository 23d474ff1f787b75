// C22, part: the shortcuts of Gaussian processes (one fit for all the folds)
// against the law of the held out observations given the others.
#include <albatross/Evaluation>
#include <albatross/SparseGP>

#include "gp_oracle.h"
#include "scaled.h"

using namespace albatross;

namespace {

using SE = SquaredExponential<EuclideanDistance>;
struct Trend : public MeanFunction<Trend> {
  ALBATROSS_DECLARE_PARAMS(level, tilt)
  Trend() {
    level = {0.7, FixedPrior()};
    tilt = {-0.4, FixedPrior()};
  }
  double _call_impl(const double &x) const { return level.value + tilt.value * x; }
  double _call_impl(const Measurement<double> &m) const { return _call_impl(m.value) + 0.3; } // (the instrument's)
};
law::Real trend(const law::Term &t) { return 0.7L - 0.4L * t.x + (t.measured ? 0.3L : 0.L); }
law::Real zero(const law::Term &) { return 0.L; }
law::Real smooth(const law::Term &a, const law::Term &b) {
  const law::Real d = (static_cast<law::Real>(a.x) - b.x) / 1.5L;
  return 4.L * std::exp(-d * d);
}
law::Real noisy(const law::Term &a, const law::Term &b) { return smooth(a, b) + (a.x == b.x && a.measured && b.measured ? 0.25L : 0.L); }

std::vector<law::Feature> points(const std::vector<double> &x) {
  std::vector<law::Feature> f;
  for (double v : x)
    f.push_back({{1., v, false}});
  return f;
}
void same(mc::Ctx &c, const Eigen::MatrixXd &got, const law::Mat &want, const char *key, const std::string &s, double tol = 1e-8) {
  c.check(got.rows() == want.rows() && got.cols() == want.cols(), key, s + " shape");
  if (got.rows() != want.rows() || got.cols() != want.cols())
    return;
  for (Eigen::Index i = 0; i < got.rows(); ++i)
    for (Eigen::Index j = 0; j < got.cols(); ++j)
      c.close(got(i, j), static_cast<double>(want(i, j)), key, s, tol, tol);
}

struct Case {
  std::vector<double> x;
  Eigen::VectorXd y, v;
  std::map<int, std::vector<std::size_t>> groups;
  bool noise = false;
  std::string text;
};
const double GRID[] = {1., -1., 2.25, 0.};
Case make(mc::Ctx &c, int most) {
  Case k;
  const int n = c.range(1, most), pattern = c.choose(4);
  // (with no noise the data have to lie apart)
  k.y.resize(n);
  k.v.resize(n);
  k.text = "data";
  for (int i = 0; i < n; ++i) {
    k.x.push_back(pattern == 1 && i == 2 ? 1. : GRID[i % 4] + (i > 3 ? 3. : 0.));
    k.y[i] = 1. + 0.75 * i * i - i;
    k.v[i] = pattern == 0 || (pattern == 3 && i % 2 == 0) ? 0. : 0.1 + 0.3 * i;
    k.text += " " + std::to_string(k.x.back()).substr(0, 5);
  }
  k.noise = pattern != 0;
  k.text += " noise " + std::to_string(pattern) + " groups";
  for (int i = 0; i < n; ++i) {
    const int g = c.choose(3);
    k.groups[g == 0 ? 5 : g == 1 ? -2 : 40].push_back(static_cast<std::size_t>(i));
    k.text += " " + std::to_string(g);
  }
  return k;
}
struct Held {
  law::Gaussian observed; // the held out observations, noise and all
  law::Gaussian latent;   // without the noise of the targets
  law::Gaussian refit;    // what is predicted at the features
  law::Vec y, v;
};
// The law of each group given the others.
std::map<int, Held> law_of(const Case &k, const law::Kernel &cov, const law::Mean &mean) {
  std::map<int, Held> out;
  for (const auto &g : k.groups) {
    std::vector<double> train, test;
    std::vector<law::Real> ty, tv, hy, hv;
    for (std::size_t i = 0; i < k.x.size(); ++i) {
      const auto at = static_cast<Eigen::Index>(i);
      if (std::find(g.second.begin(), g.second.end(), i) == g.second.end()) {
        train.push_back(k.x[i]);
        ty.push_back(k.y[at]);
        tv.push_back(k.v[at]);
      }
    }
    for (auto i : g.second) {
      test.push_back(k.x[i]);
      hy.push_back(k.y[static_cast<Eigen::Index>(i)]);
      hv.push_back(k.v[static_cast<Eigen::Index>(i)]);
    }
    const auto vec = [](const std::vector<law::Real> &v) { return law::Vec(Eigen::Map<const law::Vec>(v.data(), static_cast<Eigen::Index>(v.size()))); };
    Held h;
    const law::Mat noise(vec(tv).asDiagonal());
    const auto data = law::measured(points(train));
    h.latent = law::condition(cov, mean, data, data, vec(ty), noise, law::measured(points(test)));
    h.refit = law::condition(cov, mean, points(train), data, vec(ty), noise, points(test));
    h.observed = h.latent;
    h.observed.cov += law::Mat(vec(hv).asDiagonal());
    h.y = vec(hy);
    h.v = vec(hv);
    out[g.first] = h;
  }
  return out;
}
law::Vec in_order(const Case &k, const std::map<int, law::Vec> &parts) {
  law::Vec out(static_cast<Eigen::Index>(k.x.size()));
  for (const auto &g : k.groups)
    for (std::size_t i = 0; i < g.second.size(); ++i)
      out[static_cast<Eigen::Index>(g.second[i])] = parts.at(g.first)[static_cast<Eigen::Index>(i)];
  return out;
}
law::Real nll(const law::Gaussian &g, const law::Vec &y) { return -law::log_density(y - g.mean, g.cov); }
law::Gaussian with(law::Gaussian g, const law::Vec &v) {
  g.cov += law::Mat(v.asDiagonal());
  return g;
}
law::Gaussian apart(law::Gaussian g) {
  g.cov = law::Mat(law::Vec(g.cov.diagonal()).asDiagonal());
  return g;
}

template <typename Model> void check(mc::Ctx &c, Model model, const Case &k, const law::Kernel &cov, const law::Mean &mean, const std::string &s, int threads) {
  if (threads)
    model.set_thread_pool(std::make_shared<ThreadPool>(static_cast<std::size_t>(threads)));
  const RegressionDataset<double> data(k.x, MarginalDistribution(k.y, k.v));
  const GroupIndexer<int> indexer(k.groups);
  const auto want = law_of(k, cov, mean);
  const auto cv = model.cross_validate();
  const auto p = cv.predict(data, indexer);
  const auto means = p.means();
  const auto marginals = p.marginals();
  const auto joints = p.joints();
  c.check(means.size() == want.size() && marginals.size() == want.size() && joints.size() == want.size(), "gp-groups", s);
  std::map<int, law::Vec> all_means, all_variances;
  for (const auto &w : want) {
    const auto &o = w.second.observed;
    same(c, means.at(w.first), o.mean, "gp-means", s);
    same(c, marginals.at(w.first).mean, o.mean, "gp-marginals-mean", s);
    same(c, Eigen::VectorXd(marginals.at(w.first).covariance.diagonal()), law::Vec(o.cov.diagonal()), "gp-marginals", s);
    same(c, joints.at(w.first).mean, o.mean, "gp-joints-mean", s);
    same(c, joints.at(w.first).covariance, o.cov, "gp-joints", s);
    all_means[w.first] = o.mean;
    all_variances[w.first] = o.cov.diagonal();
  }
  same(c, p.mean(), in_order(k, all_means), "gp-mean-in-order", s);
  same(c, p.marginal().mean, in_order(k, all_means), "gp-marginal-mean-in-order", s);
  same(c, Eigen::VectorXd(p.marginal().covariance.diagonal()), in_order(k, all_variances), "gp-marginal-in-order", s);
  // the free functions, from the prior
  const auto prior = model.prior(k.x);
  const auto free_means = leave_one_group_out_conditional_means(prior, data.targets, indexer);
  const auto free_marginals = leave_one_group_out_conditional_marginals(prior, data.targets, indexer);
  const auto pool = std::make_unique<ThreadPool>(2);
  const auto free_joints = leave_one_group_out_conditional_joints(prior, data.targets, indexer, pool.get());
  for (const auto &w : want) {
    const auto &o = w.second.observed;
    same(c, free_means.at(w.first), o.mean, "conditional-means", s);
    same(c, free_marginals.at(w.first).mean, o.mean, "conditional-marginals-mean", s);
    same(c, Eigen::VectorXd(free_marginals.at(w.first).covariance.diagonal()), law::Vec(o.cov.diagonal()), "conditional-marginals", s);
    same(c, free_joints.at(w.first).mean, o.mean, "conditional-joints-mean", s);
    same(c, free_joints.at(w.first).covariance, o.cov, "conditional-joints", s);
  }
  // scores: one for each group in the order of the keys
  const Eigen::VectorXd rmse = cv.scores(RootMeanSquareError(), data, indexer);
  const Eigen::VectorXd joint_nll = cv.scores(NegativeLogLikelihood<JointDistribution>(), data, indexer);
  const Eigen::VectorXd marginal_nll = cv.scores(NegativeLogLikelihood<MarginalDistribution>(), data, indexer);
  c.check(rmse.size() == static_cast<Eigen::Index>(want.size()) && joint_nll.size() == rmse.size() && marginal_nll.size() == rmse.size(), "gp-scores-count", s);
  Eigen::Index at = 0;
  for (const auto &w : want) {
    const Held &h = w.second;
    const law::Vec d = h.y - h.observed.mean;
    c.close(rmse[at], static_cast<double>(std::sqrt(d.squaredNorm() / static_cast<law::Real>(d.size()))), "gp-rmse", s, 1e-7, 1e-7);
    const auto likelihood = [&](double got, const law::Gaussian &once, const char *key) {
      const double right = static_cast<double>(nll(once, h.y)), twice = static_cast<double>(nll(with(once, h.v), h.y));
      if (k.noise && mc::near(got, twice, 1e-7, 1e-7) && !mc::near(right, twice, 1e-7, 1e-7))
        c.fail("gp-scores-count-the-noise-of-the-targets-twice", s);
      else
        c.close(got, right, key, s, 1e-7, 1e-7);
    };
    likelihood(joint_nll[at], h.observed, "gp-joint-nll");
    likelihood(marginal_nll[at], apart(h.observed), "gp-marginal-nll");
    ++at;
  }
  // explicitly refit: the same, except that noise which only measurements
  // carry is no part of what is predicted
  const auto folds = folds_from_group_indexer(data, indexer);
  bool all = false; // (a model fit to nothing at all)
  for (const auto &f : folds.get_map())
    all = all || f.second.train_dataset.size() == 0;
  if (all)
    return;
  const auto refit = cv.predictions(folds);
  const Eigen::VectorXd fold_rmse = cv.scores(RootMeanSquareError(), folds);
  const Eigen::VectorXd fold_nll = cv.scores(NegativeLogLikelihood<JointDistribution>(), folds);
  at = 0;
  for (const auto &w : want) {
    const Held &h = w.second;
    const auto joint = refit.at(w.first).joint();
    same(c, joint.mean, h.refit.mean, "refit-mean", s);
    same(c, joint.covariance, h.refit.cov, "refit-covariance", s);
    const law::Vec d = h.y - h.refit.mean;
    c.close(fold_rmse[at], static_cast<double>(std::sqrt(d.squaredNorm() / static_cast<law::Real>(d.size()))), "refit-rmse", s, 1e-7, 1e-7);
    if (k.noise) // (else a certain prediction)
      c.close(fold_nll[at], static_cast<double>(nll(with(h.refit, h.v), h.y)), "refit-nll", s, 1e-6, 1e-6);
    ++at;
  }
}

} // namespace

MC_SCENARIO(gaussian_processes) {
  const int model = c.choose(3), threads = c.choose(2) * 2;
  const Case k = make(c, mc::tiered(4, 5));
  const std::string s = k.text + " model " + std::to_string(model) + " threads " + std::to_string(threads);
  c << s;
  c.state(s);
  c.step();
  if (model == 0) // (repeated locations are told apart by the noise of the targets)
    check(c, gp_from_covariance(SE(1.5, 2.)), k, smooth, zero, s, threads);
  else if (model == 1)
    check(c, gp_from_covariance_and_mean(SE(1.5, 2.), Trend()), k, smooth, trend, s, threads);
  else
    check(c, gp_from_covariance_and_mean(SE(1.5, 2.) + measurement_only(IndependentNoise<double>(0.5)), Trend()), k, noisy, trend, s, threads);
}

// Many data, in folds of many shapes.
MC_SCENARIO(large) {
  const int n = c.pick<int>({6, 9, 14, 24}), model = c.choose(3), threads = c.choose(2) * 3, pattern = c.choose(4), shape = c.choose(7);
  Case k;
  k.y.resize(n);
  k.v.resize(n);
  for (int i = 0; i < n; ++i) {
    k.x.push_back(-6. + 12. * ((i * 5) % n) / n + 0.13 * (i % 3));
    k.y[i] = 2. * std::sin(0.9 * i) + 0.1 * i;
    k.v[i] = pattern == 0 ? 0.3 : pattern == 1 ? 0.1 + 0.2 * ((3 * i) % 5) : pattern == 2 ? 0.02 * (i + 1) : i % 3 ? 0.25 : 0.;
    const int g = shape == 0 ? i : shape == 1 ? i % 3 : shape == 2 ? i / 4 : shape == 3 ? (i == 2 ? 1 : 0) : shape == 4 ? (i * i) % 5 : shape == 5 ? -i / 2 : (i < n - 2 ? 7 : 3);
    k.groups[g].push_back(static_cast<std::size_t>(i));
  }
  if (shape == 1 || shape == 6)
    for (auto &g : k.groups)
      std::reverse(g.second.begin(), g.second.end());
  k.noise = true;
  k.text = std::to_string(n) + " data noise " + std::to_string(pattern) + " folds " + std::to_string(shape);
  const std::string s = k.text + " model " + std::to_string(model) + " threads " + std::to_string(threads);
  c << s;
  c.state(s);
  c.step();
  if (model == 0)
    check(c, gp_from_covariance(SE(1.5, 2.)), k, smooth, zero, s, threads);
  else if (model == 1)
    check(c, gp_from_covariance_and_mean(SE(1.5, 2.), Trend()), k, smooth, trend, s, threads);
  else
    check(c, gp_from_covariance_and_mean(SE(1.5, 2.) + measurement_only(IndependentNoise<double>(0.5)), Trend()), k, noisy, trend, s, threads);
}

// The conditional law of each variable given all others.
MC_SCENARIO(each_given_the_others) {
  const int n = c.range(1, mc::tiered(3, 4)), correlated = c.choose(3), noise = c.choose(4), mean = c.choose(2);
  Eigen::MatrixXd cov(n, n);
  Eigen::VectorXd y(n), v(n), m(n);
  for (int i = 0; i < n; ++i) {
    y[i] = c.pick<double>({-1., 0., 2.5});
    v[i] = noise == 0 ? 0. : noise == 1 ? 0.5 : noise == 2 ? 0.1 * (i + 1) : 0.4 * (i % 2);
    m[i] = mean ? i - 0.5 : 0.;
    for (int j = 0; j < n; ++j)
      cov(i, j) = i == j ? 2. + 0.5 * i : correlated == 0 ? 0. : correlated == 1 ? 0.9 : (i + j) % 2 ? -0.8 : 0.3;
  }
  std::string s = "n " + std::to_string(n) + " correlated " + std::to_string(correlated) + " noise " + std::to_string(noise) + " mean " + std::to_string(mean) + " y";
  for (int i = 0; i < n; ++i)
    s += " " + std::to_string(y[i]);
  c << s;
  c.state(s);
  c.step();
  const auto got = leave_one_out_conditional(JointDistribution(m, cov), MarginalDistribution(y, v));
  const Eigen::MatrixXd total = cov + Eigen::MatrixXd(v.asDiagonal());
  const Eigen::VectorXd variance = leave_one_out_conditional_variance(total);
  const Eigen::VectorXd again = leave_one_out_conditional_variance(Eigen::SerializableLDLT(total));
  const law::Mat wide = total.cast<law::Real>();
  for (int i = 0; i < n; ++i) {
    std::vector<std::size_t> others;
    law::Vec oy(n - 1);
    for (int j = 0; j < n; ++j)
      if (j != i) {
        oy[static_cast<Eigen::Index>(others.size())] = y[j];
        others.push_back(static_cast<std::size_t>(j));
      }
    const auto w = law::condition(law::Gaussian{m.cast<law::Real>(), wide}, others, oy, law::Mat::Zero(n - 1, n - 1));
    c.close(got.mean[i], static_cast<double>(w.mean[i]), "given-others-mean", s, 1e-10, 1e-10);
    c.close(got.covariance.diagonal()[i], static_cast<double>(w.cov(i, i)), "given-others-variance", s, 1e-10, 1e-10);
    c.close(variance[i], static_cast<double>(w.cov(i, i)), "given-others-variance", s, 1e-10, 1e-10);
    c.close(again[i], static_cast<double>(w.cov(i, i)), "given-others-variance", s, 1e-10, 1e-10);
  }
}

// A model without a shortcut of its own: the sparse process refits.
MC_SCENARIO(sparse_processes) {
  const Case k = make(c, 3);
  c.assume(k.noise && k.groups.size() > 1);
  const std::string s = k.text;
  c << s;
  c.state(s);
  c.step();
  const auto model = sparse_gp_from_covariance_and_mean(SE(1.5, 2.), Trend(), LeaveOneOutGrouper(), UniformlySpacedInducingPoints(3), "sparse");
  const RegressionDataset<double> data(k.x, MarginalDistribution(k.y, k.v));
  const auto p = model.cross_validate().predict(data, GroupIndexer<int>(k.groups));
  const auto joints = p.joints();
  const auto means = p.means();
  for (const auto &g : k.groups) {
    std::vector<std::size_t> others;
    std::vector<double> test;
    for (std::size_t i = 0; i < k.x.size(); ++i)
      if (std::find(g.second.begin(), g.second.end(), i) == g.second.end())
        others.push_back(i);
    for (auto i : g.second)
      test.push_back(k.x[i]);
    const auto want = model.fit(data.subset(others)).predict(test).joint();
    same(c, joints.at(g.first).covariance, want.covariance.cast<law::Real>(), "sparse-joints", s);
    same(c, joints.at(g.first).mean, want.mean.cast<law::Real>(), "sparse-joints-mean", s);
    same(c, means.at(g.first), want.mean.cast<law::Real>(), "sparse-means", s);
  }
}

// In other units.
MC_SCENARIO(units_of_targets) {
  const int power = units::power(c), n = c.pick<int>({2, 5, 9}), shape = c.choose(3), pattern = c.choose(2);
  const std::string s = "units 2^" + std::to_string(power) + " n=" + std::to_string(n) + " folds " + std::to_string(shape) + " noise " + std::to_string(pattern);
  c << s;
  c.state(s);
  c.step();
  const double unit = units::of(power);
  std::map<int, std::vector<std::size_t>> groups;
  for (int i = 0; i < n; ++i)
    groups[shape == 0 ? i : shape == 1 ? i % 2 : (i == n - 1)].push_back(static_cast<std::size_t>(i));
  const auto in_units = [&](double u) {
    auto m = gp_from_covariance(SE(1.5, 2.) + measurement_only(IndependentNoise<double>(0.5)));
    m.set_param_value("sigma_squared_exponential", 2. * u);
    m.set_param_value("sigma_independent_noise", 0.5 * u);
    return m;
  };
  const auto data = [&](double u) {
    std::vector<double> x;
    Eigen::VectorXd y(n), v(n);
    for (int i = 0; i < n; ++i) {
      x.push_back(0.9 * i - 1.);
      y[i] = u * (0.3 + 2. * std::sin(0.9 * i));
      v[i] = u * u * (pattern ? 0.3 * (i % 3) : 0.2);
    }
    return RegressionDataset<double>(x, MarginalDistribution(y, v));
  };
  const auto da = data(1.), db = data(unit);
  const auto ma = in_units(1.), mb = in_units(unit);
  const GroupIndexer<int> folds(groups);
  const auto a = ma.cross_validate().predict(da, folds), b = mb.cross_validate().predict(db, folds);
  units::scaled(c, b.mean(), a.mean(), unit, "units-mean", s);
  units::scaled_law(c, b.marginal(), a.marginal(), unit, "units-marginal", s);
  const auto ja = a.joints(), jb = b.joints();
  for (const auto &g : groups)
    units::scaled_law(c, jb.at(g.first), ja.at(g.first), unit, "units-joint", s);
  units::scaled(c, mb.cross_validate().scores(RootMeanSquareError(), db, folds), ma.cross_validate().scores(RootMeanSquareError(), da, folds), unit, "units-scores", s);
  // the conditional of each given the others
  const auto pa = ma.prior(da.features), pb = mb.prior(db.features);
  units::scaled_law(c, leave_one_out_conditional(pb, db.targets), leave_one_out_conditional(pa, da.targets), unit, "units-given-others", s);
}
