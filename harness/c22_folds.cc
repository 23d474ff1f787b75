// C22, part: who is trained on what, and whose prediction lands where, for
// models which tell exactly what they were given.
#include <albatross/Evaluation>

#include "mc.h"

using namespace albatross;

namespace {

struct Item {
  int id;
  bool operator==(const Item &o) const { return id == o.id; }
};

// What the models below remember of their training.
struct Seen {
  double ids = 0., values = 0., noise = 0.;
  int count = 0;
};
Seen see(const std::vector<Item> &x, const MarginalDistribution &y) {
  Seen s;
  for (std::size_t i = 0; i < x.size(); ++i) {
    const auto k = static_cast<Eigen::Index>(i);
    s.ids += std::pow(2., x[i].id);
    s.values += y.mean[k] * std::pow(3., x[i].id);
    s.noise += y.covariance.diagonal()[k] * std::pow(5., x[i].id);
    ++s.count;
  }
  return s;
}
double told(const Seen &s, const Item &x) { return 100. * s.ids + x.id + 0.01 * s.values + 0.001 * s.noise; }
double spread(const Seen &s, const Item &a, const Item &b) { return a.id == b.id ? 3. + a.id + s.count : 0.1 * (a.id * b.id + s.ids) / 64.; }
Eigen::VectorXd told(const Seen &s, const std::vector<Item> &x) {
  Eigen::VectorXd m(static_cast<Eigen::Index>(x.size()));
  for (std::size_t i = 0; i < x.size(); ++i)
    m[static_cast<Eigen::Index>(i)] = told(s, x[i]);
  return m;
}
Eigen::MatrixXd spread(const Seen &s, const std::vector<Item> &x) {
  const auto n = static_cast<Eigen::Index>(x.size());
  Eigen::MatrixXd c(n, n);
  for (Eigen::Index i = 0; i < n; ++i)
    for (Eigen::Index j = 0; j < n; ++j)
      c(i, j) = spread(s, x[static_cast<std::size_t>(i)], x[static_cast<std::size_t>(j)]);
  return c;
}

} // namespace

namespace albatross {
template <int kind> struct Teller;
template <int kind> struct Fit<Teller<kind>> {
  Seen seen;
  bool operator==(const Fit &o) const { return seen.ids == o.seen.ids; }
};
// kind: 0 joint, 1 marginal, 2 mean, 3 all three, 4 all three and a mean of
// its own for cross validation
template <int kind> struct Teller : public ModelBase<Teller<kind>> {
  std::string get_name() const { return "teller"; }
  Fit<Teller> _fit_impl(const std::vector<Item> &x, const MarginalDistribution &y) const { return Fit<Teller>{see(x, y)}; }

  template <int k = kind, std::enable_if_t<k == 2 || k >= 3, int> = 0> Eigen::VectorXd _predict_impl(const std::vector<Item> &x, const Fit<Teller> &f, PredictTypeIdentity<Eigen::VectorXd> &&) const { return told(f.seen, x); }
  template <int k = kind, std::enable_if_t<k == 1 || k >= 3, int> = 0> MarginalDistribution _predict_impl(const std::vector<Item> &x, const Fit<Teller> &f, PredictTypeIdentity<MarginalDistribution> &&) const {
    const Eigen::VectorXd v = spread(f.seen, x).diagonal();
    return MarginalDistribution(told(f.seen, x), v);
  }
  template <int k = kind, std::enable_if_t<k == 0 || k >= 3, int> = 0> JointDistribution _predict_impl(const std::vector<Item> &x, const Fit<Teller> &f, PredictTypeIdentity<JointDistribution> &&) const { return JointDistribution(told(f.seen, x), spread(f.seen, x)); }

  template <typename GroupKey, int k = kind, std::enable_if_t<k == 4, int> = 0> std::map<GroupKey, Eigen::VectorXd> cross_validated_predictions(const RegressionDataset<Item> &d, const GroupIndexer<GroupKey> &groups, PredictTypeIdentity<Eigen::VectorXd>) const {
    std::map<GroupKey, Eigen::VectorXd> out;
    for (const auto &g : groups) {
      out[g.first] = Eigen::VectorXd::Zero(static_cast<Eigen::Index>(g.second.size()));
      for (std::size_t i = 0; i < g.second.size(); ++i)
        out[g.first][static_cast<Eigen::Index>(i)] = -1. - d.features[g.second[i]].id;
    }
    return out;
  }
};
} // namespace albatross

namespace {

struct Case {
  RegressionDataset<Item> data;
  std::string text;
};
// n items in every order (named so that ids tell them apart).
Case dataset(mc::Ctx &c, int least, int most) {
  const int n = c.range(least, most);
  // in order, or any order when small
  std::vector<std::size_t> order;
  if (n <= 3) {
    order = c.permutation(static_cast<std::size_t>(n));
  } else {
    for (int i = 0; i < n; ++i)
      order.push_back(static_cast<std::size_t>((i * 3 + 2) % n));
    if (n % 3 == 0)
      for (int i = 0; i < n; ++i)
        order[static_cast<std::size_t>(i)] = static_cast<std::size_t>(n - 1 - i);
  }
  std::vector<Item> x;
  Eigen::VectorXd y(n), v(n);
  std::string s = "items";
  for (int i = 0; i < n; ++i) {
    const int id = static_cast<int>(order[static_cast<std::size_t>(i)]);
    x.push_back(Item{id});
    y[i] = 2. * id * id - 3.;
    v[i] = 0.25 + 0.5 * id;
    s += " " + std::to_string(id);
  }
  return {RegressionDataset<Item>(x, MarginalDistribution(y, v)), s};
}

void equal(mc::Ctx &c, const Eigen::MatrixXd &got, const Eigen::MatrixXd &want, const char *key, const std::string &s) {
  c.check(got.rows() == want.rows() && got.cols() == want.cols() && (got.size() == 0 || (got - want).cwiseAbs().maxCoeff() <= 1e-9 * (1. + want.cwiseAbs().maxCoeff())), key, s);
}

template <typename Key> struct Fold {
  Key key;
  std::vector<std::size_t> test, train;
};
// What the folds have to be.
template <typename Key> std::vector<Fold<Key>> folds(const std::map<Key, std::vector<std::size_t>> &groups, std::size_t n) {
  std::vector<Fold<Key>> out;
  for (const auto &g : groups) {
    Fold<Key> f;
    f.key = g.first;
    f.test = g.second;
    for (std::size_t i = 0; i < n; ++i)
      if (std::find(g.second.begin(), g.second.end(), i) == g.second.end())
        f.train.push_back(i);
    out.push_back(f);
  }
  return out;
}
std::vector<Item> items(const RegressionDataset<Item> &d, const std::vector<std::size_t> &at) {
  std::vector<Item> x;
  for (auto i : at)
    x.push_back(d.features[i]);
  return x;
}
Seen seen(const RegressionDataset<Item> &d, const std::vector<std::size_t> &at) {
  const auto n = static_cast<Eigen::Index>(at.size());
  Eigen::VectorXd y(n), v(n);
  for (Eigen::Index i = 0; i < n; ++i) {
    y[i] = d.targets.mean[static_cast<Eigen::Index>(at[static_cast<std::size_t>(i)])];
    v[i] = d.targets.covariance.diagonal()[static_cast<Eigen::Index>(at[static_cast<std::size_t>(i)])];
  }
  return see(items(d, at), MarginalDistribution(y, v));
}
Eigen::VectorXd pick(const Eigen::VectorXd &v, const std::vector<std::size_t> &at) {
  Eigen::VectorXd out(static_cast<Eigen::Index>(at.size()));
  for (std::size_t i = 0; i < at.size(); ++i)
    out[static_cast<Eigen::Index>(i)] = v[static_cast<Eigen::Index>(at[i])];
  return out;
}

template <typename Key> void check_folds(mc::Ctx &c, const RegressionDataset<Item> &d, const std::vector<Fold<Key>> &want, const RegressionFolds<Key, Item> &got, const std::string &s) {
  c.check(got.size() == want.size(), "fold-count", s);
  for (const auto &f : want) {
    const auto &g = got.at(f.key);
    c.check(g.test_indices == f.test, "fold-test-indices", s);
    c.check(g.train_dataset.features == items(d, f.train), "fold-train-features", s);
    c.check(g.test_dataset.features == items(d, f.test), "fold-test-features", s);
    equal(c, g.train_dataset.targets.mean, pick(d.targets.mean, f.train), "fold-train-targets", s);
    equal(c, g.test_dataset.targets.mean, pick(d.targets.mean, f.test), "fold-test-targets", s);
    equal(c, Eigen::VectorXd(g.train_dataset.targets.covariance.diagonal()), pick(d.targets.covariance.diagonal(), f.train), "fold-train-noise", s);
    equal(c, Eigen::VectorXd(g.test_dataset.targets.covariance.diagonal()), pick(d.targets.covariance.diagonal(), f.test), "fold-test-noise", s);
  }
  const auto back = group_indexer_from_folds(got.get_map());
  c.check(back.size() == want.size(), "folds-indexer", s);
  for (const auto &f : want)
    c.check(back.at(f.key) == f.test, "folds-indexer", s);
}

double mean_metric(const Eigen::VectorXd &p, const MarginalDistribution &truth) { return p.sum() * 7. + truth.mean.sum() + 13. * truth.covariance.diagonal().sum(); }
double marginal_metric(const MarginalDistribution &p, const MarginalDistribution &truth) { return mean_metric(p.mean, truth) + p.covariance.diagonal().sum() / 3.; }
double joint_metric(const JointDistribution &p, const MarginalDistribution &truth) { return mean_metric(p.mean, truth) + p.covariance.sum() / 3.; }

template <typename Key> struct Expected {
  std::map<Key, Eigen::VectorXd> mean;
  std::map<Key, Eigen::MatrixXd> cov;
  Eigen::VectorXd all_mean, all_variance, mean_scores, marginal_scores, joint_scores;
};

// Everything that can be asked of a cross validated prediction.
template <int kind, typename Key, typename P> void check_prediction(mc::Ctx &c, const P &p, const std::vector<Fold<Key>> &want, const Expected<Key> &e, const std::string &s) {
  const auto means = p.means();
  c.check(means.size() == want.size(), "means-count", s);
  for (const auto &f : want)
    equal(c, means.at(f.key), e.mean.at(f.key), "means", s);
  equal(c, p.mean(), e.all_mean, "mean-in-order", s);
  equal(c, p.template get<Eigen::VectorXd>(), e.all_mean, "get-mean", s);
  const auto mean_map = p.template get<std::map<Key, Eigen::VectorXd>>();
  const auto mean_group = p.template get<Grouped<Key, Eigen::VectorXd>>();
  c.check(mean_map.size() == want.size() && mean_group.size() == want.size(), "get-means-count", s);
  for (const auto &f : want) {
    equal(c, mean_map.at(f.key), e.mean.at(f.key), "get-means", s);
    equal(c, mean_group.at(f.key), e.mean.at(f.key), "get-means", s);
  }
  if constexpr (kind != 2) {
    const auto marginals = p.marginals();
    const auto map = p.template get<std::map<Key, MarginalDistribution>>();
    const auto group = p.template get<Grouped<Key, MarginalDistribution>>();
    c.check(marginals.size() == want.size() && map.size() == want.size() && group.size() == want.size(), "marginals-count", s);
    for (const auto &f : want) {
      for (const auto *m : {&marginals.at(f.key), &map.at(f.key), &group.at(f.key)}) {
        equal(c, Eigen::VectorXd(m->covariance.diagonal()), e.cov.at(f.key).diagonal(), "marginals", s);
        if (kind != 4)
          equal(c, m->mean, e.mean.at(f.key), "marginals-mean", s);
      }
    }
    const auto marginal = p.marginal(), got = p.template get<MarginalDistribution>();
    equal(c, Eigen::VectorXd(marginal.covariance.diagonal()), e.all_variance, "marginal-in-order", s);
    equal(c, Eigen::VectorXd(got.covariance.diagonal()), e.all_variance, "marginal-in-order", s);
    if (kind != 4)
      equal(c, marginal.mean, e.all_mean, "marginal-mean-in-order", s);
  }
  if constexpr (kind == 0 || kind >= 3) {
    const auto joints = p.joints();
    const auto map = p.template get<std::map<Key, JointDistribution>>();
    const auto group = p.template get<Grouped<Key, JointDistribution>>();
    c.check(joints.size() == want.size() && map.size() == want.size() && group.size() == want.size(), "joints-count", s);
    for (const auto &f : want)
      for (const auto *m : {&joints.at(f.key), &map.at(f.key), &group.at(f.key)}) {
        equal(c, m->covariance, e.cov.at(f.key), "joints", s);
        if (kind != 4)
          equal(c, m->mean, e.mean.at(f.key), "joints-mean", s);
      }
  }
  const auto each = p.predictions();
  c.check(each.size() == want.size(), "predictions-count", s);
  if (kind != 4)
    for (const auto &f : want)
      equal(c, each.at(f.key).mean(), e.mean.at(f.key), "predictions-mean", s);
}

template <int kind, typename Key> void check_model(mc::Ctx &c, const RegressionDataset<Item> &d, const std::map<Key, std::vector<std::size_t>> &groups, const std::string &s) {
  const auto want = folds(groups, d.size());
  Expected<Key> e, explicit_one;
  e.all_mean = e.all_variance = Eigen::VectorXd::Constant(static_cast<Eigen::Index>(d.size()), -1.);
  e.mean_scores = e.marginal_scores = e.joint_scores = Eigen::VectorXd(static_cast<Eigen::Index>(want.size()));
  explicit_one = e;
  Eigen::Index at = 0;
  for (const auto &f : want) {
    const auto known = seen(d, f.train);
    const auto x = items(d, f.test);
    e.mean[f.key] = explicit_one.mean[f.key] = told(known, x);
    if (kind == 4)
      for (std::size_t i = 0; i < x.size(); ++i)
        e.mean[f.key][static_cast<Eigen::Index>(i)] = -1. - x[i].id;
    e.cov[f.key] = spread(known, x);
    for (std::size_t i = 0; i < f.test.size(); ++i) {
      e.all_mean[static_cast<Eigen::Index>(f.test[i])] = e.mean[f.key][static_cast<Eigen::Index>(i)];
      e.all_variance[static_cast<Eigen::Index>(f.test[i])] = e.cov[f.key](static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(i));
    }
    const Eigen::VectorXd y = pick(d.targets.mean, f.test), v = pick(d.targets.covariance.diagonal(), f.test);
    const double truth = y.sum() + 13. * v.sum();
    e.mean_scores[at] = 7. * e.mean[f.key].sum() + truth;
    explicit_one.mean_scores[at] = 7. * explicit_one.mean[f.key].sum() + truth;
    e.marginal_scores[at] = explicit_one.mean_scores[at] + e.cov[f.key].trace() / 3.;
    e.joint_scores[at] = explicit_one.mean_scores[at] + e.cov[f.key].sum() / 3.;
    ++at;
  }
  const GroupIndexer<Key> indexer(groups);
  const Teller<kind> model;
  const auto cv = model.cross_validate();
  check_prediction<kind>(c, cv.predict(d, indexer), want, e, s);
  // what a prediction needs it keeps
  const auto kept = std::make_unique<RegressionDataset<Item>>(d);
  const auto p = Teller<kind>().cross_validate().predict(RegressionDataset<Item>(*kept), GroupIndexer<Key>(groups));
  check_prediction<kind>(c, p, want, e, s + " kept");
  const auto explicit_folds = folds_from_group_indexer(d, indexer);
  check_folds(c, d, want, explicit_folds, s);
  c.check(dataset_size_from_folds(explicit_folds) == d.size() && dataset_size_from_indexer(indexer) == d.size(), "dataset-size", s);
  const auto by_folds = cv.predictions(explicit_folds);
  const auto by_data = cv.predictions(d, indexer);
  const auto by_model = get_predictions(model, explicit_folds);
  c.check(by_folds.size() == want.size() && by_data.size() == want.size() && by_model.size() == want.size(), "predictions-count", s);
  for (const auto &f : want) {
    equal(c, by_folds.at(f.key).mean(), explicit_one.mean.at(f.key), "predictions-of-folds", s);
    equal(c, by_data.at(f.key).mean(), explicit_one.mean.at(f.key), "predictions-of-data", s);
    equal(c, by_model.at(f.key).mean(), explicit_one.mean.at(f.key), "get-predictions", s);
    equal(c, get_means(by_folds).at(f.key), explicit_one.mean.at(f.key), "get-means-of-folds", s);
    equal(c, predict_fold(model, explicit_folds.at(f.key)).mean(), explicit_one.mean.at(f.key), "predict-fold", s);
    if constexpr (kind != 2)
      equal(c, Eigen::VectorXd(get_marginals(by_folds).at(f.key).covariance.diagonal()), e.cov.at(f.key).diagonal(), "get-marginals-of-folds", s);
    if constexpr (kind == 0 || kind >= 3)
      equal(c, get_joints(by_folds).at(f.key).covariance, e.cov.at(f.key), "get-joints-of-folds", s);
  }
  // scores, in the order of the keys
  const PredictionMetric<Eigen::VectorXd> mean(mean_metric);
  equal(c, cv.scores(mean, explicit_folds), explicit_one.mean_scores, "scores-of-folds", s);
  equal(c, cv.scores(mean, d, indexer), e.mean_scores, "scores", s);
  equal(c, cross_validated_scores(mean, explicit_folds, Grouped<Key, Eigen::VectorXd>(e.mean)), e.mean_scores, "scores-of-means", s);
  if constexpr (kind != 2) {
    const PredictionMetric<MarginalDistribution> marginal(marginal_metric);
    equal(c, cv.scores(marginal, explicit_folds), e.marginal_scores, "marginal-scores-of-folds", s);
    equal(c, cv.scores(marginal, d, indexer), e.marginal_scores, "marginal-scores", s);
    equal(c, cross_validated_scores(mean, explicit_folds, p.marginals()), explicit_one.mean_scores, "scores-of-marginals", s);
    equal(c, concatenate_marginal_predictions(indexer, p.marginals()).mean, kind == 4 ? explicit_one.all_mean.size() ? Eigen::VectorXd(p.marginal().mean) : Eigen::VectorXd() : e.all_mean, "concatenate-marginals", s);
  }
  if constexpr (kind == 0 || kind >= 3) {
    const PredictionMetric<JointDistribution> joint(joint_metric);
    equal(c, cv.scores(joint, explicit_folds), e.joint_scores, "joint-scores-of-folds", s);
    equal(c, cv.scores(joint, d, indexer), e.joint_scores, "joint-scores", s);
    equal(c, Eigen::VectorXd(concatenate_marginal_predictions(indexer, p.joints()).covariance.diagonal()), e.all_variance, "concatenate-joints", s);
    equal(c, cross_validated_scores(mean, explicit_folds, p.joints()), explicit_one.mean_scores, "scores-of-joints", s);
  }
}
template <typename Key> void check_kind(mc::Ctx &c, int kind, const RegressionDataset<Item> &d, const std::map<Key, std::vector<std::size_t>> &groups, const std::string &s) {
  if (kind == 0)
    check_model<0>(c, d, groups, s);
  else if (kind == 1)
    check_model<1>(c, d, groups, s);
  else if (kind == 2)
    check_model<2>(c, d, groups, s);
  else if (kind == 3)
    check_model<3>(c, d, groups, s);
  else
    check_model<4>(c, d, groups, s);
}

} // namespace

// Every assignment of groups to every small data set; the indices of a group
// in order or in reverse.
MC_SCENARIO(assignments) {
  const int kind = c.choose(5);
  const auto d = dataset(c, 1, mc::tiered(4, 6));
  const int names = c.choose(2), reversed = c.choose(2);
  const int keys = d.data.size() > 4 ? 2 : 3;
  std::map<int, std::vector<std::size_t>> groups;
  std::map<std::string, std::vector<std::size_t>> named;
  std::string s = d.text + " model " + std::to_string(kind) + " groups";
  for (std::size_t i = 0; i < d.data.size(); ++i) {
    const int g = c.choose(keys);
    const int key = g == 0 ? 5 : g == 1 ? -2 : 40;
    groups[key].push_back(i);
    named[std::to_string(key)].push_back(i);
    s += " " + std::to_string(key);
  }
  if (reversed) {
    for (auto &g : groups)
      std::reverse(g.second.begin(), g.second.end());
    for (auto &g : named)
      std::reverse(g.second.begin(), g.second.end());
    s += " reversed";
  }
  if (names)
    s += " by name";
  c << s;
  c.state(s);
  c.step();
  if (names)
    check_kind(c, kind, d.data, named, s);
  else
    check_kind(c, kind, d.data, groups, s);
}

// More data in folds of many shapes.
MC_SCENARIO(larger_assignments) {
  const int kind = c.choose(5), n = c.range(5, 11), shape = c.choose(7), order = c.choose(3), names = c.choose(2);
  std::vector<Item> x;
  Eigen::VectorXd y(n), v(n);
  std::map<int, std::vector<std::size_t>> groups;
  std::map<std::string, std::vector<std::size_t>> named;
  for (int i = 0; i < n; ++i) {
    const int id = order == 0 ? i : order == 1 ? n - 1 - i : (i % 2 ? n - 1 - i / 2 : i / 2);
    x.push_back(Item{id});
    y[i] = 2. * id * id - 3.;
    v[i] = 0.25 + 0.5 * id;
    const int g = shape == 0 ? i : shape == 1 ? i % 3 : shape == 2 ? i / 4 : shape == 3 ? (i == 2 ? 1 : 0) : shape == 4 ? (i * i) % 5 : shape == 5 ? -i / 2 : (i < n - 2 ? 7 : 3);
    groups[g].push_back(static_cast<std::size_t>(i));
    named["n" + std::to_string(g)].push_back(static_cast<std::size_t>(i));
  }
  if (shape == 1 || shape == 6) {
    for (auto &g : groups)
      std::reverse(g.second.begin(), g.second.end());
    for (auto &g : named)
      std::reverse(g.second.begin(), g.second.end());
  } else if (shape == 2) {
    for (auto &g : groups)
      std::rotate(g.second.begin(), g.second.begin() + 1, g.second.end());
    for (auto &g : named)
      std::rotate(g.second.begin(), g.second.begin() + 1, g.second.end());
  }
  const std::string s = std::to_string(n) + " items order " + std::to_string(order) + " folds " + std::to_string(shape) + (names ? " by name" : "") + " model " + std::to_string(kind);
  c << s;
  c.state(s);
  c.step();
  const RegressionDataset<Item> d(x, MarginalDistribution(y, v));
  if (names)
    check_kind(c, kind, d, named, s);
  else
    check_kind(c, kind, d, groups, s);
}

// Groups by a function of the datum, one each, and k folds for every k.
MC_SCENARIO(groupers) {
  const auto d = dataset(c, 1, mc::tiered(4, 6));
  const auto n = d.data.size();
  const int which = c.choose(3);
  std::map<std::size_t, std::vector<std::size_t>> groups;
  std::string s = d.text + " grouper " + std::to_string(which);
  const Teller<0> model;
  const auto cv = model.cross_validate();
  const PredictionMetric<Eigen::VectorXd> metric(mean_metric);
  const auto check = [&](const auto &grouper) {
    c << s;
    c.state(s);
    c.step();
    const auto want = folds(groups, n);
    check_folds(c, d.data, want, folds_from_grouper(d.data, grouper), s);
    const auto p = cv.predict(d.data, grouper);
    const auto indexed = cv.predict(d.data, GroupIndexer<std::size_t>(groups));
    equal(c, p.mean(), indexed.mean(), "grouper-mean", s);
    equal(c, Eigen::VectorXd(p.marginal().covariance.diagonal()), Eigen::VectorXd(indexed.marginal().covariance.diagonal()), "grouper-marginal", s);
    equal(c, cv.scores(metric, d.data, grouper), cv.scores(metric, d.data, GroupIndexer<std::size_t>(groups)), "grouper-scores", s);
    c.check(cv.predictions(d.data, grouper).size() == groups.size(), "grouper-predictions", s);
    const auto m = p.means();
    for (const auto &f : want)
      equal(c, m.at(f.key), told(seen(d.data, f.train), items(d.data, f.test)), "grouper-means", s);
    check_model<0>(c, d.data, groups, s);
  };
  if (which == 0) {
    for (std::size_t i = 0; i < n; ++i)
      groups[i] = {i};
    check(LeaveOneOutGrouper());
  } else if (which == 1) {
    const int k = c.range(1, static_cast<int>(n) + 1);
    s += " k " + std::to_string(k);
    for (std::size_t i = 0; i < n; ++i)
      groups[i % static_cast<std::size_t>(k)].push_back(i);
    check(KFoldGrouper(static_cast<std::size_t>(k)));
  } else {
    const int m = c.range(1, 3);
    s += " mod " + std::to_string(m);
    for (std::size_t i = 0; i < n; ++i)
      groups[static_cast<std::size_t>(d.data.features[i].id * 2 % m)].push_back(i);
    check([m](const Item &x) { return static_cast<std::size_t>(x.id * 2 % m); });
  }
}
