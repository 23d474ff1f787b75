// C24: RANSAC with every draw, every outcome of the functions it is given and
// every small setting, against a monitor.
#include "draws.h"

#include <albatross/Ransac>

#include "gp_oracle.h"

using namespace albatross;

namespace {

std::string show(const std::vector<int> &v) {
  std::string s = "(";
  for (int x : v)
    s += std::to_string(x) + " ";
  return s + ")";
}
bool same(double a, double b, double tol) { return (std::isnan(a) && std::isnan(b)) || a == b || std::fabs(a - b) <= tol * (1. + std::fabs(b)); }

template <typename Key> bool equal_maps(const std::map<Key, double> &a, const std::map<Key, double> &b) {
  if (a.size() != b.size())
    return false;
  for (const auto &x : a)
    if (!b.count(x.first) || !same(x.second, b.at(x.first), 0.))
      return false;
  return true;
}

struct Setting {
  double threshold;
  std::size_t sample, minimum, iterations, failures;
};
bool possible(const Setting &t, std::size_t groups) { return t.sample >= 1 && t.sample < groups && t.minimum >= t.sample && t.minimum < groups && t.iterations >= 1; }

// What the functions answer.
template <typename Key> struct World {
  std::function<bool(const std::vector<Key> &)> valid;
  std::function<double(const Key &, const std::vector<Key> &)> inlier;
  std::function<double(const std::vector<Key> &)> consensus;
};

template <typename Key> void monitor(mc::Ctx &c, const RansacOutput<Key> &out, const std::vector<Key> &groups, const Setting &t, const World<Key> &w, const std::string &s, double tol) {
  if (!possible(t, groups.size())) {
    c.check(out.return_code == RANSAC_RETURN_CODE_INVALID_ARGUMENTS, "impossible-settings", s);
    c.check(out.iterations.empty() && out.best.consensus().empty(), "impossible-settings-result", s);
    return;
  }
  std::size_t counted = 0, failed = 0;
  bool exceeded = false, any = false;
  double best = NAN;
  for (const auto &it : out.iterations) {
    c.check(!exceeded && counted < t.iterations, "stops-in-time", s);
    std::set<Key> chosen(it.candidates.begin(), it.candidates.end());
    c.check(it.candidates.size() == t.sample && chosen.size() == t.sample, "candidates-size", s);
    for (const auto &k : chosen)
      c.check(std::find(groups.begin(), groups.end(), k) != groups.end(), "candidates-are-groups", s);
    if (!w.valid(it.candidates)) {
      ++failed;
      exceeded = failed >= t.failures;
      c.check(it.inliers.empty() && it.outliers.empty() && std::isnan(it.consensus_metric_value), "invalid-candidates-unused", s);
      continue;
    }
    ++counted;
    std::size_t others = 0;
    std::set<Key> accepted = chosen;
    for (const auto &k : groups) {
      if (chosen.count(k)) {
        c.check(!it.inliers.count(k) && !it.outliers.count(k), "candidates-apart", s);
        continue;
      }
      ++others;
      const double m = w.inlier(k, it.candidates);
      const bool in = m <= t.threshold;
      c.check(it.inliers.count(k) == (in ? 1u : 0u) && it.outliers.count(k) == (in ? 0u : 1u), "inlier-rule", s);
      if (it.inliers.count(k) + it.outliers.count(k) == 1)
        c.check(same(it.inliers.count(k) ? it.inliers.at(k) : it.outliers.at(k), m, tol), "inlier-value", s);
      if (in)
        accepted.insert(k);
    }
    c.check(it.inliers.size() + it.outliers.size() == others, "partition", s);
    const auto consensus = it.consensus();
    c.check(std::set<Key>(consensus.begin(), consensus.end()) == accepted && consensus.size() == accepted.size(), "consensus", s);
    if (consensus.size() >= t.minimum) {
      const double m = w.consensus(consensus);
      c.check(same(it.consensus_metric_value, m, tol), "consensus-value", s);
      any = true;
      if (std::isnan(best) || m < best)
        best = std::isnan(m) && !std::isnan(best) ? best : m;
    } else {
      c.check(std::isnan(it.consensus_metric_value), "consensus-too-small", s);
    }
  }
  if (exceeded) {
    c.check(out.return_code == RANSAC_RETURN_CODE_EXCEEDED_MAX_FAILED_CANDIDATES, "code-failed-candidates", s);
    return;
  }
  c.check(counted == t.iterations, "iterations", s);
  c.check(out.return_code == (any ? RANSAC_RETURN_CODE_SUCCESS : RANSAC_RETURN_CODE_NO_CONSENSUS), "code", s);
  c.check(ransac_success(out.return_code) == any, "success", s);
  if (!any) {
    c.check(out.best.consensus().empty(), "no-partial-result", s);
    return;
  }
  c.check(same(out.best.consensus_metric_value, best, tol), "best-metric", s);
  bool found = false;
  for (const auto &it : out.iterations)
    found = found || (it.candidates == out.best.candidates && equal_maps(it.inliers, out.best.inliers) && equal_maps(it.outliers, out.best.outliers) && same(it.consensus_metric_value, out.best.consensus_metric_value, 0.));
  c.check(found && !out.best.consensus().empty(), "best-is-a-try", s);
}

} // namespace

// Every draw, every answer.
MC_SCENARIO(every_answer) {
  const int n = c.range(2, mc::tiered(3, 4));
  Setting t;
  t.threshold = 1.;
  t.sample = static_cast<std::size_t>(c.range(1, n - 1));
  t.minimum = static_cast<std::size_t>(c.range(static_cast<int>(t.sample), n - 1));
  const int rich = n <= 3 ? c.choose(2) : 0;
  t.iterations = static_cast<std::size_t>(rich && n == 3 ? c.range(1, mc::tiered(1, 2)) : rich || n > 3 ? c.range(1, 2) : c.range(1, mc::tiered(2, 3)));
  t.failures = static_cast<std::size_t>(c.choose(3));
  std::vector<int> groups;
  for (int i = 0; i < n; ++i)
    groups.push_back((i * 7 + 3) % 5);
  std::string s = "groups " + std::to_string(n) + " sample " + std::to_string(t.sample) + " minimum " + std::to_string(t.minimum) + " iterations " + std::to_string(t.iterations) + " failures " + std::to_string(t.failures);

  std::map<std::vector<int>, bool> valid;
  std::map<std::vector<int>, std::map<int, double>> inlier;
  std::map<std::vector<int>, double> consensus;
  std::vector<std::vector<int>> fitted, validated;
  bool fits_valid_only = true;
  RansacFunctions<std::vector<int>, int> f(
      [&](const std::vector<int> &k) {
        fits_valid_only = fits_valid_only && valid.count(k) && valid.at(k);
        fitted.push_back(k);
        return k;
      },
      [&](const int &g, const std::vector<int> &fit) {
        auto &at = inlier[fit];
        if (!at.count(g)) {
          const int w = c.choose(rich ? 4 : 2);
          at[g] = w == 0 ? 0.5 + 0.01 * g : w == 1 ? 2. : w == 2 ? 1. : NAN;
          s += " inlier" + show(fit) + std::to_string(g) + "=" + std::to_string(at[g]);
        }
        return at[g];
      },
      [&](const std::vector<int> &k) {
        auto sorted = k;
        std::sort(sorted.begin(), sorted.end());
        if (!consensus.count(sorted)) {
          const int w = c.choose(rich ? 4 : 3);
          consensus[sorted] = w == 0 ? 1. : w == 1 ? -2. : w == 2 ? NAN : -HUGE_VAL;
          s += " consensus" + show(sorted) + "=" + std::to_string(consensus[sorted]);
        }
        return consensus[sorted];
      },
      [&](const std::vector<int> &k) {
        validated.push_back(k);
        if (!valid.count(k)) {
          valid[k] = !c.flip();
          s += (valid[k] ? " valid" : " invalid") + show(k);
        }
        return valid[k];
      });
  Draws::control(c, n, static_cast<int>(t.sample * t.iterations) + 1);
  const auto out = ransac(f, groups, t.threshold, t.sample, t.minimum, t.iterations, t.failures);
  Draws::release();
  c << s;
  c.state(s);
  c.step(out.iterations.size());
  const World<int> w{[&](const std::vector<int> &k) {
                       c.check(valid.count(k) == 1, "candidates-checked", s);
                       return valid.count(k) ? valid.at(k) : true;
                     },
                     [&](const int &g, const std::vector<int> &k) {
                       c.check(inlier.count(k) && inlier.at(k).count(g), "inlier-asked", s);
                       return inlier.count(k) && inlier.at(k).count(g) ? inlier.at(k).at(g) : NAN;
                     },
                     [&](std::vector<int> k) {
                       std::sort(k.begin(), k.end());
                       c.check(consensus.count(k) == 1, "consensus-asked", s);
                       return consensus.count(k) ? consensus.at(k) : NAN;
                     }};
  monitor(c, out, groups, t, w, s, 0.);
  c.check(fits_valid_only, "fits-valid-candidates-only", s);
  // the try which fitted is the try which is reported
  std::vector<std::vector<int>> tried, good;
  for (const auto &it : out.iterations) {
    tried.push_back(it.candidates);
    if (valid.count(it.candidates) && valid.at(it.candidates))
      good.push_back(it.candidates);
  }
  c.check(fitted == good && validated == tried, "one-fit-each", s);
}

// Many groups, many iterations: answers follow a pattern.
MC_SCENARIO(many_groups) {
  const int n = c.pick<int>({5, 8, 13}), pattern = c.choose(6);
  Setting t;
  t.threshold = 1.;
  t.sample = static_cast<std::size_t>(c.pick<int>({1, 2, 3, 4}));
  t.minimum = static_cast<std::size_t>(c.pick<int>({4, n / 2 + 1, n - 1}));
  t.iterations = c.pick<std::size_t>({1, 4, 20, 70});
  t.failures = c.pick<std::size_t>({1, 3, 40});
  c.assume(t.minimum >= t.sample);
  std::string s = "groups " + std::to_string(n) + " pattern " + std::to_string(pattern) + " threshold " + std::to_string(t.threshold) + " sample " + std::to_string(t.sample) + " minimum " + std::to_string(t.minimum) + " iterations " + std::to_string(t.iterations) + " failures " + std::to_string(t.failures);
  std::vector<int> groups;
  for (int i = 0; i < n; ++i)
    groups.push_back((i * 5 + 3) % 17 - 8);
  // a number which depends on all of them, not on their order
  const auto hash = [](const std::vector<int> &k, int salt) {
    unsigned h = 0;
    for (int g : k)
      h += static_cast<unsigned>((g + 9) * (g + 9) * 2654435761u) ^ static_cast<unsigned>((g + salt + 11) * 40503u);
    return (h >> 7) % 997u;
  };
  const World<int> w{[&](const std::vector<int> &k) { return pattern == 0 || hash(k, 1) % (pattern < 3 ? 7u : 2u) != 0; },
                     [&](const int &g, const std::vector<int> &k) { return pattern == 5 && (g + 9) % 4 == 0 ? NAN : (hash({g}, 3) + hash(k, 4)) % 5 / 2. - 0.5; },
                     [&](const std::vector<int> &k) {
                       const unsigned h = hash(k, 5);
                       return pattern == 1 ? -static_cast<double>(k.size()) : pattern == 2 ? static_cast<double>(k.size()) : pattern == 4 && h % 3 == 0 ? NAN : pattern == 3 ? -1. - h % 2 : h - 400.;
                     }};
  std::size_t fits = 0;
  RansacFunctions<std::vector<int>, int> f([&](const std::vector<int> &k) { return ++fits, k; }, w.inlier, w.consensus, w.valid);
  Draws::control(c, n, 1);
  const auto out = ransac(f, groups, t.threshold, t.sample, t.minimum, t.iterations, t.failures);
  Draws::release();
  c << s;
  c.state(s);
  c.step(out.iterations.size());
  monitor(c, out, groups, t, w, s, 0.);
  std::size_t valid = 0;
  for (const auto &it : out.iterations)
    valid += w.valid(it.candidates);
  c.check(fits == valid, "one-fit-each", s);
}

// Impossible settings are refused before anything is asked.
MC_SCENARIO(settings) {
  const int n = c.range(0, 3);
  const std::size_t far = static_cast<std::size_t>(-1);
  Setting t;
  t.threshold = c.pick<double>({NAN, 1., -HUGE_VAL});
  t.sample = c.pick<std::size_t>({0, 1, 2, 3, 4, far});
  t.minimum = c.pick<std::size_t>({0, 1, 2, 3, 4, far});
  t.iterations = c.pick<std::size_t>({0, 1, 3});
  t.failures = c.pick<std::size_t>({0, 1, 5});
  const int form = c.choose(3), valid = c.choose(2);
  const std::string s = "groups " + std::to_string(n) + " threshold " + std::to_string(t.threshold) + " sample " + std::to_string(t.sample) + " minimum " + std::to_string(t.minimum) + " iterations " + std::to_string(t.iterations) + " failures " + std::to_string(t.failures) + " form " + std::to_string(form) + " valid " + std::to_string(valid);
  c << s;
  c.state(s);
  c.step();
  std::vector<int> groups;
  GroupIndexer<int> indexer;
  for (int i = 0; i < n; ++i) {
    groups.push_back(2 * i - 1);
    indexer[2 * i - 1] = {static_cast<std::size_t>(i)};
  }
  int asked = 0;
  const World<int> w{[&](const std::vector<int> &) { return valid == 1; }, [](const int &g, const std::vector<int> &) { return 0.3 * g; }, [](const std::vector<int> &k) { return -static_cast<double>(k.size()); }};
  RansacFunctions<std::vector<int>, int> f([&](const std::vector<int> &k) { return ++asked, k; }, [&](const int &g, const std::vector<int> &k) { return ++asked, w.inlier(g, k); }, [&](const std::vector<int> &k) { return ++asked, w.consensus(k); });
  if (!valid)
    f.is_valid_candidate = [&](const std::vector<int> &k) { return ++asked, w.valid(k); };
  RansacOutput<int> out;
  if (form == 0) {
    out = ransac(f, groups, t.threshold, t.sample, t.minimum, t.iterations, t.failures);
  } else if (form == 1) {
    out = ransac(f, indexer, RansacConfig(t.threshold, t.sample, t.minimum, t.iterations, t.failures));
  } else {
    t.failures = t.iterations;
    out = ransac(f, indexer, t.threshold, t.sample, t.minimum, t.iterations);
  }
  monitor(c, out, groups, t, w, s, 0.);
  if (!possible(t, groups.size()))
    c.check(asked == 0, "impossible-settings-asked", s);
}

// Outputs are equal if all they hold is.
MC_SCENARIO(outputs_compare) {
  const auto make = [&]() {
    RansacOutput<int> o;
    const int w = c.choose(2);
    RansacIteration<int> it;
    it.candidates = {1};
    it.inliers[2] = c.pick<double>({0.5, 0.75});
    it.outliers[3] = c.pick<double>({2., 4.});
    it.consensus_metric_value = c.pick<double>({NAN, 1.});
    o.iterations.push_back(it);
    if (w)
      o.best = it;
    o.return_code = c.flip() ? RANSAC_RETURN_CODE_SUCCESS : RANSAC_RETURN_CODE_FAILURE;
    return o;
  };
  const auto text = [](const RansacOutput<int> &o) {
    std::stringstream s;
    s << o;
    std::string t = s.str();
    std::replace(t.begin(), t.end(), '\n', ' ');
    return t;
  };
  const auto a = make(), b = make();
  const std::string s = text(a) + " against " + text(b);
  c << s;
  c.state(s);
  c.step();
  c.check((a == b) == (text(a) == text(b)), "output-equality", s);
  RansacOutput<int> only_best = a;
  only_best.best = b.best;
  c.check((a == only_best) == (a.best == b.best), "output-equality-of-best", s);
  std::set<std::string> names;
  for (int k = -1; k <= 4; ++k)
    names.insert(to_string(static_cast<ransac_return_code_t>(k)));
  c.check(names.size() == 6, "code-names", s);
}

// The strategies on real models.
namespace {

using SE = SquaredExponential<EuclideanDistance>;
struct Offset : public MeanFunction<Offset> {
  ALBATROSS_DECLARE_PARAMS(level)
  Offset() { level = {0.5, FixedPrior()}; }
  double _call_impl(const double &x) const { return level.value + 0.25 * x; }
};
law::Real kernel(const law::Term &a, const law::Term &b) {
  const law::Real d = (static_cast<law::Real>(a.x) - b.x) / 1.5L;
  return 4.L * std::exp(-d * d) + (a.x == b.x ? 0.25L : 0.L);
}
law::Real offset(const law::Term &t) { return 0.5L + 0.25L * t.x; }

struct Problem {
  RegressionDataset<double> data;
  std::map<std::string, std::vector<std::size_t>> groups;
  std::string text;
};
std::string by_name(const double &x) { return x < -0.75 ? "z" : x < 0.75 ? "b" : x < 2.5 ? "a" : "k"; }
Problem problem(mc::Ctx &c, int n) {
  Problem p;
  const int noise = c.choose(2), outlier = n > 5 ? c.pick<int>({-1, 2, n - 1}) : c.choose(n + 1) - 1;
  const double at[] = {0., 1., 2., 3., -1., 0.4, -2., 1.6, 4.5, 2.2, -0.9};
  std::vector<double> x;
  Eigen::VectorXd y(n), v(n);
  for (int i = 0; i < n; ++i) {
    x.push_back(at[i]);
    y[i] = 1. + 0.5 * std::sin(at[i]) + (i == outlier ? 6. : 0.);
    v[i] = noise ? 0.2 + 0.1 * i : 0.;
  }
  p.data = RegressionDataset<double>(x, MarginalDistribution(y, v));
  p.text = "points " + std::to_string(n) + " noise " + std::to_string(noise) + " outlier " + std::to_string(outlier);
  return p;
}
law::Gaussian prior_of(const RegressionDataset<double> &d) {
  std::vector<law::Feature> f;
  for (double x : d.features)
    f.push_back({{1., x, false}});
  return {law::mean(offset, f), law::cov(kernel, f, f)};
}
template <typename Key> std::vector<std::size_t> indices(const std::map<Key, std::vector<std::size_t>> &groups, const std::vector<Key> &keys) {
  std::vector<std::size_t> out;
  for (const auto &k : keys)
    out.insert(out.end(), groups.at(k).begin(), groups.at(k).end());
  return out;
}
struct Part {
  law::Gaussian g;
  law::Vec y;
};
Part part(const law::Gaussian &z, const RegressionDataset<double> &d, const std::vector<std::size_t> &at, bool noise) {
  const auto n = static_cast<Eigen::Index>(at.size());
  Part p;
  p.g.mean.resize(n);
  p.g.cov.resize(n, n);
  p.y.resize(n);
  for (Eigen::Index i = 0; i < n; ++i) {
    const auto a = static_cast<Eigen::Index>(at[static_cast<std::size_t>(i)]);
    p.g.mean[i] = z.mean[a];
    p.y[i] = d.targets.mean[a];
    for (Eigen::Index j = 0; j < n; ++j)
      p.g.cov(i, j) = z.cov(a, static_cast<Eigen::Index>(at[static_cast<std::size_t>(j)]));
    if (noise)
      p.g.cov(i, i) += d.targets.covariance.diagonal()[a];
  }
  return p;
}
// the law of everything given some
law::Gaussian given(const law::Gaussian &z, const RegressionDataset<double> &d, const std::vector<std::size_t> &at) {
  const Part p = part(z, d, at, false);
  law::Mat noise = law::Mat::Zero(p.y.size(), p.y.size());
  for (Eigen::Index i = 0; i < p.y.size(); ++i)
    noise(i, i) = d.targets.covariance.diagonal()[static_cast<Eigen::Index>(at[static_cast<std::size_t>(i)])];
  return law::condition(z, at, p.y, noise);
}
law::Real squared(const Part &p) {
  const law::Vec e = p.y - p.g.mean;
  return e.dot(law::Vec(law::solve(p.g.cov, law::Mat(e))));
}
const double PI = 3.14159265358979323846;
double entropy(const Part &p) { return static_cast<double>(-law::log_density(law::Vec::Zero(p.y.size()), p.g.cov)) + 0.5 * static_cast<double>(p.y.size()); }

// Everything about one strategy: the functions it makes, what they answer, the
// fit of the wrapped model.
template <typename Model, typename Strategy, typename Key> void check_strategy(mc::Ctx &c, const Model &model, const std::function<Strategy()> &make, const Problem &p, const std::map<Key, std::vector<std::size_t>> &groups, const Setting &t, const World<Key> &w, const std::string &s) {
  const auto &d = p.data;
  std::vector<Key> keys;
  for (const auto &g : groups)
    keys.push_back(g.first);
  const auto indexer = make().get_indexer(d);
  c.check(indexer.size() == groups.size(), "strategy-groups", s);
  for (const auto &g : groups)
    c.check(indexer.at(g.first) == g.second, "strategy-groups", s);
  const int n = static_cast<int>(groups.size());
  if (c.flip()) {
    // the strategy is gone when its functions are used
    auto f = make()(model, d);
    Draws::control(c, n, static_cast<int>(t.sample * t.iterations));
    const auto out = ransac(f, indexer, RansacConfig(t.threshold, t.sample, t.minimum, t.iterations, t.failures));
    Draws::release();
    c << s;
    c.step(out.iterations.size());
    monitor(c, out, keys, t, w, s, 1e-7);
    return;
  }
  auto wrapped = model.ransac(make(), RansacConfig(t.threshold, t.sample, t.minimum, t.iterations, t.failures));
  Draws::control(c, n, static_cast<int>(t.sample * t.iterations));
  const auto fit = wrapped.fit(d);
  Draws::release();
  c << s;
  c.step();
  const auto &inner = fit.get_fit();
  const auto &out = inner.ransac_output;
  monitor(c, out, keys, t, w, s, 1e-7);
  c.check(inner.has_fit_model() == ransac_success(out.return_code), "fits-on-success-only", s);
  const std::vector<double> test = {-0.5, 1., 4.};
  if (!ransac_success(out.return_code)) {
    c.check(mc::dies([&]() { fit.predict(test).mean(); }), "failed-fit-refuses", s);
    return;
  }
  const auto at = indices(groups, out.best.consensus());
  const auto want = model.fit(d.subset(at)).predict(test).joint();
  const auto got = fit.predict(test).joint();
  c.check((got.mean - want.mean).cwiseAbs().maxCoeff() < 1e-9 && (got.covariance - want.covariance).cwiseAbs().maxCoeff() < 1e-9, "fit-of-consensus", s);
  c.check((fit.predict(test).mean() - want.mean).cwiseAbs().maxCoeff() < 1e-9, "fit-of-consensus-mean", s);
  const Eigen::VectorXd v = fit.predict(test).marginal().covariance.diagonal();
  c.check((v - want.covariance.diagonal()).cwiseAbs().maxCoeff() < 1e-9, "fit-of-consensus-marginal", s);
  // parameters go through to the model
  c.check(wrapped.get_params() == model.get_params(), "parameters", s);
  const auto name = model.get_params().begin()->first;
  wrapped.set_param_value(name, 0.875);
  auto other = model;
  other.set_param_value(name, 0.875);
  c.check(wrapped.get_params() == other.get_params(), "set-parameters", s);
}

Setting setting(mc::Ctx &c, std::size_t groups, bool may_fail) {
  Setting t;
  t.threshold = c.pick<double>({1.5, 3., -HUGE_VAL});
  t.sample = static_cast<std::size_t>(c.range(1, std::min(2, static_cast<int>(groups) - 1)));
  t.minimum = c.flip() ? t.sample : groups - 1;
  t.iterations = t.sample == 2 ? 1 : static_cast<std::size_t>(c.range(1, 2));
  t.failures = may_fail ? static_cast<std::size_t>(c.range(1, 2)) : 1;
  return t;
}
std::string text(const Setting &t) { return " threshold " + std::to_string(t.threshold) + " sample " + std::to_string(t.sample) + " minimum " + std::to_string(t.minimum) + " iterations " + std::to_string(t.iterations) + " failures " + std::to_string(t.failures); }
auto model() {
  IndependentNoise<double> noise(0.5);
  return gp_from_covariance_and_mean(SE(1.5, 2.) + noise, Offset(), "gp");
}

template <typename Key> World<Key> generic_world(const Problem &p, const std::map<Key, std::vector<std::size_t>> &groups) {
  const auto z = prior_of(p.data);
  return World<Key>{[](const std::vector<Key> &) { return true; },
                    [=](const Key &k, const std::vector<Key> &fit) {
                      const Part q = part(given(z, p.data, indices(groups, fit)), p.data, groups.at(k), true);
                      return static_cast<double>(-law::log_density(law::Vec(q.y - q.g.mean), q.g.cov));
                    },
                    [=](const std::vector<Key> &k) { return LeaveOneOutLikelihood<JointDistribution>()(p.data.subset(indices(groups, k)), model()); }};
}

} // namespace

MC_SCENARIO(generic_strategy) {
  const int grouped = c.choose(2);
  Problem p = problem(c, grouped ? 5 : mc::tiered(3, 4));
  std::map<std::size_t, std::vector<std::size_t>> alone;
  std::map<std::string, std::vector<std::size_t>> named;
  for (std::size_t i = 0; i < p.data.size(); ++i) {
    alone[i] = {i};
    named[by_name(p.data.features[i])].push_back(i);
  }
  const Setting t = setting(c, grouped ? named.size() : alone.size(), false);
  const std::string s = p.text + (grouped ? " by name" : " one by one") + text(t);
  c.state(s);
  if (grouped) {
    using S = decltype(get_generic_ransac_strategy(NegativeLogLikelihood<JointDistribution>(), LeaveOneOutLikelihood<>(), by_name));
    check_strategy<decltype(model()), S, std::string>(
        c, model(), []() { return get_generic_ransac_strategy(NegativeLogLikelihood<JointDistribution>(), LeaveOneOutLikelihood<>(), by_name); }, p, named, t, generic_world(p, named), s);
  } else {
    check_strategy<decltype(model()), DefaultRansacStrategy, std::size_t>(
        c, model(), []() { return DefaultRansacStrategy(); }, p, alone, t, generic_world(p, alone), s);
  }
}

namespace {
void gp_strategy(mc::Ctx &c, int which, const Problem &p) {
  const bool grouped = which != 0;
  std::map<std::size_t, std::vector<std::size_t>> alone;
  std::map<std::string, std::vector<std::size_t>> named;
  for (std::size_t i = 0; i < p.data.size(); ++i) {
    alone[i] = {i};
    named[by_name(p.data.features[i])].push_back(i);
  }
  const Setting t = setting(c, grouped ? named.size() : alone.size(), which == 3);
  const std::string s = p.text + " strategy " + std::to_string(which) + text(t);
  c.state(s);
  const auto z = prior_of(p.data);
  const auto nll = [=](const std::vector<std::size_t> &fit, const std::vector<std::size_t> &k) {
    const Part q = part(given(z, p.data, fit), p.data, k, true);
    return static_cast<double>(-law::log_density(law::Vec(q.y - q.g.mean), q.g.cov));
  };
  const auto probability = [=](const std::vector<std::size_t> &at) { return chi_squared_cdf(static_cast<double>(squared(part(z, p.data, at, true))), at.size()); };
  if (!grouped) {
    const World<std::size_t> w{[](const std::vector<std::size_t> &) { return true; }, [&](const std::size_t &k, const std::vector<std::size_t> &fit) { return nll(fit, {k}); }, [](const std::vector<std::size_t> &k) { return -static_cast<double>(k.size()); }};
    check_strategy<decltype(model()), DefaultGPRansacStrategy, std::size_t>(
        c, model(), []() { return DefaultGPRansacStrategy(); }, p, alone, t, w, s);
    return;
  }
  World<std::string> w;
  w.inlier = [&](const std::string &k, const std::vector<std::string> &fit) { return nll(indices(named, fit), named.at(k)); };
  w.valid = [](const std::vector<std::string> &) { return true; };
  if (which == 1) {
    w.consensus = [&](const std::vector<std::string> &k) { return entropy(part(z, p.data, indices(named, k), false)); };
    using S = GaussianProcessRansacStrategy<NegativeLogLikelihood<JointDistribution>, DifferentialEntropyConsensusMetric, AlwaysAcceptCandidateMetric, decltype(&by_name)>;
    check_strategy<decltype(model()), S, std::string>(
        c, model(), []() {
          auto grouper = &by_name;
          return gp_ransac_strategy(NegativeLogLikelihood<JointDistribution>(), DifferentialEntropyConsensusMetric(), grouper);
        },
        p, named, t, w, s);
  } else {
    w.consensus = [&](const std::vector<std::string> &k) { return probability(indices(named, k)); };
    if (which == 2) {
      using S = GaussianProcessRansacStrategy<NegativeLogLikelihood<JointDistribution>, ChiSquaredConsensusMetric, AlwaysAcceptCandidateMetric, decltype(&by_name)>;
      check_strategy<decltype(model()), S, std::string>(
          c, model(), []() { return S(NegativeLogLikelihood<JointDistribution>(), ChiSquaredConsensusMetric(), AlwaysAcceptCandidateMetric(), by_name); }, p, named, t, w, s);
    } else {
      const double threshold = 0.6;
      w.valid = [&](const std::vector<std::string> &k) { return probability(indices(named, k)) <= threshold; };
      using S = GaussianProcessRansacStrategy<NegativeLogLikelihood<JointDistribution>, ChiSquaredConsensusMetric, ChiSquaredIsValidCandidateMetric, decltype(&by_name)>;
      check_strategy<decltype(model()), S, std::string>(
          c, model(), [=]() { return gp_ransac_strategy(NegativeLogLikelihood<JointDistribution>(), ChiSquaredConsensusMetric(), ChiSquaredIsValidCandidateMetric(threshold), &by_name); }, p, named, t, w, s);
    }
  }
}
} // namespace

MC_SCENARIO(gp_strategies) {
  const int which = c.choose(4);
  gp_strategy(c, which, problem(c, which ? 5 : mc::tiered(3, 4)));
}
// More data in the groups.
MC_SCENARIO(large_gp_strategies) {
  const int which = c.range(1, 3);
  gp_strategy(c, which, problem(c, 11));
}

// A metric which holds something (and dies before it is used).
MC_SCENARIO(metrics_are_kept) {
  Problem p = problem(c, 4);
  std::map<std::size_t, std::vector<std::size_t>> alone;
  for (std::size_t i = 0; i < p.data.size(); ++i)
    alone[i] = {i};
  const GroupIndexer<std::size_t> indexer(alone);
  const auto z = prior_of(p.data);
  const double threshold = c.pick<double>({0.2, 0.9});
  const Setting t{2., 1, 2, 2, 2};
  const std::string s = p.text + " threshold " + std::to_string(threshold);
  c << s;
  c.state(s);
  const auto make = [&]() {
    const auto valid = std::make_unique<ChiSquaredIsValidCandidateMetric>(threshold);
    const auto inlier = std::make_unique<NegativeLogLikelihood<JointDistribution>>();
    const auto consensus = std::make_unique<ChiSquaredConsensusMetric>();
    return get_gp_ransac_functions(model().prior(p.data.features), p.data.targets, indexer, *inlier, *consensus, *valid);
  };
  const auto f = make();
  Draws::control(c, 4, 2);
  const auto out = ransac(f, indexer, RansacConfig(t.threshold, t.sample, t.minimum, t.iterations, t.failures));
  Draws::release();
  c.step(out.iterations.size());
  const auto probability = [=](const std::vector<std::size_t> &at) { return chi_squared_cdf(static_cast<double>(squared(part(z, p.data, at, true))), at.size()); };
  const World<std::size_t> w{[&](const std::vector<std::size_t> &k) { return probability(k) <= threshold; },
                             [&](const std::size_t &k, const std::vector<std::size_t> &fit) {
                               const Part q = part(given(z, p.data, fit), p.data, {k}, true);
                               return static_cast<double>(-law::log_density(law::Vec(q.y - q.g.mean), q.g.cov));
                             },
                             probability};
  monitor(c, out, std::vector<std::size_t>{0, 1, 2, 3}, t, w, s, 1e-7);
}
