// C28: the ensemble sampler under every sequence of draws and answers. (Both
// sources of this check include the samplers, so it links only if they may be
// included twice.)
#include "draws.h"

#include <albatross/GP>
#include <albatross/Samplers>

#include <cmath>
#include <functional>
#include <limits>
#include <sstream>

#include "mc.h"

using namespace albatross;

namespace {

const double INF = std::numeric_limits<double>::infinity();
using Point = std::vector<double>;

std::string show(const Point &v) {
  std::ostringstream s;
  s.precision(10);
  s << "(";
  for (std::size_t i = 0; i < v.size(); ++i)
    s << (i ? " " : "") << v[i];
  s << ")";
  return s.str();
}
std::string show(const EnsembleSamplerState &e) {
  std::string s;
  for (const auto &x : e)
    s += show(x.params) + (x.accepted ? "+" : "-") + std::to_string(x.log_prob) + " ";
  return s;
}
bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }

// Log probabilities are choices, once for every point.
struct Adversary {
  mc::Ctx *c;
  std::vector<double> outcomes;
  int budget;
  std::vector<std::pair<Point, double>> calls;
  double operator()(const Point &p) {
    for (const auto &x : calls)
      if (x.first.size() == p.size() && std::equal(p.begin(), p.end(), x.first.begin(), same))
        return x.second;
    double v = outcomes[0];
    if (static_cast<int>(calls.size()) < budget)
      v = outcomes[static_cast<std::size_t>(c->choose(static_cast<int>(outcomes.size())))];
    calls.push_back({p, v});
    return v;
  }
  bool gave(const Point &p, double v) const {
    for (const auto &x : calls)
      if (x.first == p)
        return same(x.second, v);
    return false;
  }
};

// Did `before` of walker k become `after` by a stretch about another walker?
bool stretched(const EnsembleSamplerState &before, const EnsembleSamplerState &after, std::size_t k, double a) {
  const Point &x = before[k].params, &y = after[k].params;
  for (std::size_t j = 0; j < before.size(); ++j) {
    if (j == k)
      continue;
    for (const Point &o : {before[j].params, after[j].params}) {
      bool fits = true;
      double z = 0.;
      for (std::size_t i = 0; i < x.size(); ++i)
        if (x[i] != o[i]) {
          const double zi = (y[i] - o[i]) / (x[i] - o[i]);
          if (z == 0.)
            z = zi;
          fits = fits && zi >= 1. / a - 1e-9 && zi <= a + 1e-9 && std::abs(zi - z) < 1e-6;
        } else {
          // nudged, or walkers which agree could never part
          fits = fits && y[i] != o[i] && std::abs(y[i] - o[i]) <= a * 1e-6 * (1. + 1e-6);
        }
      if (fits)
        return true;
    }
  }
  return false;
}

EnsembleSamplerState begin(mc::Ctx &c, int n, int dim) {
  EnsembleSamplerState out;
  const int kind = c.choose(3); // apart / some equal coordinates / all the same
  for (int i = 0; i < n; ++i) {
    Point p;
    for (int d = 0; d < dim; ++d)
      p.push_back(kind == 2 ? 0.5 : kind == 1 && (d == 1 || i == 1) ? 1. : 1.5 * i * i - d * i - 1.);
    out.push_back({p, 0., true});
  }
  return out;
}

void judge_step(mc::Ctx &c, const EnsembleSamplerState &before, const EnsembleSamplerState &after, const Adversary &a, const std::string &what) {
  c.check(after.size() == before.size(), "number-of-walkers-changes", what);
  for (std::size_t k = 0; k < before.size(); ++k) {
    const std::string who = what + ", walker " + std::to_string(k) + ": " + show({before[k]}) + "to " + show({after[k]});
    c.check(after[k].params.size() == before[k].params.size(), "dimension-of-walkers-changes", who);
    c.check(std::isfinite(after[k].log_prob), "walker-at-impossible-point", who);
    if (!after[k].accepted) {
      c.check(after[k].params == before[k].params && after[k].log_prob == before[k].log_prob, "rejected-walker-moves", who);
      continue;
    }
    c.check(a.gave(after[k].params, after[k].log_prob), "walker-has-another-log-probability", who);
    c.check(stretched(before, after, k, 2.), "walker-leaves-the-line-through-another", who);
  }
}

} // namespace

// One step, every sequence of draws and answers.
MC_SCENARIO(steps) {
  Draws::release();
  const int n = c.range(2, mc::tiered(3, 4)), dim = c.range(1, 2);
  EnsembleSamplerState e = begin(c, n, dim);
  c << n << " walkers " << show(e);
  for (auto &s : e)
    s.log_prob = c.pick<double>({0., -2.});
  Adversary a{&c, {-0.5, 3., -INF, std::nan(""), INF, -700.}, n, {}};
  Draws::control(c, 2, mc::tiered(7, 8));
  std::default_random_engine gen(1);
  const auto next = stretch_move_step(e, std::ref(a), gen);
  Draws::release();
  judge_step(c, e, next, a, "step");
  // what has to happen whatever is drawn
  for (std::size_t k = 0; k < e.size(); ++k)
    if (next[k].accepted)
      c.check(next[k].log_prob > -600., "hopeless-proposal-accepted", show(next));
  c.check(!a.calls.empty() && a.calls.size() <= e.size(), "another-number-of-proposals", std::to_string(a.calls.size()));
  c.state(show(e) + show(next));
}

// The law of a step: over all sequences of draws the next states are distributed
// as stretch moves of one half after the other are.
MC_SCENARIO(law) {
  Draws::release();
  const int n = c.range(2, 4), dim = c.pick<int>({1, 2, 3, 8});
  const int splits = n == 3 ? c.pick<int>({2, 3}) : 2;
  const int parts = n == 2 ? 6 : n == 3 ? 4 : 2;
  const double scale = c.pick<double>({1., 0.3});
  const bool wall = c.flip(); // no probability beyond
  const double a = c.pick<double>({2., 1.5});
  const int arrangement = c.choose(2);
  c << n << " walkers in " << dim << ", " << splits << " splits, scale " << scale << (wall ? ", wall" : "") << ", a " << a << ", arrangement " << arrangement;
  const auto log_prob = [&](const Point &p) {
    double s = 0.;
    for (double x : p) {
      if (wall && x > 2.3)
        return -INF;
      s -= 0.5 * x * x / (scale * scale);
    }
    return s;
  };
  EnsembleSamplerState e;
  for (int i = 0; i < n; ++i) {
    Point p;
    for (int d = 0; d < dim; ++d)
      p.push_back(arrangement == 0 ? 0.7 * i - 0.45 * d - 0.6 : 0.3 + 0.41 * ((i * 3 + d * 2) % 5));
    e.push_back({p, log_prob(p), true});
  }
  using Law = std::map<std::string, double>;
  const auto key = [](const EnsembleSamplerState &s) {
    std::string k;
    char b[64];
    for (const auto &w : s) {
      k += w.accepted ? "+" : "-";
      for (double x : w.params) {
        snprintf(b, sizeof b, " %.7f", x + 1e-12);
        k += b;
      }
    }
    return k;
  };
  // all draws
  Law got;
  std::vector<int> script(static_cast<std::size_t>(3 * n), 0);
  double total = 0.;
  while (true) {
    Draws::follow(script, parts);
    std::default_random_engine gen(1);
    const auto next = stretch_move_step(e, log_prob, gen, static_cast<std::size_t>(splits), a);
    c.check(!Draws::ran_out(), "step-draws-more-than-three-numbers-a-walker", std::to_string(Draws::now().used));
    got[key(next)] += 1.;
    total += 1.;
    std::size_t i = 0;
    while (i < script.size() && ++script[i] == parts)
      script[i++] = 0;
    if (i == script.size())
      break;
  }
  Draws::release();
  // the stretch move, written down again
  Law want;
  std::vector<std::vector<std::size_t>> halves;
  for (const auto &h : split_indices(static_cast<std::size_t>(n), static_cast<std::size_t>(splits)))
    halves.push_back(h);
  std::vector<std::pair<std::size_t, std::vector<std::size_t>>> order; // walker, partners
  std::set<std::size_t> all;
  for (const auto &h : halves)
    for (std::size_t k : h) {
      std::vector<std::size_t> others;
      for (std::size_t j = 0; j < static_cast<std::size_t>(n); ++j)
        if (std::count(h.begin(), h.end(), j) == 0)
          others.push_back(j);
      order.push_back({k, others});
      all.insert(k);
    }
  c.check(halves.size() == static_cast<std::size_t>(splits) && all.size() == static_cast<std::size_t>(n) && order.size() == static_cast<std::size_t>(n), "walkers-are-not-split-in-two", "");
  std::function<void(std::size_t, EnsembleSamplerState, double)> walk = [&](std::size_t at, EnsembleSamplerState s, double weight) {
    if (at == order.size()) {
      want[key(s)] += weight;
      return;
    }
    const std::size_t k = order[at].first;
    for (std::size_t j : order[at].second)
      for (int p = 0; p < parts; ++p) {
        const double u = (2 * p + 1) / (2. * parts);
        const double z = std::pow((a - 1.) * u + 1., 2) / a;
        Point y;
        for (std::size_t i = 0; i < s[k].params.size(); ++i)
          y.push_back(s[j].params[i] + z * (s[k].params[i] - s[j].params[i]));
        const double lp = log_prob(y);
        const double ratio = std::isfinite(lp) ? std::pow(z, dim - 1) * std::exp(lp - s[k].log_prob) : 0.;
        int accepted = 0;
        for (int q = 0; q < parts; ++q)
          if ((2 * q + 1) / (2. * parts) < ratio)
            ++accepted;
        const double w = weight / static_cast<double>(order[at].second.size()) / parts;
        if (accepted) {
          EnsembleSamplerState t(s);
          t[k] = {y, lp, true};
          walk(at + 1, t, w * accepted / parts);
        }
        if (accepted < parts) {
          EnsembleSamplerState t(s);
          t[k].accepted = false;
          walk(at + 1, t, w * (parts - accepted) / parts);
        }
      }
  };
  walk(0, e, 1.);
  for (const auto &w : want)
    c.close(got.count(w.first) ? got[w.first] / total : 0., w.second, "law-of-the-stretch-move", "state " + w.first, 1e-12, 1e-9);
  for (const auto &g : got)
    c.check(want.count(g.first) > 0, "law-of-the-stretch-move", "state " + g.first + " comes with " + std::to_string(g.second / total) + " but never should");
  c.state(std::to_string(n) + std::to_string(dim) + "/" + std::to_string(splits) + std::to_string(scale) + std::to_string(wall) + std::to_string(a) + std::to_string(arrangement));
}

namespace {
struct Recorder {
  std::vector<std::pair<std::size_t, EnsembleSamplerState>> *seen;
  void operator()(std::size_t i, const EnsembleSamplerState &e) { seen->push_back({i, e}); }
};
bool equal(const EnsembleSamplerState &a, const EnsembleSamplerState &b) {
  if (a.size() != b.size())
    return false;
  for (std::size_t i = 0; i < a.size(); ++i)
    if (a[i].params != b[i].params || !same(a[i].log_prob, b[i].log_prob) || a[i].accepted != b[i].accepted)
      return false;
  return true;
}
} // namespace

// Whole runs: impossible initial walkers are replaced by points (of the box) between
// possible ones, the others stay; every state is recorded and called back.
MC_SCENARIO(runs) {
  Draws::release();
  const int n = c.range(3, mc::tiered(4, 5)), dim = c.range(1, 2), iterations = c.range(0, 2);
  EnsembleSamplerState e = begin(c, n, dim);
  int finite = 0;
  std::vector<bool> good;
  for (auto &s : e) {
    const int kind = c.choose(4);
    if (kind == 1)
      s.log_prob = std::nan("");
    else if (kind == 2)
      s.log_prob = -INF;
    else if (kind == 3)
      s.params.back() = INF;
    good.push_back(kind == 0);
    finite += kind == 0;
  }
  c.assume(finite >= 3);
  const bool by_params = c.flip();
  c << n << " walkers, " << iterations << " iterations, " << show(e) << (by_params ? "by parameters" : "by states");
  if (by_params)
    for (const auto &s : e)
      c.assume(s.params.back() != INF);
  Adversary a{&c, {-0.5, -INF, std::nan("")}, 0, {}};
  // the states' own answers
  for (std::size_t i = 0; i < e.size(); ++i)
    for (std::size_t j = 0; j < i; ++j)
      c.assume(e[i].params != e[j].params || same(e[i].log_prob, e[j].log_prob));
  for (const auto &s : e)
    a.calls.push_back({s.params, s.log_prob});
  a.budget = static_cast<int>(a.calls.size()) + 2;
  std::vector<std::pair<std::size_t, EnsembleSamplerState>> seen;
  Draws::control(c, 3, mc::tiered(2, 4));
  std::default_random_engine gen(1);
  std::vector<EnsembleSamplerState> out;
  if (by_params) {
    std::vector<Point> points;
    for (const auto &s : e)
      points.push_back(s.params);
    // temporary functions which own something
    out = ensemble_sampler(std::function<double(const Point &)>(std::ref(a)), points, static_cast<std::size_t>(iterations), gen, Recorder{&seen});
  } else {
    Recorder r{&seen};
    out = ensemble_sampler(a, e, static_cast<std::size_t>(iterations), gen, r);
  }
  Draws::release();
  c.check(out.size() == static_cast<std::size_t>(iterations) + 1, "sampler-records-another-number-of-states", std::to_string(out.size()));
  c.check(seen.size() == out.size(), "callback-called-another-number-of-times", std::to_string(seen.size()));
  for (std::size_t i = 0; i < out.size(); ++i)
    c.check(seen[i].first == i && equal(seen[i].second, out[i]), "callback-got-another-state", std::to_string(i));
  // the beginning
  c.check(out[0].size() == e.size(), "number-of-walkers-changes", "initially");
  std::vector<bool> used(e.size(), false);
  for (std::size_t i = 0; i < e.size(); ++i) {
    if (!good[i])
      continue;
    bool there = false;
    for (std::size_t j = 0; j < out[0].size() && !there; ++j)
      if (!used[j] && out[0][j].params == e[i].params && out[0][j].log_prob == e[i].log_prob)
        there = used[j] = true;
    c.check(there, "possible-walker-is-lost", show({e[i]}));
  }
  for (std::size_t j = 0; j < out[0].size(); ++j) {
    c.check(std::isfinite(out[0][j].log_prob), "walker-at-impossible-point", "initially " + show(out[0]));
    if (used[j])
      continue;
    c.check(a.gave(out[0][j].params, out[0][j].log_prob), "walker-has-another-log-probability", "initially " + show({out[0][j]}));
    bool between = false;
    for (std::size_t p = 0; p < out[0].size(); ++p)
      for (std::size_t q = 0; q < out[0].size(); ++q) {
        if (p == q || p == j || q == j)
          continue;
        bool fits = true;
        for (std::size_t i = 0; i < out[0][j].params.size(); ++i) {
          const double x = out[0][p].params[i], y = out[0][q].params[i], z = out[0][j].params[i];
          if (x == y) {
            fits = fits && std::abs(z - x) < 1e-12;
          } else {
            const double ti = (z - x) / (y - x);
            fits = fits && ti >= -1e-12 && ti <= 1. + 1e-12;
          }
        }
        between = between || fits;
      }
    c.check(between, "replaced-walker-is-not-between-others", show(out[0]));
  }
  for (std::size_t i = 1; i < out.size(); ++i)
    judge_step(c, out[i - 1], out[i], a, "iteration " + std::to_string(i));
  c.state(show(e) + show(out.back()) + std::to_string(iterations));
}

// Functions which own memory, passed in every way, work in every iteration.
MC_SCENARIO(functions) {
  Draws::release();
  const int how = c.choose(5), iterations = c.range(0, 4);
  const bool by_params = c.flip();
  c << "function passed as " << how << ", " << iterations << " iterations";
  std::vector<double> owned(5, 0.25);
  int calls = 0;
  auto f = [owned, &calls](const Point &p) {
    ++calls;
    if (owned.size() != 5)
      throw std::logic_error("moved from");
    double s = 0.;
    for (double x : p)
      s -= x * x * owned[1];
    return s;
  };
  const auto g = f;
  EnsembleSamplerState e;
  std::vector<Point> points;
  for (int i = 0; i < 4; ++i) {
    points.push_back({0.3 * i, 1. - i * i});
    e.push_back({points.back(), g(points.back()), true});
  }
  std::default_random_engine gen(5);
  const std::size_t it = static_cast<std::size_t>(iterations);
  std::vector<EnsembleSamplerState> out;
  std::string problem;
  try {
    if (by_params)
      out = how == 0 ? ensemble_sampler(f, points, it, gen) : how == 1 ? ensemble_sampler(g, points, it, gen) : how == 2 ? ensemble_sampler(std::move(f), points, it, gen) : how == 3 ? ensemble_sampler(std::function<double(const Point &)>(g), points, it, gen) : ensemble_sampler(decltype(f)(g), points, it, gen, [owned](std::size_t, const EnsembleSamplerState &) {});
    else
      out = how == 0 ? ensemble_sampler(f, e, it, gen) : how == 1 ? ensemble_sampler(g, e, it, gen) : how == 2 ? ensemble_sampler(std::move(f), e, it, gen) : how == 3 ? ensemble_sampler(std::function<double(const Point &)>(g), e, it, gen) : ensemble_sampler(decltype(f)(g), e, it, gen, [owned](std::size_t, const EnsembleSamplerState &) {});
  } catch (const std::exception &x) {
    problem = x.what();
  }
  c.check(problem.empty(), "sampler-function-is-lost", problem);
  for (const auto &s : out)
    for (const auto &w : s)
      c.close(w.log_prob, g(w.params), "walker-has-another-log-probability", show(w.params), 1e-12, 1e-12);
  c.state(std::to_string(how) + std::to_string(iterations) + std::to_string(by_params));
}

namespace {
class Answer : public CovarianceFunction<Answer> {
public:
  Answer() {}
  ALBATROSS_DECLARE_PARAMS(level, floor, free);
  std::string name() const { return "answer"; }
  double _call_impl(const int &x, const int &y) const {
    return level.value / (1. + std::abs(x - y)) + (x == y ? floor.value + 0.5 : 0.) + 0. * free.value;
  }
};
} // namespace

// Sampling a model: walkers start at its parameters and jitter, log
// probabilities are its log likelihoods, the callbacks record the states, and a
// run written as CSV restarts where it ended.
MC_SCENARIO(models) {
  Draws::release();
  Answer k;
  k.level = {2., LogScaleUniformPrior(1e-3, 1e2)};
  const int kind = c.choose(4);
  k.floor = kind == 0 ? Parameter{1., NonNegativePrior()} : kind == 1 ? Parameter{1., FixedPrior()} : kind == 2 ? Parameter{1e-9, LogScaleUniformPrior(1e-12, 1e-6)} : Parameter{3., UniformPrior(1., 3.)};
  k.free = {-123456.75, UninformativePrior()};
  auto model = gp_from_covariance(k, "m");
  const auto params = model.get_params();
  const std::size_t walkers = static_cast<std::size_t>(c.pick<int>({0, 7, 9}));
  const std::size_t iterations = static_cast<std::size_t>(c.range(0, 2));
  c << "parameter kind " << kind << ", " << walkers << " walkers, " << iterations << " iterations";
  const std::vector<int> features = {1, 2, 4};
  Eigen::VectorXd y(3);
  y << 1., -0.5, 2.;
  const RegressionDataset<int> data(features, MarginalDistribution(y));
  const auto tunable = get_tunable_parameters(params);
  const std::size_t expected = std::max(walkers, 2 * params.size() + 1);

  // the beginning
  {
    std::default_random_engine gen(3);
    std::normal_distribution<double> jitter(0., 0.1);
    const auto initial = initial_params_from_jitter(params, jitter, gen, walkers);
    c.check(initial.size() == expected, "jitter-gives-another-number-of-walkers", std::to_string(initial.size()));
    c.check(initial[0] == tunable.values, "jitter-loses-the-parameters", show(initial[0]));
    std::set<Point> different(initial.begin(), initial.end());
    c.check(different.size() == initial.size(), "jittered-walkers-coincide", std::to_string(different.size()));
    for (const auto &p : initial) {
      c.check(p.size() == tunable.values.size(), "dimension-of-walkers-changes", "jitter");
      for (std::size_t i = 0; i < p.size(); ++i)
        c.check(std::abs(p[i] - tunable.values[i]) < 1., "jitter-is-not-small", show(p));
    }
  }
  const auto likelihood = [&](const Point &p) {
    auto m = model;
    m.set_tunable_params_values(p);
    return m.log_likelihood(data);
  };
  Draws::control(c, 3, mc::tiered(2, 4));
  std::default_random_engine gen(3);
  const auto text = std::make_shared<std::ostringstream>();
  const auto best_text = std::make_shared<std::ostringstream>();
  std::shared_ptr<std::ostream> stream = text, best_stream = best_text;
  const bool temporary = c.flip();
  auto csv = temporary ? get_csv_writing_callback(model, stream) : CsvWritingCallback(params, stream);
  MaximumLikelihoodTrackingCallback best(params, best_stream);
  std::vector<std::pair<std::size_t, EnsembleSamplerState>> seen;
  auto callback = [&](std::size_t i, const EnsembleSamplerState &s) {
    csv(i, s);
    best(i, s);
    seen.push_back({i, s});
  };
  const auto out = ensemble_sampler(model, data, walkers, iterations, gen, callback);
  Draws::release();
  c.check(out.size() == iterations + 1 && seen.size() == out.size(), "sampler-records-another-number-of-states", std::to_string(out.size()));
  double top = -INF;
  Point where;
  for (const auto &s : out) {
    c.check(s.size() == expected, "number-of-walkers-changes", std::to_string(s.size()));
    for (const auto &w : s) {
      c.close(w.log_prob, likelihood(w.params), "log-probability-is-not-the-likelihood", show(w.params), 1e-9, 1e-9);
      if (w.log_prob > top)
        top = w.log_prob, where = w.params;
    }
  }
  c.check(best.max_ll == top, "best-likelihood-is-lost", std::to_string(best.max_ll) + " of " + std::to_string(top));
  const auto best_params = set_tunable_params_values(params, where);
  for (const auto &p : best_params)
    c.check(best.param_store.at(p.first).value == p.second.value, "best-parameters-are-lost", p.first);
  // restart
  std::istringstream in(text->str());
  const auto restart = initial_params_from_csv(params, in);
  c.check(restart.size() == expected, "restart-with-another-number-of-walkers", std::to_string(restart.size()) + " of\n" + text->str());
  for (std::size_t i = 0; i < restart.size(); ++i) {
    const auto want = get_tunable_parameters(set_tunable_params_values(params, out.back()[i].params)).values;
    c.check(restart[i].size() == want.size(), "dimension-of-walkers-changes", "restart");
    for (std::size_t d = 0; d < want.size(); ++d)
      c.close(restart[i][d], want[d], "restart-from-other-parameters", "walker " + std::to_string(i) + " " + tunable.names[d], 1e-10, 1e-10);
  }
  // every line of the file
  std::istringstream lines(text->str());
  std::string line;
  std::getline(lines, line);
  std::size_t count = 0;
  while (std::getline(lines, line)) {
    const auto cells = split_string(line, ',');
    c.check(cells.size() == 3 + params.size(), "sampler-csv-row-of-another-length", line);
    const std::size_t i = count / expected, w = count % expected;
    c.check(cells[0] == std::to_string(i) && cells[2] == std::to_string(w), "sampler-csv-rows-out-of-order", line);
    c.close(std::stod(cells[1]), out[i][w].log_prob, "sampler-csv-log-probability", line, 1e-12, 1e-12);
    ++count;
  }
  c.check(count == expected * out.size(), "sampler-csv-has-another-number-of-rows", std::to_string(count));
  c.state(std::to_string(kind) + std::to_string(walkers) + show(out.back()));
}

// What was written with fewer digits may lie just outside of the bounds of its
// parameter: walkers start again within them, fixed parameters are left out.
MC_SCENARIO(restart_within_the_bounds) {
  ParameterStore params;
  params["a"] = Parameter(1.5, UniformPrior(-2., 3.));
  params["b"] = Parameter(0.5, NonNegativePrior());
  params["c"] = Parameter(2., FixedPrior());
  params["d"] = Parameter(2., GaussianPrior(2., 1.));
  const std::vector<double> as = {-2., -2. - 1e-9, -2.5, 3., 3. + 1e-9, 7., 0.25}, bs = {0., -1e-12, 1e-12, 4.}, ds = {-1e9, 0., 5.};
  const int rows = c.range(1, 2), first = c.choose(3);
  std::ostringstream text;
  text.precision(17);
  text << "iteration,log_probability,ensemble_index,a,b,c,d\n";
  if (first > 0) // an earlier state is not the one to go on from
    for (int i = 0; i < rows + first; ++i)
      text << "0,-5," << i << ",1,1,2,1\n";
  std::vector<Point> want;
  for (int i = 0; i < rows; ++i) {
    const double a = c.pick(as), b = c.pick(bs), d = i == 0 ? c.pick(ds) : 1.;
    text << (first > 0 ? 7 : 0) << ",-3," << i << "," << a << "," << b << ",2," << d << "\n";
    want.push_back({std::min(3., std::max(-2., a)), std::max(0., b), d});
  }
  c.state(text.str());
  c.step();
  std::istringstream in(text.str());
  const auto got = initial_params_from_csv(params, in);
  c.check(got.size() == want.size(), "restart-with-another-number-of-walkers", text.str());
  for (std::size_t i = 0; i < want.size() && i < got.size(); ++i) {
    c.check(got[i].size() == 3, "dimension-of-walkers-changes", text.str());
    for (std::size_t k = 0; k < 3 && k < got[i].size(); ++k)
      c.check(mc::near(got[i][k], want[i][k], 1e-8, 1e-12), "restart-outside-of-the-bounds", text.str() + " got " + show(got[i]));
    const auto back = set_tunable_params_values(params, got[i]);
    for (const auto &p : back)
      c.check(p.second.is_valid(), "restart-outside-of-the-bounds", text.str() + " " + p.first);
  }
}

// Many walkers in many dimensions, several splits: no move but along the line
// through a walker of another split, certain proposals are accepted, hopeless
// ones are not.
MC_SCENARIO(many_walkers) {
  Draws::release();
  const int n = c.pick<int>({5, 8, 9, 17, 33, 100}), dim = c.pick<int>({2, 3, 5, 8, 13}), splits = c.pick<int>({2, 3, 5}), steps = c.pick<int>({1, 3}), seed = c.range(1, mc::tiered(4, 40));
  const double a = c.pick<double>({2., 1.25, 5.}), scale = std::ldexp(1., c.pick<int>({0, -40, 30})), steep = c.pick<double>({1., 100.});
  std::ostringstream os;
  os << n << " walkers in " << dim << " dimensions, " << splits << " splits, seed " << seed << ", a " << a << ", scale " << scale << ", steep " << steep;
  const std::string s = os.str();
  c << s;
  c.state(s);
  std::vector<std::pair<Point, double>> calls;
  const auto f = [&](const Point &p) {
    double sum = 0.;
    for (std::size_t i = 0; i < p.size(); ++i)
      sum -= 0.5 * steep * p[i] * p[i] / (scale * scale) * (1. + static_cast<double>(i));
    calls.push_back({p, sum});
    return sum;
  };
  EnsembleSamplerState e;
  for (int i = 0; i < n; ++i) {
    Point p;
    for (int d = 0; d < dim; ++d)
      p.push_back(scale * std::sin(1. + 3.7 * i + 1.3 * d * (i + 1)));
    e.push_back({p, f(p), true});
  }
  std::vector<int> split_of(static_cast<std::size_t>(n), -1);
  int count = 0;
  for (const auto &h : split_indices(static_cast<std::size_t>(n), static_cast<std::size_t>(splits))) {
    for (std::size_t k : h)
      split_of[k] = count;
    ++count;
  }
  // The stretch which leads from walker k to y, or a negative number.
  const auto stretch = [&](const EnsembleSamplerState &before, const EnsembleSamplerState &after, std::size_t k, const Point &y) {
    const Point &x = before[k].params;
    for (std::size_t j = 0; j < before.size(); ++j) {
      if (split_of[j] == split_of[k])
        continue;
      const Point &o = split_of[j] < split_of[k] ? after[j].params : before[j].params;
      double z = (y[0] - o[0]) / (x[0] - o[0]);
      bool fits = z >= 1. / a - 1e-6 && z <= a + 1e-6;
      for (std::size_t i = 1; i < x.size() && fits; ++i)
        fits = std::abs(o[i] + z * (x[i] - o[i]) - y[i]) <= 1e-7 * scale;
      if (fits)
        return z;
    }
    return -1.;
  };
  std::default_random_engine gen(static_cast<unsigned>(seed));
  for (int step = 0; step < steps; ++step) {
    calls.clear();
    const auto next = stretch_move_step(e, f, gen, static_cast<std::size_t>(splits), a);
    c.step();
    c.check(next.size() == e.size() && calls.size() == e.size(), "number-of-walkers-changes", s);
    if (next.size() != e.size())
      return;
    std::vector<bool> used(calls.size(), false);
    for (std::size_t k = 0; k < e.size(); ++k) {
      const std::string who = s + ", walker " + std::to_string(k);
      if (!next[k].accepted) {
        c.check(next[k].params == e[k].params && next[k].log_prob == e[k].log_prob, "rejected-walker-moves", who);
        continue;
      }
      bool found = false;
      for (std::size_t i = 0; i < calls.size() && !found; ++i)
        if (!used[i] && calls[i].first == next[k].params && calls[i].second == next[k].log_prob)
          used[i] = found = true;
      c.check(found, "walker-has-another-log-probability", who);
      const double z = stretch(e, next, k, next[k].params);
      c.check(z > 0., "walker-leaves-the-line-through-another", who);
      if (z > 0.)
        c.check((dim - 1) * std::log(z) + next[k].log_prob - e[k].log_prob > -40., "hopeless-proposal-accepted", who);
    }
    // what was rejected: each of the other calls is a proposal of one walker
    for (std::size_t i = 0; i < calls.size(); ++i) {
      if (used[i])
        continue;
      int owners = 0;
      double ratio = 0.;
      for (std::size_t k = 0; k < e.size(); ++k) {
        const double z = next[k].accepted ? -1. : stretch(e, next, k, calls[i].first);
        if (z > 0.) {
          ++owners;
          ratio = (dim - 1) * std::log(z) + calls[i].second - e[k].log_prob;
        }
      }
      c.check(owners > 0, "proposal-of-nobody", s);
      if (owners == 1)
        c.check(ratio < 1e-6, "certain-proposal-rejected", s + " log ratio " + std::to_string(ratio));
    }
    e = next;
  }
}

// Long runs of many walkers: every state follows from the one before, all are
// recorded, written and read again.
MC_SCENARIO(long_runs) {
  Draws::release();
  const int n = c.pick<int>({5, 11, 13, 26}), dim = c.pick<int>({2, 3, 12}), iterations = c.pick<int>({9, 12, 31}), seed = c.range(1, mc::tiered(6, 60)), offset = c.choose(2);
  const std::string s = std::to_string(n) + " walkers in " + std::to_string(dim) + " dimensions for " + std::to_string(iterations) + " iterations, seed " + std::to_string(seed) + (offset ? ", always below -1e10" : "");
  c << s;
  c.state(s);
  ParameterStore params;
  for (int d = 0; d < dim; ++d)
    params["p" + std::to_string(d)] = Parameter(1., d % 3 == 1 ? PriorContainer(LogScaleUniformPrior(1e-9, 1e9)) : d % 3 == 2 ? PriorContainer(FixedPrior()) : PriorContainer(UninformativePrior()));
  const std::size_t free = get_tunable_parameters(params).values.size();
  const auto f = [&](const Point &p) {
    double sum = offset ? -2e10 : 0.;
    for (std::size_t i = 0; i < p.size(); ++i)
      sum -= 0.5 * std::pow(p[i] - 0.25, 2.) * (1. + static_cast<double>(i));
    return sum;
  };
  std::vector<Point> begin;
  for (int i = 0; i < n; ++i) {
    Point p;
    for (std::size_t d = 0; d < free; ++d)
      p.push_back(std::sin(1. + 3.7 * i + 1.3 * static_cast<double>(d) * (i + 1)));
    begin.push_back(p);
  }
  const auto text = std::make_shared<std::ostringstream>(), best_text = std::make_shared<std::ostringstream>();
  std::shared_ptr<std::ostream> stream = text, best_stream = best_text;
  CsvWritingCallback csv(params, stream);
  MaximumLikelihoodTrackingCallback best(params, best_stream);
  std::vector<std::pair<std::size_t, EnsembleSamplerState>> seen;
  std::default_random_engine gen(static_cast<unsigned>(seed));
  const auto out = ensemble_sampler(f, begin, static_cast<std::size_t>(iterations), gen, [&](std::size_t i, const EnsembleSamplerState &e) {
    csv(i, e);
    best(i, e);
    seen.push_back({i, e});
  });
  c.check(out.size() == static_cast<std::size_t>(iterations) + 1 && seen.size() == out.size(), "sampler-records-another-number-of-states", s);
  double top = -INF;
  Point where;
  for (std::size_t i = 0; i < out.size(); ++i) {
    c.step();
    const std::string at = s + ", state " + std::to_string(i);
    c.check(out[i].size() == begin.size(), "number-of-walkers-changes", at);
    c.check(i < seen.size() && seen[i].first == i && show(seen[i].second) == show(out[i]), "callback-got-another-state", at);
    for (std::size_t k = 0; k < out[i].size(); ++k) {
      const auto &w = out[i][k];
      c.check(w.log_prob == f(w.params), "walker-has-another-log-probability", at);
      if (w.log_prob > top)
        top = w.log_prob, where = w.params;
      if (i == 0)
        c.check(w.params == begin[k], "sampler-begins-elsewhere", at);
      else if (!w.accepted)
        c.check(w.params == out[i - 1][k].params, "rejected-walker-moves", at);
      else
        c.check(stretched(out[i - 1], out[i], k, 2.), "walker-leaves-the-line-through-another", at);
    }
  }
  c.check(best.max_ll == top, "best-likelihood-is-lost", s);
  for (const auto &p : set_tunable_params_values(params, where))
    c.check(best.param_store.at(p.first).value == p.second.value, "best-parameters-are-lost", s + " " + p.first);
  std::istringstream in(text->str()), lines(text->str());
  const auto restart = initial_params_from_csv(params, in);
  c.check(restart.size() == begin.size(), "restart-with-another-number-of-walkers", s);
  for (std::size_t i = 0; i < restart.size() && i < out.back().size(); ++i)
    for (std::size_t d = 0; d < free; ++d)
      c.close(restart[i].at(d), out.back()[i].params[d], "restart-from-other-parameters", s, 1e-9, 1e-9);
  std::string line;
  std::getline(lines, line);
  std::size_t count = 0;
  for (; std::getline(lines, line); ++count) {
    const auto cells = split_string(line, ',');
    c.check(cells.size() == 3 + params.size() && cells[0] == std::to_string(count / begin.size()) && cells[2] == std::to_string(count % begin.size()), "sampler-csv-rows-out-of-order", s + ": " + line);
  }
  c.check(count == begin.size() * out.size(), "sampler-csv-has-another-number-of-rows", s);
}
