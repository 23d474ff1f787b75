// C27: tuning against objectives which answer anything.
#include <albatross/Core>
#include <albatross/Evaluation>
#include <albatross/NullModel>
#include <albatross/Tune>

#include <cmath>
#include <limits>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>

#include "mc.h"

using namespace albatross;

namespace albatross {
// reports what it was given
struct Given {
  std::vector<double> data; // the targets of the data set
  ParameterStore params;
};
struct Reporting : public ModelMetric<Reporting> {
  std::function<double(const Given &)> *to = nullptr;
  template <typename F, typename M> double _call_impl(const RegressionDataset<F> &d, const ModelBase<M> &m) const {
    Given g;
    g.data.assign(d.targets.mean.data(), d.targets.mean.data() + d.targets.mean.size());
    g.params = m.get_params();
    return (*to)(g);
  }
};
} // namespace albatross

namespace {

const double INF = std::numeric_limits<double>::infinity();

struct Kind {
  const char *text;
  Parameter param;
};
// every prior, inside of its bounds and on them
const std::vector<Kind> &kinds() {
  static const std::vector<Kind> all = {
      {"fixed 3", {3., FixedPrior()}},
      {"free 1", {1., UninformativePrior()}},
      {"free 0", {0., UninformativePrior()}},
      {"uniform 0 in [-1, 2]", {0., UniformPrior(-1., 2.)}},
      {"uniform -1 in [-1, 2]", {-1., UniformPrior(-1., 2.)}},
      {"uniform 2 in [-1, 2]", {2., UniformPrior(-1., 2.)}},
      {"log 1 in [0.1, 7]", {1., LogScaleUniformPrior(0.1, 7.)}},
      {"log 0.1 in [0.1, 7]", {0.1, LogScaleUniformPrior(0.1, 7.)}},
      {"log 7 in [0.1, 7]", {7., LogScaleUniformPrior(0.1, 7.)}},
      {"positive 1e-8", {1e-8, PositivePrior()}},
      {"not negative 0", {0., NonNegativePrior()}},
      {"gaussian -1", {-1., GaussianPrior(-1., 2.)}},
      {"positive gaussian 10 in [0, 10]", {10., PositiveGaussianPrior(0., 1.)}},
      {"log normal 2", {2., LogNormalPrior(0., 1.)}}};
  return all;
}
ParameterStore store(mc::Ctx &c, int most, std::size_t n_kinds, std::string &text) {
  ParameterStore out;
  const int n = c.range(1, most);
  std::size_t first = 0;
  for (int i = 0; i < n; ++i) { // a multiset: names decide the order anyhow
    first += static_cast<std::size_t>(c.choose(static_cast<int>(n_kinds - first)));
    out[std::string(1, static_cast<char>('a' + i))] = kinds()[first].param;
    text += std::string(i ? ", " : "") + kinds()[first].text;
  }
  return out;
}
std::vector<double> values(const ParameterStore &p) {
  std::vector<double> v;
  for (const auto &x : p)
    v.push_back(x.second.value);
  return v;
}
std::string show(const std::vector<double> &v) {
  std::ostringstream s;
  s.precision(17);
  for (double x : v)
    s << " " << x;
  return s.str();
}

// bounds of the priors, written down a second time
bool inside(const ParameterStore &start, const std::vector<double> &v, std::string &why) {
  std::size_t i = 0;
  for (const auto &x : start) {
    const std::string name = x.second.prior.get_name();
    double lo = -INF, hi = INF;
    if (name == "fixed")
      lo = hi = x.second.value;
    else if (name.rfind("uniform", 0) == 0)
      lo = -1., hi = 2.;
    else if (name.rfind("log_scale", 0) == 0)
      lo = 0.1, hi = 7.;
    else if (name == "positive" || name.rfind("log_normal", 0) == 0)
      lo = 1e-300;
    else if (name == "non_negative")
      lo = 0.;
    else if (name.rfind("positive_gaussian", 0) == 0)
      lo = 0., hi = 10.;
    if (!(v[i] >= lo && v[i] <= hi)) {
      why = x.first + " is " + show({v[i]});
      return false;
    }
    ++i;
  }
  return true;
}

// An objective whose answer at each new point is a choice.
struct Adversary {
  mc::Ctx *c;
  std::vector<double> outcomes;
  int budget;                 // answers after this many are the last outcome
  ParameterStore start;
  std::map<std::vector<double>, double> known;
  std::vector<std::pair<std::vector<double>, double>> calls;
  std::string wrong;

  // what the explorer throws has to get through nlopt (which is C)
  std::exception_ptr interrupted = nullptr;
  int decide(int n) {
    try {
      return c->choose(n);
    } catch (...) {
      interrupted = std::current_exception();
      throw nlopt::forced_stop();
    }
  }
  double answer(const std::vector<double> &at) {
    auto it = known.find(at);
    if (it == known.end()) {
      double v = outcomes.back();
      if (static_cast<int>(known.size()) < budget)
        v = outcomes[static_cast<std::size_t>(decide(static_cast<int>(outcomes.size())))];
      it = known.emplace(at, v).first;
    }
    calls.push_back({at, it->second});
    return it->second;
  }
  double operator()(const ParameterStore &p) {
    if (p.size() != start.size())
      wrong = "evaluated with " + std::to_string(p.size()) + " parameters";
    else
      for (const auto &x : start)
        if (!p.count(x.first) || p.at(x.first).prior.get_name() != x.second.prior.get_name())
          wrong = "evaluated with another parameter or prior than " + x.first;
    const std::vector<double> v = values(p);
    std::string why;
    if (wrong.empty() && !inside(start, v, why))
      wrong = "evaluated outside of the bounds: " + why;
    return answer(v);
  }
};
// Gradients which do not belong to the values can make nlopt give up, which is
// its business (but see quadratics, where it may not).
bool given_up(const std::exception &e) {
  return dynamic_cast<const std::runtime_error *>(&e) && std::string(e.what()).find("SQP iterations") != std::string::npos;
}
double as_number(double v) { return std::isnan(v) ? INF : v; }

nlopt::opt chosen_optimizer(mc::Ctx &c, const ParameterStore &p, std::string &name, bool &gradient) {
  const int k = c.choose(2);
  name = k == 0 ? "default optimizer" : "gradient optimizer";
  gradient = k == 1;
  return k == 0 ? default_optimizer(p) : default_gradient_optimizer(p);
}

void judge(mc::Ctx &c, const Adversary &a, const std::vector<double> &result) {
  c.check(a.wrong.empty(), "tuning-evaluates-invalid-parameters", a.wrong);
  std::string why;
  c.check(inside(a.start, result, why), "tuned-parameters-are-invalid", why);
  c.check(!a.calls.empty(), "tuning-never-evaluates", "no evaluation");
  const auto &first = a.calls.front();
  const std::vector<double> start = values(a.start);
  for (std::size_t i = 0; i < start.size(); ++i)
    c.close(first.first[i], start[i], "tuning-does-not-begin-at-the-start", "parameter " + std::to_string(i) + " of the first evaluation", 1e-12, 0.);
  auto at = a.known.find(result);
  c.check(at != a.known.end(), "tuned-parameters-were-never-evaluated", "the result" + show(result) + " was not evaluated");
  c.check(as_number(at->second) <= as_number(first.second), "tuning-makes-it-worse", "the objective went from " + std::to_string(first.second) + " to " + std::to_string(at->second) + " at" + show(result));
}

} // namespace

// Every sequence of answers, up to a number of evaluations.
MC_SCENARIO(any_answers) {
  std::string text, name;
  const ParameterStore start = store(c, 2, kinds().size(), text);
  c.assume(!get_tunable_parameters(start).values.empty());
  bool gradient;
  nlopt::opt opt = chosen_optimizer(c, start, name, gradient);
  const int evals = gradient ? mc::tiered(3, 4) : mc::tiered(5, 7);
  opt.set_maxeval(evals);
  c << text << "; " << name;
  Adversary a{&c, {0., 1., INF, std::nan("")}, gradient ? mc::tiered(5, 7) : evals, start, {}, {}, ""};
  std::ostringstream log;
  GenericTuner tuner(start, log);
  tuner.optimizer = opt;
  ParameterStore out;
  try {
    out = tuner.tune(a);
  } catch (const std::exception &e) {
    if (a.interrupted)
      std::rethrow_exception(a.interrupted);
    if (gradient && given_up(e))
      return;
    c << "; answers";
    for (const auto &x : a.calls)
      c << " [" << show(x.first) << " ] " << std::to_string(x.second);
    c.fail(std::string("tuning-throws-") + e.what(), e.what());
  }
  judge(c, a, values(out));
  c.state(text + name + show(values(out)));
}

// Functions of vectors, started from values or from parameters: everything the
// function sees is a point of the box and the first is the start.
MC_SCENARIO(functions_of_vectors) {
  std::string text, name;
  const ParameterStore start = store(c, 2, kinds().size(), text);
  const auto tunable = get_tunable_parameters(start);
  c.assume(!tunable.values.empty());
  bool gradient;
  nlopt::opt opt = chosen_optimizer(c, start, name, gradient);
  opt.set_maxeval(gradient ? 3 : 5);
  const bool eigen = c.flip();
  c << text << "; " << name << (eigen ? "; Eigen" : "; std::vector");
  Adversary a{&c, {0., 1., std::nan("")}, mc::tiered(4, 6), start, {}, {}, ""};
  const auto back = [&](const std::vector<double> &x) {
    std::vector<double> v;
    std::size_t i = 0;
    for (const auto &p : start)
      v.push_back(p.second.is_fixed() ? p.second.value : p.second.prior.is_log_scale() ? std::exp(x[i++]) : x[i++]);
    return v;
  };
  const auto judged = [&](const std::vector<double> &x) {
    if (x.size() != tunable.values.size()) {
      a.wrong = "evaluated with " + std::to_string(x.size()) + " values";
      return 0.;
    }
    for (std::size_t i = 0; i < x.size(); ++i)
      if (!(x[i] >= tunable.lower_bounds[i] && x[i] <= tunable.upper_bounds[i]))
        a.wrong = tunable.names[i] + " evaluated outside of its bounds at" + show({x[i]});
    return a.answer(back(x));
  };
  auto of_vector = [&](const std::vector<double> &x) { return judged(x); };
  auto of_eigen = [&](const Eigen::VectorXd &x) { return judged(std::vector<double>(x.data(), x.data() + x.size())); };
  std::ostringstream log;
  GenericTuner tuner(start, log);
  tuner.optimizer = opt;
  std::vector<double> out;
  try {
    if (eigen) {
      const Eigen::VectorXd v = tuner.tune(of_eigen);
      out.assign(v.data(), v.data() + v.size());
    } else {
      out = tuner.tune(of_vector);
    }
  } catch (const std::exception &e) {
    if (a.interrupted)
      std::rethrow_exception(a.interrupted);
    if (gradient && given_up(e))
      return;
    c.fail(std::string("tuning-a-function-throws-") + e.what(), e.what());
  }
  c.check(a.wrong.empty(), "function-evaluated-out-of-bounds", a.wrong);
  c.check(out.size() == tunable.values.size(), "tuned-values-have-another-size", "size");
  for (std::size_t i = 0; i < out.size(); ++i)
    c.check(out[i] >= tunable.lower_bounds[i] - 1e-12 && out[i] <= tunable.upper_bounds[i] + 1e-12, "tuned-values-are-out-of-bounds", tunable.names[i] + show({out[i]}));
  const std::vector<double> begin = values(start);
  for (std::size_t i = 0; i < begin.size(); ++i)
    c.close(a.calls.front().first[i], begin[i], "tuning-a-function-does-not-begin-at-the-start", "parameter " + std::to_string(i), 1e-12, 0.);
  // the result, through the same round trip, was evaluated
  const std::vector<double> got = back(out);
  double best = INF;
  bool met = false;
  for (const auto &x : a.calls) {
    double far = 0.;
    for (std::size_t i = 0; i < got.size(); ++i)
      far = std::max(far, std::abs(x.first[i] - got[i]) / (1e-300 + std::abs(got[i]) + 1e-13));
    if (far < 1e-9)
      met = true, best = std::min(best, as_number(x.second));
  }
  c.check(met, "tuned-values-were-never-evaluated", "the result" + show(got));
  c.check(best <= as_number(a.calls.front().second), "tuning-a-function-makes-it-worse", "from " + std::to_string(a.calls.front().second) + " to " + std::to_string(best));
  c.state(text + name + show(got));
}

// Started from plain values the function is first asked for these, in order,
// however many there are.
MC_SCENARIO(start_from_values) {
  const int n = c.range(1, mc::tiered(12, 40));
  std::vector<double> x;
  for (int i = 0; i < n; ++i)
    x.push_back(i * 1.5 - 2.);
  const int form = c.choose(3);
  bool gradient = c.flip();
  c << n << " values; " << (form == 0 ? "vector" : form == 1 ? "Eigen" : "parameters") << (gradient ? "; gradient" : "");
  std::ostringstream log;
  GenericTuner tuner(x, log);
  if (gradient)
    tuner.optimizer = default_gradient_optimizer(tuner.initial_params);
  tuner.optimizer.set_maxeval(gradient ? 3 : 2 * n);
  std::vector<std::vector<double>> asked;
  // each coordinate has its own minimum at its index
  auto f = [&](const std::vector<double> &v) {
    asked.push_back(v);
    double s = 0.;
    for (std::size_t i = 0; i < v.size(); ++i)
      s += (v[i] - static_cast<double>(i)) * (v[i] - static_cast<double>(i)) * static_cast<double>(1 + i % 2);
    return s;
  };
  auto fe = [&](const Eigen::VectorXd &v) { return f(std::vector<double>(v.data(), v.data() + v.size())); };
  auto fp = [&](const ParameterStore &p) { return f(get_tunable_parameters(p).values); };
  std::vector<double> out;
  if (form == 0)
    out = tuner.tune(f);
  else if (form == 1) {
    const Eigen::VectorXd v = tuner.tune(fe);
    out.assign(v.data(), v.data() + v.size());
  } else {
    out = get_tunable_parameters(tuner.tune(fp)).values;
  }
  const auto calls = asked;
  c.check(!calls.empty() && calls[0].size() == x.size(), "function-of-another-size", "size");
  if (form != 2)
    for (std::size_t i = 0; i < x.size(); ++i)
      c.close(calls[0][i], x[i], "values-are-not-the-start", "value " + std::to_string(i) + " of " + std::to_string(n), 0., 0.);
  c.check(out.size() == x.size(), "result-of-another-size", "size");
  const double at = f(out), from = f(calls[0]);
  c.check(at <= from, "tuning-values-makes-it-worse", std::to_string(from) + " to " + std::to_string(at));
  c.state(std::to_string(n) + std::to_string(form) + std::to_string(gradient));
}

// Convex quadratics, with failures of the objective beyond a plane: no
// exception, never worse, and without failures the minimum of the box.
MC_SCENARIO(quadratics) {
  std::string text, name;
  const ParameterStore start = store(c, 2, kinds().size(), text);
  const auto tunable = get_tunable_parameters(start);
  c.assume(!tunable.values.empty());
  bool gradient;
  nlopt::opt opt = chosen_optimizer(c, start, name, gradient);
  const double middle = c.pick<double>({-3.1, 0.37, 5.3});
  const double cross = c.pick<double>({0., 0.5});
  const double failure = c.pick<double>({0., INF, std::nan("")}); // 0: none
  const double from = failure == 0. ? 0. : c.pick<double>({-1., 0.4, 1.5});
  opt.set_maxeval(gradient ? 60 : 400);
  c << text << "; " << name << "; minimum at " << middle << ", cross " << cross << ", fails with " << failure << " from " << from;
  std::string wrong;
  const auto value = [&](const std::vector<double> &x) {
    if (failure != 0. && x.back() > from)
      return failure;
    double s = 0.;
    for (std::size_t i = 0; i < x.size(); ++i)
      s += (x[i] - middle) * (x[i] - middle);
    return s + cross * (x.front() - middle) * (x.back() - middle);
  };
  auto f = [&](const ParameterStore &p) {
    std::string why;
    if (!inside(start, values(p), why))
      wrong = why;
    return value(get_tunable_parameters(p).values);
  };
  std::ostringstream log;
  GenericTuner tuner(start, log);
  tuner.optimizer = opt;
  ParameterStore out;
  try {
    out = tuner.tune(f);
  } catch (const std::exception &e) {
    c.fail(std::string("tuning-a-quadratic-throws-") + e.what(), e.what());
  }
  std::string why;
  c.check(wrong.empty(), "quadratic-evaluated-at-invalid-parameters", wrong);
  c.check(inside(start, values(out), why), "tuned-quadratic-is-invalid", why);
  const auto x = get_tunable_parameters(out).values;
  c.check(as_number(value(x)) <= as_number(value(tunable.values)), "tuning-a-quadratic-makes-it-worse", "from " + std::to_string(value(tunable.values)) + " to " + std::to_string(value(x)));
  if (failure == 0. && text.find("1e-8") == std::string::npos && (cross == 0. || x.size() == 1))
    for (std::size_t i = 0; i < x.size(); ++i)
      c.close(x[i], std::min(std::max(middle, tunable.lower_bounds[i]), tunable.upper_bounds[i]), "tuning-misses-the-minimum-of-a-quadratic", tunable.names[i], 0.02, 0.02);
  c.state(text + name + show(values(out)));
}

// More parameters of all kinds, each with a minimum and a steepness of its own:
// gradients, and tuning with gradients.
MC_SCENARIO(many_parameters) {
  const int n = c.pick<int>({3, 4, 7, 12, 25}), stride = c.pick<int>({1, 3, 5}), shift = c.range(0, 4), what = c.choose(3), order = c.choose(2);
  ParameterStore start;
  std::string text = std::to_string(n) + " parameters from " + std::to_string(shift) + " by " + std::to_string(stride) + " order " + std::to_string(order);
  for (int i = 0; i < n; ++i)
    start["p" + std::to_string(order ? n - i : i)] = kinds()[static_cast<std::size_t>((shift + i * stride) % static_cast<int>(kinds().size()))].param;
  const auto tunable = get_tunable_parameters(start);
  const std::size_t m = tunable.values.size();
  c.assume(m > 0);
  c << text << (what == 2 ? ", tuned" : what == 1 ? ", gradient in threads" : ", gradient");
  c.state(text + std::to_string(what));
  const auto middle = [&](std::size_t i) { return 0.37 + 0.9 * std::sin(1. + 2. * static_cast<double>(i)); };
  const auto steep = [&](std::size_t i) { return 1. + 0.25 * static_cast<double>(i % 4); };
  const auto f = [&](const std::vector<double> &x) {
    double sum = 0.;
    for (std::size_t i = 0; i < x.size(); ++i)
      sum += steep(i) * (x[i] - middle(i)) * (x[i] - middle(i));
    return sum;
  };
  std::mutex guard;
  std::string wrong;
  const auto g = [&](const ParameterStore &p) {
    std::string why;
    std::lock_guard<std::mutex> lock(guard);
    if (!inside(start, values(p), why))
      wrong = why;
    return f(get_tunable_parameters(p).values);
  };
  c.step();
  if (what < 2) {
    std::shared_ptr<ThreadPool> pool;
    if (what == 1)
      pool = std::make_shared<ThreadPool>(3);
    const auto got = compute_gradient(g, start, f(tunable.values), pool.get());
    c.check(wrong.empty(), "gradient-evaluates-invalid-parameters", wrong);
    c.check(got.size() == m, "gradient-of-another-size", std::to_string(got.size()));
    for (std::size_t i = 0; i < m && i < got.size(); ++i) {
      double want = 2. * steep(i) * (tunable.values[i] - middle(i));
      if (tunable.values[i] >= tunable.upper_bounds[i])
        want = std::max(want, 0.);
      if (tunable.values[i] <= tunable.lower_bounds[i])
        want = std::min(want, 0.);
      c.close(got[i], want, "gradient-is-not-the-derivative", text + " derivative " + std::to_string(i), 1e-4, 1e-4);
    }
    return;
  }
  nlopt::opt opt = default_gradient_optimizer(start);
  opt.set_maxeval(300);
  std::ostringstream log;
  GenericTuner tuner(start, log);
  tuner.optimizer = opt;
  const ParameterStore out = tuner.tune(g);
  std::string why;
  c.check(wrong.empty(), "quadratic-evaluated-at-invalid-parameters", wrong);
  c.check(inside(start, values(out), why), "tuned-quadratic-is-invalid", why);
  c.check(out.size() == start.size(), "tuning-changes-the-parameters", text);
  for (const auto &p : start) {
    c.check(out.count(p.first) && out.at(p.first).prior.get_name() == p.second.prior.get_name(), "tuning-changes-the-priors", p.first);
    if (p.second.prior.get_name() == "fixed" && out.count(p.first))
      c.check(out.at(p.first).value == p.second.value, "tuning-moves-a-fixed-parameter", p.first);
  }
  const auto x = get_tunable_parameters(out).values;
  c.check(x.size() == m && f(x) <= f(tunable.values), "tuning-a-quadratic-makes-it-worse", text);
  for (std::size_t i = 0; i < m && i < x.size(); ++i)
    c.close(x[i], std::min(std::max(middle(i), tunable.lower_bounds[i]), tunable.upper_bounds[i]), "tuning-misses-the-minimum-of-a-quadratic", text + " " + tunable.names[i], 0.03, 0.03);
}

// Gradients by finite differences against the derivative of polynomials, within
// the bounds.
MC_SCENARIO(gradients) {
  std::string text;
  const ParameterStore start = store(c, mc::tiered(2, 3), kinds().size(), text);
  const auto tunable = get_tunable_parameters(start);
  const std::size_t n = tunable.values.size();
  // f = sum a_i x_i + b x_0 x_last + sum d_i x_i^2 in the tunable coordinates
  const double a = c.pick<double>({0., 1., -2.}), b = c.pick<double>({0., 1.}), d = c.pick<double>({0., -1.});
  const bool threads = c.flip();
  c << text << "; a " << a << " b " << b << " d " << d << (threads ? "; threads" : "");
  auto poly = [&](const std::vector<double> &x) {
    double s = 0.5;
    for (std::size_t i = 0; i < x.size(); ++i)
      s += a * static_cast<double>(i + 1) * x[i] + d * x[i] * x[i];
    if (x.size())
      s += b * x.front() * x.back();
    return s;
  };
  std::vector<double> want;
  for (std::size_t i = 0; i < n; ++i) {
    double g = a * static_cast<double>(i + 1) + 2. * d * tunable.values[i];
    if (i == 0)
      g += b * tunable.values.back();
    if (i == n - 1)
      g += b * tunable.values.front();
    want.push_back(g);
  }
  std::mutex m;
  std::string wrong;
  auto of_params = [&](const ParameterStore &p) {
    std::string why;
    std::lock_guard<std::mutex> lock(m);
    if (!inside(start, values(p), why))
      wrong = why;
    return poly(get_tunable_parameters(p).values);
  };
  std::shared_ptr<ThreadPool> pool;
  if (threads)
    pool = std::make_shared<ThreadPool>(2);
  const auto got = compute_gradient(of_params, start, poly(tunable.values), pool.get());
  c.check(wrong.empty(), "gradient-evaluates-invalid-parameters", wrong);
  c.check(got.size() == n, "gradient-of-another-size", std::to_string(got.size()));
  for (std::size_t i = 0; i < n; ++i) {
    double g = want[i];
    // at a bound only descents into the box count
    if (tunable.values[i] >= tunable.upper_bounds[i])
      g = std::max(g, 0.);
    if (tunable.values[i] <= tunable.lower_bounds[i])
      g = std::min(g, 0.);
    c.close(got[i], g, "gradient-is-not-the-derivative", "derivative " + std::to_string(i), 1e-4, 1e-4);
  }
  const auto plain = compute_gradient(poly, tunable.values, poly(tunable.values), pool.get());
  c.check(plain.size() == n, "gradient-of-another-size", std::to_string(plain.size()));
  for (std::size_t i = 0; i < n; ++i)
    c.close(plain[i], want[i], "plain-gradient-is-not-the-derivative", "derivative " + std::to_string(i), 1e-4, 1e-4);
  c.state(text + show(want));
}

// Greedy tuning returns the first best of everything it tried, looks to both
// sides of the best so far, one parameter at a time.
MC_SCENARIO(greedy) {
  std::string text;
  const ParameterStore start = store(c, 2, kinds().size(), text);
  const auto tunable = get_tunable_parameters(start);
  const int queries = c.range(1, 2), rounds = c.range(0, 2);
  const bool threads = c.flip();
  c << text << "; " << queries << " queries, " << rounds << " rounds" << (threads ? ", threads" : "");
  Adversary a{&c, {0., 1., INF, std::nan("")}, mc::tiered(4, 6), start, {}, {}, ""};
  std::ostringstream log;
  // (one worker keeps the order of the evaluations, and so of the choices)
  ParameterStore out;
  std::unique_ptr<ThreadPool> pool;
  if (threads)
    pool = std::make_unique<ThreadPool>(1);
  try {
    out = greedy_tune([&a](const ParameterStore &p) { return a(p); }, start, static_cast<std::size_t>(queries), static_cast<std::size_t>(rounds), pool.get(), threads ? nullptr : &log);
  } catch (...) {
    if (a.interrupted)
      std::rethrow_exception(a.interrupted);
    throw;
  }
  c.check(a.wrong.empty(), "greedy-tuning-evaluates-invalid-parameters", a.wrong);
  std::vector<double> best = values(start);
  double lowest = INF;
  for (const auto &x : a.calls)
    if (x.second < lowest)
      best = x.first, lowest = x.second;
  c.check(values(out) == best, "greedy-tuning-does-not-return-the-best", "returned" + show(values(out)) + " but the best it tried was" + show(best));
  for (const auto &p : start)
    c.check(out.count(p.first) && out.at(p.first).prior.get_name() == p.second.prior.get_name() && out.size() == start.size(), "greedy-tuning-changes-priors", p.first);

  // the course of the search
  const std::size_t n = tunable.values.size();
  std::vector<std::size_t> where; // index of the tunable ones among all
  {
    std::size_t i = 0;
    for (const auto &p : start) {
      if (!p.second.is_fixed())
        where.push_back(i);
      ++i;
    }
  }
  const std::size_t each = 2 * static_cast<std::size_t>(queries);
  c.check(a.calls.size() == (n && rounds ? n * static_cast<std::size_t>(rounds) * each + 1 : 0), "greedy-tuning-tries-another-number-of-points", std::to_string(a.calls.size()) + " evaluations");
  std::size_t at = 0;
  std::vector<double> now = values(start);
  lowest = INF;
  bool start_tried = false;
  for (int r = 0; r < rounds; ++r)
    for (std::size_t i = 0; i < n; ++i) {
      const std::size_t w = where[i];
      auto it = start.begin();
      std::advance(it, static_cast<long>(w));
      const double lo = it->second.prior.lower_bound(), hi = it->second.prior.upper_bound();
      const std::vector<double> center = now;
      std::size_t below = 0, above = 0;
      const std::size_t tries = each + (r == 0 && i == 0 ? 1 : 0);
      for (std::size_t k = 0; k < tries; ++k, ++at) {
        const auto &x = a.calls[at];
        double same = 0.;
        for (std::size_t j = 0; j < x.first.size(); ++j)
          if (j != w) // (the logarithm of a log scale is rounded)
            same = std::max(same, std::abs(x.first[j] - center[j]) - 1e-12 * std::abs(center[j]));
        c.check(same <= 0., "greedy-tuning-changes-several-parameters", "step " + std::to_string(at) + show(x.first) + " from" + show(center));
        const double slack = 1e-13 * std::abs(center[w]);
        if (x.first[w] < center[w] - slack)
          ++below;
        else if (x.first[w] > center[w] + slack)
          ++above;
        else
          start_tried = start_tried || (r == 0 && i == 0);
        if (x.second < lowest)
          now = x.first, lowest = x.second;
      }
      const bool low = center[w] <= lo, high = center[w] >= hi;
      const bool rounded = it->second.prior.is_log_scale() && (std::abs(center[w] - lo) < 1e-12 || std::abs(center[w] - hi) < 1e-12);
      if (!low && !high && !rounded)
        c.check(below == each / 2 && above == each / 2, "greedy-tuning-does-not-look-to-both-sides", std::to_string(below) + " below and " + std::to_string(above) + " above" + show({center[w]}));
      else if (!rounded)
        c.check(low ? above == each : below == each, "greedy-tuning-looks-beyond-the-bound", std::to_string(below) + " below and " + std::to_string(above) + " above" + show({center[w]}));
    }
  if (n && rounds)
    c.check(start_tried, "greedy-tuning-never-tries-the-start", "start");
  c.state(text + show(values(out)));
}

// Tuning a model: the metric of every data set at the proposed parameters,
// aggregated; the model itself is not changed.
MC_SCENARIO(models) {
  std::string text;
  const ParameterStore start = store(c, 2, kinds().size(), text);
  c.assume(!get_tunable_parameters(start).values.empty());
  const int n = c.range(1, 3);
  const int how = c.choose(3); // one data set / a vector with the mean / a vector with the largest
  c.assume(how > 0 || n == 1);
  const int algorithm = c.choose(3);
  c << text << "; " << n << " data sets " << how << ", optimizer " << algorithm;
  std::vector<RegressionDataset<double>> datasets;
  for (int i = 0; i < n; ++i) {
    std::vector<double> f;
    Eigen::VectorXd y(i + 1);
    for (int j = 0; j <= i; ++j)
      f.push_back(j), y[j] = 10. * i + j;
    datasets.emplace_back(f, MarginalDistribution(y));
  }
  const int evals = mc::tiered(3, 4);
  Adversary a{&c, {0., 3., std::nan("")}, mc::tiered(3, 5), start, {}, {}, ""};
  std::vector<Given> given;
  // the metric of data set i is the answer plus i
  std::function<double(const Given &)> metric = [&](const Given &g) {
    given.push_back(g);
    return a(g.params) + static_cast<double>(g.data.size() - 1);
  };
  Reporting reporting;
  reporting.to = &metric;
  const NullModel model(start);
  std::ostringstream log;
  const TuningMetricAggregator largest = [](const std::vector<double> &m) {
    double out = m.at(0);
    for (double x : m)
      out = std::isnan(out) || std::isnan(x) ? std::nan("") : std::max(out, x);
    return out;
  };
  auto tuner = how == 0 ? get_tuner(model, reporting, datasets[0], mean_aggregator, log) : get_tuner(model, reporting, datasets, how == 1 ? mean_aggregator : largest, log);
  if (algorithm == 1)
    tuner.initialize_optimizer(nlopt::LN_NELDERMEAD);
  else if (algorithm == 2)
    tuner.optimizer = default_gradient_optimizer(start);
  tuner.optimizer.set_maxeval(algorithm == 2 ? 2 : evals);
  ParameterStore out;
  try {
    out = tuner.tune();
  } catch (const std::exception &e) {
    if (a.interrupted)
      std::rethrow_exception(a.interrupted);
    if (algorithm == 2 && given_up(e))
      return;
    c.fail(std::string("tuning-a-model-throws-") + e.what(), e.what());
  }
  judge(c, a, values(out));
  c.check(tuner.model.get_params() == start, "tuning-changes-the-model", "parameters of the model in the tuner");
  c.check(given.size() % static_cast<std::size_t>(n) == 0, "metric-of-some-data-sets-only", std::to_string(given.size()) + " calls");
  // the optimizer (and its limit) is the one which was chosen
  const std::size_t most = (algorithm == 2 ? 2 + 1 : static_cast<std::size_t>(evals) + 1) * (algorithm == 2 ? get_tunable_parameters(start).values.size() + 1 : 1);
  c.check(given.size() <= most * static_cast<std::size_t>(n), "tuned-by-another-optimizer", std::to_string(given.size()) + " calls, " + std::to_string(most) + " for each data set expected");
  for (std::size_t i = 0; i < given.size(); ++i) {
    c.check(given[i].data.size() == i % static_cast<std::size_t>(n) + 1, "metric-of-another-data-set", "call " + std::to_string(i));
    c.check(given[i].params == given[i - i % static_cast<std::size_t>(n)].params, "metric-at-other-parameters", "call " + std::to_string(i));
  }
  // what the optimizer was told is the aggregate
  const double at = as_number(a.known.at(values(out)));
  std::string line = log.str().substr(log.str().rfind("minimum: ") + 9);
  const double told = std::stod(line);
  const double extra = how == 1 ? (n - 1) / 2. : n - 1;
  if (!std::isinf(at) || !std::isinf(told))
    c.close(told, at + extra, "aggregate-of-the-metrics", "minimum", 1e-5, 1e-5);
  c.state(text + std::to_string(n) + show(values(out)));
}

// The mean of every list of metrics.
MC_SCENARIO(aggregates) {
  const int n = c.range(1, 5);
  std::vector<double> m;
  long double sum = 0;
  for (int i = 0; i < n; ++i) {
    m.push_back(c.pick<double>({0., 1., -2.5, 1e6, INF}));
    sum += m.back();
  }
  c << "mean of" << show(m);
  c.close(mean_aggregator(m), static_cast<double>(sum / n), "mean-of-metrics", "mean", 1e-12, 1e-12);
  c.state(show(m));
}

namespace {
// Numbers of which many are not the exponential of their logarithm.
const std::vector<double> &ends() {
  static const std::vector<double> all = [] {
    std::vector<double> v;
    for (int i = 1; i <= mc::tiered(24, 200); ++i)
      v.push_back(0.35 * i);
    for (double x : {1e-9, 3e-4, 0.1, 7., 1e5, 3.3e8})
      v.push_back(x);
    return v;
  }();
  return all;
}
} // namespace

// The best value lies on (or beyond) a bound, whichever the bound is.
MC_SCENARIO(pulled_to_a_bound) {
  const double end = c.pick<double>(ends());
  const bool upper = c.flip(), at_start = c.flip();
  const int scale = c.choose(2), how = c.choose(5);
  c.assume(how != 3 || (end >= 0.1 && end <= 1e4)); // (SLSQP gives up on slopes of 1e9)
  const double lo = upper ? end / 8. : end, hi = upper ? end : end * 8.;
  const double begin = at_start ? end : end * (upper ? 0.6 : 1.7);
  const PriorContainer prior = scale == 0 ? PriorContainer(LogScaleUniformPrior(lo, hi)) : PriorContainer(UniformPrior(lo, hi));
  const ParameterStore start = {{"a", Parameter(2., FixedPrior())}, {"b", Parameter(begin, prior)}};
  std::ostringstream s;
  s.precision(17);
  s << (scale ? "uniform" : "log scale") << " [" << lo << ", " << hi << "] from " << begin << (upper ? " up" : " down") << " tuner " << how;
  c << s.str();
  c.state(s.str());
  c.step();
  std::string wrong;
  const auto f = [&](const ParameterStore &p) {
    const double v = p.at("b").value;
    if (!(v >= lo && v <= hi) || !params_are_valid(p)) {
      std::ostringstream w;
      w.precision(17);
      w << "evaluated at " << v;
      wrong = w.str();
    }
    return (upper ? -1. : 1.) * v / end;
  };
  const auto values = [&](const std::vector<double> &x) {
    return f(set_tunable_params_values(start, x));
  };
  ParameterStore out = start;
  std::ostringstream log;
  const auto tuned = [&](GenericTuner &tuner) {
    tuner.optimizer.set_maxeval(30);
    auto of_params = [&](const ParameterStore &p) { return f(p); };
    auto of_values = [&](const std::vector<double> &x) { return values(x); };
    if (how == 4)
      out = set_tunable_params_values(start, tuner.tune(of_values));
    else
      out = tuner.tune(of_params);
  };
  if (how == 0) {
    // every value which is inside, on, and outside of the bounds
    const auto t = get_tunable_parameters(start);
    for (const double d : {-1., 0., 1.})
      for (const auto &from : {t.values, t.lower_bounds, t.upper_bounds}) {
        const auto p = set_tunable_params_values(start, {from[0] + d});
        f(p);
        const double raw = scale == 0 ? std::exp(from[0] + d) : from[0] + d;
        c.check(p.at("b").value == std::min(hi, std::max(lo, raw)), "value-within-bounds", s.str());
        c.check(set_tunable_params_values(start, {from[0] + d}, false).at("b").value == raw, "value-as-given", s.str());
      }
  } else if (how == 1) {
    out = greedy_tune(f, start, 2, 3, nullptr, nullptr);
  } else if (how == 3) {
    GenericTuner tuner(start, log);
    tuner.optimizer = default_gradient_optimizer(start);
    tuned(tuner);
  } else {
    GenericTuner tuner(start, log);
    tuned(tuner);
  }
  c.check(wrong.empty(), "evaluated-outside", s.str() + ": " + wrong);
  c.check(f(out) <= f(start) || mc::near(f(out), f(start), 1e-9, 1e-9), "not-worse", s.str());
  c.check(wrong.empty(), "result-outside", s.str() + ": " + wrong);
  c.check(out.at("a").value == 2., "fixed-moved", s.str());
}
