// C20, part: sparse Gaussian processes with the decomposition C20_QR against
// their closed form.
#include <albatross/SparseGP>

#include "gp_oracle.h"
#include "scaled.h"

#include <set>

using namespace albatross;

namespace {

// Inducing points may be of another type than the features.
struct Knot {
  double at;
  bool operator==(const Knot &o) const { return at == o.at; }
};
struct Trend : public MeanFunction<Trend> {
  ALBATROSS_DECLARE_PARAMS(level, tilt)
  Trend() {
    level = {0.7, FixedPrior()};
    tilt = {-0.4, FixedPrior()};
  }
  double _call_impl(const double &x) const { return level.value + tilt.value * x; }
  double _call_impl(const Measurement<double> &m) const { return _call_impl(m.value) + 0.2; } // (the instrument's)
  double _call_impl(const Knot &x) const { return 0.35 * (level.value + tilt.value * x.at); }
};
law::Real trend(const law::Term &t) { return 0.7L - 0.4L * t.x + (t.measured ? 0.2L : 0.L); }
law::Real zero(const law::Term &) { return 0.L; }

struct WithKnots : public CovarianceFunction<WithKnots> {
  static double f(double d) { return std::exp(-d * d / 2.25); }
  double _call_impl(const double &a, const double &b) const { return 4. * f(a - b); }
  double _call_impl(const double &a, const Knot &b) const { return 1.4 * f(a - b.at); }
  double _call_impl(const Knot &a, const Knot &b) const { return 0.49 * f(a.at - b.at); }
};

law::Real k_smooth(const law::Term &a, const law::Term &b) {
  const law::Real d = (static_cast<law::Real>(a.x) - b.x) / 1.5L;
  return 4.L * std::exp(-d * d);
}
law::Real k_measured(const law::Term &a, const law::Term &b) { return k_smooth(a, b) + (a.x == b.x && a.measured && b.measured ? 0.25L : 0.L); }
law::Real k_knots(const law::Term &a, const law::Term &b) { return (a.kind ? 0.7L : 2.L) * (b.kind ? 0.7L : 2.L) * k_smooth(a, b) / 4.L + (a.x == b.x && a.measured && b.measured ? 0.25L : 0.L); }

const double GRID[] = {-1., 0., 1., 2.25, 4.};
const std::vector<double> ASKED = {0.5, 1., -1., 3.};

struct Data {
  std::vector<double> x;
  Eigen::VectorXd y, var;
  std::string text;
  bool repeats = false;
};
Data data(mc::Ctx &c, int least, int most) {
  Data d;
  const int n = c.range(least, most);
  d.y.resize(n);
  d.var.resize(n);
  const int pattern = mc::thorough() || n < most ? c.choose(2) : 1;
  d.text = "data";
  for (int i = 0; i < n; ++i) {
    d.x.push_back(GRID[c.choose(5)]);
    for (int j = 0; j < i; ++j)
      d.repeats = d.repeats || d.x[static_cast<std::size_t>(j)] == d.x.back();
    d.y[i] = 1. + 0.75 * i * i - i;
    d.var[i] = pattern == 0 ? 0.3 : 0.05 + 0.4 * i;
    d.text += " " + std::to_string(d.x.back()).substr(0, 5);
  }
  d.text += " noise " + std::to_string(pattern);
  return d;
}
RegressionDataset<double> part(const Data &d, int from, int n) {
  const auto b = d.x.begin() + from;
  const Eigen::VectorXd y = d.y.segment(from, n), v = d.var.segment(from, n);
  return RegressionDataset<double>(std::vector<double>(b, b + n), MarginalDistribution(y, v));
}

// The groups: each datum its own, halves (named so that their order is not the
// order of the data), alternating, all in one.
int group_of(int which, double x) {
  switch (which) {
  case 0:
    return static_cast<int>(8 * x);
  case 1:
    return x > 0.5 ? -1 : 1;
  case 2:
    return x == 0. || x == 2.25 ? 7 : 3;
  case 4: // many groups, their members far from each other
    return (static_cast<int>(std::floor(8. * x)) % 7 + 7) % 7;
  case 5: // runs, the last first
    return -static_cast<int>(std::floor(x / 3.));
  default:
    return 0;
  }
}
struct Grouper {
  int which = 0;
  int operator()(const double &x) const { return group_of(which, x); }
};
const int GROUPINGS = 4;

// The inducing points.
std::vector<double> inducing(int which, const std::vector<double> &x) {
  switch (which) {
  case 0: { // every location (once)
    std::set<double> s(x.begin(), x.end());
    return std::vector<double>(s.rbegin(), s.rend());
  }
  case 1:
    return {0.5};
  case 2:
    return {3., -1.5};
  case 3:
    return {-1., 0., 1., 2.25, 4.};
  case 5:
  case 6: { // many, in no order
    std::vector<double> u;
    const int n = which == 5 ? 9 : 17;
    for (int i = 0; i < n; ++i)
      u.push_back(-9.5 + 19. * ((i * 5) % n) / (n - 1));
    return u;
  }
  default: // spread over the data
    double lo = x[0], hi = x[0];
    for (double v : x) {
      lo = std::min(lo, v);
      hi = std::max(hi, v);
    }
    return {lo, 0.5 * (lo + hi), hi};
  }
}
template <typename U> struct Inducing {
  int which = 0;
  template <typename Cov> std::vector<U> operator()(const Cov &, const std::vector<double> &x) const {
    std::vector<U> u;
    for (double v : inducing(which, x))
      u.push_back(U{v});
    return u;
  }
};
const int INDUCINGS = 5;

law::Vec vec(const Eigen::VectorXd &v) { return v.cast<law::Real>(); }
law::Mat noise(const Eigen::VectorXd &v) { return law::Mat(vec(v).asDiagonal()); }
void same(mc::Ctx &c, const Eigen::MatrixXd &got, const law::Mat &want, const char *key, const std::string &what, double tol) {
  c.check(got.rows() == want.rows() && got.cols() == want.cols(), key, what + " shape");
  if (got.rows() != want.rows() || got.cols() != want.cols())
    return;
  for (Eigen::Index i = 0; i < got.rows(); ++i)
    for (Eigen::Index j = 0; j < got.cols(); ++j)
      c.close(got(i, j), static_cast<double>(want(i, j)), key, what, tol, tol);
}
template <typename P> void predicts(mc::Ctx &c, const P &p, const law::Gaussian &want, const std::string &key, const std::string &what, double tol) {
  const auto joint = p.joint();
  const auto marginal = p.marginal();
  same(c, p.mean(), want.mean, (key + "-mean").c_str(), what, tol);
  same(c, joint.mean, want.mean, (key + "-joint-mean").c_str(), what, tol);
  same(c, joint.covariance, want.cov, (key + "-covariance").c_str(), what, tol);
  same(c, marginal.mean, want.mean, (key + "-marginal-mean").c_str(), what, tol);
  same(c, Eigen::VectorXd(marginal.covariance.diagonal()), law::Vec(want.cov.diagonal()), (key + "-variance").c_str(), what, tol);
}
std::vector<law::Feature> points(const std::vector<double> &x, int kind = 0) {
  std::vector<law::Feature> f;
  for (double v : x)
    f.push_back({{1., v, false, kind}});
  return f;
}

// The closed form: all that ties groups together are the inducing points.
struct Closed {
  law::Kernel k;
  law::Mean m;
  int kind = 0;
  law::Real measurement_nugget, inducing_nugget;

  law::Mat kuu(const std::vector<double> &u) const {
    const auto f = points(u, kind);
    law::Mat c = law::cov(k, f, f);
    c.diagonal().array() += inducing_nugget;
    return c;
  }
  // prior covariance of the data, given the groups
  law::Mat train(const std::vector<law::Feature> &x, const std::vector<std::pair<int, int>> &group, const law::Mat &noise, const std::vector<double> &u) const {
    const law::Mat ku = law::cov(k, points(u, kind), x);
    law::Mat c = ku.transpose() * law::solve(kuu(u), ku);
    const law::Mat full = law::cov(k, x, x);
    for (std::size_t i = 0; i < x.size(); ++i)
      for (std::size_t j = 0; j < x.size(); ++j)
        if (group[i] == group[j])
          c(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j)) = full(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j));
    c += noise;
    c.diagonal().array() += measurement_nugget;
    return c;
  }
  law::Gaussian predict(const std::vector<law::Feature> &x, const std::vector<std::pair<int, int>> &group, const law::Vec &y, const law::Mat &noise, const std::vector<double> &u, const std::vector<law::Feature> &test) const {
    const law::Mat ku = law::cov(k, points(u, kind), x), kt = law::cov(k, points(u, kind), test);
    const law::Mat c = ku.transpose() * law::solve(kuu(u), kt);
    const law::Mat s = law::solve(train(x, group, noise, u), c);
    return {law::mean(m, test) + s.transpose() * (y - law::mean(m, x)), law::cov(k, test, test) - c.transpose() * s};
  }
};

template <typename Cov, typename Mean, typename U> auto sparse(const Cov &cov, const Mean &mean, int grouping, int which, int nuggets, Closed *closed) {
  auto m = sparse_gp_from_covariance_and_mean(cov, mean, Grouper{grouping}, Inducing<U>{which}, "sparse", C20_QR{});
  closed->measurement_nugget = closed->inducing_nugget = 1e-8L;
  if (nuggets == 1) {
    m.set_param("measurement_nugget", Parameter{0.05});
    m.set_param("inducing_nugget", Parameter{0.02});
    closed->measurement_nugget = static_cast<law::Real>(0.05);
    closed->inducing_nugget = static_cast<law::Real>(0.02);
  }
  return m;
}
double tolerance(int nuggets) { return nuggets == 1 ? 1e-8 : 2e-6; }

using SE = SquaredExponential<EuclideanDistance>;
// Calls f(model, closed form) with the chosen model.
template <typename F> void with_model(mc::Ctx &c, int grouping, int which, int nuggets, std::string *text, const F &f) {
  Closed closed;
  const int model = c.choose(3);
  *text += " model " + std::to_string(model) + " grouping " + std::to_string(grouping) + " inducing " + std::to_string(which) + " nuggets " + std::to_string(nuggets);
  if (model == 0) {
    closed.k = k_smooth;
    closed.m = zero;
    f(sparse<SE, ZeroMean, double>(SE(1.5, 2.), ZeroMean(), grouping, which, nuggets, &closed), closed);
  } else if (model == 1) {
    closed.k = k_measured;
    closed.m = trend;
    const auto cov = SE(1.5, 2.) + measurement_only(IndependentNoise<double>(0.5));
    f(sparse<std::decay_t<decltype(cov)>, Trend, double>(cov, Trend(), grouping, which, nuggets, &closed), closed);
  } else {
    closed.k = k_knots;
    closed.m = trend;
    closed.kind = 1;
    const auto cov = WithKnots() + measurement_only(IndependentNoise<double>(0.5));
    f(sparse<std::decay_t<decltype(cov)>, Trend, Knot>(cov, Trend(), grouping, which, nuggets, &closed), closed);
  }
}
std::vector<std::pair<int, int>> groups(const std::vector<double> &x, int grouping, int from = 0) {
  std::vector<std::pair<int, int>> g;
  for (std::size_t i = 0; i < x.size(); ++i)
    g.push_back({static_cast<int>(i) < from ? 0 : 1, group_of(grouping, x[i])});
  return g;
}

} // namespace

#define C20_SCENARIO_(n, q) MC_SCENARIO(n##_##q)
#define C20_SCENARIO2(n, q) C20_SCENARIO_(n, q)
#define C20_SCENARIO(n) C20_SCENARIO2(n, C20_NAME)

C20_SCENARIO(closed_form) {
  const int grouping = c.choose(GROUPINGS), which = c.choose(INDUCINGS), nuggets = c.choose(2);
  std::string s;
  with_model(c, grouping, which, nuggets, &s, [&](const auto &m, const Closed &closed) {
    const Data d = data(c, 1, mc::tiered(3, 4));
    s = d.text + s;
    c << s;
    c.state(s);
    c.step();
    const auto x = law::measured(points(d.x));
    const auto u = inducing(which, d.x);
    const auto g = groups(d.x, grouping);
    const double tol = tolerance(nuggets);
    const auto fit = m.fit(part(d, 0, static_cast<int>(d.x.size())));
    const auto want = closed.predict(x, g, vec(d.y), noise(d.var), u, points(ASKED));
    predicts(c, fit.predict(ASKED), want, "sparse", s, tol);
    const auto noisy = closed.predict(x, g, vec(d.y), noise(d.var), u, law::measured(points(ASKED)));
    predicts(c, fit.predict_with_measurement_noise(ASKED), noisy, "sparse-measured", s, tol);
    // log likelihood
    const law::Vec r = vec(d.y) - law::mean(closed.m, x);
    const double ll = static_cast<double>(law::log_density(r, closed.train(x, g, noise(d.var), u)));
    c.close(m.log_likelihood(part(d, 0, static_cast<int>(d.x.size()))) - m.prior_log_likelihood(), ll, "sparse-log-likelihood", s, 1e-5, 1e-5);
    // inducing points everywhere (and nothing added): the exact process
    if ((which == 0 || which == 3) && nuggets == 0 && closed.kind == 0 && !d.repeats) {
      const auto exact = law::condition(closed.k, closed.m, points(d.x), x, vec(d.y), noise(d.var), points(ASKED));
      predicts(c, fit.predict(ASKED), exact, "sparse-exact", s, 1e-5);
    }
  });
}

// The order of the data does not matter.
C20_SCENARIO(reordered) {
  const int grouping = c.choose(GROUPINGS), which = c.choose(INDUCINGS);
  std::string s;
  with_model(c, grouping, which, 1, &s, [&](const auto &m, const Closed &) {
    Data d = data(c, mc::tiered(3, 4), mc::tiered(3, 4));
    const auto p = c.permutation(static_cast<int>(d.x.size()));
    Data e = d;
    for (std::size_t i = 0; i < d.x.size(); ++i) {
      const auto j = static_cast<std::size_t>(p[i]);
      e.x[i] = d.x[j];
      e.y[static_cast<Eigen::Index>(i)] = d.y[static_cast<Eigen::Index>(j)];
      e.var[static_cast<Eigen::Index>(i)] = d.var[static_cast<Eigen::Index>(j)];
      s += " " + std::to_string(j);
    }
    s = d.text + s;
    c << s;
    c.state(s);
    c.step(2);
    const int n = static_cast<int>(d.x.size());
    const auto a = m.fit(part(d, 0, n)).predict(ASKED).joint(), b = m.fit(part(e, 0, n)).predict(ASKED).joint();
    same(c, a.mean, vec(b.mean), "sparse-reordered-mean", s, 1e-8);
    same(c, a.covariance, b.covariance.template cast<law::Real>(), "sparse-reordered-covariance", s, 1e-8);
    c.close(m.log_likelihood(part(d, 0, n)), m.log_likelihood(part(e, 0, n)), "sparse-reordered-log-likelihood", s, 1e-8, 1e-8);
  });
}

// Updating is fitting to everything with the inducing points of the first
// data, groups of different updates being different groups.
C20_SCENARIO(updated) {
  const int grouping = c.choose(GROUPINGS), which = c.choose(INDUCINGS), nuggets = c.choose(2);
  std::string s;
  with_model(c, grouping, which, nuggets, &s, [&](const auto &m, const Closed &closed) {
    const Data d = data(c, 2, mc::tiered(3, 4));
    const int n = static_cast<int>(d.x.size());
    const int cut = c.range(1, n - 1), again = c.range(cut, n - 1);
    c.assume(!d.repeats || closed.kind == 0);
    s = d.text + s + " cut " + std::to_string(cut) + " " + std::to_string(again);
    c << s;
    c.state(s);
    c.step(2);
    auto fit = m.fit(part(d, 0, cut));
    auto g = groups(d.x, grouping, cut);
    if (again > cut) { // in three pieces
      for (int i = again; i < n; ++i)
        g[static_cast<std::size_t>(i)].first = 2;
      fit = fit.update(part(d, cut, again - cut));
      const auto kept = fit;
      fit.update_in_place(part(d, again, n - again));
      c.check(fit == update(kept, part(d, again, n - again)), "update-in-place", s);
    } else {
      fit = fit.update(part(d, cut, n - cut));
    }
    // a location measured in two pieces: the noise is shared by no one
    auto x = law::measured(points(d.x));
    const auto u = inducing(which, std::vector<double>(d.x.begin(), d.x.begin() + cut));
    const auto want = closed.predict(x, g, vec(d.y), noise(d.var), u, points(ASKED));
    predicts(c, fit.predict(ASKED), want, "sparse-updated", s, nuggets == 1 ? 1e-8 : 5e-6);
  });
}

// The same, with many data in many groups and many inducing points.
C20_SCENARIO(large) {
  const int n = c.pick<int>({7, 12, 17, 33}), grouping = c.choose(6), which = c.pick<int>({1, 3, 5, 6}), nuggets = c.choose(2), pieces = c.pick<int>({1, 2, 4});
  std::string s;
  with_model(c, grouping, which, nuggets, &s, [&](const auto &m, const Closed &closed) {
    Data d;
    d.y.resize(n);
    d.var.resize(n);
    for (int i = 0; i < n; ++i) {
      d.x.push_back(-9. + 18. * ((i * 5) % n) / n + 0.17 * (i % 3));
      d.y[i] = 2. * std::sin(0.9 * i) + 0.1 * i;
      d.var[i] = 0.05 + 0.3 * ((3 * i) % 5);
    }
    s = std::to_string(n) + " data" + s + " in " + std::to_string(pieces);
    c << s;
    c.state(s);
    c.step(2);
    const double tol = nuggets == 1 ? 1e-7 : 1e-5;
    auto g = groups(d.x, grouping);
    auto fit = m.fit(part(d, 0, n / pieces));
    for (int k = 1; k < pieces; ++k) {
      const int from = n * k / pieces, to = n * (k + 1) / pieces;
      for (int i = from; i < n; ++i)
        g[static_cast<std::size_t>(i)].first = 1 + k;
      if (k % 2)
        fit.update_in_place(part(d, from, to - from));
      else
        fit = fit.update(part(d, from, to - from));
    }
    const auto x = law::measured(points(d.x));
    const auto u = inducing(which, d.x);
    const std::vector<double> asked = {0.5, 1., -1., 3., -8.5, 9.25, -4.125, 6., 2., 0.1, 11.};
    predicts(c, fit.predict(asked), closed.predict(x, g, vec(d.y), noise(d.var), u, points(asked)), "sparse-large", s, tol);
    predicts(c, fit.predict_with_measurement_noise(asked), closed.predict(x, g, vec(d.y), noise(d.var), u, law::measured(points(asked))), "sparse-large-measured", s, tol);
    if (pieces > 1)
      return;
    const law::Vec r = vec(d.y) - law::mean(closed.m, x);
    const double ll = static_cast<double>(law::log_density(r, closed.train(x, g, noise(d.var), u)));
    c.close(m.log_likelihood(part(d, 0, n)) - m.prior_log_likelihood(), ll, "sparse-large-log-likelihood", s, 1e-5, 1e-5);
  });
}

// Rebasing onto points keeps the law at these; onto the same points it changes
// nothing anywhere.
C20_SCENARIO(rebased) {
  const int grouping = c.choose(2), which = c.choose(INDUCINGS), nuggets = c.choose(2), onto = c.choose(4);
  std::string s;
  with_model(c, grouping, which, nuggets, &s, [&](const auto &m, const Closed &closed) {
    const Data d = data(c, 1, mc::tiered(2, 3));
    s = d.text + s + " onto " + std::to_string(onto);
    c << s;
    c.state(s);
    c.step(2);
    if (which == 4) // (inducing points which coincide determine nothing)
      c.assume(std::any_of(d.x.begin(), d.x.end(), [&](double v) { return v != d.x[0]; }));
    const auto fit = m.fit(part(d, 0, static_cast<int>(d.x.size())));
    const auto same_points = rebase_inducing_points(fit, fit.get_fit().train_features);
    const auto before = fit.predict(ASKED).joint(), after = same_points.predict(ASKED).joint();
    const double tol = 2e-5;
    if (nuggets == 0) { // (a nugget of the inducing points is not carried over)
      same(c, after.mean, vec(before.mean), "rebased-mean", s, tol);
      same(c, after.covariance, before.covariance.template cast<law::Real>(), "rebased-covariance", s, tol);
    }
    if (closed.kind == 1)
      return;
    const std::vector<double> at = onto == 0 ? std::vector<double>{0.5} : onto == 1 ? std::vector<double>{4., -1.} : onto == 2 ? std::vector<double>{-1., 1., 3.} : d.x;
    c.assume(onto != 3 || !d.repeats);
    const auto moved = rebase_inducing_points(fit, at);
    const auto p = fit.predict(at).joint();
    predicts(c, moved.predict(at), {vec(p.mean), p.covariance.template cast<law::Real>()}, "rebased-onto", s, tol);
    c.check(moved.get_fit().train_features == at, "rebased-features", s);
  });
}

C20_SCENARIO(from_prediction) {
  const int source = c.choose(3), where = c.choose(4), order = c.choose(2), update = c.choose(3);
  std::string s = "source " + std::to_string(source) + " at " + std::to_string(where) + " order " + std::to_string(order) + " update " + std::to_string(update);
  with_model(c, 1, 3, 0, &s, [&](const auto &m, const Closed &closed) {
    if (closed.kind == 1)
      return;
    c << s;
    c.state(s);
    c.step();
    std::vector<double> u = where == 0 ? std::vector<double>{0.5} : where == 1 ? std::vector<double>{-1., 2.25} : where == 2 ? std::vector<double>{-1., 0.5, 3.} : std::vector<double>{-2., 0., 1.5, 4.};
    if (order)
      std::reverse(u.begin(), u.end());
    const auto at = points(u);
    const law::Mat kuu = law::cov(closed.k, at, at);
    law::Gaussian p{law::mean(closed.m, at), kuu};
    if (source == 0) {
      for (Eigen::Index i = 0; i < p.mean.size(); ++i)
        p.mean[i] -= 0.5L * (i + 1.L);
    } else if (source == 1) {
      p.cov *= 0.3L;
      p.cov.diagonal().array() += 0.1L;
      p.mean.array() += 2.L;
    } else {
      p = law::condition(closed.k, closed.m, points({0.5, 3., -2.}), law::measured(points({0.5, 3., -2.})), law::Vec::Constant(3, 2.L), law::Mat(0.1L * law::Mat::Identity(3, 3)), at);
    }
    const auto fit = m.fit_from_prediction(u, JointDistribution(p.mean.cast<double>(), p.cov.cast<double>()));
    predicts(c, fit.predict(u), p, "sparse-from-prediction", s, 1e-6);
    // elsewhere: the inducing points carry all that is known
    auto test = points(ASKED);
    const auto implied = [&](const std::vector<law::Feature> &t) {
      const law::Mat w = law::solve(kuu, law::cov(closed.k, at, t));
      return law::Gaussian{law::mean(closed.m, t) + w.transpose() * (p.mean - law::mean(closed.m, at)), law::cov(closed.k, t, t) - w.transpose() * (kuu - p.cov) * w};
    };
    predicts(c, fit.predict(ASKED), implied(test), "sparse-from-prediction-elsewhere", s, 1e-5);
    if (update == 0)
      return;
    // new data, each group independent given the inducing points
    const std::vector<double> more = update == 1 ? std::vector<double>{1.} : std::vector<double>{1., -1.};
    const Eigen::Index n = static_cast<Eigen::Index>(more.size());
    const Eigen::VectorXd y = Eigen::VectorXd::LinSpaced(n, 1., -2.), v = Eigen::VectorXd::Constant(n, 0.2);
    const law::Mat w = law::solve(kuu, law::cov(closed.k, at, law::measured(points(more))));
    const law::Mat full = law::cov(closed.k, law::measured(points(more)), law::measured(points(more)));
    const law::Mat q = w.transpose() * kuu * w;
    law::Mat a = noise(v);
    for (Eigen::Index i = 0; i < n; ++i)
      for (Eigen::Index j = 0; j < n; ++j)
        if (group_of(1, more[static_cast<std::size_t>(i)]) == group_of(1, more[static_cast<std::size_t>(j)]))
          a(i, j) += full(i, j) - q(i, j);
    // condition the inducing points, then carry over to the questions
    const law::Mat sy = w.transpose() * p.cov * w + a;
    const law::Mat gain = law::solve(sy, w.transpose() * p.cov);
    law::Gaussian pu;
    pu.mean = p.mean + gain.transpose() * (vec(y) - law::mean(closed.m, law::measured(points(more))) - w.transpose() * (p.mean - law::mean(closed.m, at)));
    pu.cov = p.cov - p.cov * w * gain;
    p = pu;
    const auto updated = fit.update(RegressionDataset<double>(more, MarginalDistribution(y, v)));
    predicts(c, updated.predict(ASKED), implied(test), "sparse-from-prediction-updated", s, 1e-5);
  });
}

// As many points as asked for, evenly from the first to the last feature.
C20_SCENARIO(uniformly_spaced) {
  const int n = c.range(1, 41), which = c.choose(8);
  static const std::vector<std::vector<double>> kinds = {{0.}, {2., 2., 2.}, {-1., 3.}, {3., -1.}, {0.5, -2., 7., 1.}, {1e6, 1e6 + 1e-3, 1e6 + 2e-3}, {-4., -3., -9., -3.5, -4., -8., -8., -5., -6., -7., -3.25, -4.75}, {1e-9, 0.}};
  const std::vector<double> &x = kinds[static_cast<std::size_t>(which)];
  const std::string s = std::to_string(n) + " points for features " + std::to_string(which);
  c << s;
  c.state(s);
  c.step();
  const UniformlySpacedInducingPoints strategy(static_cast<std::size_t>(n));
  const auto u = strategy(SE(1.5, 2.), x);
  c.check(u.size() == static_cast<std::size_t>(n), "inducing-count", s);
  const auto ends = std::minmax_element(x.begin(), x.end());
  for (int i = 0; i < n && u.size() == static_cast<std::size_t>(n); ++i)
    c.close(u[static_cast<std::size_t>(i)], n == 1 ? *ends.first : *ends.first + (*ends.second - *ends.first) * i / (n - 1), "inducing-evenly", s, 0., 1e-12 * std::max(std::abs(*ends.first), std::abs(*ends.second)));
  c.check(UniformlySpacedInducingPoints().num_points == 10 && UniformlySpacedInducingPoints()(SE(1.5, 2.), x).size() == 10, "inducing-default", s);
}

// The strategies which come with the library, and replacing them.
C20_SCENARIO(strategies) {
  const int n = c.range(1, 5), replace = c.choose(4);
  Data d = data(c, 1, 3);
  const std::string s = d.text + " uniform " + std::to_string(n) + " replace " + std::to_string(replace);
  c << s;
  c.state(s);
  c.step();
  const auto both = std::minmax_element(d.x.begin(), d.x.end());
  c.assume(*both.first != *both.second || n == 1);
  Closed closed;
  closed.k = k_smooth;
  closed.m = trend;
  closed.measurement_nugget = closed.inducing_nugget = 1e-8L;
  auto m = sparse_gp_from_covariance_and_mean(SE(1.5, 2.), Trend(), Grouper{0}, UniformlySpacedInducingPoints(static_cast<std::size_t>(n)), "uniform", C20_QR{});
  std::vector<double> u;
  for (int i = 0; i < n; ++i)
    u.push_back(n == 1 ? *both.first : *both.first + (*both.second - *both.first) * i / (n - 1));
  int grouping = 0;
  if (replace & 1) {
    m.set_inducing_point_strategy(UniformlySpacedInducingPoints(2));
    c.assume(*both.first != *both.second);
    u = {*both.first, *both.second};
    c.check(m.get_inducing_point_strategy().num_points == 2, "inducing-strategy-replaced", s);
  }
  if (replace & 2) {
    m.set_grouper_function(Grouper{1});
    grouping = 1;
    c.check(m.get_grouper_function().which == 1, "grouper-replaced", s);
  }
  const auto fit = m.fit(part(d, 0, static_cast<int>(d.x.size())));
  const auto want = closed.predict(law::measured(points(d.x)), groups(d.x, grouping), vec(d.y), noise(d.var), u, points(ASKED));
  predicts(c, fit.predict(ASKED), want, "sparse-strategy", s, 2e-6);
  // inducing points by state space: those the covariance function names
  const SE cov(1.5, 2.);
  const auto ssr = cov.state_space_representation(d.x);
  if (ssr.empty())
    return;
  const auto by_state = sparse_gp_from_covariance_and_mean(cov, Trend(), Grouper{0}, "states", C20_QR{}).fit(part(d, 0, static_cast<int>(d.x.size())));
  c.check(by_state.get_fit().train_features == ssr, "state-space-strategy", s);
  predicts(c, by_state.predict(ASKED), closed.predict(law::measured(points(d.x)), groups(d.x, 0), vec(d.y), noise(d.var), ssr, points(ASKED)), "sparse-state-space", s, 1e-5);
}

// In other units (not so small that standard deviations come near the pivot
// threshold of 1e-15 which is documented for small sparse problems).
C20_SCENARIO(units_of_targets) {
  const int power = c.pick<int>({-30, -16, 16, 40, 120}), n = c.pick<int>({1, 3, 8}), grouping = c.choose(GROUPINGS), which = c.choose(INDUCINGS), updated = c.choose(2);
  const std::string s = "units 2^" + std::to_string(power) + " n=" + std::to_string(n) + " grouping " + std::to_string(grouping) + " inducing " + std::to_string(which) + (updated ? " updated" : "");
  c << s;
  c.state(s);
  c.step();
  const double unit = units::of(power);
  const auto in_units = [&](double u) {
    auto m = sparse_gp_from_covariance(SE(1.5, 2.) + measurement_only(IndependentNoise<double>(0.5)), Grouper{grouping}, Inducing<double>{which}, "sparse", C20_QR{});
    m.set_param_value("sigma_squared_exponential", 2. * u);
    m.set_param_value("sigma_independent_noise", 0.5 * u);
    m.set_param("measurement_nugget", Parameter{0.05 * u * u});
    m.set_param("inducing_nugget", Parameter{0.02 * u * u});
    return m;
  };
  const auto data = [&](int from, int size, double u) {
    std::vector<double> x;
    Eigen::VectorXd y(size), v(size);
    for (int i = 0; i < size; ++i) {
      x.push_back(0.9 * (from + i) - 1.);
      y[i] = u * (0.3 + 2. * std::sin(0.9 * (from + i)));
      v[i] = u * u * (0.1 + 0.3 * (i % 3));
    }
    return RegressionDataset<double>(x, MarginalDistribution(y, v));
  };
  const auto ma = in_units(1.), mb = in_units(unit);
  auto a = ma.fit(data(0, n, 1.));
  auto b = mb.fit(data(0, n, unit));
  if (updated) {
    a.update_in_place(data(n, 2, 1.));
    b.update_in_place(data(n, 2, unit));
  }
  units::scaled_prediction(c, b.predict(ASKED), a.predict(ASKED), unit, "units-prediction", s, 1e-6);
  c.close(mb.log_likelihood(data(0, n, unit)), ma.log_likelihood(data(0, n, 1.)) - n * power * std::log(2.), "units-likelihood", s, 1e-7, 1e-7);
}
