// C19: updating a fit equals fitting to everything at once; a fit from a
// prediction reproduces it and can be updated in turn.
#include <albatross/GP>

#include "gp_oracle.h"
#include "scaled.h"

using namespace albatross;

namespace {

using SE = SquaredExponential<EuclideanDistance>;
using Noise = IndependentNoise<double>;

struct Trend : public MeanFunction<Trend> {
  ALBATROSS_DECLARE_PARAMS(level, tilt)
  Trend() {
    level = {0.7, FixedPrior()};
    tilt = {-0.4, FixedPrior()};
  }
  double _call_impl(const double &x) const { return level.value + tilt.value * x; }
  double _call_impl(const Measurement<double> &m) const { return _call_impl(m.value) + 0.3; } // (the instrument's)
};
law::Real trend(const law::Term &t) { return 0.7L - 0.4L * t.x + (t.measured ? 0.3L : 0.L); }
law::Real zero(const law::Term &) { return 0.L; }
law::Real se(law::Real l, law::Real s, const law::Term &a, const law::Term &b) {
  const law::Real d = (static_cast<law::Real>(a.x) - b.x) / l;
  return s * s * std::exp(-d * d);
}
law::Real k_smooth(const law::Term &a, const law::Term &b) { return se(1.5L, 2.L, a, b); }
law::Real k_noisy(const law::Term &a, const law::Term &b) { return se(1.5L, 2.L, a, b) + (a.x == b.x ? 0.25L : 0.L); }
law::Real k_measured(const law::Term &a, const law::Term &b) { return se(1.5L, 2.L, a, b) + (a.x == b.x && a.measured && b.measured ? 0.25L : 0.L); }
law::Real k_constant(const law::Term &a, const law::Term &b) { return 0.25L * se(1.5L, 2.L, a, b) + 9.L + (a.x == b.x && a.measured && b.measured ? 0.25L : 0.L); }

const double GRID[] = {-1., 0., 1., 2.25, 4.};

struct Data {
  std::vector<double> x;
  Eigen::VectorXd y, var;
  std::string text;
  bool repeats = false;
};
Data data(mc::Ctx &c, int least, int most) {
  Data d;
  const int n = c.range(least, most);
  d.y.resize(n);
  d.var.resize(n);
  const int pattern = c.choose(4);
  d.text = "data";
  for (int i = 0; i < n; ++i) {
    d.x.push_back(GRID[c.choose(5)]);
    for (int j = 0; j < i; ++j)
      d.repeats = d.repeats || d.x[static_cast<std::size_t>(j)] == d.x.back();
    d.y[i] = 1. + 0.75 * i * i - i;
    d.var[i] = pattern == 0 ? 0. : pattern == 1 ? 0.3 : pattern == 2 ? 0.05 + 0.4 * i : i == 1 ? 0.6 : 0.;
    d.text += " " + std::to_string(d.x.back()).substr(0, 5);
  }
  c.assume(!(d.repeats && (pattern == 0 || pattern == 3)));
  d.text += " noise " + std::to_string(pattern);
  return d;
}
// Sizes of successive pieces, each at least one datum.
std::vector<int> pieces(mc::Ctx &c, int n, int most, std::string &text) {
  std::vector<int> p;
  int left = n;
  while (left > 0) {
    const bool last = static_cast<int>(p.size()) + 1 == most;
    p.push_back(last ? left : c.range(1, left));
    left -= p.back();
  }
  text += " in";
  for (int v : p)
    text += " " + std::to_string(v);
  return p;
}
RegressionDataset<double> part(const Data &d, int from, int n) {
  const auto b = d.x.begin() + from;
  const Eigen::VectorXd y = d.y.segment(from, n), v = d.var.segment(from, n);
  return RegressionDataset<double>(std::vector<double>(b, b + n), MarginalDistribution(y, v));
}

law::Vec vec(const Eigen::VectorXd &v) { return v.cast<law::Real>(); }
law::Mat noise(const Eigen::VectorXd &v) { return law::Mat(vec(v).asDiagonal()); }
void same(mc::Ctx &c, const Eigen::MatrixXd &got, const law::Mat &want, const char *key, const std::string &what, double tol = 1e-7) {
  c.check(got.rows() == want.rows() && got.cols() == want.cols(), key, what + " shape");
  if (got.rows() != want.rows() || got.cols() != want.cols())
    return;
  for (Eigen::Index i = 0; i < got.rows(); ++i)
    for (Eigen::Index j = 0; j < got.cols(); ++j)
      c.close(got(i, j), static_cast<double>(want(i, j)), key, what, tol, tol);
}
template <typename P> void predicts(mc::Ctx &c, const P &p, const law::Gaussian &want, const std::string &key, const std::string &what) {
  const auto joint = p.joint();
  const auto marginal = p.marginal();
  same(c, p.mean(), want.mean, (key + "-mean").c_str(), what);
  same(c, joint.mean, want.mean, (key + "-joint-mean").c_str(), what);
  same(c, joint.covariance, want.cov, (key + "-covariance").c_str(), what);
  same(c, marginal.mean, want.mean, (key + "-marginal-mean").c_str(), what);
  same(c, Eigen::VectorXd(marginal.covariance.diagonal()), law::Vec(want.cov.diagonal()), (key + "-variance").c_str(), what);
}
const std::vector<double> ASKED = {0.5, 1., -1., 3., 5.5, -2.25};
std::vector<law::Feature> points(const std::vector<double> &x) {
  std::vector<law::Feature> f;
  for (double v : x)
    f.push_back({{1., v, false}});
  return f;
}
std::vector<Measurement<double>> measurements(const std::vector<double> &x) {
  std::vector<Measurement<double>> f;
  for (double v : x)
    f.emplace_back(v);
  return f;
}

template <typename M, typename F> void in_pieces(mc::Ctx &c, const M &m, const F &fit, const Data &d, const std::vector<int> &p, std::size_t at, int from, const law::Gaussian &latent, const law::Gaussian &noisy) {
  if (at == p.size()) {
    predicts(c, fit.predict(ASKED), latent, "updated", d.text);
    predicts(c, fit.predict_with_measurement_noise(ASKED), noisy, "updated-measured", d.text);
    c.check(fit.get_fit().train_features == d.x, "train-features", d.text);
    return;
  }
  c.step();
  if constexpr (sizeof(typename F::fit_type) < 900) { // ends the recursion of types
    if (at % 2 == 0)
      in_pieces(c, m, fit.update(part(d, from, p[at])), d, p, at + 1, from + p[at], latent, noisy);
    else
      in_pieces(c, m, update(fit, part(d, from, p[at])), d, p, at + 1, from + p[at], latent, noisy);
  } else {
    c.fail("update-depth", "the harness does not go that deep");
  }
}

template <typename M> void updates(mc::Ctx &c, const M &m, const law::Kernel &k, const law::Mean &mean, bool measurement_noise) {
  Data d = data(c, 1, mc::tiered(4, 5));
  // two measurements of one value: one measurement within a data set, but
  // independent ones when they come one after the other
  c.assume(!(d.repeats && measurement_noise));
  const auto p = pieces(c, static_cast<int>(d.x.size()), mc::tiered(4, 5), d.text);
  c << d.text;
  c.state(d.text);
  c.step();
  const auto given = points(d.x);
  const auto latent = law::condition(k, mean, given, law::measured(given), vec(d.y), noise(d.var), points(ASKED));
  const auto noisy = law::condition(k, mean, given, law::measured(given), vec(d.y), noise(d.var), law::measured(points(ASKED)));
  const auto fit = m.fit(part(d, 0, p[0]));
  in_pieces(c, m, fit, d, p, 1, p[0], latent, noisy);
}

// Each piece in another wrapping.
template <int which> struct As;
template <> struct As<0> {
  using Type = double;
  static Type make(double x) { return x; }
  static law::Feature meaning(double x) { return {{1., x, false}}; }
  static law::Feature observed(double x) { return {{1., x, true}}; }
};
template <> struct As<1> {
  using Type = Measurement<double>;
  static Type make(double x) { return Measurement<double>(x); }
  static law::Feature meaning(double x) { return {{1., x, true}}; }
  static law::Feature observed(double x) { return meaning(x); }
};
template <> struct As<2> {
  using Type = LinearCombination<double>;
  static Type make(double x) { return LinearCombination<double>({x, x + 0.5}, Eigen::Vector2d(1., -0.25)); }
  static law::Feature meaning(double x) { return {{1., x, false}, {-0.25, x + 0.5, false}}; }
  static law::Feature observed(double x) { return meaning(x); }
};

template <typename A, typename B, typename M> void mixed(mc::Ctx &c, const M &m, const law::Kernel &k, const law::Mean &mean, const Data &d, int cut) {
  std::vector<typename A::Type> a;
  std::vector<typename B::Type> b;
  std::vector<law::Feature> given, observed;
  for (int i = 0; i < static_cast<int>(d.x.size()); ++i) {
    const double x = d.x[static_cast<std::size_t>(i)];
    if (i < cut)
      a.push_back(A::make(x));
    else
      b.push_back(B::make(x));
    given.push_back(i < cut ? A::meaning(x) : B::meaning(x));
    observed.push_back(i < cut ? A::observed(x) : B::observed(x));
  }
  const Eigen::Index n = d.y.size() - cut;
  const auto want = law::condition(k, mean, given, observed, vec(d.y), noise(d.var), points(ASKED));
  const auto fit = m.fit(a, MarginalDistribution(Eigen::VectorXd(d.y.head(cut)), Eigen::VectorXd(d.var.head(cut))));
  const auto updated = fit.update(b, MarginalDistribution(Eigen::VectorXd(d.y.tail(n)), Eigen::VectorXd(d.var.tail(n))));
  c.step(2);
  predicts(c, updated.predict(ASKED), want, "updated-mixed", d.text);
}
template <typename A, typename M> void mixed_second(mc::Ctx &c, const M &m, const law::Kernel &k, const law::Mean &mean, const Data &d, int cut, int second) {
  switch (second) {
  case 0:
    return mixed<A, As<0>>(c, m, k, mean, d, cut);
  case 1:
    return mixed<A, As<1>>(c, m, k, mean, d, cut);
  default:
    return mixed<A, As<2>>(c, m, k, mean, d, cut);
  }
}

// The law of a process whose law at some points is replaced by another one.
law::Gaussian replaced(const law::Kernel &k, const law::Mean &m, const std::vector<law::Feature> &at, const law::Gaussian &p, const std::vector<law::Feature> &test) {
  law::Gaussian g{law::mean(m, test), law::cov(k, test, test)};
  const law::Mat kuu = law::cov(k, at, at);
  const law::Mat w = law::solve(kuu, law::cov(k, at, test));
  g.mean += w.transpose() * (p.mean - law::mean(m, at));
  g.cov -= w.transpose() * (kuu - p.cov) * w;
  return g;
}
} // namespace

MC_SCENARIO(update_smooth) { updates(c, gp_from_covariance(SE(1.5, 2.)), k_smooth, zero, false); }
MC_SCENARIO(update_noisy) { updates(c, gp_from_covariance_and_mean(SE(1.5, 2.) + Noise(0.5), Trend()), k_noisy, trend, false); }
MC_SCENARIO(update_measured) { updates(c, gp_from_covariance_and_mean(SE(1.5, 2.) + measurement_only(Noise(0.5)), Trend()), k_measured, trend, true); }
MC_SCENARIO(update_constant) { updates(c, gp_from_covariance_and_mean(Constant(0.5) * SE(1.5, 2.) + measurement_only(Noise(0.5)) + Constant(3.), Trend()), k_constant, trend, true); }

// Many data, far apart and close by, in a few pieces.
MC_SCENARIO(large) {
  const int n = c.pick<int>({5, 8, 13, 24}), how = c.choose(6), which = c.choose(3), pattern = c.choose(4);
  Data d;
  d.y.resize(n);
  d.var.resize(n);
  for (int i = 0; i < n; ++i) {
    d.x.push_back(-6. + 12. * ((i * 7) % n) / n + 0.13 * (i % 3));
    d.y[i] = 2. * std::sin(0.9 * i) + 0.1 * i;
    d.var[i] = pattern == 0 ? 0.2 : pattern == 1 ? 0.05 + 0.3 * ((3 * i) % 5) : pattern == 2 ? 3. - 2.5 * i / n : i % 4 == 0 ? 0. : 0.4;
  }
  const std::vector<std::vector<int>> cuts = {{n / 2, n - n / 2}, {1, n - 1}, {n - 1, 1}, {n / 3, n / 3, n - 2 * (n / 3)}, {n / 4, 1, n - n / 4 - 2, 1}, {1, 1, 1, n - 3}};
  d.text = std::to_string(n) + " data noise " + std::to_string(pattern) + " cut " + std::to_string(how) + " model " + std::to_string(which);
  c << d.text;
  c.state(d.text);
  c.step();
  const std::vector<int> &p = cuts[static_cast<std::size_t>(how)];
  const auto go = [&](const auto &m, const law::Kernel &k, const law::Mean &mean) {
    const auto given = points(d.x);
    const auto latent = law::condition(k, mean, given, law::measured(given), vec(d.y), noise(d.var), points(ASKED));
    const auto noisy = law::condition(k, mean, given, law::measured(given), vec(d.y), noise(d.var), law::measured(points(ASKED)));
    in_pieces(c, m, m.fit(part(d, 0, p[0])), d, p, 1, p[0], latent, noisy);
  };
  if (which == 0)
    go(gp_from_covariance(SE(1.5, 2.)), k_smooth, zero);
  else if (which == 1)
    go(gp_from_covariance_and_mean(SE(1.5, 2.) + measurement_only(Noise(0.5)), Trend()), k_measured, trend);
  else
    go(gp_from_covariance_and_mean(Constant(0.5) * SE(1.5, 2.) + measurement_only(Noise(0.5)) + Constant(3.), Trend()), k_constant, trend);
}

// A law at many points, conditioned on many data.
MC_SCENARIO(large_from_prediction) {
  const int n = c.pick<int>({5, 9}), more = c.pick<int>({1, 2, 5, 9}), source = c.choose(3), which = c.choose(2);
  std::vector<double> u;
  for (int i = 0; i < n; ++i)
    u.push_back(-5. + 10. * ((i * 4) % n) / n);
  Data d;
  d.y.resize(more);
  d.var.resize(more);
  for (int i = 0; i < more; ++i) {
    d.x.push_back(-4.6 + 9. * ((i * 7) % more) / more);
    d.y[i] = 1. - 0.5 * i;
    d.var[i] = 0.1 + 0.2 * (i % 3);
  }
  const std::string s = std::to_string(n) + " points then " + std::to_string(more) + " source " + std::to_string(source) + " model " + std::to_string(which);
  c << s;
  c.state(s);
  c.step();
  const law::Mean mean = trend;
  const law::Kernel k = which == 0 ? k_smooth : k_measured;
  const auto at = points(u), test = points(ASKED);
  law::Gaussian p{law::mean(mean, at), law::cov(k, at, at)};
  if (source == 0) {
    for (Eigen::Index i = 0; i < n; ++i)
      p.mean[i] -= 0.5L * (i + 1.L);
  } else if (source == 1) {
    const auto seen = points({0.5, 3., -2., 4.25, -4.5});
    p = law::condition(k, mean, seen, law::measured(seen), law::Vec::LinSpaced(5, 2.L, -1.L), law::Mat(0.1L * law::Mat::Identity(5, 5)), at);
  } else {
    p.cov *= 1.5L;
    p.cov.diagonal().array() += 0.25L;
    p.mean *= -1.L;
  }
  auto all = law::measured(points(d.x));
  all.insert(all.end(), test.begin(), test.end());
  const auto law_all = replaced(k, mean, at, p, all);
  std::vector<std::size_t> seen;
  for (int i = 0; i < more; ++i)
    seen.push_back(static_cast<std::size_t>(i));
  const law::Mat extra = noise(d.var);
  const auto z = law::condition(law_all, seen, vec(d.y), extra);
  const Eigen::Index t = static_cast<Eigen::Index>(test.size());
  const law::Gaussian want{z.mean.tail(t), z.cov.bottomRightCorner(t, t)};
  const auto go = [&](const auto &m) {
    const auto fit = m.fit_from_prediction(u, JointDistribution(p.mean.cast<double>(), p.cov.cast<double>()));
    predicts(c, fit.predict(u), p, "from-prediction", s);
    predicts(c, fit.predict(ASKED), replaced(k, mean, at, p, test), "from-prediction-elsewhere", s);
    c.step();
    predicts(c, fit.update(part(d, 0, more)).predict(ASKED), want, "from-prediction-updated", s);
  };
  if (which == 0)
    go(gp_from_covariance_and_mean(SE(1.5, 2.), Trend()));
  else
    go(gp_from_covariance_and_mean(SE(1.5, 2.) + measurement_only(Noise(0.5)), Trend()));
}

MC_SCENARIO(update_mixed) {
  const int first = c.choose(3), second = c.choose(3), which = c.choose(2);
  Data d = data(c, 2, mc::tiered(3, 4));
  const int cut = c.range(1, static_cast<int>(d.x.size()) - 1);
  c.assume(!d.repeats);
  d.text += " cut " + std::to_string(cut) + " as " + std::to_string(first) + std::to_string(second) + std::to_string(which);
  c << d.text;
  c.state(d.text);
  const auto go = [&](const auto &m, const law::Kernel &k) {
    switch (first) {
    case 0:
      return mixed_second<As<0>>(c, m, k, trend, d, cut, second);
    case 1:
      return mixed_second<As<1>>(c, m, k, trend, d, cut, second);
    default:
      return mixed_second<As<2>>(c, m, k, trend, d, cut, second);
    }
  };
  if (which == 0)
    go(gp_from_covariance_and_mean(SE(1.5, 2.) + Noise(0.5), Trend()), k_noisy);
  else
    go(gp_from_covariance_and_mean(SE(1.5, 2.) + measurement_only(Noise(0.5)), Trend()), k_measured);
}

// A fit from the law at some points has that law there, the implied one
// elsewhere, and can be conditioned on more data.
MC_SCENARIO(from_prediction) {
  const int which = c.choose(2);
  std::vector<double> u;
  for (int i : c.subset(4))
    u.push_back(GRID[i]);
  c.assume(!u.empty());
  if (c.flip())
    std::reverse(u.begin(), u.end());
  const int source = c.choose(4);
  const Data more = data(c, 0, mc::tiered(1, 2));
  c.assume(!more.repeats);
  std::string s = std::to_string(which) + " at";
  for (double x : u)
    s += " " + std::to_string(x).substr(0, 5);
  s += " source " + std::to_string(source) + " then " + more.text;
  c << s;
  c.state(s);
  const law::Mean mean = trend;
  const law::Kernel k = which == 0 ? k_smooth : k_measured;
  const auto at = points(u), test = points(ASKED);
  law::Gaussian p{law::mean(mean, at), law::cov(k, at, at)};
  switch (source) {
  case 0: // known exactly
    p.cov.setZero();
    p.mean.array() += 1.L;
    break;
  case 1: // nothing learnt about the uncertainty
    for (Eigen::Index i = 0; i < p.mean.size(); ++i)
      p.mean[i] -= 0.5L * (i + 1.L);
    break;
  case 2: { // what a process fitted elsewhere predicts
    const auto seen = points({0.5, 3., -2.});
    p = law::condition(k, mean, seen, law::measured(seen), law::Vec::Constant(3, 2.L), law::Mat(0.1L * law::Mat::Identity(3, 3)), at);
    break;
  }
  default: // more uncertain than before
    p.cov *= 1.5L;
    p.cov.diagonal().array() += 0.25L;
    p.mean *= -1.L;
  }
  const JointDistribution prediction(p.mean.cast<double>(), p.cov.cast<double>());
  const auto go = [&](const auto &m) {
    const auto fit = m.fit_from_prediction(u, prediction);
    c.step();
    predicts(c, fit.predict(u), p, "from-prediction", s);
    const auto implied = replaced(k, mean, at, p, test);
    predicts(c, fit.predict(ASKED), implied, "from-prediction-elsewhere", s);
    if (more.x.empty())
      return;
    // condition the law over (new data, questions)
    auto all = law::measured(points(more.x));
    const auto n = all.size();
    all.insert(all.end(), test.begin(), test.end());
    auto law_all = replaced(k, mean, at, p, all);
    std::vector<std::size_t> seen;
    const law::Mat extra = noise(more.var);
    for (std::size_t i = 0; i < n; ++i)
      seen.push_back(i);
    // an exact observation of what is known exactly already has no law
    law::Mat a(n, n);
    for (std::size_t i = 0; i < n; ++i)
      for (std::size_t j = 0; j < n; ++j)
        a(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j)) = law_all.cov(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j));
    a += extra;
    const Eigen::FullPivLU<law::Mat> lu(a);
    c.assume(std::fabs(lu.matrixLU()(static_cast<Eigen::Index>(n) - 1, static_cast<Eigen::Index>(n) - 1)) > 1e-3L);
    const auto z = law::condition(law_all, seen, vec(more.y), extra);
    const Eigen::Index t = static_cast<Eigen::Index>(test.size());
    const law::Gaussian want{z.mean.tail(t), z.cov.bottomRightCorner(t, t)};
    c.step();
    predicts(c, fit.update(RegressionDataset<double>(more.x, MarginalDistribution(more.y, more.var))).predict(ASKED), want, "from-prediction-updated", s);
  };
  if (which == 0)
    go(gp_from_covariance_and_mean(SE(1.5, 2.), Trend()));
  else
    go(gp_from_covariance_and_mean(SE(1.5, 2.) + measurement_only(Noise(0.5)), Trend()));
}

// In other units.
MC_SCENARIO(units_of_targets) {
  const int power = units::power(c), n = c.pick<int>({1, 3, 8}), more = c.pick<int>({1, 4}), pattern = c.choose(2);
  const std::string s = "units 2^" + std::to_string(power) + " n=" + std::to_string(n) + " and " + std::to_string(more) + " noise " + std::to_string(pattern);
  c << s;
  c.state(s);
  c.step();
  const double unit = units::of(power);
  const auto in_units = [](double u) {
    auto m = gp_from_covariance(SE(1.5, 2.) + measurement_only(Noise(0.5)));
    m.set_param_value("sigma_squared_exponential", 2. * u);
    m.set_param_value("sigma_independent_noise", 0.5 * u);
    return m;
  };
  const auto data = [&](int from, int size, double u) {
    std::vector<double> x;
    Eigen::VectorXd y(size), v(size);
    for (int i = 0; i < size; ++i) {
      x.push_back(0.9 * (from + i) - 1.);
      y[i] = u * (0.3 + 2. * std::sin(0.9 * (from + i)));
      v[i] = u * u * (pattern ? 0.4 + 0.3 * i : 0.1);
    }
    return RegressionDataset<double>(x, MarginalDistribution(y, v));
  };
  const auto a = in_units(1.).fit(data(0, n, 1.)).update(data(n, more, 1.));
  const auto b = in_units(unit).fit(data(0, n, unit)).update(data(n, more, unit));
  units::scaled_prediction(c, b.predict(ASKED), a.predict(ASKED), unit, "units-update", s, 1e-6);
  const std::vector<double> at = {-1., 0.5, 2.};
  const auto p = a.predict(at).joint(), q = b.predict(at).joint();
  units::scaled_prediction(c, in_units(unit).fit_from_prediction(at, q).predict(ASKED), in_units(1.).fit_from_prediction(at, p).predict(ASKED), unit, "units-from-prediction", s, 1e-5);
}
