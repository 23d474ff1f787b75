// C25: conditional Gaussians against the conditional law in long double.
#include <albatross/GP>

#include "gp_oracle.h"
#include "scaled.h"

using namespace albatross;
using law::Real;

namespace {

struct World {
  JointDistribution prior;
  MarginalDistribution truth;
  std::string text;
  law::Gaussian z;
  int n = 0;
};
World world(mc::Ctx &c, int most, int least = 1) {
  World w;
  w.n = c.range(least, most);
  const int correlated = c.choose(4), noise = c.choose(4), mean = c.choose(2);
  Eigen::MatrixXd l = Eigen::MatrixXd::Identity(w.n, w.n);
  Eigen::VectorXd m(w.n), y(w.n), v(w.n);
  for (int i = 0; i < w.n; ++i) {
    m[i] = mean ? 1.5 - i : 0.;
    y[i] = 0.7 * i * i - 1.2;
    v[i] = noise == 0 ? 0. : noise == 1 ? 0.5 : noise == 2 ? 0.3 + 0.9 * i : i % 2 ? 0. : 2.;
    for (int j = 0; j < i; ++j)
      l(i, j) = correlated == 0 ? 0. : correlated == 1 ? 0.8 : correlated == 2 ? ((i + j) % 2 ? -1.1 : 0.4) : (j == 0 ? 3. : 0.1);
    l(i, i) = correlated == 3 ? 0.2 + i : 1. + 0.25 * i;
  }
  const Eigen::MatrixXd cov = l * l.transpose();
  w.prior = JointDistribution(m, cov);
  w.truth = MarginalDistribution(y, v);
  w.z = law::Gaussian{m.cast<Real>(), cov.cast<Real>()};
  w.text = "variables " + std::to_string(w.n) + " correlated " + std::to_string(correlated) + " noise " + std::to_string(noise) + " mean " + std::to_string(mean);
  return w;
}
law::Gaussian given(const law::Gaussian &z, const MarginalDistribution &truth, const std::vector<std::size_t> &at) {
  const auto n = static_cast<Eigen::Index>(at.size());
  law::Vec y(n);
  law::Mat noise = law::Mat::Zero(n, n);
  for (Eigen::Index i = 0; i < n; ++i) {
    y[i] = truth.mean[static_cast<Eigen::Index>(at[static_cast<std::size_t>(i)])];
    noise(i, i) = truth.covariance.diagonal()[static_cast<Eigen::Index>(at[static_cast<std::size_t>(i)])];
  }
  if (n == 0)
    return z;
  return law::condition(z, at, y, noise);
}
std::string show(const std::vector<std::size_t> &v) {
  std::string s = " (";
  for (auto x : v)
    s += " " + std::to_string(x);
  return s + " )";
}
void same(mc::Ctx &c, const JointDistribution &got, const law::Gaussian &z, const std::vector<std::size_t> &at, const char *key, const std::string &s) {
  c.check(got.mean.size() == static_cast<Eigen::Index>(at.size()) && got.covariance.rows() == got.mean.size(), key, s);
  for (std::size_t i = 0; i < at.size(); ++i) {
    const auto a = static_cast<Eigen::Index>(i);
    c.close(got.mean[a], static_cast<double>(z.mean[static_cast<Eigen::Index>(at[i])]), key, s, 1e-9, 1e-9);
    for (std::size_t j = 0; j < at.size(); ++j)
      c.close(got.covariance(a, static_cast<Eigen::Index>(j)), static_cast<double>(z.cov(static_cast<Eigen::Index>(at[i]), static_cast<Eigen::Index>(at[j]))), key, s, 1e-9, 1e-9);
  }
}
// Every way to ask for some variables: all of them forwards, backwards, each
// alone, the first twice, none.
std::vector<std::size_t> question(mc::Ctx &c, int n) {
  const int q = c.choose(n + 5);
  std::vector<std::size_t> at;
  for (int i = 0; i < n; ++i)
    at.push_back(static_cast<std::size_t>(i));
  if (q == 1)
    std::reverse(at.begin(), at.end());
  else if (q == 2)
    at = {0, 0};
  else if (q == 3)
    at = {};
  else if (q == 4 && n > 1)
    at = {static_cast<std::size_t>(n - 1), 0};
  else if (q > 4)
    at = {static_cast<std::size_t>(q - 5)};
  return at;
}
// Every sequence of different variables.
std::vector<std::size_t> sequence(mc::Ctx &c, int n, int most) {
  std::vector<std::size_t> left, out;
  for (int i = 0; i < n; ++i)
    left.push_back(static_cast<std::size_t>(i));
  while (!left.empty() && static_cast<int>(out.size()) < most) {
    const int k = c.choose(static_cast<int>(left.size()) + 1);
    if (k == 0)
      break;
    out.push_back(left[static_cast<std::size_t>(k - 1)]);
    left.erase(left.begin() + (k - 1));
  }
  return out;
}

} // namespace

namespace {
void check_subset(mc::Ctx &c, const World &w, const std::vector<std::size_t> &train, const std::vector<std::size_t> &test, const std::string &s) {
  const ConditionalGaussian model(w.prior, w.truth);
  const auto want = given(w.z, w.truth, train);
  const auto fit = model.fit(train);
  const auto joint = fit.predict(test).joint();
  same(c, joint, want, test, "joint", s);
  const auto marginal = fit.predict(test).marginal();
  const auto mean = fit.predict(test).mean();
  c.check(marginal.mean.size() == joint.mean.size() && mean.size() == joint.mean.size(), "sizes", s);
  for (std::size_t i = 0; i < test.size(); ++i) {
    const auto a = static_cast<Eigen::Index>(i), b = static_cast<Eigen::Index>(test[i]);
    c.close(marginal.mean[a], static_cast<double>(want.mean[b]), "marginal-mean", s, 1e-9, 1e-9);
    c.close(marginal.covariance.diagonal()[a], static_cast<double>(want.cov(b, b)), "marginal", s, 1e-9, 1e-9);
    c.close(mean[a], static_cast<double>(want.mean[b]), "mean", s, 1e-9, 1e-9);
  }
  const auto inner = model.fit_from_indices(train);
  c.check(inner.indices == train, "fit-indices", s);
  same(c, model.get_prior(test), w.z, test, "prior", s);
  const auto truth = model.get_truth(test);
  for (std::size_t i = 0; i < test.size(); ++i) {
    const auto a = static_cast<Eigen::Index>(i), b = static_cast<Eigen::Index>(test[i]);
    c.check(truth.mean[a] == w.truth.mean[b] && truth.covariance.diagonal()[a] == w.truth.covariance.diagonal()[b], "truth", s);
  }
}
} // namespace

MC_SCENARIO(every_subset) {
  const World w = world(c, mc::tiered(3, 4));
  const auto train = sequence(c, w.n, w.n), test = question(c, w.n);
  c.assume(!train.empty());
  const std::string s = w.text + " given" + show(train) + " of" + show(test);
  c << s;
  c.state(s);
  c.step();
  check_subset(c, w, train, test, s);
}

// Many variables, many of them given.
MC_SCENARIO(large) {
  const int n = c.pick<int>({5, 8, 9, 14, 20}), correlated = c.choose(3), noise = c.choose(4), shape = c.choose(7), asked = c.choose(6);
  World w;
  w.n = n;
  Eigen::MatrixXd cov(n, n);
  Eigen::VectorXd m(n), y(n), v(n);
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < n; ++j)
      cov(i, j) = correlated == 0 ? 2. * std::exp(-0.5 * std::abs(i - j)) : correlated == 1 ? (i == j ? 0.5 + 0.2 * ((3 * i) % 7) : 0.) + std::cos(0.7 * (i - j)) : (i == j ? 1.5 + i : 0.3);
    m[i] = std::sin(1.3 * i);
    y[i] = 1. - 0.4 * i + 0.1 * (i % 3);
    v[i] = noise == 0 ? 0. : noise == 1 ? 0.5 : noise == 2 ? 0.1 + 0.3 * ((2 * i) % 5) : 0.6 * (i % 2);
  }
  w.prior = JointDistribution(m, cov);
  w.truth = MarginalDistribution(y, v);
  w.z = law::Gaussian{m.cast<Real>(), cov.cast<Real>()};
  std::vector<std::size_t> train, test;
  for (int i = 0; i < n; ++i) {
    const bool in = shape == 0 ? true : shape == 1 ? i % 2 == 0 : shape == 2 ? i >= n / 2 : shape == 3 ? i != n / 2 : shape == 4 ? i == n - 1 : shape == 5 ? i % 3 != 1 : i < n - 1;
    if (in)
      train.push_back(static_cast<std::size_t>(i));
    if (asked == 0 || (asked == 1 && !in) || (asked == 2 && in) || (asked == 3 && i % 3 == 0) || asked >= 4)
      test.push_back(static_cast<std::size_t>(i));
  }
  if (shape == 5)
    std::reverse(train.begin(), train.end());
  if (shape == 3)
    std::rotate(train.begin(), train.begin() + 2, train.end());
  if (asked == 3)
    std::reverse(test.begin(), test.end());
  if (asked == 4) // (the ends in place)
    std::swap(test[1], test[test.size() - 2]);
  if (asked == 5) // (one again)
    test[test.size() / 2] = test[0];
  const std::string s = std::to_string(n) + " variables correlated " + std::to_string(correlated) + " noise " + std::to_string(noise) + " given" + show(train) + " of" + show(test);
  c << s;
  c.state(s);
  c.step();
  check_subset(c, w, train, test, s);
  if (noise == 0 || noise == 3 || train.size() < 3)
    return;
  // in two pieces, the second backwards
  std::vector<std::size_t> all;
  for (int i = 0; i < n; ++i)
    all.push_back(static_cast<std::size_t>(i));
  const auto half = static_cast<std::ptrdiff_t>(train.size() / 2);
  const std::vector<std::size_t> first(train.begin(), train.begin() + half), second(train.rbegin(), train.rend() - half);
  const JointDistribution then = ConditionalGaussian(w.prior, w.truth).fit(first).predict(all).joint();
  same(c, ConditionalGaussian(then, w.truth).fit(second).predict(all).joint(), given(w.z, w.truth, train), all, "in-turn", s);
}

// One after another: the conditional is the prior of the next.
MC_SCENARIO(in_turn) {
  const World w = world(c, mc::tiered(3, 4), 2);
  const auto order = sequence(c, w.n, mc::tiered(3, 3));
  c.assume(order.size() >= 2);
  const int cut = c.range(1, static_cast<int>(order.size()) - 1);
  const int again = order.size() - static_cast<std::size_t>(cut) >= 2 ? c.choose(2) : 0;
  const std::string s = w.text + " given" + show(order) + " cut at " + std::to_string(cut) + (again ? " and again" : "");
  c << s;
  c.state(s);
  std::vector<std::size_t> all;
  for (int i = 0; i < w.n; ++i)
    all.push_back(static_cast<std::size_t>(i));
  std::vector<std::vector<std::size_t>> pieces = {{order.begin(), order.begin() + cut}, {order.begin() + cut, order.end()}};
  if (again)
    pieces = {{order.begin(), order.begin() + cut}, {order[static_cast<std::size_t>(cut)]}, {order.begin() + cut + 1, order.end()}};
  JointDistribution now = w.prior;
  for (const auto &p : pieces) {
    now = ConditionalGaussian(now, w.truth).fit(p).predict(all).joint();
    c.step();
  }
  same(c, now, given(w.z, w.truth, order), all, "in-turn", s);
  same(c, ConditionalGaussian(w.prior, w.truth).fit(order).predict(all).joint(), given(w.z, w.truth, order), all, "at-once", s);
}

// From the prior of a process: the same as the process.
MC_SCENARIO(of_a_process) {
  const int n = mc::tiered(4, 4);
  std::vector<double> x;
  const auto p = c.permutation(static_cast<std::size_t>(n));
  Eigen::VectorXd y(n), v(n);
  for (int i = 0; i < n; ++i) {
    x.push_back(std::vector<double>{0., -1.5, 0.75, 2.}[p[static_cast<std::size_t>(i)]]);
    y[i] = std::cos(2. * x.back());
    v[i] = 0.1 + 0.2 * i;
  }
  const auto train = sequence(c, n, mc::tiered(2, 4)), test = question(c, n);
  c.assume(!train.empty());
  const int noise = c.choose(2);
  const std::string s = "order" + show(p) + " given" + show(train) + " of" + show(test) + " noise " + std::to_string(noise);
  c << s;
  c.state(s);
  c.step();
  const auto model = gp_from_covariance(SquaredExponential<EuclideanDistance>(1.5, 2.) + IndependentNoise<double>(noise ? 0.4 : 1e-3), "gp");
  const RegressionDataset<double> d(x, MarginalDistribution(y, v));
  const ConditionalGaussian conditional(model.prior(x), d.targets);
  std::vector<double> at;
  for (auto i : test)
    at.push_back(x[i]);
  const auto got = conditional.fit(train).predict(test).joint(), want = model.fit(d.subset(train)).predict(at).joint();
  c.check(got.mean.size() == want.mean.size() && (test.empty() || ((got.mean - want.mean).cwiseAbs().maxCoeff() < 1e-8 && (got.covariance - want.covariance).cwiseAbs().maxCoeff() < 1e-8)), "equals-the-process", s);
}

// Nothing given: the prior. Variables which are not there: refused.
MC_SCENARIO(edges) {
  const World w = world(c, 3);
  const int what = c.choose(3);
  const auto test = question(c, w.n);
  const std::size_t outside = c.pick<std::size_t>({static_cast<std::size_t>(w.n), static_cast<std::size_t>(w.n) + 7, static_cast<std::size_t>(-1)});
  const std::string s = w.text + " case " + std::to_string(what) + show(test) + " outside " + std::to_string(outside);
  c << s;
  c.state(s);
  c.step();
  const ConditionalGaussian model(w.prior, w.truth);
  if (what == 0) {
    same(c, model.fit({}).predict(test).joint(), w.z, test, "nothing-given", s);
    c.check(model.fit({}).predict(test).mean().size() == static_cast<Eigen::Index>(test.size()), "nothing-given", s);
  } else if (what == 1) {
    c.check(mc::dies([&]() { model.fit({0, outside}); }), "refuses-to-fit", s);
  } else {
    const auto fit = model.fit({0});
    auto asked = test;
    asked.push_back(outside);
    c.check(mc::dies([&]() { fit.predict(asked).mean(); }), "refuses-to-predict", s);
    c.check(mc::dies([&]() { fit.predict(asked).marginal(); }), "refuses-to-predict", s);
    c.check(mc::dies([&]() { fit.predict(asked).joint(); }), "refuses-to-predict", s);
    c.check(mc::dies([&]() { model.get_prior(asked); }) && mc::dies([&]() { model.get_truth(asked); }), "refuses-to-predict", s);
  }
}

// In other units.
MC_SCENARIO(units_of_variables) {
  const int power = units::power(c), n = c.pick<int>({1, 2, 5, 9}), correlated = c.choose(3), noise = c.choose(3), shape = c.choose(3);
  const std::string s = "units 2^" + std::to_string(power) + " n=" + std::to_string(n) + " correlated " + std::to_string(correlated) + " noise " + std::to_string(noise) + " given " + std::to_string(shape);
  c << s;
  c.state(s);
  c.step();
  const double unit = units::of(power);
  Eigen::MatrixXd cov(n, n);
  Eigen::VectorXd m(n), y(n), v(n);
  std::vector<std::size_t> train, all;
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < n; ++j)
      cov(i, j) = correlated == 0 ? 2. * std::exp(-0.5 * std::abs(i - j)) : correlated == 1 ? (i == j ? 0.5 + 0.2 * ((3 * i) % 7) : 0.) + std::cos(0.7 * (i - j)) : (i == j ? 1.5 + i : 0.3);
    m[i] = std::sin(1.3 * i);
    y[i] = 1. - 0.4 * i + 0.1 * (i % 3);
    v[i] = noise == 0 ? 0. : noise == 1 ? 0.5 : 0.1 + 0.3 * ((2 * i) % 5);
    all.push_back(static_cast<std::size_t>(i));
    if (shape == 0 || (shape == 1 && i % 2 == 0) || (shape == 2 && i == n - 1))
      train.push_back(static_cast<std::size_t>(i));
  }
  const auto go = [&](double u) {
    return ConditionalGaussian(JointDistribution(u * m, u * u * cov), MarginalDistribution(u * y, u * u * v)).fit(train);
  };
  units::scaled_prediction(c, go(unit).predict(all), go(1.).predict(all), unit, "units-prediction", s);
}
