// C18, part: the model C18_MODEL, trained and asked through every wrapping.
#include <albatross/GP>

#include "gp_oracle.h"
#include "mc.h"

using namespace albatross;

namespace {

using SE = SquaredExponential<EuclideanDistance>;
using Noise = IndependentNoise<double>;

struct Trend : public MeanFunction<Trend> {
  ALBATROSS_DECLARE_PARAMS(level, tilt)
  Trend() {
    level = {0.7, FixedPrior()};
    tilt = {-0.4, FixedPrior()};
  }
  double _call_impl(const double &x) const { return level.value + tilt.value * x; }
};
law::Real trend(const law::Term &t) { return 0.7L - 0.4L * t.x; }
struct Biased : public MeanFunction<Biased> { // the instrument adds something
  double _call_impl(const double &x) const { return 0.7 - 0.4 * x; }
  double _call_impl(const Measurement<double> &m) const { return _call_impl(m.value) + 0.3; }
};
law::Real biased(const law::Term &t) { return trend(t) + (t.measured ? 0.3L : 0.L); }
law::Real zero(const law::Term &) { return 0.L; }
law::Real se(law::Real l, law::Real s, const law::Term &a, const law::Term &b) {
  const law::Real d = (static_cast<law::Real>(a.x) - b.x) / l;
  return s * s * std::exp(-d * d);
}

#if C18_MODEL == 0
auto model() { return gp_from_covariance(SE(1.5, 2.)); }
law::Real kernel(const law::Term &a, const law::Term &b) { return se(1.5L, 2.L, a, b); }
const law::Mean expected_mean = zero;
constexpr bool measurement_noise = false;
#elif C18_MODEL == 1
auto model() { return gp_from_covariance_and_mean(SE(1.5, 2.) + Noise(0.5), Trend()); }
law::Real kernel(const law::Term &a, const law::Term &b) { return se(1.5L, 2.L, a, b) + (a.x == b.x ? 0.25L : 0.L); }
const law::Mean expected_mean = trend;
constexpr bool measurement_noise = false;
#elif C18_MODEL == 2
auto model() { return gp_from_covariance_and_mean(SE(1.5, 2.) + measurement_only(Noise(0.5)), Trend()); }
law::Real kernel(const law::Term &a, const law::Term &b) { return se(1.5L, 2.L, a, b) + (a.x == b.x && a.measured && b.measured ? 0.25L : 0.L); }
const law::Mean expected_mean = trend;
constexpr bool measurement_noise = true;
#elif C18_MODEL == 3
auto model() { return gp_from_covariance_and_mean(SE(1.5, 2.) * Constant(0.5) + Constant(3.) + Noise(0.5), Trend() + LinearMean()); }
law::Real kernel(const law::Term &a, const law::Term &b) { return 0.25L * se(1.5L, 2.L, a, b) + 9.L + (a.x == b.x ? 0.25L : 0.L); }
const law::Mean expected_mean = [](const law::Term &t) { return trend(t); };
constexpr bool measurement_noise = false;
#elif C18_MODEL == 4
// measurement noise which is correlated between the data
auto model() { return gp_from_covariance_and_mean(measurement_only(SE(0.8, 0.6)) + SE(1.5, 2.), Biased()); }
law::Real kernel(const law::Term &a, const law::Term &b) {
  const law::Real d = (static_cast<law::Real>(a.x) - b.x) / 0.8L;
  return se(1.5L, 2.L, a, b) + (a.measured && b.measured ? 0.36L * std::exp(-d * d) : 0.L);
}
const law::Mean expected_mean = biased;
constexpr bool measurement_noise = true;
#elif C18_MODEL == 5
// a prior which is not the same everywhere
struct Taper : public ScalingFunction {
  std::string get_name() const { return "taper"; }
  double _call_impl(const double &x) const { return 1. + 0.5 * x; }
};
auto model() { return gp_from_covariance_and_mean(SE(1.5, 2.) * ScalingTerm<Taper>() + Polynomial<1>(0.7) + Noise(0.5), Trend()); }
law::Real kernel(const law::Term &a, const law::Term &b) {
  return se(1.5L, 2.L, a, b) * (1.L + 0.5L * a.x) * (1.L + 0.5L * b.x) + 0.49L * (1.L + static_cast<law::Real>(a.x) * b.x) + (a.x == b.x ? 0.25L : 0.L);
}
const law::Mean expected_mean = trend;
constexpr bool measurement_noise = false;
#endif

const law::Kernel expected_cov = kernel;

// The wrappings: how a point is given to the model, and what that means.
template <int which> struct As;
template <> struct As<0> {
  using Type = double;
  static Type make(double x) { return x; }
  static law::Feature meaning(double x) { return {{1., x, false}}; }
};
template <> struct As<1> {
  using Type = Measurement<double>;
  static Type make(double x) { return Measurement<double>(x); }
  static law::Feature meaning(double x) { return {{1., x, true}}; }
};
template <> struct As<2> {
  using Type = variant<double, int>; // only the first alternative is known
  static Type make(double x) { return x; }
  static law::Feature meaning(double x) { return {{1., x, false}}; }
};
template <> struct As<3> {
  using Type = LinearCombination<double>;
  static Type make(double x) { return LinearCombination<double>({x, x + 0.5}, Eigen::Vector2d(1., -0.25)); }
  static law::Feature meaning(double x) { return {{1., x, false}, {-0.25, x + 0.5, false}}; }
};
template <> struct As<4> {
  using Type = LinearCombination<double>;
  static Type make(double x) { return LinearCombination<double>({x}, Eigen::VectorXd::Constant(1, 2.)); }
  static law::Feature meaning(double x) { return {{2., x, false}}; }
};

template <> struct As<5> { // some are measurements already
  using Type = variant<double, Measurement<double>>;
  static Type make(double x) { return x > 0.5 ? Type(Measurement<double>(x)) : Type(x); }
  static law::Feature meaning(double x) { return {{1., x, x > 0.5}}; }
};

template <typename W> std::vector<typename W::Type> made(const std::vector<double> &x) {
  std::vector<typename W::Type> out;
  for (double v : x)
    out.push_back(W::make(v));
  return out;
}
template <typename W> std::vector<law::Feature> meant(const std::vector<double> &x) {
  std::vector<law::Feature> out;
  for (double v : x)
    out.push_back(W::meaning(v));
  return out;
}
std::string show(const std::vector<double> &x) {
  std::string s;
  for (double v : x)
    s += std::to_string(v).substr(0, 5) + " ";
  return s;
}

struct Data {
  std::vector<double> x;
  Eigen::VectorXd y, var;
  std::string text;
};
const double GRID[] = {-1., 0., 1., 2.25, 4.};

// Every sequence of up to `most` points (repeats too, where there is noise).
Data data(mc::Ctx &c, int least, int most) {
  Data d;
  const int n = c.range(least, most);
  d.y.resize(n);
  d.var.resize(n);
  const int pattern = c.choose(4); // no noise, some, different, every other
  const int sign = pattern < 3 ? c.choose(2) : 0;
  bool repeats = false;
  for (int i = 0; i < n; ++i) {
    d.x.push_back(GRID[c.choose(5)]);
    for (int j = 0; j < i; ++j)
      repeats = repeats || ((pattern == 0 || (pattern == 3 && i % 2 == 0 && j % 2 == 0)) && d.x[static_cast<std::size_t>(j)] == d.x.back());
    d.y[i] = (sign ? 1. : -2.) + 0.75 * i * i - i;
    d.var[i] = pattern == 0 || (pattern == 3 && i % 2 == 0) ? 0. : pattern == 1 ? 0.3 : 0.05 + 0.4 * i;
  }
  // two exact observations of one value do not define a law
  c.assume(!repeats);
  d.text = "data " + show(d.x) + " noise " + std::to_string(pattern) + " y " + std::to_string(sign);
  return d;
}
law::Vec vec(const Eigen::VectorXd &v) { return v.cast<law::Real>(); }
law::Mat noise(const Eigen::VectorXd &v) { return law::Mat(vec(v).asDiagonal()); }

void same(mc::Ctx &c, const Eigen::MatrixXd &got, const law::Mat &want, const char *key, const std::string &what) {
  c.check(got.rows() == want.rows() && got.cols() == want.cols(), key, what + " shape");
  if (got.rows() != want.rows() || got.cols() != want.cols())
    return;
  for (Eigen::Index i = 0; i < got.rows(); ++i)
    for (Eigen::Index j = 0; j < got.cols(); ++j)
      c.close(got(i, j), static_cast<double>(want(i, j)), key, what, 1e-7, 1e-7);
}
void no_larger(mc::Ctx &c, const Eigen::MatrixXd &small, const Eigen::MatrixXd &large, const char *key, const std::string &what) {
  if (small.rows() == 0)
    return;
  const Eigen::MatrixXd d = large - small;
  const Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> eig(Eigen::MatrixXd(0.5 * (d + d.transpose())), Eigen::EigenvaluesOnly);
  c.check(eig.eigenvalues().minCoeff() >= -1e-7, key, what + " " + std::to_string(eig.eigenvalues().minCoeff()));
}

template <typename Prediction> void check_prediction(mc::Ctx &c, const Prediction &p, const law::Gaussian &want, const std::string &what) {
  const auto joint = p.joint();
  const auto marginal = p.marginal();
  const Eigen::VectorXd mean = p.mean();
  same(c, mean, want.mean, "mean", what);
  same(c, marginal.mean, want.mean, "marginal-mean", what);
  same(c, Eigen::VectorXd(marginal.covariance.diagonal()), law::Vec(want.cov.diagonal()), "marginal-variance", what);
  same(c, joint.mean, want.mean, "joint-mean", what);
  same(c, joint.covariance, want.cov, "joint-covariance", what);
  c.check(p.size() == static_cast<std::size_t>(want.mean.size()), "size", what);
  same(c, p.template get<Eigen::VectorXd>(), want.mean, "get-mean", what);
  same(c, p.template get<MarginalDistribution>().mean, want.mean, "get-marginal", what);
  same(c, p.template get<JointDistribution>().covariance, want.cov, "get-joint", what);
}

template <typename Train, typename Test> void trained_and_asked(mc::Ctx &c, const Data &d, const std::vector<double> &at, const std::string &how) {
  const auto features = made<Train>(d.x);
  const MarginalDistribution targets(d.y, d.var.asDiagonal());
  const auto m = model();
  // fitting measures the training features
  auto train = meant<Train>(d.x);
  if (!std::is_same<Train, As<3>>::value && !std::is_same<Train, As<4>>::value)
    train = law::measured(train);
  const auto test = meant<Test>(at);
  const auto fit = m.fit(RegressionDataset<typename Train::Type>(features, targets));
  c.step(2);
  const std::string what = d.text + " asked " + show(at) + how;
  const auto want = law::condition(expected_cov, expected_mean, meant<Train>(d.x), train, vec(d.y), noise(d.var), test);
  const auto asked = made<Test>(at);
  check_prediction(c, fit.predict(asked), want, what);
  // ... from a temporary fit, and through the other ways to fit
  check_prediction(c, m.fit(features, targets).predict(asked), want, what + " (temporary)");
  no_larger(c, fit.predict(asked).joint().covariance, m.compute_covariance(asked), "not-above-prior", what);
  no_larger(c, Eigen::MatrixXd::Zero(static_cast<Eigen::Index>(at.size()), static_cast<Eigen::Index>(at.size())), fit.predict(asked).joint().covariance, "positive-semi-definite", what);
  // noise of the measurement included
  if constexpr (std::is_same<Test, As<0>>::value) { // (a variant is refused at compile time)
    const auto w = law::condition(expected_cov, expected_mean, meant<Train>(d.x), train, vec(d.y), noise(d.var), law::measured(test));
    const auto p = fit.predict_with_measurement_noise(asked);
    check_prediction(c, p, w, what + " with measurement noise");
  }
}

template <typename Train> void trained(mc::Ctx &c, const Data &d, const std::vector<double> &at, int form) {
  const std::string how = std::string(" via ") + std::to_string(form);
  switch (form) {
  case 0:
    return trained_and_asked<Train, As<0>>(c, d, at, how);
  case 1:
    return trained_and_asked<Train, As<1>>(c, d, at, how);
  case 2: // (an alternative unknown to the other variant is refused)
    if constexpr (!std::is_same<Train, As<5>>::value)
      trained_and_asked<Train, As<2>>(c, d, at, how);
    return;
  case 3:
    if constexpr (!std::is_same<Train, As<2>>::value)
      trained_and_asked<Train, As<5>>(c, d, at, how);
    return;
  default:
    return trained_and_asked<Train, As<3>>(c, d, at, how);
  }
}
std::vector<double> asked_points(mc::Ctx &c) {
  return c.pick(std::vector<std::vector<double>>{{}, {0.5}, {1., 1.}, {-1., 0.5, 4.}, {5.5, 0., 2.25}});
}

// Larger problems of regular shapes: the number of training and test points,
// their order and spacing, the noise.
void large(mc::Ctx &c) {
  const int n = c.pick({6, 8, 9, 17, 33}), k = c.pick({1, 4, 5, 9, 17});
  const int order = c.choose(3), pattern = c.choose(3);
  const bool measured = c.flip();
  Data d;
  d.y.resize(n);
  d.var.resize(n);
  for (int i = 0; i < n; ++i) {
    const int j = order == 0 ? i : order == 1 ? n - 1 - i : (i * 5 + 2) % n;
    d.x.push_back(-2. + 1.25 * j);
    d.y[i] = std::sin(0.9 * i) * 2. + 0.1 * i;
    d.var[i] = pattern == 0 ? 0.3 : pattern == 1 ? 0.05 + 0.1 * (i % 7) : i % 3 == 0 ? 0. : 0.2;
  }
  std::vector<double> at;
  for (int i = 0; i < k; ++i)
    at.push_back(i % 3 == 2 ? d.x[static_cast<std::size_t>(i % n)] : -1.7 + 0.8 * i);
  d.text = "n=" + std::to_string(n) + " k=" + std::to_string(k) + " order " + std::to_string(order) + " noise " + std::to_string(pattern);
  c << d.text << (measured ? " measured" : "");
  c.state(c.text);
  if (measured)
    trained_and_asked<As<1>, As<1>>(c, d, at, " measured");
  else
    trained_and_asked<As<0>, As<0>>(c, d, at, "");
}
} // namespace
