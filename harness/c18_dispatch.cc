// C18: whichever of the prediction forms a model defines, the others follow
// from it (mean from marginal from joint), for every wrapping of the features.
#include <albatross/GP>

#include "mc.h"

using namespace albatross;

namespace {

// The law which the models below predict: of features x.
double mean_at(double x) { return 1.5 * x - 0.25 * x * x; }
double cov_at(double x, double y) { return std::exp(-std::fabs(x - y)) + 0.5 * x * y + 2. * (x + 1.5) * (y + 1.5); }
double measured_extra = 10.; // what a measurement adds to the mean

struct Nothing {};
} // namespace
namespace albatross {
template <> struct Fit<Nothing> {
  double offset = 0.;
  bool operator==(const Fit &o) const { return offset == o.offset; }
};
} // namespace albatross
namespace {
using FitType = Fit<Nothing>;

template <typename T> double plain(const T &x) { return x; }
template <typename T> double plain(const Measurement<T> &x) { return x.value; }
template <typename T> double extra(const T &) { return 0.; }
template <typename T> double extra(const Measurement<T> &) { return measured_extra; }

template <typename F> Eigen::VectorXd means(const std::vector<F> &f, const FitType &fit) {
  Eigen::VectorXd m(f.size());
  for (std::size_t i = 0; i < f.size(); ++i)
    m[static_cast<Eigen::Index>(i)] = mean_at(plain(f[i])) + extra(f[i]) + fit.offset;
  return m;
}
template <typename F> Eigen::MatrixXd covs(const std::vector<F> &f) {
  Eigen::MatrixXd m(f.size(), f.size());
  for (std::size_t i = 0; i < f.size(); ++i)
    for (std::size_t j = 0; j < f.size(); ++j)
      m(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j)) = cov_at(plain(f[i]), plain(f[j]));
  return m;
}

// bit 0: mean, 1: marginal, 2: joint
template <int defines> class Model : public ModelBase<Model<defines>> {
public:
  std::string name() const { return "model"; }
  template <typename F> FitType _fit_impl(const std::vector<F> &, const MarginalDistribution &t) const {
    FitType f;
    f.offset = t.mean.sum();
    return f;
  }
  template <typename F, int d = defines, std::enable_if_t<(d & 1) != 0, int> = 0> Eigen::VectorXd _predict_impl(const std::vector<F> &f, const FitType &fit, PredictTypeIdentity<Eigen::VectorXd> &&) const { return means(f, fit); }
  template <typename F, int d = defines, std::enable_if_t<(d & 2) != 0, int> = 0> MarginalDistribution _predict_impl(const std::vector<F> &f, const FitType &fit, PredictTypeIdentity<MarginalDistribution> &&) const {
    return MarginalDistribution(means(f, fit), Eigen::VectorXd(covs(f).diagonal()));
  }
  template <typename F, int d = defines, std::enable_if_t<(d & 4) != 0, int> = 0> JointDistribution _predict_impl(const std::vector<F> &f, const FitType &fit, PredictTypeIdentity<JointDistribution> &&) const { return JointDistribution(means(f, fit), covs(f)); }
};

template <typename P> void check_forms(mc::Ctx &c, const P &p, int defines, const Eigen::VectorXd &mean, const Eigen::MatrixXd &cov, const std::string &what);

template <int defines, typename P> void forms(mc::Ctx &c, const P &p, const Eigen::VectorXd &mean, const Eigen::MatrixXd &cov, const std::string &what) {
  c.check(p.size() == static_cast<std::size_t>(mean.size()), "dispatch-size", what);
  c.check(p.mean() == mean, "dispatch-mean", what);
  c.check(p.template get<Eigen::VectorXd>() == mean, "dispatch-get-mean", what);
  if constexpr ((defines & 6) != 0) {
    const MarginalDistribution m = p.marginal();
    c.check(m.mean == mean && m.covariance.diagonal() == cov.diagonal(), "dispatch-marginal", what);
    c.check(p.template get<MarginalDistribution>() == m && static_cast<MarginalDistribution>(p) == m, "dispatch-get-marginal", what);
  }
  if constexpr ((defines & 4) != 0) {
    const JointDistribution j = p.joint();
    c.check(j.mean == mean && j.covariance == cov, "dispatch-joint", what);
    c.check(p.template get<JointDistribution>() == j && static_cast<JointDistribution>(p) == j, "dispatch-get-joint", what);
  }
}

template <int defines> void all(mc::Ctx &c) {
  const int n = c.range(0, mc::tiered(3, 4));
  std::vector<double> x;
  std::string s = std::to_string(defines) + ":";
  for (int i = 0; i < n; ++i) {
    x.push_back(c.pick<double>({-1., 0., 2.}));
    s += " " + std::to_string(x.back());
  }
  c << s;
  c.state(s);
  c.step();
  const double offset = 0.5;
  const Model<defines> m;
  const RegressionDataset<double> data(std::vector<double>{1.}, MarginalDistribution(Eigen::VectorXd::Constant(1, offset)));
  FitType fit;
  fit.offset = offset;
  std::vector<Measurement<double>> mx;
  for (double v : x)
    mx.emplace_back(v);
  const auto f = m.fit(data);
  forms<defines>(c, f.predict(x), means(x, fit), covs(x), s);
  forms<defines>(c, f.predict(mx), means(mx, fit), covs(mx), s + " measured");
  forms<defines>(c, f.predict_with_measurement_noise(x), means(mx, fit), covs(mx), s + " with noise");
  const auto temporary = m.fit(data.features, data.targets).predict(x);
  forms<defines>(c, temporary, means(x, fit), covs(x), s + " temporary");
  forms<defines>(c, m.fit(data).predict_with_measurement_noise(x), means(mx, fit), covs(mx), s + " temporary with noise");
  const auto kept = m.fit(data).predict_with_measurement_noise(x);
  forms<defines>(c, kept, means(mx, fit), covs(mx), s + " kept from a temporary, with noise");
  forms<defines>(c, get_prediction(m, fit, x), means(x, fit), covs(x), s + " get_prediction");
  forms<defines>(c, get_prediction_reference(m, fit, x), means(x, fit), covs(x), s + " get_prediction_reference");
}

} // namespace

MC_SCENARIO(forms_a_model_defines) {
  switch (c.range(1, 7)) {
  case 1:
    return all<1>(c);
  case 2:
    return all<2>(c);
  case 3:
    return all<3>(c);
  case 4:
    return all<4>(c);
  case 5:
    return all<5>(c);
  case 6:
    return all<6>(c);
  default:
    return all<7>(c);
  }
}
