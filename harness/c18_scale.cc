// C18, part: a Gaussian process in other units.
#include <albatross/GP>

#include "scaled.h"

using namespace albatross;

namespace {
struct Trend : public MeanFunction<Trend> {
  ALBATROSS_DECLARE_PARAMS(level)
  Trend() { level = {0.7, FixedPrior()}; }
  double _call_impl(const double &x) const { return level.value * (1. - 0.5 * x); }
};
template <typename M> M in_units(M m, double unit) {
  m.set_param_value("sigma_squared_exponential", 2. * unit);
  m.set_param_value("sigma_independent_noise", 0.5 * unit);
  m.set_param_value("level", 0.7 * unit);
  return m;
}
} // namespace

MC_SCENARIO(units_of_targets) {
  const int power = units::power(c), n = c.pick<int>({0, 1, 2, 5, 9}), pattern = c.choose(3), noise = c.choose(4);
  const std::string s = "units 2^" + std::to_string(power) + " n=" + std::to_string(n) + " spacing " + std::to_string(pattern) + " noise " + std::to_string(noise);
  c << s;
  c.state(s);
  c.step();
  c.assume(n > 0 || noise == 0);
  std::vector<double> x;
  Eigen::VectorXd y(n), v(n);
  for (int i = 0; i < n; ++i) {
    x.push_back(pattern == 0 ? 0.9 * i : pattern == 1 ? 0.3 * i * i - 1. : 7. * i);
    y[i] = 2. * std::sin(0.9 * i) - 0.1 * i;
    v[i] = noise == 0 ? 0. : noise == 1 ? 0.4 : noise == 2 ? 0.05 + 0.2 * ((3 * i) % 5) : i % 2 ? 0.3 : 0.;
  }
  const double unit = units::of(power);
  const auto plain = gp_from_covariance_and_mean(SquaredExponential<EuclideanDistance>(1.5, 2.) + measurement_only(IndependentNoise<double>(0.5)), Trend());
  const auto a = in_units(plain, 1.), b = in_units(plain, unit);
  const RegressionDataset<double> data(x, MarginalDistribution(y, v)), in(x, MarginalDistribution(unit * y, unit * unit * v));
  const std::vector<double> asked = {-1.7, 0.45, 0.9, 3., 60.};
  units::scaled_law(c, b.prior(asked), a.prior(asked), unit, "units-prior", s);
  if (n == 0)
    return;
  const auto f = a.fit(data), g = b.fit(in);
  units::scaled_prediction(c, g.predict(asked), f.predict(asked), unit, "units-prediction", s);
  units::scaled_prediction(c, g.predict_with_measurement_noise(asked), f.predict_with_measurement_noise(asked), unit, "units-measurement-prediction", s);
  units::scaled(c, g.get_fit().information, f.get_fit().information, 1. / unit, "units-information", s);
  c.close(b.log_likelihood(in), a.log_likelihood(data) - n * power * std::log(2.), "units-likelihood", s);
}
