// C29: Gaussian processes, sparse and dense, fitted in several ways.
#include "c29_models.inc"

MC_SCENARIO(gps) {
  const int n = c.range(0, 3);
  const int fitted = c.choose(2);
  LinearMean mean;
  mean.offset.value = 0.5;
  mean.slope.value = -0.25;
  if (c.flip()) {
    auto make = [&](double s) { return gp_from_covariance_and_mean(covariance(s, 0.2), mean, s > 1. ? "first" : "a name <&>"); };
    c << "with a mean, ";
    if (!fitted)
      return round_trip_model(c, make(1.5), make(0.7), n);
    c.assume(n > 0);
    c << n << " data";
    round_trip_fit(c, make(1.5).fit(data(n)), make(0.7).fit(data(2)));
  } else {
    auto make = [&](double s) { return gp_from_covariance(covariance(s, 0.2), s > 1. ? "first" : "second"); };
    if (!fitted) {
      auto a = make(1.5), b = make(0.7);
      const int k = arc::pick(c);
      if (arc::round_trip(c, k, "a model", a, b))
        c.check(b.get_name() == "first", "model-name-changed", "its name is " + b.get_name());
      return round_trip_model(c, make(1.5), make(0.7), n);
    }
    c.assume(n > 0);
    c << n << " data";
    round_trip_fit(c, make(1.5).fit(data(n)), make(0.7).fit(data(2)));
  }
}

MC_SCENARIO(default_fit_target) {
  // into a fitted model made from nothing, as when nothing but the type is known
  const int n = c.range(1, 3);
  using M = decltype(gp_from_covariance(covariance(1., 1.)));
  const auto fit = gp_from_covariance(covariance(1.5, 0.2), "first").fit(data(n));
  using F = std::decay_t<decltype(fit)>;
  c << n << " data";
  round_trip_fit(c, F(fit), F());
}

MC_SCENARIO(earlier_gps) {
  const int n = c.range(1, 3);
  auto make = [&](double s) { return gp_from_covariance(covariance(s, 0.2), s > 1. ? "first" : "second"); };
  c << n << " data; ";
  earlier_fit(c, make(1.5).fit(data(n)), gp_from_covariance(covariance(0.7, 0.2), "first").fit(data(2)));
}

MC_SCENARIO(updated_gps) {
  const int n = c.range(1, 3), extra = c.range(1, 2);
  const auto model = gp_from_covariance(covariance(1.5, 0.2));
  auto late = data(n + extra);
  std::vector<std::size_t> first, last;
  for (int i = 0; i < n + extra; ++i)
    (i < n ? first : last).push_back(i);
  auto updated = update(model.fit(subset(late, first)), subset(late, last));
  c << n << " data and then " << extra;
  round_trip_fit(c, updated, update(gp_from_covariance(covariance(0.7, 0.1)).fit(data(1)), data(1)));
}

MC_SCENARIO(gps_from_predictions) {
  const int n = c.range(1, 3);
  const auto model = gp_from_covariance(covariance(1.5, 0.2));
  const auto fit = model.fit(data(3));
  const std::vector<double> at = data(n).features;
  const auto from = model.fit_from_prediction(at, fit.predict(at).joint());
  auto other = gp_from_covariance(covariance(0.7, 0.1));
  c << n << " features";
  round_trip_fit(c, from, other.fit_from_prediction(std::vector<double>{0.}, other.fit(data(2)).predict(std::vector<double>{0.}).joint()));
}
