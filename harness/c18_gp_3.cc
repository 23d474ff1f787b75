#define C18_MODEL 3
#include "c18_gp.inc"

// Every data set on the grid, in every order.
MC_SCENARIO(plain_3) {
  const Data d = data(c, 1, mc::tiered(3, 4));
  const auto at = asked_points(c);
  c << d.text << " asked " << show(at);
  c.state(d.text + show(at));
  trained_and_asked<As<0>, As<0>>(c, d, at, "");
}
// ... through every wrapping of the training and the test features.
MC_SCENARIO(wrapped_3) {
  const int train = measurement_noise ? c.pick<int>({0, 1, 2, 5}) : c.pick<int>({0, 1, 2, 3, 4, 5}), test = c.choose(5);
  const Data d = data(c, 1, 2);
  const auto at = asked_points(c);
  const std::string s = d.text + " asked " + show(at) + std::to_string(train) + "/" + std::to_string(test);
  c << s;
  c.state(s);
  switch (train) {
  case 0:
    return trained<As<0>>(c, d, at, test);
  case 1:
    return trained<As<1>>(c, d, at, test);
  case 5:
    return trained<As<5>>(c, d, at, test);
  case 2:
    return trained<As<2>>(c, d, at, test);
  case 3:
    return trained<As<3>>(c, d, at, test);
  default:
    return trained<As<4>>(c, d, at, test);
  }
}
// The prior is that of measurements of the features.
MC_SCENARIO(prior_3) {
  const auto at = asked_points(c);
  c << show(at);
  c.state(show(at));
  const auto m = model();
  const auto f = law::measured(meant<As<0>>(at));
  const auto p = m.prior(made<As<0>>(at));
  same(c, p.mean, law::mean(expected_mean, f), "prior-mean", show(at));
  same(c, p.covariance, law::cov(expected_cov, f, f), "prior-covariance", show(at));
  const auto latent = meant<As<0>>(at);
  same(c, m.compute_covariance(made<As<0>>(at)), law::cov(expected_cov, latent, latent), "compute-covariance", show(at));
}
MC_SCENARIO(large_3) { large(c); }
