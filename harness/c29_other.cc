// C29: least squares, null models and RANSAC.
#include "c29_models.inc"

MC_SCENARIO(regressions) {
  const int n = c.range(2, 4);
  LinearRegression model, other;
  if (c.flip()) {
    round_trip_model<false>(c, model, other, 0);
    return;
  }
  c << n << " data";
  auto exact = [](int m) { return RegressionDataset<double>(data(m).features, data(m).targets.mean); };
  auto fit = model.fit(exact(n)), into = other.fit(exact(3));
  const int k = arc::pick(c);
  if (!arc::round_trip(c, k, "a regression", fit, into))
    return;
  c.check(fit == into, "fit-model-not-equal", "it is not equal");
  const std::vector<double> at = {0., 0.7, -3.};
  c.check(arc::same(Eigen::VectorXd(fit.predict(at).mean()), Eigen::VectorXd(into.predict(at).mean())), "prediction-changed", "it predicts differently");
}

MC_SCENARIO(null_models) {
  const int n = c.range(0, 2);
  NullModel model, other;
  if (c.flip())
    return round_trip_model(c, model, other, n);
  round_trip_fit(c, model.fit(data(n)), other.fit(data(2)));
}

namespace {

template <typename Key> void same_iteration(mc::Ctx &c, const RansacIteration<Key> &a, const RansacIteration<Key> &b) {
  c.check(a.candidates == b.candidates, "ransac-candidates-changed", "the candidates differ");
  c.check(a.inliers == b.inliers, "ransac-inliers-changed", "the inliers differ");
  c.check(a.outliers == b.outliers, "ransac-outliers-changed", "the outliers differ");
  c.check(arc::same_bits(a.consensus_metric_value, b.consensus_metric_value), "ransac-metric-changed", "the consensus metric differs");
}

template <typename Strategy> void ransacs(mc::Ctx &c, const Strategy &strategy) {
  const int n = c.range(3, 5);
  RansacConfig config;
  config.inlier_threshold = c.pick<double>({1e6, 2., -1e6});
  config.random_sample_size = 2;
  config.min_consensus_size = 2 + c.choose(2);
  config.max_iterations = c.pick<int>({1, 3});
  config.max_failed_candidates = 3;
  const auto gp = gp_from_covariance(covariance(1.5, 0.2));
  auto model = gp.ransac(strategy, config), other = gp_from_covariance(covariance(0.7, 0.1)).ransac(strategy, config);
  if (c.flip())
    return round_trip_model<false>(c, model, other, n);
  RansacConfig easy = config;
  easy.inlier_threshold = 1e6;
  easy.min_consensus_size = 2;
  auto fit = model.fit(data(n));
  // over a fit which failed, or one which did not
  RansacConfig hard = config;
  hard.min_consensus_size = 100;
  auto into = c.flip() ? gp.ransac(strategy, easy).fit(data(3)) : gp.ransac(strategy, hard).fit(data(3));
  const int k = arc::pick(c);
  const bool found = fit.get_fit().has_fit_model();
  c << n << " data, " << (found ? "consensus" : "no consensus");
  // the XML archive of cereal does not read the not-a-number of no consensus
  c.assume(found || k != arc::Xml);
  if (!arc::round_trip(c, k, "a RANSAC fit", fit, into))
    return;
  const auto &a = fit.get_fit(), &b = into.get_fit();
  c.check(a.has_fit_model() == b.has_fit_model(), "ransac-success-changed", "whether there is a fitted model differs");
  c.check(a.ransac_output.return_code == b.ransac_output.return_code, "ransac-return-code-changed", "the return code differs");
  same_iteration(c, a.ransac_output.best, b.ransac_output.best);
  c.check(a.ransac_output.iterations.size() == b.ransac_output.iterations.size(), "ransac-iterations-changed", "there are other iterations");
  for (std::size_t i = 0; i < a.ransac_output.iterations.size() && i < b.ransac_output.iterations.size(); ++i)
    same_iteration(c, a.ransac_output.iterations[i], b.ransac_output.iterations[i]);
  if (found && b.has_fit_model())
    same_predictions(c, fit, into);
}

} // namespace

MC_SCENARIO(ransac_gp) { ransacs(c, DefaultGPRansacStrategy()); }
MC_SCENARIO(ransac_generic) {
  ransacs(c, get_generic_ransac_strategy(NegativeLogLikelihood<JointDistribution>(), LeaveOneOutLikelihood<JointDistribution>(), LeaveOneOutGrouper()));
}
