// C29: models and fitted models through every archive.
#include "c29_archives.h"

using namespace albatross;

namespace {

auto covariance(double sigma, double noise) {
  SquaredExponential<EuclideanDistance> se(2., sigma);
  IndependentNoise<double> n(noise);
  return se + measurement_only(n);
}

RegressionDataset<double> data(int n) {
  std::vector<double> x;
  Eigen::VectorXd y(n), v(n);
  for (int i = 0; i < n; ++i) {
    x.push_back(1.3 * i - 1.);
    y[i] = std::sin(2. * i) + 0.3 * i;
    v[i] = 0.05 * (i % 3);
  }
  return RegressionDataset<double>(x, MarginalDistribution(y, v));
}

template <typename Model> void same_model(mc::Ctx &c, const Model &a, const Model &b) {
  c.check(a.get_params() == b.get_params(), "model-parameters-changed", pretty_params(b.get_params()));
  for (const auto &p : a.get_params())
    c.check(arc::same_bits(p.second.value, b.get_params().at(p.first).value), "model-parameters-changed", p.first);
  c.check(a.insights == b.insights, "model-insights-changed", "the insights differ");
  c.check(a == b, "model-not-equal", "the loaded model is not equal to the saved one");
}

template <typename Fit1, typename Fit2> void same_predictions(mc::Ctx &c, const Fit1 &a, const Fit2 &b) {
  for (const std::vector<double> &at : {std::vector<double>{}, {0.2}, {-1., 0.3, 5.}}) {
    const auto pa = a.predict(at), pb = b.predict(at);
    c.check(arc::same(Eigen::VectorXd(pa.mean()), Eigen::VectorXd(pb.mean())), "prediction-changed",
            "predicted " + arc::show(Eigen::VectorXd(pa.mean())) + ", now " + arc::show(Eigen::VectorXd(pb.mean())));
    c.check(arc::same(Eigen::VectorXd(pa.marginal().covariance.diagonal()), Eigen::VectorXd(pb.marginal().covariance.diagonal())),
            "prediction-variance-changed", "the marginal prediction differs");
    c.check(arc::same(pa.joint().covariance, pb.joint().covariance), "prediction-covariance-changed", "the joint prediction differs");
  }
}

// `other` is a model of the same type with other parameters.
template <bool joint = true, typename Model> void round_trip_model(mc::Ctx &c, Model model, Model other, int n) {
  const int k = arc::pick(c);
  const bool tweak = c.flip();
  if (tweak) {
    double offset = 1.1;
    for (const auto &p : model.get_params()) {
      model.set_param_value(p.first, p.second.value + offset);
      model.set_prior(p.first, GaussianPrior(1., 2.));
      offset += 0.21;
    }
    model.insights["note"] = "an insight";
  }
  other.insights["old"] = "old";
  c << n << " data" << (tweak ? ", changed parameters" : "");
  if (arc::round_trip(c, k, "a model", model, other)) {
    same_model(c, model, other);
    if constexpr (joint)
      if (n > 0)
        same_predictions(c, model.fit(data(n)), other.fit(data(n)));
  }
}

template <typename FitModelType> void round_trip_fit(mc::Ctx &c, const FitModelType &fit, FitModelType into) {
  const int k = arc::pick(c);
  const FitModelType before(fit);
  if (!arc::round_trip(c, k, "a fitted model", fit, into))
    return;
  c.check(before.get_fit() == into.get_fit(), "fit-not-equal", "the loaded fit is not equal to what was saved");
  same_model(c, fit.get_model(), into.get_model());
  c.check(fit.get_fit() == into.get_fit(), "fit-not-equal", "the loaded fit is not equal to the saved one");
  c.check(fit == into, "fit-model-not-equal", "the loaded fitted model is not equal to the saved one");
  same_predictions(c, fit, into);
}

// Fits written by the versions of the library before names of models, norms of
// LDLTs, names of alternatives and numerical ranks were saved, each or all.
template <typename FitModelType> void earlier_fit(mc::Ctx &c, const FitModelType &fit, FitModelType into) {
  const std::vector<arc::Earlier> all = {{"insights", 0, {"name"}}, {"transpositions", 0, {"l1_norm", "sign", "info"}}, {"which_typeid", 0, {"which_typeid"}}, {"numerical_rank", 1, {"numerical_rank"}}};
  std::vector<arc::Earlier> those;
  for (const auto &e : all)
    if (c.flip()) {
      those.push_back(e);
      c << "without " << e.members[0] << "; ";
    }
  const std::string name = into.get_model().get_name();
  int changed = 0;
  const std::string written = arc::make_earlier(arc::save(arc::Json, fit), those, changed);
  try {
    arc::load(arc::Json, written, into);
  } catch (const std::exception &e) {
    c.check(false, "load-earlier-failed", "cannot be loaded: " + std::string(e.what()));
    return;
  }
  c.step();
  same_model(c, fit.get_model(), into.get_model());
  same_predictions(c, fit, into);
  if (those.empty())
    c.check(fit == into, "fit-model-not-equal", "the loaded fitted model is not equal to the saved one");
}

} // namespace
