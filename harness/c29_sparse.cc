// C29: sparse Gaussian processes.
#include "c29_models.inc"

namespace {
template <typename Impl> void sparse(mc::Ctx &c, const Impl &impl, bool earlier = false) {
  const int n = c.range(1, 4), points = c.range(2, 3);
  const bool fitted = earlier || c.flip();
  LeaveOneOutGrouper loo;
  UniformlySpacedInducingPoints strategy(points);
  auto make = [&](double s) { return sparse_gp_from_covariance(covariance(s, 0.2), loo, strategy, s > 1. || earlier ? "first" : "second", impl); };
  c << points << " inducing points, ";
  if (!fitted)
    return round_trip_model(c, make(1.5), make(0.7), n);
  c << n << " data";
  auto fit = make(1.5).fit(data(n)), into = make(0.7).fit(data(2));
  if (earlier)
    return earlier_fit(c, fit, into);
  round_trip_fit(c, fit, into);
}
} // namespace

MC_SCENARIO(sparse_qr_gps) { sparse(c, DenseQRImplementation{}); }
MC_SCENARIO(sparse_spqr_gps) { sparse(c, SPQRImplementation{}); }
MC_SCENARIO(earlier_sparse_qr_gps) { sparse(c, DenseQRImplementation{}, true); }
MC_SCENARIO(earlier_sparse_spqr_gps) { sparse(c, SPQRImplementation{}, true); }
