// C12: priors are normalised densities on their stated support.
#include <albatross/Core>
#include <albatross/Tune>
#include "mc.h"

using namespace albatross;

namespace {

constexpr double INF = HUGE_VAL;
constexpr double EPS = std::numeric_limits<double>::epsilon();

// The reference: kind, support and density written from the definition.
struct Ref {
  int kind;
  double p, q;
  bool operator==(const Ref &o) const {
    return kind == o.kind && (kind < 4 || (p == o.p && q == o.q));
  }
};
const char *kind_name(int k) {
  static const char *names[] = {"uninformative", "fixed", "non_negative", "positive", "uniform", "log_scale_uniform", "gaussian", "log_normal", "positive_gaussian"};
  return names[k];
}
PriorContainer make(const Ref &r) {
  switch (r.kind) {
  case 0:
    return UninformativePrior();
  case 1:
    return FixedPrior();
  case 2:
    return NonNegativePrior();
  case 3:
    return PositivePrior();
  case 4:
    return UniformPrior(r.p, r.q);
  case 5:
    return LogScaleUniformPrior(r.p, r.q);
  case 6:
    return GaussianPrior(r.p, r.q);
  case 7:
    return LogNormalPrior(r.p, r.q);
  default:
    return PositiveGaussianPrior(r.p, r.q);
  }
}
double lower(const Ref &r) {
  switch (r.kind) {
  case 2:
  case 8:
    return 0.;
  case 3:
  case 7:
    return EPS;
  case 4:
  case 5:
    return r.p;
  default:
    return -INF;
  }
}
double upper(const Ref &r) {
  return r.kind == 4 || r.kind == 5 ? r.q : r.kind == 8 ? std::max(r.p, 0.) + 10. * r.q : INF;
}
double log_density(const Ref &r, double x) {
  const long double pi = 3.14159265358979323846264338327950288L;
  const auto gauss = [&](long double v) {
    const long double d = (v - static_cast<long double>(r.p)) / static_cast<long double>(r.q);
    return -d * d / 2.L - std::log(static_cast<long double>(r.q) * std::sqrt(2.L * pi));
  };
  switch (r.kind) {
  case 0:
  case 1:
  case 2:
  case 3:
    return 0.; // improper, flat
  case 4:
  case 5:
    return static_cast<double>(-std::log(static_cast<long double>(r.q) - static_cast<long double>(r.p)));
  case 6:
    return static_cast<double>(gauss(x));
  case 7:
    return static_cast<double>(gauss(std::log(static_cast<long double>(x))) - std::log(static_cast<long double>(x)));
  default:
    // a Gaussian cut at zero: divided by the mass it has above zero
    return static_cast<double>(gauss(x) - std::log(0.5L * std::erfc(-static_cast<long double>(r.p) / (static_cast<long double>(r.q) * std::sqrt(2.L)))));
  }
}
std::string show(const Ref &r) {
  std::ostringstream os;
  os.precision(17);
  os << kind_name(r.kind);
  if (r.kind >= 4)
    os << "(" << r.p << ", " << r.q << ")";
  return os.str();
}
std::vector<Ref> all_priors() {
  std::vector<Ref> out;
  for (int k = 0; k < 4; ++k)
    out.push_back({k, 0., 0.});
  const auto lohi = mc::tiered<std::vector<std::pair<double, double>>>(
      {{0., 1.}, {-1., 1.}, {-3.5, -2.}, {0.25, 1e6}, {-1e6, 1e6}, {1., 1. + 1e-9}, {1., 1. + 2e-9}, {123456.7, 123456.9}, {123456.71, 123456.9}},
      {{0., 1.}, {-1., 1.}, {-3.5, -2.}, {0.25, 1e6}, {-1e6, 1e6}, {1., 1. + 1e-9}, {1., 1. + 2e-9}, {123456.7, 123456.9}, {123456.71, 123456.9}, {0., 1e-300}, {0., 1e300}, {-1e-7, 1e-9}, {5., 7.}, {-7., -5.}, {2., 1e3}});
  for (const auto &b : lohi)
    out.push_back({4, b.first, b.second});
  for (const auto &b : std::vector<std::pair<double, double>>{{1e-12, 1e12}, {1., 2.}, {1e-3, 1e-2}, {0.25, 1e6}, {EPS, 1e300}, {1., 1. + 1e-9}, {1., 1. + 2e-9}})
    out.push_back({5, b.first, b.second});
  const auto mus = mc::tiered<std::vector<double>>({0., 1., -2.5, 100., 100.0000001}, {0., 1., -1., -2.5, 0.001, 100., 100.0000001, -1e5});
  const auto sigmas = mc::tiered<std::vector<double>>({1., 0.1, 3., 1000.}, {1., 0.1, 0.5, 3., 1e-4, 1000., 1000.0001});
  for (double m : mus)
    for (double s : sigmas)
      out.push_back({6, m, s});
  for (double m : mus)
    for (double s : sigmas)
      if (std::fabs(m) < 10. && s < 10.)
        out.push_back({7, m, s});
  for (double s : sigmas) // half normal: the mode is at zero
    out.push_back({8, 0., s});
  for (const auto &p : std::vector<std::pair<double, double>>{{1., 1.}, {-0.5, 1.}, {2., 0.5}, {-2., 1.}, {0.1, 3.}, {5e-5, 1e-4}, {-1e-8, 1e-7}, {-30., 1.}, {-36., 1.}, {-45., 1.}, {-12., 0.1}})
    out.push_back({8, p.first, p.second});
  for (int k : {6, 7, 8}) // next to each other
    for (const auto &p : std::vector<std::pair<double, double>>{{0.5, 2.}, {0.5 + 1e-9, 2.}, {0.5, 2. + 1e-9}})
      out.push_back({k, p.first, p.second});
  return out;
}
const std::vector<Ref> &priors() {
  static const auto p = all_priors();
  return p;
}
// Arguments inside, on and outside of the bounds.
std::vector<double> arguments(const Ref &r) {
  std::vector<double> xs = {0., -0., 1., -1., EPS, EPS / 2., -EPS, 0.5, 2., -2., 1e-300, -1e-300, 1e3, -1e3, 1e12, -1e12};
  for (double b : {lower(r), upper(r)})
    if (std::isfinite(b))
      for (double x : {b, std::nextafter(b, -INF), std::nextafter(b, INF), b - 1., b + 1., 2. * b, b / 2.})
        xs.push_back(x);
  const int n = mc::tiered(60, 600);
  double a = lower(r), b = upper(r);
  if (!std::isfinite(a))
    a = (r.kind == 6 ? r.p - 8. * r.q : -50.);
  if (!std::isfinite(b))
    b = (r.kind == 6 ? r.p + 8. * r.q : r.kind == 7 ? std::exp(r.p + 6. * r.q) : 50.);
  for (int i = -n / 10; i <= n + n / 10; ++i)
    xs.push_back(a + (b - a) * static_cast<double>(i) / static_cast<double>(n));
  if (a > 0.)
    for (int i = 0; i <= n; ++i)
      xs.push_back(std::exp(std::log(a) + (std::log(b) - std::log(a)) * static_cast<double>(i) / static_cast<double>(n)));
  return xs;
}

} // namespace

MC_SCENARIO(density_bounds_and_validity) {
  const Ref r = c.pick(priors());
  const auto xs = arguments(r);
  const PriorContainer prior = make(r);
  c << show(r);
  c.state(show(r));
  c.check(prior.lower_bound() == lower(r), "lower-bound", show(r));
  c.check(prior.upper_bound() == upper(r), "upper-bound", show(r));
  c.check(prior.is_fixed() == (r.kind == 1), "fixed", show(r));
  c.check(prior.is_log_scale() == (r.kind == 5), "log-scale", show(r));
  for (double x : xs) {
    c.step();
    std::ostringstream what;
    what.precision(17);
    what << show(r) << " at " << x;
    const bool inside = x >= lower(r) && x <= upper(r);
    const Parameter param(x, prior);
    c.check(param.is_valid() == inside && param.within_bounds() == inside, "valid-iff-within-bounds", what.str());
    const double got = prior.log_pdf(x);
    c.check(!std::isnan(got), "density-is-a-number", what.str());
    c.check(param.prior_log_likelihood() == got, "parameter-density", what.str());
    if (inside)
      c.close(got, log_density(r, x), "log-density", what.str(), 1e-10, 1e-9);
    else if (x <= 0. ? (r.kind == 3 || r.kind == 7) : false)
      c.check(got == -INF, "outside-is-minus-infinity", what.str());
    else if (r.kind == 4 || r.kind == 5 || r.kind == 2)
      c.check(got == -INF, "outside-is-minus-infinity", what.str());
  }
  const Parameter nan_param(std::nan(""), prior);
  c.check(!nan_param.is_valid(), "nan-is-not-valid", show(r));
}

// The mass of every proper prior by quadrature, which does not know the
// formula.
MC_SCENARIO(total_mass_is_one) {
  const Ref r = c.pick(priors());
  c.assume(r.kind >= 4);
  const PriorContainer prior = make(r);
  const int n = mc::tiered(20000, 200000);
  long double mass = 0.L;
  const bool log_axis = r.kind == 7 || r.kind == 5;
  double a, b;
  if (r.kind == 6) {
    a = r.p - 12. * r.q;
    b = r.p + 12. * r.q;
  } else if (r.kind == 7) {
    a = r.p - 12. * r.q;
    b = r.p + 12. * r.q;
  } else {
    a = prior.lower_bound();
    b = prior.upper_bound();
    if (r.kind == 5) {
      a = std::log(a);
      b = std::log(b);
    }
  }
  const long double step = (static_cast<long double>(b) - static_cast<long double>(a)) / n;
  for (int i = 0; i < n; ++i) {
    const double t = static_cast<double>(static_cast<long double>(a) + (i + 0.5L) * step);
    const double x = log_axis ? std::exp(t) : t;
    if (x < prior.lower_bound() || x > prior.upper_bound())
      continue;
    const long double p = std::exp(static_cast<long double>(prior.log_pdf(x)));
    mass += p * step * (log_axis ? static_cast<long double>(x) : 1.L);
  }
  c << show(r);
  c.state(show(r));
  c.step(static_cast<std::size_t>(n));
  c.close(static_cast<double>(mass), 1., "total-mass", show(r), 1e-3);
}

MC_SCENARIO(equal_iff_same_kind_and_parameters) {
  const auto &ps = priors();
  const Ref a = c.pick(ps);
  const PriorContainer pa = make(a);
  c << show(a);
  c.state(show(a));
  for (const Ref &b : ps) {
    c.step();
    const PriorContainer pb = make(b);
    c.check((pa == pb) == (a == b), "prior-equality", show(a) + " vs " + show(b));
    PriorContainer na = pa;
    c.check((na != pb) == !(a == b), "prior-inequality", show(a) + " vs " + show(b));
    c.check((Parameter(1.25, pa) == Parameter(1.25, pb)) == (a == b), "parameter-equality", show(a) + " vs " + show(b));
    c.check((Parameter(1.25, pa) != Parameter(1.25, pb)) == !(a == b), "parameter-inequality", show(a) + " vs " + show(b));
    c.check(!(Parameter(1.25, pa) == Parameter(1.5, pb)), "parameter-value-differs", show(a));
    PriorContainer assigned = pb;
    assigned = pa;
    c.check(assigned == pa && assigned.get_name() == pa.get_name() && assigned.lower_bound() == pa.lower_bound() && assigned.log_pdf(0.75) == pa.log_pdf(0.75), "assigned-prior", show(a) + " over " + show(b));
  }
}

// The likelihood of a set of parameters is the sum; it is valid when all are.
MC_SCENARIO(parameter_sets) {
  static const std::vector<Ref> some = {{0, 0., 0.}, {1, 0., 0.}, {2, 0., 0.}, {3, 0., 0.}, {4, 0., 2.}, {5, 1e-3, 10.}, {6, 1., 2.}, {7, 0., 1.}, {8, 0., 1.}};
  static const std::vector<double> values = {-1., 0., 0.5, 2., 11.};
  const int n = c.range(0, mc::tiered(3, 4));
  ParameterStore params;
  double sum = 0.;
  bool valid = true, hidden = false;
  std::ostringstream what;
  for (int i = 0; i < n; ++i) {
    const Ref r = c.pick(some);
    const double x = c.pick(values);
    params["p" + std::to_string(i)] = Parameter(x, make(r));
    const bool inside = x >= lower(r) && x <= upper(r);
    valid = valid && inside;
    if (inside)
      sum += log_density(r, x);
    else if (r.kind == 8)
      hidden = true; // no density stated outside
    else
      sum = -INF;
    what << show(r) << " at " << x << "; ";
  }
  c << what.str();
  c.state(what.str());
  c.step();
  c.check(params_are_valid(params) == valid, "set-valid-iff-all-valid", what.str());
  if (!hidden)
    c.close(parameter_prior_log_likelihood(params), sum, "sum-of-log-densities", what.str(), 1e-10, 1e-10);
  struct Handler : public ParameterHandlingMixin {
    using ParameterHandlingMixin::ParameterHandlingMixin;
  };
  const Handler h(params);
  c.check(h.params_are_valid() == valid, "handler-valid-iff-all-valid", what.str());
  if (!hidden)
    c.close(h.prior_log_likelihood(), sum, "handler-sum-of-log-densities", what.str(), 1e-10, 1e-10);
}

// Priors without a density are refused.
MC_SCENARIO(senseless_bounds_are_refused) {
  static const std::vector<double> bounds = {-1., 0., 1e-12, 0.5, 1.};
  const double a = c.pick(bounds), b = c.pick(bounds);
  const bool log_scale = c.flip();
  c << (log_scale ? "log scale " : "") << a << " " << b;
  c.state(std::to_string(a) + "," + std::to_string(b));
  c.step();
  const bool bad = !(b > a) || (log_scale && !(a > 0.));
  const bool died = mc::dies([&] {
    if (log_scale)
      LogScaleUniformPrior p(a, b);
    else
      UniformPrior p(a, b);
  });
  c.check(died == bad, "senseless-bounds", std::to_string(a) + ", " + std::to_string(b));
}
