// C15: radial covariances have their named form and stay valid covariances.
#include <albatross/CovarianceFunctions>
#include <albatross/Dataset>
#include <Eigen/Eigenvalues>
#include "mc.h"

using namespace albatross;
using V1 = Eigen::Matrix<double, 1, 1>;
using V2 = Eigen::Vector2d;
using V3 = Eigen::Vector3d;
using Vx = Eigen::VectorXd;

namespace {

long double form(int kind, long double r) {
  switch (kind) {
  case 0:
    return std::exp(-r * r);
  case 1:
    return std::exp(-r);
  case 2: {
    const long double s = std::sqrt(3.L) * r;
    return (1.L + s) * std::exp(-s);
  }
  default: {
    const long double s = std::sqrt(5.L) * r;
    return (1.L + s + s * s / 3.L) * std::exp(-s);
  }
  }
}
double free_function(int kind, double d, double l, double s) {
  switch (kind) {
  case 0:
    return squared_exponential_covariance(d, l, s);
  case 1:
    return exponential_covariance(d, l, s);
  case 2:
    return matern_32_covariance(d, l, s);
  default:
    return matern_52_covariance(d, l, s);
  }
}
double derive(int kind, double d, double s, double inc) {
  switch (kind) {
  case 0:
    return derive_squared_exponential_length_scale(d, s, inc);
  case 1:
    return derive_exponential_length_scale(d, s, inc);
  case 2:
    return derive_matern_32_length_scale(d, s, inc);
  default:
    return derive_matern_52_length_scale(d, s, inc);
  }
}
const char *name(int kind) {
  static const char *n[] = {"squared exponential", "exponential", "matern 3/2", "matern 5/2"};
  return n[kind];
}
template <typename Metric, typename F> void with_kernel(int kind, double l, double s, F f) {
  switch (kind) {
  case 0:
    f(SquaredExponential<Metric>(l, s));
    break;
  case 1:
    f(Exponential<Metric>(l, s));
    break;
  case 2:
    f(Matern32<Metric>(l, s));
    break;
  default:
    f(Matern52<Metric>(l, s));
  }
}
std::vector<double> scales() { return mc::tiered<std::vector<double>>({1e-12, 1e-3, 0.5, 1., 7., 1e5, 1e12}, {1e-15, 1e-12, 1e-6, 1e-3, 0.1, 0.5, 1., 2., 7., 100., 1e5, 1e9, 1e12, 1e15}); }
std::vector<double> ratios() {
  std::vector<double> out = {0., 1e-300, 1e-20, 1e-8, 1e-4, 1e-3, 1e-2, 30., 100., 1000., 1e6, 1e12, 1e100};
  const int n = mc::tiered(200, 2000);
  for (int i = 1; i <= n; ++i)
    out.push_back(20. * i / n);
  std::sort(out.begin(), out.end());
  return out;
}
std::string at(double a, double b, double e) {
  std::ostringstream os;
  os.precision(17);
  os << a << ", " << b << ", " << e;
  return os.str();
}

} // namespace

MC_SCENARIO(published_form) {
  const int kind = c.choose(4);
  const double l = c.pick(scales());
  const double s = c.pick<double>({1., 0., 0.25, 3., 1e-6, 1e6});
  c << name(kind) << " " << l << " " << s;
  c.state(name(kind) + at(l, s, 0));
  double previous = s * s;
  for (double r : ratios()) {
    const double d = r * l;
    if (!std::isfinite(d))
      continue;
    c.step();
    const double got = free_function(kind, d, l, s);
    const long double q = static_cast<long double>(d) / static_cast<long double>(l);
    const double want = static_cast<double>(static_cast<long double>(s) * static_cast<long double>(s) * form(kind, q));
    const std::string where = std::string(name(kind)) + " at " + at(d, l, s);
    c.check(mc::near(got, want, 2e-12, 1e-300), "published-form", where + ": " + std::to_string(got) + " vs " + std::to_string(want));
    c.check(got <= s * s && got >= 0., "between-zero-and-the-variance", where);
    c.check(got <= previous * (1. + 1e-12), "decreases-with-distance", where);
    if (d == 0.)
      c.check(got == s * s, "variance-at-distance-zero", where);
    if (r >= 100.)
      c.check(got <= 1e-30 * s * s, "decays-to-zero", where);
    previous = got;
    for (double k : {1e-3, 8.})
      c.check(mc::near(free_function(kind, d * k, l * k, s), got, 1e-9, 1e-300), "depends-on-the-ratio-only", where);
    // the covariance functions evaluate the same thing
    with_kernel<EuclideanDistance>(kind, l, s, [&](const auto &cov) {
      c.check(mc::near(cov(0., d), want, 2e-12, 1e-300) && mc::near(cov(-d, 0.), want, 2e-12, 1e-300), "covariance-function", where);
      const double x = 0.5 * l; // not at the origin
      const double y = x + d;
      const double dd = std::fabs(y - x);
      c.check(mc::near(cov(x, y), free_function(kind, dd, l, s), 1e-12, 1e-300) && cov(x, y) == cov(y, x), "stationary-and-symmetric", where);
    });
  }
}

MC_SCENARIO(senseless_length_scales) {
  const int kind = c.choose(4);
  const double l = c.pick<double>({0., -1., -1e-300});
  const double d = c.pick<double>({0., 1.});
  c << name(kind) << " " << l;
  c.state(name(kind) + at(l, d, 0));
  c.step();
  c.check(free_function(kind, d, l, 2.) == 0., "no-covariance-without-a-length-scale", name(kind));
}

MC_SCENARIO(default_parameters_and_names) {
  const int kind = c.choose(4);
  with_kernel<EuclideanDistance>(kind, 3., 5., [&](auto cov) {
    const auto p = cov.get_params();
    c.state(cov.get_name());
    c << cov.get_name();
    c.step();
    c.check(p.size() == 2, "two-parameters");
    for (const auto &q : p) {
      // setting either changes what is computed
      const double before = cov(0., 1.);
      cov.set_param_value(q.first, q.second.value * 2.);
      c.check(cov(0., 1.) > before, "parameter-has-an-effect", q.first);
      const double want = q.second.value == 3. ? free_function(kind, 1., 6., 5.) : free_function(kind, 1., 3., 10.);
      c.close(cov(0., 1.), want, "parameter-value", q.first);
      cov.set_param_value(q.first, q.second.value);
      Parameter zero = q.second;
      zero.value = 0.;
      c.check(zero.is_valid() == (q.second.value == 5.), "prior-of-the-parameter", q.first); // sigma may be zero
      Parameter negative = q.second;
      negative.value = -1.;
      c.check(!negative.is_valid(), "prior-of-the-parameter", q.first);
    }
  });
}

// Length scale and process noise invert each other.
MC_SCENARIO(derived_length_scale) {
  const int kind = c.choose(4);
  const double d = c.pick(mc::tiered<std::vector<double>>({1e-3, 1., 1e5}, {1e-9, 1e-3, 0.5, 1., 30., 1e5, 1e9}));
  const double s = c.pick(mc::tiered<std::vector<double>>({0.1, 1., 40.}, {1e-6, 0.1, 1., 3., 40., 1e6}));
  const int n = mc::tiered(60, 600);
  c << name(kind) << " " << d << " " << s;
  c.state(name(kind) + at(d, s, 0));
  double previous = HUGE_VAL;
  for (int i = 1; i < n; ++i) {
    c.step();
    // from a thousandth to nearly all of the prior deviation
    const double ratio = i < n / 3 ? 1e-3 * std::pow(300., static_cast<double>(i) / (n / 3)) : 0.3 + 0.699 * static_cast<double>(i - n / 3) / (n - n / 3);
    const double inc = ratio * s;
    const double l = derive(kind, d, s, inc);
    const std::string where = std::string(name(kind)) + " at " + at(d, s, inc);
    c.check(std::isfinite(l) && l > 0., "positive-length-scale", where);
    const double back = process_noise_equivalent([&](double x) { return free_function(kind, x, l, s); }, d);
    c.check(mc::near(back, inc, 1e-6, 0.), "length-scale-and-noise-invert", where + ": " + std::to_string(back));
    c.check(l <= previous * (1. + 1e-9), "more-noise-means-shorter-scale", where);
    previous = l;
    with_kernel<EuclideanDistance>(kind, 1., 1., [&](const auto &cov) { c.check(cov.derive_length_scale(d, s, inc) == l, "member-derives-the-same", where); });
    // the distance is only a unit
    c.check(mc::near(derive(kind, d * 16., s, inc), l * 16., 1e-6, 0.), "scales-with-the-distance", where);
  }
}
MC_SCENARIO(derived_length_scale_at_the_edges) {
  const int kind = c.choose(4);
  const double d = c.pick<double>({1e-3, 1., 1e5});
  const double s = c.pick<double>({-1., 0., 1.});
  const double inc = c.pick<double>({-1., 0., 1., 2.});
  c << name(kind) << " " << d << " " << s << " " << inc;
  c.state(name(kind) + at(d, s, inc));
  c.step();
  const double l = derive(kind, d, s, inc);
  if (inc <= 0. || s <= 0.)
    c.check(l == MAX_LENGTH_SCALE_RATIO * d, "nothing-can-move-means-huge", at(d, s, inc));
  else if (inc >= s)
    c.check(l == MIN_LENGTH_SCALE_RATIO * d, "everything-moves-means-tiny", at(d, s, inc));
  c.check(mc::dies([&] { derive(kind, 0., 1., 0.5); }), "no-distance-is-refused");
}

// ---- metrics ----
namespace {
std::vector<double> axis() { return mc::tiered<std::vector<double>>({-1.5, 0., 2.}, {-1.5, 0., 0.25, 2.}); }
template <typename V> V point(mc::Ctx &c, int dim) {
  V v(dim);
  for (int i = 0; i < dim; ++i)
    v[i] = c.pick(axis());
  return v;
}
template <> V1 point<V1>(mc::Ctx &c, int) {
  V1 v;
  v[0] = c.pick(axis());
  return v;
}
template <typename V> std::string text(const V &v) {
  std::ostringstream os;
  for (Eigen::Index i = 0; i < v.size(); ++i)
    os << v[i] << (i + 1 < v.size() ? "," : "");
  return "(" + os.str() + ")";
}
long double norm(const Vx &v) {
  long double s = 0.L;
  for (Eigen::Index i = 0; i < v.size(); ++i)
    s += static_cast<long double>(v[i]) * static_cast<long double>(v[i]);
  return std::sqrt(s);
}
template <typename V, typename Metric> void metric_of(mc::Ctx &c, const Metric &m, int dim, int kind) {
  const V x = point<V>(c, dim), y = point<V>(c, dim);
  const Vx dx = x, dy = y;
  const std::string where = text(x) + " " + text(y);
  c << where;
  c.state(std::to_string(kind) + where);
  c.step();
  if (kind == 2)
    c.assume(norm(dx) > 0 && norm(dy) > 0);
  const double d = m(x, y);
  double want;
  if (kind == 0)
    want = static_cast<double>(norm(dx - dy));
  else if (kind == 1)
    want = static_cast<double>(std::fabs(norm(dx) - norm(dy)));
  else {
    long double dot = 0.L;
    for (Eigen::Index i = 0; i < dx.size(); ++i)
      dot += static_cast<long double>(dx[i]) * static_cast<long double>(dy[i]);
    dot /= norm(dx) * norm(dy);
    want = static_cast<double>(std::acos(std::min(1.L, std::max(-1.L, dot))));
  }
  const double tol = kind == 2 ? 1e-7 : 1e-12; // the arc cosine has no more digits next to 0
  c.check(mc::near(d, want, 1e-12, tol), "metric-value", where + ": " + std::to_string(d) + " vs " + std::to_string(want));
  c.check(d == m(y, x), "metric-symmetric", where);
  c.check(d >= 0., "metric-non-negative", where);
  c.check(m(x, x) <= tol, "metric-zero-to-itself", where);
  if (kind == 0)
    c.check((d == 0.) == (dx == dy), "metric-zero-only-to-itself", where);
  const V z = point<V>(c, dim);
  if (kind == 2)
    c.assume(norm(Vx(z)) > 0);
  c.check(d <= m(x, z) + m(z, y) + 2. * tol, "triangle", where + " " + text(z));
  if (kind == 2)
    for (double s : {0.5, 3.})
      c.check(mc::near(m(V(x * s), y), d, 1e-9, tol), "angle-ignores-length", where);
  // distances of all pairs
  const Eigen::MatrixXd all = distance_matrix(m, std::vector<V>{x, y, z});
  c.check(all.rows() == 3 && all.cols() == 3 && all(0, 1) == d && all(1, 0) == d && all(0, 2) == m(x, z) && all(2, 1) == m(y, z) && all(0, 0) == m(x, x), "distance-matrix", where);
}
} // namespace

MC_SCENARIO(metrics) {
  const int kind = c.choose(3);
  const int dim = c.range(1, 3);
  c << kind << "/" << dim << " ";
  if (kind == 0) {
    const EuclideanDistance m;
    if (dim == 1) {
      const double x = c.pick(axis()), y = c.pick(axis());
      V1 a, b;
      a[0] = x;
      b[0] = y;
      Vx p(1), q(1);
      p[0] = x;
      q[0] = y;
      c.check(m(x, y) == std::fabs(x - y) && mc::near(m(a, b), m(x, y)) && mc::near(m(p, q), m(x, y)), "scalars-agree-with-vectors");
      metric_of<V1>(c, m, 1, 0);
    } else if (dim == 2)
      metric_of<V2>(c, m, 2, 0);
    else
      metric_of<V3>(c, m, 3, 0);
  } else if (kind == 1) {
    metric_of<Vx>(c, RadialDistance(), dim, 1);
  } else {
    const AngularDistance m;
    if (dim == 2)
      metric_of<V2>(c, m, 2, 2);
    else if (dim == 3)
      metric_of<V3>(c, m, 3, 2);
    else
      metric_of<Vx>(c, m, 2, 2);
  }
}

// Points which are close to each other and far from the origin.
MC_SCENARIO(distances_far_from_the_origin) {
  const double far = c.pick<double>({1., 1e3, 6.4e6, 1e9, 1e12});
  const int e = c.range(0, 30), dim = c.range(1, 3), along = c.choose(dim);
  const std::string where = std::to_string(far) + " 2^-" + std::to_string(e) + " dim " + std::to_string(dim) + " along " + std::to_string(along);
  c << where;
  c.state(where);
  c.step();
  Vx x(dim), y(dim);
  for (int i = 0; i < dim; ++i)
    x[i] = far * (i + 1.) * (i % 2 ? -1. : 1.);
  y = x;
  y[along] += std::ldexp(1., 3 - e);
  const double apart = std::fabs(y[along] - x[along]); // exact
  const EuclideanDistance m;
  c.check(mc::near(m(x, y), apart, 1e-13, 0.) && m(x, y) == m(y, x) && m(x, x) == 0., "metric-of-near-points", where);
  if (dim == 1)
    c.check(m(x[0], y[0]) == apart, "metric-of-near-points", where);
  if (dim == 3) {
    const V3 p = x, q = y;
    c.check(mc::near(m(p, q), apart, 1e-13, 0.), "metric-of-near-points", where);
  }
  const auto all = distance_matrix(m, std::vector<Vx>{x, y, x});
  c.check(mc::near(all(0, 1), apart, 1e-13, 0.) && all(0, 2) == 0. && mc::near(all(2, 1), apart, 1e-13, 0.), "metric-of-near-points", where);
  with_kernel<EuclideanDistance>(0, 0.25, 2., [&](const auto &cov) { c.check(mc::near(cov(x, y), cov(0., apart), 1e-12, 0.) && cov(x, x) == 4., "covariance-of-near-points", where); });
}

// Nearly parallel and nearly opposite vectors.
MC_SCENARIO(angles_next_to_the_poles) {
  const int e = c.range(0, 40);
  const double sign = c.flip() ? 1. : -1.;
  const double eps = std::pow(2., -e);
  V3 x(1., 2., 3.), t(3., 0., -1.);
  V3 y = sign * (x + eps * t);
  c << e << sign;
  c.state(std::to_string(e) + std::to_string(sign));
  c.step();
  const double d = AngularDistance()(x, y);
  const double small = std::atan(eps * t.norm() / x.norm());
  const double want = sign > 0 ? small : M_PI - small;
  c.check(std::isfinite(d), "angle-is-a-number");
  c.check(mc::near(d, want, 1e-9, 1e-7), "angle-next-to-the-poles", std::to_string(d) + " vs " + std::to_string(want));
}

// ---- definiteness on every small point set ----
namespace {
template <typename Metric, typename V> void definite(mc::Ctx &c, const std::vector<V> &points, bool psd_for_all) {
  const int kind = psd_for_all ? c.choose(4) : 1;
  const double l = c.pick(mc::tiered<std::vector<double>>({0.1, 1., 50.}, {1e-6, 0.1, 1., 5., 50., 1e6}));
  const std::size_t most = mc::tiered<std::size_t>(4, 5);
  std::vector<V> xs;
  std::string where = std::string(name(kind)) + " " + std::to_string(l) + " at ";
  int next = 0;
  const int total = static_cast<int>(points.size());
  const int n = c.range(1, static_cast<int>(most));
  for (int i = 0; i < n; ++i) { // multisets: a point may repeat
    next += c.choose(total - next);
    xs.push_back(points[static_cast<std::size_t>(next)]);
    where += text(xs.back());
  }
  c << where;
  c.state(where);
  c.step();
  const auto verdict = [&](const auto &cov) {
    const Eigen::MatrixXd m = cov(xs);
    const Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> eig(m, Eigen::EigenvaluesOnly);
    c.check(m == m.transpose().eval(), "symmetric", where);
    c.check(eig.eigenvalues().minCoeff() >= -1e-9 * n * 4., "positive-semi-definite", where + ": " + std::to_string(eig.eigenvalues().minCoeff()));
    for (Eigen::Index i = 0; i < n; ++i)
      // the arc cosine has an accuracy of 1e-7 next to zero
      c.check(mc::near(m(i, i), 4., 1e-6 + (std::is_base_of<AngularDistance, Metric>::value ? 1e-7 / l : 0.)), "variances", where);
  };
  if constexpr (std::is_base_of<AngularDistance, Metric>::value)
    verdict(Exponential<Metric>(l, 2.));
  else
    with_kernel<Metric>(kind, l, 2., verdict);
}
} // namespace

MC_SCENARIO(definite_in_one_dimension) {
  std::vector<V1> p;
  for (double x : {-3., -0.5, 0., 0.25, 1., 4.})
    p.push_back(V1::Constant(x));
  definite<EuclideanDistance>(c, p, true);
}
MC_SCENARIO(definite_in_two_dimensions) {
  std::vector<V2> p;
  for (double x : {0., 1., 2.5})
    for (double y : {0., 1.})
      p.push_back(V2(x, y));
  definite<EuclideanDistance>(c, p, true);
}
MC_SCENARIO(definite_in_three_dimensions) {
  std::vector<V3> p;
  for (double x : {0., 1.})
    for (double y : {0., 1.})
      for (double z : {0., 2.})
        p.push_back(V3(x, y, z));
  definite<EuclideanDistance>(c, p, true);
}
MC_SCENARIO(definite_on_the_sphere) {
  std::vector<V3> p;
  for (double x : {-1., 0., 1.})
    for (double y : {-1., 1.})
      p.push_back(V3(x, y, 0.5));
  p.push_back(V3(0., 0., 1.));
  definite<AngularDistance>(c, p, false);
}
MC_SCENARIO(definite_by_radius) {
  std::vector<Vx> p;
  for (double x : {-1., 0., 1., 3.})
    for (double y : {0., 2.}) {
      Vx v(2);
      v << x, y;
      p.push_back(v);
    }
  definite<RadialDistance>(c, p, true);
}

// ---- the other terms ----
namespace {
template <int order> void polynomial(mc::Ctx &c) {
  const double x = c.pick<double>({-2., -0.5, 0., 1., 3.}), y = c.pick<double>({-2., -0.5, 0., 1., 3.});
  Polynomial<order> p(0.5);
  c << order << " " << x << " " << y;
  c.state(std::to_string(order) + at(x, y, 0));
  c.step();
  const int which = c.choose(order + 2); // one of the deviations differs
  if (which <= order)
    p.set_param_value("sigma_polynomial_" + std::to_string(which), 3.);
  double want = 0., term = 1.;
  for (int i = 0; i <= order; ++i) {
    want += (i == which ? 9. : 0.25) * term;
    term *= x * y;
  }
  c.close(p(x, y), want, "polynomial", at(x, y, order), 1e-11, 1e-11);
  c.check(p(x, y) == p(y, x), "polynomial-symmetric");
  c.check(static_cast<int>(p.get_params().size()) == order + 1, "polynomial-parameters");
}
struct Scale : public ScalingFunction {
  std::string get_name() const override { return "scale"; }
  double _call_impl(const double &x) const { return 1. + 2. * x; }
};
} // namespace
MC_SCENARIO(polynomials) {
  switch (c.choose(4)) {
  case 0:
    return polynomial<0>(c);
  case 1:
    return polynomial<1>(c);
  case 2:
    return polynomial<2>(c);
  default:
    return polynomial<5>(c);
  }
}
MC_SCENARIO(constant_noise_nugget_scaling) {
  const double x = c.pick<double>({-2., 0., 1.}), y = c.pick<double>({-2., -0., 1., 1. + 1e-15});
  const double s = c.pick<double>({0., 0.5, 100.});
  c << x << " " << y << " " << s;
  c.state(at(x, y, s));
  c.step();
  c.close(Constant(s)(x, y), s * s, "constant");
  c.close(Constant(s)(std::string("a"), std::string("b")), s * s, "constant-of-any-type");
  c.close(Constant(s)(x, std::string("b")), s * s, "constant-across-types");
  const IndependentNoise<double> noise(s);
  c.close(noise(x, y), x == y ? s * s : 0., "independent-noise");
  Nugget nugget;
  c.check(nugget.get_tunable_parameters().values.empty(), "nugget-is-not-tunable");
  nugget.set_param_value("nugget_sigma", s);
  c.close(nugget(x, y), x == y ? s * s : 0., "nugget");
  for (double small : {1e-12, 3e-9, 1e-8, 1e-5}) { // (relative to itself)
    nugget.set_param_value("nugget_sigma", small);
    c.check(mc::near(nugget(x, y), x == y ? small * small : 0., 1e-13, 0.), "nugget-of-any-size", std::to_string(small * 1e12));
    c.check(mc::near(IndependentNoise<double>(small)(x, y), x == y ? small * small : 0., 1e-13, 0.), "noise-of-any-size", std::to_string(small * 1e12));
    c.check(mc::near(Constant(small)(x, y), small * small, 1e-13, 0.), "constant-of-any-size", std::to_string(small * 1e12));
  }
  nugget.set_param_value("nugget_sigma", s);
  const LinearCombination<double> a({x, y}), b({y});
  double want = 0.;
  for (double p : {x, y})
    want += p == y ? s * s : 0.;
  c.close(nugget(a, b), want, "nugget-of-a-combination");
  c.close(nugget(Measurement<double>(x), Measurement<double>(y)), x == y ? s * s : 0., "nugget-of-measurements");
  const ScalingTerm<Scale> scale;
  c.close(scale(x, y), (1. + 2. * x) * (1. + 2. * y), "scaling-term");
  c.close((scale * Constant(s))(x, y), (1. + 2. * x) * (1. + 2. * y) * s * s, "scaling-times-constant");
  c.close((Constant(s) * scale)(x, y), (1. + 2. * x) * (1. + 2. * y) * s * s, "constant-times-scaling");
}

// A scaling function which is only defined for one of two types.
namespace {
struct Hidden {
  double v;
};
struct Seen {
  double v;
};
struct ScaleSeen : public ScalingFunction {
  std::string get_name() const override { return "scale_seen"; }
  double _call_impl(const Seen &x) const { return 2. + x.v; }
};
struct Both : public CovarianceFunction<Both> {
  double _call_impl(const Hidden &a, const Hidden &b) const { return 1. + a.v * b.v; }
  double _call_impl(const Hidden &a, const Seen &b) const { return 1. + a.v * b.v; }
  double _call_impl(const Seen &a, const Seen &b) const { return 1. + a.v * b.v; }
};
} // namespace
MC_SCENARIO(scaling_of_one_type) {
  const double x = c.pick<double>({-1., 0., 2.}), y = c.pick<double>({-1., 0., 2., -2.});
  const bool left = c.flip();
  c << x << " " << y << left;
  c.state(at(x, y, left));
  c.step();
  const double k = 1. + x * y;
  const auto check_all = [&](const auto &cov) {
    c.close(cov(Hidden{x}, Hidden{y}), k, "hidden-hidden");
    c.close(cov(Hidden{x}, Seen{y}), k * (2. + y), "hidden-seen");
    c.close(cov(Seen{x}, Hidden{y}), k * (2. + x), "seen-hidden");
    c.close(cov(Seen{x}, Seen{y}), k * (2. + x) * (2. + y), "seen-seen");
    c.close(cov(Measurement<Seen>(Seen{x}), Measurement<Seen>(Seen{y})), k * (2. + x) * (2. + y), "measured-seen-seen");
  };
  const ScalingTerm<ScaleSeen> s;
  if (left)
    check_all(s * Both());
  else
    check_all(Both() * s);
}

// Grids which represent a covariance over an interval.
MC_SCENARIO(state_space_grids) {
  const bool se = c.flip();
  const double l = c.pick<double>({0.1, 1., 33.});
  std::vector<double> xs;
  const int n = c.range(1, 3);
  for (int i = 0; i < n; ++i)
    xs.push_back(c.pick<double>({-4., 0., 0.5, 9.}));
  c << se << " " << l << " " << n;
  c.state(at(se, l, 0) + text(Vx(Eigen::Map<Vx>(xs.data(), n))));
  c.step();
  const auto g = se ? SquaredExponential<EuclideanDistance>(l, 1.).state_space_representation(xs) : Exponential<EuclideanDistance>(l, 1.).state_space_representation(xs);
  const double lo = *std::min_element(xs.begin(), xs.end()), hi = *std::max_element(xs.begin(), xs.end());
  c.check(g.size() >= 3, "grid-has-points");
  c.check(mc::near(g.front(), lo) && mc::near(g.back(), hi), "grid-covers-the-inputs");
  for (std::size_t i = 1; i < g.size(); ++i) {
    c.check(g[i] >= g[i - 1] - 1e-12, "grid-ascends");
    c.check(g[i] - g[i - 1] <= l / (se ? 5. : 10.), "grid-is-dense", std::to_string(g[i] - g[i - 1]));
  }
}
