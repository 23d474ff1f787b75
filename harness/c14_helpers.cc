// C14: mean functions of wrapped inputs, linear combination helpers.
#include <albatross/CovarianceFunctions>
#include <albatross/Dataset>
#include "mc.h"

using namespace albatross;

namespace {

struct X {
  double v;
  bool operator==(const X &o) const { return v == o.v; }
};
struct Y {
  double v;
  bool operator==(const Y &o) const { return v == o.v; }
};
using VXY = variant<X, Y>;

struct MeanBoth : public MeanFunction<MeanBoth> {
  double _call_impl(const X &x) const { return 1. + 2. * x.v; }
  double _call_impl(const Y &y) const { return 3. - y.v * y.v; }
};
struct MeanX : public MeanFunction<MeanX> {
  double _call_impl(const X &x) const { return 0.5 * x.v - 1.; }
};
struct MeanMeasured : public MeanFunction<MeanMeasured> { // tells measurements apart
  double _call_impl(const X &x) const { return x.v; }
  double _call_impl(const Measurement<X> &x) const { return x.value.v + 10.; }
};

double mean_both(int t, double v) { return t == 0 ? 1. + 2. * v : 3. - v * v; }
double mean_x(int t, double v) { return t == 0 ? 0.5 * v - 1. : 0.; }

struct Term {
  int t;
  double v, coef;
};
double pick_value(mc::Ctx &c) { return c.pick<double>({-1., 0.5, 2.}); }
VXY pick_variant(mc::Ctx &c, Term &t) {
  t.t = c.choose(2);
  t.v = pick_value(c);
  t.coef = 1.;
  return t.t == 0 ? VXY(X{t.v}) : VXY(Y{t.v});
}
template <typename M, typename F> double sum_of(const std::vector<Term> &terms, const M &, F f) {
  double s = 0.;
  for (const auto &t : terms)
    s += t.coef * f(t.t, t.v);
  return s;
}
std::string show(const std::vector<Term> &terms) {
  std::ostringstream os;
  for (const auto &t : terms)
    os << t.coef << (t.t == 0 ? "X" : "Y") << t.v << " ";
  return os.str();
}

template <typename M, typename F> void mean_of(mc::Ctx &c, const M &m, F f, bool y_defined) {
  const int form = c.choose(7);
  std::vector<Term> terms(1);
  double got = 0.;
  const double v = form < 3 ? pick_value(c) : 0.;
  switch (form) {
  case 0:
    terms[0] = {0, v, 1.};
    got = m(X{v});
    break;
  case 1:
    terms[0] = {0, v, 1.};
    got = m(Measurement<X>(X{v}));
    break;
  case 2:
    terms[0] = {0, v, 1.};
    got = m(variant<X>(X{v}));
    break;
  case 3: {
    const VXY x = pick_variant(c, terms[0]);
    got = m(x);
    const auto all = m(std::vector<VXY>{x, x});
    c.check(all.size() == 2 && mc::near(all[0], got) && mc::near(all[1], got), "mean-vector-of-variants");
    break;
  }
  case 4: {
    const VXY x = pick_variant(c, terms[0]);
    got = m(as_measurements(std::vector<VXY>{x})[0]);
    break;
  }
  case 5:
  default: {
    const int n = c.range(0, mc::tiered(3, 4));
    terms.clear();
    std::vector<X> xs;
    std::vector<VXY> vs;
    Eigen::VectorXd coefs(n);
    for (int i = 0; i < n; ++i) {
      Term t;
      if (form == 5) {
        t = {0, pick_value(c), 1.};
        xs.push_back(X{t.v});
      } else {
        vs.push_back(pick_variant(c, t));
      }
      t.coef = coefs[i] = c.pick<double>({-2., 1.});
      terms.push_back(t);
    }
    if (form == 5) {
      const LinearCombination<X> combo(xs, coefs);
      got = m(combo);
      c.check(mc::near(m(Measurement<LinearCombination<X>>(combo)), got), "mean-of-a-measured-combination");
      c.check(mc::near(m(variant<X, LinearCombination<X>>(combo)), got), "mean-of-a-variant-of-combinations");
    } else {
      if constexpr (has_valid_caller<M, LinearCombination<VXY>>::value)
        got = m(LinearCombination<VXY>(vs, coefs));
      else
        c.fail("mean-of-a-combination-of-variants-is-defined", "");
    }
  }
  }
  c << form << ": " << show(terms);
  c.state(std::to_string(form) + show(terms));
  c.step();
  c.close(got, sum_of(terms, m, f), "mean-of-wrapped", std::to_string(form) + ": " + show(terms), 1e-12, 1e-12);
}

} // namespace

MC_SCENARIO(means_of_wrapped_inputs) {
  switch (c.choose(5)) {
  case 0:
    return mean_of(c, MeanBoth(), mean_both, true);
  case 1:
    return mean_of(c, MeanX(), mean_x, false);
  case 2:
    return mean_of(c, MeanBoth() + MeanX(), [](int t, double v) { return mean_both(t, v) + mean_x(t, v); }, true);
  case 3: // a mean which accepts every type takes part in sums like any other
    return mean_of(c, MeanBoth() + ZeroMean(), mean_both, true);
  default:
    return mean_of(c, MeanBoth() * MeanX(), [](int t, double v) { return t == 0 ? mean_both(t, v) * mean_x(t, v) : mean_both(t, v); }, true);
  }
}

MC_SCENARIO(mean_which_tells_measurements_apart) {
  const double v = pick_value(c);
  const MeanMeasured m;
  c << v;
  c.state(std::to_string(v));
  c.step();
  c.close(m(X{v}), v, "mean-plain");
  c.close(m(Measurement<X>(X{v})), v + 10., "mean-measured");
  c.close(m(variant<Measurement<X>>(Measurement<X>(X{v}))), v + 10., "mean-variant-of-measured");
  c.close((m + MeanX())(Measurement<X>(X{v})), v + 10. + 0.5 * v - 1., "sum-of-means-measured");
}

// A covariance which is itself defined for measurements.
namespace {
struct CovMeasured : public CovarianceFunction<CovMeasured> {
  double _call_impl(const X &a, const X &b) const { return a.v * b.v; }
  double _call_impl(const Measurement<X> &a, const Measurement<X> &b) const { return a.value.v * b.value.v + 100.; }
};
struct CovMixed : public CovarianceFunction<CovMixed> {
  double _call_impl(const X &a, const X &b) const { return a.v * b.v; }
  double _call_impl(const Measurement<X> &a, const X &b) const { return a.value.v + 2. * b.v + 50.; }
  double _call_impl(const Measurement<X> &a, const Measurement<X> &b) const { return a.value.v * b.value.v + 100.; }
};
} // namespace

MC_SCENARIO(covariances_which_tell_measurements_apart) {
  const double a = pick_value(c), b = pick_value(c);
  const X x{a}, y{b};
  const Measurement<X> mx(x), my(y);
  c << a << " " << b;
  c.state(std::to_string(a) + "," + std::to_string(b));
  c.step();
  const CovMeasured k;
  c.close(k(x, y), a * b, "plain-plain");
  c.close(k(mx, y), a * b, "measured-plain");
  c.close(k(x, my), a * b, "plain-measured");
  c.close(k(mx, my), a * b + 100., "measured-measured");
  c.close((k + k)(mx, my), 2. * (a * b + 100.), "sum-measured-measured");
  c.close((k * k)(mx, y), a * b * a * b, "product-measured-plain");
  const CovMixed q;
  c.close(q(x, y), a * b, "mixed-plain-plain");
  c.close(q(mx, y), a + 2. * b + 50., "mixed-measured-plain");
  c.close(q(x, my), b + 2. * a + 50., "mixed-plain-measured");
  c.close(q(mx, my), a * b + 100., "mixed-measured-measured");
  // measurement_only: between two measurements only
  const auto only = measurement_only(CovMeasured());
  c.close(only(x, y), 0., "only-plain-plain");
  c.close(only(mx, y), 0., "only-measured-plain");
  c.close(only(x, my), 0., "only-plain-measured");
  c.close(only(mx, my), a * b, "only-measured-measured");
  const auto noisy = CovMeasured() * measurement_only(CovMeasured()) + CovMixed();
  c.close(noisy(mx, my), (a * b + 100.) * a * b + a * b + 100., "product-with-only");
  c.close(noisy(x, y), a * b, "product-with-only-plain");
}

MC_SCENARIO(measurement_helpers) {
  const int n = c.pick({0, 1, 2, 3, 9, 33, 100});
  const int shape = n > 3 ? c.choose(3) : 0; // longer ones are regular
  std::vector<X> xs;
  std::vector<VXY> vs;
  std::vector<Term> terms;
  for (int i = 0; i < n; ++i) {
    Term t;
    if (n <= 3) {
      vs.push_back(pick_variant(c, t));
    } else {
      t.t = shape == 0 ? i % 2 : shape == 1 ? (i < n / 2) : (i % 5 == 4);
      t.v = 0.25 * i - 3.;
      if (t.t == 0)
        vs.push_back(X{t.v});
      else
        vs.push_back(Y{t.v});
    }
    terms.push_back(t);
    xs.push_back(X{t.v});
  }
  c << show(terms);
  c.state(show(terms));
  c.step();
  const auto mx = as_measurements(xs);
  const auto mv = as_measurements(vs);
  c.check(mx.size() == xs.size() && mv.size() == vs.size(), "as-measurements-size");
  for (std::size_t i = 0; i < xs.size(); ++i) {
    c.check(mx[i].value == xs[i], "as-measurements-value");
    const bool ok = terms[i].t == 0 ? mv[i].is<Measurement<X>>() && mv[i].get<Measurement<X>>().value.v == terms[i].v : mv[i].is<Measurement<Y>>() && mv[i].get<Measurement<Y>>().value.v == terms[i].v;
    c.check(ok, "as-measurements-of-variants");
    c.check(without_measurement(mx[i]) == xs[i] && without_measurement(xs[i]) == xs[i] && without_measurement(as_measurement(xs[i])) == xs[i], "without-measurement");
  }
}

// sum, difference, mean, matrix * features.
MC_SCENARIO(linear_combination_helpers) {
  const int n = c.range(0, mc::tiered(2, 3));
  const int rows = c.range(0, 2);
  const int form = c.choose(3);
  std::vector<double> vs;
  for (int i = 0; i < n; ++i)
    vs.push_back(pick_value(c));
  std::vector<X> xs;
  for (double v : vs)
    xs.push_back(X{v});
  Eigen::MatrixXd m(rows, n);
  std::ostringstream os;
  for (Eigen::Index i = 0; i < rows; ++i)
    for (Eigen::Index j = 0; j < n; ++j) {
      m(i, j) = c.pick<double>({0., 1., -0.5});
      os << m(i, j) << ",";
    }
  for (double v : vs)
    os << " " << v;
  c << form << " " << os.str();
  c.state(std::to_string(form) + std::to_string(rows) + os.str());
  c.step();
  struct K : public CovarianceFunction<K> {
    double _call_impl(const X &a, const X &b) const { return 1. + a.v * b.v + a.v * a.v * b.v * b.v; }
  };
  const K k;
  Eigen::MatrixXd cov(n, n);
  for (Eigen::Index i = 0; i < n; ++i)
    for (Eigen::Index j = 0; j < n; ++j)
      cov(i, j) = 1. + vs[static_cast<std::size_t>(i)] * vs[static_cast<std::size_t>(j)] * (1. + vs[static_cast<std::size_t>(i)] * vs[static_cast<std::size_t>(j)]);
  const auto times = [&](const Eigen::MatrixXd &a) -> std::vector<LinearCombination<X>> {
    if (form == 0)
      return a * xs;
    Eigen::SparseMatrix<double> s = a.sparseView();
    if (form == 1)
      return s * xs;
    Eigen::SparseMatrix<double, Eigen::RowMajor> r = s;
    return r * xs;
  };
  const auto combos = times(m);
  c.check(static_cast<int>(combos.size()) == rows, "one-combination-per-row", os.str());
  const Eigen::MatrixXd got = k(combos);
  bool ok = got.rows() == rows && got.cols() == rows;
  for (Eigen::Index i = 0; ok && i < rows; ++i)
    for (Eigen::Index j = 0; ok && j < rows; ++j) {
      double want = 0.;
      for (Eigen::Index p = 0; p < n; ++p)
        for (Eigen::Index q = 0; q < n; ++q)
          want += m(i, p) * cov(p, q) * m(j, q);
      ok = mc::near(got(i, j), want, 1e-11, 1e-11);
    }
  c.check(ok, "matrix-times-features", os.str());
  // a second matrix on top of the combinations
  if (rows > 0 && !combos.empty()) {
    Eigen::MatrixXd top(1, rows);
    for (Eigen::Index i = 0; i < rows; ++i)
      top(0, i) = i == 0 ? 2. : c.pick<double>({0., -1.});
    std::vector<LinearCombination<X>> twice;
    if (form == 0)
      twice = top * combos;
    else {
      Eigen::SparseMatrix<double> s = top.sparseView();
      twice = s * combos;
    }
    c.check(twice.size() == 1, "matrix-times-combinations-size", os.str());
    double want = 0.;
    const Eigen::MatrixXd row = top * m;
    for (Eigen::Index p = 0; p < n; ++p)
      for (Eigen::Index q = 0; q < n; ++q)
        want += row(0, p) * cov(p, q) * row(0, q);
    c.close(k(twice[0], twice[0]), want, "matrix-times-combinations", os.str(), 1e-11, 1e-11);
  }
  // named combinations
  if (n >= 1) {
    const auto avg = linear_combination::mean(xs);
    double want = 0.;
    for (Eigen::Index p = 0; p < n; ++p)
      for (Eigen::Index q = 0; q < n; ++q)
        want += cov(p, q) / (n * n);
    c.close(k(avg, avg), want, "mean-of-features", os.str());
    const auto one = linear_combination::to_linear_combination(xs[0]);
    c.close(k(one, one), cov(0, 0), "single-combination", os.str());
    c.check(linear_combination::to_linear_combination(avg) == avg, "combination-stays", os.str());
    const LinearCombination<X> plain(xs);
    c.close(k(plain, plain), want * n * n, "default-coefficients-are-ones", os.str());
  }
  if (n >= 2) {
    const auto s = linear_combination::sum(xs[0], xs[1]);
    const auto d = linear_combination::difference(xs[0], xs[1]);
    c.close(k(s, s), cov(0, 0) + 2. * cov(0, 1) + cov(1, 1), "sum", os.str());
    c.close(k(d, d), cov(0, 0) - 2. * cov(0, 1) + cov(1, 1), "difference", os.str(), 1e-11, 1e-11);
    c.close(k(d, xs[0]), cov(0, 0) - cov(1, 0), "difference-and-plain", os.str(), 1e-11, 1e-11);
    c.close(k(xs[1], s), cov(1, 0) + cov(1, 1), "plain-and-sum", os.str());
  }
  c.check(mc::dies([&] { LinearCombination<X> bad(xs, Eigen::VectorXd::Ones(n + 1)); }), "mismatched-coefficients-are-refused");
}
MC_SCENARIO(combinations_of_two_types) {
  const double a = pick_value(c), b = pick_value(c);
  struct K : public CovarianceFunction<K> {
    double _call_impl(const X &x, const X &y) const { return 1. + x.v * y.v; }
    double _call_impl(const X &x, const Y &y) const { return x.v - y.v; }
    double _call_impl(const Y &x, const Y &y) const { return 2. + x.v * y.v; }
  };
  const K k;
  c << a << " " << b;
  c.state(std::to_string(a) + "," + std::to_string(b));
  c.step();
  const auto s = linear_combination::sum(X{a}, Y{b});
  const auto d = linear_combination::difference(Y{b}, X{a});
  const double xx = 1. + a * a, xy = a - b, yy = 2. + b * b;
  c.close(k(s, s), xx + 2. * xy + yy, "sum-of-two-types");
  c.close(k(d, d), xx - 2. * xy + yy, "difference-of-two-types", "", 1e-11, 1e-11);
  c.close(k(s, X{a}), xx + xy, "sum-and-plain");
  c.close(k(Y{b}, d), yy - xy, "plain-and-difference", "", 1e-11, 1e-11);
}
