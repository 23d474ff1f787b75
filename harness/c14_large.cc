// C14: linear combinations of many terms, many combinations, coefficients of
// any size, through every kind of element.
#include <albatross/CovarianceFunctions>
#include <albatross/Dataset>
#include "mc.h"

using namespace albatross;

namespace {

struct X {
  double v;
  bool operator==(const X &o) const { return v == o.v; }
};
struct Y {
  double v;
  bool operator==(const Y &o) const { return v == o.v; }
};
using V = variant<X, Y>;

double same_x(double a, double b) { return std::exp(-(a - b) * (a - b) / 8.) + 0.25; }
double same_y(double a, double b) { return 2. * std::exp(-(a - b) * (a - b) / 2.) + 0.5; }
double cross(double x, double y) { return 0.25 * x - 0.125 * y + 0.3; }
double noise(double a, double b) { return a == b ? 0.75 : 0.; }

struct K : public CovarianceFunction<K> {
  double _call_impl(const X &a, const X &b) const { return same_x(a.v, b.v); }
  double _call_impl(const X &a, const Y &b) const { return cross(a.v, b.v); }
  double _call_impl(const Y &a, const Y &b) const { return same_y(a.v, b.v); }
};
struct N : public CovarianceFunction<N> {
  double _call_impl(const X &a, const X &b) const { return noise(a.v, b.v); }
};
struct M : public MeanFunction<M> {
  double _call_impl(const X &x) const { return 1. + 2. * x.v; }
  double _call_impl(const Y &y) const { return 3. - y.v * y.v; }
};

struct Term {
  int t; // 0: X, 1: Y
  double v;
};
struct Combo {
  std::vector<Term> terms;
  Eigen::VectorXd coefs;
};

// Noise of measurements is that of plain values: none of what is asked here.
double k_of(const Term &a, const Term &b) {
  return a.t == b.t ? (a.t == 0 ? same_x(a.v, b.v) : same_y(a.v, b.v)) : a.t == 0 ? cross(a.v, b.v) : cross(b.v, a.v);
}
double m_of(const Term &a) { return a.t == 0 ? 1. + 2. * a.v : 3. - a.v * a.v; }

// Value and the size of what was summed.
std::pair<double, double> between(const Combo &a, const Combo &b) {
  long double sum = 0., size = 0.;
  for (std::size_t i = 0; i < a.terms.size(); ++i)
    for (std::size_t j = 0; j < b.terms.size(); ++j) {
      const long double one = static_cast<long double>(a.coefs[static_cast<Eigen::Index>(i)]) * b.coefs[static_cast<Eigen::Index>(j)] * k_of(a.terms[i], b.terms[j]);
      sum += one;
      size += std::fabs(one);
    }
  return {static_cast<double>(sum), static_cast<double>(size)};
}

template <typename T> T element(const Term &t);
template <> X element<X>(const Term &t) { return X{t.v}; }
template <> V element<V>(const Term &t) { return t.t == 0 ? V(X{t.v}) : V(Y{t.v}); }
template <typename T> LinearCombination<T> combination(const Combo &c) {
  std::vector<T> xs;
  for (const auto &t : c.terms)
    xs.push_back(element<T>(t));
  return LinearCombination<T>(xs, c.coefs);
}

Combo make(int n, bool both, int pattern, int scale) {
  Combo c;
  c.coefs.resize(n);
  for (int i = 0; i < n; ++i) {
    Term t;
    t.t = both ? (pattern == 0 ? i % 2 : pattern == 1 ? (i >= n / 2) : (i % 5 == 3)) : 0;
    t.v = pattern == 0 ? 0.375 * i - 2. : pattern == 1 ? 0.5 * (i % 4) : 0.25 * ((i * 7 + 3) % (n + 2));
    c.terms.push_back(t);
    double w = 1.;
    switch (pattern) {
    case 0:
      w = i % 2 ? -1. : 1.;
      break;
    case 1:
      w = 1. / (1. + i);
      break;
    default:
      w = i % 4 == 2 ? 0. : 0.25 * ((i * 5) % 7) - 0.5;
    }
    c.coefs[i] = std::ldexp(w, scale);
  }
  return c;
}

template <bool measured, typename T> auto wrap(const T &x) {
  if constexpr (measured)
    return Measurement<T>(x);
  else
    return x;
}

template <typename T, bool ma, bool mb> void large(mc::Ctx &c) {
  const bool both = std::is_same<T, V>::value;
  const int n = c.pick<int>({0, 1, 4, 5, 8, 9, 17, 33}), m = c.pick<int>({0, 1, 3, 6, 12, 33}), pattern = c.choose(3), scale = c.pick<int>({0, -60, 40}), noisy = c.choose(2);
  const Combo a = make(n, both, pattern, scale), b = make(m, both, (pattern + 1) % 3, 0), d = make(3, both, 0, -2);
  std::ostringstream os;
  os << (both ? "both types" : "one type") << (ma ? " measured" : "") << (mb ? " against measured" : "") << " terms " << n << " and " << m << " pattern " << pattern << " scale 2^" << scale << (noisy ? " with noise" : "");
  const std::string s = os.str();
  c << s;
  c.state(s);
  const auto la = wrap<ma>(combination<T>(a)), ld = wrap<ma>(combination<T>(d));
  const auto lb = wrap<mb>(combination<T>(b));
  using A = std::decay_t<decltype(la)>;
  using B = std::decay_t<decltype(lb)>;
  const auto check = [&](const auto &k) {
    const auto close = [&](double got, const Combo &x, const Combo &y, const char *key) {
      const auto want = between(x, y);
      const double size = want.second > 0. ? want.second : 1.;
      c.close(got / size, want.first / size, key, s, 1e-13, 1e-12);
    };
    close(k(la, lb), a, b, "combination-combination");
    close(k(lb, la), b, a, "combination-combination-reversed");
    close(k(la, la), a, a, "combination-itself");
    const std::vector<A> all = {la, ld};
    const std::vector<B> other = {lb, lb};
    const Combo *ps[] = {&a, &d};
    const Eigen::MatrixXd square = k(all), rect = k(all, other);
    const Eigen::VectorXd diag = k.diagonal(all);
    c.check(square.rows() == 2 && square.cols() == 2 && rect.rows() == 2 && rect.cols() == 2 && diag.size() == 2, "sizes", s);
    if (square.rows() != 2 || square.cols() != 2 || rect.rows() != 2 || rect.cols() != 2 || diag.size() != 2)
      return;
    for (int i = 0; i < 2; ++i) {
      for (int j = 0; j < 2; ++j) {
        close(square(i, j), *ps[i], *ps[j], "matrix-of-combinations");
        close(rect(i, j), *ps[i], b, "cross-matrix-of-combinations");
      }
      close(diag[i], *ps[i], *ps[i], "variances-of-combinations");
    }
    // a combination and its elements
    for (const Combo *p : ps)
      for (std::size_t i = 0; i < p->terms.size(); i += 5) {
        Combo one;
        one.terms.push_back(p->terms[i]);
        one.coefs = Eigen::VectorXd::Ones(1);
        for (int measured = 0; measured < 2; ++measured) {
          const T e = element<T>(p->terms[i]);
          const auto me = as_measurements(std::vector<T>{e})[0];
          close(measured ? k(la, me) : k(la, e), a, one, "combination-element");
          close(measured ? k(me, lb) : k(e, lb), one, b, "element-combination");
        }
      }
  };
  if (noisy)
    check(K() + measurement_only(N()));
  else
    check(K());
  long double mean = 0., size = 0.;
  for (int i = 0; i < n; ++i) {
    mean += static_cast<long double>(a.coefs[i]) * m_of(a.terms[static_cast<std::size_t>(i)]);
    size += std::fabs(static_cast<long double>(a.coefs[i]) * m_of(a.terms[static_cast<std::size_t>(i)]));
  }
  const double by = size > 0. ? static_cast<double>(size) : 1.;
  c.close(M()(la) / by, static_cast<double>(mean) / by, "mean-of-combination", s, 1e-13, 1e-12);
  const Eigen::VectorXd means = M()(std::vector<A>{ld, la});
  c.check(means.size() == 2, "means-of-combinations", s);
  if (means.size() == 2)
    c.close(means[1] / by, static_cast<double>(mean) / by, "means-of-combinations", s, 1e-13, 1e-12);
}

} // namespace

MC_SCENARIO(large_plain) { large<X, false, false>(c); }
MC_SCENARIO(large_measured) { large<X, true, true>(c); }
MC_SCENARIO(large_half_measured) { large<X, true, false>(c); }
MC_SCENARIO(large_variants) { large<V, false, false>(c); }
MC_SCENARIO(large_measured_variants) { large<V, true, true>(c); }
MC_SCENARIO(large_half_measured_variants) { large<V, false, true>(c); }

// Matrices times many features, and the mean of many.
MC_SCENARIO(large_matrices) {
  const int n = c.pick<int>({3, 5, 8, 9, 17, 40}), rows = c.pick<int>({1, 2, 5, 17, 40}), pattern = c.choose(4), form = c.choose(3);
  Eigen::MatrixXd m(rows, n);
  for (Eigen::Index i = 0; i < rows; ++i)
    for (Eigen::Index j = 0; j < n; ++j)
      m(i, j) = pattern == 0 ? 0.125 * ((i * 7 + j * 5) % 11) - 0.5 : pattern == 1 ? (i + j) % 3 == 0 : pattern == 2 ? std::ldexp(1., static_cast<int>((i * 3 + j * 11) % 81) - 40) : (i == j ? 2. : j == i + 1 ? -1. : 0.);
  std::vector<X> xs;
  for (int i = 0; i < n; ++i)
    xs.push_back(X{0.25 * ((i * 7) % (n + 1)) - 1.});
  std::ostringstream os;
  os << rows << "x" << n << " pattern " << pattern << " form " << form;
  const std::string s = os.str();
  c << s;
  c.state(s);
  std::vector<LinearCombination<X>> combos;
  if (form == 0) {
    combos = m * xs;
  } else if (form == 1) {
    const Eigen::SparseMatrix<double> sparse = m.sparseView();
    combos = sparse * xs;
  } else {
    const Eigen::SparseMatrix<double, Eigen::RowMajor> sparse = m.sparseView();
    combos = sparse * xs;
  }
  c.check(static_cast<int>(combos.size()) == rows, "one-combination-per-row", s);
  if (static_cast<int>(combos.size()) != rows)
    return;
  const Eigen::MatrixXd got = K()(combos);
  const Eigen::MatrixXd against = K()(combos, xs);
  for (Eigen::Index i = 0; i < rows; ++i) {
    for (Eigen::Index j = 0; j < rows; ++j) {
      long double want = 0., size = 0.;
      for (Eigen::Index p = 0; p < n; ++p)
        for (Eigen::Index q = 0; q < n; ++q) {
          const long double one = static_cast<long double>(m(i, p)) * m(j, q) * same_x(xs[static_cast<std::size_t>(p)].v, xs[static_cast<std::size_t>(q)].v);
          want += one;
          size += std::fabs(one);
        }
      const double by = size > 0. ? static_cast<double>(size) : 1.;
      c.check(mc::near(got(i, j) / by, static_cast<double>(want) / by, 1e-13, 1e-12), "matrix-times-features", s);
    }
    for (Eigen::Index q = 0; q < n; ++q) {
      long double want = 0., size = 0.;
      for (Eigen::Index p = 0; p < n; ++p) {
        const long double one = static_cast<long double>(m(i, p)) * same_x(xs[static_cast<std::size_t>(p)].v, xs[static_cast<std::size_t>(q)].v);
        want += one;
        size += std::fabs(one);
      }
      const double by = size > 0. ? static_cast<double>(size) : 1.;
      c.check(mc::near(against(i, q) / by, static_cast<double>(want) / by, 1e-13, 1e-12), "combinations-and-features", s);
    }
  }
  const auto avg = linear_combination::mean(xs);
  const LinearCombination<X> plain(xs);
  double all = 0.;
  for (const X &a : xs)
    for (const X &b : xs)
      all += same_x(a.v, b.v);
  c.close(K()(avg, avg), all / n / n, "mean-of-features", s, 1e-12, 1e-12);
  c.close(K()(plain, plain), all, "default-coefficients-are-ones", s, 1e-12, 1e-12);
}
