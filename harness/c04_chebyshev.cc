// C04: Chebyshev polynomials against recurrence and trigonometric definition.
#include <albatross/Common>
#include <albatross/src/polynomial/chebyshev.hpp>
#include "mc.h"

using namespace albatross;
typedef long double L;

namespace {

L ref(int kind, int n, L x) {
  L a = 1, b = kind == 1 ? x : 2 * x;
  if (n == 0)
    return a;
  for (int i = 2; i <= n; ++i) {
    const L t = 2 * x * b - a;
    a = b;
    b = t;
  }
  return b;
}

double tol(int n) { return 1e-12 * (1.0 + n) * (1.0 + n); }

Eigen::ArrayXd eval(int kind, int n, const Eigen::ArrayXd &x) {
  return kind == 1 ? chebyshev_t(n, x) : chebyshev_u(n, x);
}
Eigen::ArrayXXd basis(int kind, int n, const Eigen::ArrayXd &x) {
  return kind == 1 ? chebyshev_t_phi(n, x) : chebyshev_u_phi(n, x);
}

// A dense grid of [-1, 1] with the special points.
double point(int i, int n) {
  if (i == 0)
    return -1;
  if (i == n - 1)
    return 1;
  if (i == n - 2)
    return std::cos(0.3);
  if (i == n - 3)
    return 1e-9;
  return -1.0 + 2.0 * i / (n - 4);
}

} // namespace

MC_SCENARIO(pointwise) {
  const int kind = c.range(1, 2);
  // every degree up to a bound, and some well past it
  const int bound = mc::tiered(40, 150);
  const int j = c.range(0, bound + 6);
  const int n = j <= bound ? j : std::vector<int>{47, 64, 65, 100, 129, 200}[j - bound - 1];
  const int N = mc::tiered(84, 404);
  const double x = point(c.choose(N), N);
  const Eigen::ArrayXd xs = Eigen::ArrayXd::Constant(1, x);
  c << (kind == 1 ? "T" : "U") << n << "(" << x << ")";
  c.state(c.text);
  const auto v = eval(kind, n, xs);
  c.check(v.size() == 1, "size");
  c.close(v[0], static_cast<double>(ref(kind, n, x)), "recurrence", "", 0, tol(n));
  const L t = acosl(static_cast<L>(x));
  if (kind == 1)
    c.close(v[0], static_cast<double>(cosl(n * t)), "cosine", "", 0, 10 * tol(n));
  else if (std::fabs(x) < 0.999)
    c.close(v[0], static_cast<double>(sinl((n + 1) * t) / sinl(t)), "sine", "", 0, 1000 * tol(n));
  // bounds and end points
  if (kind == 1)
    c.check(std::fabs(v[0]) <= 1 + tol(n), "bounded");
  else
    c.check(std::fabs(v[0]) <= n + 1 + tol(n), "bounded");
  if (x == 1)
    c.check(v[0] == (kind == 1 ? 1.0 : n + 1.0), "value-at-one");
}

// Vectors: every length, each position independent of the others; the basis
// matrix column by column.
MC_SCENARIO(vectors_and_basis) {
  const int kind = c.range(1, 2);
  const int n = c.range(0, mc::tiered(12, 20));
  const int len = c.range(0, mc::tiered(3, 4));
  Eigen::ArrayXd xs(len);
  for (int i = 0; i < len; ++i)
    xs[i] = c.pick({-1.0, -0.3, 0.0, 0.5, 0.99});
  const Eigen::ArrayXd before = xs;
  c << (kind == 1 ? "T" : "U") << n << " of " << xs.transpose();
  c.state(c.text);
  const auto phi = basis(kind, n, xs);
  c.check(phi.rows() == len && phi.cols() == n + 1, "basis-shape");
  const auto v = eval(kind, n, xs);
  c.check(v.size() == len, "vector-size");
  for (int i = 0; i < len; ++i) {
    c.close(v[i], static_cast<double>(ref(kind, n, xs[i])), "vector", "", 0, tol(n));
    for (int k = 0; k <= n; ++k)
      c.close(phi(i, k), static_cast<double>(ref(kind, k, xs[i])), "basis-column", "column " + std::to_string(k), 0, tol(n));
  }
  c.check((xs == before).all(), "argument-changed");
}

// Longer vectors and more columns.
MC_SCENARIO(large_bases) {
  const int kind = c.range(1, 2);
  const int n = c.pick({0, 1, 2, 15, 16, 31, 33, 64, 100});
  const int len = c.pick({1, 5, 8, 9, 16, 17, 33, 64, 100, 257});
  const bool descending = c.flip();
  Eigen::ArrayXd xs(len);
  for (int i = 0; i < len; ++i)
    xs[i] = len == 1 ? 0.25 : -1. + 2. * (descending ? len - 1 - i : i) / (len - 1);
  const Eigen::ArrayXd before = xs;
  c << (kind == 1 ? "T" : "U") << n << " of " << len << " points" << (descending ? ", descending" : "");
  c.state(c.text);
  const auto phi = basis(kind, n, xs);
  c.check(phi.rows() == len && phi.cols() == n + 1, "basis-shape");
  const auto v = eval(kind, n, xs);
  c.check(v.size() == len, "vector-size");
  for (int i = 0; i < len; ++i) {
    c.close(v[i], static_cast<double>(ref(kind, n, xs[i])), "vector", "", 0, tol(n));
    for (int k = 0; k <= n; ++k)
      c.close(phi(i, k), static_cast<double>(ref(kind, k, xs[i])), "basis-column", "column " + std::to_string(k), 0, tol(n));
  }
  c.check((xs == before).all(), "argument-changed");
}

// T and U are related: T_n = U_n - x U_{n-1}, T_n(T_m) = T_{nm}.
MC_SCENARIO(identities) {
  const int n = c.range(1, mc::tiered(12, 25));
  const int m = c.range(1, mc::tiered(6, 12));
  const int N = 24;
  const double x = point(c.choose(N), N);
  const Eigen::ArrayXd xs = Eigen::ArrayXd::Constant(1, x);
  c << "n=" << n << " m=" << m << " x=" << x;
  c.state(c.text);
  c.close(chebyshev_t(n, xs)[0], chebyshev_u(n, xs)[0] - x * chebyshev_u(n - 1, xs)[0], "T-from-U", "", 0, 10 * tol(n));
  c.close(chebyshev_t(n, chebyshev_t(m, xs))[0], chebyshev_t(n * m, xs)[0], "composition", "", 0, 100 * tol(n * m));
}

MC_SCENARIO(negative_degrees_are_refused) {
  const int n = -c.range(1, 3);
  const int what = c.choose(4);
  const Eigen::ArrayXd xs = Eigen::ArrayXd::Constant(1, 0.5);
  c.check(mc::dies([&] {
            if (what < 2)
              (void)eval(what + 1, n, xs);
            else
              (void)basis(what - 1, n, xs);
          }),
          "negative-degree");
}
