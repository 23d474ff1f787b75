// C13, part: every expression whose first leaf is of kind C13_LEAF.
// Included by c13_trees_<k>.cc so that the kinds compile in parallel.
#include <albatross/CovarianceFunctions>
#include <albatross/Dataset>
#include <optional>
#include "mc.h"

using namespace albatross;

namespace {

// Three input types; which leaf is defined for which pair differs.
struct X {
  double v;
};
struct Y {
  double v;
};
struct Z {
  double v;
};
template <typename T> constexpr int type_id = std::is_same<T, X>::value ? 0 : std::is_same<T, Y>::value ? 1 : 2;

double same_type(int k, double a, double b) { return 0.5 * k + a * b * (k + 1.) + (a + b); }
double cross_type(int k, double a, double b) { return 1.5 * k + a * a * b - 2. * b * k; } // a: the lower type

// 0: X,X  X,Y  Y,Y      1: Y,X (written in that order)  X,X
// 2: X,X  X,Z  Z,Z      3: Y,Y
struct Leaf0 : public CovarianceFunction<Leaf0> {
  int k = 1;
  std::string name() const { return "L0"; }
  double _call_impl(const X &a, const X &b) const { return same_type(k, a.v, b.v); }
  double _call_impl(const X &a, const Y &b) const { return cross_type(k, a.v, b.v); }
  double _call_impl(const Y &a, const Y &b) const { return same_type(k + 10, a.v, b.v); }
};
struct Leaf1 : public CovarianceFunction<Leaf1> {
  int k = 1;
  std::string name() const { return "L1"; }
  double _call_impl(const X &a, const X &b) const { return same_type(k + 20, a.v, b.v); }
  double _call_impl(const Y &a, const X &b) const { return cross_type(k + 20, b.v, a.v); }
};
struct Leaf2 : public CovarianceFunction<Leaf2> {
  int k = 1;
  std::string name() const { return "L2"; }
  double _call_impl(const X &a, const X &b) const { return same_type(k + 30, a.v, b.v); }
  double _call_impl(const X &a, const Z &b) const { return cross_type(k + 30, a.v, b.v); }
  double _call_impl(const Z &a, const Z &b) const { return same_type(k + 40, a.v, b.v); }
};
struct Leaf3 : public CovarianceFunction<Leaf3> {
  int k = 1;
  std::string name() const { return "L3"; }
  double _call_impl(const Y &a, const Y &b) const { return same_type(k + 50, a.v, b.v); }
};

using Value = std::optional<double>;
// The same table at run time.
Value leaf_value(int kind, int k, int t, double a, int u, double b) {
  if (t > u) {
    std::swap(t, u);
    std::swap(a, b);
  }
  switch (kind) {
  case 0:
    if (t == 0 && u == 0)
      return same_type(k, a, b);
    if (t == 0 && u == 1)
      return cross_type(k, a, b);
    if (t == 1 && u == 1)
      return same_type(k + 10, a, b);
    return {};
  case 1:
    if (t == 0 && u == 0)
      return same_type(k + 20, a, b);
    if (t == 0 && u == 1)
      return cross_type(k + 20, a, b);
    return {};
  case 2:
    if (t == 0 && u == 0)
      return same_type(k + 30, a, b);
    if (t == 0 && u == 2)
      return cross_type(k + 30, a, b);
    if (t == 2 && u == 2)
      return same_type(k + 40, a, b);
    return {};
  default:
    if (t == 1 && u == 1)
      return same_type(k + 50, a, b);
    return {};
  }
}

struct Expr {
  std::function<Value(int, double, int, double)> f;
  std::string text;
};
Expr operator+(const Expr &a, const Expr &b) {
  return {[a, b](int t, double x, int u, double y) -> Value {
            const auto p = a.f(t, x, u, y), q = b.f(t, x, u, y);
            if (p && q)
              return *p + *q;
            return p ? p : q;
          },
          "(" + a.text + "+" + b.text + ")"};
}
Expr operator*(const Expr &a, const Expr &b) {
  return {[a, b](int t, double x, int u, double y) -> Value {
            const auto p = a.f(t, x, u, y), q = b.f(t, x, u, y);
            if (p && q)
              return *p * *q;
            return p ? p : q;
          },
          "(" + a.text + "*" + b.text + ")"};
}

const std::vector<double> VALUES = {-1., 0.5, 2., 0.};
std::vector<std::vector<double>> lists() { return mc::tiered<std::vector<std::vector<double>>>({{}, {0.5}, {2., -1., 0.5}}, {{}, {0.5}, {2., -1., 0.5}, {2., 2.}, {0., -1., 0.5, 2.}}); }
template <typename T> std::vector<T> features(const std::vector<double> &v) {
  std::vector<T> out;
  for (double x : v)
    out.push_back(T{x});
  return out;
}
bool eq(double a, double b) { return mc::near(a, b, 1e-12, 1e-12); }

template <typename T, typename U, bool FULL, typename Cov> void at_types(mc::Ctx &c, const Cov &cov, const Expr &e) {
  const int t = type_id<T>, u = type_id<U>;
  const bool want_defined = e.f(t, 1., u, 1.).has_value();
  constexpr bool defined = has_valid_caller<Cov, T, U>::value;
  constexpr bool callable = has_call_operator<Cov, T, U>::value;
  const std::string where = e.text + " for types " + std::to_string(t) + std::to_string(u);
  c.check(defined == want_defined, "defined-exactly-where-a-part-is", where);
  c.check(callable == want_defined, "callable-exactly-where-a-part-is", where);
  if constexpr (defined) {
    if (!want_defined)
      return;
    c.state(where);
    for (double x : VALUES)
      for (double y : VALUES) {
        c.step();
        c.check(eq(cov(T{x}, U{y}), *e.f(t, x, u, y)), "value", where + " at " + std::to_string(x) + "," + std::to_string(y) + ": " + std::to_string(cov(T{x}, U{y})));
        c.check(eq(cov(T{x}, U{y}), cov(U{y}, T{x})), "symmetric-in-the-arguments", where);
        if constexpr (FULL)
          c.check(eq(cov(Measurement<T>(T{x}), U{y}), *e.f(t, x, u, y)) && eq(cov(Measurement<T>(T{x}), Measurement<U>(U{y})), *e.f(t, x, u, y)), "measurements-behave-as-values", where);
      }
    if constexpr (FULL)
    for (const auto &xs : lists())
      for (const auto &ys : lists()) {
        c.step();
        const auto fx = features<T>(xs);
        const auto fy = features<U>(ys);
        const Eigen::MatrixXd m = cov(fx, fy);
        bool ok = m.rows() == static_cast<Eigen::Index>(xs.size()) && m.cols() == static_cast<Eigen::Index>(ys.size());
        for (std::size_t i = 0; ok && i < xs.size(); ++i)
          for (std::size_t j = 0; ok && j < ys.size(); ++j)
            ok = eq(m(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j)), *e.f(t, xs[i], u, ys[j]));
        c.check(ok, "cross-covariance-matrix", where);
      }
  }
}
template <typename T, bool FULL, typename Cov> void at_type(mc::Ctx &c, const Cov &cov, const Expr &e) {
  const int t = type_id<T>;
  if constexpr (FULL && has_valid_caller<Cov, T, T>::value) {
    if (!e.f(t, 1., t, 1.))
      return;
    const std::string where = e.text + " for type " + std::to_string(t);
    for (const auto &xs : lists()) {
      c.step();
      const auto fx = features<T>(xs);
      const Eigen::MatrixXd m = cov(fx);
      const Eigen::VectorXd d = cov.diagonal(fx);
      const auto n = static_cast<Eigen::Index>(xs.size());
      bool ok = m.rows() == n && m.cols() == n, diag = d.size() == n;
      for (Eigen::Index i = 0; i < n; ++i) {
        for (Eigen::Index j = 0; ok && j < n; ++j)
          ok = eq(m(i, j), *e.f(t, xs[static_cast<std::size_t>(i)], t, xs[static_cast<std::size_t>(j)])) && m(i, j) == m(j, i);
        diag = diag && eq(d[i], *e.f(t, xs[static_cast<std::size_t>(i)], t, xs[static_cast<std::size_t>(i)]));
      }
      c.check(ok, "covariance-matrix", where);
      c.check(diag, "diagonal", where);
    }
  }
}
template <bool FULL, typename Cov> void everywhere(mc::Ctx &c, const Cov &cov, const Expr &e) {
  c << e.text << " ";
  switch (c.choose(9)) {
  case 0:
    at_types<X, X, FULL>(c, cov, e);
    at_type<X, FULL>(c, cov, e);
    break;
  case 1:
    at_types<Y, Y, FULL>(c, cov, e);
    at_type<Y, FULL>(c, cov, e);
    break;
  case 2:
    at_types<Z, Z, FULL>(c, cov, e);
    at_type<Z, FULL>(c, cov, e);
    break;
  case 3:
    at_types<X, Y, FULL>(c, cov, e);
    break;
  case 4:
    at_types<Y, X, FULL>(c, cov, e);
    break;
  case 5:
    at_types<X, Z, FULL>(c, cov, e);
    break;
  case 6:
    at_types<Z, X, FULL>(c, cov, e);
    break;
  case 7:
    at_types<Y, Z, FULL>(c, cov, e);
    break;
  default:
    at_types<Z, Y, FULL>(c, cov, e);
  }
}

Expr leaf_expr(int kind, int k) {
  return {[kind, k](int t, double x, int u, double y) { return leaf_value(kind, k, t, x, u, y); }, "L" + std::to_string(kind)};
}
template <typename F> void any_leaf(mc::Ctx &c, int k, F f) {
  const auto with = [&](auto leaf, int kind) {
    leaf.k = k;
    f(leaf, leaf_expr(kind, k));
  };
  switch (c.choose(4)) {
  case 0:
    with(Leaf0(), 0);
    break;
  case 1:
    with(Leaf1(), 1);
    break;
  case 2:
    with(Leaf2(), 2);
    break;
  default:
    with(Leaf3(), 3);
  }
}
template <typename F> void first_leaf(F f) {
#define C13_CAT_(a, b) a##b
#define C13_CAT(a, b) C13_CAT_(a, b)
  C13_CAT(Leaf, C13_LEAF) leaf;
  leaf.k = 1;
  f(leaf, leaf_expr(C13_LEAF, 1));
}

} // namespace

#define C13_SCENARIO_(n) MC_SCENARIO(expressions_from_leaf_##n)
#define C13_SCENARIO(n) C13_SCENARIO_(n)
C13_SCENARIO(C13_LEAF) {
  first_leaf([&](const auto &a, const Expr &ae) {
    const int size = c.range(1, 3);
    if (size == 1) {
      everywhere<true>(c, a, ae);
      return;
    }
    any_leaf(c, 2, [&](const auto &b, const Expr &be) {
      if (size == 2) {
        if (c.flip())
          everywhere<true>(c, a + b, ae + be);
        else
          everywhere<true>(c, a * b, ae * be);
        return;
      }
      any_leaf(c, 3, [&](const auto &d, const Expr &de) {
        switch (c.choose(6)) {
        case 0:
          everywhere<false>(c, (a + b) * d, (ae + be) * de);
          break;
        case 1:
          everywhere<false>(c, (a * b) + d, (ae * be) + de);
          break;
        case 2:
          everywhere<false>(c, a * (b + d), ae * (be + de));
          break;
        case 3:
          everywhere<false>(c, a + (b * d), ae + (be * de));
          break;
        case 4:
          everywhere<false>(c, a + b + d, ae + be + de);
          break;
        default:
          everywhere<false>(c, a * b * d, ae * be * de);
        }
      });
    });
  });
}
