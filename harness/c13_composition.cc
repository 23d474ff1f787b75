// C13: composed covariance and mean functions mean what the expression says
// (the trees over partially defined leaves are in c13_trees.inc).
#include <albatross/CovarianceFunctions>
#include <albatross/Dataset>
#include <Eigen/Eigenvalues>
#include <optional>
#include "mc.h"

using namespace albatross;

namespace {

bool eq(double a, double b) { return mc::near(a, b, 1e-11, 1e-11); }

// ---- mean functions over partially defined leaves ----
struct X {
  double v;
};
struct Y {
  double v;
};
struct Z {
  double v;
};
struct MeanX : public MeanFunction<MeanX> {
  int k = 1;
  double _call_impl(const X &x) const { return k + 2. * x.v; }
};
struct MeanY : public MeanFunction<MeanY> {
  int k = 1;
  double _call_impl(const Y &y) const { return k - y.v * y.v; }
};
struct MeanXY : public MeanFunction<MeanXY> {
  int k = 1;
  double _call_impl(const X &x) const { return x.v * k; }
  double _call_impl(const Y &y) const { return y.v + 3. * k; }
};
struct MeanAll : public MeanFunction<MeanAll> {
  int k = 1;
  template <typename T> double _call_impl(const T &t) const { return 0.5 * k; }
};
using Value = std::optional<double>;
struct Expr {
  std::function<Value(int, double)> f;
  std::string text;
};
Expr operator+(const Expr &a, const Expr &b) {
  return {[a, b](int t, double x) -> Value {
            const auto p = a.f(t, x), q = b.f(t, x);
            return p && q ? Value(*p + *q) : p ? p : q;
          },
          "(" + a.text + "+" + b.text + ")"};
}
Expr operator*(const Expr &a, const Expr &b) {
  return {[a, b](int t, double x) -> Value {
            const auto p = a.f(t, x), q = b.f(t, x);
            return p && q ? Value(*p * *q) : p ? p : q;
          },
          "(" + a.text + "*" + b.text + ")"};
}
Expr mean_expr(int kind, int k) {
  return {[kind, k](int t, double v) -> Value {
            if (kind == 0 && t == 0)
              return k + 2. * v;
            if (kind == 1 && t == 1)
              return k - v * v;
            if (kind == 2 && t == 0)
              return v * k;
            if (kind == 2 && t == 1)
              return v + 3. * k;
            if (kind == 3)
              return 0.5 * k;
            return {};
          },
          "M" + std::to_string(kind)};
}
template <typename F> void any_mean(mc::Ctx &c, int k, F f) {
  const auto with = [&](auto leaf, int kind) {
    leaf.k = k;
    f(leaf, mean_expr(kind, k));
  };
  switch (c.choose(4)) {
  case 0:
    with(MeanX(), 0);
    break;
  case 1:
    with(MeanY(), 1);
    break;
  case 2:
    with(MeanXY(), 2);
    break;
  default:
    with(MeanAll(), 3);
  }
}
template <typename T, bool FULL, typename M> void mean_at(mc::Ctx &c, int t, const M &m, const Expr &e) {
  const std::string where = e.text + " for type " + std::to_string(t);
  constexpr bool defined = has_valid_caller<M, T>::value;
  c.check(defined == e.f(t, 1.).has_value(), "mean-defined-exactly-where-a-part-is", where);
  if constexpr (defined) {
    if (!e.f(t, 1.))
      return;
    c.state(where);
    for (double x : {-1., 0., 0.5, 2.}) {
      c.step();
      c.check(eq(m(T{x}), *e.f(t, x)), "mean-value", where);
      c.check(eq(m(Measurement<T>(T{x})), *e.f(t, x)), "mean-of-a-measurement", where);
    }
    if constexpr (FULL)
    for (const auto &xs : std::vector<std::vector<double>>{{}, {0.5}, {2., -1., 0.5, 0.5}}) {
      c.step();
      std::vector<T> fx;
      for (double x : xs)
        fx.push_back(T{x});
      const Eigen::VectorXd v = m(fx);
      const auto n = static_cast<Eigen::Index>(xs.size());
      Eigen::VectorXd target = Eigen::VectorXd::LinSpaced(n, 1., 2.), removed = target;
      const Eigen::VectorXd start = target;
      m.add_to(fx, &target);
      m.remove_from(fx, &removed);
      bool ok = v.size() == n, adds = target.size() == n, removes = removed.size() == n;
      for (Eigen::Index i = 0; ok && i < n; ++i) {
        const double w = *e.f(t, xs[static_cast<std::size_t>(i)]);
        ok = eq(v[i], w);
        adds = adds && eq(target[i], start[i] + w);
        removes = removes && eq(removed[i], start[i] - w);
      }
      c.check(ok, "mean-vector", where);
      c.check(adds, "mean-add-to", where);
      c.check(removes, "mean-remove-from", where);
    }
  }
}
template <bool FULL = true, typename M> void means_everywhere(mc::Ctx &c, const M &m, const Expr &e) {
  c << e.text << " ";
  mean_at<X, FULL>(c, 0, m, e);
  mean_at<Y, FULL>(c, 1, m, e);
  mean_at<Z, FULL>(c, 2, m, e);
}

} // namespace

MC_SCENARIO(mean_expressions) {
  any_mean(c, 1, [&](const auto &a, const Expr &ae) {
    const int size = c.range(1, 3);
    if (size == 1) {
      means_everywhere(c, a, ae);
      return;
    }
    any_mean(c, 2, [&](const auto &b, const Expr &be) {
      if (size == 2) {
        switch (c.choose(4)) {
        case 0:
          means_everywhere(c, a + b, ae + be);
          break;
        case 1:
          means_everywhere(c, a * b, ae * be);
          break;
        case 2: { // the zero mean adds nothing
          const Expr zero = {[](int, double) -> Value { return 0.; }, "0"};
          means_everywhere(c, ZeroMean() + (a + b), zero + (ae + be));
          break;
        }
        default: {
          const Expr zero = {[](int, double) -> Value { return 0.; }, "0"};
          means_everywhere(c, a * ZeroMean() + b, ae * zero + be);
        }
        }
        return;
      }
      any_mean(c, 3, [&](const auto &d, const Expr &de) {
        switch (c.choose(4)) {
        case 0:
          means_everywhere<false>(c, (a + b) * d, (ae + be) * de);
          break;
        case 1:
          means_everywhere<false>(c, (a * b) + d, (ae * be) + de);
          break;
        case 2:
          means_everywhere<false>(c, a * (b + d), ae * (be + de));
          break;
        default:
          means_everywhere<false>(c, a + (b * d), ae + (be * de));
        }
      });
    });
  });
}

MC_SCENARIO(zero_and_linear_means) {
  ZeroMean zero;
  LinearMean linear;
  const double slope = c.pick<double>({-2., 0., 0.5}), offset = c.pick<double>({-1., 0., 3.});
  linear.set_param_value("slope", slope);
  linear.set_param_value("offset", offset);
  const std::vector<double> xs = {-1., 0., 2.5};
  c << slope << " " << offset;
  c.state(std::to_string(slope) + "," + std::to_string(offset));
  c.step();
  const Eigen::VectorXd z = zero(xs), l = linear(xs);
  for (std::size_t i = 0; i < xs.size(); ++i) {
    const auto k = static_cast<Eigen::Index>(i);
    c.check(z[k] == 0. && zero(xs[i]) == 0., "zero-mean");
    c.close(l[k], slope * xs[i] + offset, "linear-mean");
    c.close(linear(xs[i]), slope * xs[i] + offset, "linear-mean");
  }
  Eigen::VectorXd t = Eigen::VectorXd::Ones(3);
  zero.add_to(xs, &t);
  zero.remove_from(xs, &t);
  c.check(t == Eigen::VectorXd::Ones(3), "zero-mean-adds-nothing");
}

// ---- state space representations of sums and products ----
namespace {
struct SsrA : public CovarianceFunction<SsrA> {
  double _call_impl(const double &, const double &) const { return 1.; }
  std::vector<int> _ssr_impl(const std::vector<double> &xs) const {
    std::vector<int> out;
    for (double x : xs)
      out.push_back(static_cast<int>(x));
    return out;
  }
};
struct SsrB : public CovarianceFunction<SsrB> {
  double _call_impl(const double &, const double &) const { return 1.; }
  std::vector<int> _ssr_impl(const std::vector<double> &xs) const { return {100 + static_cast<int>(xs.size())}; }
};
struct SsrNone : public CovarianceFunction<SsrNone> {
  double _call_impl(const double &, const double &) const { return 1.; }
};
} // namespace

MC_SCENARIO(state_space_representations) {
  std::vector<double> xs;
  const int n = c.range(0, 3);
  for (int i = 0; i < n; ++i)
    xs.push_back(c.range(1, 3));
  std::vector<int> a, b = {100 + n};
  for (double x : xs)
    a.push_back(static_cast<int>(x));
  auto cat = [](std::vector<int> x, const std::vector<int> &y) {
    x.insert(x.end(), y.begin(), y.end());
    return x;
  };
  std::ostringstream os;
  for (int x : a)
    os << x << ",";
  c << os.str();
  c.state(os.str());
  c.step();
  SsrA A;
  SsrB B;
  SsrNone N;
  c.check((A + B).state_space_representation(xs) == cat(a, b), "ssr-sum");
  c.check((B + A).state_space_representation(xs) == cat(b, a), "ssr-sum");
  c.check((A * B).state_space_representation(xs) == cat(a, b), "ssr-product");
  c.check((A + N).state_space_representation(xs) == a, "ssr-of-one-side");
  c.check((N + A).state_space_representation(xs) == a, "ssr-of-one-side");
  c.check((N * B).state_space_representation(xs) == b, "ssr-of-one-side");
  c.check((B * N).state_space_representation(xs) == b, "ssr-of-one-side");
  c.check(((A + N) * B + A).state_space_representation(xs) == cat(cat(a, b), a), "ssr-nested");
}

// The forms over vectors: one value per input whatever the number of inputs,
// and adding or removing the mean concerns every entry.
namespace {
struct Uneven : public CovarianceFunction<Uneven> { // changes along the diagonal
  double _call_impl(const double &x, const double &y) const { return (1. + std::abs(x)) * (1. + std::abs(y)) / (1. + std::abs(x - y)); }
  double _call_impl(const X &x, const double &y) const { return x.v - 3. * y; }
};
double uneven(double x, double y) { return (1. + std::abs(x)) * (1. + std::abs(y)) / (1. + std::abs(x - y)); }

template <typename M> void mean_forms(mc::Ctx &c, const M &m, const std::function<double(double)> &want, const std::vector<double> &xs, const std::string &at) {
  const Eigen::Index n = static_cast<Eigen::Index>(xs.size());
  const Eigen::VectorXd got = m(xs);
  Eigen::VectorXd start(n);
  for (Eigen::Index i = 0; i < n; ++i)
    start[i] = 100. - 3. * static_cast<double>(i);
  Eigen::VectorXd added = start, removed = start;
  m.add_to(xs, &added);
  m.remove_from(xs, &removed);
  c.check(got.size() == n && added.size() == n && removed.size() == n, "mean-vector-size", at);
  for (Eigen::Index i = 0; i < n; ++i) {
    const double w = want(xs[static_cast<std::size_t>(i)]);
    const std::string where = at + " entry " + std::to_string(i);
    c.check(eq(got[i], w), "mean-vector", where);
    c.check(eq(added[i], start[i] + w), "mean-add-to", where);
    c.check(eq(removed[i], start[i] - w), "mean-remove-from", where);
  }
}
struct MeanConstant : public MeanFunction<MeanConstant> {
  double _call_impl(const double &) const { return 2.5; }
};
struct MeanSlope : public MeanFunction<MeanSlope> {
  double _call_impl(const double &x) const { return 1. - 2. * x; }
};
} // namespace

MC_SCENARIO(forms_over_vectors) {
  static const std::vector<int> sizes = {0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 20, 21, 31, 32, 33, 48, 63, 64, 65, 100};
  const int n = sizes[static_cast<std::size_t>(c.choose(static_cast<int>(sizes.size())))];
  const int order = c.choose(4); // increasing, decreasing, repeating, all alike
  std::vector<double> xs;
  for (int i = 0; i < n; ++i)
    xs.push_back(order == 0 ? 0.5 * i : order == 1 ? 7. - 0.25 * i : order == 2 ? (i * 7) % 5 - 2. : 1.5);
  const std::string at = "n " + std::to_string(n) + " order " + std::to_string(order);
  c << at;
  c.state(at);
  c.step();
  const MeanConstant k;
  const MeanSlope s;
  mean_forms(c, k, [](double) { return 2.5; }, xs, at + " constant");
  mean_forms(c, s, [](double x) { return 1. - 2. * x; }, xs, at + " slope");
  mean_forms(c, k + s, [](double x) { return 3.5 - 2. * x; }, xs, at + " sum");
  mean_forms(c, k * s, [](double x) { return 2.5 - 5. * x; }, xs, at + " product");
  mean_forms(c, ZeroMean(), [](double) { return 0.; }, xs, at + " zero");
  mean_forms(c, s + ZeroMean(), [](double x) { return 1. - 2. * x; }, xs, at + " plus zero");

  const Uneven u;
  const auto sum = u + u * u;
  const Eigen::VectorXd d = u.diagonal(xs), d2 = sum.diagonal(xs);
  const Eigen::MatrixXd m = u(xs), m2 = sum(xs);
  std::vector<X> left;
  for (int i = 0; i < std::min(n, 20) + 1; ++i)
    left.push_back({0.125 * i - 1.});
  const Eigen::MatrixXd cross = u(left, xs), back = u(xs, left);
  c.check(d.size() == n && d2.size() == n && m.rows() == n && m.cols() == n && m2.rows() == n && m2.cols() == n, "covariance-size", at);
  c.check(cross.rows() == static_cast<Eigen::Index>(left.size()) && cross.cols() == n && back.rows() == n && back.cols() == cross.rows(), "covariance-size", at);
  for (int i = 0; i < n; ++i) {
    const double x = xs[static_cast<std::size_t>(i)], own = uneven(x, x);
    c.check(eq(d[i], own) && eq(d2[i], own + own * own), "diagonal-entry", at + " entry " + std::to_string(i));
    for (int j = 0; j < n; ++j) {
      const double w = uneven(x, xs[static_cast<std::size_t>(j)]);
      c.check(eq(m(i, j), w) && eq(m2(i, j), w + w * w), "matrix-entry", at + " entry " + std::to_string(i) + " " + std::to_string(j));
    }
    for (std::size_t j = 0; j < left.size(); ++j) {
      const double w = left[j].v - 3. * x;
      c.check(eq(cross(static_cast<Eigen::Index>(j), i), w) && eq(back(i, static_cast<Eigen::Index>(j)), w), "cross-entry", at + " entry " + std::to_string(i) + " " + std::to_string(j));
    }
  }
}
