// C14, part: first argument wrapped as C14_FIRST, every wrapping of the second.
#include <albatross/CovarianceFunctions>
#include <albatross/Dataset>
#include "mc.h"

using namespace albatross;

namespace {

struct X {
  double v;
  bool operator==(const X &o) const { return v == o.v; }
};
struct Y {
  double v;
  bool operator==(const Y &o) const { return v == o.v; }
};

double same_type(int k, double a, double b) { return 0.5 * k + a * b * (k + 1.) + (a + b); }
double cross_type(int k, double a, double b) { return 1.5 * k + a * a * b - 2. * b * k; }

struct Full : public CovarianceFunction<Full> { // X,X X,Y Y,Y
  double _call_impl(const X &a, const X &b) const { return same_type(1, a.v, b.v); }
  double _call_impl(const X &a, const Y &b) const { return cross_type(1, a.v, b.v); }
  double _call_impl(const Y &a, const Y &b) const { return same_type(2, a.v, b.v); }
};
struct Reversed : public CovarianceFunction<Reversed> { // X,X Y,X Y,Y
  double _call_impl(const X &a, const X &b) const { return same_type(3, a.v, b.v); }
  double _call_impl(const Y &a, const X &b) const { return cross_type(2, b.v, a.v); }
  double _call_impl(const Y &a, const Y &b) const { return same_type(4, a.v, b.v); }
};
struct NoCross : public CovarianceFunction<NoCross> { // X,X Y,Y
  double _call_impl(const X &a, const X &b) const { return same_type(5, a.v, b.v); }
  double _call_impl(const Y &a, const Y &b) const { return same_type(6, a.v, b.v); }
};

// A scaling which only X knows.
struct ScaleX : public ScalingFunction {
  std::string get_name() const override { return "scale_x"; }
  double _call_impl(const X &a) const { return 2. + a.v; }
};

// One atom of a feature: type (0 X, 1 Y), value, coefficient.
struct Atom {
  int t;
  double v, coef;
};
// What a wrapped feature means.
struct Meaning {
  std::vector<Atom> atoms;
  bool measured = false;
  bool combined = false;
  std::string text;
};
// The reference covariance between two plain values.
struct Table {
  // (type, value, type, value, both are measurements of plain values)
  std::function<double(int, double, int, double, bool)> f;
  bool cross_defined;
  std::string text;
};
double full(int t, double a, int u, double b, bool) {
  if (t == u)
    return same_type(t == 0 ? 1 : 2, a, b);
  return t == 0 ? cross_type(1, a, b) : cross_type(1, b, a);
}
double reversed(int t, double a, int u, double b, bool) {
  if (t == u)
    return same_type(t == 0 ? 3 : 4, a, b);
  return t == 0 ? cross_type(2, a, b) : cross_type(2, b, a);
}
double no_cross(int t, double a, int u, double b, bool) { return t == u ? same_type(t == 0 ? 5 : 6, a, b) : 0.; }
double noise_x(int t, double a, int u, double b, bool measured) { return measured && t == 0 && u == 0 && a == b ? 0.25 : 0.; }

double expected(const Table &k, const Meaning &a, const Meaning &b) {
  const bool measured = a.measured && b.measured && !a.combined && !b.combined;
  double sum = 0.;
  for (const auto &p : a.atoms)
    for (const auto &q : b.atoms)
      sum += p.coef * q.coef * k.f(p.t, p.v, q.t, q.v, measured);
  return sum;
}

using VXY = variant<X, Y>;
using VYX = variant<Y, X>;
using MVXY = variant<Measurement<X>, Measurement<Y>>;
using LX = LinearCombination<X>;
using LY = LinearCombination<Y>;
using LV = LinearCombination<VXY>;
using VL = variant<X, LX, LY>;

// Which alternatives may the wrapper hold? (bit 0 X, bit 1 Y)
template <typename T> constexpr int holds();
template <> constexpr int holds<X>() { return 1; }
template <> constexpr int holds<Y>() { return 2; }
template <> constexpr int holds<Measurement<X>>() { return 1; }
template <> constexpr int holds<Measurement<Y>>() { return 2; }
template <> constexpr int holds<VXY>() { return 3; }
template <> constexpr int holds<VYX>() { return 3; }
template <> constexpr int holds<MVXY>() { return 3; }
template <> constexpr int holds<LX>() { return 1; }
template <> constexpr int holds<LY>() { return 2; }
template <> constexpr int holds<LV>() { return 3; }
template <> constexpr int holds<Measurement<LX>>() { return 1; }
template <> constexpr int holds<Measurement<LV>>() { return 3; }
template <> constexpr int holds<VL>() { return 3; }

double pick_value(mc::Ctx &c) { return c.pick<double>({-1., 0.5}); }

// Makes a feature and says what it means.
template <typename T> struct Maker;
template <> struct Maker<X> {
  static X make(mc::Ctx &c, Meaning &m) {
    const double v = pick_value(c);
    m.atoms = {{0, v, 1.}};
    m.text = "X" + std::to_string(v);
    return X{v};
  }
};
template <> struct Maker<Y> {
  static Y make(mc::Ctx &c, Meaning &m) {
    const double v = pick_value(c);
    m.atoms = {{1, v, 1.}};
    m.text = "Y" + std::to_string(v);
    return Y{v};
  }
};
template <typename T> struct Maker<Measurement<T>> {
  static Measurement<T> make(mc::Ctx &c, Meaning &m) {
    const Measurement<T> out = as_measurement(Maker<T>::make(c, m));
    m.measured = true;
    m.text = "M[" + m.text + "]";
    return out;
  }
};
template <> struct Maker<VXY> {
  static VXY make(mc::Ctx &c, Meaning &m) {
    VXY out = c.flip() ? VXY(Maker<X>::make(c, m)) : VXY(Maker<Y>::make(c, m));
    m.text = "V[" + m.text + "]";
    return out;
  }
};
template <> struct Maker<VYX> {
  static VYX make(mc::Ctx &c, Meaning &m) {
    VYX out = c.flip() ? VYX(Maker<X>::make(c, m)) : VYX(Maker<Y>::make(c, m));
    m.text = "V'[" + m.text + "]";
    return out;
  }
};
template <> struct Maker<MVXY> {
  static MVXY make(mc::Ctx &c, Meaning &m) {
    // the library's own way of measuring a variant
    const auto out = as_measurements(std::vector<VXY>{Maker<VXY>::make(c, m)});
    m.measured = true;
    m.text = "Ms[" + m.text + "]";
    return out.at(0);
  }
};
template <typename T> struct Maker<LinearCombination<T>> {
  static LinearCombination<T> make(mc::Ctx &c, Meaning &m) {
    const int n = c.range(0, mc::tiered(2, 3));
    std::vector<T> values;
    Eigen::VectorXd coefs(n);
    Meaning sum;
    sum.combined = true;
    sum.text = "L[";
    for (int i = 0; i < n; ++i) {
      Meaning one;
      values.push_back(Maker<T>::make(c, one));
      coefs[i] = c.pick<double>({-2., 1.});
      sum.atoms.push_back({one.atoms[0].t, one.atoms[0].v, coefs[i]});
      sum.text += std::to_string(coefs[i]) + one.text + " ";
    }
    sum.text += "]";
    m = sum;
    return LinearCombination<T>(values, coefs);
  }
};
template <> struct Maker<VL> {
  static VL make(mc::Ctx &c, Meaning &m) {
    VL out;
    switch (c.choose(3)) {
    case 0:
      out = Maker<X>::make(c, m);
      break;
    case 1:
      out = Maker<LX>::make(c, m);
      break;
    default:
      out = Maker<LY>::make(c, m);
    }
    m.text = "VL[" + m.text + "]";
    return out;
  }
};

template <typename A, typename B, typename Cov> void pair(mc::Ctx &c, const Cov &cov, const Table &k) {
  constexpr bool defined = has_valid_caller<Cov, A, B>::value;
  // every combination of alternatives is defined: the wrapping has to be, too
  const bool required = k.cross_defined || (holds<A>() == holds<B>() && holds<A>() != 3);
  if (required)
    c.check(defined && has_valid_caller<Cov, B, A>::value, "wrapped-pair-is-defined", k.text);
  if constexpr (defined) {
    Meaning ma, mb;
    const A a = Maker<A>::make(c, ma);
    const B b = Maker<B>::make(c, mb);
    c << k.text << ": " << ma.text << " , " << mb.text;
    c.state(k.text + ma.text + mb.text);
    c.step();
    const double want = expected(k, ma, mb);
    const std::string where = k.text + " of " + ma.text + " and " + mb.text;
    c.close(cov(a, b), want, "wrapped-value", where, 1e-12, 1e-12);
    if constexpr (has_valid_caller<Cov, B, A>::value)
      c.close(cov(b, a), want, "wrapped-value-swapped", where, 1e-12, 1e-12);
    // the same through the matrices
    const Eigen::MatrixXd m = cov(std::vector<A>{a, a}, std::vector<B>{b});
    c.check(m.rows() == 2 && m.cols() == 1 && mc::near(m(0, 0), want) && mc::near(m(1, 0), want), "wrapped-matrix", where);
  }
}

template <typename A, typename Cov> void second(mc::Ctx &c, const Cov &cov, const Table &k) {
  switch (c.choose(13)) {
  case 0:
    return pair<A, X>(c, cov, k);
  case 1:
    return pair<A, Y>(c, cov, k);
  case 2:
    return pair<A, Measurement<X>>(c, cov, k);
  case 3:
    return pair<A, Measurement<Y>>(c, cov, k);
  case 4:
    return pair<A, VXY>(c, cov, k);
  case 5:
    return pair<A, VYX>(c, cov, k);
  case 6:
    return pair<A, MVXY>(c, cov, k);
  case 7:
    return pair<A, LX>(c, cov, k);
  case 8:
    return pair<A, LY>(c, cov, k);
  case 9:
    return pair<A, LV>(c, cov, k);
  case 10:
    return pair<A, Measurement<LX>>(c, cov, k);
  case 11:
    return pair<A, Measurement<LV>>(c, cov, k);
  default:
    return pair<A, VL>(c, cov, k);
  }
}

} // namespace

#define C14_SCENARIO_(n) MC_SCENARIO(wrapped_##n)
#define C14_SCENARIO(n) C14_SCENARIO_(n)
C14_SCENARIO(C14_NAME) {
  using A = C14_FIRST;
  switch (c.choose(8)) {
  case 7:
    // known by one of the types: the other is left as it is
    return second<A>(c, Full() * ScalingTerm<ScaleX>(), {[](int t, double a, int u, double b, bool m) { return full(t, a, u, b, m) * (t == 0 ? 2. + a : 1.) * (u == 0 ? 2. + b : 1.); }, true, "full*scaling"});
  case 0:
    return second<A>(c, Full(), {full, true, "full"});
  case 1:
    return second<A>(c, Reversed(), {reversed, true, "reversed"});
  case 2:
    return second<A>(c, NoCross(), {no_cross, false, "no-cross"});
  case 3:
    return second<A>(c, Full() + Reversed() * NoCross(), {[](int t, double a, int u, double b, bool m) {
                                                            // a part which is not defined for a pair is ignored
                                                            return full(t, a, u, b, m) + reversed(t, a, u, b, m) * (t == u ? no_cross(t, a, u, b, m) : 1.);
                                                          },
                                                          true, "full+reversed*no-cross"});
  case 4:
    // a covariance which accepts every type takes part in combinations like any other
    return second<A>(c, Full() * Constant(0.5) + Constant(2.), {[](int t, double a, int u, double b, bool m) { return full(t, a, u, b, m) * 0.25 + 4.; }, true, "full*constant+constant"});
  case 5:
    return second<A>(c, NoCross() + Constant(2.), {[](int t, double a, int u, double b, bool m) { return no_cross(t, a, u, b, m) + 4.; }, true, "no-cross+constant"});
  default:
    return second<A>(c, Full() + measurement_only(IndependentNoise<X>(0.5)), {[](int t, double a, int u, double b, bool m) { return full(t, a, u, b, m) + noise_x(t, a, u, b, m); }, true, "full+measurement-noise"});
  }
}
